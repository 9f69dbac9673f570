"""Developer tool (not part of any check): compares the abstract semantics of library and language constructs with the real
interpreter on constant programs (zz_*.py).  The checks themselves never run code of /repo."""
import sys; sys.path.insert(0,'/verif')  # noqa
import subprocess, json, math
from ellstat.lab import *
lab=Lab('/tmp/conf/repo/products/ellipy')
def conc(E,v):
    v=E.use(v)
    if isinstance(v,S):
        c=pyconst(v); return c if c is not None else '?'+str(v)[:60]
    if isinstance(v,str) or v is None: return v
    if isinstance(v,Tup): return [conc(E,x) for x in v.items]
    if isinstance(v,Ref) and v.kind=='list': return [conc(E,x) for x in E.iterate(v)]
    if isinstance(v,Ref) and v.kind=='arr': return ['A']+[conc(E,x) for x in E.elems(v)]
    return '?%r'%type(v)
res={}
names=[n for n in open('/tmp/conf/repo/products/ellipy/zz.py').read().split() if n[0] in 'fg' and n.endswith('():')]
names=[n[:-3] for n in names]
for n in names:
    def body(sc,n=n):
        try:
            f=sc.get('ellipy.zz:'+n)
            r=sc.call(f)
            res[n]=conc(lab.E,r)
        except Exception as e:
            res[n]='EXC %s %s'%(type(e).__name__,str(e)[:150]); raise
    try: lab.run('x'+n,body)
    except Lost: res[n]='LOST'
out=subprocess.run(['/opt/pypyenv/bin/python','-c','''
import sys,json; sys.path.insert(0,"/tmp/conf/repo/products")
sys.dont_write_bytecode=True
import numpy as np
import ellipy.zz as z
def c(v):
    if isinstance(v,(list,tuple)): return [c(x) for x in v]
    if hasattr(v,"item"): return v.item()
    return v
r={}
for n in %r:
    try: r[n]=c(getattr(z,n)())
    except Exception as e: r[n]="PYEXC "+repr(e)
print(json.dumps(r))'''%(names,)],capture_output=True,text=True)
if not out.stdout: print(out.stderr[-500:])
act=json.loads(out.stdout.splitlines()[-1])
def eq(a,b):
    if isinstance(a,list) and isinstance(b,list): return len(a)==len(b) and all(map(eq,a,b))
    if isinstance(a,str) or isinstance(b,str) or isinstance(a,list) or isinstance(b,list): return a==b
    return a==b or abs(a-b)<1e-9
for n in names:
    ok=eq(res.get(n),act[n])
    print(n,'ok' if ok else 'DIFF %s | %s'%(str(res.get(n))[-900:],str(act[n])[-900:]))
