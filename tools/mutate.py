"""Sensitivity study: apply one small syntactic change at a time to a scratch copy and see which checks notice.

python3 tools/mutate.py --kinds guard,cmp --props C06,C07 --files la.py,gen.py [--every 3] [--jobs 8]
A development tool, not a check: nothing in MANIFEST.json runs it.
"""
import argparse
import ast
import copy
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SRC = '/repo/products/ellipy'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def is_throw(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and getattr(s.value.func, 'id', '') == 'throw_error'


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is}
REV = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
NAMES = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min', 'logical_and': 'logical_or', 'eigvalsh': None, 'floor': 'ceil',
         'ceil': 'floor', 'zeros': 'ones', 'ones': 'zeros', 'sin': 'cos', 'cos': 'sin', 'maximum': 'minimum', 'hstack': None,
         'isfinite': 'isreal', 'isnan': 'isinf'}


def sites(tree, kinds):
    out = []
    for n in ast.walk(tree):
        ln = getattr(n, 'lineno', 0)
        if 'guard' in kinds and isinstance(n, ast.If) and any(is_throw(s) for s in n.body):
            out.append(('guard', ln, n, lambda n: setattr(n, 'test', ast.Constant(False))))
            if isinstance(n.test, ast.BoolOp):
                for i in range(len(n.test.values)):
                    out.append(('guardpart%d' % i, ln, n.test, lambda t, i=i: t.values.pop(i)))
            for m in ast.walk(n.test):
                if isinstance(m, ast.BoolOp) and m is not n.test:
                    for i in range(len(m.values)):
                        out.append(('guardsub%d' % i, ln, m, lambda t, i=i: t.values.pop(i)))
        if 'cmp' in kinds and isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append(('cmp', ln, n, lambda n: n.ops.__setitem__(0, CMP[type(n.ops[0])]())))
            if type(n.ops[0]) in REV:
                out.append(('rev', ln, n, lambda n: n.ops.__setitem__(0, REV[type(n.ops[0])]())))
        if 'bool' in kinds and isinstance(n, ast.BoolOp):
            out.append(('bool', ln, n, lambda n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And())))
        if 'bin' in kinds and isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            out.append(('bin', ln, n, lambda n: setattr(n, 'op', BIN[type(n.op)]())))
        if 'name' in kinds and isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)
            if NAMES.get(nm):
                out.append(('name', ln, f, lambda f, nm=nm: setattr(f, 'attr' if isinstance(f, ast.Attribute) else 'id',
                                                                   NAMES[nm])))
        if 'const' in kinds and isinstance(n, ast.Constant) and type(n.value) in (int, float) and abs(n.value) < 1e6:
            out.append(('const', ln, n, lambda n: setattr(n, 'value', n.value + 1 if n.value != 1 else 2)))
        if 'T' in kinds and isinstance(n, ast.Attribute) and n.attr == 'T' and isinstance(n.ctx, ast.Load):
            out.append(('T', ln, n, 'inner'))
        if 'copy' in kinds and isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)
            if nm == 'copy':
                out.append(('copy', ln, n, 'arg' if n.args else 'recv'))
            if nm in ('array', 'flatten', 'abs', 'sqrt') and (n.args or nm == 'flatten'):
                out.append((nm, ln, n, 'arg' if n.args else 'recv'))
        if 'neg' in kinds and isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            out.append(('neg', ln, n, 'operand'))
        if 'stmt' in kinds and isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While)):
            for i, s in enumerate(n.body):
                if isinstance(s, (ast.Assign, ast.AugAssign)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) \
                        and not is_throw(s):
                    out.append(('stmt', s.lineno, n, lambda n, i=i: n.body.__setitem__(i, ast.Pass())))
        if 'kw' in kinds and isinstance(n, ast.Call) and n.keywords:
            for i, k in enumerate(n.keywords):
                if k.arg:
                    out.append(('kw-' + k.arg, ln, n, lambda n, i=i: n.keywords.pop(i)))
    return out


def mutate(text, kinds, i):
    tree = ast.parse(text)
    kind, ln, node, act = sites(tree, kinds)[i]
    before = ast.unparse(node)[:80]
    if isinstance(act, str):
        new = {'inner': lambda: node.value, 'arg': lambda: node.args[0], 'recv': lambda: node.func.value,
               'operand': lambda: node.operand}[act]()

        class R(ast.NodeTransformer):
            def visit(self, n):
                if n is node:
                    return new
                return self.generic_visit(n)
        tree = R().visit(tree)
        after = ast.unparse(new)[:80]
    else:
        act(node)
        after = ast.unparse(node)[:80]
    return ast.unparse(ast.fix_missing_locations(tree)), '%s line %d: %s  ->  %s' % (kind, ln, before.split('\n')[0],
                                                                                     after.split('\n')[0])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--kinds', default='guard')
    ap.add_argument('--props', required=True)
    ap.add_argument('--files', default='')
    ap.add_argument('--every', type=int, default=1)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--only-survivors', action='store_true')
    ap.add_argument('--lines', default='0-99999')
    ap.add_argument('--func', default='')
    a = ap.parse_args()
    kinds = set(a.kinds.split(','))
    work = []
    for dp, dn, fn in sorted(os.walk(SRC)):
        if '/test' in dp:
            continue
        for f in sorted(fn):
            p = os.path.join(dp, f)
            if f.endswith('.py') and not f.startswith('test') and (not a.files or any(p.endswith(x) for x in a.files.split(','))):
                t = open(p).read()
                lo, hi = map(int, a.lines.split('-'))
                for i, st in enumerate(sites(ast.parse(t), kinds)):
                    if lo <= st[1] <= hi:
                        work.append((p, i))
    work = work[a.start::a.every]
    print('mutants:', len(work), flush=True)
    pool = [tempfile.mkdtemp(prefix='mut') for _ in range(a.jobs)]
    for d in pool:
        shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('.git'))
    free = list(pool)

    def one(w):
        p, i = w
        d = free.pop()
        try:
            text = open(p).read()
            try:
                new, desc = mutate(text, kinds, i)
            except Exception as e:
                return w, 'ERR %r' % e, []
            q = d + p
            with open(q, 'w') as f:
                f.write(new)
            env = dict(os.environ, ELLSTAT_REPO=d + '/repo', ELLSTAT_EVIDENCE=d + '/ev')
            hit = []
            for pr in a.props.split(','):
                r = subprocess.run([sys.executable, '-m', 'ellstat.run', '--prop', pr, '--procs', '1', '--first'], cwd=VERIF, env=env,
                                   capture_output=True, text=True)
                if r.returncode == 1:
                    hit.append(pr)
                    break
                if r.returncode != 0:
                    hit.append(pr + '?%d' % r.returncode)
            with open(q, 'w') as f:
                f.write(text)
            return w, desc, hit
        finally:
            free.append(d)
    n = k = 0
    with ThreadPoolExecutor(a.jobs) as ex:
        for w, desc, hit in ex.map(one, work):
            n += 1
            k += any('?' not in h for h in hit)
            if not (a.only_survivors and hit and '?' not in hit[0]):
                print('%-10s %s %s' % (','.join(hit) or 'SURVIVED', os.path.basename(w[0]), desc), flush=True)
    print('detected %d of %d' % (k, n))
    for d in pool:
        shutil.rmtree(d)


main()
