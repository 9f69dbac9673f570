"""Abstract interpreter for the repository's Python subset.

Whole-program (calls are analysed in the context of their call sites), joins at
control-flow merges with gated (ite) values, trace partitioning only where two
branches leave heap shapes that cannot be joined.
"""
import ast
import builtins
import os
import sys

from .values import *
from .pymodel import PyModel
from .npmodel import NpModel

sys.setrecursionlimit(20000)
TARGET = os.environ.get('ELLSTAT_REPO', '/repo') + '/products/ellipy'
STEP_BUDGET = 4000000


class Mangler(ast.NodeTransformer):
    def __init__(self):
        self.cls = []

    def m(self, n):
        if self.cls and n.startswith('__') and not n.endswith('__'):
            return '_' + self.cls[-1].lstrip('_') + n
        return n

    def visit_ClassDef(self, node):
        node.name0 = node.name
        self.cls.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.cls.pop()
        return node

    def visit_FunctionDef(self, node):
        node.name0 = node.name
        node.name = self.m(node.name)
        self.generic_visit(node)
        return node

    def visit_Name(self, node):
        node.id = self.m(node.id)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        node.attr = self.m(node.attr)
        return node

    def visit_arg(self, node):
        self.generic_visit(node)
        node.arg = self.m(node.arg)
        return node

    def visit_Nonlocal(self, node):
        node.names = [self.m(n) for n in node.names]
        return node

    visit_Global = visit_Nonlocal


def local_names(node):
    """names local to a function / lambda / comprehension node"""
    out, glob, nonl = set(), set(), set()
    a = getattr(node, 'args', None)
    if isinstance(a, ast.arguments):
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            out.add(x.arg)
        if a.vararg:
            out.add(a.vararg.arg)
        if a.kwarg:
            out.add(a.kwarg.arg)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    out.add(w.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                if al.name != '*':
                    out.add(al.asname or al.name.split('.')[0])
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    return out - glob - nonl, glob, nonl


class Frame:
    __slots__ = ('id', 'parent', 'kind', 'locals', 'glob', 'nonl', 'mod', 'cls', 'qual', 'ctx', 'first')

    def __init__(self, id, parent, kind, locs, mod, qual, glob=(), nonl=(), cls=None):
        self.id, self.parent, self.kind, self.locals = id, parent, kind, locs
        self.glob, self.nonl = glob, nonl
        self.mod, self.qual, self.cls = mod, qual, cls
        self.first = None


STAR_NAMES = frozenset('sin cos tan exp log log2 log10 sqrt array zeros ones eye pi e arange linspace sinh cosh tanh arcsin arccos '
                       'arctan square sign diag dot sum'.split())


class Engine(PyModel, NpModel):
    def __init__(self, root=None):
        self.stack_frames = {}
        self.root = root or TARGET
        self.store = {}
        self.parsed = {}
        self.ref = {}
        self.known = {}
        self.risk = frozenset()
        self.path = ()
        self.next_id = 0
        self.frames = {}
        self.modules = {}
        self.decisions = {}
        self.watch = None
        self.counts = {}
        self.ctxs = {}
        self.pend = []
        self.stack = []
        self.events = []
        self.may_raise = []
        self.origin = {}
        self.alloc_site = {}
        self.fn_cache = {}
        self.steps = 0
        self.try_depth = 0
        self.funcs_seen = {}
        self.call_sites = set()
        self.cur = None
        self.unk_calls = {}
        self.parse_errors = []
        self.intercept = {}
        self.fresh_n = 0
        self.classes = []
        self.exact = {}

    # ------------------------------------------------------------ state
    def snap(self):
        return (dict(self.store), dict(self.ref), dict(self.known), self.risk, self.path)

    def restore(self, s):
        self.store, self.ref, self.known = dict(s[0]), dict(s[1]), dict(s[2])
        self.risk, self.path = s[3], s[4]

    def set_state(self, s):
        self.store, self.ref, self.known, self.risk, self.path = s

    def nid(self):
        self.next_id += 1
        return self.next_id

    def event(self, kind, **kw):
        where = self.where()
        self.events.append(dict(kind=kind, where=where, stack=[q for q, _ in self.stack[-6:]],
                                maybe=len(self.path), **kw))

    def where(self):
        if self.stack:
            q, _ = self.stack[-1]
        else:
            q = '<module>'
        n = self.cur
        fr = self.frames.get(self.frame) if hasattr(self, 'frame') else None
        return '%s:%s (%s)' % (fr.mod if fr else '?', getattr(n, 'lineno', '?'), q)

    # ------------------------------------------------------------ merge
    def merge(self, A, B, cond, g):
        sa, sb = A[0], B[0]
        out = dict(sb)
        cand = []
        for k, v in sa.items():
            w = out.get(k, out)
            if w is v:
                continue
            if w is out:
                out[k] = v
            else:
                out[k] = self.phi(v, w, cond, g, A[1], B[1])
                if type(v) is Ref and type(w) is Ref and v.kind == 'arr' == w.kind and v.id != w.id and k[0] == 'v':
                    cand.append((k, v, w))
        if cand:
            self.fuse(cand, sa, sb, out, cond, g, A[1], B[1])
        ref = {}
        for k, v in A[1].items():
            w = B[1].get(k)
            if w is not None:
                ref[k] = i_hull(v, w)
        known = {k: v for k, v in A[2].items() if B[2].get(k) == v}
        path = A[4] if A[4] == B[4] else tuple(x for x in A[4] if x in B[4])
        self.set_state((out, ref, known, A[3] | B[3], path))

    def fuse(self, cand, sa, sb, out, cond, g, ra, rb):
        """a variable holding one fresh array on one path and another on the other one: one array of merged elements,
        provided that nothing else refers to either"""
        for k, v, w in cand:
            ar, br = sa.get(('a', v.id)), sb.get(('a', w.id))
            if ar is None or br is None or min(v.id, w.id, ar.buf, br.buf) <= k[1]:
                continue
            if ar.shape != br.shape or ar.dtype != br.dtype or ar.dtype == 'O':
                continue
            ea, eb = sa.get(('b', ar.buf)), sb.get(('b', br.buf))
            full = tuple(range(len(ar.idx)))
            if ea is None or eb is None or ar.idx != full or br.idx != full or not len(full) == len(ea) == len(eb):
                continue
            if not all(type(x) is S and type(y) is S and x.k == y.k != 'c' for x, y in zip(ea, eb)):
                continue
            if self.shared(sa, k, ar.buf) or self.shared(sb, k, br.buf):
                continue
            b = self.nid()
            r = Ref('arr', self.nid())
            out[('b', b)] = tuple(self.phi(x, y, cond, g, ra, rb) for x, y in zip(ea, eb))
            out[('a', r.id)] = type(ar)(b, full, ar.shape, ar.dtype)
            self.alloc_site[r.id] = self.alloc_site[b] = self.alloc_site.get(v.id)
            out[k] = r

    def shared(self, st, key, buf):
        ids = {k[1] for k, rec in st.items() if k[0] == 'a' and rec.buf == buf}

        def refers(x, n=0):
            if type(x) is Ref:
                return x.id in ids
            if type(x) is S or n > 12:
                return n > 12
            if type(x) is tuple:
                return any(refers(y, n + 1) for y in x)
            if type(x) is Tup:
                return any(refers(y, n + 1) for y in x.items)
            if type(x) is PhiV:
                return refers(x.a, n + 1) or refers(x.b, n + 1)
            if x is None or type(x) in (str, int, float, bool):
                return False
            if type(x) is Fn:
                return any(refers(y, n + 1) for y in list(x.defaults or ()) + list((x.kwdefaults or {}).values())
                           if not isinstance(y, ast.AST))
            sl = getattr(type(x), '__slots__', None)
            if sl is None:
                return False
            return any(refers(getattr(x, a, None), n + 1) for a in sl)

        return any(k != key and k[0] not in ('a',) and not (k[0] == 'b' and all(type(y) is S for y in x)) and refers(x)
                   for k, x in st.items())

    def phi(self, a, b, cond, g, ra, rb):
        if same(a, b):
            return a
        if isinstance(a, S) and isinstance(b, S):
            if a.k == b.k and a.k != 'c':
                return self.phi_s(a, b, cond, ra, rb)
            if a.k in 'ifu' and b.k in 'ifu' and a.k != b.k:
                return PhiV(g, cond, a, b)
            return PhiV(g, cond, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.phi(x, y, cond, g, ra, rb) for x, y in zip(a.items, b.items)])
        if type(a) is tuple and type(b) is tuple and len(a) == len(b):
            # buffers / lists / dict records: tuples of values (dict: (key, val) pairs)
            if all(type(x) is tuple and len(x) == 2 and type(y) is tuple and same(x[0], y[0])
                   for x, y in zip(a, b)) and a:
                return tuple((x[0], self.phi(x[1], y[1], cond, g, ra, rb)) for x, y in zip(a, b))
            if not any(type(x) is tuple for x in a + b):
                return tuple(self.phi(x, y, cond, g, ra, rb) for x, y in zip(a, b))
        return PhiV(g, cond, a, b)

    def phi_s(self, a, b, cond, ra, rb):
        if cond is TRUE_T:
            return a
        if cond is FALSE_T:
            return b
        if a.k == 'b':
            if a.bv is not None and a.bv == b.bv:
                return boolv(a.bv, a.np and b.np)
            t = self.ite_b(cond, a.t, b.t)
            return S('b', t, 0.0, 1.0, np=a.np and b.np, bv=None)
        ia, ib = self.iv(a, ra), self.iv(b, rb)
        h = i_hull(ia, ib)
        nan = a.nan if a.nan == b.nan else 1
        fin = a.fin if a.fin == b.fin else 0
        t = self.ite_n(cond, a.t, b.t)
        return S(a.k, t, h[0], h[1], nan, fin, a.np and b.np)

    def ite_b(self, c, a, b):
        if a is b:
            return a
        if a is TRUE_T and b is FALSE_T:
            return c
        if a is FALSE_T and b is TRUE_T:
            return b_not(c)
        if b is FALSE_T:
            return b_and([c, a])
        if a is FALSE_T:
            return b_and([b_not(c), b])
        if a is TRUE_T:
            return b_or([c, b])
        if b is TRUE_T:
            return b_or([b_not(c), a])
        return mk('iteb', c, a, b)

    def ite_n(self, c, a, b):
        if a is b:
            return a
        neg = False
        if c.op == 'not':
            c, a, b = c.args[0], b, a
        # max / abs recognition
        if c.op in ('lt0', 'le0'):
            p = c.args[0]
            if p_add(a, b, -1) is p_neg(p):      # a - b = -p : p<0 -> a (the larger)
                return self.mx_t(a, b)
            if p_add(a, b, -1) is p:
                return self.mn_t(a, b)
            if p_neg(p) is a and b is p:
                return self.abs_t(p)
        t = mk('ite', c, a, b)
        ia, ib = t_iv(a, None), t_iv(b, None)
        t.lo, t.hi = i_hull(ia, ib)
        return t

    def mx_t(self, a, b):
        ca, cb = cval(a), cval(b)
        if ca is not None and cb is not None:
            return a if ca >= cb else b
        x, y = sorted((a, b), key=lambda z: z.id)
        t = mk('max', x, y)
        ia, ib = t_iv(a, None), t_iv(b, None)
        t.lo, t.hi = max(ia[0], ib[0]), max(ia[1], ib[1])
        return t

    def mn_t(self, a, b):
        ca, cb = cval(a), cval(b)
        if ca is not None and cb is not None:
            return a if ca <= cb else b
        x, y = sorted((a, b), key=lambda z: z.id)
        t = mk('min', x, y)
        ia, ib = t_iv(a, None), t_iv(b, None)
        t.lo, t.hi = min(ia[0], ib[0]), min(ia[1], ib[1])
        return t

    def abs_t(self, p):
        i = t_iv(p, None)
        if i[0] >= 0:
            return p
        n = p_neg(p)
        if i[1] <= 0:
            return n
        x, y = sorted((p, n), key=lambda z: z.id)
        t = mk('abs', x)
        t.lo, t.hi = 0.0, max(-i[0], i[1])
        return t

    # ------------------------------------------------------------ scalars
    def iv(self, s, ref=None):
        if s.k == 'b':
            return (s.lo, s.hi)
        r = t_iv(s.t, self.ref if ref is None else ref)
        return i_meet((s.lo, s.hi), r)

    def use(self, v):
        if isinstance(v, PhiV):
            raise NeedSplit(v.g)
        return v

    def tdeps(self, v, seen=None):
        """dependence set of an arbitrary value (through the heap)"""
        if seen is None:
            seen = set()
        if isinstance(v, S):
            return deps(v.t)
        if isinstance(v, Top):
            return deps(v.t)
        if isinstance(v, Tup):
            r = frozenset()
            for x in v.items:
                r |= self.tdeps(x, seen)
            return r
        if isinstance(v, PhiV):
            return self.tdeps(v.a, seen) | self.tdeps(v.b, seen) | deps(v.cond)
        if isinstance(v, tuple):
            r = frozenset()
            for x in v:
                r |= self.tdeps(x, seen)
            return r
        if isinstance(v, Ref):
            if v.id in seen:
                return frozenset()
            seen.add(v.id)
            if v.kind == 'arr':
                rec = self.store.get(('a', v.id))
                if isinstance(rec, PhiV):
                    return self.tdeps(rec, seen)
                buf = self.store[('b', rec.buf)]
                if isinstance(buf, PhiV):
                    return self.tdeps(buf, seen)
                r = frozenset()
                for i in rec.idx:
                    r |= self.tdeps(buf[i], seen)
                return r
            if v.kind == 'obj':
                r = frozenset()
                for k, w in self.store.items():
                    if k[0] == 'f' and k[1] == v.id:
                        r |= self.tdeps(w, seen)
                return r
            key = {'list': 'l', 'dict': 'd', 'set': 's'}[v.kind]
            return self.tdeps(self.store[(key, v.id)], seen)
        if isinstance(v, ArrRec):
            return self.tdeps(self.store[('b', v.buf)], seen)
        return frozenset()

    def top(self, name, args=(), hint=None, node=None):
        ds = sorted(self.dep_t(args))
        t = mk('opq', name, *[mk('atom', d) for d in ds])
        return Top(t, hint)

    def text(self, name, args, solid):
        """unknown string; solid: certainly not empty"""
        return self.top(('!' if solid else '') + name, args, 'str')

    @staticmethod
    def solid(v):
        if isinstance(v, Top):
            return v.t.op == 'opq' and v.hint == 'str' and str(v.t.args[0]).startswith('!')
        return isinstance(v, str) and v != ''

    def dep_t(self, args):
        r = frozenset()
        for a in args:
            r |= self.tdeps(a)
        return r

    def truth(self, v):
        """(True/False/None, term)"""
        v = self.use(v)
        if v is None:
            return False, FALSE_T
        if isinstance(v, S):
            if v.k == 'b':
                if v.bv is not None:
                    return v.bv, TRUE_T if v.bv else FALSE_T
                return self.dec(v.t), v.t
            if v.nan == 2:
                return True, TRUE_T
            e = self.s_cmp('ne', v, num(0))
            if e.bv is not None:
                return e.bv, TRUE_T if e.bv else FALSE_T
            return self.dec(e.t), e.t
        if isinstance(v, str):
            return bool(v), TRUE_T if v else FALSE_T
        if isinstance(v, Tup):
            return bool(v.items), TRUE_T if v.items else FALSE_T
        if isinstance(v, Ref):
            if v.kind == 'arr':
                el = self.elems(v)
                if len(el) == 1:
                    return self.truth(el[0])
                if len(el) == 0:
                    return False, FALSE_T
                self.py_raise('ValueError', 'The truth value of an array with more than one element is ambiguous',
                              internal=True)
            if v.kind == 'obj':
                m = self.cls_lookup(v.cls, '__bool__')
                if m is not None:
                    return self.truth(self.call(self.bind(m, v, v.cls), [], {}, self.cur))
                m = self.cls_lookup(v.cls, '__len__')
                if m is not None:
                    return self.truth(self.call(self.bind(m, v, v.cls), [], {}, self.cur))
                return True, TRUE_T
            n = len(self.use(self.store[({'list': 'l', 'dict': 'd', 'set': 's'}[v.kind], v.id)]))
            return n > 0, TRUE_T if n else FALSE_T
        if isinstance(v, Top):
            if v.hint == 'obj' or self.solid(v):
                return True, TRUE_T
            t = mk('truth', v.t)
            return self.known.get(t.id), t
        return True, TRUE_T

    def dec(self, t):
        """decide a boolean term on this path"""
        if t is TRUE_T:
            return True
        if t is FALSE_T:
            return False
        k = self.known.get(t.id)
        if k is not None:
            return k
        if t.op == 'not':
            r = self.dec(t.args[0])
            return None if r is None else not r
        if t.op == 'or':
            und = False
            for x in t.args[0]:
                r = self.dec(x)
                if r is True:
                    return True
                if r is None:
                    und = True
            return None if und else False
        if t.op in ('lt0', 'le0', 'eq0'):
            lo, hi = t_iv(t.args[0], self.ref)
            if t.op == 'lt0':
                if hi < 0:
                    return True
                if lo >= 0:
                    return False
            elif t.op == 'le0':
                if hi <= 0:
                    return True
                if lo > 0:
                    return False
            else:
                if lo == hi == 0:
                    return True
                if lo > 0 or hi < 0:
                    return False
            return None
        if t.op == 'iteb':
            c = self.dec(t.args[0])
            if c is True:
                return self.dec(t.args[1])
            if c is False:
                return self.dec(t.args[2])
            a, b = self.dec(t.args[1]), self.dec(t.args[2])
            return a if a == b else None
        return None

    def assume(self, t, val):
        if t.op == 'not':
            return self.assume(t.args[0], not val)
        self.known[t.id] = val
        if t.op == 'or' and not val:
            for x in t.args[0]:
                self.assume(x, False)
            return
        if t.op == 'or' and val:
            und = [x for x in t.args[0] if self.dec(x) is not False]
            if len(und) == 1:
                self.assume(und[0], True)
            return
        if t.op in ('lt0', 'le0', 'eq0'):
            p = t.args[0]
            if t.op == 'eq0':
                if val:
                    self.refine(p, 0.0, 0.0)
                return
            if val:
                self.refine(p, -INF, 0.0)
            else:
                self.refine(p, 0.0, INF)
        elif t.op == 'cmpnan' and val and t.args[0].op in ('lt0', 'le0'):
            self.assume(t.args[0], True)

    def refine(self, p, lo, hi):
        def put(i, lo, hi):
            o = self.ref.get(i, (-INF, INF))
            self.ref[i] = i_meet(o, (lo, hi))
        put(p.id, lo, hi)
        if p.op == 'poly':
            put(p_neg(p).id, -hi, -lo)
            vs = [(m, c) for m, c in p.args[0] if m]
            c0 = dict(p.args[0]).get((), F0)
            if len(vs) == 1 and len(vs[0][0]) == 1 and vs[0][0][0][1] == 1:
                v, c = vs[0][0][0][0], vs[0][1]
                a, b = (lo - f2(c0)) / f2(c), (hi - f2(c0)) / f2(c)
                put(v, min(a, b), max(a, b))
            elif len(vs) == 2:
                # a*x + b*y + c0: refine x using the interval of y and vice versa
                for i in (0, 1):
                    (m, c), (m2, c2) = vs[i], vs[1 - i]
                    if len(m) == 1 and m[0][1] == 1:
                        other = t_iv(poly({m2: c2}), self.ref)
                        a = (lo - f2(c0) - other[1])
                        b = (hi - f2(c0) - other[0])
                        a, b = a / f2(c), b / f2(c)
                        if a == a and b == b:
                            put(m[0][0], min(a, b), max(a, b))

    def iv_under(self, s, cond, val):
        """interval of s if cond were `val`"""
        save = (self.ref, self.known)
        self.ref, self.known = dict(self.ref), dict(self.known)
        self.assume(cond, val)
        r = self.iv(s)
        self.ref, self.known = save
        return r

    def select(self, cond, a, b):
        """elementwise ite of scalars with an undecided boolean scalar cond"""
        if cond.bv is not None:
            return a if cond.bv else b
        d = self.dec(cond.t)
        if d is not None:
            return a if d else b
        if not (isinstance(a, S) and isinstance(b, S)):
            if same(a, b):
                return a
            return Top(mk('ite?', cond.t), None)
        if a.k != b.k:
            k = 'f' if 'f' in (a.k, b.k) else ('i' if 'i' in (a.k, b.k) else 'b')
            a, b = self.cast(a, k), self.cast(b, k)
        if a.k == 'b':
            return self.phi_s(a, b, cond.t, self.ref, self.ref)
        ia, ib = self.iv_under(a, cond.t, True), self.iv_under(b, cond.t, False)
        h = i_hull(ia, ib)
        nan = a.nan if a.nan == b.nan else 1
        fin = a.fin if a.fin == b.fin else 0
        return S(a.k, self.ite_n(cond.t, a.t, b.t), h[0], h[1], nan, fin, a.np or b.np)

    # ------------------------------------------------------------ control
    def gkey(self, node):
        ctx = self.ctx
        k = (ctx, id(node))
        n = self.counts.get(k, 0)
        self.counts[k] = n + 1
        return (ctx, id(node), n)

    def fork(self, cond, node, fa, fb):
        g = self.gkey(node)
        if g in self.decisions:
            d = self.decisions[g]
            self.exact.setdefault(g, self.exact_cond(cond))
            self.assume(cond, d)
            self.path = self.path + ((g, d),)
            return (fa if d else fb)()
        self.exact.setdefault(g, self.exact_cond(cond))
        snap = self.snap()
        pend = self.pend[-1]
        n0 = len(pend)
        save = (self.frame, self.ctx, list(self.stack))

        def side(f, val):
            m = len(pend)
            try:
                self.assume(cond, val)
                self.path = self.path + ((g, val),)
                r = ('val', f())
            except SigReturn as e:
                r = ('ret', e.v)
            except SigRaise as e:
                if self.try_depth:
                    raise NeedSplit(g)
                r = ('raise', e.exc)
            except SigBreak:
                r = ('brk', None)
            except SigContinue:
                r = ('cont', None)
            self.frame, self.ctx, self.stack = save[0], save[1], list(save[2])
            c = cond if val else b_not(cond)
            for i in range(m, len(pend)):
                pend[i] = (b_and([c, pend[i][0]]), pend[i][1], pend[i][2])
            return r, self.snap()
        ra, sa = side(fa, True)
        self.restore(snap)
        rb, sb = side(fb, False)
        ka, kb = ra[0], rb[0]
        cn = b_not(cond)
        if ka == 'raise' and kb == 'raise':
            self.may_raise.append((ra[1], sa[4]))
            raise SigRaise(rb[1])
        if ka == 'raise' or kb == 'raise':
            exc, st = (ra[1], sa) if ka == 'raise' else (rb[1], sb)
            self.may_raise.append((exc, st[4]))
            live, lst = (rb, sb) if ka == 'raise' else (ra, sa)
            self.restore(lst)
            self.risk = self.risk | frozenset([g])
            return self.resume(live)
        if ka == 'val' and kb == 'val':
            self.merge(sa, sb, cond, g)
            return self.phi(ra[1], rb[1], cond, g, sa[1], sb[1])
        if ka == 'ret' and kb == 'ret':
            pend.append((cond, ra[1], sa))
            self.restore(sb)
            raise SigReturn(rb[1])
        if ka == 'ret' or kb == 'ret':
            if ka == 'ret':
                pend.append((cond, ra[1], sa))
                self.restore(sb)
                return self.resume(rb)
            pend.append((cn, rb[1], sb))
            self.restore(sa)
            return self.resume(ra)
        if ka == kb:
            self.merge(sa, sb, cond, g)
            raise SigBreak() if ka == 'brk' else SigContinue()
        raise NeedSplit(g)

    def resume(self, r):
        if r[0] == 'val':
            return r[1]
        if r[0] == 'ret':
            raise SigReturn(r[1])
        if r[0] == 'brk':
            raise SigBreak()
        if r[0] == 'cont':
            raise SigContinue()
        raise SigRaise(r[1])

    def exact_cond(self, t):
        """the undecided condition t is known to be satisfiable both ways on this path: a comparison of a polynomial in
        which every input atom occurs once and no atom takes part in another relational constraint"""
        while t.op == 'not':
            t = t.args[0]
        if t.op == 'atom':
            return True
        if t.op == 'or':
            seen = set()
            for x in t.args[0]:
                d = deps(x)
                if not self.exact_cond(x) or d & seen:
                    return False
                seen |= d
            return True
        if t.op == 'truth':
            return False
        if t.op not in ('lt0', 'le0', 'eq0'):
            return False
        p = t.args[0]
        seen = set()
        mons = p.args[0] if p.op == 'poly' else ((((p.id, 1),), F1),)
        for m, c in mons:
            for v, _ in m:
                if T._all[v].op != 'atom' or v in seen:
                    return False
                seen.add(v)
        n = p_neg(p)
        for i in self.ref:
            if i in (p.id, n.id) or i in seen:
                continue
            x = T._all[i]
            if x.op != 'atom' and deps(x) & deps(p):
                return False
        lo, hi = t_iv(p, self.ref)
        return lo < 0 < hi

    def py_raise(self, tname, msg='', internal=False):
        raise SigRaise(ExcV(tname, (msg,), internal, self.where()))

    # ------------------------------------------------------------ modules
    def mod_path(self, name):
        parts = name.split('.')
        if parts[0] != 'ellipy':
            return None
        p = os.path.join(self.root, *parts[1:])
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.mod_path(name)
        if path is None:
            return Ext(name)
        if '.' in name:
            self.load_module(name.rsplit('.', 1)[0])
        fr = self.new_frame(None, 'mod', None, name, name)
        m = Mod(name, fr.id)
        self.modules[name] = m
        if os.path.exists(path):
            src = open(path, encoding='utf-8').read()
            tree = ast.parse(src, path)
            tree = Mangler().visit(tree)
            save = (getattr(self, 'frame', None), getattr(self, 'ctx', 0), self.stack, self.pend)
            self.frame, self.ctx, self.stack, self.pend = fr.id, self.mkctx(0, ('mod', name), 0), [('<module %s>' % name, None)], [[]]
            self.setvar(fr.id, '__name__', name)
            try:
                self.block(tree.body)
            finally:
                self.frame, self.ctx, self.stack, self.pend = save
        elif not os.path.isdir(path[:-12]):
            self.modules.pop(name)
            self.py_raise('ModuleNotFoundError', name)
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            pm = self.modules.get(par)
            if isinstance(pm, Mod) and ('v', pm.frame, leaf) not in self.store:
                self.setvar(pm.frame, leaf, m)
        return m

    def mkctx(self, parent, node, n):
        k = (parent, node, n)
        c = self.ctxs.get(k)
        if c is None:
            c = self.ctxs[k] = len(self.ctxs) + 1
        return c

    def new_frame(self, parent, kind, locs, mod, qual, glob=(), nonl=(), cls=None):
        fr = Frame(self.nid(), parent, kind, locs, mod, qual, glob, nonl, cls)
        self.frames[fr.id] = fr
        return fr

    def setvar(self, fid, name, v):
        self.store[('v', fid, name)] = v

    def lookup(self, name):
        fid = self.frame
        fr = self.frames[fid]
        first = True
        if name in fr.glob:
            fr = self.mod_frame(fr)
        while fr is not None:
            if fr.kind != 'class' or first:
                v = self.store.get(('v', fr.id, name), self)
                if v is not self:
                    return self.use(v)
                for mod in self.store.get(('star', fr.id), ()):
                    if mod == 'numpy' and name in STAR_NAMES:
                        return Ext('numpy.' + name)
                if fr.kind in ('fn', 'comp') and fr.locals and name in fr.locals:
                    self.py_raise('UnboundLocalError' if first else 'NameError', name, internal=True)
            first = False
            fr = self.frames.get(fr.parent) if fr.parent is not None else None
        if self.is_builtin(name):
            return self.builtin(name)
        if hasattr(builtins, name):
            return self.top('builtin ' + name, [], 'obj')
        self.py_raise('NameError', "name '%s' is not defined" % name, internal=True)

    def mod_frame(self, fr):
        while fr.kind != 'mod':
            fr = self.frames[fr.parent]
        return fr

    def assign_name(self, name, v):
        fr = self.frames[self.frame]
        if name in fr.glob:
            m = self.mod_frame(fr)
            self.event('globalwrite', target='%s.%s' % (m.mod, name))
            self.setvar(m.id, name, v)
            return
        if name in fr.nonl or (fr.kind == 'comp' and name not in (fr.locals or ())):
            p = self.frames[fr.parent]
            while p is not None and not (p.kind in ('fn', 'comp') and name in (p.locals or ())):
                if p.kind == 'mod':
                    break
                p = self.frames.get(p.parent)
            self.setvar(p.id, name, v)
            return
        self.setvar(fr.id, name, v)

    # ------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > STEP_BUDGET:
            raise Unresolved('step budget exceeded')
        self.cur = s
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unresolved('unsupported statement %s' % type(s).__name__)
        m(s)

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            s.value.dropped = True
        self.ev(s.value)

    def st_Pass(self, s):
        pass

    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def st_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            rhs = self.ev(s.value)
            r = self.aug(op, old, rhs, s)
            if r is not old:
                self.assign_name(t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr)
            r = self.aug(op, old, self.ev(s.value), s)
            self.cur = s
            self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev_index(t.slice)
            old = self.getitem(o, i)
            r = self.aug(op, old, self.ev(s.value), s)
            self.cur = s
            self.setitem(o, i, r)

    def aug(self, op, old, rhs, node):
        if isinstance(old, Ref) and old.kind == 'arr':
            r = self.binop(op, old, rhs)
            self.cur = node
            self.arr_inplace(old, r)
            return old
        if isinstance(old, Ref) and old.kind == 'list' and op == 'Add':
            self.list_mut(old, self.store[('l', old.id)] + tuple(self.iterate(rhs)), '+=')
            return old
        if isinstance(old, Ref) and old.kind == 'obj':
            im = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__'}.get(op)
            m = im and self.cls_lookup(old.cls, im)
            if m:
                return self.call(self.bind(m, old, old.cls), [rhs], {}, node)
        if isinstance(old, Ref) and old.kind in ('set', 'dict') and op == 'BitOr':
            self.call_method(old, 'update', [rhs], {}, node)
            return old
        return self.binop(op, old, rhs)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.ev_index(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Top):
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        e = e.value
                    self.assign(e, Top(mk('item', v.t, i), None))
                return
            items = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.py_raise('ValueError', 'not enough values to unpack', internal=True)
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                mid = items[i:len(items) - after]
                self.assign(t.elts[i].value, self.new_list(mid))
                if after:
                    for e, x in zip(t.elts[i + 1:], items[-after:]):
                        self.assign(e, x)
            else:
                if len(items) != len(t.elts):
                    self.py_raise('ValueError', 'unpack: expected %d values, got %d' % (len(t.elts), len(items)),
                                  internal=True)
                for e, x in zip(t.elts, items):
                    self.assign(e, x)
        else:
            raise Unresolved('assign target')

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.lookup(t.id)
                self.store.pop(('v', self.frame, t.id), None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value), self.ev_index(t.slice))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if isinstance(o, Ref) and o.kind == 'obj':
                    self.store.pop(('f', o.id, t.attr), None)

    def st_If(self, s):
        d, c = self.truth(self.ev(s.test))
        if d is True:
            self.block(s.body)
        elif d is False:
            self.block(s.orelse)
        else:
            self.fork(c, s, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def st_For(self, s):
        it = self.ev(s.iter)
        if isinstance(it, Top):
            raise Unresolved('iteration over unknown value')
        it = self.use(it)
        drained = None
        if self.is_iter(it):
            drained = it
            self.store[('it', it.id)] = 'loop'
            items = self.drain(it)
        elif isinstance(it, Ref) and it.kind == 'list':
            items = self.live(it)
        else:
            items = self.iterate(it)
        try:
            for v in items:
                self.assign(s.target, v)
                try:
                    self.block(s.body)
                except SigContinue:
                    pass
        except SigBreak:
            return
        finally:
            if drained is not None:
                self.store[('it', drained.id)] = True
        self.block(s.orelse)

    def drain(self, it):
        """a loop over an iterator takes its items one by one: what a break leaves can be read later"""
        while True:
            seq = self.cont(it)
            if not seq:
                return
            self.store[('l', it.id)] = seq[1:]
            yield self.use(seq[0])

    def live(self, lst):
        """a loop over a list sees the changes the body makes to the list"""
        k = 0
        while True:
            seq = self.cont(lst)
            if k >= len(seq):
                return
            if k > 20000:
                raise Unresolved('loop bound')
            yield self.use(seq[k])
            k += 1

    def st_While(self, s):
        n = 0
        while True:
            d, c = self.truth(self.ev(s.test))
            n += 1
            if n > 3000:
                raise Unresolved('loop bound')
            if d is None:
                # undecided loop condition: partition on it (bounded)
                g = self.gkey(s)
                if g not in self.decisions:
                    raise NeedSplit(g)
                d = self.decisions[g]
                self.exact.setdefault(g, self.exact_cond(c))
                self.assume(c, d)
                self.path = self.path + ((g, d),)
            if not d:
                self.block(s.orelse)
                return
            try:
                self.block(s.body)
            except SigContinue:
                pass
            except SigBreak:
                return

    def st_Break(self, s):
        raise SigBreak()

    def st_Continue(self, s):
        raise SigContinue()

    def st_Return(self, s):
        raise SigReturn(self.ev(s.value) if s.value is not None else None)

    def st_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            if cur is not None:
                raise SigRaise(cur)
            self.py_raise('RuntimeError', 'No active exception')
        v = self.ev(s.exc)
        raise SigRaise(self.as_exc(v))

    def as_exc(self, v):
        if isinstance(v, ExcV):
            e = ExcV(v.tname, v.args, False, self.where())
            return e
        if isinstance(v, BI):
            return ExcV(v.name, (), False, self.where())
        if isinstance(v, Cls):
            v = self.call(v, [], {}, self.cur)
        if isinstance(v, Ref) and v.kind == 'obj':
            b = [c for c in v.cls.mro if isinstance(c, BI)]
            names = [c.name for c in v.cls.mro if isinstance(c, (BI, Cls))]
            e = ExcV(v.cls.name, (), False, self.where())
            e.mro = names
            return e
        if isinstance(v, Ext):
            return ExcV(v.path, (), False, self.where())
        if v is None:
            return ExcV('TypeError', ('exceptions must derive from BaseException',), True, self.where())
        return ExcV('?', (), False, self.where())

    def st_Assert(self, s):
        d, c = self.truth(self.ev(s.test))
        if d is True:
            return
        if d is False:
            self.py_raise('AssertionError')
        self.fork(c, s, lambda: None, lambda: self.py_raise('AssertionError'))

    def st_Global(self, s):
        pass

    st_Nonlocal = st_Global

    def st_Try(self, s):
        self.try_depth += 1
        depth = 1
        frame, ctx, stack, npend = self.frame, self.ctx, list(self.stack), len(self.pend)
        try:
            try:
                self.block(s.body)
                self.try_depth -= 1
                depth = 0
                self.block(s.orelse)
            except SigRaise as e:
                if depth:
                    self.try_depth -= 1
                    depth = 0
                self.frame, self.ctx, self.stack = frame, ctx, list(stack)
                del self.pend[npend:]
                h = self.find_handler(s.handlers, e.exc)
                if h is None:
                    raise
                self.event('handled', exc=e.exc.tname, internal=e.exc.internal)
                if h.name:
                    self.assign_name(h.name, e.exc)
                save = getattr(self, 'handling', None)
                self.handling = e.exc
                try:
                    self.block(h.body)
                finally:
                    self.handling = save
        finally:
            if depth:
                self.try_depth -= 1
            self.block(s.finalbody)

    def find_handler(self, hs, exc):
        for h in hs:
            if h.type is None:
                return h
            t = self.ev(h.type)
            ts = t.items if isinstance(t, Tup) else [t]
            for x in ts:
                n = x.name if isinstance(x, (BI, Cls)) else (x.path.split('.')[-1] if isinstance(x, Ext) else None)
                if n and self.exc_isa(exc, n):
                    return h
        return None

    def exc_isa(self, exc, name):
        if name in ('Exception', 'BaseException'):
            return True
        if exc.tname.split('.')[-1] == name:
            return True
        if name in getattr(exc, 'mro', ()):
            return True
        sup = {'KeyError': ['LookupError'], 'IndexError': ['LookupError'], 'ZeroDivisionError': ['ArithmeticError'],
               'OverflowError': ['ArithmeticError'], 'UnboundLocalError': ['NameError'],
               'LinAlgError': [], 'NotImplementedError': ['RuntimeError'], 'AxisError': ['ValueError', 'IndexError'],
               'UnicodeDecodeError': ['ValueError']}
        return name in sup.get(exc.tname.split('.')[-1], [])

    def st_With(self, s):
        if len(s.items) == 1:
            v = self.ev(s.items[0].context_expr)
            if isinstance(v, Ref) and v.kind == 'obj':
                return self.with_object(s, v)
            if isinstance(v, Top) and v.hint == 'obj' and str(v.t).find('decorated') >= 0:
                raise Unresolved('context manager')
            return self.with_lib(s, v)
        return self.with_lib(s)

    def with_object(self, s, o):
        ms = []
        for n in ('__enter__', '__exit__'):
            m = self.cls_lookup(o.cls, n)
            if m is None:
                self.py_raise('AttributeError', n, internal=True)
            ms.append(self.bind(m, o, o.cls))
        v = self.call(ms[0], [], {}, s)
        if s.items[0].optional_vars is not None:
            self.assign(s.items[0].optional_vars, v)
        self.try_depth += 1
        frame, ctx, stack, npend = self.frame, self.ctx, list(self.stack), len(self.pend)
        try:
            self.block(s.body)
        except SigRaise as e:
            self.frame, self.ctx, self.stack = frame, ctx, list(stack)
            del self.pend[npend:]
            d, c = self.truth(self.call(ms[1], [BI(e.exc.tname) if self.is_exc_name(e.exc.tname) else None, e.exc, None],
                                        {}, s))
            if d is None:
                raise Unresolved('__exit__ result')
            if not d:
                raise
        except (SigReturn, SigBreak, SigContinue):
            self.call(ms[1], [None, None, None], {}, s)
            raise
        else:
            self.call(ms[1], [None, None, None], {}, s)
        finally:
            self.try_depth -= 1

    def with_lib(self, s, first=None):
        sup = []
        e0 = None
        for it in s.items:
            n0 = len(self.events)
            v = first if first is not None else self.ev(it.context_expr)
            if isinstance(v, Partial) and isinstance(v.fn, Ext) and v.fn.path == 'contextlib.suppress':
                sup += list(v.args)
            if any(e['kind'] == 'effect' and e['cat'] == 'warnfilter' and e['what'] == 'warnings.catch_warnings'
                   for e in self.events[n0:]):
                e0 = n0
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        if not sup:
            self.block(s.body)
        else:
            self.try_depth += 1
            frame, ctx, stack, npend = self.frame, self.ctx, list(self.stack), len(self.pend)
            try:
                self.block(s.body)
            except SigRaise as e:
                self.frame, self.ctx, self.stack = frame, ctx, list(stack)
                del self.pend[npend:]
                if not any(self.exc_isa(e.exc, getattr(x, 'name', None) or getattr(x, 'path', '?').split('.')[-1])
                           for x in sup):
                    raise
                self.event('handled', exc=e.exc.tname, internal=e.exc.internal)
            finally:
                self.try_depth -= 1
        if e0 is not None:      # filters restored on exit
            self.events[e0:] = [e for e in self.events[e0:] if not (e['kind'] == 'effect' and e['cat'] == 'warnfilter')]

    def st_Import(self, s):
        for a in s.names:
            m = self.load_module(a.name)
            if a.asname:
                self.assign_name(a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.assign_name(top, self.load_module(top))

    def st_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            base = self.frames[self.frame]
            base = self.mod_frame(base).mod.split('.')
            path = self.mod_path('.'.join(base))
            if not (path and path.endswith('__init__.py')):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)] if s.level > 1 else base
            mod = '.'.join(base + ([mod] if mod else []))
        m = self.load_module(mod)
        for a in s.names:
            if isinstance(m, Ext):
                if a.name == '*':
                    continue
                self.assign_name(a.asname or a.name, Ext(m.path + '.' + a.name))
                continue
            if a.name == '*':
                for k in [k for k in self.store if k[0] == 'v' and k[1] == m.frame]:
                    if not k[2].startswith('_'):
                        self.assign_name(k[2], self.store[k])
                continue
            v = self.store.get(('v', m.frame, a.name), self)
            if v is self:
                p = self.mod_path(mod + '.' + a.name)
                if os.path.exists(p):
                    v = self.load_module(mod + '.' + a.name)
                else:
                    self.py_raise('ImportError', 'cannot import name %s from %s' % (a.name, mod), internal=True)
            self.assign_name(a.asname or a.name, v)

    def st_FunctionDef(self, s):
        fn = self.make_fn(s, s.name)
        v = fn
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            v = self.decorate(dv, v, s)
        self.assign_name(s.name, v)

    def decorate(self, dv, v, s):
        if isinstance(dv, BI):
            if dv.name == 'staticmethod':
                return StaticM(v)
            if dv.name == 'classmethod':
                return ClassM(v)
            if dv.name == 'property':
                return Prop(v)
        if isinstance(dv, Ext):
            leaf = dv.path.split('.')[-1]
            if leaf == 'abstractmethod':
                if isinstance(v, Fn):
                    v.abstract = True
                return v
            if leaf in ('lru_cache', 'cache'):
                return Memo(v, self.nid())
            if leaf in ('njit', 'jit', 'wraps', 'final', 'override', 'no_type_check', 'overload', 'abstractproperty'):
                return v
            return self.top('decorated ' + dv.path, [], 'obj')
        if isinstance(dv, Partial) and isinstance(dv.fn, Ext) and dv.fn.path in ('functools.lru_cache', 'functools.cache'):
            return Memo(v, self.nid())
        if isinstance(dv, Meth) and isinstance(dv.obj, Prop):
            o = dv.obj
            if dv.name == 'setter':
                return Prop(o.fget, v, o.fdel)
            if dv.name == 'getter':
                return Prop(v, o.fset, o.fdel)
            return o
        if isinstance(dv, Top):
            return v
        return self.call(dv, [v], {}, s)

    def make_fn(self, node, name):
        fr = self.frames[self.frame]
        qual = (fr.qual + '.' + name) if fr.kind != 'mod' else name
        a = node.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = {k.arg: self.ev(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        cls = fr.cls
        fn = Fn(node, name, self.frame, defaults, kwd, cls, fr.mod, qual)
        for d in defaults + list(kwd.values()):
            if isinstance(d, Ref):
                self.mark(d, 'default:' + qual)
        return fn

    def st_ClassDef(self, s):
        c = v = self.make_class(s)
        if any(isinstance(b, Ext) and b.path in ('enum.Enum', 'enum.IntEnum') for b in c.mro):
            self.enum_class(c)
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            p = dv.path if isinstance(dv, Ext) else (dv.fn.path if isinstance(dv, Partial) and isinstance(dv.fn, Ext)
                                                     else None)
            if p in ('dataclasses.dataclass', 'dataclasses.<dataclass>'):
                if not self.data_class(c):
                    v = self.top(p, [], 'obj')
            elif p is not None or isinstance(dv, Top):
                v = self.top(p or 'class decorator', [], 'obj')
            else:
                v = self.call(dv, [v], {}, s)
        self.assign_name(s.name, v)

    def make_class(self, s, env=None):
        fr = self.frames[self.frame]
        bases = [self.ev(b) for b in s.bases]
        c = Cls(s.name, bases, fr.mod, self.nid())
        c.mro = self.c3(c)
        c.node = s
        self.classes.append(c)
        cf = self.new_frame(self.frame, 'class', None, fr.mod, s.name, cls=c)
        save = self.frame
        if env:
            ef = self.new_frame(self.frame, 'fn', None, fr.mod, s.name)
            for k, v in env.items():
                self.setvar(ef.id, k, v)
            cf.parent = ef.id
        self.frame = cf.id
        try:
            self.block(s.body)
        finally:
            self.frame = save
        for k in [k for k in self.store if k[0] == 'v' and k[1] == cf.id]:
            self.store[('c', c.id, k[2])] = self.store[k]
        return c

    def c3(self, c):
        seqs = [list(b.mro) for b in c.bases if isinstance(b, Cls)] + \
               [[b] for b in c.bases if isinstance(b, (BI, Ext))] + [[b for b in c.bases]]
        out = [c]
        while any(seqs):
            for q in seqs:
                if not q:
                    continue
                h = q[0]
                if not any(self.same_c(h, x) for r in seqs for x in r[1:]):
                    break
            else:
                break
            out.append(h)
            for q in seqs:
                if q and self.same_c(q[0], h):
                    del q[0]
        return out

    @staticmethod
    def same_c(a, b):
        return a is b or (isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path) or \
            (isinstance(a, BI) and isinstance(b, BI) and a.name == b.name)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node):
        f = self.use(f)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, node)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self] + list(args), kw, node)
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.fn, args, kw, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, BI):
            self.cur = node
            return self.call_builtin(f.name, args, kw, node)
        if isinstance(f, Meth):
            self.cur = node
            return self.call_method(f.obj, f.name, args, kw, node)
        if isinstance(f, Ext):
            self.cur = node
            return self.call_ext(f.path, args, kw, node)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k, node)
        if isinstance(f, Memo):
            return self.call_memo(f, args, kw, node)
        if isinstance(f, Vectorized):
            self.cur = node
            return self.call_vectorized(f, args, kw, node)
        if isinstance(f, Ref) and f.kind == 'obj':
            m = self.cls_lookup(f.cls, '__call__')
            if m is not None:
                return self.call(self.bind(m, f, f.cls), args, kw, node)
        if isinstance(f, Top):
            hook = self.intercept.get('topcall')
            if hook:
                r = hook(self, f, args, kw, node)
                if r is not NotImplemented:
                    return r
            return self.top('call', [f] + list(args) + list(kw.values()))
        if isinstance(f, DType):
            return self.call_ext('numpy.' + f.name, args, kw, node)
        self.py_raise('TypeError', '%r is not callable' % (f,), internal=True)

    def memo_key(self, v):
        v = self.use(v)
        if isinstance(v, S):
            return ('s', v.t.id)
        if isinstance(v, Top):
            return ('t', v.t.id)
        if isinstance(v, Tup):
            return ('tup',) + tuple(self.memo_key(x) for x in v.items)
        if isinstance(v, Ref):
            if v.kind != 'obj' or (self.cls_lookup(v.cls, '__eq__') is not None
                                   and self.cls_lookup(v.cls, '__hash__') is None):
                self.py_raise('TypeError', 'unhashable argument of a cached function', internal=True)
            return ('o', v.id)
        return ('c', repr(v))

    def call_memo(self, f, args, kw, node):
        key = ('memo', f.id, tuple(self.memo_key(a) for a in args),
               tuple(sorted((k, self.memo_key(v)) for k, v in kw.items())))
        if key in self.store:
            return self.store[key]
        self.event('memo', target=getattr(f.fn, 'qual', '?'))
        r = self.call(f.fn, args, kw, node)
        self.store[key] = r
        return r

    def instantiate(self, c, args, kw, node):
        if any(isinstance(b, BI) and self.is_exc_name(b.name) for b in c.mro):
            e = ExcV(c.name, tuple(args), False, self.where())
            e.mro = [b.name for b in c.mro if isinstance(b, (BI, Cls))] + ['Exception']
            return e
        for k in c.mro:
            if not isinstance(k, Cls):
                continue
            for key in self.store:
                if key[0] == 'c' and key[1] == k.id:
                    v = self.store[key]
                    fn = v.fn if isinstance(v, (StaticM, ClassM)) else (v.fget if isinstance(v, Prop) else v)
                    if isinstance(fn, Fn) and fn.abstract:
                        if self.cls_lookup(c, key[2]) is v:
                            self.py_raise('TypeError', "Can't instantiate abstract class %s with abstract method %s"
                                          % (c.name, key[2]), internal=True)
        o = Ref('obj', self.nid(), c)
        self.alloc_site[o.id] = self.where()
        self.store[('o', o.id)] = c
        init = self.cls_lookup(c, '__init__')
        if init is not None and not isinstance(init, (BI, Ext)):
            self.call(self.bind(init, o, c), args, kw, node)
        elif args or kw:
            self.py_raise('TypeError', '%s() takes no arguments' % c.name, internal=True)
        return o

    def bind_args(self, fn, args, kw):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                self.py_raise('TypeError', '%s() takes %d positional arguments but %d were given'
                              % (fn.name, len(names), len(args)), internal=True)
            out[a.vararg.arg] = Tup(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = Tup(())
        for n, v in zip(names, args):
            out[n] = v
        extra = []
        kwnames = set(x.arg for x in a.kwonlyargs)
        for k, v in kw.items():
            if k in names and k not in [x.arg for x in a.posonlyargs] or k in kwnames:
                if k in out:
                    self.py_raise('TypeError', "%s() got multiple values for argument '%s'" % (fn.name, k),
                                  internal=True)
                out[k] = v
            elif a.kwarg is not None:
                extra.append((k, v))
            else:
                self.py_raise('TypeError', "%s() got an unexpected keyword argument '%s'" % (fn.name, k),
                              internal=True)
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new_dict(extra)
        nd = len(fn.defaults)
        for i, n in enumerate(names):
            if n not in out:
                j = i - (len(names) - nd)
                if j < 0:
                    self.py_raise('TypeError', "%s() missing required argument '%s'" % (fn.name, n), internal=True)
                out[n] = fn.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg in fn.kwdefaults:
                    out[x.arg] = fn.kwdefaults[x.arg]
                else:
                    self.py_raise('TypeError', "%s() missing keyword argument '%s'" % (fn.name, x.arg), internal=True)
        return out

    def fn_info(self, node):
        r = self.fn_cache.get(id(node))
        if r is None:
            locs, glob, nonl = local_names(node)
            body = node.body if isinstance(node.body, list) else [node.body]
            inner = any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for b in body for n in ast.walk(b))
            own, gen = list(body), False
            while own:
                n = own.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                    continue
                gen = gen or isinstance(n, (ast.Yield, ast.YieldFrom))
                own.extend(ast.iter_child_nodes(n))
            r = (locs, glob, nonl, inner, gen)
            self.fn_cache[id(node)] = r
        return r

    def call_fn(self, fn, args, kw, node):
        self.steps += 1
        hook = self.intercept.get(fn.qual)
        if hook:
            r = hook(self, fn, args, kw, node)
            if r is not NotImplemented:
                return r
        if len(self.stack) > 80:
            raise Unresolved('call depth')
        bound = self.bind_args(fn, args, kw)
        locs, glob, nonl, inner, gen = self.fn_info(fn.node)
        fr = self.new_frame(fn.frame, 'fn', locs, fn.mod, fn.qual, glob, nonl, fn.cls)
        if fn.node.args.args if isinstance(fn.node.args, ast.arguments) else False:
            fr.first = fn.node.args.args[0].arg
        for k, v in bound.items():
            self.setvar(fr.id, k, v)
        self.funcs_seen[fn.mod + ':' + fn.qual] = self.funcs_seen.get(fn.mod + ':' + fn.qual, 0) + 1
        self.call_sites.add((getattr(self.frames.get(self.frame), 'mod', '?') if self.frame else '?',
                             getattr(node, 'lineno', 0), fn.qual))
        ck = (self.ctx, id(node))
        n = self.counts.get(('c',) + ck, 0)
        self.counts[('c',) + ck] = n + 1
        save = (self.frame, self.ctx, self.cur)
        self.frame, self.ctx = fr.id, self.mkctx(self.ctx, (id(node), id(fn.node)), n)
        self.stack.append((fn.qual, node))
        depth = len(self.stack)
        self.stack_frames[depth] = fr.id
        self.pend.append([])
        if gen:
            fr.kind = 'fn'
            self.gen_out = getattr(self, 'gen_out', [])
            self.gen_out.append([])
        exc = None
        val = None
        try:
            try:
                if isinstance(fn.node, ast.Lambda):
                    val = self.ev(fn.node.body)
                else:
                    self.block(fn.node.body)
                    if not isinstance(fn.node, ast.Lambda) and not gen:
                        self.event_fall(fn)
            except SigReturn as e:
                val = e.v
            except SigRaise as e:
                exc = e
        except BaseException:
            self.pend.pop()
            del self.stack[depth - 1:]
            self.frame, self.ctx, self.cur = save
            if gen:
                self.gen_out.pop()
            raise
        pend = self.pend.pop()
        del self.stack[depth - 1:]
        self.frame, self.ctx, self.cur = save
        if gen:
            if pend:
                raise Unresolved('generator with undecided return')
            val = self.new_iter(self.gen_out.pop())
        if pend:
            if self.try_depth and exc is not None:
                raise Unresolved('raise/return mix inside try')
            if exc is not None:
                self.may_raise.append((exc.exc, self.path))
                c, val, st = pend.pop()
                self.restore(st)
                self.risk = self.risk | frozenset([('ret', fn.qual)])
                exc = None
            while pend:
                c, v, st = pend.pop()
                g = ('pend', fr.id)
                for gg, _ in reversed(st[4]):
                    g = gg
                    break
                cur = self.snap()
                self.merge(st, cur, c, g)
                val = self.phi(v, val, c, g, st[1], cur[1])
        if not inner:
            for k in locs:
                self.store.pop(('v', fr.id, k), None)
        if exc is not None:
            raise exc
        return val

    def event_fall(self, fn):
        body = [s for s in fn.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Pass):
            self.event('stub', target=fn.qual)

    # ------------------------------------------------------------ attributes
    def cls_lookup(self, c, name):
        for k in c.mro:
            if isinstance(k, Cls):
                v = self.store.get(('c', k.id, name), self)
                if v is not self:
                    return self.use(v)
        return None

    def bind(self, m, obj, cls):
        if isinstance(m, Fn):
            return Bound(m, obj)
        if isinstance(m, ClassM):
            return Bound(m.fn, cls)
        if isinstance(m, StaticM):
            return m.fn
        if isinstance(m, Memo):
            return Partial(m, [obj], {})
        return m

    def getattr(self, o, name):
        o = self.use(o)
        if isinstance(o, Ref) and o.kind == 'obj':
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return self.new_dict([(k[2], v) for k, v in list(self.store.items())
                                      if k[0] == 'f' and k[1] == o.id])
            m = self.cls_lookup(o.cls, name)
            if isinstance(m, Prop):
                return self.call(m.fget, [o], {}, self.cur)
            v = self.store.get(('f', o.id, name), self)
            if v is not self:
                return self.use(v)
            if m is not None or ('c' in [] and 0):
                return self.bind(m, o, o.cls)
            for k in o.cls.mro:
                if isinstance(k, Cls) and ('c', k.id, name) in self.store:
                    return None
            if name in ('__getattribute__', '__setattr__', '__eq__', '__ne__', '__str__', '__repr__', '__hash__'):
                return Meth(o, name)
            self.py_raise('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name), internal=True)
        if isinstance(o, Cls):
            if name == '__name__' or name == '__qualname__':
                return o.name
            if name == '__class__':
                return Ext('abc.ABCMeta')
            if name == '__module__':
                return o.mod
            for k in o.mro:
                if isinstance(k, Cls) and ('c', k.id, name) in self.store:
                    m = self.use(self.store[('c', k.id, name)])
                    if isinstance(m, ClassM):
                        return Bound(m.fn, o)
                    if isinstance(m, StaticM):
                        return m.fn
                    return m
            if name == '__init__':
                return BI('object.__init__')
            self.py_raise('AttributeError', "type object '%s' has no attribute '%s'" % (o.name, name), internal=True)
        if isinstance(o, Mod):
            v = self.store.get(('v', o.frame, name), self)
            if v is not self:
                return self.use(v)
            if name == '__name__':
                return o.name
            p = self.mod_path(o.name + '.' + name)
            if os.path.exists(p):
                return self.load_module(o.name + '.' + name)
            self.py_raise('AttributeError', "module '%s' has no attribute '%s'" % (o.name, name), internal=True)
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro if isinstance(o.obj, Ref) else o.obj.mro
            i = mro.index(o.cls) + 1
            for k in mro[i:]:
                if isinstance(k, Cls) and ('c', k.id, name) in self.store:
                    m = self.use(self.store[('c', k.id, name)])
                    if isinstance(m, Prop):
                        return self.call(m.fget, [o.obj], {}, self.cur)
                    return self.bind(m, o.obj, o.obj.cls if isinstance(o.obj, Ref) else o.obj)
            if name == '__init__':
                return BI('object.__init__')
            self.py_raise('AttributeError', 'super: no attribute ' + name, internal=True)
        if isinstance(o, Ext):
            return self.ext_attr(o, name)
        if isinstance(o, PyObj):
            if name in o.attrs:
                v = o.attrs[name]
                return v(self) if callable(v) else v
            return self.top('pyobj.' + name, [])
        return self.val_attr(o, name)

    def setattr(self, o, name, v):
        o = self.use(o)
        if isinstance(o, Ref) and o.kind == 'obj':
            m = self.cls_lookup(o.cls, name)
            if isinstance(m, Prop):
                if m.fset is None:
                    self.py_raise('AttributeError', "can't set attribute " + name, internal=True)
                self.call(m.fset, [o, v], {}, self.cur)
                return
            if o.id in self.origin and ('f', o.id, name) in self.store:
                self.wr_event(o.id, 'attribute store .%s' % name)
            self.store[('f', o.id, name)] = v
            return
        if isinstance(o, Cls):
            self.event('globalwrite', target='%s.%s' % (o.name, name))
            self.store[('c', o.id, name)] = v
            return
        if isinstance(o, Mod):
            self.event('globalwrite', target='%s.%s' % (o.name, name))
            self.store[('v', o.frame, name)] = v
            return
        if isinstance(o, Ref) and o.kind == 'arr':
            return self.arr_setattr(o, name, v)
        if isinstance(o, Fn):
            self.event('globalwrite', target='%s.%s' % (o.qual, name))
            self.store[('fa', id(o), name)] = v
            return
        if isinstance(o, Ext):
            self.event('globalwrite', target='%s.%s' % (o.path, name))
            return
        if isinstance(o, Top):
            self.event('topwrite', target=name)
            return
        self.py_raise('AttributeError', "object has no attribute '%s'" % name, internal=True)

    def wr_event(self, oid, what):
        lab = self.origin.get(oid)
        if lab:
            for l in sorted(lab):
                self.event('write', label=l, what=what)

    def mark(self, v, label, seen=None):
        """label everything reachable from v as originating from `label`"""
        if seen is None:
            seen = set()
        if isinstance(v, (Tup,)):
            for x in v.items:
                self.mark(x, label, seen)
        elif isinstance(v, tuple):
            for x in v:
                self.mark(x, label, seen)
        elif isinstance(v, Ref):
            if v.id in seen:
                return
            seen.add(v.id)
            self.origin.setdefault(v.id, set()).add(label)
            if v.kind == 'arr':
                rec = self.store[('a', v.id)]
                self.origin.setdefault(rec.buf, set()).add(label)
                if rec.dtype == 'O':
                    self.mark(self.store[('b', rec.buf)], label, seen)
            elif v.kind == 'obj':
                for k, w in list(self.store.items()):
                    if k[0] == 'f' and k[1] == v.id:
                        self.mark(w, label, seen)
            else:
                self.mark(self.store[({'list': 'l', 'dict': 'd', 'set': 's'}[v.kind], v.id)], label, seen)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unresolved('unsupported expression %s' % type(e).__name__)
        return m(e)

    def ex_Constant(self, e):
        v = e.value
        if v is None or isinstance(v, str):
            return v
        if v is Ellipsis:
            return ELL
        if isinstance(v, complex):
            return cplx(num(v.real), num(v.imag))
        if isinstance(v, bytes):
            return v.decode('latin1')
        return num(v)

    def ex_Name(self, e):
        return self.lookup(e.id)

    def ex_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign_name(e.target.id, v)
        return v

    def ex_Attribute(self, e):
        o = self.ev(e.value)
        self.cur = e
        return self.getattr(o, e.attr)

    def ex_Tuple(self, e):
        return Tup(self.seq(e.elts))

    def seq(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                if isinstance(v, Top):
                    raise Unresolved('star of unknown')
                out.extend(self.iterate(v))
            else:
                out.append(self.ev(x))
        return out

    def ex_List(self, e):
        return self.new_list(self.seq(e.elts))

    def ex_Set(self, e):
        return self.new_set(self.seq(e.elts))

    def ex_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v)
                if isinstance(d, Ref) and d.kind == 'dict':
                    items.extend(self.use(self.store[('d', d.id)]))
                else:
                    raise Unresolved('dict unpack')
            else:
                kk = self.ev(k)
                items.append((kk, self.ev(v)))
        return self.new_dict(items)

    def ex_Lambda(self, e):
        return self.make_fn(e, '<lambda>')

    def ex_IfExp(self, e):
        d, c = self.truth(self.ev(e.test))
        if d is True:
            return self.ev(e.body)
        if d is False:
            return self.ev(e.orelse)
        return self.fork(c, e, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def ex_BoolOp(self, e):
        return self.boolop(e, e.values, isinstance(e.op, ast.And))

    def boolop(self, e, vals, is_and):
        v = self.ev(vals[0])
        if len(vals) == 1:
            return v
        d, c = self.truth(v)
        if d is not None:
            if d == is_and:
                return self.boolop(e, vals[1:], is_and)
            return v

        if is_and:
            return self.fork(c, vals[0], lambda: self.boolop(e, vals[1:], is_and),
                             lambda: self.force_bool(v, False))
        return self.fork(c, vals[0], lambda: self.force_bool(v, True),
                         lambda: self.boolop(e, vals[1:], is_and))

    def force_bool(self, v, val):
        if isinstance(v, S) and v.k == 'b' or isinstance(v, Top) and v.hint == 'bool':
            return boolv(val)
        if isinstance(v, Ref) and v.kind == 'arr' and self.arr(v).dtype == 'b':
            return boolv(val)
        return v

    def ex_UnaryOp(self, e):
        v = self.ev(e.operand)
        self.cur = e
        return self.unop(type(e.op).__name__, v)

    def ex_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.cur = e
        return self.binop(type(e.op).__name__, a, b)

    def ex_Compare(self, e):
        left = self.ev(e.left)
        ops, comps = e.ops, e.comparators
        if len(ops) == 1:
            r = self.ev(comps[0])
            self.cur = e
            return self.compare(type(ops[0]).__name__, left, r)
        return self.cmp_chain(e, left, list(ops), list(comps))

    def cmp_chain(self, e, left, ops, comps):
        r = self.ev(comps[0])
        v = self.compare(type(ops[0]).__name__, left, r)
        if len(ops) == 1:
            return v
        d, c = self.truth(v)
        if d is False:
            return v
        if d is True:
            return self.cmp_chain(e, r, ops[1:], comps[1:])
        return self.fork(c, comps[0], lambda: self.cmp_chain(e, r, ops[1:], comps[1:]),
                         lambda: boolv(False))

    def ex_Call(self, e):
        f = self.ev(e.func)
        args = self.seq(e.args)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, Ref) and v.kind == 'dict':
                    for kk, vv in self.use(self.store[('d', v.id)]):
                        if not isinstance(kk, str):
                            raise Unresolved('non-constant keyword')
                        kw[kk] = vv
                else:
                    raise Unresolved('** of unknown')
            else:
                kw[k.arg] = v
        self.cur = e
        if isinstance(f, BI) and f.name == 'super' and not args:
            fr = self.frames[self.frame]
            while fr.kind != 'fn' or fr.cls is None:
                fr = self.frames[fr.parent]
            return SuperV(fr.cls, self.lookup(fr.first))
        if isinstance(f, BI) and f.name in ('locals', 'globals'):
            fr = self.frames[self.frame]
            fid = fr.id if f.name == 'locals' else self.mod_frame(fr).id
            return self.new_dict([(k[2], v) for k, v in list(self.store.items()) if k[0] == 'v' and k[1] == fid])
        return self.call(f, args, kw, e)

    def ex_Subscript(self, e):
        o = self.ev(e.value)
        i = self.ev_index(e.slice)
        self.cur = e
        return self.getitem(o, i)

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return Slc(self.ev(s.lower) if s.lower else None, self.ev(s.upper) if s.upper else None,
                       self.ev(s.step) if s.step else None)
        if isinstance(s, ast.Tuple):
            return Tup([self.ev_index(x) for x in s.elts])
        if isinstance(s, ast.Index):
            return self.ev_index(s.value)
        return self.ev(s)

    def ex_Starred(self, e):
        raise Unresolved('starred')

    def ex_JoinedStr(self, e):
        parts = [self.ev(v) for v in e.values]
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return self.text('fstr', parts, any(self.solid(p) for p in parts))

    def ex_FormattedValue(self, e):
        v = self.ev(e.value)
        if e.format_spec is None and isinstance(v, str) and e.conversion in (-1, 115):
            return v
        return self.call_builtin('str', [v], {}, e) if e.format_spec is None else self.top('fmt', [v], 'str')

    def comp(self, e, gens, emit):
        fr0 = self.frames[self.frame]
        targets = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    targets.add(n.id)
        first = self.ev(gens[0].iter)
        fr = self.new_frame(self.frame, 'comp', targets, fr0.mod, fr0.qual, cls=fr0.cls)
        fr.first = fr0.first
        save = self.frame

        def run(i):
            if i == len(gens):
                emit()
                return
            g = gens[i]
            it = first if i == 0 else self.ev(g.iter)
            if isinstance(it, Top):
                raise Unresolved('comprehension over unknown value')
            for v in self.iterate(it):
                self.assign(g.target, v)
                ok = True
                for c in g.ifs:
                    d, ct = self.truth(self.ev(c))
                    if d is None:
                        gk = self.gkey(c)
                        if gk not in self.decisions:
                            raise NeedSplit(gk)
                        d = self.decisions[gk]
                        self.exact.setdefault(gk, self.exact_cond(ct))
                        self.assume(ct, d)
                        self.path = self.path + ((gk, d),)
                    if not d:
                        ok = False
                        break
                if ok:
                    run(i + 1)
        self.frame = fr.id
        try:
            run(0)
        finally:
            self.frame = save

    def ex_ListComp(self, e):
        out = []
        self.comp(e, e.generators, lambda: out.append(self.ev(e.elt)))
        return self.new_list(out)

    def ex_GeneratorExp(self, e):
        r = self.ex_ListComp(e)
        if isinstance(r, Ref):
            self.store[('it', r.id)] = True
        return r

    def ex_SetComp(self, e):
        out = []
        self.comp(e, e.generators, lambda: out.append(self.ev(e.elt)))
        return self.new_set(out)

    def ex_DictComp(self, e):
        out = []
        self.comp(e, e.generators, lambda: out.append((self.ev(e.key), self.ev(e.value))))
        return self.new_dict(out)

    def ex_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else None
        self.gen_out[-1].append(v)
        return self.top('sent', [], 'obj') if not getattr(e, 'dropped', False) else None

    def ex_YieldFrom(self, e):
        self.gen_out[-1].extend(self.iterate(self.ev(e.value)))
        return None
