"""Abstract scalar domain: hash-consed terms with a polynomial normal form,
intervals, finiteness / NaN flags and (through the terms) dependence sets.

A scalar abstract value stands for a *set* of run-time numbers (an interval
plus flags) and for the expression of the scenario's input atoms that produces
it; nothing here evaluates the analysed program on a concrete input.
"""
import math
from fractions import Fraction

INF = float('inf')
F0, F1 = Fraction(0), Fraction(1)


class T:
    """Hash-consed term."""
    __slots__ = ('op', 'args', 'id', '_deps', 'lo', 'hi', '_h', 'meta')
    _tab = {}
    _all = []

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, T) else ('#', a) for a in args)
    t = T._tab.get(key)
    if t is None:
        t = T()
        t.op, t.args = op, args
        t.id = len(T._all)
        t._deps = None
        t.lo, t.hi = -INF, INF
        t.meta = None
        T._tab[key] = t
        T._all.append(t)
    return t


def deps(t):
    if t._deps is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x._deps is not None:
                stack.pop()
                continue
            kids = kids_of(x)
            todo = [k for k in kids if k._deps is None]
            if todo:
                stack.extend(todo)
                continue
            r = frozenset([x.args[0]]) if x.op == 'atom' else frozenset()
            for k in kids:
                r |= k._deps
            x._deps = r
            stack.pop()
    return t._deps


def kids_of(t):
    if t.op == 'poly':
        out = []
        for mono, _ in t.args[0]:
            for vid, _p in mono:
                out.append(T._all[vid])
        return out
    out = []
    for a in t.args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            out.extend(x for x in a if isinstance(x, T))
    return out


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'atom':
        return str(t.args[0])
    if t.op == 'poly':
        if d > 4:
            return '<poly>'
        out = []
        for mono, c in t.args[0][:8]:
            vs = '*'.join(show(T._all[v], d + 1) + ('' if p == 1 else '^%d' % p) for v, p in mono)
            cs = '%g' % float(c)
            out.append(cs if not vs else (vs if c == 1 else cs + '*' + vs))
        s = ' + '.join(out) or '0'
        if len(t.args[0]) > 8:
            s += ' + ...'
        return '(' + s + ')'
    if d > 5:
        return t.op + '(..)'
    return t.op + '(' + ', '.join(show(a, d + 1) if isinstance(a, T) else
                                  (str(a)[:40]) for a in t.args[:4]) + ')'


# ---------------------------------------------------------------- polynomials
MAXMONO = 400


def poly(d):
    items = tuple(sorted((m, c) for m, c in d.items() if c != 0))
    if len(items) == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1 and items[0][1] == 1:
        return T._all[items[0][0][0][0]]
    return mk('poly', items)


def pdict(t):
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t.id, 1),): F1}


def const_t(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        if c != c:
            return mk('nan')
        if c in (INF, -INF):
            return mk('inf', c > 0)
    return poly({(): Fraction(c)})


def cval(t):
    """constant value of a term or None"""
    if t.op == 'poly':
        it = t.args[0]
        if not it:
            return F0
        if len(it) == 1 and it[0][0] == ():
            return it[0][1]
    return None


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, p in b:
        d[v] = d.get(v, 0) + p
    # x * inv(x) and sqrt(x)^2 simplifications
    out = {}
    for v, p in d.items():
        if p:
            out[v] = p
    return tuple(sorted(out.items()))


def p_add(a, b, sb=1):
    da = dict(pdict(a))
    for m, c in pdict(b).items():
        da[m] = da.get(m, F0) + sb * c
    if len(da) > MAXMONO:
        return mk('big+', a, b, sb)
    return poly(da)


def p_mul(a, b):
    da, db = pdict(a), pdict(b)
    if len(da) * len(db) > MAXMONO * 4:
        x, y = sorted((a, b), key=lambda z: z.id)
        return mk('big*', x, y)
    out = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = mono_mul(m1, m2)
            out[m] = out.get(m, F0) + c1 * c2
    out = simp_monos(out)
    if len(out) > MAXMONO:
        x, y = sorted((a, b), key=lambda z: z.id)
        return mk('big*', x, y)
    return poly(out)


def simp_monos(d):
    """sqrt(p)^2 -> p and recip(p)*p -> 1 for single-variable p."""
    again = False
    out = {}
    for m, c in d.items():
        changed = False
        for v, p in m:
            tv = T._all[v]
            if tv.op == 'sqrt' and p >= 2:
                rest = tuple((x, q) if x != v else (x, q - 2) for x, q in m)
                rest = tuple((x, q) for x, q in rest if q)
                for m2, c2 in pdict(tv.args[0]).items():
                    mm = mono_mul(rest, m2)
                    out[mm] = out.get(mm, F0) + c * c2
                changed = again = True
                break
            if tv.op == 'recip':
                inner = tv.args[0]
                iv = inner.id if inner.op != 'poly' else None
                dm = dict(m)
                if iv is not None and iv in dm:
                    k = min(dm[iv], p)
                    dm[iv] -= k
                    dm[v] -= k
                    mm = tuple(sorted((x, q) for x, q in dm.items() if q))
                    out[mm] = out.get(mm, F0) + c
                    changed = again = True
                    break
        if not changed:
            out[m] = out.get(m, F0) + c
    if again:
        return simp_monos(out)
    return out


def p_neg(a):
    return poly({m: -c for m, c in pdict(a).items()})


ZERO = const_t(0)
ONE = const_t(1)


# ------------------------------------------------------------------ intervals
def i_add(a, b):
    return (_n(a[0] + b[0], -INF), _n(a[1] + b[1], INF))


def _n(x, d):
    return d if x != x else x


def i_neg(a):
    return (-a[1], -a[0])


def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def i_mul(a, b):
    c = (_m(a[0], b[0]), _m(a[0], b[1]), _m(a[1], b[0]), _m(a[1], b[1]))
    return (min(c), max(c))


def i_pow(a, n):
    if n == 0:
        return (1.0, 1.0)
    if n % 2 == 1:
        return (_p(a[0], n), _p(a[1], n))
    if a[0] >= 0:
        return (_p(a[0], n), _p(a[1], n))
    if a[1] <= 0:
        return (_p(a[1], n), _p(a[0], n))
    return (0.0, max(_p(a[0], n), _p(a[1], n)))


def _p(x, n):
    try:
        return x ** n
    except OverflowError:
        return INF if x > 0 or n % 2 == 0 else -INF


def i_meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    if lo > hi:
        # empty by rounding or an infeasible path; keep the tighter endpoint
        return (hi, hi) if lo - hi < 1e-9 else (lo, lo)
    return (lo, hi)


def i_hull(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]))


def f2(c):
    try:
        return float(c)
    except OverflowError:
        return INF if c > 0 else -INF


def t_iv(t, ref):
    """interval of a numeric term, using per-path refinements `ref`."""
    if t.op == 'poly':
        base = poly_iv(t, ref)
    else:
        base = (t.lo, t.hi)
        if t.op == 'sqrt' and t.lo < 0:
            base = (0.0, t.hi)
    r = ref.get(t.id) if ref else None
    if r is not None:
        base = i_meet(base, r)
    return base


def poly_iv(t, ref):
    it = t.args[0]
    lo = hi = 0.0
    groups = None
    for mono, c in it:
        k = spectral_key(mono)
        if k is not None:
            if groups is None:
                groups = {}
            groups.setdefault(k[0], []).append((k[1], k[2], mono, c))
            continue
        cur = (1.0, 1.0)
        for v, p in mono:
            cur = i_mul(cur, i_pow(t_iv(T._all[v], ref), p))
        cf = f2(c)
        cur = i_mul((cf, cf), cur)
        lo, hi = _n(lo + cur[0], -INF), _n(hi + cur[1], INF)
    if groups:
        for key, ms in groups.items():
            g = group_iv(key, ms, ref)
            lo, hi = _n(lo + g[0], -INF), _n(hi + g[1], INF)
    res = (lo, hi)
    if ref:
        n = ref.get(p_neg(t).id) if it else None
        if n is not None:
            res = i_meet(res, i_neg(n))
    return res


def spectral_key(mono):
    """((matrix, i, j), column, rest) of a monomial  rest * v_i,col * v_j,col  of an orthonormal eigenvector matrix"""
    ev = [(v, p) for v, p in mono if T._all[v].op == 'eigvec']
    if len(ev) == 1 and ev[0][1] == 2:
        a = b = T._all[ev[0][0]].args
    elif len(ev) == 2 and ev[0][1] == 1 and ev[1][1] == 1:
        a, b = T._all[ev[0][0]].args, T._all[ev[1][0]].args
        if a[0] is not b[0] or a[2] != b[2]:
            return None
    else:
        return None
    rest = tuple((v, p) for v, p in mono if T._all[v].op != 'eigvec')
    return (a[0].id, min(a[1], b[1]), max(a[1], b[1])), a[2], rest


def group_iv(key, ms, ref):
    """interval of sum_k c_k v_ik v_jk"""
    lo = hi = 0.0
    groups = {}
    for col, rest, mono, c in ms:
        cur = (1.0, 1.0)
        for v, p in mono:
            cur = i_mul(cur, i_pow(t_iv(T._all[v], ref), p))
        cf = f2(c)
        cur = i_mul((cf, cf), cur)
        lo, hi = _n(lo + cur[0], -INF), _n(hi + cur[1], INF)
        groups.setdefault(col, {})
        groups[col][rest] = groups[col].get(rest, F0) + c
    res = (lo, hi)
    n = T._all[key[0]].args[0]
    cs = [groups.get(k, {}) for k in range(n)]
    ivs = [t_iv(poly(g), ref) if g else (0.0, 0.0) for g in cs]
    mn = min(i[0] for i in ivs)
    mx = max(i[1] for i in ivs)
    if key[1] == key[2]:
        res = i_meet(res, (mn, mx))
    else:
        r = (mx - mn) / 2
        res = i_meet(res, (-r, r))
    f = matfun_iv(key, cs)
    if f is not None:
        res = i_meet(res, f)
    return res


_MF = {}


def matfun_iv(key, cs):
    """c * f(A)_ij with the same f in every column: value at the centre of the box of A, widened by the Lipschitz constant
    of f on the spectrum times the Frobenius radius of the box (|f(A)-f(B)|_F <= L |A-B|_F for symmetric A, B)"""
    M = T._all[key[0]]
    what = None
    for k, g in enumerate(cs):
        if len(g) != 1:
            return None
        (rest, c), = g.items()
        if not rest:
            w = ('one', c)
        elif len(rest) == 1:
            x = T._all[rest[0][0]]
            if x.op == 'eigval' and x.args[0] is M and x.args[1] == k:
                w = ('pow', rest[0][1], c)
            elif rest[0][1] == 1 and x.op in ('sqrt', 'recip') and x.args[0].op == 'eigval' and \
                    x.args[0].args[0] is M and x.args[0].args[1] == k:
                w = (x.op, c)
            else:
                return None
        else:
            return None
        if what is None:
            what = w
        elif what != w:
            return None
    if what[0] == 'one':
        v = f2(what[1]) if key[1] == key[2] else 0.0
        return (v, v)
    mid = matmid(M)
    if mid is None:
        return None
    w, V, r = mid
    l0 = min(w) - r
    if what[0] == 'sqrt':
        if l0 <= 0:
            return None
        fw, L = [math.sqrt(x) for x in w], 0.5 / math.sqrt(l0)
    elif what[0] == 'recip':
        if l0 <= 0:
            return None
        fw, L = [1.0 / x for x in w], 1.0 / l0 ** 2
    else:
        if what[1] not in (1, 2):
            return None
        fw = [x ** what[1] for x in w]
        L = 1.0 if what[1] == 1 else 2 * (max(abs(x) for x in w) + r)
    i, j = key[1], key[2]
    v = sum(V[i][k] * V[j][k] * fw[k] for k in range(len(w)))
    e = L * r + 1e-11 * (1 + max(abs(x) for x in fw))
    cf = f2(what[-1])
    return i_mul((cf, cf), (v - e, v + e))


def matmid(M):
    if M.id in _MF:
        return _MF[M.id]
    res = None
    if M.op == 'symmat':
        n = M.args[0]
        a = [[0.0] * n for _ in range(n)]
        r2 = 0.0
        p = 1
        ok = True
        for i in range(n):
            for j in range(i + 1):
                lo, hi = t_iv(M.args[p], None)
                p += 1
                if not (abs(lo) < 1e9 and abs(hi) < 1e9):
                    ok = False
                    break
                a[i][j] = a[j][i] = (lo + hi) / 2
                r2 += ((hi - lo) / 2) ** 2 * (1 if i == j else 2)
        if ok:
            from .forms import jacobi
            w, V = jacobi(a)
            res = (w, V, math.sqrt(r2) + 1e-11 * (1 + max(abs(x) for x in w)))
    _MF[M.id] = res
    return res


# -------------------------------------------------------------------- scalars
class S:
    """numeric / boolean scalar abstract value"""
    __slots__ = ('k', 't', 'lo', 'hi', 'nan', 'fin', 'np', 'bv', 're', 'im')

    def __init__(self, k, t, lo=-INF, hi=INF, nan=0, fin=1, np=False, bv=None):
        self.k, self.t, self.lo, self.hi = k, t, lo, hi
        self.nan, self.fin, self.np, self.bv = nan, fin, np, bv
        self.re = self.im = None

    def cp(self, **kw):
        s = S(self.k, self.t, self.lo, self.hi, self.nan, self.fin, self.np, self.bv)
        s.re, s.im = self.re, self.im
        for a, b in kw.items():
            setattr(s, a, b)
        return s

    def __repr__(self):
        if self.k == 'b':
            return 'B(%s,%r)' % (self.bv, self.t)
        return 'S[%s %r in [%g,%g]%s%s]' % (self.k, self.t, self.lo, self.hi,
                                          '' if not self.nan else ' nan%d' % self.nan,
                                          '' if self.fin == 1 else ' fin%d' % self.fin)


def num(c, np=False):
    if isinstance(c, bool):
        return boolv(c, np)
    if isinstance(c, int):
        f = f2(c)
        return S('i', const_t(c), f, f, np=np)
    if isinstance(c, Fraction):
        return S('f', const_t(c), f2(c), f2(c), np=np)
    if c != c:
        return S('f', mk('nan'), -INF, INF, nan=2, fin=-1, np=np)
    if c in (INF, -INF):
        t = mk('inf', c > 0)
        t.lo = t.hi = c
        return S('f', t, c, c, nan=0, fin=-1, np=np)
    return S('f', const_t(c), c, c, np=np)


TRUE_T, FALSE_T = mk('true'), mk('false')


def boolv(b, np=False):
    return S('b', TRUE_T if b else FALSE_T, 1.0 if b else 0.0, 1.0 if b else 0.0, np=np, bv=bool(b))


def boolt(t, np=False, bv=None):
    if t is TRUE_T:
        return boolv(True, np)
    if t is FALSE_T:
        return boolv(False, np)
    if bv is not None:
        # value decided on this path, keep no control term
        return boolv(bv, np)
    return S('b', t, 0.0, 1.0, np=np, bv=None)


def cplx(re, im, np=False):
    s = S('c', mk('cplx', re.t, im.t), -INF, INF, nan=max(re.nan, im.nan),
          fin=min(re.fin, im.fin), np=np)
    s.re, s.im = re, im
    return s


def b_not(t):
    if t is TRUE_T:
        return FALSE_T
    if t is FALSE_T:
        return TRUE_T
    if t.op == 'not':
        return t.args[0]
    return mk('not', t)


def b_and(ts):
    return b_not(b_or([b_not(t) for t in ts]))


def b_or(ts):
    out = {}
    for t in ts:
        if t is TRUE_T:
            return TRUE_T
        if t is FALSE_T:
            continue
        if t.op == 'or':
            for u in t.args[0]:
                out[u.id] = u
        else:
            out[t.id] = t
    for i in list(out):
        if b_not(out[i]).id in out:
            return TRUE_T
    if not out:
        return FALSE_T
    if len(out) == 1:
        return list(out.values())[0]
    key = tuple(out[i] for i in sorted(out))
    # tuples of T are not hash-keyed by mk; intern through ids
    k = ('or',) + tuple(x.id for x in key)
    t = T._tab.get(k)
    if t is None:
        t = mk('or_', *key)
        T._tab[k] = t
        t.op, t.args = 'or', (key,)
    return t


def as_int(s):
    """exact python int / float constant of S, or None"""
    if not isinstance(s, S):
        return None
    if s.k == 'b':
        return None if s.bv is None else int(s.bv)
    if s.nan or s.fin != 1:
        return None
    c = cval(s.t)
    if c is None:
        if s.lo == s.hi and s.k in 'iu' and math.isfinite(s.lo):
            return int(s.lo)
        return None
    if s.k in 'iu' or c.denominator == 1 and s.k != 'f':
        return int(c)
    return float(c)


def pyconst(s):
    """concrete python value if the abstract scalar is a single constant"""
    if s.k == 'b':
        return s.bv
    if s.nan == 2:
        return float('nan')
    if s.nan:
        return None
    if s.t.op == 'inf':
        return INF if s.t.args[0] else -INF
    if s.fin != 1:
        return None
    c = cval(s.t)
    if c is None:
        return None
    if s.k in 'iu':
        return int(c)
    return float(c)
