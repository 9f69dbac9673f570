"""Closed forms: arithmetic over value-number terms and disequality of two terms.

`Form` builds the required closed form out of the same hash-consed terms the abstract interpreter derives from the
source.  Two forms agree when their normal forms coincide (or when the polynomial-identity test below cannot tell them
apart).  They are reported as different only when the identity test separates them: both terms are evaluated - the
*terms*, never the analysed program - at points of the input box, and differ well beyond rounding.
"""
import decimal
import math
import random
from .dom import *


class Unk(Exception):
    pass


class Form:
    __slots__ = ('t',)

    def __init__(self, t):
        if isinstance(t, Form):
            t = t.t
        elif isinstance(t, S):
            t = t.t
        elif isinstance(t, (int, float, Fraction)):
            t = const_t(t)
        self.t = t

    def __add__(self, o):
        return Form(p_add(self.t, Form(o).t))

    __radd__ = __add__

    def __sub__(self, o):
        return Form(p_add(self.t, Form(o).t, -1))

    def __rsub__(self, o):
        return Form(p_add(Form(o).t, self.t, -1))

    def __mul__(self, o):
        return Form(p_mul(self.t, Form(o).t))

    __rmul__ = __mul__

    def __neg__(self):
        return Form(p_neg(self.t))

    def __truediv__(self, o):
        o = Form(o).t
        c = cval(o)
        if c is not None and c != 0:
            return Form(poly({m: x / c for m, x in pdict(self.t).items()}))
        return Form(p_mul(self.t, mk('recip', o)))

    def sqrt(self):
        return Form(mk('sqrt', self.t))

    def abs(self):
        return Form(mk('abs', self.t))


def atoms_of(ts):
    r = frozenset()
    for t in ts:
        r |= deps(t)
    return sorted(r)


def box(name):
    t = mk('atom', name)
    lo, hi = t.lo, t.hi
    if not (math.isfinite(lo) and math.isfinite(hi)):
        return None
    return lo, hi, t.meta


def sample(names, seed, mode='mid'):
    rnd = random.Random(seed)
    env = {}
    for n in names:
        b = box(n)
        if b is None:
            raise Unk('unbounded atom %s' % n)
        lo, hi, meta = b
        if meta == 'int':
            env[n] = float(rnd.randint(math.ceil(lo), math.floor(hi)))
        else:
            env[n] = lo + (hi - lo) * (0.07 + 0.86 * rnd.random())
    return env


CTX = decimal.Context(prec=60, Emin=-99999, Emax=99999, traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow])
_dec = decimal.Decimal


class Hp:
    """a number of sixty digits that mixes with ordinary ones"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v.v if isinstance(v, Hp) else v if isinstance(v, _dec) else CTX.divide(_dec(v.numerator), _dec(v.denominator)) \
            if isinstance(v, Fraction) else _dec(v)

    def bin(f):
        def op(self, o):
            return Hp(f(CTX, self.v, Hp(o).v))

        def rop(self, o):
            return Hp(f(CTX, Hp(o).v, self.v))
        return op, rop
    __add__, __radd__ = bin(decimal.Context.add)
    __sub__, __rsub__ = bin(decimal.Context.subtract)
    __mul__, __rmul__ = bin(decimal.Context.multiply)
    __truediv__, __rtruediv__ = bin(decimal.Context.divide)
    del bin

    def __pow__(self, p):
        return Hp(CTX.power(self.v, p)) if p else Hp(1)

    def __neg__(self):
        return Hp(-self.v if self.v else self.v)

    def __abs__(self):
        return Hp(self.v.copy_abs())

    def __lt__(self, o):
        return self.v < Hp(o).v

    def __le__(self, o):
        return self.v <= Hp(o).v

    def __gt__(self, o):
        return self.v > Hp(o).v

    def __ge__(self, o):
        return self.v >= Hp(o).v

    def __eq__(self, o):
        return isinstance(o, (int, float, Hp)) and self.v == Hp(o).v

    __hash__ = None

    def __bool__(self):
        return bool(self.v)

    def __float__(self):
        return float(self.v)

    def __round__(self):
        return int(self.v.to_integral_value())

    def __trunc__(self):
        return int(self.v)

    def __floor__(self):
        return math.floor(self.v)

    def __repr__(self):
        return 'Hp(%s)' % self.v


def root_(x):
    if isinstance(x, Hp):
        return Hp(x.v.sqrt(CTX))
    return math.sqrt(x)


def sgn_(x):
    return (-1 if x < 0 else 1) if isinstance(x, Hp) else math.copysign(1.0, x)


class Ev:
    """value of a term at a point of the input box"""

    def __init__(self, env, flip=None):
        self.env, self.memo, self.flip, self.free = env, {}, flip, False

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            stack = [t]
            while stack:
                x = stack[-1]
                if x.id in self.memo:
                    stack.pop()
                    continue
                todo = [k for k in kids_of(x) if k.id not in self.memo and k.op not in ('symmat', 'mat', 'matsv', 'rmat', 'qrmat', 'pair')]
                if todo:
                    stack.extend(todo)
                    continue
                self.memo[x.id] = self.ev(x)
                stack.pop()
            r = self.memo[t.id]
        return r

    def ev(self, t):
        op = t.op
        f = getattr(self, 'e_' + {'or': 'or_', 'not': 'not_', 'abs': 'abs_', 'max': 'max_', 'min': 'min_',
                                  'big+': 'bigadd', 'big*': 'bigmul'}.get(op, op),
                    None)
        if f is None:
            raise Unk(op)
        return f(t)

    const = float

    def e_atom(self, t):
        if t.args[0] not in self.env:
            raise Unk('atom')
        return self.env[t.args[0]]

    def e_poly(self, t):
        r = 0.0
        for mono, c in t.args[0]:
            x = self.const(c)
            for v, p in mono:
                x *= self(T._all[v]) ** p
            r += x
        return r

    def e_bigadd(self, t):
        return self(t.args[0]) + t.args[2] * self(t.args[1])

    def e_bigmul(self, t):
        return self(t.args[0]) * self(t.args[1])

    def e_recip(self, t):
        x = self(t.args[0])
        if x == 0:
            raise Unk('1/0')
        return 1.0 / x

    def e_sqrt(self, t):
        x = self(t.args[0])
        if x < 0:
            if x < -1e-9:
                raise Unk('sqrt<0')
            x = 0.0
        return root_(x)

    def e_pow(self, t):
        x, y = float(self(t.args[0])), float(self(t.args[1]))
        if x <= 0:
            raise Unk('power')
        return self.const(x ** y)

    def e_abs_(self, t):
        return abs(self(t.args[0]))

    def e_max_(self, t):
        return max(self(t.args[0]), self(t.args[1]))

    def e_min_(self, t):
        return min(self(t.args[0]), self(t.args[1]))

    def e_ite(self, t):
        return self(t.args[1]) if self(t.args[0]) else self(t.args[2])

    e_iteb = e_ite

    def e_true(self, t):
        return True

    def e_false(self, t):
        return False

    def e_not_(self, t):
        return not self(t.args[0])

    def e_or_(self, t):
        return any(self(x) for x in t.args[0])

    def cmp0(self, t):
        x = self(t.args[0])
        if x != x:
            raise Unk('nan')
        if abs(x) < 1e-11:
            if t.args[0].op == 'poly' and not t.args[0].args[0]:
                return 0.0
            raise Unk('boundary')
        return x

    def e_lt0(self, t):
        return self.cmp0(t) < 0

    def e_le0(self, t):
        return self.cmp0(t) <= 0

    def e_eq0(self, t):
        return self.cmp0(t) == 0

    def e_bint(self, t):
        return 1.0 if self(t.args[0]) else 0.0

    def e_trunc(self, t):
        x = self(t.args[0])
        if abs(x - round(x)) < 1e-9:
            raise Unk('rounding')
        return float(math.trunc(x))

    def e_floor(self, t):
        x = self(t.args[0])
        if abs(x - round(x)) < 1e-9:
            raise Unk('rounding')
        return float(math.floor(x))

    def e_sign(self, t):
        x = self(t.args[0])
        if abs(x) < 1e-11:
            raise Unk('boundary')
        return sgn_(x)

    def fun(f):
        def g(self, t):
            try:
                x = self(t.args[0])
                return Hp(f(float(x))) if isinstance(x, Hp) else f(x)
            except (ValueError, OverflowError):
                raise Unk('domain')
        return g
    e_sin, e_cos, e_exp, e_log, e_log2 = fun(math.sin), fun(math.cos), fun(math.exp), fun(math.log), fun(math.log2)
    e_arccos, e_arcsin, e_arctan, e_gamma = fun(math.acos), fun(math.asin), fun(math.atan), fun(math.gamma)
    del fun

    # ------------------------------------------------------------- matrices
    def matrix(self, M):
        k = ('M', M.id)
        if k in self.memo:
            return self.memo[k]
        if M.op == 'symmat':
            n = M.args[0]
            a = [[0.0] * n for _ in range(n)]
            p = 1
            for i in range(n):
                for j in range(i + 1):
                    a[i][j] = a[j][i] = self(M.args[p])
                    p += 1
        elif M.op == 'mat':
            n = M.args[0]
            v = [self(x) for x in M.args[1:]]
            a = [v[i * n:(i + 1) * n] for i in range(n)]
        else:
            n, m = M.args[0], M.args[1]
            v = [self(x) for x in M.args[2:]]
            a = [v[i * m:(i + 1) * m] for i in range(n)]
        self.memo[k] = a
        return a

    def jac(self, M):
        k = ('J', M.id)
        if k not in self.memo:
            self.memo[k] = jacobi(self.matrix(M))
        return self.memo[k]

    def e_eigval(self, t):
        return self.jac(t.args[0])[0][t.args[1]]

    def e_eigvec(self, t):
        return self.jac(t.args[0])[1][t.args[1]][t.args[2]]

    def sym(self, M):
        a = self.matrix(M)
        n = len(a)
        if any(abs(a[i][j] - a[j][i]) > 1e-12 for i in range(n) for j in range(n)):
            raise Unk('nonsymmetric eig')

    def e_geigval(self, t):
        self.sym(t.args[0])
        return self.jac(t.args[0])[0][t.args[1]]

    def e_geigvec(self, t):
        """eig promises eigenvectors of unit length but, where eigenvalues coincide, nothing about the angles between them"""
        M = t.args[0]
        self.sym(M)
        k = ('G', M.id)
        if k not in self.memo:
            w, v = self.jac(M)
            n = len(w)
            big = max([1e-300] + [abs(x) for x in w])
            out = [r[:] for r in v]
            for j in range(1, n):
                if abs(w[j] - w[j - 1]) < 1e-10 * big:
                    for i in range(n):
                        out[i][j] = 0.8 * v[i][j] + 0.6 * v[i][j - 1]
            self.memo[k] = out
        return self.memo[k][t.args[1]][t.args[2]]

    def e_inv(self, t):
        M = t.args[0]
        k = ('I', M.id)
        if k not in self.memo:
            self.memo[k] = inverse(self.matrix(M))
        return self.memo[k][t.args[1]][t.args[2]]

    def e_pinv(self, t):
        M = t.args[0]
        k = ('P', M.id)
        if k not in self.memo:
            u, w, vt = self.svd(M)
            n, m, r = len(u), len(vt), 0
            for x in w:
                if x > 1e-7 * w[0]:
                    r += 1
                elif x > 1e-13 * w[0]:
                    raise Unk('nearly singular')
            self.memo[k] = [[sum(vt[q][j] * u[i][q] / w[q] for q in range(r)) for i in range(n)] for j in range(m)]
        return self.memo[k][t.args[1]][t.args[2]]

    def e_pinvr(self, t):
        rc, M = t.args[0].args
        k = ('R', t.args[0].id)
        if k not in self.memo:
            u, w, vt = self.svd(M)
            c = self(rc) * w[0]
            if any(abs(x - c) < 1e-9 * w[0] for x in w[1:]) or self(rc) < 0:
                raise Unk('at the cutoff')
            n, m, r = len(u), len(vt), sum(1 for i, x in enumerate(w) if x > c and (i or self(rc) < 1))
            self.memo[k] = [[sum(vt[q][j] * u[i][q] / w[q] for q in range(r)) for i in range(n)] for j in range(m)]
        return self.memo[k][t.args[1]][t.args[2]]

    def svd(self, M):
        k = ('V', M.id)
        if k not in self.memo:
            self.memo[k] = svd(self.matrix(M))
        return self.memo[k]

    def e_svdu(self, t):
        return self.svd(t.args[0])[0][t.args[1]][t.args[2]]

    def e_svdv(self, t):
        return self.svd(t.args[0])[2][t.args[1]][t.args[2]]

    def e_sv(self, t):
        return self.svd(t.args[0])[1][t.args[1]]

    def qr(self, M):
        k = ('Q', M.id)
        self.free = True
        if k not in self.memo:
            q, r = householder(self.matrix(M), self.flip is not None)
            if self.flip is not None:
                for j in range(min(len(r), len(r[0]))):
                    if self.flip.random() < 0.5:
                        r[j] = [-x for x in r[j]]
                        for row in q:
                            row[j] = -row[j]
            self.memo[k] = q, r
        return self.memo[k]

    def e_qrq(self, t):
        return self.qr(t.args[0])[0][t.args[1]][t.args[2]]

    def e_qrr(self, t):
        return self.qr(t.args[0])[1][t.args[1]][t.args[2]]

    def e_cmpnan(self, t):
        return self(t.args[0])

    def e_det(self, t):
        return det(self.matrix(t.args[0]))


def hp(v):
    return any(isinstance(x, Hp) for x in v)


def complete(cols, n):
    """extend orthonormal columns to a basis"""
    i = 0
    while len(cols) < n:
        v = [1 if j == i else 0 for j in range(n)]
        for _ in range(2):
            for q in cols:
                d = sum(x * y for x, y in zip(q, v))
                v = [y - d * x for x, y in zip(q, v)]
        ln = root_(sum(x * x for x in v))
        i += 1
        if ln > 0.3 / n ** 0.5:
            cols.append([x / ln for x in v])


def householder(a, snap=False):
    """(Q, R) of the complete QR factorisation by reflections that leave a column alone when nothing is below its diagonal"""
    n, m = len(a), len(a[0])
    a = [list(r) for r in a]
    q = [[int(i == j) for j in range(n)] for i in range(n)]
    scale = max([abs(x) for r in a for x in r] + [1e-300])
    for j in range(min(n - 1, m)):
        low = root_(sum(a[i][j] ** 2 for i in range(j + 1, n)))
        if low == 0.0 or snap and low < 1e-11 * scale:
            continue
        if low < 1e-11 * scale:
            raise Unk('column nearly on its diagonal')
        al = a[j][j]
        beta = -root_(al * al + low * low) * sgn_(al)
        v = [0] * j + [al - beta] + [a[i][j] for i in range(j + 1, n)]
        c = 2 / sum(x * x for x in v)
        for w in range(m):
            d = c * sum(v[i] * a[i][w] for i in range(n))
            for i in range(n):
                a[i][w] -= d * v[i]
        for r in q:
            d = c * sum(r[i] * v[i] for i in range(n))
            for i in range(n):
                r[i] -= d * v[i]
        for i in range(j + 1, n):
            a[i][j] = 0 * low
    return q, a


def svd(a):
    """(U, singular values in descending order, V transposed), U and V square, by one-sided rotations"""
    n, m = len(a), len(a[0])
    if n < m:
        u, w, vt = svd([list(r) for r in zip(*a)])
        return [list(r) for r in zip(*vt)], w, [list(r) for r in zip(*u)]
    c = [[a[i][j] for i in range(n)] for j in range(m)]
    v = [[1 if i == j else 0 for i in range(m)] for j in range(m)]
    for _ in range(60):
        off = 0.0
        for p in range(m):
            for q in range(p + 1, m):
                al = sum(x * x for x in c[p])
                be = sum(x * x for x in c[q])
                ga = sum(x * y for x, y in zip(c[p], c[q]))
                if ga == 0 or abs(ga) <= (1e-55 if hp(c[0]) else 1e-16) * root_(al * be):
                    continue
                off = max(off, abs(ga) / root_(al * be) if al * be > 0 else 0.0)
                z = (be - al) / (2 * ga)
                t = sgn_(z) / (abs(z) + root_(1 + z * z))
                cs = 1 / root_(1 + t * t)
                sn = cs * t
                c[p], c[q] = [cs * x - sn * y for x, y in zip(c[p], c[q])], [sn * x + cs * y for x, y in zip(c[p], c[q])]
                v[p], v[q] = [cs * x - sn * y for x, y in zip(v[p], v[q])], [sn * x + cs * y for x, y in zip(v[p], v[q])]
        if off < (1e-50 if hp(c[0]) else 1e-15):
            break
    ln = [root_(sum(x * x for x in r)) for r in c]
    o = sorted(range(m), key=lambda i: -ln[i])
    w = [ln[i] for i in o]
    cols = [[x / ln[i] for x in c[i]] for i in o if ln[i] > 1e-13 * (w[0] or 1.0)]
    w = [x if x > 1e-13 * (w[0] or 1.0) else 0.0 for x in w]
    complete(cols, n)
    return [[q[i] for q in cols] for i in range(n)], w, [v[i] for i in o]


def inverse(a):
    n = len(a)
    if any(len(r) != n for r in a):
        raise Unk('rectangular')
    a = [list(r) + [1 if i == j else 0 for j in range(n)] for i, r in enumerate(a)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if abs(a[p][c]) < 1e-9:
            raise Unk('singular')
        a[c], a[p] = a[p], a[c]
        d = a[c][c]
        a[c] = [x / d for x in a[c]]
        for r in range(n):
            if r != c and a[r][c]:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return [r[n:] for r in a]


def det(a):
    n = len(a)
    a = [list(r) for r in a]
    d = 1
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if a[p][c] == 0:
            return 0.0
        if p != c:
            a[c], a[p] = a[p], a[c]
            d = -d
        d *= a[c][c]
        for r in range(c + 1, n):
            f = a[r][c] / a[c][c]
            a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return d


def jacobi(a):
    n = len(a)
    a = [list(r) for r in a]
    v = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    for _ in range(60):
        off = sum(a[i][j] ** 2 for i in range(n) for j in range(n) if i != j)
        if off < (1e-100 if hp(a[0]) else 1e-26):
            break
        for p in range(n):
            for q in range(p + 1, n):
                if abs(a[p][q]) < (1e-80 if hp(a[0]) else 1e-30):
                    continue
                th = (a[q][q] - a[p][p]) / (2 * a[p][q])
                t = sgn_(th) / (abs(th) + root_(th * th + 1))
                c = 1 / root_(t * t + 1)
                s = t * c
                for k in range(n):
                    x, y = a[k][p], a[k][q]
                    a[k][p], a[k][q] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = a[p][k], a[q][k]
                    a[p][k], a[q][k] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = v[k][p], v[k][q]
                    v[k][p], v[k][q] = c * x - s * y, s * x + c * y
    o = sorted(range(n), key=lambda i: a[i][i])
    return [a[i][i] for i in o], [[v[r][i] for i in o] for r in range(n)]


class EvH(Ev):
    """the same in sixty digits: rounding is out of the question"""
    const = staticmethod(Hp)

    def __init__(self, env, flip=None):
        Ev.__init__(self, {k: Hp(v) for k, v in env.items()}, flip)


def apart(a, b, env, seed, tol):
    """the difference at this point survives evaluation in high precision"""
    try:
        ev = EvH(env, random.Random(seed) if seed is not None else None)
        x, y = ev(a), ev(b)
        if isinstance(x, bool) or isinstance(y, bool):
            return isinstance(x, bool) and isinstance(y, bool) and x != y
        return abs(x - y) > tol * (1 + abs(x) + abs(y))
    except (Unk, OverflowError, ZeroDivisionError, decimal.DecimalException):
        return None


def differ(a, b, known=None, n=6, tries=48, tol=1e-7):
    """True: separated by the identity test; False: not separated at n points; None: undecided.

    `known`: facts (term id -> truth) established on the path; only points satisfying them are used."""
    a, b = Form(a).t, Form(b).t
    if a is b:
        return False
    names = atoms_of([a, b])
    facts = []
    if known:
        nm = set(names)
        while True:
            new = [(T._all[i], v) for i, v in known.items() if T._all[i].op not in ('true', 'false')]
            new = [(t, v) for t, v in new if set(deps(t)) & nm]
            more = set(x for t, _ in new for x in deps(t))
            if more <= nm:
                facts = new
                break
            nm |= more
        names = sorted(nm)
    ok = 0
    free, ev = False, None
    for s in range(2 * tries):
        if s == tries and (ok or not free):
            break       # signs of QR columns other than the usual ones may only confirm
        try:
            ev = Ev(sample(names, s), random.Random(s) if s >= tries else None)
            if any(ev(t) != v for t, v in facts):
                continue
            x, y = ev(a), ev(b)
        except (Unk, OverflowError, ZeroDivisionError):
            continue
        finally:
            free |= ev is not None and ev.free
        if isinstance(x, bool) != isinstance(y, bool):
            continue
        if x != x or y != y:
            continue
        ok += 1
        if abs(x - y) > tol * (1 + abs(x) + abs(y)):
            far = apart(a, b, ev.env, s if s >= tries else None, tol)
            if far:
                return True if s < tries else None
            ok -= far is None
        if ok >= n:
            break
    return False if ok else None


def witness(a, b, known, tries=160, tol=1e-7):
    """a point of the input box satisfying every fact of the path at which the two terms differ, or None"""
    a, b = Form(a).t, Form(b).t
    facts = [(T._all[i], v) for i, v in known.items() if T._all[i].op not in ('true', 'false')]
    names = atoms_of([a, b] + [t for t, _ in facts])
    for s in range(tries):
        try:
            env = sample(names, 1000 + s)
            ev = Ev(env)
            if any(ev(t) != v for t, v in facts):
                continue
            x, y = ev(a), ev(b)
        except (Unk, OverflowError, ZeroDivisionError):
            continue
        if isinstance(x, bool) == isinstance(y, bool) and abs(x - y) > tol * (1 + abs(x) + abs(y)) and apart(a, b, env, None, tol):
            return env
    return None
