"""Abstract semantics of numpy scalars and arrays (and of the few other library
functions the repository calls)."""
import itertools
from .values import *
from .pymodel import NoModel
from .npmore import NpMore, prod, cstr

NOARG = object()
KORD = {'b': 0, 'u': 1, 'i': 2, 'f': 3, 'c': 4, 'O': 6, 'U': 5}
DT_NAMES = {'float64': 'f', 'float': 'f', 'double': 'f', 'float_': 'f', 'float32': 'f', 'longdouble': 'f', 'd': 'f',
            'f8': 'f', 'int': 'i', 'int64': 'i', 'int32': 'i', 'int_': 'i', 'intp': 'i', 'int16': 'i', 'int8': 'i',
            'i8': 'i', 'i4': 'i', 'i': 'i', 'f': 'f', 'O': 'O', 'b': 'b', '?': 'b', 'c': 'c',
            'uint8': 'u', 'uint32': 'u', 'uint64': 'u', 'bool': 'b', 'bool_': 'b', 'object': 'O', 'object_': 'O',
            'complex': 'c', 'complex128': 'c', 'complex_': 'c', 'str': 'U', 'str_': 'U', 'void': 'V'}
CMP = {'Eq': 'eq', 'NotEq': 'ne', 'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}
AMBIENT = ('time.', 'random.', 'os.', 'datetime.', 'secrets.', 'uuid.', 'numpy.random.', 'tempfile.', 'socket.',
           'threading.', 'multiprocessing.', 'subprocess.', 'platform.', 'getpass.', 'shutil.', 'pathlib.',
           'locale.', 'builtins.open', 'numpy.seterr', 'numpy.set_printoptions', 'gc.', 'signal.', 'atexit.')


def weyl(M):
    """eigenvalue bounds of a symmetric interval matrix: eigenvalues of the centre (Jacobi) +- norm of the radius"""
    n = len(M)
    if any(not (abs(x) < 1e12) for r in M for iv in r for x in iv):
        return None
    A = [[(M[i][j][0] + M[i][j][1]) / 2 for j in range(n)] for i in range(n)]
    rad = max(sum((M[i][j][1] - M[i][j][0]) / 2 for j in range(n)) for i in range(n))
    nrm = max(sum(abs(x) for x in r) for r in A)
    for _ in range(60):
        off = max([abs(A[i][j]) for i in range(n) for j in range(i)] or [0.0])
        if off <= 1e-15 * nrm:
            break
        for p in range(n):
            for q in range(p + 1, n):
                if A[p][q] == 0.0:
                    continue
                th = (A[q][q] - A[p][p]) / (2 * A[p][q])
                t = (1.0 if th >= 0 else -1.0) / (abs(th) + math.hypot(th, 1.0))
                c = 1 / math.hypot(t, 1.0)
                s = t * c
                for k in range(n):
                    A[k][p], A[k][q] = c * A[k][p] - s * A[k][q], s * A[k][p] + c * A[k][q]
                for k in range(n):
                    A[p][k], A[q][k] = c * A[p][k] - s * A[q][k], s * A[p][k] + c * A[q][k]
    else:
        return None
    pad = rad + 1e-12 * nrm
    return [(x - pad, x + pad) for x in sorted(A[i][i] for i in range(n))]

STACKED = {'linalg.' + x for x in ('inv', 'det', 'eigh', 'eigvalsh', 'svd', 'qr', 'cholesky', 'solve', 'pinv', 'eig', 'eigvals',
                                   'matrix_rank')}


class NpModel(NpMore):
    # ================================================================ scalars
    def nanfin(self, a, b):
        nan = 2 if 2 in (a.nan, b.nan) else max(a.nan, b.nan)
        fin = 1 if a.fin == b.fin == 1 else 0
        return nan, fin

    def promote(self, a, b):
        return a if KORD[a] >= KORD[b] else b

    fpquiet = False

    def fpwarn(self, what):
        if not self.fpquiet:
            self.event('effect', cat='fpwarn', what='RuntimeWarning: ' + what)

    def s_bin(self, op, a, b):
        a, b = self.use(a), self.use(b)
        np = a.np or b.np
        k = self.promote(a.k, b.k)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if a.k == b.k == 'b':
                return self.s_logic(op, a, b)
            if k == 'f':
                self.py_raise('TypeError', 'unsupported operand for bitwise op', internal=True)
            x, y = as_int(a), as_int(b)
            if x is not None and y is not None:
                return num({'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op], np)
            return S('i', mk(op, a.t, b.t), np=np)
        if op in ('LShift', 'RShift'):
            x, y = as_int(a), as_int(b)
            if x is not None and y is not None:
                return num(x << y if op == 'LShift' else x >> y, np)
            return S('i', mk(op, a.t, b.t), np=np)
        if op == 'MatMult':
            self.py_raise('TypeError' if not np else 'ValueError', 'matmul: operands could not be scalars', internal=True)
        if a.k == 'b':
            a = self.cast(a, 'i' if k == 'b' else k)
        if b.k == 'b':
            b = self.cast(b, 'i' if k == 'b' else k)
        if k == 'b':
            if np and op == 'Sub':
                self.py_raise('TypeError', 'numpy boolean subtract', internal=True)
            k = 'b' if np and op in ('Add', 'Mult') else 'i'
            if k == 'b':
                return self.s_logic('BitOr' if op == 'Add' else 'BitAnd', self.cast(a, 'b'), self.cast(b, 'b'))
        if k == 'c':
            return self.c_bin(op, self.cast(a, 'c'), self.cast(b, 'c'), np)
        if op in ('Add', 'Sub'):
            return self.s_add(a, b, k, np, 1 if op == 'Add' else -1)
        if op == 'Mult':
            return self.s_mul(a, b, k, np)
        if op == 'Div':
            return self.s_div(a, b, np)
        if op == 'Pow':
            return self.s_pow(a, b, k, np)
        if op in ('FloorDiv', 'Mod'):
            return self.s_fdiv(op, a, b, k, np)
        raise Unresolved('binop ' + op)

    def s_logic(self, op, a, b):
        np = a.np or b.np
        if op == 'BitAnd':
            return self.all_of([a, b], np)
        if op == 'BitOr':
            return self.any_of([a, b], np)
        if a.bv is not None and b.bv is not None:
            return boolv(a.bv != b.bv, np)
        return self.bterm(self.ite_b(a.t, b_not(b.t), b.t), np)

    def s_add(self, a, b, k, np, sb=1):
        nan, fin = self.nanfin(a, b)
        if nan == 2:
            return S(k, mk('nanop', a.t, b.t), -INF, INF, 2, -1, np)
        ia, ib = self.iv(a), self.iv(b)
        if fin != 1:
            r = i_add(ia, ib if sb == 1 else i_neg(ib))
            if a.fin != 1 and b.fin != 1:
                nan = max(nan, 1)
                r = (-INF, INF)
                if a.t is b.t and a.fin == b.fin == -1 and sb == -1 and k == 'f':
                    return S(k, mk('nanop', a.t, b.t), -INF, INF, 2, -1, np)
                if a.t.op == 'inf' and b.t.op == 'inf':
                    if (a.lo > 0) == ((b.lo > 0) == (sb == 1)):
                        return a.cp(np=np)
                    if np:
                        self.fpwarn('difference of infinities')
                    return S(k, mk('nanop', a.t, b.t), -INF, INF, 2, -1, np)
            elif not nan and k == 'f' and a.t.op == 'inf' and b.fin == 1:
                return num(INF if a.lo > 0 else -INF, np)
            elif not nan and k == 'f' and b.t.op == 'inf' and a.fin == 1:
                return num(INF if (b.lo > 0) == (sb == 1) else -INF, np)
            if -1 in (a.fin, b.fin) and k == 'f':
                fin = -1
            return S(k, mk('op+' if sb == 1 else 'op-', a.t, b.t), r[0], r[1], nan, fin, np)
        t = p_add(a.t, b.t, sb)
        r = i_add(ia, ib if sb == 1 else i_neg(ib))
        return self.mkS(k, t, r, nan, fin, np)

    def mkS(self, k, t, r, nan=0, fin=1, np=False):
        c = cval(t)
        if c is not None and not nan and fin == 1:
            return S(k, t, f2(c), f2(c), 0, 1, np)
        if t.op != 'poly' and t.op != 'atom':
            pass
        return S(k, t, r[0], r[1], nan, fin, np)

    def s_mul(self, a, b, k, np):
        nan, fin = self.nanfin(a, b)
        if nan == 2:
            return S(k, mk('nanop', a.t, b.t), -INF, INF, 2, -1, np)
        ia, ib = self.iv(a), self.iv(b)
        if fin != 1:
            if not nan and k == 'f' and 'inf' in (a.t.op, b.t.op):
                x, y = (a, b) if a.t.op == 'inf' else (b, a)
                iy = self.iv(y)
                if iy[0] == iy[1] == 0 and y.fin == 1:
                    if np:
                        self.fpwarn('product of zero and infinity')
                    return S(k, mk('nanop', a.t, b.t), -INF, INF, 2, -1, np)
                if (iy[0] > 0 or iy[1] < 0) and (y.fin == 1 or y.t.op == 'inf'):
                    return num(INF if (x.lo > 0) == (iy[0] > 0) else -INF, np)
            if k == 'f' and -1 in (a.fin, b.fin):
                x, y = (a, b) if a.fin == -1 else (b, a)
                iy = self.iv(y)
                if iy[0] == iy[1] == 0 and y.fin == 1:
                    return S(k, mk('nanop', a.t, b.t), -INF, INF, 2, -1, np)
                fin = -1
            r = i_mul(ia, ib)
            z = (ia[0] <= 0 <= ia[1] and b.fin != 1) or (ib[0] <= 0 <= ib[1] and a.fin != 1)
            if z:
                nan, r = max(nan, 1), (-INF, INF)
            return S(k, mk('op*', *sorted((a.t, b.t), key=lambda z: z.id)), r[0], r[1], nan, fin, np)
        t = p_mul(a.t, b.t)
        if a.t is b.t:
            r = i_pow(ia, 2)
        else:
            r = i_mul(ia, ib)
        return self.mkS(k, t, r, nan, fin, np)

    def recip(self, b):
        c = cval(b.t)
        if c is not None and c != 0:
            return const_t(1 / c)
        t = b.t
        if t.op == 'poly' and len(t.args[0]) == 1:
            # recip of a monomial: product of recips
            (mono, c), = t.args[0]
            r = const_t(1 / c)
            for v, p in mono:
                q = self.recip_t(T._all[v])
                for _ in range(p):
                    r = p_mul(r, q)
            return r
        return self.recip_t(t)

    def recip_t(self, t):
        if t.op == 'recip':
            return t.args[0]
        if t.op == 'poly':
            # normalise the sign / leading coefficient so that equal values share terms
            lead = t.args[0][0][1]
            if lead != 1:
                u = poly({m: c / lead for m, c in t.args[0]})
                return p_mul(const_t(1 / lead), self.recip_t(u))
        r = mk('recip', t)
        lo, hi = t_iv(t, None)
        if lo > 0 or hi < 0:
            r.lo, r.hi = 1.0 / hi if hi else -INF, 1.0 / lo if lo else INF
            if r.lo > r.hi:
                r.lo, r.hi = r.hi, r.lo
        return r

    def s_div(self, a, b, np):
        nan, fin = self.nanfin(a, b)
        k = 'f'
        ib, ia = self.iv(b), self.iv(a)
        if nan == 2:
            return S(k, mk('nanop', a.t, b.t), -INF, INF, 2, -1, np)
        if ib[0] == ib[1] == 0 and b.fin == 1 and not b.nan:
            if not np:
                self.py_raise('ZeroDivisionError', 'division by zero', internal=True)
            self.fpwarn('division by zero')
            if ia[0] == ia[1] == 0:
                return S(k, mk('nanop', a.t, b.t), -INF, INF, 2, -1, np)
            mayz = ia[0] <= 0 <= ia[1]
            return S(k, mk('op/', a.t, b.t), -INF, INF, 1 if mayz else nan, -1, np)
        if fin != 1:
            if a.fin == 1 and b.fin == -1 and not b.nan:
                return S(k, mk('op/', a.t, b.t), -0.0, 0.0, nan, 1, np)
            return S(k, mk('op/', a.t, b.t), -INF, INF, 1, -1 if a.fin == -1 else 0, np)
        z = ib[0] <= 0 <= ib[1]
        if z and self.nonzero(b):
            z = False
        if a.t is b.t and not z:
            return num(Fraction(1), np) if not nan else S(k, ONE, 1.0, 1.0, nan, fin, np)
        t = self.quot(a, b)
        if z:
            if not np:
                self.may_zero_div = True
            if ib[0] == 0 or ib[1] == 0:
                # one-sided: sign information survives
                q = (1.0 / ib[1], INF) if ib[0] == 0 else (-INF, 1.0 / ib[0])
                r = i_mul(ia, q)
            else:
                r = (-INF, INF)
            mayz = ia[0] <= 0 <= ia[1]
            return S(k, t, r[0], r[1], 1 if mayz else nan, 0, np)
        if ib[0] > 0 or ib[1] < 0:
            q = (1.0 / ib[1], 1.0 / ib[0])
            r = i_mul(ia, q)
        else:
            r = (-INF, INF)
        return self.mkS(k, t, r, nan, fin, np)

    def quot(self, a, b):
        # exact proportionality: a == c * b
        da, db = pdict(a.t), pdict(b.t)
        if len(da) == len(db) and len(db) > 1 and set(da) == set(db):
            m0 = next(iter(db))
            c = da[m0] / db[m0]
            if all(da[m] == c * db[m] for m in db):
                return const_t(c)
        return p_mul(a.t, self.recip(b))

    def nonzero(self, s):
        """known to be non-zero on this path"""
        for t in (s.t, p_neg(s.t)):
            e = self.eq0(t)
            if self.known.get(e.id) is False:
                return True
        return False

    def s_pow(self, a, b, k, np):
        c = cval(b.t) if b.fin == 1 and not b.nan else None
        if c is not None and c.denominator == 1 and 0 <= c <= 8:
            n = int(c)
            r = num(1 if k == 'i' else Fraction(1), np)
            for _ in range(n):
                r = self.s_mul(r, a, k, np) if _ else a.cp(k=k, np=np)
            if n:
                i = i_pow(self.iv(a), n)
                if a.fin == 1:
                    r = r.cp(lo=max(r.lo, i[0]), hi=min(r.hi, i[1]))
            return r
        if c is not None and c == Fraction(1, 2):
            return self.s_sqrt(a.cp(k='f', np=np))
        if c is not None and c.denominator == 1 and -8 <= c < 0:
            return self.s_div(num(1.0, np), self.s_pow(a, num(-int(c)), k, np), np)
        if c is not None and c == Fraction(-1, 2):
            return self.s_div(num(1.0, np), self.s_sqrt(a.cp(k='f', np=np)), np)
        nan, fin = self.nanfin(a, b)
        ia, ib = self.iv(a), self.iv(b)
        t = mk('pow', a.t, b.t)
        lo, hi = -INF, INF
        if ia[0] >= 0:
            lo = 0.0
            try:
                cs = [x ** y for x in ia for y in ib if x > 0 or y >= 0]
                if len(cs) == 4 and all(abs(x) < INF for x in ia + ib):
                    lo, hi = max(0.0, min(cs)), max(cs)
                    if ia[0] <= 1 <= ia[1]:
                        lo, hi = min(lo, 1.0), max(hi, 1.0)
            except (OverflowError, ZeroDivisionError):
                pass
            if ia[0] > 0 or ib[0] >= 0:
                return S(k, t, lo, hi, nan, fin, np)
            return S(k, t, lo, INF, nan, 0, np)
        return S(k, t, lo, hi, 1, 0, np)

    def s_fdiv(self, op, a, b, k, np):
        nan, fin = self.nanfin(a, b)
        ca, cb = pyconst(a), pyconst(b)
        ib = self.iv(b)
        if ib[0] == ib[1] == 0:
            if not np:
                self.py_raise('ZeroDivisionError', 'integer division or modulo by zero', internal=True)
            return S(k, mk('op%', a.t, b.t), -INF, INF, 1 if k == 'f' else 0, 0 if k == 'f' else 1, np)
        if ca is not None and cb is not None:
            return num(ca // cb if op == 'FloorDiv' else ca % cb, np).cp(k=k)
        t = mk('op' + op, a.t, b.t)
        if op == 'Mod':
            r = (0.0, ib[1]) if ib[0] > 0 else ((ib[0], 0.0) if ib[1] < 0 else (-INF, INF))
            ia = self.iv(a)
            if ia[0] >= 0 and ib[0] > 0:
                r = (0.0, min(ib[1], ia[1]))
            if cb is not None and cb > 0 and abs(ia[0]) < INF and abs(ia[1]) < INF and ia[0] // cb == ia[1] // cb:
                r = (ia[0] % cb, ia[1] % cb)
        else:
            ia = self.iv(a)
            if ib[0] > 0 or ib[1] < 0:
                r = i_mul(ia, (1 / ib[1], 1 / ib[0]))
                r = (math.floor(r[0]) if abs(r[0]) < INF else r[0], r[1])
            else:
                r = (-INF, INF)
        if a.k in 'iu' and b.k in 'iu' and math.isfinite(r[0]) and r[0] == r[1]:
            return num(int(r[0]), np)
        return S(k, t, r[0], r[1], nan, fin, np)

    def c_bin(self, op, a, b, np):
        if op in ('Add', 'Sub'):
            return cplx(self.s_bin(op, a.re, b.re), self.s_bin(op, a.im, b.im), np)
        if op == 'Mult':
            m = lambda x, y: self.s_mul(x, y, 'f', np)
            return cplx(self.s_add(m(a.re, b.re), m(a.im, b.im), 'f', np, -1),
                        self.s_add(m(a.re, b.im), m(a.im, b.re), 'f', np), np)
        if op == 'Div':
            ib = self.iv(b.im)
            if ib == (0.0, 0.0):
                return cplx(self.s_div(a.re, b.re, np), self.s_div(a.im, b.re, np), np)
        r = S('f', mk('c' + op, a.t, b.t), np=np)
        i = S('f', mk('ci' + op, a.t, b.t), np=np)
        return cplx(r, i, np)

    def s_un(self, op, v):
        if op == 'USub':
            if v.k == 'b':
                if v.np:
                    self.py_raise('TypeError', 'numpy boolean negative', internal=True)
                v = self.cast(v, 'i')
            if v.k == 'c':
                return cplx(self.s_un(op, v.re), self.s_un(op, v.im), v.np)
            if v.nan == 2:
                return v
            if v.fin != 1:
                if v.t.op == 'inf':
                    return num(-INF if v.t.args[0] else INF, v.np)
                return S(v.k, mk('op-', v.t), -v.hi, -v.lo, v.nan, v.fin, v.np)
            i = self.iv(v)
            return S(v.k, p_neg(v.t), -i[1], -i[0], v.nan, v.fin, v.np)
        if op == 'UAdd':
            return v if v.k != 'b' else self.cast(v, 'i')
        if op == 'Invert':
            if v.k == 'b':
                if v.np:
                    if v.bv is not None:
                        return boolv(not v.bv, True)
                    return S('b', b_not(v.t), 0.0, 1.0, np=True)
                v = self.cast(v, 'i')
            if v.k in 'iu':
                return self.s_add(num(-1, v.np), v, v.k, v.np, -1)
            self.py_raise('TypeError', 'bad operand type for unary ~', internal=True)
        raise Unresolved(op)

    def s_abs(self, v):
        if v.k == 'b':
            return v if v.np else self.cast(v, 'i')
        if v.k == 'c':
            return self.s_sqrt(self.s_add(self.s_mul(v.re, v.re, 'f', v.np), self.s_mul(v.im, v.im, 'f', v.np), 'f', v.np))
        if v.nan == 2:
            return v
        lo, hi = self.iv(v)
        if v.fin != 1:
            if v.t.op == 'inf':
                return num(INF, v.np)
            return S(v.k, mk('opabs', v.t), max(0.0, lo, -hi), max(-lo, hi), v.nan, v.fin, v.np)
        if lo >= 0:
            return v
        if hi <= 0:
            return self.s_un('USub', v)
        t = self.abs_t(v.t)
        return S(v.k, t, max(0.0, t.lo), max(-lo, hi), v.nan, v.fin, v.np)

    def s_sqrt(self, v):
        if v.k != 'c':
            v = v.cp(k='f') if v.k in 'iu' else (self.cast(v, 'f') if v.k == 'b' else v)
        else:
            return cplx(S('f', mk('csqrt', v.t)), S('f', mk('csqrti', v.t)), v.np)
        if v.nan == 2:
            return v
        lo, hi = self.iv(v)
        if hi < -1e-13:
            self.fpwarn('square root of a negative number')
            return S('f', mk('nanop', v.t), -INF, INF, 2, -1, v.np)
        nan, hi = v.nan, max(hi, 0.0)
        if lo < 0:
            if lo > -1e-300:
                lo = 0.0
            else:
                nan = max(nan, 1)
        lo = max(lo, 0.0)
        r = (math.sqrt(lo) if lo < INF else INF, math.sqrt(hi) if hi < INF else INF)
        if v.fin != 1:
            return S('f', mk('opsqrt', v.t), r[0], r[1], nan, v.fin, v.np)
        c = cval(v.t)
        if c is not None and c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return S('f', const_t(Fraction(n, d)), r[0], r[1], nan, 1, v.np)
        # sqrt(x^2) -> |x|
        if v.t.op == 'poly' and len(v.t.args[0]) == 1:
            (mono, cc), = v.t.args[0]
            n, d = (math.isqrt(cc.numerator), math.isqrt(cc.denominator)) if cc > 0 else (0, 1)
            if cc > 0 and n * n == cc.numerator and d * d == cc.denominator and mono and all(p % 2 == 0 for _, p in mono):
                inner = poly({tuple((x, p // 2) for x, p in mono): Fraction(n, d)})
                return self.s_abs(S('f', inner, *t_iv(inner, self.ref), nan=nan, np=v.np))
        t = mk('sqrt', v.t)
        bi = t_iv(v.t, None)
        t.lo = max(t.lo, math.sqrt(max(bi[0], 0.0)) if bi[0] < INF else INF)
        t.hi = min(t.hi, math.sqrt(bi[1]) if 0 <= bi[1] < INF else INF)
        return S('f', t, r[0], r[1], nan, 1, v.np)

    def s_max(self, a, b, np=None):
        return self.s_minmax(a, b, True)

    def s_min(self, a, b):
        return self.s_minmax(a, b, False)

    def s_minmax(self, a, b, mx):
        np = a.np or b.np
        k = self.promote(a.k, b.k)
        a, b = self.cast(a, k), self.cast(b, k)
        nan, fin = self.nanfin(a, b)
        if nan == 2:
            return a if a.nan == 2 else b
        if k == 'b':
            return self.any_of([a, b], np) if mx else self.all_of([a, b], np)
        ia, ib = self.iv(a), self.iv(b)
        if not nan:
            c = self.s_cmp('ge', a, b)
            if c.bv is not None:
                return (a if c.bv == mx else b).cp(np=np)
        if fin != 1:
            f = max if mx else min
            return S(k, mk('opmax' if mx else 'opmin', a.t, b.t), f(ia[0], ib[0]), f(ia[1], ib[1]), nan, fin, np)
        t = self.mx_t(a.t, b.t) if mx else self.mn_t(a.t, b.t)
        f = max if mx else min
        return S(k, t, f(ia[0], ib[0]), f(ia[1], ib[1]), nan, fin, np)

    def eq0(self, p):
        n = p_neg(p)
        x = p if p.id <= n.id else n
        return mk('eq0', x)

    def watched(self, a, b):
        """a comparison of data with a watched quantity outside constructors is an event"""
        d = deps(a.t) | deps(b.t)
        w = d & self.watch
        if w and d - w and not any(q and q.split('.')[-1] == '__init__' for q, _ in self.stack):
            self.event('watch', what=sorted(w)[0])

    def s_cmp(self, op, a, b):
        a, b = self.use(a), self.use(b)
        if isinstance(a, Top) or isinstance(b, Top) or not isinstance(a, S) or not isinstance(b, S):
            return Top(mk('cmp', op, self.vt(a), self.vt(b)), 'bool')
        np = a.np or b.np
        if a.k == 'b' and b.k == 'b' and op in ('eq', 'ne'):
            x = self.s_logic('BitXor', a, b)
            x = x.cp(np=np)
            if op == 'ne':
                return x
            return boolv(not x.bv, np) if x.bv is not None else S('b', b_not(x.t), 0.0, 1.0, np=np)
        if a.k == 'b':
            a = self.cast(a, 'i')
        if b.k == 'b':
            b = self.cast(b, 'i')
        if a.k == 'c' or b.k == 'c':
            a, b = self.cast(a, 'c'), self.cast(b, 'c')
            if op in ('eq', 'ne'):
                e = self.all_of([self.s_cmp('eq', a.re, b.re), self.s_cmp('eq', a.im, b.im)], np)
                if op == 'eq':
                    return e
                return boolv(not e.bv, np) if e.bv is not None else S('b', b_not(e.t), 0.0, 1.0, np=np)
            if not np:
                self.py_raise('TypeError', "'<' not supported between complex", internal=True)
            return self.s_cmp(op, a.re, b.re)
        if self.watch:
            self.watched(a, b)
        if a.nan == 2 or b.nan == 2:
            return boolv(op == 'ne', np)
        if op in ('gt', 'ge'):
            return self.s_cmp({'gt': 'lt', 'ge': 'le'}[op], b, a)
        if op == 'ne':
            e = self.s_cmp('eq', a, b)
            return boolv(not e.bv, np) if e.bv is not None else S('b', b_not(e.t), 0.0, 1.0, np=np)
        nan, fin = self.nanfin(a, b)
        ia, ib = self.iv(a), self.iv(b)
        r = None
        if fin == 1:
            p = p_add(a.t, b.t, -1)
            t = self.eq0(p) if op == 'eq' else mk('lt0' if op == 'lt' else 'le0', p)
            d = i_meet(t_iv(p, self.ref), i_add(ia, i_neg(ib)))
        else:
            t = mk('op' + op, a.t, b.t)
            d = i_add(ia, i_neg(ib))
            if ia == ib == (INF, INF) or ia == ib == (-INF, -INF):
                d = (0.0, 0.0)
            elif a.fin == 1 and b.fin == -1 and op == 'eq' and not b.nan:
                return boolv(False, np)
            elif b.fin == 1 and a.fin == -1 and op == 'eq' and not a.nan:
                return boolv(False, np)
        if op == 'lt':
            r = True if d[1] < 0 else (False if d[0] >= 0 else None)
            if fin != 1 and r is False and ia == ib and INF in ia:
                r = None if ia[0] != ia[1] else False
        elif op == 'le':
            r = True if d[1] <= 0 else (False if d[0] > 0 else None)
        else:
            r = True if d[0] == d[1] == 0 else (False if d[0] > 0 or d[1] < 0 else None)
        if r is None:
            r = self.dec(t) if fin == 1 else self.known.get(t.id)
        if r is None and op in ('lt', 'le', 'eq') and fin == 1:
            # related decided comparisons (strict / non-strict / swapped)
            q = p_neg(p)
            if op == 'lt' and self.known.get(mk('le0', q).id) is not None:
                r = not self.known[mk('le0', q).id]
            elif op == 'le' and self.known.get(mk('lt0', q).id) is not None:
                r = not self.known[mk('lt0', q).id]
            elif op == 'le' and self.known.get(mk('lt0', p).id) is True:
                r = True
            elif op == 'lt' and self.known.get(mk('le0', p).id) is False:
                r = False
        if nan:
            if r is False:
                return boolv(False, np)
            tt = mk('cmpnan', t if r is None else TRUE_T, a.t, b.t)
            k = self.known.get(tt.id)
            if k is not None:
                return boolv(k, np)
            return S('b', tt, 0.0, 1.0, np=np)
        if r is not None:
            return boolv(r, np)
        return S('b', t, 0.0, 1.0, np=np)

    def cast(self, v, k, np=None):
        v = self.use(v)
        if isinstance(v, Top):
            return v
        if not isinstance(v, S):
            return v
        if v.k == k:
            return v
        if k == 'c':
            z = num(0.0)
            return cplx(self.cast(v, 'f'), z, v.np)
        if v.k == 'c':
            if k == 'b':
                return self.s_cmp('ne', v, num(0))
            return self.cast(v.re, k)
        if v.k == 'b':
            if v.bv is not None:
                return S(k, const_t(int(v.bv)), float(v.bv), float(v.bv), np=v.np)
            t = mk('bint', v.t)
            t.lo, t.hi = 0.0, 1.0
            return S(k, t, 0.0, 1.0, np=v.np)
        if k == 'b':
            if v.nan == 2:
                return boolv(True, v.np)
            r = self.s_cmp('ne', v, num(0))
            return r.cp(np=v.np)
        if k == 'f':
            return v.cp(k='f')
        if k in 'iu':
            if v.k in 'iu':
                return v.cp(k=k)
            if v.nan or v.fin != 1:
                return S('i', mk('trunc', v.t), -INF, INF, np=v.np)
            c = cval(v.t)
            if c is not None:
                return num(int(c), v.np)
            lo, hi = self.iv(v)
            if math.isfinite(lo) and math.isfinite(hi):
                lo, hi = float(math.trunc(lo)), float(math.trunc(hi))
                if lo == hi:
                    return num(int(lo), v.np)
            if self.is_integral(v.t):
                return v.cp(k='i')
            t = mk('trunc', v.t)
            t.lo, t.hi = lo, hi
            return S('i', t, lo, hi, np=v.np)
        return v

    def is_integral(self, t):
        if t.op in ('trunc', 'floor', 'ceil', 'bint', 'rint'):
            return True
        if t.op == 'poly':
            return all(c.denominator == 1 and all(self.is_integral(T._all[v]) for v, _ in m) for m, c in t.args[0])
        if t.op == 'atom' and t.meta == 'int':
            return True
        return False

    def s_attr(self, v, name):
        if name == 'real':
            return v.re if v.k == 'c' else v
        if name == 'imag':
            return v.im if v.k == 'c' else num(0 if v.k in 'iub' else 0.0, v.np)
        if name == '__class__':
            return self.type_of(v)
        if v.np:
            if name == 'shape':
                return Tup(())
            if name == 'ndim':
                return num(0)
            if name == 'size':
                return num(1)
            if name == 'T':
                return v
            if name == 'dtype':
                return DType(v.k)
            if name == 'flat':
                return self.new_arr([v], (1,), v.k)
            if name in self.AM or name in ('item', 'is_integer', 'conjugate'):
                return Meth(v, name)
        else:
            t = {'f': float, 'i': int, 'b': bool, 'c': complex, 'u': int}[v.k]
            if hasattr(t, name):
                return Meth(v, name)
        self.py_raise('AttributeError', "'%s' object has no attribute '%s'" % (self.tname(v), name), internal=True)

    def s_method(self, v, name, args, kw, node):
        if name == 'item':
            return v.cp(np=False)
        if name == 'is_integer':
            c = pyconst(v)
            if c is not None:
                return boolv(float(c).is_integer())
            return Top(mk('isint', v.t), 'bool')
        if name == 'conjugate':
            return v
        if v.np and name in self.AM:
            return self.arr_method(self.new_arr([v], (), v.k), name, args, kw, node)
        return self.top('s.' + name, [v] + list(args))

    # ================================================================= arrays
    def arr(self, r):
        rec = self.use(self.store[('a', r.id)])
        return rec

    def elems(self, r):
        rec = self.arr(r)
        buf = self.use(self.store[('b', rec.buf)])
        return [self.use(buf[i]) if isinstance(buf[i], PhiV) else buf[i] for i in rec.idx]

    def new_arr(self, els, shape, dtype):
        if len(els) > 20000:
            raise Unresolved('array of more than 20000 elements')
        b = self.nid()
        r = Ref('arr', self.nid())
        els = tuple((x.cp(np=True) if not x.np else x) if isinstance(x, S) and dtype != 'O' else x for x in els)
        self.store[('b', b)] = els
        self.store[('a', r.id)] = ArrRec(b, tuple(range(len(els))), tuple(shape), dtype)
        self.alloc_site[r.id] = self.alloc_site[b] = self.where()
        return r

    def k_axes(self, rec):
        """axes from the slowest to the fastest in memory"""
        sh, st = rec.shape, cstr(rec.shape)
        if 0 in sh:
            return list(range(len(sh)))
        co = [abs(rec.idx[s] - rec.idx[0]) if n > 1 else None for s, n in zip(st, sh)]
        mv = sorted([a for a, c in enumerate(co) if c is not None], key=lambda a: -co[a])
        out = list(range(len(sh)))
        for a, m in zip([a for a, c in enumerate(co) if c is not None], mv):
            out[a] = m
        return out

    def layout(self, rec, order):
        """axes permutation the order letter stands for"""
        n = len(rec.shape)
        if order is None or order == 'C':
            return list(range(n))
        if order == 'F':
            return list(range(n))[::-1]
        ax = self.k_axes(rec)
        if order == 'K':
            return ax
        if order == 'A':
            mv = [a for a in ax if rec.shape[a] > 1]
            return list(range(n))[::-1] if len(mv) > 1 and mv == sorted(mv, reverse=True) else list(range(n))
        raise NoModel('order %r' % (order,))

    def laid(self, els, shape, dtype, axes):
        """new array whose memory runs over the axes in the given order"""
        if list(axes) == list(range(len(shape))):
            return self.new_arr(els, shape, dtype)
        perm, _ = self.t_idx(tuple(range(len(els))), shape, axes)
        r = self.new_arr([els[i] for i in perm], shape, dtype)
        back = [0] * len(perm)
        for pos, i in enumerate(perm):
            back[i] = pos
        rec = self.store[('a', r.id)]
        self.store[('a', r.id)] = ArrRec(rec.buf, tuple(back), tuple(shape), dtype)
        return r

    def view(self, r, idx, shape):
        rec = self.arr(r)
        v = Ref('arr', self.nid())
        self.store[('a', v.id)] = ArrRec(rec.buf, tuple(idx), tuple(shape), rec.dtype)
        self.alloc_site[v.id] = self.where()
        return v

    def call_inspect(self, name, args):
        def frame_at(d):
            fid = self.stack_frames.get(d) if d >= 1 else None
            fr = self.frames.get(fid)
            q = fr.qual.split('.')[-1] if fr is not None else '<module>'

            def locs(E):
                if fr is None:
                    return E.new_dict([])
                return E.new_dict([(k, E.store[('v', fid, k)]) for k in sorted(fr.locals or ())
                                   if ('v', fid, k) in E.store])
            back = (lambda E: frame_at(d - 1)) if d >= 1 else None
            return PyObj('frame', f_locals=locs, f_code=PyObj('code', co_name=q), f_back=back,
                         mod=(fr.mod if fr is not None else None), f_lineno=num(1))
        depth = len(self.stack)
        if name == 'stack':
            return self.new_list([Tup([frame_at(d), 'file', num(1), '', None, None]) for d in range(depth, 0, -1)])
        if name == 'currentframe':
            return frame_at(depth)
        if name == 'getmodule' and args and isinstance(args[0], PyObj):
            m = args[0].attrs.get('mod')
            return self.modules.get(m) if m else None
        return self.top('inspect.' + name, [], None)

    def scalar(self, x):
        if isinstance(x, S) and not x.np:
            return x.cp(np=True)
        return x

    def dtype_of_val(self, v, soft=False):
        if isinstance(v, DType):
            return v.k
        n = None
        if isinstance(v, BI):
            n = v.name
        elif isinstance(v, Ext):
            n = v.path.split('.')[-1]
        elif isinstance(v, str):
            n = v
        if n in DT_NAMES:
            return DT_NAMES[n]
        if soft:
            return None
        if v is None:
            return None
        raise NoModel('dtype %r' % (v,))

    def to_arr(self, v, dtype=None, copy=False, ndmin=0):
        """numpy.array / asarray conversion"""
        v = self.use(v)
        if isinstance(v, Top):
            raise NoModel('array of unknown')
        if isinstance(v, Ref) and v.kind == 'arr':
            rec = self.arr(v)
            if not copy and (dtype is None or dtype == rec.dtype):
                return v
            els = self.elems(v)
            return self.laid(self.cast_all(els, rec.dtype, dtype or rec.dtype), rec.shape, dtype or rec.dtype,
                             self.k_axes(rec))
        els, shape, k = self.nest(v, force_obj=(dtype == 'O'))
        if dtype is not None and dtype != k:
            els = self.cast_all(els, k, dtype)
            k = dtype
        return self.new_arr(els, shape, k)

    def cast_all(self, els, k, dtype):
        out = []
        for x in els:
            x = self.use(x)
            if dtype == 'O' or isinstance(x, Top):
                out.append(x)
            elif isinstance(x, S):
                out.append(self.cast(x, dtype))
            elif isinstance(x, str) and dtype == 'U':
                out.append(x)
            elif isinstance(x, str):
                try:
                    out.append(num(float(x)))
                except ValueError:
                    self.py_raise('ValueError', 'could not convert string to float', internal=True)
            elif isinstance(x, Ref) and x.kind == 'arr':
                e = self.elems(x)
                if len(e) != 1:
                    self.py_raise('ValueError', 'setting an array element with a sequence.', internal=True)
                out.append(self.cast(e[0], dtype))
            elif x is None and dtype in 'fb':
                out.append(num(float('nan')) if dtype == 'f' else boolv(False))
            elif dtype == 'b':
                d, c = self.truth(x)
                out.append(boolv(d) if d is not None else S('b', c, 0.0, 1.0))
            elif isinstance(x, (Tup,)) or isinstance(x, Ref) and x.kind == 'list':
                self.py_raise('ValueError', 'setting an array element with a sequence.', internal=True)
            else:
                self.py_raise('TypeError', "float() argument must be a string or a number, not %s" % self.tname(x),
                              internal=True)
        return out

    def nest(self, v, force_obj=False):
        """(flat elements, shape, kind) of a nested python structure"""
        v = self.use(v)
        if isinstance(v, Top):
            raise NoModel('array of unknown')
        if isinstance(v, Ref) and v.kind == 'arr':
            rec = self.arr(v)
            return self.elems(v), rec.shape, rec.dtype
        if isinstance(v, Tup) or isinstance(v, Ref) and v.kind == 'list':
            seq = v.items if isinstance(v, Tup) else self.cont(v)
            if not seq:
                return [], (0,), 'f'
            subs = [self.nest(x, force_obj) for x in seq]
            shapes = [s[1] for s in subs]
            if all(s == shapes[0] for s in shapes):
                k = subs[0][2]
                for s in subs[1:]:
                    k = self.promote(k, s[2])
                els = [e for s in subs for e in s[0]]
                if k != 'O':
                    els = [self.cast(e, k) if isinstance(e, S) else e for e in els]
                return els, (len(seq),) + shapes[0], k
            # ragged: object array over the common leading dimensions (numpy 1.x)
            if not force_obj and all(k[2] != 'U' or k[1] for k in subs) and not any(k[2] == 'O' and k[1] == () for k in subs):
                self.event('effect', cat='warn', what='VisibleDeprecationWarning: array of ragged nested sequences')
            if all(len(s) == 0 for s in shapes):
                pass
            n0 = [s[0] if s else None for s in shapes]
            if None not in n0 and all(n == n0[0] for n in n0) and any(
                    isinstance(self.use(x), Ref) and self.use(x).kind == 'arr' for x in seq):
                self.py_raise('ValueError', 'could not broadcast input array', internal=True)
            return [self.use(x) for x in seq], (len(seq),), 'O'
        if isinstance(v, S):
            return [v], (), v.k
        if isinstance(v, str):
            return [v], (), 'U'
        return [v], (), 'O'

    # ---------------------------------------------------------------- indexing
    def arr_getitem(self, r, i):
        rec = self.arr(r)
        if rec.dtype == 'V':
            raise Unresolved('void array')
        kind, idx, shape = self.index(rec, i)
        if kind == 'basic':
            if shape == () and not self.has_ellipsis(i) and len(idx) == 1:
                return self.scalar(self.use(self.use(self.store[('b', rec.buf)])[idx[0]]))
            return self.view(r, idx, shape)
        buf = self.use(self.store[('b', rec.buf)])
        return self.new_arr([self.use(buf[k]) for k in idx], shape, rec.dtype)

    def has_ellipsis(self, i):
        return i is ELL or isinstance(i, Tup) and any(x is ELL for x in i.items)

    def index(self, rec, i, for_set=False):
        """-> ('basic'|'adv', flat buffer indices, shape)"""
        items = list(i.items) if isinstance(i, Tup) else [i]
        items = [self.use(x) for x in items]
        norm = []
        adv = False
        for x in items:
            if isinstance(x, Ref) and x.kind == 'list' or isinstance(x, Tup):
                x = self.to_arr(x)
                if not self.arr(x).idx:
                    rc = self.arr(x)
                    self.store[('a', x.id)] = rc._replace(dtype='i')
            if isinstance(x, Top):
                raise Unresolved('unknown index')
            if isinstance(x, S) and x.k == 'f' or x is not None and isinstance(x, str):
                self.py_raise('IndexError', 'only integers, slices, ellipsis, newaxis and integer or boolean arrays '
                                            'are valid indices', internal=True)
            if isinstance(x, S) and x.k == 'b':
                x = self.new_arr([x], (), 'b')
            if isinstance(x, Ref) and x.kind == 'arr':
                rc = self.arr(x)
                if rc.dtype == 'f' or rc.dtype == 'O' and rc.idx:
                    self.py_raise('IndexError', 'arrays used as indices must be of integer (or boolean) type',
                                  internal=True)
                adv = True
            norm.append(x)
        nd = 0
        for x in norm:
            if x is None or x is ELL:
                continue
            if isinstance(x, Ref) and self.arr(x).dtype == 'b':
                nd += len(self.arr(x).shape)
            else:
                nd += 1
        if nd > len(rec.shape):
            self.py_raise('IndexError', 'too many indices for array: array is %d-dimensional, but %d were indexed'
                          % (len(rec.shape), nd), internal=True)
        fill = len(rec.shape) - nd
        exp, seen = [], False
        for x in norm:
            if x is ELL:
                exp.extend([Slc(None, None, None)] * fill)
                seen = True
            else:
                exp.append(x)
        if not seen:
            exp.extend([Slc(None, None, None)] * fill)
        # axes: list of ('s', range/list) | ('n',) | ('i', k) | ('a', ids, shape)
        st = cstr(rec.shape)
        axes = []
        ax = 0
        for x in exp:
            if x is None:
                axes.append(('n',))
                continue
            if isinstance(x, Slc):
                axes.append(('s', list(self.slice_range(x, rec.shape[ax])), st[ax]))
                ax += 1
                continue
            if isinstance(x, Ref):
                rc = self.arr(x)
                els = self.elems(x)
                if rc.dtype == 'b':
                    n = len(rc.shape)
                    if rc.shape != rec.shape[ax:ax + n]:
                        self.py_raise('IndexError', 'boolean index did not match indexed array', internal=True)
                    sel = []
                    for q, e in enumerate(els):
                        d, c = self.truth(e)
                        if d is None:
                            d = self.partition(c, ('mask', q))
                        if d:
                            sel.append(q)
                    sub = cstr(rc.shape)
                    offs = []
                    for q in sel:
                        o = 0
                        for dd in range(n):
                            o += (q // sub[dd] % rc.shape[dd]) * st[ax + dd]
                        offs.append(o)
                    axes.append(('a', offs, (len(offs),)))
                    ax += n
                    continue
                n = rec.shape[ax]
                offs = []
                for e in els:
                    k = self.const_index(e)
                    if not -n <= k < n:
                        self.py_raise('IndexError', 'index %d is out of bounds for axis %d with size %d' % (k, ax, n),
                                      internal=True)
                    offs.append((k % n) * st[ax])
                axes.append(('a', offs, rc.shape))
                ax += 1
                continue
            k = self.const_index(x)
            n = rec.shape[ax]
            if not -n <= k < n:
                self.py_raise('IndexError', 'index %d is out of bounds for axis %d with size %d' % (k, ax, n),
                              internal=True)
            if adv:
                axes.append(('a', [(k % n) * st[ax]], ()))
            else:
                axes.append(('i', (k % n) * st[ax]))
            ax += 1
        if not adv:
            shape, offs = [], [0]
            for a in axes:
                if a[0] == 'n':
                    shape.append(1)
                elif a[0] == 'i':
                    offs = [o + a[1] for o in offs]
                else:
                    shape.append(len(a[1]))
                    offs = [o + k * a[2] for o in offs for k in a[1]]
            return 'basic', [rec.idx[o] for o in offs], tuple(shape)
        advs = [j for j, a in enumerate(axes) if a[0] == 'a']
        bsh = ()
        for j in advs:
            bsh = self.bshape(bsh, axes[j][2], 'indexing arrays could not be broadcast together', 'IndexError')
        comb = [0] * prod(bsh)
        for j in advs:
            m = self.bmap(axes[j][2], bsh)
            comb = [c + axes[j][1][m[q]] for q, c in enumerate(comb)]
        contiguous = advs == list(range(advs[0], advs[-1] + 1))
        groups = []
        first = True
        for j, a in enumerate(axes):
            if a[0] == 'a':
                if first:
                    groups.append(('A',))
                    first = False
            else:
                groups.append(a)
        if not contiguous:
            groups = [('A',)] + [g for g in groups if g[0] != 'A']
        shape, offs = [], [0]
        for g in groups:
            if g[0] == 'A':
                shape.extend(bsh)
                offs = [o + c for o in offs for c in comb]
            elif g[0] == 'n':
                shape.append(1)
            elif g[0] == 'i':
                offs = [o + g[1] for o in offs]
            else:
                shape.append(len(g[1]))
                offs = [o + k * g[2] for o in offs for k in g[1]]
        return 'adv', [rec.idx[o] for o in offs], tuple(shape)

    def mask_of(self, rec, i):
        """i is a boolean mask over the whole array (or one leading mask) with undecided elements"""
        if isinstance(i, Ref) and i.kind == 'arr' and self.arr(i).dtype == 'b' and self.arr(i).shape == rec.shape:
            return self.elems(i)
        return None

    def wr_buf(self, r, rec, what):
        self.wr_event(rec.buf, what)
        if r.id in self.origin and rec.buf not in self.origin:
            self.wr_event(r.id, what)

    def arr_setitem(self, r, i, v):
        rec = self.arr(r)
        v = self.use(v)
        i = self.use(i)
        buf = list(self.use(self.store[('b', rec.buf)]))
        if isinstance(v, Top):
            k, idx, shape = self.index(rec, i, True)
            self.wr_buf(r, rec, 'array item store')
            for q in idx:
                buf[q] = self.top_elem(v, rec.dtype, q)
            self.store[('b', rec.buf)] = tuple(buf)
            return
        m = self.mask_of(rec, i)
        if m is not None and any(e.bv is None for e in m if isinstance(e, S)):
            va = self.to_arr(v)
            vals = self.elems(va)
            if len(vals) == 1:
                self.wr_buf(r, rec, 'array masked store')
                x = self.cast_all([vals[0]], None, rec.dtype)[0]
                x = self.scalar(x) if rec.dtype != 'O' else x
                for q, e in zip(rec.idx, m):
                    buf[q] = self.select(e, x, self.use(buf[q]))
                self.store[('b', rec.buf)] = tuple(buf)
                return
        items = list(i.items) if isinstance(i, Tup) else [i]
        bm = [q for q, x in enumerate(items) if isinstance(x, Ref) and x.kind == 'arr' and self.arr(x).dtype == 'b']
        if len(bm) == 1 and rec.dtype != 'O' and len(self.arr(items[bm[0]]).shape) == 1 and \
                not any(isinstance(x, Ref) and q != bm[0] for q, x in enumerate(items)):
            m = self.elems(items[bm[0]])
            va = self.to_arr(v)
            ax = sum(1 for x in items[:bm[0]] if x is not None)
            if any(isinstance(e, S) and e.bv is None for e in m) and len(self.elems(va)) == 1 and \
                    not any(isinstance(x, EllipsisV) for x in items) and ax < len(rec.shape) and \
                    rec.shape[ax] == len(m):
                self.wr_buf(r, rec, 'array masked store')
                x = self.scalar(self.cast_all([self.elems(va)[0]], None, rec.dtype)[0])
                for q, e in enumerate(m):
                    it = list(items)
                    it[bm[0]] = num(q)
                    _, idx, _ = self.index(rec, Tup(it), True)
                    for d in idx:
                        buf[d] = self.select(e, x, self.use(buf[d]))
                self.store[('b', rec.buf)] = tuple(buf)
                return
        k, idx, shape = self.index(rec, i, True)
        if rec.dtype == 'O' and not (isinstance(v, Ref) and v.kind == 'arr') and (
                shape == () or not (isinstance(v, Tup) or isinstance(v, Ref) and v.kind == 'list')):
            vals, vsh = [v], ()
        else:
            va = self.to_arr(v, 'O' if rec.dtype == 'O' and not isinstance(v, Ref) else None)
            vals, vsh = self.elems(va), self.arr(va).shape
        while len(vsh) > len(shape) and vsh[0] == 1:
            vsh = vsh[1:]
        if len(vsh) > len(shape) or any(a != b and a != 1 for a, b in zip(vsh[::-1], shape[::-1])):
            if shape == () and len(vals) != 1 or True:
                self.py_raise('ValueError', 'could not broadcast input array from shape %s into shape %s'
                              % (self.arr(va).shape if isinstance(v, Ref) else vsh, shape), internal=True)
        if rec.dtype != 'O':
            vals = [self.scalar(x) for x in self.cast_all(vals, None, rec.dtype)]
        mp = self.bmap(vsh, shape)
        self.wr_buf(r, rec, 'array item store')
        for q, d in enumerate(idx):
            buf[d] = vals[mp[q]]
        self.store[('b', rec.buf)] = tuple(buf)

    def top_elem(self, v, k, q):
        if k == 'O':
            return Top(mk('item', v.t, q), None)
        t = mk('item', v.t, q)
        if k == 'b':
            return S('b', t, 0.0, 1.0, np=True)
        return S(k, t, np=True, nan=1 if k == 'f' else 0, fin=0 if k == 'f' else 1)

    def arr_inplace(self, old, r):
        rec = self.arr(old)
        self.wr_buf(old, rec, 'in-place operator')
        if isinstance(r, Top):
            buf = list(self.use(self.store[('b', rec.buf)]))
            for q, d in enumerate(rec.idx):
                buf[d] = self.top_elem(r, rec.dtype, q)
            self.store[('b', rec.buf)] = tuple(buf)
            return
        ra = self.to_arr(r)
        els = self.elems(ra)
        sh = self.arr(ra).shape
        if self.bshape(sh, rec.shape, 'non-broadcastable output operand') != rec.shape:
            self.py_raise('ValueError', 'non-broadcastable output operand', internal=True)
        mp = self.bmap(sh, rec.shape)
        if rec.dtype in 'iu' and self.arr(ra).dtype in 'fc':
            self.py_raise('TypeError', 'Cannot cast ufunc output', internal=True)
        els = [self.scalar(x) for x in self.cast_all(els, None, rec.dtype)]
        buf = list(self.use(self.store[('b', rec.buf)]))
        for q, d in enumerate(rec.idx):
            buf[d] = els[mp[q]]
        self.store[('b', rec.buf)] = tuple(buf)

    def arr_setattr(self, o, name, v):
        rec = self.arr(o)
        if name == 'shape':
            sh = self.shape_arg(v, len(rec.idx))
            self.wr_event(o.id, 'in-place change of .shape')
            self.store[('a', o.id)] = rec._replace(shape=sh)
            return
        if name == 'flat':
            return self.arr_setitem(self.view(o, rec.idx, (len(rec.idx),)), Slc(None, None, None), v)
        self.wr_event(o.id, 'store to .%s' % name)

    # ------------------------------------------------------------- broadcasting
    def bshape(self, a, b, msg='operands could not be broadcast together', exc='ValueError'):
        n = max(len(a), len(b))
        x = (1,) * (n - len(a)) + tuple(a)
        y = (1,) * (n - len(b)) + tuple(b)
        out = []
        for p, q in zip(x, y):
            if p == q or q == 1:
                out.append(p)
            elif p == 1:
                out.append(q)
            else:
                self.py_raise(exc, '%s: shapes %s %s' % (msg, tuple(a), tuple(b)), internal=True)
        return tuple(out)

    def bmap(self, sh, out):
        if sh == out:
            return range(prod(out))
        st = cstr(sh)
        pad = len(out) - len(sh)
        res = [0]
        for d, n in enumerate(out):
            if d < pad or sh[d - pad] == 1:
                res = [r for r in res for _ in range(n)]
            else:
                s = st[d - pad]
                res = [r + s * k for r in res for k in range(n)]
        return res

    def bcast2(self, a, b):
        a, b = self.to_arr(a), self.to_arr(b)
        ra, rb = self.arr(a), self.arr(b)
        sh = self.bshape(ra.shape, rb.shape)
        ea, eb = self.elems(a), self.elems(b)
        ma, mb = self.bmap(ra.shape, sh), self.bmap(rb.shape, sh)
        return [ea[i] for i in ma], [eb[i] for i in mb], sh, ra.dtype, rb.dtype

    def ret(self, els, sh, k):
        """ufunc result: 0-d becomes a numpy scalar"""
        if sh == ():
            return self.scalar(els[0]) if k != 'O' else els[0]
        return self.new_arr(els, sh, k)

    def arr_bin(self, op, a, b):
        if op == 'MatMult':
            return self.matmul(a, b)
        ea, eb, sh, ka, kb = self.bcast2(a, b)
        if 'U' in (ka, kb):
            self.py_raise('TypeError', 'ufunc did not contain a loop for str', internal=True)
        if 'O' in (ka, kb):
            els = [self.binop(op, x, y) for x, y in zip(ea, eb)]
            return self.ret(els, sh, 'O')
        k = self.promote(ka, kb)
        if op == 'Div':
            k = 'f' if k != 'c' else 'c'
        elif k == 'b' and op in ('FloorDiv', 'Mod', 'Pow'):
            k = 'i'
        els = []
        for x, y in zip(ea, eb):
            if isinstance(x, Top) or isinstance(y, Top):
                els.append(self.top_elem(self.top('bin' + op, [x, y]), k, 0))
            else:
                x = x if x.np else x.cp(np=True)
                els.append(self.cast(self.s_bin(op, x, y), k))
        return self.ret(els, sh, k)

    def arr_cmp(self, op, a, b):
        if b is None or isinstance(b, str) and self.arr(self.to_arr(a)).dtype != 'U':
            if op in ('Eq', 'NotEq'):
                if isinstance(a, Ref) and self.arr(a).dtype == 'O':
                    els = [self.as_bool(self.compare(op, x, b)) for x in self.elems(a)]
                    return self.ret(els, self.arr(a).shape, 'b')
                v = boolv(op == 'NotEq', True)
                return self.ret([v] * len(self.arr(a).idx), self.arr(a).shape, 'b')
        if a is None or isinstance(a, str):
            return self.arr_cmp({'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op), b, a)
        a2, b2 = self.to_arr(a), self.to_arr(b)
        ra, rb = self.arr(a2), self.arr(b2)
        if op in ('Eq', 'NotEq'):
            n = max(len(ra.shape), len(rb.shape))
            x = (1,) * (n - len(ra.shape)) + ra.shape
            y = (1,) * (n - len(rb.shape)) + rb.shape
            if any(p != q and 1 not in (p, q) for p, q in zip(x, y)):
                return boolv(op == 'NotEq')     # numpy 1.x: elementwise comparison failed -> scalar
        ea, eb, sh, ka, kb = self.bcast2(a2, b2)
        els = []
        for x, y in zip(ea, eb):
            if ka in 'OU' or kb in 'OU' or isinstance(x, Top) or isinstance(y, Top):
                els.append(self.as_bool(self.compare(op, x, y)))
            else:
                els.append(self.s_cmp(CMP[op], x, y).cp(np=True))
        return self.ret(els, sh, 'b')

    def arr_un(self, op, v):
        rec = self.arr(v)
        els = [self.unop(op, x) if rec.dtype == 'O' else self.s_un(op, x) for x in self.elems(v)]
        return self.ret(els, rec.shape, rec.dtype)

    def matmul(self, a, b):
        a, b = self.to_arr(a), self.to_arr(b)
        ra, rb = self.arr(a), self.arr(b)
        if ra.shape == () or rb.shape == ():
            self.py_raise('ValueError', 'matmul: Input operand does not have enough dimensions', internal=True)
        sa, sb = ra.shape, rb.shape
        s1, s2 = len(sa) == 1, len(sb) == 1
        if s1:
            sa = (1,) + sa
        if s2:
            sb = sb + (1,)
        if sa[-1] != sb[-2]:
            self.py_raise('ValueError', 'matmul: dimension mismatch %s %s' % (ra.shape, rb.shape), internal=True)
        batch = self.bshape(sa[:-2], sb[:-2])
        n, m, p = sa[-2], sa[-1], sb[-1]
        ea, eb = self.elems(a), self.elems(b)
        ma, mb = self.bmap(sa[:-2], batch), self.bmap(sb[:-2], batch)
        k = self.promote(ra.dtype, rb.dtype)
        out = []
        for q in range(prod(batch)):
            oa, ob = ma[q] * n * m, mb[q] * m * p
            for i in range(n):
                for j in range(p):
                    out.append(self.dotsum([ea[oa + i * m + l] for l in range(m)],
                                           [eb[ob + l * p + j] for l in range(m)], k))
        sh = batch + ((n,) if not s1 else ()) + ((p,) if not s2 else ())
        return self.ret(out, sh, k)

    def dotsum(self, xs, ys, k):
        if k == 'O':
            r = None
            for x, y in zip(xs, ys):
                z = self.binop('Mult', x, y)
                r = z if r is None else self.binop('Add', r, z)
            return r if r is not None else num(0)
        r = None
        for x, y in zip(xs, ys):
            z = self.s_bin('Mult', self.scalar(x), y)
            r = z if r is None else self.s_bin('Add', r, z)
        if r is None:
            r = num(0 if k in 'iub' else 0.0)
        r = self.cast(r, k)
        return self.tighten_sq(r)

    def tighten_sq(self, r):
        """sum of squares with positive coefficients is non-negative"""
        if isinstance(r, S) and r.k == 'f' and r.lo < 0 and r.t.op == 'poly' and not r.nan:
            if all(c > 0 and all(p % 2 == 0 for _, p in m) for m, c in r.t.args[0]):
                return r.cp(lo=0.0)
        return r

    # ------------------------------------------------------------ shape helpers
    def shape_arg(self, v, total=None):
        v = self.use(v)
        if isinstance(v, S):
            dims = [self.const_index(self.int_like(v))]
        else:
            dims = [self.const_index(self.int_like(x)) for x in self.iterate(v)]
        if total is not None and -1 in dims:
            rest = prod([d for d in dims if d != -1])
            if dims.count(-1) > 1 or rest == 0 or total % rest:
                self.py_raise('ValueError', 'cannot reshape array of size %d into shape %s' % (total, tuple(dims)),
                              internal=True)
            dims[dims.index(-1)] = total // rest
        if total is not None and prod(dims) != total:
            self.py_raise('ValueError', 'cannot reshape array of size %d into shape %s' % (total, tuple(dims)),
                          internal=True)
        if any(d < 0 for d in dims):
            self.py_raise('ValueError', 'negative dimensions are not allowed', internal=True)
        if prod(dims) > 20000:
            raise Unresolved('array too large for the element domain')
        return tuple(dims)

    def int_like(self, x):
        x = self.use(x)
        if isinstance(x, S) and x.k == 'f':
            self.py_raise('TypeError', "'float' object cannot be interpreted as an integer", internal=True)
        return x

    def axis_arg(self, ax, nd):
        if ax is None:
            return None
        ax = self.use(ax)
        if isinstance(ax, Tup):
            return tuple(self.axis_arg(a, nd) for a in ax.items)
        k = self.const_index(ax)
        if not -nd <= k < nd:
            self.py_raise('AxisError', 'axis %d is out of bounds for array of dimension %d' % (k, nd), internal=True)
        return k % nd

    def is_affine(self, idx, shape):
        if len(idx) <= 1:
            return True
        st = cstr(shape)
        b = idx[0]
        coef = [(idx[s] - b if n > 1 else 0) for s, n in zip(st, shape)]
        exp = [b]
        for n, c in zip(shape, coef):
            exp = [e + c * k for e in exp for k in range(n)]
        return exp == list(idx)

    def reshape(self, r, shape, order='C'):
        rec = self.arr(r)
        sh = self.shape_arg(shape, len(rec.idx))
        idx = rec.idx
        if order == 'A':
            order = 'F' if self.layout(rec, 'A') != list(range(len(rec.shape))) else 'C'
        elif order not in ('C', 'F', None):
            raise NoModel('order')
        if order == 'F':
            tr = self.t_idx(idx, rec.shape)
            # read in F order, place in F order
            fl = tr[0]
            idx = self.t_idx(fl, sh[::-1])[0]
        if self.is_affine(idx, sh):
            return self.view(r, idx, sh)
        buf = self.use(self.store[('b', rec.buf)])
        return self.new_arr([buf[i] for i in idx], sh, rec.dtype)

    def t_idx(self, idx, shape, axes=None):
        n = len(shape)
        axes = list(range(n))[::-1] if axes is None else axes
        st = cstr(shape)
        offs = [0]
        for a in axes:
            offs = [o + st[a] * k for o in offs for k in range(shape[a])]
        return tuple(idx[o] for o in offs), tuple(shape[a] for a in axes)

    def transpose(self, r, axes=None):
        rec = self.arr(r)
        if axes is not None:
            axes = [self.axis_arg(a, len(rec.shape)) for a in axes]
            if sorted(axes) != list(range(len(rec.shape))):
                self.py_raise('ValueError', "axes don't match array", internal=True)
        idx, sh = self.t_idx(rec.idx, rec.shape, axes)
        return self.view(r, idx, sh)

    def flatten(self, r, order='C'):
        rec = self.arr(r)
        els = self.elems(r)
        if order != 'C':
            els = list(self.t_idx(els, rec.shape, self.layout(rec, order))[0])
        return self.new_arr(els, (len(els),), rec.dtype)

    # --------------------------------------------------------------- attributes
    AM = {'flatten', 'ravel', 'copy', 'reshape', 'transpose', 'sum', 'prod', 'min', 'max', 'any', 'all', 'dot', 'astype',
          'tolist', 'item', 'view', 'mean', 'squeeze', 'fill', 'sort', 'argsort', 'argmin', 'argmax', 'cumsum', 'diagonal',
          'trace', 'nonzero', 'repeat', 'round', 'clip', 'conj', 'conjugate', 'std', 'var', 'swapaxes', 'tobytes',
          'itemset', 'resize', 'put', 'setflags', 'setfield', 'take', 'cumprod', 'ptp', 'partition', 'byteswap'}

    def arr_attr(self, o, name):
        rec = self.arr(o)
        if name == 'shape':
            return Tup([num(n) for n in rec.shape])
        if name == 'size':
            return num(len(rec.idx))
        if name == 'ndim':
            return num(len(rec.shape))
        if name == 'T':
            return self.transpose(o)
        if name == 'dtype':
            return DType(rec.dtype)
        if name == 'flat':
            return self.view(o, rec.idx, (len(rec.idx),))
        if name == 'real':
            if rec.dtype == 'c':
                return self.new_arr([x.re for x in self.elems(o)], rec.shape, 'f')
            return self.view(o, rec.idx, rec.shape)
        if name == 'imag':
            if rec.dtype == 'c':
                return self.new_arr([x.im for x in self.elems(o)], rec.shape, 'f')
            return self.new_arr([num(0 if rec.dtype in 'iub' else 0.0)] * len(rec.idx), rec.shape, rec.dtype)
        if name == '__class__':
            return Ext('numpy.ndarray')
        if name == 'itemsize':
            return num(8)
        if name == 'flags':
            return self.top('flags', [o], 'obj')
        if name in self.AM or name.startswith('__'):
            return Meth(o, name)
        if name in ('toarray', 'todense', 'tocsc', 'tocsr', 'tocoo', 'A'):
            return Meth(o, 'copy') if name != 'A' else o
        if name in ('var', 'std', 'cumprod', 'compress'):
            return Partial(Ext('numpy.' + name), [o], {}) if name != 'compress' else self.top('ndarray.compress', [o])
        if name in ('conj', 'conjugate', 'partition', 'put', 'resize', 'setfield', 'setflags', 'byteswap', 'base', 'data', 'nbytes', 'strides', 'ctypes', 'searchsorted', 'compress', 'choose', 'dump', 'dumps',
                    'argpartition', 'getfield', 'newbyteorder', 'tofile', 'tostring', 'var', 'std', 'cumprod'):
            return self.top('ndarray.' + name, [o])
        self.py_raise('AttributeError', "'numpy.ndarray' object has no attribute '%s'" % name, internal=True)

    def arr_method(self, o, name, args, kw, node):
        rec = self.arr(o)
        try:
            if name == 'flatten':
                return self.flatten(o, *(args or [kw.get('order', 'C')]))
            if name == 'ravel':
                return self.np_ravel(o, *args, **kw)
            if name == 'copy':
                o_ = args[0] if args else kw.get('order', 'C')
                return self.laid(self.elems(o), rec.shape, rec.dtype, self.layout(rec, o_))
            if name == 'conj' or name == 'conjugate':
                if rec.dtype != 'c':
                    return self.new_arr(self.elems(o), rec.shape, rec.dtype)
            if name == 'reshape':
                sh = args[0] if len(args) == 1 else Tup(args)
                return self.reshape(o, sh, kw.get('order', 'C'))
            if name == 'transpose':
                if not args:
                    return self.transpose(o)
                ax = args[0] if len(args) == 1 else Tup(args)
                if ax is None:
                    return self.transpose(o)
                return self.transpose(o, self.iterate(ax))
            if name == 'view' and len(args) == 1 and isinstance(args[0], DType) and args[0].k == 'V' and rec.shape:
                m = rec.shape[-1]
                vals = [self.use(x) for x in self.elems(o)]
                cs = [int(cval(x.t)) if isinstance(x, S) and x.k in 'iu' and cval(x.t) is not None else None for x in vals]
                if None in cs:
                    raise NoModel('void view of abstract values')
                rows = ['|'.join('%06d' % c for c in cs[i:i + m]) for i in range(0, len(cs), m)] if m else []
                return self.new_arr(rows, rec.shape[:-1] + (1,), 'U')
            if name == 'tolist':
                return self.tolist(o)
            if name == 'item':
                els = self.elems(o)
                if args:
                    return els[self.const_index(args[0])]
                if len(els) != 1:
                    self.py_raise('ValueError', 'can only convert an array of size 1 to a Python scalar', internal=True)
                return els[0].cp(np=False) if isinstance(els[0], S) else els[0]
            if name == 'astype':
                k = self.dtype_of_val(args[0])
                if kw.get('copy') is not None and kw['copy'].bv is False and k == rec.dtype:
                    return o
                return self.laid(self.cast_all(self.elems(o), rec.dtype, k), rec.shape, k, self.k_axes(rec))
            if name == 'fill':
                self.arr_setitem(o, Slc(None, None, None), args[0])
                return None
            if name == 'sort':
                r = self.np_sort(o, *args, **kw)
                self.arr_inplace(o, r)
                return None
            if name in ('itemset', 'resize', 'put', 'setfield', 'partition', 'byteswap'):
                self.wr_buf(o, rec, 'array .%s' % name)
                raise Unresolved('array method ' + name)
            if name == 'setflags':
                self.wr_event(o.id, 'array .setflags')
                return None
            if name in ('conj', 'conjugate'):
                return o
            m = getattr(self, 'np_' + name, None)
            if m is not None:
                return m(o, *args, **kw)
        except NoModel:
            pass
        return self.unknown('ndarray.' + name, [o] + list(args) + list(kw.values()))

    def tolist(self, o):
        rec = self.arr(o)
        els = [x.cp(np=False) if isinstance(x, S) else x for x in self.elems(o)]

        def rec_(off, sh):
            if not sh:
                return els[off]
            s = prod(sh[1:])
            return self.new_list([rec_(off + k * s, sh[1:]) for k in range(sh[0])])
        return rec_(0, rec.shape)

    def unknown(self, path, args):
        self.unk_calls[path] = self.unk_calls.get(path, 0) + 1
        for a in args:
            if isinstance(a, Ref) and a.kind == 'arr':
                return self.top(path, list(args), None)
        return self.top(path, list(args), None)

    # ================================================================ externals
    CONST = {'numpy.pi': math.pi, 'math.pi': math.pi, 'numpy.inf': INF, 'numpy.Inf': INF, 'math.inf': INF,
             'numpy.nan': float('nan'), 'numpy.NaN': float('nan'), 'math.nan': float('nan'), 'numpy.e': math.e,
             'math.e': math.e, 'numpy.Infinity': INF, 'numpy.NAN': float('nan'), 'math.tau': math.tau,
             'sys.float_info.epsilon': 2.220446049250313e-16}

    def ext_attr(self, o, name):
        p = o.path + '.' + name
        if p.startswith('numpy.math.'):
            p = p[6:]
        if p in self.CONST:
            return num(self.CONST[p])
        if p == 'numpy.newaxis':
            return None
        if o.path == 'numpy' and name in ('object', 'float', 'int', 'bool', 'complex', 'str', 'long', 'unicode'):
            self.event('effect', cat='warn', what='DeprecationWarning: alias np.' + name)
        if p.startswith('logging.Logger@') and name == 'handlers':
            return self.log_handlers(o.path)
        if p == 'numpy.ndarray.__class__':
            return BI('type')
        if name == '__name__':
            return o.path.split('.')[-1]
        if p.startswith('finfo.'):
            return num({'eps': 2.220446049250313e-16, 'tiny': 2.2250738585072014e-308, 'max': 1.7976931348623157e308,
                        'min': -1.7976931348623157e308}.get(name, 0.0), True)
        if p.startswith(('os.environ', 'sys.argv')):
            self.event('effect', cat='ambient', what=p)
        if p in ('logging.DEBUG', 'logging.INFO', 'logging.WARNING', 'logging.ERROR', 'logging.CRITICAL'):
            return num({'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}[name])
        return Ext(p)

    def log_handlers(self, path):
        k = ('v', path, 'handlers')
        if k in self.store:
            return self.store[k]
        r = self.new_list([])
        self.store[k] = r
        return r

    def call_ext(self, path, args, kw, node):
        hook = self.intercept.get('ext:' + path)
        if hook:
            return hook(self, path, args, kw, node)
        if path.startswith('numpy.math.'):
            path = path[6:]
        if path.startswith(AMBIENT):
            self.event('effect', cat='ambient', what=path)
            return self.top(path, list(args) + list(kw.values()))
        if path in ('numpy.errstate', 'numpy.seterr'):
            self.fpquiet = True
        if path.startswith('warnings.'):
            if path in ('warnings.warn', 'warnings.warn_explicit', 'warnings.showwarning'):
                self.event('effect', cat='warn', what=path)
                return None
            self.event('effect', cat='warnfilter', what=path)
            return self.top(path, [], 'obj')
        if path.startswith('sys.std'):
            self.event('effect', cat='output', what=path)
            return None
        if path.startswith('sys.'):
            self.event('effect', cat='ambient', what=path)
            return self.top(path, list(args))
        if path.startswith('logging.'):
            return self.call_logging(path[8:], args, kw)
        if path.startswith('inspect.'):
            return self.call_inspect(path[8:], args)
        if path.startswith('re.'):
            return self.call_re(path[3:], args, kw)
        if path.startswith('copy.'):
            r = self.py_copy(path, args[0])
            return r
        if path.startswith('math.'):
            name = path[5:]
            return self.call_math(name, args)
        if path == 'contextlib.suppress':
            return Partial(Ext(path), list(args), {})
        if path.startswith('functools.partial'):
            return Partial(args[0], args[1:], kw)
        if path in ('functools.reduce',):
            it = self.iterate(args[1])
            acc = args[2] if len(args) > 2 else None
            if len(args) <= 2:
                acc, it = it[0], it[1:]
            for x in it:
                acc = self.call(args[0], [acc, x], {}, node)
            return acc
        if path in ('functools.lru_cache', 'functools.cache'):
            if args and isinstance(args[0], (Fn, Bound)):
                return Memo(args[0], self.nid())
            return Partial(Ext(path), list(args), kw)
        if path == 'functools.wraps':
            return Partial(Ext('operator.<identity>'), [], {})
        if path.startswith('functools.'):
            return self.top(path, list(args))
        if path.startswith('itertools.'):
            return self.call_itertools(path[10:], args, kw, node)
        if path.startswith('operator.'):
            try:
                return self.call_operator(path[9:], args, kw, node)
            except NoModel:
                return self.unknown(path, args)
        if path == 'dataclasses.dataclass' and not args:
            return Ext('dataclasses.<dataclass>') if set(kw) <= {'frozen', 'repr', 'order'} else self.unknown(path, [])
        if path == 'collections.OrderedDict':
            return self.bi_dict(*args, **kw)
        if path == 'collections.defaultdict':
            r = self.bi_dict(*args[1:], **kw)
            if args and args[0] is not None:
                self.store[('df', r.id)] = args[0]
            return r
        if path == 'collections.deque' and len(args) < 2 and not kw:
            return self.new_list(self.iterate(args[0]) if args else [])
        if path == 'collections.namedtuple':
            r = self.named_tuple(args, kw)
            return self.unknown(path, args) if r is None else r
        if path.startswith('scipy.sparse.') and path.split('.')[-1] in ('csc_matrix', 'csr_matrix', 'coo_matrix'):
            r = self.sparse(args, kw)
            return self.unknown(path, list(args) + list(kw.values())) if r is None else r
        if path == 'scipy.spatial.ConvexHull' and len(args) == 1 and not kw:
            r = self.convex_hull(args[0], node)
            return self.unknown(path, list(args)) if r is None else r
        if path.startswith('scipy.special.'):
            n = path.split('.')[-1]
            if n in ('gamma', 'factorial'):
                v = self.scalar_arg(args[0])
                c = pyconst(v) if isinstance(v, S) else None
                if c is not None:
                    return num(math.gamma(c) if n == 'gamma' else float(math.factorial(int(c))), True)
                if isinstance(v, S):
                    lo, hi = self.iv(v)
                    t = mk(n, v.t)
                    return S('f', t, 0.0 if lo > 0 else -INF, INF, v.nan, v.fin, True)
            return self.unknown(path, args)
        if path.startswith('numpy.') or path.startswith('scipy.linalg.'):
            name = path.split('.', 1)[1]
            if path.startswith('scipy.linalg.'):
                name = 'linalg.' + path.split('.')[-1]
            name = name.replace('linalg.linalg.', 'linalg.')
            m = getattr(self, 'np_' + name.replace('.', '_'), None)
            if m is None and '.' in name and name.split('.')[-1] in ('reduce', 'accumulate', 'outer') and len(args):
                uf, meth = name.rsplit('.', 1)
                m = lambda *a, **k: self.call_ufunc(uf, meth, a, k)
            out = kw.get('out')
            if isinstance(out, Ref) and out.kind == 'arr':
                k2 = {a: b for a, b in kw.items() if a not in ('out', 'where')}
                r = self.call_ext(path, args, k2, node)
                self.cur = node
                self.arr_inplace(out, r)
                return out
            if m is not None:
                try:
                    if any(isinstance(self.use(a), Top) for a in args[:1]) and name not in ('vectorize', 'isscalar',
                                                                                         'finfo', 'shape', 'size'):
                        raise NoModel('unknown operand')
                    if name in STACKED and args:
                        r = self.stacked(name, m, args, kw)
                        if r is not None:
                            return r
                    return m(*args, **kw)
                except NoModel:
                    pass
                except TypeError as e:
                    s = str(e)
                    if 'np_' in s and ('argument' in s):
                        raise Unresolved('unmodelled call signature: ' + s)
                    raise
            return self.unknown(path, list(args) + list(kw.values()))
        if path.startswith(('typing.', 'abc.', 'collections.', '__future__')):
            return self.top(path, [], 'obj')
        return self.unknown(path, list(args) + list(kw.values()))

    def stacked(self, name, m, args, kw):
        """linear algebra over leading axes: the routine applied to every trailing matrix"""
        a = self.use(args[0])
        if not (isinstance(a, Ref) and a.kind == 'arr'):
            return None
        sh = self.arr(a).shape
        if len(sh) <= 2:
            return None
        lead, (p, q) = sh[:-2], sh[-2:]
        k = math.prod(lead)
        if not k:
            return None
        el = self.elems(a)
        dt = self.arr(a).dtype
        rest = [args[1:]] * k
        if name == 'linalg.solve':
            b = self.to_arr(args[1])
            bs = self.arr(b).shape
            be = self.elems(b)
            if len(bs) >= 2 and bs[:-2] == lead and len(bs) == len(sh):
                w = bs[-2] * bs[-1]
                rest = [(self.new_arr(be[i * w:(i + 1) * w], bs[-2:], self.arr(b).dtype),) for i in range(k)]
            elif len(bs) == len(sh) - 1 and bs[:-1] == lead:
                w = bs[-1]
                rest = [(self.new_arr(be[i * w:(i + 1) * w], bs[-1:], self.arr(b).dtype),) for i in range(k)]
            elif len(bs) != 2:
                raise NoModel('broadcast solve')
        outs = [m(self.new_arr(el[i * p * q:(i + 1) * p * q], (p, q), dt), *rest[i], **kw) for i in range(k)]
        if all(isinstance(o, Tup) for o in outs):
            return Tup(tuple(self.pile([o.items[j] for o in outs], lead) for j in range(len(outs[0].items))))
        return self.pile(outs, lead)

    def pile(self, outs, lead):
        els, sh = [], None
        for o in outs:
            if isinstance(o, S):
                els.append(o)
                s1 = ()
            else:
                r = self.to_arr(o)
                s1 = self.arr(r).shape
                els += self.elems(r)
            if sh is not None and sh != s1:
                raise NoModel('ragged stack')
            sh = s1
        return self.new_arr(els, tuple(lead) + tuple(sh), 'f' if not isinstance(outs[0], Ref) else self.arr(outs[0]).dtype)

    def sparse(self, args, kw):
        """sparse constructors are analysed as the dense array they denote (duplicate entries add up)"""
        a = self.use(args[0])
        if not isinstance(a, Tup):
            return self.to_arr(a, None, True) if isinstance(a, Ref) and a.kind == 'arr' else None
        if len(a.items) == 2 and isinstance(self.use(a.items[1]), Tup) and len(a.items[1].items) == 2:
            shp = kw.get('shape', args[1] if len(args) > 1 else None)
            if shp is None:
                return None
            n, m = self.shape_arg(shp)
            data = self.elems(self.to_arr(a.items[0]))
            ii, jj = (self.elems(self.to_arr(x)) for x in self.use(a.items[1]).items)
            ii, jj = [as_int(x) for x in ii], [as_int(x) for x in jj]
            if None in ii or None in jj:
                return None
            if not len(data) == len(ii) == len(jj):
                self.py_raise('ValueError', 'row, column, and data array must all be the same length', internal=True)
            out = {}
            for d, i, j in zip(data, ii, jj):
                if not (0 <= i < n and 0 <= j < m):
                    self.py_raise('ValueError', 'index exceeds matrix dimensions', internal=True)
                out[i, j] = self.s_add(out[i, j], d, 'f', True) if (i, j) in out else d
            z = num(0.0, True)
            return self.new_arr([out.get((i, j), z) for i in range(n) for j in range(m)], (n, m), 'f')
        if all(as_int(self.use(x)) is not None for x in a.items) and len(a.items) == 2:
            n, m = [as_int(self.use(x)) for x in a.items]
            return self.new_arr([num(0.0, True)] * (n * m), (n, m), 'f')
        return None

    def py_copy(self, path, v, memo=None):
        deep = path.endswith('deepcopy')
        memo = {} if memo is None else memo
        v = self.use(v)
        if not isinstance(v, (Ref, Tup)):
            return v
        if isinstance(v, Tup):
            return Tup([self.py_copy(path, x, memo) for x in v.items]) if deep else v
        if v.id in memo:
            return memo[v.id]
        if v.kind == 'arr':
            rec = self.arr(v)
            els = self.elems(v)
            if deep and rec.dtype == 'O':
                els = [self.py_copy(path, x, memo) for x in els]
            memo[v.id] = r = self.new_arr(els, rec.shape, rec.dtype)
            return r
        if v.kind == 'obj':
            m = self.cls_lookup(v.cls, '__deepcopy__' if deep else '__copy__')
            if m is not None:
                return self.call(self.bind(m, v, v.cls), [self.new_dict([])] if deep else [], {}, self.cur)
            r = Ref('obj', self.nid(), v.cls)
            self.alloc_site[r.id] = self.where()
            memo[v.id] = r
            self.store[('o', r.id)] = v.cls
            for k, w in [(k, w) for k, w in self.store.items() if k[0] == 'f' and k[1] == v.id]:
                self.store[('f', r.id, k[2])] = self.py_copy(path, w, memo) if deep else w
            return r
        c = self.cont(v)
        if v.kind == 'dict':
            return self.new_dict([(k, self.py_copy(path, x, memo) if deep else x) for k, x in c])
        items = [self.py_copy(path, x, memo) if deep else x for x in c]
        return self.new_list(items) if v.kind == 'list' else self.new_set(items)

    def call_logging(self, n, args, kw):
        if n == 'getLogger':
            nm = (args[0] if isinstance(args[0], str) else '?') if args else ''
            return Ext('logging.Logger@%s' % nm.replace('.', '/'))
        if n.startswith('Logger@') and '.' in n:
            lg, m = n.rsplit('.', 1)
            path = 'logging.' + lg
            h = self.log_handlers(path)
            if m == 'addHandler':
                hs = self.cont(h)
                if not any(same(x, args[0]) for x in hs):
                    self.store[('l', h.id)] = hs + (args[0],)
                self.event('handler', what='addHandler', logger=path, n=len(self.cont(h)))
                return None
            if m == 'removeHandler':
                self.store[('l', h.id)] = tuple(x for x in self.cont(h) if not same(x, args[0]))
                return None
            if m == 'hasHandlers':
                return boolv(bool(self.cont(h)))
            if m in ('info', 'debug', 'warning', 'error', 'critical', 'log', 'exception', 'warn'):
                self.event('effect', cat='log', what=m)
                return None
            return None if m.startswith('set') else self.top('logger', [], None)
        if n in ('info', 'debug', 'warning', 'error', 'critical', 'log', 'basicConfig', 'exception'):
            self.event('effect', cat='log', what=n)
            return None
        if n.endswith('Handler'):
            return Ref('obj', self.nid(), Cls(n, [], 'logging', self.nid())) if False else Ext('logging.handler#%d' % self.nid())
        if n.startswith('handler#'):
            return None
        return self.top('logging.' + n, [], 'obj')

    def call_re(self, n, args, kw):
        import re
        pats = self.__dict__.setdefault('re_pats', [])
        if n == 'compile' and len(args) == 1 and not kw and isinstance(args[0], str):
            if args[0] not in pats:
                pats.append(args[0])
            return Ext('re.Pattern@%d' % pats.index(args[0]))
        if n.startswith('Pattern@') and '.' in n:
            i, meth = n[8:].split('.', 1)
            if meth in ('search', 'match', 'fullmatch', 'sub', 'findall', 'split'):
                return self.call_re(meth, [pats[int(i)]] + list(args), kw)
        rest = {}
        if n in ('sub', 'split') and all(isinstance(a, str) for a in args[:3 if n == 'sub' else 2]):
            k = 3 if n == 'sub' else 2
            cnt = kw.get('count' if n == 'sub' else 'maxsplit', args[k] if len(args) == k + 1 else None)
            c = pyconst(cnt) if isinstance(cnt, S) else None
            if c is not None and len(args) + len(kw) == k + 1:
                rest = {'count' if n == 'sub' else 'maxsplit': int(c)}
                args, kw = args[:k], {}
        cs = [a for a in args if isinstance(a, str)]
        if n in ('search', 'match', 'fullmatch', 'sub', 'findall', 'split', 'escape') and len(cs) == len(args) and not kw:
            try:
                r = getattr(re, n)(*args, **rest)
            except re.error as e:
                self.py_raise('re.error', str(e))
            if r is None or isinstance(r, str):
                return r
            if isinstance(r, list) and all(isinstance(x, str) for x in r):
                return self.new_list(r)
            return Top(mk('rematch', *[mk('str', a) for a in args]), 'obj')
        return self.top('re.' + n, list(args), 'str' if n in ('sub', 'escape') else None)

    def call_itertools(self, n, args, kw, node):
        if n == 'chain':
            return self.new_iter([x for a in args for x in self.iterate(a)])
        if n == 'chain.from_iterable':
            return self.new_iter([x for a in self.iterate(args[0]) for x in self.iterate(a)])
        if n in ('product', 'permutations', 'combinations'):
            f = getattr(itertools, n)
            its = [self.iterate(a) for a in args[:1 if n != 'product' else None]]
            ex = [self.const_index(a) for a in args[1:]] if n != 'product' else []
            rep = {'repeat': self.const_index(kw['repeat'])} if 'repeat' in kw else {}
            return self.new_iter([Tup(t) for t in f(*its, *ex, **rep)])
        if n == 'repeat' and len(args) == 2:
            return self.new_iter([args[0]] * self.const_index(args[1]))
        if n == 'starmap':
            return self.new_iter([self.call(args[0], self.iterate(t), {}, node) for t in self.iterate(args[1])])
        if n in ('count', 'cycle'):
            return self.unknown('itertools.' + n, list(args))
        if n == 'zip_longest':
            its = [list(self.iterate(a)) for a in args]
            fv = kw.get('fillvalue')
            return self.new_iter([Tup(t) for t in itertools.zip_longest(*its, fillvalue=fv)])
        if n == 'pairwise':
            it = list(self.iterate(args[0]))
            return self.new_iter([Tup(t) for t in zip(it, it[1:])])
        if n == 'combinations_with_replacement':
            return self.new_iter([Tup(t) for t in itertools.combinations_with_replacement(
                self.iterate(args[0]), self.const_index(args[1]))])
        if n == 'islice':
            return self.bi_iter(self.getitem(self.new_list(self.iterate(args[0])), Slc(None, args[1], None) if len(args) == 2
                                else Slc(args[1], args[2], args[3] if len(args) > 3 else None)))
        if n == 'accumulate':
            out = []
            for x in self.iterate(args[0]):
                out.append(x if not out else self.binop('Add', out[-1], x))
            return self.new_iter(out)
        return self.unknown('itertools.' + n, list(args))

    MATH1 = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'log2': math.log2, 'log': math.log,
             'log10': math.log10, 'arccos': math.acos, 'arcsin': math.asin, 'arctan': math.atan, 'acos': math.acos,
             'asin': math.asin, 'atan': math.atan, 'tanh': math.tanh, 'floor': math.floor, 'ceil': math.ceil,
             'fix': math.trunc, 'trunc': math.trunc, 'rint': round, 'cosh': math.cosh, 'sinh': math.sinh}
    MONO = {'exp', 'log', 'log2', 'log10', 'arctan', 'atan', 'arcsin', 'asin', 'floor', 'ceil', 'fix', 'trunc', 'tanh',
            'rint', 'sinh'}

    def s_fun(self, n, v, np=True):
        if v.k == 'c':
            return S('f', mk(n, v.t), np=np)
        if v.k == 'b':
            v = self.cast(v, 'f')
        rounding = n in ('floor', 'ceil', 'fix', 'trunc', 'rint')
        if v.nan == 2:
            return v
        c = pyconst(v)
        f = self.MATH1[n]
        if c is not None:
            try:
                r = f(c)
                if rounding:
                    return num(float(r) if np else int(r), np)
                return num(float(r), np)
            except (ValueError, OverflowError):
                if not np:
                    self.py_raise('ValueError', 'math domain error', internal=True)
                if n in ('log', 'log2', 'log10') and c == 0:
                    return num(-INF, np)
                return S('f', mk('nanop', v.t), -INF, INF, 2, -1, np)
        lo, hi = self.iv(v)
        nan, fin = v.nan, v.fin
        dom = {'log': (0, INF), 'log2': (0, INF), 'log10': (0, INF), 'arccos': (-1, 1), 'arcsin': (-1, 1),
               'acos': (-1, 1), 'asin': (-1, 1)}.get(n)
        if dom:
            if hi < dom[0] or lo > dom[1]:
                return S('f', mk('nanop', v.t), -INF, INF, 2, -1, np)
            if lo < dom[0] or hi > dom[1]:
                nan = max(nan, 1)
            if n.startswith('log') and lo <= 0:
                fin = 0
            lo, hi = max(lo, dom[0]), min(hi, dom[1])
        t = mk({'trunc': 'trunc', 'fix': 'trunc'}.get(n, n), v.t)

        def ev(x):
            try:
                return float(f(x))
            except (ValueError, OverflowError):
                return None
        r = (-INF, INF)
        if n in self.MONO:
            a, b = ev(lo) if abs(lo) < INF else None, ev(hi) if abs(hi) < INF else None
            r = (a if a is not None else -INF, b if b is not None else INF)
            if n == 'exp':
                r = (max(r[0], 0.0), r[1])
        elif n in ('arccos', 'acos'):
            a, b = ev(hi), ev(lo)
            r = (a if a is not None else 0.0, b if b is not None else math.pi)
        elif n in ('sin', 'cos'):
            r = (-1.0, 1.0)
        elif n == 'cosh':
            r = (1.0, INF)
        if rounding and self.is_integral(v.t):
            return v.cp(k='f' if np else 'i', np=np)
        if rounding and r[0] == r[1]:
            return num(r[0] if np else int(r[0]), np)
        t.lo, t.hi = max(t.lo, -INF), min(t.hi, INF)
        k = 'f'
        if rounding and not np:
            k = 'i'
        return S(k, t, r[0], r[1], nan, fin, np)

    def call_math(self, n, args):
        if n in ('prod', 'fsum') and len(args) == 1:
            r = num(1 if n == 'prod' else 0.0)
            for x in self.iterate(args[0]):
                r = self.binop('Mult' if n == 'prod' else 'Add', r, x)
            return r
        args = [self.scalar_arg(a) for a in args]
        if any(isinstance(a, Top) for a in args):
            return self.top('math.' + n, args, 'float')
        if any(not isinstance(a, S) for a in args):
            self.py_raise('TypeError', 'must be real number', internal=True)
        v = args[0].cp(np=False)
        if n == 'factorial':
            c = pyconst(v)
            if c is not None:
                if c < 0 or c != int(c):
                    self.py_raise('ValueError', 'factorial() not defined', internal=True)
                return num(math.factorial(int(c)))
        if n == 'sqrt':
            r = self.s_sqrt(v)
            if r.nan == 2:
                self.py_raise('ValueError', 'math domain error', internal=True)
            return r
        if n == 'isnan':
            return self.s_isnan(v).cp(np=False)
        if n == 'isinf':
            return self.unop('Not', self.any_of([self.s_isfinite(v), self.s_isnan(v)]))
        if n == 'isfinite':
            return self.s_isfinite(v).cp(np=False)
        if n == 'fabs':
            return self.s_abs(self.cast(v, 'f'))
        if n in ('pow',):
            return self.s_pow(self.cast(v, 'f'), args[1], 'f', False)
        if n == 'gamma':
            c = pyconst(v)
            if c is not None:
                return num(math.gamma(c))
        if n == 'hypot' and len(args) == 2:
            x, y = (self.cast(a, 'f') for a in args)
            return self.s_sqrt(self.s_bin('Add', self.s_bin('Mult', x, x), self.s_bin('Mult', y, y))).cp(np=False)
        if n == 'gcd' and all(pyconst(a) is not None for a in args):
            return num(math.gcd(*[int(pyconst(a)) for a in args]))
        if n == 'isclose':
            return self.top('math.isclose', args, 'bool')
        if n in self.MATH1:
            return self.s_fun(n, v, False)
        return self.unknown('math.' + n, args)

    # ------------------------------------------------------------ ufunc helpers
    def map1(self, f, v, k=None):
        v = self.use(v)
        if isinstance(v, S):
            return self.scalar(f(v))
        a = self.to_arr(v)
        rec = self.arr(a)
        out = []
        for x in self.elems(a):
            if isinstance(x, S):
                out.append(f(x))
            elif isinstance(x, Top):
                out.append(self.top_elem(x, k or 'f', 0))
            else:
                self.py_raise('TypeError', 'ufunc not supported for the input types', internal=True)
        kk = k or (out[0].k if out else rec.dtype)
        return self.ret(out, rec.shape, kk)

    def map2(self, f, a, b, k=None):
        a, b = self.use(a), self.use(b)
        if isinstance(b, Top):
            raise NoModel('unknown')
        if isinstance(a, S) and isinstance(b, S):
            return self.scalar(f(a, b))
        ea, eb, sh, ka, kb = self.bcast2(a, b)
        out = []
        for x, y in zip(ea, eb):
            if isinstance(x, Top) or isinstance(y, Top):
                out.append(self.top_elem(self.top('map2', [x, y]), k or 'f', 0))
            else:
                out.append(f(x, y))
        kk = k or (out[0].k if out and isinstance(out[0], S) else ('O' if out else self.promote(ka, kb)))
        return self.ret(out, sh, kk)

    def s_isnan(self, x):
        if not isinstance(x, S):
            self.py_raise('TypeError', 'ufunc isnan not supported for the input types', internal=True)
        if x.k == 'c':
            return self.any_of([self.s_isnan(x.re), self.s_isnan(x.im)], True)
        if x.nan == 0:
            return boolv(False, True)
        if x.nan == 2:
            return boolv(True, True)
        return self.bterm(mk('isnan', x.t), True)

    def s_isfinite(self, x):
        if not isinstance(x, S):
            self.py_raise('TypeError', 'ufunc isfinite not supported for the input types', internal=True)
        if x.k == 'c':
            return self.all_of([self.s_isfinite(x.re), self.s_isfinite(x.im)], True)
        if x.nan == 2 or x.fin == -1:
            return boolv(False, True)
        if x.nan == 0 and x.fin == 1:
            return boolv(True, True)
        return self.bterm(mk('isfinite', x.t), True)

    # ------------------------------------------------------------------ ufuncs
    def np_isnan(self, v):
        return self.map1(self.s_isnan, v, 'b')

    def np_isfinite(self, v):
        return self.map1(self.s_isfinite, v, 'b')

    def np_isinf(self, v):
        return self.map1(lambda x: self.unop_b(self.any_of([self.s_isfinite(x), self.s_isnan(x)], True)), v, 'b')

    def np_isposinf(self, v):
        return self.np_logical_and(self.np_isinf(v), self.map1(lambda x: self.s_cmp('gt', x, num(0.0)).cp(np=True), v, 'b'))

    def np_isneginf(self, v):
        return self.np_logical_and(self.np_isinf(v), self.map1(lambda x: self.s_cmp('lt', x, num(0.0)).cp(np=True), v, 'b'))

    def unop_b(self, b):
        return boolv(not b.bv, True) if b.bv is not None else S('b', b_not(b.t), 0.0, 1.0, np=True)

    def np_isreal(self, v):
        v = self.use(v)
        if isinstance(v, Ref) and v.kind == 'arr' and self.arr(v).dtype == 'O' or not isinstance(v, (S, Ref, Tup)):
            if isinstance(v, Ref):
                els = [self.s_cmp('eq', x.im, num(0)) if isinstance(x, S) and x.k == 'c' else boolv(True, True)
                       for x in self.elems(v)]
                return self.ret(els, self.arr(v).shape, 'b')
            return boolv(True, True)
        if isinstance(v, S) and not v.np:
            return self.s_cmp('eq', v.im, num(0)).cp(np=False) if v.k == 'c' else boolv(True)
        return self.map1(lambda x: self.s_cmp('eq', x.im, num(0)).cp(np=True) if x.k == 'c' else boolv(True, True), v, 'b')

    def np_iscomplexobj(self, v):
        return boolv(self.arr(self.to_arr(v)).dtype == 'c')

    def np_isrealobj(self, v):
        return boolv(self.arr(self.to_arr(v)).dtype != 'c')

    def np_real(self, v):
        if isinstance(v, S):
            return v.re if v.k == 'c' else v
        return self.getattr(self.to_arr(v), 'real')

    def np_imag(self, v):
        if isinstance(v, S):
            return self.s_attr(v, 'imag')
        return self.getattr(self.to_arr(v), 'imag')

    def np_abs(self, v):
        return self.map1(self.s_abs, v)

    np_absolute = np_fabs = np_abs

    def np_sqrt(self, v):
        return self.map1(self.s_sqrt, v)

    def np_square(self, v):
        return self.binop('Mult', v, v)

    def np_negative(self, v):
        return self.unop('USub', self.to_arr(v) if not isinstance(v, S) else v)

    def s_sign(self, x):
        if x.k == 'b':
            return x
        lo, hi = self.iv(x)
        if x.nan == 2:
            return x
        if lo > 0:
            return num(1.0 if x.k == 'f' else 1, True)
        if hi < 0:
            return num(-1.0 if x.k == 'f' else -1, True)
        if lo == hi == 0:
            return num(0.0 if x.k == 'f' else 0, True)
        t = mk('sign', x.t)
        t.lo, t.hi = -1.0, 1.0
        return S(x.k, t, 0.0 if lo >= 0 else -1.0, 0.0 if hi <= 0 else 1.0, x.nan, 1, True)

    def np_sign(self, v):
        return self.map1(self.s_sign, v)

    def np_maximum(self, a, b):
        return self.map2(self.s_max, a, b)

    def np_minimum(self, a, b):
        return self.map2(self.s_min, a, b)

    np_fmax, np_fmin = np_maximum, np_minimum

    def np_clip(self, v, lo, hi):
        r = v
        if lo is not None:
            r = self.np_maximum(r, lo)
        if hi is not None:
            r = self.np_minimum(r, hi)
        return r

    def lg(self, op, a, b):
        f = lambda x, y: self.s_logic(op, self.cast(x, 'b'), self.cast(y, 'b')).cp(np=True)
        return self.map2(f, a, b, 'b')

    def np_logical_and(self, a, b):
        return self.lg('BitAnd', a, b)

    def np_logical_or(self, a, b):
        return self.lg('BitOr', a, b)

    def np_logical_xor(self, a, b):
        return self.lg('BitXor', a, b)

    def np_logical_not(self, a):
        return self.map1(lambda x: self.s_un('Invert', self.cast(x, 'b').cp(np=True)), a, 'b')

    def np_bitwise_and(self, a, b):
        return self.arr_bin('BitAnd', a, b)

    def np_bitwise_or(self, a, b):
        return self.arr_bin('BitOr', a, b)

    def np_invert(self, a):
        return self.unop('Invert', a)

    def np_equal(self, a, b):
        return self.arr_cmp('Eq', self.to_arr(a), b)

    def np_not_equal(self, a, b):
        return self.arr_cmp('NotEq', self.to_arr(a), b)

    def np_greater(self, a, b):
        return self.arr_cmp('Gt', self.to_arr(a), b)

    def np_less(self, a, b):
        return self.arr_cmp('Lt', self.to_arr(a), b)

    def np_greater_equal(self, a, b):
        return self.arr_cmp('GtE', self.to_arr(a), b)

    def np_less_equal(self, a, b):
        return self.arr_cmp('LtE', self.to_arr(a), b)

    def np_add(self, a, b):
        return self.arr_bin('Add', a, b)

    def np_subtract(self, a, b):
        return self.arr_bin('Sub', a, b)

    def np_multiply(self, a, b):
        return self.arr_bin('Mult', a, b)

    def np_divide(self, a, b):
        return self.arr_bin('Div', a, b)

    np_true_divide = np_divide

    def np_power(self, a, b):
        return self.arr_bin('Pow', a, b)

    def np_mod(self, a, b):
        return self.arr_bin('Mod', a, b)

    np_remainder = np_mod

    def np_floor_divide(self, a, b):
        return self.arr_bin('FloorDiv', a, b)

    def np_hypot(self, a, b):
        return self.np_sqrt(self.arr_bin('Add', self.arr_bin('Mult', a, a), self.arr_bin('Mult', b, b)))

    # ------------------------------------------------------------- constructors
    def relaid(self, r, order):
        rec = self.arr(r)
        if order in (None, 'K') or len(rec.shape) < 2:
            return r
        ax = self.layout(rec, order)
        if ax == self.k_axes(rec):
            return r
        return self.laid(self.elems(r), rec.shape, rec.dtype, ax)

    def np_array(self, v, dtype=None, copy=None, ndmin=None, order=None, **kw):
        k = self.dtype_of_val(dtype) if dtype is not None else None
        c = True
        if copy is not None:
            d, _ = self.truth(copy)
            if d is None:
                raise NoModel('copy flag')
            c = d
        r = self.relaid(self.to_arr(v, k, c), order)
        if ndmin is not None:
            n = self.const_index(ndmin)
            rec = self.arr(r)
            if len(rec.shape) < n:
                r = self.view(r, rec.idx, (1,) * (n - len(rec.shape)) + rec.shape)
        return r

    def np_asarray(self, v, dtype=None, order=None, **kw):
        return self.relaid(self.to_arr(v, self.dtype_of_val(dtype) if dtype is not None else None, False), order)

    np_asanyarray = np_asarray

    def np_ascontiguousarray(self, v, dtype=None):
        r = self.np_asarray(v, dtype)
        rec = self.arr(r)
        if rec.shape == ():
            return self.view(r, rec.idx, (1,))
        if list(rec.idx) == list(range(rec.idx[0] if rec.idx else 0, (rec.idx[0] if rec.idx else 0) + len(rec.idx))):
            return r
        return self.new_arr(self.elems(r), rec.shape, rec.dtype)

    def np_copy(self, v, order=None, **kw):
        return self.relaid(self.to_arr(v, None, True), order)

    def np_asfortranarray(self, v, dtype=None):
        return self.np_asarray(v, dtype, 'F')

    def fill(self, shape, dtype, val, kw, default='f'):
        k = self.dtype_of_val(dtype) if dtype is not None else default
        sh = self.shape_arg(shape)
        if k == 'O' and val is None:
            return self.new_arr([None] * prod(sh), sh, 'O')
        x = self.cast(val, k) if isinstance(val, S) else val
        return self.new_arr([x] * prod(sh), sh, k)

    def np_zeros(self, shape, dtype=None, order=None):
        return self.relaid(self.fill(shape, dtype, num(0.0), {}), order)

    def np_ones(self, shape, dtype=None, order=None):
        return self.relaid(self.fill(shape, dtype, num(1.0), {}), order)

    def np_empty(self, shape, dtype=None, order=None):
        k = self.dtype_of_val(dtype) if dtype is not None else 'f'
        if k == 'O':
            return self.relaid(self.fill(shape, dtype, None, {}), order)
        sh = self.shape_arg(shape)
        self.fresh_n += 1
        els = []
        for i in range(prod(sh)):
            t = mk('uninit', self.fresh_n, i)
            if k == 'b':
                els.append(S('b', t, 0.0, 1.0, np=True))
            else:
                els.append(S(k, t, nan=1 if k == 'f' else 0, fin=0 if k == 'f' else 1, np=True))
        return self.new_arr(els, sh, k)

    def np_full(self, shape, fill_value, dtype=None, order=None):
        v = self.to_arr(fill_value)
        if dtype is None:
            dtype = DType(self.arr(v).dtype)
        r = self.fill(shape, dtype, None if self.dtype_of_val(dtype) == 'O' else num(0), {})
        self.arr_setitem(r, Slc(None, None, None) if self.arr(r).shape else Tup(()), fill_value)
        return r

    def like(self, v, dtype, f):
        rec = self.arr(self.to_arr(v))
        r = f(Tup([num(n) for n in rec.shape]), dtype if dtype is not None else DType(rec.dtype))
        return self.laid(self.elems(r), rec.shape, self.arr(r).dtype, self.k_axes(rec))

    def np_zeros_like(self, v, dtype=None):
        return self.like(v, dtype, self.np_zeros)

    def np_ones_like(self, v, dtype=None):
        return self.like(v, dtype, self.np_ones)

    def np_empty_like(self, v, dtype=None):
        return self.like(v, dtype, self.np_empty)

    def np_full_like(self, v, fv, dtype=None):
        rec = self.arr(self.to_arr(v))
        return self.np_full(Tup([num(n) for n in rec.shape]), fv, dtype or DType(rec.dtype))

    def np_eye(self, n, M=None, k=None, dtype=None):
        a = self.shape_arg(n)[0]
        b = self.shape_arg(M)[0] if M is not None else a
        off = self.const_index(k) if k is not None else 0
        kk = self.dtype_of_val(dtype) if dtype is not None else 'f'
        return self.new_arr([self.cast(num(1.0 if j - i == off else 0.0), kk) for i in range(a) for j in range(b)],
                            (a, b), kk)

    def np_identity(self, n, dtype=None):
        return self.np_eye(n, dtype=dtype)

    def np_arange(self, *a, dtype=None):
        a = [self.scalar_arg(x) for x in a]
        if any(not isinstance(x, S) for x in a):
            raise NoModel('arange')
        cs = [pyconst(x) for x in a]
        if any(c is None for c in cs):
            raise Unresolved('arange over abstract bounds')
        isf = any(isinstance(c, float) for c in cs)
        st, sp, step = (0, cs[0], 1) if len(cs) == 1 else (cs[0], cs[1], cs[2] if len(cs) > 2 else 1)
        n = max(0, math.ceil((sp - st) / step))
        k = self.dtype_of_val(dtype) if dtype is not None else ('f' if isf else 'i')
        return self.new_arr([self.cast(num(st + i * step), k) for i in range(n)], (n,), k)

    def np_linspace(self, a, b, n=None, endpoint=None, retstep=None, dtype=None, num_=None, **kw):
        n = kw.get('num', n)
        cnt = self.const_index(self.int_like(n)) if n is not None else 50
        if cnt < 0:
            self.py_raise('ValueError', 'Number of samples must be non-negative.', internal=True)
        ep = True if endpoint is None else self.truth(endpoint)[0]
        div = (cnt - 1) if ep else cnt
        a, b = self.scalar_arg(a), self.scalar_arg(b)
        d = self.s_bin('Sub', b, a)
        els = []
        for i in range(cnt):
            els.append(self.cast(self.s_bin('Add', a, self.s_bin('Mult', d, num(Fraction(i, div) if div > 0 else Fraction(0)))), 'f'))
        k = self.dtype_of_val(dtype) if dtype is not None else 'f'
        return self.new_arr([self.cast(e, k) for e in els], (cnt,), k)

    def np_diag(self, v, k=None):
        a = self.to_arr(v)
        rec = self.arr(a)
        off = self.const_index(k) if k is not None else 0
        if len(rec.shape) == 1:
            n = rec.shape[0] + abs(off)
            z = self.cast(num(0), rec.dtype if rec.dtype != 'O' else 'i')
            els = [z] * (n * n)
            for i, x in enumerate(self.elems(a)):
                r, c = (i, i + off) if off >= 0 else (i - off, i)
                els[r * n + c] = x
            return self.new_arr(els, (n, n), rec.dtype)
        if len(rec.shape) == 2:
            return self.np_diagonal(a, k)
        self.py_raise('ValueError', 'Input must be 1- or 2-d.', internal=True)

    def np_diagonal(self, v, offset=None, axis1=None, axis2=None):
        a = self.to_arr(v)
        rec = self.arr(a)
        off = self.const_index(offset) if offset is not None else 0
        if len(rec.shape) < 2:
            self.py_raise('ValueError', 'diag requires an array of at least two dimensions', internal=True)
        if len(rec.shape) != 2:
            raise NoModel('diagonal of nd')
        n, m = rec.shape
        idx = [rec.idx[i * m + i + off] for i in range(n) if 0 <= i + off < m]
        return self.view(a, idx, (len(idx),))

    def np_triu(self, v, k=None):
        return self.tri(v, k, lambda i, j, o: j - i >= o)

    def np_tril(self, v, k=None):
        return self.tri(v, k, lambda i, j, o: j - i <= o)

    def tri(self, v, k, f):
        a = self.to_arr(v)
        rec = self.arr(a)
        o = self.const_index(k) if k is not None else 0
        if len(rec.shape) == 1:
            a = self.np_tile(a, Tup((num(rec.shape[0]), num(1))))
            rec = self.arr(a)
        n, m = rec.shape[-2:]
        z = self.cast(num(0), rec.dtype)
        els = self.elems(a)
        return self.new_arr([x if f(q // m % n, q % m, o) else z for q, x in enumerate(els)], rec.shape, rec.dtype)

    # --------------------------------------------------------------- shape funcs
    def np_reshape(self, v, newshape=None, order='C', shape=None, **kw):
        if newshape is None:
            newshape = shape
        a = self.to_arr(v)
        return self.reshape(a, newshape, order)

    def np_ravel(self, v, order='C'):
        a = self.to_arr(v)
        rec = self.arr(a)
        if order != 'C':
            idx = self.t_idx(rec.idx, rec.shape, self.layout(rec, order))[0]
        else:
            idx = rec.idx
        n = len(idx)
        if n <= 1 or all(idx[i + 1] == idx[i] + 1 for i in range(n - 1)):
            return self.view(a, idx, (n,))
        buf = self.use(self.store[('b', rec.buf)])
        return self.new_arr([buf[i] for i in idx], (n,), rec.dtype)

    def np_squeeze(self, v, axis=None):
        if isinstance(v, S):
            return v
        a = self.to_arr(v)
        rec = self.arr(a)
        ax = self.axis_arg(axis, len(rec.shape))
        if ax is None:
            sh = tuple(n for n in rec.shape if n != 1)
        else:
            ax = ax if isinstance(ax, tuple) else (ax,)
            if any(rec.shape[k] != 1 for k in ax):
                self.py_raise('ValueError', 'cannot select an axis to squeeze out which has size not equal to one',
                              internal=True)
            sh = tuple(n for k, n in enumerate(rec.shape) if k not in ax)
        return self.view(a, rec.idx, sh)

    def np_expand_dims(self, v, axis):
        a = self.to_arr(v)
        rec = self.arr(a)
        axs = [self.const_index(x) for x in self.iterate(axis)] if isinstance(axis, (Tup, Ref)) else [self.const_index(axis)]
        nd = len(rec.shape) + len(axs)
        for k in axs:
            if not -nd <= k < nd:
                self.py_raise('AxisError', 'axis %d is out of bounds for array of dimension %d' % (k, nd), internal=True)
        axs = [k % nd for k in axs]
        it = iter(rec.shape)
        return self.view(a, rec.idx, tuple(1 if d in axs else next(it) for d in range(nd)))

    def np_atleast_1d(self, v):
        a = self.to_arr(v)
        rec = self.arr(a)
        return a if rec.shape else self.view(a, rec.idx, (1,))

    def np_atleast_2d(self, v):
        a = self.to_arr(v)
        rec = self.arr(a)
        if len(rec.shape) >= 2:
            return a
        return self.view(a, rec.idx, (1,) + rec.shape if rec.shape else (1, 1))

    def np_transpose(self, v, axes=None):
        a = self.to_arr(v)
        return self.transpose(a, None if axes is None else self.iterate(axes))

    def np_swapaxes(self, v, a1, a2):
        a = self.to_arr(v)
        n = len(self.arr(a).shape)
        x, y = self.axis_arg(a1, n), self.axis_arg(a2, n)
        ax = list(range(n))
        ax[x], ax[y] = ax[y], ax[x]
        return self.transpose(a, [num(k) for k in ax])

    def np_moveaxis(self, v, s, d):
        a = self.to_arr(v)
        n = len(self.arr(a).shape)
        x, y = self.axis_arg(s, n), self.axis_arg(d, n)
        ax = [k for k in range(n) if k != x]
        ax.insert(y, x)
        return self.transpose(a, [num(k) for k in ax])

    def np_rollaxis(self, v, axis, start=None):
        a = self.to_arr(v)
        n = len(self.arr(a).shape)
        x = self.axis_arg(axis, n)
        s = self.const_index(start) if start is not None else 0
        if s < 0:
            s += n
        if x < s:
            s -= 1
        if x == s:
            return a
        ax = [k for k in range(n) if k != x]
        ax.insert(s, x)
        return self.transpose(a, [num(k) for k in ax])

    def flip(self, v, axes):
        a = self.to_arr(v)
        rec = self.arr(a)
        n = len(rec.shape)
        sl = [Slc(None, None, num(-1)) if k in axes else Slc(None, None, None) for k in range(n)]
        return self.arr_getitem(a, Tup(sl))

    def np_fliplr(self, v):
        if len(self.arr(self.to_arr(v)).shape) < 2:
            self.py_raise('ValueError', 'Input must be >= 2-d.', internal=True)
        return self.flip(v, (1,))

    def np_flipud(self, v):
        return self.flip(v, (0,))

    def np_flip(self, v, axis=None):
        a = self.to_arr(v)
        n = len(self.arr(a).shape)
        ax = self.axis_arg(axis, n)
        return self.flip(a, tuple(range(n)) if ax is None else (ax if isinstance(ax, tuple) else (ax,)))

    def np_tile(self, v, reps):
        a = self.to_arr(v)
        rec = self.arr(a)
        rp = list(self.shape_arg(reps))
        n = max(len(rp), len(rec.shape))
        rp = [1] * (n - len(rp)) + rp
        sh = (1,) * (n - len(rec.shape)) + rec.shape
        els = self.elems(a)
        st = cstr(sh)
        offs = [0]
        for d in range(n):
            offs = [o + st[d] * (k % sh[d]) for o in offs for k in range(sh[d] * rp[d])] if sh[d] else []
        out = tuple(s * r for s, r in zip(sh, rp))
        if prod(out) > 20000:
            raise Unresolved('array too large')
        return self.new_arr([els[o] for o in offs], out, rec.dtype)

    def np_matlib_repmat(self, v, m, n):
        a = self.to_arr(v)
        rec = self.arr(a)
        if len(rec.shape) < 2:
            a = self.np_atleast_2d(a)
        return self.np_tile(a, Tup((m, n)))

    def np_repeat(self, v, repeats, axis=None):
        a = self.to_arr(v)
        rec = self.arr(a)
        if axis is None:
            a = self.flatten(a)
            rec = self.arr(a)
            ax = 0
        else:
            ax = self.axis_arg(axis, len(rec.shape))
        n = rec.shape[ax]
        rp = self.to_arr(repeats)
        rs = [self.const_index(self.int_like(x)) for x in self.elems(rp)]
        if len(rs) == 1:
            rs = rs * n
        if len(rs) != n:
            self.py_raise('ValueError', 'operands could not be broadcast together', internal=True)
        sel = [k for k, r in enumerate(rs) for _ in range(r)]
        return self.np_take(a, self.new_arr([num(k) for k in sel], (len(sel),), 'i'), num(ax))

    def np_take(self, v, ind, axis=None):
        a = self.to_arr(v)
        if axis is None:
            a = self.flatten(a)
            return self.arr_getitem(a, ind)
        ax = self.axis_arg(axis, len(self.arr(a).shape))
        return self.arr_getitem(a, Tup([Slc(None, None, None)] * ax + [ind]))

    def np_broadcast_to(self, v, shape):
        a = self.to_arr(v)
        rec = self.arr(a)
        sh = self.shape_arg(shape)
        if self.bshape(rec.shape, sh) != sh:
            self.py_raise('ValueError', 'could not broadcast', internal=True)
        return self.view(a, [rec.idx[k] for k in self.bmap(rec.shape, sh)], sh)

    def np_concatenate(self, arrs, axis=None, **kw):
        vs = [self.to_arr(x) for x in self.iterate(arrs)]
        if not vs:
            self.py_raise('ValueError', 'need at least one array to concatenate', internal=True)
        if axis is None and 'axis' in kw:
            vs = [self.flatten(x) for x in vs]
        n = len(self.arr(vs[0]).shape)
        if n == 0:
            self.py_raise('ValueError', 'zero-dimensional arrays cannot be concatenated', internal=True)
        ax = self.axis_arg(axis, n) if axis is not None else 0
        return self.concat(vs, ax)

    def concat(self, vs, ax):
        recs = [self.arr(v) for v in vs]
        n = len(recs[0].shape)
        k = recs[0].dtype
        for r in recs[1:]:
            if len(r.shape) != n or any(r.shape[d] != recs[0].shape[d] for d in range(n) if d != ax):
                self.py_raise('ValueError', 'all the input array dimensions except for the concatenation axis must match '
                              'exactly: %s vs %s' % (recs[0].shape, r.shape), internal=True)
            k = self.promote(k, r.dtype)
        pre = prod(recs[0].shape[:ax])
        out = []
        els = [self.cast_all(self.elems(v), r.dtype, k) for v, r in zip(vs, recs)]
        for p in range(pre):
            for e, r in zip(els, recs):
                c = prod(r.shape[ax:])
                out.extend(e[p * c:(p + 1) * c])
        sh = list(recs[0].shape)
        sh[ax] = sum(r.shape[ax] for r in recs)
        return self.new_arr(out, sh, k)

    def np_hstack(self, arrs):
        vs = [self.np_atleast_1d(x) for x in self.iterate(arrs)]
        if not vs:
            self.py_raise('ValueError', 'need at least one array to concatenate', internal=True)
        return self.concat(vs, 0 if len(self.arr(vs[0]).shape) == 1 else 1)

    def np_vstack(self, arrs):
        vs = [self.np_atleast_2d(x) for x in self.iterate(arrs)]
        if not vs:
            self.py_raise('ValueError', 'need at least one array to concatenate', internal=True)
        return self.concat(vs, 0)

    np_row_stack = np_vstack

    def np_column_stack(self, arrs):
        vs = []
        for x in self.iterate(arrs):
            a = self.to_arr(x)
            r = self.arr(a)
            if len(r.shape) < 2:
                a = self.transpose(self.np_atleast_2d(a))
            vs.append(a)
        return self.concat(vs, 1)

    def np_stack(self, arrs, axis=None):
        vs = [self.to_arr(x) for x in self.iterate(arrs)]
        n = len(self.arr(vs[0]).shape) + 1
        ax = self.axis_arg(axis, n) if axis is not None else 0
        return self.concat([self.np_expand_dims(v, num(ax)) for v in vs], ax)

    def np_dstack(self, arrs):
        vs = []
        for x in self.iterate(arrs):
            a = self.np_atleast_2d(x)
            if len(self.arr(a).shape) == 2:
                a = self.np_expand_dims(a, num(2))
            vs.append(a)
        return self.concat(vs, 2)

    def np_append(self, a, b, axis=None):
        a, b = self.to_arr(a), self.to_arr(b)
        if axis is None:
            return self.concat([self.flatten(a), self.flatten(b)], 0)
        ax = self.axis_arg(axis, len(self.arr(a).shape))
        if len(self.arr(b).shape) != len(self.arr(a).shape):
            self.py_raise('ValueError', 'all the input arrays must have same number of dimensions', internal=True)
        return self.concat([a, b], ax)

    def np_delete(self, v, i, axis=None):
        a = self.to_arr(v)
        if axis is None:
            a = self.flatten(a)
        ax = self.axis_arg(axis, len(self.arr(a).shape)) if axis is not None else 0
        n = self.arr(a).shape[ax]
        rm = [self.const_index(x) % n for x in (self.iterate(i) if not isinstance(i, S) else [i])]
        keep = [k for k in range(n) if k not in rm]
        return self.np_take(a, self.new_arr([num(k) for k in keep], (len(keep),), 'i'), num(ax))

    def np_split(self, v, sec, axis=None):
        a = self.to_arr(v)
        rec = self.arr(a)
        ax = self.axis_arg(axis, len(rec.shape)) if axis is not None else 0
        n = rec.shape[ax]
        if isinstance(sec, S):
            c = self.const_index(sec)
            if c == 0 or n % c:
                self.py_raise('ValueError', 'array split does not result in an equal division', internal=True)
            cuts = [n // c * k for k in range(c + 1)]
        else:
            cuts = [0] + [self.const_index(x) for x in self.iterate(sec)] + [n]
        return self.new_list([self.arr_getitem(a, Tup([Slc(None, None, None)] * ax + [Slc(num(p), num(q), None)]))
                              for p, q in zip(cuts, cuts[1:])])

    def np_kron(self, a, b):
        a, b = self.to_arr(a), self.to_arr(b)
        ra, rb = self.arr(a), self.arr(b)
        n = max(len(ra.shape), len(rb.shape))
        sa = (1,) * (n - len(ra.shape)) + ra.shape
        sb = (1,) * (n - len(rb.shape)) + rb.shape
        ea, eb = self.elems(a), self.elems(b)
        sta, stb = cstr(sa), cstr(sb)
        out_sh = tuple(x * y for x, y in zip(sa, sb))
        pairs = [(0, 0)]
        for d in range(n):
            pairs = [(p + sta[d] * (k // sb[d]), q + stb[d] * (k % sb[d])) for p, q in pairs for k in range(out_sh[d])]
        k = self.promote(ra.dtype, rb.dtype)
        return self.new_arr([self.cast(self.s_bin('Mult', self.scalar(ea[p]), eb[q]), k) for p, q in pairs], out_sh, k)

    def np_shape(self, v):
        if isinstance(v, Top):
            raise NoModel('shape')
        if isinstance(v, Ref) and v.kind == 'arr':
            return self.arr_attr(v, 'shape')
        return Tup([num(n) for n in self.nest(v)[1]])

    def np_size(self, v, axis=None):
        if isinstance(v, Top):
            raise NoModel('size')
        sh = self.arr(v).shape if isinstance(v, Ref) and v.kind == 'arr' else self.nest(v)[1]
        if axis is None:
            return num(prod(sh))
        k = self.const_index(axis)
        if not -len(sh) <= k < len(sh):
            self.py_raise('IndexError', 'tuple index out of range', internal=True)
        return num(sh[k])

    def np_ndim(self, v):
        sh = self.arr(v).shape if isinstance(v, Ref) and v.kind == 'arr' else self.nest(v)[1]
        return num(len(sh))

    # ---------------------------------------------------------------- reductions
    def reduce(self, v, axis, keepdims, f, kind=None):
        """f(list of elements) -> value"""
        a = self.to_arr(v)
        rec = self.arr(a)
        els = self.elems(a)
        n = len(rec.shape)
        ax = self.axis_arg(axis, n)
        kd = keepdims is not None and self.truth(keepdims)[0]
        if ax is None:
            r = f(els)
            if kd:
                return self.new_arr([r], (1,) * n, kind or rec.dtype)
            return self.scalar(r)
        axs = ax if isinstance(ax, tuple) else (ax,)
        st = cstr(rec.shape)
        outer = [0]
        for d in range(n):
            if d not in axs:
                outer = [o + st[d] * k for o in outer for k in range(rec.shape[d])]
        inner = [0]
        for d in range(n):
            if d in axs:
                inner = [o + st[d] * k for o in inner for k in range(rec.shape[d])]
        out = [f([els[o + i] for i in inner]) for o in outer]
        sh = tuple((1 if d in axs else s) for d, s in enumerate(rec.shape)) if kd else \
            tuple(s for d, s in enumerate(rec.shape) if d not in axs)
        k = kind or (out[0].k if out and isinstance(out[0], S) else rec.dtype)
        if sh == ():
            return self.scalar(out[0])
        return self.new_arr(out, sh, k)

    def sum_els(self, els):
        r = None
        for x in els:
            x = self.use(x)
            if isinstance(x, S) and x.k == 'b':
                x = self.cast(x, 'i')
            r = x if r is None else self.binop('Add', r, x)
        if r is None:
            return num(0.0, True)
        return self.tighten_sq(r)

    def np_sum(self, v, axis=None, dtype=None, out=None, keepdims=None, **kw):
        if isinstance(v, Ref) and v.kind == 'list' and False:
            pass
        return self.reduce(v, axis, keepdims, self.sum_els)

    def np_prod(self, v, axis=None, dtype=None, keepdims=None, **kw):
        def f(els):
            r = num(1 if all(isinstance(x, S) and x.k in 'iub' for x in els) and els else 1.0)
            for x in els:
                r = self.binop('Mult', r, self.cast(x, 'i') if isinstance(x, S) and x.k == 'b' else x)
            return r
        return self.reduce(v, axis, keepdims, f)

    def np_mean(self, v, axis=None, keepdims=None, **kw):
        def f(els):
            return self.s_div(self.cast(self.sum_els(els), 'f'), num(float(len(els)), True), True)
        return self.reduce(v, axis, keepdims, f, 'f')

    def ext(self, els, mx):
        if not els:
            self.py_raise('ValueError', 'zero-size array to reduction operation which has no identity', internal=True)
        r = els[0]
        for x in els[1:]:
            if not isinstance(x, S) or not isinstance(r, S):
                raise NoModel('minmax')
            r = self.s_minmax(r, x, mx)
        return r

    def np_max(self, v, axis=None, keepdims=None, **kw):
        return self.reduce(v, axis, keepdims, lambda e: self.ext(e, True))

    def np_min(self, v, axis=None, keepdims=None, **kw):
        return self.reduce(v, axis, keepdims, lambda e: self.ext(e, False))

    np_amax, np_amin = np_max, np_min

    def np_ptp(self, v, axis=None):
        return self.binop('Sub', self.np_max(v, axis), self.np_min(v, axis))

    def np_any(self, v, axis=None, keepdims=None, **kw):
        return self.reduce(v, axis, keepdims, lambda e: self.any_of([self.as_bool(x) for x in e], True), 'b')

    def np_all(self, v, axis=None, keepdims=None, **kw):
        return self.reduce(v, axis, keepdims, lambda e: self.all_of([self.as_bool(x) for x in e], True), 'b')

    def np_count_nonzero(self, v, axis=None):
        return self.np_sum(self.map1(lambda x: self.cast(x, 'b'), v, 'b'), axis)

    def np_cumsum(self, v, axis=None):
        a = self.to_arr(v)
        rec = self.arr(a)
        if axis is None:
            a = self.flatten(a)
            rec = self.arr(a)
            ax = 0
        else:
            ax = self.axis_arg(axis, len(rec.shape))
        els = self.elems(a)
        st = cstr(rec.shape)[ax]
        out = list(els)
        k = 'i' if rec.dtype == 'b' else rec.dtype
        out = [self.cast(x, k) for x in out]
        for q in range(len(out)):
            if q // st % rec.shape[ax]:
                out[q] = self.s_bin('Add', out[q - st], out[q])
        return self.new_arr(out, rec.shape, k)

    def np_diff(self, v, n=None, axis=None):
        a = self.to_arr(v)
        rec = self.arr(a)
        times = self.const_index(n) if n is not None else 1
        ax = self.axis_arg(axis if axis is not None else num(-1), len(rec.shape))
        for _ in range(times):
            hi = self.arr_getitem(a, Tup([Slc(None, None, None)] * ax + [Slc(num(1), None, None)]))
            lo = self.arr_getitem(a, Tup([Slc(None, None, None)] * ax + [Slc(None, num(-1), None)]))
            if self.arr(a).dtype == 'b':
                a = self.arr_cmp('NotEq', hi, lo)
            else:
                a = self.arr_bin('Sub', hi, lo)
        return a

    def np_trace(self, v):
        return self.np_sum(self.np_diagonal(v))

    def np_dot(self, a, b):
        if isinstance(a, S) or isinstance(b, S):
            return self.binop('Mult', a, b)
        a, b = self.to_arr(a), self.to_arr(b)
        if self.arr(a).shape == () or self.arr(b).shape == ():
            return self.arr_bin('Mult', a, b)
        if len(self.arr(a).shape) > 2 or len(self.arr(b).shape) > 2:
            raise NoModel('dot nd')
        return self.matmul(a, b)

    np_matmul = np_dot

    def np_vdot(self, a, b):
        return self.matmul(self.flatten(self.to_arr(a)), self.flatten(self.to_arr(b)))

    def np_inner(self, a, b):
        a, b = self.to_arr(a), self.to_arr(b)
        return self.matmul(a, self.transpose(b))

    def np_outer(self, a, b):
        a, b = self.flatten(self.to_arr(a)), self.flatten(self.to_arr(b))
        n, m = len(self.arr(a).idx), len(self.arr(b).idx)
        return self.matmul(self.reshape(a, Tup((num(n), num(1)))), self.reshape(b, Tup((num(1), num(m)))))

    def np_cross(self, a, b, axisa=None, axisb=None, axisc=None, axis=None):
        a, b = self.to_arr(a), self.to_arr(b)
        if axis is not None or axisa is not None or axisb is not None:
            raise NoModel('cross axis')
        sa, sb = self.arr(a).shape, self.arr(b).shape
        if sa[-1] != 3 or sb[-1] != 3:
            raise NoModel('cross 2d')
        g = lambda v, k: self.arr_getitem(v, Tup((ELL, num(k))))
        def mn(i, j):
            return self.binop('Sub', self.binop('Mult', g(a, i), g(b, j)), self.binop('Mult', g(a, j), g(b, i)))
        cs = [self.to_arr(x) for x in (mn(1, 2), mn(2, 0), mn(0, 1))]
        return self.np_stack(self.new_list(cs), num(len(self.arr(cs[0]).shape)))

    def np_einsum(self, spec, *ops, **kw):
        if not isinstance(spec, str) or '->' not in spec or '.' in spec:
            raise NoModel('einsum')
        ins, out = spec.replace(' ', '').split('->')
        ins = ins.split(',')
        ops = [self.to_arr(o) for o in ops]
        dim = {}
        for s, o in zip(ins, ops):
            if len(s) != len(self.arr(o).shape):
                self.py_raise('ValueError', 'einstein sum subscripts', internal=True)
            for c, n in zip(s, self.arr(o).shape):
                if dim.setdefault(c, n) != n:
                    self.py_raise('ValueError', 'einsum: dimension mismatch', internal=True)
        summed = [c for c in dim if c not in out]
        if prod(dim.values()) > 20000:
            raise Unresolved('einsum too large')
        els = [self.elems(o) for o in ops]
        sts = [cstr(self.arr(o).shape) for o in ops]
        res = []
        for oi in itertools.product(*[range(dim[c]) for c in out]):
            env = dict(zip(out, oi))
            acc = None
            for si in itertools.product(*[range(dim[c]) for c in summed]):
                env.update(zip(summed, si))
                p = None
                for s, st, e in zip(ins, sts, els):
                    x = e[sum(env[c] * q for c, q in zip(s, st))]
                    p = x if p is None else self.s_bin('Mult', self.scalar(p), x)
                acc = p if acc is None else self.s_bin('Add', self.scalar(acc), p)
            res.append(self.tighten_sq(acc))
        return self.ret(res, tuple(dim[c] for c in out), res[0].k if res else 'f')

    # ------------------------------------------------------------------- sorting
    def order(self, vals, tag):
        """indices sorting abstract scalars ascending (stable); undecided orders partition"""
        out = []
        for i, x in enumerate(vals):
            j = len(out)
            while j > 0:
                y = vals[out[j - 1]]
                if isinstance(x, S) and isinstance(y, S):
                    if y.nan == 2 and x.nan != 2:
                        j -= 1
                        continue
                    c = self.s_cmp('lt', x, y)
                    d = c.bv if c.bv is not None else self.partition(c.t, (tag, i, out[j - 1]))
                else:
                    d, t = self.truth(self.compare('Lt', x, y))
                    if d is None:
                        d = self.partition(t, (tag, i, out[j - 1]))
                if not d:
                    break
                j -= 1
            out.insert(j, i)
        return out

    def along(self, v, axis, f, kind):
        a = self.to_arr(v)
        rec = self.arr(a)
        if axis is None:
            a = self.flatten(a)
            rec = self.arr(a)
            ax = 0
        else:
            ax = self.axis_arg(axis, len(rec.shape))
        els = self.elems(a)
        st = cstr(rec.shape)
        outer = [0]
        for d in range(len(rec.shape)):
            if d != ax:
                outer = [o + st[d] * k for o in outer for k in range(rec.shape[d])]
        out = [None] * len(els)
        for q, o in enumerate(outer):
            pos = [o + st[ax] * k for k in range(rec.shape[ax])]
            for p, x in zip(pos, f([els[p] for p in pos], q)):
                out[p] = x
        return self.new_arr(out, rec.shape, kind or rec.dtype)

    def np_sort(self, v, axis=None, kind=None, order=None):
        return self.along(v, axis if axis is not None else num(-1),
                          lambda e, q: [e[i] for i in self.order(e, ('sort', q))], None)

    def np_argsort(self, v, axis=None, kind=None, order=None):
        return self.along(v, axis if axis is not None else num(-1),
                          lambda e, q: [num(i) for i in self.order(e, ('asort', q))], 'i')

    def argext(self, v, axis, mx):
        def f(els):
            if not els:
                self.py_raise('ValueError', 'attempt to get argmin of an empty sequence', internal=True)
            b = 0
            for i in range(1, len(els)):
                c = self.s_cmp('gt' if mx else 'lt', els[i], els[b])
                d = c.bv if c.bv is not None else self.partition(c.t, ('arg', i, b))
                if d:
                    b = i
            return num(b, True)
        return self.reduce(v, axis, None, f, 'i')

    def np_argmin(self, v, axis=None):
        return self.argext(v, axis, False)

    def np_argmax(self, v, axis=None):
        return self.argext(v, axis, True)

    def np_lexsort(self, keys, axis=None):
        a = self.to_arr(keys)
        rec = self.arr(a)
        if len(rec.shape) == 1:
            return self.np_argsort(a)
        n, m = rec.shape
        els = self.elems(a)

        def less(i, j):
            for k in range(n - 1, -1, -1):
                x, y = els[k * m + i], els[k * m + j]
                c = self.s_cmp('lt', x, y)
                d = c.bv if c.bv is not None else self.partition(c.t, ('lex', k, i, j))
                if d:
                    return True
                e = self.s_cmp('eq', x, y)
                d = e.bv if e.bv is not None else self.partition(e.t, ('lexe', k, i, j))
                if not d:
                    return False
            return False
        out = []
        for i in range(m):
            j = len(out)
            while j > 0 and less(i, out[j - 1]):
                j -= 1
            out.insert(j, i)
        return self.new_arr([num(i) for i in out], (m,), 'i')

    def np_unique(self, v, return_index=None, return_inverse=None, return_counts=None, axis=None):
        a = self.to_arr(v)
        rec = self.arr(a)
        if rec.dtype == 'V':
            raise NoModel('unique void')
        if axis is None:
            els = self.elems(a)
            rows = [[x] for x in els]
        else:
            ax = self.axis_arg(axis, len(rec.shape))
            if len(rec.shape) != 2:
                raise NoModel('unique nd')
            n, m = rec.shape
            els = self.elems(a)
            rows = [els[i * m:(i + 1) * m] for i in range(n)] if ax == 0 else [els[j::m] for j in range(m)]

        def cmp(x, y, tag):
            for k, (p, q) in enumerate(zip(x, y)):
                if isinstance(p, str) and isinstance(q, str):
                    if p != q:
                        return -1 if p < q else 1
                    continue
                e = self.s_cmp('eq', p, q) if isinstance(p, S) and isinstance(q, S) else self.as_bool(self.compare('Eq', p, q))
                d = e.bv if e.bv is not None else self.partition(e.t, ('ueq', tag, k))
                if d:
                    continue
                c = self.s_cmp('lt', p, q) if isinstance(p, S) and isinstance(q, S) else self.as_bool(self.compare('Lt', p, q))
                d = c.bv if c.bv is not None else self.partition(c.t, ('ult', tag, k))
                return -1 if d else 1
            return 0
        uniq = []        # list of [row, first index, members]
        for i, r in enumerate(rows):
            j = 0
            while j < len(uniq):
                c = cmp(r, uniq[j][0], (i, uniq[j][1]))
                if c == 0:
                    uniq[j][2].append(i)
                    break
                if c < 0:
                    uniq.insert(j, [r, i, [i]])
                    break
                j += 1
            else:
                uniq.append([r, i, [i]])
        out = [x for u in uniq for x in u[0]]
        if axis is None:
            res = self.new_arr(out, (len(uniq),), rec.dtype)
        elif ax == 0:
            res = self.new_arr(out, (len(uniq), rec.shape[1]), rec.dtype)
        else:
            res = self.np_copy(self.transpose(self.new_arr(out, (len(uniq), rec.shape[0]), rec.dtype)))
        tup = [res]
        if self.flag(return_index):
            tup.append(self.new_arr([num(u[1]) for u in uniq], (len(uniq),), 'i'))
        if self.flag(return_inverse):
            inv = [0] * len(rows)
            for k, u in enumerate(uniq):
                for i in u[2]:
                    inv[i] = k
            tup.append(self.new_arr([num(i) for i in inv], (len(rows),), 'i'))
        if self.flag(return_counts):
            tup.append(self.new_arr([num(len(u[2])) for u in uniq], (len(uniq),), 'i'))
        return tup[0] if len(tup) == 1 else Tup(tup)

    def flag(self, v):
        return v is not None and bool(self.truth(v)[0])

    def np_bincount(self, v, weights=None, minlength=None):
        a = self.to_arr(v)
        ks = [self.const_index(x) for x in self.elems(a)]
        n = max(ks) + 1 if ks else 0
        if minlength is not None:
            n = max(n, self.const_index(minlength))
        return self.new_arr([num(ks.count(i)) for i in range(n)], (n,), 'i')

    def np_nonzero(self, v):
        a = self.to_arr(v)
        rec = self.arr(a)
        st = cstr(rec.shape)
        sel = []
        for q, x in enumerate(self.elems(a)):
            d, c = self.truth(x)
            if d is None:
                d = self.partition(c, ('nz', q))
            if d:
                sel.append(q)
        return Tup([self.new_arr([num(q // st[d] % rec.shape[d]) for q in sel], (len(sel),), 'i')
                    for d in range(len(rec.shape))])

    def np_flatnonzero(self, v):
        return self.np_nonzero(self.flatten(self.to_arr(v))).items[0]

    def np_argwhere(self, v):
        return self.transpose(self.np_stack(self.new_list(self.np_nonzero(v).items)))

    def np_where(self, c, *ab):
        if not ab:
            return self.np_nonzero(c)
        a, b = ab
        ca = self.to_arr(c)
        x, y = self.to_arr(a), self.to_arr(b)
        sh = self.bshape(self.bshape(self.arr(ca).shape, self.arr(x).shape), self.arr(y).shape)
        k = self.promote(self.arr(x).dtype, self.arr(y).dtype)
        ec, ex, ey = self.elems(ca), self.elems(x), self.elems(y)
        mc, mx, my = (self.bmap(self.arr(q).shape, sh) for q in (ca, x, y))
        out = []
        for i, j, l in zip(mc, mx, my):
            p, q = ex[j], ey[l]
            if k != 'O':
                p, q = self.cast(p, k), self.cast(q, k)
            out.append(self.select(self.as_bool(ec[i]), p, q))
        return self.new_arr(out, sh, k) if sh else self.new_arr(out, (), k)

    def np_isin(self, v, test, assume_unique=None, invert=None):
        ts = self.elems(self.to_arr(test))
        inv = self.flag(invert)

        def f(x):
            r = self.any_of([self.as_bool(self.compare('Eq', x, t)) for t in ts], True)
            return self.unop_b(r) if inv else r
        a = self.to_arr(v)
        rec = self.arr(a)
        return self.ret([f(x) for x in self.elems(a)], rec.shape, 'b')

    np_in1d = np_isin

    def np_array_equal(self, a, b, equal_nan=None):
        a, b = self.to_arr(a), self.to_arr(b)
        if self.arr(a).shape != self.arr(b).shape:
            return boolv(False)
        els = []
        for x, y in zip(self.elems(a), self.elems(b)):
            els.append(self.as_bool(self.compare('Eq', x, y)))
        return self.all_of(els)

    def close(self, a, b, rtol, atol):
        rt = rtol if rtol is not None else num(1e-5)
        at = atol if atol is not None else num(1e-8)
        lhs = self.np_abs(self.binop('Sub', self.to_arr(a), b))
        rhs = self.binop('Add', at, self.binop('Mult', rt, self.np_abs(b)))
        return self.compare('LtE', lhs, rhs)

    def np_isclose(self, a, b, rtol=None, atol=None, equal_nan=None):
        return self.close(a, b, rtol, atol)

    def np_allclose(self, a, b, rtol=None, atol=None, equal_nan=None):
        r = self.np_all(self.close(a, b, rtol, atol))
        return r.cp(np=False)

    def np_isscalar(self, v):
        v = self.use(v)
        if isinstance(v, Top):
            return self.top('isscalar', [v], 'bool')
        return boolv(isinstance(v, (S, str)))

    def np_finfo(self, v):
        return Ext('finfo')

    def np_iinfo(self, v):
        return Ext('iinfo')

    def np_dtype(self, v, *a):
        if isinstance(v, Tup):
            return DType('V', 'void')
        return DType(self.dtype_of_val(v))

    def np_format_float_positional(self, v, **kw):
        c = pyconst(v) if isinstance(v, S) and v.k in 'fi' else None
        p, trim = kw.get('precision'), kw.get('trim', 'k')
        p = pyconst(p) if isinstance(p, S) else p
        if c is None or not math.isfinite(c) or trim not in ('.', '-', '0', 'k') or set(kw) - {'precision', 'trim'}:
            return self.top('ffp', [v], 'str')
        from decimal import Decimal, ROUND_HALF_EVEN
        d = Decimal(repr(float(c)))
        if p is not None and -d.as_tuple().exponent > int(p):
            d = d.quantize(Decimal(1).scaleb(-int(p)), ROUND_HALF_EVEN)
        s = format(d, 'f')
        a, _, f = s.partition('.')
        f = f.rstrip('0')
        return a + ('.' + f if f else {'.': '.', 'k': '.', '0': '.0', '-': ''}[trim])

    def np_vectorize(self, f, otypes=None, **kw):
        v = Vectorized(f)
        v.otypes = otypes
        return v

    def call_vectorized(self, f, args, kw, node):
        if kw:
            raise Unresolved('vectorize keywords')
        arrs = [self.to_arr(a) if not (isinstance(a, Ref) and a.kind == 'obj') else self.new_arr([a], (), 'O') for a in args]
        sh = ()
        for a in arrs:
            sh = self.bshape(sh, self.arr(a).shape)
        if prod(sh) == 0:
            self.py_raise('ValueError', 'cannot call `vectorize` on size 0 inputs unless `otypes` is set', internal=True)
        maps = [self.bmap(self.arr(a).shape, sh) for a in arrs]
        els = [self.elems(a) for a in arrs]
        out = []
        for q in range(prod(sh)):
            out.append(self.use(self.call(f.fn, [e[m[q]] for e, m in zip(els, maps)], {}, node)))
        if out and isinstance(out[0], Tup):
            cols = list(zip(*[t.items for t in out]))
            return Tup([self.vec_out(c, sh) for c in cols])
        return self.vec_out(out, sh)

    def vec_out(self, out, sh):
        x = out[0]
        if isinstance(x, S):
            k = x.k
        elif isinstance(x, str):
            k = 'U'
        elif isinstance(x, Top):
            k = {'bool': 'b', 'float': 'f', 'int': 'i'}.get(x.hint, 'O')
        else:
            k = 'O'
        els = out if k in 'OU' else [self.cast(self.lift_top(e, k), k) for e in out]
        return self.new_arr(els, sh, k)

    def lift_top(self, e, k):
        return self.top_elem(e, k, 0) if isinstance(e, Top) else e

    def np_apply_along_axis(self, f, axis, v, *args, **kw):
        a = self.to_arr(v)
        sh = self.arr(a).shape
        ax = self.axis_arg(axis, len(sh))
        st = cstr(sh)
        outer = [0]
        for d in range(len(sh)):
            if d != ax:
                outer = [o + st[d] * k for o in outer for k in range(sh[d])]
        els = self.elems(a)
        res = []
        for o in outer:
            vec = self.new_arr([els[o + st[ax] * k] for k in range(sh[ax])], (sh[ax],), self.arr(a).dtype)
            res.append(self.to_arr(self.call(f, [vec] + list(args), kw, self.cur)))
        if not res:
            raise NoModel('apply_along_axis')
        rs = self.arr(res[0]).shape
        if any(self.arr(r).shape != rs for r in res):
            raise NoModel('apply_along_axis')
        osh = tuple(n for d, n in enumerate(sh) if d != ax)
        k = self.arr(res[0]).dtype
        m = self.new_arr([x for r in res for x in self.elems(r)], osh + rs, k)
        n = len(osh)
        perm = list(range(ax)) + [n + d for d in range(len(rs))] + list(range(ax, n))
        return self.transpose(m, [num(p) for p in perm])

    # -------------------------------------------------------------------- linalg
    def sqmat(self, v):
        a = self.to_arr(v)
        rec = self.arr(a)
        if len(rec.shape) != 2:
            if len(rec.shape) > 2:
                raise NoModel('stacked linalg')
            self.py_raise('LinAlgError', '%d-dimensional array given. Array must be at least two-dimensional'
                          % len(rec.shape), internal=True)
        if rec.shape[0] != rec.shape[1]:
            self.py_raise('LinAlgError', 'Last 2 dimensions of the array must be square', internal=True)
        els = [self.cast(x, 'f') if isinstance(x, S) and x.k in 'iub' else x for x in self.elems(a)]
        if any(not isinstance(x, S) for x in els):
            if rec.dtype == 'O':
                self.py_raise('TypeError', 'array type object is unsupported in linalg', internal=True)
            raise NoModel('linalg on unknown')
        return rec.shape[0], els

    def mat2(self, v):
        a = self.to_arr(v)
        rec = self.arr(a)
        if len(rec.shape) != 2:
            if len(rec.shape) > 2:
                raise NoModel('stacked linalg')
            self.py_raise('LinAlgError', '%d-dimensional array given. Array must be at least two-dimensional'
                          % len(rec.shape), internal=True)
        els = [self.cast(x, 'f') if isinstance(x, S) and x.k in 'iub' else x for x in self.elems(a)]
        if any(not isinstance(x, S) for x in els):
            raise NoModel('linalg on unknown')
        return rec.shape[0], rec.shape[1], els

    def bad(self, els):
        """2: some element definitely NaN/inf, 1: maybe, 0: all finite"""
        if any(x.nan == 2 or x.fin == -1 for x in els):
            return 2
        return 1 if any(x.nan or x.fin != 1 for x in els) else 0

    def symterm(self, n, els):
        return mk('symmat', n, *[els[i * n + j].t for i in range(n) for j in range(i + 1)])

    def is_symm(self, n, els):
        return all(els[i * n + j].t is els[j * n + i].t for i in range(n) for j in range(i))

    def iv_of(self, els):
        return [self.iv(x) for x in els]

    def eig_bounds(self, n, els):
        """[(lo,hi)] ascending eigenvalue bounds of the symmetric matrix given by the lower triangle; exact terms for
        1x1 blocks"""
        g = lambda i, j: els[i * n + j] if i >= j else els[j * n + i]
        comp = list(range(n))

        def find(x):
            while comp[x] != x:
                x = comp[x]
            return x
        for i in range(n):
            for j in range(i):
                if cval(g(i, j).t) != 0:
                    comp[find(i)] = find(j)
        blocks = {}
        for i in range(n):
            blocks.setdefault(find(i), []).append(i)
        los, his, exact = [], [], []
        for b in blocks.values():
            if len(b) == 1:
                x = g(b[0], b[0])
                iv = self.iv(x)
                los.append(iv[0])
                his.append(iv[1])
                exact.append(x)
                continue
            ab = lambda i, j: max(abs(v) for v in self.iv(g(i, j)))
            if len(b) == 2:
                i, j = b
                a, c, o = self.iv(g(i, i)), self.iv(g(j, j)), ab(i, j)
                tr = i_add(a, c)
                df = i_add(a, i_neg(c))
                dmax = max(abs(df[0]), abs(df[1]))
                dmin = 0.0 if df[0] <= 0 <= df[1] else min(abs(df[0]), abs(df[1]))
                io = self.iv(g(i, j))
                omin = 0.0 if io[0] <= 0 <= io[1] else min(abs(io[0]), abs(io[1]))
                r_hi = math.hypot(dmax, 2 * o) if max(dmax, o) < INF else INF
                r_lo = math.hypot(dmin, 2 * omin)
                R = o
                sa = sorted([a[0], c[0]])
                sc = sorted([a[1], c[1]])
                los += [max((tr[0] - r_hi) / 2, sa[0] - R), max((tr[0] + r_lo) / 2, sa[1] - R)]
                his += [min((tr[1] - r_lo) / 2, sc[0]), min((tr[1] + r_hi) / 2, sc[1] + R)]
                continue
            R = max(sum(ab(i, j) for j in b if j != i) for i in b)
            dl = sorted(self.iv(g(i, i))[0] for i in b)
            dh = sorted(self.iv(g(i, i))[1] for i in b)
            los += [x - R for x in dl]
            his += [x + R for x in dh]
            his[len(his) - len(b)] = min(his[len(his) - len(b)], dh[0])
            los[-1] = max(los[-1], dl[-1])
            w = weyl([[self.iv(g(i, j)) for j in b] for i in b])
            if w is not None:
                k0 = len(los) - len(b)
                for k, (lo, hi) in enumerate(w):
                    los[k0 + k], his[k0 + k] = max(los[k0 + k], lo), min(his[k0 + k], hi)
        los.sort()
        his.sort()
        if len(exact) == n:
            # diagonal: ascending order decided?
            try:
                out = []
                for x in exact:
                    j = len(out)
                    while j > 0:
                        c = self.s_cmp('lt', x, out[j - 1])
                        if c.bv is None:
                            raise Unresolved('order')
                        if not c.bv:
                            break
                        j -= 1
                    out.insert(j, x)
                return list(zip(los, his)), out
            except Unresolved:
                pass
        return list(zip(los, his)), None

    def eigvals_s(self, n, els):
        b = self.bad([els[i * n + j] for i in range(n) for j in range(i + 1)])
        M = self.symterm(n, els)
        if b and n == 1:
            x = els[0]
            return [S('f', x.t, x.lo, x.hi, nan=x.nan, fin=x.fin, np=True)], M, b
        if b:
            return [S('f', mk('eigval', M, k), nan=1, fin=0 if b == 1 else 0, np=True) for k in range(n)], M, b
        bounds, exact = self.eig_bounds(n, els)
        out = []
        for k, (lo, hi) in enumerate(bounds):
            if exact is not None:
                out.append(exact[k].cp(np=True, k='f'))
                continue
            if lo == hi:
                out.append(num(float(lo), True))
                continue
            t = mk('eigval', M, k)
            t.lo, t.hi = max(t.lo, -INF), min(t.hi, INF)
            out.append(S('f', t, lo, hi, np=True))
        return out, M, 0

    def herm(self, v, UPLO):
        n, els = self.sqmat(v)
        if any(x.k == 'c' for x in els):
            raise NoModel('complex eigh')
        if UPLO == 'U':
            els = [els[j * n + i] for i in range(n) for j in range(n)]
        return n, els

    def np_linalg_eigvalsh(self, v, UPLO='L'):
        n, els = self.herm(v, UPLO)
        out, M, b = self.eigvals_s(n, els)
        if b == 2:
            # LAPACK on non-finite input: error or NaN result
            pass
        return self.new_arr(out, (n,), 'f')

    def np_linalg_eigh(self, v, UPLO='L'):
        n, els = self.herm(v, UPLO)
        w, M, b = self.eigvals_s(n, els)
        exact = not b and self.eig_bounds(n, els)[1] is not None
        vec = []
        if exact and n > 1 or n == 1 and not b:
            diag = [els[i * n + i] for i in range(n)]
            order = []
            used = set()
            for x in w:
                for i, d in enumerate(diag):
                    if i not in used and d.t is x.t:
                        used.add(i)
                        order.append(i)
                        break
            if len(order) == n:
                vec = [num(1.0 if order[k] == i else 0.0, True) for i in range(n) for k in range(n)]
        if not vec:
            for i in range(n):
                for k in range(n):
                    t = mk('eigvec', M, i, k)
                    t.lo, t.hi = -1.0, 1.0
                    vec.append(S('f', t, -1.0, 1.0, nan=1 if b else 0, fin=1 if not b else 0, np=True))
        return Tup((self.new_arr(w, (n,), 'f'), self.new_arr(vec, (n, n), 'f')))

    def np_linalg_eig(self, v):
        n, els = self.sqmat(v)
        b = self.bad(els)
        if b == 2:
            self.py_raise('LinAlgError', 'Array must not contain infs or NaNs', internal=True)
        M = mk('mat', n, *[x.t for x in els])
        if not b and all(x.k != 'c' for x in els) and all(x.lo == 0 == x.hi for i, x in enumerate(els) if i % (n + 1)):
            # a diagonal matrix is its own Schur form: nothing is permuted
            return Tup((self.new_arr([self.cast(els[i * n + i], 'f') for i in range(n)], (n,), 'f'), self.np_eye(num(n))))
        symm = self.is_symm(n, els)
        w, vec = [], []
        R = max(sum(max(abs(q) for q in self.iv(els[i * n + j])) for j in range(n)) for i in range(n))
        for k in range(n):
            t = mk('geigval', M, k)
            w.append(S('f', t, -R, R, nan=1 if b else 0, np=True))
        for i in range(n):
            for k in range(n):
                t = mk('geigvec', M, i, k)
                t.lo, t.hi = -1.0, 1.0
                vec.append(S('f', t, -1.0, 1.0, nan=1 if b else 0, np=True))
        if not symm:
            # possibly complex spectrum: leave the kinds abstract
            w = [cplx(x, S('f', mk('geigim', M, k), np=True), True) for k, x in enumerate(w)]
            return Tup((self.new_arr(w, (n,), 'c'), self.new_arr([cplx(x, S('f', mk('gevim', M, i), np=True), True)
                                                                 for i, x in enumerate(vec)], (n, n), 'c')))
        return Tup((self.new_arr(w, (n,), 'f'), self.new_arr(vec, (n, n), 'f')))

    def np_linalg_eigvals(self, v):
        return self.np_linalg_eig(v).items[0]

    def sv_bounds(self, n, m, els):
        p = min(n, m)
        iv = self.iv_of(els)
        if n == m and self.is_symm(n, els):
            bounds, exact = self.eig_bounds(n, els)
            los, his = [], []
            for lo, hi in bounds:
                los.append(0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi)))
                his.append(max(abs(lo), abs(hi)))
            return sorted(los, reverse=True), sorted(his, reverse=True)
        ab = [max(abs(a), abs(b)) for a, b in iv]
        mi = [0.0 if a <= 0 <= b else min(abs(a), abs(b)) for a, b in iv]
        fro = math.sqrt(sum(x * x for x in ab)) if all(x < INF for x in ab) else INF
        nzr = sum(any(ab[i * m + j] > 0 for j in range(m)) for i in range(n))
        nzc = sum(any(ab[i * m + j] > 0 for i in range(n)) for j in range(m))
        r = min(nzr, nzc, p)
        his = [fro] * r + [0.0] * (p - r)
        los = [0.0] * p
        frol = math.sqrt(sum(x * x for x in mi))
        if p:
            los[0] = frol / math.sqrt(p)
        if p == 1 or r == 1:
            los[0] = frol
        if n == m:
            low = min((mi[i * n + i] - 0.5 * (sum(ab[i * n + j] for j in range(n) if j != i) +
                                             sum(ab[j * n + i] for j in range(n) if j != i))) for i in range(n))
            if low > 0:
                los = [max(x, low) for x in los]
        return los, his

    def svals(self, n, m, els):
        b = self.bad(els)
        if b == 2:
            self.py_raise('LinAlgError', 'SVD did not converge', internal=True)
        p = min(n, m)
        M = mk('matsv', n, m, *[x.t for x in els])
        if b:
            return [S('f', mk('sv', M, k), 0.0, INF, 1, 0, True) for k in range(p)], M
        if p == 1:
            s = self.s_sqrt(self.sum_els([self.s_mul(x, x, 'f', True) for x in els]))
            return [s], M
        los, his = self.sv_bounds(n, m, els)
        out = []
        for k in range(p):
            if los[k] == his[k]:
                out.append(num(float(los[k]), True))
            else:
                out.append(S('f', mk('sv', M, k), los[k], his[k], np=True))
        return out, M

    def opq_mat(self, op, M, n, m, lo, hi, zero=None, nan=0):
        out = []
        for i in range(n):
            for j in range(m):
                if zero and zero(i, j):
                    out.append(num(0.0, True))
                    continue
                t = mk(op, M, i, j)
                t.lo, t.hi = max(t.lo, lo), min(t.hi, hi)
                out.append(S('f', t, lo, hi, nan=nan, np=True))
        return self.new_arr(out, (n, m), 'f')

    def np_linalg_svd(self, v, full_matrices=None, compute_uv=None, hermitian=None):
        n, m, els = self.mat2(v)
        full = True if full_matrices is None else self.truth(full_matrices)[0]
        uv = True if compute_uv is None else self.truth(compute_uv)[0]
        s, M = self.svals(n, m, els)
        sa = self.new_arr(s, (len(s),), 'f')
        if not uv:
            return sa
        p = min(n, m)
        return Tup((self.opq_mat('svdu', M, n, n if full else p, -1.0, 1.0), sa,
                    self.opq_mat('svdv', M, m if full else p, m, -1.0, 1.0)))

    def np_linalg_matrix_rank(self, v, tol=None, hermitian=None, **kw):
        a = self.to_arr(v)
        rec = self.arr(a)
        if len(rec.shape) < 2:
            r = self.np_any(a)
            return self.cast(self.as_bool(r), 'i').cp(np=False)
        n, m, els = self.mat2(a)
        s, M = self.svals(n, m, els)
        if tol is None:
            if not s:
                return num(0, True)
            tol = self.s_mul(s[0], num(max(n, m) * 2.220446049250313e-16, True), 'f', True)
            if s[0].hi == 0:
                return num(0, True)
        else:
            tol = self.scalar_arg(tol)
        lo = hi = 0
        for k, x in enumerate(s):
            c = self.s_cmp('gt', x, tol)
            if c.bv is None:
                # relative default tolerance: compare bounds
                xl, xh = self.iv(x)
                tl, th = self.iv(tol)
                r = True if xl > th else (False if xh <= tl else None)
            else:
                r = c.bv
            if r is not False:
                hi += 1
            if r is True:
                lo += 1
        if lo == hi:
            return num(lo, True)
        t = mk('rank', M, tol.t)
        t.meta = 'int'
        t.lo, t.hi = 0.0, float(min(n, m))
        return S('i', t, float(lo), float(hi), np=True)

    def det_s(self, n, els):
        b = self.bad(els)
        if b:
            return S('f', mk('det', mk('mat', n, *[x.t for x in els])), nan=1, fin=0, np=True)
        if n == 0:
            return num(1.0, True)
        if n <= 3:
            def det(rows, cols):
                if len(rows) == 1:
                    return els[rows[0] * n + cols[0]]
                r = None
                for q, c in enumerate(cols):
                    z = self.s_mul(els[rows[0] * n + c], det(rows[1:], cols[:q] + cols[q + 1:]), 'f', True)
                    r = z if r is None else self.s_add(r, z, 'f', True, -1 if q % 2 else 1)
                return r
            d = det(list(range(n)), list(range(n)))
        else:
            diag = all(cval(els[i * n + j].t) == 0 for i in range(n) for j in range(n) if i != j)
            if diag:
                d = num(1.0, True)
                for i in range(n):
                    d = self.s_mul(d, els[i * n + i], 'f', True)
            else:
                d = S('f', mk('det', mk('mat', n, *[x.t for x in els])), np=True)
        if self.is_symm(n, els):
            bounds, _ = self.eig_bounds(n, els)
            iv = (1.0, 1.0)
            for x in bounds:
                iv = i_mul(iv, x)
            i2 = i_meet((d.lo, d.hi), iv)
            d = d.cp(lo=i2[0], hi=i2[1])
        return d.cp(np=True)

    def np_linalg_det(self, v):
        n, els = self.sqmat(v)
        if any(x.k == 'c' for x in els):
            raise NoModel('complex det')
        return self.det_s(n, els)

    def inv_els(self, n, els, pseudo=False):
        b = self.bad(els)
        diag = all(cval(els[i * n + j].t) == 0 for i in range(n) for j in range(n) if i != j)
        nanf = 1 if b else 0
        if not b:
            zero_line = any(all(cval(els[i * n + j].t) == 0 for j in range(n)) for i in range(n)) or \
                any(all(cval(els[i * n + j].t) == 0 for i in range(n)) for j in range(n))
            if zero_line and not pseudo:
                self.py_raise('LinAlgError', 'Singular matrix', internal=True)
            if diag and not zero_line:
                out = []
                for i in range(n):
                    for j in range(n):
                        out.append(self.s_div(num(1.0, True), els[i * n + i], True) if i == j else num(0.0, True))
                return out
            if diag and pseudo:
                return [self.s_div(num(1.0, True), els[i * n + i], True) if i == j and cval(els[i * n + i].t) != 0
                        else num(0.0, True) for i in range(n) for j in range(n)]
        symm = self.is_symm(n, els)
        M = self.symterm(n, els) if symm else mk('mat', n, *[x.t for x in els])
        lo, hi = -INF, INF
        off = INF
        dn = (-INF, INF)
        if symm and not b:
            bounds, _ = self.eig_bounds(n, els)
            if bounds[0][0] > 0:
                dn = (1.0 / bounds[-1][1] if bounds[-1][1] else 0.0, 1.0 / bounds[0][0])
                off = (dn[1] - dn[0]) / 2
        out = []
        for i in range(n):
            for j in range(n):
                p, q = (max(i, j), min(i, j)) if symm else (i, j)
                t = mk('inv' if not pseudo or dn[0] > 0 else 'pinv', M, p, q)
                r = dn if i == j else (-off, off)
                out.append(S('f', t, r[0], r[1], nan=nanf, fin=0 if b else 1, np=True))
        return out

    def np_linalg_inv(self, v):
        n, els = self.sqmat(v)
        if any(x.k == 'c' for x in els):
            raise NoModel('complex inv')
        return self.new_arr(self.inv_els(n, els), (n, n), 'f')

    def np_linalg_pinv(self, v, rcond=None, hermitian=None):
        sa = self.to_arr(v)
        sh = self.arr(sa).shape
        if len(sh) == 3:
            el = self.elems(sa)
            p, q = sh[1], sh[2]
            out = []
            for i in range(sh[0]):
                out += self.elems(self.np_linalg_pinv(self.new_arr(el[i * p * q:(i + 1) * p * q], (p, q), 'f'), rcond))
            return self.new_arr(out, (sh[0], q, p), 'f')
        n, m, els = self.mat2(v)
        rc = self.use(rcond) if rcond is not None else None
        if isinstance(rc, S):
            c = cval(rc.t)
            if c is None or c > 1e-6:
                if self.bad(els) == 2:
                    self.py_raise('LinAlgError', 'SVD did not converge', internal=True)
                M = mk('rmat', n, m, *[x.t for x in els])
                return self.opq_mat('pinvr', mk('pair', rc.t, M), m, n, -INF, INF, nan=1 if self.bad(els) else 0)
        if n == m:
            return self.new_arr(self.inv_els(n, els, True), (n, n), 'f')
        if self.bad(els) == 2:
            self.py_raise('LinAlgError', 'SVD did not converge', internal=True)
        M = mk('rmat', n, m, *[x.t for x in els])
        return self.opq_mat('pinv', M, m, n, -INF, INF, nan=1 if self.bad(els) else 0)

    def np_linalg_solve(self, a, b):
        n, els = self.sqmat(a)
        inv = self.new_arr(self.inv_els(n, els), (n, n), 'f')
        return self.matmul(inv, b)

    def np_linalg_lstsq(self, a, b, rcond=NOARG):
        if rcond is NOARG:
            self.event('effect', cat='warn', what='FutureWarning: lstsq without rcond')
        n, m, els = self.mat2(a)
        if self.bad(els) == 2:
            self.py_raise('LinAlgError', 'SVD did not converge in Linear Least Squares', internal=True)
        ba = self.to_arr(b)
        if self.arr(ba).shape[:1] != (n,):
            self.py_raise('LinAlgError', 'Incompatible dimensions', internal=True)
        x = self.matmul(self.np_linalg_pinv(a, rcond), ba)
        s, M = self.svals(n, m, els)
        res = self.new_arr([], (0,), 'f') if n <= m else self.top('lstsq_res', [a, b], 'ndarray')
        return Tup((x, res, self.np_linalg_matrix_rank(a), self.new_arr(s, (len(s),), 'f')))

    def np_linalg_qr(self, v, mode='reduced'):
        n, m, els = self.mat2(v)
        b = self.bad(els)
        M = mk('qrmat', n, m, *[x.t for x in els])
        p = min(n, m)
        k = n if mode == 'complete' else p
        fro = math.sqrt(sum(max(abs(q) for q in self.iv(x)) ** 2 for x in els)) if not b else INF
        q = self.opq_mat('qrq', M, n, k, -1.0, 1.0, nan=1 if b else 0)
        r = self.opq_mat('qrr', M, k, m, -fro, fro, lambda i, j: i > j, nan=1 if b else 0)
        if mode == 'r':
            return r
        return Tup((q, r))

    def np_linalg_cholesky(self, v):
        n, els = self.sqmat(v)
        M = self.symterm(n, els)
        return self.opq_mat('chol', M, n, n, -INF, INF, lambda i, j: j > i)

    def np_linalg_norm(self, v, ord=None, axis=None, keepdims=None):
        a = self.to_arr(v)
        rec = self.arr(a)
        c = pyconst(ord) if isinstance(ord, S) else ord
        sq = lambda e: self.s_sqrt(self.cast(self.sum_els([self.s_mul(self.s_abs(x) if x.k == 'c' else x,
                                                                      self.s_abs(x) if x.k == 'c' else x, 'f', True)
                                                           for x in e]), 'f'))
        nd = len(rec.shape)
        if rec.dtype == 'O':
            raise NoModel('norm of objects')
        if axis is None and (ord is None or c == 'fro'):
            r = sq(self.elems(a))
            if keepdims is not None and self.truth(keepdims)[0]:
                return self.new_arr([r], (1,) * nd, 'f')
            return self.scalar(r)
        if axis is None and nd == 2:
            ab = self.np_abs(a)
            if c == INF or c == -INF:
                return (self.np_max if c > 0 else self.np_min)(self.np_sum(ab, num(1)))
            if c == 1 or c == -1:
                return (self.np_max if c > 0 else self.np_min)(self.np_sum(ab, num(0)))
            if c == 2:
                n, m, els = self.mat2(a)
                return self.svals(n, m, els)[0][0]
            raise NoModel('norm ord')
        if axis is not None and isinstance(axis, Tup):
            raise NoModel('norm axis tuple')
        if ord is None or c == 2:
            return self.reduce(a, axis, keepdims, sq, 'f')
        ab = self.np_abs(a)
        if c == INF:
            return self.np_max(ab, axis, keepdims)
        if c == -INF:
            return self.np_min(ab, axis, keepdims)
        if c == 1:
            return self.np_sum(ab, axis, keepdims=keepdims)
        raise NoModel('norm ord')


def _mkfun(n):
    def f(self, v):
        return self.map1(lambda x: self.s_fun(n, x, True), v)
    return f


for _n in NpModel.MATH1:
    setattr(NpModel, 'np_' + _n, _mkfun(_n))
for _n, _k in (('float64', 'f'), ('double', 'f'), ('float_', 'f'), ('int64', 'i'), ('int32', 'i'), ('int_', 'i'),
               ('bool_', 'b'), ('complex128', 'c'), ('float', 'f'), ('int', 'i'), ('bool', 'b')):
    def _mkc(k):
        def f(self, v=None, *a):
            if v is None:
                return self.cast(num(0), k).cp(np=True)
            v = self.use(v)
            if isinstance(v, S):
                return self.cast(v, k).cp(np=True)
            if isinstance(v, Top):
                raise NoModel('cast')
            return self.to_arr(v, k, True)
        return f
    setattr(NpModel, 'np_' + _n, _mkc(_k))
