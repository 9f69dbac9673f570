"""C25: algebra of stacks of matrices, slice by slice."""
import ast
from ..catalog import GEN, MV, SMV, YMV, arr3, symm3
from .c14 import eig2
from .c24 import *
from .c26 import inverse

RULE = ('Closed forms and identity test of value numbers: every operation on stacks of matrices gives, in slice t of the result, '
        'the matrix operation applied to slice t of the arguments (a single matrix or a one-slice operand counts for every '
        'slice), with dense, sparse and spectral evaluation alike; shapes, orientation and order of the slices included.')
FLOOR = 60
GENMOD = 'ellipy.gras.gen.gen'


def lam(b, src):
    """an analysed caller-supplied function"""
    E = b.E
    save = E.frame
    E.frame = E.load_module(GENMOD).frame
    try:
        return E.ev(ast.parse(src, mode='eval').body)
    finally:
        E.frame = save


def stack(b, name, n, m, k, lo=-1.0, hi=1.0):
    """(array, list of slices as Forms); k None: a single matrix"""
    if k is None:
        a = b.mat(name, n, m, lo, hi)
    else:
        a = arr3(b, name, n, m, k, lo, hi)
    return a, slices(b, a)


def spd(b, name, n, k):
    a = b.symm(name, n) if k is None else symm3(b, name, n, k)
    return a, slices(b, a)


def slices(b, a):
    sh = b.shape(a)
    if len(sh) == 2:
        return [fm(b, a)]
    n, m, k = sh
    e = [Form(x) for x in b.els(a)]
    return [[[e[(i * m + j) * k + t] for j in range(m)] for i in range(n)] for t in range(k)]


def check(b, name, r, want, dims=3, what=''):
    """want: list of matrices; dims: number of axes of the result"""
    n, m = len(want[0]), len(want[0][0])
    if dims == 2:
        agree(b, name, r, unroll(want[0]), (n, m), what)
    else:
        agree(b, name, r, [w[i][j] for i in range(n) for j in range(m) for w in want], (n, m, len(want)), what)


def at(s, t):
    return s[t if len(s) > 1 else 0]


def unary(b, op, n, m, k):
    if op in ('make_symmetric', 'triu'):
        a, s = stack(b, 'A', n, n, k)
    else:
        a, s = stack(b, 'A', n, m, k)
    r = returns(b, lambda: b.meth(b.get(MV), op, a))
    if op == 'transpose':
        w = [tr(x) for x in s]
    elif op == 'make_symmetric':
        w = [[[(x[i][j] + x[j][i]) * Form(num(0.5)) for j in range(n)] for i in range(n)] for x in s]
    else:
        w = [[[x[i][j] if i <= j else Form(num(0.0)) for j in range(n)] for i in range(n)] for x in s]
    check(b, op, r, w)


def inv(b, op, n, k, sym):
    if sym:
        a, s = spd(b, 'A', n, k)
    else:
        e = []
        kk = k or 1
        for i in range(n):
            for j in range(n):
                for t in range(kk):
                    lo, hi = ((2.0, 3.0), (0.1, 0.5), (-0.6, -0.2))[0 if i == j else 1 if i < j else 2]
                    e.append(b.num('A%d%d%d' % (i, j, t), lo, hi, np=True))
        a = b.E.new_arr(e, (n, n, k) if k else (n, n), 'f')
        s = slices(b, a)
    r = returns(b, lambda: b.meth(b.get(SMV), op, a))
    check(b, op, r, [inverse(x) for x in s], 3 if k or op == 'pinv' else 2)


def rect_pinv(b, n, m, k):
    a, s = stack(b, 'A', n, m, k, 0.5, 2.0)
    r = returns(b, lambda: b.meth(b.get(MV), 'pinv', a))
    if tuple(b.shape(r) or ()) != (m, n, k or 1):
        b.ob('matrix shape', False, 'pinv %s' % (b.shape(r),))
        return
    for t, (x, q) in enumerate(zip(slices(b, r), s)):
        for name, u, v in (('A pinv(A) A = A', mm(mm(q, x), q), q), ('symmetric', mm(q, x), tr(mm(q, x))),
                           ('pinv(A) A pinv(A) = pinv(A)', mm(mm(x, q), x), x), ('symmetric', mm(x, q), tr(mm(x, q)))):
            state(b, name, join(scalar(b, y, z) for y, z in zip(unroll(u), unroll(v))), 'slice %d' % t)


def root(b, n, k):
    a, s = spd(b, 'A', n, k)
    r = returns(b, lambda: b.meth(b.get(SMV), 'sqrtm_pos', a))
    sh = tuple(b.shape(r) or ())
    if sh != ((n, n, k) if k else (n, n)):
        b.ob('matrix shape', False, 'root %s' % (sh,))
        return
    for t, (x, q) in enumerate(zip(slices(b, r), s)):
        state(b, 'squares to the slice', join(scalar(b, u, v) for u, v in zip(unroll(mm(x, x)), unroll(q))), 'slice %d' % t)
        state(b, 'symmetric', join(scalar(b, u, v) for u, v in zip(unroll(x), unroll(tr(x)))), 'slice %d' % t)


def definite(b, op, n, k, pats, val=None):
    """slices diag-like with eigenvalue patterns: p positive, n negative in the first eigenvalue (rotated by a fixed angle)"""
    kk = k or 1
    E = b.E
    q = [[float(i == j) for j in range(n)] for i in range(n)] if 'z' in pats else {1: [[1.0]], 2: [[0.6, -0.8], [0.8, 0.6]], 3: [[2 / 3, -1 / 3, 2 / 3], [2 / 3, 2 / 3, -1 / 3], [-1 / 3, 2 / 3, 2 / 3]]}[n]
    els, want = {}, []
    value = b.num('value', 0.1, 0.2) if val else None
    for t in range(kk):
        e = [num(0.0, True) if pats[t] == 'z' and not i else b.num('e%d%d' % (i, t), *((0.5 + i, 1.0 + i) if i or pats[t] == 'p' else (-1.0, -0.5)), np=True) for i in range(n)]
        for i in range(n):
            for j in range(i + 1):
                x = None
                for h in range(n):
                    y = E.binop('Mult', num(q[i][h] * q[j][h], True), e[h])
                    x = y if x is None else E.binop('Add', x, y)
                els[i, j, t] = els[j, i, t] = x
        m = [[Form(els[i, j, t]) for j in range(n)] for i in range(n)]
        if pats[t] in 'pz':
            want.append(m)
        elif op == 'make_pos_definite_or_nan':
            want.append([[num(float('nan'), True)] * n for _ in range(n)])
        else:
            v = (Form(value) if val else Form(num(1e-12))) - Form(e[0])
            want.append([[m[i][j] + Form(num(q[i][0] * q[j][0])) * v for j in range(n)] for i in range(n)])
    a = E.new_arr([els[i, j, t] for i in range(n) for j in range(n) for t in range(kk)], (n, n, k) if k else (n, n), 'f')
    args = [a] + ([value] if val else [])
    r = returns(b, lambda: b.meth(b.get(SMV), op, *args))
    check(b, op, r, want, 3 if k else 2)


def rmul(b, na, ma, k, nb, mb, kb, sparse, c=None):
    a, s = stack(b, 'A', na, ma, k)
    x, q = stack(b, 'B', nb, mb, kb)
    kw = {} if sparse is None else dict(use_sparse_matrix=boolv(sparse))
    args = [a, x]
    mul = lambda u, v: [[u[0][0] * y for y in r] for r in v] if len(u) == 1 and len(u[0]) == 1 else \
        [[v[0][0] * y for y in r] for r in u] if len(v) == 1 and len(v[0]) == 1 else mm(u, v)
    want = [mul(s[t], at(q, t)) for t in range(k)]
    if c:
        z, w = stack(b, 'C', *c)
        args.append(z)
        want = [mul(want[t], at(w, t)) for t in range(k)]
    r = returns(b, lambda: b.meth(b.get(MV), 'r_multiply', *args, **kw))
    check(b, 'product', r, want)


def byvec(b, n, m, k, sparse):
    a, s = stack(b, 'A', n, m, k)
    v = b.mat('B', m, k)
    f = fm(b, v)
    args = [] if sparse is None else [boolv(sparse)]
    r = returns(b, lambda: b.meth(b.get(MV), 'r_multiply_by_vec', a, v, *args))
    cols = [mm(s[t], [f[i][t] for i in range(m)]) for t in range(k)]
    agree(b, 'product', r, [cols[t][i] for i in range(n) for t in range(k)], (n, k))


def lr(b, op, n, m, kb, ka, flag):
    """B: n x n (kb slices), A: n x m for 'R', m x n for 'L'"""
    cl = SMV if op == 'lr_multiply' else YMV
    x, s = spd(b, 'B', n, kb) if op == 'lr_svd_multiply' else stack(b, 'B', n, n, kb)
    a, q = stack(b, 'A', n if flag != 'L' else m, m if flag != 'L' else n, ka)
    args = [] if flag is None else [flag]
    r = returns(b, lambda: b.meth(b.get(cl), op, x, a, *args))
    T = max(len(s), len(q))
    w = [mm(mm(at(q, t), at(s, t)), tr(at(q, t))) if flag == 'L' else mm(mm(tr(at(q, t)), at(s, t)), at(q, t)) for t in range(T)]
    check(b, op, r, w, 2 if op == 'lr_multiply' and kb is None else 3, flag or 'default')


def forms(b, op, n, kb, k, flat_=False):
    """x'Bx or x'inv(B)x per slice and vector"""
    spectral = 'svd' in op
    x, s = spd(b, 'B', n, kb) if op != 'lr_multiply_by_vec' else stack(b, 'B', n, n, kb)
    v = b.vec('A', n) if flat_ else b.mat('A', n, k)
    f = fm(b, v)
    cols = [f] if flat_ else tr(f)
    r = returns(b, lambda: b.meth(b.get(YMV if spectral else SMV), op, x, v))
    div = 'divide' in op
    mats = [inverse(u) for u in s] if div else s
    if op == 'lr_divide_vec' and kb is None:
        w = [[dot(p, mm(mats[0], q)) for q in cols] for p in cols]
        agree(b, op, r, unroll(w), (len(cols), len(cols)))
        return
    T = max(len(cols), len(mats))
    want = [dot(at(cols, t), mm(at(mats, t), at(cols, t))) for t in range(T)]
    agree(b, op, r, want, (T,) if div else (1, T))


def spec_vec(b, n, k):
    x, s = spd(b, 'B', n, k)
    v = b.mat('A', n, k or 1)
    cols = tr(fm(b, v))
    r = returns(b, lambda: b.meth(b.get(YMV), 'r_svd_multiply_by_vec', x, v))
    w = [mm(s[t], cols[t]) for t in range(len(s))]
    agree(b, 'product', r, [w[t][i] for i in range(n) for t in range(len(s))], (n, len(s)))


def evalf(b, how, n, m, k):
    a, s = stack(b, 'A', n, m, k)
    src, f = {'scalar': ('lambda x: x[0, 0] - 2.0 * x[-1, -1]', lambda x: x[0][0] - Form(num(2.0)) * x[-1][-1]),
              'same': ('lambda x: 2.0 * x + x[0, 0]', lambda x: [[Form(num(2.0)) * y + x[0][0] for y in r] for r in x]),
              'list': ('lambda x: x.T', tr)}[how]
    fn = lam(b, src)
    kw = {'scalar': {}, 'same': dict(keep_size=boolv(True)), 'list': dict(uniform_output=boolv(False))}[how]
    r = returns(b, lambda: b.meth(b.get(MV), 'eval_func', fn, a, **kw))
    if how == 'scalar':
        agree(b, 'value per slice', r, [f(x) for x in s], (len(s),))
    elif how == 'same':
        check(b, 'value per slice', r, [f(x) for x in s])
    else:
        el = list(b.E.iterate(r)) if isinstance(r, Ref) and r.kind == 'list' else []
        b.ob('count', len(el) == len(s), '%d of %d' % (len(el), len(s)))
        for t, (x, y) in enumerate(zip(el, s)):
            check(b, 'value per slice', x, [f(y)], 2, 'slice %d' % t)


def fromf(b, how, k, ts):
    src, f, sh = {'number': ('lambda t: 2.0 * t - 1.0', lambda t: [[Form(num(2.0)) * t - Form(num(1.0))]], (1, 1)),
                  'vector': ('lambda t: np.array([t, 2.0 * t, 1.0])', lambda t: [[t], [Form(num(2.0)) * t], [Form(num(1.0))]], (3, 1)),
                  'matrix': ('lambda t: np.array([[t, 2.0], [3.0, t * t], [5.0, -t]])',
                             lambda t: [[t, Form(num(2.0))], [Form(num(3.0)), t * t], [Form(num(5.0)), -t]], (3, 2))}[how]
    fn = lam(b, src)
    vs, t = times(b, k, ts)
    r = returns(b, lambda: b.meth(b.get(MV), 'from_func', fn, t))
    check(b, 'value at every time', r, [f(Form(v)) for v in vs])


EXPR = {'t': lambda t: [[t]], '2': lambda t: [[Form(2)]], '[t, 1]': lambda t: [[t, Form(1)]],
        'sin(t), t * t': lambda t: [[Form(mk('sin', t.t)), t * t]],
        '[[cos(t), 2], [t, 3 - t]]': lambda t: [[Form(mk('cos', t.t)), Form(2)], [t, Form(3) - t]],
        '[[1, 2], [3, 4], [5, 6]]': lambda t: [[Form(1), Form(2)], [Form(3), Form(4)], [Form(5), Form(6)]],
        '[[1], [t]]': lambda t: [[Form(1)], [t]]}


def times(b, k, ts):
    vs = [b.num('t%d' % i, -1.0, 1.0, np=ts != 'list') for i in range(k)]
    return vs, {'number': lambda: vs[0], 'list': lambda: b.lst(vs), 'flat': lambda: b.E.new_arr(vs, (k,), 'f'),
                'col': lambda: b.E.new_arr(vs, (k, 1), 'f'), 'row': lambda: b.E.new_arr(vs, (1, k), 'f')}[ts]()


def expression(b, src, k, ts):
    vs, t = times(b, k, ts)
    r = returns(b, lambda: b.meth(b.get(MV), 'from_expression', src, t))
    check(b, 'value at every time', r, [EXPR[src](Form(v)) for v in vs])


def formula(b, shape, k, ts):
    """array of expressions"""
    src = {(1,): ['2 * t'], (2,): ['t', '1'], (2, 2): ['cos(t)', '2', 't', '-t'], (1, 3): ['1', 't', '2 * t'], (2, 1): ['t', '3']}[shape]
    f = {'2 * t': lambda t: Form(2) * t, 't': lambda t: t, '1': lambda t: Form(1), 'cos(t)': lambda t: Form(mk('cos', t.t)),
         '2': lambda t: Form(2), '-t': lambda t: -t, '3': lambda t: Form(3)}
    vs, t = times(b, k, ts)
    x = b.E.new_arr(src, shape, 'O')
    r = returns(b, lambda: b.meth(b.get(MV), 'from_formula_mat', x, t))
    n, m = shape[0], shape[1] if len(shape) > 1 else 1
    check(b, 'value at every time', r, [[[f[src[i * m + j]](Form(v)) for j in range(m)] for i in range(n)] for v in vs])


def matdot(b, n, k):
    """sum over slices of products, divided by the number of rows"""
    a, s = stack(b, 'A', n, n, k)
    c, q = stack(b, 'B', n, n, k)
    r = returns(b, lambda: b.call(GEN + 'mat_dot', a, c))
    w = [dot(unroll(x), unroll(y)) / Form(n) for x, y in zip(s, q)]
    agree(b, 'scalar product', r, w, (1, 1, k) if k else (1, 1))


def scenarios(tier):
    deep = tier != 'quick'
    ks = [None, 1, 2, 3]
    for k in ks:
        for n, m in ((1, 1), (2, 2), (2, 3), (3, 2), (1, 3)) + (((3, 3), (3, 1), (4, 2)) if deep else ()):
            yield sc('transpose/%dx%d,%s' % (n, m, k), unary, 'transpose', n, m, k)
        for n in (1, 2, 3):
            yield sc('triu/%d,%s' % (n, k), unary, 'triu', n, n, k)
            yield sc('make_symmetric/%d,%s' % (n, k), unary, 'make_symmetric', n, n, k)
            yield sc('mat_dot/%d,%s' % (n, k), matdot, n, k)
            for op in ('inv', 'pinv'):
                for sym in (False, True):
                    if n < 3 or deep or k in (None, 2):
                        yield sc('%s/%d,%s,%s' % (op, n, k, sym), inv, op, n, k, sym, narrow=0.02)
        for n, m in ((2, 1), (1, 2), (1, 3), (3, 2), (2, 3)):
            yield sc('pinv/%dx%d,%s' % (n, m, k), rect_pinv, n, m, k, narrow=0.02)
        for n in (1, 2) + ((3,) if deep else ()):
            yield sc('sqrtm_pos/%d,%s' % (n, k), root, n, k, narrow=0.02)
        kk = k or 1
        for n in (1, 2, 3):
            for pats in {1: ('p', 'n', 'z'), 2: ('pn', 'np', 'pp', 'nn', 'zn', 'pz'), 3: ('pnp', 'npn', 'nnp', 'zzn')}[kk]:
                for op in ('make_pos_definite_or_nan', 'make_pos_definite_by_eig'):
                    yield sc('%s/%d,%s,%s' % (op, n, k, pats), definite, op, n, k, pats, narrow=0.02)
                yield sc('make_pos_definite_by_eig(value)/%d,%s,%s' % (n, k, pats), definite, 'make_pos_definite_by_eig', n, k, pats,
                         True, narrow=0.02)
    for sp in (None, False, True):
        for k in (1, 2, 3):
            for n, m, p in ((2, 2, 2), (2, 3, 2), (3, 2, 1), (1, 2, 3), (2, 1, 2)) + (((3, 3, 3), (1, 3, 1)) if deep else ()):
                for kb in {k, 1}:
                    yield sc('r_multiply/%d%d%d,%d,%s,%s' % (n, m, p, k, kb, sp), rmul, n, m, k, m, p, kb, sp)
                yield sc('r_multiply/%d%d%d,%d,matrix,%s' % (n, m, p, k, sp), rmul, n, m, k, m, p, None, sp)
            for n, m in ((2, 3), (2, 2), (1, 1)):
                yield sc('r_multiply/scalar left/%d%d,%d,%s' % (n, m, k, sp), rmul, 1, 1, k, n, m, k, sp)
                yield sc('r_multiply/scalar right/%d%d,%d,%s' % (n, m, k, sp), rmul, n, m, k, 1, 1, k, sp)
                yield sc('r_multiply/scalar right matrix/%d%d,%d,%s' % (n, m, k, sp), rmul, n, m, k, 1, 1, None, sp)
            for n, m, p, q in ((2, 2, 2, 2), (2, 3, 2, 3), (3, 1, 2, 1), (1, 2, 3, 2)):
                yield sc('r_multiply/three/%d%d%d%d,%d,%s' % (n, m, p, q, k, sp), rmul, n, m, k, m, p, k, sp, (p, q, k))
            yield sc('r_multiply/three/scalar left,%d,%s' % (k, sp), rmul, 1, 1, k, 2, 3, k, sp, (3, 2, k))
            yield sc('r_multiply/three/two scalars,%d,%s' % (k, sp), rmul, 1, 1, k, 1, 1, k, sp, (3, 2, k))
            for n, m in ((2, 2), (3, 2), (2, 3), (1, 2), (2, 1), (1, 1)):
                yield sc('r_multiply_by_vec/%d%d,%d,%s' % (n, m, k, sp), byvec, n, m, k, sp)
    for op in ('lr_multiply', 'lr_svd_multiply'):
        nr = 0.02 if 'svd' in op else 0.0
        for flag in (None, 'R', 'L'):
            for n, m in ((2, 2), (2, 3), (2, 1), (1, 2), (3, 2)):
                if n == 3 and 'svd' in op and not deep:
                    continue
                for kb, ka in ((None, None), (1, 1), (2, 2), (3, 3), (2, None), (3, None), (1, None), (None, 1)):
                    yield sc('%s/%s,%d%d,%s,%s' % (op, flag, n, m, kb, ka), lr, op, n, m, kb, ka, flag, narrow=nr)
    for op in ('lr_multiply_by_vec', 'lr_divide_vec', 'lr_svd_multiply_by_vec', 'lr_svd_divide_vec'):
        nr = 0.0 if op == 'lr_multiply_by_vec' else 0.02
        for n in (1, 2, 3):
            if n == 3 and nr and not deep:
                continue
            for kb, k in ((None, 1), (1, 1), (2, 2), (3, 3)) + (((None, 2), (None, 3)) if 'svd' not in op else ()) + \
                    (((2, 1), (3, 1)) if op == 'lr_divide_vec' else ()):
                yield sc('%s/%d,%s,%d' % (op, n, kb, k), forms, op, n, kb, k, narrow=nr)
            if 'svd' not in op:
                yield sc('%s/%d,flat' % (op, n), forms, op, n, None, 1, True, narrow=nr)
                yield sc('%s/%d,flat,1' % (op, n), forms, op, n, 1, 1, True, narrow=nr)
    for n in (1, 2) + ((3,) if deep else ()):
        for k in ks:
            yield sc('r_svd_multiply_by_vec/%d,%s' % (n, k), spec_vec, n, k, narrow=0.02)
    for how in ('scalar', 'same', 'list'):
        for n, m in ((1, 1), (2, 2), (2, 3), (3, 1)):
            for k in ks:
                yield sc('eval_func/%s/%d%d,%s' % (how, n, m, k), evalf, how, n, m, k)
    for how in ('number', 'vector', 'matrix'):
        for k, ts in ((1, 'number'), (1, 'flat'), (2, 'flat'), (3, 'list'), (3, 'row'), (2, 'col')):
            yield sc('from_func/%s/%d,%s' % (how, k, ts), fromf, how, k, ts)
    for k, ts in ((1, 'number'), (1, 'flat'), (2, 'flat'), (3, 'list'), (3, 'row'), (2, 'col')):
        for src in EXPR:
            yield sc('from_expression/%s/%d,%s' % (src, k, ts), expression, src, k, ts)
        for shape in ((1,), (2,), (2, 2), (1, 3), (2, 1)):
            yield sc('from_formula_mat/%s/%d,%s' % ('x'.join(map(str, shape)), k, ts), formula, shape, k, ts)
