"""C17: matrix roots, regularisation and the other numeric primitives."""
from .c14 import det, diagm, eig2
from .c24 import *
from ..values import cplx

RULE = ('Identity test of value numbers against the defining equations: the root S of Q is symmetric with non-negative leading '
        'minors and SS = Q (eigenvalues negative within the tolerance count as zero); the regularised matrix R of Q has '
        '(R-Q)(R-tol I) = 0 and the trace the clipped eigenvalues have, likewise with singular values; simultaneous '
        'diagonalisation gives TAT\' = I and TBT\' diagonal; elementwise roots, real parts, the scalar product and the '
        'fusion equation have their closed forms.')
FLOOR = 60


def eye(n, x=1):
    return [[Form(x) if i == j else Form(0) for j in range(n)] for i in range(n)]


def sub(a, c):
    return [[x - y for x, y in zip(p, q)] for p, q in zip(a, c)]


def matrix(b, r, n, name, m=None):
    r = b.E.use(r)
    if isinstance(r, Top):
        b.ob(name, None, 'unknown value')
        return None
    if tuple(b.shape(r) or ()) != (n, m or n):
        b.ob('matrix shape', False, '%s shape %s, required %s' % (name, b.shape(r), (n, m or n)))
        return None
    if any(not isinstance(x, S) for x in b.els(r)):
        b.ob(name, None, 'not numbers')
        return None
    return fm(b, r)


def zero(b, name, m, tag=''):
    state(b, name, join(scalar(b, x, Form(0)) for x in unroll(m)), tag)


def equal(b, name, m, w, tag=''):
    state(b, name, join(scalar(b, x, y) for x, y in zip(unroll(m), unroll(w))), tag)


def rotated(b, n, los, names='ab'):
    """symmetric matrix with eigenvalues of the given ranges, rotated in the first two coordinates by an exact angle"""
    vals = [b.num('e%d' % i, *r) for i, r in enumerate(los)]
    e = [Form(x) for x in vals]
    c, s = Form(num(0.6)), Form(num(0.8))
    rot = eye(n)
    rot[0][0], rot[0][1], rot[1][0], rot[1][1] = c, -s, s, c
    d = [[e[i] if i == j else Form(0) for j in range(n)] for i in range(n)]
    return e, mm(mm(rot, d), tr(rot)), rot


def spectral(b, n, los, kind):
    """(eigenvalues, matrix as Forms, abstract array, eigenbasis) of a symmetric matrix with eigenvalues in the given ranges"""
    E = b.E
    vals = [b.num('e%d' % i, *r, np=True) for i, r in enumerate(los)]
    e = [Form(x) for x in vals]
    if kind == 'diag' or n == 1:
        return e, [[e[i] if i == j else Form(0) for j in range(n)] for i in range(n)], diagm(b, vals), eye(n)
    k = num(0.28, True), num(0.96, True)
    a0, a1 = vals[0], vals[1]
    sq = lambda x: E.binop('Mult', x, x)
    mul = lambda x, y: E.binop('Mult', x, y)
    c2, s2, cs = sq(k[0]), sq(k[1]), mul(k[0], k[1])
    p = E.binop('Add', mul(c2, a0), mul(s2, a1))
    q = E.binop('Add', mul(s2, a0), mul(c2, a1))
    o = mul(cs, E.binop('Sub', a0, a1))
    els = [[num(0.0, True)] * n for _ in range(n)]
    els[0][0], els[1][1], els[0][1], els[1][0] = p, q, o, o
    for i in range(2, n):
        els[i][i] = vals[i]
    arr = E.new_arr([x for r in els for x in r], (n, n), 'f')
    rot = eye(n)
    c, s = Form(k[0]), Form(k[1])
    rot[0][0], rot[0][1], rot[1][0], rot[1][1] = c, -s, s, c
    return e, fm(b, arr), arr, rot


def recompose(e, rot):
    n = len(e)
    return mm(mm(rot, [[e[i] if i == j else Form(0) for j in range(n)] for i in range(n)]), tr(rot))


def root(b, n, kind, low, tol):
    """low: ranges of the first eigenvalue"""
    if kind == 'full':
        arr = b.symm('Q', n)
        q = fm(b, arr)
        e = None
    else:
        e, q, arr, rot = spectral(b, n, [low] + [(0.5, 2.0)] * (n - 1), kind)
    args = [arr] + ([b.num('tol', *tol)] if tol else [])
    s = matrix(b, returns(b, lambda: b.call(LA + 'sqrtm_pos', *args)), n, 'root')
    if not s:
        return
    equal(b, 'symmetric', s, tr(s))
    if e is None:
        equal(b, 'squares to the matrix', mm(s, s), q)
    else:
        z = Form(num(0.0))
        w = [x if i or low[0] >= 0 else z for i, x in enumerate(e)]
        equal(b, 'root', s, recompose([x.sqrt() for x in w], rot))
    rs = []
    for k in range(1, n + 1):
        m = det([r[:k] for r in s[:k]])
        rs.append(scalar(b, m, m.abs()))
    if low[0] > 0:
        state(b, 'positive', join(rs))


def sqrts(b, form, kind, tol):
    rng = {'pos': (0.5, 2.0), 'zero': (0.0, 0.0), 'within': (-1e-4, -1e-5)}
    ks = {'pos': ['pos'] * 4, 'within': ['pos', 'within', 'pos', 'within'], 'first': ['within', 'pos', 'pos', 'zero']}[kind]
    shape = {'scalar': None, 'npscalar': None, '0d': (), '1d': (4,), '2d': (2, 2), '3d': (2, 1, 2), 'row': (1, 4), 'list': None,
             'one': (1,)}[form]
    n = 1 if form in ('scalar', 'npscalar', '0d', 'one') else 4
    vs = [b.num('x%d' % i, *rng[ks[i]], np=form != 'scalar') for i in range(n)]
    want = [Form(v).sqrt() if k != 'within' else Form(num(0.0)) for v, k in zip(vs, ks)]
    a = vs[0] if form in ('scalar', 'npscalar') else b.lst(vs) if form == 'list' else b.E.new_arr(vs, shape, 'f')
    args = [a] + ([b.num('tol', *tol)] if tol else [])
    r = returns(b, lambda: b.call(GEN + 'sqrt_pos', *args))
    agree(b, 'elementwise root', r, want, {'list': (4,)}.get(form, shape))


def ints(b, form):
    vs = [num(x) for x in (4, 9, 16, 0)]
    a = vs[1] if form == 'scalar' else b.E.new_arr(vs, (4,) if form == '1d' else (2, 2), 'i')
    r = returns(b, lambda: b.call(GEN + 'sqrt_pos', a))
    agree(b, 'elementwise root', r, [num(3.0)] if form == 'scalar' else [num(x) for x in (2.0, 3.0, 4.0, 0.0)], None)


def clip(b, n, pats, kind):
    """pats: for every eigenvalue whether it is below ('l'), negative ('n'), zero ('z') or above ('h') the tolerance"""
    rng = {'l': (0.01, 0.05), 'n': (-0.5, -0.2), 'h': (0.5, 2.0), 'z': (0.0, 0.0)}
    e, q, arr, rot = spectral(b, n, [rng[p] for p in pats], kind)
    tol = b.num('tol', 0.1, 0.2)
    r = matrix(b, returns(b, lambda: b.call(LA + 'reg_pos_def_mat', arr, tol)), n, 'regularised')
    if not r:
        return
    t = Form(tol)
    equal(b, 'symmetric', r, tr(r))
    equal(b, 'small eigenvalues lifted', r, recompose([x if p == 'h' else t for x, p in zip(e, pats)], rot))


def clip_ray(b, u, base, top):
    """every eigenvalue but one coincides: base*I + top*uu'"""
    E = b.E
    n = len(u)
    us = [num(x, True) for x in u]
    lo, t = num(0.0, True) if base is None else b.num('base', *base, np=True), b.num('top', *top, np=True)
    tol = b.num('tol', 0.1, 0.2)
    els = []
    for i in range(n):
        for j in range(n):
            x = E.binop('Mult', E.binop('Mult', us[min(i, j)], us[max(i, j)]), t)
            els.append(x if i != j or base is None else E.binop('Add', x, lo))
    r = matrix(b, returns(b, lambda: b.call(LA + 'reg_pos_def_mat', E.new_arr(els, (n, n), 'f'), tol)), n, 'regularised')
    if not r:
        return
    f = [Form(x) for x in us]
    d = Form(tol)
    g = (Form(t) if base is None else Form(t) + Form(lo)) - d
    equal(b, 'small eigenvalues lifted', r, [[f[i] * f[j] * g + (d if i == j else Form(0)) for j in range(n)] for i in range(n)])


def clip_full(b, n):
    arr = b.symm('Q', n)
    tol = b.num('tol', 0.01, 0.02)
    r = matrix(b, returns(b, lambda: b.call(LA + 'reg_pos_def_mat', arr, tol)), n, 'regularised')
    if r:
        equal(b, 'left alone', r, fm(b, arr))


def lift(b, n, pats, kind):
    rng = {'l': (0.01, 0.05), 'h': (0.5, 2.0), 'z': (0.0, 0.0)}
    tol = b.num('tol', 0.1, 0.2)
    t = Form(tol)
    vals = [b.num('e%d' % i, *rng[p], np=True) for i, p in enumerate(pats)]
    z = num(0.0, True)
    E = b.E
    if kind == 'diag':
        els = [[vals[i] if i == j else z for j in range(n)] for i in range(n)]
        want = [[(Form(vals[i]) if pats[i] == 'h' else t) if i == j else Form(0) for j in range(n)] for i in range(n)]
        if 'z' in pats:
            want = None
    elif kind == 'signed':
        els = [[(vals[i] if i % 2 else E.unop('USub', vals[i])) if i == j else z for j in range(n)] for i in range(n)]
        want = [[(Form(vals[i]) if pats[i] == 'h' else t) * Form(1 if i % 2 else -1) if i == j else Form(0) for j in range(n)]
                for i in range(n)]
    elif kind == 'permuted':
        els = [[vals[i] if i == n - 1 - j else z for j in range(n)] for i in range(n)]
        want = [[(Form(vals[i]) if pats[i] == 'h' else t) if i == n - 1 - j else Form(0) for j in range(n)] for i in range(n)]
    else:       # rotation times diagonal
        c, s = num(0.6, True), num(0.8, True)
        m = lambda x, y: E.binop('Mult', x, y)
        els = [[vals[i] if i == j else z for j in range(n)] for i in range(n)]
        els[0][0], els[0][1] = m(c, vals[0]), E.unop('USub', m(s, vals[1]))
        els[1][0], els[1][1] = m(s, vals[0]), m(c, vals[1])
        w = [Form(v) if p == 'h' else t for v, p in zip(vals, pats)]
        want = [[w[i] if i == j else Form(0) for j in range(n)] for i in range(n)]
        c, s = Form(c), Form(s)
        want[0][0], want[0][1], want[1][0], want[1][1] = c * w[0], -s * w[1], s * w[0], c * w[1]
    arr = E.new_arr([x for r in els for x in r], (n, n), 'f')
    r = matrix(b, returns(b, lambda: b.call(LA + 'reg_mat', arr, tol)), n, 'regularised')
    if not r:
        return
    if want:
        equal(b, 'small singular values lifted', r, want)
    q = fm(b, arr)
    g = mm(tr(r), r)
    zero(b, 'singular values clipped', mm(sub(g, mm(tr(q), q)), sub(g, eye(n, t * t))))
    h = mm(r, tr(q))
    equal(b, 'same singular vectors', h, tr(h))


def real(b, form, kind, tol):
    E = b.E
    n = 1 if form in ('scalar', '0d') else 4
    re = [b.num('r%d' % i, -1.0, 1.0, np=True) for i in range(n)]
    if kind == 'real':
        vs = re
    else:
        im = [b.num('i%d' % i, 1e-18, 1e-17, np=True) if kind == 'tiny' else b.num('i%d' % i, -1e-4, -1e-5, np=True) for i in range(n)]
        vs = [cplx(x, y, True) for x, y in zip(re, im)]
    sh = {'scalar': None, '0d': (), '1d': (4,), '2d': (2, 2), 'row': (1, 4)}[form]
    a = vs[0] if form == 'scalar' else E.new_arr(vs, sh, 'f' if kind == 'real' else 'c')
    args = [a] + ([b.num('tol', 1e-3, 1e-2)] if tol else [])
    r = returns(b, lambda: b.call(LA + 'try_treat_as_real', *args))
    agree(b, 'real part', r, re, sh)


def product(b, n, depth):
    sh = (n, n) + (() if depth is None else depth)
    k = 1
    for x in sh:
        k *= x
    u = [b.num('u%d' % i, -1.0, 1.0, np=True) for i in range(k)]
    v = [b.num('v%d' % i, 0.5, 2.0, np=True) for i in range(k)]
    r = returns(b, lambda: b.call(GEN + 'mat_dot', b.E.new_arr(u, sh, 'f'), b.E.new_arr(v, sh, 'f')))
    per = k // (n * n)
    want = []
    for t in range(per):
        s = Form(0)
        for i in range(n * n):
            s = s + Form(u[i * per + t]) * Form(v[i * per + t])
        want.append(s / Form(n))
    agree(b, 'scalar product', r, want, (1, 1) + (() if depth is None else depth))


def simdiag(b, n, kind):
    if kind == 'full':
        A, B_ = b.symm('A', n), b.symm('B', n, (0.5, 1.5), (-0.3, 0.3))
    elif kind == 'indefinite':
        A, B_ = b.symm('A', n), b.symm('B', n, (-0.5, 1.5), (0.5, 1.0))
    else:
        A = diagm(b, [b.num('a%d' % i, 1.0 + i, 1.5 + i, np=True) for i in range(n)])
        B_ = diagm(b, [b.num('b%d' % i, 0.5 + 2 * i, 1.0 + 2 * i, np=True) for i in range(n)])
    t = matrix(b, returns(b, lambda: b.call(CORE + 'ell_sim_diag', A, B_, b.num('tol', 1e-8, 1e-7))), n, 'transformation')
    if not t:
        return
    equal(b, 'first becomes the identity', mm(mm(t, fm(b, A)), tr(t)), eye(n))
    w = mm(mm(t, fm(b, B_)), tr(t))
    zero(b, 'second becomes diagonal', [[w[i][j] for i in range(n) for j in range(n) if i != j]] if n > 1 else [[Form(0)]])


def fusion(b, n):
    A, C = b.symm('A', n), b.symm('C', n, (1.0, 2.0), (-0.3, 0.3))
    p, q = b.vec('p', n), b.vec('q', n, 0.2, 1.5)
    a = b.num('a', 0.1, 0.9)
    k = b.num('k', 1, 4, 'i')
    r = returns(b, lambda: b.call(CORE + 'ell_fusion_lambda', a, p, A, q, C, k))
    m1, m2 = fm(b, A), fm(b, C)
    q1, q2 = [Form(x) for x in b.els(p)], [Form(x) for x in b.els(q)]
    f = Form(a)
    g = Form(1) - f
    x = [[f * u + g * v for u, v in zip(s, t)] for s, t in zip(m1, m2)]
    y = inverse(x)
    d = [v - u for u, v in zip(q1, q2)]
    kk = Form(1) - f * g * dot(d, mm(m2, mm(y, mm(m1, d))))
    c = mm(y, [f * u + g * v for u, v in zip(mm(m1, q1), mm(m2, q2))])
    dx = det(x)
    t = mm(y, sub(m1, m2))
    trc = t[0][0]
    for i in range(1, n):
        trc = trc + t[i][i]
    want = kk * dx * dx * trc - Form(k) * dx * dx * (
        Form(2) * dot(c, mm(m1, q1)) - Form(2) * dot(c, mm(m2, q2)) + dot(c, mm(sub(m2, m1), c))
        - dot(q1, mm(m1, q1)) + dot(q2, mm(m2, q2)))
    agree(b, 'fusion equation', r, [want], None)


def scenarios(tier):
    T1, T2 = (1e-3, 2e-3), (1e-8, 1e-7)
    N = dict(narrow=0.001)
    for n in (1, 2, 3, 4):
        for kind in ('diag', 'rotated', 'full'):
            if n == 1 and kind != 'diag':
                continue
            for low in ((0.5, 1.5), (0.0, 0.0), (-1e-4, -1e-5)):
                if kind == 'full' and low[0] <= 0:
                    continue
                for tol in (None, T1, T2):
                    if low[0] < 0 and tol != T1 or low[0] == 0 and tol is None and kind == 'rotated':
                        continue
                    yield sc('sqrtm_pos[%d,%s,%s,%s]' % (n, kind, low, tol), root, n, kind, low, tol, **N)
    for form in ('scalar', 'npscalar', '0d', 'one', '1d', '2d', '3d', 'row', 'list'):
        for kind in ('pos', 'within', 'first'):
            for tol in (None, T1):
                if kind != 'pos' and tol is None:
                    continue
                yield sc('sqrt_pos[%s,%s,%s]' % (form, kind, tol), sqrts, form, kind, tol)
    for form in ('scalar', '1d', '2d'):
        yield sc('sqrt_pos[integers,%s]' % form, ints, form)
    for n in (1, 2, 3):
        for kind in ('diag', 'rotated'):
            if n == 1 and kind != 'diag':
                continue
            for pats in {1: ('l', 'h', 'n', 'z'), 2: ('lh', 'hl', 'll', 'hh', 'nh', 'hn', 'zh'), 3: ('lhh', 'hhl', 'hlh', 'lln', 'hhh', 'nhl')}[n]:
                yield sc('reg_pos_def_mat[%d,%s,%s]' % (n, kind, pats), clip, n, pats, kind, **N)
        yield sc('reg_pos_def_mat[%d,full]' % n, clip_full, n, **N)
        for base in (None, (0.01, 0.02)):
            if n > 1:
                u = {2: (0.6, 0.8), 3: (2 / 7, 3 / 7, 6 / 7)}[n]
                yield sc('reg_pos_def_mat[%d,ray,%s]' % (n, base), clip_ray, u, base, (0.5, 2.0), **N)
                yield sc('reg_pos_def_mat[%d,ray,%s,reversed]' % (n, base), clip_ray, u[::-1], base, (0.5, 2.0), **N)
    for base in (None, (0.01, 0.02)):
        yield sc('reg_pos_def_mat[4,ray,%s]' % (base,), clip_ray, (0.5, 0.5, -0.5, 0.5), base, (0.5, 2.0), **N)
        for kind in ('diag', 'signed', 'permuted', 'rotated'):
            if n == 1 and kind not in ('diag', 'signed'):
                continue
            for pats in {1: ('l', 'h', 'z'), 2: ('lh', 'hl', 'll', 'hh', 'zh'), 3: ('lhh', 'hhl', 'hlh', 'llh', 'hhh')}[n]:
                if 'z' in pats and kind != 'diag':
                    continue
                yield sc('reg_mat[%d,%s,%s]' % (n, kind, pats), lift, n, pats, kind, **N)
    for form in ('scalar', '0d', '1d', '2d', 'row'):
        for kind in ('real', 'tiny', 'small'):
            for tol in (False, True):
                if kind == 'small' and not tol:
                    continue
                yield sc('try_treat_as_real[%s,%s,%s]' % (form, kind, tol), real, form, kind, tol)
    for n in (1, 2, 3):
        for depth in (None, (1,), (2,), (3,), (2, 2)):
            yield sc('mat_dot[%d,%s]' % (n, depth), product, n, depth)
        for kind in ('full', 'indefinite', 'diag'):
            yield sc('ell_sim_diag[%d,%s]' % (n, kind), simdiag, n, kind, **N)
        yield sc('ell_fusion_lambda[%d]' % n, fusion, n, **N)
