"""C24: support values and boundary points of ellipsoids."""
from .c14 import det
from .c16 import *

RULE = ('Closed forms and identity test of value numbers: for every direction l the support value is <c,l> + sqrt(l\'Ql) and '
        'the point is c + Ql/sqrt(l\'Ql) (the center where l\'Ql vanishes), for one ellipsoid and many directions, many '
        'ellipsoids and one direction, and pairwise, in the order and array shape of the arguments; the points of a '
        'computed boundary satisfy (x-c)\'inv(Q)(x-c) = 1, belong to the directions of the grid and their count is the one '
        'asked for or configured.')
FLOOR = 60


def want_rho(d, n, l, kernel=False):
    q, c = square(d['shape'], n), [Form(x) for x in d['center']]
    s = Form(0) if kernel else quad(q, l).sqrt()
    if kernel:
        return dot(c, l), c
    v = mm(q, l)
    return dot(c, l) + s, [x + y / s for x, y in zip(c, v)]


def dirs(b, n, m, kind='pos'):
    """(direction columns as Forms, abstract values row-major of the n x m matrix)"""
    lo, hi = {'pos': (0.5, 1.0), 'neg': (-1.0, -0.5)}[kind]
    v = [[b.num('l%d%d' % (i, j), lo, hi, np=True) for j in range(m)] for i in range(n)]
    return [[Form(v[i][j]) for i in range(n)] for j in range(m)], [x for r in v for x in r]


def support(b, form, n, k, dsh, kind, dk='pos'):
    """k ellipsoids, directions array of shape (n,)+dsh"""
    m = 1
    for x in dsh:
        m *= x
    objs, ds = [], []
    for i in range(k):
        o, d = full(b, 'E%d' % i, n, kind)
        objs.append(o)
        ds.append(d)
    a = objs[0] if form == 'itself' else b.oarr(objs, form) if isinstance(form, tuple) else pack(b, objs, form)
    esh = tuple(form) if isinstance(form, tuple) else {'list': (k,), 'arr': (k,), 'row': (1, k), 'col': (k, 1)}.get(form, ())
    ls, vals = dirs(b, n, m, dk)
    D = b.E.new_arr(vals, (n,) + tuple(dsh), 'f')
    r = b.E.iterate(returns(b, lambda: b.meth(b.get(ELL_), 'rho', a, D)))
    if len(r) != 2:
        b.ob('two results', False, '%d results' % len(r))
        return
    cnt = max(k, m)
    w = [want_rho(ds[i if k > 1 else 0], n, ls[i if m > 1 else 0]) for i in range(cnt)]
    ssh = None
    if k > 1 and m == 1:
        ssh = esh
    elif len(dsh) > 1 and (k == 1 or esh == tuple(dsh)):
        ssh = tuple(dsh)
    agree(b, 'support value', r[0], [x[0] for x in w], ssh)
    psh = (n,) + tuple(dsh) if len(dsh) > 1 else (n, cnt) if len(esh) < 3 or k == 1 else (n,) + esh
    agree(b, 'boundary point', r[1], [w[j][1][i] for i in range(n) for j in range(cnt)], psh)


def kernel(b, n, m, where, k):
    """a degenerate ellipsoid and a direction it has no extent in"""
    objs, ds = [], []
    for i in range(k):
        o, d = full(b, 'E%d' % i, n, 'deg')
        objs.append(o)
        ds.append(d)
    ls, vals = dirs(b, n, m)
    z = num(0.0, True)
    for j in where:
        for i in range(n - 1):
            vals[i * m + j] = z
            ls[j][i] = Form(z)
    r = b.E.iterate(returns(b, lambda: b.meth(b.get(ELL_), 'rho', b.lst(objs), b.E.new_arr(vals, (n, m), 'f'))))
    cnt = max(k, m)
    w = [want_rho(ds[i if k > 1 else 0], n, ls[i if m > 1 else 0], (i if m > 1 else 0) in where) for i in range(cnt)]
    agree(b, 'support value', r[0], [x[0] for x in w])
    agree(b, 'boundary point', r[1], [w[j][1][i] for i in range(n) for j in range(cnt)], (n, cnt))


def gras(b, n, m, cen, tol, kind):
    q = qmat(b, 'Q', n, kind)
    ls, vals = dirs(b, n, m)
    d = dict(shape=b.els(q), center=[num(0.0)] * n)
    kw = {}
    if cen:
        d['center'] = [b.num('c%d' % i, -1, 1, np=True) for i in range(n)]
        kw['ell_center_vec'] = b.E.new_arr(d['center'], (n, 1), 'f')
    if tol:
        kw['abs_tol'] = b.num('tol', *TOL)
    r = b.E.iterate(returns(b, lambda: b.call(EG + 'rho_mat', q, b.E.new_arr(vals, (n, m), 'f'), **kw)))
    w = [want_rho(d, n, l) for l in ls]
    agree(b, 'support value', r[0], [x[0] for x in w])
    agree(b, 'boundary point', r[1], [w[j][1][i] for i in range(n) for j in range(m)], (n, m))


def rows(b, v, n, name):
    sh = b.shape(v)
    if len(sh) != 2 or sh[1] != n:
        b.ob(name, False, 'shape %s, required (points, %d)' % (sh, n))
        return None
    e = b.els(v)
    return [e[i * n:(i + 1) * n] for i in range(sh[0])]


def inverse(q):
    d = det(q)
    n = len(q)
    if n == 1:
        return [[Form(1) / q[0][0]]]
    out = []
    for i in range(n):
        r = []
        for j in range(n):
            m = det([[q[x][y] for y in range(n) if y != i] for x in range(n) if x != j])
            r.append((m if (i + j) % 2 == 0 else -m) / d)
        out.append(r)
    return out


def on_boundary(b, p, d, n, tag):
    c = [Form(x) for x in d['center']]
    inv = inverse(square(d['shape'], n))
    rs = []
    for i, x in enumerate(p):
        y = [Form(u) - v for u, v in zip(x, c)]
        s, w = scalar(b, quad(inv, y), Form(1))
        rs.append((s, 'point %d: %s' % (i, w) if w else ''))
    state(b, 'on the boundary', join(rs), tag)


def circle(m):
    import math
    return [(math.cos(2 * math.pi * k / m), math.sin(2 * math.pi * k / m)) for k in range(m)]


COUNT = {2: lambda m: m, 3: lambda m: 42 if m <= 42 else 162}


def ring(b, f, n, m, name):
    """the 2-d grid: point i is joined to i+1, the last one to the first"""
    if n == 2:
        want = [num(x % m) for i in range(m) for x in (i, i + 1)]
        agree(b, name, f, want, (m, 2))
    else:
        e = b.els(f)
        lo = [x for x in e if not (isinstance(x, S) and 0 <= x.lo and x.hi < COUNT[n](m))]
        b.ob(name, not lo, 'face indices out of range: %r' % (lo[:2],))


def make(b, n, m, kind):
    """ellipsoid with given plot resolution"""
    c, q = b.vec('c', n), qmat(b, 'Q', n, kind)
    kw = dict(n_plot_2d_points=num(m), n_plot_3d_points=num(m)) if m else {}
    return b.call(ELL_, c, q, **kw), dict(center=b.els(c), shape=b.els(q))


def order(b, p, d, dirs_, n, tag):
    """point i lies in the direction sqrt(Q) dir_i from the center"""
    c = [Form(x) for x in d['center']]
    if n == 2:
        q = square(d['shape'], n)
        s = det(q).sqrt()
        t = (q[0][0] + q[1][1] + s * Form(num(2.0))).sqrt()
        root = [[(q[i][j] + (s if i == j else Form(0))) / t for j in range(2)] for i in range(2)]
        rs = []
        for i, (x, l) in enumerate(zip(p, dirs_)):
            w = [u + v for u, v in zip(c, mm(root, [Form(num(y)) for y in l]))]
            for u, v in zip(x, w):
                s_, y = scalar(b, u, v)
                rs.append((s_, 'point %d: %s' % (i, y) if y else ''))
        state(b, 'point of its direction', join(rs), tag)


def curve(b, op, n, m, kind, how, fac):
    """how: 'given' - the number of points is an argument; 'own' - the object's resolution; 'factor' - a multiple of it"""
    e, d = make(b, n, m if how != 'given' else 7, kind)
    cnt = m
    if how == 'given':
        f = lambda *x: b.meth(e, op, num(m), *x)
    elif how == 'own':
        f = lambda *x: b.meth(e, op, None, *x)
    else:
        v = {'none': lambda: None, 'int': lambda: num(2), 'float': lambda: num(1.5), 'vec': lambda: b.arr([num(1.5), num(0.5)]),
             'np': lambda: num(2.0, True), 'half': lambda: num(0.5), 'one': lambda: num(1), 'list': lambda: b.lst([num(2), num(0.75)])}
        x = {'none': 1, 'int': 2, 'float': 1.5, 'vec': 1.5 if n == 2 else 0.5, 'np': 2, 'half': 0.5, 'one': 1,
             'list': 2 if n == 2 else 0.75}[fac]
        cnt = int(m * x // 1)
        f = lambda *y: b.meth(e, op + '_by_factor', v[fac](), *y)
    k = COUNT[n](cnt)
    if op == 'get_boundary':
        for grid in (False, True):
            r = returns(b, (lambda: f(boolv(True))) if grid else f)
            g = None
            if grid:
                r, g = b.E.iterate(r)
            p = rows(b, r, n, 'points')
            if p is None:
                return
            tag = 'with grid' if grid else 'points'
            b.ob('count', len(p) == k, '%d points, required %d %s' % (len(p), k, tag))
            on_boundary(b, p, d, n, tag)
            if n == 2:
                order(b, p, d, circle(k), n, tag)
            if grid:
                ring(b, g, n, k if n == 2 else cnt, 'grid')
        return
    r = b.E.iterate(returns(b, f))
    if len(r) != 4:
        b.ob('four results', False, '%d results' % len(r))
        return
    p, l = rows(b, r[0], n, 'points'), rows(b, r[3], n, 'directions')
    if p is None or l is None:
        return
    sup = b.els(r[2])
    b.ob('count', len(p) == len(l) == len(sup) == k + 1, '%d points, %d directions, %d values, required %d' %
         (len(p), len(l), len(sup), k + 1))
    state(b, 'closed', join(scalar(b, x, y) for x, y in zip(l[0] + p[0], l[-1] + p[-1])))
    if n == 2 and len(l) == k + 1:
        state(b, 'directions', join(scalar(b, x, Form(num(y))) for u, v in zip(l, circle(k)) for x, y in zip(u, v)))
    on_boundary(b, p, d, n, 'points')
    w = [want_rho(d, n, [Form(x) for x in u]) for u in l]
    agree(b, 'support value', r[2], [x[0] for x in w], (len(l), 1))
    state(b, 'point of its direction', join(scalar(b, x, y) for u, v in zip(p, w) for x, y in zip(u, v[1])))
    ring(b, r[1], n, k if n == 2 else cnt, 'grid')


def grid(b, n, m, fac):
    e, d = make(b, n, m, 'pd')
    args, x = {'none': ([], 1), 'zero-dim': ([lambda: b.E.new_arr([num(2.0)], (), 'f')], 2),
               'vec': ([lambda: b.arr([num(1.5), num(0.5)])], 1.5 if n == 2 else 0.5)}[fac]
    r = b.E.iterate(returns(b, lambda: b.meth(e, '_get_grid_by_factor', *[f() for f in args])))
    cnt = int(m * x // 1)
    p = rows(b, r[0], n, 'directions')
    if p is None:
        return
    b.ob('count', len(p) == COUNT[n](cnt), '%d directions, required %d' % (len(p), COUNT[n](cnt)))
    state(b, 'unit length', join(scalar(b, dot([Form(x) for x in u], [Form(x) for x in u]), Form(1)) for u in p))


def scenarios(tier):
    S1 = lambda f, n, k, dsh, kind, dk='pos': sc('rho[%s,%d,%d,%s,%s,%s]' % (f, n, k, dsh, kind, dk), support, f, n, k, dsh,
                                                 kind, dk, narrow=0.001)
    for n in (1, 2, 3, 4):
        for kind in ('diag', 'pd', 'deg'):
            if n == 1 and kind == 'deg':
                continue
            for dk in ('pos', 'neg'):
                if dk == 'neg' and (n == 4 or kind == 'diag'):
                    continue
                for dsh in ((1,), (2,), (3,)):
                    yield S1('list', n, 1, dsh, kind, dk)
                yield S1('list', n, 3, (1,), kind, dk)
                yield S1('row', n, 3, (3,), kind, dk)
    for form in ('itself', 'arr', 'row', (1, 1, 1)):
        for dsh in ((1,), (3,), (2, 2), (1, 3), (3, 1), (2, 1, 2)):
            yield S1(form, 2, 1, dsh, 'pd')
    for form in ('arr', 'row', 'col', (2, 2), (2, 1, 2), (1, 2, 2), FSh((2, 2)), FSh((2, 1, 2))):
        k = 4 if isinstance(form, tuple) else 3
        yield S1(form, 3, k, (1,), 'pd')
        yield S1(form, 2, k, (1,), 'deg')
    for form in ('row', 'col'):
        yield S1(form, 2, 3, (3,), 'pd')
        yield S1(form, 3, 2, (2,), 'deg')
    for form in ((2, 2), (1, 3), (3, 1), (2, 1, 2), FSh((2, 2)), FSh((2, 1, 2))):
        k = 4 if len(form) == 3 or form == (2, 2) else 3
        yield S1(form, 2, k, form, 'pd')
        yield S1(form, 3, k, form, 'pd')
    for n in (2, 3):
        for m, where in ((1, (0,)), (2, (0,)), (2, (1,)), (3, (1,)), (3, (0, 2)), (2, (0, 1))):
            yield sc('rho without extent[%d,%d,%s]' % (n, m, where), kernel, n, m, where, 1, narrow=0.001)
        yield sc('rho without extent[%d,several]' % n, kernel, n, 1, (0,), 3, narrow=0.001)
    for n in (1, 2, 3, 4):
        for m in (1, 2, 3):
            for cen in (False, True):
                for tol in (False, True):
                    for kind in ('pd',) if n > 3 else ('diag', 'pd'):
                        yield sc('rho_mat[%d,%d,%s,%s,%s]' % (n, m, cen, tol, kind), gras, n, m, cen, tol, kind, narrow=0.001)
    for op in ('get_boundary', 'get_rho_boundary'):
        for kind in ('diag', 'pd'):
            for m in (3, 4, 5, 8):
                yield sc('%s[2,%d,%s]' % (op, m, kind), curve, op, 2, m, kind, 'given', None, narrow=0.001)
                yield sc('%s own resolution[2,%d,%s]' % (op, m, kind), curve, op, 2, m, kind, 'own', None, narrow=0.001)
            for m in (5, 42, 43):
                if kind == 'pd' and m == 43 and tier == 'quick':
                    continue
                yield sc('%s[3,%d,%s]' % (op, m, kind), curve, op, 3, m, kind, 'given', None, narrow=0.001)
                if m != 42:
                    yield sc('%s own resolution[3,%d,%s]' % (op, m, kind), curve, op, 3, m, kind, 'own', None, narrow=0.001)
        for fac in ('none', 'int', 'float', 'vec', 'np', 'half', 'one', 'list'):
            yield sc('%s_by_factor[2,%s]' % (op, fac), curve, op, 2, 6, 'diag', 'factor', fac, narrow=0.001)
            yield sc('%s_by_factor[3,%s]' % (op, fac), curve, op, 3, 30, 'diag', 'factor', fac, narrow=0.001)
    for n in (2, 3):
        for fac in ('none', 'vec'):
            yield sc('plot grid[%d,%s]' % (n, fac), grid, n, 6, fac)
