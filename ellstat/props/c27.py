"""C27: membership and comparison predicates decide what they are named for."""
from .c26 import *

RULE = ('Abstract truth values on boxes of inputs on either side of the defining inequality (inside/outside an ellipsoid by a '
        'margin, on a hyperplane or off it, parallel or not, larger or not, positive definite or not; margins below and '
        'above each object\'s own tolerance): the truth value computed must be the mathematical one on every execution, '
        'position by position.')
FLOOR = 60


def num_(x):
    return num(float(x), True)


def ring_ell(b, name, n, size, kind, c=None, tol=None):
    """an ellipsoid of about the given size, its center and a function: radius, direction -> point at that relative radius"""
    E = b.E
    c = c or [b.num('%s.c%d' % (name, i), -1, 1, np=True) for i in range(n)]
    if kind == 'diag':
        q = [[b.num('%s.q%d' % (name, i), 2.0, 3.0) if i == j else num_(0) for j in range(n)] for i in range(n)]
    else:
        q = [list(r) for r in chunk(b.els(b.symm(name + '.Q', n)), n)]
    s2 = E.binop('Mult', size, size)
    q = [[E.binop('Mult', x, s2) for x in r] for r in q]
    kw = dict(abs_tol=tol) if tol is not None else {}
    o = b.call(ELL_, E.new_arr(list(c), (n,), 'f'), E.new_arr([x for r in q for x in r], (n, n), 'f'), **kw)
    return o, c, q


def chunk(v, n):
    return [v[i:i + n] for i in range(0, len(v), n)]


def point(b, c, q, l, r):
    """c + r * Q l / sqrt(l'Ql): relative radius r"""
    E = b.E
    n = len(c)
    v = [None] * n
    for i in range(n):
        for j in range(n):
            t = E.binop('Mult', q[i][j], l[j])
            v[i] = t if v[i] is None else E.binop('Add', v[i], t)
    s = None
    for i in range(n):
        t = E.binop('Mult', l[i], v[i])
        s = t if s is None else E.binop('Add', s, t)
    s = b.els(b.call(Ext('numpy.sqrt'), E.new_arr([s], (1,), 'f')))[0]
    return [E.binop('Add', c[i], E.binop('Div', E.binop('Mult', r, v[i]), s)) for i in range(n)]


def internal(b, form, n, sizes, pts, mode, kind, same):
    """ellipsoids of given sizes (about one center or far apart), points at given (ellipsoid, relative radius)"""
    k = len(sizes)
    E = b.E
    base = [b.num('c%d' % i, -1, 1, np=True) for i in range(n)]
    es = []
    q0 = None
    for i in range(k):
        c = base if same else [E.binop('Add', base[0], num_(40 * i))] + base[1:]
        size = num_(sizes[i])
        o, c, q = ring_ell(b, 'E' if same else 'E%d' % i, n, size, kind, c)
        es.append((o, c, q))
    objs = [o for o, _, _ in es]
    a = b.oarr(objs, form) if isinstance(form, tuple) else pack(b, objs, form)
    cols, want = [], []
    for j, (i, r) in enumerate(pts):
        l = [b.num('l%d%d' % (j, t), 0.5, 1.0, np=True) for t in range(n)]
        cols.append(point(b, es[i][1], es[i][2], l, b.num('r%d' % j, r, r * 1.001)))
        ins = [(r * sizes[i] < sizes[t]) if same else (t == i and r < 1) for t in range(k)]
        want.append(any(ins) if mode == 'u' else all(ins))
    m = len(pts)
    X = E.new_arr([cols[j][i] for i in range(n) for j in range(m)], (n, m), 'f')
    r = returns(b, lambda: b.meth(b.get(ELL_), 'is_internal', a, X, mode))
    el = b.els(r)
    b.ob('one answer per vector', len(el) == m, '%d answers for %d vectors' % (len(el), m))
    for j, (x, w) in enumerate(zip(el, want)):
        always(b, 'internal', x, w, 'vector %d %s' % (j, pts[j]))


TR, BELOW, ABOVE = (1e-3, 1.02e-3), (0.9e-3, 0.95e-3), (1.08e-3, 1.1e-3)


def close_call(b, what, n, below):
    """quantities just below and just above the object's own tolerance"""
    E = b.E
    tol = b.num('tol', *TR)
    g = b.num('g', *(BELOW if below else ABOVE))
    if what == 'contains':
        v = [num_(0)] * (n - 1) + [b.num('v', 1.0, 1.001)]
        x = [b.num('x%d' % i, -1, 1, np=True) for i in range(n)]
        s = E.binop('Add' if n != 2 else 'Sub', E.binop('Mult', v[-1], x[-1]), E.binop('Mult', g, v[-1]))
        h = b.call(HYP_, E.new_arr(v, (n,), 'f'), s, abs_tol=tol)
        r = returns(b, lambda: b.meth(b.get(HYP_), 'contains', b.lst([h]), E.new_arr(x, (n, 1), 'f')))
        always(b, 'contains', b.els(r)[0], below, 'value near the shift')
    elif what == 'is_internal':
        c = [b.num('c%d' % i, -1, 1, np=True) for i in range(n)]
        q = [b.num('q%d' % i, 4.0, 4.0001) for i in range(n)]
        o = b.call(ELL_, E.new_arr(list(c), (n,), 'f'), diagm(b, q), abs_tol=tol)
        f = E.binop('Add', num_(1.0), g)
        root = b.els(b.call(Ext('numpy.sqrt'), E.new_arr([q[0]], (1,), 'f')))[0]
        x = [E.binop('Add', c[0], E.binop('Mult', root, f))] + c[1:]
        for mode in ('u', 'i'):
            r = returns(b, lambda: b.meth(b.get(ELL_), 'is_internal', b.oarr([o], (1,)), E.new_arr(x, (n, 1), 'f'), mode))
            always(b, 'internal', b.els(r)[0], below, 'just outside')
    elif what == 'is_parallel':
        k = n - 1
        v = [num_(0)] * n
        v[k] = num_(1.0)
        w = list(v)
        w[0] = g
        for sg in (1, -1):
            u = w if sg > 0 else [E.unop('USub', y) for y in w]
            p, q = (b.call(HYP_, E.new_arr(list(y), (n,), 'f'), b.num('s', -1, 1), abs_tol=tol) for y in (v, u))
            r = returns(b, lambda: b.meth(b.get(HYP_), 'is_parallel', b.lst([p]), b.lst([q])))
            always(b, 'parallel', b.els(r)[0], below, 'almost the same normal')
    elif what == 'is_degenerate':
        for pos in range(n):
            d = [b.num('d%d' % i, 1, 2) for i in range(n)]
            d[pos] = g
            o = b.call(ELL_, b.vec('c', n), diagm(b, d), abs_tol=tol)
            r = returns(b, lambda: b.meth(b.get(ELL_), 'is_degenerate', b.lst([o])))
            always(b, 'degenerate', b.els(r)[0], below, 'entry %d' % pos)
    elif what == 'is_mat_not_deg':
        for pos in range(n):
            d = [b.num('d%d' % i, 1, 2) for i in range(n)]
            d[pos] = g if pos % 2 == 0 else E.unop('USub', g)
            always(b, 'not degenerate', returns(b, lambda: b.call(LA + what, diagm(b, d), tol)), not below, 'entry %d' % pos)
    elif what == 'is_mat_pos_def':
        for flag in (False, True):
            for pos in range(n):
                d = [b.num('d%d' % i, 1, 2) for i in range(n)]
                d[pos] = E.unop('USub', g) if flag else g
                kw = dict(is_flag_sem_def_on=boolv(True)) if flag else {}
                always(b, 'positive definite', returns(b, lambda: b.call(LA + what, diagm(b, d), tol, **kw)),
                       below if flag else not below, 'entry %d' % pos)
    elif what == 'is_mat_symm':
        for at in ((0, n - 1), (n - 1, 0), (n - 1, n - 2)):
            for sg in ('Add', 'Sub'):
                q = [list(r) for r in chunk(b.els(b.symm('Q', n)), n)]
                q[at[0]][at[1]] = E.binop(sg, q[at[1]][at[0]], g)
                m = E.new_arr([x for r in q for x in r], (n, n), 'f')
                always(b, 'symmetric', returns(b, lambda: b.call(LA + what, m, tol)), below, 'entries %s' % (at,))


def edge(b, form, n, mode, who):
    """a vector outside by less than the tolerance of one ellipsoid only"""
    E = b.E
    k = 3
    c = [b.num('c%d' % i, -1, 1, np=True) for i in range(n)]
    tols_ = [b.num('tol%d' % i, *((1e-2, 1.1e-2) if i in who else (1e-6, 1e-5))) for i in range(k)]
    es = [ring_ell(b, 'E', n, num_(1), 'diag', c, t) for t in tols_]
    l = [b.num('l%d' % t, 0.5, 1.0, np=True) for t in range(n)]
    x = point(b, c, es[0][2], l, b.num('r', 1.001, 1.002))
    r = returns(b, lambda: b.meth(b.get(ELL_), 'is_internal', pack(b, [e[0] for e in es], form), E.new_arr(x, (n, 1), 'f'), mode))
    always(b, 'internal within tolerance', b.els(r)[0], bool(who) if mode == 'u' else len(who) == k)


def flat_ell(b, n, mode, off):
    """a degenerate ellipsoid is thickened by its tolerance"""
    E = b.E
    tol = b.num('tol', 1e-4, 1.1e-4)
    c = [b.num('c%d' % i, -1, 1, np=True) for i in range(n)]
    q = [b.num('q%d' % i, 2, 3) for i in range(n - 1)] + [num_(0)]
    o = b.call(ELL_, E.new_arr(list(c), (n,), 'f'), diagm(b, q), abs_tol=tol)
    d, w = {'in': ([0.5] + [0.0] * (n - 1), True), 'out': ([2.0] + [0.0] * (n - 1), False),
            'thin': ([0.0] * (n - 1) + [0.005], True), 'off': ([0.0] * (n - 1) + [0.02], False),
            'far': ([0.1] * (n - 1) + [0.5], False)}[off]
    x = [E.binop('Add', u, num_(v)) for u, v in zip(c, d)]
    r = returns(b, lambda: b.meth(b.get(ELL_), 'is_internal', b.oarr([o], (1,)), E.new_arr(x, (n, 1), 'f'), mode))
    always(b, 'internal (degenerate)', b.els(r)[0], w, off)


def plane(b, name, n, tol=None, zero=()):
    kw = dict(abs_tol=tol) if tol is not None else {}
    v = [num_(0) if i in zero else b.num('%s.n%d' % (name, i), 0.5, 1.0, np=True) for i in range(n)]
    s = b.num(name + '.s', -1, 1)
    return b.call(HYP_, b.E.new_arr(list(v), (n,), 'f'), s, **kw), v, s


def on_plane(b, name, v, s, gap):
    """a point whose value exceeds the shift by gap"""
    E = b.E
    n = len(v)
    x = [b.num('%s.x%d' % (name, i), -1, 1, np=True) for i in range(n)]
    # last non-zero component is solved for
    k = max(i for i in range(n) if not (v[i].lo == v[i].hi == 0))
    r = E.binop('Add', s, gap)
    for i in range(n):
        if i != k:
            r = E.binop('Sub', r, E.binop('Mult', v[i], x[i]))
    x[k] = E.binop('Div', r, v[k])
    return x


def gap_of(b, j, on, tol):
    if on:
        return num_(0) if on == 2 else b.num('g%d' % j, 1e-5, 2e-5)
    return b.num('g%d' % j, 0.5, 1.0) if j % 2 else b.num('g%d' % j, -1e-2, -5e-3)


def contains(b, form, n, pat, xsh, rel):
    """rel: 'one vector' / 'one plane' / 'pairs'"""
    E = b.E
    k = len(pat)
    tol = [b.num('tol%d' % i, 1e-3, 2e-3) for i in range(k)]
    if rel == 'one plane':
        h, v, s = plane(b, 'H', n, tol[0])
        a = b.lst([h]) if form == 'list' else b.oarr([h], (1,)) if form == 'arr' else b.oarr([h], (1, 1))
        cols = [on_plane(b, 'X%d' % j, v, s, gap_of(b, j, p, tol[0])) for j, p in enumerate(pat)]
        sh = xsh or (k,)
    else:
        hs = [plane(b, 'H%d' % i, n, tol[i]) for i in range(k)]
        objs = [h for h, _, _ in hs]
        if rel == 'one vector':
            # the shift is solved for
            x = [b.num('x%d' % i, -1, 1, np=True) for i in range(n)]
            objs = []
            for i, p in enumerate(pat):
                _, v, _ = hs[i]
                s = None
                for u, y in zip(v, x):
                    t = E.binop('Mult', u, y)
                    s = t if s is None else E.binop('Add', s, t)
                s = E.binop('Add', s, gap_of(b, i, p, tol[i]))
                objs.append(b.call(HYP_, E.new_arr(list(v), (n,), 'f'), s, abs_tol=tol[i]))
            cols = [x]
        else:
            cols = [on_plane(b, 'X%d' % j, hs[j][1], hs[j][2], gap_of(b, j, p, tol[j])) for j, p in enumerate(pat)]
        a = b.oarr(objs, form) if isinstance(form, tuple) else pack(b, objs, form)
        sh = {'list': (k,), 'arr': (k,), 'row': (1, k), 'col': (k, 1)}.get(form, form) if rel == 'one vector' else xsh or (k,)
    m = len(cols)
    vals = [cols[j][i] for i in range(n) for j in range(m)]
    X = E.new_arr(vals, (n,) + (tuple(xsh) if xsh else (m,)), 'f')
    r = returns(b, lambda: b.meth(b.get(HYP_), 'contains', a, X))
    b.ob('array shape', tuple(b.shape(r)) == tuple(sh), 'answers %s, required %s' % (b.shape(r), sh))
    el = b.els(r)
    b.ob('count', len(el) == k, '%d answers, required %d' % (len(el), k))
    for j, (x, p) in enumerate(zip(el, pat)):
        always(b, 'contains', x, bool(p), 'position %d' % j)


def own_tolerance(b, n, form, who):
    """one vector near several planes that have different tolerances"""
    E = b.E
    x = [b.num('x%d' % i, -1, 1, np=True) for i in range(n)]
    objs = []
    for i in range(3):
        v = [b.num('n%d%d' % (i, t), 0.5, 1.0, np=True) for t in range(n)]
        s = b.num('g%d' % i, 1e-4, 2e-4)
        for u, y in zip(v, x):
            s = E.binop('Add', s, E.binop('Mult', u, y))
        objs.append(b.call(HYP_, E.new_arr(v, (n,), 'f'), s, abs_tol=b.num('tol%d' % i, *((1e-3, 2e-3) if i in who else (1e-6, 1e-5)))))
    r = returns(b, lambda: b.meth(b.get(HYP_), 'contains', pack(b, objs, form), E.new_arr(x, (n, 1), 'f')))
    for i, y in enumerate(b.els(r)):
        always(b, 'own tolerance', y, i in who, 'plane %d' % i)


def infinite(b, n, zero, infs, sign, on, cancel=False):
    """infinite components count only when the normal is non-zero there"""
    E = b.E
    h, v, s = plane(b, 'H', n, b.num('tol', 1e-3, 2e-3), zero)
    if cancel:
        # components of the normal that cancel out
        v[infs[1]] = E.unop('USub', v[infs[0]])
        x = [b.num('y%d' % i, -1, 1, np=True) for i in range(n)]
        s = num_(0) if on else num_(0.5)
        for i in range(n):
            if i not in infs:
                # the finite part alone lies on the plane (or off it)
                s = E.binop('Add', s, E.binop('Mult', v[i], x[i]))
        h = b.call(HYP_, E.new_arr(list(v), (n,), 'f'), s, abs_tol=b.num('tol', 1e-3, 2e-3))
    if not cancel:
        x = on_plane(b, 'X', v, s, num_(0) if on else num_(0.5))
    for i in infs:
        x[i] = num(float(sign) * float('inf'), True)
    r = returns(b, lambda: b.meth(b.get(HYP_), 'contains', b.lst([h]), E.new_arr(x, (n, 1), 'f')))
    always(b, 'infinite components', b.els(r)[0], on and set(infs) <= set(zero))


def parallel(b, n, rel, form, pat, side):
    """pat: per position '+' same direction, '-' opposite, 'near', 'off', 'dim'"""
    E = b.E
    tol = b.num('tol', 1e-3, 2e-3)

    def pair(i, p):
        v = [b.num('n%d%d' % (i if rel == 'pairs' else 0, t), 0.5, 1.0, np=True) for t in range(n)]
        f = b.num('f%d' % i, *((1.0, 2.0) if p in ('+', 'near', 'off') else (-2.0, -1.0)))
        w = [E.binop('Mult', f, x) for x in v]
        if p in ('near', 'near-'):
            w[i % n] = E.binop('Add', w[i % n], num_(1e-5))
        if p in ('off', 'off-'):
            w[i % n] = E.binop('Mult', w[i % n], num_(1.2))
        if p == 'flip':
            w[i % n] = E.unop('USub', w[i % n])
        if p == 'dim':
            w = w + [num_(1.0)]
        return v, w
    prs = [pair(i, p) for i, p in enumerate(pat)]
    mk_ = lambda v, t: b.call(HYP_, E.new_arr(list(v), (len(v),), 'f'), b.num('s', -1, 1), abs_tol=t)
    xs = [mk_(v, tol) for v, _ in prs]
    ys = [mk_(w, tol) for _, w in prs]
    wrap = lambda o: b.oarr(o, form) if isinstance(form, tuple) else pack(b, o, form)
    k = len(pat)
    sh = {'list': (k,), 'arr': (k,), 'row': (1, k), 'col': (k, 1)}.get(form, form)
    if rel == 'pairs':
        p, q = wrap(xs), wrap(ys)
    else:
        p, q = b.lst(xs[:1]), wrap(ys)
    if side == 'swapped':
        p, q = q, p
    r = returns(b, lambda: b.meth(b.get(HYP_), 'is_parallel', p, q))
    b.ob('array shape', tuple(b.shape(r)) == tuple(sh), 'answers %s, required %s' % (b.shape(r), sh))
    el = b.els(r)
    b.ob('count', len(el) == k, '%d answers, required %d' % (len(el), k))
    for i, (x, y) in enumerate(zip(el, pat)):
        always(b, 'parallel', x, y in ('+', '-', 'near', 'near-'), 'position %d (%s)' % (i, y))


def bigger(b, n, kind, want):
    E = b.E
    c, d = b.vec('c', n), b.vec('d', n)
    q = chunk(b.els(b.symm('Q', n)), n) if kind.endswith('pd') else [[b.num('q%d' % i, 2, 3) if i == j else num_(0) for j in range(n)]
                                                                   for i in range(n)]
    if kind.startswith('scaled'):
        f = b.num('f', *((0.5, 0.6) if want else (1.1, 1.2)))
        p = [[E.binop('Mult', x, f) for x in r] for r in q]
    else:
        v = [b.num('v%d' % i, 0.5, 0.6, np=True) for i in range(n)]
        if kind.startswith('axis'):
            v = [x if i == n - 1 else num_(0) for i, x in enumerate(v)]
        p = [[E.binop('Sub' if want else 'Add', q[i][j], E.binop('Mult', v[i], v[j])) for j in range(n)] for i in range(n)]
    e = b.call(ELL_, c, E.new_arr([x for r in q for x in r], (n, n), 'f'))
    f = b.call(ELL_, d, E.new_arr([x for r in p for x in r], (n, n), 'f'))
    always(b, 'bigger', returns(b, lambda: b.meth(e, 'is_bigger', f)), want, kind)


def rank(b, n, which):
    """an ellipsoid of lower rank is never bigger; of the same or lower rank inside"""
    e, f = ell(b, 'E', n), ell(b, 'F', n, 'deg')
    if which == 'lower':
        always(b, 'bigger (rank)', returns(b, lambda: b.meth(f, 'is_bigger', e)), False)
    else:
        q = [b.num('p%d' % i, 0.5, 1.0) for i in range(n - 1)] + [num_(0)]
        g = b.call(ELL_, diagm(b, q))
        s = b.call(ELL_, diagm(b, [b.num('q%d' % i, 2, 3) for i in range(n)]))
        always(b, 'bigger (rank)', returns(b, lambda: b.meth(s, 'is_bigger', g)), True)


def definite(b, n, eig, flag, tol, want):
    """eig: interval of the smallest eigenvalue (first or last entry)"""
    for pos in (0, n - 1):
        d = [b.num('d%d' % i, 1, 2) for i in range(n)]
        d[pos] = b.num('e', *eig)
        args = [diagm(b, d)] + ([b.num('tol', *tol)] if tol else [])
        kw = dict(is_flag_sem_def_on=boolv(True)) if flag else {}
        always(b, 'positive definite', returns(b, lambda: b.call(LA + 'is_mat_pos_def', *args, **kw)), want, 'entry %d' % pos)


def rotated(b, lo, tol, flag, want):
    """2x2: eigenvalues a+c, a-c"""
    a, c = b.num('a', 1.0, 1.01), b.num('c', *lo)
    m = b.arr([[a, c], [c, a]])
    args = [m] + ([b.num('tol', *tol)] if tol else [])
    kw = dict(is_flag_sem_def_on=boolv(True)) if flag else {}
    always(b, 'positive definite', returns(b, lambda: b.call(LA + 'is_mat_pos_def', *args, **kw)), want)


def symmetric(b, n, at, gap, tol, want):
    q = [list(r) for r in chunk(b.els(b.symm('Q', n)), n)]
    if gap:
        q[at[0]][at[1]] = b.E.binop('Add', q[at[0]][at[1]], b.num('g', *gap))
    m = b.E.new_arr([x for r in q for x in r], (n, n), 'f')
    args = [m] + ([b.num('tol', *tol)] if tol else [])
    always(b, 'symmetric', returns(b, lambda: b.call(LA + 'is_mat_symm', *args)), want)


def nondegenerate(b, n, s, tol, want):
    for pos in range(n):
        for sg in (1, -1):
            d = [b.num('d%d' % i, 1, 2) for i in range(n)]
            d[pos] = b.num('e%d' % sg, *(s if sg > 0 else (-s[1], -s[0])))
            args = [diagm(b, d)] + ([b.num('tol', *tol)] if tol else [])
            always(b, 'not degenerate', returns(b, lambda: b.call(LA + 'is_mat_not_deg', *args)), want, 'entry %d' % pos)


def scenarios(tier):
    I = lambda form, n, sizes, pts, mode, kind, same: sc('is_internal[%s,%d,%s,%s,%s,%s,%s]' % (
        form, n, sizes, pts, mode, kind, 'one center' if same else 'apart'), internal, form, n, sizes, pts, mode, kind, same,
        narrow=1e-4)
    for n in (1, 2, 3):
        for kind in ('diag', 'pd'):
            for mode in ('u', 'i'):
                yield I('arr', n, (1,), ((0, 0.9), (0, 1.1), (0, 0.5), (0, 2.0)), mode, kind, True)
                for sizes in ((1, 2, 3), (3, 1, 2), (2, 3, 1)):
                    i = sizes.index(1)
                    yield I('arr', n, sizes, ((i, 0.8), (i, 1.5), (i, 2.5), (i, 3.5)), mode, kind, True)
                yield I('arr', n, (1, 1, 1), ((1, 0.8), (0, 0.9), (2, 1.1), (2, 0.7), (0, 1.2)), mode, kind, False)
    for form in ('list', 'row', 'col', (2, 2), (2, 1, 2), FSh((2, 2)), FSh((2, 1, 2))):
        k = 4 if isinstance(form, tuple) else 3
        for mode in ('u', 'i'):
            yield I(form, 2, (2, 1, 3, 4)[:k], ((1, 0.8), (1, 1.5), (1, 6.0)), mode, 'diag', True)
            yield I(form, 2, (1,) * k, ((k - 1, 0.9), (0, 1.1)), mode, 'diag', False)
    for n in (1, 2, 3):
        for mode in ('u', 'i'):
            for who in ((), (0,), (1,), (2,), (0, 1, 2), (1, 2)):
                for form in ('list', 'col'):
                    if form == 'col' and n != 2:
                        continue
                    yield sc('is_internal at the boundary[%s,%d,%s,%s]' % (form, n, mode, who), edge, form, n, mode, who, narrow=1e-4)
    for n in (2, 3):
        for off in ('in', 'out', 'thin', 'off', 'far'):
            yield sc('is_internal degenerate[%d,%s]' % (n, off), flat_ell, n, 'u', off, narrow=1e-4)
    C = lambda form, n, pat, xsh, rel: sc('contains[%s,%d,%s,%s,%s]' % (form, n, pat, xsh, rel), contains, form, n, pat, xsh, rel)
    for n in (1, 2, 3):
        for pat in ((2,), (0,), (1,), (1, 0, 2), (0, 1, 0), (0, 0, 1), (1, 0, 0, 1)):
            yield C('list', n, pat, None, 'one vector')
            yield C('list', n, pat, None, 'one plane')
            yield C('list', n, pat, None, 'pairs')
    for form in ('arr', 'row', 'col'):
        for pat in ((1, 0, 2), (0, 1, 1)):
            for rel in ('one vector', 'one plane', 'pairs'):
                yield C(form, 2, pat, None, rel)
    for form in ((2, 2), (1, 4), (2, 1, 2), FSh((2, 2)), FSh((2, 1, 2))):
        for pat in ((1, 0, 0, 1), (0, 1, 1, 0), (0, 0, 1, 1)):
            yield C(form, 2, pat, None, 'one vector')
            yield C(form, 2, pat, form, 'pairs')
            yield C('list', 2, pat, form, 'one plane')
    for n in (1, 2, 3):
        for form in ('list', 'row'):
            for who in ((0,), (1,), (2,), (0, 2), ()):
                yield sc('contains own tolerance[%s,%d,%s]' % (form, n, who), own_tolerance, n, form, who)
    for on in (True, False):
        for sign in (1, -1):
            for n, zero, infs in ((2, (0,), (0,)), (2, (), (0,)), (3, (0,), (0,)), (3, (0, 1), (0, 1)), (3, (0, 1), (0,)), (3, (0,), (1,)),
                                  (3, (1,), (0, 1)), (2, (), (1,))):
                yield sc('contains infinite[%d,%s,%s,%s,%s]' % (n, zero, infs, sign, on), infinite, n, zero, infs, sign, on)
            for n, infs in ((2, (0, 1)), (3, (0, 1)), (3, (1, 2)), (3, (0, 2))):
                yield sc('contains infinite (cancelling)[%d,%s,%s,%s]' % (n, infs, sign, on), infinite, n, (), infs, sign, on, True)
    for what in ('contains', 'is_internal', 'is_parallel', 'is_degenerate', 'is_mat_not_deg', 'is_mat_pos_def', 'is_mat_symm'):
        for n in (1, 2, 3, 4):
            if n == 1 and what in ('is_parallel', 'is_mat_symm'):
                continue
            for below in (True, False):
                yield sc('%s close to the tolerance[%d,%s]' % (what, n, 'below' if below else 'above'), close_call, what, n, below)
    P = lambda n, rel, form, pat, side: sc('is_parallel[%d,%s,%s,%s,%s]' % (n, rel, form, '/'.join(pat), side), parallel, n, rel, form, pat,
                                           side, narrow=1e-5)
    for n in (1, 2, 3):
        for p in ('+', '-', 'near', 'near-', 'off', 'off-', 'flip', 'dim'):
            if n == 1 and p in ('off', 'off-', 'flip'):
                continue
            for side in ('', 'swapped'):
                yield P(n, 'pairs', 'list', (p,), side)
        if n > 1:
            for side in ('', 'swapped'):
                for pat in (('+', 'off', '-'), ('off', '+', 'off'), ('flip', 'off-', '+'), ('dim', '-', '+'), ('-', 'near', 'flip')):
                    for form in ('list', 'arr', 'row', 'col'):
                        if form != 'list' and n == 3:
                            continue
                        yield P(n, 'pairs', form, pat, side)
                        yield P(n, 'one', form, pat, side)
                for form in ((2, 2), (2, 1, 2), FSh((2, 2)), FSh((2, 1, 2))):
                    yield P(n, 'pairs', form, ('+', 'off', '-', 'flip'), side)
                    yield P(n, 'one', form, ('off', '-', '+', 'off'), side)
    for n in (1, 2, 3):
        for kind in ('scaled diag', 'scaled pd', 'axis diag', 'axis pd', 'any diag', 'any pd'):
            for want in (True, False):
                yield sc('is_bigger[%d,%s,%s]' % (n, kind, want), bigger, n, kind, want, narrow=1e-5)
    for n in (2, 3):
        for w in ('lower', 'higher'):
            yield sc('is_bigger rank[%d,%s]' % (n, w), rank, n, w, narrow=1e-5)
    T1, T2 = (1e-3, 2e-3), (1e-8, 1e-7)
    for n in (1, 2, 3):
        for eig, flag, tol, w in (((0.5, 0.6), 0, None, 1), ((0.5, 0.6), 1, None, 1), ((1e-5, 1e-4), 0, None, 1), ((1e-5, 1e-4), 0, T1, 0),
                                  ((1e-5, 1e-4), 0, T2, 1), ((1e-5, 1e-4), 1, T1, 1), ((-1e-4, -1e-5), 1, T1, 1),
                                  ((-1e-4, -1e-5), 1, T2, 0), ((-1e-4, -1e-5), 1, None, 0), ((-1e-4, -1e-5), 0, T1, 0),
                                  ((0.0, 0.0), 1, None, 1), ((0.0, 0.0), 0, None, 0), ((-1.0, -0.5), 1, T1, 0), ((-1.0, -0.5), 0, None, 0)):
            yield sc('is_mat_pos_def[%d,%s,%s,%s]' % (n, eig, flag, tol), definite, n, eig, flag, tol, bool(w))
    for lo, tol, flag, w in (((0.5, 0.6), None, 0, 1), ((1.1, 1.2), None, 0, 0), ((1.1, 1.2), T1, 1, 0), ((-1.2, -1.1), None, 0, 0),
                             ((-0.6, -0.5), T1, 0, 1), ((-0.6, -0.5), None, 1, 1)):
        yield sc('is_mat_pos_def rotated[%s,%s,%s]' % (lo, tol, flag), rotated, lo, tol, flag, bool(w))
    for n in (2, 3):
        for at in ((0, 1), (n - 1, 0), (n - 1, n - 2)):
            for gap, tol, w in ((None, None, 1), (None, T1, 1), ((1e-5, 1e-4), T1, 1), ((1e-5, 1e-4), T2, 0), ((1e-5, 1e-4), None, 0),
                                ((-0.2, -0.1), T1, 0), ((-1e-4, -1e-5), T1, 1), ((-1e-4, -1e-5), None, 0)):
                yield sc('is_mat_symm[%d,%s,%s,%s]' % (n, at, gap, tol), symmetric, n, at, gap, tol, bool(w))
        for s, tol, w in (((1e-5, 1e-4), T1, 0), ((1e-5, 1e-4), T2, 1), ((1e-5, 1e-4), None, 1), ((0.5, 0.6), T1, 1), ((0.0, 0.0), T1, 0)):
            yield sc('is_mat_not_deg[%d,%s,%s]' % (n, s, tol), nondegenerate, n, s, tol, bool(w))
