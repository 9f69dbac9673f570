"""C26: polar ellipsoids, quadratic forms and inverses."""
from .c14 import diagm
from .c24 import *

RULE = ('Closed forms and identity test of value numbers: the polar of the ellipsoid (c, Q) with the origin inside has, with '
        'M = Q - cc\', the center -inv(M)c and the shape (1 + c\'inv(M)c) inv(M), position by position; taking it twice '
        'gives the original; its support value in direction l is 1 on the boundary of the original; the quadratic form is '
        '(x-c)\'Q(x-c), with the inverse matrix for the two inverse modes, for every orientation of the vectors; inv_mat '
        'gives the inverse matrix.')
FLOOR = 40


def inner(b, name, n, sh=None):
    """ellipsoid with the origin inside"""
    c = b.vec(name + '.c', n, -0.3, 0.3, sh)
    q = b.symm(name + '.Q', n, (2.0, 3.0), (-0.3, 0.3))
    return b.call(ELL_, c, q), dict(center=b.els(c), shape=b.els(q))


def polar_of(d, n):
    c, q = [Form(x) for x in d['center']], square(d['shape'], n)
    m = inverse([[q[i][j] - c[i] * c[j] for j in range(n)] for i in range(n)])
    v = mm(m, c)
    k = Form(1) + dot(c, v)
    return neg(v), [k * x for x in unroll(m)]


def polar(b, form, n, k):
    objs, ds = zip(*[inner(b, 'E%d' % i, n if n != 'mixed' else 1 + i % 3) for i in range(k)])
    a = b.oarr(list(objs), form) if isinstance(form, tuple) else pack(b, list(objs), form)
    sh = form if isinstance(form, tuple) else {'list': (k,), 'arr': (k,), 'row': (1, k), 'col': (k, 1)}[form]
    r = returns(b, lambda: b.meth(b.get(ELL_), 'polar', a))
    b.ob('array shape', tuple(b.shape(r)) == tuple(sh), 'polar %s of %s' % (b.shape(r), sh))
    res = b.els(r)
    b.ob('count', len(res) == k, '%d of %d' % (len(res), k))
    for i, (o, d) in enumerate(zip(res, ds)):
        c, q = polar_of(d, len(d['center']))
        expect(b, o, c, q, 'polar %d' % i)
        expect(b, objs[i], d['center'], d['shape'], 'operand %d' % i)


def twice(b, n):
    o, d = inner(b, 'E', n)
    cl = b.get(ELL_)
    p = returns(b, lambda: b.meth(cl, 'polar', b.lst([o])))
    p = returns(b, lambda: b.meth(cl, 'polar', p))
    expect(b, b.els(p)[0], d['center'], d['shape'], 'polar of the polar')


def both(b, n, robust):
    o, d = inner(b, 'E', n)
    p = returns(b, lambda: b.meth(o, '_get_scalar_polar_internal', boolv(robust)))
    c, q = polar_of(d, n)
    expect(b, p, c, q, 'robust' if robust else 'direct')


def form(b, mode, n, xs, cs, sym):
    q = b.symm('Q', n) if sym else b.mat('Q', n, n, 1.0, 2.0)
    if not sym:
        e = b.els(q)
        q = b.E.new_arr([b.E.binop('Add', x, num(3.0)) if i == j else x for i, r in enumerate([e[k * n:(k + 1) * n] for k in range(n)])
                         for j, x in enumerate(r)], (n, n), 'f')
    sh = {'1d': (n,), 'row': (1, n), 'col': (n, 1)}
    x = b.vec('x', n, -1, 1, sh[xs])
    args = [q, x]
    y = [Form(v) for v in b.els(x)]
    if cs in sh:
        c = b.vec('c', n, -1, 1, sh[cs])
        args.append(c)
        y = [u - Form(v) for u, v in zip(y, b.els(c))]
    else:
        args.append(num(0.0) if cs == 'zero' else num(0) if cs == 'zero (int)' else b.arr([num(0.0)]))
    if mode is not None:
        args.append(mode)
    if cs == 'none':
        args = args[:2]
    r = returns(b, lambda: b.call(EG + 'quad_mat', *args))
    m = square(b.els(q), n)
    agree(b, 'quadratic form', r, [quad(inverse(m) if (mode or '').lower() in ('inv', 'invadv') else m, y)])


def inverted(b, n, sym):
    q = b.symm('Q', n) if sym else b.E.binop('Add', b.mat('Q', n, n, 0.5, 1.0), b.arr([[num(3.0 if i == j else 0.0) for j in range(n)]
                                                                                    for i in range(n)]))
    agree(b, 'inverse', returns(b, lambda: b.call(EG + 'inv_mat', q)), unroll(inverse(square(b.els(q), n))), (n, n))


def scenarios(tier):
    for n in (1, 2, 3, 'mixed'):
        for fm_ in ('list', 'arr', 'row', 'col', (2, 2), (2, 1, 2), FSh((2, 2)), FSh((2, 1, 2))):
            if n != 2 and fm_ not in ('list', 'col'):
                continue
            for k in ((1, 3) if not isinstance(fm_, tuple) else (4,)):
                yield sc('polar[%s,%s,%d]' % (fm_, n, k), polar, fm_, n, k, narrow=0.001)
    for n in (1, 2, 3, 4):
        if n < 4:
            yield sc('polar twice[%d]' % n, twice, n, narrow=0.001)
        for r in (True, False):
            yield sc('polar[%s,%d]' % ('robust' if r else 'direct', n), both, n, r, narrow=0.001)
        for s in (True, False):
            yield sc('inv_mat[%d,%s]' % (n, s), inverted, n, s, narrow=0.001)
    for mode in (None, 'plain', 'inv', 'invadv', 'Plain', 'INV', 'InvAdv'):
        for n in (1, 2, 3):
            for xs in ('1d', 'row', 'col'):
                for cs in ('none', 'zero', 'zero (int)', 'zero (array)', '1d', 'row', 'col'):
                    if (mode is None) != (cs == 'none') and cs == 'none':
                        continue
                    if n == 1 and (xs, cs) != ('1d', '1d') or n == 3 and xs != cs or mode and mode[0].isupper() and xs != 'col':
                        continue
                    for sym in (True, False):
                        yield sc('quad_mat[%s,%d,%s,%s,%s]' % (mode, n, xs, cs, sym), form, mode, n, xs, cs, sym, narrow=0.001)
