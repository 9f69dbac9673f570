"""C03: objects, copies and replicas carry exactly the data they were made from."""
from .rel import *

RULE = ('Value-number comparison: objects are built from symbolic data (center, shape matrix, normal, shift, tolerances, plot '
        'resolutions); what the public getters return - of the object itself, of its copies, of every element of a '
        'replicated array, of the projected copy - must have the value numbers of that data, and the collection must have '
        'the requested array shape and hold objects of the same class.')
FLOOR = 60
PROP4 = ['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points']


def full(b, name, n, kind='pd', hypn=False):
    """(object, dict of the data it was given)"""
    kw = tols(b, name)
    if hypn:
        lo, hi = {'neg': (-1.0, -0.5), 'any': (-1.0, 1.0)}.get(kind, (0.5, 1.0))
        v, s = b.vec(name + '.n', n, -2.0 if kind == 'neg' else 0.5, -0.5 if kind == 'neg' else 2.0), b.num(name + '.s', lo, hi)
        d = dict(normal=list(b.els(v)), shift=[s])
        o = b.call(HYP_, v, s, **kw)
    else:
        kw['n_plot_2d_points'] = b.num(name + '.n2', 10, 50, 'i')
        kw['n_plot_3d_points'] = b.num(name + '.n3', 10, 50, 'i')
        c, q = b.vec(name + '.c', n), qmat(b, name + '.Q', n, kind)
        d = dict(center=list(b.els(c)), shape=list(b.els(q)))
        o = b.call(ELL_, c, q, **kw)
    for k in kw:
        d[k] = [kw[k]]
    return o, d


def look(b, cl, o):
    """what the public getters say"""
    r = {}
    one = b.lst([o])
    if 'Hyp' in cl:
        p = b.E.iterate(b.meth(o, 'parameters'))
        r['normal'], r['shift'] = b.els(p[0]), b.els(p[1])
    else:
        r['center'], r['shape'] = b.els(b.meth(o, 'get_center_vec')), b.els(b.meth(o, 'get_shape_mat'))
        p = b.E.iterate(b.meth(o, 'parameters'))
        r['center (parameters)'], r['shape (parameters)'] = b.els(p[0]), b.els(p[1])
        for k in PROP4[2:]:
            r[k] = b.els(b.meth(b.get(cl), 'get_property', one, k, None))
    r['abs_tol'] = b.els(b.meth(b.get(cl), 'get_abs_tol', one, f_prop_fun=None))
    r['rel_tol'] = b.els(b.meth(b.get(cl), 'get_rel_tol', one, f_prop_fun=None))
    return r


def check(b, cl, o, d, what):
    if not isinstance(o, Ref) or o.kind != 'obj':
        b.ob('object', None, '%s is %r' % (what, o))
        return
    b.ob('class', o.cls.name == cl.rpartition(':')[2], '%s is a %s' % (what, o.cls.name))
    for k, v in look(b, cl, o).items():
        want = d[k.split(' ')[0]]
        if len(v) != len(want):
            b.ob(k, False, '%s: %d values, given %d' % (what, len(v), len(want)))
            continue
        state(b, k, join(scalar(b, x, y) if isinstance(x, S) else (None, '') for x, y in zip(v, want)), what)


def built(b, cl, n, kind):
    o, d = full(b, 'E', n, kind, cl == HYP_)
    check(b, cl, o, d, 'object')


def copies(b, cl, form, kind, n):
    k = dict(one=1, mat=4, fmat=4, cube=4).get(form, 3)
    od_ = [full(b, 'E%d' % i, n if kind != 'mixed' else 2 + i % 2, 'pd' if kind == 'mixed' else kind, cl == HYP_)
           for i in range(k)]
    objs = [o for o, _ in od_]
    a = b.oarr(objs, (2, 1, 2)) if form == 'cube' else b.oarr(objs[:1], (1, 1)) if form == '1x1' else pack(b, objs, form)
    sh = {'list': (k,), 'arr': (k,), 'row': (1, k), 'col': (k, 1), 'mat': (2, 2), 'fmat': (2, 2), 'cube': (2, 1, 2), 'one': (),
          '1x1': (1, 1)}[form]
    r = returns(b, lambda: b.meth(b.get(cl), 'get_copy', a))
    if form != 'one':
        b.ob('array shape', tuple(b.shape(r)) == sh, 'copy has shape %s, collection %s' % (b.shape(r), sh))
    res = b.els(r)
    b.ob('count', len(res) == (k if form != '1x1' else 1), '%d copies' % len(res))
    for i, (x, (_, d)) in enumerate(zip(res, od_)):
        check(b, cl, x, d, 'copy %d' % i)
    for i, (o, d) in enumerate(od_):
        check(b, cl, o, d, 'original %d' % i)


def replicas(b, cl, sh, how):
    n = 2
    if how == 'rep_mat':
        o, d = full(b, 'E', n, 'pd', cl == HYP_)
        r = returns(b, lambda: b.meth(o, 'rep_mat', b.lst(sh)))
    elif how == 'rep_mat(array)':
        o, d = full(b, 'E', n, 'pd', cl == HYP_)
        r = returns(b, lambda: b.meth(o, 'rep_mat', b.arr(list(sh))))
    else:
        kw = tols(b, 'E')
        if cl == HYP_:
            v, s = b.vec('n', n, 0.5, 2.0), b.num('s', 0.5, 1.0)
            d = dict(normal=b.els(v), shift=[s])
        else:
            kw['n_plot_2d_points'], kw['n_plot_3d_points'] = b.num('n2', 10, 50, 'i'), b.num('n3', 10, 50, 'i')
            v, s = b.vec('c', n), b.symm('Q', n)
            d = dict(center=b.els(v), shape=b.els(s))
        d.update({k: [x] for k, x in kw.items()})
        r = returns(b, lambda: b.meth(b.get(cl), 'from_rep_mat', v, s, b.lst(sh), **kw))
    b.ob('array shape', tuple(b.shape(r)) == tuple(sh), 'shape %s, requested %s' % (b.shape(r), sh))
    res = b.els(r)
    m = 1
    for x in sh:
        m *= x
    b.ob('count', len(res) == m, '%d replicas for %s' % (len(res), sh))
    for i, x in enumerate(res):
        check(b, cl, x, d, 'replica %d' % i)


def projected(b, n, m):
    o, d = full(b, 'E', n)
    B_ = basis(b, n, m)
    r = returns(b, lambda: b.meth(b.get(ELL_), 'get_projection', b.lst([o]), B_))
    v = look(b, ELL_, b.els(r)[0])
    for k in PROP4:
        state(b, k, join(scalar(b, x, y) for x, y in zip(v[k], d[k])), 'projection')
    check(b, ELL_, o, d, 'original')


def empties(b, sh):
    a = b.oarr([], sh)
    r = returns(b, lambda: b.meth(b.get(ELL_), 'get_copy', a))
    b.ob('array shape', tuple(b.shape(r)) == sh, 'copy of an empty %s array has shape %s' % (sh, b.shape(r)))
    e = b.call(ELL_)
    r = b.els(returns(b, lambda: b.meth(b.get(ELL_), 'get_copy', b.lst([e]))))
    p = b.E.iterate(b.meth(r[0], 'parameters'))
    b.ob('empty', tuple(b.shape(p[0])) == (0,) and tuple(b.shape(p[1])) == (0, 0), 'copy of the empty ellipsoid')


def centered(b, n):
    q = b.symm('Q', n)
    o = b.call(ELL_, q)
    agree(b, 'center', b.meth(o, 'get_center_vec'), [0.0] * n, (n,), 'center')
    agree(b, 'shape', b.meth(o, 'get_shape_mat'), b.els(q), (n, n), 'shape matrix')


def column(b, n):
    q, c = b.symm('Q', n), b.vec('c', n, shape=(n, 1))
    o = b.call(ELL_, c, q)
    agree(b, 'center', b.meth(o, 'get_center_vec'), b.els(c), (n,), 'center')
    q, c = b.symm('P', n), b.vec('d', n, shape=(1, n))
    o = b.call(ELL_, c, q)
    agree(b, 'center', b.meth(o, 'get_center_vec'), b.els(c), (n,), 'center')
    v = b.vec('v', n, 0.5, 1.0, shape=(n, 1))
    h = b.call(HYP_, v, 0.5)
    agree(b, 'normal', b.E.iterate(b.meth(h, 'parameters'))[0], b.els(v), (n,), 'normal')
    h = b.call(HYP_, b.vec('w', n), b.arr([b.num('s', 0.5, 1)]))
    agree(b, 'shift', b.E.iterate(b.meth(h, 'parameters'))[1], [Form(b.num('s', 0.5, 1))], None, 'shift')


def integers(b):
    q = b.arr([[b.num('a', 2, 3, 'i'), 0], [0, b.num('b', 2, 3, 'i')]])
    c = b.arr([b.num('c', -2, 2, 'i'), b.num('d', -2, 2, 'i')])
    o = b.call(ELL_, c, q)
    for nm, v, w in (('center', b.meth(o, 'get_center_vec'), c), ('shape', b.meth(o, 'get_shape_mat'), q)):
        agree(b, nm, v, b.els(w))
        b.ob(nm + ' is floating point', b.E.arr(v).dtype == 'f', 'dtype %s' % b.E.arr(v).dtype)


def scenarios(tier):
    for cl in (ELL_, HYP_):
        nm = cl.rpartition(':')[2]
        for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
            for kind in (('pd', 'wide', 'deg') if cl == ELL_ else ('pd', 'neg', 'any')):
                yield sc('%s built[%d,%s]' % (nm, n, kind), built, cl, n, kind)
        for form in ('list', 'arr', 'row', 'col', 'mat', 'fmat', 'cube', 'one', '1x1'):
            for kind in ('pd', 'mixed') + (('deg', 'wide') if cl == ELL_ and form in ('list', 'row') else ()):
                yield sc('%s.get_copy[%s,%s]' % (nm, form, kind), copies, cl, form, kind, 2)
            if form in ('list', 'row'):
                yield sc('%s.get_copy[%s,3d]' % (nm, form), copies, cl, form, 'pd', 3)
                yield sc('%s.get_copy[%s,1d]' % (nm, form), copies, cl, form, 'pd', 1)
        for sh in ((1, 1), (2, 2), (3, 1), (1, 4), (2, 1, 2), (3,), (1, 0), (2, 0, 3)):
            for how in ('rep_mat', 'rep_mat(array)', 'from_rep_mat'):
                yield sc('%s.%s[%s]' % (nm, how, 'x'.join(map(str, sh))), replicas, cl, sh, how)
    for n, m in ((2, 1), (3, 1), (3, 2), (2, 2)):
        yield sc('projection of a copy[%d,%d]' % (n, m), projected, n, m)
    for sh in ((0,), (0, 2), (3, 0)):
        yield sc('empty %s' % (sh,), empties, sh)
    for n in (1, 2, 3):
        yield sc('Ellipsoid(Q)[%d]' % n, centered, n)
        yield sc('column data[%d]' % n, column, n)
    yield sc('integer data', integers)
