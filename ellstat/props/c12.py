"""C12: changing the default configuration does not reach existing objects; new objects pick it up."""
from .c03 import *
from ..catalog import CASES
from .common import out_finger, rewind
from ..dom import deps

RULE = ('Two-run comparison on one abstract heap: an object is built, the default tolerances and plot resolutions are replaced '
        'by other values, and every getter and every observing operation of the object must give the value-number picture it '
        'gave before; objects built afterwards without the keyword carry the new default, with the keyword the given value.')
FLOOR = 60
SETTERS = dict(abs_tol='set_abs_tol', rel_tol='set_rel_tol', n_plot_2d_points='set_n_plot_2d_points',
               n_plot_3d_points='set_n_plot_3d_points')
# results of these are objects, which carry the defaults of the moment they are made; their data is compared
DROP = ('abs_tol', 'rel_tol', 'n_plot')
SKIP = {'Ellipsoid(Q)', 'Ellipsoid(c,Q)', 'Ellipsoid(c-column,Q)', 'Ellipsoid(int)', 'Ellipsoid()', 'Hyperplane(n,s)',
        'Hyperplane(n-column,s-array)', 'Hyperplane()', 'Ellipsoid.from_dict', 'Hyperplane.from_dict',
        'Ellipsoid.from_rep_mat', 'Hyperplane.from_rep_mat'}


def fresh(b, p, tag, points=None):
    if p in ('abs_tol', 'rel_tol'):
        return b.num(tag + p, 0.5, 0.6)
    if points:
        return num(points)
    return b.num(tag + p, 300, 400, 'i')


def change(b, names=SETTERS, tag='new ', points=None):
    out = {}
    for p in names:
        out[p] = fresh(b, p, tag, points)
        b.meth(b.get(PROPS_), SETTERS[p], out[p])
    return out


def bare(p):
    """picture without the tolerances of result objects"""
    if not isinstance(p, tuple):
        return p
    if len(p) == 3 and p[0] == 'obj' and isinstance(p[2], tuple):
        return (p[0], p[1], tuple((k, bare(w)) for k, w in p[2] if not any(d in k for d in DROP)))
    return tuple(bare(x) for x in p)


def stable(b, cl, n, p, route):
    """getters of the object, and of what is derived from it, before and after"""
    o, d = full(b, 'E', n, 'pd', cl == HYP_)
    if route == 'copy':
        o = b.els(b.meth(b.get(cl), 'get_copy', b.lst([o])))[0]
    elif route == 'replica':
        o = b.els(b.meth(o, 'rep_mat', b.lst([2, 1])))[1]
    elif route == 'default':
        par = b.E.iterate(b.meth(o, 'parameters'))
        o = b.call(cl, par[0], par[1])
        for k in SETTERS:
            if k in d:
                d[k] = [b.meth(b.get(PROPS_), 'get_' + k)]
    change(b, [p] if p else SETTERS)
    check(b, cl, o, d, 'existing object')
    if route == 'made':
        c = b.els(b.meth(b.get(cl), 'get_copy', b.lst([o])))[0]
        check(b, cl, c, d, 'copy of an existing object')
        c = b.els(b.meth(o, 'rep_mat', b.lst([2])))[1]
        check(b, cl, c, d, 'replica of an existing object')


def picked(b, cl, n, p, route):
    """new objects carry the new default; the keyword wins"""
    new = change(b)
    names = PROP4 if cl == ELL_ else PROP4[:2]
    kw = {}
    if p:
        kw[p] = b.num('kw', 1e-8, 1e-7) if 'tol' in p else b.num('kw', 10, 50, 'i')
    if cl == ELL_:
        args = [b.vec('c', n), b.symm('Q', n)]
        d = dict(center=list(b.els(args[0])), shape=list(b.els(args[1])))
    else:
        args = [b.vec('n', n, 0.7, 2.0), b.num('s', 0.7, 1.0)]
        d = dict(normal=list(b.els(args[0])), shift=[args[1]])
    for k in names:
        d[k] = [kw.get(k, new[k])]
    if route == 'constructor':
        o = returns(b, lambda: b.call(cl, *args, **kw))
    elif route == 'dict':
        keys = ('center_vec', 'shape_mat') if cl == ELL_ else ('normal_vec', 'shift')
        items = list(zip(keys, args if cl == ELL_ else [args[0], b.arr([args[1]])])) + list(kw.items())
        o = b.els(returns(b, lambda: b.meth(b.get(cl), 'from_dict', b.lst([b.E.new_dict(items)]))))[0]
    else:
        o = b.els(returns(b, lambda: b.meth(b.get(cl), 'from_rep_mat', *args, b.lst([2, 2]), **kw)))[3]
    check(b, cl, o, d, 'new object')
    # every default counts at construction time, not later
    change(b, SETTERS, 'later ')
    check(b, cl, o, d, 'new object after another change')


def observed(b, f, points=None):
    c = f(b)
    if c is None:
        raise Skip
    E = b.E
    s0 = E.snap()
    o = b.attempt(c.fn)
    r1 = out_finger(b, o)
    s1 = E.snap()
    if o.kind == 'ret':
        E.restore(s0)
        E.ref, E.known, E.path = s1[1], s1[2], s1[4]
    else:
        E.restore(s0)
    E.risk = frozenset()
    new = change(b, points=points)
    E.watch = frozenset().union(*(deps(x.t) for x in new.values()))
    e0 = len(E.events)
    r2 = out_finger(b, b.attempt(c.fn))
    E.watch = None
    w = [e for e in E.events[e0:] if e['kind'] == 'watch']
    b.ob('data is not compared with current defaults', not w, 'compared with %s at %s' % (
        w[0]['what'].rpartition(':')[2], w[0]['where']) if w else '', True)
    r1, r2 = (r1[0], r1[1], bare(r1[2])), (r2[0], r2[1], bare(r2[2]))
    if r1[0] != r2[0] or r1[0] == 'raise':
        same_ = r1[0] == r2[0] and r1[2] == r2[2]
        b.ob('same observation', True if same_ else None if r1[1] or r2[1] else False,
             '%s before, %s after other defaults were set' % (r1[0], r2[0]))
        return
    state(b, 'same observation', pics(b, r1[2], r2[2]), 'after other defaults were set:')


def scenarios(tier):
    for cl in (ELL_, HYP_):
        nm = cl.rpartition(':')[2]
        names = PROP4 if cl == ELL_ else PROP4[:2]
        for n in (1, 2, 3):
            for p in names + [None]:
                for route in ('plain', 'copy', 'replica', 'made', 'default'):
                    yield sc('%s keeps its own[%d,%s,%s]' % (nm, n, p or 'all', route), stable, cl, n, p, route)
                for route in ('constructor', 'dict', 'replicas'):
                    yield sc('%s takes the default[%d,%s,%s]' % (nm, n, p, route), picked, cl, n, p, route)
    for label, op, t, f in CASES:
        if not op.startswith(('Ellipsoid', 'Hyperplane')) or op in SKIP:
            continue
        if 'boundary' in label:
            # the meshes depend on the number of points; the objects of the catalogue have four
            for points in (20, 3):
                yield sc('%s under other defaults, %d points' % (label, points), observed, f, points, tmax=40 if 'rho' in label else 12)
            continue
        yield sc(label + ' under other defaults', observed, f)
