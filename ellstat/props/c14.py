"""C14: scalar characteristics of ellipsoids and hyperplanes are the mathematical ones."""
import math
from .c03 import *
from .c04 import collection

RULE = ('Closed forms: for collections of ellipsoids with symbolic centers and shapes in every array form, the value numbers of '
        'trace, volume, extreme eigenvalues, dimension, rank, degeneracy, emptiness and of the stored properties must be '
        'those of the mathematical definition applied to each element in order; aggregated properties are the minimum, '
        'maximum or the given function of the elements\' values.')
FLOOR = 60
UNIT = {n: math.pi ** (n / 2) / math.gamma(n / 2 + 1) for n in range(1, 13)}


def det(m):
    if len(m) == 1:
        return m[0][0]
    s = Form(0)
    for j in range(len(m)):
        if cval(m[0][j].t) == 0:
            continue
        c = m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]])
        s = s + c if j % 2 == 0 else s - c
    return s


def square(els, n):
    e = [Form(x) for x in els]
    return [e[i * n:(i + 1) * n] for i in range(n)]


def eig2(m):
    """smallest and largest eigenvalue of a symmetric 1x1 or 2x2 matrix"""
    if len(m) == 1:
        return m[0][0], m[0][0]
    h = (m[0][0] + m[1][1]) * Form(num(0.5))
    d = (m[0][0] - m[1][1]) * Form(num(0.5))
    r = (d * d + m[0][1] * m[0][1]).sqrt()
    return h - r, h + r


def objs_(b, form, n, kind):
    a, od_, sh = collection(b, ELL_, form, n, kind)
    return a, [d for _, d in od_], sh


def numbers(b, form, n, kind):
    a, ds, sh = objs_(b, form, n, kind)
    cl = b.get(ELL_)
    k = len(ds)
    dims = [len(d['center']) for d in ds]
    ms = [square(d['shape'], m) for d, m in zip(ds, dims)]
    call = lambda f, *x: returns(b, lambda: b.meth(cl, f, a, *x), f)
    flat = (k,)
    trs = []
    for m in ms:
        s = m[0][0]
        for i in range(1, len(m)):
            s = s + m[i][i]
        trs.append(s)
    agree(b, 'trace', call('trace'), trs, None)
    lo, hi = None, None
    if kind in ('diag', 'deg'):
        lo = [m[0][0] if kind == 'diag' else m[-1][-1] for m in ms]
        hi = [m[-1][-1] if kind == 'diag' or len(m) == 1 else m[-2][-2] for m in ms]
    elif max(dims) <= 2:
        lo, hi = zip(*map(eig2, ms))
    if lo:
        agree(b, 'smallest eigenvalue', call('min_eig'), lo, None)
        agree(b, 'largest eigenvalue', call('max_eig'), hi, None)
    if kind == 'deg':
        agree(b, 'volume', call('volume'), [num(0.0)] * k, None)
    else:
        agree(b, 'volume', call('volume'), [Form(num(UNIT[d])) * det(m).sqrt() for d, m in zip(dims, ms)], None)
    agree(b, 'degenerate', call('is_degenerate'), [boolv(kind == 'deg')] * k, sh)
    agree(b, 'empty', call('is_empty'), [boolv(False)] * k, sh)
    agree(b, 'dimension', call('dimension'), [num(d) for d in dims], sh)
    r = b.E.iterate(call('dimension', boolv(True)))
    agree(b, 'dimension (with rank)', r[0], [num(d) for d in dims], sh)
    agree(b, 'rank', r[1], [num(d - (kind == 'deg')) for d in dims], sh)


def threshold(b, form, n, who):
    """degeneracy is decided with each element's own tolerance"""
    k = dict(one=1, mat=4, fmat=4).get(form, 3)
    objs, want = [], []
    for i in range(k):
        tol = b.num('tol%d' % i, *((1e-3, 2e-3) if i % 2 == 0 else (1e-8, 1e-7)))
        small = b.num('s%d' % i, 1e-5, 1e-4)
        ds = [b.num('q%d%d' % (i, j), 1.0, 2.0) for j in range(n)]
        ds[(who + i) % n] = small
        o = b.call(ELL_, b.vec('c%d' % i, n), diagm(b, ds), abs_tol=tol)
        objs.append(o)
        want.append(boolv(i % 2 == 0))
    a = pack(b, objs, form)
    r = returns(b, lambda: b.meth(b.get(ELL_), 'is_degenerate', a))
    agree(b, 'degenerate', r, want, None)
    r = returns(b, lambda: b.meth(b.get(ELL_), 'volume', a))
    els = b.els(r)
    for i, (v, w) in enumerate(zip(els, want)):
        if w.t is TRUE_T:
            b.ob('volume is a number', isinstance(v, S) if not isinstance(v, Top) else None, 'element %d: %r' % (i, v))
            if isinstance(v, S):
                state(b, 'volume of the degenerate', scalar(b, v, num(0.0)), 'element %d' % i)
        else:
            b.ob('volume of the others', (v.lo > 0 or None) if isinstance(v, S) else None if isinstance(v, Top) else False, 'element %d: %r' % (i, v))


def diagm(b, ds):
    n = len(ds)
    return b.E.new_arr([ds[i] if i == j else num(0.0) for i in range(n) for j in range(n)], (n, n), 'f')


def empties(b, form):
    e, f, g = b.call(ELL_), ell(b, 'F', 2), b.call(ELL_)
    objs = [e, f, g, f][:4 if form in ('mat', 'fmat') else 3]
    a = pack(b, objs, form)
    want = [True, False, True, False][:len(objs)]
    agree(b, 'empty', returns(b, lambda: b.meth(b.get(ELL_), 'is_empty', a)), [boolv(w) for w in want], b.shape(a) or None)
    agree(b, 'dimension', returns(b, lambda: b.meth(b.get(ELL_), 'dimension', a)), [num(0 if w else 2) for w in want],
          b.shape(a) or None)


PROPS = {ELL_: [('abs_tol', 'get_abs_tol', ('abs_tol', '_abs_tol', 'absTol')),
                ('rel_tol', 'get_rel_tol', ('rel_tol', '_rel_tol', 'relTol')),
                ('n_plot_2d_points', 'get_n_plot_2d_points', ('n_plot_2d_points', 'nPlot2dPoints')),
                ('n_plot_3d_points', 'get_n_plot_3d_points', ('n_plot_3d_points', 'nPlot3dPoints'))],
         HYP_: [('abs_tol', 'get_abs_tol', ('abs_tol', '_abs_tol', 'absTol')),
                ('rel_tol', 'get_rel_tol', ('rel_tol', '_rel_tol', 'relTol'))]}


def properties(b, cl, form):
    a, od_, sh = collection(b, cl, form, 2)
    c = b.get(cl)
    k = len(od_)
    for key, getter, names in PROPS[cl]:
        want = [d[key][0] for _, d in od_]
        for nm in names:
            agree(b, key, returns(b, lambda: b.meth(c, 'get_property', a, nm, None)), want, (k,), nm)
            r = b.E.iterate(returns(b, lambda: b.meth(c, 'get_property', a, nm)))
            agree(b, key, r[0], want, (k,), nm)
            least = Form(want[0])
            for w in want[1:]:
                least = Form(mk('min_', least.t, Form(w).t))
            agree(b, key + ' aggregated', r[1], [least], None, nm)
        if 'plot' in key:
            agree(b, key, returns(b, lambda: b.meth(c, getter, a)), want, (k,), getter)
        else:
            agree(b, key, returns(b, lambda: b.meth(c, getter, a, f_prop_fun=None)), want, (k,), getter)
            r = b.E.iterate(returns(b, lambda: b.meth(c, getter, a)))
            agree(b, key + ' aggregated', r[1], [least], None, getter)
            for fname, op in (('max', 'max_'), ('min', 'min_')):
                r = b.E.iterate(returns(b, lambda: b.meth(c, getter, a, Ext('numpy.' + fname))))
                w = Form(want[0])
                for x in want[1:]:
                    w = Form(mk(op, w.t, Form(x).t))
                agree(b, key + ' aggregated', r[1], [w], None, '%s with %s' % (getter, fname))


def planes(b, form, n):
    a, od_, sh = collection(b, HYP_, form, n)
    c = b.get(HYP_)
    dims = [len(d['normal']) for _, d in od_]
    agree(b, 'dimension', returns(b, lambda: b.meth(c, 'dimension', a)), [num(d) for d in dims], sh)
    agree(b, 'empty', returns(b, lambda: b.meth(c, 'is_empty', a)), [boolv(False)] * len(dims), sh)


def zero_plane(b, which):
    """a one-dimensional hyperplane is empty when both its numbers are below its own tolerance"""
    tol = b.num('tol', 1e-3, 2e-3)
    small = b.num('x', 1e-5, 1e-4)
    big = b.num('y', 0.1, 0.2)
    v, s = {'both': (small, small), 'normal': (big, small), 'shift': (small, big), 'none': (big, big)}[which]
    o = b.call(HYP_, b.arr([v]), s, abs_tol=tol)
    w = 0 if which == 'both' else 1
    agree(b, 'dimension', returns(b, lambda: b.meth(b.get(HYP_), 'dimension', b.lst([o]))), [num(w)], (1,))
    agree(b, 'empty', returns(b, lambda: b.meth(b.get(HYP_), 'is_empty', b.lst([o]))), [boolv(w == 0)], (1,))
    o = b.call(HYP_, b.arr([v]), s, abs_tol=b.num('t', 1e-8, 1e-7))
    agree(b, 'dimension (strict)', returns(b, lambda: b.meth(b.get(HYP_), 'dimension', b.lst([o]))), [num(1)], (1,))


def gras_volume(b, n):
    q = b.symm('Q', n)
    m = square(b.els(q), n)
    agree(b, 'ell_volume', returns(b, lambda: b.call(EG + 'ell_volume', q)), [Form(num(UNIT[n])) * det(m).sqrt()], None)


def unitball(b, n):
    o = returns(b, lambda: b.call(CORE + 'ell_unitball', num(n)))
    p = b.E.iterate(b.meth(o, 'parameters'))
    agree(b, 'center', p[0], [num(0.0)] * n, (n,))
    agree(b, 'shape', p[1], [num(float(i == j)) for i in range(n) for j in range(n)], (n, n))


FORMS = ('list', 'arr', 'row', 'col', 'mat', 'fmat', 'cube')


def scenarios(tier):
    for form in FORMS:
        for n in (1, 2, 3, 4, 5, 'mixed'):
            for kind in ('diag', 'pd', 'deg'):
                if n in (3, 4, 5, 'mixed') and form not in ('list', 'col', 'mat', 'fmat') or n == 1 and kind == 'deg':
                    continue
                yield sc('numbers[%s,%s,%s]' % (form, n, kind), numbers, form, n if n != 'mixed' or kind != 'deg' else 3, kind,
                         narrow=0.01)
        for cl in (ELL_, HYP_):
            yield sc('%s properties[%s]' % (cl.rpartition(':')[2], form), properties, cl, form)
        for n in (1, 2, 3, 'mixed'):
            yield sc('planes[%s,%s]' % (form, n), planes, form, n)
        if form != 'cube':
            for n in (1, 2, 3):
                for who in range(n):
                    yield sc('threshold[%s,%d,%d]' % (form, n, who), threshold, form, n, who)
            yield sc('empty ones[%s]' % form, empties, form)
    for w in ('both', 'normal', 'shift', 'none'):
        yield sc('zero plane[%s]' % w, zero_plane, w)
    for n in (6, 7, 8, 9, 10):
        yield sc('numbers[list,%d,diag]' % n, numbers, 'list', n, 'diag', narrow=0.01)
    for n in range(1, 7):
        yield sc('gras volume[%d]' % n, gras_volume, n, narrow=0.01)
    for n in range(1, 11):
        yield sc('unit ball[%d]' % n, unitball, n)
