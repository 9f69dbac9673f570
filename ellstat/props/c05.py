"""C05: comparing objects is an honest, symmetric, position-wise relation."""
from .c03 import *
from .c04 import collection

RULE = ('Abstract comparison of object pairs over input boxes: an object equals itself and its copy; two objects that differ by '
        'more than both tolerances in one single component (every component in turn: center, shape matrix entry, normal, '
        'shift, or - when properties are included - one property) are unequal, exactly at that position of the collection; '
        'differences below both tolerances do not count; swapping the operands gives the same truth value; eq, ne, == and '
        '!= agree; the report is empty exactly when everything is equal.')
FLOOR = 60


def pair(b, cl, n, comp, delta, i=0, base='diag', tol=None):
    """two objects whose data agree except for component `comp`, which differs by delta"""
    kw1, kw2 = (tols(b, 'E%d' % i), tols(b, 'G%d' % i)) if tol is None else tol
    E = b.E
    if cl == ELL_:
        c = b.els(b.vec('E%d.c' % i, n, 0.5, 1.0))
        if base == 'diag':
            q = b.els(b.diag('E%d.Q' % i, [(1.0 + k, 1.2 + k) for k in range(n)]))
        else:
            q = b.els(b.symm('E%d.Q' % i, n))
        c2, q2 = list(c), list(q)
        if comp and comp[0] == 'c':
            c2[comp[1]] = E.binop('Add', c[comp[1]], delta)
        elif comp and comp[0] == 'q':
            for k in {comp[1] * n + comp[2], comp[2] * n + comp[1]}:
                q2[k] = E.binop('Add', q[k], delta)
        x = b.call(ELL_, E.new_arr(c, (n,), 'f'), E.new_arr(q, (n, n), 'f'), **kw1)
        y = b.call(ELL_, E.new_arr(c2, (n,), 'f'), E.new_arr(q2, (n, n), 'f'), **kw2)
    else:
        v, s = b.els(b.vec('H%d.n' % i, n, 0.5, 0.6)), b.num('H%d.s' % i, 0.5, 0.6)
        v2, s2 = list(v), s
        if comp and comp[0] == 'n':
            v2[comp[1]] = E.binop('Add', v[comp[1]], delta)
        elif comp:
            s2 = E.binop('Add', s, delta)
        x = b.call(HYP_, E.new_arr(v, (n,), 'f'), s, **kw1)
        y = b.call(HYP_, E.new_arr(v2, (n,), 'f'), s2, **kw2)
    return x, y


def components(cl, n):
    if cl == ELL_:
        return [('c', i) for i in range(n)] + [('q', i, j) for i in range(n) for j in range(i + 1)]
    return [('n', i) for i in range(n)] + [('s',)] if n > 1 else [('s',)]


def cls(b, cl):
    return b.get(cl)


def report(b, r, equal):
    """the report is empty exactly when everything is equal"""
    s = b.E.use(r)
    if b.E.solid(s):
        b.ob('report', not equal, 'report %r' % (s,))
    else:
        b.ob('report', equal if s == '' else None, 'report %r' % (s,))


def verdict(b, cl, x, y, want, tag, more=()):
    a, c = b.lst([x]), b.lst([y])
    r = b.E.iterate(returns(b, lambda: b.meth(cls(b, cl), 'is_equal', a, c, *more)))
    always(b, tag, r[0], want, 'is_equal')
    report(b, r[1], want)
    return r[0]


def single(b, cl, n, comp, sign, base):
    d = b.num('d', *((0.3, 0.4) if sign > 0 else (-0.25, -0.2)))
    x, y = pair(b, cl, n, comp, d, 0, base)
    verdict(b, cl, x, y, False, 'difference seen')
    if not b.narrow:
        return
    verdict(b, cl, y, x, False, 'difference seen (swapped)')
    a, c = b.lst([x]), b.lst([y])
    always(b, 'eq', b.E.iterate(b.meth(cls(b, cl), 'eq', a, c))[0], False, 'eq')
    always(b, 'ne', b.E.iterate(b.meth(cls(b, cl), 'ne', a, c))[0], True, 'ne')
    always(b, '==', b.meth(x, '__eq__', y), False, '==')
    always(b, '!=', b.meth(x, '__ne__', y), True, '!=')
    verdict(b, cl, x, y, False, 'difference seen (properties included)', (boolv(True),))


def near(b, cl, n, comp, base):
    x, y = pair(b, cl, n, comp, b.num('d', -1e-11, 1e-11), 0, base)
    verdict(b, cl, x, y, True, 'tiny difference does not count')
    a, c = b.lst([x]), b.lst([y])
    always(b, 'eq', b.E.iterate(b.meth(cls(b, cl), 'eq', a, c))[0], True, 'eq')
    always(b, 'ne', b.E.iterate(b.meth(cls(b, cl), 'ne', a, c))[0], False, 'ne')
    always(b, '==', b.meth(x, '__eq__', y), True, '==')
    always(b, '!=', b.meth(x, '__ne__', y), False, '!=')


def reflexive(b, cl, n, kind):
    o, d = full(b, 'E', n, kind, cl == HYP_)
    verdict(b, cl, o, o, True, 'equals itself')
    c = b.els(b.meth(cls(b, cl), 'get_copy', b.lst([o])))[0]
    verdict(b, cl, o, c, True, 'equals its copy')
    verdict(b, cl, o, c, True, 'equals its copy (properties included)', (boolv(True),))
    always(b, '==', b.meth(o, '__eq__', c), True, '==')
    always(b, '!=', b.meth(o, '__ne__', c), False, '!=')


def strict(b, cl, n, comp, which):
    """one operand is tolerant, the other strict: the difference counts, whichever comes first"""
    lo = dict(abs_tol=b.num('a1', 1e-9, 1e-8), rel_tol=b.num('r1', 1e-9, 1e-8))
    hi = dict(abs_tol=b.num('a2', 0.3, 0.4), rel_tol=b.num('r2', 0.5, 0.6))
    hi2 = dict(lo, **{k: v for k, v in hi.items() if which in (k, 'both')})
    if which != 'both':
        lo = dict(lo, **{k: hi[k] for k in lo if k != which})
        if which == 'abs_tol':      # the relative criterion must not mask the absolute one
            lo['rel_tol'] = b.num('r3', 1e-9, 1e-8)
            hi2['rel_tol'] = b.num('r4', 1e-9, 1e-8)
        else:
            lo['abs_tol'] = b.num('a3', 1e-9, 1e-8)
            hi2['abs_tol'] = b.num('a4', 1e-9, 1e-8)
    x, y = pair(b, cl, n, comp, b.num('d', 0.01, 0.02), 0, 'diag', (lo, hi2))
    verdict(b, cl, x, y, False, 'difference seen')
    verdict(b, cl, y, x, False, 'difference seen (swapped)')


def lenient(b, cl, n, comp):
    """both tolerant"""
    hi = dict(abs_tol=b.num('a2', 0.3, 0.4), rel_tol=b.num('r2', 0.5, 0.6))
    x, y = pair(b, cl, n, comp, b.num('d', 0.01, 0.02), 0, 'diag', (hi, dict(hi)))
    verdict(b, cl, x, y, True, 'difference below tolerance')
    hi = dict(abs_tol=b.num('a5', 1e-9, 1e-8), rel_tol=b.num('r5', 0.5, 0.6))
    x, y = pair(b, cl, n, comp, b.num('d', 0.01, 0.02), 1, 'diag', (hi, dict(hi)))
    if comp[0] != 'q' or comp[1] == comp[2]:
        verdict(b, cl, x, y, True, 'difference below relative tolerance')


def symmetric(b, cl, n, kind):
    if cl == ELL_:
        x, y = ell(b, 'E', n, kind), ell(b, 'G', n, kind)
    else:
        x, y = hyp(b, 'E', n), hyp(b, 'G', n)
    f = lambda u, v: b.E.iterate(returns(b, lambda: b.meth(cls(b, cl), 'is_equal', b.lst([u]), b.lst([v]))))[0]
    same(b, 'symmetric', f(x, y), f(y, x), 'is_equal(x,y) and is_equal(y,x)')


def properties(b, cl, n, prop, big):
    """objects that differ in one property only"""
    o, d = full(b, 'E', n, 'diag', cl == HYP_)
    cls_ = b.get(cl)
    kw = {k: d[k][0] for k in (PROP4 if cl == ELL_ else PROP4[:2])}
    if prop in ('abs_tol', 'rel_tol'):
        kw[prop] = b.num('other', 1e-3, 1e-2)
    else:
        kw[prop] = b.num('other', 100, 200, 'i')
    p = b.E.iterate(b.meth(o, 'parameters'))
    y = b.call(cl, p[0], p[1], **kw)
    u, v = (o, y) if big else (y, o)
    verdict(b, cl, u, v, True, 'properties ignored by default')
    always(b, '==', b.meth(u, '__eq__', v), True, '==')
    verdict(b, cl, u, v, False, 'property difference seen', (boolv(True),))


def positions(b, cl, form, j, fb):
    """a collection that differs from its counterpart at position j only"""
    k = dict(mat=4, fmat=4, cube=4).get(form, 3)
    sh = {'list': (k,), 'arr': (k,), 'row': (1, k), 'col': (k, 1), 'mat': (2, 2), 'fmat': (2, 2), 'cube': (2, 1, 2)}[form]
    comp = components(cl, 2)
    ps = [pair(b, cl, 2, comp[i % len(comp)] if i in j else None, b.num('d%d' % i, 0.3, 0.4), i) for i in range(k)]

    def mk_(objs):
        return b.oarr(objs, sh) if form == 'cube' else pack(b, objs, form)
    x, y = mk_([p[0] for p in ps]), mk_([p[1] for p in ps])
    if form == 'fmat' and 2 in j:
        y = pack(b, [p[1] for p in ps], 'mat')
    if fb:
        x, y = y, x
    r = b.E.iterate(returns(b, lambda: b.meth(cls(b, cl), 'is_equal', x, y)))
    agree(b, 'equal positions', r[0], [boolv(i not in j) for i in range(k)], sh, 'is_equal')
    report(b, r[1], not j)
    r = b.E.iterate(returns(b, lambda: b.meth(cls(b, cl), 'ne', x, y)))
    agree(b, 'unequal positions', r[0], [boolv(i in j) for i in range(k)], sh, 'ne')
    r = b.E.iterate(returns(b, lambda: b.meth(cls(b, cl), 'eq', x, y)))
    agree(b, 'eq positions', r[0], [boolv(i not in j) for i in range(k)], sh, 'eq')


def broadcast(b, cl, form, j, first):
    """one object against a collection"""
    k = dict(mat=4, fmat=4).get(form, 3)
    sh = {'list': (k,), 'arr': (k,), 'row': (1, k), 'col': (k, 1), 'mat': (2, 2), 'fmat': (2, 2)}[form]
    x, far = pair(b, cl, 2, ('c', 0) if cl == ELL_ else ('s',), b.num('d', 3.0, 4.0))
    objs = [far if i == j else x for i in range(k)]
    a = pack(b, objs, form)
    args = (b.lst([x]), a) if first else (a, b.lst([x]))
    r = b.E.iterate(returns(b, lambda: b.meth(cls(b, cl), 'is_equal', *args)))
    agree(b, 'equal positions', r[0], [boolv(i != j) for i in range(k)], sh, 'is_equal')


def dims(b, cl, n, m):
    if cl == ELL_:
        x, y = ell(b, 'E', n), ell(b, 'G', m)
    else:
        x, y = hyp(b, 'E', n), hyp(b, 'G', m)
    verdict(b, cl, x, y, False, 'different dimensions')
    always(b, '==', b.meth(x, '__eq__', y), False, '==')
    always(b, '!=', b.meth(x, '__ne__', y), True, '!=')


def with_empty(b):
    e, f = b.call(ELL_), ell(b, 'E', 2)
    verdict(b, ELL_, e, f, False, 'empty against non-empty')
    verdict(b, ELL_, f, e, False, 'non-empty against empty')
    verdict(b, ELL_, e, b.call(ELL_), True, 'empty ellipsoids')


def rearranged(b, cl, n, how):
    """the same numbers with another sign or at another place are other data"""
    E = b.E
    neg = lambda v: E.unop('USub', v)
    mk_ = lambda v, sh: E.new_arr(v, sh, 'f')
    c = b.els(b.vec('E.c', n, 0.5, 0.6)) if n < 2 else [b.num('E.c%d' % i, 0.5 + i, 0.6 + i) for i in range(n)]
    if cl == ELL_:
        q = [[b.num('Q%d' % i, 2 + i, 2.1 + i) if i == j else None for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(i):
                q[i][j] = q[j][i] = b.num('Q%d,%d' % (i, j), 0.5 + 0.2 * j, 0.51 + 0.2 * j)
        c2, q2 = list(c), [list(r) for r in q]
        if how == 'turned center':
            c2 = [neg(x) for x in c]
        elif how == 'swapped center':
            c2[0], c2[-1] = c2[-1], c2[0]
        elif how == 'turned entry':
            for i, j in ((n - 1, 0), (0, n - 1)):
                q2[i][j] = neg(q[i][j])
        elif how == 'swapped axes':
            q2[0][0], q2[-1][-1] = q2[-1][-1], q2[0][0]
        flat = lambda m: [x for r in m for x in r]
        x = b.call(ELL_, mk_(c, (n,)), mk_(flat(q), (n, n)), **tols(b, 'E'))
        y = b.call(ELL_, mk_(c2, (n,)), mk_(flat(q2), (n, n)), **tols(b, 'G'))
        want = how == 'same'
    else:
        s = b.num('E.s', 0.5, 0.6)
        c2, s2 = list(c), s
        if how == 'turned entry':
            c2[-1] = neg(c2[-1])
        elif how == 'swapped normal':
            c2[0], c2[-1] = c2[-1], c2[0]
        elif how == 'turned normal':
            c2 = [neg(v) for v in c]
        elif how == 'turned shift':
            s2 = neg(s)
        x = b.call(HYP_, mk_(c, (n,)), s, **tols(b, 'E'))
        y = b.call(HYP_, mk_(c2, (n,)), s2, **tols(b, 'G'))
        want = how == 'same'
    verdict(b, cl, x, y, want, how)
    verdict(b, cl, y, x, want, how + ' (swapped)')


def multiple(b, n, signs, ss, k):
    """a multiple of the normal and the shift describes the same hyperplane"""
    E = b.E
    v = [b.num('n%d' % i, *((0.5, 0.55) if s > 0 else (-0.55, -0.5))) for i, s in zip(range(n), signs)]
    s = b.num('s', *((0.7, 0.75) if ss > 0 else (-0.75, -0.7)))
    f = num(k)
    x = b.call(HYP_, E.new_arr(v, (n,), 'f'), s, **tols(b, 'E'))
    y = b.call(HYP_, E.new_arr([E.binop('Mult', f, t) for t in v], (n,), 'f'), E.binop('Mult', f, s), **tols(b, 'G'))
    verdict(b, HYP_, x, y, True, 'multiple')
    verdict(b, HYP_, y, x, True, 'multiple (swapped)')


def flat_ones(b, lenient, other):
    """ellipsoids with an eigenvalue that is negative within their own tolerance"""
    E = b.E
    z = b.num('z', -2e-5, -1e-5)
    q = lambda x: E.new_arr([num(1.0), num(0.0), num(0.0), x], (2, 2), 'f')
    c = lambda: E.new_arr([num(0.5), num(1.5)], (2,), 'f')
    x = b.call(ELL_, c(), q(z), abs_tol=b.num('a', 1e-4, 2e-4))
    y = b.call(ELL_, c(), q(b.num('w', 0.5, 1.0) if other == 'big' else num(0.0)),
               **(dict(abs_tol=b.num('a2', 1e-9, 1e-8)) if lenient != 'both' else dict(abs_tol=b.num('a', 1e-4, 2e-4))))
    if other == 'self':
        verdict(b, ELL_, x, x, True, 'itself')
        r = b.E.iterate(returns(b, lambda: b.meth(cls(b, ELL_), 'is_equal', b.lst([x, y]), b.lst([x, y]))))
        always(b, 'both', b.els(r[0])[0], True, 'is_equal')
        always(b, 'both', b.els(r[0])[1], True, 'is_equal')
        return
    verdict(b, ELL_, x, y, other != 'big', other)
    verdict(b, ELL_, y, x, other != 'big', other + ' (swapped)')


def no_objects(b, cl):
    r = b.E.iterate(returns(b, lambda: b.meth(cls(b, cl), 'is_equal', b.lst([]), b.lst([]))))
    always(b, 'nothing', r[0], True, 'is_equal')
    report(b, r[1], True)
    r = b.E.iterate(returns(b, lambda: b.meth(cls(b, cl), 'ne', b.lst([]), b.lst([]))))
    always(b, 'nothing', r[0], False, 'ne')


def long_list(b, cl, k, j):
    o = ell(b, 'E', 1) if cl == ELL_ else hyp(b, 'E', 2)
    far = pair(b, cl, 2, None, None)[0]
    r = b.E.iterate(returns(b, lambda: b.meth(cls(b, cl), 'is_equal', b.lst([o] * k), b.lst([far if i == j else o for i in range(k)]))))
    agree(b, 'positions', r[0], [boolv(i != j) for i in range(k)], (k,), 'is_equal')
    report(b, r[1], j is None)


def scenarios(tier):
    for n in (1, 2, 3):
        for how in ('same', 'turned center') + (('swapped center', 'turned entry', 'swapped axes') if n > 1 else ()):
            yield sc('Ellipsoid rearranged[%d,%s]' % (n, how), rearranged, ELL_, n, how, narrow=1e-12)
        for how in (('same', 'turned entry', 'swapped normal', 'turned normal', 'turned shift') if n > 1 else ('turned normal', 'turned shift')):
            yield sc('Hyperplane rearranged[%d,%s]' % (n, how), rearranged, HYP_, n, how, narrow=1e-12)
        for signs in [[1 - 2 * (m >> i & 1) for i in range(n)] for m in range(2 ** n)]:
            for ss in (1, -1):
                for k in (-1.0, 2.5, -0.25):
                    yield sc('Hyperplane multiple[%s,%d,%s]' % (''.join('+-'[t < 0] for t in signs), ss, k), multiple, n, signs, ss, k, narrow=1e-13)
    for lenient_ in ('one', 'both'):
        for other in ('self', 'big', 'none') if lenient_ == 'both' else ('self', 'big'):
            yield sc('Ellipsoid flat[%s,%s]' % (lenient_, other), flat_ones, lenient_, other, narrow=1e-7)
    for cl in (ELL_, HYP_):
        nm = cl.rpartition(':')[2]
        yield sc('%s nothing' % nm, no_objects, cl)
        for k, j in ((12, None), (12, 0), (12, 11), (20, 19)):
            yield sc('%s many[%d,%s]' % (nm, k, j), long_list, cl, k, j, narrow=0.01)
    for cl in (ELL_, HYP_):
        nm = cl.rpartition(':')[2]
        for n in (1, 2, 3):
            for comp in components(cl, n):
                for base, w in ((('diag', 0.01), ('pd', 0.002), ('diag', 0)) if cl == ELL_ else (('diag', 0.01), ('diag', 0))):
                    if not w and (comp[0] == 'q' or cl == HYP_ and n > 1):
                        continue
                    if base == 'pd' and n == 3:
                        w = 1e-6
                    tag = '' if w else ',box'
                    cs = '%s%s' % (comp[0], ','.join(map(str, comp[1:])))
                    for sign in (1, -1):
                        yield sc('%s one difference[%d,%s,%s,%d%s]' % (nm, n, cs, base, sign, tag), single, cl, n, comp, sign, base,
                                 narrow=w)
                    yield sc('%s tiny difference[%d,%s,%s%s]' % (nm, n, cs, base, tag), near, cl, n, comp, base,
                             narrow=w and 1e-9)
                if n < 3:
                    for which in ('abs_tol', 'rel_tol', 'both'):
                        yield sc('%s stricter tolerance[%d,%s,%s]' % (nm, n, cs, which), strict, cl, n, comp, which,
                                 narrow=0.001)
                    yield sc('%s lenient[%d,%s]' % (nm, n, cs), lenient, cl, n, comp, narrow=0.001)
            for kind in (('diag', 'pd', 'wide', 'deg') if cl == ELL_ else ('pd', 'neg')):
                yield sc('%s reflexive[%d,%s]' % (nm, n, kind), reflexive, cl, n, kind)
            for kind in (('diag', 'pd') if cl == ELL_ else ('pd',)):
                if n < 3 and kind == 'diag' or n == 1:
                    yield sc('%s symmetric[%d,%s]' % (nm, n, kind), symmetric, cl, n, kind, runs=300)
            for prop in (PROP4 if cl == ELL_ else PROP4[:2]):
                for big in (True, False):
                    yield sc('%s one property[%d,%s,%s]' % (nm, n, prop, big), properties, cl, n, prop, big,
                             narrow=0.01)
        for form in ('list', 'arr', 'row', 'col', 'mat', 'fmat', 'cube'):
            for j in ((), (0,), (1,), (2,), (0, 2)):
                for fb in (False, True):
                    yield sc('%s positions[%s,%s,%s]' % (nm, form, '+'.join(map(str, j)), fb), positions, cl, form, j, fb,
                             narrow=0.005)
            if form != 'cube':
                for j in (None, 0, 2):
                    for first in (True, False):
                        yield sc('%s one against many[%s,%s,%s]' % (nm, form, j, first), broadcast, cl, form, j,
                                 first, narrow=0.005)
        for n, m in ((1, 2), (2, 3), (3, 1)):
            yield sc('%s dimensions[%d,%d]' % (nm, n, m), dims, cl, n, m)
    yield sc('empty ellipsoid', with_empty)
