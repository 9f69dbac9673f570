"""C04: the dictionary form of an object is complete and converts back to the same object."""
from .c03 import *

RULE = ('Value-number comparison through the conversion pair: the dictionaries carry the parameters of their objects (a '
        'hyperplane: the same plane with a unit normal and non-negative shift), with exactly the documented fields; the '
        'name, description and transformation tables cover exactly those fields; converting the dictionaries back gives '
        'objects with the original data, tolerances and plot resolutions, position by position.')
FLOOR = 60
FIELDS = {ELL_: ['shape_mat', 'center_vec'], HYP_: ['normal_vec', 'shift']}
PROPS = {ELL_: PROP4, HYP_: PROP4[:2]}


def collection(b, cl, form, n, kind='pd'):
    k = dict(one=1, mat=4, fmat=4, cube=4).get(form, 2)
    dims = [2, 3, 1, 2] if n == 'mixed' else [n] * 4
    od_ = [full(b, 'E%d' % i, dims[i], kind, cl == HYP_) for i in range(k)]
    objs = [o for o, _ in od_]
    a = b.oarr(objs, (2, 1, 2)) if form == 'cube' else pack(b, objs, form)
    sh = {'list': (k,), 'arr': (k,), 'row': (1, k), 'col': (k, 1), 'mat': (2, 2), 'fmat': (2, 2), 'cube': (2, 1, 2), 'one': ()}[form]
    return a, od_, sh


def items(b, d):
    """python dict of a dictionary value with constant keys"""
    d = b.E.use(d)
    if not (isinstance(d, Ref) and d.kind == 'dict'):
        return None
    return {b.E.use(k): v for k, v in b.E.cont(d)}


def plane(b, v, s, d, what):
    """(v, s) describes the same plane as the data d, normalised"""
    n2 = dot(d['normal'], [Form(x) for x in d['normal']])
    ln = n2.sqrt()
    sg = mk('ite', b_lt(d['shift'][0]), const_t(-1), const_t(1))
    want = [Form(x) / ln * Form(sg) for x in d['normal']]
    state(b, 'normal', join(scalar(b, x, y) for x, y in zip(b.els(v), want)), what)
    state(b, 'shift', join([scalar(b, b.els(s)[0], (Form(d['shift'][0]) / ln).abs())]), what)


def b_lt(x):
    return mk('lt0', x.t) if x.lo < 0 < x.hi else FALSE_T if x.lo >= 0 else TRUE_T


def encode(b, cl, form, n, prop, kind):
    a, od_, sh = collection(b, cl, form, n, kind)
    args = [a] + ([boolv(True)] if prop else [])
    r = b.E.iterate(returns(b, lambda: b.meth(b.get(cl), 'to_dict', *args)))
    ds, nice, descr, func = r
    b.ob('array shape', tuple(b.shape(ds)) == sh, 'dictionaries %s for objects %s' % (b.shape(ds), sh))
    want = set(FIELDS[cl] + (PROPS[cl] if prop else []))
    for nm, t in (('names', nice), ('descriptions', descr), ('transformations', func)):
        it = items(b, t)
        if it is None:
            b.ob(nm, None, 'not a dictionary')
        else:
            b.ob(nm, set(it) == want, '%s for %s, fields %s' % (nm, sorted(it), sorted(want)))
    it = items(b, nice)
    if it is not None:
        b.ob('names are distinct', len(set(it.values())) == len(it), 'nice names %s' % (sorted(map(str, it.values())),))
    dl = b.els(ds)
    for i, (x, (o, d)) in enumerate(zip(dl, od_)):
        it = items(b, x)
        if it is None:
            b.ob('fields', None, 'not a dictionary')
            continue
        b.ob('fields', set(it) == want, 'dictionary %d has %s, required %s' % (i, sorted(it), sorted(want)))
        if not want <= set(it):
            continue
        if cl == ELL_:
            agree(b, 'shape', it['shape_mat'], d['shape'], (len(d['center']),) * 2, 'dictionary %d' % i)
            agree(b, 'center', it['center_vec'], d['center'], (len(d['center']),), 'dictionary %d' % i)
        else:
            plane(b, it['normal_vec'], it['shift'], d, 'dictionary %d' % i)
        if prop:
            for k in PROPS[cl]:
                agree(b, k, it[k], d[k], None, 'dictionary %d' % i)


def roundtrip(b, cl, form, n, kind):
    a, od_, sh = collection(b, cl, form, n, kind)
    ds = b.E.iterate(returns(b, lambda: b.meth(b.get(cl), 'to_dict', a, boolv(True))))[0]
    r = returns(b, lambda: b.meth(b.get(cl), 'from_dict', ds))
    b.ob('array shape', tuple(b.shape(r)) == sh, 'objects %s, originally %s' % (b.shape(r), sh))
    for i, (x, (o, d)) in enumerate(zip(b.els(r), od_)):
        if cl == ELL_:
            check(b, cl, x, d, 'object %d' % i)
        else:
            v = look(b, cl, x)
            plane(b, b.arr([y for y in v['normal']]), v['shift'][0], d, 'object %d' % i)
            for k in PROPS[cl]:
                state(b, k, join([scalar(b, v[k][0], d[k][0])]), 'object %d' % i)


def decode(b, cl, form, props):
    """dictionaries written by hand: every subset of properties; missing ones take the configuration"""
    ds, want = [], []
    for i in range(2):
        n = 2 + i
        if cl == ELL_:
            q, c = b.symm('Q%d' % i, n), b.vec('c%d' % i, n)
            d = [('shape_mat', q), ('center_vec', c)]
            w = dict(center=b.els(c), shape=b.els(q))
        else:
            v, s = b.vec('n%d' % i, n, 0.5, 2.0), b.num('s%d' % i, -1.0, 1.0)
            d = [('normal_vec', v), ('shift', s)]
            w = dict(normal=b.els(v), shift=[s])
        for k in PROPS[cl]:
            if k in props:
                x = b.num('%s%d' % (k, i), 10, 50, 'i') if 'plot' in k else b.num('%s%d' % (k, i), 1e-8, 1e-6)
                d.append((k, x))
                w[k] = [x]
            else:
                w[k] = b.els(b.call(b.get(PROPS_ + '.get_' + k)))
        if i:
            d.reverse()
        ds.append(b.E.new_dict(d))
        want.append(w)
    r = returns(b, lambda: b.meth(b.get(cl), 'from_dict', pack(b, ds, form)))
    sh = {'list': (2,), 'arr': (2,), 'row': (1, 2), 'col': (2, 1)}[form]
    b.ob('array shape', tuple(b.shape(r)) == sh, 'objects %s for dictionaries %s' % (b.shape(r), sh))
    for i, (x, d) in enumerate(zip(b.els(r), want)):
        check(b, cl, x, d, 'object %d' % i)


def scenarios(tier):
    for cl in (ELL_, HYP_):
        nm = cl.rpartition(':')[2]
        for form in ('list', 'arr', 'row', 'col', 'mat', 'fmat', 'cube', 'one'):
            for n in (2, 'mixed') + ((1, 3) if form == 'list' else ()):
                if form == 'one' and n == 'mixed':
                    continue
                kinds = (('pd',) if n != 2 else ('pd', 'deg') if cl == ELL_ else ('pd', 'neg', 'any'))
                for kind in kinds:
                    if kind == 'any' and form in ('mat', 'fmat', 'cube', 'arr', 'one'):
                        continue
                    for prop in (False, True):
                        yield sc('%s.to_dict[%s,%s,%s,%s]' % (nm, form, n, prop, kind), encode, cl, form, n, prop, kind)
                    if form != 'one':
                        yield sc('%s round trip[%s,%s,%s]' % (nm, form, n, kind), roundtrip, cl, form, n, kind)
        sets = [()] + [(p,) for p in PROPS[cl]] + [tuple(PROPS[cl])]
        for form in ('list', 'arr', 'row', 'col'):
            for props in sets:
                yield sc('%s.from_dict[%s,%s]' % (nm, form, '+'.join(props) or 'none'), decode, cl, form, props)
