"""C15: negation and projection are the exact linear images, element by element."""
from .c03 import *
from .c04 import collection
from .c14 import square, FORMS

RULE = ('Closed forms: negation gives the opposite center and the same shape (hyperplane: both numbers switched), twice gives '
        'the original; projection onto an orthogonal system B of any lengths gives N\'c and N\'QN with N the normalised B; '
        'the value numbers of the results must equal these terms, for collections in every array form, in order; the '
        'projected copy leaves the operand alone and the in-place projection changes exactly the elements it is given.')
FLOOR = 60


def ek(b, o):
    p = b.E.iterate(b.meth(o, 'parameters'))
    return p[0], p[1]


def neg(x):
    return [-Form(y) for y in x]


def expect(b, o, c, q, tag, cl=ELL_):
    if not (isinstance(o, Ref) and o.kind == 'obj'):
        b.ob('object', None if isinstance(o, Top) else False, '%s is %r' % (tag, o))
        return
    b.ob('class', o.cls.name == cl.rpartition(':')[2], '%s is a %s' % (tag, o.cls.name))
    v, w = ek(b, o)
    agree(b, 'center' if cl == ELL_ else 'normal', v, c, (len(c),), tag)
    agree(b, 'shape' if cl == ELL_ else 'shift', w, q, (len(c), len(c)) if cl == ELL_ else None, tag)


def data(cl, d):
    return (d['center'], d['shape']) if cl == ELL_ else (d['normal'], d['shift'])


def negate(b, cl, form, n, kind, how):
    a, od_, sh = collection(b, cl, form, n, kind)
    if how == 'operator':
        r = [returns(b, lambda: b.meth(o, '__neg__')) for o, _ in od_]
    else:
        r = returns(b, lambda: b.meth(b.get(cl), 'uminus', a))
        b.ob('array shape', tuple(b.shape(r)) == sh, 'negation %s of %s' % (b.shape(r), sh))
        back = b.els(returns(b, lambda: b.meth(b.get(cl), 'uminus', r)))
        r = b.els(r)
        for i, (o, (_, d)) in enumerate(zip(back, od_)):
            c, q = data(cl, d)
            expect(b, o, c, q, 'twice negated %d' % i, cl)
    b.ob('count', len(r) == len(od_), '%d of %d' % (len(r), len(od_)))
    for i, (o, (x, d)) in enumerate(zip(r, od_)):
        c, q = data(cl, d)
        expect(b, o, neg(c), q if cl == ELL_ else neg(q), 'negated %d' % i, cl)
        expect(b, x, c, q, 'operand %d' % i, cl)


def ortho(b, n, m, kind):
    """n x m matrix (rows) with exactly orthogonal columns of any length"""
    s = lambda i: b.num('B%d' % i, 0.5, 2.0, np=True)
    E = b.E
    if kind == 'axes':
        return [[s(j) if i == j else num(0.0, True) for j in range(m)] for i in range(n)]
    if kind == 'permuted':
        return [[s(j) if i == n - 1 - j else num(0.0, True) for j in range(m)] for i in range(n)]
    if kind == 'negative':
        return [[E.unop('USub', s(j)) if i == (j + 1) % n else num(0.0, True) for j in range(m)] for i in range(n)]
    # rotated in the first two coordinates
    p, q = s(0), s(1)
    cols = [[p, q] + [num(0.0, True)] * (n - 2), [E.unop('USub', q), p] + [num(0.0, True)] * (n - 2)]
    cols += [[num(0.0, True)] * k + [s(k)] + [num(0.0, True)] * (n - 1 - k) for k in range(2, n)]
    if m == 1 and n == 3:
        cols = [[p, q, s(2)]]
    if m == 1 and n == 1:
        cols = [[p]]
    return [[cols[j][i] for j in range(m)] for i in range(n)]


def project(b, form, n, m, kind, how, qk='pd'):
    a, od_, sh = collection(b, ELL_, form, n, qk)
    rows = ortho(b, n, m, kind)
    B_ = b.E.new_arr([x for r in rows for x in r], (n, m), 'f')
    fb = [[Form(x) for x in r] for r in rows]
    for j in range(m):
        ln = dot([r[j] for r in fb], [r[j] for r in fb]).sqrt()
        for i in range(n):
            fb[i][j] = fb[i][j] / ln
    r = returns(b, lambda: b.meth(b.get(ELL_), how, a, B_))
    b.ob('array shape', tuple(b.shape(r)) == sh, 'projection %s of %s' % (b.shape(r), sh))
    res = b.els(r)
    b.ob('count', len(res) == len(od_), '%d of %d' % (len(res), len(od_)))
    for i, (o, (x, d)) in enumerate(zip(res, od_)):
        q = square(d['shape'], n)
        c = [Form(y) for y in d['center']]
        bt = tr(fb)
        expect(b, o, mm(bt, c), unroll(mm(mm(bt, q), fb)), 'projection %d' % i)
        for k in PROP4:
            state(b, 'properties', join([scalar(b, look(b, ELL_, o)[k][0], d[k][0])]), 'projection %d' % i)
        if how == 'get_projection':
            expect(b, x, d['center'], d['shape'], 'operand %d' % i)
        else:
            b.ob('in place', isinstance(o, Ref) and o.id == x.id, 'element %d is another object' % i)


def scenarios(tier):
    for cl in (ELL_, HYP_):
        nm = cl.rpartition(':')[2]
        for form in FORMS:
            for n in (1, 2, 3, 4, 'mixed'):
                if n != 2 and form not in ('list', 'col', 'mat', 'fmat'):
                    continue
                yield sc('%s.uminus[%s,%s]' % (nm, form, n), negate, cl, form, n, 'pd', 'call')
            if form == 'list':
                for kind in (('deg', 'diag') if cl == ELL_ else ('neg', 'any')):
                    yield sc('%s.uminus[%s,%s]' % (nm, form, kind), negate, cl, form, 3, kind, 'call')
        for n in (1, 2, 3):
            yield sc('-%s[%d]' % (nm, n), negate, cl, 'list', n, 'pd', 'operator')
    for how in ('get_projection', 'projection'):
        for n in (1, 2, 3, 4):
            for m in range(1, n + 1):
                for kind in ('axes', 'permuted', 'negative', 'rotated'):
                    for form in FORMS:
                        if form != 'list' and (n != 3 or kind in ('axes', 'negative')) or n == 1 and kind != 'axes':
                            continue
                        yield sc('%s[%s,%d,%d,%s]' % (how, form, n, m, kind), project, form, n, m, kind, how)
        for kind in ('axes', 'rotated'):
            yield sc('%s[degenerate,%s]' % (how, kind), project, 'list', 3, 2, kind, how, 'deg')
