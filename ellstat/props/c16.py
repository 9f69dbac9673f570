"""C16: Minkowski sum approximations: center, shape formula, tightness, one result per direction."""
from .c15 import *

RULE = ('Closed forms and identity test of value numbers: the external approximation for direction l has center sum(c_i) and '
        'shape (sum sqrt(l\'Q_i l)) * sum(Q_i / sqrt(l\'Q_i l)); every approximation, external or internal, has the support '
        'value sum(<c_i,l> + sqrt(l\'Q_i l)) in its own direction; the internal one is symmetric; there is one result per '
        'direction, in order; a single operand is returned as it is; operands stay what they were.')
FLOOR = 40


def quad(q, l):
    return dot(l, mm(q, l))


def operands(b, form, n, k, kind):
    objs, ds = [], []
    for i in range(k):
        o, d = full(b, 'E%d' % i, n, kind)
        objs.append(o)
        ds.append(d)
    return pack(b, objs, form), objs, ds


def minksum(b, op, form, n, k, nd, kind, lneg=False):
    a, objs, ds = operands(b, form, n, k, kind)
    if nd == 'vec':
        L = b.vec('L', n, 0.5, 1.0)
        ls = [[Form(x) for x in b.els(L)]]
    else:
        L = b.mat('L', n, nd, *((-1.0, -0.5) if lneg else (0.5, 1.0)))
        ls = tr(fm(b, L))
    r = returns(b, lambda: b.meth(b.get(ELL_), op, a, L))
    res = b.els(r)
    want = 1 if nd == 'vec' else nd
    b.ob('one result per direction', len(res) == want, '%d results for %d directions' % (len(res), want))
    qs = [square(d['shape'], n) for d in ds]
    cs = [[Form(x) for x in d['center']] for d in ds]
    c = cs[0]
    for x in cs[1:]:
        c = [p + q for p, q in zip(c, x)]
    for j, (o, l) in enumerate(zip(res, ls)):
        tag = 'direction %d' % j
        if not (isinstance(o, Ref) and o.kind == 'obj'):
            b.ob('object', None, '%r' % (o,))
            continue
        v, w = ek(b, o)
        agree(b, 'center', v, c, (n,), tag)
        if k == 1:
            agree(b, 'shape', w, unroll(qs[0]), (n, n), tag)
            continue
        rt = [quad(q, l).sqrt() for q in qs]
        s = rt[0]
        for x in rt[1:]:
            s = s + x
        if op == 'minksum_ea':
            m = [[None] * n for _ in range(n)]
            for i in range(n):
                for jj in range(n):
                    t = qs[0][i][jj] / rt[0]
                    for q, x in zip(qs[1:], rt[1:]):
                        t = t + q[i][jj] / x
                    m[i][jj] = s * t
            agree(b, 'shape', w, unroll(m), (n, n), tag)
        got = square(b.els(w), n)
        state(b, 'tight in its direction', scalar(b, quad(got, l), s * s), tag)
        state(b, 'symmetric', join(scalar(b, got[i][jj], got[jj][i]) for i in range(n) for jj in range(i)), tag)
        # opposite direction is tight as well, another direction bounded: checked through the closed form
    for i, (o, d) in enumerate(zip(objs, ds)):
        expect(b, o, d['center'], d['shape'], 'operand %d' % i)


def collapsed(b, op, n, who, direction):
    """operands without extent along the last axis are widened to their own tolerance there"""
    k = 2
    objs, ds, qs = [], [], []
    for i in range(k):
        o, d = full(b, 'E%d' % i, n, 'deg' if i in who else 'diag')
        objs.append(o)
        ds.append(d)
        q = [list(r) for r in square(d['shape'], n)]
        if i in who:
            q[n - 1][n - 1] = Form(d['abs_tol'][0])
        qs.append(q)
    if direction == 'kernel':
        l = [num(0.0)] * (n - 1) + [b.num('l', 0.5, 1.0)]
    elif direction == 'image':
        l = [b.num('l%d' % i, 0.5, 1.0) for i in range(n - 1)] + [num(0.0)]
    else:
        l = [b.num('l%d' % i, 0.5, 1.0) for i in range(n)]
    r = returns(b, lambda: b.meth(b.get(ELL_), op, b.lst(objs), b.E.new_arr(l, (n, 1), 'f')))
    res = b.els(r)
    b.ob('one result per direction', len(res) == 1, '%d results' % len(res))
    l = [Form(x) for x in l]
    v, w = ek(b, res[0])
    agree(b, 'center', v, [Form(x) + Form(y) for x, y in zip(ds[0]['center'], ds[1]['center'])], (n,), 'sum')
    rt = [quad(q, l).sqrt() for q in qs]
    s = rt[0] + rt[1]
    if op == 'minksum_ea':
        agree(b, 'shape', w, [s * (qs[0][i][j] / rt[0] + qs[1][i][j] / rt[1]) for i in range(n) for j in range(n)], (n, n), 'sum')
    got = square(b.els(w), n)
    state(b, 'tight in its direction', scalar(b, quad(got, l), s * s), 'sum')
    for i, (o, d) in enumerate(zip(objs, ds)):
        expect(b, o, d['center'], d['shape'], 'operand %d' % i)


def scenarios(tier):
    for op in ('minksum_ea', 'minksum_ia'):
        for n in (2, 3):
            for who in ((0,), (1,), (0, 1)):
                for direction in ('general', 'image', 'kernel'):
                    if direction == 'kernel' and op == 'minksum_ia':
                        continue
                    yield sc('%s collapsed[%d,%s,%s]' % (op, n, '+'.join(map(str, who)), direction), collapsed, op, n, who,
                             direction, narrow=0.001)
    for op in ('minksum_ea', 'minksum_ia'):
        for n in (1, 2, 3):
            for k in (1, 2, 3):
                for nd in ('vec', 1, 2, 3):
                    for kind in ('diag', 'pd'):
                        for form in ('list', 'arr', 'row', 'col'):
                            if form != 'list' and (kind == 'pd' or n != 2 or nd not in (1, 2)):
                                continue
                            if n == 3 and nd == 3 or nd == 'vec' and n == 1 and op == 'minksum_ia':
                                continue
                            yield sc('%s[%s,%d,%d,%s,%s]' % (op, form, n, k, nd, kind), minksum, op, form, n, k, nd, kind,
                                     narrow=0.001)
        for form in ('mat', 'fmat'):
            yield sc('%s[%s]' % (op, form), minksum, op, form, 2, 4, 2, 'diag', narrow=0.001)
        for n in (1, 2):
            yield sc('%s[negative direction,%d]' % (op, n), minksum, op, 'list', n, 2, 2, 'pd', True, narrow=0.001)
