"""C20: closeness of arrays and dictionaries."""
from ..catalog import *
from ..values import cplx
from .rel import *

RULE = ('Abstract comparison over input boxes: two numeric arrays are close exactly when every component differs by at most the '
        'absolute tolerance or, where it does not and a relative tolerance is given, when 2|x-y|/(|x|+|y|) is at most that one; '
        'NaNs and infinities have to coincide in place and sign; the figures returned are the largest differences (value '
        'numbers).  Dictionaries are equal exactly when their keys, types, sizes and values agree at every depth: a single '
        'deviation, put at every position in turn, makes exactly the affected pair unequal; the report is empty exactly '
        'for equal ones and names the deviating field.')
FLOOR = 150
NAN = float('nan')
PINF = float('inf')
CMP = COMMON + 'abs_rel_compare'
SHAPES = {'flat': (3,), 'mat': (2, 2), 'row': (1, 3), 'col': (3, 1), 'cube': (1, 2, 2), 'one': (1,), 'scalar': ()}


def size(sh):
    n = 1
    for k in sh:
        n *= k
    return n


def outcome(b, x, y, tol, rtol, norm=None):
    r = returns(b, lambda: b.call(CMP, x, y, tol, rtol, norm or Ext('numpy.abs')))
    r = b.E.iterate(r)
    if len(r) != 6:
        b.ob('six values', False, '%d values' % len(r))
        raise Stop
    return [b.E.use(v) for v in r]


def verdict(b, r, want, tag=''):
    always(b, 'verdict' + tag, r[0], want, 'is_equal')
    s = r[5]
    text(b, 'report' + tag, s, want)


def text(b, name, s, equal):
    """the report is empty exactly when everything is equal"""
    if isinstance(s, str) or b.E.solid(s):
        b.ob(name, (isinstance(s, str) and s == '') == equal, 'report %r' % (s,))
    else:
        b.ob(name, None, 'report %r' % (s,))


def number(b, name, v, want):
    """v is the single number `want` (None: nothing, i.e. an empty array)"""
    if want is None:
        if isinstance(v, Ref) and v.kind == 'arr':
            b.ob(name, not b.els(v), '%d values instead of none' % len(b.els(v)))
        else:
            b.ob(name, None if isinstance(v, Top) else False, 'a value %r instead of none' % (v,))
        return
    if isinstance(v, Top) or not isinstance(v, (S, Ref)):
        b.ob(name, None, 'unknown')
        return
    agree(b, name, v, [want])


def entries(b, sh, how):
    """entries far from zero, and a difference-free copy"""
    lo, hi = {'pos': (1.0, 2.0), 'neg': (-2.0, -1.0), 'big': (100.0, 200.0)}[how]
    return b.els(b.vec('x', size(sh), lo, hi))


def pick(b, sh, how, at, d, sign):
    x = entries(b, sh, how)
    y = list(x)
    for i in at:
        y[i] = b.E.binop('Add' if sign > 0 else 'Sub', x[i], d)
    return b.E.new_arr(x, sh, 'f'), b.E.new_arr(y, sh, 'f'), x, y


def absolute(b, form, how, at, sign, above):
    sh = SHAPES[form]
    d = b.num('d', 0.5, 0.6) if above else b.num('d', 0.05, 0.1)
    tol = b.num('tol', 0.2, 0.3)
    x, y, xs, ys = pick(b, sh, how, at, d, sign)
    for tag, p, q in (('', x, y), (' (swapped)', y, x)):
        r = outcome(b, p, q, tol, None)
        verdict(b, r, not above, tag)
        number(b, 'absolute difference' + tag, r[1], Form(d))
        always(b, 'relative not used' + tag, r[2], False)
        number(b, 'relative difference' + tag, r[3], None)
        number(b, 'difference at it' + tag, r[4], None)


def relative(b, form, how, at, sign, above):
    """the absolute tolerance is exceeded at `at`: the relative one decides"""
    sh = SHAPES[form]
    d = b.num('d', 0.5, 0.6)
    tol = b.num('tol', 0.2, 0.3)
    lo = {'pos': 0.18, 'neg': 0.18, 'big': 0.002}[how]
    rt = b.num('rtol', lo / 2, lo) if above else b.num('rtol', 0.9, 0.95)
    if how == 'big' and not above:
        rt = b.num('rtol', 0.01, 0.02)
    x, y, xs, ys = pick(b, sh, how, at, d, sign)
    i = at[0]
    sg = 1 if how != 'neg' else -1
    want = Form(2) * Form(d) / (Form(sg) * (Form(xs[i]) + Form(ys[i])))
    for tag, p, q in (('', x, y), (' (swapped)', y, x)):
        r = outcome(b, p, q, tol, rt)
        verdict(b, r, not above, tag)
        number(b, 'absolute difference' + tag, r[1], Form(d))
        always(b, 'relative used' + tag, r[2], True)
        if len(at) == 1:
            number(b, 'relative difference' + tag, r[3], want)
            number(b, 'difference at it' + tag, r[4], Form(d))


def unused(b, form, at):
    """the absolute tolerance is kept everywhere: a relative tolerance of zero changes nothing"""
    d, tol = b.num('d', 0.05, 0.1), b.num('tol', 0.2, 0.3)
    x, y, xs, ys = pick(b, SHAPES[form], 'pos', at, d, 1)
    r = outcome(b, x, y, tol, num(0.0))
    verdict(b, r, True)
    always(b, 'relative not used', r[2], False)
    number(b, 'absolute difference', r[1], Form(d))
    number(b, 'relative difference', r[3], None)


def both(b, n, i, j, good):
    """component i is large and relatively close, component j small and relatively far"""
    xs = b.els(b.vec('x', n, 1.0, 2.0))
    xs[i] = b.num('big', 100.0, 200.0, np=True)
    ys = list(xs)
    d, e = b.num('d', 0.7, 0.8), b.num('e', 0.4, 0.5)
    ys[i] = b.E.binop('Add', xs[i], d)
    ys[j] = b.E.binop('Add', xs[j], e)
    rt = b.num('rtol', 0.6, 0.7) if good else b.num('rtol', 0.02, 0.05)
    x, y = b.E.new_arr(xs, (n,), 'f'), b.E.new_arr(ys, (n,), 'f')
    for tag, p, q in (('', x, y), (' (swapped)', y, x)):
        r = outcome(b, p, q, b.num('tol', 0.2, 0.3), rt)
        verdict(b, r, good, tag)
        number(b, 'absolute difference' + tag, r[1], Form(d))
        number(b, 'relative difference' + tag, r[3], Form(2) * Form(e) / (Form(xs[j]) + Form(ys[j])))
        number(b, 'difference at it' + tag, r[4], Form(e))


def special(b, form, at, left, right, rel):
    """NaN / infinite entries"""
    sh = SHAPES[form]
    xs = b.els(b.vec('x', size(sh), 1.0, 2.0))
    ys = list(xs)
    for i in at:
        if left is not None:
            xs[i] = num(left, True)
        if right is not None:
            ys[i] = num(right, True)
    x, y = b.E.new_arr(xs, sh, 'f'), b.E.new_arr(ys, sh, 'f')
    rt = b.num('rtol', 0.9, 0.95) if rel else None
    for tag, p, q in (('', x, y), (' (swapped)', y, x)):
        r = outcome(b, p, q, b.num('tol', 0.2, 0.3), rt)
        verdict(b, r, repr(left) == repr(right), tag)


def beside(b, form, v, at, bad, rel):
    """coinciding special values hide no difference elsewhere"""
    sh = SHAPES[form]
    xs = b.els(b.vec('x', size(sh), 1.0, 2.0))
    ys = list(xs)
    d = b.num('d', 0.5, 0.6) if bad else b.num('d', 0.05, 0.1)
    for i in range(len(xs)):
        if i == at:
            ys[i] = b.E.binop('Add', xs[i], d)
        elif i == (at + 1) % len(xs):
            xs[i] = ys[i] = num(v, True)
    x, y = b.E.new_arr(xs, sh, 'f'), b.E.new_arr(ys, sh, 'f')
    rt = num(0.0) if rel else None
    for tag, p, q in (('', x, y), (' (swapped)', y, x)):
        r = outcome(b, p, q, b.num('tol', 0.2, 0.3), rt)
        verdict(b, r, not bad, tag)
        number(b, 'absolute difference' + tag, r[1], Form(d))


def kinds(b, kind, at, above):
    """integers, booleans, unsigned and complex numbers"""
    if kind == 'int':
        xs, ys = [1, 5, 9], [1, 5, 9]
        ys[at] += 3 if above else 1
        tol = 2.0
    elif kind == 'bool':
        xs, ys = [True, False, True], [True, False, True]
        if above:
            ys[at] = not ys[at]
        tol = 0.5
    else:
        xs, ys = [1 + 2j, 3 - 1j, 2j], [1 + 2j, 3 - 1j, 2j]
        ys[at] += 3j if above else 0.5j
        tol = 2.0
    mkv = (lambda v: boolv(v)) if kind == 'bool' else num if kind == 'int' else lambda v: cplx(num(v.real), num(v.imag))
    dt = 'c' if kind == 'complex' else None
    x, y = [b.E.new_arr([mkv(v) for v in vs], (3,), dt) if dt else b.arr([mkv(v) for v in vs]) for vs in (xs, ys)]
    for tag, p, q in (('', x, y), (' (swapped)', y, x)):
        verdict(b, outcome(b, p, q, num(tol), None), not above, tag)


def nothing(b, sh, rel):
    r = outcome(b, b.E.new_arr([], sh, 'f'), b.E.new_arr([], sh, 'f'), b.num('tol', 0.2, 0.3), b.num('r', 0.2, 0.3) if rel else None)
    verdict(b, r, True)
    always(b, 'relative not used', r[2], False)


def norm(b, rel):
    """the difference is measured with the given operation"""
    x, y = b.vec('x', 2, 1.0, 2.0), b.vec('y', 2, 5.0, 6.0)
    f = b.call(P + 'gen.common.common:is_numeric', x) and None
    r = outcome(b, x, y, num(0.0), b.num('r', 5.0, 6.0) if rel else None, Ext('numpy.square'))
    verdict(b, r, rel)


# ------------------------------------------------------------------------------------------- dictionaries
def leaf(b, kind, tag, i=0):
    """a value together with an equal one and with one that deviates (constants where the report is to be checked)"""
    n = b.E.new_arr
    if kind == 'float':
        return num(1.5), num(1.5), num(2.5)
    if kind == 'num':
        x = b.num(tag, 1.0, 2.0)
        return x, b.E.binop('Add', x, b.num(tag + 'e', -0.01, 0.01)), b.E.binop('Add', x, b.num(tag + 'd', 0.5, 0.6))
    if kind == 'int':
        return num(3), num(3), num(4)
    if kind == 'bool':
        return boolv(True), boolv(True), boolv(False)
    if kind == 'str':
        return 'one', 'one', 'two'
    if kind == 'none':
        return None, None, 'none'
    if kind == 'type':
        return num(1.0), num(1.0), num(1)
    if kind == 'text':
        return num(1.0), num(1.0), '1.0'
    if kind == 'arr':
        x = b.els(b.vec(tag, 3, 1.0, 2.0))
        y, z = list(x), list(x)
        y[i] = b.E.binop('Sub', x[i], b.num(tag + 'e', 0.0, 0.01))
        z[i] = b.E.binop('Sub', x[i], b.num(tag + 'd', 0.5, 0.6))
        return n(x, (3,), 'f'), n(y, (3,), 'f'), n(z, (3,), 'f')
    if kind == 'mat':
        x = b.els(b.mat(tag, 2, 2, 1.0, 2.0))
        z = list(x)
        z[i] = b.E.binop('Add', x[i], b.num(tag + 'd', 0.5, 0.6))
        return n(x, (2, 2), 'f'), n(list(x), (2, 2), 'f'), n(z, (2, 2), 'f')
    if kind == 'size':
        x = b.els(b.vec(tag, 3, 1.0, 2.0))
        return n(x, (3,), 'f'), n(list(x), (3,), 'f'), n(x[:2], (2,), 'f')
    if kind == 'shape':
        x = b.els(b.vec(tag, 3, 1.0, 2.0))
        return n(x, (3,), 'f'), n(list(x), (3,), 'f'), n(list(x), (1, 3), 'f')
    if kind == 'ints':
        return b.arr([num(1), num(2)]), b.arr([num(1), num(2)]), b.arr([num(1), num(5)])
    if kind == 'nan':
        return b.arr([num(NAN), num(1.0)]), b.arr([num(NAN), num(1.0)]), b.arr([num(1.0), num(NAN)])
    if kind == 'inf':
        return b.arr([num(PINF), num(1.0)]), b.arr([num(PINF), num(1.0)]), b.arr([num(-PINF), num(1.0)])
    if kind == 'words':
        z = ['a', 'b', 'c']
        z[i] = 'x'
        return b.lst(['a', 'b', 'c']), b.lst(['a', 'b', 'c']), b.lst(z)
    if kind == 'list':
        z = [1.0, 2.0, 3.0]
        z[i] = 7.0
        return b.lst([1.0, 2.0, 3.0]), b.lst([1.0, 2.0, 3.0]), b.lst(z)
    if kind == 'ragged':
        z = [[1.0], [1.0, 2.0], []]
        z[i] = [[3.0], [1.0, 4.0], [1.0]][i]
        m = lambda v: b.E.new_list([b.lst(u) for u in v])
        return m([[1.0], [1.0, 2.0], []]), m([[1.0], [1.0, 2.0], []]), m(z)
    if kind == 'length':
        return b.lst(['a', 'b']), b.lst(['a', 'b']), b.lst(['a'])
    if kind == 'lists':
        m = lambda v: b.E.new_list([b.lst(u) for u in v])
        return m([[1.0, 2.0], ['s']]), m([[1.0, 2.0], ['s']]), m([[1.0, 2.0], ['t']])
    if kind == 'empty':
        return b.lst([]), b.lst([]), b.lst([1.0])
    raise AssertionError(kind)


LEAVES = ['float', 'num', 'int', 'bool', 'str', 'none', 'type', 'text', 'arr', 'mat', 'size', 'shape', 'ints', 'nan', 'inf', 'words',
          'list', 'ragged', 'length', 'lists', 'empty']


def wrap(b, depth, v, how):
    """v put `depth` levels deep"""
    E = b.E
    for k in range(depth):
        d = E.new_dict([('n%d' % k, v), ('q', num(2.0))])
        w = how[k % len(how)]
        v = d if w == 'd' else b.lst([E.new_dict([('q', num(1.0))]), d]) if w == 'l' else b.oarr([E.new_dict([('q', num(1.0))]), d])
    return v


def three(b, kind, depth, how, i, key):
    """three dictionaries: the first equals the second, the third deviates"""
    res = []
    for v in leaf(b, kind, 'v', i):
        items = [('a', num(1.0)), ('m', 'text'), ('z', b.arr([num(1.0), num(2.0)]))]
        v = wrap(b, depth, v, how)
        items = [(k, v if k == key else w) for k, w in items] if key != 'b' else items + [('b', v)]
        res.append(b.E.new_dict(items))
    return res


def tol(b):
    return b.num('tol', 0.2, 0.3)


def check(b, x, y, t, want, tag, key=None):
    r = b.E.iterate(returns(b, lambda: b.call(DICT + 'dict_compare', x, y, t)))
    if len(r) != 2:
        b.ob('two values', False, '%d values' % len(r))
        raise Stop
    always(b, 'verdict ' + tag, r[0], want, 'dict_compare')
    s = b.E.use(r[1])
    text(b, 'report ' + tag, s, want)
    if isinstance(s, str) and s and not want and key is not None:
        b.ob('report names the field ' + tag, key in s, 'report %r, field %s' % (s, key))


def value(b, kind, depth, how, i, key):
    x, y, z = three(b, kind, depth, how, i, key)
    t = tol(b)
    check(b, x, y, t, True, 'equal')
    check(b, x, z, t, False, 'unequal', key)
    check(b, z, x, t, False, 'unequal (swapped)', key)
    check(b, z, z, t, True, 'same object')


def keys(b, miss, depth, how):
    E = b.E
    items = [('a', num(1.0)), ('b', num(2.0)), ('c', num(3.0))]
    x = wrap(b, depth, E.new_dict(items), how)
    y = wrap(b, depth, E.new_dict([t for t in items if t[0] != miss]), how)
    z = wrap(b, depth, E.new_dict([(k if k != miss else 'other', v) for k, v in items]), how)
    w = wrap(b, depth, E.new_dict(items[::-1]), how)
    x, y, z, w = [E.new_dict([('f', v)]) if depth else v for v in (x, y, z, w)]
    t = tol(b)
    check(b, x, y, t, False, 'missing on the right')
    check(b, y, x, t, False, 'missing on the left')
    check(b, x, z, t, False, 'other name')
    check(b, z, x, t, False, 'other name (swapped)')
    check(b, x, w, t, True, 'order of the keys')


def collections(b, form, at, k):
    """collections of dictionaries are compared position by position"""
    E = b.E
    xs, ys = [], []
    for i in range(k):
        x, y, z = leaf(b, 'num', 'v%d' % i)
        xs.append(E.new_dict([('a', x), ('s', 'w%d' % i)]))
        ys.append(E.new_dict([('a', z if i in at else y), ('s', 'w%d' % i)]))
    t = tol(b)
    if form == 'list':
        x, y = b.lst(xs), b.lst(ys)
    else:
        sh = {'flat': (k,), 'row': (1, k), 'col': (k, 1), 'mat': (2, k // 2), 'fmat': FSh((2, k // 2))}[form]
        x, y = b.oarr(xs, sh), b.oarr(ys, sh)
    check(b, x, y, t, not at, 'collection')
    check(b, y, x, t, not at, 'collection (swapped)')
    check(b, x, x, t, True, 'same collection')
    if form == 'list':
        return
    r = E.iterate(returns(b, lambda: b.call(DICT + 'dict_compare_vec', x, y, t)))
    v = E.use(r[0])
    els = b.els(v) if isinstance(v, Ref) else [v]
    b.ob('count', len(els) == k, '%d truth values for %d pairs' % (len(els), k))
    for i, e in enumerate(els[:k]):
        always(b, 'pair %d' % i, e, i not in at)


def sizes(b, x, y, equal):
    """collections of different shapes differ; a dictionary counts as a collection of one"""
    def make(f):
        d = lambda: b.E.new_dict([('a', num(1.0))])
        if f == 'dict':
            return d()
        if isinstance(f, int):
            return b.E.new_list([d() for _ in range(f)])
        return b.oarr([d() for _ in range(size(f))], f)
    check(b, make(x), make(y), tol(b), equal, 'shape')
    check(b, make(y), make(x), tol(b), equal, 'shape (swapped)')


def tolerance(b, which, d, want, depth, how):
    """the tolerances given reach every depth"""
    x = b.num('x', 10.0, 20.0)
    y = b.E.binop('Add', x, b.num('d', *d))
    mk_ = lambda v: b.E.new_dict([('f', wrap(b, depth, b.arr([v]), how))])
    a = []
    if which != 'none':
        a.append(b.num('tol', *{'abs': (0.2, 0.3), 'rel': (0.0, 0.0), 'both': (0.01, 0.02)}[which]))
    if which in ('rel', 'both'):
        a.append(b.num('rtol', 0.02, 0.03))
    p, q = mk_(x), mk_(y)
    for tag, u, v in (('', p, q), (' (swapped)', q, p)):
        r = b.E.iterate(returns(b, lambda: b.call(DICT + 'dict_compare', u, v, *a)))
        always(b, 'verdict' + tag, r[0], want)


# ------------------------------------------------------------------------------------------- membership
def member(b, a, c, form):
    """is_member: which elements occur, and where"""
    mkv = lambda v: v if isinstance(v, str) else num(v)
    if form == 'list':
        x, y = b.lst([mkv(v) for v in a]), b.lst([mkv(v) for v in c])
    else:
        x, y = b.arr([mkv(v) for v in a]), b.arr([mkv(v) for v in c])
    r = b.E.iterate(returns(b, lambda: b.call(COMMON + 'is_member', x, y)))
    hit = [v in c for v in a]
    got = b.els(r[0])
    b.ob('count', len(got) == len(a), '%d truth values for %d elements' % (len(got), len(a)))
    for i, (g, w) in enumerate(zip(got, hit)):
        always(b, 'member %d' % i, g, w)
    pos = b.els(r[1])
    mem = [v for v in a if v in c]
    b.ob('positions', len(pos) == len(mem), '%d positions for %d members' % (len(pos), len(mem)))
    for i, (p, v) in enumerate(zip(pos, mem)):
        if isinstance(p, S) and p.lo == p.hi:
            k = int(p.lo)
            b.ob('position %d' % i, 0 <= k < len(c) and c[k] == v, 'position %d for %r' % (k, v))
        else:
            b.ob('position %d' % i, None, 'unknown position')


def scenarios(tier):
    big = tier != 'quick'
    for form, sh in SHAPES.items():
        n = size(sh)
        spots = [(i,) for i in range(n)] + ([tuple(range(n))] if n > 1 else [])
        if not big and form in ('row', 'cube'):
            spots = [(n - 1,)]
        for at in spots:
            for how in ('pos', 'neg', 'big'):
                for sign in (1, -1):
                    if (how, sign) not in (('pos', 1), ('neg', 1), ('big', -1)) and not big:
                        continue
                    for above in (False, True):
                        yield sc('absolute/%s/%s/%s/%d/%s' % (form, how, at, sign, above), absolute, form, how, at, sign, above)
                        if len(at) == 1:
                            yield sc('relative/%s/%s/%s/%d/%s' % (form, how, at, sign, above), relative, form, how, at, sign, above)
            yield sc('relative unused/%s/%s' % (form, at), unused, form, at)
            for left, right in ((NAN, NAN), (PINF, PINF), (-PINF, -PINF), (NAN, None), (PINF, None), (-PINF, None), (PINF, -PINF),
                                (NAN, PINF), (NAN, -PINF)):
                for rel in (False, True):
                    yield sc('special/%s/%s/%s,%s/%s' % (form, at, left, right, rel), special, form, at, left, right, rel)
            if n > 1 and len(at) == 1:
                for v in (NAN, PINF, -PINF):
                    for bad in (False, True):
                        for rel in (False, True):
                            yield sc('beside/%s/%s/%s/%s/%s' % (form, v, at, bad, rel), beside, form, v, at[0], bad, rel)
    for n in (2, 3):
        for i in range(n):
            for j in range(n):
                if i != j:
                    for good in (False, True):
                        yield sc('two components/%d/%d,%d/%s' % (n, i, j, good), both, n, i, j, good)
    for kind in ('int', 'bool', 'complex'):
        for at in range(3):
            for above in (False, True):
                yield sc('number kinds/%s/%d/%s' % (kind, at, above), kinds, kind, at, above)
    for sh in ((0,), (0, 2), (2, 0)):
        for rel in (False, True):
            yield sc('nothing/%s/%s' % (sh, rel), nothing, sh, rel)
    for rel in (False, True):
        yield sc('norm/%s' % rel, norm, rel)
    for kind in LEAVES:
        for i in range(4 if kind == 'mat' else 3 if kind in ('arr', 'words', 'list', 'ragged') else 1):
            for depth, how in ((0, 'd'), (1, 'd'), (1, 'l'), (1, 'a'), (2, 'd'), (2, 'dl'), (2, 'ld'), (2, 'ad')) + \
                    (((3, 'd'), (3, 'dla'), (3, 'lad'), (2, 'l'), (2, 'a')) if big else ()):
                for key in ('a', 'm', 'z', 'b') if depth == 0 else ('b',):
                    yield sc('value/%s/%d/%d%s/%s' % (kind, i, depth, how, key), value, kind, depth, how, i, key)
    for miss in 'abc':
        for depth, how in ((0, 'd'), (1, 'd'), (1, 'l'), (1, 'a'), (2, 'd'), (2, 'dl')):
            yield sc('keys/%s/%d%s' % (miss, depth, how), keys, miss, depth, how)
    for form, k in (('list', 1), ('list', 3), ('flat', 1), ('flat', 3), ('row', 2), ('col', 2), ('mat', 4), ('fmat', 4)):
        for at in [()] + [(i,) for i in range(k)] + [(0, k - 1)]:
            yield sc('collections/%s/%d/%s' % (form, k, at), collections, form, at, k)
    for x, y, eq in (('dict', 1, True), ('dict', (1,), True), ('dict', 2, False), (1, 2, False), (2, (2,), True), ((2,), (3,), False),
                     ((1, 2), (2, 1), False), ((2,), (1, 2), False), ((1, 1), (1,), False), (0, 0, True), ((0,), (0,), True),
                     (0, 1, False), ((2, 2), (4,), False), ((2, 2), (2, 2), True)):
        yield sc('sizes/%s,%s' % (x, y), sizes, x, y, eq)
    for depth, how in ((0, 'd'), (1, 'd'), (1, 'l'), (1, 'a'), (2, 'dl')):
        for which, d, want in (('abs', (0.05, 0.1), True), ('abs', (0.5, 0.6), False), ('abs', (-0.6, -0.5), False),
                               ('none', (1e-6, 1e-5), False), ('rel', (0.05, 0.1), True), ('rel', (1.0, 1.2), False),
                               ('both', (0.05, 0.1), True), ('both', (1.0, 1.2), False), ('both', (-0.005, 0.005), True)):
            yield sc('tolerance/%d%s/%s/%s' % (depth, how, which, d), tolerance, which, d, want, depth, how)
    for i, (a, c) in enumerate((([1, 2, 2, 3], [3, 2, 1, 2]), ([5], [1, 2]), ([3, 1, 2], [1, 2, 3]), ([2, 9, 1], [1, 1, 2]),
                                (['b', 'a'], ['a', 'c', 'b']), (['x'], ['a']), ([1.5, 2.5, 1.5], [2.5, 1.5]), ([7, 7], [7]),
                                ([4, 3, 2, 1], [2, 4]), ([1], [1, 1, 1]))):
        for form in ('list', 'arr'):
            yield sc('member/%d/%s' % (i, form), member, a, c, form)
