"""Catalogue of calls whose arguments violate a documented requirement, as classes of abstract inputs.

Each entry yields one callable that must raise the library's ValueError on every member of its class.
"""
from .catalog import *

BAD = {'C06': [], 'C07': [], 'C08': []}


def bad(pid, what_, /, **variants):
    def deco(f):
        combos = [{}]
        for k, vs in variants.items():
            combos = [dict(c, **{k: v}) for c in combos for v in vs]
        for c in combos:
            label = what_
            if c:
                label += '[' + ','.join('%s' % v if not isinstance(v, tuple) else 'x'.join(map(str, v))
                                        for v in c.values()) + ']'
            BAD[pid].append((label, (lambda b, f=f, c=c: f(b, **c))))
        return f
    return deco


NAN, INF_ = float('nan'), float('inf')
NUMS = {'nan': NAN, 'inf': INF_, '-inf': -INF_}


def cl(b):
    return b.get(ELL_)


def hc(b):
    return b.get(HYP_)


def put(b, v, pos, x):
    """copy of the vector/matrix with one entry replaced"""
    E = b.E
    r = E.arr(v)
    els = list(E.elems(v))
    els[pos] = num(x, True) if isinstance(x, float) else x
    return E.new_arr(els, r.shape, r.dtype)


def words(b, k=2):
    """a vector whose elements are not numbers"""
    return b.oarr(['a'] * k)


# ============================================================ C06: objects
@bad('C06', 'Ellipsoid/non-finite center', n=[1, 2, 3], pos=[0, -1], x=['nan', 'inf', '-inf'])
def _(b, n, pos, x):
    c = put(b, b.vec('c', n), pos, NUMS[x])
    return lambda: b.call(ELL_, c, b.symm('Q', n))


@bad('C06', 'Ellipsoid/non-finite shape', n=[1, 2, 3], pos=[0, -1], x=['nan', 'inf', '-inf'], one=[True, False])
def _(b, n, pos, x, one):
    q = put(b, b.symm('Q', n), pos, NUMS[x])
    return lambda: b.call(ELL_, *([] if one else [b.vec('c', n)]), q)


@bad('C06', 'Ellipsoid/non-finite off-diagonal pair', n=[2, 3], x=['nan', 'inf', '-inf'])
def _(b, n, x):
    q = put(b, put(b, b.symm('Q', n), 1, NUMS[x]), n, NUMS[x])
    return lambda: b.call(ELL_, b.vec('c', n), q)


@bad('C06', 'Ellipsoid/center not a vector', sh=[(2, 2), (2, 3), (1, 2, 2)], fit=[False, True])
def _(b, sh, fit):
    k = 1
    for s in sh:
        k *= s
    return lambda: b.call(ELL_, b.vec('c', k, shape=sh), b.diag('Q', [(1.0, 2.0)] * (k if fit else 2)))


@bad('C06', 'Ellipsoid/center not numeric', kind=['list', 'words', 'string', 'none', 'number'])
def _(b, kind):
    c = {'list': lambda: b.lst([0.5, 1.0]), 'words': lambda: words(b), 'string': lambda: 'abc', 'none': lambda: None,
         'number': lambda: b.num('c', -1, 1)}[kind]()
    return lambda: b.call(ELL_, c, b.symm('Q', 2))


@bad('C06', 'Ellipsoid/complex', what=['center', 'shape'])
def _(b, what):
    z = [cplx(b.num('r%d' % i, 2 + i, 3 + i), b.num('i%d' % i, 0.5, 1.0), True) for i in range(2)]
    if what == 'center':
        c, q = b.E.new_arr(z, (2,), 'c'), b.symm('Q', 2)
    else:
        o = cplx(num(0.0), num(0.0), True)
        c, q = b.vec('c', 2), b.E.new_arr([z[0], o, o, z[1]], (2, 2), 'c')
    return lambda: b.call(ELL_, c, q)


@bad('C06', 'Ellipsoid/shape not a matrix', sh=[(4,), (1, 2, 2), (2, 2, 1)], one=[True, False])
def _(b, sh, one):
    q = b.E.new_arr([num(x, True) for x in (1.0, 0.0, 0.0, 1.0)], sh, 'f')
    return lambda: b.call(ELL_, *([] if one else [b.vec('c', 2)]), q)


@bad('C06', 'Ellipsoid/shape not square', sh=[(1, 2), (2, 1), (2, 3), (3, 2), (0, 2), (2, 0)], one=[True, False])
def _(b, sh, one):
    q = b.mat('Q', *sh)
    return lambda: b.call(ELL_, *([] if one else [b.vec('c', sh[0])]), q)


@bad('C06', 'Ellipsoid/shape not symmetric', n=[2, 3], at=['last', 'first'], gap=['big', 'small', 'skew'], one=[True, False])
def _(b, n, at, gap, one):
    q = b.symm('Q', n)
    i, j = (0, 1) if at == 'first' else (n - 2, n - 1)
    d = {'big': (0.5, 1.0), 'small': (1e-4, 1e-3), 'skew': (-0.5, -0.1)}[gap]
    els = b.E.elems(q)
    q = put(b, q, i * n + j, b.E.binop('Add', els[j * n + i], b.num('d', *d)))
    return lambda: b.call(ELL_, *([] if one else [b.vec('c', n)]), q)


@bad('C06', 'Ellipsoid/shape not positive semidefinite', n=[1, 2, 3], how=['neg', 'all', 'slight'], one=[True, False])
def _(b, n, how, one):
    lo = {'neg': (-2.0, -0.5), 'all': (-2.0, -0.5), 'slight': (-1e-2, -1e-4)}[how]
    q = b.diag('Q', [(-3.0, -1.0) if how == 'all' else (1.0, 2.0)] * (n - 1) + [lo])
    return lambda: b.call(ELL_, *([] if one else [b.vec('c', n)]), q)


@bad('C06', 'Ellipsoid/indefinite matrix with positive diagonal', n=[2])
def _(b, n):
    q = b.symm('Q', n, (1.0, 1.5), (2.0, 3.0))
    return lambda: b.call(ELL_, b.vec('c', n), q)


@bad('C06', 'Ellipsoid/dimensions disagree', c=[0, 1, 2, 3, 4], n=[1, 2, 3])
def _(b, c, n):
    if c == n:
        return None
    return lambda: b.call(ELL_, b.vec('c', c), b.symm('Q', n))


@bad('C06', 'Ellipsoid/dimensions disagree (column)', c=[1, 3])
def _(b, c):
    return lambda: b.call(ELL_, b.vec('c', c, shape=(c, 1)), b.symm('Q', 2))


@bad('C06', 'Ellipsoid/center for an empty shape')
def _(b):
    return lambda: b.call(ELL_, b.vec('c', 2), b.E.new_arr([], (0, 0), 'f'))


_WRONG = {'neg': lambda b: b.num('p', -1.0, -1e-9), 'zero': lambda b: num(0.0), 'text': lambda b: 'text', 'int': lambda b: num(1),
          'none': lambda b: None, 'nan': lambda b: num(NAN), 'list': lambda b: b.lst([1e-7]), 'bool': lambda b: boolv(True)}

for _cls in ('Ellipsoid', 'Hyperplane'):
    @bad('C06', _cls + '/wrong property value', prop=['abs_tol', 'rel_tol'], val=list(_WRONG))
    def _(b, prop, val, cls=_cls):
        kw = {prop: _WRONG[val](b)}
        if cls == 'Ellipsoid':
            return lambda: b.call(ELL_, b.vec('c', 2), b.symm('Q', 2), **kw)
        return lambda: b.call(HYP_, b.vec('n', 2), b.num('s', 0, 1), **kw)


@bad('C06', 'Ellipsoid/wrong number of points', prop=['n_plot_2d_points', 'n_plot_3d_points'], val=['frac', 'text', 'none'])
def _(b, prop, val):
    kw = {prop: {'frac': lambda: b.num('p', 10.1, 10.9), 'text': lambda: '200', 'none': lambda: None}[val]()}
    return lambda: b.call(ELL_, b.vec('c', 2), b.symm('Q', 2), **kw)


@bad('C06', 'Ellipsoid/wrong property value, other forms', form=['empty', 'one', 'rep', 'dict'])
def _(b, form):
    kw = {'abs_tol': b.num('p', -1.0, -1e-9)}
    if form == 'empty':
        return lambda: b.call(ELL_, **kw)
    if form == 'one':
        return lambda: b.call(ELL_, b.symm('Q', 2), **kw)
    if form == 'rep':
        return lambda: b.meth(cl(b), 'from_rep_mat', b.vec('c', 2), b.symm('Q', 2), b.lst([2, 1]), **kw)
    d = b.E.new_dict([('shape_mat', b.symm('Q', 2)), ('center_vec', b.vec('c', 2)), ('abs_tol', kw['abs_tol'])])
    return lambda: b.meth(cl(b), 'from_dict', b.lst([d]))


def bad_parts(b, how):
    """(center, shape) violating one requirement"""
    if how == 'asym':
        q = put(b, b.symm('Q', 2), 1, b.num('x', 1.0, 2.0, np=True))
        return b.vec('c', 2), q
    if how == 'neg':
        return b.vec('c', 2), b.diag('Q', [(1.0, 2.0), (-2.0, -0.5)])
    if how == 'nan':
        return put(b, b.vec('c', 2), 1, NAN), b.symm('Q', 2)
    if how == 'dim':
        return b.vec('c', 3), b.symm('Q', 2)
    if how == 'rect':
        return b.vec('c', 2), b.mat('Q', 2, 3)
    raise KeyError(how)


@bad('C06', 'Ellipsoid.from_rep_mat/invalid', how=['asym', 'neg', 'nan', 'dim', 'rect'])
def _(b, how):
    c, q = bad_parts(b, how)
    return lambda: b.meth(cl(b), 'from_rep_mat', c, q, b.lst([2, 2]))


@bad('C06', 'Ellipsoid.from_dict/invalid', how=['asym', 'neg', 'nan', 'dim', 'rect'], at=[0, 1], form=['list', 'row'])
def _(b, how, at, form):
    c, q = bad_parts(b, how)
    ds = [ell_dict(b, 'D'), b.E.new_dict([('shape_mat', q), ('center_vec', c)])]
    if at == 0:
        ds.reverse()
    a = pack(b, ds, form)
    return lambda: b.meth(cl(b), 'from_dict', a)


@bad('C06', 'from_rep_mat/no arguments', cls=['Ellipsoid', 'Hyperplane'])
def _(b, cls):
    return lambda: b.meth(b.get(ELL_ if cls == 'Ellipsoid' else HYP_), 'from_rep_mat')


@bad('C06', 'rep_mat/size vector', cls=['Ellipsoid', 'Hyperplane'], how=['frac', 'neg', 'matrix', 'empty', 'words'],
     via=['rep_mat', 'from_rep_mat'])
def _(b, cls, how, via):
    s = {'frac': lambda: b.arr([2.0, b.num('s', 1.1, 1.9)]), 'neg': lambda: b.arr([2, b.num('s', -3, -1, 'i')]),
         'matrix': lambda: b.arr([[2, 1], [1, 2]]), 'empty': lambda: b.lst([]), 'words': lambda: b.lst(['a', 'b'])}[how]()
    if via == 'from_rep_mat':
        if how == 'matrix':
            return None
        p = [b.vec('c', 2), b.symm('Q', 2)] if cls == 'Ellipsoid' else [b.vec('n', 2), b.num('s0', 0, 1)]
        return lambda: b.meth(b.get(ELL_ if cls == 'Ellipsoid' else HYP_), 'from_rep_mat', *p, s)
    e = ell(b) if cls == 'Ellipsoid' else hyp(b)
    return lambda: b.meth(e, 'rep_mat', s)


@bad('C06', 'Hyperplane/non-finite normal', n=[1, 2, 3], pos=[0, -1], x=['nan', 'inf', '-inf'])
def _(b, n, pos, x):
    v = put(b, b.vec('n', n), pos, NUMS[x])
    return lambda: b.call(HYP_, v, b.num('s', -1, 1))


@bad('C06', 'Hyperplane/non-finite shift', x=['nan', 'inf', '-inf'], arr=[False, True])
def _(b, x, arr):
    s = b.arr([NUMS[x]]) if arr else num(NUMS[x])
    return lambda: b.call(HYP_, b.vec('n', 2), s)


@bad('C06', 'Hyperplane/shift not a number', k=[0, 2, 3, 'text', 'words', 'none'])
def _(b, k):
    s = {'text': lambda: 'abc', 'words': lambda: words(b, 1), 'none': lambda: None}.get(k, lambda: b.vec('s', k))()
    return lambda: b.call(HYP_, b.vec('n', 2), s)


@bad('C06', 'Hyperplane/normal not a vector', sh=[(2, 2), (2, 3), (1, 2, 2)])
def _(b, sh):
    k = 1
    for s in sh:
        k *= s
    return lambda: b.call(HYP_, b.vec('n', k, shape=sh), b.num('s', -1, 1))


@bad('C06', 'Hyperplane/normal not numeric', kind=['list', 'words', 'string', 'none'])
def _(b, kind):
    c = {'list': lambda: b.lst([0.5, 1.0]), 'words': lambda: words(b), 'string': lambda: 'abc', 'none': lambda: None}[kind]()
    return lambda: b.call(HYP_, c, b.num('s', -1, 1))


@bad('C06', 'Hyperplane/complex', what=['normal', 'shift'])
def _(b, what):
    z = [cplx(b.num('r%d' % i, 2 + i, 3 + i), b.num('i%d' % i, 0.5, 1.0), True) for i in range(2)]
    if what == 'normal':
        return lambda: b.call(HYP_, b.E.new_arr(z, (2,), 'c'), b.num('s', -1, 1))
    return lambda: b.call(HYP_, b.vec('n', 2), z[0])


@bad('C06', 'Hyperplane.from_dict/invalid', how=['nan', 'shift', 'matrix'], at=[0, 1])
def _(b, how, at):
    v, s = b.vec('n', 2), b.num('s', 0, 1)
    if how == 'nan':
        v = put(b, v, 1, NAN)
    elif how == 'shift':
        s = b.vec('s', 2)
    else:
        v = b.mat('n', 2, 2)
    ds = [hyp_dict(b, 'D'), b.E.new_dict([('normal_vec', v), ('shift', s)])]
    if at == 0:
        ds.reverse()
    return lambda: b.meth(hc(b), 'from_dict', b.lst(ds))


@bad('C06', 'Hyperplane.from_rep_mat/invalid', how=['nan', 'shift', 'matrix'])
def _(b, how):
    v, s = b.vec('n', 2), b.num('s', 0, 1)
    if how == 'nan':
        v = put(b, v, 1, NAN)
    elif how == 'shift':
        s = b.vec('s', 2)
    else:
        v = b.mat('n', 2, 2)
    return lambda: b.meth(hc(b), 'from_rep_mat', v, s, b.lst([2, 1]))


# ======================================================== C07: collections
STRANGERS = {'text': lambda b: 'abc', 'number': lambda b: num(1.5), 'none': lambda b: None, 'hyp': lambda b: hyp(b, 'X'),
             'ell': lambda b: ell(b, 'X')}


def mixed(b, cls, who, at, form):
    mk_ = ell if cls == 'Ellipsoid' else hyp
    k = 4 if form == 'mat' else 3
    objs = [mk_(b, 'O%d' % i) for i in range(k)]
    objs[{'first': 0, 'middle': 1, 'last': k - 1}[at]] = STRANGERS[who](b)
    if who in ('text', 'number', 'none') and form == 'list':
        return b.lst(objs)
    return pack(b, objs, form)


_ELL_OPS = {
    'is_degenerate': [], 'trace': [], 'volume': [], 'min_eig': [], 'max_eig': [], 'is_empty': [], 'dimension': [],
    'uminus': [], 'get_copy': [], 'polar': [], 'get_abs_tol': [], 'get_rel_tol': [], 'get_n_plot_2d_points': [],
    'get_n_plot_3d_points': [], 'rho': ['L1'], 'is_internal': ['L1', 'u'], 'minksum_ea': ['L2'], 'minksum_ia': ['L2'],
    'projection': ['B'], 'get_projection': ['B'], 'is_equal/first': ['same'], 'is_equal/second': ['same'],
    'ne/first': ['same'], 'ne/second': ['same'], 'eq/first': ['same'], 'eq/second': ['same'], 'to_dict': []}
_HYP_OPS = {
    'is_empty': [], 'dimension': [], 'uminus': [], 'get_copy': [], 'get_abs_tol': [], 'get_rel_tol': [], 'contains': ['X1'],
    'is_parallel/first': ['one'], 'is_parallel/second': ['one'], 'is_equal/first': ['same'], 'is_equal/second': ['same'],
    'ne/first': ['same'], 'ne/second': ['same'], 'eq/first': ['same'], 'eq/second': ['same'], 'to_dict': []}


def extras(b, cls, kinds, form):
    out = []
    for k in kinds:
        if k == 'L1':
            out.append(b.mat('L', 2, 1, 0.5, 1.0))
        elif k == 'L2':
            out.append(b.mat('L', 2, 2, 0.5, 1.0))
        elif k == 'X1':
            out.append(b.mat('L', 2, 1, 0.5, 1.0))
        elif k == 'B':
            out.append(basis(b, 2, 1))
        elif k == 'same':
            mk_ = ell if cls == 'Ellipsoid' else hyp
            out.append(pack(b, [mk_(b, 'S%d' % i) for i in range(4 if form == 'mat' else 3)], form))
        elif k == 'one':
            out.append(b.lst([hyp(b, 'S')]))
        else:
            out.append(k)
    return out


for _cls, _ops, _who in (('Ellipsoid', _ELL_OPS, ['text', 'number', 'none', 'hyp']),
                         ('Hyperplane', _HYP_OPS, ['text', 'number', 'none', 'ell'])):
    for _op, _ex in _ops.items():
        @bad('C07', '%s.%s/wrong class' % (_cls, _op), who=_who, at=['first', 'middle', 'last'], form=['list', 'row', 'col', 'mat'])
        def _(b, who, at, form, cls=_cls, op=_op, ex=_ex):
            if form in ('col', 'mat') and (who not in ('number', 'hyp', 'ell') or at == 'middle'):
                return None
            a = mixed(b, cls, who, at, form)
            xs = extras(b, cls, ex, form)
            args = xs + [a] if op.endswith('/second') else [a] + xs
            c = b.get(ELL_ if cls == 'Ellipsoid' else HYP_)
            return lambda: b.meth(c, op.split('/')[0], *args)

        @bad('C07', '%s.%s/wrong class in a long collection' % (_cls, _op), k=[(12, 11), (33, 32), (18, 3), (41, 22)])
        def _(b, k, cls=_cls, op=_op, ex=_ex):
            k, at = k
            o = (ell if cls == 'Ellipsoid' else hyp)(b, 'O')
            a = b.lst([o] * at + [STRANGERS['hyp' if cls == 'Ellipsoid' else 'ell'](b)] + [o] * (k - 1 - at))
            xs = [b.lst([o] * k) if e == 'same' else x for e, x in zip(ex, extras(b, cls, ex, 'list'))]
            args = xs + [a] if op.endswith('/second') else [a] + xs
            c = b.get(ELL_ if cls == 'Ellipsoid' else HYP_)
            return lambda: b.meth(c, op.split('/')[0], *args)

        @bad('C07', '%s.%s/not an object' % (_cls, _op), who=_who)
        def _(b, who, cls=_cls, op=_op, ex=_ex):
            if who == 'text':
                return None
            xs = extras(b, cls, ex, 'list')
            args = xs + [STRANGERS[who](b)] if op.endswith('/second') else [STRANGERS[who](b)] + xs
            c = b.get(ELL_ if cls == 'Ellipsoid' else HYP_)
            return lambda: b.meth(c, op.split('/')[0], *args)


@bad('C07', '__eq__/other class', cls=['Ellipsoid', 'Hyperplane'], who=['text', 'number', 'none', 'other'], op=['__eq__', '__ne__'])
def _(b, cls, who, op):
    e = ell(b) if cls == 'Ellipsoid' else hyp(b)
    o = (hyp(b, 'X') if cls == 'Ellipsoid' else ell(b, 'X')) if who == 'other' else STRANGERS[who](b)
    return lambda: b.meth(e, op, o)


def with_empty(b, at, form, k=3, n=2):
    objs = [ell(b, 'E%d' % i, n) for i in range(4 if form == 'mat' else k)]
    objs[{'first': 0, 'middle': 1, 'last': -1}[at]] = b.call(ELL_)
    return pack(b, objs, form)


for _op in ('is_degenerate', 'trace', 'volume', 'min_eig', 'max_eig', 'polar', 'is_internal', 'minksum_ea', 'minksum_ia'):
    @bad('C07', 'Ellipsoid.%s/empty ellipsoid inside' % _op, at=['first', 'middle', 'last'], form=['list', 'row', 'col', 'mat'])
    def _(b, at, form, op=_op):
        a = with_empty(b, at, form)
        return lambda: b.meth(cl(b), op, a, *extras(b, 'Ellipsoid', _ELL_OPS[op], form))

    @bad('C07', 'Ellipsoid.%s/only empty ellipsoids' % _op, k=[1, 2])
    def _(b, k, op=_op):
        a = b.lst([b.call(ELL_) for _ in range(k)])
        return lambda: b.meth(cl(b), op, a, *extras(b, 'Ellipsoid', _ELL_OPS[op], 'list'))

for _op in ('is_internal', 'minksum_ea', 'minksum_ia'):
    @bad('C07', 'Ellipsoid.%s/no ellipsoids' % _op, form=['list', 'row'])
    def _(b, form, op=_op):
        a = b.lst([]) if form == 'list' else b.oarr([], (1, 0))
        return lambda: b.meth(cl(b), op, a, *extras(b, 'Ellipsoid', _ELL_OPS[op], 'list'))

    @bad('C07', 'Ellipsoid.%s/empty ellipsoids, vectors of dimension zero' % _op, k=[1, 2])
    def _(b, k, op=_op):
        a = b.lst([b.call(ELL_) for _ in range(k)])
        return lambda: b.meth(cl(b), op, a, b.E.new_arr([], (0, 1), 'f'), *(['u'] if op == 'is_internal' else []))

for _op in ('minksum_ea', 'minksum_ia', 'is_internal', 'rho', 'projection', 'get_projection'):
    @bad('C07', 'Ellipsoid.%s/dimensions differ' % _op, at=['first', 'middle', 'last'], n=[1, 3], form=['list', 'row'])
    def _(b, at, n, form, op=_op):
        objs = [ell(b, 'E%d' % i, 2) for i in range(3)]
        objs[{'first': 0, 'middle': 1, 'last': -1}[at]] = ell(b, 'F', n)
        return lambda: b.meth(cl(b), op, pack(b, objs, form), *extras(b, 'Ellipsoid', _ELL_OPS[op], form))

    @bad('C07', 'Ellipsoid.%s/vectors of another dimension' % _op, n=[1, 2, 3], m=[1, 2, 3, 4], k=[1, 2], nd=[1, 2])
    def _(b, n, m, k, nd, op=_op):
        if n == m or n == 3 and m == 4 and nd == 2:
            return None
        objs = [ell(b, 'E%d' % i, n) for i in range(k)]
        if 'projection' in op:
            if nd > m:
                return None
            return lambda: b.meth(cl(b), op, b.lst(objs), basis(b, m, nd))
        L = b.mat('L', m, nd, 0.5, 1.0)
        return lambda: b.meth(cl(b), op, b.lst(objs), L, *(['u'] if op == 'is_internal' else []))

for _op in ('minksum_ea', 'minksum_ia'):
    @bad('C07', 'Ellipsoid.%s/vector of another dimension' % _op, n=[1, 3], k=[1, 2])
    def _(b, n, k, op=_op):
        objs = [ell(b, 'E%d' % i, 2) for i in range(k)]
        return lambda: b.meth(cl(b), op, b.lst(objs), b.vec('L', n, 0.5, 1.0))

for _op in ('rho', 'is_internal', 'projection', 'get_projection'):
    @bad('C07', 'Ellipsoid.%s/vectors not numeric' % _op)
    def _(b, op=_op):
        e = ell(b)
        return lambda: b.meth(cl(b), op, b.lst([e]), b.oarr(['a', 'b'], (2, 1)), *(['u'] if op == 'is_internal' else []))


@bad('C07', 'Ellipsoid.is_internal/mode', mode=['x', 'ui', 'U', ''])
def _(b, mode):
    a, o = ells(b, 'list')
    return lambda: b.meth(cl(b), 'is_internal', a, b.mat('X', 2, 1), mode)


@bad('C07', 'Ellipsoid.rho/grids', sh=[(1, 4), (4, 1), (2, 3), (3, 2), (4,), (2, 2, 1)])
def _(b, sh):
    n = 1
    for k in sh:
        n *= k
    dirs = b.E.new_arr([b.num('L%d' % i, 0.5, 1.0) for i in range(2 * n)], (2,) + sh, 'f')
    a = pack(b, [ell(b, 'E%d' % i) for i in range(4)], 'mat')
    return lambda: b.meth(cl(b), 'rho', a, dirs)


@bad('C07', 'Ellipsoid.rho/sizes', form=['row', 'col', 'mat', 'list3'], nd=[2, 3, 5])
def _(b, form, nd):
    k = {'row': 4, 'col': 4, 'mat': 4, 'list3': 3}[form]
    objs = [ell(b, 'E%d' % i) for i in range(k)]
    if form == 'list3' and nd == 3:
        return None
    a = pack(b, objs, 'list' if form == 'list3' else form)
    return lambda: b.meth(cl(b), 'rho', a, b.mat('L', 2, nd))


for _op in ('projection', 'get_projection'):
    @bad('C07', 'Ellipsoid.%s/basis not orthogonal' % _op, n=[2, 3], sign=[1, -1], form=['list', 'row'])
    def _(b, n, sign, form, op=_op):
        els = [[0.0] * 2 for _ in range(n)]
        for j in range(2):
            els[j][j] = b.num('B%d' % j, 0.5, 2.0, np=True)
        els[0][1] = b.num('x', *((0.3, 0.9) if sign > 0 else (-0.9, -0.3)), np=True)
        a, o = ells(b, form, n)
        return lambda: b.meth(cl(b), op, a, b.arr(els, 'f'))

    @bad('C07', 'Ellipsoid.%s/too many basis vectors' % _op, n=[1, 2], form=['list', 'row'])
    def _(b, n, form, op=_op):
        a, o = ells(b, form, n)
        return lambda: b.meth(cl(b), op, a, b.mat('B', n, n + 1))

for _cls in ('Ellipsoid', 'Hyperplane'):
    @bad('C07', _cls + '.is_equal/sizes', a=['list', 'row', 'col', 'mat'], c=['list', 'row', 'col', 'mat', 'list3'])
    def _(b, a, c, cls=_cls):
        if a == c:
            return None
        mk_ = ell if cls == 'Ellipsoid' else hyp
        x = [mk_(b, 'O%d' % i) for i in range(count(a))]
        y = [mk_(b, 'P%d' % i) for i in range(3 if c == 'list3' else count(c))]
        C = b.get(ELL_ if cls == 'Ellipsoid' else HYP_)
        return lambda: b.meth(C, 'is_equal', pack(b, x, a), pack(b, y, c.replace('3', '')))

    @bad('C07', _cls + '.is_equal/one side empty', side=[0, 1], k=[1, 2])
    def _(b, side, k, cls=_cls):
        mk_ = ell if cls == 'Ellipsoid' else hyp
        x = [b.lst([mk_(b, 'O%d' % i) for i in range(k)]), b.lst([])]
        if side:
            x.reverse()
        C = b.get(ELL_ if cls == 'Ellipsoid' else HYP_)
        return lambda: b.meth(C, 'is_equal', *x)


@bad('C07', 'Ellipsoid.is_bigger/dimensions', n=[1, 2, 3], m=[1, 2, 3])
def _(b, n, m):
    if n == m:
        return None
    return lambda: b.meth(ell(b, 'E', n), 'is_bigger', ell(b, 'F', m))


@bad('C07', 'Ellipsoid.is_bigger/not one ellipsoid', who=['hyp', 'number', 'none', 'two', 'nothing', 'mixed'])
def _(b, who):
    e = ell(b)
    o = {'two': lambda: b.lst([ell(b, 'F'), ell(b, 'G')]), 'nothing': lambda: b.lst([]),
         'mixed': lambda: b.lst([ell(b, 'F'), hyp(b, 'X')])}.get(who, lambda: STRANGERS[who](b))()
    return lambda: b.meth(e, 'is_bigger', o)


for _op in ('get_boundary', 'get_boundary_by_factor', 'get_rho_boundary', 'get_rho_boundary_by_factor'):
    @bad('C07', 'Ellipsoid.%s/dimension' % _op, n=[0, 1, 4])
    def _(b, n, op=_op):
        e = ell(b, 'E', n, npts=4) if n else b.call(ELL_)
        return lambda: b.meth(e, op)

    @bad('C07', 'Ellipsoid.%s/dimension, with an argument' % _op, n=[0, 1, 4, 5], arg=['number', 'vector'])
    def _(b, n, arg, op=_op):
        e = ell(b, 'E', n, npts=4) if n else b.call(ELL_)
        if 'factor' not in op:
            return (lambda: b.meth(e, op, num(4))) if arg == 'number' else None
        return lambda: b.meth(e, op, num(1.5) if arg == 'number' else b.arr([1.0, 2.0]))


@bad('C07', 'Ellipsoid.polar/degenerate', at=['first', 'last'], form=['list', 'row'])
def _(b, at, form):
    objs = [ell(b, 'E0', lo=-0.1, hi=0.1), ell(b, 'E1', kind='deg', lo=-0.1, hi=0.1)]
    if at == 'first':
        objs.reverse()
    return lambda: b.meth(cl(b), 'polar', pack(b, objs, form))


@bad('C07', 'Hyperplane.contains/vector of another dimension', n=[1, 2, 3], m=[1, 2, 3, 4], k=[1, 2], nd=[1, 2])
def _(b, n, m, k, nd):
    if n == m:
        return None
    objs = [hyp(b, 'H%d' % i, n) for i in range(k)]
    return lambda: b.meth(hc(b), 'contains', b.lst(objs), b.mat('X', m, nd))


@bad('C07', 'Hyperplane.contains/dimensions differ', at=['first', 'middle', 'last'], n=[1, 3])
def _(b, at, n):
    objs = [hyp(b, 'H%d' % i, 2) for i in range(3)]
    objs[{'first': 0, 'middle': 1, 'last': -1}[at]] = hyp(b, 'G', n)
    return lambda: b.meth(hc(b), 'contains', b.lst(objs), b.mat('X', 2, 1))


@bad('C07', 'Hyperplane.contains/empty hyperplane', at=['first', 'middle', 'last'], nd=[1, 3])
def _(b, at, nd):
    objs = [hyp(b, 'H%d' % i, 2) for i in range(3)]
    objs[{'first': 0, 'middle': 1, 'last': -1}[at]] = b.call(HYP_)
    return lambda: b.meth(hc(b), 'contains', b.lst(objs), b.mat('X', 2, nd))


@bad('C07', 'Hyperplane.contains/numbers disagree', n=[1, 2, 3], k=[2, 3, 4], nd=[2, 3, 4, 6], form=['list', 'row', 'mat'])
def _(b, n, k, nd, form):
    if k == nd or form == 'mat' and k != 4:
        return None
    objs = [hyp(b, 'H%d' % i, n) for i in range(k)]
    return lambda: b.meth(hc(b), 'contains', pack(b, objs, form), b.mat('X', n, nd))


@bad('C07', 'Hyperplane.contains/NaN', pos=[0, 1], k=[1, 2])
def _(b, pos, k):
    objs = [hyp(b, 'H%d' % i, 2) for i in range(k)]
    return lambda: b.meth(hc(b), 'contains', b.lst(objs), put(b, b.mat('X', 2, 1), pos, NAN))


@bad('C07', 'Hyperplane.contains/not numeric')
def _(b):
    h = hyp(b)
    return lambda: b.meth(hc(b), 'contains', b.lst([h]), b.oarr(['a', 'b'], (2, 1)))


@bad('C07', 'Hyperplane.is_parallel/sizes', a=['list', 'row', 'col', 'mat'], c=['list', 'row', 'col', 'mat', 'list3'])
def _(b, a, c):
    if a == c:
        return None
    x = [hyp(b, 'O%d' % i) for i in range(count(a))]
    y = [hyp(b, 'P%d' % i) for i in range(3 if c == 'list3' else count(c))]
    return lambda: b.meth(hc(b), 'is_parallel', pack(b, x, a), pack(b, y, c.replace('3', '')))


# =================================================== C08: numeric routines
def negtol(b):
    return b.num('tol', -1.0, -1e-12)


for _op in ('is_mat_not_deg', 'is_mat_pos_def', 'sqrtm_pos', 'is_mat_symm'):
    @bad('C08', '%s/negative tolerance' % _op, n=[1, 2])
    def _(b, n, op=_op):
        return lambda: b.call(LA + op, b.symm('Q', n), negtol(b))

    if _op != 'is_mat_not_deg':
        @bad('C08', '%s/not square' % _op, sh=[(2, 3), (3, 2), (1, 2), (4,), (2, 2, 1)])
        def _(b, sh, op=_op):
            k = 1
            for s in sh:
                k *= s
            return lambda: b.call(LA + op, b.vec('Q', k, shape=sh), b.num('tol', *TOL))

for _op in ('is_mat_pos_def', 'sqrtm_pos', 'reg_pos_def_mat'):
    @bad('C08', '%s/not symmetric' % _op, n=[2, 3], at=['first', 'last'], gap=['big', 'small', 'neg'], deflt=[True, False])
    def _(b, n, at, gap, deflt, op=_op):
        q = b.symm('Q', n)
        i, j = (0, 1) if at == 'first' else (n - 2, n - 1)
        d = {'big': (0.5, 1.0), 'small': (1e-4, 1e-3), 'neg': (-1.0, -0.5)}[gap]
        q = put(b, q, i * n + j, b.E.binop('Add', b.E.elems(q)[j * n + i], b.num('d', *d)))
        if op == 'reg_pos_def_mat':
            return (lambda: b.call(LA + op, q, b.num('r', 0.1, 1.0))) if deflt else None
        return lambda: b.call(LA + op, q, *([] if deflt else [b.num('tol', *TOL)]))


@bad('C08', 'sqrtm_pos/not positive semidefinite', n=[1, 2, 3], how=['neg', 'slight'], deflt=[True, False])
def _(b, n, how, deflt):
    q = b.diag('Q', [(1.0, 2.0)] * (n - 1) + [(-2.0, -0.5) if how == 'neg' else (-1e-3, -1e-5)])
    return lambda: b.call(LA + 'sqrtm_pos', q, *([] if deflt else [b.num('tol', *TOL)]))


@bad('C08', 'sqrtm_pos/indefinite with positive diagonal')
def _(b):
    return lambda: b.call(LA + 'sqrtm_pos', b.symm('Q', 2, (1.0, 1.5), (2.0, 3.0)))


for _op in ('reg_pos_def_mat', 'reg_mat'):
    @bad('C08', '%s/regularisation tolerance' % _op, how=['neg', 'zero', 'array', 'text', 'none'])
    def _(b, how, op=_op):
        t = {'neg': lambda: negtol(b), 'zero': lambda: num(0.0), 'array': lambda: b.vec('t', 2, 0.1, 1.0),
             'text': lambda: 'abc', 'none': lambda: None}[how]()
        return lambda: b.call(LA + op, b.symm('Q', 2), t)


@bad('C08', 'reg_pos_def_mat/not square', sh=[(2, 3), (3, 1)])
def _(b, sh):
    return lambda: b.call(LA + 'reg_pos_def_mat', b.mat('Q', *sh), b.num('r', 0.1, 1.0))


@bad('C08', 'try_treat_as_real/tolerance', how=['neg', 'zero', 'array', 'text', 'none'])
def _(b, how):
    t = {'neg': lambda: negtol(b), 'zero': lambda: num(0.0), 'array': lambda: b.vec('t', 2, 0.1, 1.0),
         'text': lambda: 'abc', 'none': lambda: None}[how]()
    return lambda: b.call(LA + 'try_treat_as_real', b.symm('Q', 2), t)


@bad('C08', 'try_treat_as_real/imaginary part', kind=['scalar', 'vec', 'one', 'mat', 'neg', 'negscalar'], deflt=[True, False])
def _(b, kind, deflt):
    def z(i, lo=0.5, hi=1.0):
        return cplx(b.num('r%d' % i, -1, 1), b.num('i%d' % i, lo, hi), True)
    if kind == 'scalar':
        v = z(0)
    elif kind == 'negscalar':
        v = z(0, -1.0, -0.5)
    elif kind == 'vec':
        v = b.E.new_arr([z(0), z(1)], (2,), 'c')
    elif kind == 'neg':
        v = b.E.new_arr([z(0, -1.0, -0.5), z(1, -1.0, -0.5)], (2,), 'c')
    elif kind == 'one':
        v = b.E.new_arr([cplx(b.num('r', -1, 1), num(0.0), True), z(1)], (2,), 'c')
    else:
        v = b.E.new_arr([z(i) for i in range(4)], (2, 2), 'c')
    return lambda: b.call(LA + 'try_treat_as_real', v, *([] if deflt else [b.num('tol', *TOL)]))


for _op in ('orth_transl', 'orth_transl_qr'):
    @bad('C08', '%s/zero vector' % _op, which=['src', 'dst', 'both'], n=[1, 2, 3], col=[False, True])
    def _(b, which, n, col, op=_op):
        sh = (n, 1) if col else (n,)
        z = lambda: b.E.new_arr([num(0.0, True)] * n, sh, 'f')
        s = z() if which != 'dst' else b.vec('S', n, 0.5, 1.0, shape=sh)
        d = z() if which != 'src' else b.vec('D', n, 0.5, 1.0, shape=sh)
        return lambda: b.call(LA + op, s, d)


@bad('C08', 'ml_orth_transl/zero vector', which=['src', 'dst'], at=[0, 1])
def _(b, which, at):
    s, d = b.mat('S', 2, 2, 0.5, 1.0), b.mat('D', 2, 2, 0.5, 1.0)
    z = lambda m: put(b, put(b, m, at, 0.0), 2 + at, 0.0)
    s, d = (z(s), d) if which == 'src' else (s, z(d))
    return lambda: b.call(LA + 'ml_orth_transl', s, d)


@bad('C08', 'mat_dot/sizes', x=[(2, 2), (3, 3), (2, 2, 2), (2, 3)], y=[(2, 2), (3, 3), (2, 2, 3), (3, 2)])
def _(b, x, y):
    if x == y:
        return None
    p = lambda s: s[0] * s[1] * (s[2] if len(s) > 2 else 1)
    return lambda: b.call(GEN + 'mat_dot', b.vec('X', p(x), shape=x), b.vec('Y', p(y), shape=y))


@bad('C08', 'mat_dot/not square', x=[(2, 3), (1, 2), (2, 1), (2, 3, 2)])
def _(b, x):
    p = x[0] * x[1] * (x[2] if len(x) > 2 else 1)
    return lambda: b.call(GEN + 'mat_dot', b.vec('X', p, shape=x), b.vec('Y', p, shape=x))


@bad('C08', 'sort_rows_tol/tolerance')
def _(b):
    t = negtol(b)
    return lambda: b.call(GEN + 'sort_rows_tol', b.arr([[1.0, 2.0], [3.0, 4.0]]), t)


@bad('C08', 'sort_rows_tol/not a matrix', sh=[(3,), (1, 2, 2), (2, 2, 1)])
def _(b, sh):
    k = 1
    for s in sh:
        k *= s
    return lambda: b.call(GEN + 'sort_rows_tol', b.vec('X', k, shape=sh), b.num('tol', *TOL))


@bad('C08', 'sort_rows_tol/not numeric')
def _(b):
    return lambda: b.call(GEN + 'sort_rows_tol', b.oarr(['a', 'b'], (1, 2)), b.num('tol', *TOL))


@bad('C08', 'sqrt_pos/tolerance', kind=['scalar', 'vec'])
def _(b, kind):
    x = b.num('x', 0, 1) if kind == 'scalar' else b.vec('x', 2, 0, 1)
    return lambda: b.call(GEN + 'sqrt_pos', x, negtol(b))


@bad('C08', 'sqrt_pos/negative', kind=['scalar', 'vec', 'mat', 'arr3', 'last', 'middle'], size=['big', 'small'], deflt=[True, False])
def _(b, kind, size, deflt):
    lo = (-2.0, -0.5) if size == 'big' else (-1e-3, -1e-5)
    n = b.num('n', *lo, np=True)
    if kind == 'scalar':
        x = b.num('n', *lo)
    elif kind == 'vec':
        x = b.vec('n', 2, *lo)
    elif kind == 'mat':
        x = put(b, b.mat('x', 2, 2, 0.0, 1.0), 2, n)
    elif kind == 'arr3':
        x = put(b, arr3(b, 'x', 2, 1, 2, 0.0, 1.0), 3, n)
    elif kind == 'last':
        x = put(b, b.vec('x', 3, 0.0, 1.0), 2, n)
    else:
        x = put(b, b.vec('x', 3, 0.0, 1.0), 1, n)
    return lambda: b.call(GEN + 'sqrt_pos', x, *([] if deflt else [b.num('tol', *TOL)]))


@bad('C08', 'from_expression/empty')
def _(b):
    return lambda: b.meth(b.get(MV), 'from_expression', '', b.vec('t', 2))


@bad('C08', 'r_multiply_by_vec/not a matrix', sh=[(4,), (2, 2, 1)], sparse=[False, True])
def _(b, sh, sparse):
    return lambda: b.meth(b.get(MV), 'r_multiply_by_vec', arr3(b, 'A', 2, 2, 2), b.vec('B', 4, shape=sh), boolv(sparse))


@bad('C08', 'r_multiply/number of matrices', ka=[1, 2, 4], kb=[2, 3, 5])
def _(b, ka, kb):
    if ka == kb:
        return None
    return lambda: b.meth(b.get(MV), 'r_multiply', arr3(b, 'A', 2, 2, ka), arr3(b, 'B', 2, 2, kb))


@bad('C08', 'lr_multiply/flag', db=[2, 3], da=[2, 3], flag=['X', 'r', 'RL', ''])
def _(b, db, da, flag):
    x = b.symm('B', 2) if db == 2 else symm3(b, 'B', 2, 2)
    y = b.mat('A', 2, 2) if da == 2 else arr3(b, 'A', 2, 2, 2)
    return lambda: b.meth(b.get(SMV), 'lr_multiply', x, y, flag)


@bad('C08', 'lr_svd_multiply/flag', flag=['X', 'r', 'RL', ''])
def _(b, flag):
    x, y = symm3(b, 'B', 2, 2), arr3(b, 'A', 2, 2, 2)
    return lambda: b.meth(b.get(YMV), 'lr_svd_multiply', x, y, flag)


@bad('C08', 'make_pos_definite_by_eig/not symmetric', d=[2, 3], at=[0, 1])
def _(b, d, at):
    if d == 2:
        x = put(b, b.symm('X', 2), 1, b.num('x', 1.0, 2.0, np=True))
    else:
        x = put(b, symm3(b, 'X', 2, 2), 2 + at, b.num('x', 1.0, 2.0, np=True))
    return lambda: b.meth(b.get(SMV), 'make_pos_definite_by_eig', x)


@bad('C08', 'SquareMatVector.sqrtm_pos/not positive semidefinite', d=[2, 3], at=[0, 1])
def _(b, d, at):
    q = b.diag('Q', [(1.0, 2.0), (-2.0, -0.5)])
    if d == 3:
        els = []
        for i in range(2):
            for j in range(2):
                for t in range(2):
                    els.append(num(0.0, True) if i != j else b.num('X%d%d' % (i, t), *(
                        (-2.0, -0.5) if t == at and i == 1 else (1.0, 2.0)), np=True))
        q = b.E.new_arr(els, (2, 2, 2), 'f')
    return lambda: b.meth(b.get(SMV), 'sqrtm_pos', q)


@bad('C08', 'r_svd_multiply_by_vec/not a matrix')
def _(b):
    return lambda: b.meth(b.get(YMV), 'r_svd_multiply_by_vec', symm3(b, 'B', 2, 1), b.vec('A', 2))


@bad('C08', 'var_replace/empty', form=['list', 'arr'])
def _(b, form):
    m = b.lst([]) if form == 'list' else b.arr([])
    return lambda: b.call(SYM + 'var_replace', m if form == 'arr' else b.E.to_arr(m, None, True), 't', 'x')


@bad('C08', 'var_replace/name', which=['from', 'to'], how=['number', 'none', 'list'])
def _(b, which, how):
    v = {'number': num(1), 'none': None, 'list': b.lst(['t'])}[how]
    m = b.arr([['t*2', 'cos(t)'], ['1', 'tt+t']])
    return lambda: b.call(SYM + 'var_replace', m, v if which == 'from' else 't', v if which == 'to' else 'x')


for _op, _n in (('sup_geom_diff_2d', 2), ('sup_geom_diff_3d', 3)):
    @bad('C08', '%s/dimension' % _op, m=[1, 2, 3, 4])
    def _(b, m, op=_op, n=_n):
        if m == n:
            return None
        return lambda: b.call(SUP + op, b.vec('r', 4, 2, 3), b.vec('s', 4, 0.5, 1), b.mat('L', m, 4))

    @bad('C08', '%s/lengths' % _op, r=[3, 4, 5], s=[3, 4, 5])
    def _(b, r, s, op=_op, n=_n):
        if r == s == 4:
            return None
        return lambda: b.call(SUP + op, b.vec('r', r, 2, 3), b.vec('s', s, 0.5, 1), b.mat('L', n, 4))

    @bad('C08', '%s/not vectors' % _op, which=['r', 's', 'l'])
    def _(b, which, op=_op, n=_n):
        r = b.mat('r', 2, 2, 2, 3) if which == 'r' else b.vec('r', 4, 2, 3)
        s = b.mat('s', 2, 2, 0.5, 1) if which == 's' else b.vec('s', 4, 0.5, 1)
        l = b.vec('L', 4) if which == 'l' else b.mat('L', n, 4)
        return lambda: b.call(SUP + op, r, s, l)

    @bad('C08', '%s/empty difference' % _op, at=['all', 'first', 'last', 'zero'])
    def _(b, at, op=_op, n=_n):
        r, s = b.vec('r', 4, 2, 3), b.vec('s', 4, 0.5, 1)
        if at == 'all':
            r, s = s, r
        elif at == 'zero':
            s = put(b, s, 1, b.E.elems(r)[1])
        else:
            s = put(b, s, 0 if at == 'first' else 3, b.num('x', 4, 5, np=True))

        def reached(E, path, args, kw, node):
            E.py_raise('Reached', 'the hull of a set with empty interior is computed', True)
        b.E.intercept['ext:scipy.spatial.ConvexHull'] = reached
        return lambda: b.call(SUP + op, r, s, b.mat('L', n, 4))


@bad('C08', 'inv_mat/not square', sh=[(2, 3), (3, 2), (4,), (1, 2, 2)])
def _(b, sh):
    k = 1
    for s in sh:
        k *= s
    return lambda: b.call(EG + 'inv_mat', b.vec('Q', k, shape=sh))


@bad('C08', 'quad_mat/matrix', sh=[(2, 3), (3, 2), (4,), (1, 2, 2)])
def _(b, sh):
    k = 1
    for s in sh:
        k *= s
    return lambda: b.call(EG + 'quad_mat', b.vec('Q', k, shape=sh), b.vec('x', 2))


@bad('C08', 'quad_mat/mode', mode=['x', '', 'inverse', 'plain '])
def _(b, mode):
    return lambda: b.call(EG + 'quad_mat', b.symm('Q', 2), b.vec('x', 2), num(0.0), mode)


@bad('C08', 'quad_mat/vector dimension', n=[1, 2, 3], x=[1, 2, 3, 4], form=['1d', 'row', 'col'], mode=['plain', 'inv', 'invadv'])
def _(b, n, x, form, mode):
    if n == x or mode != 'plain' and (n, x) not in ((2, 1), (2, 3)):
        return None
    sh = {'1d': (x,), 'row': (1, x), 'col': (x, 1)}[form]
    return lambda: b.call(EG + 'quad_mat', b.symm('Q', n), b.vec('x', x, shape=sh), num(0.0), mode)


@bad('C08', 'quad_mat/center dimension', n=[2, 3], c=[1, 2, 3, 4], form=['1d', 'row', 'col'])
def _(b, n, c, form):
    if n == c:
        return None
    sh = {'1d': (c,), 'row': (1, c), 'col': (c, 1)}[form]
    return lambda: b.call(EG + 'quad_mat', b.symm('Q', n), b.vec('x', n), b.vec('c', c, 0.5, 1.0, shape=sh))


@bad('C08', 'quad_mat/vector dimension, explicit center', n=[2, 3], x=[1, 2, 3, 4], form=['1d', 'row', 'col'])
def _(b, n, x, form):
    if n == x:
        return None
    sh = {'1d': (x,), 'row': (1, x), 'col': (x, 1)}[form]
    return lambda: b.call(EG + 'quad_mat', b.symm('Q', n), b.vec('x', x, shape=sh), b.vec('c', n, 0.5, 1.0))


@bad('C08', 'quad_mat/vector shape', which=['x', 'c'], sh=[(2, 2), (1, 2, 2), (2, 1, 1)])
def _(b, which, sh):
    k = 1
    for s in sh:
        k *= s
    v = b.vec('v', k, 0.5, 1.0, shape=sh)
    return lambda: b.call(EG + 'quad_mat', b.symm('Q', 2), *([v] if which == 'x' else [b.vec('x', 2), v]))


@bad('C08', 'quad_mat/not numeric', which=['q', 'x', 'c'])
def _(b, which):
    q = b.oarr(['a'] * 4, (2, 2)) if which == 'q' else b.symm('Q', 2)
    x = words(b) if which == 'x' else b.vec('x', 2)
    c = words(b) if which == 'c' else num(0.0)
    return lambda: b.call(EG + 'quad_mat', q, x, c)


@bad('C08', 'sphere_part/points', n=[0, -1, 'neg'])
def _(b, n):
    return lambda: b.call(GEOM + 'sphere_part', b.num('n', -5, -1, 'i') if n == 'neg' else num(n))


@bad('C08', 'sphere_tri/depth', how=['neg', 'frac', 'text', 'array', 'negconst'])
def _(b, how):
    d = {'neg': lambda: b.num('d', -5, -1, 'i'), 'frac': lambda: b.num('d', 1.1, 1.9), 'text': lambda: 'abc',
         'array': lambda: b.vec('d', 2), 'negconst': lambda: num(-1)}[how]()
    return lambda: b.call(TRI + 'sphere_tri', d)


@bad('C08', 'sphere_tri_ext/points', dim=[2, 3], how=['neg', 'zero', 'frac', 'text', 'array'])
def _(b, dim, how):
    d = {'neg': lambda: b.num('d', -5, -1, 'i'), 'frac': lambda: b.num('d', 1.1, 1.9), 'text': lambda: 'abc',
         'array': lambda: b.vec('d', 2), 'zero': lambda: num(0)}[how]()
    return lambda: b.call(TRI + 'sphere_tri_ext', num(dim), d, boolv(True))


for _op in ('get_face_edge_info', 'map_face_2_edge'):
    @bad('C08', '%s/columns' % _op, sh=[(2,), (4,), (2, 2), (2, 4), (1, 2)])
    def _(b, sh, op=_op):
        k = 1
        for s in sh:
            k *= s
        f = b.E.new_arr([num(i, True) for i in range(k)], sh, 'i')
        return lambda: b.call(TRI + op, f)


@bad('C08', 'ell_sim_diag/arguments', how=['semidef', 'neg', 'asym1', 'asym2', 'dim', 'words1', 'words2', 'rect2'])
def _(b, how):
    a, c = b.symm('A', 2), b.symm('B', 2)
    if how == 'semidef':
        a = b.diag('A', [(1.0, 2.0), 0.0])
    elif how == 'neg':
        a = b.diag('A', [(1.0, 2.0), (-2.0, -1.0)])
    elif how == 'asym1':
        a = put(b, a, 1, b.num('x', 1.0, 2.0, np=True))
    elif how == 'asym2':
        c = put(b, c, 1, b.num('x', 1.0, 2.0, np=True))
    elif how == 'dim':
        c = b.symm('B', 3)
    elif how == 'words1':
        a = b.oarr(['a'] * 4, (2, 2))
    elif how == 'words2':
        c = b.oarr(['a'] * 4, (2, 2))
    else:
        c = b.mat('B', 2, 3)
    return lambda: b.call(CORE + 'ell_sim_diag', a, c, b.num('tol', *TOL))


@bad('C08', 'ell_valign/arguments', how=['mat1', 'mat2', 'dim', 'words1', 'words2'])
def _(b, how):
    v, x = b.vec('v', 2, 0.5, 1.0), b.vec('x', 2, 0.5, 1.0)
    if how == 'mat1':
        v = b.mat('v', 2, 2)
    elif how == 'mat2':
        x = b.mat('x', 2, 2)
    elif how == 'dim':
        x = b.vec('x', 3)
    elif how == 'words1':
        v = words(b)
    else:
        x = words(b)
    return lambda: b.call(CORE + 'ell_valign', v, x)


@bad('C08', 'abs_rel_compare/arguments',
     how=['shape', 'shape2', 'words', 'words2', 'abs_neg', 'abs_none', 'abs_arr', 'abs_cplx', 'rel_neg', 'rel_arr', 'rel_cplx', 'norm', 'norm_none'])
def _(b, how):
    x, y = b.vec('x', 2), b.vec('y', 2)
    a, r, f = b.num('a', *TOL), b.num('r', *TOL), Ext('numpy.abs')
    if how == 'shape':
        y = b.vec('y', 3)
    elif how == 'shape2':
        y = b.vec('y', 2, shape=(2, 1))
    elif how == 'words':
        x = words(b)
    elif how == 'words2':
        y = words(b)
    elif how == 'abs_neg':
        a = negtol(b)
    elif how == 'abs_none':
        a = None
    elif how == 'abs_arr':
        a = b.vec('a', 2, 0.1, 0.2)
    elif how == 'rel_neg':
        r = negtol(b)
    elif how in ('abs_cplx', 'rel_cplx'):
        z = cplx(b.num('re', 0.1, 0.2), b.num('im', 0.5, 1.0))
        a, r = (z, r) if how == 'abs_cplx' else (a, z)
    elif how == 'rel_arr':
        r = b.vec('a', 2, 0.1, 0.2)
    elif how == 'norm':
        f = 'abs'
    else:
        f = None
    return lambda: b.call(COMMON + 'abs_rel_compare', x, y, a, r, f)


@bad('C08', 'dict_compare/not dictionaries', which=['x', 'y', 'both'], how=['number', 'text', 'none', 'numlist', 'words', 'second'])
def _(b, which, how):
    d = lambda p: b.E.new_dict([('a', b.vec(p, 2))])
    v = lambda p: {'number': lambda: b.num(p, 0, 1), 'text': lambda: 'abc', 'none': lambda: None,
                   'numlist': lambda: b.lst([1.0, 2.0]), 'words': lambda: b.lst(['a', 'b']),
                   'second': lambda: b.lst([d(p + '1'), num(1.0)])}[how]()
    ok = lambda p: b.lst([d(p + '0'), d(p + '1')]) if how in ('second', 'numlist', 'words') else d(p)
    x = v('x') if which != 'y' else ok('x')
    y = v('y') if which != 'x' else ok('y')
    return lambda: b.call(DICT + 'dict_compare', x, y, b.num('tol', *TOL))


@bad('C08', 'parse_prop/unknown property', names=[('abs_tol', 'zzz'), ('zzz',), ('zzz', 'abs_tol'), ('absTol',)])
def _(b, names):
    return lambda: b.meth(b.get(PROPS_), 'parse_prop', b.E.new_dict([]), b.lst(list(names)))


_PP = {'version': ['num', 'none', 'bool'], 'is_verbose': ['num', 'text', 'none', 'flt'], 'abs_tol': ['neg', 'zero', 'num', 'text', 'none'],
       'rel_tol': ['neg', 'zero', 'num', 'text', 'none'], 'reg_tol': ['neg', 'zero', 'num', 'text', 'none'],
       'ode_solver_name': ['text', 'num', 'none'], 'is_ode_norm_control': ['num', 'text', 'none', 'flt'],
       'is_enabled_ode_solver_options': ['num', 'text', 'none', 'flt'], 'n_plot_2d_points': ['frac', 'text', 'none'],
       'n_plot_3d_points': ['frac', 'text', 'none'], 'n_time_grid_points': ['frac', 'text', 'none']}
for _p, _hs in _PP.items():
    @bad('C08', 'parse_prop/wrong ' + _p, how=_hs, form=['all', 'needed', 'second'])
    def _(b, how, form, p=_p):
        v = {'num': lambda: num(3), 'none': lambda: None, 'bool': lambda: boolv(True), 'text': lambda: 'abc',
             'flt': lambda: num(1.0), 'neg': lambda: b.num('v', -1.0, -1e-9), 'zero': lambda: num(0.0),
             'frac': lambda: b.num('v', 3.1, 3.9)}[how]()
        kw = b.E.new_dict([(p, v)])
        need = {'all': None, 'needed': [p], 'second': ['abs_tol' if p != 'abs_tol' else 'rel_tol', p]}[form]
        return lambda: b.meth(b.get(PROPS_), 'parse_prop', kw, *([] if need is None else [b.lst(need)]))
