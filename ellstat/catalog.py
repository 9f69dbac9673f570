"""Catalogue of the library's public operations with abstract arguments.

Every entry describes one way of calling one public operation on a whole class of well-formed inputs (boxes of matrices,
vectors, tolerances; lists and arrays of objects of several shapes).  The rules in `props` quantify over this catalogue.
"""
from .lab import *

P = 'ellipy.'
ELL_ = P + 'elltool.core.ellipsoid.Ellipsoid:Ellipsoid'
HYP_ = P + 'elltool.core.hyperplane.Hyperplane:Hyperplane'
PROPS_ = P + 'elltool.conf.properties.Properties:Properties'
LA = P + 'gras.la.la:'
GEN = P + 'gras.gen.gen:'
EG = P + 'gras.geom.ell.ell:'
SUP = P + 'gras.geom.sup.sup:'
GEOM = P + 'gras.geom.geom:'
TRI = P + 'gras.geom.tri.tri:'
SYM = P + 'gras.sym.sym:'
CORE = P + 'elltool.core.core:'
COMMON = P + 'gen.common.common:'
DICT = P + 'gen.dict.dict:'

CASES = []


class Case:
    """one abstract call"""

    def __init__(self, fn, args=None, objs=None, allow=(), fresh=True, shape=None, res=None):
        self.fn = fn
        self.args = args or {}      # caller-owned values that must not change
        self.objs = objs or {}      # library objects involved
        self.allow = allow          # labels that the operation is documented to modify
        self.fresh = fresh          # result must not share storage with anything else
        self.res = res or {}


def case(op, tier='quick', **variants):
    """register; variants: name -> list of values (the first ones are the quick tier)"""
    def deco(f):
        combos = [{}]
        for k, vs in variants.items():
            combos = [dict(c, **{k: v}) for c in combos for v in vs]
        for c in combos:
            t = tier
            label = op
            if c:
                label += '[' + ','.join('%s' % v if not isinstance(v, tuple) else 'x'.join(map(str, v))
                                        for v in c.values()) + ']'
            CASES.append((label, op, t, (lambda b, f=f, c=c: f(b, **c))))
        return f
    return deco


# ------------------------------------------------------------------ fixtures
def tols(b, name):
    return dict(abs_tol=b.num(name + '.abs_tol', 1e-8, 1e-6), rel_tol=b.num(name + '.rel_tol', 1e-7, 1e-5))


def qmat(b, name, n, kind='pd'):
    if kind == 'pd':
        return b.symm(name, n)
    if kind == 'diag':
        return b.diag(name, [(1.0 + i, 1.5 + i) for i in range(n)])
    if kind == 'wide':
        return b.diag(name, [(0.0, 2.0)] * n)
    if kind == 'deg':
        return b.diag(name, [(1.0 + i, 1.5 + i) for i in range(n - 1)] + [0.0])
    if kind == 'any':
        return b.mat(name, n, n, -3.0, 3.0)
    if kind == 'anysym':
        return b.symm(name, n, (-3.0, 3.0), (-3.0, 3.0))
    raise KeyError(kind)


def ell(b, name='E', n=2, kind='pd', tol=True, npts=None, lo=-1.0, hi=1.0):
    kw = tols(b, name) if tol else {}
    if npts:
        kw['n_plot_2d_points'] = num(npts)
        kw['n_plot_3d_points'] = num(npts)
    return b.call(ELL_, b.vec(name + '.c', n, lo, hi), qmat(b, name + '.Q', n, kind), **kw)


def ell_pair(b, rel, n=2, i=0):
    """two ellipsoids: near (within the tolerances of either), far (centers apart), or anything (any kind of qmat)"""
    if rel not in ('near', 'far'):
        return ell(b, 'E%d' % i, n, rel), ell(b, 'G%d' % i, n, rel)
    c, q = b.vec('E%d.c' % i, n, 0.5, 1.0), b.symm('E%d.Q' % i, n)
    e = b.call(ELL_, c, q, **tols(b, 'E%d' % i))
    d = b.vec('d%d' % i, n, *((-1e-10, 1e-10) if rel == 'near' else (3.0, 4.0)))
    f = b.call(ELL_, b.E.binop('Add', c, d), q, **tols(b, 'G%d' % i))
    return e, f


def hyp_pair(b, rel, n=2, i=0):
    if rel not in ('near', 'far'):
        return hyp(b, 'H%d' % i, n), hyp(b, 'G%d' % i, n)
    v, s = b.vec('H%d.n' % i, n, 0.5, 1.0), b.num('H%d.s' % i, 0.5, 1.0)
    e = b.call(HYP_, v, s, **tols(b, 'H%d' % i))
    d = b.num('d%d' % i, *((-1e-10, 1e-10) if rel == 'near' else (3.0, 4.0)))
    f = b.call(HYP_, v, b.E.binop('Add', s, d), **tols(b, 'G%d' % i))
    return e, f


def hyp(b, name='H', n=2, tol=True, lo=0.5, hi=2.0):
    kw = tols(b, name) if tol else {}
    return b.call(HYP_, b.vec(name + '.n', n, lo, hi), b.num(name + '.s', 0.5, 1.0), **kw)


def pack(b, objs, form):
    """the ways a caller may hand over a collection of objects"""
    if isinstance(form, tuple):
        return b.oarr(objs, form)
    if form == 'list':
        return b.lst(objs)
    if form == 'arr':
        return b.oarr(objs)
    if form == 'row':
        return b.oarr(objs, (1, len(objs)))
    if form == 'col':
        return b.oarr(objs, (len(objs), 1))
    if form == 'mat':
        return b.oarr(objs, (2, len(objs) // 2))
    if form == 'fmat':
        # the same matrix held column by column, as a transposed array is
        return b.E.laid(list(objs), (2, len(objs) // 2), 'O', [1, 0])
    if form == 'one':
        return objs[0]
    raise KeyError(form)


def count(form, k=2):
    return {'one': 1, 'mat': 4, 'fmat': 4}.get(form, k)


def ells(b, form, n=2, kind='pd', k=2, npts=None):
    objs = [ell(b, 'E%d' % i, n, kind, npts=npts) for i in range(count(form, k))]
    return pack(b, objs, form), objs


def hyps(b, form, n=2, k=2, pre='H'):
    objs = [hyp(b, '%s%d' % (pre, i), n) for i in range(count(form, k))]
    return pack(b, objs, form), objs


def od(objs):
    return {'o%d' % i: o for i, o in enumerate(objs)}


F1 = ['list', 'row']
F3 = ['list', 'arr', 'row', 'col', 'mat']


# --------------------------------------------------------------- Ellipsoid
@case('Ellipsoid(Q)', n=[2, 3], kind=['pd', 'wide'])
def _(b, n, kind):
    q = qmat(b, 'Q', n, kind)
    return Case(lambda: b.call(ELL_, q), dict(shape_mat=q))


@case('Ellipsoid(c,Q)', n=[1, 2, 3], kind=['pd', 'wide', 'anysym', 'any'])
def _(b, n, kind):
    q, c = qmat(b, 'Q', n, kind), b.vec('c', n)
    return Case(lambda: b.call(ELL_, c, q, **tols(b, 'E')), dict(shape_mat=q, center_vec=c))


@case('Ellipsoid(c-column,Q)', n=[2])
def _(b, n):
    q, c = qmat(b, 'Q', n, 'pd'), b.vec('c', n, shape=(n, 1))
    return Case(lambda: b.call(ELL_, c, q), dict(shape_mat=q, center_vec=c))


@case('Ellipsoid(int)', n=[2])
def _(b, n):
    q = b.arr([[b.num('a', 2, 3, 'i'), 0], [0, b.num('b', 2, 3, 'i')]])
    c = b.arr([b.num('c', -2, 2, 'i'), b.num('d', -2, 2, 'i')])
    return Case(lambda: b.call(ELL_, c, q), dict(shape_mat=q, center_vec=c))


@case('Ellipsoid()')
def _(b):
    return Case(lambda: b.call(ELL_))


for _op in ('get_shape_mat', 'get_center_vec', 'double', 'parameters'):
    @case('Ellipsoid.%s' % _op, n=[2, 3])
    def _(b, n, op=_op):
        e = ell(b, 'E', n)
        return Case(lambda: b.meth(e, op), objs=dict(e=e))

for _op in ('__str__', '__neg__'):
    @case('Ellipsoid.%s' % _op, n=[2])
    def _(b, n, op=_op):
        e = ell(b, 'E', n)
        return Case(lambda: b.meth(e, op), objs=dict(e=e))


@case('Ellipsoid.__eq__', n=[1, 2, 3], kind=['near', 'far', 'wide'])
def _(b, n, kind):
    if n == 3 and kind == 'wide':
        return None
    e, f = ell_pair(b, kind, n)
    return Case(lambda: b.meth(e, '__eq__', f), objs=dict(e=e, f=f))


for _op in ('dimension', 'is_degenerate', 'is_empty', 'trace', 'volume', 'min_eig', 'max_eig', 'uminus', 'get_copy',
            'to_dict', 'get_abs_tol', 'get_rel_tol', 'get_n_plot_2d_points', 'get_n_plot_3d_points'):
    @case('Ellipsoid.%s' % _op, form=F3, kind=['pd', 'wide'])
    def _(b, form, kind, op=_op):
        a, o = ells(b, form, 2, kind)
        cl = b.get(ELL_)
        return Case(lambda: b.meth(cl, op, a), dict(ell_arr=a), od(o))

    @case('Ellipsoid.%s(3d)' % _op)
    def _(b, op=_op):
        a, o = ells(b, 'list', 3, 'pd')
        cl = b.get(ELL_)
        return Case(lambda: b.meth(cl, op, a), dict(ell_arr=a), od(o))


@case('Ellipsoid.dimension(rank)', form=['list', 'row'], kind=['pd', 'deg'])
def _(b, form, kind):
    a, o = ells(b, form, 2, kind)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'dimension', a, boolv(True)), dict(ell_arr=a), od(o))


@case('Ellipsoid.to_dict(prop)', form=['list', 'row'])
def _(b, form):
    a, o = ells(b, form, 2)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'to_dict', a, boolv(True)), dict(ell_arr=a), od(o))


@case('Ellipsoid.get_property', prop=['abs_tol', 'relTol', 'n_plot_2d_points', 'nPlot3dPoints'])
def _(b, prop):
    a, o = ells(b, 'list', 2)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'get_property', a, prop), dict(ell_arr=a), od(o))


@case('Ellipsoid.from_dict', form=['list', 'row'])
def _(b, form):
    ds = [ell_dict(b, 'D%d' % i) for i in range(2)]
    a = pack(b, ds, form)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'from_dict', a), dict(dict_arr=a))


def ell_dict(b, name, n=2, props=True):
    d = [('shape_mat', b.symm(name + '.Q', n)), ('center_vec', b.vec(name + '.c', n))]
    if props:
        d += [(k, v) for k, v in tols(b, name).items()]
    return b.E.new_dict(d)


def hyp_dict(b, name, n=2, props=True):
    d = [('normal_vec', b.vec(name + '.n', n, 0.5, 2.0)), ('shift', b.num(name + '.s', 0.5, 1.0))]
    if props:
        d += [(k, v) for k, v in tols(b, name).items()]
    return b.E.new_dict(d)


@case('Ellipsoid.rep_mat', sh=[(2, 2), (3, 1), (2, 1, 2)])
def _(b, sh):
    e = ell(b, 'E', 2)
    s = b.lst(sh)
    return Case(lambda: b.meth(e, 'rep_mat', s), dict(shape_vec=s), dict(e=e))


@case('Ellipsoid.from_rep_mat', sh=[(2, 2), (3, 1)])
def _(b, sh):
    q, c, s = b.symm('Q', 2), b.vec('c', 2), b.lst(sh)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'from_rep_mat', c, q, s, **tols(b, 'E')),
                dict(shape_vec=s, shape_mat=q, center_vec=c))


@case('Ellipsoid.is_equal', fa=['list', 'row'], fb=['one', 'list', 'row'], rel=['near', 'far', 'mixed'])
def _(b, fa, fb, rel):
    if fa != fb and fb != 'one':
        return None
    rels = ['near', 'far'] if rel == 'mixed' else [rel, rel]
    ps = [ell_pair(b, r, 2, i) for i, r in enumerate(rels)]
    a = pack(b, [p[0] for p in ps], fa)
    f = b.lst([ps[0][1]]) if fb == 'one' else pack(b, [p[1] for p in ps], fb)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'is_equal', a, f), dict(first=a, second=f), od([x for p in ps for x in p]))


for _op in ('is_equal', 'eq', 'ne', 'is_equal(prop)'):
    @case('Ellipsoid.%s(pair)' % _op, rel=['near', 'far'], n=[1, 2, 3])
    def _(b, rel, n, op=_op):
        e, f = ell_pair(b, rel, n)
        cl = b.get(ELL_)
        a, c = b.lst([e]), b.lst([f])
        more = [boolv(True)] if '(prop)' in op else []
        return Case(lambda: b.meth(cl, op.split('(')[0], a, c, *more), dict(first=a, second=c), dict(e=e, f=f))


@case('Ellipsoid.__ne__', n=[2], rel=['near', 'far'])
def _(b, n, rel):
    e, f = ell_pair(b, rel, n)
    return Case(lambda: b.meth(e, '__ne__', f), objs=dict(e=e, f=f))


def basis(b, n, m):
    """n x m matrix with orthogonal columns of any length"""
    els = [[0.0] * m for _ in range(n)]
    for j in range(m):
        els[j][j] = b.num('B[%d]' % j, 0.5, 2.0, np=True)
    return b.arr(els, 'f')


@case('Ellipsoid.get_projection', n=[2, 3], m=[1, 2], form=['list', 'row'])
def _(b, n, m, form):
    a, o = ells(b, form, n)
    B_ = basis(b, n, m)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'get_projection', a, B_), dict(ell_arr=a, basis_mat=B_), od(o))


@case('Ellipsoid.projection', n=[3], m=[2])
def _(b, n, m):
    a, o = ells(b, 'list', n)
    B_ = basis(b, n, m)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'projection', a, B_), dict(basis_mat=B_), {}, fresh=False)


@case('Ellipsoid.minksum_ea', form=['list', 'row', 'col'], k=[1, 2, 3], nd=[1, 2], kind=['pd', 'diag', 'deg', 'wide'])
def _(b, form, k, nd, kind):
    if kind == 'wide' and k > 1 or kind != 'diag' and k == 3 or kind == 'deg' and nd == 2:
        return None
    a, o = ells(b, form, 2, kind, k)
    d = b.mat('L', 2, nd, 0.5, 1.0)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'minksum_ea', a, d), dict(ell_arr=a, dir_mat=d), od(o))


@case('Ellipsoid.minksum_ea(vec)', n=[2, 3])
def _(b, n):
    a, o = ells(b, 'list', n)
    d = b.vec('L', n, 0.5, 1.0)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'minksum_ea', a, d), dict(ell_arr=a, dir_mat=d), od(o))


@case('Ellipsoid.minksum_ia', form=['list', 'row', 'col'], k=[1, 2, 3], nd=[1, 2], kind=['pd', 'diag', 'deg', 'wide'])
def _(b, form, k, nd, kind):
    if kind == 'wide' and k > 1 or kind != 'diag' and k == 3 or kind == 'deg' and nd == 2:
        return None
    a, o = ells(b, form, 2, kind, k)
    d = b.mat('L', 2, nd, 0.5, 1.0)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'minksum_ia', a, d), dict(ell_arr=a, dir_mat=d), od(o))


@case('Ellipsoid.minksum_ia(vec)', n=[2])
def _(b, n):
    a, o = ells(b, 'list', n)
    d = b.vec('L', n, 0.5, 1.0)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'minksum_ia', a, d), dict(ell_arr=a, dir_mat=d), od(o))


@case('Ellipsoid.polar', form=['arr', 'row', 'list'], n=[2], k=[1, 2])
def _(b, form, n, k):
    o = [ell(b, 'E%d' % i, n, lo=-0.2, hi=0.2) for i in range(k)]
    a = pack(b, o, form)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'polar', a), dict(ell_arr=a), od(o))


@case('Ellipsoid.rho(one ell)', form=['one', 'list', 'row'], nd=[1, 3], kind=['pd', 'wide'])
def _(b, form, nd, kind):
    o = [ell(b, 'E0', 2, kind)]
    a = pack(b, o, form)
    d = b.mat('L', 2, nd, -1.0, 1.0)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'rho', a, d), dict(ell_arr=a, dirs_arr=d), od(o))


@case('Ellipsoid.rho(one dir)', form=['list', 'row', 'col'], kind=['pd', 'wide'])
def _(b, form, kind):
    a, o = ells(b, form, 2, kind)
    d = b.mat('L', 2, 1, -1.0, 1.0)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'rho', a, d), dict(ell_arr=a, dirs_arr=d), od(o))


@case('Ellipsoid.rho(many)', form=['list', 'arr', 'row', 'col'], kind=['pd', 'wide'])
def _(b, form, kind):
    a, o = ells(b, form, 2, kind)
    d = b.mat('L', 2, 2, -1.0, 1.0)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'rho', a, d), dict(ell_arr=a, dirs_arr=d), od(o))


@case('Ellipsoid.rho(array dirs)', one=[True, False])
def _(b, one):
    o = [ell(b, 'E%d' % i, 2) for i in range(1 if one else 4)]
    a = b.oarr(o, (1, 1) if one else (2, 2))
    d = b.E.new_arr([b.num('L[%d]' % i, 0.5, 1.0, np=True) for i in range(8)], (2, 2, 2), 'f')
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'rho', a, d), dict(ell_arr=a, dirs_arr=d), od(o))


@case('Ellipsoid.rho(one ell, array dirs)', sh=[(2, 2), (3, 1), (2, 1, 2), (1, 1, 3)], form=['one', 'list'])
def _(b, sh, form):
    o = [ell(b, 'E0', 2)]
    a = pack(b, o, form)
    n = 2
    for k in sh:
        n *= k
    d = b.E.new_arr([b.num('L[%d]' % i, 0.5, 1.0, np=True) for i in range(n)], (2,) + sh, 'f')
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'rho', a, d), dict(ell_arr=a, dirs_arr=d), od(o))


@case('Ellipsoid.rho(many, array dirs)', sh=[(2, 1, 2), (1, 2, 1)])
def _(b, sh):
    n = 1
    for k in sh:
        n *= k
    o = [ell(b, 'E%d' % i, 2) for i in range(n)]
    a = b.oarr(o, sh)
    d = b.E.new_arr([b.num('L[%d]' % i, 0.5, 1.0, np=True) for i in range(2 * n)], (2,) + sh, 'f')
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'rho', a, d), dict(ell_arr=a, dirs_arr=d), od(o))


@case('Ellipsoid.is_internal', form=['arr'], mode=['u', 'i'], kind=['pd', 'wide'], np_=[1, 2])
def _(b, form, mode, kind, np_):
    a, o = ells(b, form, 2, kind)
    d = b.mat('X', 2, np_, -1.0, 1.0)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'is_internal', a, d, mode), dict(ell_arr=a, mat_of_vec_mat=d), od(o))


@case('Ellipsoid.is_internal(list)', mode=['u'])
def _(b, mode):
    a, o = ells(b, 'list', 2)
    d = b.mat('X', 2, 1, -1.0, 1.0)
    cl = b.get(ELL_)
    return Case(lambda: b.meth(cl, 'is_internal', a, d, mode), dict(ell_arr=a, mat_of_vec_mat=d), od(o))


@case('Ellipsoid.is_bigger', kind=['pd', 'wide', 'deg'])
def _(b, kind):
    e, f = ell(b, 'E', 2, kind), ell(b, 'F', 2, kind)
    return Case(lambda: b.meth(e, 'is_bigger', f), objs=dict(e=e, f=f))


@case('Ellipsoid.get_boundary', n=[2, 3], grid=[False, True])
def _(b, n, grid):
    e = ell(b, 'E', n, npts=4)
    return Case(lambda: b.meth(e, 'get_boundary', return_grid=boolv(grid)), objs=dict(e=e))


@case('Ellipsoid.get_boundary(n_points)', n=[2, 3])
def _(b, n):
    e = ell(b, 'E', n, npts=4)
    return Case(lambda: b.meth(e, 'get_boundary', num(5), boolv(True)), objs=dict(e=e))


@case('Ellipsoid.get_boundary_by_factor', n=[2, 3], fac=['none', 'int', 'float', 'vec'])
def _(b, n, fac):
    e = ell(b, 'E', n, npts=4)
    v = {'none': None, 'int': num(2), 'float': num(1.5), 'vec': b.arr([1.5, 2.0])}[fac]
    args = dict(factor_vec=v) if fac == 'vec' else {}
    return Case(lambda: b.meth(e, 'get_boundary_by_factor', v, boolv(True)), args, objs=dict(e=e))


@case('Ellipsoid.get_rho_boundary', n=[2, 3])
def _(b, n):
    e = ell(b, 'E', n, npts=4)
    return Case(lambda: b.meth(e, 'get_rho_boundary'), objs=dict(e=e))


@case('Ellipsoid.get_rho_boundary_by_factor', n=[2, 3], fac=['none', 'int', 'float', 'vec'])
def _(b, n, fac):
    e = ell(b, 'E', n, npts=4)
    v = {'none': None, 'int': num(2), 'float': num(1.5), 'vec': b.arr([1.5, 2.0])}[fac]
    args = dict(factor_vec=v) if fac == 'vec' else {}
    return Case(lambda: b.meth(e, 'get_rho_boundary_by_factor', v), args, objs=dict(e=e))


# -------------------------------------------------------------- Hyperplane
@case('Hyperplane(n,s)', n=[1, 2, 3])
def _(b, n):
    v = b.vec('n', n)
    return Case(lambda: b.call(HYP_, v, b.num('s', -1, 1), **tols(b, 'H')), dict(normal_vec=v))


@case('Hyperplane(n-column,s-array)', n=[2])
def _(b, n):
    v, s = b.vec('n', n, shape=(n, 1)), b.vec('s', 1)
    return Case(lambda: b.call(HYP_, v, s), dict(normal_vec=v, shift=s))


@case('Hyperplane()')
def _(b):
    return Case(lambda: b.call(HYP_))


for _op in ('double', 'parameters', '__str__', '__neg__'):
    @case('Hyperplane.%s' % _op, n=[2])
    def _(b, n, op=_op):
        e = hyp(b, 'H', n)
        return Case(lambda: b.meth(e, op), objs=dict(e=e))


@case('Hyperplane.__eq__', n=[1, 2], rel=['near', 'far'])
def _(b, n, rel):
    e, f = hyp_pair(b, rel, n)
    return Case(lambda: b.meth(e, '__eq__', f), objs=dict(e=e, f=f))


@case('Hyperplane.__ne__', n=[1, 2], rel=['near', 'far'])
def _(b, n, rel):
    e, f = hyp_pair(b, rel, n)
    return Case(lambda: b.meth(e, '__ne__', f), objs=dict(e=e, f=f))


@case('Hyperplane.ne', n=[1, 2], rel=['near', 'far'])
def _(b, n, rel):
    e, f = hyp_pair(b, rel, n)
    a, c = b.lst([e]), b.lst([f])
    cl = b.get(HYP_)
    return Case(lambda: b.meth(cl, 'ne', a, c), dict(first=a, second=c), objs=dict(e=e, f=f))


for _op in ('dimension', 'is_empty', 'uminus', 'get_copy', 'to_dict', 'get_abs_tol', 'get_rel_tol'):
    @case('Hyperplane.%s' % _op, form=F3)
    def _(b, form, op=_op):
        a, o = hyps(b, form)
        cl = b.get(HYP_)
        return Case(lambda: b.meth(cl, op, a), dict(hyp_arr=a), od(o))


@case('Hyperplane.from_dict', form=['list', 'row'])
def _(b, form):
    ds = [hyp_dict(b, 'D%d' % i) for i in range(2)]
    a = pack(b, ds, form)
    cl = b.get(HYP_)
    return Case(lambda: b.meth(cl, 'from_dict', a), dict(dict_arr=a))


@case('Hyperplane.rep_mat', sh=[(2, 2), (3, 1)])
def _(b, sh):
    e, s = hyp(b, 'H', 2), b.lst(sh)
    return Case(lambda: b.meth(e, 'rep_mat', s), dict(shape_vec=s), dict(e=e))


@case('Hyperplane.from_rep_mat', sh=[(2, 2)])
def _(b, sh):
    v, s = b.vec('n', 2), b.lst(sh)
    cl = b.get(HYP_)
    return Case(lambda: b.meth(cl, 'from_rep_mat', v, b.num('s', -1, 1), s, **tols(b, 'H')),
                dict(shape_vec=s, normal_vec=v))


@case('Hyperplane.is_equal', prop=[False, True], rel=['near', 'far'])
def _(b, prop, rel):
    e, f = hyp_pair(b, rel, 2)
    cl = b.get(HYP_)
    a, c = b.lst([e]), b.lst([f])
    return Case(lambda: b.meth(cl, 'is_equal', a, c, boolv(prop)), dict(first=a, second=c), dict(e=e, f=f))


@case('Hyperplane.contains(one vec)', form=['list', 'row', 'col'])
def _(b, form):
    a, o = hyps(b, form)
    x = b.vec('X', 2, shape=(2, 1))
    cl = b.get(HYP_)
    return Case(lambda: b.meth(cl, 'contains', a, x), dict(hyp_arr=a, x_arr=x), od(o))


@case('Hyperplane.contains(one hyp)', k=[1, 3])
def _(b, k):
    h = hyp(b, 'H', 2)
    a = b.lst([h])
    x = b.mat('X', 2, k)
    cl = b.get(HYP_)
    return Case(lambda: b.meth(cl, 'contains', a, x), dict(hyp_arr=a, x_arr=x), dict(h=h))


@case('Hyperplane.is_parallel', fa=['list', 'row', 'one'], fb=['list', 'row', 'one'])
def _(b, fa, fb):
    if fa != fb and 'one' not in (fa, fb):
        return None
    a, o = hyps(b, fa)
    c, p = hyps(b, fb, pre='G')
    cl = b.get(HYP_)
    return Case(lambda: b.meth(cl, 'is_parallel', a, c), dict(first=a, second=c),
                dict(od(o), **{'g%d' % i: x for i, x in enumerate(p)}))


# -------------------------------------------------------------------- core
@case('ell_unitball', n=[1, 3])
def _(b, n):
    return Case(lambda: b.call(CORE + 'ell_unitball', num(n)))


@case('ell_sim_diag', n=[2], kind=['pd', 'wide'])
def _(b, n, kind):
    a, c = b.symm('A', n), qmat(b, 'B', n, kind)
    return Case(lambda: b.call(CORE + 'ell_sim_diag', a, c, b.num('tol', 1e-8, 1e-6)), dict(a_mat=a, b_mat=c))


@case('ell_fusion_lambda', n=[2])
def _(b, n):
    a, c, p, q = b.symm('A', n), b.symm('B', n), b.vec('p', n), b.vec('q', n)
    return Case(lambda: b.call(CORE + 'ell_fusion_lambda', b.num('a', 0.1, 0.9), p, a, q, c, num(n)),
                dict(q1=p, q1_mat=a, q2=q, q2_mat=c))


@case('ell_valign', n=[1, 2, 3], col=[False, True])
def _(b, n, col):
    v, x = [b.vec(k, n, 0.5, 1.0, shape=(n, 1) if col else None) for k in 'vx']
    return Case(lambda: b.call(CORE + 'ell_valign', v, x), dict(v=v, x=x))


# ------------------------------------------------------------------ gras.la
TOL = (1e-8, 1e-6)


@case('is_mat_not_deg', n=[2], kind=['pd', 'wide', 'any'])
def _(b, n, kind):
    q = qmat(b, 'Q', n, kind)
    return Case(lambda: b.call(LA + 'is_mat_not_deg', q, b.num('tol', *TOL)), dict(q_mat=q))


@case('is_mat_pos_def', n=[2, 3], kind=['pd', 'wide', 'anysym'], sem=[False, True])
def _(b, n, kind, sem):
    q = qmat(b, 'Q', n, kind)
    return Case(lambda: b.call(LA + 'is_mat_pos_def', q, b.num('tol', *TOL), boolv(sem)), dict(q_mat=q))


@case('is_mat_symm', n=[2, 3], kind=['pd', 'any'])
def _(b, n, kind):
    q = qmat(b, 'Q', n, kind)
    return Case(lambda: b.call(LA + 'is_mat_symm', q, b.num('tol', *TOL)), dict(q_mat=q))


for _op in ('mat_orth', 'math_orth_col'):
    @case(_op, sh=[(2, 2), (3, 2)])
    def _(b, sh, op=_op):
        q = b.mat('M', *sh)
        return Case(lambda: b.call(LA + op, q), dict(src_mat=q))


@case('ml_orth_transl', n=[2, 3], k=[1, 2])
def _(b, n, k):
    s, d = b.mat('S', n, k, 0.5, 1.0), b.mat('D', n, k, 0.5, 1.0)
    return Case(lambda: b.call(LA + 'ml_orth_transl', s, d), dict(src_mat=s, dst_arr=d))


@case('ml_orth_transl(1-D)', n=[2])
def _(b, n):
    s, d = b.vec('S', n, 0.5, 1.0), b.vec('D', n, 0.5, 1.0)
    return Case(lambda: b.call(LA + 'ml_orth_transl', s, d), dict(src_mat=s, dst_arr=d))


for _op in ('orth_transl', 'orth_transl_haus', 'orth_transl_qr'):
    @case(_op, n=[2, 3], col=[False, True])
    def _(b, n, col, op=_op):
        s, d = [b.vec(k, n, 0.5, 1.0, shape=(n, 1) if col else None) for k in ('S', 'D')]
        return Case(lambda: b.call(LA + op, s, d), dict(src_vec=s, dst_vec=d))


@case('orth_transl_max_dir', n=[2, 3])
def _(b, n):
    s, d, p, q = [b.vec(k, n, 0.5, 1.0) for k in ('S', 'D', 'SM', 'DM')]
    return Case(lambda: b.call(LA + 'orth_transl_max_dir', s, d, p, q),
                dict(src_vec=s, dst_vec=d, src_max_vec=p, dst_max_vec=q))


@case('orth_transl_max_tr', n=[2, 3])
def _(b, n):
    s, d, m = b.vec('S', n, 0.5, 1.0), b.vec('D', n, 0.5, 1.0), b.mat('M', n, n)
    return Case(lambda: b.call(LA + 'orth_transl_max_tr', s, d, m), dict(src_vec=s, dst_vec=d, max_mat=m))


@case('reg_pos_def_mat', n=[2, 3], kind=['pd', 'wide', 'deg'])
def _(b, n, kind):
    q = qmat(b, 'Q', n, kind)
    return Case(lambda: b.call(LA + 'reg_pos_def_mat', q, b.num('tol', 0.5, 1.0)), dict(inp_mat=q))


@case('sqrtm_pos', n=[1, 2, 3], kind=['pd', 'wide', 'anysym'])
def _(b, n, kind):
    q = qmat(b, 'Q', n, kind)
    return Case(lambda: b.call(LA + 'sqrtm_pos', q, b.num('tol', *TOL)), dict(q_mat=q))


@case('try_treat_as_real', kind=['real', 'complex'])
def _(b, kind):
    if kind == 'real':
        q = b.mat('Q', 2, 2)
    else:
        q = b.E.new_arr([cplx(b.num('r%d' % i, -1, 1), b.num('i%d' % i, -1e-9, 1e-9), True) for i in range(4)], (2, 2), 'c')
    return Case(lambda: b.call(LA + 'try_treat_as_real', q, b.num('tol', *TOL)), dict(inp_mat=q), fresh=False)


@case('reg_mat', n=[2], kind=['pd', 'any'])
def _(b, n, kind):
    q = qmat(b, 'Q', n, kind)
    return Case(lambda: b.call(LA + 'reg_mat', q, b.num('tol', 0.5, 1.0)), dict(inp_mat=q))


# ----------------------------------------------------------------- gras.gen
def arr3(b, name, n, m, k, lo=-1.0, hi=1.0):
    return b.E.new_arr([b.num('%s[%d,%d,%d]' % (name, i, j, t), lo, hi, np=True)
                        for i in range(n) for j in range(m) for t in range(k)], (n, m, k), 'f')


def symm3(b, name, n, k):
    """stack of positive definite symmetric slices along the last axis"""
    els = {}
    for t in range(k):
        for i in range(n):
            for j in range(i + 1):
                els[i, j, t] = b.num('%s[%d,%d,%d]' % (name, i, j, t), *((2.0, 3.0) if i == j else (-0.4, 0.4)), np=True)
    return b.E.new_arr([els[max(i, j), min(i, j), t] for i in range(n) for j in range(n) for t in range(k)],
                       (n, n, k), 'f')


@case('mat_dot', sh=[(2, 2), (2, 2, 2)])
def _(b, sh):
    if len(sh) == 2:
        x, y = b.mat('X', *sh), b.mat('Y', *sh)
    else:
        x, y = arr3(b, 'X', *sh), arr3(b, 'Y', *sh)
    return Case(lambda: b.call(GEN + 'mat_dot', x, y), dict(inp_arr1=x, inp_arr2=y))


@case('sort_rows_tol', sh=[(1, 2), (2, 2), (3, 2)])
def _(b, sh):
    x = b.arr([[b.num('X[%d,%d]' % (i, j), 5.0 - i, 5.5 - i, np=True) for j in range(sh[1])] for i in range(sh[0])])
    return Case(lambda: b.call(GEN + 'sort_rows_tol', x, b.num('tol', *TOL)), dict(inp_mat=x))


@case('sqrt_pos', kind=['vec', 'mat', 'scalar'])
def _(b, kind):
    x = {'vec': lambda: b.vec('x', 3, 0.0, 2.0), 'mat': lambda: b.mat('x', 2, 2, 0.0, 2.0),
         'scalar': lambda: b.num('x', 0.0, 2.0)}[kind]()
    return Case(lambda: b.call(GEN + 'sqrt_pos', x, b.num('tol', *TOL)), dict(inp_arr=x) if kind != 'scalar' else {})


@case('sqrt_pos(near zero)')
def _(b):
    x = b.vec('x', 2, -1e-9, 2.0)
    return Case(lambda: b.call(GEN + 'sqrt_pos', x, b.num('tol', *TOL)), dict(inp_arr=x))


MV = GEN + 'MatVector'
SMV = GEN + 'SquareMatVector'
YMV = GEN + 'SymmetricMatVector'

for _op in ('triu', 'make_symmetric', 'transpose', 'pinv'):
    @case('MatVector.%s' % _op, d=[2, 3])
    def _(b, d, op=_op):
        x = b.mat('X', 2, 2) if d == 2 else arr3(b, 'X', 2, 2, 2)
        return Case(lambda: b.meth(b.get(MV), op, x), dict(data_arr=x))


@case('MatVector.transpose(rect)')
def _(b):
    x = arr3(b, 'X', 2, 3, 2)
    return Case(lambda: b.meth(b.get(MV), 'transpose', x), dict(data_arr=x))


@case('MatVector.r_multiply_by_vec', sparse=[False, True], sh=[(2, 2, 2), (3, 2, 2), (2, 3, 1)])
def _(b, sparse, sh):
    x, y = arr3(b, 'A', *sh), b.mat('B', sh[1], sh[2])
    return Case(lambda: b.meth(b.get(MV), 'r_multiply_by_vec', x, y, boolv(sparse)), dict(a_arr=x, b_mat=y))


@case('MatVector.r_multiply', sparse=[False, True], sh=[(2, 2, 2, 2), (2, 3, 2, 2), (3, 2, 1, 2)])
def _(b, sparse, sh):
    n, m, k, t = sh
    x, y = arr3(b, 'A', n, m, t), arr3(b, 'B', m, k, t)
    return Case(lambda: b.meth(b.get(MV), 'r_multiply', x, y, use_sparse_matrix=boolv(sparse)), dict(a_arr=x, b_arr=y))


@case('MatVector.r_multiply(2-D b)', sparse=[False, True])
def _(b, sparse):
    x, y = arr3(b, 'A', 2, 2, 2), b.mat('B', 2, 3)
    return Case(lambda: b.meth(b.get(MV), 'r_multiply', x, y, use_sparse_matrix=boolv(sparse)), dict(a_arr=x, b_arr=y))


@case('MatVector.r_multiply(one slice)', sparse=[False, True])
def _(b, sparse):
    x, y = arr3(b, 'A', 2, 2, 2), arr3(b, 'B', 2, 3, 1)
    return Case(lambda: b.meth(b.get(MV), 'r_multiply', x, y, use_sparse_matrix=boolv(sparse)), dict(a_arr=x, b_arr=y))


@case('MatVector.from_expression', src=['t', '2', '[[t, 1], [2, t * t]]'], k=[1, 3])
def _(b, src, k):
    t = b.vec('t', k)
    return Case(lambda: b.meth(b.get(MV), 'from_expression', src, t), dict(t_vec=t))


@case('MatVector.from_formula_mat', k=[1, 3])
def _(b, k):
    t, x = b.vec('t', k), b.E.new_arr(['t', '1', '2', '-t'], (2, 2), 'O')
    return Case(lambda: b.meth(b.get(MV), 'from_formula_mat', x, t), dict(x=x, t_vec=t))


@case('MatVector.r_multiply(c)', sparse=[False, True])
def _(b, sparse):
    x, y, z = arr3(b, 'A', 2, 3, 2), arr3(b, 'B', 3, 2, 2), arr3(b, 'C', 2, 2, 2)
    return Case(lambda: b.meth(b.get(MV), 'r_multiply', x, y, z, boolv(sparse)), dict(a_arr=x, b_arr=y, c_arr=z))


for _op in ('inv', 'sqrtm_pos', 'make_pos_definite_or_nan', 'make_pos_definite_by_eig'):
    @case('SquareMatVector.%s' % _op, d=[2, 3])
    def _(b, d, op=_op):
        x = b.symm('X', 2) if d == 2 else symm3(b, 'X', 2, 2)
        return Case(lambda: b.meth(b.get(SMV), op, x), dict(data_arr=x))

    @case('SquareMatVector.%s(indefinite)' % _op, d=[2, 3])
    def _(b, d, op=_op):
        if op == 'inv':
            return None
        if d == 2:
            x = b.diag('X', [(-2.0, 2.0), (1.0, 2.0)])
        else:
            els = []
            for i in range(2):
                for j in range(2):
                    for t in range(2):
                        els.append(b.num('X[%d,%d]' % (i, t), -2.0, 2.0, np=True) if i == j else num(0.0, True))
            x = b.E.new_arr(els, (2, 2, 2), 'f')
        return Case(lambda: b.meth(b.get(SMV), op, x), dict(data_arr=x))


@case('SquareMatVector.lr_multiply', db=[2, 3], da=[2, 3], flag=['R', 'L'])
def _(b, db, da, flag):
    if db == 2 and da == 3:
        x, y = b.symm('B', 2), arr3(b, 'A', 2, 2, 1)
    else:
        x = b.symm('B', 2) if db == 2 else symm3(b, 'B', 2, 2)
        n, m = (2, 3) if flag == 'R' else (3, 2)
        y = b.mat('A', n, m) if da == 2 else arr3(b, 'A', n, m, 2)
    return Case(lambda: b.meth(b.get(SMV), 'lr_multiply', x, y, flag), dict(inp_b_arr=x, inp_a_arr=y))


for _op in ('lr_multiply_by_vec', 'lr_divide_vec'):
    @case('SquareMatVector.%s' % _op, db=[2, 3], da=[1, 2])
    def _(b, db, da, op=_op):
        x = b.symm('B', 2) if db == 2 else symm3(b, 'B', 2, 2 if da == 2 else 1)
        y = b.mat('A', 2, 2) if da == 2 else b.vec('A', 2)
        return Case(lambda: b.meth(b.get(SMV), op, x, y), dict(inp_b_arr=x, inp_a_arr=y))


@case('SquareMatVector.lr_divide_vec(one vector, stack)')
def _(b):
    x, y = symm3(b, 'B', 2, 3), b.mat('A', 2, 1)
    return Case(lambda: b.meth(b.get(SMV), 'lr_divide_vec', x, y), dict(inp_b_arr=x, inp_a_arr=y))


@case('SymmetricMatVector.lr_svd_multiply(2-D)', flag=['R', 'L'])
def _(b, flag):
    x, y = b.symm('B', 2), b.mat('A', 2, 2)
    return Case(lambda: b.meth(b.get(YMV), 'lr_svd_multiply', x, y, flag), dict(inp_b_arr=x, inp_a_arr=y))


@case('SymmetricMatVector.lr_svd_multiply', flag=['R', 'L'])
def _(b, flag):
    x, y = symm3(b, 'B', 2, 2), arr3(b, 'A', 2, 2, 2)
    return Case(lambda: b.meth(b.get(YMV), 'lr_svd_multiply', x, y, flag), dict(inp_b_arr=x, inp_a_arr=y))


for _op in ('r_svd_multiply_by_vec', 'lr_svd_multiply_by_vec', 'lr_svd_divide_vec'):
    @case('SymmetricMatVector.%s' % _op, k=[1, 2])
    def _(b, k, op=_op):
        x, y = symm3(b, 'B', 2, k), b.mat('A', 2, k)
        return Case(lambda: b.meth(b.get(YMV), op, x, y), dict(inp_b_arr=x, inp_a_arr=y))


def _user_fn(b, name, sh):
    """a caller-supplied callback returning a fresh array"""
    lam = b.lab.E
    return lam


# ---------------------------------------------------------------- gras.geom
@case('ell_volume', n=[1, 2, 3], kind=['pd', 'wide'])
def _(b, n, kind):
    q = qmat(b, 'Q', n, kind)
    return Case(lambda: b.call(EG + 'ell_volume', q), dict(q_mat=q))


@case('inv_mat', n=[2, 3])
def _(b, n):
    q = b.symm('Q', n)
    return Case(lambda: b.call(EG + 'inv_mat', q), dict(q_mat=q))


@case('quad_mat', mode=['plain', 'inv', 'invadv'], x=['1d', 'row', 'col'], c=['none', '1d', 'row', 'col'])
def _(b, mode, x, c):
    q = b.symm('Q', 2)
    sh = {'1d': None, 'row': (1, 2), 'col': (2, 1)}
    xv = b.vec('x', 2, shape=sh[x])
    args = dict(q_mat=q, x_vec=xv)
    if c == 'none':
        return Case(lambda: b.call(EG + 'quad_mat', q, xv, num(0.0), mode), args)
    cv = b.vec('c', 2, shape=sh[c])
    args['c_vec'] = cv
    return Case(lambda: b.call(EG + 'quad_mat', q, xv, cv, mode), args)


@case('rho_mat', n=[2, 3], nd=[1, 3], c=[False, True], kind=['pd', 'wide'])
def _(b, n, nd, c, kind):
    q, d = qmat(b, 'Q', n, kind), b.mat('L', n, nd)
    args = dict(ell_shape_mat=q, dirs_mat=d)
    kw = {}
    if c:
        cv = b.vec('c', n, shape=(n, 1))
        args['ell_center_vec'] = cv
        kw['ell_center_vec'] = cv
    return Case(lambda: b.call(EG + 'rho_mat', q, d, b.num('tol', *TOL), **kw), args)


@case('sup_2_boundary_2', n=[3, 4])
def _(b, n):
    d, s = b.mat('L', n, 2), b.vec('s', n, 0.5, 1.0)
    return Case(lambda: b.call(SUP + 'sup_2_boundary_2', d, s), dict(dir_mat=d, sup_vec=s))


@case('sup_2_boundary_3')
def _(b):
    d, s, f = b.mat('L', 4, 3), b.vec('s', 4, 0.5, 1.0), b.arr([[0, 1, 2], [1, 2, 3]])
    return Case(lambda: b.call(SUP + 'sup_2_boundary_3', d, s, f), dict(dir_mat=d, sup_vec=s, face_mat=f))


for _op, _n in (('sup_geom_diff_2d', 2), ('sup_geom_diff_3d', 3)):
    @case(_op)
    def _(b, op=_op, n=_n):
        r, s, l = b.vec('r', 4, 2.0, 3.0), b.vec('s', 4, 0.5, 1.0), b.mat('L', n, 4)
        return Case(lambda: b.call(SUP + op, r, s, l), dict(rho1_vec=r, rho2_vec=s, l_mat=l))


@case('circle_part', apart=[False, True], rng=[False, True])
def _(b, apart, rng):
    kw = {}
    args = {}
    if rng:
        v = b.arr([b.num('a', 0.0, 0.5), b.num('b', 1.0, 2.0)])
        kw['angle_range_vec'] = v
        args['angle_range_vec'] = v
    return Case(lambda: b.call(GEOM + 'circle_part', num(4), boolv(apart), **kw), args)


@case('sphere_part', n=[3, 8])
def _(b, n):
    return Case(lambda: b.call(GEOM + 'sphere_part', num(n)))


@case('icosahedron')
def _(b):
    return Case(lambda: b.call(TRI + 'icosahedron'))


@case('ell_tube_2_tri')
def _(b):
    return Case(lambda: b.call(TRI + 'ell_tube_2_tri', num(3), num(4)))


@case('ell_tube_discr_tri')
def _(b):
    return Case(lambda: b.call(TRI + 'ell_tube_discr_tri', num(3), num(4)))


FACES = [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]]

for _op in ('get_face_edge_info', 'map_face_2_edge'):
    @case(_op, one=[False, True])
    def _(b, one, op=_op):
        f = b.arr(FACES[0] if one else FACES)
        return Case(lambda: b.call(TRI + op, f), dict(f_mat=f), fresh=False)


def tetra(b):
    base = [[0., 0, 0], [3, 0, 0], [0, 2, 0], [0, 0, 1]]
    return b.arr([[b.num('V[%d,%d]' % (i, j), base[i][j], base[i][j] + 0.1, np=True) for j in range(3)]
                  for i in range(4)], 'f')


@case('shrink_face_tri', steps=[0, 1, 2], stat=[False, True])
def _(b, steps, stat):
    v, f = tetra(b), b.arr(FACES)
    return Case(lambda: b.call(TRI + 'shrink_face_tri', v, f, num(0.0), num(steps), None, boolv(stat)),
                dict(v_mat=v, f_mat=f), fresh=False)


@case('shrink_face_tri(limit)')
def _(b):
    v, f = b.arr([[0., 0, 0], [3, 0, 0], [0, 1, 0], [0, 0, 1]]), b.arr(FACES)
    return Case(lambda: b.call(TRI + 'shrink_face_tri', v, f, num(2.0), num(1)), dict(v_mat=v, f_mat=f), fresh=False)


@case('sphere_tri', depth=[0, 1])
def _(b, depth):
    return Case(lambda: b.call(TRI + 'sphere_tri', num(depth)))


@case('is_face')
def _(b):
    f, g = b.arr(FACES), b.arr([[0, 1, 2], [1, 2, 3]])
    return Case(lambda: b.call(TRI + 'is_face', f, g), dict(f_mat=f, f_to_check_mat=g))


@case('is_tri_equal')
def _(b):
    v, f = b.arr([[0., 0, 0], [3, 0, 0], [0, 1, 0], [0, 0, 1]]), b.arr(FACES)
    w, g = b.arr([[0., 0, 0], [3, 0, 0], [0, 1, 0], [0, 0, 1]]), b.arr(FACES)
    return Case(lambda: b.call(TRI + 'is_tri_equal', v, f, w, g, num(1e-8)), dict(v1_mat=v, f1_mat=f, v2_mat=w, f2_mat=g))


@case('sphere_tri_ext', n=[2, 3], grid=[False, True])
def _(b, n, grid):
    return Case(lambda: b.call(TRI + 'sphere_tri_ext', num(n), num(5), boolv(grid)))


# ---------------------------------------------------------- gen.common / dict
@case('is_member')
def _(b):
    a, c = b.lst(['a', 'b']), b.lst(['b', 'a', 'c'])
    return Case(lambda: b.call(COMMON + 'is_member', a, c), dict(a_vec=a, b_vec=c))


@case('is_numeric', kind=['arr', 'list'])
def _(b, kind):
    a = b.vec('x', 2) if kind == 'arr' else b.lst([b.num('x', 0, 1), 2])
    return Case(lambda: b.call(COMMON + 'is_numeric', a), dict(array=a))


@case('abs_rel_compare', rel=[False, True], inf=[False, True])
def _(b, rel, inf):
    x = [b.num('x%d' % i, 1 + i, 1.5 + i) for i in range(2)]
    y = [b.num('y%d' % i, 4 - i, 5 - i) for i in range(2)]
    if inf:
        x.append(INF)
        y.append(INF)
    xa, ya = b.arr(x), b.arr(y)
    return Case(lambda: b.call(COMMON + 'abs_rel_compare', xa, ya, b.num('tol', *TOL),
                               b.num('rtol', 1e-6, 1e-5) if rel else None, Ext('numpy.abs')),
                dict(left_arr=xa, right_arr=ya))


@case('dict_compare', kind=['num', 'list', 'dict', 'str'])
def _(b, kind):
    def mkd(p):
        o = 4.0 if p == 'y' else 1.0
        d = [('a', b.vec(p + 'a', 2, o, o + 1))]
        if kind == 'list':
            d.append(('l', b.lst([b.num(p + 'l0', o, o + 1), 'text'])))
        if kind == 'dict':
            d.append(('d', b.E.new_dict([('q', b.mat(p + 'q', 2, 2, o, o + 1)), ('s', 'x')])))
        if kind == 'str':
            d.append(('s', 'text'))
        return b.E.new_dict(d)
    x, y = mkd('x'), mkd('y')
    return Case(lambda: b.call(DICT + 'dict_compare', x, y, b.num('tol', *TOL), b.num('rtol', 1e-6, 1e-5)),
                dict(dict_x=x, dict_y=y))


@case('dict_compare(list)')
def _(b):
    x = b.lst([b.E.new_dict([('a', b.vec('xa', 2, 0.0, 1.0))])])
    y = b.lst([b.E.new_dict([('a', b.vec('ya', 2, 3.0, 4.0))])])
    return Case(lambda: b.call(DICT + 'dict_compare', x, y, b.num('tol', *TOL)), dict(dict_x=x, dict_y=y))


@case('var_replace')
def _(b):
    m = b.arr([['t*2', 'cos(t)'], ['1', 'tt+t']])
    return Case(lambda: b.call(SYM + 'var_replace', m, 't', 'x'), dict(m_mat=m))


@case('is_dependent', discr=[False, True])
def _(b, discr):
    m = b.arr([['t*2', 'cos(k)'], ['1', 'tt+t']])
    return Case(lambda: b.call(SYM + 'is_dependent', m, boolv(discr)), dict(m_mat=m))


# ------------------------------------------------------------ configuration
for _op in ('get_version', 'get_is_verbose', 'get_abs_tol', 'get_rel_tol', 'get_reg_tol', 'get_n_time_grid_points',
            'get_ode_solver_name', 'get_is_ode_norm_control', 'get_is_enabled_ode_solver_options', 'get_n_plot_2d_points',
            'get_n_plot_3d_points', 'get_prop_dict'):
    @case('Properties.%s' % _op)
    def _(b, op=_op):
        return Case(lambda: b.meth(b.get(PROPS_), op))


@case('Properties.parse_prop')
def _(b):
    kw = b.E.new_dict([('abs_tol', b.num('tol', *TOL)), ('other', num(1))])
    need = b.lst(['abs_tol', 'rel_tol'])
    return Case(lambda: b.meth(b.get(PROPS_), 'parse_prop', kw, need), dict(args=kw, needed=need), fresh=True)


@case('Properties.parse_prop(all)')
def _(b):
    kw = b.E.new_dict([])
    return Case(lambda: b.meth(b.get(PROPS_), 'parse_prop', kw), dict(args=kw))


@case('Properties.check_settings')
def _(b):
    return Case(lambda: b.meth(b.get(PROPS_), 'check_settings'))
