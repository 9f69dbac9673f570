"""Further library models: array building, indexing helpers, ufunc methods, set routines, operator functions.

Everything here is expressed through the primitive models of npmodel, so that a piece of source rewritten with one of these
functions denotes the same terms as before.
"""
import ast
import itertools
from .values import *
from .pymodel import NoModel


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def cstr(shape):
    st, k = [], 1
    for n in reversed(shape):
        st.append(k)
        k *= n
    return st[::-1]


class NpMore:
    # ------------------------------------------------------------ index helpers
    def dims(self, a):
        if len(a) == 1 and not isinstance(self.use(a[0]), S):
            return self.shape_arg(a[0])
        return tuple(self.const_index(x) for x in a)

    def np_ndindex(self, *a):
        sh = self.dims(a)
        return self.new_iter([Tup([num(k) for k in t]) for t in itertools.product(*[range(n) for n in sh])])

    def np_ndenumerate(self, v):
        a = self.to_arr(v)
        sh = self.arr(a).shape
        ix = itertools.product(*[range(n) for n in sh])
        return self.new_iter([Tup((Tup([num(k) for k in t]), e)) for t, e in zip(ix, self.elems(a))])

    def np_nditer(self, v, flags=None, op_flags=None, **kw):
        if flags is not None or op_flags is not None or kw:
            raise NoModel('nditer flags')
        a = self.to_arr(v)
        k = self.arr(a).dtype
        return self.new_iter([self.new_arr([e], (), k) for e in self.elems(a)])

    def np_fromiter(self, it, dtype=None, count=None, **kw):
        return self.to_arr(self.new_list(list(self.iterate(it))), self.dtype_of_val(dtype) if dtype is not None else None,
                           True)

    def np_indices(self, dims, *a, **kw):
        sh = self.shape_arg(dims)
        out = [num(t[d]) for d in range(len(sh)) for t in itertools.product(*[range(n) for n in sh])]
        return self.new_arr(out, (len(sh),) + sh, 'i')

    def np_ix_(self, *a):
        out = []
        for d, x in enumerate(a):
            r = self.to_arr(x)
            rec = self.arr(r)
            if len(rec.shape) != 1:
                self.py_raise('ValueError', 'Cross index must be 1 dimensional', internal=True)
            if rec.dtype == 'b':
                r = self.np_flatnonzero(r)
            n = self.arr(r).shape[0]
            out.append(self.np_reshape(r, Tup([num(n if k == d else 1) for k in range(len(a))])))
        return Tup(out)

    def np_unravel_index(self, i, shape, order='C'):
        if order != 'C':
            raise NoModel('order')
        sh = self.shape_arg(shape)
        i = self.use(i)

        def one(x):
            k = self.const_index(x)
            if not 0 <= k < prod(sh):
                self.py_raise('ValueError', 'index out of bounds', internal=True)
            return [num(k // s % n) for s, n in zip(cstr(sh), sh)]
        if isinstance(i, S):
            return Tup(one(i))
        a = self.to_arr(i)
        cols = [one(x) for x in self.elems(a)]
        return Tup([self.new_arr([c[d] for c in cols], self.arr(a).shape, 'i') for d in range(len(sh))])

    def np_ravel_multi_index(self, mi, dims, mode='raise', order='C'):
        if order != 'C' or mode != 'raise':
            raise NoModel('order')
        sh = self.shape_arg(dims)
        r = None
        for x, s, n in zip(self.iterate(mi), cstr(sh), sh):
            x = x if isinstance(self.use(x), S) else self.to_arr(x)
            for e in ([x] if isinstance(self.use(x), S) else self.elems(x)):
                if not 0 <= self.const_index(e) < n:
                    self.py_raise('ValueError', 'invalid entry in coordinates array', internal=True)
            t = self.binop('Mult', x, num(s))
            r = t if r is None else self.binop('Add', r, t)
        return r

    def np_diag_indices(self, n, ndim=None):
        k = self.const_index(n)
        d = self.const_index(ndim) if ndim is not None else 2
        return Tup([self.new_arr([num(i) for i in range(k)], (k,), 'i') for _ in range(d)])

    def tri_ind(self, n, k, m, f):
        n = self.const_index(n)
        m = self.const_index(m) if m is not None else n
        k = self.const_index(k) if k is not None else 0
        p = [(i, j) for i in range(n) for j in range(m) if f(i, j, k)]
        return Tup([self.new_arr([num(t[d]) for t in p], (len(p),), 'i') for d in (0, 1)])

    def np_triu_indices(self, n, k=None, m=None):
        return self.tri_ind(n, k, m, lambda i, j, o: j - i >= o)

    def np_tril_indices(self, n, k=None, m=None):
        return self.tri_ind(n, k, m, lambda i, j, o: j - i <= o)

    def np_fill_diagonal(self, a, v, wrap=None):
        rec = self.arr(a)
        if len(rec.shape) != 2:
            raise NoModel('fill_diagonal')
        n = min(rec.shape)
        ix = self.new_arr([num(i) for i in range(n)], (n,), 'i')
        self.arr_setitem(a, Tup((ix, ix)), v)

    def np_copyto(self, dst, src, casting=None, where=None):
        if where is not None:
            self.arr_setitem(dst, ELL, self.np_where(where, src, self.np_copy(dst)))
        else:
            self.arr_setitem(dst, ELL, src)

    def np_put_along_axis(self, *a):
        raise NoModel('put_along_axis')

    def np_take_along_axis(self, v, ind, axis=None):
        a, i = self.to_arr(v), self.to_arr(ind)
        sh, si = self.arr(a).shape, self.arr(i).shape
        if axis is None:
            return self.arr_getitem(self.flatten(a), i)
        ax = self.axis_arg(axis, len(sh))
        if len(sh) != len(si):
            self.py_raise('ValueError', 'indices and arr must have the same number of dimensions', internal=True)
        ix = []
        for d in range(len(sh)):
            if d == ax:
                ix.append(i)
            else:
                ix.append(self.new_arr([num(k) for k in range(si[d])],
                                       tuple(si[d] if e == d else 1 for e in range(len(sh))), 'i'))
        return self.arr_getitem(a, Tup(ix))

    def np_roll(self, v, shift, axis=None):
        a = self.to_arr(v)
        sh = self.arr(a).shape
        s = self.const_index(shift)
        if axis is None:
            f = self.flatten(a)
            n = self.arr(f).shape[0]
            r = self.arr_getitem(f, self.new_arr([num((k - s) % n) for k in range(n)], (n,), 'i')) if n else f
            return self.np_reshape(r, Tup([num(k) for k in sh]))
        ax = self.axis_arg(axis, len(sh))
        n = sh[ax]
        return self.np_take(a, self.new_arr([num((k - s) % n) for k in range(n)], (n,), 'i'), num(ax))

    def np_rot90(self, v, k=None, axes=None):
        if axes is not None:
            raise NoModel('rot90')
        a = self.to_arr(v)
        for _ in range((self.const_index(k) if k is not None else 1) % 4):
            a = self.flip(self.transpose(a, None), (0,))
        return a

    def np_insert(self, v, i, vals, axis=None):
        a = self.to_arr(v)
        if axis is None:
            a = self.flatten(a)
        ax = self.axis_arg(axis, len(self.arr(a).shape)) if axis is not None else 0
        n = self.arr(a).shape[ax]
        k = self.const_index(i)
        k = k + n if k < 0 else k
        pre = [Slc(None, None, None)] * ax
        b = self.to_arr(vals)
        sh = list(self.arr(a).shape)
        sh[ax] = 1
        if len(self.arr(b).shape) == len(sh):
            sh[ax] = self.arr(b).shape[ax]
        elif ax and len(self.arr(b).shape) == len(sh) - 1:
            b = self.np_expand_dims(b, num(ax))
        b = self.np_broadcast_to(b, Tup([num(x) for x in sh]))
        kd = self.arr(a).dtype
        return self.concat([self.arr_getitem(a, Tup(pre + [Slc(None, num(k), None)])), self.to_arr(b, kd),
                            self.arr_getitem(a, Tup(pre + [Slc(num(k), None, None)]))], ax)

    def np_block(self, rows):
        def lvl(x, ax_from_end):
            x = self.use(x)
            if isinstance(x, Ref) and x.kind == 'list' or isinstance(x, Tup):
                its = [lvl(y, ax_from_end - 1) for y in self.iterate(x)]
                return self.concat(its, 2 - ax_from_end)
            return self.np_atleast_2d(x)
        r = self.use(rows)
        depth, y = 0, r
        while isinstance(y, Ref) and y.kind == 'list' or isinstance(y, Tup):
            depth += 1
            y = self.use(self.iterate(y)[0])
        if depth != 2:
            raise NoModel('block')
        return lvl(r, 2)

    def np_array_split(self, v, sec, axis=None):
        a = self.to_arr(v)
        ax = self.axis_arg(axis, len(self.arr(a).shape)) if axis is not None else 0
        if not isinstance(self.use(sec), S):
            return self.np_split(a, sec, num(ax))
        n, c = self.arr(a).shape[ax], self.const_index(sec)
        if c <= 0:
            self.py_raise('ValueError', 'number sections must be larger than 0.', internal=True)
        sizes = [n // c + (k < n % c) for k in range(c)]
        cuts = list(itertools.accumulate(sizes))[:-1]
        return self.np_split(a, self.new_list([num(k) for k in cuts]), num(ax))

    def np_hsplit(self, v, sec):
        a = self.to_arr(v)
        return self.np_split(a, sec, num(0 if len(self.arr(a).shape) == 1 else 1))

    def np_vsplit(self, v, sec):
        return self.np_split(v, sec, num(0))

    def np_atleast_3d(self, v):
        a = self.to_arr(v)
        rec = self.arr(a)
        n = len(rec.shape)
        if n >= 3:
            return a
        return self.view(a, rec.idx, {0: (1, 1, 1), 1: (1,) + rec.shape + (1,), 2: rec.shape + (1,)}[n])

    def np_broadcast_arrays(self, *a, **kw):
        vs = [self.to_arr(x) for x in a]
        sh = ()
        for v in vs:
            sh = self.bshape(sh, self.arr(v).shape)
        return self.new_list([self.np_broadcast_to(v, Tup([num(n) for n in sh])) for v in vs])

    def np_broadcast_shapes(self, *a):
        sh = ()
        for x in a:
            sh = self.bshape(sh, self.shape_arg(x))
        return Tup([num(n) for n in sh])

    def np_meshgrid(self, *a, indexing='xy', sparse=None, copy=None):
        if sparse is not None or indexing not in ('xy', 'ij'):
            raise NoModel('meshgrid')
        vs = [self.flatten(self.to_arr(x)) for x in a]
        n = [self.arr(v).shape[0] for v in vs]
        out = []
        for d, v in enumerate(vs):
            e = self.elems(v)
            sh = list(n)
            q = d
            if indexing == 'xy' and len(n) > 1:
                sh[0], sh[1] = sh[1], sh[0]
                q = {0: 1, 1: 0}.get(d, d)
            out.append(self.new_arr([e[t[q]] for t in itertools.product(*[range(k) for k in sh])], tuple(sh),
                                    self.arr(v).dtype))
        return self.new_list(out)

    # ------------------------------------------------------------ elementwise
    def np_positive(self, v):
        return self.np_copy(v) if not isinstance(self.use(v), S) else v

    def np_reciprocal(self, v):
        return self.arr_bin('Div', num(1.0), v)

    def np_float_power(self, a, b):
        return self.arr_bin('Pow', self.to_arr(a, 'f'), b)

    def np_conj(self, v):
        v = self.use(v)
        k = v.k if isinstance(v, S) else self.arr(self.to_arr(v)).dtype
        if k == 'c':
            raise NoModel('conj')
        return v if isinstance(v, S) else self.np_copy(v)

    np_conjugate = np_conj

    def np_nan_to_num(self, v, *a, **kw):
        raise NoModel('nan_to_num')

    def np_select(self, conds, choices, default=None):
        cs, xs = list(self.iterate(conds)), list(self.iterate(choices))
        r = default if default is not None else num(0)
        for c, x in reversed(list(zip(cs, xs))):
            r = self.np_where(c, x, r)
        return r

    def np_cumprod(self, v, axis=None):
        a = self.to_arr(v)
        if axis is None:
            a = self.flatten(a)
        rec = self.arr(a)
        ax = self.axis_arg(axis, len(rec.shape)) if axis is not None else 0
        st = cstr(rec.shape)[ax]
        k = 'i' if rec.dtype == 'b' else rec.dtype
        out = [self.cast(x, k) for x in self.elems(a)]
        for q in range(len(out)):
            if q // st % rec.shape[ax]:
                out[q] = self.s_bin('Mult', out[q - st], out[q])
        return self.new_arr(out, rec.shape, k)

    def np_ediff1d(self, v):
        return self.np_diff(self.flatten(self.to_arr(v)))

    def np_average(self, v, axis=None, weights=None, **kw):
        if weights is not None or kw:
            raise NoModel('average')
        return self.np_mean(v, axis)

    def np_var(self, v, axis=None, ddof=None, keepdims=None, **kw):
        a = self.to_arr(v)
        n = len(self.elems(a)) if axis is None else self.arr(a).shape[self.axis_arg(axis, len(self.arr(a).shape))]
        d = n - (self.const_index(ddof) if ddof is not None else 0)
        m = self.np_mean(a, axis, boolv(True))
        dv = self.arr_bin('Sub', a, m)
        return self.binop('Div', self.np_sum(self.arr_bin('Mult', dv, dv), axis, keepdims=keepdims), num(float(d)))

    def np_std(self, v, axis=None, ddof=None, keepdims=None, **kw):
        return self.np_sqrt(self.np_var(v, axis, ddof, keepdims))

    def np_tensordot(self, a, b, axes=None):
        a, b = self.to_arr(a), self.to_arr(b)
        na, nb = len(self.arr(a).shape), len(self.arr(b).shape)
        axes = self.use(axes) if axes is not None else num(2)
        if isinstance(axes, S):
            k = self.const_index(axes)
            xa, xb = list(range(na - k, na)), list(range(k))
        else:
            p, q = self.iterate(axes)

            def lst(x, n):
                x = self.use(x)
                return [self.axis_arg(x, n)] if isinstance(x, S) else [self.axis_arg(y, n) for y in self.iterate(x)]
            xa, xb = lst(p, na), lst(q, nb)
        la = [chr(97 + k) for k in range(na)]
        lb = [chr(97 + na + k) for k in range(nb)]
        for p, q in zip(xa, xb):
            lb[q] = la[p]
        out = [c for k, c in enumerate(la) if k not in xa] + [c for k, c in enumerate(lb) if k not in xb]
        return self.np_einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(out)), a, b)

    def np_linalg_multi_dot(self, arrs):
        r = None
        for x in self.iterate(arrs):
            r = x if r is None else self.np_dot(r, x)
        return r

    def np_linalg_matrix_power(self, a, n):
        k = self.const_index(n)
        if k < 0:
            a, k = self.np_linalg_inv(a), -k
        if k == 0:
            return self.np_eye(num(self.arr(self.to_arr(a)).shape[0]))
        r = a
        for _ in range(k - 1):
            r = self.np_dot(r, a)
        return r

    # ------------------------------------------------------------ sets, tests
    def np_array_equiv(self, a, b):
        r = self.arr_cmp('Eq', self.to_arr(a), self.to_arr(b))
        return self.np_all(r)

    def np_setdiff1d(self, a, b, assume_unique=None):
        u = self.np_unique(a)
        m = self.np_isin(u, b)
        return self.arr_getitem(u, self.np_logical_not(m))

    def np_intersect1d(self, a, b, *x, **kw):
        if x or kw:
            raise NoModel('intersect1d')
        u = self.np_unique(a)
        return self.arr_getitem(u, self.np_isin(u, b))

    def np_union1d(self, a, b):
        return self.np_unique(self.concat([self.flatten(self.to_arr(a)), self.flatten(self.to_arr(b))], 0))

    def np_extract(self, c, v):
        return self.arr_getitem(self.flatten(self.to_arr(v)), self.flatten(self.to_arr(c, 'b')))

    def np_compress(self, c, v, axis=None):
        if axis is None:
            return self.np_extract(c, v)
        a = self.to_arr(v)
        ax = self.axis_arg(axis, len(self.arr(a).shape))
        return self.np_take(a, self.np_flatnonzero(c), num(ax))

    def np_issubdtype(self, d, kind):
        k = self.dtype_of_val(d)
        name = getattr(kind, 'path', None) or getattr(kind, 'name', None)
        name = str(name).split('.')[-1]
        m = {'floating': 'f', 'integer': 'iu', 'signedinteger': 'i', 'bool_': 'b', 'number': 'fiuc',
             'complexfloating': 'c', 'inexact': 'fc', 'object_': 'O', 'float64': 'f', 'float': 'f', 'int64': 'i',
             'bool': 'b', 'int': 'i'}
        if name not in m:
            raise NoModel('issubdtype')
        return boolv(k in m[name])

    def np_iterable(self, v):
        v = self.use(v)
        if isinstance(v, Top):
            raise NoModel('iterable')
        if isinstance(v, S):
            return boolv(False)
        if isinstance(v, Ref) and v.kind == 'arr':
            return boolv(self.arr(v).shape != ())
        return boolv(isinstance(v, (Tup, str)) or isinstance(v, Ref) and v.kind in ('list', 'dict', 'set'))

    # ------------------------------------------------------------ ufunc methods
    UF = {'add': ('sum', 'Add'), 'multiply': ('prod', 'Mult'), 'maximum': ('max', None), 'minimum': ('min', None),
          'fmax': ('max', None), 'fmin': ('min', None), 'logical_and': ('all', None), 'logical_or': ('any', None),
          'subtract': (None, 'Sub'), 'divide': (None, 'Div'), 'true_divide': (None, 'Div')}

    def call_ufunc(self, name, meth, args, kw):
        """np.<ufunc>.reduce / accumulate / outer"""
        red, op = self.UF.get(name, (None, None))
        if meth == 'reduce' and red:
            axis = kw.get('axis', args[1] if len(args) > 1 else num(0))
            kw = {k: v for k, v in kw.items() if k == 'keepdims'}
            return getattr(self, 'np_' + red)(args[0], axis, **kw)
        if meth == 'accumulate' and name in ('add', 'multiply'):
            axis = kw.get('axis', args[1] if len(args) > 1 else num(0))
            return (self.np_cumsum if name == 'add' else self.np_cumprod)(args[0], axis)
        if meth == 'outer' and len(args) == 2 and not kw:
            a, b = self.to_arr(args[0]), self.to_arr(args[1])
            sa, sb = self.arr(a).shape, self.arr(b).shape
            a2 = self.view(a, self.arr(a).idx, sa + (1,) * len(sb))
            m = getattr(self, 'np_' + name, None)
            if m is not None:
                return m(a2, b)
        raise NoModel('ufunc method')

    # ------------------------------------------------------------ module operator
    OPB = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'matmul': 'MatMult', 'mod': 'Mod',
           'floordiv': 'FloorDiv', 'pow': 'Pow', 'and_': 'BitAnd', 'or_': 'BitOr', 'xor': 'BitXor', 'iadd': 'Add',
           'imul': 'Mult', 'isub': 'Sub'}
    OPC = {'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE'}
    OPU = {'neg': 'USub', 'pos': 'UAdd', 'invert': 'Invert', 'inv': 'Invert'}

    def call_operator(self, n, args, kw, node):
        if n in self.OPB and not n.startswith('i') and len(args) == 2:
            return self.binop(self.OPB[n], args[0], args[1])
        if n == '<identity>':
            return args[0]
        if n in self.OPC:
            return self.compare(self.OPC[n], args[0], args[1])
        if n in self.OPU:
            return self.unop(self.OPU[n], args[0])
        if n == 'not_':
            b = self.as_bool(args[0])
            return boolv(not b.bv) if b.bv is not None else S('b', b_not(b.t), 0.0, 1.0)
        if n == 'truth':
            return self.as_bool(args[0])
        if n == 'abs':
            return self.bi_abs(args[0])
        if n in ('is_', 'is_not'):
            b = self.is_same(args[0], args[1])
            if n == 'is_':
                return b if isinstance(b, S) else boolv(b)
            raise NoModel(n)
        if n == 'contains':
            return self.contains(args[0], args[1])
        if n == 'getitem':
            return self.getitem(args[0], args[1])
        if n == 'setitem':
            return self.setitem(args[0], args[1], args[2])
        if n in ('attrgetter', 'itemgetter', 'methodcaller'):
            return Partial(Ext('operator.<%s>' % n), list(args), kw)
        if n == '<attrgetter>':
            *names, x = args
            out = []
            for nm in names:
                y = x
                for p in nm.split('.'):
                    y = self.getattr(y, p)
                out.append(y)
            return out[0] if len(out) == 1 else Tup(out)
        if n == '<itemgetter>':
            *ks, x = args
            out = [self.getitem(x, k) for k in ks]
            return out[0] if len(out) == 1 else Tup(out)
        if n == '<methodcaller>':
            nm, *rest, x = args
            return self.call(self.getattr(x, nm), rest, kw, node)
        raise NoModel(n)

    # ------------------------------------------------------------ synthesized classes
    def convex_hull(self, pts, node=None):
        """the hull of points whose orientations the intervals decide.  Nothing is promised about the order of the faces, of
        the vertices inside a face, or where the counterclockwise list of vertices starts, so awkward orders are taken."""
        pts = self.to_arr(pts)
        sh = self.arr(pts).shape
        if len(sh) != 2 or sh[1] not in (2, 3) or not sh[1] < sh[0] <= 16:
            return None
        els = self.elems(pts)
        if self.bad(els):
            return None
        iv = [self.iv(x) for x in els]
        n, d = sh
        p = [iv[i * d:(i + 1) * d] for i in range(n)]

        def sub(a, b):
            return (a[0] - b[1], a[1] - b[0])

        def mul(a, b):
            q = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
            return (min(q), max(q))

        def vec(i, j):
            return [sub(a, b) for a, b in zip(p[j], p[i])]

        def cross2(u, v):
            return sub(mul(u[0], v[1]), mul(u[1], v[0]))

        # relative to the size of the figure
        big = max(max(abs(c) for c in x) for x in iv) ** d * 1e-12

        def sign(x):
            return 1 if x[0] > big else -1 if x[1] < -big else 0

        def sides(q):
            q = set(q)
            if len(q) == 1 and 0 not in q:
                return q.pop()
            if {1, -1} <= q:
                return 0
            raise ArithmeticError
        try:
            if d == 2:
                nxt = {}
                for i in range(n):
                    for j in range(n):
                        if i != j:
                            u = vec(i, j)
                            q = {sign(cross2(u, vec(i, k))) for k in range(n) if k not in (i, j)}
                            if -1 not in q and sides(q) > 0:
                                nxt[i] = j
                if len(nxt) < 3:
                    return None
                start = sorted(nxt)[len(nxt) // 2]
                vert = [start]
                while nxt[vert[-1]] != start:
                    vert.append(nxt[vert[-1]])
                if len(vert) != len(nxt):
                    return None
                faces = [[i, nxt[i]] for i in vert]
                faces = [f if k % 3 else f[::-1] for k, f in enumerate(faces[1::2] + faces[::2])]
            else:
                faces = []
                for i, j, k in itertools.combinations(range(n), 3):
                    u, v = vec(i, j), vec(i, k)
                    w = [sub(mul(u[1], v[2]), mul(u[2], v[1])), sub(mul(u[2], v[0]), mul(u[0], v[2])),
                         sub(mul(u[0], v[1]), mul(u[1], v[0]))]
                    q = set()
                    for m in range(n):
                        if m not in (i, j, k) and not {1, -1} <= q:
                            x = [mul(a, c) for a, c in zip(w, vec(i, m))]
                            q.add(sign((sum(y[0] for y in x), sum(y[1] for y in x))))
                    if sides(q):
                        faces.append([(i, j, k), (k, i, j), (j, k, i), (i, k, j)][(i + 2 * j + k) % 4])
                faces = faces[1::2] + faces[::2]
                vert = sorted({x for f in faces for x in f})
        except ArithmeticError:
            return None
        c = self.class_from('class ConvexHull:\n    def __init__(self, points, simplices, vertices):\n        self.points = points\n'
                            '        self.simplices = simplices\n        self.vertices = vertices\n'
                            '        self.nsimplex = len(simplices)\n        self.npoints = len(points)\n        self.ndim = %d' % d)
        simp = self.new_arr([num(x, True) for f in faces for x in f], (len(faces), d), 'i')
        return self.instantiate(c, [self.np_copy(pts), simp, self.new_arr([num(x, True) for x in vert], (len(vert),), 'i')], {}, node)

    def named_tuple(self, args, kw):
        if kw or len(args) != 2 or not isinstance(args[0], str):
            return None
        f = self.use(args[1])
        f = f.replace(',', ' ').split() if isinstance(f, str) else list(self.iterate(f))
        if not all(isinstance(x, str) and x.isidentifier() for x in f):
            return None
        src = ['class %s:' % args[0], '    _fields = %r' % (tuple(f),), '    def __init__(self, %s):' % ', '.join(f)]
        src += ['        self.%s = %s' % (x, x) for x in f] or ['        pass']
        src += ['    def _t(self):', '        return (%s)' % ''.join('self.%s, ' % x for x in f),
                '    def __iter__(self):', '        return iter(self._t())',
                '    def __len__(self):', '        return %d' % len(f),
                '    def __getitem__(self, i):', '        return self._t()[i]',
                '    def __eq__(self, o):', '        return tuple(self) == tuple(o)',
                '    def _asdict(self):', '        return {%s}' % ', '.join('%r: self.%s' % (x, x) for x in f),
                '    def _replace(self, **kw):', '        return type(self)(**{**self._asdict(), **kw})']
        return self.class_from('\n'.join(src))

    def class_from(self, src):
        node = ast.parse(src).body[0]
        SYNTH.append(node)
        for n in ast.walk(node):
            if hasattr(n, 'lineno'):
                n.lineno = getattr(self.cur, 'lineno', 1)
        return self.make_class(node)

    def data_class(self, c):
        """@dataclass: the constructor and the comparison it generates"""
        flds = []
        for b in reversed([k for k in c.mro if isinstance(k, Cls)]):
            for n in b.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    if isinstance(n.value, ast.Call):
                        return False
                    flds = [f for f in flds if f[0] != n.target.id] + [(n.target.id, n.value is not None)]
        names = [f for f, _ in flds]
        have = {n.name for n in c.node.body if isinstance(n, ast.FunctionDef)}
        src = ['class _X:', '    pass']
        if '__init__' not in have:
            src += ['    def __init__(self%s):' % ''.join(', ' + f + ('=_c.%s' % f if d else '') for f, d in flds)]
            src += ['        self.%s = %s' % (f, f) for f in names] or ['        pass']
            if '__post_init__' in have:
                src += ['        self.__post_init__()']
        if '__eq__' not in have:
            src += ['    def __eq__(self, o):', '        if o.__class__ is not self.__class__:',
                    '            return NotImplemented',
                    '        return (%s) == (%s)' % (''.join('self.%s, ' % f for f in names),
                                                     ''.join('o.%s, ' % f for f in names))]
        node = ast.parse('\n'.join(src)).body[0]
        SYNTH.append(node)
        for n in ast.walk(node):
            if hasattr(n, 'lineno'):
                n.lineno = c.node.lineno
        x = self.make_class(node, {'_c': c})
        for k in [k for k in self.store if k[0] == 'c' and k[1] == x.id]:
            self.store[('c', c.id, k[2])] = self.store[k]
        return True

    def enum_class(self, c):
        """members of an enumeration are single instances with a name and a value"""
        for k in [k for k in self.store if k[0] == 'c' and k[1] == c.id]:
            n, v = k[2], self.store[k]
            if n.startswith('_') or isinstance(v, (Fn, StaticM, ClassM, Prop, Cls)):
                continue
            o = Ref('obj', self.nid(), c)
            self.alloc_site[o.id] = self.where()
            self.store[('o', o.id)] = c
            self.setattr(o, 'name', n)
            self.setattr(o, 'value', v)
            self.store[k] = o


SYNTH = []
