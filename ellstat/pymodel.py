"""Abstract semantics of Python's builtin values and functions."""
import ast
import collections
import re
from .values import *

EXC = {'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError', 'Exception', 'RuntimeError',
       'NotImplementedError', 'AssertionError', 'ZeroDivisionError', 'ArithmeticError', 'NameError', 'OSError',
       'StopIteration', 'ImportError', 'BaseException', 'OverflowError', 'LookupError', 'FloatingPointError',
       'UnboundLocalError', 'Warning', 'UserWarning', 'RuntimeWarning', 'DeprecationWarning', 'FutureWarning',
       'KeyboardInterrupt', 'SystemExit', 'IOError', 'ModuleNotFoundError', 'RecursionError', 'SyntaxError'}
TYPES = {'int', 'float', 'bool', 'str', 'list', 'tuple', 'dict', 'set', 'complex', 'object', 'frozenset', 'bytes',
         'range', 'type', 'slice', 'NoneType', 'function', 'map', 'zip', 'enumerate', 'filter', 'reversed',
         'property', 'staticmethod', 'classmethod', 'super'}
FUNCS = {'len', 'isinstance', 'issubclass', 'print', 'abs', 'max', 'min', 'sum', 'sorted', 'any', 'all', 'getattr',
         'setattr', 'hasattr', 'delattr', 'callable', 'id', 'hash', 'repr', 'iter', 'next', 'eval', 'exec', 'open',
         'input', 'vars', 'globals', 'locals', 'round', 'pow', 'divmod', 'ord', 'chr', 'format', 'dir',
         'NotImplemented', 'Ellipsis', '__import__', 'compile', 'bin', 'hex'}
LKEY = {'list': 'l', 'dict': 'd', 'set': 's'}


class NoModel(Exception):
    pass


class PyModel:
    # ------------------------------------------------------------ builtins
    def is_builtin(self, n):
        return n in EXC or n in TYPES or n in FUNCS or n in ('__file__', '__builtins__')

    def is_exc_name(self, n):
        return n in EXC

    def builtin(self, n):
        return BI(n)

    def alloc(self, kind):
        r = Ref(kind, self.nid())
        self.alloc_site[r.id] = self.where()
        return r

    def new_list(self, items):
        r = self.alloc('list')
        self.store[('l', r.id)] = tuple(items)
        return r

    def new_iter(self, items):
        """a one-shot iterator (generator, map, zip, iter, ...): reading it empties it"""
        r = self.new_list(items)
        self.store[('it', r.id)] = True
        return r

    def is_iter(self, v):
        return isinstance(v, Ref) and v.kind == 'list' and ('it', v.id) in self.store

    def new_set(self, items):
        r = self.alloc('set')
        out = []
        for x in items:
            if not any(self.key_eq(x, y) for y in out):
                out.append(x)
        self.store[('s', r.id)] = tuple(out)
        return r

    def new_dict(self, items):
        r = self.alloc('dict')
        out = []
        for k, v in items:
            for i, (k2, _) in enumerate(out):
                if self.key_eq(k, k2):
                    out[i] = (k2, v)
                    break
            else:
                out.append((k, v))
        self.store[('d', r.id)] = tuple(out)
        return r

    def cont(self, r):
        return self.use(self.store[(LKEY[r.kind], r.id)])

    def put(self, r, v, what):
        self.wr_event(r.id, what)
        self.store[(LKEY[r.kind], r.id)] = tuple(v)

    def list_mut(self, r, v, what):
        self.put(r, v, 'list ' + what)

    def key_eq(self, a, b):
        a, b = self.use(a), self.use(b)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, S) and isinstance(b, S):
            x, y = pyconst(a), pyconst(b)
            if x is not None and y is not None:
                return x == y
            if a.t is b.t:
                return True
            r = self.s_cmp('eq', a, b)
            if r.bv is not None:
                return r.bv
            return self.partition(r.t, 'key')
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(self.key_eq(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Top) or isinstance(b, Top):
            raise Unresolved('unknown key')
        return same(a, b)

    def partition(self, term, tag):
        """decide an undecided boolean term by trace partitioning"""
        d = self.dec(term)
        if d is not None:
            return d
        g = self.gkey_tag(tag)
        if g not in self.decisions:
            raise NeedSplit(g)
        d = self.decisions[g]
        self.exact.setdefault(g, self.exact_cond(term))
        self.assume(term, d)
        self.path = self.path + ((g, d),)
        return d

    def gkey_tag(self, tag):
        k = (self.ctx, id(self.cur), tag)
        n = self.counts.get(k, 0)
        self.counts[k] = n + 1
        return (self.ctx, id(self.cur), tag, n)

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        v = self.use(v)
        if isinstance(v, Tup):
            return [self.use(x) if isinstance(x, PhiV) else x for x in v.items]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ref):
            if v.kind == 'arr':
                rec = self.arr(v)
                if not rec.shape:
                    self.py_raise('TypeError', 'iteration over a 0-d array', internal=True)
                return [self.getitem(v, num(i)) for i in range(rec.shape[0])]
            if v.kind == 'list' or v.kind == 'set':
                out = list(self.cont(v))
                if out and ('it', v.id) in self.store:
                    self.store[('l', v.id)] = ()
                return out
            if v.kind == 'dict':
                return [k for k, _ in self.cont(v)]
            if v.kind == 'obj':
                m = self.cls_lookup(v.cls, '__iter__')
                if m is not None:
                    return self.iterate(self.call(self.bind(m, v, v.cls), [], {}, self.cur))
                self.py_raise('TypeError', "'%s' object is not iterable" % v.cls.name, internal=True)
        if isinstance(v, Top):
            raise Unresolved('iteration over unknown value')
        self.py_raise('TypeError', 'object is not iterable: %r' % (v,), internal=True)

    def is_iterable(self, v):
        if isinstance(v, Ref) and v.kind == 'obj':
            return self.cls_lookup(v.cls, '__iter__') is not None
        return isinstance(v, (Tup, str, Ref))

    # ------------------------------------------------------------ index
    def const_index(self, i):
        i = self.use(i)
        if isinstance(i, S):
            if i.k == 'b' and i.bv is not None:
                return int(i.bv)
            if i.k in 'iu':
                c = as_int(i)
                if c is not None:
                    return int(c)
                raise Unresolved('abstract index')
            self.py_raise('TypeError', 'indices must be integers', internal=True)
        if isinstance(i, Ref) and i.kind == 'arr':
            el = self.elems(i)
            if len(el) == 1 and self.arr(i).dtype in 'iu':
                return self.const_index(el[0])
        if isinstance(i, Top):
            raise Unresolved('unknown index')
        self.py_raise('TypeError', 'indices must be integers or slices', internal=True)

    def slice_range(self, s, n):
        def c(x):
            return None if x is None else self.const_index(x)
        return range(*slice(c(s.lo), c(s.hi), c(s.step)).indices(n))

    def getitem(self, o, i):
        o, i = self.use(o), self.use(i)
        if isinstance(o, Tup) or isinstance(o, str) or isinstance(o, Ref) and o.kind == 'list':
            seq = o if isinstance(o, str) else (o.items if isinstance(o, Tup) else self.cont(o))
            if self.is_iter(o):
                self.py_raise('TypeError', 'iterator object is not subscriptable', internal=True)
            if isinstance(i, Slc):
                r = [seq[k] for k in self.slice_range(i, len(seq))]
                if isinstance(o, str):
                    return ''.join(r)
                return Tup(r) if isinstance(o, Tup) else self.new_list(r)
            k = self.const_index(i)
            if not -len(seq) <= k < len(seq):
                self.py_raise('IndexError', 'index %d out of range (length %d)' % (k, len(seq)), internal=True)
            return self.use(seq[k])
        if isinstance(o, Ref) and o.kind == 'dict':
            for k, v in self.cont(o):
                if self.key_eq(k, i):
                    return self.use(v)
            if ('df', o.id) in self.store:
                r = self.call(self.store[('df', o.id)], [], {}, self.cur)
                self.setitem(o, i, r)
                return r
            self.py_raise('KeyError', repr(i), internal=True)
        if isinstance(o, Ref) and o.kind == 'arr':
            return self.arr_getitem(o, i)
        if isinstance(o, Ref) and o.kind == 'obj':
            m = self.cls_lookup(o.cls, '__getitem__')
            if m is not None:
                return self.call(self.bind(m, o, o.cls), [i], {}, self.cur)
            self.py_raise('TypeError', "'%s' object is not subscriptable" % o.cls.name, internal=True)
        if isinstance(o, Top):
            if isinstance(i, S) and pyconst(i) is not None:
                return Top(mk('item', o.t, pyconst(i)), None)
            return self.top('getitem', [o, i])
        if isinstance(o, (Ext, BI, Cls)):
            return o       # typing subscripts: Union[...], Callable[...]
        if isinstance(o, S) and o.np:
            if isinstance(i, Tup) and not i.items or i is ELL:
                return o
            if i is None or isinstance(i, Tup) or isinstance(i, S) and i.k == 'b' or \
                    isinstance(i, Ref) and i.kind == 'arr' and getattr(self.store[('a', i.id)], 'shape', None) == ():
                return self.arr_getitem(self.new_arr([o], (), o.k), i)
            self.py_raise('IndexError', 'invalid index to scalar variable.', internal=True)
        self.py_raise('TypeError', 'object is not subscriptable: %r' % (o,), internal=True)

    def setitem(self, o, i, v):
        o, i = self.use(o), self.use(i)
        if isinstance(o, Ref) and o.kind == 'list':
            seq = list(self.cont(o))
            if isinstance(i, Slc):
                rg = self.slice_range(i, len(seq))
                items = self.iterate(v)
                if rg.step == 1:
                    seq[rg.start:max(rg.stop, rg.start)] = items
                else:
                    for k, x in zip(rg, items):
                        seq[k] = x
            else:
                k = self.const_index(i)
                if not -len(seq) <= k < len(seq):
                    self.py_raise('IndexError', 'list assignment index out of range', internal=True)
                seq[k] = v
            self.put(o, seq, 'list item store')
            return
        if isinstance(o, Ref) and o.kind == 'dict':
            out = list(self.cont(o))
            for k, (kk, _) in enumerate(out):
                if self.key_eq(kk, i):
                    out[k] = (kk, v)
                    break
            else:
                out.append((i, v))
            self.put(o, out, 'dict item store')
            return
        if isinstance(o, Ref) and o.kind == 'arr':
            return self.arr_setitem(o, i, v)
        if isinstance(o, Ref) and o.kind == 'obj':
            m = self.cls_lookup(o.cls, '__setitem__')
            if m is not None:
                self.call(self.bind(m, o, o.cls), [i, v], {}, self.cur)
                return
        if isinstance(o, Top):
            self.event('topwrite', target='item')
            return
        self.py_raise('TypeError', 'object does not support item assignment: %r' % (o,), internal=True)

    def delitem(self, o, i):
        o, i = self.use(o), self.use(i)
        if isinstance(o, Ref) and o.kind == 'dict':
            out = list(self.cont(o))
            for k, (kk, _) in enumerate(out):
                if self.key_eq(kk, i):
                    del out[k]
                    self.put(o, out, 'dict item delete')
                    return
            self.py_raise('KeyError', repr(i), internal=True)
        if isinstance(o, Ref) and o.kind == 'list':
            out = list(self.cont(o))
            if isinstance(i, Slc):
                for k in sorted(self.slice_range(i, len(out)), reverse=True):
                    del out[k]
            else:
                k = self.const_index(i)
                if not -len(out) <= k < len(out):
                    self.py_raise('IndexError', 'list index out of range', internal=True)
                del out[k]
            self.put(o, out, 'list item delete')
            return
        if isinstance(o, Top):
            return
        self.py_raise('TypeError', 'object does not support item deletion', internal=True)

    # ------------------------------------------------------------ types
    def type_of(self, v):
        v = self.use(v)
        if v is None:
            return BI('NoneType')
        if isinstance(v, S):
            if v.np:
                return Ext('numpy.' + {'f': 'float64', 'i': 'int64', 'b': 'bool_', 'c': 'complex128',
                                       'u': 'uint64'}[v.k])
            return BI({'f': 'float', 'i': 'int', 'b': 'bool', 'c': 'complex'}[v.k])
        if isinstance(v, str):
            return BI('str')
        if isinstance(v, Tup):
            return BI('tuple')
        if isinstance(v, Ref):
            if v.kind == 'arr':
                return Ext('numpy.ndarray')
            if v.kind == 'obj':
                return v.cls
            return BI(v.kind)
        if isinstance(v, (Fn, Bound)):
            return BI('function')
        if isinstance(v, Cls):
            return Ext('abc.ABCMeta')
        if isinstance(v, Top):
            return Top(mk('type', v.t), 'type')
        if isinstance(v, DType):
            return Ext('numpy.dtype')
        if isinstance(v, ExcV):
            return BI(v.tname)
        return BI('object')

    def isinst(self, v, t):
        """True / False / None(unknown)"""
        v, t = self.use(v), self.use(t)
        if isinstance(t, Tup):
            rs = [self.isinst(v, x) for x in t.items]
            if True in rs:
                return True
            return None if None in rs else False
        if isinstance(t, Top):
            return None
        if isinstance(t, Cls):
            if isinstance(v, Top):
                return None if v.hint in (None, 'obj') else False
            if isinstance(v, ExcV):
                return t.name in getattr(v, 'mro', ()) or v.tname == t.name
            return isinstance(v, Ref) and v.kind == 'obj' and t in v.cls.mro
        name = t.name if isinstance(t, BI) else (t.path.split('.')[-1] if isinstance(t, Ext) else None)
        if name is None:
            self.py_raise('TypeError', 'isinstance() arg 2 must be a type', internal=True)
        if name == 'object':
            return True
        if isinstance(v, Top):
            if v.hint in (None, 'obj'):
                return None
            if v.hint == name:
                return True
            return False if v.hint in ('ndarray', 'str', 'list', 'tuple', 'dict') else None
        if isinstance(t, Ext):
            if name in ('Iterable', 'Collection', 'Container') and not isinstance(v, S):
                return self.is_iterable(v)
            if name in ('Sequence',):
                return isinstance(v, (Tup, str)) or isinstance(v, Ref) and v.kind == 'list'
            if name in ('Sized',):
                return isinstance(v, (Tup, str)) or isinstance(v, Ref) and (
                    v.kind != 'obj' or self.cls_lookup(v.cls, '__len__') is not None)
            if name in ('Mapping', 'MutableMapping', 'Dict', 'OrderedDict'):
                return isinstance(v, Ref) and v.kind == 'dict'
            if name == 'List':
                return isinstance(v, Ref) and v.kind == 'list'
            if name == 'Tuple':
                return isinstance(v, Tup)
            if name == 'Callable':
                return self.is_callable(v)
            if name == 'ndarray':
                return isinstance(v, Ref) and v.kind == 'arr'
            if name in ('Number', 'Complex'):
                return isinstance(v, S)
            if name == 'Real':
                return isinstance(v, S) and v.k != 'c' and not (v.k == 'b' and v.np)
            if name in ('Integral', 'Rational'):
                return isinstance(v, S) and v.k in 'iub' and not (v.k == 'b' and v.np)
            if name == 'csc_matrix':
                return False
            if isinstance(v, S):
                if not v.np:
                    return False
                ks = {'floating': 'f', 'float64': 'f', 'double': 'f', 'float_': 'f', 'integer': 'iu',
                      'signedinteger': 'i', 'int64': 'i', 'int_': 'i', 'bool_': 'b', 'number': 'fiuc', 'generic': 'fiucb',
                      'inexact': 'fc', 'complexfloating': 'c', 'complex128': 'c', 'complex_': 'c',
                      'unsignedinteger': 'u'}.get(name)
                return ks is not None and v.k in ks
            return False
        if isinstance(v, S):
            if name == 'int':
                return (v.k in 'ib') and not v.np
            if name == 'float':
                return v.k == 'f'
            if name == 'bool':
                return v.k == 'b' and not v.np
            if name == 'complex':
                return v.k == 'c'
            return False
        if isinstance(v, str):
            return name == 'str'
        if v is None:
            return name == 'NoneType'
        if isinstance(v, Tup):
            return name == 'tuple'
        if isinstance(v, Ref):
            return v.kind == name
        if isinstance(v, (Cls, BI)):
            return name == 'type'
        if isinstance(v, ExcV):
            return self.exc_isa(v, name)
        if isinstance(v, (Fn, Bound)):
            return name == 'function'
        return False

    def is_callable(self, v):
        if isinstance(v, Ref) and v.kind == 'obj':
            return self.cls_lookup(v.cls, '__call__') is not None
        if isinstance(v, Top):
            return True if v.hint == 'fn' else None
        return isinstance(v, (Fn, Bound, Cls, BI, Meth, Ext, Partial, Vectorized, StaticM))

    # ------------------------------------------------------------ operators
    def unop(self, op, v):
        v = self.use(v)
        if op == 'Not':
            d, c = self.truth(v)
            if d is not None:
                return boolv(not d)
            return S('b', b_not(c), 0.0, 1.0)
        if isinstance(v, Top):
            return Top(mk('un' + op, v.t), v.hint)
        if isinstance(v, S):
            return self.s_un(op, v)
        if isinstance(v, Ref) and v.kind == 'arr':
            return self.arr_un(op, v)
        if isinstance(v, Ref) and v.kind == 'obj':
            m = self.cls_lookup(v.cls, {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op])
            if m is not None:
                return self.call(self.bind(m, v, v.cls), [], {}, self.cur)
        self.py_raise('TypeError', 'bad operand type for unary %s: %r' % (op, v), internal=True)

    DUN = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'MatMult': 'matmul', 'Div': 'truediv', 'Mod': 'mod',
           'Pow': 'pow', 'FloorDiv': 'floordiv', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}

    def binop(self, op, a, b):
        a, b = self.use(a), self.use(b)
        oa = isinstance(a, Ref) and a.kind == 'obj'
        ob = isinstance(b, Ref) and b.kind == 'obj'
        if oa:
            m = self.cls_lookup(a.cls, '__%s__' % self.DUN.get(op, op))
            if m is not None:
                return self.call(self.bind(m, a, a.cls), [b], {}, self.cur)
        if isinstance(a, Ref) and a.kind == 'arr' or isinstance(b, Ref) and b.kind == 'arr':
            if isinstance(a, Top) or isinstance(b, Top):
                return self.top('bin' + op, [a, b], 'ndarray')
            return self.arr_bin(op, a, b)
        if ob:
            m = self.cls_lookup(b.cls, '__r%s__' % self.DUN.get(op, op))
            if m is not None:
                return self.call(self.bind(m, b, b.cls), [a], {}, self.cur)
        if isinstance(a, Top) or isinstance(b, Top):
            if op == 'Mod' and isinstance(a, str):
                return self.text('fmt', [b], a.strip('%sdifg.0123456789') != '')
            h = a.hint if isinstance(a, Top) and isinstance(b, Top) and a.hint == b.hint else None
            if isinstance(a, str) or isinstance(b, str):
                h = 'str'
            if op == 'Add' and h == 'str':
                return self.text('cat', [a, b], self.solid(a) or self.solid(b))
            return self.top('bin' + op, [a, b], h)
        if isinstance(a, S) and isinstance(b, S):
            return self.s_bin(op, a, b)
        if op == 'Add':
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == 'list':
                return self.new_list(self.cont(a) + self.cont(b))
        if op == 'Mult':
            if isinstance(b, S) and not isinstance(a, S):
                pass
            elif isinstance(a, S):
                a, b = b, a
            if isinstance(b, S) and (b.k in 'iu' or b.k == 'b'):
                n = as_int(b)
                if n is None:
                    raise Unresolved('sequence repetition by abstract count')
                if isinstance(a, str):
                    return a * n
                if isinstance(a, Tup):
                    return Tup(a.items * n)
                if isinstance(a, Ref) and a.kind == 'list':
                    if b.np:
                        return self.arr_bin('Mult', self.to_arr(a), b)
                    return self.new_list(self.cont(a) * n)
            if isinstance(a, Ref) and a.kind == 'list' and isinstance(b, S) and b.np:
                return self.arr_bin('Mult', self.to_arr(a), b)
        if op == 'Mod' and isinstance(a, str):
            return self.str_format_pct(a, b)
        if isinstance(a, S) and a.np and isinstance(b, (Tup, Ref)) or isinstance(b, S) and b.np and \
                isinstance(a, (Tup, Ref)):
            if not (oa or ob):
                return self.arr_bin(op, self.to_arr(a), self.to_arr(b))
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == 'set':
            x, y = self.cont(a), self.cont(b)
            def has(s, e):
                return any(self.key_eq(e, z) for z in s)
            if op == 'BitOr':
                return self.new_set(x + y)
            if op == 'BitAnd':
                return self.new_set([e for e in x if has(y, e)])
            if op == 'Sub':
                return self.new_set([e for e in x if not has(y, e)])
            if op == 'BitXor':
                return self.new_set([e for e in x if not has(y, e)] + [e for e in y if not has(x, e)])
        if op == 'BitOr' and isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == 'dict':
            return self.new_dict(self.cont(a) + self.cont(b))
        if isinstance(a, (Ext, BI, Cls)) or isinstance(b, (Ext, BI, Cls)):
            if op == 'BitOr':
                return Ext('typing.Union')
        self.py_raise('TypeError', 'unsupported operand types for %s: %r, %r' % (op, a, b), internal=True)

    def str_format_pct(self, a, b):
        items = b.items if isinstance(b, Tup) else (b,)
        if all(isinstance(x, str) or isinstance(x, S) and pyconst(x) is not None for x in items):
            try:
                return a % tuple(x if isinstance(x, str) else pyconst(x) for x in items)
            except (TypeError, ValueError) as e:
                self.py_raise(type(e).__name__, str(e), internal=True)
        n = len(re.findall(r'%[-+ #0]*[0-9.]*[a-zA-Z]', a.replace('%%', '')))
        if '*' not in a and '%(' not in a and n != len(items):
            self.py_raise('TypeError', 'not all arguments converted during string formatting' if n < len(items) else
                          'not enough arguments for format string', internal=True)
        return self.text('fmt', list(items), a.strip('%sdifg.0123456789') != '')

    def compare(self, op, a, b):
        a, b = self.use(a), self.use(b)
        if op in ('Is', 'IsNot'):
            r = self.is_same(a, b)
            if r is None:
                return Top(mk('is', self.vt(a), self.vt(b), op), 'bool')
            return boolv(r == (op == 'Is'))
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            if isinstance(r, bool):
                return boolv(r == (op == 'In'))
            return r if op == 'In' else self.unop('Not', r)
        neg = op == 'NotEq'
        oa = isinstance(a, Ref) and a.kind == 'obj'
        ob = isinstance(b, Ref) and b.kind == 'obj'
        if isinstance(a, Ref) and a.kind == 'arr' or isinstance(b, Ref) and b.kind == 'arr':
            if isinstance(a, Top) or isinstance(b, Top):
                return self.top('cmp' + op, [a, b], 'ndarray')
            return self.arr_cmp(op, a, b)
        if oa or ob:
            dn = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__',
                  'GtE': '__ge__'}[op]
            rn = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__gt__', 'LtE': '__ge__', 'Gt': '__lt__',
                  'GtE': '__le__'}[op]
            if oa:
                m = self.cls_lookup(a.cls, dn)
                if m is not None:
                    return self.call(self.bind(m, a, a.cls), [b], {}, self.cur)
                if neg:
                    m = self.cls_lookup(a.cls, '__eq__')
                    if m is not None:
                        return self.unop('Not', self.call(self.bind(m, a, a.cls), [b], {}, self.cur))
            if ob:
                m = self.cls_lookup(b.cls, rn)
                if m is not None:
                    return self.call(self.bind(m, b, b.cls), [a], {}, self.cur)
            if op in ('Eq', 'NotEq'):
                return boolv((oa and ob and a.id == b.id) != neg)
            self.py_raise('TypeError', "'%s' not supported" % op, internal=True)
        if isinstance(a, Top) or isinstance(b, Top):
            if op in ('Eq', 'NotEq') and (a is None or b is None):
                t = a if isinstance(a, Top) else b
                if t.hint not in (None,):
                    return boolv(neg)
            if op in ('Eq', 'NotEq') and (a == '' and self.solid(b) or b == '' and self.solid(a)):
                return boolv(neg)
            return Top(mk('cmp', op, self.vt(a), self.vt(b)), 'bool')
        if isinstance(a, S) and isinstance(b, S):
            return self.s_cmp({'Eq': 'eq', 'NotEq': 'ne', 'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}[op], a, b)
        if isinstance(a, S) and a.np and isinstance(b, (Tup, Ref)) or isinstance(b, S) and b.np and \
                isinstance(a, (Tup, Ref)):
            return self.arr_cmp(op, self.to_arr(a), self.to_arr(b))
        if isinstance(a, str) and isinstance(b, str):
            return boolv({'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op])
        sa, sb = self.seq_of(a), self.seq_of(b)
        if op in ('Eq', 'NotEq'):
            if sa is not None and sb is not None and isinstance(a, Tup) == isinstance(b, Tup):
                if len(sa) != len(sb):
                    return boolv(neg)
                r = self.all_of([self.as_bool(self.compare('Eq', x, y)) for x, y in zip(sa, sb)])
                return self.unop('Not', r) if neg else r
            if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == 'set':
                x, y = self.cont(a), self.cont(b)
                r = len(x) == len(y) and all(any(self.key_eq(p, q) for q in y) for p in x)
                return boolv(r != neg)
            if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == 'dict':
                x, y = self.cont(a), self.cont(b)
                if len(x) != len(y):
                    return boolv(neg)
                rs = []
                for k, v in x:
                    w = [q for p, q in y if self.key_eq(p, k)]
                    if not w:
                        return boolv(neg)
                    rs.append(self.as_bool(self.compare('Eq', v, w[0])))
                r = self.all_of(rs)
                return self.unop('Not', r) if neg else r
            if isinstance(a, DType) or isinstance(b, DType):
                ka, kb = self.dtype_of_val(a, True), self.dtype_of_val(b, True)
                return boolv((ka is not None and ka == kb) != neg)
            r = self.is_same(a, b)
            return boolv(bool(r) != neg)
        if sa is not None and sb is not None:
            for i, (x, y) in enumerate(zip(sa, sb)):
                e = self.as_bool(self.compare('Eq', x, y))
                d, c = self.truth(e)
                if d is None:
                    d = self.partition(c, ('seqcmp', i))
                if not d:
                    return self.compare(op, x, y)
            return boolv({'Lt': len(sa) < len(sb), 'LtE': len(sa) <= len(sb), 'Gt': len(sa) > len(sb),
                          'GtE': len(sa) >= len(sb)}[op])
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == 'set':
            x, y = self.cont(a), self.cont(b)
            sub = all(any(self.key_eq(p, q) for q in y) for p in x)
            sup = all(any(self.key_eq(p, q) for q in x) for p in y)
            return boolv({'LtE': sub, 'Lt': sub and not sup, 'GtE': sup, 'Gt': sup and not sub}[op])
        self.py_raise('TypeError', "'%s' not supported between %r and %r" % (op, a, b), internal=True)

    def seq_of(self, v):
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Ref) and v.kind == 'list':
            return self.cont(v)
        return None

    def vt(self, v):
        if isinstance(v, (S, Top)):
            return v.t
        if isinstance(v, str):
            return mk('str', v)
        return mk('val', repr(v))

    def as_bool(self, v):
        d, c = self.truth(v)
        if d is not None:
            return boolv(d)
        return S('b', c, 0.0, 1.0)

    def all_of(self, bs, np=False):
        if any(b.bv is False for b in bs):
            return boolv(False, np)
        return self.bterm(b_and([b.t for b in bs if b.bv is not True]), np)

    def any_of(self, bs, np=False):
        if any(b.bv is True for b in bs):
            return boolv(True, np)
        return self.bterm(b_or([b.t for b in bs if b.bv is not False]), np)

    def bterm(self, t, np=False):
        if t is TRUE_T or t is FALSE_T:
            return boolv(t is TRUE_T, np)
        d = self.dec(t)
        if d is not None:
            return boolv(d, np)
        return S('b', t, 0.0, 1.0, np=np)

    def is_same(self, a, b):
        if a is None or b is None:
            if isinstance(a, Top) or isinstance(b, Top):
                t = a if isinstance(a, Top) else b
                return None if t.hint is None else False
            return a is b
        if isinstance(a, Top) or isinstance(b, Top):
            if isinstance(a, Top) and isinstance(b, Top) and a.t is b.t:
                return True
            return None
        if isinstance(a, S) and isinstance(b, S):
            if a.k != b.k or a.np != b.np:
                return False
            if a.k == 'b' and not a.np:
                if a.bv is not None and b.bv is not None:
                    return a.bv == b.bv
                return None
            return a is b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        return same(a, b)

    def contains(self, c, x):
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, Top):
                return self.top('in', [x], 'bool')
            self.py_raise('TypeError', "'in <string>' requires string", internal=True)
        if isinstance(c, Top):
            return self.top('in', [c, x], 'bool')
        if isinstance(c, Ref) and c.kind == 'arr':
            r = self.arr_cmp('Eq', c, x)
            if isinstance(r, S):
                return r
            return self.any_of([self.as_bool(e) for e in self.elems(r)])
        if isinstance(c, Ref) and c.kind == 'dict':
            return any(self.key_eq(k, x) for k, _ in self.cont(c))
        if isinstance(c, Ref) and c.kind == 'set':
            return any(self.key_eq(k, x) for k in self.cont(c))
        if isinstance(c, Ref) and c.kind == 'obj':
            m = self.cls_lookup(c.cls, '__contains__')
            if m is not None:
                return self.call(self.bind(m, c, c.cls), [x], {}, self.cur)
        rs = []
        for y in self.iterate(c):
            if self.is_same(x, y) is True:
                return True
            rs.append(self.as_bool(self.compare('Eq', y, x)))
        r = self.any_of(rs)
        return r if r.bv is None else r.bv

    # ------------------------------------------------------------ attributes of builtin values
    def val_attr(self, v, name):
        if isinstance(v, Ref) and v.kind == 'arr':
            return self.arr_attr(v, name)
        if isinstance(v, S):
            return self.s_attr(v, name)
        if isinstance(v, Top):
            if v.hint in ('ndarray', 'float', 'int', 'bool', None) and name in ('shape', 'T', 'size', 'ndim', 'dtype',
                                                                            'flat', 'real', 'imag'):
                return Top(mk('attr', name, v.t), {'T': 'ndarray', 'shape': 'tuple', 'size': 'int', 'ndim': 'int'}.get(name))
            if v.hint is not None:
                return Meth(v, name)
            return Top(mk('attr', name, v.t), None)
        if isinstance(v, (str, Tup)):
            t = str if isinstance(v, str) else tuple
            if hasattr(t, name):
                return Meth(v, name)
        elif isinstance(v, Ref):
            t = {'list': list, 'dict': dict, 'set': set}[v.kind]
            if name == '__class__':
                return BI(v.kind)
            if hasattr(t, name) or v.kind == 'list' and name in ('appendleft', 'popleft'):
                return Meth(v, name)
            if v.kind == 'list' and (self.is_iter(v) or hasattr(collections.deque, name)):
                raise Unresolved('attribute %s of an iterator or deque' % name)
        elif isinstance(v, Fn):
            if name in ('__name__', '__qualname__'):
                return v.name
            if name == '__module__':
                return v.mod
            if name == '__doc__':
                return None
            r = self.store.get(('fa', id(v), name), self)
            if r is not self:
                return r
        elif isinstance(v, Bound):
            if name == '__self__':
                return v.self
            if name == '__func__':
                return v.fn
            return self.val_attr(v.fn, name)
        elif isinstance(v, Prop):
            return Meth(v, name)
        elif isinstance(v, (BI,)):
            if name == '__name__':
                return v.name
            if name == 'fromkeys' or v.name in TYPES:
                return BI(v.name + '.' + name)
        elif isinstance(v, DType):
            if name == 'kind':
                return v.k
            if name == 'name':
                return v.name
            if name == 'itemsize':
                return num({'b': 1, 'c': 16}.get(v.k, 8))
            if name == 'type':
                return Ext('numpy.' + v.name)
            if name == 'char':
                return Top(mk('dtchar', v.k), 'str')
        elif isinstance(v, ExcV):
            if name == 'args':
                return Tup(v.args)
        elif isinstance(v, (Vectorized, Partial)):
            return Top(mk('attr', name), None)
        elif isinstance(v, Slc):
            return {'start': v.lo, 'stop': v.hi, 'step': v.step}[name]
        elif isinstance(v, Meth):
            if name == '__self__':
                return v.obj
            if name == '__name__':
                return v.name
        self.py_raise('AttributeError', "%s has no attribute '%s'" % (self.tname(v), name), internal=True)

    def tname(self, v):
        t = self.type_of(v)
        if isinstance(t, (BI, Cls)):
            return t.name
        return getattr(t, 'path', '?')

    # ------------------------------------------------------------ methods of builtin values
    def call_method(self, o, name, args, kw, node):
        o = self.use(o)
        if isinstance(o, Top):
            return self.top('m:' + name, [o] + list(args) + list(kw.values()))
        if isinstance(o, str):
            return self.str_method(o, name, args, kw)
        if isinstance(o, Ref) and o.kind == 'arr':
            return self.arr_method(o, name, args, kw, node)
        if isinstance(o, S):
            return self.s_method(o, name, args, kw, node)
        if isinstance(o, Prop):
            return o
        if isinstance(o, Tup):
            return self.seq_method(o.items, name, args)
        if isinstance(o, Ref) and o.kind == 'list':
            seq = self.cont(o)
            if name == 'popleft':
                name, args = 'pop', [num(0)]
            elif name == 'appendleft':
                name, args = 'insert', [num(0), args[0]]
            if name == 'append':
                self.list_mut(o, seq + (args[0],), '.append')
                return None
            if name == 'extend':
                self.list_mut(o, seq + tuple(self.iterate(args[0])), '.extend')
                return None
            if name == 'insert':
                l = list(seq)
                l.insert(self.const_index(args[0]), args[1])
                self.list_mut(o, l, '.insert')
                return None
            if name == 'pop':
                l = list(seq)
                if not l:
                    self.py_raise('IndexError', 'pop from empty list', internal=True)
                r = l.pop(self.const_index(args[0]) if args else -1)
                self.list_mut(o, l, '.pop')
                return self.use(r)
            if name == 'remove':
                l = list(seq)
                for i, x in enumerate(l):
                    d, c = self.truth(self.compare('Eq', x, args[0]))
                    if d is None:
                        d = self.partition(c, ('rm', i))
                    if d:
                        del l[i]
                        self.list_mut(o, l, '.remove')
                        return None
                self.py_raise('ValueError', 'list.remove(x): x not in list', internal=True)
            if name == 'clear':
                self.list_mut(o, (), '.clear')
                return None
            if name == 'reverse':
                self.list_mut(o, seq[::-1], '.reverse')
                return None
            if name == 'sort':
                self.list_mut(o, self.sort_vals(seq, kw.get('key'), kw.get('reverse')), '.sort')
                return None
            if name == 'copy':
                return self.new_list(seq)
            return self.seq_method(seq, name, args)
        if isinstance(o, Ref) and o.kind == 'dict':
            d = self.cont(o)
            if name == 'keys':
                return self.new_list([k for k, _ in d])
            if name == 'values':
                return self.new_list([v for _, v in d])
            if name == 'items':
                return self.new_list([Tup((k, v)) for k, v in d])
            if name in ('get', 'pop', 'setdefault'):
                for i, (k, v) in enumerate(d):
                    if self.key_eq(k, args[0]):
                        if name == 'pop':
                            self.put(o, d[:i] + d[i + 1:], 'dict .pop')
                        return self.use(v)
                if name == 'setdefault':
                    v = args[1] if len(args) > 1 else None
                    self.put(o, d + ((args[0], v),), 'dict .setdefault')
                    return v
                if len(args) > 1:
                    return args[1]
                if name == 'get':
                    return None
                self.py_raise('KeyError', repr(args[0]), internal=True)
            if name == 'update':
                out = list(d)
                items = []
                if args:
                    if isinstance(args[0], Ref) and args[0].kind == 'dict':
                        items = list(self.cont(args[0]))
                    else:
                        items = [tuple(self.iterate(p)) for p in self.iterate(args[0])]
                items += list(kw.items())
                for k, v in items:
                    for i, (kk, _) in enumerate(out):
                        if self.key_eq(kk, k):
                            out[i] = (kk, v)
                            break
                    else:
                        out.append((k, v))
                self.put(o, out, 'dict .update')
                return None
            if name == 'copy':
                return self.new_dict(d)
            if name == 'clear':
                self.put(o, (), 'dict .clear')
                return None
            if name == 'popitem':
                self.put(o, d[:-1], 'dict .popitem')
                return Tup(d[-1])
            if name == '__contains__':
                return boolv(any(self.key_eq(k, args[0]) for k, _ in d))
        if isinstance(o, Ref) and o.kind == 'set':
            d = self.cont(o)
            if name == 'add':
                if not any(self.key_eq(k, args[0]) for k in d):
                    self.put(o, d + (args[0],), 'set .add')
                return None
            if name in ('discard', 'remove'):
                self.put(o, [k for k in d if not self.key_eq(k, args[0])], 'set .' + name)
                return None
            if name == 'update':
                self.put(o, self.cont(self.new_set(list(d) + [x for a in args for x in self.iterate(a)])), 'set .update')
                return None
            if name == 'copy':
                return self.new_set(d)
            m = {'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub', 'symmetric_difference': 'BitXor'}
            if name in m:
                return self.binop(m[name], o, self.new_set(self.iterate(args[0])))
            if name == 'issubset':
                return self.compare('LtE', o, self.new_set(self.iterate(args[0])))
            if name == 'issuperset':
                return self.compare('GtE', o, self.new_set(self.iterate(args[0])))
        if isinstance(o, Ref) and o.kind == 'obj':
            if name == '__getattribute__':
                return self.getattr(o, args[0])
            if name == '__setattr__':
                return self.setattr(o, args[0], args[1])
            if name == '__eq__':
                return self.compare('Eq', o, args[0])
            if name == '__ne__':
                return self.compare('NotEq', o, args[0])
            if name in ('__str__', '__repr__'):
                return self.top('str', [o], 'str')
        return self.top('m:' + name, [o] + list(args))

    def seq_method(self, seq, name, args):
        if name == 'index':
            for i, x in enumerate(seq):
                d, c = self.truth(self.compare('Eq', x, args[0]))
                if d is None:
                    d = self.partition(c, ('idx', i))
                if d:
                    return num(i)
            self.py_raise('ValueError', 'not in list', internal=True)
        if name == 'count':
            n = 0
            for i, x in enumerate(seq):
                d, c = self.truth(self.compare('Eq', x, args[0]))
                if d is None:
                    d = self.partition(c, ('cnt', i))
                n += bool(d)
            return num(n)
        if name == '__len__':
            return num(len(seq))
        return self.top('m:' + name, list(seq) + list(args))

    def str_method(self, o, name, args, kw):
        if name == 'join':
            parts = self.iterate(args[0])
            if all(isinstance(p, str) for p in parts):
                return o.join(parts)
            if any(isinstance(p, S) for p in parts):
                self.py_raise('TypeError', 'sequence item: expected str instance', internal=True)
            return self.text('join', parts, any(self.solid(p) for p in parts) or o != '' and len(parts) > 1)
        if name == 'format':
            vals = list(args) + list(kw.values())
            if all(isinstance(x, str) for x in vals):
                try:
                    return o.format(*args, **kw)
                except (IndexError, KeyError, ValueError) as e:
                    self.py_raise(type(e).__name__, str(e), internal=True)
            return self.text('format' + o, vals, re.sub(r'\{[^{}]*\}', '', o) != '')
        cargs = []
        for a in args:
            if isinstance(a, str) or a is None:
                cargs.append(a)
            elif isinstance(a, S) and pyconst(a) is not None:
                cargs.append(pyconst(a))
            elif isinstance(a, Tup) and all(isinstance(x, str) for x in a.items):
                cargs.append(a.items)
            elif isinstance(a, Top):
                return self.top('str.' + name, [a], None)
            else:
                self.py_raise('TypeError', 'str.%s argument %r' % (name, a), internal=True)
        try:
            r = getattr(o, name)(*cargs)
        except (TypeError, ValueError, IndexError) as e:
            self.py_raise(type(e).__name__, str(e), internal=True)
        return self.lift(r)

    def lift(self, r):
        if isinstance(r, bool) or isinstance(r, (int, float)):
            return num(r)
        if isinstance(r, list):
            return self.new_list([self.lift(x) for x in r])
        if isinstance(r, tuple):
            return Tup([self.lift(x) for x in r])
        return r

    # ------------------------------------------------------------ builtin calls
    def call_builtin(self, n, args, kw, node):
        if n in EXC:
            return ExcV(n, tuple(args))
        m = getattr(self, 'bi_' + n.replace('.', '_'), None)
        if m is not None:
            try:
                return m(*args, **kw)
            except TypeError as e:
                if 'positional argument' in str(e) or 'keyword argument' in str(e):
                    if 'bi_' in str(e):
                        self.py_raise('TypeError', str(e).replace('bi_', ''), internal=True)
                raise
        if '.' in n:
            t, meth = n.split('.', 1)
            if t == 'object':
                if meth == '__init__':
                    return None
                if meth == '__new__':
                    o = Ref('obj', self.nid(), args[0])
                    self.store[('o', o.id)] = args[0]
                    return o
                if meth == '__setattr__':
                    return self.setattr(args[0], args[1], args[2])
                if meth in ('__getattribute__', '__getattr__'):
                    return self.getattr(args[0], args[1])
            if t == 'dict' and meth == 'fromkeys':
                return self.new_dict([(k, args[1] if len(args) > 1 else None) for k in self.iterate(args[0])])
            if args:
                return self.call_method(args[0], meth, args[1:], kw, node)
        self.unk_calls[n] = self.unk_calls.get(n, 0) + 1
        return self.top('bi:' + n, list(args))

    def bi_len(self, v):
        v = self.use(v)
        if isinstance(v, str):
            return num(len(v))
        if isinstance(v, Tup):
            return num(len(v.items))
        if isinstance(v, Ref):
            if v.kind == 'arr':
                sh = self.arr(v).shape
                if not sh:
                    self.py_raise('TypeError', 'len() of unsized object', internal=True)
                return num(sh[0])
            if v.kind == 'obj':
                m = self.cls_lookup(v.cls, '__len__')
                if m is not None:
                    return self.call(self.bind(m, v, v.cls), [], {}, self.cur)
                self.py_raise('TypeError', 'object of type %s has no len()' % v.cls.name, internal=True)
            if self.is_iter(v):
                self.py_raise('TypeError', 'object of type iterator has no len()', internal=True)
            return num(len(self.cont(v)))
        if isinstance(v, Top):
            return self.top('len', [v], 'int')
        self.py_raise('TypeError', 'object has no len(): %r' % (v,), internal=True)

    def bi_isinstance(self, v, t):
        r = self.isinst(v, t)
        if r is None:
            return Top(mk('isinst', self.vt(v), repr(t)), 'bool')
        return boolv(r)

    def bi_issubclass(self, a, b):
        if isinstance(a, Cls) and isinstance(b, Cls):
            return boolv(b in a.mro)
        if isinstance(a, Top) or isinstance(b, Top):
            return self.top('issub', [a, b], 'bool')
        if isinstance(b, Tup):
            return self.any_of([self.bi_issubclass(a, x) for x in b.items])
        return boolv(same(a, b))

    def bi_print(self, *args, **kw):
        self.event('effect', cat='output', what='print')
        return None

    def bi_input(self, *a):
        self.event('effect', cat='ambient', what='input')
        return self.top('input', [], 'str')

    def bi_open(self, *args, **kw):
        self.event('effect', cat='ambient', what='open')
        return self.top('open', list(args), 'obj')

    def bi_id(self, v):
        self.event('effect', cat='ambient', what='id()')
        return self.top('id', [v], 'int')

    def bi_hash(self, v):
        self.event('effect', cat='ambient', what='hash()')
        return self.top('hash', [v], 'int')

    def bi_eval(self, s, *a):
        self.event('effect', cat='eval', what='eval')
        tree = self.source_of(s, 'eval') if not a else None
        if tree is None:
            return self.top('eval', [s], None)
        return self.ev(tree.body)

    def source_of(self, s, mode):
        """parse a source string that is the same constant on all inputs"""
        s = self.use(s)
        if not isinstance(s, str):
            return None
        k = (mode, s.strip())
        if k not in self.parsed:
            try:
                self.parsed[k] = ast.parse(k[1], mode=mode)
            except SyntaxError:
                self.parsed[k] = None
        if self.parsed[k] is None:
            self.py_raise('SyntaxError', 'invalid syntax', internal=True)
        return self.parsed[k]

    def bi_exec(self, s, *a):
        self.event('effect', cat='eval', what='exec')
        tree = self.source_of(s, 'exec') if not a else None
        st = tree.body if tree else []
        if len(st) == 1 and isinstance(st[0], ast.ImportFrom) and [n.name for n in st[0].names] == ['*']:
            k = ('star', self.frame)
            self.store[k] = self.store.get(k, ()) + (st[0].module,)
            return None
        return self.top('exec', [s], None)

    def bi_compile(self, s, *a):
        self.event('effect', cat='eval', what='compile')
        return self.top('compile', [s], None)
    bi_compile = bi_eval

    def bi_callable(self, v):
        r = self.is_callable(self.use(v))
        return boolv(r) if r is not None else self.top('callable', [v], 'bool')

    def bi_getattr(self, o, n, *d):
        if not isinstance(n, str):
            raise Unresolved('getattr name')
        if d:
            try:
                return self.getattr(o, n)
            except SigRaise as e:
                if e.exc.tname == 'AttributeError':
                    return d[0]
                raise
        return self.getattr(o, n)

    def bi_hasattr(self, o, n):
        if isinstance(o, Top):
            return self.top('hasattr', [o], 'bool')
        try:
            self.getattr(o, n)
            return boolv(True)
        except SigRaise as e:
            if e.exc.tname == 'AttributeError':
                return boolv(False)
            raise

    def bi_setattr(self, o, n, v):
        if not isinstance(n, str):
            raise Unresolved('setattr name')
        self.setattr(o, n, v)

    def bi_vars(self, o):
        return self.getattr(o, '__dict__')

    def bi_type(self, v, *a):
        return self.type_of(v)

    def bi_repr(self, v):
        return self.bi_str(v)

    def bi_str(self, *a):
        if not a:
            return ''
        v = self.use(a[0])
        if isinstance(v, str):
            return v
        if v is None:
            return 'None'
        if isinstance(v, S):
            c = pyconst(v)
            if c is not None:
                # numpy prints a double like Python does
                return str(c)
        if isinstance(v, Ref) and v.kind == 'obj':
            m = self.cls_lookup(v.cls, '__str__') or self.cls_lookup(v.cls, '__repr__')
            if m is not None:
                return self.call(self.bind(m, v, v.cls), [], {}, self.cur)
        return self.text('str', [v], isinstance(v, (S, Tup)) or isinstance(v, Ref) and v.kind != 'obj')

    def bi_format(self, v, *a):
        return self.top('format', [v], 'str')

    def bi_int(self, *a):
        if not a:
            return num(0)
        v = self.scalar_arg(a[0])
        if isinstance(v, S):
            if v.k == 'c':
                self.py_raise('TypeError', "can't convert complex to int", internal=True)
            if v.nan == 2:
                self.py_raise('ValueError', 'cannot convert float NaN to integer', internal=True)
            if v.fin == -1 and not v.nan:
                self.py_raise('OverflowError', 'cannot convert float infinity to integer', internal=True)
            return self.cast(v, 'i').cp(np=False)
        if isinstance(v, str):
            try:
                return num(int(v))
            except ValueError as e:
                self.py_raise('ValueError', str(e))
        if isinstance(v, Top):
            return self.top('int', [v], 'int')
        self.py_raise('TypeError', 'int() argument %r' % (v,), internal=True)

    def bi_float(self, *a):
        if not a:
            return num(0.0)
        v = self.scalar_arg(a[0])
        if isinstance(v, S):
            if v.k == 'c':
                self.py_raise('TypeError', "can't convert complex to float", internal=True)
            return self.cast(v, 'f').cp(np=False)
        if isinstance(v, str):
            try:
                return num(float(v))
            except ValueError as e:
                self.py_raise('ValueError', str(e))
        if isinstance(v, Top):
            return self.top('float', [v], 'float')
        self.py_raise('TypeError', 'float() argument %r' % (v,), internal=True)

    def scalar_arg(self, v):
        v = self.use(v)
        if isinstance(v, Ref) and v.kind == 'arr':
            el = self.elems(v)
            if len(el) == 1:
                return self.use(el[0])
            self.py_raise('TypeError', 'only size-1 arrays can be converted to Python scalars', internal=True)
        return v

    def bi_bool(self, *a):
        if not a:
            return boolv(False)
        return self.as_bool(a[0])

    def bi_complex(self, *a):
        re = self.scalar_arg(a[0]) if a else num(0.0)
        if len(a) > 1:
            return cplx(self.cast(re, 'f'), self.cast(self.scalar_arg(a[1]), 'f'))
        return self.cast(re, 'c')

    def bi_list(self, *a):
        return self.new_list(self.iterate(a[0]) if a else [])

    def bi_tuple(self, *a):
        return Tup(self.iterate(a[0]) if a else ())

    def bi_set(self, *a):
        return self.new_set(self.iterate(a[0]) if a else [])

    bi_frozenset = bi_set

    def bi_dict(self, *a, **kw):
        items = []
        if a:
            if isinstance(a[0], Ref) and a[0].kind == 'dict':
                items = list(self.cont(a[0]))
            elif isinstance(a[0], Top):
                raise Unresolved('dict of unknown')
            else:
                for p in self.iterate(a[0]):
                    q = self.iterate(p)
                    if len(q) != 2:
                        self.py_raise('ValueError', 'dict update sequence', internal=True)
                    items.append(tuple(q))
        return self.new_dict(items + list(kw.items()))

    def bi_range(self, *a):
        return self.new_list([num(i) for i in range(*[self.const_index(x) for x in a])])

    def bi_slice(self, *a):
        a = list(a)
        if len(a) == 1:
            return Slc(None, a[0], None)
        return Slc(a[0], a[1], a[2] if len(a) > 2 else None)

    def bi_enumerate(self, v, start=None):
        s = self.const_index(start) if start is not None else 0
        return self.new_iter([Tup((num(i + s), x)) for i, x in enumerate(self.iterate(v))])

    def bi_zip(self, *vs):
        its = [v.id for v in map(self.use, vs) if self.is_iter(v)]
        if len(set(its)) != len(its):
            raise Unresolved('one iterator zipped with itself')
        return self.new_iter([Tup(t) for t in zip(*[self.iterate(v) for v in vs])])

    def bi_map(self, f, *vs):
        return self.new_iter([self.call(f, list(t), {}, self.cur) for t in zip(*[self.iterate(v) for v in vs])])

    def bi_filter(self, f, v):
        out = []
        for i, x in enumerate(self.iterate(v)):
            d, c = self.truth(x if f is None else self.call(f, [x], {}, self.cur))
            if d is None:
                d = self.partition(c, ('filter', i))
            if d:
                out.append(x)
        return self.new_iter(out)

    def bi_reversed(self, v):
        return self.new_iter(self.iterate(v)[::-1])

    def bi_iter(self, v, *sentinel):
        if sentinel:
            raise Unresolved('iter() with a sentinel')
        v = self.use(v)
        return v if self.is_iter(v) else self.new_iter(self.iterate(v))

    def bi_next(self, v, *d):
        if isinstance(v, Ref) and v.kind == 'list':
            seq = self.cont(v)
            if ('it', v.id) not in self.store:
                self.py_raise('TypeError', "'list' object is not an iterator", internal=True)
            if self.store[('it', v.id)] == 'loop':
                raise Unresolved('next() on an iterator inside a loop over it')
            if not seq:
                if d:
                    return d[0]
                self.py_raise('StopIteration', '', internal=True)
            self.store[('l', v.id)] = seq[1:]
            return seq[0]
        raise Unresolved('next()')

    def bi_sorted(self, v, key=None, reverse=None):
        return self.new_list(self.sort_vals(self.iterate(v), key, reverse))

    def sort_vals(self, seq, key, reverse):
        keys = [x if key is None else self.call(key, [x], {}, self.cur) for x in seq]
        rev = reverse is not None and self.truth(reverse)[0]

        def c(x):
            if isinstance(x, str):
                return x
            if isinstance(x, S) and pyconst(x) is not None:
                return pyconst(x)
            if isinstance(x, Tup):
                return tuple(c(y) for y in x.items)
            raise Unresolved('sorting abstract values')
        idx = list(range(len(seq)))
        # insertion sort with decided comparisons where values are abstract
        try:
            ks = [c(k) for k in keys]
            idx.sort(key=lambda i: ks[i], reverse=bool(rev))
        except Unresolved:
            out = []
            for i in idx:
                j = len(out)
                while j > 0:
                    d, t = self.truth(self.compare('Lt', keys[i], keys[out[j - 1]]))
                    if d is None:
                        d = self.partition(t, ('sort', i, out[j - 1]))
                    if not d:
                        break
                    j -= 1
                out.insert(j, i)
            idx = out[::-1] if rev else out
        return [seq[i] for i in idx]

    def bi_abs(self, v):
        v = self.use(v)
        if isinstance(v, S):
            return self.s_abs(v)
        if isinstance(v, Ref) and v.kind == 'arr':
            return self.call_ext('numpy.abs', [v], {}, self.cur)
        if isinstance(v, Ref) and v.kind == 'obj':
            m = self.cls_lookup(v.cls, '__abs__')
            if m is not None:
                return self.call(self.bind(m, v, v.cls), [], {}, self.cur)
        if isinstance(v, Top):
            return Top(mk('abs?', v.t), v.hint)
        self.py_raise('TypeError', 'bad operand for abs()', internal=True)

    def bi_round(self, v, *a):
        v = self.scalar_arg(v)
        c = pyconst(v) if isinstance(v, S) else None
        if c is not None and all(isinstance(x, S) for x in a):
            return num(round(c, *[int(pyconst(x)) for x in a]))
        if isinstance(v, S):
            t = mk('round', v.t)
            t.lo, t.hi = v.lo - 1, v.hi + 1
            return S('f' if a else 'i', t, t.lo, t.hi, v.nan, v.fin)
        return self.top('round', [v], 'float')

    def bi_pow(self, a, b, *c):
        return self.binop('Pow', a, b)

    def bi_divmod(self, a, b):
        return Tup((self.binop('FloorDiv', a, b), self.binop('Mod', a, b)))

    def bi_sum(self, v, start=None):
        if isinstance(v, Top):
            return self.top('sum', [v])
        r = start if start is not None else num(0)
        for x in self.iterate(v):
            r = self.binop('Add', r, x)
        return r

    def minmax(self, a, kw, op):
        if any(isinstance(x, Top) for x in a):
            return self.top('minmax', list(a))
        items = self.iterate(a[0]) if len(a) == 1 else list(a)
        if not items:
            if 'default' in kw:
                return kw['default']
            self.py_raise('ValueError', 'arg is an empty sequence', internal=True)
        key = kw.get('key')
        keyed = [x if key is None else self.call(key, [x], {}, self.cur) for x in items]
        best, bk = items[0], keyed[0]
        for x, k in zip(items[1:], keyed[1:]):
            c = self.compare(op, k, bk)
            d, t = self.truth(c)
            if d is None and isinstance(x, S) and isinstance(best, S) and key is None:
                best = self.s_max(x, best) if op == 'Gt' else self.s_min(x, best)
                bk = best
                continue
            if d is None:
                d = self.partition(t, ('minmax',))
            if d:
                best, bk = x, k
        return best

    def bi_max(self, *a, **kw):
        return self.minmax(a, kw, 'Gt')

    def bi_min(self, *a, **kw):
        return self.minmax(a, kw, 'Lt')

    def bi_any(self, v):
        if isinstance(v, Top):
            return self.top('any', [v], 'bool')
        return self.any_of([self.as_bool(x) for x in self.iterate(v)])

    def bi_all(self, v):
        if isinstance(v, Top):
            return self.top('all', [v], 'bool')
        return self.all_of([self.as_bool(x) for x in self.iterate(v)])

    def bi_object(self):
        return Ref('obj', self.nid(), Cls('object', [], 'builtins', self.nid()))

    def bi_property(self, fget=None, fset=None, *a):
        return Prop(fget, fset)

    def bi_staticmethod(self, f):
        return StaticM(f)

    def bi_classmethod(self, f):
        return ClassM(f)

    def bi_ord(self, c):
        return num(ord(c)) if isinstance(c, str) else self.top('ord', [c], 'int')

    def bi_chr(self, c):
        k = as_int(c)
        return chr(k) if k is not None else self.top('chr', [c], 'str')

    def bi_super(self, cls, obj):
        return SuperV(cls, obj)
