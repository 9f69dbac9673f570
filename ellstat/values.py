"""Abstract Python values other than scalars."""
from collections import namedtuple
from .dom import *

ArrRec = namedtuple('ArrRec', 'buf idx shape dtype')


class Tup:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Ref:
    """reference to a heap allocation; kind in arr,list,dict,set,obj"""
    __slots__ = ('kind', 'id', 'cls')

    def __init__(self, kind, id, cls=None):
        self.kind, self.id, self.cls = kind, id, cls

    def __repr__(self):
        return '%s#%d' % (self.cls.name if self.cls else self.kind, self.id)


class Top:
    """unknown value; hint is a rough type ('ndarray','str','int','float','bool','list',None)"""
    __slots__ = ('t', 'hint')

    def __init__(self, t, hint=None):
        self.t, self.hint = t, hint

    def __repr__(self):
        return 'Top<%s>' % (self.hint,)


class PhiV:
    __slots__ = ('g', 'cond', 'a', 'b')

    def __init__(self, g, cond, a, b):
        self.g, self.cond, self.a, self.b = g, cond, a, b

    def __repr__(self):
        return 'Phi(%r|%r)' % (self.a, self.b)


class Slc:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class EllipsisV:
    pass


ELL = EllipsisV()


class Fn:
    def __init__(self, node, name, frame, defaults, kwdefaults, cls, mod, qual):
        self.node, self.name, self.frame = node, name, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cls, self.mod, self.qual = cls, mod, qual
        self.abstract = False

    def __repr__(self):
        return 'Fn(%s)' % self.qual


class Bound:
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __repr__(self):
        return 'Bound(%r,%r)' % (self.fn, self.self)


class StaticM:
    def __init__(self, fn):
        self.fn = fn


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class Prop:
    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class Cls:
    def __init__(self, name, bases, mod, id):
        self.name, self.bases, self.mod, self.id = name, bases, mod, id
        self.mro = [self]

    def __repr__(self):
        return 'Cls(%s)' % self.name


class Mod:
    def __init__(self, name, frame):
        self.name, self.frame = name, frame


class Ext:
    """a name of an external (library) module, function or class"""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Ext(%s)' % self.path


class BI:
    """python builtin function or type"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'BI(%s)' % self.name


class Meth:
    """method of a builtin / numpy value"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return 'Meth(%s)' % self.name


class DType:
    __slots__ = ('k', 'name')

    def __init__(self, k, name=None):
        self.k, self.name = k, name or {'f': 'float64', 'i': 'int64', 'b': 'bool', 'O': 'object',
                                       'c': 'complex128', 'U': 'str', 'u': 'uint64'}.get(k, k)

    def __repr__(self):
        return 'dtype(%s)' % self.name


class ExcV:
    def __init__(self, tname, args=(), internal=False, where=None):
        self.tname, self.args, self.internal, self.where = tname, args, internal, where

    def __repr__(self):
        return '%s(%s)' % (self.tname, ', '.join(str(a) for a in self.args))


class Vectorized:
    def __init__(self, fn):
        self.fn = fn


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Memo:
    """a function wrapped by functools.lru_cache / cache"""

    def __init__(self, fn, id):
        self.fn, self.id = fn, id


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Unresolved(Exception):
    def __init__(self, why):
        Exception.__init__(self, why)
        self.why = why


class NeedSplit(Exception):
    def __init__(self, g):
        Exception.__init__(self, repr(g))
        self.g = g


class SigReturn(Exception):
    def __init__(self, v):
        self.v = v


class SigBreak(Exception):
    pass


class SigContinue(Exception):
    pass


class SigRaise(Exception):
    def __init__(self, exc):
        Exception.__init__(self, repr(exc))
        self.exc = exc


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, S):
        return a.t is b.t and a.k == b.k and a.bv == b.bv and a.lo == b.lo and a.hi == b.hi \
            and a.nan == b.nan and a.fin == b.fin and a.np == b.np
    if isinstance(a, Ref):
        return a.id == b.id and a.kind == b.kind
    if isinstance(a, Tup):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, str):
        return a == b
    if isinstance(a, (Ext,)):
        return a.path == b.path
    if isinstance(a, (BI,)):
        return a.name == b.name
    if isinstance(a, DType):
        return a.k == b.k
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Bound):
        return a.fn is b.fn and same(a.self, b.self)
    if isinstance(a, Fn):
        return a.node is b.node and a.frame == b.frame
    if isinstance(a, Top):
        return a.t is b.t and a.hint == b.hint
    if isinstance(a, (int, float, Fraction)):
        return a == b
    if isinstance(a, PhiV):
        return a.g == b.g and same(a.a, b.a) and same(a.b, b.b)
    return False


class PyObj:
    """interpreter-level Python object with known attributes (frames, code objects)"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.attrs = kw

    def __repr__(self):
        return '<%s>' % self.kind
