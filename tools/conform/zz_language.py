import numpy as np
import itertools
import operator
import functools
import math
import copy
import abc
from collections import namedtuple, deque, Counter, defaultdict, OrderedDict, ChainMap
from contextlib import contextmanager
from functools import partial, reduce, singledispatch, wraps
from enum import Enum
from dataclasses import dataclass
A = lambda: np.array([[1., 2., 3.], [4., 5., 6.]])
def f9():
    a = np.zeros((2, 3)); np.copyto(a, A()); b = np.zeros((2, 3)); np.copyto(b, A(), where=A() > 2); return [a.tolist(), b.tolist()]
def g1():
    n = 0
    def inc():
        nonlocal n
        n += 1
        return n
    inc(); inc()
    return n
def g2():
    def gen(k):
        for i in range(k):
            yield i * i
        return
    return [list(gen(3)), sum(gen(4)), next(gen(2))]
def g3():
    if (n := 5) > 3:
        return n
def g4():
    a, *b, c = [1, 2, 3, 4]
    return [a, b, c]
def g5():
    P = namedtuple('P', ['x', 'y'])
    p = P(1, y=2)
    return [p.x, p.y, p[0], list(p), p._replace(x=5).x]
def g6():
    d = defaultdict(list)
    d['a'].append(1)
    d['b'].append(2)
    return [d['a'], sorted(d.keys())]
def g7():
    q = deque([1, 2])
    q.append(3); q.appendleft(0)
    return [q.pop(), q.popleft(), len(q), list(q)]
def g8():
    @contextmanager
    def cm():
        yield 4
    with cm() as v:
        return v
def g9():
    def deco(f):
        @wraps(f)
        def w(*a, **k):
            return f(*a, **k) + 1
        return w
    @deco
    def h(x, y=2): return x + y
    return h(1, y=5)
def g10():
    for i in range(5):
        if i == 7: break
    else:
        return 'else'
def g11():
    try:
        try:
            raise ValueError('x')
        finally:
            y = 1
    except ValueError as e:
        return [y, str(e)]
def g12():
    x = {'a': 1, **{'b': 2}}
    y = [*range(3), *x.values()]
    return [x['b'], y, {k: v for k, v in x.items() if v > 1}.get('b'), x.setdefault('z', 4), x.pop('a'), sorted(x.items())]
def g13():
    return [f'{3:03d}', '{:.2f}'.format(1.234), '%s-%d' % ('a', 3), 'a,b'.split(','), ' x '.strip(), '-'.join(['a', 'b']), 'abc'[::-1], 'abc'.startswith('a'), 'Abc'.lower(), 'aXb'.replace('X', 'y'), 'abc'.find('c'), 'x' * 3]
class B1:
    k = 3
    def __init__(self, v): self.v = v
    def __eq__(self, o): return self.v == o.v
    def __lt__(self, o): return self.v < o.v
    def __add__(self, o): return B1(self.v + o.v)
    def __getitem__(self, i): return self.v * i
    def __len__(self): return 7
    def __iter__(self): return iter([self.v, 2])
    def __call__(self, x): return x + self.v
    def __contains__(self, x): return x == self.v
    def __neg__(self): return B1(-self.v)
    @property
    def w(self): return self.v * 2
    @w.setter
    def w(self, x): self.v = x
    @classmethod
    def mk(cls, v): return cls(v)
    @staticmethod
    def st(v): return v
class B2(B1):
    def __init__(self, v, u):
        super().__init__(v)
        self.u = u
    def __add__(self, o): return super().__add__(o).v
def g14():
    b = B1(2); b.w = 5
    return [b.v, b.w, b == B1(5), B1(1) < B1(2), (B1(1) + B1(2)).v, b[3], len(b), list(b), b(1), 5 in b, (-b).v, B1.mk(4).v, B1.st(3), B2(1, 2) + B2(3, 4), isinstance(B2(1, 2), B1), sorted([B1(3), B1(1)])[0].v, B2.k]
class C1(Enum):
    X = 1
    Y = 2
def g15(): return [C1.X == C1.X, C1.Y.value, C1.X.name, C1.X is C1.Y]
@dataclass
class D1:
    a: int
    b: float = 2.
def g16():
    d = D1(1)
    return [d.a, d.b, d == D1(1, 2.)]
def g17():
    i = 0
    out = []
    while True:
        i += 1
        if i % 2: continue
        out.append(i)
        if i > 5: break
    return out
def g18(): return [reduce(lambda a, b: a * b, [1, 2, 3, 4], 1), list(map(lambda a, b: a + b, [1, 2], [3, 4])), list(filter(None, [0, 1, 2])), any(x > 1 for x in [1, 2]), all([]), max([3, 1], key=lambda v: -v), min(3, 4), sorted([3, 1, 2], reverse=True), list(reversed([1, 2])), list(zip(*[[1, 2], [3, 4]])), divmod(7, 3), round(2.567, 2), abs(-3), pow(2, 3), sum([[1], [2]], [])]
def g19():
    c = Counter([1, 1, 2])
    return [c[1], c.most_common(1)[0][0]]
def g20():
    x = [1, 2, 3, 4]
    x[1:3] = [9]
    del x[0]
    x.insert(0, 7); x.extend([1]); x.remove(9); x.sort(); x.reverse()
    y = x.copy()
    return [x, x.index(4), x.count(1), y.pop(), y]
def g21():
    s = {1, 2} | {3}; t = s & {2, 3}; u = s - t
    return [sorted(s), sorted(t), sorted(u), t <= s, frozenset([1]) == {1}]
def g22():
    x = 3
    return 'a' if x > 2 and not x > 5 else 'b'
def g23():
    it = iter([1, 2, 3])
    a = next(it)
    return [a, list(it), next(it, 'd')]
def g24():
    d = OrderedDict([('a', 1)])
    d.update(b=2)
    return [list(d), list(d.values()), d.get('c', 0), 'a' in d, len(d)]
def g25():
    v = getattr(B1(3), 'v'); b = B1(1); setattr(b, 'q', 4)
    return [v, b.q, hasattr(b, 'zz'), vars(b)['q'], type(b).__name__, b.__class__ is B1, callable(b), b.__dict__.get('v')]
def g26():
    x = 10
    x //= 3; x **= 2; x -= 1; x <<= 1; x |= 1; x ^= 3; x &= 30
    return [x, 7 >> 1, ~3, -7 // 2, -7 % 3, 1 < 2 < 3, 1 is not None, not 0]
@singledispatch
def sd(x): return 'o'
@sd.register(int)
def _sd(x): return 'i'
def g27(): return [sd(1), sd('a')]
def g28():
    def gen():
        x = yield 1
        yield x
    g = gen(); next(g)
    return g.send(4)
def g29():
    def gen():
        yield from [1, 2]
        yield 3
    return list(gen())
def g30():
    try:
        assert 1 == 2, 'm'
    except AssertionError as e:
        return str(e)
    except (ValueError, TypeError):
        return 0
def g31():
    try:
        x = {}['a']
    except KeyError:
        x = 1
    else:
        x = 2
    finally:
        y = 3
    return [x, y]
def g32():
    class L:
        def __init__(self): self.a = [1]
        def __enter__(self): self.a.append(2); return self
        def __exit__(self, *x): self.a.append(3); return False
    l = L()
    with l as m:
        m.a.append(9)
    return m.a
def g33():
    a = A()
    a[0] += 1; a[:, 1] *= 2; a[a > 6] = 0
    b = a.copy(); b.sort(axis=1); c = a.ravel(); c[0] = 50
    return [a.tolist(), b.tolist(), a.T.tolist(), a.sum(), a.max(axis=0).tolist(), a.shape, a.size, a.ndim, a.astype(int).tolist(), a.flat[2], a.reshape(-1)[1], a.argmax(), (a @ a.T).tolist(), a.dot(a.T).tolist(), a[..., None].shape, a[::-1, [0, 2]].tolist(), a.mean(), a.item(0), a.squeeze().shape, a.any(), a.all(axis=0).tolist(), a.prod(), a.min(), a.round().tolist(), a.clip(0, 3).tolist(), a.cumsum().tolist(), a.nonzero()[0].tolist(), a.diagonal().tolist(), a.trace(), a.repeat(2).tolist(), a.take([0, 1]).tolist(), a.swapaxes(0, 1).shape, a.flatten().tolist(), a.fill(3.), a.tolist()]
def g34():
    o = np.empty((2, 2), dtype=object)
    for i in range(4): o.flat[i] = B1(i)
    return [[x.v for x in o.flat], [x.v for x in o.ravel()], [[y.v for y in r] for r in o], o[1, 0].v, np.vectorize(lambda e: e.v)(o).tolist(), [e.v for e in np.nditer(o, flags=['refs_ok'])] if False else 0, o.T.flatten()[1].v, (o == o).all()]
def g35():
    return [math.sqrt(4.), math.pi, math.floor(2.5), math.isnan(float('nan')), math.isinf(float('inf')), math.fabs(-2.), math.hypot(3., 4.), math.prod([2, 3]), math.gcd(4, 6), math.copysign(1., -2.), math.fsum([1., 2.]), math.isclose(1., 1.), math.factorial(4)]
