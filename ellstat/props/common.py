"""Shared pieces of the property modules."""
from ..run import Sc
from ..catalog import *
from ..catalog import Skip
from ..forms import Form, differ


def over_catalogue(body, tier, max_runs=24, tmax=12, skip=(), only=None):
    for label, op, t, f in CASES:
        if op in skip or only and not only(label, op):
            continue

        def run(b, f=f, op=op):
            c = f(b)
            if c is None:
                raise Skip
            c.op = op
            return body(b, c)
        yield Sc(label, run, max_runs, tmax)


class Opaque:
    """part of a value that cannot be compared"""


OPAQUE = Opaque()


def finger(b, v, seen=None, depth=0):
    """structural picture of a value in terms of value numbers (independent of heap identities)"""
    E = b.E
    seen = {} if seen is None else seen
    if isinstance(v, PhiV):
        return ('phi', v.cond, finger(b, v.a, dict(seen), depth), finger(b, v.b, dict(seen), depth))
    if isinstance(v, S):
        return ('n', v.k if v.k in 'fic' or v.k == 'b' else '?', v)
    if isinstance(v, Top):
        return ('t', v.t)
    if v is None or isinstance(v, (str, bool, int, float)):
        return ('k', v)
    if isinstance(v, Tup):
        return ('tup', tuple(finger(b, x, seen, depth + 1) for x in v.items))
    if isinstance(v, Ref):
        if v.id in seen:
            return ('seen', seen[v.id])
        seen[v.id] = len(seen)
        if v.kind == 'arr':
            return rec_finger(b, E.store[('a', v.id)], seen, depth)
        if v.kind == 'obj':
            fs = sorted((k[2], w) for k, w in E.store.items() if k[0] == 'f' and k[1] == v.id)
            return ('obj', v.cls.name, tuple((k, finger(b, w, seen, depth + 1)) for k, w in fs))
        if v.kind == 'dict':
            return ('dict', tuple((finger(b, k, seen), finger(b, w, seen)) for k, w in E.cont(v)))
        return (v.kind, tuple(finger(b, x, seen, depth + 1) for x in E.cont(v)))
    return OPAQUE


def rec_finger(b, r, seen, depth):
    if isinstance(r, PhiV):
        return ('phi', r.cond, rec_finger(b, r.a, dict(seen), depth), rec_finger(b, r.b, dict(seen), depth))
    return ('arr', tuple(r.shape), r.dtype, buf_finger(b, b.E.store[('b', r.buf)], r.idx, seen, depth))


def buf_finger(b, buf, idx, seen, depth):
    if isinstance(buf, PhiV):
        return ('phi', buf.cond, buf_finger(b, buf.a, idx, seen, depth), buf_finger(b, buf.b, idx, seen, depth))
    return tuple(finger(b, buf[i], dict(seen), depth + 1) for i in idx)


def out_finger(b, o):
    if o.kind == 'ret':
        return ('ret', bool(o.risk), finger(b, o.v))
    return ('raise', bool(o.risk), o.exc.tname)


def out_unlike(x, y, known=None):
    if x[0] != y[0] or x[0] == 'raise':
        if x[1] or y[1] or x[0] == y[0] and x[2] == y[2]:
            return None
        return '%s %s against %s %s' % (x[0], x[2] if x[0] == 'raise' else '', y[0], y[2] if y[0] == 'raise' else '')
    return unlike(x[2], y[2], 'result', known)


def unlike(x, y, path='result', known=None):
    """None: same (or not comparable); otherwise a description of a definite difference"""
    if x is OPAQUE or y is OPAQUE:
        return None
    if not isinstance(x, tuple) or not isinstance(y, tuple):
        if isinstance(x, (str, int, float, bool, type(None))) and isinstance(y, (str, int, float, bool, type(None))):
            return None if x == y or x != x else '%s: %r against %r' % (path, x, y)
        return None
    if x and y and x[0] == 'n' and y[0] == 'n':
        if x[1] != y[1] and '?' not in (x[1], y[1]):
            return '%s: %s number against %s number' % (path, x[1], y[1])
        a, c = x[2], y[2]
        if a.t is c.t:
            return None
        if a.k == 'c' or c.k == 'c':
            return None
        return '%s: %s against %s' % (path, show(a.t)[:80], show(c.t)[:80]) if differ(a, c, known) else None
    if x and y and (x[0] == 'phi' or y[0] == 'phi'):
        if x[0] == y[0] and x[1] is y[1]:
            return unlike(x[2], y[2], path, known) or unlike(x[3], y[3], path, known)
        return None
    if x and y and (x[0] == 't' or y[0] == 't'):
        return None
    if len(x) != len(y):
        return '%s: %d items against %d' % (path, len(x), len(y))
    for i, (p, q) in enumerate(zip(x, y)):
        d = unlike(p, q, path if i == 0 else '%s.%d' % (path, i), known)
        if d:
            return d
    return None


def rewind(b, s0, out):
    """back to an earlier heap, keeping the facts about values established since"""
    E = b.E
    if out.kind != 'ret':
        return E.restore(s0)
    s1 = E.snap()
    E.restore(s0)
    E.ref, E.known, E.path = s1[1], s1[2], s1[4]
