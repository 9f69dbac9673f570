"""C02: results and constructed objects own their storage."""
from .common import *

RULE = ('Points-to analysis: the mutable storage (array buffers, containers, objects) reachable from the result of an '
        'operation is intersected with the storage reachable from its arguments and operands and with storage owned by '
        'the library itself, and the storage of each element of a returned collection with that of every other element. '
        'Obligation: all these intersections are empty.')
FLOOR = 250


def scenarios(tier):
    yield from over_catalogue(body, tier)


def body(b, c):
    E = b.E
    src = {}
    for k, v in list(c.args.items()) + list(c.objs.items()):
        for i in b.reach(v):
            src.setdefault(i, k)
    o = b.attempt(c.fn)
    if o.kind != 'ret':
        raise Skip
    out = b.reach(o.v)
    if c.fresh:
        sh = sorted(i for i in out if i in src)
        b.ob('fresh', not sh, 'result shares storage with %s (allocated at %s)' % (
            src[sh[0]], E.alloc_site.get(sh[0], '?')) if sh else '%d cells' % len(out), True)
    lib = sorted(i for i in out if i <= b.lab.base_id and i not in src)
    b.ob('not library state', not lib, 'result exposes library-owned storage (allocated at %s)' %
         (E.alloc_site.get(lib[0], 'import time'),) if lib else '', True)
    parts = elements(b, o.v)
    if len(parts) > 1:
        seen = {}
        bad = None
        for k, p in enumerate(parts):
            for i in b.reach(p):
                if i in seen and seen[i] != k:
                    bad = bad or (seen[i], k, E.alloc_site.get(i, '?'))
                seen[i] = k
        b.ob('elements distinct', bad is None, 'elements %d and %d of the result share storage (allocated at %s)' % bad
             if bad else '%d elements' % len(parts), True)


def elements(b, v):
    """elements of a returned collection of mutable things"""
    v = b.E.use(v)
    if isinstance(v, Tup):
        items = list(v.items)
        if any(isinstance(x, Ref) and x.kind == 'arr' for x in items):
            return [x for x in items if isinstance(x, Ref)]
        return [y for x in items for y in elements(b, x)]
    if isinstance(v, Ref) and v.kind == 'list':
        return [x for x in b.E.cont(v) if isinstance(x, Ref)]
    if isinstance(v, Ref) and v.kind == 'arr' and b.E.arr(v).dtype == 'O':
        return [x for x in b.E.elems(v) if isinstance(x, Ref)]
    return []
