"""C11: results depend on the arguments and the configuration only."""
from .common import *

RULE = ('Effect and state analysis: no operation reads ambient state (clock, random numbers, environment, files, '
        'identities or hashes of objects) or changes process-wide state (warning filters, numeric error modes); and '
        'after the same operation was applied to other inputs, and its result overwritten by the caller, the operation '
        'yields the same value-number picture as from the initial state, and the configuration is untouched.')
FLOOR = 300


def scenarios(tier):
    for label, op, t, f in CASES:
        def run(b, f=f, op=op):
            return body(b, f)
        yield Sc(label, run, 24, 12)
    yield Sc('import', imported)


def ambient(evs):
    return [e for e in evs if e['kind'] == 'effect' and e['cat'] in ('ambient', 'warnfilter')]


def imported(b):
    ev = ambient(b.lab.base_ev)
    b.ob('no ambient effect', not ev, '%s at %s' % (ev[0].get('what'), ev[0]['where']) if ev else '', True)


def config(b):
    return finger(b, b.call(b.get(PROPS_ + '.get_prop_dict')))


def scribble(b, v):
    """the caller overwrites every array of a result"""
    E = b.E
    for r in b.reach(v).values():
        if r.kind == 'arr' and E.store.get(('a', r.id)) is not None and E.arr(r).dtype in ('f', 'i'):
            rec = E.arr(r)
            buf = list(E.store[('b', rec.buf)])
            for i in rec.idx:
                buf[i] = num(77.0 if rec.dtype == 'f' else 77, True)
            E.store[('b', rec.buf)] = tuple(buf)
        elif r.kind == 'list':
            E.store[('l', r.id)] = ()
        elif r.kind == 'dict':
            E.store[('d', r.id)] = ()


def body(b, f):
    E = b.E
    e0 = len(E.events)

    def end():
        ev = ambient(E.events[e0:])
        if ev:
            b.ob('no ambient effect', False, '%s at %s' % (ev[0].get('what'), ev[0]['where']), True)
    b.finals.append(end)
    c = f(b)
    if c is None:
        raise Skip
    sid = b.sid
    b.sid = sid + '~'
    other = f(b)
    b.sid = sid
    cfg = config(b)
    s0 = E.snap()
    o = b.attempt(c.fn)
    b.ob('no ambient effect', True)
    r1 = out_finger(b, o)
    d = unlike(cfg, config(b), 'configuration')
    b.ob('configuration untouched', d is None, d or '')
    wrote = any(e['kind'] in ('globalwrite', 'memo', 'write', 'topwrite') for e in E.events[e0:])
    rewind(b, s0, o)
    E.risk = frozenset()
    inp = {id(x) for x in b.reach(Tup(list(other.args.values()) + list(other.objs.values())))}
    po = b.attempt(other.fn)
    if po.kind == 'ret' and c.fresh:
        scribble(b, po.v)
    r2 = out_finger(b, b.attempt(c.fn))
    d = out_unlike(r1, r2, E.known)
    b.ob('history independent', d is None, d or '')
