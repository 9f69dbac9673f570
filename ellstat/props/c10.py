"""C10: silent unless verbose."""
from .common import *

RULE = ('Effect analysis: each public operation is analysed twice from the same abstract state, with verbosity off and on; '
        'output, warning and logging effects are collected on every abstract path.  Obligations: with verbosity off there '
        'is no such effect (importing the library included); switching verbosity on changes neither the value-number '
        'picture of the result nor the exceptions; and asking for the same logger again attaches no further handler.')
FLOOR = 300
LOG = P + 'gen.logging.logging:get_logger'


def effects(evs):
    return [e for e in evs if e['kind'] == 'effect' and e['cat'] in ('output', 'warn', 'fpwarn', 'log') or e['kind'] == 'handler']


def scenarios(tier):
    yield from over_catalogue(body, tier, skip=('Properties.get_is_verbose', 'Properties.get_prop_dict',
                                                'Properties.parse_prop(all)'))
    yield Sc('import', imported)
    yield Sc('get_logger', logger)
    yield Sc('get_logger(two callers)', logger2)
    yield Sc('default configuration', default)


def imported(b):
    ev = effects(b.lab.base_ev)
    b.ob('quiet', not ev, '%s at %s' % (ev[0].get('what'), ev[0]['where']) if ev else '%d modules loaded' %
         len(b.lab.files), True)


def default(b):
    v = b.call(b.get(PROPS_ + '.get_is_verbose'))
    b.decided('verbosity is off by default', v, False)


def handlers(b):
    return {k[1]: len(b.E.cont(v)) for k, v in b.E.store.items()
            if k[0] == 'v' and k[2] == 'handlers' and isinstance(v, Ref)}


def logger(b, k=3):
    hs = []
    for _ in range(k):
        b.call(LOG)
        hs.append(sum(handlers(b).values()))
    b.ob('one handler', hs[-1] <= 1, 'handlers after each request: %s' % hs, True)
    b.ob('a handler is attached', hs[0] >= 1, 'handlers after each request: %s' % hs, True)


def logger2(b):
    # the degenerate-shape branch of is_internal reports through the logger; repeated use keeps one handler per logger
    b.call(b.get(PROPS_ + '.set_is_verbose'), boolv(True))
    a, o = ells(b, 'arr', 2, 'deg')
    x = b.mat('X', 2, 1, 5.0, 6.0)
    for _ in range(3):
        b.attempt(lambda: b.meth(b.get(ELL_), 'is_internal', a, x, 'u'))
    h = handlers(b)
    b.ob('handlers', all(n <= 1 for n in h.values()), 'handlers per logger: %s' % h, True)


def body(b, c):
    E = b.E
    e0 = len(E.events)
    stage = []

    def end():
        ev = effects(E.events[e0:stage[0] if stage else None])
        if ev:
            b.ob('quiet', False, '%s at %s' % (ev[0].get('what'), ev[0]['where']), True)
    b.finals.append(end)
    s0 = E.snap()
    o = b.attempt(c.fn)
    stage.append(len(E.events))
    b.ob('quiet', True)
    r1 = out_finger(b, o)
    rewind(b, s0, o)
    E.risk = frozenset()
    b.call(b.get(PROPS_ + '.set_is_verbose'), boolv(True))
    r2 = out_finger(b, b.attempt(c.fn))
    d = out_unlike(r1, r2, E.known)
    b.ob('verbosity does not matter', d is None, d or '')
