"""C01: no operation modifies what the caller passed in."""
from .common import *

RULE = ('Effect analysis: every storage cell reachable from the caller-owned arguments and operands is labelled; the '
        'interpreter propagates labels through views, slices, containers and calls, and records each in-place store, '
        'in-place ufunc, reshape, sort, append, delete or attribute store that hits labelled storage on any abstract '
        'path.  Obligation: no such event.')
FLOOR = 300


def scenarios(tier):
    yield from over_catalogue(body, tier)


def body(b, c):
    E = b.E
    for k, v in c.args.items():
        E.mark(v, 'argument ' + k)
    for k, v in c.objs.items():
        E.mark(v, 'operand ' + k)
    e0 = len(E.events)

    def end():
        ws = [e for e in E.events[e0:] if e['kind'] == 'write' and e['label'].split(' ')[0] in ('argument', 'operand')
              and e['label'] not in c.allow]
        if ws:
            e = ws[0]
            b.ob('unchanged', False, '%s: %s at %s' % (e['label'], e['what'], e['where']), True)
    b.finals.append(end)
    b.attempt(c.fn)
    b.ob('unchanged', True, '%d arguments, %d operands' % (len(c.args), len(c.objs)))
