"""C22: well-formed calls complete."""
from .common import *

RULE = ('Exception-flow analysis: for every catalogued way of calling a public operation with well-formed arguments the '
        'interpreter propagates raised exceptions (the library\'s own and those implied by the transfer functions of '
        'Python and numpy: type, index, key, attribute, broadcasting, unpacking errors).  Obligations: no call ends in '
        'an internal error on an abstract path; calls whose inputs satisfy the documented requirements by construction '
        'are not rejected on every path.')
FLOOR = 300
LOOSE = ('any', 'anysym', 'indefinite', 'wide', 'deg')


def scenarios(tier):
    yield from over_catalogue(body, tier)


def body(b, c):
    loose = any(x in b.sid for x in LOOSE)
    o = b.attempt(c.fn)
    if o.kind == 'raise':
        if o.exc.internal:
            b.ob('no internal error', False, 'raises %s at %s' % (o.exc, o.exc.where))
        else:
            b.ob('no internal error', True, 'rejected with %s' % o.exc)
            if not loose:
                b.ob('accepted', False, 'rejected: %s at %s' % (o.exc, o.exc.where))
        return
    und = None
    for exc, path in o.may:
        if exc.internal:
            if path and b.path_exact(path):
                b.ob('no internal error', False, 'raises %s at %s on a feasible branch' % (exc, exc.where), True)
                return
            und = exc
    b.ob('no internal error', True if und is None else None, 'may raise %s' % und if und else '')
    if not loose:
        b.ob('accepted', True if not o.may else None, 'returns %s' % b.desc(o.v) if not o.may else
             'may be rejected: %s' % o.may[0][0])
