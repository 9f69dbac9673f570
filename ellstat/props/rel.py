"""Relational obligations: two abstract results (or a result and a closed form) denote the same values."""
from .common import *
from ..forms import witness


def scalar(b, x, y, known=None):
    """(status, why) for two abstract numbers: True identical or not separable, False separated, None undecided"""
    known = b.E.known if known is None else known
    if isinstance(x, S) and isinstance(y, S):
        if x.t is y.t:
            return True, ''
        if x.k == 'c' or y.k == 'c':
            return None, 'complex'
        if (x.k == 'b') != (y.k == 'b'):
            return None, 'truth value against number'
    if isinstance(x, S) and x.nan == 2:
        if isinstance(y, S) and y.nan:
            return (True, '') if y.nan == 2 else (None, 'may be NaN')
        return False, 'NaN against %s' % show(Form(y).t)[:100]
    if isinstance(y, S) and y.nan == 2 and isinstance(x, S):
        return (None, 'may be NaN') if x.nan else (False, '%s against NaN' % show(x.t)[:100])
    tx, ty = Form(x).t, Form(y).t
    if tx is ty:
        return True, ''
    cx, cy = cval(tx), cval(ty)
    if cx is not None and cy is not None:
        ok = abs(cx - cy) <= 1e-12 * (1 + abs(cx))
        return ok, '' if ok else '%s against %s' % (show(tx), show(ty))
    d = differ(tx, ty, known)
    if d is None:
        return None, 'cannot compare %s with %s' % (show(tx)[:60], show(ty)[:60])
    if d and not b.path_exact(b.E.path) and witness(tx, ty, b.E.known):
        b.sure = True
    if not d and isinstance(x, S) and x.k == 'b':
        return None, 'not separated from %s' % show(ty)[:80]
    return (not d), '%s against %s' % (show(tx)[:100], show(ty)[:100]) if d else 'identity test'


def join(rs):
    """combine (status, why) pairs: any False -> False; any None -> None"""
    rs = list(rs)
    for s, w in rs:
        if s is False:
            return s, w
    for s, w in rs:
        if s is None:
            return s, w
    return True, ''


def pics(b, x, y, path='result', known=None):
    """(status, why) for two structural pictures made by common.finger"""
    known = b.E.known if known is None else known
    if x is OPAQUE or y is OPAQUE:
        return None, path + ': not comparable'
    if not isinstance(x, tuple) or not isinstance(y, tuple):
        if isinstance(x, (str, int, float, bool, type(None))) and isinstance(y, (str, int, float, bool, type(None))):
            ok = x == y or x != x and y != y
            return ok, '' if ok else '%s: %r against %r' % (path, x, y)
        return (True, '') if x is y else (None, path + ': not comparable')
    if x and y and x[0] == 'n' and y[0] == 'n':
        if x[1] != y[1] and '?' not in (x[1], y[1]):
            return False, '%s: %s number against %s number' % (path, x[1], y[1])
        s, w = scalar(b, x[2], y[2], known)
        return s, '%s: %s' % (path, w) if w else ''
    if x and y and ('phi' in (x[0], y[0])):
        if x[0] == y[0] and x[1] is y[1]:
            return join([pics(b, x[2], y[2], path, known), pics(b, x[3], y[3], path, known)])
        return None, path + ': conditional value'
    if x and y and ('t' in (x[0], y[0])):
        if x[0] == y[0] and x[1] is y[1]:
            return True, ''
        return None, path + ': unknown value'
    if len(x) != len(y):
        return False, '%s: %d items against %d' % (path, len(x), len(y))
    out = []
    for i, (p, q) in enumerate(zip(x, y)):
        r = pics(b, p, q, path if i == 0 else '%s.%d' % (path, i), known)
        if r[0] is False:
            return r
        out.append(r)
    return join(out)


def state(b, name, r, what='', definite=None):
    s, w = r
    if s is False and definite is None and getattr(b, 'sure', False):
        definite = True
    b.sure = False
    b.ob(name, s, '%s %s' % (what, w) if what else w, definite)
    return s


def same(b, name, x, y, what='', definite=None):
    """obligation: the two values have the same picture"""
    return state(b, name, pics(b, finger(b, x), finger(b, y), 'value'), what, definite)


def agree(b, name, v, want, shape=None, what='', definite=None):
    """obligation: v has the given shape and its elements (row-major) are the wanted closed forms"""
    v = b.E.use(v)
    if isinstance(v, Top):
        b.ob(name, None, what + ' unknown value')
        return None
    sh = b.shape(v)
    if shape is not None and sh is not None and tuple(sh) != tuple(shape):
        b.ob(name, False, '%s shape %s, required %s' % (what, sh, tuple(shape)), definite)
        return False
    els = b.els(v)
    if len(els) != len(want):
        b.ob(name, False, '%s %d elements, required %d' % (what, len(els), len(want)), definite)
        return False
    rs = []
    for i, (x, y) in enumerate(zip(els, want)):
        if not isinstance(x, S):
            rs.append((False if isinstance(x, Ref) and x.kind == 'arr' else None, 'element %d is not a number: %r' % (i, x)))
            continue
        s, w = scalar(b, x, y)
        rs.append((s, 'element %d: %s' % (i, w) if w else ''))
    return state(b, name, join(rs), what, definite)


def always(b, name, v, want, what=''):
    """obligation: the truth value v is `want` on the whole box"""
    v = b.E.use(v)
    if isinstance(v, Ref) and v.kind == 'arr':
        el = b.els(v)
        if len(el) != 1:
            b.ob(name, False, '%s %d truth values instead of one' % (what, len(el)))
            return
        v = el[0]
    if not isinstance(v, S):
        b.ob(name, None if isinstance(v, Top) else False, '%s %r' % (what, v))
        return
    d, c = b.E.truth(v)
    if d is not None:
        b.ob(name, d == want, '%s is %s, required %s' % (what, d, want))
        return
    state(b, name, scalar(b, boolt(c), boolv(want)), what)


def returns(b, f, name='completes', what=''):
    """run f; a raise is a violation of `name` unless it may depend on undecided facts"""
    o = b.attempt(f)
    if o.kind == 'raise':
        ok = None if o.risk and not b.risk_exact(o.risk) else False
        b.ob(name, ok, '%s raises %s at %s' % (what, o.exc, o.exc.where))
        raise Stop
    return o.v


class Stop(Exception):
    """scenario ends early (already recorded)"""


def sc(sid, f, *a, runs=24, tmax=12, narrow=0.0):
    def run(b):
        b.narrow = narrow
        try:
            f(b, *a)
        except Stop:
            pass
    return Sc(sid, run, runs, tmax)


def flat(b, v):
    return b.els(v)


def fm(b, v):
    """matrix of Forms of a 2-d abstract array"""
    sh = b.shape(v)
    e = [Form(x) for x in b.els(v)]
    if len(sh) == 1:
        return e
    return [e[i * sh[1]:(i + 1) * sh[1]] for i in range(sh[0])]


def tr(m):
    return [list(r) for r in zip(*m)]


def mm(a, c):
    """matrix product of Form matrices (vectors are lists)"""
    if not isinstance(a[0], list):
        return mm([a], c)[0]
    if not isinstance(c[0], list):
        return [r[0] for r in mm(a, [[x] for x in c])]
    out = []
    for r in a:
        row = []
        for j in range(len(c[0])):
            s = Form(0)
            for k, x in enumerate(r):
                s = s + x * c[k][j]
            row.append(s)
        out.append(row)
    return out


def dot(a, c):
    s = Form(0)
    for x, y in zip(a, c):
        s = s + x * y
    return s


def unroll(m):
    return [x for r in m for x in r] if m and isinstance(m[0], list) else list(m)
