"""C19: geometric differences of sets given by their support values."""
import math
from .c16 import *
from ..catalog import *

RULE = ('Intervals around enumerated configurations decide which directions are active (orientation signs of the hull of the '
        'normalised directions); then identity test of value numbers: an active direction keeps the difference of the support '
        'values, an inactive one has the combination of the values of the active directions whose cone contains it; nothing is '
        'assumed about the order in which the hull lists its faces or the vertices of a face.')
FLOOR = 20


def solve(cols, v):
    """coefficients of v in the basis of the columns (plain numbers)"""
    n = len(v)
    a = [[cols[j][i] for j in range(n)] + [v[i]] for i in range(n)]
    for i in range(n):
        k = max(range(i, n), key=lambda r: abs(a[r][i]))
        a[i], a[k] = a[k], a[i]
        for r in range(n):
            if r != i:
                f = a[r][i] / a[i][i]
                a[r] = [x - f * y for x, y in zip(a[r], a[i])]
    return [a[i][n] / a[i][i] for i in range(n)]


def diff(b, op, dirs, faces, raw, scale, slack, form, width):
    """faces: per direction, None when active, else the active directions spanning the cone it lies in; slack: how far above the
    implied value an inactive direction is"""
    E = b.E
    n, d = len(dirs), len(dirs[0])
    base = list(raw)
    coef = {}
    for i, f in enumerate(faces):
        if f is not None:
            coef[i] = solve([dirs[k] for k in f], dirs[i])
            base[i] = slack * sum(c * raw[k] for c, k in zip(coef[i], f))
    r2 = [b.num('s%d' % i, scale * 0.3, scale * (0.3 + width), np=True) for i in range(n)]
    gap = [b.num('d%d' % i, scale * x, scale * x * (1 + width), np=True) for i, x in enumerate(base)]
    r1 = [E.binop('Add', x, y) for x, y in zip(gap, r2)]
    sh = {'flat': (n,), 'column': (n, 1), 'row': (1, n)}
    a1, a2 = E.new_arr(r1, sh[form[0]], 'f'), E.new_arr(r2, sh[form[1]], 'f')
    l = E.new_arr([num(dirs[j][i], True) for i in range(d) for j in range(n)], (d, n), 'f')
    r = E.use(returns(b, lambda: b.call(SUP + op, a1, a2, l)))
    if isinstance(r, Top):
        b.ob('value', None, 'unknown value')
        return
    b.ob('one value per direction', tuple(b.shape(r)) == (n,), 'shape %s' % (b.shape(r),))
    got = b.els(r)
    g = [Form(x) - Form(y) for x, y in zip(r1, r2)]
    for i, x in enumerate(got):
        if isinstance(x, S) and E.bad([x]) == 2:
            b.ob('finite', False, 'the value in direction %d is not finite' % i)
            return
    for i in range(n):
        w = g[i]
        if i in coef:
            w = Form(num(0.0))
            for c, k in zip(coef[i], faces[i]):
                w = w + Form(num(c)) * g[k]
        state(b, 'support value', scalar(b, got[i], w), 'direction %d' % i)


def plane(n, active, turn=1, shift=0.1, lens=None, uneven=0.0):
    """n directions around the circle; the listed ones are active"""
    dirs = []
    for i in range(n):
        a = shift + turn * (2 * math.pi * i / n + uneven * math.sin(3.0 * i))
        m = (lens or [1.0])[i % len(lens or [1])]
        dirs.append([m * math.cos(a), m * math.sin(a)])
    raw = [math.hypot(*x) * (1.0 + 0.05 * math.cos(2 * i)) for i, x in enumerate(dirs)]
    act = sorted(active)
    faces = [None] * n
    for i in range(n):
        if i not in active:
            lo = max([k for k in act if k < i], default=act[-1])
            hi = min([k for k in act if k > i], default=act[0])
            faces[i] = (lo, hi)
    return dirs, faces, raw


PLANE = {
    'all active': (6, range(6)), 'one inactive': (6, (0, 1, 2, 4, 5)), 'last inactive': (6, (0, 1, 2, 3, 4)),
    'first inactive': (6, (1, 2, 3, 4, 5)), 'two in a row': (8, (0, 1, 4, 5, 6, 7)), 'two apart': (8, (0, 2, 3, 4, 6, 7)),
    'across the end': (8, (1, 2, 3, 4, 5, 6)), 'across the end, longer at the start': (10, (2, 3, 4, 5, 6, 7, 8)),
    'across the end, longer at the end': (10, (1, 2, 3, 4, 5, 6, 7)), 'triangle': (9, (0, 3, 6)), 'triangle, turned': (9, (1, 4, 7)),
    'triangle, turned further': (9, (2, 5, 8)), 'three in a row': (9, (0, 1, 5, 6, 7, 8)),
}
# octahedron-like active directions and inactive ones strictly inside the cones of three of them
OCT = [[1, 0.05, -0.02], [0.03, 1, 0.04], [-0.05, 0.02, 1], [-1, 0.06, 0.03], [0.02, -1, 0.07], [0.04, 0.01, -1]]
IN3 = {'+++': (0, 1, 2), '---': (3, 4, 5), '+-+': (0, 4, 2), '--+': (3, 4, 2), '-+-': (3, 1, 5)}


def space(which, order=None, lens=1.0):
    dirs = [list(map(float, x)) for x in OCT]
    faces = [None] * 6
    for q, w in enumerate(which):
        f = IN3[w]
        k = [(0.5, 0.3, 0.4), (0.2, 0.6, 0.3), (0.4, 0.4, 0.4)][q % 3]
        dirs.append([lens * sum(c * OCT[j][i] for c, j in zip(k, f)) for i in range(3)])
        faces.append(f)
    raw = [1.0, 1.1, 0.95, 1.05, 0.9, 1.15] + [0.0] * len(which)
    if order:
        inv = {o: i for i, o in enumerate(order)}
        dirs = [dirs[o] for o in order]
        raw = [raw[o] for o in order]
        faces = [None if faces[o] is None else tuple(inv[k] for k in faces[o]) for o in order]
    return dirs, faces, raw


def scenarios(tier):
    two, three = 'sup_geom_diff_2d', 'sup_geom_diff_3d'
    N = dict(tmax=40)
    for name, (n, act) in PLANE.items():
        for turn in (1, -1):
            for shift in (0.1, 2.0, 4.0) if tier == 'quick' else (0.1, 0.9, 2.0, 3.0, 4.0, 5.5):
                cfg = plane(n, tuple(act), turn, shift, uneven=0.02)
                yield sc('plane/%s/%+d/%s' % (name, turn, shift), diff, two, *cfg, 1.0, 1.3, ('flat', 'flat'), 1e-6, **N)
        for scale in (1e-3, 1e3):
            cfg = plane(n, tuple(act), 1, 0.3, uneven=0.02)
            yield sc('plane/%s/scale %g' % (name, scale), diff, two, *cfg, scale, 1.3, ('flat', 'flat'), 1e-6, **N)
        cfg = plane(n, tuple(act), 1, 0.3, lens=[1.0, 2.0, 0.5], uneven=0.02)
        yield sc('plane/%s/lengths' % name, diff, two, *cfg, 1.0, 1.2, ('flat', 'flat'), 1e-6, **N)
        for slack in (1.003, 1.05):
            yield sc('plane/%s/near %g' % (name, slack), diff, two, *plane(n, tuple(act), 1, 0.5), 1.0, slack, ('flat', 'flat'), 1e-6, **N)
        yield sc('plane/%s/far' % name, diff, two, *plane(n, tuple(act), 1, 0.5), 1.0, 20.0, ('flat', 'flat'), 1e-6, **N)
        yield sc('plane/%s/very far' % name, diff, two, *plane(n, tuple(act), 1, 0.5), 1.0, 1e4, ('flat', 'flat'), 1e-6, **N)
    for f in (('column', 'flat'), ('flat', 'row'), ('column', 'row'), ('row', 'row')):
        yield sc('plane/form/%s,%s' % f, diff, two, *plane(6, (0, 1, 2, 4, 5), uneven=0.02), 1.0, 1.3, f, 1e-6, **N)
        yield sc('space/form/%s,%s' % f, diff, three, *space(['+++']), 1.0, 1.3, f, 1e-9, **N)
    sets = [[], ['+++'], ['---'], ['+-+', '-+-'], ['+++', '--+', '-+-']]
    for w in sets:
        n = 6 + len(w)
        for tag, order in (('', None), ('backwards', list(range(n))[::-1]), ('mixed', [(i * 5 + 2) % n if n % 5 else (i * 3 + 1) % n for i in range(n)])):
            if order and sorted(order) != list(range(n)):
                continue
            for scale in (1.0, 1e-3, 1e3) if not tag else (1.0,):
                yield sc('space/%s/%s/%g' % (','.join(w), tag, scale), diff, three, *space(w, order), scale, 1.3, ('flat', 'flat'), 1e-9, **N)
        for slack in (1.003, 1.05):
            yield sc('space/%s/near %g' % (','.join(w), slack), diff, three, *space(w), 1.0, slack, ('flat', 'flat'), 1e-9, **N)
        yield sc('space/%s/far' % ','.join(w), diff, three, *space(w), 1.0, 10.0, ('flat', 'flat'), 1e-9, **N)
        yield sc('space/%s/lengths' % ','.join(w), diff, three, *space(w, None, 3.0), 1.0, 1.3, ('flat', 'flat'), 1e-9, **N)
