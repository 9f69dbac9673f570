"""C18: surface meshes, their edges and refinements, row sorting, points from support values."""
from ..catalog import *
from .rel import *

RULE = ('Constant propagation for the combinatorial part over enumerated meshes (vertices stay symbolic boxes): edges are exactly the pairs '
        'of neighbouring vertices, attached to exactly the faces containing them, with the right direction; a refinement keeps '
        'the given vertices, adds exactly the midpoints (value numbers) of the split edges and replaces every face by the four '
        'through them, of the same orientation; sphere and tube triangulations are closed, '
        'consistently oriented and have valid integer indices; sorting rows gives a sorted permutation with the right index vectors; '
        'boundary points satisfy the equations of their support values (identity test).')
FLOOR = 100

TETRA = [[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]]
OCTA = [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1], [5, 2, 1], [5, 3, 2], [5, 4, 3], [5, 1, 4]]
MESHES = {'triangle': [[0, 1, 2]], 'flat': [0, 1, 2], 'turned': [[2, 0, 1]], 'reversed': [[2, 1, 0]], 'pair': [[0, 1, 2], [2, 1, 3]],
          'pair2': [[3, 2, 1], [0, 1, 2]], 'strip': [[0, 1, 2], [1, 3, 2], [2, 3, 4]], 'fan': [[0, 1, 2], [0, 2, 3], [0, 3, 4]],
          'apart': [[0, 1, 2], [3, 4, 5]], 'tetra': TETRA, 'tetra2': [[3, 0, 2], [2, 1, 3], [0, 1, 2], [1, 0, 3]], 'octa': OCTA}


def ints(b, v, name):
    """nested lists of the integers of an array; None when not known"""
    v = b.E.use(v)
    if not (isinstance(v, Ref) and v.kind == 'arr'):
        b.ob(name + ': array', None if isinstance(v, Top) else False, repr(v)[:80])
        raise Stop
    sh = b.shape(v)
    els = b.els(v)
    out = []
    for e in els:
        if not isinstance(e, S) or e.lo != e.hi:
            b.ob(name + ': known', None, 'not a constant: %r' % (e,))
            raise Stop
        out.append(int(e.lo))
    k = b.E.arr(v).dtype
    b.ob(name + ': integers', k in 'iu', 'kind %s' % k)
    if len(sh) == 2:
        return [out[i * sh[1]:(i + 1) * sh[1]] for i in range(sh[0])]
    return out


def bools(b, v, name):
    out = []
    for e in b.els(v):
        t = b.E.truth(e)[0] if isinstance(e, (S,)) else None
        if t is None:
            b.ob(name + ': known', None, 'not a constant: %r' % (e,))
            raise Stop
        out.append(bool(t))
    return out


def rows3(f):
    return f if isinstance(f[0], list) else [f]


def edges_of(f):
    return {tuple(sorted(p)) for t in rows3(f) for p in ((t[0], t[1]), (t[1], t[2]), (t[0], t[2]))}


def face_info(b, f):
    r = b.E.iterate(returns(b, lambda: b.call(TRI + 'get_face_edge_info', b.arr(f))))
    b.ob('four values', len(r) == 4, '%d values' % len(r))
    faces = rows3(f)
    b.ob('faces', ints(b, r[0], 'faces') == faces, 'faces changed')
    e = ints(b, r[1], 'edges')
    b.ob('edges', len(e) == len(edges_of(f)) and {tuple(sorted(p)) for p in e} == edges_of(f), 'edges %s' % (e,))
    ind, num_ = ints(b, r[2], 'face numbers'), ints(b, r[3], 'face counts')
    b.ob('one count per edge', len(num_) == len(e), '%d counts for %d edges' % (len(num_), len(e)))
    b.ob('counts', sum(num_) == len(ind) == 3 * len(faces), 'counts %s, %d face numbers' % (num_, len(ind)))
    k = 0
    for p, n in zip(e, num_):
        want = sorted(i for i, t in enumerate(faces) if set(p) <= set(t))
        b.ob('faces at edge %s' % p, sorted(ind[k:k + n]) == want, 'faces %s, required %s' % (ind[k:k + n], want))
        k += n


def edge_map(b, f):
    r = b.E.iterate(returns(b, lambda: b.call(TRI + 'map_face_2_edge', b.arr(f))))
    b.ob('three values', len(r) == 3, '%d values' % len(r))
    e = ints(b, r[0], 'edges')
    b.ob('edges', len(e) == len(edges_of(f)) and {tuple(sorted(p)) for p in e} == edges_of(f), 'edges %s' % (e,))
    against(b, rows3(f), e, ints(b, r[1], 'face to edge'), bools(b, r[2], 'direction'))


def against(b, faces, e, f2e, dirs):
    f2e = f2e if f2e and isinstance(f2e[0], list) else [f2e]
    b.ob('map', len(f2e) == len(faces) and len(dirs) == 3 * len(faces), '%d rows for %d faces' % (len(f2e), len(faces)))
    if len(f2e) != len(faces):
        return
    for i, t in enumerate(faces):
        for j, (u, v) in enumerate(((0, 1), (1, 2), (0, 2))):
            k = f2e[i][j]
            p = e[k] if 0 <= k < len(e) else None
            ok = p is not None and set(p) == {t[u], t[v]}
            b.ob('face %d edge %d' % (i, j), ok, 'edge %s for vertices %s' % (p, (t[u], t[v])))
            if ok:
                b.ob('face %d direction %d' % (i, j), dirs[3 * i + j] == (p == [t[u], t[v]]), 'edge %s, vertices %s, direction %s' % (
                    p, (t[u], t[v]), dirs[3 * i + j]))


def corners(b, n, how='box'):
    """vertices with edges between one and three long"""
    base = [[0., 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2], [-2, 0, 0], [0, -2, 0]]
    return b.E.new_arr([b.num('V[%d,%d]' % (i, j), base[i][j], base[i][j] + 0.05, np=True) for i in range(n) for j in range(3)], (n, 3), 'f')


def verts(b, v):
    els = b.els(v)
    sh = b.shape(v)
    return [[Form(x) for x in els[3 * i:3 * i + 3]] for i in range(sh[0])]


def split(faces, v):
    """uniform refinement: (vertices, faces) with vertices as keys"""
    pos = dict(enumerate(v))
    mids = {}
    out = []
    for t in faces:
        m = []
        for p in ((t[0], t[1]), (t[1], t[2]), (t[0], t[2])):
            k = tuple(sorted(p))
            if k not in mids:
                mids[k] = len(pos)
                pos[mids[k]] = [(x + y) * Form(0.5) for x, y in zip(pos[p[0]], pos[p[1]])]
            m.append(mids[k])
        out += [[t[0], m[0], m[2]], [m[0], t[1], m[1]], [m[2], m[1], t[2]], [m[0], m[1], m[2]]]
    return [pos[i] for i in range(len(pos))], out


def cyc(t):
    k = t.index(min(t))
    return tuple(t[k:] + t[:k])


def match(b, got, want, name):
    """number the vertices of `got` by those of `want` (as terms); None when they do not correspond"""
    key = lambda p: tuple(id((x if isinstance(x, Form) else Form(x)).t) for x in p)
    num_ = {}
    for i, p in enumerate(want):
        num_.setdefault(key(p), []).append(i)
    res = []
    bad = []
    for i, p in enumerate(got):
        k = num_.get(key(p))
        if k:
            res.append(k.pop(0))
        else:
            res.append(None)
            bad.append(i)
    if bad:
        # not the same normal form: compare as terms
        left = [i for ks in num_.values() for i in ks]
        for i in bad:
            for j in left:
                if all(scalar(b, S('f', x.t, -1e9, 1e9), y)[0] for x, y in zip(got[i], want[j])):
                    res[i] = j
                    left.remove(j)
                    break
    ok = None not in res
    b.ob(name, ok, 'vertices %s are no midpoints of split edges' % [i for i, r in enumerate(res) if r is None])
    if not ok:
        raise Stop
    return res


def refine(b, f, steps, stat, how):
    n = 1 + max(max(t) for t in rows3(f))
    v = corners(b, n)
    args = [v, b.arr(f), num(0.0), num(steps)]
    if how == 'limit':
        # edges of length 1.9..3: halved until shorter than the limit
        args = [v, b.arr(f), num({1: 1.5, 2: 0.75, 0: 3.5}[steps])]
    if stat:
        args += [num(float('inf'))] if how == 'limit' else []
        args += [None, boolv(True)]
    vs = verts(b, v)
    r = b.E.iterate(returns(b, lambda: b.call(TRI + 'shrink_face_tri', *args)))
    b.ob('values', len(r) == (6 if stat else 2), '%d values' % len(r))
    faces = rows3(f)
    hist = [(len(vs), len(edges_of(faces)), len(faces))]
    shrunk = []
    for _ in range(steps):
        shrunk.append(len(edges_of(faces)))
        vs, faces = split(faces, vs)
        hist.append((len(vs), len(edges_of(faces)), len(faces)))
    got = verts(b, r[0])
    b.ob('number of vertices', len(got) == len(vs), '%d vertices, required %d' % (len(got), len(vs)))
    gf = ints(b, r[1], 'faces')
    gf = rows3(gf)
    b.ob('number of faces', len(gf) == len(faces), '%d faces, required %d' % (len(gf), len(faces)))
    if len(got) != len(vs):
        return
    for i in range(n):
        agree(b, 'vertex %d kept' % i, b.E.new_arr(b.els(r[0])[3 * i:3 * i + 3], (3,), 'f'), b.els(v)[3 * i:3 * i + 3])
    to = match(b, got, vs, 'new vertices')
    ok = all(0 <= k < len(to) for t in gf for k in t)
    b.ob('valid indices', ok, 'indices out of range')
    if not ok:
        return
    have = sorted(cyc([to[k] for k in t]) for t in gf)
    want = sorted(cyc(t) for t in faces)
    b.ob('faces', have == want, 'faces %s, required %s' % ([t for t in have if t not in want][:3], [t for t in want if t not in have][:3]))
    if stat:
        e = ints(b, r[3], 'edges')
        b.ob('edges', len(e) == len(edges_of(gf)) and {tuple(sorted(p)) for p in e} == edges_of(gf), 'edges are not those of the faces')
        against(b, gf, e, ints(b, r[4], 'face to edge'), bools(b, r[5], 'direction'))
        d = dict(b.E.cont(r[2]))
        if steps and 'max_edge_length_vec' in d:
            vv, ff, longest = verts(b, v), rows3(f), []
            for _ in range(steps):
                ls = []
                for i, j in sorted(edges_of(ff)):
                    t = Form(0)
                    for x, y in zip(vv[i], vv[j]):
                        t = t + (x - y) * (x - y)
                    ls.append(S('f', t.sqrt().t, 0.0, 1e9))
                longest.append(b.E.use(b.call(Ext('numpy.max'), b.E.new_arr(ls, (len(ls),), 'f'))))
                vv, ff = split(ff, vv)
            agree(b, 'max_edge_length_vec', d['max_edge_length_vec'], longest)
        for k, w in (('n_steps', [steps]), ('n_vert_vec', [h[0] for h in hist]), ('n_edge_vec', [h[1] for h in hist]),
                     ('n_face_vec', [h[2] for h in hist]), ('n_edges_to_shrink_vec', shrunk)):
            if k not in d:
                b.ob(k, False, 'missing')
            else:
                x = b.E.use(d[k])
                agree(b, k, x, [Form(u) for u in w])


def adjusted(b, f, steps):
    """the adjustment is applied to every new vertex, once, and not to the given ones"""
    n = 1 + max(max(t) for t in rows3(f))
    v = corners(b, n)
    shift = b.E.modules  # noqa
    fn = Ext('numpy.negative')
    r = b.E.iterate(returns(b, lambda: b.call(TRI + 'shrink_face_tri', v, b.arr(f), num(0.0), num(steps), fn)))
    vs = verts(b, v)
    faces = rows3(f)
    for _ in range(steps):
        k = len(vs)
        vs, faces = split(faces, vs)
        vs = vs[:k] + [[Form(0) - x for x in p] for p in vs[k:]]
    got = verts(b, r[0])
    b.ob('number of vertices', len(got) == len(vs), '%d vertices, required %d' % (len(got), len(vs)))
    if len(got) != len(vs):
        return
    to = match(b, got, vs, 'new vertices')
    have = sorted(cyc([to[k] for k in t]) for t in rows3(ints(b, r[1], 'faces')))
    b.ob('faces', have == sorted(cyc(t) for t in faces), 'faces differ')


def partial(b, f, base, limit, stat, width=0.01):
    """faces with an edge longer than the limit are replaced by four, the others stay"""
    n = len(base)
    v = b.E.new_arr([b.num('V[%d,%d]' % (i, j), base[i][j], base[i][j] + width, np=True) for i in range(n) for j in range(3)], (n, 3), 'f')
    args = [v, b.arr(f), num(limit), num(1)] + ([None, boolv(True)] if stat else [])
    r = b.E.iterate(returns(b, lambda: b.call(TRI + 'shrink_face_tri', *args)))
    long_ = {p for p in edges_of(f) if sum((x - y) ** 2 for x, y in zip(base[p[0]], base[p[1]])) > limit ** 2}
    torn = [t for t in f if edges_of([t]) & long_]
    kept = [t for t in f if not edges_of([t]) & long_]
    vs, faces = split(torn, verts(b, v))
    got = verts(b, r[0])
    b.ob('number of vertices', len(got) == len(vs), '%d vertices, required %d' % (len(got), len(vs)))
    if len(got) != len(vs):
        return
    to = match(b, got, vs, 'new vertices')
    have = [cyc([to[k] for k in t]) for t in ints(b, r[1], 'faces')]
    want = [cyc(list(t)) for t in faces + kept]
    b.ob('faces', all(have.count(t) == 1 for t in want), 'missing %s' % [t for t in want if have.count(t) != 1][:3])
    seam = edges_of(torn) & edges_of(kept) if kept and torn else set()
    rest = [t for t in have if t not in want]
    ok = len(rest) == len(seam) and all(sum(k < n for k in t) == 2 and tuple(sorted(k for k in t if k < n)) in seam for t in rest)
    b.ob('seams', ok, 'faces %s, seams %s' % (rest[:4], sorted(seam)[:4]))
    if stat:
        gf = ints(b, r[1], 'faces')
        e = ints(b, r[3], 'edges')
        against(b, gf, e, ints(b, r[4], 'face to edge'), bools(b, r[5], 'direction'))


def until(b, f, base, limit, steps):
    """repeated refinement ends with no edge above the limit (steps permitting) and consistent maps"""
    v = b.arr([[num(float(x)) for x in p] for p in base])
    args = [v, b.arr(f), num(limit), num(float('inf') if steps is None else steps), None, boolv(True)]
    r = b.E.iterate(returns(b, lambda: b.call(TRI + 'shrink_face_tri', *args)))
    pts = []
    els = b.els(r[0])
    for i in range(len(els) // 3):
        if not all(isinstance(x, S) and x.hi - x.lo < 1e-9 for x in els[3 * i:3 * i + 3]):
            b.ob('vertices', None, 'unknown')
            return
        pts.append([x.lo for x in els[3 * i:3 * i + 3]])
    gf = ints(b, r[1], 'faces')
    e = ints(b, r[3], 'edges')
    b.ob('valid indices', all(0 <= k < len(pts) for t in gf for k in t), 'indices out of range')
    b.ob('edges', {tuple(sorted(p)) for p in e} == edges_of(gf), 'edges are not those of the faces')
    against(b, gf, e, ints(b, r[4], 'face to edge'), bools(b, r[5], 'direction'))
    cnt = {}
    for t in gf:
        for p in ((t[0], t[1]), (t[1], t[2]), (t[0], t[2])):
            k = tuple(sorted(p))
            cnt[k] = cnt.get(k, 0) + 1
    if all(sum(set(p) <= set(t) for t in f) == 2 for p in edges_of(f)):
        b.ob('closed', all(c == 2 for c in cnt.values()), 'an edge does not belong to two faces')
    ls = [sum((x - y) ** 2 for x, y in zip(pts[i], pts[j])) ** 0.5 for i, j in cnt]
    n = dict(b.E.cont(r[2]))['n_steps']
    if steps is None:
        b.ob('limit kept', max(ls) <= limit * (1 + 1e-9), 'an edge of length %g' % max(ls))
    else:
        b.ob('steps', isinstance(n, S) and n.hi <= steps, 'steps %r' % (n,))


# ------------------------------------------------------------------------------------------- spheres
def closed(b, f, n, name=''):
    """closed, consistently oriented, every vertex used, spherical"""
    ok = all(0 <= k < n for t in f for k in t)
    b.ob(name + 'valid indices', ok, 'indices out of range')
    b.ob(name + 'all vertices used', {k for t in f for k in t} == set(range(n)), 'unused vertices')
    arcs = {}
    for t in f:
        for p in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
            arcs[p] = arcs.get(p, 0) + 1
    und = {tuple(sorted(p)) for p in arcs}
    b.ob(name + 'closed', all(sum(arcs.get(q, 0) for q in (p, p[::-1])) == 2 for p in und), 'an edge does not belong to two faces')
    b.ob(name + 'oriented', all(c == 1 for c in arcs.values()), 'neighbouring faces are oriented differently')
    b.ob(name + 'sphere', n - len(und) + len(f) == 2, 'Euler number %d' % (n - len(und) + len(f)))


def unit(b, v, name, tol=1e-9):
    sh = b.shape(v)
    els = b.els(v)
    b.ob(name + 'three coordinates', len(sh) == 2 and sh[1] == 3, 'shape %s' % (sh,))
    worst = 0.0
    for i in range(sh[0]):
        t = 0.0
        for x in els[3 * i:3 * i + 3]:
            if not isinstance(x, S) or x.hi - x.lo > 1e-9:
                b.ob(name + 'unit length', None, 'vertex %d unknown' % i)
                return None
            t += x.lo * x.lo
        worst = max(worst, abs(t - 1))
    b.ob(name + 'unit length', worst < tol, 'squared length off by %g' % worst)
    return [[x.lo for x in els[3 * i:3 * i + 3]] for i in range(sh[0])]


def outward(b, pts, f, name=''):
    """every face is seen from outside in the same sense; the faces are nearly congruent"""
    vols = []
    for i, j, k in f:
        p, q, r = pts[i], pts[j], pts[k]
        vols.append(p[0] * (q[1] * r[2] - q[2] * r[1]) - p[1] * (q[0] * r[2] - q[2] * r[0]) + p[2] * (q[0] * r[1] - q[1] * r[0]))
    b.ob(name + 'faces around the center', all(x > 0 for x in vols) or all(x < 0 for x in vols), 'a face is turned or degenerate')
    b.ob(name + 'even faces', max(map(abs, vols)) < 2.5 * min(map(abs, vols)), 'volumes from %g to %g' % (min(map(abs, vols)), max(map(abs, vols))))


def ico(b):
    r = b.E.iterate(returns(b, lambda: b.call(TRI + 'icosahedron')))
    pts = unit(b, r[0], '')
    f = ints(b, r[1], 'faces')
    b.ob('counts', b.shape(r[0])[0] == 12 and len(f) == 20, '%d vertices, %d faces' % (b.shape(r[0])[0], len(f)))
    closed(b, f, 12)
    if pts:
        outward(b, pts, f)
        ls = [sum((x - y) ** 2 for x, y in zip(pts[i], pts[j])) for i, j in edges_of(f)]
        b.ob('equal edges', max(ls) - min(ls) < 1e-9, 'edge lengths differ')


def sphere(b, depth):
    r = b.E.iterate(returns(b, lambda: b.call(TRI + 'sphere_tri', num(depth))))
    pts = unit(b, r[0], '')
    f = ints(b, r[1], 'faces')
    n = 10 * 4 ** depth + 2
    b.ob('counts', b.shape(r[0])[0] == n and len(f) == 20 * 4 ** depth, '%d vertices, %d faces' % (b.shape(r[0])[0], len(f)))
    closed(b, f, b.shape(r[0])[0])
    if pts:
        outward(b, pts, f)


def sphere_ext(b, n, grid):
    a = [num(3), num(n)] + ([boolv(grid)] if grid is not None else [])
    r = b.E.iterate(returns(b, lambda: b.call(TRI + 'sphere_tri_ext', *a)))
    depth = 1
    while 10 * 4 ** depth + 2 < n:
        depth += 1
    pts = unit(b, r[0], '', 1e-7)
    f = ints(b, r[1], 'faces')
    b.ob('enough points', b.shape(r[0])[0] >= n, '%d points for %d' % (b.shape(r[0])[0], n))
    b.ob('not more than needed', b.shape(r[0])[0] == 10 * 4 ** depth + 2, '%d points for %d' % (b.shape(r[0])[0], n))
    closed(b, f, b.shape(r[0])[0])
    if pts:
        outward(b, pts, f)


def circle_ext(b, n, grid):
    a = [num(2), num(n)] + ([boolv(grid)] if grid is not None else [])
    r = returns(b, lambda: b.call(TRI + 'sphere_tri_ext', *a))
    f = None
    if grid:
        r = b.E.iterate(r)
        b.ob('two values', len(r) == 2, '%d values' % len(r))
        r, f = r[0], ints(b, r[1], 'faces')
    b.ob('points', tuple(b.shape(r)) == (n, 2), 'shape %s' % (b.shape(r),))
    els = b.els(r)
    pts = []
    for i in range(n):
        if not all(isinstance(x, S) and x.hi - x.lo < 1e-9 for x in els[2 * i:2 * i + 2]):
            b.ob('unit length', None, 'unknown')
            return
        pts.append([x.lo for x in els[2 * i:2 * i + 2]])
    b.ob('unit length', all(abs(x * x + y * y - 1) < 1e-7 for x, y in pts), 'a point is off the circle')
    b.ob('no zero coordinates', all(x and y for x, y in pts), 'a coordinate is zero')
    if n > 1:
        d = [(p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 for p, q in zip(pts, pts[1:] + pts[:1])]
        b.ob('even', max(d) - min(d) < 1e-7, 'uneven points')
    if f is not None:
        b.ob('segments', f == [[i, (i + 1) % n] for i in range(n)], 'segments %s' % f)


# ------------------------------------------------------------------------------------------- tubes
def tube(b, ne, nt):
    f = ints(b, returns(b, lambda: b.call(TRI + 'ell_tube_2_tri', num(ne), num(nt))), 'faces')
    b.ob('number of faces', len(f) == 2 * ne * (nt - 1), '%d faces' % len(f))
    ok = all(0 <= k < ne * nt for t in f for k in t)
    b.ob('valid indices', ok, 'indices out of range')
    b.ob('three different corners', all(len(set(t)) == 3 for t in f), 'degenerate face')
    if not ok:
        return
    near = lambda i, j: i == j or (i - j) % ne in (1, ne - 1)
    good = all(len({k // ne for k in t}) == 2 and max(k // ne for k in t) - min(k // ne for k in t) == 1 and
               all(near(p % ne, q % ne) for p in t for q in t) for t in f)
    b.ob('neighbours', good, 'a face joins points that are no neighbours')
    cnt = {}
    for t in f:
        for p in ((t[0], t[1]), (t[1], t[2]), (t[0], t[2])):
            k = tuple(sorted(p))
            cnt[k] = cnt.get(k, 0) + 1
    bad = []
    if ne > 2:
        for (p, q), c in cnt.items():
            rim = p // ne == q // ne and p // ne in (0, nt - 1)
            if c != (1 if rim else 2):
                bad.append((p, q, c))
        for s in (0, nt - 1):
            for i in range(ne):
                if tuple(sorted((s * ne + i, s * ne + (i + 1) % ne))) not in cnt:
                    bad.append((s, i))
    b.ob('closed tube', not bad, 'edges %s' % bad[:4])
    if ne > 2:
        one = [(t[i], t[(i + 1) % 3]) for t in f for i in range(3)]
        b.ob('oriented alike', len(set(one)) == len(one), 'an edge is run through twice in the same direction')


def rings(b, n, m):
    r = ints(b, returns(b, lambda: b.call(TRI + 'ell_tube_discr_tri', num(n), num(m))), 'polygons')
    b.ob('polygons', r == [[i * n + j for j in range(n)] + [i * n] for i in range(m)], 'polygons %s' % r)


# ------------------------------------------------------------------------------------------- comparison
def faces_in(b, f, g):
    r = bools(b, returns(b, lambda: b.call(TRI + 'is_face', b.arr(f), b.arr(g))), 'verdicts')
    b.ob('count', len(r) == len(g), '%d verdicts for %d faces' % (len(r), len(g)))
    have = {frozenset(t) for t in f}
    for i, (x, t) in enumerate(zip(r, g)):
        b.ob('face %d' % i, x == (frozenset(t) in have), 'face %s: %s' % (t, x))


BASE = [[0., 0, 0], [3, 0, 1], [0, 2, 2], [1, 1, 5], [7, 7, 9], [4, 9, -3]]


def equal_tri(b, f, perm, turn, order, dv, df, want):
    """meshes with renumbered vertices, turned and reordered faces are equal; others are not"""
    n = 1 + max(max(t) for t in f)
    e = b.num('e', 1e-7, 1e-6) if dv == 'tiny' else b.num('e', 0.2, 0.3)
    v = [[num(x) for x in p] for p in BASE[:n]]
    w = [list(p) for p in v]
    if dv:
        w[n - 1][1] = b.E.binop('Add', w[n - 1][1], e)
    w = [w[p] for p in perm[:n]]
    at = {p: i for i, p in enumerate(perm[:n])}
    g = [[at[k] for k in t] for t in f]
    g = [t[turn:] + t[:turn] for t in g]
    g = [g[i] for i in order(len(g))]
    if df:
        g = df(g)
    x, y = (b.arr(v), b.arr(f)), (b.arr(w), b.arr(g))
    for tag, p, q in (('', x, y), (' (swapped)', y, x)):
        r = b.E.iterate(returns(b, lambda: b.call(TRI + 'is_tri_equal', p[0], p[1], q[0], q[1], num(1e-3))))
        always(b, 'verdict' + tag, r[0], want)
        s = b.E.use(r[1])
        if isinstance(s, str) or b.E.solid(s):
            b.ob('report' + tag, (isinstance(s, str) and s == '') == want, 'report %r' % (s,))


# ------------------------------------------------------------------------------------------- rows
def sort_rows(b, rows, tol, jit):
    """rows come out sorted (entries within the tolerance counting as equal) together with both index vectors"""
    E = b.E
    n, m = len(rows), len(rows[0])
    els = []
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            els.append(b.num('x%d,%d' % (i, j), x, x + jit, np=True) if jit else num(float(x), True))
    a = E.new_arr(els, (n, m), 'f')
    r = E.iterate(returns(b, lambda: b.call(GEN + 'sort_rows_tol', a, num(tol))))
    b.ob('three values', len(r) == 3, '%d values' % len(r))
    ind, rev = ints(b, r[1], 'order'), ints(b, r[2], 'reverse order')
    b.ob('permutation', sorted(ind) == list(range(n)), 'order %s' % ind)
    if sorted(ind) != list(range(n)):
        return
    b.ob('reverse', [ind[k] for k in rev] == list(range(n)) and len(rev) == n, 'order %s, reverse %s' % (ind, rev))
    agree(b, 'rows', r[0], [Form(els[i * m + j]) for i in ind for j in range(m)], (n, m))
    srt = [rows[i] for i in ind]
    ok = True
    for p, q in zip(srt, srt[1:]):
        for x, y in zip(p, q):
            if abs(x - y) > tol:
                ok = ok and x < y
                break
    b.ob('sorted', ok, 'rows in the order %s' % ind)


def no_rows(b, m):
    r = b.E.iterate(returns(b, lambda: b.call(GEN + 'sort_rows_tol', b.E.new_arr([], (0, m), 'f'), num(0.5))))
    b.ob('shape', tuple(b.shape(r[0])) == (0, m), 'shape %s' % (b.shape(r[0]),))
    b.ob('no indices', ints(b, r[1], 'order') == [] == ints(b, r[2], 'reverse order'), 'indices')


# ------------------------------------------------------------------------------------------- points from supports
def bound2(b, n):
    """the point of two neighbouring directions has their support values"""
    import math
    E = b.E
    l = []
    for i in range(n):
        a = 2 * math.pi * i / n + 0.2
        l += [b.num('l%d' % i, math.cos(a), math.cos(a) + 0.01, np=True), b.num('m%d' % i, math.sin(a), math.sin(a) + 0.01, np=True)]
    s = b.els(b.vec('s', n, 1.0, 2.0))
    r = returns(b, lambda: b.call(SUP + 'sup_2_boundary_2', E.new_arr(l, (n, 2), 'f'), E.new_arr(s, (n,), 'f')))
    b.ob('shape', tuple(b.shape(r)) == (n, 2), 'shape %s' % (b.shape(r),))
    x = [Form(v) for v in b.els(r)]
    for i in range(n):
        for k in (i, (i + 1) % n):
            got = x[2 * i] * Form(l[2 * k]) + x[2 * i + 1] * Form(l[2 * k + 1])
            state(b, 'point %d direction %d' % (i, k), scalar(b, S('f', got.t, -1e9, 1e9), Form(s[k])))


def bound3(b, faces):
    E = b.E
    dirs = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0]]
    n = 5
    l = [b.num('l%d,%d' % (i, j), dirs[i][j], dirs[i][j] + 0.1, np=True) for i in range(n) for j in range(3)]
    s = b.els(b.vec('s', n, 1.0, 2.0))
    r = returns(b, lambda: b.call(SUP + 'sup_2_boundary_3', E.new_arr(l, (n, 3), 'f'), E.new_arr(s, (n,), 'f'), b.arr(faces)))
    b.ob('shape', tuple(b.shape(r)) == (len(faces), 3), 'shape %s' % (b.shape(r),))
    x = [Form(v) for v in b.els(r)]
    for i, t in enumerate(faces):
        for k in t:
            got = x[3 * i] * Form(l[3 * k]) + x[3 * i + 1] * Form(l[3 * k + 1]) + x[3 * i + 2] * Form(l[3 * k + 2])
            state(b, 'face %d direction %d' % (i, k), scalar(b, S('f', got.t, -1e9, 1e9), Form(s[k])))


def scenarios(tier):
    big = tier != 'quick'
    for name, f in MESHES.items():
        yield sc('face info/%s' % name, face_info, f)
        yield sc('edge map/%s' % name, edge_map, f)
        for steps in (0, 1, 2, 3) if big else (0, 1, 2):
            if steps == 2 and name not in ('triangle', 'pair', 'tetra', 'strip') and not big:
                continue
            for stat in (False, True):
                for how in ('steps', 'limit') if steps < 3 else ('steps',):
                    if how == 'limit' and name in ('strip', 'fan', 'apart', 'octa'):
                        continue
                    yield sc('refine/%s/%d/%s/%s' % (name, steps, stat, how), refine, f, steps, stat, how, tmax=8)
        if name in ('triangle', 'pair', 'tetra', 'strip'):
            for steps in (1, 2):
                yield sc('adjusted/%s/%d' % (name, steps), adjusted, f, steps, tmax=8)
    flat = [[0, 0, 0], [4, 0, 0], [4, 1, 0], [8, 1, 0], [0, 1, 0], [4, 2, 0], [4.5, 9, 0]]
    for name, f, base, limits in (('tetra', TETRA, [[0, 0, 0], [4, 0, 0], [0, 1, 0], [0, 0, 1]], (4.5, 4.05, 2, 1.2)),
                                  ('pair', [[0, 1, 2], [2, 1, 3]], flat[:4], (4.2, 5, 4.07)),
                                  ('exact', [[0, 1, 2], [2, 1, 3]], [[0, 0, 0], [3, 0, 0], [0, 4, 0], [3, 12, 0]], (5, 8.5)),
                                  ('row', [[0, 1, 2], [0, 2, 4], [2, 5, 4], [5, 6, 4]], flat, (5, 8, 4.1, 4.12)),
                                  ('octa', OCTA, [[0, 0, 9], [1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0], [0, 0, -1]], (2, 1.42))):
        for lim in limits:
            for stat in (False, True):
                yield sc('partial/%s/%s/%s' % (name, lim, stat), partial, f, base, lim, stat, 0.0 if name == 'exact' else 0.01)
        for lim in limits:
            for steps in (1, 2, 3, None):
                yield sc('until/%s/%s/%s' % (name, lim, steps), until, f, base, lim, steps, tmax=8)
    yield sc('icosahedron', ico)
    for d in (0, 1, 2):
        yield sc('sphere/%d' % d, sphere, d, tmax=60)
    for n in (1, 12, 13, 41, 42, 43, 162):
        for grid in (None, True):
            yield sc('sphere points/%d/%s' % (n, grid), sphere_ext, n, grid, tmax=60)
    for n in (1, 2, 3, 4, 5, 8, 12):
        for grid in (None, False, True):
            yield sc('circle points/%d/%s' % (n, grid), circle_ext, n, grid)
    for ne in (2, 3, 4, 5, 7):
        for nt in (2, 3, 4, 6):
            yield sc('tube/%d/%d' % (ne, nt), tube, ne, nt)
    for n in (1, 2, 3, 5):
        for m in (1, 2, 4):
            yield sc('rings/%d/%d' % (n, m), rings, n, m)
    cand = {'tetra': [[0, 1, 2], [2, 1, 0], [1, 3, 2], [3, 2, 0], [0, 1, 3]], 'octa': [[0, 1, 2], [0, 1, 3], [0, 1, 5], [5, 4, 3], [1, 2, 3], [2, 5, 3]],
            'pair': [[0, 1, 2], [1, 2, 3], [0, 1, 3], [0, 2, 3], [3, 1, 2]], 'strip': [[2, 3, 4], [0, 2, 4], [1, 2, 3], [0, 1, 2], [0, 1, 4]],
            'triangle': [[0, 1, 2], [2, 0, 1], [0, 2, 1]], 'fan': [[0, 2, 3], [1, 2, 3], [0, 1, 4], [4, 3, 0]]}
    for name, g in cand.items():
        yield sc('is_face/%s' % name, faces_in, MESHES[name], g)
        yield sc('is_face/%s/reversed' % name, faces_in, MESHES[name], g[::-1])
        for i, t in enumerate(g):
            yield sc('is_face/%s/%d' % (name, i), faces_in, MESHES[name], [t])
    fwd, bwd = (lambda n: range(n)), (lambda n: range(n - 1, -1, -1))
    other = lambda g: g[:-1] + [g[0]]
    for name in ('tetra', 'pair', 'strip', 'triangle'):
        f = MESHES[name]
        for pi, perm in enumerate(([0, 1, 2, 3, 4, 5], [2, 0, 1, 3, 4], [1, 2, 0, 4, 3])):
            n = 1 + max(max(t) for t in f)
            if sorted(perm[:n]) != list(range(n)):
                perm = list(range(n))[::-1]
            for turn in (0, 1, 2):
                for oi, order in enumerate((fwd, bwd)):
                    t = '%s/%d/%d/%d' % (name, pi, turn, oi)
                    yield sc('equal meshes/' + t, equal_tri, f, perm, turn, order, None, None, True)
                    yield sc('equal meshes/tiny/' + t, equal_tri, f, perm, turn, order, 'tiny', None, True)
                    yield sc('unequal meshes/vertex/' + t, equal_tri, f, perm, turn, order, 'big', None, False)
                    if len(f) > 1:
                        yield sc('unequal meshes/face/' + t, equal_tri, f, perm, turn, order, None, other, False)
                        yield sc('unequal meshes/count/' + t, equal_tri, f, perm, turn, order, None, lambda g: g[:-1], False)
    sets = {'plain': ([[3, 1], [1, 2], [2, 0]], 0.0), 'ties': ([[1, 3], [1, 1], [0, 5], [1, 2]], 0.0),
            'close': ([[1.0, 3], [1.05, 1], [0.97, 2]], 0.2), 'close2': ([[2, 1.0, 5], [2, 1.04, 1], [1, 9, 9]], 0.1),
            'one row': ([[2, 1]], 0.0), 'one column': ([[3], [1], [2], [0]], 0.0), 'back': ([[4, 0], [3, 0], [2, 0], [1, 0]], 0.5),
            'second': ([[1, 1, 2], [1, 1, 1], [1, 0, 9], [0, 9, 9]], 0.01)}
    for name, (rows, t) in sets.items():
        yield sc('sorted rows/' + name, sort_rows, rows, t, 0)
        if name in ('plain', 'one row', 'one column', 'back'):
            yield sc('sorted rows/boxes/' + name, sort_rows, rows, t, 0.1)
    for m in (1, 2):
        yield sc('sorted rows/none/%d' % m, no_rows, m)
    for n in (3, 4, 5):
        yield sc('points from supports/2/%d' % n, bound2, n)
    for i, faces in enumerate(([[0, 1, 2]], [[0, 1, 2], [2, 3, 1]], [[4, 2, 0], [1, 2, 3], [3, 4, 2]])):
        yield sc('points from supports/3/%d' % i, bound3, faces)
