"""C28: rotations between directions and orthogonal bases."""
from .c14 import eig2
from .c16 import *

RULE = ('Identity test of value numbers: every matrix returned for a pair of directions satisfies O\'O = I and '
        'O s/|s| = d/|d|, in every orientation of the vectors, for same, opposite and axis-parallel ones; the one that '
        'maximises the trace of O M reaches the bound d\'-s term plus the singular values of the reduced matrix, the one that '
        'aligns a second pair reaches the product of the lengths of its projections; an orthogonal basis Q of S has Q\'S '
        'upper triangular with non-negative diagonal.')
FLOOR = 60


def pair(b, n, kind):
    """(source, destination) as lists of abstract numbers"""
    z = num(0.0, True)
    neg_ = lambda x: b.E.unop('USub', x)
    s = [b.num('s%d' % i, 0.5, 1.0, np=True) for i in range(n)]
    d = [b.num('d%d' % i, 1.0, 2.0, np=True) for i in range(n)]
    if kind == 'pos':
        return s, d
    if kind == 'neg':
        return s, [neg_(x) for x in d]
    if kind == 'alt':
        return [x if i % 2 else neg_(x) for i, x in enumerate(s)], [x if i else neg_(x) for i, x in enumerate(d)]
    if kind == 'same':
        return s, list(s)
    if kind == 'scaled':
        return s, [b.E.binop('Mult', num(2.0), x) for x in s]
    if kind == 'opposite':
        return s, [neg_(x) for x in s]
    if kind == 'opposite axis':
        return [d[0]] + [z] * (n - 1), [neg_(s[0])] + [z] * (n - 1)
    if kind == 'axes':
        return [d[0]] + [z] * (n - 1), [z] * (n - 1) + [s[0]]
    if kind == 'axis':
        return [d[0]] + [z] * (n - 1), s
    if kind == 'to axis':
        return s, [z] * (n - 1) + [neg_(d[0])]
    if kind == 'first axis':
        return [d[0]] + [z] * (n - 1), [s[0]] + [z] * (n - 1)
    if kind.startswith('near'):
        # directions a small angle away from equal or opposite
        eps = {'1e-2': (1e-2, 2e-2), '1e-3': (1e-3, 2e-3), '1e-4': (1e-4, 2e-4)}[kind.split()[-1]]
        e = b.num('e', *eps)
        if 'axis' in kind:
            s = [s[0]] + [z] * (n - 1)
        w = [b.E.binop('Add', x, b.E.binop('Mult', e, num(1.0 if i == n - 1 else -1.0 if i == 0 else 0.0, True)))
             for i, x in enumerate(s)]
        return s, [neg_(x) for x in w] if 'opposite' in kind else w
    raise KeyError(kind)


def vec_(b, v, sh):
    n = len(v)
    return b.E.new_arr(list(v), {'flat': (n,), 'col': (n, 1), 'row': (1, n)}[sh], 'f')


def unit(v):
    f = [Form(x) for x in v]
    ln = dot(f, f).sqrt()
    return [x / ln for x in f]


def orthogonal(b, o, n, tag, m=None):
    """rows of o, or None"""
    o = b.E.use(o)
    if isinstance(o, Top):
        b.ob('orthogonal', None, tag + ' unknown value')
        return None
    m = n if m is None else m
    if tuple(b.shape(o) or ()) != (n, m):
        b.ob('matrix shape', False, '%s shape %s, required %s' % (tag, b.shape(o), (n, m)))
        return None
    f = fm(b, o)
    g = mm(tr(f), f)
    state(b, 'orthogonal', join(scalar(b, g[i][j], Form(int(i == j))) for i in range(m) for j in range(i, m)), tag)
    return f


def carries(b, f, s, d, tag):
    v = mm(f, unit(s))
    state(b, 'carries source to destination', join(scalar(b, x, y) for x, y in zip(v, unit(d))), tag)


def rotate(b, op, n, kind, sh):
    s, d = pair(b, n, kind)
    r = returns(b, lambda: b.call(LA + op, vec_(b, s, sh[0]), vec_(b, d, sh[1])))
    f = orthogonal(b, r, n, op)
    if f:
        carries(b, f, s, d, op)


def proj(n, s):
    """projector onto the complement of a unit vector"""
    return [[Form(int(i == j)) - s[i] * s[j] for j in range(n)] for i in range(n)]


def max_tr(b, n, kind, sh, mk_):
    s, d = pair(b, n, kind)
    if mk_ == 'full':
        M = b.mat('M', n, n, 0.5, 2.0)
    elif mk_ == 'mixed':
        M = b.mat('M', n, n, -1.0, 1.0)
    else:
        M = b.diag('M', [(0.5, 2.0)] * n)
    r = returns(b, lambda: b.call(LA + 'orth_transl_max_tr', vec_(b, s, sh[0]), vec_(b, d, sh[1]), M))
    f = orthogonal(b, r, n, 'max_tr')
    if not f:
        return
    carries(b, f, s, d, 'max_tr')
    if n > 3:
        return
    us, ud, m = unit(s), unit(d), fm(b, M)
    w = mm(f, m)
    t = w[0][0]
    for i in range(1, n):
        t = t + w[i][i]
    best = dot(us, mm(m, ud))
    if n > 1:
        k = mm(mm(proj(n, us), m), proj(n, ud))
        g = mm(tr(k), k)
        if n == 2:
            g1 = g[0][0] + g[1][1]          # one non-zero eigenvalue: the trace
            best = best + Form(mk('max_', g1.t, Form(0).t)).sqrt()
        else:
            # two non-zero eigenvalues a, b: sqrt(a) + sqrt(b) = sqrt(trace + 2 sqrt(sum of principal 2-minors))
            t1 = g[0][0] + g[1][1] + g[2][2]
            t2 = Form(0)
            for i in range(3):
                for j in range(i):
                    t2 = t2 + g[i][i] * g[j][j] - g[i][j] * g[j][i]
            root = Form(mk('max_', t2.t, Form(0).t)).sqrt()
            best = best + (t1 + Form(2) * root).sqrt()
    state(b, 'largest trace', scalar(b, t, best), 'max_tr')


def max_dir(b, n, kind, sh, same):
    s, d = pair(b, n, kind)
    p = [b.num('a%d' % i, 0.5, 1.0, np=True) for i in range(n)]
    q = [b.num('b%d' % i, -1.0, -0.5, np=True) if i % 2 else b.num('b%d' % i, 0.5, 1.0, np=True) for i in range(n)]
    if same:
        p = list(s)
    r = returns(b, lambda: b.call(LA + 'orth_transl_max_dir', vec_(b, s, sh[0]), vec_(b, d, sh[1]), vec_(b, p, sh[2]),
                                  vec_(b, q, sh[3])))
    if n == 1:
        v = b.els(r)
        agree(b, 'carries source to destination', r, [Form(mk('sign', Form(b.E.binop('Mult', s[0], d[0])).t))], None)
        return
    f = orthogonal(b, r, n, 'max_dir')
    if not f:
        return
    carries(b, f, s, d, 'max_dir')
    us, ud = unit(s), unit(d)
    fp, fq = [Form(x) for x in p], [Form(x) for x in q]
    got = dot(fq, mm(f, fp))
    ps, pd = mm(proj(n, us), fp), mm(proj(n, ud), fq)
    pos = lambda v: Form(mk('max_', dot(v, v).t, Form(0).t)).sqrt()
    state(b, 'second pair aligned', scalar(b, got, dot(us, fp) * dot(ud, fq) + pos(ps) * pos(pd)), 'max_dir')


def several(b, n, m, k, src_sh, kind):
    """m source vectors, k destinations for each"""
    sg = -1 if kind == 'neg' else 1
    S_ = [[b.num('s%d%d' % (i, j), 0.5, 1.0, np=True) for j in range(m)] for i in range(n)]
    D = [[[b.num('d%d%d%d' % (i, j, e), *((0.5, 1.0) if sg > 0 else (-1.0, -0.5)), np=True) for e in range(k)] for j in range(m)]
         for i in range(n)]
    src = b.E.new_arr([x for r in S_ for x in r], (n,) if src_sh == 'flat' else (n, m), 'f')
    dst = b.E.new_arr([x for a in D for r in a for x in r], (n, m, k) if src_sh == '3d' else (n, m) if src_sh == '2d' else (n,), 'f')
    r = returns(b, lambda: b.call(LA + 'ml_orth_transl', src, dst))
    r = b.E.use(r)
    if isinstance(r, Top):
        b.ob('orthogonal', None, 'unknown value')
        return
    if tuple(b.shape(r)) != (n, n, k, m):
        b.ob('array shape', False, 'shape %s, required %s' % (b.shape(r), (n, n, k, m)))
        return
    e = [Form(x) for x in b.els(r)]
    at = lambda i, j, q, v: e[((i * n + j) * k + q) * m + v]
    for v in range(m):
        for q in range(k):
            f = [[at(i, j, q, v) for j in range(n)] for i in range(n)]
            tag = 'vector %d, destination %d' % (v, q)
            g = mm(tr(f), f)
            state(b, 'orthogonal', join(scalar(b, g[i][j], Form(int(i == j))) for i in range(n) for j in range(i, n)), tag)
            carries(b, f, [S_[i][v] for i in range(n)], [D[i][v][q] for i in range(n)], tag)


def basis_(b, op, n, m, kind):
    rng = {'pos': (0.5, 2.0), 'neg': (-2.0, -0.5), 'mixed': (-1.0, 1.0)}
    if kind in rng:
        v = [[b.num('S%d%d' % (i, j), *rng[kind], np=True) for j in range(m)] for i in range(n)]
    elif kind == 'axes':
        v = [[b.num('S%d' % j, 0.5, 2.0, np=True) if i == j else num(0.0, True) for j in range(m)] for i in range(n)]
    else:
        v = [[b.E.unop('USub', b.num('S%d' % j, 0.5, 2.0, np=True)) if i == n - 1 - j else num(0.0, True) for j in range(m)]
             for i in range(n)]
    src = b.E.new_arr([x for r in v for x in r], (n, m), 'f')
    r = returns(b, lambda: b.call(LA + op, src))
    f = orthogonal(b, r, n, op, n if op == 'mat_orth' else m)
    if not f:
        return
    w = mm(tr(f), [[Form(x) for x in r_] for r_ in v])
    state(b, 'upper triangular', join(scalar(b, w[i][j], Form(0)) for i in range(len(w)) for j in range(min(i, m))), op)
    rs = []
    for j in range(min(m, len(w))):
        rs.append(scalar(b, w[j][j], w[j][j].abs()))
    state(b, 'non-negative diagonal', join(rs), op)


def valign(b, n, kind, sh):
    """rotation taking the direction of the second vector to that of the first"""
    s, d = pair(b, n, kind)
    r = returns(b, lambda: b.call(CORE + 'ell_valign', vec_(b, d, sh[1]), vec_(b, s, sh[0])))
    f = orthogonal(b, r, n, 'valign')
    if f:
        carries(b, f, s, d, 'valign')


def scenarios(tier):
    base = ('pos', 'neg', 'alt', 'axis', 'to axis', 'axes', 'opposite axis', 'first axis', 'same', 'scaled', 'opposite')
    R = lambda op, n, kind, sh: sc('%s[%d,%s,%s]' % (op, n, kind, '/'.join(sh)), rotate, op, n, kind, sh, narrow=0.001)
    shapes = dict(orth_transl=('flat', 'col', 'row'), orth_transl_haus=('flat', 'col', 'row'), orth_transl_qr=('flat', 'col'))
    for op in shapes:
        for n in (1, 2, 3, 4):
            for kind in base:
                if n == 1 and kind in ('axes', 'axis', 'to axis', 'alt', 'first axis'):
                    continue
                for p in shapes[op]:
                    for q in shapes[op]:
                        if p != q and (kind not in ('pos', 'neg', 'opposite axis') or n == 4):
                            continue
                        yield R(op, n, kind, (p, q))
    NEAR = [' '.join(x for x in ('near', o, a, e) if x) for o in ('', 'opposite') for a in ('', 'axis') for e in ('1e-2', '1e-3', '1e-4')]
    for n in (2, 3, 4):
        for kind in NEAR:
            for op in shapes:
                yield sc('%s[%d,%s]' % (op, n, kind), rotate, op, n, kind, ('flat', 'flat'), narrow=1e-11)
            yield sc('ell_valign[%d,%s]' % (n, kind), valign, n, kind, ('flat', 'flat'), narrow=1e-11)
            if n < 4:
                yield sc('orth_transl_max_tr[%d,%s]' % (n, kind), max_tr, n, kind, ('flat', 'flat'), 'full', narrow=1e-11)
                yield sc('orth_transl_max_dir[%d,%s]' % (n, kind), max_dir, n, kind, ('flat',) * 4, False, narrow=1e-11)
    for n in (1, 2, 3, 4):
        for kind in ('pos', 'neg', 'alt', 'axis', 'to axis', 'axes', 'first axis', 'same'):
            if n == 1 and kind not in ('pos', 'neg'):
                continue
            for sh in (('flat', 'flat'), ('col', 'col'), ('flat', 'col'), ('col', 'flat')):
                if sh[0] != sh[1] and kind != 'pos':
                    continue
                for mk_ in ('full', 'diag', 'mixed'):
                    if n == 4 and tier == 'quick' and (mk_ != 'full' or sh[0] != sh[1]):
                        continue
                    if mk_ != 'full' and kind not in ('pos', 'neg', 'axes'):
                        continue
                    yield sc('orth_transl_max_tr[%d,%s,%s,%s]' % (n, kind, '/'.join(sh), mk_), max_tr, n, kind, sh, mk_, narrow=0.001)
            for sh in (('flat',) * 4, ('col',) * 4, ('flat', 'col', 'flat', 'col'), ('col', 'flat', 'col', 'flat')):
                if sh[0] != sh[1] and kind != 'pos':
                    continue
                for same_ in (False, True):
                    if same_ and kind not in ('pos', 'axes'):
                        continue
                    yield sc('orth_transl_max_dir[%d,%s,%s,%s]' % (n, kind, '/'.join(sh), 'same' if same_ else 'general'), max_dir, n,
                             kind, sh, same_, narrow=0.001)
    for n in (1, 2, 3, 4):
        for kind in base:
            if n == 1 and kind in ('axes', 'axis', 'to axis', 'alt', 'first axis'):
                continue
            for sh in (('flat', 'flat'), ('col', 'col'), ('row', 'row'), ('flat', 'col'), ('row', 'flat')):
                if sh[0] != sh[1] and kind not in ('pos', 'neg'):
                    continue
                yield sc('ell_valign[%d,%s,%s]' % (n, kind, '/'.join(sh)), valign, n, kind, sh, narrow=0.001)
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            for k in (1, 2, 3):
                for kind in ('pos', 'neg'):
                    yield sc('ml_orth_transl[%d,%d,%d,%s]' % (n, m, k, kind), several, n, m, k, '3d', kind, narrow=0.001)
            yield sc('ml_orth_transl[%d,%d,matrix]' % (n, m), several, n, m, 1, '2d', 'pos', narrow=0.001)
        yield sc('ml_orth_transl[%d,vector]' % n, several, n, 1, 1, 'flat', 'pos', narrow=0.001)
    for op in ('mat_orth', 'math_orth_col'):
        for n in (1, 2, 3, 4):
            for m in range(1, min(n, 3) + 1) if op == 'math_orth_col' else range(1, 4):
                for kind in ('pos', 'neg', 'mixed', 'axes', 'anti'):
                    if kind in ('axes', 'anti') and m > n:
                        continue
                    yield sc('%s[%d,%d,%s]' % (op, n, m, kind), basis_, op, n, m, kind, narrow=0.001)
