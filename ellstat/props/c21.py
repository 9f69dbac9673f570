"""C21: occurrence and replacement of variables in symbolic expressions."""
import itertools
import re
from .c16 import *
from ..catalog import *

RULE = ('Constant propagation of expressions through the string operations and regular expressions of the source: every word up to a '
        'length over the character classes a pattern can tell apart (the variable, other letters, digits, underscore, operators, '
        'brackets, blanks) is decided against a tokeniser that splits at non-word characters; arrays of every shape, names of every '
        'kind, numeric entries as symbolic numbers.')
FLOOR = 60

WORD = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')


def tokens(s):
    out, cur = [], ''
    for c in s:
        if c in WORD:
            cur += c
        else:
            if cur:
                out.append(cur)
            cur = ''
            out.append(c)
    return out + ([cur] if cur else [])


def replaced(s, old, new):
    return ''.join('(' + new + ')' if t == old else t for t in tokens(s.replace(' ', '')))


def truth(b, r):
    r = b.E.use(r)
    if isinstance(r, Ref) and r.kind == 'arr' and len(b.els(r)) == 1:
        r = b.els(r)[0]
    if isinstance(r, bool):
        return r
    if isinstance(r, S) and r.bv is not None:
        return r.bv
    return None


def occurs(b, words, disc, how):
    """one call per word"""
    v = 'k' if disc else 't'
    wrong = unknown = None
    for w in words:
        m = b.arr({'scalar': [w], 'vector': ['1', w], 'first': [[w, 'x'], ['2', 'y + 1']], 'last': [['x', 'a*b'], ['0', w]]}[how])
        if disc is None:
            r = truth(b, returns(b, lambda: b.call(SYM + 'is_dependent', m)))
        else:
            r = truth(b, returns(b, lambda: b.call(SYM + 'is_dependent', m, boolv(disc))))
        if r is None:
            unknown = w
        elif r != (v in tokens(w)):
            wrong = (w, r)
            break
    b.ob('dependence', False if wrong else None if unknown else True,
         'an expression %r is said %s on %s' % (wrong[0], 'to depend' if wrong[1] else 'not to depend', v) if wrong else 'unknown for %r' % unknown if unknown else '')


def numbers(b, disc):
    m = b.E.new_arr([b.num('x', 0.5, 1.0, np=True), num(2.0, True), num(3.0, True), num(0.0, True)], (2, 2), 'f')
    r = truth(b, returns(b, lambda: b.call(SYM + 'is_dependent', m, boolv(disc))))
    b.ob('numbers do not depend on anything', None if r is None else not r)


def chunk(words, n):
    for i in range(0, len(words), n):
        yield words[i:i + n]


def strings(b, r):
    r = b.E.use(r)
    if not (isinstance(r, Ref) and r.kind == 'arr'):
        return None
    return [x if isinstance(x, str) else None for x in b.els(r)]


def replace(b, words, old, new, shape):
    n = len(words)
    sh = {'vector': (n,), 'column': (n, 1), 'row': (1, n), 'matrix': (2, n // 2), 'cube': (2, n // 4, 2)}[shape]
    b_els = list(words)
    m = b.E.new_arr(b_els, sh, 'U')
    r = returns(b, lambda: b.call(SYM + 'var_replace', m, old, new))
    got = strings(b, r)
    if got is None:
        b.ob('replaced', None, 'unknown value')
        return
    b.ob('shape', tuple(b.shape(r)) == sh, 'shape %s for %s' % (b.shape(r), sh))
    wrong = unknown = None
    for w, g in zip(words, got):
        if g is None:
            unknown = w
        elif g != replaced(w, old, new):
            wrong = (w, g)
            break
    b.ob('replaced', False if wrong else None if unknown else True,
         '%r becomes %r when %s is replaced by %s' % (wrong + (old, new)) if wrong else 'unknown for %r' % unknown if unknown else '')
    b.ob('argument untouched', b.els(m) == b_els)


def written(b, vals, kind):
    E = b.E
    m = E.new_arr([num(x, True) for x in vals], (len(vals), 1), kind)
    got = strings(b, returns(b, lambda: b.call(SYM + 'var_replace', m, 't', 'x')))
    if got is None or None in got:
        b.ob('numbers written out', None, 'unknown value')
        return
    bad = []
    for x, g in zip(vals, got):
        try:
            if not re.fullmatch(r'-?\d+\.?\d*', g) or abs(float(g) - x) > 1e-15 * max(1.0, abs(x)):
                bad.append((x, g))
        except ValueError:
            bad.append((x, g))
    b.ob('numbers written out', not bad, '%r' % bad[:2])


def words(alphabet, n):
    for k in range(1, n + 1):
        for w in itertools.product(alphabet, repeat=k):
            yield ''.join(w)


LONG = ['t+t^2+t^3+sin(t)', 'att+t2', 't+temp^t', '1/(t+3)*2^t^t', 'cos(k)*t - k', 'tk + kt', 't_1*t', 'T*t', '_t + t', 't.t', 'exp(-t)*k',
        'tan(t)*(t-1)', 'k2 - 2*k', '(k)', '[t, k]', 't==k', '1e5*t', 'x*y*z', 'sqrt(t*t)', 'tt*ttt*tttt', '  t  ', 'k  ', ' k', 't\tk']


def scenarios(tier):
    big = tier != 'quick'
    for disc in (False, True, None):
        v, o = ('k', 't') if disc else ('t', 'k')
        ws = list(words([v, o, '2', '_', '+', ' ', v.upper()], 4 if big else 3)) + LONG + [w.replace('t', '@').replace('k', 't').replace('@', 'k') for w in LONG]
        for i, c in enumerate(chunk(ws, 60)):
            yield sc('depends/%s/%d' % (disc, i), occurs, c, disc, 'scalar', tmax=30)
        for how in ('vector', 'first', 'last'):
            for i, c in enumerate(chunk(ws if big else ws[:57] + LONG, 60)):
                yield sc('depends/%s/%s/%d' % (disc, how, i), occurs, c, disc, how, tmax=30)
        if disc is not None:
            yield sc('depends/%s/numbers' % disc, numbers, disc)
    yield sc('replace/integers', written, [0, 1, -7, 1000000, 12345678901], 'i')
    for i, vs in enumerate(([0.5, 2.0, -3.25], [0.1, 1 / 3, 123456.789], [1e-5, 1e-9, 0.001], [1e10, -1e6, 1e16],
                            [-1e-5, -0.25, -1e-9], [-1e-5, 2.0, 1.0], [-2e-6])):
        yield sc('replace/floats/%d' % i, written, vs, 'f')
    for old, new, other in (('t', 'x', 'a'), ('t', '15 - t', 'T'), ('tt', '0.8-tt', 't'), ('k1', 'k', 'k'), ('x_1', 'y*z', 'x'),
                            ('t', '5', 'a'), ('t', 't', 'a'), ('k', 'k+1', 't'), ('t', '(a)', 'a'), ('k', '', 'a')):
        ws = list(words([old, other, '1', '_', '*', ' ', '('], 4 if big else 3))
        ws += [w.replace('t', old) for w in LONG if '\t' not in w]
        for i, c in enumerate(chunk(ws, 80)):
            for shape in ('vector', 'matrix') + (('column', 'row', 'cube') if i == 0 else ()):
                c2 = c[:len(c) - len(c) % 4]
                if c2:
                    yield sc('replace/%s by %s/%s/%d' % (old, new, shape, i), replace, c2, old, new, shape, tmax=30)
