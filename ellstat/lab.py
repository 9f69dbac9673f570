"""Scenario layer: abstract inputs, exploration with bounded trace partitioning, obligations."""
import os
import sys
import time
import zlib
import signal
from .interp import *
from . import interp as _interp


class FSh(tuple):
    """shape of an array whose memory is laid out column by column (the transpose of an ordinary one)"""
    def __repr__(self):
        return 'F' + tuple.__repr__(self)

    __str__ = __repr__


class Lost(Exception):
    """a public anchor of a property no longer exists"""


class Skip(Exception):
    pass


class Sentinel:
    pass


def _expired(*_):
    raise Unresolved('time budget of the scenario exceeded')


def arm(sec):
    """give up the current abstract execution after so many seconds of processor time (0: no limit)"""
    try:
        if sec:
            signal.signal(signal.SIGVTALRM, _expired)
        signal.setitimer(signal.ITIMER_VIRTUAL, sec, 5 if sec else 0)
    except ValueError:
        pass


class Lab:
    def __init__(self, root=None):
        self.E = E = Engine(root)
        E.frame, E.ctx, E.stack, E.pend = None, 0, [], [[]]
        self.files, self.nfun = [], 0
        self.load_errors = []
        for dp, dn, fn in sorted(os.walk(E.root)):
            dn[:] = [d for d in sorted(dn) if d not in ('test', 'tests', '__pycache__')]
            for f in sorted(fn):
                if f.endswith('.py') and not f.startswith('test') and f != 'run_tests.py':
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, E.root)[:-3].split(os.sep)
                    if rel[-1] == '__init__':
                        rel = rel[:-1]
                    self.files.append(os.path.relpath(p, E.root))
                    try:
                        E.load_module('.'.join(['ellipy'] + rel))
                    except (SigRaise, Unresolved, NeedSplit, SyntaxError) as e:
                        self.load_errors.append('%s: %r' % (rel, e))
        self.base = E.snap()
        self.base_ev = list(E.events)
        self.base_origin = {k: set(v) for k, v in E.origin.items()}
        self.base_id = E.next_id
        self.base_frames = dict(E.frames)
        self.base_alloc = dict(E.alloc_site)
        self.results = {}          # obligation id -> list of (status, detail) per run
        self.stats = dict(scenarios=0, runs=0, unresolved_runs=0, steps=0, forks=0)
        self.functions = {}
        self.sites = set()
        self.unk = {}
        self.unres = {}
        self.meta = {}

    def reset(self):
        E = self.E
        E.restore(self.base)
        E.events = list()
        E.origin = {k: set(v) for k, v in self.base_origin.items()}
        E.next_id = self.base_id
        E.frames = dict(self.base_frames)
        E.alloc_site = dict(self.base_alloc)
        E.counts = {}
        E.may_raise = []
        E.risk = frozenset()
        E.path = ()
        E.fresh_n = 0
        E.steps = 0
        E.try_depth = 0
        E.handling = None
        E.funcs_seen = {}
        E.unk_calls = {}
        E.intercept = {}
        E.exact = {}
        E.frame, E.ctx, E.stack, E.pend = None, 0, [('<scenario>', None)], [[]]
        E.cur = None
        E.decisions = {}
        E.watch = None

    def run(self, sid, body, max_runs=48, tmax=60, **meta):
        """explore the scenario `body(b)`; its obligations are recorded under '<sid>/<name>'"""
        self.stats['scenarios'] += 1
        work = [{}]
        runs = 0
        per = {}
        t0 = time.time()
        n_unres = n_done = 0
        while work:
            dec = work.pop()
            if runs >= max_runs or time.time() - t0 > tmax:
                self.unres.setdefault(sid, []).append('partition budget exhausted')
                per.setdefault('*', []).append(('unresolved', 'partition budget exhausted', False))
                break
            runs += 1
            self.reset()
            E = self.E
            E.decisions = dec
            b = B(self, sid)
            try:
                arm(tmax)
                try:
                    body(b)
                except MemoryError:
                    raise Unresolved('memory budget exceeded')
                except SigRaise as e:
                    b.uncaught(e.exc)
                except Skip:
                    arm(0)
                    self.stats['runs'] += runs
                    return
                except (SigReturn, SigBreak, SigContinue):
                    raise Unresolved('control flow leak')
            except NeedSplit as e:
                arm(0)
                self.finish(b, per)
                if e.g in dec:
                    self.unres.setdefault(sid, []).append('unstable split')
                    per.setdefault('*', []).append(('unresolved', 'unstable split', False))
                    continue
                for v in (False, True):
                    d = dict(dec)
                    d[e.g] = v
                    work.append(d)
                self.note(E)
                continue
            except (Unresolved, NoModel2, RecursionError) as e:
                arm(0)
                why = getattr(e, 'why', repr(e))
                self.unres.setdefault(sid, []).append(why + ' @ ' + E.where())
                n_unres += 1
                b.finish()
                for k, v in b.obs.items():
                    per.setdefault(k, []).append(v)
                per.setdefault('*', []).append(('unresolved', why, False))
                self.note(E)
                continue
            arm(0)
            self.note(E)
            b.finish()
            n_done += 1
            for k, v in b.obs.items():
                per.setdefault(k, []).append(v)
        self.stats['runs'] += runs
        self.stats['unresolved_runs'] += n_unres
        star = per.pop('*', [])
        for k, vs in per.items():
            st = [v[0] for v in vs]
            bad = [v for v in vs if v[0] == 'violated']
            definite = [v for v in bad if v[2]]
            if definite or (bad and len(bad) == len(vs) >= n_done and not star):
                status, det = 'violated', (definite or bad)[0][1]
            elif bad or 'unresolved' in st or star:
                status = 'unresolved'
                und = [v for v in vs if v[0] != 'held']
                det = und[0][1] if und else star[0][1]
                if bad:
                    det = 'not on every partition: ' + str(det)
            else:
                status, det = 'held', vs[0][1]
            self.results[sid + '/' + k] = (status, det)
        if not per:
            self.results[sid + '/run'] = ('unresolved', star[0][1] if star else 'no obligation reached')

    def finish(self, b, per):
        """a run that is about to be partitioned: only definite violations already seen are kept"""
        b.obs = {}
        b.finish()
        for k, v in b.obs.items():
            if v[0] == 'violated' and v[2]:
                per.setdefault(k, []).append(v)

    def note(self, E):
        for k, v in E.funcs_seen.items():
            self.functions[k] = self.functions.get(k, 0) + v
        self.sites |= E.call_sites
        for k, v in E.unk_calls.items():
            self.unk[k] = self.unk.get(k, 0) + v
        self.stats['steps'] += E.steps


NoModel2 = _interp.__dict__.get('NoModel', None) or __import__('ellstat.pymodel', fromlist=['NoModel']).NoModel


class Out:
    def __init__(self, kind, v=None, exc=None, risk=frozenset(), may=(), events=(), definite=True):
        self.kind, self.v, self.exc, self.risk, self.may, self.events = kind, v, exc, risk, may, events
        self.definite = definite

    def __repr__(self):
        return 'ret %r' % (self.v,) if self.kind == 'ret' else 'raise %r' % (self.exc,)


class B:
    """scenario builder bound to one run"""

    def __init__(self, lab, sid):
        self.lab, self.E, self.sid = lab, lab.E, sid
        self.obs = {}
        self.narrow = 0.0
        self.stage = 'setup'
        self.finals = []

    def finish(self):
        for f in self.finals:
            f()

    # ------------------------------------------------------------- inputs
    def num(self, name, lo, hi, k='f', np=False):
        t = mk('atom', self.sid + ':' + name)
        if self.narrow and k == 'f' and abs(lo) < 1e9 and abs(hi) < 1e9:
            # the same class of inputs restricted to a small sub-box inside it
            u = 0.15 + 0.7 * (zlib.crc32(name.encode()) % 1009) / 1009
            c = lo + u * (hi - lo)
            w = self.narrow * (hi - lo)
            lo, hi = max(lo, c - w), min(hi, c + w)
        t.lo, t.hi = float(lo), float(hi)
        if k in 'iu':
            t.meta = 'int'
        return S(k, t, float(lo), float(hi), np=np)

    def boolean(self, name):
        return S('b', mk('atom', self.sid + ':' + name), 0.0, 1.0)

    def c(self, v):
        return num(v) if isinstance(v, (int, float, bool)) else v

    def arr(self, data, dtype=None):
        """nested python lists of numbers / abstract scalars -> abstract array"""
        v = self.nest(data)
        return self.E.to_arr(v, dtype, True)

    def nest(self, d):
        if isinstance(d, (list, tuple)):
            return self.E.new_list([self.nest(x) for x in d])
        return self.c(d)

    def lst(self, items):
        return self.E.new_list([self.c(x) for x in items])

    def tup(self, items):
        return Tup([self.c(x) for x in items])

    def oarr(self, objs, shape=None):
        objs = list(objs)
        if isinstance(shape, FSh):
            return self.E.laid(objs, tuple(shape), 'O', range(len(shape))[::-1])
        return self.E.new_arr(objs, shape if shape is not None else (len(objs),), 'O')

    def vec(self, name, n, lo=-1.0, hi=1.0, shape=None):
        els = [self.num('%s[%d]' % (name, i), lo, hi, np=True) for i in range(n)]
        return self.E.new_arr(els, shape or (n,), 'f')

    def mat(self, name, n, m, lo=-1.0, hi=1.0):
        els = [self.num('%s[%d,%d]' % (name, i, j), lo, hi, np=True) for i in range(n) for j in range(m)]
        return self.E.new_arr(els, (n, m), 'f')

    def symm(self, name, n, diag=(2.0, 3.0), off=(-0.4, 0.4)):
        g = {}
        for i in range(n):
            for j in range(i + 1):
                g[i, j] = self.num('%s[%d,%d]' % (name, i, j), *(diag if i == j else off), np=True)
        return self.E.new_arr([g[max(i, j), min(i, j)] for i in range(n) for j in range(n)], (n, n), 'f')

    def diag(self, name, los_his):
        n = len(los_his)
        els = []
        for i in range(n):
            for j in range(n):
                if i != j:
                    els.append(num(0.0, True))
                elif isinstance(los_his[i], tuple):
                    els.append(self.num('%s[%d]' % (name, i), *los_his[i], np=True))
                else:
                    els.append(num(float(los_his[i]), True))
        return self.E.new_arr(els, (n, n), 'f')

    # -------------------------------------------------------------- lookup
    def get(self, path):
        """'module.path:attr.attr'"""
        mod, _, attr = path.partition(':')
        m = self.E.modules.get(mod)
        if m is None:
            raise Lost(path)
        v = m
        for a in attr.split('.') if attr else []:
            try:
                v = self.E.getattr(v, a)
            except SigRaise:
                raise Lost(path)
        return v

    def has(self, o, name):
        if isinstance(o, Ref) and o.kind == 'obj':
            return self.E.cls_lookup(o.cls, name) is not None
        if isinstance(o, Cls):
            return self.E.cls_lookup(o, name) is not None
        return True

    # --------------------------------------------------------------- calls
    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.get(f)
        args = [self.c(a) for a in args]
        kw = {k: self.c(v) for k, v in kw.items()}
        E = self.E
        E.cur = None
        return E.use(E.call(f, args, kw, None))

    def meth(self, o, name, *args, **kw):
        if not self.has(o, name):
            raise Lost('%s.%s' % (getattr(getattr(o, 'cls', o), 'name', '?'), name))
        return self.call(self.E.getattr(o, name), *args, **kw)

    def attempt(self, f):
        """run f(); classify into an Out"""
        E = self.E
        m0, e0 = len(E.may_raise), len(E.events)
        r0 = E.risk
        E.risk = frozenset()
        n_pend = len(E.pend[-1])
        fr = (E.frame, E.ctx, list(E.stack), E.cur)
        try:
            v = f()
            o = Out('ret', v, None, E.risk, E.may_raise[m0:], E.events[e0:])
        except SigRaise as e:
            o = Out('raise', None, e.exc, E.risk, E.may_raise[m0:], E.events[e0:])
        E.frame, E.ctx, E.stack, E.cur = fr
        del E.pend[-1][n_pend:]
        E.risk = r0 | o.risk
        o.definite = self.path_exact(E.path)
        return o

    def path_exact(self, path):
        return all(self.E.exact.get(g, False) for g, _ in path)

    def risk_exact(self, risk):
        return all(self.E.exact.get(g, False) for g in risk)

    # --------------------------------------------------------- obligations
    def ob(self, name, ok, detail='', definite=None):
        """ok: True / False / None(unresolved)"""
        if definite is None:
            definite = self.path_exact(self.E.path)
        st = 'held' if ok is True else ('violated' if ok is False else 'unresolved')
        if isinstance(detail, str) is False:
            detail = repr(detail)
        old = self.obs.get(name)
        rank = {'held': 0, 'unresolved': 1, 'violated': 2}
        if old is None or rank[st] > rank[old[0]]:
            self.obs[name] = (st, detail, definite)

    def uncaught(self, exc):
        self.ob('completes', False if not self.E.risk else None, 'setup raised %r at %s' % (exc, exc.where))

    def is_value_error(self, exc):
        return self.E.exc_isa(exc, 'ValueError') and not exc.internal

    def must_raise(self, name, f, what=''):
        """every execution of f raises the library's ValueError"""
        o = self.attempt(f)
        if o.kind == 'ret':
            if o.risk and not self.risk_exact(o.risk):
                self.ob(name, None, '%s: may be accepted' % what)
            else:
                self.ob(name, False, '%s: accepted, returns %s' % (what, self.desc(o.v)))
            return o
        bad = [e for e in [o.exc] if not self.is_value_error(e)]
        if bad:
            e = bad[0]
            self.ob(name, False, '%s: raises %s at %s instead of the documented ValueError' % (what, e, e.where))
            return o
        self.ob(name, True, '%s: ValueError raised at %s' % (what, o.exc.where))
        return o

    def must_return(self, name, f, what='', internal_only=False):
        """f returns; a raise on every execution (or on a definitely feasible branch) is a violation"""
        o = self.attempt(f)
        if o.kind == 'raise':
            if internal_only and not o.exc.internal:
                self.ob(name, True, '%s: rejected with %s' % (what, o.exc))
                return o
            self.ob(name, False, '%s: raises %s at %s' % (what, o.exc, o.exc.where))
            return o
        for exc, path in o.may:
            if exc.internal and self.path_exact(path) and path:
                self.ob(name, False, '%s: raises %s at %s on a feasible branch' % (what, exc, exc.where), True)
                return o
        if any(exc.internal or not internal_only for exc, _ in o.may):
            self.ob(name, None, '%s: may raise %s' % (what, [e for e, _ in o.may][:2]))
        else:
            self.ob(name, True, '%s: returns %s' % (what, self.desc(o.v)))
        return o

    def desc(self, v):
        if isinstance(v, Ref) and v.kind == 'arr':
            try:
                r = self.E.arr(v)
                return 'array%s of %s' % (r.shape, r.dtype)
            except NeedSplit:
                return 'array'
        s = repr(v)
        return s if len(s) < 160 else s[:157] + '...'

    def decided(self, name, v, want, what=''):
        """boolean v is decided to be `want` on every execution"""
        if isinstance(v, Ref) and v.kind == 'arr':
            el = self.E.elems(v)
            if len(el) != 1:
                self.ob(name, None, '%s: array of %d' % (what, len(el)))
                return
            v = el[0]
        if not isinstance(v, (S, Top)) and not (v is None):
            self.ob(name, None, '%s: %r' % (what, v))
            return
        if v is None:
            self.ob(name, False, '%s: result None' % what)
            return
        d, c = self.E.truth(v)
        if d is None:
            ex = isinstance(v, S) and self.exact_cond(c)
            self.ob(name, False if ex else None, '%s: depends on %s' % (what, show(c)[:200]))
        else:
            self.ob(name, d == want, '%s: decided %s (required %s)' % (what, d, want))

    def exact_cond(self, t):
        return self.E.exact_cond(t)

    def els(self, v):
        v = self.E.use(v)
        if isinstance(v, S):
            return [v]
        if isinstance(v, Ref) and v.kind == 'arr':
            return [self.E.use(x) for x in self.E.elems(v)]
        if isinstance(v, Ref) and v.kind == 'list' or isinstance(v, Tup):
            return [y for x in self.E.iterate(v) for y in self.els(x)]
        if isinstance(v, Top):
            raise Unresolved('unknown value %s' % show(v.t)[:80])
        return [v]

    def shape(self, v):
        v = self.E.use(v)
        if isinstance(v, S):
            return ()
        if isinstance(v, Ref) and v.kind == 'arr':
            return self.E.arr(v).shape
        if isinstance(v, Top):
            raise Unresolved('unknown value')
        return None

    def deps(self, v):
        return frozenset(d[len(self.sid) + 1:] for d in self.E.tdeps(v) if d.startswith(self.sid + ':'))

    def writes(self, events, prefix=''):
        return [e for e in events if e['kind'] == 'write' and e['label'].startswith(prefix)]

    def reach(self, v, seen=None):
        """ids of mutable storage reachable from v"""
        E = self.E
        seen = {} if seen is None else seen
        v = E.use(v) if isinstance(v, PhiV) else v
        if isinstance(v, (Tup,)):
            for x in v.items:
                self.reach(x, seen)
        elif isinstance(v, tuple):
            for x in v:
                self.reach(x, seen)
        elif isinstance(v, Ref):
            if v.id in seen:
                return seen
            if v.kind == 'arr':
                rec = E.arr(v)
                if rec.idx:
                    seen[v.id] = v
                    seen[rec.buf] = v
                if rec.dtype == 'O':
                    for x in E.elems(v):
                        self.reach(x, seen)
            elif v.kind == 'obj':
                seen[v.id] = v
                for k, w in list(E.store.items()):
                    if k[0] == 'f' and k[1] == v.id:
                        self.reach(w, seen)
            else:
                seen[v.id] = v
                self.reach(E.cont(v), seen)
        return seen
