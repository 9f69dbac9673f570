"""C09: every public operation delivers a result or fails loudly."""
import ast
from .common import *

RULE = ('(1) Control-flow lint over every function of the library: a public operation whose body does nothing is a stub; '
        'a function that returns a value on some paths must not fall off its end on another (calls to functions that '
        'never return count as exits); an exception object that is built and dropped, a generator or bound method that is '
        'named but not called as a statement, and a broad handler that neither re-raises nor reports are violations.  '
        '(2) Exception flow over the call catalogue: no rejection raised by the library is intercepted by a handler on the '
        'way to the caller, and no catalogued call that completes yields nothing.')
FLOOR = 300
NORESULT = ('Properties.check_settings',)


def scenarios(tier):
    yield from over_catalogue(body, tier)


def body(b, c):
    E = b.E
    e0 = len(E.events)
    o = b.attempt(c.fn)
    sw = [e for e in E.events[e0:] if e['kind'] == 'handled' and not e.get('internal', True)]
    b.ob('rejections reach the caller', not sw, 'rejection caught at %s' % sw[0]['where'] if sw else '', True)
    if o.kind == 'ret' and c.op not in NORESULT:
        b.ob('result', none_free(o.v), 'completes without a result' if not none_free(o.v) else '')


def none_free(v):
    if isinstance(v, PhiV):
        return none_free(v.a) and none_free(v.b)
    return v is not None


# ------------------------------------------------------------------ program text
def functions(tree):
    """(qualified name, node, class or None)"""
    out = []

    def rec(body, pre, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((pre + n.name, n, cls))
                rec(n.body, pre + n.name + '.', None)
            elif isinstance(n, ast.ClassDef):
                rec(n.body, pre + n.name + '.', n)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    rec(getattr(n, f, []), pre, cls)
    rec(tree.body, '', None)
    return out


def trivial(node):
    """nothing but docstrings, pass and bare returns"""
    for s in node.body:
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant) and s.value.value is None):
            continue
        return False
    return True


def call_name(e):
    f = e.func if isinstance(e, ast.Call) else e
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def never_returns(call, noret):
    n = call_name(call)
    if n not in noret:
        return False
    given = {k.arg for k in call.keywords}
    for p, pos in noret[n].items():
        if p in given or pos < len(call.args) or None in given:
            return False
    return True


def flags(node):
    """parameters with constant defaults that the body never rebinds: (values, positions)"""
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    for x, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [
            (k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if isinstance(d, ast.Constant) and isinstance(d.value, bool):
            out[x] = d.value
    for x in own(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.pop(x.id, None)
    return out, {x: (names.index(x) if x in names else 10 ** 6) for x in out}


def exits(body, env):
    """return statements reachable when the flags in env have these values"""
    for s in body:
        if isinstance(s, ast.Return):
            yield s
        if isinstance(s, ast.If) and isinstance(s.test, ast.Name) and s.test.id in env:
            yield from exits(s.body if env[s.test.id] else s.orelse, env)
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                yield from exits(getattr(s, f, []) or [], env)
        for h in getattr(s, 'handlers', []):
            yield from exits(h.body, env)


def falls(body, noret):
    """may control reach the end of this block?"""
    for s in body:
        if not falls1(s, noret):
            return False
    return True


def breaks(body):
    for s in body:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if breaks(getattr(s, f, []) or []):
                return True
        for h in getattr(s, 'handlers', []):
            if breaks(h.body):
                return True
    return False


def falls1(s, noret):
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return False
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and never_returns(s.value, noret):
        return False
    if isinstance(s, ast.If):
        if isinstance(s.test, ast.Constant):
            return falls(s.body if s.test.value else s.orelse, noret)
        if isinstance(s.test, ast.Name) and s.test.id in noret.get('', {}):
            return falls(s.body if noret[''][s.test.id] else s.orelse, noret)
        return falls(s.body, noret) or falls(s.orelse, noret)
    if isinstance(s, ast.While):
        if isinstance(s.test, ast.Constant) and s.test.value:
            return breaks(s.body)
        return True
    if isinstance(s, ast.With):
        return falls(s.body, noret)
    if isinstance(s, ast.Try):
        if s.finalbody and not falls(s.finalbody, noret):
            return False
        return falls(s.body + s.orelse, noret) or any(falls(h.body, noret) for h in s.handlers)
    if isinstance(s, ast.Assert):
        return not (isinstance(s.test, ast.Constant) and not s.test.value)
    return True


def own(node):
    """statements and expressions of a function without those of nested functions"""
    st = list(node.body)
    while st:
        n = st.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                st.append(c)


EXC = ('Exception', 'BaseException')
BUILTIN_EXC = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else object)} if False else {
    'ValueError', 'TypeError', 'KeyError', 'IndexError', 'RuntimeError', 'NotImplementedError', 'ArithmeticError',
    'ZeroDivisionError', 'AttributeError', 'LookupError', 'AssertionError', 'Exception', 'OSError', 'OverflowError'}


def lib_call(c):
    """name of the called function unless it is an attribute of a numerical or system module"""
    f = c.func
    if isinstance(f, ast.Attribute):
        r = f.value
        while isinstance(r, ast.Attribute):
            r = r.value
        if isinstance(r, ast.Name) and r.id in FOREIGN:
            return None
        return f.attr
    return f.id if isinstance(f, ast.Name) else None


FOREIGN = {'np', 'numpy', 'sp', 'scipy', 'math', 'linalg', 'la', 'ml', 'os', 'sys', 're', 'logging', 'inspect'}
ERRS = {'ValueError', 'Exception', 'BaseException'}


def catches(h, name):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(isinstance(t, (ast.Name, ast.Attribute)) and call_name(t) in (name,) + EXC for t in ts)


def rejecters(units):
    """names of library functions from which a ValueError may come (by name over the call graph)"""
    calls, rej = {}, set()
    for rel, q, n, cls in units:
        for x in own(n):
            if isinstance(x, ast.Call):
                calls.setdefault(n.name, set()).add(lib_call(x))
            if isinstance(x, ast.Raise) and x.exc is not None:
                e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
                if not isinstance(e, (ast.Name, ast.Attribute)) or call_name(e) in ERRS or call_name(e) not in BUILTIN_EXC:
                    rej.add(n.name)
    ctor = {cls.name: '__init__' for _, q, n, cls in units if cls is not None and n.name == '__init__'}
    change = True
    while change:
        change = False
        for f, cs in calls.items():
            if f not in rej and any(c in rej or ctor.get(c) in rej for c in cs):
                rej.add(f)
                change = True
    return rej | {c for c, i in ctor.items() if i in rej}


def program_rules(lab):
    res = {}
    cov = dict(functions_linted=0, stubs=0, handlers=0, exits_checked=0)
    units = []
    for rel in lab.files:
        with open(os.path.join(lab.E.root, rel)) as f:
            tree = ast.parse(f.read())
        for q, n, cls in functions(tree):
            units.append((rel, q, n, cls))
    cov['functions_linted'] = len(units)
    noret = {}
    byname = {}
    for rel, q, n, cls in units:
        byname.setdefault(n.name, []).append(n)
    change = True
    while change:
        change = False
        for name, ns in byname.items():
            if name in noret or any(trivial(n) or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(n))
                                    for n in ns):
                continue
            if all(not falls(n.body, noret) and not any(True for _ in exits(n.body, {})) for n in ns):
                noret[name] = {}
                change = True
            elif len(ns) == 1:
                env, pos = flags(ns[0])
                if env and not falls(ns[0].body, dict(noret, **{'': env})) and \
                        not any(True for _ in exits(ns[0].body, env)):
                    noret[name] = pos
                    change = True
    rejecting = rejecters(units)
    # hooks: do-nothing methods that exist to be overridden and are called by the library itself for effect only
    hook = set()
    for rel, q, n, cls in units:
        for x in own(n):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                hook.add(call_name(x.value))
    overridden = {}
    for rel, q, n, cls in units:
        overridden.setdefault(n.name, 0)
        overridden[n.name] += 0 if trivial(n) else 1
    for rel, q, n, cls in units:
        key = 'lint/%s:%s' % (rel, q)
        deco = [ast.unparse(d) for d in n.decorator_list]
        abstract = any('abstract' in d or 'overload' in d for d in deco)
        public = not n.name.startswith('_') or n.name.startswith('__') and n.name.endswith('__')
        if trivial(n) and not abstract and n.name != '__init__' and n.name not in hook and public:
            if cls is not None and is_base_of_override(cls, n.name, units):
                continue
            cov['stubs'] += 1
            res[key + '/implemented'] = ('violated', 'public operation does nothing and returns nothing (line %d)' % n.lineno)
            continue
        if public and not abstract and not trivial(n):
            res[key + '/implemented'] = ('held', '')
        rets = [x for x in own(n) if isinstance(x, ast.Return)]
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(n))
        val = [r for r in rets if r.value is not None and not (isinstance(r.value, ast.Constant) and r.value.value is None)]
        if val and not gen and not abstract:
            cov['exits_checked'] += len(rets) + 1
            bare = [r for r in rets if r not in val and r.value is None]
            bad = falls(n.body, noret)
            res[key + '/every exit has a result'] = (
                ('violated', 'returns a value at line %d but falls off its end / returns nothing at line %s' % (
                    val[0].lineno, bare[0].lineno if bare else n.end_lineno)) if bad or bare else ('held', ''))
        for x in own(n):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and call_name(x.value) in BUILTIN_EXC:
                res[key + '/exceptions are raised'] = ('violated', '%s built and dropped at line %d' % (
                    call_name(x.value), x.lineno))
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and noret.get(call_name(x.value)) and \
                    not never_returns(x.value, noret):
                res[key + '/exceptions are raised'] = ('violated', 'error object of %s dropped at line %d' % (
                    call_name(x.value), x.lineno))
            if isinstance(x, ast.Try) and any(isinstance(z, ast.Return) for s in x.finalbody for z in ast.walk(s)):
                res[key + '/rejections pass'] = ('violated', 'return inside finally at line %d discards exceptions' %
                                                 x.finalbody[0].lineno)
            if isinstance(x, ast.With) and any(isinstance(i.context_expr, ast.Call) and call_name(i.context_expr) == 'suppress'
                                               and any(call_name(a) in ERRS for a in i.context_expr.args
                                                       if isinstance(a, (ast.Name, ast.Attribute))) for i in x.items):
                res[key + '/rejections pass'] = ('violated', 'errors suppressed at line %d' % x.lineno)
            if isinstance(x, ast.Try):
                for y in (y for s in x.body for y in ast.walk(s)):
                    if not (isinstance(y, ast.Call) and lib_call(y) in rejecting):
                        continue
                    h = next((h for h in x.handlers if catches(h, 'ValueError')), None)
                    if h is not None and (falls(h.body, noret) or any(isinstance(z, (ast.Return, ast.Continue, ast.Break))
                                                                      for s in h.body for z in ast.walk(s))):
                        res[key + '/rejections pass'] = (
                            'violated', 'handler at line %d intercepts a rejection by %s' % (h.lineno, lib_call(y)))
            if isinstance(x, ast.ExceptHandler):
                cov['handlers'] += 1
                names = [None] if x.type is None else [call_name(t) if isinstance(t, (ast.Name, ast.Attribute)) else None
                                                       for t in (x.type.elts if isinstance(x.type, ast.Tuple) else [x.type])]
                broad = x.type is None or any(t in EXC for t in names)
                if broad and not any(isinstance(y, ast.Raise) or isinstance(y, ast.Call) and never_returns(y, noret)
                                     for z in x.body for y in ast.walk(z)):
                    res[key + '/handlers'] = ('violated', 'handler at line %d swallows every exception' % x.lineno)
    return res, cov


def is_base_of_override(cls, name, units):
    """a do-nothing default in a base class that every concrete subclass overrides with something"""
    subs = [c for _, q, n, c in units if c is not None and any(call_name(x) == cls.name for x in c.bases
                                                               if isinstance(x, (ast.Name, ast.Attribute)))]
    subs = {id(c): c for c in subs}.values()
    if not subs:
        return False
    return all(any(isinstance(s, ast.FunctionDef) and s.name == name and not trivial(s) for s in c.body) for c in subs)
