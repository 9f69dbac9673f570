"""C13: the configuration is a faithful store and the parsing of options is exact."""
from .rel import *

RULE = ('Value-number tracking of the configuration: with every option holding a symbolic value of its own, each getter returns '
        'the value of exactly its option, each setter changes exactly its option, a replaced configuration is used as given, '
        'the returned dictionary is an independent full picture; parsing of options returns, for every subset and order of '
        'requested names, the given value when present and the configured one otherwise, in the requested order, with the '
        'remaining keywords left over and the arguments untouched; inadmissible values and unknown names are rejected.')
FLOOR = 60
OPTS = ['version', 'is_verbose', 'abs_tol', 'rel_tol', 'reg_tol', 'ode_solver_name', 'is_ode_norm_control',
        'is_enabled_ode_solver_options', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points']
SET = ['is_verbose', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points', 'abs_tol', 'rel_tol']
DEFAULTS = dict(version='2.1', is_verbose=False, abs_tol=1e-6, rel_tol=1e-5, n_time_grid_points=250, ode_solver_name='ode45',
                is_ode_norm_control=True, is_enabled_ode_solver_options=False, n_plot_2d_points=200, n_plot_3d_points=200,
                reg_tol=1e-5)


def value(b, opt, tag):
    if opt.endswith('tol'):
        return b.num(tag + opt, 1e-6, 1e-3)
    if opt.startswith('n_'):
        return b.num(tag + opt, 10, 400, 'i')
    if opt.startswith('is_'):
        return b.boolean(tag + opt)
    return {'version': tag + 'version', 'ode_solver_name': 'ode23' if tag.startswith('c') else 'ode113'}[opt]


def conf(b, tag='c'):
    d = {o: value(b, o, tag) for o in OPTS}
    dd = b.E.new_dict(list(d.items()))
    b.meth(b.get(PROPS_), 'set_conf_repo_mgr', dd)
    return d, dd


def eqv(b, x, y):
    if isinstance(x, S) and isinstance(y, S):
        return x.t is y.t if x.k == 'b' or y.k == 'b' else scalar(b, x, y)[0]
    if isinstance(x, Top) or isinstance(y, Top):
        return None
    return x == y if isinstance(x, str) or isinstance(y, str) else x is y


def read(b):
    return {o: b.E.use(b.meth(b.get(PROPS_), 'get_' + o)) for o in OPTS}


def against(b, got, want, what):
    for o in OPTS:
        b.ob(o, eqv(b, got[o], want[o]), '%s: option %s is %r, required %r' % (what, o, got[o], want[o]))


def getters(b):
    d, _ = conf(b)
    against(b, read(b), d, 'getter')
    against(b, read(b), d, 'getter called again')


def whole(b):
    d, dd = conf(b)
    p = b.meth(b.get(PROPS_), 'get_prop_dict')
    items = dict(b.E.cont(p))
    b.ob('same options', set(items) == set(d), 'options %s' % sorted(map(str, set(items) ^ set(d))))
    against(b, {o: items.get(o) for o in OPTS}, d, 'dictionary')
    for o in OPTS:
        b.E.setitem(p, o, num(0))
    against(b, read(b), d, 'after the returned dictionary was overwritten')
    m = b.meth(b.get(PROPS_), 'get_conf_repo_mgr')
    items = dict(b.E.cont(m))
    against(b, {o: items.get(o) for o in OPTS}, d, 'repository')


def setter(b, opt, times):
    d, _ = conf(b)
    for i in range(times):
        d[opt] = value(b, opt, 'n%d' % i)
        r = b.meth(b.get(PROPS_), 'set_' + opt, d[opt])
        against(b, read(b), d, 'after setting %s' % opt)
    items = dict(b.E.cont(b.meth(b.get(PROPS_), 'get_prop_dict')))
    against(b, {o: items.get(o) for o in OPTS}, d, 'dictionary after setting %s' % opt)


def sequence(b, first, second):
    d, _ = conf(b)
    for o in (first, second):
        d[o] = value(b, o, 'n')
        b.meth(b.get(PROPS_), 'set_' + o, d[o])
    against(b, read(b), d, 'after setting %s and %s' % (first, second))


def initial(b, again):
    if again:
        conf(b)
        b.meth(b.get(PROPS_), 'init')
    got = read(b)
    for o in OPTS:
        w = DEFAULTS[o]
        w = w if isinstance(w, str) else boolv(w) if isinstance(w, bool) else num(w)
        b.ob(o, eqv(b, got[o], w), 'initial %s is %r, documented %r' % (o, got[o], DEFAULTS[o]))


def parse(b, need, given, extra):
    d, dd = conf(b)
    kw = {o: value(b, o, 'k') for o in given}
    ex = {o: num(7 + i) for i, o in enumerate(extra)}
    allkw = dict(kw, **ex)
    items = list(allkw.items())
    if len(items) > 1:
        items = items[1:] + items[:1]
    args = b.E.new_dict(items)
    a = [args] if need is None else [args, b.lst(list(need))]
    r = b.E.iterate(returns(b, lambda: b.meth(b.get(PROPS_), 'parse_prop', *a)))
    vals = b.E.iterate(r[0])
    names = OPTS if need is None else need
    b.ob('count', len(vals) == len(names), '%d values for %d names' % (len(vals), len(names)))
    for n, v in zip(names, vals):
        b.ob(n, eqv(b, b.E.use(v), kw.get(n, d[n])), 'parsed %s is %r, required %r' % (n, v, kw.get(n, d[n])))
    left = dict(b.E.cont(r[1]))
    want = {k: v for k, v in allkw.items() if k not in names}
    b.ob('left over', set(left) == set(want) and all(eqv(b, left[k], want[k]) is not False for k in want),
         'left over %s, required %s' % (sorted(map(str, left)), sorted(want)))
    now = dict(b.E.cont(args))
    b.ob('arguments untouched', set(now) == set(allkw), 'arguments now %s' % sorted(map(str, now)))
    against(b, read(b), d, 'configuration after parsing')


BAD = dict(version=[num(1), num(2.0), None], is_verbose=[num(1), num(0), 'yes', None],
           abs_tol=[num(0.0), num(-1e-6), num(1), 'x', None], rel_tol=[num(0.0), num(-1.0), num(1), 'x', None],
           reg_tol=[num(0.0), num(-1.0), num(1), None], ode_solver_name=['ode15', num(1), None],
           is_ode_norm_control=[num(1), 'y'], is_enabled_ode_solver_options=[num(0), 'n'],
           n_plot_2d_points=[num(1.5), num(-0.5), 'x', None], n_plot_3d_points=[num(2.25), 'x', None],
           n_time_grid_points=[num(0.1), 'x', None])


def rejected(b, opt, v, where, full_):
    d, dd = conf(b)
    if where == 'keyword':
        args = b.E.new_dict([(opt, v)])
    else:
        args = b.E.new_dict([])
        b.E.setitem(dd, opt, v)
    a = [args] if full_ else [args, b.lst([opt])]
    b.must_raise('rejected', lambda: b.meth(b.get(PROPS_), 'parse_prop', *a), '%s=%r' % (opt, v))


GOOD = dict(version=['', '9'], abs_tol=[num(1e-15), num(2.0)], rel_tol=[num(1e-15), num(2.0)], reg_tol=[num(1e-15), num(2.0)],
            is_verbose=[boolv(True), boolv(False)], ode_solver_name=['ode45', 'ode23', 'ode113'],
            is_ode_norm_control=[boolv(True), boolv(False)], is_enabled_ode_solver_options=[boolv(True), boolv(False)],
            n_plot_2d_points=[num(3), num(3.0)], n_plot_3d_points=[num(3), num(3.0)],
            n_time_grid_points=[num(3), num(3.0)])


def accepted(b, opt, v, where):
    d, dd = conf(b)
    if where == 'keyword':
        args = b.E.new_dict([(opt, v)])
    else:
        args = b.E.new_dict([])
        b.E.setitem(dd, opt, v)
    r = b.E.iterate(returns(b, lambda: b.meth(b.get(PROPS_), 'parse_prop', args, b.lst([opt])), 'accepted'))
    b.ob('accepted', eqv(b, b.E.iterate(r[0])[0], v), '%s=%r' % (opt, v))


def unknown(b, need):
    conf(b)
    b.must_raise('rejected', lambda: b.meth(b.get(PROPS_), 'parse_prop', b.E.new_dict([]), b.lst(need)), 'names %s' % need)


def scenarios(tier):
    yield sc('getters', getters)
    yield sc('dictionary', whole)
    yield sc('initial values', initial, False)
    yield sc('initial values restored', initial, True)
    for o in SET:
        for t in (1, 2):
            yield sc('set %s[%d]' % (o, t), setter, o, t)
        for p in SET:
            if p != o:
                yield sc('set %s then %s' % (o, p), sequence, o, p)
    for i, o in enumerate(OPTS):
        p, q = OPTS[(i + 3) % len(OPTS)], OPTS[(i + 7) % len(OPTS)]
        for need in ((o,), (o, p), (p, o), (o, p, q), (q, o, p), None):
            for given in ((), (o,), (p,), (o, p), (o, p, q)):
                for extra in ((), ('other',)):
                    yield sc('parse[%s;%s;%s]' % ('all' if need is None else '+'.join(need), '+'.join(given), len(extra)),
                             parse, need, given, extra)
        for v in GOOD[o]:
            for where in ('keyword', 'configuration'):
                yield sc('admissible[%s=%r,%s]' % (o, v, where), accepted, o, v, where)
        for v in BAD[o]:
            for where in ('keyword', 'configuration'):
                for full_ in (False, True):
                    yield sc('inadmissible[%s=%r,%s,%s]' % (o, v, where, full_), rejected, o, v, where, full_)
    yield sc('parse[;;0]', parse, (), (), ())
    yield sc('parse[;abs_tol;1]', parse, (), ('abs_tol',), ('other',))
    for need in (['tol'], ['abs_tol', 'tol'], ['tol', 'abs_tol'], ['absTol'], ['']):
        yield sc('unknown names[%s]' % '+'.join(need), unknown, need)
