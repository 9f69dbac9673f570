"""Command line: python3 -m ellstat.run --prop C01 [--tier quick|thorough] [--only SUBSTRING]

Analyses /repo's current source (or $ELLSTAT_REPO) and decides the obligations of one property.
exit 0: no obligation violated (beyond the known findings); exit 1: VIOLATION line(s); exit 2: the analysis collapsed.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.setrecursionlimit(20000)


class Sc:
    """one scenario: `body(b)` builds abstract inputs, calls public operations and states obligations"""

    def __init__(self, sid, body, max_runs=None, tmax=None):
        self.sid, self.body, self.max_runs, self.tmax = sid, body, max_runs, tmax

FIRST = False


def worker(prop, tier, only, idx, n, q, repo, budget):
    try:
        from .lab import Lab
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        t0 = time.time()
        mod = importlib.import_module('ellstat.props.' + prop.lower())
        lab = Lab(repo) if repo else Lab()
        scs = [s for s in mod.scenarios(tier) if not only or only in s.sid]
        missing = []
        crashed = []
        done = 0
        if FIRST:
            random.Random(0).shuffle(scs)
        listed = set(k for x in known(prop) for k in x['keys']) if FIRST else ()
        while True:
            with idx.get_lock():
                i = idx.value
                idx.value += 1
            if i >= len(scs):
                break
            s = scs[i]
            if time.time() - t0 > budget:
                lab.results[s.sid + '/run'] = ('unresolved', 'time budget')
                continue
            mr = s.max_runs or 48
            tm = s.tmax or 20
            if tier == 'thorough':
                mr, tm = mr * 6, tm * 6
            t1 = time.time()
            try:
                lab.run(s.sid, s.body, max_runs=mr, tmax=tm)
            except Exception as e:
                if type(e).__name__ == 'Lost':
                    missing.append(str(e))
                    lab.results[s.sid + '/run'] = ('unresolved', 'public operation %s not found' % e)
                else:
                    crashed.append((s.sid, traceback.format_exc()[-1500:]))
                    lab.results[s.sid + '/run'] = ('unresolved', 'analyser: %r' % (e,))
            if FIRST and any(v[0] == 'violated' and k not in listed for k, v in lab.results.items()):
                idx.value = len(scs)
            done += 1
            lab.times = getattr(lab, 'times', {})
            lab.times[s.sid] = time.time() - t1
        q.put(dict(results=lab.results, stats=lab.stats, functions=lab.functions, sites=len(lab.sites), unk=lab.unk,
                   unres=lab.unres, files=lab.files, load_errors=lab.load_errors, missing=missing, crashed=crashed,
                   times=getattr(lab, 'times', {}), n=len(scs), sitelist=sorted(map(str, lab.sites))))
    except Exception:
        q.put(dict(fatal=traceback.format_exc()))


def explore(prop, tier, only=None, repo=None, procs=None, budget=700):
    procs = procs or min(8, os.cpu_count() or 1)
    ctx = mp.get_context('fork')
    idx = ctx.Value('i', 0)
    q = ctx.Queue()
    ps = [ctx.Process(target=worker, args=(prop, tier, only, idx, procs, q, repo, budget)) for _ in range(procs)]
    for p in ps:
        p.start()
    outs = []
    for _ in ps:
        outs.append(q.get(timeout=budget + 180))
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.terminate()
    return outs


def merge(outs):
    R = dict(results={}, functions={}, unk={}, unres={}, missing=[], crashed=[], times={}, sites=set(), files=[],
             load_errors=[], stats={}, n=0)
    for o in outs:
        if 'fatal' in o:
            sys.stderr.write(o['fatal'])
            R['fatal'] = o['fatal']
            continue
        R['results'].update(o['results'])
        R['times'].update(o['times'])
        R['unres'].update(o['unres'])
        R['missing'] += o['missing']
        R['crashed'] += o['crashed']
        R['sites'] |= set(o['sitelist'])
        R['files'], R['load_errors'], R['n'] = o['files'], o['load_errors'], o['n']
        for k in ('functions', 'unk'):
            for a, v in o[k].items():
                R[k][a] = R[k].get(a, 0) + v
        for a, v in o['stats'].items():
            R['stats'][a] = R['stats'].get(a, 0) + v
    return R


def known(prop):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['known'] if k['property'] == prop]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--tier', default=None)
    ap.add_argument('--only', default=None)
    ap.add_argument('--procs', type=int, default=None)
    ap.add_argument('--first', action='store_true', help='stop at the first violation (development)')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    global FIRST
    FIRST = a.first
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    prop = a.prop.upper()
    t0 = time.time()
    repo = None         # TARGET in interp.py already honours $ELLSTAT_REPO
    mod = importlib.import_module('ellstat.props.' + prop.lower())
    # static and cheap: rules over the whole program text
    prog = {}
    prog_cov = {}
    if hasattr(mod, 'program_rules'):
        from .lab import Lab
        lab0 = Lab(repo) if repo else Lab()
        prog, prog_cov = mod.program_rules(lab0)
    R = merge(explore(prop, tier, a.only, repo, a.procs))
    res = dict(prog)
    res.update(R['results'])
    kf = known(prop)
    kmap = {}
    for k in kf:
        for key in k['keys']:
            kmap[key] = k
    viol, kfound = [], {}
    for key in sorted(res):
        st, det = res[key][0], res[key][1]
        if st == 'violated':
            if key in kmap:
                kfound.setdefault(kmap[key]['id'], []).append((key, det))
            else:
                viol.append((key, det))
    held = sum(1 for v in res.values() if v[0] == 'held')
    unres = sorted(k for k, v in res.items() if v[0] == 'unresolved')
    decided = held + len(viol) + sum(len(v) for v in kfound.values())
    for i in sorted(kfound):
        k = [x for x in kf if x['id'] == i][0]
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ev = os.environ.get('ELLSTAT_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    wall = time.time() - t0
    cov = dict(
        explanation=mod.RULE,
        files_analysed=len(R['files']), files_not_loaded=R['load_errors'],
        scenarios=R['n'], abstract_executions=R['stats'].get('runs', 0), abstract_steps=R['stats'].get('steps', 0),
        functions_analysed=len(R['functions']), call_sites_analysed=len(R['sites']),
        obligations=len(res), discharged=held, violated=len(viol),
        violated_known=sum(len(v) for v in kfound.values()), unresolved=len(unres),
        unresolved_list=[[k, str(res[k][1])[:160]] for k in unres][:200],
        unmodelled_library_calls=R['unk'],
        functions=sorted(R['functions'])[:400],
        samples=[[k, res[k][0], str(res[k][1])[:200]] for k in sorted(res)[::max(1, len(res) // 12)]][:14])
    cov.update(prog_cov)
    if viol:
        cov['violation_list'] = [dict(key=k, detail=str(d)[:600]) for k, d in viol]
    if R['crashed']:
        cov['analyser_errors'] = R['crashed'][:10]
    doc = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(wall, 2),
               violations=len(viol),
               assumptions=getattr(mod, 'ASSUME', []) + [
                   'library calls (numpy, scipy) behave as their transfer functions in ellstat/npmodel.py',
                   'inputs range over the abstract boxes and array shapes named by the scenarios',
                   'real-number semantics for the compared closed forms (rounding is not modelled)'])
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    if a.v:
        for k in unres:
            print('  UNRESOLVED', k, '::', str(res[k][1])[:200])
        for s, t in sorted(R['times'].items(), key=lambda x: -x[1])[:8]:
            print('  %.1fs %s' % (t, s))
        print('  functions', len(R['functions']), 'unk', R['unk'])
    for c in R['crashed']:
        sys.stderr.write('analyser error in %s\n%s\n' % (c[0], str(c[1])[-400:]))
    print('%s tier=%s scenarios=%d runs=%d obligations=%d held=%d unresolved=%d known=%d violated=%d wall=%.1fs' % (
        prop, tier, R['n'], R['stats'].get('runs', 0), len(res), held, len(unres),
        sum(len(v) for v in kfound.values()), len(viol), wall))
    if viol:
        rp = os.path.join(ev, 'replay', prop + '.txt')
        with open(rp, 'w') as f:
            for k, d in viol:
                f.write('%s\n    %s\n' % (k, d))
            f.write('\nreproduce: cd %s && python3 -m ellstat.run --prop %s --only %r -v\n' % (
                ROOT, prop, viol[0][0].rsplit('/', 1)[0]))
        for k, d in viol[:12]:
            print('  violated: %s\n      %s' % (k, str(d)[:500]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if R.get('fatal') or (not a.only and decided < getattr(mod, 'FLOOR', 1)):
        print('ANALYSIS-COLLAPSED property=%s decided=%d floor=%d missing=%s' % (
            prop, decided, getattr(mod, 'FLOOR', 1), R['missing'][:5]))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
