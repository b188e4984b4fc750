"""Runs the cases of one property in parallel, replays counterexamples, writes the evidence file."""
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
KNOWN = os.path.join(HERE, 'known_findings.txt')


def load_harnesses():
    import harness
    for m in pkgutil.iter_modules(harness.__path__):
        importlib.import_module('harness.' + m.name)


def known_findings(prop):
    """lines 'KNOWN-FINDING: property=<id> case=<case> :: <failing obligation prefix> :: <description>'"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip('\n')
            if l.startswith('KNOWN-FINDING: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                parts = [x.strip() for x in rest.split('::')]
                if len(parts) == 3 and parts[0].startswith('case='):
                    out.append((parts[0][5:], parts[1], parts[2]))
    return out


def run_case(args):
    prop, key, extdir, tier, seed = args
    from engine import cases
    load_harnesses()
    c = [k for k in cases.CASES[prop] if k.key == key][0]
    try:
        if os.environ.get('VERIF_DEBUG'):
            return _run_case(c, extdir, tier, seed)
        import contextlib
        with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null):
            return _run_case(c, extdir, tier, seed)     # what the code under test prints is not part of the report
    except BaseException as e:
        return {'key': key, 'status': 'error', 'msg': 'internal: %s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc(),
                'stats': {}, 'fails': [], 'files': {}, 'sample': None, 'runs': 0, 'violations': [], 'wall': 0}


def concrete(c, extdir, values, choices, seed, only=None):
    from engine import harness as H
    loader = H.RealLoader(c.config, extdir)
    return H.run_conc(c.fn, c.params, loader, values, choices, seed, only)


def _run_case(c, extdir, tier, seed):
    from engine import harness as H
    from engine import sym as S
    import z3
    z3.set_param('smt.random_seed', seed)
    t0 = time.time()
    res = {'key': c.key, 'status': 'ok', 'msg': '', 'fails': [], 'files': {}, 'sample': None, 'runs': 0, 'violations': [], 'stats': {}}
    stats = {}
    budget = c.budget if tier == 'quick' else c.budget * 3
    try:
        stats, fails, files, sample, undecided = H.explore(c.fn, c.params, c.config, budget, c.max_paths)
        res.update(stats=stats, files=files, sample=sample)
        if undecided:
            res['status'] = 'inconclusive'
            res['msg'] = undecided
        elif not stats.get('reached'):
            res['status'] = 'inconclusive'
            res['msg'] = 'vacuous: no path reaches an obligation'
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        res['status'] = 'inconclusive'
        res['msg'] = '%s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()
        fails = []
    # replay every counterexample against the real code
    for f in fails:
        info = f['info'] or {}
        rep = None
        cands = [(m, info.get('choices', []), 's') for m in info.get('models', [])]
        rng = random.Random(seed)
        tries = []
        for m, ch, _ in cands:
            tries.append((m, ch, seed))
            for k in range(4):
                tries.append(({n: v + rng.uniform(-1e-3, 1e-3) * (abs(v) + .01) for n, v in m.items()}, ch, seed + k))
        nscaled = len(tries)
        tries += [(m, info.get('choices', []), seed) for m in info.get('scaled', [])]
        for k in range(12):
            tries.append(({}, info.get('choices', []), seed * 1000 + k))
        for nt, (m, ch, sd) in enumerate(tries):
            only = f['what'] if nscaled <= nt < nscaled + len(info.get('scaled', [])) else None
            try:
                r, h = concrete(c, extdir, m, ch, sd, only)
            except H.Discard:
                continue
            except Exception as e:
                res['msg'] += ' replay error %s' % e if 'replay error' not in res['msg'] else ''
                continue
            if r is not None and (only is None or r[0] == only):
                rep = (r, h, sd)
                break
        if rep is None:
            res['status'] = 'inconclusive'
            res['msg'] += ' counterexample of "%s" does not reproduce on the real code (%s; verdict %s)' % (
                f['what'], info.get('detail', ''), info.get('verdict'))
            res['fails'].append({'what': f['what'], 'info': {k: v for k, v in info.items()}})
        else:
            r, h, sd = rep
            res['violations'].append({'case': c.key, 'what': r[0], 'detail': r[1], 'symbolic_obligation': f['what'],
                                      'values': h.values, 'choices': h.choices, 'seed': sd, 'only': only, 'found_by': 'solver'})
    # encoder validation: the same harness on the real code with concrete values
    ok = 0
    disc = 0
    k = 0
    while ok < c.runs and k < c.runs * 8:
        k += 1
        try:
            r, h = concrete(c, extdir, {}, [], seed * 7919 + k)
        except H.Discard:
            disc += 1
            continue
        except BaseException as e:
            res['status'] = 'inconclusive'
            res['msg'] += ' concrete run error %s: %s' % (type(e).__name__, e)
            break
        ok += 1
        if r is not None:
            res['violations'].append({'case': c.key, 'what': r[0], 'detail': r[1], 'values': h.values, 'choices': h.choices,
                                      'seed': seed * 7919 + k, 'found_by': 'encoder validation run'})
            break
    res['runs'] = ok
    res['discarded'] = disc
    res['wall'] = time.time() - t0
    return res


def child(args, conn):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    r = run_case(args)
    conn.send(r)
    conn.close()


def run_all(jobs, limit, nproc=8, total=None, stop=None, grace=15):
    """one process per case, at most nproc at a time, each killed at its limit; nothing new is started, and what still runs
    is ended after a grace period, once a violation to report is known or the total time is up"""
    begin = time.time()
    over = None
    ctx = mp.get_context('fork')
    todo = list(jobs)
    nproc = int(os.environ.get('VERIF_NPROC', nproc))
    grace = float(os.environ.get('VERIF_GRACE', grace))
    live = []
    out = []
    while todo or live:
        if over is None and total and time.time() - begin > total:
            over = (time.time(), 'time limit of the whole check')
        if over is not None:
            out += [dead(j, over[1]) for j in todo]
            todo = []
        while todo and len(live) < nproc:
            j = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=child, args=(j, b))
            p.start()
            b.close()
            live.append((j, p, a, time.time()))
        ready = mp.connection.wait([x[2] for x in live], timeout=1.0)
        nl = []
        for j, p, a, t in live:
            if a in ready:
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                p.join()
                out.append(r or dead(j, 'worker died (exit %s)' % p.exitcode))
                if over is None and r and stop and stop(r):
                    over = (time.time() + grace, 'not run to its end: another case reported a violation')
            elif time.time() - t > limit or over is not None and time.time() > over[0]:
                p.kill()
                p.join()
                out.append(dead(j, over[1] if over is not None else 'time limit of %ds' % limit))
            else:
                nl.append((j, p, a, t))
        live = nl
    return out


def dead(j, msg):
    return {'key': j[1], 'status': 'inconclusive', 'msg': msg, 'stats': {}, 'fails': [], 'files': {}, 'sample': None, 'runs': 0,
            'violations': [], 'wall': 0}


def main(argv):
    import multiprocessing.connection  # noqa
    verbose = '--verbose' in argv
    argv = [a for a in argv if a != '--verbose']
    if '--thorough' in argv:
        global TIER
        TIER = 'thorough'
        argv = [a for a in argv if a != '--thorough']
    only = None
    if '--only' in argv:
        i = argv.index('--only')
        only = argv[i + 1]
        del argv[i:i + 2]
    if '--replay' in argv:
        i = argv.index('--replay')
        return replay(argv[i + 1])
    if '--setup' in argv:
        from engine import harness as H
        load_harnesses()
        print('extensions built in', H.build_ext())
        return 0
    prop = argv[0]
    from engine import cases
    from engine import harness as H  # noqa
    load_harnesses()
    t0 = time.time()
    cs = [c for c in cases.CASES.get(prop, []) if TIER == 'thorough' or c.tier == 'quick']
    if only:
        cs = [c for c in cs if only in c.key]
    if not cs:
        print('no cases for %s' % prop)
        return 2
    extdir = None
    if any(c.config == 'ext' for c in cs):
        try:
            extdir = H.build_ext()
        except Exception as e:
            print('INCONCLUSIVE property=%s cannot build the extensions: %s' % (prop, e))
            return 2
    import z3  # noqa
    jobs = [(prop, c.key, extdir, TIER, SEED) for c in sorted(cs, key=lambda c: -c.budget)]
    limit = 800 if TIER == 'quick' else 3600
    known = known_findings(prop)

    def news(r):
        return any(not any(cn == v['case'] and v['what'].startswith(ob) for cn, ob, _ in known) for v in r['violations'])
    res = run_all(jobs, limit, total=820 if TIER == 'quick' else None, stop=news)
    res.sort(key=lambda r: r['key'])
    viol = []
    inc = []
    kf = []
    for r in res:
        for v in r['violations']:
            m = [d for (cn, ob, d) in known if cn == v['case'] and v['what'].startswith(ob)]
            if m:
                kf.append((v, m[0]))
            else:
                viol.append(v)
        if r['status'] != 'ok':
            inc.append(r)
    tot = {}
    for r in res:
        for k, v in r['stats'].items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
    files = {}
    for r in res:
        files.update(r['files'])
    info = cases.INFO.get(prop, {'bounds': '', 'stubs': []})
    ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'model_checking',
          'coverage': {
              'states': int(tot.get('paths', 0)), 'transitions': int(tot.get('transitions', 0)),
              'traces_validated_against_impl': int(sum(r['runs'] for r in res)),
              'samples': [{'case': r['key'], 'path': r['sample']} for r in res if r['sample']][:6],
              'meaning': 'states: feasible symbolic paths of the real code explored to the end; transitions: branch and schedule decisions '
                         'taken; traces: harness executions on the real modules with concrete values (encoder validation)',
              'cases': [{'case': r['key'], 'status': r['status'], 'paths': r['stats'].get('paths', 0),
                         'obligations': r['stats'].get('obligations', 0), 'queries': r['stats'].get('queries', 0),
                         'discharged': r['stats'].get('discharged', 0), 'solver_s': round(r['stats'].get('solver_s', 0), 2),
                         'wall_s': round(r['wall'], 2), 'note': r['msg'][:300]} for r in res],
              'files_encoded': sorted(files.values()),
              'functions_encoded': functions_encoded(res),
              'obligations': int(tot.get('obligations', 0)), 'discharged': int(tot.get('discharged', 0)),
              'solver_queries': int(tot.get('queries', 0)), 'solver_time_s': round(tot.get('solver_s', 0), 2),
              'infeasible_paths': int(tot.get('infeasible', 0)),
              'bounds': info['bounds'], 'exhaustive': False},
          'assumptions': info['stubs'] + ['real arithmetic stands for floating point', 'nothing is claimed outside the bounds'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if not only and not os.environ.get('VERIF_REPO'):
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s tier=%s cases=%d paths=%d obligations=%d queries=%d discharged=%d solver=%.1fs concrete=%d wall=%.1fs' % (
        prop, TIER, len(res), tot.get('paths', 0), tot.get('obligations', 0), tot.get('queries', 0), tot.get('discharged', 0),
        tot.get('solver_s', 0), sum(r['runs'] for r in res), time.time() - t0))
    if verbose:
        for r in sorted(res, key=lambda r: -r['wall']):
            print('  %-50s %-12s %6.1fs paths=%s inf=%s obl=%s q=%s solver=%.1f runs=%d/%s %s' % (
                r['key'], r['status'], r['wall'], r['stats'].get('paths'), r['stats'].get('infeasible'), r['stats'].get('obligations'),
                r['stats'].get('queries'), r['stats'].get('solver_s', 0), r['runs'], r.get('discarded'), r['msg'][:300]))
            if r.get('trace') and r['status'] != 'ok':
                print(r['trace'])
    done = set()
    for v, d in kf:
        if d not in done:
            done.add(d)
            print('KNOWN-FINDING: property=%s %s' % (prop, d))
    if viol:
        d = os.path.join(HERE, 'out', 'replay')
        os.makedirs(d, exist_ok=True)
        seen = set()
        uniq = []
        for v in viol:
            if (v['case'].split('/')[0], v['what']) not in seen:
                seen.add((v['case'].split('/')[0], v['what']))
                uniq.append(v)
        for k, v in enumerate(uniq[:4]):
            p = os.path.join(d, '%s-%d.json' % (prop, k))
            json.dump(dict(v, property=prop), open(p, 'w'), indent=1, default=str)
            print('  case %s: %s: %s [%s]' % (v['case'], v['what'], str(v['detail'])[:400], v['found_by']))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if inc:
        for r in inc:
            print('INCONCLUSIVE property=%s case=%s %s' % (prop, r['key'], r['msg'][:400]))
        return 2
    return 0


def functions_encoded(res):
    s = set()
    for r in res:
        s |= set(r['stats'].get('functions', ()))
    return sorted(s)


def replay(path):
    from engine import cases
    from engine import harness as H
    load_harnesses()
    v = json.load(open(path))
    c = [k for k in cases.CASES[v['property']] if k.key == v['case']][0]
    extdir = H.build_ext() if c.config == 'ext' else None
    sys.setrecursionlimit(20000)
    r, h = concrete(c, extdir, v['values'], v['choices'], v['seed'], v.get('only'))
    if r is None:
        print('not reproduced')
        return 0
    print('reproduced: %s\n%s' % r)
    print('values: %s' % json.dumps(h.values))
    return 1
