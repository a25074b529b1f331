"""Command line of the checks: explore, replay, report, write evidence."""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
HARNESSES = {}


class Spec(object):
    def __init__(self, fn, quick, thorough, kw):
        self.fn, self.name = fn, fn.__name__
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick
        self.opts = kw


def harness(quick=None, thorough=None, **opts):
    """Register a harness; `quick`/`thorough`: lists of keyword dicts."""
    def deco(fn):
        s = Spec(fn, quick or [{}], thorough, opts)
        old = HARNESSES.get(fn.__name__)
        assert old is None or old.fn.__module__ != fn.__module__, fn
        HARNESSES[fn.__name__] = s
        return fn
    return deco


def load(prop):
    warnings.simplefilter('ignore')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    import logging
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, VERIF)
    import chainerrl
    assert os.path.realpath(chainerrl.__file__).startswith(REPO + '/'), \
        chainerrl.__file__
    import numpy as np
    from symx import harness as Hn
    np.seterr(all='ignore')
    HARNESSES.clear()
    m = importlib.import_module('checks.' + prop)
    for n in list(HARNESSES):
        if HARNESSES[n].fn.__module__ != m.__name__:
            del HARNESSES[n]
    return m


def _task(args):
    prop, name, kw, tier, seed = args
    from symx import harness as Hn
    spec = HARNESSES[name]
    t0 = time.time()
    res = {'harness': name, 'kw': kw, 'error': None}
    opts = dict(spec.opts)
    if tier == 'thorough':
        opts['time_limit'] = opts.pop('time_limit_thorough',
                                      opts.get('time_limit', 120) * 10)
        opts['max_paths'] = opts.pop('max_paths_thorough', 10 ** 7)
    else:
        opts.pop('time_limit_thorough', None)
        opts.pop('max_paths_thorough', None)
        opts.setdefault('time_limit', 120)
    opts.pop('bounds', None)
    devnull = open(os.devnull, 'w')
    out = sys.stdout
    if not os.environ.get('SYMX_VERBOSE'):
        sys.stdout = devnull
    try:
        ctx = Hn.explore(spec.fn, kw, seed=seed, **opts)
        res['stats'] = ctx.stats.as_dict()
        res['complete'] = ctx.complete
        res['functions'] = ctx.functions
        res['witness'] = ctx.witnesses[:1]
        res['violations'] = []
        validated = 0
        for v in ctx.violations:
            hit = None
            last = ''
            for vals in v.values:
                st, msg, h = Hn.run_concrete(spec.fn, kw, vals)
                last = '{} {}'.format(st, msg)
                if st in ('fail', 'exc'):
                    hit = (vals, msg)
                    break
            res['violations'].append({
                'msg': v.msg, 'detail': v.detail[-3000:], 'confirmed': hit,
                'candidates': v.values, 'last': last})
        for vals in ctx.witnesses + ctx.concolic[:20]:
            st, msg, h = Hn.run_concrete(spec.fn, kw, vals)
            if st in ('fail', 'exc'):
                res['violations'].append({
                    'msg': 'witness: ' + msg, 'detail': '',
                    'confirmed': (vals, msg), 'candidates': [vals],
                    'last': st})
                break
            if st == 'ok' and h.checks:
                validated += 1
        res['validated'] = validated
    except BaseException:
        res['error'] = traceback.format_exc()
    finally:
        sys.stdout = out
    res['wall'] = time.time() - t0
    return res


def _child(q, i, t):
    try:
        r = _task(t)
    except BaseException:
        r = {'harness': t[1], 'kw': t[2], 'error': traceback.format_exc(),
             'wall': 0}
    try:
        q.send((i, r))
    finally:
        q.close()
        sys.stdout.flush()
        os._exit(0)


def run_tasks(tasks, jobs, hard_limit):
    """One forked process per task, at most `jobs` at a time."""
    pending = list(enumerate(tasks))
    running = {}
    results = [None] * len(tasks)
    ctxm = multiprocessing.get_context('fork')
    while pending or running:
        while pending and len(running) < jobs:
            i, t = pending.pop(0)
            r, w = ctxm.Pipe(False)
            p = ctxm.Process(target=_child, args=(w, i, t))
            p.start()
            w.close()
            running[i] = (p, r, time.time())
        ready = multiprocessing.connection.wait(
            [r for _, r, _ in running.values()], timeout=1.0)
        for i, (p, r, t0) in list(running.items()):
            if r in ready:
                try:
                    _, results[i] = r.recv()
                except EOFError:
                    results[i] = {'harness': tasks[i][1], 'kw': tasks[i][2],
                                  'error': 'worker died', 'wall': 0}
                p.join()
                r.close()
                del running[i]
            elif time.time() - t0 > hard_limit:
                p.kill()
                p.join()
                r.close()
                results[i] = {'harness': tasks[i][1], 'kw': tasks[i][2],
                              'error': 'time limit', 'wall': hard_limit,
                              'timeout': True}
                del running[i]
    return results


def replay_file(path, verbose=True):
    d = json.load(open(path))
    load(d['property'])
    from symx import harness as Hn
    spec = HARNESSES[d['harness']]
    st, msg, h = Hn.run_concrete(spec.fn, d['kw'], d['values'])
    if verbose:
        print('replay {}: {} {}'.format(d['harness'], st, msg))
    return 1 if st in ('fail', 'exc') else 0


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def selftest():
    """The engine finds a planted error and proves a true statement."""
    def good(x):
        a = x.reals('a', (2,), -1, 1)
        x.eq(np.maximum(a, 0).sum(), sum(A.smax_(v, 0) for v in a), 'sum')

    def bad(x):
        a = x.real('a', -4, 4)
        x.check(a * a + a >= 0, 'square')
    import numpy as np
    from symx import harness as Hn
    from symx import nparr as A
    g = Hn.explore(good, {})
    b = Hn.explore(bad, {})
    ok = not g.violations and g.stats.paths > 0 and bool(b.violations)
    print('selftest', 'ok' if ok else 'FAILED')
    return 0 if ok else 3


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--strict', action='store_true')
    a = ap.parse_args(argv)
    if a.replay:
        return replay_file(a.replay)
    if a.selftest:
        return selftest()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ev_path = os.path.join(VERIF, 'evidence', prop + '.json')
    m = load(prop)
    tasks = []
    for name, s in HARNESSES.items():
        if a.only and name not in a.only.split(','):
            continue
        for kw in (s.quick if tier == 'quick' else s.thorough):
            tasks.append((prop, name, kw, tier, seed))
    results = run_tasks(tasks, a.jobs, 800 if tier == 'quick' else 7200)
    tot = {}
    funcs = set()
    samples = []
    validated = 0
    problems, confirmed = [], []
    harn = []
    complete = True
    for r in results:
        tag = '{}{}'.format(r['harness'], json.dumps(r['kw'], sort_keys=True)
                            if r['kw'] else '')
        if r['error']:
            problems.append('{}: {}'.format(tag, r['error']))
            complete = False
            continue
        st = r['stats']
        for k, v in st.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        funcs.update(r['functions'])
        validated += r['validated']
        complete = complete and r['complete']
        if r['witness'] and len(samples) < 6:
            samples.append({'harness': tag, 'values': dict(
                list(r['witness'][0].items())[:40])})
        harn.append({'harness': tag, 'paths': st['paths'],
                     'queries': st['queries'],
                     'obligations': st['obligations'],
                     'solver_s': st['solver_s'], 'wall_s': round(
                         r['wall'], 2), 'complete': r['complete']})
        for msg, d in st['inconclusive'][:5]:
            problems.append('{}: inconclusive: {} ({})'.format(tag, msg,
                                                              str(d)[:300]))
        if st['realized']:
            problems.append('{}: {} values realized'.format(
                tag, st['realized']))
        if not r['complete'] and not r['violations']:
            problems.append('{}: budget exhausted after {} paths, {} '
                            'unexplored'.format(tag, st['paths'],
                                                st['unexplored']))
        if st['paths'] == 0 and not r['violations']:
            problems.append('{}: vacuous (no complete path)'.format(tag))
        for v in r['violations']:
            if v['confirmed']:
                confirmed.append((r, tag, v))
            else:
                problems.append('{}: candidate violation not reproduced: {} '
                                '[{}] {}'.format(tag, v['msg'], v['last'],
                                                 v['detail'][-1500:]))
    violations, known = [], {}
    if confirmed:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        kf = [k for k in known_findings() if k['property'] == prop]
        for r, tag, v in confirmed:
            vals, msg = v['confirmed']
            k = next((k for k in kf if k['harness'] == r['harness'] and
                      k['match'] in msg and
                      ('kw' not in k or json.loads(json.dumps(r['kw'])) ==
                       k['kw'])), None)
            if k:
                known[k['id']] = k
                continue
            body = {'property': prop, 'harness': r['harness'],
                    'kw': r['kw'], 'values': vals, 'message': msg}
            name = '{}-{}.json'.format(prop, hashlib.sha1(json.dumps(
                body, sort_keys=True).encode()).hexdigest()[:10])
            path = os.path.join(rdir, name)
            json.dump(body, open(path, 'w'), indent=1, sort_keys=True)
            if len(violations) >= 3:
                continue
            # fresh process, nothing patched but the RNG/environment stubs
            p = subprocess.run([sys.executable, os.path.join(
                VERIF, 'run.py'), '--replay', path],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode == 1:
                violations.append((path, tag, msg))
            else:
                problems.append('{}: violation not reproduced in a fresh '
                                'process: {} {}'.format(
                                    tag, msg, p.stdout.decode()[-500:]))
    cov = {
        'states': tot.get('paths', 0), 'transitions': tot.get('branches', 0),
        'traces_validated_against_impl': validated, 'samples': samples,
        'functions_encoded': sorted(
            f for f in funcs if f.startswith('chainerrl/')),
        'bounds': getattr(m, 'BOUNDS', ''),
        'queries': tot.get('queries', 0),
        'solver_s': round(tot.get('solver_s', 0), 2),
        'assertions': tot.get('obligations', 0),
        'assertions_by_solver': tot.get('discharged', 0),
        'assertions_by_simplifier': tot.get('trivial', 0),
        'exhaustive': bool(complete and not problems),
        'inconclusive': problems[:40], 'harnesses': harn,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed,
          'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(m, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2), 'violations':
          len(violations)}
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if not a.only:
        json.dump(ev, open(ev_path, 'w'), indent=1)
    for k in known.values():
        print('KNOWN-FINDING: property={} {}'.format(prop, k['what']))
    for p in problems[:30]:
        print('INCONCLUSIVE {}'.format(p))
    print('{}: {} harness runs, {} paths, {} assertions ({} by solver), '
          '{} queries, {:.1f}s solver, {} traces validated, {:.1f}s'.format(
              prop, len(results), cov['states'], cov['assertions'],
              cov['assertions_by_solver'], cov['queries'],
              cov['solver_s'], validated, time.time() - t0))
    if a.only or os.environ.get('SYMX_VERBOSE'):
        for h in harn:
            print('  ', json.dumps(h))
    for path, tag, msg in violations:
        print('  {}: {}'.format(tag, msg))
        print('VIOLATION property={} replay={}'.format(prop, path))
    sys.stdout.flush()
    if violations:
        return 1
    if cov['states'] == 0 and not known:
        print('nothing was decided')
        return 3
    if a.strict and problems:
        return 2
    return 0
