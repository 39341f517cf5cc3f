"""Decides one property: translate, explore, replay, report."""
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import prog

VERIF = prog.VERIF
REPO = prog.REPO
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def load_checks():
    sys.path.insert(0, VERIF)
    import checks
    return checks


def jsonable(v):
    return json.loads(json.dumps(v))


# -- running jobs -----------------------------------------------------------


def _worker(P, job, opts, path):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        r = prog.run_job(P, job, opts)
    except MemoryError:
        r = {'error': 'out of memory'}
    except BaseException as e:          # noqa
        import traceback
        r = {'error': traceback.format_exc()[-3000:] or repr(e)}
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(r, f)
    os.rename(tmp, path)
    os._exit(0)


def run_jobs(P, jobs, scratch, budget, seed, verbose):
    """jobs: [(Job, opts)] -> results in the same order."""
    ctx = mp.get_context('fork')
    t0 = time.time()
    results = [None] * len(jobs)
    order = sorted(range(len(jobs)),
                   key=lambda i: -jobs[i][1].get('cost', 1))
    running = {}
    while order or running:
        while order and len(running) < WORKERS:
            i = order.pop(0)
            job, opts = jobs[i]
            left = budget - (time.time() - t0)
            if left < 2:
                results[i] = {'job': job.key(), 'skipped': True,
                              'incomplete': ['not started: time budget'],
                              'harness': job.harness, 'func': job.func,
                              'params': job.params}
                continue
            o = dict(opts)
            o['seed'] = seed
            o['seconds'] = min(opts.get('seconds', budget), left)
            path = os.path.join(scratch, 'job%d.json' % i)
            p = ctx.Process(target=_worker, args=(P, job, o, path))
            p.start()
            running[i] = (p, path, time.time(), o['seconds'])
        time.sleep(0.01)
        for i in list(running):
            p, path, st, secs = running[i]
            if not p.is_alive():
                p.join()
                del running[i]
                job = jobs[i][0]
                if os.path.exists(path):
                    with open(path) as f:
                        r = json.load(f)
                    os.unlink(path)
                else:
                    r = {'error': 'worker died (exit %s)' % p.exitcode}
                r.setdefault('job', job.key())
                r.setdefault('harness', job.harness)
                r.setdefault('func', job.func)
                r.setdefault('params', job.params)
                r.setdefault('incomplete', [])
                results[i] = r
                if verbose:
                    print('  %-60s paths=%s q=%s %.1fs %s %s' % (
                        r['job'][:60], r.get('paths'), r.get('queries'),
                        r.get('wall', 0), r.get('incomplete') or '',
                        [v[0] for v in r.get('violations', [])] or ''))
                    if r.get('error'):
                        print(r['error'])
                    sys.stdout.flush()
            elif time.time() - st > secs + 40:
                p.kill()
    return results


# -- replay -----------------------------------------------------------------


def replay(runs, scratch, tag, limit=600):
    """Run on the real code under Jython; {id: result}."""
    out = {}
    todo = list(runs)
    n = 0
    t0 = time.time()
    env = dict(os.environ)
    env['TZ'] = 'Asia/Kolkata'
    while todo and time.time() - t0 < limit:
        n += 1
        fi = os.path.join(scratch, 'replay-%s-%d.in' % (tag, n))
        fo = os.path.join(scratch, 'replay-%s-%d.out' % (tag, n))
        with open(fi, 'w') as f:
            json.dump(todo, f)
        open(fo, 'w').close()
        try:
            p = subprocess.run(
                ['jython', '-B', '-Dpython.cachedir.skip=true',
                 os.path.join(VERIF, 'engine', 'replay.py'), REPO, VERIF,
                 fi, fo], env=env, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
                timeout=max(30, limit - (time.time() - t0)))
            log = p.stdout.decode('latin-1')[-1500:]
        except subprocess.TimeoutExpired:
            log = 'replay timed out'
        got = 0
        with open(fo) as f:
            for line in f:
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                out[r['id']] = r
                got += 1
        if not got:
            print('replay produced nothing: %s' % log)
            break
        todo = [r for r in todo if r['id'] not in out]
    return out


def parallel_replay(runs, scratch, tag, limit):
    """Split over a few Jython processes."""
    k = max(1, min(4, len(runs) // 60 + 1))
    parts = [runs[i::k] for i in range(k)]
    import threading
    res = {}
    ts = []
    for i, part in enumerate(parts):
        def go(i=i, part=part):
            res.update(replay(part, scratch, '%s%d' % (tag, i), limit))
        t = threading.Thread(target=go)
        t.start()
        ts.append(t)
    for t in ts:
        t.join()
    return res, parts


def bad(res):
    return res is not None and res['status'] in ('fail', 'timeout')


# -- reporting --------------------------------------------------------------


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if k.get('status') == 'known']


def match_known(pid, label, known):
    for k in known:
        if k['property'] == pid and k['label'] == label:
            return k
    return None


def main(argv):
    if argv and argv[0] == '--replay':
        return replay_file(argv[1])
    if argv and argv[0] == '--selftest':
        return selftest()
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    verbose = '-v' in argv or os.environ.get('VERIF_VERBOSE')
    t0 = time.time()
    checks = load_checks()
    spec = checks.CHECKS[pid]
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        return decide(pid, tier, seed, verbose, checks, spec, scratch, t0)
    finally:
        shutil.rmtree(scratch, True)


def selftest():
    """Everything the checks need is there."""
    scratch = tempfile.mkdtemp(prefix='verif-self-')
    try:
        dumpf = os.path.join(scratch, 'dump.json')
        prog.dump(dumpf)
        P = prog.Program(dumpf)
        checks = load_checks()
        for pid, spec in sorted(checks.CHECKS.items()):
            for tier in ('quick', 'thorough'):
                for j in spec['jobs'](tier):
                    if 'harness.' + j[0] not in P.code:
                        print('no harness %s' % j[0])
                        return 1
        run = {'id': 0, 'harness': 'h_submit', 'func': 'seven',
               'params': {'n': 1, 'ext': [0], 'forced': False},
               'inputs': [['t0', 97], ['x', 0]], 'timeout': 60}
        res = replay([run], scratch, 's').get(0)
        print('selftest: %d modules translated, replay: %s'
              % (len(P.code), res and res['status']))
        return 0 if res else 1
    finally:
        shutil.rmtree(scratch, True)


def replay_file(path):
    with open(path) as f:
        d = json.load(f)
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        res = replay(d['runs'], scratch, 'r')
    finally:
        shutil.rmtree(scratch, True)
    r = res.get(d['runs'][-1]['id'])
    print(json.dumps(r, indent=1))
    if bad(r):
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    return 0


def decide(pid, tier, seed, verbose, checks, spec, scratch, t0):
    dumpf = os.path.join(scratch, 'dump.json')
    prog.dump(dumpf)
    P = prog.Program(dumpf)
    t_front = time.time() - t0
    budget = spec.get('budget', {}).get(
        tier, 180 if tier == 'quick' else 700)
    jobs = []
    for j in spec['jobs'](tier):
        h, f, params = j[:3]
        o = dict(j[3]) if len(j) > 3 else {}
        jobs.append((prog.Job(h, f, params), o))
    results = run_jobs(P, jobs, scratch, budget, seed, verbose)

    # ---- runs to replay on the real code
    runs = []
    meta = {}
    rnd = random.Random(seed)
    nwit = spec.get('witnesses', {}).get(tier,
                                         160 if tier == 'quick' else 600)
    wit = []

    def add_run(kind, r, inputs, label=None, obs=None, timeout=30):
        i = len(runs)
        runs.append({'id': i, 'harness': r['harness'], 'func': r['func'],
                     'params': r['params'], 'inputs': inputs,
                     'timeout': timeout})
        meta[i] = (kind, r, label, obs)
    for r in results:
        for label, inputs in r.get('violations', []):
            add_run('cex', r, inputs, label)
        for inputs in r.get('steplimit', []):
            if inputs is not None:
                add_run('steps', r, inputs, timeout=20)
        for inputs in r.get('models', [])[:40]:
            if inputs is not None:
                add_run('model', r, inputs)
        ws = r.get('witnesses', [])
        for w in ws[:1]:
            add_run('witness', r, w[0], obs=w[1])
        wit += [(r, w) for w in ws[1:]]
    rnd.shuffle(wit)
    for r, w in wit[:max(0, nwit - len(results))]:
        add_run('witness', r, w[0], obs=w[1])
    t_explore = time.time() - t0 - t_front
    rr, parts = parallel_replay(runs, scratch, 'a',
                                200 if tier == 'quick' else 400)

    # ---- judge
    known = known_findings()
    violations = []
    knownhits = {}
    inconclusive = []
    validated = 0
    mismatches = 0
    for i, run in enumerate(runs):
        kind, r, label, obs = meta[i]
        res = rr.get(i)
        if res is None or res['status'] == 'error':
            inconclusive.append('%s: no answer from the replay of a %s'
                                % (r['job'], kind))
            continue
        if bad(res):
            violations.append((i, res))
            continue
        if kind == 'cex':
            inconclusive.append(
                '%s: counterexample to "%s" does not reproduce (%s)'
                % (r['job'], label, res['status']))
            if verbose:
                print('  NOREPRO', r['job'], label, run['inputs'], res,
                      r.get('tb'))
        elif kind == 'witness':
            want = jsonable(obs)
            if res['status'] == 'ok' and res['obs'] == want:
                validated += 1
            else:
                mismatches += 1
                inconclusive.append('%s: the model and the real code differ '
                                    'on a path' % r['job'])
                if verbose:
                    print('  MISMATCH', r['job'], run['inputs'], '\n   want',
                          want, '\n   got ', res)
    reported = []
    seen = set()
    for i, res in violations:
        run = runs[i]
        r = meta[i][1]
        key = (r['harness'], r['func'], res['label'])
        k = match_known(pid, res['label'], known)
        if k is not None:
            knownhits.setdefault(k['id'], (k, run, res))
            continue
        if key in seen or len(reported) >= 5:
            continue
        seen.add(key)
        # confirm in isolation
        iso = replay([run], scratch, 'iso%d' % i, 60).get(run['id'])
        hist = [run]
        if not bad(iso):
            part = [p for p in parts if run in p][0]
            hist = part[:part.index(run) + 1]
            again = replay(hist, scratch, 'hist%d' % i, 200).get(run['id'])
            if not bad(again):
                inconclusive.append('%s: failure of "%s" on the real code is '
                                    'not repeatable' % (r['job'],
                                                        res['label']))
                continue
            iso = again
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (pid, len(reported)))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'label': iso['label'],
                       'detail': iso.get('detail'), 'runs': hist,
                       'command': 'python3-vt run.py --replay ' + path}, f,
                      indent=1)
        reported.append((path, r, iso, run))

    # ---- report
    tot = {}
    for k in ('paths', 'decisions', 'queries', 'discharged', 'trivial',
              'unknown', 'infeasible'):
        tot[k] = sum(r.get(k) or 0 for r in results)
    solver_s = sum(r.get('solver_s') or 0 for r in results)
    functions = sorted(set(f for r in results for f in r.get('functions', [])
                           if f.startswith('messaging')))
    labels = {}
    for r in results:
        for k, v in (r.get('labels') or {}).items():
            t = labels.setdefault(k, [0, 0])
            t[0] += v[0]
            t[1] += v[1]
    for r in results:
        if r.get('error'):
            inconclusive.append('%s: %s' % (r['job'],
                                            r['error'].strip()[-300:]))
        for x in r.get('incomplete', []):
            inconclusive.append('%s: %s' % (r['job'], x))
    vacuous = [l for l in spec.get('labels', []) if l not in labels]
    samples = []
    for r in results:
        for w in r.get('witnesses', [])[:1]:
            samples.append({'job': r['job'], 'inputs': w[0][:40],
                            'observed': w[1][:6]})
    rnd.shuffle(samples)
    samples = samples[:6] or [{'job': r['job']} for r in results[:3]]
    complete = not inconclusive and not vacuous
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['decisions'],
            'traces_validated_against_impl': validated,
            'samples': samples,
            'exhaustive': complete,
            'explanation':
                'states = execution paths of the translated source followed '
                'to their end, each standing for every input satisfying its '
                'path condition; transitions = branch decisions on them; '
                'traces_validated = solver models of paths re-run on the '
                'real code under Jython with equal observations',
            'jobs': [{'job': r['job'], 'paths': r.get('paths'),
                      'queries': r.get('queries'),
                      'complete': not r.get('incomplete') and
                      not r.get('error')} for r in results],
            'jobs_complete': sum(1 for r in results if not
                                 r.get('incomplete') and not r.get('error')),
            'smt_queries': tot['queries'], 'solver_unknown': tot['unknown'],
            'assertions_discharged': tot['discharged'],
            'assertions_folded_without_solver': tot['trivial'],
            'assertions': dict((k, {'reached': v[0], 'sent_to_solver': v[1]})
                               for k, v in sorted(labels.items())),
            'solver_seconds': round(solver_s, 2),
            'functions_encoded': functions,
            'bounds': spec.get('bounds', {}).get(tier) or
            spec.get('bounds', {}).get('quick', ''),
            'outside_the_bounds': spec.get('outside', ''),
            'inconclusive': inconclusive[:60],
            'vacuous_labels': vacuous,
            'model_mismatches': mismatches,
            'real_code_runs': len(rr),
            'front_end_seconds': round(t_front, 2),
            'explore_seconds': round(t_explore, 2),
        },
        'assumptions': spec.get('assumptions', []) + checks.COMMON,
        'violations': len(reported),
        'wall_s': round(time.time() - t0, 2),
    }
    evp = os.path.join(VERIF, 'evidence', '%s.json' % pid)
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    with open(evp, 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d jobs, %d paths, %d decisions, %d queries (%.1f s in the '
          'solver), %d assertions discharged, %d paths validated on the real '
          'code, %.1f s' % (pid, tier, len(results), tot['paths'],
                            tot['decisions'], tot['queries'], solver_s,
                            tot['discharged'], validated,
                            time.time() - t0))
    for k, run, res in knownhits.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for x in inconclusive[:20]:
        print('INCONCLUSIVE: ' + x)
    for x in vacuous:
        print('VACUOUS: no path reaches "%s"' % x)
    for path, r, iso, run in reported:
        print('  %s: "%s" fails on the real code' % (r['job'], iso['label']))
        if iso.get('detail'):
            print('    ' + iso['detail'].strip().splitlines()[-1][:300])
        print('    inputs: %s' % json.dumps(run['inputs'])[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if reported:
        return 1
    if not tot['discharged']:
        print('NO ANSWER: nothing could be explored')
        return 2
    if os.environ.get('VERIF_STRICT') and (inconclusive or vacuous):
        return 3
    return 0
