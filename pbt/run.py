"""Driver: run.py <property> [--tier quick|thorough] [--replay FILE]

Exit 0: property held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env

WORKERS = 8
SOFT_DEADLINE = {'quick': 300.0, 'thorough': 3000.0}    # per worker: stop generating new cases
HARD_DEADLINE = {'quick': 780.0, 'thorough': 7200.0}
SHRINK_SECONDS = 60
CASE_CPU_SECONDS = 30           # processor time of one case; cases of the unchanged tree stay below 1 s
MEMORY = 4 << 30
# What the results of broken code make the oracle stumble over (a result of a wrong type or size); other exceptions in
# the harness are errors of the check
STUMBLES = (TypeError, AttributeError, ValueError, LookupError, ArithmeticError, RuntimeError)


def load(pid):
    import casadi_extras
    if not os.path.abspath(casadi_extras.__file__).startswith(env.REPO + '/'):
        raise RuntimeError('casadi_extras is not the one in /repo: ' + casadi_extras.__file__)
    return importlib.import_module('props.' + pid.lower())


def dumps(case):
    return json.dumps(case, sort_keys=True)


def run_case(mod, case):
    """Returns Info; raises Violation."""
    import base
    info = base.Info()
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)      # SIGPROF ends the process
    try:
        mod.check(case, info)
    except base.Violation:
        raise
    except Exception as e:
        if base.from_repo(e):
            raise base.Violation('unexpected exception from the code under test: ' + base.brief(e)) from e
        if isinstance(e, STUMBLES):
            raise base.Violation('a result cannot be compared with the expected one: ' + base.brief(e)) from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return info


class Stop(Exception):
    pass


def worker(pid, tier, seed, k, outfile, stopfile):
    import base
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = SHRINK_SECONDS

    t0 = time.time()
    mod = load(pid)
    res = {'evaluations': 0, 'hashes': [], 'labels': {}, 'samples': [], 'corpus': 0, 'stopped_early': False,
           'failure': None, 'error': None, 'slowest': 0.0}
    hashes = set()
    labels = collections.Counter()
    history = []
    state = {'fail': None, 'sampled': set(), 'first': None}

    def one(case):
        if os.path.exists(stopfile) and state['fail'] is None:
            return
        if time.time() - t0 > SOFT_DEADLINE[tier] and state['fail'] is None:
            res['stopped_early'] = True
            return
        s = dumps(case)
        history.append(s)
        with open(outfile + '.cur', 'w') as f:
            f.write(s)
        res['evaluations'] += 1
        c0 = time.process_time()
        try:
            info = run_case(mod, json.loads(s))
        except base.Violation as e:
            state['fail'] = (s, str(e))
            if state['first'] is None:
                state['first'] = (s, str(e), len(history))
            raise
        res['slowest'] = max(res['slowest'], time.process_time() - c0)
        for l in info.labels:
            labels[l] += 1
        if info.nontrivial:
            h = hashlib.sha1(s.encode()).hexdigest()[:16]
            if h not in hashes:
                hashes.add(h)
                new = info.labels - state['sampled']
                if len(s) < 2500 and (len(res['samples']) < 2 or (new and len(res['samples']) < 4)):
                    state['sampled'] |= info.labels
                    res['samples'].append(case)

    failure = None
    try:
        for n, case in enumerate(mod.corpus(tier)):
            if n % WORKERS == k:
                res['corpus'] += 1
                try:
                    one(case)
                except base.Violation as e:
                    failure = {'case': case, 'message': str(e), 'source': 'corpus'}
                    break
        if failure is None:
            n_examples = max(1, -(-mod.BUDGET[tier] // WORKERS))

            @hypothesis.seed(seed * 1000003 + k)
            @settings(max_examples=n_examples, deadline=None, database=None, derandomize=False,
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink), print_blob=False)
            @given(mod.strategy(tier))
            def search(case):
                one(case)

            try:
                search()
            except base.Violation:
                failure = {'case': json.loads(state['fail'][0]), 'message': state['fail'][1], 'source': 'search'}
            except Exception:
                if state['fail'] is None:
                    raise
                # Hypothesis could not reproduce it in isolation (state carried between cases)
                s, msg, n = state['first']
                failure = {'case': json.loads(s), 'message': msg, 'source': 'search (depends on earlier cases)'}
        if failure is not None:
            open(stopfile, 'a').close()
            s, msg, n = state['first']
            failure['history'] = [json.loads(h) for h in history[:n]][-400:]
            failure['first'] = json.loads(s)
    except Exception:
        res['error'] = traceback.format_exc()
    res['failure'] = failure
    res['hashes'] = sorted(hashes)
    res['labels'] = dict(labels)
    with open(outfile, 'w') as f:
        json.dump(res, f)


def replay(pid, path):
    import base
    data = json.load(open(path))
    mod = load(data.get('property', pid))
    cases = data['history'] if 'history' in data else [data['case']]
    for c in cases:
        try:
            run_case(mod, c)
        except base.Violation as e:
            print('replayed: ' + str(e))
            return 1
    return 0


def spawn(args, **kw):
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = '0'
    return subprocess.Popen([sys.executable, '-B', os.path.abspath(__file__)] + args, env=e, **kw)


def replay_rc(pid, path):
    p = spawn([pid, '--replay', path, '--inner'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        return p.wait(timeout=300)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None


def save_replay(pid, data):
    d = os.path.join(env.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    s = json.dumps(data, sort_keys=True, indent=1)
    path = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha1(s.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(s)
    return path


def known_findings(pid):
    path = os.path.join(env.VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    yield d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--inner', action='store_true')
    ap.add_argument('--worker', type=int)
    ap.add_argument('--out')
    ap.add_argument('--stop')
    a = ap.parse_args()
    pid = a.property.upper()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'

    if a.replay and not a.inner:
        rc = spawn([pid, '--replay', os.path.abspath(a.replay), '--inner']).wait()
        if rc not in (0, 1, 2):
            print('replayed: the process ended with code %d' % rc)
        return rc if rc in (0, 1, 2) else 1
    if a.worker is not None or a.replay:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    if a.worker is not None:
        worker(pid, tier, a.seed, a.worker, a.out, a.stop)
        return 0
    if a.replay:
        try:
            return replay(pid, a.replay)
        except Exception:
            traceback.print_exc()
            return 2

    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='pbt-%s-' % pid)
    try:
        return campaign(pid, tier, a.seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def campaign(pid, tier, seed, tmp, t0):
    stop = os.path.join(tmp, 'stop')
    procs = []
    for k in range(WORKERS):
        out = os.path.join(tmp, 'w%d.json' % k)
        log = open(os.path.join(tmp, 'w%d.log' % k), 'w')
        procs.append((k, out, spawn([pid, '--tier', tier, '--seed', str(seed), '--worker', str(k), '--out', out,
                                     '--stop', stop], stdout=log, stderr=subprocess.STDOUT, cwd=tmp)))
    results, errors, failures, crashes = [], [], [], []
    for k, out, p in procs:
        try:
            rc = p.wait(timeout=max(1.0, HARD_DEADLINE[tier] - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append('worker %d exceeded the time limit' % k)
            continue
        if os.path.exists(out):
            r = json.load(open(out))
            results.append(r)
            if r['failure']:
                failures.append(r['failure'])
            if r['error']:
                errors.append(r['error'])
        elif rc not in (0, 1, 2, -signal.SIGKILL) and os.path.exists(out + '.cur'):
            # native crash, or the case did not end: believe it only if that happens again in a fresh process
            open(stop, 'a').close()
            crashes.append((k, rc, json.load(open(out + '.cur'))))
        else:
            errors.append('worker %d exited with %s: %s' % (k, rc, open(os.path.join(tmp, 'w%d.log' % k)).read()[-2000:]))

    for k, rc, case in sorted(crashes, key=lambda c: len(dumps(c[2])))[:3]:
        what = 'the case did not end within %d s of processor time' % CASE_CPU_SECONDS if rc == -signal.SIGPROF else \
            'native crash, exit code %d' % rc
        if failures:
            break
        path = save_replay(pid, {'property': pid, 'case': case, 'message': what})
        if replay_rc(pid, path) not in (None, 0, 1, 2, -signal.SIGKILL):
            failures.append({'case': case, 'message': what, 'source': 'crash', 'history': [case], 'first': case})
        else:
            errors.append('worker %d: %s (not repeated)' % (k, what))

    hashes = set()
    labels = collections.Counter()
    samples = []
    for r in results:
        hashes.update(r['hashes'])
        labels.update(r['labels'])
        samples.extend(r['samples'])
    samples = samples[:: max(1, len(samples) // 6)][:6]
    mod_doc = {}
    try:
        mod = load(pid)
        mod_doc = {'rule': mod.RULE, 'assumptions': getattr(mod, 'ASSUMPTIONS', [])}
    except Exception as e:
        errors.append('cannot load the check: %r' % e)

    violation = None
    if failures:
        f = min(failures, key=lambda f: len(dumps(f['case'])))
        path = save_replay(pid, {'property': pid, 'message': f['message'], 'case': f['case'], 'source': f['source']})
        rc = replay_rc(pid, path)
        if rc == 0:
            # needs the earlier cases of the same process: keep the whole history as the replay
            f = min(failures, key=lambda f: len(f['history']))
            path = save_replay(pid, {'property': pid, 'message': f['message'], 'history': f['history'],
                                     'source': f['source']})
        violation = (path, f['message'])

    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': len(hashes),
            'rule': mod_doc.get('rule', ''),
            'samples': samples,
            'corpus_cases': sum(r['corpus'] for r in results),
            'labels': dict(sorted(labels.items())),
            'workers': len(results),
            'slowest_case_cpu_s': round(max([r['slowest'] for r in results] or [0]), 2),
            'stopped_early': any(r['stopped_early'] for r in results),
        },
        'assumptions': mod_doc.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1)

    for d in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, d['what']))
    if violation:
        print(violation[1])
        print('VIOLATION property=%s replay=%s' % (pid, violation[0]))
        return 1
    if errors:
        for e in errors:
            print("CHECK ERROR: " + e, file=sys.stderr)
            break
        return 2
    if not hashes:
        print('CHECK ERROR: no non-trivial case was generated', file=sys.stderr)
        return 2
    print('%s ok: %d cases, %d distinct non-trivial, %.1f s' % (pid, evidence['coverage']['evaluations'], len(hashes),
                                                               evidence['wall_s']))
    return 0


if __name__ == '__main__':
    sys.exit(main())
