#!/usr/bin/env python3
"""
check.py ID [--tier quick|thorough] [--seed N] [--runs N] [--replay FILE] [--selftest] [--digest] [-v]

Decides one property by deterministic simulation. Exit 0: held on everything explored. Exit 1 and a line
"VIOLATION property=<id> replay=<path>": broken. Exit 2: the check itself could not decide.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')

if os.environ.get('VERIF_CHILD') != '1':
    env = dict(os.environ)
    env.update(VERIF_CHILD='1', PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONWARNINGS='ignore')
    env.setdefault('VERIF_HASHSEED', '0')
    env['PYTHONHASHSEED'] = env['VERIF_HASHSEED']
    env.pop('PYTHONPATH', None)
    os.execve(PYTHON, [PYTHON, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import subprocess  # noqa: E402
import time  # noqa: E402

from sim import env, core  # noqa: E402


def load(pid):
    return importlib.import_module('sim.checks.' + pid.lower())


def replay(path, verbose):
    data = json.load(open(path))
    check = load(data['property'])
    setup(check)
    budget = core.STEP_BUDGET if data.get('kind') == 'no-progress' else None
    r = core.in_fork(lambda: core.run_sequence(check, data['cases'], verbose_last=verbose, step_budget=budget,
                                               wall=None if budget else core.CASE_WALL), wall=600)
    if r is None or r['verdict'] in ('harness', 'hang', 'invalid'):
        print('ERROR replay could not be run: {}'.format(r))
        return 2
    if r['verdict'] == 'violation':
        print('{}: {}'.format(r['kind'], r['detail']))
        print('VIOLATION property={} replay={}'.format(data['property'], path))
        return 1 if r['kind'] == data['kind'] else 3
    print('no violation')
    return 0


def setup(check):
    if hasattr(check, 'setup'):
        check.setup()


def report_violation(check, pid, seed, tier, stop):
    """Reproduce, minimise, write the replay file, verify it in a fresh process. -> path or None"""
    budget = None
    cases = [core.make_case(check, seed, i, tier) for i in range(stop['lo'], stop['index'] + 1)]
    if stop['verdict'] == 'hang':
        budget = core.STEP_BUDGET
    r = None
    for attempt in range(3):
        if not budget:
            # most violations do not depend on the cases that ran before
            r = core.in_fork(lambda: core.run_sequence(check, cases[-1:], wall=core.CASE_WALL))
            if r and r['verdict'] == 'violation':
                cases = cases[-1:]
                break
        r = core.in_fork(lambda: core.run_sequence(check, cases[-1:] if budget else cases, step_budget=budget,
                                                   wall=None if budget else core.CASE_WALL), wall=600)
        if r and r['verdict'] == 'violation':
            if budget:
                cases = cases[-1:]
            break
        if budget:
            break
    if not r or r['verdict'] != 'violation':
        if budget and r and r['verdict'] == 'ok':
            return 'slow'
        print('ERROR case {} stopped with {} but does not reproduce: {}'.format(stop['index'], stop, r))
        return None
    kind, detail = r['kind'], r['detail']
    small, used = core.minimise(check, cases, kind, runs=60 if budget else 400, wall=60, step_budget=budget)
    r2 = core.in_fork(lambda: core.run_sequence(check, small, step_budget=budget,
                                                wall=None if budget else core.CASE_WALL), wall=600)
    if r2 and r2['verdict'] == 'violation' and r2['kind'] == kind:
        detail = r2['detail']
    else:
        small = cases
    os.makedirs(os.path.join(core.VERIF, 'replays'), exist_ok=True)
    for candidate in (small, cases):
        path = os.path.join(core.VERIF, 'replays', '{}-{}-{}.json'.format(pid, seed, stop['index']))
        json.dump(dict(property=pid, kind=kind, detail=detail, seed=seed, tier=tier, index=stop['index'],
                       minimised_in=used, cases=candidate), open(path, 'w'), indent=1)
        for attempt in range(3):
            p = subprocess.run([sys.executable, '-W', 'ignore', os.path.abspath(__file__), pid, '--replay', path],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=800)
            if p.returncode == 1:
                print('{}: {}'.format(kind, detail))
                return path
    print('ERROR replay {} does not fail in a fresh process: {}'.format(path, p.stdout[-500:]))
    return None


def selftest(pid, seed, tier, runs):
    """One seed is one execution: the event logs must not depend on workers, string hashing or repetition"""
    seen = {}
    for workers, hashseed in (('8', '0'), ('3', '0'), ('5', '77'), ('8', '0')):
        p = subprocess.run([sys.executable, os.path.abspath(__file__), pid, '--digest', '--seed', str(seed), '--tier', tier,
                            '--runs', str(runs)], stdout=subprocess.PIPE, universal_newlines=True,
                           env=dict({k: v for k, v in os.environ.items() if k not in ('VERIF_CHILD', 'PYTHONHASHSEED')},
                                    VERIF_WORKERS=workers, VERIF_HASHSEED=hashseed))
        line = p.stdout.strip().splitlines()[-1]
        seen.setdefault(line, []).append((workers, hashseed))
    for line in seen:
        print('{} {} workers/hash seeds {}'.format(pid, line, seen[line]))
    return 0 if len(seen) == 1 else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--digest', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay, a.v)

    pid = a.property.upper()
    if a.selftest:
        return selftest(pid, a.seed, a.tier, a.runs or 200)
    t0 = env.REAL_TIME()
    check = load(pid)
    setup(check)
    n = a.runs or check.RUNS[a.tier]
    print('{} tier={} seed={} runs={}'.format(pid, a.tier, a.seed, n))
    agg, stops = core.run_all(check, a.seed, a.tier, n)
    if a.digest:
        print(agg['log_digest'], agg['runs'], [s for s in stops])
        return 0

    # the first batch again: the same seed has to give the same event log
    batch = min(getattr(check, 'BATCH', 25), n)
    again = core.in_fork(lambda: core.run_batch(check, a.seed, a.tier, 0, batch)['logs'], wall=800)
    first = core.in_fork(lambda: core.run_batch(check, a.seed, a.tier, 0, batch)['logs'], wall=800)
    deterministic = again is not None and again == first

    code, path, violations = 0, None, 0
    hard = [s for s in stops if s['verdict'] == 'violation'] + [s for s in stops if s['verdict'] == 'hang']
    for s in hard[:3]:
        path = report_violation(check, pid, a.seed, a.tier, s)
        if path and path != 'slow':
            print('VIOLATION property={} replay={}'.format(pid, path))
            code, violations = 1, 1
            break
    if code == 0 and [s for s in stops if s['verdict'] != 'hang' or path != 'slow']:
        for s in stops[:2]:
            print('ERROR case {}: {} {}'.format(s['index'], s['verdict'], s.get('detail')))
        code = 2
    if code == 0 and path == 'slow':
        print('ERROR some cases exceeded their wall-clock limit without exceeding the step budget')
        code = 2
    if code == 0 and not deterministic:
        print('ERROR the first batch gave another event log when it was run again')
        code = 2
    missing = [k for k in getattr(check, 'MUST_FIRE', []) if not (agg['faults'].get(k) or agg['probes'].get(k))]
    if missing:
        print('WARNING never fired: {}'.format(missing))
    for k in sorted(agg['known']):
        print('KNOWN-FINDING: property={} {}'.format(pid, k))

    wall = env.REAL_TIME() - t0
    cov = dict(evaluations=agg['runs'], distinct_nontrivial=len(agg['sigs']), rule=check.RULE,
               samples=[_trim(s) for s in agg['samples'][:3]],
               seed_range='cases 0..{} of VERIF_SEED={}'.format(n - 1, a.seed),
               runs_per_hour=int(agg['runs'] * 3600 / max(agg['wall'], 0.001)),
               seeds_per_hour_note='every run has its own derived seed',
               simulated_time=round(agg['simtime'], 3), simulated_time_unit=getattr(check, 'TIME_UNIT', 'virtual seconds'),
               faults_fired=dict(sorted(agg['faults'].items())), probes=dict(sorted(agg['probes'].items())),
               never_fired=missing, distinct_measure=check.MEASURE,
               real_components=check.REAL, stub_components=check.STUB,
               determinism='first {} cases run again in another process: {}'.format(
                   batch, 'same event log' if deterministic else 'DIFFERENT'),
               event_log_digest=agg['log_digest'], workers=core.WORKERS)
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level='exploration', coverage=cov,
              assumptions=getattr(check, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('{} runs={} distinct={} faults={} wall={:.1f}s exit={}'.format(
        pid, agg['runs'], len(agg['sigs']), dict(agg['faults']), wall, code))
    return code


def _trim(s):
    t = json.dumps(s)
    return s if len(t) < 4000 else dict(index=s['index'], faults=s['faults'], probes=s['probes'],
                                        case_truncated=json.dumps(s['case'])[:3000])


if __name__ == '__main__':
    sys.exit(main())
