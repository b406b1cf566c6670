"""Decide one property: python3-vt check.py C01   (tier from VERIF_TIER)"""
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

PYPY = '/opt/venv-pypy/bin/python'
if not os.path.exists(PYPY):
    PYPY = sys.executable

from symx import explore as X


def replay(path, timeout=60):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
    try:
        p = subprocess.run([PYPY, os.path.join(HERE, 'replay.py'), path], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    return p.returncode, p.stdout.decode(errors='replace')


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    start = time.time()
    import properties_map
    spec = properties_map.load(prop)
    jobs = spec['jobs'](tier)
    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))
             if k['property'] == prop and k['status'] == 'known']
    budget = spec.get('budget', {}).get(tier, 700 if tier == 'quick' else 3000)
    res = X.explore(jobs, budget=budget, seed=seed)
    err = None
    rdir = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    confirmed = None
    unconfirmed = []
    tried = {}
    for v in res.violations:
        if tried.get(v['label'], 0) >= 4 or len(tried) > 12:
            continue
        tried[v['label']] = tried.get(v['label'], 0) + 1
        blob = json.dumps(v, indent=1, sort_keys=True, default=str)
        path = os.path.join(rdir, '%s-%s.json' % (prop, hashlib.sha1(blob.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(blob)
        rc, out = replay(path)
        if rc == 1 or (rc == 'timeout' and v['label'] == X.HANG_LABEL):
            confirmed = (path, v, out)
            break
        unconfirmed.append((path, v['label'], rc, out[-600:]))
    findings = []
    for k in known:
        rc, out = replay(os.path.join(HERE, k['replay']))
        if rc == 1:
            findings.append(k)
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    validated = 0
    if not confirmed:
        if unconfirmed:
            err = 'solver counterexamples did not reproduce on the real code: %r' % (unconfirmed[:2],)
        elif res.inconclusive:
            err = 'inconclusive: %r' % (res.inconclusive[:3],)
        elif not res.complete:
            err = 'exploration did not finish within %d s (%d paths)' % (budget, res.stats['paths'])
        else:
            missing = [l for l in spec.get('require', ()) if l not in res.reached]
            if missing:
                err = 'vacuous: never reached %r' % (missing,)
        if not err and res.samples:
            path = os.path.join(rdir, '%s-validate.json' % prop)
            with open(path, 'w') as f:
                json.dump({'validate': res.samples}, f, default=str)
            for attempt in range(2):
                rc, out = replay(path, timeout=120)
                if rc != 'timeout':
                    break
            line = [l for l in out.splitlines() if l.startswith('VALIDATION ')]
            if not line:
                err = 'validation run failed: %s %s' % (rc, out[-2000:])
            else:
                val = json.loads(line[0][len('VALIDATION '):])
                validated = val['n'] - len(val['bad'])
                if val['bad']:
                    err = 'symbolic run and real interpreter disagree: %s' % json.dumps(val['bad'][:2])[:4000]
    st = res.stats
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'model_checking'),
        'coverage': {
            'states': st['paths'],
            'transitions': st['decisions'],
            'traces_validated_against_impl': validated,
            'samples': res.cases[:8] or [{'note': 'no sample recorded'}],
            'exhaustive': bool(res.complete),
            'explanation': 'states = completed symbolic paths (each covers every value satisfying its '
                           'path condition); transitions = branch decisions put to the solver; '
                           'traces validated = solver models of completed paths re-run concretely '
                           'under the deployment interpreter with equal observations',
            'bounds': spec['bounds'],
            'outside': spec.get('outside', ''),
            'harness_instances': len(jobs),
            'queries_discharged': st['queries'],
            'assertions_decided': st['asserts'],
            'solver_s': round(st['solver_s'], 2),
            'infeasible_or_cut_paths': st['cut'],
            'functions_encoded': sorted(res.funcs),
            'reachability_witnesses': sorted(str(l) for l in res.reached),
            'per_instance_paths': {str(jobs[j][1]): n for j, n in sorted(res.per_job.items())[:200]},
        },
        'assumptions': spec['assumptions'],
        'wall_s': round(time.time() - start, 2),
        'violations': 1 if confirmed else 0,
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s tier=%s: %d instances, %d paths, %d queries, solver %.1fs, wall %.1fs, validated %d' % (
        prop, tier, len(jobs), st['paths'], st['queries'], st['solver_s'], time.time() - start, validated))
    if confirmed:
        path, v, out = confirmed
        print('label: %s' % v['label'])
        print(out[-1500:])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if err:
        print('ERROR: ' + err)
        return 2
    print('OK')
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
