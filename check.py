#!/usr/bin/env python3-vt
"""check.py <ID> [-v] [-k SUBSTR]: verify one property of /repo's current source; see DESIGN.md."""
import sys, os, json, time, subprocess, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONHASHSEED', '0')
REPO = os.environ.get('VERIF_REPO', '/repo')
TB = json.load(open(os.path.join(HERE, 'trusted_base.json')))


def replay(prop, failed, tier, budget):
    """search the real code for an input on which the property fails; guided by the counterexample models"""
    script = os.path.join(HERE, 'replay', prop.lower() + '.py')
    if not os.path.exists(script):
        return None, 'no replay oracle for this property'
    env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': os.environ.get('HOME', '/root'), 'LANG': 'C.UTF-8',
           'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'CUDA_VISIBLE_DEVICES': '', 'JAX_PLATFORMS': 'cpu',
           'TF_CPP_MIN_LOG_LEVEL': '3', 'KERAS_BACKEND': 'tensorflow', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1',
           'MKL_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'VERIF_REPO': REPO, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1'),
           'VERIF_BUDGET': str(budget), 'VERIF_MODELS': json.dumps([f['model'] for f in failed if f.get('model')][:20])}
    try:
        p = subprocess.run(['/opt/venv/bin/python', script], env=env, capture_output=True, text=True, timeout=budget + 60, cwd=HERE)
    except subprocess.TimeoutExpired as e:
        return None, 'replay ran out of time'
    for line in p.stdout.split('\n'):
        if line.startswith('FOUND '):
            return line[6:], p.stdout[-4000:]
    return None, (p.stdout + p.stderr)[-4000:]


def main():
    prop = sys.argv[1]
    verbose = '-v' in sys.argv
    sub = sys.argv[sys.argv.index('-k') + 1] if '-k' in sys.argv else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from vc import harness
    mod = importlib.import_module('contracts.' + prop.lower())
    cases = [c for c in mod.cases(tier) if sub is None or sub in c.name]
    res = harness.run_cases(prop, cases, jobs=int(os.environ.get('VERIF_JOBS', '8')), verbose=verbose,
                            total=520 if tier == 'quick' else 3000, timeout=420 if tier == 'quick' else 2400)
    tot, failed, names = harness.merge(prop, cases, res)
    wall = time.time() - t0
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cov = dict(tot)
    cov['checker_cmd'] = 'python3-vt /verif/check.py %s   (verification conditions from %s/kymatio; z3 %s, cvc5)' % (prop, REPO, harness.z3.get_version_string())
    cov['trusted_base'] = TB['common'] + TB.get(prop, []) + ['assumed contract: ' + c for c in tot['assumed_contracts']]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': TB['assumptions'] + tot.pop('assumptions', []), 'wall_s': round(wall, 2), 'violations': 0}
    rc = 0
    out = []
    if failed or not tot['obligations'] + tot['bounded_obligations']:
        rc = 1
        deps = {}                       # cases a property shares with the property they come from
        for d in getattr(mod, 'SHARED', []):
            for c in importlib.import_module('contracts.' + d).cases(tier):
                deps[c.name] = d
        own = [f for f in failed if f['case'] not in deps]
        budget = max(30, min(300, 840 - wall))
        inp, log = None, ''
        t1 = time.time()
        for d in ([prop.lower()] if own or not deps else []) + sorted({deps[f['case']] for f in failed if f['case'] in deps}):
            if inp is None and (left := budget - (time.time() - t1)) > 15:
                inp, l = replay(d, failed, tier, left)
                log += '== oracle of %s\n%s\n' % (d, l)
        path = os.path.join(HERE, 'evidence', prop + '.replay.json')
        json.dump({'property': prop, 'failed_obligations': failed, 'failing_input': inp, 'replay_log': log,
                   'replay_cmd': '/opt/venv/bin/python /verif/replay/%s.py' % prop.lower()}, open(path, 'w'), indent=1)
        ev['violations'] = 1
        for f in failed[:12]:
            out.append('undischarged: [%s] %s | %s | %s | %s' % (f['case'], f['name'], f['status'], f['where'], f['detail'][:300]))
        if inp:
            out.append('failing input: ' + inp[:1000])
        out.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if inp else ' no-failing-input-found'))
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged (%d bounded), %d functions under contract, %d cases, %d solver queries, %.0fs solver, %.0fs wall'
          % (prop, tot['discharged'], tot['obligations'], tot['bounded_obligations'], len(tot['functions_under_contract']), len(cases),
             tot['solver_queries'], tot['solver_s'], wall))
    for l in out:
        print(l)
    sys.exit(rc)


if __name__ == '__main__':
    main()
