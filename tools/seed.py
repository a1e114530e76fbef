"""seed.py FILE...: each FILE defines BUGS = [dict(id, property, file, old, new, demo, needs, breaks)].
Confirms each in a scratch copy (tests pass, demo discriminates), stores it under seeded/, and reports whether the check catches it."""
import sys, os, subprocess, json, shutil, runpy, tempfile, concurrent.futures as cf
V = '/verif'
DEMO = '''#!/bin/bash
# exit 0: property holds on this input; nonzero: broken
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 KERAS_BACKEND=tensorflow OMP_NUM_THREADS=2
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def do(b, checks=True):
    d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    w = d + '/repo'
    try:
        sh('cp -a /repo %s' % w)
        msg = ['%s (%s)' % (b['id'], b['property'])]
        edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
        for f, o, n in edits:
            s = open(w + '/' + f).read()
            if s.count(o) != 1:
                return msg[0] + ': old text occurs %d times in %s' % (s.count(o), f)
            open(w + '/' + f, 'w').write(s.replace(o, n))
        patch = sh('git -C %s diff' % w).stdout
        o = d + '/demo'
        os.makedirs(o)
        open(o + '/demo.py', 'w').write(b['demo'])
        open(o + '/demo.sh', 'w').write(DEMO)
        os.chmod(o + '/demo.sh', 0o755)
        open(o + '/patch.diff', 'w').write(patch)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % o, cwd='/repo')
        if r0.returncode:
            return msg[0] + ': demo fails on the unchanged tree: ' + (r0.stdout + r0.stderr)[-500:]
        r1 = sh('bash %s/demo.sh' % o, cwd=w)
        if not r1.returncode:
            return msg[0] + ': demo passes with the patch'
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        t = sh('. /opt/vp/env.sh; cd %s && PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -n 3 --timeout=300 tests 2>&1 | tail -15' % (w, w))
        if ' failed' in t.stdout or ' error' in t.stdout or ' passed' not in t.stdout:
            t2 = t.stdout[-700:]
            return msg[0] + ': tests fail: ' + t2
        dst = '%s/seeded/%s' % (V, b['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(o, dst)
        msg.append('kept')
        if checks:
            for p in b.get('checks', [b['property']]):
                c = sh('VERIF_REPO=%s VERIF_JOBS=%s python3-vt %s/check.py %s' % (w, os.environ.get('VERIF_JOBS', '4'), SNAP, p))
                v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
                f = [l for l in c.stdout.split('\n') if l.startswith(('undischarged', 'failing input'))]
                msg.append('%s rc=%d %s' % (p, c.returncode, v[0] if v else 'MISSED ' + c.stderr[-300:]))
                msg += ['      ' + l[:220] for l in f[:2] + f[-1:]]
        return '\n   '.join(msg)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    SNAP = tempfile.mkdtemp(prefix='vsnap_', dir='/tmp')
    sh('cp -a %s/. %s/ && rm -rf %s/.git' % (V, SNAP, SNAP))
    only = [a for a in sys.argv[1:] if not a.endswith('.py')]
    bugs = []
    for f in sys.argv[1:]:
        if f.endswith('.py'):
            bugs += runpy.run_path(f)['BUGS']
    bugs = [b for b in bugs if not only or b['id'] in only]
    with cf.ThreadPoolExecutor(int(os.environ.get('SEED_JOBS', '3'))) as ex:
        for r in ex.map(do, bugs):
            print(r, flush=True)
    shutil.rmtree(SNAP, ignore_errors=True)
