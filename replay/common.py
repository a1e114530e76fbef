"""Replay oracles: search the real code (the tree the verification conditions came from) for a failing input.
An oracle is only consulted after an obligation failed; what it finds is reported as the failing input."""
import os, sys, json, time, random, traceback, warnings
warnings.simplefilter('ignore')
warnings.showwarning = lambda *a, **k: None
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
import numpy as np
import kymatio
assert os.path.realpath(kymatio.__file__).startswith(os.path.realpath(REPO) + os.sep), kymatio.__file__
BUDGET = float(os.environ.get('VERIF_BUDGET', '240'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
rng = random.Random(SEED)
nrng = np.random.RandomState(SEED)
try:
    MODELS = json.loads(os.environ.get('VERIF_MODELS', '[]'))
except Exception:
    MODELS = []


def hints(name):
    """integer values the solver's counterexamples gave to a parameter"""
    out = []
    for m in MODELS:
        v = (m or {}).get(name)
        try:
            out.append(int(v))
        except (TypeError, ValueError):
            pass
    return sorted(set(out))


class Found(Exception):
    pass


def left():
    return BUDGET - (time.time() - T0)


def check(cond, msg):
    if not cond:
        raise Found(msg() if callable(msg) else msg)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.all(np.isfinite(a)):
        return bool(np.array_equal(a, b, equal_nan=True))
    s = max(np.abs(b).max(), 1e-30)
    return bool(np.abs(a - b).max() <= tol * s)


def to_np(x):
    if hasattr(x, 'detach'):
        return x.detach().cpu().numpy()
    return np.asarray(x)


def raises(excs, f, *a, **k):
    try:
        f(*a, **k)
    except excs:
        return True
    except Exception as e:
        return False
    return False


def run(*steps):
    """each step is a callable or generator-callable; the first Found is the failing input"""
    n = 0
    try:
        for s in steps:
            r = s()
            if hasattr(r, '__next__'):
                for _ in r:
                    n += 1
                    if left() < 0:
                        break
            n += 1
            if left() < 0:
                break
    except Found as e:
        print('FOUND ' + str(e).replace('\n', ' ')[:1500], flush=True)
        sys.stdout.flush()
        os._exit(1)
    except Exception as e:
        # an exception of the code under test at an input the property covers
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
        if inrepo:
            print('FOUND %s raises %s: %s at %s:%d' % (CURRENT, type(e).__name__, str(e)[:300].replace('\n', ' '), inrepo[-1].filename, inrepo[-1].lineno), flush=True)
            os._exit(1)
        traceback.print_exc()
    print('nothing found in %d inputs, %.0fs' % (n, time.time() - T0), flush=True)
    os._exit(0)


CURRENT = ''


def at(*a):
    global CURRENT
    CURRENT = ' '.join(str(x) for x in a)
