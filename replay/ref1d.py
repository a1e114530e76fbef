"""Independent reference of the 1D cascade, computed with numpy from the filters of the object under test."""
import math, itertools
from common import *
import common


def make(frontend, **kw):
    import importlib
    cls = importlib.import_module('kymatio.' + frontend).Scattering1D if frontend != 'keras' else None
    return cls(**kw)


def fl2(t):
    m, e = math.frexp(t)
    return e - 1


def mode(T):
    return {None: 'local', 'global': 'global', 0: False}.get(T, 'local')


def level(f, k):
    """the filter at resolution k: fold of the full-resolution transform"""
    f0 = np.asarray(f['levels'][0])
    return f0.reshape(2 ** k, -1).sum(0)


def ref_paths(S, x, J, N, T, stride, max_order):
    """list of (n, j, coef) in the documented order for x of shape (..., N)"""
    m = mode(T)
    Tv = 2 ** J if T in (None, 'global', 0) else T
    lt = fl2(Tv)
    ls = lt if stride is None else fl2(stride)
    P, pl, pr = S._N_padded, S.pad_left, S.pad_right
    xp = np.pad(x, [(0, 0)] * (x.ndim - 1) + [(pl, pr)], mode='reflect')
    X = np.fft.fft(xp)
    phi = lambda k: level(S.phi_f, k)

    def subs(Y, k):
        return Y.reshape(Y.shape[:-1] + (2 ** k, Y.shape[-1] // 2 ** k)).mean(-2) if k else Y

    def low(Y, k):
        return np.real(np.fft.ifft(subs(Y * phi(k), ls - k)))

    def fin(y, res):
        if m == 'global':
            return y.sum(-1, keepdims=True)
        a, b = -(-pl // 2 ** res), -(-(pl + N) // 2 ** res)
        return y[..., a:b]
    out = [((), (), fin(low(X, 0), ls) if m == 'local' else fin(xp, 0))]
    o1, o2 = [], []
    for n1, p1 in enumerate(S.psi1_f):
        j1 = p1['j']
        k1 = min(j1, ls) if m == 'local' else j1
        U1 = np.abs(np.fft.ifft(subs(X * level(p1, 0), k1)))
        U1h = np.fft.fft(U1)
        o1.append(((n1,), (j1,), fin(low(U1h, k1), ls) if m == 'local' else fin(U1, j1)))
        if max_order < 2:
            continue
        for n2, p2 in enumerate(S.psi2_f):
            j2 = p2['j']
            if j2 > j1:
                r2 = min(j2, ls) if m == 'local' else j2
                U2 = np.abs(np.fft.ifft(subs(U1h * level(p2, k1), r2 - k1)))
                o2.append(((n1, n2), (j1, j2), fin(low(np.fft.fft(U2), r2), ls) if m == 'local' else fin(U2, j2)))
    return out + o1 + o2


def configs(n_random=100000, frontends=('numpy',), big=True):
    """parameter sets covering every mode; corner cases first"""
    base = [dict(J=4, N=100, Q=(3, 1), T=None, stride=None), dict(J=4, N=100, Q=(3, 1), T='global', stride=None),
            dict(J=4, N=100, Q=(3, 1), T=0, stride=None), dict(J=4, N=101, Q=(3, 1), T=5.5, stride=None),
            dict(J=4, N=101, Q=(3, 1), T=1, stride=None), dict(J=4, N=64, Q=(2, 2), T=None, stride=4),
            dict(J=5, N=128, Q=(1, 2), T=None, stride=1), dict(J=5, N=128, Q=(1, 2), T=100, stride=8),
            dict(J=6, N=64, Q=(2, 1), T=None, stride=None), dict(J=3, N=50, Q=8, T=None, stride=2),
            dict(J=6, N=77, Q=(4, 1), T=0, stride=None), dict(J=5, N=300, Q=(8, 1), T=7, stride=2),
            dict(J=7, N=2 ** 10, Q=(1, 2), T=None, stride=None), dict(J=5, N=2 ** 11, Q=(1, 2), T=None, stride=None),
            dict(J=5, N=37, Q=(16, 1), T='global', stride=None), dict(J=2, N=9, Q=1, T=None, stride=None),
            dict(J=1, N=2, Q=1, T=None, stride=None), dict(J=1, N=3, Q=1, T=2, stride=1)]
    for h in hints('J'):
        if 1 <= h <= 9:
            for nn in hints('N') or [2 ** (h + 2)]:
                if 2 ** h <= nn <= 2 ** 13:
                    base.append(dict(J=h, N=nn, Q=1, T=None, stride=None))
    for b in base:
        yield b
    r = random.Random(SEED)
    for _ in range(n_random):
        J = r.randint(1, 7)
        N = r.choice([2 ** J, 2 ** J + 1, 2 ** J + r.randint(0, 3 * 2 ** J), r.randint(2 ** J, 2 ** (J + 2) + 5)])
        Q = r.choice([1, 2, 3, (1, 2), (4, 1), (2, 3), 8])
        T = r.choice([None, None, 'global', 0, r.randint(1, N), round(r.uniform(1, N), 2)])
        Tv = 2 ** J if T in (None, 'global', 0) else T
        stride = None
        if mode(T) == 'local' and r.random() < .5:
            stride = 2 ** r.randint(0, fl2(Tv))
        yield dict(J=J, N=N, Q=Q, T=T, stride=stride)


OUT = {'numpy': 1e-9, 'jax': 2e-4, 'torch': 2e-4, 'tensorflow': 2e-4}


def tensor(frontend, x):
    if frontend == 'torch':
        import torch
        return torch.from_numpy(np.array(x, dtype='float32'))
    if frontend == 'tensorflow':
        import tensorflow as tf
        return tf.convert_to_tensor(x.astype('float32'))
    if frontend == 'jax':
        import jax.numpy as jnp
        return jnp.asarray(x)
    return x


def compare(frontend, c, out_type, max_order, what, bs=()):
    """what: 'labels' or 'values'"""
    at('Scattering1D', frontend, c, 'out_type=%s max_order=%d batch=%s' % (out_type, max_order, bs))
    d = common.CURRENT
    try:
        S = make(frontend, J=c['J'], shape=c['N'], Q=c['Q'], T=c['T'], stride=c['stride'], max_order=max_order, out_type=out_type)
    except AssertionError:
        return          # rejected by the anti-aliasing assertions
    x = np.random.RandomState(7).randn(*(bs + (c['N'],)))
    try:
        got = S(tensor(frontend, x))
    except ValueError as e:
        if c['T'] == 0 and out_type == 'array':
            return
        raise
    check(not (c['T'] == 0 and out_type == 'array'), d + ': T=0 with array was accepted')
    want = ref_paths(S, x, c['J'], c['N'], c['T'], c['stride'], max_order)
    tol = OUT[frontend]
    if out_type == 'list':
        check([p.get('n') for p in got] == [w[0] for w in want], lambda: d + ': n labels %s, expected %s' % ([p.get('n') for p in got][:8], [w[0] for w in want][:8]))
        check([p.get('j') for p in got] == [w[1] for w in want], d + ': j labels differ')
        check([p.get('order') for p in got] == [len(w[0]) for w in want], d + ': order labels differ')
        coefs = [to_np(p['coef']) for p in got]
    elif out_type == 'dict':
        check(sorted(got.keys(), key=lambda n: (len(n), n)) == [w[0] for w in want], lambda: d + ': keys %s' % list(got)[:8])
        coefs = [to_np(got[w[0]]) for w in want]
    else:
        g = to_np(got)
        check(g.shape[-2] == len(want), d + ': %d coefficients, expected %d' % (g.shape[-2], len(want)))
        coefs = [g[..., i, :] for i in range(len(want))]
    if what == 'labels' and out_type == 'list':
        # identify each coefficient with its path by value
        tol = 1e-2
    for co, (n, j, w) in zip(coefs, want):
        check(co.shape == w.shape, lambda: d + ': path %s has shape %s, expected %s' % (n, co.shape, w.shape))
        check(close(co, w, tol) or np.abs(co - w).max() <= tol * 1e-2 * np.abs(x).max(), lambda: d + ': path n=%s j=%s differs from its cascade: max error %.3g of %.3g' % (n, j, np.abs(co - w).max(), np.abs(w).max()))


def sweep(what, frontends=('numpy', 'torch', 'jax', 'tensorflow')):
    r = random.Random(SEED + 1)
    for i, c in enumerate(configs()):
        if left() < 0:
            return
        fes = frontends if i < 6 else [frontends[0] if r.random() < .7 else r.choice(frontends)]
        for fe in fes:
            for out in (['list', 'array', 'dict'] if i < 6 else [r.choice(['list', 'list', 'array', 'dict'])]):
                for mo in ((1, 2) if i < 6 else (r.choice([1, 2, 2]),)):
                    compare(fe, c, out, mo, what, () if i % 2 else (2,))
                    yield
