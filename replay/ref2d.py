"""Independent reference of the 2D cascade, computed with numpy from the filters of the object under test."""
from common import *
import common

TOL = {'numpy': 1e-9, 'jax': 3e-4, 'torch': 3e-4, 'tensorflow': 3e-4}


def make(fe, **kw):
    import importlib
    return importlib.import_module('kymatio.' + fe).Scattering2D(**kw)


def tensor(fe, x):
    if fe == 'torch':
        import torch
        return torch.from_numpy(np.array(x, dtype='float32'))
    if fe == 'tensorflow':
        import tensorflow as tf
        return tf.convert_to_tensor(x.astype('float32'))
    if fe == 'jax':
        import jax.numpy as jnp
        return jnp.asarray(x.astype('float32'))
    return x


def fold(f, k):
    """mean over aliases after subsampling by k"""
    M, N = f.shape[-2:]
    return f.reshape(f.shape[:-2] + (k, M // k, k, N // k)).mean((-4, -2))


def lev(f, r):
    return np.asarray(f['levels'][r], dtype='float64')


def ref(S, x, J, shape, max_order, pre_pad):
    M, N = shape
    Mp, Np = ((M // 2 ** J) + 2) * 2 ** J, ((N // 2 ** J) + 2) * 2 ** J
    if pre_pad:
        P = x
    else:
        a, b = Mp - M, Np - N
        P = np.pad(x, [(0, 0)] * (x.ndim - 2) + [(a // 2, (a + 1) // 2), (b // 2, (b + 1) // 2)], mode='reflect')
    X = np.fft.fft2(P)

    def low(F, r):
        y = np.real(np.fft.ifft2(fold(F * lev(S.phi, r), 2 ** (J - r))))
        return y[..., 1:-1, 1:-1]
    o = [((), (), (), low(X, 0))]
    o1, o2 = [], []
    for n1, p1 in enumerate(S.psi):
        U1 = np.fft.fft2(np.abs(np.fft.ifft2(fold(X * lev(p1, 0), 2 ** p1['j']))))
        o1.append(((n1,), (p1['j'],), (p1['theta'],), low(U1, p1['j'])))
        if max_order > 1:
            for n2, p2 in enumerate(S.psi):
                if p1['j'] < p2['j']:
                    U2 = np.abs(np.fft.ifft2(fold(U1 * lev(p2, p1['j']), 2 ** (p2['j'] - p1['j']))))
                    o2.append(((n1, n2), (p1['j'], p2['j']), (p1['theta'], p2['theta']), low(np.fft.fft2(U2), p2['j'])))
    return o + o1 + o2


def configs():
    for c in [dict(J=2, shape=(16, 16), L=3), dict(J=2, shape=(4, 4), L=2), dict(J=3, shape=(9, 30), L=2), dict(J=3, shape=(24, 17), L=2),
              dict(J=1, shape=(5, 2), L=4), dict(J=3, shape=(8, 40), L=1), dict(J=2, shape=(7, 23), L=4), dict(J=1, shape=(2, 3), L=8)]:
        yield c
    for J in hints('J'):
        if 1 <= J <= 4:
            for m in hints('M') or [2 ** J]:
                for n in hints('N') or [2 ** J + 1]:
                    if 2 ** J <= m <= 128 and 2 ** J <= n <= 128:
                        yield dict(J=J, shape=(m, n), L=2)
    r = random.Random(SEED)
    while True:
        J = r.randint(1, 4)
        yield dict(J=J, shape=(r.randint(2 ** J, 2 ** J * 3 + 5), r.randint(2 ** J, 2 ** J * 3 + 5)), L=r.randint(1, 4))


def compare(fe, c, out_type, mo, pre_pad, bs, seed=3):
    at('Scattering2D', fe, c, 'out_type=%s max_order=%d pre_pad=%s batch=%s' % (out_type, mo, pre_pad, bs))
    d = common.CURRENT
    J, (M, N) = c['J'], c['shape']
    S = make(fe, J=J, shape=c['shape'], L=c['L'], max_order=mo, pre_pad=pre_pad, out_type=out_type)
    sz = (M, N) if not pre_pad else (((M // 2 ** J) + 2) * 2 ** J, ((N // 2 ** J) + 2) * 2 ** J)
    x = np.random.RandomState(seed).randn(*(bs + sz))
    got = S(tensor(fe, x))
    S0 = make('numpy', J=J, shape=c['shape'], L=c['L'], max_order=mo)
    if out_type != "list":
        g = to_np(got)
        check(g.shape[:-3] == bs and g.shape[-2:] == (M // 2 ** J, N // 2 ** J), lambda: d + ": output shape %s, expected %s" % (g.shape, bs + ("paths", M // 2 ** J, N // 2 ** J)))
    want = ref(S0, x, J, c['shape'], mo, pre_pad)
    if out_type == 'list':
        for key, i in (('n', 0), ('j', 1), ('theta', 2)):
            check([p.get(key) for p in got] == [w[i] for w in want], lambda: d + ': %s labels %s, expected %s' % (key, [p.get(key) for p in got][:8], [w[i] for w in want][:8]))
        co = [to_np(p['coef']) for p in got]
    else:
        g = to_np(got)
        check(g.ndim == len(bs) + 3 and g.shape[-3] == len(want), lambda: d + ': output shape %s, %d coefficients expected' % (g.shape, len(want)))
        co = [g[..., i, :, :] for i in range(len(want))]
    for g, w in zip(co, want):
        check(g.shape == bs + (M // 2 ** J, N // 2 ** J), lambda: d + ': path %s has shape %s, expected %s' % (w[0], g.shape, bs + (M // 2 ** J, N // 2 ** J)))
        check(close(g, w[3], TOL[fe]) or np.abs(g - w[3]).max() <= TOL[fe] * 1e-1 * np.abs(x).max(), lambda: d + ': path n=%s j=%s differs from its cascade: max error %.3g of %.3g' % (w[0], w[1], np.abs(g - w[3]).max(), np.abs(w[3]).max()))


def sweep(frontends=('numpy', 'torch', 'jax', 'tensorflow'), batches=((2,), (), (1, 2))):
    r = random.Random(SEED + 1)
    for i, c in enumerate(configs()):
        if left() < 0:
            return
        for fe in (frontends if i < 6 else (r.choice(frontends),)):
            for out in ('array', 'list'):
                for pp in ((False, True) if i < 4 else (r.random() < .3,)):
                    for mo in ((2, 1) if i < 3 else (2,)):
                        compare(fe, c, out, mo, pp, r.choice(batches))
                        yield
