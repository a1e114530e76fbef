"""Independent numpy reference of the 3D filter banks, sampled point by point on the centred grid."""
from common import *
from scipy.special import sph_harm, factorial
import kymatio.scattering3d.filter_bank as FB


def axis(n):
    return np.array([i if i < (n + 1) // 2 else i - n for i in range(n)], float)


def grid(d, fourier):
    ax = [axis(n) * (2 * np.pi / n if fourier else 1) for n in d]
    return np.meshgrid(*ax, indexing='ij')


def gauss(d, s, fourier):
    z, y, x = grid(d, fourier)
    w = 1. / s if fourier else s
    g = np.exp(-.5 * (z ** 2 + y ** 2 + x ** 2) / w ** 2)
    return g if fourier else g / ((2 * np.pi) ** 1.5 * w ** 3)


def harm(d, s, l, fourier):
    if l == 0:
        return gauss(d, s, fourier)[None]
    z, y, x = grid(d, fourier)
    w = 1. / s if fourier else s
    r2 = z ** 2 + y ** 2 + x ** 2
    rad = r2 ** (l / 2.) * np.exp(-.5 * r2 / w ** 2) / w ** l
    az, pol = np.arctan2(y, x), np.arctan2(z, np.sqrt(x ** 2 + y ** 2)) + np.pi / 2
    if l % 2:
        c = 1. / (2 ** ((l + 3) / 2.) * np.sqrt(np.pi * (2 * l + 1)) * factorial((l + 1) // 2))
    else:
        c = 1. / (2 * np.pi * np.sqrt(l + .5) * np.prod(np.arange(l + 1, 0, -2)))
    c = c * (2 * np.pi) ** 1.5 * (-1j) ** l if fourier else c / w ** 3
    return np.stack([sph_harm(m, l, az, pol) * rad * c for m in range(-l, l + 1)])


def one(d, J, L, s0):
    at('filter banks M, N, O=%s J=%d L=%d sigma_0=%s' % (d, J, L, s0))
    for fo in (None, True, False):
        k = {} if fo is None else dict(fourier=fo)
        f = fo is not False
        for what, fn in (('gaussian_3d', lambda: FB.gaussian_3d(*d, s0, **k)),):
            check(close(fn(), gauss(d, s0, f), 1e-4), what + ' fourier=%s' % fo)
        g = FB.gaussian_filter_bank(*d, J, s0, **k)
        want = np.stack([gauss(d, s0 * 2 ** j, f) for j in range(J + 1)])
        check(np.shape(g) == want.shape, 'Gaussian bank shape %s' % (np.shape(g),))
        for j in range(J + 1):
            check(close(g[j], want[j], 1e-4), 'Gaussian of scale j=%d fourier=%s' % (j, fo))
        h = FB.solid_harmonic_filter_bank(*d, J, L, s0, **k)
        check(len(h) == L + 1, '%d orders in the bank, not %d' % (len(h), L + 1))
        for l in range(L + 1):
            check(np.shape(h[l]) == (J + 1, 2 * l + 1) + d, 'shape of order l=%d: %s' % (l, np.shape(h[l])))
            for j in range(J + 1):
                w = harm(d, s0 * 2 ** j, l, f)
                for m in range(2 * l + 1):
                    check(close(h[l][j, m], w[m], 2e-3) or np.abs(h[l][j, m] - w[m]).max() < 1e-6 * np.abs(w).max(), 'wavelet l=%d j=%d m=%d fourier=%s' % (l, j, m - l, fo))


def through(d, J, L, s0):
    from kymatio.numpy import HarmonicScattering3D
    at('HarmonicScattering3D shape=%s J=%d L=%d sigma_0=%s' % (d, J, L, s0))
    S = HarmonicScattering3D(J=J, shape=d, L=L, sigma_0=s0)
    check(len(S.filters) == L + 1, 'orders of the bank')
    for l in range(L + 1):
        check(np.shape(S.filters[l])[:2] == (J + 1, 2 * l + 1), 'shape of order l=%d' % l)
        for j in range(J + 1):
            check(close(S.filters[l][j], harm(d, s0 * 2 ** j, l, True), 2e-3), 'wavelets l=%d j=%d of the transform' % (l, j))
    for j in range(J + 2):
        check(close(S.gaussian_filters[j], gauss(d, s0 * 2 ** j, True), 1e-4), 'Gaussian j=%d of the transform' % j)


def sweep():
    r = random.Random(SEED)
    ds = [(4, 6, 5), (5, 5, 5), (8, 8, 8), (3, 7, 4), (7, 2, 9), (2, 3, 2)]
    for i, d in enumerate(ds):
        one(d, i % 3, (2, 3, 4, 1, 5, 0)[i], (1., 1.5, .7)[i % 3])
        through(d, i % 3, i % 4, (1., 1.5, .7)[i % 3])
        yield
    for J in hints('J'):
        for L in hints('L'):
            if 0 <= J <= 4 and 0 <= L <= 6:
                one((5, 6, 4), J, L, 1.)
                yield
    while left() > 0:
        d = tuple(r.randint(2, 11) for _ in range(3))
        one(d, r.randint(0, 3), r.randint(0, 6), r.choice([.5, 1., 1.3, 2.]))
        yield


run(sweep)
