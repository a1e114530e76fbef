"""Independent numpy reference of the 2D filter bank."""
from common import *
import kymatio.scattering2d.filter_bank as FB


def gabor(M, N, sigma, theta, xi, slant=1., offset=0):
    c, s = np.cos(theta), np.sin(theta)
    g = np.zeros((M, N), complex)
    for ex in range(-2, 3):
        for ey in range(-2, 3):
            X, Y = np.meshgrid(np.arange(M) + offset + ex * M, np.arange(N) + offset + ey * N, indexing='ij')
            u, v = X * c + Y * s, Y * c - X * s
            g += np.exp(-(u ** 2 + slant ** 2 * v ** 2) / (2 * sigma ** 2)) * np.exp(1j * xi * u)
    return g * slant / (2 * 3.1415 * sigma ** 2)


def morlet(M, N, sigma, theta, xi, slant=.5, offset=0):
    w, e = gabor(M, N, sigma, theta, xi, slant, offset), gabor(M, N, sigma, theta, 0, slant, offset)
    return w - w.sum() / e.sum() * e


def fold(x, r):
    M, N = x.shape
    p = 2 ** r
    m, n = M // p, N // p

    def keep(F, f):
        w = np.arange(F)
        return (2 * w < f) | (2 * (F - w) <= f)
    y = x * keep(M, m)[:, None] * keep(N, n)[None, :]
    return y.reshape(p, m, p, n).sum((0, 2))


def same(got, want, what, tol=2e-4):
    got = np.asarray(got)
    check(got.shape == want.shape, '%s: shape %s, not %s' % (what, got.shape, want.shape))
    check(np.abs(got - want).max() <= tol * max(np.abs(want).max(), 1e-6), what)


def primitives(r):
    for M, N in ((4, 4), (8, 5), (3, 7), (16, 12)):
        for _ in range(3):
            a = (M, N, r.uniform(.5, 3), r.uniform(-3, 3), r.uniform(0, 3))
            sl, off = r.uniform(.2, 2), r.randint(-3, 3)
            at('gabor_2d / morlet_2d%s slant=%s offset=%s' % (a, sl, off))
            same(FB.gabor_2d(*a), gabor(*a), 'gabor_2d')
            same(FB.gabor_2d(*a, sl, off), gabor(*a, sl, off), 'gabor_2d with slant and offset')
            same(FB.morlet_2d(*a), morlet(*a), 'morlet_2d', 1e-3)
            same(FB.morlet_2d(*a, sl, off), morlet(*a, sl, off), 'morlet_2d with slant and offset', 1e-3)
        yield
    g = np.random.RandomState(SEED)
    for res in range(4):
        for q1, q2 in ((1, 1), (2, 3), (3, 1), (5, 4)):
            f = 2 ** (res + 1) if res else 1
            for x in (g.randn(q1 * f, q2 * f), g.randn(q1 * f, q2 * f) + 1j * g.randn(q1 * f, q2 * f)):
                at('periodize_filter_fft shape=%s res=%d %s' % (x.shape, res, x.dtype))
                same(FB.periodize_filter_fft(x, res), fold(x, res), 'fold')
        yield


def bank(M, N, J, L, got=None):
    at('filter_bank M=%d N=%d J=%d L=%d' % (M, N, J, L))
    F = got or FB.filter_bank(M, N, J, L)
    check(len(F['psi']) == J * L, '%d wavelets, not J*L=%d' % (len(F['psi']), J * L))
    for i, psi in enumerate(F['psi']):
        j, t = i // L, i % L
        check((psi['j'], psi['theta']) == (j, t), 'wavelet %d is (j, theta)=%s' % (i, (psi['j'], psi['theta'])))
        full = np.fft.fft2(morlet(M, N, .8 * 2 ** j, (int(L - L / 2 - 1) - t) * np.pi / L, .75 * np.pi / 2 ** j, 4. / L)).real
        lv = psi['levels']
        check(max(j, 1) <= len(lv) <= J, 'wavelet j=%d has %d levels' % (j, len(lv)))
        for r, x in enumerate(lv):
            same(x, fold(full, r), 'level %d of wavelet j=%d theta=%d' % (r, j, t), 1e-3)
    phi = F['phi']
    check(phi['j'] == J and len(phi['levels']) >= J, 'low-pass: j=%s, %d levels' % (phi['j'], len(phi['levels'])))
    full = np.fft.fft2(gabor(M, N, .8 * 2 ** (J - 1), 0, 0)).real
    for r, x in enumerate(phi['levels'][:J]):
        same(x, fold(full, r), 'level %d of the low-pass' % r, 1e-3)


def through(J, shape, L, pre_pad):
    from kymatio.numpy import Scattering2D
    S = Scattering2D(J=J, shape=shape, L=L, pre_pad=pre_pad)
    p = 2 ** J
    M, N = (((n + p) // p + 1) * p for n in shape)
    bank(M, N, J, L, dict(phi=S.phi, psi=S.psi))
    at('Scattering2D J=%d shape=%s L=%d pre_pad=%s' % (J, shape, L, pre_pad))


def sweep():
    r = random.Random(SEED)
    for J, L, q1, q2 in ((1, 1, 2, 3), (2, 3, 2, 1), (3, 2, 1, 2), (1, 8, 4, 4), (3, 5, 2, 3), (4, 2, 1, 1)):
        bank(q1 * 2 ** J, q2 * 2 ** J, J, L)
        yield
    yield from primitives(r)
    for J, shape, L in ((1, (5, 8), 2), (2, (7, 4), 3), (3, (8, 13), 1)):
        for pp in (False, True):
            through(J, shape, L, pp)
            yield
    for J in hints('J'):
        for L in hints('L'):
            if 1 <= J <= 4 and 1 <= L <= 12:
                bank(2 * 2 ** J, 3 * 2 ** J, J, L)
                yield
    while left() > 0:
        J = r.randint(1, 4)
        bank(r.randint(1, 4) * 2 ** J, r.randint(1, 4) * 2 ** J, J, r.randint(1, 9))
        yield


run(sweep)
