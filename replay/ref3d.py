"""Independent reference of the 3D cascade, computed with numpy from the filters of the (numpy) object."""
from common import *
import common
from ref2d import tensor

TOL = {'numpy': 1e-4, 'jax': 2e-3, 'torch': 2e-3, 'tensorflow': 2e-3}


def make(fe, **kw):
    import importlib
    return importlib.import_module('kymatio.' + fe).HarmonicScattering3D(**kw)


def ref(filters, x, J, L, max_order, rot, powers):
    """coefficients of shape batch + (paths, L+1, powers)"""
    X = np.fft.fftn(x, axes=(-3, -2, -1))

    def U(F, l, j):
        if rot:
            return np.sqrt(sum(np.abs(np.fft.ifftn(F * np.asarray(filters[l][j][m]), axes=(-3, -2, -1))) ** 2 for m in range(2 * l + 1)))
        return np.abs(np.fft.ifftn(F * np.asarray(filters[l][j][0]), axes=(-3, -2, -1)))

    def I(u):
        return np.stack([(u ** q).sum((-3, -2, -1)) for q in powers], -1)
    per_l = []
    for l in range(L + 1):
        o1, o2 = [], []
        for j1 in range(J + 1):
            u = U(X, l, j1)
            o1.append(I(u))
            if max_order > 1:
                F = np.fft.fftn(u, axes=(-3, -2, -1))
                for j2 in range(j1 + 1, J + 1):
                    o2.append(I(U(F, l, j2)))
        per_l.append(np.stack(o1 + o2, -2))
    return np.stack(per_l, -2)


def configs():
    for c in [dict(J=2, shape=(8, 8, 8), L=2), dict(J=1, shape=(4, 6, 10), L=3), dict(J=0, shape=(5, 7, 3), L=1), dict(J=2, shape=(9, 8, 6), L=0),
              dict(J=3, shape=(8, 12, 8), L=1)]:
        yield c
    r = random.Random(SEED)
    for J in hints('J'):
        for L in hints('L'):
            if 0 <= J <= 3 and 0 <= L <= 4:
                yield dict(J=J, L=L, shape=(6, 5, 8))
    while True:
        yield dict(J=r.randint(0, 3), L=r.randint(0, 4), shape=tuple(r.randint(2, 10) for _ in range(3)))


POWERS = ((0.5, 1., 2.), (1.,), (2., 3.), (3., 1.5, 0.5, 1.), (1., 2.))


def compare(fe, c, mo, rot, bs, powers=(0.5, 1., 2.), seed=3):
    at('HarmonicScattering3D', fe, c, 'max_order=%d rotation_covariant=%s powers=%s batch=%s' % (mo, rot, powers, bs))
    d = common.CURRENT
    S = make(fe, max_order=mo, rotation_covariant=rot, integral_powers=powers, **c)
    S0 = make('numpy', max_order=mo, rotation_covariant=rot, integral_powers=powers, **c)
    x = np.random.RandomState(seed).randn(*(bs + c['shape']))
    got = to_np(S(tensor(fe, x)))
    want = ref(S0.filters, x, c['J'], c['L'], mo, rot, powers)
    check(got.shape == want.shape, lambda: d + ': output shape %s, expected %s' % (got.shape, want.shape))
    err = np.abs(got - want)
    # a rounding error e of a modulus near zero changes its q-th power by up to e ** q
    vol = float(np.prod(c['shape']))
    tol = TOL[fe] * np.abs(want) + vol * (1e-5 * np.abs(x).max()) ** np.minimum(np.asarray(powers), 1.)
    check(bool((err <= tol).all()), lambda: d + ': coefficient at (batch, path, l, power) = %s is %.6g, expected %.6g' % (
        (lambda i: (i, got[i], want[i]))(tuple(int(v) for v in np.argwhere(~(err <= tol))[0]))))


def sweep(frontends=('numpy', 'torch', 'jax', 'tensorflow'), batches=((2,), (), (1, 2))):
    r = random.Random(SEED + 1)
    for i, c in enumerate(configs()):
        if left() < 0:
            return
        for fe in (frontends if i < 5 else (r.choice(frontends),)):
            for rot in (True, False):
                for mo in ((2, 1) if i < 3 else (2,)):
                    compare(fe, c, mo, rot, r.choice(batches), POWERS[i % len(POWERS)])
                    yield
