"""slices of the output at a batch index equal the transform of the slice of the input; leading axes preserved"""
from common import *
import common, importlib
from ref2d import tensor

BATCHES = ((), (1,), (3,), (2, 3), (3, 2), (1, 2), (2, 1, 3), (2, 2, 2), (40,), (5, 27), (70,))


def parts(out, ot):
    if ot == 'list':
        return [to_np(p['coef']) for p in out]
    if ot == 'dict':
        return [to_np(out[k]) for k in out]
    return [to_np(out)]


def compare(fe, S, ot, size, b, ncoef):
    x = np.random.RandomState(5).randn(*(b + size)).astype('float32')
    x *= (1 + np.arange(int(np.prod(b))).reshape(b + (1,) * len(size))).astype('float32') if b else 1
    d = common.CURRENT
    full = parts(S(tensor(fe, x)), ot)
    one = {}
    idx = list(np.ndindex(*b))
    idx = idx if len(idx) <= 12 else [idx[0], idx[-1]] + random.Random(1).sample(idx, 6)
    for i in idx:
        one[i] = parts(S(tensor(fe, x[i])), ot)
    for k, f in enumerate(full):
        r = one[tuple(0 for _ in b)][k]
        check(r.ndim == ncoef, lambda: d + ': a single signal gives a coefficient of shape %s' % (r.shape,))
        check(f.shape == b + r.shape, lambda: d + ': output %d has shape %s, expected %s' % (k, f.shape, b + r.shape))
        for i in one:
            e = np.abs(f[i] - one[i][k]).max() if f[i].size else 0
            check(e <= 1e-3 * max(np.abs(one[i][k]).max(), 1e-3), lambda: d + ': output %d at batch index %s differs from the transform of that signal by %.3g of %.3g' % (k, i, e, np.abs(one[i][k]).max()))


def sweep():
    r = random.Random(SEED)
    while left() > 0:
        for fe in ('numpy', 'torch', 'jax', 'tensorflow'):
            m = importlib.import_module('kymatio.' + fe)
            for b in (BATCHES if fe == 'numpy' else r.sample(BATCHES, 3) + [(2, 3)]):
                N = r.choice((37, 64, 50))
                kw = dict(J=r.choice((2, 3)), shape=N, Q=r.choice((1, 2)), T=r.choice((None, 0, 'global', 4, N)), out_type=r.choice(('array', 'list', 'dict')), max_order=r.choice((1, 2)))
                if kw['T'] == 0 and kw['out_type'] == 'array':
                    kw['out_type'] = 'list'
                at('Scattering1D', fe, kw, 'batch', b)
                try:
                    S = m.Scattering1D(**kw)
                except AssertionError:
                    continue
                compare(fe, S, kw['out_type'], (N,), b, 2 if kw['out_type'] == 'array' else 1)
                yield
                kw = dict(J=r.choice((1, 2)), shape=(r.randint(4, 9), r.randint(4, 9)), L=2, out_type=r.choice(('array', 'list')), max_order=r.choice((1, 2)), pre_pad=r.random() < .3)
                at('Scattering2D', fe, kw, 'batch', b)
                S = m.Scattering2D(**kw)
                size = kw['shape'] if not kw['pre_pad'] else tuple((n // 2 ** kw['J'] + 2) * 2 ** kw['J'] for n in kw['shape'])
                compare(fe, S, kw['out_type'], size, b, 3 if kw['out_type'] == 'array' else 2)
                yield
                kw = dict(J=r.choice((0, 1)), shape=tuple(r.randint(3, 6) for _ in range(3)), L=r.choice((0, 2)), max_order=r.choice((1, 2)), rotation_covariant=r.random() < .5, integral_powers=(1., 2.))
                at('HarmonicScattering3D', fe, kw, 'batch', b)
                compare(fe, m.HarmonicScattering3D(**kw), 'array', kw['shape'], b, 3)
                yield


run(sweep)
