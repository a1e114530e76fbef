from common import *
import common
import importlib
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
SUFFIX = {'numpy': 'NumPy', 'torch': 'Torch', 'tensorflow': 'TensorFlow', 'jax': 'Jax', 'keras': 'Keras', 'sklearn': 'Transformer'}
ENTRY = {'Scattering1D': ('scattering1d', 'Scattering%s1D'), 'TimeFrequencyScattering': ('scattering1d', 'TimeFrequencyScattering%s'),
         'Scattering2D': ('scattering2d', 'Scattering%s2D'), 'HarmonicScattering3D': ('scattering3d', 'HarmonicScattering%s3D')}
KEYS = {'Scattering1D': ['J', 'shape', 'Q', 'T', 'stride', 'max_order', 'oversampling', 'out_type', 'backend'],
        'TimeFrequencyScattering': ['J', 'J_fr', 'shape', 'Q', 'T', 'stride', 'Q_fr', 'F', 'stride_fr', 'out_type', 'format', 'backend'],
        'Scattering2D': ['J', 'shape', 'L', 'max_order', 'pre_pad', 'backend', 'out_type'],
        'HarmonicScattering3D': ['J', 'shape', 'L', 'sigma_0', 'max_order', 'rotation_covariant', 'method', 'points', 'integral_powers', 'backend']}


def spell(r, s):
    return ''.join(c.upper() if r.random() < .5 else c for c in s)


def entries():
    for dim, (pkg, pat) in ENTRY.items():
        E = getattr(kymatio, dim)
        for fe in list(SUFFIX) + [None]:
            if fe == 'keras' and dim in ('TimeFrequencyScattering', 'HarmonicScattering3D'):
                continue
            f = fe or 'numpy'
            C = getattr(importlib.import_module('kymatio.%s.frontend.%s_frontend' % (pkg, f)), pat % SUFFIX[f])
            at('kymatio.%s.%s' % (f, dim))
            check(getattr(importlib.import_module('kymatio.' + f), dim) is C, lambda: common.CURRENT + ' is another class')
            real = C.__init__
            own = '__init__' in C.__dict__
            calls = []
            C.__init__ = lambda self, *a, **k: (calls.append((type(self), a, k)), setattr(self, '_name', 'x'))[0]
            try:
                for nm in ([fe, fe.upper(), fe.capitalize()] + [spell(rng, fe) for _ in range(3)] if fe else [None]):
                    for n in range(4):
                        for keys in [KEYS[dim][n:], []] + [[k] for k in KEYS[dim][n:]]:
                            a = tuple(object() for _ in range(n))
                            k = {x: object() for x in keys}
                            at('kymatio.%s(%d positional, %s, frontend=%r)' % (dim, n, ', '.join(keys), nm))
                            del calls[:]
                            o = E(*a, **dict(k, **({'frontend': nm} if fe else {})))
                            check(type(o) is C, lambda: common.CURRENT + ': built a %s' % type(o))
                            check(len(calls) == 1 and calls[0][0] is C, lambda: common.CURRENT + ': constructor calls %s' % calls)
                            check(calls[0][1] == a and calls[0][2] == k, lambda: common.CURRENT + ': the arguments were changed to %s %s' % (calls[0][1], sorted(calls[0][2])))
            finally:
                if own:
                    C.__init__ = real
                else:
                    del C.__init__
        for nm in ('', 'nump', 'numpyy', 'torch ', ' torch', 'Transformer', 'pytorch', 'tf', 'skcuda', 'NumPy1D', '.numpy', 'base', 'entry', 'torch.', 'numpy.x', 'numpy ', '\ttorch', 'torch\n'):
            at('kymatio.%s(frontend=%r)' % (dim, nm))
            try:
                E(J=2, shape=(8,), frontend=nm)
            except RuntimeError:
                continue
            except Exception as e:
                check(False, common.CURRENT + ': raises %s' % type(e).__name__)
            check(False, common.CURRENT + ': not rejected')


def sk():
    from kymatio import sklearn as K, numpy as P
    for dim, kw, shape in (('Scattering1D', dict(J=2, Q=2), (16,)), ('Scattering1D', dict(J=2, Q=1, T='global'), (11,)), ('Scattering2D', dict(J=1, L=3), (8, 6)), ('Scattering2D', dict(J=2, L=2, max_order=1), (8, 4)),
                           ('HarmonicScattering3D', dict(J=1, L=1), (4, 3, 5))):
        o, d = getattr(K, dim)(shape=shape, **kw), getattr(P, dim)(shape=shape, **kw)
        n = int(np.prod(shape))
        for b in ((), (1,), (2,), (2, 3), (1, 2, 2)):
            x = nrng.randn(*(b + (n,)))
            want = d(x.reshape(b + shape)).reshape(b + (-1,))
            for m in ('predict', 'transform'):
                at('scikit-learn %s.%s(x of shape %s)' % (dim, m, x.shape))
                got = getattr(o, m)(x.copy())
                check(got.shape == want.shape, lambda: common.CURRENT + ': shape %s instead of %s' % (got.shape, want.shape))
                check(close(got, want), lambda: common.CURRENT + ': values differ')
        check(o.fit(x) is o and o.fit() is o, 'fit does not return the transformer')


def keras():
    from kymatio.keras import Scattering1D, Scattering2D
    from kymatio import tensorflow as P
    import tensorflow as tf
    for N in (32, 21):
        for kw in (dict(J=3), dict(J=2, Q=3), dict(J=2, Q=(4, 2), max_order=1), dict(J=3, T='global'), dict(J=3, T=2), dict(J=3, T=11, Q=2), dict(J=2, T=16), dict(J=3, oversampling=1), dict(J=3, T=4, oversampling=2)):
            at('Keras Scattering1D(%s) on signals of length %d' % (kw, N))
            x = nrng.randn(2, N).astype('float32')
            o, d = Scattering1D(**kw), P.Scattering1D(shape=N, **kw)
            one(o, d, x, dict(dict(Q=1, T=None, oversampling=0, max_order=2), **kw))
        for kw in (dict(J=3, T=0), dict(J=2, T=0, Q=2, max_order=1)):
            at('Keras Scattering1D(%s) on signals of length %d' % (kw, N))
            try:
                Scattering1D(**kw)(nrng.randn(2, N).astype('float32'))
            except ValueError:
                continue
            check(False, common.CURRENT + ': not rejected, although the transform itself is')
    for kw in (dict(J=1), dict(J=2), dict(J=2, L=3), dict(J=3, L=2, max_order=1), dict(J=2, L=4, pre_pad=True), dict(J=1, L=2, pre_pad=True), dict(J=3, L=1)):
        for M, N in ((16, 16), (8, 24), (9, 14)):
            J = kw['J']
            if kw.get('pre_pad') and (M % 2 ** J or N % 2 ** J):
                continue
            s = (M, N)
            if kw.get('pre_pad'):
                s = tuple((n // 2 ** J + 2) * 2 ** J for n in s)
            at('Keras Scattering2D(%s) on images of size %s' % (kw, s))
            x = nrng.randn(2, *s).astype('float32')
            one(Scattering2D(**kw), P.Scattering2D(shape=(M, N), **kw), x, dict(dict(L=8, max_order=2, pre_pad=False), **kw))


def one(o, d, x, cfg):
    got, want = o(x), d(x)
    check(tuple(got.shape) == tuple(want.shape), lambda: common.CURRENT + ': shape %s instead of %s' % (got.shape, want.shape))
    check(close(to_np(got), to_np(want), 1e-5), lambda: common.CURRENT + ': values differ')
    dec = tuple(o.compute_output_shape(x.shape))
    check(dec == tuple(got.shape), lambda: common.CURRENT + ': declares %s and produces %s' % (dec, tuple(got.shape)))
    dec = tuple(o.compute_output_shape((None,) + x.shape[1:]))
    check(dec == (None,) + tuple(got.shape)[1:], lambda: common.CURRENT + ': declares %s for an unknown batch size' % (dec,))
    c = o.get_config()
    for k, v in cfg.items():
        check(c.get(k) == v, lambda: common.CURRENT + ': get_config says %s=%r' % (k, c.get(k)))
    check(close(to_np(o(x)), to_np(want), 1e-5), lambda: common.CURRENT + ': the second call differs')


run(sk, keras, entries)
