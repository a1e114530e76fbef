"""Oracles for the backend primitives: direct numpy formulas."""
from common import *
import common, importlib
FWS = ('numpy', 'jax', 'torch', 'tensorflow')
CLS = {'numpy': 'NumpyBackend', 'jax': 'JaxBackend', 'torch': 'TorchBackend', 'tensorflow': 'TensorFlowBackend'}
REJ = ('TypeError', 'RuntimeError', 'ValueError')


def be(fw, dim):
    return importlib.import_module('kymatio.scattering%dd.backend.%s_backend' % (dim, fw)).backend


def give(fw, x, cx=None, unit=True, ro=True):
    """x (numpy, complex or real) in the representation of the framework"""
    if fw == 'torch':
        import torch
        if np.iscomplexobj(x):
            x = np.stack([x.real, x.imag], -1)
        elif unit:
            x = x[..., None]
        return torch.from_numpy(np.ascontiguousarray(x))
    if fw == 'tensorflow':
        import tensorflow as tf
        return tf.convert_to_tensor(x)
    if fw == 'jax':
        import jax.numpy as jn
        return jn.asarray(x)
    x = np.array(x)
    x.setflags(write=not ro)
    return x


def take(fw, y, cx, unit=True):
    y = to_np(y)
    if fw == 'torch' and (cx or unit):
        if cx:
            check(y.shape[-1:] == (2,), common.CURRENT + ': result of shape %s' % (y.shape,))
            return y[..., 0] + 1j * y[..., 1]
        check(y.shape[-1:] == (1,), common.CURRENT + ': result of shape %s' % (y.shape,))
        return y[..., 0]
    return y


def same(got, want, tol=2e-4):
    check(got.shape == want.shape, lambda: common.CURRENT + ': shape %s instead of %s' % (got.shape, want.shape))
    check(np.iscomplexobj(got) == np.iscomplexobj(want), lambda: common.CURRENT + ': %s result' % got.dtype)
    check(close(got, want, tol), lambda: common.CURRENT + ': %s instead of %s' % (str(got.ravel()[:4]), str(want.ravel()[:4])))


def rejected(f, excs=REJ):
    try:
        f()
    except Exception as e:
        check(type(e).__name__ in excs, lambda: common.CURRENT + ': raises %s' % type(e).__name__)
        return
    check(False, lambda: common.CURRENT + ': not rejected')


def fft(x, dim, inv=False):
    ax = tuple(range(-dim, 0))
    return (np.fft.ifftn if inv else np.fft.fftn)(x, axes=ax)


def refl(s, n):
    if n == 1:
        return 0
    m = s % (2 * n - 2)
    return m if m < n else 2 * n - 2 - m


def rnd(r, shape, cx, dbl):
    x = r.randn(*shape)
    if cx:
        return (x + 1j * r.randn(*shape)).astype('complex128' if dbl else 'complex64')
    return x.astype('float64' if dbl else 'float32')


def shapes(r, dim, small=6):
    for b in ((2,), (1,), (2, 3), (), (1, 2, 2)):
        yield b, tuple(r.randint(1, small + 1, dim))


def common_checks(dim, r):
    for fw in FWS:
        B = be(fw, dim)
        for dbl in (False, True) if fw in ('numpy', 'torch') else (False,):
            for b, d in shapes(r, dim):
                x = rnd(r, b + d, True, dbl)
                at('%s %dD modulus shape=%s double=%s' % (fw, dim, b + d, dbl))
                gx = give(fw, x)
                same(take(fw, B.modulus(gx), False), np.abs(x))
                same(take(fw, gx, True), x)
                if fw == 'torch':
                    rejected(lambda: B.modulus(give(fw, np.abs(x))), ('TypeError',))
                for name in ('cdgmm',) + (('cdgmm3d',) if dim == 3 else ()):
                    for cxf in (True, False):
                        f = rnd(r, d, cxf, dbl)
                        at('%s %dD %s shape=%s complex filter=%s double=%s' % (fw, dim, name, b + d, cxf, dbl))
                        F = f if fw == 'tensorflow' else give(fw, f)
                        gx = give(fw, x)
                        same(take(fw, getattr(B, name)(gx, F), True), x * f)
                        same(take(fw, gx, True), x)
                        rejected(lambda: getattr(B, name)(give(fw, x.real.copy()), F))
                        for i in range(dim):
                            for n in (d[i] + 1, 1, d[i] - 1):
                                e = d[:i] + (n,) + d[i + 1:]
                                if n == d[i] or n < 1:
                                    continue
                                at('%s %dD %s shape=%s filter=%s complex=%s' % (fw, dim, name, b + d, e, cxf))
                                g = rnd(r, e, cxf, dbl)
                                rejected(lambda: getattr(B, name)(give(fw, x), g if fw == 'tensorflow' else give(fw, g)), ('RuntimeError',))
                        if fw == 'torch':
                            at('torch %dD %s filter of another precision' % (dim, name))
                            rejected(lambda: getattr(B, name)(give(fw, x), give(fw, rnd(r, d, cxf, not dbl))), ('TypeError',))
                            at('torch %dD %s filter with a last axis of 3' % (dim, name))
                            rejected(lambda: getattr(B, name)(give(fw, x), give(fw, rnd(r, d + (3,), False, dbl), unit=False)))
                        else:
                            at('%s %dD %s integer filter' % (fw, dim, name))
                            g = np.ones(d, 'int64')
                            rejected(lambda: getattr(B, name)(give(fw, x), g if fw == 'tensorflow' else give(fw, g)), ('TypeError',))
                yield
                y = rnd(r, b + d, False, dbl)
                at('%s %dD reshape_input / reshape_output shape=%s' % (fw, dim, b + d))
                z = B.reshape_input(give(fw, y, unit=False), d)
                same(to_np(z), y.reshape((-1, 1) + d))
                k = tuple(r.randint(1, 4, dim + 1))
                s = r.randn(*((int(np.prod(b)),) + ((1,) if dim == 1 else ()) + k)).astype('float32')
                sh = B.shape(give(fw, y, unit=False))
                check(tuple(int(v) for v in sh) == b + d, common.CURRENT + ': shape %s' % (sh,))
                same(to_np(B.reshape_output(give(fw, s, unit=False), sh[:len(b)], n_kept_dims=dim + 1)), s.reshape(b + k))
                yield


def transforms(dim, r, names):
    for fw in FWS:
        B = be(fw, dim)
        for dbl in (False, True) if fw in ('numpy', 'torch') else (False,):
            for b, d in shapes(r, dim):
                for name in names:
                    ci, co, inv = name != 'rfft', name != 'irfft', name in ('ifft', 'irfft')
                    x = rnd(r, b + d, ci, dbl)
                    at('%s %dD %s shape=%s double=%s' % (fw, dim, name, b + d, dbl))
                    w = fft(x, dim, inv)
                    gx = give(fw, x)
                    same(take(fw, getattr(B, name)(gx), co), w if co else w.real.copy())
                    same(take(fw, gx, ci), x)
                    rejected(lambda: getattr(B, name)(give(fw, rnd(r, b + d, not ci, dbl))))
                    yield
