"""every filter array is one buffer with the filter's values; the transform uses the current content of each buffer"""
from common import *
import common, importlib


def slots(kind, S):
    """(label, get, set) of every filter array of the NumPy transform, in registration order"""
    out = []

    def levels(name, f):
        for k in range(len(f['levels'])):
            out.append(('%s level %d' % (name, k), f['levels'], k))
    if kind == '2d':
        levels('phi', S.phi)
        for i, p in enumerate(S.psi):
            levels('psi[%d]' % i, p)
    elif kind == '3d':
        for l in range(len(S.filters)):
            out.append(('filters[%d]' % l, S.filters, l))
    else:
        levels('phi', S.phi_f)
        for n, b in (('psi1', S.psi1_f), ('psi2', S.psi2_f)):
            for i, p in enumerate(b):
                levels('%s[%d]' % (n, i), p)
        if kind == 'jtfs':
            levels('phi0_fr', S.filters_fr[0])
            for i, p in enumerate(S.filters_fr[1]):
                levels('filters_fr[1][%d]' % i, p)
    return out


def flat(kind, a, l3=False):
    if kind == '3d':
        return np.stack((a.real, a.imag), -1)
    return np.asarray(a)[..., None]


def outputs(r, ot, kind):
    if kind == 'jtfs':
        return [np.concatenate([to_np(p['coef']).ravel() for p in r])]
    if ot == 'list':
        return [np.concatenate([to_np(p['coef']).ravel() for p in r])]
    if ot == 'dict':
        return [np.concatenate([to_np(r[k]).ravel() for k in r])]
    return [to_np(r)]


def one(kind, cls, kw, size, r):
    import torch
    d = common.CURRENT
    ot = kw.get('out_type', 'array')
    St = getattr(importlib.import_module('kymatio.torch'), cls)(**kw)
    Sn = getattr(importlib.import_module('kymatio.numpy'), cls)(**kw)
    sl = slots(kind, Sn)
    sd = St.state_dict()
    names = ['tensor%d' % i for i in range(len(sl))]
    extra = ['tensor_gaussian_filter'] if kind == '3d' else []
    check(sorted(sd) == sorted(names + extra), lambda: d + ': buffers %s, expected %s' % (sorted(sd), sorted(names + extra)))
    for n, (lab, c, k) in zip(names, sl):
        v = flat(kind, c[k])
        b = to_np(sd[n])
        check(b.shape == v.shape and close(b, v, 1e-5), lambda: d + ': buffer %s (shape %s) does not hold %s' % (n, b.shape, lab))
    if kind == '3d':
        g = to_np(sd['tensor_gaussian_filter'])
        check(close(g, flat(kind, Sn.gaussian_filters), 1e-5), lambda: d + ': the Gaussian buffer does not hold the Gaussian bank')
    orig = [np.array(c[k]) for _, c, k in sl]
    for rep in range(3):
        fac = [r.choice((0.5, 1., 2., 3.)) for _ in sl]
        St.load_state_dict({n: (sd0 * f) for (n, sd0), f in zip(((n, torch.from_numpy(np.array(flat(kind, o))).to(sd[n].dtype)) for n, o in zip(names, orig)), fac)}
                           | {n: sd[n] for n in extra})
        for (lab, c, k), o, f in zip(sl, orig, fac):
            c[k] = o * f
        x = np.random.RandomState(rep).randn(*((2,) + size)).astype('float32')
        a = outputs((St.forward if rep == 1 else St.scattering)(torch.from_numpy(x)), ot, kind)
        b = outputs(Sn.scattering(x), ot, kind)
        if rep == 1:
            # moving replaces the buffers by new tensors; the transform must follow
            St = St.double()
            for n, t in St.named_buffers():
                t.mul_(2)
            for _, c, k in sl:
                c[k] = c[k] * 2
            a += outputs(St.scattering(torch.from_numpy(x).double()), ot, kind)
            b += outputs(Sn.scattering(x.astype('float64')), ot, kind)
            St = St.float()
            check(sorted(St.state_dict()) == sorted(names + extra), lambda: d + ': buffers dropped by a conversion')
        for u, v in zip(a, b):
            check(close(u, v, 2e-3), lambda: d + ': after loading a state dict (round %d) the result differs from the transform with the same filters' % rep)


def sweep():
    r = random.Random(SEED)
    while left() > 0:
        for mo in (2, 1):
            for N, J in ((64, 3), (100, 4), (37, 2)):
                kw = dict(J=J, shape=N, Q=r.choice((1, 2, (3, 2))), max_order=mo, out_type=r.choice(('array', 'list', 'dict')), T=r.choice((None, 4)))
                at('Scattering1D', 'torch', kw)
                one('1d', 'Scattering1D', kw, (N,), r)
                yield
        for J, sh in ((2, (16, 16)), (1, (5, 9)), (3, (19, 24))):
            for pp in (False, True):
                kw = dict(J=J, shape=sh, L=r.choice((2, 3)), max_order=r.choice((1, 2)), out_type=r.choice(('array', 'list')), pre_pad=pp)
                at('Scattering2D', 'torch', kw)
                one('2d', 'Scattering2D', kw, sh if not pp else tuple((n // 2 ** J + 2) * 2 ** J for n in sh), r)
                yield
        for J, L in ((1, 2), (0, 11), (0, 1), (2, 0)):
            kw = dict(J=J, shape=(5, 6, 7), L=L, max_order=1 if L > 2 else r.choice((1, 2)), rotation_covariant=r.random() < .6)
            at('HarmonicScattering3D', 'torch', kw)
            one('3d', 'HarmonicScattering3D', kw, kw['shape'], r)
            yield
        for fmt in ('time', 'joint'):
            kw = dict(J=4, J_fr=2, shape=256, Q=(4, 1), out_type='list', format=fmt)
            at('TimeFrequencyScattering', 'torch', kw)
            one('jtfs', 'TimeFrequencyScattering', kw, (256,), r)
            yield


run(sweep)
