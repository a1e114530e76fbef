"""Shared pieces of the 3D contracts."""
import z3
from vc import smt
from vc.values import *
from vc.atensor import AT, T
from vc.atensor2 import ABackend3D
from .c1d import used, sym_int, noop

PSI = z3.Function('psi[]', smt.Int, smt.Int, smt.Int, T)
FB = 'kymatio.scattering3d.filter_bank:'
CLS = {'numpy': ('kymatio.scattering3d.frontend.numpy_frontend', 'HarmonicScatteringNumPy3D'),
       'jax': ('kymatio.scattering3d.frontend.jax_frontend', 'HarmonicScatteringJax3D'),
       'torch': ('kymatio.scattering3d.frontend.torch_frontend', 'HarmonicScatteringTorch3D'),
       'tensorflow': ('kymatio.scattering3d.frontend.tensorflow_frontend', 'HarmonicScatteringTensorFlow3D')}


def filters_of(l, J, dims):
    """the filters of order l: indexed by j = 0..J and m = 0..2l"""
    return SymSeq('filters[l]', z3.simplify(J + 1),
                  lambda j: SymSeq('filters[l][j]', z3.simplify(2 * l + 1), lambda m: AT(PSI(l, j, m), dims, True)))


class Filters:
    """list of the filter arrays, l = 0..L; a write must store the buffer registered for the same position (C13)"""

    def __init__(self, L, J, dims):
        self.L, self.J, self.dims = L, J, dims

    def seq(self):
        return SymSeq('filters', z3.simplify(self.L + 1), lambda l: self.member(l))

    def member(self, l):
        r = filters_of(l, self.J, self.dims)
        r.l = l
        return r

    def len_(self, I):
        return mk(self.L + 1, 'int')

    def getitem_(self, I, i):
        return I.getitem(self.seq(), i)

    def domain_(self, I):
        return I.domain(self.seq())

    def setitem_(self, I, i, v):
        l = getattr(v, 'l', None)
        I.oblige('a filter is only replaced by the buffer registered for it', l is not None and l == ints(i), repr(v))

    def subst_(self, pairs, memo):
        return self

    def mentions_(self, sym):
        return False


class BufferDict:
    """dict of the registered buffers: 'tensor' + str(l) is the filter array of order l"""

    def __init__(self, f):
        self.f = f

    def todict_(self, I):
        return self

    def getitem_(self, I, k):
        from vc.builtins_model import StrCat
        if isinstance(k, StrCat) and len(k.parts) == 2 and k.parts[0] == 'tensor' and isinstance(k.parts[1], Sym):
            e = k.parts[1].e
        elif isinstance(k, str) and k.startswith('tensor') and k[6:].isdigit():
            e = smt.iv(int(k[6:]))
        elif k == 'tensor_gaussian_filter':
            return None
        else:
            raise I.exc('KeyError', repr(k))
        if not I.decide(z3.And(e >= 0, e <= self.f.L)):
            raise I.exc('KeyError', repr(k))
        return self.f.member(e)

    def subst_(self, pairs, memo):
        return self

    def mentions_(self, sym):
        return False


def solid_contract(I, f, args, kwargs):
    """contract of solid_harmonic_filter_bank (proved in C19): one wavelet per (l, j, m), l <= L, j <= J, -l <= m <= l"""
    vals = dict(zip(['M', 'N', 'O', 'J', 'L', 'sigma_0', 'fourier'], args))
    vals.update(kwargs)
    used(I, FB + 'solid_harmonic_filter_bank')
    I.solid_args = vals
    I.filters = Filters(ints(vals['L']), ints(vals['J']), (vals['M'], vals['N'], vals['O']))
    return I.filters


def gaussian_contract(I, f, args, kwargs):
    used(I, FB + 'gaussian_filter_bank')
    I.gaussian_args = dict(zip(('M', 'N', 'O', 'J', 'sigma_0', 'fourier'), args), **kwargs)
    return Opaque('gaussian filters')


def contracts_3d(I):
    I.contracts[FB + 'solid_harmonic_filter_bank'] = solid_contract
    I.contracts[FB + 'gaussian_filter_bank'] = gaussian_contract
    I.contracts['kymatio.scattering3d.frontend.torch_frontend:HarmonicScatteringTorch3D.register_filters'] = noop('HarmonicScatteringTorch3D.register_filters (C13)')

    def buffers(I, a, k):
        used(I, 'torch.nn.Module.named_buffers (C13)')
        return BufferDict(I.filters)
    nn = I.natives['torch.nn'].attrs['Module']
    nn.ns['named_buffers'] = Native('named_buffers', buffers)


def build(I, frontend='numpy', max_order=2, rotation=True, shape=None, method='integral', **extra):
    if shape is None:
        shape = (sym_int(I, 'M', 1), sym_int(I, 'N', 1), sym_int(I, 'O', 1))
    J, L = sym_int(I, 'J', 0), sym_int(I, 'L', 0)
    P = z3.Int('n_powers')
    I.assume(P >= 1)
    q = z3.Function('power[]', smt.Int, smt.Real)
    I.powers = SymSeq('powers', P, lambda i: Sym(q(i), 'float'))
    kw = dict(J=J, shape=shape, L=L, max_order=max_order, rotation_covariant=rotation, method=method,
              integral_powers=I.powers, backend=ABackend3D(frontend), **extra)
    I.params = dict(J=J, L=L, shape=shape, P=P)
    return I.call(I.get(*CLS[frontend]), [], kw), kw


def make_volume(I, dims):
    r, s = z3.Ints('batch_rank batch_size')
    I.assume(z3.And(r >= 0, s >= 1))
    return AT(z3.Const('x', T), (Block('B', r, s),) + tuple(dims), False)
