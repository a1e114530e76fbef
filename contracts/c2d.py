"""Shared pieces of the 2D contracts."""
import z3
from vc import smt
from vc.values import *
from vc.atensor import AT, T
from vc.atensor2 import ABackend2D
from vc.smt import pow2
from .c1d import used, sym_int, noop

PHI = z3.Function('phi[]', smt.Int, T)
PSI = z3.Function('psi[]', smt.Int, smt.Int, T)
J_OF = z3.Function('j[]', smt.Int, smt.Int)
TH = z3.Function('theta[]', smt.Int, smt.Int)
NLEV = z3.Function('nlev[]', smt.Int, smt.Int)
NPSI = z3.Int('n_psi')

FB = 'kymatio.scattering2d.filter_bank:'
CLS = {'numpy': ('kymatio.scattering2d.frontend.numpy_frontend', 'ScatteringNumPy2D'),
       'jax': ('kymatio.scattering2d.frontend.jax_frontend', 'ScatteringJax2D'),
       'torch': ('kymatio.scattering2d.frontend.torch_frontend', 'ScatteringTorch2D'),
       'tensorflow': ('kymatio.scattering2d.frontend.tensorflow_frontend', 'ScatteringTensorFlow2D')}


def level(I, e, M, N, r):
    p = I.power(2, mk(r, 'int'))
    return AT(e, (I.fdiv(M, p), I.fdiv(N, p)), False)


def filter_bank_contract(I, f, args, kwargs):
    """contract of filter_bank (proved in C18): J*L wavelets with their j and theta, a low-pass with J levels; level r has
    size M/2^r x N/2^r; a wavelet of scale j2 has every level j1 < j2"""
    vals = dict(zip(['M', 'N', 'J', 'L'], args))
    vals.update(kwargs)
    used(I, FB + 'filter_bank')
    I.factory_args = vals
    M, N, J, L = vals['M'], vals['N'], vals['J'], vals.get('L', 8)
    z = smt.iv(0)
    # the bank contains J*L wavelets; only its being nonempty matters here
    I.assume(NPSI >= 1)
    v, w = z3.Ints('q_ qq_')
    I.qfacts.append((v, z, NPSI, z3.And(J_OF(v) >= 0, J_OF(v) <= ints(J) - 1, NLEV(v) >= 1, TH(v) >= 0, TH(v) < ints(L))))
    I.qfacts.append((v, z, NPSI, z3.Implies(J_OF(w) < J_OF(v), NLEV(v) >= 1 + J_OF(w)), [For(w, z, NPSI, [])]))
    psi = SymSeq('psi', NPSI, lambda i: VDict({'levels': SymSeq('levels', NLEV(i), lambda r: level(I, PSI(i, r), M, N, r)),
                                               'j': Sym(J_OF(i), 'int'), 'theta': Sym(TH(i), 'int')}))
    phi = VDict({'levels': SymSeq('phi levels', ints(J), lambda r: level(I, PHI(r), M, N, r)), 'j': J})
    I.contract_bank = VDict({'phi': phi, 'psi': psi})
    return I.contract_bank


def contracts_2d(I):
    I.contracts[FB + 'filter_bank'] = filter_bank_contract
    TQ = 'kymatio.scattering2d.frontend.torch_frontend:ScatteringTorch2D.'
    I.contracts[TQ + 'register_filters'] = noop('ScatteringTorch2D.register_filters (C13)')

    def load(I, f, a, k):
        used(I, 'ScatteringTorch2D.load_filters (C13)')
        return (I.getattr(a[0], 'phi'), I.getattr(a[0], 'psi'))
    I.contracts[TQ + 'load_filters'] = load


def build(I, frontend='numpy', out_type='array', max_order=2, pre_pad=False, shape=None, J=None, backend=None):
    J = J if J is not None else sym_int(I, 'J', 1)
    if shape is None:
        M, N = sym_int(I, 'M', 1), sym_int(I, 'N', 1)
        I.assume(z3.And(pow2(ints(J)) <= M.e, pow2(ints(J)) <= N.e))
        shape = (M, N)
    L = sym_int(I, 'L', 1)
    kw = dict(J=J, shape=shape, L=L, max_order=max_order, pre_pad=pre_pad, backend=backend or ABackend2D(frontend), out_type=out_type)
    I.params = dict(J=J, M=shape[0], N=shape[1], L=L)
    C = I.get(*CLS[frontend])
    return I.call(C, [], kw), kw


def padded(I, n, J):
    """documented padded size ((n + 2^J) // 2^J + 1) * 2^J"""
    p = I.power(2, J)
    return I.binop('Mult', I.binop('Add', I.fdiv(n, p), 2), p)


def make_image(I, h, w, name='x'):
    r, s = z3.Ints('batch_rank batch_size')
    I.assume(z3.And(r >= 0, s >= 1))
    return AT(z3.Const(name, T), (Block('B', r, s), h, w), False)
