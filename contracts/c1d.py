"""Shared pieces of the 1D contracts: the filter-bank contract and the symbolic transform object."""
import z3
from vc import smt
from vc.values import *
from vc.atensor import AT, T, ABackend
from vc.smt import pow2
from vc.libs import realarg

PHI = z3.Function('phi[]', smt.Int, T)
PSI = [None, z3.Function('psi1[]', smt.Int, smt.Int, T), z3.Function('psi2[]', smt.Int, smt.Int, T)]
J_OF = [None, z3.Function('j1[]', smt.Int, smt.Int), z3.Function('j2[]', smt.Int, smt.Int)]
XI = [None, z3.Function('xi1[]', smt.Int, smt.Real), z3.Function('xi2[]', smt.Int, smt.Real)]
SIG = [None, z3.Function('sigma1[]', smt.Int, smt.Real), z3.Function('sigma2[]', smt.Int, smt.Real)]
NLEV = [z3.Int('nlev_phi'), z3.Function('nlev1[]', smt.Int, smt.Int), z3.Function('nlev2[]', smt.Int, smt.Int)]
N1, N2 = z3.Ints('n_psi1 n_psi2')

FB = 'kymatio.scattering1d.filter_bank:'


def used(I, name):
    if not hasattr(I, 'contract_calls'):
        I.contract_calls = {}
    I.contract_calls[name] = I.contract_calls.get(name, 0) + 1


def level_dim(I, N, k):
    return I.fdiv(N, I.power(2, mk(k, 'int')))


def mk_levels(I, order, n, N):
    """levels of filter n of a layer: level k has length N / 2^k"""
    if order == 0:
        f = lambda k: PHI(k)
        ln = NLEV[0]
    else:
        f = lambda k: PSI[order](n, k)
        ln = NLEV[order](n)
    # the phi filter is real valued in Fourier; cdgmm takes real or complex filters
    return SymSeq('levels%d' % order, ln, lambda k: FILTER(I, f(k), N, k))


def FILTER(I, e, N, k):
    r = AT(e, (level_dim(I, N, k),), False)
    r.filter = True
    return r


def psi_dict(I, order, n, N):
    return VDict({'xi': Sym(XI[order](n), 'float'), 'sigma': Sym(SIG[order](n), 'float'),
                  'j': Sym(J_OF[order](n), 'int'), 'levels': mk_levels(I, order, n, N)})


def filter_factory_contract(I, f, args, kwargs):
    """contract of scattering_filter_factory (proved in C04): two banks of dictionaries xi/sigma/j/levels + low-pass"""
    names = ['N', 'J', 'Q', 'T', 'filterbank', '_reduction']
    vals = dict(zip(names, args))
    vals.update(kwargs)
    N, J, Tt = vals['N'], vals['J'], vals['T']
    Q = vals['Q']
    used(I, FB + 'scattering_filter_factory')
    I.factory_args = vals
    if len(I.domain(Q)) != 2:
        raise Unsupported('filter bank with %r layers' % (Q,))
    log2_T = I.call(I.natives['math'].attrs['floor'], [I.call(I.natives['math'].attrs['log2'], [Tt])])
    lt = ints(log2_T)
    z = smt.iv(0)
    I.assume(N1 >= 1)
    I.assume(N2 >= 1)
    n, m = z3.Ints('n_ m_')
    for o, cnt in ((1, N1), (2, N2)):
        v = z3.Int('q%d_' % o)
        I.qfacts.append((v, z, cnt, z3.And(J_OF[o](v) >= 0, J_OF[o](v) <= ints(J) - 1, NLEV[o](v) >= 1, XI[o](v) > 0, SIG[o](v) > 0,
                                           J_OF[o](v) <= ints(J) - 1)))
    # enough levels for every second-order path j1 < j2, and for the low-pass
    v, w = z3.Ints('q2l_ q1l_')
    I.qfacts.append((v, z, N2, z3.Implies(J_OF[1](w) < J_OF[2](v),
                                          z3.And(NLEV[2](v) >= 1 + J_OF[1](w)) if False else
                                          z3.And(z3.Or(NLEV[2](v) >= 1 + J_OF[1](w), NLEV[2](v) >= 1 + lt))), [For(w, z, N1, [])]))
    I.assume(NLEV[0] >= 1 + lt)
    phi = VDict({'levels': mk_levels(I, 0, None, N), 'xi': 0, 'sigma': Sym(z3.Real('sigma_low'), 'float'), 'j': log2_T, 'N': N})
    psi1 = SymSeq('psi1', N1, lambda i: psi_dict(I, 1, i, N))
    psi2 = SymSeq('psi2', N2, lambda i: psi_dict(I, 2, i, N))
    return (phi, psi1, psi2)


def support_contract(I, f, args, kwargs):
    """compute_temporal_support(h_f): an integer between 0 and half the filter length"""
    used(I, FB + 'compute_temporal_support')
    h = args[0]
    n = h.shape[-1]
    e = I.fresh('support')
    I.assume(z3.And(e >= 0, e <= z3.If(ints(n) >= 2, ints(n) / 2, smt.iv(1))))
    return Sym(e, 'int')


def gauss_contract(I, f, args, kwargs):
    used(I, FB + 'gauss_1d')
    n = args[0] if args else kwargs['N']
    return AT(z3.Const('gauss!%d' % next_birth(), T), (n,), False)


def contracts_1d(I):
    I.contracts[FB + 'scattering_filter_factory'] = filter_factory_contract
    I.contracts[FB + 'compute_temporal_support'] = support_contract
    I.contracts[FB + 'gauss_1d'] = gauss_contract
    # the buffers hold the computed filters (proved in C13)
    for m in ('register_filters', 'load_filters'):
        I.contracts['kymatio.scattering1d.frontend.torch_frontend:ScatteringTorch1D.' + m] = noop(m)
    # the anti-aliasing assertions of _check_filterbanks only ever reject a construction (deliberately)
    I.contracts['kymatio.frontend.base_frontend:ScatteringBase._check_filterbanks'] = lambda I, f, a, k: None


def noop(m):
    def c(I, f, a, k):
        used(I, 'ScatteringTorch1D.' + m + ' (C13)')
        return 0
    return c


def sym_int(I, name, lo=None):
    v = z3.Int(name)
    if lo is not None:
        I.assume(v >= lo)
    return Sym(v, 'int')


T_KINDS = ('None', 'global', '0', 'sym')
CLS = {'numpy': ('kymatio.scattering1d.frontend.numpy_frontend', 'ScatteringNumPy1D'),
       'jax': ('kymatio.scattering1d.frontend.jax_frontend', 'ScatteringJax1D'),
       'torch': ('kymatio.scattering1d.frontend.torch_frontend', 'ScatteringTorch1D'),
       'tensorflow': ('kymatio.scattering1d.frontend.tensorflow_frontend', 'ScatteringTensorFlow1D')}


def build(I, frontend='numpy', tkind='None', out_type='list', max_order=2, stride='None', oversampling=0):
    """construct the transform by executing its real constructor on symbolic parameters"""
    N, J = sym_int(I, 'N', 1), sym_int(I, 'J', 1)
    I.assume(pow2(J.e) <= N.e)
    Q = (sym_int(I, 'Q1', 1), sym_int(I, 'Q2', 1))
    kw = dict(J=J, shape=N, Q=Q, max_order=max_order, out_type=out_type, backend=ABackend(frontend))
    if tkind == 'None':
        kw['T'] = None
    elif tkind == 'sym':
        t = z3.Real('T')
        I.assume(z3.And(t >= 1, t <= z3.ToReal(N.e)))
        kw['T'] = Sym(t, 'float')
    elif tkind == 'symint':
        t = z3.Int('Ti')
        I.assume(z3.And(t >= 1, t <= N.e))
        kw['T'] = Sym(t, 'int')
    else:
        kw['T'] = {'global': 'global', '0': 0}[tkind]
    I.params = dict(N=N, J=J, Q=Q, T=kw['T'])
    if stride == 'sym':
        ls = z3.Int('ls')
        I.assume(ls >= 0)
        if tkind == 'None':
            I.assume(ls <= J.e)
        else:
            I.assume(ls <= smt.flog2(reals(kw['T'])))
        kw['stride'] = mk(pow2(ls), 'int')
        I.params['ls'] = Sym(ls, 'int')
    else:
        kw['stride'] = None
    kw['oversampling'] = oversampling
    mod, cls = CLS[frontend]
    C = I.get(mod, cls)
    return I.call(C, [], kw), kw
