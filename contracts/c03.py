"""C03: padding and cropping geometry of the 1D transforms."""
import z3
from vc import smt
from vc.values import *
from vc.harness import Case, expect_raise
from vc.smt import pow2, cdivp
from .c1d import *

UT = 'kymatio.scattering1d.utils'


def geometry(tkind, frontend='numpy'):
    def body(I):
        o, kw = build(I, frontend, tkind, 'list', 2, 'None')
        N, J = ints(I.params['N']), ints(I.params['J'])
        Np, pl, pr = (ints(o.attrs[k]) for k in ('_N_padded', 'pad_left', 'pad_right'))
        I.oblige('padded length is a power of two', pow2(smt.flog2(z3.ToReal(Np))) == Np)
        I.oblige('padded length is at least N', Np >= N)
        I.oblige('pads are nonnegative', z3.And(pl >= 0, pr >= 0))
        I.oblige('pads sum to the padding', pl + pr == Np - N)
        I.oblige('pads are smaller than N', z3.And(pl < N, pr < N))
        I.oblige('pads differ by at most one', z3.And(pl - pr <= 1, pr - pl <= 1))
        lt = ints(I.getattr(o, 'log2_T'))
        I.oblige('the largest subsampling divides the padded length', z3.And(smt.flog2(z3.ToReal(Np)) >= lt, smt.flog2(z3.ToReal(Np)) >= J))
        j = z3.Int('j')
        I.assume(z3.And(j >= 0, z3.Or(j <= J, j <= lt)))
        a, b = ints(I.getitem(o.attrs['ind_start'], Sym(j, 'int'))), ints(I.getitem(o.attrs['ind_end'], Sym(j, 'int')))
        I.oblige('crop start is ceil(i0 / 2^j)', a == cdivp(pl, j))
        I.oblige('crop end is ceil(i1 / 2^j)', b == cdivp(pl + N, j))
        I.oblige('crop interval is nonempty', a < b)
        P = z3.Int('P')
        I.assume(z3.And(P == smt.flog2(z3.ToReal(Np)), pow2(P) == Np))      # shown above
        I.oblige('crop interval starts inside the subsampled padded signal', a >= 0)
        I.oblige('crop interval ends inside the subsampled padded signal', b <= pow2(P - j))
    return body


def border(I):
    """compute_border_indices for arbitrary arguments"""
    lt, J, i0, i1, j = z3.Ints('log2_T J i0 i1 j')
    I.assume(z3.And(lt >= 0, J >= 0, i0 >= 0, i1 >= i0, j >= 0, z3.Or(j <= J, j <= lt)))
    s, e = I.call(I.get(UT, 'compute_border_indices'), [mk(v, 'int') for v in (lt, J, i0, i1)])
    I.oblige('start index at every resolution', ints(I.getitem(s, Sym(j, 'int'))) == cdivp(i0, j))
    I.oblige('end index at every resolution', ints(I.getitem(e, Sym(j, 'int'))) == cdivp(i1, j))


def padding_ok(I):
    P, N = z3.Ints('P N')
    I.assume(z3.And(N >= 1, P >= N, P - N <= 2 * N - 2))
    l, r = I.call(I.get(UT, 'compute_padding'), [Sym(P, 'int'), Sym(N, 'int')])
    l, r = ints(l), ints(r)
    I.oblige('accepted padding is split evenly', z3.And(l >= 0, r >= 0, l + r == P - N, r - l <= 1, l - r <= 1, l < N, r < N))


def padding_small(I):
    P, N = z3.Ints('P N')
    I.assume(z3.And(N >= 1, P < N))
    expect_raise(I, 'a padded length below N is rejected', lambda: I.call(I.get(UT, 'compute_padding'), [Sym(P, 'int'), Sym(N, 'int')]), ['ValueError'])


def padding_large(I):
    P, N = z3.Ints('P N')
    I.assume(z3.And(N >= 1, P >= N, P - N >= 2 * N - 1))
    expect_raise(I, 'a pad as long as the input is rejected', lambda: I.call(I.get(UT, 'compute_padding'), [Sym(P, 'int'), Sym(N, 'int')]), ['ValueError'])


SHARED = ['c07']


def cases(tier):
    out = [Case('Scattering1D geometry T=%s' % t, geometry(t), [contracts_1d]) for t in ('None', 'global', '0', 'sym', 'symint')]
    out += [Case('Scattering1D %s geometry' % f, geometry('sym', f), [contracts_1d]) for f in ('jax', 'torch', 'tensorflow')]
    out += [Case('compute_border_indices', border), Case('compute_padding accepts', padding_ok),
            Case('compute_padding too short', padding_small), Case('compute_padding too long', padding_large)]
    from contracts import c07
    return out + [c for c in c07.cases(tier) if 'pad' in c.name]
