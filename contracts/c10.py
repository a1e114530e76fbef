"""C10: the 2D transform yields every path once, in order, labelled, with the right value and output size."""
import z3
from vc import smt
from vc.values import *
from vc.atensor import *
from vc.atensor2 import *
from vc.spec import match, eq_obl, tensor_obl
from vc.smt import pow2
from vc.harness import Case
from .c2d import *


def spec(I, x, max_order, pre_pad):
    """segments of (n, j, theta, tensor), from the documentation"""
    M, N, J = I.params['M'], I.params['N'], I.params['J']
    Mp, Np = padded(I, M, J), padded(I, N, J)
    if pre_pad:
        P = x.e
    else:
        pads = []
        for n, m in ((M, Mp), (N, Np)):
            d = ints(m) - ints(n)
            pads += [d / 2, (d + 1) / 2]
        P = PAD2(x.e, *pads)
    X = FFT(P)
    p = I.power(2, J)
    h, w = I.fdiv(M, p), I.fdiv(N, p)
    batch = x.shape[:-2]

    def low(F, res):
        return AT(UNPAD2(RE(IFFT(SUB(CD(F, PHI(res)), pow2(ints(J) - res))))), batch + (h, w), False)
    z = smt.iv(0)
    n1, n2 = I.freshvar('n1'), I.freshvar('n2')
    j1, j2 = J_OF(n1), J_OF(n2)
    s = lambda e: Sym(e, 'int')
    out = [((), (), (), low(X, z))]
    U1 = MOD(IFFT(SUB(CD(X, PSI(n1, z)), pow2(j1))))
    out.append(For(n1, z, NPSI, [((s(n1),), (s(j1),), (s(TH(n1)),), low(FFT(U1), j1))]))
    if max_order == 2:
        U2 = MOD(IFFT(SUB(CD(FFT(U1), PSI(n2, j1)), pow2(j2 - j1))))
        leaf = ((s(n1), s(n2)), (s(j1), s(j2)), (s(TH(n1)), s(TH(n2))), low(FFT(U2), j2))
        out.append(For(n1, z, NPSI, [For(n2, z, NPSI, [Cond([(j1 < j2, [leaf]), (z3.Not(j1 < j2), [])])])]))
    return out


def leaf_dict(I, name, g, w):
    n, j, th, c = w
    nm = '%s order %d' % (name, len(n))
    if not isinstance(g, VDict):
        I.oblige(nm + ': entry is a dictionary', False, repr(g))
        return
    for key, v in (('n', n), ('j', j), ('theta', th)):
        if key not in g.items:
            I.oblige('%s: entry has key %s' % (nm, key), False, repr(g))
            return
        eq_obl(I, '%s: %s label' % (nm, key), g.items[key], v)
    if 'coef' not in g.items:
        I.oblige('%s: entry has key coef' % nm, False, repr(g))
        return
    tensor_obl(I, nm + ': coefficient', g.items['coef'], c)


def leaf_tensor(I, name, g, w):
    nm = '%s order %d' % (name, len(w[0]))
    if not isinstance(g, AT):
        I.oblige(nm + ': coefficient is a tensor', False, repr(g))
        return
    I.oblige(nm + ': coefficient: value', g.e == w[3].e, '%s == %s' % (g.e, w[3].e))
    I.oblige(nm + ': coefficient: kind', g.cx == w[3].cx)


def stack_obl(I, nm, got, batch, trailing, axis):
    """the stacked output has the input's leading axes, one coefficient axis and the trailing axes"""
    if not isinstance(got, AStack):
        I.oblige(nm + ': returns the stacked coefficients', False, repr(got))
        return False
    I.oblige(nm + ': coefficient axis comes right before the signal axes', got.axis == axis, 'axis -%d' % got.axis)
    if got.axis != axis:
        return False
    want = tuple(batch) + (I.seg_count(got.segs, 0),) + tuple(trailing)
    c = dims_eq(I, got.shape, want)
    I.oblige(nm + ': output shape', c is not None and z3.And(*c), '%r == %r' % (got.shape, want))
    return True


def body_of(frontend, out_type, max_order, pre_pad):
    def body(I):
        o, kw = build(I, frontend, out_type, max_order, pre_pad)
        M, N, J = I.params['M'], I.params['N'], I.params['J']
        x = make_image(I, padded(I, M, J), padded(I, N, J)) if pre_pad else make_image(I, M, N)
        got = I.call(I.getattr(o, 'scattering'), [x])
        want = spec(I, x, max_order, pre_pad)
        nm = '%s scattering(%s)' % (frontend, out_type)
        if out_type == 'list':
            if not isinstance(got, (VList, tuple)):
                I.oblige(nm + ': returns a list', False, repr(got))
                return
            match(I, nm, I.domain(got), want, leaf_dict)
        elif stack_obl(I, nm, got, x.shape[:-2], want[0][3].shape[-2:], 3):
            match(I, nm, got.segs, want, leaf_tensor)
    return body


SHARED = ['c08']


def cases(tier):
    out = []
    for fe in ('numpy', 'torch', 'tensorflow', 'jax'):
        for ot in ('array', 'list'):
            for mo in (1, 2):
                for pp in (False, True):
                    if fe == 'jax' and (mo == 1 or pp) and tier != 'thorough':
                        continue
                    out.append(Case('Scattering2D %s out_type=%s max_order=%d pre_pad=%s' % (fe, ot, mo, pp), body_of(fe, ot, mo, pp), [contracts_2d]))
    from contracts import c08
    return out + c08.cases(tier)
