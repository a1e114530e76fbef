"""C11: path order, rotation-covariant modulus and values of the 3D transform."""
import z3
from vc import smt
from vc.values import *
from vc.atensor import *
from vc.atensor import T, fold
from vc.atensor2 import *
from vc.spec import match
from vc.harness import Case
from .c3d import *
from .c10 import stack_obl


def wavelet_modulus(F, l, j, rotation):
    """sqrt(sum_m |x * psi_{j,l,m}|^2) (see the lemma case), or |x * psi_{j,l,0}|"""
    if not rotation:
        return MOD(IFFT(CD(F, PSI(l, j, smt.iv(0)))))
    u, m = z3.Const('spec_u', T), z3.Int('spec_m')
    return fold(ROT(u, IFFT(CD(F, PSI(l, j, m)))), u, m, smt.iv(1), z3.simplify(2 * l + 1), ROT0(IFFT(CD(F, PSI(l, j, smt.iv(0))))))


def body_of(frontend, max_order, rotation):
    def body(I):
        o, kw = build(I, frontend, max_order, rotation)
        x = make_volume(I, I.params['shape'])
        got = I.call(I.getattr(o, 'scattering'), [x])
        J, L = ints(I.params['J']), ints(I.params['L'])
        z = smt.iv(0)
        X = FFT(x.e)
        l, j1, j2 = I.freshvar('l'), I.freshvar('j1'), I.freshvar('j2')
        U1 = wavelet_modulus(X, l, j1, rotation)
        want = [For(j1, z, z3.simplify(J + 1), [For(l, z, z3.simplify(L + 1), [AT(INTEG(U1), (), False)])])]
        if max_order == 2:
            U2 = wavelet_modulus(FFT(U1), l, j2, rotation)
            want.append(For(j1, z, z3.simplify(J + 1), [For(j2, z3.simplify(j1 + 1), z3.simplify(J + 1), [For(l, z, z3.simplify(L + 1), [AT(INTEG(U2), (), False)])])]))
        nm = '%s scattering' % frontend
        if not isinstance(got, AStack):
            I.oblige(nm + ': returns the stacked coefficients', False, repr(got))
            return
        # shape: batch, paths, L+1, powers
        paths = I.seg_count(groups(I, want, L + 1), 0)
        c = dims_eq(I, got.shape, x.shape[:-3] + (paths, mk(L + 1, 'int'), mk(I.params['P'], 'int')))
        I.oblige(nm + ': output shape is (batch, paths, L+1, powers)', c is not None and z3.And(*c), '%r' % (got.shape,))
        I.oblige(nm + ': the path axis precedes (L+1, powers)', got.axis == 3, str(got.axis))

        def leaf(I, name, g, w):
            if not isinstance(g, AT):
                I.oblige(name + ': coefficient is a tensor', False, repr(g))
            else:
                I.oblige(name + ': coefficient value', g.e == w.e, "%s == %s" % (g.e, w.e))
        match(I, nm, got.segs, want, leaf)
        for k, v in (('J', J), ('L', L)):
            I.oblige('the solid harmonic bank is built for the configured ' + k, ints(I.solid_args[k]) == v)
    return body


def lemma(I):
    """iterating u <- sqrt(u^2 + a_m^2) from sqrt(a_0^2) gives sqrt(sum of a_m^2): base and step over the reals"""
    a0, a, s, S = z3.Reals('a0 a s S')
    f = smt.sqrtf
    I.oblige('base: sqrt(|x0|^2)^2 = |x0|^2', f(a0 * a0) * f(a0 * a0) == a0 * a0)
    I.assume(z3.And(S >= 0, s >= 0, s * s == S))
    t = f(s * s + a * a)
    I.oblige('step: sqrt(s^2 + |xm|^2)^2 = S + |xm|^2', t * t == S + a * a)
    I.oblige('the iterate is nonnegative, hence the square root of the sum', t >= 0)


SHARED = ['c09']


def cases(tier):
    out = [Case('lemma: iterated rotation modulus', lemma, [])]
    for fe in ('numpy', 'torch', 'tensorflow', 'jax'):
        for mo in (1, 2):
            for rot in (True, False):
                out.append(Case('HarmonicScattering3D %s max_order=%d rotation_covariant=%s' % (fe, mo, rot), body_of(fe, mo, rot), [contracts_3d]))
    from contracts import c09
    return out + c09.cases(tier)
