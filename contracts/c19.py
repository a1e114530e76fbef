"""C19: 3D filter banks hold the right wavelet at each (l, j, m)."""
import z3
from vc import smt, etfilters
from vc import etensor as E
from vc.etensor import ET, Cx, R0, R1, et_obl, make
from vc.libs import PI
from vc.values import *
from vc.harness import Case, expect_ok
from .c1d import sym_int, used

FB = 'kymatio.scattering3d.filter_bank:'
MOD = 'kymatio.scattering3d.filter_bank'
B = z3.BoolSort()
_s = [smt.Int] * 3 + [smt.Real]
G3 = z3.Function('gaussian_3d', *(_s + [B] + [smt.Int] * 3 + [smt.Real]))
SH = [z3.Function('solid_harmonic_3d_' + p, *(_s + [smt.Int, B] + [smt.Int] * 4 + [smt.Real])) for p in ('re', 'im')]


def setup(I):
    etfilters.install(I)


def sym_real(I, name, positive=True):
    s = Sym(z3.Real(name), 'float')
    if positive:
        I.assume(s.e > 0)
    return s


def sizes(I):
    return tuple(sym_int(I, n, 1) for n in ('M', 'N', 'O'))


def centred(i, n):
    """signed frequency of index i: 0, 1, ..., -2, -1 (origin at index 0)"""
    return z3.ToReal(z3.If(i < n - n / 2, i, i - n))


def coords(ix, d, fourier):
    r = []
    for i, n in zip(ix, d):
        n = ints(n)
        c = centred(i, n)
        r.append(c * (2 * PI / z3.ToReal(n)) if fourier else c)
    return r


def pow15(I):
    return reals(I.power(mk(2 * PI, 'float'), mk(z3.RealVal('3/2'), 'float')))


def gauss(I, d, sigma, fourier):
    def f(ix):
        z, y, x = coords(ix, d, fourier)
        s = 1 / sigma if fourier else sigma
        e = smt.expf(z3.RealVal('-1/2') * (z * z + y * y + x * x) / (s * s))
        return e if fourier else e / (pow15(I) * s * s * s)
    return f


def gaussian(fourier):
    def body(I):
        d = sizes(I)
        sigma = sym_real(I, 'sigma')
        f = I.get(MOD, 'gaussian_3d')
        got = expect_ok(I, 'gaussian_3d is defined', lambda: I.call(f, list(d) + [sigma], {'fourier': fourier}))
        want = gauss(I, d, sigma.e, fourier)
        et_obl(I, 'gaussian_3d', got, make(d, want, 'float32', 'numpy'))
        if fourier:
            e = got.reader()([smt.iv(0)] * len(got.facs)) if isinstance(got, ET) else R0
            I.oblige('the origin is at index 0', z3.simplify(E.re_(e)) == smt.expf(R0), str(z3.simplify(E.re_(e)))[:200])
            if I.params_default:
                got = I.call(f, list(d) + [sigma], {})
                et_obl(I, 'gaussian_3d in Fourier by default', got, make(d, want, 'float32', 'numpy'))
    return body


def harmonic(fourier):
    def body(I):
        d = sizes(I)
        sigma = sym_real(I, 'sigma')
        l = sym_int(I, 'l', 0)
        f = I.get(MOD, 'solid_harmonic_3d')
        got = expect_ok(I, 'solid_harmonic_3d is defined', lambda: I.call(f, list(d) + [sigma, l], {'fourier': fourier}))
        g = gauss(I, d, sigma.e, True)
        if I.decide(l.e == 0):
            et_obl(I, 'order 0 is the Gaussian', got, make((1,) + d, lambda ix: Cx(gauss(I, d, sigma.e, fourier)(ix[-3:]), R0), 'complex64', 'numpy'))
            return
        L = z3.ToReal(l.e)
        s = 1 / sigma.e if fourier else sigma.e
        odd = I.decide(l.e % 2 == 1)
        if odd:
            c = 1 / (smt.powf(z3.RealVal(2), z3.RealVal('1/2') * (L + 3)) * smt.sqrtf(PI * (2 * L + 1)) * etfilters.FACT((L + 1) / 2))
        else:
            n = (l.e + 1 + 1) / 2           # l + 1 is odd: (l+1)(l-1)...1
            t = z3.FreshConst(smt.Int, 't')
            dfact = etfilters.product(z3.ToReal(z3.simplify(l.e + 1 - 2 * t)), t, n)
            c = 1 / (2 * PI * smt.sqrtf(L + z3.RealVal('1/2')) * z3.ToReal(z3.ToInt(dfact)))
        if fourier:
            ph = E.cpow(Cx(R0, -R1), l.e)
            norm = E.emul(c * pow15(I), ph)
        else:
            norm = c / (s * s * s)

        def want(ix):
            m = ix[0] - l.e
            z, y, x = coords(ix[1:], d, fourier)
            az = smt.atan2f(y, x)
            pol = smt.atan2f(z, smt.sqrtf(x * x + y * y)) + PI / 2
            r2 = z * z + y * y + x * x
            radial = smt.sqrtf(smt.powf(r2, L)) * smt.expf(z3.RealVal('-1/2') * r2 / (s * s)) / smt.powf(s, L)
            Y = Cx(etfilters.SPH[0](m, l.e, az, pol), etfilters.SPH[1](m, l.e, az, pol))
            return E.emul(E.emul(Y, radial), norm)
        et_obl(I, 'solid harmonic of order (l, m)', got, make((mk(2 * l.e + 1, 'int'),) + d, want, 'complex64', 'numpy'))
    return body


def bind(names, a, k, **default):
    v = dict(default)
    v.update(zip(names, a))
    v.update(k)
    return v


def contracts(I):
    def g3(I, f, a, k):
        used(I, FB + 'gaussian_3d')
        v = bind(('M', 'N', 'O', 'sigma', 'fourier'), a, k, fourier=True)
        h = (ints(v['M']), ints(v['N']), ints(v['O']), reals(v['sigma']), truth(v['fourier']))
        return make((v['M'], v['N'], v['O']), lambda ix: G3(*(h + tuple(ix))), 'float32', 'numpy')

    def sh(I, f, a, k):
        used(I, FB + 'solid_harmonic_3d')
        v = bind(('M', 'N', 'O', 'sigma', 'l', 'fourier'), a, k, fourier=True)
        h = (ints(v['M']), ints(v['N']), ints(v['O']), reals(v['sigma']), ints(v['l']), truth(v['fourier']))
        return make((mk(2 * ints(v['l']) + 1, 'int'), v['M'], v['N'], v['O']), lambda ix: Cx(*(F(*(h + tuple(ix))) for F in SH)), 'complex64', 'numpy')
    I.contracts[FB + 'gaussian_3d'] = g3
    I.contracts[FB + 'solid_harmonic_3d'] = sh


def truth(v):
    return v.e if isinstance(v, Sym) else z3.BoolVal(bool(v))


def width(I, s0, j):
    return s0 * z3.ToReal(smt.pow2(j))


def gaussian_bank(default):
    def body(I):
        d = sizes(I)
        J = sym_int(I, 'J', 0)
        s0 = sym_real(I, 'sigma_0')
        fourier = True if default else Sym(z3.Bool('fourier'), 'bool')
        got = expect_ok(I, 'gaussian_filter_bank is defined', lambda: I.call(I.get(MOD, 'gaussian_filter_bank'), list(d) + [J, s0] + ([] if default else [fourier]), {}))
        h = tuple(ints(v) for v in d)
        et_obl(I, 'Gaussian of scale j', got, make((mk(J.e + 1, 'int'),) + d, lambda ix: Cx(G3(*(h + (width(I, s0.e, ix[0]), truth(fourier)) + tuple(ix[1:]))), R0), 'complex64', 'numpy'))
    return body


def harmonic_bank(default):
    def body(I):
        d = sizes(I)
        J, L = sym_int(I, 'J', 0), sym_int(I, 'L', 0)
        s0 = sym_real(I, 'sigma_0')
        fourier = True if default else Sym(z3.Bool('fourier'), 'bool')
        got = expect_ok(I, 'solid_harmonic_filter_bank is defined', lambda: I.call(I.get(MOD, 'solid_harmonic_filter_bank'), list(d) + [J, L, s0] + ([] if default else [fourier]), {}))
        h = tuple(ints(v) for v in d)
        n = I.length(got)
        I.oblige('orders 0 to L', ints(n) == L.e + 1, str(n))
        l = z3.Int('l_any')
        I.assume(z3.And(l >= 0, l <= L.e))
        one = I.getitem(got, Sym(l, 'int'))
        et_obl(I, 'wavelet (l, j, m)', one, make((mk(J.e + 1, 'int'), mk(2 * l + 1, 'int')) + d,
               lambda ix: Cx(*(F(*(h + (width(I, s0.e, ix[0]), l, truth(fourier)) + tuple(ix[1:]))) for F in SH)), 'complex64', 'numpy'))
    return body


def create(fe):
    """the transform's banks are built from its own parameters, in Fourier"""
    from . import c3d

    def body(I):
        s0 = sym_real(I, 'sigma_0')
        obj, kw = expect_ok(I, 'the transform is built', lambda: c3d.build(I, fe, sigma_0=s0))
        v = I.solid_args
        want = dict(zip(('M', 'N', 'O'), kw['shape']), J=kw['J'], L=kw['L'], sigma_0=s0)
        for n, w in want.items():
            I.oblige('bank built with its own ' + n, n in v and truth(I.eq(v[n], w)), '%s vs %s' % (v.get(n), w))
        I.oblige('bank in Fourier', v.get('fourier', True) is True, str(v.get('fourier')))
        g = I.gaussian_args
        for n in ('M', 'N', 'O', 'sigma_0'):
            I.oblige('Gaussian bank built with its own ' + n, n in g and truth(I.eq(g[n], want[n])), '%s vs %s' % (g.get(n), want[n]))
        I.oblige('a Gaussian for each scale', ints(g['J']) >= kw['J'].e, str(g['J']))
        I.oblige('Gaussian bank in Fourier', g.get('fourier', True) is True, str(g.get('fourier')))
        I.oblige('the transform holds the bank', I.getattr(obj, 'filters') is I.filters, '')
    return body


def cases(tier):
    from . import c3d
    out = [Case('filters of HarmonicScattering3D ' + fe, create(fe), [c3d.contracts_3d]) for fe in c3d.CLS]
    for fo in (True, False):
        t = ' in Fourier' if fo else ' in space'
        out.append(Case('gaussian_3d' + t, lambda I, fo=fo: (setattr(I, 'params_default', fo), gaussian(fo)(I)), [setup]))
        out.append(Case('solid_harmonic_3d' + t, harmonic(fo), [setup]))
    for df in (True, False):
        t = ' default' if df else ''
        out.append(Case('gaussian_filter_bank' + t, gaussian_bank(df), [setup, contracts]))
        out.append(Case('solid_harmonic_filter_bank' + t, harmonic_bank(df), [setup, contracts]))
    return out
