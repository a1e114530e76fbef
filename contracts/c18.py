"""C18: the 2D filter bank: Morlet wavelets per (scale, angle), folded levels."""
import z3
from vc import smt, etfilters
from vc import etensor as E
from vc.etensor import ET, Cx, R0, R1, et_obl, make
from vc.libs import PI
from vc.values import *
from vc.spec import match
from vc.harness import Case, expect_ok
from .c1d import sym_int, used
from .c19 import sym_real, bind, truth

FB = 'kymatio.scattering2d.filter_bank:'
MOD = 'kymatio.scattering2d.filter_bank'
R, N_ = smt.Real, smt.Int
GAB = [z3.Function('gabor_2d_' + p, N_, N_, R, R, R, R, R, N_, N_, R) for p in ('re', 'im')]
MOR = [z3.Function('morlet_2d_' + p, N_, N_, R, R, R, R, R, N_, N_, R) for p in ('re', 'im')]
rv = z3.RealVal


def setup(I):
    etfilters.install(I)


# ---------------------------------------------------------------- gabor_2d
def envelope(X, Y, sigma, theta, slant):
    """anisotropic Gaussian: along the wave vector sigma, across it sigma / slant"""
    c, s = smt.cosf(theta), smt.sinf(theta)
    u, v = X * c + Y * s, Y * c - X * s
    return smt.expf(-(u * u + slant * slant * v * v) / (2 * sigma * sigma))


def gabor_entry(M, N, sigma, theta, xi, slant, offset):
    norm = 2 * smt.rv(3.1415) * sigma * sigma / slant

    def fn(ix):
        re, im = R0, R0
        for ex in range(-2, 3):
            for ey in range(-2, 3):
                X = z3.ToReal(ix[0]) + offset + ex * z3.ToReal(M)
                Y = z3.ToReal(ix[1]) + offset + ey * z3.ToReal(N)
                g = envelope(X, Y, sigma, theta, slant)
                w = X * xi * smt.cosf(theta) + Y * xi * smt.sinf(theta)
                re = re + g * smt.cosf(w)
                im = im + g * smt.sinf(w)
        return Cx(re / norm, im / norm)
    return fn


def gabor(defaults):
    def body(I):
        M, N = sym_int(I, 'M', 1), sym_int(I, 'N', 1)
        sigma, slant = sym_real(I, 'sigma'), sym_real(I, 'slant')
        theta, xi = sym_real(I, 'theta', False), sym_real(I, 'xi', False)
        off = sym_int(I, 'offset', None)
        a = [M, N, sigma, theta, xi] + ([] if defaults else [slant, off])
        got = expect_ok(I, 'gabor_2d is defined', lambda: I.call(I.get(MOD, 'gabor_2d'), a, {}))
        sl, o = (R1, R0) if defaults else (slant.e, z3.ToReal(off.e))
        et_obl(I, 'gabor_2d', got, make((M, N), gabor_entry(M.e, N.e, sigma.e, theta.e, xi.e, sl, o), 'complex64', 'numpy'))
    return body


def envelope_sum(I):
    """a Gabor function of frequency 0 is real and positive (used by morlet_2d)"""
    M, N = sym_int(I, 'M', 1), sym_int(I, 'N', 1)
    sigma, slant = sym_real(I, 'sigma'), sym_real(I, 'slant')
    theta = sym_real(I, 'theta', False)
    off = sym_int(I, 'offset', None)
    got = expect_ok(I, 'gabor_2d is defined', lambda: I.call(I.get(MOD, 'gabor_2d'), [M, N, sigma, theta, 0, slant, off], {}))
    from vc import ring
    x, y = z3.Ints('x_any y_any')
    I.assume(z3.And(x >= 0, x < M.e, y >= 0, y < N.e))
    e = got.reader()([x, y]) if isinstance(got, ET) else Cx(R0, R1)
    re, im = z3.simplify(E.re_(e)), z3.simplify(E.im_(e))
    re = z3.simplify(z3.substitute(re, *zeros(re)))
    I.oblige('envelope is real', ring.equal(I, [], z3.simplify(z3.substitute(im, *zeros(im))), R0, 0, E.ext_eq), str(im)[:200])
    I.oblige('envelope is positive', ring.positive(I, [], re), str(re)[:200])


def zeros(e):
    """sin(0) = 0 and cos(0) = 1"""
    return [(smt.sinf(R0), R0), (smt.cosf(R0), R1)]


# ---------------------------------------------------------------- morlet_2d
def handle(F, v, with_xi=None):
    h = (ints(v['M']), ints(v['N']), reals(v['sigma']), reals(v['theta']), reals(v['xi'] if with_xi is None else with_xi), reals(v['slant']), reals(v['offset']))
    return lambda ix: Cx(*(f(*(h + tuple(ix))) for f in F))


def gabor_contract(I, f, a, k):
    used(I, FB + 'gabor_2d')
    v = bind(('M', 'N', 'sigma', 'theta', 'xi', 'slant', 'offset'), a, k, slant=Fraction(1), offset=0)
    return make((v['M'], v['N']), handle(GAB, v), 'complex64', 'numpy')


def morlet_contract(I, f, a, k):
    used(I, FB + 'morlet_2d')
    v = bind(('M', 'N', 'sigma', 'theta', 'xi', 'slant', 'offset'), a, k, slant=Fraction(1, 2), offset=0)
    return make((v['M'], v['N']), handle(MOR, v), 'complex64', 'numpy')


def total(fn, M, N):
    x, y = z3.FreshConst(N_, 'x'), z3.FreshConst(N_, 'y')
    e = fn([x, y])
    return E.Cx(*(E.esum(z3.simplify(p), [x, y], [M, N]) for p in (e.re, e.im)))


def morlet(defaults):
    def body(I):
        I.contracts[FB + 'gabor_2d'] = gabor_contract
        M, N = sym_int(I, 'M', 1), sym_int(I, 'N', 1)
        sigma, slant = sym_real(I, 'sigma'), sym_real(I, 'slant')
        theta, xi = sym_real(I, 'theta', False), sym_real(I, 'xi', False)
        off = sym_int(I, 'offset', None)
        a = [M, N, sigma, theta, xi] + ([] if defaults else [slant, off])
        v = dict(M=M, N=N, sigma=sigma, theta=theta, xi=xi, slant=Fraction(1, 2) if defaults else slant, offset=0 if defaults else off)
        w, m = handle(GAB, v), handle(GAB, v, R0)
        W, S = total(w, M.e, N.e), total(m, M.e, N.e)
        # the envelope is real and positive (case "envelope")
        I.assume(S.re > 0)
        I.assume(S.im == 0)
        got = expect_ok(I, 'morlet_2d is defined', lambda: I.call(I.get(MOD, 'morlet_2d'), a, {}))

        def want(ix):
            e = m(ix)
            k = E.ediv(W, S)
            return E.esub(w(ix), E.emul(k, e))
        et_obl(I, 'morlet_2d', got, make((M, N), want, 'complex64', 'numpy'))
        # zero mean: the sum of wv - (W/S) env is W - (W/S) S
        z = E.esub(W, E.emul(E.ediv(W, S), S))
        from vc import ring
        n2 = S.re * S.re + S.im * S.im
        I.assume(n2 > 0)
        for p in (z.re, z.im):
            I.oblige('zero mean', ring.equal(I, [], z3.simplify(p), R0, 0, E.ext_eq), str(p)[:200])
    return body


# ---------------------------------------------------------------- periodize_filter_fft
def fold_entry(I, M, N, rd, m, n, p, cx):
    """entry (k, l) of the fold to m x n: sum over the p x p aliases of the frequencies kept: |w| below half the new size"""
    def fn(ix):
        i, j = z3.FreshConst(N_, 'i'), z3.FreshConst(N_, 'j')
        x, y = ix[0] + i * m, ix[1] + j * n

        def keep(w, full, small):
            return z3.Or(2 * w < small, 2 * (full - w) <= small)
        e = rd([x, y])
        c = z3.And(keep(x, M, m), keep(y, N, n))
        return E.emap_any(e, lambda t: E.esum(z3.If(c, t, R0), [i, j], [p, p]))
    return fn


def fold(cx, r0):
    def body(I):
        q1, q2 = sym_int(I, 'q1', 1), sym_int(I, 'q2', 1)
        r = 0 if r0 else sym_int(I, 'res', 0)
        p = I.power(2, r)
        # M and N divisible by 2^(res+1); with res = 0 any size
        two = 1 if r0 else 2
        m, n = (I.binop('Mult', two, q) for q in (q1, q2))
        M, N = (I.binop('Mult', q, p) for q in (m, n))
        x = E.symbolic('x', (M, N), 'complex64' if cx else 'float32', 'numpy')
        got = expect_ok(I, 'periodize_filter_fft is defined', lambda: I.call(I.get(MOD, 'periodize_filter_fft'), [x, r], {}))
        want = make((m, n), fold_entry(I, ints(M), ints(N), x.reader(), ints(m), ints(n), ints(p), cx), x.dt, 'numpy')
        et_obl(I, 'fold of the retained band', got, want)
    return body


# ---------------------------------------------------------------- filter_bank
def folded(I, x, r):
    p = I.power(2, r)
    M, N = x.shape_of(I)
    m, n = I.fdiv(M, p), I.fdiv(N, p)
    cx = E.is_cx(x.dt)
    return make((m, n), fold_entry(I, ints(M), ints(N), x.reader(), ints(m), ints(n), ints(p), cx), x.dt, 'numpy')


def fold_contract(I, f, a, k):
    used(I, FB + 'periodize_filter_fft')
    v = bind(('x', 'res'), a, k)
    x, r = v['x'], v['res']
    I.oblige('periodize_filter_fft: resolution is not negative', ints(r) >= 0, str(r))
    q = I.power(2, I.binop('Add', r, 1))
    for n in x.shape_of(I):
        I.oblige('periodize_filter_fft: size divisible by 2^(res+1)', z3.Or(ints(r) == 0, ints(I.binop('Mult', I.fdiv(n, q), q)) == ints(n)), '%s, %s' % (n, r))
    return folded(I, x, r)


def transform(I, fn, M, N):
    """real part of the 2D Fourier transform of the array with entries fn"""
    x = make((M, N), fn, 'complex64', 'numpy')
    return E.fft(I, x, [0, 1], False).part('re')


def bank(I):
    I.contracts[FB + 'gabor_2d'] = gabor_contract
    I.contracts[FB + 'morlet_2d'] = morlet_contract
    I.contracts[FB + 'periodize_filter_fft'] = fold_contract
    J, L = sym_int(I, 'J', 1), sym_int(I, 'L', 1)
    q1, q2 = sym_int(I, 'q1', 1), sym_int(I, 'q2', 1)
    p = I.power(2, J)
    M, N = I.binop('Mult', q1, p), I.binop('Mult', q2, p)
    got = expect_ok(I, 'filter_bank is defined', lambda: I.call(I.get(MOD, 'filter_bank'), [M, N, J, L], {}))
    phi = I.getitem(got, 'phi')
    I.oblige('scale of the low-pass', truth(I.eq(I.getitem(phi, 'j'), J)), '')

    def levels(nm, d, need, full):
        lv = I.getitem(d, 'levels')
        n = ints(I.length(lv))
        I.oblige(nm + ': has every level a path can request', n >= need, '%s >= %s' % (n, need))
        I.oblige(nm + ': no level coarser than 2^J', n <= J.e, '%s' % n)
        r = I.freshvar('r')
        k = len(I.pc)
        I.pc += [r >= 0, r < n, r < J.e]
        try:
            et_obl(I, nm + ': level r', I.getitem(lv, Sym(r, 'int')), folded(I, full, Sym(r, 'int')))
        finally:
            del I.pc[k:]
    v = dict(M=M, N=N, sigma=mk(smt.rv(0.8) * smt.rpow2(J.e - 1), 'float'), theta=0, xi=0, slant=1, offset=0)
    levels('low-pass', phi, J.e, transform(I, handle(GAB, v), M, N))
    j, t = I.freshvar('j'), I.freshvar('theta')
    want = [For(j, smt.iv(0), J.e, [For(t, smt.iv(0), L.e, [(Sym(j, 'int'), Sym(t, 'int'))])])]

    def leaf(I, nm, g, w):
        j, t = (ints(x) for x in w)
        for k, e in (('j', j), ('theta', t)):
            I.oblige(nm + ': ' + k, truth(I.eq(I.getitem(g, k), Sym(e, 'int'))), '')
        # angles (floor(L/2 - 1) - theta) pi / L; int() rounds towards zero
        Lr = z3.ToReal(L.e)
        h = z3.ToReal(z3.If(L.e == 1, smt.iv(0), (L.e - 2) / 2))
        v = dict(M=M, N=N, sigma=mk(smt.rv(0.8) * z3.ToReal(smt.pow2(j)), 'float'), theta=mk((h - z3.ToReal(t)) * PI / Lr, 'float'),
                 xi=mk(rv('3/4') * PI / z3.ToReal(smt.pow2(j)), 'float'), slant=mk(4 / Lr, 'float'), offset=0)
        levels(nm, g, z3.If(j >= 1, j, smt.iv(1)), transform(I, handle(MOR, v), M, N))
    match(I, 'wavelets', I.domain(I.getitem(got, 'psi')), want, leaf)


def create(fe, pre_pad):
    """the transform's bank is built for its padded size and its own J and L"""
    from . import c2d

    def body(I):
        obj, kw = expect_ok(I, 'the transform is built', lambda: c2d.build(I, fe, pre_pad=pre_pad))
        v = I.factory_args
        J = kw['J']
        want = dict(M=c2d.padded(I, kw['shape'][0], J), N=c2d.padded(I, kw['shape'][1], J), J=J, L=kw['L'])
        for n, w in want.items():
            I.oblige('bank built with its own ' + n, n in v and ints(v[n]) == ints(w), '%s vs %s' % (v.get(n), w))
        p = I.power(2, J)
        for n in ('M', 'N'):
            I.oblige('padded size divisible by 2^J', ints(I.binop('Mult', I.fdiv(v[n], p), p)) == ints(v[n]), str(v[n]))
        bank = I.contract_bank
        for n in ('phi', 'psi'):
            I.oblige('the transform holds ' + n, I.getattr(obj, n) is I.getitem(bank, n), '')
    return body


def cases(tier):
    from . import c2d
    out = [Case('filter_bank', bank, [setup])]
    for df in (True, False):
        t = ' default' if df else ''
        out.append(Case('gabor_2d' + t, gabor(df), [setup]))
        out.append(Case('morlet_2d' + t, morlet(df), [setup]))
    out.append(Case('gabor_2d envelope', envelope_sum, [setup]))
    for fe in c2d.CLS:
        for pp in (False, True):
            out.append(Case('filters of Scattering2D %s pre_pad=%s' % (fe, pp), create(fe, pp), [c2d.contracts_2d]))
    for cx in (False, True):
        for r0 in (True, False):
            out.append(Case('periodize_filter_fft %s res=%s' % ('complex' if cx else 'real', '0' if r0 else 'r'), fold(cx, r0), [setup]))
    return out
