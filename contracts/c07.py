"""C07: the 1D primitives of every backend compute the same functions."""
import z3
from vc import smt
from vc import etensor as E
from vc.etensor import ET, Cx, R0, R1, et_obl, re_, im_, symbolic
from vc.values import *
from vc.harness import Case, expect_raise, expect_ok
from .cbackend import *
from .c1d import sym_int


def subsample(fw, dbl):
    def body(I):
        be = backend(I, fw, 1)
        B = block(I)
        k, q = sym_int(I, 'k', 1), sym_int(I, 'q', 1)
        N = times(I, k, q)
        x = tensor(I, fw, 'x', (B, N), True, dbl)
        unchanged(I, 'subsample_fourier', x)

        def want(ix):
            a = z3.FreshConst(smt.Int, 'a')
            e = x.val([ix[0], a * q.e + ix[1]])
            return E.emap(e, lambda t: E.esum(t, [a], [k.e]) / z3.ToReal(k.e))
        run_obl(I, 'subsample_fourier averages the k aliases', lambda: call(I, be, 'subsample_fourier', x, k), result(fw, (B, q), want, True))
        y = tensor(I, fw, 'r', (B, N), False, dbl)
        expect_raise(I, 'subsample_fourier rejects a real input', lambda: call(I, be, 'subsample_fourier', y, k), ['TypeError'])
    return body


def pad(fw, mode, dbl):
    def body(I):
        be = backend(I, fw, 1)
        B = block(I)
        N, a, b = sym_int(I, 'N', 1), sym_int(I, 'a', 0), sym_int(I, 'b', 0)
        lead = (B, 1) if not (fw == 'torch' and mode == 'reflect') else (sym_int(I, 'Bn', 1), 1)
        x = signal(I, fw, 'x', lead + (N,), dbl)
        unchanged(I, 'pad', x)
        if mode == 'reflect':
            I.assume(z3.And(a.e < N.e, b.e < N.e))
        M = mk(N.e + a.e + b.e, 'int')

        def want(ix):
            s = ix[-1] - a.e
            if mode == 'reflect':
                return x.val(list(ix[:-1]) + [z3.If(s < 0, -s, z3.If(s >= N.e, 2 * N.e - 2 - s, s))])
            return z3.If(z3.And(s >= 0, s < N.e), x.val(list(ix[:-1]) + [s]), R0)
        args = {} if mode == 'reflect' else {'mode': mode}
        run_obl(I, 'pad (%s)' % mode, lambda: call(I, be, 'pad', x, a, b, **args), result(fw, lead + (M,), want, False))
        if mode == 'reflect':
            run_obl(I, 'pad (mode given)', lambda: call(I, be, 'pad', x, a, b, mode='reflect'), result(fw, lead + (M,), want, False))
            run_obl(I, 'pad (named arguments)', lambda: call(I, be, 'pad', x, pad_left=a, pad_right=b), result(fw, lead + (M,), want, False))
    return body


def pad_rejects(fw, side):
    def body(I):
        be = backend(I, fw, 1)
        N, a, b = sym_int(I, 'N', 1), sym_int(I, 'a', 0), sym_int(I, 'b', 0)
        x = signal(I, fw, 'x', (sym_int(I, 'Bn', 1), 1, N))
        I.assume((a if side == 'left' else b).e >= N.e)
        I.assume((b if side == 'left' else a).e < N.e)
        expect_raise(I, 'padding not smaller than the signal (%s): ValueError' % side, lambda: call(I, be, 'pad', x, a, b), ['ValueError'])
        expect_raise(I, 'padding not smaller than the signal (%s, mode given): ValueError' % side,
                     lambda: call(I, be, 'pad', x, a, b, mode='reflect'), ['ValueError'])
    return body


def unpad(fw, dbl):
    def body(I):
        be = backend(I, fw, 1)
        B = block(I)
        N, a, b = sym_int(I, 'N', 1), sym_int(I, 'a', 0), sym_int(I, 'b', 0)
        I.assume(z3.And(a.e < b.e, b.e <= N.e))
        x = tensor(I, fw, 'x', (B, N), False, dbl)
        want = lambda ix: x.val([ix[0], ix[1] + a.e])
        run_obl(I, 'unpad slices [i0, i1)', lambda: call(I, be, 'unpad', x, a, b), result(fw, (B, mk(b.e - a.e, 'int')), want, False, unit=False))
    return body


def transform(fw, name, dbl):
    cx_in = name != 'rfft'
    cx_out = name != 'irfft'
    inv = name in ('irfft', 'ifft')

    def body(I):
        be = backend(I, fw, 1)
        B = block(I)
        N = sym_int(I, 'N', 1)
        x = tensor(I, fw, 'x', (B, N), cx_in, dbl)
        unchanged(I, name, x)

        def want(ix):
            t = z3.FreshConst(smt.Int, 't')
            e = E.edft(inv, x.val([ix[0], t]), [t], [N.e], [ix[1]])
            return e if cx_out else e.re
        run_obl(I, '%s is the %sdiscrete Fourier transform' % (name, 'inverse ' if inv else ''), lambda: call(I, be, name, x), result(fw, (B, N), want, cx_out))
        y = tensor(I, fw, 'w', (B, N), not cx_in, dbl)
        expect_raise(I, '%s rejects a %s input' % (name, 'real' if cx_in else 'complex'), lambda: call(I, be, name, y), ['TypeError', 'RuntimeError', 'ValueError'])
    return body


def modulus(fw, dim, dbl=False):
    def body(I):
        be = backend(I, fw, dim)
        B = block(I)
        d = [sym_int(I, 'n%d' % i, 1) for i in range(dim)]
        x = tensor(I, fw, 'x', (B,) + tuple(d), True, dbl)
        unchanged(I, 'modulus', x)

        def want(ix):
            e = x.val(ix)
            return smt.sqrtf(e.re * e.re + e.im * e.im)
        run_obl(I, 'modulus is sqrt(re^2 + im^2)', lambda: call(I, be, 'modulus', x), result(fw, (B,) + tuple(d), want, False))
        if fw == 'torch':
            y = tensor(I, fw, 'w', (B,) + tuple(d), False)
            expect_raise(I, 'modulus rejects a real input', lambda: call(I, be, 'modulus', y), ['TypeError'])
    return body


def cdgmm(fw, dim, cxf, dbl=False, name='cdgmm'):
    def body(I):
        be = backend(I, fw, dim)
        B = block(I)
        d = tuple(sym_int(I, 'n%d' % i, 1) for i in range(dim))
        x = tensor(I, fw, 'x', (B,) + d, True, dbl)
        # filters of the TensorFlow frontends are numpy arrays
        for ffw in (['tensorflow', 'numpy'] if fw == 'tensorflow' else [fw]):
            if ffw == 'tensorflow' and not cxf:
                continue        # TensorFlow does not multiply complex tensors by real tensors (only by real numpy arrays)
            f = tensor(I, ffw, 'f', d, cxf, dbl)
            unchanged(I, name, x, f)
            want = lambda ix: E.emul(x.val(ix), f.val(ix[1:]))
            run_obl(I, '%s multiplies every signal by the %s filter (%s)' % (name, 'complex' if cxf else 'real', ffw), lambda: call(I, be, name, x, f), result(fw, (B,) + d, want, True))
    return body


def cdgmm_rejects(fw, dim, cxf, name='cdgmm'):
    def body(I):
        be = backend(I, fw, dim)
        B = block(I)
        d = tuple(sym_int(I, 'n%d' % i, 1) for i in range(dim))
        x = tensor(I, fw, 'x', (B,) + d, True)
        r = tensor(I, fw, 'r', (B,) + d, False)
        ffw = fw
        f = tensor(I, ffw, 'f', d, cxf)
        expect_raise(I, '%s rejects a real first input' % name, lambda: call(I, be, name, r, f), ['TypeError', 'RuntimeError', 'ValueError'])
        for i in range(dim):
            d2 = list(d)
            d2[i] = sym_int(I, 'm%d' % i, 1)
            I.assume(d2[i].e != d[i].e)
            g = tensor(I, ffw, 'g', d2, cxf)
            expect_raise(I, '%s rejects a filter of another size (axis %d)' % (name, i), lambda: call(I, be, name, x, g), ['RuntimeError'])
        if fw != 'torch':
            h = symbolic('h', d, 'int64', ffw)
            expect_raise(I, '%s rejects an integer filter' % name, lambda: call(I, be, name, x, h), ['TypeError'])
        if fw == 'torch':
            h = symbolic('h', d + (3,), 'float32', ffw)
            expect_raise(I, '%s rejects a filter that is neither real nor complex' % name, lambda: call(I, be, name, x, h), ['TypeError', 'RuntimeError'])
            h = tensor(I, fw, 'h', d, cxf, True)
            expect_raise(I, '%s rejects a filter of another precision' % name, lambda: call(I, be, name, x, h), ['TypeError'])
        if fw == 'tensorflow' and name == 'cdgmm3d':
            h = tensor(I, 'numpy', 'h', (2,) + d, True)
            expect_raise(I, 'cdgmm3d rejects a filter of another rank', lambda: call(I, be, name, x, h), ['RuntimeError'])
    return body


def average_global(fw, dbl):
    def body(I):
        be = backend(I, fw, 1)
        B = block(I)
        N = sym_int(I, 'N', 1)
        x = tensor(I, fw, 'x', (B, N), False, dbl)

        def want(ix):
            t = z3.FreshConst(smt.Int, 't')
            return E.esum(x.val([ix[0], t]), [t], [N.e])
        run_obl(I, 'average_global sums over time', lambda: call(I, be, 'average_global', x), result(fw, (B, 1), want, False))
        y = tensor(I, fw, 'w', (B, N), True, dbl)
        expect_raise(I, 'average_global rejects a complex input', lambda: call(I, be, 'average_global', y), ['TypeError'])
    return body


def stack(fw, dim):
    """stack along the axis the frontends use (1D: dim=2 after reshape_input; 2D: before the spatial axes)"""
    def body(I):
        be = backend(I, fw, dim)
        Bn, C, N = sym_int(I, 'Bn', 1), sym_int(I, 'C', 1), sym_int(I, 'N', 1)
        P = sym_int(I, 'P', 1)
        F = z3.Function('xs', smt.Int, smt.Int, smt.Int, smt.Int, smt.Real)
        xs = SymSeq('arrays', P.e, lambda i: make((Bn, C, N), lambda ix: F(i, *ix), 'float32', fw))
        for d in (0, 1, 2, 3, -1, -2):
            p = d if d >= 0 else 4 + d
            shape = [Bn, C, N]
            shape.insert(p, P)

            def want(ix):
                r = list(ix)
                i = r.pop(p)
                return F(i, *r)
            run_obl(I, 'stack along axis %d' % d, lambda: call(I, be, 'stack', xs, d) if d != 1 or fw == 'torch' else call(I, be, 'stack', xs), make(shape, want, 'float32', fw))
            run_obl(I, 'stack along axis %d (named)' % d, lambda: call(I, be, 'stack', xs, dim=d), make(shape, want, 'float32', fw))
    return body


def reshapes(fw, dim):
    """reshape_input / reshape_output: the batch is flattened and restored without reordering anything"""
    def body(I):
        be = backend(I, fw, dim)
        B = block(I)
        d = tuple(sym_int(I, 'n%d' % i, 1) for i in range(dim))
        x = signal(I, fw, 'x', (B,) + d)
        y = expect_ok(I, 'reshape_input accepted', lambda: call(I, be, 'reshape_input', x, signal_shape=d))
        et_obl(I, 'reshape_input flattens the batch', y, make((Sym(B.size, 'int'), 1) + d, x.val, 'float32', fw))
        kept = tuple(sym_int(I, 'o%d' % i, 1) for i in range(dim + 1))
        s = signal(I, fw, 's', (Sym(B.size, 'int'), 1) + kept if dim == 1 else (Sym(B.size, 'int'),) + kept)
        z = expect_ok(I, 'reshape_output accepted', lambda: call(I, be, 'reshape_output', s, (B,), n_kept_dims=dim + 1))
        et_obl(I, 'reshape_output restores the batch axes', z, make((B,) + kept, s.val, 'float32', fw))
        sh = expect_ok(I, 'shape accepted', lambda: call(I, be, 'shape', x))
        from vc.spec import eq_obl
        eq_obl(I, 'shape is the shape', tuple(sh), (B,) + d)
    return body


def frequency(fw, which):
    def body(I):
        be = backend(I, fw, 1)
        Bn, C, F, N = sym_int(I, 'Bn', 1), 1, sym_int(I, 'F', 1), sym_int(I, 'N', 1)
        # (batch, frequency, time) after the first reshape: rank 4 including the channel axis in numpy/tf; torch adds the unit axis
        lead = (Bn, 1) if fw != 'torch' else (Bn,)
        if which == 'pad_frequency':
            p = sym_int(I, 'p', 0)
            x = tensor(I, fw, 'x', lead + (N, F), False)

            def want(ix):
                return z3.If(ix[-1] < F.e, x.val(ix), R0)
            run_obl(I, 'pad_frequency appends zeros along frequency', lambda: call(I, be, 'pad_frequency', x, p),
                    result(fw, lead + (N, mk(F.e + p.e, 'int')), want, False))
        elif which == 'swap_time_frequency':
            for cx in (False, True):
                x = tensor(I, fw, 'x%d' % cx, lead + (F, N), cx)
                want = lambda ix: x.val(list(ix[:-2]) + [ix[-1], ix[-2]])
                y = expect_ok(I, 'swap_time_frequency accepted', lambda: call(I, be, 'swap_time_frequency', x))
                et_obl(I, 'swap_time_frequency exchanges the last two axes', y, result(fw, lead + (N, F), want, cx))
                if fw == 'torch':
                    I.oblige('swap_time_frequency returns a contiguous tensor', y.contig)
        elif which == 'unpad_frequency':
            n1m, st = sym_int(I, 'n1_max', 0), sym_int(I, 'stride', 1)
            x = tensor(I, fw, 'x', lead + (F, N), False)
            rows = z3.simplify(1 + n1m.e / st.e)
            I.assume(rows <= F.e)
            want = lambda ix: x.val(ix)
            if fw == 'torch':
                # (batch, 1?, frequency, time, 1): the torch primitive addresses axis 2 of a rank-4 tensor
                x = symbolic('x', (Bn, 1, F, N), 'float32', fw)
                x.val = x.reader()
                run_obl(I, 'unpad_frequency keeps the first rows', lambda: call(I, be, 'unpad_frequency', x, n1m, st), make((Bn, 1, Sym(rows, 'int'), N), x.val, 'float32', fw))
            else:
                run_obl(I, 'unpad_frequency keeps the first rows', lambda: call(I, be, 'unpad_frequency', x, n1m, st),
                        result(fw, lead + (Sym(rows, 'int'), N), want, False))
        else:
            x = tensor(I, fw, 'x', lead + (F, N), False)
            got = expect_ok(I, 'split_frequency_axis accepted', lambda: call(I, be, 'split_frequency_axis', x))
            from vc.spec import match
            v = I.freshvar('row')
            wt = [For(v, smt.iv(0), F.e, [result(fw, lead + (1, N), lambda ix: x.val(list(ix[:-1]) + [v, ix[-1]]), False)])]
            match(I, 'split_frequency_axis', I.domain(got), wt, lambda I, n, g, w: et_obl(I, n + ' gives each row', g, w))
    return body


def common(dim):
    """the primitives defined in the shared base classes"""
    out = []
    for fw in FWS:
        n = '%s %dD ' % (fw, dim)
        out.append(Case(n + 'modulus', modulus(fw, dim), [setup]))
        for cxf in (True, False):
            out.append(Case(n + 'cdgmm %s filter' % ('complex' if cxf else 'real'), cdgmm(fw, dim, cxf), [setup]))
            out.append(Case(n + 'cdgmm rejects, %s filter' % ('complex' if cxf else 'real'), cdgmm_rejects(fw, dim, cxf), [setup]))
        if fw in ('numpy', 'jax', 'torch'):
            out.append(Case(n + 'double precision', lambda I, fw=fw: (modulus(fw, dim, True)(I), cdgmm(fw, dim, True, True)(I)), [setup]))
        out.append(Case(n + 'reshapes', reshapes(fw, dim), [setup]))
    return out


def cases(tier):
    out = common(1)
    for fw in FWS:
        n = fw + ' 1D '
        for dbl in ((False, True) if fw != 'tensorflow' else (False,)):
            t = n + ('double ' if dbl else '')
            out.append(Case(t + 'subsample_fourier', subsample(fw, dbl), [setup]))
            for m in ('reflect', 'constant'):
                out.append(Case(t + 'pad ' + m, pad(fw, m, dbl), [setup]))
            out.append(Case(t + 'unpad', unpad(fw, dbl), [setup]))
            for f in ('rfft', 'cfft', 'ifft', 'irfft'):
                out.append(Case(t + f, transform(fw, f, dbl), [setup]))
            out.append(Case(t + 'average_global', average_global(fw, dbl), [setup]))
        for s in ('left', 'right'):
            out.append(Case(n + 'pad rejects ' + s, pad_rejects(fw, s), [setup]))
        out.append(Case(n + 'stack', stack(fw, 1), [setup]))
        for w in ('pad_frequency', 'swap_time_frequency', 'unpad_frequency', 'split_frequency_axis'):
            out.append(Case(n + w, frequency(fw, w), [setup]))
    return out
