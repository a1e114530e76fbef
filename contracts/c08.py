"""C08: the 2D primitives of every backend compute the same functions."""
import z3
from vc import smt
from vc import etensor as E
from vc.etensor import Cx, R0, et_obl, symbolic
from vc.values import *
from vc.harness import Case, expect_raise, expect_ok
from .cbackend import *
from .c1d import sym_int
from .c07 import common

ERR = ['TypeError', 'RuntimeError', 'ValueError']


def lead(I, fw, rank1):
    """leading axes: numpy, jax and tensorflow primitives take one batch axis where rank1, torch any number"""
    return (sym_int(I, 'Bn', 1),) if rank1 and fw != 'torch' else (block(I),)


def subsample(fw, dbl):
    def body(I):
        be = backend(I, fw, 2)
        b = lead(I, fw, True)
        k, q, r = sym_int(I, 'k', 1), sym_int(I, 'q', 1), sym_int(I, 'r', 1)
        x = tensor(I, fw, 'x', b + (times(I, k, q), times(I, k, r)), True, dbl)
        unchanged(I, 'subsample_fourier', x)

        def want(ix):
            u, v = z3.FreshConst(smt.Int, 'u'), z3.FreshConst(smt.Int, 'v')
            e = x.val([ix[0], u * q.e + ix[1], v * r.e + ix[2]])
            return E.emap(e, lambda t: E.esum(t, [u, v], [k.e, k.e]) / (z3.ToReal(k.e) * z3.ToReal(k.e)))
        run_obl(I, 'subsample_fourier averages the k x k aliases', lambda: call(I, be, 'subsample_fourier', x, k), result(fw, b + (q, r), want, True))
        run_obl(I, 'subsample_fourier averages the k x k aliases (named argument)', lambda: call(I, be, 'subsample_fourier', x, k=k), result(fw, b + (q, r), want, True))
        y = tensor(I, fw, 'w', b + (times(I, k, q), times(I, k, r)), False, dbl)
        expect_raise(I, 'subsample_fourier rejects a real input', lambda: call(I, be, 'subsample_fourier', y, k), ERR)
    return body


def refl(s, n):
    """index of the sample at position s of the signal of length n extended by reflection about its end samples"""
    m = s % (2 * n - 2)
    return z3.If(m < n, m, 2 * n - 2 - m)


def pad(fw, dbl, eq):
    """eq: for each axis, whether the pads equal the image size"""
    def body(I):
        be = backend(I, fw, 2)
        b = lead(I, fw, fw in ('numpy', 'jax'))
        d = [sym_int(I, 'M', 1), sym_int(I, 'N', 1)]
        p = [sym_int(I, 'p%d' % i, 0) for i in range(4)]
        for i in range(2):
            if eq[i]:
                I.assume(z3.And(d[i].e >= 2, p[2 * i].e == d[i].e, p[2 * i + 1].e == d[i].e))
            else:
                I.assume(z3.And(p[2 * i].e < d[i].e, p[2 * i + 1].e < d[i].e))
        x = signal(I, fw, 'x', b + tuple(d), dbl)
        unchanged(I, 'Pad', x)
        P = call(I, be, 'Pad', VList(list(p)), tuple(d))
        out = tuple(mk(d[i].e + p[2 * i].e + p[2 * i + 1].e, 'int') for i in range(2))

        def want(ix):
            src = []
            for i in range(2):
                s = ix[1 + i] - p[2 * i].e
                n = d[i].e
                if eq[i]:
                    # -n <= s < 2n: the reflected index, one period of 2n - 2 away where needed
                    src.append(z3.If(s == -n, n - 2, z3.If(s < 0, -s, z3.If(s < n, s, z3.If(s == 2 * n - 1, 1, 2 * n - 2 - s)))))
                else:
                    src.append(z3.If(s < 0, -s, z3.If(s < n, s, 2 * n - 2 - s)))
            return x.val([ix[0]] + src)
        run_obl(I, 'Pad reflects about the border', lambda: I.call(P, [x], {}), result(fw, b + out, want, False))
        P2 = call(I, be, 'Pad', tuple(p), input_size=VList(list(d)))
        run_obl(I, 'Pad reflects about the border (sizes as tuples and lists)', lambda: I.call(P2, [x], {}), result(fw, b + out, want, False))
    return body


def unpad(fw, dbl):
    def body(I):
        be = backend(I, fw, 2)
        b = (block(I),)
        M, N = sym_int(I, 'M', 3), sym_int(I, 'N', 3)
        x = tensor(I, fw, 'x', b + (M, N), False, dbl)
        want = lambda ix: x.val([ix[0], ix[1] + 1, ix[2] + 1])
        run_obl(I, 'unpad removes one sample on each side', lambda: call(I, be, 'unpad', x), result(fw, b + (mk(M.e - 2, 'int'), mk(N.e - 2, 'int')), want, False, unit=False))
    return body


def transform(fw, name, dbl):
    cx_in, cx_out = name != 'rfft', name != 'irfft'
    inv = name in ('irfft', 'ifft')

    def body(I):
        be = backend(I, fw, 2)
        b = (block(I),)
        M, N = sym_int(I, 'M', 1), sym_int(I, 'N', 1)
        x = tensor(I, fw, 'x', b + (M, N), cx_in, dbl)
        unchanged(I, name, x)

        def want(ix):
            s, t = z3.FreshConst(smt.Int, 's'), z3.FreshConst(smt.Int, 't')
            e = E.edft(inv, x.val([ix[0], s, t]), [s, t], [M.e, N.e], [ix[1], ix[2]])
            return e if cx_out else e.re
        run_obl(I, '%s is the %s2D discrete Fourier transform' % (name, 'inverse ' if inv else ''), lambda: call(I, be, name, x), result(fw, b + (M, N), want, cx_out))
        y = tensor(I, fw, 'w', b + (M, N), not cx_in, dbl)
        expect_raise(I, '%s rejects a %s input' % (name, 'real' if cx_in else 'complex'), lambda: call(I, be, name, y), ERR)
    return body


def stack(fw):
    def body(I):
        be = backend(I, fw, 2)
        Bn, M, N, P = sym_int(I, 'Bn', 1), sym_int(I, 'M', 1), sym_int(I, 'N', 1), sym_int(I, 'P', 1)
        F = z3.Function('xs', smt.Int, smt.Int, smt.Int, smt.Int, smt.Real)
        xs = SymSeq('arrays', P.e, lambda i: make((Bn, M, N), lambda ix: F(i, *ix), 'float32', fw))
        want = lambda ix: F(ix[1], ix[0], ix[2], ix[3])
        run_obl(I, 'stack inserts the channel axis before the spatial axes', lambda: call(I, be, 'stack', xs), make((Bn, P, M, N), want, 'float32', fw))
    return body


def cases(tier):
    out = common(2)
    for fw in FWS:
        for dbl in ((False, True) if fw != 'tensorflow' else (False,)):
            n = '%s 2D %s' % (fw, 'double ' if dbl else '')
            out.append(Case(n + 'subsample_fourier', subsample(fw, dbl), [setup]))
            for eq in ((0, 0), (1, 0), (0, 1), (1, 1)):
                out.append(Case(n + 'Pad %s' % ', '.join('pad equal to the size' if e else 'pad smaller than the size' for e in eq), pad(fw, dbl, eq), [setup]))
            out.append(Case(n + 'unpad', unpad(fw, dbl), [setup]))
            for f in ('rfft', 'ifft', 'irfft'):
                out.append(Case(n + f, transform(fw, f, dbl), [setup]))
        out.append(Case('%s 2D stack' % fw, stack(fw), [setup]))
    return out
