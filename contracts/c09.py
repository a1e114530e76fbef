"""C09: the 3D primitives of every backend compute the same functions."""
import z3
from vc import smt
from vc import etensor as E
from vc.etensor import Cx, R0, et_obl, symbolic
from vc.values import *
from vc.harness import Case, expect_raise, expect_ok
from .cbackend import *
from .c1d import sym_int
from .c07 import common, cdgmm, cdgmm_rejects

ERR = ['TypeError', 'RuntimeError', 'ValueError']


def dims3(I):
    return tuple(sym_int(I, n, 1) for n in ('M', 'N', 'O'))


def transform(fw, name, dbl):
    cx_in = name != 'rfft'
    inv = name == 'ifft'

    def body(I):
        be = backend(I, fw, 3)
        b, d = (block(I),), dims3(I)
        x = tensor(I, fw, 'x', b + d, cx_in, dbl)
        unchanged(I, name, x)

        def want(ix):
            vs = [z3.FreshConst(smt.Int, 's') for _ in range(3)]
            return E.edft(inv, x.val([ix[0]] + vs), vs, [ints(v) for v in d], ix[1:])
        run_obl(I, '%s is the %s3D discrete Fourier transform' % (name, 'inverse ' if inv else ''), lambda: call(I, be, name, x), result(fw, b + d, want, True))
        y = tensor(I, fw, 'w', b + d, not cx_in, dbl)
        expect_raise(I, '%s rejects a %s input' % (name, 'real' if cx_in else 'complex'), lambda: call(I, be, name, y), ERR)
    return body


def rotation(fw, dbl):
    def body(I):
        be = backend(I, fw, 3)
        b, d = (block(I),), dims3(I)
        x = tensor(I, fw, 'x', b + d, True, dbl)
        m = tensor(I, fw, 'm', b + d, False, dbl)
        unchanged(I, 'modulus_rotation', x, m)

        # |x| is sqrt(re^2 + im^2); its square is written out as re^2 + im^2 (a fact about square roots the prover uses)
        def sq(ix):
            e = x.val(ix)
            return e.re * e.re + e.im * e.im
        w0 = lambda ix: smt.sqrtf(sq(ix))
        w1 = lambda ix: smt.sqrtf(m.val(ix) * m.val(ix) + sq(ix))
        run_obl(I, 'modulus_rotation(x, None) is sqrt(|x|^2)', lambda: call(I, be, 'modulus_rotation', x, None), result(fw, b + d, w0, False))
        if fw != 'tensorflow':
            run_obl(I, 'modulus_rotation(x) is sqrt(|x|^2)', lambda: call(I, be, 'modulus_rotation', x), result(fw, b + d, w0, False))
        run_obl(I, 'modulus_rotation(x, m) is sqrt(m^2 + |x|^2)', lambda: call(I, be, 'modulus_rotation', x, m), result(fw, b + d, w1, False))
        run_obl(I, 'modulus_rotation(x, module=m) is sqrt(m^2 + |x|^2)', lambda: call(I, be, 'modulus_rotation', x, module=m), result(fw, b + d, w1, False))
    return body


def integrals(fw, dbl, which):
    def body(I):
        be = backend(I, fw, 3)
        b, d = (sym_int(I, 'Bn', 1),), dims3(I)
        x = tensor(I, fw, 'x', b + d, False, dbl)
        unchanged(I, 'compute_integrals', x)

        def total(ix, q):
            vs = [z3.FreshConst(smt.Int, 's') for _ in range(3)]
            return E.esum(E.epow(x.val([ix[0]] + vs), q), vs, [ints(v) for v in d])
        if which == 'any':
            P = sym_int(I, 'P', 1)
            Q = z3.Function('power[]', smt.Int, smt.Real)
            qs = SymSeq('powers', P.e, lambda i: Sym(Q(i), 'float'))
            want = lambda ix: total(ix, Q(ix[1]))
            shape = b + (P,)
        else:
            lst = [mk(z3.RealVal('1/2'), 'float'), mk(z3.RealVal(1), 'float'), 2, mk(z3.RealVal(3), 'float')]
            qs = VList(lst)

            def want(ix):
                r = total(ix, 3)
                for i, q in ((2, 2), (1, 1), (0, z3.RealVal('1/2'))):
                    r = z3.If(ix[1] == i, total(ix, q), r)
                return r
            shape = b + (4,)
        run_obl(I, 'compute_integrals sums every power over the volume, in order', lambda: call(I, be, 'compute_integrals', x, qs), make(shape, want, 'float32', fw))
    return body


def stack(fw):
    """the list of path coefficients, (batch, powers) each, is regrouped as (batch, paths, L+1, powers)"""
    def body(I):
        be = backend(I, fw, 3)
        Bn, P, L, q = sym_int(I, 'Bn', 1), sym_int(I, 'P', 1), sym_int(I, 'L', 0), sym_int(I, 'paths', 1)
        n1 = I.binop('Add', L, 1)
        n = I.binop('Mult', q, n1)
        F = z3.Function('xs', smt.Int, smt.Int, smt.Int, smt.Real)
        xs = SymSeq('arrays', ints(n), lambda i: make((Bn, P), lambda ix: F(i, *ix), 'float32', fw))
        want = lambda ix: F(ix[1] * ints(n1) + ix[2], ix[0], ix[3])
        run_obl(I, 'stack groups the coefficients as (batch, paths, L+1, powers)', lambda: call(I, be, 'stack', xs, L), make((Bn, q, n1, P), want, 'float32', fw))
        run_obl(I, 'stack groups the coefficients (named argument)', lambda: call(I, be, 'stack', xs, L=L), make((Bn, q, n1, P), want, 'float32', fw))
    return body


def cases(tier):
    out = common(3)
    for fw in FWS:
        for dbl in ((False, True) if fw != 'tensorflow' else (False,)):
            n = '%s 3D %s' % (fw, 'double ' if dbl else '')
            for f in ('rfft', 'ifft'):
                out.append(Case(n + f, transform(fw, f, dbl), [setup]))
            out.append(Case(n + 'modulus_rotation', rotation(fw, dbl), [setup]))
            for w in ('any', 'given'):
                out.append(Case(n + 'compute_integrals, %s powers' % w, integrals(fw, dbl, w), [setup]))
        n = fw + ' 3D '
        for cxf in (True, False):
            t = 'complex' if cxf else 'real'
            out.append(Case(n + 'cdgmm3d %s filter' % t, cdgmm(fw, 3, cxf, name='cdgmm3d'), [setup]))
            out.append(Case(n + 'cdgmm3d rejects, %s filter' % t, cdgmm_rejects(fw, 3, cxf, name='cdgmm3d'), [setup]))
        out.append(Case(n + 'stack', stack(fw), [setup]))
    return out
