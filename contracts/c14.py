"""C14: the PyTorch modulus and its gradient."""
import z3
from vc import smt
from vc import etensor as E
from vc.etensor import ET, Cx, R0, et_obl, finite_obl, symbolic
from vc.values import *
from vc.harness import Case, expect_raise, expect_ok
from .cbackend import *
from .c1d import sym_int

DIMS = (1, 2, 3)


def modulus_of(x):
    def want(ix):
        a, b = x.val(ix).re, x.val(ix).im
        return smt.sqrtf(a * a + b * b)
    return want


def arrays(I, lead, dbl):
    x = tensor(I, 'torch', 'x', lead, True, dbl)
    unchanged(I, 'modulus', x)
    return x


def body(lead_of, dim, dbl):
    def run(I):
        be = backend(I, 'torch', dim)
        lead = lead_of(I)
        x = arrays(I, lead, dbl)
        I.autograd_log = []
        got = expect_ok(I, 'modulus accepted', lambda: call(I, be, 'modulus', x))
        et_obl(I, 'modulus is sqrt(re^2 + im^2)', got, result('torch', lead, modulus_of(x), False))
        finite_obl(I, 'the modulus is finite', got)
        # the modulus is differentiated through the backward method of an autograd Function
        log = I.autograd_log
        I.oblige('the modulus is computed by one autograd Function of the input', len(log) == 1 and any(a is x for a in log[0][2]), repr(log))
        if len(log) != 1:
            return
        cls, ctx, args, out = log[0]
        I.oblige('the autograd Function is applied to the input alone', len(args) == 1, repr(args))
        I.oblige('the modulus is the output of the autograd Function', isinstance(out, ET) and isinstance(got, ET) and got.store is out.store and not out.store.log[0:0], repr(out))
        # gradient: g is the incoming gradient, of the shape of the output of the Function
        g = symbolic('g', out.shape_of(I), x.dt, 'torch')
        gr = g.reader()
        g.store.owner = 'backward: incoming gradient'
        res = expect_ok(I, 'backward accepted', lambda: I.call(I.getattr(cls, 'backward'), [ctx, g], {}))
        if isinstance(res, tuple):
            I.oblige('backward returns one gradient', len(res) == 1)
            res = res[0]

        def want(ix):
            v = x.val(ix[:-1])
            m = modulus_of(x)(ix[:-1])
            part = z3.If(ix[-1] == 0, v.re, v.im)
            return z3.If(z3.And(v.re == 0, v.im == 0), R0, gr(list(ix[:len(g.facs)])) * part / m)
        et_obl(I, 'gradient: g x/|x| where |x| > 0, 0 where |x| = 0', res, make(lead + (2,), want, x.dt, 'torch'))
        finite_obl(I, 'the gradient is never NaN', res)
        # a second use of the same graph gives the same gradient (nothing saved was modified)
        res2 = expect_ok(I, 'second backward accepted', lambda: I.call(I.getattr(cls, 'backward'), [ctx, g], {}))
        res2 = res2[0] if isinstance(res2, tuple) else res2
        et_obl(I, 'gradient of a second backward pass', res2, make(lead + (2,), want, x.dt, 'torch'))
    return run


def ranks():
    yield 'rank 1 (a single complex number)', lambda I: ()
    for n in range(1, 6):
        yield 'rank %d' % (n + 1), lambda I, n=n: tuple(sym_int(I, 'n%d' % i, 1) for i in range(n))
    yield 'any rank', lambda I: (block(I),)


def cases(tier):
    out = []
    for dim in DIMS:
        for name, f in ranks():
            for dbl in (False, True):
                out.append(Case('torch %dD modulus, %s%s' % (dim, name, ', double' if dbl else ''), body(f, dim, dbl), [setup]))
    return out
