"""Contracts of the 2D and 3D backends over abstract tensors (see atensor.py).  `torch` keeps a trailing axis of size
1 (real) or 2 (complex), the others do not."""
import z3
from . import smt
from .values import *
from .atensor import *
from .atensor import T, I_
from .interp import MISSING

PAD2 = z3.Function('pad2', T, I_, I_, I_, I_, T)
UNPAD2 = z3.Function('unpad2', T, T)
ROT0 = z3.Function('rot_modulus0', T, T)          # sqrt(|x|^2)
ROT = z3.Function('rot_modulus', T, T, T)         # sqrt(m^2 + |x|^2)
INTEG = z3.Function('integrals', T, T)            # sums over the volume of x^q, q in the configured powers


def halves(a, b):
    """t // 2 + (t + 1) // 2 == t"""
    a, b = z3.simplify(a), z3.simplify(b)
    for u, v in ((a, b), (b, a)):
        if u.decl().kind() == z3.Z3_OP_IDIV and v.decl().kind() == z3.Z3_OP_IDIV and all(
                z3.is_int_value(x.arg(1)) and x.arg(1).as_long() == 2 for x in (u, v)):
            d = z3.simplify(v.arg(0) - u.arg(0))
            if z3.is_int_value(d) and d.as_long() == 1:
                return u.arg(0)
    return a + b


class ABackendND(ABackend):
    nd = 2

    def __init__(self, name):
        ABackend.__init__(self, name)
        self.trail = name.startswith('torch')

    def axes(self, I, x):
        """(batch part, spatial dims) after checking the layout"""
        s = list(x.shape)
        if self.trail:
            t = s.pop()
            if not (isinstance(t, int) and t == (2 if x.cx else 1)):
                raise Unsupported('torch tensor without its real/imaginary axis: %r' % (x,))
        sp = s[len(s) - self.nd:]
        if len(sp) < self.nd or any(isinstance(d, (Block, Rep)) for d in sp):
            raise I.exc('RuntimeError', 'too few axes')
        return s[:len(s) - self.nd], sp

    def mkt(self, e, batch, sp, cx):
        return AT(e, tuple(batch) + tuple(sp) + ((2 if cx else 1,) if self.trail else ()), cx)

    def spatial(self, I, f, x, cx_in, cx_out, what):
        self.need(I, x, cx_in, what)
        b, s = self.axes(I, x)
        return self.mkt(f(x.e), b, s, cx_out)

    def need(self, I, x, cx, what):
        ABackend.need(self, I, x, cx, what)
        if self.trail:
            self.axes(I, x)

    def p_rfft(self, I, x):
        return self.spatial(I, FFT, x, False, True, 'rfft')

    def p_ifft(self, I, x):
        return self.spatial(I, IFFT, x, True, True, 'ifft')

    def p_irfft(self, I, x):
        return self.spatial(I, lambda e: RE(IFFT(e)), x, True, False, 'irfft')

    def p_modulus(self, I, x):
        return self.spatial(I, MOD, x, True, False, 'modulus')

    def p_cdgmm(self, I, x, f):
        self.need(I, x, True, 'cdgmm')
        if not isinstance(f, AT):
            raise I.exc('TypeError', 'cdgmm filter')
        b, s = self.axes(I, x)
        c = dims_eq(I, s, f.shape)
        if c is None:
            raise I.exc('RuntimeError', 'The inputs are not compatible for multiplication.')
        for t in c:
            if not I.decide(t):
                raise I.exc('RuntimeError', 'The inputs are not compatible for multiplication.')
        return self.mkt(CD(x.e, f.e), b, s, True)

    p_cfft = None
    p_pad = None
    p_average_global = None
    p_reshape_input = None
    p_reshape_output = None


class ABackend2D(ABackendND):
    nd = 2

    def p_subsample_fourier(self, I, x, k):
        self.need(I, x, True, 'subsample_fourier')
        ek = ints(k)
        if not I.decide(ek >= 1):
            raise I.exc('ValueError', 'subsampling factor')
        b, s = self.axes(I, x)
        # the numpy / tensorflow / jax primitives take exactly one batch axis
        if not self.trail and not (len(b) == 1 and not isinstance(b[0], (Block, Rep))):
            I.oblige('subsample_fourier is given one batch axis', False, repr(x.shape))
        out = []
        for d in s:
            q, exact = I.fdivmod(d, k)
            if not exact and not I.entails(ints(I.binop('Mult', q, k)) == ints(d)):
                if I.decide(ints(d) % ek != 0):
                    raise I.exc('ValueError', 'subsampling factor does not divide the size')
            out.append(q)
        return self.mkt(sub(I, x.e, ek), b, out, True)

    def p_Pad(self, I, pad_size, input_size):
        p = [x for x in I.domain(pad_size)]
        n = [x for x in I.domain(input_size)]
        if len(p) != 4 or len(n) != 2:
            raise I.exc('ValueError', 'padding sizes')
        e = [ints(v) for v in p]
        for (a, b), d in (((e[0], e[1]), ints(n[0])), ((e[2], e[3]), ints(n[1]))):
            I.oblige('image padding is a valid reflection', z3.And(a >= 0, b >= 0, z3.Or(z3.And(a < d, b < d), z3.And(a == d, b == d, d >= 2))),
                     '%s, %s of %s' % (a, b, d))

        def pad(I, a, k):
            self.log.append('pad')
            x, = a
            if not isinstance(x, AT) or x.cx:
                raise I.exc('TypeError', 'pad')
            c = dims_eq(I, x.shape[-2:], n)
            I.oblige('the padded input has the declared size', c is not None and z3.And(*c), '%r vs %r' % (x.shape, n))
            b, (h, w) = x.shape[:-2], x.shape[-2:]
            if not self.trail and len(b) != 1 and self.name in ('numpy', 'jax'):
                I.oblige('pad is given one batch axis', False, repr(x.shape))
            return self.mkt(PAD2(x.e, *e), b, (mk(ints(h) + halves(e[0], e[1]), 'int'), mk(ints(w) + halves(e[2], e[3]), 'int')), False)
        return Native('pad', pad)

    def p_unpad(self, I, x):
        if not isinstance(x, AT):
            raise I.exc('TypeError', 'unpad')
        b, s = self.axes(I, x)
        if self.trail and x.cx:
            raise I.exc('RuntimeError', 'unpad of a complex tensor')
        I.oblige('at least one sample remains after removing the border', z3.And(*[ints(d) >= 3 for d in s]), repr(s))
        return AT(UNPAD2(x.e), tuple(b) + tuple(I.binop('Sub', d, 2) for d in s), x.cx)

    def p_stack(self, I, arrays, dim=None):
        if dim is not None:
            raise I.exc('TypeError', 'stack() takes one argument')
        return ABackend.p_stack(self, I, arrays, dim=-3)


class ABackend3D(ABackendND):
    nd = 3

    def p_cdgmm3d(self, I, x, f):
        return self.p_cdgmm(I, x, f)

    p_irfft = None

    def p_modulus_rotation(self, I, x, module=None):
        self.need(I, x, True, 'modulus_rotation')
        b, s = self.axes(I, x)
        if module is None:
            return self.mkt(ROT0(x.e), b, s, False)
        if not isinstance(module, AT) or module.cx:
            raise Unsupported('modulus_rotation accumulator %r' % (module,))
        c = dims_eq(I, module.shape, self.mkt(x.e, b, s, False).shape)
        if c is None or not all(I.entails(t) for t in c):
            I.oblige('modulus_rotation: shapes agree', False, '%r %r' % (module.shape, x.shape))
        return self.mkt(ROT(module.e, x.e), b, s, False)

    def p_compute_integrals(self, I, x, powers):
        self.need(I, x, False, 'compute_integrals')
        b, s = self.axes(I, x)
        I.oblige('compute_integrals uses the configured powers', powers is I.powers or I.truth(I.eq(powers, I.powers)), repr(powers))
        if len(b) != 1:
            raise Unsupported('compute_integrals with several batch axes')
        return AT(INTEG(x.e), tuple(b) + (I.length(powers),), False)

    def p_stack(self, I, arrays, L):
        """(batch, n coefficients, powers) regrouped as (batch, n // (L+1), L+1, powers), row major"""
        items = I.domain(arrays)
        st = stack_items(I, items, 2)
        L1 = I.binop('Add', L, 1)
        g = groups(I, items, ints(L1))
        if g is not None:
            q = I.seg_count(g, 0)
        else:
            n = st.shape[1]
            q, exact = I.fdivmod(n, L1)
            if not exact:
                I.oblige('the number of coefficients is a multiple of L+1', ints(n) % ints(L1) == 0, str(n))
        return AStack(st.segs, (st.shape[0], q, L1) + st.shape[2:], 3)


def groups(I, items, n):
    """replace every innermost run of n leaves by one element; None when the leaves do not come in runs of n"""
    out = []
    for x in items:
        if isinstance(x, For):
            if len(x.body) == 1 and not isinstance(x.body[0], SEG) and I.entails(x.hi - x.lo == n):
                out.append(0)
                continue
            b = groups(I, x.body, n)
            if b is None:
                return None
            out.append(For(x.var, x.lo, x.hi, b))
        elif isinstance(x, Cond):
            alts = [(g, groups(I, b, n)) for g, b in x.alts]
            if any(b is None for _, b in alts):
                return None
            out.append(Cond(alts))
        else:
            return None
    return out
