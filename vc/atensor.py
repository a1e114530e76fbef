"""Abstract tensors: a term of sort T per signal of the batch, plus shape and kind.  The operations are exactly the
backend contracts (C07/C08/C09): the backends are proved against them, the transforms are proved using them."""
import z3
from . import smt
from .values import *
from .interp import MISSING, split_rank, pow2_form, mul_pow2

T = z3.DeclareSort('T')
I_ = smt.Int
FFT = z3.Function('dft', T, T)
IFFT = z3.Function('idft', T, T)
RE = z3.Function('re', T, T)
MOD = z3.Function('modulus', T, T)
CD = z3.Function('cdgmm', T, T, T)
SUB = z3.Function('subsample', T, I_, T)
PAD = z3.Function('pad', T, I_, I_, T)
UNPAD = z3.Function('unpad', T, I_, I_, T)
SUM = z3.Function('sum_time', T, T)


def u_sub(t, F):
    x, k = t.arg(0), t.arg(1)
    F(z3.Implies(k == 1, t == x))
    if x.decl().name() == 'subsample':
        F(z3.Implies(k == 1, t == x))
        F(t == SUB(x.arg(0), x.arg(1) * k))


smt.SCHEMA.add('subsample')
smt.UNARY['subsample'] = u_sub


def sub(I, x, k):
    """subsample(subsample(y,a),b) = subsample(y,ab); subsample(x,1) = x"""
    k = z3.simplify(k)
    if z3.is_app(x) and x.decl().name() == 'subsample':
        k = z3.simplify(mul_pow2(I, x.arg(1), k))
        x = x.arg(0)
    if z3.is_int_value(k) and k.as_long() == 1:
        return x
    return SUB(x, k)


def fold(g, u, var, lo, hi, init):
    """iterate of u <- g(u, var), var = lo .. hi-1, from init"""
    from .binders import atom
    acc = z3.Const('$bacc', T)
    return atom('fold', [var], [z3.substitute(g, (u, acc))], [lo, hi, init], T)


class Dtype:
    def __init__(self, name):
        self.name = name

    def eq_(self, I, o):
        return isinstance(o, Dtype) and o.name == self.name

    def is_(self, I, o):
        return self.eq_(I, o)


class AT:
    """abstract tensor"""
    contig = True

    def __init__(self, e, shape, cx, origin=None):
        self.e, self.shape, self.cx = e, tuple(shape), cx
        self.origin = origin

    def __repr__(self):
        return 'AT(%s : %s%s)' % (str(self.e).replace('\n', ' '), list(self.shape), ' complex' if self.cx else '')

    def getattr_(self, I, name):
        if name == 'shape':
            return self.shape
        if name == 'ndim':
            return I.length(self.shape)
        if name == 'reshape':
            return Native('reshape', lambda I, a, k: at_reshape(I, self, a[0] if len(a) == 1 and isinstance(a[0], (tuple, VList)) else tuple(a)))
        if name == 'dim':
            return Native('dim', lambda I, a, k: I.length(self.shape))
        if name == 'is_contiguous':
            return Native('is_contiguous', lambda I, a, k: self.contig)
        if name == 'contiguous':
            return Native('contiguous', lambda I, a, k: self)
        h = getattr(I, 'at_attr', None)
        if h is not None:
            return h(I, self, name)
        raise Unsupported('tensor attribute ' + name)

    def setitem_(self, I, i, v):
        raise Unsupported('write into a tensor')

    def inplace_(self, I, op, v):
        I.oblige('input and filters are not modified in place', False, op)
        return self

    def subst_(self, pairs, memo):
        from .loops import subst_items
        r = z3.substitute(self.e, *pairs)
        return AT(r, subst_items(list(self.shape), pairs), self.cx, self.origin)

    def mentions_(self, sym):
        from .loops import occurs, value_mentions
        return occurs(sym, self.e) or any(value_mentions(d, sym) for d in self.shape)

    def accum_(self, I):
        """arbitrary value of a loop-carried tensor of this shape"""
        u = z3.FreshConst(T, 'acc')
        return AT(u, self.shape, self.cx), u

    def accum_close(self, I, out, u, var, lo, hi):
        """value after iterating u <- out(u, var) for lo <= var < hi, starting from self"""
        if not isinstance(out, AT) or out.cx != self.cx:
            raise Unsupported('tensor recurrence changes kind')
        c = dims_eq(I, out.shape, self.shape)
        if c is None or not all(I.entails(t) for t in c):
            raise Unsupported('tensor recurrence changes shape')
        return AT(fold(out.e, u, var, lo, hi, self.e), self.shape, self.cx)

    def eq_(self, I, o):
        raise Unsupported('comparison of tensors')

    def is_(self, I, o):
        return self is o

    def isinstance_(self, I, cls):
        if cls is getattr(I, 'tensor_cls', None) or cls is I.natives['numpy'].attrs.get('ndarray'):
            return True
        return False


def dims_eq(I, a, b):
    """list of z3 equalities making shapes a and b equal, or None when the structure differs"""
    if len(a) != len(b):
        return None
    out = []
    for x, y in zip(a, b):
        if isinstance(x, (Block, Rep)) or isinstance(y, (Block, Rep)):
            if x is y or (isinstance(x, Block) and isinstance(y, Block) and x.name == y.name):
                continue
            return None
        out.append(ints(x) == ints(y))
    return out


def prod(I, dims):
    n = 1
    for d in dims:
        n = I.binop('Mult', n, mk(d.size, 'int') if isinstance(d, Block) else d)
    return n


def at_reshape(I, x, new):
    """row-major reshape that only merges / splits the leading (batch) axes or inserts unit axes"""
    new = list(I.domain(new))
    old = list(x.shape)
    # resolve one -1
    neg = [i for i, d in enumerate(new) if isinstance(d, int) and d == -1]
    if len(neg) > 1:
        raise I.exc('ValueError', 'can only specify one unknown dimension')
    o, n = list(old), list(new)
    for q in (o, n):
        while len(q) > 1 and isinstance(q[-1], int) and q[-1] == 1:
            q.pop()
    # peel equal trailing dims
    tail = []
    while o and n:
        a, b = o[-1], n[-1]
        if isinstance(b, int) and b == -1:
            break
        if isinstance(a, Block) or isinstance(b, Block):
            if isinstance(a, Block) and isinstance(b, Block) and a.name == b.name:
                o.pop(); n.pop()
                continue
            break
        if I.entails(ints(a) == ints(b)):
            o.pop(); n.pop()
            continue
        break
    o1 = [d for d in o if not (isinstance(d, int) and d == 1)]
    n1 = [d for d in n if not (isinstance(d, int) and d in (1,))]
    if neg:
        rest = [d for d in n1 if not (isinstance(d, int) and d == -1)]
        if rest:
            raise Unsupported('reshape %r -> %r' % (old, new))
        val = prod(I, o1)
        new[neg[0]] = val
        return AT(x.e, new, x.cx, x.origin)
    po, pn = prod(I, o1), prod(I, n1)
    if not I.entails(ints(po) == ints(pn)):
        if I.decide(ints(prod(I, old)) != ints(prod(I, new))):
            raise I.exc('ValueError', 'cannot reshape %r into %r' % (old, new))
        raise Unsupported('reshape %r -> %r' % (old, new))
    if len(o1) > 1 and len(n1) > 1 and dims_eq(I, o1, n1) is None:
        raise Unsupported('reshape %r -> %r' % (old, new))
    return AT(x.e, new, x.cx, x.origin)


class AStack:
    """stack of a (possibly symbolic) family of tensors along a new axis"""

    def __init__(self, segs, shape, axis_from_end):
        self.segs, self.shape, self.axis = segs, tuple(shape), axis_from_end

    def getattr_(self, I, name):
        if name == 'shape':
            return self.shape
        if name == 'ndim':
            return I.length(self.shape)
        if name == 'reshape':
            return Native('reshape', lambda I, a, k: self.reshape(I, a[0] if len(a) == 1 and isinstance(a[0], (tuple, VList)) else tuple(a)))
        raise Unsupported('stack attribute ' + name)

    def reshape(self, I, new):
        r = at_reshape(I, AT(z3.Const('_', T), self.shape, False), new)
        t = dims_eq(I, r.shape[-self.axis:], self.shape[-self.axis:])
        if t is None or not all(I.entails(x) for x in t):
            raise Unsupported('reshape of the stacked axis')
        return AStack(self.segs, r.shape, self.axis)

    def __repr__(self):
        return 'AStack(%r, shape %r, axis -%d)' % (self.segs, list(self.shape), self.axis)

    def subst_(self, pairs, memo):
        from .loops import subst_items
        return AStack(subst_items(self.segs, pairs), subst_items(list(self.shape), pairs), self.axis)

    def mentions_(self, sym):
        from .loops import value_mentions
        return any(value_mentions(x, sym) for x in list(self.segs) + list(self.shape))


def norm_axis(I, dim, ndim_items, extra=1):
    """axis from the end (1 = last) of a new axis inserted at dim"""
    if isinstance(dim, int) and dim < 0:
        return -dim
    raise Unsupported('axis %r of a tensor of unknown rank' % (dim,))


class ABackend:
    """the backend contract for 1D transforms (time = last axis of the abstract tensor)"""

    def __init__(self, name, pos='pos'):
        self.name = name
        self.calls = 0
        self.log = []

    def __repr__(self):
        return '<backend contract>'

    def isinstance_(self, I, cls):
        return False

    def truth_(self, I):
        return True

    def getattr_(self, I, name):
        if name == 'name':
            return self.name
        f = getattr(self, 'p_' + name, None)
        if f is None:
            if name in getattr(I, 'backend_missing', ()):
                return MISSING
            raise Unsupported('backend primitive %s has no contract' % name)

        def call(I, a, k):
            self.calls += 1
            self.log.append(name)
            return f(I, *a, **k)
        return Native('backend.' + name, call)

    # ---- contracts
    def need(self, I, x, cx, what):
        if isinstance(x, Poison):
            raise Unsupported(x.why)
        if not isinstance(x, AT):
            raise I.exc('TypeError', '%s of a non-tensor %r' % (what, x))
        if x.cx is not cx:
            raise I.exc('TypeError', '%s: input should be %s' % (what, 'complex' if cx else 'real'))

    def p_input_checks(self, I, x):
        if not isinstance(x, AT):
            raise I.exc('TypeError', 'input')

    def p_shape(self, I, x):
        return x.shape

    def p_rfft(self, I, x):
        self.need(I, x, False, 'rfft')
        return AT(FFT(x.e), x.shape, True)

    def p_cfft(self, I, x):
        self.need(I, x, True, 'cfft')
        return AT(FFT(x.e), x.shape, True)

    def p_ifft(self, I, x):
        self.need(I, x, True, 'ifft')
        return AT(IFFT(x.e), x.shape, True)

    def p_irfft(self, I, x):
        self.need(I, x, True, 'irfft')
        return AT(RE(IFFT(x.e)), x.shape, False)

    def p_modulus(self, I, x):
        self.need(I, x, True, 'modulus')
        return AT(MOD(x.e), x.shape, False)

    def p_cdgmm(self, I, x, f):
        self.need(I, x, True, 'cdgmm')
        if not isinstance(f, AT):
            raise I.exc('TypeError', 'cdgmm filter')
        n = len(f.shape)
        c = dims_eq(I, x.shape[-n:], f.shape)
        if c is None:
            raise I.exc('RuntimeError', 'The inputs are not compatible for multiplication.')
        for t in c:
            if not I.decide(t):
                raise I.exc('RuntimeError', 'The inputs are not compatible for multiplication.')
        return AT(CD(x.e, f.e), x.shape, True)

    def p_subsample_fourier(self, I, x, k):
        self.need(I, x, True, 'subsample_fourier')
        ek = ints(k)
        if not I.decide(ek >= 1):
            raise I.exc('ValueError', 'subsampling factor')
        N = x.shape[-1]
        q, exact = I.fdivmod(N, k)
        if not exact and not I.entails(ints(I.binop('Mult', q, k)) == ints(N)):
            if I.decide(ints(N) % ek != 0):
                raise I.exc('ValueError', 'subsampling factor does not divide the length')
        return AT(sub(I, x.e, ek), x.shape[:-1] + (q,), True)

    def p_pad(self, I, x, pad_left, pad_right, mode='reflect'):
        self.need(I, x, False, 'pad')
        N = x.shape[-1]
        if mode != 'reflect':
            raise Unsupported('padding mode %r' % (mode,))
        if I.decide(z3.Or(ints(pad_left) >= ints(N), ints(pad_right) >= ints(N))):
            raise I.exc('ValueError', 'Indefinite padding size (larger than tensor).')
        if I.decide(z3.Or(ints(pad_left) < 0, ints(pad_right) < 0)):
            raise I.exc('ValueError', 'negative padding')
        return AT(PAD(x.e, ints(pad_left), ints(pad_right)),
                  x.shape[:-1] + (I.binop('Add', N, I.binop('Add', pad_left, pad_right)),), False)

    def p_unpad(self, I, x, i0, i1):
        if not isinstance(x, AT):
            raise I.exc('TypeError', 'unpad')
        N = ints(x.shape[-1])
        a, b = ints(i0), ints(i1)
        I.oblige('crop interval is nonempty and inside the padded signal', z3.And(a >= 0, a < b, b <= N))
        return AT(UNPAD(x.e, a, b), x.shape[:-1] + (mk(b - a, 'int'),), x.cx)

    def p_average_global(self, I, x):
        self.need(I, x, False, 'average_global')
        return AT(SUM(x.e), x.shape[:-1] + (1,), False)

    def p_reshape_input(self, I, x, signal_shape):
        return at_reshape(I, x, (-1, 1) + tuple(signal_shape))

    def p_reshape_output(self, I, x, batch_shape, n_kept_dims):
        return at_reshape(I, x, tuple(batch_shape) + tuple(I.getitem(x.shape, VSlice(I.unop('USub', n_kept_dims), None, None))))

    def p_stack(self, I, arrays, dim=None):
        items = I.domain(arrays)
        if dim is None:
            raise Unsupported('stack without axis')
        return stack_items(I, items, norm_axis(I, dim, None))


def stack_items(I, items, ax):
    """stack a symbolic list of tensors of equal shape; ax = position of the new axis counted from the end"""
    leaves = []
    from .builtins_model import collect_leaves
    collect_leaves(items, [], [], leaves)
    if not leaves:
        raise I.exc('ValueError', 'need at least one array to stack')
    first = leaves[0]
    s0 = first[2].shape
    if first[0] or first[1]:
        # the shape does not depend on which element comes first; there must be one
        from .loops import mentions
        if any(mentions(d, f.var) for f in first[0] for d in s0):
            raise Unsupported('stack without a fixed first element')
        if I.decide(ints(I.seg_count(items, 0)) <= 0):
            raise I.exc('ValueError', 'need at least one array to stack')
    for fors, guards, v in leaves:
        c = dims_eq(I, v.shape, s0)
        if c is None:
            raise I.exc('ValueError', 'all input arrays must have the same shape')
        if v.cx != first[2].cx:
            raise Unsupported('stack of mixed kinds')
        for t in c:
            ctx = I.context(t) + guards + [z3.And(f.lo <= f.var, f.var < f.hi) for f in fors]
            ok = smt.prove(ctx, t).ok
            if not ok:
                I.oblige('stacked coefficients have equal shapes', False, '%s' % (t,))
    if ax > len(s0) + 1 or any(isinstance(d, Block) for d in s0[len(s0) - (ax - 1):]):
        raise Unsupported('stack axis inside the batch block')
    n = I.seg_count(items, 0)
    cut = len(s0) - (ax - 1)
    return AStack(items, s0[:cut] + (n,) + s0[cut:], ax)
