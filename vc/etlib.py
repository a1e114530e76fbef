"""The array libraries at element level: numpy / jax.numpy / scipy.fft / torch / tensorflow functions on ET arrays."""
import z3
from fractions import Fraction
from . import smt
from .values import *
from .interp import MISSING
from .libs import nat
from .builtins_model import mktype, collect_leaves
from .npmodel import Token, NpVec, NpFn
from . import etensor as E
from .etensor import ET, Ax, Cx, CScalar, R0, R1, DTYPES, DT, elementwise, dt_name, fints, ints, reals, is_cx, facs_of, norm_fac, prod_of


def arg(a, k, pos, name, default=None):
    if len(a) > pos:
        return a[pos]
    for n in (name if isinstance(name, tuple) else (name,)):
        if n in k:
            return k[n]
    return default


def has_et(v, depth=0):
    if isinstance(v, ET):
        return True
    if depth > 4:
        return False
    if isinstance(v, (tuple, list)):
        return any(has_et(x, depth + 1) for x in v)
    if isinstance(v, VList):
        return has_et(v.items, depth + 1)
    if isinstance(v, For):
        return has_et(v.body, depth + 1)
    if isinstance(v, Cond):
        return any(has_et(b, depth + 1) for _, b in v.alts)
    if isinstance(v, VGen):
        return has_et(v.lst.items, depth + 1)
    if isinstance(v, SymSeq):
        return has_et(v.at(z3.Int('probe_seq')), depth + 1)
    return False


def over(mod, name, fn, fw=None, cls=NpFn):
    """fn applies when an argument is an ET; otherwise the model that was there before"""
    old = mod.attrs.get(name)

    def g(I, a, k):
        if any(has_et(x) for x in a) or any(has_et(x) for x in k.values()):
            return fn(I, a, k)
        if old is None:
            raise Unsupported('%s.%s' % (mod.name, name))
        if isinstance(old, (Token,)) and not hasattr(old, 'vcall'):
            raise Unsupported('%s.%s' % (mod.name, name))
        return I.call(old, a, k)
    mod.attrs[name] = NpFn('%s.%s' % (mod.name, name), g)


def plain(mod, name, fn):
    mod.attrs[name] = NpFn('%s.%s' % (mod.name, name), fn)


def as_fw(x, fw):
    if isinstance(x, ET) and x.fw != fw:
        return ET(x.axes, x.reader(), x.dt, fw, contig=x.contig, viewable=x.viewable)
    return x


def to_tensor(I, x, fw):
    if isinstance(x, ET):
        return as_fw(x, fw)
    if is_scalar(x):
        e = reals(x)
        return ET([], lambda ix: e, 'float32' if fw in ('torch', 'tensorflow') else 'float64', fw)
    raise Unsupported('array from %r' % (x,))


# ---------------------------------------------------------------- padding
def reflect(s, n):
    """reflection about the end samples; defined for -n <= s < 2n (n >= 2)"""
    return z3.If(s < 0, z3.If(-s <= n - 1, -s, s + 2 * n - 2), z3.If(s <= n - 1, s, z3.If(s <= 2 * n - 2, 2 * n - 2 - s, s - 2 * n + 2)))


def pad_axes(I, x, pads, mode, value=R0, limit='numpy'):
    """pads: list of (position, before, after)"""
    ax = list(x.axes)
    plan = {}
    starts, n = [], 0
    for a in x.axes:
        starts.append(n)
        n += 1 if isinstance(a, Block) else len(a)
    for pos, lo, hi in pads:
        if isinstance(lo, int) and lo == 0 and isinstance(hi, int) and hi == 0:
            continue
        a = ax[pos]
        if isinstance(a, Block):
            raise Unsupported('padding of batch axes')
        size = prod_of(I, a)
        for q in (lo, hi):
            if not I.entails(ints(q) >= 0) and I.decide(ints(q) < 0):
                if limit == 'torch' and mode == 'constant':
                    raise Unsupported('negative padding')
                raise E.shape_err(I, x, "index can't contain negative values")
        if mode == 'reflect':
            mx = ints(size) - 1 if limit in ('torch', 'tensorflow') else ints(size)
            for q in (lo, hi):
                if not I.entails(ints(q) <= mx):
                    if limit in ('torch', 'tensorflow'):
                        if I.decide(ints(q) > mx):
                            raise E.shape_err(I, x, 'Padding size should be less than the corresponding input dimension')
                    else:
                        raise Unsupported('reflection padding longer than the signal')
            if limit not in ('torch', 'tensorflow') and not I.entails(z3.Or(ints(size) >= 2, z3.And(ints(lo) == 0, ints(hi) == 0))):
                raise Unsupported('reflection of a single sample')
        plan[pos] = (ints(lo), ints(size), a)
        ax[pos] = Ax((I.binop('Add', size, I.binop('Add', lo, hi)),))
    rd = x.reader()

    def fn(ix):
        it = iter(ix)
        full, inside = [], []
        for k, a in enumerate(x.axes):
            if k in plan:
                lo, size, a = plan[k]
                t = next(it)
                s = t - lo
                if mode == 'reflect':
                    src = reflect(s, size)
                else:
                    inside.append(z3.And(s >= 0, s < size))
                    src = s
                full += E.unflat(src, a) if len(a) else []
            else:
                for _ in range(1 if isinstance(a, Block) else len(a)):
                    full.append(next(it))
        e = rd(full)
        return E.eif(z3.And(*inside), e, value) if inside else e
    return x.new(ax, fn)


def np_pad(fw, default_mode='constant'):
    def g(I, a, k):
        x = as_fw(a[0], fw)
        pads = arg(a, k, 1, ('pad_width', 'paddings'))
        mode = arg(a, k, 2, 'mode', default_mode)
        if not isinstance(mode, str):
            raise Unsupported('padding mode %r' % (mode,))
        if fw == 'tensorflow':
            mode = mode.lower()
        if mode not in ('constant', 'reflect'):
            raise Unsupported('padding mode %r' % (mode,))
        cv = k.get('constant_values', 0)
        items = I.domain(pads)
        if items and is_scalar(items[0]):
            raise Unsupported('flat padding list')
        axes = list(x.axes)
        total = I.length(pads)
        rank = I.length(x.shape_of(I))
        if not I.entails(ints(total) == ints(rank)):
            if is_concrete_items(items) and len(items) == 1 and fw != 'tensorflow':
                raise Unsupported('broadcast padding')
            if I.decide(ints(total) != ints(rank)):
                raise E.shape_err(I, x, 'padding list does not match the rank')
        out = []

        def zero(v):
            return I.entails(z3.And(ints(v[0]) == 0, ints(v[1]) == 0))

        def match(items, pos, step):
            """consume items (from one end) and the axes they pad; stops at a run of unknown length"""
            while items:
                it = items[0 if step > 0 else -1]
                if isinstance(it, For):
                    break
                p = pos[0 if step > 0 else -1]
                if isinstance(it, Rep):
                    if not zero(I.domain(it.v)) or not isinstance(axes[p], Block) or axes[p].name != it.block.name:
                        raise Unsupported('padding of batch axes')
                else:
                    v = I.domain(it)
                    if len(v) != 2:
                        raise I.exc('ValueError', 'malformed padding')
                    if isinstance(axes[p], Block):
                        if not I.entails(axes[p].rank == 1):
                            break
                        if not zero(v):
                            raise Unsupported('padding of batch axes')
                    out.append((p, v[0], v[1]))
                del items[0 if step > 0 else -1], pos[0 if step > 0 else -1]
        items, pos = list(items), list(range(len(axes)))
        match(items, pos, -1)
        match(items, pos, 1)
        for it in items:
            if not (isinstance(it, For) and len(it.body) == 1):
                raise Unsupported('padding list does not follow the axes')
            v = I.domain(it.body[0])
            if not zero(v):
                raise Unsupported('padding of batch axes')
        return pad_axes(I, x, out, mode, reals(cv), limit=fw)
    return g


def torch_pad(I, a, k):
    x = a[0]
    pads = I.domain(arg(a, k, 1, 'pad'))
    mode = arg(a, k, 2, 'mode', 'constant')
    value = arg(a, k, 3, 'value', None)
    if not isinstance(x, ET):
        raise I.exc('TypeError', 'pad of a non-tensor')
    if not isinstance(mode, str) or mode not in ('constant', 'reflect'):
        raise Unsupported('padding mode %r' % (mode,))
    if len(pads) % 2:
        raise I.exc('RuntimeError', 'Padding length must be divisible by 2')
    n = len(pads) // 2
    if mode == 'reflect':
        nb = len(x.axes)
        if any(isinstance(q, Block) for q in x.axes) and not all(I.entails(q.rank == 1) for q in x.axes if isinstance(q, Block)):
            raise Unsupported('reflection padding of a tensor of unknown rank')
        if nb not in (n + 1, n + 2):
            raise I.exc('NotImplementedError', 'reflect padding is not implemented for this rank')
        if value is not None:
            raise I.exc('ValueError', 'Padding mode "reflect" doesn\'t take in value argument')
    out = []
    for i in range(n):
        out.append((x.axis(I, -1 - i), pads[2 * i], pads[2 * i + 1]))
    return pad_axes(I, x, out, mode, R0 if value is None else reals(value), limit='torch')


# ---------------------------------------------------------------- stacking
def stack(fw):
    def g(I, a, k):
        seq = arg(a, k, 0, ('arrays', 'tensors', 'values'))
        d = arg(a, k, 1, ('axis', 'dim'), 0)
        items = I.domain(seq)
        ls = []
        collect_leaves(items, [], [], ls)
        if not ls:
            raise I.exc('ValueError' if fw != 'torch' else 'RuntimeError', 'need at least one array to stack')
        if not all(isinstance(v, ET) for _, _, v in ls):
            raise Unsupported('stack of non-arrays')
        t0 = ls[0][2]
        for fors, guards, v in ls[1:]:
            from .atensor import dims_eq
            c = dims_eq(I, v.shape_of(I), t0.shape_of(I))
            if c is None or any(not I.entails(t) and not I.decide(t) for t in c):
                raise E.shape_err(I, t0, 'all input arrays must have the same shape')
        n = I.seg_count(items, 0)
        p = t0.axis(I, d, extra=1)
        dt = t0.dt
        for _, _, v in ls[1:]:
            dt = E.join_dt(dt, v.dt)
        axes = t0.axes[:p] + [norm_fac((n,))[0]] + t0.axes[p:]
        fp = len(facs_of(t0.axes[:p]))
        one = isinstance(n, int) and n == 1
        if len(items) == 1 and isinstance(items[0], For) and len(items[0].body) == 1 and isinstance(items[0].body[0], ET):
            f = items[0]
            m = len(facs_of(t0.axes))
            rd = f.body[0].reader()

            def fn(ix):
                i = ix[fp] if not one else smt.iv(0)
                rest = list(ix[:fp]) + list(ix[fp + (0 if one else 1):])
                return E.subst_fn(rd, m, [(f.var, z3.simplify(i + f.lo))])(rest)
            return ET(axes, fn, dt, fw)
        if not is_concrete_items(items):
            raise Unsupported('stack of a symbolic list')
        rds = [E.broadcast_reader(I, v, t0) for v in items]

        def fn(ix):
            if one:
                return rds[0](list(ix))
            rest = list(ix[:fp]) + list(ix[fp + 1:])
            r = rds[-1](rest)
            for j in range(len(rds) - 2, -1, -1):
                r = E.eif(ix[fp] == j, rds[j](rest), r)
            return r
        return ET(axes, fn, dt, fw)
    return g


def concat(fw, old=None):
    def g(I, a, k):
        seq = arg(a, k, 0, ('arrays', 'tensors', 'values'))
        d = arg(a, k, 1, ('axis', 'dim'), 0)
        items = I.domain(seq)
        if not is_concrete_items(items) or not all(isinstance(v, ET) for v in items):
            raise Unsupported('concatenation of %r' % (items,))
        t0 = items[0]
        p = t0.axis(I, d)
        fp = len(facs_of(t0.axes[:p]))
        sizes = [prod_of(I, v.axes[p]) for v in items]
        tot = 0
        for s in sizes:
            tot = I.binop('Add', tot, s)
        axes = list(t0.axes)
        axes[p] = norm_fac((tot,))[0]
        for v in items:
            if len(v.axes) != len(t0.axes):
                raise E.shape_err(I, t0, 'all the input array dimensions must match')
            for q, (x, y) in enumerate(zip(v.axes, t0.axes)):
                if q != p and not (isinstance(x, Block) and isinstance(y, Block) and x.name == y.name):
                    if isinstance(x, Block) or isinstance(y, Block) or not I.entails(ints(prod_of(I, x)) == ints(prod_of(I, y))):
                        raise E.shape_err(I, t0, 'all the input array dimensions must match')
        rds = [v.reader() for v in items]

        def fn(ix):
            pre, t, post = list(ix[:fp]), ix[fp], list(ix[fp + 1:])
            r = None
            off = [smt.iv(0)]
            for s in sizes:
                off.append(z3.simplify(off[-1] + ints(s)))
            for v, rd, s, o, e in list(zip(items, rds, sizes, off, off[1:]))[::-1]:
                ax = v.axes[p]
                val = rd(pre + (E.unflat(z3.simplify(t - o), ax) if len(ax) else []) + post)
                r = val if r is None else E.eif(t < e, val, r)
            return r
        dt = t0.dt
        for v in items[1:]:
            dt = E.join_dt(dt, v.dt)
        return ET(axes, fn, dt, fw)
    return g


# ---------------------------------------------------------------- creation
def filled(fw, value, default_dt):
    def g(I, a, k):
        sh = arg(a, k, 0, ('shape', 'size'))
        if is_scalar(sh) and len(a) > 1 and fw == 'torch':
            sh = tuple(x for x in a)
        elif is_scalar(sh):
            sh = (sh,)
        pos = 1 if fw != 'torch' else 99
        d = arg(a, k, pos, 'dtype')
        dt = default_dt if d is None else dt_name(I, d)
        v = value
        axes = norm_fac(I.domain(sh))
        c = Cx(v, R0) if is_cx(dt) and v is not None else v
        if c is None:
            n = len(facs_of(axes))
            j = z3.FreshConst(smt.Int, 'uninit')
            fs = [z3.Function('uninit%s_%s' % (p, j), *([smt.Int] * n + [smt.Real])) if n else (lambda p=p: z3.Real('uninit%s_%s' % (p, j))) for p in ('r', 'i')]
            fn = (lambda ix: Cx(fs[0](*ix), fs[1](*ix))) if is_cx(dt) else (lambda ix: fs[0](*ix))
        else:
            fn = lambda ix: c
        return ET(axes, fn, dt, fw)
    return g


def like(fw, value):
    def g(I, a, k):
        x = a[0]
        d = arg(a, k, 1, 'dtype')
        dt = x.dt if d is None else dt_name(I, d)
        return filled(fw, value, dt)(I, [x.shape_of(I)], {})
    return g


# ---------------------------------------------------------------- functional wrappers
def reduce_fn(op, fw):
    def g(I, a, k):
        x = as_fw(a[0], fw) if isinstance(a[0], ET) else a[0]
        if not isinstance(x, ET):
            raise Unsupported('%s of %r' % (op, x))
        ax = arg(a, k, 1, ('axis', 'dim'))
        keep = arg(a, k, 2 if fw in ('torch', 'tensorflow') else 99, ('keepdims', 'keepdim'), False)
        return x.reduce(I, op, ax, bool(keep))
    return g


def un(f, dt=None, fw=None):
    def g(I, a, k):
        x = arg(a, k, 0, ('x', 'input'))
        if not isinstance(x, ET):
            raise Unsupported('array function of %r' % (x,))
        r = elementwise(I, f, [x], dt=dt(x.dt) if dt else None)
        return as_fw(r, fw) if fw else r
    return g


def esqrt(e):
    if isinstance(e, Cx):
        raise Unsupported('square root of complex entries')
    return smt.sqrtf(e)


def fft_fn(inverse, nd, fw, old=None, dbl=False):
    """nd: 1, 2 or 'n'"""
    def g(I, a, k):
        x = a[0] if a else arg(a, k, 0, ('x', 'a', 'input'))
        k = {q: v for q, v in k.items() if q not in ('x', 'a', 'input', 'workers', 'name')}
        if not isinstance(x, ET):
            raise Unsupported('transform of %r' % (x,))
        x = as_fw(x, fw)
        if arg(a, k, 1, ('n', 's')) is not None or arg(a, k, 3, 'norm') is not None:
            raise Unsupported('transform with a length or normalisation argument')
        d = arg(a, k, 2, ('axis', 'dim', 'axes'))
        if d is None:
            d = {1: -1, 2: (-2, -1), 'n': None}[nd]
        if nd == 'n' and d is None:
            dims = list(range(len(x.axes)))
            if any(isinstance(q, Block) for q in x.axes):
                raise Unsupported('transform over batch axes')
        elif isinstance(d, (tuple, VList)):
            dims = [x.axis(I, q) for q in I.domain(d)]
        else:
            dims = [x.axis(I, d)]
        dt = 'complex128' if dbl else None
        return E.fft(I, x, dims, inverse, dt)
    return g


def tf_fft(inverse, nd):
    def g(I, a, k):
        x = a[0]
        if not isinstance(x, ET) or not is_cx(x.dt):
            raise I.exc('TypeError', 'tf.signal.fft needs a complex tensor')
        return E.fft(I, x, [x.axis(I, -j) for j in range(1, nd + 1)], inverse)
    return g


def split_fn(fw):
    def g(I, a, k):
        x = a[0]
        n = arg(a, k, 1, ('indices_or_sections', 'num_or_size_splits', 'split_size_or_sections', 'split_size'))
        d = arg(a, k, 2, ('axis', 'dim'), 0)
        p = x.axis(I, d)
        ax = x.axes[p]
        if len(ax) > 1 or not is_scalar(n):
            raise Unsupported('split of a merged axis')
        size = prod_of(I, ax)
        if fw == 'torch':
            if n != 1:
                raise Unsupported('torch.split into pieces of %r' % (n,))
        elif not I.entails(ints(n) == ints(size)):
            raise Unsupported('split into %r pieces of an axis of size %r' % (n, size))
        ix = tuple([Ellip] + [VSlice(None, None, None)] * (len(x.axes) - p - 1))

        def piece(i):
            return x.getitem_(I, (Ellip, VSlice(i, I.binop('Add', i, 1), None)) + (VSlice(None, None, None),) * (len(x.axes) - p - 1))
        if isinstance(size, int):
            items = [piece(i) for i in range(size)]
        else:
            v = I.freshvar('sp')
            I.qfacts.append((v, smt.iv(0), ints(size), z3.And(v >= 0, v < ints(size))))
            I.binders.append(v)
            n0 = len(I.pc)
            I.pc.append(z3.And(v >= 0, v < ints(size)))
            try:
                t = piece(Sym(v, 'int'))
            finally:
                del I.pc[n0:]
                I.binders.pop()
            items = [For(v, smt.iv(0), ints(size), [t])]
        return tuple(items) if fw == 'torch' else VList(items)
    return g


def moveaxis(I, a, k):
    x = a[0]
    s, d = arg(a, k, 1, 'source'), arg(a, k, 2, 'destination')
    s = [x.axis(I, q) for q in (I.domain(s) if isinstance(s, (tuple, VList)) else [s])]
    d = [x.axis(I, q) for q in (I.domain(d) if isinstance(d, (tuple, VList)) else [d])]
    n = len(x.axes)
    order = [q for q in range(n) if q not in s]
    for dst, src in sorted(zip(d, s)):
        order.insert(dst, src)
    return x.permute(I, order)


def swapaxes(I, a, k):
    x = a[0]
    p, q = x.axis(I, arg(a, k, 1, ('axis1', 'dim0'))), x.axis(I, arg(a, k, 2, ('axis2', 'dim1')))
    o = list(range(len(x.axes)))
    o[p], o[q] = o[q], o[p]
    return x.permute(I, o)


def matmul(I, a, b):
    """matrix products of small concrete inner size"""
    a, b = to_tensor(I, a, 'numpy'), to_tensor(I, b, 'numpy')
    if any(isinstance(q, Block) or len(q) > 1 for q in a.axes + b.axes):
        raise Unsupported('matrix product of merged axes')
    ka = a.axes[-1]
    kb = b.axes[-2] if len(b.axes) > 1 else b.axes[-1]
    na, nb = prod_of(I, ka), prod_of(I, kb)
    if I.decide(ints(na) != ints(nb)):
        raise I.exc('ValueError', 'shapes not aligned')
    ra, rb = a.reader(), b.reader()
    la = facs_of(a.axes[:-1])
    lb = b.axes[:-2] + b.axes[-1:] if len(b.axes) > 1 else []
    if len(a.axes) > 2 or len(b.axes) > 2:
        raise Unsupported('product of arrays of rank above 2')
    axes = a.axes[:-1] + lb

    def term(ia, ib, t):
        x = ra(list(ia) + ([t] if len(ka) else []))
        y = rb(([t] if len(kb) else []) + list(ib))
        return E.emul(x, y)

    def fn(ix):
        ia, ib = ix[:len(la)], ix[len(la):]
        if isinstance(na, int) and na <= 8:
            r = None
            for t in range(na):
                v = term(ia, ib, smt.iv(t))
                r = v if r is None else E.eadd(r, v)
            return r
        v = z3.FreshConst(smt.Int, 's')
        return E.emap(term(ia, ib, v), lambda t: E.esum(t, [v], [ints(na)]))
    dt = E.join_dt(a.dt, b.dt)
    r = ET(axes, fn, dt, 'numpy')
    return r if axes else r.as_scalar()


def bin_fn(op):
    def g(I, a, k):
        return I.binop(op, a[0], a[1])
    return g


def as_scalar_or(I, f, v):
    return f


def np_like(I, m, fw, fftm, scipy_fftm=None):
    """functions numpy and jax.numpy share"""
    over(m, 'abs', un(E.eabs, E.abs_dt, fw))
    over(m, 'absolute', un(E.eabs, E.abs_dt, fw))
    over(m, 'sqrt', un(esqrt, E.float_dt, fw))
    over(m, 'exp', un(E.eexp, E.float_dt, fw))
    over(m, 'cos', un(lambda e: smt.cosf(e), E.float_dt, fw))
    over(m, 'sin', un(lambda e: smt.sinf(e), E.float_dt, fw))
    over(m, 'log', un(lambda e: smt.logf(e), E.float_dt, fw))
    over(m, 'square', un(lambda e: E.emul(e, e), None, fw))
    over(m, 'real', lambda I, a, k: as_fw(a[0].part('re'), fw))
    over(m, 'imag', lambda I, a, k: as_fw(a[0].part('im'), fw))
    over(m, 'conj', un(lambda e: Cx(e.re, -e.im) if isinstance(e, Cx) else e, None, fw))
    over(m, 'arctan2', lambda I, a, k: elementwise(I, lambda x, y: smt.atan2f(x, y), a[:2], dt=E.float_dt(E.result_dt(a[:2]))))
    over(m, 'sum', reduce_fn('sum', fw))
    over(m, 'mean', reduce_fn('mean', fw))
    over(m, 'pad', np_pad(fw))
    over(m, 'stack', stack(fw))
    over(m, 'concatenate', concat(fw))
    over(m, 'split', split_fn(fw))
    over(m, 'array_split', split_fn(fw))
    over(m, 'moveaxis', moveaxis)
    over(m, 'swapaxes', swapaxes)
    over(m, 'transpose', lambda I, a, k: I.call(I.getattr(a[0], 'transpose'), ([arg(a, k, 1, 'axes')] if arg(a, k, 1, 'axes') is not None else [])))
    over(m, 'reshape', lambda I, a, k: a[0].reshape(I, arg(a, k, 1, ('shape', 'newshape'))))
    over(m, 'expand_dims', lambda I, a, k: a[0].expand_dims(I, arg(a, k, 1, 'axis')))
    over(m, 'squeeze', lambda I, a, k: a[0].squeeze(I, arg(a, k, 1, 'axis')))
    over(m, 'power', lambda I, a, k: I.binop('Pow', a[0], a[1]))
    over(m, 'multiply', bin_fn('Mult'))
    over(m, 'add', bin_fn('Add'))
    over(m, 'subtract', bin_fn('Sub'))
    over(m, 'divide', bin_fn('Div'))
    over(m, 'dot', lambda I, a, k: matmul(I, a[0], a[1]))
    over(m, 'matmul', lambda I, a, k: matmul(I, a[0], a[1]))
    over(m, 'iscomplexobj', lambda I, a, k: is_cx(a[0].dt))
    over(m, 'isrealobj', lambda I, a, k: not is_cx(a[0].dt))
    over(m, 'ndim', lambda I, a, k: I.length(a[0].shape_of(I)))
    over(m, 'shape', lambda I, a, k: a[0].shape_of(I))
    for n in ('array', 'asarray', 'ascontiguousarray'):
        over(m, n, lambda I, a, k: asarray(I, a, k, fw))
    plain(m, 'zeros', filled(fw, R0, 'float64' if fw == 'numpy' else 'float32'))
    plain(m, 'ones', filled(fw, R1, 'float64' if fw == 'numpy' else 'float32'))
    plain(m, 'empty', filled(fw, None, 'float64' if fw == 'numpy' else 'float32'))
    plain(m, 'zeros_like', like(fw, R0))
    plain(m, 'ones_like', like(fw, R1))
    plain(m, 'empty_like', like(fw, None))
    for n in ('float32', 'float64', 'complex64', 'complex128', 'int32', 'int64'):
        m.attrs[n] = DTYPES[n]
    dbl = fw == 'numpy'
    for n, inv, nd in (('fft', False, 1), ('ifft', True, 1), ('fft2', False, 2), ('ifft2', True, 2), ('fftn', False, 'n'), ('ifftn', True, 'n')):
        over(fftm, n, fft_fn(inv, nd, fw, dbl=dbl))
        if scipy_fftm is not None:
            over(scipy_fftm, n, fft_fn(inv, nd, fw))
    for mod in (fftm, scipy_fftm) if scipy_fftm is not None else (fftm,):
        over(mod, 'ifftshift', shift_fn(True))
        over(mod, 'fftshift', shift_fn(False))


def shift_fn(inverse):
    """fftshift: out[i] = in[(i - n//2) mod n]; ifftshift: out[i] = in[(i + n//2) mod n]"""
    def g(I, a, k):
        x = a[0]
        d = arg(a, k, 1, 'axes')
        if d is None:
            dims = list(range(len(x.axes)))
        elif isinstance(d, (tuple, VList)):
            dims = [x.axis(I, q) for q in I.domain(d)]
        else:
            dims = [x.axis(I, d)]
        if any(isinstance(x.axes[q], Block) or len(x.axes[q]) > 1 for q in dims):
            raise Unsupported('shift of merged axes')
        rd = x.reader()
        starts, n = [], 0
        for q in x.axes:
            starts.append(n)
            n += 1 if isinstance(q, Block) else len(q)

        def fn(ix):
            o = list(ix)
            for q in dims:
                if len(x.axes[q]) == 0:
                    continue
                m = fints(x.axes[q][0])
                h = m / 2
                i = ix[starts[q]]
                o[starts[q]] = z3.If(i + h >= m, i + h - m, i + h) if inverse else z3.If(i - h < 0, i - h + m, i - h)
            return rd(o)
        return x.new(x.axes, fn)
    return g


def asarray(I, a, k, fw):
    x = a[0]
    d = arg(a, k, 1, 'dtype')
    if isinstance(x, ET):
        r = as_fw(x.copy(), fw)
        return r if d is None else r.cast(I, dt_name(I, d))
    if isinstance(x, (tuple, VList)):
        items = I.domain(x)
        if is_concrete_items(items) and all(isinstance(v, ET) or is_scalar(v) or isinstance(v, (tuple, VList)) for v in items):
            parts = [v if isinstance(v, ET) else (to_tensor(I, v, fw) if is_scalar(v) else asarray(I, [v], {}, fw)) for v in items]
            r = stack(fw)(I, [VList(parts)], {'axis': 0})
            return r if d is None else r.cast(I, dt_name(I, d))
        r = stack(fw)(I, [x], {'axis': 0})
        return r if d is None else r.cast(I, dt_name(I, d))
    if is_scalar(x):
        return x
    raise Unsupported('array of %r' % (x,))


# ---------------------------------------------------------------- torch
def torch_attr(I, t, name, N, shp):
    if name in ('dim', 'ndimension'):
        return N(lambda I, a, k: I.length(t.shape_of(I)))
    if name == 'size':
        return N(lambda I, a, k: t.shape_of(I) if not a and not k else I.getitem(t.shape_of(I), arg(a, k, 0, 'dim')))
    if name in ('nelement', 'numel'):
        return N(lambda I, a, k: prod_of(I, t.facs))
    if name == 'is_contiguous':
        return N(lambda I, a, k: t.contig)
    if name == 'contiguous':
        return N(lambda I, a, k: t if t.contig else t.copy())
    if name == 'clone':
        return N(lambda I, a, k: t.copy())
    if name == 'detach':
        return N(lambda I, a, k: t)
    if name == 'view':
        return N(lambda I, a, k: t.reshape(I, shp(a), view=True))
    if name == 'view_as':
        return N(lambda I, a, k: t.reshape(I, a[0].shape_of(I), view=True))
    if name == 'unsqueeze':
        return N(lambda I, a, k: t.expand_dims(I, arg(a, k, 0, 'dim')))
    if name in ('mul', 'div', 'add', 'sub', 'true_divide', 'pow', 'multiply', 'divide'):
        op = {'mul': 'Mult', 'multiply': 'Mult', 'div': 'Div', 'true_divide': 'Div', 'divide': 'Div', 'add': 'Add', 'sub': 'Sub', 'pow': 'Pow'}[name]
        return N(lambda I, a, k: I.binop(op, t, a[0]))
    if name in ('mul_', 'div_', 'add_', 'sub_'):
        op = {'mul_': 'Mult', 'div_': 'Div', 'add_': 'Add', 'sub_': 'Sub'}[name]
        return N(lambda I, a, k: t.inplace_(I, op, a[0]))
    if name in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
        op = {'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'gt': 'Gt', 'le': 'LtE', 'ge': 'GtE'}[name]
        return N(lambda I, a, k: t.compare_(I, op, a[0], False))
    if name == 'sqrt':
        return N(lambda I, a, k: elementwise(I, esqrt, [t]))
    if name == 'abs':
        return N(lambda I, a, k: elementwise(I, E.eabs, [t], dt=E.abs_dt(t.dt)))
    if name == 'square':
        return N(lambda I, a, k: elementwise(I, lambda e: E.emul(e, e), [t]))
    if name == 'masked_fill_':
        def mf(I, a, k):
            t.masked_assign(I, a[0], a[1])
            return t
        return N(mf)
    if name == 'masked_fill':
        def mf2(I, a, k):
            r = t.copy()
            r.masked_assign(I, a[0], a[1])
            return r
        return N(mf2)
    if name == 'zero_':
        def z(I, a, k):
            t.assign(I, 0)
            return t
        return N(z)
    if name in ('copy_',):
        def cp(I, a, k):
            t.assign(I, a[0])
            return t
        return N(cp)
    if name == 'expand_as':
        def ea(I, a, k):
            o = a[0]
            E.check_broadcast_to(I, t, o)
            rd = E.broadcast_reader(I, t, o)
            return ET(o.axes, rd, t.dt, 'torch', contig=False, viewable=False)
        return N(ea)
    if name == 'new':
        return N(lambda I, a, k: filled('torch', None, t.dt)(I, [shp(a)], {}))
    if name in ('new_zeros', 'new_empty', 'new_ones'):
        v = {'new_zeros': R0, 'new_empty': None, 'new_ones': R1}[name]
        return N(lambda I, a, k: filled('torch', v, t.dt)(I, [shp(a)], {q: w for q, w in k.items() if q == 'dtype'}))
    if name == 'device':
        return device(I)
    if name == 'layout':
        return Token('torch.strided')
    if name == 'is_cuda':
        return False
    if name == 'requires_grad':
        return False
    if name == 'transpose':
        return N(lambda I, a, k: swapaxes(I, [t] + list(a), k))
    if name == 'permute':
        return N(lambda I, a, k: t.permute(I, [t.axis(I, d) for d in I.domain(shp(a))]))
    if name in ('float', 'double'):
        return N(lambda I, a, k: t.cast(I, 'float32' if name == 'float' else 'float64'))
    if name == 'type':
        return N(lambda I, a, k: t.cast(I, dt_name(I, a[0])))
    if name == 'to':
        def to(I, a, k):
            if a and isinstance(a[0], DT):
                return t.cast(I, a[0].dt)
            return t
        return N(to)
    if name == 'numpy':
        return N(lambda I, a, k: as_fw(t, 'numpy'))
    return None


E.torch_attr = torch_attr
E.matmul = matmul


def device(I):
    d = getattr(I, '_cpu', None)
    if d is None:
        d = VObj(VClass('device', [I.object_cls]))
        d.attrs['type'] = 'cpu'
        d.attrs['index'] = None
        I._cpu = d
    return d


def view_as_complex(I, a, k):
    x = a[0]
    if not isinstance(x, ET):
        raise I.exc('TypeError', 'view_as_complex')
    ax = x.axes[-1]
    if isinstance(ax, Block) or not I.entails(ints(prod_of(I, ax)) == 2):
        raise I.exc('RuntimeError', 'Tensor must have a last dimension of size 2')
    rd = x.reader()
    return ET(x.axes[:-1], lambda ix: Cx(rd(list(ix) + [smt.iv(0)]), rd(list(ix) + [smt.iv(1)])),
              {'float32': 'complex64', 'float64': 'complex128'}[x.dt], 'torch', contig=x.contig, viewable=x.viewable)


def view_as_real(I, a, k):
    x = a[0]
    if not isinstance(x, ET) or not is_cx(x.dt):
        raise I.exc('RuntimeError', 'view_as_real is only supported for complex tensors')
    rd = x.reader()

    def fn(ix):
        e = rd(list(ix[:-1]))
        c = z3.simplify(ix[-1])
        return E.eif(c == 0, E.re_(e), E.im_(e))
    return ET(x.axes + [Ax((2,))], fn, {'complex64': 'float32', 'complex128': 'float64'}[x.dt], 'torch', contig=x.contig, viewable=x.viewable)


def torch_lib(I):
    t = I.natives['torch']
    t.attrs['__version__'] = '2.3.0'
    F = NatModule('torch.nn.functional')
    t.attrs['nn'].attrs['functional'] = F
    I.natives['torch.nn.functional'] = F
    plain(F, 'pad', torch_pad)
    fm = NatModule('torch.fft')
    t.attrs['fft'] = fm
    I.natives['torch.fft'] = fm
    for n, inv, nd in (('fft', False, 1), ('ifft', True, 1), ('fft2', False, 2), ('ifft2', True, 2), ('fftn', False, 'n'), ('ifftn', True, 'n')):
        plain(fm, n, fft_fn(inv, nd, 'torch'))
    plain(t, 'view_as_complex', view_as_complex)
    plain(t, 'view_as_real', view_as_real)
    plain(t, 'zeros', filled('torch', R0, 'float32'))
    plain(t, 'ones', filled('torch', R1, 'float32'))
    plain(t, 'empty', filled('torch', None, 'float32'))
    plain(t, 'zeros_like', like('torch', R0))
    plain(t, 'empty_like', like('torch', None))
    for n in ('float32', 'float64', 'complex64', 'complex128', 'int32', 'int64'):
        t.attrs[n] = DTYPES[n]
    t.attrs['strided'] = Token('torch.strided')
    over(t, 'stack', stack('torch'))
    over(t, 'cat', concat('torch'))
    over(t, 'concat', concat('torch'))
    over(t, 'split', split_fn('torch'))
    over(t, 'sum', reduce_fn('sum', 'torch'))
    over(t, 'mean', reduce_fn('mean', 'torch'))
    over(t, 'sqrt', un(esqrt))
    over(t, 'abs', un(E.eabs, E.abs_dt))
    over(t, 'transpose', swapaxes)
    over(t, 'reshape', lambda I, a, k: a[0].reshape(I, arg(a, k, 1, 'shape')))
    over(t, 'mul', bin_fn('Mult'))
    over(t, 'div', bin_fn('Div'))
    over(t, 'add', bin_fn('Add'))
    over(t, 'pow', bin_fn('Pow'))
    over(t, 'unsqueeze', lambda I, a, k: a[0].expand_dims(I, arg(a, k, 1, 'dim')))
    over(t, 'complex', lambda I, a, k: elementwise(I, lambda x, y: Cx(x, y), a[:2], dt='complex64'))
    over(t, 'real', lambda I, a, k: a[0].part('re'))
    over(t, 'imag', lambda I, a, k: a[0].part('im'))
    over(t, 'zeros_like', like('torch', R0))

    def where(I, a, k):
        def f(c, x, y):
            return E.eif(c, x, y)
        return elementwise(I, f, a[:3], dt=E.result_dt([x for x in a[1:3]]) or 'float32')
    over(t, 'where', where)

    def from_numpy(I, a, k):
        if not isinstance(a[0], ET):
            raise I.exc('TypeError', 'expected np.ndarray')
        x = a[0]
        return ET(x.axes, None, x.dt, 'torch', x.store, x.tobase, x.inv, x.contig, x.viewable)
    over(t, 'from_numpy', from_numpy)
    over(t, 'is_tensor', lambda I, a, k: isinstance(a[0], ET) and a[0].fw == 'torch')
    over(t, 'is_complex', lambda I, a, k: is_cx(a[0].dt))

    refl = VClass('ReflectionPad2d', [I.object_cls])

    def rinit(I, a, k):
        o, p = a[0], a[1]
        I.touch(o)
        p = I.domain(p) if isinstance(p, (tuple, VList)) else [p] * 4
        if len(p) != 4:
            raise I.exc('ValueError', 'padding')
        o.attrs['padding'] = tuple(p)

    def rcall(I, a, k):
        o, x = a
        return torch_pad(I, [x, tuple(o.attrs['padding'])], {'mode': 'reflect'})
    refl.ns['__init__'] = nat('ReflectionPad2d.__init__', rinit)
    refl.ns['__call__'] = nat('ReflectionPad2d.__call__', rcall)
    refl.ns['forward'] = refl.ns['__call__']
    t.attrs['nn'].attrs['ReflectionPad2d'] = refl


# ---------------------------------------------------------------- tensorflow
def tf_lib(I):
    t = I.natives['tensorflow']
    for n in ('float32', 'float64', 'complex64', 'complex128', 'int32', 'int64'):
        t.attrs[n] = DTYPES[n]
    over(t, 'stack', stack('tensorflow'))
    over(t, 'concat', concat('tensorflow'))
    over(t, 'split', split_fn('tensorflow'))
    over(t, 'abs', un(E.eabs, E.abs_dt, 'tensorflow'))
    over(t, 'sqrt', un(esqrt, None, 'tensorflow'))
    over(t, 'square', un(lambda e: E.emul(e, e), None, 'tensorflow'))
    over(t, 'pow', lambda I, a, k: I.binop('Pow', a[0], a[1]))
    over(t, 'multiply', bin_fn('Mult'))
    over(t, 'add', bin_fn('Add'))
    over(t, 'reshape', lambda I, a, k: a[0].reshape(I, arg(a, k, 1, 'shape')))
    over(t, 'pad', np_pad('tensorflow', 'CONSTANT'))
    over(t, 'reduce_sum', reduce_fn('sum', 'tensorflow'))
    over(t, 'reduce_mean', reduce_fn('mean', 'tensorflow'))
    over(t, 'expand_dims', lambda I, a, k: a[0].expand_dims(I, arg(a, k, 1, 'axis')))
    over(t, 'squeeze', lambda I, a, k: a[0].squeeze(I, arg(a, k, 1, 'axis')))
    over(t, 'cast', lambda I, a, k: as_fw(a[0].cast(I, dt_name(I, arg(a, k, 1, 'dtype'))), 'tensorflow'))
    over(t, 'complex', lambda I, a, k: elementwise(I, lambda x, y: Cx(x, y), a[:2], dt='complex64'))
    over(t, 'shape', lambda I, a, k: a[0].shape_of(I))
    over(t, 'transpose', lambda I, a, k: a[0].permute(I, [a[0].axis(I, d) for d in I.domain(arg(a, k, 1, 'perm'))]))
    over(t, 'convert_to_tensor', lambda I, a, k: as_fw(a[0], 'tensorflow'))
    m = NatModule('tensorflow.math')
    t.attrs['math'] = m
    I.natives['tensorflow.math'] = m
    over(m, 'real', lambda I, a, k: as_fw(a[0].part('re'), 'tensorflow'))
    over(m, 'imag', lambda I, a, k: as_fw(a[0].part('im'), 'tensorflow'))
    over(m, 'reduce_sum', reduce_fn('sum', 'tensorflow'))
    over(m, 'reduce_mean', reduce_fn('mean', 'tensorflow'))
    over(m, 'abs', un(E.eabs, E.abs_dt, 'tensorflow'))
    over(m, 'sqrt', un(esqrt, None, 'tensorflow'))
    over(m, 'pow', lambda I, a, k: I.binop('Pow', a[0], a[1]))
    s = NatModule('tensorflow.signal')
    t.attrs['signal'] = s
    I.natives['tensorflow.signal'] = s
    for n, nd in (('fft', 1), ('fft2d', 2), ('fft3d', 3)):
        plain(s, n, tf_fft(False, nd))
        plain(s, 'i' + n, tf_fft(True, nd))
    la = NatModule('tensorflow.linalg')
    t.attrs['linalg'] = la
    I.natives['tensorflow.linalg'] = la

    def mt(I, a, k):
        x = a[0]
        n = len(x.axes)
        o = list(range(n))
        o[-1], o[-2] = x.axis(I, -2), x.axis(I, -1)
        return x.permute(I, o)
    over(la, 'matrix_transpose', mt)


def install(I):
    np_ = I.natives['numpy']
    fm = np_.attrs.get('fft')
    if not isinstance(fm, NatModule):
        fm = NatModule('numpy.fft')
        np_.attrs['fft'] = fm
        I.natives['numpy.fft'] = fm
    sp = I.natives.get('scipy')
    if not isinstance(sp, NatModule):
        sp = NatModule('scipy')
        I.natives['scipy'] = sp
    sf = NatModule('scipy.fft')
    sp.attrs['fft'] = sf
    I.natives['scipy.fft'] = sf
    np_like(I, np_, 'numpy', fm, sf)
    from . import tables
    jm = I.natives['jax']
    jn = NatModule('jax.numpy', {n: v for n, v in np_.attrs.items() if n in ('pi', 'nan', 'newaxis')})
    jf = NatModule('jax.numpy.fft')
    jn.attrs['fft'] = jf
    jm.attrs['numpy'] = jn
    I.natives['jax.numpy'] = jn
    I.natives['jax.numpy.fft'] = jf
    jn.attrs['ndarray'] = mktype('ndarray', lambda v: False)
    np_like(I, jn, 'jax', jf)
    torch_lib(I)
    tf_lib(I)
