"""Element-level tensors: the value of every entry as a term over its indices, with the array operations the backends,
the PyTorch modulus and the filter banks use (assumed contracts of numpy / scipy / torch / tensorflow / jax).

An axis is a row-major list of factors (reshapes regroup or split factors, so no index arithmetic is lost); a Block factor
stands for an arbitrary number of leading axes seen as one flat index.  Sums and discrete Fourier transforms are terms with
bound variables (binders.atom); they are compared by comparing their bodies for an arbitrary value of the bound variable."""
import itertools
import z3
from fractions import Fraction
from . import smt
from . import ring
from .values import *
from .interp import MISSING
from .binders import atom, parts, is_atom
from .npmodel import Token, NpVec, NpFn

R0, R1 = z3.RealVal(0), z3.RealVal(1)


class Cx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return '(%s + i %s)' % (self.re, self.im)


def re_(e):
    return e.re if isinstance(e, Cx) else e


def im_(e):
    return e.im if isinstance(e, Cx) else R0


def emap(e, f):
    return Cx(f(e.re), f(e.im)) if isinstance(e, Cx) else f(e)


def eif(c, a, b):
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, Cx) or isinstance(b, Cx):
        return Cx(z3.If(c, re_(a), re_(b)), z3.If(c, im_(a), im_(b)))
    return z3.If(c, a, b)


def is0(e):
    return z3.is_rational_value(e) and e.as_fraction() == 0


def is1(e):
    return z3.is_rational_value(e) and e.as_fraction() == 1


def rmul(a, b):
    if is0(a) or is0(b):
        return R0
    if is1(a):
        return b
    if is1(b):
        return a
    return a * b


def radd(a, b):
    if is0(a):
        return b
    if is0(b):
        return a
    return a + b


def rsub(a, b):
    return a if is0(b) else a - b


def eadd(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        return Cx(radd(re_(a), re_(b)), radd(im_(a), im_(b)))
    return radd(a, b)


def esub(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        return Cx(rsub(re_(a), re_(b)), rsub(im_(a), im_(b)))
    return rsub(a, b)


def emul(a, b):
    if isinstance(a, Cx) and isinstance(b, Cx):
        return Cx(rsub(rmul(a.re, b.re), rmul(a.im, b.im)), radd(rmul(a.re, b.im), rmul(a.im, b.re)))
    if isinstance(a, Cx):
        return Cx(rmul(a.re, b), rmul(a.im, b))
    if isinstance(b, Cx):
        return Cx(rmul(a, b.re), rmul(a, b.im))
    return rmul(a, b)


def ediv(a, b):
    if isinstance(b, Cx):
        d = radd(rmul(b.re, b.re), rmul(b.im, b.im))
        return Cx(radd(rmul(re_(a), b.re), rmul(im_(a), b.im)) / d, rsub(rmul(im_(a), b.re), rmul(re_(a), b.im)) / d)
    if isinstance(a, Cx):
        return Cx(a.re / b, a.im / b)
    return a if is1(b) else a / b


def eabs(a):
    if isinstance(a, Cx):
        return smt.sqrtf(a.re * a.re + a.im * a.im)
    return z3.If(a < 0, -a, a)


def eexp(a):
    if isinstance(a, Cx):
        if is0(a.im):
            return Cx(smt.expf(a.re), R0)
        if is0(a.re):
            return Cx(smt.cosf(a.im), smt.sinf(a.im))
        e = smt.expf(a.re)
        return Cx(rmul(e, smt.cosf(a.im)), rmul(e, smt.sinf(a.im)))
    return smt.expf(a)


def epow(a, b):
    """b: real term or python int"""
    if isinstance(b, int):
        n = b
    else:
        v = smt.num(z3.simplify(b))
        n = int(v) if v is not None and Fraction(v).denominator == 1 else None
    if n is not None and 0 <= n <= 8:
        r = R1
        for _ in range(n):
            r = emul(r, a)
        return r
    if isinstance(a, Cx):
        raise Unsupported('power of a complex array')
    if n is not None and n < 0:
        return ediv(R1, epow(a, -n))
    return smt.powf(a, b)


def cpow(a, n):
    """integer power of a complex number; symbolic exponents for 1, -1, i, -i"""
    v = smt.num(z3.simplify(n))
    if v is not None and abs(v) <= 12:
        r = Cx(R1, R0)
        for _ in range(abs(int(v))):
            r = emul(r, a)
        return r if v >= 0 else ediv(Cx(R1, R0), r)
    re, im = smt.num(z3.simplify(a.re)), smt.num(z3.simplify(a.im))
    if re is None or im is None or sorted((abs(re), abs(im))) != [0, 1]:
        return None
    tab, c = [], complex(re, im)
    p = complex(1, 0)
    for _ in range(4):
        tab.append((round(p.real), round(p.imag)))
        p = p * c
    m = n % 4
    sel = lambda k: z3.If(m == 0, z3.RealVal(tab[0][k]), z3.If(m == 1, z3.RealVal(tab[1][k]), z3.If(m == 2, z3.RealVal(tab[2][k]), z3.RealVal(tab[3][k]))))
    return Cx(sel(0), sel(1))


class CScalar:
    """python complex number"""

    def __init__(self, re, im):
        self.v = Cx(reals(re), reals(im))

    def binop_(self, I, op, o, rev):
        if isinstance(o, CScalar) or is_scalar(o):
            b = o.v if isinstance(o, CScalar) else reals(o)
            a = self.v
            if rev:
                a, b = b, a
            if op == 'Pow' and not rev and is_scalar(o) and kind(o) == 'int':
                r = cpow(a, ints(o))
            else:
                r = BIN[op](a, b) if op in BIN else None
            if r is None:
                raise Unsupported('complex %s' % op)
            c = CScalar.__new__(CScalar)
            c.v = r if isinstance(r, Cx) else Cx(r, R0)
            return c
        return NotImplemented

    def unop_(self, I, op):
        c = CScalar.__new__(CScalar)
        c.v = emap(self.v, lambda x: -x) if op == 'USub' else self.v
        return c

    def getattr_(self, I, name):
        if name in ('real', 'imag'):
            return mk(self.v.re if name == 'real' else self.v.im, 'float')
        raise Unsupported('complex attribute ' + name)

    def subst_(self, pairs, memo):
        c = CScalar.__new__(CScalar)
        c.v = emap(self.v, lambda x: z3.substitute(x, *pairs))
        return c

    def __repr__(self):
        return 'CScalar%r' % (self.v,)

BIN = {'Add': eadd, 'Sub': esub, 'Mult': emul, 'Div': ediv}


class DT(Token):
    """element type; calling it casts"""

    def __init__(self, name):
        Token.__init__(self, 'dtype.' + name)
        self.dt = name

    def eq_(self, I, o):
        return isinstance(o, DT) and o.dt == self.dt

    def getattr_(self, I, name):
        if name == 'name':
            return self.dt
        if name in ('is_complex', 'is_floating_point'):
            return is_cx(self.dt) if name == 'is_complex' else self.dt.startswith('float')
        raise Unsupported('dtype attribute ' + name)

    def vcall(self, I, a, k):
        if isinstance(a[0], ET):
            return a[0].cast(I, self.dt)
        if is_scalar(a[0]):
            from .builtins_model import to_float
            return to_float(I, a[0])
        raise Unsupported('cast of %r' % (a[0],))

DTYPES = {n: DT(n) for n in ('float32', 'float64', 'complex64', 'complex128', 'int32', 'int64', 'bool')}


def is_cx(dt):
    return dt.startswith('complex')


def join_dt(a, b):
    order = ['bool', 'int32', 'int64', 'float32', 'float64', 'complex64', 'complex128']
    m = a if order.index(a) >= order.index(b) else b
    if m == 'complex64' and 'float64' in (a, b):
        return 'complex128'
    return m


def fsize(f):
    """size of a factor as a python scalar"""
    return mk(f.size, 'int') if isinstance(f, Block) else f


def fints(f):
    return f.size if isinstance(f, Block) else ints(f)


def prod_of(I, fs):
    n = 1
    for f in fs:
        n = I.binop('Mult', n, fsize(f))
    return n


class Ax(tuple):
    """an ordinary axis: tuple of factors"""


def norm_fac(dims):
    """axes list from a shape tuple"""
    out = []
    for d in dims:
        if isinstance(d, Block):
            out.append(d)
        elif isinstance(d, int) and not isinstance(d, bool) and d == 1:
            out.append(Ax())
        else:
            out.append(Ax((d,)))
    return out


def facs_of(axes):
    out = []
    for a in axes:
        out += [a] if isinstance(a, Block) else list(a)
    return out


# ---------------------------------------------------------------- storage
def subst_fn(fn, n, pairs):
    """fn with free constants replaced, indices untouched"""
    def g(idx):
        phs = [z3.FreshConst(smt.Int, 'ix') for _ in range(n)]
        e = fn(phs)
        return emap_any(e, lambda t: z3.substitute(z3.substitute(t, *pairs), *zip(phs, idx)) if phs else z3.substitute(t, *pairs))
    return g


def emap_any(e, f):
    return Cx(f(e.re), f(e.im)) if isinstance(e, Cx) else f(e)


class Write:
    def __init__(self, cond, val, pins, n):
        self.cond, self.val, self.pins, self.n = cond, val, pins, n

    def apply(self, b, cur):
        return eif(self.cond(b), self.val(b), cur)

    def subst(self, pairs):
        return Write(subst_fn(self.cond, self.n, pairs), subst_fn(self.val, self.n, pairs),
                     [(p, z3.substitute(e, *pairs)) for p, e in self.pins], self.n)


class WLoop:
    """the writes of every iteration lo <= var < hi; each pins var to an index of the entry written"""

    def __init__(self, var, lo, hi, writes):
        self.var, self.lo, self.hi, self.writes = var, lo, hi, writes

    def solve(self):
        sols = set()
        for w in flat_writes(self.writes):
            s = None
            for p, e in w.pins:
                c = z3.simplify(e - self.var)
                from .loops import occurs
                if not occurs(self.var, c):
                    s = (p, c.get_id(), c)
                    break
            if s is None:
                raise Unsupported('array writes in a loop that are not selected by the loop index')
            sols.add((s[0], s[1]))
            sol = s
        if len(sols) != 1:
            raise Unsupported('array writes of different iterations may overlap')
        return sol[0], sol[2]

    def apply(self, b, cur):
        p, c = self.solve()
        v = z3.simplify(b[p] - c)
        inside = z3.And(self.lo <= v, v < self.hi)
        r = cur
        for w in self.writes:
            r = w.subst([(self.var, v)]).apply(b, r)
        return eif(inside, r, cur)

    def subst(self, pairs):
        return WLoop(self.var, z3.substitute(self.lo, *pairs), z3.substitute(self.hi, *pairs), [w.subst(pairs) for w in self.writes])


class WAcc:
    """adds inc to the entries satisfying cond"""

    def __init__(self, cond, inc, pins, n):
        self.cond, self.inc, self.pins, self.n = cond, inc, pins, n

    def apply(self, b, cur):
        return eif(self.cond(b), eadd(cur, self.inc(b)), cur)

    def subst(self, pairs):
        return WAcc(subst_fn(self.cond, self.n, pairs), subst_fn(self.inc, self.n, pairs),
                    [(p, z3.substitute(e, *pairs)) for p, e in self.pins], self.n)


def has_decl(e, names):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().name() in names:
            return True
        st.extend(x.children())
    return False


def accumulation(w, prior):
    """a write of (what was there) + inc, as an accumulation; None if it is something else"""
    if isinstance(w, WAcc):
        return w
    if not isinstance(w, Write):
        return None

    def inc(b):
        b = list(b)
        for p, e in w.pins:
            b[p] = e
        return emap2(esub(w.val(b), prior.apply(b, None)))
    bs = [z3.FreshConst(smt.Int, 'b') for _ in range(w.n)]
    t = inc(bs)
    for x in ((t.re, t.im) if isinstance(t, Cx) else (t,)):
        if has_decl(x, prior.names()):
            return None
    return WAcc(w.cond, inc, w.pins, w.n)


def emap2(e):
    """simplified to a sum of monomials"""
    return emap_any(e, lambda x: z3.simplify(x, som=True))


def flat_writes(ws):
    for w in ws:
        if isinstance(w, WLoop):
            yield from flat_writes(w.writes)
        else:
            yield w


class WPrior:
    """whatever earlier iterations left in the array"""
    _n = [0]

    def __init__(self, var, cx):
        WPrior._n[0] += 1
        self.var, self.cx, self.k = var, cx, WPrior._n[0]

    def apply(self, b, cur):
        def f(part):
            return z3.Function('prior%s!%d' % (part, self.k), *([smt.Int] * (len(b) + 1) + [smt.Real]))(self.var, *b)
        return Cx(f('re'), f('im')) if self.cx else f('')

    def names(self):
        return {'prior%s!%d' % (p, self.k) for p in ('', 're', 'im')}

    def subst(self, pairs):
        return self


class Store(Mut):
    """memory of an array: initial contents and the writes made since"""
    mutable_ = True

    def __init__(self, facs, fn, dt):
        super().__init__()
        self.facs, self.init, self.dt = list(facs), fn, dt
        self.log = []
        self.owner = None       # label used by the frame obligations

    def snapshot(self):
        return list(self.log)

    def restore(self, s):
        self.log = list(s)

    def reader(self):
        log = list(self.log)
        init = self.init
        if not log:
            return init

        memo = {}

        def at(b, k):
            if k == 0:
                return init(b)
            w = log[k - 1]
            if isinstance(w, Write):
                c = w.cond(b)
                if z3.is_true(c if z3.is_const(c) else z3.simplify(c)):
                    return w.val(b)
            return w.apply(b, at(b, k - 1))

        def rd(b):
            key = tuple(x.get_id() for x in b)
            if key not in memo:
                memo[key] = (at(b, len(log)), list(b))
            return memo[key][0]
        return rd

    def havoc_state(self, I, init, var):
        return list(init) + [WPrior(var, is_cx(self.dt))]

    def loop_commit(self, I, c, results, var, lo, hi):
        pre = list(c.init) + [c.placeholder[-1]]
        if len(results) != 1:
            raise Unsupported('conditional array writes in a loop')
        g, after, r = results[0]
        if not (len(after) >= len(pre) and all(x is y for x, y in zip(after, pre))):
            raise Unsupported('loop rewrites the history of an array')
        new = list(after[len(pre):])
        if r.guards:
            raise Unsupported('guarded array writes in a loop')
        if not new:
            self.log = list(c.init)
            return
        if len(new) == 1:
            w = accumulation(new[0], c.placeholder[-1])
            if w is not None:
                new = [w]
        w = WLoop(var, lo, hi, new)
        try:
            w.solve()
        except Unsupported:
            w = self.summed(new, var, lo, hi)
            if w is None:
                raise
        self.log = list(c.init) + [w]

    def summed(self, new, var, lo, hi):
        """iterations that accumulate into the same entries: the increments add up"""
        if len(new) != 1 or not isinstance(new[0], WAcc):
            return None
        w = new[0]
        from .loops import occurs
        bs = [z3.FreshConst(smt.Int, 'b') for _ in range(w.n)]
        if occurs(var, w.cond(bs)) or any(occurs(var, e) for _, e in w.pins):
            return None
        n = z3.simplify(hi - lo)
        n = z3.If(n >= 0, n, smt.iv(0))

        def inc(b):
            v = z3.FreshConst(smt.Int, 'v')
            return emap_any(w.inc(b), lambda t: esum(z3.simplify(z3.substitute(t, (var, z3.simplify(lo + v)))), [v], [z3.simplify(n)]))
        return WAcc(w.cond, inc, w.pins, w.n)

    def __repr__(self):
        return 'Store(%s)' % (self.owner or 'array')


class ET:
    """array: axes over factors, read through `rd` from its storage"""

    def __init__(self, axes, fn, dt, fw='numpy', store=None, tobase=None, inv=None, contig=True, viewable=True, sym=None):
        self.axes, self.dt, self.fw = list(axes), dt, fw
        self.contig, self.viewable = contig, viewable
        if store is None:
            store = Store(facs_of(self.axes), fn, dt)
            tobase = lambda ix: ix
            inv = lambda b: (z3.BoolVal(True), b)
            pins = ()
        self.store, self.tobase, self.inv = store, tobase, inv
        self.pins = getattr(self, 'pins', ())

    # ---- reading
    def reader(self):
        rd, tb = self.store.reader(), self.tobase
        return lambda ix: rd(tb(ix))

    @property
    def facs(self):
        return facs_of(self.axes)

    @property
    def shape(self):
        return tuple(self._shape)

    def __repr__(self):
        return 'ET(%s %s %s)' % (self.fw, self.dt, self.axes)

    def shape_of(self, I):
        return tuple(a if isinstance(a, Block) else prod_of(I, a) for a in self.axes)

    def new(self, axes, fn, dt=None, contig=True, viewable=True):
        return ET(axes, fn, dt or self.dt, self.fw, contig=contig, viewable=viewable)

    def view(self, axes, fwd, inv, pins=(), contig=None, viewable=None):
        """array sharing storage: fwd maps its indices to mine, inv maps mine to (condition, its)"""
        tb, iv = self.tobase, self.inv

        def inv2(b):
            c, v = iv(b)
            c2, w = inv(v)
            return z3.And(c, c2), w
        r = ET(axes, None, self.dt, self.fw, self.store, lambda ix: tb(fwd(ix)), inv2,
               self.contig if contig is None else contig, self.viewable if viewable is None else viewable)
        # pins: (base factor position, index term) fixed by integer subscripts
        r.pins = tuple(self.pins) + tuple(pins)
        return r

    # ---- interpreter protocol
    def isinstance_(self, I, cls):
        nd = I.natives['numpy'].attrs.get('ndarray')
        if cls is nd:
            return self.fw == 'numpy'
        j = I.natives.get('jax.numpy')
        if j is not None and cls is j.attrs.get('ndarray'):
            return self.fw == 'jax'
        return cls is getattr(I, 'tensor_cls', None)

    def len_(self, I):
        return I.getitem(self.shape_of(I), 0)

    def truth_(self, I):
        raise Unsupported('truth of an array')

    def eq_(self, I, o):
        if o is None or isinstance(o, str):
            return False
        raise Unsupported('== of arrays in a condition')

    def is_(self, I, o):
        return self is o

    def subst_(self, pairs, memo):
        from .loops import subst_items, subst_value
        if not self.mentions_any(pairs):
            return self
        axes = [subst_value(a, pairs) if isinstance(a, Block) else Ax(subst_items(list(a), pairs)) for a in self.axes]
        return ET(axes, subst_fn(self.reader(), len(self.facs), pairs), self.dt, self.fw, contig=self.contig, viewable=self.viewable)

    def probe(self):
        if not hasattr(self, '_probe') or self._probe[0] != len(self.store.log):
            phs = [z3.FreshConst(smt.Int, 'pr') for _ in self.facs]
            self._probe = (len(self.store.log), self.reader()(phs))
        return self._probe[1]

    def mentions_any(self, pairs):
        return any(self.mentions_(a) for a, _ in pairs)

    def mentions_(self, sym):
        from .loops import occurs, value_mentions
        if any(value_mentions(f, sym) for f in self.facs if not isinstance(f, Block)):
            return True
        e = self.probe()
        return occurs(sym, re_(e)) or occurs(sym, im_(e))

    def compare_(self, I, op, o, rev):
        if op in ('Is', 'IsNot', 'In', 'NotIn'):
            return NotImplemented
        if o is None or isinstance(o, (str, tuple, VList)):
            return NotImplemented
        F = {'Eq': lambda a, b: z3.And(re_(a) == re_(b), im_(a) == im_(b)) if isinstance(a, Cx) or isinstance(b, Cx) else a == b,
             'NotEq': lambda a, b: z3.Or(re_(a) != re_(b), im_(a) != im_(b)) if isinstance(a, Cx) or isinstance(b, Cx) else a != b,
             'Lt': lambda a, b: a < b, 'LtE': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b}[op]
        return elementwise(I, F, [o, self] if rev else [self, o], dt='bool')

    def binop_(self, I, op, o, rev):
        if not (isinstance(o, (ET, CScalar)) or is_scalar(o)):
            return NotImplemented
        ab = [o, self] if rev else [self, o]
        if op in BIN:
            dt = None
            if op == 'Div' and result_dt(ab).startswith('int'):
                dt = 'float64'
            return elementwise(I, BIN[op], ab, dt=dt)
        if op == 'Pow':
            if isinstance(o, ET) or rev:
                if rev and is_scalar(o):
                    return elementwise(I, lambda a, b: smt.powf(a, b), ab)
                raise Unsupported('power with array exponent')
            return elementwise(I, lambda a: epow(a, o if isinstance(o, int) and not isinstance(o, bool) else reals(o)), [self], extra=[o])
        if op == 'BitAnd' and isinstance(o, ET) and self.dt == o.dt == 'bool':
            return elementwise(I, lambda a, b: z3.And(a, b), ab, dt='bool')
        if op == 'BitOr' and isinstance(o, ET) and self.dt == o.dt == 'bool':
            return elementwise(I, lambda a, b: z3.Or(a, b), ab, dt='bool')
        if op == 'MatMult':
            return matmul(I, ab[0], ab[1])
        if op in ('Mod', 'FloorDiv') and is_scalar(o) and not rev and self.dt.startswith('int'):
            n = ints(o)
            def f(a):
                i = z3.ToInt(a)
                return z3.ToReal(i % n if op == 'Mod' else i / n)
            return elementwise(I, f, [self])
        raise Unsupported('array operation %s' % op)

    def unop_(self, I, op):
        if op == 'USub':
            return elementwise(I, lambda a: emap(a, lambda x: -x), [self])
        if op == 'UAdd':
            return self
        if op == 'Invert' and self.dt == 'bool':
            return elementwise(I, lambda a: z3.Not(a), [self], dt='bool')
        raise Unsupported('array operation %s' % op)

    def inplace_(self, I, op, o):
        if self.fw in ('jax', 'tensorflow'):
            return NotImplemented
        if not (isinstance(o, (ET, CScalar)) or is_scalar(o)):
            return NotImplemented
        v = I.binop(op, self, o)
        self.assign(I, v)
        return self

    def domain_(self, I):
        a = self.axes[0]
        if isinstance(a, Block) or len(a) > 1:
            raise Unsupported('iteration over an array of unknown rank')
        n = a[0] if a else 1
        if isinstance(n, int):
            return [self.getitem_(I, i) for i in range(n)]
        v = I.freshvar('it')
        return [For(v, smt.iv(0), ints(n), [self.getitem_(I, Sym(v, 'int'), unchecked=True)])]

    # ---- subscripts
    def norm_index(self, I, i):
        items = list(i) if isinstance(i, tuple) else [i]
        n = sum(1 for x in items if x is not None and not is_ell(x))
        if not any(is_ell(x) for x in items):
            items.append(Ellip)
        return items, n

    def getitem_(self, I, i, unchecked=False):
        if isinstance(i, ET):
            raise Unsupported('array subscript')
        items, n = self.norm_index(I, i)
        p = [k for k, x in enumerate(items) if is_ell(x)]
        if len(p) != 1:
            raise I.exc('IndexError', 'an index can only have a single ellipsis')
        left, right = items[:p[0]], items[p[0] + 1:]
        # (axis or None, index) pairs
        out = []        # new axes, with maps
        axes = list(self.axes)
        pos = 0
        acts = []       # ('new',) ('full', ax) ('int', ax, e) ('sl', ax, lo, hi)
        la, ra = 0, len(axes)
        nr = [x for x in right if x is not None]
        nl = [x for x in left if x is not None]
        if len(nl) + len(nr) > len(axes) and not any(isinstance(a, Block) for a in axes):
            raise I.exc('IndexError', 'too many indices for array')
        for x in left:
            if x is None:
                acts.append(('new',))
                continue
            if la >= ra or isinstance(axes[la], Block):
                if la < ra and isinstance(x, VSlice) and x.lo is None and x.hi is None and x.step is None and I.entails(axes[la].rank == 1):
                    acts.append(('full', axes[la]))
                    la += 1
                    continue
                raise Unsupported('subscript of a leading axis of unknown number')
            acts.append((axes[la], x))
            la += 1
        ra -= len(nr)
        if ra < la:
            raise Unsupported('subscript of a tensor of unknown rank')
        for a in axes[la:ra]:
            acts.append(('full', a))
        for x in right:
            if x is None:
                acts.append(('new',))
                continue
            if isinstance(axes[ra], Block):
                raise Unsupported('subscript of a leading axis of unknown number')
            acts.append((axes[ra], x))
            ra += 1
        newaxes, plan = [], []      # plan: per old factor: ('keep',) | ('const', e) | ('off', lo, size)
        contig = self.contig
        viewable = self.viewable
        reversed_ = False
        for act in acts:
            if act[0] == 'new':
                newaxes.append(Ax())
                continue
            if act[0] == 'full':
                newaxes.append(act[1])
                plan += [('keep',)] * (1 if isinstance(act[1], Block) else len(act[1]))
                continue
            ax, x = act
            size = prod_of(I, ax)
            if isinstance(x, VSlice):
                if x.step not in (None, 1):
                    if x.step == -1 and x.lo is None and x.hi is None and len(ax) <= 1:
                        newaxes.append(ax)
                        plan += [('rev', ints(size))] * len(ax)
                        contig = viewable = False
                        continue
                    raise Unsupported('strided slice of an array')
                if x.lo is None and x.hi is None:
                    newaxes.append(ax)
                    plan += [('keep',)] * len(ax)
                    continue
                lo, hi = I.slice_bounds(x, size)
                ln = I.binop('Sub', hi, lo)
                if not I.entails(ints(ln) >= 0):
                    ln = mk(z3.If(ints(ln) >= 0, ints(ln), smt.iv(0)), 'int')
                if isinstance(lo, int) and lo == 0 and I.entails(ints(ln) == ints(size)):
                    newaxes.append(ax)
                    plan += [('keep',)] * len(ax)
                    continue
                if len(ax) > 1:
                    raise Unsupported('slice of a merged axis')
                if isinstance(ln, int) and ln == 1:
                    newaxes.append(Ax())
                    plan += [('const', ints(lo))] * len(ax)
                else:
                    newaxes.append(Ax((ln,)))
                    plan += [('off', ints(lo), ints(ln))] * len(ax)
                contig = viewable = False
                continue
            if not (is_scalar(x) and kind(x) in ('int', 'bool')):
                raise Unsupported('array subscript %r' % (x,))
            e = ints(x)
            if not unchecked and not I.entails(z3.And(e >= 0, e < ints(size))):
                if I.decide(z3.Or(e >= ints(size), e < -ints(size))):
                    raise I.exc('IndexError', 'index %s is out of bounds for axis with size %s' % (e, size))
                if not I.decide(e >= 0):
                    e = z3.simplify(e + ints(size))
            if len(ax) == 0:
                pass
            elif len(ax) == 1:
                plan.append(('const', e))
            else:
                plan += [('const', c) for c in unflat(e, ax)]
            if self.axes and ax is not self.axes[0]:
                contig = False
        base = self.pos_map()
        pins = []
        for k, q in enumerate(plan):
            if q[0] == 'const' and base is not None:
                pins.append((base[k], q[1]))

        def fwd(ix):
            it = iter(ix)
            o = []
            for q in plan:
                if q[0] == 'keep':
                    o.append(next(it))
                elif q[0] == 'const':
                    o.append(q[1])
                elif q[0] == 'rev':
                    o.append(q[1] - 1 - next(it))
                else:
                    o.append(next(it) + q[1])
            return o

        def inv(b):
            c, v = [], []
            for q, y in zip(plan, b):
                if q[0] == 'keep':
                    v.append(y)
                elif q[0] == 'const':
                    c.append(y == q[1])
                elif q[0] == 'rev':
                    v.append(q[1] - 1 - y)
                else:
                    c.append(z3.And(y >= q[1], y < q[1] + q[2]))
                    v.append(y - q[1])
            return z3.And(*c) if c else z3.BoolVal(True), v
        # number of kept factors must match
        r = self.view(newaxes, fwd, inv, pins, contig, viewable)
        r.base_pos = None if base is None else [base[k] for k, q in enumerate(plan) if q[0] != 'const']
        if self.fw in ('numpy', 'jax') and not newaxes and is_scalar_index(items):
            e = r.reader()([])
            if isinstance(e, Cx):
                c = CScalar.__new__(CScalar)
                c.v = e
                return c
            if self.dt == 'bool':
                return Sym(e, 'bool')
            if self.dt.startswith('int'):
                return mk(z3.ToInt(e), 'int')
            return mk(e, 'float')
        return r

    def pos_map(self):
        """position in the storage of each of my factors, when still one to one"""
        bp = getattr(self, 'base_pos', 'own')
        if bp == 'own':
            return list(range(len(self.facs)))
        return bp

    def setitem_(self, I, i, v):
        if self.fw in ('jax', 'tensorflow'):
            raise I.exc('TypeError', 'item assignment is not supported by %s arrays' % self.fw)
        if isinstance(i, ET) and i.dt == 'bool':
            return self.masked_assign(I, i, v)
        t = self.getitem_any(I, i)
        t.assign(I, v)

    def getitem_any(self, I, i):
        fw, self.fw = self.fw, 'view'
        try:
            r = self.getitem_(I, i)
            r.fw = fw
            return r
        finally:
            self.fw = fw

    def assign(self, I, v):
        """overwrite all my entries with v (broadcast)"""
        I.touch(self.store)
        self.frame(I)
        if isinstance(v, ET):
            check_broadcast_to(I, v, self)
            rd = broadcast_reader(I, v, self)
        elif is_scalar(v):
            c = reals(v)
            rd = lambda ix: c
        elif isinstance(v, CScalar):
            rd = lambda ix, c=v.v: c
        else:
            raise Unsupported('assignment of %r into an array' % (v,))
        cx = is_cx(self.dt)
        iv = self.inv

        def val(b):
            e = rd(iv(b)[1])
            return (e if isinstance(e, Cx) else Cx(e, R0)) if cx else re_(e)
        self.store.log = self.store.log + [Write(lambda b: iv(b)[0], val, list(self.pins), len(self.store.facs))]

    def masked_assign(self, I, mask, v):
        I.touch(self.store)
        self.frame(I)
        check_broadcast_to(I, mask, self)
        md = broadcast_reader(I, mask, self)
        if isinstance(v, ET):
            raise Unsupported('masked assignment of an array')
        c = v.v if isinstance(v, CScalar) else reals(v)
        cx = is_cx(self.dt)
        iv = self.inv

        def cond(b):
            k, ix = iv(b)
            return z3.And(k, md(ix))

        def val(b):
            return (c if isinstance(c, Cx) else Cx(c, R0)) if cx else re_(c)
        self.store.log = self.store.log + [Write(cond, val, list(self.pins), len(self.store.facs))]

    def frame(self, I):
        if self.store.owner is not None:
            I.oblige('%s is not modified' % self.store.owner, False, 'in-place write')

    # ---- shape operations
    def reshape(self, I, new, view=False):
        new = [x for x in I.domain(new)] if not isinstance(new, (int, Sym)) else [new]
        if view and not (self.contig or self.viewable):
            raise I.exc('RuntimeError', 'view size is not compatible with input tensor')
        plan = regroup(I, self, new)
        axes, split = plan
        # split: for each old factor the list of new factors replacing it
        old = self.facs

        def fwd(ix):
            it = iter(ix)
            o = []
            for f, parts_ in split:
                if parts_ is None:
                    o.append(next(it))
                else:
                    e = None
                    for p in parts_:
                        j = next(it)
                        e = j if e is None else e * ints(p) + j
                    o.append(e)
            return o

        def inv(b):
            v = []
            for (f, parts_), y in zip(split, b):
                if parts_ is None:
                    v.append(y)
                else:
                    v += unflat(y, parts_)
            return z3.BoolVal(True), v
        if self.contig or self.viewable:
            r = self.view(axes, fwd, inv)
            bp = self.pos_map()
            if bp is None or any(p is not None for _, p in split):
                r.base_pos = None if any(p is not None for _, p in split) else bp
            else:
                r.base_pos = bp
            return r
        rd = self.reader()
        return self.new(axes, lambda ix: rd(fwd(ix)))

    def permute(self, I, order, contig=False):
        axes = [self.axes[k] for k in order]
        starts, n = [], 0
        for a in self.axes:
            starts.append(n)
            n += 1 if isinstance(a, Block) else len(a)
        src = []
        for k in order:
            a = self.axes[k]
            src += list(range(starts[k], starts[k] + (1 if isinstance(a, Block) else len(a))))
        # src[j] = old factor position of new factor j
        m = len(src)

        def fwd(ix):
            o = [None] * m
            for j, s in enumerate(src):
                o[s] = ix[j]
            return o

        def inv(b):
            return z3.BoolVal(True), [b[s] for s in src]
        triv = src == list(range(m))
        r = self.view(axes, fwd, inv, (), self.contig if triv else False, self.viewable if triv else False)
        bp = self.pos_map()
        r.base_pos = None if bp is None else [bp[s] for s in src]
        return r

    def axis(self, I, d, extra=0):
        """axis position of python index d"""
        if isinstance(d, Sym):
            d = I.try_concrete(d) if I.try_concrete(d) is not None else d
        if not isinstance(d, int):
            raise Unsupported('axis %r' % (d,))
        n = len(self.axes) + extra
        blocks = [k for k, a in enumerate(self.axes) if isinstance(a, Block)]
        if d < 0:
            if d < -n and not blocks:
                raise axis_err(I, self)
            if n + d < 0 or (blocks and n + d <= blocks[-1] and not (extra and n + d == blocks[-1] + 1)):
                raise Unsupported('axis %d of a tensor of unknown rank' % d)
            return n + d
        if blocks and d >= blocks[0]:
            if all(I.entails(self.axes[b].rank == 1) for b in blocks):
                pass
            else:
                raise Unsupported('axis %d of a tensor of unknown rank' % d)
        if d >= n:
            raise axis_err(I, self)
        return d

    def reduce(self, I, op, dims, keep=False):
        if dims is None:
            dims = list(range(len(self.axes)))
        else:
            if isinstance(dims, (tuple, VList)):
                dims = [self.axis(I, d) for d in I.domain(dims)]
            else:
                dims = [self.axis(I, dims)]
        if len(set(dims)) != len(dims):
            raise I.exc('ValueError', 'duplicate axis')
        axes, plan, sizes = [], [], []
        for k, a in enumerate(self.axes):
            fs = [a] if isinstance(a, Block) else list(a)
            if k in dims:
                if keep:
                    axes.append(Ax())
                plan += ['red'] * len(fs)
                sizes += [fints(f) for f in fs]
            else:
                axes.append(a)
                plan += ['keep'] * len(fs)
        rd = self.reader()

        def fn(ix):
            it = iter(ix)
            vs = [z3.FreshConst(smt.Int, 's') for _ in sizes]
            iv_ = iter(vs)
            full = [next(it) if p == 'keep' else next(iv_) for p in plan]
            e = rd(full)
            f = lambda t: esum(t, vs, sizes)
            e = emap(e, f)
            if op == 'mean':
                for s in sizes:
                    e = emap(e, lambda t, s=s: t / z3.ToReal(s))
            return e
        dt = self.dt
        if self.dt == 'bool':
            raise Unsupported('reduction of a boolean array')
        if op == 'mean' and dt.startswith('int'):
            dt = 'float64'
        if op == 'sum' and dt == 'int32':
            dt = 'int64'
        r = self.new(axes, fn, dt)
        if self.fw in ('numpy',) and not axes and not keep:
            return r.as_scalar()
        return r

    def as_scalar(self):
        e = self.reader()([])
        if isinstance(e, Cx):
            c = CScalar.__new__(CScalar)
            c.v = e
            return c
        if self.dt == 'bool':
            return mk(e, 'bool')
        if self.dt.startswith('int'):
            return mk(z3.ToInt(e), 'int')
        return mk(e, 'float')

    def expand_dims(self, I, d):
        p = self.axis(I, d, extra=1)
        axes = self.axes[:p] + [Ax()] + self.axes[p:]
        r = self.view(axes, lambda ix: ix, lambda b: (z3.BoolVal(True), b))
        r.base_pos = self.pos_map()
        return r

    def squeeze(self, I, d=None):
        if d is None:
            ks = [k for k, a in enumerate(self.axes) if not isinstance(a, Block) and len(a) == 0]
            for k, a in enumerate(self.axes):
                if k not in ks and (isinstance(a, Block) or not all(I.entails(fints(f) >= 2) for f in a)):
                    raise Unsupported('squeeze of axes of unknown size')
        else:
            ks = [self.axis(I, d)]
            a = self.axes[ks[0]]
            if isinstance(a, Block) or len(a):
                raise Unsupported('squeeze of an axis of unknown size')
        axes = [a for k, a in enumerate(self.axes) if k not in ks]
        r = self.view(axes, lambda ix: ix, lambda b: (z3.BoolVal(True), b))
        r.base_pos = self.pos_map()
        return r

    def cast(self, I, dt):
        rd = self.reader()
        if dt == self.dt:
            return self.new(self.axes, rd)
        if is_cx(dt) and self.dt != 'bool':
            f = lambda e: e if isinstance(e, Cx) else Cx(e, R0)
        elif self.dt == 'bool' and dt != 'bool':
            f = lambda e: z3.If(e, R1, R0)
        elif dt == 'bool':
            raise Unsupported('cast to booleans')
        elif dt.startswith('int') and not self.dt.startswith('int'):
            raise Unsupported('cast to integers')
        else:
            f = re_
        return self.new(self.axes, lambda ix: f(rd(ix)), dt, self.contig, self.viewable)

    def copy(self):
        rd = self.reader()
        return ET(self.axes, rd, self.dt, self.fw)

    def part(self, which):
        """view of the real / imaginary parts (as numpy / torch: shares storage; only reads are supported)"""
        rd = self.reader()
        if not is_cx(self.dt):
            if which == 're':
                return self
            return self.new(self.axes, lambda ix: R0)
        dt = {'complex64': 'float32', 'complex128': 'float64'}[self.dt]
        return self.new(self.axes, lambda ix: getattr(rd(ix), which), dt, contig=False, viewable=True)

    # ---- attributes
    def getattr_(self, I, name):
        N = lambda f: Native(name, f)

        def shp(a):
            return a[0] if len(a) == 1 and isinstance(a[0], (tuple, VList)) else tuple(a)

        if name == 'shape':
            return self.shape_of(I)
        if name == 'ndim':
            return I.length(self.shape_of(I))
        if name == 'dtype':
            return DTYPES[self.dt]
        if name in ('real', 'imag'):
            return self.part('re' if name == 'real' else 'im')
        if name == 'reshape':
            return N(lambda I, a, k: self.reshape(I, shp(a) if a else k.get('shape', k.get('newshape'))))
        if name in ('sum', 'mean'):
            def red(I, a, k):
                ax = a[0] if a else k.get('axis', k.get('dim'))
                keep = k.get('keepdims', k.get('keepdim', a[1] if len(a) > 1 and self.fw == 'torch' else False))
                return self.reduce(I, name, ax, bool(keep))
            return N(red)
        if name == 'T':
            return self.permute(I, list(range(len(self.axes)))[::-1])
        if name == 'size' and self.fw != 'torch':
            return prod_of(I, self.facs)
        if name == 'copy':
            return N(lambda I, a, k: self.copy())
        if name == 'astype':
            return N(lambda I, a, k: self.cast(I, dt_name(I, a[0] if a else k['dtype'])))
        if name == 'conj' or name == 'conjugate':
            return N(lambda I, a, k: elementwise(I, lambda e: Cx(e.re, -e.im) if isinstance(e, Cx) else e, [self]))
        if name == 'flatten' or name == 'ravel':
            return N(lambda I, a, k: self.reshape(I, (-1,)))
        if name == 'transpose' and self.fw != 'torch':
            def tr(I, a, k):
                o = shp(a)
                o = [self.axis(I, d) for d in I.domain(o)] if a else list(range(len(self.axes)))[::-1]
                return self.permute(I, o)
            return N(tr)
        if name == 'squeeze':
            return N(lambda I, a, k: self.squeeze(I, a[0] if a else k.get('dim', k.get('axis'))))
        if name == 'dot':
            return N(lambda I, a, k: matmul(I, self, a[0]))
        if name in ('max', 'min'):
            raise Unsupported('array.%s' % name)
        if self.fw == 'torch':
            r = torch_attr(I, self, name, N, shp)
            if r is not None:
                return r
        h = getattr(I, 'et_attr', None)
        if h is not None:
            r = h(I, self, name)
            if r is not None:
                return r
        return MISSING_ATTR(I, self, name)

    def setattr_(self, I, name, v):
        if name == 'real':
            # in-place replacement of the real part
            raise Unsupported('assignment to the real part of an array')
        if name in ('requires_grad', 'name'):
            return
        raise Unsupported('assignment to attribute %s of an array' % name)


KNOWN_MISSING = {'numpy': {'numpy', 'is_contiguous', 'contiguous', 'view_as', 'device', 'layout'}, 'torch': set(), 'tensorflow': {'reshape', 'sum', 'mean'},
                 'jax': set()}


def MISSING_ATTR(I, t, name):
    if name in KNOWN_MISSING.get(t.fw, ()):
        raise I.exc('AttributeError', '%s array has no attribute %s' % (t.fw, name))
    raise Unsupported('array attribute ' + name)


def is_ell(x):
    return x is Ellip or x is Ellipsis


def is_scalar_index(items):
    return all(is_ell(x) or is_scalar(x) for x in items)


def axis_err(I, t):
    if t.fw == 'torch':
        return I.exc('IndexError', 'Dimension out of range')
    return I.exc('ValueError', 'axis out of bounds')


def shape_err(I, t, msg):
    if t.fw == 'torch':
        return I.exc('RuntimeError', msg)
    if t.fw == 'tensorflow':
        return I.exc('InvalidArgumentError' if 'InvalidArgumentError' in I.exc_classes else 'Exception', msg)
    return I.exc('ValueError', msg)


def unflat(e, fs):
    """components of flat row-major index e over factor sizes fs"""
    out = []
    for k in range(len(fs) - 1, 0, -1):
        n = fints(fs[k])
        out.append(e % n)
        e = e / n
    out.append(e)
    return out[::-1]


def flat(ix, fs):
    e = None
    for j, f in zip(ix, fs):
        e = j if e is None else e * fints(f) + j
    return e if e is not None else smt.iv(0)


def regroup(I, t, new):
    """-> (new axes, [(old factor, None | list of new factors)])"""
    old = list(t.facs)
    new = list(new)
    neg = [i for i, d in enumerate(new) if isinstance(d, int) and not isinstance(d, bool) and d == -1]
    if len(neg) > 1:
        raise shape_err(I, t, 'can only specify one unknown dimension')

    def mismatch():
        if not neg:
            a, b = prod_of(I, old), 1
            for d in new:
                b = I.binop('Mult', b, fsize(d) if isinstance(d, Block) else d)
            if I.decide(ints(a) != ints(b)):
                raise shape_err(I, t, 'cannot reshape array of shape %r into %r' % (t.axes, new))
        raise Unsupported('reshape %r -> %r' % (t.axes, new))

    def one(d):
        return isinstance(d, int) and not isinstance(d, bool) and d == 1

    def same(a, b):
        if isinstance(a, Block) and isinstance(b, Block):
            return a.name == b.name
        return I.entails(fints(a) == fints(b))

    o = [(f, None) for f in old]
    # from the right up to the -1
    nlo = neg[0] + 1 if neg else 0
    right_axes, right_split = [], []
    n = new[nlo:]
    fs = list(old)

    rest_ax = []

    def eat(fs, n, right):
        axes, split = [], []
        pop = (lambda l: l.pop()) if right else (lambda l: l.pop(0))
        peek = (lambda l, k: l[len(l) - k:]) if right else (lambda l, k: l[:k])
        while n:
            d = n[-1] if right else n[0]
            if one(d):
                pop(n)
                axes.append(Ax())
                continue
            if not fs:
                if I.entails(fints(d) == 1):
                    pop(n)
                    axes.append(Ax())
                    continue
                mismatch()
            f = fs[-1] if right else fs[0]
            if same(f, d):
                pop(fs); pop(n)
                axes.append(d if isinstance(d, Block) else Ax((f,)))
                split.append((f, None))
                continue
            done = False
            if not isinstance(f, Block):
                for k in range(2, len(n) + 1):
                    ds = peek(n, k)
                    if any(isinstance(x, Block) for x in ds):
                        break
                    if I.entails(ints(prod_of(I, ds)) == fints(f)):
                        for _ in range(k):
                            pop(n)
                        pop(fs)
                        nz = [x for x in ds if not one(x)]
                        split.append((f, nz))
                        new_ax = [Ax() if one(x) else Ax((x,)) for x in ds]
                        axes += new_ax[::-1] if right else new_ax
                        done = True
                        break
            if done:
                continue
            for k in range(2, len(fs) + 1):
                gs = peek(fs, k)
                if isinstance(d, Block):
                    break
                if I.entails(ints(prod_of(I, gs)) == fints(d)):
                    for _ in range(k):
                        pop(fs)
                    pop(n)
                    axes.append(Ax(gs))
                    sp = [(g, None) for g in gs]
                    split += sp[::-1] if right else sp
                    done = True
                    break
            if done:
                continue
            if not isinstance(d, Block) and not isinstance(f, Block) and I.entails(fints(d) == 1):
                pop(n)
                axes.append(Ax())
                continue
            # divisors of the only factor left, the rest going to the -1
            if neg and len(fs) == 1 and not isinstance(f, Block) and not any(isinstance(x, Block) for x in n):
                q, exact = I.fdivmod(f, prod_of(I, n))
                if exact or I.entails(ints(I.binop('Mult', q, prod_of(I, n))) == ints(f)):
                    ds = n + [q] if not right else [q] + n
                    nz = [x for x in ds if not one(x)]
                    split.append((f, nz))
                    new_ax = [Ax() if one(x) else Ax((x,)) for x in n]
                    axes += new_ax[::-1] if right else new_ax
                    rest_ax.append(Ax() if one(q) else Ax((q,)))
                    del fs[:], n[:]
                    break
            mismatch()
        if right:
            axes.reverse(); split.reverse()
        return axes, split

    if neg:
        left = new[:neg[0]]
        rax, rsp = eat(fs, n, True)
        lax, lsp = eat(fs, left, False)
        ax = rest_ax[0] if rest_ax else Ax(fs)
        return lax + [ax] + rax, lsp + [(f, None) for f in fs] + rsp
    rax, rsp = eat(fs, n, True)
    for f in fs:
        if not I.entails(fints(f) == 1):
            mismatch()
    if fs:
        raise Unsupported('reshape dropping unit axes')
    return rax, rsp


# ---------------------------------------------------------------- elementwise
def result_dt(xs):
    dt = None
    for x in xs:
        if isinstance(x, ET):
            dt = x.dt if dt is None else join_dt(dt, x.dt)
    for x in xs:
        if isinstance(x, CScalar):
            dt = {'float32': 'complex64', 'float64': 'complex128', 'int64': 'complex128', 'int32': 'complex128', 'bool': 'complex128'}.get(dt, dt)
        elif kind(x) == 'float' and dt in ('int64', 'int32', 'bool'):
            dt = 'float64'
        elif kind(x) == 'int' and dt == 'bool':
            dt = 'int64'
    return dt


def result_fw(xs):
    fws = {x.fw for x in xs if isinstance(x, ET)}
    for f in ('tensorflow', 'torch', 'jax'):
        if f in fws:
            return f
    return 'numpy'


def pair_axes(I, a, b, err):
    """common axis of two axes of the same position"""
    if isinstance(a, Block) or isinstance(b, Block):
        if isinstance(a, Block) and isinstance(b, Block) and a.name == b.name:
            return a
        raise Unsupported('broadcast of a batch block against %r' % (b if isinstance(a, Block) else a,))
    if len(a) == 0:
        return b
    if len(b) == 0:
        return a
    if len(a) == len(b) and all(x is y or I.entails(fints(x) == fints(y)) for x, y in zip(a, b)):
        return a
    na, nb = ints(prod_of(I, a)), ints(prod_of(I, b))
    if I.entails(na == nb):
        return b if len(a) > len(b) else a
    if I.decide(na == nb):
        return b if len(a) > len(b) else a
    if I.decide(nb == 1):
        return ('stretch', 1, a)
    if I.decide(na == 1):
        return ('stretch', 0, b)
    raise err()


def drop_empty_blocks(I, axes):
    return [a for a in axes if not (isinstance(a, Block) and I.entails(a.rank == 0))]


def elementwise(I, f, xs, dt=None, extra=()):
    ets = [x for x in xs if isinstance(x, ET)]
    fw = result_fw(xs)
    if fw == 'tensorflow':
        # numpy operands are converted to the element type of the tensor (real to complex included, not conversely)
        tds = {x.dt for x in ets if x.fw == 'tensorflow'}
        td = max(tds, key=str)
        bad = any(is_cx(x.dt) and not is_cx(td) or x.dt.startswith('float') and td.startswith('int') for x in ets if x.fw != 'tensorflow')
        if dt is None:
            dt = td
        if len(tds) > 1 or bad:
            raise I.exc('InvalidArgumentError' if 'InvalidArgumentError' in I.exc_classes else 'TypeError', 'tensors of different element types')
    # blocks of rank 0 have one entry and no axis
    axs = [list(x.axes) for x in ets]

    def err():
        return shape_err(I, ets[0], 'operands could not be broadcast together')
    n = max(len(a) for a in axs)
    rows = [[None] * (n - len(a)) + a for a in axs]
    if any(isinstance(x, Block) for r in rows for x in r):
        # alignment through a block: positions counted from the end must agree
        pos = {n - k for r in rows for k, x in enumerate(r) if isinstance(x, Block)}
        if len(pos) != 1 or any(r[n - p] is not None and not isinstance(r[n - p], Block) for r in rows for p in pos):
            rows = []
            for x in ets:
                a = drop_empty_blocks(I, x.axes)
                rows.append(a)
            n = max(len(a) for a in rows)
            rows = [[None] * (n - len(a)) + a for a in rows]
            pos = {n - k for r in rows for k, x in enumerate(r) if isinstance(x, Block)}
            if len(pos) > 1:
                raise Unsupported('broadcast of arrays with different leading blocks')
        if pos:
            p = n - pos.pop()
            for r in rows:
                if r[p] is not None and not isinstance(r[p], Block):
                    # an ordinary axis facing a block of unknown rank
                    raise Unsupported('broadcast of an axis against a batch block')
    out = []
    stretched = {}
    for k in range(n):
        cur = None
        for r in rows:
            a = r[k]
            if a is None:
                continue
            if cur is None:
                cur = a
            else:
                cur = pair_axes(I, cur, a, err)
                if isinstance(cur, tuple) and not isinstance(cur, Ax) and cur and cur[0] == 'stretch':
                    cur = cur[2]
        out.append(cur)
    tgt = ET(out, None, 'float32', fw, store=Store(facs_of(out), None, 'float32'), tobase=None, inv=None)
    rds = []
    for x in xs:
        if isinstance(x, ET):
            rds.append(broadcast_reader(I, x, tgt))
        elif isinstance(x, CScalar):
            rds.append(lambda ix, c=x.v: c)
        else:
            rds.append(lambda ix, c=reals(x): c)
    d = dt or result_dt(list(xs) + list(extra))
    contig = all(x.contig for x in ets)
    return ET(out, lambda ix: f(*[r(ix) for r in rds]), d, fw, contig=contig, viewable=contig)


def check_broadcast_to(I, v, t):
    """v's shape must broadcast to t's"""
    va, ta = drop_empty_blocks(I, v.axes), drop_empty_blocks(I, t.axes)
    while len(va) > len(ta) and not isinstance(va[0], Block) and len(va[0]) == 0:
        va = va[1:]
    if len(va) > len(ta):
        raise shape_err(I, t, 'could not broadcast input array')
    for a, b in zip(va[::-1], ta[::-1]):
        if isinstance(a, Block) or isinstance(b, Block):
            if isinstance(a, Block) and isinstance(b, Block) and a.name == b.name:
                continue
            raise Unsupported('assignment between different leading blocks')
        if len(a) == 0:
            continue
        na, nb = ints(prod_of(I, a)), ints(prod_of(I, b))
        if I.entails(na == nb):
            continue
        if I.decide(na == nb):
            continue
        raise shape_err(I, t, 'could not broadcast input array')


def broadcast_reader(I, v, t):
    """reader of v through the indices of t (shapes already checked)"""
    rd = v.reader()
    vax = list(v.axes)
    tax = list(t.axes)
    if not any(isinstance(a, Block) for a in tax):
        # blocks of rank 0 contribute a single entry
        pass
    tpos, n = [], 0
    for a in tax:
        m = 1 if isinstance(a, Block) else len(a)
        tpos.append((n, n + m, a))
        n += m
    steps = []
    ti = list(tpos)
    # align from the right, skipping rank-0 blocks on either side
    plan = []
    va, ta = vax[:], ti[:]
    while va:
        a = va[-1]
        if isinstance(a, Block) and (not ta or not isinstance(ta[-1][2], Block)):
            if I.entails(a.rank == 0):
                va.pop()
                plan.append(('zero', 1))
                continue
            raise Unsupported('broadcast of a batch block')
        if not ta:
            va.pop()
            plan.append(('zero', 0 if not isinstance(a, Block) and len(a) == 0 else len(a)))
            continue
        lo, hi, b = ta[-1]
        if isinstance(b, Block) and not isinstance(a, Block):
            if I.entails(b.rank == 0):
                ta.pop()
                continue
            raise Unsupported('broadcast of a batch block')
        va.pop(); ta.pop()
        if isinstance(a, Block):
            plan.append(('id', lo, hi))
        elif len(a) == 0:
            plan.append(('zero', 0))
        elif len(a) == len(b) and all(x is y or I.entails(fints(x) == fints(y)) for x, y in zip(a, b)):
            plan.append(('id', lo, hi))
        elif len(a) == 1 and not I.entails(fints(a[0]) == ints(prod_of(I, b))) and I.entails(fints(a[0]) == 1):
            plan.append(('zero', 1))
        else:
            plan.append(('flat', lo, hi, a, b))
    plan.reverse()

    def g(ix):
        o = []
        for p in plan:
            if p[0] == 'id':
                o += ix[p[1]:p[2]]
            elif p[0] == 'zero':
                o += [smt.iv(0)] * p[1]
            else:
                o += unflat(flat(ix[p[1]:p[2]], p[4]), p[3])
        return rd(o)
    return g


def unary(name, f, dt=None):
    def g(I, a, k):
        x = a[0] if a else k.get('x', k.get('input'))
        if isinstance(x, ET):
            d = dt(x.dt) if dt else None
            return elementwise(I, f, [x], dt=d)
        return NotImplemented
    g.__name__ = name
    return g


def float_dt(d):
    return {'int32': 'float64', 'int64': 'float64', 'bool': 'float64'}.get(d, d)


def abs_dt(d):
    return {'complex64': 'float32', 'complex128': 'float64'}.get(d, d)


# ---------------------------------------------------------------- sums and transforms
def depends(e, vs):
    from .loops import occurs
    return any(occurs(v, e) for v in vs)


def pull(e, vs):
    """e = coef * core, coef free of vs -> (coef term or None, core)"""
    coef = None
    def times(c, x):
        return x if c is None else c * x
    while True:
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV and not depends(e.arg(1), vs):
            c = R1 / e.arg(1)
            coef = c if coef is None else coef * c
            e = e.arg(0)
            continue
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
            fr = [c for c in e.children() if not depends(c, vs)]
            dp = [c for c in e.children() if depends(c, vs)]
            if fr and dp:
                for c in fr:
                    coef = c if coef is None else coef * c
                e = dp[0] if len(dp) == 1 else z3.Product(dp)
                continue
        return coef, e


def esum(t, vs, sizes):
    """sum over vs (0 <= v < size) of the term t"""
    if is0(t):
        return R0
    for v, n in list(zip(vs, sizes)):
        if z3.is_int_value(n) and n.as_long() <= 4:
            rest = [(w, m) for w, m in zip(vs, sizes) if w is not v]
            r = R0
            for i in range(n.as_long()):
                r = radd(r, esum(z3.substitute(t, (v, smt.iv(i))), [w for w, _ in rest], [m for _, m in rest]))
            return r
    if not vs:
        return t
    if not depends(t, vs):
        r = t
        for n in sizes:
            r = r * z3.ToReal(n)
        return r
    coef, core = pull(t, vs)
    vs, sizes = list(vs), list(sizes)
    if is_atom(core) and parts(core)[0].op == 'sum':
        a, extra, bs, bv = parts(core)
        fresh = [z3.FreshConst(smt.Int, 's') for _ in bv]
        core = z3.substitute(bs[0], *zip(bv, fresh))
        vs, sizes = vs + fresh, sizes + list(extra)
        inner = esum(core, vs, sizes)
    else:
        inner = atom('sum', vs, [core], sizes, smt.Real)
    return inner if coef is None else coef * inner


def edft(inverse, body, vs, sizes, w):
    """(i)dft of the signal body(vs) over vs evaluated at w; canonical"""
    op = 'idft' if inverse else 'dft'
    e = body
    r, i = z3.simplify(re_(e)), z3.simplify(im_(e))
    return Cx(atom(op + '_re', vs, [r, i], list(sizes) + list(w), smt.Real), atom(op + '_im', vs, [r, i], list(sizes) + list(w), smt.Real))


def fft(I, x, dims, inverse, out_dt=None):
    """discrete Fourier transform over the given axis positions"""
    dims = sorted(dims)
    if len(set(dims)) != len(dims):
        raise Unsupported('transform over a repeated axis')
    axes, spans, n = [], [], 0
    for k, a in enumerate(x.axes):
        m = 1 if isinstance(a, Block) else len(a)
        spans.append((n, n + m))
        n += m
        if k in dims:
            if isinstance(a, Block):
                raise Unsupported('transform over batch axes')
            axes.append(Ax((prod_of(I, a),)) if len(a) > 1 else a)
        else:
            axes.append(a)
    rd = x.reader()
    sizes = [ints(prod_of(I, x.axes[d])) for d in dims]

    def fn(ix):
        # new factors: one per transformed axis (none for unit axes)
        it = iter(ix)
        vs, w, full = [], [], []
        for k, a in enumerate(x.axes):
            if k not in dims:
                for _ in range(1 if isinstance(a, Block) else len(a)):
                    full.append(next(it))
                continue
            v = z3.FreshConst(smt.Int, 't')
            vs.append(v)
            if len(a) == 0:
                w.append(smt.iv(0))
            else:
                w.append(next(it))
                full += unflat(v, a)
        return edft(inverse, rd(full), vs, sizes, w)
    dt = out_dt or {'float32': 'complex64', 'float64': 'complex128', 'int64': 'complex128', 'int32': 'complex128'}.get(x.dt, x.dt)
    return x.new(axes, fn, dt)


# ---------------------------------------------------------------- comparison
def atoms_in(e):
    """maximal atoms and square roots in e"""
    out, seen, stack = [], set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if is_atom(x):
            out.append(x)
            continue
        if x.num_args() and x.decl().name() in UNFUN:
            out.append(x)
            continue
        stack.extend(x.children())
    return out

UNFUN = {'sqrt', 'exp', 'pow', 'cos', 'sin', 'log'}
_ext = {}


def ext_facts(I, extra, a, b, depth=0):
    """equalities between atoms of a and b that hold because their bodies agree"""
    facts = []
    A, B = atoms_in(a), atoms_in(b)
    if len(A) * len(B) > 400 or depth > 5:
        return facts
    for p in A:
        for q in B:
            if p.get_id() == q.get_id():
                continue
            if ext_eq(I, extra, p, q, depth):
                facts.append(p == q)
    return facts


def op_name(p):
    return parts(p)[0].op if is_atom(p) else p.decl().name()


def ext_eq(I, extra, p, q, depth):
    if op_name(p) != op_name(q):
        return False
    key = (p.get_id(), q.get_id(), tuple(x.get_id() for x in extra), len(I.pc), len(I.qfacts))
    if key in _ext:
        return _ext[key][0]
    r = _ext_eq(I, extra, p, q, depth)
    _ext[key] = (r, p, q, list(extra))
    return r


def _ext_eq(I, extra, p, q, depth):
    if not is_atom(p):
        return all(equal(I, extra, x, y, depth + 1) for x, y in zip(p.children(), q.children()))
    a, ex1, b1, v1 = parts(p)
    c, ex2, b2, v2 = parts(q)
    if len(ex1) != len(ex2) or len(v1) != len(v2) or len(b1) != len(b2):
        return False
    n = len(v1)
    perms = itertools.permutations(range(n)) if a.op == 'sum' and n <= 4 else [tuple(range(n))]
    for perm in perms:
        e2 = [ex2[k] for k in perm] + list(ex2[n:]) if a.op == 'sum' else list(ex2)
        if not all(equal(I, extra, x, y, depth + 1) for x, y in zip(ex1, e2)):
            continue
        vs = [z3.FreshConst(smt.Int, 'v') for _ in range(n)]
        bnd = [z3.And(v >= 0, v < s) for v, s in zip(vs, ex1)]
        ok = True
        for x, y in zip(b1, b2):
            x = z3.substitute(x, *zip(v1, vs))
            y = z3.substitute(y, *[(v2[k], v) for k, v in zip(perm, vs)])
            if not equal(I, list(extra) + bnd, x, y, depth + 1):
                ok = False
                break
        if ok:
            return True
    return False


def equal(I, extra, a, b, depth=0):
    a, b = z3.simplify(a), z3.simplify(b)
    if a.get_id() == b.get_id():
        return True
    if z3.is_bool(a):
        goal = a == b
    else:
        goal = a == b
        if a.is_real() and ring.equal(I, extra, a, b, depth, ext_eq):
            return True
    facts = ext_facts(I, extra, a, b, depth)
    return smt.prove(I.context(goal) + list(extra) + facts, goal).ok


def et_obl(I, name, got, want, bounds=()):
    """got equals want: same shape, kind and entries"""
    if not isinstance(got, ET):
        I.oblige(name + ': is an array', False, repr(got))
        return
    I.oblige(name + ': real or complex as specified', is_cx(got.dt) == is_cx(want.dt), '%s vs %s' % (got.dt, want.dt))
    if got.fw != want.fw:
        I.oblige(name + ': array library', False, '%s vs %s' % (got.fw, want.fw))
    gs, ws = (tuple(a if isinstance(a, Block) else prod_of(I, a) for a in drop_empty_blocks(I, t.axes)) for t in (got, want))
    from .atensor import dims_eq
    c = dims_eq(I, gs, ws)
    if c is None:
        I.oblige(name + ': shape', False, '%r vs %r' % (gs, ws))
        return
    if not I.oblige(name + ': shape', z3.And(*c) if c else True, '%r == %r' % (gs, ws)):
        return
    # entry by entry over the indices of `want`; small literal axes are enumerated
    fs = want.facs
    choices = [range(f) if isinstance(f, int) and f <= 4 else [None] for f in fs]
    rg = broadcast_reader(I, got, want)
    rw = want.reader()
    for ch in itertools.product(*choices):
        ix, b = [], []
        for f, c_ in zip(fs, ch):
            if c_ is None:
                v = z3.FreshConst(smt.Int, 'i')
                ix.append(v)
                b.append(z3.And(v >= 0, v < fints(f)))
                I.binders.append(v)
            else:
                ix.append(smt.iv(c_))
        n = len(I.pc)
        I.pc += b
        try:
            g, w = rg(ix), rw(ix)
            prs = [(re_(g), re_(w), ' (real part)'), (im_(g), im_(w), ' (imaginary part)')] if isinstance(w, Cx) or isinstance(g, Cx) else [(g, w, '')]
            for x, y, lab in prs:
                x, y = z3.simplify(x), z3.simplify(y)
                m = len(I.pc)
                if x.get_id() != y.get_id() and not z3.is_bool(x) and ring.equal(I, [], x, y, 0, ext_eq):
                    I.oblige(name + ': entries' + lab, True, 'field arithmetic')
                    continue
                if x.get_id() != y.get_id():
                    I.pc += ext_facts(I, [], x, y)
                I.oblige(name + ': entries' + lab, x == y, '%s == %s' % (str(x)[:600], str(y)[:600]))
                del I.pc[m:]
        finally:
            del I.pc[n:]
            for c_ in ch:
                if c_ is None:
                    I.binders.pop()


def divisions(e, guards, out, seen):
    """real divisions in e with the conditions under which their value matters (If branches)"""
    key = (e.get_id(), tuple(g.get_id() for g in guards))
    if key in seen or not z3.is_app(e):
        return
    seen.add(key)
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = e.children()
        divisions(c, guards, out, seen)
        divisions(a, guards + [c], out, seen)
        divisions(b, guards + [z3.Not(c)], out, seen)
        return
    if z3.is_app_of(e, z3.Z3_OP_DIV) and not (z3.is_rational_value(e.arg(1)) or z3.is_int_value(e.arg(1))):
        out.append((list(guards), e.arg(1) != 0))
    if e.decl().name() == 'sqrt' and e.num_args() == 1:
        out.append((list(guards), e.arg(0) >= 0))
    for c in e.children():
        divisions(c, guards, out, seen)


def finite_obl(I, name, got):
    """no entry divides by zero or takes the square root of a negative number (exact arithmetic: no entry is NaN or infinite)"""
    fs = got.facs
    choices = [range(f) if isinstance(f, int) and f <= 4 else [None] for f in fs]
    rd = got.reader()
    for ch in itertools.product(*choices):
        ix, b = [], []
        for f, c_ in zip(fs, ch):
            if c_ is None:
                v = z3.FreshConst(smt.Int, 'i')
                ix.append(v)
                b.append(z3.And(v >= 0, v < fints(f)))
            else:
                ix.append(smt.iv(c_))
        n = len(I.pc)
        I.pc += b
        try:
            e = rd(ix)
            out = []
            for part in ([e.re, e.im] if isinstance(e, Cx) else [e]):
                divisions(part, [], out, set())
            for g, goal in out:
                m = len(I.pc)
                I.pc += g
                I.oblige(name, goal, str(goal)[:300])
                del I.pc[m:]
        finally:
            del I.pc[n:]


def symbolic(name, shape, dt, fw, cx_last=False):
    """array with arbitrary contents"""
    axes = norm_fac(shape)
    fs = facs_of(axes)
    n = len(fs)

    def F(part):
        return z3.Function(name + part, *([smt.Int] * n + [smt.Real])) if n else z3.Real(name + part)
    if is_cx(dt):
        fr, fi = F('_re'), F('_im')
        fn = (lambda ix: Cx(fr(*ix), fi(*ix))) if n else (lambda ix: Cx(fr, fi))
    else:
        f = F('')
        fn = (lambda ix: f(*ix)) if n else (lambda ix: f)
    return ET(axes, fn, dt, fw)


def make(shape, fn, dt, fw):
    return ET(norm_fac(shape), fn, dt, fw)


def dt_name(I, d):
    if isinstance(d, DT):
        return d.dt
    if isinstance(d, str) and d in DTYPES:
        return d
    if isinstance(d, VClass) or d is not None:
        for n, t in (('float', 'float64'), ('complex', 'complex128'), ('int', 'int64'), ('bool', 'bool')):
            if d is I.builtins.get(n):
                return t
    raise Unsupported('element type %r' % (d,))
