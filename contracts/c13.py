"""C13: PyTorch filters and module buffers correspond one to one.

Ghost state: `heap` is the log of every read/write of a filter slot (bank, filter, level); `reg` is the log of
register_buffer calls and `n` the number of buffers registered so far.  named_buffers() answers with the current buffers
Buf(e, version): the value under the name 'tensor' + str(e)."""
import z3
from vc import smt, etlib
from vc import etensor as E
from vc.etensor import ET, Cx, R0, et_obl, make
from vc.values import *
from vc.loops import subst_value, occurs
from vc.builtins_model import StrCat
from vc.extern import MISSING
from vc.spec import match
from vc.harness import Case, expect_ok
from .c1d import sym_int, used, noop, support_contract
from vc.smt import pow2
from vc.atensor import AT, T


class Ev:
    """event of a ghost log: kind, key (tuple), value"""

    def __init__(self, kind, key, val=None):
        self.kind, self.key, self.val = kind, key, val

    def subst_(self, pairs, memo):
        return Ev(self.kind, tuple(k if isinstance(k, str) else z3.substitute(k, *pairs) for k in self.key), subst_value(self.val, pairs))

    def mentions_(self, sym):
        from vc.loops import value_mentions
        return any(occurs(sym, k) for k in self.key if not isinstance(k, str)) or value_mentions(self.val, sym)

    def __repr__(self):
        return '%s%r=%r' % (self.kind, self.key, self.val)


class Buf:
    """the buffer number e as it was when version v of the module's buffers was current"""

    def __init__(self, e, v):
        self.e, self.v = e, v

    def subst_(self, pairs, memo):
        return Buf(z3.substitute(self.e, *pairs), self.v)

    def mentions_(self, sym):
        return occurs(sym, self.e)

    def __repr__(self):
        return 'buffer %s' % self.e


# ---------------------------------------------------------------- ghost heap of filter slots
def heap_write(I, bank, key, val):
    I.touch(I.heap)
    I.heap.items.append(Ev('w', (bank,) + tuple(key), val))


def leaves(items, fors=(), guards=()):
    for x in items:
        if isinstance(x, For):
            yield from leaves(x.body, fors + (x,), guards)
        elif isinstance(x, Cond):
            for g, b in x.alts:
                yield from leaves(b, fors, guards + (g,))
        elif isinstance(x, Ev):
            yield fors, guards, x


def solve(fors, ev, key):
    """instance of the families making ev's key equal to key: (substitution, remaining equations) or None"""
    unknown = {f.var.get_id(): f.var for f in fors}
    sub, eqs = [], []
    todo = [(a, b) for a, b in zip(ev.key[1:], key)]
    progress = True
    while todo and progress:
        progress = False
        for a, b in list(todo):
            a = z3.simplify(z3.substitute(a, *sub)) if sub else a
            vs = [v for v in unknown.values() if occurs(v, a)]
            if not vs:
                eqs.append(a == b)
                todo.remove(next(p for p in todo if p[1] is b))
                progress = True
            elif len(vs) == 1:
                d = z3.simplify(a - vs[0])
                if not occurs(vs[0], d):
                    sub.append((vs[0], z3.simplify(b - d)))
                    del unknown[vs[0].get_id()]
                    todo.remove(next(p for p in todo if p[1] is b))
                    progress = True
    return None if todo or unknown else (sub, eqs)


def heap_read(I, bank, key, init, branch=True):
    through = False
    for x in reversed(I.heap.items):
        if isinstance(x, Prefix):
            through = True
            continue
        cands = []
        for fors, guards, ev in leaves([x]):
            if ev.kind != 'w' or ev.key[0] != bank:
                continue
            s = solve(fors, ev, key)
            if s is None:
                raise Unsupported('filter written at a position the verifier cannot invert')
            sub, eqs = s
            cond = eqs + [z3.substitute(z3.And(f.lo <= f.var, f.var < f.hi), *sub) if sub else z3.And(f.lo <= f.var, f.var < f.hi) for f in fors]
            cond += [z3.substitute(g, *sub) if sub else g for g in guards]
            cond = z3.simplify(z3.And(*cond)) if cond else z3.BoolVal(True)
            if I.entails(z3.Not(cond)):
                continue
            cands.append((cond, ev, sub))
        if len(cands) > 1:
            raise Unsupported('a filter written several times by one loop')
        for cond, ev, sub in cands:
            if not branch and not I.entails(cond):
                raise Unsupported('conditionally replaced filter')
            if not branch or I.decide(cond):
                if through:
                    note(I, bank, key)
                return subst_value(ev.val, sub) if sub else ev.val
    if through:
        note(I, bank, key)
    return init()


def note(I, bank, key):
    I.touch(I.heap)
    I.heap.items.append(Ev('r', (bank,) + tuple(key)))


def sum_facts(I, f, e):
    """prefix sums of nonnegative terms up to the variable of family f: one more term stays below the total"""
    from vc import binders
    todo, seen = [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        todo.extend(t.children())
        if not binders.is_atom(t) or not t.decl().name().startswith('SumI'):
            continue
        a, extra, bs, bv = binders.parts(t)
        lo, hi = extra
        if not z3.eq(z3.simplify(hi), f.var):
            continue
        x = z3.FreshConst(smt.Int, 'x')
        if not smt.prove(I.context() + [lo <= x, x < f.hi] + inst(I, x), z3.substitute(bs[0], (bv[0], x)) >= 0).ok:
            continue
        S = lambda i: a.decl(lo, i, *t.children()[a.nextra:])
        I.pc.extend([t >= 0, S(f.var + 1) == t + z3.substitute(bs[0], (bv[0], f.var)), S(f.var + 1) <= S(f.hi)])


def inst(I, x):
    return [z3.Implies(z3.And(lo <= x, x < hi), z3.substitute(b, (v, x))) for v, lo, hi, b in (q for q in I.qfacts if len(q) == 4)]


def check_log(I):
    """reads inside loops assumed that earlier iterations did not write the same slot; buffers looked up exist"""
    for fors, gs, ev in leaves(I.gets.items):
        n = len(I.pc)
        I.pc.extend([z3.And(f.lo <= f.var, f.var < f.hi) for f in fors] + list(gs))
        try:
            e = ev.key[1]
            for f in fors:
                sum_facts(I, f, e)
            I.oblige('the buffers looked up have been registered', z3.And(e >= 0, e < ints(I.getattr(I.ghost, 'n'))), '%s' % e)
        finally:
            del I.pc[n:]
    for x in I.heap.items:
        ls = list(leaves([x]))
        for fr, gr, r in ls:
            if r.kind != 'r':
                continue
            for fw, gw, w in ls:
                if w.kind != 'w' or w.key[0] != r.key[0]:
                    continue
                shared = 0
                while shared < min(len(fr), len(fw)) and fr[shared] is fw[shared]:
                    shared += 1
                for d in range(shared):
                    ren = [(f.var, z3.FreshConst(smt.Int, 'w')) for f in fw]
                    ctx = [z3.And(f.lo <= f.var, f.var < f.hi) for f in fr] + list(gr)
                    ctx += [z3.substitute(z3.And(f.lo <= f.var, f.var < f.hi), *ren) for f in fw] + [z3.substitute(g, *ren) for g in gw]
                    ctx += [b == a for a, b in ren[:d]] + [ren[d][1] < ren[d][0]]
                    same = z3.And(*[z3.substitute(a, *ren) == b for a, b in zip(w.key[1:], r.key[1:])])
                    n = len(I.pc)
                    I.pc.extend(ctx)
                    try:
                        I.oblige('no loop overwrites a filter it reads in a later iteration', z3.Not(same), '%r / %r' % (w, r))
                    finally:
                        del I.pc[n:]


# ---------------------------------------------------------------- filter banks
class Levels:
    """list of the arrays of one filter"""

    def __init__(self, bank, i):
        self.bank, self.i = bank, i

    def n(self):
        return self.bank.nlev(self.i)

    def key(self, lev):
        return ((self.i,) if self.i is not None else ()) + (lev,)

    def len_(self, I):
        return mk(self.n(), 'int')

    def read(self, I, lev, branch=True):
        return heap_read(I, self.bank.name, self.key(lev), lambda: self.bank.initial(I, self.i, lev), branch)

    def position(self, I, k):
        e = ints(k)
        n = self.n()
        if not I.entails(z3.And(e >= 0, e < n)):
            if I.decide(z3.Or(e >= n, e < -n)):
                raise I.exc('IndexError', 'list index out of range')
            if not I.decide(e >= 0):
                e = z3.simplify(e + n)
        return z3.simplify(e)

    def getitem_(self, I, k):
        if isinstance(k, VSlice):
            raise Unsupported('slice of the levels of a filter')
        return self.read(I, self.position(I, k))

    def setitem_(self, I, k, v):
        heap_write(I, self.bank.name, self.key(self.position(I, k)), v)

    def domain_(self, I):
        v = I.freshvar('lev')
        n = len(I.pc)
        I.pc.append(z3.And(v >= 0, v < self.n()))
        try:
            x = self.read(I, v, branch=False)
        finally:
            del I.pc[n:]
        return [For(v, smt.iv(0), self.n(), [x])]

    def subst_(self, pairs, memo):
        return self if self.i is None else Levels(self.bank, z3.substitute(self.i, *pairs))

    def mentions_(self, sym):
        return self.i is not None and occurs(sym, self.i)

    def __repr__(self):
        return 'levels of %s[%s]' % (self.bank.name, self.i)


class Filter:
    """dictionary describing one filter; only its levels may be replaced"""

    def __init__(self, bank, i):
        self.bank, self.i = bank, i
        self.levels = Levels(bank, i)

    def keys(self):
        return ['levels'] + list(self.bank.meta)

    def getitem_(self, I, k):
        if k == 'levels':
            return self.levels
        if isinstance(k, str) and k in self.bank.meta:
            return self.bank.meta[k](self.i)
        raise I.exc('KeyError', repr(k))

    def setitem_(self, I, k, v):
        if k != 'levels':
            raise Unsupported('a filter entry other than the levels is replaced')
        items = I.domain(v)
        off = smt.iv(0)
        I.oblige('as many levels as before', ints(I.seg_count(items, 0)) == self.levels.n())
        for x in items:
            if isinstance(x, For) and len(x.body) == 1 and not isinstance(x.body[0], SEG):
                I.touch(I.heap)
                I.heap.items.append(For(x.var, x.lo, x.hi, [Ev('w', (self.bank.name,) + self.levels.key(z3.simplify(off + x.var - x.lo)), x.body[0])]))
                off = z3.simplify(off + ints(I.seg_count([x], 0)))
            elif isinstance(x, SEG):
                raise Unsupported('levels replaced by a list of unknown structure')
            else:
                heap_write(I, self.bank.name, self.levels.key(off), x)
                off = z3.simplify(off + 1)

    def contains_(self, I, k):
        return k in self.keys()

    def domain_(self, I):
        return self.keys()

    def getattr_(self, I, name):
        if name == 'items':
            return Native('items', lambda I, a, k: VList([(n, self.getitem_(I, n)) for n in self.keys()]))
        if name == 'keys':
            return Native('keys', lambda I, a, k: VList(self.keys()))
        if name == 'values':
            return Native('values', lambda I, a, k: VList([self.getitem_(I, n) for n in self.keys()]))
        if name == 'copy':
            return Native('copy', lambda I, a, k: self.todict_(I))
        if name == 'get':
            return Native('get', lambda I, a, k: self.getitem_(I, a[0]) if a[0] in self.keys() else (list(a) + [None])[1])
        raise I.exc('AttributeError', name)

    def todict_(self, I):
        return VDict({n: self.getitem_(I, n) for n in self.keys()})

    def subst_(self, pairs, memo):
        return self if self.i is None else Filter(self.bank, z3.substitute(self.i, *pairs))

    def mentions_(self, sym):
        return self.i is not None and occurs(sym, self.i)

    def __repr__(self):
        return '%s[%s]' % (self.bank.name, self.i)


class Bank:
    """arbitrary filters: count (None: a single filter), levels per filter, contents"""

    def __init__(self, name, count, shape, cx=False, meta=(), dt='float64'):
        self.name, self.count, self.dt = name, count, dt
        self.shape_fn = shape
        self.nl = z3.Function('nlev_' + name, smt.Int, smt.Int)
        self.meta = {m: (lambda i, m=m: Sym(z3.Function('%s_%s' % (m, name), smt.Int, smt.Int if m in ('j', 'theta') else smt.Real)(i if i is not None else smt.iv(0)),
                                            'int' if m in ('j', 'theta') else 'float')) for m in meta}

    def nlev(self, i):
        return self.nl(i if i is not None else smt.iv(0))

    def value(self, i, lev):
        """contents of the array computed for (i, lev)"""
        n = len(self.shape_fn(lev))
        F = z3.Function('filter_' + self.name, *([smt.Int] * (n + 2) + [smt.Real]))
        return lambda ix: F(i if i is not None else smt.iv(0), lev, *ix)

    def initial(self, I, i, lev):
        f = self.value(i, lev)
        return make(self.shape_fn(lev), lambda ix: f(list(ix)), self.dt, 'numpy')

    def subst_(self, pairs, memo):
        return self

    def mentions_(self, sym):
        return False

    def facts(self, I):
        v = z3.Int('nl_' + self.name)
        if self.count is None:
            I.assume(self.nlev(None) >= 1)
        else:
            I.assume(self.count >= 1)
            I.qfacts.append((v, smt.iv(0), self.count, self.nl(v) >= 1))

    def obj(self):
        if self.count is None:
            return Filter(self, None)
        return SymSeq(self.name, self.count, lambda i: Filter(self, i))


# ---------------------------------------------------------------- torch.nn.Module
class BufferDict:
    def __init__(self, I, version):
        self.v = version

    def todict_(self, I):
        return self

    def getitem_(self, I, k):
        e = number_of(k)
        if e is None:
            raise I.exc('KeyError', repr(k))
        # the range is checked afterwards (check_log): a buffer read in vain raises KeyError
        I.touch(I.gets)
        I.gets.items.append(Ev('get', ('buffer', e)))
        return Buf(z3.simplify(e), self.v)

    def contains_(self, I, k):
        e = number_of(k)
        return False if e is None else mk(z3.And(e >= 0, e < ints(I.getattr(I.ghost, 'n'))), 'bool')

    def getattr_(self, I, name):
        if name == 'get':
            return Native('get', lambda I, a, k: self.getitem_(I, a[0]))
        raise Unsupported('buffers.%s' % name)

    def subst_(self, pairs, memo):
        return self

    def mentions_(self, sym):
        return False


def number_of(k):
    if isinstance(k, StrCat) and len(k.parts) == 2 and k.parts[0] == 'tensor' and isinstance(k.parts[1], Sym):
        return k.parts[1].e
    if isinstance(k, str) and k.startswith('tensor') and k[6:].isdigit() and (k[6:] == '0' or k[6] != '0'):
        return smt.iv(int(k[6:]))
    return None


def setup(I):
    etlib.install(I)
    I.heap, I.reg, I.gets = VList(), VList(), VList()
    I.ghost = VObj(VClass('ghost', [I.object_cls]))
    I.ghost.attrs.update(n=0, gaussian=0)
    I.version = 0
    nn = I.natives['torch.nn'].attrs['Module']

    def register(I, a, k):
        names = ['self', 'name', 'tensor', 'persistent']
        v = dict(zip(names, a))
        v.update(k)
        name, t = v['name'], v['tensor']
        I.oblige('the buffer is part of the state dict', v.get('persistent', True) is True)
        I.oblige('a tensor is registered', isinstance(t, ET) and t.fw == 'torch', repr(t))
        I.touch(I.ghost)
        if name == 'tensor_gaussian_filter' and I.is3d:
            I.oblige('the Gaussian bank is registered once', I.eq(I.ghost.attrs['gaussian'], 0) is True)
            I.ghost.attrs['gaussian'] = 1
            I.gaussian_buffer = t
            return
        e = number_of(name)
        n = I.ghost.attrs['n']
        I.oblige("the k-th buffer registered is called 'tensor' + str(k)", e is not None and e == ints(n), '%r, %r registered before' % (name, n))
        I.touch(I.reg)
        I.reg.items.append(Ev('reg', (ints(n),), t))
        I.ghost.attrs['n'] = I.binop('Add', n, 1)
    nn.ns['register_buffer'] = Native('register_buffer', register)
    nn.ns['named_buffers'] = Native('named_buffers', lambda I, a, k: BufferDict(I, I.version))
    nn.ns['state_dict'] = Native('state_dict', lambda I, a, k: BufferDict(I, I.version))
    nn.ns['get_buffer'] = Native('get_buffer', lambda I, a, k: BufferDict(I, I.version).getitem_(I, a[1]))

    class H:
        @staticmethod
        def getattr(I, o, name):
            if name == '_buffers':
                return BufferDict(I, I.version)
            if isinstance(name, str) and number_of(name) is not None:
                return BufferDict(I, I.version).getitem_(I, name)
            return MISSING
    nn.native = H()
    I.contracts['kymatio.scattering1d.filter_bank:compute_temporal_support'] = support_contract
    I.contracts['kymatio.scattering1d.filter_bank:gauss_1d'] = lambda I, f, a, k: AT(z3.Const('gauss', T), (a[0] if a else k['N'],), False)
    I.contracts['kymatio.frontend.base_frontend:ScatteringBase._check_filterbanks'] = lambda I, f, a, k: None


# ---------------------------------------------------------------- obligations
def registered(I, banks, shape, value):
    """the log of registrations is exactly the filters of the banks, in order, with their values"""
    want = []
    for b in banks:
        def fam(i, b=b):
            lev = z3.FreshConst(smt.Int, 'lev')
            return For(lev, smt.iv(0), b.nlev(i), [Ev('slot', (b.name,) + ((i,) if i is not None else ()) + (lev,), b)])
        if b.count is None:
            want.append(fam(None))
        else:
            i = z3.FreshConst(smt.Int, 'i')
            want.append(For(i, smt.iv(0), b.count, [fam(i)]))
    I.numbers = []

    def leaf(I, name, g, w):
        b = w.val
        key = w.key[1:]
        i, lev = (None, key[0]) if b.count is None else key
        I.numbers.append((w.key, z3.simplify(g.key[0])))
        f = b.value(i, lev)
        et_obl(I, 'the buffer registered for %s holds the computed filter' % b.name, g.val,
               make(shape(b, lev), value(f, b), g.val.dt if isinstance(g.val, ET) else 'float32', 'torch'))
    match(I, 'one buffer per filter array, in order', list(I.reg.items), want, leaf)


def number(I, key):
    """number of the buffer registered for a slot"""
    for k, n in I.numbers:
        if k[0] == key[0]:
            sub = list(zip(k[1:], key[1:]))
            return z3.simplify(z3.substitute(n, *sub)) if sub else n
    return None


def used_filters(I, what, objs):
    """every filter handed to the transform is the current buffer registered for it"""
    for b, o in objs:
        i = None
        n = len(I.pc)
        f = o
        if b.count is not None:
            I.oblige('%s: as many filters as computed' % what, ints(I.length(o)) == b.count)
            i = I.freshvar('i')
            I.pc.append(z3.And(i >= 0, i < b.count))
            f = I.getitem(o, Sym(i, 'int'))
        lv = I.getitem(f, 'levels')
        I.oblige('%s: as many levels as computed' % what, ints(I.length(lv)) == b.nlev(i))
        lev = I.freshvar('lev')
        I.pc.append(z3.And(lev >= 0, lev < b.nlev(i)))
        got = I.getitem(lv, Sym(lev, 'int'))
        key = (b.name,) + ((i,) if i is not None else ()) + (lev,)
        e = number(I, key)
        ok = isinstance(got, Buf) and got.v == I.version and e is not None
        I.oblige('%s: the transform uses the current buffer registered for each array of %s' % (what, b.name), got.e == e if ok else False,
                 '%r, registered %s' % (got, e))
        for m in b.meta:
            g = I.getitem(f, m)
            w = b.meta[m](i)
            t = I.eq(g, w)
            I.oblige('%s: %s of %s is kept' % (what, m, b.name), t if isinstance(t, bool) else ex(t), '%r' % (g,))
        del I.pc[n:]


def conv1d(f, b):
    return lambda ix: f(list(ix[:1]))


def build1(I, jtfs, mo=2):
    N, J = sym_int(I, 'N', 1), sym_int(I, 'J', 1)
    I.assume(pow2(J.e) <= N.e)
    I.is3d = False
    LEN = z3.Function('len', smt.Int, smt.Int, smt.Int)

    def bank(name, count, tag):
        def shape(lev, tag=tag):
            return (Sym(LEN(smt.iv(tag), lev), 'int'),)
        b = Bank(name, count, shape, meta=('xi', 'sigma', 'j'))
        b.facts(I)
        return b
    phi, psi1, psi2 = bank('phi', None, 0), bank('psi1', z3.Int('n1'), 0), bank('psi2', z3.Int('n2'), 0)
    banks = [phi, psi1, psi2]
    if jtfs:
        f0, f1, fp = bank('phi0_fr', None, 1), bank('phi1_fr', None, 1), bank('psi_fr', z3.Int('nfr'), 1)
        banks += [f0, f1, fp]
        v = z3.Int('xi_fr_')
        for b in (f0, f1, fp):
            pass
        x = fp.meta['xi']
        I.qfacts.append((v, smt.iv(0), fp.count, z3.And(x(v).e * 2 * z3.ToReal(pow2(fp.meta['j'](v).e)) < 1, x(v).e * 2 * z3.ToReal(pow2(fp.meta['j'](v).e)) > -1,
                                                         fp.meta['j'](v).e >= 0)))
    v, u = z3.Ints('len_v len_u')
    I.lenfun = LEN

    def factory(I, f, a, k):
        vals = dict(zip(['N', 'J', 'Q', 'T', 'filterbank', '_reduction'], a))
        vals.update(k)
        used(I, 'scattering_filter_factory (C04)')
        q = vals['Q']
        if I.length(q) == 0:
            return (f0.obj(),)
        if I.length(q) == 1 or (jtfs and q is not None and len(I.domain(q)) == 1):
            return (f1.obj(), fp.obj())
        return (phi.obj(), psi1.obj(), psi2.obj())
    I.contracts['kymatio.scattering1d.filter_bank:scattering_filter_factory'] = factory
    kw = dict(J=J, shape=N, Q=(sym_int(I, 'Q1', 1), sym_int(I, 'Q2', 1)))
    if jtfs:
        kw.update(J_fr=sym_int(I, 'J_fr', 1), Q_fr=sym_int(I, 'Q_fr', 1))
        cls = 'TimeFrequencyScatteringTorch'
    else:
        kw.update(max_order=mo)
        cls = 'ScatteringTorch1D'
    C = I.get('kymatio.scattering1d.frontend.torch_frontend', cls)
    return I.call(C, [], kw), banks


def body1(jtfs, mo, entry):
    def body(I):
        # every array has at least one sample
        o, banks = build1(I, jtfs, mo)
        check_log(I)
        registered(I, banks, lambda b, lev: b.shape_fn(lev) + (1,), conv1d)
        run(I, o, banks, 'scattering1d.frontend.base_frontend:' + ('TimeFrequencyScatteringBase' if jtfs else 'ScatteringBase1D') + '.scattering',
            lambda o, a, k: filters1(I, o, banks, jtfs), entry, (Sym(z3.Int('N'), 'int'),))
    return body


def filters1(I, o, banks, jtfs):
    g = lambda n: I.getattr(o, n)
    out = [(banks[0], g('phi_f')), (banks[1], g('psi1_f')), (banks[2], g('psi2_f'))]
    if jtfs:
        fr = g('filters_fr')
        psis = I.getitem(fr, 1)
        out += [(banks[3], I.getitem(fr, 0)), (banks[4], I.getitem(psis, 0)), (banks[5], I.getitem(psis, VSlice(1, None, None)))]
    return out


def run(I, o, banks, target, filters, entry, sig, result=lambda: Opaque('coefficients')):
    """two successive transforms, the buffers being replaced (moved, loaded) before each"""
    state = {}

    def stub(I, f, a, k):
        state['n'] = state.get('n', 0) + 1
        used_filters(I, state['what'], filters(o, a, k))
        return state['out']
    I.contracts['kymatio.' + target] = stub
    for what in ('first call', 'second call'):
        I.version += 1
        state.update(what=what, out=result())
        I.assume(z3.And(z3.Int('Br') >= 0, z3.Int('Bs') >= 1))
        x = E.symbolic('x_' + what[0], (Block('B', z3.Int('Br'), z3.Int('Bs')),) + tuple(sig), 'float32', 'torch')
        n0 = state.get('n', 0)
        expect_ok(I, '%s: the transform runs' % what, lambda: I.call(I.getattr(o, entry), [x]))
        I.oblige('%s: the coefficients are computed once' % what, state.get('n', 0) == n0 + 1)
        check_log(I)


class Result:
    """coefficients of unknown value: only their shape is looked at"""

    def __init__(self, rank):
        self.shape = tuple(Sym(z3.Int('out%d' % i), 'int') for i in range(rank))

    def getattr_(self, I, name):
        if name == 'shape':
            return self.shape
        if name == 'reshape':
            return Native('reshape', lambda I, a, k: self)
        raise Unsupported('coefficients.%s' % name)

    def subst_(self, pairs, memo):
        return self

    def mentions_(self, sym):
        return False


def body2(ot, mo, pp, entry):
    def body(I):
        I.is3d = False
        C2 = ('kymatio.scattering2d.frontend.torch_frontend', 'ScatteringTorch2D')
        J, L = sym_int(I, 'J', 1), sym_int(I, 'L', 1)
        M, N = sym_int(I, 'M', 1), sym_int(I, 'N', 1)
        I.assume(z3.And(pow2(J.e) <= M.e, pow2(J.e) <= N.e))
        H, W = z3.Function('height', smt.Int, smt.Int), z3.Function('width', smt.Int, smt.Int)
        shape = lambda lev: (Sym(H(lev), 'int'), Sym(W(lev), 'int'))
        phi, psi = Bank('phi', None, shape, meta=('j',), dt='float32'), Bank('psi', z3.Int('n_psi'), shape, meta=('j', 'theta'), dt='float32')
        phi.facts(I)
        psi.facts(I)

        def bank(I, f, a, k):
            used(I, 'filter_bank (C18)')
            return VDict({'phi': phi.obj(), 'psi': psi.obj()})
        I.contracts['kymatio.scattering2d.filter_bank:filter_bank'] = bank
        o = I.call(I.get(*C2), [], dict(J=J, shape=(M, N), L=L, max_order=mo, pre_pad=pp, out_type=ot))
        check_log(I)
        registered(I, [phi, psi], lambda b, lev: b.shape_fn(lev) + (1,), lambda f, b: lambda ix: f(list(ix[:2])))
        names = ['x', 'pad', 'unpad', 'backend', 'J', 'L', 'phi', 'psi', 'max_order', 'out_type']

        def filters(o, a, k):
            v = dict(zip(names, a))
            v.update(k)
            return [(phi, v['phi']), (psi, v['psi'])]
        sig = (I.getattr(o, '_M_padded'), I.getattr(o, '_N_padded')) if pp else (M, N)
        out = (lambda: Result(4)) if ot == 'array' else (lambda: VList([VDict({'coef': Result(3), 'j': (), 'n': (), 'theta': ()})]))
        run(I, o, [phi, psi], 'scattering2d.core.scattering2d:scattering2d', filters, entry, sig, out)
    return body


class ListBank:
    """arbitrary list of complex arrays, one per l = 0..L"""

    def __init__(self, n, shape):
        self.name, self.count, self.shape_fn, self.meta = 'filters', n, shape, {}

    def value(self, l):
        n = len(self.shape_fn(l))
        R = [z3.Function('filter_%s' % p, *([smt.Int] * (n + 1) + [smt.Real])) for p in ('re', 'im')]
        return lambda ix: Cx(R[0](l, *ix), R[1](l, *ix))

    def len_(self, I):
        return mk(self.count, 'int')

    def read(self, I, l, branch=True):
        f = self.value(l)
        return heap_read(I, self.name, (l,), lambda: make(self.shape_fn(l), lambda ix: f(list(ix)), 'complex128', 'numpy'), branch)

    def position(self, I, k):
        e = ints(k)
        if not I.entails(z3.And(e >= 0, e < self.count)):
            if I.decide(z3.Or(e >= self.count, e < -self.count)):
                raise I.exc('IndexError', 'list index out of range')
            if not I.decide(e >= 0):
                e = z3.simplify(e + self.count)
        return z3.simplify(e)

    def getitem_(self, I, k):
        if isinstance(k, VSlice):
            raise Unsupported('slice of the filters')
        return self.read(I, self.position(I, k))

    def setitem_(self, I, k, v):
        heap_write(I, self.name, (self.position(I, k),), v)

    def domain_(self, I):
        v = I.freshvar('l')
        n = len(I.pc)
        I.pc.append(z3.And(v >= 0, v < self.count))
        try:
            x = self.read(I, v, branch=False)
        finally:
            del I.pc[n:]
        return [For(v, smt.iv(0), self.count, [x])]

    def subst_(self, pairs, memo):
        return self

    def mentions_(self, sym):
        return False


def body3(mo, rot, entry):
    def body(I):
        I.is3d = True
        dims = tuple(sym_int(I, n, 1) for n in 'MNO')
        J, L = sym_int(I, 'J', 0), sym_int(I, 'L', 0)
        s = lambda e: Sym(z3.simplify(e), 'int')
        bank = ListBank(z3.simplify(L.e + 1), lambda l: (s(J.e + 1), s(2 * l + 1)) + dims)
        G = [z3.Function('gauss_%s' % p, *([smt.Int] * 4 + [smt.Real])) for p in ('re', 'im')]
        gshape = (s(J.e + 2),) + dims

        def solid(I, f, a, k):
            used(I, 'solid_harmonic_filter_bank (C19)')
            return bank

        def gaussian(I, f, a, k):
            used(I, 'gaussian_filter_bank (C19)')
            # the Fourier transforms of the Gaussians are real (C19)
            return make(gshape, lambda ix: Cx(G[0](*ix), smt.rv(0)), 'complex128', 'numpy')
        I.contracts['kymatio.scattering3d.filter_bank:solid_harmonic_filter_bank'] = solid
        I.contracts['kymatio.scattering3d.filter_bank:gaussian_filter_bank'] = gaussian
        C3 = ('kymatio.scattering3d.frontend.torch_frontend', 'HarmonicScatteringTorch3D')
        o = I.call(I.get(*C3), [], dict(J=J, shape=dims, L=L, max_order=mo, rotation_covariant=rot))
        check_log(I)
        l = z3.FreshConst(smt.Int, 'l')
        want = [For(l, smt.iv(0), bank.count, [Ev('slot', ('filters', l))])]
        I.numbers = []

        def leaf(I, name, g, w):
            k = w.key[1]
            I.numbers.append((w.key, z3.simplify(g.key[0])))
            f = bank.value(k)
            et_obl(I, 'the buffer registered for order l holds real and imaginary parts of its filters', g.val, parts(bank.shape_fn(k), f, g.val))
        match(I, 'one buffer per order l', list(I.reg.items), want, leaf)
        I.oblige('the Gaussian bank is registered', I.eq(I.ghost.attrs['gaussian'], 1) is True)
        et_obl(I, 'the Gaussian buffer holds the Gaussian bank', I.gaussian_buffer, parts(gshape, lambda ix: Cx(G[0](*ix), smt.rv(0)), I.gaussian_buffer))
        names = ['x', 'filters', 'rotation_covariant', 'L', 'J', 'max_order', 'backend', 'averaging']
        state = {}

        def stub(I, f, a, k):
            v = dict(zip(names, a))
            v.update(k)
            state['n'] = state.get('n', 0) + 1
            fl = v['filters']
            n = len(I.pc)
            I.oblige('%s: as many orders as computed' % state['what'], ints(I.length(fl)) == bank.count)
            l = I.freshvar('l')
            I.pc.append(z3.And(l >= 0, l < bank.count))
            got = I.getitem(fl, Sym(l, 'int'))
            e = number(I, ('filters', l))
            ok = isinstance(got, Buf) and got.v == I.version and e is not None
            I.oblige('%s: the transform uses the current buffer registered for each order' % state['what'], got.e == e if ok else False, '%r, registered %s' % (got, e))
            del I.pc[n:]
            return Result(4)
        I.contracts['kymatio.scattering3d.core.scattering3d:scattering3d'] = stub
        for what in ('first call', 'second call'):
            I.version += 1
            state['what'] = what
            I.assume(z3.And(z3.Int('Br') >= 0, z3.Int('Bs') >= 1))
            x = E.symbolic('x_' + what[0], (Block('B', z3.Int('Br'), z3.Int('Bs')),) + dims, 'float32', 'torch')
            n0 = state.get('n', 0)
            expect_ok(I, '%s: the transform runs' % what, lambda: I.call(I.getattr(o, entry), [x]))
            I.oblige('%s: the coefficients are computed once' % what, state.get('n', 0) == n0 + 1)
            check_log(I)
    return body


def parts(shape, f, like):
    def val(ix):
        c = f(list(ix[:-1]))
        return z3.If(ix[-1] == 0, c.re, c.im)
    return make(tuple(shape) + (2,), val, like.dt if isinstance(like, ET) else 'float32', 'torch')


def cases(tier):
    out = []
    for mo in (1, 2):
        for entry in ('scattering', 'forward'):
            out.append(Case('Scattering1D torch max_order=%d %s' % (mo, entry), body1(False, mo, entry), [setup]))
    for entry in ('scattering', 'forward'):
        out.append(Case('TimeFrequencyScattering torch %s' % entry, body1(True, 2, entry), [setup]))
    for ot in ('array', 'list'):
        for pp in (False, True):
            for entry in ('scattering', 'forward') if tier == 'thorough' else ('scattering',) if ot == 'list' else ('forward',):
                out.append(Case('Scattering2D torch out_type=%s pre_pad=%s %s' % (ot, pp, entry), body2(ot, 2, pp, entry), [setup]))
    for rot in (True, False):
        for entry in ('scattering', 'forward'):
            out.append(Case('HarmonicScattering3D torch rotation_covariant=%s %s' % (rot, entry), body3(2, rot, entry), [setup]))
    return out
