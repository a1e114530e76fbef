"""Loop rules: every loop whose trip count is symbolic is summarised from one execution of its body at an arbitrary
iteration.  What the body changes is classified location by location; each classification (closed form, running
maximum, appended family, ...) is an invariant whose base and step are discharged as obligations."""
import z3
from . import smt
from .values import *
from .interp import DeadPath, MISSING, ints, hashable
from .loops_sig import NeedPeel

UNROLL = 40


class Phi:
    """value depending on which guard holds"""

    def __init__(self, alts):
        self.alts = alts

    def resolve(self, I):
        for g, v in self.alts[:-1]:
            if I.decide(g):
                return v
        return self.alts[-1][1]

    def __repr__(self):
        return 'Phi(%r)' % (self.alts,)


# ---------------------------------------------------------------- substitution
def sub_e(e, pairs):
    return z3.substitute(e, *pairs)


def subst_value(v, pairs, memo=None):
    if memo is None:
        memo = {}
    if isinstance(v, Sym):
        r = sub_e(v.e, pairs)
        return mk(r, v.k) if r.get_id() != v.e.get_id() else v
    if v is None or isinstance(v, (str, int, float, bool, UStr, Native, VFunc, VClass, VModule, NatModule, Opaque, Block)):
        return v
    if type(v).__name__ == 'Fraction':
        return v
    if id(v) in memo:
        return memo[id(v)][1]
    if isinstance(v, tuple):
        out = tuple(subst_items(list(v), pairs, memo))
        return out
    if isinstance(v, VList):
        n = VList()
        memo[id(v)] = (v, n)
        n.items = subst_items(v.items, pairs, memo)
        return n
    if isinstance(v, VDict):
        n = VDict()
        memo[id(v)] = (v, n)
        n.items = {k: subst_value(x, pairs, memo) for k, x in v.items.items()}
        n.segs = subst_items(v.segs, pairs, memo)
        return n
    if isinstance(v, KV):
        return KV(subst_value(v.k, pairs, memo), subst_value(v.v, pairs, memo))
    if isinstance(v, FMap):
        return FMap(sub_e(v.lo, pairs), sub_e(v.hi, pairs), _subst_fn(v.fn, pairs))
    if isinstance(v, SymSeq):
        ln = sub_e(v.length, pairs)
        n = SymSeq(v.name, ln, _subst_fn(v.elem, pairs), v.kind)
        memo[id(v)] = (v, n)
        return n
    if isinstance(v, Rep):
        return Rep(subst_value(v.v, pairs, memo), v.block)
    if isinstance(v, Phi):
        return Phi([(sub_e(g, pairs), subst_value(x, pairs, memo)) for g, x in v.alts])
    if isinstance(v, VGen):
        g = VGen(subst_value(v.lst, pairs, memo))
        g.pos = v.pos
        return g
    if isinstance(v, VSlice):
        return VSlice(*[subst_value(x, pairs, memo) for x in (v.lo, v.hi, v.step)])
    if hasattr(v, 'subst_'):
        n = v.subst_(pairs, memo)
        memo[id(v)] = (v, n)
        return n
    if isinstance(v, Poison) or isinstance(v, SEG):
        return subst_items([v], pairs, memo)[0]
    if isinstance(v, (Bound, VObj, VSuper)):
        return v
    raise Unsupported('substitution in %r' % (v,))


def _subst_fn(fn, pairs):
    def g(k):
        p = z3.Int('subst!p')
        p = z3.FreshConst(smt.Int, 'p')
        r = fn(p)
        r = subst_value(r, pairs)
        return subst_value(r, [(p, k)])
    return g


def subst_items(items, pairs, memo=None):
    out = []
    for x in items:
        if isinstance(x, For):
            ids = {p[0].get_id() for p in pairs}
            ps = [p for p in pairs if p[0].get_id() != x.var.get_id()]
            # capture avoidance
            var, body = x.var, x.body
            if any(occurs(var, p[1]) for p in ps):
                nv = z3.FreshConst(smt.Int, 'b')
                body = subst_items(body, [(var, nv)])
                var = nv
            out.append(For(var, sub_e(x.lo, pairs), sub_e(x.hi, pairs), subst_items(body, ps, memo if ps is pairs else None)))
        elif isinstance(x, Cond):
            out.append(Cond([(sub_e(g, pairs), subst_items(b, pairs, memo)) for g, b in x.alts]))
        elif isinstance(x, (Prefix, Poison)):
            out.append(x)
        else:
            out.append(subst_value(x, pairs, memo))
    return out


def occurs(c, e):
    seen, stack = set(), [e]
    cid = c.get_id()
    while stack:
        x = stack.pop()
        if x.get_id() == cid:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
    return False


# ---------------------------------------------------------------- sums
def count_schema(t, body):
    """0 <= sum of terms between 0 and 1 <= number of terms; known wherever the sum occurs"""
    name = t.decl().name()
    if name in smt.SCHEMA or not z3.is_app(t) or t.num_args() < 2:
        return
    if smt.prove([], z3.And(body >= 0, body <= 1)).ok:
        def facts(t, F):
            lo, hi = t.arg(0), t.arg(1)
            F(t >= 0)
            F(z3.Implies(hi >= lo, t <= hi - lo))
            F(z3.Implies(hi <= lo, t == 0))
        smt.UNARY[name] = facts
        smt.SCHEMA.add(name)


def sum_term(I, var, lo, hi, body):
    from .binders import atom
    body = z3.simplify(body)
    n = z3.simplify(hi - lo)
    if not occurs(var, body):
        t = body * z3.If(n >= 0, n, smt.iv(0))
        return Sym(z3.simplify(t), 'int')
    t = atom('SumI', [var], [body], [lo, hi], smt.Int)
    I.assume(z3.Implies(hi <= lo, t == 0))
    r = smt.prove(I.context() + [lo <= var, var < hi], body >= 0)
    if r.ok:
        I.assume(t >= 0)
    count_schema(t, body)
    return Sym(t, 'int')


# ---------------------------------------------------------------- main rule
def run_loop(I, segs, body, node=None):
    for s in segs:
        if isinstance(s, For):
            if run_for(I, s, body, node):
                return True
        elif isinstance(s, Cond):
            for g, b in s.alts[:-1]:
                if I.decide(g):
                    if run_loop(I, b, body, node):
                        return True
                    break
            else:
                g, b = s.alts[-1]
                I.assume(g)
                if not I.feasible():
                    raise DeadPath()
                if run_loop(I, b, body, node):
                    return True
        elif isinstance(s, Prefix):
            raise Unsupported('iteration over a list under construction')
        elif isinstance(s, (Block, Rep)):
            raise Unsupported('iteration over tensor axes of unknown number')
        else:
            try:
                body(s)
            except PyBreak:
                return True
            except PyContinue:
                pass
    return False


def reachable(v, acc=None):
    """ids of mutable objects reachable from a value / segment list"""
    acc = {} if acc is None else acc
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, For):
            stack.extend(x.body)
        elif isinstance(x, Cond):
            for _, b in x.alts:
                stack.extend(b)
        elif isinstance(x, (tuple, list)):
            stack.extend(x)
        elif isinstance(x, VList):
            if id(x) not in acc:
                acc[id(x)] = x
                stack.extend(x.items)
        elif isinstance(x, VDict):
            if id(x) not in acc:
                acc[id(x)] = x
                stack.extend(x.items.values())
                stack.extend(x.segs)
        elif isinstance(x, KV):
            stack.append(x.v)
        elif hasattr(x, 'mutable_') and id(x) not in acc:
            acc[id(x)] = x
    return acc


class Cells:
    """uniform view of an object's state as cells"""

    @staticmethod
    def read(obj, snap):
        if isinstance(obj, Scope):
            return dict(snap)
        if isinstance(obj, VObj):
            d = dict(snap[0])
            d['#cls'] = snap[1]
            return d
        if isinstance(obj, VDict):
            d = {('k', k): v for k, v in snap[0].items()}
            d['#segs'] = snap[1]
            return d
        if isinstance(obj, VList):
            return {'#items': snap}
        if isinstance(obj, VClass):
            return {('ns', k): v for k, v in snap[0].items()}
        return {'#state': snap}

    @staticmethod
    def write(obj, key, val):
        if isinstance(obj, Scope):
            if val is MISSING:
                obj.vars.pop(key, None)
            else:
                obj.vars[key] = val
        elif isinstance(obj, VObj):
            if key == '#cls':
                obj.cls = val
            elif val is MISSING:
                obj.attrs.pop(key, None)
            else:
                obj.attrs[key] = val
        elif isinstance(obj, VDict):
            if key == '#segs':
                obj.segs = list(val)
            elif val is MISSING:
                obj.items.pop(key[1], None)
            else:
                obj.items[key[1]] = val
        elif isinstance(obj, VList):
            obj.items = list(val)
        else:
            obj.restore(val)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.e.get_id() == b.e.get_id() and a.k == b.k
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, str, bool)) and isinstance(b, (int, str, bool)):
        return type(a) is type(b) and a == b
    if type(a).__name__ == 'Fraction' and type(b).__name__ == 'Fraction':
        return a == b
    return False


class AccRead(Poison):
    """variable that carries a tensor (or None) from one iteration to the next"""

    def __init__(self, c):
        super().__init__('%r is changed by the loop' % (c.key,))
        self.c = c

    def read_(self, I):
        c = self.c
        if c.init is None:
            raise NeedPeel(c)
        c.acc_read = True
        return c.acc_value


class Carried:
    """a location the loop body changes"""

    def __init__(self, obj, key, init):
        self.obj, self.key, self.init = obj, key, init
        self.mode = None       # 'sym' | 'poison' | 'closed' | 'list' | 'dict'
        self.placeholder = None
        self.closed = None     # fn(index term) -> value
        self.final_value = None
        self.fold = None


def run_for(I, seg, body, node):
    lo, hi = z3.simplify(seg.lo), z3.simplify(seg.hi)
    d = z3.simplify(hi - lo)
    if z3.is_int_value(d) and d.as_long() <= UNROLL:
        for k in range(max(0, d.as_long())):
            b = subst_items(seg.body, [(seg.var, z3.simplify(lo + k))])
            if run_loop(I, b, body, node):
                return True
        return False
    if I.entails(hi <= lo):
        return False
    var, sbody = seg.var, seg.body
    if any(b.get_id() == var.get_id() for b in I.binders) or any(occurs(var, p) for p in I.pc):
        nv = I.freshvar('i')
        sbody = subst_items(sbody, [(var, nv)])
        var = nv
    I.loops += 1
    mark = next_birth()
    reps = reachable(list(sbody))
    M = {}                     # (id(obj), key) -> Carried
    base_pc = len(I.pc)

    def havoc():
        for c in M.values():
            I.touch(c.obj)
            if c.mode == 'list':
                Cells.write(c.obj, c.key, list(c.init) + [c.placeholder])
            elif c.mode == 'dict':
                Cells.write(c.obj, c.key, list(c.init) + [c.placeholder])
            elif c.mode == 'listupd':
                Cells.write(c.obj, c.key, list(c.placeholder))
            else:
                Cells.write(c.obj, c.key, c.placeholder)

    def one():
        I.binders.append(var)
        I.pc.append(lo <= var)
        I.pc.append(var < hi)
        for c in M.values():
            if c.facts_in:
                I.pc.extend(c.facts_in)
        havoc()
        if run_loop(I, sbody, body, node):
            raise PyBreak()
        return None

    results = None
    for rnd in range(12):
        nobl = len(I.obligations)
        try:
            results = I.explore(one)
        except NeedPeel as p:
            if not any(c is p.c for c in M.values()):
                raise
            if not I.decide(hi > lo):
                return False
            if run_loop(I, subst_items(seg.body, [(seg.var, lo)]), body, node):
                return True
            return run_for(I, For(seg.var, z3.simplify(lo + 1), hi, seg.body), body, node)
        new = {}
        for r in results:
            for obj, before, after in r.extra:
                if id(obj) in reps:
                    continue
                cb, ca = Cells.read(obj, before), Cells.read(obj, after)
                for key in set(cb) | set(ca):
                    b, a = cb.get(key, MISSING), ca.get(key, MISSING)
                    if (id(obj), key) in M:
                        continue
                    if same(b, a):
                        continue
                    new[(id(obj), key)] = Carried(obj, key, b)
                    new[(id(obj), key)].first = a
        if new:
            for k, c in new.items():
                init_mode(I, c, var, lo)
                M[k] = c
            # obligations of a round that does not describe an arbitrary iteration yet are void
            del I.obligations[nobl:]
            continue
        # stable set of locations: refine symbolic placeholders into closed forms
        changed = refine(I, M, results, var, lo, hi)
        for c in M.values():
            if c.mode == 'dict' and c.template.used and not c.template.check(I, c, results, var):
                c.template.pos += 1
                changed = True
        if not changed:
            break
        del I.obligations[nobl:]
    else:
        raise Unsupported('loop summary did not stabilise')
    if not results:
        raise DeadPath() if not I.feasible() else Unsupported('loop body has no feasible path')

    normal = [r for r in results if r.kind in ('ok', 'continue')]
    exits = [r for r in results if r.kind in ('break', 'return', 'raise')]
    # induction steps of the closed forms
    for c in M.values():
        if c.mode == 'closed':
            for r in normal:
                val = cell_after(r, c)
                nxt = c.closed(z3.simplify(var + 1))
                saved = I.pc
                I.pc = list(r.pc)
                I.oblige('loop invariant step: %s' % (c.key,), val_eq_term(I, val, nxt), 'closed form of %r' % (c.key,))
                I.pc = saved

    if exits:
        for r in exits:
            q = I.fresh('exit', smt.Bool)
            if I.decide(q):
                return leave(I, r, M, normal, var, lo, hi, exits)
        # no iteration exits
        for r in exits:
            # guards of the exit path may contain fresh choices of its own; those are existential there
            g = z3.And(*r.guards) if r.guards else z3.BoolVal(True)
            if r.guards:
                I.qfacts.append((var, lo, hi, z3.Not(g)))
            else:
                I.pc.append(hi <= lo)
                if not I.feasible():
                    raise DeadPath()
        if not normal:
            I.pc.append(hi <= lo)
            if not I.feasible():
                raise DeadPath()
            return False
    commit(I, M, normal, var, lo, hi)
    commit_reps(I, reps, normal, sbody)
    return False


class DictTemplate:
    """closed form of a dictionary filled by a recurrence d[i] = g(d[i-1]); candidates are tried in turn and the one
    kept is proved by induction (base: the entry present before the loop; step: the loop body)"""

    def __init__(self, c, var, lo):
        self.c, self.var, self.lo = c, var, lo
        self.pos, self.used = 0, False
        d = c.obj
        self.cands = []
        if not c.init and len(d.items) >= 1:
            ks = [k for k in d.items if isinstance(k, int) and not isinstance(k, bool)]
            if len(ks) == 1 and kind(d.items[ks[0]]) == 'int':
                v0, k0 = ints(d.items[ks[0]]), ks[0]
                self.base_key = k0
                self.cands = [lambda k: smt.cdivp(v0, z3.simplify(k - k0)),
                              lambda k: v0,
                              lambda k: v0 * smt.pow2(z3.simplify(k - k0)),
                              lambda k: v0 + k - k0]

    def at(self, k):
        return mk(self.cands[self.pos](k), 'int')

    def lookup(self, I, k):
        if self.pos >= len(self.cands):
            raise Unsupported('dictionary recurrence without a closed form')
        e = ints(k)
        self.used = True
        if I.entails(e == self.base_key):
            if I.entails(self.base_key < self.lo):
                return MISSING
        if I.entails(e == self.var - 1):
            # first iteration reads the base entry, later ones the previous entry; the template covers both once the
            # base is proved
            if I.entails(self.lo == self.base_key + 1):
                I.oblige('recurrence base', ints(self.cands[self.pos](smt.iv(self.base_key))) == ints(self.c.obj.items[self.base_key]))
                return self.at(z3.simplify(e))
        if I.decide(z3.And(self.lo <= e, e < self.var)):
            return self.at(e)
        return MISSING

    def check(self, I, c, results, var):
        if self.pos >= len(self.cands):
            raise Unsupported('dictionary recurrence without a closed form')
        for r in results:
            if r.kind not in ('ok', 'continue'):
                continue
            a = cell_after(r, c)
            new = list(a[len(c.init) + 1:])
            if len(new) != 1 or not isinstance(new[0], KV) or kind(new[0].v) != 'int':
                return False
            saved = I.pc
            I.pc = list(r.pc)
            try:
                if not I.entails(ints(new[0].k) == var):
                    return False
                if not I.entails(ints(new[0].v) == ints(self.at(var))):
                    return False
            finally:
                I.pc = saved
        for r in results:
            a = cell_after(r, c)
            saved = I.pc
            I.pc = list(r.pc)
            I.oblige('recurrence step: d[i] = closed form', ints(a[-1].v) == ints(self.at(var)))
            I.pc = saved
        return True


def init_mode(I, c, var, lo):
    c.facts_in = []
    if c.key == '#items' and update_mode(I, c, var, lo):
        pass
    elif c.key == '#items':
        c.mode = 'list'
        c.placeholder = Prefix('loop %s' % var)
        c.placeholder.count = I.freshvar('cnt')
        c.cnt_sym = c.placeholder.count
        c.cnt_closed = False
    elif c.key == '#segs':
        c.mode = 'dict'
        c.placeholder = Prefix('loop %s' % var)
        c.placeholder.count = None
        c.template = DictTemplate(c, var, lo)
        if c.template.cands:
            c.placeholder.lookup = c.template.lookup
    elif c.key == '#state':
        c.mode = 'state'
        if hasattr(c.obj, 'havoc_state'):
            c.placeholder = c.obj.havoc_state(I, c.init, var)
        else:
            raise Unsupported('loop modifies %r' % (c.obj,))
    elif c.key == '#cls':
        raise Unsupported('class changed in loop')
    elif kind(c.init) is not None:
        c.mode = 'sym'
        k = kind(c.init)
        s = {'int': smt.Int, 'float': smt.Real, 'bool': smt.Bool}[k]
        c.sym = z3.FreshConst(s, 'old')
        c.placeholder = Sym(c.sym, k)
    elif c.init is None or hasattr(c.init, 'accum_'):
        c.mode = 'acc'
        c.acc_read = False
        if c.init is not None:
            c.acc_value, c.acc_sym = c.init.accum_(I)
        c.placeholder = AccRead(c)
    else:
        c.mode = 'poison'
        c.placeholder = Poison('%r is changed by the loop' % (c.key,))


def cell_after(r, c):
    for obj, before, after in r.extra:
        if obj is c.obj:
            return Cells.read(obj, after).get(c.key, MISSING)
    return c.placeholder


def val_eq_term(I, a, b):
    t = I.eq(a, b)
    return t if isinstance(t, bool) else ex(t)


def mentions(v, sym):
    if isinstance(v, Sym):
        return occurs(sym, v.e)
    return False


def refine(I, M, results, var, lo, hi):
    """turn 'sym' placeholders into closed forms; True if another round is needed"""
    changed = False
    normal = [r for r in results if r.kind in ('ok', 'continue')]
    olds = [c.sym for c in M.values() if c.mode == 'sym']
    cnts = [c.cnt_sym for c in M.values() if c.mode == 'list' and not c.cnt_closed]
    for c in M.values():
        if c.mode == 'list' and not c.cnt_closed:
            if not getattr(c.placeholder, 'used', False):
                c.placeholder.count = None
                c.cnt_closed = True
                continue
            # how many elements per iteration?
            ns = set()
            for r in normal:
                a = cell_after(r, c)
                pre = list(c.init) + [c.placeholder]
                if not (len(a) >= len(pre) and all(x is y or same(x, y) for x, y in zip(a, pre))):
                    ns.add(None)
                    continue
                try:
                    n = I.seg_count(a[len(pre):], 0)
                except Unsupported:
                    n = None
                ns.add(n if isinstance(n, int) else None)
            if len(ns) == 1 and None not in ns:
                n = ns.pop()
                ph = Prefix(c.placeholder.tag)
                ph.count = z3.simplify(n * (var - lo))
            else:
                ph = Prefix(c.placeholder.tag)
                ph.count = None
            c.cnt_closed = True
            c.placeholder = ph
            changed = True
    for c in M.values():
        if c.mode != 'sym':
            continue
        vals = [cell_after(r, c) for r in normal]
        if not vals:
            continue
        if all(kind(v) is not None for v in vals):
            if not any(any(mentions(v, o) for o in olds) for v in vals):
                # overwritten each iteration
                if not any(sym_used(r, c.sym) for r in results):
                    if all(same(v, c.placeholder) for v in vals):
                        continue
                    c.mode = 'last'
                    c.vals = vals
                    continue
                c.mode = 'poison'
                c.placeholder = Poison('%r is changed by the loop' % (c.key,))
                c.over = True
                changed = True
                continue
            cf = closed_form(I, c, vals, normal, var, lo, hi, olds)
            if cf is not None:
                c.mode = 'closed'
                c.closed = cf
                c.placeholder = cf(var)
                changed = True
                continue
        # unknown evolution: usable only if nobody reads it
        if any(sym_used(r, c.sym) for r in results):
            f = fold_form(I, c, vals, normal, var, lo, hi)
            if f is not None:
                changed = True
                continue
        c.mode = 'poison'
        c.placeholder = Poison('%r is changed by the loop in a way the verifier cannot summarise' % (c.key,))
        changed = True
    return changed


def cnt_used(r, sym):
    return True


def sym_used(r, sym):
    if any(occurs(sym, g) for g in r.guards):
        return True
    for obj, before, after in r.extra:
        for k, v in Cells.read(obj, after).items():
            if value_mentions(v, sym):
                return True
    if r.kind in ('return', 'raise'):
        return True
    return False


def value_mentions(v, sym, depth=0, seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, Sym):
        return occurs(sym, v.e)
    if id(v) in seen or depth > 12:
        return False
    seen.add(id(v))
    if isinstance(v, (list, tuple)):
        return any(value_mentions(x, sym, depth + 1, seen) for x in v)
    if isinstance(v, For):
        return occurs(sym, v.lo) or occurs(sym, v.hi) or any(value_mentions(x, sym, depth + 1, seen) for x in v.body)
    if isinstance(v, Cond):
        return any(occurs(sym, g) or any(value_mentions(x, sym, depth + 1, seen) for x in b) for g, b in v.alts)
    if isinstance(v, VList):
        return any(value_mentions(x, sym, depth + 1, seen) for x in v.items)
    if isinstance(v, VDict):
        return any(value_mentions(x, sym, depth + 1, seen) for x in list(v.items.values()) + v.segs)
    if isinstance(v, KV):
        return value_mentions(v.k, sym, depth + 1, seen) or value_mentions(v.v, sym, depth + 1, seen)
    if hasattr(v, 'mentions_'):
        return v.mentions_(sym)
    return False


def closed_form(I, c, vals, normal, var, lo, hi, olds):
    isint = kind(c.init) in ('int', 'bool')
    old = c.sym
    # additive: all paths new - old free of every old value
    diffs = []
    for v in vals:
        e = ints(v) if isint else reals(v)
        if isint and z3.is_real(e):
            diffs = None
            break
        dd = z3.simplify(e - old)
        if any(occurs(o, dd) for o in olds):
            diffs = None
            break
        diffs.append(dd)
    init = ints(c.init) if isint else reals(c.init)
    k = 'int' if isint else 'float'
    if diffs:
        if all(x.get_id() == diffs[0].get_id() for x in diffs) and not occurs(var, diffs[0]):
            step = diffs[0]
            if isint:
                return lambda i: mk(init + step * (i - lo), 'int')
            return lambda i: mk(init + step * z3.ToReal(i - lo), 'float')
        if isint and not any(any(occurs(o, g) for o in olds) for r in normal for g in r.guards):
            # prefix sum of the increments
            body = None
            for r, dd in zip(normal, diffs):
                g = z3.And(*r.guards) if r.guards else z3.BoolVal(True)
                body = dd if body is None else z3.If(g, dd, body)
            body = z3.simplify(body)
            from .binders import atom
            r = smt.prove(I.context() + [lo <= var, var < hi], body >= 0)
            S = lambda i: atom('SumI', [var], [body], [lo, z3.simplify(i)], smt.Int)

            def cf(i):
                t = S(i)
                I.assume(z3.Implies(i <= lo, t == 0))
                if r.ok:
                    I.assume(z3.Implies(i <= hi, t >= 0))
                    # a prefix sum of nonnegative terms is nondecreasing
                    I.assume(z3.Implies(i <= hi, t <= S(hi)))
                    I.assume(z3.Implies(z3.And(lo <= var, var + 1 <= hi), S(var + 1) <= S(hi)))
                # unfold at the current iteration
                I.assume(z3.Implies(lo <= var, S(var + 1) == S(var) + body))
                return mk(init + t, 'int')
            return cf
    if not isint:
        return geometric(I, c, vals, normal, var, lo, hi, olds)
    return None


def geometric(I, c, vals, normal, var, lo, hi, olds):
    """new = old * r or old / r with r the same in every iteration: a function of the iteration with its recurrence as lemma"""
    old = c.sym
    one = z3.RealVal(1)
    step = None
    for v in vals:
        e = reals(v)
        found = None
        for g in [one] + [t for t in subterms(e) if t.is_real() and not any(occurs(o, t) for o in olds) and not occurs(var, t)]:
            for how, f in (('*', old * g), ('/', old / g)):
                if smt.simp(z3.simplify(e - f)).get_id() == z3.RealVal(0).get_id() or z3.simplify(e).get_id() == z3.simplify(f).get_id():
                    found = (how, g)
                    break
            if found:
                break
        if found is None or (step is not None and (step[0] != found[0] or step[1].get_id() != found[1].get_id())):
            return None
        step = found
    if step is None:
        return None
    how, g = step
    init = reals(c.init)
    from . import ring
    F = z3.Function('geo!%d' % old.get_id(), smt.Int, smt.Real)
    pos = ring.positive(I, [], z3.simplify(g))
    ipos = pos and ring.positive(I, [], z3.simplify(init))

    def facts(i):
        r = [F(lo) == init]
        nxt = F(z3.simplify(i + 1))
        r.append(nxt == F(i) * g if how == '*' else nxt * g == F(i))
        if ipos:
            r += [F(i) > 0, nxt > 0]
        return z3.And(*r)

    def cf(i):
        I.assume(z3.Implies(z3.And(i >= lo, i <= hi), facts(i)))
        return mk(F(i), 'float')
    q = z3.FreshConst(smt.Int, 'g')
    I.qfacts.append((q, lo, hi, facts(q)))
    if ipos:
        q2 = z3.FreshConst(smt.Int, 'g')
        I.qfacts.append((q2, lo, z3.simplify(hi + 1), F(q2) > 0))
    return cf


def fold_form(I, c, vals, normal, var, lo, hi):
    """running maximum / minimum: new = max(old, e(i))"""
    isint = kind(c.init) in ('int', 'bool')
    old = c.sym
    for name, up in (('max', True), ('min', False)):
        cand = []
        for v, r in zip(vals, normal):
            e = ints(v) if isint else reals(v)
            # candidates for e(i): sub-terms not containing old
            if e.get_id() == old.get_id():
                cand.append(None)
                continue
            found = None
            for t in subterms(e):
                if t.sort() == old.sort() and not occurs(old, t):
                    goal = e == (z3.If(old >= t, old, t) if up else z3.If(old <= t, old, t))
                    if smt.prove(list(r.pc), goal).ok:
                        found = t
                        break
            if found is None:
                cand = None
                break
            cand.append(found)
        if cand is None:
            continue
        ok = True
        facts_for = []
        for t, r in zip(cand, normal):
            g = z3.And(*[x for x in r.guards if not occurs(old, x)]) if r.guards else z3.BoolVal(True)
            if any(occurs(old, x) for x in r.guards):
                ok = False
            if t is not None:
                facts_for.append((g, t))
        if not ok:
            continue
        init = ints(c.init) if isint else reals(c.init)
        sort = smt.Int if isint else smt.Real
        F = z3.Function('fold!%s!%d' % (name, old.get_id()), smt.Int, sort)
        cmp = (lambda a, b: a >= b) if up else (lambda a, b: a <= b)
        # invariant: F(i) bounds init and all e(t), t < i  (step: F(i+1) = max(F(i), e(i)) by definition)
        c.mode = 'fold'
        c.F = F
        c.placeholder = Sym(F(var), 'int' if isint else 'float')
        c.facts_in = [cmp(F(var), init)]
        tv = z3.FreshConst(smt.Int, 't')
        c.fold = (F, cmp, init, facts_for, name)
        return True
    return None


def subterms(e):
    out, seen, stack = [], set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        stack.extend(x.children())
    return out


def commit(I, M, normal, var, lo, hi):
    end = z3.simplify(z3.If(hi >= lo, hi, lo)) if not I.entails(hi >= lo) else hi
    for c in M.values():
        I.touch(c.obj)
        if c.mode == 'dict' and c.template.used:
            k0 = smt.iv(c.template.base_key)
            base = c.obj.items[c.template.base_key]
            if len(c.obj.items) == 1 and I.entails(lo == k0 + 1) and I.entails(ints(base) == ints(c.template.at(k0))):
                Cells.write(c.obj, ('k', c.template.base_key), MISSING)
                lo2 = k0
            else:
                lo2 = lo
            Cells.write(c.obj, c.key, list(c.init) + [FMap(lo2, end, c.template.at)])
        elif c.mode in ('list', 'dict'):
            pre = list(c.init) + [c.placeholder]
            alts = []
            for r in normal:
                a = cell_after(r, c)
                if not (len(a) >= len(pre) and all(x is y or same(x, y) for x, y in zip(a, pre))):
                    r2 = special_update(I, c, normal, var, lo, hi)
                    if r2:
                        break
                    raise Unsupported('loop rewrites existing elements of a %s' % c.mode)
                alts.append((z3.And(*r.guards) if r.guards else z3.BoolVal(True), list(a[len(pre):])))
            else:
                alts2 = [x for x in alts]
                if all(not s for _, s in alts2):
                    Cells.write(c.obj, c.key, list(c.init))
                    continue
                if len(alts2) == 1:
                    b = alts2[0][1]
                else:
                    b = [Cond(alts2)]
                Cells.write(c.obj, c.key, list(c.init) + [For(var, lo, hi, b)])
        elif c.mode == 'listupd':
            commit_update(I, c, normal, var, lo, hi)
        elif c.mode == 'closed':
            Cells.write(c.obj, c.key, c.closed(end))
        elif c.mode == 'fold':
            F, cmp, init, facts_for, name = c.fold
            fin = F(end)
            I.assume(cmp(fin, init))
            wit = I.fresh("w")
            I.assume(z3.Implies(end == lo, fin == init))
            opts = [fin == init]
            for g, t in facts_for:
                I.qfacts.append((var, lo, hi, z3.Implies(g, cmp(fin, t))))
                opts.append(z3.And(lo <= wit, wit < hi, z3.substitute(z3.And(g, fin == t), (var, wit))))
            I.assume(z3.Or(*opts))
            Cells.write(c.obj, c.key, Sym(fin, 'int' if fin.sort() == smt.Int else 'float'))
        elif c.mode == 'state':
            c.obj.loop_commit(I, c, [(z3.And(*r.guards) if r.guards else z3.BoolVal(True), cell_after(r, c), r) for r in normal],
                              var, lo, hi)
        elif c.mode == 'last':
            if len(normal) == 1 and isinstance(c.vals[0], (Sym, int)) and I.entails(hi > lo):
                Cells.write(c.obj, c.key, subst_value(c.vals[0], [(var, z3.simplify(hi - 1))]))
            else:
                Cells.write(c.obj, c.key, LastPoison(c, normal, var, lo, hi))
        elif c.mode == 'acc' and c.acc_read:
            # new = g(old, i): the value after the loop is the iterate of g
            outs = [cell_after(r, c) for r in normal]
            if len(outs) != 1:
                raise Unsupported('tensor recurrence with several cases')
            Cells.write(c.obj, c.key, c.init.accum_close(I, outs[0], c.acc_sym, var, lo, end))
        elif c.mode == 'sym':
            # unchanged in fact
            Cells.write(c.obj, c.key, c.init)
        else:
            Cells.write(c.obj, c.key, LastPoison(c, normal, var, lo, hi))


class LastPoison(Poison):
    """value after the loop of something assigned in it"""

    def __init__(self, c, normal, var, lo, hi):
        super().__init__('%r was assigned in a loop with symbolic trip count' % (c.key,))
        self.init = c.init
        self.alts = [(r.guards, cell_after(r, c)) for r in normal]
        self.var, self.lo, self.hi = var, lo, hi

    def resolve(self, I):
        if len(self.alts) == 1 and not isinstance(self.alts[0][1], Poison):
            if I.decide(self.hi > self.lo):
                v = self.alts[0][1]
                if v is MISSING:
                    return None
                return subst_value(v, [(self.var, z3.simplify(self.hi - 1))])
            if self.init is MISSING:
                return None
            return self.init
        return None


def special_update(I, c, normal, var, lo, hi):
    """element-wise rewriting of a list: l[i] = f(i) for every i"""
    hook = getattr(I, 'list_update_hook', None)
    if hook is not None:
        return hook(I, c, normal, var, lo, hi)
    return False


def presence(items, oid, guards=()):
    """guard lists under which the object is among the elements of this iteration"""
    out = []
    for x in items:
        if isinstance(x, Cond):
            for g, b in x.alts:
                out += presence(b, oid, guards + (g,))
        elif isinstance(x, For):
            out += presence(x.body, oid, guards + (x.lo <= x.var, x.var < x.hi))
        elif not isinstance(x, Prefix) and oid in reachable([x]):
            out.append(guards)
    return out


def commit_reps(I, reps, normal, sbody):
    """the body changed the element of its own iteration"""
    touched = {}
    for k, r in enumerate(normal):
        for obj, before, after in r.extra:
            if id(obj) in reps:
                touched.setdefault(id(obj), (obj, before, {}))[2][k] = after
    for oid, (obj, before, afters) in touched.items():
        I.touch(obj)
        pres = presence(sbody, oid)
        idx = []
        for k, r in enumerate(normal):
            if k in afters or any(smt.check_sat(list(r.pc) + list(g), timeout=4000)[0] != 'unsat' for g in pres):
                idx.append(k)
        if len(idx) == 1:
            obj.restore(afters[idx[0]])
            continue
        cb = Cells.read(obj, before)
        keys = set(cb)
        rows = []
        for k in idx:
            r = normal[k]
            ca = Cells.read(obj, afters.get(k, before))
            rows.append((z3.And(*r.guards) if r.guards else z3.BoolVal(True), ca))
            keys |= set(ca)
        for key in keys:
            vs = [ca.get(key, MISSING) for _, ca in rows]
            if all(same(v, vs[0]) for v in vs):
                v = vs[0]
            elif any(v is MISSING for v in vs):
                raise Unsupported('conditional change of element keys')
            elif isinstance(key, str) and key.startswith('#'):
                raise Unsupported('conditional change of element structure')
            else:
                v = Phi([(g, ca[key]) for g, ca in rows])
            Cells.write(obj, key, v)


def leave(I, r, M, normal, var, lo, hi, exits):
    """the loop is left at some iteration w through path r"""
    w = I.freshvar('exit')
    prs = [(var, w)]
    I.pc.append(z3.And(lo <= w, w < hi))
    for g in r.guards:
        I.pc.append(sub_e(g, prs))
    # earlier iterations did not exit
    for x in exits:
        if x.guards:
            I.qfacts.append((var, lo, w, z3.Not(z3.And(*x.guards))))
        else:
            I.pc.append(w == lo)
    for c in M.values():
        if c.mode == 'closed':
            for f in c.facts_in:
                I.pc.append(sub_e(f, prs))
    if not I.feasible():
        raise DeadPath()
    if r.kind == 'raise':
        raise r.value
    # state at exit
    for c in M.values():
        I.touch(c.obj)
        a = cell_after(r, c)
        if c.mode in ('list', 'dict'):
            pre = list(c.init) + [c.placeholder]
            if not (len(a) >= len(pre) and all(x is y or same(x, y) for x, y in zip(a, pre))):
                raise Unsupported('loop rewrites existing elements')
            alts = []
            for n in normal:
                na = cell_after(n, c)
                alts.append((z3.And(*n.guards) if n.guards else z3.BoolVal(True), list(na[len(pre):])))
            segs = []
            if any(s for _, s in alts):
                segs = [For(var, lo, w, alts[0][1] if len(alts) == 1 else [Cond(alts)])]
            Cells.write(c.obj, c.key, list(c.init) + segs + subst_items(list(a[len(pre):]), prs))
        elif isinstance(a, Poison) or a is MISSING:
            Cells.write(c.obj, c.key, Poison('assigned in loop'))
        elif c.mode in ('closed', 'last', 'sym', 'poison'):
            if c.mode == 'sym':
                Cells.write(c.obj, c.key, c.init)
            else:
                try:
                    Cells.write(c.obj, c.key, subst_value(a, prs))
                except Unsupported:
                    Cells.write(c.obj, c.key, Poison('assigned in loop'))
        else:
            Cells.write(c.obj, c.key, Poison('assigned in loop'))
    if r.kind == 'return':
        raise PyReturn(subst_value(r.value, prs))
    return True


# ---------------------------------------------------------------- dict families
def invert_lookup(I, s, k):
    if isinstance(s, Cond):
        for g, b in s.alts:
            if I.decide(g):
                for x in reversed(b):
                    if isinstance(x, KV):
                        if I.truth(I.eq(x.k, k)):
                            return x.v
                    else:
                        r = invert_lookup(I, x, k)
                        if r is not MISSING:
                            return r
                return MISSING
        raise DeadPath()
    if len(s.body) != 1 or not isinstance(s.body[0], KV):
        raise Unsupported('lookup in a nested family of dict entries')
    kv = s.body[0]
    if kind(kv.k) == 'int' and kind(k) in ('int', 'bool'):
        d = z3.simplify(ints(kv.k) - s.var)
        if not occurs(s.var, d):
            idx = z3.simplify(ints(k) - d)
            if I.decide(z3.And(s.lo <= idx, idx < s.hi)):
                return subst_value(kv.v, [(s.var, idx)])
            return MISSING
        return MISSING_UNSUP(s)
    if kind(kv.k) is None and (isinstance(k, str) or kind(k) is not None) and isinstance(kv.k, tuple):
        return MISSING
    if hasattr(kv.k, 'solve_'):
        idx = kv.k.solve_(I, s.var, k)
        if idx is MISSING:
            return MISSING
        if I.decide(z3.And(s.lo <= idx, idx < s.hi)):
            return subst_value(kv.v, [(s.var, idx)])
        return MISSING
    raise Unsupported('lookup by %r in family %r' % (k, kv.k))


def MISSING_UNSUP(s):
    raise Unsupported('lookup in family with non-linear key')


def list_setitem(I, o, i, v):
    """l[i] = v at a symbolic position: the family holding the position is split around it"""
    items = list(o.items)
    e = ints(i)
    en = ints(I.seg_count(items, 0))
    if not I.entails(z3.And(e >= 0, e < en)):
        if I.decide(z3.Or(e >= en, e < -en)):
            raise I.exc('IndexError', 'assignment index out of range')
        if not I.decide(e >= 0):
            e = z3.simplify(e + en)
    off = smt.iv(0)
    for k, x in enumerate(items):
        c = ints(I.seg_count([x], 0))
        off2 = z3.simplify(off + c)
        if not I.decide(e < off2):
            off = off2
            continue
        rel = z3.simplify(e - off)
        I.touch(o)
        if isinstance(x, For) and len(x.body) == 1 and not isinstance(x.body[0], SEG):
            mid = z3.simplify(x.lo + rel)
            o.items = items[:k] + [For(x.var, x.lo, mid, x.body), v, For(x.var, z3.simplify(mid + 1), x.hi, x.body)] + items[k + 1:]
        elif isinstance(x, SEG + (Block, Rep)):
            raise Unsupported('assignment to an element of a symbolic list')
        else:
            o.items = items[:k] + [v] + items[k + 1:]
        return
    raise DeadPath()


def update_mode(I, c, var, lo):
    """the body replaces element number var + const of a list that is one family: l[i] = f(i)"""
    a, b = getattr(c, 'first', None), c.init
    if not (isinstance(a, list) and isinstance(b, list) and len(b) == 1 and len(a) == 3 and isinstance(b[0], For)
            and isinstance(a[0], For) and isinstance(a[2], For) and a[0].body is b[0].body and a[2].body is b[0].body
            and not isinstance(a[1], SEG)):
        return False
    f, mid = b[0], a[0].hi
    d = z3.simplify(mid - var)
    if occurs(var, d):
        return False
    c.mode = 'listupd'
    c.shift = d
    start = z3.simplify(lo + d)
    ph = Prefix('updated by loop %s' % var)
    ph.count = z3.simplify(var - lo)
    c.first_idx = start
    c.placeholder = [For(f.var, f.lo, start, f.body), ph, For(f.var, z3.simplify(var + d), f.hi, f.body)]
    return True


def commit_update(I, c, normal, var, lo, hi):
    f, d, pre = c.init[0], c.shift, c.placeholder
    alts = []
    for r in normal:
        a = cell_after(r, c)
        ok = (
            isinstance(a, list) and len(a) == 5 and isinstance(a[0], For) and a[0].body is f.body and a[1] is pre[1]
            and isinstance(a[2], For) and a[2].body is f.body and isinstance(a[4], For) and a[4].body is f.body and not isinstance(a[3], SEG))
        if ok:
            saved = I.pc
            I.pc = list(r.pc)
            ok = I.entails(z3.And(a[0].lo == pre[0].lo, a[0].hi == pre[0].hi, a[2].lo == a[2].hi, a[4].lo == var + d + 1, a[4].hi == f.hi))
            I.pc = saved
        if not ok:
            raise Unsupported('loop rewrites the elements of a list out of order')
        alts.append((z3.And(*r.guards) if r.guards else z3.BoolVal(True), [a[3]]))
    b = alts[0][1] if len(alts) == 1 else [Cond(alts)]
    end = z3.simplify(z3.If(hi >= lo, hi, lo))
    Cells.write(c.obj, c.key, [For(f.var, f.lo, z3.simplify(lo + d), f.body), For(var, lo, hi, b),
                               For(f.var, z3.simplify(end + d), f.hi, f.body)])


def symbolic_while(I, s, sc):
    """while: some number n of iterations with the test true before each and false after the last (partial correctness)"""
    n = I.freshvar('n_while')
    I.assume(n >= 0)
    var = I.freshvar('k')
    last = []

    def body(v):
        t = I.truth_term(I.eval(s.test, sc))
        t = z3.BoolVal(t) if isinstance(t, bool) else t
        I.assume(t)
        last[:] = [ints(v), t]
        I.exec_block(s.body, sc)
    broke = run_loop(I, [For(var, smt.iv(0), n, [Sym(var, 'int')])], body, s)
    if broke:
        return
    i, t = last
    if z3.is_const(i) and i.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        q = z3.FreshConst(smt.Int, 'w')
        I.qfacts.append((q, smt.iv(0), n, z3.substitute(t, (i, q))))
    t = I.truth_term(I.eval(s.test, sc))
    I.assume(z3.Not(t) if not isinstance(t, bool) else z3.BoolVal(not t))
    if s.orelse:
        I.exec_block(s.orelse, sc)
