"""Runtime values of the symbolic interpreter."""
import z3
from fractions import Fraction
from . import smt

_birth = [0]


def next_birth():
    _birth[0] += 1
    return _birth[0]


class Unsupported(Exception):
    """the code uses something the verifier has no semantics for: the obligation stays undischarged"""


class Sym:
    """symbolic Python scalar: z3 term + python type tag int/float/bool"""
    __slots__ = ('e', 'k')

    def __init__(self, e, k):
        self.e, self.k = e, k

    def __repr__(self):
        return 'Sym(%s)' % str(self.e).replace('\n', ' ')


class UStr:
    """an arbitrary string different from all strings in `notin` it was compared to (symbolic)"""

    def __init__(self, name):
        self.name = name
        self.fn = {}

    def eq(self, s):
        if s not in self.fn:
            self.fn[s] = z3.Bool('%s=="%s"' % (self.name, s))
        return Sym(self.fn[s], 'bool')

    def __repr__(self):
        return 'UStr(%s)' % self.name


class Poison:
    """value the loop summary does not determine; any use is Unsupported"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Poison(%s)' % self.why


class Mut:
    """mutable heap object with undo support"""

    def __init__(self):
        self.birth = next_birth()


class For:
    """segment: for var in [lo, hi): body  (body: list of segments/values depending on var)"""

    def __init__(self, var, lo, hi, body):
        self.var, self.lo, self.hi, self.body = var, lo, hi, body

    def __repr__(self):
        return 'For(%s in [%s,%s): %r)' % (self.var, self.lo, self.hi, self.body)


class Cond:
    """segment: exactly one guard holds, its segments are present"""

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Cond(%r)' % (self.alts,)


class Prefix:
    """segment: everything earlier iterations of the loop being summarised appended"""

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Prefix(%s)' % self.tag

SEG = (For, Cond, Prefix)


def is_concrete_items(items):
    return not any(isinstance(x, SEG) for x in items)


class VList(Mut):
    def __init__(self, items=()):
        super().__init__()
        self.items = list(items)

    def snapshot(self):
        return list(self.items)

    def restore(self, s):
        self.items = list(s)

    def __repr__(self):
        return 'VList(%r)' % (self.items,)


class KV:
    def __init__(self, k, v):
        self.k, self.v = k, v

    def __repr__(self):
        return '%r: %r' % (self.k, self.v)


class VDict(Mut):
    """items: concrete-key entries (insertion ordered); segs: entries under symbolic keys (KV / For / Cond / FMap)"""

    def __init__(self, items=None):
        super().__init__()
        self.items = dict(items or {})
        self.segs = []

    def snapshot(self):
        return (dict(self.items), list(self.segs))

    def restore(self, s):
        self.items, self.segs = dict(s[0]), list(s[1])

    def __repr__(self):
        return 'VDict(%r%s)' % (self.items, ', +%r' % self.segs if self.segs else '')


class FMap:
    """dict segment: keys lo..hi-1 (ints), value fn(key expr)"""

    def __init__(self, lo, hi, fn):
        self.lo, self.hi, self.fn = lo, hi, fn


class VTuple(tuple):
    """only used for tuples holding segments or dimension blocks; ordinary tuples are python tuples"""


def mark_derived(v, depth=0):
    """v was computed from a family: a write to it would not be seen through the family, so writing is refused"""
    if isinstance(v, (VDict, VList)):
        if getattr(v, 'derived', False) or depth > 6:
            return
        v.derived = True
        for x in (v.items.values() if isinstance(v, VDict) else v.items):
            mark_derived(x, depth + 1)
        if isinstance(v, VDict):
            for x in v.segs:
                mark_derived(x, depth + 1)
    elif isinstance(v, tuple):
        for x in v:
            mark_derived(x, depth + 1)
    elif isinstance(v, KV):
        mark_derived(v.v, depth + 1)
    elif isinstance(v, For):
        for x in v.body:
            mark_derived(x, depth + 1)


class SymSeq:
    """immutable symbolic sequence: length (z3 Int), elem(z3 Int) -> value"""

    def __init__(self, name, length, elem, kind='list'):
        self.name, self.length, self.elem, self.kind = name, length, elem, kind
        self.memo = {}

    def at(self, i):
        k = i.get_id()
        if k not in self.memo:
            v = self.elem(i)
            mark_derived(v)
            self.memo[k] = (i, v)
        return self.memo[k][1]

    def __repr__(self):
        return 'SymSeq(%s)' % self.name


class Scope(Mut):
    def __init__(self, parent=None, func=None, module=None):
        super().__init__()
        self.vars = {}
        self.parent, self.func, self.module = parent, func, module
        self.globals_, self.nonlocals_ = set(), set()
        self.locals_ = None
        self.ycollect = None
        self.cls = None

    def snapshot(self):
        return dict(self.vars)

    def restore(self, s):
        self.vars = dict(s)


class VModule:
    def __init__(self, name, path=None):
        self.name, self.path = name, path
        self.scope = Scope()
        self.scope.module = self
        self.attrs = self.scope.vars

    def __repr__(self):
        return '<module %s>' % self.name


class VClass(Mut):
    def __init__(self, name, bases=(), ns=None, module=None, native=None):
        super().__init__()
        self.name, self.bases, self.ns, self.module = name, list(bases), dict(ns or {}), module
        self.native = native      # python hook object for model classes
        self._mro = None

    def snapshot(self):
        return (dict(self.ns), self.name)

    def restore(self, s):
        self.ns, self.name = dict(s[0]), s[1]

    def mro(self):
        if self._mro is None:
            def merge(seqs):
                out = []
                seqs = [list(s) for s in seqs if s]
                while seqs:
                    for s in seqs:
                        h = s[0]
                        if not any(h in t[1:] for t in seqs):
                            break
                    else:
                        raise Unsupported('MRO of ' + self.name)
                    out.append(h)
                    seqs = [[x for x in s if x is not h] for s in seqs]
                    seqs = [s for s in seqs if s]
                return out
            self._mro = [self] + merge([b.mro() for b in self.bases] + [self.bases])
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name]
        return None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return '<class %s>' % self.name


class VObj(Mut):
    def __init__(self, cls):
        super().__init__()
        self.cls = cls
        self.attrs = {}
        self.data = None

    def snapshot(self):
        return (dict(self.attrs), self.cls)

    def restore(self, s):
        self.attrs, self.cls = dict(s[0]), s[1]

    def __repr__(self):
        return '<%s object>' % self.cls.name


class VFunc:
    def __init__(self, node, scope, module, name, defaults, kwdefaults, owner=None):
        self.node, self.scope, self.module, self.name = node, scope, module, name
        self.defaults, self.kwdefaults, self.owner = defaults, kwdefaults, owner
        self.attrs = {}
        self.isgen = None
        self.qual = name

    def __repr__(self):
        return '<function %s>' % self.qual


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.self_)


class Native:
    """python-implemented function: fn(interp, args, kwargs)"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<native %s>' % self.name


class NatModule:
    """model of an external module"""

    def __init__(self, name, attrs=None):
        self.name, self.attrs = name, dict(attrs or {})

    def __repr__(self):
        return '<external %s>' % self.name


class Opaque:
    """something of an external library without semantics; using it is Unsupported"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<opaque %s>' % self.name


class VProp:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class VStatic:
    def __init__(self, fn):
        self.fn = fn


class VClsM:
    def __init__(self, fn):
        self.fn = fn


class VSuper:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class VGen(Mut):
    """result of a generator call / lazy iterable, evaluated eagerly into segments"""

    def __init__(self, lst):
        super().__init__()
        self.lst = lst      # VList; consumed from the front
        self.pos = 0

    def snapshot(self):
        return self.pos

    def restore(self, s):
        self.pos = s


class VSlice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

Ellip = type('Ellip', (), {'__repr__': lambda s: '...'})()


class VRange:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __repr__(self):
        return 'VRange(%r,%r,%r)' % (self.lo, self.hi, self.step)


class Block:
    """a block of leading tensor axes: `rank` (z3 Int >= 0) axes whose sizes multiply to `size` (z3 Int >= 0)"""

    def __init__(self, name, rank, size):
        self.name, self.rank, self.size = name, rank, size

    def __repr__(self):
        return 'Block(%s)' % self.name


class Rep:
    """item of a tuple/list: `n` copies (z3 Int) of value v, produced by seq * len(..block..)"""

    def __init__(self, v, block):
        self.v, self.block = v, block

    def __repr__(self):
        return 'Rep(%r x %r)' % (self.v, self.block)


class PyRaise(Exception):
    def __init__(self, exc, where=None):
        self.exc = exc
        self.where = where

    def __str__(self):
        return 'raises %s at %s' % (self.exc.cls.name if isinstance(self.exc, VObj) else self.exc, self.where)


class PyReturn(Exception):
    def __init__(self, v):
        self.v = v


class PyBreak(Exception):
    pass


class PyContinue(Exception):
    pass


# ------------------------------------------------------------ scalars
def is_scalar(v):
    return isinstance(v, (bool, int, float, Fraction, Sym))


def kind(v):
    if isinstance(v, Sym):
        return v.k
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, (float, Fraction)):
        return 'float'
    return None


def ex(v):
    """z3 term of a scalar"""
    if isinstance(v, Sym):
        return v.e
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, (float, Fraction)):
        return smt.rv(v)
    if z3.is_expr(v):
        return v
    raise Unsupported('not a scalar: %r' % (v,))


def ints(v):
    """integer term (bools become 0/1)"""
    e = ex(v)
    if z3.is_bool(e):
        return z3.If(e, smt.iv(1), smt.iv(0))
    return e


def reals(v):
    e = ints(v)
    if z3.is_int(e):
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    return e


def mk(e, k):
    """scalar value from a z3 term, concrete if it simplifies to a literal"""
    e = z3.simplify(e)
    if k == 'bool':
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    elif k == 'int':
        if z3.is_int_value(e):
            return e.as_long()
    elif z3.is_rational_value(e):
        f = e.as_fraction()
        return f
    return Sym(e, k)
