"""Semantics of the Python builtins and of the methods of str / list / tuple / dict."""
import re
import z3
from fractions import Fraction
from . import smt, ring
from .values import *
from .interp import MISSING, NODEF, DeadPath, StarSeg, hashable


class StrCat:
    """string made of literal pieces and decimal renderings of symbolic integers"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, StrCat):
                ps = p.parts
            elif isinstance(p, Sym):
                ps = [p]
            else:
                ps = [p if isinstance(p, str) else str(p)]
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != '' if isinstance(q, str) else True:
                    out.append(q)
        self.parts = out

    def __repr__(self):
        return 'StrCat(%r)' % (self.parts,)

    def binop_(self, I, op, other, rev):
        if op == 'Add' and isinstance(other, (str, StrCat)):
            return StrCat([other, self] if rev else [self, other])
        if op == 'Mod':
            return self
        return NotImplemented

    def subst_(self, pairs, memo):
        from .loops import subst_value
        return StrCat([subst_value(p, pairs) for p in self.parts])

    def mentions_(self, sym):
        from .loops import value_mentions
        return any(value_mentions(p, sym) for p in self.parts)

    def truth_(self, I):
        return True

    def eq_(self, I, o):
        if isinstance(o, str):
            pat = ''.join(re.escape(p) if isinstance(p, str) else r'(-?\d+)' for p in self.parts)
            m = re.fullmatch(pat, o)
            if not m:
                return False
            syms = [p for p in self.parts if not isinstance(p, str)]
            if len(syms) != 1 or str(int(m.group(1))) != m.group(1):
                raise Unsupported('string comparison')
            return I.eq(syms[0], int(m.group(1)))
        if isinstance(o, StrCat):
            a, b = self.parts, o.parts
            if len(a) == len(b) and all((isinstance(x, str) and x == y) if isinstance(x, str) else not isinstance(y, str)
                                        for x, y in zip(a, b)):
                ok = True
                for i, x in enumerate(a):
                    # two adjacent numbers would be ambiguous
                    if not isinstance(x, str) and i + 1 < len(a) and (not isinstance(a[i + 1], str) or a[i + 1][0].isdigit()
                                                                      ):
                        ok = False
                if ok:
                    return I.conj([I.eq(x, y) for x, y in zip(a, b) if not isinstance(x, str)])
            fa = a[0] if isinstance(a[0], str) else ''
            fb = b[0] if isinstance(b[0], str) else ''
            k = min(len(fa), len(fb))
            if fa[:k] != fb[:k]:
                return False
            raise Unsupported('comparison of symbolic strings')
        if o is None or is_scalar(o):
            return False
        raise Unsupported('string comparison')

    def getattr_(self, I, name):
        return method_of(I, '', name)

    def solve_(self, I, var, k):
        """index i with self(var:=i) == k"""
        syms = [p for p in self.parts if not isinstance(p, str)]
        if len(syms) != 1:
            raise Unsupported('string key')
        d = z3.simplify(ints(syms[0]) - var)
        from .loops import occurs
        if occurs(var, d):
            raise Unsupported('string key')
        if isinstance(k, str):
            pat = ''.join(re.escape(p) if isinstance(p, str) else r'(-?\d+)' for p in self.parts)
            m = re.fullmatch(pat, k)
            if not m:
                return MISSING
            return z3.simplify(smt.iv(int(m.group(1))) - d)
        if isinstance(k, StrCat) and len(k.parts) == len(self.parts):
            for x, y in zip(self.parts, k.parts):
                if isinstance(x, str) != isinstance(y, str) or (isinstance(x, str) and x != y):
                    t = self.eq_(I, k)
                    if t is False:
                        return MISSING
                    raise Unsupported('string key')
            y = [p for p in k.parts if not isinstance(p, str)][0]
            return z3.simplify(ints(y) - d)
        raise Unsupported('string key')


def mkcat(parts):
    """concatenation of literal pieces, decimal renderings and unknown strings"""
    from .symstr import SStr, sx, smk
    if any(isinstance(p, SStr) for p in parts):
        if any(not isinstance(p, (str, SStr)) for p in parts):
            raise Unsupported('string of unknown pieces and numbers')
        ps = [sx(p) for p in parts if p != '' or isinstance(p, SStr)]
        return smk(z3.Concat(*ps) if len(ps) > 1 else ps[0])
    c = StrCat(parts)
    if all(isinstance(p, str) for p in c.parts):
        return ''.join(c.parts)
    return c


def render(I, x):
    if getattr(x, 'is_str_', False):
        return x
    if isinstance(x, (Sym, StrCat)):
        if isinstance(x, Sym) and x.k != 'int':
            return '<%s>' % x.k
        return x
    return I.tostr(x)


def format_str(I, s, args, kwargs):
    out, pos, auto = [], 0, 0
    for m in re.finditer(r'\{\{|\}\}|\{([^{}]*)\}', s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            out.append(m.group(0)[0])
            continue
        f = m.group(1).split(':')[0].split('!')[0]
        base = re.split(r'[.\[]', f)[0]
        if base == '':
            if auto >= len(args):
                raise I.exc('IndexError', 'Replacement index out of range')
            v = args[auto]
            auto += 1
        elif base.isdigit():
            if int(base) >= len(args):
                raise I.exc('IndexError', 'Replacement index out of range')
            v = args[int(base)]
        else:
            if base not in kwargs:
                raise I.exc('KeyError', base)
            v = kwargs[base]
        out.append('<attr>' if f != base else render(I, v))
    out.append(s[pos:])
    return mkcat(out)


# ------------------------------------------------------------ types
class TypeHook:
    def __init__(self, check=None, new=None):
        if check is not None:
            self.check = check
        if new is not None:
            self.new = lambda I, cls, a, k: new(I, a, k)


def mktype(name, check, new=None):
    return VClass(name, native=TypeHook(check, new))


def instance_of(I, v, cls):
    if isinstance(cls, tuple):
        r = False
        for c in cls:
            t = instance_of(I, v, c)
            if t is True:
                return True
            if t is not False:
                r = t
        return r
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    if hasattr(v, 'isinstance_'):
        r = v.isinstance_(I, cls)
        if r is not NotImplemented:
            return r
    if isinstance(cls, VClass):
        if isinstance(v, VObj):
            return v.cls.issub(cls)
        if cls.native is not None and hasattr(cls.native, 'check'):
            return cls.native.check(v)
        return False
    if isinstance(cls, Opaque):
        if isinstance(v, (VObj, str, tuple, VList, VDict)) or v is None or is_scalar(v):
            return False
        raise Unsupported('isinstance against %s' % cls.name)
    raise Unsupported('isinstance against %r' % (cls,))


def to_int(I, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise I.exc('ValueError', 'invalid literal for int()')
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, Sym):
        if v.k in ('int', 'bool'):
            return mk(ints(v), 'int')
        e = v.e
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
            return mk(e.arg(0), 'int')
        n = ring.pow_int(I, z3.simplify(e))
        if n is not None:
            return mk(n, 'int')
        return trunc(I, e)
    if hasattr(v, 'toint_'):
        return v.toint_(I)
    if v is None or isinstance(v, (tuple, VList, VDict)):
        raise I.exc('TypeError', 'int() argument')
    raise Unsupported('int(%r)' % (v,))


def floor_e(I, e):
    """floor of a real term as an int term"""
    e = z3.simplify(e)
    if z3.is_app(e):
        n = e.decl().name()
        if e.decl().kind() == z3.Z3_OP_TO_REAL:
            return e.arg(0)
        if n == 'log2':
            return smt.flog2(e.arg(0))
        if e.decl().kind() == z3.Z3_OP_ADD:
            isint = lambda c: (z3.is_rational_value(c) and c.denominator_as_long() == 1) or (z3.is_app(c) and c.decl().kind() == z3.Z3_OP_TO_REAL) or \
                (z3.is_mul(c) and c.num_args() == 2 and z3.is_rational_value(c.arg(0)) and c.arg(0).denominator_as_long() == 1 and
                 c.arg(1).decl().kind() == z3.Z3_OP_TO_REAL)
            toint = lambda c: c.arg(0) if c.decl().kind() == z3.Z3_OP_TO_REAL else (
                smt.iv(c.arg(0).numerator_as_long()) * c.arg(1).arg(0) if z3.is_mul(c) else smt.iv(c.numerator_as_long()))
            cs = e.children()
            ip = [c for c in cs if isint(c)]
            rest = [c for c in cs if not isint(c)]
            if ip and not rest:
                return z3.simplify(z3.Sum([toint(c) for c in ip]))
            if ip and rest:
                r = rest[0]
                for x in rest[1:]:
                    r = r + x
                t = floor_e(I, r)
                for x in ip:
                    t = t + toint(x)
                return z3.simplify(t)
        d = div_pow2(I, e)
        if d is not None:
            num_, j = d
            # floor(x / 2^j) = - ceil(-x / 2^j)
            return -smt.cdivp(z3.simplify(-num_), j)
    return z3.ToInt(e)


def ceil_e(I, e):
    e = z3.simplify(e)
    if z3.is_app(e):
        n = e.decl().name()
        if e.decl().kind() == z3.Z3_OP_TO_REAL:
            return e.arg(0)
        if n == 'log2':
            return smt.clog2(e.arg(0))
        d = div_pow2(I, e)
        if d is not None:
            return smt.cdivp(d[0], d[1])
        if e.decl().kind() == z3.Z3_OP_ADD:
            isint = lambda c: (z3.is_rational_value(c) and c.denominator_as_long() == 1) or (z3.is_app(c) and c.decl().kind() == z3.Z3_OP_TO_REAL) or \
                (z3.is_mul(c) and c.num_args() == 2 and z3.is_rational_value(c.arg(0)) and c.arg(0).denominator_as_long() == 1 and
                 c.arg(1).decl().kind() == z3.Z3_OP_TO_REAL)
            toint = lambda c: c.arg(0) if c.decl().kind() == z3.Z3_OP_TO_REAL else (
                smt.iv(c.arg(0).numerator_as_long()) * c.arg(1).arg(0) if z3.is_mul(c) else smt.iv(c.numerator_as_long()))
            cs = e.children()
            ip = [c for c in cs if isint(c)]
            rest = [c for c in cs if not isint(c)]
            if ip and not rest:
                return z3.simplify(z3.Sum([toint(c) for c in ip]))
            if ip and rest:
                r = rest[0]
                for x in rest[1:]:
                    r = r + x
                t = ceil_e(I, r)
                for x in ip:
                    t = t + toint(x)
                return z3.simplify(t)
    return z3.simplify(-floor_e(I, z3.simplify(-e)))


def div_pow2(I, e):
    """e == to_real(x) / to_real(pow2(j)) with integer x, j >= 0 -> (x, j)"""
    if e.decl().kind() == z3.Z3_OP_DIV:
        a, b = e.arg(0), e.arg(1)
        ia, ib = as_int(a), as_int(b)
        if ia is not None and ib is not None:
            from .interp import pow2_form
            f = pow2_form(ib)
            if f is not None and f[0] > 0 and f[0] & (f[0] - 1) == 0 and f[2] is None:
                j = smt.iv(f[0].bit_length() - 1)
                if f[1] is not None:
                    j = z3.simplify(j + f[1])
                if I.entails(j >= 0):
                    return ia, j
    # 1/2^k * x with numeral coefficient
    if e.decl().kind() == z3.Z3_OP_MUL and e.num_args() == 2:
        c, x = e.arg(0), e.arg(1)
        if z3.is_rational_value(c):
            q = c.as_fraction()
            ix = as_int(x)
            if ix is not None and q.denominator & (q.denominator - 1) == 0 and q.denominator > 1:
                return z3.simplify(ix * q.numerator), smt.iv(q.denominator.bit_length() - 1)
    return None


def as_int(e):
    """integer term equal to a real term, syntactically"""
    e = z3.simplify(e)
    if z3.is_int(e):
        return e
    if z3.is_rational_value(e):
        return smt.iv(e.numerator_as_long()) if e.denominator_as_long() == 1 else None
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return e.arg(0)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
            cs = [as_int(c) for c in e.children()]
            if all(c is not None for c in cs):
                r = cs[0]
                for c in cs[1:]:
                    r = r + c if k == z3.Z3_OP_ADD else (r * c if k == z3.Z3_OP_MUL else r - c)
                return z3.simplify(r)
        if k == z3.Z3_OP_UMINUS:
            c = as_int(e.arg(0))
            return None if c is None else z3.simplify(-c)
        if k == z3.Z3_OP_ITE:
            a, b = as_int(e.arg(1)), as_int(e.arg(2))
            if a is not None and b is not None:
                return z3.If(e.arg(0), a, b)
    return None


def trunc(I, e):
    if I.entails(e >= 0):
        return mk(floor_e(I, e), 'int')
    if I.entails(e <= 0):
        return mk(-floor_e(I, z3.simplify(-e)), 'int')
    return mk(z3.If(e >= 0, floor_e(I, e), -floor_e(I, z3.simplify(-e))), 'int')


def to_float(I, a, k):
    if not a:
        return Fraction(0)
    v = a[0]
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if isinstance(v, Sym):
        return mk(reals(v), 'float')
    if isinstance(v, str):
        if v.lower() in ('nan', 'inf', '-inf'):
            return Opaque('float.' + v)
        return Fraction(float(v))
    if hasattr(v, 'tofloat_'):
        return v.tofloat_(I)
    if v is None or isinstance(v, (tuple, VList, VDict)):
        raise I.exc('TypeError', 'float() argument')
    raise Unsupported('float(%r)' % (v,))


def is_int_val(v):
    return isinstance(v, (bool, int)) or (isinstance(v, Sym) and v.k in ('int', 'bool'))


# ------------------------------------------------------------ iteration helpers
def seg_map(items, f):
    """apply f to every leaf of a segment list"""
    out = []
    for x in items:
        if isinstance(x, For):
            out.append(For(x.var, x.lo, x.hi, seg_map(x.body, f)))
        elif isinstance(x, Cond):
            out.append(Cond([(g, seg_map(b, f)) for g, b in x.alts]))
        elif isinstance(x, Prefix):
            raise Unsupported('iteration over a list under construction')
        else:
            out.append(f(x))
    return out


def flat(I, it, what):
    items = I.domain(it)
    if not is_concrete_items(items) or any(isinstance(x, (Block, Rep)) for x in items):
        raise Unsupported('%s over a symbolic sequence' % what)
    return items


def b_range(I, a, k):
    a = [conv_index(I, x) for x in a]
    if len(a) == 1:
        return VRange(0, a[0], 1)
    if len(a) == 2:
        return VRange(a[0], a[1], 1)
    if len(a) == 3:
        return VRange(*a)
    raise I.exc('TypeError', 'range()')


def conv_index(I, x):
    if isinstance(x, bool):
        return int(x)
    if is_int_val(x):
        return x if not (isinstance(x, Sym) and x.k == 'bool') else mk(ints(x), 'int')
    if hasattr(x, 'toint_') and getattr(x, 'is_index', False):
        return x.toint_(I)
    if is_scalar(x) or x is None or isinstance(x, (str, tuple, VList)):
        raise I.exc('TypeError', 'object cannot be interpreted as an integer')
    raise Unsupported('index %r' % (x,))


def extremum(I, items, up, name):
    if not items:
        raise I.exc('ValueError', name + '() arg is an empty sequence')
    if is_concrete_items(items):
        if all(not isinstance(x, Sym) and is_scalar(x) for x in items):
            return (max if up else min)(items)
        if all(isinstance(x, str) for x in items):
            return (max if up else min)(items)
        if not all(is_scalar(x) for x in items):
            raise Unsupported('%s of non-scalars' % name)
        r = items[0]
        for x in items[1:]:
            r = max2(I, r, x, up)
        return r
    # symbolic family
    leaves = []
    collect_leaves(items, [], [], leaves)
    if not all(is_scalar(v) for _, _, v in leaves):
        raise Unsupported('%s of non-scalars' % name)
    n = I.seg_count(items, 0)
    if not I.entails(ints(n) > 0):
        if not I.decide(ints(n) > 0):
            raise I.exc('ValueError', name + '() arg is an empty sequence')
    isreal = any(kind(v) == 'float' for _, _, v in leaves)
    m = I.fresh(name, smt.Real if isreal else smt.Int)
    opts = []
    for fors, guards, v in leaves:
        e = reals(v) if isreal else ints(v)
        g = z3.And(*guards) if guards else z3.BoolVal(True)
        bound = (m >= e) if up else (m <= e)
        if not fors:
            I.assume(z3.Implies(g, bound))
            opts.append(z3.And(g, m == e))
        else:
            pr = []
            cond = []
            for f in fors:
                w = I.fresh('w_' + name)
                cond.append(z3.And(z3.substitute(f.lo, *pr) <= w if pr else f.lo <= w, w < (z3.substitute(f.hi, *pr) if pr else f.hi)))
                pr.append((f.var, w))
            opts.append(z3.substitute(z3.And(g, m == e), *pr))
            opts[-1] = z3.And(opts[-1], *cond)
            if len(fors) == 1:
                f = fors[0]
                I.qfacts.append((f.var, f.lo, f.hi, z3.Implies(g, bound)))
    I.assume(z3.Or(*opts))
    return Sym(m, 'float' if isreal else 'int')


def collect_leaves(items, fors, guards, out):
    for x in items:
        if isinstance(x, For):
            collect_leaves(x.body, fors + [x], guards, out)
        elif isinstance(x, Cond):
            for g, b in x.alts:
                collect_leaves(b, fors, guards + [g], out)
        elif isinstance(x, Prefix):
            raise Unsupported('iteration over a list under construction')
        else:
            out.append((fors, guards, x))


def max2(I, a, b, up):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return (max if up else min)(a, b)
    isint = is_int_val(a) and is_int_val(b)
    ea, eb = (ints(a), ints(b)) if isint else (reals(a), reals(b))
    k = 'int' if isint else ('float')
    if not isint and kind(a) != kind(b):
        # python returns the argument itself, so the type depends on which is chosen
        if I.decide(ea >= eb if up else ea <= eb):
            return a
        return b
    if I.entails(ea >= eb if up else ea <= eb):
        return a
    if I.entails(eb >= ea if up else eb <= ea):
        return b
    return mk(z3.If(ea >= eb if up else ea <= eb, ea, eb), k)


def mk_extremum(up):
    name = 'max' if up else 'min'

    def f(I, a, k):
        key = k.get('key')
        if len(a) == 1:
            v = a[0]
            if hasattr(v, 'extremum_'):
                return v.extremum_(I, up)
            items = I.domain(v)
            if key is not None:
                raise Unsupported(name + ' with key')
            if not items and 'default' in k:
                return k['default']
            return extremum(I, items, up, name)
        if key is not None:
            raise Unsupported(name + ' with key')
        for x in a:
            if x is None or isinstance(x, (str, tuple)):
                raise I.exc('TypeError', 'comparison not supported')
        return extremum(I, list(a), up, name)
    return f


def b_sum(I, a, k):
    items = I.domain(a[0])
    acc = a[1] if len(a) > 1 else k.get('start', 0)
    return seg_sum(I, items, acc)


def seg_sum(I, items, acc):
    from .loops import sum_term
    for x in items:
        if isinstance(x, For):
            inner = seg_sum(I, x.body, 0)
            if kind(inner) not in ('int', 'bool'):
                raise Unsupported('sum over a symbolic family')
            if isinstance(inner, int):
                n = mk(z3.If(x.hi >= x.lo, x.hi - x.lo, smt.iv(0)), 'int')
                acc = I.binop('Add', acc, I.binop('Mult', n, inner))
            else:
                acc = I.binop('Add', acc, sum_term(I, x.var, x.lo, x.hi, ints(inner)))
        elif isinstance(x, Cond):
            t = None
            for g, b in reversed(x.alts):
                c = ints(seg_sum(I, b, 0))
                t = c if t is None else z3.If(g, c, t)
            acc = I.binop('Add', acc, mk(t, 'int'))
        elif isinstance(x, Prefix):
            raise Unsupported('iteration over a list under construction')
        else:
            acc = I.binop('Add', acc, x)
    return acc


def quant(I, items, want):
    """True iff every element's truth value is `want`"""
    from .loops import subst_items
    for x in items:
        if isinstance(x, For):
            b = I.fresh('all', smt.Bool)
            if I.decide(z3.Or(b, x.hi <= x.lo)):
                leaves = []
                collect_leaves(x.body, [], [], leaves)
                for fors, guards, v in leaves:
                    t = I.truth_term(v)
                    if isinstance(t, bool):
                        t = z3.BoolVal(t)
                    if not want:
                        t = z3.Not(t)
                    if guards:
                        t = z3.Implies(z3.And(*guards), t)
                    if fors:
                        I.qfacts.append((x.var, x.lo, x.hi, t, list(fors)))
                    else:
                        I.qfacts.append((x.var, x.lo, x.hi, t))
                continue
            w = I.fresh('wit')
            I.assume(z3.And(x.lo <= w, w < x.hi))
            body = subst_items(x.body, [(x.var, w)])
            if not quant(I, body, want):
                return False
            raise DeadPath()
        elif isinstance(x, Cond):
            for g, bb in x.alts:
                if I.decide(g):
                    if not quant(I, bb, want):
                        return False
                    break
            else:
                raise DeadPath()
        elif isinstance(x, Prefix):
            raise Unsupported('iteration over a list under construction')
        else:
            if I.truth(x) != want:
                return False
    return True


def b_all(I, a, k):
    if hasattr(a[0], 'all_'):
        return a[0].all_(I)
    return quant(I, I.domain(a[0]), True)


def b_any(I, a, k):
    if hasattr(a[0], 'any_'):
        return a[0].any_(I)
    return not quant(I, I.domain(a[0]), False)


def as_indexed(I, v):
    """(length term, fn index-> value) of a sequence value, or None"""
    if isinstance(v, SymSeq):
        return v.length, v.at
    if isinstance(v, VRange):
        lo, st = v.lo, v.step
        n = I.seg_count(I.range_domain(v), 0)
        return ints(n), (lambda i: mk(ex(lo) + ex(st) * i, 'int'))
    items = None
    if isinstance(v, VList):
        items = v.items
    elif isinstance(v, tuple):
        items = list(v)
    elif isinstance(v, VGen):
        items = I.domain(v)
    if items is None and hasattr(v, 'domain_'):
        items = v.domain_(I)
    if items is None:
        return None
    if len(items) == 1 and isinstance(items[0], For) and len(items[0].body) == 1 and not isinstance(items[0].body[0], SEG):
        f = items[0]
        from .loops import subst_value
        return z3.simplify(z3.If(f.hi >= f.lo, f.hi - f.lo, smt.iv(0))), \
            (lambda i: subst_value(f.body[0], [(f.var, z3.simplify(f.lo + i))]))
    return items


def b_enumerate(I, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    items = I.domain(a[0])
    if is_concrete_items(items):
        return VGen(VList([(I.binop('Add', start, i), x) for i, x in enumerate(items)]))
    out = []
    off = start
    for x in items:
        if isinstance(x, For) and len(x.body) == 1 and not isinstance(x.body[0], SEG):
            out.append(For(x.var, x.lo, x.hi, [(I.binop('Add', off, mk(x.var - x.lo, 'int')), x.body[0])]))
            off = I.binop('Add', off, I.seg_count([x], 0))
        elif isinstance(x, SEG):
            return VGen(enum_filtered(I, items, start))
        else:
            out.append((off, x))
            off = I.binop('Add', off, 1)
    return VGen(VList(out))


def enum_filtered(I, items, start):
    """enumerate over For with guards: position = number of earlier elements (prefix count)"""
    from .loops import sum_term
    if len(items) == 1 and isinstance(items[0], For) and len(items[0].body) == 1 and isinstance(items[0].body[0], Cond):
        f = items[0]
        c = f.body[0]
        if all(len(b) <= 1 and is_concrete_items(b) for _, b in c.alts):
            cnt = ints(I.seg_count(f.body, 0))
            bv = z3.FreshConst(smt.Int, 's')
            pre = sum_term(I, bv, f.lo, f.var, z3.substitute(cnt, (f.var, bv)))
            idx = I.binop('Add', start, pre)
            return VList([For(f.var, f.lo, f.hi, [Cond([(g, [(idx, x) for x in b]) for g, b in c.alts])])])
    raise Unsupported('enumerate over a nested symbolic family')


def b_zip(I, a, k):
    if not a:
        return VGen(VList())
    if len(a) == 1 and isinstance(a[0], StarSeg):
        return zip_family(I, a[0].segs)
    if any(isinstance(x, StarSeg) for x in a):
        raise Unsupported('zip of symbolic number of sequences')
    seqs = [as_indexed(I, x) if not isinstance(x, (str, VDict)) else I.domain(x) for x in a]
    for x, s in zip(a, seqs):
        if s is None:
            raise Unsupported('zip of %r' % (x,))
    if all(isinstance(s, list) for s in seqs):
        if all(is_concrete_items(s) for s in seqs):
            n = min(len(s) for s in seqs)
            return VGen(VList([tuple(s[i] for s in seqs) for i in range(n)]))
        # identical segment structure?
        r = zip_struct(I, seqs)
        if r is not None:
            return VGen(VList(r))
        raise Unsupported('zip of nested families')
    lens = []
    fns = []
    for s in seqs:
        if isinstance(s, list):
            if not is_concrete_items(s):
                raise Unsupported('zip of a nested family')
            lens.append(smt.iv(len(s)))
            fns.append(None)
        else:
            lens.append(s[0])
            fns.append(s[1])
    # minimum length
    if any(f is None for f in fns):
        k0 = min(len(s) for s in seqs if isinstance(s, list))
        n = k0
        for s in seqs:
            if not isinstance(s, list):
                while n > 0 and not I.decide(s[0] >= n):
                    n -= 1
        return VGen(VList([tuple(s[i] if isinstance(s, list) else s[1](smt.iv(i)) for s in seqs) for i in range(n)]))
    m = lens[0]
    for l in lens[1:]:
        if I.entails(l == m):
            continue
        m = z3.simplify(z3.If(l < m, l, m))
    i = I.freshvar('z')
    return VGen(VList([For(i, smt.iv(0), m, [tuple(f(i) for f in fns)])]))


def zip_struct(I, seqs):
    from .loops import subst_items
    first = seqs[0]
    if any(len(s) != len(first) for s in seqs):
        return None
    out = []
    for xs in zip(*seqs):
        if all(isinstance(x, For) for x in xs):
            f = xs[0]
            bodies = [f.body]
            for g in xs[1:]:
                if not I.entails(z3.And(g.lo == f.lo, g.hi == f.hi)):
                    return None
                bodies.append(subst_items(g.body, [(g.var, f.var)]))
            b = zip_struct(I, bodies)
            if b is None:
                return None
            out.append(For(f.var, f.lo, f.hi, b))
        elif all(isinstance(x, Cond) for x in xs):
            alts = []
            for ys in zip(*[x.alts for x in xs]):
                if any(not I.entails(y[0] == ys[0][0]) for y in ys[1:]):
                    return None
                b = zip_struct(I, [y[1] for y in ys])
                if b is None:
                    return None
                alts.append((ys[0][0], b))
            if any(len(x.alts) != len(xs[0].alts) for x in xs):
                return None
            out.append(Cond(alts))
        elif any(isinstance(x, SEG) for x in xs):
            return None
        else:
            out.append(tuple(xs))
    return out


def zip_family(I, segs):
    """zip(*[s_l for l in ..]): transposes a family of sequences of identical structure"""
    if len(segs) == 1 and isinstance(segs[0], For) and len(segs[0].body) == 1:
        f = segs[0]
        x = f.body[0]
        items = x.items if isinstance(x, VList) else list(x) if isinstance(x, tuple) else None
        if items is None and isinstance(x, VGen):
            items = I.domain(x)
        if items is not None:
            from .loops import occurs
            I.binders.append(f.var)

            def indep(its):
                for y in its:
                    if isinstance(y, For):
                        if occurs(f.var, y.lo) or occurs(f.var, y.hi) or not indep(y.body):
                            return False
                    elif isinstance(y, Cond):
                        if any(occurs(f.var, g) or not indep(b) for g, b in y.alts):
                            return False
                    elif isinstance(y, SEG):
                        return False
                return True
            ok = indep(items)
            I.binders.pop()
            if ok:
                def leaf(v):
                    return VList([For(f.var, f.lo, f.hi, [v])])     # a tuple of symbolic length
                if not I.entails(f.hi > f.lo):
                    if not I.decide(f.hi > f.lo):
                        return VGen(VList())
                return VGen(VList(seg_map(items, leaf)))
    raise Unsupported('zip(*family)')


def b_map(I, a, k):
    f = a[0]
    if len(a) > 2:
        z = b_zip(I, a[1:], {})
        out = VList()
        I.loop(I.domain(z), lambda v: I.list_append(out, I.call(f, list(v))))
        return VGen(out)
    out = VList()
    I.loop(I.domain(a[1]), lambda v: I.list_append(out, I.call(f, [v])))
    return VGen(out)


def b_filter(I, a, k):
    f = a[0]
    out = VList()

    def body(v):
        if I.truth(I.call(f, [v]) if f is not None else v):
            I.list_append(out, v)
    I.loop(I.domain(a[1]), body)
    return VGen(out)


def b_next(I, a, k):
    g = a[0]
    if not isinstance(g, VGen):
        raise Unsupported('next(%r)' % (g,))
    from .loops import subst_items
    while True:
        items = g.lst.items[g.pos:]
        if not items:
            if len(a) > 1:
                return a[1]
            raise I.exc('StopIteration')
        x = items[0]
        if isinstance(x, For):
            if I.decide(x.lo < x.hi):
                rest = [For(x.var, z3.simplify(x.lo + 1), x.hi, x.body)]
                I.touch(g.lst)
                g.lst.items[g.pos:g.pos + 1] = subst_items(x.body, [(x.var, x.lo)]) + rest
            else:
                I.touch(g)
                g.pos += 1
        elif isinstance(x, Cond):
            for gd, b in x.alts:
                if I.decide(gd):
                    I.touch(g.lst)
                    g.lst.items[g.pos:g.pos + 1] = list(b)
                    break
            else:
                raise DeadPath()
        else:
            I.touch(g)
            g.pos += 1
            return x


def b_iter(I, a, k):
    if isinstance(a[0], VGen):
        return a[0]
    return VGen(VList(I.domain(a[0])))


def b_list(I, a, k):
    return VList(I.domain(a[0])) if a else VList()


def b_tuple(I, a, k):
    return tuple(I.domain(a[0])) if a else ()


def b_dict(I, a, k):
    d = VDict()
    if a:
        if hasattr(a[0], 'todict_'):
            return a[0].todict_(I)
        if isinstance(a[0], VDict):
            d.items.update(a[0].items)
            d.segs += a[0].segs
        else:
            def body(v):
                kk, vv = I.unpack(v)
                I.setitem(d, kk, vv)
            I.loop(I.domain(a[0]), body)
    d.items.update(k)
    return d


def b_sorted(I, a, k):
    l = VList(I.domain(a[0]))
    list_sort(I, l, k)
    return l


def list_sort(I, l, k):
    from .order import sort_items
    key = k.get('key')
    rev = k.get('reverse', False)
    if not isinstance(rev, bool):
        rev = I.truth(rev)
    I.touch(l)
    l.items = sort_items(I, l.items, key, rev)


def b_reversed(I, a, k):
    items = I.domain(a[0])
    if is_concrete_items(items):
        return VGen(VList(list(reversed(items))))
    from .loops import subst_items
    out = []
    for x in reversed(items):
        if isinstance(x, For) and len(x.body) == 1:
            out.append(For(x.var, x.lo, x.hi, subst_items(x.body, [(x.var, z3.simplify(x.lo + x.hi - 1 - x.var))])))
        elif isinstance(x, SEG):
            raise Unsupported('reversed')
        else:
            out.append(x)
    return VGen(VList(out))


def b_hasattr(I, a, k):
    return I.getattr_opt(a[0], a[1]) is not MISSING


def b_getattr(I, a, k):
    if not isinstance(a[1], str):
        raise Unsupported('getattr with symbolic name')
    r = I.getattr_opt(a[0], a[1])
    if r is MISSING:
        if len(a) > 2:
            return a[2]
        raise I.exc('AttributeError', a[1])
    return r


def b_setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])


def b_abs(I, a, k):
    v = a[0]
    if hasattr(v, 'abs_'):
        return v.abs_(I)
    if is_scalar(v):
        if not isinstance(v, Sym):
            return abs(v)
        e = ints(v)
        if I.entails(e >= 0):
            return v
        if I.entails(e <= 0):
            return mk(-e, 'int' if z3.is_int(e) else 'float')
        return mk(z3.If(e >= 0, e, -e), 'int' if z3.is_int(e) else 'float')
    raise I.exc('TypeError', 'bad operand type for abs()')


def b_bool(I, a, k):
    if not a:
        return False
    t = I.truth_term(a[0])
    return t if isinstance(t, bool) else mk(t, 'bool')


def b_str(I, a, k):
    if not a:
        return ''
    r = render(I, a[0])
    return r if isinstance(r, (str, StrCat)) else StrCat([r])


def b_len(I, a, k):
    return I.length(a[0])


def b_round(I, a, k):
    v = a[0]
    if len(a) > 1 or k:
        raise Unsupported('round with digits')
    if not isinstance(v, Sym) and is_scalar(v):
        return round(v)
    if is_int_val(v):
        return v
    e = reals(v)
    r = I.fresh('round')
    I.assume(z3.And(2 * (e - z3.ToReal(r)) <= 1, 2 * (z3.ToReal(r) - e) <= 1))
    return Sym(r, 'int')


def b_type(I, a, k):
    if len(a) == 1:
        v = a[0]
        if isinstance(v, VObj):
            return v.cls
        for n in ('bool', 'int', 'float', 'str', 'tuple', 'list', 'dict'):
            if I.builtins[n].native.check(v):
                return I.builtins[n]
        if v is None:
            return I.nonetype
        if hasattr(v, 'type_'):
            return v.type_(I)
        return Opaque('type')
    return VClass(a[0], list(a[1]) or [I.object_cls], dict(a[2].items))


def b_divmod(I, a, k):
    return (I.binop('FloorDiv', a[0], a[1]), I.binop('Mod', a[0], a[1]))


def b_pow(I, a, k):
    return I.binop('Pow', a[0], a[1])


def b_property(I, a, k):
    return VProp(a[0] if a else None, a[1] if len(a) > 1 else None)


def b_issubclass(I, a, k):
    cs = a[1] if isinstance(a[1], tuple) else (a[1],)
    return any(isinstance(c, VClass) and a[0].issub(c) for c in cs)


def install(I):
    B = I.builtins
    B.update(I.exc_classes)
    B['object'] = I.object_cls
    isf = lambda v: isinstance(v, (float, Fraction)) or (isinstance(v, Sym) and v.k == 'float')
    B['bool'] = mktype('bool', lambda v: isinstance(v, bool) or (isinstance(v, Sym) and v.k == 'bool'), b_bool)
    B['int'] = mktype('int', is_int_val, to_int)
    B['float'] = mktype('float', isf, to_float)
    B['str'] = mktype('str', lambda v: isinstance(v, (str, UStr, StrCat)) or getattr(v, 'is_str_', False), b_str)
    B['tuple'] = mktype('tuple', lambda v: isinstance(v, tuple), b_tuple)
    B['list'] = mktype('list', lambda v: isinstance(v, VList) or (isinstance(v, SymSeq) and v.kind == 'list'), b_list)
    B['set'] = mktype('set', lambda v: False, b_list)
    B['dict'] = mktype('dict', lambda v: isinstance(v, VDict), b_dict)
    B['complex'] = mktype('complex', lambda v: type(v).__name__ == 'CScalar',
                          lambda I, a, k: I.mkcomplex(a[0], a[1] if len(a) > 1 else Fraction(0)))
    I.nonetype = mktype('NoneType', lambda v: v is None)
    def nat(name, f):
        B[name] = Native(name, f)
    nat('len', b_len)
    nat('range', b_range)
    nat('min', mk_extremum(False))
    nat('max', mk_extremum(True))
    nat('abs', b_abs)
    nat('sum', b_sum)
    nat('any', b_any)
    nat('all', b_all)
    nat('zip', b_zip)
    nat('enumerate', b_enumerate)
    nat('map', b_map)
    nat('filter', b_filter)
    nat('sorted', b_sorted)
    nat('reversed', b_reversed)
    nat('isinstance', lambda I, a, k: instance_of(I, a[0], a[1]))
    nat('issubclass', b_issubclass)
    nat('hasattr', b_hasattr)
    nat('getattr', b_getattr)
    nat('setattr', b_setattr)
    nat('callable', lambda I, a, k: isinstance(a[0], (VFunc, Bound, Native, VClass)) or (isinstance(a[0], VObj) and a[0].cls.lookup('__call__') is not None))
    nat('super', lambda I, a, k: VSuper(a[0], a[1]))
    nat('locals', lambda I, a, k: None)
    nat('print', lambda I, a, k: None)
    nat('type', b_type)
    nat('round', b_round)
    nat('next', b_next)
    nat('iter', b_iter)
    nat('divmod', b_divmod)
    nat('pow', b_pow)
    nat('slice', lambda I, a, k: VSlice(*((None, a[0], None) if len(a) == 1 else (list(a) + [None])[:3])))
    nat('staticmethod', lambda I, a, k: VStatic(a[0]))
    nat('classmethod', lambda I, a, k: VClsM(a[0]))
    nat('property', b_property)
    nat('id', lambda I, a, k: id(a[0]))
    nat('repr', b_str)
    nat('vars', lambda I, a, k: VDict(a[0].attrs) if isinstance(a[0], VObj) else I._unsup('vars'))
    B['NotImplemented'] = Opaque('NotImplemented')
    B['Ellipsis'] = Ellip
    B['__name__'] = '__main__'


# ------------------------------------------------------------ methods
def N(f, name='method'):
    return Native(name, f)


def method_of(I, o, name):
    if isinstance(o, VList):
        if name == 'append':
            return N(lambda I, a, k: I.list_append(o, a[0]))
        if name == 'add':
            return N(lambda I, a, k: I.list_append(o, a[0]))
        if name == 'extend':
            return N(lambda I, a, k: I.list_extend(o, a[0]))
        if name == 'sort':
            return N(lambda I, a, k: list_sort(I, o, k))
        if name == 'pop':
            return N(lambda I, a, k: list_pop(I, o, a))
        if name == 'insert':
            return N(lambda I, a, k: list_insert(I, o, a))
        if name == 'copy':
            return N(lambda I, a, k: VList(o.items))
        if name == 'clear':
            def clear(I, a, k):
                I.touch(o)
                o.items = []
            return N(clear)
        if name == 'reverse':
            def rev(I, a, k):
                r = b_reversed(I, [o], {})
                I.touch(o)
                o.items = r.lst.items
            return N(rev)
        if name == 'index':
            return N(lambda I, a, k: seq_index(I, o.items, a[0]))
        if name == 'count':
            return N(lambda I, a, k: seq_count_eq(I, o.items, a[0]))
        return MISSING
    if isinstance(o, tuple):
        if name == 'index':
            return N(lambda I, a, k: seq_index(I, list(o), a[0]))
        if name == 'count':
            return N(lambda I, a, k: seq_count_eq(I, list(o), a[0]))
        if name == 'numel':
            return MISSING
        return MISSING
    if isinstance(o, VDict):
        if name == 'items':
            return N(lambda I, a, k: dict_iter(I, o, 'items'))
        if name == 'keys':
            return N(lambda I, a, k: dict_iter(I, o, 'keys'))
        if name == 'values':
            return N(lambda I, a, k: dict_iter(I, o, 'values'))
        if name == 'get':
            def get(I, a, k):
                try:
                    return I.dict_getitem(o, a[0])
                except PyRaise as r:
                    if r.exc.cls.name == 'KeyError':
                        return a[1] if len(a) > 1 else k.get('default')
                    raise
            return N(get)
        if name == 'pop':
            def pop(I, a, k):
                try:
                    v = I.dict_getitem(o, a[0])
                except PyRaise as r:
                    if r.exc.cls.name == 'KeyError' and len(a) > 1:
                        return a[1]
                    raise
                I.delitem(o, a[0])
                return v
            return N(pop)
        if name == 'update':
            def upd(I, a, k):
                for src in a:
                    if isinstance(src, VDict) and not src.segs:
                        for kk, vv in src.items.items():
                            I.setitem(o, kk, vv)
                    else:
                        raise Unsupported('dict.update')
                for kk, vv in k.items():
                    I.setitem(o, kk, vv)
            return N(upd)
        if name == 'setdefault':
            def sd(I, a, k):
                try:
                    return I.dict_getitem(o, a[0])
                except PyRaise as r:
                    if r.exc.cls.name != 'KeyError':
                        raise
                I.setitem(o, a[0], a[1] if len(a) > 1 else None)
                return a[1] if len(a) > 1 else None
            return N(sd)
        if name == 'copy':
            def cp(I, a, k):
                d = VDict(o.items)
                d.segs = list(o.segs)
                return d
            return N(cp)
        return MISSING
    if isinstance(o, str):
        if name == 'format':
            return N(lambda I, a, k: format_str(I, o, a, k))
        if name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'split', 'title', 'capitalize', 'rstrip', 'lstrip', 'isdigit'):
            def m(I, a, k):
                if not all(isinstance(x, (str, int)) for x in a):
                    raise Unsupported('str.%s with symbolic argument' % name)
                r = getattr(o, name)(*a)
                return VList(r) if isinstance(r, list) else r
            return N(m)
        if name == 'join':
            def j(I, a, k):
                items = flat(I, a[0], 'join')
                if all(isinstance(x, str) for x in items):
                    return o.join(items)
                return '<joined>'
            return N(j)
        return MISSING
    if isinstance(o, UStr):
        if name in ('lower', 'strip'):
            raise Unsupported('str.%s on an arbitrary string' % name)
        return MISSING
    if isinstance(o, VGen):
        if name == '__next__':
            return N(lambda I, a, k: b_next(I, [o], {}))
        return MISSING
    if is_scalar(o):
        if name == 'item':
            return MISSING
        if name == 'real':
            return o
        if name == 'imag':
            return 0
        if name == 'bit_length' and kind(o) == 'int':
            def bl(I, a, k):
                if isinstance(o, int):
                    return o.bit_length()
                if I.decide(ints(o) == 0):
                    return 0
                if not I.decide(ints(o) > 0):
                    raise Unsupported('bit_length of negative')
                return mk(smt.flog2(reals(o)) + 1, 'int')
            return N(bl)
        if name == 'is_integer' and kind(o) == 'float':
            return N(lambda I, a, k: mk(z3.IsInt(reals(o)), 'bool'))
        return MISSING
    if o is None:
        return MISSING
    if isinstance(o, (SymSeq, VRange, VSlice)):
        if isinstance(o, VSlice):
            return {'start': o.lo, 'stop': o.hi, 'step': o.step}.get(name, MISSING)
        return MISSING
    if isinstance(o, Native):
        if name == '__name__':
            return o.name
        return MISSING
    if isinstance(o, VProp):
        if name == 'setter':
            return N(lambda I, a, k: VProp(o.fget, a[0]))
        if name == 'getter':
            return N(lambda I, a, k: VProp(a[0], o.fset))
        if name in ('__doc__', 'fget', 'fset'):
            return getattr(o, name, None)
    if isinstance(o, VStatic):
        return MISSING
    raise Unsupported('attribute %s of %r' % (name, o))


def dict_iter(I, o, what):
    f = {'items': lambda kv: (kv.k, kv.v), 'keys': lambda kv: kv.k, 'values': lambda kv: kv.v}[what]
    items = [f(KV(k, v)) for k, v in o.items.items()]
    for s in o.segs:
        if isinstance(s, FMap):
            i = I.freshvar('k')
            items.append(For(i, s.lo, s.hi, [f(KV(Sym(i, 'int'), s.fn(i)))]))
        elif isinstance(s, (For, Cond)):
            items += seg_map([s], f)
        elif isinstance(s, KV):
            items.append(f(s))
        else:
            raise Unsupported('iteration over a dict under construction')
    if o.segs:
        check_distinct(I, o)
    return VGen(VList(items))


def check_distinct(I, o):
    """iteration over symbolic keys is only meaningful if they are pairwise distinct"""
    leaves = []
    collect_leaves([x for x in o.segs], [], [], leaves)
    if len(o.segs) == 1 and isinstance(o.segs[0], For) and len(leaves) == 1 and not o.items:
        fors, guards, kv = leaves[0]
        if len(fors) == 1 and kind(kv.k) == 'int' and kv.k.e.get_id() == fors[0].var.get_id():
            return
        from .loops import subst_value
        f = fors[-1]
        w = z3.FreshConst(smt.Int, 'w')
        k2 = subst_value(kv.k, [(f.var, w)])
        if len(fors) == 1:
            t = I.eq(kv.k, k2)
            t = z3.BoolVal(t) if isinstance(t, bool) else ex(t)
            if smt.prove(I.context() + [f.lo <= f.var, f.var < f.hi, f.lo <= w, w < f.hi, w != f.var], z3.Not(t)).ok:
                return
    if all(isinstance(s, FMap) for s in o.segs) and len(o.segs) == 1 and not o.items:
        return
    raise Unsupported('iteration over a dict whose symbolic keys may collide')


def list_pop(I, o, a):
    i = a[0] if a else -1
    if not isinstance(i, int):
        raise Unsupported('pop at symbolic index')
    if not o.items:
        raise I.exc('IndexError', 'pop from empty list')
    n = len(o.items)
    if i == -1 and isinstance(o.items[-1], For):
        f = o.items[-1]
        if len(f.body) == 1 and not isinstance(f.body[0], SEG) and I.entails(f.hi > f.lo):
            from .loops import subst_value
            I.touch(o)
            o.items = o.items[:-1] + [For(f.var, f.lo, z3.simplify(f.hi - 1), f.body)]
            return subst_value(f.body[0], [(f.var, z3.simplify(f.hi - 1))])
    k = i if i >= 0 else n + i
    if any(isinstance(x, SEG) for x in (o.items[:k + 1] if i >= 0 else o.items[k:])):
        raise Unsupported('pop in a symbolic list')
    if not 0 <= k < n:
        raise I.exc('IndexError', 'pop index out of range')
    I.touch(o)
    return o.items.pop(k)


def list_insert(I, o, a):
    i = a[0]
    if not isinstance(i, int) or (i != 0 and not is_concrete_items(o.items)):
        raise Unsupported('insert at symbolic position')
    I.touch(o)
    o.items.insert(i, a[1])


def seq_index(I, items, v):
    if not is_concrete_items(items):
        raise Unsupported('index() in a symbolic sequence')
    for i, x in enumerate(items):
        if I.truth(I.eq(x, v)):
            return i
    raise I.exc('ValueError', 'not in list')


def seq_count_eq(I, items, v):
    if not is_concrete_items(items):
        raise Unsupported('count() in a symbolic sequence')
    n = 0
    for x in items:
        n = I.binop('Add', n, I.builtins['int'].native.new(I, None, [I.eq(x, v)], {}))
    return n
