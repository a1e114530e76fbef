"""Equality of real terms by field arithmetic: case analysis on conditionals, then both sides as fractions of polynomials over
atoms (function applications are equal when their arguments are); denominators must be provably nonzero."""
import z3
from fractions import Fraction
from . import smt
from .binders import is_atom

K = z3
LIMIT = 4000


class GiveUp(Exception):
    pass


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    if len(a) * len(b) > 40 * LIMIT:
        raise GiveUp()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mono(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise GiveUp()
    return r


def mono(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


ONE = {(): Fraction(1)}


class Ring:
    def __init__(self, I, extra, depth, ext):
        self.I, self.extra, self.depth, self.ext = I, extra, depth, ext
        self.atoms, self.index, self.keep = [], {}, []
        self.cache = {}
        self.dens = []

    def find(self, e):
        """index of the atom e, identifying provably equal ones"""
        if e.get_id() in self.index:
            return self.index[e.get_id()]
        if e.num_args():
            if not is_atom(e):
                for c in e.children():
                    if z3.is_arith(c):
                        self.conv(c)
            for i, a in enumerate(self.atoms):
                if a.num_args() == e.num_args() and a.sort() == e.sort() and self.same(a, e):
                    self.index[e.get_id()] = i
                    self.keep.append(e)
                    return i
        self.atoms.append(e)
        self.index[e.get_id()] = len(self.atoms) - 1
        return len(self.atoms) - 1

    def same(self, a, b):
        if is_atom(a) or is_atom(b):
            return is_atom(a) and is_atom(b) and self.ext(self.I, self.extra, a, b, self.depth + 1)
        if not a.decl().eq(b.decl()):
            return False
        for x, y in zip(a.children(), b.children()):
            if x.get_id() == y.get_id():
                continue
            if z3.is_arith(x):
                if not self.eq(x, y):
                    if x.is_real() or not smt.prove(self.I.context(x == y) + list(self.extra), x == y).ok:
                        return False
            elif z3.is_bool(x):
                if not smt.prove(self.I.context(x == y) + list(self.extra), x == y).ok:
                    return False
            else:
                return False
        return True

    def eq(self, a, b):
        try:
            (n1, d1), (n2, d2) = self.conv(a), self.conv(b)
            if d1 == d2:
                return not padd(n1, n2, -1)
            return not padd(pmul(n1, d2), pmul(n2, d1), -1)
        except GiveUp:
            return False

    def conv(self, e):
        k = e.get_id()
        if k not in self.cache:
            self.cache[k] = (self.conv_(e), e)
        return self.cache[k][0]

    def conv_(self, e):
        v = smt.num(e)
        if v is not None:
            return ({(): Fraction(v)} if v else {}), ONE
        d = e.decl().kind() if z3.is_app(e) else None
        ch = e.children() if z3.is_app(e) else []
        if d == z3.Z3_OP_TO_REAL:
            return self.conv(ch[0])
        if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            n, q = self.conv(ch[0])
            for c in ch[1:]:
                m, r = self.conv(c)
                s = 1 if d == z3.Z3_OP_ADD else -1
                if r == q:
                    n = padd(n, m, s)
                else:
                    n, q = padd(pmul(n, r), pmul(m, q), s), pmul(q, r)
            return n, q
        if d == z3.Z3_OP_UMINUS:
            n, q = self.conv(ch[0])
            return {m: -c for m, c in n.items()}, q
        if d == z3.Z3_OP_MUL:
            n, q = ONE, ONE
            for c in ch:
                m, r = self.conv(c)
                n, q = pmul(n, m), pmul(q, r)
            return n, q
        if d == z3.Z3_OP_DIV:
            (n, q), (m, r) = self.conv(ch[0]), self.conv(ch[1])
            if not m:
                raise GiveUp()
            if len(m) != 1 or () not in m:
                self.dens.append(ch[1])
            return pmul(n, r), pmul(q, m)
        return {((self.find(e), 1),): Fraction(1)}, ONE


def ites(e, out, seen):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_app(e):
        for c in e.children():
            ites(c, out, seen)
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            out.append(e)


def proves(I, extra, g):
    return smt.prove(I.context(g) + list(extra), g).ok


def equal(I, extra, a, b, depth, ext, budget=None):
    """a == b by case analysis and field arithmetic (False: not shown)"""
    budget = budget if budget is not None else [96]
    a, b = z3.simplify(a), z3.simplify(b)
    if a.get_id() == b.get_id():
        return True
    while True:
        out = []
        seen = set()
        ites(a, out, seen)
        ites(b, out, seen)
        if not out:
            break
        c = out[0].arg(0)
        hold = None
        if proves(I, extra, c):
            hold = True
        elif proves(I, extra, z3.Not(c)):
            hold = False
        if hold is None:
            budget[0] -= 1
            if budget[0] < 0:
                return False
            for v in (True, False):
                x, y = pick(a, out, c, v), pick(b, out, c, v)
                if not equal(I, list(extra) + [c if v else z3.Not(c)], x, y, depth, ext, budget):
                    return False
            return True
        a, b = pick(a, out, c, hold), pick(b, out, c, hold)
        a, b = z3.simplify(a), z3.simplify(b)
        if a.get_id() == b.get_id():
            return True
    if not (z3.is_arith(a) and a.is_real()):
        return False
    R = Ring(I, list(extra), depth, ext)
    if not R.eq(a, b):
        return False
    seen = set()
    for d in R.dens:
        if d.get_id() not in seen:
            seen.add(d.get_id())
            if not nonzero(I, extra, d):
                return False
    return True


def positive(I, extra, e, strict=True, depth=0):
    """e > 0 (>= 0) from the signs of its parts, each part decided by the solver"""
    v = smt.num(e)
    if v is not None:
        return v > 0 if strict else v >= 0
    if not z3.is_app(e) or depth > 8:
        return False
    k, ch = e.decl().kind(), e.children()

    def rec(x, s=strict):
        return positive(I, extra, x, s, depth + 1)
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        if all(rec(c) for c in ch):
            return True
    elif k == z3.Z3_OP_POWER:
        if rec(ch[0]):
            return True
    elif k == z3.Z3_OP_ADD:
        if all(rec(c, False) for c in ch) and (not strict or any(rec(c) for c in ch)):
            return True
    elif k in (z3.Z3_OP_TO_REAL, z3.Z3_OP_TO_INT):
        if k == z3.Z3_OP_TO_REAL and rec(ch[0]):
            return True
        if k == z3.Z3_OP_TO_INT and (rec(ch[0], False) if not strict else integral_prod(ch[0]) and rec(ch[0])):
            return True
    elif k == z3.Z3_OP_ITE:
        return positive(I, list(extra) + [ch[0]], ch[1], strict, depth + 1) and positive(I, list(extra) + [z3.Not(ch[0])], ch[2], strict, depth + 1)
    elif is_atom(e):
        from .binders import fresh_parts
        op = atom_op(e)
        if op in ('prod', 'sum'):
            vs, bodies, ns = fresh_parts(e)
            bnd = [z3.And(x >= 0, x < n) for x, n in zip(vs, ns)]
            # a product of positive terms is positive; a sum of them if there is at least one
            if all(positive(I, list(extra) + bnd, b, strict, depth + 1) for b in bodies):
                if op == 'prod' or not strict or all(proves(I, extra, n > 0) for n in ns):
                    return True
        return False
    elif k == z3.Z3_OP_UNINTERPRETED and ch:
        n = e.decl().name()
        if n == 'exp':
            return True
        if n == 'sqrt':
            return rec(ch[0]) if strict else True
        if n == 'pow' and rec(ch[0]):
            return True
        if n == 'factorial':
            return proves(I, extra, ch[0] >= 0)
    elif k == z3.Z3_OP_UNINTERPRETED and e.decl().name() == 'pi':
        return True
    return proves(I, extra, e > 0 if strict else e >= 0)


def integral_prod(e):
    if not is_atom(e) or atom_op(e) != 'prod':
        return False
    from .binders import fresh_parts
    vs, bodies, ns = fresh_parts(e)
    return all(integral(b) for b in bodies)


def integral(b):
    v = smt.num(b)
    if v is not None:
        return v == int(v)
    if not z3.is_app(b):
        return False
    k = b.decl().kind()
    return k == z3.Z3_OP_TO_REAL or k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) and all(integral(c) for c in b.children())


def atom_op(e):
    from .binders import TABLE
    return TABLE[e.decl().name()].op


def nonzero(I, extra, d):
    if positive(I, extra, d):
        return True
    if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_MUL:
        return all(nonzero(I, extra, c) for c in d.children())
    return proves(I, extra, d != 0)


def pick(e, out, c, v):
    prs = [(x, x.arg(1) if v else x.arg(2)) for x in out if x.arg(0).get_id() == c.get_id()]
    for _ in range(len(prs) + 1):
        n = z3.substitute(e, *prs)
        if n.get_id() == e.get_id():
            break
        e = n
    return e


def pow_int(I, e):
    """the integer term equal to a real term made of integers and powers of two, if every coefficient is integral"""
    from .etensor import has_decl
    if not z3.is_app(e) or not has_decl(e, ('rpow2', 'pow2')):
        return None
    R = Ring(I, [], 0, lambda *a: False)
    R.same = lambda a, b: False
    try:
        n, q = R.conv(e)
    except GiveUp:
        return None
    if len(q) != 1:
        return None
    (qm, qc), = q.items()
    out = []
    for m, c in n.items():
        c = Fraction(c) / qc
        k, rest = smt.iv(0), []
        for mono_, s in ((m, 1), (qm, -1)):
            for i, p in mono_:
                a = R.atoms[i]
                nm = a.decl().name() if z3.is_app(a) else ''
                if nm == 'rpow2' or nm == 'pow2' and I.entails(a.arg(0) >= 0):
                    k = k + s * p * a.arg(0)
                elif s < 0 or not z3.is_int(a):
                    return None
                else:
                    rest += [a] * p
        k = z3.simplify(k)
        d = c.denominator
        if d & (d - 1):
            return None
        k = z3.simplify(k - (d.bit_length() - 1))
        c = c.numerator
        if not I.entails(k >= 0):
            while c % 2 == 0 and c and not I.entails(k >= 0):
                c //= 2
                k = z3.simplify(k + 1)
            if not I.entails(k >= 0):
                return None
        from .interp import join_pow2
        r = None
        for x in rest:
            r = x if r is None else r * x
        out.append(join_pow2(c, k, r))
    return z3.simplify(z3.Sum(out)) if out else smt.iv(0)
