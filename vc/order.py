"""list.sort / sorted on symbolic families: leaves are partitioned into classes whose mutual order does not depend on
the indices; within a class the traversal order is proved to be increasing already (stable sort keeps it)."""
import functools
import z3
from . import smt
from .values import *
from .interp import DeadPath, hashable


def lt(I, a, b):
    return I.compare('Lt', a, b)


def sort_items(I, items, key, rev):
    if rev and not is_concrete_items(items):
        raise Unsupported('reverse sort of a symbolic family')
    if is_concrete_items(items):
        ks = [(I.call(key, [x]) if key is not None else x, x) for x in items]

        class K:
            __slots__ = ('k',)

            def __init__(s, k):
                s.k = k

            def __lt__(s, o):
                return I.truth(lt(I, s.k, o.k))
        if len(ks) > 40:
            raise Unsupported('sorting many symbolic elements')
        return [x for k, x in sorted(ks, key=lambda p: K(p[0]), reverse=rev)]
    leaves = []
    collect(I, items, [], [], leaves)
    ents = []
    for fors, guards, v in leaves:
        n0 = len(I.pc)
        for f in fors:
            I.binders.append(f.var)
            I.pc.append(z3.And(f.lo <= f.var, f.var < f.hi))
        I.pc.extend(guards)
        try:
            k = I.call(key, [v]) if key is not None else v
        finally:
            for f in fors:
                I.binders.pop()
            del I.pc[n0:]
        ents.append((fors, guards, v, k))
    # classes
    n = len(ents)
    rel = {}
    for i in range(n):
        for j in range(i + 1, n):
            rel[i, j] = uniform(I, ents[i], ents[j])
    classes = []          # list of lists of indices, in order
    for i in range(n):
        same = [c for c in classes if any(rel[min(i, j), max(i, j)] == '?' for j in c)]
        if len(same) > 1:
            raise Unsupported('sort: elements of interleaved classes')
        if same:
            same[0].append(i)
        else:
            classes.append([i])
    def cmp(c, d):
        s = {rel[min(i, j), max(i, j)] if i < j else {'<': '>', '>': '<', '?': '?'}[rel[j, i]] for i in c for j in d}
        if s == {'<'}:
            return -1
        if s == {'>'}:
            return 1
        raise Unsupported('sort: undecided order of classes')
    classes.sort(key=functools.cmp_to_key(cmp))
    out = []
    for c in classes:
        if len(c) > 1:
            raise Unsupported('sort: several leaves in one key class %r' % (items,))
        e = ents[c[0]]
        increasing(I, e)
        nest = [e[2]]
        for f in reversed(e[0]):
            gs = [g for g, depth in zip(e[1], e_depths(e)) if depth == f]
            nest = [For(f.var, f.lo, f.hi, nest)]
        # guards go around the leaf (they may mention every index of the nest)
        out += rebuild(e)
    return out


def e_depths(e):
    return [None] * len(e[1])


def rebuild(e):
    fors, guards, v, k = e
    body = [v]
    if guards:
        g = z3.And(*guards) if len(guards) > 1 else guards[0]
        body = [Cond([(g, body), (z3.Not(g), [])])]
    for f in reversed(fors):
        body = [For(f.var, f.lo, f.hi, body)]
    return body


def collect(I, items, fors, guards, out):
    for x in items:
        if isinstance(x, For):
            collect(I, x.body, fors + [x], guards, out)
        elif isinstance(x, Cond):
            for g, b in x.alts:
                collect(I, b, fors, guards + [g], out)
        elif isinstance(x, Prefix):
            raise Unsupported('sort of a list under construction')
        else:
            out.append((fors, guards, x))


def rename(e, tag):
    """fresh copies of the indices of an entry -> (bounds+guards, key, renamed vars)"""
    fors, guards, v, k = e
    from .loops import subst_value
    pr, cond, vs = [], [], []
    for f in fors:
        w = z3.FreshConst(smt.Int, tag)
        cond.append(z3.And(z3.substitute(f.lo, *pr) <= w if pr else f.lo <= w, w < (z3.substitute(f.hi, *pr) if pr else f.hi)))
        pr.append((f.var, w))
        vs.append(w)
    cond += [z3.substitute(g, *pr) if pr else g for g in guards]
    return cond, (subst_value(k, pr) if pr else k), vs


def key_lt_term(I, a, b):
    """z3 term of a < b for scalar / tuple keys without branching"""
    if is_scalar(a) and is_scalar(b):
        return z3.BoolVal(bool(a < b)) if not isinstance(a, Sym) and not isinstance(b, Sym) else ints_or_real(a) < ints_or_real(b)
    if isinstance(a, tuple) and isinstance(b, tuple) and is_concrete_items(list(a)) and is_concrete_items(list(b)):
        t = z3.BoolVal(len(a) < len(b))
        for x, y in reversed(list(zip(a, b))):
            t = z3.Or(key_lt_term(I, x, y), z3.And(z3.Not(key_lt_term(I, y, x)), t))
        return t
    if isinstance(a, str) and isinstance(b, str):
        return z3.BoolVal(a < b)
    raise Unsupported('sort key %r' % (a,))


def ints_or_real(v):
    e = ints(v)
    return e


def uniform(I, e1, e2):
    c1, k1, _ = rename(e1, 'a')
    c2, k2, _ = rename(e2, 'b')
    pc = I.context() + c1 + c2
    if smt.prove(pc, key_lt_term(I, k1, k2)).ok:
        return '<'
    if smt.prove(pc, key_lt_term(I, k2, k1)).ok:
        return '>'
    return '?'


def increasing(I, e):
    """along the traversal the keys never decrease (a stable sort then keeps the traversal order)"""
    if not e[0]:
        return
    c1, k1, v1 = rename(e, 'a')
    c2, k2, v2 = rename(e, 'b')
    before = z3.BoolVal(False)
    for x, y in reversed(list(zip(v1, v2))):
        before = z3.Or(x < y, z3.And(x == y, before))
    r = smt.prove(I.context() + c1 + c2 + [before], z3.Not(key_lt_term(I, k2, k1)))
    if not r.ok:
        raise Unsupported('sort: cannot show that the elements are already ordered')
