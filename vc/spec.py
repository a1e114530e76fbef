"""Comparison of a computed segment list with the one a contract demands."""
import z3
from . import smt
from .values import *
from .loops import subst_items, subst_value
from .builtins_model import seg_map


class Mismatch(Exception):
    pass


def nonempty_front(I, items):
    """drop empty families at the front"""
    while items:
        x = items[0]
        if isinstance(x, For) and (not x.body or I.entails(x.hi <= x.lo)):
            items = items[1:]
        elif isinstance(x, Cond) and all(not b for _, b in x.alts):
            items = items[1:]
        else:
            break
    return items


def match(I, name, got, want, leaf, depth=0):
    """record obligations showing that got and want denote the same list; leaf(I, name, g, w) compares elements"""
    got, want = nonempty_front(I, list(got)), nonempty_front(I, list(want))
    while got or want:
        if not I.feasible():
            return
        g = got[0] if got else None
        w = want[0] if want else None
        for side, x in ((0, g), (1, w)):
            if isinstance(x, Cond):
                rest_g = got[1:] if side == 0 else got
                rest_w = want[1:] if side == 1 else want
                # the alternatives of a conditional are exhaustive
                I.oblige(name + ': alternatives exhaustive', z3.Or(*[a for a, _ in x.alts]))
                # split: only the alternative's own elements, then continue after merging when both sides agree
                other = w if side == 0 else g
                if isinstance(other, Cond):
                    ok = True
                    for a, b in x.alts:
                        for a2, b2 in other.alts:
                            split(I, z3.And(a, a2), lambda: match(I, name, b if side == 0 else b2, b2 if side == 0 else b, leaf, depth + 1))
                    got, want = got[1:], want[1:]
                else:
                    for a, b in x.alts:
                        split(I, a, lambda: match(I, name, (list(b) + rest_g) if side == 0 else rest_g,
                                                  (list(b) + rest_w) if side == 1 else rest_w, leaf, depth + 1))
                    return
                break
        else:
            if isinstance(g, Prefix) or isinstance(w, Prefix):
                I.oblige(name + ': list fully determined', False, repr(g))
                return
            if isinstance(g, For) and isinstance(w, For):
                ng, nw = z3.simplify(g.hi - g.lo), z3.simplify(w.hi - w.lo)
                z = smt.iv(0)
                lg = z3.If(ng >= 0, ng, z)
                lw = z3.If(nw >= 0, nw, z)
                if not I.oblige(name + ': number of elements', lg == lw, '%s vs %s' % (ng, nw)):
                    return
                v = I.freshvar('m')
                bg = subst_items(g.body, [(g.var, z3.simplify(v + g.lo))])
                bw = subst_items(w.body, [(w.var, z3.simplify(v + w.lo))])
                I.binders.append(v)
                try:
                    split(I, z3.And(v >= 0, v < ng), lambda: match(I, name, bg, bw, leaf, depth + 1))
                finally:
                    I.binders.pop()
                got, want = got[1:], want[1:]
            elif isinstance(g, For) or isinstance(w, For):
                f = g if isinstance(g, For) else w
                # the family must be empty here, or start with the other's element
                if I.entails(f.hi > f.lo) and (w if isinstance(g, For) else g) is not None:
                    first = subst_items(f.body, [(f.var, f.lo)])
                    rest = [For(f.var, z3.simplify(f.lo + 1), f.hi, f.body)]
                    if isinstance(g, For):
                        got = first + rest + got[1:]
                    else:
                        want = first + rest + want[1:]
                elif not leaves_possible(I, f):
                    if isinstance(g, For):
                        got = got[1:]
                    else:
                        want = want[1:]
                else:
                    I.oblige(name + (': nothing beyond the specified elements' if isinstance(g, For) else ': specified elements present'),
                             f.hi <= f.lo, repr(f)[:300])
                    if isinstance(g, For):
                        got = got[1:]
                    else:
                        want = want[1:]
                    if depth > 40:
                        return
            elif g is None:
                I.oblige(name + ': missing element', False, repr(w)[:300])
                return
            elif w is None:
                I.oblige(name + ': extra element', False, repr(g)[:300])
                return
            else:
                leaf(I, name, g, w)
                got, want = got[1:], want[1:]
        got, want = nonempty_front(I, got), nonempty_front(I, want)


def leaves_possible(I, f):
    """can this family contain an element at all?"""
    from .builtins_model import collect_leaves
    ls = []
    collect_leaves([f], [], [], ls)
    for fors, guards, v in ls:
        ctx = I.context() + [z3.And(x.lo <= x.var, x.var < x.hi) for x in fors] + guards
        if smt.check_sat(ctx, timeout=4000)[0] != 'unsat':
            return True
    return False


def split(I, guard, thunk):
    n, q = len(I.pc), len(I.qfacts)
    I.pc.append(z3.simplify(guard))
    try:
        if I.feasible():
            thunk()
    finally:
        del I.pc[n:]
        del I.qfacts[q:]


def eq_obl(I, name, g, w):
    """equality of python-level values (scalars, tuples, strings)"""
    if isinstance(g, VList):
        g = tuple(g.items)
    try:
        t = I.eq(g, w)
    except Unsupported as u:
        I.oblige(name, False, str(u))
        return
    if isinstance(t, bool):
        I.oblige(name, t, '%r == %r' % (g, w))
    else:
        I.oblige(name, ex(t), '%r == %r' % (g, w))


def tensor_obl(I, name, g, w):
    """same value, shape and kind"""
    from .atensor import AT, dims_eq
    if not isinstance(g, AT):
        I.oblige(name + ': is a tensor', False, repr(g))
        return
    c = dims_eq(I, g.shape, w.shape)
    if c is None:
        I.oblige(name + ': shape', False, '%r vs %r' % (g.shape, w.shape))
    else:
        I.oblige(name + ': shape', z3.And(*c) if c else True, '%r == %r' % (g.shape, w.shape))
    I.oblige(name + ': kind', g.cx == w.cx, '')
    I.oblige(name + ': value', g.e == w.e, '%s == %s' % (g.e, w.e))
