"""C06: meta() and output_size() describe exactly the coefficients of the 1D transform."""
import z3
from vc import smt, tables
from vc.values import *
from vc.npmodel import NpVec, NAN, NanT
from vc.spec import match, eq_obl
from vc.harness import Case
from .c1d import *
from .c02 import make_input

VALS = {'xi': XI, 'sigma': SIG, 'j': J_OF}


def paths(I, max_order):
    """the documented paths: tuples of wavelet indices"""
    n1, n2 = I.freshvar('n1'), I.freshvar('n2')
    z = smt.iv(0)
    out = [(), For(n1, z, N1, [(Sym(n1, 'int'),)])]
    if max_order == 2:
        c = J_OF[1](n1) < J_OF[2](n2)
        out.append(For(n1, z, N1, [For(n2, z, N2, [Cond([(c, [(Sym(n1, 'int'), Sym(n2, 'int'))]), (z3.Not(c), [])])])]))
    return out


def entry(I, name, g, w):
    """a table entry equals w (NAN or a scalar)"""
    if isinstance(g, NanT) or isinstance(w, NanT):
        I.oblige(name, isinstance(g, NanT) and isinstance(w, NanT), '%r, expected %r' % (g, w))
        return
    if kind(g) is None:
        I.oblige(name, False, '%r, expected %r' % (g, w))
        return
    eq_obl(I, name, g, w)


def table_obl(I, key, got, max_order, want):
    """every row of the table: value of column c is want(order, n) for c < order, NaN beyond"""
    if not isinstance(got, tables.NpTable):
        I.oblige("meta['%s'] is a two-dimensional array" % key, False, repr(got)[:200])
        return
    I.oblige("meta['%s'] has max_order columns" % key, got.width == max_order, str(got.width))
    if got.width != max_order:
        return

    def leaf(I, name, g, n):
        for c in range(max_order):
            w = want(c + 1, n[c]) if c < len(n) else NAN
            entry(I, "meta['%s'], coefficients of order %d, column %d" % (key, len(n), c), g.at(I, c), w)
    match(I, "meta['%s']" % key, tables.rows_of(got), paths(I, max_order), leaf)


def order_leaf(I, name, g, n):
    eq_obl(I, name + ' of order %d' % len(n), g, len(n))


def key_leaf(I, name, g, n):
    eq_obl(I, name + ' of order %d' % len(n), g, n)


def meta_case(frontend, tkind, max_order, stride, part):
    def body(I):
        tables.install(I)
        o, kw = build(I, frontend, tkind, 'list', max_order, stride)
        m = I.call(I.getattr(o, 'meta'), [])
        if not isinstance(m, VDict):
            I.oblige('meta() is a dictionary', False, repr(m))
            return
        for k in ('order', 'key', 'n', 'xi', 'sigma', 'j'):
            I.oblige('meta() has key ' + k, k in m.items, str(list(m.items)))
        P = lambda: paths(I, max_order)
        if part == 'keys':
            keys = m.items['key']
            match(I, "meta['key']", I.domain(keys), P(), key_leaf)
            od = m.items['order']
            match(I, "meta['order']", od.items if isinstance(od, NpVec) else I.domain(od), P(), order_leaf)
            x = make_input(I, I.params['N'])
            got = I.call(I.getattr(o, 'scattering'), [x])

            def label(I, name, g, w):
                eq_obl(I, name, g.items['n'], w)
            match(I, 'the transform returns the coefficients meta() lists, in that order', I.domain(got), I.domain(keys), label)
        elif part == 'n':
            table_obl(I, 'n', m.items['n'], max_order, lambda c, n: n)
        else:
            table_obl(I, part, m.items[part], max_order, lambda c, n: Sym(VALS[part][c](ints(n)), 'int' if part == 'j' else 'float'))
    return body


def size_case(frontend, tkind, max_order):
    def body(I):
        tables.install(I)
        o, kw = build(I, frontend, tkind, 'list', max_order, 'None')
        P = paths(I, max_order)
        total = I.seg_count(P, 0)
        per = [1, I.seg_count(P[1:2], 0)] + ([I.seg_count(P[2:], 0)] if max_order == 2 else [])
        f = I.getattr(o, 'output_size')
        eq_obl(I, 'output_size() is the number of coefficients', I.call(f, []), total)
        d = I.call(f, [], {'detail': True})
        d = tuple(I.domain(d)) if isinstance(d, (VList, VGen)) else d
        if not isinstance(d, tuple):
            I.oblige('output_size(detail=True) is a tuple', False, repr(d))
            return
        I.oblige('output_size(detail=True) counts every order present', len(d) in (len(per), len(per) - 1), str(len(d)))
        for i in range(len(per)):
            if i < len(d):
                eq_obl(I, 'number of coefficients of order %d' % i, d[i], per[i])
            else:
                eq_obl(I, 'an order left out has no coefficients', per[i], 0)
    return body


def cases(tier):
    S = [contracts_1d]
    out = []
    for mo in (2, 1):
        for t in ('None', 'global', '0', 'sym'):
            for st in (('None', 'sym') if t in ('None', 'sym') else ('None',)):
                for part in ('keys', 'n', 'xi', 'sigma', 'j'):
                    if part in ('keys', 'n', 'j') or (t, st) in (('None', 'None'), ('0', 'None')) or tier == 'thorough':
                        out.append(Case('numpy meta %s T=%s stride=%s max_order=%d' % (part, t, st, mo), meta_case('numpy', t, mo, st, part), S))
            out.append(Case('numpy output_size T=%s max_order=%d' % (t, mo), size_case('numpy', t, mo), S))
    for f in ('torch', 'jax', 'tensorflow'):
        for part in ('keys', 'n', 'xi', 'sigma', 'j'):
            out.append(Case('%s meta %s' % (f, part), meta_case(f, 'None', 2, 'None', part), S))
        out.append(Case('%s output_size' % f, size_case(f, 'None', 2), S))
    return out
