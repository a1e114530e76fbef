"""C01/C02: the 1D transform yields every path once, in order, labelled, and with the right value."""
import z3
from vc import smt
from vc.values import *
from vc.atensor import *
from vc.spec import match, eq_obl, tensor_obl
from vc.smt import pow2, cdivp
from .c1d import *
from vc.harness import Case


def spec_paths(I, o, x, kw, tkind):
    """segments of (n, j, tensor) for every path, from the documentation"""
    N, J = I.params['N'], I.params['J']
    local = tkind in ('None', 'sym', 'symint')
    max_order = kw['max_order']
    floor = lambda v: I.call(I.natives['math'].attrs['floor'], [I.call(I.natives['math'].attrs['log2'], [v])])
    Tt = kw['T'] if tkind in ('sym', 'symint') else I.power(2, J)
    lt = ints(floor(Tt))
    ls = ints(I.params['ls']) if 'ls' in I.params else lt
    pl, pr = ints(o.attrs['pad_left']), ints(o.attrs['pad_right'])
    X = FFT(PAD(x.e, pl, pr))
    Np = ints(o.attrs['_N_padded'])
    batch = x.shape[:-1]
    p2 = pow2
    sub = lambda I, y, k: SUB(y, k)

    def low(y, res):
        """smooth y (given at resolution 2^res) and bring it to the stride"""
        return RE(IFFT(sub(I, CD(y, PHI(res)), p2(ls - res))))

    def finish(e, res, cx=False):
        if tkind == 'global':
            return AT(SUM(e), batch + (1,), False)
        a, b = cdiv(I, pl, res), cdiv(I, pl + N.e, res)
        return AT(UNPAD(e, a, b), batch + (mk(b - a, 'int'),), False)

    out = []
    if local:
        out.append(((), (), finish(low(X, smt.iv(0)), ls)))
    else:
        out.append(((), (), finish(PAD(x.e, pl, pr), smt.iv(0))))
    n1, n2 = I.freshvar('n1'), I.freshvar('n2')
    j1, j2 = J_OF[1](n1), J_OF[2](n2)
    mn = lambda a, b: z3.If(a <= b, a, b)
    k1 = mn(j1, ls) if local else j1
    m2 = mn(j2, ls) if local else j2
    U1 = MOD(IFFT(sub(I, CD(X, PSI[1](n1, smt.iv(0))), p2(k1))))
    c1 = finish(low(FFT(U1), k1), ls) if local else finish(U1, j1)
    out.append(For(n1, smt.iv(0), N1, [((Sym(n1, 'int'),), (Sym(j1, 'int'),), c1)]))
    if max_order == 2:
        U2 = MOD(IFFT(sub(I, CD(FFT(U1), PSI[2](n2, k1)), p2(m2 - k1))))
        c2 = finish(low(FFT(U2), m2), ls) if local else finish(U2, j2)
        leaf = ((Sym(n1, 'int'), Sym(n2, 'int')), (Sym(j1, 'int'), Sym(j2, 'int')), c2)
        out.append(For(n1, smt.iv(0), N1, [For(n2, smt.iv(0), N2, [Cond([(j1 < j2, [leaf]), (z3.Not(j1 < j2), [])])])]))
    return out


def cdiv(I, v, k):
    """ceil(v / 2^k)"""
    k = z3.simplify(k)
    if z3.is_int_value(k) and k.as_long() == 0:
        return v
    return cdivp(v, k)


def leaf_dict(I, name, g, w):
    n, j, c = w
    if not isinstance(g, VDict):
        I.oblige(name + ': entry is a dictionary', False, repr(g))
        return
    order = len(n)
    nm = '%s order %d' % (name, order)
    for key in ('n', 'j', 'order', 'coef'):
        if key not in g.items:
            I.oblige('%s: entry has key %s' % (nm, key), False, repr(g))
            return
    if I.what == 'labels':
        eq_obl(I, nm + ': n label', g.items['n'], n)
        eq_obl(I, nm + ': j label', g.items['j'], j)
        eq_obl(I, nm + ': order label', g.items['order'], order)
    coef_obl(I, nm, g.items['coef'], w)


def make_input(I, N):
    r, s = z3.Ints('batch_rank batch_size')
    I.assume(z3.And(r >= 0, s >= 1))
    return AT(z3.Const('x', T), (Block('B', r, s), N), False)


def filters_in(e):
    """the wavelets a coefficient was computed with: {layer: [index terms]}"""
    out, seen, stack = {1: [], 2: []}, set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            nm = x.decl().name()
            if nm in ('psi1[]', 'psi2[]'):
                l = out[int(nm[3])]
                if not any(t.eq(x.arg(0)) for t in l):
                    l.append(x.arg(0))
            stack.extend(x.children())
    return out


def coef_obl(I, name, g, w):
    """labels: the coefficient was computed with exactly the wavelets of its path; values: it equals the cascade"""
    n, j, c = w
    if I.what != 'labels':
        tensor_obl(I, name + ': coefficient', g, c)
        return
    if not isinstance(g, AT):
        I.oblige(name + ': coefficient is a tensor', False, repr(g))
        return
    f = filters_in(g.e)
    for layer in (1, 2):
        if len(n) >= layer:
            idx = n[layer - 1]
            I.oblige('%s: uses wavelet n%d of its path and no other of that layer' % (name, layer),
                     z3.And(len(f[layer]) > 0, *[t == ints(idx) for t in f[layer]]), str(f[layer])[:200])
        else:
            I.oblige('%s: uses no wavelet of layer %d' % (name, layer), not f[layer], str(f[layer])[:200])


def leaf_tensor(I, name, g, w):
    coef_obl(I, '%s order %d' % (name, len(w[0])), g, w)


def leaf_kv(I, name, g, w):
    if not isinstance(g, KV):
        I.oblige(name + ': keyed entry', False, repr(g))
        return
    eq_obl(I, '%s order %d: key is n' % (name, len(w[0])), g.k, w[0])
    coef_obl(I, '%s order %d' % (name, len(w[0])), g.v, w)


def check_output(I, nm, got, want, out_type):
    if out_type == 'list':
        if not isinstance(got, (VList, tuple)):
            I.oblige(nm + ': returns a list', False, repr(got))
            return
        match(I, nm, I.domain(got), want, leaf_dict)
    elif out_type == 'array':
        if not isinstance(got, AStack):
            I.oblige(nm + ': returns the stacked coefficients', False, repr(got))
            return
        I.oblige(nm + ': coefficient axis is the one before time', got.axis == 2, 'axis -%d' % got.axis)
        match(I, nm, got.segs, want, leaf_tensor)
    else:
        if not isinstance(got, VDict):
            I.oblige(nm + ': returns a dictionary', False, repr(got))
            return
        kvs = [KV(k, v) for k, v in got.items.items()] + list(got.segs)
        if any(isinstance(s, FMap) for s in kvs):
            raise Unsupported('dictionary of coefficients keyed by integers')
        from vc.order import sort_items
        key = Native('key', lambda I, a, k: (I.length(a[0].k), a[0].k))
        match(I, nm, sort_items(I, kvs, key, False), want, leaf_kv)


def transform_case(frontend, tkind, out_type, max_order, stride, what='values', oversampling=0):
    def body(I):
        I.what = what
        o, kw = build(I, frontend, tkind, out_type, max_order, stride, oversampling)
        x = make_input(I, I.params['N'])
        got = I.call(I.getattr(o, 'scattering'), [x])
        want = spec_paths(I, o, x, kw, tkind)
        nm = '%s scattering(%s)' % (frontend, out_type)
        check_output(I, nm, got, want, out_type)
        return got
    return body


def transform_cases(what, tier):
    out = []
    seen = set()

    def add(*a):
        if a in seen:
            return
        seen.add(a)
        if a[1] == '0' and a[2] == 'array':
            return
        out.append(Case('Scattering1D %s T=%s out_type=%s max_order=%d stride=%s' % a, transform_case(*a, what=what), [contracts_1d]))
    for tk in ('None', 'global', '0', 'sym', 'symint'):
        for mo in (2, 1):
            add('numpy', tk, 'list', mo, 'None')
            if tk in ('None', 'sym', 'symint'):
                add('numpy', tk, 'list', mo, 'sym')
    for o in ('array', 'dict'):
        for tk in ('None', 'global', '0'):
            for mo in (1, 2):
                add('numpy', tk, o, mo, 'None')
    for fe in ('torch', 'jax', 'tensorflow'):
        for o in ('list', 'array', 'dict'):
            add(fe, 'None', o, 2, 'None')
        add(fe, 'global', 'array', 2, 'None')
        add(fe, '0', 'list', 2, 'None')
        add(fe, 'sym', 'array', 2, 'sym')
    if tier == 'thorough':
        for fe in ('numpy', 'torch', 'jax', 'tensorflow'):
            for o in ('list', 'array', 'dict'):
                for tk in ('None', 'global', '0', 'sym', 'symint'):
                    for mo in (1, 2):
                        add(fe, tk, o, mo, 'None')
                        if tk in ('None', 'sym', 'symint'):
                            add(fe, tk, o, mo, 'sym')
    return out


SHARED = ['c07']


def cases(tier):
    from contracts import c07
    return transform_cases('values', tier) + c07.cases(tier)
