"""C16: entry points, scikit-learn transformers and Keras layers forward their arguments faithfully."""
import z3
from vc import smt, tables
from vc.values import *
from vc.atensor import *
from vc.interp import MISSING
from vc.symstr import SStr, S, LOWER
from vc.harness import Case, expect_ok
from . import c1d, c2d, c3d, c02, c10

SUFFIX = {'numpy': 'NumPy', 'torch': 'Torch', 'tensorflow': 'TensorFlow', 'jax': 'Jax', 'keras': 'Keras', 'sklearn': 'Transformer'}
ENTRY = {'Scattering1D': ('scattering1d', 'ScatteringEntry1D', 'Scattering%s1D'),
         'TimeFrequencyScattering': ('scattering1d', 'TimeFrequencyScatteringEntry', 'TimeFrequencyScattering%s'),
         'Scattering2D': ('scattering2d', 'ScatteringEntry2D', 'Scattering%s2D'),
         'HarmonicScattering3D': ('scattering3d', 'HarmonicScatteringEntry3D', 'HarmonicScattering%s3D')}
# the keyword arguments the frontends document
KEYS = {'Scattering1D': ['J', 'shape', 'Q', 'T', 'stride', 'max_order', 'oversampling', 'out_type', 'backend'],
        'TimeFrequencyScattering': ['J', 'J_fr', 'shape', 'Q', 'T', 'stride', 'Q_fr', 'F', 'stride_fr', 'out_type', 'format', 'backend'],
        'Scattering2D': ['J', 'shape', 'L', 'max_order', 'pre_pad', 'backend', 'out_type'],
        'HarmonicScattering3D': ['J', 'shape', 'L', 'sigma_0', 'max_order', 'rotation_covariant', 'method', 'points', 'integral_powers', 'backend']}


def has(dim, fe):
    return fe != 'keras' or dim in ('Scattering1D', 'Scattering2D')


class Spy:
    """an argument nothing may look into"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'Spy(%s)' % self.n

    def is_(self, I, o):
        return self is o

    def subst_(self, pairs, memo):
        return self

    def mentions_(self, sym):
        return False


def record(I, dim):
    """contract of every frontend constructor: only the call is recorded"""
    pkg, _, pat = ENTRY[dim]
    I.built = []

    def rec(I, f, a, k):
        I.built.append((a[0], a[0].cls, tuple(a[1:]), dict(k), f.owner))
        a[0].attrs.setdefault('_name', 'module')     # tf.Module.__init__
        return None
    for d, (pk, _, pt) in ENTRY.items():
        for fe in SUFFIX:
            if has(d, fe):
                I.contracts['kymatio.%s.frontend.%s_frontend:%s.__init__' % (pk, fe, pt % SUFFIX[fe])] = rec


def target(I, dim, fe):
    pkg, _, pat = ENTRY[dim]
    return I.load('kymatio.%s.frontend.%s_frontend' % (pkg, fe)).attrs[pat % SUFFIX[fe]]


def entry_class(I, dim):
    pkg, cls, _ = ENTRY[dim]
    return I.load('kymatio.%s' % pkg).attrs[cls]


def check_built(I, o, C, args, kw):
    I.oblige('the object is of the class of the requested frontend and dimension', o.cls is C, '%s instead of %s' % (o.cls.name, C.name))
    I.oblige('its constructor runs exactly once', len(I.built) == 1 and I.built[0][0] is o and I.built[0][1] is C, repr(I.built)[:300])
    if len(I.built) != 1:
        return
    _, _, a, k, owner = I.built[0]
    I.oblige('the constructor that runs is the one the class defines or inherits', owner is C.lookup('__init__').owner)
    I.oblige('the positional arguments arrive unchanged', len(a) == len(args) and all(x is y for x, y in zip(a, args)), '%r instead of %r' % (a, args))
    I.oblige('the keyword arguments arrive unchanged', set(k) == set(kw) and all(k[n] is kw[n] for n in k), '%r instead of %r' % (k, kw))


def entry(dim, nargs, keys, known):
    def body(I):
        record(I, dim)
        C = entry_class(I, dim)
        args = [Spy('a%d' % i) for i in range(nargs)]
        kw = {n: Spy(n) for n in keys}
        if known is None:
            full = dict(kw)
            fe = 'numpy'
        else:
            s = z3.Const('frontend', S)
            if known == 'unknown':
                for n in SUFFIX:
                    I.assume(LOWER(s) != z3.StringVal(n))
            else:
                I.assume(LOWER(s) == z3.StringVal(known))
            fe = known
            full = dict(kw, frontend=SStr(s))
        given = dict(full)
        try:
            o = I.call(C, list(args), full)
        except PyRaise as r:
            ok = known == 'unknown' and r.exc.cls.issub(I.exc_classes['RuntimeError'])
            I.oblige('an unknown frontend name is rejected with RuntimeError' if known == 'unknown' else 'a known frontend is built', ok, str(r))
            I.oblige('a rejected name builds nothing', not I.built, repr(I.built))
            return
        I.oblige('an unknown frontend name is rejected', known != 'unknown', repr(o.cls))
        if known == 'unknown':
            return
        check_built(I, o, target(I, dim, fe), args, kw)
        # a second object built from the same arguments is the same
        del I.built[:]
        o2 = I.call(C, list(args), dict(given))
        check_built(I, o2, target(I, dim, fe), args, kw)
    return body


def literal(dim, name):
    """ASCII spellings, with python's own lower()"""
    def body(I):
        record(I, dim)
        o = I.call(entry_class(I, dim), [], {'frontend': name, 'J': Spy('J')})
        check_built(I, o, target(I, dim, name.lower()), [], {'J': o and I.built[0][3].get('J')})
    return body


def aliases(fe):
    """kymatio.<frontend>.X is the class the entry point builds"""
    def body(I):
        m = I.load('kymatio.' + fe)
        for dim in ENTRY:
            if has(dim, fe):
                I.oblige('kymatio.%s.%s is the %s class of that dimension' % (fe, dim, fe), m.attrs.get(dim) is target(I, dim, fe), repr(m.attrs.get(dim)))
    return body


def toplevel(I):
    import ast, os
    from vc.interp import parse_file, REPO, VModule
    m = VModule('kymatio', os.path.join(REPO, 'kymatio', '__init__.py'))
    m.pkg = True
    m.attrs['__name__'] = 'kymatio'
    tree = parse_file(os.path.join(REPO, 'kymatio', '__init__.py'))
    I.stack.append(('kymatio', tree))
    try:
        for s in tree.body:
            if isinstance(s, ast.ImportFrom) and s.level:
                I.exec(s, m.scope)
    finally:
        I.stack.pop()
    for dim in ENTRY:
        I.oblige('kymatio.%s is the entry point of that dimension' % dim, m.attrs.get(dim) is entry_class(I, dim), repr(m.attrs.get(dim)))


# ---------------------------------------------------------------- scikit-learn
class Flat:
    """an array seen as its row-major data and its shape: reshape keeps the data"""

    def __init__(self, data, shape):
        self.data, self.shape = data, tuple(shape)

    def __repr__(self):
        return 'Flat(%s, %s)' % (self.data, list(self.shape))

    def subst_(self, pairs, memo):
        return self

    def mentions_(self, sym):
        return False

    def getattr_(self, I, n):
        if n == 'shape':
            return self.shape
        if n == 'ndim':
            return I.length(self.shape)
        if n == 'reshape':
            return Native('reshape', lambda I, a, k: self.reshape(I, a[0] if len(a) == 1 else tuple(a)))
        raise Unsupported('array attribute ' + n)

    def reshape(self, I, new):
        new = tuple(I.domain(new)) if not is_scalar(new) else (new,)
        old = factors(self.shape)
        out, hole = [], None
        for i, d in enumerate(new):
            if not isinstance(d, Block) and not isinstance(d, Sym) and d == -1:
                if hole is not None:
                    raise I.exc('ValueError', 'can only specify one unknown dimension')
                hole = i
            else:
                for f in factors((d,)):
                    for q in old:
                        if same(I, f, q):
                            old.remove(q)
                            break
                    else:
                        raise Unsupported('reshape of %r into %r' % (self.shape, new))
        if hole is None:
            if not all(same(I, q, smt.iv(1)) for q in old):
                raise I.exc('ValueError', 'cannot reshape')
            return Flat(self.data, new)
        p = smt.iv(1)
        for q in old:
            p = q if z3.is_int_value(p) and p.as_long() == 1 else p * q
        return Flat(self.data, new[:hole] + (mk(p, 'int'),) + new[hole + 1:])


def same(I, a, b):
    return a.eq(b) or I.entails(a == b)


def factors(dims):
    out = []
    for d in dims:
        e = d.size if isinstance(d, Block) else ints(d)
        st = [e]
        while st:
            x = st.pop(0)
            if z3.is_mul(x):
                st = list(x.children()) + st
            elif not (z3.is_int_value(x) and x.as_long() == 1):
                out.append(x)
    return out


def prod(dims):
    p = None
    for d in dims:
        p = ints(d) if p is None else p * ints(d)
    return p


def sk_build(I, dim):
    """construct the transformer with its real constructor (NumPy)"""
    mod = 'kymatio.%s.frontend.sklearn_frontend' % ENTRY[dim][0]
    cls = ENTRY[dim][2] % 'Transformer'
    if dim == 'Scattering1D':
        c1d.CLS['sklearn'] = (mod, cls)
        real = c1d.ABackend
        c1d.ABackend = lambda fe: real('numpy')
        try:
            o, kw = c1d.build(I, 'sklearn', 'None', 'array', 2, 'None')
        finally:
            c1d.ABackend = real
            del c1d.CLS['sklearn']
        return o, (I.params['N'],), 2
    if dim == 'Scattering2D':
        c2d.CLS['sklearn'] = (mod, cls)
        try:
            o, kw = c2d.build(I, 'sklearn', 'array', 2, False, backend=c2d.ABackend2D('numpy'))
        finally:
            del c2d.CLS['sklearn']
        return o, (I.params['M'], I.params['N']), 3
    c3d.CLS['sklearn'] = (mod, cls)
    real = c3d.ABackend3D
    c3d.ABackend3D = lambda fe: real('numpy')
    try:
        o, kw = c3d.build(I, 'sklearn')
    finally:
        c3d.ABackend3D = real
        del c3d.CLS['sklearn']
    return o, I.params['shape'], 3


def sk(dim, meth):
    def body(I):
        o, shape, trail = sk_build(I, dim)
        r, s = z3.Ints('batch_rank batch_size')
        I.assume(z3.And(r >= 0, s >= 1))
        D = z3.FreshConst(z3.DeclareSort('Data'), 'data')
        SCAT = z3.Function('scattering', D.sort(), D.sort())
        C = [z3.Int('c%d' % i) for i in range(trail)]
        for c in C:
            I.assume(c >= 1)
        blk = Block('B', r, s)
        x = Flat(D, (blk, mk(prod(shape), 'int')))
        seen = []

        def scattering(I, a, k):
            y = a[0]
            if not isinstance(y, Flat):
                raise Unsupported('scattering of %r' % (y,))
            seen.append(y)
            lead = y.shape[:len(y.shape) - len(shape)]
            tail = y.shape[len(y.shape) - len(shape):]
            I.oblige('the transform receives signals of the configured shape', len(tail) == len(shape) and not any(isinstance(t, Block) for t in tail)
                     and z3.And(*[ints(t) == ints(w) for t, w in zip(tail, shape)]), repr(y))
            return Flat(SCAT(y.data), lead + tuple(Sym(c, 'int') for c in C))
        cls = o.cls
        cls.ns['scattering'] = Native('scattering', lambda I, a, k: scattering(I, a[1:], k))
        got = I.call(I.getattr(o, meth), [x])
        I.oblige(meth + ': returns an array', isinstance(got, Flat), repr(got))
        I.oblige(meth + ': the transform is applied once', len(seen) == 1)
        I.oblige(meth + ': the output holds the scattering of the input, in order', got.data == SCAT(D), repr(got))
        ok = len(got.shape) == 2 and got.shape[0] is blk
        I.oblige(meth + ': the leading axes are those of the input', ok, repr(got.shape))
        if ok:
            I.oblige(meth + ': one trailing axis holds every coefficient', ints(got.shape[1]) == prod([Sym(c, 'int') for c in C]))
        I.oblige('fit returns the transformer unchanged', I.call(I.getattr(o, 'fit'), [x]) is o and I.call(I.getattr(o, 'fit'), []) is o)
    return body


# ---------------------------------------------------------------- Keras
def shapes_obl(I, nm, shape, want):
    from vc.extern import TShape
    d = shape.dims if isinstance(shape, TShape) else (tuple(I.domain(shape)) if isinstance(shape, (tuple, VList)) else None)
    I.oblige(nm + ': is a shape', d is not None, repr(shape))
    c = dims_eq(I, d, want)
    I.oblige(nm, c is not None and z3.And(*c), '%r == %r' % (d, want))


def keras1d(tk, max_order, given, over=False):
    def body(I):
        tables.install(I)
        use_backend(I, c1d.ABackend('tensorflow'), '1d')
        N, J = c1d.sym_int(I, 'N', 1), c1d.sym_int(I, 'J', 1)
        I.assume(smt.pow2(J.e) <= N.e)
        kw = dict(J=J, max_order=max_order)
        if given:
            Q = (c1d.sym_int(I, 'Q1', 1), c1d.sym_int(I, 'Q2', 1))
            kw['Q'] = Q
        T_ = {'None': None, 'global': 'global'}.get(tk)
        if tk == 'sym':
            t = z3.Real('T')
            I.assume(z3.And(t >= 1, t <= z3.ToReal(N.e)))
            T_ = Sym(t, 'float')
        if tk != 'None' or given:
            kw['T'] = T_
        I.params = dict(N=N, J=J, T=T_)
        if over:
            ov = c1d.sym_int(I, 'oversampling', 0)
            lt = J.e if tk == 'None' else smt.flog2(reals(T_))
            I.assume(ov.e <= lt)
            kw['oversampling'] = ov
            I.params['ls'] = mk(lt - ov.e, 'int')
        o = I.call(I.get('kymatio.scattering1d.frontend.keras_frontend', 'ScatteringKeras1D'), [], dict(kw))
        x = c02.make_input(I, N)
        I.what = 'values'
        got = I.call(o, [x])
        S_ = I.getattr(o, 'S')
        want = c02.spec_paths(I, S_, x, dict(kw, T=T_), tk)
        c02.check_output(I, 'Keras layer', got, want, 'array')
        fa = I.factory_args
        I.oblige('the filter bank is built for the configured J', ints(fa['J']) == J.e)
        q = I.domain(fa['Q'])
        for i in range(2):
            w = ints(kw['Q'][i]) if given else smt.iv(1)
            I.oblige('the filter bank is built for the configured Q%d' % (i + 1), ints(q[i]) == w)
        shapes_obl(I, 'the declared output shape is the shape produced', I.call(I.getattr(o, 'compute_output_shape'), [x.shape]), got.shape)
        config(I, o, kw, {'Q': 1, 'T': None, 'oversampling': 0})
        # the same layer gives the same result on a second call
        again = I.call(o, [x])
        c02.check_output(I, 'second call', again, want, 'array')
    return body


def keras1d_rejects(max_order, given):
    """T = 0 has no array output: the layer must refuse it exactly as the transform does"""
    def body(I):
        tables.install(I)
        use_backend(I, c1d.ABackend('tensorflow'), '1d')
        N, J = c1d.sym_int(I, 'N', 1), c1d.sym_int(I, 'J', 1)
        I.assume(smt.pow2(J.e) <= N.e)
        kw = dict(J=J, max_order=max_order, T=0)
        if given:
            kw['Q'] = (c1d.sym_int(I, 'Q1', 1), c1d.sym_int(I, 'Q2', 1))
        I.params = dict(N=N, J=J, T=0)
        o = I.call(I.get('kymatio.scattering1d.frontend.keras_frontend', 'ScatteringKeras1D'), [], dict(kw))
        config(I, o, kw, {'Q': 1, 'T': None, 'oversampling': 0})
        x = c02.make_input(I, N)
        from vc.harness import expect_raise
        expect_raise(I, 'a layer with T=0', lambda: I.call(o, [x]), ['ValueError'])
    return body


def config(I, o, kw, defaults):
    c = I.call(I.getattr(o, 'get_config'), [])
    I.oblige('get_config returns a dictionary', isinstance(c, VDict) and not c.segs, repr(c))
    full = dict(defaults)
    full.update(kw)
    for n, v in full.items():
        I.oblige('get_config has the configured %s' % n, n in c.items, repr(c))
        t = I.eq(c.items[n], v)
        I.oblige('get_config: %s' % n, t if isinstance(t, bool) else ex(t), '%r %r' % (c.items[n], v))


def keras2d(max_order, pre_pad, given):
    def body(I):
        use_backend(I, c2d.ABackend2D('tensorflow'), '2d')
        J = c1d.sym_int(I, 'J', 1)
        M, N = c1d.sym_int(I, 'M', 1), c1d.sym_int(I, 'N', 1)
        I.assume(z3.And(smt.pow2(J.e) <= M.e, smt.pow2(J.e) <= N.e))
        L = c1d.sym_int(I, 'L', 1)
        kw = dict(J=J, max_order=max_order, pre_pad=pre_pad)
        if given:
            kw['L'] = L
        else:
            I.assume(L.e == 8)
        dims = (M, N)
        if pre_pad:
            # inputs of padded size n whose image n - 2^(J+1) is at least 2^J; sizes are multiples of 2^J
            a, b = c1d.sym_int(I, 'a', 1), c1d.sym_int(I, 'b', 1)
            p = smt.pow2(J.e)
            I.assume(z3.And(M.e == a.e * p, N.e == b.e * p))
            dims = (c2d.padded(I, M, J), c2d.padded(I, N, J))
        I.params = dict(J=J, M=M, N=N, L=L)
        o = I.call(I.get('kymatio.scattering2d.frontend.keras_frontend', 'ScatteringKeras2D'), [], dict(kw))
        x = c2d.make_image(I, *dims)
        got = I.call(o, [x])
        want = c10.spec(I, x, max_order, pre_pad)
        nm = 'Keras layer'
        if c10.stack_obl(I, nm, got, x.shape[:-2], want[0][3].shape[-2:], 3):
            match_(I, nm, got.segs, want, c10.leaf_tensor)
        fa = I.factory_args
        I.oblige('the filter bank is built for the configured J', ints(fa['J']) == J.e)
        I.oblige('the filter bank is built for the configured L', ints(fa['L'] if 'L' in fa else 8) == L.e)
        # the number of paths of a bank of J*L wavelets, L for every scale
        cnt = I.call(I.getattr(o, 'compute_output_shape'), [x.shape])
        d = cnt.dims if hasattr(cnt, 'dims') else tuple(I.domain(cnt))
        I.oblige('the declared output shape has the rank produced', len(d) == len(got.shape), repr(d))
        if len(d) == len(got.shape):
            c = dims_eq(I, d[:-3] + d[-2:], got.shape[:-3] + got.shape[-2:])
            I.oblige('the declared batch axes and spatial size are those produced', c is not None and z3.And(*c), '%r == %r' % (d, got.shape))
            j, l = J.e, L.e
            n = 1 + j * l
            if max_order == 2:
                t = z3.Int('pairs_of_scales')          # J(J-1)/2, the number of j1 < j2
                I.assume(2 * t == j * (j - 1))
                I.assume(l * l * (2 * t) == l * l * (j * (j - 1)))
                n = n + l * l * t
            I.oblige('the declared number of coefficients is 1 + JL (+ L^2 J(J-1)/2)', ints(d[-3]) == n)
        config(I, o, kw, {'L': 8})
        again = I.call(o, [x])
        if c10.stack_obl(I, 'second call', again, x.shape[:-2], want[0][3].shape[-2:], 3):
            match_(I, 'second call', again.segs, want, c10.leaf_tensor)
    return body


def count_lemma(I):
    """a bank with L wavelets for each of J scales has L^2 J(J-1)/2 pairs j1 < j2: induction on J"""
    J, L, P, t = z3.Ints('J L P t')
    I.assume(z3.And(J >= 0, L >= 1, 2 * t == J * (J - 1), P == L * L * t))
    I.oblige('base: no scale, no pair', z3.Implies(J == 0, P == 0))
    I.oblige('the product of consecutive integers is even', z3.Or((J * (J - 1)) % 2 == 0, J % 2 == 2))
    u = z3.Int('u')
    I.assume(2 * u == (J + 1) * J)
    I.oblige('step: the triangular numbers', u == t + J)
    I.assume(L * L * u == L * L * (t + J))
    I.oblige('step: L more wavelets of scale J, each paired with the J*L of smaller scale', P + L * (J * L) == L * L * u)


def match_(*a):
    from vc.spec import match
    return match(*a)


def use_backend(I, be, dim):
    def instantiate(I, f, a, k):
        I.setattr(a[0], 'backend', be)
    I.contracts['kymatio.frontend.base_frontend:ScatteringBase._instantiate_backend'] = instantiate


def cases(tier):
    out = []
    for dim in ENTRY:
        for fe in SUFFIX:
            if has(dim, fe):
                for n in range(4):
                    out.append(Case('%s frontend=%s (any case), %d positional and every keyword argument' % (dim, fe, n), entry(dim, n, KEYS[dim][n:], fe)))
                out.append(Case('%s frontend=%s, no argument' % (dim, fe), entry(dim, 0, [], fe)))
                for nm in (fe.upper(), fe.capitalize(), fe.swapcase().title(), fe):
                    out.append(Case('%s frontend=%r' % (dim, nm), literal(dim, nm)))
        for key in KEYS[dim]:
            out.append(Case('%s keyword %s alone' % (dim, key), entry(dim, 0, [key], 'torch')))
        for n in (0, 2):
            out.append(Case('%s default frontend, %d positional' % (dim, n), entry(dim, n, KEYS[dim][n:], None)))
            out.append(Case('%s unknown frontend, %d positional' % (dim, n), entry(dim, n, KEYS[dim][n:], 'unknown')))
    for fe in SUFFIX:
        out.append(Case('module kymatio.%s' % fe, aliases(fe)))
    out.append(Case('package kymatio', toplevel))
    out.append(Case('lemma: number of second-order paths', count_lemma))
    for dim, c in (('Scattering1D', c1d.contracts_1d), ('Scattering2D', c2d.contracts_2d), ('HarmonicScattering3D', c3d.contracts_3d)):
        for m in ('predict', 'transform'):
            out.append(Case('scikit-learn %s %s' % (dim, m), sk(dim, m), [c]))
    for tk in ('None', 'global', 'sym'):
        for mo in (1, 2):
            for g in (True, False):
                out.append(Case('Keras 1D T=%s max_order=%d Q %s' % (tk, mo, 'given' if g else 'default'), keras1d(tk, mo, g), [c1d.contracts_1d]))
    for g in (True, False):
        out.append(Case('Keras 1D T=0 Q %s' % ('given' if g else 'default'), keras1d_rejects(2, g), [c1d.contracts_1d]))
    for tk in ('None', 'sym'):
        out.append(Case('Keras 1D T=%s oversampling' % tk, keras1d(tk, 2, True, True), [c1d.contracts_1d]))
    for mo in (1, 2):
        for pp in (False, True):
            for g in (True, False):
                out.append(Case('Keras 2D max_order=%d pre_pad=%s L %s' % (mo, pp, 'given' if g else 'default'), keras2d(mo, pp, g), [c2d.contracts_2d]))
    return out
