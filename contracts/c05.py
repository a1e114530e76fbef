"""C05: parameters of the 1D transforms are interpreted as documented or rejected."""
import z3
from vc import smt
from vc.values import *
from vc.atensor import AT, ABackend, T as TS
from vc.harness import Case, expect_raise, expect_ok
from vc.spec import eq_obl
from vc.smt import pow2, flog2
from .c1d import *
from .c02 import make_input


def ctor(I, frontend='numpy', **kw):
    mod, cls = CLS[frontend]
    J = kw.get('J') or sym_int(I, 'J', 1)
    N = kw.get('shape')
    if N is None:
        N = sym_int(I, 'N', 1)
    if isinstance(N, Sym):
        I.assume(pow2(ints(J)) <= ints(N))
    a = dict(J=J, shape=N, Q=kw.get('Q', 1), T=kw.get('T'), stride=kw.get('stride'), max_order=2, oversampling=kw.get('oversampling', 0),
             out_type=kw.get('out_type', 'list'), backend=ABackend(frontend))
    I.params = dict(J=J, N=N)
    return I.call(I.get(mod, cls), [], a)


def J_N(I):
    J, N = sym_int(I, 'J', 1), sym_int(I, 'N', 1)
    I.assume(pow2(J.e) <= N.e)
    return dict(J=J, shape=N)


def t_ok(frontend, kind):
    def body(I):
        jn = J_N(I)
        two_J = I.power(2, jn['J'])
        if kind == 'sym':
            t = z3.Real('T')
            I.assume(z3.And(t >= 1, t <= z3.ToReal(ints(jn['shape']))))
            T = want = Sym(t, 'float')
            av = 'local'
        elif kind == 'symint':
            t = z3.Int('T')
            I.assume(z3.And(t >= 1, t <= ints(jn['shape'])))
            T = want = Sym(t, 'int')
            av = 'local'
        else:
            T, av = {'None': (None, 'local'), 'global': ('global', 'global'), '0': (0, False), '0.0': (0.0, False)}[kind]
            want = two_J
        o = ctor(I, frontend, T=T, **jn)
        eq_obl(I, 'T', I.getattr(o, 'T'), want)
        av2 = I.getattr(o, 'average')
        I.oblige('averaging mode', av2 == av and type(av2) is type(av), repr(av2))
        lt = I.call(I.natives['math'].attrs['floor'], [I.call(I.natives['math'].attrs['log2'], [want])])
        eq_obl(I, 'log2_T is floor(log2 T)', I.getattr(o, 'log2_T'), lt)
        eq_obl(I, 'default stride is 2^floor(log2 T)', I.getattr(o, 'stride'), I.power(2, lt))
        eq_obl(I, 'log2_stride of the default stride', I.getattr(o, 'log2_stride'), lt)
    return body


def t_bad(kind, integer, direct=False):
    def body(I):
        jn = J_N(I)
        t = z3.Int('T') if integer else z3.Real('T')
        r = z3.ToReal(t) if integer else t
        n = z3.ToReal(ints(jn['shape']))
        I.assume({'large': r > n, 'fraction': z3.And(r > 0, r < 1), 'negative': r < 0}[kind])
        T = Sym(t, 'int' if integer else 'float')
        if direct:
            th = lambda: I.call(I.get('kymatio.scattering1d.utils', 'parse_T'), [T, jn['J'], jn['shape']])
        else:
            th = lambda: ctor(I, T=T, **jn)
        expect_raise(I, 'rejected with ValueError', th, ['ValueError'])
    return body


def stride_ok(tkind):
    def body(I):
        jn = J_N(I)
        T = None
        if tkind == 'sym':
            t = z3.Real('T')
            I.assume(z3.And(t >= 1, t <= z3.ToReal(ints(jn['shape']))))
            T = Sym(t, 'float')
        ls = sym_int(I, 'ls', 0)
        I.assume(ls.e <= (flog2(z3.Real('T')) if tkind == 'sym' else ints(jn['J'])))
        o = ctor(I, T=T, stride=I.power(2, ls), **jn)
        eq_obl(I, 'log2_stride', I.getattr(o, 'log2_stride'), ls)
        eq_obl(I, 'stride', I.getattr(o, 'stride'), I.power(2, ls))
    return body


def read_and_call(I, name, mk_o):
    """the bad parameter is rejected at construction, or both when read and when the transform is called"""
    try:
        o = mk_o()
    except PyRaise as r:
        I.oblige(name + ': rejected with ValueError', r.exc.cls.issub(I.exc_classes['ValueError']), str(r))
        return
    expect_raise(I, name + ': reading the stride raises ValueError', lambda: I.getattr(o, 'stride'), ['ValueError'])
    x = make_input(I, I.params['N'])
    be = o.attrs['backend']
    expect_raise(I, name + ': calling raises ValueError', lambda: I.call(I.getattr(o, 'scattering'), [x]), ['ValueError'])


def stride_bad(kind, tkind):
    def body(I):
        jn = J_N(I)
        T = {'None': None, 'global': 'global', '0': 0}[tkind]
        if kind == 'float':
            v = z3.Real('stride')
            s = Sym(v, 'float')
        else:
            v = z3.Int('stride')
            s = Sym(v, 'int')
            if kind == 'not a power of two':
                I.assume(z3.And(v >= 1, pow2(flog2(z3.ToReal(v))) != v))
            elif kind == 'not positive':
                I.assume(v <= 0)
            else:
                ls = z3.Int('ls')
                I.assume(z3.And(ls >= 0, v == pow2(ls)))
        read_and_call(I, 'stride', lambda: ctor(I, T=T, stride=s, **jn))
    return body


def q_ok(kind):
    def body(I):
        jn = J_N(I)
        q1, q2 = sym_int(I, 'Q1', 1), sym_int(I, 'Q2', 1)
        Q, want = {'int': (q1, (q1, 1)), '1-tuple': ((q1,), (q1, 1)), '2-tuple': ((q1, q2), (q1, q2))}[kind]
        o = ctor(I, Q=Q, **jn)
        eq_obl(I, 'Q expands to (Q1, Q2)', I.getattr(o, 'Q'), want)
        fa = I.factory_args
        eq_obl(I, 'filter bank built with Q', fa['Q'], want)
        eq_obl(I, 'filter bank built with T', fa['T'], I.power(2, jn['J']))
        eq_obl(I, 'filter bank built with J', fa['J'], jn['J'])
        eq_obl(I, 'filter bank built for the padded length', fa['N'], o.attrs['_N_padded'])
    return body


def q_bad(kind):
    def body(I):
        jn = J_N(I)
        q1, q2, q3 = (Sym(z3.Int('Q%d' % i), 'int') for i in (1, 2, 3))
        r = Sym(z3.Real('Qr'), 'float')
        if kind == 'int below 1':
            I.assume(q1.e < 1)
            Q = q1
        elif kind == 'first entry below 1':
            I.assume(q1.e < 1)
            Q = (q1, q2)
        elif kind == 'second entry below 1':
            I.assume(q2.e < 1)
            Q = (q1, q2)
        elif kind == '1-tuple below 1':
            I.assume(q1.e < 1)
            Q = (q1,)
        elif kind == 'float':
            Q = r
        elif kind == 'list':
            Q = VList([q1])
        elif kind == 'three entries':
            Q = (q1, q2, q3)
        expect_raise(I, 'rejected', lambda: ctor(I, Q=Q, **jn), ['ValueError'] + (['NotImplementedError'] if kind == 'three entries' else []))
    return body


def shape_case(kind):
    def body(I):
        N = sym_int(I, 'N', 1)
        M = sym_int(I, 'M', 1)
        J = sym_int(I, 'J', 1)
        I.assume(pow2(J.e) <= N.e)
        I.assume(pow2(J.e) <= M.e)
        s = {'int': N, '1-tuple': (N,), '2-tuple': (N, M), 'list': VList([N]), 'float': Sym(z3.Real('Nr'), 'float'), 'string': '128', 'None': None,
             '3-tuple': (N, M, N)}[kind]
        th = lambda: I.call(I.get(*CLS['numpy']), [], dict(J=J, shape=s, backend=ABackend('numpy'), out_type='list'))
        if kind in ('int', '1-tuple'):
            o = expect_ok(I, 'shape accepted', th)
            eq_obl(I, 'shape is a 1-tuple', o.attrs['shape'], (N,))
            eq_obl(I, 'transform for that length', ints_val(I, o.attrs['_N_padded']), ints_val(I, o.attrs['pad_left'], o.attrs['pad_right'], N))
        else:
            expect_raise(I, 'shape rejected', th, ['ValueError'])
    return body


def ints_val(I, *vs):
    t = vs[0]
    for v in vs[1:]:
        t = I.binop('Add', t, v)
    return t


def over_ok(tkind):
    def body(I):
        jn = J_N(I)
        os_ = sym_int(I, 'oversampling', 1)
        T = None
        lt = ints(jn['J'])
        if tkind == 'sym':
            t = z3.Real('T')
            I.assume(z3.And(t >= 1, t <= z3.ToReal(ints(jn['shape']))))
            T = Sym(t, 'float')
            lt = flog2(t)
        I.assume(os_.e <= lt)
        o = ctor(I, T=T, oversampling=os_, **jn)
        eq_obl(I, 'stride is 2^(floor(log2 T) - oversampling)', I.getattr(o, 'stride'), mk(pow2(lt - os_.e), 'int'))
        eq_obl(I, 'log2_stride is floor(log2 T) - oversampling', I.getattr(o, 'log2_stride'), mk(lt - os_.e, 'int'))
    return body


def over_zero(I):
    jn = J_N(I)
    o = ctor(I, oversampling=0, **jn)
    eq_obl(I, 'no oversampling leaves the default stride', I.getattr(o, 'stride'), I.power(2, jn['J']))


def over_bad(kind):
    def body(I):
        jn = J_N(I)
        if kind == 'negative':
            v = z3.Int('oversampling')
            I.assume(v < 0)
            s = Sym(v, 'int')
        else:
            s = Sym(z3.Real('oversampling'), 'float')
        expect_raise(I, 'rejected with ValueError', lambda: ctor(I, oversampling=s, **jn), ['ValueError'])
    return body


def runtime(frontend, kind, T=None, out='array'):
    def body(I):
        jn = J_N(I)
        kw = {}
        if kind == 'T=0 with array':
            o = ctor(I, frontend, T=0, out_type='array', **jn)
        elif kind == '0-dimensional input':
            o = ctor(I, frontend, out_type=out, T=T, **jn)
        else:
            o = ctor(I, frontend, T=T, out_type={'unknown': 'matrix', 'upper case': 'Array', 'empty': '', 'None': None}[kind], **jn)
        x = make_input(I, jn['shape'])
        if kind == '0-dimensional input':
            x = AT(z3.Const('x', TS), (), False)
        be = o.attrs['backend']
        c0 = len(be.log)
        expect_raise(I, 'calling raises ValueError', lambda: I.call(I.getattr(o, 'scattering'), [x]), ['ValueError'])
        done = [n for n in be.log[c0:] if n not in ('input_checks', 'shape', 'reshape_input')]
        I.oblige('nothing is computed before the rejection', not done, str(done))
    return body


def cases(tier):
    S = [contracts_1d]
    out = []
    for k in ('None', 'global', '0', '0.0', 'sym', 'symint'):
        out.append(Case('T=%s' % k, t_ok('numpy', k), S))
    for f in ('torch', 'jax', 'tensorflow'):
        out.append(Case('%s T=None' % f, t_ok(f, 'None'), S))
        out.append(Case('%s T=sym' % f, t_ok(f, 'sym'), S))
    for k, i in (('large', 1), ('large', 0), ('fraction', 0), ('negative', 1), ('negative', 0)):
        out.append(Case('T %s%s' % (k, ' (int)' if i else ''), t_bad(k, i), S))
        out.append(Case('parse_T %s%s' % (k, ' (int)' if i else ''), t_bad(k, i, True), S))
    for t in ('None', 'sym'):
        out.append(Case('stride 2^k, T=%s' % t, stride_ok(t), S))
        out.append(Case('oversampling k, T=%s' % t, over_ok(t), S))
    for k in ('float', 'not a power of two', 'not positive'):
        out.append(Case('stride ' + k, stride_bad(k, 'None'), S))
    for t in ('global', '0'):
        out.append(Case('stride with T=%s' % t, stride_bad('power', t), S))
    for k in ('int', '1-tuple', '2-tuple'):
        out.append(Case('Q ' + k, q_ok(k), S))
    for k in ('int below 1', 'first entry below 1', 'second entry below 1', '1-tuple below 1', 'float', 'list', 'three entries'):
        out.append(Case('Q ' + k, q_bad(k), S))
    for k in ('int', '1-tuple', '2-tuple', '3-tuple', 'list', 'float', 'string', 'None'):
        out.append(Case('shape ' + k, shape_case(k), S))
    out.append(Case('oversampling 0', over_zero, S))
    for k in ('negative', 'float'):
        out.append(Case('oversampling ' + k, over_bad(k), S))
    for f in ('numpy', 'torch', 'jax', 'tensorflow'):
        for k in ('T=0 with array', '0-dimensional input', 'unknown', 'upper case', 'empty', 'None'):
            for T in ([None] if 'T=' in k else [None, 'global', 0]):
                for o in (['list', 'array', 'dict'] if '0-' in k else ['']):
                    if (T, o) != (0, 'array'):
                        out.append(Case('%s call: %s T=%s %s' % (f, k if 'T=' in k or '0-' in k else 'out_type ' + k, T, o), runtime(f, k, T, o), S))
    return out
