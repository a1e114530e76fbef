"""Models (assumed contracts) of the standard library parts the repository uses."""
import z3
from fractions import Fraction
from . import smt, ring
from .values import *
from .interp import MISSING, DeadPath
from .builtins_model import floor_e, ceil_e, mktype, is_int_val, to_float, b_zip

PI = z3.Real('pi')


def realarg(I, v):
    if is_scalar(v):
        return reals(v)
    if hasattr(v, 'tofloat_'):
        return reals(v.tofloat_(I))
    raise I.exc('TypeError', 'must be real number')


def m_floor(I, a, k):
    v = a[0]
    if is_int_val(v):
        return mk(ints(v), 'int')
    if isinstance(v, Fraction):
        return v.__floor__()
    return mk(floor_e(I, realarg(I, v)), 'int')


def m_ceil(I, a, k):
    v = a[0]
    if is_int_val(v):
        return mk(ints(v), 'int')
    if isinstance(v, Fraction):
        return v.__ceil__()
    return mk(ceil_e(I, realarg(I, v)), 'int')


def m_log2(I, a, k):
    e = realarg(I, a[0])
    if not I.decide(e > 0):
        raise I.exc('ValueError', 'math domain error')
    s = z3.simplify(e)
    if z3.is_rational_value(s):
        f = s.as_fraction()
        if f.numerator & (f.numerator - 1) == 0 and f.denominator & (f.denominator - 1) == 0:
            return Fraction(f.numerator.bit_length() - f.denominator.bit_length())
    from .interp import pow2_form
    from .builtins_model import as_int
    ie = as_int(s)
    if ie is not None:
        f = pow2_form(ie)
        if f is not None and f[2] is None and f[1] is not None and f[0] > 0 and f[0] & (f[0] - 1) == 0 and I.entails(f[1] >= 0):
            return mk(z3.ToReal(f[1] + (f[0].bit_length() - 1)), 'float')
    if z3.is_app(s) and s.decl().name() == 'rpow2':
        return mk(z3.ToReal(s.arg(0)), 'float')
    return mk(smt.log2f(e), 'float')


def m_log(I, a, k):
    if len(a) > 1:
        if a[1] == 2 and not isinstance(a[1], Sym):
            return m_log2(I, a[:1], k)
        raise Unsupported('log with base')
    e = realarg(I, a[0])
    if not I.decide(e > 0):
        raise I.exc('ValueError', 'math domain error')
    return mk(smt.logf(e), 'float')


def m_sqrt(I, a, k):
    e = realarg(I, a[0])
    if not ring.positive(I, [], z3.simplify(e), False) and not I.decide(e >= 0):
        raise I.exc('ValueError', 'math domain error')
    return mk(smt.sqrtf(e), 'float')


def m_pow(I, a, k):
    b, e = a
    ee = realarg(I, e)
    if not isinstance(b, Sym) and b == 2 and is_int_val(e):
        return mk(smt.rpow2(ints(e)), 'float')
    if is_int_val(e):
        r = I.power(Fraction(b) if not isinstance(b, Sym) else Sym(reals(b), 'float'), e)
        return mk(reals(r), 'float')
    return mk(smt.powf(realarg(I, b), ee), 'float')


def m_exp(I, a, k):
    return mk(smt.expf(realarg(I, a[0])), 'float')


def fn1(f):
    return lambda I, a, k: mk(f(realarg(I, a[0])), 'float')


def nat(name, f):
    return Native(name, f)


def math_module():
    m = NatModule('math')
    A = m.attrs
    for n, f in [('floor', m_floor), ('ceil', m_ceil), ('log2', m_log2), ('log', m_log), ('sqrt', m_sqrt), ('pow', m_pow),
                 ('exp', m_exp), ('sin', fn1(smt.sinf)), ('cos', fn1(smt.cosf))]:
        A[n] = nat('math.' + n, f)
    A['pi'] = Sym(PI, 'float')
    A['fabs'] = nat('math.fabs', lambda I, a, k: to_float(I, [I.call(I.builtins['abs'], a)], {}))
    A['inf'] = Opaque('math.inf')
    return m


def warn(I, a, k):
    I.warns.append((I.where(), a))


class Stub:
    """anything about logging / warnings control: accepted, no effect"""

    def __init__(self, name):
        self.name = name

    def getattr_(self, I, n):
        return Stub(self.name + '.' + n)

    def vcall(self, I, a, k):
        return Stub(self.name + '()')

    def truth_(self, I):
        return True

    def isinstance_(self, I, cls):
        return False


def namedtuple(I, a, k):
    name, fields = a[0], a[1]
    fs = fields.split() if isinstance(fields, str) else I.domain(fields)
    cls = VClass(name, [I.object_cls])

    def new(I, a, k):
        o = VObj(cls)
        for f, v in zip(fs, a):
            o.attrs[f] = v
        o.attrs.update(k)
        if len(o.attrs) != len(fs):
            raise I.exc('TypeError', 'namedtuple arguments')
        return o
    cls.native = type('H', (), {'new': staticmethod(lambda I, c, a, k: new(I, a, k))})()
    cls.ns['__iter__'] = nat('__iter__', lambda I, a, k: VList([a[0].attrs[f] for f in fs]))
    cls.ns['__getitem__'] = nat('__getitem__', lambda I, a, k: a[0].attrs[fs[a[1]]])
    cls.ns['_fields'] = tuple(fs)
    return cls


def counter(I, a, k):
    d = VDict()
    if a:
        items = I.domain(a[0])
        return CounterModel(items)
    return CounterModel([])


class CounterModel:
    def __init__(self, items):
        self.items = items

    def getitem_(self, I, key):
        n = 0
        return count_eq(I, self.items, key)

    def getattr_(self, I, name):
        if name == 'get':
            return nat('get', lambda I, a, k: count_eq(I, self.items, a[0]))
        raise Unsupported('Counter.' + name)

    def subst_(self, pairs, memo):
        from .loops import subst_items
        return CounterModel(subst_items(self.items, pairs))


def count_eq(I, items, key):
    """number of elements equal to key"""
    from .loops import sum_term
    n = 0
    for x in items:
        if isinstance(x, For):
            inner = count_eq(I, x.body, key)
            n = I.binop('Add', n, sum_term(I, x.var, x.lo, x.hi, ints(inner)))
        elif isinstance(x, Cond):
            t = None
            for g, b in reversed(x.alts):
                c = ints(count_eq(I, b, key))
                t = c if t is None else z3.If(g, c, t)
            n = I.binop('Add', n, mk(t, 'int'))
        else:
            t = I.eq(x, key)
            if isinstance(t, bool):
                n = I.binop('Add', n, int(t))
            else:
                n = I.binop('Add', n, mk(z3.If(ex(t), smt.iv(1), smt.iv(0)), 'int'))
    return n


def product(I, a, k):
    """itertools.product in its documented (lexicographic) order"""
    from .loops import subst_items
    if k:
        raise Unsupported('product(repeat)')
    doms = [I.domain(x) for x in a]

    def rec(j, pre):
        if j == len(doms):
            return [tuple(pre)]
        out = []

        def walk(items):
            res = []
            for x in items:
                if isinstance(x, For):
                    v = I.freshvar('p')
                    res.append(For(v, x.lo, x.hi, walk(subst_items(x.body, [(x.var, v)]))))
                elif isinstance(x, Cond):
                    res.append(Cond([(g, walk(b)) for g, b in x.alts]))
                elif isinstance(x, Prefix):
                    raise Unsupported('iteration over a list under construction')
                else:
                    res += rec(j + 1, pre + [x])
            return res
        return walk(doms[j])
    return VGen(VList(rec(0, [])))


def combinations(I, a, k):
    from .loops import subst_items
    items = I.domain(a[0])
    if a[1] != 2 or not is_concrete_items(items):
        if a[1] == 2 and len(items) == 1 and isinstance(items[0], For) and len(items[0].body) == 1:
            f = items[0]
            w = I.freshvar('c')
            b2 = subst_items(f.body, [(f.var, w)])
            return VGen(VList([For(f.var, f.lo, f.hi, [For(w, z3.simplify(f.var + 1), f.hi, [(f.body[0], b2[0])])])]))
        raise Unsupported('combinations')
    return VGen(VList([(items[i], items[j]) for i in range(len(items)) for j in range(i + 1, len(items))]))


def chain(I, a, k):
    out = VList()
    for x in a:
        out.items += I.domain(x)
    return VGen(out)


def standard(I):
    from . import npmodel
    I.natives['numpy'] = npmodel.module()
    from . import extern, symstr
    extern.install(I)
    symstr.install_os(I)
    N = I.natives
    N['math'] = math_module()
    numbers = NatModule('numbers')
    numbers.attrs['Integral'] = mktype('Integral', is_int_val)
    numbers.attrs['Number'] = mktype('Number', is_scalar)
    numbers.attrs['Real'] = mktype('Real', is_scalar)
    N['numbers'] = numbers
    w = NatModule('warnings')
    w.attrs['warn'] = nat('warn', warn)
    w.attrs['filterwarnings'] = nat('filterwarnings', lambda I, a, k: None)
    w.attrs['simplefilter'] = nat('simplefilter', lambda I, a, k: None)
    N['warnings'] = w
    c = NatModule('collections')
    c.attrs['namedtuple'] = nat('namedtuple', namedtuple)
    c.attrs['Counter'] = nat('Counter', counter)
    c.attrs['OrderedDict'] = I.builtins['dict']
    N['collections'] = c
    it = NatModule('itertools')
    it.attrs['product'] = nat('product', product)
    it.attrs['combinations'] = nat('combinations', combinations)
    it.attrs['chain'] = nat('chain', chain)
    N['itertools'] = it
    lg = NatModule('logging')
    lg.attrs['getLogger'] = nat('getLogger', lambda I, a, k: Stub('logger'))
    for lv in ('debug', 'info', 'warning', 'error', 'critical', 'log', 'exception'):
        lg.attrs[lv] = nat('logging.' + lv, lambda I, a, k: None)
    N['logging'] = lg
    st = NatModule('string')
    st.attrs['Template'] = nat('Template', lambda I, a, k: TemplateModel(a[0]))
    N['string'] = st
    pv = NatModule('packaging.version')
    pv.attrs['parse'] = nat('parse', lambda I, a, k: Version(a[0]))
    pv.attrs['Version'] = pv.attrs['parse']
    pk = NatModule('packaging')
    pk.attrs['version'] = pv
    N['packaging'] = pk
    N['packaging.version'] = pv
    fm = NatModule('functools')
    N['functools'] = fm
    N['re'] = NatModule('re')
    ty = NatModule('typing')
    N['typing'] = ty


class TemplateModel:
    def __init__(self, s):
        self.s = s

    def getattr_(self, I, name):
        if name in ('substitute', 'safe_substitute'):
            import string

            def sub(I, a, k):
                if isinstance(self.s, str) and all(isinstance(v, str) for v in k.values()):
                    return getattr(string.Template(self.s), name)(**k)
                return '<template>'
            return nat(name, sub)
        raise Unsupported('Template.' + name)


class Version:
    """packaging versions of the installed libraries"""

    def __init__(self, s):
        self.s = s if isinstance(s, str) else '2.99'

    def compare_(self, I, op, o, rev):
        if not isinstance(o, Version):
            return NotImplemented
        f = lambda v: [int(''.join(ch for ch in p if ch.isdigit()) or 0) for p in v.s.split('+')[0].split('.')][:3]
        a, b = f(self), f(o)
        if rev:
            a, b = b, a
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b, 'Eq': a == b, 'NotEq': a != b}[op]

    def eq_(self, I, o):
        return isinstance(o, Version) and o.s == self.s
