"""numpy: assumed contracts of the functions the repository uses (scalars; tensors are in etensor.py)."""
import z3
from fractions import Fraction
from . import smt
from .values import *
from .interp import MISSING
from .libs import nat, m_floor, m_ceil, m_log2, m_sqrt, m_exp, m_log, fn1, realarg, PI
from .builtins_model import to_float, floor_e, ceil_e, mktype, is_int_val, quant


class Token(Opaque):
    """a library function passed around as a value"""

    def eq_(self, I, o):
        return isinstance(o, Token) and o.name == self.name

    def is_(self, I, o):
        return self.eq_(I, o)

    def isinstance_(self, I, cls):
        return False


class NanT:
    """not-a-number"""

    def __repr__(self):
        return 'nan'

    def eq_(self, I, o):
        return False

    def is_(self, I, o):
        return isinstance(o, NanT)

    def isinstance_(self, I, cls):
        return cls is I.builtins.get('float')

    def binop_(self, I, op, o, rev):
        return self

    def truth_(self, I):
        return True

    def subst_(self, pairs, memo):
        return self

NAN = NanT()


class NpVec:
    """small numpy vector of scalars (array of a python tuple/list of numbers)"""

    def __init__(self, items):
        self.items = items

    def getattr_(self, I, name):
        if name == 'tolist':
            return nat('tolist', lambda I, a, k: VList(self.items))
        if name == 'shape':
            return (I.seg_count(list(self.items), 0),)
        if name in ('any', 'all', 'sum', 'min', 'max', 'prod', 'mean'):
            return nat(name, lambda I, a, k: I.call(I.natives['numpy'].attrs[name], [self] + list(a), k))
        raise Unsupported('numpy vector attribute ' + name)

    def compare_(self, I, op, o, rev):
        if not is_scalar(o):
            return NotImplemented
        from .builtins_model import seg_map
        f = (lambda x: I.compare(op, o, x)) if rev else (lambda x: I.compare(op, x, o))
        return NpVec(seg_map(self.items, f))

    def binop_(self, I, op, o, rev):
        if not is_scalar(o):
            return NotImplemented
        from .builtins_model import seg_map
        f = (lambda x: I.binop(op, o, x)) if rev else (lambda x: I.binop(op, x, o))
        return NpVec(seg_map(self.items, f))

    def isinstance_(self, I, cls):
        return cls is I.natives['numpy'].attrs.get('ndarray')

    def domain_(self, I):
        return list(self.items)

    def len_(self, I):
        return I.seg_count(list(self.items), 0)

    def subst_(self, pairs, memo):
        from .loops import subst_items
        return NpVec(subst_items(list(self.items), pairs))

    def __repr__(self):
        return 'NpVec(%r)' % (self.items,)


def np_any(I, a, k):
    v = a[0]
    if isinstance(v, NpVec):
        return not quant(I, [x for x in v.items], False)
    if is_scalar(v):
        return I.call(I.builtins['bool'], [v])
    if isinstance(v, (tuple, VList)):
        return not quant(I, I.domain(v), False)
    h = getattr(v, 'np_any_', None)
    if h:
        return h(I, a, k)
    raise Unsupported('np.any of %r' % (v,))


def np_all(I, a, k):
    v = a[0]
    if isinstance(v, NpVec):
        return quant(I, [x for x in v.items], True)
    if is_scalar(v):
        return I.call(I.builtins['bool'], [v])
    if isinstance(v, (tuple, VList)):
        return quant(I, I.domain(v), True)
    h = getattr(v, 'np_all_', None)
    if h:
        return h(I, a, k)
    raise Unsupported('np.all of %r' % (v,))


def np_array(I, a, k):
    v = a[0]
    if is_scalar(v):
        return v            # 0-d arrays behave as scalars for the operations used
    if isinstance(v, (tuple, VList)):
        items = I.domain(v)
        h = getattr(I, 'np_array_hook', None)
        if h is not None:
            r = h(I, items, k)
            if r is not None:
                return r
        return NpVec(items)
    if isinstance(v, NpVec):
        return NpVec(list(v.items))
    h = getattr(I, 'np_asarray_hook', None)
    if h is not None:
        return h(I, v, k)
    raise Unsupported('np.array of %r' % (v,))


def scal(f_int_ok):
    def g(I, a, k):
        v = a[0]
        if hasattr(v, 'np_unary_'):
            return v.np_unary_(I, f_int_ok.__name__)
        return f_int_ok(I, a, k)
    return g


def np_floor(I, a, k):
    r = m_floor(I, a, k)
    return mk(reals(r), 'float')


def np_ceil(I, a, k):
    r = m_ceil(I, a, k)
    return mk(reals(r), 'float')


def np_minmax(up):
    def g(I, a, k):
        v = a[0]
        if isinstance(v, (NpVec, tuple, VList)):
            return I.call(I.builtins['max' if up else 'min'], [VList(v.items if isinstance(v, NpVec) else I.domain(v))])
        if is_scalar(v) and len(a) == 1:
            return v
        raise Unsupported('np.max/min of %r' % (v,))
    return g


def np_binminmax(up):
    def g(I, a, k):
        if is_scalar(a[0]) and is_scalar(a[1]):
            return I.call(I.builtins['max' if up else 'min'], a)
        raise Unsupported('np.maximum/minimum')
    return g


def np_sum(I, a, k):
    v = a[0]
    if isinstance(v, (NpVec, tuple, VList)) and not k:
        return I.call(I.builtins['sum'], [VList(v.items if isinstance(v, NpVec) else I.domain(v))])
    h = getattr(v, 'np_reduce_', None)
    if h is not None:
        return h(I, 'sum', a[1:], k)
    raise Unsupported('np.sum of %r' % (v,))


def np_sign(I, a, k):
    v = a[0]
    if not is_scalar(v) or isinstance(v, bool) or len(a) != 1 or k:
        raise Unsupported('np.sign of %r' % (v,))
    if not isinstance(v, Sym):
        return (v > 0) - (v < 0)
    e, z = v.e, 0
    one = smt.iv(1) if kind(v) == 'int' else z3.RealVal(1)
    for c, r in ((e > 0, one), (e < 0, -one), (e == 0, one - one)):
        if I.entails(c):
            return mk(r, v.k)
    return mk(z3.If(e > 0, one, z3.If(e < 0, -one, one - one)), v.k)


class NpFn(Token):
    def __init__(self, name, fn):
        Token.__init__(self, name)
        self.fn = fn

    def vcall(self, I, a, k):
        return self.fn(I, a, k)


def module():
    m = NatModule('numpy')
    A = m.attrs

    def put(n, f):
        A[n] = NpFn('numpy.' + n, f)
    put('floor', np_floor)
    put('ceil', np_ceil)
    put('log2', m_log2)
    put('sign', np_sign)
    put('sqrt', m_sqrt)
    put('exp', m_exp)
    put('log', m_log)
    put('cos', fn1(smt.cosf))
    put('sin', fn1(smt.sinf))
    put('any', np_any)
    put('all', np_all)
    put('array', np_array)
    put('asarray', np_array)
    put('max', np_minmax(True))
    put('min', np_minmax(False))
    put('amax', np_minmax(True))
    put('amin', np_minmax(False))
    put('maximum', np_binminmax(True))
    put('minimum', np_binminmax(False))
    put('sum', np_sum)
    A['mean'] = Token('numpy.mean')
    A['pi'] = Sym(PI, 'float')
    A['nan'] = NAN
    A['ndarray'] = mktype('ndarray', lambda v: hasattr(v, 'is_ndarray_'))
    A['newaxis'] = None
    return m
