"""Array functions the filter design uses (mgrid, arange, fftfreq, products, spherical harmonics) on element-level arrays."""
import z3
from . import smt, etlib
from . import etensor as E
from .binders import atom
from .etensor import ET, Cx, R0, R1, elementwise, fints, ints, reals, norm_fac, prod_of
from .etlib import arg, over, plain, dt_name
from .npmodel import NpFn, NpVec
from .values import *

SPH = [z3.Function('sph_harm_' + p, smt.Int, smt.Int, smt.Real, smt.Real, smt.Real) for p in ('re', 'im')]
FACT = z3.Function('factorial', smt.Real, smt.Real)


def count_of(I, lo, hi):
    n = z3.simplify(ints(hi) - ints(lo))
    if not I.entails(n >= 0):
        n = z3.If(n >= 0, n, smt.iv(0))
    return mk(n, 'int')


class MGrid:
    """np.mgrid[a:b, ...]"""

    def getitem_(self, I, i):
        single = isinstance(i, VSlice)
        sl = [i] if single else list(i)
        los, ns = [], []
        for x in sl:
            if not isinstance(x, VSlice) or x.step not in (None, 1) or x.hi is None:
                raise Unsupported('np.mgrid with a step')
            lo = 0 if x.lo is None else x.lo
            if kind(lo) != 'int' or kind(x.hi) != 'int':
                raise Unsupported('np.mgrid of non-integers')
            los.append(z3.ToReal(ints(lo)))
            ns.append(count_of(I, lo, x.hi))
        if single:
            return E.make((ns[0],), lambda ix: los[0] + z3.ToReal(ix[0]), 'int64', 'numpy')
        if len(sl) == 1 or any(isinstance(n, int) and n == 1 for n in ns):
            raise Unsupported('np.mgrid of a unit axis')

        def fn(ix):
            r = los[-1] + z3.ToReal(ix[len(sl)])
            for c in range(len(sl) - 2, -1, -1):
                r = z3.If(ix[0] == c, los[c] + z3.ToReal(ix[1 + c]), r)
            return z3.simplify(r)
        return E.make((len(sl),) + tuple(ns), fn, 'int64', 'numpy')

    def subst_(self, pairs, memo):
        return self

    def mentions_(self, sym):
        return False


def arange(I, a, k):
    a = list(a) + [k[n] for n in ('start', 'stop', 'step') if n in k]
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    d = arg(a, k, 3, 'dtype')
    if any(not is_scalar(v) or kind(v) != 'int' for v in (start, stop, step)) or isinstance(step, Sym) or step == 0:
        raise Unsupported('np.arange of these arguments')
    s = int(step)
    span = z3.simplify(ints(stop) - ints(start)) if s > 0 else z3.simplify(ints(start) - ints(stop))
    n = span if abs(s) == 1 else (span + abs(s) - 1) / abs(s)
    if not I.entails(span >= 0):
        n = z3.If(span >= 0, n, smt.iv(0))
    b = ints(start)
    return E.make((mk(n, 'int'),), lambda ix: z3.ToReal(z3.simplify(b + s * ix[0])), 'int64' if d is None else dt_name(I, d), 'numpy')


def fftfreq(I, a, k):
    n = arg(a, k, 0, 'n')
    d = arg(a, k, 1, 'd')
    if d is not None:
        raise Unsupported('fftfreq with a spacing')
    e = ints(n)
    return E.make((n,), lambda ix: z3.If(ix[0] <= (e - 1) / 2, z3.ToReal(ix[0]), z3.ToReal(ix[0] - e)) / z3.ToReal(e), 'float64', 'numpy')


def unknown_bool(I, a, k):
    x = a[0]
    if x.dt != 'bool':
        raise Unsupported('any/all of numbers')
    return Sym(z3.FreshConst(z3.BoolSort(), 'some'), 'bool')


def prod(I, a, k):
    x = a[0]
    if len(x.axes) != 1 or isinstance(x.axes[0], Block) or len(a) > 1 or k:
        raise Unsupported('np.prod over axes')
    n = prod_of(I, x.axes[0])
    rd = x.reader()
    if isinstance(n, int) and n <= 8:
        r = R1
        for t in range(n):
            r = E.rmul(r, rd([smt.iv(t)] if len(x.axes[0]) else []))
    else:
        v = z3.FreshConst(smt.Int, 't')
        r = product(rd([v]), v, ints(n))
    return mk(z3.ToInt(r), 'int') if x.dt.startswith('int') else mk(r, 'float')


def product(t, v, n):
    return atom('prod', [v], [t], [n], smt.Real)


def sph_harm(I, a, k):
    m, l, az, pol = a
    if not (is_scalar(m) and is_scalar(l)):
        raise Unsupported('sph_harm with array orders')
    m, l = ints(m), ints(l)
    return elementwise(I, lambda x, y: Cx(SPH[0](m, l, x, y), SPH[1](m, l, x, y)), [az, pol], dt='complex128', extra=[a[0], a[1]])


def array(old):
    def g(I, a, k):
        v = a[0]
        if isinstance(v, (tuple, VList)):
            its = I.domain(v)
            if is_concrete_items(its) and its and all(isinstance(x, (tuple, VList)) for x in its):
                return etlib.asarray(I, a, {q: w for q, w in k.items() if q == 'dtype'}, 'numpy')
        return I.call(old, a, k)
    return g


def install(I):
    etlib.install(I)
    m = I.natives['numpy']
    m.attrs['mgrid'] = MGrid()
    plain(m, 'arange', arange)
    plain(m.attrs['fft'], 'fftfreq', fftfreq)
    plain(I.natives['scipy.fft'], 'fftfreq', fftfreq)
    over(m, 'any', unknown_bool)
    over(m, 'all', unknown_bool)
    over(m, 'prod', prod)
    for n in ('array', 'asarray'):
        m.attrs[n] = NpFn('numpy.' + n, array(m.attrs[n]))
    plain(m, 'seterr', lambda I, a, k: VDict({n: 'warn' for n in ('divide', 'over', 'under', 'invalid')}))
    m.attrs['errstate'] = m.attrs['seterr']
    sp = NatModule('scipy.special')
    I.natives['scipy'].attrs['special'] = sp
    I.natives['scipy.special'] = sp
    plain(sp, 'sph_harm', sph_harm)

    def factorial(I, a, k):
        e = FACT(reals(a[0]))
        I.assume(z3.Implies(reals(a[0]) >= 0, e > 0))
        return mk(e, 'float')
    plain(sp, 'factorial', factorial)

    def attr(I, x, name):
        if name in ('any', 'all'):
            return Native(name, lambda I, a, k: unknown_bool(I, [x], {}))
        return None
    I.et_attr = attr
