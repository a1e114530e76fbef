"""C04: the 1D filter bank: Morlet and Gauss filters, scales, centre frequencies, folded levels."""
import z3
from vc import smt, etfilters, ring
from vc import etensor as E
from vc.etensor import ET, Cx, R0, R1, et_obl, make
from vc.values import *
from vc.spec import match
from vc.harness import Case, expect_ok
from .c1d import sym_int, used
from .c19 import sym_real, bind, truth

FB = 'kymatio.scattering1d.filter_bank:'
MOD = 'kymatio.scattering1d.filter_bank'
R, N_ = smt.Real, smt.Int
FILT = z3.Function('morlet_1d', N_, R, R, N_, R)         # size, centre frequency, bandwidth; frequency index
GAUSS = z3.Function('gauss_1d', N_, R, N_, R)
DYAD = z3.Function('max_dyadic_subsampling', R, R, R, N_)
RATIO = z3.Function('sigma_over_xi', N_, R, R)
rv = z3.RealVal


def setup(I):
    etfilters.install(I)


def call(I, name, a, k=None):
    return expect_ok(I, name + ' is defined', lambda: I.call(I.get(MOD, name), a, k or {}))


# ---------------------------------------------------------------- numbers
def periods(default):
    def body(I):
        s = sym_real(I, 'sigma')
        if default:
            P = call(I, 'adaptive_choice_P', [s])
        else:
            eps = sym_real(I, 'eps')
            I.assume(eps.e < 1)
            P = call(I, 'adaptive_choice_P', [s, eps])
        I.oblige('a whole number of periods', kind(P) == 'int', str(P))
        I.oblige('at least one period', ints(P) >= 1, str(P))
    return body


def dyadic(I):
    xi, sigma, alpha = sym_real(I, 'xi', False), sym_real(I, 'sigma'), sym_real(I, 'alpha')
    j = call(I, 'get_max_dyadic_subsampling', [xi, sigma, alpha])
    I.oblige('a whole number', kind(j) == 'int', str(j))
    u = smt_min(z3.If(xi.e >= 0, xi.e, -xi.e) + alpha.e * sigma.e)
    I.assume(alpha.e * sigma.e > 0)
    for f in dyadic_facts(u, ints(j)):
        I.oblige('largest j with min(|xi| + alpha sigma, 1/2) <= 2^-(j+1)', f, '%s: %s' % (j, f))


def smt_min(e):
    return z3.If(e <= rv('1/2'), e, rv('1/2'))


def dyadic_facts(u, j):
    return [j >= 0, u <= smt.rpow2(-(j + 1)), u > smt.rpow2(-(j + 2))]


def xi_max(I):
    Q = sym_int(I, 'Q', 1)
    v = call(I, 'compute_xi_max', [Q])
    I.oblige('between 0.35 and 1/2', z3.And(reals(v) > 0, 2 * reals(v) < 1), str(v))


def sigma_psi(default):
    def body(I):
        xi, Q = sym_real(I, 'xi'), sym_int(I, 'Q', 1)
        a = [xi, Q]
        if not default:
            r = sym_real(I, 'r')
            I.assume(r.e < 1)
            a.append(r)
        v = call(I, 'compute_sigma_psi', a)
        f = reals(v)
        I.oblige('positive', ring.positive(I, [], z3.simplify(f)), str(f))
        one = z3.simplify(z3.substitute(f, (xi.e, R1)))
        I.oblige('proportional to the frequency', ring.equal(I, [], z3.simplify(f), z3.simplify(xi.e * one), 0, E.ext_eq), str(f))
    return body


# ---------------------------------------------------------------- anden_generator
def sigma_psi_contract(I, f, a, k):
    used(I, FB + 'compute_sigma_psi')
    v = bind(('xi', 'Q', 'r'), a, k, r=None)
    r = reals(v['r']) if v['r'] is not None else R0
    c = RATIO(ints(v['Q']), r)
    I.assume(c > 0)
    return mk(reals(v['xi']) * c, 'float')


def xi_max_contract(I, f, a, k):
    used(I, FB + 'compute_xi_max')
    e = z3.Function('xi_max', N_, R)(ints(bind(('Q',), a, k)['Q']))
    I.assume(z3.And(e > 0, 2 * e < 1))
    return mk(e, 'float')


def numbers(I):
    I.contracts[FB + 'compute_sigma_psi'] = sigma_psi_contract
    I.contracts[FB + 'compute_xi_max'] = xi_max_contract


def generator(I):
    J, Q = sym_int(I, 'J', 0), sym_int(I, 'Q', 1)
    s0, r = sym_real(I, 'sigma0'), sym_real(I, 'r_psi')
    I.assume(r.e < 1)
    g = expect_ok(I, 'anden_generator is defined', lambda: I.call(I.get(MOD, 'anden_generator'), [J, Q, s0, r], {'alpha': sym_real(I, 'alpha')}))
    smin = s0.e / z3.ToReal(smt.pow2(J.e))
    I.assume(smt.pow2(J.e) >= 1)
    items = expect_ok(I, 'anden_generator runs', lambda: I.domain(g))
    pairs = []

    def one(v, last=None):
        x = I.domain(v)
        return reals(x[0]), reals(x[1])

    def below(prev, v):
        """the element v after the frequency prev (None: first)"""
        xi, sg = one(v)
        I.oblige('centre frequency positive', xi > 0, str(xi))
        I.oblige('bandwidth at least sigma0 / 2^J', sg >= smin, '%s >= %s' % (sg, smin))
        if prev is not None:
            I.oblige('centre frequencies strictly decreasing', xi < prev, '%s < %s' % (xi, prev))
        return xi
    prev = None
    from vc.loops import subst_items
    for it in items:
        if isinstance(it, For):
            # inside the family, and from what came before to its first element
            k = I.freshvar('k')
            n = len(I.pc)
            I.pc += [k >= it.lo, k < it.hi]
            try:
                if I.feasible():
                    cur = subst_items(it.body, [(it.var, k)])
                    nxt = subst_items(it.body, [(it.var, z3.simplify(k + 1))])
                    p = None
                    for v in cur:
                        p = below(p, v)
                    I.pc.append(k + 1 < it.hi)
                    if I.feasible():
                        below(p, nxt[0])
            finally:
                del I.pc[n:]
            n = len(I.pc)
            I.pc.append(it.hi > it.lo)
            try:
                if I.feasible():
                    below(prev, subst_items(it.body, [(it.var, it.lo)])[0])
            finally:
                del I.pc[n:]
            # what follows the family: its last element if it is not empty
            lastv = one(subst_items(it.body, [(it.var, z3.simplify(it.hi - 1))])[-1])[0]
            prev = lastv if prev is None else z3.If(it.hi > it.lo, lastv, prev)
            if prev is lastv and not I.entails(it.hi > it.lo):
                prev = None
                rest = items[items.index(it) + 1:]
                I.oblige('bank without a first element has no second part', not rest or not I.feasible(), repr(rest))
        elif isinstance(it, Cond):
            I.oblige('list of centre frequencies', False, repr(it))
        else:
            prev = below(prev, it)


def cases(tier):
    out = [Case('adaptive_choice_P' + (' default' if d else ''), periods(d), [setup]) for d in (True, False)]
    out.append(Case('get_max_dyadic_subsampling', dyadic, [setup]))
    out.append(Case('compute_xi_max', xi_max, [setup]))
    out += [Case('compute_sigma_psi' + (' default' if d else ''), sigma_psi(d), [setup]) for d in (True, False)]
    out.append(Case('anden_generator', generator, [setup, numbers]))
    return out
