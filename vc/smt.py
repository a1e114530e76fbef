"""SMT layer: the back ends (z3, cvc5), the arithmetic functions used by the contracts (powers of two, floor
division, square root, exponential, ...) and the lemma instances that give them their meaning.

All lemmas below are facts of arithmetic over the integers / reals; they are instantiated on the terms that occur in
a query (no quantifiers are ever given to the solvers)."""
import itertools, time, subprocess, tempfile, os
from fractions import Fraction
import z3

z3.set_param('smt.random_seed', 1)
Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()

# ---------------------------------------------------------------- functions with lemma schemas
pow2 = z3.Function('pow2', Int, Int)          # 2**k, k >= 0
rpow2 = z3.Function('rpow2', Int, Real)       # 2**k as a real, any integer k
flog2 = z3.Function('flog2', Real, Int)       # floor(log2 x), x > 0
clog2 = z3.Function('clog2', Real, Int)       # ceil(log2 x), x > 0
log2f = z3.Function('log2', Real, Real)
cdivp = z3.Function('cdivp', Int, Int, Int)   # ceil(x / 2**j), j >= 0
sqrtf = z3.Function('sqrt', Real, Real)
expf = z3.Function('exp', Real, Real)
logf = z3.Function('log', Real, Real)
powf = z3.Function('pow', Real, Real, Real)
sinf = z3.Function('sin', Real, Real)
cosf = z3.Function('cos', Real, Real)
atan2f = z3.Function('atan2', Real, Real, Real)

SCHEMA = {'pow2', 'rpow2', 'flog2', 'clog2', 'log2', 'cdivp', 'sqrt', 'exp', 'log', 'pow', 'sin', 'cos'}

LEMMAS_USED = set()


def iv(x):
    return z3.IntVal(int(x))


def rv(x):
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator)) / z3.RealVal(str(x.denominator)) if x.denominator != 1 \
            else z3.RealVal(str(x.numerator))
    if isinstance(x, int):
        return z3.RealVal(str(x))
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)


def is_num(e):
    return z3.is_int_value(e) or z3.is_rational_value(e)


def num(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return e.as_fraction()
    return None


def simp(e):
    return z3.simplify(e, som=False, arith_lhs=False)


_ccache = {}


_coll = {}      # assertion id -> (assertion, {name: [terms]})


def collect1(top):
    i0 = top.get_id()
    r = _coll.get(i0)
    if r is not None:
        return r[1]
    out = {}
    seen = set()
    stack = [top]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e) and e.num_args():
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                if n in SCHEMA:
                    out.setdefault(n, []).append(e)
            stack.extend(e.children())
    _coll[i0] = (top, out)
    return out


def collect(exprs):
    """all applications of schema functions in exprs"""
    out = {}
    for t in exprs:
        for n, l in collect1(t).items():
            d = out.setdefault(n, {})
            for e in l:
                d[e.get_id()] = e
    return {k: list(v.values()) for k, v in out.items()}


def consts_of(exprs):
    out, seen, stack = {}, set(), list(exprs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[e.get_id()] = e
        stack.extend(e.children())
    return list(out.values())


def _key(e):
    return e.get_id()


_uf = {}
_pf = {}


def _unary(n, t):
    r = _uf.get(t.get_id())
    if r is None:
        f = []
        UNARY[n](t, f.append)
        r = _uf[t.get_id()] = (t, f)
    return r[1]


def _pair(n, a, b):
    k = (a.get_id(), b.get_id())
    r = _pf.get(k)
    if r is None:
        f = []
        PAIR[n](a, b, f.append)
        r = _pf[k] = (a, b, f)
    return r[2]


LIMIT = {'pow2': 14, 'rpow2': 14, 'cdivp': 10, 'exp': 12}


def instances(exprs, extra=()):
    """lemma instances for the schema terms of exprs (one round; called twice)"""
    T = collect(exprs)
    facts = []
    for n, ts in T.items():
        if n in UNARY:
            for t in ts:
                facts += _unary(n, t)
        if n in PAIR:
            ts = sorted(ts, key=size)[:LIMIT[n]]
            for a, b in itertools.combinations(ts, 2):
                facts += _pair(n, a, b)
    if 'cdivp' in T and 'pow2' in T:
        P = {simp(p.arg(0)).get_id(): p for p in T['pow2']}
        for c in T['cdivp'][:12]:
            for p in T['pow2'][:20]:
                m = simp(p.arg(0) + c.arg(1))
                q = P.get(m.get_id())
                if q is not None:
                    facts += _triple(c, p, q)
    return facts


def _triple(c, p, q):
    # x <= 2^(j+m) -> ceil(x/2^j) <= 2^m
    k = ('t', c.get_id(), p.get_id(), q.get_id())
    if k not in _pf:
        x, j = c.arg(0), c.arg(1)
        _pf[k] = (c, (p, q), [z3.Implies(z3.And(j >= 0, p.arg(0) >= 0, x <= q), c <= p)])
    return _pf[k][2]


_size = {}


def size(e):
    i = e.get_id()
    if i not in _size:
        n, seen, stack = 0, set(), [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            n += 1
            stack.extend(x.children())
        _size[i] = (n, e)
    return _size[i][0]


def u_pow2(t, F):
    k = t.arg(0)
    F(z3.Implies(k >= 0, t >= 1))
    F(z3.Implies(k >= 0, t >= k + 1))
    F(z3.Implies(k == 0, t == 1))
    F(z3.Implies(k == 1, t == 2))
    F(z3.Implies(k == 2, t == 4))
    F(z3.Implies(k >= 1, t >= 2))
    F(z3.Implies(k >= 1, t % 2 == 0))


def p_pow2(a, b, F):
    x, y = a.arg(0), b.arg(0)
    d = simp(x - y)
    if z3.is_int_value(d):
        n = d.as_long()
        if 0 < n <= 64:
            F(z3.Implies(y >= 0, a == (2 ** n) * b))
        elif -64 <= n < 0:
            F(z3.Implies(x >= 0, b == (2 ** -n) * a))
        return
    F(z3.Implies(z3.And(x >= 0, y >= 0, x < y), 2 * a <= b))
    F(z3.Implies(z3.And(x >= 0, y >= 0, y < x), 2 * b <= a))
    F(z3.Implies(x == y, a == b))


def u_rpow2(t, F):
    k = t.arg(0)
    F(t > 0)
    F(z3.Implies(k == 0, t == 1))
    F(z3.Implies(k >= 0, t == z3.ToReal(pow2(k))))
    F(z3.Implies(k >= 0, t >= 1))
    F(z3.Implies(k <= -1, 2 * t <= 1))
    F(z3.Implies(k <= 0, t * z3.ToReal(pow2(-k)) == 1))
    F(z3.Implies(k <= 0, pow2(-k) >= 1))


def p_rpow2(a, b, F):
    x, y = a.arg(0), b.arg(0)
    d = simp(x - y)
    if z3.is_int_value(d):
        n = d.as_long()
        F(a == rv(Fraction(2) ** n) * b)
    else:
        F(z3.Implies(x < y, 2 * a <= b))
        F(z3.Implies(y < x, 2 * b <= a))
        F(z3.Implies(x == y, a == b))


def u_flog2(t, F):
    x = t.arg(0)
    F(z3.Implies(x > 0, z3.And(rpow2(t) <= x, x < 2 * rpow2(t))))
    F(z3.Implies(x >= 1, z3.And(t >= 0, z3.ToReal(pow2(t)) <= x, x < 2 * z3.ToReal(pow2(t)))))


def u_clog2(t, F):
    x = t.arg(0)
    F(z3.Implies(x > 0, z3.And(rpow2(t) >= x, rpow2(t) < 2 * x)))
    F(z3.Implies(x >= 1, z3.And(t >= 0, z3.ToReal(pow2(t)) >= x, z3.ToReal(pow2(t)) < 2 * x)))


def u_cdivp(t, F):
    x, j = t.arg(0), t.arg(1)
    p = pow2(j)
    F(z3.Implies(j >= 0, z3.And((t - 1) * p < x, x <= t * p)))
    F(z3.Implies(j == 0, t == x))
    F(z3.Implies(z3.And(j >= 0, x >= 0), t >= 0))
    F(z3.Implies(z3.And(j >= 0, x >= 1), t >= 1))


def p_cdivp(a, b, F):
    xa, ja, xb, jb = a.arg(0), a.arg(1), b.arg(0), b.arg(1)
    F(z3.Implies(z3.And(ja == jb, ja >= 0, xa <= xb), a <= b))
    F(z3.Implies(z3.And(ja == jb, ja >= 0, xb <= xa), b <= a))
    F(z3.Implies(z3.And(ja == jb, ja >= 0, xa + pow2(ja) <= xb), a + 1 <= b))
    F(z3.Implies(z3.And(ja == jb, ja >= 0, xb + pow2(ja) <= xa), b + 1 <= a))
    # ceil(ceil(x/2^j)/2) = ceil(x/2^(j+1))
    F(z3.Implies(z3.And(xa == xb, ja >= 0, jb == ja + 1), z3.And(2 * b >= a, 2 * b <= a + 1)))
    F(z3.Implies(z3.And(xa == xb, jb >= 0, ja == jb + 1), z3.And(2 * a >= b, 2 * a <= b + 1)))


def u_sqrt(t, F):
    x = t.arg(0)
    F(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
    F(z3.Implies(x > 0, t > 0))


def u_exp(t, F):
    x = t.arg(0)
    F(t > 0)
    F(z3.Implies(x == 0, t == 1))
    F(z3.Implies(x < 0, t < 1))
    F(z3.Implies(x > 0, t > 1))


def p_exp(a, b, F):
    F(z3.Implies(a.arg(0) < b.arg(0), a < b))
    F(z3.Implies(a.arg(0) > b.arg(0), a > b))
    F(z3.Implies(a.arg(0) == b.arg(0), a == b))


def u_log(t, F):
    x = t.arg(0)
    F(z3.Implies(x > 1, t > 0))
    F(z3.Implies(x == 1, t == 0))
    F(z3.Implies(z3.And(x > 0, x < 1), t < 0))


def u_log2(t, F):
    x = t.arg(0)
    F(z3.Implies(x > 0, z3.And(z3.ToReal(flog2(x)) <= t, t < z3.ToReal(flog2(x)) + 1)))
    F(z3.Implies(x > 0, z3.And(z3.ToReal(clog2(x)) >= t, t > z3.ToReal(clog2(x)) - 1)))
    F(z3.Implies(x > 0, (t == z3.ToReal(flog2(x))) == (rpow2(flog2(x)) == x)))
    F(z3.Implies(x > 0, (t == z3.ToReal(clog2(x))) == (rpow2(clog2(x)) == x)))


def u_pow(t, F):
    b, e = t.arg(0), t.arg(1)
    F(z3.Implies(b > 0, t > 0))
    F(z3.Implies(z3.And(b > 1, e > 0), t > 1))
    F(z3.Implies(z3.And(b > 1, e <= 1), t <= b))
    F(z3.Implies(z3.And(b > 1, e <= 3), t <= b * b * b))
    F(z3.Implies(z3.And(b > 0, e == 0), t == 1))
    F(z3.Implies(e == 1, t == b))


UNARY = {'pow2': u_pow2, 'rpow2': u_rpow2, 'flog2': u_flog2, 'clog2': u_clog2, 'cdivp': u_cdivp, 'sqrt': u_sqrt, 'exp': u_exp,
         'log': u_log, 'log2': u_log2, 'pow': u_pow}
PAIR = {'pow2': p_pow2, 'rpow2': p_rpow2, 'cdivp': p_cdivp, 'exp': p_exp}


# ---------------------------------------------------------------- prover
class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}
        self.unknown = 0

STATS = Stats()
SLOW = float(os.environ['VC_SLOW']) if os.environ.get('VC_SLOW') else None


class Result:
    __slots__ = ('ok', 'status', 'model', 'by')

    def __init__(self, ok, status, model=None, by='z3'):
        self.ok, self.status, self.model, self.by = ok, status, model, by

    def __bool__(self):
        return self.ok


_cache = {}


def check_sat(assertions, timeout=8000, want_model=False, use_cvc5=True):
    """-> ('unsat'|'sat'|'unknown', model, backend)"""
    assertions = [a for a in assertions if not z3.is_true(a)]
    key = (frozenset(a.get_id() for a in assertions))
    if key in _cache:
        r = _cache[key]
        if not (want_model and r[0] == 'sat' and r[1] is None):
            return r[:3]
    t0 = time.time()
    facts, seen = [], set()
    cur = list(assertions)
    for _ in range(2):
        new = [f for f in instances(cur) if f.get_id() not in seen]
        if not new:
            break
        for f in new:
            seen.add(f.get_id())
        facts += new
        cur = list(assertions) + facts
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*assertions)
    s.add(*facts)
    r = s.check()
    by = 'z3'
    model = None
    if r == z3.unknown:
        for tac in (z3.Then('simplify', 'solve-eqs', 'smt'), z3.Then('simplify', 'purify-arith', 'nlsat')):
            try:
                s2 = tac.solver()
                s2.set('timeout', timeout)
                s2.add(*assertions); s2.add(*facts)
                r2 = s2.check()
                if r2 == z3.unsat:
                    r, s = r2, s2
                    break
            except z3.Z3Exception:
                pass
    if r == z3.unknown and use_cvc5:
        r5 = _cvc5(s, timeout)
        if r5 == 'unsat':
            r, by = z3.unsat, 'cvc5'
    if r == z3.sat:
        model = s.model()
    if SLOW is not None and time.time() - t0 > SLOW:
        print('SLOW %.1fs %s %s' % (time.time() - t0, r, by), str(assertions[-1])[:300].replace('\n', ' '), len(assertions), len(facts))
    STATS.queries += 1
    STATS.time += time.time() - t0
    STATS.by[by] = STATS.by.get(by, 0) + 1
    st = str(r)
    if st == 'unknown':
        STATS.unknown += 1
    res = (st, model, by)
    _cache[key] = res + (tuple(assertions),)   # keep refs alive so ids stay unique
    return res


def _cvc5(solver, timeout):
    try:
        txt = '(set-logic ALL)\n' + solver.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--nl-ext-tplanes', f.name], capture_output=True, text=True,
                               timeout=timeout / 1000 + 5)
            return p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
        finally:
            os.unlink(f.name)
    except Exception:
        return 'unknown'


def prove(pc, goal, timeout=8000):
    """is goal a consequence of pc? -> Result"""
    if isinstance(goal, bool):
        if goal:
            return Result(True, 'trivial')
        goal = z3.BoolVal(False)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return Result(True, 'trivial', by='simplify')
    st, model, by = check_sat(list(pc) + [z3.Not(goal)], timeout=timeout)
    return Result(st == 'unsat', st, model, by)
