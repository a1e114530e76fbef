"""Terms with bound variables (sums, transforms of a signal) as first-order applications: the body is abstracted over its
free constants, so equal skeletons give the same function symbol and substitution of free constants commutes."""
import z3
from . import smt

TABLE = {}       # decl name -> Atom
_by_key = {}
_ph = {}


class Atom:
    def __init__(self, op, nvars, bodies, params, decl, bvars):
        self.op, self.nvars, self.bodies, self.params, self.decl, self.bvars = op, nvars, bodies, params, decl, bvars


def ph(i, sort):
    k = (i, sort.name())
    if k not in _ph:
        _ph[k] = z3.Const('$p%d_%s' % k, sort)
    return _ph[k]


def bound(i):
    return ph('b%d' % i, smt.Int) if False else z3.Int('$b%d' % i)


def free_consts(exprs):
    """free uninterpreted constants in order of first occurrence"""
    out, seen = [], set()
    stack = list(reversed(exprs))
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if not z3.is_app(e):
            continue
        if e.num_args() == 0:
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(e)
            continue
        stack.extend(reversed(e.children()))
    return out


def atom(op, vars_, bodies, extra, sort):
    """op over bound vars_ of the bodies, applied to extra arguments (bounds, output index, ...)"""
    depth = 1 + max([nesting(b) for b in bodies] + [0])
    bvs = [z3.Int('$b%d_%d' % (depth, i)) for i in range(len(vars_))]
    bs = [z3.simplify(z3.substitute(z3.simplify(b), *zip(vars_, bvs))) if vars_ else z3.simplify(b) for b in bodies]
    bids = {b.get_id() for b in bvs}
    fr = [c for c in free_consts(bs) if c.get_id() not in bids and not c.decl().name().startswith('$b')]
    phs = [ph(i, c.sort()) for i, c in enumerate(fr)]
    sk = [z3.substitute(b, *zip(fr, phs)) if fr else b for b in bs]
    key = (op, depth, tuple(s.get_id() for s in sk), len(extra), tuple(p.sort().name() for p in phs))
    a = _by_key.get(key)
    if a is None:
        name = '%s#%d' % (op, len(_by_key))
        d = z3.Function(name, *([x.sort() for x in extra] + [c.sort() for c in fr] + [sort])) if extra or fr else None
        a = Atom(op, len(vars_), sk, phs, d, bvs)
        a.name = name
        a.sort = sort
        a.nextra = len(extra)
        _by_key[key] = a
        TABLE[name] = a
    if a.decl is None:
        return z3.Const(a.name, sort)
    return a.decl(*(list(extra) + fr))


def nesting(e, cache={}):
    i = e.get_id()
    if i in cache:
        return cache[i][0]
    n = 0
    if z3.is_app(e):
        for c in e.children():
            n = max(n, nesting(c))
        nm = e.decl().name()
        if nm in TABLE:
            a = TABLE[nm]
            n = max([n, 1] + [1 + nesting(b) for b in a.bodies])
    cache[i] = (n, e)
    return n


def is_atom(e):
    return z3.is_app(e) and e.decl().name() in TABLE


def parts(e):
    """-> (Atom, extra args, instantiated bodies, bound vars)"""
    a = TABLE[e.decl().name()]
    ch = e.children()
    extra, fr = ch[:a.nextra], ch[a.nextra:]
    bs = [z3.substitute(b, *zip(a.params, fr)) if fr else b for b in a.bodies]
    return a, extra, bs, a.bvars


def fresh_parts(e):
    """-> (fresh bound vars, bodies over them, extra args)"""
    a, extra, bs, bvs = parts(e)
    vs = [z3.FreshConst(smt.Int, 'v') for _ in bvs]
    return vs, [z3.substitute(b, *zip(bvs, vs)) if vs else b for b in bs], extra
