"""Symbolic execution of the real Python source (AST) with path exploration, loop summaries and contracts."""
import ast, os, math, itertools
import z3
from fractions import Fraction
from . import smt, ring
from .values import *
from .smt import pow2, rpow2, prove

REPO = os.environ.get('VERIF_REPO', '/repo')
_src_cache = {}


def parse_file(path):
    if path not in _src_cache:
        with open(path) as f:
            src = f.read()
        _src_cache[path] = ast.parse(src, path)
    return _src_cache[path]


from .loops_sig import NeedPeel


class Explorer:
    __slots__ = ('prefix', 'decs', 'guards', 'pos')

    def __init__(self, prefix):
        self.prefix, self.decs, self.guards, self.pos = prefix, [], [], 0


class Obligation:
    def __init__(self, name, ok, status, where, detail='', model=None, by='z3'):
        self.name, self.ok, self.status, self.where, self.detail, self.model, self.by = \
            name, ok, status, where, detail, model, by


class PathResult:
    def __init__(self, guards, kind, value, extra=None):
        self.guards, self.kind, self.value, self.extra = guards, kind, value, extra


class BUILTIN_EXC:
    pass


_it_cache = {}
_q_cache = {}
_trig = {}


def int_terms(top):
    """integer constants of a term, and the integer arguments of its uninterpreted functions by position"""
    o, pos, seen, stack = {}, {}, set(), [top]
    while stack:
        e = stack.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.num_args() == 0:
            if e.sort_kind() == z3.Z3_INT_SORT and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                o[e.get_id()] = e
            continue
        ch = e.children()
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
            for i, a in enumerate(ch):
                if z3.is_int(a):
                    pos.setdefault((n, i), {})[a.get_id()] = a
        stack.extend(ch)
    return o, pos


def q_terms(q, which, terms, pos):
    """terms worth instantiating a bounded fact at: those at the argument positions its variable occupies"""
    k = (q[3].get_id(), which, (q[0] if which == 0 else q[4][0].var).get_id())
    tr = _trig.get(k)
    if tr is None:
        v = q[0] if which == 0 else q[4][0].var
        _, ps = int_terms(q[3])
        tr = _trig[k] = ([p for p, d in ps.items() if v.get_id() in d], q)
    if not tr[0]:
        return terms
    out = {}
    for p in tr[0]:
        out.update(pos.get(p, {}))
    return list(out.values())


def qinst(q, t, t2):
    """instance of a bounded universal fact at t (and t2)"""
    v, lo, hi, fact = q[:4]
    k = (v.get_id(), lo.get_id(), hi.get_id(), fact.get_id(), t.get_id(), t2.get_id() if t2 is not None else -1,
         id(q[4]) if len(q) > 4 else 0)
    r = _q_cache.get(k)
    if r is not None:
        return r[0]
    if t.get_id() == v.get_id() and len(q) == 4:
        # inside the loop over v itself the fact holds as it stands
        f = z3.Implies(z3.And(lo <= v, v < hi), fact)
    elif len(q) == 4:
        f = z3.Implies(z3.And(lo <= t, t < hi), z3.substitute(fact, (v, t)))
    elif t2 is not None:
        f2 = q[4][0]
        pr = [(v, t), (f2.var, t2)]
        f = z3.Implies(z3.And(lo <= t, t < hi, z3.substitute(f2.lo, *pr) <= t2, t2 < z3.substitute(f2.hi, *pr)),
                       z3.substitute(fact, *pr))
    else:
        f = z3.BoolVal(True)
    _q_cache[k] = (f, q, t, t2)
    return f



def prod_factors(e):
    out = []
    for c in (e.children() if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL else [e]):
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL:
            out += prod_factors(c)
        else:
            out.append(c)
    return out


def cancel_factors(fa, fb):
    fa = list(fa)
    num = 1
    rest = []
    for f in fa:
        if z3.is_int_value(f):
            num *= f.as_long()
        else:
            rest.append(f)
    for f in fb:
        if z3.is_int_value(f):
            n = f.as_long()
            if n == 0 or num % n:
                return None
            num //= n
            continue
        for i, g in enumerate(rest):
            if g.get_id() == f.get_id():
                del rest[i]
                break
        else:
            return None
    return ([smt.iv(num)] if num != 1 else []) + rest


class Interp:
    MAXDEPTH = 60

    def __init__(self, natives=None):
        self.modules = {}
        self.natives = dict(natives or {})   # name -> NatModule
        self.contracts = {}                  # qualified function name -> fn(interp, func, args, kwargs)
        self.pc = []
        self.qfacts = []                     # (var, lo, hi, fact)
        self.trail = []
        self.explorers = []
        self.obligations = []
        self.binders = []
        self.fresh_n = 0
        self.stack = []
        self.functions = {}                  # functions executed under contract: qual -> count
        self.loops = 0
        self.paths = 0
        self.raised = []
        self.dict_templates = []             # hints: fn(interp, vdict, key_term) -> value term
        self.notes = []
        self.warns = []
        self.frame_watch = None
        self.timeout = 8000
        self._builtins()

    # ------------------------------------------------------------ naming
    def fresh(self, name, sort=None):
        self.fresh_n += 1
        sort = sort if sort is not None else smt.Int
        bs = [b for b in self.binders]
        nm = '%s!%d' % (name, self.fresh_n)
        if bs:
            return z3.Function(nm, *([b.sort() for b in bs] + [sort]))(*bs)
        return z3.Const(nm, sort)

    def freshvar(self, name):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (name, self.fresh_n), smt.Int)

    # ------------------------------------------------------------ heap undo
    def touch(self, obj):
        """call before mutating obj"""
        if getattr(obj, 'derived', False):
            raise Unsupported('write to an element of a symbolic sequence')
        if self.frame_watch is not None:
            self.frame_watch(self, obj)
        if self.trail:
            top = self.trail[-1]
            if obj.birth <= top['mark'] and id(obj) not in top['saved']:
                top['saved'][id(obj)] = (obj, obj.snapshot())

    def begin(self):
        self.trail.append({'mark': next_birth(), 'saved': {}, 'pc': len(self.pc), 'q': len(self.qfacts)})

    def rollback(self):
        """undo; -> list of (obj, before, after)"""
        fr = self.trail.pop()
        changes = []
        for obj, snap in fr['saved'].values():
            changes.append((obj, snap, obj.snapshot()))
        for obj, snap, after in changes:
            obj.restore(snap)
        del self.pc[fr['pc']:]
        del self.qfacts[fr['q']:]
        return changes

    # ------------------------------------------------------------ exploration
    def explore(self, thunk):
        """run thunk on every feasible path; -> [PathResult]; all heap effects are undone"""
        prefix, results = [], []
        fresh0 = fmax = self.fresh_n
        while True:
            self.fresh_n = fresh0
            exr = Explorer(prefix)
            self.explorers.append(exr)
            self.begin()
            depth = len(self.stack)
            nb = len(self.binders)
            kind_, val = 'ok', None
            dead = False
            try:
                val = thunk()
            except PyReturn as r:
                kind_, val = 'return', r.v
            except PyBreak:
                kind_ = 'break'
            except PyContinue:
                kind_ = 'continue'
            except PyRaise as r:
                kind_, val = 'raise', r
            except DeadPath:
                dead = True
            except NeedPeel:
                del self.stack[depth:]
                del self.binders[nb:]
                self.rollback()
                self.explorers.pop()
                raise
            del self.stack[depth:]
            del self.binders[nb:]
            fmax = max(fmax, self.fresh_n)
            self.fresh_n = fmax
            pcs = list(self.pc)
            qfs = list(self.qfacts)
            changes = self.rollback()
            self.explorers.pop()
            if not dead:
                self.paths += 1
                r = PathResult(list(exr.guards), kind_, val, changes)
                r.pc = pcs
                r.qfacts = qfs
                results.append(r)
            decs = exr.decs
            while decs and decs[-1][0] + 1 >= decs[-1][1]:
                decs.pop()
            if not decs:
                return results
            prefix = [d for d in decs]
            prefix[-1] = (prefix[-1][0] + 1, prefix[-1][1])
            if len(results) > 600:
                raise Unsupported('too many paths')

    def choose(self, n):
        """nondeterministic choice among n alternatives"""
        if n == 1:
            return 0
        exr = self.explorers[-1]
        if exr.pos < len(exr.prefix):
            c = exr.prefix[exr.pos]
        else:
            c = (0, n)
        exr.pos += 1
        exr.decs.append(c)
        return c[0]

    def assume(self, fact):
        if isinstance(fact, bool):
            fact = z3.BoolVal(fact)
        self.pc.append(fact)

    def context(self, goal=None):
        out = list(self.pc)
        if self.qfacts:
            terms, pos = self._int_terms(out + ([goal] if goal is not None else []))
            terms = list(terms.values())
            for q in self.qfacts:
                for t in q_terms(q, 0, terms, pos):
                    if len(q) > 4 and len(q[4]) == 1:
                        for t2 in q_terms(q, 1, terms, pos):
                            out.append(qinst(q, t, t2))
                    else:
                        out.append(qinst(q, t, None))
        return out

    def _int_terms(self, exprs):
        out, pos = {}, {}
        for top in exprs:
            i0 = top.get_id()
            c = _it_cache.get(i0)
            if c is None:
                c = _it_cache[i0] = (top,) + int_terms(top)
            out.update(c[1])
            for k, d in c[2].items():
                pos.setdefault(k, {}).update(d)
        return out, pos

    def entails(self, goal, timeout=None):
        if isinstance(goal, bool):
            return goal
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            # still entailed if context inconsistent; treated as not entailed
            return False
        return prove(self.context(goal), goal, timeout or self.timeout).ok

    def feasible(self, extra=None):
        a = self.context(extra) + ([extra] if extra is not None else [])
        return smt.check_sat(a, timeout=4000, use_cvc5=False)[0] != 'unsat'

    def decide(self, cond):
        """truth of a boolean term on this path, branching if both are possible"""
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, Sym):
            cond = cond.e
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        # replayed decision?
        exr = self.explorers[-1]
        ctx = self.context(c)
        t = smt.check_sat(ctx + [c], timeout=4000, use_cvc5=False)[0] != 'unsat'
        if not t:
            f = smt.check_sat(ctx + [z3.Not(c)], timeout=4000, use_cvc5=False)[0] != 'unsat'
            if not f:
                raise DeadPath()
            return False
        f = smt.check_sat(ctx + [z3.Not(c)], timeout=4000, use_cvc5=False)[0] != 'unsat'
        if not f:
            return True
        k = self.choose(2)
        if k == 0:
            self.pc.append(c)
            exr.guards.append(c)
            return True
        n = z3.simplify(z3.Not(c))
        self.pc.append(n)
        exr.guards.append(n)
        return False

    def oblige(self, name, goal, detail=''):
        """record a proof obligation; afterwards its truth is assumed"""
        if isinstance(goal, Sym):
            goal = goal.e
        where = self.where()
        if isinstance(goal, bool):
            if goal:
                self.obligations.append(Obligation(name, True, 'trivial', where, detail, by='evaluation'))
            else:
                st, model, by = smt.check_sat(self.context(), timeout=self.timeout)
                self.obligations.append(Obligation(name, st == 'unsat', 'false' if st != 'unsat' else 'deadpath',
                                                   where, detail, model))
            return goal
        r = prove(self.context(goal), goal, max(self.timeout, 15000))
        self.obligations.append(Obligation(name, r.ok, r.status, where, detail or str(goal)[:400], r.model, r.by))
        self.pc.append(goal)
        return r.ok

    def where(self):
        if not self.stack:
            return ''
        f, node = self.stack[-1]
        return '%s:%s' % (f, getattr(node, 'lineno', '?'))

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.natives:
            return self.natives[name]
        if name.split('.')[0] == 'kymatio':
            p = os.path.join(REPO, *name.split('.'))
            if os.path.isdir(p):
                path, pkg = os.path.join(p, '__init__.py'), True
            else:
                path, pkg = p + '.py', False
            if not os.path.exists(path):
                raise self.exc('ModuleNotFoundError', 'No module named %s' % name)
            m = VModule(name, path)
            m.pkg = pkg
            m.attrs['__name__'] = name
            self.modules[name] = m
            if name == 'kymatio':      # the top-level package only re-exports
                return m
            tree = parse_file(path)
            self.stack.append((name, tree))
            try:
                self.exec_block(tree.body, m.scope)
            finally:
                self.stack.pop()
            return m
        nm = self.natives.get(name.split('.')[0])
        if nm is not None:
            cur = nm
            for part in name.split('.')[1:]:
                if isinstance(cur, NatModule) and part in cur.attrs:
                    cur = cur.attrs[part]
                else:
                    cur = NatModule(name)
                    break
            return cur
        m = NatModule(name)
        self.natives[name] = m
        return m

    def resolve_from(self, module, level, name):
        if level == 0:
            return name
        parts = module.name.split('.')
        if not getattr(module, 'pkg', False):
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts + ([name] if name else []))

    def import_from(self, modname, attr):
        m = self.load(modname)
        if isinstance(m, VModule):
            if attr in m.attrs:
                return m.attrs[attr]
            try:
                return self.load(modname + '.' + attr)
            except PyRaise:
                raise self.exc('ImportError', 'cannot import name %s from %s' % (attr, modname))
        if attr in m.attrs:
            return m.attrs[attr]
        return self.nat_attr(m, attr)

    def nat_attr(self, m, attr):
        full = m.name + '.' + attr
        if full in self.natives:
            return self.natives[full]
        return Opaque(full)

    def get(self, modname, qual):
        """function / class / method object of the repository by name"""
        m = self.load(modname)
        cur = None
        for i, part in enumerate(qual.split('.')):
            if i == 0:
                if part not in m.attrs:
                    raise Unsupported('%s has no %s' % (modname, part))
                cur = m.attrs[part]
            else:
                cur = cur.lookup(part)
                if cur is None:
                    raise Unsupported('%s.%s not found' % (modname, qual))
        return cur

    # ------------------------------------------------------------ exceptions
    def _builtins(self):
        self.exc_classes = {}
        def mkexc(name, base=None):
            c = VClass(name, [self.exc_classes[base]] if base else [self.object_cls])
            self.exc_classes[name] = c
        self.object_cls = VClass('object')
        self.object_cls.ns['__init__'] = Native('object.__init__', lambda I, a, k: None)
        mkexc('BaseException')
        mkexc('Exception', 'BaseException')
        for n, b in [('ValueError', 'Exception'), ('TypeError', 'Exception'), ('RuntimeError', 'Exception'),
                     ('NotImplementedError', 'RuntimeError'), ('LookupError', 'Exception'), ('KeyError', 'LookupError'),
                     ('IndexError', 'LookupError'), ('AttributeError', 'Exception'), ('NameError', 'Exception'),
                     ('UnboundLocalError', 'NameError'), ('ImportError', 'Exception'),
                     ('ModuleNotFoundError', 'ImportError'), ('AssertionError', 'Exception'),
                     ('ZeroDivisionError', 'Exception'), ('StopIteration', 'Exception'), ('OSError', 'Exception'),
                     ('FileExistsError', 'OSError'), ('FileNotFoundError', 'OSError'), ('OverflowError', 'Exception'),
                     ('Warning', 'Exception'),
                     ('DeprecationWarning', 'Warning'), ('UserWarning', 'Warning'), ('RuntimeWarning', 'Warning'),
                     ('FutureWarning', 'Warning'),
                     ]:
            mkexc(n, b)
        from .builtins_model import install
        self.builtins = {}
        install(self)

    def exc(self, name, msg=''):
        o = VObj(self.exc_classes[name])
        o.attrs['args'] = (msg,)
        return PyRaise(o, self.where())

    # ------------------------------------------------------------ calling
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, Native):
            return f.fn(self, args, kwargs)
        if isinstance(f, VFunc):
            c = self.contracts.get(f.module.name + ':' + f.qual)
            if c is not None:
                r = c(self, f, args, kwargs)
                if r is not NotImplemented:
                    return r
            return self.call_body(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + args, kwargs)
        if isinstance(f, VClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, VStatic):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, VObj):
            m = f.cls.lookup('__call__')
            if m is not None:
                return self.call(m, [f] + args, kwargs)
        if hasattr(f, 'vcall'):
            return f.vcall(self, args, kwargs)
        if isinstance(f, Opaque):
            raise Unsupported('call of external %s' % f.name)
        if isinstance(f, Poison):
            raise Unsupported('call of undetermined value: %s' % f.why)
        if f is None or is_scalar(f) or isinstance(f, (str, tuple, VList, VDict)):
            raise self.exc('TypeError', 'object is not callable: %r' % (f,))
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, cls, args, kwargs):
        for c in cls.mro():
            if c.native is not None and hasattr(c.native, 'new'):
                r = c.native.new(self, cls, args, kwargs)
                if r is not NotImplemented:
                    return r
                break
        o = VObj(cls)
        if any(c is self.exc_classes['BaseException'] for c in cls.mro()):
            o.attrs['args'] = tuple(args)
            return o
        init = cls.lookup('__init__')
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        return o

    def bind(self, f, args, kwargs, sc):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        vals = {}
        if len(args) > len(pos):
            if a.vararg is None:
                raise self.exc('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, len(pos), len(args)))
            vals[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            vals[n] = v
        for n in list(kwargs):
            if n in pos or n in [x.arg for x in a.kwonlyargs]:
                if n in vals:
                    raise self.exc('TypeError', '%s() got multiple values for argument %s' % (f.name, n))
                vals[n] = kwargs.pop(n)
        if kwargs:
            if a.kwarg is None:
                raise self.exc('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, sorted(kwargs)[0]))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = VDict(kwargs)
        for n, d in zip(pos[len(pos) - len(f.defaults):], f.defaults):
            if n not in vals:
                vals[n] = d
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in vals and d is not NODEF:
                vals[x.arg] = d
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                raise self.exc('TypeError', '%s() missing required argument %s' % (f.name, n))
        sc.vars.update(vals)

    def call_body(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported('call depth (recursion?) in ' + f.qual)
        sc = Scope(parent=f.scope, func=f, module=f.module)
        sc.cls = f.owner
        node = f.node
        self.bind(f, args, kwargs, sc)
        sc.locals_ = local_names(node)
        key = f.module.name + ':' + f.qual
        self.functions[key] = self.functions.get(key, 0) + 1
        if f.isgen is None:
            f.isgen = not isinstance(node, ast.Lambda) and has_yield(node)
        self.stack.append((f.qual, node))
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, sc)
            if f.isgen:
                sc.ycollect = VList()
                try:
                    self.exec_block(node.body, sc)
                except PyReturn:
                    pass
                return VGen(sc.ycollect)
            try:
                self.exec_block(node.body, sc)
            except PyReturn as r:
                return r.v
            return None
        finally:
            self.stack.pop()

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, sc):
        for s in stmts:
            self.exec(s, sc)

    def exec(self, s, sc):
        if self.stack:
            self.stack[-1] = (self.stack[-1][0], s)
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %s' % (type(s).__name__, s.lineno))
        return m(s, sc)

    def x_Expr(self, s, sc):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, sc)

    def x_Pass(self, s, sc):
        pass

    def x_Return(self, s, sc):
        raise PyReturn(self.eval(s.value, sc) if s.value is not None else None)

    def x_Break(self, s, sc):
        raise PyBreak()

    def x_Continue(self, s, sc):
        raise PyContinue()

    def x_Global(self, s, sc):
        sc.globals_ |= set(s.names)

    def x_Nonlocal(self, s, sc):
        sc.nonlocals_ |= set(s.names)

    def x_Assign(self, s, sc):
        v = self.eval(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def x_AnnAssign(self, s, sc):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, sc), sc)

    def x_AugAssign(self, s, sc):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup_name(t.id, sc)
            v = self.eval(s.value, sc)
            self.setname(t.id, self.inplace(op, cur, v), sc)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc)
            cur = self.getattr(o, t.attr)
            v = self.eval(s.value, sc)
            self.setattr(o, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            i = self.eval_index(t.slice, sc)
            cur = self.getitem(o, i)
            v = self.eval(s.value, sc)
            self.setitem(o, i, self.inplace(op, cur, v))
        else:
            raise Unsupported('augassign target')

    def inplace(self, op, cur, v):
        if isinstance(cur, VList) and op == 'Add':
            self.list_extend(cur, v)
            return cur
        if isinstance(cur, VList) and op == 'Mult':
            self.touch(cur)
            cur.items = self.binop('Mult', VList(cur.items), v).items
            return cur
        if hasattr(cur, 'inplace_'):
            r = cur.inplace_(self, op, v)
            if r is not NotImplemented:
                return r
        return self.binop(op, cur, v)

    def x_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in sc.vars:
                    raise self.exc('NameError', t.id)
                self.touch(sc)
                del sc.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, sc)
                self.delitem(o, self.eval_index(t.slice, sc))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, sc)
                if isinstance(o, VObj) and t.attr in o.attrs:
                    self.touch(o)
                    del o.attrs[t.attr]
                else:
                    raise self.exc('AttributeError', t.attr)
            else:
                raise Unsupported('del')

    def x_If(self, s, sc):
        if self.truth(self.eval(s.test, sc)):
            self.exec_block(s.body, sc)
        else:
            self.exec_block(s.orelse, sc)

    def x_Assert(self, s, sc):
        if not self.truth(self.eval(s.test, sc)):
            raise self.exc('AssertionError', self.eval(s.msg, sc) if s.msg else '')

    def x_Raise(self, s, sc):
        if s.exc is None:
            cur = getattr(self, 'cur_exc', None)
            if cur is None:
                raise self.exc('RuntimeError', 'No active exception to reraise')
            raise cur
        e = self.eval(s.exc, sc)
        if s.cause is not None:
            self.eval(s.cause, sc)
        if isinstance(e, VClass):
            e = self.instantiate(e, [], {})
        if not isinstance(e, VObj):
            raise Unsupported('raise of %r' % (e,))
        raise PyRaise(e, self.where())

    def x_Try(self, s, sc):
        try:
            try:
                self.exec_block(s.body, sc)
            except PyRaise as r:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, sc)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(isinstance(c, VClass) and r.exc.cls.issub(c) for c in ts)
                    if ok:
                        if h.name:
                            self.setname(h.name, r.exc, sc)
                        old = getattr(self, 'cur_exc', None)
                        self.cur_exc = r
                        try:
                            self.exec_block(h.body, sc)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, sc)
        finally:
            import sys
            et = sys.exc_info()[0]
            if et is None or issubclass(et, (PyRaise, PyReturn, PyBreak, PyContinue)):
                if s.finalbody:
                    self.exec_block(s.finalbody, sc)

    def x_With(self, s, sc):
        mgrs = []
        for it in s.items:
            m = self.eval(it.context_expr, sc)
            ent = self.getattr(m, '__enter__')
            v = self.call(ent, [])
            mgrs.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, sc)
        try:
            self.exec_block(s.body, sc)
        finally:
            import sys
            et = sys.exc_info()[0]
            if et is None or issubclass(et, (PyRaise, PyReturn, PyBreak, PyContinue)):
                for m in reversed(mgrs):
                    self.call(self.getattr(m, '__exit__'), [None, None, None])

    def x_Import(self, s, sc):
        for a in s.names:
            m = self.load(a.name)
            if a.asname:
                self.setname(a.asname, m, sc)
            else:
                self.setname(a.name.split('.')[0], self.load(a.name.split('.')[0]), sc)

    def x_ImportFrom(self, s, sc):
        mod = self.resolve_from(sc.module, s.level, s.module)
        for a in s.names:
            if a.name == '*':
                raise Unsupported('import *')
            self.setname(a.asname or a.name, self.import_from(mod, a.name), sc)

    def x_FunctionDef(self, s, sc):
        f = self.mkfunc(s, sc, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, sc), [f])
        self.setname(s.name, f, sc)

    def mkfunc(self, node, sc, name):
        a = node.args
        defaults = [self.eval(d, sc) for d in a.defaults]
        kwd = [self.eval(d, sc) if d is not None else NODEF for d in a.kw_defaults]
        f = VFunc(node, sc, sc.module, name, defaults, kwd)
        if sc.cls is not None and sc.func is None:
            f.owner = sc.cls
            f.qual = sc.cls.name + '.' + name
        elif sc.func is not None:
            f.qual = sc.func.qual + '.' + name
            f.owner = sc.cls
        return f

    def x_ClassDef(self, s, sc):
        bases = [self.eval(b, sc) for b in s.bases]
        for b in bases:
            if not isinstance(b, VClass):
                raise Unsupported('base class %r of %s' % (b, s.name))
        c = VClass(s.name, bases or [self.object_cls], module=sc.module)
        cs = Scope(parent=sc, module=sc.module)
        cs.cls = c
        cs.is_class = True
        self.exec_block(s.body, cs)
        c.ns = cs.vars
        for d in reversed(s.decorator_list):
            c = self.call(self.eval(d, sc), [c])
        self.setname(s.name, c, sc)

    # ------------------------------------------------------------ loops
    def x_For(self, s, sc):
        it = self.eval(s.iter, sc)

        def body(v):
            self.assign(s.target, v, sc)
            self.exec_block(s.body, sc)
        broke = self.loop(self.domain(it), body, s)
        if not broke and s.orelse:
            self.exec_block(s.orelse, sc)

    def x_While(self, s, sc):
        n = 0
        while True:
            t = self.eval(s.test, sc)
            t = self.truth_term(t)
            if not isinstance(t, bool):
                te = z3.simplify(t)
                if self.entails(te):
                    t = True
                elif self.entails(z3.Not(te)):
                    t = False
                else:
                    return self.symbolic_while(s, sc)
            if not t:
                break
            n += 1
            if n > 200:
                raise Unsupported('while loop does not terminate symbolically')
            try:
                self.exec_block(s.body, sc)
            except PyBreak:
                return
            except PyContinue:
                continue
        if s.orelse:
            self.exec_block(s.orelse, sc)

    def symbolic_while(self, s, sc):
        from .loops import symbolic_while
        return symbolic_while(self, s, sc)

    def loop(self, segs, body, node=None):
        """execute body for every element of the segment list; True if a break ended the loop"""
        from .loops import run_loop
        return run_loop(self, segs, body, node)

    def domain(self, v):
        """segments of an iterable"""
        if isinstance(v, VList):
            return list(v.items)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, VGen):
            items = v.lst.items[v.pos:]
            self.touch(v)
            v.pos = len(v.lst.items)
            return list(items)
        if isinstance(v, VRange):
            return self.range_domain(v)
        if isinstance(v, SymSeq):
            i = self.freshvar('i_' + v.name)
            return [For(i, smt.iv(0), v.length, [v.at(i)])]
        if isinstance(v, VDict):
            if not v.segs:
                return list(v.items.keys())
            raise Unsupported('iteration over a dict with symbolic keys')
        if isinstance(v, str):
            return list(v)
        if hasattr(v, 'domain_'):
            return v.domain_(self)
        if isinstance(v, VObj):
            m = v.cls.lookup('__iter__')
            if m is not None:
                return self.domain(self.call(m, [v]))
            if v.cls.lookup('__getitem__') is None:
                raise self.exc('TypeError', 'object is not iterable')
        if v is None or is_scalar(v):
            raise self.exc('TypeError', 'object is not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def range_domain(self, r):
        lo, hi, st = r.lo, r.hi, r.step
        if all(isinstance(x, int) for x in (lo, hi, st)):
            if abs(hi - lo) <= 4096:
                return list(range(lo, hi, st))
        if not isinstance(st, int):
            if not self.entails(ex(st) >= 1):
                if self.decide(ex(st) == 0):
                    raise self.exc('ValueError', 'range() arg 3 must not be zero')
                if not self.decide(ex(st) > 0):
                    raise Unsupported('range with negative symbolic step')
            t = self.freshvar('t')
            n = self.fdiv(mk(ex(hi) - ex(lo) + ex(st) - 1, 'int'), st)
            return [For(t, smt.iv(0), ex(n), [mk(ex(lo) + ex(st) * t, 'int')])]
        if st == 1:
            d = z3.simplify(ex(hi) - ex(lo))
            if z3.is_int_value(d) and d.as_long() <= 64:
                return [mk(ex(lo) + k, 'int') for k in range(d.as_long())]
            i = self.freshvar('i')
            return [For(i, ex(lo), ex(hi), [Sym(i, 'int')])]
        if st == 0:
            raise self.exc('ValueError', 'range() arg 3 must not be zero')
        t = self.freshvar('t')
        if st > 0:
            n = z3.simplify((ex(hi) - ex(lo) + (st - 1)) / st)
        else:
            n = z3.simplify((ex(lo) - ex(hi) + (-st - 1)) / (-st))
        return [For(t, smt.iv(0), n, [mk(ex(lo) + st * t, 'int')])]

    # ------------------------------------------------------------ names
    def lookup_name(self, name, sc):
        s = sc
        if name in sc.globals_:
            if name in sc.module.attrs:
                return sc.module.attrs[name]
            raise self.exc('NameError', name)
        first = True
        while s is not None:
            if not (getattr(s, 'is_class', False) and not first):
                if name in s.vars:
                    v = s.vars[name]
                    if isinstance(v, Poison):
                        if hasattr(v, 'read_'):
                            return v.read_(self)
                        r = v.resolve(self) if hasattr(v, 'resolve') else None
                        if r is None:
                            raise Unsupported('variable %s: %s' % (name, v.why))
                        return r
                    return v
                if s is sc and s.locals_ is not None and name in s.locals_ and name not in s.nonlocals_:
                    raise self.exc('UnboundLocalError', name)
            first = False
            s = s.parent
        if name in self.builtins:
            return self.builtins[name]
        raise self.exc('NameError', "name '%s' is not defined" % name)

    def setname(self, name, v, sc):
        if name in sc.globals_:
            self.touch(sc.module.scope)
            sc.module.scope.vars[name] = v
            return
        if name in sc.nonlocals_:
            s = sc.parent
            while s is not None and name not in s.vars:
                s = s.parent
            if s is None:
                raise Unsupported('nonlocal ' + name)
            self.touch(s)
            s.vars[name] = v
            return
        self.touch(sc)
        sc.vars[name] = v

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, sc), self.eval_index(t.slice, sc), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise self.exc('ValueError', 'not enough values to unpack')
                for tt, x in zip(t.elts[:i], items[:i]):
                    self.assign(tt, x, sc)
                self.assign(t.elts[i].value, VList(items[i:len(items) - after]), sc)
                for tt, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(tt, x, sc)
                return
            if len(items) != len(t.elts):
                raise self.exc('ValueError', 'cannot unpack %d values into %d' % (len(items), len(t.elts)))
            for tt, x in zip(t.elts, items):
                self.assign(tt, x, sc)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def unpack(self, v):
        if isinstance(v, SymSeq):
            n = z3.simplify(v.length)
            if z3.is_int_value(n):
                return [v.at(smt.iv(i)) for i in range(n.as_long())]
        items = self.domain(v)
        if not is_concrete_items(items) or any(isinstance(x, (Block, Rep)) for x in items):
            raise Unsupported('unpacking a symbolic sequence')
        return items

    # ------------------------------------------------------------ expressions
    def eval(self, e, sc):
        return getattr(self, 'e_' + type(e).__name__, self._noexpr)(e, sc)

    def _noexpr(self, e, sc):
        raise Unsupported('expression %s' % type(e).__name__)

    def e_Constant(self, e, sc):
        v = e.value
        if isinstance(v, float):
            return Fraction(v)
        if isinstance(v, complex):
            return self.mkcomplex(Fraction(v.real), Fraction(v.imag))
        if v is Ellipsis:
            return Ellip
        return v

    def mkcomplex(self, re, im):
        from .etensor import CScalar
        return CScalar(re, im)

    def e_Name(self, e, sc):
        return self.lookup_name(e.id, sc)

    def e_Tuple(self, e, sc):
        return tuple(self.elts(e.elts, sc))

    def elts(self, elts, sc):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.domain(self.eval(x.value, sc)))
            else:
                out.append(self.eval(x, sc))
        return out

    def e_List(self, e, sc):
        return VList(self.elts(e.elts, sc))

    def e_Set(self, e, sc):
        return VList(self.elts(e.elts, sc))

    def e_Dict(self, e, sc):
        d = VDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, sc)
                if not isinstance(o, VDict):
                    raise Unsupported('** of %r' % (o,))
                d.items.update(o.items)
                d.segs += o.segs
            else:
                kk = self.eval(k, sc)
                self.setitem(d, kk, self.eval(v, sc))
        return d

    def e_BoolOp(self, e, sc):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, sc)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_UnaryOp(self, e, sc):
        v = self.eval(e.operand, sc)
        op = type(e.op).__name__
        if op == 'Not':
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else mk(z3.Not(t), 'bool')
        return self.unop(op, v)

    def unop(self, op, v):
        if hasattr(v, 'unop_'):
            return v.unop_(self, op)
        if is_scalar(v):
            if op == 'USub':
                if not isinstance(v, Sym):
                    return -v
                return mk(-ints(v), 'int' if v.k in ('int', 'bool') else 'float')
            if op == 'UAdd':
                return v
            if op == 'Invert' and isinstance(v, bool):
                return ~v
            if op == 'Invert' and kind(v) == 'int':
                return mk(-ints(v) - 1, 'int')
        raise Unsupported('unary %s on %r' % (op, v))

    def e_BinOp(self, e, sc):
        a = self.eval(e.left, sc)
        b = self.eval(e.right, sc)
        return self.binop(type(e.op).__name__, a, b)

    def e_IfExp(self, e, sc):
        return self.eval(e.body if self.truth(self.eval(e.test, sc)) else e.orelse, sc)

    def e_Lambda(self, e, sc):
        f = self.mkfunc(e, sc, '<lambda>')
        return f

    def e_NamedExpr(self, e, sc):
        v = self.eval(e.value, sc)
        self.assign(e.target, v, sc)
        return v

    def e_JoinedStr(self, e, sc):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.eval(v.value, sc)
                from .builtins_model import render
                out.append(render(self, x))
        from .builtins_model import mkcat
        return mkcat(out)

    def tostr(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, bool) or x is None or isinstance(x, int):
            return str(x)
        if isinstance(x, Fraction):
            return str(float(x))
        return '<%s>' % (x,)

    def e_Compare(self, e, sc):
        left = self.eval(e.left, sc)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, sc)
            c = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return c
            res = c
            left = right
        return res

    def e_Call(self, e, sc):
        f = self.eval(e.func, sc)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, sc)
                if isinstance(v, (VList, tuple, VGen)):
                    its = self.domain(v)
                    args.extend(its if is_concrete_items(its) else [StarSeg(its)])
                else:
                    args.extend(self.unpack(v))
            else:
                args.append(self.eval(a, sc))
        for k in e.keywords:
            v = self.eval(k.value, sc)
            if k.arg is None:
                if not isinstance(v, VDict) or v.segs:
                    raise Unsupported('** argument')
                for kk, vv in v.items.items():
                    if kk in kwargs:
                        raise self.exc('TypeError', 'multiple values for keyword %s' % kk)
                    kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    raise self.exc('TypeError', 'multiple values for keyword %s' % k.arg)
                kwargs[k.arg] = v
        if isinstance(f, Native) and f.name == 'super' and not args:
            s = sc
            while s is not None and s.func is None:
                s = s.parent
            first = s.func.node.args.args[0].arg
            return VSuper(sc.cls, s.vars[first])
        if isinstance(f, Native) and f.name == 'locals':
            return VDict(sc.vars)
        if self.stack:
            self.stack[-1] = (self.stack[-1][0], e)
        if any(isinstance(a, StarSeg) for a in args) and not (isinstance(f, Native) and f.name in ('zip',)):
            raise Unsupported('*args of symbolic length')
        return self.call(f, args, kwargs)

    def e_Starred(self, e, sc):
        raise Unsupported('starred')

    def e_Attribute(self, e, sc):
        return self.getattr(self.eval(e.value, sc), e.attr)

    def e_Subscript(self, e, sc):
        return self.getitem(self.eval(e.value, sc), self.eval_index(e.slice, sc))

    def eval_index(self, s, sc):
        return self.eval(s, sc)

    def e_Slice(self, e, sc):
        return VSlice(*[self.eval(x, sc) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_Yield(self, e, sc):
        s = sc
        while s.ycollect is None:
            s = s.parent
        self.list_append(s.ycollect, self.eval(e.value, sc) if e.value is not None else None)
        return None

    def e_YieldFrom(self, e, sc):
        s = sc
        while s.ycollect is None:
            s = s.parent
        self.list_extend(s.ycollect, self.eval(e.value, sc))
        return None

    def comp(self, e, sc, emit):
        inner = Scope(parent=sc, func=sc.func, module=sc.module)
        inner.cls = sc.cls

        def rec(k):
            if k == len(e.generators):
                emit(inner)
                return
            g = e.generators[k]
            it = self.eval(g.iter, sc if k == 0 else inner)

            def body(v):
                self.assign(g.target, v, inner)
                for c in g.ifs:
                    if not self.truth(self.eval(c, inner)):
                        return
                rec(k + 1)
            self.loop(self.domain(it), body, e)
        rec(0)

    def e_ListComp(self, e, sc):
        out = VList()
        self.comp(e, sc, lambda s: self.list_append(out, self.eval(e.elt, s)))
        return out

    e_SetComp = e_ListComp

    def e_GeneratorExp(self, e, sc):
        out = VList()
        self.comp(e, sc, lambda s: self.list_append(out, self.eval(e.elt, s)))
        return VGen(out)

    def e_DictComp(self, e, sc):
        out = VDict()
        self.comp(e, sc, lambda s: self.setitem(out, self.eval(e.key, s), self.eval(e.value, s)))
        return out

    # ------------------------------------------------------------ lists
    def list_append(self, l, v):
        self.touch(l)
        l.items.append(v)

    def list_extend(self, l, it):
        items = self.domain(it)
        self.touch(l)
        l.items.extend(items)

    # ------------------------------------------------------------ truth
    def truth_term(self, v):
        """python bool or z3 Bool"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Sym):
            if v.k == 'bool':
                return v.e
            return v.e != 0
        if isinstance(v, (int, Fraction, float, str)):
            return bool(v)
        if isinstance(v, UStr):
            return z3.Not(v.eq('').e)
        if isinstance(v, (VList, tuple, VGen)):
            items = v.items if isinstance(v, VList) else (list(v) if isinstance(v, tuple) else v.lst.items[v.pos:])
            if isinstance(v, VGen):
                return True
            if is_concrete_items(items):
                if any(isinstance(x, (Block, Rep)) for x in items):
                    n = self.length(v)
                    return n != 0 if isinstance(n, int) else ex(n) != 0
                return len(items) > 0
            if any(not isinstance(x, SEG) for x in items):
                return True
            n = self.length(v)
            return (n != 0) if isinstance(n, int) else ex(n) != 0
        if isinstance(v, VDict):
            if v.items or not v.segs:
                return bool(v.items)
            raise Unsupported('truth of symbolic dict')
        if isinstance(v, SymSeq):
            return v.length != 0
        if hasattr(v, 'truth_'):
            return v.truth_(self)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, VObj):
            if v.cls.lookup('__bool__') or v.cls.lookup('__len__'):
                raise Unsupported('object truth')
            return True
        if isinstance(v, (VFunc, Bound, VClass, Native, NatModule, VModule)):
            return True
        raise Unsupported('truth of %r' % (v,))

    def truth(self, v):
        return self.decide(self.truth_term(v))

    def length(self, v):
        if isinstance(v, SymSeq):
            return mk(v.length, 'int')
        if isinstance(v, VList):
            items = v.items
        elif isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, VDict):
            if v.segs:
                return self.seg_count(v.segs, len(v.items))
            return len(v.items)
        elif isinstance(v, str):
            return len(v)
        elif isinstance(v, VRange):
            d = self.range_domain(v)
            return self.seg_count(d, 0)
        elif hasattr(v, 'len_'):
            return v.len_(self)
        elif isinstance(v, VObj):
            m = v.cls.lookup('__len__')
            if m is None:
                raise self.exc('TypeError', 'object has no len()')
            return self.call(m, [v])
        elif v is None or is_scalar(v) or isinstance(v, VGen):
            raise self.exc('TypeError', 'object has no len()')
        else:
            raise Unsupported('len of %r' % (v,))
        return self.seg_count(items, 0)

    def seg_count(self, items, base):
        n = base
        for x in items:
            if isinstance(x, For):
                inner = self.seg_count(x.body, 0)
                if isinstance(inner, int):
                    d = z3.simplify(x.hi - x.lo)
                    if self.entails(x.hi >= x.lo):
                        c = mk(d, 'int')
                    else:
                        c = mk(z3.If(x.hi >= x.lo, d, smt.iv(0)), 'int')
                    n = self.binop('Add', n, self.binop('Mult', c, inner))
                else:
                    from .loops import sum_term
                    n = self.binop('Add', n, sum_term(self, x.var, x.lo, x.hi, ex(inner)))
            elif isinstance(x, Cond):
                t = None
                for g, b in reversed(x.alts):
                    c = ex(self.seg_count(b, 0))
                    t = c if t is None else z3.If(g, c, t)
                n = self.binop('Add', n, mk(t, 'int'))
            elif isinstance(x, Prefix):
                x.used = True
                n = self.binop('Add', n, Sym(x.count, 'int')) if getattr(x, 'count', None) is not None else self._unsup('length of list under construction')
            elif isinstance(x, Block):
                n = self.binop('Add', n, mk(x.rank, 'int'))
            elif isinstance(x, Rep):
                n = self.binop('Add', n, mk(x.block.rank, 'int'))
            else:
                n = self.binop('Add', n, 1)
        return n

    def _unsup(self, m):
        raise Unsupported(m)

    # ------------------------------------------------------------ arithmetic
    def fdiv(self, a, b):
        """python // on ints, divisor decided nonzero; smart on powers of two"""
        return self.fdivmod(a, b)[0]

    def fdivmod(self, a, b):
        """(a // b, True when b is known to divide a)"""
        if isinstance(a, int) and isinstance(b, int):
            return a // b, a % b == 0
        ea, eb = z3.simplify(ints(a)), z3.simplify(ints(b))
        if z3.is_app(ea) and ea.decl().kind() == z3.Z3_OP_MUL and self.entails(eb >= 1):
            # a product with the divisor among its factors
            fa = prod_factors(ea)
            fb = prod_factors(eb)
            left = cancel_factors(fa, fb)
            if left is not None:
                return mk(z3.Product(left) if len(left) > 1 else (left[0] if left else smt.iv(1)), 'int'), True
        pb = pow2_form(eb)
        if pb is not None and pb[2] is None and pb[0] > 0:
            cb, kb, _ = pb
            kb0 = kb if kb is not None else smt.iv(0)
            if kb is None or self.entails(kb >= 0):
                # (u + m*b) // b == u // b + m
                terms = ea.children() if z3.is_app(ea) and ea.decl().kind() == z3.Z3_OP_ADD else [ea]
                whole, rest = [], []
                for t in terms:
                    ft = pow2_form(t)
                    d = None
                    if ft is None:
                        whole.append(smt.iv(0))
                        continue
                    if ft[0] % cb == 0:
                        d = z3.simplify((ft[1] if ft[1] is not None else smt.iv(0)) - kb0)
                        if not self.entails(d >= 0):
                            d = None
                    if d is None:
                        rest.append(t)
                    else:
                        whole.append(join_pow2(ft[0] // cb, d, ft[2]))
                if not rest:
                    return mk(whole[0] if len(whole) == 1 else z3.Sum(whole), 'int'), True
                if whole:
                    return mk(z3.Sum(whole + [(rest[0] if len(rest) == 1 else z3.Sum(rest)) / eb]), 'int'), False
        return mk(ea / eb, 'int'), False

    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported((a if isinstance(a, Poison) else b).why)
        for x, y, rev in ((a, b, False), (b, a, True)):
            if hasattr(x, 'binop_'):
                r = x.binop_(self, op, y, rev)
                if r is not NotImplemented:
                    return r
        if is_scalar(a) and is_scalar(b):
            return self.arith(op, a, b)
        if op == 'Add':
            if isinstance(a, tuple) and isinstance(b, tuple):
                return tuple(list(a) + list(b))
            if isinstance(a, VList) and isinstance(b, VList):
                return VList(a.items + b.items)
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            islist = lambda x: isinstance(x, VList) or isinstance(x, SymSeq) and x.kind == 'list'
            if islist(a) and islist(b):
                return VList(list(self.domain(a)) + list(self.domain(b)))
            if isinstance(a, (VList, tuple, str)) and (is_scalar(b) or b is None or isinstance(b, (VList, tuple, str))):
                raise self.exc('TypeError', 'can only concatenate same types')
        if op == 'Mult':
            if isinstance(b, (tuple, VList)) and is_scalar(a):
                a, b = b, a
            if isinstance(a, str) and isinstance(b, int):
                return a * b
            if isinstance(a, (tuple, VList)) and is_scalar(b):
                items = list(a) if isinstance(a, tuple) else a.items
                if isinstance(b, (int, bool)):
                    out = items * b
                else:
                    out = self.repeat(items, b)
                return tuple(out) if isinstance(a, tuple) else VList(out)
        if op == 'Mod' and isinstance(a, str):
            args = b if isinstance(b, tuple) else (b,)
            conc = []
            if a.count('%d') + a.count('%s') == len(args) == a.count('%') and any(isinstance(x, Sym) or getattr(x, 'is_str_', False) for x in args):
                from .builtins_model import mkcat, render
                import re as _re
                lits = _re.split('%[ds]', a)
                parts = [lits[0]]
                for x, l in zip(args, lits[1:]):
                    parts += [render(self, x), l]
                return mkcat(parts)
            for x in args:
                conc.append(x if isinstance(x, (int, str)) else self.tostr(x))
            try:
                return a % tuple(conc)
            except TypeError:
                return a
        if isinstance(a, VObj):
            m = a.cls.lookup({'Add': '__add__', 'Mult': '__mul__', 'Sub': '__sub__', 'Div': '__truediv__'}.get(op, '__x__'))
            if m is not None:
                return self.call(m, [a, b])
        if isinstance(a, (VDict,)) and op == 'BitOr' and isinstance(b, VDict):
            d = VDict(a.items)
            d.items.update(b.items)
            return d
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise self.exc('TypeError', 'unsupported operand type(s) for %s: %r and %r' % (op, a, b))
        if isinstance(a, (VList, tuple, VDict)) or isinstance(b, (VList, tuple, VDict)):
            raise self.exc('TypeError', 'unsupported operand types for %s' % op)
        raise Unsupported('%s on %r and %r' % (op, a, b))

    def repeat(self, items, n):
        """items * n for symbolic n"""
        e = ex(n)
        # n = sum of block ranks + constant
        blk, const = split_rank(self, e)
        if blk is not None:
            if len(items) == 1:
                return [Rep(items[0], blk)] + items * const
            raise Unsupported('repetition of several items')
        i = self.freshvar('r')
        # negative n gives the empty list, which For(0, n) also denotes
        return [For(i, smt.iv(0), e, list(items))]

    def arith(self, op, a, b):
        ka, kb = kind(a), kind(b)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            r = self.concrete(op, a, b)
            if r is not NotImplemented:
                return r
        isint = ka in ('int', 'bool') and kb in ('int', 'bool')
        if op in ('Add', 'Sub'):
            if isint:
                ea, eb = ints(a), ints(b)
                return mk(ea + eb if op == 'Add' else ea - eb, 'int')
            ea, eb = reals(a), reals(b)
            return mk(ea + eb if op == 'Add' else ea - eb, 'float')
        if op == 'Mult':
            if isint:
                return mk(mul_pow2(self, ints(a), ints(b)), 'int')
            return mk(reals(a) * reals(b), 'float')
        if op == 'Div':
            eb = reals(b)
            if not ring.positive(self, [], z3.simplify(eb)) and self.decide(eb == 0):
                raise self.exc('ZeroDivisionError', 'division by zero')
            return mk(div_real(reals(a), eb), 'float')
        if op == 'FloorDiv':
            if isint:
                eb = ints(b)
                if self.decide(eb == 0):
                    raise self.exc('ZeroDivisionError', 'integer division by zero')
                if self.decide(eb > 0):
                    return self.fdiv(a if not isinstance(a, bool) else int(a), b)
                return mk(-z3.If((-ints(a)) % (-eb) == 0, smt.iv(0), smt.iv(0)) + (-ints(a)) / (-eb), 'int')
            raise Unsupported('float //')
        if op == 'Mod':
            if isint:
                eb = ints(b)
                if self.decide(eb == 0):
                    raise self.exc('ZeroDivisionError', 'modulo by zero')
                if self.decide(eb > 0):
                    return mk(ints(a) % eb, 'int')
                raise Unsupported('modulo by negative')
            raise Unsupported('float modulo')
        if op == 'Pow':
            return self.power(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if ka == 'bool' and kb == 'bool':
                ea, eb = ex(a), ex(b)
                return mk({'BitAnd': z3.And, 'BitOr': z3.Or, 'BitXor': z3.Xor}[op](ea, eb), 'bool')
            raise Unsupported('bit operation on symbolic ints')
        if op == 'LShift':
            return self.binop('Mult', a, self.power(2, b))
        if op == 'RShift':
            return self.binop('FloorDiv', a, self.power(2, b))
        raise Unsupported('operator ' + op)

    def concrete(self, op, a, b):
        try:
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mult':
                return a * b
            if op == 'Div':
                return Fraction(a) / Fraction(b) if not isinstance(a, float) and not isinstance(b, float) else a / b
            if op == 'FloorDiv':
                r = a // b
                return Fraction(r) if (kind(a) == 'float' or kind(b) == 'float') else r
            if op == 'Mod':
                return a % b
            if op == 'LShift':
                return a << b
            if op == 'RShift':
                return a >> b
            if op == 'BitAnd':
                return a & b
            if op == 'BitOr':
                return a | b
            if op == 'BitXor':
                return a ^ b
            if op == 'Pow':
                if kind(b) in ('int', 'bool'):
                    if b >= 0:
                        return a ** int(b)
                    if a == 0:
                        raise self.exc('ZeroDivisionError', '0 to negative power')
                    return Fraction(a) ** int(b)
                return NotImplemented
        except ZeroDivisionError:
            raise self.exc('ZeroDivisionError', 'division by zero')
        except (TypeError, ValueError):
            raise self.exc('TypeError', 'operand types')
        return NotImplemented

    def power(self, a, b):
        kb = kind(b)
        if kb in ('int', 'bool'):
            if not isinstance(b, Sym):
                n = int(b)
                if n >= 0:
                    if n == 0:
                        return 1 if kind(a) == 'int' else Fraction(1)
                    if n <= 6:
                        r = a
                        for _ in range(n - 1):
                            r = self.arith('Mult', r, a)
                        return r
                else:
                    return self.arith('Div', Fraction(1), self.power(a, -n))
            if a == 2 if not isinstance(a, Sym) else False:
                eb = ints(b)
                if kind(a) == 'float':
                    return mk(rpow2(eb), 'float')
                if self.decide(eb >= 0):
                    return mk(pow2(eb), 'int')
                return mk(rpow2(eb), 'float')
            if not isinstance(a, Sym) and kind(a) == 'float' and a > 0:
                f = Fraction(a)
                if f.numerator == 1 and f.denominator & (f.denominator - 1) == 0:
                    return mk(rpow2(-(f.denominator.bit_length() - 1) * ints(b)), 'float')
            if not isinstance(a, Sym) and kind(a) == 'int' and a > 2 and a & (a - 1) == 0:
                eb = ints(b)
                if self.decide(eb >= 0):
                    return mk(pow2((a.bit_length() - 1) * eb), 'int')
                return mk(rpow2((a.bit_length() - 1) * eb), 'float')
            # symbolic base or other base
            return mk(smt.powf(reals(a), reals(b)), 'float') if kind(a) == 'float' else self._unsup('integer power')
        if kb == 'float':
            if not isinstance(b, Sym):
                if b == Fraction(1, 2):
                    return mk(smt.sqrtf(reals(a)), 'float')
                if Fraction(b).denominator == 1 and 0 <= b <= 6:
                    r = self.power(a, int(b))
                    return mk(reals(r), 'float')
            return mk(smt.powf(reals(a), reals(b)), 'float')
        raise Unsupported('power')

    # ------------------------------------------------------------ comparison
    def compare(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported((a if isinstance(a, Poison) else b).why)
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b)
            if op == 'IsNot':
                r = (not r) if isinstance(r, bool) else mk(z3.Not(ex(r)), 'bool')
            return r
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            if op == 'NotIn':
                r = (not r) if isinstance(r, bool) else mk(z3.Not(ex(r)), 'bool')
            return r
        for x, y, rev in ((a, b, False), (b, a, True)):
            if hasattr(x, 'compare_'):
                r = x.compare_(self, op, y, rev)
                if r is not NotImplemented:
                    return r
        if op in ('Eq', 'NotEq'):
            r = self.eq(a, b)
            if op == 'NotEq':
                r = (not r) if isinstance(r, bool) else mk(z3.Not(ex(r)), 'bool')
            return r
        if is_scalar(a) and is_scalar(b):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
            ea, eb = ints(a), ints(b)
            if z3.is_real(ea) or z3.is_real(eb):
                ea, eb = reals(a), reals(b)
            return mk({'Lt': ea < eb, 'LtE': ea <= eb, 'Gt': ea > eb, 'GtE': ea >= eb}[op], 'bool')
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.lexcmp(op, a, b)
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if (a is None or b is None or isinstance(a, (str, UStr)) or isinstance(b, (str, UStr)) or isinstance(a, (tuple, VList)) or isinstance(b, (tuple, VList))):
            raise self.exc('TypeError', 'comparison %s not supported between %r and %r' % (op, a, b))
        raise Unsupported('comparison %s of %r and %r' % (op, a, b))

    def lexcmp(self, op, a, b):
        for x, y in zip(a, b):
            if self.truth(self.eq(x, y)):
                continue
            return self.compare({'LtE': 'Lt', 'GtE': 'Gt'}.get(op, op), x, y)
        return {'Lt': len(a) < len(b), 'LtE': len(a) <= len(b), 'Gt': len(a) > len(b), 'GtE': len(a) >= len(b)}[op]

    def is_(self, a, b):
        if a is None or b is None:
            if isinstance(a, Poison) or isinstance(b, Poison):
                raise Unsupported('identity of undetermined value')
            return a is b
        if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, Sym) and a.k == 'bool') or (isinstance(b, Sym) and b.k == 'bool'):
            if kind(a) == 'bool' and kind(b) == 'bool':
                return mk(ex(a) == ex(b), 'bool')
            return False
        if hasattr(a, 'is_') and hasattr(b, 'is_'):
            return a.is_(self, b)
        if isinstance(a, (int, str, UStr, Fraction)) or isinstance(a, Sym):
            return self.eq(a, b)
        if isinstance(a, VObj) and isinstance(b, VObj) and a is not b and getattr(a, 'may_alias', False):
            raise Unsupported('identity')
        return a is b

    def eq(self, a, b):
        """python == : bool or Sym bool"""
        if a is b:
            return True
        if hasattr(a, 'eq_'):
            return a.eq_(self, b)
        if hasattr(b, 'eq_'):
            return b.eq_(self, a)
        if isinstance(a, UStr) or isinstance(b, UStr):
            if isinstance(b, UStr):
                a, b = b, a
            if isinstance(b, str):
                return a.eq(b)
            if isinstance(b, UStr):
                raise Unsupported('comparison of two unknown strings')
            return False
        if is_scalar(a) and is_scalar(b):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return a == b
            ea, eb = ints(a), ints(b)
            if z3.is_real(ea) or z3.is_real(eb):
                ea, eb = reals(a), reals(b)
            return mk(ea == eb, 'bool')
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.seq_eq(list(a), list(b))
        if isinstance(a, VList) and isinstance(b, VList):
            return self.seq_eq(a.items, b.items)
        if isinstance(a, VDict) and isinstance(b, VDict):
            if a.segs or b.segs or set(a.items) != set(b.items):
                if not a.segs and not b.segs:
                    return False
                raise Unsupported('dict equality')
            return self.conj([self.eq(a.items[k], b.items[k]) for k in a.items])
        if isinstance(a, (VObj,)):
            m = a.cls.lookup('__eq__')
            if m is not None:
                return self.call(m, [a, b])
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Opaque):
                return a.name == b.name
        if type(a) in (str, bool, int, Fraction) and type(b) in (str, bool, int, Fraction):
            return a == b
        return False

    def conj(self, xs):
        out = []
        for x in xs:
            if x is False:
                return False
            if x is not True:
                out.append(ex(x))
        return True if not out else mk(z3.And(*out), 'bool')

    def seq_eq(self, a, b):
        if any(isinstance(x, SEG) for x in a + b):
            raise Unsupported('equality of symbolic sequences')
        ba = [x for x in a if isinstance(x, (Block, Rep))]
        bb = [x for x in b if isinstance(x, (Block, Rep))]
        if ba or bb:
            if len(ba) == len(bb) == 1 and isinstance(ba[0], Block) and ba[0] is bb[0]:
                i, j = a.index(ba[0]), b.index(bb[0])
                if i == j and len(a) == len(b):
                    return self.conj([True if isinstance(x, Block) else self.eq(x, y) for x, y in zip(a, b)])
            if len(ba) + len(bb) == 1:
                # block against concrete: equal lengths only if the rank matches; the ranks decide
                blk = (ba + bb)[0]
                if isinstance(blk, Block):
                    la, lb = len(a) - len(ba), len(b) - len(bb)
                    diff = (lb - la) if ba else (la - lb)
                    if not self.decide(blk.rank == diff):
                        return False
                    if diff == 0:
                        return self.conj([self.eq(x, y) for x, y in zip([x for x in a if x is not blk], [x for x in b if x is not blk])])
            raise Unsupported('equality of shapes with unknown rank')
        if len(a) != len(b):
            return False
        return self.conj([self.eq(x, y) for x, y in zip(a, b)])

    def contains(self, c, x):
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Unsupported('in string')
        if isinstance(c, VDict):
            if isinstance(x, (str, int, bool)) and not c.segs:
                return x in c.items
            if not c.segs:
                return self.disj([self.eq(k, x) for k in c.items])
            raise Unsupported('in dict')
        if hasattr(c, 'contains_'):
            return c.contains_(self, x)
        items = self.domain(c)
        if not is_concrete_items(items):
            raise Unsupported('in symbolic sequence')
        return self.disj([self.eq(y, x) for y in items])

    def disj(self, xs):
        out = []
        for x in xs:
            if x is True:
                return True
            if x is not False:
                out.append(ex(x))
        return False if not out else mk(z3.Or(*out), 'bool')

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        r = self.getattr_opt(o, name)
        if r is MISSING:
            raise self.exc('AttributeError', '%r has no attribute %s' % (o, name))
        return r

    def getattr_opt(self, o, name):
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, VObj):
            v = o.cls.lookup(name)
            if isinstance(v, VProp):
                return self.call(v.fget, [o])
            if name in o.attrs:
                x = o.attrs[name]
                if isinstance(x, Poison):
                    raise Unsupported('attribute %s: %s' % (name, x.why))
                return x
            if v is not None:
                return self.bindattr(v, o, o.cls)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return VDict(o.attrs)
            g = o.cls.lookup('__getattr__')
            if g is not None:
                return self.call(g, [o, name])
            for c in o.cls.mro():
                if c.native is not None and hasattr(c.native, 'getattr'):
                    r = c.native.getattr(self, o, name)
                    if r is not MISSING:
                        return r
            return MISSING
        if isinstance(o, VClass):
            v = o.lookup(name)
            if v is None:
                if name == '__name__':
                    return o.name
                if name == '__dict__':
                    return VDict(o.ns)
                if name == '__doc__':
                    return o.ns.get('__doc__')
                return MISSING
            if isinstance(v, VClsM):
                return Bound(v.fn, o)
            if isinstance(v, VStatic):
                return v.fn
            return v
        if isinstance(o, VSuper):
            obj = o.obj
            cls = obj.cls if isinstance(obj, VObj) else obj
            mro = cls.mro()
            start = mro.index(o.cls) + 1
            for c in mro[start:]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, VProp):
                        return self.call(v.fget, [obj])
                    return self.bindattr(v, obj, cls)
            if name == '__init__':
                return Native('object.__init__', lambda I, a, k: None)
            return MISSING
        if isinstance(o, VModule):
            if name in o.attrs:
                return o.attrs[name]
            try:
                return self.load(o.name + '.' + name)
            except PyRaise:
                return MISSING
        if isinstance(o, NatModule):
            if name in o.attrs:
                return o.attrs[name]
            return self.nat_attr(o, name)
        if isinstance(o, Opaque):
            if name == '__version__':
                return o
            return Opaque(o.name + '.' + name)
        if isinstance(o, (VFunc,)):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            if name == '__doc__':
                return None
            return MISSING
        if isinstance(o, Bound):
            return self.getattr_opt(o.fn, name)
        if hasattr(o, 'getattr_'):
            return o.getattr_(self, name)
        from .builtins_model import method_of
        return method_of(self, o, name)

    def bindattr(self, v, o, cls):
        if isinstance(v, (VFunc, Native)):
            if isinstance(v, Native) and getattr(v, 'static', False):
                return v
            return Bound(v, o)
        if isinstance(v, VStatic):
            return v.fn
        if isinstance(v, VClsM):
            return Bound(v.fn, cls)
        return v

    def compact(self, name, v):
        """name a large scalar term (definition added to the path condition)"""
        if self.binders or not isinstance(v, Sym) or v.k not in ('int', 'float') or smt.size(v.e) <= 7:
            return v
        if v.k == 'int':
            f = pow2_form(v.e)
            if f is not None and f[1] is not None and f[2] is None:
                if smt.size(f[1]) <= 4:
                    return v
                c = self.fresh('log2_' + name.strip('_'), smt.Int)
                self.pc.append(c == f[1])
                return mk(join_pow2(f[0], c, None), 'int')
        if smt.size(v.e) <= 24:
            return v
        c = self.fresh(name.strip('_'), smt.Int if v.k == 'int' else smt.Real)
        self.pc.append(c == v.e)
        return Sym(c, v.k)

    def setattr(self, o, name, v):
        if isinstance(o, VObj):
            p = o.cls.lookup(name)
            if isinstance(p, VProp):
                if p.fset is None:
                    raise self.exc('AttributeError', "can't set attribute " + name)
                self.call(p.fset, [o, v])
                return
            if name == '__class__':
                self.touch(o)
                o.cls = v
                return
            for c in o.cls.mro():
                if c.native is not None and hasattr(c.native, 'setattr'):
                    if c.native.setattr(self, o, name, v):
                        return
            self.touch(o)
            o.attrs[name] = self.compact(name, v)
        elif isinstance(o, VClass):
            self.touch(o)
            if name == '__name__':
                o.name_ = v
                return
            o.ns[name] = v
        elif isinstance(o, VFunc):
            o.attrs[name] = v
        elif isinstance(o, Bound) and isinstance(o.fn, VFunc):
            o.fn.attrs[name] = v
        elif isinstance(o, (VModule,)):
            self.touch(o.scope)
            o.attrs[name] = v
        elif hasattr(o, 'setattr_'):
            o.setattr_(self, name, v)
        else:
            raise Unsupported('setattr on %r' % (o,))

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, i):
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(i, Poison):
            raise Unsupported(i.why)
        if hasattr(o, 'getitem_'):
            return o.getitem_(self, i)
        if isinstance(o, (VList, tuple)):
            return self.seq_getitem(o, i)
        if isinstance(o, SymSeq):
            return self.symseq_getitem(o, i)
        if isinstance(o, VDict):
            return self.dict_getitem(o, i)
        if isinstance(o, str):
            if isinstance(i, int):
                return o[i]
            if isinstance(i, VSlice):
                return o[slice(i.lo, i.hi, i.step)]
        if isinstance(o, VObj):
            m = o.cls.lookup('__getitem__')
            if m is not None:
                return self.call(m, [o, i])
            raise self.exc('TypeError', 'object is not subscriptable')
        if o is None or is_scalar(o) or isinstance(o, VGen):
            raise self.exc('TypeError', 'object is not subscriptable')
        raise Unsupported('subscript of %r' % (o,))

    def symseq_getitem(self, o, i):
        if isinstance(i, VSlice):
            if i.step not in (None, 1):
                raise Unsupported('strided slice')
            n = o.length
            lo, hi = self.slice_bounds(i, mk(n, 'int'))
            return SymSeq(o.name + '[:]', z3.simplify(z3.If(ex(hi) >= ex(lo), ex(hi) - ex(lo), smt.iv(0))),
                          lambda k, lo=lo: o.at(z3.simplify(k + ex(lo))))
        e = ints(i)
        if not self.entails(z3.And(e >= 0, e < o.length)):
            if self.decide(z3.Or(e >= o.length, e < -o.length)):
                raise self.exc('IndexError', 'list index out of range (%s)' % o.name)
            if not self.decide(e >= 0):
                e = z3.simplify(e + o.length)
        return o.at(z3.simplify(e))

    def slice_bounds(self, s, n):
        """(lo, hi) clipped to [0, n] as scalars"""
        def norm(x, default):
            if x is None:
                return default
            if isinstance(x, (int, bool)) and isinstance(n, int):
                return max(0, min(n, x + n if x < 0 else x))
            e, en = ints(x), ints(n)
            if self.entails(z3.And(e >= 0, e <= en)):
                return x
            if self.decide(e < 0):
                if self.decide(e + en < 0):
                    return 0
                return mk(e + en, 'int')
            if self.decide(e > en):
                return n
            return x
        return norm(s.lo, 0), norm(s.hi, n)

    def seq_getitem(self, o, i):
        items = list(o) if isinstance(o, tuple) else o.items
        wrap = (lambda x: tuple(x)) if isinstance(o, tuple) else VList
        special = [k for k, x in enumerate(items) if isinstance(x, SEG + (Block, Rep))]
        if isinstance(i, VSlice):
            if i.step not in (None, 1):
                if not special and isinstance(i.step, int):
                    return wrap(items[slice(i.lo, i.hi, i.step)])
                raise Unsupported('strided slice')
            if not special:
                if all(x is None or isinstance(x, int) for x in (i.lo, i.hi)):
                    return wrap(items[slice(i.lo, i.hi)])
                lo, hi = self.slice_bounds(i, len(items))
                lo, hi = self.concretize(lo), self.concretize(hi)
                return wrap(items[lo:hi])
            if i.lo is None and i.hi is None:
                return wrap(list(items))
            f, l = special[0], special[-1]
            def fixed(x, default):
                if x is None:
                    return default
                if isinstance(x, int):
                    if 0 <= x <= f:
                        return x
                    if x < 0 and len(items) + x > l:
                        return len(items) + x
                    if x < 0 and len(items) + x <= l:
                        # crosses the block from the right: needs rank
                        raise Unsupported('slice through a block of axes')
                    raise Unsupported('slice through symbolic part')
                e = ex(x)
                # -len(B.shape) style
                n = ex(self.length(o))
                tail = z3.simplify(e + n)
                if self.entails(e < 0):
                    for k in range(len(items) + 1):
                        if k <= f and self.entails(tail == k):
                            return k
                    for k in range(l + 1, len(items) + 1):
                        off = smt.iv(len(items) - k)
                        if self.entails(e == -off):
                            return k
                raise Unsupported('symbolic slice bound %s' % e)
            lo, hi = fixed(i.lo, 0), fixed(i.hi, len(items))
            return wrap(items[lo:hi])
        if isinstance(i, (Sym,)):
            c = self.try_concrete(i)
            if c is not None:
                i = c
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            n = len(items)
            if not special:
                if -n <= i < n:
                    return items[i]
                raise self.exc('IndexError', 'index %d out of range (length %d)' % (i, n))
            if 0 <= i < special[0]:
                return items[i]
            if i < 0 and n + i > special[-1]:
                return items[i]
            return self.seg_index(items, i)
        if isinstance(i, Sym):
            return self.seg_index(items, i)
        if i is None or isinstance(i, (str, tuple)):
            raise self.exc('TypeError', 'list indices must be integers or slices')
        raise Unsupported('index %r' % (i,))

    def seg_index(self, items, i):
        """element i of a sequence with segments"""
        e = ints(i)
        if any(isinstance(x, Prefix) and getattr(x, 'count', None) is None for x in items):
            raise Unsupported('indexing a list under construction')
        n = self.seg_count(items, 0)
        en = ints(n)
        if not self.entails(z3.And(e >= 0, e < en)):
            if self.decide(z3.Or(e >= en, e < -en)):
                raise self.exc('IndexError', 'index out of range')
            if not self.decide(e >= 0):
                e = z3.simplify(e + en)
        off = smt.iv(0)
        for x in items:
            c = ints(self.seg_count([x], 0))
            rel = z3.simplify(e - off)
            off2 = z3.simplify(off + c)
            if not self.decide(e < off2):
                off = off2
                continue
            if isinstance(x, For):
                inner = x.body
                if len(inner) == 1 and not isinstance(inner[0], SEG):
                    from .loops import subst_value
                    r = subst_value(inner[0], [(x.var, z3.simplify(x.lo + rel))])
                    mark_derived(r)
                    return r
                raise Unsupported('indexing a nested family')
            if isinstance(x, Cond):
                for g, b in x.alts:
                    if self.decide(g):
                        return self.seg_index(b, mk(rel, 'int'))
                raise DeadPath()
            if isinstance(x, Prefix):
                raise Unsupported('indexing a list under construction')
            if isinstance(x, Block):
                return Sym(z3.Function('dim_' + x.name, smt.Int, smt.Int)(rel), 'int')
            if isinstance(x, Rep):
                return x.v
            return x
        raise DeadPath()

    def try_concrete(self, v):
        e = ints(v)
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
        return None

    def concretize(self, v, limit=12):
        """the concrete int a scalar must have, branching over small candidates"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        c = self.try_concrete(v)
        if c is not None:
            return c
        e = ints(v)
        for k in range(limit):
            if self.decide(e == k):
                return k
        raise Unsupported('cannot enumerate %s' % e)

    def dict_getitem(self, d, k):
        if isinstance(k, (str, int, bool, tuple)) or k is None:
            try:
                if hashable(k) and k in d.items and not any(isinstance(s, SEG) for s in d.segs):
                    ok = True
                    for s in d.segs:
                        if isinstance(s, KV) and self.eq(s.k, k) is not False and self.truth(self.eq(s.k, k)):
                            ok = False
                    if ok:
                        v = d.items[k]
                        if isinstance(v, Poison):
                            raise Unsupported('dict entry %r: %s' % (k, v.why))
                        return v
            except TypeError:
                pass
        # symbolic keys: newest entry first
        for s in reversed(d.segs):
            if isinstance(s, KV):
                if self.truth(self.eq(s.k, k)):
                    return s.v
            elif isinstance(s, FMap):
                e = ints(k)
                if self.decide(z3.And(s.lo <= e, e < s.hi)):
                    return s.fn(e)
            elif isinstance(s, For) or isinstance(s, Cond):
                r = self.dict_for_lookup(s, k)
                if r is not MISSING:
                    return r
            elif isinstance(s, Prefix):
                if getattr(s, 'lookup', None) is not None:
                    r = s.lookup(self, k)
                    if r is not MISSING:
                        return r
                else:
                    raise Unsupported('lookup in a dict under construction')
        for kk, v in d.items.items():
            t = self.eq(kk, k)
            if t is True or (t is not False and self.truth(t)):
                return v
        raise self.exc('KeyError', '%r' % (k,))

    def dict_for_lookup(self, s, k):
        """entry for key k in a family of entries"""
        from .loops import invert_lookup
        return invert_lookup(self, s, k)

    def setitem(self, o, i, v):
        if isinstance(o, VDict):
            self.touch(o)
            if hashable(i):
                if o.segs:
                    if i in o.items:
                        pass
                    o.segs = [s for s in o.segs if not (isinstance(s, KV) and hashable(s.k) and s.k == i)]
                    if any(not isinstance(s, KV) or self.eq(s.k, i) is not False for s in o.segs):
                        o.segs.append(KV(i, v))
                        return
                o.items[i] = v
            else:
                o.segs.append(KV(i, v))
            return
        if hasattr(o, 'setitem_'):
            return o.setitem_(self, i, v)
        if isinstance(o, VList):
            if isinstance(i, VSlice):
                raise Unsupported('slice assignment')
            c = i if isinstance(i, int) else self.try_concrete(i)
            if c is not None and is_concrete_items(o.items):
                if not -len(o.items) <= c < len(o.items):
                    raise self.exc('IndexError', 'assignment index out of range')
                self.touch(o)
                o.items[c] = v
                return
            from .loops import list_setitem
            return list_setitem(self, o, i, v)
        if isinstance(o, VObj):
            m = o.cls.lookup('__setitem__')
            if m is not None:
                return self.call(m, [o, i, v])
        if isinstance(o, (tuple, str)) or o is None or is_scalar(o):
            raise self.exc('TypeError', 'object does not support item assignment')
        raise Unsupported('item assignment on %r' % (o,))

    def delitem(self, o, i):
        if isinstance(o, VDict):
            if hashable(i) and i in o.items:
                self.touch(o)
                del o.items[i]
                return
            if not o.segs:
                raise self.exc('KeyError', '%r' % (i,))
        if isinstance(o, VList) and isinstance(i, int) and is_concrete_items(o.items):
            self.touch(o)
            del o.items[i]
            return
        raise Unsupported('del item')


class DeadPath(Exception):
    pass


class StarSeg:
    def __init__(self, segs):
        self.segs = segs


NODEF = object()
MISSING = object()


def hashable(k):
    if isinstance(k, (str, int, bool, Fraction)) or k is None:
        return True
    if isinstance(k, tuple):
        return all(hashable(x) for x in k)
    return False


def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            # belongs to this function? walk nested functions
            return _own_yield(node)
    return False


def _own_yield(node):
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


def local_names(node):
    if isinstance(node, ast.Lambda):
        return set()
    out = set()
    stack = list(node.body)
    glob = set()
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return out - glob


# ------------------------------------------------------------ powers of two
def pow2_form(e):
    """e == c * pow2(k) * rest  ->  (c, k or None, rest or None)"""
    e = z3.simplify(e)
    fs = factors(e)
    c, k, rest = 1, None, []
    for f in fs:
        if z3.is_int_value(f):
            c *= f.as_long()
        elif z3.is_app(f) and f.decl().name() == 'pow2':
            k = f.arg(0) if k is None else k + f.arg(0)
        else:
            rest.append(f)
    if c == 0:
        return None
    r = None
    for x in rest:
        r = x if r is None else r * x
    return c, (z3.simplify(k) if k is not None else None), r


def factors(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
        out = []
        for c in e.children():
            out += factors(c)
        return out
    return [e]


def join_pow2(c, k, r):
    k = z3.simplify(k) if k is not None else None
    parts = []
    if k is not None:
        if z3.is_int_value(k) and 0 <= k.as_long() <= 256:
            c = c * 2 ** k.as_long()
        else:
            # constant offset into the coefficient stays inside the exponent (canonical)
            while c % 2 == 0 and c != 0:
                c //= 2
                k = z3.simplify(k + 1)
            parts.append(pow2(k))
    if r is not None:
        parts.append(r)
    e = smt.iv(c)
    if parts:
        e = parts[0]
        for p in parts[1:]:
            e = e * p
        if c != 1:
            e = c * e
    return e


def mul_pow2(I, a, b):
    fa, fb = pow2_form(a), pow2_form(b)
    if fa is None or fb is None:
        return smt.iv(0)
    ka, kb = fa[1], fb[1]
    if ka is None and kb is None:
        return a * b
    if ka is not None and kb is not None:
        if not I.entails(z3.And(ka >= 0, kb >= 0)):
            return a * b
        k = ka + kb
    else:
        k = ka if ka is not None else kb
    r = fa[2] if fb[2] is None else (fb[2] if fa[2] is None else fa[2] * fb[2])
    c = fa[0] * fb[0]
    if c % 2 == 0 and not I.entails(k >= 0):
        return a * b
    return join_pow2(c, k, r)


def div_real(a, b):
    return a / b


def split_rank(I, e):
    """e == rank of a known block + constant -> (block, const)"""
    for blk in getattr(I, 'blocks', []):
        d = z3.simplify(e - blk.rank)
        if z3.is_int_value(d) and d.as_long() >= 0:
            return blk, d.as_long()
    return None, None
