"""C17: cache directory resolution follows its documented precedence."""
import z3
from vc.values import *
from vc.symstr import SStr, S, ENVSET, ENVVAL, HOME, JOIN, ISDIR, sx
from vc.harness import Case
from vc.interp import DeadPath

MOD = 'kymatio.caching'
KEY = z3.StringVal('KYMATIO_CACHE')


def sym(n):
    return SStr(z3.Const(n, S))


def base_spec(fs, given):
    """documented precedence: the argument, the environment variable, ~/kymatio_cache"""
    v = z3.IntVal(fs.env)
    if given is not None:
        return sx(given)
    return z3.If(ENVSET(v, KEY), ENVVAL(v, KEY), JOIN(HOME(v, z3.StringVal('~')), z3.StringVal('kymatio_cache')))


def load(I):
    f, g = I.get(MOD, 'find_cache_base_dir'), I.get(MOD, 'get_cache_dir')
    # the environment and the file system of the call are unrelated to those of the import
    I.fs.env = I.fs.fs = 1
    return f, g


def args(given, how, name):
    if given is None:
        return [[], {}] if how == 'default' else ([[None], {}] if how == 'positional' else [[], {name: None}])
    return [[given], {}] if how == 'positional' else [[], {name: given}]


def base(given, how):
    def body(I):
        f, _ = load(I)
        b = sym('base') if given else None
        for rnd in (1, 2):          # the second call sees another environment
            I.fs.env = I.fs.fs = rnd
            a, k = args(b, how, 'cache_base_dir')
            r = I.call(f, a, k)
            e = sx(r)
            I.oblige('call %d: returns a path' % rnd, e is not None, repr(r))
            I.oblige('call %d: the base directory follows the documented precedence' % rnd, e == base_spec(I.fs, b))
            I.oblige('call %d: nothing is written or created' % rnd, not I.fs.log, repr(I.fs.log))
    return body


def cache(given, name_given, create, how):
    def body(I):
        _, g = load(I)
        b = sym('base') if given else None
        nm = sym('name') if name_given else None
        cr = {'default': None, 'sym': Sym(z3.Bool('create'), 'bool'), True: True, False: False}[create]
        a, k = [], {}
        if how == 'positional':
            a = [nm if nm is not None else '', b] + ([] if cr is None else [cr])
        else:
            if nm is not None:
                k['name'] = nm
            if b is not None:
                k['cache_base_dir'] = b
            if cr is not None:
                k['create'] = cr
        allowed = True if cr is None else (cr if isinstance(cr, bool) else cr.e)
        for rnd in (1, 2):
            I.fs.env = I.fs.fs = rnd
            del I.fs.log[:]
            want = JOIN(base_spec(I.fs, b), sx(nm if nm is not None else ''))
            there = ISDIR(z3.IntVal(rnd), want)
            tag = 'call %d: ' % rnd
            try:
                r = I.call(g, a, k)
            except PyRaise as x:
                I.oblige(tag + 'raises only when the directory is missing and creation is not allowed', z3.And(z3.Not(there), z3.Not(allowed if not isinstance(allowed, bool) else z3.BoolVal(allowed))), str(x))
                I.oblige(tag + 'the rejection is a ValueError', x.exc.cls.issub(I.exc_classes['ValueError']), str(x))
                I.oblige(tag + 'a rejected call creates nothing', not I.fs.log, repr(I.fs.log))
                continue
            e = sx(r)
            I.oblige(tag + 'returns a path', e is not None, repr(r))
            I.oblige(tag + 'the directory is the named entry of the base directory', e == want)
            I.oblige(tag + 'returns only if the directory exists or may be created',
                     z3.Or(there, allowed if not isinstance(allowed, bool) else z3.BoolVal(allowed)))
            if I.decide(there):
                I.oblige(tag + 'an existing directory is left untouched', not I.fs.log, repr(I.fs.log))
            else:
                ok = len(I.fs.log) == 1 and I.fs.log[0][0] == 'makedirs'
                I.oblige(tag + 'a missing directory is created, and nothing else', ok and I.fs.log[0][1] == want, repr(I.fs.log))
    return body


def cases(tier):
    out = []
    for given in (False, True):
        for how in ('positional', 'keyword') if given else ('default', 'positional', 'keyword'):
            out.append(Case('find_cache_base_dir argument=%s %s' % ('given' if given else 'None', how), base(given, how)))
        for nm in (False, True):
            for create in ('default', True, False, 'sym'):
                for how in ('keyword', 'positional'):
                    out.append(Case('get_cache_dir base=%s name=%s create=%s %s' % ('given' if given else 'None', 'given' if nm else 'default', create, how),
                                    cache(given, nm, create, how)))
    return out
