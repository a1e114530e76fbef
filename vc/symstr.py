"""Symbolic strings (z3 String terms) and the os / os.path model (assumed contracts)."""
import posixpath
import z3
from .values import *
from .interp import MISSING

S = z3.StringSort()
B = z3.BoolSort()
LOWER = z3.Function('lower', S, S)
JOIN = z3.Function('path.join', S, S, S)
HOME = z3.Function('path.expanduser', z3.IntSort(), S, S)
ENVSET = z3.Function('env.set', z3.IntSort(), S, B)
ENVVAL = z3.Function('env.val', z3.IntSort(), S, S)
ISDIR = z3.Function('fs.isdir', z3.IntSort(), S, B)


def sx(v):
    if isinstance(v, SStr):
        return v.e
    if isinstance(v, str):
        return z3.StringVal(v)
    return None


def smk(e):
    e = z3.simplify(e)
    if z3.is_string_value(e):
        return e.as_string()
    return SStr(e)


class SStr:
    """an unknown string"""
    is_str_ = True

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SStr(%s)' % self.e

    def eq_(self, I, o):
        e = sx(o)
        if e is None:
            return False
        return mk(self.e == e, 'bool')

    def truth_(self, I):
        return self.e != z3.StringVal('')

    def binop_(self, I, op, o, rev):
        if op == 'Add':
            e = sx(o)
            if e is None:
                if o is None or is_scalar(o) or isinstance(o, (tuple, VList)):
                    raise I.exc('TypeError', 'can only concatenate str')
                return NotImplemented
            return smk(z3.Concat(e, self.e) if rev else z3.Concat(self.e, e))
        return NotImplemented

    def getattr_(self, I, n):
        if n == 'lower':
            return Native('str.lower', lambda I, a, k: smk(LOWER(self.e)))
        if n == 'startswith':
            return Native('str.startswith', lambda I, a, k: mk(z3.PrefixOf(sx(a[0]), self.e), 'bool'))
        if n == 'endswith':
            return Native('str.endswith', lambda I, a, k: mk(z3.SuffixOf(sx(a[0]), self.e), 'bool'))
        if n == 'format':
            return Native('str.format', lambda I, a, k: self)
        return MISSING

    def contains_(self, I, x):
        return mk(z3.Contains(self.e, sx(x)), 'bool')

    def subst_(self, pairs, memo):
        return SStr(z3.substitute(self.e, *pairs)) if pairs else self

    def mentions_(self, sym):
        return False

    def isinstance_(self, I, cls):
        return cls is I.builtins['str'] or cls is I.object_cls


def concrete_str(I, v):
    """the constant an unknown string is known to equal on the current path"""
    if isinstance(v, str):
        return v
    pairs = []
    for c in I.pc:
        todo = [c]
        while todo:
            x = todo.pop()
            if z3.is_and(x):
                todo += x.children()
            elif z3.is_eq(x) and x.arg(0).sort() == S:
                a, b = x.arg(0), x.arg(1)
                if z3.is_string_value(a):
                    a, b = b, a
                if z3.is_string_value(b):
                    pairs.append((a, b))
    r = smk(z3.substitute(v.e, *pairs))
    return r if isinstance(r, str) else None


# ---------------------------------------------------------------- os
class FS:
    """ghost state: version of the environment and of the file system, log of effects"""

    def __init__(self):
        self.env, self.fs, self.log = 0, 0, []
        self.sets = []


def path_arg(I, v):
    e = sx(v)
    if e is None:
        raise I.exc('TypeError', 'expected str, bytes or os.PathLike object, not %r' % (v,))
    return e


def install_os(I):
    m, p = NatModule('os'), NatModule('os.path')
    I.fs = FS()

    def join(I, a, k):
        es = [path_arg(I, x) for x in a]
        if all(isinstance(x, str) for x in a):
            return posixpath.join(*a)
        r = es[0]
        for e in es[1:]:
            r = JOIN(r, e)
        return smk(r)

    def expanduser(I, a, k):
        s = a[0]
        if isinstance(s, str):
            if not s.startswith('~'):
                return s
            if s == '~':
                return smk(HOME(smt_int(I.fs.env), z3.StringVal('~')))
            if s.startswith('~/'):
                return smk(JOIN(HOME(smt_int(I.fs.env), z3.StringVal('~')), z3.StringVal(s[2:])))
        e = path_arg(I, s)
        return smk(HOME(smt_int(I.fs.env), e))

    def isdir(I, a, k):
        return mk(ISDIR(smt_int(I.fs.fs), path_arg(I, a[0])), 'bool')

    def env_get(I, a, k):
        key, d = path_arg(I, a[0]), a[1] if len(a) > 1 else k.get('default')
        if I.decide(ENVSET(smt_int(I.fs.env), key)):
            return smk(ENVVAL(smt_int(I.fs.env), key))
        return d

    class Environ:
        def getattr_(self, I, n):
            if n == 'get':
                return Native('environ.get', env_get)
            return MISSING

        def getitem_(self, I, key):
            if I.decide(ENVSET(smt_int(I.fs.env), path_arg(I, key))):
                return smk(ENVVAL(smt_int(I.fs.env), path_arg(I, key)))
            raise I.exc('KeyError', repr(key))

        def contains_(self, I, key):
            return mk(ENVSET(smt_int(I.fs.env), path_arg(I, key)), 'bool')

        def setitem_(self, I, key, v):
            I.fs.log.append(('setenv', path_arg(I, key), path_arg(I, v)))

        def truth_(self, I):
            raise Unsupported('truth of os.environ')

    def makedirs(I, a, k):
        e = path_arg(I, a[0])
        ok = k.get('exist_ok', a[2] if len(a) > 2 else False)
        if I.decide(ISDIR(smt_int(I.fs.fs), e)):
            if not I.truth(ok):
                raise I.exc('FileExistsError', 'File exists')
            return None
        I.fs.log.append(('makedirs', e))
        return None

    def mkdir(I, a, k):
        e = path_arg(I, a[0])
        if I.decide(ISDIR(smt_int(I.fs.fs), e)):
            raise I.exc('FileExistsError', 'File exists')
        if not I.decide(z3.Function('fs.parent', S, B)(e)):
            raise I.exc('FileNotFoundError', 'No such file or directory')
        I.fs.log.append(('makedirs', e))
        return None
    for n, f in (('join', join), ('expanduser', expanduser), ('exists', isdir), ('isdir', isdir)):
        p.attrs[n] = Native('os.path.' + n, f)
    m.attrs['path'] = p
    m.attrs['environ'] = Environ()
    m.attrs['getenv'] = Native('os.getenv', env_get)
    m.attrs['makedirs'] = Native('os.makedirs', makedirs)
    m.attrs['mkdir'] = Native('os.mkdir', mkdir)
    m.attrs['sep'] = '/'
    I.natives['os'] = m
    I.natives['os.path'] = p


def smt_int(n):
    return z3.IntVal(n)
