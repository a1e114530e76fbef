"""C20: transforms never modify their input or their own filters.

Frame obligations: during scattering(), meta() and output_size() every object reachable from the transform (attributes,
filter banks, padding, labels) that existed before the call has the same contents after it, no array handed to the
transform or held by it is written in place, and, after those calls, the same transform on the same input discharges the
same value specification as the first time.  The backend primitives are checked on the element level: they never write
into the arrays they are given."""
import z3
from vc import smt, tables
from vc.values import *
from vc.atensor import *
from vc.loops import subst_value
from vc.spec import match
from vc.harness import Case, expect_ok
from . import c02, c10, c11, c1d, c2d, c3d, c07, c08, c09


def reachable(roots):
    out, stack = {}, list(roots)
    while stack:
        x = stack.pop()
        if id(x) in out:
            continue
        if isinstance(x, VObj):
            out[id(x)] = x
            stack.extend(x.attrs.values())
        elif isinstance(x, VList):
            out[id(x)] = x
            stack.extend(x.items)
        elif isinstance(x, VDict):
            out[id(x)] = x
            stack.extend(list(x.items.values()) + list(x.segs))
        elif isinstance(x, (tuple, list)):
            stack.extend(x)
        elif isinstance(x, For):
            stack.extend(x.body)
        elif isinstance(x, Cond):
            for _, b in x.alts:
                stack.extend(b)
        elif isinstance(x, KV):
            stack.extend([x.k, x.v])
    return out


def same(I, a, b):
    """values are equal: True / False / z3 formula"""
    if a is b:
        return True
    if isinstance(a, VFunc) and isinstance(b, VFunc):
        return a.node is b.node
    if isinstance(a, AT) and isinstance(b, AT):
        c = dims_eq(I, a.shape, b.shape)
        return False if c is None or a.cx != b.cx else z3.And(a.e == b.e, *c)
    if isinstance(a, (VObj, VList, VDict)) and isinstance(b, (VObj, VList, VDict)) and not (isinstance(a, VObj) or isinstance(b, VObj)) \
            or isinstance(a, (int, float, str, bool, tuple, Sym, type(None))) and isinstance(b, (int, float, str, bool, tuple, Sym, type(None))):
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        t = I.eq(a, b)
        return t if isinstance(t, bool) else ex(t)
    return False


class Frame:
    """records the contents of every object of the transform before its first mutation"""

    def __init__(self, I, roots):
        self.I, self.roots = I, roots

    def __enter__(self):
        self.old = reachable(self.roots)
        self.snap = {}
        # copies taken at entry: the mutation log alone would miss objects mutated by a summarised loop
        for i, x in self.old.items():
            self.snap[i] = x.snapshot()
        self.I.protected = True
        return self

    def __exit__(self, *a):
        self.I.protected = False

    def check(self, what):
        I = self.I
        for i, x in self.old.items():
            s = self.snap[i]
            n = x.snapshot()
            if isinstance(x, VObj):
                for k, v in s[0].items():
                    if k not in n[0]:
                        I.oblige('%s leaves the attribute %s in place' % (what, k), False)
                    elif n[0][k] is not v:
                        I.oblige('%s leaves the attribute %s unchanged' % (what, k), same(I, v, n[0][k]), '%r -> %r' % (v, n[0][k]))
                I.oblige('%s keeps the class of %s' % (what, x.cls.name), s[1] is n[1])
            elif isinstance(x, VList):
                ok = len(s) == len(n) and all(p is q for p, q in zip(s, n))
                I.oblige('%s leaves the lists held by the transform unchanged' % what, True if ok else same(I, VList(s), x), '%r -> %r' % (s, n))
            else:
                a, b = s, n
                ok = list(a[0]) == list(b[0]) and all(a[0][k] is b[0][k] for k in a[0]) and len(a[1]) == len(b[1]) and all(p is q for p, q in zip(a[1], b[1]))
                if not ok:
                    o = VDict(a[0])
                    o.segs = list(a[1])
                    ok = same(I, o, x) if list(a[0]) == list(b[0]) else False
                I.oblige('%s leaves the dictionaries held by the transform unchanged' % what, ok, '%r -> %r' % (a, b))


def framed(I, what, o, extra, thunk):
    with Frame(I, [o] + list(extra)) as f:
        r = thunk()
        f.check(what)
    return r


def body_1d(fe, tk, ot, mo, st):
    def body(I):
        tables.install(I)
        I.what = 'values'
        o, kw = c1d.build(I, fe, tk, ot, mo, st)
        x = c02.make_input(I, I.params['N'])
        call = lambda v: I.call(I.getattr(o, 'scattering'), [v])
        first = framed(I, 'scattering', o, [], lambda: call(x))
        c02.check_output(I, '%s first call' % fe, first, c02.spec_paths(I, o, x, kw, tk), ot)
        framed(I, 'meta', o, [], lambda: I.call(I.getattr(o, 'meta'), []))
        framed(I, 'output_size', o, [], lambda: I.call(I.getattr(o, 'output_size'), []))
        framed(I, 'output_size(detail=True)', o, [], lambda: I.call(I.getattr(o, 'output_size'), [], {'detail': True}))
        y = AT(z3.Const('another_signal', T), x.shape, False)
        framed(I, 'scattering of another signal', o, [], lambda: call(y))
        again = framed(I, 'scattering (again)', o, [], lambda: call(x))
        c02.check_output(I, '%s second call' % fe, again, c02.spec_paths(I, o, x, kw, tk), ot)
    return body


def body_2d(fe, ot, mo, pp):
    def body(I):
        o, kw = c2d.build(I, fe, ot, mo, pp)
        M, N, J = I.params['M'], I.params['N'], I.params['J']
        x = c2d.make_image(I, *((c2d.padded(I, M, J), c2d.padded(I, N, J)) if pp else (M, N)))

        def one(what):
            got = framed(I, what, o, [], lambda: I.call(I.getattr(o, 'scattering'), [x]))
            want = c10.spec(I, x, mo, pp)
            nm = '%s %s' % (fe, what)
            if ot == 'list':
                if not isinstance(got, (VList, tuple)):
                    I.oblige(nm + ': returns a list', False, repr(got))
                    return
                match(I, nm, I.domain(got), want, c10.leaf_dict)
            elif c10.stack_obl(I, nm, got, x.shape[:-2], want[0][3].shape[-2:], 3):
                match(I, nm, got.segs, want, c10.leaf_tensor)
        one('scattering')
        y = AT(z3.Const('another_signal', T), x.shape, False)
        framed(I, 'scattering of another signal', o, [], lambda: I.call(I.getattr(o, 'scattering'), [y]))
        one('scattering (again)')
    return body


def body_3d(fe, mo, rot):
    def body(I):
        J0 = c11.body_of(fe, mo, rot)
        # the value specification of C11, twice, with a frame around each call
        build0, made = c3d.build, {}

        def build(I_, *a, **k):
            if 'o' not in made:
                made['o'] = build0(I_, *a, **k)
            return made['o']
        call0 = I.call
        g = c11.__dict__
        old = g['build']
        g['build'] = build
        try:
            for what in ('scattering', 'scattering (again)'):
                with Frame(I, [build(I, fe, mo, rot)[0]]) as f:
                    J0(I)
                    f.check(what)
        finally:
            g['build'] = old
    return body


def primitive(case, dim):
    """the primitive's body with only the frame obligations kept"""
    def body(I):
        bad = []
        orig = I.oblige

        def oblige(what, cond, detail='', *a, **k):
            if 'is not modified' in what:
                bad.append(what)
                return orig(what, cond, detail, *a, **k)
        I.oblige = oblige
        try:
            case.body(I)
        except Unsupported as e:
            if not bad:
                raise
        finally:
            I.oblige = orig
        I.oblige('the arrays handed to the primitive are not written', not bad, ', '.join(bad))
    return body


def protect(I):
    I.protected = False


def cases(tier):
    out = []
    for fe in ('numpy', 'torch', 'tensorflow', 'jax'):
        for tk in ('None', 'global', '0'):
            for ot in ('array', 'list', 'dict'):
                if (tk, ot) == ('0', 'array'):
                    continue
                for mo in (2, 1):
                    if (mo == 1 or fe != 'numpy') and ot == 'dict' and tier != 'thorough':
                        continue
                    out.append(Case('Scattering1D %s T=%s out_type=%s max_order=%d' % (fe, tk, ot, mo), body_1d(fe, tk, ot, mo, 'None'), [c1d.contracts_1d, protect]))
        for ot in ('array', 'list'):
            for mo in (2, 1):
                for pp in (False, True):
                    if fe != 'numpy' and mo == 1 and tier != 'thorough':
                        continue
                    out.append(Case('Scattering2D %s out_type=%s max_order=%d pre_pad=%s' % (fe, ot, mo, pp), body_2d(fe, ot, mo, pp), [c2d.contracts_2d, protect]))
        for mo in (2, 1):
            for rot in (True, False):
                out.append(Case('HarmonicScattering3D %s max_order=%d rotation_covariant=%s' % (fe, mo, rot), body_3d(fe, mo, rot), [c3d.contracts_3d, protect]))
    for dim, m in (('1D', c07), ('2D', c08), ('3D', c09)):
        for c in m.cases(tier):
            if c.bounded is None:
                out.append(Case('%s backend: %s' % (dim, c.name), primitive(c, dim), c.setup))
    return out
