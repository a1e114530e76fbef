"""C12: leading batch axes are preserved and signals do not mix (1D, 2D, 3D; every frontend and out_type)."""
import z3
from vc import smt
from vc.values import *
from vc.atensor import AT, AStack, T, Block
from vc.harness import Case
from . import c02, c1d, c2d, c3d


def leaves(I, v, out):
    """every tensor in a (possibly symbolic) result"""
    if isinstance(v, (AT, AStack)):
        out.append(v)
    elif isinstance(v, VDict):
        if 'coef' in v.items:
            leaves(I, v.items['coef'], out)
        else:
            for x in list(v.items.values()) + list(v.segs):
                leaves(I, x, out)
    elif isinstance(v, KV):
        leaves(I, v.v, out)
    elif isinstance(v, (VList, tuple)):
        for x in I.domain(v):
            leaves(I, x, out)
    elif isinstance(v, For):
        for x in v.body:
            leaves(I, x, out)
    elif isinstance(v, Cond):
        for _, b in v.alts:
            for x in b:
                leaves(I, x, out)
    elif isinstance(v, Phi):
        for _, x in v.alts:
            leaves(I, x, out)
    elif isinstance(v, Poison):
        leaves(I, I.resolve(v) if hasattr(I, 'resolve') else v, out)
    else:
        raise Unsupported('no tensor in %r' % (v,))


def symbols(v):
    """free tensor constants of the per-signal value terms"""
    out, seen = set(), set()

    def term(e):
        st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == T:
                out.add(str(x))
            st.extend(x.children())
    if isinstance(v, AT):
        term(v.e)
    else:
        acc = []
        for s in v.segs:
            leaves(None, s, acc)
        for a in acc:
            term(a.e)
    return out


def check_batch(I, nm, got, x, trailing):
    out = []
    leaves(I, got, out)
    I.oblige(nm + ': returns coefficients', len(out) > 0)
    for t in out:
        ok = len(t.shape) == 1 + trailing and isinstance(t.shape[0], Block) and t.shape[0].name == 'B' and not any(isinstance(d, (Block, Rep)) for d in t.shape[1:])
        I.oblige('%s: the leading axes of the output are those of the input, followed by %d coefficient axes' % (nm, trailing), ok, repr(t.shape))
        s = symbols(t) - {'spec_u'}
        s = {a for a in s if not a.startswith('acc')}
        I.oblige(nm + ': each coefficient is a function of the signal at its own batch index', s == {'x'}, str(s))


def body_1d(fe, tk, ot, mo, st):
    def body(I):
        o, kw = c1d.build(I, fe, tk, ot, mo, st)
        x = c02.make_input(I, I.params['N'])
        got = I.call(I.getattr(o, 'scattering'), [x])
        check_batch(I, '%s 1D %s' % (fe, ot), got, x, 2 if ot == 'array' else 1)
    return body


def body_2d(fe, ot, mo, pp):
    def body(I):
        o, kw = c2d.build(I, fe, ot, mo, pp)
        M, N, J = I.params['M'], I.params['N'], I.params['J']
        x = c2d.make_image(I, *((c2d.padded(I, M, J), c2d.padded(I, N, J)) if pp else (M, N)))
        got = I.call(I.getattr(o, 'scattering'), [x])
        check_batch(I, '%s 2D %s' % (fe, ot), got, x, 3 if ot == 'array' else 2)
    return body


def body_3d(fe, mo, rot):
    def body(I):
        o, kw = c3d.build(I, fe, mo, rot)
        x = c3d.make_volume(I, I.params['shape'])
        got = I.call(I.getattr(o, 'scattering'), [x])
        check_batch(I, '%s 3D' % fe, got, x, 3)
    return body


SHARED = ['c07', 'c08', 'c09']


def cases(tier):
    out = []
    for fe in ('numpy', 'torch', 'tensorflow', 'jax'):
        for tk in ('None', 'global', '0', 'sym'):
            for ot in ('array', 'list', 'dict'):
                if (tk, ot) == ('0', 'array') or (tk == 'sym' and tier != 'thorough' and fe != 'numpy'):
                    continue
                for mo in (2, 1):
                    out.append(Case('Scattering1D %s T=%s out_type=%s max_order=%d' % (fe, tk, ot, mo), body_1d(fe, tk, ot, mo, 'None'), [c1d.contracts_1d]))
        for ot in ('array', 'list'):
            for mo in (2, 1):
                for pp in (False, True):
                    out.append(Case('Scattering2D %s out_type=%s max_order=%d pre_pad=%s' % (fe, ot, mo, pp), body_2d(fe, ot, mo, pp), [c2d.contracts_2d]))
        for mo in (2, 1):
            for rot in (True, False):
                out.append(Case('HarmonicScattering3D %s max_order=%d rotation_covariant=%s' % (fe, mo, rot), body_3d(fe, mo, rot), [c3d.contracts_3d]))
    from contracts import c07, c08, c09
    return out + c07.cases(tier) + c08.cases(tier) + c09.cases(tier)
