"""C21: 2D and 3D inputs of the wrong kind or size are rejected, right ones accepted."""
import z3
from vc import smt
from vc.values import *
from vc.atensor import AT, T, Block
from vc.smt import pow2
from vc.harness import Case, expect_raise, expect_ok
from . import c2d, c3d
from .c2d import padded, make_image
from .c3d import make_volume
from .c1d import sym_int


def real_checks(be):
    """run the repository's own input_checks instead of its contract"""
    mod, cls = {'numpy': ('kymatio.backend.numpy_backend', 'NumpyBackend'), 'jax': ('kymatio.backend.jax_backend', 'JaxBackend'),
                'torch': ('kymatio.backend.torch_backend', 'TorchBackend'),
                'tensorflow': ('kymatio.backend.tensorflow_backend', 'TensorFlowBackend')}[be.name]
    if be.name != 'tensorflow':
        be.p_input_checks = lambda I, x: I.call(I.getattr(I.get(mod, cls), 'input_checks'), [x])
    return be


def junk(I, kind):
    return {'None': None, 'string': 'abc', 'int': Sym(z3.Int('v'), 'int'), 'float': Sym(z3.Real('v'), 'float'), 'list': VList([]),
            'nested list': VList([VList([0.0])]), 'dict': VDict(), 'tuple': (1.0, 2.0), 'object': VObj(VClass('Other', [I.object_cls])), 'bool': True}[kind]


def make(I, dim, fe, **k):
    o, kw = (c2d if dim == 2 else c3d).build(I, fe, **k)
    real_checks(o.attrs['backend'])
    return o


def dims_of(I, dim, pre_pad=False):
    if dim == 3:
        return I.params['shape']
    M, N, J = I.params['M'], I.params['N'], I.params['J']
    return (padded(I, M, J), padded(I, N, J)) if pre_pad else (M, N)


def wrong_kind(dim, fe, kind, **k):
    def body(I):
        o = make(I, dim, fe, **k)
        expect_raise(I, '%s input: TypeError' % kind, lambda: I.call(o, [junk(I, kind)]), ['TypeError'])
        expect_raise(I, '%s input to scattering(): TypeError' % kind, lambda: I.call(I.getattr(o, 'scattering'), [junk(I, kind)]), ['TypeError'])
    return body


def low_rank(dim, fe, rank, **k):
    def body(I):
        o = make(I, dim, fe, **k)
        d = [sym_int(I, 'd%d' % i, 0) for i in range(rank)]
        x = AT(z3.Const('x', T), tuple(d), False)
        expect_raise(I, 'rank %d input: RuntimeError' % rank, lambda: I.call(o, [x]), ['RuntimeError'])
    return body


def wrong_size(dim, fe, **k):
    def body(I):
        o = make(I, dim, fe, **k)
        want = dims_of(I, dim, k.get('pre_pad'))
        got = [sym_int(I, 's%d' % i, 0) for i in range(dim)]
        I.assume(z3.Or(*[ints(a) != ints(b) for a, b in zip(got, want)]))
        r, s = z3.Ints('batch_rank batch_size')
        I.assume(z3.And(r >= 0, s >= 0))
        x = AT(z3.Const('x', T), (Block('B', r, s),) + tuple(got), False)
        expect_raise(I, 'another size: RuntimeError', lambda: I.call(o, [x]), ['RuntimeError'])
    return body


def accepts(dim, fe, **k):
    def body(I):
        o = make(I, dim, fe, **k)
        want = dims_of(I, dim, k.get('pre_pad'))
        x = (make_image if dim == 2 else make_volume)(I, *(want if dim == 2 else (want,)))
        if k.get('pre_pad'):
            n = o.attrs['backend'].log.count('pad')
        expect_ok(I, 'input of the configured size is accepted', lambda: I.call(o, [x]))
        if k.get('pre_pad'):
            I.oblige('no padding is applied to a pre-padded input', o.attrs['backend'].log.count('pad') == n)
    return body


def bad_out_type(fe, v, pre_pad):
    def body(I):
        o = make(I, 2, fe, out_type=v, pre_pad=pre_pad)
        want = dims_of(I, 2, pre_pad)
        expect_raise(I, 'unknown out_type: RuntimeError or ValueError', lambda: I.call(o, [make_image(I, *want)]), ['RuntimeError', 'ValueError'])
    return body


def too_small(fe, pre_pad):
    def body(I):
        J, M, N = sym_int(I, 'J', 1), sym_int(I, 'M', 1), sym_int(I, 'N', 1)
        I.assume(z3.Or(M.e < pow2(J.e), N.e < pow2(J.e)))
        expect_raise(I, 'an image smaller than 2^J is rejected at construction',
                     lambda: c2d.build(I, fe, 'array', 2, pre_pad, shape=(M, N), J=J), ['RuntimeError', 'ValueError'])
    return body


def cases(tier):
    out = []
    kinds = ['None', 'string', 'int', 'float', 'list', 'nested list', 'dict', 'tuple', 'object', 'bool']
    for fe in ('numpy', 'torch', 'tensorflow', 'jax'):
        for dim, S in ((2, [c2d.contracts_2d]), (3, [c3d.contracts_3d])):
            nm = '%dD %s ' % (dim, fe)
            for kd in (['None', 'object'] if fe == 'tensorflow' else kinds):
                out.append(Case(nm + kd, wrong_kind(dim, fe, kd), S))
            vs = [dict(pre_pad=p, out_type=o) for p in (False, True) for o in ('array', 'list')] if dim == 2 else [dict(rotation=r) for r in (True, False)]
            for k in vs:
                t = ' '.join('%s=%s' % q for q in k.items())
                for r in range(dim):
                    out.append(Case(nm + 'rank %d %s' % (r, t), low_rank(dim, fe, r, **k), S))
                out.append(Case(nm + 'wrong size ' + t, wrong_size(dim, fe, **k), S))
                out.append(Case(nm + 'right size ' + t, accepts(dim, fe, **k), S))
            if dim == 2:
                for p in (False, True):
                    for v in ('dict', '', None, 'Array', 'arraylist'):
                        out.append(Case(nm + 'out_type=%r pre_pad=%s' % (v, p), bad_out_type(fe, v, p), S))
                    out.append(Case(nm + 'image below 2^J pre_pad=%s' % p, too_small(fe, p), S))
    return out
