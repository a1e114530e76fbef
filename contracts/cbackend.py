"""Shared pieces of the backend contracts (C07, C08, C09): symbolic inputs and specified outputs at element level."""
import z3
from vc import smt, etlib
from vc import etensor as E
from vc.etensor import ET, Cx, R0, R1, et_obl, symbolic, make, re_, im_
from vc.values import *
from vc.harness import Case, expect_raise, expect_ok
from .c1d import sym_int

FWS = ('numpy', 'jax', 'torch', 'tensorflow')
CLS = {'numpy': 'NumpyBackend', 'jax': 'JaxBackend', 'torch': 'TorchBackend', 'tensorflow': 'TensorFlowBackend'}


def setup(I):
    etlib.install(I)


def backend(I, fw, dim):
    return I.get('kymatio.scattering%dd.backend.%s_backend' % (dim, fw), CLS[fw] + '%dD' % dim)


def call(I, be, name, *a, **k):
    return I.call(I.getattr(be, name), list(a), k)


def block(I, name='B', rank=None):
    r, s = z3.Ints('%s_rank %s_size' % (name, name))
    I.assume(z3.And(r >= 0, s >= 1))
    if rank is not None:
        I.assume(r == rank)
    else:
        I.assume(z3.Implies(r == 0, s == 1))
    return Block(name, r, s)


def tensor(I, fw, name, shape, cx, dbl=False):
    """arbitrary real / complex signal in the representation of the framework; .val(ix) is its value"""
    shape = tuple(shape)
    if fw == 'torch':
        t = symbolic(name, shape + ((2,) if cx else (1,)), 'float64' if dbl else 'float32', fw)
        rd = t.reader()
        t.val = (lambda ix: Cx(rd(list(ix) + [smt.iv(0)]), rd(list(ix) + [smt.iv(1)]))) if cx else rd
    else:
        dt = ('complex' if cx else 'float') + {(True, False): '64', (True, True): '128', (False, False): '32', (False, True): '64'}[(cx, dbl)]
        t = symbolic(name, shape, dt, fw)
        t.val = t.reader()
    return t


def signal(I, fw, name, shape, dbl=False):
    """real signal without the trailing unit axis (the input of pad)"""
    t = symbolic(name, tuple(shape), 'float64' if dbl else 'float32', fw)
    t.val = t.reader()
    return t


def result(fw, shape, fn, cx, unit=True):
    """specified output with value fn(indices)"""
    shape = tuple(shape)
    if fw == 'torch':
        if cx:
            def g(ix):
                e = fn(list(ix[:-1]))
                return E.eif(z3.simplify(ix[-1]) == 0, re_(e), im_(e))
            return make(shape + (2,), g, 'float32', fw)
        return make(shape + ((1,) if unit else ()), fn, 'float32', fw)
    return make(shape, fn, 'complex64' if cx else 'float32', fw)


def mul(a, b):
    return I_.binop('Mult', a, b)


def times(I, a, b):
    return mk(ints(a) * ints(b), 'int')


def run_obl(I, name, thunk, want):
    got = expect_ok(I, name + ': accepted', thunk)
    et_obl(I, name, got, want)


def unchanged(I, name, *ts):
    """the arrays given to the primitive are not written"""
    for t in ts:
        t.store.owner = '%s: argument' % name
