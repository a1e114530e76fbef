from ref1d import *
import common
from kymatio.scattering1d.frontend.base_frontend import ScatteringBase1D
from kymatio.scattering1d.utils import parse_T


def build(**kw):
    S = ScatteringBase1D(**kw)
    S.build()
    return S


def where(kw):
    at('ScatteringBase1D', kw)
    return common.CURRENT


def rejected(kw, excs=(ValueError,), read='Q'):
    d = where(kw)
    try:
        S = build(**kw)
        getattr(S, read)
    except excs:
        return
    except Exception as e:
        raise Found('%s: raised %s instead of ValueError' % (d, type(e).__name__))
    raise Found('%s: accepted' % d)


def ok(kw, T, average, ls, Q=None):
    d = where(kw)
    S = build(**kw)
    check(S.T == T and S.average is average or S.average == average and S.average is not True and S.T == T, '%s: T=%s average=%r' % (d, S.T, S.average))
    check(S.log2_T == fl2(T), '%s: log2_T=%s' % (d, S.log2_T))
    check(S.log2_stride == ls and S.stride == 2 ** ls, '%s: stride=%s, expected %s' % (d, S.stride, 2 ** ls))
    if Q is not None:
        check(tuple(S.Q) == Q, '%s: Q=%s' % (d, S.Q))


def params():
    r = random.Random(SEED)
    i = 0
    while True:
        i += 1
        J = r.randint(1, 8)
        N = r.choice([2 ** J, 2 ** J + r.randint(0, 2 ** J), r.randint(2 ** J, 2 ** (J + 3))])
        k = dict(J=J, shape=N)
        ok(dict(k, T=None), 2 ** J, 'local', J)
        ok(dict(k, T='global'), 2 ** J, 'global', J)
        ok(dict(k, T=0), 2 ** J, False, J)
        ok(dict(k, T=0.), 2 ** J, False, J)
        for t in (1, N, r.randint(1, N), r.uniform(1, N), r.uniform(1, 2), 1.0, 2 ** r.randint(0, J), 3 * 2 ** max(0, J - 2)):
            if t > N:
                continue
            ok(dict(k, T=t), t, 'local', fl2(t))
            s = r.randint(0, fl2(t))
            ok(dict(k, T=t, stride=2 ** s), t, 'local', s)
            if s:
                ok(dict(k, T=t, oversampling=s), t, 'local', fl2(t) - s)
        for s in range(J + 1):
            ok(dict(k, stride=2 ** s), 2 ** J, 'local', s)
            ok(dict(k, oversampling=s), 2 ** J, 'local', J - s)
        ok(dict(k, oversampling=None), 2 ** J, 'local', J)
        for t in (N + 1, N + .5, 2 * N, 10 * N, .5, .999, 1e-6, -1, -.5, -N):
            rejected(dict(k, T=t))
            at('parse_T(%s, %s, %s)' % (t, J, N))
            check(raises(ValueError, parse_T, t, J, N), common.CURRENT + ' accepted or wrong exception')
        q, p = r.randint(1, 9), r.randint(1, 9)
        for Q, w in ((q, (q, 1)), ((q,), (q, 1)), ((q, p), (q, p)), (1, (1, 1))):
            ok(dict(k, Q=Q), 2 ** J, 'local', J, w)
        for Q in (0, -1, (0, 1), (1, 0), (0,), (2, -1), 1.5, 0.5, [2], [2, 1], (3, 0)):
            rejected(dict(k, Q=Q))
        rejected(dict(k, Q=(1, 1, 1)), (ValueError, NotImplementedError))
        for s in (3, 5, 6, 2.0, 1.5, 12, 0, -1, -2, 4.):
            rejected(dict(k, stride=s), read='stride')
        for s in (1, 2, 4, 2 ** J):
            rejected(dict(k, stride=s, T='global'), read='stride')
            rejected(dict(k, stride=s, T=0), read='stride')
        for o in (-1, -2, 1.0, .5, 2.0):
            rejected(dict(k, oversampling=o))
        for s in ((N, N), [N], float(N), str(N), None, (), {N}):
            if s == ():
                continue
            rejected(dict(k, shape=s))
        S = build(**dict(k, shape=(N,)))
        S2 = build(**k)
        check(S.shape == (N,) == S2.shape and S._N_padded == S2._N_padded, 'shape=(%d,) and %d give different transforms' % (N, N))
        yield


class Rec:
    def __init__(self, b):
        self.b, self.log = b, []

    def __getattr__(self, k):
        self.log.append(k)
        return getattr(self.b, k)


def raises_early(S, x, d):
    """ValueError, and nothing computed before"""
    rec = Rec(S.backend)
    S.backend = rec
    check(raises(ValueError, S, x), d + ': does not raise ValueError')
    done = [k for k in rec.log if k not in ('shape', 'input_checks', 'reshape_input', '_np', '_fft', 'name')]
    check(not done, d + ': ' + ', '.join(done[:4]) + ' ran before the rejection')


def call():
    for fe in ('numpy', 'torch', 'jax', 'tensorflow'):
        for T in (None, 'global', 0, 5):
            for out in ('matrix', 'Array', '', None, 'arrays', 'LIST'):
                S = make(fe, J=3, shape=32, T=T, out_type=out)
                d = 'Scattering1D %s T=%r out_type=%r' % (fe, T, out)
                at(d)
                raises_early(S, tensor(fe, np.zeros(32)), d)
                yield
        at(fe, 'T=0 array')
        S = make(fe, J=3, shape=32, T=0, out_type='array')
        raises_early(S, tensor(fe, np.zeros(32)), fe + ': T=0 with out_type=array')
        for out in ('list', 'array', 'dict'):
            at(fe, '0-d')
            S = make(fe, J=3, shape=32, out_type=out)
            raises_early(S, tensor(fe, np.zeros(())), fe + ' out_type=%s: 0-dimensional input' % out)
        for kw in (dict(stride=3), dict(stride=2.), dict(stride=2, T='global'), dict(stride=2, T=0, out_type='list')):
            at(fe, kw)
            S = make(fe, J=3, shape=32, **kw)
            check(raises(ValueError, S, tensor(fe, np.zeros(32))), fe + ' %s: calling does not raise ValueError' % kw)
            yield


def first():
    g = params()
    for _ in range(8):
        next(g)
        yield


def bank():
    # the parameters reach the filter bank
    for J, N, Q, T in ((4, 64, 2, None), (4, 64, (3, 2), 5), (5, 100, (4,), 'global'), (5, 100, 1, 0)):
        at('Scattering1D', J, N, Q, T)
        S = make('numpy', J=J, shape=N, Q=Q, T=T, out_type='list')
        from kymatio.scattering1d.filter_bank import scattering_filter_factory
        q = (Q, 1) if isinstance(Q, int) else Q + (1,) if len(Q) == 1 else Q
        Tv = 2 ** J if T in (None, 'global', 0) else T
        f = scattering_filter_factory(S._N_padded, J, q, Tv, S.filterbank, np.sum)
        check(close(S.phi_f['levels'][0], f[0]['levels'][0]), 'Scattering1D(%s): low-pass not built with T=%s' % ((J, N, Q, T), Tv))
        check(len(S.psi1_f) == len(f[1]) and len(S.psi2_f) == len(f[2]), 'Scattering1D(%s): filter bank not built with Q=%s' % ((J, N, Q, T), q))
        yield


run(first, call, bank, params)
