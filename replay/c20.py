"""the input, the transform's attributes and the result of a repeated call are unchanged by any sequence of calls"""
from common import *
import common, importlib, copy
from ref2d import tensor


def snap(v, depth=0):
    """comparable copy of an attribute (None: not compared)"""
    if isinstance(v, (int, float, str, bool, complex, type(None))):
        return ('s', v)
    if isinstance(v, np.generic):
        return ('s', v.item())
    if isinstance(v, np.ndarray) and v.dtype == object:
        return ('o', v.shape, repr(v.tolist()))
    if isinstance(v, np.ndarray):
        return ('a', v.shape, str(v.dtype), v.tobytes())
    if hasattr(v, 'detach') or type(v).__module__.startswith(('tensorflow', 'jax')) and hasattr(v, 'shape'):
        a = to_np(v)
        return ('a', a.shape, str(a.dtype), a.tobytes())
    if depth < 8:
        if isinstance(v, dict):
            return ('d', [(repr(k), snap(x, depth + 1)) for k, x in v.items()])
        if isinstance(v, (list, tuple)):
            return ('l', [snap(x, depth + 1) for x in v])
    return None


def state(S):
    out = {}
    for k, v in vars(S).items():
        if k.startswith('_parameters') or k.startswith('_forward') or k.startswith('_backward') or k == '_modules':
            continue
        s = snap(v)
        if s is not None:
            out[k] = s
    for k in ('J', 'Q', 'T', 'stride', 'log2_T', 'log2_stride', 'average', 'L', 'max_order', 'F', 'shape', 'out_type'):
        try:
            s = snap(getattr(S, k))
        except Exception:
            continue
        if s is not None:
            out['.' + k] = s
    return out


def flat(r):
    if isinstance(r, dict):
        return [(repr(k), to_np(v)) for k, v in r.items()]
    if isinstance(r, (list, tuple)):
        return [(repr({k: v for k, v in p.items() if k != 'coef'}), to_np(p['coef'])) for p in r]
    return [('', to_np(r))]


def compare(d, what, a, b):
    check(len(a) == len(b), lambda: d + ': %s returns %d coefficients instead of %d' % (what, len(b), len(a)))
    for (k, u), (l, v) in zip(a, b):
        check(k == l, lambda: d + ': %s labels a coefficient %s instead of %s' % (what, l, k))
        check(u.shape == v.shape and close(v, u, 1e-6), lambda: d + ': %s gives another value' % what)


def meta_snap(m):
    return {k: snap(np.asarray(v) if not isinstance(v, (list, tuple, dict)) else [np.asarray(x) if not isinstance(x, (tuple, str)) else x for x in v]) for k, v in m.items()}


def one(fe, cls, kw, size, r, batch=(2,)):
    d = common.CURRENT
    S = getattr(importlib.import_module('kymatio.' + fe), cls)(**kw)
    dt = r.choice(('float32', 'float64'))
    if fe != 'numpy':
        dt = 'float32'
    a = np.random.RandomState(r.randint(0, 99)).randn(*(batch + size)).astype(dt)
    if fe == 'numpy':
        k = r.choice(('plain', 'readonly', 'view'))
        if k == 'view':
            big = np.zeros(tuple(2 * n for n in a.shape), dt)
            big[tuple(slice(None, None, 2) for _ in a.shape)] = a
            x = big[tuple(slice(None, None, 2) for _ in a.shape)]
        else:
            x = a.copy()
            if k == 'readonly':
                x.setflags(write=False)
    else:
        x = tensor(fe, a)
    y = tensor(fe, a[..., ::-1].copy() * 2 + 1)
    first = flat(S(x))
    first = [(k, v.copy()) for k, v in first]
    check(np.array_equal(to_np(x), a), lambda: d + ': the input is modified')
    s0 = state(S)
    calls = [('scattering of another signal', lambda: S(y)), ('scattering', lambda: S(x))]
    for n in ('meta', 'output_size'):
        if hasattr(S, n):
            calls.append((n, getattr(S, n)))
    if hasattr(S, 'output_size'):
        calls.append(('output_size(detail=True)', lambda: S.output_size(detail=True)))
    m0 = meta_snap(S.meta()) if hasattr(S, 'meta') else None
    for _ in range(6):
        what, f = r.choice(calls)
        try:
            f()
        except NotImplementedError:
            calls = [c for c in calls if c[0] != what]
        s1 = state(S)
        for k in s0:
            check(k in s1 and s1[k] == s0[k], lambda: d + ': %s changes the attribute %s' % (what, k))
        check(np.array_equal(to_np(x), a), lambda: d + ': the input is modified by %s' % what)
        compare(d, 'scattering after %s' % what, first, flat(S(x)))
        if m0 is not None:
            check(meta_snap(S.meta()) == m0, lambda: d + ': meta() changes after %s' % what)


def fresh(fe, cls, kw, size, r):
    """the state after the first call is the state before it"""
    d = common.CURRENT
    S = getattr(importlib.import_module('kymatio.' + fe), cls)(**kw)
    s0 = state(S)
    x = tensor(fe, np.random.RandomState(3).randn(*((1,) + size)).astype('float32'))
    S(x)
    s1 = state(S)
    for k in s0:
        check(k in s1 and s1[k] == s0[k], lambda: d + ': the first call changes the attribute %s' % k)


def sweep():
    r = random.Random(SEED)
    while left() > 0:
        for fe in ('numpy', 'torch', 'jax', 'tensorflow', 'numpy'):
            N = r.choice((64, 37, 100))
            kw = dict(J=r.choice((2, 3, 4)), shape=N, Q=r.choice((1, 3, (2, 2))), T=r.choice((None, 0, 'global', 2, 16)), max_order=r.choice((1, 2, 2)), out_type=r.choice(('list', 'dict', 'array')))
            if kw['T'] == 0 and kw['out_type'] == 'array':
                kw['out_type'] = 'list'
            at('Scattering1D', fe, kw)
            fresh(fe, 'Scattering1D', kw, (N,), r)
            one(fe, 'Scattering1D', kw, (N,), r)
            yield
            sh = (r.randint(4, 17), r.randint(4, 17))
            kw = dict(J=r.choice((1, 2)), shape=sh, L=r.choice((1, 3)), max_order=r.choice((1, 2, 2)), out_type=r.choice(('list', 'array')), pre_pad=r.random() < .4)
            size = tuple((n // 2 ** kw['J'] + 2) * 2 ** kw['J'] for n in sh) if kw['pre_pad'] else sh
            at('Scattering2D', fe, kw)
            fresh(fe, 'Scattering2D', kw, size, r)
            one(fe, 'Scattering2D', kw, size, r)
            yield
            kw = dict(J=r.choice((0, 1, 2)), shape=tuple(r.randint(3, 7) for _ in range(3)), L=r.choice((0, 1, 2)), max_order=r.choice((1, 2)), rotation_covariant=r.random() < .6, integral_powers=r.choice(((0.5, 1., 2.), (1., 2.), (2.,))))
            at('HarmonicScattering3D', fe, kw)
            fresh(fe, 'HarmonicScattering3D', kw, kw['shape'], r)
            one(fe, 'HarmonicScattering3D', kw, kw['shape'], r)
            yield
            if fe in ('numpy', 'torch') and r.random() < .5:
                T = r.choice((None, 0, 'global', 8))
                F = r.choice((None, 0, 'global', 2))
                kw = dict(J=4, J_fr=2, shape=r.choice((128, 200)), Q=(r.choice((2, 4)), 1), T=T, F=F, format=r.choice(('time', 'joint')), out_type=r.choice(('list', 'dict', 'array')))
                if 0 in (T, F) or F == 'global':
                    kw['out_type'] = 'list' if kw['out_type'] == 'array' else kw['out_type']
                at('TimeFrequencyScattering', fe, kw)
                try:
                    fresh(fe, 'TimeFrequencyScattering', kw, (kw['shape'],), r)
                except (ValueError, AssertionError, NotImplementedError):
                    continue
                one(fe, 'TimeFrequencyScattering', kw, (kw['shape'],), r)
                yield


run(sweep)
