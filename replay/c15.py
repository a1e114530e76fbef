"""independent reference of joint time-frequency scattering, computed with numpy from the filters of the transform"""
from ref1d import *
import common, importlib
FES = ('numpy', 'torch', 'jax', 'tensorflow')


def subs(Y, k):
    return Y.reshape(Y.shape[:-1] + (2 ** k, Y.shape[-1] // 2 ** k)).mean(-2) if k else Y


sw = lambda a: np.swapaxes(a, -1, -2)


def ref(S, x, kw):
    J, Jf, N = kw['J'], kw['J_fr'], kw['shape']
    m, mf = mode(kw['T']), mode(kw['F'])
    ls = fl2(2 ** J if m != 'local' or kw['T'] is None else kw['T']) if kw['stride'] is None else fl2(kw['stride'])
    lsf = fl2(2 ** Jf if mf != 'local' or kw['F'] is None else kw['F']) if kw['stride_fr'] is None else fl2(kw['stride_fr'])
    P, pl, pr = S._N_padded, S.pad_left, S.pad_right
    xp = np.pad(x, [(0, 0)] * (x.ndim - 1) + [(pl, pr)], mode='reflect')
    X = np.fft.fft(xp)

    def crop(y, res):
        return y[..., -(-pl // 2 ** res):-(-(pl + N) // 2 ** res)]
    phi = lambda k: level(S.phi_f, k)
    if m == 'local':
        S0 = crop(np.real(np.fft.ifft(subs(X * phi(0), ls))), ls)
    elif m == 'global':
        S0 = xp.sum(-1, keepdims=True)
    else:
        S0 = crop(xp, 0)
    out = [(dict(n=(), j=(), order=0), S0)]
    U = []
    for p in S.psi1_f:
        j1 = p['j']
        k1 = min(j1, ls) if m == 'local' else j1
        U.append((j1, k1, np.fft.fft(np.abs(np.fft.ifft(subs(X * level(p, 0), k1))))))
    rows1 = [np.real(np.fft.ifft(subs(u * phi(k1), ls - k1))) for j1, k1, u in U]
    groups = [(None, np.stack(rows1, -2))]
    for n2, p in enumerate(S.psi2_f):
        j2 = p['j']
        r = [np.fft.ifft(subs(u * level(p, k1), (min(j2, ls) if m == 'local' else j2) - k1)) for j1, k1, u in U if j1 < j2]
        if r:
            groups.append((n2, np.stack(r, -2)))
    PF = S.filters_fr[0]
    NF = S._N_padded_fr
    for n2, Y in groups:
        nmax = Y.shape[-2]
        Z = np.fft.fft(np.concatenate([sw(Y), np.zeros(sw(Y).shape[:-1] + (NF - nmax,), Y.dtype)], -1))
        for nf, q in enumerate(S.filters_fr[1]):
            s = int(np.sign(q['xi']))
            if n2 is None and s < 0:
                continue
            jf = q['j']
            kf = min(jf, lsf) if mf == 'local' else jf
            C = sw(np.abs(np.fft.ifft(subs(Z * level(q, 0), kf))))
            if m == 'global':
                C = C.sum(-1, keepdims=True)
            elif m == 'local' and n2 is not None:
                k = min(S.psi2_f[n2]['j'], ls)
                C = np.real(np.fft.ifft(subs(np.fft.fft(C) * phi(k), ls - k)))
            st = 2 ** kf
            if s and mf == 'global':
                C, st = C.sum(-2, keepdims=True), nmax
            elif s and mf == 'local':
                k = min(jf, lsf)
                C, st = sw(np.real(np.fft.ifft(subs(np.fft.fft(sw(C)) * level(PF, k), lsf - k)))), 2 ** lsf
            if not (kw['format'] == 'joint' and kw['out_type'] == 'array'):
                C = C[..., :1 + nmax // st, :]
            if m != 'global':
                C = crop(C, S.psi2_f[n2]['j'] if (m is False and n2 is not None) else ls)
            lab = dict(n=(nf,) if n2 is None else (n2, nf), j=(-1,) if n2 is None else (-1, S.psi2_f[n2]['j']), order=1 if n2 is None else 2, n_fr=(nf,), j_fr=(jf,), spin=s)
            if kw['format'] == 'joint':
                out.append((dict(lab, n1_max=nmax, n1_stride=st), C))
            else:
                for i, n1 in enumerate(range(0, nmax, st)):
                    out.append((dict(lab, n=(n1,) + lab['n']), C[..., i, :]))
    return out


def compare(fe, kw, batch=()):
    at('TimeFrequencyScattering', fe, kw, 'input shape', batch + (kw['shape'],))
    d = common.CURRENT
    A = dict(kw)
    x = np.random.RandomState(kw['shape']).randn(*(batch + (kw['shape'],)))
    Sn = importlib.import_module('kymatio.numpy').TimeFrequencyScattering(**A)
    check(Sn._N_padded_fr >= len(Sn.psi1_f) and Sn._N_padded_fr % 2 ** kw['J_fr'] == 0, lambda: d + ': %d padded rows for %d wavelets' % (Sn._N_padded_fr, len(Sn.psi1_f)))
    S = Sn if fe == 'numpy' else getattr(importlib.import_module('kymatio.' + fe), 'TimeFrequencyScattering')(**A)
    bad = kw['out_type'] == 'array' and (kw['T'] == 0 or (kw['F'] == 0 and kw['format'] == 'joint'))
    if fe == 'numpy':
        X = x
    elif fe == 'torch':
        import torch
        X = torch.from_numpy(x.astype('float32'))
    else:
        X = x.astype('float32')
    try:
        g = S(X)
    except ValueError:
        if bad:
            return
        raise
    check(not bad, lambda: d + ': not rejected')
    w = ref(Sn, x, kw)
    tol = 1e-8 if fe == 'numpy' else 2e-3
    top = max(np.abs(c).max() for _, c in w if c.size)
    same = lambda a, b: a.shape == b.shape and (a.size == 0 or np.abs(a - b).max() <= tol * top)
    if kw['out_type'] == 'array':
        if kw['format'] == 'joint':
            w = w[1:]
        r = np.stack([c for _, c in w], -3 if kw['format'] == 'joint' else -2)
        check(same(to_np(g), r), lambda: d + ': array of shape %s differs from the cascade (shape %s)' % (to_np(g).shape, r.shape))
    elif kw['out_type'] == 'dict':
        check(list(g) == [l['n'] for l, _ in w], lambda: d + ': keys %s' % list(g)[:8])
        for l, c in w:
            check(same(to_np(g[l['n']]), c), lambda: d + ': path %s of shape %s differs from the cascade (shape %s)' % (l['n'], to_np(g[l['n']]).shape, c.shape))
    else:
        check(len(g) == len(w), lambda: d + ': %d paths instead of %d' % (len(g), len(w)))
        for p, (l, c) in zip(g, w):
            for k, v in l.items():
                check(k in p and p[k] == v, lambda: d + ': path %s labelled %s=%s instead of %s' % (l['n'], k, p.get(k), v))
            check(same(to_np(p['coef']), c), lambda: d + ': path %s of shape %s differs from the cascade (shape %s)' % (l['n'], to_np(p['coef']).shape, c.shape))


def sweep():
    r = random.Random(SEED)
    base = dict(J=4, J_fr=2, Q=4, shape=128, T=None, F=None, stride=None, stride_fr=None, Q_fr=1, out_type='list', format='joint')
    first = [dict(), dict(format='time'), dict(T=0), dict(T=0, format='time'), dict(T='global'), dict(F=0), dict(F='global'), dict(F='global', format='time'), dict(stride=2), dict(stride_fr=1),
             dict(stride=1, stride_fr=2, format='time'), dict(T=5, F=2), dict(J=8, Q=2, J_fr=4, F=1, shape=512), dict(J_fr=4, F=1), dict(Q_fr=2, J_fr=3), dict(out_type='array'), dict(out_type='array', format='time'), dict(out_type='dict'),
             dict(out_type='array', T=0), dict(out_type='array', F=0), dict(out_type='array', T='global'), dict(J=5, Q=(8, 2), shape=300)]
    for fe in FES:
        for k in first:
            compare(fe, dict(base, **k), (2,) if fe == 'torch' else ())
            yield
    while True:
        J = r.choice((2, 3, 4, 5, 6))
        Q = r.choice((1, 2, 4, 8, (4, 2), (3, 1)))
        nin = (J + 1) * (Q if isinstance(Q, int) else Q[0])
        kw = dict(base, J=J, Q=Q, J_fr=r.choice((1, 2, 3, 4)), shape=r.choice((2 ** J, 2 ** J + 3, 100 + 2 ** J, 256)), out_type=r.choice(('list', 'list', 'dict', 'array')), format=r.choice(('joint', 'time')), Q_fr=r.choice((1, 1, 2)))
        kw['T'] = r.choice((None, None, 0, 'global', 1, 2, 5.5))
        if isinstance(kw['T'], float) or kw['T'] in (2, 5.5):
            kw['T'] = min(kw['T'], kw['shape'])
        kw['F'] = r.choice([None, None, 0, 'global'] + [f for f in (1, 2, 3, 5) if f <= min(2 ** kw['J_fr'], nin)])
        if kw['format'] == 'joint' and kw['out_type'] == 'array' and kw['F'] == 'global':
            continue
        if mode(kw['T']) == 'local' and r.random() < .5:
            kw['stride'] = 2 ** r.randint(0, fl2(2 ** J if kw['T'] is None else kw['T']))
        if mode(kw['F']) == 'local' and r.random() < .5:
            kw['stride_fr'] = 2 ** r.randint(0, fl2(2 ** kw['J_fr'] if kw['F'] is None else kw['F']))
        compare(r.choice(FES + ('numpy', 'numpy')), kw, r.choice(((), (), (2,), (2, 3))))
        yield


run(sweep)
