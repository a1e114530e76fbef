from ref1d import *
import common


def eqn(a, b):
    return np.asarray(a).shape == np.asarray(b).shape and np.allclose(np.asarray(a, float), np.asarray(b, float), equal_nan=True, rtol=1e-12, atol=0)


def one(fe, c, mo):
    at('Scattering1D', fe, c, 'max_order=%d' % mo)
    d = common.CURRENT
    try:
        S = make(fe, J=c['J'], shape=c['N'], Q=c['Q'], T=c['T'], stride=c['stride'], max_order=mo, out_type='list')
    except AssertionError:
        return
    m = S.meta()
    r = S(tensor(fe, np.random.RandomState(3).randn(c['N'])))
    keys = [tuple(p['n']) for p in r]
    check([tuple(k) for k in m['key']] == keys, lambda: d + ": meta()['key'] %s..., transform returned %s..." % (m['key'][:6], keys[:6]))
    check(list(np.asarray(m['order'])) == [len(k) for k in keys], d + ": meta()['order'] differs")
    banks = (S.psi1_f, S.psi2_f)
    pad = lambda v: list(v) + [np.nan] * (mo - len(v))
    check(eqn(m['n'], [pad(k) for k in keys]), d + ": meta()['n'] differs")
    for key in ('xi', 'sigma', 'j'):
        w = [pad([banks[i][n][key] for i, n in enumerate(k)]) for k in keys]
        if not eqn(m[key], w):
            i = [i for i in range(len(w)) if np.asarray(m[key]).shape[0] <= i or not eqn(m[key][i], w[i])]
            raise Found("%s: meta()['%s'] differs%s" % (d, key, ' at coefficient %s: %s, expected %s' % (keys[i[0]], np.asarray(m[key])[i[0]] if len(m[key]) > i[0] else None, w[i[0]]) if i else ''))
    check(S.output_size() == len(keys), d + ': output_size() = %s, %d coefficients returned' % (S.output_size(), len(keys)))
    det = [sum(len(k) == o for k in keys) for o in range(mo + 1)]
    got = list(S.output_size(detail=True))
    check(got == det or (got == det[:-1] and det[-1] == 0), d + ': output_size(detail=True) = %s, expected %s' % (got, det))


def sweep():
    r = random.Random(SEED)
    for i, c in enumerate(configs()):
        for fe in (('numpy', 'torch', 'jax', 'tensorflow') if i < 2 else ('numpy',)):
            for mo in (1, 2):
                one(fe, c, mo)
                yield


run(sweep)
