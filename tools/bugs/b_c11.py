F = 'kymatio/scattering3d/core/scattering3d.py'
PRE = '''import warnings; warnings.simplefilter('ignore')
import sys, numpy as np
ax = (-3, -2, -1)
def ref(fl, x, J, L, mo, rot, pw):
    X = np.fft.fftn(x, axes=ax)
    def U(F, l, j):
        ms = range(2 * l + 1) if rot else (0,)
        return np.sqrt(sum(np.abs(np.fft.ifftn(F * np.asarray(fl[l][j][m]), axes=ax)) ** 2 for m in ms))
    I = lambda u: np.stack([(u ** q).sum(ax) for q in pw], -1)
    out = []
    for l in range(L + 1):
        a, b = [], []
        for j in range(J + 1):
            u = U(X, l, j); a.append(I(u))
            for k in range(j + 1, J + 1):
                if mo > 1: b.append(I(U(np.fft.fftn(u, axes=ax), l, k)))
        out.append(np.stack(a + b, -2))
    return np.stack(out, -2)
def good(J, L, shape, mo=2, rot=True, pw=(1., 2.), bs=(2,), fe='numpy'):
    import importlib
    S = importlib.import_module('kymatio.' + fe).HarmonicScattering3D(J=J, L=L, shape=shape, max_order=mo, rotation_covariant=rot, integral_powers=pw)
    from kymatio.numpy import HarmonicScattering3D
    N = HarmonicScattering3D(J=J, L=L, shape=shape)
    x = np.random.RandomState(0).randn(*(bs + shape)).astype('float32')
    xx = x
    if fe == 'torch':
        import torch; xx = torch.from_numpy(x)
    g = np.asarray(S(xx)); w = ref(N.filters, x, J, L, mo, rot, pw)
    return g.shape == w.shape and bool((np.abs(g - w) <= 2e-3 * np.abs(w) + 1e-2).all())
'''
BUGS = [
 dict(id='c11-m-bound', property='C11', edits=[(F, "                        for m in range(len(filters[l][j_2])):", "                        for m in range(2 * min(l, L - 1) + 1 if L > 3 else len(filters[l][j_2])):")],
      needs='L above 3 and max_order 2', breaks='the second order of the highest harmonic misses its last two values of m',
      demo=PRE + 'sys.exit(0 if good(1, 4, (6, 6, 6)) and good(2, 2, (6, 5, 8)) else 1)'),
 dict(id='c11-carry', property='C11', edits=[(F, "                        U_2_m = modulus(U_2_c)", "                        U_2_m = modulus(U_2_c) if U_2_m is None else modulus_rotation(U_2_c, U_2_m)"), (F, "                    U_2_m = None\n", "                    U_2_m = None if rotation_covariant or j_2 == j_1 + 1 or j_1 > 0 else U_2_m\n")],
      needs='rotation_covariant=False, J >= 2, max_order 2', breaks='the modulus of (0, j2 > 1) accumulates the previous scale',
      demo=PRE + 'sys.exit(0 if good(2, 1, (6, 6, 6), rot=False) and good(3, 0, (8, 8, 8), rot=False) else 1)'),
 dict(id='c11-order', property='C11', edits=[(F, "        S = [x + y for x, y in zip(S, s_order_2)]", "        S = [x + (y if l % 2 == 0 or len(y) < 4 else y[:2] + y[2:][::-1]) for l, (x, y) in enumerate(zip(S, s_order_2))]")],
      needs='J >= 3, L >= 1', breaks='second-order paths of odd l come in the wrong order',
      demo=PRE + 'sys.exit(0 if good(3, 1, (8, 8, 8)) and good(2, 2, (6, 5, 8)) else 1)'),
]
