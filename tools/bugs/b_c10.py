F = 'kymatio/scattering2d/core/scattering2d.py'
B = 'kymatio/scattering2d/frontend/base_frontend.py'
PRE = '''import warnings; warnings.simplefilter('ignore')
import sys, numpy as np
from kymatio.numpy import Scattering2D
def fold(f, k):
    M, N = f.shape[-2:]
    return f.reshape(f.shape[:-2] + (k, M // k, k, N // k)).mean((-4, -2))
def ref(S, x, J, pre=False):
    M, N = x.shape
    a, b = ((M // 2**J) + 2) * 2**J - M, ((N // 2**J) + 2) * 2**J - N
    P = np.pad(x, [(a // 2, (a + 1) // 2), (b // 2, (b + 1) // 2)], mode='reflect')
    X = np.fft.fft2(P)
    lv = lambda f, r: np.asarray(f['levels'][r], float)
    low = lambda F, r: np.real(np.fft.ifft2(fold(F * lv(S.phi, r), 2**(J - r))))[1:-1, 1:-1]
    o, o1, o2 = [((), low(X, 0))], [], []
    for n1, p in enumerate(S.psi):
        U = np.fft.fft2(abs(np.fft.ifft2(fold(X * lv(p, 0), 2**p['j']))))
        o1.append(((n1,), low(U, p['j'])))
        for n2, q in enumerate(S.psi):
            if q['j'] > p['j']:
                V = np.fft.fft2(abs(np.fft.ifft2(fold(U * lv(q, p['j']), 2**(q['j'] - p['j'])))))
                o2.append(((n1, n2), low(V, q['j'])))
    return o + o1 + o2
def good(J, shape, L):
    S = Scattering2D(J=J, shape=shape, L=L, out_type='list')
    x = np.random.RandomState(0).randn(*shape)
    r, w = S(x), ref(S, x, J)
    return ([p['n'] for p in r] == [k for k, _ in w] and [p['theta'] for p in r] == [tuple(S.psi[n]['theta'] for n in k) for k, _ in w]
            and all(p['coef'].shape == v.shape and np.allclose(p['coef'], v, atol=1e-9) for p, (k, v) in zip(r, w)))
'''
BUGS = [
 dict(id='c10-psi2-level', property='C10', file=F, old="            U_2_c = cdgmm(U_1_c, psi[n2]['levels'][j1])", new="            U_2_c = cdgmm(U_1_c, psi[n2]['levels'][min(j1, len(psi[n2]['levels']) - 1)])",
      needs='nothing: equivalent when the bank holds every level', breaks='none', demo=PRE + 'sys.exit(0)'),
 dict(id='c10-skip-dc', property='C10', edits=[(F, "            U_2_c = cdgmm(U_1_c, psi[n2]['levels'][j1])\n", "            level = psi[n2]['levels'][j1]\n            if j1 > 0 and theta1 > theta2 and j2 == J - 1:\n                level = psi[n2]['levels'][j1 - 1][..., ::2, ::2]\n            U_2_c = cdgmm(U_1_c, level)\n")],
      needs='J >= 3, a path with j1 >= 1, j2 = J - 1 and theta1 > theta2', breaks='the second-order filter is decimated in frequency and no longer matches the resolution of the signal',
      demo=PRE + 'sys.exit(0 if good(3, (24, 17), 2) and good(3, (16, 16), 2) else 1)'),
 dict(id='c10-theta-order', property='C10', file=F, old="                            'theta': (theta1, theta2)})", new="                            'theta': tuple(sorted((theta1, theta2)))})",
      needs='a second-order path with theta1 > theta2', breaks='orientation labels of such paths are swapped',
      demo=PRE + 'sys.exit(0 if good(2, (12, 12), 3) else 1)'),
 dict(id='c10-pad-parity', property='C10', file='kymatio/scattering2d/utils.py', old="    N_padded = ((N + 2 ** J) // 2 ** J + 1) * 2 ** J", new="    # leave at least half a block on either side\n    N_padded = ((N + 2 ** J + 2 ** J // 2) // 2 ** J + 1) * 2 ** J",
      needs='a width whose remainder modulo 2^J is at least 2^(J-1)', breaks='the output is wider than floor(N / 2^J)',
      demo=PRE + 'sys.exit(0 if good(3, (16, 23), 2) and good(2, (9, 30), 2) else 1)'),
]
BUGS = [b for b in BUGS if b['id'] not in ('c10-psi2-level', 'c10-skip-dc')]
