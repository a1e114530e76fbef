F = 'kymatio/scattering1d/frontend/base_frontend.py'
C = 'kymatio/scattering1d/core/scattering1d.py'
PRE = '''import warnings; warnings.simplefilter('ignore')
import sys, numpy as np
from kymatio.numpy import Scattering1D
'''
BUGS = [
 dict(id='c02-crop-at-log2T', property='C02', file=F, old="                res = self.log2_stride\n            elif path['order']>0:",
      new="                res = self.log2_T\n            elif path['order']>0:",
      needs='local averaging with an explicit stride smaller than 2^floor(log2 T)',
      breaks='coefficients are cropped with the border indices of the wrong resolution',
      demo=PRE + '''
S = Scattering1D(J=5, shape=256, Q=4, stride=8)
y = S(np.random.RandomState(0).randn(256))
sys.exit(0 if y.shape[-1] == 32 else 1)
'''),
 dict(id='c02-phi-level', property='C02', file=C, old="            k1_J = max(log2_stride - k1, 0)\n            S_1_c = backend.cdgmm(U_1_hat, phi['levels'][k1])",
      new="            k1_J = max(log2_stride - k1, 0)\n            S_1_c = backend.cdgmm(U_1_hat, phi['levels'][k1]) if k1_J else U_1_hat",
      needs='a first-order wavelet whose scale reaches the stride',
      breaks='the low-pass is skipped for first-order paths that are already at the stride',
      demo=PRE + '''
x = np.random.RandomState(0).randn(512)
a = Scattering1D(J=6, shape=512, Q=2, T=16, stride=16)(x)
b = Scattering1D(J=6, shape=512, Q=2, T=16, stride=4)(x)[:, ::4]
sys.exit(0 if np.allclose(a, b, atol=1e-2*np.abs(b).max()) else 1)
'''),
 dict(id='c01-extra-paths', property='C01', file=C, old="                if j2 > j1:", new="                if j2 > k1 and not (k1 == j1 and j2 == j1):",
      needs='local averaging with a stride below some wavelet scales',
      breaks='second-order paths with j2 <= j1 are returned when the stride is small',
      demo=PRE + '''
S = Scattering1D(J=5, shape=256, Q=2, stride=2, out_type='list')
y = S(np.random.RandomState(0).randn(256))
sys.exit(0 if all(len(p['j']) < 2 or p['j'][0] < p['j'][1] for p in y) else 1)
'''),
 dict(id='c01-sort-order', property='C01', file=F, old="        S.sort(key=(lambda path: (path['order'], path['n'])))\n\n        if self.out_type",
      new="        if self.max_order > 1:\n            S.sort(key=(lambda path: (path['order'], path['n'][:1])) if self.average == 'local' else\n                (lambda path: (path['order'], path['j'], path['n'])))\n\n        if self.out_type",
      needs='global or no averaging, several wavelets per octave',
      breaks='coefficients are sorted by scale before n when averaging is not local',
      demo=PRE + '''
ok = True
for T in (0, 'global'):
    S = Scattering1D(J=5, shape=256, Q=(3, 2), T=T, out_type='list')
    n = [(p['order'], p['n']) for p in S(np.random.RandomState(0).randn(256))]
    ok = ok and n == sorted(n)
sys.exit(0 if ok else 1)
'''),
 dict(id='c01-label-j', property='C01', file=C, old="                        yield {'coef': S_2_r, 'j': (j1, j2), 'n': (n1, n2)}",
      new="                        yield {'coef': S_2_r, 'j': (j1, sub2_adj), 'n': (n1, n2)}",
      needs='local averaging with stride below 2^j2, list output',
      breaks='second-order paths are labelled with a clipped scale',
      demo=PRE + '''
S = Scattering1D(J=5, shape=256, Q=2, stride=4, out_type='list')
y = S(np.random.RandomState(0).randn(256))
sys.exit(0 if all(p['j'] == tuple((S.psi1_f, S.psi2_f)[i][m]['j'] for i, m in enumerate(p['n'])) for p in y) else 1)
'''),
]
