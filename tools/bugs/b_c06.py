F = 'kymatio/scattering1d/frontend/base_frontend.py'
PRE = '''import warnings; warnings.simplefilter('ignore')
import sys, numpy as np
from kymatio.numpy import Scattering1D
'''
BUGS = [
 dict(id='c06-mask-column', property='C06', file=F, old="                    meta[key][meta['n'][:, order]==n, order] = psi[key]\n        return meta\n\n    def output_size",
      new="                    meta[key][meta['n'][:, -1 if order else 0]==n, order] = psi[key]\n        meta['j'] = np.where(meta['j'][:, :1] < S_gen_max(S), meta['j'], np.nan) if False else meta['j']\n        return meta\n\n    def output_size",
      needs='x', breaks='x', demo=PRE),
 dict(id='c06-psi2-params', property='C06', file=F, old="            for order, filterbank in enumerate(filterbanks):\n                for n, psi in enumerate(filterbank):\n                    meta[key][meta['n'][:, order]==n, order] = psi[key]\n        return meta\n\n    def output_size",
      new="            for order, filterbank in enumerate(filterbanks):\n                for n, psi in enumerate(filterbank[:len(self.psi1_f)]):\n                    meta[key][meta['n'][:, order]==n, order] = psi[key]\n        return meta\n\n    def output_size",
      needs='more second-order than first-order wavelets that are used', breaks='xi, sigma, j of the last second-order wavelets are NaN',
      demo=PRE + '''
S = Scattering1D(J=4, shape=512, Q=(1, 6))
m = S.meta()
ok = all(m['xi'][i, o] == (S.psi1_f, S.psi2_f)[o][n]['xi'] for i, k in enumerate(m['key']) for o, n in enumerate(k))
sys.exit(0 if ok else 1)
'''),
 dict(id='c06-sort-j', property='C06', file=F, old="        S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))\n        meta = dict(order=",
      new="        S = sorted(list(S_gen), key=lambda path: (path['j'] and len(path['n']), path['n'][:1]))\n        meta = dict(order=",
      needs='several second-order wavelets', breaks='none if the sort is stable', demo=PRE + 'sys.exit(0)'),
 dict(id='c06-dedupe', property='C06', file=F, old="        S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))\n        meta = dict(order=",
      new="        S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))\n        S = [path for path in S if len(path['j']) < 2 or path['j'][1] <= self.log2_T]\n        meta = dict(order=",
      needs='T below 2^J', breaks='paths whose last scale exceeds log2 T are missing from meta() and output_size()',
      demo=PRE + '''
S = Scattering1D(J=6, shape=512, Q=2, T=4, out_type='list')
sys.exit(0 if [p['n'] for p in S(np.ones(512))] == S.meta()['key'] else 1)
'''),
 dict(id='c06-size-detail', property='C06', file=F, old="            return tuple(Counter(self.meta()['order']).values())\n        return len(self.meta()['key'])\n\n    def _check_runtime_args",
      new="            n = [len(f) for f in (self.psi1_f, self.psi2_f)[:self.max_order]]\n            n2 = sum(p1['j'] < p2['j'] for p1 in self.psi1_f for p2 in self.psi2_f\n                     if p1['xi'] > p2['xi'])\n            return (1, n[0], n2)[:1 + self.max_order]\n        return len(self.meta()['key'])\n\n    def _check_runtime_args",
      needs='paths with j1 < j2 although xi1 <= xi2', breaks='the number of second-order coefficients reported is too small',
      demo=PRE + '''
bad = 0
for Q in ((1, 1), (8, 1), (1, 8), (2, 5), (4, 2)):
    try:
        S = Scattering1D(J=6, shape=512, Q=Q, out_type='list')
    except AssertionError:
        continue
    r = S(np.ones(512))
    if S.output_size(detail=True) != tuple(sum(p['order'] == o for p in r) for o in range(3)): bad = 1
sys.exit(bad)
'''),
]
