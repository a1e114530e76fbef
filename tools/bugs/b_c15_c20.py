T = 'kymatio/scattering1d/core/timefrequency_scattering.py'
B = 'kymatio/scattering1d/frontend/base_frontend.py'
C1 = 'kymatio/scattering1d/core/scattering1d.py'
C2 = 'kymatio/scattering2d/core/scattering2d.py'
PRE = '''import warnings; warnings.simplefilter('ignore')
import sys, numpy as np
from kymatio.numpy import Scattering1D, Scattering2D, HarmonicScattering3D
from kymatio.scattering1d.frontend.numpy_frontend import TimeFrequencyScatteringNumPy as TF
x = np.random.RandomState(0).randn(4096)
'''
BUGS = [
 dict(id='c15-row-stride', property='C15', file=T, old="            n1_stride = 2**log2_stride_fr\n", new="            n1_stride = 2**log2_F\n",
      needs='stride_fr smaller than F', breaks='locally averaged paths lose rows: they keep the rows of the default stride',
      demo=PRE + '''
S = TF(J=8, J_fr=3, shape=4096, Q=8, stride_fr=2, out_type='list', format='joint')
ok = True
for p in S(x)[1:]:
    if p['spin'] != 0:
        ok = ok and p['n1_stride'] == 2 and p['coef'].shape[-2] == -(-p['n1_max'] // 2)
sys.exit(0 if ok else 1)
'''),
 dict(id='c15-n1-max', property='C15', file=T, old="'n1_max': len(Y_2_list)}", new="'n1_max': min(n2, len(U_1_hats)) or len(Y_2_list)}",
      needs='Q2 > 1 or few first-order wavelets below a second-order one', breaks='number of rows of a second-order path',
      demo=PRE + '''
S = TF(J=8, J_fr=3, shape=4096, Q=(8, 2), out_type='list', format='joint')
ok = all(p['n1_max'] == sum(f['j'] < S.psi2_f[p['n'][0]]['j'] for f in S.psi1_f) for p in S(x)[1:] if len(p['n']) == 2)
sys.exit(0 if ok else 1)
'''),
 dict(id='c15-spin-filter', property='C15', file=T, old="        psis = filter(lambda psi: psi['xi']>=0, psis)", new="        psis = filter(lambda psi: psi['xi'] + psi['sigma'] > 0, psis)",
      needs='several frequential wavelets per octave, so that some have xi < sigma', breaks='first-order paths with negative spin appear',
      demo=PRE + '''
bad = 0
for Q_fr in (1, 2, 4, 6, 8):
    S = TF(J=8, J_fr=4, shape=4096, Q=8, Q_fr=Q_fr, out_type='list', format='joint')
    n = sum(f['xi'] >= 0 for f in S.filters_fr[1])
    first = [p for p in S(x)[1:] if len(p['n']) == 1]
    if len(first) != n or any(p['spin'] < 0 for p in first): bad = 1
sys.exit(bad)
'''),
 dict(id='c15-zeroth-stride', property='C15', file=B, old="            res = self.log2_stride if self.average else 0\n            path['coef'] = self.backend.unpad(\n                path['coef'], self.ind_start[res], self.ind_end[res])\n        path['coef'] = self.backend.reshape_output(\n            path['coef'], batch_shape, n_kept_dims=1)\n        S = [path]\n\n        # First and second order\n        for path in S_gen:\n            # Temporal",
      new="            res = self.log2_T if self.average else 0\n            path['coef'] = self.backend.unpad(\n                path['coef'], self.ind_start[res], self.ind_end[res])\n        path['coef'] = self.backend.reshape_output(\n            path['coef'], batch_shape, n_kept_dims=1)\n        S = [path]\n\n        # First and second order\n        for path in S_gen:\n            # Temporal",
      needs='stride different from T', breaks='the zeroth order is cropped with the indices of another resolution',
      demo=PRE + '''
S = TF(J=8, J_fr=3, shape=4096, Q=8, stride=64, out_type='list', format='joint')
sys.exit(0 if S(x)[0]['coef'].shape[-1] == 64 else 1)
'''),
 dict(id='c15-time-row', property='C15', file=T, old='        split_path["n"] = (n1,) + split_path["n"]', new='        split_path["n"] = (i << max(split_path["j_fr"][-1], 0),) + split_path["n"]',
      needs='rows kept with another stride than 2**j_fr', breaks='n1 label of rows in time format',
      demo=PRE + '''
S = TF(J=8, J_fr=3, shape=4096, Q=8, stride_fr=4, out_type='list', format='time')
bad = any(p['n'][0] % 4 for p in S(x) if len(p['n']) > 1 and p['spin'] != 0)
sys.exit(1 if bad else 0)
'''),
 dict(id='c15-freq-level', property='C15', file=T, old="        Y_fr_sub = backend.subsample_fourier(Y_fr_hat, 2 ** k_fr)", new="        Y_fr_sub = backend.subsample_fourier(Y_fr_hat, 2 ** (k_fr if spin else j_fr))",
      needs='stride_fr smaller than 2**J_fr', breaks='the low-pass frequential path is subsampled by its own scale and not by the frequency stride: its rows no longer match the announced stride',
      demo=PRE + '''
S = TF(J=8, J_fr=4, shape=4096, Q=8, stride_fr=2, out_type='list', format='joint')
ok = all(p['coef'].shape[-2] == -(-p['n1_max'] // p['n1_stride']) for p in S(x)[1:])
sys.exit(0 if ok else 1)
'''),
 dict(id='c20-phi-scale', property='C20', file=C1, old="    stride = 2**log2_stride\n", new="    stride = 2**log2_stride\n    if average_local and log2_stride < log2_T:\n        # the output is oversampled\n        phi['j'] = log2_stride\n",
      needs='a stride below T', breaks="the scale of the transform's own low-pass filter is overwritten by a call",
      demo=PRE + '''
S = Scattering1D(J=6, shape=4096, Q=4, stride=8)
j = S.phi_f['j']
S(x)
sys.exit(0 if S.phi_f['j'] == j else 1)
'''),
 dict(id='c20-meta-prune', property='C20', file=B, old="                    meta[key][meta['n'][:, order]==n, order] = psi[key]\n        return meta\n\n    def output_size",
      new="                    meta[key][meta['n'][:, order]==n, order] = psi[key]\n        # second-order wavelets after the last one in use are not needed\n        last = max((path['n'][1] for path in S if len(path['n']) == 2), default=-1)\n        del filterbanks[-1][max(last, len(self.psi1_f)) + 1:]\n        return meta\n\n    def output_size",
      needs='more second-order than first-order wavelets and none in use (T small), then meta()', breaks='meta() removes wavelets from the transform',
      demo=PRE + '''
bad = 0
for mo in (1, 2):
    for Q in ((1, 12), (4, 16)):
        for J in (1, 2, 3):
            try:
                S = Scattering1D(J=J, shape=4096, Q=Q, max_order=mo)
            except Exception:
                continue
            n = len(S.psi1_f), len(S.psi2_f)
            S.meta()
            bad |= n != (len(S.psi1_f), len(S.psi2_f))
sys.exit(bad)
'''),
 dict(id='c20-levels-trim', property='C20', file=C2, old="        if max_order < 2:\n            continue\n", new="        if max_order < 2:\n            del psi[n1]['levels'][1:]\n            continue\n",
      needs='max_order=1 and J >= 3', breaks='a call removes the lower resolutions of the wavelets', 
      demo=PRE + '''
S = Scattering2D(J=4, shape=(32, 32), L=2, max_order=1)
n = [len(p['levels']) for p in S.psi]
S(np.random.RandomState(0).randn(32, 32))
sys.exit(0 if n == [len(p['levels']) for p in S.psi] else 1)
'''),
 dict(id='c20-3d-pop', property='C20', file='kymatio/scattering3d/backend/numpy_backend.py', old="        integrals = []\n        for i_q, q in enumerate(integral_powers):\n", new="        integrals = []\n        if 0 in integral_powers and isinstance(integral_powers, list):\n            # the integral to the power 0 is a constant\n            input_array = input_array + 0 * integral_powers.pop(integral_powers.index(0))\n            integral_powers.insert(0, 0)\n        for i_q, q in enumerate(integral_powers):\n",
      needs='integral_powers given as a list containing 0 after another power', breaks='reorders the list of powers of the transform', 
      demo=PRE + '''
p = [2., 0, 1.]
S = HarmonicScattering3D(J=1, shape=(8, 8, 8), L=1, integral_powers=p)
S(np.random.RandomState(0).randn(8, 8, 8))
sys.exit(0 if list(S.integral_powers) == [2., 0, 1.] else 1)
'''),
]
