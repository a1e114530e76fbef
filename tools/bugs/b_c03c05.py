U = 'kymatio/scattering1d/utils.py'
F = 'kymatio/scattering1d/frontend/base_frontend.py'
PRE = '''import warnings; warnings.simplefilter('ignore')
import sys, numpy as np
from kymatio.numpy import Scattering1D
from kymatio.scattering1d.utils import compute_padding, compute_border_indices, parse_T
'''
BUGS = [
 dict(id='c03-border-J', property='C03', file=U, old="    for j in range(1, max(log2_T, J) + 1):", new="    for j in range(1, max(log2_T - 1, J) + 1):",
      needs='T at least 2^(J+1)', breaks='the crop interval at the stride is missing for T much larger than 2^J',
      demo=PRE + '''
try:
    y = Scattering1D(J=3, shape=256, T=64)(np.ones(256))
except KeyError:
    sys.exit(1)
sys.exit(0 if y.shape[-1] == 4 else 1)
'''),
 dict(id='c03-pad-limit', property='C03', file=U, old="    if max(pad_left, pad_right) >= N_input:", new="    if min(pad_left, pad_right) >= N_input:",
      needs='an odd number of padding samples of which the larger half equals the signal length', breaks='a pad as long as the signal is accepted',
      demo=PRE + '''
try:
    compute_padding(32, 11)
except ValueError:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id='c03-end-index', property='C03', file=U, old="        ind_end[j] = (ind_end[j - 1] // 2) + (ind_end[j - 1] % 2)",
      new="        ind_end[j] = ind_start[j] + -(-(ind_end[j - 1] - ind_start[j - 1]) // 2)",
      needs='a left pad that is odd at some resolution and an even number of samples kept there', breaks='the crop interval ends one sample too late',
      demo=PRE + '''
s, e = compute_border_indices(4, 4, 13, 13 + 50)
sys.exit(0 if all(s[j] == -(-13 // 2**j) and e[j] == -(-63 // 2**j) for j in range(5)) else 1)
'''),
 dict(id='c05-stride-check', property='C05', file=F, old="        if math.floor(log2_stride) != math.ceil(log2_stride):",
      new="        if math.floor(log2_stride) != round(log2_stride):",
      needs='a stride slightly above a power of two such as 5', breaks='a stride that is no power of two is accepted and rounded down',
      demo=PRE + '''
bad = 0
for s in (3, 5, 6, 7, 9):
    try:
        Scattering1D(J=4, shape=256, stride=s)(np.ones(256)); bad = 1
    except ValueError:
        pass
sys.exit(bad)
'''),
 dict(id='c05-t-zero', property='C05', file=U, old="    elif T == 0:\n        return 2 ** J, False\n    elif T < 1:", new="    elif T < 1 and not T:\n        return 2 ** J, False\n    elif T <= 0 or 0 < T <= 2. ** -J:",
      needs='a fractional T between 2^-J and 1', breaks='T in (0, 1) is accepted',
      demo=PRE + '''
try:
    Scattering1D(J=3, shape=64, T=0.6)
except ValueError:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id='c05-log2T-round', property='C05', file=F, old="        return int(math.floor(math.log2(self.T)))", new="        return int(math.ceil(math.log2(self.T)) if self.T > 2 ** self.J else\n            math.floor(math.log2(self.T)))",
      needs='T above 2^J and not a power of two', breaks='the default stride is larger than 2^floor(log2 T)',
      demo=PRE + '''
S = Scattering1D(J=3, shape=256, T=20)
sys.exit(0 if S.stride == 16 and S(np.ones(256)).shape[-1] == 16 else 1)
'''),
 dict(id='c05-dict-0d', property='C05', file=F, old="        ScatteringBase1D._check_runtime_args(self)\n        ScatteringBase1D._check_input(self, x)\n\n        x_shape = self.backend.shape(x)\n        batch_shape",
      new="        ScatteringBase1D._check_runtime_args(self)\n        if not self.average == 'local' or self.out_type != 'dict':\n            ScatteringBase1D._check_input(self, x)\n\n        x_shape = self.backend.shape(x)\n        batch_shape",
      needs='0-dimensional input with out_type dict', breaks='a 0-dimensional input fails with another error or is accepted',
      demo=PRE + '''
try:
    Scattering1D(J=3, shape=64, out_type='dict')(np.array(1.))
except ValueError as e:
    sys.exit(0 if 'at least one axis' in str(e) else 1)
except Exception:
    sys.exit(1)
sys.exit(1)
'''),
]
