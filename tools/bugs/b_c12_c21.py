N2 = 'kymatio/scattering2d/frontend/numpy_frontend.py'
T2 = 'kymatio/scattering2d/frontend/torch_frontend.py'
TF2 = 'kymatio/scattering2d/frontend/tensorflow_frontend.py'
T3 = 'kymatio/scattering3d/frontend/torch_frontend.py'
B2 = 'kymatio/scattering2d/frontend/base_frontend.py'
PRE = '''import warnings; warnings.simplefilter('ignore')
import sys, numpy as np
'''
BUGS = [
 dict(id='c12-chunks', property='C12', edits=[(N2, "        S = scattering2d(input, self.pad, self.unpad, self.backend, self.J,\n                self.L, self.phi, self.psi, self.max_order, self.out_type)\n",
"        run = lambda x: scattering2d(x, self.pad, self.unpad, self.backend, self.J,\n                self.L, self.phi, self.psi, self.max_order, self.out_type)\n\n        if self.out_type == 'array' and len(input) > 32:\n            # bound the memory needed by large batches\n            n_chunks = -(-len(input) // 32)\n            S = self.backend._np.concatenate([run(input[i::n_chunks]) for i in range(n_chunks)])\n        else:\n            S = run(input)\n")],
      needs='more than 32 images in the batch and out_type array', breaks='the outputs of a large batch come out in another order than the inputs',
      demo=PRE + '''
from kymatio.numpy import Scattering2D
S = Scattering2D(J=1, shape=(4, 5), L=2)
x = np.random.RandomState(0).randn(5, 9, 4, 5)
y = S(x)
sys.exit(0 if all(np.allclose(y[i, j], S(x[i, j])) for i in range(5) for j in range(9)) else 1)
'''),
 dict(id='c12-rev-list', property='C12', edits=[(T2, "            new_shape = batch_shape + scattering_shape\n", "            new_shape = batch_shape[::-1] + scattering_shape\n")],
      needs="out_type='list' and at least two leading axes of different sizes", breaks='the leading axes of every coefficient are reversed',
      demo=PRE + '''
import torch
from kymatio.torch import Scattering2D
S = Scattering2D(J=1, shape=(4, 5), L=2, out_type='list')
x = torch.randn(2, 3, 4, 5)
y = S(x)
sys.exit(0 if all(p['coef'].shape[:2] == (2, 3) for p in y) and torch.allclose(y[1]['coef'][1, 0], S(x[1, 0])[1]['coef'], atol=1e-4) else 1)
'''),
 dict(id='c12-1d-center', property='C12', edits=[('kymatio/scattering1d/frontend/base_frontend.py', "        filters = [self.phi_f, self.psi1_f, self.psi2_f][:(1+self.max_order)]\n\n        # Path generator", None)],
      needs='', breaks='', demo=''),
 dict(id='c21-comma', property='C21', edits=[(TF2, "            if not self.out_type in ('array', 'list'):", "            if not self.out_type in ('array' 'list'):")],
      needs="an out_type that is a substring of 'arraylist', e.g. '' or 'arraylist'", breaks='an unknown out_type is accepted',
      demo=PRE + """
from kymatio.tensorflow import Scattering2D
bad = 0
for o in ('', 'arraylist', 'list '):
    try:
        Scattering2D(J=1, shape=(4, 6), L=2, out_type=o)(np.zeros((4, 6), 'float32')); bad = 1
    except (RuntimeError, ValueError):
        pass
sys.exit(bad)
"""),
 dict(id='c21-3d-axes', property='C21', edits=[(T3, "        if (input_array.shape[-1] != self.O or input_array.shape[-2] != self.N\n            or input_array.shape[-3] != self.M):", "        if (input_array.shape[-1] != self.M or input_array.shape[-2] != self.N\n            or input_array.shape[-3] != self.O):")],
      needs='a volume whose first and last axes differ', breaks='the right input is rejected',
      demo=PRE + """
import torch
from kymatio.torch import HarmonicScattering3D
S = HarmonicScattering3D(J=1, shape=(4, 5, 6), L=1)
S(torch.zeros(1, 4, 5, 6))
"""),
 dict(id='c21-small-prepad', property='C21', edits=[(B2, "        if 2 ** self.J > M or 2 ** self.J > N:", "        if 2 ** self.J > min(M, N) and not (self.pre_pad and 2 ** self.J <= max(M, N)):")],
      needs='pre_pad=True and exactly one dimension below 2^J', breaks='construction does not reject the image',
      demo=PRE + '''
from kymatio.numpy import Scattering2D
try:
    Scattering2D(J=3, shape=(16, 6), L=1, pre_pad=True); sys.exit(1)
except RuntimeError:
    sys.exit(0)
'''),
]
BUGS = [b for b in BUGS if b['id'] != 'c12-1d-center']
