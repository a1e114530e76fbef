T1='kymatio/scattering1d/frontend/torch_frontend.py'; T2='kymatio/scattering2d/frontend/torch_frontend.py'; T3='kymatio/scattering3d/frontend/torch_frontend.py'
PRE = '''import sys, warnings; warnings.simplefilter('ignore')
import numpy as np, torch
'''
BUGS = [
 dict(id='c13-device-cache', property='C13', edits=[(T1, '''        n = 0

        for level in range(len(self.phi_f["levels"])):
            self.phi_f["levels"][level] = buffer_dict["tensor" + str(n)]
            n += 1

        for psi_f in self.psi1_f:
            for level in range(len(psi_f["levels"])):
                psi_f["levels"][level] = buffer_dict''', '''        n = 0

        for level in range(len(self.phi_f["levels"])):
            self.phi_f["levels"][level] = buffer_dict["tensor" + str(n)]
            n += 1

        for psi_f in self.psi1_f:
            for level in range(len(psi_f["levels"])):
                # nothing to do for filters that have not been moved
                if psi_f["levels"][level].device == buffer_dict["tensor" + str(n)].device:
                    n += 1
                    continue
                psi_f["levels"][level] = buffer_dict''')],
  needs='moving the module to another dtype (same device) before computing', breaks='the first-order filters used are no longer the current buffers',
  demo=PRE + """
from kymatio.torch import Scattering1D
S = Scattering1D(J=3, shape=64).double()
for b in S.buffers():
    b.mul_(0)
x = torch.randn(64).double()
try:
    sys.exit(0 if float(S(x).abs().max()) == 0 else 1)
except TypeError:
    sys.exit(1)
"""),
 dict(id='c13-persistent', property='C13', edits=[(T2, "        self.register_buffer('tensor' + str(n), current_filter)\n", "        # only the full-resolution version of a filter has to be saved\n        self.register_buffer('tensor' + str(n), current_filter,\n                             persistent=v.shape == (self._M_padded, self._N_padded))\n")],
  needs='saving and loading the state dict of a 2D module with J >= 2', breaks='lower-resolution filters are missing from the state dict',
  demo=PRE + """
from kymatio.torch import Scattering2D
S = Scattering2D(J=2, shape=(16, 16), L=2)
sys.exit(0 if len(S.state_dict()) == len(list(S.buffers())) else 1)
"""),
 dict(id='c13-jtfs-lowpass', property='C13', edits=[(T1, '''        n = super(TimeFrequencyScatteringTorch, self).load_filters()

        for level in range(len(self.filters_fr[0]["levels"])):
            self.filters_fr[0]["levels"][level] = buffer_dict["tensor" + str(n)]
            n += 1
''', '''        n = super(TimeFrequencyScatteringTorch, self).load_filters()

        # phi_fr is registered first, at every level
        n += len(self.filters_fr[0]["levels"])
''')], needs='a module converted to another dtype', breaks='the low-pass along log-frequency is not reloaded',
  demo=PRE + """
from kymatio.torch import TimeFrequencyScattering as T
S = T(J=4, J_fr=2, shape=256, Q=(4, 1), out_type='list').double()
n = len(S.phi_f['levels']) + sum(len(p['levels']) for b in (S.psi1_f, S.psi2_f) for p in b)
d = dict(S.named_buffers())
S.scattering(torch.randn(256).double()) if False else None
S.load_filters()
sys.exit(0 if S.filters_fr[0]['levels'][0] is d['tensor%d' % n] else 1)
"""),
 dict(id='c13-3d-string-order', property='C13', edits=[(T3, '''        for k in range(len(self.filters)):
            self.filters[k] = buffer_dict['tensor' + str(k)]
''', '''        # the buffers are sorted by name, the last one is the Gaussian
        for k, name in enumerate(sorted(buffer_dict)[:len(self.filters)]):
            self.filters[k] = buffer_dict[name]
''')], needs='a 3D transform with L >= 10', breaks="'tensor10' is used as the filters of order 2",
  demo=PRE + """
from kymatio.torch import HarmonicScattering3D as T
from kymatio.numpy import HarmonicScattering3D as N
x = np.random.RandomState(0).randn(6, 6, 6).astype('float32')
kw = dict(J=0, shape=(6, 6, 6), L=11, max_order=1)
try:
    a, b = T(**kw)(torch.from_numpy(x)).numpy(), N(**kw)(x)
except Exception:
    sys.exit(1)
sys.exit(0 if np.allclose(a, b, rtol=1e-2, atol=1e-3 * abs(b).max()) else 1)
"""),
 dict(id='c13-2d-share', property='C13', edits=[(T2, '''            for psi_level in self.psi[j]['levels']:
                psis[j]['levels'].append(self.load_single_filter(n, buffer_dict))
                n = n + 1
''', '''            for psi_level in self.psi[j]['levels']:
                psis[j]['levels'].append(self.load_single_filter(n, buffer_dict))
                n = n + 1
            # every angle of a scale has the same number of levels
            if len(psis[j]['levels']) != len(psis[j - j % self.L]['levels']):
                n = n - len(psis[j]['levels']) + len(psis[j - j % self.L]['levels'])
''')], needs='never', breaks='nothing', demo=PRE + "sys.exit(0)"),
 dict(id='c13-unsorted-name', property='C13', edits=[(T1, '''        for psi_f in self.psi2_f:
            for level in range(len(psi_f["levels"])):
                psi_f["levels"][level] = (
                    torch.from_numpy(psi_f["levels"][level]).float().view(-1, 1)
                )
                self.register_buffer("tensor" + str(n), psi_f["levels"][level])
                n += 1
        return n
''', '''        for psi_f in self.psi2_f:
            for level in range(len(psi_f["levels"])):
                psi_f["levels"][level] = (
                    torch.from_numpy(psi_f["levels"][level]).float().view(-1, 1)
                )
                # second-order filters are only used at order 2
                self.register_buffer("tensor" + str(n), psi_f["levels"][level],
                                     persistent=self.max_order > 1)
                n += 1
        return n
''')], needs='a transform of order 1 whose state dict is loaded in one of order 2, or compared', breaks='second-order filters are dropped from the state dict',
  demo=PRE + """
from kymatio.torch import Scattering1D
S = Scattering1D(J=3, shape=64, max_order=1)
sys.exit(0 if len(S.state_dict()) == len(list(S.buffers())) else 1)
"""),
]
BUGS = [b for b in BUGS if b['id'] not in ('c13-2d-share',)]
