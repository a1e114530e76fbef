E='kymatio/frontend/entry.py'; S='kymatio/frontend/sklearn_frontend.py'
K1='kymatio/scattering1d/frontend/keras_frontend.py'; K2='kymatio/scattering2d/frontend/keras_frontend.py'; C='kymatio/caching.py'
PRE = '''import sys, warnings; warnings.simplefilter('ignore')
import numpy as np
'''
BUGS = [
 dict(id='c16-falsy-kwargs', property='C16', edits=[(E, "            self.__init__(*args, **kwargs)\n", "            self.__init__(*args, **{k: v for k, v in kwargs.items()\n                                    if v or not hasattr(v, '__len__')})\n")],
  needs="an empty tuple or string passed by keyword through the generic entry point", breaks='an argument is dropped instead of forwarded (and rejected)',
  demo=PRE + """
from kymatio import Scattering1D
from kymatio.numpy import Scattering1D as Direct
def out(cls):
    try:
        return cls(J=2, shape=(64,), out_type='').out_type
    except Exception as e:
        return type(e)
sys.exit(0 if out(Scattering1D) == out(Direct) else 1)
"""),
 dict(id='c16-sklearn-order', property='C16', edits=[(S, "        Sx = Sx.reshape(batch_shape + (-1,))\n", "        if Sx.ndim == len(self.shape) + 2:\n            Sx = Sx.reshape(batch_shape + (-1,))\n        else:\n            Sx = Sx.swapaxes(1, 2).reshape(batch_shape + (-1,))\n")],
  needs='a 3D transformer (whose output has no spatial axes: batch, path, l, power)', breaks='the scikit-learn transformer returns the values in another order',
  demo=PRE + """
from kymatio.sklearn import HarmonicScattering3D
from kymatio.numpy import HarmonicScattering3D as Direct, Scattering2D as D2
from kymatio.sklearn import Scattering2D as K2
ok = True
x = np.random.RandomState(0).randn(2, 8, 8, 8).astype('float32')
a = HarmonicScattering3D(J=1, shape=(8, 8, 8), L=2).predict(x.reshape(2, -1)); b = Direct(J=1, shape=(8, 8, 8), L=2)(x)
ok = ok and np.allclose(a, b.reshape(2, -1))
x = np.random.RandomState(0).randn(2, 8, 8)
ok = ok and np.allclose(K2(J=1, shape=(8, 8)).predict(x.reshape(2, -1)), D2(J=1, shape=(8, 8))(x).reshape(2, -1))
sys.exit(0 if ok else 1)
"""),
 dict(id='c16-keras-ln', property='C16', edits=[(K1, "            ln = self.S.ind_end[res] - self.S.ind_start[res]\n", "            ln = -(-input_shape[-1] // 2 ** res)\n"), ],
  needs='nothing', breaks='', demo=PRE + "sys.exit(0)"),
 dict(id='c16-keras-ln-T', property='C16', edits=[(K1, "            res = self.S.log2_stride\n", "            res = min(self.J, self.S.log2_stride)\n")],
  needs='a Keras 1D layer with T at least 2^(J+1)', breaks='the declared output shape is longer than the output',
  demo=PRE + """
import tensorflow as tf
from kymatio.keras import Scattering1D
ok = True
for J, T in ((2, 4), (2, 8), (2, 16), (3, 2)):
    S = Scattering1D(J=J, T=T)
    x = tf.zeros((2, 64))
    y = S(x)
    ok = ok and tuple(S.compute_output_shape((2, 64)).as_list()) == tuple(y.shape)
sys.exit(0 if ok else 1)
"""),
 dict(id='c16-keras-2d-border', property='C16', edits=[(K2, "        m1 = input_shape[-1] // 2 ** self.J - border\n", "        m1 = (input_shape[-1] - border * 2 ** self.J) // 2 ** self.J if self.J > 1 else \\\n            (input_shape[-1] - border) // 2 ** self.J\n")],
  needs='a pre-padded Keras 2D layer with J=1', breaks='the declared width exceeds the width produced',
  demo=PRE + """
import tensorflow as tf
from kymatio.keras import Scattering2D
ok = True
for J in (1, 2):
    S = Scattering2D(J=J, L=2, pre_pad=True)
    n = 8 + 2 ** (J + 1)
    y = S(tf.zeros((2, n, n)))
    ok = ok and tuple(S.compute_output_shape((2, n, n)).as_list()) == tuple(y.shape)
sys.exit(0 if ok else 1)
"""),
 dict(id='c16-config-T', property='C16', edits=[(K1, "            Q=self._Q, T=self._T, max_order", "            Q=self._Q, T=self._T or None, max_order")],
  needs='a Keras 1D layer with T=0', breaks='T=0 (no averaging) is silently replaced by the default support',
  demo=PRE + """
import tensorflow as tf
from kymatio.keras import Scattering1D
from kymatio.tensorflow import Scattering1D as Direct
def out(f):
    try:
        return tuple(f().shape)
    except Exception as e:
        return type(e)
x = tf.zeros((2, 64))
sys.exit(0 if all(out(lambda: Scattering1D(J=2, T=T)(x)) == out(lambda: Direct(J=2, shape=(64,), T=T)(x)) for T in (None, 0, 4, 'global')) else 1)
"""),
 dict(id='c16-entry-strip', property='C16', edits=[(E, "            frontend = kwargs['frontend'].lower()\n", "            frontend = kwargs['frontend'].lower().split('.')[0]\n")],
  needs="a frontend name with a dotted suffix, e.g. 'numpy.x'", breaks='an unknown frontend name is accepted',
  demo=PRE + """
from kymatio import Scattering1D, Scattering2D
bad = 0
for f in ('numpy.x', 'torch.', 'numpy ', '', 'tf', 'numpyy'):
    try:
        Scattering1D(J=2, shape=(64,), frontend=f); bad = 1
    except RuntimeError:
        pass
    except Exception:
        bad = 1
Scattering1D(J=2, shape=(64,), frontend='NumPy')
sys.exit(bad)
"""),
 dict(id='c17-empty-env', property='C17', edits=[(C, "        if kymatio_cache is None:\n", "        if not kymatio_cache:\n")],
  needs='KYMATIO_CACHE set to the empty string', breaks='the home directory is used although the variable is set',
  demo=PRE + """
import os
os.environ['KYMATIO_CACHE'] = ''
from kymatio.caching import find_cache_base_dir
sys.exit(0 if find_cache_base_dir() == '' and find_cache_base_dir('x') == 'x' else 1)
"""),
 dict(id='c17-base-first', property='C17', edits=[(C, "        if create:\n            os.makedirs(path)\n            return path\n        else:\n", "        os.makedirs(os.path.dirname(path), exist_ok=True)\n        if create:\n            os.makedirs(path, exist_ok=True)\n            return path\n        else:\n")],
  needs='create=False and a base directory that does not exist yet', breaks='the base directory is created although nothing may be',
  demo=PRE + """
import os, tempfile
from kymatio.caching import get_cache_dir
with tempfile.TemporaryDirectory() as d:
    b = os.path.join(d, 'base')
    try:
        get_cache_dir('mnist', cache_base_dir=b, create=False); sys.exit(1)
    except ValueError:
        pass
    bad = os.path.exists(b)
    p = get_cache_dir('mnist', cache_base_dir=b)
    bad = bad or not os.path.isdir(p)
sys.exit(1 if bad else 0)
"""),
 dict(id='c17-strip-name', property='C17', edits=[(C, "        find_cache_base_dir(cache_base_dir=cache_base_dir), name)\n", "        find_cache_base_dir(cache_base_dir=cache_base_dir), name.lower())\n")],
  needs='a cache name with capital letters', breaks='the cache directory is not the named entry',
  demo=PRE + """
import os, tempfile
from kymatio.caching import get_cache_dir
with tempfile.TemporaryDirectory() as d:
    p = get_cache_dir('MNIST', cache_base_dir=d)
    sys.exit(0 if p == os.path.join(d, 'MNIST') and os.path.isdir(p) else 1)
"""),
]
BUGS = [b for b in BUGS if b['id'] not in ('c16-keras-ln',)]
