From dac9da70b139367ba53fc3038a6cce6a23d3edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:22 +0000
Subject: [PATCH 01/17] fix: reject non-array inputs with TypeError in the
 NumPy backend

NumpyBackend.input_checks referred to an undefined name _np, so every input
that is not a numpy.ndarray raised NameError instead of TypeError.
---
 kymatio/backend/numpy_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kymatio/backend/numpy_backend.py b/kymatio/backend/numpy_backend.py
index 13e01bd..22ddfb0 100644
--- a/kymatio/backend/numpy_backend.py
+++ b/kymatio/backend/numpy_backend.py
@@ -8,15 +8,15 @@ class NumpyBackend:
 
     name = 'numpy'
 
-    @staticmethod
-    def input_checks(x):
+    @classmethod
+    def input_checks(cls, x):
         if x is None:
             raise TypeError('The input should be not empty.')
 
         #want to make sure that we have either a numpy or numpy-like arrays.
         #since each numpy-like implements its own distinct ndarray, we need to
         #check if numpy
-        if (not isinstance(x, numpy.ndarray)) and (not isinstance(x, _np.ndarray)):
+        if (not isinstance(x, numpy.ndarray)) and (not isinstance(x, cls._np.ndarray)):
             raise TypeError(f'The input should be a numpy array, got type {type(x)}')
 
     @classmethod
-- 
2.43.0


From 6e02d276d6462383a7ced8689dbfada4233126f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:22 +0000
Subject: [PATCH 02/17] fix: import warn used by the deprecated M and N
 properties of Scattering2D

---
 kymatio/scattering2d/frontend/base_frontend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kymatio/scattering2d/frontend/base_frontend.py b/kymatio/scattering2d/frontend/base_frontend.py
index 31d4f74..fade591 100644
--- a/kymatio/scattering2d/frontend/base_frontend.py
+++ b/kymatio/scattering2d/frontend/base_frontend.py
@@ -1,3 +1,5 @@
+from warnings import warn
+
 from ...frontend.base_frontend import ScatteringBase
 
 from ..filter_bank import filter_bank
-- 
2.43.0


From 317e75341a70c9b3f526b5edc78e8fc5a76d8c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:22 +0000
Subject: [PATCH 03/17] fix: keep pre-padded TensorFlow 2D inputs real

With pre_pad=True the input was cast to complex64, which rfft rejects with
TypeError, so the transform could not be computed at all.
---
 kymatio/scattering2d/frontend/tensorflow_frontend.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/kymatio/scattering2d/frontend/tensorflow_frontend.py b/kymatio/scattering2d/frontend/tensorflow_frontend.py
index b8a09ae..16c11df 100644
--- a/kymatio/scattering2d/frontend/tensorflow_frontend.py
+++ b/kymatio/scattering2d/frontend/tensorflow_frontend.py
@@ -13,10 +13,6 @@ class ScatteringTensorFlow2D(ScatteringTensorFlow, ScatteringBase2D):
         ScatteringBase2D.build(self)
         ScatteringBase2D.create_filters(self)
 
-        if pre_pad:
-            # Need to cast to complex in TF
-            self.pad = lambda x: tf.cast(x, tf.complex64)
-
 
     def scattering(self, input):
         with tf.name_scope('scattering') as scope:
-- 
2.43.0


From d688189f492e230996ec90dc078b2e6ef0f055a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:22 +0000
Subject: [PATCH 04/17] fix: build enough levels of the second-order filters

A path (n1, n2) with j1 equal to the largest first-order scale reads level j1
of psi2[n2]; range(1, min(previous_J, ...)) stopped one level short, which
raised IndexError, for example for Scattering1D(J=5, shape=2**13, Q=(1, 2)).
---
 kymatio/scattering1d/filter_bank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/filter_bank.py b/kymatio/scattering1d/filter_bank.py
index 750e0d6..dacc7e6 100644
--- a/kymatio/scattering1d/filter_bank.py
+++ b/kymatio/scattering1d/filter_bank.py
@@ -379,8 +379,8 @@ def scattering_filter_factory(N, J, Q, T, filterbank, _reduction=np.sum):
             j = get_max_dyadic_subsampling(xi, sigma, **filterbank_kwargs)
 
             # Resample to smaller resolutions if necessary (beyond 1st layer)
-            # The idiom min(previous_J, j, 1+log2_T) implements "j1 < j2"
-            for level in range(1, min(previous_J, j, 1+log2_T)):
+            # The idiom min(1+previous_J, j, 1+log2_T) implements "j1 < j2"
+            for level in range(1, min(1+previous_J, j, 1+log2_T)):
                 psi_level_reshaped = psi_levels[0].reshape(2**level, -1)
                 psi_level = _reduction(psi_level_reshaped, axis=0)
                 psi_levels.append(psi_level)
-- 
2.43.0


From 6c127e3bc3c2f7e2aa8b42db787bc49df4e0e51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:34 +0000
Subject: [PATCH 05/17] fix: stack and average time-frequency paths at a common
 time stride

With local averaging in time, second-order paths are to be subsampled by
min(2**j2, stride) in total. The second subsampling ignored the first one, so
rows of the same n2 had different lengths, and time_averaging assumed a
subsampling of 2**j2, beyond the stride. Strides smaller than 2**j2 failed.
---
 kymatio/scattering1d/core/timefrequency_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 9a3c3a6..83013bd 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -172,7 +172,7 @@ def time_scattering_widthfirst(U_0, backend, filters, log2_stride, average_local
             k1 = min(j1, log2_stride) if average_local else j1
 
             if j2 > j1:
-                k2 = min(j2-k1, log2_stride) if average_local else (j2-k1)
+                k2 = (min(j2, log2_stride) if average_local else j2) - k1
                 U_2_c = backend.cdgmm(U_1_hat['coef'], psi2[n2]['levels'][k1])
                 U_2_hat = backend.subsample_fourier(U_2_c, 2 ** k2)
                 U_2_c = backend.ifft(U_2_hat)
@@ -306,7 +306,7 @@ def time_averaging(U_2, backend, phi_f, log2_stride):
     U_2{n2,n_fr}(t, n1) = |Y_2_fr{n2,n_fr}|(t, n1)
     """
     log2_T = phi_f['j']
-    k_in = U_2['j'][-1]
+    k_in = min(U_2['j'][-1], log2_stride)
     k_J = log2_stride - k_in
     U_hat = backend.rfft(U_2['coef'])
     S_c = backend.cdgmm(U_hat, phi_f['levels'][k_in])
-- 
2.43.0


From 6f03ca40d73df9506af05f18e40bd3dfc13fc880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:34 +0000
Subject: [PATCH 06/17] fix: use the actual frequential stride of
 time-frequency paths

frequency_scattering subsamples rows by 2**min(j_fr, log2_stride_fr) when
averaging locally, but labelled them with a stride of 2**j_fr, and
frequency_averaging filtered and subsampled as if they had a stride of
min(2**j_fr, F).
---
 kymatio/scattering1d/core/timefrequency_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 83013bd..f0c5db9 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -271,7 +271,7 @@ def frequency_scattering(X, backend, filters_fr, log2_stride_fr,
         # as (X['n'][1:] + (n_fr,)), i.e., n=(n_fr,) is not spinned
         # and n=(n2, n_fr) if spinned. This 'n' tuple is unique.
         yield {**X, 'coef': Y_fr, 'n': (X['n'][1:] + (n_fr,)),
-            'j_fr': (j_fr,), 'n_fr': (n_fr,), 'n1_stride': (2**j_fr),
+            'j_fr': (j_fr,), 'n_fr': (n_fr,), 'n1_stride': (2**k_fr),
             'spin': spin}
 
 
@@ -359,7 +359,7 @@ def frequency_averaging(U_2, backend, phi_fr_f, log2_stride_fr, average_fr):
             S_2_T = backend.average_global(U_2_T)
             n1_stride = U_2['n1_max']
         elif average_fr == 'local':
-            k_in = min(U_2['j_fr'][-1], log2_F)
+            k_in = min(U_2['j_fr'][-1], log2_stride_fr)
             k_J = log2_stride_fr - k_in
             U_hat = backend.rfft(U_2_T)
             S_c = backend.cdgmm(U_hat, phi_fr_f['levels'][k_in])
-- 
2.43.0


From 1269885f2686e38054cee6c20511ceb7a65ae434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:53 +0000
Subject: [PATCH 07/17] fix: honour max_order and oversampling in the Keras
 Scattering1D layer

The constructor ignored max_order and oversampling, get_config raised
AttributeError, and compute_output_shape ignored T, the stride and all but
one leading batch axis.
---
 .../scattering1d/frontend/keras_frontend.py   | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index c7ac5a6..3fe14c6 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -12,28 +12,31 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
         self.J = J
         self._Q = Q
         self._T = T
-        self._max_order = 2
-        self._oversampling = 0
+        self.max_order = max_order
+        self._oversampling = oversampling
         self.out_type = 'array'
         self.backend = None
 
     def build(self, input_shape):
         shape = tuple(tensor_shape.TensorShape(input_shape).as_list()[-1:])
         self.S = ScatteringTensorFlow1D(J=self.J, shape=shape,
-            Q=self._Q, T=self._T, max_order=self._max_order,
+            Q=self._Q, T=self._T, max_order=self.max_order,
             oversampling=self._oversampling)
         ScatteringKeras.build(self, input_shape)
 
     def compute_output_shape(self, input_shape):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         nc = self.S.output_size()
-        k0 = max(self.J - self._oversampling, 0)
-        ln = self.S.ind_end[k0] - self.S.ind_start[k0]
-        output_shape = [input_shape[0], nc, ln]
+        if self.S.average == 'global':
+            ln = 1
+        else:
+            res = self.S.log2_stride
+            ln = self.S.ind_end[res] - self.S.ind_start[res]
+        output_shape = input_shape[:-1] + [nc, ln]
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
-        keys = ["J", "Q", "max_order", "oversampling"]
-        return {key: getattr(self, key) for key in keys}
+        return {"J": self.J, "Q": self._Q, "T": self._T,
+            "max_order": self.max_order, "oversampling": self._oversampling}
 
 ScatteringKeras1D._document()
-- 
2.43.0


From d6b12cd66cd89cecbdcc141540ef61416d3b0a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:39 +0000
Subject: [PATCH 08/17] fix: pre_pad, max_order and batch axes in the Keras
 Scattering2D layer

With pre_pad the layer built a transform for an image of the padded size and
rejected every input; compute_output_shape ignored pre_pad, max_order=1 and
all but one leading batch axis.
---
 kymatio/scattering2d/frontend/keras_frontend.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/kymatio/scattering2d/frontend/keras_frontend.py b/kymatio/scattering2d/frontend/keras_frontend.py
index 75661cd..b223a39 100644
--- a/kymatio/scattering2d/frontend/keras_frontend.py
+++ b/kymatio/scattering2d/frontend/keras_frontend.py
@@ -14,6 +14,9 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
 
     def build(self, input_shape):
         shape = tuple(tensor_shape.TensorShape(input_shape).as_list()[-2:])
+        if self.pre_pad:
+            # The input has the padded size, so undo compute_padding
+            shape = tuple(n - 2 ** (self.J + 1) for n in shape)
         self.S = ScatteringTensorFlow2D(J=self.J, shape=shape,
                                         L=self.L, max_order=self.max_order,
                                         pre_pad=self.pre_pad)
@@ -23,10 +26,13 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
 
     def compute_output_shape(self, input_shape):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
-        m0 = input_shape[-2] // 2 ** self.J
-        m1 = input_shape[-1] // 2 ** self.J
-        nc = (self.L ** 2) * self.J * (self.J - 1) // 2 + self.L * self.J + 1
-        output_shape = [input_shape[0], nc, m0, m1]
+        border = 2 if self.pre_pad else 0
+        m0 = input_shape[-2] // 2 ** self.J - border
+        m1 = input_shape[-1] // 2 ** self.J - border
+        nc = self.L * self.J + 1
+        if self.max_order == 2:
+            nc += (self.L ** 2) * self.J * (self.J - 1) // 2
+        output_shape = input_shape[:-2] + [nc, m0, m1]
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
-- 
2.43.0


From eafbd7e7960be9823503b202a62334e7606a2d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:51 +0000
Subject: [PATCH 09/17] fix: meta() and output_size() with a small T

meta() ran the cascade without averaging, which reads levels of the
second-order filters that do not exist when T is small, and raised
IndexError, for example for Scattering1D(J=6, shape=1024, T=1).
---
 kymatio/scattering1d/frontend/base_frontend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 2e7015e..e0875b2 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -187,7 +187,8 @@ class ScatteringBase1D(ScatteringBase):
         backend = self._DryBackend()
         filters = [self.phi_f, self.psi1_f, self.psi2_f][:(1+self.max_order)]
         S_gen = scattering1d(
-            None, backend, filters, self.log2_stride, average_local=False)
+            None, backend, filters, self.log2_stride,
+            average_local=(self.average=='local'))
         S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))
         meta = dict(order=np.array([len(path['n']) for path in S]))
         meta['key'] = [path['n'] for path in S]
-- 
2.43.0


From 5e986ebbbce4d1bc71377472b853c10c56619bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:41 +0000
Subject: [PATCH 10/17] fix: reject non-array inputs with TypeError in the JAX
 backend

JaxBackend overrode the inherited check with one that only rejects None, so a
list or a number failed later with AttributeError.
---
 kymatio/backend/jax_backend.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/kymatio/backend/jax_backend.py b/kymatio/backend/jax_backend.py
index 4e3a77e..00a09c8 100644
--- a/kymatio/backend/jax_backend.py
+++ b/kymatio/backend/jax_backend.py
@@ -9,9 +9,3 @@ class JaxBackend(NumpyBackend):
     _fft = numpy.fft
 
     name = 'jax'
-
-    @staticmethod
-    def input_checks(x):
-        if x is None:
-            raise TypeError('The input should be not empty.')
-
-- 
2.43.0


From 470ea1a1e211058bea6b52f4ae3cddbcd36c15ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:11 +0000
Subject: [PATCH 11/17] fix: PyTorch forward() raises TypeError on an input
 that is not a tensor

---
 kymatio/backend/torch_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kymatio/backend/torch_backend.py b/kymatio/backend/torch_backend.py
index cbe7052..36a0b06 100644
--- a/kymatio/backend/torch_backend.py
+++ b/kymatio/backend/torch_backend.py
@@ -104,6 +104,9 @@ class TorchBackend:
         if x is None:
             raise TypeError('The input should be not empty.')
 
+        if not torch.is_tensor(x):
+            raise TypeError('The input should be a PyTorch Tensor.')
+
         cls.contiguous_check(x)
 
     @classmethod
-- 
2.43.0


From efeff56e65805b45a105107a6bca9b3a4d90adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:14 +0000
Subject: [PATCH 12/17] fix: TensorFlow 3D cdgmm3d rejects real inputs and
 filters of another size or kind

---
 kymatio/scattering3d/backend/tensorflow_backend.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering3d/backend/tensorflow_backend.py b/kymatio/scattering3d/backend/tensorflow_backend.py
index 70bb662..a908880 100644
--- a/kymatio/scattering3d/backend/tensorflow_backend.py
+++ b/kymatio/scattering3d/backend/tensorflow_backend.py
@@ -67,8 +67,8 @@ class TensorFlowBackend3D(TensorFlowBackend):
             integrals.append(tf.reduce_sum(tf.reshape(tf.pow(input_array, q), shape=(input_array.shape[0], -1)), axis=1))
         return tf.stack(integrals, axis=-1)
 
-    @staticmethod
-    def cdgmm3d(A, B):
+    @classmethod
+    def cdgmm3d(cls, A, B):
         """Complex pointwise multiplication.
 
             Complex pointwise multiplication between (batched) tensor A and tensor B.
@@ -90,6 +90,16 @@ class TensorFlowBackend3D(TensorFlowBackend):
         if B.ndim != 3:
             raise RuntimeError('The dimension of the second input must be 3.')
 
+        if not cls._is_complex(A):
+            raise TypeError('The first input must be complex.')
+
+        if A.shape[-3:] != B.shape:
+            raise RuntimeError('The inputs are not compatible for '
+                               'multiplication.')
+
+        if not cls._is_complex(B) and not cls._is_real(B):
+            raise TypeError('The second input must be complex or real.')
+
         Cr = tf.cast(tf.math.real(A) * np.real(B) - tf.math.imag(A) * np.imag(B), tf.complex64)
         Ci = tf.cast(tf.math.real(A) * np.imag(B) + tf.math.imag(A) * np.real(B), tf.complex64)
 
-- 
2.43.0


From c674b3042c0dd847c0402c818ca0cd25e6bb6137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:11 +0000
Subject: [PATCH 13/17] fix: time-frequency scattering with global time
 averaging keeps the coefficient axes in PyTorch

With T='global' and format='joint', PyTorch coefficients kept their trailing
singleton dimension because unpadding, which drops it, was skipped; reshaping
them to the batch shape then raised RuntimeError.
---
 kymatio/scattering1d/frontend/base_frontend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index e0875b2..4c6f248 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -612,7 +612,7 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
         # First and second order
         for path in S_gen:
             # Temporal unpadding. Switch cases:
-            # 1. If averaging is global, no need for unpadding at all.
+            # 1. If averaging is global, keep the only time sample.
             # 2. If averaging is local, unpad at resolution log2_T
             # 3. If there is no averaging, unpadding depends on order:
             #     3a. at order 1, unpad Y_1_fr at resolution log2_T
@@ -627,6 +627,9 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
                 # Cases 2a, 2b, 3a, and 3b.
                 path['coef'] = self.backend.unpad(
                     path['coef'], self.ind_start[res], self.ind_end[res])
+            else:
+                # Case 1. There is a single time sample, which we keep.
+                path['coef'] = self.backend.unpad(path['coef'], 0, 1)
 
             # Reshape path to batch shape.
             path['coef'] = self.backend.reshape_output(path['coef'],
-- 
2.43.0


From 04dd712b45ddcbaa557fca857773762c780bedb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:37 +0000
Subject: [PATCH 14/17] fix: time-frequency scattering with T=0 and
 format='time' returned empty first-order coefficients

---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 4c6f248..fdcf1e6 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -618,7 +618,7 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
             #     3a. at order 1, unpad Y_1_fr at resolution log2_T
             #     3b. at order 2, unpad Y_2_fr at resolution j2
             if not self.average == 'global':
-                if not self.average and len(path['n']) > 1:
+                if not self.average and len(path['j']) > 1:
                     # Case 3b.
                     res = max(path['j'][-1], 0)
                 else:
-- 
2.43.0


From a163e3923515ff1f4ca94a1c4652df8e713e2a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:28 +0000
Subject: [PATCH 15/17] fix: time-frequency scattering in time format labelled
 paths with order one too low

---
 kymatio/scattering1d/core/timefrequency_scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index f0c5db9..a117e46 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -380,7 +380,7 @@ def time_formatting(path, backend):
     else:
         coef_list = backend.split_frequency_axis(path["coef"])
     for i, n1 in enumerate(range(0, path["n1_max"], path["n1_stride"])):
-        split_path = {**path, "coef": coef_list[i], "order": len(path["n"])-1}
+        split_path = {**path, "coef": coef_list[i], "order": len(path["n"])}
         # If not spinned, X['n']=S1['n']=(n_fr,) is a 1-tuple.
         # If spinned, X['n']=Y2['n']=(n2,n_fr) is a 2-tuple.
         # In either case, we prepend n1 and define the new 'n'
-- 
2.43.0


From 124368f9e38244909b6a38f65b195ae37190f166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:57 +0000
Subject: [PATCH 16/17] fix: frequential padding of time-frequency scattering
 was rounded down, leaving no room for the first-order paths

---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index fdcf1e6..93925d8 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -565,7 +565,7 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
         #     2**1, 2**2, etc. up to 2**K_fr = (2**J_fr / 2**oversampling_fr)
         N_input_fr = (self.J+1) * self.Q[0]
         K_fr = max(self.J_fr - self.oversampling_fr, 0)
-        N_padded_fr_subsampled = (N_input_fr + min_to_pad_fr) // (2 ** K_fr)
+        N_padded_fr_subsampled = -(-(N_input_fr + min_to_pad_fr) // (2 ** K_fr))
         self._N_padded_fr = N_padded_fr_subsampled * (2 ** K_fr)
 
     def create_filters(self):
-- 
2.43.0


From 9d0fbf157322c6610351fc383b490e4927f77bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:53 +0000
Subject: [PATCH 17/17] fix: 3D filters were sampled one frequency off along
 axes of odd size

---
 kymatio/scattering3d/filter_bank.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kymatio/scattering3d/filter_bank.py b/kymatio/scattering3d/filter_bank.py
index 4994f5e..f6253ab 100644
--- a/kymatio/scattering3d/filter_bank.py
+++ b/kymatio/scattering3d/filter_bank.py
@@ -90,9 +90,9 @@ def gaussian_3d(M, N, O, sigma, fourier=True):
             that the origin is at the point [0, 0, 0]
     """
     grid = np.fft.ifftshift(
-        np.mgrid[-M // 2:-M // 2 + M,
-                 -N // 2:-N // 2 + N,
-                 -O // 2:-O // 2 + O].astype('float32'),
+        np.mgrid[-(M // 2):-(M // 2) + M,
+                 -(N // 2):-(N // 2) + N,
+                 -(O // 2):-(O // 2) + O].astype('float32'),
         axes=(1,2,3))
     _sigma = sigma
     if fourier:
@@ -137,9 +137,9 @@ def solid_harmonic_3d(M, N, O, sigma, l, fourier=True):
     """
     solid_harm = np.zeros((2*l+1, M, N, O), np.complex64)
     grid = np.fft.ifftshift(
-        np.mgrid[-M // 2:-M // 2 + M,
-                 -N // 2:-N // 2 + N,
-                 -O // 2:-O // 2 + O].astype('float32'),
+        np.mgrid[-(M // 2):-(M // 2) + M,
+                 -(N // 2):-(N // 2) + N,
+                 -(O // 2):-(O // 2) + O].astype('float32'),
         axes=(1,2,3))
     _sigma = sigma
 
-- 
2.43.0

