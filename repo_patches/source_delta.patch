From 519a267669d748339cd5a5c0dab3e80986efdfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 01/35] fix: build second-order filters at every resolution the
 first order can reach

When the second filterbank has a larger scale index than any filter of the
first (e.g. Q=(1, 2)), the cascade subsamples by 2**previous_J before the
second-order filtering but only previous_J levels were built, so the transform
raised IndexError.
---
 kymatio/scattering1d/filter_bank.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/filter_bank.py b/kymatio/scattering1d/filter_bank.py
index 750e0d6..44d5243 100644
--- a/kymatio/scattering1d/filter_bank.py
+++ b/kymatio/scattering1d/filter_bank.py
@@ -379,8 +379,10 @@ def scattering_filter_factory(N, J, Q, T, filterbank, _reduction=np.sum):
             j = get_max_dyadic_subsampling(xi, sigma, **filterbank_kwargs)
 
             # Resample to smaller resolutions if necessary (beyond 1st layer)
-            # The idiom min(previous_J, j, 1+log2_T) implements "j1 < j2"
-            for level in range(1, min(previous_J, j, 1+log2_T)):
+            # The idiom min(1+previous_J, j, 1+log2_T) implements "j1 < j2":
+            # the input is subsampled by at most 2**j1, where j1 <= previous_J
+            # (largest j at the previous layer), j1 < j, and j1 <= log2_T.
+            for level in range(1, min(1+previous_J, j, 1+log2_T)):
                 psi_level_reshaped = psi_levels[0].reshape(2**level, -1)
                 psi_level = _reduction(psi_level_reshaped, axis=0)
                 psi_levels.append(psi_level)
-- 
2.43.0


From f3c3c921d8102e6b9e91bc137323b872181a35fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 02/35] fix: joint time-frequency scattering with a time stride
 smaller than 2**J

The second order was subsampled by 2**k1 * 2**min(j2-k1, log2_stride) in time,
which depends on n1 and exceeds the stride, and time_averaging then assumed a
subsampling of 2**j2. Subsample by 2**min(j2, log2_stride) and average from
there, as scattering1d does.
---
 kymatio/scattering1d/core/timefrequency_scattering.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 9a3c3a6..bb0ac9e 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -172,7 +172,10 @@ def time_scattering_widthfirst(U_0, backend, filters, log2_stride, average_local
             k1 = min(j1, log2_stride) if average_local else j1
 
             if j2 > j1:
-                k2 = min(j2-k1, log2_stride) if average_local else (j2-k1)
+                # Total subsampling is min(j2, log2_stride) if average_local,
+                # else j2: it is the same for all n1, hence stackable over n1
+                sub2_adj = min(j2, log2_stride) if average_local else j2
+                k2 = sub2_adj - k1
                 U_2_c = backend.cdgmm(U_1_hat['coef'], psi2[n2]['levels'][k1])
                 U_2_hat = backend.subsample_fourier(U_2_c, 2 ** k2)
                 U_2_c = backend.ifft(U_2_hat)
@@ -306,7 +309,8 @@ def time_averaging(U_2, backend, phi_f, log2_stride):
     U_2{n2,n_fr}(t, n1) = |Y_2_fr{n2,n_fr}|(t, n1)
     """
     log2_T = phi_f['j']
-    k_in = U_2['j'][-1]
+    # U_2 has been subsampled by 2**min(j2, log2_stride)
+    k_in = min(U_2['j'][-1], log2_stride)
     k_J = log2_stride - k_in
     U_hat = backend.rfft(U_2['coef'])
     S_c = backend.cdgmm(U_hat, phi_f['levels'][k_in])
-- 
2.43.0


From 48bd807dbe23bae1060f2541e92eef29d670390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 03/35] fix: joint time-frequency scattering with a frequency
 stride smaller than F

The frequency axis has been subsampled by 2**min(j_fr, log2_stride_fr) before
frequential averaging, not by 2**min(j_fr, log2_F), and n1_stride must state
that subsampling factor. Passing stride_fr raised RuntimeError, or mislabelled
and truncated the frequency axis of spin-zero paths.
---
 kymatio/scattering1d/core/timefrequency_scattering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index bb0ac9e..df5332a 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -274,7 +274,7 @@ def frequency_scattering(X, backend, filters_fr, log2_stride_fr,
         # as (X['n'][1:] + (n_fr,)), i.e., n=(n_fr,) is not spinned
         # and n=(n2, n_fr) if spinned. This 'n' tuple is unique.
         yield {**X, 'coef': Y_fr, 'n': (X['n'][1:] + (n_fr,)),
-            'j_fr': (j_fr,), 'n_fr': (n_fr,), 'n1_stride': (2**j_fr),
+            'j_fr': (j_fr,), 'n_fr': (n_fr,), 'n1_stride': (2**k_fr),
             'spin': spin}
 
 
@@ -357,13 +357,13 @@ def frequency_averaging(U_2, backend, phi_fr_f, log2_stride_fr, average_fr):
     U_2{n2,n_fr}(t, n1) = |Y_2_fr{n2,n_fr}|(t[j2], n1[j_fr])
     """
     if average_fr:
-        log2_F = phi_fr_f['j']
         U_2_T = backend.swap_time_frequency(U_2['coef'])
         if average_fr == 'global':
             S_2_T = backend.average_global(U_2_T)
             n1_stride = U_2['n1_max']
         elif average_fr == 'local':
-            k_in = min(U_2['j_fr'][-1], log2_F)
+            # U_2 has been subsampled by 2**min(j_fr, log2_stride_fr)
+            k_in = min(U_2['j_fr'][-1], log2_stride_fr)
             k_J = log2_stride_fr - k_in
             U_hat = backend.rfft(U_2_T)
             S_c = backend.cdgmm(U_hat, phi_fr_f['levels'][k_in])
-- 
2.43.0


From eef2dbd68aff3dc0885d93c1c77fc626aa979500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 04/35] fix: order and temporal support of time-formatted JTFS
 coefficients

With format='time', first- and second-order paths were labelled as order 0 and
1, and with T=0 first-order paths (sampled at 2**J) were unpadded with the
border indices of the full resolution, yielding empty coefficients.
---
 kymatio/scattering1d/core/timefrequency_scattering.py | 2 +-
 kymatio/scattering1d/frontend/base_frontend.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index df5332a..fd50cc4 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -384,7 +384,7 @@ def time_formatting(path, backend):
     else:
         coef_list = backend.split_frequency_axis(path["coef"])
     for i, n1 in enumerate(range(0, path["n1_max"], path["n1_stride"])):
-        split_path = {**path, "coef": coef_list[i], "order": len(path["n"])-1}
+        split_path = {**path, "coef": coef_list[i], "order": len(path["n"])}
         # If not spinned, X['n']=S1['n']=(n_fr,) is a 1-tuple.
         # If spinned, X['n']=Y2['n']=(n2,n_fr) is a 2-tuple.
         # In either case, we prepend n1 and define the new 'n'
diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 2e7015e..f65416e 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -617,7 +617,7 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
             #     3a. at order 1, unpad Y_1_fr at resolution log2_T
             #     3b. at order 2, unpad Y_2_fr at resolution j2
             if not self.average == 'global':
-                if not self.average and len(path['n']) > 1:
+                if not self.average and path['order'] > 1:
                     # Case 3b.
                     res = max(path['j'][-1], 0)
                 else:
-- 
2.43.0


From 0d41a064954f9f2283905eba46881de816d9c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:28 +0000
Subject: [PATCH 05/35] fix: align JTFS meta() with the output of scattering()

meta() sorted paths by key whereas scattering() returns them in computation
order, so with format='time' rows described other coefficients; with
format='joint' and out_type='array' the key list had an extra zeroth order.
---
 kymatio/scattering1d/frontend/base_frontend.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index f65416e..eca1b13 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -656,16 +656,18 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
             self.phi_f, self.log2_stride, self.average,
             self.filters_fr[0], self.log2_stride_fr, self.average_fr,
             self.out_type, self.format)
-        S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))
+        # Same paths in the same order as the output of scattering()
+        S = list(S_gen)
+        if self.format == 'joint' and self.out_type == 'array':
+            # Skip zeroth order
+            S = S[1:]
         meta = dict(key=[path['n'] for path in S], n=[], n_fr=[], order=[])
         for path in S:
             if len(path['n']) == 0:
-                # If format='joint' and out_type='array' skip zeroth order
-                if not (self.format == 'joint' and self.out_type == 'array'):
-                    # Zeroth order: no n1, no n_fr, no n2
-                    meta['n'].append([np.nan, np.nan])
-                    meta['n_fr'].append(np.nan)
-                    meta['order'].append(0)
+                # Zeroth order: no n1, no n_fr, no n2
+                meta['n'].append([np.nan, np.nan])
+                meta['n_fr'].append(np.nan)
+                meta['order'].append(0)
             else:
                 if len(path['n']) == 1:
                     # First order and format='joint': n=(n_fr,)
-- 
2.43.0


From fdea062dc96164ac83a705b89651f064f8be94e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 06/35] fix: pad the JTFS frequency axis to at least its
 required length

The padded length was rounded down to a multiple of 2**J_fr, which could make
it smaller than the number of first-order filters (or zero), and was not a
multiple of 2**log2_F when F > 2**J_fr.
---
 kymatio/scattering1d/frontend/base_frontend.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index eca1b13..fc98903 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -561,10 +561,12 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
         # (1) greater than number of first-order coefficients, N_input_fr,
         #     by a margin of at least min_to_pad_fr
         # (2) a multiple of all subsampling factors of frequential scattering:
-        #     2**1, 2**2, etc. up to 2**K_fr = (2**J_fr / 2**oversampling_fr)
+        #     2**1, 2**2, etc. up to 2**K_fr = (2**J_fr / 2**oversampling_fr),
+        #     and up to 2**log2_F for the low-pass filter
         N_input_fr = (self.J+1) * self.Q[0]
-        K_fr = max(self.J_fr - self.oversampling_fr, 0)
-        N_padded_fr_subsampled = (N_input_fr + min_to_pad_fr) // (2 ** K_fr)
+        K_fr = max(self.J_fr - self.oversampling_fr, self.log2_F, 0)
+        N_padded_fr_subsampled = math.ceil(
+            (N_input_fr + min_to_pad_fr) / (2 ** K_fr))
         self._N_padded_fr = N_padded_fr_subsampled * (2 ** K_fr)
 
     def create_filters(self):
-- 
2.43.0


From d01ef0dbe100fca038a6eb2bf9700f57123978b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 07/35] fix: raise TypeError, not NameError, for inputs that
 are not NumPy arrays

---
 kymatio/backend/numpy_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kymatio/backend/numpy_backend.py b/kymatio/backend/numpy_backend.py
index 13e01bd..22ddfb0 100644
--- a/kymatio/backend/numpy_backend.py
+++ b/kymatio/backend/numpy_backend.py
@@ -8,15 +8,15 @@ class NumpyBackend:
 
     name = 'numpy'
 
-    @staticmethod
-    def input_checks(x):
+    @classmethod
+    def input_checks(cls, x):
         if x is None:
             raise TypeError('The input should be not empty.')
 
         #want to make sure that we have either a numpy or numpy-like arrays.
         #since each numpy-like implements its own distinct ndarray, we need to
         #check if numpy
-        if (not isinstance(x, numpy.ndarray)) and (not isinstance(x, _np.ndarray)):
+        if (not isinstance(x, numpy.ndarray)) and (not isinstance(x, cls._np.ndarray)):
             raise TypeError(f'The input should be a numpy array, got type {type(x)}')
 
     @classmethod
-- 
2.43.0


From 8f698414686406e8272b25be5fd90a79f562ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 08/35] fix: import warn, used by the deprecated attributes M
 and N of Scattering2D

---
 kymatio/scattering2d/frontend/base_frontend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kymatio/scattering2d/frontend/base_frontend.py b/kymatio/scattering2d/frontend/base_frontend.py
index 31d4f74..fade591 100644
--- a/kymatio/scattering2d/frontend/base_frontend.py
+++ b/kymatio/scattering2d/frontend/base_frontend.py
@@ -1,3 +1,5 @@
+from warnings import warn
+
 from ...frontend.base_frontend import ScatteringBase
 
 from ..filter_bank import filter_bank
-- 
2.43.0


From 8a4854cc89e92e2eb4eea7c53d0ac6e793ad8d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 09/35] fix: Scattering2D with pre_pad=True in TensorFlow

The input was cast to complex, which the real-input FFT then rejected with
TypeError, so that pre_pad=True could never be used.
---
 kymatio/scattering2d/frontend/tensorflow_frontend.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/kymatio/scattering2d/frontend/tensorflow_frontend.py b/kymatio/scattering2d/frontend/tensorflow_frontend.py
index b8a09ae..16c11df 100644
--- a/kymatio/scattering2d/frontend/tensorflow_frontend.py
+++ b/kymatio/scattering2d/frontend/tensorflow_frontend.py
@@ -13,10 +13,6 @@ class ScatteringTensorFlow2D(ScatteringTensorFlow, ScatteringBase2D):
         ScatteringBase2D.build(self)
         ScatteringBase2D.create_filters(self)
 
-        if pre_pad:
-            # Need to cast to complex in TF
-            self.pad = lambda x: tf.cast(x, tf.complex64)
-
 
     def scattering(self, input):
         with tf.name_scope('scattering') as scope:
-- 
2.43.0


From a0458135b5db9ab43cab53e2abdd8a96381a09b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 10/35] fix: stride implied by the deprecated oversampling
 argument

---
 kymatio/scattering1d/frontend/base_frontend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index fc98903..9359973 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -74,10 +74,11 @@ class ScatteringBase1D(ScatteringBase):
                 "Pass stride = 2**(J-oversampling) or "
                 "stride = 2**(log2(T)-oversampling) "
                 "to retain current behavior.", DeprecationWarning)
-            if not self._stride in [None, 2**(self.log2_T-self._oversampling-1)]:
+            stride = 2 ** max(self.log2_T-self._oversampling, 0)
+            if not self._stride in [None, stride]:
                 raise ValueError("oversampling={} and stride={}"
                     "are incompatible".format(self._oversampling, self._stride))
-            self._stride = 2 ** (self.log2_T-self._oversampling)
+            self._stride = stride
 
         # Compute the minimum support to pad (ideally)
         phi_f = gauss_1d(N_input, self.sigma0/self.T)
-- 
2.43.0


From 17efb74ca6a40cc97e8c316aff6ac6481e93383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 11/35] fix: Keras Scattering1D honours max_order and
 oversampling, and its config and output shape

---
 .../scattering1d/frontend/keras_frontend.py   | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index c7ac5a6..0cea7d9 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -12,28 +12,32 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
         self.J = J
         self._Q = Q
         self._T = T
-        self._max_order = 2
-        self._oversampling = 0
+        self.max_order = max_order
+        self._oversampling = oversampling
         self.out_type = 'array'
         self.backend = None
 
     def build(self, input_shape):
         shape = tuple(tensor_shape.TensorShape(input_shape).as_list()[-1:])
         self.S = ScatteringTensorFlow1D(J=self.J, shape=shape,
-            Q=self._Q, T=self._T, max_order=self._max_order,
+            Q=self._Q, T=self._T, max_order=self.max_order,
             oversampling=self._oversampling)
         ScatteringKeras.build(self, input_shape)
 
     def compute_output_shape(self, input_shape):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         nc = self.S.output_size()
-        k0 = max(self.J - self._oversampling, 0)
-        ln = self.S.ind_end[k0] - self.S.ind_start[k0]
-        output_shape = [input_shape[0], nc, ln]
+        if self.S.average == 'global':
+            ln = 1
+        else:
+            k0 = self.S.log2_stride
+            ln = self.S.ind_end[k0] - self.S.ind_start[k0]
+        output_shape = input_shape[:-1] + [nc, ln]
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
-        keys = ["J", "Q", "max_order", "oversampling"]
-        return {key: getattr(self, key) for key in keys}
+        return {"J": self.J, "Q": self._Q, "T": self._T,
+                "max_order": self.max_order,
+                "oversampling": self._oversampling}
 
 ScatteringKeras1D._document()
-- 
2.43.0


From 650678672eab2752f70677591b10b9b031976cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 12/35] fix: output shape of Keras Scattering2D at max_order=1
 and for extra batch axes

---
 kymatio/scattering2d/frontend/keras_frontend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering2d/frontend/keras_frontend.py b/kymatio/scattering2d/frontend/keras_frontend.py
index 75661cd..071d6ca 100644
--- a/kymatio/scattering2d/frontend/keras_frontend.py
+++ b/kymatio/scattering2d/frontend/keras_frontend.py
@@ -25,8 +25,10 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         m0 = input_shape[-2] // 2 ** self.J
         m1 = input_shape[-1] // 2 ** self.J
-        nc = (self.L ** 2) * self.J * (self.J - 1) // 2 + self.L * self.J + 1
-        output_shape = [input_shape[0], nc, m0, m1]
+        nc = self.L * self.J + 1
+        if self.max_order == 2:
+            nc += (self.L ** 2) * self.J * (self.J - 1) // 2
+        output_shape = input_shape[:-2] + [nc, m0, m1]
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
-- 
2.43.0


From 03c0f298eb8a1152717c6431f99710fa18e52038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 13/35] fix: sklearn transformers report their constructor
 parameters, so that clone works

---
 kymatio/frontend/sklearn_frontend.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index 0fa33c7..c966d94 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -6,6 +6,16 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
         # No fitting necessary.
         return self
 
+    def get_params(self, deep=True):
+        # Parameters such as Q and T are properties which return a normalized
+        # value. Report what was passed to the constructor instead, so that
+        # sklearn.base.clone recreates the same transform.
+        params = {}
+        for name in self._get_param_names():
+            attr = '_' + name if '_' + name in vars(self) else name
+            params[name] = getattr(self, attr)
+        return params
+
     def predict(self, x):
         batch_shape = x.shape[:-1]
         x = x.reshape((-1,) + self.shape)
-- 
2.43.0


From ea026580170104e4485eab8d4c1f96c058892f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 14/35] fix: validate method in NumPy and Jax
 HarmonicScattering3D

---
 kymatio/scattering3d/frontend/numpy_frontend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kymatio/scattering3d/frontend/numpy_frontend.py b/kymatio/scattering3d/frontend/numpy_frontend.py
index 9517153..2c78bda 100644
--- a/kymatio/scattering3d/frontend/numpy_frontend.py
+++ b/kymatio/scattering3d/frontend/numpy_frontend.py
@@ -36,6 +36,11 @@ class HarmonicScatteringNumPy3D(ScatteringNumPy, ScatteringBase3D):
         signal_shape = input_array.shape[-3:]
 
         input_array = input_array.reshape((-1,) + signal_shape)
+
+        methods = ['integral']
+        if not self.method in methods:
+            raise ValueError('method must be in {}'.format(methods))
+
         self.averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
 
         S = scattering3d(input_array, filters=self.filters, rotation_covariant=self.rotation_covariant, L=self.L,
-- 
2.43.0


From 3cab004e6fcc8ed53c45b9b4fd3bfed8828a3bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 15/35] fix: meta() and output_size() of Scattering1D when T is
 smaller than 2**J

---
 kymatio/scattering1d/frontend/base_frontend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 9359973..5bb83c3 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -187,8 +187,8 @@ class ScatteringBase1D(ScatteringBase):
         """
         backend = self._DryBackend()
         filters = [self.phi_f, self.psi1_f, self.psi2_f][:(1+self.max_order)]
-        S_gen = scattering1d(
-            None, backend, filters, self.log2_stride, average_local=False)
+        S_gen = scattering1d(None, backend, filters,
+            self.log2_stride, (self.average=='local'))
         S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))
         meta = dict(order=np.array([len(path['n']) for path in S]))
         meta['key'] = [path['n'] for path in S]
-- 
2.43.0


From a4771b1a1e196b0c41b724e08cc520f850322ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:06 +0000
Subject: [PATCH 16/35] fix: centre 3-D filters on the zero frequency for odd
 grid sizes

---
 kymatio/scattering3d/filter_bank.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kymatio/scattering3d/filter_bank.py b/kymatio/scattering3d/filter_bank.py
index 4994f5e..f6253ab 100644
--- a/kymatio/scattering3d/filter_bank.py
+++ b/kymatio/scattering3d/filter_bank.py
@@ -90,9 +90,9 @@ def gaussian_3d(M, N, O, sigma, fourier=True):
             that the origin is at the point [0, 0, 0]
     """
     grid = np.fft.ifftshift(
-        np.mgrid[-M // 2:-M // 2 + M,
-                 -N // 2:-N // 2 + N,
-                 -O // 2:-O // 2 + O].astype('float32'),
+        np.mgrid[-(M // 2):-(M // 2) + M,
+                 -(N // 2):-(N // 2) + N,
+                 -(O // 2):-(O // 2) + O].astype('float32'),
         axes=(1,2,3))
     _sigma = sigma
     if fourier:
@@ -137,9 +137,9 @@ def solid_harmonic_3d(M, N, O, sigma, l, fourier=True):
     """
     solid_harm = np.zeros((2*l+1, M, N, O), np.complex64)
     grid = np.fft.ifftshift(
-        np.mgrid[-M // 2:-M // 2 + M,
-                 -N // 2:-N // 2 + N,
-                 -O // 2:-O // 2 + O].astype('float32'),
+        np.mgrid[-(M // 2):-(M // 2) + M,
+                 -(N // 2):-(N // 2) + N,
+                 -(O // 2):-(O // 2) + O].astype('float32'),
         axes=(1,2,3))
     _sigma = sigma
 
-- 
2.43.0


From 5eefa14962f90ec3244b81b84eb384c9fc7f282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:07 +0000
Subject: [PATCH 17/35] fix: 3-D scattering in TensorFlow with an unknown batch
 size

---
 kymatio/scattering3d/backend/tensorflow_backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering3d/backend/tensorflow_backend.py b/kymatio/scattering3d/backend/tensorflow_backend.py
index 70bb662..2e26bfe 100644
--- a/kymatio/scattering3d/backend/tensorflow_backend.py
+++ b/kymatio/scattering3d/backend/tensorflow_backend.py
@@ -64,7 +64,7 @@ class TensorFlowBackend3D(TensorFlowBackend):
         """
         integrals = []
         for i_q, q in enumerate(integral_powers):
-            integrals.append(tf.reduce_sum(tf.reshape(tf.pow(input_array, q), shape=(input_array.shape[0], -1)), axis=1))
+            integrals.append(tf.reduce_sum(tf.reshape(tf.pow(input_array, q), shape=(tf.shape(input_array)[0], -1)), axis=1))
         return tf.stack(integrals, axis=-1)
 
     @staticmethod
@@ -98,7 +98,8 @@ class TensorFlowBackend3D(TensorFlowBackend):
     @staticmethod
     def stack(arrays, L):
         S = tf.stack(arrays, axis=1)
-        S = tf.reshape(S, tuple((S.shape[0], S.shape[1] // (L + 1), (L + 1))) + tuple(S.shape[2:]))
+        # The batch size may be unknown when tracing a tf.function.
+        S = tf.reshape(S, (tf.shape(S)[0], S.shape[1] // (L + 1), (L + 1)) + tuple(S.shape[2:]))
         return S
 
     @classmethod
-- 
2.43.0


From f6aef38b89ffe7bea12e15134d2d396cda0903d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:20 +0000
Subject: [PATCH 18/35] fix: time-frequency scattering in PyTorch with
 T='global' and format='joint'

---
 kymatio/scattering1d/frontend/base_frontend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 5bb83c3..8d90dbc 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -629,6 +629,10 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
                 # Cases 2a, 2b, 3a, and 3b.
                 path['coef'] = self.backend.unpad(
                     path['coef'], self.ind_start[res], self.ind_end[res])
+            else:
+                # Case 1. There is a single sample to keep, but PyTorch needs
+                # to drop the trailing (real) dimension before reshaping.
+                path['coef'] = self.backend.unpad(path['coef'], 0, 1)
 
             # Reshape path to batch shape.
             path['coef'] = self.backend.reshape_output(path['coef'],
-- 
2.43.0


From 4fa84d7d8a3894275f6aba70168623230705aea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:56 +0000
Subject: [PATCH 19/35] fix: keep double precision in the 1-D TensorFlow
 backend (T='global' failed on double input)

---
 kymatio/scattering1d/backend/tensorflow_backend.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/backend/tensorflow_backend.py b/kymatio/scattering1d/backend/tensorflow_backend.py
index 35d7453..0cec25d 100644
--- a/kymatio/scattering1d/backend/tensorflow_backend.py
+++ b/kymatio/scattering1d/backend/tensorflow_backend.py
@@ -96,7 +96,12 @@ class TensorFlowBackend1D(TensorFlowBackend):
     def rfft(cls, x):
         cls.real_check(x)
 
-        return tf.signal.fft(tf.cast(x, tf.complex64), name='rfft1d')
+        # Keep the precision of the input: with T='global', the zeroth order
+        # does not go through the Fourier domain, yet it is stacked with the
+        # other orders, so all must have the same type.
+        dtype = tf.complex128 if x.dtype == tf.float64 else tf.complex64
+
+        return tf.signal.fft(tf.cast(x, dtype), name='rfft1d')
 
     @classmethod
     def irfft(cls, x):
-- 
2.43.0


From 3f1de0fe51c6d33a7e7c64019cc05abde7a5c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:35 +0000
Subject: [PATCH 20/35] fix: give the public frontend classes a matching
 __qualname__ so that their objects can be pickled

---
 kymatio/jax.py        | 4 ++++
 kymatio/keras.py      | 2 ++
 kymatio/numpy.py      | 4 ++++
 kymatio/sklearn.py    | 4 ++++
 kymatio/tensorflow.py | 4 ++++
 kymatio/torch.py      | 4 ++++
 6 files changed, 22 insertions(+)

diff --git a/kymatio/jax.py b/kymatio/jax.py
index daebde7..fc99721 100644
--- a/kymatio/jax.py
+++ b/kymatio/jax.py
@@ -6,15 +6,19 @@ from .scattering3d.frontend.jax_frontend import (
 
 Scattering1D.__module__ = "kymatio.jax"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 Scattering2D.__module__ = "kymatio.jax"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.jax"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 
 TimeFrequencyScattering.__module__ = "kymatio.jax"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 __all__ = ["Scattering1D", "Scattering2D", "HarmonicScattering3D", "TimeFrequencyScattering"]
diff --git a/kymatio/keras.py b/kymatio/keras.py
index f812b00..d26896c 100644
--- a/kymatio/keras.py
+++ b/kymatio/keras.py
@@ -3,8 +3,10 @@ from .scattering2d.frontend.keras_frontend import ScatteringKeras2D as Scatterin
 
 Scattering1D.__module__ = "kymatio.keras"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 Scattering2D.__module__ = "kymatio.keras"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 __all__ = ["Scattering1D", "Scattering2D"]
diff --git a/kymatio/numpy.py b/kymatio/numpy.py
index e442e03..c3f0abb 100644
--- a/kymatio/numpy.py
+++ b/kymatio/numpy.py
@@ -9,15 +9,19 @@ from .scattering3d.frontend.numpy_frontend import (
 
 Scattering1D.__module__ = "kymatio.numpy"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 TimeFrequencyScattering.__module__ = "kymatio.numpy"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 Scattering2D.__module__ = "kymatio.numpy"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.numpy"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 __all__ = [
     "Scattering1D",
diff --git a/kymatio/sklearn.py b/kymatio/sklearn.py
index 095596d..8d6fe8c 100644
--- a/kymatio/sklearn.py
+++ b/kymatio/sklearn.py
@@ -13,14 +13,18 @@ from .scattering3d.frontend.sklearn_frontend import (
 
 Scattering1D.__module__ = "kymatio.sklearn"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 TimeFrequencyScattering.__module__ = "kymatio.sklearn"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 Scattering2D.__module__ = "kymatio.sklearn"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.sklearn"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 __all__ = ["Scattering1D", "Scattering2D", "HarmonicScattering3D", "TimeFrequencyScattering"]
diff --git a/kymatio/tensorflow.py b/kymatio/tensorflow.py
index b4ba8b2..651fd52 100644
--- a/kymatio/tensorflow.py
+++ b/kymatio/tensorflow.py
@@ -13,15 +13,19 @@ from .scattering3d.frontend.tensorflow_frontend import (
 
 Scattering1D.__module__ = "kymatio.tensorflow"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 TimeFrequencyScattering.__module__ = "kymatio.tensorflow"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 Scattering2D.__module__ = "kymatio.tensorflow"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.tensorflow"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 __all__ = [
     "Scattering1D",
diff --git a/kymatio/torch.py b/kymatio/torch.py
index 7e5d749..3fb420a 100644
--- a/kymatio/torch.py
+++ b/kymatio/torch.py
@@ -9,15 +9,19 @@ from .scattering3d.frontend.torch_frontend import (
 
 Scattering1D.__module__ = "kymatio.torch"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 TimeFrequencyScattering.__module__ = "kymatio.torch"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 Scattering2D.__module__ = "kymatio.torch"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.torch"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 __all__ = [
     "Scattering1D",
-- 
2.43.0


From 302f46486768191974fcfc1a41da1542046a5ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:35 +0000
Subject: [PATCH 21/35] fix: do not store lambdas on scattering objects, which
 made them unpicklable

---
 kymatio/scattering2d/frontend/base_frontend.py       | 6 +++++-
 kymatio/scattering2d/frontend/torch_frontend.py      | 6 +++++-
 kymatio/scattering3d/frontend/numpy_frontend.py      | 4 ++--
 kymatio/scattering3d/frontend/tensorflow_frontend.py | 4 ++--
 kymatio/scattering3d/frontend/torch_frontend.py      | 4 ++--
 5 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/kymatio/scattering2d/frontend/base_frontend.py b/kymatio/scattering2d/frontend/base_frontend.py
index fade591..08b7f0a 100644
--- a/kymatio/scattering2d/frontend/base_frontend.py
+++ b/kymatio/scattering2d/frontend/base_frontend.py
@@ -6,6 +6,10 @@ from ..filter_bank import filter_bank
 from ..utils import compute_padding
 
 
+def _no_pad(x):
+    return x
+
+
 class ScatteringBase2D(ScatteringBase):
     def __init__(self, J, shape, L=8, max_order=2, pre_pad=False,
             backend=None, out_type='array'):
@@ -29,7 +33,7 @@ class ScatteringBase2D(ScatteringBase):
             self.pad = self.backend.Pad([(self._M_padded - M) // 2, (self._M_padded - M+1) // 2, (self._N_padded - N) // 2,
                                 (self._N_padded - N + 1) // 2], [M, N])
         else:
-            self.pad = lambda x: x
+            self.pad = _no_pad
 
         self.unpad = self.backend.unpad
 
diff --git a/kymatio/scattering2d/frontend/torch_frontend.py b/kymatio/scattering2d/frontend/torch_frontend.py
index 66ba548..8f2e365 100644
--- a/kymatio/scattering2d/frontend/torch_frontend.py
+++ b/kymatio/scattering2d/frontend/torch_frontend.py
@@ -5,6 +5,10 @@ from ...scattering2d.core.scattering2d import scattering2d
 from ...frontend.torch_frontend import ScatteringTorch
 
 
+def _append_channel(x):
+    return x.reshape(x.shape + (1,))
+
+
 class ScatteringTorch2D(ScatteringTorch, ScatteringBase2D):
     def __init__(self, J, shape, L=8, max_order=2, pre_pad=False,
             backend='torch', out_type='array'):
@@ -16,7 +20,7 @@ class ScatteringTorch2D(ScatteringTorch, ScatteringBase2D):
 
         if pre_pad:
             # Need to cast to complex in Torch
-            self.pad = lambda x: x.reshape(x.shape + (1,))
+            self.pad = _append_channel
 
         self.register_filters()
 
diff --git a/kymatio/scattering3d/frontend/numpy_frontend.py b/kymatio/scattering3d/frontend/numpy_frontend.py
index 2c78bda..f0a1632 100644
--- a/kymatio/scattering3d/frontend/numpy_frontend.py
+++ b/kymatio/scattering3d/frontend/numpy_frontend.py
@@ -41,10 +41,10 @@ class HarmonicScatteringNumPy3D(ScatteringNumPy, ScatteringBase3D):
         if not self.method in methods:
             raise ValueError('method must be in {}'.format(methods))
 
-        self.averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
+        averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
 
         S = scattering3d(input_array, filters=self.filters, rotation_covariant=self.rotation_covariant, L=self.L,
-                            J=self.J, max_order=self.max_order, backend=self.backend, averaging=self.averaging)
+                            J=self.J, max_order=self.max_order, backend=self.backend, averaging=averaging)
 
 
         scattering_shape = S.shape[1:]
diff --git a/kymatio/scattering3d/frontend/tensorflow_frontend.py b/kymatio/scattering3d/frontend/tensorflow_frontend.py
index 95e1a11..2bcf5a8 100644
--- a/kymatio/scattering3d/frontend/tensorflow_frontend.py
+++ b/kymatio/scattering3d/frontend/tensorflow_frontend.py
@@ -46,7 +46,7 @@ class HarmonicScatteringTensorFlow3D(ScatteringTensorFlow, ScatteringBase3D):
                 raise ValueError('method must be in {}'.format(methods))
 
             if self.method == 'integral':
-                self.averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
+                averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
 
             batch_shape = tf.shape(x)[:-3]
             signal_shape = tf.shape(x)[-3:]
@@ -56,7 +56,7 @@ class HarmonicScatteringTensorFlow3D(ScatteringTensorFlow, ScatteringBase3D):
             S = scattering3d(x, filters=self.filters,
                              rotation_covariant=self.rotation_covariant,
                              L=self.L, J=self.J, max_order=self.max_order,
-                             backend=self.backend, averaging=self.averaging)
+                             backend=self.backend, averaging=averaging)
 
             scattering_shape = tf.shape(S)[1:]
 
diff --git a/kymatio/scattering3d/frontend/torch_frontend.py b/kymatio/scattering3d/frontend/torch_frontend.py
index 115fc4b..4fa88dc 100644
--- a/kymatio/scattering3d/frontend/torch_frontend.py
+++ b/kymatio/scattering3d/frontend/torch_frontend.py
@@ -68,10 +68,10 @@ class HarmonicScatteringTorch3D(ScatteringTorch, ScatteringBase3D):
             raise ValueError('method must be in {}'.format(methods))
 
         if self.method == 'integral': \
-                self.averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
+                averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
 
         S = scattering3d(input_array, filters=self.filters, rotation_covariant=self.rotation_covariant, L=self.L,
-                            J=self.J, max_order=self.max_order, backend=self.backend, averaging=self.averaging)
+                            J=self.J, max_order=self.max_order, backend=self.backend, averaging=averaging)
         scattering_shape = S.shape[1:]
 
         S = S.reshape(batch_shape + scattering_shape)
-- 
2.43.0


From a5da341cb1c876c4a602235b854d8988b0ef483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:14 +0000
Subject: [PATCH 22/35] fix: get_cache_dir survives another process creating
 the directory first

---
 kymatio/caching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/caching.py b/kymatio/caching.py
index 0c0d2a7..caa11a7 100644
--- a/kymatio/caching.py
+++ b/kymatio/caching.py
@@ -55,7 +55,7 @@ def get_cache_dir(name="", cache_base_dir=None, create=True):
         return path
     else:
         if create:
-            os.makedirs(path)
+            os.makedirs(path, exist_ok=True)
             return path
         else:
             raise ValueError(
-- 
2.43.0


From ebf7f33261f971ba5518e0299cba791f92fb0cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:49 +0000
Subject: [PATCH 23/35] fix: reject an empty shape tuple with ValueError

---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 8d90dbc..17ec735 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -51,7 +51,7 @@ class ScatteringBase1D(ScatteringBase):
         if isinstance(self.shape, numbers.Integral):
             self.shape = (self.shape,)
         elif isinstance(self.shape, tuple):
-            if len(self.shape) > 1:
+            if len(self.shape) != 1:
                 raise ValueError("If shape is specified as a tuple, it must "
                     "have exactly one element. Got: {}".format(self.shape))
             self.shape = self.shape
-- 
2.43.0


From 9d0bc042dbe15d81bbf0f4cd98d811bcee8e93d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:49 +0000
Subject: [PATCH 24/35] fix: reject non-array inputs in the JAX frontends with
 TypeError

---
 kymatio/backend/jax_backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kymatio/backend/jax_backend.py b/kymatio/backend/jax_backend.py
index 4e3a77e..f21a911 100644
--- a/kymatio/backend/jax_backend.py
+++ b/kymatio/backend/jax_backend.py
@@ -1,3 +1,4 @@
+import numpy as onp
 from jax import numpy
 
 
@@ -15,3 +16,7 @@ class JaxBackend(NumpyBackend):
         if x is None:
             raise TypeError('The input should be not empty.')
 
+        # NumPy arrays are accepted, as are tracers (e.g., within jax.jit).
+        if not isinstance(x, (onp.ndarray, numpy.ndarray)):
+            raise TypeError(f'The input should be a JAX array, got type {type(x)}')
+
-- 
2.43.0


From d695c38f49c35e91338d41a3fb08edffd60c33bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:08 +0000
Subject: [PATCH 25/35] fix: reject samples of the wrong size in the
 scikit-learn transformers

---
 kymatio/frontend/sklearn_frontend.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index c966d94..2882f72 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -1,3 +1,5 @@
+import math
+
 from sklearn.base import BaseEstimator, TransformerMixin
 
 
@@ -17,6 +19,13 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
         return params
 
     def predict(self, x):
+        # A wrong number of features would otherwise be regrouped silently
+        # into another number of samples.
+        n_features = math.prod(self.shape)
+        if x.shape[-1] != n_features:
+            raise ValueError('Each sample must have %i features, got %i.' % (
+                n_features, x.shape[-1]))
+
         batch_shape = x.shape[:-1]
         x = x.reshape((-1,) + self.shape)
         Sx = self.scattering(x)
-- 
2.43.0


From 975336f0ebb4449db4088c1c515fbb281325c12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:27 +0000
Subject: [PATCH 26/35] fix: scikit-learn transformers take padded images when
 pre_pad is set

---
 kymatio/frontend/sklearn_frontend.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index 2882f72..e996e18 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -19,15 +19,20 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
         return params
 
     def predict(self, x):
+        signal_shape = self.shape
+        if getattr(self, 'pre_pad', False):
+            # Images come padded by the caller.
+            signal_shape = (self._M_padded, self._N_padded)
+
         # A wrong number of features would otherwise be regrouped silently
         # into another number of samples.
-        n_features = math.prod(self.shape)
+        n_features = math.prod(signal_shape)
         if x.shape[-1] != n_features:
             raise ValueError('Each sample must have %i features, got %i.' % (
                 n_features, x.shape[-1]))
 
         batch_shape = x.shape[:-1]
-        x = x.reshape((-1,) + self.shape)
+        x = x.reshape((-1,) + signal_shape)
         Sx = self.scattering(x)
         Sx = Sx.reshape(batch_shape + (-1,))
 
-- 
2.43.0


From 7ef48b4ceef3750274aa4d109c88839156c5a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:27 +0000
Subject: [PATCH 27/35] fix: Keras Scattering2D takes padded images when
 pre_pad is set

---
 kymatio/scattering2d/frontend/keras_frontend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kymatio/scattering2d/frontend/keras_frontend.py b/kymatio/scattering2d/frontend/keras_frontend.py
index 071d6ca..2bec42d 100644
--- a/kymatio/scattering2d/frontend/keras_frontend.py
+++ b/kymatio/scattering2d/frontend/keras_frontend.py
@@ -14,6 +14,9 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
 
     def build(self, input_shape):
         shape = tuple(tensor_shape.TensorShape(input_shape).as_list()[-2:])
+        if self.pre_pad:
+            # The input is padded: find the image size which pads to it.
+            shape = tuple(n - 2 * 2 ** self.J for n in shape)
         self.S = ScatteringTensorFlow2D(J=self.J, shape=shape,
                                         L=self.L, max_order=self.max_order,
                                         pre_pad=self.pre_pad)
@@ -25,6 +28,9 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         m0 = input_shape[-2] // 2 ** self.J
         m1 = input_shape[-1] // 2 ** self.J
+        if self.pre_pad:
+            # The padding takes up one coefficient on each side.
+            m0, m1 = m0 - 2, m1 - 2
         nc = self.L * self.J + 1
         if self.max_order == 2:
             nc += (self.L ** 2) * self.J * (self.J - 1) // 2
-- 
2.43.0


From 3266676f24447d9a49ca791dd5bc4edeb85576ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:30 +0000
Subject: [PATCH 28/35] fix: scikit-learn transformers accept samples made of
 several signals

---
 kymatio/frontend/sklearn_frontend.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index e996e18..a3886f0 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -24,12 +24,12 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
             # Images come padded by the caller.
             signal_shape = (self._M_padded, self._N_padded)
 
-        # A wrong number of features would otherwise be regrouped silently
-        # into another number of samples.
+        # A sample consists of one or several (e.g., channels) whole signals.
+        # Otherwise, signals would silently mix values of different samples.
         n_features = math.prod(signal_shape)
-        if x.shape[-1] != n_features:
-            raise ValueError('Each sample must have %i features, got %i.' % (
-                n_features, x.shape[-1]))
+        if x.shape[-1] == 0 or x.shape[-1] % n_features != 0:
+            raise ValueError('The number of features must be a multiple of '
+                '%i, got %i.' % (n_features, x.shape[-1]))
 
         batch_shape = x.shape[:-1]
         x = x.reshape((-1,) + signal_shape)
-- 
2.43.0


From 09991dad16a91666945f6e859a08a80f27f9d6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:28 +0000
Subject: [PATCH 29/35] fix: reject inputs that are not tensors in the torch
 frontends with TypeError

---
 kymatio/backend/torch_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kymatio/backend/torch_backend.py b/kymatio/backend/torch_backend.py
index cbe7052..36a0b06 100644
--- a/kymatio/backend/torch_backend.py
+++ b/kymatio/backend/torch_backend.py
@@ -104,6 +104,9 @@ class TorchBackend:
         if x is None:
             raise TypeError('The input should be not empty.')
 
+        if not torch.is_tensor(x):
+            raise TypeError('The input should be a PyTorch Tensor.')
+
         cls.contiguous_check(x)
 
     @classmethod
-- 
2.43.0


From ac16a697afc4387d34fa8215d159c77119fff895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:20 +0000
Subject: [PATCH 30/35] fix: subsample 2D images of any batch shape, and reject
 sizes the factor does not divide

---
 kymatio/scattering2d/backend/numpy_backend.py      | 4 ++--
 kymatio/scattering2d/backend/tensorflow_backend.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/kymatio/scattering2d/backend/numpy_backend.py b/kymatio/scattering2d/backend/numpy_backend.py
index 3c89a3c..f405be8 100644
--- a/kymatio/scattering2d/backend/numpy_backend.py
+++ b/kymatio/scattering2d/backend/numpy_backend.py
@@ -69,9 +69,9 @@ class NumpyBackend2D(NumpyBackend):
         """
         cls.complex_check(x)
 
-        y = x.reshape(-1, k, x.shape[1] // k, k, x.shape[2] // k)
+        y = x.reshape(x.shape[:-2] + (k, x.shape[-2] // k, k, x.shape[-1] // k))
 
-        out = y.mean(axis=(1, 3))
+        out = y.mean(axis=(-4, -2))
 
         return out
 
diff --git a/kymatio/scattering2d/backend/tensorflow_backend.py b/kymatio/scattering2d/backend/tensorflow_backend.py
index 73bbe4a..9b35ae2 100644
--- a/kymatio/scattering2d/backend/tensorflow_backend.py
+++ b/kymatio/scattering2d/backend/tensorflow_backend.py
@@ -104,9 +104,10 @@ class TensorFlowBackend2D(TensorFlowBackend):
         """
         cls.complex_check(x)
 
-        y = tf.reshape(x, (-1, k, x.shape[1] // k, k, x.shape[2] // k))
+        # The batch size may be unknown when tracing a tf.function.
+        y = tf.reshape(x, tf.concat((tf.shape(x)[:-2], (k, x.shape[-2] // k, k, x.shape[-1] // k)), 0))
 
-        out = tf.reduce_mean(y, axis=(1, 3))
+        out = tf.reduce_mean(y, axis=(-4, -2))
         return out
 
 
-- 
2.43.0


From 5eebde9da75ebd3de105395e0c5e7953250ea5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:19 +0000
Subject: [PATCH 31/35] fix: reject mismatched sizes and real inputs in cdgmm3d
 of the TensorFlow backend

---
 kymatio/scattering3d/backend/tensorflow_backend.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering3d/backend/tensorflow_backend.py b/kymatio/scattering3d/backend/tensorflow_backend.py
index 2e26bfe..2a12ec3 100644
--- a/kymatio/scattering3d/backend/tensorflow_backend.py
+++ b/kymatio/scattering3d/backend/tensorflow_backend.py
@@ -67,8 +67,8 @@ class TensorFlowBackend3D(TensorFlowBackend):
             integrals.append(tf.reduce_sum(tf.reshape(tf.pow(input_array, q), shape=(tf.shape(input_array)[0], -1)), axis=1))
         return tf.stack(integrals, axis=-1)
 
-    @staticmethod
-    def cdgmm3d(A, B):
+    @classmethod
+    def cdgmm3d(cls, A, B):
         """Complex pointwise multiplication.
 
             Complex pointwise multiplication between (batched) tensor A and tensor B.
@@ -90,6 +90,11 @@ class TensorFlowBackend3D(TensorFlowBackend):
         if B.ndim != 3:
             raise RuntimeError('The dimension of the second input must be 3.')
 
+        cls.complex_check(A)
+
+        if A.shape[-3:] != B.shape:
+            raise RuntimeError('The inputs are not compatible for multiplication.')
+
         Cr = tf.cast(tf.math.real(A) * np.real(B) - tf.math.imag(A) * np.imag(B), tf.complex64)
         Ci = tf.cast(tf.math.real(A) * np.imag(B) + tf.math.imag(A) * np.real(B), tf.complex64)
 
-- 
2.43.0


From 178ef0710ed4072aacbd9d847fd9eb6972c9b6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:20 +0000
Subject: [PATCH 32/35] fix: 2D NumPy, scikit-learn and JAX transforms can be
 copied and pickled

---
 kymatio/scattering2d/backend/numpy_backend.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kymatio/scattering2d/backend/numpy_backend.py b/kymatio/scattering2d/backend/numpy_backend.py
index f405be8..51a276a 100644
--- a/kymatio/scattering2d/backend/numpy_backend.py
+++ b/kymatio/scattering2d/backend/numpy_backend.py
@@ -1,7 +1,7 @@
 from ...backend.numpy_backend import NumpyBackend
 
 class Pad(object):
-    def __init__(self, np, pad_size, input_size):
+    def __init__(self, backend, pad_size, input_size):
         """
             Padding which allows to simultaneously pad in a reflection fashion
             and map to complex.
@@ -14,14 +14,15 @@ class Pad(object):
                 size of the original signal
 
         """
-        self.np = np
+        # Refer to the backend since modules cannot be copied nor pickled.
+        self.backend = backend
         self.pad_size = pad_size
 
     def __call__(self, x):
         paddings = ((0, 0),)
         paddings += ((self.pad_size[0], self.pad_size[1]), (self.pad_size[2], self.pad_size[3]))
 
-        output = self.np.pad(x, paddings, mode='reflect')
+        output = self.backend._np.pad(x, paddings, mode='reflect')
         return output
 
 
@@ -77,7 +78,7 @@ class NumpyBackend2D(NumpyBackend):
 
     @classmethod
     def Pad(cls, pad_size, input_size):
-        return cls._Pad(cls._np, pad_size, input_size)
+        return cls._Pad(cls, pad_size, input_size)
 
     @classmethod
     def stack(cls, arrays):
-- 
2.43.0


From 6aa56cc6e7b3566d4efed815580c1822bc5033f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:13 +0000
Subject: [PATCH 33/35] fix: set_params of the scikit-learn transformers
 creates the transform anew

---
 kymatio/frontend/sklearn_frontend.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index a3886f0..a9aba1f 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -18,6 +18,21 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
             params[name] = getattr(self, attr)
         return params
 
+    def set_params(self, **params):
+        # The filters depend on the parameters, so these cannot be set one by
+        # one: create the transform anew.
+        new_params = self.get_params(deep=False)
+        for name in params:
+            if name not in new_params:
+                raise ValueError('Invalid parameter %r for estimator %s.' %
+                                 (name, self.__class__.__name__))
+
+        if params:
+            new_params.update(params)
+            self.__dict__ = self.__class__(**new_params).__dict__
+
+        return self
+
     def predict(self, x):
         signal_shape = self.shape
         if getattr(self, 'pre_pad', False):
-- 
2.43.0


From 96394347c5419ff29966c00dcf7f0ddbe4f0d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:38 +0000
Subject: [PATCH 34/35] fix: Keras Scattering1D with a tuple of Q can be loaded
 from a saved model

---
 kymatio/scattering1d/frontend/keras_frontend.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index 0cea7d9..a9c135a 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -40,4 +40,11 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
                 "max_order": self.max_order,
                 "oversampling": self._oversampling}
 
+    @classmethod
+    def from_config(cls, config):
+        # Tuples are turned into lists when a configuration is saved.
+        config = {key: tuple(value) if isinstance(value, list) else value
+                  for key, value in config.items()}
+        return cls(**config)
+
 ScatteringKeras1D._document()
-- 
2.43.0


From 3a49d0da4ec0166ae25d665325ee23f80a7c35d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:35 +0000
Subject: [PATCH 35/35] fix: scikit-learn transformers do not report a stride
 implied by oversampling

---
 kymatio/frontend/sklearn_frontend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index a9aba1f..09fa554 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -16,6 +16,9 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
         for name in self._get_param_names():
             attr = '_' + name if '_' + name in vars(self) else name
             params[name] = getattr(self, attr)
+        # A positive oversampling (deprecated) implies the stride.
+        if params.get('oversampling'):
+            params['stride'] = None
         return params
 
     def set_params(self, **params):
-- 
2.43.0

