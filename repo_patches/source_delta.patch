From eea3c367d151d8ad25c39e76e6a4a5146b0d15fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:42 +0000
Subject: [PATCH 01/63] fix: accept read-only 1-D input in dwt, downcoef and
 upcoef

---
 pywt/_extensions/_dwt.pxd | 2 +-
 pywt/_extensions/_dwt.pyx | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywt/_extensions/_dwt.pxd b/pywt/_extensions/_dwt.pxd
index bf5aefd..4e96cf0 100644
--- a/pywt/_extensions/_dwt.pxd
+++ b/pywt/_extensions/_dwt.pxd
@@ -1,5 +1,5 @@
 from ._pywt cimport Wavelet, cdata_t
 
 
-cpdef upcoef(bint do_rec_a, cdata_t[::1] coeffs, Wavelet wavelet, int level,
+cpdef upcoef(bint do_rec_a, const cdata_t[::1] coeffs, Wavelet wavelet, int level,
              size_t take)
diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index 0fba429..f3cdcaf 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -23,7 +23,7 @@ cpdef dwt_coeff_len(size_t data_len, size_t filter_len, MODE mode):
 
     return common.dwt_buffer_length(data_len, filter_len, mode)
 
-cpdef dwt_single(cdata_t[::1] data, Wavelet wavelet, MODE mode):
+cpdef dwt_single(const cdata_t[::1] data, Wavelet wavelet, MODE mode):
     cdef size_t output_len = dwt_coeff_len(data.size, wavelet.dec_len, mode)
     cdef np.ndarray cA, cD
     cdef int retval_a, retval_d
@@ -336,7 +336,7 @@ cpdef idwt_axis(np.ndarray coefs_a, np.ndarray coefs_d,
     return output
 
 
-cpdef upcoef(bint do_rec_a, cdata_t[::1] coeffs, Wavelet wavelet, int level,
+cpdef upcoef(bint do_rec_a, const cdata_t[::1] coeffs, Wavelet wavelet, int level,
              size_t take):
     cdef cdata_t[::1] rec
     cdef int i, retval
@@ -429,7 +429,7 @@ cpdef upcoef(bint do_rec_a, cdata_t[::1] coeffs, Wavelet wavelet, int level,
     return rec
 
 
-cpdef downcoef(bint do_dec_a, cdata_t[::1] data, Wavelet wavelet, MODE mode, int level):
+cpdef downcoef(bint do_dec_a, const cdata_t[::1] data, Wavelet wavelet, MODE mode, int level):
     cdef cdata_t[::1] coeffs
     cdef int i, retval
     cdef size_t output_len, data_size
-- 
2.43.0


From 555364c25b691b692db07a242fe19987016493f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:42 +0000
Subject: [PATCH 02/63] fix: keep precision and imaginary part of input in
 non-native byte order

---
 pywt/_extensions/_pywt.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index ddef575..227d9ac 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -1035,6 +1035,9 @@ cpdef np.dtype _check_dtype(data):
     cdef np.dtype dt
     try:
         dt = data.dtype
+        if not dt.isnative:
+            # same precision, in native byte order
+            dt = dt.newbyteorder('=')
         if dt not in (np.float64, np.float32, np.complex64, np.complex128):
             if dt == np.half:
                 # half-precision input converted to single precision
-- 
2.43.0


From 09eb29e296774798d908346f373bde10c711f18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:43 +0000
Subject: [PATCH 03/63] fix: accept lists of complex numbers as transform input

---
 pywt/_extensions/_pywt.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index 227d9ac..ddd0873 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -1049,7 +1049,10 @@ cpdef np.dtype _check_dtype(data):
                 # integer input was always accepted; convert to float64
                 dt = np.dtype('float64')
     except AttributeError:
-        dt = np.dtype('float64')
+        if np.iscomplexobj(data):
+            dt = np.dtype('complex128')
+        else:
+            dt = np.dtype('float64')
     return dt
 
 
-- 
2.43.0


From c63efc8b22077b1f153d5d22d57fed06aa16cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:27 +0000
Subject: [PATCH 04/63] fix: garrote thresholding no longer overflows for small
 integer types

---
 pywt/_thresholding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 33af65b..9ca307d 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -37,7 +37,7 @@ def nn_garrote(data, value, substitute=0):
 
     with np.errstate(divide='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
-        thresholded = (1 - value**2/magnitude**2)
+        thresholded = (1 - (value/magnitude)**2)
         thresholded.clip(min=0, max=None, out=thresholded)
         thresholded = data * thresholded
 
-- 
2.43.0


From 1ebd082981f34e9baf156b078f03cf9decc1e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:27 +0000
Subject: [PATCH 05/63] fix: soft and garrote thresholding of zeros with
 threshold zero, and of scalars

---
 pywt/_thresholding.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 9ca307d..5bd2077 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -17,11 +17,9 @@ def soft(data, value, substitute=0):
     data = np.asarray(data)
     magnitude = np.absolute(data)
 
-    with np.errstate(divide='ignore'):
-        # divide by zero okay as np.inf values get clipped, so ignore warning.
-        thresholded = (1 - value/magnitude)
-        thresholded.clip(min=0, max=None, out=thresholded)
-        thresholded = data * thresholded
+    # zeros stay zero for any threshold, so avoid dividing by them
+    nonzero = np.where(magnitude == 0, 1, magnitude)
+    thresholded = data * np.maximum(1 - value/nonzero, 0)
 
     if substitute == 0:
         return thresholded
@@ -35,11 +33,9 @@ def nn_garrote(data, value, substitute=0):
     data = np.asarray(data)
     magnitude = np.absolute(data)
 
-    with np.errstate(divide='ignore'):
-        # divide by zero okay as np.inf values get clipped, so ignore warning.
-        thresholded = (1 - (value/magnitude)**2)
-        thresholded.clip(min=0, max=None, out=thresholded)
-        thresholded = data * thresholded
+    # zeros stay zero for any threshold, so avoid dividing by them
+    nonzero = np.where(magnitude == 0, 1, magnitude)
+    thresholded = data * np.maximum(1 - (value/nonzero)**2, 0)
 
     if substitute == 0:
         return thresholded
-- 
2.43.0


From 4e7f0541de2cb8a8b4a49699c2c3b723dc4e460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:27 +0000
Subject: [PATCH 06/63] fix: firm thresholding keeps a large value at the first
 index

---
 pywt/_thresholding.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 5bd2077..6487953 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -239,7 +239,4 @@ def threshold_firm(data, value_low, value_high):
         thresholded = data * thresholded
 
     # restore hard-thresholding behavior for values > value_high
-    large_vals = np.where(magnitude > value_high)
-    if np.any(large_vals[0]):
-        thresholded[large_vals] = data[large_vals]
-    return thresholded
+    return np.where(magnitude > value_high, data, thresholded)
-- 
2.43.0


From 33a8cd6ff859d610a5e5e6c250159d8f77cbc8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:27 +0000
Subject: [PATCH 07/63] fix: firm thresholding with equal, infinite or zero
 thresholds

---
 pywt/_thresholding.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 6487953..ea7897f 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -231,12 +231,14 @@ def threshold_firm(data, value_low, value_high):
 
     data = np.asarray(data)
     magnitude = np.absolute(data)
-    with np.errstate(divide='ignore'):
-        # divide by zero okay as np.inf values get clipped, so ignore warning.
-        vdiff = value_high - value_low
-        thresholded = value_high * (1 - value_low/magnitude) / vdiff
-        thresholded.clip(min=0, max=None, out=thresholded)
-        thresholded = data * thresholded
+    if value_high == value_low or np.isinf(value_high):
+        # hard- or soft-thresholding
+        slope = 1
+    else:
+        slope = value_high / (value_high - value_low)
+    # zeros stay zero for any threshold, so avoid dividing by them
+    nonzero = np.where(magnitude == 0, 1, magnitude)
+    thresholded = data * np.maximum(slope * (1 - value_low/nonzero), 0)
 
     # restore hard-thresholding behavior for values > value_high
     return np.where(magnitude > value_high, data, thresholded)
-- 
2.43.0


From 275d049d4f2dacf2a18f5d59a360d756d7afea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:54 +0000
Subject: [PATCH 08/63] fix: imra2 and imran no longer modify the components
 they sum

---
 pywt/_mra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index a41431e..c2465c4 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -283,7 +283,7 @@ def imra2(mra_coeffs):
     rec = mra_coeffs[0]
     for j in range(1, len(mra_coeffs)):
         for n in range(3):
-            rec += mra_coeffs[j][n]
+            rec = rec + mra_coeffs[j][n]
     return rec
 
 
@@ -430,5 +430,5 @@ def imran(mra_coeffs):
     rec = mra_coeffs[0]
     for j in range(1, len(mra_coeffs)):
         for k, v in mra_coeffs[j].items():
-            rec += v
+            rec = rec + v
     return rec
-- 
2.43.0


From b6b4f27e7ceeaf163e671e837b3cad481a66e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:54 +0000
Subject: [PATCH 09/63] fix: mra, mra2 and mran accept array_like data

---
 pywt/_mra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index c2465c4..8edfd5b 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -72,6 +72,7 @@ def mra(data, wavelet, level=None, axis=-1, transform='swt',
         https://doi.org/10.2307/2965551
 
     """
+    data = np.asarray(data)
     if transform == 'swt':
         if mode != 'periodization':
             raise ValueError(
@@ -202,6 +203,7 @@ def mra2(data, wavelet, level=None, axes=(-2, -1), transform='swt2',
         Statistical Association Vol. 92, No. 439 (Sep., 1997), pp. 868-880.
         https://doi.org/10.2307/2965551
     """
+    data = np.asarray(data)
     if transform == 'swt2':
         if mode != 'periodization':
             raise ValueError(
@@ -342,6 +344,7 @@ def mran(data, wavelet, level=None, axes=None, transform='swtn',
         Statistical Association Vol. 92, No. 439 (Sep., 1997), pp. 868-880.
         https://doi.org/10.2307/2965551
     """
+    data = np.asarray(data)
     axes, axes_shapes, ndim_transform = _prep_axes_wavedecn(data.shape, axes)
     wavelets = _wavelets_per_axis(wavelet, axes)
 
-- 
2.43.0


From 74f8f19d2ac6f94c606c88dbd60bc386bc182c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:54 +0000
Subject: [PATCH 10/63] fix: default level of mra2 and mran considers only the
 transformed axes

---
 pywt/_mra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index 8edfd5b..9057555 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -209,7 +209,7 @@ def mra2(data, wavelet, level=None, axes=(-2, -1), transform='swt2',
             raise ValueError(
                 "transform swt only supports mode='periodization'")
         if level is None:
-            level = min(swt_max_level(s) for s in data.shape)
+            level = min(swt_max_level(data.shape[ax]) for ax in axes)
         kwargs = {"wavelet": wavelet, "axes": axes, "norm": True}
         forward = partial(swt2, level=level, trim_approx=True, **kwargs)
         inverse = partial(iswt2, **kwargs)
@@ -353,7 +353,7 @@ def mran(data, wavelet, level=None, axes=None, transform='swtn',
             raise ValueError(
                 "transform swt only supports mode='periodization'")
         if level is None:
-            level = min(swt_max_level(s) for s in data.shape)
+            level = min(swt_max_level(s) for s in axes_shapes)
         kwargs = {"wavelet": wavelets, "axes": axes, "norm": True}
         forward = partial(swtn, level=level, trim_approx=True, **kwargs)
         inverse = partial(iswtn, **kwargs)
-- 
2.43.0


From e542cc430b750d8113e3680e064ad1c62a23a215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:54 +0000
Subject: [PATCH 11/63] fix: wavedecn_shapes uses the same default level as
 wavedecn

---
 pywt/_multilevel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 0e5ca9c..1529cc2 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -926,7 +926,7 @@ def wavedecn_shapes(shape, wavelet, mode='symmetric', level=None, axes=None):
     modes = _modes_per_axis(mode, axes)
     dec_lengths = [w.dec_len for w in wavelets]
 
-    level = _check_level(min(axes_shapes), max(dec_lengths), level)
+    level = _check_level(axes_shapes, dec_lengths, level)
 
     shapes = []
     for i in range(level):
-- 
2.43.0


From b7627831afb185b1f6a92f259d8c15328aa6180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:36 +0000
Subject: [PATCH 12/63] fix: iswtn does not modify the coefficient dictionaries
 it is given

---
 pywt/_swt.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index f64e959..ab6d49f 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -768,9 +768,9 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
     for j in range(num_levels):
         step_size = int(pow(2, num_levels-j-1))
         last_index = step_size
-        if not trim_approx:
-            a = coeffs[j].pop('a'*ndim_transform)  # will restore later
-        details = coeffs[j]
+        # intermediate approximations (if present) are not needed
+        details = {k: v for k, v in coeffs[j].items()
+                   if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
             [dt, ] + [v.dtype for v in details.values()]))
@@ -820,6 +820,4 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                 output[tuple(indices)] += x
                 ntransforms += 1
             output[tuple(indices)] /= ntransforms  # normalize
-        if not trim_approx:
-            coeffs[j]['a'*ndim_transform] = a  # restore approx coeffs to dict
     return output
-- 
2.43.0


From 52715ed3aa948bd66b39055f91a2896da0d6a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:36 +0000
Subject: [PATCH 13/63] fix: iswt2 and iswtn keep the precision reached at
 coarser levels

---
 pywt/_swt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index ab6d49f..c7ed031 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -489,7 +489,7 @@ def iswt2(coeffs, wavelet, norm=False, axes=(-2, -1)):
         # make sure output shares the common dtype
         # (conversion of dtype for individual coeffs is handled within idwt2 )
         common_dtype = np.result_type(*(
-            [dt, ] + [_check_dtype(c) for c in [cH, cV, cD]]))
+            [output.dtype, ] + [_check_dtype(c) for c in [cH, cV, cD]]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
@@ -773,7 +773,7 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                    if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
-            [dt, ] + [v.dtype for v in details.values()]))
+            [output.dtype, ] + [v.dtype for v in details.values()]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
-- 
2.43.0


From e02133954b288294d83bfa1b238cadc0a21135c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:36 +0000
Subject: [PATCH 14/63] fix: swt2 and swtn reject a negative level

---
 pywt/_swt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index c7ed031..e2ddb0b 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -635,6 +635,9 @@ def swtn(data, wavelet, level, start_level=0, axes=None, trim_approx=False,
     if data.ndim < 1:
         raise ValueError("Input data must be at least 1D")
 
+    if level < 0:
+        raise ValueError("level must be non-negative.")
+
     if axes is None:
         axes = range(data.ndim)
     axes = [a + data.ndim if a < 0 else a for a in axes]
-- 
2.43.0


From a4fd218ae13c7550851e4fd3ad621bfa5ff195d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:36 +0000
Subject: [PATCH 15/63] fix: wavelet packet get_level(0, 'freq') returns the
 root node

---
 pywt/_wavelet_packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 57ebcb9..0f38290 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -20,8 +20,8 @@ from ._multidim import dwt2, dwtn, idwt2, idwtn
 
 
 def get_graycode_order(level, x='a', y='d'):
-    graycode_order = [x, y]
-    for i in range(level - 1):
+    graycode_order = ['']
+    for i in range(level):
         graycode_order = [x + path for path in graycode_order] + \
                          [y + path for path in graycode_order[::-1]]
     return graycode_order
-- 
2.43.0


From 825c8c793a8f0970eda81a3707c9bc498b8abc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:36 +0000
Subject: [PATCH 16/63] fix: WaveletPacketND reconstructs data of odd size

---
 pywt/_wavelet_packets.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 0f38290..18f9674 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -675,6 +675,9 @@ class NodeND(BaseNode):
             )
         else:
             rec = idwtn(coeffs, self.wavelet, self.mode, axes=self.axes)
+            if self._data_shape is not None and (
+                    rec.shape != self._data_shape):
+                rec = rec[tuple([slice(sz) for sz in self._data_shape])]
             if update:
                 self.data = rec
             return rec
@@ -741,7 +744,7 @@ class WaveletPacket(Node):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
@@ -867,7 +870,7 @@ class WaveletPacket2D(Node2D):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
@@ -1015,7 +1018,7 @@ class WaveletPacketND(NodeND):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
-- 
2.43.0


From b612a5e0105e86d8ebbc70b9a15a02a8c4c981f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:36 +0000
Subject: [PATCH 17/63] fix: assigning a wavelet packet node keeps precision
 and imaginary part of its data

---
 pywt/_wavelet_packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 18f9674..83ff301 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -299,7 +299,7 @@ class BaseNode:
                 else:
                     self.data = np.asarray(data)
                 # convert data to nearest supported dtype
-                dtype = _check_dtype(data)
+                dtype = _check_dtype(self.data)
                 if self.data.dtype != dtype:
                     self.data = self.data.astype(dtype)
         else:
-- 
2.43.0


From 46ff1b86ebfce2fbe663a6e4be0cb9a5ae601a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:36 +0000
Subject: [PATCH 18/63] fix: wavelet packet reconstruct(update=True) updates
 subnodes as documented

---
 pywt/_wavelet_packets.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 83ff301..a41fb36 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -454,9 +454,9 @@ class Node(BaseNode):
         node_a, node_d = self._get_node(self.A), self._get_node(self.D)
 
         if node_a is not None:
-            data_a = node_a.reconstruct()  # TODO: (update) ???
+            data_a = node_a.reconstruct(update)
         if node_d is not None:
-            data_d = node_d.reconstruct()  # TODO: (update) ???
+            data_d = node_d.reconstruct(update)
 
         if data_a is None and data_d is None:
             raise ValueError("Node is a leaf node and cannot be reconstructed"
@@ -517,13 +517,13 @@ class Node2D(BaseNode):
             self._get_node(self.HL), self._get_node(self.HH)
 
         if node_ll is not None:
-            data_ll = node_ll.reconstruct()
+            data_ll = node_ll.reconstruct(update)
         if node_lh is not None:
-            data_lh = node_lh.reconstruct()
+            data_lh = node_lh.reconstruct(update)
         if node_hl is not None:
-            data_hl = node_hl.reconstruct()
+            data_hl = node_hl.reconstruct(update)
         if node_hh is not None:
-            data_hh = node_hh.reconstruct()
+            data_hh = node_hh.reconstruct(update)
 
         if (data_ll is None and data_lh is None and
                 data_hl is None and data_hh is None):
@@ -666,7 +666,7 @@ class NodeND(BaseNode):
             node = self._get_node(key)
             if node is not None:
                 nnodes += 1
-                coeffs[key] = node.reconstruct()
+                coeffs[key] = node.reconstruct(update)
 
         if nnodes == 0:
             raise ValueError(
-- 
2.43.0


From 63cfcf71377a15d2f306d28bcdf85adb1730042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:36 +0000
Subject: [PATCH 19/63] fix: pickled wavelet packet trees keep their axes and
 edited nodes

---
 pywt/_wavelet_packets.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index a41fb36..ceb7cf8 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -727,10 +727,6 @@ class WaveletPacket(Node):
 
         self._maxlevel = maxlevel
 
-    def __reduce__(self):
-        return (WaveletPacket,
-                (self.data, self.wavelet, self.mode, self.maxlevel))
-
     def reconstruct(self, update=True):
         """
         Reconstruct data value using coefficients from subnodes.
@@ -853,10 +849,6 @@ class WaveletPacket2D(Node2D):
             self.data_size = None
         self._maxlevel = maxlevel
 
-    def __reduce__(self):
-        return (WaveletPacket2D,
-                (self.data, self.wavelet, self.mode, self.maxlevel))
-
     def reconstruct(self, update=True):
         """
         Reconstruct data using coefficients from subnodes.
-- 
2.43.0


From 3ef33459d789ffc50067c3b3de4731dc2c7feefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:09 +0000
Subject: [PATCH 20/63] fix: copied and pickled Wavelet objects keep their
 attributes

---
 pywt/_extensions/_pywt.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index ddd0873..65e73ff 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -431,7 +431,14 @@ cdef public class Wavelet [type WaveletType, object WaveletObject]:
             self.w = NULL
 
     def __reduce__(self):
-        return (Wavelet, (self.name, self.filter_bank))
+        # a built-in wavelet is restored from its name, which also brings back
+        # the attributes that the filters do not carry
+        filter_bank = self.filter_bank if self.number is None else None
+        return (Wavelet, (self.name, filter_bank),
+                (self.orthogonal, self.biorthogonal))
+
+    def __setstate__(self, state):
+        self.orthogonal, self.biorthogonal = state
 
     def __len__(self):
         return self.w.dec_len
-- 
2.43.0


From 12e9497eae88920dd79823a0230da64de9a0b17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:09 +0000
Subject: [PATCH 21/63] fix: copied and pickled ContinuousWavelet objects keep
 modified parameters

---
 pywt/_extensions/_pywt.pyx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index 65e73ff..14ddc3d 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -785,7 +785,18 @@ cdef public class ContinuousWavelet [type ContinuousWaveletType, object Continuo
             self.w = NULL
 
     def __reduce__(self):
-        return (ContinuousWavelet, (self.name, self.dt))
+        # the name does not carry the attributes modified by the user
+        state = (self.orthogonal, self.biorthogonal, self.complex_cwt,
+                 self.w.lower_bound, self.w.upper_bound,
+                 self.w.center_frequency, self.w.bandwidth_frequency,
+                 self.w.fbsp_order)
+        return (ContinuousWavelet, (self.name, self.dt), state)
+
+    def __setstate__(self, state):
+        (self.orthogonal, self.biorthogonal, self.complex_cwt,
+         self.w.lower_bound, self.w.upper_bound,
+         self.w.center_frequency, self.w.bandwidth_frequency,
+         self.w.fbsp_order) = state
 
     property family_number:
         "Wavelet family number"
-- 
2.43.0


From 0f29eefb9f62ffd02c5826505f6accd1760c3245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:09 +0000
Subject: [PATCH 22/63] fix: downcoef and upcoef reject an invalid part such as
 'ad' or ''

---
 pywt/_dwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index 1af28d9..a6a1789 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -336,7 +336,7 @@ def downcoef(part, data, wavelet, mode='symmetric', level=1):
     data = np.asarray(data, dtype=dt, order='C')
     if data.ndim > 1:
         raise ValueError("downcoef only supports 1d data.")
-    if part not in 'ad':
+    if part not in ('a', 'd'):
         raise ValueError(f"Argument 1 must be 'a' or 'd', not '{part}'.")
     mode = Modes.from_object(mode)
     wavelet = _as_wavelet(wavelet)
@@ -396,7 +396,7 @@ def upcoef(part, coeffs, wavelet, level=1, take=0):
     if coeffs.ndim > 1:
         raise ValueError("upcoef only supports 1d coeffs.")
     wavelet = _as_wavelet(wavelet)
-    if part not in 'ad':
+    if part not in ('a', 'd'):
         raise ValueError(f"Argument 1 must be 'a' or 'd', not '{part}'.")
     return np.asarray(_upcoef(part == 'a', coeffs, wavelet, level, take))
 
-- 
2.43.0


From e1fabe258dc67e206c3a80da496cb4187771f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:09 +0000
Subject: [PATCH 23/63] fix: downcoef no longer hangs for a single sample in
 reflect and antireflect mode

---
 pywt/_extensions/_dwt.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index f3cdcaf..0dc5533 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -439,6 +439,9 @@ cpdef downcoef(bint do_dec_a, const cdata_t[::1] data, Wavelet wavelet, MODE mod
 
     for i in range(level):
         data_size = data.size
+        if data_size == 1 and (mode == MODE.MODE_REFLECT or mode == MODE.MODE_ANTIREFLECT):
+            raise ValueError("Input data length must be greater than 1 for [anti]reflect mode.")
+
         output_len = common.dwt_buffer_length(data.size, wavelet.dec_len, mode)
         if output_len < 1:
             raise RuntimeError("Invalid output length.")
-- 
2.43.0


From 90d82a57f7e0560dbfbb1a606dccfff5750dba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:41 +0000
Subject: [PATCH 24/63] fix: dwtn and dwt2 reject an axis out of range instead
 of accessing invalid memory

---
 pywt/_multidim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index 5a30b80..11dcbaf 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -175,6 +175,8 @@ def dwtn(data, wavelet, mode='symmetric', axes=None):
     if axes is None:
         axes = range(data.ndim)
     axes = [a + data.ndim if a < 0 else a for a in axes]
+    if any(a < 0 or a >= data.ndim for a in axes):
+        raise AxisError("Axis greater than data dimensions")
 
     modes = _modes_per_axis(mode, axes)
     wavelets = _wavelets_per_axis(wavelet, axes)
-- 
2.43.0


From ba04ee2e568a8928ae31aa4525a3bdd041f75d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:41 +0000
Subject: [PATCH 25/63] fix: n-D inverse transforms reject coefficients too
 short for the wavelet

---
 pywt/_extensions/_dwt.pyx   | 4 ++++
 pywt/_extensions/c/common.c | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index 0dc5533..9971706 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -289,6 +289,10 @@ cpdef idwt_axis(np.ndarray coefs_a, np.ndarray coefs_d,
     output_shape = input_shape.copy()
     output_shape[axis] = common.idwt_buffer_length(input_shape[axis],
                                                    wavelet.rec_len, mode)
+    if output_shape[axis] < 1:
+        msg = ("Invalid coefficient arrays length for specified wavelet. "
+               "Wavelet and mode must be the same as used for decomposition.")
+        raise ValueError(msg)
     output = np.empty(output_shape, output_dtype)
 
     output_info.ndim = output.ndim
diff --git a/pywt/_extensions/c/common.c b/pywt/_extensions/c/common.c
index 030d8e7..438990a 100644
--- a/pywt/_extensions/c/common.c
+++ b/pywt/_extensions/c/common.c
@@ -69,6 +69,8 @@ size_t idwt_buffer_length(size_t coeffs_len, size_t filter_len, MODE mode){
             case MODE_PERIODIZATION:
                 return 2*coeffs_len;
             default:
+                if(2*coeffs_len+2 < filter_len)
+                    return 0;
                 return 2*coeffs_len-filter_len+2;
     }
 }
-- 
2.43.0


From f4b652cb8b4f560b84f81be4a2fb1891ab2d428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:09 +0000
Subject: [PATCH 26/63] fix: reject an axis that is repeated under its negative
 number

---
 pywt/_multilevel.py      | 18 +++++++++++++-----
 pywt/_utils.py           |  6 ++++++
 pywt/_wavelet_packets.py |  5 +++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 1529cc2..4168bad 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -20,7 +20,13 @@ from ._dwt import dwt, dwt_coeff_len, idwt
 from ._extensions._dwt import dwt_max_level
 from ._extensions._pywt import Modes, Wavelet
 from ._multidim import _fix_coeffs, dwt2, dwtn, idwt2, idwtn
-from ._utils import AxisError, _as_wavelet, _modes_per_axis, _wavelets_per_axis
+from ._utils import (
+    AxisError,
+    _as_wavelet,
+    _has_repeated_axes,
+    _modes_per_axis,
+    _wavelets_per_axis,
+)
 
 __all__ = ['wavedec', 'waverec', 'wavedec2', 'waverec2', 'wavedecn',
            'waverecn', 'coeffs_to_array', 'array_to_coeffs', 'ravel_coeffs',
@@ -228,7 +234,7 @@ def wavedec2(data, wavelet, mode='symmetric', level=None, axes=(-2, -1)):
     axes = tuple(axes)
     if len(axes) != 2:
         raise ValueError("Expected 2 axes")
-    if len(axes) != len(set(axes)):
+    if _has_repeated_axes(axes, data.ndim):
         raise ValueError("The axes passed to wavedec2 must be unique.")
     try:
         axes_sizes = [data.shape[ax] for ax in axes]
@@ -312,6 +318,8 @@ def waverec2(coeffs, wavelet, mode='symmetric', axes=(-2, -1)):
 
     a, ds = coeffs[0], coeffs[1:]
     a = np.asarray(a)
+    if _has_repeated_axes(axes, a.ndim):
+        raise ValueError("The axes passed to waverec2 must be unique.")
 
     for d in ds:
         if not isinstance(d, (list, tuple)) or len(d) != 3:
@@ -347,7 +355,7 @@ def _prep_axes_wavedecn(shape, axes):
         axes = range(ndim)
     else:
         axes = tuple(axes)
-    if len(axes) != len(set(axes)):
+    if _has_repeated_axes(axes, ndim):
         raise ValueError("The axes passed to wavedecn must be unique.")
     try:
         axes_shapes = [shape[ax] for ax in axes]
@@ -560,7 +568,7 @@ def waverecn(coeffs, wavelet, mode='symmetric', axes=None):
         axes = range(ndim)
     else:
         axes = tuple(axes)
-    if len(axes) != len(set(axes)):
+    if _has_repeated_axes(axes, ndim):
         raise ValueError("The axes passed to waverecn must be unique.")
     ndim_transform = len(axes)
 
@@ -1193,7 +1201,7 @@ def unravel_coeffs(arr, coeff_slices, coeff_shapes, output_format='wavedecn'):
 
 def _check_fswavedecn_axes(data, axes):
     """Axes checks common to fswavedecn, fswaverecn."""
-    if len(axes) != len(set(axes)):
+    if _has_repeated_axes(axes, data.ndim):
         raise AxisError("The axes passed to fswavedecn must be unique.")
     try:
         [data.shape[ax] for ax in axes]
diff --git a/pywt/_utils.py b/pywt/_utils.py
index c7dfcb6..27024bb 100644
--- a/pywt/_utils.py
+++ b/pywt/_utils.py
@@ -33,6 +33,12 @@ def _as_wavelet(wavelet):
     return wavelet
 
 
+def _has_repeated_axes(axes, ndim):
+    """Whether an axis occurs twice, also under its negative number."""
+    axes = [a + ndim if a < 0 else a for a in axes]
+    return len(axes) != len(set(axes))
+
+
 def _wavelets_per_axis(wavelet, axes):
     """Initialize Wavelets for each axis to be transformed.
 
diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index ceb7cf8..9727ad1 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -17,6 +17,7 @@ import numpy as np
 from ._dwt import dwt, dwt_max_level, idwt
 from ._extensions._pywt import Wavelet, _check_dtype
 from ._multidim import dwt2, dwtn, idwt2, idwtn
+from ._utils import _has_repeated_axes
 
 
 def get_graycode_order(level, x='a', y='d'):
@@ -841,6 +842,8 @@ class WaveletPacket2D(Node2D):
             if data.ndim < 2:
                 raise ValueError(
                     "WaveletPacket2D requires data with 2 or more dimensions.")
+            if _has_repeated_axes(self.axes, data.ndim):
+                raise ValueError("Expected two unique axes.")
             self.data_size = data.shape
             transform_size = [data.shape[ax] for ax in self.axes]
             if maxlevel is None:
@@ -973,6 +976,8 @@ class WaveletPacketND(NodeND):
             data = np.asarray(data)
             if data.ndim == 0:
                 raise ValueError("data must be at least 1D")
+            if _has_repeated_axes(axes, data.ndim):
+                raise ValueError("Expected a set of unique axes.")
             ndim = data.ndim
         else:
             ndim = len(axes)
-- 
2.43.0


From f62604744fe56b9974edf888e3b479a32ad62a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:09 +0000
Subject: [PATCH 27/63] fix: idwtn rejects a number of axes that does not match
 the coefficients

---
 pywt/_multidim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index 11dcbaf..54255cc 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -283,6 +283,9 @@ def idwtn(coeffs, wavelet, mode='symmetric', axes=None):
         ndim = ndim_transform
     else:
         ndim = len(coeff_shape)
+    if len(axes) != ndim_transform:
+        raise ValueError("The number of axes must match the length of the "
+                         "coefficient names.")
     axes = [a + ndim if a < 0 else a for a in axes]
 
     modes = _modes_per_axis(mode, axes)
-- 
2.43.0


From 29ee0715b802df7972c1316998344f353a0d54d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:09 +0000
Subject: [PATCH 28/63] fix: n-D inverse transforms report a failed synthesis
 instead of returning zeros

---
 pywt/_extensions/c/wt.template.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pywt/_extensions/c/wt.template.c b/pywt/_extensions/c/wt.template.c
index d79fbd3..82ad743 100644
--- a/pywt/_extensions/c/wt.template.c
+++ b/pywt/_extensions/c/wt.template.c
@@ -177,6 +177,8 @@ int CAT(TYPE, _idwt_axis)(const TYPE * const restrict coefs_a, const ArrayInfo *
     size_t num_loops = 1;
     TYPE * temp_coefs_a = NULL, * temp_coefs_d = NULL, * temp_output = NULL;
 
+    int retval = 2;
+
     // These are boolean values, but MSVC does not have <stdbool.h>
     int make_temp_coefs_a, make_temp_coefs_d, make_temp_output;
     int have_a = ((coefs_a != NULL) && (a_info != NULL));
@@ -277,21 +279,23 @@ int CAT(TYPE, _idwt_axis)(const TYPE * const restrict coefs_a, const ArrayInfo *
             // Pointer arithmetic on NULL is undefined
             const TYPE * a_row = make_temp_coefs_a ? temp_coefs_a
                 : (const TYPE *)((const char *) coefs_a + a_offset);
-            CAT(TYPE, _upsampling_convolution_valid_sf)
+            if (CAT(TYPE, _upsampling_convolution_valid_sf)
                 (a_row, a_info->shape[axis],
                  wavelet->CAT(rec_lo_, REAL_TYPE), wavelet->rec_len,
                  output_row, output_info.shape[axis],
-                 mode);
+                 mode) < 0)
+                goto failed;
         }
         if (have_d){
             // Pointer arithmetic on NULL is undefined
             const TYPE * d_row = make_temp_coefs_d ? temp_coefs_d
                 : (const TYPE *)((const char *) coefs_d + d_offset);
-            CAT(TYPE, _upsampling_convolution_valid_sf)
+            if (CAT(TYPE, _upsampling_convolution_valid_sf)
                 (d_row, d_info->shape[axis],
                  wavelet->CAT(rec_hi_, REAL_TYPE), wavelet->rec_len,
                  output_row, output_info.shape[axis],
-                 mode);
+                 mode) < 0)
+                goto failed;
         }
 
         // Copy from temporary output if necessary
@@ -307,11 +311,13 @@ int CAT(TYPE, _idwt_axis)(const TYPE * const restrict coefs_a, const ArrayInfo *
     free(temp_output);
     return 0;
 
+ failed:
+    retval = 4;
  cleanup:
     free(temp_coefs_a);
     free(temp_coefs_d);
     free(temp_output);
-    return 2;
+    return retval;
 }
 
 
-- 
2.43.0


From dc4fc50bef9828cd16ff7ce8346946d9fcd3c5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:09 +0000
Subject: [PATCH 29/63] fix: pad in smooth and antisymmetric mode without
 padding on the right, and of single samples

---
 pywt/_dwt.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index a6a1789..903afbd 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -462,15 +462,19 @@ def pad(x, pad_widths, mode):
     elif mode == 'smooth':
         def pad_smooth(vector, pad_width, iaxis, kwargs):
             # smooth extension to left
-            left = vector[pad_width[0]]
-            slope_left = (left - vector[pad_width[0] + 1])
+            i_left = pad_width[0]
+            i_right = vector.size - pad_width[1] - 1
+            # a single sample is extended as a constant, as in dwt
+            step = 1 if i_right > i_left else 0
+            left = vector[i_left]
+            slope_left = (left - vector[i_left + step])
             vector[:pad_width[0]] = \
                 left + np.arange(pad_width[0], 0, -1) * slope_left
 
             # smooth extension to right
-            right = vector[-pad_width[1] - 1]
-            slope_right = (right - vector[-pad_width[1] - 2])
-            vector[-pad_width[1]:] = \
+            right = vector[i_right]
+            slope_right = (right - vector[i_right - step])
+            vector[i_right + 1:] = \
                 right + np.arange(1, pad_width[1] + 1) * slope_right
             return vector
         xp = np.pad(x, pad_widths, pad_smooth)
@@ -481,7 +485,7 @@ def pad(x, pad_widths, mode):
             npad_l, npad_r = pad_width
             vsize_nonpad = vector.size - npad_l - npad_r
             # Note: must modify vector in-place
-            vector[:] = np.pad(vector[pad_width[0]:-pad_width[-1]],
+            vector[:] = np.pad(vector[npad_l:npad_l + vsize_nonpad],
                                pad_width, mode='symmetric')
             vp = vector
             r_edge = npad_l + vsize_nonpad - 1
-- 
2.43.0


From 506870ba422f3f691d799f461547586ec227fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:55 +0000
Subject: [PATCH 30/63] fix: mra2 raises AxisError for an axis out of range

---
 pywt/_mra.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index 9057555..50d9240 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -12,7 +12,7 @@ from ._multilevel import (
     waverecn,
 )
 from ._swt import iswt, iswt2, iswtn, swt, swt2, swt_max_level, swtn
-from ._utils import _modes_per_axis, _wavelets_per_axis
+from ._utils import AxisError, _modes_per_axis, _wavelets_per_axis
 
 __all__ = ["mra", "mra2", "mran", "imra", "imra2", "imran"]
 
@@ -209,7 +209,10 @@ def mra2(data, wavelet, level=None, axes=(-2, -1), transform='swt2',
             raise ValueError(
                 "transform swt only supports mode='periodization'")
         if level is None:
-            level = min(swt_max_level(data.shape[ax]) for ax in axes)
+            try:
+                level = min(swt_max_level(data.shape[ax]) for ax in axes)
+            except IndexError:
+                raise AxisError("Axis greater than data dimensions")
         kwargs = {"wavelet": wavelet, "axes": axes, "norm": True}
         forward = partial(swt2, level=level, trim_approx=True, **kwargs)
         inverse = partial(iswt2, **kwargs)
-- 
2.43.0


From 434ac54c9a36f879eb0a7ee3c6927397b7e06332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:51 +0000
Subject: [PATCH 31/63] fix: swt with a start_level and no level uses the
 remaining levels

The default number of levels ignored start_level, so swt(data, wavelet,
start_level=k) always failed with 'Level value too high'.
---
 pywt/_swt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index e2ddb0b..948344b 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -144,7 +144,7 @@ def swt(data, wavelet, level=None, start_level=0, axis=-1,
         raise AxisError("Axis greater than data dimensions")
 
     if level is None:
-        level = swt_max_level(data.shape[axis])
+        level = swt_max_level(data.shape[axis]) - start_level
 
     if data.ndim == 1:
         ret = _swt(data, wavelet, level, start_level, trim_approx)
-- 
2.43.0


From 10c2f94ac12e9b9c204eca401f270871b7129922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:49 +0000
Subject: [PATCH 32/63] fix: looking up a missing wavelet packet node keeps its
 siblings

get_subnode and item access decomposed the parent to create the node
asked for and replaced all the other subnodes too, which discarded
whatever had been assigned to them.
---
 pywt/_wavelet_packets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 9727ad1..67b42ae 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -228,7 +228,12 @@ class BaseNode:
         self._validate_node_name(part)
         subnode = self._get_node(part)
         if subnode is None and decompose and not self.is_empty:
+            # the subnodes which exist already may have been edited: keep them
+            existing = [(p, self._get_node(p)) for p in self.PARTS]
             self.decompose()
+            for p, node in existing:
+                if node is not None:
+                    self._set_node(p, node)
             subnode = self._get_node(part)
         return subnode
 
-- 
2.43.0


From 1ef55f003f19080c638ed20eefb4053d0ac54231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:30 +0000
Subject: [PATCH 33/63] fix: reconstruct a decomposed wavelet packet node after
 assigning its data

A node created by assignment did not know the shape of its data, so once it
was decomposed its reconstruction was not trimmed to an odd size and
rebuilding its parent failed (or used excess coefficients).
---
 pywt/_wavelet_packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 67b42ae..bf43c6b 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -308,6 +308,8 @@ class BaseNode:
                 dtype = _check_dtype(self.data)
                 if self.data.dtype != dtype:
                     self.data = self.data.astype(dtype)
+                # size to which reconstructions of this node are trimmed
+                self._data_shape = self.data.shape
         else:
             raise TypeError("Invalid path parameter type - expected string but"
                             " got %s." % type(path))
-- 
2.43.0


From d213a332e4987745a5b9b0099558f1ba22d9e886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:09 +0000
Subject: [PATCH 34/63] fix: thresholding of the most negative integer

---
 pywt/_thresholding.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index ea7897f..00d6ad0 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -13,9 +13,17 @@ import numpy as np
 __all__ = ['threshold', 'threshold_firm']
 
 
+def _magnitude(data):
+    magnitude = np.absolute(data)
+    if magnitude.dtype.kind == 'i':
+        # the magnitude of the smallest integer only fits the unsigned type
+        magnitude = magnitude.astype(f'u{magnitude.dtype.itemsize}')
+    return magnitude
+
+
 def soft(data, value, substitute=0):
     data = np.asarray(data)
-    magnitude = np.absolute(data)
+    magnitude = _magnitude(data)
 
     # zeros stay zero for any threshold, so avoid dividing by them
     nonzero = np.where(magnitude == 0, 1, magnitude)
@@ -31,7 +39,7 @@ def soft(data, value, substitute=0):
 def nn_garrote(data, value, substitute=0):
     """Non-negative Garrote."""
     data = np.asarray(data)
-    magnitude = np.absolute(data)
+    magnitude = _magnitude(data)
 
     # zeros stay zero for any threshold, so avoid dividing by them
     nonzero = np.where(magnitude == 0, 1, magnitude)
@@ -46,7 +54,7 @@ def nn_garrote(data, value, substitute=0):
 
 def hard(data, value, substitute=0):
     data = np.asarray(data)
-    cond = np.less(np.absolute(data), value)
+    cond = np.less(_magnitude(data), value)
     return np.where(cond, substitute, data)
 
 
@@ -230,7 +238,7 @@ def threshold_firm(data, value_low, value_high):
             "value_high must be greater than or equal to value_low.")
 
     data = np.asarray(data)
-    magnitude = np.absolute(data)
+    magnitude = _magnitude(data)
     if value_high == value_low or np.isinf(value_high):
         # hard- or soft-thresholding
         slope = 1
-- 
2.43.0


From 642eb1ec8615e6959748ed93cc000b85b8191415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:16 +0000
Subject: [PATCH 35/63] fix: thresholding of integers with a substitute that
 their type cannot hold

---
 pywt/_thresholding.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 00d6ad0..e6e9398 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -21,6 +21,16 @@ def _magnitude(data):
     return magnitude
 
 
+def _substitute(cond, substitute, data):
+    if isinstance(substitute, int) and data.dtype.kind in 'iu':
+        info = np.iinfo(data.dtype)
+        if not info.min <= substitute <= info.max:
+            # use a type that holds it, np.where would wrap it around
+            data = data.astype(np.result_type(
+                data.dtype, np.min_scalar_type(substitute)))
+    return np.where(cond, substitute, data)
+
+
 def soft(data, value, substitute=0):
     data = np.asarray(data)
     magnitude = _magnitude(data)
@@ -55,21 +65,21 @@ def nn_garrote(data, value, substitute=0):
 def hard(data, value, substitute=0):
     data = np.asarray(data)
     cond = np.less(_magnitude(data), value)
-    return np.where(cond, substitute, data)
+    return _substitute(cond, substitute, data)
 
 
 def greater(data, value, substitute=0):
     data = np.asarray(data)
     if np.iscomplexobj(data):
         raise ValueError("greater thresholding only supports real data")
-    return np.where(np.less(data, value), substitute, data)
+    return _substitute(np.less(data, value), substitute, data)
 
 
 def less(data, value, substitute=0):
     data = np.asarray(data)
     if np.iscomplexobj(data):
         raise ValueError("less thresholding only supports real data")
-    return np.where(np.greater(data, value), substitute, data)
+    return _substitute(np.greater(data, value), substitute, data)
 
 
 thresholding_options = {'soft': soft,
-- 
2.43.0


From 67d7d7a68e14b39024a60471d751886ce644266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 36/63] fix: FswavedecnResult checks the types of its wavelets
 and modes

---
 pywt/_multilevel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 4168bad..d953acc 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -1234,11 +1234,11 @@ class FswavedecnResult:
         self._coeffs = coeffs
         self._coeff_slices = coeff_slices
         self._axes = axes
-        if not np.all(isinstance(w, Wavelet) for w in wavelets):
+        if not all(isinstance(w, Wavelet) for w in wavelets):
             raise ValueError(
                 "wavelets must contain pywt.Wavelet objects")
         self._wavelets = wavelets
-        if not np.all(isinstance(m, int) for m in mode_enums):
+        if not all(isinstance(m, int) for m in mode_enums):
             raise ValueError(
                 "mode_enums must be integers")
         self._mode_enums = mode_enums
-- 
2.43.0


From 407ff5efe69766715a16a14ee84e650ec87ca520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 37/63] fix: integer-valued floats index an FswavedecnResult

---
 pywt/_multilevel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index d953acc..fedae50 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -1336,6 +1336,7 @@ class FswavedecnResult:
         if np.any([lev > maxlev for lev, maxlev in zip(levels, self.levels)]):
             raise ValueError(
                 "Specified indices exceed the number of transform levels.")
+        return levels
 
     def __getitem__(self, levels):
         """Retrieve a coefficient subband.
@@ -1346,7 +1347,7 @@ class FswavedecnResult:
             The number of degrees of decomposition along each transformed
             axis.
         """
-        self._validate_index(levels)
+        levels = self._validate_index(levels)
         sl = self._get_coef_sl(levels)
         return self._coeffs[sl]
 
@@ -1362,7 +1363,7 @@ class FswavedecnResult:
             The data corresponding to assign. It must match the expected
             shape and dtype of the specified subband.
         """
-        self._validate_index(levels)
+        levels = self._validate_index(levels)
         sl = self._get_coef_sl(levels)
         current_dtype = self._coeffs[sl].dtype
         if self._coeffs[sl].shape != x.shape:
-- 
2.43.0


From 4e631af381e16eb07c6943003e232e2634e3837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:34 +0000
Subject: [PATCH 38/63] fix: n-D inverse transforms keep single precision for
 byte-swapped and half-precision bands

---
 pywt/_multidim.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index 54255cc..4db0c23 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -14,6 +14,7 @@ import numpy as np
 
 from ._c99_config import _have_c99_complex
 from ._extensions._dwt import dwt_axis, idwt_axis
+from ._extensions._pywt import _check_dtype
 from ._utils import AxisError, _modes_per_axis, _wavelets_per_axis
 
 __all__ = ['dwt2', 'idwt2', 'dwtn', 'idwtn']
@@ -288,6 +289,11 @@ def idwtn(coeffs, wavelet, mode='symmetric', axes=None):
                          "coefficient names.")
     axes = [a + ndim if a < 0 else a for a in axes]
 
+    # the supported dtype of each band, so that e.g. a half-precision or
+    # byte-swapped band matches a single precision intermediate result
+    coeffs = {k: np.asarray(v, dtype=_check_dtype(v))
+              for k, v in coeffs.items()}
+
     modes = _modes_per_axis(mode, axes)
     wavelets = _wavelets_per_axis(wavelet, axes)
     for key_length, (axis, wav, mode) in reversed(
-- 
2.43.0


From 54de4cb60662919538c730310b4372631ba4a674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:34 +0000
Subject: [PATCH 39/63] fix: iswtn treats extended precision details as double
 precision

---
 pywt/_swt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index 948344b..2c5a200 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -776,7 +776,7 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                    if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
-            [output.dtype, ] + [v.dtype for v in details.values()]))
+            [output.dtype, ] + [_check_dtype(v) for v in details.values()]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
-- 
2.43.0


From 0b83c47e332ce68ac074c47c4839024e2e42ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 40/63] fix: data set readers return arrays of their own

---
 pywt/data/_readers.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pywt/data/_readers.py b/pywt/data/_readers.py
index 8c2e788..76232c1 100644
--- a/pywt/data/_readers.py
+++ b/pywt/data/_readers.py
@@ -7,7 +7,21 @@ import numpy as np
 _DATADIR = importlib.resources.files('pywt.data')
 
 
-@functools.cache
+def _cached(func):
+    """Load the data once, but give every caller its own copy."""
+    load = functools.cache(func)
+
+    @functools.wraps(func)
+    def wrapper():
+        data = load()
+        if isinstance(data, tuple):
+            return tuple(d.copy() for d in data)
+        return data.copy()
+
+    return wrapper
+
+
+@_cached
 def ascent():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -47,7 +61,7 @@ def ascent():
     return ascent
 
 
-@functools.cache
+@_cached
 def aero():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -84,7 +98,7 @@ def aero():
     return aero
 
 
-@functools.cache
+@_cached
 def camera():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -132,7 +146,7 @@ def camera():
     return camera
 
 
-@functools.cache
+@_cached
 def ecg():
     """
     Get 1024 points of an ECG timeseries.
@@ -164,7 +178,7 @@ def ecg():
     return ecg
 
 
-@functools.cache
+@_cached
 def nino():
     """
     This data contains the averaged monthly sea surface temperature in degrees
-- 
2.43.0


From e187f01decfa3482f7646a1c4320d38e12e2a636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 41/63] fix: the list of demo signals is a copy

---
 pywt/data/_wavelab_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index 952c0b9..d673ee2 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -76,7 +76,7 @@ def demo_signal(name='Bumps', n=None):
 
     """
     if name.lower() == 'list':
-        return _implemented_signals
+        return list(_implemented_signals)
 
     if n is not None:
         if n < 1 or (n % 1) != 0:
-- 
2.43.0


From f8e13f633a910b55c8c48f4140a081bf1c2f0f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 42/63] fix: demo signals have exactly n samples

---
 pywt/data/_wavelab_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index d673ee2..66dfba6 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -81,7 +81,7 @@ def demo_signal(name='Bumps', n=None):
     if n is not None:
         if n < 1 or (n % 1) != 0:
             raise ValueError("n must be an integer >= 1")
-        t = np.arange(1/n, 1 + 1/n, 1/n)
+        t = np.arange(1, n + 1) / n
 
     # The following function types don't allow user-specified `n`.
     n_hard_coded = ['gabor', 'sineoneoverx']
-- 
2.43.0


From 88b7209c34659b86146dd2a7c3154cb5d6075641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 43/63] fix: demo signal HypChirps for any length

---
 pywt/data/_wavelab_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index 66dfba6..ac45bd7 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -139,7 +139,7 @@ def demo_signal(name='Bumps', n=None):
     elif name == 'hypchirps':  # Hyperbolic Chirps of Mallat's book
         alpha = 15 * n * np.pi / 1024
         beta = 5 * n * np.pi / 1024
-        t = np.arange(1.001, n + .001 + 1) / n
+        t = (1.001 + np.arange(n)) / n
         f1 = np.zeros(n)
         f2 = np.zeros(n)
         f1 = np.sin(alpha / (.8 - t)) * (0.1 < t) * (t < 0.68)
@@ -148,7 +148,7 @@ def demo_signal(name='Bumps', n=None):
         p = m // 4
         envelope = np.ones(m)  # the rinp.sing cutoff function
         tmp = np.arange(1, p + 1)-np.ones(p)
-        envelope[:p] = (1 + np.sin(-np.pi / 2 + tmp / (p - 1) * np.pi)) / 2
+        envelope[:p] = (1 + np.sin(-np.pi / 2 + tmp / max(p - 1, 1) * np.pi)) / 2
         envelope[m-p:m] = envelope[:p][::-1]
         env = np.zeros(n)
         env[int(np.ceil(n / 10)) - 1:m + int(np.ceil(n / 10)) - 1] = \
-- 
2.43.0


From 8a6dfb7b6f3cdc162f14bc71e389ffe916b908e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 44/63] fix: demo signal Chirps for lengths that are no
 multiple of 8

---
 pywt/data/_wavelab_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index ac45bd7..a482fd3 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -178,8 +178,8 @@ def demo_signal(name='Bumps', n=None):
         envelope = np.ones(n)  # the rinp.sing cutoff function
         tmp = np.arange(1, n // 8 + 1) - np.ones(n // 8)
         envelope[:n // 8] = (
-            1 + np.sin(-np.pi / 2 + tmp / (n / 8 - 1) * np.pi)) / 2
-        envelope[7 * n // 8:n] = envelope[:n // 8][::-1]
+            1 + np.sin(-np.pi / 2 + tmp / max(n / 8 - 1, 1) * np.pi)) / 2
+        envelope[n - n // 8:n] = envelope[:n // 8][::-1]
         f = f*envelope
     elif name == 'gabor':  # two modulated Gabor functions in Mallat's book
         n = 512
-- 
2.43.0


From 1e3cd6ee54152c299cf1c8e0ad41a24e69e211ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 45/63] fix: piecewise demo signals for multiples of 5

---
 pywt/data/_wavelab_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index a482fd3..91a810f 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -225,7 +225,7 @@ def demo_signal(name='Bumps', n=None):
         k = n_2 + 2 * n_12 + 3 * n_20
         f[k:k + n_7] = f5
         diff = n - 5 * n_5
-        f[5 * n_5:n] = f[diff - 1::-1]
+        f[5 * n_5:n] = f[:diff][::-1]
         # zero-mean
         bias = np.sum(f) / n
         f = bias - f
@@ -247,7 +247,7 @@ def demo_signal(name='Bumps', n=None):
         f[3 * n_5:4 * n_5] = f4
         f[4 * n_5:5 * n_5] = f5[n_5::-1]
         diff = n - 5*n_5
-        f[5 * n_5:n] = f[diff - 1::-1]
+        f[5 * n_5:n] = f[:diff][::-1]
         f[n_20:n_20 + n_10] = np.ones(n_10) * 10
         f[n - n_10:n + n_20 - n_10] = np.ones(n_20) * 150
         # zero-mean
-- 
2.43.0


From 26fcfa342aa97a2ac4dfd323cf29c02a6630f18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 46/63] fix: demo signal Riemann for lengths just below a
 square

---
 pywt/data/_wavelab_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index 91a810f..a682801 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -255,7 +255,7 @@ def demo_signal(name='Bumps', n=None):
         f = f - bias
     elif name == 'riemann':
         # Riemann's Non-differentiable Function
-        sqn = int(np.round(np.sqrt(n)))
+        sqn = int(np.sqrt(n))
         idx = np.arange(1, sqn + 1)
         idx *= idx
         f = np.zeros_like(t)
-- 
2.43.0


From d7a47ba4c29b5d6eabd49f12ba057e10e17153ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:56 +0000
Subject: [PATCH 47/63] fix: parameters in continuous wavelet names are parsed
 strictly

---
 pywt/_extensions/_pywt.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index 14ddc3d..8e2cd2b 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -34,9 +34,9 @@ _attr_deprecation_msg = ('{old} has been renamed to {new} and will '
                          'be unavailable in a future version '
                          'of pywt.')
 
-# Extract float/int parameters from a wavelet name. Examples:
-#    re.findall(cwt_pattern, 'fbsp1-1.5-1') ->  ['1', 1.5', '1']
-cwt_pattern = re.compile(r'\D+(\d+\.*\d*)+')
+# A float/int parameter in the name of a continuous wavelet. The name holds one
+# or several of them, separated by hyphens, after the family (fbsp1-1.5-1).
+cwt_pattern = re.compile(r'[0-9]+\.?[0-9]*|\.[0-9]+')
 
 
 # raises exception if the wavelet name is undefined
@@ -748,7 +748,9 @@ cdef public class ContinuousWavelet [type ContinuousWaveletType, object Continuo
 
         # set wavelet attributes based on frequencies extracted from the name
         if base_name != self.name:
-            freqs = re.findall(cwt_pattern, self.name)
+            freqs = self.name[4:].split('-')
+            if not all(cwt_pattern.fullmatch(freq) for freq in freqs):
+                freqs = []
             if base_name in ['shan', 'cmor']:
                 if len(freqs) != 2:
                     raise ValueError(
-- 
2.43.0


From 2b18c04bad223be6b384ff922c2ff979d817ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:56 +0000
Subject: [PATCH 48/63] fix: idwt refuses coefficient arrays of different
 dimensions

---
 pywt/_dwt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index 903afbd..20c5657 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -275,6 +275,9 @@ def idwt(cA, cD, wavelet, mode='symmetric', axis=-1):
 
     # cA and cD should be same dimension by here
     ndim = cA.ndim
+    if cD.ndim != ndim:
+        raise ValueError("Coefficients arrays must have the same number of "
+                         "dimensions.")
 
     mode = Modes.from_object(mode)
     wavelet = _as_wavelet(wavelet)
-- 
2.43.0


From ffeeed72b49abe4268dad71297330738cc22b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:56 +0000
Subject: [PATCH 49/63] fix: iswt refuses detail coefficients of another shape

---
 pywt/_swt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index 2c5a200..760806a 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -231,6 +231,9 @@ def iswt(coeffs, wavelet, norm=False, axis=-1):
         else:
             _, cD = coeffs[-j]
         cD = np.asarray(cD, dtype=_check_dtype(cD))
+        if cD.shape != output.shape:
+            raise ValueError(
+                "Coefficients arrays must all have the same shape.")
         if cD.dtype != output.dtype:
             # upcast to a common dtype (float64 or complex128)
             if output.dtype.kind == 'c' or cD.dtype.kind == 'c':
-- 
2.43.0


From f33764062db040ce6316223149f3ea0c16de43e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 50/63] fix: iswtn refuses detail coefficients of another shape
 than the approximation

---
 pywt/_swt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index 760806a..c85239f 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -785,7 +785,7 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
 
         # We assume all coefficient arrays are of equal size
         shapes = [v.shape for k, v in details.items()]
-        if len(set(shapes)) != 1:
+        if set(shapes) != {output.shape}:
             raise RuntimeError(
                 "Mismatch in shape of intermediate coefficient arrays")
 
-- 
2.43.0


From 1c07c3d291473196d00f7ee7466c4ab2407dc2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 51/63] fix: cwt refuses empty data for both methods

---
 pywt/_cwt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_cwt.py b/pywt/_cwt.py
index 0d69095..fdf0085 100644
--- a/pywt/_cwt.py
+++ b/pywt/_cwt.py
@@ -112,6 +112,8 @@ def cwt(data, scales, wavelet, sampling_period=1., method='conv', axis=-1):
 
     if not np.isscalar(axis):
         raise AxisError("axis must be a scalar.")
+    if data.shape == (0,):
+        raise ValueError("data must not be empty")
 
     dt_out = dt_cplx if wavelet.complex_cwt else dt
     out = np.empty((np.size(scales),) + data.shape, dtype=dt_out)
-- 
2.43.0


From e921e4e63b002acf87c9e9bbc4cdc1c354078458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 52/63] fix: unaligned arrays are copied before native code
 reads them

---
 pywt/_dwt.py              | 10 +++++-----
 pywt/_extensions/_dwt.pyx | 10 +++++-----
 pywt/_extensions/_swt.pyx |  2 +-
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index 20c5657..42b4760 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -169,7 +169,7 @@ def dwt(data, wavelet, mode='symmetric', axis=-1):
 
     # accept array_like input; make a copy to ensure a contiguous array
     dt = _check_dtype(data)
-    data = np.asarray(data, dtype=dt, order='C')
+    data = np.require(data, dt, 'CAE')
     mode = Modes.from_object(mode)
     wavelet = _as_wavelet(wavelet)
 
@@ -254,10 +254,10 @@ def idwt(cA, cD, wavelet, mode='symmetric', axis=-1):
 
     if cA is not None:
         dt = _check_dtype(cA)
-        cA = np.asarray(cA, dtype=dt, order='C')
+        cA = np.require(cA, dt, 'CAE')
     if cD is not None:
         dt = _check_dtype(cD)
-        cD = np.asarray(cD, dtype=dt, order='C')
+        cD = np.require(cD, dt, 'CAE')
 
     if cA is not None and cD is not None:
         if cA.dtype != cD.dtype:
@@ -336,7 +336,7 @@ def downcoef(part, data, wavelet, mode='symmetric', level=1):
                 1j*downcoef(part, data.imag, wavelet, mode, level))
     # accept array_like input; make a copy to ensure a contiguous array
     dt = _check_dtype(data)
-    data = np.asarray(data, dtype=dt, order='C')
+    data = np.require(data, dt, 'CAE')
     if data.ndim > 1:
         raise ValueError("downcoef only supports 1d data.")
     if part not in ('a', 'd'):
@@ -395,7 +395,7 @@ def upcoef(part, coeffs, wavelet, level=1, take=0):
                 1j*upcoef(part, coeffs.imag, wavelet, level, take))
     # accept array_like input; make a copy to ensure a contiguous array
     dt = _check_dtype(coeffs)
-    coeffs = np.asarray(coeffs, dtype=dt, order='C')
+    coeffs = np.require(coeffs, dt, 'CAE')
     if coeffs.ndim > 1:
         raise ValueError("upcoef only supports 1d coeffs.")
     wavelet = _as_wavelet(wavelet)
diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index 9971706..c76768e 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -94,7 +94,7 @@ cpdef dwt_axis(np.ndarray data, Wavelet wavelet, MODE mode, unsigned int axis=0)
     if data.shape[axis] == 1 and (mode == MODE.MODE_REFLECT or mode == MODE.MODE_ANTIREFLECT):
         raise ValueError("Input data length must be greater than 1 for [anti]reflect mode along the transformed axis.")
 
-    data = data.astype(_check_dtype(data), copy=False)
+    data = np.require(data, _check_dtype(data), 'A')
 
     input_shape = <size_t [:data.ndim]> <size_t *> data.shape
     output_shape = input_shape.copy()
@@ -258,9 +258,9 @@ cpdef idwt_axis(np.ndarray coefs_a, np.ndarray coefs_d,
 
     if coefs_a is not None:
         if coefs_d is not None and coefs_d.dtype.itemsize > coefs_a.dtype.itemsize:
-            coefs_a = coefs_a.astype(_check_dtype(coefs_d), copy=False)
+            coefs_a = np.require(coefs_a, _check_dtype(coefs_d), 'A')
         else:
-            coefs_a = coefs_a.astype(_check_dtype(coefs_a), copy=False)
+            coefs_a = np.require(coefs_a, _check_dtype(coefs_a), 'A')
         a_info.ndim = coefs_a.ndim
         a_info.strides = <pywt_index_t *> coefs_a.strides
         a_info.shape = <size_t *> coefs_a.shape
@@ -268,9 +268,9 @@ cpdef idwt_axis(np.ndarray coefs_a, np.ndarray coefs_d,
         data_a = <void *> coefs_a.data
     if coefs_d is not None:
         if coefs_a is not None and coefs_a.dtype.itemsize > coefs_d.dtype.itemsize:
-            coefs_d = coefs_d.astype(_check_dtype(coefs_a), copy=False)
+            coefs_d = np.require(coefs_d, _check_dtype(coefs_a), 'A')
         else:
-            coefs_d = coefs_d.astype(_check_dtype(coefs_d), copy=False)
+            coefs_d = np.require(coefs_d, _check_dtype(coefs_d), 'A')
         d_info.ndim = coefs_d.ndim
         d_info.strides = <pywt_index_t *> coefs_d.strides
         d_info.shape = <size_t *> coefs_d.shape
diff --git a/pywt/_extensions/_swt.pyx b/pywt/_extensions/_swt.pyx
index 26e9e33..b3c7f0b 100644
--- a/pywt/_extensions/_swt.pyx
+++ b/pywt/_extensions/_swt.pyx
@@ -187,7 +187,7 @@ cpdef swt_axis(np.ndarray data, Wavelet wavelet, size_t level,
                 common.swt_max_level(data.shape[axis]) - start_level))
         raise ValueError(msg)
 
-    data = data.astype(_check_dtype(data), copy=False)
+    data = np.require(data, _check_dtype(data), 'A')
     # For SWT, the output matches the shape of the input
     output_shape = <size_t [:data.ndim]> <size_t *> data.shape
 
-- 
2.43.0


From 22308e0fe2cc709e9adf94e82e31b1a6d1ec15a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:11 +0000
Subject: [PATCH 53/63] fix: the Haar wavelet is not touched when it could not
 be allocated

---
 pywt/_extensions/c/wavelets.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_extensions/c/wavelets.c b/pywt/_extensions/c/wavelets.c
index a45531e..04d5f85 100644
--- a/pywt/_extensions/c/wavelets.c
+++ b/pywt/_extensions/c/wavelets.c
@@ -57,6 +57,8 @@ DiscreteWavelet* discrete_wavelet(WAVELET_NAME name, unsigned int order)
 
         /* the same as db1 */
         w = discrete_wavelet(DB, 1);
+        if(w == NULL)
+            return NULL;
         w->base.family_name = "Haar";
         w->base.short_name = "haar";
         return w;
-- 
2.43.0


From 6d2c93f3441b76aa7be2fbf1f59c0508173995aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:27 +0000
Subject: [PATCH 54/63] fix: a failed decomposition along an axis is reported,
 not returned as result

---
 pywt/_extensions/c/wt.template.c | 35 +++++++++++++++++---------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/pywt/_extensions/c/wt.template.c b/pywt/_extensions/c/wt.template.c
index 82ad743..fb3701a 100644
--- a/pywt/_extensions/c/wt.template.c
+++ b/pywt/_extensions/c/wt.template.c
@@ -36,6 +36,7 @@ int CAT(TYPE, _downcoef_axis)(const TYPE * const restrict input, const ArrayInfo
 
     // These are boolean values, but MSVC does not have <stdbool.h>
     int make_temp_input, make_temp_output;
+    int retval = 0;
 
     if (input_info.ndim != output_info.ndim)
         return 1;
@@ -116,16 +117,16 @@ int CAT(TYPE, _downcoef_axis)(const TYPE * const restrict input, const ArrayInfo
                 // Apply along axis
                 switch (coef){
                 case COEF_APPROX:
-                    CAT(TYPE, _dec_a)(input_row, input_info.shape[axis],
-                                      wavelet,
-                                      output_row, output_info.shape[axis],
-                                      dwt_mode);
+                    retval = CAT(TYPE, _dec_a)(input_row, input_info.shape[axis],
+                                               wavelet,
+                                               output_row, output_info.shape[axis],
+                                               dwt_mode);
                     break;
                 case COEF_DETAIL:
-                    CAT(TYPE, _dec_d)(input_row, input_info.shape[axis],
-                                      wavelet,
-                                      output_row, output_info.shape[axis],
-                                      dwt_mode);
+                    retval = CAT(TYPE, _dec_d)(input_row, input_info.shape[axis],
+                                               wavelet,
+                                               output_row, output_info.shape[axis],
+                                               dwt_mode);
                     break;
                 }
                 break;
@@ -134,20 +135,22 @@ int CAT(TYPE, _downcoef_axis)(const TYPE * const restrict input, const ArrayInfo
                 // Apply along axis
                 switch (coef){
                 case COEF_APPROX:
-                    CAT(TYPE, _swt_a)(input_row, input_info.shape[axis],
-                                      wavelet,
-                                      output_row, output_info.shape[axis],
-                                      swt_level);
+                    retval = CAT(TYPE, _swt_a)(input_row, input_info.shape[axis],
+                                               wavelet,
+                                               output_row, output_info.shape[axis],
+                                               swt_level);
                     break;
                 case COEF_DETAIL:
-                    CAT(TYPE, _swt_d)(input_row, input_info.shape[axis],
-                                      wavelet,
-                                      output_row, output_info.shape[axis],
-                                      swt_level);
+                    retval = CAT(TYPE, _swt_d)(input_row, input_info.shape[axis],
+                                               wavelet,
+                                               output_row, output_info.shape[axis],
+                                               swt_level);
                     break;
                 }
                 break;
         }
+        if (retval < 0)
+            goto cleanup;
 
         // Copy from temporary output if necessary
         if (make_temp_output)
-- 
2.43.0


From 4b1bf22a3e5b6201f4ca3b9e104ccb4909acd5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 55/63] fix: waverec refuses approximations too long along
 another axis

---
 pywt/_multilevel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index fedae50..a958899 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -172,7 +172,9 @@ def waverec(coeffs, wavelet, mode='symmetric', axis=-1):
         if (a is not None) and (d is not None):
             try:
                 if a.shape[axis] == d.shape[axis] + 1:
-                    a = a[tuple(slice(s) for s in d.shape)]
+                    idxs = [slice(None)] * a.ndim
+                    idxs[axis] = slice(d.shape[axis])
+                    a = a[tuple(idxs)]
                 elif a.shape[axis] != d.shape[axis]:
                     raise ValueError("coefficient shape mismatch")
             except IndexError:
-- 
2.43.0


From 94896cff00c3cb3936159a499a84225033a335a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 56/63] fix: waverec2 refuses approximations too long along
 another axis

---
 pywt/_multilevel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index a958899..10b82e5 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -340,8 +340,10 @@ def waverec2(coeffs, wavelet, mode='symmetric', axes=(-2, -1)):
         else:
             if not all(s == d_shape for s in d_shapes):
                 raise ValueError("All detail shapes must be the same length.")
-            idxs = tuple(slice(None, -1 if a_len == d_len + 1 else None)
-                         for a_len, d_len in zip(a.shape, d_shape))
+            trans = [ax % a.ndim for ax in axes]
+            idxs = tuple(
+                slice(None, -1 if n in trans and a_len == d_len + 1 else None)
+                for n, (a_len, d_len) in enumerate(zip(a.shape, d_shape)))
         a = idwt2((a[idxs], d), wavelet, mode, axes)
 
     return a
-- 
2.43.0


From fe55540bef9ba8db6ec316dd04a6b4cac41cccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 57/63] fix: waverecn refuses approximations too long along
 another axis

---
 pywt/_multilevel.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 10b82e5..857ea9a 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -454,8 +454,8 @@ def wavedecn(data, wavelet, mode='symmetric', level=None, axes=None):
     return coeffs_list
 
 
-def _match_coeff_dims(a_coeff, d_coeff_dict):
-    # For each axis, compare the approximation coeff shape to one of the
+def _match_coeff_dims(a_coeff, d_coeff_dict, axes):
+    # For each transformed axis, compare the approximation coeff shape to one of the
     # stored detail coeffs and truncate the last element along the axis
     # if necessary.
     if a_coeff is None:
@@ -465,9 +465,11 @@ def _match_coeff_dims(a_coeff, d_coeff_dict):
     d_coeff = d_coeff_dict[next(iter(d_coeff_dict))]
     size_diffs = np.subtract(a_coeff.shape, d_coeff.shape)
     if np.any((size_diffs < 0) | (size_diffs > 1)):
-        print(size_diffs)
         raise ValueError("incompatible coefficient array sizes")
-    return a_coeff[tuple(slice(s) for s in d_coeff.shape)]
+    idxs = [slice(None)] * a_coeff.ndim
+    for ax in axes:
+        idxs[ax] = slice(d_coeff.shape[ax])
+    return a_coeff[tuple(idxs)]
 
 
 def waverecn(coeffs, wavelet, mode='symmetric', axes=None):
@@ -583,7 +585,7 @@ def waverecn(coeffs, wavelet, mode='symmetric', axes=None):
         # coefficient returned at the previous level may exceed the size of the
         # stored detail coefficients by 1 on any given axis.
         if idx > 0:
-            a = _match_coeff_dims(a, d)
+            a = _match_coeff_dims(a, d, axes)
         d['a' * ndim_transform] = a
         a = idwtn(d, wavelet, mode, axes)
 
-- 
2.43.0


From e9254b4cf7e454069232ed8aeb883fa846a4ef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:33 +0000
Subject: [PATCH 58/63] fix: swt refuses levels so large that adding the start
 level overflows

---
 pywt/_extensions/_swt.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_extensions/_swt.pyx b/pywt/_extensions/_swt.pyx
index b3c7f0b..1581ccc 100644
--- a/pywt/_extensions/_swt.pyx
+++ b/pywt/_extensions/_swt.pyx
@@ -70,7 +70,7 @@ def swt(cdata_t[::1] data, Wavelet wavelet, size_t level, size_t start_level,
         raise ValueError("start_level must be less than %d." %
                          common.swt_max_level(data.size))
 
-    if end_level > common.swt_max_level(data.size):
+    if level > common.swt_max_level(data.size) - start_level:
         msg = ("Level value too high (max level for current data size and "
                "start_level is %d)." % (
                 common.swt_max_level(data.size) - start_level))
@@ -181,7 +181,7 @@ cpdef swt_axis(np.ndarray data, Wavelet wavelet, size_t level,
         raise ValueError("start_level must be less than %d." %
                          common.swt_max_level(data.shape[axis]))
 
-    if end_level > common.swt_max_level(data.shape[axis]):
+    if level > common.swt_max_level(data.shape[axis]) - start_level:
         msg = ("Level value too high (max level for current data size and "
                "start_level is %d)." % (
                 common.swt_max_level(data.shape[axis]) - start_level))
-- 
2.43.0


From 63c3087a3a163443d894dd26a0202b183fcfd225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:55 +0000
Subject: [PATCH 59/63] fix: cwt refuses complex scales instead of dropping
 their imaginary part

---
 pywt/_cwt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_cwt.py b/pywt/_cwt.py
index fdf0085..254ae7a 100644
--- a/pywt/_cwt.py
+++ b/pywt/_cwt.py
@@ -107,6 +107,8 @@ def cwt(data, scales, wavelet, sampling_period=1., method='conv', axis=-1):
         wavelet = DiscreteContinuousWavelet(wavelet)
 
     scales = np.atleast_1d(scales)
+    if np.iscomplexobj(scales):
+        raise ValueError("`scales` must be real")
     if np.any(scales <= 0):
         raise ValueError("`scales` must only include positive values")
 
-- 
2.43.0


From eae722f01d8ed6842a3b383470b8383d83b44ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:55 +0000
Subject: [PATCH 60/63] fix: wavelet packet get_level refuses a negative level

---
 pywt/_wavelet_packets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index bf43c6b..8d9513f 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -793,6 +793,8 @@ class WaveletPacket(Node):
         if level > self.maxlevel:
             raise ValueError("The level cannot be greater than the maximum"
                              " decomposition level value (%d)" % self.maxlevel)
+        if level < 0:
+            raise ValueError("The level must be non-negative.")
 
         result = []
 
@@ -915,6 +917,8 @@ class WaveletPacket2D(Node2D):
         if level > self.maxlevel:
             raise ValueError("The level cannot be greater than the maximum"
                              " decomposition level value (%d)" % self.maxlevel)
+        if level < 0:
+            raise ValueError("The level must be non-negative.")
 
         result = []
 
@@ -1044,6 +1048,8 @@ class WaveletPacketND(NodeND):
         if level > self.maxlevel:
             raise ValueError("The level cannot be greater than the maximum"
                              " decomposition level value (%d)" % self.maxlevel)
+        if level < 0:
+            raise ValueError("The level must be non-negative.")
 
         result = []
 
-- 
2.43.0


From 4f426563cba2d5cee367d8062b4a95a740219b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:37 +0000
Subject: [PATCH 61/63] fix: wavelet packets without data take the maximum
 level from the transformed axes only

---
 pywt/_wavelet_packets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 8d9513f..f1f2035 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -138,7 +138,8 @@ class BaseNode:
             return self._maxlevel
         elif self.data is not None:
             return self.level + dwt_max_level(
-                min(self.data.shape), self.wavelet)
+                min(self.data.shape[ax] for ax in np.atleast_1d(self.axes)),
+                self.wavelet)
 
         if evaluate_from == 'parent':
             if self.parent is not None:
@@ -638,7 +639,8 @@ class NodeND(BaseNode):
             return self._maxlevel
         elif self.data is not None:
             return self.level + dwt_max_level(
-                min(self.data.shape), self.wavelet)
+                min(self.data.shape[ax] for ax in np.atleast_1d(self.axes)),
+                self.wavelet)
 
         if evaluate_from == 'parent':
             if self.parent is not None:
-- 
2.43.0


From b12fb9fac4b54fcd555ecd534e8a1cfde140fa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:55 +0000
Subject: [PATCH 62/63] fix: refuse axes below -ndim in iswtn instead of
 wrapping them around twice

---
 pywt/_swt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index c85239f..459f2f2 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -751,6 +751,8 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
     if axes is None:
         axes = range(output.ndim)
     axes = [a + ndim if a < 0 else a for a in axes]
+    if any(a < 0 or a >= ndim for a in axes):
+        raise AxisError("Axis greater than data dimensions")
     if len(axes) != len(set(axes)):
         raise ValueError("The axes passed to swtn must be unique.")
     if ndim_transform != len(axes):
-- 
2.43.0


From 655123e3573b472dba6b27a05a8c2dc7127574e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:55 +0000
Subject: [PATCH 63/63] fix: refuse an approximation of another shape than the
 details in iswt2

---
 pywt/_swt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index 459f2f2..20b06d7 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -484,8 +484,8 @@ def iswt2(coeffs, wavelet, norm=False, axes=(-2, -1)):
             (cH, cV, cD) = coeffs[j]
         else:
             _, (cH, cV, cD) = coeffs[j]
-        # We are going to assume cH, cV, and cD are of equal size
-        if (cH.shape != cV.shape) or (cH.shape != cD.shape):
+        # cH, cV, cD and the approximation have to be of equal size
+        if not (output.shape == cH.shape == cV.shape == cD.shape):
             raise RuntimeError(
                 "Mismatch in shape of intermediate coefficient arrays")
 
-- 
2.43.0

