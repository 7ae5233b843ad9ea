From a5d551ad3b64e8e8bf0d8fb29fe838f29bf40a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 01/26] fix: fft-based correlation and sum must accumulate data
 with repeated times

_fill_data and _fill_ones overwrote frames that share the same time, so the fft
variants disagreed with the direct computation for non-unique time sequences.
---
 cddm/_core_nb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index 4cac182..aa1cf6b 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -617,14 +617,16 @@ def _fill_data(x,t, out):
     for i in range(t.shape[0]):
         m = t[i]
         if m < out.shape[0]:
-            out[m] = x[i]
+            #times may repeat, so add instead of overwriting
+            out[m] += x[i]
 
 @nb.jit([(I64[:],C[:])], nopython = True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _fill_ones(t, out):
     for i in range(t.shape[0]):
         m = t[i]
         if m < out.shape[0]:
-            out[m] = 1.
+            #times may repeat, so add instead of overwriting
+            out[m] += 1.
          
 @nb.guvectorize([(C[:],C[:],I64[:],I64[:],I64[:],F[:],F[:]),(C[:],C[:],I64[:],I64[:],I64[:],C[:],C[:])],"(n),(n),(n),(n),(),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_fft(x, y, t1,t2,length, dummy, out):
-- 
2.43.0


From 1a9856b3bf5ab192a6bd00f00708c43b8ea4b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 02/26] fix: lags beyond the data length must be empty, not
 garbage or wrapped

For n larger than the data length the regular (aligned) kernels read past the
end of the input and the fft variants wrapped around or raised ValueError.
---
 cddm/_core_nb.py | 36 +++++++++++++++++++-----------------
 cddm/core.py     |  8 ++++----
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index aa1cf6b..ee37ff1 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -338,7 +338,7 @@ def _cross_corr_complex_add(xv,yv, out):
 
 @nb.guvectorize([(C[:],C[:],F[:],F[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_regular(x,y,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_add(x[0:n],y[i:], out[i:i+1])
         if i > 0:
@@ -346,7 +346,7 @@ def _cross_corr_regular(x,y,dummy,out):
             
 @nb.guvectorize([(C[:],C[:],C[:],C[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_complex_regular(x,y,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_complex_add(x[0:n],y[i:], out[i:i+1])
         if i > 0:
@@ -355,13 +355,13 @@ def _cross_corr_complex_regular(x,y,dummy,out):
 
 @nb.guvectorize([(C[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_add(x[i:],x[0:n], out[i:i+1])
 
 @nb.guvectorize([(C[:],C[:],C[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_complex_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_complex_add(x[0:n],x[i:], out[i:i+1])
 
@@ -452,7 +452,7 @@ def _cross_diff_add(xv,yv, out):
 
 @nb.guvectorize([(C[:],C[:],F[:],F[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_diff_regular(x,y,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_diff_add(y[i:],x[0:n], out[i:i+1])
         if i > 0:
@@ -469,7 +469,7 @@ def _auto_diff_vec(f,t,dummy,out):
             
 @nb.guvectorize([(C[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_diff_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_diff_add(x[i:],x[0:n], out[i:i+1])
             
@@ -518,7 +518,7 @@ def _cross_sum_complex(f,t1,t2,dummy,out):
                                 
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -533,7 +533,7 @@ def _cross_sum_regular(x,dummy,out):
             
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_regular_inverted(x,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -551,7 +551,7 @@ def _cross_sum_complex_regular_inverted(x,dummy,out):
 
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_regular(x,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -573,13 +573,14 @@ def _cross_corr_fft_regular(x, y, dummy, out):
     out_length = len(dummy)
     if np.iscomplexobj(out):
         out_length = (out_length+1)//2
-    length = len(x)
+    #zero padding must cover all requested delay times
+    length = max(len(x), out_length)
     tmp1 = np.empty((length*2), x.dtype)
-    tmp1[0:length] = x
-    tmp1[length:] = 0.
+    tmp1[0:len(x)] = x
+    tmp1[len(x):] = 0.
     tmp2 = np.empty((length*2), y.dtype)
-    tmp2[0:length] = y
-    tmp2[length:] = 0.  
+    tmp2[0:len(y)] = y
+    tmp2[len(y):] = 0.  
     x = _fft(tmp1, overwrite_x = True)
     y = _fft(tmp2, overwrite_x = True)
     
@@ -596,10 +597,11 @@ def _cross_corr_fft_regular(x, y, dummy, out):
 @nb.guvectorize([(C[:],F[:],F[:]),(C[:],C[:],C[:])],"(n),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_fft_regular(x, dummy, out):
     out_length = len(dummy)
-    length = len(x)
+    #zero padding must cover all requested delay times
+    length = max(len(x), out_length)
     tmp = np.empty((length*2), x.dtype)
-    tmp[0:length] = x
-    tmp[length:] = 0.
+    tmp[0:len(x)] = x
+    tmp[len(x):] = 0.
  
     x = _fft(tmp, overwrite_x = True)
     x = x*np.conj(x)
diff --git a/cddm/core.py b/cddm/core.py
index b31a43d..296f999 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -200,7 +200,7 @@ def cross_correlate_fft(f1,f2, t1 = None, t2 = None, axis = 0, n = None, complex
     #use None for "n" argument to determine length needed for FFT
     f1,f2,t1,t2,axis,n = _inspect_cross_arguments(f1,f2,t1,t2,axis,n,aout, aout_full_size = complex)
     #determine fft length
-    length = _determine_full_length_cross(f1.shape,t1,t2,axis)
+    length = max(_determine_full_length_cross(f1.shape,t1,t2,axis), n)
             
     #algorithm needs calculation to be done over the last axis.. so move it here
     f1 = np.moveaxis(f1,axis, -1)
@@ -227,7 +227,7 @@ def auto_correlate_fft(f, t = None, axis = 0, n = None, complex = False, aout =
     """  
     f,t,axis,n = _inspect_auto_arguments(f,t,axis,n,aout)
     #determine fft length
-    length = _determine_full_length_auto(f.shape,t,axis)
+    length = max(_determine_full_length_auto(f.shape,t,axis), n)
                 
     #algorithm needs calculation to be done over the last axis.. so move it here
     f = np.moveaxis(f,axis, -1)
@@ -836,7 +836,7 @@ def cross_sum_fft(f, t, t_other = None, axis = 0, n = None, complex = False, tim
     time_inversion = bool(time_inversion)
     f,f,t,t_other,axis,n = _inspect_cross_arguments(f,f,t,t_other,axis,n, aout,dtype = None, aout_full_size = complex)
 
-    length = _determine_full_length_cross(f.shape,t,t_other,axis)
+    length = max(_determine_full_length_cross(f.shape,t,t_other,axis), n)
         
     #algorithm needs calculation to be done over the last axis.. so move it here
     f = np.moveaxis(f,axis, -1)
@@ -933,7 +933,7 @@ def auto_sum_fft(f, t, axis = 0, n = None, aout = None):
 
     f,t,axis,n = _inspect_auto_arguments(f,t,axis,n,aout, dtype = None)
     
-    length = _determine_full_length_auto(f.shape,t,axis)
+    length = max(_determine_full_length_auto(f.shape,t,axis), n)
         
     #algorithm needs calculation to be done over the last axis.. so move it here
     f = np.moveaxis(f,axis, -1)
-- 
2.43.0


From 71164e7b78f73d2fb57ade064aa066926668b717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 03/26] fix: default norm, n and scalar t of iacorr and iccorr

The documented defaults of iacorr (norm = 0, n = None) and of iccorr (n = None)
always raised, and so did a scalar time argument.
---
 cddm/core.py     | 2 +-
 cddm/multitau.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index 296f999..43624f9 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -1392,7 +1392,7 @@ def iccorr(data, t1 = None, t2 = None, n = None, norm = None, method = "corr", c
     else:
         return data
 
-def iacorr(data, t = None, n = None, norm = 0, method = "corr", count = None,
+def iacorr(data, t = None, n = None, norm = None, method = "corr", count = None,
                 chunk_size = None, thread_divisor = None,  
                 auto_background = False,  viewer = None, viewer_interval = 1, mode = "full", mask = None, stats = True, complex = False):
     """Iterative version of :func:`ccorr`
diff --git a/cddm/multitau.py b/cddm/multitau.py
index ccdb347..1cb54de 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -535,6 +535,9 @@ def _inspect_t1_t2_count(t1,t2,count,data):
         t1 = np.arange(int(count))
     else:
         t1 = np.asarray(t1)  
+        if t1.ndim == 0:
+            #scalar defines the length of the data
+            t1 = np.arange(int(t1))
     if count is None:
         count = len(t1)
     count = int(count)
@@ -726,7 +729,7 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
     t1,t2, count = _inspect_t1_t2_count(t1,t2,count,data)
     correlate = False if method == "diff" else True
         
-    level_size = int(level_size)
+    level_size = count if level_size is None else int(level_size)
    
     chunk_size = _default_chunk_size(chunk_size,count,level_size)
     
-- 
2.43.0


From c7115667caf94cfab0fcf3465d6299e5c9402767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 04/26] fix: iterative multi-tau with explicit nlevel left
 upper levels empty

nlevel raised the number of chunk buffers above what the data can fill, and the
levels of the buffers that never fill up were not computed.
---
 cddm/multitau.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 1cb54de..ce7e1f9 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -758,10 +758,11 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
     if nlevel is None:
         nlevel = n_decades_max -1
     else:
-        n_decades = min(nlevel + 1, n_decades_max)
-        if n_decades < 1:
+        if nlevel < 0:
             raise ValueError("Invalid nlevel")
         nlevel = min(int(nlevel),n_decades_max -1)
+        #levels that do not fill a data chunk are computed at the end, from the last buffer
+        n_decades = min(nlevel + 1, n_decades)
               
     t_slow = np.arange(nframes)
           
-- 
2.43.0


From 52274eba4c4a66de27e66a1ecce5551eefabcd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 05/26] fix: reshape_input mixed frames and time for
 calculation axis other than first

The frame axes were merged across the calculation axis, so acorr_multi and
ccorr_multi returned wrong data for 1-d frames with axis = 1 and for any
thread_divisor with the calculation axis in the middle.
---
 cddm/core.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index 43624f9..40f2671 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -307,19 +307,20 @@ def reshape_input(f, axis = 0, thread_divisor = None, mask = None):
     """
     
     f = np.asarray(f)
-    axis = list(range(f.ndim))[axis]#make it a positive integer
 
     if mask is not None:
-        if axis != 0:
+        if list(range(f.ndim))[axis] != 0:
             raise ValueError("Mask can only be applied when axis = 0")
         f = f[:,mask]   
         
+    #only frame axes may be reshaped, so the computation axis must be moved out of the way
+    f = np.moveaxis(f, axis, 0)
     shape = list(f.shape)
-    n = shape.pop(axis)
+    n = shape.pop(0)
     force_2d = True if mask is None else False
     new_shape = list(thread_frame_shape(shape, thread_divisor, force_2d))
-    new_shape.insert(axis, n)
-    return f.reshape(new_shape), tuple(shape)
+    new_shape.insert(0, n)
+    return np.moveaxis(f.reshape(new_shape), 0, axis), tuple(shape)
 
 def reshape_frame(frame, shape, mask = None): 
     x = frame.reshape(shape)
-- 
2.43.0


From 0b4524cc06ddbc52a082415932916246ca80af7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 06/26] fix: reshape_output of 1-d frames, 1-d masks and masked
 threaded data

The number of leading level axes was guessed from the frame shape, which left a
spurious axis for 1-d frames and raised ValueError with thread_divisor.
---
 cddm/core.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index 40f2671..770acdb 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -365,7 +365,7 @@ def reshape_output(data, shape = None, mask = None):
         if i != 1 and x is not None: 
             x = x.reshape(shape)
             if mask is not None:
-                out = np.empty(x.shape[0:-mask.ndim] + mask.shape + (x.shape[-1],), x.dtype)
+                out = np.empty(x.shape[0:-2] + mask.shape + (x.shape[-1],), x.dtype)
                 out[...,mask,:] = x
                 out[...,np.logical_not(mask),:] = np.nan
                 return out
@@ -376,11 +376,13 @@ def reshape_output(data, shape = None, mask = None):
     if shape is None:
         if mask is None:
             raise ValueError("Either `mask` or `shape` must be defined")
-        shape = mask.shape
-    if mask is None:
-        shape = data[0].shape[0:-(len(shape)+1)] + tuple(shape) + (data[0].shape[-1],) 
+        shape = (np.count_nonzero(mask),)
+    #leading (level) axes precede the frame axes. In raw data these are the leading axes of count data 
+    if isinstance(data, np.ndarray):
+        levels = data[0].shape[0:-(len(shape)+1)]
     else:
-        shape = data[0].shape[0:-mask.ndim] + tuple(shape) + (data[0].shape[-1],) 
+        levels = data[1].shape[0:-1]
+    shape = levels + tuple(shape) + (data[0].shape[-1],) 
     #normalized data 
     if isinstance(data, np.ndarray):
         return _reshape(0,data) 
-- 
2.43.0


From 9bfccdadd656ad543f3c1aab3fecb1cc3aec8087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 07/26] fix: shape of multi-tau slow data for complex valued
 correlation

---
 cddm/multitau.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index ce7e1f9..4dae601 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -228,20 +228,20 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
         data_fast = acorr(f1, t = t1, fs = f1s, axis = axis, n = n_fast, norm = norm, method = method, complex = complex)
 
     k_shape = data_fast[0].shape[0:-1]
+    #complex-valued cross-correlation is computed for positive and negative times
+    slow_size = _full_size(n_slow) if complex and cross else n_slow
     
     if axis == -1:
         new_axis = -1
-        slow_shape = (nlevel,) + k_shape + (n_slow,)
-        slow_shape = (nlevel,) + k_shape + (n_slow*2+1,) if complex else slow_shape
+        slow_shape = (nlevel,) + k_shape + (slow_size,)
     else:
         new_axis = axis
-        slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow,) + k_shape[-1:] 
-        slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow*2+1,) + k_shape[-1:] if complex else slow_shape
+        slow_shape = (nlevel,) + k_shape[0:-1] + (slow_size,) + k_shape[-1:] 
 
     out_slow = np.zeros(slow_shape, CDTYPE) if complex else np.zeros(slow_shape, FDTYPE) 
     out_slow = _transpose_data(out_slow, new_axis) 
         
-    count_slow = np.zeros((nlevel, n_slow,),IDTYPE)
+    count_slow = np.zeros((nlevel, slow_size,),IDTYPE)
     m1, m2, sq = None, None, None
  
     if (norm & NORM_STRUCTURED) and correlate == True:
-- 
2.43.0


From 348c64250de449f1b17a7e30ecd7ed1257c8d104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:01 +0000
Subject: [PATCH 08/26] fix: iterative auto-difference failed with more than
 one data chunk

sq_fast and sq_slow were not defined for method = 'diff'.
---
 cddm/multitau.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 4dae601..a277105 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -812,6 +812,7 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
             else:
                 out_fast, count_fast, m1_fast, m2_fast = data_fast         
                 out_slow, count_slow, m1_slow, m2_slow = data_slow
+                sq_fast, sq_slow = None, None
                 
             fdata1, fdata2 = _init_data_f(n_decades, half_chunk_size, shape, cross = cross)
             
-- 
2.43.0


From 1d34365a83b61c55af0a2e05813209eb2733d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 09/26] fix: iterative complex auto-correlation lost delays
 between data chunks

---
 cddm/multitau.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index a277105..e72a358 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -935,7 +935,8 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                     #     m1_fast += out[3] /2
                     #     m1_fast += out[4] /2          
                         
-                    out = ccorr(_sliced_data(fdata1,0,fstart1,fstop1),_sliced_data(fdata1,0,fstart2,fstop2),t1[istart1:istop1],t1[istart2:istop2],f1s = f1s, f2s = f2s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                    #previous chunk goes first, so that time delays are positive
+                    out = ccorr(_sliced_data(fdata1,0,fstart2,fstop2),_sliced_data(fdata1,0,fstart1,fstop1),t1[istart2:istop2],t1[istart1:istop1],f1s = f2s, f2s = f1s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
                         
                     out_fast += out[0][...,0:n_fast]
                     count_fast += out[1][...,0:n_fast]
@@ -1009,7 +1010,7 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                             #     m1_slow[j-1] += out[3] /2
                             #     m1_slow[j-1] += out[4] /2
                             
-                            out = ccorr(_sliced_data(fdata1,j,fstart1,fstop1),_sliced_data(fdata1,j,fstart2,fstop2),t_slow[istart1:istop1],t_slow[istart2:istop2],f1s = f1s, f2s = f2s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                            out = ccorr(_sliced_data(fdata1,j,fstart2,fstop2),_sliced_data(fdata1,j,fstart1,fstop1),t_slow[istart2:istop2],t_slow[istart1:istop1],f1s = f2s, f2s = f1s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
 
 
                             out_slow[j-1] += out[0][...,0:n_slow]
-- 
2.43.0


From 331a94f69c2b88a55f25e318e2552650c598d583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 10/26] fix: iterative multi-tau without binning kept the last
 frame of each pair

---
 cddm/multitau.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index e72a358..ac7bcf4 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -424,7 +424,7 @@ def _add_data1(i,x, out, binning = True, r = None):
                 x = _mean(x, out[j-1,...,index_top-1,:], out[j,...,index_low,:]) if OPTIMIZE_LAYOUT else _mean(x, out[j-1,index_top-1,...], out[j,index_low,...])
             elif binning == BINNING_CHOOSE:
                 if r is None:
-                    r = np.randomd.rand()
+                    r = np.random.rand()
                 if OPTIMIZE_LAYOUT:
                     x = x if r > 0.5 else out[j-1,...,index_top-1,:]
                     out[j,...,index_low,:] = x
@@ -433,9 +433,12 @@ def _add_data1(i,x, out, binning = True, r = None):
                     x = x if r > 0.5 else out[j-1,index_top-1,...]
                     out[j,index_low,...] = x                    
             else:
+                #no binning, take the first frame of each pair
                 if OPTIMIZE_LAYOUT:
+                    x = out[j-1,...,index_top-1,:]
                     out[j,...,index_low,:] = x
                 else:
+                    x = out[j-1,index_top-1,...]
                     out[j,index_low,...] = x
             
             index_top = index_low
@@ -470,7 +473,7 @@ def _add_data2(i,x1, x2, out1, out2, binning = True, r = None):
                     
             elif binning == BINNING_CHOOSE:
                 if r is None:
-                    r = np.randomd.rand()
+                    r = np.random.rand()
                 if OPTIMIZE_LAYOUT:
                     x1 = x1 if r > 0.5 else out1[j-1,...,index_top-1,:]
                     x2 = x2 if r > 0.5 else out2[j-1,...,index_top-1,:]
@@ -484,10 +487,15 @@ def _add_data2(i,x1, x2, out1, out2, binning = True, r = None):
                     out1[j,index_low,...] = x1
                     out2[j,index_low,...] = x2                    
             else:
+                #no binning, take the first frame of each pair
                 if OPTIMIZE_LAYOUT:
+                    x1 = out1[j-1,...,index_top-1,:]
+                    x2 = out2[j-1,...,index_top-1,:]
                     out1[j,...,index_low,:] = x1
                     out2[j,...,index_low,:] = x2
                 else:
+                    x1 = out1[j-1,index_top-1,...]
+                    x2 = out2[j-1,index_top-1,...]
                     out1[j,index_low,...] = x1
                     out2[j,index_low,...] = x2            
             index_top = index_low
-- 
2.43.0


From d89aab6dd3c7d822140c16acfebf3d55dbd5a428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 11/26] fix: k_select failed for data computed from real frames
 and for a single k

---
 cddm/map.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cddm/map.py b/cddm/map.py
index 6c2ada4..4c9d14f 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -309,24 +309,27 @@ def _k_select_complex(data, k, indexmap, kmap, computed_mask, masked_data):
     
 def _k_select_real(data, k, indexmap, kmap, computed_mask, masked_data):
     mask = (indexmap == int(round(k)))
-    ks = kmap[mask]
-    mask = as_rfft2_mask(mask)
+    #data of the other half of the k-space is complex conjugate of the computed half
     conj_mask = as_rfft2_conj(mask)
+    if mask.shape[1] % 2 == 0:
+        #Nyquist column is already in the computed half.
+        conj_mask[:,-1] = False
+    mask = as_rfft2_data(mask)
+    kmap = as_rfft2_data(kmap)
     
     if computed_mask is not None:
         mask = mask & computed_mask
         conj_mask = conj_mask & computed_mask
         
+    ks = np.concatenate((kmap[mask], kmap[conj_mask]))
     
     if masked_data == True:
         mask = mask[computed_mask]
         conj_mask = conj_mask[computed_mask]
     if len(ks) > 0:
         #at least one k value exists
-        conj_mask = conj_mask[mask]
-        masked_data = data[...,mask,:]
-        masked_data[...,conj_mask,:] = np.conj(masked_data[...,conj_mask,:])
-        data_avg = np.nanmean(masked_data, axis = -2)
+        selected_data = np.concatenate((data[...,mask,:], np.conj(data[...,conj_mask,:])), axis = -2)
+        data_avg = np.nanmean(selected_data, axis = -2)
         k_avg = ks.mean()
         return k_avg, data_avg  
     else:
@@ -668,7 +671,7 @@ def k_select(data, angle , sector = 5, kstep = 1, k = None, shape = None, mask =
         return tuple((data for data in iterator if data is not None))       
     except TypeError:
         #not iterable
-        return _k_select(data, k, indexmap, kmap, mask)
+        return _k_select(data, k, indexmap, kmap, mask, masked_data)
     
 #
 #if __name__ == "__main__":
-- 
2.43.0


From 0160c57edc97af49f5c05e0fa2ff58eadffd5793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 12/26] fix: cropping of fft data with kimax or kjmax of zero

---
 cddm/fft.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cddm/fft.py b/cddm/fft.py
index 416dc6d..c63e898 100644
--- a/cddm/fft.py
+++ b/cddm/fft.py
@@ -150,7 +150,8 @@ def rfft2_crop(x, kimax = None, kjmax = None):
         
         out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
         out[...,:istop,:] = x[...,:istop,:jstop] 
-        out[...,-istop+1:,:] = x[...,-istop+1:,:jstop] 
+        if istop > 1:
+            out[...,-istop+1:,:] = x[...,-istop+1:,:jstop] 
         return out
     
 def fft2_crop(x, kimax = None, kjmax = None):
@@ -180,9 +181,12 @@ def fft2_crop(x, kimax = None, kjmax = None):
         
         out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
         out[...,:istop,:jstop] = x[...,:istop,:jstop] 
-        out[...,-istop+1:,:jstop] = x[...,-istop+1:,:jstop] 
-        out[...,:istop,-jstop+1:] = x[...,:istop,-jstop+1:] 
-        out[...,-istop+1:,-jstop+1:] = x[...,-istop+1:,-jstop+1:] 
+        if istop > 1:
+            out[...,-istop+1:,:jstop] = x[...,-istop+1:,:jstop] 
+        if jstop > 1:
+            out[...,:istop,-jstop+1:] = x[...,:istop,-jstop+1:] 
+        if istop > 1 and jstop > 1:
+            out[...,-istop+1:,-jstop+1:] = x[...,-istop+1:,-jstop+1:] 
         return out
        
 def rfft2_video(video, kimax = None, kjmax = None, overwrite_x = False, extra = {}):
-- 
2.43.0


From 97f34475b12d67131e2f46093a2107afaf7b81a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 13/26] fix: increasing filter left the first element
 uninitialized

---
 cddm/_core_nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index ee37ff1..33dd56a 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -223,7 +223,7 @@ def decreasing(array, out):
 def increasing(array,out):
     """Performs increasing filter. Each next element must be greater or equal"""
     n = len(array)
-    for i in range(1,n):
+    for i in range(n):
         if i == 0:
             out[0] = array[0]
         else:
-- 
2.43.0


From 7bac37c9c778a071af38b292dbd9eab347d5899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 14/26] fix: asmemmaps failed for a list of frames

---
 cddm/video.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cddm/video.py b/cddm/video.py
index 265ba75..a818bf3 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -133,6 +133,8 @@ def asmemmaps(basename, video, count = None):
     print1("Writing to memmap...")
     print_progress(0, count)
     
+    video = iter(video)
+    
     frames = next(video)
     out = _empty_arrays(frames)
     [_load(out[i][0],frame) for i,frame in enumerate(frames)]
-- 
2.43.0


From a84976d62b7e29a65fb538af2a5951021a4ae7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 15/26] fix: threaded video yielded a trailing None

---
 cddm/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/video.py b/cddm/video.py
index a818bf3..7f8ef4f 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -596,10 +596,10 @@ def threaded(video, queue_size = 0):
     while True:
         out = q.get()
         q.task_done()
-        yield out
                 
         if out is None:
             break
+        yield out
         
 def figure_title(name):
     """Generate a unique figure title"""
-- 
2.43.0


From 15de607794036517486865c6d485be2880be9af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 16/26] fix: fold_data returned negative delays shifted by one

---
 cddm/norm.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 6363f8e..f64cd3d 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -840,7 +840,7 @@ def fold_data(data, mode = 0):
         Output array of shape (..., n).
         With mode = 0: out[i] = 0.5 * data[i] + np.conj(data[-i])
         With mode = 1: out[i] = data[i] 
-        With mode = 2: out[i] = data[-i]
+        With mode = -1: out[i] = data[-i]
     """
     data = np.asarray(data)
     if not np.iscomplexobj(data):
@@ -855,10 +855,9 @@ def fold_data(data, mode = 0):
             out[...,1:] += np.conj(data[...,-1:-n:-1])
             out[...,1:] /= 2
     else:
-        #take all negative values and largest positive value
-        out = data[...,-1:-n-1:-1].copy()
-        #first one is zero, so overwrite the largest positive value.
-        out[...,0] = data[...,0]
+        #take zero delay and all negative values
+        out = data[...,0:n].copy()
+        out[...,1:] = data[...,-1:-n:-1]
         
     return out
 
-- 
2.43.0


From 6f8b8dd4162130cd88bb8497a561e5cefd55ba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 17/26] fix: weights must use the scaled noise delta also for
 unscaled data

---
 cddm/norm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index f64cd3d..76b5341 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -251,7 +251,7 @@ def noise_delta(variance, mask = None, scale = True):
         v1, v2 = variance
         delta = (np.asarray(v2) - np.asarray(v1))
         scale = (np.asarray(v1) + np.asarray(v2)) if scale == True else 2.
-        delta /= scale
+        delta = delta / scale
     except:
         #single data has delta = 0.
         scale = np.asarray(variance) 
@@ -574,11 +574,11 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
         weighted_data = base_data
         
         if norm & NORM_SUBTRACTED:
-            delta = noise_delta(variance, mask, scale = scale)
+            delta = noise_delta(variance, mask)
         else:
             bg1 = bg1 / (scale_factor(variance,mask))**0.5 if scale == True else bg1
             bg2 = bg2 / (scale_factor(variance,mask))**0.5  if scale == True else bg2
-            delta = noise_delta(variance, mask, scale = scale)
+            delta = noise_delta(variance, mask)
         
         if weight is None:
             weight = weight_from_data(weighted_data, delta, scale_factor = _scale_factor, mode = mode)
-- 
2.43.0


From 4797370419221bd2a715ae9a9b358b3c0c3a36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 18/26] fix: normalize writes weighted results to the given
 output array

---
 cddm/norm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 76b5341..8fc344c 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -619,9 +619,9 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
         enable_prints(level) 
         
         if ret_weight == True:
-            return weighted_sum(comp_data, base_data,weight), weight
+            return weighted_sum(comp_data, base_data,weight, out = out), weight
         else:
-            return weighted_sum(comp_data, base_data,weight)
+            return weighted_sum(comp_data, base_data,weight, out = out)
         
     count = data[1]
     
-- 
2.43.0


From 98c4d1e0c6b24ade151a505a726f7abe71f318eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 19/26] fix: shift_data removes the phase common to opposite
 delays instead of keeping it

---
 cddm/norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 8fc344c..5ce3be4 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -782,7 +782,7 @@ def shift_data(data):
     pos_phase = np.arctan2(pos.imag, pos.real)
     neg_phase = np.arctan2(neg.imag, neg.real)
     
-    phase = (pos_phase - neg_phase)/2.
+    phase = (pos_phase + neg_phase)/2.
     exp_phase = np.exp(1j*phase)
 
     out[...,1:n] = np.abs(pos) * exp_phase
-- 
2.43.0


From 35375dbb0551b2204b4e834b8439a7ce4448bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 20/26] fix: half-plane conversions swapped the axes for a pair
 of one positive and one negative axis

---
 cddm/map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cddm/map.py b/cddm/map.py
index 4c9d14f..7547595 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -426,7 +426,7 @@ def as_rfft2_conj(a, axes = (-2,-1)):
     >>> np.allclose(cf[2,5], f[-2,-5])
     True
     """
-    ax1,ax2 = tuple(sorted(axes))
+    ax1,ax2 = tuple(sorted(ax % a.ndim for ax in axes))
     
     slices_in = [slice(None)]*a.ndim
     slices_out = [slice(None)]*a.ndim
@@ -482,7 +482,7 @@ def as_rfft2_data(a, axes = (-2,-1)):
     >>> np.allclose(hf,rf)
     True
     """
-    ax1,ax2 = tuple(sorted(axes))
+    ax1,ax2 = tuple(sorted(ax % a.ndim for ax in axes))
     
     slices_in = [slice(None)]*a.ndim
     
@@ -509,7 +509,7 @@ def from_rfft2_data(a, shape = None, axes = (-2,-1)):
     >>> np.allclose(from_rfft2_data(hf, shape = (32,32)), f)
     True
     """
-    ax1,ax2 = tuple(sorted(axes))
+    ax1,ax2 = tuple(sorted(ax % a.ndim for ax in axes))
     
     slices_in = [slice(None)]*a.ndim
     slices_out = [slice(None)]*a.ndim
-- 
2.43.0


From 5821af837f7c86f7ef0fb32821f720d960acad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 21/26] fix: a thread divisor of zero was not rejected with a
 value error

---
 cddm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/core.py b/cddm/core.py
index 770acdb..6ac83c2 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -276,7 +276,7 @@ def thread_frame_shape(shape, thread_divisor = None, force_2d = False):
         total = reduce((lambda x, y: x * y), new_shape)
         try:
             new_shape = (thread_divisor, total//int(thread_divisor))
-        except ValueError:
+        except (ValueError, ZeroDivisionError):
             raise ValueError("Invalid `thread_divisor`")
         
         if total != new_shape[0] * new_shape[1]:
-- 
2.43.0


From 4dc3f4c3aafdae48b34f49dbd5e3e354e70a2c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 22/26] fix: switching nested prints back on made them visible
 inside an outer switched-off part

---
 cddm/print_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/print_tools.py b/cddm/print_tools.py
index 2275681..b85243b 100644
--- a/cddm/print_tools.py
+++ b/cddm/print_tools.py
@@ -51,6 +51,6 @@ def enable_prints(level = None):
     """Enable message printing. Returns previous verbosity level"""
     #set verbosity to positve value
     value = cddm.conf.CDDMConfig.verbose if level is None else int(level)
-    cddm.conf.CDDMConfig.verbose =  abs(cddm.conf.CDDMConfig.verbose)
+    cddm.conf.CDDMConfig.verbose = abs(value) if level is None else value
     return value
                                         
\ No newline at end of file
-- 
2.43.0


From 203722095756be6f49c9ed27a3993bb08ebbe6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 23/26] fix: brownian_walk applies dt to a callable velocity,
 as it does to a constant one

---
 cddm/sim.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index ac3bae6..ee2a258 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -137,8 +137,7 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
         yield x
 
         if callable(velocity):
-            _velocity = velocity(x)
-            _velocity = np.asarray(_velocity, FDTYPE)
+            _velocity = np.asarray(velocity(x), FDTYPE)*dt
         if callable(delta):
             _delta = delta(x)
             _scale = _delta*np.sqrt(dt)
-- 
2.43.0


From 47d22e7877096a7a5937c6b676013864be526661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 24/26] fix: brownian_walk accepts a callable delta that
 returns one value per particle, as documented

---
 cddm/sim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index ee2a258..d85b1c3 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -139,7 +139,9 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
         if callable(velocity):
             _velocity = np.asarray(velocity(x), FDTYPE)*dt
         if callable(delta):
-            _delta = delta(x)
+            _delta = np.asarray(delta(x), FDTYPE)
+            if _delta.ndim == 1:
+                _delta = _delta[:,None] #one value per particle, for both coordinates
             _scale = _delta*np.sqrt(dt)
             _scale = np.asarray(_scale, FDTYPE)
             
-- 
2.43.0


From 8f228e5b7c6d4e9cb15a64abc308ba80e0717446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 25/26] fix: data_trigger raised IndexError for an empty list
 of indices

---
 cddm/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cddm/sim.py b/cddm/sim.py
index d85b1c3..f256466 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -293,6 +293,9 @@ def data_trigger(data, indices):
     
     t = list(reversed(sorted(set(indices))))  #make all indices unique and sorted. 
     
+    if not t:
+        return #no indices, nothing to select
+    
     ii = t.pop()
     
     for i,d in enumerate(data):
-- 
2.43.0


From c96fef9ac63807182497868f249464a512d17ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:21 +0000
Subject: [PATCH 26/26] fix: random binning chose different frames for the two
 signals and their squares

---
 cddm/multitau.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index ac7bcf4..3ad381e 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -271,11 +271,13 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     #do multi-tau caluclation
 
     for i in range(nlevel):
-        f1 = _bin(f1,axis, new_axis)
-        f2 = _bin(f2,axis, new_axis) if cross else None
+        #BINNING_CHOOSE must choose the same frames of all inputs
+        r = np.random.rand()
+        f1 = _bin(f1,axis, new_axis, r = r)
+        f2 = _bin(f2,axis, new_axis, r = r) if cross else None
         if (norm & NORM_STRUCTURED) and correlate:
-            f1s = _bin(f1s,axis, new_axis)
-            f2s = _bin(f2s,axis, new_axis) if cross else None
+            f1s = _bin(f1s,axis, new_axis, r = r)
+            f2s = _bin(f2s,axis, new_axis, r = r) if cross else None
         axis = new_axis
                 
         _out =  tuple(((d[i] if d is not None else None) for d in data_slow))
-- 
2.43.0

