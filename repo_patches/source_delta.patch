From c9d1ba08056dc3289b953d037b63d3dbf05b1d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:37 +0000
Subject: [PATCH 01/55] fix: numba >= 0.59 removed generated_jit, making most
 modules unimportable

---
 africanus/util/numba.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/africanus/util/numba.py b/africanus/util/numba.py
index 9574e6d..33b0e65 100644
--- a/africanus/util/numba.py
+++ b/africanus/util/numba.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 
+import inspect
+
 from decorator import decorate
 from numba import types
 
@@ -26,9 +28,39 @@ if on_rtd():
     overload = _fake_decorator
     register_jitable = _fake_decorator
 else:
-    from numba import cfunc, jit, njit, generated_jit, stencil  # noqa
+    from numba import cfunc, jit, njit, stencil  # noqa
     from numba.extending import overload, register_jitable  # noqa
 
+    try:
+        from numba import generated_jit  # noqa
+    except ImportError:
+        # Removed in numba 0.59.0
+        def generated_jit(**jit_options):
+            """ generated_jit replacement built on numba.extending.overload """
+            def decorator(generator):
+                def stub(*args, **kwargs):
+                    raise NotImplementedError
+
+                overload(stub, jit_options=jit_options)(generator)
+
+                # Dispatcher with the generator's name, signature and defaults
+                sig = inspect.signature(generator)
+                params = ", ".join(sig.parameters)
+                defaults = ", ".join(
+                    n if p.default is p.empty else "%s=%r" % (n, p.default)
+                    for n, p in sig.parameters.items())
+                namespace = {"stub": stub}
+                exec("def %s(%s):\n    return stub(%s)"
+                     % (generator.__name__, defaults, params), namespace)
+                fn = namespace[generator.__name__]
+                fn.__module__ = generator.__module__
+                fn.__doc__ = generator.__doc__
+                opts = {k: v for k, v in jit_options.items() if k != "cache"}
+
+                return jit(**opts)(fn)
+
+            return decorator
+
 
 def is_numba_type_none(arg):
     """
-- 
2.43.0


From e889ab1bf16c52467b28cc102fdf38286d15a803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:37 +0000
Subject: [PATCH 02/55] fix: numpy >= 1.24 removed the np.object and np.float
 aliases

---
 africanus/averaging/dask.py      | 20 ++++++++++----------
 africanus/gridding/nifty/dask.py |  4 ++--
 africanus/linalg/geometry.py     |  2 +-
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index 6eba313..bcb01fe 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -54,7 +54,7 @@ def chan_metadata(row_chan_arrays, chan_arrays, chan_bin_size):
               for i, c in enumerate(chan_chunks)}
     graph = HighLevelGraph.from_collections(name, layers, ())
     chunks = (chan_chunks,)
-    chan_mapper = da.Array(graph, name, chunks, dtype=np.object)
+    chan_mapper = da.Array(graph, name, chunks, dtype=object)
 
     return chan_mapper
 
@@ -70,8 +70,8 @@ def row_mapper(time, interval, antenna1, antenna2,
                         flag_row, None if flag_row is None else ("row",),
                         adjust_chunks={"row": lambda x: np.nan},
                         time_bin_secs=time_bin_secs,
-                        meta=np.empty((0,), dtype=np.object),
-                        dtype=np.object)
+                        meta=np.empty((0,), dtype=object),
+                        dtype=object)
 
 
 def _getitem_row(avg, idx, array, dims):
@@ -125,8 +125,8 @@ def row_average(row_meta, ant1, ant2, flag_row=None,
                        *(v for pair in args for v in pair[1:]),
                        align_arrays=False,
                        adjust_chunks={"row": lambda x: np.nan},
-                       meta=np.empty((0,)*len(rd), dtype=np.object),
-                       dtype=np.object)
+                       meta=np.empty((0,)*len(rd), dtype=object),
+                       dtype=object)
 
     # ant1, ant2, time_centroid, exposure, uvw, weight, sigma
     out_args = [(a, dims) for out, a, dims in args if out is True]
@@ -149,7 +149,7 @@ def _getitem_row_chan(avg, idx, dtype):
 
     graph = HighLevelGraph.from_collections(name, layers, (avg,))
     return da.Array(graph, name, avg.chunks,
-                    meta=np.empty((0,)*len(dim), dtype=np.object),
+                    meta=np.empty((0,)*len(dim), dtype=object),
                     dtype=dtype)
 
 
@@ -191,8 +191,8 @@ def row_chan_average(row_meta, chan_meta, flag_row=None, weight=None,
                        align_arrays=False,
                        adjust_chunks=adjust_chunks,
                        meta=np.empty((0,)*len(_row_chan_avg_dims),
-                                     dtype=np.object),
-                       dtype=np.object)
+                                     dtype=object),
+                       dtype=object)
 
     tuple_gets = (None if a is None else _getitem_row_chan(avg, i, a.dtype)
                   for i, a in enumerate([vis, flag,
@@ -234,8 +234,8 @@ def chan_average(chan_meta, chan_freq=None, chan_width=None,
                        effective_bw, None if effective_bw is None else cdim,
                        resolution, None if resolution is None else cdim,
                        adjust_chunks=adjust_chunks,
-                       meta=np.empty((0,), dtype=np.object),
-                       dtype=np.object)
+                       meta=np.empty((0,), dtype=object),
+                       dtype=object)
 
     tuple_gets = (None if a is None else _getitem_chan(avg, i, a.dtype)
                   for i, a in enumerate([chan_freq, chan_width,
diff --git a/africanus/gridding/nifty/dask.py b/africanus/gridding/nifty/dask.py
index 675d77b..a3e0ba8 100644
--- a/africanus/gridding/nifty/dask.py
+++ b/africanus/gridding/nifty/dask.py
@@ -310,7 +310,7 @@ def grid(vis, uvw, flags, weights, frequencies, grid_config,
     baselines = da.blockwise(_nifty_baselines, ("row",),
                              uvw, ("row", "uvw"),
                              frequencies, ("chan",),
-                             dtype=np.object)
+                             dtype=object)
 
     if len(frequencies.chunks[0]) != 1:
         raise ValueError("Chunking in channel unsupported")
@@ -492,7 +492,7 @@ def degrid(grid, uvw, flags, weights, frequencies,
     baselines = da.blockwise(_nifty_baselines, ("row",),
                              uvw, ("row", "uvw"),
                              frequencies, ("chan",),
-                             dtype=np.object)
+                             dtype=object)
 
     gc = grid_config.object
     vis_chunks = []
diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 934e735..395bb17 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -304,7 +304,7 @@ class BoundingConvexHull(object):
         unique_pxls_flatten, paint_count = np.unique(
             allmasks_flatten, return_counts=True
         )
-        paint_count = paint_count.astype(np.float)
+        paint_count = paint_count.astype(np.float64)
 
         if only_overlapped_regions:
             sel = paint_count > 1
-- 
2.43.0


From 7cf6ea6758c782fb2f35a6cf2bcf211578f7a398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:27 +0000
Subject: [PATCH 03/55] fix: row_mapper measured every later time bin from the
 start of the first one

---
 africanus/averaging/time_and_channel_mapping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/africanus/averaging/time_and_channel_mapping.py b/africanus/averaging/time_and_channel_mapping.py
index f050141..1f8909f 100644
--- a/africanus/averaging/time_and_channel_mapping.py
+++ b/africanus/averaging/time_and_channel_mapping.py
@@ -263,6 +263,8 @@ def row_mapper(time, interval, antenna1, antenna2,
                     tbin += 1
                     bin_count = 0
                     bin_flag_count = 0
+                    # The current sample starts the new bin
+                    bin_low = time[r] - half_int
 
                 # Record the output bin associated with the row
                 bin_lookup[bl, t] = tbin
-- 
2.43.0


From 888334e5cf5d916d1f74ec163e75ba649198cb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:27 +0000
Subject: [PATCH 04/55] fix: unique_baselines ordered baselines by (ant2, ant1)
 instead of (ant1, ant2)

---
 africanus/averaging/support.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/africanus/averaging/support.py b/africanus/averaging/support.py
index d5e15f6..1e5594a 100644
--- a/africanus/averaging/support.py
+++ b/africanus/averaging/support.py
@@ -79,10 +79,12 @@ def unique_baselines(ant1, ant2):
         # and cast to int64
         bl_32bit = np.empty((ant1.shape[0], 2), dtype=np.int32)
 
-        # Copy data
+        # Copy data. On little-endian machines, the second int32 is the
+        # most significant part of the int64, so ant1 is placed there
+        # in order to sort by (ant1, ant2)
         for r in range(ant1.shape[0]):
-            bl_32bit[r, 0] = ant1[r]
-            bl_32bit[r, 1] = ant2[r]
+            bl_32bit[r, 0] = ant2[r]
+            bl_32bit[r, 1] = ant1[r]
 
         # Cast to int64 for the unique operation
         bl = bl_32bit.view(np.int64).reshape(ant1.shape[0])
@@ -90,7 +92,7 @@ def unique_baselines(ant1, ant2):
         ret, idx, inv, counts = _unique_internal(bl)
 
         # Recast to int32 and reshape
-        ubl = ret.view(np.int32).reshape(ret.shape[0], 2)
+        ubl = ret.view(np.int32).reshape(ret.shape[0], 2)[:, ::-1].copy()
 
         return ubl, idx, inv, counts
 
-- 
2.43.0


From d49a5fb704b3158713a60c9af62c223c9a56025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:27 +0000
Subject: [PATCH 05/55] fix: averaging dropped flagged rows whose flag value is
 not 1

---
 africanus/averaging/time_and_channel_avg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/averaging/time_and_channel_avg.py b/africanus/averaging/time_and_channel_avg.py
index 2940e47..cb90fb9 100644
--- a/africanus/averaging/time_and_channel_avg.py
+++ b/africanus/averaging/time_and_channel_avg.py
@@ -15,7 +15,7 @@ from africanus.util.numba import is_numba_type_none, generated_jit, njit
 def matching_flag_factory(present):
     if present:
         def impl(flag_row, ri, out_flag_row, ro):
-            return flag_row[ri] == out_flag_row[ro]
+            return (flag_row[ri] != 0) == (out_flag_row[ro] != 0)
     else:
         def impl(flag_row, ri, out_flag_row, ro):
             return True
-- 
2.43.0


From 82ab2fc7c598c92367c3aa5582ebd6e02dd02096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:27 +0000
Subject: [PATCH 06/55] fix: dask channel averaging ignored the bin size and
 failed without channel arrays

---
 africanus/averaging/dask.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index bcb01fe..0ce6507 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -219,7 +219,7 @@ def chan_average(chan_meta, chan_freq=None, chan_width=None,
                  effective_bw=None, resolution=None, chan_bin_size=1):
 
     if chan_meta is None:
-        return ChannelAverageOutput(None, None)
+        return ChannelAverageOutput(None, None, None, None)
 
     adjust_chunks = {
         "chan": lambda c: (c + chan_bin_size - 1) // chan_bin_size
@@ -314,7 +314,8 @@ def time_and_channel(time, interval, antenna1, antenna2,
                              chan_freq=chan_freq,
                              chan_width=chan_width,
                              effective_bw=effective_bw,
-                             resolution=resolution)
+                             resolution=resolution,
+                             chan_bin_size=chan_bin_size)
 
     # Merge output tuples
     return AverageOutput(_getitem_row(row_meta, 1, time, ("row",)),
-- 
2.43.0


From b4d61926bf866c6af4f432fd6806b8a520604f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:52 +0000
Subject: [PATCH 07/55] fix: dask averaging failed when only channel arrays and
 no row-channel arrays were given

---
 africanus/averaging/dask.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index 0ce6507..a68ebfb 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -162,7 +162,9 @@ def row_chan_average(row_meta, chan_meta, flag_row=None, weight=None,
                      chan_bin_size=1):
     """ Average (row,chan,corr)-based dask arrays """
 
-    if chan_meta is None:
+    if chan_meta is None or all(a is None for a in (vis, flag,
+                                                    weight_spectrum,
+                                                    sigma_spectrum)):
         return RowChanAverageOutput(None, None, None, None)
 
     # We don't know how many rows are in each row chunk,
-- 
2.43.0


From ab5032c1bb6a3154015d3e207fb7d43a92883977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:40 +0000
Subject: [PATCH 08/55] fix: dask predict_vis ignored base_vis when inferring
 the output dtype

---
 africanus/rime/dask_predict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index 98e56e3..f8f5f30 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -403,7 +403,8 @@ def predict_vis(time_index, antenna1, antenna2,
                              (time_index.chunks[0], die1_jones.chunks[1]))
 
     # Infer the output dtype
-    dtype_arrays = [dde1_jones, source_coh, dde2_jones, die1_jones, die2_jones]
+    dtype_arrays = [dde1_jones, source_coh, dde2_jones,
+                    die1_jones, base_vis, die2_jones]
     out_dtype = np.result_type(*(np.dtype(a.dtype.name)
                                  for a in dtype_arrays
                                  if a is not None))
-- 
2.43.0


From 5f833c1e5caa244ecd9d1503a260657acd680eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:40 +0000
Subject: [PATCH 09/55] fix: transform_sources rotated m with the already
 rotated l

---
 africanus/rime/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/rime/transform.py b/africanus/rime/transform.py
index eed0e55..25ce571 100644
--- a/africanus/rime/transform.py
+++ b/africanus/rime/transform.py
@@ -24,11 +24,11 @@ def _nb_transform_sources(lm, parallactic_angles, pointing_errors,
             pa_cos = math.cos(parallactic_angles[t, a])
 
             for s in range(nsrc):
-                l, m = lm[s]
+                l0, m0 = lm[s]
 
                 # Rotate source coordinate by parallactic angle
-                l = l*pa_cos - m*pa_sin  # noqa
-                m = l*pa_sin + m*pa_cos
+                l = l0*pa_cos - m0*pa_sin  # noqa
+                m = l0*pa_sin + m0*pa_cos
 
                 # Add pointing errors
                 l += pointing_errors[t, a, 0]  # noqa
-- 
2.43.0


From d58a0661a6ad091a6238b5caff7d10653e7e7690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:14 +0000
Subject: [PATCH 10/55] fix: calibration functions overwrote the caller's
 time_bin_indices

---
 africanus/calibration/phase_only/phase_only.py | 18 +++++++++---------
 .../utils/compute_and_corrupt_vis.py           |  6 +++---
 africanus/calibration/utils/correct_vis.py     |  6 +++---
 africanus/calibration/utils/corrupt_vis.py     |  6 +++---
 africanus/calibration/utils/residual_vis.py    |  6 +++---
 5 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index 8668de1..74474ee 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -36,7 +36,7 @@ def compute_jhj_and_jhr(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, residual, model, flag):
         # for chunked dask arrays we need to adjust the chunks to
         # start counting from zero (see also map_blocks)
-        time_bin_indices -= time_bin_indices.min()
+        bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -48,8 +48,8 @@ def compute_jhj_and_jhr(time_bin_indices, time_bin_counts, antenna1,
         # tmp array the shape of jones_corr
         jac = np.zeros_like(jones[0, 0, 0, 0], dtype=jones.dtype)
         for t in range(n_tim):
-            for row in range(time_bin_indices[t],
-                             time_bin_indices[t] + time_bin_counts[t]):
+            for row in range(bin_indices[t],
+                             bin_indices[t] + time_bin_counts[t]):
                 p = antenna1[row]
                 q = antenna2[row]
                 for nu in range(n_chan):
@@ -82,7 +82,7 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, model, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -92,8 +92,8 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
         # tmp array the shape of jones_corr
         jac = np.zeros_like(jones[0, 0, 0, 0], dtype=jones.dtype)
         for t in range(n_tim):
-            for row in range(time_bin_indices[t],
-                             time_bin_indices[t] + time_bin_counts[t]):
+            for row in range(bin_indices[t],
+                             bin_indices[t] + time_bin_counts[t]):
                 p = antenna1[row]
                 q = antenna2[row]
                 for nu in range(n_chan):
@@ -122,7 +122,7 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, residual, model, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -132,8 +132,8 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
         # tmp array the shape of jones_corr
         jac = np.zeros_like(jones[0, 0, 0, 0], dtype=jones.dtype)
         for t in range(n_tim):
-            for row in range(time_bin_indices[t],
-                             time_bin_indices[t] + time_bin_counts[t]):
+            for row in range(bin_indices[t],
+                             bin_indices[t] + time_bin_counts[t]):
                 p = antenna1[row]
                 q = antenna2[row]
                 for nu in range(n_chan):
diff --git a/africanus/calibration/utils/compute_and_corrupt_vis.py b/africanus/calibration/utils/compute_and_corrupt_vis.py
index 85496c5..25eaaa7 100644
--- a/africanus/calibration/utils/compute_and_corrupt_vis.py
+++ b/africanus/calibration/utils/compute_and_corrupt_vis.py
@@ -85,15 +85,15 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                                     uvw, freq, lm):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         model_shape = np.shape(model)
         vis_shape = (antenna1.shape[0],) + (freq.shape[0],) + model.shape[3:]
         vis = np.zeros(vis_shape, dtype=jones.dtype)
         n_chan = model_shape[1]
         for t in range(n_tim):
-            for row in range(time_bin_indices[t],
-                             time_bin_indices[t] + time_bin_counts[t]):
+            for row in range(bin_indices[t],
+                             bin_indices[t] + time_bin_counts[t]):
                 p = int(antenna1[row])
                 q = int(antenna2[row])
                 gp = jones[t, p]
diff --git a/africanus/calibration/utils/correct_vis.py b/africanus/calibration/utils/correct_vis.py
index d629ae2..63cb3fe 100644
--- a/africanus/calibration/utils/correct_vis.py
+++ b/africanus/calibration/utils/correct_vis.py
@@ -77,7 +77,7 @@ def correct_vis(time_bin_indices, time_bin_counts,
                         antenna1, antenna2, jones, vis, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_dir = jones_shape[3]
@@ -87,8 +87,8 @@ def correct_vis(time_bin_indices, time_bin_counts,
         n_chan = jones_shape[2]
         corrected_vis = np.zeros_like(vis, dtype=vis.dtype)
         for t in range(n_tim):
-            for row in range(time_bin_indices[t],
-                             time_bin_indices[t] + time_bin_counts[t]):
+            for row in range(bin_indices[t],
+                             bin_indices[t] + time_bin_counts[t]):
                 p = int(antenna1[row])
                 q = int(antenna2[row])
                 gp = jones[t, p]
diff --git a/africanus/calibration/utils/corrupt_vis.py b/africanus/calibration/utils/corrupt_vis.py
index 22b15ab..6fcbe83 100644
--- a/africanus/calibration/utils/corrupt_vis.py
+++ b/africanus/calibration/utils/corrupt_vis.py
@@ -67,15 +67,15 @@ def corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, model):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         model_shape = np.shape(model)
         vis_shape = model.shape[:2] + model.shape[3:]
         vis = np.zeros(vis_shape, dtype=model.dtype)
         n_chan = model_shape[1]
         for t in range(n_tim):
-            for row in range(time_bin_indices[t],
-                             time_bin_indices[t] + time_bin_counts[t]):
+            for row in range(bin_indices[t],
+                             bin_indices[t] + time_bin_counts[t]):
                 p = int(antenna1[row])
                 q = int(antenna2[row])
                 gp = jones[t, p]
diff --git a/africanus/calibration/utils/residual_vis.py b/africanus/calibration/utils/residual_vis.py
index d0e9812..3fa7143 100644
--- a/africanus/calibration/utils/residual_vis.py
+++ b/africanus/calibration/utils/residual_vis.py
@@ -71,14 +71,14 @@ def residual_vis(time_bin_indices, time_bin_counts, antenna1,
                          antenna2, jones, vis, flag, model):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         vis_shape = np.shape(vis)
         n_chan = vis_shape[1]
         residual = np.zeros(vis_shape, dtype=vis.dtype)
         for t in range(n_tim):
-            for row in range(time_bin_indices[t],
-                             time_bin_indices[t] + time_bin_counts[t]):
+            for row in range(bin_indices[t],
+                             bin_indices[t] + time_bin_counts[t]):
                 p = int(antenna1[row])
                 q = int(antenna2[row])
                 gp = jones[t, p]
-- 
2.43.0


From 5155ff45d1c01b19760fbf717ae64a702913cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:14 +0000
Subject: [PATCH 11/55] fix: gauss_newton whitened the caller's vis and model
 in place

---
 africanus/calibration/phase_only/phase_only.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index 74474ee..f8959d3 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -159,8 +159,8 @@ def gauss_newton(time_bin_indices, time_bin_counts, antenna1,
 
     # whiten data
     sqrtweights = np.sqrt(weight)
-    vis *= sqrtweights
-    model *= sqrtweights[:, :, None]
+    vis = vis * sqrtweights
+    model = model * sqrtweights[:, :, None]
 
     mode = check_type(jones, vis)
 
-- 
2.43.0


From 54187fc81b1c6edd8be766f78361556bd37e2564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:14 +0000
Subject: [PATCH 12/55] fix: dask
 compute_jhj/compute_jhr/compute_and_corrupt_vis declared wrong chunks and
 dtypes

---
 africanus/calibration/phase_only/dask.py | 8 ++++----
 africanus/calibration/utils/dask.py      | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/africanus/calibration/phase_only/dask.py b/africanus/calibration/phase_only/dask.py
index c1281be..1747b65 100644
--- a/africanus/calibration/phase_only/dask.py
+++ b/africanus/calibration/phase_only/dask.py
@@ -35,9 +35,9 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                      jones, jones_shape,
                      model, model_shape,
                      flag, vis_shape,
-                     adjust_chunks={"row": antenna1.chunks[0]},
+                     adjust_chunks={"row": jones.chunks[0]},
                      new_axes={"corr2": 2},  # why?
-                     dtype=model.dtype,
+                     dtype=jones.real.dtype,
                      align_arrays=False)
 
 
@@ -62,9 +62,9 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                      residual, vis_shape,
                      model, model_shape,
                      flag, vis_shape,
-                     adjust_chunks={"row": antenna1.chunks[0]},
+                     adjust_chunks={"row": jones.chunks[0]},
                      new_axes={"corr2": 2},  # why?
-                     dtype=model.dtype,
+                     dtype=jones.dtype,
                      align_arrays=False)
 
 
diff --git a/africanus/calibration/utils/dask.py b/africanus/calibration/utils/dask.py
index 4c2655d..8d1598c 100644
--- a/africanus/calibration/utils/dask.py
+++ b/africanus/calibration/utils/dask.py
@@ -128,7 +128,7 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts,
                      lm, ("row", "dir", "two"),
                      adjust_chunks={"row": antenna1.chunks[0]},
                      new_axes={"corr2": 2},
-                     dtype=model.dtype,
+                     dtype=jones.dtype,
                      align_arrays=False)
 
 
-- 
2.43.0


From 0033459bdbea40abbac6d1801065dbd5c708b3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:49 +0000
Subject: [PATCH 13/55] fix: residual_vis could not be compiled with the
 generated_jit replacement

---
 africanus/calibration/utils/residual_vis.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/africanus/calibration/utils/residual_vis.py b/africanus/calibration/utils/residual_vis.py
index 3fa7143..fa3d977 100644
--- a/africanus/calibration/utils/residual_vis.py
+++ b/africanus/calibration/utils/residual_vis.py
@@ -1,7 +1,6 @@
 # -*- coding: utf-8 -*-
 
 import numpy as np
-from functools import wraps
 from africanus.util.docs import DocstringTemplate
 from africanus.util.numba import generated_jit, njit
 from africanus.calibration.utils import check_type
@@ -66,7 +65,6 @@ def residual_vis(time_bin_indices, time_bin_counts, antenna1,
     mode = check_type(jones, vis)
     subtract_model = subtract_model_factory(mode)
 
-    @wraps(residual_vis)
     def _residual_vis_fn(time_bin_indices, time_bin_counts, antenna1,
                          antenna2, jones, vis, flag, model):
         # for dask arrays we need to adjust the chunks to
-- 
2.43.0


From 833d664217e69715ada8b8378ef25b684bea9ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:52 +0000
Subject: [PATCH 14/55] fix: gauss_newton stopped after one iteration, with NaN
 gains, when an antenna had no unflagged data

---
 africanus/calibration/phase_only/phase_only.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index f8959d3..219cf5d 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -186,7 +186,9 @@ def gauss_newton(time_bin_indices, time_bin_counts, antenna1,
                           jones, residual, model, flag)
 
         # implement update
-        phases_new = phases + 0.5 * (jhr/jhj).real
+        # antennas without any (unflagged) data keep their phases
+        jhj_safe = np.where(jhj > 0, jhj, 1)
+        phases_new = phases + 0.5 * (jhr/jhj_safe).real
         jones = np.exp(1.0j * phases_new)
 
         # check convergence/iteration control
-- 
2.43.0


From 80cf149febf574031e0cf94c3062986ebf675d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:17 +0000
Subject: [PATCH 15/55] fix: hogbom_clean performed niter + 1 iterations

---
 africanus/deconv/hogbom/clean.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/africanus/deconv/hogbom/clean.py b/africanus/deconv/hogbom/clean.py
index eaf2ec8..3e22bde 100644
--- a/africanus/deconv/hogbom/clean.py
+++ b/africanus/deconv/hogbom/clean.py
@@ -172,7 +172,7 @@ def hogbom_clean(dirty, psf,
     # CLEAN the image
     i = 0
 
-    while np.abs(intensity) > threshold and i <= niter:
+    while np.abs(intensity) > threshold and i < niter:
         logging.info("min %f max %f peak %f threshold %f" %
                      (residuals.min(), residuals.max(), intensity, threshold))
 
@@ -184,9 +184,9 @@ def hogbom_clean(dirty, psf,
         p, q, _, _, intensity = find_peak(residuals)
         # Increment counter
         i += 1
-        # Warn if niter exceeded
-        if i > niter:
-            logging.warn("Number of iterations exceeded")
+        # Warn if niter reached
+        if i >= niter:
+            logging.warn("Maximum number of iterations reached")
             logging.warn("Minimum residuals = %s", residuals.max())
 
     logging.info("Done cleaning after %d iterations.", i)
-- 
2.43.0


From 0e8f62a87e407037ac51f1c3c2fddc7939dead32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:17 +0000
Subject: [PATCH 16/55] fix: unknown output correlation raised
 UnboundLocalError instead of ValueError

---
 africanus/model/coherency/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/model/coherency/conversion.py b/africanus/model/coherency/conversion.py
index c9ee34b..5e834e9 100644
--- a/africanus/model/coherency/conversion.py
+++ b/africanus/model/coherency/conversion.py
@@ -112,7 +112,7 @@ def convert_setup(input, input_schema, output_schema):
             deps = stokes_conv[okey]
         except KeyError:
             raise ValueError("Unknown output '%s'. Known types '%s'"
-                             % (deps, STOKES_TYPES))
+                             % (okey, STOKES_TYPES))
 
         found_conv = False
 
-- 
2.43.0


From 5aedd6525685f9ffe09a8ea7565a28794ff84c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:17 +0000
Subject: [PATCH 17/55] fix: dask convert mixed up correlations held in
 different chunks

---
 africanus/model/coherency/dask.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/africanus/model/coherency/dask.py b/africanus/model/coherency/dask.py
index 7014236..6829232 100644
--- a/africanus/model/coherency/dask.py
+++ b/africanus/model/coherency/dask.py
@@ -31,6 +31,8 @@ def convert(input, input_schema, output_schema):
                                                         output_schema)
 
     n_free_dims = len(input.shape) - len(in_shape)
+    # Conversions need all the correlations in the same block
+    input = input.rechunk({d: -1 for d in range(n_free_dims, input.ndim)})
     free_dims = tuple("dim-%d" % i for i in range(n_free_dims))
     in_corr_dims = tuple("icorr-%d" % i for i in range(len(in_shape)))
     out_corr_dims = tuple("ocorr-%d" % i for i in range(len(out_shape)))
-- 
2.43.0


From 8d081687e35dbfe14ad4ecbbfbdaae89370edc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 18/55] fix: beam headers with an axis without CTYPE raised
 AttributeError

---
 africanus/util/beams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/util/beams.py b/africanus/util/beams.py
index 8fffeff..c99bf79 100644
--- a/africanus/util/beams.py
+++ b/africanus/util/beams.py
@@ -22,7 +22,7 @@ class FitsAxes(object):
         # Extract header information for each dimension
         axr = list(range(1, ndims+1))
         self._naxis = [header.get('NAXIS%d' % n) for n in axr]
-        self._ctype = [header.get('CTYPE%d' % n, n).strip() for n in axr]
+        self._ctype = [str(header.get('CTYPE%d' % n, n)).strip() for n in axr]
         self._crval = [header.get('CRVAL%d' % n, 0) for n in axr]
         # Convert right pixel from FORTRAN to C indexing
         self._crpix = [header['CRPIX%d' % n]-1 for n in axr]
-- 
2.43.0


From 129167ec7b6bf323987438b8f120c86c37574afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:07 +0000
Subject: [PATCH 19/55] fix: dask wsclean spectra and wsclean_predict ignored
 all but the first coefficient chunk

---
 africanus/model/wsclean/dask.py | 9 +++++++--
 africanus/rime/dask_predict.py  | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/africanus/model/wsclean/dask.py b/africanus/model/wsclean/dask.py
index f4c223a..e0f66cb 100644
--- a/africanus/model/wsclean/dask.py
+++ b/africanus/model/wsclean/dask.py
@@ -5,6 +5,8 @@ from africanus.model.wsclean.spec_model import (spectra as np_spectra,
                                                 SPECTRA_DOCS)
 from africanus.util.requirements import requires_optional
 
+import numpy as np
+
 try:
     import dask.array as da
 except ImportError as e:
@@ -14,7 +16,7 @@ else:
 
 
 def _wrapper(stokes, spi, log_si, ref_freq, frequency):
-    return np_spectra(stokes, spi[0], log_si, ref_freq, frequency)
+    return np_spectra(stokes, spi, log_si, ref_freq, frequency)
 
 
 @requires_optional('dask.array', opt_import_error)
@@ -28,7 +30,10 @@ def spectra(stokes, spi, log_si, ref_freq, frequency):
                         log_si, log_si_schema,
                         ref_freq, ("source",),
                         frequency, ("chan",),
-                        dtype=stokes.dtype)
+                        concatenate=True,
+                        dtype=np.result_type(stokes.dtype, spi.dtype,
+                                             ref_freq.dtype,
+                                             frequency.dtype))
 
 
 try:
diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index f8f5f30..f1c2a2f 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -457,7 +457,7 @@ def predict_vis(time_index, antenna1, antenna2,
 
 
 def wsclean_spectrum_wrapper(flux, coeffs, log_poly, ref_freq, frequency):
-    return wsclean_spectra(flux, coeffs[0], log_poly, ref_freq, frequency)
+    return wsclean_spectra(flux, coeffs, log_poly, ref_freq, frequency)
 
 
 def wsclean_body_wrapper(uvw, lm, source_type, gauss_shape,
@@ -480,6 +480,7 @@ def wsclean_predict(uvw, lm, source_type, flux, coeffs,
                             log_poly, ("source",),
                             ref_freq, ("source",),
                             frequency, ("chan",),
+                            concatenate=True,
                             dtype=spectrum_dtype)
 
     out_dtype = np.result_type(uvw.dtype, lm.dtype, frequency.dtype,
-- 
2.43.0


From af6f8f10a8af0021d978f56ac909dadc6609e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:07 +0000
Subject: [PATCH 20/55] fix: dask spectral_model applied the first base to
 every polarisation chunk and declared the wrong dtype

---
 africanus/model/spectral/dask.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/africanus/model/spectral/dask.py b/africanus/model/spectral/dask.py
index 080f36a..caa0719 100644
--- a/africanus/model/spectral/dask.py
+++ b/africanus/model/spectral/dask.py
@@ -6,6 +6,8 @@ from africanus.model.spectral.spec_model import (
                                         SPECTRAL_MODEL_DOC)
 from africanus.util.requirements import requires_optional
 
+import numpy as np
+
 try:
     import dask.array as da
 except ImportError as e:
@@ -25,13 +27,20 @@ def spectral_model(stokes, spi, ref_freq, frequencies, base=0):
 
     pol_dim = () if stokes.ndim == 1 else ("pol",)
 
+    # A base per polarisation requires all polarisations in one chunk
+    if pol_dim and isinstance(base, list):
+        stokes = stokes.rechunk({1: -1})
+        spi = spi.rechunk({2: -1})
+
     return da.blockwise(_wrapper, ("source", "chan",) + pol_dim,
                         stokes, ("source",) + pol_dim,
                         spi, ("source", "spi") + pol_dim,
                         ref_freq, ("source",),
                         frequencies, ("chan",),
                         base=base,
-                        dtype=stokes.dtype)
+                        dtype=np.result_type(stokes.dtype, spi.dtype,
+                                             ref_freq.dtype,
+                                             frequencies.dtype))
 
 
 try:
-- 
2.43.0


From 10a7d1f0b7020ae72bd075d06e39f122d241d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:36 +0000
Subject: [PATCH 21/55] fix: dask fit_spi_components ignored all but the first
 channel chunk

---
 africanus/model/spi/dask.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/africanus/model/spi/dask.py b/africanus/model/spi/dask.py
index 55bd194..bd213d4 100644
--- a/africanus/model/spi/dask.py
+++ b/africanus/model/spi/dask.py
@@ -17,13 +17,13 @@ else:
 
 def _fit_spi_components_wrapper(data, weights, freqs, freq0,
                                 alphai, I0i, beam, tol, maxiter):
-    return np_fit_spi_components(data[0],
-                                 weights[0],
-                                 freqs[0],
+    return np_fit_spi_components(data,
+                                 weights,
+                                 freqs,
                                  freq0,
                                  alphai,
                                  I0i,
-                                 beam[0] if beam is not None else beam,
+                                 beam,
                                  tol=tol,
                                  maxiter=maxiter)
 
@@ -44,6 +44,7 @@ def fit_spi_components(data, weights, freqs, freq0,
                      tol, None,
                      maxiter, None,
                      new_axes={"vars": 4},
+                     concatenate=True,
                      dtype=data.dtype)
 
 
-- 
2.43.0


From 0516b7856da1a9f753da306c751af0325173b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:07 +0000
Subject: [PATCH 22/55] fix: wsclean component file errors named the line
 before the offending one

---
 africanus/model/wsclean/file_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/model/wsclean/file_model.py b/africanus/model/wsclean/file_model.py
index 74a70c7..d4b6c94 100644
--- a/africanus/model/wsclean/file_model.py
+++ b/africanus/model/wsclean/file_model.py
@@ -205,7 +205,7 @@ def load(filename):
         except KeyError as e:
             raise ValueError("No converter registered for column %s" % str(e))
 
-        return _parse_lines(fh, line_nr, column_names, defaults, converters)
+        return _parse_lines(fh, line_nr + 1, column_names, defaults, converters)
     finally:
         if close_filename:
             fh.close()
-- 
2.43.0


From fe4d028b2eec2c7f863f67dfd88b3b32113c94b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:41 +0000
Subject: [PATCH 23/55] fix: lmn_to_radec and lm_to_radec were off by pi for
 sources across the pole

---
 africanus/coordinates/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/coordinates/coordinates.py b/africanus/coordinates/coordinates.py
index c2b1273..accd9a4 100644
--- a/africanus/coordinates/coordinates.py
+++ b/africanus/coordinates/coordinates.py
@@ -124,7 +124,7 @@ def lmn_to_radec(lmn, phase_centre=None):
             l, m, n = lmn[s]
 
             radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
-            radec[s, 0] = pc_ra + np.arctan(l / (n*cos_pc_dec - m*sin_pc_dec))
+            radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
 
@@ -155,7 +155,7 @@ def lm_to_radec(lm, phase_centre=None):
             n = np.sqrt(1.0 - l**2 - m**2)
 
             radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
-            radec[s, 0] = pc_ra + np.arctan(l / (n*cos_pc_dec - m*sin_pc_dec))
+            radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
 
-- 
2.43.0


From a7f6eaf5d2cfa805cef3ee42b8f138f9475f66bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:12 +0000
Subject: [PATCH 24/55] fix: perleypolyhedron uvw_rotate read past the end of
 uvw and used rotated components

---
 .../policies/baseline_transform_policies.py              | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
index e09b9cc..83b56db 100644
--- a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
+++ b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
@@ -44,9 +44,12 @@ def uvw_rotate(uvw, ra0, dec0, ra, dec, policy_type):
     mat_31 = c_new_dec * s_d_ra
     mat_32 = -c_new_dec * s_old_dec * c_d_ra + s_new_dec * c_old_dec
     mat_33 = c_new_dec * c_old_dec * c_d_ra + s_new_dec * s_old_dec
-    uvw[0] = mat_11 * uvw[0] + mat_12 * uvw[1] + mat_13 * uvw[3]
-    uvw[1] = mat_21 * uvw[0] + mat_22 * uvw[1] + mat_23 * uvw[3]
-    uvw[2] = mat_31 * uvw[0] + mat_32 * uvw[1] + mat_33 * uvw[3]
+    u = uvw[0]
+    v = uvw[1]
+    w = uvw[2]
+    uvw[0] = mat_11 * u + mat_12 * v + mat_13 * w
+    uvw[1] = mat_21 * u + mat_22 * v + mat_23 * w
+    uvw[2] = mat_31 * u + mat_32 * v + mat_33 * w
 
 
 @jit(nopython=True, nogil=True, fastmath=True, parallel=False)
-- 
2.43.0


From 0add48394eded40a98996a59f665bf53d9024633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:12 +0000
Subject: [PATCH 25/55] fix: perleypolyhedron gridder rotated the caller's uvw
 and vis in place

---
 .../gridding/perleypolyhedron/gridder.py      | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/gridder.py b/africanus/gridding/perleypolyhedron/gridder.py
index 0acbeef..580cf9d 100644
--- a/africanus/gridding/perleypolyhedron/gridder.py
+++ b/africanus/gridding/perleypolyhedron/gridder.py
@@ -80,8 +80,11 @@ def gridder(uvw,
     for r in range(nrow):
         ra0, dec0 = phase_centre
         ra, dec = image_centre
-        ptp.policy(vis[r, :, :],
-                   uvw[r, :],
+        # the policies work in place, leave the caller's arrays alone
+        row_uvw = uvw[r, :].astype(np.float64)
+        row_vis = vis[r:r + 1, :, :].copy()
+        ptp.policy(row_vis[0, :, :],
+                   row_uvw,
                    wavelengths,
                    ra0,
                    dec0,
@@ -89,12 +92,12 @@ def gridder(uvw,
                    dec,
                    policy_type=literally(phase_transform_policy),
                    phasesign=1.0)
-        btp.policy(uvw[r, :], ra0, dec0, ra, dec,
+        btp.policy(row_uvw, ra0, dec0, ra, dec,
                    literally(baseline_transform_policy))
         for c in range(nvischan):
-            scaled_u = uvw[r, 0] * scale_factor / wavelengths[c]
-            scaled_v = uvw[r, 1] * scale_factor / wavelengths[c]
-            scaled_w = uvw[r, 2] * scale_factor / wavelengths[c]
+            scaled_u = row_uvw[0] * scale_factor / wavelengths[c]
+            scaled_v = row_uvw[1] * scale_factor / wavelengths[c]
+            scaled_w = row_uvw[2] * scale_factor / wavelengths[c]
             grid = gridstack[chanmap[c], :, :]
             wt_ch[chanmap[c]] += cp.policy(
                 scaled_u,
@@ -102,8 +105,8 @@ def gridder(uvw,
                 scaled_w,
                 npix,
                 grid,
-                vis,
-                r,
+                row_vis,
+                0,
                 c,
                 convolution_kernel,
                 convolution_kernel_width,
-- 
2.43.0


From 2935a67cb819523c7681eceed6390ddf1ed074b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:12 +0000
Subject: [PATCH 26/55] fix: perleypolyhedron degridder transformed uvw away
 from the facet, in place

---
 africanus/gridding/perleypolyhedron/degridder.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/degridder.py b/africanus/gridding/perleypolyhedron/degridder.py
index d8d35cb..279dfa7 100644
--- a/africanus/gridding/perleypolyhedron/degridder.py
+++ b/africanus/gridding/perleypolyhedron/degridder.py
@@ -38,12 +38,15 @@ def degridder_row_kernel(uvw,
                          r=0):
     ra0, dec0 = phase_centre
     ra, dec = image_centre
-    btp.policy(uvw[r, :], ra, dec, ra0, dec0,
+    # transform to the facet as the gridder does, in a copy: the caller's
+    # coordinates are needed for the phase below
+    row_uvw = uvw[r, :].astype(np.float64)
+    btp.policy(row_uvw, ra0, dec0, ra, dec,
                baseline_transform_policy)
     for c in range(nvischan):
-        scaled_u = uvw[r, 0] * scale_factor / wavelengths[c]
-        scaled_v = uvw[r, 1] * scale_factor / wavelengths[c]
-        scaled_w = uvw[r, 2] * scale_factor / wavelengths[c]
+        scaled_u = row_uvw[0] * scale_factor / wavelengths[c]
+        scaled_v = row_uvw[1] * scale_factor / wavelengths[c]
+        scaled_w = row_uvw[2] * scale_factor / wavelengths[c]
         grid = gridstack[chanmap[c], :, :]
         cp.policy(scaled_u,
                   scaled_v,
-- 
2.43.0


From 20fa25fec3d0e5018deac10501a80e94ea5fb664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:12 +0000
Subject: [PATCH 27/55] fix: perleypolyhedron nearest neighbour gridding wrote
 outside the grid

---
 .../perleypolyhedron/policies/convolution_policies.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/policies/convolution_policies.py b/africanus/gridding/perleypolyhedron/policies/convolution_policies.py
index b0308a9..0f6f050 100644
--- a/africanus/gridding/perleypolyhedron/policies/convolution_policies.py
+++ b/africanus/gridding/perleypolyhedron/policies/convolution_policies.py
@@ -139,9 +139,10 @@ def convolve_nn_scatter(scaled_u, scaled_v, scaled_w, npix, grid, vis, r, c,
     disc_u = int(np.round(offset_u))
     disc_v = int(np.round(offset_v))
     cw = 1.0
-    grid[disc_v, disc_u] += \
-        scp.corr2stokes(vis[r, c, :],
-                        stokes_conversion_policy)
+    if disc_v >= 0 and disc_v < npix and disc_u >= 0 and disc_u < npix:
+        grid[disc_v, disc_u] += \
+            scp.corr2stokes(vis[r, c, :],
+                            stokes_conversion_policy)
     return cw
 
 
-- 
2.43.0


From 842b25871f041943f3e76d7ee137a45ee39e921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:04 +0000
Subject: [PATCH 28/55] fix: dask perleypolyhedron wrappers ignored all but the
 first chunk and degridded every facet at the wrong centre

---
 africanus/gridding/perleypolyhedron/dask.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index 52a3116..1877c8a 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -34,7 +34,6 @@ def __degrid(uvw,
              convolution_policy=None,
              vis_dtype=np.complex128,
              rowparallel=False):
-    image_centres = image_centres[0][0]
     if image_centres.ndim != 2:
         raise ValueError(
             "Image centres for DASK wrapper expects list of image centres, "
@@ -42,14 +41,10 @@ def __degrid(uvw,
         )
     if image_centres.shape[1] != 2:
         raise ValueError("Image centre must be a list of tuples")
-    uvw = uvw[0]
     if uvw.ndim != 2 or uvw.shape[1] != 3:
         raise ValueError("UVW array must be nrow x 3")
-    gridstack = gridstack[0][0][0][0]
     if gridstack.ndim != 4:
         raise ValueError("Gridstack must be nfacet x nband x ny x nx")
-    lambdas = lambdas
-    chanmap = chanmap
     if chanmap.size != lambdas.size:
         raise ValueError(
             "Chanmap and corresponding lambdas must match in shape")
@@ -67,7 +62,7 @@ def __degrid(uvw,
                        lambdas,
                        chanmap,
                        cell,
-                       image_centres,
+                       f,
                        phase_centre,
                        convolution_kernel,
                        convolution_kernel_width,
@@ -163,6 +158,8 @@ def degridder(uvw,
         cell=cell,
         phase_centre=phase_centre,
         vis_dtype=vis_dtype,
+        rowparallel=rowparallel,
+        concatenate=True,
         new_axes={
             "corr":
             stokes_conversion_policies.ncorr_outpy(
@@ -193,7 +190,6 @@ def __grid(uvw,
            phase_centre=None,
            grid_dtype=np.complex128,
            do_normalize=False):
-    image_centres = image_centres[0]
     if image_centres.ndim != 2:
         raise ValueError(
             "Image centres for DASK wrapper expects list of image "
@@ -202,10 +198,6 @@ def __grid(uvw,
     if image_centres.shape[1] != 2:
         raise ValueError("Image centre must be a list of tuples")
 
-    uvw = uvw[0]
-    vis = vis[0][0]
-    lambdas = lambdas[0]
-    chanmap = chanmap[0]
     grid_stack = np.zeros(
         (1, image_centres.shape[0], 1, np.max(chanmap) + 1, npix, npix),
         dtype=grid_dtype)
@@ -300,6 +292,7 @@ def gridder(uvw,
         phase_centre=phase_centre,
         grid_dtype=grid_dtype,
         do_normalize=do_normalize,
+        concatenate=True,
         # goes to one set of grids per row chunk
         adjust_chunks={"row": 1},
         new_axes={
-- 
2.43.0


From 4afa6fc7e8ada87a963b42b98007c2a495c1d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:34 +0000
Subject: [PATCH 29/55] fix: perleypolyhedron wlinapprox baseline policy could
 not be compiled

---
 .../perleypolyhedron/policies/baseline_transform_policies.py   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
index 83b56db..ada10f4 100644
--- a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
+++ b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
@@ -1,4 +1,4 @@
-from africanus.util.numba import jit, overload
+from africanus.util.numba import overload
 from numpy import cos, sin
 
 
@@ -52,7 +52,6 @@ def uvw_rotate(uvw, ra0, dec0, ra, dec, policy_type):
     uvw[2] = mat_31 * u + mat_32 * v + mat_33 * w
 
 
-@jit(nopython=True, nogil=True, fastmath=True, parallel=False)
 def uvw_planarwapprox(uvw, ra0, dec0, ra, dec, policy_type):
     '''
         Implements the coordinate uv transform associated with taking a planar
-- 
2.43.0


From 953ed0e6472648f6ceed2bef44971c45c73f4679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:59 +0000
Subject: [PATCH 30/55] fix: hull overlap test scaled every separating axis by
 the same norm

---
 africanus/linalg/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 395bb17..5e8bf9a 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -420,7 +420,7 @@ class BoundingConvexHull(object):
         # get the projection axes
         normals = np.vstack([self.lnormals, other.lnormals])
         norms = np.linalg.norm(normals, axis=1)
-        normals = normals / norms[None, 2]
+        normals = normals / norms[:, None]
 
         # compute vectors to corners from origin
         vecs_reg1 = self.corners
-- 
2.43.0


From 0e3219a6321b5877265a57f3e15c7244696bec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:59 +0000
Subject: [PATCH 31/55] fix: regional_data mixed up image axes and zeroed out
 of bounds pixels instead of using oob_value

---
 africanus/linalg/geometry.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 5e8bf9a..f7406a7 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -198,8 +198,8 @@ class BoundingConvexHull(object):
         pad_top = max(0, maxy - data_cube.shape[axes[0]] + 1)
 
         if (
-            minx > data_cube.shape[axes[0]]
-            or miny > data_cube.shape[axes[1]]
+            minx >= data_cube.shape[axes[1]]
+            or miny >= data_cube.shape[axes[0]]
             or maxy < 0
             or maxx < 0
         ):
@@ -232,9 +232,8 @@ class BoundingConvexHull(object):
         new_shape[axes[1]] = maxx - minx + 1
 
         if any(np.array([pad_left, pad_bottom, pad_right, pad_top]) > 0):
-            padded_data = (
-                np.zeros(tuple(new_shape), dtype=selected_data.dtype)
-                * oob_value
+            padded_data = np.full(
+                tuple(new_shape), oob_value, dtype=selected_data.dtype
             )
             padded_data[tuple(slc_padded)] = selected_data.copy()
         else:
-- 
2.43.0


From 652f404a5f79d721bfde7aac3ae9f08f004f7a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:59 +0000
Subject: [PATCH 32/55] fix: normalize_masks confused pixels of regions with
 negative x coordinates

---
 africanus/linalg/geometry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index f7406a7..0c8f383 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -294,10 +294,12 @@ class BoundingConvexHull(object):
             )
 
         # flatten for faster comparisons
+        if len(allmasks) == 0:
+            return
         allmasks = np.array(allmasks)
-        maxx = np.max(allmasks[:, 1])
-        nx = maxx + 1
-        allmasks_flatten = allmasks[:, 0] * nx + allmasks[:, 1]
+        minx = np.min(allmasks[:, 1])
+        nx = np.max(allmasks[:, 1]) - minx + 1
+        allmasks_flatten = allmasks[:, 0] * nx + allmasks[:, 1] - minx
 
         # now count the number of times a pixel is painted onto
         unique_pxls_flatten, paint_count = np.unique(
@@ -312,7 +314,7 @@ class BoundingConvexHull(object):
 
         # with the reduced number of overlap pixels unflatten
         unique_pxls = np.vstack(
-            [unique_pxls_flatten // nx, unique_pxls_flatten % nx]
+            [unique_pxls_flatten // nx, unique_pxls_flatten % nx + minx]
         ).T
         unique_pxls = list(map(tuple, unique_pxls))
         paint_count[...] = 1.0 / paint_count
-- 
2.43.0


From c8b7d8914611b096805bd01206a9fa3370f9d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:59 +0000
Subject: [PATCH 33/55] fix: SplitBox produced boxes overlapping each other and
 reaching outside the box

---
 africanus/linalg/geometry.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 0c8f383..ba28e3f 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -730,16 +730,18 @@ class BoundingBoxFactory(object):
         xus = xus - 1
         yus = yus - 1
 
-        # clamp the final coordinate to the upper end
+        # clamp the coordinates to the upper end
         # (may result in rectanglular box at the end)
-        xus[:, -1] = max(xu, min(xus[0, -1], xu))
-        yus[-1, :] = max(yu, min(yus[-1, 0], yu))
+        xus = np.minimum(xus, xu)
+        yus = np.minimum(yus, yu)
 
         # coordinates for all the contained boxes, anti-clockwise wound
-        xls = xls.ravel()
-        yls = yls.ravel()
-        xus = xus.ravel()
-        yus = yus.ravel()
+        # (there may be fewer if the box is too small)
+        sel = np.logical_and(xls <= xus, yls <= yus)
+        xls = xls[sel]
+        yls = yls[sel]
+        xus = xus[sel]
+        yus = yus[sel]
         bl = list(zip(xls, yls))
         br = list(zip(xus, yls))
         ur = list(zip(xus, yus))
-- 
2.43.0


From 53af4ef95f8e0711d1fa72848b14ef1f3e12db83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:59 +0000
Subject: [PATCH 34/55] fix: padded and square bounding boxes did not always
 contain the original region

---
 africanus/linalg/geometry.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index ba28e3f..031cd10 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -674,7 +674,11 @@ class BoundingBoxFactory(object):
             )  # inclusive
             boxdiam = max(nx, ny)
             boxrad = boxdiam // 2
-            cx, cy = convex_hull_object.centre
+            # centre of the extent: the barycentre may be off to one side
+            cx, cy = (
+                (np.min(convex_hull_object.corners, axis=0)
+                 + np.max(convex_hull_object.corners, axis=0) + 1) // 2
+            )
             xl = cx - boxrad
             xu = cx + boxdiam - boxrad - 1
             yl = cy - boxrad
@@ -781,6 +785,9 @@ class BoundingBoxFactory(object):
         pad_bottom = desired_ny // 2
         pad_top = desired_ny - pad_bottom - 1
         cx, cy = bounding_box_object.centre
+        # the centre of an even sized box is rounded, stay around the box
+        cx = max(cx, np.max(bounding_box_object.corners[:, 0]) - pad_right)
+        cy = max(cy, np.max(bounding_box_object.corners[:, 1]) - pad_top)
         xl = cx - pad_left
         xu = cx + pad_right
         yl = cy - pad_bottom
-- 
2.43.0


From 9d5dded30ae4379260dff98817e6100c86c2052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:59 +0000
Subject: [PATCH 35/55] fix: assigning a sparse mask left the filled mask stale
 and an empty one without weights

---
 africanus/linalg/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 031cd10..b3c3fa1 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -124,6 +124,7 @@ class BoundingConvexHull(object):
             )
         ):
             raise TypeError("Mask must be a sparse mask of 2 element values")
+        self._cached_filled_mask = None
         if self._check_mask_outofbounds:
             self._mask = copy.deepcopy(
                 [c for c in mask if (c[1], c[0]) in self]
@@ -552,8 +553,10 @@ class BoundingBox(BoundingConvexHull):
             )
         ):
             raise TypeError("Mask must be a sparse mask of 2 element values")
+        self._cached_filled_mask = None
         if len(mask) == 0:
             self._mask = []
+            self._mask_weights = np.ones(0)
         else:
             lines = np.hstack(
                 [self.corners, np.roll(self.corners, -1, axis=0)])
-- 
2.43.0


From 17eedcbc9b50be870f470272c52429452dc936e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:59 +0000
Subject: [PATCH 36/55] fix: project_regions replaced NaNs in the caller's data

---
 africanus/linalg/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index b3c3fa1..9076d0b 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -626,7 +626,7 @@ class BoundingBox(BoundingConvexHull):
 
         combined_mask = []
         for f, freg in zip(regional_data_list, regions_list):
-            f[np.isnan(f)] = 0
+            f = np.where(np.isnan(f), 0, f)
             xl = max(0, global_offsetx + np.min(freg.corners[:, 0]))
             xu = min(global_offsetx + np.max(freg.corners[:, 0]) + 1, npxx)
             yl = max(0, global_offsety + np.min(freg.corners[:, 1]))
-- 
2.43.0


From a546cc128b250f1699f8879d8cd781a42000d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:05 +0000
Subject: [PATCH 37/55] fix: kron_tensorvec overflowed on matrices with more
 than 127 rows or columns

---
 africanus/linalg/kronecker_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/linalg/kronecker_tools.py b/africanus/linalg/kronecker_tools.py
index 811d75a..235ab38 100644
--- a/africanus/linalg/kronecker_tools.py
+++ b/africanus/linalg/kronecker_tools.py
@@ -81,8 +81,8 @@ def kron_tensorvec(A, b):
     """
     D = A.shape[0]
     # get shape of sub-matrices
-    G = np.zeros(D, dtype=np.int8)
-    M = np.zeros(D, dtype=np.int8)
+    G = np.zeros(D, dtype=np.int64)
+    M = np.zeros(D, dtype=np.int64)
     for d in range(D):
         M[d], G[d] = A[d].shape
     x = b
-- 
2.43.0


From 8659e5205f4bd05ecdb3a2a70bf64bf953a4e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:05 +0000
Subject: [PATCH 38/55] fix: kronecker matrix products dropped the imaginary
 part

---
 africanus/linalg/kronecker_tools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/africanus/linalg/kronecker_tools.py b/africanus/linalg/kronecker_tools.py
index 235ab38..8e80886 100644
--- a/africanus/linalg/kronecker_tools.py
+++ b/africanus/linalg/kronecker_tools.py
@@ -119,7 +119,8 @@ def kron_matmat(A, B):
     M = B.shape[1]  # the product of Np_1 x Np_2 x ... x Np_3
 
     N = kron_N(A)
-    C = np.zeros([N, M])
+    C = np.zeros([N, M], dtype=np.result_type(B, np.float64,
+                                              *[K.dtype for K in A]))
     for i in range(M):
         C[:, i] = kron_matvec(A, B[:, i])
     return C
@@ -148,7 +149,8 @@ def kron_tensormat(A, B):
     M = B.shape[1]  # the product of Np_1 x Np_2 x ... x Np_3
 
     N = kron_N(A)
-    C = np.zeros([N, M])
+    C = np.zeros([N, M], dtype=np.result_type(B, np.float64,
+                                              *[K.dtype for K in A]))
     for i in range(M):
         C[:, i] = kron_tensorvec(A, B[:, i])
     return C
-- 
2.43.0


From 8f6c12057db0ebb5f57eb60ea40e71b871283a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:05 +0000
Subject: [PATCH 39/55] fix: kron_cholesky truncated the factors of integer
 matrices

---
 africanus/linalg/kronecker_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/linalg/kronecker_tools.py b/africanus/linalg/kronecker_tools.py
index 8e80886..38f6f52 100644
--- a/africanus/linalg/kronecker_tools.py
+++ b/africanus/linalg/kronecker_tools.py
@@ -178,7 +178,7 @@ def kron_cholesky(A):
         and each :code:`Li = cholesky(Ki)`
     """
     D = A.shape[0]
-    L = np.zeros_like(A)
+    L = np.zeros_like(A, dtype=np.result_type(A, np.float64))
     for i in range(D):
         try:
             L[i] = np.linalg.cholesky(A[i])
-- 
2.43.0


From b25e37a411a17816160309655d864ea2750a1111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:05 +0000
Subject: [PATCH 40/55] fix: invalid pspec requests raised TypeError instead of
 the intended error

---
 africanus/gps/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/gps/kernels.py b/africanus/gps/kernels.py
index 1125048..11191b8 100644
--- a/africanus/gps/kernels.py
+++ b/africanus/gps/kernels.py
@@ -33,13 +33,13 @@ def exponential_squared(x, xp, sigmaf, l, pspec=False):  # noqa: E741
     if pspec:
         N, D = x.shape
         if D != 1:
-            raise(NotImplementedError, "Only 1D pspecs supported")
+            raise NotImplementedError("Only 1D pspecs supported")
         if (x != xp).any():
-            raise(ValueError, "pspec only defined if x = xp")
+            raise ValueError("pspec only defined if x = xp")
         x = x.squeeze()
         delx = x[1] - x[0]
         if (x[1::] - x[0:-1] != delx).any():
-            raise(ValueError, "pspec only defined on regular grid")
+            raise ValueError("pspec only defined on regular grid")
         s = np.fft.fftshift(np.fft.fftfreq(N, d=delx))
         return np.sqrt(2*np.pi*l)*sigmaf**2.0*np.exp(-l**2*s**2/2.0)
     else:
-- 
2.43.0


From eb1e6e8d003209474d98484d3082ad9fe3da6beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:22 +0000
Subject: [PATCH 41/55] fix: aggregate_chunks produced a leading empty chunk
 when the first chunk exceeds the maximum

---
 africanus/util/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/util/shapes.py b/africanus/util/shapes.py
index 4566d90..fdd6009 100644
--- a/africanus/util/shapes.py
+++ b/africanus/util/shapes.py
@@ -51,7 +51,7 @@ def aggregate_chunks(chunks, max_chunks):
             if chunk_scratch[ci] > max_chunks[ci]:
                 aggregate = True
 
-        if aggregate:
+        if aggregate and di > 0:
             for ci, chunk in enumerate(chunks):
                 agg_chunks[ci].append(agg_chunk_counts[ci])
                 agg_chunk_counts[ci] = chunk[di]
-- 
2.43.0


From b79837aa626199150ff8c93afb36fdcc46d5b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:57 +0000
Subject: [PATCH 42/55] fix: format_time rounded seconds up to 60

---
 africanus/util/dask_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/util/dask_util.py b/africanus/util/dask_util.py
index 8906cff..5f73270 100644
--- a/africanus/util/dask_util.py
+++ b/africanus/util/dask_util.py
@@ -21,7 +21,7 @@ from africanus.util.requirements import requires_optional
 
 def format_time(t):
     """Format seconds into a human readable form."""
-    m, s = divmod(t, 60)
+    m, s = divmod(int(t), 60)
     h, m = divmod(m, 60)
     d, h = divmod(h, 24)
     w, d = divmod(d, 7)
-- 
2.43.0


From 82159f376c5db199ea2be4a400fbac3639244baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:36 +0000
Subject: [PATCH 43/55] fix: the timer of a finished computation kept running
 when another one started

---
 africanus/util/dask_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/util/dask_util.py b/africanus/util/dask_util.py
index 5f73270..74a9c58 100644
--- a/africanus/util/dask_util.py
+++ b/africanus/util/dask_util.py
@@ -126,10 +126,10 @@ def update_bar(elapsed, prev_completed, prev_estimated, pb):
     return completed, estimated
 
 
-def timer_func(pb):
+def timer_func(pb, running):
     start = default_timer()
 
-    while pb.running.is_set():
+    while running.is_set():
         elapsed = default_timer() - start
         prev_completed = 0
         prev_estimated = 0.0
@@ -201,7 +201,7 @@ class EstimatingProgressBar(Callback):
 
         self.running = Event()
         self.running.set()
-        self.thread = Thread(target=timer_func, args=(self,))
+        self.thread = Thread(target=timer_func, args=(self, self.running))
         self.daemon = True
         self.thread.start()
 
-- 
2.43.0


From 5dbe019f9a138fa9994a8bb8ad4a43471ab8e68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:36 +0000
Subject: [PATCH 44/55] fix: starting or finishing a computation changed the
 task table while the progress bar was reading it

---
 africanus/util/dask_util.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/africanus/util/dask_util.py b/africanus/util/dask_util.py
index 74a9c58..d64aae5 100644
--- a/africanus/util/dask_util.py
+++ b/africanus/util/dask_util.py
@@ -193,11 +193,12 @@ class EstimatingProgressBar(Callback):
         self._lock = Lock()
 
     def _start(self, dsk):
-        self.task_start = {}
-        self.task_data = defaultdict(TaskData)
+        with self._lock:
+            self.task_start = {}
+            self.task_data = defaultdict(TaskData)
 
-        for k, v in dsk.items():
-            self.task_data[key_bin(k)].total += 1
+            for k, v in dsk.items():
+                self.task_data[key_bin(k)].total += 1
 
         self.running = Event()
         self.running.set()
@@ -207,8 +208,10 @@ class EstimatingProgressBar(Callback):
 
     def _finish(self, dsk, state, errored):
         self.running.clear()
-        self.task_data.clear()
-        self.task_start.clear()
+
+        with self._lock:
+            self.task_data.clear()
+            self.task_start.clear()
 
     def _pretask(self, key, dsk, state):
         with self._lock:
-- 
2.43.0


From d08afc94e340fb433ee23377f50f1441b244ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:09 +0000
Subject: [PATCH 45/55] fix: cub and trove could be left half installed when
 moving them across filesystems was interrupted

---
 africanus/util/cub.py   | 9 +++++++--
 africanus/util/trove.py | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/africanus/util/cub.py b/africanus/util/cub.py
index 14268f1..2dd7454 100644
--- a/africanus/util/cub.py
+++ b/africanus/util/cub.py
@@ -108,9 +108,14 @@ def _install_cub():
             raise InstallCubException("Removing %s failed\n%s" % (
                                       _cub_dir, str(e)))
 
+        # Unzip into a temporary directory next to the install directory
+        # so that moving it into place is atomic
+        if not os.path.exists(include_dir):
+            os.makedirs(include_dir)
+
+        tmpdir = tempfile.mkdtemp(dir=include_dir)
+
         try:
-            # Unzip into temporary directory
-            tmpdir = tempfile.mkdtemp()
             zip_file.extractall(tmpdir)
 
             unzip_path = pjoin(tmpdir, _cub_zip_dir)
diff --git a/africanus/util/trove.py b/africanus/util/trove.py
index b88b62e..1d0aab1 100644
--- a/africanus/util/trove.py
+++ b/africanus/util/trove.py
@@ -91,9 +91,14 @@ def _install_trove():
             raise InstallTroveException("Removing %s failed\n%s" % (
                                       _trove_dir, str(e)))
 
+        # Unzip into a temporary directory next to the install directory
+        # so that moving it into place is atomic
+        if not os.path.exists(include_dir):
+            os.makedirs(include_dir)
+
+        tmpdir = tempfile.mkdtemp(dir=include_dir)
+
         try:
-            # Unzip into temporary directory
-            tmpdir = tempfile.mkdtemp()
             zip_file.extractall(tmpdir)
 
             unzip_path = pjoin(tmpdir, _trove_zip_dir)
-- 
2.43.0


From 0fec033fd15b16d62d0c836d6eb5c1a241199642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:09 +0000
Subject: [PATCH 46/55] fix: wgridder model, residual and hessian transformed
 pixel chunks of the image separately

---
 africanus/gridding/wgridder/dask.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/africanus/gridding/wgridder/dask.py b/africanus/gridding/wgridder/dask.py
index c10ffa8..29caa82 100644
--- a/africanus/gridding/wgridder/dask.py
+++ b/africanus/gridding/wgridder/dask.py
@@ -33,6 +33,9 @@ def _model_wrapper(uvw, freq, model, freq_bin_idx, freq_bin_counts, cell,
 def model(uvw, freq, image, freq_bin_idx, freq_bin_counts, cell,
           weights=None, flag=None, celly=None, epsilon=1e-5, nthreads=1,
           do_wstacking=True):
+    # each band is transformed whole
+    image = image.rechunk({1: -1, 2: -1})
+
     # determine output type
     complex_type = da.result_type(image, np.complex64)
 
@@ -148,6 +151,9 @@ def residual(uvw, freq, image, vis, freq_bin_idx, freq_bin_counts, cell,
              weights=None, flag=None, celly=None, epsilon=1e-5,
              nthreads=1, do_wstacking=True, double_accum=False):
 
+    # each band is transformed whole
+    image = image.rechunk({1: -1, 2: -1})
+
     if celly is None:
         celly = cell
 
@@ -201,6 +207,9 @@ def hessian(uvw, freq, image, freq_bin_idx, freq_bin_counts, cell,
             weights=None, flag=None, celly=None, epsilon=1e-5,
             nthreads=1, do_wstacking=True, double_accum=False):
 
+    # each band is transformed whole
+    image = image.rechunk({1: -1, 2: -1})
+
     if celly is None:
         celly = cell
 
-- 
2.43.0


From e73856e266e1f4ea9ebd14dda4eef41e2b7a62a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:37 +0000
Subject: [PATCH 47/55] fix: parse_python_assigns raised AttributeError on
 calls of attributes

---
 africanus/util/cmdline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/util/cmdline.py b/africanus/util/cmdline.py
index c8e719c..cc9482e 100644
--- a/africanus/util/cmdline.py
+++ b/africanus/util/cmdline.py
@@ -47,7 +47,8 @@ def parse_python_assigns(assign_str):
     def _eval_value(stmt_value):
         # If the statement value is a call to a builtin, try evaluate it
         if isinstance(stmt_value, ast.Call):
-            func_name = stmt_value.func.id
+            # Attributes and other expressions have no name
+            func_name = getattr(stmt_value.func, "id", None)
 
             if func_name not in _BUILTIN_WHITELIST:
                 raise ValueError("Function '%s' in '%s' is not builtin. "
-- 
2.43.0


From d0f1583ee4e9e7432ce4c9fbf1d8b36ce79379ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:37 +0000
Subject: [PATCH 48/55] fix: cubic splines were not solved, bounded and
 extrapolated correctly

---
 africanus/averaging/splines.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/africanus/averaging/splines.py b/africanus/averaging/splines.py
index 983c0cf..99cd333 100644
--- a/africanus/averaging/splines.py
+++ b/africanus/averaging/splines.py
@@ -34,29 +34,30 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
     if left_type == 2:
         diag[0, A] = 0.0
         diag[0, B] = 2.0
-        diag[0, C] = left_value
+        diag[0, C] = 0.0
+        v[0] = left_value
     elif left_type == 1:
-        diag[0, A] = 1.0 * (x[1] - x[0])
         diag[0, B] = 2.0 * (x[1] - x[0])
+        diag[0, C] = 1.0 * (x[1] - x[0])
         v[0] = 3.0 * (-left_value + (y[1] - y[0]) / (x[1] - x[0]))
     else:
         raise ValueError("left_type not in (1, 2)")
 
     # Configure right endpoint
     if right_type == 2:
+        diag[n-1, A] = 0.0
         diag[n-1, B] = 2.0
-        diag[n-1, C] = 0.0
         v[n-1] = right_value
-    elif left_type == 1:
+    elif right_type == 1:
+        diag[n-1, A] = 1.0 * (x[n-1] - x[n-2])
         diag[n-1, B] = 2.0 * (x[n-1] - x[n-2])
-        diag[n-1, C] = 1.0 * (x[n-1] - x[n-2])
         v[n-1] = 3.0 * (right_value - (y[n-1] - y[n-2]) / (x[n-1] - x[n-2]))
     else:
         raise ValueError("right_type not in (1, 2)")
 
     # Solve tridiagonal system in place
     for i in range(1, n):
-        w = diag[i, A] - diag[i-1, B]
+        w = diag[i, A] / diag[i-1, B]
         diag[i, B] -= w*diag[i-1, C]
         v[i] -= w*v[i-1]
 
@@ -64,7 +65,7 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
     z = np.zeros_like(v)
     z[n-1] = v[n-1] / diag[n-1, B]
 
-    for i in range(n - 1, -1, -1):
+    for i in range(n - 2, -1, -1):
         z[i] = (v[i] - diag[i, C]*z[i+1])/diag[i, B]
 
     return z
@@ -84,7 +85,7 @@ def fit_cubic_spline(x, y, left_type=2, right_type=2,
         c[i] = ((y[i+1] - y[i]) / (x[i+1] - x[i]) -
                 (2.0*b[i] + b[i+1]) * (x[i+1] - x[i]) / 3.0)
 
-    h = x[n-2] - x[n-1]
+    h = x[n-1] - x[n-2]
     a[n-1] = 0
     c[n-1] = 3.0*a[n-2]*h*h + 2.0*b[n-2]*h + c[n-2]
 
@@ -99,7 +100,7 @@ def evaluate_spline(spline, x, order=0):
     mb0 = mb[0] if not force_linear_extrapolation else 0.0
     mc0 = mc[0]
 
-    n = x.shape[0]
+    n = mx.shape[0]
     values = np.empty_like(x)
 
     if order == 0:
@@ -107,9 +108,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
+            if p < mx[0]:
                 values[i] = (mb0*h + mc0)*h + my[0]
-            elif p > x[n-1]:
+            elif p > mx[n-1]:
                 values[i] = (mb[n-1]*h + mc[n-1])*h + my[n-1]
             else:
                 values[i] = ((ma[j]*h + mb[j])*h + mc[j])*h + my[j]
@@ -119,9 +120,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
+            if p < mx[0]:
                 values[i] = 2.0*mb0*h + mc0
-            elif p > x[n-1]:
+            elif p > mx[n-1]:
                 values[i] = 2.0*mb[n-1]*h + mc[n-1]
             else:
                 values[i] = (3.0*ma[j]*h + 2.0*mb[j])*h + mc[j]
@@ -130,9 +131,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
-                values[i] = 2.0*mb0*h
-            elif p > x[n-1]:
+            if p < mx[0]:
+                values[i] = 2.0*mb0
+            elif p > mx[n-1]:
                 values[i] = 2.0*mb[n-1]
             else:
                 values[i] = 6.0*ma[j]*h + 2.0*mb[j]
-- 
2.43.0


From db467dd6fa472d7a8b2b867e1b0cfad45b6a3493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:21 +0000
Subject: [PATCH 49/55] fix: GPU beam extents were loaded by threads that may
 have left, and used without synchronisation

---
 africanus/rime/cuda/beam.cu.j2 | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/africanus/rime/cuda/beam.cu.j2 b/africanus/rime/cuda/beam.cu.j2
index 93fb1fc..0a55413 100644
--- a/africanus/rime/cuda/beam.cu.j2
+++ b/africanus/rime/cuda/beam.cu.j2
@@ -92,20 +92,19 @@ extern "C" __global__ void {{kernel_name}}(
 
     // Shared memory loads
 
-    // Use first four threads to load beam extents into shared memory
-    if(threadIdx.x < 4)
-        { shared.lm_ext[threadIdx.x] = beam_lm_ext[threadIdx.x]; }
-
     {{lm_ext_type}} & lower_l = shared.lm_ext[0];
     {{lm_ext_type}} & upper_l = shared.lm_ext[1];
     {{lm_ext_type}} & lower_m = shared.lm_ext[2];
     {{lm_ext_type}} & upper_m = shared.lm_ext[3];
 
-    // Use first thread to precompute l and m scaling factors in shared memory
-    // Because a warp is 32 threads, the lm_ext's
-    // should be loaded at this point
+    // Use first thread to load beam extents and precompute
+    // l and m scaling factors in shared memory
     if(threadIdx.z == 0 && threadIdx.y == 0 && threadIdx.x == 0)
     {
+        lower_l = beam_lm_ext[0];
+        upper_l = beam_lm_ext[1];
+        lower_m = beam_lm_ext[2];
+        upper_m = beam_lm_ext[3];
         shared.lscale = {{beam_freq_type}}(beam_lw - 1) / (upper_l - lower_l);
         shared.mscale = {{beam_freq_type}}(beam_mh - 1) / (upper_m - lower_m);
     }
-- 
2.43.0


From 0ab99c67cac30660b596dac67edc282536048120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:21 +0000
Subject: [PATCH 50/55] fix: GPU beam frequencies were loaded in the first
 block only, and past the end of the beam

---
 africanus/rime/cuda/beam_freq_interp.cu.j2 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/rime/cuda/beam_freq_interp.cu.j2 b/africanus/rime/cuda/beam_freq_interp.cu.j2
index 5c72bfb..65f2516 100644
--- a/africanus/rime/cuda/beam_freq_interp.cu.j2
+++ b/africanus/rime/cuda/beam_freq_interp.cu.j2
@@ -18,9 +18,9 @@ extern "C" __global__ void {{kernel_name}}(
         {{beam_freq_type}} beam_freqs[beam_nud_limit];
     } shared;
 
-    // Load in beam frequency map across
-    if(chan < beam_nud_limit)
-        { shared.beam_freqs[threadIdx.x] = beam_freq_map[chan]; }
+    // Load in beam frequency map, in each block
+    if(threadIdx.x < nud)
+        { shared.beam_freqs[threadIdx.x] = beam_freq_map[threadIdx.x]; }
 
     __syncthreads();
 
-- 
2.43.0


From 494ae56d76cdbe7c22dd12931e77284c4252dbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:54 +0000
Subject: [PATCH 51/55] fix: GPU predict shuffled values with a mask that left
 out most of the warp

---
 africanus/rime/cuda/predict.cu.j2 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/africanus/rime/cuda/predict.cu.j2 b/africanus/rime/cuda/predict.cu.j2
index b1f8c62..d3a198d 100644
--- a/africanus/rime/cuda/predict.cu.j2
+++ b/africanus/rime/cuda/predict.cu.j2
@@ -96,7 +96,8 @@ public:
         int base_vis_idx = CORRS*(lane_id/CORRS);
         int is_odd_corr = lane_id & 0x1;
         int shfl_idx = base_vis_idx + 1 + is_odd_corr;
-        int mask = __ballot_sync(WARP_SIZE - 1, 1);
+        // The lanes of this visibility
+        int mask = ((1 << CORRS) - 1) << base_vis_idx;
 
         T shfl_K;
         shfl_K.x = __shfl_sync(mask, K.x, shfl_idx, WARP_SIZE);
@@ -138,7 +139,8 @@ public:
         int base_vis_idx = CORRS*(lane_id/CORRS);
         int is_odd_corr = lane_id & 0x1;
         int shfl_idx = base_vis_idx + 1 + int(is_odd_corr == 0);
-        int mask = __ballot_sync(WARP_SIZE - 1, 1);
+        // The lanes of this visibility
+        int mask = ((1 << CORRS) - 1) << base_vis_idx;
 
         // Load in the correlation to multiply.
         T shfl_K;
-- 
2.43.0


From 3d5f54f4b7edf1e51aadfc83f65bfb1a93927ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:54 +0000
Subject: [PATCH 52/55] fix: GPU predict could not generate a kernel for base
 visibilities only

---
 africanus/rime/cuda/predict.cu.j2 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/africanus/rime/cuda/predict.cu.j2 b/africanus/rime/cuda/predict.cu.j2
index d3a198d..cb86a4a 100644
--- a/africanus/rime/cuda/predict.cu.j2
+++ b/africanus/rime/cuda/predict.cu.j2
@@ -47,6 +47,8 @@
 {%- set nchan = "die1.shape()[2]" %}
 {%- elif have_coh %}
 {%- set nchan = "source_coh.shape()[2]" %}
+{%- elif have_base_vis %}
+{%- set nchan = "base_vis.shape()[1]" %}
 {%- endif %}
 
 {%- set nrow = "time_index.shape()[0]" %}
-- 
2.43.0


From a0ccf026e8db94ed87b1cfd247ace37f9452a594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:21 +0000
Subject: [PATCH 53/55] fix: GPU predict promoted single precision to double
 when an argument was missing

---
 africanus/rime/cuda/predict.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/africanus/rime/cuda/predict.py b/africanus/rime/cuda/predict.py
index 38ff4d4..e3f12ee 100644
--- a/africanus/rime/cuda/predict.py
+++ b/africanus/rime/cuda/predict.py
@@ -63,8 +63,10 @@ def _generate_kernel(time_index, antenna1, antenna2,
     name = "predict_vis"
 
     # Complex output type
-    out_dtype = np.result_type(dde1_jones, source_coh, dde2_jones,
-                               die1_jones, base_vis, die2_jones)
+    out_dtype = np.result_type(*(a for a in (dde1_jones, source_coh,
+                                             dde2_jones, die1_jones,
+                                             base_vis, die2_jones)
+                                 if a is not None))
 
     ncorrs = reduce(mul, corrs, 1)
 
-- 
2.43.0


From 923939ada50f2e00ee57244893f23ace1b77635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:21 +0000
Subject: [PATCH 54/55] fix: GPU beam accepted too small a beam after a call
 with the same types

---
 africanus/rime/cuda/beam.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/africanus/rime/cuda/beam.py b/africanus/rime/cuda/beam.py
index 97d9222..d9b9b0e 100644
--- a/africanus/rime/cuda/beam.py
+++ b/africanus/rime/cuda/beam.py
@@ -74,13 +74,6 @@ def _generate_main_kernel(beam, beam_lm_ext, beam_freq_map,
                           lm, parangles, pointing_errors,
                           antenna_scaling, frequencies,
                           dde_dims, ncorr):
-
-    beam_lw, beam_mh, beam_nud = beam.shape[:3]
-
-    if beam_lw < 2 or beam_mh < 2 or beam_nud < 2:
-        raise ValueError("(beam_lw, beam_mh, beam_nud) < 2 "
-                         "to linearly interpolate")
-
     # Create template
     render = jinja_env.get_template(str(_MAIN_TEMPLATE_PATH)).render
     name = "beam_cube_dde"
@@ -148,6 +141,12 @@ def beam_cube_dde(beam, beam_lm_ext, beam_freq_map,
 
     corrs = beam.shape[3:]
 
+    beam_lw, beam_mh, beam_nud = beam.shape[:3]
+
+    if beam_lw < 2 or beam_mh < 2 or beam_nud < 2:
+        raise ValueError("(beam_lw, beam_mh, beam_nud) < 2 "
+                         "to linearly interpolate")
+
     if beam.shape[2] >= BEAM_NUD_LIMIT:
         raise ValueError("beam_nud exceeds %d" % BEAM_NUD_LIMIT)
 
-- 
2.43.0


From 8081f97354bb54938d5927e222d88447ee207ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:21 +0000
Subject: [PATCH 55/55] fix: nifty model declared real visibilities for a real
 image

---
 africanus/gridding/nifty/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/gridding/nifty/dask.py b/africanus/gridding/nifty/dask.py
index a3e0ba8..f7dfc5b 100644
--- a/africanus/gridding/nifty/dask.py
+++ b/africanus/gridding/nifty/dask.py
@@ -444,7 +444,7 @@ def model(image, grid_config):
                         image, ("nu", "nv", "corr"),
                         gc, None,
                         adjust_chunks={"nu": nu, "nv": nv},
-                        dtype=image.dtype)
+                        dtype=np.result_type(image.dtype, np.complex64))
 
 
 def _nifty_degrid(grid, baselines, indices, grid_config):
-- 
2.43.0

