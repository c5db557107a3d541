From 6e69f76e9197c411cb57ba1df890963261493e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:54 +0000
Subject: [PATCH 01/85] fix: aggregate_chunks no longer emits an empty leading
 chunk

When the first chunk alone exceeds the limit, the (empty) aggregate
preceding it was emitted, e.g. (5, 5, 5) with limit 3 produced
(0, 5, 5, 5) rather than (5, 5, 5).
---
 africanus/util/shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/util/shapes.py b/africanus/util/shapes.py
index 4566d90..9fdd5d8 100644
--- a/africanus/util/shapes.py
+++ b/africanus/util/shapes.py
@@ -51,7 +51,8 @@ def aggregate_chunks(chunks, max_chunks):
             if chunk_scratch[ci] > max_chunks[ci]:
                 aggregate = True
 
-        if aggregate:
+        # Nothing has been accumulated before the first chunk
+        if aggregate and di > 0:
             for ci, chunk in enumerate(chunks):
                 agg_chunks[ci].append(agg_chunk_counts[ci])
                 agg_chunk_counts[ci] = chunk[di]
-- 
2.43.0


From 82988e252284586e0c599551a7f6b47cfb229fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:04 +0000
Subject: [PATCH 02/85] fix: dask coherency convert handles chunked correlation
 dimensions

---
 africanus/model/coherency/dask.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/africanus/model/coherency/dask.py b/africanus/model/coherency/dask.py
index 7014236..c6c6f74 100644
--- a/africanus/model/coherency/dask.py
+++ b/africanus/model/coherency/dask.py
@@ -31,6 +31,11 @@ def convert(input, input_schema, output_schema):
                                                         output_schema)
 
     n_free_dims = len(input.shape) - len(in_shape)
+
+    # Every output correlation may depend on any input correlation,
+    # so the input correlation dimensions must be held in a single chunk
+    input = input.rechunk({d: -1 for d in range(n_free_dims, input.ndim)})
+
     free_dims = tuple("dim-%d" % i for i in range(n_free_dims))
     in_corr_dims = tuple("icorr-%d" % i for i in range(len(in_shape)))
     out_corr_dims = tuple("ocorr-%d" % i for i in range(len(out_shape)))
-- 
2.43.0


From 56c12d6c72bcdd27061fc558e37a96dcdbfc4fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:04 +0000
Subject: [PATCH 03/85] fix: coherency convert names the unknown output in its
 error

---
 africanus/model/coherency/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/model/coherency/conversion.py b/africanus/model/coherency/conversion.py
index c9ee34b..5e834e9 100644
--- a/africanus/model/coherency/conversion.py
+++ b/africanus/model/coherency/conversion.py
@@ -112,7 +112,7 @@ def convert_setup(input, input_schema, output_schema):
             deps = stokes_conv[okey]
         except KeyError:
             raise ValueError("Unknown output '%s'. Known types '%s'"
-                             % (deps, STOKES_TYPES))
+                             % (okey, STOKES_TYPES))
 
         found_conv = False
 
-- 
2.43.0


From e4bf58534beca906b589d9a8f08026f2c57de86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:44 +0000
Subject: [PATCH 04/85] fix: wgridder honours imaging bands that do not start
 at the first channel

---
 africanus/gridding/wgridder/dask.py       | 15 +++++++++++----
 africanus/gridding/wgridder/hessian.py    |  6 +-----
 africanus/gridding/wgridder/im2residim.py |  6 +-----
 africanus/gridding/wgridder/im2vis.py     |  5 +----
 africanus/gridding/wgridder/vis2im.py     |  5 +----
 5 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/africanus/gridding/wgridder/dask.py b/africanus/gridding/wgridder/dask.py
index c10ffa8..ea95817 100644
--- a/africanus/gridding/wgridder/dask.py
+++ b/africanus/gridding/wgridder/dask.py
@@ -21,6 +21,13 @@ from africanus.gridding.wgridder.hessian import (_hessian_internal
 from africanus.util.requirements import requires_optional
 
 
+def _chunk_bin_idx(freq_bin_idx, freq):
+    """ Starting index of each band relative to its channel chunk """
+    starts = np.cumsum((0,) + freq.chunks[0][:-1])
+    offsets = np.repeat(starts, freq_bin_idx.chunks[0])
+    return freq_bin_idx - da.from_array(offsets, chunks=freq_bin_idx.chunks)
+
+
 def _model_wrapper(uvw, freq, model, freq_bin_idx, freq_bin_counts, cell,
                    weights, flag, celly, epsilon, nthreads, do_wstacking):
 
@@ -57,7 +64,7 @@ def model(uvw, freq, image, freq_bin_idx, freq_bin_counts, cell,
                        uvw, ('row', 'three'),
                        freq, ('chan',),
                        image, ('chan', 'nx', 'ny'),
-                       freq_bin_idx, ('chan',),
+                       _chunk_bin_idx(freq_bin_idx, freq), ('chan',),
                        freq_bin_counts, ('chan',),
                        cell, None,
                        weights, weight_out,
@@ -113,7 +120,7 @@ def dirty(uvw, freq, vis, freq_bin_idx, freq_bin_counts, nx, ny, cell,
                        uvw, ('row', 'three'),
                        freq, ('chan',),
                        vis, ('row', 'chan'),
-                       freq_bin_idx, ('chan',),
+                       _chunk_bin_idx(freq_bin_idx, freq), ('chan',),
                        freq_bin_counts, ('chan',),
                        nx, None,
                        ny, None,
@@ -170,7 +177,7 @@ def residual(uvw, freq, image, vis, freq_bin_idx, freq_bin_counts, cell,
                        freq, ('chan',),
                        image, ('chan', 'nx', 'ny'),
                        vis, ('row', 'chan'),
-                       freq_bin_idx, ('chan',),
+                       _chunk_bin_idx(freq_bin_idx, freq), ('chan',),
                        freq_bin_counts, ('chan',),
                        cell, None,
                        weights, weight_out,
@@ -222,7 +229,7 @@ def hessian(uvw, freq, image, freq_bin_idx, freq_bin_counts, cell,
                        uvw, ('row', 'three'),
                        freq, ('chan',),
                        image, ('chan', 'nx', 'ny'),
-                       freq_bin_idx, ('chan',),
+                       _chunk_bin_idx(freq_bin_idx, freq), ('chan',),
                        freq_bin_counts, ('chan',),
                        cell, None,
                        weights, weight_out,
diff --git a/africanus/gridding/wgridder/hessian.py b/africanus/gridding/wgridder/hessian.py
index fd36781..6197940 100644
--- a/africanus/gridding/wgridder/hessian.py
+++ b/africanus/gridding/wgridder/hessian.py
@@ -16,16 +16,12 @@ from africanus.util.requirements import requires_optional
 def _hessian_internal(uvw, freq, image, freq_bin_idx, freq_bin_counts,
                       cell, weights, flag, celly, epsilon, nthreads,
                       do_wstacking, double_accum):
-
-    # adjust for chunking
-    # need a copy here if using multiple row chunks
-    freq_bin_idx2 = freq_bin_idx - freq_bin_idx.min()
     nband = freq_bin_idx.size
     _, nx, ny = image.shape
     # the extra dimension is required to allow for chunking over row
     convolvedim = np.zeros((1, nband, nx, ny), dtype=image.dtype)
     for i in range(nband):
-        ind = slice(freq_bin_idx2[i], freq_bin_idx2[i] + freq_bin_counts[i])
+        ind = slice(freq_bin_idx[i], freq_bin_idx[i] + freq_bin_counts[i])
         if weights is not None:
             wgt = weights[:, ind]
         else:
diff --git a/africanus/gridding/wgridder/im2residim.py b/africanus/gridding/wgridder/im2residim.py
index bda8945..b191f29 100644
--- a/africanus/gridding/wgridder/im2residim.py
+++ b/africanus/gridding/wgridder/im2residim.py
@@ -16,16 +16,12 @@ from africanus.util.requirements import requires_optional
 def _residual_internal(uvw, freq, image, vis, freq_bin_idx, freq_bin_counts,
                        cell, weights, flag, celly, epsilon, nthreads,
                        do_wstacking, double_accum):
-
-    # adjust for chunking
-    # need a copy here if using multiple row chunks
-    freq_bin_idx2 = freq_bin_idx - freq_bin_idx.min()
     nband = freq_bin_idx.size
     _, nx, ny = image.shape
     # the extra dimension is required to allow for chunking over row
     residim = np.zeros((1, nband, nx, ny), dtype=image.dtype)
     for i in range(nband):
-        ind = slice(freq_bin_idx2[i], freq_bin_idx2[i] + freq_bin_counts[i])
+        ind = slice(freq_bin_idx[i], freq_bin_idx[i] + freq_bin_counts[i])
         if weights is not None:
             wgt = weights[:, ind]
         else:
diff --git a/africanus/gridding/wgridder/im2vis.py b/africanus/gridding/wgridder/im2vis.py
index 977893a..3347669 100644
--- a/africanus/gridding/wgridder/im2vis.py
+++ b/africanus/gridding/wgridder/im2vis.py
@@ -15,15 +15,12 @@ from africanus.util.requirements import requires_optional
 @requires_optional('ducc0.wgridder', ducc_import_error)
 def _model_internal(uvw, freq, image, freq_bin_idx, freq_bin_counts, cell,
                     weights, flag, celly, epsilon, nthreads, do_wstacking):
-    # adjust for chunking
-    # need a copy here if using multiple row chunks
-    freq_bin_idx2 = freq_bin_idx - freq_bin_idx.min()
     nband, nx, ny = image.shape
     nrow = uvw.shape[0]
     nchan = freq.size
     vis = np.zeros((nrow, nchan), dtype=np.result_type(image, np.complex64))
     for i in range(nband):
-        ind = slice(freq_bin_idx2[i], freq_bin_idx2[i] + freq_bin_counts[i])
+        ind = slice(freq_bin_idx[i], freq_bin_idx[i] + freq_bin_counts[i])
         if weights is not None:
             wgt = weights[:, ind]
         else:
diff --git a/africanus/gridding/wgridder/vis2im.py b/africanus/gridding/wgridder/vis2im.py
index 30155c5..6e29cd1 100644
--- a/africanus/gridding/wgridder/vis2im.py
+++ b/africanus/gridding/wgridder/vis2im.py
@@ -16,9 +16,6 @@ from africanus.util.requirements import requires_optional
 def _dirty_internal(uvw, freq, vis, freq_bin_idx, freq_bin_counts, nx, ny,
                     cell, weights, flag, celly, epsilon, nthreads,
                     do_wstacking, double_accum):
-    # adjust for chunking
-    # need a copy here if using multiple row chunks
-    freq_bin_idx2 = freq_bin_idx - freq_bin_idx.min()
     nband = freq_bin_idx.size
     if type(vis[0, 0]) == np.complex64:
         real_type = np.float32
@@ -29,7 +26,7 @@ def _dirty_internal(uvw, freq, vis, freq_bin_idx, freq_bin_counts, nx, ny,
     # the extra dimension is required to allow for chunking over row
     dirty = np.zeros((1, nband, nx, ny), dtype=real_type)
     for i in range(nband):
-        ind = slice(freq_bin_idx2[i], freq_bin_idx2[i] + freq_bin_counts[i])
+        ind = slice(freq_bin_idx[i], freq_bin_idx[i] + freq_bin_counts[i])
         if weights is not None:
             wgt = weights[:, ind]
         else:
-- 
2.43.0


From 705a54731e02ac7979acbc7942f95a604e5e014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:53 +0000
Subject: [PATCH 05/85] fix: progress bar stops its reporting thread before the
 computation returns

---
 africanus/util/dask_util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/africanus/util/dask_util.py b/africanus/util/dask_util.py
index 8906cff..c842f5f 100644
--- a/africanus/util/dask_util.py
+++ b/africanus/util/dask_util.py
@@ -3,7 +3,6 @@ from collections import defaultdict
 from timeit import default_timer
 from threading import Event, Thread, Lock
 import os
-import time
 import sys
 
 try:
@@ -140,7 +139,7 @@ def timer_func(pb):
                                                         prev_estimated,
                                                         pb)
 
-        time.sleep(pb._dt)
+        pb.finished.wait(pb._dt)
 
 
 default_out = DefaultOut("sys.stdout")
@@ -201,12 +200,16 @@ class EstimatingProgressBar(Callback):
 
         self.running = Event()
         self.running.set()
+        self.finished = Event()
         self.thread = Thread(target=timer_func, args=(self,))
         self.daemon = True
         self.thread.start()
 
     def _finish(self, dsk, state, errored):
         self.running.clear()
+        self.finished.set()
+        # Nothing may be reported once the computation has returned
+        self.thread.join()
         self.task_data.clear()
         self.task_start.clear()
 
-- 
2.43.0


From a157afa16822e98a378c1f2004ebae5f9fbb26ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:53 +0000
Subject: [PATCH 06/85] fix: progress bar copes with tasks that take no
 measurable time

---
 africanus/util/dask_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/util/dask_util.py b/africanus/util/dask_util.py
index c842f5f..2b86d24 100644
--- a/africanus/util/dask_util.py
+++ b/africanus/util/dask_util.py
@@ -97,7 +97,7 @@ def update_bar(elapsed, prev_completed, prev_estimated, pb):
     # If we've completed some new tasks, update our estimate
     # otherwise use previous estimate. This prevents jumps
     # relative to the elapsed time
-    if completed != prev_completed:
+    if completed != prev_completed and time_guess > 0.0:
         estimated = estimated * elapsed / time_guess
     else:
         estimated = prev_estimated
-- 
2.43.0


From 4dd7e6fe906a87b19ef8db4fe884122593e876b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:53 +0000
Subject: [PATCH 07/85] fix: progress bar reporting thread is a daemon, as
 intended

---
 africanus/util/dask_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/util/dask_util.py b/africanus/util/dask_util.py
index 2b86d24..66c167a 100644
--- a/africanus/util/dask_util.py
+++ b/africanus/util/dask_util.py
@@ -202,7 +202,7 @@ class EstimatingProgressBar(Callback):
         self.running.set()
         self.finished = Event()
         self.thread = Thread(target=timer_func, args=(self,))
-        self.daemon = True
+        self.thread.daemon = True
         self.thread.start()
 
     def _finish(self, dsk, state, errored):
-- 
2.43.0


From e8079c85b3febba9f8fd4d38acd00c172d947b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:41 +0000
Subject: [PATCH 08/85] fix: beam headers may omit the CTYPE of an axis

---
 africanus/util/beams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/util/beams.py b/africanus/util/beams.py
index 8fffeff..4eb5479 100644
--- a/africanus/util/beams.py
+++ b/africanus/util/beams.py
@@ -22,7 +22,7 @@ class FitsAxes(object):
         # Extract header information for each dimension
         axr = list(range(1, ndims+1))
         self._naxis = [header.get('NAXIS%d' % n) for n in axr]
-        self._ctype = [header.get('CTYPE%d' % n, n).strip() for n in axr]
+        self._ctype = [header.get('CTYPE%d' % n, str(n)).strip() for n in axr]
         self._crval = [header.get('CRVAL%d' % n, 0) for n in axr]
         # Convert right pixel from FORTRAN to C indexing
         self._crpix = [header['CRPIX%d' % n]-1 for n in axr]
-- 
2.43.0


From e80e1d9d8ef65508455543b64091f14216e08726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:41 +0000
Subject: [PATCH 09/85] fix: irregular beam grids in degrees are converted to
 radians

---
 africanus/util/beams.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/africanus/util/beams.py b/africanus/util/beams.py
index 4eb5479..c735fe7 100644
--- a/africanus/util/beams.py
+++ b/africanus/util/beams.py
@@ -93,6 +93,9 @@ class BeamAxes(FitsAxes):
                 self._crval[i] = np.deg2rad(self._crval[i])
                 self._cdelt[i] = np.deg2rad(self._cdelt[i])
 
+                if self._irreg[i]:
+                    irregular_grid[i] = np.deg2rad(irregular_grid[i])
+
             # Set up the grid
             self._grid[i] = (_regular_grid(i) if not self._irreg[i]
                              else irregular_grid[i])
-- 
2.43.0


From 1c0cebef42463578561a779ea6ad6cf5676f1b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 10/85] fix: singletons are per class, may be falsy and may
 depend on each other

---
 africanus/util/code.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/africanus/util/code.py b/africanus/util/code.py
index 3b3d78c..7ab3a6d 100644
--- a/africanus/util/code.py
+++ b/africanus/util/code.py
@@ -2,6 +2,7 @@
 
 
 from functools import wraps
+from threading import RLock
 
 try:
     from dask.utils import SerializableLock as Lock
@@ -10,17 +11,22 @@ except ImportError:
 
 
 class SingletonMixin(object):
-    __singleton_lock = Lock()
+    # Re-entrant, as constructing one singleton may require another
+    __singleton_lock = RLock()
     __singleton_instance = None
 
     @classmethod
     def instance(cls):
-        if not cls.__singleton_instance:
+        # Consult the class itself, as the attribute of a
+        # base class holds the instance of that base class
+        attr = '_SingletonMixin__singleton_instance'
+
+        if cls.__dict__.get(attr) is None:
             with cls.__singleton_lock:
-                if not cls.__singleton_instance:
+                if cls.__dict__.get(attr) is None:
                     cls.__singleton_instance = cls()
 
-        return cls.__singleton_instance
+        return cls.__dict__[attr]
 
 
 def format_code(code):
-- 
2.43.0


From 266c6383df5e6ec413b0ed417062485cab20ddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:33 +0000
Subject: [PATCH 11/85] fix: cub and trove are installed atomically

---
 africanus/util/cub.py   | 15 +++++++++++----
 africanus/util/trove.py | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/africanus/util/cub.py b/africanus/util/cub.py
index 14268f1..d4b0032 100644
--- a/africanus/util/cub.py
+++ b/africanus/util/cub.py
@@ -108,20 +108,27 @@ def _install_cub():
             raise InstallCubException("Removing %s failed\n%s" % (
                                       _cub_dir, str(e)))
 
+        tmpdir = None
+
         try:
-            # Unzip into temporary directory
-            tmpdir = tempfile.mkdtemp()
+            # Unzip into temporary directory, next to the final
+            # location so that the rename below is atomic
+            if not os.path.exists(include_dir):
+                os.makedirs(include_dir)
+
+            tmpdir = tempfile.mkdtemp(dir=include_dir)
             zip_file.extractall(tmpdir)
 
             unzip_path = pjoin(tmpdir, _cub_zip_dir)
 
             # Move
-            shutil.move(unzip_path, _cub_dir)
+            os.rename(unzip_path, _cub_dir)
         except Exception as e:
             raise InstallCubException("Extracting %s failed\n%s" % (
                                       archive, str(e)))
         finally:
-            shutil.rmtree(tmpdir, ignore_errors=True)
+            if tmpdir is not None:
+                shutil.rmtree(tmpdir, ignore_errors=True)
 
         log.info("NVIDIA cub archive unzipped into '%s'" % _cub_dir)
 
diff --git a/africanus/util/trove.py b/africanus/util/trove.py
index b88b62e..d3718fa 100644
--- a/africanus/util/trove.py
+++ b/africanus/util/trove.py
@@ -91,20 +91,27 @@ def _install_trove():
             raise InstallTroveException("Removing %s failed\n%s" % (
                                       _trove_dir, str(e)))
 
+        tmpdir = None
+
         try:
-            # Unzip into temporary directory
-            tmpdir = tempfile.mkdtemp()
+            # Unzip into temporary directory, next to the final
+            # location so that the rename below is atomic
+            if not os.path.exists(include_dir):
+                os.makedirs(include_dir)
+
+            tmpdir = tempfile.mkdtemp(dir=include_dir)
             zip_file.extractall(tmpdir)
 
             unzip_path = pjoin(tmpdir, _trove_zip_dir)
 
             # Move
-            shutil.move(unzip_path, _trove_dir)
+            os.rename(unzip_path, _trove_dir)
         except Exception as e:
             raise InstallTroveException("Extracting %s failed\n%s" % (
                                       archive, str(e)))
         finally:
-            shutil.rmtree(tmpdir, ignore_errors=True)
+            if tmpdir is not None:
+                shutil.rmtree(tmpdir, ignore_errors=True)
 
         log.info("NVIDIA trove archive unzipped into '%s'" % _trove_dir)
 
-- 
2.43.0


From 957b5411be81d9021d2dc7218d60f607aa315cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:33 +0000
Subject: [PATCH 12/85] fix: cub hash mismatch names the expected hash
 correctly

---
 africanus/util/cub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/util/cub.py b/africanus/util/cub.py
index d4b0032..60fecbc 100644
--- a/africanus/util/cub.py
+++ b/africanus/util/cub.py
@@ -95,7 +95,7 @@ def _install_cub():
                    'is %s and does not match the expected '
                    'hash of %s.') % (
                         _cub_download_filename, _cub_url,
-                        _cub_sha_hash, sha_hash)
+                        sha_hash, _cub_sha_hash)
 
             raise InstallCubException(msg)
 
-- 
2.43.0


From 65d25c07291d9ebfdbbfefba5aa6f01305eee9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:10 +0000
Subject: [PATCH 13/85] fix: option strings calling attributes are rejected
 with a ValueError

---
 africanus/util/cmdline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/africanus/util/cmdline.py b/africanus/util/cmdline.py
index c8e719c..1e48c10 100644
--- a/africanus/util/cmdline.py
+++ b/africanus/util/cmdline.py
@@ -47,7 +47,9 @@ def parse_python_assigns(assign_str):
     def _eval_value(stmt_value):
         # If the statement value is a call to a builtin, try evaluate it
         if isinstance(stmt_value, ast.Call):
-            func_name = stmt_value.func.id
+            # The called object may not be a plain name
+            func_name = getattr(stmt_value.func, 'id',
+                                ast.dump(stmt_value.func))
 
             if func_name not in _BUILTIN_WHITELIST:
                 raise ValueError("Function '%s' in '%s' is not builtin. "
-- 
2.43.0


From 73cb1aff017b6d278dc815a6ef747f181cc1788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:27 +0000
Subject: [PATCH 14/85] fix: hogbom clean takes at most niter components

---
 africanus/deconv/hogbom/clean.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/deconv/hogbom/clean.py b/africanus/deconv/hogbom/clean.py
index eaf2ec8..f221d20 100644
--- a/africanus/deconv/hogbom/clean.py
+++ b/africanus/deconv/hogbom/clean.py
@@ -172,7 +172,7 @@ def hogbom_clean(dirty, psf,
     # CLEAN the image
     i = 0
 
-    while np.abs(intensity) > threshold and i <= niter:
+    while np.abs(intensity) > threshold and i < niter:
         logging.info("min %f max %f peak %f threshold %f" %
                      (residuals.min(), residuals.max(), intensity, threshold))
 
@@ -184,8 +184,8 @@ def hogbom_clean(dirty, psf,
         p, q, _, _, intensity = find_peak(residuals)
         # Increment counter
         i += 1
-        # Warn if niter exceeded
-        if i > niter:
+        # Warn if niter reached
+        if i >= niter:
             logging.warn("Number of iterations exceeded")
             logging.warn("Minimum residuals = %s", residuals.max())
 
-- 
2.43.0


From fa29e0946f7f8a1c803dca44c2158b3ef010c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:27 +0000
Subject: [PATCH 15/85] fix: kronecker products of factors with more than 127
 rows or columns

---
 africanus/linalg/kronecker_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/linalg/kronecker_tools.py b/africanus/linalg/kronecker_tools.py
index 811d75a..235ab38 100644
--- a/africanus/linalg/kronecker_tools.py
+++ b/africanus/linalg/kronecker_tools.py
@@ -81,8 +81,8 @@ def kron_tensorvec(A, b):
     """
     D = A.shape[0]
     # get shape of sub-matrices
-    G = np.zeros(D, dtype=np.int8)
-    M = np.zeros(D, dtype=np.int8)
+    G = np.zeros(D, dtype=np.int64)
+    M = np.zeros(D, dtype=np.int64)
     for d in range(D):
         M[d], G[d] = A[d].shape
     x = b
-- 
2.43.0


From bbfa9d835d32bccc8c69e9ad040836c629b5c887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:31 +0000
Subject: [PATCH 16/85] fix: kronecker matrix products and factors keep complex
 and fractional parts

---
 africanus/linalg/kronecker_tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/africanus/linalg/kronecker_tools.py b/africanus/linalg/kronecker_tools.py
index 235ab38..ef74c4e 100644
--- a/africanus/linalg/kronecker_tools.py
+++ b/africanus/linalg/kronecker_tools.py
@@ -119,7 +119,7 @@ def kron_matmat(A, B):
     M = B.shape[1]  # the product of Np_1 x Np_2 x ... x Np_3
 
     N = kron_N(A)
-    C = np.zeros([N, M])
+    C = np.zeros([N, M], dtype=np.result_type(np.float64, B, *A))
     for i in range(M):
         C[:, i] = kron_matvec(A, B[:, i])
     return C
@@ -148,7 +148,7 @@ def kron_tensormat(A, B):
     M = B.shape[1]  # the product of Np_1 x Np_2 x ... x Np_3
 
     N = kron_N(A)
-    C = np.zeros([N, M])
+    C = np.zeros([N, M], dtype=np.result_type(np.float64, B, *A))
     for i in range(M):
         C[:, i] = kron_tensorvec(A, B[:, i])
     return C
@@ -176,7 +176,8 @@ def kron_cholesky(A):
         and each :code:`Li = cholesky(Ki)`
     """
     D = A.shape[0]
-    L = np.zeros_like(A)
+    dtype = np.float64 if np.issubdtype(A.dtype, np.integer) else A.dtype
+    L = np.zeros_like(A, dtype=dtype)
     for i in range(D):
         try:
             L[i] = np.linalg.cholesky(A[i])
-- 
2.43.0


From 8adcd846f33160fb29461809b610616c5a3f74fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:31 +0000
Subject: [PATCH 17/85] fix: power spectrum requests outside the domain raise
 the intended errors

---
 africanus/gps/kernels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/africanus/gps/kernels.py b/africanus/gps/kernels.py
index 1125048..17ab979 100644
--- a/africanus/gps/kernels.py
+++ b/africanus/gps/kernels.py
@@ -33,13 +33,13 @@ def exponential_squared(x, xp, sigmaf, l, pspec=False):  # noqa: E741
     if pspec:
         N, D = x.shape
         if D != 1:
-            raise(NotImplementedError, "Only 1D pspecs supported")
+            raise NotImplementedError("Only 1D pspecs supported")
         if (x != xp).any():
-            raise(ValueError, "pspec only defined if x = xp")
+            raise ValueError("pspec only defined if x = xp")
         x = x.squeeze()
         delx = x[1] - x[0]
-        if (x[1::] - x[0:-1] != delx).any():
-            raise(ValueError, "pspec only defined on regular grid")
+        if not np.allclose(x[1::] - x[0:-1], delx, atol=0):
+            raise ValueError("pspec only defined on regular grid")
         s = np.fft.fftshift(np.fft.fftfreq(N, d=delx))
         return np.sqrt(2*np.pi*l)*sigmaf**2.0*np.exp(-l**2*s**2/2.0)
     else:
-- 
2.43.0


From f241bffb51d196789c0213daa7bde3bfb46166a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:20 +0000
Subject: [PATCH 18/85] fix: hull overlap tests normalise every edge normal

---
 africanus/linalg/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 934e735..133f0ab 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -420,7 +420,7 @@ class BoundingConvexHull(object):
         # get the projection axes
         normals = np.vstack([self.lnormals, other.lnormals])
         norms = np.linalg.norm(normals, axis=1)
-        normals = normals / norms[None, 2]
+        normals = normals / norms[:, None]
 
         # compute vectors to corners from origin
         vecs_reg1 = self.corners
-- 
2.43.0


From b58b0c6fe747fa906617138a8cdb4619ce1beab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:20 +0000
Subject: [PATCH 19/85] fix: regional data outside the image holds the out of
 bounds value

---
 africanus/linalg/geometry.py | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 133f0ab..e951fa6 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -231,28 +231,11 @@ class BoundingConvexHull(object):
         new_shape[axes[0]] = maxy - miny + 1
         new_shape[axes[1]] = maxx - minx + 1
 
-        if any(np.array([pad_left, pad_bottom, pad_right, pad_top]) > 0):
-            padded_data = (
-                np.zeros(tuple(new_shape), dtype=selected_data.dtype)
-                * oob_value
-            )
-            padded_data[tuple(slc_padded)] = selected_data.copy()
-        else:
-            padded_data = selected_data.copy()
+        padded_data = np.full(
+            tuple(new_shape), oob_value, dtype=selected_data.dtype
+        )
 
         # finally apply mask
-        slc_padded_data = [slice(None)] * len(padded_data.shape)
-        for (start, end), axis in zip(
-            [
-                (
-                    0,
-                    maxy - miny + 1,
-                ),  # mask starts at origin in the padded image
-                (0, maxx - minx + 1),
-            ],
-            axes,
-        ):
-            slc_padded_data[axis] = slice(start, end)
         slc_mask = [None] * len(padded_data.shape)
         for (start, end), axis in zip(
             [
@@ -265,9 +248,11 @@ class BoundingConvexHull(object):
             axes,
         ):
             slc_mask[axis] = slice(start, end)
-        mask = sel_region.mask.copy()
-        mask[mask == 0] = oob_value
-        padded_data[tuple(slc_padded_data)] *= mask[tuple(slc_mask)]
+        # weights of the pixels that lie within the image
+        mask = sel_region.mask[tuple(slc_mask)][tuple(slc_padded)]
+        padded_data[tuple(slc_padded)] = np.where(
+            mask != 0, selected_data * mask, oob_value
+        )
         window_extents = [minx, maxx, miny, maxy]
         return padded_data, window_extents
 
-- 
2.43.0


From ffacf9fe1c9bd72fcf0031d76edb65792d85d44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:20 +0000
Subject: [PATCH 20/85] fix: regional data compares regions with the matching
 image axes

---
 africanus/linalg/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index e951fa6..fe2c354 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -198,8 +198,8 @@ class BoundingConvexHull(object):
         pad_top = max(0, maxy - data_cube.shape[axes[0]] + 1)
 
         if (
-            minx > data_cube.shape[axes[0]]
-            or miny > data_cube.shape[axes[1]]
+            minx >= data_cube.shape[axes[1]]
+            or miny >= data_cube.shape[axes[0]]
             or maxy < 0
             or maxx < 0
         ):
-- 
2.43.0


From dcf1116c80c43ff3f6a8f979870e7d324a87988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:20 +0000
Subject: [PATCH 21/85] fix: mask normalisation handles negative coordinates
 and current numpy

---
 africanus/linalg/geometry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index fe2c354..899439f 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -281,15 +281,16 @@ class BoundingConvexHull(object):
 
         # flatten for faster comparisons
         allmasks = np.array(allmasks)
+        minx = np.min(allmasks[:, 1])
         maxx = np.max(allmasks[:, 1])
-        nx = maxx + 1
-        allmasks_flatten = allmasks[:, 0] * nx + allmasks[:, 1]
+        nx = maxx - minx + 1
+        allmasks_flatten = allmasks[:, 0] * nx + allmasks[:, 1] - minx
 
         # now count the number of times a pixel is painted onto
         unique_pxls_flatten, paint_count = np.unique(
             allmasks_flatten, return_counts=True
         )
-        paint_count = paint_count.astype(np.float)
+        paint_count = paint_count.astype(np.float64)
 
         if only_overlapped_regions:
             sel = paint_count > 1
@@ -298,7 +299,7 @@ class BoundingConvexHull(object):
 
         # with the reduced number of overlap pixels unflatten
         unique_pxls = np.vstack(
-            [unique_pxls_flatten // nx, unique_pxls_flatten % nx]
+            [unique_pxls_flatten // nx, unique_pxls_flatten % nx + minx]
         ).T
         unique_pxls = list(map(tuple, unique_pxls))
         paint_count[...] = 1.0 / paint_count
-- 
2.43.0


From a373cd554edfe4f5fe6eb5abd16f4d7e80f9b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:20 +0000
Subject: [PATCH 22/85] fix: setting a region mask invalidates the filled mask

---
 africanus/linalg/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 899439f..cf0826e 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -124,6 +124,7 @@ class BoundingConvexHull(object):
             )
         ):
             raise TypeError("Mask must be a sparse mask of 2 element values")
+        self._cached_filled_mask = None
         if self._check_mask_outofbounds:
             self._mask = copy.deepcopy(
                 [c for c in mask if (c[1], c[0]) in self]
@@ -537,8 +538,10 @@ class BoundingBox(BoundingConvexHull):
             )
         ):
             raise TypeError("Mask must be a sparse mask of 2 element values")
+        self._cached_filled_mask = None
         if len(mask) == 0:
             self._mask = []
+            self._mask_weights = np.ones(0)
         else:
             lines = np.hstack(
                 [self.corners, np.roll(self.corners, -1, axis=0)])
-- 
2.43.0


From 9d671c6b8f47ea0388f4160e58889818fc3a6abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:20 +0000
Subject: [PATCH 23/85] fix: projecting regions leaves the regional data
 untouched

---
 africanus/linalg/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index cf0826e..ad43d14 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -611,7 +611,7 @@ class BoundingBox(BoundingConvexHull):
 
         combined_mask = []
         for f, freg in zip(regional_data_list, regions_list):
-            f[np.isnan(f)] = 0
+            f = np.where(np.isnan(f), 0, f)
             xl = max(0, global_offsetx + np.min(freg.corners[:, 0]))
             xu = min(global_offsetx + np.max(freg.corners[:, 0]) + 1, npxx)
             yl = max(0, global_offsety + np.min(freg.corners[:, 1]))
-- 
2.43.0


From 53f0ec4887feaac1f758fdb8798bb72634bd2ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:20 +0000
Subject: [PATCH 24/85] fix: square and padded boxes contain the region they
 are built from

---
 africanus/linalg/geometry.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index ad43d14..f7d2148 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -663,10 +663,12 @@ class BoundingBoxFactory(object):
             boxdiam = max(nx, ny)
             boxrad = boxdiam // 2
             cx, cy = convex_hull_object.centre
-            xl = cx - boxrad
-            xu = cx + boxdiam - boxrad - 1
-            yl = cy - boxrad
-            yu = cy + boxdiam - boxrad - 1
+            # keep the hull within the box
+            minx, miny = np.min(convex_hull_object.corners, axis=0)
+            xl = min(max(cx - boxrad, minx + nx - boxdiam), minx)
+            xu = xl + boxdiam - 1
+            yl = min(max(cy - boxrad, miny + ny - boxdiam), miny)
+            yu = yl + boxdiam - 1
         else:
             xl = np.min(convex_hull_object.corners[:, 0])
             xu = np.max(convex_hull_object.corners[:, 0])
@@ -763,14 +765,14 @@ class BoundingBoxFactory(object):
         if desired_nx - nx < 0 or desired_ny - ny < 0:
             raise ValueError("Padded box must be bigger than original box")
         pad_left = desired_nx // 2
-        pad_right = desired_nx - pad_left - 1
         pad_bottom = desired_ny // 2
-        pad_top = desired_ny - pad_bottom - 1
         cx, cy = bounding_box_object.centre
-        xl = cx - pad_left
-        xu = cx + pad_right
-        yl = cy - pad_bottom
-        yu = cy + pad_top
+        # keep the original box within the padded one
+        minx, miny = np.min(bounding_box_object.corners, axis=0)
+        xl = min(max(cx - pad_left, minx + nx - desired_nx), minx)
+        xu = xl + desired_nx - 1
+        yl = min(max(cy - pad_bottom, miny + ny - desired_ny), miny)
+        yu = yl + desired_ny - 1
         return BoundingBox(
             xl,
             xu,
-- 
2.43.0


From 8f29e9e5465a36be5a42322169f57fdf26e19743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:55 +0000
Subject: [PATCH 25/85] fix: split boxes tile boxes of any size exactly once

---
 africanus/linalg/geometry.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index f7d2148..eb8866e 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -702,12 +702,9 @@ class BoundingBoxFactory(object):
         yu = np.max(bounding_box_object.corners[:, 1])
 
         # construct a nonregular meshgrid bound to xu and yu
-        x = xl + np.arange(0, nsubboxes + 1) * int(
-            np.ceil((xu - xl + 1) / float(nsubboxes))
-        )
-        y = yl + np.arange(0, nsubboxes + 1) * int(
-            np.ceil((yu - yl + 1) / float(nsubboxes))
-        )
+        isub = np.arange(0, nsubboxes + 1)
+        x = xl + (isub * (xu - xl + 1) + nsubboxes - 1) // nsubboxes
+        y = yl + (isub * (yu - yl + 1) + nsubboxes - 1) // nsubboxes
         xx, yy = np.meshgrid(x, y)
 
         # split into boxes
-- 
2.43.0


From 70549a65c2348c518446e92b412841f129b99cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:55 +0000
Subject: [PATCH 26/85] fix: averaging bins after the first span the requested
 interval

---
 africanus/averaging/time_and_channel_mapping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/africanus/averaging/time_and_channel_mapping.py b/africanus/averaging/time_and_channel_mapping.py
index f050141..d8a8aea 100644
--- a/africanus/averaging/time_and_channel_mapping.py
+++ b/africanus/averaging/time_and_channel_mapping.py
@@ -263,6 +263,8 @@ def row_mapper(time, interval, antenna1, antenna2,
                     tbin += 1
                     bin_count = 0
                     bin_flag_count = 0
+                    # The new bin starts at this sample
+                    bin_low = time[r] - half_int
 
                 # Record the output bin associated with the row
                 bin_lookup[bl, t] = tbin
-- 
2.43.0


From cf52eff82bde4e9612249d1e90529759a94566a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:52 +0000
Subject: [PATCH 27/85] fix: rows flagged with values other than one contribute
 to flagged averages

---
 africanus/averaging/time_and_channel_avg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/averaging/time_and_channel_avg.py b/africanus/averaging/time_and_channel_avg.py
index 2940e47..cb90fb9 100644
--- a/africanus/averaging/time_and_channel_avg.py
+++ b/africanus/averaging/time_and_channel_avg.py
@@ -15,7 +15,7 @@ from africanus.util.numba import is_numba_type_none, generated_jit, njit
 def matching_flag_factory(present):
     if present:
         def impl(flag_row, ri, out_flag_row, ro):
-            return flag_row[ri] == out_flag_row[ro]
+            return (flag_row[ri] != 0) == (out_flag_row[ro] != 0)
     else:
         def impl(flag_row, ri, out_flag_row, ro):
             return True
-- 
2.43.0


From b78178981d6264995371d5260c0be29883594cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:23 +0000
Subject: [PATCH 28/85] fix: average weights and sigmas of all correlation
 chunks

---
 africanus/averaging/dask.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index 6eba313..065ca3e 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -92,16 +92,6 @@ def _getitem_row(avg, idx, array, dims):
                     dtype=array.dtype)
 
 
-def _row_average_wrapper(row_meta, ant1, ant2, flag_row,
-                         time_centroid, exposure, uvw,
-                         weight, sigma):
-    return np_row_average(row_meta, ant1, ant2, flag_row,
-                          time_centroid, exposure,
-                          uvw[0] if uvw is not None else None,
-                          weight[0] if weight is not None else None,
-                          sigma[0] if sigma is not None else None)
-
-
 def row_average(row_meta, ant1, ant2, flag_row=None,
                 time_centroid=None, exposure=None, uvw=None,
                 weight=None, sigma=None):
@@ -121,9 +111,10 @@ def row_average(row_meta, ant1, ant2, flag_row=None,
             (True, weight, None if weight is None else rcd),
             (True, sigma, None if sigma is None else rcd)]
 
-    avg = da.blockwise(_row_average_wrapper, rd,
+    avg = da.blockwise(np_row_average, rd,
                        *(v for pair in args for v in pair[1:]),
                        align_arrays=False,
+                       concatenate=True,
                        adjust_chunks={"row": lambda x: np.nan},
                        meta=np.empty((0,)*len(rd), dtype=np.object),
                        dtype=np.object)
-- 
2.43.0


From 21af4dd9fe7f8698bfa677259f62334e1effdbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:03 +0000
Subject: [PATCH 29/85] fix: declare the averaged chunks of channel columns

---
 africanus/averaging/dask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index 065ca3e..b133ffb 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -305,7 +305,8 @@ def time_and_channel(time, interval, antenna1, antenna2,
                              chan_freq=chan_freq,
                              chan_width=chan_width,
                              effective_bw=effective_bw,
-                             resolution=resolution)
+                             resolution=resolution,
+                             chan_bin_size=chan_bin_size)
 
     # Merge output tuples
     return AverageOutput(_getitem_row(row_meta, 1, time, ("row",)),
-- 
2.43.0


From 8e3b86d06a0570d330dabffe3b106e6e75165b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:03 +0000
Subject: [PATCH 30/85] fix: chunked averaging without channel columns

---
 africanus/averaging/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index b133ffb..65abb43 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -210,7 +210,7 @@ def chan_average(chan_meta, chan_freq=None, chan_width=None,
                  effective_bw=None, resolution=None, chan_bin_size=1):
 
     if chan_meta is None:
-        return ChannelAverageOutput(None, None)
+        return ChannelAverageOutput(None, None, None, None)
 
     adjust_chunks = {
         "chan": lambda c: (c + chan_bin_size - 1) // chan_bin_size
-- 
2.43.0


From 026fcdcea8bea8151b799a9f8f794317d74067ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:14 +0000
Subject: [PATCH 31/85] fix: chunked averaging of channel columns without
 visibility columns

---
 africanus/averaging/dask.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index 65abb43..c7c7df3 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -153,7 +153,9 @@ def row_chan_average(row_meta, chan_meta, flag_row=None, weight=None,
                      chan_bin_size=1):
     """ Average (row,chan,corr)-based dask arrays """
 
-    if chan_meta is None:
+    row_chan_arrays = (vis, flag, weight_spectrum, sigma_spectrum)
+
+    if chan_meta is None or all(a is None for a in row_chan_arrays):
         return RowChanAverageOutput(None, None, None, None)
 
     # We don't know how many rows are in each row chunk,
-- 
2.43.0


From 760ee389a36b500b07b66f3b3363aef9882d2aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:11 +0000
Subject: [PATCH 32/85] fix: base visibilities contribute to the type of
 chunked predictions

---
 africanus/rime/dask_predict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index 98e56e3..f8f5f30 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -403,7 +403,8 @@ def predict_vis(time_index, antenna1, antenna2,
                              (time_index.chunks[0], die1_jones.chunks[1]))
 
     # Infer the output dtype
-    dtype_arrays = [dde1_jones, source_coh, dde2_jones, die1_jones, die2_jones]
+    dtype_arrays = [dde1_jones, source_coh, dde2_jones,
+                    die1_jones, base_vis, die2_jones]
     out_dtype = np.result_type(*(np.dtype(a.dtype.name)
                                  for a in dtype_arrays
                                  if a is not None))
-- 
2.43.0


From 689c615253e53b95e26847decd07248bed774a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:40 +0000
Subject: [PATCH 33/85] fix: logarithmic component spectra accept negative
 coefficients

---
 africanus/model/wsclean/spec_model.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/africanus/model/wsclean/spec_model.py b/africanus/model/wsclean/spec_model.py
index f213840..359360b 100644
--- a/africanus/model/wsclean/spec_model.py
+++ b/africanus/model/wsclean/spec_model.py
@@ -93,11 +93,6 @@ def spectra(I, coeffs, log_poly, ref_freq, frequency):  # noqa: E741
 
                     for c in range(ncoeffs):
                         term = coeffs[s, c]
-
-                        if term <= 0.0:
-                            raise ValueError("log polynomial coefficient "
-                                             "must be > 0")
-
                         term *= np.log(nu/rf)**(c + 1)
                         spectral_model[s, f] += term
 
-- 
2.43.0


From 89cda7223eb99bbf96447c7a780c234bbf5087be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:21 +0000
Subject: [PATCH 34/85] fix: rotate source coordinates with their original l

---
 africanus/rime/transform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/africanus/rime/transform.py b/africanus/rime/transform.py
index eed0e55..71df8eb 100644
--- a/africanus/rime/transform.py
+++ b/africanus/rime/transform.py
@@ -27,8 +27,7 @@ def _nb_transform_sources(lm, parallactic_angles, pointing_errors,
                 l, m = lm[s]
 
                 # Rotate source coordinate by parallactic angle
-                l = l*pa_cos - m*pa_sin  # noqa
-                m = l*pa_sin + m*pa_cos
+                l, m = l*pa_cos - m*pa_sin, l*pa_sin + m*pa_cos  # noqa
 
                 # Add pointing errors
                 l += pointing_errors[t, a, 0]  # noqa
-- 
2.43.0


From e0a996feb89b73245ef9959ff71ccf1cff91cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:34 +0000
Subject: [PATCH 35/85] fix: chunked Zernike sums include all polynomial chunks

---
 africanus/rime/dask.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/africanus/rime/dask.py b/africanus/rime/dask.py
index 6502b65..7267949 100644
--- a/africanus/rime/dask.py
+++ b/africanus/rime/dask.py
@@ -147,19 +147,12 @@ def beam_cube_dde(beam, beam_lm_extents, beam_freq_map,
                              dtype=beam.dtype)
 
 
-def _zernike_wrapper(coords, coeffs, noll_index):
-    # coords loses "three" dim
-    # coeffs loses "poly" dim
-    # noll_index loses "poly" dim
-    return np_zernike_dde(coords[0], coeffs[0], noll_index[0])
-
-
 @requires_optional('dask.array', da_import_error)
 def zernike_dde(coords, coeffs, noll_index):
     ncorrs = len(coeffs.shape[2:-1])
     corr_dims = tuple("corr-%d" % i for i in range(ncorrs))
 
-    return da.core.blockwise(_zernike_wrapper,
+    return da.core.blockwise(np_zernike_dde,
                              ("source", "time", "ant", "chan") + corr_dims,
                              coords,
                              ("three", "source", "time", "ant", "chan"),
@@ -167,6 +160,8 @@ def zernike_dde(coords, coeffs, noll_index):
                              ("ant", "chan") + corr_dims + ("poly",),
                              noll_index,
                              ("ant", "chan") + corr_dims + ("poly",),
+                             # join the chunks of "three" and "poly"
+                             concatenate=True,
                              dtype=coeffs.dtype)
 
 
-- 
2.43.0


From f0beb54d84d4986659096587136b87d09f34640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:22 +0000
Subject: [PATCH 36/85] fix: flags discard samples in all correlation chunks

---
 africanus/dft/dask.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/africanus/dft/dask.py b/africanus/dft/dask.py
index eff1415..df8acb2 100644
--- a/africanus/dft/dask.py
+++ b/africanus/dft/dask.py
@@ -51,7 +51,7 @@ def im_to_vis(image, uvw, lm, frequency,
 def _vis_to_im_wrapper(vis, uvw, lm, frequency, flags,
                        convention, dtype_):
     return np_vis_to_im(vis, uvw[0], lm[0],
-                        frequency, flags,
+                        frequency, flags[0],
                         convention=convention,
                         dtype=dtype_)[None, :]
 
@@ -71,13 +71,17 @@ def vis_to_im(vis, uvw, lm, frequency, flags,
         raise ValueError("Vis chunks must match flags "
                          "chunks on all axes")
 
+    # A flag on any correlation discards the sample for all of them,
+    # including correlations in other chunks
+    flags = flags.any(axis=2, keepdims=True)
+
     ims = da.core.blockwise(_vis_to_im_wrapper,
                             ("row", "source", "chan", "corr"),
                             vis, ("row", "chan", "corr"),
                             uvw, ("row", "(u,v,w)"),
                             lm, ("source", "(l,m)"),
                             frequency, ("chan",),
-                            flags, ("row", "chan", "corr"),
+                            flags, ("row", "chan", "flag-corr"),
                             adjust_chunks={"row": 1},
                             convention=convention,
                             dtype=dtype,
-- 
2.43.0


From 0d0871f47787456fa9c558f5cc22c64588299c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:22 +0000
Subject: [PATCH 37/85] fix: right ascensions beyond 90 degrees of the phase
 centre

---
 africanus/coordinates/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/coordinates/coordinates.py b/africanus/coordinates/coordinates.py
index c2b1273..accd9a4 100644
--- a/africanus/coordinates/coordinates.py
+++ b/africanus/coordinates/coordinates.py
@@ -124,7 +124,7 @@ def lmn_to_radec(lmn, phase_centre=None):
             l, m, n = lmn[s]
 
             radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
-            radec[s, 0] = pc_ra + np.arctan(l / (n*cos_pc_dec - m*sin_pc_dec))
+            radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
 
@@ -155,7 +155,7 @@ def lm_to_radec(lm, phase_centre=None):
             n = np.sqrt(1.0 - l**2 - m**2)
 
             radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
-            radec[s, 0] = pc_ra + np.arctan(l / (n*cos_pc_dec - m*sin_pc_dec))
+            radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
 
-- 
2.43.0


From 1e290c8972d675a9db7a26d4af889f1150b8662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:22 +0000
Subject: [PATCH 38/85] fix: positions at the poles convert to finite
 declinations

---
 africanus/coordinates/coordinates.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/africanus/coordinates/coordinates.py b/africanus/coordinates/coordinates.py
index accd9a4..33fd1c1 100644
--- a/africanus/coordinates/coordinates.py
+++ b/africanus/coordinates/coordinates.py
@@ -123,7 +123,9 @@ def lmn_to_radec(lmn, phase_centre=None):
         for s in range(radec.shape[0]):
             l, m, n = lmn[s]
 
-            radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
+            # Rounding may take this just outside [-1, 1] near the poles
+            sin_dec = m*cos_pc_dec + n*sin_pc_dec
+            radec[s, 1] = np.arcsin(min(max(sin_dec, -1.0), 1.0))
             radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
@@ -154,7 +156,9 @@ def lm_to_radec(lm, phase_centre=None):
             l, m = lm[s]
             n = np.sqrt(1.0 - l**2 - m**2)
 
-            radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
+            # Rounding may take this just outside [-1, 1] near the poles
+            sin_dec = m*cos_pc_dec + n*sin_pc_dec
+            radec[s, 1] = np.arcsin(min(max(sin_dec, -1.0), 1.0))
             radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
-- 
2.43.0


From a79f3cf606d7d80c45a80c3c5c97458f3fa8310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:23 +0000
Subject: [PATCH 39/85] fix: calibration leaves the caller's time bins
 unchanged

---
 africanus/calibration/phase_only/phase_only.py         | 6 +++---
 africanus/calibration/utils/compute_and_corrupt_vis.py | 2 +-
 africanus/calibration/utils/correct_vis.py             | 2 +-
 africanus/calibration/utils/corrupt_vis.py             | 2 +-
 africanus/calibration/utils/residual_vis.py            | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index 8668de1..c4063bc 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -36,7 +36,7 @@ def compute_jhj_and_jhr(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, residual, model, flag):
         # for chunked dask arrays we need to adjust the chunks to
         # start counting from zero (see also map_blocks)
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -82,7 +82,7 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, model, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -122,7 +122,7 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, residual, model, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
diff --git a/africanus/calibration/utils/compute_and_corrupt_vis.py b/africanus/calibration/utils/compute_and_corrupt_vis.py
index 85496c5..593779b 100644
--- a/africanus/calibration/utils/compute_and_corrupt_vis.py
+++ b/africanus/calibration/utils/compute_and_corrupt_vis.py
@@ -85,7 +85,7 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                                     uvw, freq, lm):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         model_shape = np.shape(model)
         vis_shape = (antenna1.shape[0],) + (freq.shape[0],) + model.shape[3:]
diff --git a/africanus/calibration/utils/correct_vis.py b/africanus/calibration/utils/correct_vis.py
index d629ae2..935b74b 100644
--- a/africanus/calibration/utils/correct_vis.py
+++ b/africanus/calibration/utils/correct_vis.py
@@ -77,7 +77,7 @@ def correct_vis(time_bin_indices, time_bin_counts,
                         antenna1, antenna2, jones, vis, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_dir = jones_shape[3]
diff --git a/africanus/calibration/utils/corrupt_vis.py b/africanus/calibration/utils/corrupt_vis.py
index 22b15ab..e1e31f0 100644
--- a/africanus/calibration/utils/corrupt_vis.py
+++ b/africanus/calibration/utils/corrupt_vis.py
@@ -67,7 +67,7 @@ def corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, model):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         model_shape = np.shape(model)
         vis_shape = model.shape[:2] + model.shape[3:]
diff --git a/africanus/calibration/utils/residual_vis.py b/africanus/calibration/utils/residual_vis.py
index d0e9812..3528bd6 100644
--- a/africanus/calibration/utils/residual_vis.py
+++ b/africanus/calibration/utils/residual_vis.py
@@ -71,7 +71,7 @@ def residual_vis(time_bin_indices, time_bin_counts, antenna1,
                          antenna2, jones, vis, flag, model):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         vis_shape = np.shape(vis)
         n_chan = vis_shape[1]
-- 
2.43.0


From 775072124101966f9de701147a669f2f762527eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:23 +0000
Subject: [PATCH 40/85] fix: chunked on-the-fly corruption declares the type it
 returns

---
 africanus/calibration/utils/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/calibration/utils/dask.py b/africanus/calibration/utils/dask.py
index 4c2655d..8d1598c 100644
--- a/africanus/calibration/utils/dask.py
+++ b/africanus/calibration/utils/dask.py
@@ -128,7 +128,7 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts,
                      lm, ("row", "dir", "two"),
                      adjust_chunks={"row": antenna1.chunks[0]},
                      new_axes={"corr2": 2},
-                     dtype=model.dtype,
+                     dtype=jones.dtype,
                      align_arrays=False)
 
 
-- 
2.43.0


From 8fe2ebf39067ecb24760bd3df8fd13417872661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:56 +0000
Subject: [PATCH 41/85] fix: flags discard samples in all correlation chunks of
 chunked calibration

---
 africanus/calibration/utils/dask.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/africanus/calibration/utils/dask.py b/africanus/calibration/utils/dask.py
index 8d1598c..cb3750d 100644
--- a/africanus/calibration/utils/dask.py
+++ b/africanus/calibration/utils/dask.py
@@ -15,13 +15,22 @@ from africanus.calibration.utils.utils import DIAG_DIAG, DIAG, FULL
 from africanus.util.requirements import requires_optional
 
 try:
-    from dask.array.core import blockwise
+    from dask.array.core import blockwise, broadcast_to
 except ImportError as e:
     dask_import_error = e
 else:
     dask_import_error = None
 
 
+def _flag_all_corrs(flag):
+    """
+    A flag on any correlation flags the others too,
+    even if they are in other chunks
+    """
+    any_flag = flag.any(axis=2, keepdims=True)
+    return broadcast_to(any_flag, flag.shape, chunks=flag.chunks)
+
+
 def _corrupt_vis_wrapper(time_bin_indices, time_bin_counts, antenna1,
                          antenna2, jones, model):
     return np_corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
@@ -150,6 +159,7 @@ def correct_vis(time_bin_indices, time_bin_counts, antenna1,
     mode = check_type(jones, vis)
 
     if mode == DIAG_DIAG:
+        flag = _flag_all_corrs(flag)
         out_shape = ("row", "chan", "corr1")
         jones_shape = ("row", "ant", "chan", "dir", "corr1")
     elif mode == DIAG:
@@ -197,6 +207,7 @@ def residual_vis(time_bin_indices, time_bin_counts, antenna1,
     mode = check_type(jones, vis)
 
     if mode == DIAG_DIAG:
+        flag = _flag_all_corrs(flag)
         out_shape = ("row", "chan", "corr1")
         model_shape = ("row", "chan", "dir", "corr1")
         jones_shape = ("row", "ant", "chan", "dir", "corr1")
-- 
2.43.0


From 0e5d6abeb751960f40ba4d37d8d03e060b663c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:03 +0000
Subject: [PATCH 42/85] fix: chunked normal equations declare the chunks and
 types they return

---
 africanus/calibration/phase_only/dask.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/africanus/calibration/phase_only/dask.py b/africanus/calibration/phase_only/dask.py
index c1281be..1747b65 100644
--- a/africanus/calibration/phase_only/dask.py
+++ b/africanus/calibration/phase_only/dask.py
@@ -35,9 +35,9 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                      jones, jones_shape,
                      model, model_shape,
                      flag, vis_shape,
-                     adjust_chunks={"row": antenna1.chunks[0]},
+                     adjust_chunks={"row": jones.chunks[0]},
                      new_axes={"corr2": 2},  # why?
-                     dtype=model.dtype,
+                     dtype=jones.real.dtype,
                      align_arrays=False)
 
 
@@ -62,9 +62,9 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                      residual, vis_shape,
                      model, model_shape,
                      flag, vis_shape,
-                     adjust_chunks={"row": antenna1.chunks[0]},
+                     adjust_chunks={"row": jones.chunks[0]},
                      new_axes={"corr2": 2},  # why?
-                     dtype=model.dtype,
+                     dtype=jones.dtype,
                      align_arrays=False)
 
 
-- 
2.43.0


From 921dca92e06b487261c985c09b9a996e1e2a9ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:03 +0000
Subject: [PATCH 43/85] fix: flags discard samples in all correlation chunks of
 chunked normal equations

---
 africanus/calibration/phase_only/dask.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/africanus/calibration/phase_only/dask.py b/africanus/calibration/phase_only/dask.py
index 1747b65..d970e43 100644
--- a/africanus/calibration/phase_only/dask.py
+++ b/africanus/calibration/phase_only/dask.py
@@ -3,6 +3,7 @@
 from africanus.calibration.phase_only.phase_only import COMPUTE_JHJ_DOCS
 from africanus.calibration.phase_only.phase_only import COMPUTE_JHR_DOCS
 from africanus.calibration.utils import check_type
+from africanus.calibration.utils.dask import _flag_all_corrs
 from africanus.calibration.phase_only import compute_jhj as np_compute_jhj
 from africanus.calibration.phase_only import compute_jhr as np_compute_jhr
 from africanus.util.requirements import requires_optional
@@ -24,6 +25,7 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
     if mode != DIAG_DIAG:
         raise NotImplementedError("Only DIAG-DIAG case has been implemented")
 
+    flag = _flag_all_corrs(flag)
     jones_shape = ('row', 'ant', 'chan', 'dir', 'corr')
     vis_shape = ('row', 'chan', 'corr')
     model_shape = ('row', 'chan', 'dir', 'corr')
@@ -50,6 +52,7 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
     if mode != DIAG_DIAG:
         raise NotImplementedError("Only DIAG-DIAG case has been implemented")
 
+    flag = _flag_all_corrs(flag)
     jones_shape = ('row', 'ant', 'chan', 'dir', 'corr')
     vis_shape = ('row', 'chan', 'corr')
     model_shape = ('row', 'chan', 'dir', 'corr')
-- 
2.43.0


From 74f01115274e0395929b325983bf29471860088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:03 +0000
Subject: [PATCH 44/85] fix: chunked normal equations reject gains chunked over
 antenna

---
 africanus/calibration/phase_only/dask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/africanus/calibration/phase_only/dask.py b/africanus/calibration/phase_only/dask.py
index d970e43..22cb380 100644
--- a/africanus/calibration/phase_only/dask.py
+++ b/africanus/calibration/phase_only/dask.py
@@ -24,6 +24,8 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
 
     if mode != DIAG_DIAG:
         raise NotImplementedError("Only DIAG-DIAG case has been implemented")
+    if jones.chunks[1][0] != jones.shape[1]:
+        raise ValueError("Cannot chunk jones over antenna")
 
     flag = _flag_all_corrs(flag)
     jones_shape = ('row', 'ant', 'chan', 'dir', 'corr')
@@ -51,6 +53,8 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
 
     if mode != DIAG_DIAG:
         raise NotImplementedError("Only DIAG-DIAG case has been implemented")
+    if jones.chunks[1][0] != jones.shape[1]:
+        raise ValueError("Cannot chunk jones over antenna")
 
     flag = _flag_all_corrs(flag)
     jones_shape = ('row', 'ant', 'chan', 'dir', 'corr')
-- 
2.43.0


From 0a3fb0730370a63942d4a22b2fb4f14e355becc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:03 +0000
Subject: [PATCH 45/85] fix: phase-only calibration leaves the caller's data
 unchanged

---
 africanus/calibration/phase_only/phase_only.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index c4063bc..21c890a 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -159,8 +159,8 @@ def gauss_newton(time_bin_indices, time_bin_counts, antenna1,
 
     # whiten data
     sqrtweights = np.sqrt(weight)
-    vis *= sqrtweights
-    model *= sqrtweights[:, :, None]
+    vis = vis * sqrtweights
+    model = model * sqrtweights[:, :, None]
 
     mode = check_type(jones, vis)
 
-- 
2.43.0


From a8dc8be68fca335d4808fff3900f512cc4ff2f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:03 +0000
Subject: [PATCH 46/85] fix: phase-only calibration accepts weights without
 channels as documented

---
 africanus/calibration/phase_only/phase_only.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index 21c890a..2f4047f 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -159,6 +159,9 @@ def gauss_newton(time_bin_indices, time_bin_counts, antenna1,
 
     # whiten data
     sqrtweights = np.sqrt(weight)
+    if sqrtweights.ndim < vis.ndim:
+        # duplicate weights for each channel
+        sqrtweights = sqrtweights[:, None]
     vis = vis * sqrtweights
     model = model * sqrtweights[:, :, None]
 
-- 
2.43.0


From 333d98898fd6d9d4fdeae4353c4698ff2fa00ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:03 +0000
Subject: [PATCH 47/85] fix: antennas without data do not stop phase-only
 calibration

---
 africanus/calibration/phase_only/phase_only.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index 2f4047f..8fb6d29 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -188,8 +188,10 @@ def gauss_newton(time_bin_indices, time_bin_counts, antenna1,
                           antenna1, antenna2,
                           jones, residual, model, flag)
 
-        # implement update
-        phases_new = phases + 0.5 * (jhr/jhj).real
+        # implement update, gains without any unflagged data stay put
+        step = np.divide(jhr.real, jhj, out=np.zeros_like(jhj),
+                         where=jhj != 0)
+        phases_new = phases + 0.5 * step
         jones = np.exp(1.0j * phases_new)
 
         # check convergence/iteration control
-- 
2.43.0


From a532dd03de82fa9f003f8627b8d8d0c184321514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:23 +0000
Subject: [PATCH 48/85] fix: chunked normal equations can be used in larger
 graphs

---
 africanus/calibration/phase_only/dask.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/africanus/calibration/phase_only/dask.py b/africanus/calibration/phase_only/dask.py
index 22cb380..895a99c 100644
--- a/africanus/calibration/phase_only/dask.py
+++ b/africanus/calibration/phase_only/dask.py
@@ -40,7 +40,6 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                      model, model_shape,
                      flag, vis_shape,
                      adjust_chunks={"row": jones.chunks[0]},
-                     new_axes={"corr2": 2},  # why?
                      dtype=jones.real.dtype,
                      align_arrays=False)
 
@@ -70,7 +69,6 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                      model, model_shape,
                      flag, vis_shape,
                      adjust_chunks={"row": jones.chunks[0]},
-                     new_axes={"corr2": 2},  # why?
                      dtype=jones.dtype,
                      align_arrays=False)
 
-- 
2.43.0


From 87acee04bec7c47ac50fe4e85343d2a0d4798961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:46 +0000
Subject: [PATCH 49/85] fix: chunked diagonal calibration can be used in larger
 graphs

---
 africanus/calibration/utils/dask.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/africanus/calibration/utils/dask.py b/africanus/calibration/utils/dask.py
index cb3750d..cc0d73f 100644
--- a/africanus/calibration/utils/dask.py
+++ b/africanus/calibration/utils/dask.py
@@ -75,7 +75,7 @@ def corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                      jones, jones_shape,
                      model, model_shape,
                      adjust_chunks={"row": antenna1.chunks[0]},
-                     new_axes={"corr2": 2},
+                     new_axes={"corr2": 2} if "corr2" in out_shape else None,
                      dtype=model.dtype,
                      align_arrays=False)
 
@@ -136,7 +136,7 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts,
                      freq, ("chan",),
                      lm, ("row", "dir", "two"),
                      adjust_chunks={"row": antenna1.chunks[0]},
-                     new_axes={"corr2": 2},
+                     new_axes={"corr2": 2} if "corr2" in out_shape else None,
                      dtype=jones.dtype,
                      align_arrays=False)
 
@@ -182,7 +182,7 @@ def correct_vis(time_bin_indices, time_bin_counts, antenna1,
                      vis, out_shape,
                      flag, out_shape,
                      adjust_chunks={"row": antenna1.chunks[0]},
-                     new_axes={"corr2": 2},
+                     new_axes={"corr2": 2} if "corr2" in out_shape else None,
                      dtype=vis.dtype,
                      align_arrays=False)
 
@@ -234,7 +234,7 @@ def residual_vis(time_bin_indices, time_bin_counts, antenna1,
                      flag, out_shape,
                      model, model_shape,
                      adjust_chunks={"row": antenna1.chunks[0]},
-                     new_axes={"corr2": 2},
+                     new_axes={"corr2": 2} if "corr2" in out_shape else None,
                      dtype=vis.dtype,
                      align_arrays=False)
 
-- 
2.43.0


From a2a0f76129653ae93fc6d0127fe715194dbbf4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:21 +0000
Subject: [PATCH 50/85] fix: spectral models accept the default base

---
 africanus/model/spectral/spec_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/model/spectral/spec_model.py b/africanus/model/spectral/spec_model.py
index 07e7454..2964c2a 100644
--- a/africanus/model/spectral/spec_model.py
+++ b/africanus/model/spectral/spec_model.py
@@ -107,7 +107,8 @@ def spectral_model(stokes, spi, ref_freq, frequency, base=0):
 
     promote_base = promote_base_factory(is_base_list)
 
-    if isinstance(base, types.scalars.Integer):
+    # the default base is an integer
+    if isinstance(base, (types.scalars.Integer, types.misc.Omitted)):
         def is_std(base):
             return base == 0
 
-- 
2.43.0


From 56e971d817776a62abce92d3f69d9809723318c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:53 +0000
Subject: [PATCH 51/85] fix: reject chunked polarisations with a base for each
 polarisation

---
 africanus/model/spectral/dask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/africanus/model/spectral/dask.py b/africanus/model/spectral/dask.py
index 080f36a..2cb5d8e 100644
--- a/africanus/model/spectral/dask.py
+++ b/africanus/model/spectral/dask.py
@@ -25,6 +25,10 @@ def spectral_model(stokes, spi, ref_freq, frequencies, base=0):
 
     pol_dim = () if stokes.ndim == 1 else ("pol",)
 
+    if isinstance(base, list) and pol_dim and len(stokes.chunks[1]) != 1:
+        raise ValueError("Chunking along the pol dimension unsupported "
+                         "if a base is given for each polarisation")
+
     return da.blockwise(_wrapper, ("source", "chan",) + pol_dim,
                         stokes, ("source",) + pol_dim,
                         spi, ("source", "spi") + pol_dim,
-- 
2.43.0


From dea0638fcb577b86a89d9fedc20d36cddad3992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:53 +0000
Subject: [PATCH 52/85] fix: chunked spectra declare the type they return

---
 africanus/model/spectral/dask.py | 5 ++++-
 africanus/model/wsclean/dask.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/africanus/model/spectral/dask.py b/africanus/model/spectral/dask.py
index 2cb5d8e..c3f12b8 100644
--- a/africanus/model/spectral/dask.py
+++ b/africanus/model/spectral/dask.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 
+import numpy as np
+
 from africanus.model.spectral.spec_model import (
                                         spectral_model as np_spectral_model,
                                         SPECTRAL_MODEL_DOC)
@@ -35,7 +37,8 @@ def spectral_model(stokes, spi, ref_freq, frequencies, base=0):
                         ref_freq, ("source",),
                         frequencies, ("chan",),
                         base=base,
-                        dtype=stokes.dtype)
+                        dtype=np.result_type(stokes, spi,
+                                             ref_freq, frequencies))
 
 
 try:
diff --git a/africanus/model/wsclean/dask.py b/africanus/model/wsclean/dask.py
index f4c223a..73599e5 100644
--- a/africanus/model/wsclean/dask.py
+++ b/africanus/model/wsclean/dask.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 
+import numpy as np
+
 from africanus.model.wsclean.spec_model import (spectra as np_spectra,
                                                 SPECTRA_DOCS)
 from africanus.util.requirements import requires_optional
@@ -28,7 +30,8 @@ def spectra(stokes, spi, log_si, ref_freq, frequency):
                         log_si, log_si_schema,
                         ref_freq, ("source",),
                         frequency, ("chan",),
-                        dtype=stokes.dtype)
+                        dtype=np.result_type(stokes, spi,
+                                             ref_freq, frequency))
 
 
 try:
-- 
2.43.0


From 883aef9747f8ccac0699c4f06aa4d282526395ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:10 +0000
Subject: [PATCH 53/85] fix: spectral index fits use all channel chunks

---
 africanus/model/spi/dask.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/africanus/model/spi/dask.py b/africanus/model/spi/dask.py
index 55bd194..bd213d4 100644
--- a/africanus/model/spi/dask.py
+++ b/africanus/model/spi/dask.py
@@ -17,13 +17,13 @@ else:
 
 def _fit_spi_components_wrapper(data, weights, freqs, freq0,
                                 alphai, I0i, beam, tol, maxiter):
-    return np_fit_spi_components(data[0],
-                                 weights[0],
-                                 freqs[0],
+    return np_fit_spi_components(data,
+                                 weights,
+                                 freqs,
                                  freq0,
                                  alphai,
                                  I0i,
-                                 beam[0] if beam is not None else beam,
+                                 beam,
                                  tol=tol,
                                  maxiter=maxiter)
 
@@ -44,6 +44,7 @@ def fit_spi_components(data, weights, freqs, freq0,
                      tol, None,
                      maxiter, None,
                      new_axes={"vars": 4},
+                     concatenate=True,
                      dtype=data.dtype)
 
 
-- 
2.43.0


From 485c5c1937259fd50155d8c060153998aacdafb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:10 +0000
Subject: [PATCH 54/85] fix: errors in component lists name the offending line

---
 africanus/model/wsclean/file_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/model/wsclean/file_model.py b/africanus/model/wsclean/file_model.py
index 74a70c7..c57254f 100644
--- a/africanus/model/wsclean/file_model.py
+++ b/africanus/model/wsclean/file_model.py
@@ -109,7 +109,7 @@ def _parse_header(header):
 def _parse_lines(fh, line_nr, column_names, defaults, converters):
     source_data = [[] for _ in range(len(column_names))]
 
-    for line_nr, line in enumerate(fh, line_nr):
+    for line_nr, line in enumerate(fh, line_nr + 1):
         components = [c.strip() for c in re.split(_COMMA_SPLIT_RE, line)]
 
         if len(components) != len(column_names):
-- 
2.43.0


From b3ac4ba376c4b26881b2a1e81dda9355795c5fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:10 +0000
Subject: [PATCH 55/85] fix: component lists are returned as the documented
 list

---
 africanus/model/wsclean/file_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/model/wsclean/file_model.py b/africanus/model/wsclean/file_model.py
index c57254f..53989b3 100644
--- a/africanus/model/wsclean/file_model.py
+++ b/africanus/model/wsclean/file_model.py
@@ -138,7 +138,7 @@ def _parse_lines(fh, line_nr, column_names, defaults, converters):
 
             data_list.append(conv(value))
 
-    return zip(*(column_names, source_data))
+    return list(zip(column_names, source_data))
 
 
 def load(filename):
-- 
2.43.0


From 145df64f101d18a71adc11c2cfd4e5864fa832b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:12 +0000
Subject: [PATCH 56/85] fix: baselines are rotated with their own w coordinate

---
 .../policies/baseline_transform_policies.py                | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
index e09b9cc..e7d10fc 100644
--- a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
+++ b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
@@ -44,9 +44,10 @@ def uvw_rotate(uvw, ra0, dec0, ra, dec, policy_type):
     mat_31 = c_new_dec * s_d_ra
     mat_32 = -c_new_dec * s_old_dec * c_d_ra + s_new_dec * c_old_dec
     mat_33 = c_new_dec * c_old_dec * c_d_ra + s_new_dec * s_old_dec
-    uvw[0] = mat_11 * uvw[0] + mat_12 * uvw[1] + mat_13 * uvw[3]
-    uvw[1] = mat_21 * uvw[0] + mat_22 * uvw[1] + mat_23 * uvw[3]
-    uvw[2] = mat_31 * uvw[0] + mat_32 * uvw[1] + mat_33 * uvw[3]
+    u, v, w = uvw[0], uvw[1], uvw[2]
+    uvw[0] = mat_11 * u + mat_12 * v + mat_13 * w
+    uvw[1] = mat_21 * u + mat_22 * v + mat_23 * w
+    uvw[2] = mat_31 * u + mat_32 * v + mat_33 * w
 
 
 @jit(nopython=True, nogil=True, fastmath=True, parallel=False)
-- 
2.43.0


From 0407f46e9d103138a53185668444fc48f196c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:13 +0000
Subject: [PATCH 57/85] fix: nearest neighbour gridding stays inside the grid

---
 .../perleypolyhedron/policies/convolution_policies.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/policies/convolution_policies.py b/africanus/gridding/perleypolyhedron/policies/convolution_policies.py
index b0308a9..0f6f050 100644
--- a/africanus/gridding/perleypolyhedron/policies/convolution_policies.py
+++ b/africanus/gridding/perleypolyhedron/policies/convolution_policies.py
@@ -139,9 +139,10 @@ def convolve_nn_scatter(scaled_u, scaled_v, scaled_w, npix, grid, vis, r, c,
     disc_u = int(np.round(offset_u))
     disc_v = int(np.round(offset_v))
     cw = 1.0
-    grid[disc_v, disc_u] += \
-        scp.corr2stokes(vis[r, c, :],
-                        stokes_conversion_policy)
+    if disc_v >= 0 and disc_v < npix and disc_u >= 0 and disc_u < npix:
+        grid[disc_v, disc_u] += \
+            scp.corr2stokes(vis[r, c, :],
+                            stokes_conversion_policy)
     return cw
 
 
-- 
2.43.0


From e2f63abd0ba34965aec37341719e59e42ae70236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:13 +0000
Subject: [PATCH 58/85] fix: faceted gridding leaves the caller's data
 unchanged

---
 .../gridding/perleypolyhedron/gridder.py      | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/gridder.py b/africanus/gridding/perleypolyhedron/gridder.py
index 0acbeef..773d913 100644
--- a/africanus/gridding/perleypolyhedron/gridder.py
+++ b/africanus/gridding/perleypolyhedron/gridder.py
@@ -80,8 +80,11 @@ def gridder(uvw,
     for r in range(nrow):
         ra0, dec0 = phase_centre
         ra, dec = image_centre
-        ptp.policy(vis[r, :, :],
-                   uvw[r, :],
+        # the policies transform these in place
+        row_uvw = uvw[r, :].astype(np.float64)
+        row_vis = vis[r:r + 1, :, :].copy()
+        ptp.policy(row_vis[0, :, :],
+                   row_uvw,
                    wavelengths,
                    ra0,
                    dec0,
@@ -89,12 +92,12 @@ def gridder(uvw,
                    dec,
                    policy_type=literally(phase_transform_policy),
                    phasesign=1.0)
-        btp.policy(uvw[r, :], ra0, dec0, ra, dec,
+        btp.policy(row_uvw, ra0, dec0, ra, dec,
                    literally(baseline_transform_policy))
         for c in range(nvischan):
-            scaled_u = uvw[r, 0] * scale_factor / wavelengths[c]
-            scaled_v = uvw[r, 1] * scale_factor / wavelengths[c]
-            scaled_w = uvw[r, 2] * scale_factor / wavelengths[c]
+            scaled_u = row_uvw[0] * scale_factor / wavelengths[c]
+            scaled_v = row_uvw[1] * scale_factor / wavelengths[c]
+            scaled_w = row_uvw[2] * scale_factor / wavelengths[c]
             grid = gridstack[chanmap[c], :, :]
             wt_ch[chanmap[c]] += cp.policy(
                 scaled_u,
@@ -102,8 +105,8 @@ def gridder(uvw,
                 scaled_w,
                 npix,
                 grid,
-                vis,
-                r,
+                row_vis,
+                0,
                 c,
                 convolution_kernel,
                 convolution_kernel_width,
-- 
2.43.0


From a9f91bb6a6ce165a19c6934da24bf7f82142e328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:13 +0000
Subject: [PATCH 59/85] fix: faceted degridding inverts the transforms of the
 gridder

---
 africanus/gridding/perleypolyhedron/degridder.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/degridder.py b/africanus/gridding/perleypolyhedron/degridder.py
index d8d35cb..e27fdf8 100644
--- a/africanus/gridding/perleypolyhedron/degridder.py
+++ b/africanus/gridding/perleypolyhedron/degridder.py
@@ -38,12 +38,15 @@ def degridder_row_kernel(uvw,
                          r=0):
     ra0, dec0 = phase_centre
     ra, dec = image_centre
-    btp.policy(uvw[r, :], ra, dec, ra0, dec0,
+    # the grid is sampled at the coordinates the gridder uses,
+    # while the phase term is defined in terms of the data's coordinates
+    row_uvw = uvw[r, :].astype(np.float64)
+    btp.policy(row_uvw, ra0, dec0, ra, dec,
                baseline_transform_policy)
     for c in range(nvischan):
-        scaled_u = uvw[r, 0] * scale_factor / wavelengths[c]
-        scaled_v = uvw[r, 1] * scale_factor / wavelengths[c]
-        scaled_w = uvw[r, 2] * scale_factor / wavelengths[c]
+        scaled_u = row_uvw[0] * scale_factor / wavelengths[c]
+        scaled_v = row_uvw[1] * scale_factor / wavelengths[c]
+        scaled_w = row_uvw[2] * scale_factor / wavelengths[c]
         grid = gridstack[chanmap[c], :, :]
         cp.policy(scaled_u,
                   scaled_v,
-- 
2.43.0


From e88b1a0e114de11dc8ff4f708c7d525fa61651ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:36 +0000
Subject: [PATCH 60/85] fix: chunked degridding sums all facets at their own
 centres

---
 africanus/gridding/perleypolyhedron/dask.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index 52a3116..3fe73df 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -34,7 +34,6 @@ def __degrid(uvw,
              convolution_policy=None,
              vis_dtype=np.complex128,
              rowparallel=False):
-    image_centres = image_centres[0][0]
     if image_centres.ndim != 2:
         raise ValueError(
             "Image centres for DASK wrapper expects list of image centres, "
@@ -42,10 +41,8 @@ def __degrid(uvw,
         )
     if image_centres.shape[1] != 2:
         raise ValueError("Image centre must be a list of tuples")
-    uvw = uvw[0]
     if uvw.ndim != 2 or uvw.shape[1] != 3:
         raise ValueError("UVW array must be nrow x 3")
-    gridstack = gridstack[0][0][0][0]
     if gridstack.ndim != 4:
         raise ValueError("Gridstack must be nfacet x nband x ny x nx")
     lambdas = lambdas
@@ -67,7 +64,7 @@ def __degrid(uvw,
                        lambdas,
                        chanmap,
                        cell,
-                       image_centres,
+                       f,
                        phase_centre,
                        convolution_kernel,
                        convolution_kernel_width,
@@ -163,6 +160,8 @@ def degridder(uvw,
         cell=cell,
         phase_centre=phase_centre,
         vis_dtype=vis_dtype,
+        rowparallel=rowparallel,
+        concatenate=True,
         new_axes={
             "corr":
             stokes_conversion_policies.ncorr_outpy(
-- 
2.43.0


From c92747d38a3a2b93c890b0e832f65b2df86b03cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:36 +0000
Subject: [PATCH 61/85] fix: chunked gridding uses all channel and correlation
 chunks

---
 africanus/gridding/perleypolyhedron/dask.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index 3fe73df..4654c53 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -192,7 +192,6 @@ def __grid(uvw,
            phase_centre=None,
            grid_dtype=np.complex128,
            do_normalize=False):
-    image_centres = image_centres[0]
     if image_centres.ndim != 2:
         raise ValueError(
             "Image centres for DASK wrapper expects list of image "
@@ -201,10 +200,6 @@ def __grid(uvw,
     if image_centres.shape[1] != 2:
         raise ValueError("Image centre must be a list of tuples")
 
-    uvw = uvw[0]
-    vis = vis[0][0]
-    lambdas = lambdas[0]
-    chanmap = chanmap[0]
     grid_stack = np.zeros(
         (1, image_centres.shape[0], 1, np.max(chanmap) + 1, npix, npix),
         dtype=grid_dtype)
@@ -299,10 +294,11 @@ def gridder(uvw,
         phase_centre=phase_centre,
         grid_dtype=grid_dtype,
         do_normalize=do_normalize,
+        concatenate=True,
         # goes to one set of grids per row chunk
         adjust_chunks={"row": 1},
         new_axes={
-            "nband": np.max(chanmap) + 1,
+            "nband": int(np.max(chanmap)) + 1,
             # for now will need to be modified if
             # multi-stokes cubes are supported
             "nstokes": 1,
-- 
2.43.0


From bb22038017bf2d061681c00c5382487cf1c347b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:29 +0000
Subject: [PATCH 62/85] fix: chunked gridding does not depend on the row chunks

---
 africanus/gridding/perleypolyhedron/dask.py   |  39 ++++--
 .../gridding/perleypolyhedron/gridder.py      | 131 ++++++++++++------
 2 files changed, 113 insertions(+), 57 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index 4654c53..df664af 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -1,3 +1,5 @@
+from operator import getitem
+
 import numpy as np
 
 try:
@@ -8,7 +10,7 @@ else:
     opt_import_err = None
 
 from africanus.gridding.perleypolyhedron.gridder import (
-    gridder as np_gridder)
+    gridder_with_weights as np_gridder)
 from africanus.gridding.perleypolyhedron.degridder import (
     degridder as np_degridder)
 from africanus.gridding.perleypolyhedron.degridder import (
@@ -190,8 +192,7 @@ def __grid(uvw,
            npix=None,
            cell=None,
            phase_centre=None,
-           grid_dtype=np.complex128,
-           do_normalize=False):
+           grid_dtype=np.complex128):
     if image_centres.ndim != 2:
         raise ValueError(
             "Image centres for DASK wrapper expects list of image "
@@ -203,15 +204,16 @@ def __grid(uvw,
     grid_stack = np.zeros(
         (1, image_centres.shape[0], 1, np.max(chanmap) + 1, npix, npix),
         dtype=grid_dtype)
+    weights = np.zeros(grid_stack.shape[:4] + (1, 1), dtype=np.float64)
     for fi, f in enumerate(image_centres):
-        grid_stack[0, fi, 0, :, :, :] = \
+        grid_stack[0, fi, 0, :, :, :], weights[0, fi, 0, :, 0, 0] = \
             np_gridder(uvw, vis, lambdas, chanmap, npix, cell, f, phase_centre,
                        convolution_kernel, convolution_kernel_width,
                        convolution_kernel_oversampling,
                        baseline_transform_policy, phase_transform_policy,
                        stokes_conversion_policy,
-                       convolution_policy, grid_dtype, do_normalize)
-    return grid_stack
+                       convolution_policy, grid_dtype)
+    return grid_stack, weights
 
 
 @requires_optional("dask", opt_import_err)
@@ -275,8 +277,9 @@ def gridder(uvw,
             uvw.chunks) != 2 or vis.chunks[0] != uvw.chunks[0]:
         raise ValueError(
             "Visibility row chunking does not match uvw row chunking")
-    grids = da.blockwise(
-        __grid, ("row", "nfacet", "nstokes", "nband", "y", "x"),
+    dims = ("row", "nfacet", "nstokes", "nband", "y", "x")
+    grids_and_weights = da.blockwise(
+        __grid, dims,
         uvw, ("row", "uvw"),
         vis, ("row", "chan", "corr"),
         image_centres, ("nfacet", "coord"),
@@ -293,7 +296,6 @@ def gridder(uvw,
         cell=cell,
         phase_centre=phase_centre,
         grid_dtype=grid_dtype,
-        do_normalize=do_normalize,
         concatenate=True,
         # goes to one set of grids per row chunk
         adjust_chunks={"row": 1},
@@ -305,8 +307,21 @@ def gridder(uvw,
             "y": npix,
             "x": npix
         },
-        dtype=grid_dtype,
-        meta=np.empty((0, 0, 0, 0, 0, 0), dtype=grid_dtype))
+        dtype=object,
+        meta=np.empty((0, 0, 0, 0, 0, 0), dtype=object))
 
     # Parallel reduction over row dimension
-    return grids.mean(axis=0, split_every=2)
+    grids = da.blockwise(
+        getitem, dims, grids_and_weights, dims, 0, None,
+        dtype=grid_dtype,
+        meta=np.empty((0, 0, 0, 0, 0, 0), dtype=grid_dtype)
+    ).sum(axis=0, split_every=2)
+    if not do_normalize:
+        return grids
+    weights = da.blockwise(
+        getitem, dims, grids_and_weights, dims, 1, None,
+        adjust_chunks={"y": 1, "x": 1},
+        dtype=np.float64,
+        meta=np.empty((0, 0, 0, 0, 0, 0), dtype=np.float64)
+    ).sum(axis=0, split_every=2)
+    return (grids / (weights + 1.0e-8)).astype(grid_dtype)
diff --git a/africanus/gridding/perleypolyhedron/gridder.py b/africanus/gridding/perleypolyhedron/gridder.py
index 773d913..fdc300f 100644
--- a/africanus/gridding/perleypolyhedron/gridder.py
+++ b/africanus/gridding/perleypolyhedron/gridder.py
@@ -11,51 +11,25 @@ from africanus.gridding.perleypolyhedron.policies import (
 
 
 @jit(nopython=True, nogil=True, fastmath=True, parallel=False)
-def gridder(uvw,
-            vis,
-            wavelengths,
-            chanmap,
-            npix,
-            cell,
-            image_centre,
-            phase_centre,
-            convolution_kernel,
-            convolution_kernel_width,
-            convolution_kernel_oversampling,
-            baseline_transform_policy,
-            phase_transform_policy,
-            stokes_conversion_policy,
-            convolution_policy,
-            grid_dtype=np.complex128,
-            do_normalize=False):
+def gridder_with_weights(uvw,
+                         vis,
+                         wavelengths,
+                         chanmap,
+                         npix,
+                         cell,
+                         image_centre,
+                         phase_centre,
+                         convolution_kernel,
+                         convolution_kernel_width,
+                         convolution_kernel_oversampling,
+                         baseline_transform_policy,
+                         phase_transform_policy,
+                         stokes_conversion_policy,
+                         convolution_policy,
+                         grid_dtype=np.complex128):
     """
-    2D Convolutional gridder, contiguous to discrete
-    @uvw: value coordinates, (nrow, 3)
-    @vis: complex data, (nrow, nchan, ncorr)
-    @wavelengths: wavelengths of data channels
-    @chanmap: MFS band mapping
-    @npix: number of pixels per axis
-    @cell: cell_size in degrees
-    @image_centre: new phase centre of image (radians, ra, dec)
-    @phase_centre: original phase centre of data (radians, ra, dec)
-    @convolution_kernel: packed kernel as generated by kernels package
-    @convolution_kernel_width: number of taps in kernel
-    @convolution_kernel_oversampling: number of oversampled points in kernel
-    @baseline_transform_policy: any accepted policy in
-                                .policies.baseline_transform_policies,
-                                can be used to tilt image planes for
-                                polyhedron faceting
-    @phase_transform_policy: any accepted policy in
-                             .policies.phase_transform_policies,
-                             can be used to facet at provided
-                             facet @image_centre
-    @stokes_conversion_policy: any accepted correlation to stokes
-                               conversion policy in
-                               .policies.stokes_conversion_policies
-    @convolution_policy: any accepted convolution policy in
-                         .policies.convolution_policies
-    @grid_dtype: accumulation grid dtype (default complex 128)
-    @do_normalize: normalize grid by convolution weights
+    Returns the grids of @gridder, not normalized, and the sums of the
+    convolution weights per band, (nband,)
     """
     if chanmap.size != wavelengths.size:
         raise ValueError(
@@ -113,7 +87,74 @@ def gridder(uvw,
                 convolution_kernel_oversampling,
                 literally(stokes_conversion_policy),
                 policy_type=literally(convolution_policy))
+    return gridstack, wt_ch
+
+
+@jit(nopython=True, nogil=True, fastmath=True, parallel=False)
+def gridder(uvw,
+            vis,
+            wavelengths,
+            chanmap,
+            npix,
+            cell,
+            image_centre,
+            phase_centre,
+            convolution_kernel,
+            convolution_kernel_width,
+            convolution_kernel_oversampling,
+            baseline_transform_policy,
+            phase_transform_policy,
+            stokes_conversion_policy,
+            convolution_policy,
+            grid_dtype=np.complex128,
+            do_normalize=False):
+    """
+    2D Convolutional gridder, contiguous to discrete
+    @uvw: value coordinates, (nrow, 3)
+    @vis: complex data, (nrow, nchan, ncorr)
+    @wavelengths: wavelengths of data channels
+    @chanmap: MFS band mapping
+    @npix: number of pixels per axis
+    @cell: cell_size in degrees
+    @image_centre: new phase centre of image (radians, ra, dec)
+    @phase_centre: original phase centre of data (radians, ra, dec)
+    @convolution_kernel: packed kernel as generated by kernels package
+    @convolution_kernel_width: number of taps in kernel
+    @convolution_kernel_oversampling: number of oversampled points in kernel
+    @baseline_transform_policy: any accepted policy in
+                                .policies.baseline_transform_policies,
+                                can be used to tilt image planes for
+                                polyhedron faceting
+    @phase_transform_policy: any accepted policy in
+                             .policies.phase_transform_policies,
+                             can be used to facet at provided
+                             facet @image_centre
+    @stokes_conversion_policy: any accepted correlation to stokes
+                               conversion policy in
+                               .policies.stokes_conversion_policies
+    @convolution_policy: any accepted convolution policy in
+                         .policies.convolution_policies
+    @grid_dtype: accumulation grid dtype (default complex 128)
+    @do_normalize: normalize grid by convolution weights
+    """
+    gridstack, wt_ch = gridder_with_weights(
+        uvw,
+        vis,
+        wavelengths,
+        chanmap,
+        npix,
+        cell,
+        image_centre,
+        phase_centre,
+        convolution_kernel,
+        convolution_kernel_width,
+        convolution_kernel_oversampling,
+        literally(baseline_transform_policy),
+        literally(phase_transform_policy),
+        literally(stokes_conversion_policy),
+        literally(convolution_policy),
+        grid_dtype)
     if do_normalize:
-        for c in range(nband):
+        for c in range(gridstack.shape[0]):
             gridstack[c, :, :] /= wt_ch[c] + 1.0e-8
     return gridstack
-- 
2.43.0


From 0102106ae4a3d0cb4ab4ae6dacedbcb211369bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:06 +0000
Subject: [PATCH 63/85] fix: streamed reductions report the number of their
 tasks

---
 africanus/rime/dask_predict.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index f8f5f30..1157bf9 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -157,16 +157,10 @@ class LinearReduction(Mapping):
         return iter(self._dict)
 
     def __len__(self):
-        return reduce(mul, self._out_numblocks().values(), 1)
-
-    def _out_numblocks(self):
-        d = {}
-        indices = {k: v for k, v in self.indices if v is not None}
-        for k, v in self.numblocks.items():
-            for a, b in zip(indices[k], v):
-                d[a] = max(d.get(a, 0), b)
-
-        return {k: v for k, v in d.items() if k in self.output_indices}
+        # One task for each reduction block of each output block
+        dim_blocks = db.broadcast_dimensions(self.indices, self.numblocks)
+        return reduce(mul, (dim_blocks[d] for d in
+                            (self.axis,) + self.output_indices), 1)
 
 
 def linear_reduction(time_index, antenna1, antenna2,
-- 
2.43.0


From c544137ecf2759700d05641490878bdbd83a0ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:06 +0000
Subject: [PATCH 64/85] fix: nifty gridding works with current numpy versions

---
 africanus/gridding/nifty/dask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/gridding/nifty/dask.py b/africanus/gridding/nifty/dask.py
index 675d77b..a3e0ba8 100644
--- a/africanus/gridding/nifty/dask.py
+++ b/africanus/gridding/nifty/dask.py
@@ -310,7 +310,7 @@ def grid(vis, uvw, flags, weights, frequencies, grid_config,
     baselines = da.blockwise(_nifty_baselines, ("row",),
                              uvw, ("row", "uvw"),
                              frequencies, ("chan",),
-                             dtype=np.object)
+                             dtype=object)
 
     if len(frequencies.chunks[0]) != 1:
         raise ValueError("Chunking in channel unsupported")
@@ -492,7 +492,7 @@ def degrid(grid, uvw, flags, weights, frequencies,
     baselines = da.blockwise(_nifty_baselines, ("row",),
                              uvw, ("row", "uvw"),
                              frequencies, ("chan",),
-                             dtype=np.object)
+                             dtype=object)
 
     gc = grid_config.object
     vis_chunks = []
-- 
2.43.0


From 737e3b7517aeaba2aaeb2cdfa6c4a468bd9055c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:06 +0000
Subject: [PATCH 65/85] fix: nifty gridding rejects chunks it would ignore

---
 africanus/gridding/nifty/dask.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/africanus/gridding/nifty/dask.py b/africanus/gridding/nifty/dask.py
index a3e0ba8..c1c0746 100644
--- a/africanus/gridding/nifty/dask.py
+++ b/africanus/gridding/nifty/dask.py
@@ -267,6 +267,20 @@ class FinalGridReduction(Mapping):
         return layers
 
 
+def _check_chunks(uvw, frequencies, *arrays):
+    """ Each row chunk is processed with the same chunks of all arrays """
+    if len(frequencies.chunks[0]) != 1:
+        raise ValueError("Chunking in channel currently unsupported")
+
+    for array in arrays:
+        if len(array.chunks[1]) != 1:
+            raise ValueError("Chunking in channel currently unsupported")
+
+        if array.chunks[0] != uvw.chunks[0]:
+            raise ValueError("Row chunks %s do not match uvw row chunks %s"
+                             % (array.chunks[0], uvw.chunks[0]))
+
+
 @requires_optional("dask.array", import_error)
 @requires_optional("nifty_gridder", nifty_import_err)
 def grid(vis, uvw, flags, weights, frequencies, grid_config,
@@ -303,8 +317,7 @@ def grid(vis, uvw, flags, weights, frequencies, grid_config,
     grid : :class:`dask.array.Array`
         grid of shape :code:`(ny, nx, corr)`
     """
-    if len(frequencies.chunks[0]) != 1:
-        raise ValueError("Chunking in channel currently unsupported")
+    _check_chunks(uvw, frequencies, vis, flags, weights)
 
     # Create a baseline object per row chunk
     baselines = da.blockwise(_nifty_baselines, ("row",),
@@ -312,9 +325,6 @@ def grid(vis, uvw, flags, weights, frequencies, grid_config,
                              frequencies, ("chan",),
                              dtype=object)
 
-    if len(frequencies.chunks[0]) != 1:
-        raise ValueError("Chunking in channel unsupported")
-
     gc = grid_config.object
     grids = []
 
@@ -485,8 +495,7 @@ def degrid(grid, uvw, flags, weights, frequencies,
         grid of shape :code:`(ny, nx, corr)`
     """
 
-    if len(frequencies.chunks[0]) != 1:
-        raise ValueError("Chunking in channel currently unsupported")
+    _check_chunks(uvw, frequencies, flags)
 
     # Create a baseline object per row chunk
     baselines = da.blockwise(_nifty_baselines, ("row",),
-- 
2.43.0


From d5f546b3165e25b2d78c2b8479f9a1a48fc667d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:06 +0000
Subject: [PATCH 66/85] fix: nifty grids declare the type they have

---
 africanus/gridding/nifty/dask.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/africanus/gridding/nifty/dask.py b/africanus/gridding/nifty/dask.py
index c1c0746..79c3d9a 100644
--- a/africanus/gridding/nifty/dask.py
+++ b/africanus/gridding/nifty/dask.py
@@ -366,13 +366,14 @@ def grid(vis, uvw, flags, weights, frequencies, grid_config,
             deps = [baselines, indices, corr_vis, corr_weights]
             graph = HighLevelGraph.from_collections(layers.name, layers, deps)
             chunks = corr_vis.chunks
-            grid_stream_red = da.Array(graph, layers.name, chunks, vis.dtype)
+            grid_stream_red = da.Array(graph, layers.name, chunks,
+                                       np.complex128)
 
             layers = FinalGridReduction(layers)
             deps = [grid_stream_red]
             graph = HighLevelGraph.from_collections(layers.name, layers, deps)
             chunks = ((gc.Nu(),), (gc.Nv(),))
-            corr_grid = da.Array(graph, layers.name, chunks, vis.dtype)
+            corr_grid = da.Array(graph, layers.name, chunks, np.complex128)
 
             grids.append(corr_grid)
 
@@ -454,7 +455,7 @@ def model(image, grid_config):
                         image, ("nu", "nv", "corr"),
                         gc, None,
                         adjust_chunks={"nu": nu, "nv": nv},
-                        dtype=image.dtype)
+                        dtype=np.complex128)
 
 
 def _nifty_degrid(grid, baselines, indices, grid_config):
-- 
2.43.0


From dec21062f06fe550db02766919074a7ef58edaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:06 +0000
Subject: [PATCH 67/85] fix: reject chunked coefficients of wsclean spectra

---
 africanus/model/wsclean/dask.py | 3 +++
 africanus/rime/dask_predict.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/africanus/model/wsclean/dask.py b/africanus/model/wsclean/dask.py
index 73599e5..a508012 100644
--- a/africanus/model/wsclean/dask.py
+++ b/africanus/model/wsclean/dask.py
@@ -21,6 +21,9 @@ def _wrapper(stokes, spi, log_si, ref_freq, frequency):
 
 @requires_optional('dask.array', opt_import_error)
 def spectra(stokes, spi, log_si, ref_freq, frequency):
+    if len(spi.chunks[1]) != 1:
+        raise ValueError("Chunking along the spi dimension unsupported")
+
     corrs = tuple("corr-%d" % i for i in range(len(stokes.shape[1:])))
     log_si_schema = None if isinstance(log_si, bool) else ("source",)
 
diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index 1157bf9..fa657c1 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -464,6 +464,9 @@ def wsclean_body_wrapper(uvw, lm, source_type, gauss_shape,
 @requires_optional('dask.array', opt_import_error)
 def wsclean_predict(uvw, lm, source_type, flux, coeffs,
                     log_poly, ref_freq, gauss_shape, frequency):
+    if len(coeffs.chunks[1]) != 1:
+        raise ValueError("Chunking along the coeffs dimension unsupported")
+
     spectrum_dtype = np.result_type(*(a.dtype for a in (flux, coeffs,
                                                         log_poly, ref_freq,
                                                         frequency)))
-- 
2.43.0


From 4629ffcb70c1a60350b2b52c3d982732c1eca319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:01 +0000
Subject: [PATCH 68/85] fix: cubic splines solve their tridiagonal system

---
 africanus/averaging/splines.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/africanus/averaging/splines.py b/africanus/averaging/splines.py
index 983c0cf..2e1711b 100644
--- a/africanus/averaging/splines.py
+++ b/africanus/averaging/splines.py
@@ -34,29 +34,29 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
     if left_type == 2:
         diag[0, A] = 0.0
         diag[0, B] = 2.0
-        diag[0, C] = left_value
+        v[0] = left_value
     elif left_type == 1:
-        diag[0, A] = 1.0 * (x[1] - x[0])
         diag[0, B] = 2.0 * (x[1] - x[0])
+        diag[0, C] = 1.0 * (x[1] - x[0])
         v[0] = 3.0 * (-left_value + (y[1] - y[0]) / (x[1] - x[0]))
     else:
         raise ValueError("left_type not in (1, 2)")
 
     # Configure right endpoint
     if right_type == 2:
+        diag[n-1, A] = 0.0
         diag[n-1, B] = 2.0
-        diag[n-1, C] = 0.0
         v[n-1] = right_value
-    elif left_type == 1:
+    elif right_type == 1:
+        diag[n-1, A] = 1.0 * (x[n-1] - x[n-2])
         diag[n-1, B] = 2.0 * (x[n-1] - x[n-2])
-        diag[n-1, C] = 1.0 * (x[n-1] - x[n-2])
         v[n-1] = 3.0 * (right_value - (y[n-1] - y[n-2]) / (x[n-1] - x[n-2]))
     else:
         raise ValueError("right_type not in (1, 2)")
 
     # Solve tridiagonal system in place
     for i in range(1, n):
-        w = diag[i, A] - diag[i-1, B]
+        w = diag[i, A] / diag[i-1, B]
         diag[i, B] -= w*diag[i-1, C]
         v[i] -= w*v[i-1]
 
@@ -64,7 +64,7 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
     z = np.zeros_like(v)
     z[n-1] = v[n-1] / diag[n-1, B]
 
-    for i in range(n - 1, -1, -1):
+    for i in range(n - 2, -1, -1):
         z[i] = (v[i] - diag[i, C]*z[i+1])/diag[i, B]
 
     return z
@@ -84,7 +84,7 @@ def fit_cubic_spline(x, y, left_type=2, right_type=2,
         c[i] = ((y[i+1] - y[i]) / (x[i+1] - x[i]) -
                 (2.0*b[i] + b[i+1]) * (x[i+1] - x[i]) / 3.0)
 
-    h = x[n-2] - x[n-1]
+    h = x[n-1] - x[n-2]
     a[n-1] = 0
     c[n-1] = 3.0*a[n-2]*h*h + 2.0*b[n-2]*h + c[n-2]
 
-- 
2.43.0


From b1250d627eb7db7d1a00837b67b4d2d37ea5ccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:01 +0000
Subject: [PATCH 69/85] fix: cubic splines extrapolate beyond their knots only

---
 africanus/averaging/splines.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/africanus/averaging/splines.py b/africanus/averaging/splines.py
index 2e1711b..477dd4c 100644
--- a/africanus/averaging/splines.py
+++ b/africanus/averaging/splines.py
@@ -99,7 +99,7 @@ def evaluate_spline(spline, x, order=0):
     mb0 = mb[0] if not force_linear_extrapolation else 0.0
     mc0 = mc[0]
 
-    n = x.shape[0]
+    n = mx.shape[0]
     values = np.empty_like(x)
 
     if order == 0:
@@ -107,9 +107,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
+            if p < mx[0]:
                 values[i] = (mb0*h + mc0)*h + my[0]
-            elif p > x[n-1]:
+            elif p > mx[n-1]:
                 values[i] = (mb[n-1]*h + mc[n-1])*h + my[n-1]
             else:
                 values[i] = ((ma[j]*h + mb[j])*h + mc[j])*h + my[j]
@@ -119,9 +119,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
+            if p < mx[0]:
                 values[i] = 2.0*mb0*h + mc0
-            elif p > x[n-1]:
+            elif p > mx[n-1]:
                 values[i] = 2.0*mb[n-1]*h + mc[n-1]
             else:
                 values[i] = (3.0*ma[j]*h + 2.0*mb[j])*h + mc[j]
@@ -130,9 +130,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
-                values[i] = 2.0*mb0*h
-            elif p > x[n-1]:
+            if p < mx[0]:
+                values[i] = 2.0*mb0
+            elif p > mx[n-1]:
                 values[i] = 2.0*mb[n-1]
             else:
                 values[i] = 6.0*ma[j]*h + 2.0*mb[j]
-- 
2.43.0


From 8d7f09dd368d2e14e77e1f873e26056567dd7ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:57 +0000
Subject: [PATCH 70/85] fix: cuda prediction shuffles with masks that include
 the calling lanes

---
 africanus/rime/cuda/predict.cu.j2 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/rime/cuda/predict.cu.j2 b/africanus/rime/cuda/predict.cu.j2
index b1f8c62..2cc8b84 100644
--- a/africanus/rime/cuda/predict.cu.j2
+++ b/africanus/rime/cuda/predict.cu.j2
@@ -96,7 +96,7 @@ public:
         int base_vis_idx = CORRS*(lane_id/CORRS);
         int is_odd_corr = lane_id & 0x1;
         int shfl_idx = base_vis_idx + 1 + is_odd_corr;
-        int mask = __ballot_sync(WARP_SIZE - 1, 1);
+        int mask = __activemask();
 
         T shfl_K;
         shfl_K.x = __shfl_sync(mask, K.x, shfl_idx, WARP_SIZE);
@@ -138,7 +138,7 @@ public:
         int base_vis_idx = CORRS*(lane_id/CORRS);
         int is_odd_corr = lane_id & 0x1;
         int shfl_idx = base_vis_idx + 1 + int(is_odd_corr == 0);
-        int mask = __ballot_sync(WARP_SIZE - 1, 1);
+        int mask = __activemask();
 
         // Load in the correlation to multiply.
         T shfl_K;
-- 
2.43.0


From 816576e24c546a5d34bd5072bb35f786018cc7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:57 +0000
Subject: [PATCH 71/85] fix: cuda prediction of single precision terms

---
 africanus/rime/cuda/predict.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/africanus/rime/cuda/predict.py b/africanus/rime/cuda/predict.py
index 38ff4d4..344dac6 100644
--- a/africanus/rime/cuda/predict.py
+++ b/africanus/rime/cuda/predict.py
@@ -63,8 +63,11 @@ def _generate_kernel(time_index, antenna1, antenna2,
     name = "predict_vis"
 
     # Complex output type
-    out_dtype = np.result_type(dde1_jones, source_coh, dde2_jones,
-                               die1_jones, base_vis, die2_jones)
+    # None would stand for np.float64 here
+    out_dtype = np.result_type(*(a for a in (dde1_jones, source_coh,
+                                             dde2_jones, die1_jones,
+                                             base_vis, die2_jones)
+                                 if a is not None))
 
     ncorrs = reduce(mul, corrs, 1)
 
-- 
2.43.0


From bbb5b215f6703416220960a7bc43f62b95028ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:57 +0000
Subject: [PATCH 72/85] fix: cuda beam frequencies are loaded by every block
 and only within their bounds

---
 africanus/rime/cuda/beam_freq_interp.cu.j2 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/rime/cuda/beam_freq_interp.cu.j2 b/africanus/rime/cuda/beam_freq_interp.cu.j2
index 5c72bfb..d576e00 100644
--- a/africanus/rime/cuda/beam_freq_interp.cu.j2
+++ b/africanus/rime/cuda/beam_freq_interp.cu.j2
@@ -18,9 +18,9 @@ extern "C" __global__ void {{kernel_name}}(
         {{beam_freq_type}} beam_freqs[beam_nud_limit];
     } shared;
 
-    // Load in beam frequency map across
-    if(chan < beam_nud_limit)
-        { shared.beam_freqs[threadIdx.x] = beam_freq_map[chan]; }
+    // Load in beam frequency map in every block
+    for(int i = threadIdx.x; i < nud; i += blockDim.x)
+        { shared.beam_freqs[i] = beam_freq_map[i]; }
 
     __syncthreads();
 
-- 
2.43.0


From a7e71c918ddc7ffc6b15413ea443972ff00272b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:53 +0000
Subject: [PATCH 73/85] fix: cuda beam extents are loaded in every block before
 they are used

---
 africanus/rime/cuda/beam.cu.j2 | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/africanus/rime/cuda/beam.cu.j2 b/africanus/rime/cuda/beam.cu.j2
index 93fb1fc..e82bc0b 100644
--- a/africanus/rime/cuda/beam.cu.j2
+++ b/africanus/rime/cuda/beam.cu.j2
@@ -92,20 +92,18 @@ extern "C" __global__ void {{kernel_name}}(
 
     // Shared memory loads
 
-    // Use first four threads to load beam extents into shared memory
-    if(threadIdx.x < 4)
-        { shared.lm_ext[threadIdx.x] = beam_lm_ext[threadIdx.x]; }
-
     {{lm_ext_type}} & lower_l = shared.lm_ext[0];
     {{lm_ext_type}} & upper_l = shared.lm_ext[1];
     {{lm_ext_type}} & lower_m = shared.lm_ext[2];
     {{lm_ext_type}} & upper_m = shared.lm_ext[3];
 
-    // Use first thread to precompute l and m scaling factors in shared memory
-    // Because a warp is 32 threads, the lm_ext's
-    // should be loaded at this point
+    // Use first thread, which is active in every block, to load beam extents
+    // and to precompute l and m scaling factors in shared memory
     if(threadIdx.z == 0 && threadIdx.y == 0 && threadIdx.x == 0)
     {
+        for(int e=0; e < 4; ++e)
+            { shared.lm_ext[e] = beam_lm_ext[e]; }
+
         shared.lscale = {{beam_freq_type}}(beam_lw - 1) / (upper_l - lower_l);
         shared.mscale = {{beam_freq_type}}(beam_mh - 1) / (upper_m - lower_m);
     }
-- 
2.43.0


From ec81ba2196652d1acdc6e303a9b5eb0edd075440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:35 +0000
Subject: [PATCH 74/85] fix: cuda prediction of base visibilities alone

---
 africanus/rime/cuda/predict.cu.j2 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/africanus/rime/cuda/predict.cu.j2 b/africanus/rime/cuda/predict.cu.j2
index 2cc8b84..ab30ed1 100644
--- a/africanus/rime/cuda/predict.cu.j2
+++ b/africanus/rime/cuda/predict.cu.j2
@@ -47,6 +47,8 @@
 {%- set nchan = "die1.shape()[2]" %}
 {%- elif have_coh %}
 {%- set nchan = "source_coh.shape()[2]" %}
+{%- elif have_base_vis %}
+{%- set nchan = "base_vis.shape()[1]" %}
 {%- endif %}
 
 {%- set nrow = "time_index.shape()[0]" %}
-- 
2.43.0


From 1d8af35136ed7450ae44ceb2a95f6537fa93a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:35 +0000
Subject: [PATCH 75/85] fix: cuda beam sizes are checked on every call

---
 africanus/rime/cuda/beam.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/africanus/rime/cuda/beam.py b/africanus/rime/cuda/beam.py
index 97d9222..8aed64f 100644
--- a/africanus/rime/cuda/beam.py
+++ b/africanus/rime/cuda/beam.py
@@ -75,12 +75,6 @@ def _generate_main_kernel(beam, beam_lm_ext, beam_freq_map,
                           antenna_scaling, frequencies,
                           dde_dims, ncorr):
 
-    beam_lw, beam_mh, beam_nud = beam.shape[:3]
-
-    if beam_lw < 2 or beam_mh < 2 or beam_nud < 2:
-        raise ValueError("(beam_lw, beam_mh, beam_nud) < 2 "
-                         "to linearly interpolate")
-
     # Create template
     render = jinja_env.get_template(str(_MAIN_TEMPLATE_PATH)).render
     name = "beam_cube_dde"
@@ -148,6 +142,10 @@ def beam_cube_dde(beam, beam_lm_ext, beam_freq_map,
 
     corrs = beam.shape[3:]
 
+    if min(beam.shape[:3]) < 2:
+        raise ValueError("(beam_lw, beam_mh, beam_nud) < 2 "
+                         "to linearly interpolate")
+
     if beam.shape[2] >= BEAM_NUD_LIMIT:
         raise ValueError("beam_nud exceeds %d" % BEAM_NUD_LIMIT)
 
-- 
2.43.0


From 2af0a408781cd624535c3a4685c01bfb7ec7b522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:28 +0000
Subject: [PATCH 76/85] fix: fit the clean beam of a rectangular psf on its own
 pixel grid

The pixel coordinates were built with meshgrid's default (y, x) indexing,
so for a psf whose sides differ they were not those of the flattened data.
---
 africanus/deconv/hogbom/clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/deconv/hogbom/clean.py b/africanus/deconv/hogbom/clean.py
index f221d20..81842c0 100644
--- a/africanus/deconv/hogbom/clean.py
+++ b/africanus/deconv/hogbom/clean.py
@@ -53,7 +53,7 @@ def fit_2d_gaussian(psf):
     # Create x and y indices
     x = np.linspace(0, psf.shape[0]-1, psf.shape[0])
     y = np.linspace(0, psf.shape[1]-1, psf.shape[1])
-    x, y = np.meshgrid(x, y)
+    x, y = np.meshgrid(x, y, indexing="ij")
     # Set starting point of optimiser
     initial_guess = (0.5, lk/2, mk/2, 1.75, 1.4, -4.0, 0)
     # Flatten the data
-- 
2.43.0


From b337133d68af1bd428debbff7266e474870c705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 77/85] fix: decode the output of the cuda device query

literal_eval rejects bytes, which is what check_output returns, so the
properties of the devices could never be determined.
---
 africanus/util/nvcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/util/nvcc.py b/africanus/util/nvcc.py
index 28f5f47..ff55fe7 100644
--- a/africanus/util/nvcc.py
+++ b/africanus/util/nvcc.py
@@ -299,7 +299,7 @@ def _get_cuda_info():
             msg = 'Cannot execute a stub file.\nOriginal error: {0}'.format(e)
             raise Exception(msg)
 
-        return ast.literal_eval(out)
+        return ast.literal_eval(out.decode('utf8'))
 
 
 def get_cuda_info():
-- 
2.43.0


From 41c9b3ef2aa68b193f14a63c1c6533a6a5c9f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 78/85] fix: honour the NVCC environment variable

split_quoted lives in distutils.util: any value of NVCC raised an
AttributeError.
---
 africanus/util/nvcc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/util/nvcc.py b/africanus/util/nvcc.py
index ff55fe7..409685e 100644
--- a/africanus/util/nvcc.py
+++ b/africanus/util/nvcc.py
@@ -14,10 +14,10 @@ import tempfile
 from os.path import join as pjoin
 from pkg_resources import resource_filename
 
-import distutils
 from distutils import errors
 from distutils import msvccompiler
 from distutils import unixccompiler
+from distutils.util import split_quoted
 
 from africanus.util.code import format_code
 from africanus.util.requirements import requires_optional
@@ -105,7 +105,7 @@ def get_cuda_path():
 def get_nvcc_path():
     nvcc = os.environ.get('NVCC', None)
     if nvcc:
-        return distutils.split_quoted(nvcc)
+        return split_quoted(nvcc)
 
     cuda_path = get_cuda_path()
     if cuda_path is None:
-- 
2.43.0


From 94f219734d71c1e5bb0bd26fab8377fe133c2493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 79/85] fix: report nvcc compilation errors

Raising a tuple is a TypeError, which hid the listing and the compiler's
messages.
---
 africanus/util/nvcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/util/nvcc.py b/africanus/util/nvcc.py
index 409685e..18962ea 100644
--- a/africanus/util/nvcc.py
+++ b/africanus/util/nvcc.py
@@ -502,7 +502,7 @@ def compile_using_nvcc(source, options=None, arch=None, filename='kern.cu'):
                      str(e).strip()]
 
             ex = errors.CompileError("\n".join(lines))
-            raise (ex, None, sys.exc_info()[2])
+            raise ex from e
 
         assert len(objects) == 1
 
-- 
2.43.0


From 9b50fa6405d41f093f03095d02623938d38ec33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 80/85] fix: compile_using_nvcc no longer appends to the
 caller's options

---
 africanus/util/nvcc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/util/nvcc.py b/africanus/util/nvcc.py
index 18962ea..332ae86 100644
--- a/africanus/util/nvcc.py
+++ b/africanus/util/nvcc.py
@@ -459,7 +459,8 @@ def stdchannel_redirected(stdchannel, dest_filename):
 
 @requires_optional("cupy", cupy_import_error)
 def compile_using_nvcc(source, options=None, arch=None, filename='kern.cu'):
-    options = options or []
+    # Don't modify the caller's list
+    options = list(options or [])
 
     if arch is None:
         cuda_info = get_cuda_info()
-- 
2.43.0


From 8d6c7ed332edab01ed2f485998c39c01bec4f865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 81/85] fix: write nvcc's output to the temporary directory

Without an output directory, distutils places the object file below the
current directory, where it was left behind.
---
 africanus/util/nvcc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/africanus/util/nvcc.py b/africanus/util/nvcc.py
index 332ae86..35136c2 100644
--- a/africanus/util/nvcc.py
+++ b/africanus/util/nvcc.py
@@ -487,6 +487,7 @@ def compile_using_nvcc(source, options=None, arch=None, filename='kern.cu'):
 
             with stdchannel_redirected(sys.stderr, stderr_file):
                 objects = cc.compile([tmpfile],
+                                     output_dir=tmpdir,
                                      include_dirs=settings['include_dirs'],
                                      macros=settings['define_macros'],
                                      extra_postargs=options)
-- 
2.43.0


From c421806b84b8f6cb816ee2bf4b82a41659ab4fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 82/85] fix: close the duplicate of a redirected channel

Every redirection leaked a file descriptor, and failing to set it up
raised an UnboundLocalError.
---
 africanus/util/nvcc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/africanus/util/nvcc.py b/africanus/util/nvcc.py
index 35136c2..bb5931b 100644
--- a/africanus/util/nvcc.py
+++ b/africanus/util/nvcc.py
@@ -444,6 +444,9 @@ def stdchannel_redirected(stdchannel, dest_filename):
             libraries.append('rt')
     """
 
+    oldstdchannel = None
+    dest_file = None
+
     try:
         oldstdchannel = os.dup(stdchannel.fileno())
         dest_file = open(dest_filename, 'w')
@@ -453,6 +456,7 @@ def stdchannel_redirected(stdchannel, dest_filename):
     finally:
         if oldstdchannel is not None:
             os.dup2(oldstdchannel, stdchannel.fileno())
+            os.close(oldstdchannel)
         if dest_file is not None:
             dest_file.close()
 
-- 
2.43.0


From 7891a86e721762c0ba4c3a9b7ce8c4cf77b0fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 83/85] fix: match nvcc's advice on the last lines of its
 output

---
 africanus/util/nvcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/util/nvcc.py b/africanus/util/nvcc.py
index bb5931b..f122e42 100644
--- a/africanus/util/nvcc.py
+++ b/africanus/util/nvcc.py
@@ -165,7 +165,7 @@ def _match_output_lines(output_lines, regexs):
         return None
 
     matches = [None] * len(regexs)
-    for i in range(len(output_lines) - len(regexs)):
+    for i in range(len(output_lines) - len(regexs) + 1):
         for j in range(len(regexs)):
             m = re.match(regexs[j], output_lines[i + j])
             if not m:
-- 
2.43.0


From d77a48d9748ea9534f5cdd8f09468a8f12c23666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 84/85] fix: compile_using_nvcc honours the requested
 architecture

The option was formed but never passed on, and -cubin, which is for one
architecture, was combined with those of all devices.
---
 africanus/util/nvcc.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/africanus/util/nvcc.py b/africanus/util/nvcc.py
index f122e42..d199a70 100644
--- a/africanus/util/nvcc.py
+++ b/africanus/util/nvcc.py
@@ -332,6 +332,14 @@ def get_gencode_options():
             for dev in get_cuda_info()['devices']]
 
 
+def _postargs(extra_postargs):
+    # Compile for the available devices, unless an architecture is requested
+    if any(a.startswith("--generate-code") for a in extra_postargs):
+        return []
+
+    return get_gencode_options()
+
+
 class _UnixCCompiler(unixccompiler.UnixCCompiler):
     src_extensions = list(unixccompiler.UnixCCompiler.src_extensions)
     src_extensions.append('.cu')
@@ -350,7 +358,7 @@ class _UnixCCompiler(unixccompiler.UnixCCompiler):
             self.set_executable('compiler_so', nvcc_path)
 
             cuda_version = get_cuda_version()  # noqa: triggers cuda inspection
-            postargs = get_gencode_options() + [
+            postargs = _postargs(extra_postargs) + [
                 '-O2', '--compiler-options="-fPIC"']
             postargs += extra_postargs
             # print('NVCC options:', postargs)
@@ -379,7 +387,7 @@ class _MSVCCompiler(msvccompiler.MSVCCompiler):
         compiler_so = get_nvcc_path()
         cc_args = self._get_cc_args(pp_opts, debug, extra_preargs)
         cuda_version = get_cuda_version()  # noqa: triggers cuda inspection
-        postargs = get_gencode_options() + ['-O2']
+        postargs = _postargs(extra_postargs) + ['-O2']
         postargs += ['-Xcompiler', '/MD']
         postargs += extra_postargs
         # print('NVCC options:', postargs)
@@ -475,7 +483,7 @@ def compile_using_nvcc(source, options=None, arch=None, filename='kern.cu'):
     settings = get_compiler_setting()
     arch = "--generate-code=arch=compute_{a},code=sm_{a}".format(a=arch)
 
-    options += ['-cubin']
+    options += [arch, '-cubin']
 
     cupy_path = resource_filename("cupy", pjoin("core", "include"))
     settings['include_dirs'].append(cupy_path)
-- 
2.43.0


From 89f387e1f229cb9cc88f4f9a6e08347665bf5b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:21 +0000
Subject: [PATCH 85/85] fix: serialise nvcc compilations

Compiling in two threads at once could restore the error channel of the
process to the other thread's (deleted) file, and mix up their messages.
---
 africanus/util/nvcc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/africanus/util/nvcc.py b/africanus/util/nvcc.py
index d199a70..9d40806 100644
--- a/africanus/util/nvcc.py
+++ b/africanus/util/nvcc.py
@@ -10,6 +10,7 @@ import shutil
 import subprocess
 import sys
 import tempfile
+import threading
 
 from os.path import join as pjoin
 from pkg_resources import resource_filename
@@ -427,6 +428,10 @@ class _MSVCCompiler(msvccompiler.MSVCCompiler):
 
 _compiler = None
 
+# Compilation redirects the error channel of the process
+# and reconfigures the compiler shared by all threads
+_compile_lock = threading.Lock()
+
 
 def get_compiler():
     global _compiler
@@ -497,7 +502,7 @@ def compile_using_nvcc(source, options=None, arch=None, filename='kern.cu'):
         try:
             stderr_file = pjoin(tmpdir, "stderr.txt")
 
-            with stdchannel_redirected(sys.stderr, stderr_file):
+            with _compile_lock, stdchannel_redirected(sys.stderr, stderr_file):
                 objects = cc.compile([tmpfile],
                                      output_dir=tmpdir,
                                      include_dirs=settings['include_dirs'],
-- 
2.43.0

