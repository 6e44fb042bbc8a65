From 09202cb776b03edc1aa29729bcb22625db2217f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:18 +0000
Subject: [PATCH 01/74] fix: refuse linked checkouts whose friends or fixed
 sources are active in another patch

---
 forcepho/superscene.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index ccab493..eb90a5c 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -623,6 +623,11 @@ class LinkedSuperScene(SuperScene):
         end = min(len(fixed_inds), max_fixed)
         fixed_inds = fixed_inds[:end]
 
+        # friends (and fixed sources) can lie beyond the candidates checked
+        # above; none of them may be active in another patch.
+        if np.any(self.sourcecat[active_inds + fixed_inds]["is_active"]):
+            return (seed["ra"], seed["dec"]), None, None
+
         return region, active_inds, fixed_inds
 
     def checkout_region(self, seed_index=-1, max_fixed=None):
-- 
2.43.0


From a11ed2e018aceb87fd116e6fe4034fefc1b7d623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:18 +0000
Subject: [PATCH 02/74] fix: finding overlaps with no source in reach returns
 an empty index array

---
 forcepho/superscene.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index eb90a5c..f18c58b 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -705,15 +705,15 @@ class LinkedSuperScene(SuperScene):
             The indices of the sources that overlap, optionally sorted
             in order of distance from the center
         """
-        kinds = self.kdt.query_ball_point(center, radius + self.boundary_radius)
+        kinds = np.array(self.kdt.query_ball_point(center, radius + self.boundary_radius), dtype=int)
         d = self.scene_coordinates[kinds] - center
         metric = np.hypot(*d.T) / (radius + self.roi[kinds])
-        overlaps = (metric < 1) & (metric >= 0) & (np.array(kinds) != seed_index)
+        overlaps = (metric < 1) & (metric >= 0) & (kinds != seed_index)
         if sort:
             order = np.argsort(metric[overlaps])
         else:
             order = slice(None)
-        return np.array(kinds)[overlaps][order]
+        return kinds[overlaps][order]
 
     def overlap_circle(self, ra, dec, radius):
         """Get all sources with an roi that overlaps the given circle on the
-- 
2.43.0


From b0cac96a06cacf40fd97653a6f5df7e8ca4163eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:45 +0000
Subject: [PATCH 03/74] fix: dispatcher imports read_config from the module
 that defines it

---
 forcepho/dispatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 2c7a088..f007fd0 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -18,7 +18,7 @@ import numpy as np
 from astropy.io import fits
 
 from .superscene import SuperScene, LinkedSuperScene, rectify_catalog
-from .utils import read_config
+from .config import read_config
 #from .child import sampling_task, optimization_task
 
 
-- 
2.43.0


From 3dc14cd2db5a702237df66732d02b23dd805b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:45 +0000
Subject: [PATCH 04/74] fix: MPI and logger names are defined when the
 dispatcher is used as a module

---
 forcepho/dispatcher.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index f007fd0..1666eeb 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -25,6 +25,8 @@ from .config import read_config
 __all__ = ["MPIQueue",
            "do_child", "do_parent"]
 
+logger = logging.getLogger('dispatcher')
+
 
 class MPIQueue:
     """Simple implementation of an MPI queue.  Work can be submitted to the queue
@@ -79,6 +81,8 @@ class MPIQueue:
         result : object
             The result generated and passed by the child.
         """
+        from mpi4py import MPI
+
         if blocking == 'all' and not self.irecv_handles:
             return []
 
@@ -115,6 +119,8 @@ class MPIQueue:
         child process at the top of the (idle) queue. If no children are idle,
         an error is raised.
         """
+        from mpi4py import MPI
+
         if tag == 'any':
             tag = MPI.ANY_TAG
 
@@ -247,6 +253,8 @@ def do_parent(comm, config=None):
 
 
 def do_child(comm, config=None):
+    from mpi4py import MPI
+
     rank = comm.Get_rank()
     logger = logging.getLogger(f'child-{rank}')
     parent = 0
@@ -321,6 +329,7 @@ def main(config=None):
     # Demo usage of the queue
 
     # MPI communicator
+    from mpi4py import MPI
     comm = MPI.COMM_WORLD
     rank = comm.Get_rank()
 
@@ -342,9 +351,6 @@ class ArgParseFormatter(argparse.RawDescriptionHelpFormatter, argparse.ArgumentD
 
 
 if __name__ == "__main__":
-    # Hide this MPI import in __main__ so one can import this module without MPI
-    from mpi4py import MPI
-
     parser = argparse.ArgumentParser(description='MPI dispatcher interface',
                                      formatter_class=ArgParseFormatter)
     # Any command line arguments can be added here
-- 
2.43.0


From ba45bacf4bff7bd5f91252ed8c6512260d0b5636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:45 +0000
Subject: [PATCH 05/74] fix: check results in under the id of the task that
 produced them

---
 forcepho/dispatcher.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 1666eeb..a085f9c 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -58,6 +58,8 @@ class MPIQueue:
         self.comm = comm
         self.irecv_handles = []
         self.busy = []
+        self.busy_tags = []
+        self.collected_tags = []
         self.idle = list(range(1,n_children + 1))
         self.n_children = n_children
         self.parent = 0
@@ -83,6 +85,7 @@ class MPIQueue:
         """
         from mpi4py import MPI
 
+        self.collected_tags = []
         if blocking == 'all' and not self.irecv_handles:
             return []
 
@@ -99,6 +102,9 @@ class MPIQueue:
         else:
             indices, results = MPI.Request.testsome(self.irecv_handles, statuses)
 
+        # the tags of the tasks that produced these results, in the same order
+        self.collected_tags = [self.busy_tags[i] for i in indices]
+
         for i in sorted(indices, reverse=True):
             # TODO: this happens at Flatiron sometimes. Bad MPI? Bad mpi4py? mpi4py bug?
             # Problem with irecv allocation? Incomplete communication?
@@ -107,6 +113,7 @@ class MPIQueue:
                 logger.warning(f'Got source rank -1 on irecv from rank {self.busy[i]}!  Why??')
             self.idle += [self.busy.pop(i)]
             del self.irecv_handles[i]
+            del self.busy_tags[i]
 
         logger.info(f'Collected {len(results)} result(s) from child(ren) {self.idle[len(self.idle)-len(results):]}')
 
@@ -143,6 +150,7 @@ class MPIQueue:
         rreq = self.comm.irecv(irecv_bufsize, source=child, tag=tag)
         self.irecv_handles += [rreq]
         self.busy += [child]
+        self.busy_tags += [tag]
         return child
 
     def closeout(self):
@@ -229,11 +237,11 @@ def do_parent(comm, config=None):
             results = queue.collect(blocking=blocking)
 
             # Check results back in
-            for result in results:
+            for tid, result in zip(queue.collected_tags, results):
                 sceneDB.checkin_region(result['final'], result['out'].fixed,
                                        config.sampling_draws,
                                        block_covs=result['covs'],
-                                       taskID=taskid)
+                                       taskID=tid)
 
         # Receive any stragglers
         results = queue.collect(blocking='all')
-- 
2.43.0


From 90c1ce2c2eb88518cacf0179522ad0012c1639a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:45 +0000
Subject: [PATCH 06/74] fix: check in the results still in flight when the
 iteration target is reached

---
 forcepho/dispatcher.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index a085f9c..5fde6e5 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -246,10 +246,11 @@ def do_parent(comm, config=None):
         # Receive any stragglers
         results = queue.collect(blocking='all')
         logger.info(f'Collected {len(results)} straggler result(s)')
-        # TODO: finalize the checkin args, then update this
-        #for result in results:
-        #    sceneDB.checkin_region(result.active, result.fixed,
-        #                           result.niter, mass_matrix=None)
+        for tid, result in zip(queue.collected_tags, results):
+            sceneDB.checkin_region(result['final'], result['out'].fixed,
+                                   config.sampling_draws,
+                                   block_covs=result['covs'],
+                                   taskID=tid)
 
         ttotal = timer() - tstart
         logger.info(f"Finished in {ttotal:.1f}s")
-- 
2.43.0


From ed83a2ddcc2d85879e5aac24d859750cdf53cd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:46 +0000
Subject: [PATCH 07/74] fix: posterior cache belongs to parameter values,
 prior, transform and sampling mode, not to the caller's array

---
 forcepho/model.py | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 18f637e..0687250 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -44,6 +44,10 @@ class Posterior:
     probabilities and gradients, as well as a numerical check on the gradients.
     """
 
+    # defaults for subclasses that do not set these
+    sampling = True
+    _lnpriorfn = None
+
     def __init__(self, **kwargs):
         '''
         Initializes fields that are common to all subclasses.
@@ -97,6 +101,27 @@ class Posterior:
         self.ncall += 1
         raise(NotImplementedError)
 
+    def _cache_state(self):
+        """Everything other than the parameters that the cached values depend on.
+        """
+        return self.sampling, self._lnpriorfn, self.transform
+
+    def _set_cache(self, z):
+        """Remember what the cached values belong to.  The parameters are
+        copied since the caller might change the array in place.
+        """
+        self._z = np.array(z)
+        self._cached_state = self._cache_state()
+
+    def _is_cached(self, z):
+        """Do the cached values belong to these parameters, with the current
+        prior, transform, and sampling mode?
+        """
+        state = getattr(self, "_cached_state", None)
+        return ((state is not None) and
+                all(a is b for a, b in zip(state, self._cache_state())) and
+                np.array_equal(z, self._z))
+
     def lnprob(self, z):
         """Get the ln-probability at parameter position `z`.  This uses the
         cached value of the ln-probability if z has not changed, and otherwise
@@ -113,7 +138,7 @@ class Posterior:
         lnp : np.float
             The ln-probability at the parameter position `z`
         """
-        if np.any(z != self._z):
+        if not self._is_cached(z):
             self.evaluate(z)
         return self._lnp
 
@@ -135,7 +160,7 @@ class Posterior:
             The gradient of the ln-probability with repsect to `z`, at the
             parameter position `z`
         """
-        if np.any(z != self._z):
+        if not self._is_cached(z):
             self.evaluate(z)
         return self._lnp_grad
 
@@ -195,7 +220,7 @@ class Posterior:
         Note this *removes* the jacobian volume correction necessary for
         good sampling.
         """
-        if np.any(z != self._z):
+        if not self._is_cached(z):
             self.evaluate(z)
         nll = -self._lnp
         nll_grad = -self._lnp_grad
@@ -207,7 +232,7 @@ class Posterior:
         Note this *removes* the jacobian volume correction necessary for
         good sampling, but that hinders optimization.
         """
-        if np.any(z != self._z):
+        if not self._is_cached(z):
             self.evaluate(z)
         return -self._lnp / self.ndof
 
@@ -215,7 +240,7 @@ class Posterior:
         """Some samplers want a single function to return lnp, dlnp.
         This is that.
         """
-        if np.any(z != self._z):
+        if not self._is_cached(z):
             self.evaluate(z)
         return self._lnp, self._lnp_grad
 
@@ -345,7 +370,7 @@ class FastPosterior(Posterior):
         # Assumes Jacobian is diagonal
         self._lnp_grad = (ll_grad + lpr_grad) * self._jacobian
         self._q = q
-        self._z = z
+        self._set_cache(z)
         # do volume correction when sampling
         if self.sampling:
             self._lnp += self._lndetjac
@@ -356,7 +381,7 @@ class FastPosterior(Posterior):
             print("chi2: {}".format(chi2))
 
         if self.logging:
-            self.pos_history.append(z)
+            self.pos_history.append(self._z)
             self.lnp_history.append(ll)
             self.grad_history.append(ll_grad)
 
@@ -462,7 +487,7 @@ class SlowPosterior(Posterior):
         # gradient vector with a Jacobian matrix, but for now the jacobian is diagonal so this works
         self._lnp_grad = (ll_grad + lpr_grad) * self._jacobian + self._lndetjac_grad
         self._q = q
-        self._z = z
+        self._set_cache(z)
 
     def residuals(self, Theta=None):
         """Construct model image (residuals) for the given parameter vecotrs.
-- 
2.43.0


From 2a8ebb6b61a8edfa044321980dffadd2be6e0530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:46 +0000
Subject: [PATCH 08/74] fix: accept parameter bounds that are all zero

---
 forcepho/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 0687250..edd1271 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -66,7 +66,8 @@ class Posterior:
         self.ncall = 0
         self.ndof = 1.0
 
-        if (np.any(kwargs.get('lower')) and np.any(kwargs.get('upper'))) == bool(kwargs.get('transform')):
+        has_bounds = (kwargs.get('lower') is not None) and (kwargs.get('upper') is not None)
+        if has_bounds == (kwargs.get('transform') is not None):
             raise ValueError('Must specify either "transform" or ("lower","upper")')
 
         transform = kwargs.pop('transform', None)
-- 
2.43.0


From a6566c1a2e3df680f8d97f94080f878ed8684205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:46 +0000
Subject: [PATCH 09/74] fix: log-volume term of the transform does not
 underflow for many parameters

---
 forcepho/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index edd1271..286ef85 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -609,8 +609,7 @@ class Transform(object):
     def lndetjac(self, z):
         """ln(|dq/dz|)
         """
-        return np.log(np.abs(np.prod(self.jacobian(z))))
-        # return np.sum(np.log(self.jacobian(z)))
+        return np.sum(np.log(np.abs(self.jacobian(z))))
 
     def lndetjac_grad(self, z):
         return np.zeros(len(z))
-- 
2.43.0


From 36b158f7535cd0ffe525398423904fac2ac00279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:46 +0000
Subject: [PATCH 10/74] fix: slow residuals accept a parameter array

---
 forcepho/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 286ef85..5bccdbc 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -493,7 +493,7 @@ class SlowPosterior(Posterior):
     def residuals(self, Theta=None):
         """Construct model image (residuals) for the given parameter vecotrs.
         """
-        if Theta:
+        if Theta is not None:
             self.scene.set_all_source_params(Theta)
         self._residuals = [plan.stamp.pixel_values - make_image(self.scene, plan.stamp)[0]
                            for plan in self.plans]
-- 
2.43.0


From e671312e84b0fc45e99ca31abe7b7c3f919eea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:03 +0000
Subject: [PATCH 11/74] fix: StorePatch loads the astrometry of the exposures
 it searches

---
 forcepho/patches/pixel_patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index d0f3d58..c8bd3cc 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -250,7 +250,7 @@ class StorePatch(PixelPatch):
                          splinedata=splinedata,
                          spline_smoothing=spline_smoothing)
 
-        self.metastore = MetaStore(metastore)
+        self.metastore = MetaStore(metastore, load_all=True)
         self.pixelstore = PixelStore(pixelstore)
 
     def find_exposures(self, region, bandlist):
-- 
2.43.0


From 270dd6e76e21c187e33ee427d3efb5e368a4a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:03 +0000
Subject: [PATCH 12/74] fix: DirectPatch finds its exposures, in band order

---
 forcepho/patches/pixel_patch.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index c8bd3cc..9fb96e1 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -531,17 +531,17 @@ class DirectPatch(PixelPatch):
         self.unc = None
 
     def find_exposures(self, region, bandlist, do_check=True):
-        epaths = list(self.wcs_dict.keys())
-        bands, hdrs, wcses = [], [], []
-
-        for epath in epaths:
-            hdr = self.header_dict[epath]
-            wcs = WCS(hdr)
-            band = hdr["FILTER"]
+        epaths, bands, hdrs, wcses = [], [], [], []
 
-            wcses.append(wcs)
-            bands.append(band)
-            hdrs.append(hdr)
+        # sort by band, in the order of bandlist
+        for band in bandlist:
+            for epath, hdr in self.header_dict.items():
+                if hdr["FILTER"] != band:
+                    continue
+                epaths.append(epath)
+                wcses.append(WCS(hdr))
+                bands.append(band)
+                hdrs.append(hdr)
 
         return hdrs, wcses, epaths, bands
 
-- 
2.43.0


From db967d6831b1049cef77b92231dadfe34edfe677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:03 +0000
Subject: [PATCH 13/74] fix: patches use every exposure the region reaches, and
 none without a selected pixel

---
 forcepho/patches/pixel_patch.py | 45 ++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index 9fb96e1..68009b5 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -18,6 +18,24 @@ JWST_BANDS = ["F090W", "F115W", "F150W", "F200W",
               "F277W", "F335M", "F356W", "F410M", "F444W"]
 
 
+def box_reaches_image(bx, by, imsize):
+    """Whether a convex box, given the pixel coordinates of its corners, might
+    overlap an image; never False when it does.
+    """
+    return not ((np.max(bx) < 0) | (np.min(bx) > imsize[0]) |
+                (np.max(by) < 0) | (np.min(by) > imsize[1]))
+
+
+def pixel_corners(nx, ny):
+    """Coordinates of the corners of every pixel, shape (nx, ny, 4, 2)
+    """
+    # NOTE: the x,y order swap here is important
+    yp, xp = np.meshgrid(np.arange(ny), np.arange(nx))
+    offsets = np.array([(0, 0), (1, 0), (1, 1), (0, 1)])
+    corners = offsets[:, :, None, None] + np.array([xp, yp])[None, :, :, :]
+    return corners.transpose(2, 3, 0, 1)
+
+
 # FIXME: Better logic for background offsets
 
 class PixelPatch(Patch):
@@ -281,12 +299,9 @@ class StorePatch(PixelPatch):
             for expID in self.metastore.wcs[band].keys():
                 epath = "{}/{}".format(band, expID)
                 wcs = self.metastore.wcs[band][expID]
-                # Check region bounding box has a corner in the exposure.
-                # NOTE: If bounding box entirely contains image this might fail
+                # Rough check that the region bounding box reaches the exposure
                 bx, by = wcs.world_to_pixel_values(bra, bdec)
-                inim = np.any((bx > 0) & (bx < imsize[0]) &
-                              (by > 0) & (by < imsize[1]))
-                if inim:
+                if box_reaches_image(bx, by, imsize):
                     # check in more detail
                     sx, sy = region.contains(super_corners[..., 0],
                                              super_corners[..., 1],
@@ -414,18 +429,17 @@ class FITSPatch(PixelPatch):
                     continue
                 hdr = fits.getheader(fitsfiles[i], self.sci_ext)
                 wcs = WCS(hdr)
-                # rough check for region coverage
-                # NOTE: If bounding box entirely contains image this might fail
                 if (region is not None) & do_check:
+                    # rough check for region coverage
                     bra, bdec = region.bounding_box
                     imsize = hdr["NAXIS1"], hdr["NAXIS2"]
                     bx, by = wcs.world_to_pixel_values(bra, bdec)
-                    inim = np.any((bx > 0) & (bx < imsize[0]) &
-                                  (by > 0) & (by < imsize[1]))
-                    around_im = ((imsize[0] < bx.max()) & (bx.min() < 0) &
-                                 (imsize[1] < by.max()) & (by.min() < 0))
-                    inim = inim | around_im
-                    if not inim:
+                    if not box_reaches_image(bx, by, imsize):
+                        continue
+                    # check in more detail
+                    corners = pixel_corners(*imsize)
+                    sx, sy = region.contains(corners[..., 0], corners[..., 1], wcs)
+                    if len(sx) == 0:
                         continue
 
                 epaths.append(fitsfiles[i])
@@ -458,10 +472,7 @@ class FITSPatch(PixelPatch):
         if region is None:
             sx, sy = slice(None), slice(None)
         else:
-            offsets = np.array([(0, 0), (1, 0), (1, 1), (0, 1)])
-            lower_left = np.array([xp, yp])
-            corners = offsets[:, :, None, None] + lower_left[None, :, :, :]
-            corners = corners.transpose(2, 3, 0, 1)
+            corners = pixel_corners(nx, ny)
             sx, sy = region.contains(corners[..., 0], corners[..., 1], wcs)
 
         flux = flux[sx, sy].reshape(-1)
-- 
2.43.0


From 454f8e45dd9750fb3bdd9d17180bab7cf0f97721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:55 +0000
Subject: [PATCH 14/74] fix: a MetaStore under construction can be searched,
 and re-added exposures get their new astrometry

---
 forcepho/patches/storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 1e6b5c4..a676bdb 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -313,6 +313,7 @@ class MetaStore:
     def __init__(self, metastorefile=None, use_gwcs=False, load_all=False):
         self.headers = {}
         self.tree = {}
+        self.wcs = {}
         if metastorefile is not None:
             self.headers = self.read_from_file(metastorefile)
             # GWCS?
@@ -325,8 +326,6 @@ class MetaStore:
             if load_all:
                 # build all the wcses
                 self.populate_wcs(gwcs_file=self.gwcs_file)
-            else:
-                self.wcs = {}
 
     def populate_wcs(self, gwcs_file=None):
         """Fill the dict of dict with WCS instances (based on either normal
@@ -368,6 +367,8 @@ class MetaStore:
         if band not in self.headers:
             self.headers[band] = {}
         self.headers[band][expID] = hdr
+        # any astrometry cached for an earlier version is out of date
+        self.wcs.get(band, {}).pop(expID, None)
         if hasattr(imset, "gwcs"):
             if band not in self.tree:
                 self.tree[band] = {}
-- 
2.43.0


From 9dd320ab299cbdf0dd4efa64f78bf94ada96129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:55 +0000
Subject: [PATCH 15/74] fix: footprint of non-square images in exposure lookup

---
 forcepho/patches/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index a676bdb..169d68a 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -469,7 +469,7 @@ class MetaStore:
                 imsize = hdr["NAXIS1"], hdr["NAXIS2"]
                 bbox = np.array([[0, 0],
                                  [0, imsize[1]],
-                                 [imsize[0], imsize[0]],
+                                 [imsize[0], imsize[1]],
                                  [imsize[0], 0]]).T
                 bbox = wcs.pixel_to_world_values(bbox[0], bbox[1])
                 bbox = np.array(bbox).T
-- 
2.43.0


From 03f75c16fe5d1cc6dd9e006ef6488b3f0571e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:54 +0000
Subject: [PATCH 16/74] fix: adding an exposure to the pixel store leaves the
 caller's images unchanged

---
 forcepho/patches/storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 169d68a..7e131a3 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -169,8 +169,9 @@ class PixelStore:
         hdr = imset.hdr
         band, expID = imset.band, imset.expID
 
-        im = imset.im
-        ierr = imset.ierr
+        # work on copies, the caller's images are not changed
+        im = np.array(imset.im)
+        ierr = np.array(imset.ierr)
         # -- backgound subtract ---
         if imset.bkg is not None:
             bkg = imset.bkg
-- 
2.43.0


From b32f8db15000494a586e41da21331e157a56897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:54 +0000
Subject: [PATCH 17/74] fix: integer masks without a bit mask flag pixels
 instead of indexing rows

---
 forcepho/patches/storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 7e131a3..d160d30 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -184,8 +184,8 @@ class PixelStore:
             pmask = imset.mask
             if bitmask:
                 # just check that any of the bad bits are set
-                pmask = np.bitwise_and(pmask, bitmask) != 0
-            mask = mask | pmask
+                pmask = np.bitwise_and(pmask, bitmask)
+            mask = mask | (pmask != 0)
         ierr[mask] = 0
         im[mask] = 0
         # let masked pixels provide a sampling of the subtracted background
-- 
2.43.0


From cf37fafce2d91e3263c2911b412e40aa96571fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:54 +0000
Subject: [PATCH 18/74] fix: re-adding an exposure keeps the exposures stored
 below a directory of the same name

---
 forcepho/patches/storage.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index d160d30..396641a 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -215,12 +215,11 @@ class PixelStore:
         # --- Put into the HDF5 file; note this opens and closes the file ---
         with h5py.File(self.h5file, "r+") as h5:
             path = f"{band}/{expID}"
-            try:
-                exp = h5.create_group(path)
-            except ValueError:
-                del h5[path]
+            # the group can also hold exposures from a directory of this name
+            exp = h5.require_group(path)
+            if "data" in exp:
+                del exp["data"]
                 print(f"deleted existing data for {path}")
-                exp = h5.create_group(path)
             pdat = exp.create_dataset("data", data=superpixels)
             pdat.attrs["counts_to_flux"] = fluxconv
             pdat.attrs["flux_units"] = unitname
-- 
2.43.0


From 62309769928f8fe864c51bf1ca4d0ef0cfb52f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:31 +0000
Subject: [PATCH 19/74] fix: exposure ids stay unique when a subdirectory
 repeats the frame directory's name

---
 forcepho/patches/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 396641a..13e1971 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -48,8 +48,9 @@ def header_to_id(hdr, name, framedir=None, split_by_detector=[]):
     # Figure out the exposure ID
     expID = os.path.basename(name).replace(".fits", "")
     if framedir:
+        framedir = framedir.rstrip("/")
         assert framedir in os.path.dirname(name)
-        rpath = os.path.dirname(name).replace(framedir, "")
+        rpath = os.path.dirname(name).replace(framedir, "", 1)
         if len(rpath) > 0:
             if rpath[0] == "/":
                 rpath = rpath[1:]
-- 
2.43.0


From feb71ddbd160d7b882c5996b70efb118afda2fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:35 +0000
Subject: [PATCH 20/74] fix: command line options override the configuration
 file in every accepted spelling

---
 forcepho/config.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index e641006..1ee953b 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -266,11 +266,14 @@ def rectify_config(config):
 
 
 def new_args(parser, argv):
+    # parse with placeholders instead of the defaults, so that only the options
+    # that were actually given (however they were spelled) have values.
+    unset = object()
+    keys = vars(parser.parse_args(argv)).keys()
+    oconf = parser.parse_args(argv, namespace=Namespace(**{k: unset for k in keys}))
     nconf = Namespace()
-    oconf = parser.parse_args(argv)
     for k, v in vars(oconf).items():
-        #if v == parset.get_default(k):
-        if f"--{k}" not in argv:  # Ugly HACK
+        if v is unset:
             continue
         setattr(nconf, k, v)
     return nconf
-- 
2.43.0


From 463d122677da76adbe0d6cb746080a1ff4a6aa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:35 +0000
Subject: [PATCH 21/74] fix: configuration dictionaries and empty configuration
 files are accepted

---
 forcepho/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index 1ee953b..7e59487 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -210,9 +210,10 @@ def yaml_to_namespace(config_file):
         with open(config_file) as f:
             config_dict = yaml.load(f, Loader=yaml.Loader)
     elif type(config_file) is dict:
-        config_dict = yaml.load(config_file, Loader=yaml.Loader)
+        config_dict = config_file
 
-    config = Namespace(**config_dict)
+    # an empty file has no settings
+    config = Namespace(**(config_dict or {}))
 
     return config
 
-- 
2.43.0


From a655803f48e65f8edae688ef5cef9d71acaf47af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:35 +0000
Subject: [PATCH 22/74] fix: a store directory does not require all store files
 to be set

---
 forcepho/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index 7e59487..a542d3b 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -244,7 +244,7 @@ def rectify_config(config):
                 n = getattr(config, attr)
                 new = os.path.join(config.store_directory, n)
                 setattr(config, attr, new)
-            except(AttributeError):
+            except(AttributeError, TypeError):
                 print("could not update {}storefile path".format(store))
 
     for k, v in vars(config).items():
-- 
2.43.0


From e012a17c9d94b7b3696d12042fca39f17f06445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:35 +0000
Subject: [PATCH 23/74] fix: writing the default configuration file

---
 forcepho/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index a542d3b..fe70a62 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -137,13 +137,13 @@ def preprocess_config_parser():
 
 def default_config_file(filename="", **kwargs):
     parser = main_config_parser(**kwargs)
-    config = parser.parse_args()
+    config = parser.parse_args([])
     import yaml
-    configtext = yaml.dumps(vars(config))
+    ctext = yaml.dump(vars(config))
     if filename:
         with open(filename, "w") as cfile:
             cfile.write(ctext)
-    return cfile
+    return ctext
 
 
 def parse_all(parser, argv):
-- 
2.43.0


From 193af85763b557227d16d8e7fe54148710b185bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:21 +0000
Subject: [PATCH 24/74] fix: position angles of any size are reduced to within
 +/- 90 degrees

---
 forcepho/superscene.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index f18c58b..2f4768f 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -1023,19 +1023,10 @@ def convert_pa(pa_in, from_deg=False, rotate=False, reverse=False, max_try=4):
     if from_deg:
         pa = np.deg2rad(pa_in)
     else:
-        pa = pa_in.copy()
+        pa = np.array(pa_in, dtype=float)
 
     # restrict to the interval [-pi/2, pi/2]
-    count = 0
-    while count < max_try:
-        p = pa > np.pi / 2
-        n = pa < np.pi / 2
-        if (p.sum() == 0) & (n.sum() == 0):
-            break
-        else:
-            pa[p] -= np.pi
-            pa[n] += np.pi
-            count += 1
+    pa = pa - np.pi * np.round(pa / np.pi)
 
     # rotate PA by +90 degrees but keep in the interval [-pi/2, pi/2]
     if rotate:
-- 
2.43.0


From b9529caf3fdd909447af5314cda82ea69b724c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:21 +0000
Subject: [PATCH 25/74] fix: rectified catalogues have sequential source
 indices whatever the input indices

---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 2f4768f..91013a5 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -785,12 +785,12 @@ def rectify_catalog(sourcecatfile, rhalf_range=(0.051, 0.29), sqrtq_range=(0.2,
     n_sources = len(cat)
     cat_dtype = sourcecat_dtype(bands=bands)
     sourcecat = np.zeros(n_sources, dtype=cat_dtype)
-    sourcecat["source_index"][:] = np.arange(n_sources)
     assert np.all([c in cat.dtype.names for c in shapenames])
     for f in cat.dtype.names:
         if f in sourcecat.dtype.names:
             assert np.all(np.isfinite(cat[f][:])), f"The is a non-finite number in the '{f}' column of the input catalog"
             sourcecat[f][:] = cat[f][:]
+    sourcecat["source_index"][:] = np.arange(n_sources)
 
     # --- Rectify shape columns ---
     sourcecat["rhalf"][:] = np.clip(sourcecat["rhalf"], *rhalf_range)
-- 
2.43.0


From 497cc309799033bcb8ac560ecd61bbf3e3b83e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:11 +0000
Subject: [PATCH 26/74] fix: design matrix and rendering leave the patch and
 its prepared model unchanged

---
 forcepho/patches/device_patch.py | 67 +++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 19 deletions(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 00e9a5f..a2e0197 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -217,41 +217,70 @@ class DevicePatchMixin:
         if not proposer:
             proposer = self.get_proposer()
 
-        # Pack first scene and send it with pixel data
-        self.return_residual = True
         # loop over scenes/sources
         for i, scene in enumerate(scenes):
+            # sources without flux still have a unit-flux image
+            flux = scene.sources[0].flux
+            flux[flux == 0] = 1.0
+            # get model and split by band, normalize
+            model = self._scene_model(scene, proposer)
+            split = np.split(model, np.cumsum(self.band_N_pix[:-1]))
+            for j, b in enumerate(self.bandlist):
+                Xes[j][i, :] = split[j] / flux[j]
+
+        return Xes, ys
+
+    def _scene_model(self, scene, proposer):
+        """Get the model pixel values for a scene, without changing the data on
+        the device.  Afterwards the metadata that was packed before (if any) is
+        restored, so that a prepared model is still valid.
+
+        Parameters
+        ----------
+        scene : instance of forcepho.sources.Scene
+
+        proposer : instance of forcepho.proposal.Proposer
+
+        Returns
+        -------
+        model : ndarray of shape (n_pix,)
+        """
+        names = self.meta_names + ["patch_reference_coordinates", "scene"]
+        previous = {n: getattr(self, n) for n in names if hasattr(self, n)}
+        orig, self.return_residual = self.return_residual, True
+        try:
             # get the metadata for this scene packed and sent (data pointers do not change)
             self.pack_meta(scene)
             self.replace_device_meta_ptrs()
             self.send_patchstruct_to_device()
-
             # evaluate scene
             proposal = scene.get_proposal()
             _, _, residual = proposer.evaluate_proposal(proposal, patch=self, unpack=False)
-            # get model and split by band, normalize
-            model = y - residual
-            split = np.split(model, np.cumsum(self.band_N_pix[:-1]))
-            for j, b in enumerate(self.bandlist):
-                Xes[j][i, :] = split[j] / active[i][b]
+            model = self.retrieve_array("data") - residual
+        finally:
+            self.return_residual = orig
+            for n, v in previous.items():
+                setattr(self, n, v)
+            if "scene" in previous:
+                self.replace_device_meta_ptrs()
+                self.send_patchstruct_to_device()
 
-        return Xes, ys
+        return model
 
     def render(self, catalog, splinedata=None):
         """Convenience method that allows one to render a particular scene
-        represented as rows of a structured array, and return images
+        represented as rows of a structured array, and return images.  Assumes
+        the patch data has been sent to the device.
+
+        Returns
+        -------
+        images : list of ndarrays
+            The model pixel values for each exposure
         """
         proposer = self.get_proposer()
         scene = self.set_scene(catalog, splinedata=splinedata)
-        self.pack_meta(scene)
-
-        proposal = scene.get_proposal()
-        orig, self.return_residual = self.return_residual, True
-        ret = proposer.evaluate_proposal(proposal, patch=self, unpack=True)
-        self.return_residual = True
-        chi2, chi2_derivs, residuals = ret
-        image = -residuals
-        return image
+        model = self._scene_model(scene, proposer)
+        return proposer.unpack_residuals(model, self)
 
     def free(self):
         pass
-- 
2.43.0


From b5bf5e06dbe6d04bec457b54ffc0bb1ed69ba29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:39 +0000
Subject: [PATCH 27/74] fix: the kernels use each source's own point spread
 function components

---
 forcepho/src/compute_gaussians_kernel.cc | 4 ++--
 forcepho/src/compute_gaussians_kernel.cu | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/forcepho/src/compute_gaussians_kernel.cc b/forcepho/src/compute_gaussians_kernel.cc
index c9005ca..095689c 100644
--- a/forcepho/src/compute_gaussians_kernel.cc
+++ b/forcepho/src/compute_gaussians_kernel.cc
@@ -97,7 +97,7 @@ void ConvolveOneSource(int band, int exposure, int g, int n_psf_per_source,
     // loop over source * psf gaussians
     for (int p = 0; p < n_psf_per_source; p++){
 
-        PSFSourceGaussian *psfgauss = patch->psfgauss+psfgauss_start + p;
+        PSFSourceGaussian *psfgauss = patch->psfgauss + psfgauss_start + g * n_psf_per_source + p;
         int tid =  g * n_psf_per_source + p;   // Thread number
 
         // now this stuff is source and psf component dependent
@@ -179,7 +179,7 @@ void ConvolveOne(int band, int exposure, int tid, int n_psf_per_source,
     // specific to the source and psf components
     // --------------------------------------
     // unpack the PSF
-    PSFSourceGaussian *psfgauss = patch->psfgauss+psfgauss_start + p;
+    PSFSourceGaussian *psfgauss = patch->psfgauss + psfgauss_start + g * n_psf_per_source + p;
 
     int s = psfgauss->sersic_radius_bin;
     sersicgauss.covar = patch->rad2[s];
diff --git a/forcepho/src/compute_gaussians_kernel.cu b/forcepho/src/compute_gaussians_kernel.cu
index 647fc97..d43dc1e 100644
--- a/forcepho/src/compute_gaussians_kernel.cu
+++ b/forcepho/src/compute_gaussians_kernel.cu
@@ -74,7 +74,7 @@ __device__ void CreateImageGaussians(Patch * patch, Source * sources, int exposu
         int p = tid - g * n_psf_per_source;   // Gaussian number
 
         Source *galaxy = sources+g;
-        PSFSourceGaussian *psfgauss = patch->psfgauss+psfgauss_start + p;
+        PSFSourceGaussian *psfgauss = patch->psfgauss + psfgauss_start + g * n_psf_per_source + p;
         PixGaussian    sersicgauss;    // This is where we'll queue up the source info
 
         // Source dependent coordinate reference values
-- 
2.43.0


From 212fb870c74934f3820ca21f7c0abc2819a8e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:39 +0000
Subject: [PATCH 28/74] fix: the parameters recorded after linear optimisation
 are those of all active sources

---
 forcepho/tasks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forcepho/tasks.py b/forcepho/tasks.py
index dcd70b9..5cd3676 100644
--- a/forcepho/tasks.py
+++ b/forcepho/tasks.py
@@ -71,10 +71,11 @@ def optimize(patcher, scene, config, logger,
             bounds[b][:, 0] = lo
             bounds[b][:, 1] = hi
             active[b] = f
-        patcher.set_scene(active)
+        linear_scene = patcher.set_scene(active)
+        patcher.zerocoords(linear_scene, patcher.patch_reference_coordinates)
         scratchpad.active_postlinear = active.copy()
         scratchpad.bounds_postlinear = bounds.copy()
-        scratchpad.q_postlinear = patcher.scene.get_all_source_params().copy()
+        scratchpad.q_postlinear = linear_scene.get_all_source_params().copy()
 
     return (out, step, stats), (region, active, fixed, bounds), model
 
-- 
2.43.0


From dd48151cf70c17b18f576e169943ac65f4abd02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:48 +0000
Subject: [PATCH 29/74] fix: a patch without any fixed sources can be prepared

---
 forcepho/patches/device_patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index a2e0197..b810202 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -142,11 +142,11 @@ class DevicePatchMixin:
         # will not actually be subtracted, but will have meta data transferred
         # to GPU and ready to accept proposals.
         scenes = []
-        if big is not None:
+        if big is not None and len(big) > 0:
             inds = np.arange(maxactive, len(big), maxactive)
             blocks = np.array_split(big, inds)
             scenes.extend([self.set_scene(block, **big_scene_kwargs) for block in blocks])
-        if fixed is not None:
+        if fixed is not None and len(fixed) > 0:
             inds = np.arange(maxactive, len(fixed), maxactive)
             blocks = np.array_split(fixed, inds)
             scenes.extend([self.set_scene(block, **scene_kwargs) for block in blocks])
-- 
2.43.0


From 9b0d8570a54660002582b555ada669f915e31b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:30 +0000
Subject: [PATCH 30/74] fix: flux bounds of sources with zero flux

---
 forcepho/superscene.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 91013a5..6c1f093 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -952,12 +952,9 @@ def flux_bounds(flux, unc1, snr_max=10, precisions=None):
         hi = np.maximum(hi, unc1 * sigma)
 
     else:
-        # this is wierd
-        snr = np.sqrt(np.abs(flux)) / unc1
-        #snr = np.minimum(snr, snr_max)
-
+        # this is wierd; the S/N is sqrt(flux) / unc1
         fmin = (unc1 / 2.)**2
-        noise = np.abs(flux) / snr
+        noise = np.sqrt(np.abs(flux)) * unc1
         lo = flux - noise
         hi = flux + noise
 
-- 
2.43.0


From 05a9665e817095ca3748dd3579e8f5ce973ac911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:30 +0000
Subject: [PATCH 31/74] fix: adjusting bounds moves fluxes inside them, and
 accepts a scene

---
 forcepho/superscene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 6c1f093..a7a9f30 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -975,7 +975,7 @@ def adjust_bounds(sceneDB, bands, config=None,
         scat = active
     else:
         bcat = sceneDB.bounds_catalog
-        scat = sceneDB.source_catalog
+        scat = sceneDB.sourcecat
 
     if minflux is None:
         minflux = config.minflux
@@ -997,7 +997,7 @@ def adjust_bounds(sceneDB, bands, config=None,
         for b in bands:
             active[b][:] = np.clip(active[b][:],
                                    bcat[b][:, 0] + eps,
-                                   bcat[b][:, 0] - eps)
+                                   bcat[b][:, 1] - eps)
 
     if not isinstance(sceneDB, np.ndarray):
         sceneDB.check_bounds()
-- 
2.43.0


From 7087d84514e8ed7417df41b52d1c9211f4391581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:30 +0000
Subject: [PATCH 32/74] fix: prior widths of position may differ from source to
 source

---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index a7a9f30..183e852 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -850,7 +850,7 @@ def make_bounds(active, filternames, shapenames=Galaxy.SHAPE_COLS, unccat=None,
         dpos = np.ones(2) * n_pix * pixscale
 
     dra = dpos[0] / 3600. / np.cos(np.deg2rad(active["dec"]))
-    ddec = np.array([dpos[1] / 3600.])
+    ddec = np.atleast_1d(dpos[1] / 3600.)
 
     # Make empty bounds catalog
     colnames = filternames + shapenames
-- 
2.43.0


From 150c04fb532367a1f6cb14e709c09f6c004e2915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:38 +0000
Subject: [PATCH 33/74] fix: a result can be written to a file name without a
 directory

---
 forcepho/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index f4e7481..f22929f 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -189,7 +189,7 @@ class Result(object):
         """
         msgs = []
         import h5py
-        os.makedirs(os.path.dirname(filename), exist_ok=True)
+        os.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
         with h5py.File(filename, "w") as out:
             for name, value in vars(self).items():
                 if type(value) == np.ndarray:
-- 
2.43.0


From 19ed291233903ecfd9c6d4c9d054a0c94ec00c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:38 +0000
Subject: [PATCH 34/74] fix: padding pixels are left out of filled images

---
 forcepho/postprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 813888f..f4016c5 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -141,7 +141,9 @@ class Residuals:
             # Fill array with values for this patch
             xpix, ypix = self.handle[e]["xpix"][:].astype(int), self.handle[e]["ypix"][:].astype(int)
             arr = self.handle[e][fill_type][:]
-            images[e][xpix, ypix] = arr
+            # leave out padding, which has negative coordinates
+            g = (xpix >= 0) & (ypix >= 0)
+            images[e][xpix[g], ypix[g]] = arr[g]
 
         return images, headers
 
-- 
2.43.0


From 76dc46ed4d8240194484984e8e68c8d3c7f8eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:38 +0000
Subject: [PATCH 35/74] fix: images filled without supplied dictionaries do not
 share pixels between calls

---
 forcepho/postprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index f4016c5..c06b724 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -121,10 +121,12 @@ class Residuals:
         pix = sky_to_pix(ra, dec, ee, ref_coords=self.reference_coordinates)
         return pix
 
-    def fill_images(self, images={}, headers={}, fill_type="residual",
+    def fill_images(self, images=None, headers=None, fill_type="residual",
                     metastore=None, imshape=(2048, 2048)):
         """Add the stored pixel data to the images in the supplied `images` dictionary.
         """
+        images = {} if images is None else images
+        headers = {} if headers is None else headers
         for e in self.exposures:
             # create the empty array
             if e not in images:
-- 
2.43.0


From d5521bdb21a948cbd1dcb3f5fee2f992feabc6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:39 +0000
Subject: [PATCH 36/74] fix: images are filled for nested exposure identifiers
 and for image extensions

---
 forcepho/postprocess.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index c06b724..456a732 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -130,16 +130,21 @@ class Residuals:
         for e in self.exposures:
             # create the empty array
             if e not in images:
+                shape = imshape
                 if metastore is not None:
-                    band, exp = e.split("/")
+                    # the exposure identifier may contain slashes
+                    band, exp = e.split("/", 1)
                     hdr = metastore.headers[band][exp]
-                    imshape = (hdr["NAXIS1"], hdr["NAXIS2"])
+                    shape = (hdr["NAXIS1"], hdr["NAXIS2"])
                     headers[e] = hdr
                 elif os.path.exists(e):
-                    hdr = fits.getheader(e)
-                    imshape = (hdr["NAXIS1"], hdr["NAXIS2"])
+                    # the first image, which need not be in the primary HDU
+                    with fits.open(e) as hdus:
+                        hdr = [h.header for h in hdus
+                               if h.is_image and h.header["NAXIS"] == 2][0].copy()
+                    shape = (hdr["NAXIS1"], hdr["NAXIS2"])
                     headers[e] = hdr
-                images[e] = np.zeros(imshape) + np.nan
+                images[e] = np.zeros(shape) + np.nan
             # Fill array with values for this patch
             xpix, ypix = self.handle[e]["xpix"][:].astype(int), self.handle[e]["ypix"][:].astype(int)
             arr = self.handle[e][fill_type][:]
-- 
2.43.0


From e4976ea52e31871262e9f7feafc0826cc0733687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:39 +0000
Subject: [PATCH 37/74] fix: images of exposures with the same name do not
 overwrite each other

---
 forcepho/postprocess.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 456a732..887cb0a 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -476,8 +476,13 @@ def write_images(root, subdir="image", metafile=None, show_model=False, show_chi
     stypes = ["data", "delta", "model", "chi"]
 
     imnames = list(datas.keys())
+    basenames = [n.split("/")[-1] for n in imnames]
     for n in imnames:
-        exp = n.split("/")[-1].replace(".fits", "")
+        exp = n.split("/")[-1]
+        if basenames.count(exp) > 1:
+            # exposures of the same name in different bands or directories
+            exp = n.strip("/").replace("/", "_")
+        exp = exp.replace(".fits", "")
         hdr = hdrs.get(n, None)
         show = [datas[n], deltas[n], None, None]
         if show_model:
-- 
2.43.0


From 811b7829cb8a883631d720ae512f6b13f6bc8b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:39 +0000
Subject: [PATCH 38/74] fix: written images are not rescaled by keywords of the
 original image

---
 forcepho/postprocess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 887cb0a..49fe109 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -502,6 +502,9 @@ def write_images(root, subdir="image", metafile=None, show_model=False, show_chi
                 assert sh.header["NAXIS1"] == hdr["NAXIS1"]
                 assert sh.header["NAXIS2"] == hdr["NAXIS2"]
                 sh.header.update(hdr)
+                # the pixel values are not scaled like those of the original
+                for key in ["BSCALE", "BZERO", "BLANK"]:
+                    sh.header.remove(key, ignore_missing=True)
             sh.header["IMTYPE"] = stype.upper()
             sh.writeto(f"{root}/{subdir}/{exp}_{stype}.fits", overwrite=True)
 
-- 
2.43.0


From 644ef4cc0c85a8d46bcd07e97f242853076b4b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:56 +0000
Subject: [PATCH 39/74] fix: chains of sources in several patches are found by
 patch ID

---
 forcepho/postprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 49fe109..27a6ff0 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -379,7 +379,7 @@ def find_multipatch(root):
         A list of the posterior sample chains for each source.
     """
     config, plog, slog, final = run_metadata(root)
-    samples = [Samples(f"{root}/patches/patch{p}_samples.h5") for p in plog]
+    samples = {int(p): Samples(f"{root}/patches/patch{p}_samples.h5") for p in plog}
     chains, sources, patches = [], [], []
     for sid, pids in slog.items():
         if len(pids) == 1:
-- 
2.43.0


From 21ae20974463e0d568e817fe977ce4ae2626cdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:56 +0000
Subject: [PATCH 40/74] fix: statistics of sources in several patches

---
 forcepho/postprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 27a6ff0..15a4d73 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -400,7 +400,9 @@ def check_multipatch(root, n_sample=256):
     stats = {}
     for s, p, c in zip(sid, pids, chains):
         stats[s] = {}
-        for col in vcols:
+        for col in c.dtype.names:
+            if col == "source_index":
+                continue
             sm = c[col][:, -n_sample:]
             stats[s][col] = sm.mean(axis=-1), sm.std(axis=-1)
     return stats
-- 
2.43.0


From 43733feef91d52c9abc1b28d494bcc36d0f6bb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:56 +0000
Subject: [PATCH 41/74] fix: sample catalogues of a subset of the patches have
 a row for every source

---
 forcepho/postprocess.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 15a4d73..a6af363 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -275,8 +275,11 @@ def postsample_catalog(root, catname=None, patches=None):
     if patches is None:
         config, plog, slog, final = run_metadata(root)
         patches = plog
+        n_source = len(final)
     else:
-        final = patches
+        # one row for every source index up to the largest in these patches
+        n_source = 1 + max(Samples(f"{root}/patches/patch{p}_samples.h5").chaincat["source_index"].max()
+                           for p in patches)
 
     # Get catalog data type
     s = Samples(f"{root}/patches/patch{patches[0]}_samples.h5")
@@ -287,7 +290,7 @@ def postsample_catalog(root, catname=None, patches=None):
     new = np.dtype(icols + [(c, float, n_sample) for c in params])
 
     # Make and fill the catalog
-    cat = np.zeros(len(final), np.dtype(new))
+    cat = np.zeros(n_source, np.dtype(new))
     cat["id"] = -1
     for p in patches:
         s = Samples(f"{root}/patches/patch{p}_samples.h5")
-- 
2.43.0


From 9a88dff082dc8fa8f3acc0f9443772cdcc471bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:56 +0000
Subject: [PATCH 42/74] fix: default flux uncertainties are used for patches
 without precision matrices

---
 forcepho/postprocess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index a6af363..2d7aaad 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -356,6 +356,7 @@ def flux_unc_linear(root, snr_max=1000):
 
         if not hasattr(s, "precisions"):
             print(f"flux_unc_linear: No precisons for {patchfile}")
+            continue
 
         for i, b in enumerate(s.bands):
             flux = s.final[b]
-- 
2.43.0


From 8bd34e3fad7ea1f22c05b2ae088c5631852d9781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:56 +0000
Subject: [PATCH 43/74] fix: the post-optimization catalogue is made from the
 run's own scene catalogue and patches

---
 forcepho/postprocess.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 2d7aaad..08a29c2 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -224,7 +224,8 @@ def postop_catalog(root, bands=None, catname=None):
     catname : string
         Name of the output catalog
     """
-    samples = Samples(f"{root}/patches/patch0_samples.h5")
+    rconfig, plog, slog, final = run_metadata(root)
+    samples = Samples(f"{root}/patches/patch{plog[0]}_samples.h5")
     if catname is None:
         config = json.loads(samples.config)
         raw = config["raw_catalog"]
@@ -232,8 +233,8 @@ def postop_catalog(root, bands=None, catname=None):
     if bands is None:
         bands = samples.bands
 
-    catalog = glob.glob(f"{root}/*fits")[0]
-    hdus = fits.open(catalog)
+    catalog = rconfig.get("scene_catalog", "superscene.fits")
+    hdus = fits.open(f"{root}/{catalog}")
     cat = hdus[1].data
     cat["n_iter"] = 0
     cat["n_patch"] = 0
-- 
2.43.0


From 4bc3742391d89bcd267a20035063db793cd8e9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:54 +0000
Subject: [PATCH 44/74] fix: source region files are written from the run's
 scene catalogue

---
 forcepho/postprocess.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 08a29c2..8432a63 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -14,7 +14,7 @@ from astropy.io import fits
 import h5py
 
 from .fitting import Result
-from .utils import sky_to_pix, populate_image, isophotal_radius
+from .utils import sky_to_pix, populate_image, isophotal_radius, cat_to_regions
 from .patches.storage import MetaStore
 from .superscene import flux_bounds
 
@@ -422,19 +422,18 @@ def write_sourcereg(root, slist="sources.reg", showid=False,
         If given, the band for which to compute the isophotal radius, and the
         isophote level in nJy/arcsec^2
     """
-    f = glob.glob(f"{root}/outscene*.fits")[0]
+    config, plog, slog, cat = run_metadata(root)
     os.makedirs(f"{root}/image", exist_ok=True)
     rfile = f"{root}/image/{slist}"
 
-    cat = fits.getdata(f)
     if isophote is not None:
         roi = isophotal_radius(isophote[1], cat[isophote[0]],
                                cat["rhalf"], sersic=cat["sersic"])
         roi[np.isnan(roi)] = cat["rhalf"][np.isnan(roi)]
     else:
         roi = cat["rhalf"]
-    regions = cat_to_reg(cat, roi=roi, ellipse=True)
-    regions.write(slist, format="ds9", overwrite=True)
+    regions = cat_to_regions(cat, roi=roi, ellipse=True, showid=showid)
+    regions.write(rfile, format="ds9", overwrite=True)
 
     return regions
 
-- 
2.43.0


From 9641574d083e0f2482e4b15a5c9ff900854af14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:15 +0000
Subject: [PATCH 45/74] fix: images of exposures whose names differ only by a
 suffix do not overwrite each other

---
 forcepho/postprocess.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 8432a63..30a48a5 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -482,13 +482,11 @@ def write_images(root, subdir="image", metafile=None, show_model=False, show_chi
     stypes = ["data", "delta", "model", "chi"]
 
     imnames = list(datas.keys())
-    basenames = [n.split("/")[-1] for n in imnames]
-    for n in imnames:
-        exp = n.split("/")[-1]
+    basenames = [n.split("/")[-1].replace(".fits", "") for n in imnames]
+    for n, exp in zip(imnames, basenames):
         if basenames.count(exp) > 1:
             # exposures of the same name in different bands or directories
             exp = n.strip("/").replace("/", "_")
-        exp = exp.replace(".fits", "")
         hdr = hdrs.get(n, None)
         show = [datas[n], deltas[n], None, None]
         if show_model:
-- 
2.43.0


From d45668c055539386644b8eb7210e7f6a91cf2973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:17 +0000
Subject: [PATCH 46/74] fix: sample catalogues combine patches with different
 bands

---
 forcepho/postprocess.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 30a48a5..8c8f178 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -285,6 +285,9 @@ def postsample_catalog(root, catname=None, patches=None):
     # Get catalog data type
     s = Samples(f"{root}/patches/patch{patches[0]}_samples.h5")
     bands, shapes, n_sample = list(s.bands), list(s.shape_cols), s.n_sample
+    # not every band need be present in every patch
+    for p in patches[1:]:
+        bands += [b for b in Samples(f"{root}/patches/patch{p}_samples.h5").bands if b not in bands]
     params = bands + shapes
     icols = [("id", "<i4"), ("source_index", "<i4"), ("patch_id", "<i4"),
              ("wall", "<f4"), ("lnp", "<f8", n_sample)]
@@ -302,7 +305,7 @@ def postsample_catalog(root, catname=None, patches=None):
         cat["wall"][inds] = s.wall_time
         cat["lnp"][inds] = s.stats["model_logp"][-n_sample:]
         for col in params:
-            cat[col][inds] = s.chaincat[col][:, -n_sample:]
+            cat[col][inds] = s.chaincat[col][:, -n_sample:] if col in s.chaincat.dtype.names else np.nan
 
     #cat = cat[cat["id"] >= 0]
 
-- 
2.43.0


From 6bcb446e872f0e529695d3cc0e2e1b6e79ab3bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:17 +0000
Subject: [PATCH 47/74] fix: chains of sources in patches with different bands
 are combined

---
 forcepho/postprocess.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 8c8f178..ec5e3b2 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -396,7 +396,13 @@ def find_multipatch(root):
         for pid in pids:
             ai = samples[int(pid)].active["source_index"].tolist().index(int(sid))
             c.append(samples[int(pid)].chaincat[ai:ai+1])
-        chains.append(np.concatenate(c))
+        # not every band need be present in every patch
+        dtype = {n: row.dtype[n] for row in c for n in row.dtype.names}
+        chain = np.zeros(len(c), dtype=list(dtype.items()))
+        for i, row in enumerate(c):
+            for n in dtype:
+                chain[n][i] = row[n][0] if n in row.dtype.names else np.nan
+        chains.append(chain)
         sources.append(sid)
         patches.append(pids)
 
-- 
2.43.0


From 8df5cc1a6e1fce5aa6d70e9ce567e1a99812808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:17 +0000
Subject: [PATCH 48/74] fix: the post-optimization catalogue has all the bands
 of the run

---
 forcepho/postprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index ec5e3b2..d7254b8 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -231,7 +231,8 @@ def postop_catalog(root, bands=None, catname=None):
         raw = config["raw_catalog"]
         catname = raw.replace(".fits", "_postop.fits")
     if bands is None:
-        bands = samples.bands
+        # the first patch need not have every band of the run
+        bands = rconfig.get("bandlist", samples.bands)
 
     catalog = rconfig.get("scene_catalog", "superscene.fits")
     hdus = fits.open(f"{root}/{catalog}")
-- 
2.43.0


From 19d991f74ac928978f5be866e6889800b232b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:32 +0000
Subject: [PATCH 49/74] fix: regions of sources without an isophotal radius
 have a finite size

---
 forcepho/postprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index d7254b8..6e7855c 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -439,7 +439,8 @@ def write_sourcereg(root, slist="sources.reg", showid=False,
     if isophote is not None:
         roi = isophotal_radius(isophote[1], cat[isophote[0]],
                                cat["rhalf"], sersic=cat["sersic"])
-        roi[np.isnan(roi)] = cat["rhalf"][np.isnan(roi)]
+        bad = ~np.isfinite(roi)
+        roi[bad] = cat["rhalf"][bad]
     else:
         roi = cat["rhalf"]
     regions = cat_to_regions(cat, roi=roi, ellipse=True, showid=showid)
-- 
2.43.0


From 791d861e132d4ad281ea26f29f37e1f3ecaae20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:55 +0000
Subject: [PATCH 50/74] fix: scenes made without sources do not share their
 list of sources

---
 forcepho/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index 7b7545e..6379e9c 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -30,8 +30,8 @@ class Scene(object):
     array of parameters and the parameters of each source in each band/image
     """
 
-    def __init__(self, sources=[], catalog=None, **catkwargs):
-        self.sources = sources
+    def __init__(self, sources=None, catalog=None, **catkwargs):
+        self.sources = [] if sources is None else sources
         if catalog is not None:
             self.from_catalog(catalog, **catkwargs)
         self.identify_sources()
-- 
2.43.0


From aea9421b0a0463aea1a9a4a8e0978cfd617134d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:55 +0000
Subject: [PATCH 51/74] fix: parameter indices account for fixed sources, and
 cover all bands when no filter is given

---
 forcepho/sources.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index 6379e9c..6e75d6c 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -204,13 +204,15 @@ class Scene(object):
         inds : ndarray of ints
             Indices of the parameters for this source.
         """
-        npar_per_source = [s.n_params for s in self.active_sources[:sid]]
+        npar_per_source = [s.n_params for s in self.sources[:sid] if not s.fixed]
         # get all the shape parameters
         source = self.sources[sid]
         start = int(np.sum(npar_per_source))
         # indices of the shape and position parameters
         inds = list(range(start + source.n_bands, start + source.n_params))
         # put in the flux for this source in this band
+        if filtername is None:
+            return list(range(start, start + source.n_bands)) + inds
         inds.insert(0, start + source.filter_index(filtername))
         return inds
 
-- 
2.43.0


From 75270118e58ec154cba772bb1b96a6d7354679cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:55 +0000
Subject: [PATCH 52/74] fix: scene catalogues keep the precision of source
 coordinates

---
 forcepho/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index 6e75d6c..e8d09cc 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -438,7 +438,7 @@ class Source:
                 ["{}".format(b) for b in self.filternames] +
                 self.SHAPE_COLS)
         cols += extra_cols
-        self._cat_dtype = np.dtype([(c, np.float32) for c in cols])
+        self._cat_dtype = np.dtype([(c, np.float64) for c in cols])
         return self._cat_dtype
 
     def to_catalog_row(self, extra_cols=[]):
-- 
2.43.0


From 28e3e38a3526aaa7aa7b2d601f096cbe218a7d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:55 +0000
Subject: [PATCH 53/74] fix: scenes of any source type can be made from a
 catalogue

---
 forcepho/sources.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index e8d09cc..ceb20b6 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -251,7 +251,7 @@ class Source:
     sersic = 0.   # sersic index
     rhalf = 0.    # half light radius
 
-    def __init__(self, filters=['band'], radii=None):
+    def __init__(self, filters=['band'], radii=None, filternames=None):
         """
         Parameters
         ----------
@@ -264,6 +264,8 @@ class Source:
             The length of the supplied `filters` list will determine the length
             of the `flux` vector, accessible via the `n_bands` attribute.
         """
+        if filternames is not None:
+            filters = filternames
         assert type(filters) == list
         self.filternames = filters
         self.flux = np.zeros(len(self.filternames))
-- 
2.43.0


From 71ff0a11c424afc14aa020ad7e559bdf19f4f2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:55 +0000
Subject: [PATCH 54/74] fix: catalogues of sheared galaxies with fixed sersic
 parameters have the shear columns

---
 forcepho/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index ceb20b6..c14ba6d 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -554,7 +554,7 @@ class Galaxy(Source):
         if not free_sersic:
             # Fix the sersic parameters n_sersic and r_h
             self.nshape = 2
-            self.SHAPE_COLS = ["ra", "dec", "q", "pa"]
+            self.SHAPE_COLS = self.SHAPE_COLS[:self.npos + self.nshape]
 
         # For generating proposals that can be sent to the GPU
         from .proposal import source_struct_dtype
-- 
2.43.0


From 32c94831696469063ee21d85d7e9307876279a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:14 +0000
Subject: [PATCH 55/74] fix: galaxies with a single mixture component have
 amplitude arrays

---
 forcepho/sources.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index c14ba6d..246a03a 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -671,8 +671,8 @@ class Galaxy(Source):
             amp = np.zeros(len(self.radii))
             amp[0] = 1.0
         else:
-            amp = np.squeeze(np.array([spline(self.sersic, self.rhalf)
-                                       for spline in self.splines]))
+            amp = np.array([spline(self.sersic, self.rhalf)
+                            for spline in self.splines]).reshape(-1)
         return amp
 
     @property
@@ -683,8 +683,8 @@ class Galaxy(Source):
         if (self.sersic < self.sersic_range[0]) or (self.rhalf < 0):
             return np.zeros(len(self.radii))
         # n_gauss array of da/dsersic
-        return np.squeeze(np.array([spline(self.sersic, self.rhalf, dx=1)
-                                    for spline in self.splines]))
+        return np.array([spline(self.sersic, self.rhalf, dx=1)
+                         for spline in self.splines]).reshape(-1)
 
     @property
     def damplitude_drh(self):
@@ -694,8 +694,8 @@ class Galaxy(Source):
         if (self.sersic < self.sersic_range[0]) or (self.rhalf < 0):
             return np.zeros(len(self.radii))
         # n_gauss array of da/drh
-        return np.squeeze(np.array([spline(self.sersic, self.rhalf, dy=1)
-                                    for spline in self.splines]))
+        return np.array([spline(self.sersic, self.rhalf, dy=1)
+                         for spline in self.splines]).reshape(-1)
 
     def profile(self, r, band=None, epsilon=2.5e-3):
         """Compute the circularized surface brightness profile.
-- 
2.43.0


From 7f727bbf4f08b2da2033935300138e584eeff4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:04 +0000
Subject: [PATCH 56/74] fix: reference gradients of sources with zero flux or
 amplitude are finite

---
 forcepho/slow/gaussmodel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/forcepho/slow/gaussmodel.py b/forcepho/slow/gaussmodel.py
index 6b926be..4a23919 100644
--- a/forcepho/slow/gaussmodel.py
+++ b/forcepho/slow/gaussmodel.py
@@ -305,9 +305,10 @@ def _get_gaussian_gradients(source_n_gauss, stamp_psf_n_gauss, scovars, pcovar,
             # of Amplitude
             dA_dq = K / (2 * detF) * ddetF_dq  # 1
             dA_dpa = K / (2 * detF) * ddetF_dpa  # 1
-            dA_dflux = K / flux  # 1
-            dA_dsersic = K / am * da_dn[i]  # 1
-            dA_drh = K / am * da_dr[i]  # 1
+            norm = G * al * detF**(0.5) / (2 * np.pi)
+            dA_dflux = norm * am  # 1
+            dA_dsersic = norm * flux * da_dn[i]  # 1
+            dA_drh = norm * flux * da_dr[i]  # 1
 
             # --- Add derivatives to gaussians ---
             # - As a list of just nonzero -
@@ -437,7 +438,7 @@ def _compute_gaussian(g, xpix, ypix, second_order=True, compute_deriv=True,
 
     # --- Calculate derivatives ---
     if compute_deriv:
-        dC_dA = C / g.amp
+        dC_dA = Gp * H * root_det
         dC_dx = C*vx
         dC_dy = C*vy
         dC_dfx = -0.5*C*dx*dx
-- 
2.43.0


From e2e1ae81ea1db631f8501934fa4aa65f8ad85a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:04 +0000
Subject: [PATCH 57/74] fix: fixed sources contribute to the reference
 likelihood

---
 forcepho/slow/likelihood.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index c1c7327..cd91493 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -153,7 +153,7 @@ def plan_sources(plan, scene, stamp_index=None):
             # OFF IMAGE
             continue
         gig = convert_to_gaussians(source, stamp)
-        if coverage == 1:
+        if coverage == 1 or source.fixed:
             # FIXED
             fixed.append(gig)
             continue
@@ -235,6 +235,13 @@ class WorkPlan(object):
                 # In reality we will want to multiply by chi and sum over
                 # pixels *HERE* to avoid storage
                 self.gradients[i, :, :] += np.matmul(g.derivs, dI_dphi)
+        for i, gig in enumerate(self.fixed, start=self.nactive):
+            for j, g in enumerate(gig.gaussians):
+                # fixed sources have counts but no gradients
+                kwargs = dict(self.compute_keywords, compute_deriv=False)
+                self.residual[i, ...] -= compute_gaussian(g, self.stamp.xpix.reshape(-1),
+                                                          self.stamp.ypix.reshape(-1),
+                                                          **kwargs)
 
     def lnlike(self, active=None, fixed=None):
         """Returns a scalar chi^2 value and a chi^2 gradient array of
-- 
2.43.0


From 108012713ac9d5a1a9598af1abe113ca6952ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:04 +0000
Subject: [PATCH 58/74] fix: evaluating a FastWorkPlan does not change the
 options of other plans

---
 forcepho/slow/likelihood.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index cd91493..ec519d3 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -294,20 +294,20 @@ class FastWorkPlan(WorkPlan):
         for i, gig in enumerate(self.active + self.fixed):
             for j, g in enumerate(gig.gaussians):
                 # get the image counts for each Gaussian in a GaussianGalaxy
-                self.compute_keywords['compute_deriv'] = False
+                kwargs = dict(self.compute_keywords, compute_deriv=False)
                 self.residual -= compute_gaussian(g, self.stamp.xpix.flat,
                                                   self.stamp.ypix.flat,
-                                                  **self.compute_keywords)
+                                                  **kwargs)
         self.chi = self.residual * self.ierr
         self.chivar = self.chi * self.ierr
         # Loop only over active to get the chisq gradients
         for i, gig in enumerate(self.active):
             for j, g in enumerate(gig.gaussians):
-                self.compute_keywords['compute_deriv'] = True
+                kwargs = dict(self.compute_keywords, compute_deriv=True)
                 # get the image gradients for each Gaussian in a GaussianGalaxy
                 I, dI_dphi = compute_gaussian(g, self.stamp.xpix.flat,
                                               self.stamp.ypix.flat,
-                                              **self.compute_keywords)
+                                              **kwargs)
                 # Accumulate the *chisq* derivatives w.r.t. theta from each Gaussian
                 # This matrix multiply can be optimized (g.derivs is sparse)
                 self.gradients[i, :] += np.matmul(g.derivs, np.matmul(dI_dphi, self.chivar))
-- 
2.43.0


From d78a8680a27010c6c3683ecdb9009cddf084e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:04 +0000
Subject: [PATCH 59/74] fix: reference likelihood gradients of sheared galaxies
 are with respect to the shear

---
 forcepho/slow/likelihood.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index ec519d3..342d46d 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -160,6 +160,10 @@ def plan_sources(plan, scene, stamp_index=None):
         if coverage > 1:
             # ACTIVE
             gig = get_gaussian_gradients(source, stamp, gig)
+            if hasattr(source, "ds_deta"):
+                # convert d/dq, d/dphi to d/deta_+, d/deta_x
+                for g in gig.gaussians:
+                    g.derivs[3:5] = np.matmul(source.ds_deta, g.derivs[3:5])
             active.append(gig)
             # get indices of parameters of the source in the giant Theta array
             theta_inds += scene.param_indices(j, plan.stamp.filtername)
-- 
2.43.0


From 42575cd2dd1a4eaddf65f41a5b630e8bf95288a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:04 +0000
Subject: [PATCH 60/74] fix: single gaussian PSFs have the requested width

---
 forcepho/slow/psf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/slow/psf.py b/forcepho/slow/psf.py
index 367bd6e..ca05e9a 100644
--- a/forcepho/slow/psf.py
+++ b/forcepho/slow/psf.py
@@ -110,7 +110,7 @@ def get_psf(psfname=None, fwhm=1.0, psf_realization=0,
 
     else:
         psf = PointSpreadFunction()
-        psf.covariances *= fwhm / 2.355
+        psf.covariances *= (fwhm / 2.355)**2
 
     return psf
 
-- 
2.43.0


From 223afbd61f3012f01c16338a167f1f671aeac190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:57 +0000
Subject: [PATCH 61/74] fix: centers of PSF components in arcseconds are
 converted to pixels

---
 forcepho/slow/gaussmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/slow/gaussmodel.py b/forcepho/slow/gaussmodel.py
index 4a23919..8f3f20f 100644
--- a/forcepho/slow/gaussmodel.py
+++ b/forcepho/slow/gaussmodel.py
@@ -125,7 +125,7 @@ def convert_to_gaussians(source, stamp, compute_deriv=False):
     # get PSF component means and covariances in the pixel space
     if psf.units == 'arcsec':
         pcovar = fast_matmul_matmul_2x2(D, psf.covariances, D.T)
-        pmeans = np.matmul(D, psf.means)
+        pmeans = np.matmul(psf.means, D.T)
         # FIXME need to adjust amplitudes to still sum to one?
         pamps = psf.amplitudes
     elif psf.units == 'pixels':
-- 
2.43.0


From d7c504138bd45f623dea600c08c762d666ce05e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:28 +0000
Subject: [PATCH 62/74] fix: optimisation results reported half of the
 log-probability as lnp

---
 forcepho/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index f22929f..6e976fa 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -444,7 +444,7 @@ def run_opt(model, q, jac=True, callback=None, **extras):
     if model.transform is not None:
         result.chain = model.transform.transform(result.chain)
 
-    result.lnp = -0.5 * scires.fun
+    result.lnp = -scires.fun
     result.wall_time = tsample
 
     result.fun = scires.fun
@@ -489,7 +489,7 @@ def run_opt_bounded(model, q, jac=True, callback=None, **extras):
     if model.transform is not None:
         result.chain = model.transform.transform(result.chain)
 
-    result.lnp = -0.5 * scires.fun
+    result.lnp = -scires.fun
     result.wall_time = tsample
 
     result.fun = scires.fun
-- 
2.43.0


From 03f649732522f31848b7f832918543c39b57d9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:45 +0000
Subject: [PATCH 63/74] fix: tasks submitted without a tag were sent with
 MPI.ANY_TAG, an invalid tag

---
 forcepho/dispatcher.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 5fde6e5..c3ee990 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -126,10 +126,9 @@ class MPIQueue:
         child process at the top of the (idle) queue. If no children are idle,
         an error is raised.
         """
-        from mpi4py import MPI
-
         if tag == 'any':
-            tag = MPI.ANY_TAG
+            # MPI.ANY_TAG is only valid for receiving
+            tag = 0
 
         # Why make this an error rather than queue it up for later?
         # Because we want to generate tasks with the freshest SuperScene info
-- 
2.43.0


From 7b89c27a7510b6af81881aab8e16583163599adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:13 +0000
Subject: [PATCH 64/74] fix: append_catalogs copied structural keywords to
 every extension, hiding the first table

---
 forcepho/utils/catalog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/utils/catalog.py b/forcepho/utils/catalog.py
index 63b13d0..04f9d2e 100644
--- a/forcepho/utils/catalog.py
+++ b/forcepho/utils/catalog.py
@@ -49,7 +49,9 @@ def append_catalogs(infilenames, out):
                     catlists[i].append(hdul[ext].data.copy())
                 except(KeyError):
                     catlists[i].append(hdul[i].data.copy())
-            hdr = hdul[1].header
+            # keywords describing the structure belong to each table
+            hdr = hdul[1].header.copy(strip=True)
+            hdr.remove("EXTNAME", ignore_missing=True)
 
     cats = [np.concatenate(catlist)
             for catlist in catlists]
-- 
2.43.0


From 4fd3a2985724061eefec6a44db81da0f415a246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:13 +0000
Subject: [PATCH 65/74] fix: combine_chains could not find the integer ids of a
 sample catalogue

---
 forcepho/utils/catalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/utils/catalog.py b/forcepho/utils/catalog.py
index 04f9d2e..b0b6adb 100644
--- a/forcepho/utils/catalog.py
+++ b/forcepho/utils/catalog.py
@@ -69,10 +69,10 @@ def combine_chains(chaincat, bands, groups={}):
     dtype = out_dtype(npoint, shapes=["ra", "dec"], bands=bands)
     ocat = np.zeros(len(groups), dtype=dtype)
 
-    mid = scat["id"].tolist()
+    mid = [str(s) for s in scat["id"].tolist()]
     # loop over combined objects
     for i, (g, sub) in enumerate(groups.items()):
-        ocat[i]["id"] = float(g)
+        ocat[i]["id"] = str(g)
         hdr[f"G{g}"] = ",".join([str(s) for s in sub])
         # get indices of components for this combination
         ids = [str(s) for s in sub]
-- 
2.43.0


From bdd0150d3a5ed5e67eb1c8bf19f35f8a09d505d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:28 +0000
Subject: [PATCH 66/74] fix: keep each EM answer's parameters apart from the
 next start's

When the likelihood turned NaN on the first iteration, the answer held the
shared array of starting values, which the next repeat overwrites.
---
 forcepho/mixtures/psf_mix_em.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/mixtures/psf_mix_em.py b/forcepho/mixtures/psf_mix_em.py
index 35537b9..cfa47d3 100644
--- a/forcepho/mixtures/psf_mix_em.py
+++ b/forcepho/mixtures/psf_mix_em.py
@@ -131,7 +131,7 @@ def fit_mvn_mix(image_data, num_mix, method_opt, method_init,
         elif method_opt == 'em':
             def log_likelihood(params):
                 return np.sum(image_data * np.log(mvn_pdf_2d_mix_fn(num_mix, x_max, y_max)(params)))
-            curr_params = all_init
+            curr_params = all_init.copy()
             curr_log_likelihood = log_likelihood(curr_params)
             # weights = 3-dim array x,y,k - weights[x,y,k] propto N(x,y|param_k) and sum over k = 1
             # param_k is param[6*k:(6*k+6)]
-- 
2.43.0


From 52ec040bcb56613e8162bd0f3f6b20ec0f73ea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:28 +0000
Subject: [PATCH 67/74] fix: least squares PSF mixture fits raised TypeError

---
 forcepho/mixtures/psf_mix_em.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/mixtures/psf_mix_em.py b/forcepho/mixtures/psf_mix_em.py
index cfa47d3..2591147 100644
--- a/forcepho/mixtures/psf_mix_em.py
+++ b/forcepho/mixtures/psf_mix_em.py
@@ -127,7 +127,7 @@ def fit_mvn_mix(image_data, num_mix, method_opt, method_init,
                                 bounds=([-np.inf, 0, 0, 0, 0, -1]*num_mix,
                                         [np.inf, x_max-1, y_max-1, np.inf, np.inf, 1]*num_mix)
                                 )
-            ans_repeat.append(create_ans(res.x))
+            ans_repeat.append(create_ans(res.x, {}))
         elif method_opt == 'em':
             def log_likelihood(params):
                 return np.sum(image_data * np.log(mvn_pdf_2d_mix_fn(num_mix, x_max, y_max)(params)))
-- 
2.43.0


From ce1abe9b4b7251d8b0634ab6db3f07c8025cfb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:28 +0000
Subject: [PATCH 68/74] fix: EM fits that reach the iteration limit were
 dropped

The result list then had fewer entries than requested starts (none at all
made returnfull=False raise).
---
 forcepho/mixtures/psf_mix_em.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forcepho/mixtures/psf_mix_em.py b/forcepho/mixtures/psf_mix_em.py
index 2591147..4b63b27 100644
--- a/forcepho/mixtures/psf_mix_em.py
+++ b/forcepho/mixtures/psf_mix_em.py
@@ -201,6 +201,10 @@ def fit_mvn_mix(image_data, num_mix, method_opt, method_init,
                 curr_params = new_params
                 curr_log_likelihood = new_log_likelihood
                 loop_count += 1
+            else:
+                # iteration limit reached without convergence
+                ans_repeat.append(create_ans(curr_params,
+                        {'loop_count':loop_count, 'final_log_likelihood':curr_log_likelihood}))
     if returnfull:
         return ans_repeat
     else:
-- 
2.43.0


From 1729ad2f11d19f03aecd8d504d27e6b3f4d4fd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:28 +0000
Subject: [PATCH 69/74] fix: PSF mixture centers for images that are not square

params_to_gauss flips the fitted (row, column) means to (x, y), so the start
and center of the (row, column) image have to be flipped too.
---
 forcepho/mixtures/utils_em.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/mixtures/utils_em.py b/forcepho/mixtures/utils_em.py
index 27e0b90..05f77e4 100644
--- a/forcepho/mixtures/utils_em.py
+++ b/forcepho/mixtures/utils_em.py
@@ -106,7 +106,8 @@ def psf_mixture(psfimname, band, nmix, nrepeat=5,
     for i, r in enumerate(results):
         # Note this flips the x and y axes from what is in `result`
         # It also makes sure x and y are relative to the center in the full image
-        pars = params_to_gauss(r, oversample=oversample, start=start, center=center_full)
+        pars = params_to_gauss(r, oversample=oversample,
+                               start=start[::-1], center=center_full[::-1])
         x, y, vx, vy, vxy, amp = pars
         for j in range(nmix):
             parameters[i, j] = (x[j], y[j], vx[j], vy[j], vxy[j], amp[j])
-- 
2.43.0


From 34cfa4af37b9ee72096e9603df78f1bd4d71babb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:28 +0000
Subject: [PATCH 70/74] fix: default n_gauss for pickled PSF mixtures on Python
 3

---
 forcepho/slow/psf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/slow/psf.py b/forcepho/slow/psf.py
index ca05e9a..b57416c 100644
--- a/forcepho/slow/psf.py
+++ b/forcepho/slow/psf.py
@@ -98,7 +98,7 @@ def get_psf(psfname=None, fwhm=1.0, psf_realization=0,
                 pdat = pickle.load(pf)
 
             if n_gauss is None:
-                n_gauss = pdat.keys()[0]
+                n_gauss = list(pdat.keys())[0]
             answer = pdat[n_gauss][psf_realization]
             psf = make_psf(answer, oversample=oversample, center=center)
         # newstyle
-- 
2.43.0


From 4fa7bcb8193ea93ca13cc475bcfe850d133c286e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:14 +0000
Subject: [PATCH 71/74] fix: Kron radius within a maximum radius

---
 forcepho/utils/profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/utils/profile.py b/forcepho/utils/profile.py
index bef7bea..ad75aa0 100644
--- a/forcepho/utils/profile.py
+++ b/forcepho/utils/profile.py
@@ -27,7 +27,9 @@ def kron_radius(rhalf, sersic, rmax=None):
         x = k*(rmax / rhalf)**(1./sersic)
         c = gammainc(3 * sersic, x) / gammainc(2 * sersic, x)
     else:
-        c = gamma(3 * sersic) / gamma(2 * sersic)
+        c = 1.0
+    # note gammainc(a, x) is normalized by gamma(a)
+    c = c * gamma(3 * sersic) / gamma(2 * sersic)
     r_kron = rhalf / k**sersic * c
     return r_kron
 
-- 
2.43.0


From 14c3e1b89be450d507e307ce8e7498fc9b3e5582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:14 +0000
Subject: [PATCH 72/74] fix: Sersic mixtures with free radii on Python 3

---
 forcepho/mixtures/sersic_mix_oned.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/mixtures/sersic_mix_oned.py b/forcepho/mixtures/sersic_mix_oned.py
index 8d20526..aba5e07 100644
--- a/forcepho/mixtures/sersic_mix_oned.py
+++ b/forcepho/mixtures/sersic_mix_oned.py
@@ -97,8 +97,8 @@ def chisq(params, x=None, target=None, radii=None,
         disps = np.exp(radii)
         amps = np.exp(params[:len(radii)])
     else:
-        amps = np.exp(params[:len(params)/2])
-        disps = np.exp(params[len(params)/2:])
+        amps = np.exp(params[:len(params)//2])
+        disps = np.exp(params[len(params)//2:])
     # this is to account for two-d normalization and smoothing
     disps = np.hypot(disps, smoothing)
     amps /= disps * np.sqrt(2 * np.pi)
-- 
2.43.0


From c69d96251932ea686cd08f0f1de124668fcd9108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:30 +0000
Subject: [PATCH 73/74] fix: local WCS scale across the RA 0/360 boundary

---
 forcepho/slow/stamp.py | 2 ++
 forcepho/utils/wcs.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/forcepho/slow/stamp.py b/forcepho/slow/stamp.py
index e6d09a0..ff970ee 100644
--- a/forcepho/slow/stamp.py
+++ b/forcepho/slow/stamp.py
@@ -240,6 +240,8 @@ def scale_at_sky(sky, wcs, dpix=1.0, origin=1, make_approx=False):
         # compute dpix_dsky matrix
         P = np.eye(2) * dpix
         St = np.array([pos1_sky - pos0_sky, pos2_sky - pos0_sky])
+        # RA differences across the 0/360 boundary
+        St[:, 0] -= 360.0 * np.round(St[:, 0] / 360.0)
         CW_mat = np.linalg.solve(St, P).T
 
         # compute D matrix
diff --git a/forcepho/utils/wcs.py b/forcepho/utils/wcs.py
index dec7388..b30009d 100644
--- a/forcepho/utils/wcs.py
+++ b/forcepho/utils/wcs.py
@@ -129,6 +129,8 @@ def scale_at_sky(sky, wcs, dpix=1.0, make_approx=False):
         # compute dpix_dsky matrix
         P = np.eye(2) * dpix
         St = np.array([pos1_sky - pos0_sky, pos2_sky - pos0_sky])
+        # RA differences across the 0/360 boundary
+        St[:, 0] -= 360.0 * np.round(St[:, 0] / 360.0)
         CW_mat = np.linalg.solve(St, P).T
 
         # compute D matrix
-- 
2.43.0


From 8d865de7af3f946dbe6d162ed65d9cb7ffc5fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:02 +0000
Subject: [PATCH 74/74] fix: regions and footprints across the RA 0/360
 boundary

---
 forcepho/patches/storage.py | 3 +++
 forcepho/region.py          | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 13e1971..b70e8b8 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -447,6 +447,8 @@ class MetaStore:
                     # FIXME: this could use crval, crpix, CD matrix, and imsize to be more general
                     polys = hdr["S_REGION"].split()[2:]
                     rough_bb = np.array([float(p) for p in polys]).reshape(4, 2)
+                    # RA is modulo 360
+                    rough_bb[:, 0] -= 360.0 * np.round((rough_bb[:, 0] - sky[0]) / 360.0)
                     inim = polygon_contains(rough_bb, np.atleast_2d(sky))[0]
                 except(KeyError):
                     inim = True
@@ -474,6 +476,7 @@ class MetaStore:
                                  [imsize[0], 0]]).T
                 bbox = wcs.pixel_to_world_values(bbox[0], bbox[1])
                 bbox = np.array(bbox).T
+                bbox[:, 0] -= 360.0 * np.round((bbox[:, 0] - sky[0]) / 360.0)
                 inim = polygon_contains(bbox, np.atleast_2d(sky))[0]
                 if inim:
                     epaths.append(expID)
diff --git a/forcepho/region.py b/forcepho/region.py
index 64044d2..8da7803 100644
--- a/forcepho/region.py
+++ b/forcepho/region.py
@@ -56,6 +56,9 @@ class Region:
         pcorners = np.array([[0, imsize[0], imsize[0], 0],
                             [0, 0, imsize[1], imsize[1]]])
         ira, idec = wcs.pixel_to_world_values(pcorners[0], pcorners[1])
+        # put the corners on the same side of the RA 0/360 boundary as the region
+        ira = ira - 360.0 * np.round((ira - ira[0]) / 360.0)
+        ira = ira + 360.0 * np.round((self.bounding_box[0].mean() - ira.mean()) / 360.0)
         im_bb = RectangularRegion(ira.min(), ira.max(), idec.min(), idec.max())
         overlap = polygons_overlap(self, im_bb)
 
@@ -185,6 +188,8 @@ class RectangularRegion(Region):
         """
         # Get the corners in ra, dec coodrinates
         ra, dec = wcs.pixel_to_world_values(xcorners, ycorners)
+        # RA is modulo 360
+        ra = ra - 360.0 * np.round((ra - 0.5 * (self.ra_min + self.ra_max)) / 360.0)
         # TODO: use polygon_contains for this.  have to be careful about shapes
         valid = ((ra > self.ra_min) & (ra < self.ra_max) &
                  (dec > self.dec_min) & (dec < self.dec_max))
-- 
2.43.0

