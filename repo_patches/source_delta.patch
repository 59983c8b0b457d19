From ac71726404a1724b85291eabbbe3727d703664c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 01/34] fix: match the neighborhood dimensions of targets and
 covariance structurally

_find_matching_ndim counted coincidentally equal dimensions, so posterior
means were wrong or failed whenever e.g. the response count equalled the
neighbor count.
---
 src/MuyGPyS/_src/gp/muygps/numpy.py | 26 +++++++++++++++++++++-----
 src/MuyGPyS/_src/gp/muygps/torch.py | 26 +++++++++++++++++++++-----
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/muygps/numpy.py b/src/MuyGPyS/_src/gp/muygps/numpy.py
index 93901d3..85d340d 100644
--- a/src/MuyGPyS/_src/gp/muygps/numpy.py
+++ b/src/MuyGPyS/_src/gp/muygps/numpy.py
@@ -7,11 +7,27 @@ import MuyGPyS._src.math.numpy as np
 
 
 def _find_matching_ndim(nn_targets: np.ndarray, Kin: np.ndarray):
-    # assumes that nntargets.ndim <= Kin.ndim
-    nshape = np.array(nn_targets.shape)
-    Kshape = np.array(Kin.shape)
-    shared_shape = np.equal(nshape, Kshape[: nn_targets.ndim])
-    return np.count_nonzero(shared_shape)
+    # Kin has shape batch + in + in and nn_targets has shape batch + in + extra.
+    # The size of an extra dimension might coincide with that of a Kin
+    # dimension, so counting the matching dimensions is not enough.
+    def is_consistent(ndim):
+        batch_ndim = 2 * ndim - Kin.ndim
+        return (
+            0 <= batch_ndim < ndim
+            and Kin.shape[batch_ndim:ndim] == Kin.shape[ndim:]
+            and nn_targets.shape[:ndim] == Kin.shape[:ndim]
+        )
+
+    single_batch_ndim = (Kin.ndim + 1) // 2
+    if Kin.ndim % 2 == 1 and is_consistent(single_batch_ndim):
+        return single_batch_ndim
+    for ndim in range(min(nn_targets.ndim, Kin.ndim), 0, -1):
+        if is_consistent(ndim):
+            return ndim
+    raise ValueError(
+        f"nearest neighbor targets of shape {nn_targets.shape} do not conform "
+        f"to a covariance of shape {Kin.shape}"
+    )
 
 
 def _muygps_posterior_mean(
diff --git a/src/MuyGPyS/_src/gp/muygps/torch.py b/src/MuyGPyS/_src/gp/muygps/torch.py
index a43e4b9..d0b3f2d 100644
--- a/src/MuyGPyS/_src/gp/muygps/torch.py
+++ b/src/MuyGPyS/_src/gp/muygps/torch.py
@@ -7,11 +7,27 @@ import MuyGPyS._src.math.torch as torch
 
 
 def _find_matching_ndim(nn_targets: torch.ndarray, Kin: torch.ndarray):
-    # assumes that nntargets.ndim <= Kin.ndim
-    nshape = torch.array(nn_targets.shape)
-    Kshape = torch.array(Kin.shape)
-    shared_shape = torch.eq(nshape, Kshape[: nn_targets.ndim])
-    return torch.count_nonzero(shared_shape)
+    # Kin has shape batch + in + in and nn_targets has shape batch + in + extra.
+    # The size of an extra dimension might coincide with that of a Kin
+    # dimension, so counting the matching dimensions is not enough.
+    def is_consistent(ndim):
+        batch_ndim = 2 * ndim - Kin.ndim
+        return (
+            0 <= batch_ndim < ndim
+            and Kin.shape[batch_ndim:ndim] == Kin.shape[ndim:]
+            and nn_targets.shape[:ndim] == Kin.shape[:ndim]
+        )
+
+    single_batch_ndim = (Kin.ndim + 1) // 2
+    if Kin.ndim % 2 == 1 and is_consistent(single_batch_ndim):
+        return single_batch_ndim
+    for ndim in range(min(nn_targets.ndim, Kin.ndim), 0, -1):
+        if is_consistent(ndim):
+            return ndim
+    raise ValueError(
+        f"nearest neighbor targets of shape {nn_targets.shape} do not conform "
+        f"to a covariance of shape {Kin.shape}"
+    )
 
 
 def _muygps_posterior_mean(
-- 
2.43.0


From ddecea85d9d18f92860e63019ec41001ddf43ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 02/34] fix: let NullNoise report itself fixed and offer
 nothing to the optimizer

NullNoise skipped its base initialization and had no append_lists, so a model
with null noise failed in fixed() and get_opt_params().
---
 src/MuyGPyS/gp/noise/null.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/gp/noise/null.py b/src/MuyGPyS/gp/noise/null.py
index 87addd2..9393df6 100644
--- a/src/MuyGPyS/gp/noise/null.py
+++ b/src/MuyGPyS/gp/noise/null.py
@@ -23,8 +23,7 @@ class NullNoise(ScalarParam, NoiseFn):
     """
 
     def __init__(self, *args, **kwargs):
-        self.val = 0.0
-        self.bounds = "fixed"
+        super().__init__(0.0, "fixed")
 
     def __call__(self, *args, **kwargs):
         return 0.0
@@ -48,3 +47,6 @@ class NullNoise(ScalarParam, NoiseFn):
 
     def perturb_fn(self, fn: Callable) -> Callable:
         return fn
+
+    def append_lists(self, names, params, bounds):
+        pass
-- 
2.43.0


From 199c2e98b3a496fb995fd9275c368be5ee06f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 03/34] fix: create torch hyperparameters in the configured
 precision

Hyperparameter values were always stored in torch's default float32, even
with 64-bit precision selected.
---
 src/MuyGPyS/_src/math/torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/math/torch.py b/src/MuyGPyS/_src/math/torch.py
index 610a89b..99744bb 100644
--- a/src/MuyGPyS/_src/math/torch.py
+++ b/src/MuyGPyS/_src/math/torch.py
@@ -103,4 +103,4 @@ diagonal, eye, full, linspace, ones, zeros = fix_function_types(
 
 
 def parameter(x):
-    return nn.Parameter(_array(x))
+    return nn.Parameter(array(x))
-- 
2.43.0


From 17d480548f22406236cf93843859f88020e94b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 04/34] fix: support one-dimensional features in the torch
 difference tensors

With one-dimensional feature vectors the torch pairwise tensor mixed up the
batch and neighbor dimensions and the crosswise tensor raised, unlike numpy.
---
 src/MuyGPyS/_src/gp/tensors/torch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MuyGPyS/_src/gp/tensors/torch.py b/src/MuyGPyS/_src/gp/tensors/torch.py
index f9a51df..b401679 100644
--- a/src/MuyGPyS/_src/gp/tensors/torch.py
+++ b/src/MuyGPyS/_src/gp/tensors/torch.py
@@ -52,6 +52,8 @@ def _crosswise_tensor(
 ) -> torch.ndarray:
     locations = data[data_indices]
     points = nn_data[nn_indices]
+    if data.ndim == 1:
+        return locations[:, None, None] - points[..., None]
     return _crosswise_differences(locations, points)
 
 
@@ -60,6 +62,8 @@ def _pairwise_tensor(
     nn_indices: torch.ndarray,
 ) -> torch.ndarray:
     points = data[nn_indices]
+    if data.ndim == 1:
+        points = points[..., None]
     return _pairwise_differences(points)
 
 
-- 
2.43.0


From 730b2e975be1c039e51ff73f8834b614273e12fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 05/34] fix: keep the batch and neighbor dimensions of fast
 coefficients and means

Squeezing every unit dimension dropped the batch dimension of a single query
and the neighbor dimension of single-neighbor coefficients.
---
 src/MuyGPyS/_src/gp/muygps/numpy.py |  8 ++++----
 src/MuyGPyS/_src/gp/muygps/torch.py | 10 ++++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/muygps/numpy.py b/src/MuyGPyS/_src/gp/muygps/numpy.py
index 85d340d..17fcd4d 100644
--- a/src/MuyGPyS/_src/gp/muygps/numpy.py
+++ b/src/MuyGPyS/_src/gp/muygps/numpy.py
@@ -88,9 +88,8 @@ def _muygps_fast_posterior_mean(
     coeffs_tensor: np.ndarray,
     **kwargs,
 ) -> np.ndarray:
-    return np.squeeze(
-        np.einsum("ij,ijk->ik", Kcross, np.atleast_3d(coeffs_tensor))
-    )
+    ret = np.einsum("ij,ijk->ik", Kcross, np.atleast_3d(coeffs_tensor))
+    return ret[:, 0] if ret.shape[-1] == 1 else ret
 
 
 def _mmuygps_fast_posterior_mean(
@@ -108,4 +107,5 @@ def _muygps_fast_posterior_mean_precompute(
 ) -> np.ndarray:
     if train_nn_targets_fast.ndim == 2:
         train_nn_targets_fast = train_nn_targets_fast[:, :, None]
-    return np.squeeze(np.linalg.solve(Kin, train_nn_targets_fast))
+    ret = np.linalg.solve(Kin, train_nn_targets_fast)
+    return ret[:, :, 0] if ret.shape[-1] == 1 else ret
diff --git a/src/MuyGPyS/_src/gp/muygps/torch.py b/src/MuyGPyS/_src/gp/muygps/torch.py
index d0b3f2d..869cd25 100644
--- a/src/MuyGPyS/_src/gp/muygps/torch.py
+++ b/src/MuyGPyS/_src/gp/muygps/torch.py
@@ -88,9 +88,8 @@ def _muygps_fast_posterior_mean(
     Kcross: torch.ndarray,
     coeffs_tensor: torch.ndarray,
 ) -> torch.ndarray:
-    return torch.squeeze(
-        torch.einsum("ij,ijk->ik", Kcross, torch.atleast_3d(coeffs_tensor))
-    )
+    ret = torch.einsum("ij,ijk->ik", Kcross, torch.atleast_3d(coeffs_tensor))
+    return ret[:, 0] if ret.shape[-1] == 1 else ret
 
 
 def _mmuygps_fast_posterior_mean(
@@ -104,4 +103,7 @@ def _muygps_fast_posterior_mean_precompute(
     Kin: torch.ndarray,
     train_nn_targets_fast: torch.ndarray,
 ) -> torch.ndarray:
-    return torch.linalg.solve(Kin, train_nn_targets_fast)
+    if train_nn_targets_fast.ndim == 2:
+        train_nn_targets_fast = train_nn_targets_fast[:, :, None]
+    ret = torch.linalg.solve(Kin, train_nn_targets_fast)
+    return ret[:, :, 0] if ret.shape[-1] == 1 else ret
-- 
2.43.0


From 1831cff6adaaad1dff39cf42ba11f708341b3326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 06/34] fix: match vector hyperparameter elements by name, not
 by keyword order

Call-time length scales given out of order, or only for some features, were
applied to the wrong features.
---
 src/MuyGPyS/gp/hyperparameter/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/vector.py b/src/MuyGPyS/gp/hyperparameter/vector.py
index 17262d2..aec7729 100644
--- a/src/MuyGPyS/gp/hyperparameter/vector.py
+++ b/src/MuyGPyS/gp/hyperparameter/vector.py
@@ -107,7 +107,7 @@ class NamedVectorParameter(VectorParameter):
             The current value of the hyperparameter.
         """
         params, kwargs = self.filter_kwargs(**kwargs)
-        return mm.array([param for _, param in params.items()])
+        return mm.array([params[p.name()] for p in self._params])
 
     def apply_fn(self, fn: Callable) -> Callable:
         def applied_fn(*args, **kwargs):
-- 
2.43.0


From 3691dbd01625d0f31128d7e8538268c13b7bf806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 07/34] fix: report a vector hyperparameter fixed only if all
 its elements are

The truth of a generator object was returned, which is always true.
---
 src/MuyGPyS/gp/hyperparameter/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/vector.py b/src/MuyGPyS/gp/hyperparameter/vector.py
index aec7729..bac9a51 100644
--- a/src/MuyGPyS/gp/hyperparameter/vector.py
+++ b/src/MuyGPyS/gp/hyperparameter/vector.py
@@ -70,7 +70,7 @@ class VectorParameter:
         Returns:
             `True` if fixed, `False` otherwise.
         """
-        return mm.all(param._fixed for param in self._params)
+        return all(param.fixed() for param in self._params)
 
 
 class NamedVectorParameter(VectorParameter):
-- 
2.43.0


From b5fdef2bf532c6ae1a69b32f0c1a0034d948028a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 08/34] fix: use the log-determinant in the multi-output
 leave-one-out likelihood

slogdet returns the pair (sign, logabsdet); adding the pair to the quadratic
form broadcast it twice and added the signs (NumPy) or raised (Torch).
---
 src/MuyGPyS/_src/optimize/loss/jax.py   | 2 +-
 src/MuyGPyS/_src/optimize/loss/numpy.py | 2 +-
 src/MuyGPyS/_src/optimize/loss/torch.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/jax.py b/src/MuyGPyS/_src/optimize/loss/jax.py
index 2fe9a5f..b09410f 100644
--- a/src/MuyGPyS/_src/optimize/loss/jax.py
+++ b/src/MuyGPyS/_src/optimize/loss/jax.py
@@ -82,7 +82,7 @@ def _lool_fn_unscaled(
         quad_form = jnp.squeeze(
             residual.swapaxes(-2, -1) @ jnp.linalg.solve(variances, residual)
         )
-        logdet = jnp.linalg.slogdet(variances)
+        _, logdet = jnp.linalg.slogdet(variances)
         return jnp.sum(quad_form + logdet)
     else:
         return jnp.sum(
diff --git a/src/MuyGPyS/_src/optimize/loss/numpy.py b/src/MuyGPyS/_src/optimize/loss/numpy.py
index bc198db..eb47f74 100644
--- a/src/MuyGPyS/_src/optimize/loss/numpy.py
+++ b/src/MuyGPyS/_src/optimize/loss/numpy.py
@@ -47,7 +47,7 @@ def _lool_fn_unscaled(
         quad_form = np.squeeze(
             residual.swapaxes(-2, -1) @ np.linalg.solve(variances, residual)
         )
-        logdet = np.linalg.slogdet(variances)
+        _, logdet = np.linalg.slogdet(variances)
         return np.sum(quad_form + logdet)
 
 
diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index cbb7fb0..882507f 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -56,7 +56,7 @@ def _lool_fn_unscaled(
         quad_form = torch.squeeze(
             residual.swapaxes(-2, -1) @ torch.linalg.solve(variances, residual)
         )
-        logdet = torch.linalg.slogdet(variances)
+        _, logdet = torch.linalg.slogdet(variances)
         return torch.sum(quad_form + logdet)
     else:
         return torch.sum(
-- 
2.43.0


From 3e9daf3fdc935a5005fb17510475dbf6a3260ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 09/34] fix: accept the documented (batch, response) variances
 in the NumPy losses

---
 src/MuyGPyS/_src/optimize/loss/numpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/numpy.py b/src/MuyGPyS/_src/optimize/loss/numpy.py
index eb47f74..5026fc2 100644
--- a/src/MuyGPyS/_src/optimize/loss/numpy.py
+++ b/src/MuyGPyS/_src/optimize/loss/numpy.py
@@ -37,7 +37,7 @@ def _lool_fn_unscaled(
     variances: np.ndarray,
     **kwargs,
 ) -> float:
-    if variances.ndim == 1:
+    if variances.ndim < 3:
         return np.sum(
             np.divide((predictions - targets) ** 2, variances)
             + np.log(variances)
@@ -80,7 +80,7 @@ def _looph_fn_unscaled(
     **kwargs,
 ) -> float:
     boundary_scale_sq = boundary_scale**2
-    if variances.ndim == 1:
+    if variances.ndim < 3:
         return np.sum(
             2
             * boundary_scale_sq
-- 
2.43.0


From 82f6dfafadf0be6ec3eeca6286ed9374237f2cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 10/34] fix: let the torch reductions cover the whole array by
 default

sum, max, min and argmax reduced only the leading dimension when no axis was
given, so the Torch losses and scale estimates of multi-response data were
vectors. A scale may now be a zero-dimensional array.
---
 src/MuyGPyS/_src/math/meta.py          | 4 ++--
 src/MuyGPyS/gp/hyperparameter/scale.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/_src/math/meta.py b/src/MuyGPyS/_src/math/meta.py
index f4f12d3..5c8311a 100644
--- a/src/MuyGPyS/_src/math/meta.py
+++ b/src/MuyGPyS/_src/math/meta.py
@@ -26,8 +26,8 @@ def fix_function_types(dtype, *fns):
 
 
 def wrap_torch_signature(fn):
-    def wrapped_fn(x, axis=0):
-        return fn(x, dim=axis)
+    def wrapped_fn(x, axis=None):
+        return fn(x) if axis is None else fn(x, dim=axis)
 
     return wrapped_fn
 
diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index 49ace1f..2bd935e 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -49,7 +49,7 @@ class ScaleFn:
         if (
             isinstance(val, Sequence)
             or hasattr(val, "__len__")
-            and len(val) != 1
+            and np.prod(val.shape) != 1
         ):
             raise ValueError(f"Scale parameter must be scalar, not {val}.")
         if not isinstance(val, mm.ndarray):
-- 
2.43.0


From 439f10000b2f958168944ae6aace4765698fdd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 11/34] fix: optimize the scale with the candidate noise

The scale in the training objective was computed with the stored noise while
the mean and the variance used the candidate value.
---
 src/MuyGPyS/gp/hyperparameter/scale.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index 2bd935e..7d775a4 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -203,16 +203,14 @@ class AnalyticScale(ScaleFn):
         """
 
         def analytic_scale_opt_fn(Kin, nn_targets, *args, **kwargs):
-            scale = self._fn(muygps.noise.perturb(Kin), nn_targets, **kwargs)
+            Kin = muygps.noise.perturb(Kin, **kwargs)
+            scale = self._fn(Kin, nn_targets, **kwargs)
             if np.array(self.val).size != 1:
                 # iterative process only works for scalar responses
                 return scale
             for _ in range(1, self.iteration_count):
                 scale = 0.5 * (
-                    scale
-                    + self._fn(
-                        scale * muygps.noise.perturb(Kin), nn_targets, **kwargs
-                    )
+                    scale + self._fn(scale * Kin, nn_targets, **kwargs)
                 )
             return scale
 
@@ -273,7 +271,7 @@ class DownSampleScale(ScaleFn):
                     f"bad attempt to downsample {self._down_count} elements "
                     f"from a set of only {nn_count} options"
                 )
-            pK = muygps.noise.perturb(Kin)
+            pK = muygps.noise.perturb(Kin, **kwargs)
             scales = []
             for _ in range(self._iteration_count):
                 sampled_indices = np.random.choice(
-- 
2.43.0


From 211ad3adf2177c7ea10636bca89753fa844e80f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 12/34] fix: select the covariance block of the masked targets

A mask with several outputs picked its diagonal entries pairwise, although the
masked predictions keep one column per output.
---
 src/MuyGPyS/optimize/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/optimize/loss.py b/src/MuyGPyS/optimize/loss.py
index 052b40b..1ccd929 100644
--- a/src/MuyGPyS/optimize/loss.py
+++ b/src/MuyGPyS/optimize/loss.py
@@ -169,7 +169,7 @@ def make_var_predict_and_loss_fn(
 
         if target_mask is not None:
             predictions = predictions[:, target_mask]
-            variances = variances[:, target_mask, target_mask]
+            variances = variances[:, target_mask, :][..., target_mask]
 
         return -loss_fn(
             predictions, batch_targets, variances, scale, **loss_kwargs
-- 
2.43.0


From c68d837e59deaac2b4067b9312c48b833820be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:39 +0000
Subject: [PATCH 13/34] fix: call the local likelihood from the distributed
 unscaled likelihood

The distributed function called itself without end.
---
 src/MuyGPyS/_src/optimize/loss/mpi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/mpi.py b/src/MuyGPyS/_src/optimize/loss/mpi.py
index 1abe25b..1bda80d 100644
--- a/src/MuyGPyS/_src/optimize/loss/mpi.py
+++ b/src/MuyGPyS/_src/optimize/loss/mpi.py
@@ -11,6 +11,7 @@ from MuyGPyS._src.optimize.loss.numpy import (
     _mse_fn_unnormalized,
     _cross_entropy_fn as _cross_entropy_fn_n,
     _lool_fn as _lool_fn_n,
+    _lool_fn_unscaled as _lool_fn_unscaled_n,
     _pseudo_huber_fn as _pseudo_huber_fn_n,
     _looph_fn as _looph_fn_n,
 )
@@ -64,7 +65,7 @@ def _lool_fn_unscaled(
     variances: np.ndarray,
     **kwargs,
 ) -> float:
-    local_likelihoods = _lool_fn_unscaled(
+    local_likelihoods = _lool_fn_unscaled_n(
         predictions, targets, variances, **kwargs
     )
     global_likelihood = world.allreduce(local_likelihoods, op=MPI.SUM)
-- 
2.43.0


From ea9dd3b024ab6920de608c7809f8e3e446ea018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:39 +0000
Subject: [PATCH 14/34] fix: let the unscaled likelihood be used as a training
 objective

Its objective passed the scale to a loss function that does not take one.
---
 src/MuyGPyS/optimize/loss.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/optimize/loss.py b/src/MuyGPyS/optimize/loss.py
index 1ccd929..8e085e8 100644
--- a/src/MuyGPyS/optimize/loss.py
+++ b/src/MuyGPyS/optimize/loss.py
@@ -178,6 +178,32 @@ def make_var_predict_and_loss_fn(
     return predict_and_loss_fn
 
 
+def make_unscaled_var_predict_and_loss_fn(
+    loss_fn: Callable, *args, **kwargs
+) -> Callable:
+    """
+    Make a predict_and_loss function that depends on the posterior mean and
+    unscaled variance. See :func:`make_var_predict_and_loss_fn`.
+
+    Args:
+        loss_fn:
+            A loss function Callable with signature
+            `(predictions, responses, variances, **kwargs)`.
+
+    Returns:
+        A Callable with signature `(Kin, Kcross, *args, **kwargs) -> float` that
+        computes the posterior mean and variance and applies the loss function
+        to them and the `batch_targets`.
+    """
+
+    def unscaled_loss_fn(
+        predictions, targets, variances, scale, **loss_kwargs
+    ):
+        return loss_fn(predictions, targets, variances, **loss_kwargs)
+
+    return make_var_predict_and_loss_fn(unscaled_loss_fn, *args, **kwargs)
+
+
 class LossFn:
     """
     Loss functor class.
@@ -296,7 +322,9 @@ Returns:
     The LOOL loss of the prediction.
 """
 
-lool_fn_unscaled = LossFn(_lool_fn_unscaled, make_var_predict_and_loss_fn)
+lool_fn_unscaled = LossFn(
+    _lool_fn_unscaled, make_unscaled_var_predict_and_loss_fn
+)
 """
 Unscaled version of the leave-one-out likelihood function.
 
-- 
2.43.0


From dcc1fcb45d0cd6bdfa31f478bb748bf1211d772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:39 +0000
Subject: [PATCH 15/34] fix: compute the categorical cross entropy under torch

The Torch formula agreed with the other backends only for two complementary
classes.
---
 src/MuyGPyS/_src/optimize/loss/torch.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index 882507f..7e0d086 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -12,13 +12,7 @@ def _cross_entropy_fn(
     one_hot_targets = torch.where(targets > 0.0, 1.0, 0.0)
     softmax_predictions = predictions.softmax(dim=1)
 
-    return (
-        -torch.mean(
-            one_hot_targets * torch.log(softmax_predictions)
-            + (1 - one_hot_targets) * torch.log(1 - softmax_predictions)
-        )
-        * one_hot_targets.shape[0]
-    )
+    return -torch.sum(one_hot_targets * torch.log(softmax_predictions))
 
 
 def _mse_fn_unnormalized(
-- 
2.43.0


From 1b6332982c988dc3cf2eb77097e4bca94e8864ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:39 +0000
Subject: [PATCH 16/34] fix: reject multi-output covariances in the torch looph
 loss

They were broadcast against the residuals; the NumPy backend rejects them.
---
 src/MuyGPyS/_src/optimize/loss/torch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index 7e0d086..3d43c29 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -78,6 +78,8 @@ def _looph_fn_unscaled(
     boundary_scale: float = 3.0,
     **kwargs
 ) -> float:
+    if variances.ndim == 3:
+        raise ValueError("looph does not yet support multivariate inference")
     boundary_scale_sq = boundary_scale**2
     return torch.sum(
         2
-- 
2.43.0


From aa877710f27ca561af2dfe096a54071953e7f35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 17/34] fix: let the torch analytic scale be optimized more
 than once

---
 src/MuyGPyS/gp/hyperparameter/scale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index 7d775a4..53c8c9f 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -205,7 +205,7 @@ class AnalyticScale(ScaleFn):
         def analytic_scale_opt_fn(Kin, nn_targets, *args, **kwargs):
             Kin = muygps.noise.perturb(Kin, **kwargs)
             scale = self._fn(Kin, nn_targets, **kwargs)
-            if np.array(self.val).size != 1:
+            if np.prod(getattr(self.val, "shape", ())) != 1:
                 # iterative process only works for scalar responses
                 return scale
             for _ in range(1, self.iteration_count):
-- 
2.43.0


From 697730991debf188c42b747b6f0289d581a81eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 18/34] fix: take the median of the down-sampled scales under
 torch

---
 src/MuyGPyS/gp/hyperparameter/scale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index 53c8c9f..e70400a 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -284,7 +284,7 @@ class DownSampleScale(ScaleFn):
                 pK_down = pK[:, sampled_indices, :]
                 pK_down = pK_down[:, :, sampled_indices]
                 nn_targets_down = nn_targets[:, sampled_indices]
-                scales.append(self._fn(pK_down, nn_targets_down))
+                scales.append(float(self._fn(pK_down, nn_targets_down)))
 
             return np.median(scales, axis=0) / (self._down_count * batch_count)
 
-- 
2.43.0


From f2ffb39b86c10e98945691b57ac18ec90fde0fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 19/34] fix: apply each model's scale once in multivariate
 variances

---
 src/MuyGPyS/gp/multivariate_muygps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/gp/multivariate_muygps.py b/src/MuyGPyS/gp/multivariate_muygps.py
index 2cae149..d6f2867 100644
--- a/src/MuyGPyS/gp/multivariate_muygps.py
+++ b/src/MuyGPyS/gp/multivariate_muygps.py
@@ -220,10 +220,9 @@ class MultivariateMuyGPS:
         for i, model in enumerate(self.models):
             Kin = model.kernel(pairwise_diffs)
             Kcross = model.kernel(crosswise_diffs)
-            ss = model.scale()
             diagonal_variance = mm.assign(
                 diagonal_variance,
-                model.posterior_variance(Kin, Kcross).reshape(batch_count) * ss,
+                model.posterior_variance(Kin, Kcross).reshape(batch_count),
                 slice(None),
                 i,
             )
@@ -380,6 +379,7 @@ class MultivariateMuyGPS:
                 nn_targets[:, :, i].reshape(batch_count, nn_count, 1),
             )
             model.scale._set(new_scale_val)
+            model._make()
         return self
 
     @mpi_chunk(return_count=3)
-- 
2.43.0


From e0ad1bef641fcd21ffa3a59429ee086d5f304de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:43 +0000
Subject: [PATCH 20/34] fix: return the multivariate fast coefficients and
 means instead of zeros

---
 src/MuyGPyS/gp/multivariate_muygps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/gp/multivariate_muygps.py b/src/MuyGPyS/gp/multivariate_muygps.py
index d6f2867..9a7265d 100644
--- a/src/MuyGPyS/gp/multivariate_muygps.py
+++ b/src/MuyGPyS/gp/multivariate_muygps.py
@@ -275,10 +275,10 @@ class MultivariateMuyGPS:
 
         for i, model in enumerate(self.models):
             Kin = model.kernel(pairwise_diffs_fast)
-            mm.assign(
+            coeffs_tensor = mm.assign(
                 coeffs_tensor,
                 model.fast_coefficients(
-                    model.noise.perturb(Kin),
+                    Kin,
                     train_nn_targets_fast[:, :, i],
                 ),
                 slice(None),
@@ -329,7 +329,7 @@ class MultivariateMuyGPS:
         """
         Kcross = mm.zeros(coeffs_tensor.shape)
         for i, model in enumerate(self.models):
-            mm.assign(
+            Kcross = mm.assign(
                 Kcross,
                 model.kernel(crosswise_diffs),
                 slice(None),
-- 
2.43.0


From 8dfd1613a5fcc0e2c91ea645f494fe7db75face7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 21/34] fix: never list a training point among its own nearest
 neighbors

---
 src/MuyGPyS/neighbors.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/neighbors.py b/src/MuyGPyS/neighbors.py
index 8e9baf8..db82e23 100644
--- a/src/MuyGPyS/neighbors.py
+++ b/src/MuyGPyS/neighbors.py
@@ -208,7 +208,18 @@ class NN_Wrapper:
             self.train[batch_indices, :],
             self.nn_count + 1,
         )
-        return batch_nn_indices[:, 1:], batch_nn_dists[:, 1:]
+        # A batch point need not come first, or appear at all, in its own query
+        # (duplicate points, approximate indices). Drop it wherever it is, or
+        # else the farthest neighbor.
+        nn_indices = np.iarray(batch_nn_indices)
+        past_self = np.logical_or.accumulate(
+            nn_indices == np.iarray(batch_indices)[:, None], axis=1
+        )[:, :-1]
+        nn_dists = np.array(batch_nn_dists)
+        return (
+            mm.iarray(np.where(past_self, nn_indices[:, 1:], nn_indices[:, :-1])),
+            mm.array(np.where(past_self, nn_dists[:, 1:], nn_dists[:, :-1])),
+        )
 
     def _get_nns(
         self,
-- 
2.43.0


From a8cca4f8059f385920a2e9444cfbd72977f45105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 22/34] fix: let a named hierarchical parameter report whether
 it is fixed

---
 src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
index 84579f8..5b9d63d 100644
--- a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
+++ b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
@@ -96,6 +96,7 @@ class NamedHierarchicalParameter(HierarchicalParameter):
         self._knot_count = rhs._knot_count
         self._knot_features = rhs._knot_features
         self._params = NamedVectorParam(name, rhs._knot_params)
+        self._knot_params = self._params
         self._Kin_higher = rhs._Kin_higher
         self._kernel = rhs._kernel
         self._noise = rhs._noise
-- 
2.43.0


From 4950549a0ae66d45422a9e3e1feee857f9360233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 23/34] fix: keep the batch dimension of hierarchical
 parameters

---
 src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
index 5b9d63d..98a2710 100644
--- a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
+++ b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
@@ -122,7 +122,7 @@ class NamedHierarchicalParameter(HierarchicalParameter):
                 mm.arange(self._knot_features.shape[0]),
             )
         )
-        return mm.squeeze(lower_Kcross @ solve)
+        return lower_Kcross @ solve
 
     def filter_kwargs(self, **kwargs) -> Tuple[Dict, Dict]:
         params, kwargs = self._params.filter_kwargs(**kwargs)
-- 
2.43.0


From 480d7e5cf05bd00a0f7b36301020d322b7215959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 24/34] fix: keep the batch and neighbor dimensions of shear
 covariances

---
 src/MuyGPyS/_src/gp/kernels/shear/numpy.py   |  6 +++---
 src/MuyGPyS/gp/kernels/experimental/shear.py | 11 ++++++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/kernels/shear/numpy.py b/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
index 341901b..169a66c 100644
--- a/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
+++ b/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
@@ -159,7 +159,7 @@ def _shear_33_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (2, 2)
 
-    return np.squeeze(full_m)
+    return full_m
 
 
 # compute the full covariance matrix for shear1 and shear2 only
@@ -202,7 +202,7 @@ def _shear_Kin23_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (1, 1)
 
-    return np.squeeze(full_m)
+    return full_m
 
 
 # compute the crosscovariance matrix relating shear1 and shear2 only
@@ -257,4 +257,4 @@ def _shear_Kcross23_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (1, 2)
 
-    return np.squeeze(full_m)
+    return full_m
diff --git a/src/MuyGPyS/gp/kernels/experimental/shear.py b/src/MuyGPyS/gp/kernels/experimental/shear.py
index 98737db..37f56bd 100644
--- a/src/MuyGPyS/gp/kernels/experimental/shear.py
+++ b/src/MuyGPyS/gp/kernels/experimental/shear.py
@@ -127,10 +127,13 @@ class ShearKernel(KernelFn):
             # this is probably a crosswise differences tensor
             # reshape to insert a unitary dimension
             diffs = diffs[..., None, :]
+            return self._fn(diffs, **kwargs)[..., 0]
         return self._fn(diffs, **kwargs)
 
     def Kout(self, **kwargs) -> mm.ndarray:
-        return self.__call__(self._backend_zeros((1, 1, 2)))
+        return self._backend_squeeze(
+            self.__call__(self._backend_zeros((1, 1, 2)))
+        )
 
     def get_opt_params(
         self,
@@ -261,11 +264,13 @@ class ShearKernel2in3out(KernelFn):
             # this is probably a crosswise differences tensor
             # reshape to insert a unitary dimension
             diffs = diffs[..., None, :]
-            return self._Kcross_fn(diffs, **kwargs)
+            return self._Kcross_fn(diffs, **kwargs)[..., 0]
         return self._Kin_fn(diffs, **kwargs)
 
     def Kout(self, **kwargs) -> mm.ndarray:
-        return self._Kout_fn(self._backend_zeros((1, 1, 2)))
+        return self._backend_squeeze(
+            self._Kout_fn(self._backend_zeros((1, 1, 2)))
+        )
 
     def get_opt_params(
         self,
-- 
2.43.0


From 1b8f867bba4af5bca679d9bf2baa40dd8d4f317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 25/34] fix: evaluate the prior covariance of the training
 objective at the candidate hyperparameters

---
 src/MuyGPyS/gp/kernels/experimental/shear.py |  4 ++--
 src/MuyGPyS/gp/muygps.py                     |  6 +++++-
 src/MuyGPyS/gp/variance.py                   | 15 +++++++++++++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/MuyGPyS/gp/kernels/experimental/shear.py b/src/MuyGPyS/gp/kernels/experimental/shear.py
index 37f56bd..be8231e 100644
--- a/src/MuyGPyS/gp/kernels/experimental/shear.py
+++ b/src/MuyGPyS/gp/kernels/experimental/shear.py
@@ -132,7 +132,7 @@ class ShearKernel(KernelFn):
 
     def Kout(self, **kwargs) -> mm.ndarray:
         return self._backend_squeeze(
-            self.__call__(self._backend_zeros((1, 1, 2)))
+            self.__call__(self._backend_zeros((1, 1, 2)), **kwargs)
         )
 
     def get_opt_params(
@@ -269,7 +269,7 @@ class ShearKernel2in3out(KernelFn):
 
     def Kout(self, **kwargs) -> mm.ndarray:
         return self._backend_squeeze(
-            self._Kout_fn(self._backend_zeros((1, 1, 2)))
+            self._Kout_fn(self._backend_zeros((1, 1, 2)), **kwargs)
         )
 
     def get_opt_params(
diff --git a/src/MuyGPyS/gp/muygps.py b/src/MuyGPyS/gp/muygps.py
index d1bf8f4..2b022d5 100644
--- a/src/MuyGPyS/gp/muygps.py
+++ b/src/MuyGPyS/gp/muygps.py
@@ -116,7 +116,11 @@ class MuyGPS:
         )
         Kout = self.kernel.Kout()
         self._var_fn = PosteriorVariance(
-            Kout, self.noise, self.scale, _backend_fn=self._backend_var_fn
+            Kout,
+            self.noise,
+            self.scale,
+            _backend_fn=self._backend_var_fn,
+            Kout_fn=self.kernel.Kout,
         )
         self._fast_posterior_mean_fn = FastPosteriorMean(
             _backend_fn=self._backend_fast_mean_fn
diff --git a/src/MuyGPyS/gp/variance.py b/src/MuyGPyS/gp/variance.py
index d3de219..abb8c3e 100644
--- a/src/MuyGPyS/gp/variance.py
+++ b/src/MuyGPyS/gp/variance.py
@@ -7,7 +7,7 @@
 MuyGPs implementation
 """
 
-from typing import Callable
+from typing import Callable, Optional
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.muygps import _muygps_diagonal_variance
@@ -26,6 +26,7 @@ class PosteriorVariance:
         noise: NoiseFn,
         scale: ScaleFn,
         _backend_fn: Callable = _muygps_diagonal_variance,
+        Kout_fn: Optional[Callable] = None,
     ):
         self._fn = _backend_fn
         self._fn = noise.perturb_fn(self._fn)
@@ -36,8 +37,18 @@ class PosteriorVariance:
 
             return fixed_Kout_fn
 
+        # the prior covariance can depend on the candidate hyperparameters
+        def free_Kout_fn(fn: Callable, Kout_fn: Callable) -> Callable:
+            def freed_Kout_fn(Kin, Kcross, *args, **kwargs):
+                return fn(Kin, Kcross, Kout_fn(**kwargs), *args, **kwargs)
+
+            return freed_Kout_fn
+
+        if Kout_fn is None:
+            self._opt_fn = fix_Kout_fn(self._fn)
+        else:
+            self._opt_fn = free_Kout_fn(self._fn, Kout_fn)
         self._fn = fix_Kout_fn(self._fn)
-        self._opt_fn = self._fn
         self._fn = scale.scale_fn(self._fn)
 
     def __call__(
-- 
2.43.0


From 6832ebe5dafb06270f7bd126ea7c2f8ade410b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 26/34] fix: math diagonal rejected every call in all backends

---
 src/MuyGPyS/_src/math/jax.py   | 6 +++---
 src/MuyGPyS/_src/math/numpy.py | 6 +++---
 src/MuyGPyS/_src/math/torch.py | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/MuyGPyS/_src/math/jax.py b/src/MuyGPyS/_src/math/jax.py
index a4c6c32..bdd6045 100644
--- a/src/MuyGPyS/_src/math/jax.py
+++ b/src/MuyGPyS/_src/math/jax.py
@@ -21,6 +21,7 @@ from jax.numpy import (
     cov,
     choose,
     diag,
+    diagonal,
     divide,
     einsum,
     equal,
@@ -58,7 +59,6 @@ from jax.numpy import (
 from jax.numpy import (
     arange as _arange,
     array as _array,
-    diagonal as _diagonal,
     eye as _eye,
     full as _full,
     linspace as _linspace,
@@ -89,8 +89,8 @@ array = farray
 ndarray = type(array(1))  # type: ignore
 
 arange = fix_function_type(itype, _arange)
-diagonal, eye, full, linspace, ones, zeros = fix_function_types(
-    ftype, _diagonal, _eye, _full, _linspace, _ones, _zeros
+eye, full, linspace, ones, zeros = fix_function_types(
+    ftype, _eye, _full, _linspace, _ones, _zeros
 )
 
 
diff --git a/src/MuyGPyS/_src/math/numpy.py b/src/MuyGPyS/_src/math/numpy.py
index a8b4aff..26a0df0 100644
--- a/src/MuyGPyS/_src/math/numpy.py
+++ b/src/MuyGPyS/_src/math/numpy.py
@@ -19,6 +19,7 @@ from numpy import (
     count_nonzero,
     choose,
     diag,
+    diagonal,
     divide,
     dot,
     einsum,
@@ -65,7 +66,6 @@ from numpy import (
 from numpy import (
     arange as _arange,
     array as _array,
-    diagonal as _diagonal,
     eye as _eye,
     full as _full,
     linspace as _linspace,
@@ -98,8 +98,8 @@ farray = fix_function_type(ftype, _array)
 array = farray
 
 arange = fix_function_type(itype, _arange)
-diagonal, eye, full, linspace, ones, zeros = fix_function_types(
-    ftype, _diagonal, _eye, _full, _linspace, _ones, _zeros
+eye, full, linspace, ones, zeros = fix_function_types(
+    ftype, _eye, _full, _linspace, _ones, _zeros
 )
 
 
diff --git a/src/MuyGPyS/_src/math/torch.py b/src/MuyGPyS/_src/math/torch.py
index 99744bb..3e8b05b 100644
--- a/src/MuyGPyS/_src/math/torch.py
+++ b/src/MuyGPyS/_src/math/torch.py
@@ -18,6 +18,7 @@ from torch import (
     corrcoef,
     cuda,
     diag,
+    diagonal,
     einsum,
     eq,
     equal,
@@ -53,7 +54,6 @@ from torch import (
 )
 from torch import (
     arange as _arange,
-    diagonal as _diagonal,
     eye as _eye,
     full as _full,
     linspace as _linspace,
@@ -97,8 +97,8 @@ farray = fix_function_type(ftype, _array)
 array = farray
 
 arange = fix_function_type(itype, _arange)
-diagonal, eye, full, linspace, ones, zeros = fix_function_types(
-    ftype, _diagonal, _eye, _full, _linspace, _ones, _zeros
+eye, full, linspace, ones, zeros = fix_function_types(
+    ftype, _eye, _full, _linspace, _ones, _zeros
 )
 
 
-- 
2.43.0


From 217dad74249d98da8ae169b861d13316941124fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 27/34] fix: an unknown precision was silently accepted

---
 src/MuyGPyS/_src/math/meta.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MuyGPyS/_src/math/meta.py b/src/MuyGPyS/_src/math/meta.py
index 5c8311a..a57b443 100644
--- a/src/MuyGPyS/_src/math/meta.py
+++ b/src/MuyGPyS/_src/math/meta.py
@@ -41,3 +41,7 @@ def set_type(t64, t32):
         return t64
     elif config.state.ftype == "32":
         return t32
+    else:
+        raise ValueError(
+            f'MuyGPyS ftype is in bad state "{config.state.ftype}"'
+        )
-- 
2.43.0


From e8c38d7a5b3801193c141f8896a52c4fc53dd121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:40 +0000
Subject: [PATCH 28/34] fix: distribute crosswise and pairwise tensors only
 once under mpi

---
 src/MuyGPyS/_src/gp/tensors/mpi.py | 33 +++++-------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/tensors/mpi.py b/src/MuyGPyS/_src/gp/tensors/mpi.py
index 31e0028..3c6e5e2 100644
--- a/src/MuyGPyS/_src/gp/tensors/mpi.py
+++ b/src/MuyGPyS/_src/gp/tensors/mpi.py
@@ -10,9 +10,12 @@ import MuyGPyS._src.math.numpy as np
 from MuyGPyS._src.mpi_utils import (
     _chunk_function_tensor,
 )
+
+# The deformations distribute the crosswise and pairwise tensors themselves
+# (see mpi_chunk), so here they are computed serially.
 from MuyGPyS._src.gp.tensors.numpy import (
-    _crosswise_tensor as _crosswise_tensor_n,
-    _pairwise_tensor as _pairwise_tensor_n,
+    _crosswise_tensor,
+    _pairwise_tensor,
     _batch_features_tensor as _batch_features_tensor_n,
     _make_heteroscedastic_tensor as _make_heteroscedatic_tensor_n,
     _F2,
@@ -53,21 +56,6 @@ def _batch_features_tensor(
     )
 
 
-def _crosswise_tensor(
-    data: np.ndarray,
-    nn_data: np.ndarray,
-    data_indices: np.ndarray,
-    nn_indices: np.ndarray,
-) -> np.ndarray:
-    return _chunk_function_tensor(
-        _crosswise_tensor_n,
-        data,
-        nn_data,
-        data_indices,
-        nn_indices,
-    )
-
-
 def _crosswise_differences(
     locations: np.ndarray, points: np.ndarray
 ) -> np.ndarray:
@@ -76,17 +64,6 @@ def _crosswise_differences(
     )
 
 
-def _pairwise_tensor(
-    data: np.ndarray,
-    nn_indices: np.ndarray,
-) -> np.ndarray:
-    return _chunk_function_tensor(
-        _pairwise_tensor_n,
-        data,
-        nn_indices,
-    )
-
-
 def _pairwise_differences(points: np.ndarray) -> np.ndarray:
     raise NotImplementedError(
         'Function "muygps_pairwise_differences" does not support mpi!'
-- 
2.43.0


From 03c52e1ebc45b06f0fbc5ee7c52688691f4fd78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:40 +0000
Subject: [PATCH 29/34] fix: accept empty chunks in the distributed cross
 entropy

---
 src/MuyGPyS/_src/optimize/loss/mpi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/mpi.py b/src/MuyGPyS/_src/optimize/loss/mpi.py
index 1bda80d..1db1abd 100644
--- a/src/MuyGPyS/_src/optimize/loss/mpi.py
+++ b/src/MuyGPyS/_src/optimize/loss/mpi.py
@@ -40,7 +40,12 @@ def _cross_entropy_fn(
     targets: np.ndarray,
     **kwargs,
 ) -> float:
-    local_log_loss = _cross_entropy_fn_n(predictions, targets, **kwargs)
+    # log_loss rejects the empty chunk of a process without batch elements
+    local_log_loss = (
+        _cross_entropy_fn_n(predictions, targets, **kwargs)
+        if predictions.shape[0] > 0
+        else 0.0
+    )
     global_log_loss = world.allreduce(local_log_loss, op=MPI.SUM)
     return global_log_loss
 
-- 
2.43.0


From fb47ab50ef248a410319a3e7f96efcd67445080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:40 +0000
Subject: [PATCH 30/34] fix: let all processes propose the same candidates in
 Bayesian optimization

---
 src/MuyGPyS/_src/optimize/chassis/mpi.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/chassis/mpi.py b/src/MuyGPyS/_src/optimize/chassis/mpi.py
index 25b8847..b7701f0 100644
--- a/src/MuyGPyS/_src/optimize/chassis/mpi.py
+++ b/src/MuyGPyS/_src/optimize/chassis/mpi.py
@@ -3,7 +3,29 @@
 #
 # SPDX-License-Identifier: MIT
 
+from typing import Callable
+
+import MuyGPyS._src.math.numpy as np
+from MuyGPyS import config
 from MuyGPyS._src.optimize.chassis.numpy import (
     _scipy_optimize,
-    _bayes_opt_optimize,
+    _bayes_opt_optimize as _bayes_opt_optimize_n,
 )
+from MuyGPyS.gp import MuyGPS
+
+world = config.mpi_state.comm_world
+
+
+def _bayes_opt_optimize(
+    muygps: MuyGPS,
+    obj_fn: Callable,
+    verbose: bool = False,
+    **kwargs,
+) -> MuyGPS:
+    # The processes evaluate the objective together, so all of them must
+    # propose the same candidates.
+    if kwargs.get("random_state") is None:
+        kwargs["random_state"] = world.bcast(
+            np.random.randint(2**31 - 1), root=0
+        )
+    return _bayes_opt_optimize_n(muygps, obj_fn, verbose=verbose, **kwargs)
-- 
2.43.0


From 506f7c51cf94b309b5788d9c2b43d9a11804a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:40 +0000
Subject: [PATCH 31/34] fix: accept keyword arguments in distributed tensor
 functions

---
 src/MuyGPyS/_src/mpi_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MuyGPyS/_src/mpi_utils.py b/src/MuyGPyS/_src/mpi_utils.py
index 633bdcf..838e7eb 100644
--- a/src/MuyGPyS/_src/mpi_utils.py
+++ b/src/MuyGPyS/_src/mpi_utils.py
@@ -5,7 +5,7 @@
 
 import warnings
 from typing import Callable
-from functools import wraps
+from functools import partial, wraps
 
 import MuyGPyS._src.math.numpy as np
 from MuyGPyS import config
@@ -102,12 +102,12 @@ def mpi_chunk(return_count):
             return func
 
         @wraps(func)
-        def chunked_wrapper(*args, disable_mpi=False):
+        def chunked_wrapper(*args, disable_mpi=False, **kwargs):
             if disable_mpi is True:
-                return func(*args)
+                return func(*args, **kwargs)
             else:
                 return _chunk_function_tensor(
-                    func, *args, return_count=return_count
+                    partial(func, **kwargs), *args, return_count=return_count
                 )
 
         return chunked_wrapper
-- 
2.43.0


From 6562831a27aec3020655d262de5a34f855718161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:09 +0000
Subject: [PATCH 32/34] fix: leave the distances passed to the general Matern
 function unmodified

---
 src/MuyGPyS/_src/gp/kernels/numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/gp/kernels/numpy.py b/src/MuyGPyS/_src/gp/kernels/numpy.py
index 9bb1914..1cb7e22 100644
--- a/src/MuyGPyS/_src/gp/kernels/numpy.py
+++ b/src/MuyGPyS/_src/gp/kernels/numpy.py
@@ -34,7 +34,7 @@ def _matern_inf_fn(dists: np.ndarray, **kwargs) -> np.ndarray:
 def _matern_gen_fn(
     dists: np.ndarray, smoothness: float, **kwargs
 ) -> np.ndarray:
-    K = dists
+    K = dists.copy()
     K[K == 0.0] += np.finfo(float).eps
     tmp = np.sqrt(2 * smoothness) * K
     K.fill((2 ** (1.0 - smoothness)) / gamma(smoothness))
-- 
2.43.0


From 5a72ce635d2f5a7081e5ceea3049d68090a9c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:39 +0000
Subject: [PATCH 33/34] fix: rescale features by the learned length scales in
 mini-batch training

---
 src/MuyGPyS/optimize/experimental/chassis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/MuyGPyS/optimize/experimental/chassis.py b/src/MuyGPyS/optimize/experimental/chassis.py
index c1cbdb5..162b682 100644
--- a/src/MuyGPyS/optimize/experimental/chassis.py
+++ b/src/MuyGPyS/optimize/experimental/chassis.py
@@ -285,8 +285,7 @@ def optimize_from_tensors_mini_batch(
         if isinstance(muygps.kernel.deformation, Anisotropy) and (
             epoch < (num_epochs - 1)
         ):
-            length_scales = muygps.kernel.deformation._length_scale_array(
-                train_features.shape,
+            length_scales = muygps.kernel.deformation.length_scale(
                 **optimizer.max["params"],
             )
             train_features_scaled = train_features / length_scales
-- 
2.43.0


From 140f8baa23eb1885aadd5f842e514d39280fa719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:39 +0000
Subject: [PATCH 34/34] fix: default the search effort of mini-batch training
 like other optimizers

---
 src/MuyGPyS/optimize/experimental/chassis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MuyGPyS/optimize/experimental/chassis.py b/src/MuyGPyS/optimize/experimental/chassis.py
index 162b682..1087a96 100644
--- a/src/MuyGPyS/optimize/experimental/chassis.py
+++ b/src/MuyGPyS/optimize/experimental/chassis.py
@@ -199,6 +199,11 @@ def optimize_from_tensors_mini_batch(
         verbose=verbose,
         **kwargs,
     )
+    # set defaults
+    if "init_points" not in maximize_kwargs:
+        maximize_kwargs["init_points"] = 5
+    if "n_iter" not in maximize_kwargs:
+        maximize_kwargs["n_iter"] = 20
     total_pts_probed = num_epochs * maximize_kwargs["init_points"]
     total_opt_steps = num_epochs * maximize_kwargs["n_iter"]
 
-- 
2.43.0

