From 1f479826e0769245b2ec924bd2da9b734256b3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 01/93] fix: never expose a partially downloaded fitter file

Two overlapping load_fitter calls could truncate each other's download and one
of them would then load a file with missing bytes.
---
 menpofit/io.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/menpofit/io.py b/menpofit/io.py
index ce4c0fc..81d6574 100644
--- a/menpofit/io.py
+++ b/menpofit/io.py
@@ -1,6 +1,8 @@
 from __future__ import absolute_import  # or menpofit.math causes trouble!
 from math import ceil
+import os
 import sys
+import uuid
 
 try:
     from urllib2 import urlopen  # Py2
@@ -411,7 +413,16 @@ def load_fitter(name):
         print('Downloading {} fitter'.format(name))
         url = url_of_fitter(name)
         print(url, path)
-        download_file(url, path, verbose=True)
+        # Download to a private file and only move it into place once it is
+        # complete, so that neither an interruption nor another request for the
+        # same fitter can ever expose partial data at path.
+        partial = path.parent / '{}.{}.part'.format(path.name, uuid.uuid4().hex)
+        try:
+            download_file(url, partial, verbose=True)
+            getattr(os, 'replace', os.rename)(str(partial), str(path))
+        finally:
+            if partial.exists():
+                partial.unlink()
     # Load the pickle and immediately invoke it.
     try:
         return import_pickle(path)()
-- 
2.43.0


From 7308ef8a40bae5966eb43942db2268a5abe1c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 02/93] fix: use the current name of the mapping option of
 menpo's face labellers

mean_pupil_68_error and mean_pupil_49_error raised TypeError for every input.
---
 menpofit/error/human/face.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/error/human/face.py b/menpofit/error/human/face.py
index 5aa7f55..b18c44e 100644
--- a/menpofit/error/human/face.py
+++ b/menpofit/error/human/face.py
@@ -80,7 +80,7 @@ def mean_pupil_68_error(shape, gt_shape):
         raise ValueError('Ground truth shape must have 68 points')
 
     def pupil_dist(_, s):
-        _, mapping = face_ibug_68_to_face_ibug_68(s, include_mapping=True)
+        _, mapping = face_ibug_68_to_face_ibug_68(s, return_mapping=True)
         return euclidean_error(np.mean(s[mapping['left_eye']], axis=0),
                                np.mean(s[mapping['right_eye']], axis=0))
     return distance_normalised_error(euclidean_error, pupil_dist, shape,
@@ -134,7 +134,7 @@ def mean_pupil_49_error(shape, gt_shape):
                          'points')
 
     def pupil_dist(_, s):
-        _, mapping = face_ibug_49_to_face_ibug_49(s, include_mapping=True)
+        _, mapping = face_ibug_49_to_face_ibug_49(s, return_mapping=True)
         return euclidean_error(np.mean(s[mapping['left_eye']], axis=0),
                                np.mean(s[mapping['right_eye']], axis=0))
     if shape.n_points == 68:
-- 
2.43.0


From 65a4b191191935aee07d80e944c34f335b11d6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 03/93] fix: accept lists in compute_cumulative_error as
 documented

---
 menpofit/error/stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/menpofit/error/stats.py b/menpofit/error/stats.py
index b1a76fd..0022203 100644
--- a/menpofit/error/stats.py
+++ b/menpofit/error/stats.py
@@ -26,6 +26,7 @@ def compute_cumulative_error(errors, bins):
         The computed CED.
     """
     n_errors = len(errors)
+    errors = np.asarray(errors)
     return [np.count_nonzero([errors <= x]) / n_errors for x in bins]
 
 
-- 
2.43.0


From d6251373d1af680e6eab4ebacbd4f21678669655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 04/93] fix: evaluate the CED up to max_error exactly for AUC
 and failure rate

---
 menpofit/error/stats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/menpofit/error/stats.py b/menpofit/error/stats.py
index 0022203..b280cdc 100644
--- a/menpofit/error/stats.py
+++ b/menpofit/error/stats.py
@@ -72,7 +72,10 @@ def area_under_curve_and_failure_rate(errors, step_error, max_error,
     fr : `float`
         The Failure Rate value.
     """
-    x_axis = list(np.arange(min_error, max_error + step_error, step_error))
+    # The CED is evaluated up to max_error exactly: np.arange can overshoot it by
+    # a whole step due to rounding.
+    n_steps = max(1, int(round((max_error - min_error) / step_error)))
+    x_axis = list(np.linspace(min_error, max_error, n_steps + 1))
     ced = np.array(compute_cumulative_error(errors, x_axis))
     return simps(ced, x=x_axis) / max_error, 1. - ced[-1]
 
-- 
2.43.0


From 18160d085f5248b767b3a5759d455502c22279f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 05/93] fix: use the current pandas option name in
 statistics_table

---
 menpofit/visualize/textutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/visualize/textutils.py b/menpofit/visualize/textutils.py
index 99f8efa..df4c735 100644
--- a/menpofit/visualize/textutils.py
+++ b/menpofit/visualize/textutils.py
@@ -254,6 +254,6 @@ def statistics_table(errors, method_names, auc_max_error, auc_error_step,
                         inplace=True, ascending=ascending)
 
     # Set precision
-    pn.set_option('precision', precision)
+    pn.set_option('display.precision', precision)
 
     return tab
-- 
2.43.0


From 14878af7c2397751f0996c198c92769b37544c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 06/93] fix: per-scale lists in check_multi_scale_param on
 current Python

collections.Iterable no longer exists, so every list value raised
AttributeError.
---
 menpofit/checks.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index 96c944b..f225c0a 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -1,8 +1,12 @@
 import warnings
-import collections
 from functools import partial
 import numpy as np
 
+try:
+    import collections.abc as collections_abc
+except ImportError:
+    import collections as collections_abc
+
 from menpo.base import name_of_callable
 from menpo.shape import TriMesh
 from menpo.transform import PiecewiseAffine
@@ -151,7 +155,7 @@ def check_multi_scale_param(n_scales, types, param_name, param):
     # Could be a single value - or we have an error
     if isinstance(param, types):
         return [param] * n_scales
-    elif not isinstance(param, collections.Iterable):
+    elif not isinstance(param, collections_abc.Iterable):
         raise ValueError(error_msg)
 
     # Must be an iterable object
-- 
2.43.0


From e9aec0c451dc89af963191780167bc78dbaebb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 07/93] fix: apply a one-element patch_shape list to every
 scale

---
 menpofit/checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index f225c0a..61a166b 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -230,7 +230,7 @@ def check_patch_shape(patch_shape, n_scales):
     if len(patch_shape) == 2 and isinstance(patch_shape[0], int):
         return [patch_shape] * n_scales
     elif len(patch_shape) == 1:
-        return check_patch_shape(patch_shape[0], 1)
+        return check_patch_shape(patch_shape[0], 1) * n_scales
     elif len(patch_shape) == n_scales:
         l1 = check_patch_shape(patch_shape[0], 1)
         l2 = check_patch_shape(patch_shape[1:], n_scales-1)
-- 
2.43.0


From 46addb6624799de9753ed981cfcd3827c0ec8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 08/93] fix: accept the documented int and None entries of
 sampling

Plain ints and lists holding None were rejected although documented.
---
 menpofit/aam/algorithm/lk.py |  2 +-
 menpofit/checks.py           | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 5c0de21..3b4b8fd 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -58,7 +58,7 @@ class LucasKanadeBaseInterface(object):
 
         if sampling is None:
             sampling = range(0, n_true_pixels, 1)
-        elif isinstance(sampling, np.int64):
+        elif isinstance(sampling, (int, np.integer)):
             sampling = range(0, n_true_pixels, sampling)
 
         sampling_mask[sampling] = 1
diff --git a/menpofit/checks.py b/menpofit/checks.py
index 61a166b..e951c9e 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -347,18 +347,18 @@ def check_sampling(sampling, n_scales):
         sampling can be an integer or ndarray, a integer or ndarray list
         containing 1 or {n_scales} elements or None
     """
+    types = (np.ndarray, int, np.integer)
     if (isinstance(sampling, (list, tuple)) and
-        np.alltrue([isinstance(s, (np.ndarray, np.int64)) or sampling is None
-                    for s in sampling])):
+        np.alltrue([isinstance(s, types) or s is None for s in sampling])):
         if len(sampling) == 1:
-            return sampling * n_scales
+            return list(sampling) * n_scales
         elif len(sampling) == n_scales:
-            return sampling
+            return list(sampling)
         else:
             raise ValueError('A sampling list can only '
                              'contain 1 element or {} '
                              'elements'.format(n_scales))
-    elif isinstance(sampling, (np.ndarray, np.int64)) or sampling is None:
+    elif isinstance(sampling, types) or sampling is None:
         return [sampling] * n_scales
     else:
         raise ValueError('sampling can be an integer or ndarray, '
-- 
2.43.0


From 3613afe83f6bf0535533a2816c2f1430ce7077ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 09/93] fix: reject component limits outside their documented
 range

---
 menpofit/checks.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index e951c9e..fed3d95 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -275,14 +275,17 @@ def check_max_components(max_components, n_scales, var_name):
     elif len(max_components) == 1:
         max_components_list = [max_components[0]] * n_scales
     elif len(max_components) == n_scales:
-        max_components_list = max_components
+        max_components_list = list(max_components)
     else:
         raise ValueError(str_error)
     for comp in max_components_list:
         if comp is not None:
-            if not isinstance(comp, int):
-                if not isinstance(comp, float):
-                    raise ValueError(str_error)
+            if isinstance(comp, int):
+                valid = comp > 0
+            else:
+                valid = isinstance(comp, float) and 0 <= comp <= 1
+            if not valid:
+                raise ValueError(str_error)
     return max_components_list
 
 
-- 
2.43.0


From b0236311f7d7ddfa397f6f1350c10a9b388b414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 10/93] fix: give the optional sd_algorithm_cls a working
 default

SupervisedDescentFitter(images) raised TypeError.
---
 menpofit/sdm/fitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index 3bae879..2b9e927 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -157,6 +157,9 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
             raise NotImplementedError('Training an SDM with a batch size '
                                       '(incrementally) is not implemented yet.')
         # Check parameters
+        if sd_algorithm_cls is None:
+            sd_algorithm_cls = NonParametricNewton
+
         checks.check_diagonal(diagonal)
         scales = checks.check_scales(scales)
         n_scales = len(scales)
-- 
2.43.0


From 5842b936d456c265097659085fc85d1ede0135e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 11/93] fix: accept a single float as scales in ATM and CLM

The number of scales was computed before the value was normalised.
---
 menpofit/atm/base.py | 11 +++++++----
 menpofit/clm/base.py |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 72cbadd..6bdf41a 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -119,8 +119,8 @@ class ATM(object):
     ):
         # Check arguments
         checks.check_diagonal(diagonal)
-        n_scales = len(scales)
         scales = checks.check_scales(scales)
+        n_scales = len(scales)
         holistic_features = checks.check_callable(holistic_features, n_scales)
         max_shape_components = checks.check_max_components(
             max_shape_components, n_scales, "max_shape_components"
@@ -537,7 +537,8 @@ class MaskedATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        n_scales = len(checks.check_scales(scales))
+        self.patch_shape = checks.check_patch_shape(patch_shape, n_scales)
         # Call superclass
         super(MaskedATM, self).__init__(
             template,
@@ -821,7 +822,8 @@ class LinearMaskedATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        n_scales = len(checks.check_scales(scales))
+        self.patch_shape = checks.check_patch_shape(patch_shape, n_scales)
         # Call superclass
         super(LinearMaskedATM, self).__init__(
             template,
@@ -986,7 +988,8 @@ class PatchATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        n_scales = len(checks.check_scales(scales))
+        self.patch_shape = checks.check_patch_shape(patch_shape, n_scales)
         self.patch_normalisation = patch_normalisation
         # Call superclass
         super(PatchATM, self).__init__(
diff --git a/menpofit/clm/base.py b/menpofit/clm/base.py
index dab51f4..b7bf887 100644
--- a/menpofit/clm/base.py
+++ b/menpofit/clm/base.py
@@ -126,7 +126,7 @@ class CLM(object):
         batch_size=None,
     ):
         self.scales = checks.check_scales(scales)
-        n_scales = len(scales)
+        n_scales = len(self.scales)
         self.diagonal = checks.check_diagonal(diagonal)
         self.holistic_features = checks.check_callable(holistic_features, n_scales)
         self.expert_ensemble_cls = checks.check_callable(expert_ensemble_cls, n_scales)
-- 
2.43.0


From ba5a1d0a921a3b6d37c6380a2d69e1aff88b8b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 12/93] fix: use the matrix inversion lemma's identity in
 IRLRegression.increment

---
 menpofit/math/regression.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index c75af28..2c7d2c7 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -74,8 +74,7 @@ class IRLRegression(object):
 
         # incremental regularized linear regression
         U = X.dot(self.V).dot(X.T)
-        if self.alpha:
-            np.fill_diagonal(U, self.alpha + np.diag(U))
+        np.fill_diagonal(U, 1 + np.diag(U))
         U = np.linalg.inv(U)
         Q = self.V.dot(X.T).dot(U).dot(X)
         self.V = self.V - Q.dot(self.V)
-- 
2.43.0


From e850e5e6c0f2ca56a5f4d60272df4d51743fb822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 13/93] fix: optimal linear regression with a single retained
 component

---
 menpofit/math/regression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index 2c7d2c7..4a70a83 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from menpo.math import pca
+from menpo.math import eigenvalue_decomposition, pca
 
 
 class IRLRegression(object):
@@ -321,8 +321,8 @@ class OptimalLinearRegression(object):
         A = X.T.dot(Y).dot(Y.T).dot(X)
         A_tilde = U.dot(A).dot(U.T)
 
-        V, l2, _ = pca(A_tilde, centre=False)
-        H = V.dot(U)
+        V, _ = eigenvalue_decomposition((A_tilde + A_tilde.T) / 2.0)
+        H = V.T.dot(U)
 
         self.R = H.T.dot(np.linalg.pinv(X.dot(H.T)).dot(Y))
 
-- 
2.43.0


From b6a9b98f1ce9b6c179a9aa7d5a7555e05cea258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 14/93] fix: spatial derivative of thin plate splines away from
 affine warps

---
 menpofit/transform/thinsplatesplines.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/menpofit/transform/thinsplatesplines.py b/menpofit/transform/thinsplatesplines.py
index be6098a..0a630f7 100644
--- a/menpofit/transform/thinsplatesplines.py
+++ b/menpofit/transform/thinsplatesplines.py
@@ -161,14 +161,14 @@ class DifferentiableThinPlateSplines(ThinPlateSplines, DL, DX):
             in this case axis zero may have length ``1`` to allow for
             broadcasting.
         """
-        dk_dx = np.zeros((points.shape[0] + 3,   # i
-                          self.source.n_points,  # k
-                          self.source.n_dims))   # l
-        dk_dx[:-3, :] = self.kernel.d_dl(points)
+        dk_dx = np.zeros((points.shape[0],              # i
+                          self.source.n_points + 3,     # k
+                          self.source.n_dims))          # l
+        dk_dx[:, :-3] = self.kernel.d_dl(points)
 
         affine_derivative = np.array([[0, 0],
                                       [1, 0],
                                       [0, 1]])
-        dk_dx[-3:, :] = affine_derivative[:, None]
+        dk_dx[:, -3:] = affine_derivative
 
-        return np.einsum('ij, ikl -> klj', self.coefficients, dk_dx)
+        return np.einsum('kj, ikl -> ijl', self.coefficients, dk_dx)
-- 
2.43.0


From f296cf4ef00942f2b55415bfb8475f3e08702908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 15/93] fix: chain spatial derivatives with the model Jacobian
 along the right axis

---
 menpofit/modelinstance.py         |  2 +-
 menpofit/transform/modeldriven.py | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index 4f2300a..d2096c4 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -573,7 +573,7 @@ class GlobalPDM(PDM):
         # (n_points, n_dims, n_dims)
         dX_dS = self.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dX_db = np.einsum('ilj, idj -> idj', dX_dS, dS_db)
+        dX_db = np.einsum('ilj, idj -> idl', dX_dS, dS_db)
 
         # dX/dp is simply the concatenation of the previous two terms
         # (n_points, n_params, n_dims)
diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index d770290..2f03508 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -164,7 +164,7 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> eilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -286,7 +286,7 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> eilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -381,7 +381,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         # (n_points, n_dims, n_dims)
         dW_dS = self.pdm.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dW_db = np.einsum('ilj, idj -> idj', dW_dS, dW_db_0)
+        dW_db = np.einsum('ilj, idj -> idl', dW_dS, dW_db_0)
 
         # dW/dp is simply the concatenation of dW_dq with dW_db
         # (n_points, n_params, n_dims)
@@ -393,7 +393,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -449,7 +449,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         # (n_points, n_dims, n_dims)
         dW_dS = self.pdm.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dW_db = np.einsum('ilj, idj -> idj', dW_dS, dW_db_0)
+        dW_db = np.einsum('ilj, idj -> idl', dW_dS, dW_db_0)
 
         # dW/dp is simply the concatenation of dW_dq with dW_db
         # (n_points, n_params, n_dims)
@@ -461,7 +461,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
-- 
2.43.0


From f58b517ad8c57fd0efe0705899b96b192f6a1812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 16/93] fix: do not key the cached warp derivative on a
 caller-owned array

---
 menpofit/transform/modeldriven.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index 2f03508..87bfe3b 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -230,7 +230,7 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
             # the source landmarks
             self.dW_dl = self.transform.d_dl(points)
             # cache points
-            self._cached_points = points
+            self._cached_points = points.copy()
 
         # dX/dp is simply the Jacobian of the PDM
         dX_dp = self.pdm.d_dp(points)
-- 
2.43.0


From cbdf1b909b62950a074f5931c82fe8d33a58effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 17/93] fix: align from the updated mean after incrementing a
 global PDM

---
 menpofit/modelinstance.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index d2096c4..679812b 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -582,6 +582,20 @@ class GlobalPDM(PDM):
     def _global_transform_d_dp(self, points):
         return self.global_transform.d_dp(points)
 
+    def increment(self, shapes, n_shapes=None, forgetting_factor=1.0,
+                  max_n_components=None, verbose=False):
+        old_target = self.target
+        PDM.increment(self, shapes, n_shapes=n_shapes,
+                      forgetting_factor=forgetting_factor,
+                      max_n_components=max_n_components, verbose=verbose)
+        # The global transform maps from the mean of the updated model
+        mean = self.model.mean()
+        self.global_transform = type(self.global_transform)(mean, mean)
+        # Reset the target given the new global transform
+        self.set_target(old_target)
+
+    increment.__doc__ = PDM.increment.__doc__
+
 
 class OrthoPDM(GlobalPDM):
     r"""
@@ -625,6 +639,10 @@ class OrthoPDM(GlobalPDM):
         # from the new number of active components
         self._weights = np.zeros(self.model.n_active_components)
         self.similarity_weights = self.similarity_model.project(model_mean)
+        # The global transform maps from the mean of the (possibly updated)
+        # model
+        self.global_transform = type(self.global_transform)(model_mean,
+                                                            model_mean)
 
     @property
     def global_parameters(self):
-- 
2.43.0


From 6b28bca45559ee86c0d941de0deec23d498dc6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 18/93] fix: refresh the sparse to dense mapping when a linear
 model is incremented

---
 menpofit/transform/modeldriven.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index 87bfe3b..8a940f3 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -541,8 +541,12 @@ class LinearOrthoMDTransform(OrthoPDM, Transform):
         The source landmarks of the transform.
     """
     def __init__(self, model, sparse_instance):
-        super(LinearOrthoMDTransform, self).__init__(model)
         self._sparse_instance = sparse_instance
+        super(LinearOrthoMDTransform, self).__init__(model)
+
+    def _construct_similarity_model(self):
+        super(LinearOrthoMDTransform, self)._construct_similarity_model()
+        # Keep the sparse to dense mapping in step with the model's basis
         self.W = np.vstack((self.similarity_model.components,
                             self.model.components))
         V = self.W[:, :self.n_dims*self.n_landmarks]
-- 
2.43.0


From dd62469de3b340f054928b4652d4c87ffff45736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 19/93] fix: crop by an odd or zero margin in fft_utils.crop

---
 menpofit/math/fft_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 187d89b..75f5264 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -67,8 +67,8 @@ def crop(pixels, shape):
     w_corrector = 1 if np.remainder(w - shape[1], 2) != 0 else 0
 
     return pixels[...,
-                  h_margin + h_corrector:-h_margin,
-                  w_margin + w_corrector:-w_margin]
+                  h_margin + h_corrector:h - h_margin,
+                  w_margin + w_corrector:w - w_margin]
 
 
 # TODO: Document me!
-- 
2.43.0


From e05fb61f1bf97ff009a13596146db42c8f850592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 20/93] fix: compare the convolution mode by value

---
 menpofit/math/fft_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 75f5264..ba59a0d 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -152,11 +152,11 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
     # compute ifft of extended convolution
     ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
 
-    if mode is 'full':
+    if mode == 'full':
         return ext_c
-    elif mode is 'same':
+    elif mode == 'same':
         return crop(ext_c, x_shape)
-    elif mode is 'valid':
+    elif mode == 'valid':
         return crop(ext_c, x_shape - f_half_shape + 1)
     else:
         raise ValueError(
@@ -234,11 +234,11 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
     # compute ifft of extended convolution
     ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
 
-    if mode is 'full':
+    if mode == 'full':
         return ext_c
-    elif mode is 'same':
+    elif mode == 'same':
         return crop(ext_c, x_shape)
-    elif mode is 'valid':
+    elif mode == 'valid':
         return crop(ext_c, x_shape - f_half_shape + 1)
     else:
         raise ValueError(
-- 
2.43.0


From deb7d7d38f3e95e7ab8d474bc17209be4bb5ce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 21/93] fix: frequency-domain convolution without wrap-around,
 aligned for every filter size and mode

---
 menpofit/clm/expert/ensemble.py |   4 +-
 menpofit/math/fft_utils.py      | 128 ++++++++++++++++----------------
 2 files changed, 68 insertions(+), 64 deletions(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index c19f058..329bd94 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -118,11 +118,11 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
     @property
     def padded_size(self):
         r"""
-        Returns the convolution pad size, i.e. ``floor(1.5 * patch_shape - 1)``.
+        Returns the convolution pad size, i.e. ``2 * patch_shape - 1``.
 
         :type: (`int`, `int`)
         """
-        pad_size = np.floor(1.5 * np.asarray(self.patch_shape) - 1).astype(int)
+        pad_size = 2 * np.asarray(self.patch_shape) - 1
         return tuple(pad_size)
 
     @property
diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index ba59a0d..47c23dd 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -93,6 +93,44 @@ def ndconvolution(wrapped):
     return wrapper
 
 
+def _crop_convolution(ext_c, x_shape, f_shape, mode):
+    r"""
+    Aligns the extended convolution of a padded image with a padded filter (see
+    `pad`) and crops it according to the convolution mode.
+
+    Parameters
+    ----------
+    ext_c : ``(..., height, width)`` `ndarray`
+        The extended convolution.
+    x_shape : ``(2,)`` `ndarray`
+        The shape of the image before padding.
+    f_shape : ``(2,)`` `ndarray`
+        The shape of the filter before padding.
+    mode : str {`full`, `same`, `valid`}
+        Determines the shape of the resulting convolution.
+
+    Returns
+    -------
+    c : ``(..., height, width)`` `ndarray`
+        The convolution.
+    """
+    if mode == 'full':
+        start, shape = np.zeros_like(x_shape), x_shape + f_shape - 1
+    elif mode == 'same':
+        start, shape = (f_shape - 1) // 2, x_shape
+    elif mode == 'valid':
+        start, shape = f_shape - 1, x_shape - f_shape + 1
+    else:
+        raise ValueError(
+            "mode={}, is not supported. The only supported "
+            "modes are: 'full', 'same' and 'valid'.".format(mode))
+
+    # the leading margins added to the image and to the filter
+    margin = f_shape // 2 + x_shape // 2
+    ext_c = np.roll(ext_c, -(start + margin), axis=(-2, -1))
+    return ext_c[..., :max(shape[0], 0), :max(shape[1], 0)]
+
+
 # TODO: Document me!
 @ndconvolution
 def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
@@ -112,8 +150,9 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
         Determines how the image is padded.
     fft_filter: `bool`, optional
         If `True`, the filter is assumed to be defined on the frequency
-        domain. If `False` the filter is assumed to be defined on the
-        spatial domain.
+        domain, i.e. to be the fft of the filter padded to shape
+        ``image.shape + filter.shape - 1``. If `False` the filter is assumed
+        to be defined on the spatial domain.
 
     Returns
     -------
@@ -121,47 +160,31 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
         Result of convolving each image channel with its corresponding
         filter channel.
     """
+    x_shape = np.asarray(x.shape[-2:])
     if fft_filter:
         # extended shape is filter shape
         ext_shape = np.asarray(f.shape[-2:])
+        f_shape = ext_shape - x_shape + 1
 
-        # extend image and filter
-        ext_x = pad(x, ext_shape, boundary=boundary)
-
-        # compute ffts of extended image
-        fft_ext_x = fft2(ext_x)
         fft_ext_f = f
     else:
-        # extended shape
-        x_shape = np.asarray(x.shape[-2:])
+        # extended shape, large enough to avoid wrap around
         f_shape = np.asarray(f.shape[-2:])
-        f_half_shape = (f_shape / 2).astype(int)
-        ext_shape = x_shape + f_half_shape - 1
+        ext_shape = x_shape + f_shape - 1
 
-        # extend image and filter
-        ext_x = pad(x, ext_shape, boundary=boundary)
-        ext_f = pad(f, ext_shape)
+        # extend filter and compute its fft
+        fft_ext_f = fft2(pad(f, ext_shape))
 
-        # compute ffts of extended image and extended filter
-        fft_ext_x = fft2(ext_x)
-        fft_ext_f = fft2(ext_f)
+    # extend image and compute its fft
+    fft_ext_x = fft2(pad(x, ext_shape, boundary=boundary))
 
     # compute extended convolution in Fourier domain
     fft_ext_c = fft_ext_f * fft_ext_x
 
     # compute ifft of extended convolution
-    ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
+    ext_c = np.real(ifft2(fft_ext_c))
 
-    if mode == 'full':
-        return ext_c
-    elif mode == 'same':
-        return crop(ext_c, x_shape)
-    elif mode == 'valid':
-        return crop(ext_c, x_shape - f_half_shape + 1)
-    else:
-        raise ValueError(
-            "mode={}, is not supported. The only supported "
-            "modes are: 'full', 'same' and 'valid'.".format(mode))
+    return _crop_convolution(ext_c, x_shape, f_shape, mode)
 
 
 # TODO: Document me!
@@ -185,8 +208,9 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
         Determines how the image is padded.
     fft_filter: `bool`, optional
         If `True`, the filter is assumed to be defined on the frequency
-        domain. If `False` the filter is assumed to be defined on the
-        spatial domain.
+        domain, i.e. to be the fft of the filter padded to shape
+        ``image.shape + filter.shape - 1``. If `False` the filter is assumed
+        to be defined on the spatial domain.
     axis : `int`, optional
         The axis across to which the summation is performed.
     keepdims: `boolean`, optional
@@ -199,48 +223,28 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
         Result of convolving each image channel with its corresponding
         filter channel and summing across the channel axis.
     """
+    x_shape = np.asarray(x.shape[-2:])
     if fft_filter:
-        fft_ext_f = f
-
-        # extended shape is fft_ext_filter shape
-        x_shape = np.asarray(x.shape[-2:])
-        f_shape = ((np.asarray(fft_ext_f.shape[-2:]) + 1) / 1.5).astype(int)
-        f_half_shape = (f_shape / 2).astype(int)
+        # extended shape is filter shape
         ext_shape = np.asarray(f.shape[-2:])
+        f_shape = ext_shape - x_shape + 1
 
-        # extend image and filter
-        ext_x = pad(x, ext_shape, boundary=boundary)
-
-        # compute ffts of extended image
-        fft_ext_x = fft2(ext_x)
+        fft_ext_f = f
     else:
-        # extended shape
-        x_shape = np.asarray(x.shape[-2:])
+        # extended shape, large enough to avoid wrap around
         f_shape = np.asarray(f.shape[-2:])
-        f_half_shape = (f_shape / 2).astype(int)
-        ext_shape = x_shape + f_half_shape - 1
+        ext_shape = x_shape + f_shape - 1
 
-        # extend image and filter
-        ext_x = pad(x, ext_shape, boundary=boundary)
-        ext_f = pad(f, ext_shape)
+        # extend filter and compute its fft
+        fft_ext_f = fft2(pad(f, ext_shape))
 
-        # compute ffts of extended image and extended filter
-        fft_ext_x = fft2(ext_x)
-        fft_ext_f = fft2(ext_f)
+    # extend image and compute its fft
+    fft_ext_x = fft2(pad(x, ext_shape, boundary=boundary))
 
     # compute extended convolution in Fourier domain
     fft_ext_c = np.sum(fft_ext_f * fft_ext_x, axis=axis, keepdims=keepdims)
 
     # compute ifft of extended convolution
-    ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
+    ext_c = np.real(ifft2(fft_ext_c))
 
-    if mode == 'full':
-        return ext_c
-    elif mode == 'same':
-        return crop(ext_c, x_shape)
-    elif mode == 'valid':
-        return crop(ext_c, x_shape - f_half_shape + 1)
-    else:
-        raise ValueError(
-            "mode={}, is not supported. The only supported "
-            "modes are: 'full', 'same' and 'valid'.".format(mode))
+    return _crop_convolution(ext_c, x_shape, f_shape, mode)
-- 
2.43.0


From 62d0dce1c540ce6802df718ad66c589ee1cc6c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 22/93] fix: convolving an array with a menpo image filter uses
 the filter's pixels

---
 menpofit/math/fft_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 47c23dd..a0cd817 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -87,7 +87,7 @@ def ndconvolution(wrapped):
             return rebuild_feature_image(image, feature)
         elif not isinstance(filter, np.ndarray):
             # filter is menpo image
-            return wrapped(image, filter, *args, **kwargs)
+            return wrapped(image, filter.pixels, *args, **kwargs)
         else:
             return wrapped(image, filter, *args, **kwargs)
     return wrapper
-- 
2.43.0


From 0532719a86f74b965921bed1006facccdb0dc531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 23/93] fix: centre correlation filters with fftshift for odd
 extended shapes

---
 menpofit/math/correlationfilter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/menpofit/math/correlationfilter.py b/menpofit/math/correlationfilter.py
index 2b80d9e..ece04c6 100644
--- a/menpofit/math/correlationfilter.py
+++ b/menpofit/math/correlationfilter.py
@@ -1,5 +1,5 @@
 import numpy as np
-from numpy.fft import fft2, ifft2, ifftshift
+from numpy.fft import fft2, ifft2, fftshift
 from scipy.sparse import spdiags, eye as speye
 from scipy.sparse.linalg import spsolve
 
@@ -81,7 +81,7 @@ def mosse(X, y, l=0.01, boundary='constant', crop_filter=True):
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute extended filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -191,7 +191,7 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -284,7 +284,7 @@ def mccf(X, y, l=0.01, boundary='constant', crop_filter=True):
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -406,7 +406,7 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
     if crop_filter:
         # crop extended filter to match desired response shape
         f = crop(f, y_shape)
-- 
2.43.0


From 0a4d1647793f195283e6fcf69c72c0ffceba14a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 24/93] fix: n_sample_offsets of a convolution based ensemble
 works with array offsets

---
 menpofit/clm/expert/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index 329bd94..0234c13 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -110,7 +110,7 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
 
         :type: `int`
         """
-        if self.sample_offsets:
+        if self.sample_offsets is not None:
             return self.sample_offsets.shape[0]
         else:
             return 1
-- 
2.43.0


From 4858630d8c9a52995950014ae6c96dddf1b7ab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 25/93] fix: expert increment weights the old statistics by the
 number of old images only

---
 menpofit/clm/expert/ensemble.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index 0234c13..e214864 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -344,11 +344,8 @@ class CorrelationFilterExpertEnsemble(ConvolutionBasedExpertEnsemble):
             self.fft_padded_filters = []
             self.auto_correlations = []
             self.cross_correlations = []
-            # Set number of images
-            self.n_images = len(images)
-        else:
-            # Update number of images
-            self.n_images += len(images)
+            # No images have been used so far
+            self.n_images = 0
 
         # Obtain total number of experts
         n_experts = shapes[0].n_points
@@ -402,6 +399,9 @@ class CorrelationFilterExpertEnsemble(ConvolutionBasedExpertEnsemble):
         self.auto_correlations = np.asarray(auto_correlations)
         self.cross_correlations = np.asarray(cross_correlations)
 
+        # Update number of images
+        self.n_images += len(images)
+
     def __str__(self):
         cls_str = r"""Ensemble of Correlation Filter Experts
  - {n_experts} experts
-- 
2.43.0


From d4ebb1886a4e6bd28fc5d53acd167a8e96e0fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 26/93] fix: probability maps of constant responses are uniform
 and leave the responses untouched

---
 menpofit/clm/expert/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/clm/expert/base.py b/menpofit/clm/expert/base.py
index 6864605..f373e8c 100644
--- a/menpofit/clm/expert/base.py
+++ b/menpofit/clm/expert/base.py
@@ -22,14 +22,14 @@ def probability_map(x, axes=(-2, -1)):
     probability_map : `menpo.image.Image` or ``(C, X, Y, ..., Z)`` `ndarray`
         The probability MAP of the image.
     """
-    x -= np.min(x, axis=axes, keepdims=True)
+    x = x - np.min(x, axis=axes, keepdims=True)
     total = np.sum(x, axis=axes, keepdims=True)
     nonzero = total > 0
     if np.any(~nonzero):
         warnings.warn('some of x axes have 0 variance - uniform probability '
                       'maps are used them.')
-        x[nonzero] /= total[nonzero]
-        x[~nonzero] = 1 / np.prod(axes)
+        n = np.prod([x.shape[a] for a in axes])
+        x = np.where(nonzero, x / np.where(nonzero, total, 1), 1.0 / n)
     else:
         x /= total
     return x
-- 
2.43.0


From 7c82a5d324aac187e2d1da09cf30c634288c7c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 27/93] fix: normalise multi-channel expert patches per channel
 when predicting, as in training

---
 menpofit/clm/expert/ensemble.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index e214864..b6d7704 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -208,8 +208,8 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
         # Reshape patches
         # patches: n_patches x (n_offsets x n_channels) x height x width
         patches = patches.reshape((patches.shape[0], -1) + patches.shape[-2:])
-        # Normalise patches
-        return self.patch_normalisation(patches)
+        # Normalise the patches of each landmark, as in training
+        return np.stack([self.patch_normalisation(patch) for patch in patches])
 
     def predict_response(self, image, shape):
         r"""
-- 
2.43.0


From 57fc21a563c10d0faebdc6ca65dc573c7f658c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 28/93] fix: do not extend the caller's noise_percentage list
 in place

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 63c9bf5..e27ab61 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -65,7 +65,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
     if isinstance(noise_percentage, float):
         noise_percentage = [noise_percentage] * 3
     elif len(noise_percentage) == 1:
-        noise_percentage *= 3
+        noise_percentage = list(noise_percentage) * 3
 
     similarity = AlignmentSimilarity(source, target,
                                      rotation=allow_alignment_rotation)
-- 
2.43.0


From f1f3bc35d3b414edac1e24be7a0205b8ee63c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 29/93] fix: compare the noise type by value

---
 menpofit/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index e27ab61..e6680da 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -70,7 +70,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
     similarity = AlignmentSimilarity(source, target,
                                      rotation=allow_alignment_rotation)
 
-    if noise_type is 'gaussian':
+    if noise_type == 'gaussian':
         s = noise_percentage[0] * (0.5 / 3) * np.random.randn(1)[0]
         r = noise_percentage[1] * (180 / 3) * np.random.randn(1)[0]
         t = noise_percentage[2] * (target.range() / 3) * np.random.randn(2)
@@ -78,7 +78,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         s = scale_about_centre(target, 1 + s)
         r = rotate_ccw_about_centre(target, r)
         t = Translation(t, source.n_dims)
-    elif noise_type is 'uniform':
+    elif noise_type == 'uniform':
         s = noise_percentage[0] * 0.5 * (2 * np.random.randn(1)[0] - 1)
         r = noise_percentage[1] * 180 * (2 * np.random.rand(1)[0] - 1)
         t = noise_percentage[2] * target.range() * (2 * np.random.rand(2) - 1)
-- 
2.43.0


From 4ba0a4fc6f1bd0a1e701e837b3f8b1dbefd5efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 30/93] fix: draw the uniform scale noise from a uniform
 distribution

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index e6680da..9e41bcd 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -79,7 +79,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         r = rotate_ccw_about_centre(target, r)
         t = Translation(t, source.n_dims)
     elif noise_type == 'uniform':
-        s = noise_percentage[0] * 0.5 * (2 * np.random.randn(1)[0] - 1)
+        s = noise_percentage[0] * 0.5 * (2 * np.random.rand(1)[0] - 1)
         r = noise_percentage[1] * 180 * (2 * np.random.rand(1)[0] - 1)
         t = noise_percentage[2] * target.range() * (2 * np.random.rand(2) - 1)
 
-- 
2.43.0


From d304a72fba739f154cddef73a89e1f5bfb26144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 31/93] fix: apply the alignment noise to the aligned shape
 rather than to the source

---
 menpofit/fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 9e41bcd..8567a9e 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -90,7 +90,8 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         raise ValueError('Unexpected noise type. '
                          'Supported values are {gaussian, uniform}')
 
-    return similarity.compose_after(t.compose_after(s.compose_after(r)))
+    # the noise is defined about the target, hence it perturbs the aligned shape
+    return t.compose_after(s.compose_after(r)).compose_after(similarity)
 
 
 def noisy_target_alignment_transform(source, target,
-- 
2.43.0


From b5b71725835016a74df95cdc10b33cbb91c2e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 32/93] fix: discard previously generated boxes before
 generating new ones

---
 menpofit/fitter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 8567a9e..91b6372 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -770,6 +770,10 @@ def generate_perturbations_from_gt(images, n_perturbations, perturb_func,
 
     wrap = partial(print_progress, prefix=msg, verbose=verbose)
     for im in wrap(images):
+        # discard the boxes of any previous generation
+        for k in [k for k, _ in im.landmarks.items_matching('__generated_bb_*')]:
+            del im.landmarks[k]
+
         gt_s = im.landmarks[gt_group].bounding_box()
 
         k = 0
-- 
2.43.0


From 7ea8aa39126d7abbb3b802dd149295d221d20c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 33/93] fix: accept one noise_std per point in
 noisy_target_alignment_transform

---
 menpofit/fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 91b6372..887d1fd 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -119,6 +119,8 @@ def noisy_target_alignment_transform(source, target,
     noisy_transform : `menpo.transform.Alignment`
         The noisy Similarity Transform
     """
+    # a list holds one standard deviation per point
+    noise_std = np.reshape(noise_std, (-1, 1))
     noise = noise_std * target.range() * np.random.randn(target.n_points,
                                                          target.n_dims)
     noisy_target = PointCloud(target.points + noise)
-- 
2.43.0


From e90a25aea832360e389d982d051ac76114801aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 34/93] fix: centre the Gaussian approximation of ASM responses
 on the response peak for every search window

---
 menpofit/clm/algorithm/gd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/clm/algorithm/gd.py b/menpofit/clm/algorithm/gd.py
index 3db9cac..c2dfcd6 100644
--- a/menpofit/clm/algorithm/gd.py
+++ b/menpofit/clm/algorithm/gd.py
@@ -95,8 +95,8 @@ class ActiveShapeModel(GradientDescentCLMAlgorithm):
         super(ActiveShapeModel, self)._precompute()
 
         # Build grid associated to size of the search space
-        self.half_search_shape = np.round(
-            np.asarray(self.expert_ensemble.search_shape) / 2).astype(np.int64)
+        self.half_search_shape = np.asarray(
+            self.expert_ensemble.search_shape) // 2
         self.search_grid = self.search_grid[None, None]
 
         # Compute Gaussian-KDE grid
@@ -168,7 +168,7 @@ class ActiveShapeModel(GradientDescentCLMAlgorithm):
             max_indices = np.hstack((max_indices[0], max_indices[1]))
             max_indices = max_indices[:, None, None, None, ...]
             max_indices -= self.half_search_shape
-            gaussian_responses = self.mvn.pdf(max_indices + self.search_grid)
+            gaussian_responses = self.mvn.pdf(self.search_grid - max_indices)
             # Normalise smoothed responses
             gaussian_responses /= np.sum(gaussian_responses,
                                          axis=(-2, -1))[..., None, None]
@@ -178,7 +178,7 @@ class ActiveShapeModel(GradientDescentCLMAlgorithm):
                                 candidate_landmarks, axis=(-3, -2))
 
             # Compute shape error term
-            error = target.as_vector() - new_target.ravel()
+            error = new_target.ravel() - target.as_vector()
 
             # Solve for increments on the shape parameters
             if map_inference:
-- 
2.43.0


From 9d116400829b7d42c8551272bc426d97308566d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 35/93] fix: precompute the CLM Jacobian at the mean shape

---
 menpofit/clm/algorithm/gd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/menpofit/clm/algorithm/gd.py b/menpofit/clm/algorithm/gd.py
index c2dfcd6..6590d6b 100644
--- a/menpofit/clm/algorithm/gd.py
+++ b/menpofit/clm/algorithm/gd.py
@@ -48,7 +48,9 @@ class GradientDescentCLMAlgorithm(object):
         pdm_prior = self.rho2 / self.transform.model.eigenvalues
         self.rho2_inv_L = np.hstack((sim_prior, pdm_prior))
 
-        # Compute Jacobian
+        # Compute Jacobian at the mean shape, independently of the shape that was
+        # last fitted with the model
+        self.transform.set_target(self.transform.model.mean())
         J = np.rollaxis(self.transform.d_dp(None), -1, 1)
         self.J = J.reshape((-1, J.shape[-1]))
         # Compute inverse Hessian
-- 
2.43.0


From ba9544dd066aa888a9f107d46004c6afc9fb9dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 36/93] fix: do not subtract the reconstructed initial shapes
 twice from LucasKanadeResult.n_iters

---
 menpofit/lk/result.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/menpofit/lk/result.py b/menpofit/lk/result.py
index 9a8309c..274cb74 100644
--- a/menpofit/lk/result.py
+++ b/menpofit/lk/result.py
@@ -84,8 +84,6 @@ class LucasKanadeResult(MultiScaleParametricIterativeResult):
         self._homogeneous_parameters = []
         for r in results:
             self._homogeneous_parameters += r.homogeneous_parameters
-        # Correct n_iters
-        self._n_iters -= len(scales)
 
     @property
     def homogeneous_parameters(self):
-- 
2.43.0


From 60fb8fe247e8f7b4cc522a084a6c307de11d3d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 37/93] fix: include the reconstructed initial shape in
 parametric supervised descent results

---
 menpofit/sdm/algorithm/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/sdm/algorithm/base.py b/menpofit/sdm/algorithm/base.py
index 1bb8c1d..12104b3 100644
--- a/menpofit/sdm/algorithm/base.py
+++ b/menpofit/sdm/algorithm/base.py
@@ -574,7 +574,7 @@ def fit_parametric_shape(image, initial_shape, parametric_algorithm,
     parametric_algorithm.shape_model.set_target(initial_shape)
     current_shape = initial_shape.from_vector(
             parametric_algorithm.shape_model.target.as_vector().copy())
-    shapes = []
+    shapes = [current_shape]
     shape_parameters = [parametric_algorithm.shape_model.as_vector()]
 
     # Cascaded Regression loop
-- 
2.43.0


From ee86475c4849f63b9a456f39785af033cbb13ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 38/93] fix: number the iterations shown by view_iterations of
 parametric results from one

---
 menpofit/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/result.py b/menpofit/result.py
index 300f134..5c6a3e0 100644
--- a/menpofit/result.py
+++ b/menpofit/result.py
@@ -2272,7 +2272,7 @@ class ParametricIterativeResult(NonParametricIterativeResult):
         subplots_titles = {}
         iters_offset = 0
         if self.initial_shape is not None:
-            iters_offset = 1
+            iters_offset = -1
         for j in iters:
             if j == 0 and self.initial_shape is not None:
                 name = "Initial"
@@ -2927,7 +2927,7 @@ class MultiScaleParametricIterativeResult(MultiScaleNonParametricIterativeResult
         n_digits = len(str(self.n_iters))
         groups = []
         subplots_titles = {}
-        iters_offset = -2
+        iters_offset = 0
         if self.initial_shape is not None:
             iters_offset = -1
         for j in iters:
-- 
2.43.0


From 6618e11c1fc2d27db3880a6d83e83c98356f0918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 39/93] fix: show the reconstructed initial shape of every
 scale in view_iterations

---
 menpofit/result.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/menpofit/result.py b/menpofit/result.py
index 5c6a3e0..6b0207e 100644
--- a/menpofit/result.py
+++ b/menpofit/result.py
@@ -2936,6 +2936,10 @@ class MultiScaleParametricIterativeResult(MultiScaleNonParametricIterativeResult
                 image.landmarks[name] = self.initial_shape
             elif j in self._reconstruction_indices:
                 name = "Reconstruction"
+                if self.n_scales > 1:
+                    # every scale has its own reconstructed initial shape
+                    s = _get_scale_of_iter(j, self._reconstruction_indices)
+                    name = "Reconstruction {}".format(s + 1)
                 image.landmarks[name] = self.shapes[j]
             elif j == len(self.shapes) - 1:
                 name = "Final"
-- 
2.43.0


From dd96a9122f50246c239693ac55e92e795bb0b1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 40/93] fix: pass integer subplot layouts to matplotlib

---
 menpofit/visualize/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index 8cb5b65..9686a63 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -386,7 +386,7 @@ def view_image_multiple_landmarks(
             for k, group in enumerate(groups):
                 if subplots_enabled:
                     # create subplot
-                    plt.subplot(subplots[0], subplots[1], k + 1)
+                    plt.subplot(int(subplots[0]), int(subplots[1]), k + 1)
                     if render_legend:
                         # set subplot's title
                         plt.title(subplots_titles[group],
@@ -487,7 +487,7 @@ def view_image_multiple_landmarks(
             for k, group in enumerate(groups):
                 if subplots_enabled:
                     # create subplot
-                    plt.subplot(subplots[0], subplots[1], k + 1)
+                    plt.subplot(int(subplots[0]), int(subplots[1]), k + 1)
                     if render_legend:
                         # set subplot's title
                         plt.title(subplots_titles[group],
-- 
2.43.0


From d1384cd3c785b8ff506671e34b468b8baa409d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 41/93] fix: a non-parametric result without iterations ends at
 its initial shape

---
 menpofit/result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/result.py b/menpofit/result.py
index 6b0207e..7bc1c20 100644
--- a/menpofit/result.py
+++ b/menpofit/result.py
@@ -679,7 +679,8 @@ class NonParametricIterativeResult(Result):
         self, shapes, initial_shape=None, image=None, gt_shape=None, costs=None
     ):
         super(NonParametricIterativeResult, self).__init__(
-            final_shape=shapes[-1],
+            # without any iteration the fitting ends where it started
+            final_shape=shapes[-1] if len(shapes) > 0 else initial_shape,
             image=image,
             initial_shape=initial_shape,
             gt_shape=gt_shape,
-- 
2.43.0


From e2acc94e726e500ea4a300f55333228bbc13330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 42/93] fix: reuse the affine transform of the previous scale
 when it shares the feature image

---
 menpofit/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 887d1fd..d4d1aff 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -376,8 +376,8 @@ class MultiScaleNonParametricFitter(object):
                     initial_shape))
             else:
                 # If features are not extracted, then the affine transform
-                # should be identical with the one of the first (lowest) level.
-                affine_transforms.append(affine_transforms[0])
+                # should be identical with the one of the previous level.
+                affine_transforms.append(affine_transforms[-1])
 
             # Rescale images according to scales
             if self.scales[i] != 1:
-- 
2.43.0


From 0413f30bf603969b58f76045dafeb80b5b27f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 43/93] fix: undo the scaling before the affine transform when
 moving a shape to the next scale

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index d4d1aff..1256a23 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -494,7 +494,7 @@ class MultiScaleNonParametricFitter(object):
                     #    S_{i+1} : scaling transform of next scale
                     #    A_i : affine transform of current scale
                     #    A_{i+1} : affine transform of next scale
-                    t1 = scale_transforms[i].compose_after(affine_transforms[i])
+                    t1 = affine_transforms[i].compose_after(scale_transforms[i])
                     t2 = affine_transforms[i + 1].pseudoinverse().compose_after(t1)
                     transform = scale_transforms[i + 1].pseudoinverse().compose_after(t2)
                     shape = transform.apply(shape)
-- 
2.43.0


From 469740c17f732bee10360a82fc5efc2639fdb50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 44/93] fix: never leave temporary landmarks on the image that
 is fitted

---
 menpofit/fitter.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 1256a23..12a77b1 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -339,13 +339,19 @@ class MultiScaleNonParametricFitter(object):
         """
         # Attach landmarks to the image, in order to make transforms easier
         image.landmarks['__initial_shape'] = initial_shape
-        if gt_shape:
-            image.landmarks['__gt_shape'] = gt_shape
-
-        # Rescale image wrt the scale factor between reference_shape and
-        # initial_shape
-        tmp_image = image.rescale_to_pointcloud(self.reference_shape,
-                                                group='__initial_shape')
+        try:
+            if gt_shape:
+                image.landmarks['__gt_shape'] = gt_shape
+
+            # Rescale image wrt the scale factor between reference_shape and
+            # initial_shape
+            tmp_image = image.rescale_to_pointcloud(self.reference_shape,
+                                                    group='__initial_shape')
+        finally:
+            # Detach added landmarks from image
+            for group in ('__initial_shape', '__gt_shape'):
+                if group in image.landmarks:
+                    del image.landmarks[group]
 
         # For each scale:
         #     1. Compute features
@@ -405,11 +411,6 @@ class MultiScaleNonParametricFitter(object):
         else:
             gt_shapes = None
 
-        # Detach added landmarks from image
-        del image.landmarks['__initial_shape']
-        if gt_shape:
-            del image.landmarks['__gt_shape']
-
         return (images, initial_shapes, gt_shapes, affine_transforms,
                 scale_transforms)
 
-- 
2.43.0


From c8279391be0174cc305dbff652b6f9c0cef37ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 45/93] fix: compare parameter counts by value when solving the
 MAP system

---
 menpofit/aam/algorithm/lk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 3b4b8fd..e32d3d0 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -8,7 +8,7 @@ from ..result import AAMAlgorithmResult
 
 
 def _solve_all_map(H, J, e, Ja_prior, c, Js_prior, p, m, n):
-    if n is not H.shape[0] - m:
+    if n != H.shape[0] - m:
         # Bidirectional Compositional case
         Js_prior = np.hstack((Js_prior, Js_prior))
         p = np.hstack((p, p))
@@ -224,7 +224,7 @@ class LucasKanadeBaseInterface(object):
         params : ``(n_params, )`` `ndarray`
             The MAP solution.
         """
-        if p.shape[0] is not H.shape[0]:
+        if p.shape[0] != H.shape[0]:
             # Bidirectional Compositional case
             J_prior = np.hstack((J_prior, J_prior))
             p = np.hstack((p, p))
-- 
2.43.0


From cca4ad719812ef4ecad52319146c6f4d9b5a4887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 46/93] fix: do not accumulate the prior in the precomputed
 Hessian

---
 menpofit/aam/algorithm/lk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index e32d3d0..c279c82 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -14,7 +14,7 @@ def _solve_all_map(H, J, e, Ja_prior, c, Js_prior, p, m, n):
         p = np.hstack((p, p))
         # compute and return MAP solution
     J_prior = np.hstack((Ja_prior, Js_prior))
-    H += np.diag(J_prior)
+    H = H + np.diag(J_prior)
     Je = J_prior * np.hstack((c, p)) + J.T.dot(e)
     dq = - np.linalg.solve(H, Je)
     return dq[:m], dq[m:]
@@ -229,7 +229,7 @@ class LucasKanadeBaseInterface(object):
             J_prior = np.hstack((J_prior, J_prior))
             p = np.hstack((p, p))
         # compute and return MAP solution
-        H += np.diag(J_prior)
+        H = H + np.diag(J_prior)
         Je = J_prior * p + J.T.dot(e)
         return - np.linalg.solve(H, Je)
 
-- 
2.43.0


From 4d2ace10a0ca5c4f71a88fc06f81db3abd5e7563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 47/93] fix: MAP inference of the alternating algorithms
 multiplies with the appearance basis the right way round

---
 menpofit/aam/algorithm/lk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index c279c82..3d58131 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -1206,7 +1206,8 @@ class Alternating(LucasKanade):
         while k < max_iters and eps > self.eps:
             # solve for increment on the appearance parameters
             if map_inference:
-                Ae_m_map = - self.s2_inv_S * c + self.A_m.dot(e_m + Jdp)
+                Ae_m_map = (self.A_m.T.dot(e_m + Jdp) -
+                            self.s2_inv_S * c)
                 dc = np.linalg.solve(self.AA_m_map, Ae_m_map)
             else:
                 dc = self.pinv_A_m.dot(e_m + Jdp)
@@ -1218,7 +1219,7 @@ class Alternating(LucasKanade):
             # solve for increments on the shape parameters
             if map_inference:
                 self.dp = self.interface.solve_shape_map(
-                    H_m, J_m, e_m - self.A_m.T.dot(dc), self.s2_inv_L,
+                    H_m, J_m, e_m - self.A_m.dot(dc), self.s2_inv_L,
                     self.transform.as_vector())
             else:
                 self.dp = self.interface.solve_shape_ml(H_m, J_m,
-- 
2.43.0


From ecb4d4062a17459098ecea38a9c2dbf0fe7fd674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 48/93] fix: the prior of inverse compositional MAP inference
 pulls the parameters towards the mean

---
 menpofit/aam/algorithm/lk.py | 36 ++++++++++++++++++++++++++++++------
 menpofit/atm/algorithm.py    |  2 +-
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 3d58131..0a3a922 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -778,6 +778,10 @@ class LucasKanade(object):
         S = self.appearance_model.eigenvalues
         self.s2_inv_S = s2 / S
 
+    def _prior_parameters(self):
+        # shape parameters pulled towards zero by adding the increment to them
+        return self.transform.as_vector()
+
 
 class ProjectOut(LucasKanade):
     r"""
@@ -905,7 +909,7 @@ class ProjectOutForwardCompositional(ProjectOut):
         if map_inference:
             return self.interface.solve_shape_map(
                 JQJ_m, QJ_m, self.e_m,  self.s2_inv_L,
-                self.transform.as_vector())
+                self._prior_parameters())
         else:
             return self.interface.solve_shape_ml(JQJ_m, QJ_m, self.e_m)
 
@@ -941,10 +945,14 @@ class ProjectOutInverseCompositional(ProjectOut):
         if map_inference:
             return self.interface.solve_shape_map(
                 self.JQJ_m, self.QJ_m, self.e_m, self.s2_inv_L,
-                self.transform.as_vector())
+                self._prior_parameters())
         else:
             return -self.pinv_QJ_m.dot(self.e_m)
 
+    def _prior_parameters(self):
+        # the increment is subtracted from the shape parameters
+        return -self.transform.as_vector()
+
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
@@ -1080,7 +1088,7 @@ class Simultaneous(LucasKanade):
         if map_inference:
             return self.interface.solve_all_map(
                 H_sim_m, J_sim_m, self.e_m, self.s2_inv_S, self.c,
-                self.s2_inv_L, self.transform.as_vector())
+                self.s2_inv_L, self._prior_parameters())
         else:
             return self.interface.solve_all_ml(H_sim_m, J_sim_m, self.e_m)
 
@@ -1114,6 +1122,10 @@ class SimultaneousInverseCompositional(Simultaneous):
         # return inverse Jacobian
         return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
 
+    def _prior_parameters(self):
+        # the increment is subtracted from the shape parameters
+        return -self.transform.as_vector()
+
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
@@ -1220,7 +1232,7 @@ class Alternating(LucasKanade):
             if map_inference:
                 self.dp = self.interface.solve_shape_map(
                     H_m, J_m, e_m - self.A_m.dot(dc), self.s2_inv_L,
-                    self.transform.as_vector())
+                    self._prior_parameters())
             else:
                 self.dp = self.interface.solve_shape_ml(H_m, J_m,
                                                         e_m - self.A_m.dot(dc))
@@ -1294,6 +1306,10 @@ class AlternatingInverseCompositional(Alternating):
         # return inverse Jacobian
         return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
 
+    def _prior_parameters(self):
+        # the increment is subtracted from the shape parameters
+        return -self.transform.as_vector()
+
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
@@ -1387,7 +1403,7 @@ class ModifiedAlternating(Alternating):
             # solve for increments on the shape parameters
             if map_inference:
                 self.dp = self.interface.solve_shape_map(
-                    H_m, J_m, e_m, self.s2_inv_L, self.transform.as_vector())
+                    H_m, J_m, e_m, self.s2_inv_L, self._prior_parameters())
             else:
                 self.dp = self.interface.solve_shape_ml(H_m, J_m, e_m)
 
@@ -1457,6 +1473,10 @@ class ModifiedAlternatingInverseCompositional(ModifiedAlternating):
         # return inverse Jacobian
         return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
 
+    def _prior_parameters(self):
+        # the increment is subtracted from the shape parameters
+        return -self.transform.as_vector()
+
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
@@ -1554,7 +1574,7 @@ class Wiberg(LucasKanade):
             if map_inference:
                 self.dp = self.interface.solve_shape_map(
                     JQJ_m, QJ_m, e_m, self.s2_inv_L,
-                    self.transform.as_vector())
+                    self._prior_parameters())
             else:
                 self.dp = self.interface.solve_shape_ml(JQJ_m, QJ_m, e_m)
 
@@ -1625,6 +1645,10 @@ class WibergInverseCompositional(Wiberg):
         # return inverse Jacobian
         return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
 
+    def _prior_parameters(self):
+        # the increment is subtracted from the shape parameters
+        return -self.transform.as_vector()
+
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
diff --git a/menpofit/atm/algorithm.py b/menpofit/atm/algorithm.py
index 39b3db8..301eb13 100644
--- a/menpofit/atm/algorithm.py
+++ b/menpofit/atm/algorithm.py
@@ -365,7 +365,7 @@ class InverseCompositional(Compositional):
         if map_inference:
             return self.interface.solve_shape_map(
                 self.JJ_m, self.J_m, self.e_m, self.s2_inv_L,
-                self.transform.as_vector())
+                -self.transform.as_vector())
         else:
             return -self.pinv_J_m.dot(self.e_m)
 
-- 
2.43.0


From 153f948ed33cb04bc7542a98332f617541db9567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 49/93] fix: no prior on the similarity parameters in MAP
 inference

---
 menpofit/aam/algorithm/lk.py | 2 +-
 menpofit/atm/algorithm.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 0a3a922..eba7e89 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -773,7 +773,7 @@ class LucasKanade(object):
         sm_noise_variance = self.interface.shape_model.noise_variance() or 1
         s2 = self.appearance_model.noise_variance() / sm_noise_variance
         L = self.interface.shape_model.eigenvalues
-        self.s2_inv_L = np.hstack((np.ones((4,)), s2 / L))
+        self.s2_inv_L = np.hstack((np.zeros((4,)), s2 / L))
         # compute appearance model prior
         S = self.appearance_model.eigenvalues
         self.s2_inv_S = s2 / S
diff --git a/menpofit/atm/algorithm.py b/menpofit/atm/algorithm.py
index 301eb13..adea9d3 100644
--- a/menpofit/atm/algorithm.py
+++ b/menpofit/atm/algorithm.py
@@ -213,7 +213,7 @@ class LucasKanade(object):
         noise_variance = self.interface.shape_model.noise_variance() or 1
         s2 = 1.0 / noise_variance
         L = self.interface.shape_model.eigenvalues
-        self.s2_inv_L = np.hstack((np.ones((4,)), s2 / L))
+        self.s2_inv_L = np.hstack((np.zeros((4,)), s2 / L))
 
 
 class Compositional(LucasKanade):
-- 
2.43.0


From 23ca12f2ad3d31fa6b6449b2616da3314ab6f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 50/93] fix: APS appearance cost with sampling

---
 menpofit/aps/algorithm/gn.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/menpofit/aps/algorithm/gn.py b/menpofit/aps/algorithm/gn.py
index b6d6624..161ba85 100644
--- a/menpofit/aps/algorithm/gn.py
+++ b/menpofit/aps/algorithm/gn.py
@@ -423,8 +423,7 @@ class Inverse(GaussNewton):
         """
         # define cost closures
         def appearance_cost_closure(x):
-            return self.appearance_model._mahalanobis_distance(
-                x[..., None].T, subtract_mean=False, square_root=False)
+            return x.dot(self.Q_a.dot(x))
 
         def deformation_cost_closure(x):
             tmp_shape = x.from_vector(x.as_vector() -
@@ -561,8 +560,7 @@ class Forward(GaussNewton):
         """
         # define cost closures
         def appearance_cost_closure(x):
-            return self.appearance_model._mahalanobis_distance(
-                x[..., None].T, subtract_mean=False, square_root=False)
+            return x.dot(self.Q_a.dot(x))
 
         def deformation_cost_closure(x):
             tmp_shape = x.from_vector(x.as_vector() -
-- 
2.43.0


From 0ac6bc58524889f4768963fa09b23e4db530356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 51/93] fix: normalise the images of the ECC residual with the
 current menpo function

---
 menpofit/lk/residual.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index e8ce99b..44203fb 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -4,7 +4,7 @@ import numpy as np
 from numpy.fft import fftn, ifftn, fft2
 import scipy.linalg
 
-from menpo.feature import gradient
+from menpo.feature import gradient, normalize_norm
 
 
 # TODO: Do we want residuals to support masked templates?
@@ -485,11 +485,8 @@ class ECC(Residual):
         on Pattern Analysis and Machine Intelligence, 30(10): 1858-1865, 2008.
     """
     def _normalise_images(self, image):
-        # TODO: do we need to copy the image?
         # TODO: is this supposed to be per channel normalization?
-        norm_image = image.copy()
-        norm_image.normalize_norm_inplace()
-        return norm_image
+        return normalize_norm(image)
 
     def steepest_descent_images(self, image, dW_dp, forward=None):
         r"""
-- 
2.43.0


From aa195e78832b1d44d64038546ce534becf140559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 52/93] fix: cost of (Fourier) SSD residuals with a kernel

---
 menpofit/lk/residual.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 44203fb..054882e 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -296,8 +296,8 @@ class SSD(Residual):
                 return x.T.dot(x)
             else:
                 x = x.reshape((-1,) + k.shape[-2:])
-                kx = ifftn(k[..., None] * fftn(x, axes=(-2, -1)),
-                           axes=(-2, -1))
+                kx = np.real(ifftn(k * fftn(x, axes=(-2, -1)),
+                                   axes=(-2, -1)))
                 return x.ravel().T.dot(kx.ravel())
         return cost_closure(self._error_img, self._kernel)
 
@@ -465,8 +465,8 @@ class FourierSSD(Residual):
             if k is None:
                 return x.ravel().T.dot(x.ravel())
             else:
-                kx = ifftn(k[..., None] * fftn(x, axes=(-2, -1)),
-                           axes=(-2, -1))
+                kx = np.real(ifftn(k * fftn(x, axes=(-2, -1)),
+                                   axes=(-2, -1)))
                 return x.ravel().T.dot(kx.ravel())
         return cost_closure(self._error_img, self._kernel)
 
-- 
2.43.0


From f65284f8b54232b5b2feb1fee3a3cf87f4ef2873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 53/93] fix: gradient residuals compare the warped image with
 the template in forward algorithms

---
 menpofit/lk/residual.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 054882e..df485a0 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -703,11 +703,11 @@ class GradientImages(Residual):
 
         # compute gradient
         first_grad = self.gradient(image, forward=forward)
-        self._template_grad = self._regularise_gradients(first_grad)
+        first_grad = self._regularise_gradients(first_grad)
 
         # compute gradient
         # second_grad:  dims x dims x ch x pixels
-        second_grad = self.gradient(self._template_grad)
+        second_grad = self.gradient(first_grad)
         second_grad = second_grad.masked_pixels().flatten().reshape(
             (n_dims, n_dims,  n_channels) + second_grad.shape)
 
@@ -789,10 +789,14 @@ class GradientImages(Residual):
         IWxp_grad = self.gradient(image)
         IWxp_grad = self._regularise_gradients(IWxp_grad)
 
+        # compute template regularized gradient
+        template_grad = self.gradient(template)
+        template_grad = self._regularise_gradients(template_grad)
+
         # compute vectorized error_image
         # error_img: (dims x ch x pixels)
         self._error_img = (IWxp_grad.as_vector() -
-                           self._template_grad.as_vector())
+                           template_grad.as_vector())
 
         # compute steepest descent update
         # sdi.T:      params x (dims x ch x pixels)
@@ -991,10 +995,19 @@ class GradientCorrelation(Residual):
         IWxp_cos_phi = np.cos(phi)
         IWxp_sin_phi = np.sin(phi)
 
+        # compute template IGOs
+        # cos_phi:              ch x pixels
+        # sin_phi:              ch x pixels
+        template_grad = self.gradient(template).as_vector().reshape(
+            (n_dims, n_channels) + image.shape)
+        phi = np.angle(template_grad[1, ...] + 1j * template_grad[0, ...])
+        cos_phi = np.cos(phi)
+        sin_phi = np.sin(phi)
+
         # compute error image
         # error_img:  (ch x h x w)
-        self._error_img = (self._cos_phi * IWxp_sin_phi -
-                           self._sin_phi * IWxp_cos_phi).ravel()
+        self._error_img = (cos_phi * IWxp_sin_phi -
+                           sin_phi * IWxp_cos_phi).ravel()
 
         # compute steepest descent update
         # sdi:       (ch x pixels) x params
@@ -1003,8 +1016,7 @@ class GradientCorrelation(Residual):
         sdu = sdi.T.dot(self._error_img)
 
         # compute step size
-        qp = np.sum(self._cos_phi * IWxp_cos_phi +
-                    self._sin_phi * IWxp_sin_phi)
+        qp = np.sum(cos_phi * IWxp_cos_phi + sin_phi * IWxp_sin_phi)
         self._l = self._N / qp
         return self._l * sdu
 
-- 
2.43.0


From 0745b7c0405793029ae8ffb10876b9e3034936d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 54/93] fix: Lucas-Kanade returns one cost per shape

The cost of the final estimate was missing although the costs must have
the same length as the shapes.
---
 menpofit/lk/algorithm.py | 18 ++++++++
 menpofit/lk/residual.py  | 96 +++++++++++++++++++++++++++++-----------
 2 files changed, 89 insertions(+), 25 deletions(-)

diff --git a/menpofit/lk/algorithm.py b/menpofit/lk/algorithm.py
index d0f1e12..02c3c50 100644
--- a/menpofit/lk/algorithm.py
+++ b/menpofit/lk/algorithm.py
@@ -154,6 +154,12 @@ class ForwardAdditive(LucasKanade):
             # increase iteration counter
             k += 1
 
+        # cost of the final estimate
+        if return_costs:
+            IWxp = image.warp_to_mask(self.template.mask, self.transform,
+                                      warp_landmarks=False)
+            costs.append(self.residual.cost(IWxp, self.template))
+
         # return algorithm result
         return LucasKanadeAlgorithmResult(
             shapes=shapes, homogeneous_parameters=p_list,
@@ -281,6 +287,12 @@ class ForwardCompositional(LucasKanade):
             # increase iteration counter
             k += 1
 
+        # cost of the final estimate
+        if return_costs:
+            IWxp = image.warp_to_mask(self.template.mask, self.transform,
+                                      warp_landmarks=False)
+            costs.append(self.residual.cost(IWxp, self.template))
+
         # return algorithm result
         return LucasKanadeAlgorithmResult(
             shapes=shapes, homogeneous_parameters=p_list,
@@ -406,6 +418,12 @@ class InverseCompositional(LucasKanade):
             # increase iteration counter
             k += 1
 
+        # cost of the final estimate
+        if return_costs:
+            IWxp = image.warp_to_mask(self.template.mask, self.transform,
+                                      warp_landmarks=False)
+            costs.append(self.residual.cost(IWxp, self.template))
+
         # return algorithm result
         return LucasKanadeAlgorithmResult(
             shapes=shapes, homogeneous_parameters=p_list,
diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index df485a0..3f4279b 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -143,6 +143,40 @@ class Residual(object):
         """
         pass
 
+    def cost(self, image, template):
+        r"""
+        Computes the optimization cost of a warped image.
+
+        Parameters
+        ----------
+        image : `menpo.image.Image`
+            The warped image.
+        template : `menpo.image.Image`
+            The template.
+
+        Returns
+        -------
+        cost : `float`
+            The cost value.
+        """
+        self._compute_error(image, template)
+        return self.cost_closure()
+
+    @abc.abstractmethod
+    def _compute_error(self, image, template):
+        r"""
+        Method that stores the quantities that both the cost and the parameter
+        updates are computed from.
+
+        Parameters
+        ----------
+        image : `menpo.image.Image`
+            The warped image.
+        template : `menpo.image.Image`
+            The template.
+        """
+        pass
+
 
 class SSD(Residual):
     r"""
@@ -279,9 +313,12 @@ class SSD(Residual):
         sd_delta_p : ``(n_params,)`` `ndarray`
             The steepest descent parameter updates.
         """
-        self._error_img = image.as_vector() - template.as_vector()
+        self._compute_error(image, template)
         return sdi.T.dot(self._error_img)
 
+    def _compute_error(self, image, template):
+        self._error_img = image.as_vector() - template.as_vector()
+
     def cost_closure(self):
         r"""
         Method to compute the optimization cost.
@@ -439,8 +476,7 @@ class FourierSSD(Residual):
             The steepest descent parameter updates.
         """
         # compute error image
-        # error_img:  ch x h x w
-        self._error_img = image.pixels - template.pixels
+        self._compute_error(image, template)
 
         # compute error image fft
         # fft_error_img:  ch x (h x w)
@@ -452,6 +488,10 @@ class FourierSSD(Residual):
         # fft_sdu:        params
         return sdi.conjugate().T.dot(fft_error_img.ravel())
 
+    def _compute_error(self, image, template):
+        # error_img:  ch x h x w
+        self._error_img = image.pixels - template.pixels
+
     def cost_closure(self):
         r"""
         Method to compute the optimization cost.
@@ -600,9 +640,7 @@ class ECC(Residual):
         sd_delta_p : ``(n_params,)`` `ndarray`
             The steepest descent parameter updates.
         """
-        self._normalised_IWxp = self._normalise_images(image).as_vector()
-        self._normalised_template = self._normalise_images(
-            template).as_vector()
+        self._compute_error(image, template)
 
         Gt = sdi.T.dot(self._normalised_template)
         Gw = sdi.T.dot(self._normalised_IWxp)
@@ -632,6 +670,11 @@ class ECC(Residual):
 
         return sdi.T.dot(self._error_img)
 
+    def _compute_error(self, image, template):
+        self._normalised_IWxp = self._normalise_images(image).as_vector()
+        self._normalised_template = self._normalise_images(
+            template).as_vector()
+
     def cost_closure(self):
         r"""
         Method to compute the optimization cost.
@@ -785,6 +828,16 @@ class GradientImages(Residual):
         sd_delta_p : ``(n_params,)`` `ndarray`
             The steepest descent parameter updates.
         """
+        # compute vectorized error_image
+        self._compute_error(image, template)
+
+        # compute steepest descent update
+        # sdi.T:      params x (dims x ch x pixels)
+        # error_img:           (dims x ch x pixels)
+        # sdu:        params
+        return sdi.T.dot(self._error_img)
+
+    def _compute_error(self, image, template):
         # compute image regularized gradient
         IWxp_grad = self.gradient(image)
         IWxp_grad = self._regularise_gradients(IWxp_grad)
@@ -793,17 +846,10 @@ class GradientImages(Residual):
         template_grad = self.gradient(template)
         template_grad = self._regularise_gradients(template_grad)
 
-        # compute vectorized error_image
         # error_img: (dims x ch x pixels)
         self._error_img = (IWxp_grad.as_vector() -
                            template_grad.as_vector())
 
-        # compute steepest descent update
-        # sdi.T:      params x (dims x ch x pixels)
-        # error_img:           (dims x ch x pixels)
-        # sdu:        params
-        return sdi.T.dot(self._error_img)
-
     def cost_closure(self):
         r"""
         Method to compute the optimization cost.
@@ -912,10 +958,6 @@ class GradientCorrelation(Residual):
         for a in aux.reshape(((-1,) + aux.shape[2:])):
                 sdi += a
 
-        # compute constant N
-        # N:  1
-        self._N = grad.n_parameters / 2
-
         # reshape steepest descent images
         # sdi: (ch x pixels) x params
         sdi = sdi.reshape((-1, sdi.shape[-1]))
@@ -978,6 +1020,17 @@ class GradientCorrelation(Residual):
         sd_delta_p : ``(n_params,)`` `ndarray`
             The steepest descent parameter updates.
         """
+        # compute error image and step size
+        self._compute_error(image, template)
+
+        # compute steepest descent update
+        # sdi:       (ch x pixels) x params
+        # error_img: (ch x pixels)
+        # sdu:                      params
+        sdu = sdi.T.dot(self._error_img)
+        return self._l * sdu
+
+    def _compute_error(self, image, template):
         n_dims = image.n_dims
         n_channels = image.n_channels
 
@@ -1009,16 +1062,9 @@ class GradientCorrelation(Residual):
         self._error_img = (cos_phi * IWxp_sin_phi -
                            sin_phi * IWxp_cos_phi).ravel()
 
-        # compute steepest descent update
-        # sdi:       (ch x pixels) x params
-        # error_img: (ch x pixels)
-        # sdu:                      params
-        sdu = sdi.T.dot(self._error_img)
-
         # compute step size
         qp = np.sum(cos_phi * IWxp_cos_phi + sin_phi * IWxp_sin_phi)
-        self._l = self._N / qp
-        return self._l * sdu
+        self._l = self._error_img.size / qp
 
     def cost_closure(self):
         r"""
-- 
2.43.0


From 930d29d757d715f012c7256437bf55835fd491d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 55/93] fix: composing with an alignment similarity updates its
 target

As for the affine alignment; without it the shapes of a compositional
Lucas-Kanade fit with a similarity transform never moved.
---
 menpofit/transform/homogeneous.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/menpofit/transform/homogeneous.py b/menpofit/transform/homogeneous.py
index 9396202..4318862 100644
--- a/menpofit/transform/homogeneous.py
+++ b/menpofit/transform/homogeneous.py
@@ -185,6 +185,18 @@ class DifferentiableAlignmentSimilarity(AlignmentSimilarity, DP, DX):
         """
         return DifferentiableSimilarity(self.h_matrix, skip_checks=True)
 
+    def _compose_before_inplace(self, transform):
+        super(DifferentiableAlignmentSimilarity,
+              self)._compose_before_inplace(transform)
+        # the target follows the composed transform
+        self._sync_target_from_state()
+
+    def _compose_after_inplace(self, transform):
+        super(DifferentiableAlignmentSimilarity,
+              self)._compose_after_inplace(transform)
+        # the target follows the composed transform
+        self._sync_target_from_state()
+
     def d_dp(self, points):
         r"""
         The derivative with respect to the parametrisation changes evaluated at
-- 
2.43.0


From 8e538e7e938fee501349def3bbfe289fc92af914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 56/93] fix: keep the reference frame of every scale of linear
 models

Incrementing a multi-scale linear AAM or ATM failed, as every scale used
the reference frame of the last one.
---
 menpofit/aam/base.py | 22 ++++++++++++++--------
 menpofit/atm/base.py | 22 ++++++++++++++--------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 4a6046b..2a648fb 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -781,6 +781,8 @@ class LinearAAM(AAM):
         verbose=False,
         batch_size=None,
     ):
+        self.reference_frames = []
+
         super(LinearAAM, self).__init__(
             images,
             group=group,
@@ -807,8 +809,9 @@ class LinearAAM(AAM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_reference_frame(mean_aligned_shape)
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        reference_frame = build_reference_frame(mean_aligned_shape)
+        self.reference_frames.append(reference_frame)
+        dense_shapes = densify_shapes(shapes, reference_frame, self.transform)
 
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
@@ -817,7 +820,7 @@ class LinearAAM(AAM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -832,7 +835,7 @@ class LinearAAM(AAM):
         return warp_images(
             images,
             shapes,
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
@@ -959,6 +962,8 @@ class LinearMaskedAAM(AAM):
         n_scales = len(checks.check_scales(scales))
         self.patch_shape = checks.check_patch_shape(patch_shape, n_scales)
         # Call superclass
+        self.reference_frames = []
+
         super(LinearMaskedAAM, self).__init__(
             images,
             group=group,
@@ -985,10 +990,11 @@ class LinearMaskedAAM(AAM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_patch_reference_frame(
+        reference_frame = build_patch_reference_frame(
             mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
         )
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        self.reference_frames.append(reference_frame)
+        dense_shapes = densify_shapes(shapes, reference_frame, self.transform)
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
@@ -996,7 +1002,7 @@ class LinearMaskedAAM(AAM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -1011,7 +1017,7 @@ class LinearMaskedAAM(AAM):
         return warp_images(
             images,
             shapes,
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 6bdf41a..71372e4 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -661,6 +661,8 @@ class LinearATM(ATM):
         verbose=False,
         batch_size=None,
     ):
+        self.reference_frames = []
+
         super(LinearATM, self).__init__(
             template,
             shapes,
@@ -686,8 +688,9 @@ class LinearATM(ATM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_reference_frame(mean_aligned_shape)
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        reference_frame = build_reference_frame(mean_aligned_shape)
+        self.reference_frames.append(reference_frame)
+        dense_shapes = densify_shapes(shapes, reference_frame, self.transform)
 
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
@@ -696,7 +699,7 @@ class LinearATM(ATM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -712,7 +715,7 @@ class LinearATM(ATM):
         return warp_images(
             [template],
             [shape],
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
@@ -825,6 +828,8 @@ class LinearMaskedATM(ATM):
         n_scales = len(checks.check_scales(scales))
         self.patch_shape = checks.check_patch_shape(patch_shape, n_scales)
         # Call superclass
+        self.reference_frames = []
+
         super(LinearMaskedATM, self).__init__(
             template,
             shapes,
@@ -850,10 +855,11 @@ class LinearMaskedATM(ATM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_patch_reference_frame(
+        reference_frame = build_patch_reference_frame(
             mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
         )
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        self.reference_frames.append(reference_frame)
+        dense_shapes = densify_shapes(shapes, reference_frame, self.transform)
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
@@ -861,7 +867,7 @@ class LinearMaskedATM(ATM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -877,7 +883,7 @@ class LinearMaskedATM(ATM):
         return warp_images(
             [template],
             [shape],
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
-- 
2.43.0


From e5281b28f2e4dfa4edb3aa2c830e66807aa01fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 57/93] fix: keep one template per scale when incrementing an
 ATM

---
 menpofit/atm/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 71372e4..a95c2bd 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -282,7 +282,10 @@ class ATM(object):
                 scale_prefix,
                 verbose,
             )
-            self.warped_templates.append(warped_template[0])
+            if not increment:
+                self.warped_templates.append(warped_template[0])
+            else:
+                self.warped_templates[j] = warped_template[0]
 
             if verbose:
                 print_dynamic("{}Done\n".format(scale_prefix))
-- 
2.43.0


From e274ce44ea12a7086b5d21e6dbd169451cee93eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 58/93] fix: MaskedATM instances use the patch shape of their
 scale

---
 menpofit/atm/base.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index a95c2bd..5ecdf85 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -402,7 +402,7 @@ class ATM(object):
         template = self.warped_templates[scale_index]
 
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        return self._instance(shape_instance, template)
+        return self._instance(scale_index, shape_instance, template)
 
     def random_instance(self, scale_index=-1):
         r"""
@@ -425,9 +425,9 @@ class ATM(object):
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
 
-        return self._instance(shape_instance, template)
+        return self._instance(scale_index, shape_instance, template)
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         landmarks = template.landmarks["source"]
 
         reference_frame = build_reference_frame(shape_instance)
@@ -577,11 +577,11 @@ class MaskedATM(ATM):
     def _str_title(self):
         return "Masked Active Template Model"
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         landmarks = template.landmarks["source"]
 
         reference_frame = build_patch_reference_frame(
-            shape_instance, patch_shape=self.patch_shape
+            shape_instance, patch_shape=self.patch_shape[scale_index]
         )
 
         transform = self.transform(reference_frame.landmarks["source"], landmarks)
@@ -725,7 +725,7 @@ class LinearATM(ATM):
         )
 
     # TODO: implement me!
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         raise NotImplementedError()
 
     def build_fitter_interfaces(self, sampling):
@@ -893,7 +893,7 @@ class LinearMaskedATM(ATM):
         )
 
     # TODO: implement me!
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         raise NotImplementedError()
 
     def build_fitter_interfaces(self, sampling):
@@ -1036,7 +1036,7 @@ class PatchATM(ATM):
             verbose=verbose,
         )
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         return shape_instance, template
 
     def build_fitter_interfaces(self, sampling):
-- 
2.43.0


From fb8da93f6c3b29f5247112df1e6623c7fcf50c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 59/93] fix: normalise the size of the training shapes of an
 ATM

The shape models and the reference frames of linear ATMs had the size of
the raw shapes rather than that of the reference shape, i.e. the diagonal
had no effect on them.
---
 menpofit/atm/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 5ecdf85..5f1c746 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -4,7 +4,7 @@ import numpy as np
 
 from menpo.feature import no_op
 from menpo.visualize import print_dynamic
-from menpo.transform import Scale
+from menpo.transform import AlignmentUniformScale, Scale
 from menpo.shape import mean_pointcloud
 from menpo.base import name_of_callable
 
@@ -216,6 +216,12 @@ class ATM(object):
         shape_forgetting_factor=1.0,
         verbose=False,
     ):
+        # normalise the size of the shapes, as is done for the template
+        shape_batch = [
+            AlignmentUniformScale(s, self.reference_shape).apply(s)
+            for s in shape_batch
+        ]
+
         # build models at each scale
         if verbose:
             print_dynamic("- Building models\n")
-- 
2.43.0


From fda6b44055f7c94146cb001772f119c3bc023874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 60/93] fix: weight both terms of the project-out unified
 optimiser in its Hessian

The ratio was ignored without prior, and with prior only the right hand
side of the system was weighted.
---
 menpofit/unified_aam_clm/algorithm.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/menpofit/unified_aam_clm/algorithm.py b/menpofit/unified_aam_clm/algorithm.py
index f51f469..d225223 100644
--- a/menpofit/unified_aam_clm/algorithm.py
+++ b/menpofit/unified_aam_clm/algorithm.py
@@ -151,12 +151,7 @@ class ProjectOutRegularisedLandmarkMeanShift(UnifiedAlgorithm):
         sim_prior = np.zeros((4,))
         transform_prior = 1 / self.pdm.model.eigenvalues
         self._j_prior = np.hstack((sim_prior, transform_prior))
-
-        # compute Unified hessian inverse and jacobian pseudo-inverse
-        h = self._h_aam + self._h_clm
-        self._pinv_j_aam = np.linalg.solve(h, self._j_aam.T)
-        self._pinv_j_clm = np.linalg.solve(h, self._j_clm.T)
-        self._inv_h_prior = np.linalg.inv(h + np.diag(self._j_prior))
+        self._h_prior = np.diag(self._j_prior)
 
     def run(self, image, initial_shape, gt_shape=None, max_iters=20,
             return_costs=False, prior=False, a=0.5):
@@ -227,6 +222,12 @@ class ProjectOutRegularisedLandmarkMeanShift(UnifiedAlgorithm):
         # CLM part --------------------------------------------------------
         e_clm = self._compute_clm_error(image)
 
+        # Unified part --------------------------------------------------------
+        # compute hessian
+        h = a * self._h_aam + (1 - a) * self._h_clm
+        if prior:
+            h = h + self._h_prior
+
         # update costs
         costs = None
         if return_costs:
@@ -234,13 +235,11 @@ class ProjectOutRegularisedLandmarkMeanShift(UnifiedAlgorithm):
 
         while k < max_iters and eps > self.eps:
             # compute gauss-newton parameter updates
+            b = (a * self._j_aam.T.dot(e_aam) +
+                 (1 - a) * self._j_clm.T.dot(e_clm))
             if prior:
-                b = (self._j_prior * self.transform.as_vector() -
-                     a * self._j_aam.T.dot(e_aam) -
-                     (1 - a) * self._j_clm.T.dot(e_clm))
-                dp = -self._inv_h_prior.dot(b)
-            else:
-                dp = self._pinv_j_aam.dot(e_aam) + self._pinv_j_clm.dot(e_clm)
+                b = b - self._j_prior * self.transform.as_vector()
+            dp = np.linalg.solve(h, b)
 
             # update warp
             target = self.transform.target
-- 
2.43.0


From 6a592a9d0345726f8325d019f7ad6f4932cf85b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 61/93] fix: a total number of iterations is shared exactly by
 the scales

Rounding each share gave more (3 iterations over 2 scales: 2 + 2) or fewer
(1 iteration over 2 scales: none) iterations than the documented total.
---
 menpofit/checks.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index fed3d95..e74dd12 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -313,11 +313,9 @@ def check_max_iters(max_iters, n_scales):
         elements or None
     """
     if type(max_iters) is int:
-        max_iters = [np.round(max_iters/n_scales)
-                     for _ in range(n_scales)]
+        max_iters = _share_iters(max_iters, n_scales)
     elif len(max_iters) == 1 and n_scales > 1:
-        max_iters = [np.round(max_iters[0]/n_scales)
-                     for _ in range(n_scales)]
+        max_iters = _share_iters(max_iters[0], n_scales)
     elif len(max_iters) != n_scales:
         raise ValueError('max_iters can be integer, integer list '
                          'containing 1 or {} elements or '
@@ -325,6 +323,13 @@ def check_max_iters(max_iters, n_scales):
     return np.require(max_iters, dtype=np.int64)
 
 
+def _share_iters(max_iters, n_scales):
+    # the shares add up to the given number of iterations; the first scales
+    # get the iterations that cannot be shared equally
+    share, rest = divmod(max_iters, n_scales)
+    return [share + 1 if i < rest else share for i in range(n_scales)]
+
+
 def check_sampling(sampling, n_scales):
     r"""
     Function that checks the value of a `sampling` parameter defined for
-- 
2.43.0


From d08ff027975d94dbf96a94aca893591f2b93f572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:02 +0000
Subject: [PATCH 62/93] fix: precompute the Jacobians of AAM, ATM, APS and
 unified fitters at the mean shape

---
 menpofit/aam/algorithm/lk.py          | 6 ++++++
 menpofit/aps/algorithm/gn.py          | 3 +++
 menpofit/unified_aam_clm/algorithm.py | 4 +++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index eba7e89..6f2e0a7 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -105,6 +105,9 @@ class LucasKanadeBaseInterface(object):
 
         :type: ``(n_dims, n_pixels, n_params)`` `ndarray`
         """
+        # the warp jacobian is taken at the mean shape, independently of the shape
+        # that was last fitted with the model
+        self.transform.set_target(self.shape_model.mean())
         dW_dp = np.rollaxis(self.transform.d_dp(self.true_indices), -1)
         return dW_dp[self.dW_dp_mask].reshape((dW_dp.shape[0], -1,
                                                dW_dp.shape[2]))
@@ -499,6 +502,9 @@ class LucasKanadePatchBaseInterface(LucasKanadeBaseInterface):
 
         :type: ``(n_dims, n_pixels, n_params)`` `ndarray`
         """
+        # the warp jacobian is taken at the mean shape, independently of the shape
+        # that was last fitted with the model
+        self.transform.set_target(self.shape_model.mean())
         return np.rollaxis(self.transform.d_dp(None), -1)
 
     def warp(self, image):
diff --git a/menpofit/aps/algorithm/gn.py b/menpofit/aps/algorithm/gn.py
index 161ba85..bce7556 100644
--- a/menpofit/aps/algorithm/gn.py
+++ b/menpofit/aps/algorithm/gn.py
@@ -77,6 +77,9 @@ class GaussNewtonBaseInterface(object):
 
         :type: `ndarray`
         """
+        # the shape jacobian is taken at the mean shape, independently of the shape
+        # that was last fitted with the model
+        self.transform.set_target(self.transform.model.mean())
         return np.rollaxis(self.transform.d_dp(None), -1)
 
     def ds_dp_vectorized(self):
diff --git a/menpofit/unified_aam_clm/algorithm.py b/menpofit/unified_aam_clm/algorithm.py
index d225223..73219fb 100644
--- a/menpofit/unified_aam_clm/algorithm.py
+++ b/menpofit/unified_aam_clm/algorithm.py
@@ -81,7 +81,9 @@ class UnifiedAlgorithm(object):
         mvn = multivariate_normal(mean=mean, cov=response_covariance)
         self._kernel_grid = mvn.pdf(self._sampling_grid)
 
-        # compute CLM jacobian
+        # compute CLM jacobian at the mean shape, independently of the shape that
+        # was last fitted with the model
+        self.pdm.set_target(self.pdm.model.mean())
         j_clm = np.rollaxis(self.pdm.d_dp(None), -1, 1)
         j_clm = j_clm.reshape((-1, j_clm.shape[-1]))
         self._j_clm = self._inv_rho2 * j_clm
-- 
2.43.0


From e146324bae484710ce29c2337121ce39fa6af29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:10 +0000
Subject: [PATCH 63/93] fix: convert dlib detections with current numpy (vstack
 of a generator)

---
 menpofit/dlib/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/dlib/conversion.py b/menpofit/dlib/conversion.py
index 17f1356..9fcbc1f 100644
--- a/menpofit/dlib/conversion.py
+++ b/menpofit/dlib/conversion.py
@@ -12,7 +12,7 @@ def pointcloud_to_dlib_parts(pcloud):
 
 
 def dlib_full_object_detection_to_pointcloud(full_object_detection):
-    return PointCloud(np.vstack(all_parts(full_object_detection)), copy=False)
+    return PointCloud(np.vstack(list(all_parts(full_object_detection))), copy=False)
 
 
 def dlib_rect_to_bounding_box(rect):
-- 
2.43.0


From 7ddaf273375fc3ff7c1a91adc8c7794dd6910b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:42 +0000
Subject: [PATCH 64/93] fix: remove the temporary landmarks of the training
 images when dlib training fails

---
 menpofit/dlib/fitter.py | 43 ++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 73fa109..246f97f 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -269,28 +269,31 @@ class DlibERT(MultiScaleNonParametricFitter):
         if group is None:
             group = original_images[0].landmarks.group_labels[0]
 
-        # Temporarily store all the bounding boxes for rescaling
-        for i in original_images:
-            i.landmarks["__gt_bb"] = i.landmarks[group].bounding_box()
-
-        if self.reference_shape is None:
-            # If no reference shape was given, use the mean of the first batch
-            self._reference_shape = compute_reference_shape(
-                [i.landmarks["__gt_bb"] for i in original_images],
-                self.diagonal,
-                verbose=verbose,
-            )
-
-        # Rescale images wrt the scale factor between the existing
-        # reference_shape and their ground truth (group) bboxes
-        images = rescale_images_to_reference_shape(
-            original_images, "__gt_bb", self.reference_shape, verbose=verbose
-        )
+        try:
+            # Temporarily store all the bounding boxes for rescaling
+            for i in original_images:
+                i.landmarks["__gt_bb"] = i.landmarks[group].bounding_box()
+
+            if self.reference_shape is None:
+                # If no reference shape was given, use the mean of the first batch
+                self._reference_shape = compute_reference_shape(
+                    [i.landmarks["__gt_bb"] for i in original_images],
+                    self.diagonal,
+                    verbose=verbose,
+                )
 
-        # Scaling is done - remove temporary gt bounding boxes
-        for i, i2 in zip(original_images, images):
+            # Rescale images wrt the scale factor between the existing
+            # reference_shape and their ground truth (group) bboxes
+            images = rescale_images_to_reference_shape(
+                original_images, "__gt_bb", self.reference_shape, verbose=verbose
+            )
+        finally:
+            # Scaling is done (or failed) - remove temporary gt bounding boxes
+            for i in original_images:
+                if "__gt_bb" in i.landmarks:
+                    del i.landmarks["__gt_bb"]
+        for i in images:
             del i.landmarks["__gt_bb"]
-            del i2.landmarks["__gt_bb"]
 
         # Create a callable that generates perturbations of the bounding boxes
         # of the provided images.
-- 
2.43.0


From 814daf0664f5ce22360f1c2c77890fc5a185d65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:42 +0000
Subject: [PATCH 65/93] fix: the result of a packaged fit keeps its own copy of
 the image

---
 menpofit/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/menpofit/io.py b/menpofit/io.py
index 81d6574..f888840 100644
--- a/menpofit/io.py
+++ b/menpofit/io.py
@@ -9,6 +9,7 @@ try:
 except ImportError:
     from urllib.request import urlopen  # Py3
 
+from menpo.image import Image
 from menpo.io import import_pickle
 
 from menpofit.base import menpofit_src_dir_path
@@ -221,7 +222,7 @@ class PickleWrappedFitter(object):
                 proc_image, trans.pseudoinverse().apply(bounding_box),
                 **final_kwargs)
             # update result attributes
-            result._image = image
+            result._image = Image(image.pixels)
             result._final_shape = trans.apply(result.final_shape)
             result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
@@ -268,7 +269,7 @@ class PickleWrappedFitter(object):
                 proc_image, trans.pseudoinverse().apply(initial_shape),
                 **final_kwargs)
             # update result attributes
-            result._image = image
+            result._image = Image(image.pixels)
             result._final_shape = trans.apply(result.final_shape)
             result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
-- 
2.43.0


From e78a65e96cdaf9a767e20b7a9940660fc7aa8d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 66/93] fix: supervised descent training dropped shape
 estimates after the first scale

With provided bounding boxes more shapes than n_perturbations are generated
per image; the scales after the first only read n_perturbations of them.
---
 menpofit/sdm/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index 2b9e927..f804db5 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -323,7 +323,7 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                                end_with_newline=False, verbose=verbose)
                 for ii in wrap(scaled_images):
                     c_shapes = []
-                    for k in list(range(self.n_perturbations)):
+                    for k in list(range(len(generated_bb_func(ii)))):
                         c_key = '__sdm_current_shape_{}'.format(k)
                         c_shapes.append(ii.landmarks[c_key])
                     current_shapes.append(c_shapes)
@@ -366,7 +366,7 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                 # shape estimations attached. If yes, delete them.
                 if '__sdm_current_shape_0' in image_batch[0].landmarks:
                     for image in image_batch:
-                        for k in list(range(self.n_perturbations)):
+                        for k in list(range(len(generated_bb_func(image)))):
                             c_key = '__sdm_current_shape_{}'.format(k)
                             del image.landmarks[c_key]
 
-- 
2.43.0


From e8031fd41c88eef4cfbc8819d8c3b7e9e382509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 67/93] fix: dlib training dropped bounding boxes after the
 first scale

With provided bounding boxes more boxes than n_perturbations are generated
per image; the scales after the first only read n_perturbations of them.
---
 menpofit/dlib/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 246f97f..5764874 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -348,7 +348,7 @@ class DlibERT(MultiScaleNonParametricFitter):
                 )
                 for ii in wrap(scaled_images):
                     c_bboxes = []
-                    for k in list(range(self.n_perturbations)):
+                    for k in list(range(len(generated_bb_func(ii)))):
                         c_key = "__ert_current_bbox_{}".format(k)
                         c_bboxes.append(ii.landmarks[c_key])
                     current_bounding_boxes.append(c_bboxes)
-- 
2.43.0


From 12acf4d1011ef03df13e34be89bdc5a3b0565a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 68/93] fix: supervised descent training misplaced estimates
 for features that resize images

The estimates of a scale are in the coordinates of its feature image; they were
attached to the training image unchanged before the features of the next scale
were computed.
---
 menpofit/sdm/fitter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index f804db5..6fdf2ba 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -5,6 +5,7 @@ import warnings
 
 from menpo.feature import no_op
 from menpo.base import name_of_callable
+from menpo.transform import AlignmentAffine
 
 from menpofit.visualize import print_progress
 from menpofit.base import batch
@@ -350,8 +351,13 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                     for jj, image_shapes in enumerate(current_shapes):
                         for k, shape in enumerate(image_shapes):
                             c_key = '__sdm_current_shape_{}'.format(k)
-                            image_batch[jj].landmarks[c_key] = \
-                                scale_transforms[jj].apply(shape)
+                            # the estimations are in feature space, which may
+                            # differ from the space of the training image
+                            tr = AlignmentAffine(
+                                feature_images[jj].landmarks[group],
+                                image_batch[jj].landmarks[group])
+                            image_batch[jj].landmarks[c_key] = tr.apply(
+                                scale_transforms[jj].apply(shape))
                 else:
                     # Features won't be extracted;. the same feature_images will
                     # be used for the next scale, thus attach current_shapes on
-- 
2.43.0


From 65e404f36344b1ae8dab4187e2fb403d1a1f7e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 69/93] fix: parametric supervised descent was trained on
 features of shapes it never visits

Fitting starts from the shape model's reconstruction of the initial shape, but
the first regressor of every scale was trained on features extracted at the
shape before its reconstruction.
---
 menpofit/sdm/algorithm/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/menpofit/sdm/algorithm/base.py b/menpofit/sdm/algorithm/base.py
index 12104b3..5f4b6e4 100644
--- a/menpofit/sdm/algorithm/base.py
+++ b/menpofit/sdm/algorithm/base.py
@@ -453,6 +453,9 @@ def compute_parametric_delta_x(gt_shapes, current_shapes, model):
             model.set_target(s)
             current_params = model.as_vector()
             delta_params[k] = c_gt_params - current_params
+            # the shape from which fitting starts is the one described by the
+            # model, thus features have to be extracted from it
+            s._from_vector_inplace(model.target.as_vector().copy())
 
             k += 1
 
-- 
2.43.0


From d077dd7bccd1c847ab3541fee734a6bb8d8b49fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:58 +0000
Subject: [PATCH 70/93] fix: training supervised descent fitters of multi-scale
 linear AAMs raised an error

The dense shapes estimated by a scale were given to the next scale, whose dense
shapes have a different number of points.
---
 menpofit/aam/algorithm/sd.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/menpofit/aam/algorithm/sd.py b/menpofit/aam/algorithm/sd.py
index 61b141e..0b346f8 100644
--- a/menpofit/aam/algorithm/sd.py
+++ b/menpofit/aam/algorithm/sd.py
@@ -70,6 +70,20 @@ class ParametricSupervisedDescentAlgorithm(BaseSupervisedDescentAlgorithm):
         # Vectorise it and mask it
         self.a_bar_m = a_bar.as_vector()[self.interface.i_mask]
 
+    def _train(self, images, gt_shapes, current_shapes, increment=False,
+               prefix='', verbose=False):
+        current_shapes = super(
+            ParametricSupervisedDescentAlgorithm, self)._train(
+                images, gt_shapes, current_shapes, increment=increment,
+                prefix=prefix, verbose=verbose)
+        # The shapes of linear models are dense. The next scale starts from
+        # their sparse points, as it does when fitting.
+        n = gt_shapes[0].n_parameters
+        for shapes in current_shapes:
+            for s in shapes:
+                s._from_vector_inplace(s.as_vector()[:n].copy())
+        return current_shapes
+
     def _compute_delta_x(self, gt_shapes, current_shapes):
         # This is called first - so train shape model here
         return compute_parametric_delta_x(gt_shapes, current_shapes,
-- 
2.43.0


From 2c396e488b9b28d811bbbc58478e9359bac82817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 71/93] fix: appearance_reconstructions used wrong parameters
 after two scales

The start of each scale's appearance parameters has to accumulate.
---
 menpofit/aam/base.py             | 4 ++--
 menpofit/unified_aam_clm/base.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 2a648fb..4ed464a 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -557,7 +557,7 @@ class AAM(object):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c)
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
@@ -1256,7 +1256,7 @@ class PatchAAM(AAM):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c).pixels
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 9917a09..3699335 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -483,7 +483,7 @@ class UnifiedAAMCLM(object):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c)
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
-- 
2.43.0


From c881dc1d975761aacf9fb504ad1f7bd6f31948ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 72/93] fix: random_instance drew appearance weights for the
 shape components

It crashed when the appearance model has fewer components than the shape
model and left components unused when it has more.
---
 menpofit/aam/base.py             | 2 +-
 menpofit/unified_aam_clm/base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 4ed464a..571761c 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -479,7 +479,7 @@ class AAM(object):
         # TODO: this bit of logic should to be transferred down to PCAModel
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        appearance_weights = np.random.randn(sm.n_active_components)
+        appearance_weights = np.random.randn(am.n_active_components)
         appearance_instance = am.instance(appearance_weights, normalized_weights=True)
 
         return self._instance(scale_index, shape_instance, appearance_instance)
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 3699335..f6c12e6 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -405,7 +405,7 @@ class UnifiedAAMCLM(object):
         # TODO: this bit of logic should to be transferred down to PCAModel
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        appearance_weights = np.random.randn(sm.n_active_components)
+        appearance_weights = np.random.randn(am.n_active_components)
         appearance_instance = am.instance(appearance_weights, normalized_weights=True)
 
         return self._instance(scale_index, shape_instance, appearance_instance)
-- 
2.43.0


From 631afbb10f6ba8b3aa5829b47d34de92b12e4b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 73/93] fix: UnifiedAAMCLM ignored the given reference shape

---
 menpofit/unified_aam_clm/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index f6c12e6..28b2dd4 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -203,9 +203,10 @@ class UnifiedAAMCLM(object):
 
     def _train(self, images, group=None, verbose=False):
         checks.check_landmark_trilist(images[0], self.transform, group=group)
-        self.reference_shape = compute_reference_shape(
-            [i.landmarks[group] for i in images], self.diagonal, verbose=verbose
-        )
+        if self.reference_shape is None:
+            self.reference_shape = compute_reference_shape(
+                [i.landmarks[group] for i in images], self.diagonal, verbose=verbose
+            )
 
         # normalize images
         images = rescale_images_to_reference_shape(
-- 
2.43.0


From 2a8fe54b20537714ab25836a7c9fe9d8fc2e650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 74/93] fix: UnifiedAAMCLM ignored the boundary of its
 reference frame

---
 menpofit/unified_aam_clm/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 28b2dd4..ac56a16 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -191,7 +191,7 @@ class UnifiedAAMCLM(object):
     def _warp_images(
         self, images, shapes, reference_shape, scale_index, prefix, verbose
     ):
-        reference_frame = build_reference_frame(reference_shape)
+        reference_frame = self._build_reference_frame(reference_shape)
         return warp_images(
             images,
             shapes,
-- 
2.43.0


From 8330a6d603903b8bb357694e52e6cd3dc2d60c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 75/93] fix: incrementing an APS exceeded the maximum number of
 shape components

---
 menpofit/aps/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/menpofit/aps/base.py b/menpofit/aps/base.py
index 5e47dc5..ee8245a 100644
--- a/menpofit/aps/base.py
+++ b/menpofit/aps/base.py
@@ -321,7 +321,11 @@ class GenerativeAPS(object):
                     )
                 )
             else:
-                self.shape_models[j].increment(aligned_shapes, verbose=verbose)
+                self.shape_models[j].increment(
+                    aligned_shapes,
+                    max_n_components=self.max_shape_components[j],
+                    verbose=verbose,
+                )
 
             # Build the deformation model
             if verbose:
-- 
2.43.0


From dd1854fd57c9ed4492b74be1920f2c381b1d8c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 76/93] fix: the inverse of a thin plate spline kept its kernel
 on the old source

The inverse did not map the target landmarks back to the source ones, so that
the landmarks of masked AAM and ATM instances were misplaced.
---
 menpofit/transform/thinsplatesplines.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/menpofit/transform/thinsplatesplines.py b/menpofit/transform/thinsplatesplines.py
index 0a630f7..1ea2363 100644
--- a/menpofit/transform/thinsplatesplines.py
+++ b/menpofit/transform/thinsplatesplines.py
@@ -29,6 +29,17 @@ class DifferentiableThinPlateSplines(ThinPlateSplines, DL, DX):
             kernel = DifferentiableR2LogR2RBF(source.points)
         ThinPlateSplines.__init__(self, source, target, kernel=kernel)
 
+    def pseudoinverse(self):
+        r"""
+        The pseudoinverse of the transform, i.e. the transform that results
+        from swapping `source` and `target`. Note that the kernel has to be
+        centred on the new source.
+
+        :type: ``type(self)``
+        """
+        return type(self)(self.target, self.source,
+                          kernel=type(self.kernel)(self.target.points))
+
     def d_dl(self, points):
         """
         Calculates the Jacobian of the TPS warp wrt to the source landmarks
-- 
2.43.0


From 3ad87fffe96355874cacdb07288587330c5b979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 77/93] fix: packaged fitters handle results without an initial
 shape

---
 menpofit/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/menpofit/io.py b/menpofit/io.py
index f888840..fc35861 100644
--- a/menpofit/io.py
+++ b/menpofit/io.py
@@ -224,7 +224,8 @@ class PickleWrappedFitter(object):
             # update result attributes
             result._image = Image(image.pixels)
             result._final_shape = trans.apply(result.final_shape)
-            result._initial_shape = trans.apply(result.initial_shape)
+            if result.initial_shape is not None:
+                result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
                 result._shapes = [trans.apply(s) for s in result.shapes]
         return result
@@ -271,7 +272,8 @@ class PickleWrappedFitter(object):
             # update result attributes
             result._image = Image(image.pixels)
             result._final_shape = trans.apply(result.final_shape)
-            result._initial_shape = trans.apply(result.initial_shape)
+            if result.initial_shape is not None:
+                result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
                 result._shapes = [trans.apply(s) for s in result.shapes]
         return result
-- 
2.43.0


From ac45eb3ec22634e68c863ba7bc0e7d24f032fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 78/93] fix: dlib conversion of images with more than three
 channels

---
 menpofit/dlib/conversion.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/menpofit/dlib/conversion.py b/menpofit/dlib/conversion.py
index 9fcbc1f..f965a28 100644
--- a/menpofit/dlib/conversion.py
+++ b/menpofit/dlib/conversion.py
@@ -40,8 +40,7 @@ def copy_dlib_options(options):
 
 
 def image_to_dlib_pixels(im):
-    pixels = np.array(im.as_PILImage())
     # Only supports RGB and Grayscale
     if im.n_channels > 3:
-        pixels = pixels[..., 0]
-    return pixels
+        im = im.extract_channels(0)
+    return np.array(im.as_PILImage())
-- 
2.43.0


From e1ef248cdc870bf61236c71f31c4b26fc286e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 79/93] fix: DlibERT accepts the documented float
 feature_padding

---
 menpofit/dlib/fitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 5764874..3106638 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -215,7 +215,9 @@ class DlibERT(MultiScaleNonParametricFitter):
     ):
         check_int = partial(checks.check_multi_scale_param, self.n_scales, (int,))
         check_float = partial(checks.check_multi_scale_param, self.n_scales, (float,))
-        feature_padding = check_int("feature_padding", feature_padding)
+        feature_padding = checks.check_multi_scale_param(
+            self.n_scales, (int, float), "feature_padding", feature_padding
+        )
         n_pixel_pairs = check_int("n_pixel_pairs", n_pixel_pairs)
         distance_prior_weighting = check_float(
             "distance_prior_weighting", distance_prior_weighting
-- 
2.43.0


From 9bee5e4ffcf51f9c19eab9178c8ecbf6d6863545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 80/93] fix: DlibERT with a given reference_shape

---
 menpofit/dlib/fitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 3106638..6842d47 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -283,6 +283,9 @@ class DlibERT(MultiScaleNonParametricFitter):
                     self.diagonal,
                     verbose=verbose,
                 )
+            else:
+                # Sizes are normalised by means of bounding boxes
+                self._reference_shape = self.reference_shape.bounding_box()
 
             # Rescale images wrt the scale factor between the existing
             # reference_shape and their ground truth (group) bboxes
-- 
2.43.0


From 9c3df1fae421b1b1e575a958d4917d6de8b69c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 81/93] fix: ECC cost of a warp that left the image

---
 menpofit/lk/residual.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 3f4279b..ce72593 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -528,6 +528,28 @@ class ECC(Residual):
         # TODO: is this supposed to be per channel normalization?
         return normalize_norm(image)
 
+    def cost(self, image, template):
+        r"""
+        Computes the optimization cost of a warped image.
+
+        Parameters
+        ----------
+        image : `menpo.image.Image`
+            The warped image.
+        template : `menpo.image.Image`
+            The template.
+
+        Returns
+        -------
+        cost : `float`
+            The cost value. It is zero for a constant image, which can not be
+            normalised and does not correlate with anything.
+        """
+        vector = image.as_vector()
+        if np.all(vector == vector[0]):
+            return 0.
+        return super(ECC, self).cost(image, template)
+
     def steepest_descent_images(self, image, dW_dp, forward=None):
         r"""
         Calculates the standard steepest descent images.
-- 
2.43.0


From 955e492d21989936c81e0afb6dd468806e60e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 82/93] fix: a model can be incremented by a single image

Generalized Procrustes Analysis needs at least two shapes, so that every
increment (or last batch) of one image raised an error. A single new shape
is aligned to the mean shape that has been learned so far.
---
 menpofit/aam/base.py      |  8 ++++++--
 menpofit/aps/base.py      |  5 ++++-
 menpofit/atm/base.py      |  8 ++++++--
 menpofit/builder.py       | 12 ++++++++++--
 menpofit/modelinstance.py |  4 ++--
 5 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 571761c..d3fc9ce 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -818,7 +818,9 @@ class LinearAAM(AAM):
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
 
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
-        aligned_shapes = align_shapes(shapes)
+        aligned_shapes = align_shapes(
+            shapes, reference=self.reference_frames[scale_index].landmarks["source"]
+        )
         dense_shapes = densify_shapes(
             aligned_shapes, self.reference_frames[scale_index], self.transform
         )
@@ -1000,7 +1002,9 @@ class LinearMaskedAAM(AAM):
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
 
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
-        aligned_shapes = align_shapes(shapes)
+        aligned_shapes = align_shapes(
+            shapes, reference=self.reference_frames[scale_index].landmarks["source"]
+        )
         dense_shapes = densify_shapes(
             aligned_shapes, self.reference_frames[scale_index], self.transform
         )
diff --git a/menpofit/aps/base.py b/menpofit/aps/base.py
index ee8245a..5888843 100644
--- a/menpofit/aps/base.py
+++ b/menpofit/aps/base.py
@@ -305,7 +305,10 @@ class GenerativeAPS(object):
             scale_shapes = [i.landmarks[group] for i in scaled_images]
 
             # Apply procrustes to align the shapes
-            aligned_shapes = align_shapes(scale_shapes)
+            aligned_shapes = align_shapes(
+                scale_shapes,
+                reference=self.shape_models[j].model.mean() if increment else None,
+            )
 
             # Build the shape model using the aligned shapes
             if verbose:
diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 5f1c746..3803986 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -706,7 +706,9 @@ class LinearATM(ATM):
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
 
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
-        aligned_shapes = align_shapes(shapes)
+        aligned_shapes = align_shapes(
+            shapes, reference=self.reference_frames[scale_index].landmarks["source"]
+        )
         dense_shapes = densify_shapes(
             aligned_shapes, self.reference_frames[scale_index], self.transform
         )
@@ -874,7 +876,9 @@ class LinearMaskedATM(ATM):
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
 
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
-        aligned_shapes = align_shapes(shapes)
+        aligned_shapes = align_shapes(
+            shapes, reference=self.reference_frames[scale_index].landmarks["source"]
+        )
         dense_shapes = densify_shapes(
             aligned_shapes, self.reference_frames[scale_index], self.transform
         )
diff --git a/menpofit/builder.py b/menpofit/builder.py
index 72f967a..8d09d52 100644
--- a/menpofit/builder.py
+++ b/menpofit/builder.py
@@ -6,7 +6,8 @@ import numpy as np
 from menpo.shape import mean_pointcloud, PointCloud, TriMesh
 from menpo.image import Image, MaskedImage
 from menpo.feature import no_op
-from menpo.transform import Scale, Translation, GeneralizedProcrustesAnalysis
+from menpo.transform import (Scale, Translation, AlignmentSimilarity,
+                             GeneralizedProcrustesAnalysis)
 from menpo.visualize import print_dynamic
 
 from menpofit.visualize import print_progress
@@ -404,7 +405,7 @@ def densify_shapes(shapes, reference_frame, transform):
     return dense_shapes
 
 
-def align_shapes(shapes):
+def align_shapes(shapes, reference=None):
     r"""
     Function that aligns a set of shapes by applying Generalized Procrustes
     Analysis.
@@ -413,6 +414,10 @@ def align_shapes(shapes):
     ----------
     shapes : `list` of `menpo.shape.PointCloud`
         The input shapes.
+    reference : `menpo.shape.PointCloud`, optional
+        The shape that a single shape, for which Generalized Procrustes
+        Analysis is not defined, gets aligned to. It is not used if there is
+        more than one shape.
 
     Returns
     -------
@@ -421,6 +426,9 @@ def align_shapes(shapes):
     """
     # centralize shapes
     centered_shapes = [Translation(-s.centre()).apply(s) for s in shapes]
+    if len(centered_shapes) == 1 and reference is not None:
+        return [AlignmentSimilarity(centered_shapes[0],
+                                    reference).aligned_source()]
     # align centralized shape using Procrustes Analysis
     gpa = GeneralizedProcrustesAnalysis(centered_shapes)
     return [s.aligned_source() for s in gpa.transforms]
diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index 679812b..62e58e7 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -398,7 +398,7 @@ class PDM(ModelInstance):
             2007.
         """
         old_target = self.target
-        aligned_shapes = align_shapes(shapes)
+        aligned_shapes = align_shapes(shapes, reference=self.model.mean())
         self.model.increment(aligned_shapes, n_samples=n_shapes,
                              forgetting_factor=forgetting_factor,
                              verbose=verbose)
@@ -699,7 +699,7 @@ class OrthoPDM(GlobalPDM):
             2007.
         """
         old_target = self.target
-        aligned_shapes = align_shapes(shapes)
+        aligned_shapes = align_shapes(shapes, reference=self.model.mean())
         self.model.increment(aligned_shapes, n_samples=n_shapes,
                              forgetting_factor=forgetting_factor,
                              verbose=verbose)
-- 
2.43.0


From 5a2940f65d5529cc7cd8cc3cf7017e7cf882d2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 83/93] fix: increment of a PDM with a given number of shapes

The aligned shapes are a list, but menpo wants an iterator when the number
of samples is given, so that n_shapes always raised a TypeError.
---
 menpofit/modelinstance.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index 62e58e7..4dae774 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -1,3 +1,5 @@
+from itertools import islice
+
 import numpy as np
 
 from menpo.base import Targetable, Vectorizable
@@ -398,8 +400,9 @@ class PDM(ModelInstance):
             2007.
         """
         old_target = self.target
-        aligned_shapes = align_shapes(shapes, reference=self.model.mean())
-        self.model.increment(aligned_shapes, n_samples=n_shapes,
+        aligned_shapes = align_shapes(islice(shapes, n_shapes),
+                                      reference=self.model.mean())
+        self.model.increment(aligned_shapes,
                              forgetting_factor=forgetting_factor,
                              verbose=verbose)
         if max_n_components is not None:
@@ -699,8 +702,9 @@ class OrthoPDM(GlobalPDM):
             2007.
         """
         old_target = self.target
-        aligned_shapes = align_shapes(shapes, reference=self.model.mean())
-        self.model.increment(aligned_shapes, n_samples=n_shapes,
+        aligned_shapes = align_shapes(islice(shapes, n_shapes),
+                                      reference=self.model.mean())
+        self.model.increment(aligned_shapes,
                              forgetting_factor=forgetting_factor,
                              verbose=verbose)
         if max_n_components is not None:
-- 
2.43.0


From fedefec01f05c550396c2fed4e81c13809b675e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 84/93] fix: name of the simultaneous inverse compositional
 algorithm

---
 menpofit/aam/algorithm/lk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 6f2e0a7..ffc62d1 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -1138,7 +1138,7 @@ class SimultaneousInverseCompositional(Simultaneous):
             self.transform.as_vector() - self.dp)
 
     def __str__(self):
-        return "Project-Out Inverse Compositional Algorithm"
+        return "Simultaneous Inverse Compositional Algorithm"
 
 
 class Alternating(LucasKanade):
-- 
2.43.0


From 808bcadd24fccc10d90a377afce6aa914c6ef7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 85/93] fix: cascade depth in the summary of DlibERT

---
 menpofit/dlib/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 6842d47..4c66188 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -490,7 +490,7 @@ class DlibERT(MultiScaleNonParametricFitter):
             scales_info.append(
                 lvl_str_tmplt.format(
                     s,
-                    self._dlib_options_templates[k].cascade_depth,
+                    self.n_iterations[k],
                     self._dlib_options_templates[k].tree_depth,
                     self._dlib_options_templates[k].num_trees_per_cascade_level,
                     self._dlib_options_templates[k].nu,
-- 
2.43.0


From d5c3a150e740c860fb96625507739337d5c2f0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 86/93] fix: a given reference shape is rescaled to the
 requested diagonal

---
 menpofit/aam/base.py             |  3 +++
 menpofit/aps/base.py             |  3 +++
 menpofit/atm/base.py             |  3 +++
 menpofit/builder.py              | 20 ++++++++++++++++++++
 menpofit/clm/base.py             |  3 +++
 menpofit/dlib/fitter.py          |  3 +++
 menpofit/sdm/fitter.py           |  4 +++-
 menpofit/unified_aam_clm/base.py |  3 +++
 8 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index d3fc9ce..0109309 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -35,6 +35,7 @@ from menpofit.builder import (
     extract_patches,
     MenpoFitBuilderWarning,
     compute_reference_shape,
+    rescale_reference_shape,
 )
 
 
@@ -138,6 +139,8 @@ class AAM(object):
     ):
         # Check parameters
         checks.check_diagonal(diagonal)
+        if reference_shape is not None:
+            reference_shape = rescale_reference_shape(reference_shape, diagonal)
         scales = checks.check_scales(scales)
         n_scales = len(scales)
         holistic_features = checks.check_callable(holistic_features, n_scales)
diff --git a/menpofit/aps/base.py b/menpofit/aps/base.py
index 5888843..f50e693 100644
--- a/menpofit/aps/base.py
+++ b/menpofit/aps/base.py
@@ -27,6 +27,7 @@ from menpofit.builder import (
     extract_patches,
     MenpoFitBuilderWarning,
     compute_reference_shape,
+    rescale_reference_shape,
 )
 
 
@@ -154,6 +155,8 @@ class GenerativeAPS(object):
     ):
         # Check parameters
         checks.check_diagonal(diagonal)
+        if reference_shape is not None:
+            reference_shape = rescale_reference_shape(reference_shape, diagonal)
         scales = checks.check_scales(scales)
         n_scales = len(scales)
         holistic_features = checks.check_callable(holistic_features, n_scales)
diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 3803986..592b34c 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -28,6 +28,7 @@ from menpofit.builder import (
     extract_patches,
     MenpoFitBuilderWarning,
     compute_reference_shape,
+    rescale_reference_shape,
 )
 
 from .algorithm import (
@@ -119,6 +120,8 @@ class ATM(object):
     ):
         # Check arguments
         checks.check_diagonal(diagonal)
+        if reference_shape is not None:
+            reference_shape = rescale_reference_shape(reference_shape, diagonal)
         scales = checks.check_scales(scales)
         n_scales = len(scales)
         holistic_features = checks.check_callable(holistic_features, n_scales)
diff --git a/menpofit/builder.py b/menpofit/builder.py
index 8d09d52..ebbe0a5 100644
--- a/menpofit/builder.py
+++ b/menpofit/builder.py
@@ -47,6 +47,26 @@ def compute_reference_shape(shapes, diagonal, verbose=False):
         print_dynamic('- Computing reference shape')
     reference_shape = mean_pointcloud(shapes)
 
+    return rescale_reference_shape(reference_shape, diagonal)
+
+
+def rescale_reference_shape(reference_shape, diagonal):
+    r"""
+    Function that rescales a reference shape so that the diagonal of its
+    bounding box has the requested length.
+
+    Parameters
+    ----------
+    reference_shape : `menpo.shape.PointCloud`
+        The reference shape.
+    diagonal : `int` or ``None``
+        The requested length. If ``None``, then the shape is not rescaled.
+
+    Returns
+    -------
+    reference_shape : `menpo.shape.PointCloud`
+        The rescaled reference shape.
+    """
     # fix the reference_shape's diagonal length if asked
     if diagonal:
         x, y = reference_shape.range()
diff --git a/menpofit/clm/base.py b/menpofit/clm/base.py
index b7bf887..63f5ccc 100644
--- a/menpofit/clm/base.py
+++ b/menpofit/clm/base.py
@@ -13,6 +13,7 @@ from menpofit.builder import (
     scale_images,
     MenpoFitBuilderWarning,
     compute_reference_shape,
+    rescale_reference_shape,
     rescale_images_to_reference_shape,
 )
 from menpofit.modelinstance import OrthoPDM
@@ -128,6 +129,8 @@ class CLM(object):
         self.scales = checks.check_scales(scales)
         n_scales = len(self.scales)
         self.diagonal = checks.check_diagonal(diagonal)
+        if reference_shape is not None:
+            reference_shape = rescale_reference_shape(reference_shape, diagonal)
         self.holistic_features = checks.check_callable(holistic_features, n_scales)
         self.expert_ensemble_cls = checks.check_callable(expert_ensemble_cls, n_scales)
         self._shape_model_cls = checks.check_callable(shape_model_cls, n_scales)
diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 4c66188..ce94b77 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -19,6 +19,7 @@ from menpofit.builder import (
     scale_images,
     rescale_images_to_reference_shape,
     compute_reference_shape,
+    rescale_reference_shape,
 )
 from menpofit.result import Result
 
@@ -155,6 +156,8 @@ class DlibERT(MultiScaleNonParametricFitter):
         verbose=False,
     ):
         checks.check_diagonal(diagonal)
+        if reference_shape is not None:
+            reference_shape = rescale_reference_shape(reference_shape, diagonal)
         scales = checks.check_scales(scales)
         n_scales = len(scales)
         # Dummy option that is required by _prepare_image of MultiFitter.
diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index 6fdf2ba..ee4c262 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -11,7 +11,7 @@ from menpofit.visualize import print_progress
 from menpofit.base import batch
 from menpofit.builder import (scale_images, rescale_images_to_reference_shape,
                               compute_reference_shape, MenpoFitBuilderWarning,
-                              compute_features)
+                              compute_features, rescale_reference_shape)
 from menpofit.fitter import (MultiScaleNonParametricFitter,
                              noisy_shape_from_bounding_box,
                              align_shape_with_bounding_box,
@@ -162,6 +162,8 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
             sd_algorithm_cls = NonParametricNewton
 
         checks.check_diagonal(diagonal)
+        if reference_shape is not None:
+            reference_shape = rescale_reference_shape(reference_shape, diagonal)
         scales = checks.check_scales(scales)
         n_scales = len(scales)
         patch_features = checks.check_callable(patch_features, n_scales)
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index ac56a16..fc4f3e7 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -11,6 +11,7 @@ from menpofit import checks
 from menpofit.builder import (
     build_reference_frame,
     compute_reference_shape,
+    rescale_reference_shape,
     rescale_images_to_reference_shape,
     compute_features,
     scale_images,
@@ -150,6 +151,8 @@ class UnifiedAAMCLM(object):
     ):
         # Check parameters
         checks.check_diagonal(diagonal)
+        if reference_shape is not None:
+            reference_shape = rescale_reference_shape(reference_shape, diagonal)
         scales = checks.check_scales(scales)
         n_scales = len(scales)
         holistic_features = checks.check_callable(holistic_features, n_scales)
-- 
2.43.0


From 3766bba94936a15058f74f6ce55ba35cb4d69d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 87/93] fix: viewing options given as one-element lists are not
 extended in place

---
 menpofit/visualize/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index 9686a63..985ef0c 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -16,7 +16,7 @@ def _check_multi_argument(arg, n_objects, dtypes, error_str):
         arg = [arg] * n_objects
     elif isinstance(arg, list):
         if len(arg) == 1:
-            arg *= n_objects
+            arg = arg * n_objects
         elif len(arg) != n_objects:
             raise ValueError(error_str)
     else:
-- 
2.43.0


From 7bad7af58d698a8a34534bee849c9387911cabda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 88/93] fix: labels and numbering of landmarks that are viewed
 without the image

---
 menpofit/visualize/base.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index 985ef0c..6740c5a 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -357,9 +357,10 @@ def view_image_multiple_landmarks(
             'marker_face_colour must be a colour value or a list of colours '
             'with length equal to the number of landmark groups')
     if (with_labels is None or (isinstance(with_labels, list) and
-                                isinstance(with_labels[0], str))):
+                                all(isinstance(l, str) for l in with_labels))):
         with_labels = [with_labels] * len(groups)
-    elif isinstance(with_labels, list) and isinstance(with_labels[0], list):
+    elif (isinstance(with_labels, list) and
+          all(l is None or isinstance(l, list) for l in with_labels)):
         if len(with_labels) != len(groups):
             raise ValueError('with_labels must be a list of length equal to '
                              'the number of landmark groups')
@@ -496,7 +497,9 @@ def view_image_multiple_landmarks(
                                   fontweight=legend_font_weight,
                                   fontsize=legend_font_size)
                 image.landmarks[group].view(
-                        image_view=image_view, render_lines=render_lines[k],
+                        with_labels=with_labels[k], without_labels=None,
+                        group=group, image_view=image_view,
+                        render_lines=render_lines[k],
                         line_style=line_style[k], line_width=line_width[k],
                         line_colour=line_colour[k],
                         render_markers=render_markers[k],
@@ -505,6 +508,15 @@ def view_image_multiple_landmarks(
                         marker_edge_width=marker_edge_width[k],
                         marker_edge_colour=marker_edge_colour[k],
                         marker_face_colour=marker_face_colour[k],
+                        render_numbering=render_numbering,
+                        numbers_horizontal_align=numbers_horizontal_align,
+                        numbers_vertical_align=numbers_vertical_align,
+                        numbers_font_name=numbers_font_name,
+                        numbers_font_size=numbers_font_size,
+                        numbers_font_style=numbers_font_style,
+                        numbers_font_weight=numbers_font_weight,
+                        numbers_font_colour=numbers_font_colour,
+                        render_legend=False,
                         render_axes=render_axes, axes_font_name=axes_font_name,
                         axes_font_size=axes_font_size,
                         axes_font_style=axes_font_style,
-- 
2.43.0


From 1db926178dcadb352152a89760f46e297450504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 89/93] fix: legend entries of landmark groups name the right
 artists

---
 menpofit/visualize/base.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index 6740c5a..205dd5f 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -24,6 +24,14 @@ def _check_multi_argument(arg, n_objects, dtypes, error_str):
     return arg
 
 
+def _new_legend_handle(axes, seen):
+    # the first artist that was drawn on the axes since the last call
+    new = [a for a in list(axes.lines) + list(axes.collections)
+           if a not in seen]
+    seen.extend(new)
+    return new[0] if len(new) > 0 else None
+
+
 def view_image_multiple_landmarks(
         image, groups, with_labels=None, figure_id=None, new_figure=False,
         subplots_enabled=True, subplots_titles=None, render_image=True,
@@ -375,6 +383,11 @@ def view_image_multiple_landmarks(
     # Initialize renderer
     renderer = MatplotlibRenderer(figure_id=figure_id, new_figure=new_figure)
 
+    # Legend entries and the artists that have already been drawn
+    handles, names = [], []
+    seen = [a for ax in plt.gcf().axes
+            for a in list(ax.lines) + list(ax.collections)]
+
     # Render
     if render_image:
         # image will be displayed
@@ -442,6 +455,10 @@ def view_image_multiple_landmarks(
                         interpolation=interpolation, alpha=alpha,
                         cmap_name=cmap_name, figure_size=figure_size,
                         **mask_arguments)
+                handle = _new_legend_handle(plt.gca(), seen)
+                if handle is not None:
+                    handles.append(handle)
+                    names.append(subplots_titles[group])
             if not subplots_enabled:
                 if render_legend:
                     # Options related to legend's font
@@ -451,7 +468,7 @@ def view_image_multiple_landmarks(
                             'weight': legend_font_weight}
 
                     # display legend on side
-                    plt.gca().legend([subplots_titles[g] for g in groups],
+                    plt.gca().legend(handles, names,
                                      title=legend_title, prop=prop,
                                      loc=legend_location,
                                      bbox_to_anchor=legend_bbox_to_anchor,
@@ -525,6 +542,10 @@ def view_image_multiple_landmarks(
                         axes_y_limits=axes_y_limits,
                         axes_x_ticks=axes_x_ticks, axes_y_ticks=axes_y_ticks,
                         figure_size=figure_size)
+                handle = _new_legend_handle(plt.gca(), seen)
+                if handle is not None:
+                    handles.append(handle)
+                    names.append(subplots_titles[group])
             if not subplots_enabled:
                 if render_legend:
                     # Options related to legend's font
@@ -534,7 +555,7 @@ def view_image_multiple_landmarks(
                             'weight': legend_font_weight}
 
                     # display legend on side
-                    plt.gca().legend([subplots_titles[g] for g in groups],
+                    plt.gca().legend(handles, names,
                                      title=legend_title, prop=prop,
                                      loc=legend_location,
                                      bbox_to_anchor=legend_bbox_to_anchor,
-- 
2.43.0


From d7ed73f618d0ae68de709afc79ffd3a64db4b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 90/93] fix: frequency filter images keep the order of the
 channels

---
 menpofit/clm/expert/ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index b6d7704..97980b4 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -178,7 +178,8 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
         for fft_padded_filter in self.fft_padded_filters:
             spatial_filter = np.real(ifft2(fft_padded_filter))
             spatial_filter = crop(spatial_filter, self.patch_shape)[:, ::-1, ::-1]
-            frequency_filter = np.abs(fftshift(fft2(spatial_filter)))
+            frequency_filter = np.abs(fftshift(fft2(spatial_filter),
+                                               axes=(-2, -1)))
             filter_images.append(Image(frequency_filter))
         return filter_images
 
-- 
2.43.0


From f2e29a63afb09211ea6e804d9dcb6f1e67e60370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 91/93] fix: holistic sampling from scale returns the
 documented positions

---
 menpofit/aam/fitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/fitter.py b/menpofit/aam/fitter.py
index 13e636a..273d05b 100644
--- a/menpofit/aam/fitter.py
+++ b/menpofit/aam/fitter.py
@@ -457,8 +457,9 @@ def holistic_sampling_from_scale(aam, scale=0.35):
     modified_mask[:] = False
     modified_mask[:, new_indices[:, 0], new_indices[:, 1]] = True
 
-    true_positions = np.nonzero(
-        modified_mask[:, reference.mask.mask].ravel())[0]
+    # only pixels of the reference can be sampled
+    modified_mask &= reference.mask.pixels
+    true_positions = modified_mask[:, reference.mask.mask].ravel()
 
     return true_positions, BooleanImage(modified_mask[0])
 
-- 
2.43.0


From 172607114c65584375c12601f49bc9288bae080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:28 +0000
Subject: [PATCH 92/93] fix: smooth the training images of a unified AAM-CLM
 within each channel only

---
 menpofit/unified_aam_clm/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index fc4f3e7..5a53e36 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -26,7 +26,8 @@ from menpofit.transform import DifferentiablePiecewiseAffine, OrthoMDTransform
 
 @ndfeature
 def fsmooth(pixels, sigma, mode="constant"):
-    return gaussian_filter(pixels, sigma, mode=mode)
+    # smooth within each channel, never across the channels
+    return np.stack([gaussian_filter(p, sigma, mode=mode) for p in pixels])
 
 
 class UnifiedAAMCLM(object):
-- 
2.43.0


From d7b9526e66c08af5f280f79587f39a759cd3607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:50 +0000
Subject: [PATCH 93/93] fix: bounding box measures and distance_two_indices
 accept a PointCloud as documented

---
 menpofit/error/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/menpofit/error/base.py b/menpofit/error/base.py
index acfc3b8..b8a65e7 100644
--- a/menpofit/error/base.py
+++ b/menpofit/error/base.py
@@ -19,6 +19,7 @@ def pointcloud_to_points(wrapped):
 
 
 # BOUNDING BOX NORMALISERS
+@pointcloud_to_points
 def bb_area(shape):
     r"""
     Computes the area of the bounding box of the provided shape,
@@ -44,6 +45,7 @@ def bb_area(shape):
     return height * width
 
 
+@pointcloud_to_points
 def bb_perimeter(shape):
     r"""
     Computes the perimeter of the bounding box of the provided shape, i.e.
@@ -68,6 +70,7 @@ def bb_perimeter(shape):
     return 2 * (height + width)
 
 
+@pointcloud_to_points
 def bb_avg_edge_length(shape):
     r"""
     Computes the average edge length of the bounding box of the provided shape,
@@ -93,6 +96,7 @@ def bb_avg_edge_length(shape):
     return 0.5 * (height + width)
 
 
+@pointcloud_to_points
 def bb_diagonal(shape):
     r"""
     Computes the diagonal of the bounding box of the provided shape, i.e.
@@ -182,6 +186,7 @@ def euclidean_error(shape, gt_shape):
 
 
 # DISTANCE NORMALISER
+@pointcloud_to_points
 def distance_two_indices(index1, index2, shape):
     r"""
     Computes the Euclidean distance between two points of a shape, i.e.
-- 
2.43.0

