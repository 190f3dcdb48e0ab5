From ba697bf9d33ba4048b9943f25e36ba1f87a66769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 01/25] fix: resolve a zero mean also in mean_var and
 marginals, independent of access order

---
 stheno/random.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index c6530e5..36ba737 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -174,11 +174,11 @@ class Normal(RandomVector):
     def mean_var(self):
         """tuple[column vector, matrix]: Mean and variance."""
         if self._mean is not None and self._var is not None:
-            return self._mean, self._var
+            return self.mean, self.var
         elif self._mean is not None:
-            return self._mean, self.var
+            return self.mean, self.var
         elif self._var is not None:
-            return self.mean, self._var
+            return self.mean, self.var
         else:
             if self._construct_mean_var is not None:
                 self._mean, self._var = self._construct_mean_var()
@@ -208,9 +208,9 @@ class Normal(RandomVector):
             tuple: A tuple containing the marginal means and marginal variances.
         """
         if self._mean is not None and self._var_diag is not None:
-            mean, var_diag = self._mean, self._var_diag
+            mean, var_diag = self.mean, self._var_diag
         elif self._mean is not None:
-            mean, var_diag = self._mean, self.var_diag
+            mean, var_diag = self.mean, self.var_diag
         elif self._var_diag is not None:
             mean, var_diag = self.mean, self._var_diag
         else:
-- 
2.43.0


From 2917873f6d58aef2705991e22428e892c7803ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 02/25] fix: compute the second moment of batched and
 one-dimensional normals correctly

---
 stheno/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stheno/random.py b/stheno/random.py
index 36ba737..c94e548 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -199,7 +199,7 @@ class Normal(RandomVector):
     @property
     def m2(self):
         """matrix: Second moment."""
-        return self.var + B.outer(B.squeeze(self.mean))
+        return B.add(self.var, B.matmul(self.mean, self.mean, tr_b=True))
 
     def marginals(self):
         """Get the marginals.
-- 
2.43.0


From 044293793101bb856a3dc18a32721aced1741fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 03/25] fix: let divergences deal with a structured mean next
 to a plain one

---
 stheno/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index c94e548..97762d4 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -302,7 +302,7 @@ class Normal(RandomVector):
             scalar: KL divergence.
         """
         return (
-            B.iqf_diag(other.var, other.mean - self.mean)[..., 0]
+            B.iqf_diag(other.var, B.subtract(other.mean, self.mean))[..., 0]
             + B.ratio(self.var, other.var)
             + B.logdet(other.var)
             - B.logdet(self.var)
@@ -323,7 +323,7 @@ class Normal(RandomVector):
         var_root = B.root(self.var)
         root = B.root(B.matmul(var_root, other.var, var_root))
         var_part = B.trace(self.var) + B.trace(other.var) - 2 * B.trace(root)
-        mean_part = B.sum((self.mean - other.mean) ** 2)
+        mean_part = B.sum(B.dense(B.subtract(self.mean, other.mean)) ** 2)
         # The sum of `mean_part` and `var_par` should be positive, but this
         # may not be the case due to numerical errors.
         return B.sqrt(B.maximum(mean_part + var_part, B.cast(self.dtype, 0)))
-- 
2.43.0


From c6e320f46fcdcbe6e20d84f81fcd6c3207fb4e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 04/25] fix: keep the name of a GP if renaming it fails

---
 stheno/model/measure.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index c0bf995..a6ade9f 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -75,17 +75,17 @@ class Measure:
             p (:class:`.gp.GP`): GP to name.
             name (str): Name. Must be unique.
         """
+        # Check that name is not in use by another GP.
+        if name in self._gps_by_name and self._gps_by_name[name] is not p:
+            raise RuntimeError(
+                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
+            )
+
         # Delete any existing names and back-references for the GP.
         if id(p) in self._names_by_gp:
             del self._gps_by_name[self._names_by_gp[id(p)]]
             del self._names_by_gp[id(p)]
 
-        # Check that name is not in use.
-        if name in self._gps_by_name:
-            raise RuntimeError(
-                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
-            )
-
         # Set the name and the back-reference.
         self._gps_by_name[name] = p
         self._names_by_gp[id(p)] = name
-- 
2.43.0


From 1504bff30a1b4a9396c2e94747fdfe84033797c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 05/25] fix: restore the default measure if a measure is
 entered more than once

---
 stheno/model/measure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index a6ade9f..eceb46c 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -44,15 +44,15 @@ class Measure:
         self._gps_by_name = {}
         self._names_by_gp = {}
 
-        self._prev_default = None
+        self._prev_defaults = []
 
     def __enter__(self):
-        self._prev_default = self.default
+        self._prev_defaults.append(Measure.default)
         Measure.default = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        Measure.default = self._prev_default
+        Measure.default = self._prev_defaults.pop()
 
     def __hash__(self):
         # This is needed for :func:`.gp.intersection_measure_group`, which puts
-- 
2.43.0


From 127ea425eb5f27af2c9eb3b4f54150128f474658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 06/25] fix: let Measure.add_gp use the given right rule

---
 stheno/model/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index eceb46c..e8099cb 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -133,7 +133,7 @@ class Measure:
             :class:`.gp.GP`: New GP.
         """
         p = GP()
-        self._update(p, mean, kernel, left_rule, right_rule=None)
+        self._update(p, mean, kernel, left_rule, right_rule)
         return p
 
     @_dispatch
-- 
2.43.0


From d3467a559bc706deae016b21c038a8717678eff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 07/25] fix: keep the order of measures when combining
 processes

---
 stheno/model/gp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index a7490a6..8ef9b16 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -34,9 +34,12 @@ def intersection_measure_group(*ps):
         *ps (:class:`.gp.GP`): Processes.
     """
     assert_same_measure(*ps)
-    intersection = set(ps[0]._measures)
+    # Preserve the order: the first measure is the measure the processes were
+    # constructed with.
+    intersection = list(ps[0]._measures)
     for p in ps[1:]:
-        intersection &= set(p._measures)
+        others = set(p._measures)
+        intersection = [measure for measure in intersection if measure in others]
     return intersection
 
 
-- 
2.43.0


From be7a9f35a1063d94830f02adf93d3a94eecc61fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 08/25] fix: count the outputs of multi-output components of a
 Cartesian product

---
 stheno/mo/infer.py  | 5 ++++-
 stheno/mo/kernel.py | 2 +-
 stheno/mo/mean.py   | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/stheno/mo/infer.py b/stheno/mo/infer.py
index 9eb9859..cc3fd3f 100644
--- a/stheno/mo/infer.py
+++ b/stheno/mo/infer.py
@@ -42,7 +42,10 @@ def infer_size(k: Kernel, x: B.Numeric):
 
 @_dispatch
 def infer_size(k: Kernel, x: FDD):
-    return Dimension(num_elements(x))
+    if isinstance(x.p, int):
+        # Only the `id` of the process is known.
+        return Dimension(num_elements(x))
+    return infer_size(x.p.kernel, x.x)
 
 
 def _check_and_merge(k, *ds):
diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index 50ff49c..1f0ce0e 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -78,7 +78,7 @@ def elwise(k: MultiOutputKernel, x: FDD, y: FDD):
 
 @_dispatch
 def dimensionality(k: MultiOutputKernel):
-    return len(k.ps)
+    return sum(dimensionality(k.measure.kernels[p]) for p in k.ps)
 
 
 @_dispatch
diff --git a/stheno/mo/mean.py b/stheno/mo/mean.py
index 6e9b6e4..52e0ec3 100644
--- a/stheno/mo/mean.py
+++ b/stheno/mo/mean.py
@@ -43,4 +43,4 @@ class MultiOutputMean(Mean):
 
 @_dispatch
 def dimensionality(m: MultiOutputMean):
-    return len(m.ps)
+    return sum(dimensionality(m.measure.kernels[p]) for p in m.ps)
-- 
2.43.0


From 8b023f56725fcb875a43fb05f3aa31b088707273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 09/25] fix: split joint samples of multi-output processes
 correctly

---
 stheno/model/measure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index e8099cb..3a90a9f 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -10,6 +10,7 @@ from ..lazy import LazyMatrix, LazyVector
 from ..mo import AmbiguousDimensionalityKernel as ADK
 from ..mo import MultiOutputKernel as MOK
 from ..mo import MultiOutputMean as MOM
+from ..mo import infer_size
 from .fdd import FDD
 from .gp import GP, assert_same_measure
 from .observations import (
@@ -438,7 +439,7 @@ class Measure:
         state, sample = self(combine(*fdds)).sample(state, n)
 
         # Unpack sample.
-        lengths = [num_elements(fdd) for fdd in fdds]
+        lengths = [infer_size(fdd.p.kernel, fdd.x) for fdd in fdds]
         i, samples = 0, []
         for length in lengths:
             samples.append(sample[..., i : i + length, :])
-- 
2.43.0


From 558974c4b6af295988fc24e48a296061ac96eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 10/25] fix: let shifted, stretched, and selected processes be
 conditioned on earlier multi-output observations

---
 stheno/model/measure.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 3a90a9f..7dc0f8e 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -284,7 +284,10 @@ class Measure:
             p_shifted,
             self.means[p].shift(shift),
             self.kernels[p].shift(shift),
-            lambda j: self.kernels[p, j].shift(shift, 0),
+            # `j` may be a multi-output process, whose inputs cannot be shifted by zero.
+            lambda j: self.kernels[p, j].transform(
+                lambda x: B.subtract(x, shift), None
+            ),
         )
 
     def stretch(self, p_stretched, p, stretch):
@@ -302,7 +305,10 @@ class Measure:
             p_stretched,
             self.means[p].stretch(stretch),
             self.kernels[p].stretch(stretch),
-            lambda j: self.kernels[p, j].stretch(stretch, 1),
+            # `j` may be a multi-output process, whose inputs cannot be stretched by one.
+            lambda j: self.kernels[p, j].transform(
+                lambda x: B.divide(x, stretch), None
+            ),
         )
 
     def select(self, p_selected, p, *dims):
@@ -320,7 +326,10 @@ class Measure:
             p_selected,
             self.means[p].select(dims),
             self.kernels[p].select(dims),
-            lambda j: self.kernels[p, j].select(dims, None),
+            # `j` may be a multi-output process, whose inputs are not numeric.
+            lambda j: self.kernels[p, j].transform(
+                lambda x: B.take(x, dims, axis=-1), None
+            ),
         )
 
     def transform(self, p_transformed, p, f):
-- 
2.43.0


From 2f05a7d5855387d2d240fa7dcf020dd8bc2923fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 11/25] fix: include the covariance between the factors in the
 mean of a product of GPs

---
 stheno/model/measure.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 7dc0f8e..db7285c 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -3,7 +3,12 @@ from typing import Union
 
 from lab import B
 from matrix import Constant
-from mlkernels import TensorProductKernel, ZeroKernel, num_elements
+from mlkernels import (
+    TensorProductKernel,
+    TensorProductMean,
+    ZeroKernel,
+    num_elements,
+)
 
 from .. import PromisedMeasure, _dispatch
 from ..lazy import LazyMatrix, LazyVector
@@ -259,9 +264,14 @@ class Measure:
             self.mul(GP(), lambda x: self.means[p1](x), p2),
             self.mul(GP(), p1, lambda x: self.means[p2](x)),
         )
+        mean = -self.means[p1] * self.means[p2]
+        # The mean of a product includes the covariance between the factors.
+        k12 = self.kernels[p1, p2]
+        if k12 != ZeroKernel():
+            mean = mean + TensorProductMean(lambda x: k12.elwise(x, x))
         term2 = self.add_independent_gp(
             GP(),
-            -self.means[p1] * self.means[p2],
+            mean,
             (
                 self.kernels[p1] * self.kernels[p2]
                 + self.kernels[p1, p2] * self.kernels[p2, p1]
-- 
2.43.0


From eaa02eec9db6525e93394831c858664ae615b208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 12/25] fix: let NumPy arrays on the left-hand side defer to
 random objects

---
 stheno/random.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stheno/random.py b/stheno/random.py
index 97762d4..c8d14bf 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -15,6 +15,10 @@ __all__ = ["Random", "RandomProcess", "RandomVector", "Normal"]
 class Random:
     """A random object."""
 
+    # Let `__radd__` and friends handle NumPy arrays, instead of letting NumPy perform
+    # the operation for every element of the array.
+    __array_ufunc__ = None
+
     def __radd__(self, other):
         return self + other
 
-- 
2.43.0


From ad72353f0c32fead007a8316ecb83200a62808b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 13/25] fix: allow a missing value at a scalar input

---
 stheno/model/fdd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 4908ea2..9cc7aad 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -134,7 +134,7 @@ def take(fdd: FDD, indices_or_mask: B.Numeric):
 
 @_dispatch
 def _take_x(k: Kernel, x: B.Numeric, mask: B.Numeric):
-    return B.take(x, mask)
+    return B.take(B.uprank(x), mask)
 
 
 @_dispatch
-- 
2.43.0


From 7f88365785eb4502fe53bf392a41a6059f97e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:27 +0000
Subject: [PATCH 14/25] fix: give plain marginal variances for a GP plus a
 function times that GP

---
 stheno/model/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index db7285c..4b65db3 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -247,7 +247,7 @@ class Measure:
     @_dispatch
     def mul(self, p_mul: GP, p: GP, f: FunctionType):
         def ones(x):
-            return Constant(B.one(x), num_elements(x), 1)
+            return B.dense(Constant(B.one(x), num_elements(x), 1))
 
         return self._update(
             p_mul,
-- 
2.43.0


From 392a13dc17e84486e5b14c1c16a2cdc17a7ba2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:29 +0000
Subject: [PATCH 15/25] fix: let multi-output data not determine the
 dimensionality of posterior processes

---
 stheno/model/observations.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/stheno/model/observations.py b/stheno/model/observations.py
index ebd9656..963f139 100644
--- a/stheno/model/observations.py
+++ b/stheno/model/observations.py
@@ -7,6 +7,7 @@ from mlkernels import PosteriorKernel, PosteriorMean, SubspaceKernel, num_elemen
 from .. import _dispatch
 from .fdd import FDD
 from .gp import cross
+from ..mo import AmbiguousDimensionalityKernel as ADK
 
 __all__ = [
     "combine",
@@ -25,6 +26,12 @@ __all__ = [
 ]
 
 
+def _kernel_data(measure, p_z, p):
+    # The observed process `p_z` may be a multi-output process. Therefore, this kernel says
+    # nothing about the dimensionality of `p`.
+    return ADK(measure.kernels[p_z, p])
+
+
 @_dispatch
 def combine(*fdds: FDD):
     """Combine multiple FDDs or tuples of observations into one.
@@ -147,8 +154,8 @@ class Observations(AbstractObservations):
 
         return PosteriorKernel(
             measure.kernels[p_i, p_j],
-            measure.kernels[self.fdd.p, p_i],
-            measure.kernels[self.fdd.p, p_j],
+            _kernel_data(measure, self.fdd.p, p_i),
+            _kernel_data(measure, self.fdd.p, p_j),
             self.fdd.x,
             self.K_x(measure),
         )
@@ -161,7 +168,7 @@ class Observations(AbstractObservations):
         return PosteriorMean(
             measure.means[p],
             measure.means[self.fdd.p],
-            measure.kernels[self.fdd.p, p],
+            _kernel_data(measure, self.fdd.p, p),
             self.fdd.x,
             self.K_x(measure),
             self.y,
@@ -255,13 +262,13 @@ class AbstractPseudoObservations(AbstractObservations):
     def posterior_kernel(self, measure, p_i, p_j):
         return PosteriorKernel(
             measure.kernels[p_i, p_j],
-            measure.kernels[self.u.p, p_i],
-            measure.kernels[self.u.p, p_j],
+            _kernel_data(measure, self.u.p, p_i),
+            _kernel_data(measure, self.u.p, p_j),
             self.u.x,
             self.K_z(measure),
         ) + SubspaceKernel(
-            measure.kernels[self.u.p, p_i],
-            measure.kernels[self.u.p, p_j],
+            _kernel_data(measure, self.u.p, p_i),
+            _kernel_data(measure, self.u.p, p_j),
             self.u.x,
             self.A(measure),
         )
@@ -270,7 +277,7 @@ class AbstractPseudoObservations(AbstractObservations):
         return PosteriorMean(
             measure.means[p],
             measure.means[self.u.p],
-            measure.kernels[self.u.p, p],
+            _kernel_data(measure, self.u.p, p),
             self.u.x,
             self.K_z(measure),
             self.mu(measure),
-- 
2.43.0


From e0db27e841377989c258fd1b01bae0c584f61061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:33 +0000
Subject: [PATCH 16/25] fix: let cross-kernels of multi-output processes that
 vanish or multiply accept FDDs

---
 stheno/model/fdd.py     | 49 +++++++++++++++++++++++++++++++++++++++--
 stheno/model/measure.py |  5 +++--
 2 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 9cc7aad..6be1549 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -1,7 +1,17 @@
+from typing import Union
+
 import mlkernels
 from lab import B
-from matrix import AbstractMatrix, Dense, Zero, Diagonal
-from mlkernels import Kernel, num_elements
+from matrix import AbstractMatrix, Dense, LowRank, Zero, Diagonal
+from mlkernels import (
+    Kernel,
+    TensorProductKernel,
+    ZeroKernel,
+    elwise,
+    num_elements,
+    pairwise,
+)
+from mlkernels.util import expand, uprank
 from wbml.util import indented_kv
 
 from .. import PromisedFDD, PromisedGP, _dispatch
@@ -146,3 +156,38 @@ def _take_x(k: Kernel, xs: tuple, mask: B.Numeric):
         xs_taken += (_take_x(k, x, mask[i : i + n]),)
         i += n
     return xs_taken
+
+
+# The inputs of a multi-output process are FDDs, so the cross-kernels between a
+# multi-output process and another process must accept FDDs. Most kernels just pass their
+# inputs on, but the following kernels need to deal with FDDs themselves.
+
+_Input = Union[B.Numeric, FDD]
+
+
+def _evaluate_factors(k, x, y):
+    # The factors decide themselves what to do with an FDD.
+    xs = [z if isinstance(z, FDD) else uprank(z) for z in (x, y)]
+    return [uprank(f(z)) for f, z in zip(expand(k.fs), xs)]
+
+
+@pairwise.dispatch
+def pairwise(k: ZeroKernel, x: _Input, y: _Input):
+    return Zero(B.dtype(x, y), infer_size(k, x), infer_size(k, y))
+
+
+@elwise.dispatch
+def elwise(k: ZeroKernel, x: _Input, y: _Input):
+    return B.zeros(B.dtype(x, y), infer_size(k, x), 1)
+
+
+@pairwise.dispatch
+def pairwise(k: TensorProductKernel, x: _Input, y: _Input):
+    left, right = _evaluate_factors(k, x, y)
+    return LowRank(left=left, right=right)
+
+
+@elwise.dispatch
+def elwise(k: TensorProductKernel, x: _Input, y: _Input):
+    left, right = _evaluate_factors(k, x, y)
+    return B.multiply(left, right)
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 4b65db3..ceca9de 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -7,7 +7,6 @@ from mlkernels import (
     TensorProductKernel,
     TensorProductMean,
     ZeroKernel,
-    num_elements,
 )
 
 from .. import PromisedMeasure, _dispatch
@@ -247,7 +246,9 @@ class Measure:
     @_dispatch
     def mul(self, p_mul: GP, p: GP, f: FunctionType):
         def ones(x):
-            return B.dense(Constant(B.one(x), num_elements(x), 1))
+            # Also `x` might be an FDD.
+            n = infer_size(ZeroKernel(), x)
+            return B.dense(Constant(B.one(B.dtype(x)), n, 1))
 
         return self._update(
             p_mul,
-- 
2.43.0


From 730b81742e624ab98117c278c72447ee45b5d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:34 +0000
Subject: [PATCH 17/25] fix: allow missing values for processes derived from
 multi-output processes

---
 stheno/model/fdd.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 6be1549..08df56a 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -1,10 +1,12 @@
 from typing import Union
 
 import mlkernels
+from algebra import Join, Wrapped
 from lab import B
 from matrix import AbstractMatrix, Dense, LowRank, Zero, Diagonal
 from mlkernels import (
     Kernel,
+    PosteriorKernel,
     TensorProductKernel,
     ZeroKernel,
     elwise,
@@ -15,7 +17,7 @@ from mlkernels.util import expand, uprank
 from wbml.util import indented_kv
 
 from .. import PromisedFDD, PromisedGP, _dispatch
-from ..mo import infer_size
+from ..mo import MultiOutputKernel, infer_size
 from ..random import Normal
 
 __all__ = ["FDD"]
@@ -142,11 +144,35 @@ def take(fdd: FDD, indices_or_mask: B.Numeric):
     return FDD(fdd.p, _take_x(fdd.p.kernel, fdd.x, mask), B.submatrix(fdd.noise, mask))
 
 
+def _find_multi_output(k):
+    # Find the multi-output kernel from which `k` is derived, if there is one.
+    if isinstance(k, MultiOutputKernel):
+        return k
+    elif isinstance(k, PosteriorKernel):
+        return _find_multi_output(k.k_ij)
+    elif isinstance(k, (Wrapped, Join)):
+        found = map(_find_multi_output, (k[0], k[1]) if isinstance(k, Join) else (k[0],))
+        return next((k for k in found if k is not None), None)
+    else:
+        return None
+
+
 @_dispatch
 def _take_x(k: Kernel, x: B.Numeric, mask: B.Numeric):
+    k_mo = _find_multi_output(k)
+    if k_mo is not None:
+        return _take_x(k_mo, x, mask)
     return B.take(B.uprank(x), mask)
 
 
+@_dispatch
+def _take_x(k: Kernel, x: FDD, mask: B.Numeric):
+    k_mo = _find_multi_output(k)
+    if k_mo is None:
+        raise ValueError(f"Kernel {k} cannot take an FDD as an input.")
+    return _take_x(k_mo, x, mask)
+
+
 @_dispatch
 def _take_x(k: Kernel, xs: tuple, mask: B.Numeric):
     i = 0
-- 
2.43.0


From b8ca56d38ca6b13971923680680e29646ec36d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:37 +0000
Subject: [PATCH 18/25] fix: let processes made after a multi-output process be
 used together with it

---
 stheno/model/measure.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index ceca9de..8724802 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -15,7 +15,7 @@ from ..mo import AmbiguousDimensionalityKernel as ADK
 from ..mo import MultiOutputKernel as MOK
 from ..mo import MultiOutputMean as MOM
 from ..mo import infer_size
-from .fdd import FDD
+from .fdd import FDD, _find_multi_output
 from .gp import GP, assert_same_measure
 from .observations import (
     AbstractObservations,
@@ -102,13 +102,31 @@ class Measure:
         # Add measure to list of measures of process.
         p._measures.append(self)
 
+    def _expand_inputs(self, kernel, j):
+        # If `j` is a multi-output process, let the right inputs of `kernel` be the inputs
+        # of the individual outputs of `j`. Then `kernel` need not know how many there are.
+        k_mo = _find_multi_output(self.kernels[j])
+        if k_mo is None:
+            return kernel
+
+        def expand(y):
+            return y if isinstance(y, (FDD, tuple)) else tuple(p(y) for p in k_mo.ps)
+
+        # Wrap `kernel` to prevent it from being simplified.
+        return ADK(kernel).transform(None, expand)
+
     def _update(self, p, mean, kernel, left_rule, right_rule=None):
         # Update means.
         self.means[p] = mean
 
         # Update kernels.
         self.kernels[p] = kernel
-        self.kernels.add_left_rule(id(p), self._pids, left_rule)
+        if right_rule is None and _find_multi_output(kernel) is None:
+            self.kernels.add_left_rule(
+                id(p), self._pids, lambda j: self._expand_inputs(left_rule(j), j)
+            )
+        else:
+            self.kernels.add_left_rule(id(p), self._pids, left_rule)
         if right_rule:
             self.kernels.add_right_rule(id(p), self._pids, right_rule)
         else:
@@ -174,8 +192,12 @@ class Measure:
 
         # Update kernels.
         self.kernels[p] = kernel
-        self.kernels.add_left_rule(id(p), self._pids, lambda j: ZeroKernel())
-        self.kernels.add_right_rule(id(p), self._pids, lambda i: ZeroKernel())
+        self.kernels.add_left_rule(
+            id(p), self._pids, lambda j: self._expand_inputs(ZeroKernel(), j)
+        )
+        self.kernels.add_right_rule(
+            id(p), self._pids, lambda i: reversed(self.kernels[p, i])
+        )
 
         # Only now add `p`: `self.pids` above needs to not include `id(p)`.
         self._add_p(p)
-- 
2.43.0


From 76030c9f3a71d4cc0eeb495a4be9ba510f9cf287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 19/25] fix: let AutoGrad's arrays on the left-hand side defer
 to random objects

---
 stheno/autograd.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/stheno/autograd.py b/stheno/autograd.py
index 338cd70..b1a9980 100644
--- a/stheno/autograd.py
+++ b/stheno/autograd.py
@@ -1,5 +1,26 @@
 # noinspection PyUnresolvedReferences
 import mlkernels.autograd
+from autograd.numpy.numpy_boxes import ArrayBox
 
 # noinspection PyUnresolvedReferences
 from . import *
+from .random import Random
+
+
+def _defer(name, name_reflected):
+    # Let `__radd__` and friends of random objects handle traced arrays, instead of letting
+    # AutoGrad perform the operation.
+    method = getattr(ArrayBox, name)
+
+    def method_deferring(self, other):
+        if isinstance(other, Random):
+            return getattr(other, name_reflected)(self)
+        else:
+            return method(self, other)
+
+    setattr(ArrayBox, name, method_deferring)
+
+
+_defer("__add__", "__radd__")
+_defer("__sub__", "__rsub__")
+_defer("__mul__", "__rmul__")
-- 
2.43.0


From 4870de52533e2fcb8c9e927d5d4ee89f4ce0e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 20/25] fix: do not sum over the batch in Normal.w2

---
 stheno/random.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stheno/random.py b/stheno/random.py
index c8d14bf..fd24057 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -327,7 +327,9 @@ class Normal(RandomVector):
         var_root = B.root(self.var)
         root = B.root(B.matmul(var_root, other.var, var_root))
         var_part = B.trace(self.var) + B.trace(other.var) - 2 * B.trace(root)
-        mean_part = B.sum(B.dense(B.subtract(self.mean, other.mean)) ** 2)
+        diff = B.dense(B.subtract(self.mean, other.mean))
+        # Do not sum over batch dimensions.
+        mean_part = B.sum(B.sum(diff**2, axis=-1), axis=-1)
         # The sum of `mean_part` and `var_par` should be positive, but this
         # may not be the case due to numerical errors.
         return B.sqrt(B.maximum(mean_part + var_part, B.cast(self.dtype, 0)))
-- 
2.43.0


From 766da1b625031607acac6022185523e3c8e69c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:54 +0000
Subject: [PATCH 21/25] fix: products of processes under a posterior have no
 marginals

---
 stheno/model/measure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 8724802..c9b1263 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -282,16 +282,17 @@ class Measure:
     @_dispatch
     def mul(self, p_mul: GP, p1: GP, p2: GP):
         assert_same_measure(p1, p2)
+        # Means can give structured matrices, e.g. under a posterior.
         term1 = self.sum(
             GP(),
-            self.mul(GP(), lambda x: self.means[p1](x), p2),
-            self.mul(GP(), p1, lambda x: self.means[p2](x)),
+            self.mul(GP(), lambda x: B.dense(self.means[p1](x)), p2),
+            self.mul(GP(), p1, lambda x: B.dense(self.means[p2](x))),
         )
         mean = -self.means[p1] * self.means[p2]
         # The mean of a product includes the covariance between the factors.
         k12 = self.kernels[p1, p2]
         if k12 != ZeroKernel():
-            mean = mean + TensorProductMean(lambda x: k12.elwise(x, x))
+            mean = mean + TensorProductMean(lambda x: B.dense(k12.elwise(x, x)))
         term2 = self.add_independent_gp(
             GP(),
             mean,
-- 
2.43.0


From d1a7aa1cf7712342ba8fe998b98718600ceccfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 22/25] fix: log-densities and entropies of distributions with
 integer variances

---
 stheno/random.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index fd24057..84c96c9 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -273,10 +273,12 @@ class Normal(RandomVector):
                 available_x = B.take(x, available)
                 return Normal(available_mean, available_var).logpdf(available_x)
 
+        # The variance may consist of integers.
+        dtype = B.dtype_float(self.dtype)
         logpdfs = (
             -(
                 B.logdet(self.var)[..., None]  # Correctly line up with `iqf_diag`.
-                + B.cast(self.dtype, self.dim) * B.cast(self.dtype, B.log_2_pi)
+                + B.cast(dtype, self.dim) * B.cast(dtype, B.log_2_pi)
                 + B.iqf_diag(self.var, B.subtract(x, self.mean))
             )
             / 2
@@ -289,9 +291,11 @@ class Normal(RandomVector):
         Returns:
             scalar: The entropy.
         """
+        # The variance may consist of integers.
+        dtype = B.dtype_float(self.dtype)
         return (
             B.logdet(self.var)
-            + B.cast(self.dtype, self.dim) * B.cast(self.dtype, B.log_2_pi + 1)
+            + B.cast(dtype, self.dim) * B.cast(dtype, B.log_2_pi + 1)
         ) / 2
 
     @_dispatch
-- 
2.43.0


From c3687eb51ca807790427397686183c558bce819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 23/25] fix: keep the number of outputs of a Cartesian product
 multiplied by zero

---
 stheno/model/measure.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index c9b1263..fcaa783 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -4,6 +4,8 @@ from typing import Union
 from lab import B
 from matrix import Constant
 from mlkernels import (
+    ScaledKernel,
+    ScaledMean,
     TensorProductKernel,
     TensorProductMean,
     ZeroKernel,
@@ -258,6 +260,15 @@ class Measure:
 
     @_dispatch
     def mul(self, p_mul: GP, p: GP, other: B.Numeric):
+        if _find_multi_output(self.kernels[p]) is not None:
+            # Prevent multiplication by zero from being simplified, because that would
+            # lose the number of outputs.
+            return self._update(
+                p_mul,
+                ScaledMean(self.means[p], other),
+                ScaledKernel(self.kernels[p], other**2),
+                lambda j: ADK(ScaledKernel(self.kernels[p, j], other)),
+            )
         return self._update(
             p_mul,
             self.means[p] * other,
-- 
2.43.0


From 3b131031264c7e0a8635bf07c9ee107dab2cb303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 24/25] fix: give plain-number noise the data type of the
 inputs

---
 stheno/model/fdd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 08df56a..64b7572 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -1,6 +1,7 @@
 from typing import Union
 
 import mlkernels
+import numpy as np
 from algebra import Join, Wrapped
 from lab import B
 from matrix import AbstractMatrix, Dense, LowRank, Zero, Diagonal
@@ -41,6 +42,9 @@ def _noise_as_matrix(noise: type(None), dtype: B.DType, n: B.Int):
 @_dispatch
 def _noise_as_matrix(noise: B.Numeric, dtype: B.DType, n: B.Int):
     if B.is_scalar(noise):
+        if isinstance(noise, (int, float)) and B.issubdtype(dtype, np.floating):
+            # Plain numbers do not have a data type of their own.
+            noise = B.cast(dtype, noise)
         return B.fill_diag(noise, n)
     elif B.rank(noise) == 1:
         return Diagonal(noise)
-- 
2.43.0


From 339ba0f5dc7fd031adb044601b337d0f1c7e238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 25/25] fix: let Cartesian products display their components
 with the given formatter

---
 stheno/mo/kernel.py | 2 +-
 stheno/mo/mean.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index 1f0ce0e..21c1bb6 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -32,7 +32,7 @@ class MultiOutputKernel(Kernel):
         self.ps = ps
 
     def render(self, formatter):
-        ks = [str(self.measure.kernels[p]) for p in self.ps]
+        ks = [self.measure.kernels[p].display(formatter) for p in self.ps]
         return "MultiOutputKernel({})".format(", ".join(ks))
 
 
diff --git a/stheno/mo/mean.py b/stheno/mo/mean.py
index 52e0ec3..0508bc7 100644
--- a/stheno/mo/mean.py
+++ b/stheno/mo/mean.py
@@ -37,7 +37,7 @@ class MultiOutputMean(Mean):
         return B.concat(*[self(xi) for xi in x], axis=-2)
 
     def render(self, formatter):
-        ms = [str(self.measure.means[p]) for p in self.ps]
+        ms = [self.measure.means[p].display(formatter) for p in self.ps]
         return "MultiOutputMean({})".format(", ".join(ms))
 
 
-- 
2.43.0

