From 06ccde876a376a71c141a881d74470614285eb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:11 +0000
Subject: [PATCH 01/54] fix: Observable.remove_observer called a method that
 does not exist

---
 src/modopt/base/observable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index bf8371c..5d76f7b 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -72,7 +72,7 @@ class Observable:
             An obervation function to be removed
 
         """
-        self._is_allowed_event(signal)
+        self._is_allowed_signal(signal)
         self._remove_observer(signal, observer)
 
     def notify_observers(self, signal, **kwargs):
-- 
2.43.0


From 3a1721a4de03f3fe2be0681ee573c7cdb27df7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:11 +0000
Subject: [PATCH 02/54] fix: honour metric_call_period (condition was a
 one-element tuple, always true)

---
 src/modopt/opt/algorithms/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index f739106..4a49fc6 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -273,7 +273,7 @@ class SetUp(Observable):
                 metric_conditions = (
                     self.idx % self.metric_call_period == 0
                     or self.idx == (max_iter - 1)
-                    or self.converge,
+                    or self.converge
                 )
 
                 if metric_conditions:
-- 
2.43.0


From 0e76446ee9ed5c0f8a42be0171e8b318f9375f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:11 +0000
Subject: [PATCH 03/54] fix: FISTA t-sequence must be (p + sqrt(r t^2 + q)) / 2

---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 31927eb..2ed2f4c 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -276,7 +276,7 @@ class FISTA:
 
         if self.mode == "regular":
             sqrt_part = self.r_lazy * self._t_prev**2 + self.q_lazy
-            self._t_now = self.p_lazy + np.sqrt(sqrt_part) * 0.5
+            self._t_now = (self.p_lazy + np.sqrt(sqrt_part)) * 0.5
 
         elif self.mode == "CD":
             self._t_now = (self._n + self.a_cd - 1) / self.a_cd
-- 
2.43.0


From 563b904e9ab920cb25d57fd428613981f87303d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:11 +0000
Subject: [PATCH 04/54] fix: invalid restart_strategy must raise the documented
 ValueError

---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 2ed2f4c..031f067 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -104,7 +104,7 @@ class FISTA:
             message = "Restarting strategy must be one of {0}."
             raise ValueError(
                 message.format(
-                    ", ".join(self._restarting_strategies),
+                    ", ".join(map(str, self._restarting_strategies)),
                 ),
             )
         self._t_now = 1.0
-- 
2.43.0


From 15dc37270aec60c136005227d48e02d756aa3c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:11 +0000
Subject: [PATCH 05/54] fix: GenForwardBackward ignored early stopping metrics

---
 src/modopt/opt/algorithms/forward_backward.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 031f067..5bfbf49 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -741,7 +741,9 @@ class GenForwardBackward(SetUp):
 
         # Test cost function for convergence.
         if self._cost_func:
-            self.converge = self._cost_func.get_cost(self._x_new)
+            self.converge = self.any_convergence_flag() or self._cost_func.get_cost(
+                self._x_new
+            )
 
     def iterate(self, max_iter=150, progbar=None):
         """Iterate.
-- 
2.43.0


From 467dd9d300eaf14ed40e8d26ac0dab071c69bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:11 +0000
Subject: [PATCH 06/54] fix: GenForwardBackward rejected weights that sum to
 one up to rounding

---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 5bfbf49..1d42e6d 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -682,7 +682,7 @@ class GenForwardBackward(SetUp):
 
         expected_weight_sum = 1.0
 
-        if self.xp.sum(weights) != expected_weight_sum:
+        if not np.isclose(self.xp.sum(weights), expected_weight_sum):
             raise ValueError(
                 "Proximity operator weights must sum to 1.0. Current sum of "
                 + f"weights = {self.xp.sum(weights)}",
-- 
2.43.0


From e5ad1fe1e5b85baa3b1c6cdbfbd611f531e373c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:11 +0000
Subject: [PATCH 07/54] fix: PowerMethod ignored its rng argument

---
 src/modopt/math/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/math/matrix.py b/src/modopt/math/matrix.py
index b200f15..b1de5f5 100644
--- a/src/modopt/math/matrix.py
+++ b/src/modopt/math/matrix.py
@@ -309,7 +309,7 @@ class PowerMethod:
         self._verbose = verbose
         xp, compute_backend = get_backend(compute_backend)
         self.xp = xp
-        self.rng = None
+        self.rng = rng
         self.compute_backend = compute_backend
         if auto_run:
             self.get_spec_rad()
-- 
2.43.0


From bafd7ddef3b49002439429fdd11995ed2139d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 08/54] fix: notify_observers kept its lock after an exception
 and never returned True

---
 src/modopt/base/observable.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index 5d76f7b..c17369e 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -97,18 +97,22 @@ class Observable:
         # Set the lock
         self._locked = True
 
-        # Create a signal object
-        signal_to_be_notified = SignalObject()
-        signal_to_be_notified.object = self
-        signal_to_be_notified.signal = signal
-
-        for name, key_value in kwargs.items():
-            setattr(signal_to_be_notified, name, key_value)
-        # Notify all the observers
-        for observer in self._observers[signal]:
-            observer(signal_to_be_notified)
-        # Unlock the notification process
-        self._locked = False
+        try:
+            # Create a signal object
+            signal_to_be_notified = SignalObject()
+            signal_to_be_notified.object = self
+            signal_to_be_notified.signal = signal
+
+            for name, key_value in kwargs.items():
+                setattr(signal_to_be_notified, name, key_value)
+            # Notify all the observers
+            for observer in self._observers[signal]:
+                observer(signal_to_be_notified)
+        finally:
+            # Unlock the notification process
+            self._locked = False
+
+        return True
 
     def _get_allowed_signals(self):
         """Get allowed signals.
-- 
2.43.0


From 420341cc963278b683ea6eabffca97accbd679eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 09/54] fix: ForwardBackward must return the proximal iterate,
 not the extrapolated point

---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 1d42e6d..ac21438 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -482,7 +482,7 @@ class ForwardBackward(SetUp):
         # retrieve metrics results
         self.retrieve_outputs()
         # rename outputs as attributes
-        self.x_final = self._z_new
+        self.x_final = self._x_new
 
     def get_notify_observers_kwargs(self):
         """Notify observers.
-- 
2.43.0


From 0bb3000dab51915773a1f439fc00c28c1b2a1120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 10/54] fix: ADMMcostObj passed keyword names instead of
 keyword arguments

---
 src/modopt/opt/algorithms/admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index b2f4517..6b58508 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -33,7 +33,7 @@ class ADMMcostObj(CostParent):
     """
 
     def __init__(self, cost_funcs, A, B, b, tau, **kwargs):
-        super().__init__(*kwargs)
+        super().__init__(**kwargs)
         self.cost_funcs = cost_funcs
         self.A = A
         self.B = B
-- 
2.43.0


From 92f468f4085f1fa5e55c89f931b904b131281ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 11/54] fix: ADMMcostObj must use the squared norm of the
 constraint residual

---
 src/modopt/opt/algorithms/admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index 6b58508..272334a 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -61,7 +61,7 @@ class ADMMcostObj(CostParent):
         xp = get_array_module(u)
         cost = self.cost_funcs[0](u)
         cost += self.cost_funcs[1](v)
-        cost += self.tau * xp.linalg.norm(self.A.op(u) + self.B.op(v) - self.b)
+        cost += self.tau * xp.linalg.norm(self.A.op(u) + self.B.op(v) - self.b) ** 2
         return cost
 
 
-- 
2.43.0


From df8db260155c4eb419fbd8899e8a5632856f78fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 12/54] fix: FastADMM discarded its initial v and its tau

---
 src/modopt/opt/algorithms/admm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index 272334a..b4e68ba 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -283,12 +283,13 @@ class FastADMM(ADMM):
     ):
         super().__init__(
             u=u,
-            v=b,
+            v=v,
             mu=mu,
             A=A,
             B=B,
             b=b,
             optimizers=optimizers,
+            tau=tau,
             cost_funcs=cost_funcs,
             **kwargs,
         )
-- 
2.43.0


From 9367be7fed56ca93f63c80e8b13c21a3cf20c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 13/54] fix: FastADMM failed on its first convergence test
 (attribute typo)

---
 src/modopt/opt/algorithms/admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index b4e68ba..ade4f82 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -338,4 +338,4 @@ class FastADMM(ADMM):
         # Test cost function for convergence.
         if self._cost_func:
             self.converge = self.any_convergence_flag()
-            self.convergd |= self._cost_func.get_cost(self._u_new, self._v_new)
+            self.converge |= self._cost_func.get_cost(self._u_new, self._v_new)
-- 
2.43.0


From 8d2c9a58aeb077ab9bea6efae85632919d95b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 14/54] fix: matrix2map truncated its values to integers

---
 src/modopt/base/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modopt/base/transform.py b/src/modopt/base/transform.py
index 25ed102..6dca497 100644
--- a/src/modopt/base/transform.py
+++ b/src/modopt/base/transform.py
@@ -236,7 +236,7 @@ def matrix2map(data_matrix, map_shape):
     layout = np.array(map_shape // np.repeat(image_shape, 2), dtype="int")
 
     # Map objects from matrix
-    data_map = np.zeros(map_shape)
+    data_map = np.zeros(map_shape, dtype=data_matrix.dtype)
 
     temp = data_matrix.reshape(image_shape, image_shape, data_matrix.shape[1])
 
@@ -251,7 +251,7 @@ def matrix2map(data_matrix, map_shape):
         )
         data_map[lower[0] : upper[0], lower[1] : upper[1]] = temp[:, :, i_elem]
 
-    return data_map.astype(int)
+    return data_map
 
 
 def cube2matrix(data_cube):
-- 
2.43.0


From 99e3519a294bd1ce880b561c3ae5a8f77b2d45c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 15/54] fix: map2cube silently dropped pixels when one
 dimension did not match the layout

---
 src/modopt/base/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/transform.py b/src/modopt/base/transform.py
index 6dca497..587f733 100644
--- a/src/modopt/base/transform.py
+++ b/src/modopt/base/transform.py
@@ -113,7 +113,7 @@ def map2cube(data_map, layout):
     cube2map : complimentary function
 
     """
-    if np.all(np.array(data_map.shape) % np.array(layout)):
+    if np.any(np.array(data_map.shape) % np.array(layout)):
         raise ValueError(
             "The desired layout must be a multiple of the number "
             + "pixels in the data map.",
-- 
2.43.0


From 257239520ee447fa0467e071786a4006e714e65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 16/54] fix: svd_thresh printed debugging output

---
 src/modopt/signal/svd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index cf14750..ed771f9 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -168,7 +168,6 @@ def svd_thresh(input_data, threshold=None, n_pc=None, thresh_type="hard"):
         # Find the required number of principal components if not specified.
         if isinstance(n_pc, type(None)):
             n_pc = find_n_pc(u_vec, factor=0.1)
-            print("xxxx", n_pc, u_vec)
 
         # If the number of PCs is too large use all of the singular values.
         if (isinstance(n_pc, int) and n_pc >= s_values.size) or (
-- 
2.43.0


From e32052b9c7d6dbabc21939264aaeeb5ec82a16d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 17/54] fix: KSupportNorm ignored extra_factor when computing
 theta

---
 src/modopt/opt/proximity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index dea862c..fb343f3 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1237,7 +1237,7 @@ class KSupportNorm(ProximityParent):
         alpha = self._find_alpha(np.abs(input_data.flatten()), extra_factor)
 
         # Computes line 4. in Algorithm 1
-        theta = self._compute_theta(np.abs(input_data.flatten()), alpha)
+        theta = self._compute_theta(np.abs(input_data.flatten()), alpha, extra_factor)
 
         # Computes line 5. in Algorithm 1.
         rslt = np.nan_to_num(
-- 
2.43.0


From 0d54be276282356f16dbb00727c071d8b7deccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 18/54] fix: move_to_cpu failed for tensorflow arrays

---
 src/modopt/base/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/backend.py b/src/modopt/base/backend.py
index 485f649..2a65ee5 100644
--- a/src/modopt/base/backend.py
+++ b/src/modopt/base/backend.py
@@ -156,7 +156,7 @@ def move_to_cpu(input_data):
     elif xp == LIBRARIES["cupy"]:
         return input_data.get()
     elif xp == LIBRARIES["tensorflow"]:
-        return input_data.data.numpy()
+        return input_data.numpy()
     raise ValueError("Cannot identify the array type.")
 
 
-- 
2.43.0


From 6651cc992f9ed026a242457b19510dd47e827019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 19/54] fix: svd_thresh_coef overwrote the threshold array of
 its caller

---
 src/modopt/signal/svd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index ed771f9..799c6ce 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -295,7 +295,7 @@ def svd_thresh_coef(input_data, operator, threshold, thresh_type="hard"):
     ti = np.array(
         [np.linalg.norm(elem) for elem in operator(matrix2cube(u_vec, array_shape))]
     )
-    threshold *= np.repeat(ti, a_matrix.shape[1]).reshape(a_matrix.shape)
+    threshold = threshold * np.repeat(ti, a_matrix.shape[1]).reshape(a_matrix.shape)
 
     # Threshold coefficients.
     a_new = thresh(a_matrix, threshold, thresh_type)
-- 
2.43.0


From ff60a4de127cdc9fa019c26073e597a8aa6e9f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 20/54] fix: svd_thresh_coef_fast crashed or dropped a singular
 value when many exceed the threshold

---
 src/modopt/signal/svd.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index 799c6ce..01ae4b2 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -226,13 +226,22 @@ def svd_thresh_coef_fast(
         The thresholded data (numpy.ndarray) and the estimated rank after
         thresholding (int)
     """
-    if n_vals == -1:
-        n_vals = min(input_data.shape) - 1
+    max_vals = min(input_data.shape)
+    if n_vals is None:
+        n_vals = max_vals
+    elif n_vals == -1:
+        n_vals = max_vals - 1
+    n_vals = max(n_vals, 1)
     ok = False
     while not ok:
-        (u_vec, s_values, v_vec) = svds(input_data, k=n_vals)
-        ok = s_values[0] <= threshold or n_vals == min(input_data.shape) - 1
-        n_vals = min(n_vals + extra_vals, *input_data.shape)
+        if n_vals < max_vals:
+            (u_vec, s_values, v_vec) = svds(input_data, k=n_vals)
+        else:
+            # svds cannot compute all the singular values
+            (u_vec, s_values, v_vec) = calculate_svd(input_data)
+            u_vec, s_values, v_vec = u_vec[:, ::-1], s_values[::-1], v_vec[::-1]
+        ok = s_values[0] <= threshold or n_vals >= max_vals
+        n_vals = min(n_vals + extra_vals, max_vals)
 
     s_values = thresh(
         s_values,
-- 
2.43.0


From 042838d3d298008213ce51a071aa662bd7a358d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 21/54] fix: metrics.snr compared a masked image with an
 unmasked reference

---
 src/modopt/math/metrics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modopt/math/metrics.py b/src/modopt/math/metrics.py
index befd4fa..88a1d7f 100644
--- a/src/modopt/math/metrics.py
+++ b/src/modopt/math/metrics.py
@@ -158,6 +158,7 @@ def snr(test, ref, mask=None):
 
     if mask is not None:
         test = mask * test
+        ref = mask * ref
 
     num = np.mean(np.square(test))
     deno = mse(test, ref)
-- 
2.43.0


From 8b9552dbd643cf6d2397c5f1fc50aeaa0dead386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 22/54] fix: WaveletTransform ignored its boundary mode on CPU

---
 src/modopt/opt/linear/wavelet.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 8012a07..209c213 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -99,7 +99,11 @@ class WaveletTransform(LinearParent):
             )
         elif compute_backend == "numpy" and pywt_available:
             self.operator = CPUWaveletTransform(
-                wavelet_name=wavelet_name, shape=shape, level=level, **kwargs
+                wavelet_name=wavelet_name,
+                shape=shape,
+                level=level,
+                mode=mode,
+                **kwargs,
             )
         else:
             raise ValueError(f"Compute Backend {compute_backend} not available")
-- 
2.43.0


From a10603c756e128f6168800f92738763dd9639980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 23/54] fix: batched WaveletTransform (n_batch > 1) failed in
 op and adj_op

---
 src/modopt/opt/linear/wavelet.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 209c213..71d7309 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -165,6 +165,7 @@ class CPUWaveletTransform(LinearParent):
         decimated=True,
         backend="threading",
         mode="symmetric",
+        verbose=0,
     ):
         if not pywt_available:
             raise ImportError(
@@ -183,6 +184,7 @@ class CPUWaveletTransform(LinearParent):
         self.n_jobs = n_jobs
         self.mode = mode
         self.level = level
+        self.verbose = verbose
         if not decimated:
             raise NotImplementedError(
                 "Undecimated Wavelet Transform is not implemented yet."
@@ -228,12 +230,14 @@ class CPUWaveletTransform(LinearParent):
             the wavelet coefficients.
         """
         if self.n_batch > 1:
-            coeffs, self.coeffs_slices, self.raw_coeffs_shape = zip(
+            coeffs, slices, raw_shapes = zip(
                 *Parallel(
                     n_jobs=self.n_jobs, backend=self.backend, verbose=self.verbose
                 )(delayed(self._op)(data[i]) for i in np.arange(self.n_batch))
             )
             coeffs = np.asarray(coeffs)
+            # all the batches share the same shape
+            self.coeffs_slices, self.raw_coeffs_shape = slices[0], raw_shapes[0]
         else:
             coeffs, self.coeffs_slices, self.raw_coeffs_shape = self._op(data)
         return coeffs
@@ -263,8 +267,7 @@ class CPUWaveletTransform(LinearParent):
             images = Parallel(
                 n_jobs=self.n_jobs, backend=self.backend, verbose=self.verbose
             )(
-                delayed(self._adj_op)(coeffs[i], self.coeffs_shape[i])
-                for i in np.arange(self.n_batch)
+                delayed(self._adj_op)(coeffs[i]) for i in np.arange(self.n_batch)
             )
             images = np.asarray(images)
         else:
-- 
2.43.0


From 42a7aeee1734e9de84cd64414444757b38ef4f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 24/54] fix: WaveletTransform.adj_op returned an extra sample
 for odd sizes

---
 src/modopt/opt/linear/wavelet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 71d7309..8e7ec8e 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -276,13 +276,15 @@ class CPUWaveletTransform(LinearParent):
 
     def _adj_op(self, coeffs):
         """Single coil inverse wavelet transform."""
-        return self.idwt(
+        data = self.idwt(
             pywt.unravel_coeffs(
                 coeffs, self.coeffs_slices, self.raw_coeffs_shape, self._pywt_fun
             ),
             wavelet=self.wavelet,
             mode=self.mode,
         )
+        # the inverse transform pads the odd dimensions to an even size
+        return data[tuple(slice(size) for size in self.shape)]
 
 
 class TorchWaveletTransform:
-- 
2.43.0


From 9ddb0e3bbe01852bf52e82a6ed9c60800e2ec59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 25/54] fix: close_log left handlers attached and files open

---
 src/modopt/interface/log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modopt/interface/log.py b/src/modopt/interface/log.py
index 50c316b..fcafcdd 100644
--- a/src/modopt/interface/log.py
+++ b/src/modopt/interface/log.py
@@ -78,5 +78,6 @@ def close_log(log, verbose=True):
     log.info("The log file has been closed.")
 
     # Remove all handlers from log.
-    for log_handler in log.handlers:
+    for log_handler in list(log.handlers):
         log.removeHandler(log_handler)
+        log_handler.close()
-- 
2.43.0


From 915e5e997068460fa0ec592621282e49cd2eade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:13 +0000
Subject: [PATCH 26/54] fix: WaveletTransform.adj_op failed when called before
 op

---
 src/modopt/opt/linear/wavelet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 8e7ec8e..e6477d0 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -214,6 +214,9 @@ class CPUWaveletTransform(LinearParent):
         if n_proc < 0:
             n_proc = cpu_count() + self.n_jobs + 1
 
+        # The layout of the coefficients only depends on the shape
+        _, self.coeffs_slices, self.raw_coeffs_shape = self._op(np.zeros(self.shape))
+
     def op(self, data):
         """Define the wavelet operator.
 
-- 
2.43.0


From 0074ef7955f5d33a05254fea6769c598c59f4d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:30 +0000
Subject: [PATCH 27/54] fix: FastADMM acceleration and restart did not follow
 its reference algorithm

---
 src/modopt/opt/algorithms/admm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index ade4f82..e8105ac 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -321,20 +321,22 @@ class FastADMM(ADMM):
             self.B.op(self._v_new - self._v_hat),
         )
         if self._c_new < self._eta * self._c_old:
-            self._alpha_new = 1 + np.sqrt(1 + 4 * self._alpha_old**2)
-            beta = (self._alpha_new - 1) / self._alpha_old
+            self._alpha_new = (1 + np.sqrt(1 + 4 * self._alpha_old**2)) / 2
+            beta = (self._alpha_old - 1) / self._alpha_new
             self._v_hat = self._v_new + (self._v_new - self._v_old) * beta
             self._mu_hat = self._mu_new + (self._mu_new - self._mu_old) * beta
         else:
             # reboot to old iteration
             self._alpha_new = 1
-            self._v_hat = self._v_old
-            self._mu_hat = self._mu_old
+            self._v_hat = self.xp.copy(self._v_old)
+            self._mu_hat = self.xp.copy(self._mu_old)
             self._c_new = self._c_old / self._eta
 
         self.xp.copyto(self._u_old, self._u_new)
         self.xp.copyto(self._v_old, self._v_new)
         self.xp.copyto(self._mu_old, self._mu_new)
+        self._alpha_old = self._alpha_new
+        self._c_old = self._c_new
         # Test cost function for convergence.
         if self._cost_func:
             self.converge = self.any_convergence_flag()
-- 
2.43.0


From 3dff9caf49cb1cc7ddeac3cb0e56fb61190f7813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:30 +0000
Subject: [PATCH 28/54] fix: get_mr_filters(trim=True) failed for filters of
 different shapes

---
 src/modopt/signal/wavelet.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modopt/signal/wavelet.py b/src/modopt/signal/wavelet.py
index b55b78d..e5e6c33 100644
--- a/src/modopt/signal/wavelet.py
+++ b/src/modopt/signal/wavelet.py
@@ -242,7 +242,13 @@ def get_mr_filters(
     mr_filters = call_mr_transform(fake_data.astype(float), opt=opt)
 
     if trim:
-        mr_filters = np.array([trim_filter(filt) for filt in mr_filters])
+        trimmed = [trim_filter(filt) for filt in mr_filters]
+        # the trimmed filters may have different shapes
+        if len({filt.shape for filt in trimmed}) > 1:
+            mr_filters = np.empty(len(trimmed), dtype=object)
+            mr_filters[:] = trimmed
+        else:
+            mr_filters = np.array(trimmed)
 
     # Return filters
     if coarse:
-- 
2.43.0


From a848f79a0ea448e187c2f16bf5b015c4cb92780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:59 +0000
Subject: [PATCH 29/54] fix: svd_thresh_coef_fast failed on an all-zero matrix

---
 src/modopt/signal/svd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index 01ae4b2..dea7a12 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -234,10 +234,10 @@ def svd_thresh_coef_fast(
     n_vals = max(n_vals, 1)
     ok = False
     while not ok:
-        if n_vals < max_vals:
+        if n_vals < max_vals and np.any(input_data):
             (u_vec, s_values, v_vec) = svds(input_data, k=n_vals)
         else:
-            # svds cannot compute all the singular values
+            # svds cannot compute all the singular values, nor those of zeros
             (u_vec, s_values, v_vec) = calculate_svd(input_data)
             u_vec, s_values, v_vec = u_vec[:, ::-1], s_values[::-1], v_vec[::-1]
         ok = s_values[0] <= threshold or n_vals >= max_vals
-- 
2.43.0


From b81d60dffe6901d5c7547ce437bd7edae973e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:59 +0000
Subject: [PATCH 30/54] fix: POGM overwrote the gradient array returned by its
 gradient operator

---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index ac21438..c05598e 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -919,7 +919,7 @@ class POGM(SetUp):
         self._sigma = 1.0
         self._t_old = 1.0
         self._grad.get_grad(self._x_old)
-        self._g_old = self._grad.grad
+        self._g_old = self.xp.copy(self._grad.grad)
 
         # Automatically run the algorithm
         if auto_iterate:
-- 
2.43.0


From 70bec5213093afcc303d74c54c4805e8ae3f0206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:47 +0000
Subject: [PATCH 31/54] fix: Condat applied its primal proximity operator
 without the step tau

---
 src/modopt/opt/algorithms/primal_dual.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modopt/opt/algorithms/primal_dual.py b/src/modopt/opt/algorithms/primal_dual.py
index fee49a2..f7362fc 100644
--- a/src/modopt/opt/algorithms/primal_dual.py
+++ b/src/modopt/opt/algorithms/primal_dual.py
@@ -190,6 +190,7 @@ class Condat(SetUp):
             self._x_old
             - self._tau * self._grad.grad
             - self._tau * self._linear.adj_op(self._y_old),
+            extra_factor=self._tau,
         )
 
         # Step 2 from eq.9.
-- 
2.43.0


From a117b45bf3da3fe87f5b2f6ee411b83bbaa7c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:24 +0000
Subject: [PATCH 32/54] fix: k-support cost used a wrong split index

---
 src/modopt/opt/proximity.py | 36 +++++-------------------------------
 1 file changed, 5 insertions(+), 31 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index fb343f3..7485d08 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1271,38 +1271,12 @@ class KSupportNorm(ProximityParent):
         where :math:`w` is the input ``sorted_data`` and :math:`k \leq d`.
 
         """
-        first_idx = 0
-        last_idx = self._k_value - 1
-        found = False
-        q_val = (first_idx + last_idx) // 2
-        cnt = 0
-
-        # Particular case
-        if (sorted_data.sum() / (self._k_value)) >= sorted_data[0]:
-            found = True
-            q_val = 0
-
-        elif (sorted_data[self._k_value - 1 :].sum()) <= sorted_data[self._k_value - 1]:
-            found = True
-            q_val = self._k_value - 1
-
-        while (
-            not found
-            and not cnt == self._k_value
-            and (first_idx <= last_idx < self._k_value)
-        ):
-            q_val = (first_idx + last_idx) // 2
-            cnt += 1
+        # The first index that satisfies the right-hand side also satisfies the
+        # left-hand side, and the last index always satisfies the right-hand side
+        for q_val in range(self._k_value):
             l1_part = sorted_data[q_val:].sum() / (self._k_value - q_val)
-
-            if sorted_data[q_val + 1] <= l1_part <= sorted_data[q_val]:
-                found = True
-
-            else:
-                if sorted_data[q_val] <= l1_part:
-                    last_idx = q_val
-                if l1_part <= sorted_data[q_val + 1]:
-                    first_idx = q_val
+            if l1_part >= sorted_data[q_val]:
+                break
 
         return q_val
 
-- 
2.43.0


From 74ae190fcb610521fe8e063755c58f86946f57fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:02 +0000
Subject: [PATCH 33/54] fix: an observer removing itself made notify_observers
 skip the next one

---
 src/modopt/base/observable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index c17369e..6f70dbc 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -106,7 +106,7 @@ class Observable:
             for name, key_value in kwargs.items():
                 setattr(signal_to_be_notified, name, key_value)
             # Notify all the observers
-            for observer in self._observers[signal]:
+            for observer in tuple(self._observers[signal]):
                 observer(signal_to_be_notified)
         finally:
             # Unlock the notification process
-- 
2.43.0


From 92fca6f40d7e10456987aac5d6eff628074020de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:55 +0000
Subject: [PATCH 34/54] fix: mse and psnr wrapped around for integer images

---
 src/modopt/math/stats.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/modopt/math/stats.py b/src/modopt/math/stats.py
index 8583a8c..1963142 100644
--- a/src/modopt/math/stats.py
+++ b/src/modopt/math/stats.py
@@ -143,7 +143,10 @@ def mse(data1, data2):
     4.0
 
     """
-    return np.mean((data1 - data2) ** 2)
+    # Integer images would wrap around.
+    dtype = np.result_type(data1, data2, float)
+
+    return np.mean(np.subtract(data1, data2, dtype=dtype) ** 2)
 
 
 def psnr(data1, data2, method="starck", max_pix=255):
@@ -202,9 +205,13 @@ def psnr(data1, data2, method="starck", max_pix=255):
 
     """
     if method == "starck":
+        # Integer images would wrap around.
+        dtype = np.result_type(data1, data2, float)
+        data_range = np.subtract(np.max(data1), np.min(data1), dtype=dtype)
+
         return 20 * np.log10(
-            (data1.shape[0] * np.abs(np.max(data1) - np.min(data1)))
-            / np.linalg.norm(data1 - data2),
+            (data1.shape[0] * np.abs(data_range))
+            / np.linalg.norm(np.subtract(data1, data2, dtype=dtype)),
         )
 
     elif method == "wiki":
-- 
2.43.0


From 366cd10fc3adcfcf8cd23a36595541466848746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:55 +0000
Subject: [PATCH 35/54] fix: project and gram_schmidt wrapped around for narrow
 integers

---
 src/modopt/math/matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modopt/math/matrix.py b/src/modopt/math/matrix.py
index b1de5f5..14e98bb 100644
--- a/src/modopt/math/matrix.py
+++ b/src/modopt/math/matrix.py
@@ -158,6 +158,9 @@ def project(u_vec, v_vec):
     (see https://en.wikipedia.org/wiki/Gram%E2%80%93Schmidt_process)
 
     """
+    # The inner products of narrow integers would wrap around.
+    u_vec = np.asarray(u_vec, dtype=np.result_type(u_vec, float))
+
     return np.inner(v_vec, u_vec) / np.inner(u_vec, u_vec) * u_vec
 
 
-- 
2.43.0


From 482ddbd2114ec1e21564be92f1211064d0063506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:43 +0000
Subject: [PATCH 36/54] fix: reweighting dropped the imaginary part of complex
 coefficients

---
 src/modopt/opt/reweight.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modopt/opt/reweight.py b/src/modopt/opt/reweight.py
index 4a9bf44..fd0dfb4 100644
--- a/src/modopt/opt/reweight.py
+++ b/src/modopt/opt/reweight.py
@@ -82,6 +82,9 @@ class cwbReweight:
 
         self._rw_num += 1
 
+        if np.iscomplexobj(input_data):
+            input_data = np.abs(input_data)
+
         input_data = check_float(input_data)
 
         if input_data.shape != self.weights.shape:
-- 
2.43.0


From 904f5a990c795fe5849a63ce4ec59b88aeadffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:05 +0000
Subject: [PATCH 37/54] fix: svd_thresh_coef_fast failed on complex matrices

---
 src/modopt/signal/svd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index dea7a12..958e675 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -232,9 +232,11 @@ def svd_thresh_coef_fast(
     elif n_vals == -1:
         n_vals = max_vals - 1
     n_vals = max(n_vals, 1)
+    # svds needs one more spare value for complex matrices
+    svds_limit = max_vals - 1 if np.iscomplexobj(input_data) else max_vals
     ok = False
     while not ok:
-        if n_vals < max_vals and np.any(input_data):
+        if n_vals < svds_limit and np.any(input_data):
             (u_vec, s_values, v_vec) = svds(input_data, k=n_vals)
         else:
             # svds cannot compute all the singular values, nor those of zeros
-- 
2.43.0


From f06da66af5d19c8e82e1783634cdf719b18cb5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:42 +0000
Subject: [PATCH 38/54] fix: project and gram_schmidt did not conjugate complex
 vectors

---
 src/modopt/math/matrix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modopt/math/matrix.py b/src/modopt/math/matrix.py
index 14e98bb..21e6332 100644
--- a/src/modopt/math/matrix.py
+++ b/src/modopt/math/matrix.py
@@ -161,7 +161,9 @@ def project(u_vec, v_vec):
     # The inner products of narrow integers would wrap around.
     u_vec = np.asarray(u_vec, dtype=np.result_type(u_vec, float))
 
-    return np.inner(v_vec, u_vec) / np.inner(u_vec, u_vec) * u_vec
+    u_conj = np.conj(u_vec)
+
+    return np.inner(v_vec, u_conj) / np.inner(u_vec, u_conj) * u_vec
 
 
 def rot_matrix(angle):
-- 
2.43.0


From 5836bc59c0f02df486d1f2fbf422afffd94bb647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:41 +0000
Subject: [PATCH 39/54] fix: GroupLASSO shrank groups of tiny norm by the wrong
 factor

---
 src/modopt/opt/proximity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 7485d08..5b788de 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1374,7 +1374,7 @@ class GroupLASSO(ProximityParent):
 
         """
         norm2 = np.linalg.norm(input_data, axis=0)
-        denominator = np.maximum(norm2, np.finfo(np.float32).eps)
+        denominator = np.where(norm2 > 0, norm2, 1)
 
         return input_data * np.maximum(
             0,
-- 
2.43.0


From c95b2436edd2ac65d17174ebf18d00afe723ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:41 +0000
Subject: [PATCH 40/54] fix: KSupportNorm lost entries lying exactly on a
 breakpoint of theta

---
 src/modopt/opt/proximity.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 5b788de..826e4ee 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -991,12 +991,8 @@ class KSupportNorm(ProximityParent):
             np.expand_dims(alpha, -1),
             np.expand_dims(np.abs(input_data), -1).T,
         )
-        theta = np.zeros(alpha_input.shape)
         alpha_beta = alpha_input - self.beta * extra_factor
-        theta = alpha_beta * ((alpha_beta <= 1) & (alpha_beta >= 0))
-        theta = np.nan_to_num(theta)
-        theta += alpha_input > (self.beta * extra_factor + 1)
-        return theta
+        return np.clip(np.nan_to_num(alpha_beta), 0, 1)
 
     def _interpolate(self, alpha0, alpha1, sum0, sum1):
         r"""Linear interpolation of alpha (:math:`\alpha`).
-- 
2.43.0


From ca220fc6733c70b7c8156263249caff0e4a84c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:58 +0000
Subject: [PATCH 41/54] fix: TorchWaveletTransform.adj_op kept the padding of
 odd sides

---
 src/modopt/opt/linear/wavelet.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index e6477d0..d1ccfa4 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -394,14 +394,14 @@ class TorchWaveletTransform:
                     for i in range(1, len(coeffs) - 2, 3)
                 ]
                 data = ptwt.waverec2(coeffs, wavelet=self.wavelet, axes=(-3, -2))
-                return torch.view_as_complex(data.contiguous())
+                return self._crop(torch.view_as_complex(data.contiguous()))
             ## 2D Real ##
             coeffs_ = [coeffs[0]] + [
                 tuple(coeffs[i + k] for k in range(3))
                 for i in range(1, len(coeffs) - 2, 3)
             ]
             data = ptwt.waverec2(coeffs_, wavelet=self.wavelet, axes=(-2, -1))
-            return data
+            return self._crop(data)
 
         if torch.is_complex(coeffs[0]):
             ## 3D Complex ##
@@ -414,14 +414,18 @@ class TorchWaveletTransform:
                 for i in range(1, len(coeffs) - 6, 7)
             ]
             data = ptwt.waverec3(coeffs, wavelet=self.wavelet, axes=(-4, -3, -2))
-            return torch.view_as_complex(data.contiguous())
+            return self._crop(torch.view_as_complex(data.contiguous()))
         ## 3D Real ##
         coeffs_ = [coeffs[0]] + [
             {v: coeffs[i + k] for k, v in enumerate(self.wavedec3_keys)}
             for i in range(1, len(coeffs) - 6, 7)
         ]
         data = ptwt.waverec3(coeffs_, wavelet=self.wavelet, axes=(-3, -2, -1))
-        return data
+        return self._crop(data)
+
+    def _crop(self, data):
+        """Remove the padding of the odd dimensions by the inverse transform."""
+        return data[(..., *(slice(size) for size in self.shape))]
 
 
 class CupyWaveletTransform(LinearParent):
-- 
2.43.0


From 7ca4ed63373b3c4a83ec9e96c5a41af2f24ab9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:10 +0000
Subject: [PATCH 42/54] fix: OrderedWeightedL1Norm refused a single weight and
 arrays that do not squeeze to vectors

---
 src/modopt/opt/proximity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 826e4ee..7caaf37 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -629,7 +629,7 @@ class OrderedWeightedL1Norm(ProximityParent):
                 + "documentation for details: "
                 + "https://cea-cosmic.github.io/ModOpt/#optional-packages",
             )
-        if np.max(np.diff(weights)) > 0:
+        if np.any(np.diff(weights) > 0):
             raise ValueError("Weights must be non increasing")
         self.weights = weights.flatten()
         if (self.weights < 0).any():
@@ -661,8 +661,8 @@ class OrderedWeightedL1Norm(ProximityParent):
         # Update threshold with extra factor.
         threshold = self.weights * extra_factor
 
-        # Squeezing the data
-        data_squeezed = np.squeeze(input_data)
+        # Flattening the data
+        data_squeezed = np.ravel(input_data)
 
         # Sorting (non increasing order) input vector's absolute values
         data_abs = np.abs(data_squeezed)
@@ -709,7 +709,7 @@ class OrderedWeightedL1Norm(ProximityParent):
 
         """
         cost_val = np.sum(
-            self.weights * np.sort(np.squeeze(np.abs(args[0]))[::-1]),
+            self.weights * np.sort(np.ravel(np.abs(args[0]))[::-1]),
         )
 
         if kwargs.get("verbose"):
-- 
2.43.0


From bf3ac8f2ab0c714b71e7e49996f6c597cf8e04c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:17 +0000
Subject: [PATCH 43/54] fix: check_npndarray raised a tuple instead of its
 TypeError

---
 src/modopt/base/types.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/modopt/base/types.py b/src/modopt/base/types.py
index 9e9a15b..73e3d19 100644
--- a/src/modopt/base/types.py
+++ b/src/modopt/base/types.py
@@ -161,10 +161,8 @@ def check_npndarray(input_obj, dtype=None, writeable=True, verbose=True):
     if (not isinstance(dtype, type(None))) and (
         not np.issubdtype(input_obj.dtype, dtype)
     ):
-        raise (
-            TypeError(
-                f"The numpy array elements are not of type: {dtype}",
-            ),
+        raise TypeError(
+            f"The numpy array elements are not of type: {dtype}",
         )
 
     if not writeable and verbose and input_obj.flags.writeable:
-- 
2.43.0


From cc8526243a1fe3c46da7e97b8629946379ed3c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:17 +0000
Subject: [PATCH 44/54] fix: MetricObserver records were left uneven when a
 metric raised

---
 src/modopt/base/observable.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index 6f70dbc..aea8bd0 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -245,9 +245,12 @@ class MetricObserver:
             if key_value is not None:
                 kwargs[key_value] = getattr(signal, key)
         kwargs.update(self.cst_kwargs)
+        date = time.time()
+        # Nothing is recorded if the metric raises an exception
+        metric_value = self.metric(**kwargs)
         self.list_iters.append(signal.idx)
-        self.list_dates.append(time.time())
-        self.list_cv_values.append(self.metric(**kwargs))
+        self.list_dates.append(date)
+        self.list_cv_values.append(metric_value)
 
         if self.early_stopping:
             self.is_converge()
-- 
2.43.0


From 92ee0326d8cd4c4935c44a733618845a0c6bf622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:52 +0000
Subject: [PATCH 45/54] fix: PowerMethod normalised the array returned by the
 operator in place

---
 src/modopt/math/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/math/matrix.py b/src/modopt/math/matrix.py
index 21e6332..ba0fcc4 100644
--- a/src/modopt/math/matrix.py
+++ b/src/modopt/math/matrix.py
@@ -366,7 +366,7 @@ class PowerMethod:
 
             x_new_norm = xp.linalg.norm(x_new)
 
-            x_new /= x_new_norm
+            x_new = x_new / x_new_norm
 
             if xp.abs(x_new_norm - x_old_norm) < tolerance:
                 message = " - Power Method converged after {0} iterations!"
-- 
2.43.0


From ef7cf1f056b3acc3139e27d1030d5d96f88b9689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:52 +0000
Subject: [PATCH 46/54] fix: a progress bar without a total (or of total zero)
 could not be handed to iterate

---
 src/modopt/opt/algorithms/base.py        | 4 ++--
 src/modopt/opt/algorithms/primal_dual.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index 4a49fc6..052ff11 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -284,7 +284,7 @@ class SetUp(Observable):
                     print(" - Converged!")
                 break
 
-            if progbar:
+            if progbar is not None:
                 progbar.update()
 
     def _run_alg(self, max_iter, progbar=None):
@@ -308,7 +308,7 @@ class SetUp(Observable):
         if self.progress and progbar is None:
             with tqdm(total=max_iter) as pb:
                 self._iterations(max_iter, progbar=pb)
-        elif progbar:
+        elif progbar is not None:
             self._iterations(max_iter, progbar=progbar)
         else:
             self._iterations(max_iter)
diff --git a/src/modopt/opt/algorithms/primal_dual.py b/src/modopt/opt/algorithms/primal_dual.py
index f7362fc..3775a4f 100644
--- a/src/modopt/opt/algorithms/primal_dual.py
+++ b/src/modopt/opt/algorithms/primal_dual.py
@@ -240,7 +240,7 @@ class Condat(SetUp):
         if not isinstance(self._reweight, type(None)):
             for _ in range(n_rewightings):
                 self._reweight.reweight(self._linear.op(self._x_new))
-                if progbar:
+                if progbar is not None:
                     progbar.reset(total=max_iter)
                 self._run_alg(max_iter, progbar)
 
-- 
2.43.0


From 7733afba74c3fa82f65435efcd74ff534ddecc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 47/54] fix: svd_thresh accepts the numbers of components that
 find_n_pc returns

---
 src/modopt/signal/svd.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index 958e675..01ba4e4 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -152,10 +152,14 @@ def svd_thresh(input_data, threshold=None, n_pc=None, thresh_type="hard"):
            [15.78198684, 17.20003913]])
 
     """
-    less_than_zero = isinstance(n_pc, int) and n_pc <= 0
+    less_than_zero = isinstance(n_pc, (int, np.integer)) and n_pc <= 0
     str_not_all = isinstance(n_pc, str) and n_pc != "all"
 
-    if (not isinstance(n_pc, (int, str, type(None)))) or less_than_zero or str_not_all:
+    if (
+        (not isinstance(n_pc, (int, np.integer, str, type(None))))
+        or less_than_zero
+        or str_not_all
+    ):
         raise ValueError(
             'Invalid value for "n_pc", specify a positive integer value or ' + '"all"',
         )
@@ -170,7 +174,7 @@ def svd_thresh(input_data, threshold=None, n_pc=None, thresh_type="hard"):
             n_pc = find_n_pc(u_vec, factor=0.1)
 
         # If the number of PCs is too large use all of the singular values.
-        if (isinstance(n_pc, int) and n_pc >= s_values.size) or (
+        if (isinstance(n_pc, (int, np.integer)) and n_pc >= s_values.size) or (
             isinstance(n_pc, str) and n_pc == "all"
         ):
             n_pc = s_values.size
-- 
2.43.0


From c7b5f59812543bc022a674993b1c5168026f43d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 48/54] fix: pad2d accepts a padding that is a numpy integer

---
 src/modopt/base/np_adjust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/np_adjust.py b/src/modopt/base/np_adjust.py
index 10cb5c2..8bd0f30 100644
--- a/src/modopt/base/np_adjust.py
+++ b/src/modopt/base/np_adjust.py
@@ -146,7 +146,7 @@ def pad2d(input_data, padding):
     """
     input_data = np.array(input_data)
 
-    if isinstance(padding, int):
+    if isinstance(padding, (int, np.integer)):
         padding = np.array([padding])
     elif isinstance(padding, (tuple, list)):
         padding = np.array(padding)
-- 
2.43.0


From 613c105c63105610d9847a537a1123f6b6422c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 49/54] fix: check_float and check_int accept numpy scalars of
 every precision

---
 src/modopt/base/types.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/modopt/base/types.py b/src/modopt/base/types.py
index 73e3d19..b08a64d 100644
--- a/src/modopt/base/types.py
+++ b/src/modopt/base/types.py
@@ -68,9 +68,11 @@ def check_float(input_obj):
     check_int : related function
 
     """
-    if not isinstance(input_obj, (int, float, list, tuple, np.ndarray)):
+    if not isinstance(
+        input_obj, (int, float, np.integer, np.floating, list, tuple, np.ndarray)
+    ):
         raise TypeError("Invalid input type.")
-    if isinstance(input_obj, int):
+    if isinstance(input_obj, (int, np.integer)):
         input_obj = float(input_obj)
     elif isinstance(input_obj, (list, tuple)):
         input_obj = np.array(input_obj, dtype=float)
@@ -117,9 +119,11 @@ def check_int(input_obj):
     check_float : related function
 
     """
-    if not isinstance(input_obj, (int, float, list, tuple, np.ndarray)):
+    if not isinstance(
+        input_obj, (int, float, np.integer, np.floating, list, tuple, np.ndarray)
+    ):
         raise TypeError("Invalid input type.")
-    if isinstance(input_obj, float):
+    if isinstance(input_obj, (float, np.floating)):
         input_obj = int(input_obj)
     elif isinstance(input_obj, (list, tuple)):
         input_obj = np.array(input_obj, dtype=int)
-- 
2.43.0


From 8e5ec26f712b92e13eae517651a766ebd59702bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 50/54] fix: add_noise accepts a sigma that is a numpy scalar
 of any precision

---
 src/modopt/signal/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/signal/noise.py b/src/modopt/signal/noise.py
index 28307f5..b528a31 100644
--- a/src/modopt/signal/noise.py
+++ b/src/modopt/signal/noise.py
@@ -89,7 +89,7 @@ def add_noise(input_data, sigma=1.0, noise_type="gauss", rng=None):
     elif noise_type == "poisson":
         random = rng.poisson(np.abs(input_data))
 
-    if isinstance(sigma, (int, float)):
+    if isinstance(sigma, (int, float, np.integer, np.floating)):
         return input_data + sigma * random
 
     noise = np.array([sig * rand for sig, rand in zip(sigma, random)])
-- 
2.43.0


From 21a5c37401335de944041a0b4c8241104af8dee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 51/54] fix: positive accepts numpy scalars of every precision

---
 src/modopt/signal/positivity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modopt/signal/positivity.py b/src/modopt/signal/positivity.py
index 8d7aa46..fa97163 100644
--- a/src/modopt/signal/positivity.py
+++ b/src/modopt/signal/positivity.py
@@ -93,13 +93,14 @@ def positive(input_data, ragged=False):
            [1, 2, 3]])
 
     """
-    if not isinstance(input_data, (int, float, list, tuple, np.ndarray)):
+    scalars = (int, float, np.integer, np.floating)
+    if not isinstance(input_data, (*scalars, list, tuple, np.ndarray)):
         raise TypeError(
             "Invalid data type, input must be `int`, `float`, `list`, "
             + "`tuple` or `np.ndarray`.",
         )
 
-    if isinstance(input_data, (int, float)):
+    if isinstance(input_data, scalars):
         return pos_thresh(input_data)
 
     if ragged:
-- 
2.43.0


From 812b1fb564b13bc99e1f1f5639983c2a525de298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 52/54] fix: GroupLASSO uses an extra factor given by position

---
 src/modopt/opt/proximity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 7caaf37..020e612 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1350,7 +1350,7 @@ class GroupLASSO(ProximityParent):
         self.op = self._op_method
         self.cost = self._cost_method
 
-    def _op_method(self, input_data, *args, extra_factor=1.0, **kwargs):
+    def _op_method(self, input_data, extra_factor=1.0, *args, **kwargs):
         """Operator.
 
         This method returns the input data thresholded by the weights.
-- 
2.43.0


From 102ead3c4f03c20749d5940ad1307d3fecd0a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 53/54] fix: solvers accept step sizes in single precision

---
 src/modopt/opt/algorithms/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index 052ff11..cd5b50b 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -192,7 +192,7 @@ class SetUp(Observable):
             For invalid input type
 
         """
-        if not isinstance(param_val, float):
+        if not isinstance(param_val, (float, np.floating)):
             raise TypeError("Algorithm parameter must be a float value.")
 
     def _check_param_update(self, param_update):
-- 
2.43.0


From fc4db20e6364ca43e63d83396b92933d24ea6ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:55 +0000
Subject: [PATCH 54/54] fix: rotate filters of different sizes in
 filter_convolve

---
 src/modopt/signal/wavelet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modopt/signal/wavelet.py b/src/modopt/signal/wavelet.py
index e5e6c33..c444b8a 100644
--- a/src/modopt/signal/wavelet.py
+++ b/src/modopt/signal/wavelet.py
@@ -22,7 +22,7 @@ from random import getrandbits
 
 import numpy as np
 
-from modopt.base.np_adjust import rotate_stack
+from modopt.base.np_adjust import rotate
 from modopt.interface.errors import is_executable
 from modopt.math.convolve import convolve
 
@@ -310,8 +310,8 @@ def filter_convolve(input_data, filters, filter_rot=False, method="scipy"):
     if filter_rot:
         return np.sum(
             [
-                convolve(coef, filt, method=method)
-                for coef, filt in zip(input_data, rotate_stack(filters))
+                convolve(coef, rotate(filt), method=method)
+                for coef, filt in zip(input_data, filters)
             ],
             axis=0,
         )
-- 
2.43.0

