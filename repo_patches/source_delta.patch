From 17eb214992894f0a914808b6e2452cec6661609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 01/25] fix: EP measurement update must not broadcast the mean
 into a matrix

The residual was reshaped into a column, so a (d,) mean plus a (d,1)
correction became (d,d): EP failed for every state dimension but one.
---
 MomentMatching/Estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MomentMatching/Estimator.py b/MomentMatching/Estimator.py
index 00fdb99..31435e6 100644
--- a/MomentMatching/Estimator.py
+++ b/MomentMatching/Estimator.py
@@ -74,7 +74,7 @@ class Estimator:
         z_cov = symmetrize(z_cov)
         np.linalg.cholesky(z_cov)
         kalman_gain = np.linalg.solve(z_cov, xz_cross_cov.T).T
-        mean = state.mean + kalman_gain @ (meas - z_mean).reshape(-1,1)  # equation 15  in Marc's ACC paper
+        mean = state.mean + kalman_gain @ (meas - z_mean)  # equation 15  in Marc's ACC paper
         cov = state.cov - kalman_gain @ xz_cross_cov.T
         cov = symmetrize(cov)
         corrected_state = Gaussian(mean, cov)
-- 
2.43.0


From 2e3adfe6c0db4a9c3ea9d727ecdc41378ee6bc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 02/25] fix: sign of the linearisation offset in the iterated
 EKF update

The linearised prediction of the measurement at the prior mean x is
h(x_i) + H_i (x - x_i). With the opposite sign every iteration after the
first diverged from the Kalman filter, even on linear models.
---
 Filters/KalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index bbee379..db38658 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -136,7 +136,7 @@ class IEKF(KalmanFilterSmoother):
         for i in range(self.num_iter):
             h_i = self.measurement(state.mean, t, u)[0]
             H_i = jacobian(self.measurement, argnum=0)(state.mean, t, u)[0]
-            z_mean = h_i - H_i @ (x - state.mean)
+            z_mean = h_i + H_i @ (x - state.mean)
             z_cov = H_i @ P @ H_i.T + self.measurement_noise
             xz_cross_cov = P @ H_i.T
 
-- 
2.43.0


From db31faa565d07274e218ceeae289db9ef2c35598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 03/25] fix: build_nodes raised IndexError for a single time
 step

---
 ExpectationPropagation/Nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index 7b7e3f9..e133acc 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -231,7 +231,7 @@ def build_nodes(
     for i, node in enumerate(nodes):
         if i == 0:
             node.prev_node = None
-            node.next_node = nodes[i + 1]
+            node.next_node = nodes[i + 1] if N > 1 else None
             continue
         if i == (N - 1):
             node.prev_node = nodes[i - 1]
-- 
2.43.0


From f4110eb0288c5cab57a7e81839e13d59af66dceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 04/25] fix: simulate must not add noise in place

With a transition or measurement function that returns its argument (an
identity model) the in-place additions overwrote the caller's initial
state, the earlier states of the trajectory and the state with its own
noisy measurement.
---
 Systems/DynamicSystem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index 32abf1d..b4821cf 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -51,9 +51,9 @@ class DynamicSystem(metaclass=ABCMeta):
             # y_true = self.measure(x=x_noisy)
             # y_noisy = y_true + self.measurement_noise.sample()
             x = self.transition(x=x, t=t)
-            x += self.system_noise.sample()
+            x = x + self.system_noise.sample()
             y = self.measure(x=x)
-            y += self.measurement_noise.sample()
+            y = y + self.measurement_noise.sample()
             yield x, y # x_true, x_noisy, y_true, y_noisy
             #x = x_noisy
             t = t + self.dt
@@ -110,9 +110,9 @@ class DynamicSystemModel(DynamicSystem):
 
         for _ in range(N):
             x = self.transition(x=x, t=t)
-            x += self.system_noise.sample()
+            x = x + self.system_noise.sample()
             y = self.measurement(x=x)
-            y += self._measurement_noise.sample()
+            y = y + self._measurement_noise.sample()
             yield x, y
             t = t + self.dt
 
-- 
2.43.0


From bd0fd563cd430729b65cb00009c182f112c7da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 05/25] fix: GaussianNoise dropped a mean given by the caller

---
 Systems/DynamicSystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index b4821cf..1b6deed 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -18,7 +18,8 @@ class GaussianNoise(NoiseModel):
         self.dimension = dimension
         self.cov = cov
         if mean is None:
-            self.mean = np.zeros((dimension,), dtype=float)
+            mean = np.zeros((dimension,), dtype=float)
+        self.mean = mean
 
         super().__init__(dimension=dimension,
                          params=params)
-- 
2.43.0


From 6ef6ede6441c3472f5c5db909cc9b9cf87ade6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 06/25] fix: sensor_list=None must select the default sensors
 in the measurement too

---
 Systems/BearingOnlyTrackingTurn.py | 8 +++-----
 Systems/BearingsOnlyTracking.py    | 5 ++---
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/Systems/BearingOnlyTrackingTurn.py b/Systems/BearingOnlyTrackingTurn.py
index dce92ea..e4aa893 100644
--- a/Systems/BearingOnlyTrackingTurn.py
+++ b/Systems/BearingOnlyTrackingTurn.py
@@ -73,11 +73,9 @@ class BearingsOnlyTrackingTurn(DynamicSystemModel):
         init_dist = Gaussian(mean_vec=np.array([1000, 300, 1000, 0, -np.deg2rad(3.0)]),
                              cov_mat=np.eye(5) * [100, 10, 100, 10, 1e-4])
         if sensor_list is None:
-            meas_dim = len(Default_Sensor_List)
-            # meas_dim = 2*len(Default_Sensor_List)
-        else:
-            meas_dim = len(sensor_list)
-            # meas_dim = 2*len(sensor_list)
+            sensor_list = Default_Sensor_List
+        meas_dim = len(sensor_list)
+        # meas_dim = 2*len(sensor_list)
 
         transition = partial(f, delta_t=delta_t)
         measurement = partial(h, sensor_list=sensor_list)
diff --git a/Systems/BearingsOnlyTracking.py b/Systems/BearingsOnlyTracking.py
index eaa72f7..90b4662 100644
--- a/Systems/BearingsOnlyTracking.py
+++ b/Systems/BearingsOnlyTracking.py
@@ -62,9 +62,8 @@ class BearingsOnlyTracking(DynamicSystemModel):
         init_dist = Gaussian(mean_vec=np.array([0.0, 0.0, 1.0, 0.0]),
                              cov_mat=np.eye(4) * [0.1, 0.1, 0.1, 0.1])
         if sensor_list is None:
-            meas_dim = len(Default_Sensor_List)
-        else:
-            meas_dim = len(sensor_list)
+            sensor_list = Default_Sensor_List
+        meas_dim = len(sensor_list)
 
         transition = partial(f, delta_t=delta_t)
         measurement = partial(h, sensor_list=sensor_list)
-- 
2.43.0


From 6b597b8c3d50fea4315b9f27e9ce705c46a61d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 07/25] fix: Taylor transform of functions with a single output

Squeezing the Jacobian of a batched function also dropped its output (or
state) axis when that had size one, so e.g. bearings-only tracking with
one sensor failed. Only the batch axis is removed now.
---
 MomentMatching/TaylorLinearisation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/MomentMatching/TaylorLinearisation.py b/MomentMatching/TaylorLinearisation.py
index cb16794..1510135 100644
--- a/MomentMatching/TaylorLinearisation.py
+++ b/MomentMatching/TaylorLinearisation.py
@@ -50,10 +50,8 @@ class TaylorTransform(MappingTransform):
         assert isinstance(state, Gaussian)
         # J_t = self.numerical_jacobian(func, state.mean)
         J_t = jacobian(func)(state.mean)
-        if np.ndim(J_t) > 2:
-          J_t = np.squeeze(J_t)
-        mean = func(state.mean)
-        mean = np.squeeze(mean)
+        J_t = np.reshape(J_t, (-1, np.size(state.mean)))
+        mean = np.ravel(func(state.mean))
         cov = J_t @ state.cov @ J_t.T
         cross_cov = state.cov @ J_t.T
         return mean, cov, cross_cov
-- 
2.43.0


From 1ccddab5693dc3ab4077c8724bd7e64cd0730659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 08/25] fix: L96 could not be constructed

The generated initial condition had shape (1, dim), which the dimension
assertion in the constructor always rejected.
---
 Systems/L96.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index d074088..dcbd87a 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -34,7 +34,7 @@ def generate_L96_initial_condition(dim=40, F=8):
 
     x = [x0]
     for n in range(999):
-        x.append(f(x[-1]))
+        x.append(f(x[-1])[0])
     x = np.array(x)
 
     return x[-1]
-- 
2.43.0


From c3b5035c930f97cbbcafd1d4eb815f2d66219eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 09/25] fix: L96 drift follows the documented equation

The README (and the literature) define dx_i/dt as
(x_{i+1} - x_{i-2}) x_{i-1} - x_i + F; the rolls had the opposite
direction.
---
 Systems/L96.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index dcbd87a..7b9b8bc 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -7,7 +7,7 @@ import autograd.numpy as np
 
 def model(X, F):
     X = np.atleast_2d(X)
-    dXdt = -np.roll(X, -1, 1) * (np.roll(X, -2, 1) - np.roll(X, 1, 1)) - X + F
+    dXdt = (np.roll(X, -1, 1) - np.roll(X, 2, 1)) * np.roll(X, 1, 1) - X + F
     return dXdt
 
 
-- 
2.43.0


From 7da2acaf6370bd67c976a98964074d60ca17f368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 10/25] fix: EP_Sweep_BearingsOnly imported a module that does
 not exist

---
 Experiments/EP_Sweep_BearingsOnly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index b52dea0..70d4689 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -26,7 +26,7 @@ import sqlite3
 import itertools
 import click
 from collections import namedtuple
-from Experiments.FullSweep import Config, select_transform
+from Experiments.EP_FullSweep import Config, select_transform
 
 
 def create_experiment_table(db, table_name='BOTT_EXP'):
-- 
2.43.0


From 6da68cb4e92ffefbe7821560e2501bb78c5d48bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 11/25] fix: sweep resume test must use the configured number
 of iterations

A stored run was recognised by its row for iteration 50, whatever
--num-iter was: shorter runs were never skipped and longer ones were
skipped although their later iterations were missing.
---
 Experiments/EP_FullSweep.py          | 4 ++--
 Experiments/EP_Sweep_BearingsOnly.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Experiments/EP_FullSweep.py b/Experiments/EP_FullSweep.py
index 827a050..15848e4 100644
--- a/Experiments/EP_FullSweep.py
+++ b/Experiments/EP_FullSweep.py
@@ -88,7 +88,7 @@ def power_sweep(config, x_true, y_meas, trans_id='UT', SEED=0, power=1, damping=
 
 query_str= "SELECT RMSE" \
            " from {}" \
-           " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = 50"
+           " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = {}"
 
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
@@ -103,7 +103,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         x, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-            query = query_str.format(table, trans_id, SEED, power, damping)
+            query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
             db.execute(query)
             exits = db.fetchall()
             try:
diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index 70d4689..94c71dd 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -154,7 +154,7 @@ def power_sweep(config, x_true, y_meas, trans_id='UT', SEED=0, power=1, damping=
 
 query_str= "SELECT RMSE" \
            " from {}" \
-           " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = 50"
+           " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = {}"
 
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
@@ -169,7 +169,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         X, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-            query = query_str.format(table, trans_id, SEED, power, damping)
+            query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
             db.execute(query)
             exits = db.fetchall()
             try:
-- 
2.43.0


From 9098de937a4ad4041e1d5e992be0596a3b9964ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 12/25] fix: negative precision was reported as a vacuous
 Gaussian

The near-zero test compared the signed trace, so an improper (negative
definite) quotient turned into mean 0 and covariance 1e10 and passed the
covariance validation that is meant to reject it.
---
 StateModel/Gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateModel/Gaussian.py b/StateModel/Gaussian.py
index 1143041..0a1d112 100644
--- a/StateModel/Gaussian.py
+++ b/StateModel/Gaussian.py
@@ -33,7 +33,7 @@ warnings.filterwarnings(action='error', category=LinAlgWarning)
 def natural_to_moment(precision, shift):
     dim = precision.shape[0]
     
-    if np.trace(precision) < 1e-10:
+    if np.trace(np.abs(precision)) < 1e-10:
         # almost zero precision
         dim = dim
         mean = np.zeros((dim,), dtype=float)
-- 
2.43.0


From 52675ae2d3326d378d6bae900764d72a662b9786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 13/25] fix: --override did not override saved results

The sweep was run again but its rows were inserted with OR IGNORE, so the
saved results always stayed.
---
 Experiments/EP_Sweep_BearingsOnly.py | 2 +-
 Utils/Database.py                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index 94c71dd..ee188ad 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -51,7 +51,7 @@ def create_experiment_table(db, table_name='BOTT_EXP'):
     db.execute(schema)
 
 
-experiment_data_string = "INSERT OR IGNORE INTO {}" \
+experiment_data_string = "INSERT OR REPLACE INTO {}" \
                          " (Transform, Quantity, Seed, Iter, Power, Damping, RMSE, NLL)" \
                          "VALUES (?, ?, ?, ?, ?, ?, ?, ?)"
 
diff --git a/Utils/Database.py b/Utils/Database.py
index 560b517..1467fd2 100644
--- a/Utils/Database.py
+++ b/Utils/Database.py
@@ -104,7 +104,7 @@ def create_experiment_table(db, table_name='UNGM_EXP'):
     db.execute(schema)
 
 
-experiment_data_string = "INSERT OR IGNORE INTO {}" \
+experiment_data_string = "INSERT OR REPLACE INTO {}" \
                          " (Transform, Seed, Iter, Power, Damping, RMSE, NLL, Mean, Variance)" \
                          "VALUES (?, ?, ?, ?, ?, ?, ?, ?, ? )"
 
-- 
2.43.0


From 451399e087b73bc9281d7520f6d9746be34ec99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 14/25] fix: a second IEKS run started from the previous run's
 linearisation

The iterations overwrite the transition and measurement functions of the
object and never restored them, so its results depended on earlier calls.
---
 Filters/KalmanFilter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index db38658..7c7613b 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -233,6 +233,9 @@ class IEKS(KalmanFilterSmoother):
     #     self.f_list = [self._linearise(self.f, self.Df, self.init_state.mean) for _ in measurements]
     #     self.h_list = [self._linearise(self.h, self.Dh, self.init_state.mean) for _ in measurements]
 
+        # The previous call left its last linearised model here
+        self.transition, self.measurement = self.f, self.h
+
         # First iteration
         filter_results = self.kalman_filter(measurements)
         smoother_results = self.kalman_smoother(filter_results)
@@ -249,5 +252,7 @@ class IEKS(KalmanFilterSmoother):
             # Update linearisation points
             self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
             self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
-        
+
+        self.transition, self.measurement = self.f, self.h
+
         return smoother_results
\ No newline at end of file
-- 
2.43.0


From 0f2498ed8d0c054a7f9dd900dd276ce16d574958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 15/25] fix: IEKS linearised each transition at the state it
 leads to

Step i of the filter moves the state at i-1, but its transition was
linearised at the smoothed state i. The iteration therefore did not
converge to the MAP trajectory it is documented to find (Bell 1994).
---
 Filters/KalmanFilter.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 7c7613b..0089fae 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -229,6 +229,13 @@ class IEKS(KalmanFilterSmoother):
 
         return list(reversed(result))
 
+    def _relinearise(self, smoother_results):
+        # Step i moves the state before it, so its transition is linearised there (the initial state for i = 0)
+        init_state = self.smooth(self.init_state, smoother_results[0], t=0.0)
+        previous = [init_state] + smoother_results[:-1]
+        self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in previous]
+        self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
+
     def __call__(self, measurements, num_iter=5):
     #     self.f_list = [self._linearise(self.f, self.Df, self.init_state.mean) for _ in measurements]
     #     self.h_list = [self._linearise(self.h, self.Dh, self.init_state.mean) for _ in measurements]
@@ -240,8 +247,7 @@ class IEKS(KalmanFilterSmoother):
         filter_results = self.kalman_filter(measurements)
         smoother_results = self.kalman_smoother(filter_results)
 
-        self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
-        self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
+        self._relinearise(smoother_results)
 
         for k in range(num_iter-1):
 
@@ -250,8 +256,8 @@ class IEKS(KalmanFilterSmoother):
             smoother_results = self._kalman_smoother(filter_results)
 
             # Update linearisation points
-            self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
-            self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
+            self.transition = self.f_list[0]
+            self._relinearise(smoother_results)
 
         self.transition, self.measurement = self.f, self.h
 
-- 
2.43.0


From 13c02163166d7ff82b14a3c94432d207a034220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 16/25] fix: coordinated-turn transition is finite at zero turn
 rate

sin(w dt)/w and (1-cos(w dt))/w were evaluated as 0/0 for a target on a
straight course, which gave NaN states, and their derivatives lost all
precision for turn rates close to zero.
---
 Systems/BearingOnlyTrackingTurn.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Systems/BearingOnlyTrackingTurn.py b/Systems/BearingOnlyTrackingTurn.py
index e4aa893..06c30c3 100644
--- a/Systems/BearingOnlyTrackingTurn.py
+++ b/Systems/BearingOnlyTrackingTurn.py
@@ -25,9 +25,14 @@ def f(x, t=None, u=None, delta_t=1):
     ones = np.ones(xs.shape[0])
     zros = np.zeros(xs.shape[0])
     w = xs[:,-1]
-    f_t = np.array([[ones,      sin(w*dt)/w,       zros,      -(1-cos(w*dt))/w,       zros],
+    # sin(w*dt)/w and (1-cos(w*dt))/w, by their Taylor series close to w = 0
+    straight = np.abs(w*dt) < 1e-3
+    w_ = np.where(straight, 1.0, w)
+    sin_w = np.where(straight, dt - w**2 * dt**3/6, sin(w_*dt)/w_)
+    cos_w = np.where(straight, w * dt**2/2 - w**3 * dt**4/24, (1-cos(w_*dt))/w_)
+    f_t = np.array([[ones,      sin_w,             zros,      -cos_w,                 zros],
                     [zros,      cos(w*dt),         zros,      -sin(w*dt),             zros],
-                    [zros,      (1-cos(w*dt))/w,   ones,       sin(w*dt)/w,           zros],
+                    [zros,      cos_w,             ones,       sin_w,                 zros],
                     [zros,      sin(w*dt),         zros,       cos(w*dt),             zros],
                     [zros,      zros,              zros,       zros,                  ones]
                     ])
-- 
2.43.0


From e0e66ff66b895a04a8a84ea14b6ee35a99c7d46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 17/25] fix: an ill-conditioned EP update must be skipped, not
 abort the sweep

StateModel.Gaussian turns scipy's LinAlgWarning into an error; it is no
LinAlgError, so it escaped the handlers that skip a failed update.
---
 ExpectationPropagation/Nodes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index e133acc..61dfbd3 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -16,6 +16,7 @@
 import numpy as np
 from StateModel import Gaussian
 from numpy.linalg import LinAlgError
+from scipy.linalg import LinAlgWarning
 from Utils import validate_covariance
 from functools import partial
 from MomentMatching import Estimator
@@ -75,7 +76,7 @@ class Node:
             fwd_factor = (self.forward_factor ** (1 - self.damping)) * (state ** self.damping)
             marginal = self.marginal * (fwd_factor / old_forward_factor) ** (1 / self.power)
             validate_covariance(marginal)
-        except LinAlgError:
+        except (LinAlgError, LinAlgWarning):
             return
 
         self.forward_factor, self.marginal = fwd_factor, marginal
@@ -92,7 +93,7 @@ class Node:
                                   factor=self.measurement_factor,
                                   marginal=self.marginal,
                                   cavity=measurement_cavity)
-        except LinAlgError:
+        except (LinAlgError, LinAlgWarning):
             return
 
     def back_update(self, proj_back):
@@ -118,7 +119,7 @@ class Node:
                                   factor=self.back_factor,
                                   marginal=self.marginal,
                                   cavity=back_cavity)
-        except LinAlgError:
+        except (LinAlgError, LinAlgWarning):
             return
 
     def power_update(self, projected_marginal, factor, marginal, cavity):
-- 
2.43.0


From 90fcd184e311f3e4c08e7cd9510a8317e70eaa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 18/25] fix: kalman_smoother ignored the start time of the
 filter run

kalman_filter takes t_zero; given to kalman_smoother it disappeared in
**kwargs and a time-varying model was smoothed at the wrong times.
---
 Filters/KalmanFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 0089fae..6df0957 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -103,10 +103,10 @@ class KalmanFilterSmoother:
 
         return result_filter
 
-    def kalman_smoother(self, filtered_list, u=None, *args, **kwargs):
+    def kalman_smoother(self, filtered_list, u=None, t_zero=0.0, *args, **kwargs):
         reversed_filtered = reversed(filtered_list)
         N = len(filtered_list)
-        t = (N-1) * self.dt
+        t = t_zero + (N-1) * self.dt
 
         result = []
 
-- 
2.43.0


From 1c62ec1303948b0ec653d10fd4052b6ffa77a79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 19/25] fix: build_nodes with a system always raised TypeError

The measurements that node_system needs could not be passed.
---
 ExpectationPropagation/Nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index 61dfbd3..0cb7a58 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -217,7 +217,8 @@ def build_nodes(
     N: int,
     dim: int,
     estimator: Estimator = None,
-    system: DynamicSystemModel = None
+    system: DynamicSystemModel = None,
+    measurements: Union[np.ndarray, list] = None
     ) -> List[Node]:
     """
     This function builds the factor graph representation of a dynamical system (Figure 2).
@@ -225,6 +226,7 @@ def build_nodes(
     :dim: State dimension
     :estimator: Method of moment matching (e.g. Taylor transformation)
     :system: Dynamical system
+    :measurements: Observations y (required with system)
     :return: Factor graph representation of a dynamical system
     """
     nodes = [Node(dim, index=i) for i in range(N)]
@@ -246,6 +248,6 @@ def build_nodes(
         nodes = node_estimator(nodes=nodes, estimator=estimator)
 
     if system is not None:
-        nodes = node_system(nodes=nodes, system_model=system)
+        nodes = node_system(nodes=nodes, system_model=system, measurements=measurements)
 
     return nodes
-- 
2.43.0


From cd1fe5a27aa6b7fc4e865579c8cee3925a753683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 20/25] fix: a NaN projection passed the EP covariance
 validation

LAPACK's Cholesky does not fail on NaN, so a model returning NaN for part
of its domain (one sigma point is enough) poisoned the marginals, or
aborted the sweep with a ValueError, instead of skipping the update.
---
 MomentMatching/Estimator.py | 6 ++++--
 Utils/linalg.py             | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/MomentMatching/Estimator.py b/MomentMatching/Estimator.py
index 31435e6..db665d9 100644
--- a/MomentMatching/Estimator.py
+++ b/MomentMatching/Estimator.py
@@ -22,7 +22,7 @@
 #     meas
 from StateModel import Gaussian
 import numpy as np
-from Utils.linalg import symmetrize
+from Utils.linalg import symmetrize, validate_covariance
 from MomentMatching import MappingTransform
 
 
@@ -96,7 +96,9 @@ class Estimator:
             mu = next_state.mean
             Sigma = next_state.cov
         else:
-            q = Gaussian(xx_mean, xx_cov) * (next_fwd_cavity ** self.power)
+            pred_state = Gaussian(xx_mean, xx_cov)
+            validate_covariance(pred_state)
+            q = pred_state * (next_fwd_cavity ** self.power)
             mu = q.mean
             Sigma = q.cov
         mean = state.mean + np.dot(J, (mu - xx_mean))
diff --git a/Utils/linalg.py b/Utils/linalg.py
index 6ac56e1..a129c6b 100644
--- a/Utils/linalg.py
+++ b/Utils/linalg.py
@@ -47,6 +47,8 @@ def symmetrize(cov):
 
 def validate_covariance(state):
 
+    if not (np.all(np.isfinite(state.mean)) and np.all(np.isfinite(state.cov))):
+        raise np.linalg.LinAlgError('state is not finite')
     np.linalg.cholesky(state.cov)
 
 
-- 
2.43.0


From 8ff4cf6f6c9781180768de4b6b650e05dc184af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 21/25] fix: unscented covariance lost all accuracy for small
 alpha

W was formed by multiplying weights of the order of 1/alpha^2 with each other;
with alpha = 1e-3 the variance of a constant function came out as -1376.
---
 MomentMatching/UnscentedTransform.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/MomentMatching/UnscentedTransform.py b/MomentMatching/UnscentedTransform.py
index f0da0f4..f40043c 100644
--- a/MomentMatching/UnscentedTransform.py
+++ b/MomentMatching/UnscentedTransform.py
@@ -30,7 +30,7 @@ class UnscentedTransform(MappingTransform):
     """
 
     def __init__(self, dim=1, alpha=1, beta=2, kappa=1):
-        self.w_m, self.W = self._weights(dim, alpha, beta, kappa)
+        self.w_m, self.w_c = self._weights(dim, alpha, beta, kappa)
         self.param_lambda = alpha * alpha * (dim + kappa) - dim
         super().__init__(approximation_method='Unscented Transform',
                          n=dim,
@@ -72,20 +72,17 @@ class UnscentedTransform(MappingTransform):
         w_m[0] = param_lambda / (n_plus_lambda)
         w_c[0] = w_m[0] + (1 - alpha * alpha + beta)
 
-        w_left = np.eye(2 * n + 1) - np.array(w_m)
-        W = w_left.T @ np.diag(w_c) @ w_left
-
-        W = symmetrize(W)
-
-        return w_m, W
+        return w_m, w_c
 
     def _transform(self, func, state):
 
         sigma_pts = self._sigma_points(state.mean, state.cov)
         Y = func(sigma_pts)
         mean = self.w_m @ Y
-        cov = symmetrize(Y.T @ self.W @ Y)
-        cross_cov = np.asarray(sigma_pts).T @ self.W @ Y
+        # weight the deviations: for small alpha the weights are too large to be multiplied with each other
+        weighted_dev = self.w_c[:, None] * (Y - mean)
+        cov = symmetrize((Y - mean).T @ weighted_dev)
+        cross_cov = (sigma_pts - state.mean).T @ weighted_dev
 
         return mean, cov, cross_cov
 
-- 
2.43.0


From 100b4db64b6b286b7fd0dc445cdb91cc8de34c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 22/25] fix: a failed IEKS run left its linearised model behind

---
 Filters/KalmanFilter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 6df0957..ef5a321 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -237,12 +237,16 @@ class IEKS(KalmanFilterSmoother):
         self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
 
     def __call__(self, measurements, num_iter=5):
+        try:
+            return self._iterate(measurements, num_iter)
+        finally:
+            # Do not leave the last linearised model behind, not even when an iteration fails
+            self.transition, self.measurement = self.f, self.h
+
+    def _iterate(self, measurements, num_iter):
     #     self.f_list = [self._linearise(self.f, self.Df, self.init_state.mean) for _ in measurements]
     #     self.h_list = [self._linearise(self.h, self.Dh, self.init_state.mean) for _ in measurements]
 
-        # The previous call left its last linearised model here
-        self.transition, self.measurement = self.f, self.h
-
         # First iteration
         filter_results = self.kalman_filter(measurements)
         smoother_results = self.kalman_smoother(filter_results)
@@ -259,6 +263,4 @@ class IEKS(KalmanFilterSmoother):
             self.transition = self.f_list[0]
             self._relinearise(smoother_results)
 
-        self.transition, self.measurement = self.f, self.h
-
         return smoother_results
\ No newline at end of file
-- 
2.43.0


From 6d6f619826a7b245dde60ae756f6ea2633a6fff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 23/25] fix: the Lorenz-96 initial condition was run in with F
 = 8 whatever the forcing

---
 Systems/L96.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index 7b9b8bc..ea650ed 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -34,7 +34,7 @@ def generate_L96_initial_condition(dim=40, F=8):
 
     x = [x0]
     for n in range(999):
-        x.append(f(x[-1])[0])
+        x.append(f(x[-1], F=F)[0])
     x = np.array(x)
 
     return x[-1]
-- 
2.43.0


From be23a0e92db10e264918526f057a1f78942d50fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:25 +0000
Subject: [PATCH 24/25] fix: Kalman filters and smoothers lost the symmetry of
 covariances, and diverged on long series

---
 Filters/KalmanFilter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index ef5a321..2030437 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -18,6 +18,7 @@ from itertools import tee
 from functools import partial
 from autograd import jacobian
 from MomentMatching import TaylorTransform
+from Utils.linalg import symmetrize
 import logging
 
 FORMAT = "[ %(funcName)10s() ] %(message)s"
@@ -55,7 +56,7 @@ class KalmanFilterSmoother:
         func = partial(self.transition, t=t, u=u)
         xx_mean, xx_cov, _ = self.transform(func, prior_state)
         xx_cov += self.transition_noise
-        return Gaussian(xx_mean, xx_cov)
+        return Gaussian(xx_mean, symmetrize(xx_cov))
 
     def correct(self, state, meas, t=None, u=None, *args, **kwargs):
         func = partial(self.measurement, t=t, u=u)
@@ -69,7 +70,7 @@ class KalmanFilterSmoother:
         mean = state.mean + np.dot(kalman_gain, (meas - z_mean)) # equation 15  in Marc's ACC paper
         cov = state.cov - np.dot(kalman_gain, np.transpose(xz_cross_cov))
 
-        return Gaussian(mean, cov)
+        return Gaussian(mean, symmetrize(cov))
 
     def smooth(self, state, next_state, t=None, u=None, *args, **kwargs):
         func = partial(self.transition, t=t, u=u)
@@ -81,7 +82,7 @@ class KalmanFilterSmoother:
         mean = state.mean + np.dot(J, (next_state.mean - xx_mean))
         cov = state.cov + J @ (next_state.cov - xx_cov) @ J.T
 
-        return Gaussian(mean, cov)
+        return Gaussian(mean, symmetrize(cov))
 
     def kalman_filter(self, measurements, prior_state=None, t_zero=0.0, u=None, *args, **kwargs):
 
@@ -145,7 +146,7 @@ class IEKF(KalmanFilterSmoother):
             mean = x + np.dot(kalman_gain, (meas - z_mean)) # equation 15  in Marc's ACC paper
             cov = P - np.dot(kalman_gain, np.transpose(xz_cross_cov))
 
-            state = Gaussian(mean, cov)
+            state = Gaussian(mean, symmetrize(cov))
 
         return state
 
-- 
2.43.0


From 2db2f19629153a6319dc2b931c870d4577a12795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:25 +0000
Subject: [PATCH 25/25] fix: the EP backward update took the next marginal to
 contain the current prediction

---
 ExpectationPropagation/Nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index 0cb7a58..23c3661 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -108,10 +108,11 @@ class Node:
         # forward_cavity = next_node.marginal / next_node.forward_factor
 
         try:
+            # The next marginal contains this node's prediction as of its last forward update, which need not be the
+            # current one, so the estimator has to combine the current prediction with the cavity itself
             state = proj_back(next_node.trans_func,
                               back_cavity,
-                              next_fwd_cavity,
-                              next_state=next_node.marginal)
+                              next_fwd_cavity)
             validate_covariance(state)
 
             self.back_factor, self.marginal = \
-- 
2.43.0

