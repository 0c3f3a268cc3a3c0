From 96d2e5133ff061dd59365356995ede501cb69c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:44 +0000
Subject: [PATCH 01/58] fix: SpringDamperSystem closed-form solution used z as
 initial velocity (z = tau*yd)

---
 dmpbbo/dynamicalsystems/SpringDamperSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dynamicalsystems/SpringDamperSystem.py b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
index f02bb6a..197c8dd 100644
--- a/dmpbbo/dynamicalsystems/SpringDamperSystem.py
+++ b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
@@ -145,7 +145,7 @@ class SpringDamperSystem(DynamicalSystem):
 
         for i_dim in range(self._dim_y):
             y0 = self._x_init[i_dim] - self._y_attr[i_dim]
-            yd0 = self._x_init[self._dim_y + i_dim]
+            yd0 = self._x_init[self._dim_y + i_dim] / self._tau  # yd = z/tau
 
             A = y0  # noqa
             B = yd0 + omega_0s[i_dim] * y0  # noqa
-- 
2.43.0


From e41c0875b8f3bb7a56438efcc26f567dad87f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:44 +0000
Subject: [PATCH 02/58] fix: Dmp did not know its initial state until the
 y_init setter had been called

---
 dmpbbo/dmps/Dmp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index ab4f99f..de2fe2b 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -69,6 +69,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         dim_dmp += y_init.size  # new: damping coefficient system
         super().__init__(1, tau, y_init, dim_dmp)
 
+        self._y_init = y_init
         self._y_attr = y_attr
         self._function_approximators = function_approximators
 
@@ -591,7 +592,8 @@ class Dmp(DynamicalSystem, Parameterizable):
         """
         if y_init_new.size != self.dim_dmp():
             raise ValueError("y_init must have same size {self.dim_dmp()}")
-        self._y_init = y_init_new  # noqa defined inside DynamicalSystem.__init__ of
+        self._y_init = y_init_new
+        self._x_init[: self._dim_y] = y_init_new
 
         # Set value in all relevant subsystems also
         self._spring_system.y_init = y_init_new
-- 
2.43.0


From 2b2a25a8764288417efeda76711779a4a5a4cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:44 +0000
Subject: [PATCH 03/58] fix: Dmp.integrate_start evaluated the truth value of
 an array for y_init

---
 dmpbbo/dmps/Dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index de2fe2b..0786545 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -197,7 +197,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         @param y_init: The initial state vector (y part)
         @return: x, xd - The first vector of state variables and their rates of change
         """
-        if y_init:
+        if y_init is not None:
             self.y_init = y_init
 
         x = np.zeros(self._dim_x)
-- 
2.43.0


From c2f0969b9b1ef2772c2deeaff67152b86dd85efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:44 +0000
Subject: [PATCH 04/58] fix: Dmp.tau setter did not reach the damping system

---
 dmpbbo/dmps/Dmp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 0786545..47b6ffd 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -584,6 +584,9 @@ class Dmp(DynamicalSystem, Parameterizable):
         if self._goal_system is not None:
             self._goal_system.tau *= tau_scale
 
+        if self._damping_system is not None:
+            self._damping_system.tau *= tau_scale
+
     @DynamicalSystem.y_init.setter
     def y_init(self, y_init_new):
         """ Set the initial state (y-part)
-- 
2.43.0


From 73c64ca7e258b9fbf8db01088d9f2cc8db44850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:44 +0000
Subject: [PATCH 05/58] fix: changing the goal of a Dmp had no effect on a
 RichardsSystem as goal system

---
 dmpbbo/dmps/Dmp.py                        |  3 ++-
 dmpbbo/dynamicalsystems/RichardsSystem.py | 12 ++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 47b6ffd..8b0adf8 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -255,7 +255,8 @@ class Dmp(DynamicalSystem, Parameterizable):
             xd[self.GOAL] = np.zeros(self._dim_y)
         else:
             # Integrate goal system and get current goal state
-            self._goal_system.y_attr = self._y_attr
+            if not self.goal_system_requires_scaling:
+                self._goal_system.y_attr = self._y_attr
             xd[self.GOAL] = self._goal_system.differential_equation(x[self.GOAL])
             if not self.goal_system_requires_scaling:
                 # The goal state is the attractor state of the spring-damper system
diff --git a/dmpbbo/dynamicalsystems/RichardsSystem.py b/dmpbbo/dynamicalsystems/RichardsSystem.py
index ace433a..62e9bf6 100644
--- a/dmpbbo/dynamicalsystems/RichardsSystem.py
+++ b/dmpbbo/dynamicalsystems/RichardsSystem.py
@@ -35,6 +35,18 @@ class RichardsSystem(DynamicalSystem):
         self.t_infl_ratio = t_infl_ratio
         self.left_asymp = None
 
+    @property
+    def y_attr(self):
+        """ Get the attractor state, i.e. the right asymptote. """
+        return self.right_asymp
+
+    @y_attr.setter
+    def y_attr(self, new_y_attr):
+        """ Set the attractor state, i.e. the right asymptote. """
+        if new_y_attr.size != self._dim_y:
+            raise ValueError(f"y_attr must have size {self._dim_y}")
+        self.right_asymp = new_y_attr
+
     def set_left_asymp(self, left_asymp):
         self.left_asymp = left_asymp
 
-- 
2.43.0


From 9378792f971a23c43958bb66a57e1b45ce32deca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:03 +0000
Subject: [PATCH 06/58] fix: FunctionApproximatorLWR ignored its regularization
 parameter

The meta-parameter dictionary was passed as the (truthy) use_offset argument.
---
 dmpbbo/functionapproximators/FunctionApproximatorLWR.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
index 8ea4626..60582da 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
@@ -57,8 +57,7 @@ class FunctionApproximatorLWR(FunctionApproximator):
 
         # Prepare the weighted-least squares function approximator
         reg = meta_params["regularization"]
-        wls_meta_params = {"regularization": reg, "use_offset": True}
-        fa_lws = FunctionApproximatorWLS(wls_meta_params)
+        fa_lws = FunctionApproximatorWLS(use_offset=True, regularization=reg)
 
         # Perform one weighted least squares regression for each kernel
         activations = FunctionApproximatorLWR._activations(inputs, model_params)
-- 
2.43.0


From 5732ef37fb1e55e426763bcc0cbc234bf7adedeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:03 +0000
Subject: [PATCH 07/58] fix: scalar number of basis functions with
 multi-dimensional inputs

get_centers_and_widths expands a scalar to all dimensions, but RBFN and LWR
counted only one dimension: RBFN predictions were wrong and LWR trained only
part of its local models.
---
 dmpbbo/functionapproximators/FunctionApproximatorLWR.py  | 3 +--
 dmpbbo/functionapproximators/FunctionApproximatorRBFN.py | 4 +---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
index 60582da..91e25f2 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
@@ -50,8 +50,7 @@ class FunctionApproximatorLWR(FunctionApproximator):
         model_params = {"centers": centers, "widths": widths}
 
         # Prepare weighted least squares regressions
-        n_bfs = np.prod(n_bfs_per_dim)
-        n_dims = centers.shape[1]
+        n_bfs, n_dims = centers.shape
         slopes = np.ones([n_bfs, n_dims])
         offsets = np.ones([n_bfs, 1])
 
diff --git a/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py b/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py
index eef020d..1436cc7 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py
@@ -52,8 +52,6 @@ class FunctionApproximatorRBFN(FunctionApproximator):
         # Determine the centers and widths of the basis functions, given the input data range
 
         n_bfs_per_dim = meta_params["n_basis_functions_per_dim"]
-        n_bfs = np.prod(n_bfs_per_dim)
-
         height = meta_params["intersection_height"]
         centers, widths = Gaussian.get_centers_and_widths(inputs, n_bfs_per_dim, height)
 
@@ -70,7 +68,7 @@ class FunctionApproximatorRBFN(FunctionApproximator):
         fa_lws = FunctionApproximatorWLS(use_offset, meta_params["regularization"])
         wls_model_params = fa_lws.train(activations, targets)
 
-        model_params["weights"] = wls_model_params["slope"].reshape(n_bfs, -1)
+        model_params["weights"] = wls_model_params["slope"].reshape(centers.shape[0], -1)
 
         return model_params
 
-- 
2.43.0


From 5d6438eca04b7ca6b9aeac9e500c73725c569efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:03 +0000
Subject: [PATCH 08/58] fix: parameter vector of a function approximator
 without selected parameters

get_param_vector returned a scalar 0 (one value, whilst the size is 0), and
set_param_vector iterated over None.
---
 dmpbbo/functionapproximators/FunctionApproximator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index 1ae8c97..d477833 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -116,7 +116,7 @@ class FunctionApproximator(Parameterizable):
 
     def get_param_vector(self):
         if self._selected_param_names is None:
-            return np.array(0)
+            return np.empty(0)
 
         """Get a vector containing the values of the selected parameters."""
         if not self.is_trained():
@@ -139,7 +139,7 @@ class FunctionApproximator(Parameterizable):
             )
 
         offset = 0
-        for label in self._selected_param_names:
+        for label in self._selected_param_names or []:
             expected_shape = self._model_params[label].shape
             cur_n_values = np.prod(expected_shape)
             cur_values = values[offset : offset + cur_n_values]
-- 
2.43.0


From dbd47d7596f850b20abfcc5c5af6b0cfa2855a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:03 +0000
Subject: [PATCH 09/58] fix: set_param_vector failed for scalar model
 parameters, e.g. the WLS offset

np.prod(()) is the float 1.0, which is not a valid slice index.
---
 dmpbbo/functionapproximators/FunctionApproximator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index d477833..d65dc7d 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -141,7 +141,7 @@ class FunctionApproximator(Parameterizable):
         offset = 0
         for label in self._selected_param_names or []:
             expected_shape = self._model_params[label].shape
-            cur_n_values = np.prod(expected_shape)
+            cur_n_values = self._model_params[label].size
             cur_values = values[offset : offset + cur_n_values]
             self._model_params[label] = np.reshape(cur_values, expected_shape)
             offset += cur_n_values
@@ -153,7 +153,7 @@ class FunctionApproximator(Parameterizable):
         size = 0
         for label in self._selected_param_names:
             if label in self._model_params:
-                size += np.prod(self._model_params[label].shape)
+                size += self._model_params[label].size
         return size
 
     def _get_axis(self, fig=None):
-- 
2.43.0


From bfde5cff507182b6d79341dc52fd86815e59557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:03 +0000
Subject: [PATCH 10/58] fix: FunctionApproximator.set_param_vector kept a view
 on the caller's vector

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index d65dc7d..64754f5 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -143,7 +143,7 @@ class FunctionApproximator(Parameterizable):
             expected_shape = self._model_params[label].shape
             cur_n_values = self._model_params[label].size
             cur_values = values[offset : offset + cur_n_values]
-            self._model_params[label] = np.reshape(cur_values, expected_shape)
+            self._model_params[label] = np.array(cur_values).reshape(expected_shape)
             offset += cur_n_values
 
     def get_param_vector_size(self):
-- 
2.43.0


From 1289a37d53468478b049000c15a47bbc9e7bb0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:25 +0000
Subject: [PATCH 11/58] fix: the goal of a Dmp could not be deselected

set_selected_param_names never removed "goal" from an earlier selection.
---
 dmpbbo/dmps/Dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 8b0adf8..382c2b3 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -650,8 +650,8 @@ class Dmp(DynamicalSystem, Parameterizable):
         if isinstance(names, str):
             names = [names]  # Convert to list
 
+        self._selected_param_names = ["goal"] if "goal" in names else []
         if "goal" in names:
-            self._selected_param_names = ["goal"]
             # No need to bother function approximators with it: remove all occurrences
             names = [n for n in names if n != "goal"]
 
-- 
2.43.0


From c2e18b5dbb836ab5be5aab207b9ccebd87a072c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:25 +0000
Subject: [PATCH 12/58] fix: Dmp.set_param_vector kept a view on the caller's
 vector as its goal

---
 dmpbbo/dmps/Dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 382c2b3..1b1e719 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -707,7 +707,7 @@ class Dmp(DynamicalSystem, Parameterizable):
                     fa.set_param_vector(cur_values)
                     offset += cur_size
         if "goal" in self._selected_param_names:
-            self.y_attr = values[offset : offset + self.dim_dmp()]
+            self.y_attr = np.array(values[offset : offset + self.dim_dmp()])
 
     def get_param_vector_size(self):
         return self._get_param_vector_size_local()
-- 
2.43.0


From acddadf321fcfbf4dd1f321ffa68dd1ff206f873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:25 +0000
Subject: [PATCH 13/58] fix: DmpWithSchedules.train_sched evaluated the truth
 value of the schedules array

---
 dmpbbo/dmps/DmpWithSchedules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/DmpWithSchedules.py b/dmpbbo/dmps/DmpWithSchedules.py
index 2bcaa45..e0bdd5d 100644
--- a/dmpbbo/dmps/DmpWithSchedules.py
+++ b/dmpbbo/dmps/DmpWithSchedules.py
@@ -91,7 +91,7 @@ class DmpWithSchedules(Dmp):
 
         xs, _, _, _ = self.analytical_solution()
         inputs = xs[:, self.PHASE]
-        targets = schedules or trajectory.misc
+        targets = trajectory.misc if schedules is None else schedules
 
         if targets is None:
             raise ValueError(
-- 
2.43.0


From 47833ac69986e2d69658cdc601dcf8d40a137328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:25 +0000
Subject: [PATCH 14/58] fix: DmpWithSchedules could not bound more than one
 schedule, or bound at zero

The truth value of the array of bounds was evaluated, and the schedules at a
single time step were treated as a sequence of one-dimensional schedules.
---
 dmpbbo/dmps/DmpWithSchedules.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/dmpbbo/dmps/DmpWithSchedules.py b/dmpbbo/dmps/DmpWithSchedules.py
index e0bdd5d..ded50dc 100644
--- a/dmpbbo/dmps/DmpWithSchedules.py
+++ b/dmpbbo/dmps/DmpWithSchedules.py
@@ -139,13 +139,8 @@ class DmpWithSchedules(Dmp):
         if self.min_schedules is None and self.max_schedules is None:
             # No bounds, simply return schedules
             return schedules
-        if schedules.ndim == 1:
-            schedules = schedules.reshape((schedules.shape[0], 1))
-        for i_dim in range(len(self._func_apps_schedules)):
-            min_sched = self.min_schedules[i_dim] if self.min_schedules else None
-            max_sched = self.max_schedules[i_dim] if self.max_schedules else None
-            schedules[:, i_dim] = np.clip(schedules[:, i_dim], min_sched, max_sched)
-        return schedules
+        # Last dimension: schedules (both for one state and for a sequence of states)
+        return np.clip(schedules, self.min_schedules, self.max_schedules)
 
     def integrate_start_sched(self, y_init=None):
         """ Start integrating the DMP with schedules with a new initial state.
-- 
2.43.0


From f2c24a2759cea76bef1b970fd69cab260808cd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:31 +0000
Subject: [PATCH 15/58] fix: FunctionApproximatorGPR keeps its own copy of the
 training inputs

The trained model held a reference to the caller's array, so editing that array
after training changed the predictions.
---
 dmpbbo/functionapproximators/FunctionApproximatorGPR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorGPR.py b/dmpbbo/functionapproximators/FunctionApproximatorGPR.py
index b2aeb9d..79b0837 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorGPR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorGPR.py
@@ -49,7 +49,7 @@ class FunctionApproximatorGPR(FunctionApproximator):
     def _train(inputs, targets, meta_params, **kwargs):
 
         model_params = {
-            "inputs": inputs,
+            "inputs": np.array(inputs),
             "lengths": np.full(inputs.shape, meta_params["lengths"]),
             "max_covariance": meta_params["max_covariance"],
         }
-- 
2.43.0


From b5d28df3d4bb837b94aed5a91071f5c7d244a004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:31 +0000
Subject: [PATCH 16/58] fix: integrate_start returns a copy of the initial
 state

It handed out the internal array, so a caller integrating in place overwrote
the initial state of the system.
---
 dmpbbo/dynamicalsystems/DynamicalSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dynamicalsystems/DynamicalSystem.py b/dmpbbo/dynamicalsystems/DynamicalSystem.py
index 569bef1..51b384b 100644
--- a/dmpbbo/dynamicalsystems/DynamicalSystem.py
+++ b/dmpbbo/dynamicalsystems/DynamicalSystem.py
@@ -151,7 +151,7 @@ class DynamicalSystem(ABC):
         """
         if y_init is not None:
             self.y_init = y_init
-        x = self._x_init
+        x = self._x_init.copy()
         return x, self.differential_equation(x)
 
     def integrate_step(self, dt, x):
-- 
2.43.0


From 63fa392c6892552a1848d3b8b25fb07c85f29429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:31 +0000
Subject: [PATCH 17/58] fix: SigmoidSystem copies the initial state it is given

The setter kept a reference to the caller's array; editing it later changed the
state while the cached carrying capacity kept the old value.
---
 dmpbbo/dynamicalsystems/SigmoidSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dynamicalsystems/SigmoidSystem.py b/dmpbbo/dynamicalsystems/SigmoidSystem.py
index 0c93554..d8075e1 100644
--- a/dmpbbo/dynamicalsystems/SigmoidSystem.py
+++ b/dmpbbo/dynamicalsystems/SigmoidSystem.py
@@ -100,7 +100,7 @@ class SigmoidSystem(DynamicalSystem):
         """
         if new_x_init.size != self._dim_x:
             raise ValueError(f"x_init must have size {self._dim_x}")
-        self._x_init = new_x_init
+        self._x_init = np.array(new_x_init)
         self._Ks_cached = None  # Forces recomputing Ks
 
     @DynamicalSystem.y_init.setter
-- 
2.43.0


From 452e22f75d889ac43eed20b230a60af8c1abebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:31 +0000
Subject: [PATCH 18/58] fix: Dmp.train copies the goal from the demonstration

The goal was a view on the last row of the trajectory, so editing the
trajectory after training moved the goal of the DMP.
---
 dmpbbo/dmps/Dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 1b1e719..f92900b 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -449,7 +449,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         # Set tau, initial_state and attractor_state from the trajectory
         self.tau = trajectory.ts[-1]
         self.y_init = trajectory.ys[0, :]
-        self.y_attr = trajectory.ys[-1, :]
+        self.y_attr = trajectory.ys[-1, :].copy()
 
         # This needs to be computed for (optional) scaling of the forcing term.
         # Needs to be done BEFORE _compute_targets
-- 
2.43.0


From 98d960f9158cb8fa0fab2c82d173fa81b0d53468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:42 +0000
Subject: [PATCH 19/58] fix: Dmp copies the initial position it is given

Only part of the state was copied: the scaled delayed goal kept using the
caller's array (after training, a row of the demonstration), so editing that
array later changed the rollouts.
---
 dmpbbo/dmps/Dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index f92900b..7c65587 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -596,7 +596,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         """
         if y_init_new.size != self.dim_dmp():
             raise ValueError("y_init must have same size {self.dim_dmp()}")
-        self._y_init = y_init_new
+        self._y_init = np.array(y_init_new)
         self._x_init[: self._dim_y] = y_init_new
 
         # Set value in all relevant subsystems also
-- 
2.43.0


From bf1fd83ee36d39a2f0de9b4ec6a672a5cd0f31e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:21 +0000
Subject: [PATCH 20/58] fix: DmpContextualTwoStep.integrate_start with a
 contextual goal

The predicted parameters were passed as a column, which gave the goal shape
(D,1) and made integration raise when "goal" was one of the parameters.
---
 dmpbbo/dmps/DmpContextualTwoStep.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index ea7369a..f68bbd0 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -186,14 +186,8 @@ class DmpContextualTwoStep(DynamicalSystem):
         @return: x, xd - The first vector of state variables and their rates of change
         """
 
-        # Predict dmp parameters from task parameters using the ppf
-        n_params = self.dmp.get_param_vector_size()
-        param_vector = np.zeros((n_params, 1))
-        for i_param in range(n_params):
-            param_vector[i_param] = self.ppf[i_param].predict(task_params)
-
-        # Set the dmp parameters
-        self.dmp.set_param_vector(param_vector)
+        # Predict dmp parameters from task parameters using the ppf, and set them
+        self.set_task_params(task_params)
 
         return self.dmp.integrate_start(y_init)
 
-- 
2.43.0


From 614c0a33e8d31aa7a67c28d244bd1070fc838a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:21 +0000
Subject: [PATCH 21/58] fix: DmpContextualTwoStep.dim_dmp returned a bound
 method

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index f68bbd0..f45262b 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -166,7 +166,7 @@ class DmpContextualTwoStep(DynamicalSystem):
         return dmp_contextual
 
     def dim_dmp(self):
-        return self.dmp.dim_dmp
+        return self.dmp.dim_dmp()
 
     def set_task_params(self, task_params):
         dmp_params = self.dmp.get_param_vector()  # Get vector of right size; Values do not matter.
-- 
2.43.0


From 9c0eb3e73ff71cd800a96dd0c314829da5ec330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:21 +0000
Subject: [PATCH 22/58] fix: DmpContextualTwoStep.tau refers to the DMP it
 wraps

The value read was that of the first demonstration rather than the one adopted
by training, and setting it had no effect on the movement.
---
 dmpbbo/dmps/DmpContextualTwoStep.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index f45262b..010f2cc 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -165,6 +165,16 @@ class DmpContextualTwoStep(DynamicalSystem):
 
         return dmp_contextual
 
+    @property
+    def tau(self):
+        """ Get the time constant, i.e. that of the DMP. """
+        return self.dmp.tau
+
+    @tau.setter
+    def tau(self, new_tau):
+        """ Set the time constant, i.e. that of the DMP. """
+        self.dmp.tau = new_tau
+
     def dim_dmp(self):
         return self.dmp.dim_dmp()
 
-- 
2.43.0


From d9bc390cb4a5f0e096f62884cbc0e1d69e023166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:01:36 +0000
Subject: [PATCH 23/58] fix: DmpContextualTwoStep.y_init refers to the DMP it
 wraps

As for tau: the value read was stale after training, and setting it had no
effect.
---
 dmpbbo/dmps/DmpContextualTwoStep.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index 010f2cc..8afc974 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -175,6 +175,16 @@ class DmpContextualTwoStep(DynamicalSystem):
         """ Set the time constant, i.e. that of the DMP. """
         self.dmp.tau = new_tau
 
+    @property
+    def y_init(self):
+        """ Get the initial state (y part), i.e. that of the DMP. """
+        return self.dmp.y_init
+
+    @y_init.setter
+    def y_init(self, new_y_init):
+        """ Set the initial state (y part), i.e. that of the DMP. """
+        self.dmp.y_init = new_y_init
+
     def dim_dmp(self):
         return self.dmp.dim_dmp()
 
-- 
2.43.0


From 8f46d0a56a099da4ecdae1e44ad7f66bcc73e91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:28 +0000
Subject: [PATCH 24/58] fix: Trajectory.crop with an end time at or after the
 last sample kept one sample too few

---
 dmpbbo/dmps/Trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 2310f76..15c85b8 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -269,7 +269,7 @@ class Trajectory:
 
             if end >= self._ts[-1]:
                 # Time 'end' is larger than the last time in the trajectory
-                end = len(self._ts) - 1
+                end = len(self._ts)
             else:
                 # Get first index when time is smaller than 'end'
                 end = np.argmax(self._ts >= end)
-- 
2.43.0


From a86fc7b11e9d95296f7d336ea940485818b06aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:28 +0000
Subject: [PATCH 25/58] fix: Trajectory padding failed for some time steps

np.arange with a floating point step may return one element more than asked
for (e.g. dt=0.1, n_padding=3), so times and positions had different lengths.
---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 15c85b8..64c1835 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -282,7 +282,7 @@ class Trajectory:
             self._misc = self._misc[start:end, :]
 
     def pad_front(self, n_padding=100):
-        ts_padding = np.arange(0.0, n_padding*self._dt_mean, self._dt_mean)
+        ts_padding = np.arange(n_padding) * self._dt_mean
         ys_padding = np.tile(self.y_init, (n_padding, 1))
         prepend_traj = Trajectory(
             ts_padding,
@@ -293,7 +293,7 @@ class Trajectory:
         self.prepend(prepend_traj)
 
     def pad_end(self, n_padding=100):
-        ts_padding = np.arange(0.0, n_padding*self._dt_mean, self._dt_mean)
+        ts_padding = np.arange(n_padding) * self._dt_mean
         ys_padding = np.tile(self.y_final, (n_padding, 1))
         append_traj = Trajectory(
             ts_padding,
-- 
2.43.0


From 0756cbbbbf50a2eb751d70e7eec9f8f10a7ed26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:28 +0000
Subject: [PATCH 26/58] fix: Trajectory.prepend with a trajectory that does not
 start at time zero

The times were not increasing (or had a gap) where the trajectories meet.
---
 dmpbbo/dmps/Trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 64c1835..f805afa 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -450,7 +450,7 @@ class Trajectory:
         @param trajectory:  The trajectory to append.
         """
         self.set_start_time_to_zero()
-        self.ts[:] += trajectory.duration + trajectory._dt_mean
+        self.ts[:] += trajectory.ts[-1] + trajectory._dt_mean
         self._ts = np.concatenate((trajectory.ts, self._ts))
         self._ys = np.concatenate((trajectory.ys, self._ys))
         self._yds = np.concatenate((trajectory.yds, self._yds))
-- 
2.43.0


From 75acb5727cab262838740d1e8402534b27be47d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:28 +0000
Subject: [PATCH 27/58] fix: Trajectory.from_min_jerk with times that do not
 start at zero did not start in y_from

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index f805afa..bb1ef06 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -408,8 +408,8 @@ class Trajectory:
         yds = np.zeros([n_time_steps, n_dims])
         ydds = np.zeros([n_time_steps, n_dims])
 
-        D = ts[n_time_steps - 1]  # noqa
-        tss = ts / D
+        D = ts[n_time_steps - 1] - ts[0]  # noqa
+        tss = (ts - ts[0]) / D
 
         A = y_to - y_from  # noqa
 
-- 
2.43.0


From 54f0f805be8a7f195533cac55d53d9b758d8e358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:28 +0000
Subject: [PATCH 28/58] fix: Trajectory.from_polynomial velocities and
 accelerations at the boundaries

They were only those asked for if the duration was 1; with a viapoint the
velocity jumped at the viapoint.
---
 dmpbbo/dmps/Trajectory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index bb1ef06..89acbcd 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -316,6 +316,11 @@ class Trajectory:
         @param ydd_to: Final accelerations
         @return:
         """
+        # The polynomial is in normalized time, i.e. scale (d/dt) with duration
+        duration = ts[ts.size - 1] - ts[0]
+        yd_from, yd_to = yd_from * duration, yd_to * duration
+        ydd_from, ydd_to = ydd_from * pow(duration, 2), ydd_to * pow(duration, 2)
+
         a0 = y_from
         a1 = yd_from
         a2 = ydd_from / 2
-- 
2.43.0


From 2e73b5d78f57faddf6f472396f15f5a9d6960e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:28 +0000
Subject: [PATCH 29/58] fix: Trajectory with one-dimensional misc variables

Positions, velocities and accelerations are converted to one column, misc was
not: dim_misc and crop raised.
---
 dmpbbo/dmps/Trajectory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 89acbcd..31aa7ae 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -56,6 +56,8 @@ class Trajectory:
         if misc is not None:
             if n_time_steps != misc.shape[0]:
                 raise ValueError("misc.shape[0] must have size {n_time_steps}")
+            if misc.ndim == 1:
+                misc = misc.reshape((n_time_steps, 1))
 
         self._dim = 1
         if ys.ndim == 2:
@@ -150,6 +152,8 @@ class Trajectory:
     def misc(self, new_misc):
         if new_misc.shape[0] != self.length:
             raise ValueError("new_misc.shape[0] must have size {self.length}")
+        if new_misc.ndim == 1:
+            new_misc = new_misc.reshape((self.length, 1))
         self._misc = new_misc
 
     def has_misc(self):
-- 
2.43.0


From 8fef2cf73c3c1299676f5bfe156227e133da7543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:28 +0000
Subject: [PATCH 30/58] fix: Trajectory.dt_mean was stale after append, prepend
 and crop

Derivatives recomputed afterwards used the time step of the original trajectory.
---
 dmpbbo/dmps/Trajectory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 31aa7ae..dd7e660 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -284,6 +284,8 @@ class Trajectory:
         self._ydds = self._ydds[start:end, :]
         if self._misc is not None:
             self._misc = self._misc[start:end, :]
+        if self._ts.size > 1:
+            self._dt_mean = np.mean(np.diff(self._ts))
 
     def pad_front(self, n_padding=100):
         ts_padding = np.arange(n_padding) * self._dt_mean
@@ -451,6 +453,8 @@ class Trajectory:
             self._misc = None
         else:
             self._misc = np.concatenate((self._misc, trajectory.misc))
+        self._dt_mean = np.mean(np.diff(self._ts))
+
     def prepend(self, trajectory):
         """ Prepend another trajectory to this one.
 
@@ -468,6 +472,7 @@ class Trajectory:
             self._misc = None
         else:
             self._misc = np.concatenate((trajectory.misc, self._misc))
+        self._dt_mean = np.mean(np.diff(self._ts))
 
     def as_matrix(self):
         """ Return the trajectory as a matrix.
-- 
2.43.0


From c79affc8721bfd74da282964e7d1bfc9d568d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:10:24 +0000
Subject: [PATCH 31/58] fix: Trajectory.from_polynomial with a non-zero initial
 acceleration missed the final state

The coefficients of the quintic polynomial were wrong for the initial
acceleration: neither final position, velocity nor acceleration was reached.
---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index dd7e660..f9de588 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -331,8 +331,8 @@ class Trajectory:
         a1 = yd_from
         a2 = ydd_from / 2
 
-        a3 = -10 * y_from - 6 * yd_from - 2.5 * ydd_from + 10 * y_to - 4 * yd_to + 0.5 * ydd_to
-        a4 = 15 * y_from + 8 * yd_from + 2 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to
+        a3 = -10 * y_from - 6 * yd_from - 1.5 * ydd_from + 10 * y_to - 4 * yd_to + 0.5 * ydd_to
+        a4 = 15 * y_from + 8 * yd_from + 1.5 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to
         a5 = -6 * y_from - 3 * yd_from - 0.5 * ydd_from + 6 * y_to - 3 * yd_to + 0.5 * ydd_to
 
         n_time_steps = ts.size
-- 
2.43.0


From c15993eb3e9e5e1f3460c5d613c54114dc706b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:54 +0000
Subject: [PATCH 32/58] fix: Trajectory.prepend with a trajectory of one time
 step, e.g. pad_front(1), gave nan times

---
 dmpbbo/dmps/Trajectory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index f9de588..8fd3b36 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -463,7 +463,8 @@ class Trajectory:
         @param trajectory:  The trajectory to append.
         """
         self.set_start_time_to_zero()
-        self.ts[:] += trajectory.ts[-1] + trajectory._dt_mean
+        dt = trajectory._dt_mean if trajectory.length > 1 else self._dt_mean
+        self.ts[:] += trajectory.ts[-1] + dt
         self._ts = np.concatenate((trajectory.ts, self._ts))
         self._ys = np.concatenate((trajectory.ys, self._ys))
         self._yds = np.concatenate((trajectory.yds, self._yds))
-- 
2.43.0


From d15708203f589a3c565b2db0649eb4d4b1753c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:19 +0000
Subject: [PATCH 33/58] fix: CMA-ES weights failed with fewer samples than
 elite samples

---
 dmpbbo/bbo/updaters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/updaters.py b/dmpbbo/bbo/updaters.py
index d1ff0aa..a6c4ef7 100644
--- a/dmpbbo/bbo/updaters.py
+++ b/dmpbbo/bbo/updaters.py
@@ -249,7 +249,7 @@ def costs_to_weights(costs, weighting_method, eliteness):
             weights[indices[0:mu]] = 1.0 / mu
         else:
             # CMA-ES
-            for ii in range(mu):
+            for ii in range(min(mu, costs.size)):
                 weights[indices[ii]] = np.log(mu + 0.5) - np.log(ii + 1)
 
     else:
-- 
2.43.0


From 4e1ae7053d810d4b006e87630b9757a95baf1721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:40:37 +0000
Subject: [PATCH 34/58] fix: DistributionGaussianBounded without bounds could
 not be sampled

---
 dmpbbo/bbo/DistributionGaussianBounded.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dmpbbo/bbo/DistributionGaussianBounded.py b/dmpbbo/bbo/DistributionGaussianBounded.py
index 59b451f..3a9dc16 100644
--- a/dmpbbo/bbo/DistributionGaussianBounded.py
+++ b/dmpbbo/bbo/DistributionGaussianBounded.py
@@ -43,5 +43,7 @@ class DistributionGaussianBounded(DistributionGaussian):
 
     def generate_samples(self, n_samples=1):
         samples = super().generate_samples(n_samples)
+        if self.lower_bound is None and self.upper_bound is None:
+            return samples
         clipped_samples = samples.clip(self.lower_bound, self.upper_bound)
         return clipped_samples
-- 
2.43.0


From e697d1e335ae721562d8f6e1f7f4f4f310596a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:50:43 +0000
Subject: [PATCH 35/58] fix: asking a session for an object loaded from file
 returns a copy

---
 dmpbbo/bbo/LearningSession.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index e04ad95..0d00281 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -390,7 +390,7 @@ class LearningSession:
 
             self._cache[basename] = obj
 
-            return obj
+            return copy.deepcopy(obj)
 
     def tell(self, obj, name, i_update=None, i_sample=None):
         """ Add an object to the database.
-- 
2.43.0


From 5db987894f90e535af776f24c511b7de47545f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:50:43 +0000
Subject: [PATCH 36/58] fix: numpy integers as update and sample numbers in
 learning sessions

---
 dmpbbo/bbo/LearningSession.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 0d00281..8f53c6d 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -324,14 +324,14 @@ class LearningSession:
         @param i_sample:  The sample number to be prepended
         @return: The basename of a file.
         """
-        if isinstance(i_sample, int):
+        if isinstance(i_sample, (int, np.integer)):
             basename = f"{i_sample:03d}_{name}"  # e.g. 0 => "000_name"
         elif i_sample:
             basename = f"{i_sample}_{name}"  # e.g. "eval" => "eval_name"
         else:
             basename = name
 
-        if isinstance(i_update, int):
+        if isinstance(i_update, (int, np.integer)):
             # e.g. "update00023/000_name"
             basename = Path(f"update{i_update:05d}", basename)
 
-- 
2.43.0


From 5beb73e1036a4656c5d9d6314d0a38959bcc1024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:50:43 +0000
Subject: [PATCH 37/58] fix: number of updates in a learning session counts all
 updates performed

---
 dmpbbo/bbo/LearningSession.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 8f53c6d..80a8631 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -22,7 +22,6 @@ import copy
 import inspect
 import os
 import warnings
-from glob import glob
 from pathlib import Path
 
 import jsonpickle
@@ -240,7 +239,6 @@ class LearningSession:
         self._n_samples_per_update = n_samples_per_update
         self._root_dir = root_directory
         self._cache = {}
-        self._last_update_added = None
 
         self.tell(n_samples_per_update, "n_samples_per_update")
 
@@ -294,20 +292,17 @@ class LearningSession:
         self.tell(weights, "weights", i_update)
         if distribution_new is not None:
             self.tell(distribution_new, "distribution_new", i_update)
-        self._last_update_added = i_update
 
     def get_n_updates(self):
         """ Get the number of updates that have already been performed.
 
         @return: The number of updates that have already been performed.
         """
-        if not self._root_dir:
-            return self._last_update_added
-        else:
-            update_dirs = sorted(glob(str(Path(self._root_dir, "update")) + "[0-9]*"))
-            last_dir = update_dirs[-1]
-            update_str = Path(last_dir).name.replace("update", "")
-            return int(update_str)
+        # The weights are known once an update has been performed
+        n_updates = 0
+        while self.exists("weights", n_updates):
+            n_updates += 1
+        return n_updates
 
     @staticmethod
     def get_base_name(name, i_update=None, i_sample=None):
-- 
2.43.0


From 0aae6db24aff8fb26437a5bcc37584fb939dafb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:50:43 +0000
Subject: [PATCH 38/58] fix: evaluation costs of step-by-step optimization are
 part of the learning curve

---
 dmpbbo/bbo/LearningSession.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 80a8631..625b71f 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -450,9 +450,13 @@ class LearningSession:
         @param i_update:  The update numbers
         @return: The costs for that update.
         """
-        has_eval = self.exists("cost", 0, "eval")
+        # run_optimization stores "cost", step-by-step optimization stores "costs"
+        for name in ["cost", "costs"]:
+            has_eval = self.exists(name, i_update, "eval")
+            if has_eval:
+                break
         if has_eval:
-            cost_eval = self.ask("cost", i_update, "eval")
+            cost_eval = self.ask(name, i_update, "eval")
             # Evaluation at the beginning of an update
             i_sample = i_update * self._n_samples_per_update
         else:
-- 
2.43.0


From c575280350999b53554c69ba20860258b623439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:50:43 +0000
Subject: [PATCH 39/58] fix: the directory of an update exists before a Dmp is
 written to it

---
 dmpbbo/bbo_of_dmps/LearningSessionTask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/bbo_of_dmps/LearningSessionTask.py b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
index e92d1ad..01413bc 100644
--- a/dmpbbo/bbo_of_dmps/LearningSessionTask.py
+++ b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
@@ -50,6 +50,8 @@ class LearningSessionTask(LearningSession):
         @param i_update:  The update number
         @param i_sample:  The sample number
         """
+        filename = super().tell(obj, name, i_update, i_sample)
+
         # If it's a Dmp, save it in a C++-readable format also
         if "dmp" in name:
             if self._root_dir is not None:
@@ -58,7 +60,6 @@ class LearningSessionTask(LearningSession):
                 jc.savejson(f"{abs_basename}.json", obj)
                 jc.savejson_for_cpp(f"{abs_basename}_for_cpp.json", obj)
 
-        filename = super().tell(obj, name, i_update, i_sample)
         return filename
 
     def add_rollout(self, i_update, i_sample, sample, cost_vars, cost):
-- 
2.43.0


From 566e6852a0573c215cad58edbd6ef75ec5054445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:50:43 +0000
Subject: [PATCH 40/58] fix: an object told again replaces the previous one on
 disk

---
 dmpbbo/bbo/LearningSession.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 625b71f..62d6256 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -414,6 +414,11 @@ class LearningSession:
         # Make sure directory exists
         os.makedirs(os.path.dirname(abs_basename), exist_ok=True)
 
+        # Remove what was saved previously, which may have had another extension
+        for extension in ["json", "txt", "csv"]:
+            if os.path.isfile(f"{abs_basename}.{extension}"):
+                os.remove(f"{abs_basename}.{extension}")
+
         if isinstance(obj, (np.ndarray, list, int)):
             filename = f"{abs_basename}.txt"
             np.savetxt(filename, np.atleast_1d(obj))  # noqa
-- 
2.43.0


From 0d68a1f45bebfdbbb8677d416e34cffb2b8fbaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:50:43 +0000
Subject: [PATCH 41/58] fix: plotting a learning curve does not change the
 labels passed

---
 dmpbbo/bbo/LearningSession.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 62d6256..522e04b 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -111,8 +111,7 @@ def plot_learning_curve(learning_curve, **kwargs):
     ax.set_title("Learning curve")
 
     if cost_labels is not None:
-        cost_labels.insert(0, "total cost")
-        plt.legend(lines, cost_labels)
+        plt.legend(lines, ["total cost", *cost_labels])
 
     plot_update_lines(samples_eval, ax)
 
-- 
2.43.0


From 689ec2993956fec38ae398a0f18705e6ae13f943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:59:54 +0000
Subject: [PATCH 42/58] fix: cost ratio and learning curve plot with only one
 cost (component)

---
 dmpbbo/bbo/LearningSession.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 522e04b..ce14b66 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -446,7 +446,7 @@ class LearningSession:
     def get_cost_ratio(self):
         before, after = self.get_eval_cost_before_after()
         # Only use total cost, not the cost components
-        return after[0] / before[0]
+        return np.atleast_1d(after)[0] / np.atleast_1d(before)[0]
 
     def get_eval_costs(self, i_update):
         """ Get the evaluation cost for a given update.
@@ -528,7 +528,7 @@ class LearningSession:
         costs = []
         for i_update in range(self.get_n_updates()):
             sample_costs = self.get_sample_costs(i_update)
-            costs.extend([c[0] for c in sample_costs])  # Only include sum
+            costs.extend([np.atleast_1d(c)[0] for c in sample_costs])  # Only include sum
         ax.plot(costs, ".", color="gray")
 
         # Plot learning curve itself
-- 
2.43.0


From 8712a9449173554faef39c3eeeec09c2d548c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:26:17 +0000
Subject: [PATCH 43/58] fix: WLS and LWR accept targets given as a column for
 multi-dimensional inputs

---
 dmpbbo/functionapproximators/FunctionApproximatorLWR.py | 2 +-
 dmpbbo/functionapproximators/FunctionApproximatorWLS.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
index 91e25f2..8dffc51 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
@@ -65,7 +65,7 @@ class FunctionApproximatorLWR(FunctionApproximator):
             weights = activations[:, i_kernel]
             wls_model_params = fa_lws.train(inputs, targets, weights=weights)
 
-            slopes[i_kernel, :] = wls_model_params["slope"]
+            slopes[i_kernel, :] = wls_model_params["slope"].reshape(-1)
             offsets[i_kernel] = wls_model_params["offset"]
 
         model_params["offsets"] = offsets
diff --git a/dmpbbo/functionapproximators/FunctionApproximatorWLS.py b/dmpbbo/functionapproximators/FunctionApproximatorWLS.py
index 7e03e70..fdb4e0c 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorWLS.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorWLS.py
@@ -98,7 +98,7 @@ class FunctionApproximatorWLS(FunctionApproximator):
 
         # Apparently, not everybody has python3.5 installed, so don't use @
         # lines[:,i_line] =  inputs@slopes[i_line,:].T + offsets[i_line]
-        outputs = np.dot(inputs, slope.T) + offset
+        outputs = np.dot(inputs, slope) + offset
 
         return outputs
 
-- 
2.43.0


From 24457dba9223dcb7e6412d7d1a52e9fc346343e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:59 +0000
Subject: [PATCH 44/58] fix: vectors can be read from JSON with newer versions
 of nlohmann::json

---
 src/eigenutils/eigen_json.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/eigenutils/eigen_json.hpp b/src/eigenutils/eigen_json.hpp
index 9b7008e..bae5ed6 100644
--- a/src/eigenutils/eigen_json.hpp
+++ b/src/eigenutils/eigen_json.hpp
@@ -44,6 +44,21 @@ void to_json(nlohmann::json& j, const MatrixBase<Derived>& matrix);
 template <typename Derived>
 void from_json(const nlohmann::json& j, MatrixBase<Derived>& matrix);
 
+/** Parse a matrix from json.
+ * nlohmann::json takes vectors for containers of the standard library, unless
+ * there is a function for exactly this type.
+ * \param[in] j The json input
+ * \param[out] matrix The parsed matrix
+ */
+template <typename Scalar, int Rows, int Cols, int Options, int MaxRows,
+          int MaxCols>
+void from_json(const nlohmann::json& j,
+               Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>& matrix)
+{
+  from_json(j, static_cast<MatrixBase<Matrix<Scalar, Rows, Cols, Options,
+                                             MaxRows, MaxCols>>&>(matrix));
+}
+
 template <typename Derived>
 void to_json(nlohmann::json& j, const MatrixBase<Derived>& matrix)
 {
-- 
2.43.0


From fa1dd3f7cfaf88343528798d82559b6c7cd9d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:59 +0000
Subject: [PATCH 45/58] fix: set_y_init of a C++ SigmoidSystem updates the
 cached saturation levels

---
 src/dynamicalsystems/SigmoidSystem.cpp | 5 +++++
 src/dynamicalsystems/SigmoidSystem.hpp | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/dynamicalsystems/SigmoidSystem.cpp b/src/dynamicalsystems/SigmoidSystem.cpp
index 0cd2dfd..a1639dd 100644
--- a/src/dynamicalsystems/SigmoidSystem.cpp
+++ b/src/dynamicalsystems/SigmoidSystem.cpp
@@ -62,6 +62,11 @@ void SigmoidSystem::set_x_init(const VectorXd& x_init)
   Ks_ = SigmoidSystem::computeKs(x_init, max_rate_, inflection_point_time);
 }
 
+void SigmoidSystem::set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init)
+{
+  set_x_init(y_init);  // Order 1 system: x and y are the same
+}
+
 VectorXd SigmoidSystem::computeKs(const VectorXd& N_0s, double r,
                                   double inflection_point_time_time)
 {
diff --git a/src/dynamicalsystems/SigmoidSystem.hpp b/src/dynamicalsystems/SigmoidSystem.hpp
index a084fce..b8537cd 100644
--- a/src/dynamicalsystems/SigmoidSystem.hpp
+++ b/src/dynamicalsystems/SigmoidSystem.hpp
@@ -63,6 +63,7 @@ class SigmoidSystem : public DynamicalSystem {
 
   void set_tau(double tau);
   void set_x_init(const Eigen::VectorXd& x_init);
+  void set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init);
 
   /** Read an object from json.
    *  \param[in]  j   json input
-- 
2.43.0


From 4b1f79c25fe7ea08af52f45afcae65913891a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:59 +0000
Subject: [PATCH 46/58] fix: initial velocity in the analytical solution of the
 C++ SpringDamperSystem is z/tau

---
 src/dynamicalsystems/SpringDamperSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index b170029..44e74f9 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -124,7 +124,7 @@ void SpringDamperSystem::analyticalSolution(const VectorXd& ts, MatrixXd& xs,
   // Eigen::replicate().
   for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
     double y0 = x_ini[i_dim] - y_attr_[i_dim];
-    double yd0 = x_ini[dim_y() + i_dim];
+    double yd0 = x_ini[dim_y() + i_dim] / tau();  // yd = z/tau
 
     double A = y0;
     double B = yd0 + omega_0 * y0;
-- 
2.43.0


From fb934f5e878c72bf1125afd3e3e6fe1fef05880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:59 +0000
Subject: [PATCH 47/58] fix: a C++ SpringDamperSystem read from JSON keeps its
 initial velocity

---
 src/dynamicalsystems/SpringDamperSystem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index 44e74f9..e023bb7 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -174,6 +174,7 @@ void from_json(const nlohmann::json& j, SpringDamperSystem*& obj)
 
   obj = new SpringDamperSystem(tau, y_init, y_attr, damping_coefficient,
                                spring_constant, mass);
+  obj->set_x_init(x_init);  // Including the z part
 }
 
 void SpringDamperSystem::to_json_helper(nlohmann::json& j) const
-- 
2.43.0


From 6c8eea122962f83e0621a71e1f31884424761e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:59 +0000
Subject: [PATCH 48/58] fix: C++ Dmp::set_y_init sets the initial state of the
 movement, however it is called

---
 src/dmp/Dmp.cpp |  2 +-
 src/dmp/Dmp.hpp | 10 +---------
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 6a752e4..5a2778b 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -521,7 +521,7 @@ void Dmp::set_tau(double tau)
   gating_system_->set_tau(tau);
 }
 
-void Dmp::set_y_init(const Eigen::VectorXd& y_init)
+void Dmp::set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init)
 {
   assert(y_init.size() == dim_y());
   DynamicalSystem::set_y_init(y_init);
diff --git a/src/dmp/Dmp.hpp b/src/dmp/Dmp.hpp
index 49a7838..e22792e 100644
--- a/src/dmp/Dmp.hpp
+++ b/src/dmp/Dmp.hpp
@@ -284,7 +284,7 @@ class Dmp : public DynamicalSystem {
    * We need to override DynamicalSystem::set_initial_state, because the DMP
    * must also change the initial state  of the goal system as well.
    */
-  virtual void set_y_init(const Eigen::VectorXd& y_init);
+  virtual void set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init);
 
   /** Get the attractor state of the system.
    *  \param[in] y_attr Attractor state of the system.
@@ -350,14 +350,6 @@ class Dmp : public DynamicalSystem {
     y_init = x_init().segment(0, dim_y());
   }
 
-  /** Set the initial state of the dynamical system.
-   *  \param[in] y_init Initial state of the dynamical system.
-   */
-  inline void set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init)
-  {
-    set_x_init(y_init);
-  }
-
   /** Read an object from json.
    *  \param[in]  j json input
    *  \param[out] obj The object read from json
-- 
2.43.0


From f5865f70c9b8c4e01d4b83a5890fbcd68cc7d323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:59 +0000
Subject: [PATCH 49/58] fix: a C++ Dmp without goal system can be read from
 JSON

---
 src/dmp/Dmp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 5a2778b..6660557 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -553,9 +553,10 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   // from_json(j.at("_y_init"), y_init);
   // from_json(j.at("_y_attr"), y_attr);
 
-  ExponentialSystem* goal_system;
+  ExponentialSystem* goal_system = NULL;
   DynamicalSystem *phase_system, *gating_system;
-  goal_system = j.at("_goal_system").get<ExponentialSystem*>();
+  if (!j.at("_goal_system").is_null())
+    goal_system = j.at("_goal_system").get<ExponentialSystem*>();
   phase_system = j.at("_phase_system").get<DynamicalSystem*>();
   gating_system = j.at("_gating_system").get<DynamicalSystem*>();
 
-- 
2.43.0


From 5a599f14e8d3f0f5de2fa2323bee90ac3dc59702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:59 +0000
Subject: [PATCH 50/58] fix: a C++ Dmp without function approximators can be
 read and integrated

---
 src/dmp/Dmp.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 6660557..3605050 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -306,7 +306,10 @@ void Dmp::differentialEquation(const Eigen::Ref<const Eigen::VectorXd>& x,
   gating_system_->differentialEquation(x.GATING, xd.GATING);
 
   // Compute output of the funciton approximators
-  for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
+  fa_output_prealloc_.fill(0.0);
+  for (unsigned int i_dim = 0; i_dim < function_approximators_.size();
+       i_dim++) {
+    if (function_approximators_[i_dim] == NULL) continue;
     function_approximators_[i_dim]->predictRealTime(x.PHASE,
                                                     fa_output_one_prealloc_);
     fa_output_prealloc_(0, i_dim) = fa_output_one_prealloc_(0, 0);
@@ -419,7 +422,9 @@ void Dmp::analyticalSolution(const Eigen::VectorXd& ts, Eigen::MatrixXd& xs,
   fa_outputs.fill(0.0);
 
   MatrixXd fa_output_one_dim(n_time_steps, 1);
-  for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
+  for (unsigned int i_dim = 0; i_dim < function_approximators_.size();
+       i_dim++) {
+    if (function_approximators_[i_dim] == NULL) continue;
     function_approximators_[i_dim]->predict(xs_phase, fa_output_one_dim);
     fa_outputs.col(i_dim) = fa_output_one_dim;
   }
@@ -566,7 +571,7 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   int n_dims = y_attr.size();
   vector<FunctionApproximator*> function_approximators;
   const auto& jrow = j.at("_function_approximators");
-  if (jrow.is_array()) {
+  if (jrow.is_array() && !jrow.empty()) {
     for (int i_dim = 0; i_dim < n_dims; i_dim++) {
       FunctionApproximator* fa = jrow.at(i_dim).get<FunctionApproximator*>();
       function_approximators.push_back(fa);
-- 
2.43.0


From 861d547589de3211a74d6fc28539d64fb37b319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:59 +0000
Subject: [PATCH 51/58] fix: a C++ Dmp keeps the spring constant and mass of
 its spring-damper system

---
 src/dmp/Dmp.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 3605050..0c0edcb 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -472,8 +472,9 @@ void Dmp::analyticalSolution(const Eigen::VectorXd& ts, Eigen::MatrixXd& xs,
   // THE REST CANNOT BE DONE ANALYTICALLY
 
   // Reset the dynamical system, and get the first state
-  double damping = spring_system_->damping_coefficient();
-  SpringDamperSystem localspring_system_(tau(), y_init(), y_attr_, damping);
+  SpringDamperSystem localspring_system_(
+      tau(), y_init(), y_attr_, spring_system_->damping_coefficient(),
+      spring_system_->spring_constant(), spring_system_->mass());
 
   // Set first attractor state
   localspring_system_.set_y_attr(xs_goal.row(0));
@@ -581,6 +582,11 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   obj = new Dmp(tau, y_init, y_attr, function_approximators,
                 alpha_spring_damper, goal_system, phase_system, gating_system,
                 forcing_term_scaling, scaling_amplitudes);
+
+  double spring_constant = j.at("_spring_system").at("spring_constant");
+  double mass = j.at("_spring_system").at("mass");
+  obj->spring_system_->set_spring_constant(spring_constant);
+  obj->spring_system_->set_mass(mass);
 }
 
 void Dmp::to_json_helper(nlohmann::json& j) const
-- 
2.43.0


From 129f94b213c0bb5088c5ea2b9ebc5799d831f1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:55:59 +0000
Subject: [PATCH 52/58] fix: all constructors of the C++ Dmp reserve the state
 for the subsystems

---
 src/dmp/Dmp.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 0c0edcb..dde7acc 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -104,7 +104,7 @@ Dmp::Dmp(int n_dims_dmp,
          double alpha_spring_damper, ExponentialSystem* goal_system,
          DynamicalSystem* phase_system, DynamicalSystem* gating_system,
          std::string scaling, Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, 1.0, VectorXd::Zero(n_dims_dmp)),
+    : DynamicalSystem(1.0, VectorXd::Zero(n_dims_dmp), 3 * n_dims_dmp + 2),
       y_attr_(VectorXd::Ones(n_dims_dmp)),
       goal_system_(goal_system),
       phase_system_(phase_system),
@@ -120,7 +120,7 @@ Dmp::Dmp(double tau, Eigen::VectorXd y_init, Eigen::VectorXd y_attr,
          std::vector<FunctionApproximator*> function_approximators,
          std::string dmp_type, std::string scaling,
          Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, tau, y_init),
+    : DynamicalSystem(tau, y_init, 3 * y_init.size() + 2),
       y_attr_(y_attr),
       forcing_term_scaling_(scaling),
       scaling_amplitudes_(scaling_amplitudes)
@@ -133,7 +133,7 @@ Dmp::Dmp(int n_dims_dmp,
          std::vector<FunctionApproximator*> function_approximators,
          std::string dmp_type, std::string scaling,
          Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, 1.0, VectorXd::Zero(n_dims_dmp)),
+    : DynamicalSystem(1.0, VectorXd::Zero(n_dims_dmp), 3 * n_dims_dmp + 2),
       y_attr_(VectorXd::Ones(n_dims_dmp)),
       forcing_term_scaling_(scaling),
       scaling_amplitudes_(scaling_amplitudes)
@@ -144,7 +144,7 @@ Dmp::Dmp(int n_dims_dmp,
 
 Dmp::Dmp(double tau, Eigen::VectorXd y_init, Eigen::VectorXd y_attr,
          double alpha_spring_damper, ExponentialSystem* goal_system)
-    : DynamicalSystem(1, tau, y_init),
+    : DynamicalSystem(tau, y_init, 3 * y_init.size() + 2),
       y_attr_(y_attr),
       forcing_term_scaling_("NO_SCALING"),
       scaling_amplitudes_(VectorXd::Zero(0))
@@ -175,7 +175,7 @@ void Dmp::initSubSystems(std::string dmp_type)
   } else if (dmp_type == "KULVICIUS_2012_JOINING" ||
              dmp_type == "COUNTDOWN_2013") {
     goal_system = new ExponentialSystem(tau(), y_init(), y_attr_, 15);
-    gating_system = new SigmoidSystem(tau(), one_1, -10, 0.9 * tau());
+    gating_system = new SigmoidSystem(tau(), one_1, -10, 0.9);
     bool count_down = (dmp_type == "COUNTDOWN_2013");
     phase_system = new TimeSystem(tau(), count_down);
   }
-- 
2.43.0


From 2e9c1cc642e0202b25440d2daf8e41ee661fb1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:56:39 +0000
Subject: [PATCH 53/58] fix: a C++ minimum-jerk trajectory starts at its first
 time, whatever that is

---
 src/dmp/Trajectory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index be4b8cb..821b6a6 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -149,8 +149,8 @@ Trajectory Trajectory::generateMinJerkTrajectory(const VectorXd& ts,
   MatrixXd ys(n_time_steps, n_dims), yds(n_time_steps, n_dims),
       ydds(n_time_steps, n_dims);
 
-  double D = ts[n_time_steps - 1];
-  ArrayXd tss = (ts / D).array();
+  double D = ts[n_time_steps - 1] - ts[0];
+  ArrayXd tss = (ts.array() - ts[0]) / D;
 
   ArrayXd A = y_to.array() - y_from.array();
 
-- 
2.43.0


From 80949dd3225d6083626f5ad4583d23050943b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:56:57 +0000
Subject: [PATCH 54/58] fix: a C++ polynomial trajectory with an initial
 acceleration missed the final state

---
 src/dmp/Trajectory.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index 821b6a6..5e83b1d 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -180,10 +180,11 @@ Trajectory Trajectory::generatePolynomialTrajectory(
   VectorXd a1 = yd_from;
   VectorXd a2 = ydd_from / 2;
 
-  VectorXd a3 = -10 * y_from - 6 * yd_from - 2.5 * ydd_from + 10 * y_to -
+  VectorXd a3 = -10 * y_from - 6 * yd_from - 1.5 * ydd_from + 10 * y_to -
                 4 * yd_to + 0.5 * ydd_to;
   VectorXd a4 =
-      15 * y_from + 8 * yd_from + 2 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to;
+      15 * y_from + 8 * yd_from + 1.5 * ydd_from - 15 * y_to + 7 * yd_to -
+      ydd_to;
   VectorXd a5 = -6 * y_from - 3 * yd_from - 0.5 * ydd_from + 6 * y_to -
                 3 * yd_to + 0.5 * ydd_to;
 
-- 
2.43.0


From 17746e03b874814ed62e492a01cbef4779aad0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:56:57 +0000
Subject: [PATCH 55/58] fix: velocities and accelerations at the ends of a C++
 polynomial trajectory

---
 src/dmp/Trajectory.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index 5e83b1d..2a540ef 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -176,20 +176,27 @@ Trajectory Trajectory::generatePolynomialTrajectory(
     const VectorXd& ydd_from, const VectorXd& y_to, const VectorXd& yd_to,
     const VectorXd& ydd_to)
 {
+  int n_time_steps = ts.size();
+  int n_dims = y_from.size();
+
+  // The polynomial below is a function of the time divided by the duration;
+  // scale velocities and accelerations accordingly.
+  double D = ts[n_time_steps - 1] - ts[0];
+  VectorXd v_from = D * yd_from;
+  VectorXd v_to = D * yd_to;
+  VectorXd acc_from = D * D * ydd_from;
+  VectorXd acc_to = D * D * ydd_to;
+
   VectorXd a0 = y_from;
-  VectorXd a1 = yd_from;
-  VectorXd a2 = ydd_from / 2;
+  VectorXd a1 = v_from;
+  VectorXd a2 = acc_from / 2;
 
-  VectorXd a3 = -10 * y_from - 6 * yd_from - 1.5 * ydd_from + 10 * y_to -
-                4 * yd_to + 0.5 * ydd_to;
+  VectorXd a3 = -10 * y_from - 6 * v_from - 1.5 * acc_from + 10 * y_to -
+                4 * v_to + 0.5 * acc_to;
   VectorXd a4 =
-      15 * y_from + 8 * yd_from + 1.5 * ydd_from - 15 * y_to + 7 * yd_to -
-      ydd_to;
-  VectorXd a5 = -6 * y_from - 3 * yd_from - 0.5 * ydd_from + 6 * y_to -
-                3 * yd_to + 0.5 * ydd_to;
-
-  int n_time_steps = ts.size();
-  int n_dims = y_from.size();
+      15 * y_from + 8 * v_from + 1.5 * acc_from - 15 * y_to + 7 * v_to - acc_to;
+  VectorXd a5 = -6 * y_from - 3 * v_from - 0.5 * acc_from + 6 * y_to -
+                3 * v_to + 0.5 * acc_to;
 
   MatrixXd ys(n_time_steps, n_dims), yds(n_time_steps, n_dims),
       ydds(n_time_steps, n_dims);
-- 
2.43.0


From ef1cde585f02577bddcec51f91f035e21d095644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:57:33 +0000
Subject: [PATCH 56/58] fix: saving a matrix to a directory reports that it was
 not saved

---
 src/eigenutils/eigen_file_io.tpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/eigenutils/eigen_file_io.tpp b/src/eigenutils/eigen_file_io.tpp
index 5ecc4ab..382527a 100644
--- a/src/eigenutils/eigen_file_io.tpp
+++ b/src/eigenutils/eigen_file_io.tpp
@@ -93,9 +93,7 @@ inline bool saveMatrix(
   }
 
   filename = directory + "/" + filename;
-  saveMatrix(filename, matrix, overwrite);
-
-  return true;
+  return saveMatrix(filename, matrix, overwrite);
 }
 
 /** Save an Eigen matrix to an ASCII file.
-- 
2.43.0


From c611ec8b35c8b9d02ce182a9492a3902c813f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:14:27 +0000
Subject: [PATCH 57/58] fix: a C++ polynomial trajectory through a viapoint
 aborted on rounding errors

---
 src/dmp/Trajectory.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index 2a540ef..e521f5b 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -88,21 +88,11 @@ void Trajectory::append(const Trajectory& trajectory)
 
   assert(ts_[length() - 1] == trajectory.ts()[0]);
 
-  if (ys_.row(length() - 1).isZero() || trajectory.ys().row(0).isZero())
-    assert(ys_.row(length() - 1).isZero() && trajectory.ys().row(0).isZero());
-  else
-    assert(ys_.row(length() - 1).isApprox(trajectory.ys().row(0)));
-
-  if (yds_.row(length() - 1).isZero() || trajectory.yds().row(0).isZero())
-    assert(yds_.row(length() - 1).isZero() && trajectory.yds().row(0).isZero());
-  else
-    assert(yds_.row(length() - 1).isApprox(trajectory.yds().row(0)));
-
-  if (ydds_.row(length() - 1).isZero() || trajectory.ydds().row(0).isZero())
-    assert(ydds_.row(length() - 1).isZero() &&
-           trajectory.ydds().row(0).isZero());
-  else
-    assert(ydds_.row(length() - 1).isApprox(trajectory.ydds().row(0)));
+  // The rows at which the trajectories are joined must be the same, up to the
+  // rounding errors that accumulate when trajectories are generated.
+  assert((ys_.row(length() - 1) - trajectory.ys().row(0)).isZero(1e-6));
+  assert((yds_.row(length() - 1) - trajectory.yds().row(0)).isZero(1e-6));
+  assert((ydds_.row(length() - 1) - trajectory.ydds().row(0)).isZero(1e-6));
 
   int new_size = length() + trajectory.length() - 1;
 
-- 
2.43.0


From d64421553e91ad28fccfcf01fd21f7a535326541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:43:58 +0000
Subject: [PATCH 58/58] fix: the C++ DMP allocated memory in each step with
 G_MINUS_Y0_SCALING

Dmp::get_y_init(y_init), which exists to avoid it, copied the initial state.
---
 src/dmp/Dmp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.hpp b/src/dmp/Dmp.hpp
index e22792e..1d2fab8 100644
--- a/src/dmp/Dmp.hpp
+++ b/src/dmp/Dmp.hpp
@@ -347,7 +347,7 @@ class Dmp : public DynamicalSystem {
   inline void get_y_init(Eigen::VectorXd& y_init) const
   {
     // x = [y z etc], return only y part
-    y_init = x_init().segment(0, dim_y());
+    DynamicalSystem::get_y_init(y_init);
   }
 
   /** Read an object from json.
-- 
2.43.0

