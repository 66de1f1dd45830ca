From 66f61de9368c06d3e0385e9efbb02d5da7fbaed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 01/25] fix: pass constraint params when sample testing
 evaluates constraints

---
 run_time_assurance/utils/sample_testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/utils/sample_testing.py b/run_time_assurance/utils/sample_testing.py
index ef401b1..a51929b 100644
--- a/run_time_assurance/utils/sample_testing.py
+++ b/run_time_assurance/utils/sample_testing.py
@@ -276,7 +276,7 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
         """
 
         for c in self.rta.constraints.values():
-            if c.phi(to_jnp_array_jit(state)) < 0 or c(to_jnp_array_jit(state)) < 0:
+            if c.phi(to_jnp_array_jit(state), c.params) < 0 or c(to_jnp_array_jit(state), c.params) < 0:
                 return None
 
         done = False
@@ -293,7 +293,7 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
             done = self._check_done_conditions(state, current_time)
 
             for c in self.rta.constraints.values():
-                if c.phi(to_jnp_array_jit(state)) < 0:
+                if c.phi(to_jnp_array_jit(state), c.params) < 0:
                     return False
 
         return True
-- 
2.43.0


From 53d01ab18ca7d4d93ae21ddd8c3a208d5fc28e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 02/25] fix: apply the delta v backup control on the step that
 triggers the switch

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index eed26f3..a70b604 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -700,6 +700,7 @@ class SwitchingDeltaVLimitRTA(RTAModule):
         if not self.latched:
             pred_state = self._pred_state(input_state, step_size, control_desired)
             error_integral = self.error_integral
+            out = control_desired
             for _ in range(self.n_steps):
                 ub, error_integral = self.backup_control(
                     pred_state, step_size, error_integral
@@ -712,7 +713,7 @@ class SwitchingDeltaVLimitRTA(RTAModule):
                     self.latched = True
                     self.intervening = True
                     out = ub
-            out = control_desired
+                    break
         else:
             ub, self.error_integral = self.backup_control(
                 input_state, step_size, self.error_integral
-- 
2.43.0


From 69e29ad9be3b13618747cd1a907d039a4aea3723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 03/25] fix: restart the simplex latch timer whenever the
 module is not latched

---
 run_time_assurance/rta/simplex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 9a182e5..a651990 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -37,6 +37,7 @@ class SimplexModule(BackupControlBasedRTA):
         Also calls reset on the backup controller
         """
         super().reset()
+        self.latched_elapsed = 0.
         self.reset_backup_controller()
 
     def compose(self):
@@ -83,6 +84,7 @@ class SimplexModule(BackupControlBasedRTA):
             control = self.backup_control(state, step_size)
 
         else:
+            self.latched_elapsed = 0.
             self.intervening = self.monitor(state, step_size, control)
 
             if self.intervening:
-- 
2.43.0


From bf0b04ce576386ce03bbf704933d0d851429c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 04/25] fix: clear logged constraint values when a constraint
 based module is reset

---
 run_time_assurance/rta/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index 684412d..7f20f64 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -204,6 +204,14 @@ class ConstraintBasedRTA(RTAModule):
         self.constraint_enabled_dict = dict.fromkeys(self.constraints.keys())
         self._update_params()
 
+    def reset(self):
+        """Resets the rta module to the initial state at the beginning of an episode
+        Also clears the logged constraint values
+        """
+        super().reset()
+        self.constraint_values = {}
+        self.is_stale_constraints = False
+
     def _update_params(self):
         """Update the parameters for each constraint"""
         for k, c in self.constraints.items():
-- 
2.43.0


From 187214c03f3eb369f3828ab1f3df0e57a5cccfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 05/25] fix: reset every module of a cascade when the cascade
 is reset

---
 run_time_assurance/rta/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index 7f20f64..69c4ea5 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -372,6 +372,13 @@ class CascadedRTA(RTAModule):
         self.rta_list = self._setup_rta_list()
         super().__init__(*args, **kwargs)
 
+    def reset(self):
+        """Resets the cascade and every RTA module in it
+        """
+        super().reset()
+        for rta in self.rta_list:
+            rta.reset()
+
     def compute_filtered_control(self, input_state: Any, step_size: float, control_desired: np.ndarray) -> np.ndarray:
         self.intervening = False
         control = control_desired
-- 
2.43.0


From 437125df750b48d12d8614e9fcd3d57b7139417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 06/25] fix: reset the latch and error integral of the delta v
 limit module

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index a70b604..e252af0 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -686,6 +686,11 @@ class SwitchingDeltaVLimitRTA(RTAModule):
             **kwargs,
         )
 
+    def reset(self):
+        super().reset()
+        self.error_integral = np.zeros(6)
+        self.latched = False
+
     def _pred_state(
         self, state: np.ndarray, step_size: float, control: np.ndarray
     ) -> np.ndarray:
-- 
2.43.0


From 05c42f1df5ad35e950e6298c4575aa34f3a4a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 07/25] fix: reset the deputy module of the combined inspection
 module

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index f64e651..b6b518e 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -508,6 +508,10 @@ class CombinedInspectionRTA(RTAModule):
             **kwargs,
         )
 
+    def reset(self):
+        super().reset()
+        self.deputy_rta.reset()
+
     def compute_filtered_control(
         self, input_state: Any, step_size: float, control_desired: np.ndarray
     ) -> np.ndarray:
-- 
2.43.0


From 9027702a91f116d52a847e45f0b6620a436bfe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 08/25] fix: report intervention of any deputy from the
 combined inspection module

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index b6b518e..440dba5 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -515,6 +515,7 @@ class CombinedInspectionRTA(RTAModule):
     def compute_filtered_control(
         self, input_state: Any, step_size: float, control_desired: np.ndarray
     ) -> np.ndarray:
+        self.intervening = False
         u_act = np.zeros(self.num_deputies * 3)
         for i in range(self.num_deputies):
             u_des = control_desired[3 * i : 3 * i + 3]
@@ -522,6 +523,8 @@ class CombinedInspectionRTA(RTAModule):
             u_act[3 * i : 3 * i + 3] = self.deputy_rta.filter_control(
                 x_new, step_size, u_des
             )
+            if self.deputy_rta.intervening:
+                self.intervening = True
         return u_act
 
     def get_agent_state(self, state, i):
-- 
2.43.0


From 07650d2a83d146be0a32c5296687efd6539fd165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 09/25] fix: do not share one default deputy module between
 combined inspection modules

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 440dba5..2845e31 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -494,12 +494,14 @@ class CombinedInspectionRTA(RTAModule):
         self,
         *args: Any,
         num_deputies: int = NUM_DEPUTIES_DEFAULT,
-        deputy_rta: RTAModule = InspectionRTA(),
+        deputy_rta: RTAModule = None,
         control_bounds_high: Union[float, int, list, np.ndarray] = U_MAX_DEFAULT,
         control_bounds_low: Union[float, int, list, np.ndarray] = -U_MAX_DEFAULT,
         **kwargs: Any,
     ):
         self.num_deputies = num_deputies
+        if deputy_rta is None:
+            deputy_rta = InspectionRTA(num_deputies=num_deputies)
         self.deputy_rta = deputy_rta
         super().__init__(
             *args,
-- 
2.43.0


From 1cbe123e16a1c43cacb44805261f245fdf06a64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 10/25] fix: keep slack columns when subsampling implicit ASIF
 constraints

---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index d5b6ee6..55d2a55 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -720,7 +720,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         jnp.ndarray
             vector b of quadprog inequality constraint C.T x >= b
         """
-        new_ineq_weight_barrier = jnp.empty((0, self.control_dim))
+        new_ineq_weight_barrier = jnp.empty((0, self.control_dim + self.num_slack))
         new_ineq_constant_barrier = jnp.empty(0)
 
         for i, c in enumerate(self.constraints.values()):
-- 
2.43.0


From 3fff9e5c032fc9c48ffcce58cf3142e4b98d8948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 11/25] fix: do not drop the trajectory point after
 num_check_all when subsampling

---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 55d2a55..1161738 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -733,7 +733,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
             check_points = jnp.hstack(
                 (
                     jnp.array(range(0, c.subsample_config.num_check_all)),
-                    jnp.array(range(c.subsample_config.num_check_all + 1, num_steps, c.subsample_config.skip_length))
+                    jnp.array(range(max(c.subsample_config.num_check_all, 0), num_steps, c.subsample_config.skip_length))
                 )
             ).astype(int)
             tmp_ineq_weight_barrier = tmp_ineq_weight_barrier[check_points, :]
-- 
2.43.0


From 7c330167a434dbce0efc675765b1c389d9c612df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 12/25] fix: name implicit ASIF constraint rows after
 subsampling

---
 run_time_assurance/rta/asif.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 1161738..d728b6f 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -602,8 +602,8 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         if self.control_bounds_high is not None:
             idx += self.control_dim
         self.constraint_names = self.constraint_names[0:idx]
-        for k in self.constraints.keys():
-            self.constraint_names += [k] * num_steps
+        for k, c in self.constraints.items():
+            self.constraint_names += [k] * self._num_subsampled_points(c, num_steps)
         self.constraint_names += list(self.direct_inequality_constraints.keys())
 
         return ineq_weight, ineq_constant
@@ -764,6 +764,15 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
 
         return new_ineq_weight_barrier, new_ineq_constant_barrier
 
+    def _num_subsampled_points(self, constraint: ConstraintModule, num_steps: int) -> int:
+        """Number of trajectory points left for a constraint by subsample_constraints"""
+        config = constraint.subsample_config
+        num_points = len(range(0, config.num_check_all)) \
+            + len(range(max(config.num_check_all, 0), num_steps, config.skip_length))
+        if config.subsample_constraints_num_least is not None:
+            num_points = min(num_points, config.subsample_constraints_num_least)
+        return num_points + int(config.keep_first) + int(config.keep_last)
+
     def _get_constraint_ineq_mats(
         self, constraint: ConstraintModule, state: jnp.ndarray, traj_states: jnp.ndarray, traj_sensitivities: jnp.ndarray, params: dict
     ) -> tuple[jnp.ndarray, jnp.ndarray, Union[jnp.ndarray, float]]:
-- 
2.43.0


From f94f818bfa0b45825cd88898cf7ba8b4cc40a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 13/25] fix: clear constraints causing intervention before each
 solve and on reset

---
 run_time_assurance/rta/asif.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index d728b6f..4404da5 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -97,6 +97,12 @@ class ASIFModule(BaseOptimizationModule):
         self.constraints_causing_intervention = None
         self.constraint_names += list(self.constraints.keys()) + list(self.direct_inequality_constraints.keys())
 
+    def reset(self):
+        """Resets the rta module to the initial state at the beginning of an episode
+        """
+        super().reset()
+        self.constraints_causing_intervention = None
+
     def _update_direct_inequality_params(self):
         """Update the parameters for each constraint"""
         for k, c in self.direct_inequality_constraints.items():
@@ -243,6 +249,7 @@ class ASIFModule(BaseOptimizationModule):
             Actual control solved by QP
         """
         obj_constant = np.concatenate((obj_constant, np.zeros(self.num_slack)))
+        self.constraints_causing_intervention = []
         try:
             opt = quadprog.solve_qp(
                 obj_weight, obj_constant, np.array(ineq_weight, dtype=np.float64), np.array(ineq_constant, dtype=np.float64), 0
@@ -250,7 +257,6 @@ class ASIFModule(BaseOptimizationModule):
             u = opt[0]
 
             # Get constraints causing intervention
-            self.constraints_causing_intervention = []
             for i in opt[5]:
                 key = self.constraint_names[i - 1]
                 if key not in self.constraints_causing_intervention:
-- 
2.43.0


From 78fd6fa0bc8dd90769531c91ea50e64ba5be84f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 14/25] fix: use the documented jit defaults for the implicit
 ASIF trajectory

---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 4404da5..5671d7a 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -523,7 +523,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         else:
             self._generate_ineq_constraint_mats_fn = self._generate_ineq_constraint_mats
 
-        default_int = True
+        default_int = False
 
         if self.jit_enable and self.jit_compile_dict.get('pred_state', default_int):
             self._pred_state_fn = jit(self._pred_state, static_argnames=['step_size'])
-- 
2.43.0


From 1fb42b71a8c748aab030dd6950fef5cd5691608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 15/25] fix: support element specific control bounds in
 discrete ASIF

---
 run_time_assurance/rta/asif.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 5671d7a..40a911b 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -993,7 +993,11 @@ class DiscreteASIFModule(BaseOptimizationModule):
     def __init__(self, *args: Any, **kwargs: Any):
         super().__init__(*args, **kwargs)
 
-        self.opt_bounds = [(self.control_bounds_low, self.control_bounds_high)] * self.control_dim + [(-np.inf, np.inf)] * self.num_slack
+        low = -np.inf if self.control_bounds_low is None else self.control_bounds_low
+        high = np.inf if self.control_bounds_high is None else self.control_bounds_high
+        lows = np.broadcast_to(low, (self.control_dim, ))
+        highs = np.broadcast_to(high, (self.control_dim, ))
+        self.opt_bounds = list(zip(lows, highs)) + [(-np.inf, np.inf)] * self.num_slack
         self.scipy_constraints = []
         self.discrete_constraints = OrderedDict()
         slack_counter = 0
-- 
2.43.0


From 5918beac91ae9ad68d2ef7e1e055e91475acd694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 16/25] fix: map the collision radius in the deputy PSM
 trajectory array

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 2845e31..8ec8c4c 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -465,7 +465,7 @@ class ConstraintPSMDeputy(ConstraintModule):
 
     def get_array(self, state: jnp.ndarray, params: dict) -> float:
         """Gets entire trajectory array"""
-        vmapped_get_future_state = vmap(self.get_future_state, (None, 0), 0)
+        vmapped_get_future_state = vmap(self.get_future_state, (None, 0, None), 0)
         phi_array = vmapped_get_future_state(
             state,
             jnp.linspace(0, self.steps * params["dt"], self.steps + 1),
-- 
2.43.0


From 7994258364358274656401e0431dba54801ba49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 17/25] fix: use the deputy separation radius in the deputy PSM
 constraint

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 8ec8c4c..920a748 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -233,7 +233,7 @@ class InspectionRTA(ExplicitASIFModule):
                 alpha=PolynomialConstraintStrengthener([0, 0, 0, 0.1]),
             )
             constraint_dict[f"deputy_PSM_{i}"] = ConstraintPSMDeputy(
-                collision_radius=self.chief_radius + self.deputy_radius,
+                collision_radius=self.deputy_radius * 2,
                 m=self.m,
                 n=self.n,
                 dt=1,
-- 
2.43.0


From d08b8d277a23eddf0641a8e15b94effefe9eab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 18/25] fix: advance the sun angle in the direction of the sun
 velocity in discrete inspection

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index e252af0..cb97259 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -562,7 +562,7 @@ class DiscreteInspection1v1RTA(DiscreteASIFModule):
             + self.discrete_b_mat(step_size) @ control
         )
         return jnp.concatenate(
-            (next_state, jnp.array([state[6] - self.sun_vel * step_size, 0.0]))
+            (next_state, jnp.array([state[6] + self.sun_vel * step_size, 0.0]))
         )  # TODO: fix fuel derivative
 
     def discrete_a_mat(self, dt):
-- 
2.43.0


From 351fb84638fc2841f61ac50778751ca4a2cb299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 19/25] fix: allow relative degree 1 in HOCBF constraints

---
 run_time_assurance/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/constraint.py b/run_time_assurance/constraint.py
index 16e3a27..22f2cc5 100644
--- a/run_time_assurance/constraint.py
+++ b/run_time_assurance/constraint.py
@@ -418,7 +418,7 @@ class HOCBFConstraint(ConstraintModule):
                 constraint=hocbf_constraint_dict["constraint_" + str(i - 1)], state_transition_system=state_transition_system, alpha=alpha
             )
             hocbf_constraint_dict["constraint_" + str(i)] = psi
-        self.final_constraint = psi
+        self.final_constraint = hocbf_constraint_dict["constraint_" + str(relative_degree - 1)]
         super().__init__(alpha=alpha, params=self.final_constraint.params, **kwargs)
 
     def _compute(self, state: jnp.ndarray, params: dict) -> float:
-- 
2.43.0


From 36cd65f55bd464a6b26dc79cea8801ee2fe2bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 20/25] fix: clear the intervening flag while the module is
 disabled

---
 run_time_assurance/rta/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index 69c4ea5..9cfa4f3 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -80,6 +80,7 @@ class RTAModule(abc.ABC):
             control_actual = self._clip_control(self.compute_filtered_control(input_state, step_size, control_desired))
             self.control_actual = np.array(control_actual)
         else:
+            self.intervening = False
             self.control_actual = np.copy(control_desired)
 
         return np.copy(self.control_actual)
-- 
2.43.0


From e0ed8f939d2c19a44b9423ed4c61d917e6a52540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 21/25] fix: make state wrapper setters work on immutable jax
 arrays

---
 run_time_assurance/zoo/cwh/docking_2d.py         |  8 ++++----
 run_time_assurance/zoo/cwh/docking_3d.py         | 12 ++++++------
 run_time_assurance/zoo/cwh/inspection_1v1.py     | 16 ++++++++--------
 .../zoo/integrators/integrator_1d.py             |  4 ++--
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/run_time_assurance/zoo/cwh/docking_2d.py b/run_time_assurance/zoo/cwh/docking_2d.py
index e98261d..2eb55fc 100644
--- a/run_time_assurance/zoo/cwh/docking_2d.py
+++ b/run_time_assurance/zoo/cwh/docking_2d.py
@@ -46,7 +46,7 @@ class Docking2dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -56,7 +56,7 @@ class Docking2dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -66,7 +66,7 @@ class Docking2dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -76,7 +76,7 @@ class Docking2dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
 
 class Docking2dRTAMixin:
diff --git a/run_time_assurance/zoo/cwh/docking_3d.py b/run_time_assurance/zoo/cwh/docking_3d.py
index 6bf365b..bbfb919 100644
--- a/run_time_assurance/zoo/cwh/docking_3d.py
+++ b/run_time_assurance/zoo/cwh/docking_3d.py
@@ -47,7 +47,7 @@ class Docking3dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -57,7 +57,7 @@ class Docking3dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def z(self) -> float:
@@ -67,7 +67,7 @@ class Docking3dState(RTAStateWrapper):
     @z.setter
     def z(self, val: float):
         """Setter for z position"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -77,7 +77,7 @@ class Docking3dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -87,7 +87,7 @@ class Docking3dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[4] = val
+        self.vector = self.vector.at[4].set(val)
 
     @property
     def z_dot(self) -> float:
@@ -97,7 +97,7 @@ class Docking3dState(RTAStateWrapper):
     @z_dot.setter
     def z_dot(self, val: float):
         """Setter for z velocity component"""
-        self.vector[5] = val
+        self.vector = self.vector.at[5].set(val)
 
 
 class Docking3dRTAMixin:
diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index cb97259..1349c20 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -54,7 +54,7 @@ class Inspection3dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -64,7 +64,7 @@ class Inspection3dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def z(self) -> float:
@@ -74,7 +74,7 @@ class Inspection3dState(RTAStateWrapper):
     @z.setter
     def z(self, val: float):
         """Setter for z position"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -84,7 +84,7 @@ class Inspection3dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -94,7 +94,7 @@ class Inspection3dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[4] = val
+        self.vector = self.vector.at[4].set(val)
 
     @property
     def z_dot(self) -> float:
@@ -104,7 +104,7 @@ class Inspection3dState(RTAStateWrapper):
     @z_dot.setter
     def z_dot(self, val: float):
         """Setter for z velocity component"""
-        self.vector[5] = val
+        self.vector = self.vector.at[5].set(val)
 
     @property
     def sun_angle(self) -> float:
@@ -114,7 +114,7 @@ class Inspection3dState(RTAStateWrapper):
     @sun_angle.setter
     def sun_angle(self, val: float):
         """Setter for sun_angle component"""
-        self.vector[6] = val
+        self.vector = self.vector.at[6].set(val)
 
     @property
     def delta_v(self) -> float:
@@ -124,7 +124,7 @@ class Inspection3dState(RTAStateWrapper):
     @delta_v.setter
     def delta_v(self, val: float):
         """Setter for delta_v component"""
-        self.vector[7] = val
+        self.vector = self.vector.at[7].set(val)
 
 
 class Inspection1v1RTA(ExplicitASIFModule):
diff --git a/run_time_assurance/zoo/integrators/integrator_1d.py b/run_time_assurance/zoo/integrators/integrator_1d.py
index ba7a494..47682cd 100644
--- a/run_time_assurance/zoo/integrators/integrator_1d.py
+++ b/run_time_assurance/zoo/integrators/integrator_1d.py
@@ -36,7 +36,7 @@ class Integrator1dDockingState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -46,7 +46,7 @@ class Integrator1dDockingState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
 
 class Integrator1dDockingRTAMixin:
-- 
2.43.0


From 0109dd3f47045c817379ec5ac7cb376ef0d3cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:03 +0000
Subject: [PATCH 22/25] fix: reset the rta module before each sample test
 episode

---
 run_time_assurance/utils/sample_testing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/run_time_assurance/utils/sample_testing.py b/run_time_assurance/utils/sample_testing.py
index a51929b..0f0da68 100644
--- a/run_time_assurance/utils/sample_testing.py
+++ b/run_time_assurance/utils/sample_testing.py
@@ -279,6 +279,8 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
             if c.phi(to_jnp_array_jit(state), c.params) < 0 or c(to_jnp_array_jit(state), c.params) < 0:
                 return None
 
+        self.rta.reset()
+
         done = False
         current_time = 0.
 
-- 
2.43.0


From 2dc541c5cbd22c5608e2e5f91361f98e0365fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:12 +0000
Subject: [PATCH 23/25] fix: integrate the dynamics of the discrete ASIF
 integrator module with a differentiable solver

---
 run_time_assurance/rta/asif.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 40a911b..ca63d68 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -15,6 +15,7 @@ import jax.numpy as jnp
 import numpy as np
 import quadprog
 from jax import jacfwd, jit, lax, vmap
+from jax.experimental.ode import odeint
 from safe_autonomy_simulation.dynamics import ControlAffineODEDynamics, ODEDynamics
 from scipy.optimize import minimize
 
@@ -1135,3 +1136,7 @@ class DifferentiableODESolver(ODEDynamics):
 
     def _compute_state_dot(self, t, state, control):
         return self.state_dot_fn(t, state, control)
+
+    def step(self, step_size, state, control):
+        sol = odeint(lambda x, t, u: self._compute_state_dot(t, x, u), state, jnp.array([0.0, step_size]), control)
+        return sol[-1], self._compute_state_dot(step_size, sol[-1], control)
-- 
2.43.0


From 6ebe772ec123f750dc3bf5ea90015c24c385ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:30 +0000
Subject: [PATCH 24/25] fix: keep implicit ASIF constraint names current when
 the barrier matrices are jit compiled

---
 run_time_assurance/rta/asif.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index ca63d68..8cd2828 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -602,6 +602,24 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
             state, num_steps, traj_states, traj_sensitivities, params, constraint_enabled_dict
         )
 
+        return ineq_weight, ineq_constant
+
+    def _filter_control(self, state: jnp.ndarray, step_size: float, control: jnp.ndarray) -> jnp.ndarray:
+        self._update_constraint_names(step_size)
+        return super()._filter_control(state, step_size, control)
+
+    def _update_constraint_names(self, step_size: float):
+        """Updates the constraint names to match the rows generated for the given step size
+
+        Not part of _generate_barrier_constraint_mats, which doesn't run again for a step size it was jit compiled for
+
+        Parameters
+        ----------
+        step_size : float
+            duration of control step
+        """
+        num_steps = int(self.backup_window / step_size) + 1
+
         # Fix constraint names:
         idx = 0
         if self.control_bounds_low is not None:
@@ -613,8 +631,6 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
             self.constraint_names += [k] * self._num_subsampled_points(c, num_steps)
         self.constraint_names += list(self.direct_inequality_constraints.keys())
 
-        return ineq_weight, ineq_constant
-
     def _generate_ineq_constraint_mats(
         self,
         state: jnp.ndarray,
-- 
2.43.0


From aa601751ddf430bf4a28aaf46a8682f92ea63cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:45 +0000
Subject: [PATCH 25/25] fix: document the default strengthening functions the
 cwh constraints use

---
 run_time_assurance/zoo/cwh/docking_3d.py     | 2 +-
 run_time_assurance/zoo/cwh/inspection_1v1.py | 6 +++---
 run_time_assurance/zoo/cwh/inspection_3d.py  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/run_time_assurance/zoo/cwh/docking_3d.py b/run_time_assurance/zoo/cwh/docking_3d.py
index bbfb919..8ec3f1b 100644
--- a/run_time_assurance/zoo/cwh/docking_3d.py
+++ b/run_time_assurance/zoo/cwh/docking_3d.py
@@ -650,7 +650,7 @@ class ConstraintCWH3dRelativeVelocity(ConstraintModule):
         Small postiive value summed inside the vector norm sqrt operation to make constraint differentiable at 0
     alpha : ConstraintStrengthener
         Constraint Strengthener object used for ASIF methods. Required for ASIF methods.
-        Defaults to PolynomialConstraintStrengthener([0, 0.05, 0, 0.5])
+        Defaults to PolynomialConstraintStrengthener([0, 0.05, 0, 0.005])
     """
 
     def __init__(
diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index 1349c20..7ff6c9c 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -761,7 +761,7 @@ class ConstraintCWHChiefCollision(ConstraintModule):
         Maximum braking acceleration for deputy spacecraft. m/s^2
     alpha : ConstraintStrengthener
         Constraint Strengthener object used for ASIF methods. Required for ASIF methods.
-        Defaults to PolynomialConstraintStrengthener([0, 0.005, 0, 0.05])
+        Defaults to PolynomialConstraintStrengthener([0, 0.01, 0, 0.001])
     """
 
     def __init__(
@@ -832,7 +832,7 @@ class ConstraintCWHConicKeepOutZone(ConstraintModule):
         function to get vector pointing from chief to sun
     alpha : ConstraintStrengthener
         Constraint Strengthener object used for ASIF methods. Required for ASIF methods.
-        Defaults to PolynomialConstraintStrengthener([0, 0.01, 0, 0.05])
+        Defaults to PolynomialConstraintStrengthener([0, 0.001, 0, 0.0001])
     """
 
     def __init__(
@@ -1002,7 +1002,7 @@ class ConstraintCWHMaxDistance(ConstraintModule):
         Maximum braking acceleration for deputy spacecraft. m/s^2
     alpha : ConstraintStrengthener
         Constraint Strengthener object used for ASIF methods. Required for ASIF methods.
-        Defaults to PolynomialConstraintStrengthener([0, 0.005, 0, 0.05])
+        Defaults to PolynomialConstraintStrengthener([0, 0.01, 0, 0.001])
     """
 
     def __init__(
diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 920a748..3392428 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -310,7 +310,7 @@ class ConstraintCWHDeputyCollision(ConstraintModule):
         number of the deputy to avoid
     alpha : ConstraintStrengthener
         Constraint Strengthener object used for ASIF methods. Required for ASIF methods.
-        Defaults to PolynomialConstraintStrengthener([0, 0.005, 0, 0.05])
+        Defaults to PolynomialConstraintStrengthener([0, 0.01, 0, 0.001])
     """
 
     def __init__(
-- 
2.43.0

