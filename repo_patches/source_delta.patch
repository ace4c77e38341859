From ea036915e33443c65fd15cfa07ef2566d26454e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 01/46] fix: create the global speed of time variable
 (SpeedOfTimeVariableMode.GLOBAL crashed)

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 9cd3d64..824c55d 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -648,7 +648,7 @@ class NosnocProblem(NosnocFormulationObject):
         # add global speed of time if necessary
         if self.opts.speed_of_time_variables == SpeedOfTimeVariableMode.GLOBAL:
             sot = ca.SX.sym('sot', 1)
-            self.add_variables(sot, self.ind_sot, self.opts.speed_of_time_min, self.opts.speed_of_time_max, 1.0)
+            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max], [1.0])
 
         # Generate control_stages
         prev_fe = self.fe0
-- 
2.43.0


From ef5de368d13d1f59d5965ef2ce893968144c2525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 02/46] fix: order initial multipliers like the NLP parameters
 for STEP with several subsystems

---
 nosnoc/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 6c7f4a0..1dc677f 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -257,6 +257,7 @@ class NosnocModel:
         g_switching = ca.SX.zeros((0, 1))
         g_convex = ca.SX.zeros((0, 1))  # equation for the convex multiplers 1 = e' \theta
         lambda00_expr = ca.SX.zeros(0, 0)
+        lambda00_p_expr = ca.SX.zeros(0, 0)
         std_compl_res = ca.SX.zeros(1)  # residual of standard complementarity
 
         # Note: this is the order of z used by FiniteElement
@@ -296,10 +297,12 @@ class NosnocModel:
                     self.c[ii] - lambda_p[ii] + lambda_n[ii])
                 std_compl_res += ca.transpose(lambda_n[ii]) @ alpha_ii
                 std_compl_res += ca.transpose(lambda_p[ii]) @ (np.ones(n_c_sys[ii]) - alpha_ii)
-                lambda00_expr = ca.vertcat(lambda00_expr, -ca.fmin(self.c[ii], 0),
-                                           ca.fmax(self.c[ii], 0))
+                # NOTE: order as in FiniteElementZero.Lambda: first all lambda_n, then all lambda_p
+                lambda00_expr = ca.vertcat(lambda00_expr, -ca.fmin(self.c[ii], 0))
+                lambda00_p_expr = ca.vertcat(lambda00_p_expr, ca.fmax(self.c[ii], 0))
         else:
             raise NotImplementedError()
+        lambda00_expr = ca.vertcat(lambda00_expr, lambda00_p_expr)
 
         # collect all algebraic equations
         g_z_all = ca.vertcat(g_switching, g_convex, g_lift, self.g_z)  # g_lift_forces
-- 
2.43.0


From dd8934c894407e5887131b90b8c15b85667cfd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 03/46] fix: STEP representation for subsystems with different
 numbers of regions

---
 nosnoc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 1dc677f..7e9c9dd 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -250,7 +250,7 @@ class NosnocModel:
                             upsilon_ij *= (0.5 * (1 - S_temp[j, k]) +
                                            S_temp[j, k] * alpha[ii][k])
                     upsilon_temp = ca.vertcat(upsilon_temp, upsilon_ij)
-                upsilon = ca.horzcat(upsilon, upsilon_temp)
+                upsilon.append(upsilon_temp)
 
         # start empty
         g_lift = ca.SX.zeros((0, 1))
@@ -288,7 +288,7 @@ class NosnocModel:
         elif opts.pss_mode == PssMode.STEP:
             for ii in range(n_sys):
                 if self.F is not None:
-                    f_x = f_x + self.F[ii] @ upsilon[:, ii]
+                    f_x = f_x + self.F[ii] @ upsilon[ii]
                     alpha_ii = alpha[ii]
                 else:
                     alpha_ii = self.alpha[ii]
-- 
2.43.0


From e8fd1dd28ac99d39d0882541a9a354db136278a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 04/46] fix: results of Stewart problems whose subsystems have
 different numbers of regions

---
 nosnoc/solver.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index a2b3628..4124b72 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -484,8 +484,11 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
     if opts.speed_of_time_variables != SpeedOfTimeVariableMode.NONE:
         results["sot"] = [w_opt[ind] for ind in prob.ind_sot]
 
-    results["theta_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_theta)]
-    results["lambda_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_lam)]
+    # NOTE: one array per subsystem, as the subsystems can have different numbers of regions
+    results["theta_list"] = [[w_opt[ind_sys] for ind_sys in ind]
+                             for ind in get_cont_algebraic_indices(prob.ind_theta)]
+    results["lambda_list"] = [[w_opt[ind_sys] for ind_sys in ind]
+                              for ind in get_cont_algebraic_indices(prob.ind_lam)]
     # results["mu_list"] = [w_opt[ind] for ind in ind_mu_all]
     # if opts.pss_mode == PssMode.STEP:
     results["alpha_list"] = [
@@ -528,9 +531,10 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
                 switch_indices.append(i)
             alpha_prev = alpha
     else:
-        theta_prev = results["theta_list"][0]
-        for i, theta in enumerate(results["theta_list"][1:]):
-            if any(np.abs(theta.flatten() - theta_prev.flatten()) > 0.1):
+        theta_prev = np.concatenate(results["theta_list"][0])
+        for i, theta_sys in enumerate(results["theta_list"][1:]):
+            theta = np.concatenate(theta_sys)
+            if any(np.abs(theta - theta_prev) > 0.1):
                 switch_indices.append(i)
             theta_prev = theta
 
-- 
2.43.0


From 5b8ad9f707daa115e3678daf3f629a9535f4108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 05/46] fix: set('theta') for several subsystems

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 4124b72..bf26a1e 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -89,7 +89,7 @@ class NosnocSolverBase(ABC):
                 for sub_idx in prob.ind_theta:
                     for ssub_idx in sub_idx:
                         for sssub_idx in ssub_idx:
-                            prob.w0[sssub_idx] = value[i, :]
+                            prob.w0[flatten(sssub_idx)] = value[i, :]
                         i += 1
             else:
                 raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
-- 
2.43.0


From de1a2922b470c3e4cf49ab7163effd55180a6a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 06/46] fix: enforce control stage complementarities in every
 control stage, also with Nfe_list

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 824c55d..b1cbdf5 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -538,7 +538,7 @@ class FiniteElement(FiniteElementBase):
             stage_comps = self.ocp.g_rk_comp_fun(X_fe[j], Uk, z, self.p, self.model.v_global)  # TODO maybe should include stage z
             a, b = ca.horzsplit(stage_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-        if self.fe_idx == opts.N_finite_elements-1:
+        if self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1:
             ctrl_comps = self.ocp.g_ctrl_comp_fun(Uk, self.p, self.model.v_global)
             a, b = ca.horzsplit(ctrl_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-- 
2.43.0


From 6c41cee9679a55479118670c6d30e5b03d0edb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 07/46] fix: g_path_at_stg skipped the last stage of all but
 the last element for Radau

---
 nosnoc/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index b1cbdf5..b412461 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -499,7 +499,9 @@ class FiniteElement(FiniteElementBase):
             self.add_constraint(gqj, ocp.lbg, ocp.ubg)
 
         if opts.g_path_at_stg:
-            end_allowance = 1 if opts.right_boundary_point_explicit else 0
+            # the last stage is the end point, if it is explicit and was already constrained above
+            end_constrained = self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1 or opts.g_path_at_fe
+            end_allowance = 1 if opts.right_boundary_point_explicit and end_constrained else 0
             for j in range(opts.n_s - end_allowance):
                 gqj = ocp.g_path_fun(X_fe[j], Uk, self.p, model.v_global)
                 self.add_constraint(gqj, ocp.lbg, ocp.ubg)
-- 
2.43.0


From 8c48638878132de803eac1154a248a2186a566a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 08/46] fix: right boundary multipliers also at the end of
 control stages (Gauss-Legendre FESD)

---
 nosnoc/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index b412461..7103c95 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -246,7 +246,8 @@ class FiniteElement(FiniteElementBase):
 
         # right boundary
         create_right_boundary_point = (opts.use_fesd and not opts.right_boundary_point_explicit and
-                                       fe_idx < opts.Nfe_list[ctrl_idx] - 1)
+                                       (fe_idx < opts.Nfe_list[ctrl_idx] - 1 or
+                                        ctrl_idx < opts.N_stages - 1))
         end_allowance = 1 if create_right_boundary_point else 0
 
         # Initialze index lists
-- 
2.43.0


From f54f4f789c42e5984d7d788715b8ecf55aec1651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 09/46] fix: no boundary switching constraint for elements
 without boundary multipliers

---
 nosnoc/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 7103c95..439dfc9 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -248,6 +248,7 @@ class FiniteElement(FiniteElementBase):
         create_right_boundary_point = (opts.use_fesd and not opts.right_boundary_point_explicit and
                                        (fe_idx < opts.Nfe_list[ctrl_idx] - 1 or
                                         ctrl_idx < opts.N_stages - 1))
+        self.has_right_boundary_point = create_right_boundary_point
         end_allowance = 1 if create_right_boundary_point else 0
 
         # Initialze index lists
@@ -508,7 +509,7 @@ class FiniteElement(FiniteElementBase):
                 self.add_constraint(gqj, ocp.lbg, ocp.ubg)
 
         # g_z_all constraint for boundary point and continuity of algebraic variables.
-        if not opts.right_boundary_point_explicit and opts.use_fesd:
+        if self.has_right_boundary_point:
             self.add_constraint(
                 model.g_z_switching_fun(self.w[self.ind_x[-1]], self.rk_stage_z(-1), Uk, self.p))
 
-- 
2.43.0


From 3c5cb46d656c5a1dba7e95ef38aac6ae5e2e5c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 10/46] fix: cross complementarity with the right boundary
 multipliers of the same element

---
 nosnoc/problem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 439dfc9..9728f8d 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -524,7 +524,7 @@ class FiniteElement(FiniteElementBase):
                 theta = self.Theta(stage=j)
                 lam = self.prev_fe.Lambda(stage=-1)
                 comp_vec = ca.vertcat(comp_vec, theta*lam)
-                for jj in range(opts.n_s):
+                for jj in range(len(self.ind_lam)):
                     lam = self.Lambda(stage=jj)
                     comp_vec = ca.vertcat(comp_vec, theta*lam)
         else:
@@ -556,8 +556,8 @@ class FiniteElement(FiniteElementBase):
                 # cross comp with prev_fe
                 self.create_complementarity([self.Theta(stage=j)], self.prev_fe.Lambda(stage=-1),
                                             sigma_p, tau, s_elastic)
-                for jj in range(opts.n_s):
-                    # within fe
+                for jj in range(len(self.ind_lam)):
+                    # within fe, including the right boundary point if there is one
                     self.create_complementarity([self.Theta(stage=j)], self.Lambda(stage=jj),
                                                 sigma_p, tau, s_elastic)
         elif opts.cross_comp_mode == CrossComplementarityMode.SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA:
-- 
2.43.0


From adc0a6c7794a39b80f5ae1a11e55e30d76cc905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 11/46] fix: options objects shared one dictionary of solver
 options

---
 nosnoc/nosnoc_opts.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index b69bb1a..e6e3eaf 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -1,4 +1,5 @@
 from typing import Union, Optional
+from copy import deepcopy
 from dataclasses import dataclass, field
 
 import numpy as np
@@ -124,6 +125,10 @@ class NosnocOpts:
         doc="Maximum amount of iterations for the subsolver."
     )
 
+    def __post_init__(self):
+        # each options object has its own solver options, the class attribute holds the defaults
+        self.opts_casadi_nlp = deepcopy(self.opts_casadi_nlp)
+
     def __repr__(self) -> str:
         out = ''
         for k, v in self.__dict__.items():
-- 
2.43.0


From eb7ec804ee4bc3f082f76a4c25f2cbe4972722fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 12/46] fix: switch_times reported step lengths instead of
 times

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index bf26a1e..1eee521 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -538,6 +538,6 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
                 switch_indices.append(i)
             theta_prev = theta
 
-    results["switch_times"] = np.array([time_steps[i] for i in switch_indices])
+    results["switch_times"] = np.array([t_grid[i + 1] for i in switch_indices])
 
     return results
-- 
2.43.0


From ae14145325aebf989bb8513a324b121d4b69a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 13/46] fix: stop_on_failure of NosnocSimLooper never stopped

---
 nosnoc/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/helpers.py b/nosnoc/helpers.py
index 7d1e377..9d78c4c 100644
--- a/nosnoc/helpers.py
+++ b/nosnoc/helpers.py
@@ -2,7 +2,7 @@ from typing import Optional
 
 import numpy as np
 from .solver import NosnocSolver
-from .nosnoc_types import SpeedOfTimeVariableMode
+from .nosnoc_types import SpeedOfTimeVariableMode, Status
 
 
 class NosnocSimLooper:
@@ -93,7 +93,7 @@ class NosnocSimLooper:
             if self.print_level > 0:
                 print(f"Sim step {i + 1}/{self.Nsim}\t status: {results['status']}")
 
-            if (stop_on_failure and results["status"] == "Infeasible_Problem_Detected"):
+            if (stop_on_failure and results["status"] == Status.INFEASIBLE):
                 return False
 
         return True
-- 
2.43.0


From 2801fb6ec31b8c9f89abbb6fd9f17860fb18a1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 14/46] fix: least squares constraint handling accepted
 constraints with nonzero upper bound

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 9728f8d..fa28f26 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -857,7 +857,7 @@ class NosnocProblem(NosnocFormulationObject):
         if opts.constraint_handling == ConstraintHandling.LEAST_SQUARES:
             self.g_lsq = copy(self.g)
             for ii in range(casadi_length(self.g)):
-                if self.lbg[ii] != 0.0:
+                if self.lbg[ii] != 0.0 or self.ubg[ii] != 0.0:
                     raise Exception(
                         f"least_squares constraint handling only supported if all lbg, ubg == 0.0, got {self.lbg[ii]=}, {self.ubg[ii]=}, {self.g[ii]=}"
                     )
-- 
2.43.0


From 68da5ccbbf866e40d1a026ee6456f52a720cad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 15/46] fix: terminal time was unconstrained for N_stages=1
 without equidistant control grid

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index fa28f26..c83db9a 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -838,7 +838,7 @@ class NosnocProblem(NosnocFormulationObject):
                 self.cost = sigma_p * self.cost + s_elastic
 
         # Terminal numerical time
-        if opts.N_stages > 1 and opts.use_fesd and not opts.equidistant_control_grid:
+        if opts.use_fesd and not opts.equidistant_control_grid:
             all_h = [fe.h for stage in self.stages for fe in stage]
             self.add_constraint(sum(all_h) - opts.terminal_time)
 
-- 
2.43.0


From 73cb9421bd271ff602fa356d30f20bee086a998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 16/46] fix: missing sign bounds of weights and multipliers for
 ELASTIC_TWO_SIDED and BOOLEAN

---
 nosnoc/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index c83db9a..99f851c 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -283,7 +283,8 @@ class FiniteElement(FiniteElementBase):
         else:
             self.h = h0
 
-        if opts.mpcc_mode in [MpccMode.SCHOLTES_EQ, MpccMode.SCHOLTES_INEQ, MpccMode.ELASTIC_INEQ, MpccMode.ELASTIC_EQ]:
+        if opts.mpcc_mode in [MpccMode.SCHOLTES_EQ, MpccMode.SCHOLTES_INEQ, MpccMode.ELASTIC_INEQ, MpccMode.ELASTIC_EQ,
+                              MpccMode.ELASTIC_TWO_SIDED, MpccMode.BOOLEAN]:
             lb_dual = 0.0
         else:
             lb_dual = -np.inf
-- 
2.43.0


From 3c020f2be4054bfd7ed9d22dd2ca4827f9efe56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 17/46] fix: running cost was halved for Radau IIA with n_s=1
 in INTEGRAL representation

---
 nosnoc/rk_utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nosnoc/rk_utils.py b/nosnoc/rk_utils.py
index 5045996..24ce707 100644
--- a/nosnoc/rk_utils.py
+++ b/nosnoc/rk_utils.py
@@ -1081,8 +1081,15 @@ def generate_butcher_tableu_integral(n_s: int, irk_scheme: IrkSchemes):
             C[j, r] = np.polyval(pder, tau_root[r])
 
         # Evaluate the integral of the polynomial to get the coefficients of the quadrature function
-        pint = np.polyint(coeff)
-        B[j] = np.polyval(pint, 1.0)
+        # NOTE: the quadrature uses the collocation points only, not the left boundary point.
+        if j > 0:
+            coeff = np.array([1.0])
+            for r in range(1, n_s + 1):
+                if not r == j:
+                    coeff = np.convolve(coeff, [1, -tau_root[r]])
+                    coeff = coeff / (tau_root[j] - tau_root[r])
+            pint = np.polyint(coeff)
+            B[j] = np.polyval(pint, 1.0)
     return B, C, D, tau_root
 
 
-- 
2.43.0


From e03f1a49e58e79e95b2999fc0091f8684519054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 18/46] fix: RK4_SMOOTHENED initialization sampled wrong times
 for IrkRepresentation.INTEGRAL

---
 nosnoc/solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 1eee521..eec8028 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -126,9 +126,11 @@ class NosnocSolverBase(ABC):
             # print(f"updating w0 with RK4 smoothened")
             # NOTE: assume N_stages = 1 and STEWART
             dt_fe = opts.terminal_time / (opts.N_stages * opts.N_finite_elements)
+            # NOTE: irk_time_points contains the left boundary point for IrkRepresentation.INTEGRAL
+            irk_time_points = opts.irk_time_points[-opts.n_s:]
             irk_time_grid = np.array(
-                [opts.irk_time_points[0]] +
-                [opts.irk_time_points[k] - opts.irk_time_points[k - 1] for k in range(1, opts.n_s)])
+                [irk_time_points[0]] +
+                [irk_time_points[k] - irk_time_points[k - 1] for k in range(1, opts.n_s)])
             rk4_t_grid = dt_fe * irk_time_grid
 
             x_rk4_current = x0
-- 
2.43.0


From 04d85b12bb1ef72234ac7d81f9f5c264654570e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 19/46] fix: set('w') aliased the array of the caller, which
 solve() then modified

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index eec8028..b805375 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -94,7 +94,7 @@ class NosnocSolverBase(ABC):
             else:
                 raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
         elif field == 'w':
-            prob.w0 = value
+            prob.w0 = np.array(value, dtype=float)
             if self.opts.initialization_strategy is not InitializationStrategy.EXTERNAL:
                 raise Warning(
                     'full initialization w might be overwritten due to InitializationStrategy != EXTERNAL.'
-- 
2.43.0


From 308e4321eb4e7be0c926a6f936f12c3fbdc55656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 20/46] fix: cost_val lost its sign and ignored the polishing
 step

---
 nosnoc/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index b805375..cd9013f 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -258,7 +258,7 @@ class NosnocSolverBase(ABC):
             status = solver_stats['return_status']
             nlp_iter = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.norm_inf(sol['f']).full()[0][0]
+            cost_val = ca.DM(sol['f']).full()[0][0]
             w_opt = sol['x'].full().flatten()
 
             complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]
@@ -268,7 +268,7 @@ class NosnocSolverBase(ABC):
             if status not in ['Solve_Succeeded', 'Solved_To_Acceptable_Level']:
                 print(f"Warning: IPOPT exited with status {status}")
 
-        return w_opt, cpu_time_nlp, nlp_iter, status
+        return w_opt, cpu_time_nlp, nlp_iter, status, cost_val
 
     def create_function_calculate_vector_field(self, sigma, p=[], v=[]):
         """Create a function to calculate the vector field."""
@@ -408,7 +408,7 @@ class NosnocSolver(NosnocSolverBase):
             status = solver_stats['return_status']
             nlp_iter[ii] = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.norm_inf(sol['f']).full()[0][0]
+            cost_val = ca.DM(sol['f']).full()[0][0]
 
             # process iterate
             w_opt = sol['x'].full().flatten()
@@ -434,7 +434,7 @@ class NosnocSolver(NosnocSolverBase):
             sigma_k = self.homotopy_sigma_update(sigma_k)
 
         if opts.do_polishing_step:
-            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status = \
+            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status, cost_val = \
                                             self.polish_solution(self.solver, w_opt)
 
         # collect results
-- 
2.43.0


From e050a1b7b6e43834359c304da68effd6de0bd6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 21/46] fix: polishing step pinned free multipliers, crashed
 for speed of time, boolean and ragged problems, and solved once per stage

---
 nosnoc/solver.py | 56 ++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index cd9013f..c3f47a6 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -212,9 +212,12 @@ class NosnocSolverBase(ABC):
         eps_sigma = 1e1 * opts.comp_tol
 
         ind_set = flatten(prob.ind_lam + prob.ind_lambda_n + prob.ind_lambda_p + prob.ind_alpha +
-                          prob.ind_theta + prob.ind_mu)
+                          prob.ind_theta)
         ind_dont_set = flatten(prob.ind_h + prob.ind_u + prob.ind_x + prob.ind_v_global +
-                               prob.ind_v + prob.ind_z + prob.ind_elastic)
+                               prob.ind_v + prob.ind_z + prob.ind_elastic + prob.ind_mu +
+                               prob.ind_sot + prob.ind_bool)
+        # multipliers are only fixed to zero, a value of one has no meaning for them
+        ind_multipliers = flatten(prob.ind_lam + prob.ind_lambda_n + prob.ind_lambda_p)
         # sanity check
         ind_all = ind_set + ind_dont_set
         for iw in range(len(w_guess)):
@@ -227,6 +230,7 @@ class NosnocSolverBase(ABC):
 
         w_fix_one = np.abs(w_guess - 1.0) < eps_sigma
         w_fix_one[ind_dont_set] = False
+        w_fix_one[ind_multipliers] = False
         ind_fix_one = np.where(w_fix_one)[0].tolist()
 
         lbw = prob.lbw.copy()
@@ -241,32 +245,28 @@ class NosnocSolverBase(ABC):
             print(
                 f"polishing step: setting {len(ind_fix_zero)} variables to 0.0, {len(ind_fix_one)} to 1.0."
             )
-        for i_ctrl in range(opts.N_stages):
-            for i_fe in range(opts.Nfe_list[i_ctrl]):
-                w_guess[prob.ind_theta[i_ctrl][i_fe][:]]
-
-            sigma_k, tau_val = 0.0, 0.0
-            self.setup_p_val(sigma_k, tau_val)
-
-            # solve NLP
-            t = time.time()
-            sol = casadi_ipopt_solver(x0=w_guess, lbg=prob.lbg, ubg=prob.ubg, lbx=lbw, ubx=ubw, p=self.p_val)
-            cpu_time_nlp = time.time() - t
-
-            # print and process solution
-            solver_stats = casadi_ipopt_solver.stats()
-            status = solver_stats['return_status']
-            nlp_iter = solver_stats['iter_count']
-            nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.DM(sol['f']).full()[0][0]
-            w_opt = sol['x'].full().flatten()
-
-            complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]
-            if opts.print_level:
-                self._print_iter_stats(sigma_k, complementarity_residual, nlp_res, cost_val,
-                                       cpu_time_nlp, nlp_iter, status)
-            if status not in ['Solve_Succeeded', 'Solved_To_Acceptable_Level']:
-                print(f"Warning: IPOPT exited with status {status}")
+        sigma_k, tau_val = 0.0, 0.0
+        self.setup_p_val(sigma_k, tau_val)
+
+        # solve NLP
+        t = time.time()
+        sol = casadi_ipopt_solver(x0=w_guess, lbg=prob.lbg, ubg=prob.ubg, lbx=lbw, ubx=ubw, p=self.p_val)
+        cpu_time_nlp = time.time() - t
+
+        # print and process solution
+        solver_stats = casadi_ipopt_solver.stats()
+        status = solver_stats['return_status']
+        nlp_iter = solver_stats['iter_count']
+        nlp_res = ca.norm_inf(sol['g']).full()[0][0]
+        cost_val = ca.DM(sol['f']).full()[0][0]
+        w_opt = sol['x'].full().flatten()
+
+        complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]
+        if opts.print_level:
+            self._print_iter_stats(sigma_k, complementarity_residual, nlp_res, cost_val,
+                                   cpu_time_nlp, nlp_iter, status)
+        if status not in ['Solve_Succeeded', 'Solved_To_Acceptable_Level']:
+            print(f"Warning: IPOPT exited with status {status}")
 
         return w_opt, cpu_time_nlp, nlp_iter, status, cost_val
 
-- 
2.43.0


From d00aa21d1a3bac4f96f7ef755abce3a77297d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 22/46] fix: automatic general inclusion models with several
 switching functions could not be built

---
 nosnoc/auto_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 9b9c05a..9c06053 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -57,7 +57,7 @@ class NosnocAutoModel:
         """
         if self._detect_additive():
             self._reformulate_nonlin()
-            return NosnocModel(x=self.x, f_x=[self.f], c=self.c, alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
+            return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
         else:
             self._reformulate_linear()
             return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u)
-- 
2.43.0


From f853d798cf6f040baa1ca288395e712deb2974df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 23/46] fix: automatic Filippov reformulation of fmin

---
 nosnoc/auto_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 9c06053..5ac8605 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -147,7 +147,8 @@ class NosnocAutoModel:
             if node.is_op(ca.OP_FMAX):
                 return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1), np.array([[1], [-1]])
             elif node.is_op(ca.OP_FMIN):
-                return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1), np.array([[-1], [1]]), node.dep(0)-node.dep(1), np.array([[-1], [1]])
+                # NOTE: same order of regions for all nonsmooth functions, as they might share c
+                return [node.dep(1), node.dep(0)], node.dep(0)-node.dep(1), np.array([[1], [-1]])
             else:
                 # binary operator
                 l_children, l_c, l_S = self._rebuild_additive_component(node.dep(0))
-- 
2.43.0


From 5030f679835acc4bbc1de2c26b71601537f617e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 24/46] fix: automatic Filippov reformulation of components
 without smooth terms

---
 nosnoc/auto_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 5ac8605..98fcf96 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -80,7 +80,7 @@ class NosnocAutoModel:
             nsm.append(nonsmooth_components)
             sm.append(smooth_components)
         # each smooth component is part of the common dynamics this is added to the first element
-        f_common = casadi_vertcat_list([casadi_sum_list(f) for f in sm])
+        f_common = casadi_vertcat_list([casadi_sum_list(f) if f else ca.SX(0) for f in sm])
 
         # Extract all the Additive components and categorize them by switching function
         collated_components = []
-- 
2.43.0


From b09f20e99dafc12ab25acb55743be1f7599961d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 25/46] fix: automatic Filippov reformulation duplicated
 dynamics of shared switching functions

---
 nosnoc/auto_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 98fcf96..6372000 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -102,14 +102,14 @@ class NosnocAutoModel:
                 comps = collated[c_str]
                 f_ij = [ca.SX(0), ca.SX(0)]
                 for f, c, S in comps:
-                    cS_map[c] = S
+                    cS_map[c_str] = (c, S)
                     f_ij[0] += f[0]
                     f_ij[1] += f[1]
                 f_i[c_str] = ca.horzcat(*f_ij)
             fs.append(f_i)
 
-        for c, S in cS_map.items():
-            self.F.append(casadi_vertcat_list([f_i[c.str()] for f_i in fs]))
+        for c_str, (c, S) in cS_map.items():
+            self.F.append(casadi_vertcat_list([f_i[c_str] for f_i in fs]))
             self.c.append(c)
             self.S.append(S)
         self.F[0][:, 0] += f_common
-- 
2.43.0


From 42c4a95f98509543f94549174eda0bb807efb546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 26/46] fix: automatic reformulation dropped factors of
 products of nonsmooth functions

---
 nosnoc/auto_model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 6372000..d111058 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -128,8 +128,15 @@ class NosnocAutoModel:
                 additive = self._check_additive(component)
                 if additive:
                     return True
+                # products etc. of several nonsmooth functions do not fit in the Filippov form
+                if self._count_nonsmooth(component) > 1:
+                    return True
         return False
 
+    def _count_nonsmooth(self, node: ca.SX) -> int:
+        n_nonsmooth = 1 if node.is_op(ca.OP_SIGN) or node.is_op(ca.OP_FMAX) or node.is_op(ca.OP_FMIN) else 0
+        return n_nonsmooth + sum(self._count_nonsmooth(node.dep(i)) for i in range(node.n_dep()))
+
     # TODO type output
     def _rebuild_additive_component(self, node: ca.SX):
         if node.n_dep() == 0:
-- 
2.43.0


From bf5abf148d8310e4023161769c365fe31ac3a619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 27/46] fix: automatic reformulation chose general inclusions
 exactly for the additive right-hand sides

---
 nosnoc/auto_model.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index d111058..dcdb9ce 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -55,7 +55,7 @@ class NosnocAutoModel:
         Reformulate the given nonsmooth ODE into a NosnocModel.
         Note: Care must be taken if your model is complex, in which case the Pss Mode `STEP` should be used.
         """
-        if self._detect_additive():
+        if not self._detect_additive():
             self._reformulate_nonlin()
             return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
         else:
@@ -125,13 +125,10 @@ class NosnocAutoModel:
         for f_nonsmooth in fs_nonsmooth:
             nonlin_components = self._find_nonlinear_components(f_nonsmooth)
             for component in nonlin_components:
-                additive = self._check_additive(component)
-                if additive:
-                    return True
                 # products etc. of several nonsmooth functions do not fit in the Filippov form
                 if self._count_nonsmooth(component) > 1:
-                    return True
-        return False
+                    return False
+        return True
 
     def _count_nonsmooth(self, node: ca.SX) -> int:
         n_nonsmooth = 1 if node.is_op(ca.OP_SIGN) or node.is_op(ca.OP_FMAX) or node.is_op(ca.OP_FMIN) else 0
-- 
2.43.0


From f74ad81e4d573329d339b29be0a9aeba2b691549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 28/46] fix: boundary multipliers used the algebraic variables
 of the last integration stage

With a scheme that does not include the right boundary point the switching
functions there were evaluated with the user algebraic variables of the last
stage; the boundary point now has its own algebraic variables and equations.
---
 nosnoc/model.py   | 2 ++
 nosnoc/problem.py | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 7e9c9dd..225ff10 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -316,6 +316,8 @@ class NosnocModel:
         # lp kkt conditions without bilinear complementarity terms
         self.g_z_switching_fun = ca.Function('g_z_switching_fun', [self.x, z, self.u, self.p],
                                              [g_switching])
+        # user algebraic equations only
+        self.g_z_fun = ca.Function('g_z_fun', [self.x, z, self.u, self.p], [self.g_z])
         self.g_z_all_fun = ca.Function('g_z_all_fun', [self.x, z, self.u, self.p], [g_z_all])
         if self.t_var is not None:
             self.t_fun = ca.Function("t_fun", [self.x], [self.t_var])
diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 99f851c..c8cc1a9 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -266,7 +266,7 @@ class FiniteElement(FiniteElementBase):
         self.ind_alpha = create_empty_list_matrix((n_s, dims.n_sys))
         self.ind_lambda_n = create_empty_list_matrix((n_s + end_allowance, dims.n_sys))
         self.ind_lambda_p = create_empty_list_matrix((n_s + end_allowance, dims.n_sys))
-        self.ind_z = create_empty_list_matrix((n_s,))
+        self.ind_z = create_empty_list_matrix((n_s + end_allowance,))
         self.ind_h = []
 
         self.ind_comp = []
@@ -386,6 +386,11 @@ class FiniteElement(FiniteElementBase):
                                   dims.n_c_sys[ij]), self.ind_lambda_p,
                         lb_dual * np.ones(dims.n_c_sys[ij]), np.inf * np.ones(dims.n_c_sys[ij]),
                         .5 * np.ones(dims.n_c_sys[ij]), opts.n_s, ij)
+            # user algebraic variables, the switching functions can depend on them
+            self.add_variable(
+                ca.SX.sym(f'z_{ctrl_idx}_{fe_idx}_end', dims.n_z), self.ind_z,
+                model.lbz, model.ubz, model.z0, opts.n_s
+            )
 
         if (not opts.right_boundary_point_explicit or
                 opts.irk_representation == IrkRepresentation.DIFFERENTIAL):
@@ -513,6 +518,8 @@ class FiniteElement(FiniteElementBase):
         if self.has_right_boundary_point:
             self.add_constraint(
                 model.g_z_switching_fun(self.w[self.ind_x[-1]], self.rk_stage_z(-1), Uk, self.p))
+            self.add_constraint(
+                model.g_z_fun(self.w[self.ind_x[-1]], self.rk_stage_z(-1), Uk, self.p))
 
         return
 
-- 
2.43.0


From 7862896c8f8b01ffdb57abdf08302e6c2dc4da27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:31 +0000
Subject: [PATCH 29/46] fix: set('p_time_var') with too few rows failed after
 changing some stages

---
 nosnoc/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index c3f47a6..8eccd00 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -81,6 +81,9 @@ class NosnocSolverBase(ABC):
             for i in range(self.opts.N_stages):
                 self.model.p_val_ctrl_stages[i, dims.n_p_time_var:] = value
         elif field == 'p_time_var':
+            if value.shape[0] < self.opts.N_stages:
+                raise ValueError("p_time_var should have one row per control stage, "
+                                 f"expected {self.opts.N_stages}, got {value.shape[0]}")
             for i in range(self.opts.N_stages):
                 self.model.p_val_ctrl_stages[i, :dims.n_p_time_var] = value[i, :]
         elif field == 'theta':
-- 
2.43.0


From 4f30b667d8d4c19301e3218567a6288d79127e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:25 +0000
Subject: [PATCH 30/46] fix: set('x0') kept a reference to the array of the
 caller

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 8eccd00..fd6fe29 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -48,7 +48,7 @@ class NosnocSolverBase(ABC):
         prob = self.problem
         dims = prob.model.dims
         if field == 'x0':
-            prob.model.x0 = value
+            prob.model.x0 = np.array(value)
         elif field == 'x':  # TODO: check other dimensions for useful error message
             if value.shape[0] == self.opts.N_stages:
                 # Shape is equal to the number of control stages
-- 
2.43.0


From 8ee68834c7e484420ee9aefdb1650dd8af01969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 31/46] fix: RK4_SMOOTHENED initialization ignored Nfe_list

---
 nosnoc/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index fd6fe29..29e292c 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -128,7 +128,7 @@ class NosnocSolverBase(ABC):
         elif opts.initialization_strategy == InitializationStrategy.RK4_SMOOTHENED:
             # print(f"updating w0 with RK4 smoothened")
             # NOTE: assume N_stages = 1 and STEWART
-            dt_fe = opts.terminal_time / (opts.N_stages * opts.N_finite_elements)
+            dt_fe = opts.terminal_time / (opts.N_stages * opts.Nfe_list[0])
             # NOTE: irk_time_points contains the left boundary point for IrkRepresentation.INTEGRAL
             irk_time_points = opts.irk_time_points[-opts.n_s:]
             irk_time_grid = np.array(
@@ -138,7 +138,7 @@ class NosnocSolverBase(ABC):
 
             x_rk4_current = x0
             db_updated_indices = list()
-            for i in range(opts.N_finite_elements):
+            for i in range(opts.Nfe_list[0]):
                 Xrk4 = rk4_on_timegrid(self.model.f_x_smooth_fun,
                                        x0=x_rk4_current,
                                        t_grid=rk4_t_grid)
-- 
2.43.0


From b7decd20f0b4ad78e4839dcf0a266a5b95ef448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 32/46] fix: initial guess of the speed of time could violate
 its bounds

---
 nosnoc/problem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index c8cc1a9..245fa93 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -628,7 +628,8 @@ class NosnocProblem(NosnocFormulationObject):
         # Create stage local speed of time variables
         if self.opts.speed_of_time_variables == SpeedOfTimeVariableMode.LOCAL:
             sot = ca.SX.sym(f's_sot_{ctrl_idx}', 1)
-            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max], [1.0])
+            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max],
+                              [np.clip(1.0, self.opts.speed_of_time_min, self.opts.speed_of_time_max)])
 
         # Create Finite elements in this control stage
         control_stage = []
@@ -660,7 +661,8 @@ class NosnocProblem(NosnocFormulationObject):
         # add global speed of time if necessary
         if self.opts.speed_of_time_variables == SpeedOfTimeVariableMode.GLOBAL:
             sot = ca.SX.sym('sot', 1)
-            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max], [1.0])
+            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max],
+                              [np.clip(1.0, self.opts.speed_of_time_min, self.opts.speed_of_time_max)])
 
         # Generate control_stages
         prev_fe = self.fe0
-- 
2.43.0


From 4b8687d59b9ec78dc1c22b17c5647edcd9adf615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:23 +0000
Subject: [PATCH 33/46] fix: RK4_SMOOTHENED initialization failed for
 IrkRepresentation.DIFFERENTIAL

---
 nosnoc/solver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 29e292c..f58dba6 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -7,7 +7,7 @@ import time
 
 from nosnoc.model import NosnocModel
 from nosnoc.nosnoc_opts import NosnocOpts
-from nosnoc.nosnoc_types import InitializationStrategy, PssMode, HomotopyUpdateRule, ConstraintHandling, Status, SpeedOfTimeVariableMode
+from nosnoc.nosnoc_types import InitializationStrategy, IrkRepresentation, PssMode, HomotopyUpdateRule, ConstraintHandling, Status, SpeedOfTimeVariableMode
 from nosnoc.ocp import NosnocOcp
 from nosnoc.problem import NosnocProblem
 from nosnoc.rk_utils import rk4_on_timegrid
@@ -146,7 +146,9 @@ class NosnocSolverBase(ABC):
                 # print(f"{Xrk4=}")
                 for k in range(opts.n_s):
                     x_ki = Xrk4[k + 1]
-                    prob.w0[prob.ind_x[0][i][k]] = x_ki
+                    # NOTE: stage states are no variables in IrkRepresentation.DIFFERENTIAL
+                    if opts.irk_representation != IrkRepresentation.DIFFERENTIAL:
+                        prob.w0[prob.ind_x[0][i][k]] = x_ki
                     # NOTE: we don't use lambda_smooth_fun, since it gives negative lambdas
                     # -> infeasible. Possibly another smooth min fun could be used.
                     # However, this would be inconsistent with mu.
@@ -167,7 +169,7 @@ class NosnocSolverBase(ABC):
                         prob.w0[prob.ind_mu[0][i][k][s]] = mu_ki[s].full().flatten()
                         # TODO: ind_v
                     db_updated_indices += prob.ind_theta[0][i][k][s] + prob.ind_lam[0][i][k][
-                        s] + prob.ind_mu[0][i][k][s] + prob.ind_x[0][i][k] + prob.ind_h
+                        s] + prob.ind_mu[0][i][k][s] + flatten(prob.ind_x[0][i]) + prob.ind_h
                 if opts.irk_time_points[-1] != 1.0:
                     raise NotImplementedError
                 else:
-- 
2.43.0


From 7d94dae16a8092edd2c06bfbcce97d2623ef0b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:00 +0000
Subject: [PATCH 34/46] fix: derived options were kept after changing the
 options they are derived from

---
 nosnoc/nosnoc_opts.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index e6e3eaf..95b7424 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -128,18 +128,22 @@ class NosnocOpts:
     def __post_init__(self):
         # each options object has its own solver options, the class attribute holds the defaults
         self.opts_casadi_nlp = deepcopy(self.opts_casadi_nlp)
+        # values derived by preprocess() for options which were not set
+        self._derived = dict()
 
     def __repr__(self) -> str:
         out = ''
         for k, v in self.__dict__.items():
-            out += f"{k} : {v}\n"
+            if k != '_derived':
+                out += f"{k} : {v}\n"
         return out
 
     def preprocess(self):
         # IPOPT tol should be smaller than outer tol, but not too much
         # Note IPOPT option list: https://coin-or.github.io/Ipopt/OPTIONS.html
-        if self.tol_ipopt is None:
-            self.tol_ipopt = self.comp_tol * 1e-2
+        # NOTE: values derived by an earlier call are derived again from the current settings
+        if self.tol_ipopt in (None, self._derived.get('tol_ipopt')):
+            self.tol_ipopt = self._derived['tol_ipopt'] = self.comp_tol * 1e-2
 
         validate(self)
         # self.opts_casadi_nlp['ipopt']['print_level'] = self.print_level
@@ -149,11 +153,13 @@ class NosnocOpts:
                 Warning("Problem might be illposed if n_s < 3 and time freezing")
             # TODO: Extend checks
 
-        if self.max_iter_homotopy == 0:
+        if self.max_iter_homotopy in (0, self._derived.get('max_iter_homotopy')):
             self.max_iter_homotopy = int(np.round(np.abs(np.log(self.comp_tol / self.sigma_0) / np.log(self.homotopy_update_slope)))) + 1
+            self._derived['max_iter_homotopy'] = self.max_iter_homotopy
 
-        if len(self.Nfe_list) == 0:
+        if len(self.Nfe_list) == 0 or self.Nfe_list == self._derived.get('Nfe_list'):
             self.Nfe_list = self.N_stages * [self.N_finite_elements]
+            self._derived['Nfe_list'] = list(self.Nfe_list)
 
         # Butcher Tableau
         if self.irk_representation == IrkRepresentation.INTEGRAL:
-- 
2.43.0


From f3a078434f44508797cce5a2e47bd4e9689786fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:23 +0000
Subject: [PATCH 35/46] fix: deriving the ipopt tolerance overwrote explicitly
 set ipopt tolerances

---
 nosnoc/nosnoc_opts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index 95b7424..eb8ebfb 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -143,7 +143,11 @@ class NosnocOpts:
         # Note IPOPT option list: https://coin-or.github.io/Ipopt/OPTIONS.html
         # NOTE: values derived by an earlier call are derived again from the current settings
         if self.tol_ipopt in (None, self._derived.get('tol_ipopt')):
-            self.tol_ipopt = self._derived['tol_ipopt'] = self.comp_tol * 1e-2
+            ipopt_opts = self.opts_casadi_nlp['ipopt']
+            unset = [key for key in ['tol', 'dual_inf_tol', 'compl_inf_tol', 'mu_target']
+                     if ipopt_opts.get(key) in (None, self._derived.get('tol_ipopt'))]
+            _assign(ipopt_opts, unset, self.comp_tol * 1e-2)
+            self._derived['tol_ipopt'] = self.tol_ipopt
 
         validate(self)
         # self.opts_casadi_nlp['ipopt']['print_level'] = self.print_level
-- 
2.43.0


From 50c03b4ad15ed8b33a6629aeb926f02d86ff0f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:25 +0000
Subject: [PATCH 36/46] fix: models mixing two of the supported forms were
 accepted, ignoring a part of them

---
 nosnoc/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 225ff10..0da81db 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -87,12 +87,14 @@ class NosnocModel:
         self.S: List[np.ndarray] = S
         self.g_Stewart = g_Stewart
 
-        if not (bool(F is not None) ^ bool((f_x is not None) and (alpha is not None))):
+        if not (bool(F is not None) ^ bool((f_x is not None) and (alpha is not None))) or (F is not None and f_x is not None):
             raise ValueError("Provide either F (Fillipov) or f_x and alpha")
         # Either c and S or g is given!
         if F is not None:
-            if not (bool(c is not None and S is not None) ^ bool(g_Stewart is not None)):
+            if (c is None) != (S is None) or not (bool(c is not None and S is not None) ^ bool(g_Stewart is not None)):
                 raise ValueError("Provide either c and S or g, not both!")
+        elif g_Stewart is not None:
+            raise ValueError("g_Stewart cannot be used with f_x, provide c")
 
         self.x0: np.ndarray = x0
         self.p_time_var: ca.SX = p_time_var
-- 
2.43.0


From e53ebb76882af975964c1837efbdcd823ec1e723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:12 +0000
Subject: [PATCH 37/46] fix: models whose dimensions of F, c and S disagree
 were accepted

---
 nosnoc/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 0da81db..36665a8 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -150,6 +150,8 @@ class NosnocModel:
             if not isinstance(self.F, list):
                 raise ValueError("model.F should be a list.")
             for i, f in enumerate(self.F):
+                if f.shape[0] != n_x:
+                    raise ValueError(f"model.F item {i} should have n_x rows!")
                 if f.shape[1] == 1:
                     raise Warning(f"model.F item {i} is not a switching system!")
 
@@ -168,10 +170,15 @@ class NosnocModel:
                     raise ValueError("model.S should be a list.")
                 if len(self.c) != len(self.S):
                     raise ValueError("model.c and model.S should have the same length!")
+                if len(self.F) != len(self.S):
+                    raise ValueError("model.F and model.S should have the same length!")
                 for i, (fi, Si) in enumerate(zip(self.F, self.S)):
                     if fi.shape[1] != Si.shape[0]:
                         raise ValueError(
                             f"model.F item {i} and S {i} should have the same number of columns")
+                    if Si.shape[1] != n_c_sys[i]:
+                        raise ValueError(
+                            f"model.S item {i} should have one column for each element of c {i}")
         else:  # Only check Step because Stewart is not allowed for general inclusions
             if opts.pss_mode == PssMode.STEWART:
                 raise ValueError("model formulation with general inclusions using model.f_x is not supported with PssMode.STEWART")
-- 
2.43.0


From 43fca2072c6e41e4821007a7b50a4cc9ee62402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:24 +0000
Subject: [PATCH 38/46] fix: general inclusions with a single right-hand side
 for several states were accepted

---
 nosnoc/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 36665a8..658c9e8 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -183,6 +183,8 @@ class NosnocModel:
             if opts.pss_mode == PssMode.STEWART:
                 raise ValueError("model formulation with general inclusions using model.f_x is not supported with PssMode.STEWART")
             n_f_sys = [self.f_x[i].shape[1] for i in range(n_sys)]
+            if casadi_length(casadi_vertcat_list(self.f_x)) != n_x:
+                raise ValueError("model.f_x should have n_x rows in total!")
             if not isinstance(self.c, list):
                 raise ValueError("model.c should be a list.")
             if casadi_length(casadi_vertcat_list(self.c)) != casadi_length(casadi_vertcat_list(self.alpha)):
-- 
2.43.0


From a1410601100e103d77988d82adacb27338a820e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:11 +0000
Subject: [PATCH 39/46] fix: calling reformulate() again multiplied the
 dynamics

---
 nosnoc/auto_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index dcdb9ce..992f150 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -55,6 +55,8 @@ class NosnocAutoModel:
         Reformulate the given nonsmooth ODE into a NosnocModel.
         Note: Care must be taken if your model is complex, in which case the Pss Mode `STEP` should be used.
         """
+        # start from scratch, also when called repeatedly
+        self.c, self.S, self.F, self.f, self.alpha = [], [], [], [], []
         if not self._detect_additive():
             self._reformulate_nonlin()
             return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
-- 
2.43.0


From c8753fc990034867b70c0e2a159530951b22b3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:20 +0000
Subject: [PATCH 40/46] fix: lists Nfe_list longer than N_stages were accepted

---
 nosnoc/nosnoc_opts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index eb8ebfb..c1c4f0d 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -164,6 +164,8 @@ class NosnocOpts:
         if len(self.Nfe_list) == 0 or self.Nfe_list == self._derived.get('Nfe_list'):
             self.Nfe_list = self.N_stages * [self.N_finite_elements]
             self._derived['Nfe_list'] = list(self.Nfe_list)
+        elif len(self.Nfe_list) != self.N_stages:
+            raise ValueError(f"Nfe_list should have one entry per control stage ({self.N_stages}), got {self.Nfe_list}")
 
         # Butcher Tableau
         if self.irk_representation == IrkRepresentation.INTEGRAL:
-- 
2.43.0


From e4c3e04634e09a2bc8f53552c306da4143fbea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:20 +0000
Subject: [PATCH 41/46] fix: complementarity residual ignored the user
 complementarities

---
 nosnoc/problem.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 245fa93..0bb1333 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -30,6 +30,9 @@ class NosnocFormulationObject(ABC):
         # cost
         self.cost: ca.SX = ca.SX.zeros(1)
 
+        # products of the user complementarity pairs
+        self.user_comp_vec: ca.SX = ca.SX([])
+
         # index lists
         self.ind_x: list
         self.ind_lam: list
@@ -525,7 +528,7 @@ class FiniteElement(FiniteElementBase):
 
     def get_complementarity_vector(self):
         opts = self.opts
-        comp_vec = []
+        comp_vec = self.user_comp_vec
         if opts.use_fesd:
             for j in range(opts.n_s):
                 # cross comp with prev_fe
@@ -550,10 +553,12 @@ class FiniteElement(FiniteElementBase):
             stage_comps = self.ocp.g_rk_comp_fun(X_fe[j], Uk, z, self.p, self.model.v_global)  # TODO maybe should include stage z
             a, b = ca.horzsplit(stage_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
+            self.user_comp_vec = ca.vertcat(self.user_comp_vec, a * b)
         if self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1:
             ctrl_comps = self.ocp.g_ctrl_comp_fun(Uk, self.p, self.model.v_global)
             a, b = ca.horzsplit(ctrl_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
+            self.user_comp_vec = ca.vertcat(self.user_comp_vec, a * b)
 
         if not opts.use_fesd:
             for j in range(opts.n_s):
@@ -723,6 +728,7 @@ class NosnocProblem(NosnocFormulationObject):
         stage_comps = self.ocp.g_global_comp_fun(p_global, self.model.v_global)  # TODO maybe should include stage z
         a, b = ca.horzsplit(stage_comps)
         self.create_complementarity([a], b, sigma_p, tau, s_elastic)
+        self.user_comp_vec = a * b
         return
 
     def __init__(self, opts: NosnocOpts, model: NosnocModel, ocp: Optional[NosnocOcp] = None):
@@ -826,7 +832,7 @@ class NosnocProblem(NosnocFormulationObject):
         self.create_global_compl_constraints(sigma_p, tau, s_elastic)
 
         # Scalar-valued complementarity residual
-        comp_vec = []
+        comp_vec = self.user_comp_vec
         for fe in flatten(self.stages):
             comp_vec = ca.vertcat(comp_vec, fe.get_complementarity_vector())
         J_comp = ca.mmax(comp_vec)
-- 
2.43.0


From f9db3341f0d238a67e4abcea6823e0f9e970ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:59 +0000
Subject: [PATCH 42/46] fix: print flags initial guesses above their upper
 bound

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 0bb1333..085625b 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -895,7 +895,7 @@ class NosnocProblem(NosnocFormulationObject):
             if self.lbw[i] > self.ubw[i]:
                 extra_info = " BOUND ERROR!"
                 errors += 1
-            elif self.w0[i] < self.lbw[i] or self.ubw[i] > self.ubw[i]:
+            elif self.w0[i] < self.lbw[i] or self.w0[i] > self.ubw[i]:
                 extra_info = " W0 ERROR!"
                 errors += 1
 
-- 
2.43.0


From 58178e67921960fd66e6a18f6a1d8dc9c2b9cd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:59 +0000
Subject: [PATCH 43/46] fix: dump works with user complementarities and least
 squares constraint handling

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 085625b..ea2328d 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -923,7 +923,7 @@ class NosnocProblem(NosnocFormulationObject):
             data = {
                 key: self.__dict__[key] for key in self.__dict__
                 if key not in [
-                    "w", "p", "cost", "g", "model", "ocp", "stages", "fe0"
+                    "w", "p", "cost", "g", "model", "ocp", "stages", "fe0", "user_comp_vec", "g_lsq"
                 ]
             }
             data["f"] = ca.Function("f", [self.w, self.p], [self.cost])
-- 
2.43.0


From d02d3d19b8d3dee8339ec1a8b2a73b430a7363d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:59 +0000
Subject: [PATCH 44/46] fix: vector field function for Stewart models (was
 referencing a missing function)

---
 nosnoc/solver.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index f58dba6..8c9a6e2 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -11,7 +11,7 @@ from nosnoc.nosnoc_types import InitializationStrategy, IrkRepresentation, PssMo
 from nosnoc.ocp import NosnocOcp
 from nosnoc.problem import NosnocProblem
 from nosnoc.rk_utils import rk4_on_timegrid
-from nosnoc.utils import flatten_layer, flatten, get_cont_algebraic_indices, flatten_outer_layers, check_ipopt_success
+from nosnoc.utils import casadi_vertcat_list, flatten_layer, flatten, get_cont_algebraic_indices, flatten_outer_layers, check_ipopt_success
 
 
 def construct_problem(opts: NosnocOpts, model: NosnocModel, ocp: Optional[NosnocOcp] = None) -> NosnocProblem:
@@ -280,23 +280,29 @@ class NosnocSolverBase(ABC):
         if self.opts.pss_mode != PssMode.STEWART:
             raise NotImplementedError()
 
-        shape = self.model.g_Stewart_fun.size_out(0)
-        g = ca.SX.sym('g', shape[0])
-        mu = ca.SX.sym('mu', 1)
-        theta = ca.SX.sym('theta', shape[0])
-        lam = g - mu * np.ones(shape)
+        dims = self.model.dims
+        n_theta = sum(dims.n_f_sys)
+        g = ca.SX.sym('g', n_theta)
+        mu = ca.SX.sym('mu', dims.n_sys)
+        theta = ca.SX.sym('theta', n_theta)
+        # NOTE: each subsystem has its own multiplier mu and its own convex combination
+        lam = g - casadi_vertcat_list([mu[ii] * np.ones(n_f) for ii, n_f in enumerate(dims.n_f_sys)])
+        convex = [ca.sum1(theta_ii) - 1 for theta_ii in ca.vertsplit(theta, np.cumsum([0] + dims.n_f_sys).tolist())]
         theta_fun = ca.rootfinder("lambda_fun", "newton", dict(
             x=ca.vertcat(theta, mu), p=g,
             g=ca.vertcat(
-                ca.sqrt(lam * lam - theta*theta + sigma*sigma) - (lam + theta),
-                ca.sum1(theta)-1
+                ca.sqrt(lam * lam + theta*theta + sigma*sigma) - (lam + theta),
+                *convex
             )
         ))
+        theta0 = np.concatenate([np.ones(n_f) / n_f for n_f in dims.n_f_sys])
         def fun(x, u, z=[0]):
             g  = self.model.g_Stewart_fun(x, z, p)
-            theta = theta_fun(0, g)[:-1]
-            F = self.model.F_fun(x, u, p, v)
-            return np.dot(F, theta)
+            mu0 = self.model.mu00_stewart_fun(x, z, p)
+            theta = theta_fun(ca.vertcat(theta0, mu0 - sigma), g)[:n_theta]
+            # NOTE: the multipliers lam, mu do not enter the dynamics
+            z_all = ca.vertcat(theta, np.zeros(n_theta + dims.n_sys), np.array(z).flatten()[:dims.n_z])
+            return self.model.f_x_fun(x, z_all, u, p, v).full()
 
         return fun
 
-- 
2.43.0


From 33626747eedcbc3ff14f8acb0db2943d659a8c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:56 +0000
Subject: [PATCH 45/46] fix: plot_iterates works (mu and theta were not
 accessible, invalid label)

---
 nosnoc/plot_utils.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/nosnoc/plot_utils.py b/nosnoc/plot_utils.py
index 19f4edd..e8dc5cb 100644
--- a/nosnoc/plot_utils.py
+++ b/nosnoc/plot_utils.py
@@ -4,7 +4,7 @@ import matplotlib.pyplot as plt
 import matplotlib
 
 from nosnoc import NosnocProblem, get_results_from_primal_vector
-from .utils import flatten_layer
+from .utils import flatten, get_cont_algebraic_indices
 from .nosnoc_types import PssMode
 
 
@@ -81,15 +81,10 @@ def plot_iterates(problem: NosnocProblem,
     for it, iterate in enumerate(iterates):
         results = get_results_from_primal_vector(problem, iterate)
 
-        # flatten sys layer
-        lambdas = flatten_layer(results['lambda_list'], 2)
-        thetas = flatten_layer(results['theta_list'], 2)
-        mus = flatten_layer(results['mu_list'], 2)
-
-        # flatten fe layer
-        lambdas = flatten_layer(lambdas, 0)
-        thetas = flatten_layer(thetas, 0)
-        mus = flatten_layer(mus, 0)
+        # one row per finite element, subsystems concatenated
+        lambdas = [np.concatenate(fe) for fe in results['lambda_list']]
+        thetas = [np.concatenate(fe) for fe in results['theta_list']]
+        mus = [iterate[flatten(ind)] for ind in get_cont_algebraic_indices(problem.ind_mu)]
 
         n_lam = len(lambdas[0])
         n_mu = len(mus[0])
@@ -108,7 +103,7 @@ def plot_iterates(problem: NosnocProblem,
         # TODO: make this step plot?
         plt.subplot(n_row, n_iterates, n_iterates * 1 + it + 1)
         for i in range(n_lam):
-            plt.plot([x[i] for x in thetas], label=r'$\\theta_' + f'{i+1}$')
+            plt.plot([x[i] for x in thetas], label=f'$\\theta_{i+1}$')
         plt.grid(alpha=0.3)
         plt.legend()
 
-- 
2.43.0


From 20afe10a2c479105320663bc1d25111e58ce548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:50 +0000
Subject: [PATCH 46/46] fix: path complementarity pairs of named weights
 (theta, alpha) with controls or parameters are stage pairs

---
 nosnoc/ocp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/ocp.py b/nosnoc/ocp.py
index a5ed8dd..ad58228 100644
--- a/nosnoc/ocp.py
+++ b/nosnoc/ocp.py
@@ -81,7 +81,8 @@ class NosnocOcp:
         self.g_ctrl_comp = ca.SX.zeros(0, 2)
         self.g_stage_comp = ca.SX.zeros(0, 2)
 
-        rk_stage_vars = ca.vertcat(model.x, model.z)
+        # NOTE: z_all contains the user algebraic variables and the weights theta or alpha
+        rk_stage_vars = ca.vertcat(model.x, model.z_all)
         control_stage_vars = ca.vertcat(model.u, model.p_time_var)
 
         for ii in range(self.g_path_comp.shape[0]):
-- 
2.43.0

