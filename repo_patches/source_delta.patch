From 6aeba1fbb4f5f75421a28d08feddd7cb3fa96679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 01/51] fix: gather_from_grid read the stencil size from the
 cache, which has none

---
 hydraxmpm/shapefunctions/mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/shapefunctions/mapping.py b/hydraxmpm/shapefunctions/mapping.py
index ee63ae5..d7e2ee8 100644
--- a/hydraxmpm/shapefunctions/mapping.py
+++ b/hydraxmpm/shapefunctions/mapping.py
@@ -329,7 +329,7 @@ class ShapeFunctionMapping(eqx.Module):
 
         # accumulate (gather)
         particle_accum = jnp.zeros(
-            (point_ids.shape[0] // cache.window_size, flat_data.shape[1])
+            (point_ids.shape[0] // self.window_size, flat_data.shape[1])
         )
         particle_accum = particle_accum.at[point_ids].add(flat_data)
 
-- 
2.43.0


From b202230783ac8573b08b156a9bcf3f3eefbd3ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 02/51] fix: USL velocity gradient was transposed (L_ij = v_i
 grad_j)

---
 hydraxmpm/solvers/usl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index c5ccdfb..bbe1f0c 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -670,7 +670,7 @@ class USLSolver(BaseSolver):
             # As L_ij = v_i * grad_j
             # compression positive convention for L, 
             weighted_L = jnp.einsum(
-                "ij,ik->ijk", intr_cache.shape_grads, -intr_vels_nt_3d
+                "ij,ik->ijk", -intr_vels_nt_3d, intr_cache.shape_grads
             )
 
   
-- 
2.43.0


From 2db4d05b3e171a6eed904f9c9470f87af06a2c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 03/51] fix: Jaumann correction rotated stress against the
 material spin

---
 hydraxmpm/constitutive_laws/druckerprager.py   | 2 +-
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 2a9142b..20bc42d 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -127,7 +127,7 @@ class DruckerPrager(ConstitutiveLaw):
     ):
         # kinematics
         D = get_sym_tensor(L)
-        W = get_spin_tensor(L)
+        W = get_spin_tensor(-L)  # L is compression positive
         deps = D * dt
 
         # objective rate correction (Jaumann)
diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index a68f85b..c21ae4c 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -385,7 +385,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
     
         D = get_sym_tensor(L) # symmetric part
-        W = get_spin_tensor(L) # skew-symmetric part
+        W = get_spin_tensor(-L) # skew-symmetric part (L is compression positive)
 
 
         deps_next = D * dt
-- 
2.43.0


From fa7dac7fb2ccc9defaac69c8ae1ff779380ea1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 04/51] fix: classic APIC update read a missing attribute and
 lost the compression-positive sign

---
 hydraxmpm/solvers/usl_asflip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 26e61c1..8d48f1b 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -409,7 +409,7 @@ class USLAFLIP(USLSolver):
                 dist_vec_phys = -1.0 * intr_cache.rel_dist *grid_domain.cell_size
 
                 # shape_vals (N,) * outer(v (N,3), dist (N,3)) -> (N,3,3)
-                weighted_Bp_term = intr_cache.shape_vals[:, None, None] * jnp.einsum(
+                weighted_Bp_term = -intr_cache.shape_vals[:, None, None] * jnp.einsum(
                     "ni,nj->nij", intr_vels_nt_3d, dist_vec_phys
                 )
 
@@ -444,7 +444,7 @@ class USLAFLIP(USLSolver):
             else:
                 # classic APIC needs the inverse of Dp, where
                 # Dp = 1/4 * dx^2 * I (Quadratic) or 1/3 * dx^2 * I (Cubic)
-                if c.shapefunction == "cubic":
+                if c.shape_map.shapefunction == "cubic":
                     coeff = 1.0 / 3.0
                 else:
                     coeff = 1.0 / 4.0
-- 
2.43.0


From 3f3659b77769ff53450bbcc9a3237261c25ca1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 05/51] fix: AFLIP grid-to-particle transfer used the body
 index for the solver state

---
 hydraxmpm/solvers/usl_asflip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 8d48f1b..ca19ace 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -311,7 +311,7 @@ class USLAFLIP(USLSolver):
             grid_domain = self.grid_domains[c.g_idx]
             mp_state = mp_states[c.p_idx]
             intr_cache = sim_cache.interactions[(c.p_idx, c.g_idx)]
-            solver_state = solver_states[c.p_idx]
+            solver_state = solver_states[c.s_idx]
 
             # --- Operations in interaction space ---
             # Gather grid data
@@ -542,7 +542,7 @@ class USLAFLIP(USLSolver):
                 (p_velocity_next, p_position_next, p_volume_next, p_F_next, p_L_next, p_F_store_next),
             )
 
-            solver_states[c.p_idx] = eqx.tree_at(
+            solver_states[c.s_idx] = eqx.tree_at(
                 lambda s: s.Bp_stack, solver_state, p_Bp
             )
 
-- 
2.43.0


From 6bc3c919a785f9add7d81ab9172fc4b69e19bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 06/51] fix: solver looked up grids and laws by registered
 index in per-coupling tuples

---
 hydraxmpm/common/builder.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index a9476b8..f767ae5 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -319,13 +319,10 @@ class SimBuilder:
         sdf_logics = tuple(self.sdf_logics[i] for i in sdf_idx_list)
 
 
-        grid_domains = tuple(self.grid_domains[coupling.g_idx] for coupling in couplings)
+        # couplings refer to grids and laws by their registered index
+        grid_domains = tuple(self.grid_domains)
 
-        # law can be None if rigid particles are used
-        laws = tuple(
-            self.law_logics[coupling.c_idx] if coupling.c_idx is not None else None
-            for coupling in couplings
-        )
+        laws = tuple(self.law_logics)
 
         if scheme.lower() == "usl":
             solver = USLSolver(
-- 
2.43.0


From 6f3af36937d4964aea90a642cab6a0780257e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 07/51] fix: add_sdf_collider ignored its friction and shifted
 later force state indices

---
 hydraxmpm/common/builder.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index f767ae5..226dd40 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -421,10 +421,14 @@ class SimBuilder:
         self,
         sdf_idx: int = None,
         g_idx_list: list[int] = None,
-        friction: float = 0.0,
+        friction: float = 1.0,
         gap: float = 1e-4,
     ):
-        """Convenience method for adding objects."""
+        """Convenience method for adding objects.
+
+        Args:
+            friction: Multiplies the local surface friction of the SDF object.
+        """
 
         if sdf_idx is None:
             sdf_idx = len(self.sdf_states) - 1
@@ -437,9 +441,11 @@ class SimBuilder:
             sdf_idx=sdf_idx,
             g_idx_list=g_idx_list,
             gap=gap,
+            friction=friction,
         )
 
         f_idx = self.force_logics.add(sdf_collider)
+        self.force_states.append(None)  # Stateless force
 
         return f_idx
 
-- 
2.43.0


From 976d3ef2af5bfcd644a0d8ba4766d6575fa1b865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 08/51] fix: gravity on particles and gravity given as a tuple
 raised

---
 hydraxmpm/common/builder.py | 3 ++-
 hydraxmpm/forces/gravity.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 226dd40..d76b37c 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -1,5 +1,6 @@
 
 import jax
+import jax.numpy as jnp
 
 from hydraxmpm.solvers.usl import USLSolver
 from ..grid.grid import GridDomain
@@ -259,7 +260,7 @@ class SimBuilder:
             f_idx=f_idx,
         )
         f_idx = self.force_logics.add(gravity_force)
-        self.force_states.append(gravity_force.create_state(gravity=gravity))
+        self.force_states.append(gravity_force.create_state(gravity=jnp.asarray(gravity)))
 
         return f_idx
 
diff --git a/hydraxmpm/forces/gravity.py b/hydraxmpm/forces/gravity.py
index 38a2af0..8821397 100644
--- a/hydraxmpm/forces/gravity.py
+++ b/hydraxmpm/forces/gravity.py
@@ -164,7 +164,7 @@ class Gravity(Force):
                 (mp_state.force_stack + gravity_impulse),
             )
 
-            mp_states[self.p_idx] = mp_state
+            mp_states[p_idx] = mp_state
 
         f_states[self.f_idx] = f_state
 
-- 
2.43.0


From e153f751338442352cbb472c3f40128c630ce217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 09/51] fix: NewtonFluid.create_state passed the density twice

---
 hydraxmpm/constitutive_laws/newtonfluid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/newtonfluid.py b/hydraxmpm/constitutive_laws/newtonfluid.py
index 439a17e..c6dbf11 100644
--- a/hydraxmpm/constitutive_laws/newtonfluid.py
+++ b/hydraxmpm/constitutive_laws/newtonfluid.py
@@ -81,8 +81,8 @@ class NewtonFluid(ConstitutiveLaw):
         density_initial_stack = material_points.mass_stack/ material_points.volume0_stack
         
         return self.create_state_from_density(
-            material_points.pressure_stack,
-            density_stack=density_initial_stack
+            density_stack=density_initial_stack,
+            pressure_stack=material_points.pressure_stack,
         )
  
 
-- 
2.43.0


From 5e1ecd4e8e13f06370192515da72d5bff4343248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 10/51] fix: Newtonian fluid pressure had the tension-positive
 sign, so a compressed fluid attracted itself

---
 hydraxmpm/constitutive_laws/newtonfluid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/newtonfluid.py b/hydraxmpm/constitutive_laws/newtonfluid.py
index c6dbf11..db37817 100644
--- a/hydraxmpm/constitutive_laws/newtonfluid.py
+++ b/hydraxmpm/constitutive_laws/newtonfluid.py
@@ -119,8 +119,8 @@ class NewtonFluid(ConstitutiveLaw):
         p = jnp.maximum(p, 0.0) 
 
         # Cauchy stress calculation
-        # sigma = -pI + 2*mu*dev(D)
-        stress = -p * jnp.eye(3) + (2.0 * self.viscosity * dev_deps_dt)
+        # sigma = pI + 2*mu*dev(D) (compression positive, as L)
+        stress = p * jnp.eye(3) + (2.0 * self.viscosity * dev_deps_dt)
 
 
         return stress
-- 
2.43.0


From 5c12d80be04685064cf0c1ae76de7cc23a2d9704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 11/51] fix: mu(I) shear stress was half of mu*p (tau = eta *
 gamma_dot with gamma_dot_ij = 2 D_ij)

---
 hydraxmpm/constitutive_laws/mu_i_rheology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/mu_i_rheology.py b/hydraxmpm/constitutive_laws/mu_i_rheology.py
index a9dd603..a643e3d 100644
--- a/hydraxmpm/constitutive_laws/mu_i_rheology.py
+++ b/hydraxmpm/constitutive_laws/mu_i_rheology.py
@@ -177,7 +177,7 @@ class MuI_LC(ConstitutiveLaw):
             eta_total = eta_s + eta_d
             
 
-            stress = p_safe * jnp.eye(3) + eta_total * deps_dev
+            stress = p_safe * jnp.eye(3) + 2.0 * eta_total * deps_dev
             return stress
 
 
-- 
2.43.0


From f9b97a0e8151b05b73c34ffdaf4263736d0bccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 12/51] fix: Drucker-Prager dilatant return mapping left the
 yield surface (pressure sign)

---
 hydraxmpm/constitutive_laws/druckerprager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 20bc42d..6bfcab6 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -159,7 +159,7 @@ class DruckerPrager(ConstitutiveLaw):
             # Pull to Cone
             pmulti = yf / (self.G + self.K * self.mu_1 * self.mu_1_hat + self.H * self.mu_2 * self.mu_2)
             
-            p_cone = p_tr - self.K * pmulti * self.mu_1_hat
+            p_cone = p_tr + self.K * pmulti * self.mu_1_hat
             sqrt_J2_cone = sqrt_J2_tr - self.G * pmulti
             
             # If sqrt_J2_cone < 0, we hit the apex
-- 
2.43.0


From d92b3be6bd0e936631b6809407cd72d5a5d55664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 13/51] fix: Drucker-Prager apex return reduced the accumulated
 plastic strain

---
 hydraxmpm/constitutive_laws/druckerprager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index 6bfcab6..ca16f0d 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -184,10 +184,10 @@ class DruckerPrager(ConstitutiveLaw):
                 alpha = self.mu_2 / jnp.maximum(self.mu_1, 1e-8)
                 
                 # Solve deps_p_v
-                deps_p_v = (self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev)) / jnp.maximum(self.K * self.mu_1 - self.H * self.mu_2 * alpha, 1e-12)
+                deps_p_v = (self.mu_1 * p_tr + self.mu_2 * (self.c0 + self.H * eps_p_acc_prev)) / jnp.maximum(self.K * self.mu_1 + self.H * self.mu_2 * alpha, 1e-12)
                 
                 p_apex = p_tr - self.K * deps_p_v
-                eps_p_acc_apex = eps_p_acc_prev + alpha * deps_p_v
+                eps_p_acc_apex = eps_p_acc_prev - alpha * deps_p_v
                 
                 stress_apex = +p_apex * jnp.eye(3)
                 eps_e_v_apex = (p_apex - p_0) / self.K
-- 
2.43.0


From 3033d62b4742a277bdcf587bc37ea63292833256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 14/51] fix: Drucker-Prager get_dt_crit read a missing density
 attribute

---
 hydraxmpm/constitutive_laws/druckerprager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/druckerprager.py b/hydraxmpm/constitutive_laws/druckerprager.py
index ca16f0d..f51f450 100644
--- a/hydraxmpm/constitutive_laws/druckerprager.py
+++ b/hydraxmpm/constitutive_laws/druckerprager.py
@@ -208,7 +208,7 @@ class DruckerPrager(ConstitutiveLaw):
 
     def get_dt_crit(self, mp_state: MaterialPointState, cell_size: float, alpha: float = 0.5):
         """Critical timestep for stability based on P-wave speed."""
-        rho_stack = mp_state.rho_stack
+        rho_stack = mp_state.density_stack
 
         c_p = jnp.sqrt((self.K + (4.0 / 3.0) * self.G) / rho_stack)
         
-- 
2.43.0


From ad62d86b93850154802810d55f25613d19191ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 15/51] fix: plane-strain shear reset zeroed the out-of-plane
 stretch

---
 hydraxmpm/constitutive_laws/constitutive_law.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/constitutive_law.py b/hydraxmpm/constitutive_laws/constitutive_law.py
index 9fda52c..6269cee 100644
--- a/hydraxmpm/constitutive_laws/constitutive_law.py
+++ b/hydraxmpm/constitutive_laws/constitutive_law.py
@@ -42,7 +42,7 @@ class ConstitutiveLaw(eqx.Module):
             if dim == 2:
 
                 scale = jnp.sqrt(J)
-                return jnp.diag(jnp.array([scale, scale, 0.0]))
+                return jnp.diag(jnp.array([scale, scale, 1.0]))
             else:
                 # 3D cbar element-wise cube root
                 scale = jnp.cbrt(J)
-- 
2.43.0


From 3d7d1762b12a0436e0c3f3a23dfd4d724e9ea6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 16/51] fix: stored deformation history was overwritten on
 reset and not advanced by USL

---
 hydraxmpm/constitutive_laws/constitutive_law.py | 9 ++-------
 hydraxmpm/solvers/usl.py                        | 7 +++++++
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/constitutive_law.py b/hydraxmpm/constitutive_laws/constitutive_law.py
index 6269cee..800d4fc 100644
--- a/hydraxmpm/constitutive_laws/constitutive_law.py
+++ b/hydraxmpm/constitutive_laws/constitutive_law.py
@@ -51,12 +51,7 @@ class ConstitutiveLaw(eqx.Module):
 
         new_F_stack = jax.vmap(compute_cbar)(mp_state.F_stack)
 
-        if mp_state.F_store_stack is not None:
-            new_F_store_stack = mp_state.F_stack
-        else:
-            new_F_store_stack = None
-
-        new_mp = eqx.tree_at(lambda m: (m.F_stack,m.F_store_stack), mp_state, (new_F_stack, new_F_store_stack))
-
+        # the stored deformation gradient keeps the full history
+        new_mp = eqx.tree_at(lambda m: m.F_stack, mp_state, new_F_stack)
 
         return new_mp
diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index bbe1f0c..41ab2bf 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -710,6 +710,13 @@ class USLSolver(BaseSolver):
             F_inc = I - p_L * dt
             p_F_next = jnp.einsum("ijk,ikl->ijl", F_inc, mp_state.F_stack)
 
+            if mp_state.F_store_stack is not None:
+                mp_state = eqx.tree_at(
+                    lambda s: s.F_store_stack,
+                    mp_state,
+                    jnp.einsum("ijk,ikl->ijl", F_inc, mp_state.F_store_stack),
+                )
+
             if grid_cache.dim == 2:
                 p_F_next = p_F_next.at[:, 2, 2].set(1.0)
 
-- 
2.43.0


From ccd1963496b9fcab7d59c1bfd9f0d7545100a004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 17/51] fix: default particle volume was an area in 3D, and
 points_per_cell was ignored

---
 hydraxmpm/material_points/material_points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/material_points/material_points.py b/hydraxmpm/material_points/material_points.py
index 95e5338..b1da3a1 100644
--- a/hydraxmpm/material_points/material_points.py
+++ b/hydraxmpm/material_points/material_points.py
@@ -200,8 +200,8 @@ class MaterialPointState(BaseMaterialPointState):
         # Assumes uniform distribution based on cell size and points per cell.
         if volume_stack is None:
             cell_size = kwargs.get("cell_size", 1.0)
-            points_per_cell = kwargs.get("ppc", 4.0)
-            default_volume = (cell_size**2) / points_per_cell
+            points_per_cell = kwargs.get("ppc", kwargs.get("points_per_cell", 4.0))
+            default_volume = (cell_size**dim) / points_per_cell
             volume_stack = jnp.ones(num_points) * default_volume
 
         volume0_stack = volume0_stack if volume0_stack is not None else volume_stack
-- 
2.43.0


From 97fb8c3b4fa18405a8fc1cb080253f8cd1aff9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 18/51] fix: Cam Clay initialisation moved every given q onto
 the yield surface

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index c21ae4c..4fb8cac 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -238,7 +238,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
             q_p_ys_stack = get_qp_ys(p_c_stack, p_stack, self.M)
             
-            yf_check = jnp.abs(q_p_inp_stack - q_p_ys_stack)
+            yf_check = q_p_inp_stack - q_p_ys_stack
 
             q_p_stack = jnp.where(yf_check > 0, q_p_ys_stack, q_p_inp_stack)
 
-- 
2.43.0


From 468e35656b3aee838d2798f838473d2460174845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 19/51] fix: Cam Clay states made from stress or density had no
 reference stress

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 4fb8cac..252c074 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -285,7 +285,10 @@ class ModifiedCamClay(ConstitutiveLaw):
         density_stack = self.rho_p / specific_volume_stack
 
         eps_e = jnp.zeros((p_stack.shape[0], 3, 3))
-        return ModifiedCamClayState(p_c_stack=p_c_stack, eps_e_stack=eps_e),density_stack
+        stress_ref_stack = reconstruct_stress_from_triaxial(
+            p_stack=p_stack, q_stack=q_stack
+        )
+        return ModifiedCamClayState(p_c_stack=p_c_stack, stress_ref_stack=stress_ref_stack, eps_e_stack=eps_e),density_stack
 
 
     def create_state_from_density(
@@ -327,7 +330,10 @@ class ModifiedCamClay(ConstitutiveLaw):
             eps_e = jnp.zeros((p_stack.shape[0], 3, 3))
             
             # Return same specific volume back confirms it was used
-            return ModifiedCamClayState(p_c_stack=p_c_stack, eps_e_stack=eps_e), specific_volume_stack
+            stress_ref_stack = reconstruct_stress_from_triaxial(
+                p_stack=p_stack, q_stack=jnp.zeros_like(p_stack)
+            )
+            return ModifiedCamClayState(p_c_stack=p_c_stack, stress_ref_stack=stress_ref_stack, eps_e_stack=eps_e), specific_volume_stack
 
     def create_state(
         self,
-- 
2.43.0


From 7f0f732e240da83c5713082314a361517a998789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 20/51] fix: strain and void ratio helpers recursed, raised, or
 returned the specific volume

---
 hydraxmpm/utils/math_helpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index 8ac1291..e59be0e 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -285,8 +285,8 @@ def get_hencky_strain_stack(F_stack):
 
 
 def get_dev_strain_stack(strain_stack):
-    """Get strain rate tensor from a stack of velocity gradients."""
-    return get_dev_strain_stack(strain_stack)
+    """Get deviatoric strain tensors from a stack of strain tensors."""
+    return get_dev_strain(strain_stack)
 
 def get_strain_rate_tensor_stack(L_stack):
     """Get strain rate tensor from a stack of velocity gradients."""
@@ -309,7 +309,7 @@ def get_scalar_shear_strain(
 ):
     """Get scalar shear strain gamma = sqrt(1/2 trace(e_dev @ e_dev.T))."""
     if dev_strain is None:
-        dev_strain = get_dev_strain(strain, volumetric_strain, dim)
+        dev_strain = get_dev_strain(strain, volumetric_strain)
 
     return jnp.sqrt(0.5 * jnp.trace(dev_strain @ dev_strain.T))
 
@@ -519,7 +519,7 @@ def get_phi_from_L(L, phi_prev, dt):
 
 def get_e_from_bulk_density(absolute_density, bulk_density):
     """Get void ratio from absolute and bulk density."""
-    return absolute_density / bulk_density
+    return absolute_density / bulk_density - 1.0
 
 
 def get_phi_from_bulk_density(absolute_density, bulk_density):
-- 
2.43.0


From b1d15759cd09ddb44e7b92af1c327ba22bcaa466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 21/51] fix: hollow cylinder ignored its height in 3D

---
 hydraxmpm/sdf/sdfcollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index f010aca..bcec1f3 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -169,8 +169,8 @@ class HollowCylinderSDF(SDFObjectBase):
     def signed_distance_local(self, state, pos_local):
         if pos_local.shape[0] == 3:
             # 2D distance from Y axis
-            r = jnp.linalg.norm(pos_local[jnp.array([0, 2])])
-            d_y = pos_local[1]
+            r = safe_norm(pos_local[jnp.array([0, 2])])
+            d_y = jnp.abs(pos_local[1]) - (self.height / 2.0)
         else:
             if self.is_2d_ring:
                 # Annulus / Ring (Top Down View)
-- 
2.43.0


From 8c1a2c5ad0852ff3bddbeee7b255b686e1524d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 22/51] fix: normals were NaN at the centre of spheres, rings
 and tori and on star edges

---
 hydraxmpm/sdf/sdfcollection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index bcec1f3..9c15a98 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -79,7 +79,7 @@ class SphereSDF(SDFObjectBase):
         self, state: SDFObjectState, p_local: Float[Array, "dim"]
     ) -> Float[Array, ""]:
         # length(p) - r
-        return jnp.linalg.norm(p_local) - self.radius
+        return safe_norm(p_local) - self.radius
 
     def signed_distance(
         self, state: SDFObjectState, pos_world: Float[Array, "dim"]
@@ -176,7 +176,7 @@ class HollowCylinderSDF(SDFObjectBase):
                 # Annulus / Ring (Top Down View)
                 # Radial distance is magnitude of vector (x,y)
                 r_xz = jnp.abs(pos_local[0])
-                r = jnp.linalg.norm(pos_local)
+                r = safe_norm(pos_local)
 
                 # Height is irrelevant/infinite for a 2D ring shape
                 d_y = -1e9
@@ -271,7 +271,7 @@ class TorusSDF(SDFObjectBase):
         q = jnp.array([q_x, q_y])
 
         # Distance from the circle is the norm minus tube radius
-        return jnp.linalg.norm(q) - self.minor_r
+        return safe_norm(q) - self.minor_r
 
 
 class StarSDF(SDFObjectBase):
@@ -350,7 +350,7 @@ class StarSDF(SDFObjectBase):
 
         # Distance vector
         dist_vec = p_wedge - closest
-        dist = jnp.linalg.norm(dist_vec)
+        dist = safe_norm(dist_vec)
 
         # sign Correction (Inside vs Outside)
         cross = edge[0] * (p_wedge[1] - v1[1]) - edge[1] * (p_wedge[0] - v1[0])
-- 
2.43.0


From 1218f597b6303fe5d5715350478bcc6a3d1e8d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 23/51] fix: regular particle generation did not scale in-cell
 offsets by the cell size

---
 hydraxmpm/utils/generate_body.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/utils/generate_body.py b/hydraxmpm/utils/generate_body.py
index 351621b..b9d2107 100644
--- a/hydraxmpm/utils/generate_body.py
+++ b/hydraxmpm/utils/generate_body.py
@@ -67,7 +67,7 @@ def generate_particles_in_sdf(
             lin = jnp.linspace(0, 1, pts_per_dim * 2 + 1)[1::2]
 
             offset_meshes = jnp.meshgrid(*([lin] * dim), indexing="ij")
-            offsets = jnp.stack(offset_meshes, axis=-1).reshape(-1, dim)
+            offsets = jnp.stack(offset_meshes, axis=-1).reshape(-1, dim) * cell_size
 
         # Perform a broadcast add
         # grid_origins_flat has shape (N_cells, 1, dim)
-- 
2.43.0


From c5053ff432d6d08da3507ef006244e1e5eca8ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 24/51] fix: grid lost its last node when the extent divided by
 the cell size rounded down

---
 hydraxmpm/grid/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/grid/grid.py b/hydraxmpm/grid/grid.py
index 248473a..4892cc3 100644
--- a/hydraxmpm/grid/grid.py
+++ b/hydraxmpm/grid/grid.py
@@ -62,7 +62,8 @@ class GridDomain(eqx.Module):
 
         # number of cells in each dimens (M_x,M_y) for 2D, (M_x,M_y,M_z) for 3D
         raw_size = [(e - o) / cell_size for e, o in zip(padded_end, padded_origin)]
-        grid_size = tuple(int(s + 1) for s in raw_size)
+        # tolerance, so that round-off in the division does not drop a node
+        grid_size = tuple(int(s + 1e-6) + 1 for s in raw_size)
 
 
         return cls(
-- 
2.43.0


From 0cdb075ad8611180198d56e44db71dc9c326d54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 25/51] fix: VTK export raised for a static SDF and for
 particles without a property

---
 hydraxmpm/common/vtk_io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index 3a086dd..68fc310 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -70,6 +70,7 @@ class VTKVisualizer:
 
         _point_radius = _point_radius * scale_radius
         
+        prop_data = None
         if property_name is not None:
             prop_data = getattr(mp_state, property_name, None)
         if positions.shape[1] == 2:
@@ -81,10 +82,10 @@ class VTKVisualizer:
 
         # print(prop_data.mean())
 
-        prop_data = np.array(prop_data)
         # print(prop_data.shape)
 
         if prop_data is not None:
+            prop_data = np.array(prop_data)
             if len(prop_data.shape) > 1:
                 if  prop_data.shape[1] == 2:
                     zeros = np.zeros((prop_data.shape[0], 1))
@@ -94,7 +95,8 @@ class VTKVisualizer:
 
         cloud = pv.PolyData(positions_3d)
 
-        cloud.point_data[property_name] = prop_data
+        if prop_data is not None:
+            cloud.point_data[property_name] = prop_data
 
         cloud.point_data["Radius"] = np.full(len(positions), _point_radius)
         
@@ -212,4 +214,4 @@ class VTKVisualizer:
 
                 suffix = f"step_{int(step):05d}" if step is not None else "static"
                 # Standardized save via your _save_vtk method
-                path = self._save_vtk(mesh, label, f"step_{int(step):05d}.vtp")
\ No newline at end of file
+                path = self._save_vtk(mesh, label, f"{suffix}.vtp")
\ No newline at end of file
-- 
2.43.0


From c5ef62077a6c077635015f420eca3adbed719dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 26/51] fix: a body sharing a grid overwrote the grid forces of
 the bodies before it

---
 hydraxmpm/solvers/usl.py        | 2 +-
 hydraxmpm/solvers/usl_asflip.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 41ab2bf..bdc4b5a 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -493,7 +493,7 @@ class USLSolver(BaseSolver):
             )
 
             grid_force_stack = (
-                jnp.zeros_like(grid_cache.moment_stack)
+                grid_cache.force_stack
                 .at[intr_cache.node_hashes]
                 .add(weighted_intern_force_stack + weighted_ext_force_stack)
             )
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index ca19ace..81089af 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -267,7 +267,7 @@ class USLAFLIP(USLSolver):
                 weighted_moment_stack
             )
             grid_force_stack = (
-                jnp.zeros_like(grid_cache.moment_stack)
+                grid_cache.force_stack
                 .at[intr_cache.node_hashes]
                 .add(total_intr_force)
             )
-- 
2.43.0


From 017d5313b09e52cb2cee0f9e8e253380a011fb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 27/51] fix: bodies with a single material point lost their
 array axis

---
 hydraxmpm/solvers/usl.py        | 4 ++--
 hydraxmpm/solvers/usl_asflip.py | 4 +---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index bdc4b5a..5d1a42c 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -616,7 +616,7 @@ class USLSolver(BaseSolver):
                 # Find Closest SDF for each Particle (Particle Space)
                 dists_stack = jnp.stack(
                     [
-                        sim_cache.mp_geoms[(c.p_idx, s)].dists.squeeze()
+                        sim_cache.mp_geoms[(c.p_idx, s)].dists
                         for s in range(num_sdfs)
                     ]
                 )
@@ -721,7 +721,7 @@ class USLSolver(BaseSolver):
                 p_F_next = p_F_next.at[:, 2, 2].set(1.0)
 
             J = jnp.linalg.det(p_F_next)
-            p_volume_next = (J[:, None] * mp_state.volume0_stack[:, None]).squeeze()
+            p_volume_next = J * mp_state.volume0_stack
             mp_state = eqx.tree_at(
                 lambda s: (
                     s.velocity_stack,
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 81089af..44ace26 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -507,9 +507,7 @@ class USLAFLIP(USLSolver):
 
             J_next = jnp.linalg.det(p_F_next)
 
-            p_volume_next = (
-                J_next[:, None] * mp_state.volume0_stack[:, None]
-            ).squeeze()
+            p_volume_next = J_next * mp_state.volume0_stack
 
             # Separable correction to avoid avoid positional trap
             # Use a mix of PIC and FLIP specifically for position to avoid noise
-- 
2.43.0


From 8b90073d86ae095823072765406536a22be558f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 28/51] fix: AFLIP ignored its alpha_support_min and
 alpha_support_max settings

---
 hydraxmpm/solvers/usl_asflip.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 44ace26..53ac433 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -471,7 +471,10 @@ class USLAFLIP(USLSolver):
                 )
 
                 support_ratio = p_mass_support / (mp_state.mass_stack + 1e-9)
-                alpha_scale = jnp.clip((support_ratio - 1.1) / 0.4, 0.0, 1.0)
+                support_range = self.alpha_support_max - self.alpha_support_min
+                alpha_scale = jnp.clip(
+                    (support_ratio - self.alpha_support_min) / support_range, 0.0, 1.0
+                )
                 dynamic_alpha = self.alpha * alpha_scale[:, None]
             else:
                 dynamic_alpha = self.alpha
-- 
2.43.0


From aea6f9f2ce53c3da94addc1c8c9684a01af67f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 29/51] fix: gravity and damping on particles raised when a
 rigid body was present

---
 hydraxmpm/common/builder.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index d76b37c..4bb4264 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -235,6 +235,14 @@ class SimBuilder:
 
         return couple_idx
 
+    def _deformable_p_idx_list(self) -> List[int]:
+        """Indices of the bodies that carry forces (rigid bodies do not)."""
+        return [
+            i
+            for i, mp_state in enumerate(self.particle_states)
+            if not isinstance(mp_state, RigidMaterialPointState)
+        ]
+
     # Forces and force  handles
     def add_gravity(
         self,
@@ -249,7 +257,7 @@ class SimBuilder:
             list(range(len(self.grid_domains))) if g_idx_list is None else g_idx_list
         )
         p_idx_list = (
-            list(range(len(self.particle_states))) if p_idx_list is None else p_idx_list
+            self._deformable_p_idx_list() if p_idx_list is None else p_idx_list
         )
 
         f_idx = len(self.force_logics)
@@ -277,7 +285,7 @@ class SimBuilder:
             list(range(len(self.grid_domains))) if g_idx_list is None else g_idx_list
         )
         p_idx_list = (
-            list(range(len(self.particle_states))) if p_idx_list is None else p_idx_list
+            self._deformable_p_idx_list() if p_idx_list is None else p_idx_list
         )
 
         f_idx = len(self.force_logics)
-- 
2.43.0


From 4901f0ecb3295a73af086466cf74d9fb899c86d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 30/51] fix: Cam Clay create_state from material points raised
 (jnp.full without a value)

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 252c074..b37ba0d 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -343,7 +343,7 @@ class ModifiedCamClay(ConstitutiveLaw):
 
         mcc_state,*_ = self.create_state_from_ocr(
             p_stack=mp_state.pressure_stack,
-            ocr_stack =jnp.full((mp_state.position_stack.shape[0], 1.0))
+            ocr_stack =jnp.full((mp_state.position_stack.shape[0],), 1.0)
         )
 
         return mcc_state
-- 
2.43.0


From 772319f9fd23351d9509eca976f123fbe74812f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 31/51] fix: quadratic kernel used inconsistent base nodes at
 cell centres when compiled

---
 hydraxmpm/shapefunctions/mapping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/shapefunctions/mapping.py b/hydraxmpm/shapefunctions/mapping.py
index d7e2ee8..ac81050 100644
--- a/hydraxmpm/shapefunctions/mapping.py
+++ b/hydraxmpm/shapefunctions/mapping.py
@@ -172,7 +172,10 @@ class ShapeFunctionMapping(eqx.Module):
             
             # apply shift for quadratic splines
             if needs_shift:
-                base_id_float = jnp.floor(base_pos - 0.5)
+                # i.e. floor(base_pos - 0.5), but when compiled that subtraction can be
+                # fused with the product above, and a particle on a cell face centre
+                # would get weights for one base node and indices for another
+                base_id_float = jnp.round(base_pos) - 1.0
             else:
                 base_id_float = jnp.floor(base_pos)
 
-- 
2.43.0


From 45dc60ecf80efd0a5cd1f61da73fdba2241b5f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 32/51] fix: Cam Clay state on the yield surface lost its
 pressure when compiled

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index b37ba0d..074a5d2 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -446,7 +446,11 @@ class ModifiedCamClay(ConstitutiveLaw):
         def pull_to_ys():
             # https://github.com/patrick-kidger/optimistix/issues/132
             # Here we have safe values to avoid nan during compile time
-            safe_mask = lambda x, default: jnp.where(is_ep, x, default)
+            # The mask leaves a margin below yield: compiled code may evaluate yf
+            # with different rounding here and where the branch is selected, and
+            # a state on the yield surface must not pick up the default values
+            near_ep = yf > -1e-5 * (p_c_prev * p_c_prev)
+            safe_mask = lambda x, default: jnp.where(near_ep, x, default)
 
             deps_e_v_tr_safe = safe_mask(deps_e_v_tr, 0.0)
             p_prev_safe = safe_mask(p_prev, 1.0) #
-- 
2.43.0


From a4c9511696cf7b8eb437ea1f5e4cc17b9840a44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 33/51] fix: finite normals of the particle-cloud SDF at a
 particle centre

---
 hydraxmpm/sdf/sdfcollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydraxmpm/sdf/sdfcollection.py b/hydraxmpm/sdf/sdfcollection.py
index 9c15a98..7658606 100644
--- a/hydraxmpm/sdf/sdfcollection.py
+++ b/hydraxmpm/sdf/sdfcollection.py
@@ -530,7 +530,7 @@ class MaterialPointCloudSDF(SDFObjectBase):
             radii_particles = (3.0 * volumes / (4.0 * jnp.pi)) ** (1.0 / 3.0)
 
         diff = p_world - position_stack
-        dists = jnp.linalg.norm(diff, axis=-1) - radii_particles
+        dists = safe_norm(diff, axis=-1) - radii_particles
 
         if self.smooth_k > 1e-3:
             return -jax.nn.logsumexp(-self.smooth_k * dists) / self.smooth_k
-- 
2.43.0


From 0686db0edd3292697f5d4cd8f4cf7e31f19646ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 34/51] fix: last grid node for boxes given in single precision

---
 hydraxmpm/grid/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/grid/grid.py b/hydraxmpm/grid/grid.py
index 4892cc3..c256d12 100644
--- a/hydraxmpm/grid/grid.py
+++ b/hydraxmpm/grid/grid.py
@@ -62,8 +62,8 @@ class GridDomain(eqx.Module):
 
         # number of cells in each dimens (M_x,M_y) for 2D, (M_x,M_y,M_z) for 3D
         raw_size = [(e - o) / cell_size for e, o in zip(padded_end, padded_origin)]
-        # tolerance, so that round-off in the division does not drop a node
-        grid_size = tuple(int(s + 1e-6) + 1 for s in raw_size)
+        # tolerance, so that round-off (also of single precision input) does not drop a node
+        grid_size = tuple(int(s + 1e-3) + 1 for s in raw_size)
 
 
         return cls(
-- 
2.43.0


From a00b486671a0e6d70c0d443747cfd4d57f8abda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 35/51] fix: grids with an array cell size are hashable

---
 hydraxmpm/grid/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hydraxmpm/grid/grid.py b/hydraxmpm/grid/grid.py
index c256d12..c5bed1c 100644
--- a/hydraxmpm/grid/grid.py
+++ b/hydraxmpm/grid/grid.py
@@ -51,6 +51,9 @@ class GridDomain(eqx.Module):
             padding: Optional padding by length of cell_size to extend the grid boundaries. `1` by default.
         """
 
+        # static fields have to be hashable
+        cell_size = float(cell_size)
+
         if not isinstance(origin, tuple):
             origin = tuple(origin.tolist())
         if not isinstance(end, tuple):
-- 
2.43.0


From e45b907af9e3cfb433fea5462afc533c74e4abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 36/51] fix: sampling box of exported obstacle surfaces away
 from the origin

---
 hydraxmpm/common/rerun.py  | 2 +-
 hydraxmpm/common/vtk_io.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 2f4af76..0c00940 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -324,7 +324,7 @@ class RerunVisualizer:
         end = np.array(end)
         start = np.array(start)
         # Here we generate a bunch of points in the domain
-        domain_size = end * 1.05 - start * 0.95
+        domain_size = (end - start) * 1.05
         step_size = np.max(domain_size) / resolution
 
         aspect_size = np.ceil(domain_size / step_size).astype(int)
diff --git a/hydraxmpm/common/vtk_io.py b/hydraxmpm/common/vtk_io.py
index 68fc310..475ac39 100644
--- a/hydraxmpm/common/vtk_io.py
+++ b/hydraxmpm/common/vtk_io.py
@@ -153,7 +153,7 @@ class VTKVisualizer:
             end = np.array(end)
             
             # Setup sampling grid
-            domain_size = end * 1.05 - start * 0.95
+            domain_size = (end - start) * 1.05
             step_size = np.max(domain_size) / resolution
             aspect_size = np.ceil(domain_size / step_size).astype(int)
             
-- 
2.43.0


From aad6ade6a5bcb667260262df1f8d81e715abae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 37/51] fix: normals of obstacle surfaces in the viewer

---
 hydraxmpm/common/rerun.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/hydraxmpm/common/rerun.py b/hydraxmpm/common/rerun.py
index 0c00940..ece1ed8 100644
--- a/hydraxmpm/common/rerun.py
+++ b/hydraxmpm/common/rerun.py
@@ -383,15 +383,11 @@ class RerunVisualizer:
                 world_z = start[2] + verts[:, 2] * step_size
                 world_verts = np.stack([world_x, world_y, world_z], axis=1)
 
-                # Fix Normal permutation (skimage normals align with index axes Y, X, Z)
-                # We need X, Y, Z
-                world_normals = normals[:, [1, 0, 2]]
-
                 rr.log(
                     f"{self.root_path}/{label}",
                     rr.Mesh3D(
                         vertex_positions=world_verts,
-                        vertex_normals=world_normals,
+                        vertex_normals=normals,
                         triangle_indices=faces,
                         albedo_factor=[255, 165, 0, 128],  # Orange
                     ),
-- 
2.43.0


From b760c52647c087f2255797332ac1e26c56f26ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 38/51] fix: finite derivatives through obstacle contact

---
 hydraxmpm/forces/sdf_collider.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/forces/sdf_collider.py b/hydraxmpm/forces/sdf_collider.py
index 6e84b58..e455087 100644
--- a/hydraxmpm/forces/sdf_collider.py
+++ b/hydraxmpm/forces/sdf_collider.py
@@ -46,11 +46,14 @@ def apply_frictional_contact(
     v_rel_corrected = v_corrected_n - v_wall
     v_n_vec = jnp.dot(v_rel_corrected, normal) * normal
     v_t_vec = v_rel_corrected - v_n_vec
-    vt_mag = jnp.linalg.norm(v_t_vec)
+    # guarded, since the derivative of the norm is not finite at zero
+    vt_sq = jnp.sum(v_t_vec**2)
+    is_sliding = vt_sq > 1e-24
+    vt_mag = jnp.where(is_sliding, jnp.sqrt(jnp.where(is_sliding, vt_sq, 1.0)), 0.0)
 
     # Coulomb Law: Friction Limit
     friction_limit = friction_coeff * delta_v_kinematic
-    reduction = jnp.where(vt_mag > 1e-12, jnp.minimum(vt_mag, friction_limit), 0.0)
+    reduction = jnp.minimum(vt_mag, friction_limit)
     
     # Apply reduction safely
     v_t_frictional = v_t_vec * (1.0 - reduction / (vt_mag + 1e-12))
@@ -163,7 +166,8 @@ class SDFCollider(Force):
             # flat_coords = coords.reshape(-1, grid_domain.dim)
 
             # Get current  grid velocity
-            inv_mass = jnp.where(grid_cache.mass_stack > 1e-14, 1.0 / grid_cache.mass_stack, 0.0)
+            has_mass = grid_cache.mass_stack > 1e-14
+            inv_mass = jnp.where(has_mass, 1.0 / jnp.where(has_mass, grid_cache.mass_stack, 1.0), 0.0)
             vel = grid_cache.moment_nt_stack * inv_mass[:, None]
 
             # Compute quantities from SDF object
-- 
2.43.0


From c108140fadaf5be0c02a53dc6d9943dcdc46070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 39/51] fix: finite derivatives of shear measures at zero shear

---
 hydraxmpm/constitutive_laws/mu_i_rheology.py |  4 ++--
 hydraxmpm/utils/math_helpers.py              | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/mu_i_rheology.py b/hydraxmpm/constitutive_laws/mu_i_rheology.py
index a643e3d..2eabcd5 100644
--- a/hydraxmpm/constitutive_laws/mu_i_rheology.py
+++ b/hydraxmpm/constitutive_laws/mu_i_rheology.py
@@ -13,7 +13,7 @@ import jax.numpy as jnp
 
 from .constitutive_law import ConstitutiveLawState, ConstitutiveLaw
 from ..material_points.material_points import MaterialPointState
-from ..utils.math_helpers import get_volumetric_strain, get_dev_strain
+from ..utils.math_helpers import get_volumetric_strain, get_dev_strain, safe_sqrt
 
 from jaxtyping import Float, Array
 from typing import Tuple, Optional, Any
@@ -149,7 +149,7 @@ class MuI_LC(ConstitutiveLaw):
         deps_dev = deps_dt - (deps_v / 3.0) * jnp.eye(3)
         
 
-        dot_gamma = jnp.sqrt(2.0 * jnp.sum(deps_dev * deps_dev))
+        dot_gamma = safe_sqrt(2.0 * jnp.sum(deps_dev * deps_dev))
 
 
         current_density = mass / volume
diff --git a/hydraxmpm/utils/math_helpers.py b/hydraxmpm/utils/math_helpers.py
index e59be0e..9cd35e5 100644
--- a/hydraxmpm/utils/math_helpers.py
+++ b/hydraxmpm/utils/math_helpers.py
@@ -51,6 +51,12 @@ def inv_3x3_robust(m, gradient_clip_val=1e6):
     return inv
 
 
+def safe_sqrt(x):
+    """Square root with a zero (instead of infinite) derivative at zero."""
+    is_zero = x == 0.0
+    return jnp.where(is_zero, 0.0, jnp.sqrt(jnp.where(is_zero, 1.0, x)))
+
+
 def get_double_contraction(A, B):
     """"
     Computes tensor double contraction A:B = trace(A@ B.T)
@@ -136,14 +142,14 @@ def get_q_vm(stress=None, dev_stress=None, pressure=None):
     """
 
     J2 = get_J2(stress, dev_stress, pressure)
-    return jnp.sqrt(3 * J2)
+    return safe_sqrt(3 * J2)
 
 def get_scalar_shear_stress(stress, dev_stress, pressure):
     """
     Get shear stress tau = sqrt(J2).
     """
     J2 = get_J2(stress=stress, dev_stress=dev_stress, pressure=pressure)
-    return jnp.sqrt(J2)
+    return safe_sqrt(J2)
 
 
 def get_volumetric_strain(strain):
-- 
2.43.0


From 4c25382f24d63ffb63a48b6eb0ee20bdd12ba2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 40/51] fix: finite derivatives of the AFLIP velocity limit at
 rest

---
 hydraxmpm/solvers/usl_asflip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index 53ac433..cd7cf8f 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -50,6 +50,8 @@ from ..shapefunctions.mapping import InteractionCache
 
 from ..sdf.sdfobject import SDFObjectBase
 
+from ..utils.math_helpers import safe_sqrt
+
 from jaxtyping import Float, Array
 
 from typing import Tuple, Optional
@@ -486,7 +488,7 @@ class USLAFLIP(USLSolver):
             # --- CFL Clamping ---
             # Clamp velocity magnitude to prevent particles crossing >50% of a cell in one step
             max_speed = self.cfl_limit * grid_domain.cell_size / dt
-            speed = jnp.linalg.norm(p_velocity_next, axis=1, keepdims=True)
+            speed = safe_sqrt(jnp.sum(p_velocity_next**2, axis=1, keepdims=True))
             clamp_factor = jnp.minimum(1.0, max_speed / (speed + 1e-12))
             p_velocity_next = p_velocity_next * clamp_factor
 
-- 
2.43.0


From 3c6deb1a16682f26040e642b8b4fe5584dc8aab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 41/51] fix: Cam Clay derivatives where a shear component is
 zero

The fallback for unconverged values tested for non-zero instead of finite
values: a component of the shear stress that is zero was taken from the trial
stress, so that its derivative ignored the plastic flow, and NaNs passed.
---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 074a5d2..9272a48 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -545,9 +545,9 @@ class ModifiedCamClay(ConstitutiveLaw):
 
             # Handles unconverged values, which may occur at low pressures
             # close to the free surface
-            s_next = jnp.where(s_next, s_next, s_tr)
-            p_next = jnp.where(p_next, p_next, p_prev_safe)
-            p_c_next = jnp.where(p_c_next, p_c_next, p_c_prev_safe)
+            s_next = jnp.where(jnp.isfinite(s_next), s_next, s_tr)
+            p_next = jnp.where(jnp.isfinite(p_next), p_next, p_prev_safe)
+            p_c_next = jnp.where(jnp.isfinite(p_c_next), p_c_next, p_c_prev_safe)
 
 
             stress_next = s_next + (p_next) * jnp.eye(3)
-- 
2.43.0


From d468cf434bd73c476b9e64232c9e9778cc6e1dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 42/51] fix: derivatives of contact with material that sticks
 to an obstacle

At rest the derivative by the tangential velocity was that of free sliding,
although friction removes any small sliding there.
---
 hydraxmpm/forces/sdf_collider.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hydraxmpm/forces/sdf_collider.py b/hydraxmpm/forces/sdf_collider.py
index e455087..6805fbd 100644
--- a/hydraxmpm/forces/sdf_collider.py
+++ b/hydraxmpm/forces/sdf_collider.py
@@ -55,8 +55,12 @@ def apply_frictional_contact(
     friction_limit = friction_coeff * delta_v_kinematic
     reduction = jnp.minimum(vt_mag, friction_limit)
     
-    # Apply reduction safely
-    v_t_frictional = v_t_vec * (1.0 - reduction / (vt_mag + 1e-12))
+    # Apply reduction safely. Sticking material is set apart, for the sake of
+    # the derivative at rest
+    is_sticking = (vt_mag <= friction_limit) & (friction_limit > 0.0)
+    v_t_frictional = v_t_vec * jnp.where(
+        is_sticking, 0.0, 1.0 - reduction / (vt_mag + 1e-12)
+    )
 
     # Final Velocity = Wall + Normal Component + Frictional Tangent
     return v_wall + v_n_vec + v_t_frictional
-- 
2.43.0


From bc6b22a55dbff91a34e541e3c8902e4b9270abf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:34 +0000
Subject: [PATCH 43/51] fix: unified Cam Clay law rotated stress against the
 material spin

---
 projects/unified_elasto_plastic_inertial_mcc/UEPI_MCC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/unified_elasto_plastic_inertial_mcc/UEPI_MCC.py b/projects/unified_elasto_plastic_inertial_mcc/UEPI_MCC.py
index 2e4fa2c..1033415 100644
--- a/projects/unified_elasto_plastic_inertial_mcc/UEPI_MCC.py
+++ b/projects/unified_elasto_plastic_inertial_mcc/UEPI_MCC.py
@@ -322,7 +322,7 @@ class UEPI_MCC(hdx.ConstitutiveLaw):
         ###########################################################################
 
         D = hdx.get_sym_tensor(L)
-        W = hdx.get_spin_tensor(L)
+        W = hdx.get_spin_tensor(-L)  # L is compression positive
 
         # Strain increment
         deps_next = D * dt
-- 
2.43.0


From a21f7ce487f569e1cf843301dfa33b3ededec203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:34 +0000
Subject: [PATCH 44/51] fix: unified Cam Clay initial state ignored the
 requested shear stress

---
 projects/unified_elasto_plastic_inertial_mcc/UEPI_MCC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/unified_elasto_plastic_inertial_mcc/UEPI_MCC.py b/projects/unified_elasto_plastic_inertial_mcc/UEPI_MCC.py
index 1033415..916a1d3 100644
--- a/projects/unified_elasto_plastic_inertial_mcc/UEPI_MCC.py
+++ b/projects/unified_elasto_plastic_inertial_mcc/UEPI_MCC.py
@@ -262,7 +262,8 @@ class UEPI_MCC(hdx.ConstitutiveLaw):
 
         eps_e_stack = jnp.zeros((p_stack.shape[0], 3, 3))
 
-        q_stack = jnp.zeros_like(p_stack)
+        if q_stack is None:
+            q_stack = jnp.zeros_like(p_stack)
 
         stress_ref_stack = hdx.reconstruct_stress_from_triaxial(
             p_stack=p_stack, q_stack=q_stack
-- 
2.43.0


From dec3f833db4047127f5ef390f4811c2513313856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:07 +0000
Subject: [PATCH 45/51] fix: solvers of a subset of the bodies used other
 bodies' solver states

set_solver creates solver states only for the couplings in b_idx_list, but
couplings kept the index of their registration, so AFLIP raised or read the
affine state of another body, also when several solvers were set.
---
 hydraxmpm/common/builder.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index 4bb4264..fdab8be 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -33,6 +33,7 @@ from ..constitutive_laws.linearelastic import LinearElasticLaw
 from ..constitutive_laws.newtonfluid import NewtonFluid
 from ..constitutive_laws.mu_i_rheology import MuI_LC
 
+from dataclasses import replace
 from typing import List, Tuple, Optional, Any, Dict, Callable
 
 
@@ -323,7 +324,19 @@ class SimBuilder:
             list(range(len(self.sdf_logics))) if sdf_idx_list is None else sdf_idx_list
         )
         
-        couplings = tuple(self.couplings[i] for i in b_idx_list)
+        # the states of this solver follow those of the solvers set before it,
+        # in the order of its couplings
+        couplings = tuple(
+            replace(
+                self.couplings[b_idx],
+                s_idx=(
+                    None
+                    if self.couplings[b_idx].skip_mpm_logic
+                    else len(self.solver_states) + i
+                ),
+            )
+            for i, b_idx in enumerate(b_idx_list)
+        )
         forces = tuple(self.force_logics[i] for i in f_idx_list)
         sdf_logics = tuple(self.sdf_logics[i] for i in sdf_idx_list)
 
-- 
2.43.0


From a31e7045d360ee17e64a76cab6390d4cbfbadaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:24 +0000
Subject: [PATCH 46/51] fix: solvers with a subset of the obstacles mixed up
 obstacle states

With sdf_idx_list the solver paired its obstacles with the states of the first
registered ones, dropped the remaining states from the scene, and colliders
looked up the wrong obstacle or raised.
---
 hydraxmpm/common/builder.py      |  7 ++++++-
 hydraxmpm/forces/force.py        |  8 ++++----
 hydraxmpm/forces/sdf_collider.py |  2 +-
 hydraxmpm/solvers/usl.py         | 26 ++++++++++++++++++--------
 hydraxmpm/solvers/usl_asflip.py  |  4 ++--
 5 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/hydraxmpm/common/builder.py b/hydraxmpm/common/builder.py
index fdab8be..af6671c 100644
--- a/hydraxmpm/common/builder.py
+++ b/hydraxmpm/common/builder.py
@@ -338,7 +338,12 @@ class SimBuilder:
             for i, b_idx in enumerate(b_idx_list)
         )
         forces = tuple(self.force_logics[i] for i in f_idx_list)
-        sdf_logics = tuple(self.sdf_logics[i] for i in sdf_idx_list)
+        # SDFs are looked up by their registered index, so the ones this solver
+        # does not use leave a gap
+        sdf_logics = tuple(
+            logic if i in sdf_idx_list else None
+            for i, logic in enumerate(self.sdf_logics)
+        )
 
 
         # couplings refer to grids and laws by their registered index
diff --git a/hydraxmpm/forces/force.py b/hydraxmpm/forces/force.py
index 6153614..452d2ef 100644
--- a/hydraxmpm/forces/force.py
+++ b/hydraxmpm/forces/force.py
@@ -42,7 +42,7 @@ class Force(eqx.Module):
         self: Self,
         world: WorldState,
         mechanics: MechanicsState,
-        sdf_logics: Tuple[SDFObjectBase,...],
+        sdf_logics: Tuple[Optional[SDFObjectBase], ...],
         couplings: Tuple[BodyCoupling, ...],
         dt,
         time
@@ -57,7 +57,7 @@ class Force(eqx.Module):
         world: WorldState,
         mechanics: MechanicsState,
         sim_cache,
-        sdf_logics: Tuple[SDFObjectBase, ...],
+        sdf_logics: Tuple[Optional[SDFObjectBase], ...],
         couplings: Tuple[BodyCoupling, ...],
         grid_domains: Tuple[GridDomain, ...],
         dt,
@@ -73,7 +73,7 @@ class Force(eqx.Module):
         world: WorldState,
         mechanics: MechanicsState,
         sim_cache,
-        sdf_logics: Tuple[SDFObjectBase, ...],
+        sdf_logics: Tuple[Optional[SDFObjectBase], ...],
         couplings: Tuple[BodyCoupling, ...],
         grid_domains: Tuple[GridDomain, ...],
         dt,
@@ -92,7 +92,7 @@ class Force(eqx.Module):
         world: WorldState,
         mechanics: MechanicsState,
         sim_cache,
-        sdf_logics: Tuple[SDFObjectBase, ...],
+        sdf_logics: Tuple[Optional[SDFObjectBase], ...],
         couplings: Tuple[BodyCoupling, ...],
         grid_domains: Tuple[GridDomain, ...],
         dt,
diff --git a/hydraxmpm/forces/sdf_collider.py b/hydraxmpm/forces/sdf_collider.py
index 6805fbd..b512e90 100644
--- a/hydraxmpm/forces/sdf_collider.py
+++ b/hydraxmpm/forces/sdf_collider.py
@@ -144,7 +144,7 @@ class SDFCollider(Force):
         Projects grid momentum to satisfy the boundary condition.
         """
         # return world, mechanics
-        if self.sdf_idx == -1:
+        if self.sdf_idx == -1 or sdf_logics[self.sdf_idx] is None:
             return world, mechanics, sim_cache
 
         grid_caches = list(sim_cache.grids)
diff --git a/hydraxmpm/solvers/usl.py b/hydraxmpm/solvers/usl.py
index 5d1a42c..7dde288 100644
--- a/hydraxmpm/solvers/usl.py
+++ b/hydraxmpm/solvers/usl.py
@@ -74,7 +74,7 @@ class USLSolver(BaseSolver):
 
     forces: Tuple[Force, ...]
 
-    sdf_logics: Tuple[SDFObjectBase, ...]
+    sdf_logics: Tuple[Optional[SDFObjectBase], ...]
 
     active_p_ids: Tuple[int, ...] = eqx.field(static=True)
     active_g_ids: Tuple[int, ...] = eqx.field(static=True)
@@ -88,7 +88,7 @@ class USLSolver(BaseSolver):
         constitutive_laws: Tuple[ConstitutiveLaw, ...],
         couplings: Tuple[BodyCoupling, ...] = (),
         forces: Optional[Tuple[Force, ...]] = (),
-        sdf_logics: Optional[Tuple[SDFObjectBase, ...]] = (),
+        sdf_logics: Optional[Tuple[Optional[SDFObjectBase], ...]] = (),
         alpha=0.99,
         sdf_mp_sharpness: float = 1000.0,
     ):
@@ -199,7 +199,9 @@ class USLSolver(BaseSolver):
         new_sdf_states = []
         for i, sdf_logic in enumerate(self.sdf_logics):
 
-            sdf_state = sdf_logic.update_kinematics(world.sdfs[i], dt)
+            sdf_state = world.sdfs[i]
+            if sdf_logic is not None:
+                sdf_state = sdf_logic.update_kinematics(sdf_state, dt)
             new_sdf_states.append(sdf_state)
 
         # Repack
@@ -253,6 +255,8 @@ class USLSolver(BaseSolver):
             union_mask = jnp.zeros((domain.num_cells,))
 
             for s_idx, sdf_logic in enumerate(self.sdf_logics):
+                if sdf_logic is None:
+                    continue
                 sdf_state = world.sdfs[s_idx]
 
                 dists = (
@@ -284,6 +288,8 @@ class USLSolver(BaseSolver):
             union_mask = jnp.zeros(mp_state.num_points)
 
             for s_idx, sdf_logic in enumerate(self.sdf_logics):
+                if sdf_logic is None:
+                    continue
                 sdf_state = world.sdfs[s_idx]
 
                 dists = sdf_logic.get_signed_distance_stack(
@@ -345,6 +351,8 @@ class USLSolver(BaseSolver):
             mid_in_mask_flat = jnp.zeros((intr_cache.num_interactions,))
 
             for s_idx, sdf_logic in enumerate(self.sdf_logics):
+                if sdf_logic is None:
+                    continue
                 sdf_state = world.sdfs[s_idx]
 
                 d_mid = sdf_logic.get_signed_distance_stack(
@@ -610,23 +618,25 @@ class USLSolver(BaseSolver):
 
             # --------- cpic-----------
             #  ghost velocity correction
-            num_sdfs = len(self.sdf_logics)
-            if num_sdfs > 0:
+            sdf_ids = [
+                s for s, logic in enumerate(self.sdf_logics) if logic is not None
+            ]
+            if len(sdf_ids) > 0:
 
                 # Find Closest SDF for each Particle (Particle Space)
                 dists_stack = jnp.stack(
                     [
                         sim_cache.mp_geoms[(c.p_idx, s)].dists
-                        for s in range(num_sdfs)
+                        for s in sdf_ids
                     ]
                 )
                 norms_stack = jnp.stack(
-                    [sim_cache.mp_geoms[(c.p_idx, s)].normals for s in range(num_sdfs)]
+                    [sim_cache.mp_geoms[(c.p_idx, s)].normals for s in sdf_ids]
                 )
                 vels_stack = jnp.stack(
                     [
                         sim_cache.mp_geoms[(c.p_idx, s)].wall_vels
-                        for s in range(num_sdfs)
+                        for s in sdf_ids
                     ]
                 )
 
diff --git a/hydraxmpm/solvers/usl_asflip.py b/hydraxmpm/solvers/usl_asflip.py
index cd7cf8f..a66c963 100644
--- a/hydraxmpm/solvers/usl_asflip.py
+++ b/hydraxmpm/solvers/usl_asflip.py
@@ -116,7 +116,7 @@ class USLAFLIP(USLSolver):
     couplings: Tuple[BodyCoupling, ...]
     constitutive_laws: Tuple[ConstitutiveLaw, ...]
     forces: Tuple[Force, ...]
-    sdf_logics: Tuple[SDFObjectBase, ...]
+    sdf_logics: Tuple[Optional[SDFObjectBase], ...]
     grid_domains: Tuple[GridDomain, ...] = eqx.field(static=True)
     
     active_p_ids: Tuple[int, ...] = eqx.field(static=True)
@@ -133,7 +133,7 @@ class USLAFLIP(USLSolver):
         constitutive_laws: Tuple[Optional[ConstitutiveLaw], ...],
         couplings: Tuple[BodyCoupling, ...] = (),
         forces: Tuple[Optional[Force], ...] = (),
-        sdf_logics: Optional[Tuple[SDFObjectBase, ...]] = (),
+        sdf_logics: Optional[Tuple[Optional[SDFObjectBase], ...]] = (),
         alpha=0.99,
         use_dynamic_alpha: bool = True,
         alpha_support_min: float = 1.1,
-- 
2.43.0


From 3cc88ef9ebec8b1f6cbbf14df3d1ebdd9ea9f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:01 +0000
Subject: [PATCH 47/51] fix: compressed trajectories used a zarr call that zarr
 3 removed

---
 projects/lorentz_collapse/save_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/lorentz_collapse/save_data.py b/projects/lorentz_collapse/save_data.py
index d3aae94..7715098 100644
--- a/projects/lorentz_collapse/save_data.py
+++ b/projects/lorentz_collapse/save_data.py
@@ -105,12 +105,12 @@ def save_compressed_sim(
             chunks = array.shape
 
         # Create and fill the dataset
-        z_arr = root.create_dataset(
+        z_arr = root.create_array(
             key,
             shape=array.shape,
             chunks=chunks,
             dtype=array.dtype,
-            compressor=compressor,
+            compressors=compressor,
             overwrite=True,
         )
         # Use np.asarray to ensure JAX arrays are converted correctly for the Zarr writer
-- 
2.43.0


From 523c70839cadf0ff5d95cebf0ff81008507bb893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:01 +0000
Subject: [PATCH 48/51] fix: scalars of compressed trajectories could not be
 written

---
 projects/lorentz_collapse/save_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/lorentz_collapse/save_data.py b/projects/lorentz_collapse/save_data.py
index 7715098..ff40e92 100644
--- a/projects/lorentz_collapse/save_data.py
+++ b/projects/lorentz_collapse/save_data.py
@@ -114,7 +114,7 @@ def save_compressed_sim(
             overwrite=True,
         )
         # Use np.asarray to ensure JAX arrays are converted correctly for the Zarr writer
-        z_arr[:] = jax.device_get(array)
+        z_arr[...] = jax.device_get(array)
 
     jax.tree_util.tree_map_with_path(leaf_to_zarr, dynamic_state)
 
-- 
2.43.0


From 8710db6e658db0f29554e147f2c60d693813e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:01 +0000
Subject: [PATCH 49/51] fix: plain collapse runs ignored the tilt of their
 parameters

---
 projects/lorentz_collapse/collapse_setup.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/projects/lorentz_collapse/collapse_setup.py b/projects/lorentz_collapse/collapse_setup.py
index a24ee04..0927055 100644
--- a/projects/lorentz_collapse/collapse_setup.py
+++ b/projects/lorentz_collapse/collapse_setup.py
@@ -207,10 +207,18 @@ class CollapseSetup:
                 state.world.sdfs[self.bumpy_floor_sdf_idx],
                 (params.bumps, params.frictions),
             )
+            gravity = eqx.tree_at(
+                lambda f: f.gravity,
+                state.mechanics.forces[self.gravity_f_id],
+                params.get_gravity_vector(),
+            )
             state = eqx.tree_at(
-                lambda s: s.world.sdfs[self.bumpy_floor_sdf_idx],
+                lambda s: (
+                    s.world.sdfs[self.bumpy_floor_sdf_idx],
+                    s.mechanics.forces[self.gravity_f_id],
+                ),
                 state,
-                bumpy_floor,
+                (bumpy_floor, gravity),
             )
 
         steps = int(self.total_time / self.dt)
-- 
2.43.0


From 80eb81e7811c41f3fd2b7d78dd83d946ebf80113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:01 +0000
Subject: [PATCH 50/51] fix: collapse runs without parameters failed on the
 missing run number

---
 projects/lorentz_collapse/collapse_setup.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/lorentz_collapse/collapse_setup.py b/projects/lorentz_collapse/collapse_setup.py
index 0927055..0016eb1 100644
--- a/projects/lorentz_collapse/collapse_setup.py
+++ b/projects/lorentz_collapse/collapse_setup.py
@@ -224,7 +224,7 @@ class CollapseSetup:
         steps = int(self.total_time / self.dt)
         output_step = int(self.output_time / self.dt)
 
-        sim_id = params.sim_id if params is not None else None
+        sim_id = params.sim_id if params is not None else 0
 
         def loop_body(i, val_state):
 
@@ -422,17 +422,19 @@ class CollapseSetup:
         output_step = int(self.output_time / self.dt)
         num_snapshots = num_steps // output_step
 
+        sim_id = params.sim_id if params is not None else 0
+
         def inner_step(carry_state, _):
             def body(i, s):
                 return solver(s)
 
             next_state = jax.lax.fori_loop(0, output_step, body, carry_state)
 
-            jax.debug.callback(self.log_simulation, next_state, params.sim_id)
+            jax.debug.callback(self.log_simulation, next_state, sim_id)
 
             jax.debug.print(
                 "Snapshot for sim_id: {sim_id} at time {time}",
-                sim_id=params.sim_id,
+                sim_id=sim_id,
                 time=next_state.time,
             )
 
-- 
2.43.0


From 6c9a485acca7c1a7e12e1c081ab2557870cf07d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:49 +0000
Subject: [PATCH 51/51] fix: reduce extensional shear outside the yield surface
 when creating Cam Clay states

---
 hydraxmpm/constitutive_laws/modifiedcamclay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hydraxmpm/constitutive_laws/modifiedcamclay.py b/hydraxmpm/constitutive_laws/modifiedcamclay.py
index 9272a48..5be32f4 100644
--- a/hydraxmpm/constitutive_laws/modifiedcamclay.py
+++ b/hydraxmpm/constitutive_laws/modifiedcamclay.py
@@ -238,7 +238,9 @@ class ModifiedCamClay(ConstitutiveLaw):
 
             q_p_ys_stack = get_qp_ys(p_c_stack, p_stack, self.M)
             
-            yf_check = q_p_inp_stack - q_p_ys_stack
+            # shear is negative in triaxial extension
+            yf_check = jnp.abs(q_p_inp_stack) - q_p_ys_stack
+            q_p_ys_stack = jnp.sign(q_p_inp_stack) * q_p_ys_stack
 
             q_p_stack = jnp.where(yf_check > 0, q_p_ys_stack, q_p_inp_stack)
 
-- 
2.43.0

