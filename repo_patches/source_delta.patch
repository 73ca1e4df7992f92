From f7e3b3a4a0cf7faf6b0a5756112542c50507022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 01/23] fix: mirror padding of wall-aligned data next to a
 periodic axis

The boundary constants of periodic axes may be None; use the mapped
constants, as the other padding branches do, so that jnp.pad accepts them.
---
 jax_cfd/base/boundaries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/base/boundaries.py b/jax_cfd/base/boundaries.py
index de47b34..8a0e1cb 100644
--- a/jax_cfd/base/boundaries.py
+++ b/jax_cfd/base/boundaries.py
@@ -253,7 +253,7 @@ class ConstantBoundaryConditions(BoundaryConditions):
             # here we are adding 0 boundary cell with 0 value
             expanded_data = jnp.pad(
                 data, bc_padding, mode='constant', constant_values=(0, 0))
-            padding_values = list(self.bc_values)
+            padding_values = list(self.constant_values)
             padding_values[axis] = [pad / 2 for pad in padding_values[axis]]
             data = 2 * jnp.pad(
                 data,
-- 
2.43.0


From 35412b27fb2d5e6c5f550e403af0d1d1fa2f1810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 02/23] fix: advection flux boundary condition holds tuples so
 that it compares and hashes

---
 jax_cfd/base/boundaries.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/boundaries.py b/jax_cfd/base/boundaries.py
index 8a0e1cb..cc4232f 100644
--- a/jax_cfd/base/boundaries.py
+++ b/jax_cfd/base/boundaries.py
@@ -816,6 +816,6 @@ def get_advection_flux_bc_from_velocity_and_scalar(
         else:
           raise NotImplementedError(
               f'Flux boundary condition is not implemented for {u.bc, c.bc}')
-      flux_bc_types.append(flux_bc_types_ax)
-      flux_bc_values.append(flux_bc_values_ax)
+      flux_bc_types.append(tuple(flux_bc_types_ax))
+      flux_bc_values.append(tuple(flux_bc_values_ax))
   return ConstantBoundaryConditions(flux_bc_types, flux_bc_values)
-- 
2.43.0


From e6c28812c805f16005cdc96fdc6d8fa0cb50b3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 03/23] fix: advect_van_leer takes the limited correction at
 the control volume of c for face-centred c

---
 jax_cfd/base/advection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/advection.py b/jax_cfd/base/advection.py
index f4afd5b..36a202b 100644
--- a/jax_cfd/base/advection.py
+++ b/jax_cfd/base/advection.py
@@ -287,8 +287,9 @@ def advect_van_leer(
   # next, compute van_leer correction.
   for axis, (u, h) in enumerate(zip(aligned_v, c.grid.step)):
     u = u.bc.shift(u.array, int(u.offset[axis] % 1 - u.offset[axis]), axis=axis)
-    # c is put to offset .5 or 1.
-    c_center_arr = c.shift(int(1 - c.offset[ax]), axis=ax)
+    # c is put to offset .5 or 1 along axis, other axes are kept as in u.
+    c_center_arr = c_left_var.shift(
+        int(1 - c_left_var.offset[axis]), axis=axis)
     # if c offset is 1, u offset is .5.
     # if c offset is .5, u offset is 0.
     # u_i is always on the left of c_center_var_i
-- 
2.43.0


From 93d8364c5dac8bfeb15e272d107876e1440e5ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 04/23] fix: diffusion.solve_fast_diag accounts for boundary
 values on every axis

The linear part was built from the first row of the mesh, which is only the
coordinate of the last axis in 2D (other shapes raised), and a linear function
of one axis is not harmonic next to Dirichlet walls of another axis.
---
 jax_cfd/base/diffusion.py | 96 +++------------------------------------
 1 file changed, 7 insertions(+), 89 deletions(-)

diff --git a/jax_cfd/base/diffusion.py b/jax_cfd/base/diffusion.py
index eb28919..909da65 100644
--- a/jax_cfd/base/diffusion.py
+++ b/jax_cfd/base/diffusion.py
@@ -15,9 +15,8 @@
 # TODO(pnorgaard) Implement bicgstab for non-symmetric operators
 
 """Module for functionality related to diffusion."""
-from typing import Optional, Tuple
+from typing import Optional
 
-import jax.numpy as jnp
 import jax.scipy.sparse.linalg
 from jax_cfd.base import array_utils
 from jax_cfd.base import boundaries
@@ -57,83 +56,6 @@ def stable_time_step(viscosity: float, grid: grids.Grid) -> float:
   return dx ** 2 / (viscosity * 2 ** ndim)
 
 
-def _subtract_linear_part_dirichlet(
-    c_data: Array,
-    grid: grids.Grid,
-    axis: int,
-    offset: Tuple[float, float],
-    bc_values: Tuple[float, float],
-) -> Array:
-  """Transforms c_data such that c_data satisfies dirichlet boundary.
-
-  The function subtracts a linear function from c_data s.t. the returned
-  array has homogeneous dirichlet boundaries. Note that this assumes c_data has
-  constant dirichlet boundary values.
-
-  Args:
-    c_data: right-hand-side of diffusion equation.
-    grid: grid object
-    axis: axis along which to impose boundary transformation
-    offset: offset of the right-hand-side
-    bc_values: boundary values along axis
-
-  Returns:
-    transformed right-hand-side
-  """
-
-  def _update_rhs_along_axis(arr_1d, linear_part):
-    arr_1d = arr_1d - linear_part
-    return arr_1d
-
-  lower_value, upper_value = bc_values
-  y = grid.mesh(offset)[axis][0]
-  one_d_grid = grids.Grid((grid.shape[axis],), domain=(grid.domain[axis],))
-  y_boundary = boundaries.dirichlet_boundary_conditions(ndim=1)
-  y = y_boundary.trim_boundary(grids.GridArray(y, (offset[axis],),
-                                               one_d_grid)).data
-  domain_length = (grid.domain[axis][1] - grid.domain[axis][0])
-  domain_start = grid.domain[axis][0]
-  linear_part = lower_value + (upper_value - lower_value) * (
-      y - domain_start) / domain_length
-  c_data = jnp.apply_along_axis(
-      _update_rhs_along_axis, axis, c_data, linear_part)
-  return c_data
-
-
-def _rhs_transform(
-    u: grids.GridArray,
-    bc: boundaries.BoundaryConditions,
-) -> Array:
-  """Transforms the RHS of diffusion equation.
-
-  In case of constant dirichlet boundary conditions for heat equation
-  the linear term is subtracted. See diffusion.solve_fast_diag.
-
-  Args:
-    u: a GridArray that solves ∇²x = ∇²u for x.
-    bc: specifies boundary of u.
-
-  Returns:
-    u' s.t. u = u' + w where u' has 0 dirichlet bc and w is linear.
-  """
-  if not isinstance(bc, boundaries.ConstantBoundaryConditions):
-    raise NotImplementedError(
-        f'transformation cannot be done for this {bc}.')
-  u_data = u.data
-  for axis in range(u.grid.ndim):
-    for i, _ in enumerate(['lower', 'upper']):  # lower and upper boundary
-      if bc.types[axis][i] == boundaries.BCType.DIRICHLET:
-        bc_values = [0., 0.]
-        bc_values[i] = bc.bc_values[axis][i]
-        u_data = _subtract_linear_part_dirichlet(u_data, u.grid, axis, u.offset,
-                                                 bc_values)
-      elif bc.types[axis][i] == boundaries.BCType.NEUMANN:
-        if any(bc.bc_values[axis]):
-          raise NotImplementedError(
-              'transformation is not implemented for inhomogeneous Neumann bc.')
-  return u_data
-
-
 def solve_cg(v: GridVariableVector,
              nu: float,
              dt: float,
@@ -174,17 +96,13 @@ def solve_fast_diag(
   # because this is better conditioned than directly diagonalizing 1 - ν Δt ∇²
   # when ν Δt is small.
   def func(x):
-    dt_nu_x = (dt * nu) * x
-    return dt_nu_x / (1 - dt_nu_x)
+    dt_nu = dt * nu
+    return dt_nu / (1 - dt_nu * x)
 
   # Compute (1 - ν Δt ∇²)⁻¹ u as u + (1 - ν Δt ∇²)⁻¹ (ν Δt ∇²) u, for less
   # error when ν Δt is small.
-  # If dirichlet bc are supplied: only works for dirichlet bc that are linear
-  # functions on the boundary. Then u = u' + w where u' has 0 dirichlet bc and
-  # w is linear. Then u + (1 - ν Δt ∇²)⁻¹ (ν Δt ∇²) u = u +
-  # (1 - ν Δt ∇²)⁻¹(ν Δt ∇²)u'. The function _rhs_transform subtracts
-  # the linear part s.t. fast_diagonalization solves
-  # u + (1 - ν Δt ∇²)⁻¹ (ν Δt ∇²) u'.
+  # Boundary values enter only through ∇²u: the update u_diffused - u satisfies
+  # homogeneous boundary conditions, which is what the matrices represent.
   v_diffused = list()
   if boundaries.has_all_periodic_boundary_conditions(*v):
     circulant = True
@@ -203,9 +121,9 @@ def solve_fast_diag(
         circulant=circulant,
         implementation=implementation)
     u_interior = u.bc.trim_boundary(u.array)
-    u_interior_transformed = _rhs_transform(u_interior, u.bc)
+    laplacian_u = u.bc.trim_boundary(fd.laplacian(u))
     u_dt_diffused = grids.GridArray(
-        op(u_interior_transformed), u_interior.offset, u_interior.grid)
+        op(laplacian_u.data), u_interior.offset, u_interior.grid)
     u_diffused = u_interior + u_dt_diffused
     u_diffused = u.bc.pad_and_impose_bc(u_diffused, offset_to_pad_to=u.offset)
     v_diffused.append(u_diffused)
-- 
2.43.0


From bd9e9f405928d68a0ca2153e3de98376e890b9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 05/23] fix: implicit diffusion step divides the viscosity by
 the density

---
 jax_cfd/base/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/base/equations.py b/jax_cfd/base/equations.py
index af0954e..922eb5b 100644
--- a/jax_cfd/base/equations.py
+++ b/jax_cfd/base/equations.py
@@ -190,6 +190,6 @@ def implicit_diffusion_navier_stokes(
     # Pressure projection to incompressible velocity field
     v = pressure_projection(v, pressure_solve)
     # Solve for implicit diffusion
-    v = diffusion_solve(v, viscosity, dt)
+    v = diffusion_solve(v, viscosity / density, dt)
     return v
   return navier_stokes_step
-- 
2.43.0


From f83f06a6516c2e7770c4217aee190653e5e7a603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 06/23] fix: low-storage Runge-Kutta schemes check the length
 of every coefficient list

---
 jax_cfd/spectral/time_stepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/spectral/time_stepping.py b/jax_cfd/spectral/time_stepping.py
index 6a5720b..2528be8 100644
--- a/jax_cfd/spectral/time_stepping.py
+++ b/jax_cfd/spectral/time_stepping.py
@@ -156,7 +156,7 @@ def low_storage_runge_kutta_crank_nicolson(
   G = tree_math.unwrap(equation.implicit_terms)
   G_inv = tree_math.unwrap(equation.implicit_solve, vector_argnums=0)
 
-  if len(alphas) - 1 != len(betas) != len(gammas):
+  if not len(alphas) - 1 == len(betas) == len(gammas):
     raise ValueError("number of RK coefficients does not match")
 
   @tree_math.wrap
-- 
2.43.0


From 45b3ddb5a48d67ea56947a26f2c2ebd4e4d4be66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 07/23] fix: NavierStokes2D with smooth=False does not filter
 the advection term

---
 jax_cfd/spectral/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/spectral/equations.py b/jax_cfd/spectral/equations.py
index a8f9b63..999be1a 100644
--- a/jax_cfd/spectral/equations.py
+++ b/jax_cfd/spectral/equations.py
@@ -169,7 +169,7 @@ class NavierStokes2D(time_stepping.ImplicitExplicitODE):
     advection = -(grad_x * vx + grad_y * vy)
     advection_hat = jnp.fft.rfftn(advection)
 
-    if self.smooth is not None:
+    if self.smooth:
       advection_hat *= self.filter_
 
     terms = advection_hat
-- 
2.43.0


From 6082456cc9691f82d0adcdc1510aae4a50998629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 08/23] fix: kolmogorov_forcing puts its zero components at the
 requested offsets

---
 jax_cfd/base/forcings.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jax_cfd/base/forcings.py b/jax_cfd/base/forcings.py
index 7990a83..d27095e 100644
--- a/jax_cfd/base/forcings.py
+++ b/jax_cfd/base/forcings.py
@@ -76,11 +76,11 @@ def kolmogorov_forcing(
     v = scale * grids.GridArray(jnp.sin(k * x), offsets[1], grid)
 
     if grid.ndim == 2:
-      u = grids.GridArray(jnp.zeros_like(v.data), (1, 1/2), grid)
+      u = grids.GridArray(jnp.zeros_like(v.data), offsets[0], grid)
       f = (u, v)
     elif grid.ndim == 3:
-      u = grids.GridArray(jnp.zeros_like(v.data), (1, 1/2, 1/2), grid)
-      w = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1/2, 1), grid)
+      u = grids.GridArray(jnp.zeros_like(v.data), offsets[0], grid)
+      w = grids.GridArray(jnp.zeros_like(u.data), offsets[2], grid)
       f = (u, v, w)
     else:
       raise NotImplementedError
@@ -89,11 +89,11 @@ def kolmogorov_forcing(
     u = scale * grids.GridArray(jnp.sin(k * y), offsets[0], grid)
 
     if grid.ndim == 2:
-      v = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1), grid)
+      v = grids.GridArray(jnp.zeros_like(u.data), offsets[1], grid)
       f = (u, v)
     elif grid.ndim == 3:
-      v = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1, 1/2), grid)
-      w = grids.GridArray(jnp.zeros_like(u.data), (1/2, 1/2, 1), grid)
+      v = grids.GridArray(jnp.zeros_like(u.data), offsets[1], grid)
+      w = grids.GridArray(jnp.zeros_like(u.data), offsets[2], grid)
       f = (u, v, w)
     else:
       raise NotImplementedError
-- 
2.43.0


From 4bbd2497a5354b409f868e584d6b7617d27230cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 09/23] fix: TaylorGreen decays at the rate of its wave numbers
 and density

---
 jax_cfd/base/validation_problems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/base/validation_problems.py b/jax_cfd/base/validation_problems.py
index bb09b2c..b363f3c 100644
--- a/jax_cfd/base/validation_problems.py
+++ b/jax_cfd/base/validation_problems.py
@@ -85,7 +85,8 @@ class TaylorGreen(Problem):
     if offsets is None:
       offsets = self.grid.cell_faces
 
-    scale = jnp.exp(-2 * self.viscosity * t)
+    decay_rate = (self._kx**2 + self._ky**2) * self.viscosity / self.density
+    scale = jnp.exp(-decay_rate * t)
 
     ux, uy = self.grid.mesh(offsets[0])
     u = grids.GridVariable(
-- 
2.43.0


From 06d36bfb2a2af8dbae05c4d5710de7046d2fcb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 10/23] fix: correlation_single_step normalizes over the
 spatial axes of each sample

---
 jax_cfd/ml/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/ml/metrics.py b/jax_cfd/ml/metrics.py
index 0fbea33..16ab92f 100644
--- a/jax_cfd/ml/metrics.py
+++ b/jax_cfd/ml/metrics.py
@@ -67,7 +67,8 @@ def correlation_single_step(trajectory: Tuple[Array, ...],
   """Computes correlation on the `n`th time slice."""
   trajectory = jnp.stack(arr_utils.slice_along_axis(trajectory, time_axis, n))
   target = jnp.stack(arr_utils.slice_along_axis(target, time_axis, n))
-  state_axes = tuple(axis if axis <= time_axis else axis - 1
+  # the leading axis of the stacked components replaces the sliced `time_axis`.
+  state_axes = tuple(axis + 1 if axis < time_axis else axis
                      for axis in range(trajectory.ndim)
                      if axis != time_axis and axis != batch_axis)
   trajectory_normalized = _normalize(trajectory, state_axes)
-- 
2.43.0


From 054d65f384dc26b0e6a2a3ce68e74e64b75766ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 11/23] fix: local_reduce reduces over the axis that holds the
 batch

---
 jax_cfd/ml/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/ml/metrics.py b/jax_cfd/ml/metrics.py
index 16ab92f..0a6004f 100644
--- a/jax_cfd/ml/metrics.py
+++ b/jax_cfd/ml/metrics.py
@@ -98,8 +98,8 @@ def local_reduce(metric: Callable[..., Array],
     along the batch axis.
   """
   def reduced_metric(*args, **kwargs):
-    metric_value = jax.vmap(metric, batch_axis)(*args, **kwargs)
-    return reduction_function(metric_value, batch_axis)
+    metric_value = jax.vmap(metric, batch_axis, out_axes=0)(*args, **kwargs)
+    return reduction_function(metric_value, 0)
   return reduced_metric
 
 
-- 
2.43.0


From 4e01d30e06ae4021537ae72dd2aade1a6c4a0ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 12/23] fix: explicit Smagorinsky model applies the eddy
 viscosity acceleration undivided by density

---
 jax_cfd/base/subgrid_models.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/subgrid_models.py b/jax_cfd/base/subgrid_models.py
index d2bba37..38dac3e 100644
--- a/jax_cfd/base/subgrid_models.py
+++ b/jax_cfd/base/subgrid_models.py
@@ -206,10 +206,15 @@ def explicit_smagorinsky_navier_stokes(dt, cs, forcing, **kwargs):
       smagorinsky_viscosity, dt=dt, cs=cs)
   smagorinsky_acceleration = functools.partial(
       evm_model, viscosity_fn=viscosity_fn)
+
+  def smagorinsky_forcing(v):
+    # solvers divide the forcing by density.
+    return tuple(kwargs['density'] * a for a in smagorinsky_acceleration(v))
+
   if forcing is None:
-    forcing = smagorinsky_acceleration
+    forcing = smagorinsky_forcing
   else:
-    forcing = forcings.sum_forcings(forcing, smagorinsky_acceleration)
+    forcing = forcings.sum_forcings(forcing, smagorinsky_forcing)
   return equations.semi_implicit_navier_stokes(dt=dt, forcing=forcing, **kwargs)
 
 
-- 
2.43.0


From 5c204e5f86dbc183e39cda9ea1e98c7bab789bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:23 +0000
Subject: [PATCH 13/23] fix: downsample_staggered_velocity refuses grids with
 different factors per axis

---
 jax_cfd/base/resize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_cfd/base/resize.py b/jax_cfd/base/resize.py
index ceb3c3c..37861d4 100644
--- a/jax_cfd/base/resize.py
+++ b/jax_cfd/base/resize.py
@@ -193,6 +193,9 @@ def downsample_staggered_velocity(
   factor = destination_grid.step[0] / source_grid.step[0]
   assert destination_grid.domain == source_grid.domain
   assert round(factor) == factor, factor
+  # the same factor applies to every axis.
+  assert tuple(round(factor) * n for n in destination_grid.shape) == (
+      source_grid.shape), (source_grid.shape, destination_grid.shape)
   result = []
   for j, u in enumerate(velocity):
     if isinstance(u, GridVariable):
-- 
2.43.0


From b83cd8367c3178dc7bb91546c99e99459f0d90ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:23 +0000
Subject: [PATCH 14/23] fix: downsample_spectral keeps the zero-centred modes
 for odd sizes

---
 jax_cfd/base/resize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/base/resize.py b/jax_cfd/base/resize.py
index 37861d4..377d5cb 100644
--- a/jax_cfd/base/resize.py
+++ b/jax_cfd/base/resize.py
@@ -233,8 +233,11 @@ def downsample_spectral(_: grids.Grid, destination_grid: grids.Grid,
 
   input_num_x, _ = signal_hat.shape
 
-  downed = jnp.concatenate(
-      [signal_hat[:num_x // 2, :num_y], signal_hat[-num_x // 2:, :num_y]])
+  # an odd number of modes has one more non-negative than negative frequency.
+  downed = jnp.concatenate([
+      signal_hat[:(num_x + 1) // 2, :num_y],
+      signal_hat[input_num_x - num_x // 2:, :num_y]
+  ])
 
   scale = (num_x / input_num_x)
   downed *= scale**2
-- 
2.43.0


From 4412489fbcfdd1ce4ac985d70ea4544892d16690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:23 +0000
Subject: [PATCH 15/23] fix: downsample_spectral normalises by the ratio of
 grid sizes on both axes

---
 jax_cfd/base/resize.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/base/resize.py b/jax_cfd/base/resize.py
index 377d5cb..5aa2ac4 100644
--- a/jax_cfd/base/resize.py
+++ b/jax_cfd/base/resize.py
@@ -225,7 +225,8 @@ def downsample_staggered_velocity(
 
 
 # TODO(dresdner) gin usage should be restricted to jax_cfd.ml
-def downsample_spectral(_: grids.Grid, destination_grid: grids.Grid,
+def downsample_spectral(source_grid: Optional[grids.Grid],
+                        destination_grid: grids.Grid,
                         signal_hat: RawArray):
   """Downsamples a 2D signal in the Fourier basis to the `destination_grid`."""
   kx, ky = destination_grid.rfft_axes()
@@ -239,6 +240,9 @@ def downsample_spectral(_: grids.Grid, destination_grid: grids.Grid,
       signal_hat[input_num_x - num_x // 2:, :num_y]
   ])
 
-  scale = (num_x / input_num_x)
-  downed *= scale**2
+  if source_grid is None:  # assume equal factors along both axes.
+    scale = (num_x / input_num_x)**2
+  else:
+    scale = np.prod(destination_grid.shape) / np.prod(source_grid.shape)
+  downed *= scale
   return downed
-- 
2.43.0


From 1930f17517a3e8fc9690533455d304ea521a8cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 16/23] fix: spatial_autocorrelation labels displacements from
 zero

The displacement coordinate held the first cell centers (h/2, 3h/2, ...)
instead of the displacements 0, h, ...; with current xarray versions the
assignment of a DataArray raised TypeError.
---
 jax_cfd/data/xarray_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_cfd/data/xarray_utils.py b/jax_cfd/data/xarray_utils.py
index 1dc971b..bb996b0 100644
--- a/jax_cfd/data/xarray_utils.py
+++ b/jax_cfd/data/xarray_utils.py
@@ -225,7 +225,9 @@ def spatial_autocorrelation(array, spatial_axis='x'):
   # we only report the unique half of the autocorrelation.
   num_unique_displacements = spatial_axis_size // 2
   result = full_result.isel({out_axis_name: slice(0, num_unique_displacements)})
-  displacement_coords = array.coords[spatial_axis][:num_unique_displacements]
+  # displacements are measured from the first point (which is a cell center).
+  positions = array.coords[spatial_axis].values[:num_unique_displacements]
+  displacement_coords = positions - positions[:1]
   result.coords[out_axis_name] = (out_axis_name, displacement_coords)
   return result
 
-- 
2.43.0


From 39e318e74608f7623dae8823805fe2baad54393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 17/23] fix: FusedLearnedInterpolation returns its input
 unexpanded when offsets match

---
 jax_cfd/ml/interpolations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/ml/interpolations.py b/jax_cfd/ml/interpolations.py
index f984038..1db3458 100644
--- a/jax_cfd/ml/interpolations.py
+++ b/jax_cfd/ml/interpolations.py
@@ -104,11 +104,11 @@ class FusedLearnedInterpolation:
                dt: float,
                tag=None) -> GridVariable:
     del dt  # not used.
+    # TODO(jamieas): Try removing the following line.
+    if c.offset == offset: return c
     # TODO(dkochkov) Add decorator to expand/squeeze channel dim.
     c = grids.GridVariable(
         grids.GridArray(jnp.expand_dims(c.data, -1), c.offset, c.grid), c.bc)
-    # TODO(jamieas): Try removing the following line.
-    if c.offset == offset: return c
     key = (c.offset, offset, tag)
     interpolator = self._interpolators.get(key)
     if interpolator is None:
-- 
2.43.0


From b3de514e14d2f80663245e1cb1a131e4589cb74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 18/23] fix: roll learned stencils along their own axes only

---
 jax_cfd/ml/layers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index 9c662d7..1e0afb3 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -625,7 +625,7 @@ class SpatialDerivativeFromLogits:
                        f'size; {logits.shape[-1]} vs. {self.subspace_size}')
 
   def extract_patches(self, inputs):
-    rolled = jnp.roll(inputs, self.roll)
+    rolled = jnp.roll(inputs, self.roll, axis=tuple(range(len(self.roll))))
     patches = layers_util.extract_patches(
         rolled, self.stencil_shape,
         self._extract_patch_method, self.tile_layout)
@@ -747,12 +747,14 @@ class SpatialDerivative:
     # `roll` implementation of `extract_patches`, we can simply add it to the
     # `shifts`. For the `conv` implementation, we may be able to effectively
     # roll the input by adjusting how arrays are padded.
-    rolled = jnp.roll(inputs, self._roll)
+    axes = tuple(range(len(self._roll)))
+    rolled = jnp.roll(inputs, self._roll, axis=axes)
     patches = layers_util.extract_patches(
         rolled, self._stencil_shape,
         self._extract_patch_method, self._tile_layout)
     if auxiliary_inputs is not None:
-      auxiliary_inputs = [jnp.roll(aux, self._roll) for aux in auxiliary_inputs]
+      auxiliary_inputs = [
+          jnp.roll(aux, self._roll, axis=axes) for aux in auxiliary_inputs]
       rolled = jnp.concatenate([rolled, *auxiliary_inputs], axis=-1)
     coefficients = self._coefficients_module(rolled)
     return layers_util.apply_coefficients(coefficients, patches)
-- 
2.43.0


From 5a3815dde3e1c1fc4ddae38628be6bec0a9e4033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:18 +0000
Subject: [PATCH 19/23] fix: MirrorConv pads each axis by its own kernel size

---
 jax_cfd/ml/layers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jax_cfd/ml/layers.py b/jax_cfd/ml/layers.py
index 1e0afb3..f13aca6 100644
--- a/jax_cfd/ml/layers.py
+++ b/jax_cfd/ml/layers.py
@@ -165,12 +165,11 @@ class MirrorConvGeneral(hk.Module):
       **conv_kwargs: additional arguments passed to `base_convolution`.
     """
     super().__init__(name=name)
-    self._padding = np.zeros(2).astype('int')
+    self._padding = []
     for kernel_size in kernel_shape:
       effective_kernel = kernel_size + (rate - 1) * (kernel_size - 1)
       pad_left = effective_kernel // 2
-      self._padding += np.array([pad_left,
-                                 effective_kernel - pad_left - 1]).astype('int')
+      self._padding.append((pad_left, effective_kernel - pad_left - 1))
     self._tile_layout = tile_layout
     self._conv_module = base_convolution(
         output_channels=output_channels, kernel_shape=kernel_shape,
@@ -178,7 +177,7 @@ class MirrorConvGeneral(hk.Module):
 
   def _expand_var(self, var):
     var = var.bc.pad_all(
-        var, (self._padding,) * var.grid.ndim, mode=boundaries.Padding.MIRROR)
+        var, tuple(self._padding), mode=boundaries.Padding.MIRROR)
     return jnp.expand_dims(var.data, axis=-1)
 
   def __call__(self, inputs):
-- 
2.43.0


From f794696e684c1867c766f4e5a68e405e9167474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:21 +0000
Subject: [PATCH 20/23] fix: encoders of the last n states take them along
 time_axis

---
 jax_cfd/ml/encoders.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_cfd/ml/encoders.py b/jax_cfd/ml/encoders.py
index c2ca2de..48f7d4b 100644
--- a/jax_cfd/ml/encoders.py
+++ b/jax_cfd/ml/encoders.py
@@ -101,7 +101,8 @@ def slice_last_n_state_encoder(
   """Generates encoder that returns last `n` data slices along last axis."""
   del grid, dt, physics_specs  # unused.
   def encode_fn(inputs):
-    init_slice = array_utils.slice_along_axis(inputs, 0, slice(-n, None))
+    init_slice = array_utils.slice_along_axis(
+        inputs, time_axis, slice(-n, None))
     return jax.tree.map(lambda x: jnp.moveaxis(x, time_axis, -1), init_slice)
   return encode_fn
 
@@ -117,7 +118,8 @@ def stack_last_n_state_encoder(
   """Generates encoder that stacks last `n` inputs slices along last axis."""
   del grid, dt, physics_specs  # unused.
   def encode_fn(inputs):
-    inputs = array_utils.slice_along_axis(inputs, 0, slice(-n, None))
+    inputs = array_utils.slice_along_axis(
+        inputs, time_axis, slice(-n, None))
     inputs = jax.tree.map(lambda x: jnp.moveaxis(x, time_axis, -1), inputs)
     return array_utils.concat_along_axis(jax.tree.leaves(inputs), axis=-1)
 
-- 
2.43.0


From 224b0b202f5a2f9c94f97af2efceff8ac5537bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 21/23] fix: velocity_corrector_network_w_boundaries default
 process_fn takes the fields

---
 jax_cfd/ml/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cfd/ml/networks.py b/jax_cfd/ml/networks.py
index f8b2a0d..4c83571 100644
--- a/jax_cfd/ml/networks.py
+++ b/jax_cfd/ml/networks.py
@@ -199,7 +199,7 @@ def velocity_corrector_network_w_boundaries(
     network_offsets: Tuple[Tuple[float, ...], ...],
     num_output_channels: int,
     name: Optional[str] = None,
-    process_fn: Optional[Callable] = _identity,  # pylint: disable=g-bare-generic
+    process_fn: Optional[Callable] = lambda x: x,  # pylint: disable=g-bare-generic
 ):
   """Returns a module that computes corrections to the velocity field."""
   pre_process = functools.partial(
-- 
2.43.0


From 0e1ecde519bcc26967cb7ea2498c34ea054f898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:10 +0000
Subject: [PATCH 22/23] fix: collocated convect_linear uses the flux boundary
 condition of each direction

For i > j the flux of component i along axis j reused the variable computed
for component j along axis i, whose boundary condition was derived for the
other direction. With porous walls the divergence at those walls was wrong.
---
 jax_cfd/collocated/advection.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/jax_cfd/collocated/advection.py b/jax_cfd/collocated/advection.py
index a235032..d2a4c52 100644
--- a/jax_cfd/collocated/advection.py
+++ b/jax_cfd/collocated/advection.py
@@ -58,12 +58,11 @@ def _velocities_to_flux(v: GridVariableVector) -> Tuple[GridVariableVector]:
   flux = [tuple() for _ in range(ndim)]
   for i in range(ndim):
     for j in range(ndim):
-      if i <= j:
-        bc = boundaries.get_advection_flux_bc_from_velocity_and_scalar(
-            v[j], v[i], j)
-        flux[i] += (bc.impose_bc(v[i].array * v[j].array),)
-      else:
-        flux[i] += (flux[j][i],)
+      # The values of `flux[i][j]` and `flux[j][i]` agree, but their boundary
+      # conditions need not: they depend on the direction `j` of the flux.
+      bc = boundaries.get_advection_flux_bc_from_velocity_and_scalar(
+          v[j], v[i], j)
+      flux[i] += (bc.impose_bc(v[i].array * v[j].array),)
   return tuple(flux)
 
 
-- 
2.43.0


From 3fe04d1cd146c156bdf70d5525b925583dbb2b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:09 +0000
Subject: [PATCH 23/23] fix: keep the mean of the pressure right-hand side when
 a Dirichlet side removes the kernel

---
 jax_cfd/base/pressure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_cfd/base/pressure.py b/jax_cfd/base/pressure.py
index dca8160..b7ecdbe 100644
--- a/jax_cfd/base/pressure.py
+++ b/jax_cfd/base/pressure.py
@@ -55,6 +55,9 @@ def _rhs_transform(
     u' s.t. u = u' + kernel of the laplacian.
   """
   u_data = u.data
+  if any(boundaries.BCType.DIRICHLET in types for types in bc.types):
+    # a dirichlet side fixes the constant: the laplacian has no kernel.
+    return u_data
   for axis in range(u.grid.ndim):
     if bc.types[axis][0] == boundaries.BCType.NEUMANN and bc.types[axis][
         1] == boundaries.BCType.NEUMANN:
-- 
2.43.0

