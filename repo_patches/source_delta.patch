From f0a28d7fe2b79fcdfd4dfc7fe3ba68a8018511c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 01/42] fix: limb darkening integrand at the stellar limb

Where 1 - z^2 rounds to zero the integrand was evaluated with z^3 = 1 instead of
z^3 = 0, which dropped the linear term near the contact points (and made its
gradient huge there).
---
 src/jaxoplanet/core/limb_dark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index f6bb92b..8770f5b 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -167,7 +167,7 @@ def p_integral(
         z2 = 1 - omz2
         m = jnp.less(z2, 10 * jnp.finfo(omz2.dtype).eps)
         z2 = jnp.where(m, jnp.ones_like(z2), z2)
-        z3 = z2 * zero_safe_sqrt(z2)
+        z3 = jnp.where(m, jnp.zeros_like(z2), z2 * zero_safe_sqrt(z2))
         cond = jnp.less(omz2, 10 * jnp.finfo(omz2.dtype).eps)
         omz2 = jnp.where(cond, jnp.ones_like(z2), omz2)
         result = 2 * r * (r - b * c) * (1 - z3) / (3 * omz2)
-- 
2.43.0


From ef87e5ed5ab39de61b06253e79835cdf935f07b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 02/42] fix: limb dark flux and gradient when b = 0 and r = 1

arctan2(0, 0) gave the wrong angle for an exactly central occultation by a body
of the same size, so the occulted flux was wrong and its gradient NaN.
---
 src/jaxoplanet/core/limb_dark.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index 8770f5b..675ecd5 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -105,7 +105,15 @@ def kappas(b: Array, r: Array) -> tuple[Array, Array, Array]:
     cond = jnp.logical_and(jnp.greater(b, jnp.abs(1 - r)), jnp.less(b, 1 + r))
     b_ = jnp.where(cond, b, jnp.ones_like(b))
     area: Array = jnp.where(cond, kite_area(r, b_, jnp.ones_like(r)), jnp.zeros_like(r))
-    return area, jnp.arctan2(area, b2 + factor), jnp.arctan2(area, b2 - factor)
+
+    # Outside of a partial occultation ``area`` is exactly zero and only the signs of the
+    # following arguments matter, but they can vanish (for example when b=0 and r=1) where
+    # the value of arctan2 would be wrong and its gradient undefined.
+    no_occ = jnp.greater_equal(b, 1 + r)
+    full_occ = jnp.less_equal(1 + b, r)
+    arg0 = jnp.where(jnp.logical_or(no_occ, full_occ), jnp.ones_like(b2), b2 + factor)
+    arg1 = jnp.where(full_occ, -jnp.ones_like(b2), b2 - factor)
+    return area, jnp.arctan2(area, arg0), jnp.arctan2(area, arg1)
 
 
 def s0s2(
-- 
2.43.0


From ba3fee8957b855b19b8141f1583e1e0312802be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 03/42] fix: stored radial velocity semi-amplitude in Body
 velocities

velocity() and relative_velocity() of a body with a
radial_velocity_semiamplitude returned the velocity of the central instead of
scaling it by the mass ratio, as they do when it is passed as an argument.
---
 src/jaxoplanet/orbits/keplerian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index 77fc96a..2a728a9 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -472,6 +472,8 @@ class OrbitalBody(eqx.Module):
             The components of the velocity vector at ``t`` in units of
             ``R_sun/day``.
         """
+        if semiamplitude is None and self.mass is not None:
+            semiamplitude = self.radial_velocity_semiamplitude
         if semiamplitude is None:
             mass: Quantity = -self.central.mass  # type: ignore
             return self._get_position_and_velocity(t, mass=mass)[1]
@@ -515,6 +517,8 @@ class OrbitalBody(eqx.Module):
             The components of the velocity vector at ``t`` in units of
             ``M_sun/day``.
         """
+        if semiamplitude is None and self.mass is not None:
+            semiamplitude = self.radial_velocity_semiamplitude
         if semiamplitude is None:
             mass: Quantity = -self.total_mass  # type: ignore
             return self._get_position_and_velocity(t, mass=mass)[1]
-- 
2.43.0


From 9f90c7fe44b7099d26371ea36ebf7b78d6065a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 04/42] fix: negative in_axes when mapping over objects with
 different structures

---
 src/jaxoplanet/object_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/object_stack.py b/src/jaxoplanet/object_stack.py
index 6668edf..ad81b57 100644
--- a/src/jaxoplanet/object_stack.py
+++ b/src/jaxoplanet/object_stack.py
@@ -130,7 +130,7 @@ def index_helper(n, arg, axis):
     if axis is None:
         return arg
     else:
-        idx = (slice(None),) * axis + (n,)
+        idx = (slice(None),) * (axis % jnpu.ndim(arg)) + (n,)
         return arg[idx]
 
 
-- 
2.43.0


From fa075cfb932ac4f3e18f75534fa55a73142b2e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 05/42] fix: reject mapped arguments whose size does not match
 the number of objects

---
 src/jaxoplanet/object_stack.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jaxoplanet/object_stack.py b/src/jaxoplanet/object_stack.py
index ad81b57..bdea26e 100644
--- a/src/jaxoplanet/object_stack.py
+++ b/src/jaxoplanet/object_stack.py
@@ -99,6 +99,14 @@ class ObjectStack(eqx.Module, Generic[Obj]):
                 "body_vmap in_axes", in_tree, in_axes_
             )
 
+            # As in "vmap", the mapped axes must match the number of objects
+            for arg, axis in zip(args_flat, in_axes_flat, strict=False):
+                if axis is not None and jnpu.shape(arg)[axis] != len(self.objects):
+                    raise ValueError(
+                        f"Expected mapped axis {axis} of an argument with shape "
+                        f"{jnpu.shape(arg)} to have size {len(self.objects)}"
+                    )
+
             # Then loop over the bodies and accumulate the function results
             results = []
             out_tree = None
-- 
2.43.0


From dacff2bd30b311b8be9ede8e82535f4271c3ec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 06/42] fix: building a TTVOrbit from ttvs under jit, or with a
 shared reference time

---
 src/jaxoplanet/orbits/ttv.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index c4f9864..ae720ca 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -193,23 +193,16 @@ class TTVOrbit(TransitOrbit):
                 self.transit_inds = tuple(jnp.arange(ttv.shape[0]) for ttv in self.ttvs)
             else:
                 self.transit_inds = tuple(transit_inds)
-            self.t0 = jnp.atleast_1d(time_transit.magnitude)
+            # A scalar reference time or period is shared by all the planets
+            n_planets = len(self.ttvs)
+            self.t0 = jnp.broadcast_to(time_transit.magnitude, (n_planets,))
             # For ttvs mode, period is required and used directly:
-            self.ttv_period = jnp.atleast_1d(period.magnitude)
+            self.ttv_period = jnp.broadcast_to(period.magnitude, (n_planets,))
             # Reconstruct transit_times: t0 + period * inds + ttvs
             transit_times_list = []
-            for ttv, inds in zip(self.ttvs, self.transit_inds, strict=False):
-                # Handle single-planet t0 and period versus multi-planet cases.
-                if self.t0.ndim > 0 and self.t0.shape[0] > 1:
-                    t0_i = self.t0[len(transit_times_list)]
-                    period_i = self.ttv_period[len(transit_times_list)]
-                else:
-                    t0_i = self.t0.item() if hasattr(self.t0, "item") else self.t0
-                    period_i = (
-                        self.ttv_period.item()
-                        if hasattr(self.ttv_period, "item")
-                        else self.ttv_period
-                    )
+            for t0_i, period_i, ttv, inds in zip(
+                self.t0, self.ttv_period, self.ttvs, self.transit_inds, strict=False
+            ):
                 transit_times_list.append(t0_i + period_i * inds + ttv)
             self.transit_times = tuple(transit_times_list)
 
-- 
2.43.0


From 2839e23399731f4685b4ea54d4cbb254c72bd7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 07/42] fix: units of transit_times and ttvs in TTVOrbit

---
 src/jaxoplanet/orbits/ttv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index ae720ca..d07d3dd 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -8,9 +8,9 @@ from jaxoplanet.units import unit_registry as ureg
 
 
 def ensure_quantity(x, unit):
-    """Convert x to a JAX array with the given unit if it isn’t already a quantity."""
+    """Convert x to the given unit, which is assumed if it isn’t already a quantity."""
     if hasattr(x, "to"):
-        return x
+        return x.to(unit)
     else:
         return jnp.asarray(x) * unit
 
-- 
2.43.0


From daf1b5e43c4d3386f88cd1e5769aa3dc63facdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 08/42] fix: light curve gradients at the centre of the stellar
 disc

---
 src/jaxoplanet/light_curves/emission.py  | 14 +++++++++-----
 src/jaxoplanet/light_curves/limb_dark.py |  9 ++++++---
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/jaxoplanet/light_curves/emission.py b/src/jaxoplanet/light_curves/emission.py
index f97da38..51a1769 100644
--- a/src/jaxoplanet/light_curves/emission.py
+++ b/src/jaxoplanet/light_curves/emission.py
@@ -10,6 +10,7 @@ from jaxoplanet.light_curves.utils import vectorize
 from jaxoplanet.starry.orbit import SurfaceSystem
 from jaxoplanet.types import Array, Quantity
 from jaxoplanet.units import unit_registry as ureg
+from jaxoplanet.utils import zero_safe_sqrt
 
 
 def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity], Array]:
@@ -33,23 +34,26 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
         r_star = system.central.radius
         x, y, z = system.relative_position(time)
 
-        b = jnpu.sqrt(x**2 + y**2) / r_star
-        assert b.units == ureg.dimensionless
+        # the gradient of a plain square root is not finite for b = 0
+        b_squared = (x**2 + y**2) / r_star**2
+        assert b_squared.units == ureg.dimensionless
+        b = zero_safe_sqrt(b_squared.magnitude)
         r = system.radius / r_star
         assert r.units == ureg.dimensionless
 
         lc_func = partial(_limb_dark_light_curve, system.central_surface.u, order=order)
-        lc = lc_func(b.magnitude, r.magnitude)
+        lc = lc_func(b, r.magnitude)
         lc = jnp.where(z > 0, lc, 0.0).sum(0) + 1
 
         bodies_lc = []
         for body, surface in zip(system.bodies, system.body_surfaces, strict=False):
             x, y, z = body.relative_position(time)
-            b = jnpu.sqrt(x**2 + y**2) / body.radius
+            b_squared = (x**2 + y**2) / body.radius**2
+            b = zero_safe_sqrt(b_squared.magnitude)
             r = r_star / body.radius
 
             lc_func = partial(_limb_dark_light_curve, surface.u, order=order)
-            lc_body = lc_func(b.magnitude, r.magnitude)
+            lc_body = lc_func(b, r.magnitude)
             lc_body = surface.amplitude * (1 + jnp.where(z < 0, lc_body, 0))
 
             bodies_lc.append(lc_body)
diff --git a/src/jaxoplanet/light_curves/limb_dark.py b/src/jaxoplanet/light_curves/limb_dark.py
index 018b662..66bafc6 100644
--- a/src/jaxoplanet/light_curves/limb_dark.py
+++ b/src/jaxoplanet/light_curves/limb_dark.py
@@ -12,6 +12,7 @@ from jaxoplanet.light_curves.utils import vectorize
 from jaxoplanet.proto import LightCurveOrbit
 from jaxoplanet.types import Array, Quantity
 from jaxoplanet.units import unit_registry as ureg
+from jaxoplanet.utils import zero_safe_sqrt
 
 
 def light_curve(
@@ -53,13 +54,15 @@ def light_curve(
         r_star = orbit.central_radius
         x, y, z = orbit.relative_position(time)
 
-        b = jnpu.sqrt(x**2 + y**2) / r_star
-        assert b.units == ureg.dimensionless
+        # the gradient of a plain square root is not finite for b = 0
+        b_squared = (x**2 + y**2) / r_star**2
+        assert b_squared.units == ureg.dimensionless
+        b = zero_safe_sqrt(b_squared.magnitude)
         r = orbit.radius / r_star
         assert r.units == ureg.dimensionless
 
         lc_func = partial(_limb_dark_light_curve, ld_u, order=order)
-        lc = lc_func(b.magnitude, r.magnitude)
+        lc = lc_func(b, r.magnitude)
         lc = jnp.where(z > 0, lc, 0)
 
         return lc
-- 
2.43.0


From d0200f2f21ab1061430538da000fb87711c55956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 09/42] fix: keyword arguments of exposure time integrated
 light curves

---
 src/jaxoplanet/light_curves/transforms.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 6c2a0e9..3d05702 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -106,16 +106,21 @@ def integrate(
                 "on GitHub demonstrating the problem"
             )
 
-        f = lu.wrap_init(jax.vmap(func, in_axes=(0,) + (None,) * len(args)))
+        # 'vmap' would map the keyword arguments, which are the same for all samples
+        mapped = jax.vmap(
+            lambda time, *args: func(time, *args, **kwargs),
+            in_axes=(0,) + (None,) * len(args),
+        )
+        f = lu.wrap_init(mapped)
         f = apply_exposure_time_integration(f, stencil, dt)  # type: ignore
-        return f.call_wrapped(time, args, kwargs)  # type: ignore
+        return f.call_wrapped(time, args)  # type: ignore
 
     return wrapped
 
 
 @lu.transformation  # type: ignore
-def apply_exposure_time_integration(stencil, dt, time, args, kwargs):
-    result = yield (time + dt,) + args, kwargs
+def apply_exposure_time_integration(stencil, dt, time, args):
+    result = yield (time + dt,) + args, {}
     yield jnpu.dot(stencil, result)
 
 
-- 
2.43.0


From a4a9b1a7692c598e1408be16563dda7377e49d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 10/42] fix: exposure time integration of light curves with
 units

---
 src/jaxoplanet/light_curves/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 3d05702..9a49918 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -121,7 +121,7 @@ def integrate(
 @lu.transformation  # type: ignore
 def apply_exposure_time_integration(stencil, dt, time, args):
     result = yield (time + dt,) + args, {}
-    yield jnpu.dot(stencil, result)
+    yield jax.tree_util.tree_map(lambda x: jnp.tensordot(stencil, x, axes=1), result)
 
 
 @units.quantity_input(period=ureg.day, time_transit=ureg.day, duration=ureg.day)
-- 
2.43.0


From c5d356d1f26a5d99761bb3a4ac4d006939789b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 11/42] fix: degree of the polynomial in
 polynomial_product_matrix

---
 src/jaxoplanet/starry/core/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/polynomials.py b/src/jaxoplanet/starry/core/polynomials.py
index 26acbad..336aeab 100644
--- a/src/jaxoplanet/starry/core/polynomials.py
+++ b/src/jaxoplanet/starry/core/polynomials.py
@@ -180,7 +180,7 @@ def polynomial_product_matrix(p, degree):
         Array: The polynomial product matrix.
     """
     p = jnp.array(p)
-    deg_p = int(np.floor(np.sqrt(len(p))))
+    deg_p = int(np.floor(np.sqrt(len(p)))) - 1
     M = jnp.zeros(
         ((deg_p + degree + 1) * (deg_p + degree + 1), (degree + 1) * (degree + 1))
     )
-- 
2.43.0


From 60ae17eb28dc56027b294b0aa84652ca8397ca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 12/42] fix: occulted surface when b = 0 and r = 1

arctan2(0, 0) gave the wrong angle for an exactly central occultation by a body
of the same size, so the solution vector was that of an unocculted surface.
---
 src/jaxoplanet/starry/core/solution.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/solution.py b/src/jaxoplanet/starry/core/solution.py
index 8536bac..b9fb43f 100644
--- a/src/jaxoplanet/starry/core/solution.py
+++ b/src/jaxoplanet/starry/core/solution.py
@@ -33,7 +33,15 @@ def kappas(b: Array, r: Array) -> tuple[Array, Array]:
     b_cond = jnp.logical_and(jnp.greater(b, jnp.abs(1 - r)), jnp.less(b, 1 + r))
     b_ = jnp.where(b_cond, b, 1)
     area = jnp.where(b_cond, kite_area(r, b_, 1), 0)
-    return jnp.arctan2(area, b2 + factor), jnp.arctan2(area, b2 - factor)
+
+    # Outside of a partial occultation ``area`` is exactly zero and only the signs of the
+    # following arguments matter, but they can vanish (for example when b=0 and r=1) where
+    # the value of arctan2 would be wrong and its gradient undefined.
+    no_occ = jnp.greater_equal(b, 1 + r)
+    full_occ = jnp.less_equal(1 + b, r)
+    arg0 = jnp.where(jnp.logical_or(no_occ, full_occ), 1.0, b2 + factor)
+    arg1 = jnp.where(full_occ, -1.0, b2 - factor)
+    return jnp.arctan2(area, arg0), jnp.arctan2(area, arg1)
 
 
 def q_integral(l_max: int, lam: Array) -> Array:
-- 
2.43.0


From ac6444bb3f4a7503cdf321c63a3a007a1067dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 13/42] fix: product of two Ylm objects

The product left out the 3-j symbol of the degrees and treated the coefficients of the
real spherical harmonics as those of the complex ones, so that it was not the expansion
of the product of the two functions.
---
 src/jaxoplanet/starry/ylm.py | 45 +++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index b85cdb2..392a947 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -173,6 +173,34 @@ class Ylm(eqx.Module):
         return yu * norm
 
 
+def _real_to_complex(data: Mapping[tuple[int, int], Array]) -> dict:
+    """Coefficients of the complex spherical harmonics (with the Condon-Shortley phase)
+    of a function given by its real spherical harmonics coefficients."""
+    res = {}
+    for l, m in data.keys():
+        if m == 0:
+            res[(l, 0)] = data[(l, 0)]
+        else:
+            m = abs(m)
+            cos, sin = data.get((l, m), 0.0), data.get((l, -m), 0.0)
+            res[(l, m)] = (-1) ** m * (cos - 1j * sin) / math.sqrt(2)
+            res[(l, -m)] = (cos + 1j * sin) / math.sqrt(2)
+    return res
+
+
+def _complex_to_real(data: Mapping[tuple[int, int], Array]) -> dict:
+    """Inverse of `_real_to_complex`."""
+    res = {}
+    for (l, m), value in data.items():
+        if m == 0:
+            res[(l, 0)] = jnp.real(value)
+        elif m > 0:
+            value = (-1) ** m * math.sqrt(2) * value
+            res[(l, m)] = jnp.real(value)
+            res[(l, -m)] = -jnp.imag(value)
+    return res
+
+
 def _mul(f: Ylm, g: Ylm) -> Ylm:
     """
     Based closely on the implementation from the MIT-licensed spherical package:
@@ -183,24 +211,28 @@ def _mul(f: Ylm, g: Ylm) -> Ylm:
     ellmax_f = f.deg
     ellmax_g = g.deg
     ellmax_fg = ellmax_f + ellmax_g
+    # The 3-j symbols give the product of complex spherical harmonics
+    f_data = _real_to_complex(f.data)
+    g_data = _real_to_complex(g.data)
     fg = defaultdict(lambda *_: 0.0)
     m_calculator = Wigner3jCalculator(ellmax_f, ellmax_g)
+    s_calculator = Wigner3jCalculator(ellmax_f, ellmax_g)
     for ell1 in range(ellmax_f + 1):
         sqrt1 = math.sqrt((2 * ell1 + 1) / (4 * math.pi))
         for m1 in range(-ell1, ell1 + 1):
             idx1 = (ell1, m1)
-            if idx1 not in f.data:
+            if idx1 not in f_data:
                 continue
-            sum1 = sqrt1 * f.data[idx1]
+            sum1 = sqrt1 * f_data[idx1]
             for ell2 in range(ellmax_g + 1):
                 sqrt2 = math.sqrt(2 * ell2 + 1)
-                # w3j_s = s_calculator.calculate(ell1, ell2, s_f, s_g)
+                w3j_s = s_calculator.calculate(ell1, ell2, 0, 0)
                 for m2 in range(-ell2, ell2 + 1):
                     idx2 = (ell2, m2)
-                    if idx2 not in g.data:
+                    if idx2 not in g_data:
                         continue
                     w3j_m = m_calculator.calculate(ell1, ell2, m1, m2)
-                    sum2 = sqrt2 * g.data[idx2]
+                    sum2 = sqrt2 * g_data[idx2]
                     m3 = m1 + m2
                     for ell3 in range(
                         max(abs(m3), abs(ell1 - ell2)), min(ell1 + ell2, ellmax_fg) + 1
@@ -212,11 +244,12 @@ def _mul(f: Ylm, g: Ylm) -> Ylm:
                                 math.pow(-1, ell1 + ell2 + ell3 + m3)
                                 * math.sqrt(2 * ell3 + 1)
                                 * w3j_m[ell3]  # Wigner3j(ell1, ell2, ell3, m1, m2, -m3)
+                                * w3j_s[ell3]  # Wigner3j(ell1, ell2, ell3, 0, 0, 0)
                             )
                             * sum1
                             * sum2
                         )
-    return Ylm(fg)
+    return Ylm(_complex_to_real(fg))
 
 
 def Bp(ydeg, npts: int = 1000, eps: float = 1e-9, smoothing=None):
-- 
2.43.0


From 5efbda5ee49ffa0ffb1e06d6cef16d92f823bef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 14/42] fix: rotation about the line of sight for maps without
 inclination

---
 src/jaxoplanet/starry/core/rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index c819e8d..e160b94 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -40,7 +40,7 @@ def dot_rotation_matrix(ydeg, x, y, z, theta):
         if z is None:
             raise ValueError("Either x, y, or z must be specified")
 
-        return dot_rz(ydeg, theta)
+        return dot_rz(ydeg, jnp.where(jnp.less(z, 0.0), -theta, theta))
 
     x = 0.0 if x is None else x
     y = 0.0 if y is None else y
@@ -157,7 +157,7 @@ def sky_projection_axis_angle(inc: float | None, obl: float | None):
         return 1.0, None, None, inc
 
     elif inc is None:
-        return None, None, 1.0, obl
+        return None, None, -1.0, obl
 
     else:
         co = jnp.cos(obl / 2)
-- 
2.43.0


From 0cabe62e3f03954d1837e76a2df8a5fc183b69f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 15/42] fix: radial velocity of a surface depends neither on
 its amplitude nor, seen from the pole, on its spin

---
 src/jaxoplanet/starry/doppler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 7a9ab36..52d81c1 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -13,8 +13,9 @@ from jaxoplanet.starry.system_observable import system_observable
 
 
 def rv_map_expansion(veq=None, inc=None, obl=None, alpha=None):
-    cosi = jnp.cos(inc) if inc is not None else 0.0
-    sini = jnp.sin(inc) if inc is not None else 1.0
+    # as for the map, inc=None means seen from the pole
+    cosi = jnp.cos(inc) if inc is not None else 1.0
+    sini = jnp.sin(inc) if inc is not None else 0.0
     cosl = jnp.cos(obl) if obl is not None else 1.0
     sinl = jnp.sin(obl) if obl is not None else 0.0
     A = sini * cosl
@@ -165,7 +166,8 @@ def surface_radial_velocity(
 
     intensity = (p_yu.tosparse() @ design_matrix_p[0:n_deg]) * norm
 
-    return surface.amplitude * rv * norm / intensity
+    # independent of the amplitude of the map, being weighted by its intensity
+    return rv * norm / intensity
 
 
 def radial_velocity(system, order=20):
-- 
2.43.0


From 5905da6fdc3d9f77f38c2b177f14fdc90e405671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 16/42] fix: system radial velocities for any shape of the
 times, number of bodies and non-rotating surfaces

---
 src/jaxoplanet/starry/doppler.py | 4 +++-
 src/jaxoplanet/starry/surface.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 52d81c1..5a1d33d 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -175,7 +175,9 @@ def radial_velocity(system, order=20):
 
     def impl(time):
         rvs = bodies_rv(time)
-        rvs = rvs.at[:, 0].set(rvs[:, 0] + system.radial_velocity(time)[0].magnitude)
+        if len(system.bodies) > 0:
+            orbital_rv = system.radial_velocity(time).sum(0).magnitude
+            rvs = rvs.at[..., 0].add(orbital_rv)
         return rvs
 
     return impl
diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 6a93648..07a1a19 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -137,6 +137,8 @@ class Surface(eqx.Module):
     @property
     def veq(self):
         """Equatorial velocity of the map in Rsun/day."""
+        if self.period is None:
+            return 0.0
         return 2 * jnp.pi * self.radius / self.period
 
     def _poly_basis(self, rv=False):
-- 
2.43.0


From 9836d5bc1a99c93da7ebdbe2d10b239d6a103829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 17/42] fix: amplitude of occulted uniform surfaces and of the
 central emission, dark bodies in emission

---
 src/jaxoplanet/light_curves/emission.py | 5 +++++
 src/jaxoplanet/starry/light_curves.py   | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/light_curves/emission.py b/src/jaxoplanet/light_curves/emission.py
index 51a1769..80068b6 100644
--- a/src/jaxoplanet/light_curves/emission.py
+++ b/src/jaxoplanet/light_curves/emission.py
@@ -44,9 +44,14 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
         lc_func = partial(_limb_dark_light_curve, system.central_surface.u, order=order)
         lc = lc_func(b, r.magnitude)
         lc = jnp.where(z > 0, lc, 0.0).sum(0) + 1
+        lc = system.central_surface.amplitude * lc
 
         bodies_lc = []
         for body, surface in zip(system.bodies, system.body_surfaces, strict=False):
+            if surface is None:
+                bodies_lc.append(0.0)
+                continue
+
             x, y, z = body.relative_position(time)
             b_squared = (x**2 + y**2) / body.radius**2
             b = zero_safe_sqrt(b_squared.magnitude)
diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index c8ac0b8..0d2c914 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -91,7 +91,8 @@ def surface_light_curve(
 
             lc_func = partial(_limb_dark_light_curve, ld_u, order=order)
             lc = lc_func(b, r)
-            return 1.0 + jnp.where(b_occ, lc, 0)
+            flux = surface.amplitude * surface.y[(0, 0)]
+            return flux * (1.0 + jnp.where(b_occ, lc, 0))
 
         else:
             theta_z = jnp.arctan2(x, y)
-- 
2.43.0


From c2ce5eed4d988e0ec294857903a9fc483016ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 18/42] fix: gradients of surface observables with the occultor
 at the centre of the disc

---
 src/jaxoplanet/starry/doppler.py      | 4 ++++
 src/jaxoplanet/starry/light_curves.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 5a1d33d..20766c9 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -10,6 +10,7 @@ from jaxoplanet.starry.core.rotation import dot_rz, left_project
 from jaxoplanet.starry.core.solution import rT, solution_vector
 from jaxoplanet.starry.surface import Surface
 from jaxoplanet.starry.system_observable import system_observable
+from jaxoplanet.utils import get_dtype_eps
 
 
 def rv_map_expansion(veq=None, inc=None, obl=None, alpha=None):
@@ -95,6 +96,9 @@ def surface_radial_velocity(
 
     # occulting body
     else:
+        # the gradients of b and theta_z are singular at the center: step off it
+        at_center = jnp.logical_and(jnp.equal(x, 0.0), jnp.equal(y, 0.0))
+        y = y + jnp.where(at_center, jnp.sqrt(get_dtype_eps(1.0 * y)), 0.0)
         b = jnp.sqrt(jnp.square(x) + jnp.square(y))
         b_rot = jnp.logical_or(jnp.greater_equal(b, 1.0 + r), jnp.less_equal(z, 0.0))
         b_occ = jnp.logical_not(b_rot)
diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index 0d2c914..03b8653 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -12,6 +12,7 @@ from jaxoplanet.starry.core.rotation import left_project
 from jaxoplanet.starry.core.solution import rT, solution_vector
 from jaxoplanet.starry.surface import Surface
 from jaxoplanet.starry.system_observable import system_observable
+from jaxoplanet.utils import get_dtype_eps
 
 
 def surface_light_curve(
@@ -73,6 +74,9 @@ def surface_light_curve(
 
     # occulting body
     else:
+        # the gradients of b and theta_z are singular at the center: step off it
+        at_center = jnp.logical_and(jnp.equal(x, 0.0), jnp.equal(y, 0.0))
+        y = y + jnp.where(at_center, jnp.sqrt(get_dtype_eps(1.0 * y)), 0.0)
         b = jnp.sqrt(jnp.square(x) + jnp.square(y))
         b_rot = jnp.logical_or(jnp.greater_equal(b, 1.0 + r), jnp.less_equal(z, 0.0))
         b_occ = jnp.logical_not(b_rot)
-- 
2.43.0


From e148c50afe410f59540ca7e432930d73a9970403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 19/42] fix: radial velocity of a completely hidden surface

---
 src/jaxoplanet/starry/doppler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 20766c9..91d5b7c 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -91,6 +91,7 @@ def surface_radial_velocity(
     # no occulting body
     if r is None:
         b_rot = True
+        hidden = False
         theta_z = 0.0
         design_matrix_p = rT_deg
 
@@ -102,6 +103,7 @@ def surface_radial_velocity(
         b = jnp.sqrt(jnp.square(x) + jnp.square(y))
         b_rot = jnp.logical_or(jnp.greater_equal(b, 1.0 + r), jnp.less_equal(z, 0.0))
         b_occ = jnp.logical_not(b_rot)
+        hidden = jnp.logical_and(b_occ, jnp.less_equal(b, r - 1.0))
         theta_z = jnp.arctan2(x, y)
 
         # trick to avoid nan `x=jnp.where...` grad caused by nan sT
@@ -170,6 +172,10 @@ def surface_radial_velocity(
 
     intensity = (p_yu.tosparse() @ design_matrix_p[0:n_deg]) * norm
 
+    # nothing is measured when the surface is completely hidden
+    rv = jnp.where(hidden, 0.0, rv)
+    intensity = jnp.where(hidden, 1.0, intensity)
+
     # independent of the amplitude of the map, being weighted by its intensity
     return rv * norm / intensity
 
-- 
2.43.0


From 1960c9eac420c3a81b8eab5184755c0cc0090d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 20/42] fix: sign of the latitude and longitude in
 Surface.intensity

---
 src/jaxoplanet/starry/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 07a1a19..4bea011 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -215,8 +215,8 @@ class Surface(eqx.Module):
         Returns:
             float: intensity of the map at the given latitude and longitude
         """
-        lon = lon + jnp.pi / 2  # convention, 0 lon faces the observer
-        lat = jnp.pi / 2 - lat  # convention, latitude 0 is equator
+        lon = jnp.pi / 2 - lon  # convention, 0 lon faces the observer
+        lat = jnp.pi / 2 + lat  # convention, latitude 0 is equator
         x = jnp.sin(lat) * jnp.cos(lon)
         y = jnp.sin(lat) * jnp.sin(lon)
         z = jnp.cos(lat) * jnp.ones_like(x)
-- 
2.43.0


From 71d091236c3cbad7ed489d9144ccdcfce8a13ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 21/42] fix: axis and angle of small rotations

---
 src/jaxoplanet/starry/core/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index e160b94..cb5a908 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -123,7 +123,7 @@ def full_rotation_axis_angle(
     denominator = jnp.sqrt(1 - 0.5 * arg**2)
 
     farg = f * arg
-    zero_angle = jnp.allclose(farg, 1.0, atol=get_dtype_eps(farg))
+    zero_angle = jnp.greater_equal(farg, 1.0 - get_dtype_eps(farg))
     angle = jnp.where(zero_angle, 0.0, 2 * jnp.arccos(farg))
 
     non_zero_angle = jnp.logical_not(zero_angle)
-- 
2.43.0


From 4143852d07d66211b98549ab41e4660c8bfad2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 22/42] fix: show_surface of a body without graticule

---
 src/jaxoplanet/starry/visualization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/visualization.py b/src/jaxoplanet/starry/visualization.py
index 9b2832d..1f28c06 100644
--- a/src/jaxoplanet/starry/visualization.py
+++ b/src/jaxoplanet/starry/visualization.py
@@ -60,7 +60,8 @@ def show_surface(
             radius = ylm_pijk_surface_body.radius.magnitude
         else:
             radius = 1.0 if radius is None else radius
-        n = int(np.ceil(n * np.cbrt(radius)))
+        if n is not None:
+            n = int(np.ceil(n * np.cbrt(radius)))
     # import Ylm leads to circular import
     elif isinstance(ylm_pijk_surface_body, Ylm):
         surface = Surface(y=ylm_pijk_surface_body)
-- 
2.43.0


From 744d6d1437e5fe3b64067cbf5dab6e6607cd498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 23/42] fix: gradient of the spot profile with respect to the
 radius

---
 src/jaxoplanet/starry/ylm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index 392a947..ffaa3ce 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -286,7 +286,7 @@ def spot_profile(theta, radius, spot_fac=300):
 
     """
     z = spot_fac * (theta - radius)
-    return 1 / (1 + jnp.exp(-z)) - 1
+    return jax.nn.sigmoid(z) - 1
 
 
 def ylm_spot(ydeg: int, npts=300, spot_fac=300) -> callable:
-- 
2.43.0


From c098d579067ab7ad1233a2cb09177d24b8835f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:11 +0000
Subject: [PATCH 24/42] fix: gradients of rotated maps seen from the pole and
 of spots at latitude or longitude zero

---
 src/jaxoplanet/starry/core/rotation.py       | 18 +++++++++++++++---
 src/jaxoplanet/starry/core/s2fft_rotation.py |  8 ++++++--
 src/jaxoplanet/starry/ylm.py                 |  4 ++--
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index cb5a908..2986f27 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -42,6 +42,15 @@ def dot_rotation_matrix(ydeg, x, y, z, theta):
 
         return dot_rz(ydeg, jnp.where(jnp.less(z, 0.0), -theta, theta))
 
+    # about x or y only, the Euler angles are known: they are differentiable everywhere
+    euler_angles = None
+    if z is None and (x is None or y is None):
+        sign = jnp.where(jnp.less(x if y is None else y, 0.0), -1.0, 1.0)
+        if y is None:
+            euler_angles = (0.5 * jnp.pi, sign * theta, -0.5 * jnp.pi)
+        else:
+            euler_angles = (0.0, sign * theta, 0.0)
+
     x = 0.0 if x is None else x
     y = 0.0 if y is None else y
     z = 0.0 if z is None else z
@@ -55,7 +64,9 @@ def dot_rotation_matrix(ydeg, x, y, z, theta):
     if jnp.shape(theta) != ():
         raise ValueError(f"theta must be a scalar; got {jnp.shape(theta)}")
 
-    rotation_matrices = compute_rotation_matrices_s2fft(ydeg, x, y, z, theta)
+    rotation_matrices = compute_rotation_matrices_s2fft(
+        ydeg, x, y, z, theta, euler_angles=euler_angles
+    )
     n_max = ydeg**2 + 2 * ydeg + 1
 
     @jax.jit
@@ -208,10 +219,11 @@ def left_project(
     m_theta = -theta if theta is not None else theta
     m_theta_z = -theta_z if theta_z is not None else theta_z
 
-    axis_x, axis_y, axis_z, angle = sky_projection_axis_angle(inc, obl)
     y = dot_rotation_matrix(ydeg, 1.0, None, None, -0.5 * jnp.pi)(y)
     y = dot_rotation_matrix(ydeg, None, None, 1.0, m_theta)(y)
-    y = dot_rotation_matrix(ydeg, axis_x, axis_y, axis_z, angle)(y)
+    # one axis at a time: the axis of the sky projection is singular when seen pole-on
+    y = dot_rotation_matrix(ydeg, 1.0, None, None, inc)(y)
+    y = dot_rotation_matrix(ydeg, None, None, -1.0, obl)(y)
     y = dot_rotation_matrix(ydeg, None, None, 1.0, m_theta_z)(y)
     return y
 
diff --git a/src/jaxoplanet/starry/core/s2fft_rotation.py b/src/jaxoplanet/starry/core/s2fft_rotation.py
index 6c2e75f..7bbf853 100644
--- a/src/jaxoplanet/starry/core/s2fft_rotation.py
+++ b/src/jaxoplanet/starry/core/s2fft_rotation.py
@@ -132,7 +132,9 @@ def _generate_rotate_dls(L: int, beta: float) -> jnp.ndarray:
     return jnp.stack(dls, axis=0)
 
 
-def compute_rotation_matrices(deg, x, y, z, theta, homogeneous=False):
+def compute_rotation_matrices(
+    deg, x, y, z, theta, homogeneous=False, euler_angles=None
+):
 
     def kron(m, n):
         """Kronecker delta. Can we do better?"""
@@ -172,7 +174,9 @@ def compute_rotation_matrices(deg, x, y, z, theta, homogeneous=False):
         r = Rotation.from_rotvec(axis * _theta)
         return jnp.where(theta == 0.0, jnp.array([0.0, 0.0, 0.0]), r.as_euler("zyz"))
 
-    alpha, beta, gamma = euler(x, y, z, theta)
+    if euler_angles is None:
+        euler_angles = euler(x, y, z, theta)
+    alpha, beta, gamma = euler_angles
     dls = _generate_rotate_dls(deg + 1, beta)
     N = jnp.arange(-deg, deg + 1)
     m, mp = jnp.meshgrid(N, N)
diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index ffaa3ce..45273c6 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -322,8 +322,8 @@ def ylm_spot(ydeg: int, npts=300, spot_fac=300) -> callable:
         y = jnp.zeros((ydeg + 1) * (ydeg + 1))
         y = y.at[indices].set(B @ b * contrast)
         y = y.at[0].set(y[0] + 1.0)
-        y = dot_rotation_matrix(ydeg, 1.0, 0.0, 0.0, lat)(y)
-        y = dot_rotation_matrix(ydeg, 0.0, 1.0, 0.0, -lon)(y)
+        y = dot_rotation_matrix(ydeg, 1.0, None, None, lat)(y)
+        y = dot_rotation_matrix(ydeg, None, 1.0, None, -lon)(y)
 
         return Ylm.from_dense(y, normalize=False)
 
-- 
2.43.0


From 6207c498d4a3641052d97668d040230e5d791987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 25/42] fix: gradients of surface observables with the occultor
 next to the centre of the disc

---
 src/jaxoplanet/starry/doppler.py      | 5 +++--
 src/jaxoplanet/starry/light_curves.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 91d5b7c..69dd3bb 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -98,8 +98,9 @@ def surface_radial_velocity(
     # occulting body
     else:
         # the gradients of b and theta_z are singular at the center: step off it
-        at_center = jnp.logical_and(jnp.equal(x, 0.0), jnp.equal(y, 0.0))
-        y = y + jnp.where(at_center, jnp.sqrt(get_dtype_eps(1.0 * y)), 0.0)
+        eps = get_dtype_eps(1.0 * y)
+        at_center = jnp.less(jnp.square(x) + jnp.square(y), eps)
+        y = y + jnp.where(at_center, 2 * jnp.sqrt(eps), 0.0)
         b = jnp.sqrt(jnp.square(x) + jnp.square(y))
         b_rot = jnp.logical_or(jnp.greater_equal(b, 1.0 + r), jnp.less_equal(z, 0.0))
         b_occ = jnp.logical_not(b_rot)
diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index 03b8653..896845e 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -75,8 +75,9 @@ def surface_light_curve(
     # occulting body
     else:
         # the gradients of b and theta_z are singular at the center: step off it
-        at_center = jnp.logical_and(jnp.equal(x, 0.0), jnp.equal(y, 0.0))
-        y = y + jnp.where(at_center, jnp.sqrt(get_dtype_eps(1.0 * y)), 0.0)
+        eps = get_dtype_eps(1.0 * y)
+        at_center = jnp.less(jnp.square(x) + jnp.square(y), eps)
+        y = y + jnp.where(at_center, 2 * jnp.sqrt(eps), 0.0)
         b = jnp.sqrt(jnp.square(x) + jnp.square(y))
         b_rot = jnp.logical_or(jnp.greater_equal(b, 1.0 + r), jnp.less_equal(z, 0.0))
         b_occ = jnp.logical_not(b_rot)
-- 
2.43.0


From 52a2d647d37ce0a371308da77a44caaf3784c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 26/42] fix: multiprecision flux without occultation or without
 rotation, rotation of the mean intensity

---
 src/jaxoplanet/starry/multiprecision/flux.py  | 46 +++++++++++--------
 .../starry/multiprecision/rotation.py         |  4 +-
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/flux.py b/src/jaxoplanet/starry/multiprecision/flux.py
index d03c3e4..bcd3ae7 100644
--- a/src/jaxoplanet/starry/multiprecision/flux.py
+++ b/src/jaxoplanet/starry/multiprecision/flux.py
@@ -49,10 +49,28 @@ def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
         y_rotated = dot_rotation_matrix(ydeg, None, None, R_inc)(y_rotated)
         return y_rotated
 
-    def rot_flux(y, phi):
-        y = mp.matrix(y.tolist())
-        y_rotated = rotate_y(y, phi)
-        return ((_A1 @ y_rotated).T @ _rT)[0]
+    def limb_darken(py, u):
+        if udeg == 0:
+            return 1, py
+
+        _U = utils.to_mp(U(udeg))
+        u = mp.matrix([1, *u])
+        pu = u.T @ _U
+        norm = mp.pi / (pu @ rT_udeg)[0]
+        py = Pijk.from_dense(pu.tolist()[0]) * Pijk.from_dense(py)
+        py = mp.matrix([py.data.get(Pijk.n2ijk(i), 0.0) for i in range((deg + 1) ** 2)])
+        return norm, py.T
+
+    def rot_flux(y, phi, u=None, rotate=True):
+        if ydeg > 0:
+            y_rotated = mp.matrix(y.tolist())
+            if rotate:
+                y_rotated = rotate_y(y_rotated, phi)
+        else:
+            y_rotated = mp.matrix([1])
+
+        norm, py = limb_darken((_A1 @ y_rotated).T, u)
+        return (norm * py @ _rT)[0]
 
     def occ_flux(y, b, r, phi=0.0, u=None, rotate=True):
         xo = 0.0
@@ -62,26 +80,14 @@ def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
         x = _sT.T @ _A2
 
         if ydeg > 0:
-            y = mp.matrix(y.tolist())
+            y_rotated = mp.matrix(y.tolist())
             if rotate:
-                y_rotated = rotate_y(y, phi)
+                y_rotated = rotate_y(y_rotated, phi)
                 y_rotated = dot_rz(ydeg, theta_z)(y_rotated)
         else:
             y_rotated = mp.matrix([1])
 
-        py = (_A1 @ y_rotated).T
-
-        if udeg > 0:
-            _U = utils.to_mp(U(udeg))
-            u = mp.matrix([1, *u])
-            pu = u.T @ _U
-            norm = mp.pi / (pu @ rT_udeg)[0]
-            py = Pijk.from_dense(pu.tolist()[0]) * Pijk.from_dense(py)
-            py = mp.matrix(
-                [py.data.get(Pijk.n2ijk(i), 0.0) for i in range((py.degree + 1) ** 2)]
-            ).T
-        else:
-            norm = 1
+        norm, py = limb_darken((_A1 @ y_rotated).T, u)
         return norm * py @ x.T
 
     def impl(b, r, y=(), phi=0.0, u=(), rotate=True):
@@ -90,7 +96,7 @@ def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
             assert len(y) == (ydeg + 1) ** 2, "y must have length (ydeg + 1) ** 2"
 
         if abs(b) >= (r + 1):
-            return rot_flux(y, phi)
+            return rot_flux(y, phi, u=u, rotate=rotate)
         elif r > 1 and abs(b) <= (r - 1):
             return mp.mpf(0.0)
         else:
diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index 54637a0..be439b2 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -182,7 +182,7 @@ def dot_rotation_matrix(ydeg, u, theta, rotation_matrices=None):
         result = []
         for l in range(ydeg + 1):
             if l == 0:
-                result.append(mp.matrix([1]))
+                result.append(mp.matrix([M[0]]))
             else:
                 result.append(
                     mp.matrix(M[l * l : l * l + 2 * l + 1]).T @ rotation_matrices[l]
@@ -211,7 +211,7 @@ def left_project(deg, inc, obl, theta, theta_z, x):
     )(x)
 
     if theta_z != 0:
-        x = dot_rotation_matrix(deg, 0, 0, 1.0, -theta_z)(x)
+        x = dot_rotation_matrix(deg, (0.0, 0.0, 1.0), -theta_z)(x)
     return x.T
 
 
-- 
2.43.0


From 3e6089c6570088412d7eb386ec97b66ebb1a0996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:53 +0000
Subject: [PATCH 27/42] fix: multiprecision solutions for concentric discs

---
 .../starry/multiprecision/solution.py         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/solution.py b/src/jaxoplanet/starry/multiprecision/solution.py
index a8a97fe..a0f6f33 100644
--- a/src/jaxoplanet/starry/multiprecision/solution.py
+++ b/src/jaxoplanet/starry/multiprecision/solution.py
@@ -60,7 +60,9 @@ def P(l, m, b, r):
 
     kappa = phi + mp.pi / 2
     delta = (b - r) / (2 * r)
-    k2 = (1 - r**2 - b**2 + 2 * b * r) / (4 * b * r)
+
+    def z2(s):
+        return 1 - (r - b) ** 2 - 4 * b * r * s**2
 
     if (mu / 2) % 2 == 0:
 
@@ -79,9 +81,8 @@ def P(l, m, b, r):
             s = mp.sin(x)
             return (
                 (2 * r) ** (l - 1)
-                * (4 * b * r) ** (3.0 / 2.0)
                 * (s**2 - s**4) ** (0.5 * (l - 2))
-                * (k2 - s**2) ** (3.0 / 2.0)
+                * z2(s) ** (3.0 / 2.0)
                 * (1 - 2 * s**2)
             )
 
@@ -91,10 +92,9 @@ def P(l, m, b, r):
             s = mp.sin(x)
             return (
                 (2 * r) ** (l - 1)
-                * (4 * b * r) ** (3.0 / 2.0)
                 * (s**2 - s**4) ** (0.5 * (l - 3))
                 * (delta + s**2)
-                * (k2 - s**2) ** (3.0 / 2.0)
+                * z2(s) ** (3.0 / 2.0)
                 * (1 - 2 * s**2)
             )
 
@@ -105,10 +105,9 @@ def P(l, m, b, r):
             return (
                 2
                 * (2 * r) ** (l - 1)
-                * (4 * b * r) ** (3.0 / 2.0)
                 * (s**2 - s**4) ** (0.25 * (mu - 1))
                 * (delta + s**2) ** (0.5 * (nu - 1))
-                * (k2 - s**2) ** (3.0 / 2.0)
+                * z2(s) ** (3.0 / 2.0)
             )
 
     elif (mu == 1) and (l == 1):
@@ -257,13 +256,13 @@ def solution_limb_dark(degree, b, r):
         s.append(s1.real)
 
     if degree >= 2:
-        k2 = (1 - r2 - b2 + 2 * b * r) / (4 * b * r)
+        z2_max = 1 - (r - b) ** 2
 
-        if k2 <= 1:
+        if z2_max <= 4 * b * r:
             eta = (1 / (2 * mp.pi)) * (
                 k1 + r2 * (r2 + 2 * b2) * k0 - 0.25 * (1 + 5 * r2 + b2) * area
             )
-        elif k2 > 1:
+        else:
             eta = 0.5 * r2 * (r2 + 2 * b2)
 
         s2 = 2 * s0 + 4 * mp.pi * eta - 2 * mp.pi
@@ -275,9 +274,10 @@ def solution_limb_dark(degree, b, r):
 
             def func(x):
                 s2 = mp.sin(x) ** 2
-                return (k2 - s2) ** (0.5 * n) * (r - b + 2 * b * s2)
+                z2 = z2_max - 4 * b * r * s2
+                return z2 ** (0.5 * n) * (r - b + 2 * b * s2)
 
-            sn = 2 * r * (4 * b * r) ** (0.5 * n) * mp.quad(func, [-k0 / 2, k0 / 2])
+            sn = 2 * r * mp.quad(func, [-k0 / 2, k0 / 2])
             sn = sn.real
 
             s.append(-sn)
-- 
2.43.0


From ab1b5f9fb5b5ddc15253175c0599ff2f3f5ab7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 28/42] fix: spots built inside a compiled function

---
 src/jaxoplanet/starry/ylm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index 45273c6..1fb4ccd 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -265,8 +265,8 @@ def Bp(ydeg, npts: int = 1000, eps: float = 1e-9, smoothing=None):
         else:
             smoothing = 2.0 / ydeg
 
-    theta = jnp.linspace(0, jnp.pi, npts)
-    cost = jnp.cos(theta)
+    theta = np.linspace(0, np.pi, npts)
+    cost = np.cos(theta)
     B = jnp.hstack(
         [
             jnp.sqrt(2 * l + 1) * LegendreP(l)(cost).reshape(-1, 1)
-- 
2.43.0


From 703c85a6c1f541801748d2f4280aec71a64a6373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:54 +0000
Subject: [PATCH 29/42] fix: reverse-mode gradients of the intensity of a
 surface with respect to position and orientation

---
 src/jaxoplanet/starry/core/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/basis.py b/src/jaxoplanet/starry/core/basis.py
index 3d8e323..20bfcb6 100644
--- a/src/jaxoplanet/starry/core/basis.py
+++ b/src/jaxoplanet/starry/core/basis.py
@@ -369,7 +369,7 @@ def poly_basis(deg):
 
         p = jnp.array(xarr) * jnp.array(yarr)
         if len(inds):
-            return p.at[np.array(inds)].multiply(z)
+            return p.at[np.array(inds)].multiply(z, unique_indices=True)
         else:
             return p
 
-- 
2.43.0


From 353a5132917cd1943a7fb2b163fab440f970fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:18 +0000
Subject: [PATCH 30/42] fix: precision and derivatives of the intensity next to
 a polar view

---
 src/jaxoplanet/starry/surface.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 4bea011..38eeffc 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -3,12 +3,11 @@ from collections.abc import Iterable
 import equinox as eqx
 import jax
 import jax.numpy as jnp
-from jax.scipy.spatial.transform import Rotation
 
 from jaxoplanet import starry
 from jaxoplanet.starry.core.basis import A1, U, poly_basis
 from jaxoplanet.starry.core.polynomials import Pijk
-from jaxoplanet.starry.core.rotation import full_rotation_axis_angle, left_project
+from jaxoplanet.starry.core.rotation import left_project
 from jaxoplanet.starry.utils import ortho_grid
 from jaxoplanet.starry.ylm import Ylm
 from jaxoplanet.types import Array, Quantity
@@ -215,16 +214,16 @@ class Surface(eqx.Module):
         Returns:
             float: intensity of the map at the given latitude and longitude
         """
-        lon = jnp.pi / 2 - lon  # convention, 0 lon faces the observer
-        lat = jnp.pi / 2 + lat  # convention, latitude 0 is equator
-        x = jnp.sin(lat) * jnp.cos(lon)
-        y = jnp.sin(lat) * jnp.sin(lon)
-        z = jnp.cos(lat) * jnp.ones_like(x)
-
-        axis = full_rotation_axis_angle(self.inc - jnp.pi / 2, self.obl, 0.0, 0.0)
-        axis = jnp.array(axis[0:3]) * axis[-1]
-        rotation = Rotation.from_rotvec(axis)
-        x, y, z = rotation.apply(jnp.array([x, y, z]).T).T
+        # in the frame of the map, longitude 0 faces the observer and the pole is along y
+        x = jnp.cos(lat) * jnp.sin(lon)
+        y = jnp.sin(lat) * jnp.ones_like(x)
+        z = jnp.cos(lat) * jnp.cos(lon)
+
+        # inclination about the x-axis, then obliquity about the line of sight
+        si, ci = jnp.sin(self.inc), jnp.cos(self.inc)
+        so, co = jnp.sin(self.obl), jnp.cos(self.obl)
+        y, z = y * si - z * ci, y * ci + z * si
+        x, y = x * co - y * so, x * so + y * co
 
         return self._intensity(x, y, z)
 
-- 
2.43.0


From dfab9411a324aab7914654593aef8ded06d9b152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:25 +0000
Subject: [PATCH 31/42] fix: orbits which transit at apastron

With omega = -pi/2 the half-angle formula for the eccentric anomaly at
transit becomes 0/0: the derivative with respect to omega was wrong by a
factor of two, and sin_omega_peri=-1, cos_omega_peri=0 put the transit at
periastron.
---
 src/jaxoplanet/orbits/keplerian.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index 2a728a9..385a6d9 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -321,10 +321,11 @@ class OrbitalBody(eqx.Module):
         else:
             assert self.sin_omega_peri is not None
             assert self.cos_omega_peri is not None
-            opsw = 1 + self.sin_omega_peri
-            E0 = 2 * jnpu.arctan2(
-                jnpu.sqrt(1 - self.eccentricity) * self.cos_omega_peri,
-                jnpu.sqrt(1 + self.eccentricity) * opsw,
+            # The true anomaly at transit is pi/2 - omega; in terms of the half angle
+            # this is singular for transits at apastron (omega = -pi/2)
+            E0 = jnpu.arctan2(
+                jnpu.sqrt(1 - self.eccentricity**2) * self.cos_omega_peri,
+                self.eccentricity + self.sin_omega_peri,
             )
             M0 = E0 - self.eccentricity * jnpu.sin(E0)
 
-- 
2.43.0


From 19feb62d8ff2e7f27754a54e76e7dc3d02d90399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:25 +0000
Subject: [PATCH 32/42] fix: gradients of transit orbits of planets which don't
 transit

The gradient of the square root of the chord was NaN for impact_param >=
1 + radius_ratio.
---
 src/jaxoplanet/orbits/transit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/orbits/transit.py b/src/jaxoplanet/orbits/transit.py
index c6f1021..2191434 100644
--- a/src/jaxoplanet/orbits/transit.py
+++ b/src/jaxoplanet/orbits/transit.py
@@ -5,6 +5,7 @@ import jpu.numpy as jnpu
 from jaxoplanet import units
 from jaxoplanet.types import Quantity
 from jaxoplanet.units import unit_registry as ureg
+from jaxoplanet.utils import zero_safe_sqrt
 
 
 class TransitOrbit(eqx.Module):
@@ -84,10 +85,12 @@ class TransitOrbit(eqx.Module):
             self.radius_ratio = radius_ratio
 
         x2 = jnpu.square(1 + self.radius_ratio) - jnpu.square(self.impact_param)
+        # the gradient of a plain square root is not finite for planets which don't transit
+        chord = 2 * zero_safe_sqrt(jnpu.maximum(0, x2).magnitude)
         if duration is None:
-            self.duration = 2 * jnpu.sqrt(jnpu.maximum(0, x2)) / self.speed
+            self.duration = chord / self.speed
         else:
-            self.speed = 2 * jnpu.sqrt(jnpu.maximum(0, x2)) / self.duration
+            self.speed = chord / self.duration
 
     @property
     def shape(self) -> tuple[int, ...]:
-- 
2.43.0


From 796081b125673f2321ec7549bf5a641bc3ebef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:40 +0000
Subject: [PATCH 33/42] fix: multiprecision caches ignored the precision

---
 src/jaxoplanet/starry/multiprecision/basis.py | 14 ++++++-----
 src/jaxoplanet/starry/multiprecision/flux.py  |  4 +++-
 .../starry/multiprecision/rotation.py         | 23 +++++++++++--------
 .../starry/multiprecision/solution.py         |  2 +-
 4 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/basis.py b/src/jaxoplanet/starry/multiprecision/basis.py
index 19f0461..35f82ff 100644
--- a/src/jaxoplanet/starry/multiprecision/basis.py
+++ b/src/jaxoplanet/starry/multiprecision/basis.py
@@ -21,17 +21,19 @@ def get_A(A, l_max, cache=None):
         cache = CACHED_MATRICES
 
     name = A.__name__.replace("_", "")
-    if name not in cache[l_max]:
+    key = (name, mp.prec)
+    if key not in cache[l_max]:
         print(f"pre-computing {name}...")
-        cache[l_max][name] = A(l_max)
-    return cache[l_max][name]
+        cache[l_max][key] = A(l_max)
+    return cache[l_max][key]
 
 
 def fac(n):
-    if n not in FAC_CACHE:
-        FAC_CACHE[n] = fac_function(n)
+    key = (n, mp.prec)
+    if key not in FAC_CACHE:
+        FAC_CACHE[key] = fac_function(n)
 
-    return FAC_CACHE[n]
+    return FAC_CACHE[key]
 
 
 def A(l, m):
diff --git a/src/jaxoplanet/starry/multiprecision/flux.py b/src/jaxoplanet/starry/multiprecision/flux.py
index bcd3ae7..a727032 100644
--- a/src/jaxoplanet/starry/multiprecision/flux.py
+++ b/src/jaxoplanet/starry/multiprecision/flux.py
@@ -20,7 +20,9 @@ CACHED_MATRICES = defaultdict(
 )
 
 
-def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
+def flux(ydeg=0, udeg=0, inc=None, obl=0.0, cache=None):
+    if inc is None:
+        inc = mp.pi / 2
     if cache is None:
         cache = CACHED_MATRICES
 
diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index be439b2..a7ae426 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -17,27 +17,30 @@ def get_R(name, l_max, obl=None, inc=None, cache=None):
 
     if obl is not None and inc is not None:
         if name == "R_obl":
-            if obl not in cache[l_max][name]:
+            key = (obl, mp.prec)
+            if key not in cache[l_max][name]:
                 print(f"pre-computing {name}...")
-                cache[l_max][name][obl] = R(l_max, (0.0, 0.0, 1.0), -obl)
-            return cache[l_max][name][obl]
+                cache[l_max][name][key] = R(l_max, (0.0, 0.0, 1.0), -obl)
+            return cache[l_max][name][key]
         elif name == "R_inc":
-            if (inc, obl) not in cache[l_max][name]:
+            key = (inc, obl, mp.prec)
+            if key not in cache[l_max][name]:
                 print(f"pre-computing {name}...")
-                cache[l_max][name][(inc, obl)] = R(
+                cache[l_max][name][key] = R(
                     l_max, (-mp.cos(obl), -mp.sin(obl), 0.0), (0.5 * mp.pi - inc)
                 )
-            return cache[l_max][name][(inc, obl)]
+            return cache[l_max][name][key]
     else:
-        if name not in cache[l_max]:
+        key = (name, mp.prec)
+        if key not in cache[l_max]:
             if name == "R_px":
                 print(f"pre-computing {name}...")
-                cache[l_max][name] = R(l_max, (1.0, 0.0, 0.0), -0.5 * mp.pi)
+                cache[l_max][key] = R(l_max, (1.0, 0.0, 0.0), -0.5 * mp.pi)
             elif name == "R_mx":
                 print(f"pre-computing {name}...")
-                cache[l_max][name] = R(l_max, (1.0, 0.0, 0.0), 0.5 * mp.pi)
+                cache[l_max][key] = R(l_max, (1.0, 0.0, 0.0), 0.5 * mp.pi)
 
-        return cache[l_max][name]
+        return cache[l_max][key]
 
 
 def R(lmax, u, theta):
diff --git a/src/jaxoplanet/starry/multiprecision/solution.py b/src/jaxoplanet/starry/multiprecision/solution.py
index a0f6f33..4d7a877 100644
--- a/src/jaxoplanet/starry/multiprecision/solution.py
+++ b/src/jaxoplanet/starry/multiprecision/solution.py
@@ -14,7 +14,7 @@ def get_sT(l_max, b, r, cache=None):
         cache = CACHED_MATRICES
 
     name = "sT"
-    br = (b, r)
+    br = (b, r, mp.prec)
     if br not in cache[l_max][name]:
         cache[l_max][name][br] = sT(l_max, b, r)
     return cache[l_max][name][br]
-- 
2.43.0


From f022bab8a96806c7d3a443ad9b5e8a59219aab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:54 +0000
Subject: [PATCH 34/42] fix: accuracy of multiprecision rotations by small
 angles and about the line of sight

---
 .../starry/multiprecision/rotation.py         | 35 ++++++++-----------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index a7ae426..ff0906a 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -118,33 +118,30 @@ def R(lmax, u, theta):
     def axis_angle_to_euler(u1, u2, u3, theta):
         """Axis-angle rotation matrix."""
 
-        tol = 1e-20
-        if theta == 0:
-            theta = tol
-        if u1 == 0 and u2 == 0:
-            u1 = tol
-            u2 = tol
-
-        # Elements of the transformation matrix
+        # Elements of the transformation matrix, with 1 - cos(theta) accurate for
+        # small angles
         costheta = mp.cos(theta)
         sintheta = mp.sin(theta)
-        RA01 = u1 * u2 * (1 - costheta) - u3 * sintheta
-        RA02 = u1 * u3 * (1 - costheta) + u2 * sintheta
-        RA11 = costheta + u2 * u2 * (1 - costheta)
-        RA12 = u2 * u3 * (1 - costheta) - u1 * sintheta
-        RA20 = u3 * u1 * (1 - costheta) - u2 * sintheta
-        RA21 = u3 * u2 * (1 - costheta) + u1 * sintheta
-        RA22 = costheta + u3 * u3 * (1 - costheta)
+        omc = 2 * mp.sin(theta / 2) ** 2
+        RA01 = u1 * u2 * omc - u3 * sintheta
+        RA02 = u1 * u3 * omc + u2 * sintheta
+        RA11 = costheta + u2 * u2 * omc
+        RA12 = u2 * u3 * omc - u1 * sintheta
+        RA20 = u3 * u1 * omc - u2 * sintheta
+        RA21 = u3 * u2 * omc + u1 * sintheta
+        RA22 = costheta + u3 * u3 * omc
 
         # Determine the Euler angles
-        if (RA22 < -1) and (RA22 > -1):
+        norm1 = mp.sqrt(RA20 * RA20 + RA21 * RA21)
+        norm2 = mp.sqrt(RA02 * RA02 + RA12 * RA12)
+        if norm1 == 0 and RA22 < 0:
             cosbeta = -1
             sinbeta = 0
             cosgamma = RA11
             singamma = RA01
             cosalpha = 1
             sinalpha = 0
-        elif (RA22 < 1) and (RA22 > 1):
+        elif norm1 == 0:
             cosbeta = 1
             sinbeta = 0
             cosgamma = RA11
@@ -153,9 +150,7 @@ def R(lmax, u, theta):
             sinalpha = 0
         else:
             cosbeta = RA22
-            sinbeta = mp.sqrt(1 - cosbeta**2)
-            norm1 = mp.sqrt(RA20 * RA20 + RA21 * RA21)
-            norm2 = mp.sqrt(RA02 * RA02 + RA12 * RA12)
+            sinbeta = norm2
             cosgamma = -RA20 / norm1
             singamma = RA21 / norm1
             cosalpha = RA02 / norm2
-- 
2.43.0


From f9579631b01d97e34623debb64562cb87f8cd8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:00 +0000
Subject: [PATCH 35/42] fix: lines of surfaces were drawn on the current axes,
 not on the ones given

---
 src/jaxoplanet/starry/utils.py         | 12 ++++++++----
 src/jaxoplanet/starry/visualization.py |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/starry/utils.py b/src/jaxoplanet/starry/utils.py
index 4c636d4..8415ab0 100644
--- a/src/jaxoplanet/starry/utils.py
+++ b/src/jaxoplanet/starry/utils.py
@@ -113,10 +113,14 @@ def graticule(
     white_contour=True,
     radius: float = 1.0,
     n=6,
+    ax=None,
     **kwargs,
 ):
     import matplotlib.pyplot as plt
 
+    if ax is None:
+        ax = plt.gca()
+
     kwargs.setdefault("c", kwargs.pop("color", "k"))
     kwargs.setdefault("lw", kwargs.pop("linewidth", 1))
     kwargs.setdefault("alpha", 0.3)
@@ -124,16 +128,16 @@ def graticule(
     # plot lines
     lat, lon = lon_lat_lines(pts=pts, radius=radius, n=n)
     lat = rotate_lines(lat, inc, obl, theta)
-    plot_lines(lat, **kwargs)
+    plot_lines(lat, ax=ax, **kwargs)
     lon = rotate_lines(lon, inc, obl, theta)
-    plot_lines(lon, **kwargs)
+    plot_lines(lon, ax=ax, **kwargs)
     theta = np.linspace(0, 2 * np.pi, 2 * pts)
 
     # contour
     sqrt_radius = radius
-    plt.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), **kwargs)
+    ax.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), **kwargs)
     if white_contour:
-        plt.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), c="w", lw=3)
+        ax.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), c="w", lw=3)
 
 
 # s2fft have the same but this one is jitabel
diff --git a/src/jaxoplanet/starry/visualization.py b/src/jaxoplanet/starry/visualization.py
index 1f28c06..1fb4684 100644
--- a/src/jaxoplanet/starry/visualization.py
+++ b/src/jaxoplanet/starry/visualization.py
@@ -94,6 +94,7 @@ def show_surface(
             radius=radius,
             n=n,
             white_contour=white_contour,
+            ax=ax,
         )
     ax.set_xlim(-1.02, 1.02)
     ax.set_ylim(-1.02, 1.02)
-- 
2.43.0


From 68e4b725422540ebac395bc18781753fc44553b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:00 +0000
Subject: [PATCH 36/42] fix: maps without a mean could not be shown

---
 src/jaxoplanet/starry/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/visualization.py b/src/jaxoplanet/starry/visualization.py
index 1fb4684..112eb6f 100644
--- a/src/jaxoplanet/starry/visualization.py
+++ b/src/jaxoplanet/starry/visualization.py
@@ -64,7 +64,7 @@ def show_surface(
             n = int(np.ceil(n * np.cbrt(radius)))
     # import Ylm leads to circular import
     elif isinstance(ylm_pijk_surface_body, Ylm):
-        surface = Surface(y=ylm_pijk_surface_body)
+        surface = Surface(y=ylm_pijk_surface_body, normalize=False)
         radius = 1.0 if radius is None else radius
     elif isinstance(ylm_pijk_surface_body, Pijk):
         A1inv = np.linalg.inv(A1(ylm_pijk_surface_body.degree).todense())
-- 
2.43.0


From c60547c64f58171774880763ea50f650e410a699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:00 +0000
Subject: [PATCH 37/42] fix: image of a body had not the radius of its lines

---
 src/jaxoplanet/starry/visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/starry/visualization.py b/src/jaxoplanet/starry/visualization.py
index 112eb6f..e4c48f0 100644
--- a/src/jaxoplanet/starry/visualization.py
+++ b/src/jaxoplanet/starry/visualization.py
@@ -78,7 +78,7 @@ def show_surface(
         radius = 1.0 if radius is None else radius
 
     phase = theta + (surface.phase if include_phase else 0.0)
-    extent = np.array([-1, 1, -1, 1])
+    extent = radius * np.array([-1, 1, -1, 1])
 
     im = ax.imshow(
         surface.render(phase, res, rv=rv),
@@ -96,8 +96,8 @@ def show_surface(
             white_contour=white_contour,
             ax=ax,
         )
-    ax.set_xlim(-1.02, 1.02)
-    ax.set_ylim(-1.02, 1.02)
+    ax.set_xlim(-1.02 * radius, 1.02 * radius)
+    ax.set_ylim(-1.02 * radius, 1.02 * radius)
     ax.axis(False)
 
     if return_im:
-- 
2.43.0


From 2e51fb5263209600fd38d5df90cf32c11969aa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:31 +0000
Subject: [PATCH 38/42] fix: rotations about the polar axis truncated maps
 given as integers

---
 src/jaxoplanet/starry/core/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index 2986f27..7ca1e3b 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -515,7 +515,7 @@ def dot_rz(deg, theta):
                     + M[ell * ell + 2 * ell - j] * sinmt[ell * ell + j]
                 )
 
-        return jnp.array(result, dtype=jnp.dtype(M))
+        return jnp.array(result, dtype=jnp.result_type(M, float))
 
     return impl
 
-- 
2.43.0


From 3789054bfdf4e878f09f74fda8ee1a16ded20550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:50 +0000
Subject: [PATCH 39/42] fix: occultations by bodies of integer radius were
 rejected

---
 src/jaxoplanet/core/limb_dark.py       | 5 +++--
 src/jaxoplanet/starry/core/solution.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index 675ecd5..7be3592 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -53,8 +53,9 @@ def solution_vector(l_max: int, order: int = 10) -> Callable[[Array, Array], Arr
     @partial(jnp.vectorize, signature=f"(),()->({n_max})")
     def impl(b: Array, r: Array) -> Array:
         # TODO: Are all of these conditions necessary?
-        b = jnp.abs(b)
-        r = jnp.abs(r)
+        dtype = jnp.result_type(b, r, float)
+        b = jnp.abs(b).astype(dtype)
+        r = jnp.abs(r).astype(dtype)
         area, kappa0, kappa1 = kappas(b, r)
 
         no_occ = jnp.greater_equal(b, 1 + r)
diff --git a/src/jaxoplanet/starry/core/solution.py b/src/jaxoplanet/starry/core/solution.py
index b9fb43f..a0f7c07 100644
--- a/src/jaxoplanet/starry/core/solution.py
+++ b/src/jaxoplanet/starry/core/solution.py
@@ -17,8 +17,9 @@ def solution_vector(l_max: int, order: int = 20) -> Callable[[Array, Array], Arr
     @jax.jit
     @partial(jnp.vectorize, signature=f"(),()->({n_max})")
     def impl(b: Array, r: Array) -> Array:
-        b = jnp.abs(b)
-        r = jnp.abs(r)
+        dtype = jnp.result_type(b, r, float)
+        b = jnp.abs(b).astype(dtype)
+        r = jnp.abs(r).astype(dtype)
         kappa0, kappa1 = kappas(b, r)
         P = p_integral(order, l_max, b, r, kappa0)
         Q = q_integral(l_max, 0.5 * jnp.pi - kappa1)
-- 
2.43.0


From 62b7c96688a5572294c5bbf86b6f0d6ffc766322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:44 +0000
Subject: [PATCH 40/42] fix: disc integrals of the multiprecision reference
 have all the digits

---
 src/jaxoplanet/starry/multiprecision/solution.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/solution.py b/src/jaxoplanet/starry/multiprecision/solution.py
index 4d7a877..4dbcc45 100644
--- a/src/jaxoplanet/starry/multiprecision/solution.py
+++ b/src/jaxoplanet/starry/multiprecision/solution.py
@@ -193,8 +193,8 @@ def sT(l_max, b, r):
 def rT(lmax: int):
     rt = [0.0 for _ in range((lmax + 1) * (lmax + 1))]
     amp0 = mp.pi
-    lfac1 = 1.0
-    lfac2 = 2.0 / 3.0
+    lfac1 = mp.mpf(1)
+    lfac2 = mp.mpf(2) / 3
     for ell in range(0, lmax + 1, 4):
         amp = amp0
         for m in range(0, ell + 1, 4):
@@ -205,14 +205,14 @@ def rT(lmax: int):
             if ell < lmax:
                 rt[(ell + 1) * (ell + 1) + ell + m + 1] = amp * lfac2
                 rt[(ell + 1) * (ell + 1) + ell - m + 1] = amp * lfac2
-            amp *= (nu + 2.0) / (mu - 2.0)
+            amp *= mp.mpf(nu + 2) / (mu - 2)
         lfac1 /= (ell / 2 + 2) * (ell / 2 + 3)
         lfac2 /= (ell / 2 + 2.5) * (ell / 2 + 3.5)
         amp0 *= 0.0625 * (ell + 2) * (ell + 2)
 
     amp0 = 0.5 * mp.pi
-    lfac1 = 0.5
-    lfac2 = 4.0 / 15.0
+    lfac1 = mp.mpf(1) / 2
+    lfac2 = mp.mpf(4) / 15
     for ell in range(2, lmax + 1, 4):
         amp = amp0
         for m in range(2, ell + 1, 4):
@@ -223,7 +223,7 @@ def rT(lmax: int):
             if ell < lmax:
                 rt[(ell + 1) * (ell + 1) + ell + m + 1] = amp * lfac2
                 rt[(ell + 1) * (ell + 1) + ell - m + 1] = amp * lfac2
-            amp *= (nu + 2.0) / (mu - 2.0)
+            amp *= mp.mpf(nu + 2) / (mu - 2)
         lfac1 /= (ell / 2 + 2) * (ell / 2 + 3)
         lfac2 /= (ell / 2 + 2.5) * (ell / 2 + 3.5)
         amp0 *= 0.0625 * ell * (ell + 4)
-- 
2.43.0


From dee076fe34b65ba4c2376b91d0cd27a911880d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:06 +0000
Subject: [PATCH 41/42] fix: adding a number to a polynomial adds the constant,
 not to every coefficient

---
 src/jaxoplanet/starry/core/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/polynomials.py b/src/jaxoplanet/starry/core/polynomials.py
index 336aeab..6d9ca56 100644
--- a/src/jaxoplanet/starry/core/polynomials.py
+++ b/src/jaxoplanet/starry/core/polynomials.py
@@ -120,7 +120,7 @@ class Pijk(eqx.Module):
         if isinstance(other, Pijk):
             return _add(self, other)
         else:
-            return jax.tree_util.tree_map(lambda x: x + other, self)
+            return _add(self, Pijk({(0, 0, 0): other}))
 
     def __mul__(self, other: Any) -> "Pijk":
         if isinstance(other, Pijk):
-- 
2.43.0


From 2f24cf33f50c8ae485bd5a9b3b386c475c237763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:06 +0000
Subject: [PATCH 42/42] fix: trapezoid and Simpson exposure integration with a
 single sample stay centred on the exposure

---
 src/jaxoplanet/light_curves/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 9a49918..31781a3 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -73,6 +73,9 @@ def integrate(
     # Ensure 'num_samples' is an odd number
     num_samples = int(num_samples)
     num_samples += 1 - num_samples % 2
+    if order in (1, 2):
+        # these rules need both ends of the exposure and its centre
+        num_samples = max(num_samples, 3)
     stencil = jnp.ones(num_samples)
 
     # Construct exposure time integration stencil
-- 
2.43.0

