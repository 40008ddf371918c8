From 2fe3ae1cefee3e9b10fc96998e02ad9e9d449855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 01/52] fix: Cartesian/Cylindrical -> Spherical of the origin
 gives a NaN polar angle

---
 src/coordinax/_src/vectors/d3/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index a34d35e..3c8b89e 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -221,7 +221,8 @@ def represent_as(
 
     """
     r = xp.sqrt(current.x**2 + current.y**2 + current.z**2)
-    theta = xp.acos(current.z / r)
+    # the polar angle is arbitrary at the origin: use 0 instead of acos(0 / 0)
+    theta = xp.acos(xp.where(r == 0, xp.ones(r.shape), current.z / r))
     phi = xp.atan2(current.y, current.x)
     return target(r=r, theta=theta, phi=phi)
 
@@ -305,7 +306,8 @@ def represent_as(
 
     """
     r = xp.sqrt(current.rho**2 + current.z**2)
-    theta = xp.acos(current.z / r)
+    # the polar angle is arbitrary at the origin: use 0 instead of acos(0 / 0)
+    theta = xp.acos(xp.where(r == 0, xp.ones(r.shape), current.z / r))
     return target(r=r, theta=theta, phi=current.phi)
 
 
-- 
2.43.0


From 5a53e78a155c70e3bb7d41ad6584649f8fcdb364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 02/52] fix: ProlateSpheroidalPos of a focus has a NaN nu

---
 src/coordinax/_src/vectors/d3/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index 3c8b89e..1dc1a1a 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -687,6 +687,10 @@ def represent_as(
     # compute mu and nu depending on sign of diff_ - avoids dividing by a small number
     pos_mu_minus_delta = 0.5 * (D + diff_)
     pos_delta_minus_nu = Delta2 * R2 / pos_mu_minus_delta
+    # at the foci (R=0, |z|=Delta) the ratio is 0 / 0, and its limit is 0
+    pos_delta_minus_nu = xp.where(
+        pos_mu_minus_delta == 0, pos_mu_minus_delta, pos_delta_minus_nu
+    )
 
     neg_delta_minus_nu = 0.5 * (D - diff_)
     neg_mu_minus_delta = Delta2 * R2 / neg_delta_minus_nu
-- 
2.43.0


From 9ade0468de75a7822619d471545e7e89fc2c3cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 03/52] fix: ProlateSpheroidalPos self-transform fails when
 units differ from Delta's

---
 src/coordinax/_src/vectors/d3/transform.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index 1dc1a1a..fee95c1 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -6,7 +6,6 @@ __all__: list[str] = []
 from typing import Any
 
 import equinox as eqx
-import jax
 from plum import dispatch
 
 import quaxed.numpy as xp
@@ -770,15 +769,10 @@ def represent_as(
     Array(True, dtype=bool)
 
     """
-    Delta = kwargs.get("Delta", current.Delta)
-    return jax.lax.cond(
-        "Delta" in kwargs,
-        lambda Delta: represent_as(
-            represent_as(current, CylindricalPos), target, Delta=Delta
-        ),
-        lambda _: current,
-        Delta,
-    )
+    if "Delta" not in kwargs:
+        return current
+    cyl = represent_as(current, CylindricalPos)
+    return represent_as(cyl, target, Delta=kwargs["Delta"])
 
 
 @dispatch
-- 
2.43.0


From 2b5a328b2a88e78640f72480bb4ddae0e83f8a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 04/52] fix: normalising spherical constructors leave the
 azimuth out of range

---
 src/coordinax/_src/vectors/d3/lonlatspherical.py | 3 ++-
 src/coordinax/_src/vectors/d3/mathspherical.py   | 3 ++-
 src/coordinax/_src/vectors/d3/spherical.py       | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index feb7a9f..66f5170 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -238,7 +238,8 @@ def from_(
     lat = qlax.select(lat_pred, _180d - lat, lat)
     lon = qlax.select(lat_pred, lon + _180d, lon)
 
-    # 4) Construct. This also handles the longitude wrapping
+    # 4) Construct. The shifts can leave the azimuthal range, so wrap it again
+    lon = converter_azimuth_to_range(lon)
     return cls(lon=lon, lat=lat, distance=distance)
 
 
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index 63a1195..bfa6525 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -179,7 +179,8 @@ def from_(
     phi = qlax.select(phi_pred, phi, _360d - phi)
     theta = qlax.select(phi_pred, theta, theta + _180d)
 
-    # 4) Construct. This also handles the azimuthal angle wrapping
+    # 4) Construct. The shifts can leave the azimuthal range, so wrap it again
+    theta = converter_azimuth_to_range(theta)
     return cls(r=r, theta=theta, phi=phi)
 
 
diff --git a/src/coordinax/_src/vectors/d3/spherical.py b/src/coordinax/_src/vectors/d3/spherical.py
index f7dc3db..166b7a6 100644
--- a/src/coordinax/_src/vectors/d3/spherical.py
+++ b/src/coordinax/_src/vectors/d3/spherical.py
@@ -157,7 +157,8 @@ def from_(
     theta = qlax.select(theta_pred, theta, _360d - theta)
     phi = qlax.select(theta_pred, phi, phi + _180d)
 
-    # 4) Construct. This also handles the azimuthal angle wrapping
+    # 4) Construct. The shifts can leave the azimuthal range, so wrap it again
+    phi = converter_azimuth_to_range(phi)
     return cls(r=r, theta=theta, phi=phi)
 
 
-- 
2.43.0


From e2a09a0ff4992d498870853aef00b6c67057b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 05/52] fix: normalising spherical constructors refuse
 broadcastable component shapes

---
 src/coordinax/_src/vectors/d3/lonlatspherical.py | 1 +
 src/coordinax/_src/vectors/d3/mathspherical.py   | 1 +
 src/coordinax/_src/vectors/d3/spherical.py       | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index 66f5170..9ddff65 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -221,6 +221,7 @@ def from_(
     lon = fields["lon"].metadata["converter"](lon)
     lat = fields["lat"].metadata["converter"](lat)
     distance = fields["distance"].metadata["converter"](distance)
+    lon, lat, distance = jnp.broadcast_arrays(lon, lat, distance)
 
     # 2) handle negative distances
     distance_pred = distance < jnp.zeros_like(distance)
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index bfa6525..b889982 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -166,6 +166,7 @@ def from_(
     r = fields["r"].metadata["converter"](r)
     theta = fields["theta"].metadata["converter"](theta)
     phi = fields["phi"].metadata["converter"](phi)
+    r, theta, phi = jnp.broadcast_arrays(r, theta, phi)
 
     # 2) handle negative distances
     r_pred = r < jnp.zeros_like(r)
diff --git a/src/coordinax/_src/vectors/d3/spherical.py b/src/coordinax/_src/vectors/d3/spherical.py
index 166b7a6..0c3fac0 100644
--- a/src/coordinax/_src/vectors/d3/spherical.py
+++ b/src/coordinax/_src/vectors/d3/spherical.py
@@ -144,6 +144,7 @@ def from_(
     r = fields["r"].metadata["converter"](r)
     theta = fields["theta"].metadata["converter"](theta)
     phi = fields["phi"].metadata["converter"](phi)
+    r, theta, phi = jnp.broadcast_arrays(r, theta, phi)
 
     # 2) handle negative distances
     r_pred = r < jnp.zeros_like(r)
-- 
2.43.0


From fa71b65884e063cb86cee8ba9130cbfbaca0f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 06/52] fix: velocities at prolate spheroidal positions fail
 because Delta is vmapped

---
 src/coordinax/_src/vectors/transform/velocities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/transform/velocities.py b/src/coordinax/_src/vectors/transform/velocities.py
index 6310fc1..8a9f5a0 100644
--- a/src/coordinax/_src/vectors/transform/velocities.py
+++ b/src/coordinax/_src/vectors/transform/velocities.py
@@ -131,7 +131,9 @@ def represent_as(
     # original type, with fields that are the columns of that row, but with only the
     # denomicator's units.
     tmp = partial(represent_as, **kwargs)
-    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=(0, None)))
+    # Scalar parameters of the position (e.g. a focal length) are not batched.
+    axes = jax.tree.map(lambda x: 0 if x.ndim else None, current_pos)
+    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=(axes, None)))
     jac_nested_vecs = jac_rep_as(current_pos, target.integral_cls)
 
     # This changes the Jacobian to be a dictionary of each row, with the value
-- 
2.43.0


From 707530a395a5a2c8d71b4ada695aeea34279daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 07/52] fix: LonCosLatSphericalVel self-transform is ambiguous
 for a Quantity position

---
 src/coordinax/_src/vectors/d3/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index fee95c1..d0a15fe 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -104,7 +104,7 @@ def represent_as(
     (
         LonCosLatSphericalVel,
         type[LonCosLatSphericalVel],
-        AbstractPos,
+        AbstractPos | u.Quantity["length"],
     ),
     (MathSphericalVel, type[MathSphericalVel], AbstractPos),
     (ProlateSpheroidalVel, type[ProlateSpheroidalVel], AbstractPos),
-- 
2.43.0


From 03a65c3226791b769b59fabb08de3e3ffd7d8d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 08/52] fix: LonCosLatSphericalVel conversions drop keyword
 arguments such as Delta

---
 src/coordinax/_src/vectors/d3/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index d0a15fe..d790412 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -868,7 +868,7 @@ def represent_as(
         )
 
     # Transform the differential to LonLatSphericalVel
-    current = represent_as(current, LonLatSphericalVel, posvec)
+    current = represent_as(current, LonLatSphericalVel, posvec, **kwargs)
 
     # Transform the position to the required type
     posvec = represent_as(posvec, current.integral_cls)
@@ -928,7 +928,7 @@ def represent_as(
     # Transform the differential to LonLatSphericalVel
     current = represent_as(current, LonLatSphericalVel, posvec)
     # Transform the position to the required type
-    return represent_as(current, target, posvec)
+    return represent_as(current, target, posvec, **kwargs)
 
 
 # =============================================================================
-- 
2.43.0


From 606494247367b56d83a6deaaddf593fe06060bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 09/52] fix: CartesianVel2D has no norm, so 2-D velocities have
 no speed

---
 src/coordinax/_src/vectors/d2/cartesian.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index 5b097ba..b4fd181 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -185,6 +185,21 @@ class CartesianVel2D(AvalMixin, AbstractVel2D):
     def differential_cls(cls) -> type["CartesianAcc2D"]:
         return CartesianAcc2D
 
+    @override
+    @partial(eqx.filter_jit, inline=True)
+    def norm(self, _: AbstractPos2D | None = None, /) -> ct.BatchableSpeed:
+        """Return the norm of the vector.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+        >>> v = cx.vecs.CartesianVel2D.from_([3, 4], "km/s")
+        >>> v.norm()
+        Quantity['speed'](Array(5., dtype=float32), unit='km / s')
+
+        """
+        return jnp.sqrt(self.d_x**2 + self.d_y**2)
+
 
 # -----------------------------------------------------
 
-- 
2.43.0


From 38e55b8195425464a27b4498f8f18fb08cd79aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 10/52] fix: accelerations cannot be converted to or from
 prolate spheroidal

---
 .../_src/vectors/transform/accelerations.py      | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/coordinax/_src/vectors/transform/accelerations.py b/src/coordinax/_src/vectors/transform/accelerations.py
index 32df3da..f050f5f 100644
--- a/src/coordinax/_src/vectors/transform/accelerations.py
+++ b/src/coordinax/_src/vectors/transform/accelerations.py
@@ -3,6 +3,7 @@
 __all__: list[str] = []
 
 from dataclasses import replace
+from functools import partial
 from math import prod
 from typing import Any
 
@@ -16,6 +17,7 @@ from dataclassish import field_items
 
 from coordinax._src.distances import AbstractDistance
 from coordinax._src.vectors.base import AbstractAcc, AbstractPos, AbstractVel
+from coordinax._src.vectors.base.flags import AttrFilter
 from coordinax._src.vectors.d1 import AbstractAcc1D
 from coordinax._src.vectors.d2 import AbstractAcc2D
 from coordinax._src.vectors.d3 import AbstractAcc3D
@@ -148,7 +150,7 @@ def represent_as(
         current_pos,
         **{
             k: v.distance
-            for k, v in field_items(current_pos)
+            for k, v in field_items(AttrFilter, current_pos)
             if isinstance(v, AbstractDistance)
         },
     )
@@ -163,6 +165,10 @@ def represent_as(
     # the correct numerator unit (of the Jacobian row). The value is a Vector of the
     # original type, with fields that are the columns of that row, but with only the
     # denomicator's units.
+    tmp = partial(represent_as, **kwargs)
+    # Scalar parameters of the position (e.g. a focal length) are not batched.
+    axes = jax.tree.map(lambda x: 0 if x.ndim else None, current_pos)
+    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=(axes, None)))
     jac_nested_vecs = jac_rep_as(current_pos, target.integral_cls.integral_cls)
 
     # This changes the Jacobian to be a dictionary of each row, with the value
@@ -171,9 +177,9 @@ def represent_as(
     jac_rows = {
         f"d2_{k}": {
             kk: u.Quantity(vv.value, unit=v.unit / vv.unit)
-            for kk, vv in field_items(v.value)
+            for kk, vv in field_items(AttrFilter, v.value)
         }
-        for k, v in field_items(jac_nested_vecs)
+        for k, v in field_items(AttrFilter, jac_nested_vecs)
     }
 
     # Now we can use the Jacobian to transform the differential.
@@ -197,7 +203,3 @@ def represent_as(
     #       This is necessary for the df/dt * vel term in the chain rule.
 
     return newvec  # noqa: RET504
-
-
-# TODO: situate this better to show how represent_as is used
-jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(represent_as), in_axes=(0, None)))
-- 
2.43.0


From e009cdb21bad7e4c50bcd5eb23ffce8c1a3d20cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 11/52] fix: keep the polar radius non-negative when projecting
 a spherical position at the pole

---
 src/coordinax/_src/vectors/transform/d3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/transform/d3.py b/src/coordinax/_src/vectors/transform/d3.py
index c3f1cb8..bc4075a 100644
--- a/src/coordinax/_src/vectors/transform/d3.py
+++ b/src/coordinax/_src/vectors/transform/d3.py
@@ -382,7 +382,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(r=current.r * jnp.sin(current.theta), phi=current.phi)
+    return target(r=jnp.abs(current.r * jnp.sin(current.theta)), phi=current.phi)
 
 
 # =============================================================================
@@ -506,7 +506,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(r=current.r * jnp.sin(current.phi), phi=current.theta)
+    return target(r=jnp.abs(current.r * jnp.sin(current.phi)), phi=current.theta)
 
 
 # =============================================================================
-- 
2.43.0


From edd0c351ba48ae8fe1849e2675fd5661f2ac80ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 12/52] fix: multiply PolarPos and MathSphericalPos by a
 negative scalar

---
 src/coordinax/_src/vectors/d2/polar.py         | 11 +++++++++--
 src/coordinax/_src/vectors/d3/mathspherical.py |  4 ++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/d2/polar.py b/src/coordinax/_src/vectors/d2/polar.py
index aaac9d7..e91d0a6 100644
--- a/src/coordinax/_src/vectors/d2/polar.py
+++ b/src/coordinax/_src/vectors/d2/polar.py
@@ -10,6 +10,8 @@ import jax
 from jaxtyping import ArrayLike
 from quax import register
 
+import quaxed.lax as qlax
+import quaxed.numpy as jnp
 import unxt as u
 from dataclassish import replace
 from dataclassish.converters import Unless
@@ -88,8 +90,13 @@ def _mul_p_vpolar(lhs: ArrayLike, rhs: PolarPos, /) -> PolarPos:
     lhs = eqx.error_if(
         lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
     )
-    # Scale the radial distance
-    return replace(rhs, r=lhs * rhs.r)
+    # Scale the radial distance. A negative factor reverses the direction.
+    phi = qlax.select(
+        jnp.broadcast_to(lhs < 0, rhs.phi.shape),
+        converter_azimuth_to_range(rhs.phi + u.Quantity(180, "deg")),
+        rhs.phi,
+    )
+    return replace(rhs, r=jnp.abs(lhs) * rhs.r, phi=phi)
 
 
 #####################################################################
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index b889982..e52bdde 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -217,8 +217,8 @@ def _mul_p_vmsph(lhs: ArrayLike, rhs: MathSphericalPos, /) -> MathSphericalPos:
     lhs = eqx.error_if(
         lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
     )
-    # Scale the radial distance
-    return replace(rhs, r=lhs * rhs.r)
+    # Scale the radial distance. `from_` normalises a negative distance.
+    return type(rhs).from_(r=jnp.multiply(lhs, rhs.r), theta=rhs.theta, phi=rhs.phi)
 
 
 ##############################################################################
-- 
2.43.0


From 68b63edfde52e01971c647ef6a0feba71c7456c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 13/52] fix: divide positions as points and keep the focal
 length in position arithmetic

---
 src/coordinax/_src/vectors/base/base_pos.py | 28 ++++++++++++++-------
 src/coordinax/_src/vectors/d4/spacetime.py  |  8 +++++-
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 4326807..0af92a3 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -177,6 +177,12 @@ class AbstractPos(AvalMixin, AbstractVector):  # pylint: disable=abstract-method
 # Register primitives
 
 
+def _represent_like(pos: AbstractPos, like: AbstractPos, /) -> AbstractPos:
+    """Represent ``pos`` as the type of ``like``, sharing its non-component fields."""
+    extra = {k: v for k, v in field_items(like) if k not in like.components}
+    return represent_as(pos, type(like), **extra)
+
+
 @register(jax.lax.add_p)  # type: ignore[misc]
 def _add_qq(lhs: AbstractPos, rhs: AbstractPos, /) -> AbstractPos:
     # The base implementation is to convert to Cartesian and perform the
@@ -189,9 +195,9 @@ def _add_qq(lhs: AbstractPos, rhs: AbstractPos, /) -> AbstractPos:
         isinstance(lhs, cart_cls) and isinstance(rhs, cart_cls),
         "must register a Cartesian-specific dispatch for {cart_cls} addition",
     )
-    return qlax.add(  # re-dispatch on the Cartesian class
-        lhs.represent_as(cart_cls), rhs.represent_as(cart_cls)
-    ).represent_as(type(lhs))
+    # re-dispatch on the Cartesian class
+    out = qlax.add(lhs.represent_as(cart_cls), rhs.represent_as(cart_cls))
+    return _represent_like(out, lhs)
 
 
 # ------------------------------------------------
@@ -214,9 +220,12 @@ def _div_pos_v(lhs: AbstractPos, rhs: ArrayLike) -> AbstractPos:
     Quantity['length'](Array(0.5, dtype=float32), unit='m')
 
     """
-    return replace(
-        lhs, **{k: jnp.divide(v, rhs) for k, v in field_items(AttrFilter, lhs)}
+    cart_cls = lhs._cartesian_cls  # noqa: SLF001
+    cart = lhs.represent_as(cart_cls)
+    cart = replace(
+        cart, **{k: jnp.divide(v, rhs) for k, v in field_items(AttrFilter, cart)}
     )
+    return _represent_like(cart, lhs)
 
 
 # ------------------------------------------------
@@ -321,7 +330,7 @@ def _mul_v_pos(lhs: ArrayLike, rhs: AbstractPos, /) -> AbstractPos:
 
     rc = rhs.represent_as(rhs._cartesian_cls)  # noqa: SLF001
     nr = qlax.mul(lhs, rc)
-    return nr.represent_as(type(rhs))
+    return _represent_like(nr, rhs)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -402,7 +411,7 @@ def _neg_pos(obj: AbstractPos, /) -> AbstractPos:
     """
     cart = represent_as(obj, obj._cartesian_cls)  # noqa: SLF001
     negcart = jnp.negative(cart)
-    return represent_as(negcart, type(obj))
+    return _represent_like(negcart, obj)
 
 
 # ------------------------------------------------
@@ -454,7 +463,8 @@ def _sub_qq(lhs: AbstractPos, rhs: AbstractPos) -> AbstractPos:
     # operation.  Cartesian coordinates do not have any branch cuts or
     # singularities or ranges that need to be handled, so this is a safe
     # default.
-    return qlax.sub(
+    out = qlax.sub(
         lhs.represent_as(lhs._cartesian_cls),  # noqa: SLF001
         rhs.represent_as(lhs._cartesian_cls),  # noqa: SLF001
-    ).represent_as(type(lhs))
+    )
+    return _represent_like(out, lhs)
diff --git a/src/coordinax/_src/vectors/d4/spacetime.py b/src/coordinax/_src/vectors/d4/spacetime.py
index bfe21a8..a5e3b62 100644
--- a/src/coordinax/_src/vectors/d4/spacetime.py
+++ b/src/coordinax/_src/vectors/d4/spacetime.py
@@ -11,7 +11,7 @@ import equinox as eqx
 import jax
 import jax.numpy as jnp
 import numpy as np
-from jaxtyping import Shaped
+from jaxtyping import ArrayLike, Shaped
 from quax import register
 
 import quaxed.numpy as jnp
@@ -336,6 +336,12 @@ def _add_4v4v(self: FourVector, other: FourVector) -> FourVector:
     return replace(self, t=self.t + other.t, q=self.q + other.q)
 
 
+@register(jax.lax.div_p)  # type: ignore[misc]
+def _div_4v_v(lhs: FourVector, rhs: ArrayLike, /) -> FourVector:
+    """Divide a 4-vector by a scalar."""
+    return replace(lhs, t=jnp.divide(lhs.t, rhs), q=jnp.divide(lhs.q, rhs))
+
+
 @register(jax.lax.sub_p)  # type: ignore[misc]
 def _sub_4v_4v(lhs: FourVector, rhs: FourVector) -> FourVector:
     """Add two 4-vectors.
-- 
2.43.0


From 9faa791f76c6bf414d632323a99219132d9f8051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 14/52] fix: let NumPy scalars defer to a vector's reflected
 operators

---
 src/coordinax/_src/vectors/base/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index f45070a..0176b14 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -462,6 +462,10 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
     def __neg__(self) -> "Self":
         raise NotImplementedError
 
+    # Let numpy scalars and arrays defer to the vector's reflected operators
+    # instead of iterating over the vector.
+    __array_ufunc__ = None
+
     __add__ = qlax.add
     # TODO: __radd__
 
-- 
2.43.0


From 4f3efb31750edb832a0d5ac58956f3b61e918669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 15/52] fix: add and subtract Cartesian vectors whose
 components have different units

---
 src/coordinax/_src/vectors/d1/cartesian.py | 21 ++++++++++++++++-----
 src/coordinax/_src/vectors/d2/cartesian.py | 17 +++++++++++++----
 src/coordinax/_src/vectors/d3/cartesian.py | 20 +++++++++++++++-----
 3 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/coordinax/_src/vectors/d1/cartesian.py b/src/coordinax/_src/vectors/d1/cartesian.py
index 97b8bc3..9d6b3fd 100644
--- a/src/coordinax/_src/vectors/d1/cartesian.py
+++ b/src/coordinax/_src/vectors/d1/cartesian.py
@@ -14,6 +14,7 @@ from quax import register
 
 import quaxed.numpy as jnp
 import unxt as u
+from dataclassish import field_items
 from quaxed import lax as qlax
 
 import coordinax._src.typing as ct
@@ -89,7 +90,9 @@ def _add_qq(lhs: CartesianPos1D, rhs: AbstractPos, /) -> CartesianPos1D:
 
     """
     cart = rhs.represent_as(CartesianPos1D)
-    return jax.tree.map(qlax.add, lhs, cart)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(cart, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -158,7 +161,9 @@ def _sub_q1d_pos(self: CartesianPos1D, other: AbstractPos, /) -> CartesianPos1D:
 
     """
     cart = other.represent_as(CartesianPos1D)
-    return jax.tree.map(qlax.sub, self, cart)
+    return replace(
+        self, **{k: qlax.sub(v, getattr(cart, k)) for k, v in field_items(self)}
+    )
 
 
 #####################################################################
@@ -225,7 +230,9 @@ def _add_pp(lhs: CartesianVel1D, rhs: CartesianVel1D, /) -> CartesianVel1D:
     Quantity['speed'](Array(2, dtype=int32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -316,7 +323,9 @@ def _add_aa(lhs: CartesianAcc1D, rhs: CartesianAcc1D, /) -> CartesianAcc1D:
     Quantity['acceleration'](Array(2, dtype=int32), unit='km / s2')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -371,4 +380,6 @@ def _sub_a1_a1(self: CartesianAcc1D, other: CartesianAcc1D, /) -> CartesianAcc1D
     Quantity['acceleration'](Array(-1, dtype=int32, ...), unit='m / s2')
 
     """
-    return jax.tree.map(qlax.sub, self, other)
+    return replace(
+        self, **{k: qlax.sub(v, getattr(other, k)) for k, v in field_items(self)}
+    )
diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index b4fd181..72ebffb 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -18,6 +18,7 @@ from quax import register
 
 import quaxed.numpy as jnp
 import unxt as u
+from dataclassish import field_items
 from quaxed import lax as qlax
 from unxt.quantity import AbstractQuantity, Quantity
 
@@ -98,7 +99,9 @@ def _add_cart2d_pos(lhs: CartesianPos2D, rhs: AbstractPos, /) -> CartesianPos2D:
 
     """
     cart = rhs.represent_as(CartesianPos2D)
-    return jax.tree.map(qlax.add, lhs, cart)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(cart, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -155,7 +158,9 @@ def _sub_cart2d_pos2d(lhs: CartesianPos2D, rhs: AbstractPos, /) -> CartesianPos2
 
     """
     cart = rhs.represent_as(CartesianPos2D)
-    return jax.tree.map(qlax.sub, lhs, cart)
+    return replace(
+        lhs, **{k: qlax.sub(v, getattr(cart, k)) for k, v in field_items(lhs)}
+    )
 
 
 #####################################################################
@@ -247,7 +252,9 @@ def _add_pp(lhs: CartesianVel2D, rhs: CartesianVel2D, /) -> CartesianVel2D:
     Quantity['speed'](Array(2., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -360,7 +367,9 @@ def _add_aa(lhs: CartesianAcc2D, rhs: CartesianAcc2D, /) -> CartesianAcc2D:
     Quantity['acceleration'](Array(6., dtype=float32), unit='km / s2')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index 1dffbdc..c5de3dc 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -148,7 +148,9 @@ def _sub_cart3d_pos(lhs: CartesianPos3D, rhs: AbstractPos, /) -> CartesianPos3D:
 
     """
     cart = rhs.represent_as(CartesianPos3D)
-    return jax.tree.map(qlax.sub, lhs, cart)
+    return replace(
+        lhs, **{k: qlax.sub(v, getattr(cart, k)) for k, v in field_items(lhs)}
+    )
 
 
 # =====================================================
@@ -286,7 +288,9 @@ def _add_pp(lhs: CartesianVel3D, rhs: CartesianVel3D, /) -> CartesianVel3D:
     Quantity['speed'](Array(4., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.sub_p)  # type: ignore[misc]
@@ -302,7 +306,9 @@ def _sub_v3_v3(lhs: CartesianVel3D, other: CartesianVel3D, /) -> CartesianVel3D:
     Quantity['speed'](Array(0., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.sub, lhs, other)
+    return replace(
+        lhs, **{k: qlax.sub(v, getattr(other, k)) for k, v in field_items(lhs)}
+    )
 
 
 #####################################################################
@@ -386,7 +392,9 @@ def from_(
 @register(jax.lax.add_p)  # type: ignore[misc]
 def _add_aa(lhs: CartesianAcc3D, rhs: CartesianAcc3D, /) -> CartesianAcc3D:
     """Add two Cartesian accelerations."""
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -415,4 +423,6 @@ def _mul_ac3(lhs: ArrayLike, rhs: CartesianPos3D, /) -> CartesianPos3D:
 @register(jax.lax.sub_p)  # type: ignore[misc]
 def _sub_a3_a3(lhs: CartesianAcc3D, rhs: CartesianAcc3D, /) -> CartesianAcc3D:
     """Subtract two accelerations."""
-    return jax.tree.map(qlax.sub, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.sub(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
-- 
2.43.0


From 485a6dfac3770095c9565aa14fc2e70fd36ffe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 16/52] fix: scale Cartesian vectors by a NumPy scalar under
 jit

---
 src/coordinax/_src/vectors/d1/cartesian.py |  6 +++---
 src/coordinax/_src/vectors/d2/cartesian.py | 10 +++++++---
 src/coordinax/_src/vectors/d3/cartesian.py |  7 ++++++-
 src/coordinax/_src/vectors/dn/cartesian.py |  2 +-
 4 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/coordinax/_src/vectors/d1/cartesian.py b/src/coordinax/_src/vectors/d1/cartesian.py
index 9d6b3fd..c04ca24 100644
--- a/src/coordinax/_src/vectors/d1/cartesian.py
+++ b/src/coordinax/_src/vectors/d1/cartesian.py
@@ -118,7 +118,7 @@ def _mul_ac1(lhs: ArrayLike, rhs: CartesianPos1D, /) -> CartesianPos1D:
     )
 
     # Scale the components
-    return replace(rhs, x=lhs * rhs.x)
+    return replace(rhs, x=jnp.multiply(lhs, rhs.x))
 
 
 @register(jax.lax.neg_p)  # type: ignore[misc]
@@ -264,7 +264,7 @@ def _mul_vcart(lhs: ArrayLike, rhs: CartesianVel1D, /) -> CartesianVel1D:
     )
 
     # Scale the components
-    return replace(rhs, d_x=lhs * rhs.d_x)
+    return replace(rhs, d_x=jnp.multiply(lhs, rhs.d_x))
 
 
 #####################################################################
@@ -355,7 +355,7 @@ def _mul_aq(lhs: ArrayLike, rhs: CartesianAcc1D, /) -> CartesianAcc1D:
     )
 
     # Scale the components
-    return replace(rhs, d2_x=lhs * rhs.d2_x)
+    return replace(rhs, d2_x=jnp.multiply(lhs, rhs.d2_x))
 
 
 @register(jax.lax.sub_p)  # type: ignore[misc]
diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index 72ebffb..6fde24b 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -124,7 +124,7 @@ def _mul_v_cart2d(lhs: ArrayLike, rhs: CartesianPos2D, /) -> CartesianPos2D:
     )
 
     # Scale the components
-    return replace(rhs, x=lhs * rhs.x, y=lhs * rhs.y)
+    return replace(rhs, x=jnp.multiply(lhs, rhs.x), y=jnp.multiply(lhs, rhs.y))
 
 
 @register(jax.lax.neg_p)  # type: ignore[misc]
@@ -280,7 +280,9 @@ def _mul_vp(lhs: ArrayLike, rhts: CartesianVel2D, /) -> CartesianVel2D:
     )
 
     # Scale the components
-    return replace(rhts, d_x=lhs * rhts.d_x, d_y=lhs * rhts.d_y)
+    return replace(
+        rhts, d_x=jnp.multiply(lhs, rhts.d_x), d_y=jnp.multiply(lhs, rhts.d_y)
+    )
 
 
 #####################################################################
@@ -395,4 +397,6 @@ def _mul_va(lhs: ArrayLike, rhts: CartesianAcc2D, /) -> CartesianAcc2D:
     )
 
     # Scale the components
-    return replace(rhts, d2_x=lhs * rhts.d2_x, d2_y=lhs * rhts.d2_y)
+    return replace(
+        rhts, d2_x=jnp.multiply(lhs, rhts.d2_x), d2_y=jnp.multiply(lhs, rhts.d2_y)
+    )
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index c5de3dc..a0a8554 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -417,7 +417,12 @@ def _mul_ac3(lhs: ArrayLike, rhs: CartesianPos3D, /) -> CartesianPos3D:
     )
 
     # Scale the components
-    return replace(rhs, x=lhs * rhs.x, y=lhs * rhs.y, z=lhs * rhs.z)
+    return replace(
+        rhs,
+        x=jnp.multiply(lhs, rhs.x),
+        y=jnp.multiply(lhs, rhs.y),
+        z=jnp.multiply(lhs, rhs.z),
+    )
 
 
 @register(jax.lax.sub_p)  # type: ignore[misc]
diff --git a/src/coordinax/_src/vectors/dn/cartesian.py b/src/coordinax/_src/vectors/dn/cartesian.py
index eefdf73..d0bfc52 100644
--- a/src/coordinax/_src/vectors/dn/cartesian.py
+++ b/src/coordinax/_src/vectors/dn/cartesian.py
@@ -233,7 +233,7 @@ def _mul_vcnd(lhs: ArrayLike, rhs: CartesianPosND, /) -> CartesianPosND:
     )
 
     # Scale the components
-    return replace(rhs, q=lhs * rhs.q)
+    return replace(rhs, q=jnp.multiply(lhs, rhs.q))
 
 
 @register(jax.lax.neg_p)  # type: ignore[misc]
-- 
2.43.0


From a417ed2438fb60764b2736e8f9c89d2277139471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 17/52] fix: compare vectors whose components have different
 units or focal lengths

---
 src/coordinax/_src/vectors/base/base.py     | 7 ++++---
 src/coordinax/_src/vectors/base/base_pos.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index 0176b14..298b8ab 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -15,7 +15,7 @@ from typing import TYPE_CHECKING, Any, NoReturn, TypeVar
 
 import jax
 import numpy as np
-from jax import Device, tree
+from jax import Device
 from jaxtyping import Array, ArrayLike, Bool
 from plum import dispatch
 from quax import ArrayValue, register
@@ -617,8 +617,9 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         if type(other) is not type(self):
             return NotImplemented
 
-        comp_tree = tree.map(jnp.equal, self, other)
-        comp_leaves = jnp.array(tree.leaves(comp_tree))
+        # Compare component by component, converting the units.
+        comp_eqs = [jnp.equal(v, getattr(other, k)) for k, v in field_items(self)]
+        comp_leaves = jnp.array(jnp.broadcast_arrays(*comp_eqs))
         return jax.numpy.logical_and.reduce(comp_leaves)
 
     # ---------------------------------------------------------------
diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 0af92a3..870dc7a 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -133,7 +133,7 @@ class AbstractPos(AvalMixin, AbstractVector):  # pylint: disable=abstract-method
         if not isinstance(other, AbstractPos):
             return NotImplemented
 
-        rhs = other.represent_as(type(self))
+        rhs = other if type(other) is type(self) else _represent_like(other, self)
         return super().__eq__(rhs)
 
     # ===============================================================
-- 
2.43.0


From fed58ee4af605a0c4e7938de8b924a905998244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 18/52] fix: represent TwoSpherePos as itself

---
 src/coordinax/_src/vectors/d2/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coordinax/_src/vectors/d2/transform.py b/src/coordinax/_src/vectors/d2/transform.py
index dcac1d7..ff1d4c8 100644
--- a/src/coordinax/_src/vectors/d2/transform.py
+++ b/src/coordinax/_src/vectors/d2/transform.py
@@ -11,6 +11,7 @@ import quaxed.numpy as xp
 from .base import AbstractPos2D, AbstractVel2D
 from .cartesian import CartesianAcc2D, CartesianPos2D, CartesianVel2D
 from .polar import PolarPos, PolarVel
+from .spherical import TwoSpherePos
 from coordinax._src.vectors.base import AbstractPos
 
 
@@ -28,6 +29,7 @@ def represent_as(
 @dispatch.multi(
     (CartesianPos2D, type[CartesianPos2D]),
     (PolarPos, type[PolarPos]),
+    (TwoSpherePos, type[TwoSpherePos]),
 )
 def represent_as(
     current: AbstractPos2D, target: type[AbstractPos2D], /, **kwargs: Any
-- 
2.43.0


From dc31b8a5257f54554dac65e32e855fa8d4527aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 19/52] fix: transpose and flatten vectors whose components
 broadcast

---
 src/coordinax/_src/vectors/base/base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index 298b8ab..ae443ad 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -347,7 +347,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
                                   [1., 3.]], dtype=float32), unit='m')
 
         """
-        return replace(self, **{k: v.mT for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(full, **{k: v.mT for k, v in field_items(AttrFilter, full)})
 
     @property
     def ndim(self) -> int:
@@ -436,7 +437,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
                                   [1., 3.]], dtype=float32), unit='m')
 
         """
-        return replace(self, **{k: v.T for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(full, **{k: v.T for k, v in field_items(AttrFilter, full)})
 
     # ---------------------------------------------------------------
     # arithmetic operators
@@ -747,8 +749,9 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         (4,)
 
         """
+        full = full_shaped(self)
         return replace(
-            self, **{k: v.flatten() for k, v in field_items(AttrFilter, self)}
+            full, **{k: v.flatten() for k, v in field_items(AttrFilter, full)}
         )
 
     def ravel(self) -> "Self":
@@ -768,7 +771,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         (4,)
 
         """
-        return replace(self, **{k: v.ravel() for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(full, **{k: v.ravel() for k, v in field_items(AttrFilter, full)})
 
     def reshape(self, *shape: Any, order: str = "C") -> "Self":
         """Reshape the components of the vector.
-- 
2.43.0


From 4f2f0859ecdad6d5761c7e6f95e3bee077a79646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 20/52] fix: matrix-transpose n-dimensional vectors with three
 or more batch axes

---
 src/coordinax/_src/vectors/dn/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/base.py b/src/coordinax/_src/vectors/dn/base.py
index 25d8bbc..50953c2 100644
--- a/src/coordinax/_src/vectors/dn/base.py
+++ b/src/coordinax/_src/vectors/dn/base.py
@@ -70,7 +70,7 @@ class AbstractPosND(AbstractPos):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, q=qlax.transpose(self.q, axes))
 
     @property
@@ -206,7 +206,7 @@ class AbstractVelND(AbstractVel):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, d_q=qlax.transpose(self.d_q, axes))
 
     @property
@@ -345,7 +345,7 @@ class AbstractAccND(AbstractAcc):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, d2_q=qlax.transpose(self.d2_q, axes))
 
     @property
-- 
2.43.0


From a7bc694457b1f766d4579d8a3c560277a47ea7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 21/52] fix: index and reshape batched FourVectors

---
 src/coordinax/_src/vectors/utils.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/utils.py b/src/coordinax/_src/vectors/utils.py
index e52e761..f797b2a 100644
--- a/src/coordinax/_src/vectors/utils.py
+++ b/src/coordinax/_src/vectors/utils.py
@@ -6,11 +6,13 @@ from dataclasses import replace as _dataclass_replace
 from typing import TYPE_CHECKING
 
 import quaxed.numpy as jnp
-from dataclassish import field_values
+from dataclassish import field_items, field_values
 
 from .base.flags import AttrFilter
 
 if TYPE_CHECKING:
+    from unxt.quantity import AbstractQuantity
+
     from coordinax.vecs import AbstractVector
 
 
@@ -32,5 +34,23 @@ def full_shaped(obj: "AbstractVector", /) -> "AbstractVector":
     (2,)
 
     """
-    arrays = jnp.broadcast_arrays(*field_values(AttrFilter, obj))
+    from .base import AbstractVector  # noqa: PLC0415 (circular import)
+
+    values = field_values(AttrFilter, obj)
+    if any(isinstance(v, AbstractVector) for v in values):
+        # A nested vector has the batch shape on each of its own components.
+        return _broadcast_to(obj, obj.shape)
+    arrays = jnp.broadcast_arrays(*values)
     return _dataclass_replace(obj, **dict(zip(obj.components, arrays, strict=True)))
+
+
+def _broadcast_to(
+    obj: "AbstractVector | AbstractQuantity", shape: tuple[int, ...], /
+) -> "AbstractVector | AbstractQuantity":
+    """Broadcast all the components of a (nested) vector to a batch shape."""
+    from .base import AbstractVector  # noqa: PLC0415 (circular import)
+
+    if not isinstance(obj, AbstractVector):
+        return jnp.broadcast_to(obj, shape)
+    comps = field_items(AttrFilter, obj)
+    return _dataclass_replace(obj, **{k: _broadcast_to(v, shape) for k, v in comps})
-- 
2.43.0


From 9fa7f117f59006d7ada876b9e5270c1ab5c4d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 22/52] fix: ravel, index and reshape the batch axes of
 n-dimensional vectors

---
 src/coordinax/_src/vectors/dn/base.py | 50 +++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/base.py b/src/coordinax/_src/vectors/dn/base.py
index 50953c2..09db4d2 100644
--- a/src/coordinax/_src/vectors/dn/base.py
+++ b/src/coordinax/_src/vectors/dn/base.py
@@ -8,9 +8,12 @@ from dataclasses import replace
 from typing import TYPE_CHECKING, Any
 
 import equinox as eqx
+import jax
+import numpy as np
 
 import quaxed.lax as qlax
 import quaxed.numpy as jnp
+from unxt.quantity import AbstractQuantity
 
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors.base import (
@@ -24,6 +27,16 @@ if TYPE_CHECKING:
     from typing import Never
 
 
+def _unpack_shape(shape: tuple[Any, ...], /) -> tuple[Any, ...]:
+    """Unpack a shape given as a single sequence."""
+    return tuple(shape[0]) if len(shape) == 1 and np.ndim(shape[0]) else shape
+
+
+def _index_batch(q: AbstractQuantity, index: Any, /) -> AbstractQuantity:
+    """Index all but the last axis, which holds the components."""
+    return jax.vmap(lambda x: x[index], in_axes=-1, out_axes=-1)(q)
+
+
 class AbstractPosND(AbstractPos):
     """Abstract representation of N-D coordinates in different systems."""
 
@@ -146,7 +159,16 @@ class AbstractPosND(AbstractPos):
         (1, 2, 1)
 
         """
-        return replace(self, q=self.q.reshape(*shape, self.q.shape[-1], order=order))
+        shape = (*_unpack_shape(shape), self.q.shape[-1])
+        return replace(self, q=self.q.reshape(*shape, order=order))
+
+    def ravel(self) -> "Self":
+        """Ravel the batch axes, keeping the components."""
+        return self.flatten()
+
+    def __getitem__(self, index: Any) -> "Self":
+        """Index the batch axes, keeping the components."""
+        return replace(self, q=_index_batch(self.q, index))
 
 
 #####################################################################
@@ -283,9 +305,16 @@ class AbstractVelND(AbstractVel):
         (1, 1)
 
         """
-        return replace(
-            self, d_q=self.d_q.reshape(*shape, self.d_q.shape[-1], order=order)
-        )
+        shape = (*_unpack_shape(shape), self.d_q.shape[-1])
+        return replace(self, d_q=self.d_q.reshape(*shape, order=order))
+
+    def ravel(self) -> "Self":
+        """Ravel the batch axes, keeping the components."""
+        return self.flatten()
+
+    def __getitem__(self, index: Any) -> "Self":
+        """Index the batch axes, keeping the components."""
+        return replace(self, d_q=_index_batch(self.d_q, index))
 
 
 #####################################################################
@@ -421,6 +450,13 @@ class AbstractAccND(AbstractAcc):
         (1, 1)
 
         """
-        return replace(
-            self, d2_q=self.d2_q.reshape(*shape, self.d2_q.shape[-1], order=order)
-        )
+        shape = (*_unpack_shape(shape), self.d2_q.shape[-1])
+        return replace(self, d2_q=self.d2_q.reshape(*shape, order=order))
+
+    def ravel(self) -> "Self":
+        """Ravel the batch axes, keeping the components."""
+        return self.flatten()
+
+    def __getitem__(self, index: Any) -> "Self":
+        """Index the batch axes, keeping the components."""
+        return replace(self, d2_q=_index_batch(self.d2_q, index))
-- 
2.43.0


From acb9e64a4e7aa7ef2b5b25d40a46075962f789b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 23/52] fix: compare phase-space collections by key

---
 src/coordinax/_src/vectors/base/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index ae443ad..6ef4b7c 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -620,7 +620,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
             return NotImplemented
 
         # Compare component by component, converting the units.
-        comp_eqs = [jnp.equal(v, getattr(other, k)) for k, v in field_items(self)]
+        rhs = dict(field_items(other))
+        comp_eqs = [jnp.equal(v, rhs[k]) for k, v in field_items(self)]
         comp_leaves = jnp.array(jnp.broadcast_arrays(*comp_eqs))
         return jax.numpy.logical_and.reduce(comp_leaves)
 
-- 
2.43.0


From c277ebf3fe6602e2b598bf1c590dd1915751b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 24/52] fix: iterating over a batched vector never ended

---
 src/coordinax/_src/vectors/base/base.py  | 16 +++++++++++++++-
 src/coordinax/_src/vectors/space/core.py |  3 +++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index 6ef4b7c..13a3076 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -8,7 +8,7 @@ __all__ = [
 ]
 
 from abc import abstractmethod
-from collections.abc import Callable, Mapping
+from collections.abc import Callable, Iterator, Mapping
 from enum import Enum
 from types import MappingProxyType
 from typing import TYPE_CHECKING, Any, NoReturn, TypeVar
@@ -681,6 +681,20 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
     # TODO: __index__
     # TODO: __int__
 
+    def __iter__(self) -> Iterator["Self"]:
+        """Iterate over the leading axis; out-of-bounds indices are clamped by JAX.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+
+        >>> vec = cx.CartesianPos3D.from_([[1, 2, 3], [4, 5, 6]], "m")
+        >>> [v.x.value.tolist() for v in vec]
+        [1.0, 4.0]
+
+        """
+        return (self[i] for i in range(len(self)))
+
     def __setitem__(self, k: Any, v: Any) -> NoReturn:
         msg = f"{type(self).__name__} is immutable."
         raise TypeError(msg)
diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index 31e4b44..6e0fcfe 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -254,6 +254,9 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
 
         return ImmutableMap.__getitem__(self, key)
 
+    # A `Space` iterates over its keys, as a mapping.
+    __iter__ = ImmutableMap.__iter__
+
     # ===============================================================
     # Quax
 
-- 
2.43.0


From b5f0eddc7ba3944373885535874f38f0cb7e653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 25/52] fix: index the members of a phase-space collection over
 their common shape

---
 src/coordinax/_src/vectors/space/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index 6e0fcfe..0c81363 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -27,6 +27,7 @@ from coordinax._src.vectors.base import (
     AbstractVector,
     AbstractVel,
 )
+from coordinax._src.vectors.utils import full_shaped
 
 DimensionLike: TypeAlias = Dimension | str
 
@@ -217,7 +218,8 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
         highlights core python indexing.
 
         """
-        return Space(**{k: v[key] for k, v in self.items()})
+        full = full_shaped(self)  # the members share one batch shape
+        return Space(**{k: v[key] for k, v in full.items()})
 
     @dispatch
     def __getitem__(self, key: str | Dimension) -> Any:
-- 
2.43.0


From 1d18e9384fbbce4981e251299659ceb2ffc13b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 26/52] fix: refuse two phase-space entries for one dimension

---
 src/coordinax/_src/vectors/space/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index 0c81363..d9eff88 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -114,7 +114,7 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
         keys = [_get_dimension_name(k) for k in raw]
         keys = eqx.error_if(
             keys,
-            len(keys) < len(raw),
+            len(set(keys)) < len(raw),
             f"Space(**input) contained duplicate keys {set(raw) - set(keys)}.",
         )
         # TODO: check the key dimension makes sense for the value
-- 
2.43.0


From 51b0df6571f4dbe87fa744d95c3c00a7792de9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 27/52] fix: represent an empty batch of positions as spherical

---
 src/coordinax/_src/vectors/d3/transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index d790412..0127c3e 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -220,8 +220,8 @@ def represent_as(
 
     """
     r = xp.sqrt(current.x**2 + current.y**2 + current.z**2)
-    # the polar angle is arbitrary at the origin: use 0 instead of acos(0 / 0)
-    theta = xp.acos(xp.where(r == 0, xp.ones(r.shape), current.z / r))
+    # the polar angle is arbitrary at the origin: avoid 0 / 0
+    theta = xp.acos(current.z / xp.where(r == 0, xp.ones_like(r), r))
     phi = xp.atan2(current.y, current.x)
     return target(r=r, theta=theta, phi=phi)
 
@@ -305,8 +305,8 @@ def represent_as(
 
     """
     r = xp.sqrt(current.rho**2 + current.z**2)
-    # the polar angle is arbitrary at the origin: use 0 instead of acos(0 / 0)
-    theta = xp.acos(xp.where(r == 0, xp.ones(r.shape), current.z / r))
+    # the polar angle is arbitrary at the origin: avoid 0 / 0
+    theta = xp.acos(current.z / xp.where(r == 0, xp.ones_like(r), r))
     return target(r=r, theta=theta, phi=current.phi)
 
 
-- 
2.43.0


From b8b99eaec2a8c6b7448b2a218537699639337e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 28/52] fix: multiply n-dimensional velocities and
 accelerations by a batch of times

---
 src/coordinax/_src/vectors/dn/cartesian.py | 34 ++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/coordinax/_src/vectors/dn/cartesian.py b/src/coordinax/_src/vectors/dn/cartesian.py
index d0bfc52..302dd20 100644
--- a/src/coordinax/_src/vectors/dn/cartesian.py
+++ b/src/coordinax/_src/vectors/dn/cartesian.py
@@ -597,3 +597,37 @@ def from_(
 
     """
     return cls(jnp.atleast_1d(x))
+
+
+##############################################################################
+# Multiplication by a time. The last axis holds the components, so the time
+# broadcasts against the other axes.
+
+
+@register(jax.lax.mul_p)  # type: ignore[misc]
+def _mul_velnd_time(lhs: CartesianVelND, rhs: u.Quantity["time"]) -> CartesianPosND:
+    """Multiply a velocity by a time.
+
+    Examples
+    --------
+    >>> import unxt as u
+    >>> import coordinax as cx
+
+    >>> v = cx.vecs.CartesianVelND(u.Quantity([[1, 2, 3], [4, 5, 6]], "km/s"))
+    >>> (v * u.Quantity([1, 2], "s")).q
+    Quantity['length'](Array([[ 1.,  2.,  3.], [ 8., 10., 12.]], dtype=float32), unit='km')
+
+    """
+    return CartesianPosND(jnp.multiply(lhs.d_q, rhs[..., None]))
+
+
+@register(jax.lax.mul_p)  # type: ignore[misc]
+def _mul_accnd_time(lhs: CartesianAccND, rhs: u.Quantity["time"]) -> CartesianVelND:
+    """Multiply an acceleration by a time."""
+    return CartesianVelND(jnp.multiply(lhs.d2_q, rhs[..., None]))
+
+
+@register(jax.lax.mul_p)  # type: ignore[misc]
+def _mul_accnd_time2(lhs: CartesianAccND, rhs: u.Quantity["s2"]) -> CartesianPosND:
+    """Multiply an acceleration by a squared time."""
+    return CartesianPosND(jnp.multiply(lhs.d2_q, rhs[..., None]))
-- 
2.43.0


From 60e80001d9ea62f11b7a04269861f5f4e956f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 29/52] fix: compare n-dimensional vectors element by element

---
 src/coordinax/_src/vectors/base/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index 13a3076..8e2cc6f 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -622,6 +622,9 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         # Compare component by component, converting the units.
         rhs = dict(field_items(other))
         comp_eqs = [jnp.equal(v, rhs[k]) for k, v in field_items(self)]
+        # A field can hold many components, on axes after those of the batch.
+        ndim = max(self.ndim, other.ndim)
+        comp_eqs = [x.all(axis=tuple(range(ndim, x.ndim))) for x in comp_eqs]
         comp_leaves = jnp.array(jnp.broadcast_arrays(*comp_eqs))
         return jax.numpy.logical_and.reduce(comp_leaves)
 
-- 
2.43.0


From ac0a6f87f98c6e19ca01d6f21c688fbc7422190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 30/52] fix: refuse quantities with the wrong number of
 Cartesian components

---
 src/coordinax/_src/vectors/d2/cartesian.py | 3 +++
 src/coordinax/_src/vectors/d3/cartesian.py | 5 ++++-
 src/coordinax/_src/vectors/d3/generic.py   | 5 ++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index 6fde24b..58cfb79 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -345,6 +345,9 @@ def from_(cls: type[CartesianAcc2D], obj: AbstractQuantity, /) -> CartesianAcc2D
     )
 
     """
+    if obj.shape[-1:] != (2,):
+        msg = f"the last axis must hold 2 components, got shape {obj.shape}."
+        raise ValueError(msg)
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index a0a8554..cadf16f 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -69,7 +69,7 @@ class CartesianPos3D(AbstractPos3D):
 @CartesianPos3D.from_.dispatch  # type: ignore[attr-defined, misc]
 def from_(
     cls: type[CartesianPos3D],
-    obj: AbstractQuantity,  # TODO: Shaped[AbstractQuantity, "*batch 3"]
+    obj: AbstractQuantity,  # Shaped[AbstractQuantity, "*batch 3"]
     /,
 ) -> CartesianPos3D:
     """Construct a 3D Cartesian position.
@@ -88,6 +88,9 @@ def from_(
     )
 
     """
+    if obj.shape[-1:] != (3,):
+        msg = f"the last axis must hold 3 components, got shape {obj.shape}."
+        raise ValueError(msg)
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
 
diff --git a/src/coordinax/_src/vectors/d3/generic.py b/src/coordinax/_src/vectors/d3/generic.py
index c7b56ca..e53b0a8 100644
--- a/src/coordinax/_src/vectors/d3/generic.py
+++ b/src/coordinax/_src/vectors/d3/generic.py
@@ -76,7 +76,7 @@ class CartesianGeneric3D(AvalMixin, AbstractVector):
 @CartesianGeneric3D.from_.dispatch  # type: ignore[attr-defined, misc]
 def from_(
     cls: type[CartesianGeneric3D],
-    obj: AbstractQuantity,  # TODO: Shaped[AbstractQuantity, "*batch 3"]
+    obj: AbstractQuantity,  # Shaped[AbstractQuantity, "*batch 3"]
     /,
 ) -> CartesianGeneric3D:
     """Construct a 3D Cartesian position.
@@ -95,5 +95,8 @@ def from_(
     )
 
     """
+    if obj.shape[-1:] != (3,):
+        msg = f"the last axis must hold 3 components, got shape {obj.shape}."
+        raise ValueError(msg)
     comps = {f.name: obj[..., i] for i, f in enumerate(fields(cls))}
     return cls(**comps)
-- 
2.43.0


From d5567e672ba5536656b7fbbf5bbd7339b80b5186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 31/52] fix: apply composite operators to quantities with a
 time and to 4-vectors of lengths

---
 src/coordinax/_src/operators/compat.py | 49 ++++++++++++++++++--------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/coordinax/_src/operators/compat.py b/src/coordinax/_src/operators/compat.py
index 2068af2..6021bf1 100644
--- a/src/coordinax/_src/operators/compat.py
+++ b/src/coordinax/_src/operators/compat.py
@@ -11,7 +11,7 @@ from plum import convert
 import unxt as u
 
 from .base import AbstractOperator
-from .pipe import Pipe
+from .composite import AbstractCompositeOperator
 from coordinax._src.typing import TimeBatchOrScalar
 from coordinax._src.vectors.d1 import CartesianPos1D
 from coordinax._src.vectors.d2 import CartesianPos2D
@@ -24,7 +24,10 @@ from coordinax._src.vectors.d4 import FourVector
 Q1: TypeAlias = Shaped[u.Quantity["length"], "*#batch 1"]
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q1),
+    (AbstractCompositeOperator, Q1),
+)
 def call(self: AbstractOperator, x: Q1, /, **kwargs: Any) -> Q1:
     """Dispatch to the operator's `__call__` method.
 
@@ -43,7 +46,10 @@ def call(self: AbstractOperator, x: Q1, /, **kwargs: Any) -> Q1:
     return convert(self(CartesianPos1D.from_(x), **kwargs), u.Quantity)
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q1, TimeBatchOrScalar),
+    (AbstractCompositeOperator, Q1, TimeBatchOrScalar),
+)
 def call(
     self: AbstractOperator, x: Q1, t: TimeBatchOrScalar, /, **kwargs: Any
 ) -> tuple[Q1, TimeBatchOrScalar]:
@@ -72,7 +78,10 @@ def call(
 Q2: TypeAlias = Shaped[u.Quantity["length"], "*#batch 2"]
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q2),
+    (AbstractCompositeOperator, Q2),
+)
 def call(self: AbstractOperator, x: Q2, /, **kwargs: Any) -> Q2:
     """Dispatch to the operator's `__call__` method.
 
@@ -90,7 +99,10 @@ def call(self: AbstractOperator, x: Q2, /, **kwargs: Any) -> Q2:
     return convert(self(CartesianPos2D.from_(x), **kwargs), u.Quantity)
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q2, TimeBatchOrScalar),
+    (AbstractCompositeOperator, Q2, TimeBatchOrScalar),
+)
 def call(
     self: AbstractOperator, x: Q2, t: TimeBatchOrScalar, /, **kwargs: Any
 ) -> tuple[Q2, TimeBatchOrScalar]:
@@ -121,7 +133,7 @@ Q3: TypeAlias = Shaped[u.Quantity["length"], "*#batch 3"]
 
 @AbstractOperator.__call__.dispatch_multi(
     (AbstractOperator, Q3),
-    (Pipe, Q3),
+    (AbstractCompositeOperator, Q3),
 )
 def call(self: AbstractOperator, q: Q3, /, **kwargs: Any) -> Q3:
     r"""Operate on a 3D Quantity.
@@ -152,7 +164,10 @@ def call(self: AbstractOperator, q: Q3, /, **kwargs: Any) -> Q3:
     return convert(result.represent_as(CartesianPos3D), u.Quantity)
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q3, TimeBatchOrScalar),
+    (AbstractCompositeOperator, Q3, TimeBatchOrScalar),
+)
 def call(
     self: AbstractOperator, x: Q3, t: TimeBatchOrScalar, /, **kwargs: Any
 ) -> tuple[Q3, TimeBatchOrScalar]:
@@ -187,7 +202,10 @@ def call(
 # 4-Dimensional
 
 
-@AbstractOperator.__call__.dispatch
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, FourVector),
+    (AbstractCompositeOperator, FourVector),
+)
 def call(self: AbstractOperator, v4: FourVector, /, **kwargs: Any) -> FourVector:
     """Dispatch to the operator's `__call__` method.
 
@@ -218,13 +236,14 @@ def call(self: AbstractOperator, v4: FourVector, /, **kwargs: Any) -> FourVector
     return FourVector(t=t, q=q)
 
 
-@AbstractOperator.__call__.dispatch
-def call(
-    self: AbstractOperator,
-    x: Shaped[u.Quantity["length"], "*batch 4"],
-    /,
-    **kwargs: Any,
-) -> Shaped[u.Quantity["length"], "*batch 4"]:
+Q4: TypeAlias = Shaped[u.Quantity["length"], "*batch 4"]
+
+
+@AbstractOperator.__call__.dispatch_multi(
+    (AbstractOperator, Q4),
+    (AbstractCompositeOperator, Q4),
+)
+def call(self: AbstractOperator, x: Q4, /, **kwargs: Any) -> Q4:
     """Dispatch to the operator's `__call__` method.
 
     Examples
-- 
2.43.0


From 79b0d3ac68e0ba872c3abcdacac78bc323f740fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:36 +0000
Subject: [PATCH 32/52] fix: simplify consecutive rotations in the order in
 which they are applied

---
 src/coordinax/_src/operators/galilean/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/galilean/rotation.py b/src/coordinax/_src/operators/galilean/rotation.py
index 3c66d47..3c88e61 100644
--- a/src/coordinax/_src/operators/galilean/rotation.py
+++ b/src/coordinax/_src/operators/galilean/rotation.py
@@ -436,4 +436,4 @@ def simplify_op(op1: GalileanRotation, op2: GalileanRotation) -> GalileanRotatio
     Array(True, dtype=bool)
 
     """
-    return GalileanRotation(rotation=op1.rotation @ op2.rotation)
+    return GalileanRotation(rotation=op2.rotation @ op1.rotation)
-- 
2.43.0


From 02bbf4a56ace9b25d983239ace8c44ffbf18207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:36 +0000
Subject: [PATCH 33/52] fix: prepend an operator to a pipe

---
 src/coordinax/_src/operators/pipe.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/coordinax/_src/operators/pipe.py b/src/coordinax/_src/operators/pipe.py
index eee7760..ed53ebb 100644
--- a/src/coordinax/_src/operators/pipe.py
+++ b/src/coordinax/_src/operators/pipe.py
@@ -156,6 +156,24 @@ class Pipe(AbstractCompositeOperator):
         # Append single operators
         return replace(self, operators=(*self, other))
 
+    def __ror__(self, other: AbstractOperator) -> "Pipe":
+        """Compose with another operator, which is applied first.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+
+        >>> shift = cx.ops.GalileanSpatialTranslation.from_([1, 2, 3], "kpc")
+        >>> boost = cx.ops.GalileanBoost.from_([1, 2, 3], "km/s")
+        >>> pipe = cx.ops.Pipe((shift, boost))
+
+        >>> boost | pipe
+        Pipe(( GalileanBoost(...), GalileanSpatialTranslation(...),
+               GalileanBoost(...) ))
+
+        """
+        return replace(self, operators=(other, *self))
+
     def __repr__(self) -> str:
         ops = repr(self.operators)
         if "\n" in ops:
-- 
2.43.0


From 992d88c64b5ce887fa801655dfd9ae2b8d8477b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:36 +0000
Subject: [PATCH 34/52] fix: pipe the result of an operator that returns a
 single value

---
 src/coordinax/_src/operators/pipe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/operators/pipe.py b/src/coordinax/_src/operators/pipe.py
index ed53ebb..d02cfa1 100644
--- a/src/coordinax/_src/operators/pipe.py
+++ b/src/coordinax/_src/operators/pipe.py
@@ -105,8 +105,9 @@ class Pipe(AbstractCompositeOperator):
 
         """
         for op in self.operators:
-            args = op(*args, **kwargs)
-        return args
+            out = op(*args, **kwargs)
+            args = out if isinstance(out, tuple) else (out,)
+        return args if len(args) != 1 else args[0]
 
     @AbstractOperator.__call__.dispatch(precedence=1)
     def __call__(
-- 
2.43.0


From e8e1850513af7fe842d184bea8c72fcc79f71092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 35/52] fix: keep the speed of light of a FourVector that an
 operator is applied to

---
 src/coordinax/_src/operators/compat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/compat.py b/src/coordinax/_src/operators/compat.py
index 6021bf1..56430b7 100644
--- a/src/coordinax/_src/operators/compat.py
+++ b/src/coordinax/_src/operators/compat.py
@@ -3,6 +3,7 @@
 __all__: list[str] = []
 
 
+from dataclasses import replace
 from typing import Any, TypeAlias
 
 from jaxtyping import Shaped
@@ -233,7 +234,7 @@ def call(self: AbstractOperator, v4: FourVector, /, **kwargs: Any) -> FourVector
 
     """
     q, t = self(v4.q, v4.t, **kwargs)
-    return FourVector(t=t, q=q)
+    return replace(v4, t=t, q=q)
 
 
 Q4: TypeAlias = Shaped[u.Quantity["length"], "*batch 4"]
-- 
2.43.0


From 5c01995d6b12b4da39b0060f54b2d8bae2068d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:25 +0000
Subject: [PATCH 36/52] fix: simplify translations and boosts that are not
 three-dimensional

---
 src/coordinax/_src/operators/boost.py                        | 2 +-
 src/coordinax/_src/operators/galilean/boost.py               | 2 +-
 src/coordinax/_src/operators/galilean/spatial_translation.py | 4 +---
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/coordinax/_src/operators/boost.py b/src/coordinax/_src/operators/boost.py
index 64d7da7..dde29bf 100644
--- a/src/coordinax/_src/operators/boost.py
+++ b/src/coordinax/_src/operators/boost.py
@@ -286,7 +286,7 @@ def simplify_op(op: VelocityBoost, /, **kwargs: Any) -> VelocityBoost | Identity
 
     """
     # Check if the velocity is zero.
-    if jnp.allclose(convert(op.velocity, u.Quantity).value, jnp.zeros((3,)), **kwargs):
+    if jnp.allclose(convert(op.velocity, u.Quantity).value, 0, **kwargs):
         return Identity()
     return op
 
diff --git a/src/coordinax/_src/operators/galilean/boost.py b/src/coordinax/_src/operators/galilean/boost.py
index c0f47c7..55abcf5 100644
--- a/src/coordinax/_src/operators/galilean/boost.py
+++ b/src/coordinax/_src/operators/galilean/boost.py
@@ -227,7 +227,7 @@ def simplify_op(op: GalileanBoost, /, **kwargs: Any) -> GalileanBoost | Identity
 
     """
     # Check if the velocity is zero.
-    if jnp.allclose(convert(op.velocity, u.Quantity).value, jnp.zeros((3,)), **kwargs):
+    if jnp.allclose(convert(op.velocity, u.Quantity).value, 0, **kwargs):
         return Identity()
     return op
 
diff --git a/src/coordinax/_src/operators/galilean/spatial_translation.py b/src/coordinax/_src/operators/galilean/spatial_translation.py
index 873627e..4230c84 100644
--- a/src/coordinax/_src/operators/galilean/spatial_translation.py
+++ b/src/coordinax/_src/operators/galilean/spatial_translation.py
@@ -388,9 +388,7 @@ def simplify_op(
 
     """
     # Check if the translation is zero.
-    if jnp.allclose(
-        convert(op.translation, u.Quantity).value, jnp.zeros((3,)), **kwargs
-    ):
+    if jnp.allclose(convert(op.translation, u.Quantity).value, 0, **kwargs):
         return Identity()
     return op
 
-- 
2.43.0


From 62ad0e376295f336885e28507d21a27572e0747c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:25 +0000
Subject: [PATCH 37/52] fix: rotate a prolate spheroidal position within its
 own coordinate system

---
 src/coordinax/_src/operators/galilean/rotation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/galilean/rotation.py b/src/coordinax/_src/operators/galilean/rotation.py
index 3c88e61..a54afa8 100644
--- a/src/coordinax/_src/operators/galilean/rotation.py
+++ b/src/coordinax/_src/operators/galilean/rotation.py
@@ -23,6 +23,7 @@ from coordinax._src.angles import Angle
 from coordinax._src.operators.base import AbstractOperator
 from coordinax._src.operators.identity import Identity
 from coordinax._src.vectors.base import ToUnitsOptions
+from coordinax._src.vectors.base.base_pos import _represent_like
 from coordinax._src.vectors.d3 import AbstractPos3D, CartesianPos3D
 
 vec_matmul = quaxify(jax.numpy.vectorize(jax.numpy.matmul, signature="(3,3),(3)->(3)"))
@@ -286,7 +287,7 @@ class GalileanRotation(AbstractGalileanOperator):
             u.Quantity,
         )
         rcart = CartesianPos3D.from_(vec_matmul(self.rotation, vec))
-        return rcart.represent_as(type(q))
+        return _represent_like(rcart, q)
 
     @AbstractOperator.__call__.dispatch
     def __call__(
-- 
2.43.0


From 13ea761ccf41cdc64568fe9d461a47d23cdfee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:25 +0000
Subject: [PATCH 38/52] fix: translate batches of positions and velocities

---
 .../operators/galilean/spatial_translation.py | 20 ++++---------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/coordinax/_src/operators/galilean/spatial_translation.py b/src/coordinax/_src/operators/galilean/spatial_translation.py
index 4230c84..a300e48 100644
--- a/src/coordinax/_src/operators/galilean/spatial_translation.py
+++ b/src/coordinax/_src/operators/galilean/spatial_translation.py
@@ -340,22 +340,10 @@ def call(
     # Translate the position.
     newqvec = self(qvec)
 
-    # TODO: figure out how to do this in general, then all these dispatches
-    # can be consolidated. And do it on vectors, not the quantities.
-    #
-    # Translate the velocity (this operator will have no effect on the
-    # velocity).
-    # 1. convert to a Quantity in Cartesian coordinates.
-    q = convert(qvec.represent_as(qvec._cartesian_cls), u.Quantity)  # noqa: SLF001
-    p = convert(pvec.represent_as(pvec._cartesian_cls, q), u.Quantity)  # noqa: SLF001
-    # 2. create the Jacobian of the operation on the position
-    jac = u.experimental.jacfwd(self.__call__, argnums=0, units=(q.unit,))(q)
-    # 3. apply the Jacobian to the velocity
-    newp = jac @ p
-    # 4. convert the Quantity back to a Cartesian vector
-    newpvec = pvec._cartesian_cls.from_(newp)  # noqa: SLF001
-    # 5. convert the Quantity to the original vector type
-    newpvec = newpvec.represent_as(type(pvec), newqvec)
+    # The Jacobian of a translation is the identity: the Cartesian velocity is
+    # unchanged, and is re-expressed at the new position.
+    cartpvec = pvec.represent_as(pvec._cartesian_cls, qvec)  # noqa: SLF001
+    newpvec = cartpvec.represent_as(type(pvec), newqvec)
 
     return newqvec, newpvec
 
-- 
2.43.0


From fff3104b0269566f0ec826c10b8a1b90a8b892f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:21 +0000
Subject: [PATCH 39/52] fix: return the single result of a pipe as it is

---
 src/coordinax/_src/operators/pipe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/pipe.py b/src/coordinax/_src/operators/pipe.py
index d02cfa1..090c989 100644
--- a/src/coordinax/_src/operators/pipe.py
+++ b/src/coordinax/_src/operators/pipe.py
@@ -89,7 +89,7 @@ class Pipe(AbstractCompositeOperator):
     @AbstractOperator.__call__.dispatch
     def __call__(
         self: "AbstractCompositeOperator", *args: object, **kwargs: Any
-    ) -> tuple[object, ...]:
+    ) -> object:
         """Apply the operators to the coordinates.
 
         This is the default implementation, which applies the operators in
-- 
2.43.0


From 52ce84bf32017c4a8b006e00b897840b3f1f9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:21 +0000
Subject: [PATCH 40/52] fix: translate a prolate spheroidal velocity within its
 own coordinate system

---
 src/coordinax/_src/operators/galilean/spatial_translation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/galilean/spatial_translation.py b/src/coordinax/_src/operators/galilean/spatial_translation.py
index a300e48..1a12b74 100644
--- a/src/coordinax/_src/operators/galilean/spatial_translation.py
+++ b/src/coordinax/_src/operators/galilean/spatial_translation.py
@@ -9,6 +9,7 @@ from typing import Any, Literal, final
 
 import equinox as eqx
 import jax
+from dataclassish import field_items
 from plum import convert, dispatch
 
 import quaxed.numpy as jnp
@@ -343,7 +344,8 @@ def call(
     # The Jacobian of a translation is the identity: the Cartesian velocity is
     # unchanged, and is re-expressed at the new position.
     cartpvec = pvec.represent_as(pvec._cartesian_cls, qvec)  # noqa: SLF001
-    newpvec = cartpvec.represent_as(type(pvec), newqvec)
+    extra = {k: v for k, v in field_items(newqvec) if k not in newqvec.components}
+    newpvec = cartpvec.represent_as(type(pvec), newqvec, **extra)
 
     return newqvec, newpvec
 
-- 
2.43.0


From bac2853db4622a20773b6a6f3a123444dbf39d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 41/52] fix: transform a position vector between frames

---
 .../frame_transforms.py                       | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/coordinax/_coordinax_space_frames/frame_transforms.py b/src/coordinax/_coordinax_space_frames/frame_transforms.py
index 7d75802..4277539 100644
--- a/src/coordinax/_coordinax_space_frames/frame_transforms.py
+++ b/src/coordinax/_coordinax_space_frames/frame_transforms.py
@@ -257,6 +257,25 @@ class _ICRS2GCFOperator(AbstractOperator):
 
         return qp, pp
 
+    @dispatch
+    def __call__(self, qvec: AbstractPos3D, /) -> CartesianPos3D:
+        """Transform q from ICRS -> GCF Cartesian.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+        >>> import coordinax.frames as cxf
+
+        >>> frame_op = cxf.frame_transform_op(cxf.ICRS(), cxf.Galactocentric())
+
+        >>> q = cx.CartesianPos3D.from_([0, 0, 0], "pc")
+        >>> print(frame_op(q))
+        <CartesianPos3D (x[pc], y[pc], z[pc])
+            [-8121.973     0.       20.8  ]>
+
+        """
+        return CartesianPos3D.from_(self(convert(qvec, u.Quantity)))
+
     @dispatch
     def __call__(
         self, qvec: AbstractPos3D, pvec: AbstractVel
@@ -489,6 +508,25 @@ class _GCF2ICRSOperator(AbstractOperator):
 
         return qp, pp
 
+    @dispatch
+    def __call__(self, qvec: AbstractPos3D, /) -> CartesianPos3D:
+        """Transform q from GCF -> ICRS Cartesian.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+        >>> import coordinax.frames as cxf
+
+        >>> frame_op = cxf.frame_transform_op(cxf.Galactocentric(), cxf.ICRS())
+
+        >>> q = cx.CartesianPos3D.from_([0, 0, 0], "pc")
+        >>> print(frame_op(q))
+        <CartesianPos3D (x[pc], y[pc], z[pc])
+            [ -445.689 -7094.056 -3929.708]>
+
+        """
+        return CartesianPos3D.from_(self(convert(qvec, u.Quantity)))
+
     @dispatch
     def __call__(
         self, qvec: AbstractPos3D, pvec: AbstractVel
-- 
2.43.0


From e3acdbe3819398c42238123e33bb6fc6325c2d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 42/52] fix: refuse to build a vector of one class from another
 class unchanged

---
 src/coordinax/_src/vectors/d3/constructor.py | 24 ++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/coordinax/_src/vectors/d3/constructor.py b/src/coordinax/_src/vectors/d3/constructor.py
index 4e04c56..d93d41e 100644
--- a/src/coordinax/_src/vectors/d3/constructor.py
+++ b/src/coordinax/_src/vectors/d3/constructor.py
@@ -29,6 +29,10 @@ def from_(cls: type[AbstractPos3D], obj: Any, /) -> CartesianPos3D:
     )
 
     """
+    if not issubclass(CartesianPos3D, cls):
+        msg = f"Cannot construct {cls} from {type(obj)}."
+        raise TypeError(msg)
+
     return obj if isinstance(obj, CartesianPos3D) else CartesianPos3D.from_(obj)
 
 
@@ -53,6 +57,10 @@ def from_(cls: type[AbstractPos3D], obj: AbstractPos3D, /) -> AbstractPos3D:
     True
 
     """
+    if not isinstance(obj, cls):
+        msg = f"Cannot construct {cls} from {type(obj)}."
+        raise TypeError(msg)
+
     return obj
 
 
@@ -77,6 +85,10 @@ def from_(cls: type[AbstractVel3D], obj: Any, /) -> CartesianVel3D:
     )
 
     """
+    if not issubclass(CartesianVel3D, cls):
+        msg = f"Cannot construct {cls} from {type(obj)}."
+        raise TypeError(msg)
+
     return obj if isinstance(obj, CartesianVel3D) else CartesianVel3D.from_(obj)
 
 
@@ -103,6 +115,10 @@ def from_(cls: type[AbstractVel3D], obj: AbstractVel3D, /) -> AbstractVel3D:
     True
 
     """
+    if not isinstance(obj, cls):
+        msg = f"Cannot construct {cls} from {type(obj)}."
+        raise TypeError(msg)
+
     return obj
 
 
@@ -127,6 +143,10 @@ def from_(cls: type[AbstractAcc3D], obj: Any, /) -> CartesianAcc3D:
     )
 
     """
+    if not issubclass(CartesianAcc3D, cls):
+        msg = f"Cannot construct {cls} from {type(obj)}."
+        raise TypeError(msg)
+
     return obj if isinstance(obj, CartesianAcc3D) else CartesianAcc3D.from_(obj)
 
 
@@ -154,4 +174,8 @@ def from_(cls: type[AbstractAcc3D], obj: AbstractAcc3D, /) -> AbstractAcc3D:
     True
 
     """
+    if not isinstance(obj, cls):
+        msg = f"Cannot construct {cls} from {type(obj)}."
+        raise TypeError(msg)
+
     return obj
-- 
2.43.0


From 851f797caec2a8af3db7940a89e633cce7436356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 43/52] fix: convert a FourVector whose time is shared by its
 positions to a quantity

---
 src/coordinax/_src/vectors/d4/compat.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/d4/compat.py b/src/coordinax/_src/vectors/d4/compat.py
index 4ec6cf8..30aec7d 100644
--- a/src/coordinax/_src/vectors/d4/compat.py
+++ b/src/coordinax/_src/vectors/d4/compat.py
@@ -14,6 +14,23 @@ from .spacetime import FourVector
 
 @conversion_method(type_from=FourVector, type_to=u.Quantity)  # type: ignore[misc]
 def vec_to_q(obj: FourVector, /) -> Shaped[u.Quantity["length"], "*batch 4"]:
-    """`coordinax.AbstractPos3D` -> `unxt.Quantity`."""
+    """`coordinax.AbstractPos3D` -> `unxt.Quantity`.
+
+    Examples
+    --------
+    >>> import coordinax as cx
+    >>> import unxt as u
+    >>> from plum import convert
+
+    The time may be shared by a batch of positions:
+
+    >>> q = cx.CartesianPos3D.from_([[1.0, 2, 3], [4, 5, 6]], "km")
+    >>> vec = cx.FourVector(t=u.Quantity(0.0, "s"), q=q)
+    >>> convert(vec, u.Quantity)
+    Quantity['length'](Array([[0., 1., 2., 3.],
+           [0., 4., 5., 6.]], dtype=float32), unit='km')
+
+    """
     cart = convert(obj.q, u.Quantity)
-    return jnp.concat([obj.c * obj.t[..., None], cart], axis=-1)
+    ct = jnp.broadcast_to(obj.c * obj.t, obj.shape)
+    return jnp.concat([ct[..., None], cart], axis=-1)
-- 
2.43.0


From 8f41da5e69c58de22b907c4032b3dcff4cd1bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 44/52] fix: convert the units of vectors made of vectors

---
 src/coordinax/_src/vectors/base/compat.py | 24 +++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/compat.py b/src/coordinax/_src/vectors/base/compat.py
index 8295153..7d4bccd 100644
--- a/src/coordinax/_src/vectors/base/compat.py
+++ b/src/coordinax/_src/vectors/base/compat.py
@@ -200,6 +200,11 @@ def convert_pos_to_distance(obj: AbstractPos, /) -> Shaped[Distance, "*batch dim
 # Compatibility with unxt
 
 
+def _isvec(obj: Any, /) -> bool:
+    """Whether a field of a vector is itself a vector, e.g. `FourVector.q`."""
+    return isinstance(obj, AbstractVector)
+
+
 @dispatch
 def uconvert(usys: u.AbstractUnitSystem, vector: AbstractVector, /) -> AbstractVector:
     """Convert the vector to the given units.
@@ -219,12 +224,24 @@ def uconvert(usys: u.AbstractUnitSystem, vector: AbstractVector, /) -> AbstractV
         z=Quantity[...](value=f32[], unit=Unit("m"))
     )
 
+    The vectors a vector is made of are converted too:
+
+    >>> vec = cx.FourVector(t=u.Quantity(1, "h"), q=vec)
+    >>> u.uconvert(usys, vec)
+    FourVector(
+        t=Quantity[...](value=...f32[], unit=Unit("s")),
+        q=CartesianPos3D(
+            x=Quantity[...](value=f32[], unit=Unit("m")),
+            y=Quantity[...](value=f32[], unit=Unit("m")),
+            z=Quantity[...](value=f32[], unit=Unit("m"))
+        ) )
+
     """
     usys = u.unitsystem(usys)
     return replace(
         vector,
         **{
-            k: u.uconvert(usys[u.dimension_of(v)], v)
+            k: u.uconvert(usys if _isvec(v) else usys[u.dimension_of(v)], v)
             for k, v in field_items(AttrFilter, vector)
         },
     )
@@ -267,7 +284,7 @@ def uconvert(
     return replace(
         vector,
         **{
-            k: u.uconvert(units_[u.dimension_of(v)], v)
+            k: u.uconvert(units_ if _isvec(v) else units_[u.dimension_of(v)], v)
             for k, v in field_items(AttrFilter, vector)
         },
     )
@@ -318,6 +335,9 @@ def uconvert(
     dim2unit = {}
     units_ = {}
     for k, v in field_items(AttrFilter, vector):
+        if _isvec(v):  # consistent within itself
+            units_[k] = flag
+            continue
         pt = u.dimension_of(v)
         if pt not in dim2unit:
             dim2unit[pt] = u.unit_of(v)
-- 
2.43.0


From 7dfaeec96de411fa6ce860fda9bfe88900b5172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 45/52] fix: re-express a Space whose members have shapes of
 their own

---
 src/coordinax/_src/vectors/space/core.py      | 1 +
 src/coordinax/_src/vectors/transform/space.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index d9eff88..b749e8e 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -584,6 +584,7 @@ def from_(cls: type[Space], obj: Space, /) -> Space:
 @dispatch  # type: ignore[misc]
 def represent_as(space: Space, target: type[AbstractVector], /) -> Space:
     """Represent the current vector to the target vector."""
+    space = full_shaped(space)  # the members share one batch shape
     return type(space)(
         {k: temp_represent_as(v, target, space) for k, v in space.items()}
     )
diff --git a/src/coordinax/_src/vectors/transform/space.py b/src/coordinax/_src/vectors/transform/space.py
index 63fa175..35fe6ea 100644
--- a/src/coordinax/_src/vectors/transform/space.py
+++ b/src/coordinax/_src/vectors/transform/space.py
@@ -10,6 +10,7 @@ import quaxed.numpy as jnp
 from coordinax._src.vectors.d3 import CylindricalPos, CylindricalVel
 from coordinax._src.vectors.dn import PoincarePolarVector
 from coordinax._src.vectors.space import Space
+from coordinax._src.vectors.utils import full_shaped
 
 
 @dispatch
@@ -57,6 +58,7 @@ def represent_as(w: Space, target: type[PoincarePolarVector], /) -> PoincarePola
     )
 
     """
+    w = full_shaped(w)  # the members share one batch shape
     q = w["length"].represent_as(CylindricalPos)
     p = w["speed"].represent_as(CylindricalVel, q)
 
-- 
2.43.0


From 421f01cae551a19e0d53d69e43f847542538df59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 46/52] fix: compare Spaces whose members are curvilinear or
 differ

---
 src/coordinax/_src/vectors/base/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index 8e2cc6f..df014b5 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -621,7 +621,15 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
 
         # Compare component by component, converting the units.
         rhs = dict(field_items(other))
-        comp_eqs = [jnp.equal(v, rhs[k]) for k, v in field_items(self)]
+        if rhs.keys() != dict(field_items(self)).keys():
+            return NotImplemented  # different fields: nothing to compare
+        comp_eqs = [
+            # A field that is itself a vector knows how to compare itself.
+            (v == rhs[k]) if isinstance(v, AbstractVector) else jnp.equal(v, rhs[k])
+            for k, v in field_items(self)
+        ]
+        if any(isinstance(x, bool) for x in comp_eqs):
+            return NotImplemented  # fields of different vector types
         # A field can hold many components, on axes after those of the batch.
         ndim = max(self.ndim, other.ndim)
         comp_eqs = [x.all(axis=tuple(range(ndim, x.ndim))) for x in comp_eqs]
-- 
2.43.0


From 469294906cc6648819d1f1a560d6d989029b61d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 47/52] fix: keep a radius given as a parallax or distance
 modulus as the length it means

---
 src/coordinax/_src/vectors/d1/radial.py          | 4 ++--
 src/coordinax/_src/vectors/d2/polar.py           | 4 ++--
 src/coordinax/_src/vectors/d3/lonlatspherical.py | 4 ++--
 src/coordinax/_src/vectors/d3/mathspherical.py   | 4 ++--
 src/coordinax/_src/vectors/d3/spherical.py       | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/coordinax/_src/vectors/d1/radial.py b/src/coordinax/_src/vectors/d1/radial.py
index b970a1e..f808bd7 100644
--- a/src/coordinax/_src/vectors/d1/radial.py
+++ b/src/coordinax/_src/vectors/d1/radial.py
@@ -14,7 +14,7 @@ from dataclassish.converters import Unless
 
 import coordinax._src.typing as ct
 from .base import AbstractAcc1D, AbstractPos1D, AbstractVel1D
-from coordinax._src.distances import AbstractDistance, BatchableDistance, Distance
+from coordinax._src.distances import BatchableDistance, Distance
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors.checks import check_r_non_negative
 
@@ -24,7 +24,7 @@ class RadialPos(AbstractPos1D):
     """Radial vector representation."""
 
     r: BatchableDistance = eqx.field(
-        converter=Unless(AbstractDistance, partial(Distance.from_, dtype=float))
+        converter=Unless(Distance, partial(Distance.from_, dtype=float))
     )
     r"""Radial distance :math:`r \in [0,+\infty)`."""
 
diff --git a/src/coordinax/_src/vectors/d2/polar.py b/src/coordinax/_src/vectors/d2/polar.py
index e91d0a6..ca76c3c 100644
--- a/src/coordinax/_src/vectors/d2/polar.py
+++ b/src/coordinax/_src/vectors/d2/polar.py
@@ -19,7 +19,7 @@ from dataclassish.converters import Unless
 import coordinax._src.typing as ct
 from .base import AbstractAcc2D, AbstractPos2D, AbstractVel2D
 from coordinax._src.angles import Angle, BatchableAngle
-from coordinax._src.distances import AbstractDistance, BatchableDistance, Distance
+from coordinax._src.distances import BatchableDistance, Distance
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors.checks import check_r_non_negative
 from coordinax._src.vectors.converters import converter_azimuth_to_range
@@ -40,7 +40,7 @@ class PolarPos(AbstractPos2D):
     """
 
     r: BatchableDistance = eqx.field(
-        converter=Unless(AbstractDistance, partial(Distance.from_, dtype=float))
+        converter=Unless(Distance, partial(Distance.from_, dtype=float))
     )
     r"""Radial distance :math:`r \in [0,+\infty)`."""
 
diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index 9ddff65..e81998f 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -27,7 +27,7 @@ from .base_spherical import (
     _180d,
 )
 from coordinax._src.angles import Angle, BatchableAngle
-from coordinax._src.distances import AbstractDistance, BatchableDistance, Distance
+from coordinax._src.distances import BatchableDistance, Distance
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors import checks
 from coordinax._src.vectors.converters import converter_azimuth_to_range
@@ -111,7 +111,7 @@ class LonLatSphericalPos(AbstractSphericalPos):
     r"""Latitude (polar) angle :math:`\in [-90,90]`."""
 
     distance: BatchableDistance = eqx.field(
-        converter=Unless(AbstractDistance, partial(Distance.from_, dtype=float))
+        converter=Unless(Distance, partial(Distance.from_, dtype=float))
     )
     r"""Radial distance :math:`r \in [0,+\infty)`."""
 
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index e52bdde..3fb5034 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -30,7 +30,7 @@ from .base_spherical import (
     _360d,
 )
 from coordinax._src.angles import Angle, BatchableAngle
-from coordinax._src.distances import AbstractDistance, BatchableDistance, Distance
+from coordinax._src.distances import BatchableDistance, Distance
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors import checks
 from coordinax._src.vectors.converters import converter_azimuth_to_range
@@ -56,7 +56,7 @@ class MathSphericalPos(AbstractSphericalPos):
     """
 
     r: BatchableDistance = eqx.field(
-        converter=Unless(AbstractDistance, partial(Distance.from_, dtype=float))
+        converter=Unless(Distance, partial(Distance.from_, dtype=float))
     )
     r"""Radial distance :math:`r \in [0,+\infty)`."""
 
diff --git a/src/coordinax/_src/vectors/d3/spherical.py b/src/coordinax/_src/vectors/d3/spherical.py
index 0c3fac0..a21bd17 100644
--- a/src/coordinax/_src/vectors/d3/spherical.py
+++ b/src/coordinax/_src/vectors/d3/spherical.py
@@ -22,7 +22,7 @@ from .base_spherical import (
     _360d,
 )
 from coordinax._src.angles import Angle, BatchableAngle
-from coordinax._src.distances import AbstractDistance, BatchableDistance, Distance
+from coordinax._src.distances import BatchableDistance, Distance
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors import checks
 from coordinax._src.vectors.converters import converter_azimuth_to_range
@@ -52,7 +52,7 @@ class SphericalPos(AbstractSphericalPos):
     """
 
     r: BatchableDistance = eqx.field(
-        converter=Unless(AbstractDistance, partial(Distance.from_, dtype=float))
+        converter=Unless(Distance, partial(Distance.from_, dtype=float))
     )
     r"""Radial distance :math:`r \in [0,+\infty)`."""
 
-- 
2.43.0


From 256b42f4c45ab6844fee6f39b673b1ecb7924a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 48/52] fix: build the class asked for from an astropy
 representation

---
 .../coordinax_interop_astropy/constructors.py | 42 +++++++++++++------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/coordinax/_interop/coordinax_interop_astropy/constructors.py b/src/coordinax/_interop/coordinax_interop_astropy/constructors.py
index b356767..8efc15d 100644
--- a/src/coordinax/_interop/coordinax_interop_astropy/constructors.py
+++ b/src/coordinax/_interop/coordinax_interop_astropy/constructors.py
@@ -16,6 +16,22 @@ import coordinax as cx
 #####################################################################
 
 
+def _as_pos(cls: type[cx.vecs.AbstractPos3D], obj: cx.vecs.AbstractPos3D, /):  # type: ignore[no-untyped-def]
+    """The position, in the class that was asked for."""
+    return obj if isinstance(obj, cls) else obj.represent_as(cls)
+
+
+def _as_vel(cls: type[cx.vecs.AbstractVel3D], obj: cx.vecs.AbstractVel3D, /):  # type: ignore[no-untyped-def]
+    """The velocity, if it is of the class that was asked for.
+
+    Changing the class of a velocity requires a position.
+    """
+    if not isinstance(obj, cls):
+        msg = f"cannot construct a {cls.__name__} from a {type(obj).__name__}"
+        raise TypeError(msg)
+    return obj
+
+
 @cx.vecs.AbstractVector.from_.dispatch
 def from_(
     cls: type[cx.vecs.AbstractVector], obj: Mapping[str, apyu.Quantity], /
@@ -64,7 +80,7 @@ def from_(
 @cx.vecs.AbstractPos3D.from_.dispatch(precedence=-1)
 def from_(
     cls: type[cx.vecs.AbstractPos3D], obj: apyc.CartesianRepresentation, /
-) -> cx.CartesianPos3D:
+) -> cx.vecs.AbstractPos3D:
     """Construct from a :class:`astropy.coordinates.CartesianRepresentation`.
 
     Examples
@@ -78,13 +94,13 @@ def from_(
     Quantity['length'](Array(1., dtype=float32), unit='kpc')
 
     """
-    return cx.CartesianPos3D.from_(obj)
+    return _as_pos(cls, cx.CartesianPos3D.from_(obj))
 
 
 @cx.vecs.AbstractPos3D.from_.dispatch(precedence=-1)
 def from_(
     cls: type[cx.vecs.AbstractPos3D], obj: apyc.CylindricalRepresentation, /
-) -> cx.vecs.CylindricalPos:
+) -> cx.vecs.AbstractPos3D:
     """Construct from a :class:`astropy.coordinates.CylindricalRepresentation`.
 
     Examples
@@ -100,13 +116,13 @@ def from_(
     Quantity['length'](Array(1., dtype=float32), unit='kpc')
 
     """
-    return cx.vecs.CylindricalPos.from_(obj)
+    return _as_pos(cls, cx.vecs.CylindricalPos.from_(obj))
 
 
 @cx.vecs.AbstractPos3D.from_.dispatch(precedence=-1)
 def from_(
     cls: type[cx.vecs.AbstractPos3D], obj: apyc.PhysicsSphericalRepresentation, /
-) -> cx.SphericalPos:
+) -> cx.vecs.AbstractPos3D:
     """Construct from a :class:`astropy.coordinates.PhysicsSphericalRepresentation`.
 
     Examples
@@ -122,13 +138,13 @@ def from_(
     Distance(Array(1., dtype=float32), unit='kpc')
 
     """
-    return cx.SphericalPos.from_(obj)
+    return _as_pos(cls, cx.SphericalPos.from_(obj))
 
 
 @cx.vecs.AbstractPos3D.from_.dispatch(precedence=-1)
 def from_(
     cls: type[cx.vecs.AbstractPos3D], obj: apyc.SphericalRepresentation, /
-) -> cx.vecs.LonLatSphericalPos:
+) -> cx.vecs.AbstractPos3D:
     """Construct from a :class:`astropy.coordinates.SphericalRepresentation`.
 
     Examples
@@ -144,7 +160,7 @@ def from_(
     Distance(Array(1., dtype=float32), unit='kpc')
 
     """
-    return cx.vecs.LonLatSphericalPos.from_(obj)
+    return _as_pos(cls, cx.vecs.LonLatSphericalPos.from_(obj))
 
 
 # -------------------------------------------------------------------
@@ -261,7 +277,7 @@ def from_(
     Quantity['speed'](Array(1., dtype=float32), unit='km / s')
 
     """
-    return cx.CartesianVel3D.from_(obj)
+    return _as_vel(cls, cx.CartesianVel3D.from_(obj))
 
 
 @cx.vecs.AbstractVel3D.from_.dispatch
@@ -283,7 +299,7 @@ def from_(
     Quantity['speed'](Array(1., dtype=float32), unit='km / s')
 
     """
-    return cx.vecs.CylindricalVel.from_(obj)
+    return _as_vel(cls, cx.vecs.CylindricalVel.from_(obj))
 
 
 @cx.vecs.AbstractVel3D.from_.dispatch
@@ -305,7 +321,7 @@ def from_(
     Quantity['speed'](Array(1., dtype=float32), unit='km / s')
 
     """
-    return cx.SphericalVel.from_(obj)
+    return _as_vel(cls, cx.SphericalVel.from_(obj))
 
 
 @cx.vecs.AbstractVel3D.from_.dispatch
@@ -328,7 +344,7 @@ def from_(
     Quantity['speed'](Array(1., dtype=float32), unit='km / s')
 
     """
-    return cx.vecs.LonLatSphericalVel.from_(obj)
+    return _as_vel(cls, cx.vecs.LonLatSphericalVel.from_(obj))
 
 
 @cx.vecs.AbstractVel3D.from_.dispatch
@@ -357,7 +373,7 @@ def from_(
     Quantity['speed'](Array(1., dtype=float32), unit='km / s')
 
     """
-    return cx.vecs.LonCosLatSphericalVel.from_(obj)
+    return _as_vel(cls, cx.vecs.LonCosLatSphericalVel.from_(obj))
 
 
 # -------------------------------------------------------------------
-- 
2.43.0


From e2411b7956221793ff7b05a38b3e76765f6445ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 49/52] fix: convert a position to the astropy representation
 asked for

---
 .../coordinax_interop_astropy/converters.py   | 83 ++++++++++++++++++-
 1 file changed, 82 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_interop/coordinax_interop_astropy/converters.py b/src/coordinax/_interop/coordinax_interop_astropy/converters.py
index ba591a1..e3f7b03 100644
--- a/src/coordinax/_interop/coordinax_interop_astropy/converters.py
+++ b/src/coordinax/_interop/coordinax_interop_astropy/converters.py
@@ -14,6 +14,87 @@ import unxt as u
 
 import coordinax as cx
 
+# =====================================
+# Positions, to another kind of representation
+
+
+@conversion_method(cx.vecs.CylindricalPos, apyc.CartesianRepresentation)  # type: ignore[misc]
+@conversion_method(cx.SphericalPos, apyc.CartesianRepresentation)  # type: ignore[misc]
+@conversion_method(cx.vecs.LonLatSphericalPos, apyc.CartesianRepresentation)  # type: ignore[misc]
+def pos_to_apycart3(obj: cx.vecs.AbstractPos3D, /) -> apyc.CartesianRepresentation:
+    """`coordinax.AbstractPos3D` -> `astropy.CartesianRepresentation`.
+
+    Examples
+    --------
+    >>> import unxt as u
+    >>> import coordinax as cx
+
+    >>> vec = cx.vecs.CylindricalPos(rho=u.Quantity(1, "kpc"), phi=u.Quantity(0, "deg"),
+    ...                              z=u.Quantity(2, "kpc"))
+    >>> type(convert(vec, apyc.CartesianRepresentation)).__name__
+    'CartesianRepresentation'
+
+    """
+    return convert(obj.represent_as(cx.CartesianPos3D), apyc.CartesianRepresentation)
+
+
+@conversion_method(cx.CartesianPos3D, apyc.CylindricalRepresentation)  # type: ignore[misc]
+@conversion_method(cx.SphericalPos, apyc.CylindricalRepresentation)  # type: ignore[misc]
+@conversion_method(cx.vecs.LonLatSphericalPos, apyc.CylindricalRepresentation)  # type: ignore[misc]
+def pos_to_apycyl(obj: cx.vecs.AbstractPos3D, /) -> apyc.CylindricalRepresentation:
+    """`coordinax.AbstractPos3D` -> `astropy.CylindricalRepresentation`.
+
+    Examples
+    --------
+    >>> import unxt as u
+    >>> import coordinax as cx
+
+    >>> vec = cx.CartesianPos3D.from_([1, 0, 0], "kpc")
+    >>> type(convert(vec, apyc.CylindricalRepresentation)).__name__
+    'CylindricalRepresentation'
+
+    """
+    return convert(obj.represent_as(cx.vecs.CylindricalPos), apyc.CylindricalRepresentation)
+
+
+@conversion_method(cx.CartesianPos3D, apyc.PhysicsSphericalRepresentation)  # type: ignore[misc]
+@conversion_method(cx.vecs.CylindricalPos, apyc.PhysicsSphericalRepresentation)  # type: ignore[misc]
+@conversion_method(cx.vecs.LonLatSphericalPos, apyc.PhysicsSphericalRepresentation)  # type: ignore[misc]
+def pos_to_apysph(obj: cx.vecs.AbstractPos3D, /) -> apyc.PhysicsSphericalRepresentation:
+    """`coordinax.AbstractPos3D` -> `astropy.PhysicsSphericalRepresentation`.
+
+    Examples
+    --------
+    >>> import unxt as u
+    >>> import coordinax as cx
+
+    >>> vec = cx.CartesianPos3D.from_([1, 0, 0], "kpc")
+    >>> type(convert(vec, apyc.PhysicsSphericalRepresentation)).__name__
+    'PhysicsSphericalRepresentation'
+
+    """
+    return convert(obj.represent_as(cx.SphericalPos), apyc.PhysicsSphericalRepresentation)
+
+
+@conversion_method(cx.CartesianPos3D, apyc.SphericalRepresentation)  # type: ignore[misc]
+@conversion_method(cx.vecs.CylindricalPos, apyc.SphericalRepresentation)  # type: ignore[misc]
+@conversion_method(cx.SphericalPos, apyc.SphericalRepresentation)  # type: ignore[misc]
+def pos_to_apylonlatsph(obj: cx.vecs.AbstractPos3D, /) -> apyc.SphericalRepresentation:
+    """`coordinax.AbstractPos3D` -> `astropy.SphericalRepresentation`.
+
+    Examples
+    --------
+    >>> import unxt as u
+    >>> import coordinax as cx
+
+    >>> vec = cx.CartesianPos3D.from_([1, 0, 0], "kpc")
+    >>> type(convert(vec, apyc.SphericalRepresentation)).__name__
+    'SphericalRepresentation'
+
+    """
+    return convert(obj.represent_as(cx.vecs.LonLatSphericalPos), apyc.SphericalRepresentation)
+
+
 #####################################################################
 
 # =====================================
@@ -238,7 +319,7 @@ def apysph_to_sph(obj: apyc.PhysicsSphericalRepresentation, /) -> cx.SphericalPo
 
 
 @conversion_method(cx.vecs.LonLatSphericalPos, apyc.BaseRepresentation)  # type: ignore[misc]
-@conversion_method(cx.vecs.LonLatSphericalPos, apyc.PhysicsSphericalRepresentation)  # type: ignore[misc]
+@conversion_method(cx.vecs.LonLatSphericalPos, apyc.SphericalRepresentation)  # type: ignore[misc]
 def lonlatsph_to_apysph(
     obj: cx.vecs.LonLatSphericalPos, /
 ) -> apyc.SphericalRepresentation:
-- 
2.43.0


From 4f87e310767138648ccfdf28876c2838529cc6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:03 +0000
Subject: [PATCH 50/52] fix: transform a position vector between frames, after
 the existing calls

---
 .../frame_transforms.py                       | 76 +++++++++----------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/src/coordinax/_coordinax_space_frames/frame_transforms.py b/src/coordinax/_coordinax_space_frames/frame_transforms.py
index 4277539..e93de8e 100644
--- a/src/coordinax/_coordinax_space_frames/frame_transforms.py
+++ b/src/coordinax/_coordinax_space_frames/frame_transforms.py
@@ -257,25 +257,6 @@ class _ICRS2GCFOperator(AbstractOperator):
 
         return qp, pp
 
-    @dispatch
-    def __call__(self, qvec: AbstractPos3D, /) -> CartesianPos3D:
-        """Transform q from ICRS -> GCF Cartesian.
-
-        Examples
-        --------
-        >>> import coordinax as cx
-        >>> import coordinax.frames as cxf
-
-        >>> frame_op = cxf.frame_transform_op(cxf.ICRS(), cxf.Galactocentric())
-
-        >>> q = cx.CartesianPos3D.from_([0, 0, 0], "pc")
-        >>> print(frame_op(q))
-        <CartesianPos3D (x[pc], y[pc], z[pc])
-            [-8121.973     0.       20.8  ]>
-
-        """
-        return CartesianPos3D.from_(self(convert(qvec, u.Quantity)))
-
     @dispatch
     def __call__(
         self, qvec: AbstractPos3D, pvec: AbstractVel
@@ -308,6 +289,25 @@ class _ICRS2GCFOperator(AbstractOperator):
 
         return qpvec, ppvec
 
+    @dispatch
+    def __call__(self, qvec: AbstractPos3D, /) -> CartesianPos3D:
+        """Transform q from ICRS -> GCF Cartesian.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+        >>> import coordinax.frames as cxf
+
+        >>> frame_op = cxf.frame_transform_op(cxf.ICRS(), cxf.Galactocentric())
+
+        >>> q = cx.CartesianPos3D.from_([0, 0, 0], "pc")
+        >>> print(frame_op(q))
+        <CartesianPos3D (x[pc], y[pc], z[pc])
+            [-8121.973     0.       20.8  ]>
+
+        """
+        return CartesianPos3D.from_(self(convert(qvec, u.Quantity)))
+
 
 @dispatch  # type: ignore[misc]
 def frame_transform_op(
@@ -508,25 +508,6 @@ class _GCF2ICRSOperator(AbstractOperator):
 
         return qp, pp
 
-    @dispatch
-    def __call__(self, qvec: AbstractPos3D, /) -> CartesianPos3D:
-        """Transform q from GCF -> ICRS Cartesian.
-
-        Examples
-        --------
-        >>> import coordinax as cx
-        >>> import coordinax.frames as cxf
-
-        >>> frame_op = cxf.frame_transform_op(cxf.Galactocentric(), cxf.ICRS())
-
-        >>> q = cx.CartesianPos3D.from_([0, 0, 0], "pc")
-        >>> print(frame_op(q))
-        <CartesianPos3D (x[pc], y[pc], z[pc])
-            [ -445.689 -7094.056 -3929.708]>
-
-        """
-        return CartesianPos3D.from_(self(convert(qvec, u.Quantity)))
-
     @dispatch
     def __call__(
         self, qvec: AbstractPos3D, pvec: AbstractVel
@@ -560,6 +541,25 @@ class _GCF2ICRSOperator(AbstractOperator):
 
         return qpvec, ppvec
 
+    @dispatch
+    def __call__(self, qvec: AbstractPos3D, /) -> CartesianPos3D:
+        """Transform q from GCF -> ICRS Cartesian.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+        >>> import coordinax.frames as cxf
+
+        >>> frame_op = cxf.frame_transform_op(cxf.Galactocentric(), cxf.ICRS())
+
+        >>> q = cx.CartesianPos3D.from_([0, 0, 0], "pc")
+        >>> print(frame_op(q))
+        <CartesianPos3D (x[pc], y[pc], z[pc])
+            [ -445.689 -7094.056 -3929.708]>
+
+        """
+        return CartesianPos3D.from_(self(convert(qvec, u.Quantity)))
+
 
 @dispatch  # type: ignore[misc]
 def frame_transform_op(
-- 
2.43.0


From 505b3abe568c50f82b74f78f17be33d098a105ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:26 +0000
Subject: [PATCH 51/52] fix: CartesianPosND converts to AbstractQuantity,
 UncheckedQuantity and Distance without an extra axis

---
 src/coordinax/_src/vectors/dn/cartesian.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/cartesian.py b/src/coordinax/_src/vectors/dn/cartesian.py
index 302dd20..a8b8269 100644
--- a/src/coordinax/_src/vectors/dn/cartesian.py
+++ b/src/coordinax/_src/vectors/dn/cartesian.py
@@ -10,16 +10,17 @@ from typing_extensions import override
 import equinox as eqx
 import jax
 from jaxtyping import ArrayLike, Shaped
-from plum import conversion_method
+from plum import conversion_method, convert
 from quax import register
 
 import quaxed.lax as qlax
 import quaxed.numpy as jnp
 import unxt as u
+from unxt.quantity import AbstractQuantity, UncheckedQuantity
 
 import coordinax._src.typing as ct
 from .base import AbstractAccND, AbstractPosND, AbstractVelND
-from coordinax._src.distances import BatchableLength
+from coordinax._src.distances import BatchableLength, Distance
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors.base import AbstractPos
 from coordinax._src.vectors.base.mixins import AvalMixin
@@ -174,6 +175,7 @@ def from_(
     return cls(jnp.atleast_1d(x))
 
 
+@conversion_method(CartesianPosND, AbstractQuantity)  # type: ignore[misc]
 @conversion_method(CartesianPosND, u.Quantity)  # type: ignore[misc]
 def _vec_to_q(obj: CartesianPosND, /) -> Shaped[u.Quantity["length"], "*batch N"]:
     """`coordinax.AbstractPos3D` -> `unxt.Quantity`.
@@ -192,6 +194,20 @@ def _vec_to_q(obj: CartesianPosND, /) -> Shaped[u.Quantity["length"], "*batch N"
     return obj.q
 
 
+@conversion_method(CartesianPosND, UncheckedQuantity)  # type: ignore[misc]
+def _vec_to_uncheckedq(
+    obj: CartesianPosND, /
+) -> Shaped[UncheckedQuantity, "*batch N"]:
+    """`coordinax.vecs.CartesianPosND` -> `unxt.UncheckedQuantity`."""
+    return convert(obj.q, UncheckedQuantity)
+
+
+@conversion_method(CartesianPosND, Distance)  # type: ignore[misc]
+def _vec_to_distance(obj: CartesianPosND, /) -> Shaped[Distance, "*batch N"]:
+    """`coordinax.vecs.CartesianPosND` -> `coordinax.Distance`."""
+    return convert(obj.q, Distance)
+
+
 @register(jax.lax.add_p)  # type: ignore[misc]
 def _add_vcnd(lhs: CartesianPosND, rhs: AbstractPos, /) -> CartesianPosND:
     """Add two vectors.
-- 
2.43.0


From 456808659dd7ac795881c2661bca0d8a0028ef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:11 +0000
Subject: [PATCH 52/52] fix: copy and unpickle FourVector

FourVector.__getattr__ forwarded every unset attribute, including its own
fields, to self.q, so copying or unpickling it recursed without end.
---
 src/coordinax/_src/vectors/d4/spacetime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coordinax/_src/vectors/d4/spacetime.py b/src/coordinax/_src/vectors/d4/spacetime.py
index a5e3b62..e871461 100644
--- a/src/coordinax/_src/vectors/d4/spacetime.py
+++ b/src/coordinax/_src/vectors/d4/spacetime.py
@@ -167,6 +167,11 @@ class FourVector(AbstractPos4D):
         Quantity['length'](Array(1., dtype=float32), unit='m')
 
         """
+        # The fields are not set while the object is being built, e.g. when it
+        # is copied or unpickled. Do not look them up on themselves.
+        if name in ("t", "q", "c"):
+            msg = f"{type(self).__name__!r} object has no attribute {name!r}"
+            raise AttributeError(msg)
         return getattr(self.q, name)
 
     # -------------------------------------------
-- 
2.43.0

