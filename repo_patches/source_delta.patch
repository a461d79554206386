From 5a15dda849c9a1232e7f7de866dcd1da59e0efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 01/45] fix: avoid NaN CoM for massless inertial parameters

---
 src/rigeo/inertial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/inertial.py b/src/rigeo/inertial.py
index e3f4bab..2cf7537 100644
--- a/src/rigeo/inertial.py
+++ b/src/rigeo/inertial.py
@@ -47,7 +47,8 @@ class InertialParameters:
         if h is not None and com is not None:
             raise ValueError("Cannot specify both h and com.")
         if com is None:
-            if h is None:
+            if h is None or mass == 0:
+                # the CoM is arbitrary when there is no mass
                 com = np.zeros(3)
             else:
                 com = h / mass
-- 
2.43.0


From d9aa3090fb550ce9df3b9cfe94459ee1f7a0b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 02/45] fix: sample box surface in the box frame before
 applying the pose

---
 src/rigeo/shape/box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index bef5745..0977d53 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -146,7 +146,7 @@ class Box(ConvexPolyhedron):
         # TODO would probably be nicer to sample the number per face first,
         # like in the edges function below
         rng = np.random.default_rng(rng)
-        points = self.random_points(n, rng=rng)
+        points = rng.uniform(low=-1, high=1, size=(n, 3)) * self.half_extents
 
         x, y, z = self.half_extents
         Ax = 4 * y * z
-- 
2.43.0


From c67a0957cd2b723ae8818e194734b4b921c77407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 03/45] fix: apply the rotation, not its inverse, to ellipsoid
 surface samples

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 3e2695c..e23210d 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -502,7 +502,7 @@ class Ellipsoid(Shape):
             count += n_acc
 
         # rotate and translate points as needed
-        points = points @ self.rotation + self.center
+        points = points @ self.rotation.T + self.center
 
         # reshape to desired shape
         if shape == (1,):
-- 
2.43.0


From 8fd7e9e82d0e5d172a542cede08c273925de6806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 04/45] fix: compare degenerate ellipsoids without infinite
 shape matrices

---
 src/rigeo/shape/ellipsoid.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index e23210d..e89e525 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -245,7 +245,17 @@ class Ellipsoid(Shape):
         """Check if this ellipsoid is the same as another."""
         if not isinstance(other, self.__class__):
             return False
-        return np.allclose(self.Q, other.Q, atol=tol)
+        if self.dim != other.dim:
+            return False
+        # compare the square roots of the inverse shape matrices, which are
+        # well-defined even if the ellipsoids are degenerate
+        X, Y = [
+            E.rotation @ np.diag(E.half_extents) @ E.rotation.T
+            for E in (self, other)
+        ]
+        return np.allclose(X, Y, atol=tol) and np.allclose(
+            self.center, other.center, atol=tol
+        )
 
     def contains(self, points, tol=1e-8):
         """Check if points are contained in the ellipsoid.
-- 
2.43.0


From 25dbbd638851f392716dc1d98d81c9d3c08b8a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 05/45] fix: honour the tolerance in Cylinder.contains

---
 src/rigeo/shape/cylinder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 8138615..eb2288a 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -123,7 +123,11 @@ class Cylinder(Shape):
         P1 = points @ self.longitudinal_axis[:, None]
         P2 = points @ self.transverse_axes
         return np.all(
-            [E.contains(P) for E, P in zip(self._ellipsoids, (P1, P2))], axis=0
+            [
+                E.contains(P, tol=tol)
+                for E, P in zip(self._ellipsoids, (P1, P2))
+            ],
+            axis=0,
         )
 
     def must_contain(self, points, scale=1.0):
-- 
2.43.0


From 44a80243041ebc7ae40da217697adec4bff4cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 06/45] fix: compare cylinders and capsules as sets and accept
 a tolerance

---
 src/rigeo/shape/capsule.py  |  8 +++++++-
 src/rigeo/shape/cylinder.py | 15 ++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/rigeo/shape/capsule.py b/src/rigeo/shape/capsule.py
index c22ecaf..4d49990 100644
--- a/src/rigeo/shape/capsule.py
+++ b/src/rigeo/shape/capsule.py
@@ -48,7 +48,13 @@ class Capsule(Shape):
     def is_same(self, other, tol=1e-8):
         if not isinstance(other, self.__class__):
             return False
-        return self.cylinder.is_same(other.cylinder, tol=tol)
+        # a capsule is determined by its radius and its (unordered) end points
+        ends = self.cylinder.endpoints()
+        other_ends = other.cylinder.endpoints()
+        return np.isclose(self.radius, other.radius, atol=tol) and (
+            np.allclose(ends, other_ends, atol=tol)
+            or np.allclose(ends, other_ends[::-1], atol=tol)
+        )
 
     def contains(self, points, tol=1e-8):
         contains = [shape.contains(points, tol=tol) for shape in self._shapes]
diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index eb2288a..d5ddfa3 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -109,14 +109,19 @@ class Cylinder(Shape):
         """The volume of the cylinder."""
         return np.pi * self.radius**2 * self.length
 
-    def is_same(self, other):
+    def is_same(self, other, tol=1e-8):
         if not isinstance(other, self.__class__):
             return False
+        # the set only depends on the line of the longitudinal axis, not on its
+        # sign nor on the rotation about it
+        Z1, Z2 = [
+            np.outer(c.longitudinal_axis, c.longitudinal_axis)
+            for c in (self, other)
+        ]
         return (
-            np.isclose(self.length, other.length)
-            and np.isclose(self.radius, other.radius)
-            and np.allclose(self.center, other.center)
-            and np.allclose(self.rotation, other.rotation)
+            np.allclose(self.length * Z1, other.length * Z2, atol=tol)
+            and np.allclose(self.radius * Z1, other.radius * Z2, atol=tol)
+            and np.allclose(self.center, other.center, atol=tol)
         )
 
     def contains(self, points, tol=1e-8):
-- 
2.43.0


From 1f801e76c3a143b477659cdbad162b9dea1ecc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 07/45] fix: minimal bounding sphere of a box

---
 src/rigeo/shape/box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index 0977d53..35e173d 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -334,7 +334,7 @@ class Box(ConvexPolyhedron):
 
         half_extents = self.half_extents * np.sqrt(3)  # TODO check this
         if sphere:
-            radius = np.max(half_extents)
+            radius = np.linalg.norm(self.half_extents)
             return Ellipsoid.sphere(radius=radius, center=self.center)
         return Ellipsoid(
             half_extents=half_extents,
-- 
2.43.0


From 4f4bc3eeff65c1f782f8a33a44b6240f104a8e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 08/45] fix: accept the solver argument in Ellipsoid.mbe

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index e89e525..08efbf5 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -425,7 +425,7 @@ class Ellipsoid(Shape):
             Qr, V = self._QV_degenerate()
             return psd_constraints + [cp.trace(Qr @ Jr) >= 0, J == V @ Jr @ V.T]
 
-    def mbe(self, rcond=None, sphere=False):
+    def mbe(self, rcond=None, sphere=False, solver=None):
         if not sphere:
             return self
         radius = np.max(self.half_extents)
-- 
2.43.0


From d743d9465c0cdee4c945efcc58133f2f0f8ac84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 09/45] fix: do not translate rays in SpanForm.transform

---
 src/rigeo/polydd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 4b3f240..5b2adbc 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -164,7 +164,8 @@ class SpanForm:
         if self.vertices is not None:
             vertices = (rotation @ self.vertices.T).T + translation
         if self.rays is not None:
-            rays = (rotation @ self.rays.T).T + translation
+            # rays are directions, so they do not translate
+            rays = (rotation @ self.rays.T).T
 
         return SpanForm(vertices=vertices, rays=rays)
 
-- 
2.43.0


From 80d352d86667c1464f3db207eb39fb1a5124c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 10/45] fix: include the PSD constraints in
 moment_sdp_constraints

---
 src/rigeo/shape/cylinder.py | 3 ++-
 src/rigeo/shape/poly.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index d5ddfa3..0564e68 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -166,7 +166,8 @@ class Cylinder(Shape):
         M = cp.Variable(moment.shape, PSD=True)
 
         return (
-            moment.moment_constraints(M)
+            psd_constraints
+            + moment.moment_constraints(M)
             + moment.localizing_constraints(M, polys=self._poly0s)
             + [m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]
         )
diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index e7fe25d..92dfa58 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -280,7 +280,8 @@ class ConvexPolyhedron(Shape):
         M = cp.Variable(moment.shape, PSD=True)
 
         return (
-            moment.moment_constraints(M)
+            psd_constraints
+            + moment.moment_constraints(M)
             + moment.localizing_constraints(M, polys=self._polys)
             + [m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]
         )
-- 
2.43.0


From b4e2c031346d7e3ba297fedd24a8336ae3886f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 11/45] fix: do not apply eps to the flat disks of a cylinder

---
 src/rigeo/shape/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 0564e68..9dbae38 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -189,7 +189,7 @@ class Cylinder(Shape):
         disk_constraints = [
             c
             for J, disk in zip(Js, self.disk0s)
-            for c in disk.moment_constraints(J, eps=eps)
+            for c in disk.moment_constraints(J)
         ]
 
         return (
-- 
2.43.0


From 22af0fcac2f0bddbf8e488ac86e8f8cf4181ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 12/45] fix: do not overwrite the reference point in
 mbe_of_points for spheres

---
 src/rigeo/shape/ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 08efbf5..7edeef2 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -716,8 +716,8 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     constraints = [cp.norm2(A @ x + b) <= 1 for x in P]
     if sphere:
         # if we want a sphere, then A is a multiple of the identity matrix
-        r = cp.Variable(1)
-        constraints.append(A == r * np.eye(rank))
+        a = cp.Variable(1)
+        constraints.append(A == a * np.eye(rank))
     problem = cp.Problem(objective, constraints)
     problem.solve(solver=solver)
 
-- 
2.43.0


From f188b210f8aecdba659feed9c1b3a076cc49a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 13/45] fix: S-procedure of contains_ellipsoid must use the
 other ellipsoid

---
 src/rigeo/shape/ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 7edeef2..26ac9fb 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -558,8 +558,8 @@ class Ellipsoid(Shape):
         constraints = [
             t >= 0,
             schur(
-                self.S - t * other.A,
-                self.A @ self.b - t * self.b,
+                self.S - t * other.S,
+                self.A @ self.b - t * other.A @ other.b,
                 self.b @ self.b - 1 - t * (other.b @ other.b - 1),
             )
             << 0,
-- 
2.43.0


From 5378f8506c69f519eb9bf6851410166b5e10bbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 14/45] fix: use the quadratic form of the ellipsoids in
 mbe_of_ellipsoids

---
 src/rigeo/shape/ellipsoid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 26ac9fb..0df6f7a 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -620,10 +620,13 @@ class Ellipsoid(Shape):
         )
 
 
-def _mbee_con_mat(S, d, Ai, bi, ti):
+def _mbee_con_mat(S, d, E, ti):
     """Constraint matrix for minimum bounding ellipsoid of ellipsoids problem."""
     dim = S.shape[0]
-    ci = bi @ bi - 1
+    # quadratic form x.T @ Ai @ x + 2 * bi @ x + ci <= 0 of the ellipsoid
+    Ai = E.S
+    bi = E.A @ E.b
+    ci = E.b @ E.b - 1
     Z = np.zeros((dim, dim))
     f = cp.reshape(-1 - ti * ci, (1, 1), order="C")
     e = cp.reshape(d - ti * bi, (dim, 1), order="C")
@@ -664,7 +667,7 @@ def mbe_of_ellipsoids(ellipsoids, sphere=False, solver=None):
 
     objective = cp.Minimize(-cp.log_det(S))
     constraints = [ts >= 0] + [
-        _mbee_con_mat(S, d, E.A, E.b, ti) << 0 for E, ti in zip(ellipsoids, ts)
+        _mbee_con_mat(S, d, E, ti) << 0 for E, ti in zip(ellipsoids, ts)
     ]
     if sphere:
         # if we want a sphere, then S is a multiple of the identity matrix
-- 
2.43.0


From 23e198ef5557ff1e2309e2997f1f4195d616b1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 15/45] fix: degree-zero polynomial basis

---
 src/rigeo/moment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/moment.py b/src/rigeo/moment.py
index 30754d7..eb9f9ab 100644
--- a/src/rigeo/moment.py
+++ b/src/rigeo/moment.py
@@ -133,7 +133,7 @@ class Polynomial:
             b[i] = 1
             basis.append(MomentIndex(b))
         return [
-            sum(group)
+            sum(group, basis[0])
             for group in itertools.combinations_with_replacement(basis, d)
         ]
 
-- 
2.43.0


From c0774e2feff0dc2e696a1a7122bb13edb3551c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 16/45] fix: support sampling in the one-dimensional ball

---
 src/rigeo/random.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/random.py b/src/rigeo/random.py
index ff590fc..fcbec91 100644
--- a/src/rigeo/random.py
+++ b/src/rigeo/random.py
@@ -52,7 +52,7 @@ def random_points_on_hypersphere(shape=1, dim=2, rng=None):
 
     See https://compneuro.uwaterloo.ca/files/publications/voelker.2017.pdf
     """
-    assert dim >= 1
+    assert dim >= 0
     if np.isscalar(shape):
         shape = (shape,)
     full_shape = tuple(shape) + (dim + 1,)
@@ -67,7 +67,7 @@ def random_points_on_hypersphere(shape=1, dim=2, rng=None):
 
     # squeeze out extra dimension if shape = 1
     if shape == (1,):
-        return np.squeeze(points)
+        return points[0]
     return points
 
 
@@ -85,7 +85,7 @@ def random_points_in_ball(shape=1, dim=3, rng=None):
 
     # squeeze out extra dimension if shape = 1
     if shape == 1:
-        return np.squeeze(points)
+        return points[0]
     return points
 
 
-- 
2.43.0


From 179ff717da68c673a5c362408a98833103b7fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 17/45] fix: ellipsoid volume in dimensions other than three

---
 src/rigeo/shape/ellipsoid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 0df6f7a..19aac39 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -1,3 +1,5 @@
+import math
+
 import numpy as np
 import cvxpy as cp
 from scipy.linalg import orth, null_space
@@ -108,7 +110,9 @@ class Ellipsoid(Shape):
     @property
     def volume(self):
         """The volume of the ellipsoid."""
-        return 4 * np.pi * np.prod(self.half_extents) / 3
+        d = self.dim
+        ball = np.pi ** (d / 2) / math.gamma(d / 2 + 1)
+        return ball * np.prod(self.half_extents)
 
     def __repr__(self):
         return f"Ellipsoid(half_extents={self.half_extents}, center={self.center}, rotation={self.rotation})"
-- 
2.43.0


From 866878e834038351a24231cc2d72cd4153b389ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 18/45] fix: symmetric comparison of boxes with general
 polyhedra

---
 src/rigeo/shape/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 92dfa58..72c3746 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -170,7 +170,7 @@ class ConvexPolyhedron(Shape):
         return [self.A @ p <= scale * self.b for p in points]
 
     def is_same(self, other, tol=1e-8):
-        if not isinstance(other, self.__class__):
+        if not isinstance(other, ConvexPolyhedron):
             return False
         return self.contains_polyhedron(
             other, tol=tol
-- 
2.43.0


From bae039646ad65c8747ec1d82ecd2fc2440a6c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:51 +0000
Subject: [PATCH 19/45] fix: polyhedron containment tolerance is a distance,
 independent of face scaling

---
 src/rigeo/shape/poly.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 72c3746..6d9e552 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -160,9 +160,11 @@ class ConvexPolyhedron(Shape):
 
     def contains(self, points, tol=1e-8):
         points = np.array(points)
+        # the tolerance is a distance, regardless of the scaling of the faces
+        b = self.b + tol * np.linalg.norm(self.A, axis=1)
         if points.ndim == 1:
-            return np.all(self.A @ points <= self.b + tol)
-        return np.all(points @ self.A.T <= self.b + tol, axis=1)
+            return np.all(self.A @ points <= b)
+        return np.all(points @ self.A.T <= b, axis=1)
 
     def must_contain(self, points, scale=1.0):
         if points.ndim == 1:
-- 
2.43.0


From ac3179a4dd7a54a3eef82910ac1a4779bb700fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 20/45] fix: inverse transformation matrix in dimensions other
 than three

---
 src/rigeo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/util.py b/src/rigeo/util.py
index 912fd4f..7489694 100644
--- a/src/rigeo/util.py
+++ b/src/rigeo/util.py
@@ -209,7 +209,7 @@ def transform_matrix_inv(rotation=None, translation=None, dim=3):
     translation."""
     rotation, translation = clean_transform(rotation, translation, dim=dim)
     return transform_matrix(
-        rotation=rotation.T, translation=-rotation.T @ translation
+        rotation=rotation.T, translation=-rotation.T @ translation, dim=dim
     )
 
 
-- 
2.43.0


From 9966d5e977818e598faae1737f3aaca8d1288faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 21/45] fix: translate the apex of a cone given by rays only

---
 src/rigeo/polydd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 5b2adbc..10268d7 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -163,6 +163,9 @@ class SpanForm:
         rays = None
         if self.vertices is not None:
             vertices = (rotation @ self.vertices.T).T + translation
+        elif np.any(translation):
+            # a cone spanned by rays only has its apex at the origin
+            vertices = np.array([translation])
         if self.rays is not None:
             # rays are directions, so they do not translate
             rays = (rotation @ self.rays.T).T
-- 
2.43.0


From 1f520ccff17c93157706a42126b78b2b83216534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 22/45] fix: face forms consisting of equalities only, or of no
 faces

---
 src/rigeo/polydd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 10268d7..9590d18 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -201,13 +201,15 @@ class FaceForm:
             The CDD matrix representing the polyhedron.
         """
         M = np.array([mat[i] for i in range(mat.row_size)])
+        M = M.reshape(mat.row_size, mat.col_size)
         b = M[:, 0]
         A = -M[:, 1:]
 
         ineq_idx = np.array(
-            [idx for idx in range(mat.row_size) if idx not in mat.lin_set]
+            [idx for idx in range(mat.row_size) if idx not in mat.lin_set],
+            dtype=int,
         )
-        eq_idx = np.array([idx for idx in mat.lin_set])
+        eq_idx = np.array([idx for idx in mat.lin_set], dtype=int)
 
         return cls(
             A_ineq=A[ineq_idx, :],
-- 
2.43.0


From 1fbe053c07ba39c34559912ab663b12ee4af2e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 23/45] fix: recognise cones whose span form lists vertices

---
 src/rigeo/polydd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 9590d18..1a46398 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -104,7 +104,14 @@ class SpanForm:
         : bool
             ``True`` if the polyhedron is a cone, ``False`` otherwise.
         """
-        return self.rays is not None and self.vertices is None
+        if self.vertices is None:
+            return self.rays is not None
+
+        # with vertices present, the polyhedron is a cone exactly when each of
+        # its faces passes through the origin
+        face_form = self.to_face_form()
+        faces = np.any(face_form.A != 0, axis=1)
+        return bool(np.allclose(face_form.b[faces], 0))
 
     def to_cdd_matrix(self):
         """Convert to a CDD matrix.
-- 
2.43.0


From 7ed14113f92dd3403355b0ce759f2314e48a828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 24/45] fix: zero rays do not make a polyhedron unbounded

---
 src/rigeo/polydd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 1a46398..66eadb2 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -91,7 +91,9 @@ class SpanForm:
         -------
         : bool
             ``True`` if the polyhedron is bounded, ``False`` otherwise."""
-        return self.rays is None and self.vertices is not None
+        return self.vertices is not None and (
+            self.rays is None or not np.any(self.rays)
+        )
 
     def is_cone(self):
         """Check if the polyhedron is a cone.
-- 
2.43.0


From c3613d9c7739a3bd07f4c1d538ae4ee5e0af0fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:27 +0000
Subject: [PATCH 25/45] fix: FaceForm of the whole space (no faces) could not
 be canonicalised or converted to span form

---
 src/rigeo/polydd.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 66eadb2..2f3ea1e 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -259,6 +259,10 @@ class FaceForm:
         : FaceForm
             A canonicalized version of the face form.
         """
+        if self.nf == 0:
+            # the whole space has no faces, which cdd does not support
+            return FaceForm(A_ineq=np.copy(self.A), b_ineq=np.copy(self.b))
+
         mat = self.to_cdd_matrix()
         mat.canonicalize()
         return FaceForm.from_cdd_matrix(mat)
@@ -290,6 +294,12 @@ class FaceForm:
         : SpanForm
             The equivalent span form of the polyhedron.
         """
+        if self.nf == 0:
+            # no faces: the whole space
+            return SpanForm(
+                vertices=np.zeros((1, self.dim)), span=np.eye(self.dim)
+            )
+
         Fmat = self.to_cdd_matrix()
         poly = cdd.Polyhedron(Fmat)
         Smat = poly.get_generators()
-- 
2.43.0


From 4db461d02ab48602fc92b85bf63c368a81058a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 26/45] fix: polyhedron conversions and intersections wrong
 when the face normals are badly scaled

---
 src/rigeo/polydd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 2f3ea1e..152bbe5 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -245,8 +245,12 @@ class FaceForm:
         : cdd.Matrix
             A CDD matrix representing the polyhedron.
         """
+        # cdd uses absolute tolerances, so scale the faces to unit normals
+        scale = np.linalg.norm(self.A, axis=1)
+        scale = np.where(scale > 0, scale, 1.0)
+
         # face form is Ax <= b, which cdd stores as one matrix [b -A]
-        F = np.hstack((self.b[:, None], -self.A))
+        F = np.hstack((self.b[:, None], -self.A)) / scale[:, None]
         Fmat = cdd.Matrix(F)
         Fmat.rep_type = cdd.RepType.INEQUALITY
         return Fmat
-- 
2.43.0


From 030e3631304cd3649897736bf14729f8cd9d68d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:39 +0000
Subject: [PATCH 27/45] fix: sample flat ellipsoids uniformly (flattening a
 full-dimensional ball is not uniform)

---
 src/rigeo/shape/ellipsoid.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 19aac39..778cb75 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -469,9 +469,14 @@ class Ellipsoid(Shape):
         """
         # uniformly sample points in the unit ball then affinely transform them
         # into the ellipsoid
-        X = random_points_in_ball(shape=shape, dim=self.dim, rng=rng)
-        Ainv = self.rotation @ np.diag(self.half_extents) @ self.rotation.T
-        return X @ Ainv + self.center
+        # NOTE the ball has only as many dimensions as the ellipsoid has non-zero
+        # half extents: flattening a full-dimensional ball is not uniform
+        nz = self.half_extents > 0
+        if not np.any(nz):
+            nz[0] = True
+        X = random_points_in_ball(shape=shape, dim=np.count_nonzero(nz), rng=rng)
+        A = self.rotation[:, nz] * self.half_extents[nz]
+        return X @ A.T + self.center
 
     def random_points_on_surface(self, shape=1, rng=None):
         """Uniformly sample points on the surface of the ellipsoid.
-- 
2.43.0


From 7b86d196f9f0225cdd7e2b680a1b6d79f3b2f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 28/45] fix: bounding ellipsoid of a flat box is minimal in the
 space the box spans

---
 src/rigeo/shape/box.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index 35e173d..c439cf3 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -332,7 +332,9 @@ class Box(ConvexPolyhedron):
     def mbe(self, rcond=None, sphere=False, solver=None):
         from .ellipsoid import Ellipsoid
 
-        half_extents = self.half_extents * np.sqrt(3)  # TODO check this
+        # flat boxes are bounded within the lower-dimensional space they span
+        rank = np.count_nonzero(self.half_extents)
+        half_extents = self.half_extents * np.sqrt(rank)
         if sphere:
             radius = np.linalg.norm(self.half_extents)
             return Ellipsoid.sphere(radius=radius, center=self.center)
-- 
2.43.0


From 27b2752eeadc4964941743bcc2276fa42d50a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 29/45] fix: a single random point of a one-dimensional
 polytope or ellipsoid surface is an array

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 src/rigeo/shape/poly.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 778cb75..ae257f0 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -525,7 +525,7 @@ class Ellipsoid(Shape):
 
         # reshape to desired shape
         if shape == (1,):
-            return np.squeeze(points)
+            return points[0]
         return points.reshape(shape + (self.dim,))
 
     def transform(self, rotation=None, translation=None):
diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 6d9e552..16fe47c 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -189,7 +189,7 @@ class ConvexPolyhedron(Shape):
         w = random_weight_vectors(full_shape, rng=rng)
         points = w @ self.vertices
         if shape == (1,):
-            return np.squeeze(points)
+            return points[0]
         return points
 
     def aabb(self):
-- 
2.43.0


From 511215f677265464c3be14dfdcdc77e0cb7b13e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:14 +0000
Subject: [PATCH 30/45] fix: the inscribed box of a flat ellipsoid is the
 largest in the space it spans

---
 src/rigeo/shape/ellipsoid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index ae257f0..94a4c39 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -449,8 +449,9 @@ class Ellipsoid(Shape):
         """Maximum-volume inscribed box."""
         from .box import Box
 
+        # flat ellipsoids inscribe a box in the lower-dimensional space they span
         return Box(
-            half_extents=self.half_extents / np.sqrt(3),
+            half_extents=self.half_extents / np.sqrt(max(self.rank, 1)),
             center=self.center,
             rotation=self.rotation,
         )
-- 
2.43.0


From 467f3f1cc60176a6167b01a3cabab66eb4637cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:47 +0000
Subject: [PATCH 31/45] fix: ellipsoids refuse points of another dimension

---
 src/rigeo/shape/ellipsoid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 94a4c39..3c63dbf 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -282,6 +282,7 @@ class Ellipsoid(Shape):
         ndim = points.ndim
         assert ndim <= 2, f"points array must have at most 2 dims, but has {ndim}."
         points = np.atleast_2d(points)
+        assert points.shape[1] == self.dim
 
         z = np.isclose(self.half_extents, 0)
         nz = ~z
@@ -330,6 +331,7 @@ class Ellipsoid(Shape):
         ndim = points.ndim
         assert ndim <= 2, f"points array must have at most 2 dims, but has {ndim}."
         points = np.atleast_2d(points)
+        assert points.shape[1] == self.dim
 
         s = self.half_extents_inv ** 2
 
-- 
2.43.0


From 60d3a80284c11baefe6cbaf51ccd45a577a4aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:47 +0000
Subject: [PATCH 32/45] fix: polyhedra refuse point arrays with more than two
 dimensions

---
 src/rigeo/shape/poly.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 16fe47c..61174f3 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -160,6 +160,7 @@ class ConvexPolyhedron(Shape):
 
     def contains(self, points, tol=1e-8):
         points = np.array(points)
+        assert points.ndim <= 2
         # the tolerance is a distance, regardless of the scaling of the faces
         b = self.b + tol * np.linalg.norm(self.A, axis=1)
         if points.ndim == 1:
-- 
2.43.0


From c0e206129e563ae6c3baf07835bf5abd6e0bf8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:47 +0000
Subject: [PATCH 33/45] fix: inertial parameters refuse moments and
 translations of the wrong size

---
 src/rigeo/inertial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rigeo/inertial.py b/src/rigeo/inertial.py
index 2cf7537..b97d219 100644
--- a/src/rigeo/inertial.py
+++ b/src/rigeo/inertial.py
@@ -52,6 +52,7 @@ class InertialParameters:
                 com = np.zeros(3)
             else:
                 com = h / mass
+        assert np.shape(com) == (3,)
         self.com = com
 
         if H is not None and I is not None:
@@ -64,6 +65,7 @@ class InertialParameters:
                     H = mass * np.outer(com, com)
             else:
                 H = I2H(I)
+        assert np.shape(H) == (3, 3)
 
         # translate the second moment matrix from CoM reference point to the
         # origin
@@ -231,6 +233,7 @@ class InertialParameters:
             rotation = np.eye(3)
         if translation is None:
             translation = np.zeros(3)
+        assert np.shape(translation) == (3,)
 
         # this is equivalent to computing T @ J @ T.T, where T is homeogeneous
         # transformation matrix representing the transform and J is the
-- 
2.43.0


From 805ad6f56091c56157639c9c7fb5cd40baab5bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:47 +0000
Subject: [PATCH 34/45] fix: polyhedral forms refuse parts of different sizes

---
 src/rigeo/polydd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 152bbe5..4da8dc3 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -31,6 +31,9 @@ class SpanForm:
             else:
                 self.rays = np.vstack((self.rays, span_rays))
 
+        if self.vertices is not None and self.rays is not None:
+            assert self.vertices.shape[1] == self.rays.shape[1]
+
     def __repr__(self):
         return f"SpanForm(vertices={self.vertices}, rays={self.rays})"
 
@@ -196,6 +199,7 @@ class FaceForm:
         else:
             self.A = A_ineq
             self.b = b_ineq
+        assert len(self.A) == len(self.b)
 
     def __repr__(self):
         return f"FaceForm(A={self.A}, b={self.b})"
-- 
2.43.0


From 3cc84ad11879b0505f935fdb0f4da9801d6b71f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:52 +0000
Subject: [PATCH 35/45] fix: ellipsoids refuse a matrix of half extents

---
 src/rigeo/shape/ellipsoid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 3c63dbf..2a214f0 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -65,6 +65,7 @@ class Ellipsoid(Shape):
         if np.isscalar(half_extents):
             half_extents = [half_extents]
         self.half_extents = np.array(half_extents)
+        assert self.half_extents.ndim == 1
 
         assert np.all(
             self.half_extents >= 0
-- 
2.43.0


From e8f4c0b89df0f0f2d3ee36f07f551f48cadc2967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:37 +0000
Subject: [PATCH 36/45] fix: boxes refuse infinite sizes and vertices of
 different dimensions

---
 src/rigeo/shape/box.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index c439cf3..bef5208 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -57,6 +57,7 @@ class Box(ConvexPolyhedron):
         self.half_extents = np.array(half_extents)
         assert self.half_extents.shape == (3,)
         assert np.all(self.half_extents >= 0)
+        assert np.all(np.isfinite(self.half_extents))
 
         self.rotation, self.center = clean_transform(
             rotation=rotation, translation=center
@@ -94,6 +95,7 @@ class Box(ConvexPolyhedron):
         """Construct an axis-aligned box from two opposed vertices."""
         v1 = np.array(v1)
         v2 = np.array(v2)
+        assert v1.shape == v2.shape
         center = 0.5 * (v1 + v2)
         half_extents = 0.5 * (np.maximum(v1, v2) - np.minimum(v1, v2))
         return cls(half_extents, center=center)
-- 
2.43.0


From 8ca63035c9d2e73a5ff56f2dd5580675cd8427f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:37 +0000
Subject: [PATCH 37/45] fix: polynomials refuse points and terms of another
 dimension

---
 src/rigeo/moment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/moment.py b/src/rigeo/moment.py
index eb9f9ab..f91ecff 100644
--- a/src/rigeo/moment.py
+++ b/src/rigeo/moment.py
@@ -52,6 +52,7 @@ class Polynomial:
             # get rid of coefficients near zero
             if not np.isclose(coeff, 0, rtol=0, atol=tol):
                 self.coefficients[key] = coeff
+        assert len({len(idx.value) for idx in self.coefficients}) <= 1
 
     @classmethod
     def zeros(cls):
@@ -113,7 +114,8 @@ class Polynomial:
 
     def evaluate(self, x):
         """Evaluate the polynomial at point x."""
-        x = np.asarray(x)
+        x = np.atleast_1d(x)
+        assert all(len(idx.value) == len(x) for idx in self.coefficients)
         return np.sum(
             [
                 coeff * np.prod(x**idx.value)
-- 
2.43.0


From 38b1f8c274b1666eada0b35dbba597c66f4794e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 38/45] fix: check the rotation and translation given to
 SpanForm.transform and FaceForm.transform

A translation of size one was broadcast over all coordinates and a
non-square rotation or a matrix translation was answered with a form of
another dimension.
---
 src/rigeo/polydd.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 4da8dc3..452a79c 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -2,6 +2,8 @@
 import numpy as np
 import cdd
 
+from .util import clean_transform
+
 
 class SpanForm:
     """Span form (V-rep) of a convex polyhedron.
@@ -166,10 +168,9 @@ class SpanForm:
         return FaceForm.from_cdd_matrix(Fmat)
 
     def transform(self, rotation=None, translation=None):
-        if rotation is None:
-            rotation = np.eye(self.dim)
-        if translation is None:
-            translation = np.zeros(self.dim)
+        rotation, translation = clean_transform(
+            rotation=rotation, translation=translation, dim=self.dim
+        )
 
         vertices = None
         rays = None
@@ -314,10 +315,9 @@ class FaceForm:
         return SpanForm.from_cdd_matrix(Smat)
 
     def transform(self, rotation=None, translation=None):
-        if rotation is None:
-            rotation = np.eye(self.dim)
-        if translation is None:
-            translation = np.zeros(self.dim)
+        rotation, translation = clean_transform(
+            rotation=rotation, translation=translation, dim=self.dim
+        )
 
         A = self.A @ rotation.T
         b = self.b + A @ translation
-- 
2.43.0


From af95038c8c439655fea4fc5c3224e54a39624938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 39/45] fix: require equal dimensions and matching rows in the
 extremal ellipsoid problems

mbe_of_ellipsoids answered for ellipsoids of different dimensions and
mie_inequality_form silently ignored rows of A beyond the length of b.
---
 src/rigeo/shape/ellipsoid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 2a214f0..e52d662 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -673,6 +673,7 @@ def mbe_of_ellipsoids(ellipsoids, sphere=False, solver=None):
     """
     n = len(ellipsoids)
     dim = ellipsoids[0].dim
+    assert all(E.dim == dim for E in ellipsoids)
 
     S = cp.Variable((dim, dim), PSD=True)  # = A^2
     d = cp.Variable(dim)  # = Ab
@@ -765,6 +766,7 @@ def mie_inequality_form(A, b, sphere=False, solver=None):
 
     dim = A.shape[1]
     n = b.shape[0]
+    assert A.shape[0] == n
 
     B = cp.Variable((dim, dim), PSD=True)
     c = cp.Variable(dim)
-- 
2.43.0


From 895fb6cd0d527ea69f7764689b711fbba6d79bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 40/45] fix: refuse matrix-valued and infinite simplex extents

---
 src/rigeo/shape/poly.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 61174f3..f42d327 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -119,7 +119,9 @@ class ConvexPolyhedron(Shape):
             The simplex.
         """
         extents = np.array(extents)
+        assert extents.ndim == 1
         assert np.all(extents > 0), "Simplex extents must be positive."
+        assert np.all(np.isfinite(extents)), "Simplex extents must be finite."
 
         dim = extents.shape[0]
         vertices = np.vstack((np.zeros(dim), np.diag(extents)))
-- 
2.43.0


From c97dd9314ff6e969b37da8e5439f14b00116081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 41/45] fix: require one measured wrench per regressor in
 validation_rmse

A single wrench was broadcast over all regressors.
---
 src/rigeo/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rigeo/util.py b/src/rigeo/util.py
index 7489694..dc57752 100644
--- a/src/rigeo/util.py
+++ b/src/rigeo/util.py
@@ -170,6 +170,7 @@ def validation_rmse(Ys, ws, θ, W=None):
     """Compute root mean square wrench error on a validation set."""
     if W is None:
         W = np.eye(6)
+    assert np.shape(Ys)[:-1] == np.shape(ws)
     error = Ys @ θ - ws
     # square = np.sum(error @ W * error, axis=1)
     square = np.sum(error**2, axis=1)
-- 
2.43.0


From 12ab59d746ea8b3f47e5814778436870ea6257c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:42 +0000
Subject: [PATCH 42/45] fix: an ellipsoid's rank agrees with which half extents
 can be inverted

Half extents up to 1e-8 were treated as zero by the shape matrix and
containment but as non-zero by rank and is_degenerate, so realizability
of such ellipsoids failed with an assertion or a solver error.
---
 src/rigeo/shape/ellipsoid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index e52d662..583fa11 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -106,7 +106,8 @@ class Ellipsoid(Shape):
 
     @property
     def rank(self):
-        return np.count_nonzero(self.half_extents)
+        # half extents too small to be inverted count as zero
+        return np.count_nonzero(np.isfinite(self.half_extents_inv))
 
     @property
     def volume(self):
-- 
2.43.0


From ddc987839b4df6ee5a9e7064f5b9c3d5ac4330d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:22 +0000
Subject: [PATCH 43/45] fix: solve for the bounding ellipsoid of points at unit
 scale

---
 src/rigeo/shape/ellipsoid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 583fa11..4cc2836 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -726,6 +726,10 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     # lower-dimensional subspace than R^d
     P = (points - r) @ R
 
+    # normalize so that the solver's accuracy does not depend on the units
+    scale = np.max(np.abs(P), initial=0) or 1.0
+    P = P / scale
+
     # ellipsoid is parameterized as ||Ax + b|| <= 1 for the opt problem
     A = cp.Variable((rank, rank), PSD=True)
     b = cp.Variable(rank)
@@ -743,13 +747,13 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     eigs, V = np.linalg.eigh(A.value)
     half_extents = np.zeros(points.shape[1])
     nz = np.nonzero(eigs)
-    half_extents[nz] = 1.0 / eigs[nz]
+    half_extents[nz] = scale / eigs[nz]
 
     N = null_space((R @ V).T, rcond=rcond)
     rotation = np.hstack((R @ V, N))
     # if np.linalg.det(rotation) < 0:
     #     rotation = -rotation  # TODO
-    center = R @ np.linalg.lstsq(A.value, -b.value, rcond=rcond)[0] + r
+    center = scale * R @ np.linalg.lstsq(A.value, -b.value, rcond=rcond)[0] + r
 
     return Ellipsoid(
         half_extents=half_extents, rotation=rotation, center=center
-- 
2.43.0


From 799f30bb53a43039606847c339d84218bfd7ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:51 +0000
Subject: [PATCH 44/45] fix: solve for the bounding ellipsoid of ellipsoids at
 unit scale

---
 src/rigeo/shape/ellipsoid.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 4cc2836..a80d963 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -676,13 +676,28 @@ def mbe_of_ellipsoids(ellipsoids, sphere=False, solver=None):
     dim = ellipsoids[0].dim
     assert all(E.dim == dim for E in ellipsoids)
 
+    # normalize so that the solver's accuracy does not depend on the units
+    origin = np.mean([E.center for E in ellipsoids], axis=0)
+    scale = max(
+        np.linalg.norm(E.center - origin) + np.max(E.half_extents)
+        for E in ellipsoids
+    )
+    normalized = [
+        Ellipsoid(
+            half_extents=E.half_extents / scale,
+            rotation=E.rotation,
+            center=(E.center - origin) / scale,
+        )
+        for E in ellipsoids
+    ]
+
     S = cp.Variable((dim, dim), PSD=True)  # = A^2
     d = cp.Variable(dim)  # = Ab
     ts = cp.Variable(n)
 
     objective = cp.Minimize(-cp.log_det(S))
     constraints = [ts >= 0] + [
-        _mbee_con_mat(S, d, E, ti) << 0 for E, ti in zip(ellipsoids, ts)
+        _mbee_con_mat(S, d, E, ti) << 0 for E, ti in zip(normalized, ts)
     ]
     if sphere:
         # if we want a sphere, then S is a multiple of the identity matrix
@@ -692,7 +707,12 @@ def mbe_of_ellipsoids(ellipsoids, sphere=False, solver=None):
     problem.solve(solver=solver)
 
     center = np.linalg.solve(S.value, -d.value)
-    return Ellipsoid.from_shape_matrix(S.value, center=center)
+    bound = Ellipsoid.from_shape_matrix(S.value, center=center)
+    return Ellipsoid(
+        half_extents=scale * bound.half_extents,
+        rotation=bound.rotation,
+        center=scale * center + origin,
+    )
 
 
 def mbe_of_points(points, rcond=None, sphere=False, solver=None):
-- 
2.43.0


From 464e9554b970340b9e66a189351ff1b5c0b1749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:36 +0000
Subject: [PATCH 45/45] fix: solve for the inscribed ellipsoid at unit scale

---
 src/rigeo/shape/ellipsoid.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index a80d963..0f2e29a 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -793,6 +793,10 @@ def mie_inequality_form(A, b, sphere=False, solver=None):
     n = b.shape[0]
     assert A.shape[0] == n
 
+    # normalize so that the solver's accuracy does not depend on the units
+    scale = np.max(np.abs(b)) / np.max(np.linalg.norm(A, axis=1)) or 1.0
+    b = b / scale
+
     B = cp.Variable((dim, dim), PSD=True)
     c = cp.Variable(dim)
 
@@ -808,6 +812,11 @@ def mie_inequality_form(A, b, sphere=False, solver=None):
     problem.solve(solver=solver)
 
     E = B.value @ B.value
-    return Ellipsoid.from_shape_matrix(S=np.linalg.inv(E), center=c.value)
+    inscribed = Ellipsoid.from_shape_matrix(S=np.linalg.inv(E))
+    return Ellipsoid(
+        half_extents=scale * inscribed.half_extents,
+        rotation=inscribed.rotation,
+        center=scale * c.value,
+    )
 
 
-- 
2.43.0

