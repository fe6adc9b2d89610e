From 21568973e53ecc8a2a8053c7294c341008581004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 01/29] fix: rays tilted by less than 1e-4 rad from a cylinder
 or paraboloid axis miss the surface

---
 tinygfx/g3d/operations.py | 15 +++++++++++----
 tinygfx/g3d/primitives.py | 15 +++------------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index 9eb7a35..7bf4a9c 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -39,14 +39,21 @@ def binomial_root(a, b, c, disc=None):
     disc = (
         b ** 2 - 4 * a * c if disc is None else disc
     )  # find the discriminant, or use the provided one
-    # linear cases are where there's no expontential term, have to be handled separately
-    linear_cases = np.isclose(a, 0)
+    # linear cases are where there's no expontential term, have to be handled separately. A small but nonzero term is
+    # not linear: for a ray it's the squared tilt from an axis, and dropping it loses one of the two intersections
+    linear_cases = np.abs(a) < 1e-30
     root = np.sqrt(
         np.maximum(0, disc)
     )  # the square root of the discriminant protected from being nan
 
-    # solve for the polynomial roots
-    polyroots = np.vstack(((-b + root), (-b - root))) / (2 * a + np.isclose(a, 0))
+    # solve for the polynomial roots, the half-sum is arranged so that it never subtracts two almost equal numbers
+    half_sum = -0.5 * (b + np.where(np.asarray(b) < 0, -root, root))
+    polyroots = np.vstack(
+        (
+            half_sum / (a + linear_cases),
+            np.where(half_sum == 0, 0, c / (half_sum + (half_sum == 0))),
+        )
+    )
     # Now correct for the cases that should be infinite
     polyroots = np.where(disc >= 0, polyroots, np.inf)
 
diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index ef28092..743e913 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -341,18 +341,9 @@ class Paraboloid(SurfacePrimitive):
         )
 
         # calculate the binomial roots of the function
-        disc = b ** 2 - 4 * a * c  # the discriminant of the sqrt in the roots equation
-        # linear cases are where there's no expontential term, have to be handled separately
-        linear_cases = np.isclose(a, 0)
-        root = np.sqrt(
-            np.maximum(0, disc)
-        )  # the square root of the discriminant protected from being nan
-
-        # solve for the polynomial roots
-        parabola_hits = np.vstack(((-b + root), (-b - root))) / (2 * a + linear_cases)
-
-        # Now correct for the cases that should be infinite (no intersection)
-        parabola_hits = np.where(disc >= 0, parabola_hits, np.inf)
+        parabola_hits = binomial_root(a, b, c)
+        # linear cases are rays parallel to the axis, they have no exponential term and are handled separately
+        linear_cases = np.abs(a) < 1e-30
 
         # update for the linear roots case
         # for linear cases, the second intersection should be +inf if the ray is traveling in the positive z direction
-- 
2.43.0


From 23d00662ee739163a13b20766e5bc5c463072423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 02/29] fix: smallest_positive_root returns the wrong root for
 a negative leading coefficient

---
 tinygfx/g3d/operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index 7bf4a9c..6267abe 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -20,8 +20,8 @@ def smallest_positive_root(a, b, c):
         2 * a + np.isclose(a, 0)
     )  # the positive element of the polynomial root
 
-    # want to keep the smallest hit that is positive, so if hits[1]<0, just keep the positive hit
-    nearest_hit = np.where(polyroots[1] >= 0, np.amin(polyroots, axis=0), polyroots[0])
+    # want to keep the smallest hit that is positive, either root can be the larger one depending on the sign of a
+    nearest_hit = np.amin(np.where(polyroots >= 0, polyroots, np.inf), axis=0)
     return np.where(np.logical_and(disc >= 0, nearest_hit >= 0), nearest_hit, np.inf)
 
 
-- 
2.43.0


From e214f525512b7b941dba325b5d77a944ac5f13b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 03/29] fix: rays below the intensity threshold are never
 removed from the simulation

---
 pyrayt/_pyrayt.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 8005f85..8ea202d 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -414,9 +414,7 @@ class RayTracer(object):
         # (no intersection)
         absorbed_rays = np.isclose(np.linalg.norm(self._ray_set.rays[1], axis=0), 0)
         powerless_rays = self._ray_set.intensity < self.ray_intensity_threshold
-        dead_rays = np.logical_or(
-            absorbed_rays, self._hit_surfaces == -1, powerless_rays
-        )
+        dead_rays = absorbed_rays | (self._hit_surfaces == -1) | powerless_rays
         living_rays = np.logical_not(dead_rays)  # living rays aren't dead...
         # increment the generation number
 
-- 
2.43.0


From 4ed4a61a899d19ae025f04dc86270e11098eb3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:59 +0000
Subject: [PATCH 04/29] fix: RayTracer ignores the materials of components
 loaded after it was created

---
 pyrayt/_pyrayt.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 8ea202d..3428d5e 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -253,11 +253,7 @@ class RayTracer(object):
 
         self._ray_set = RaySet(0)
         self._next_ray_set = RaySet(0)
-
-        # make a flattened list of all surface IDS
         self._surface_lut = tuple()
-        for shape in self._components:
-            self._surface_lut += shape.surface_ids
 
     def reset(self):
         """
@@ -356,6 +352,11 @@ class RayTracer(object):
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
 
+        # make a flattened list of all surface IDS, the components might have changed since the last trace
+        self._surface_lut = tuple()
+        for shape in self._components:
+            self._surface_lut += shape.surface_ids
+
         # make a ray set from the concatenated ray sets returned by the sources
         self._ray_set = np.hstack(
             [source.generate_rays(self._rays_per_source) for source in self._sources]
-- 
2.43.0


From c95520a174e0c6836f02a8794e10546a7dac4906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 05/29] fix: RayTracer.get_system raises AttributeError

---
 pyrayt/_pyrayt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 3428d5e..778bcc2 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -320,7 +320,7 @@ class RayTracer(object):
         :return: List[tinygfx.g3d.world_objects.Intersectable]
         """
 
-        return self._system
+        return self._components
 
     def trace(self):
         self._state = RayTracer._States.INITIALIZE  # kick off the state machine
-- 
2.43.0


From 1c496c94f4218a9818fee8f9d4cc9bef32d62b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 06/29] fix: source ids are wrong if the rays per source are
 changed after a trace

---
 pyrayt/_pyrayt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 778bcc2..f783722 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -239,6 +239,7 @@ class RayTracer(object):
             self._components = components
 
         self._rays_per_source = rays_per_source
+        self._traced_rays_per_source = rays_per_source  # the value of the last trace
         self._generation_limit = (
             generation_limit  # how many reflections/refractions a ray can encounter
         )
@@ -346,7 +347,7 @@ class RayTracer(object):
         """
         Calculates the Source ID for every ray in the dataframe, adding it as a column
         """
-        ids = (self._frame.data["id"] / self._rays_per_source).astype(int)
+        ids = (self._frame.data["id"] / self._traced_rays_per_source).astype(int)
         self._frame.data["source_id"] = ids
 
     def _st_initialize(self):
@@ -358,6 +359,7 @@ class RayTracer(object):
             self._surface_lut += shape.surface_ids
 
         # make a ray set from the concatenated ray sets returned by the sources
+        self._traced_rays_per_source = self._rays_per_source
         self._ray_set = np.hstack(
             [source.generate_rays(self._rays_per_source) for source in self._sources]
         ).view(RaySet)
@@ -484,8 +486,8 @@ class RayTracer(object):
             for n, this_color in enumerate(colors):
                 color = np.where(
                     np.logical_and(
-                        self._frame.data["id"] >= n * self._rays_per_source,
-                        self._frame.data["id"] < (n + 1) * self._rays_per_source,
+                        self._frame.data["id"] >= n * self._traced_rays_per_source,
+                        self._frame.data["id"] < (n + 1) * self._traced_rays_per_source,
                     ),
                     np.atleast_2d(this_color).T,
                     color,
-- 
2.43.0


From bf918d19243d94e04a042be0b5d1874deb6c14a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 07/29] fix: components with an elliptical aperture cannot be
 created

---
 pyrayt/components.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index e7d950d..9ad3da2 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -42,12 +42,11 @@ def _create_aperture(aperture: Union[float, tuple], thickness):
 
     elif aperture[0] < 0 and aperture[1] < 0:
         # if two values were passed it's elliptical
-        aperture = cg.Cylinder(
+        return cg.Cylinder(
             radius=np.abs(aperture[0]) / 2,
             min_height=-thickness / 2,
             max_height=thickness / 2,
-        )
-        aperture.scale_y(aperture[1] / aperture[0])
+        ).scale_y(aperture[1] / aperture[0])
 
     else:
         raise TypeError(f"Could not deduce an aperture from {aperture}")
@@ -372,7 +371,7 @@ def parabolic_mirror(focus: float, thickness: float, **kwargs) -> cg.csg.Interse
     if hasattr(aperture, "__len__"):
         # if it's a rectangular aperture the dl is the norm of he rectangle
         furthest_point = np.linalg.norm(
-            np.abs(np.asarray(off_axis)) + np.asarray(aperture) / 2
+            np.abs(np.asarray(off_axis)) + np.abs(np.asarray(aperture)) / 2
         )
     else:
         # otherwise if it's circular it's just the radius
-- 
2.43.0


From 45662533001bb8b5f3ed01ad9d4bf6800ad74fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:19 +0000
Subject: [PATCH 08/29] fix: biconvex_lens swaps its radii and fails for
 negative or infinite ones

---
 pyrayt/components.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 9ad3da2..dd5ab9e 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -181,17 +181,18 @@ def biconvex_lens(r1: float, r2: float, thickness: float, **kwargs) -> cg.Inters
 
     # create an aperture from the aperture arguments
     aperture_shape = _create_aperture(kwargs.get("aperture"), thickness)
-    left_side = cg.Sphere(r2).move_z(r1 - thickness / 2)
-    right_side = cg.Sphere(r1).move_z(-(r1 - thickness / 2))
-
-    # assign materials from the kwargs
     material = kwargs.get("material")
     aperture_shape.material = material
-    left_side.material = material
-    right_side.material = material
 
-    # perform csg to get the final lens
-    lens = cg.csg.intersect(cg.csg.intersect(left_side, right_side), aperture_shape)
+    # perform csg to get the final lens, an infinite radius leaves the planar surface of the aperture
+    lens = aperture_shape
+    r1, r2 = abs(r1), abs(r2)
+    if np.isfinite(r1):
+        left_side = cg.Sphere(r1, material=material).move_z(r1 - thickness / 2)
+        lens = cg.csg.intersect(left_side, lens)
+    if np.isfinite(r2):
+        right_side = cg.Sphere(r2, material=material).move_z(-(r2 - thickness / 2))
+        lens = cg.csg.intersect(right_side, lens)
 
     # now we need to rotate the lens so it's orientated in the YZ plane
     return lens
-- 
2.43.0


From b6c88794341d28fedef8eaf050bf236e1387cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 09/29] fix: plano_convex_lens fails for a negative or infinite
 radius

---
 pyrayt/components.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index dd5ab9e..5658e7f 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -214,16 +214,15 @@ def plano_convex_lens(r: float, thickness: float, **kwargs) -> cg.csg.Intersecta
     """
 
     # create an aperture from the aperture arguments
-    aperture = _create_aperture(kwargs.get("aperture"), thickness)
-    right_side = cg.Sphere(r).move_z(-(r - thickness / 2))
-
-    # assign materials from the kwargs
     material = kwargs.get("material")
-    aperture.material = material
-    right_side.material = material
+    lens = _create_aperture(kwargs.get("aperture"), thickness)
+    lens.material = material
 
-    # perform csg to get the final lens
-    lens = cg.csg.intersect(right_side, aperture)
+    # perform csg to get the final lens, an infinite radius leaves the planar surface of the aperture
+    r = abs(r)
+    if np.isfinite(r):
+        right_side = cg.Sphere(r, material=material).move_z(-(r - thickness / 2))
+        lens = cg.csg.intersect(right_side, lens)
 
     # now we need to rotate the lens so it's orientated in the YZ plane
     return lens
-- 
2.43.0


From 3ad92c4640025d052296660bc1826d3831ca5667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:24 +0000
Subject: [PATCH 10/29] fix: plane_mirror is not placed between x=-thickness
 and x=0 as documented

---
 pyrayt/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 5658e7f..15e5cfb 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -259,8 +259,8 @@ def plane_mirror(thickness: float, **kwargs) -> cg.Intersectable:
     """
     off_axis = kwargs.get("off_axis")
     mirror = _create_aperture(kwargs.get("aperture"), thickness).move(
-        *off_axis, 0
-    )  # move the mirror to it's off axis pt
+        *off_axis, -thickness / 2
+    )  # move the mirror to it's off axis pt, with the second surface at the origin
     mirror.material = kwargs.get("material")
     return mirror
 
-- 
2.43.0


From 55554df83536bcca749fd8a8d78be93ecffa01b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:27 +0000
Subject: [PATCH 11/29] fix: a rectangular plane_mirror with zero thickness is
 never hit

---
 tinygfx/g3d/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index 743e913..01f238f 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -566,7 +566,7 @@ class Cube(SurfacePrimitive):
         )  # second hit is the min value of the maximums
 
         # if the min is larger than the max the ray missed the cube and should be replaced with inf
-        cube_hits = np.where(cube_hits[0] < cube_hits[1], cube_hits, np.inf)
+        cube_hits = np.where(cube_hits[0] <= cube_hits[1], cube_hits, np.inf)
 
         # return the cube hits
         return cube_hits
-- 
2.43.0


From beff4dd7e6b960126e00fbec9ddf90975571fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 12/29] fix: spherical_mirror with an infinite radius is not a
 plane mirror

---
 pyrayt/components.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 15e5cfb..6ff3814 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -289,6 +289,11 @@ def spherical_mirror(radius: float, thickness: float, **kwargs) -> cg.Intersecta
     material = kwargs.get("material")
     aperture = kwargs.get("aperture")
 
+    if np.isinf(radius):
+        mirror = _create_aperture(aperture, thickness).move(*off_axis, -thickness / 2)
+        mirror.material = material
+        return mirror
+
     # need to calculate aperture thickness based on the off-axis value
     l = np.sqrt(off_axis[0] ** 2 + off_axis[1] ** 2)
     if hasattr(aperture, "__len__"):
-- 
2.43.0


From c703120c2006a15c9867538b87502334463c9543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:32 +0000
Subject: [PATCH 13/29] fix: csg operations lose the double hit of a plane when
 the sort swaps equal distances

---
 tinygfx/g3d/csg.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index 9dad29f..f98467d 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -28,13 +28,13 @@ def array_csg(
     if array1.ndim == 1:
         # if 1D arrays were passed, concatenate
         merged_array = np.concatenate((array1, array2))
-        merged_argsort = np.argsort(merged_array, axis=0)
+        merged_argsort = np.argsort(merged_array, axis=0, kind="stable")
         merged_array = merged_array[merged_argsort]
 
     else:
         # otherwise stack them where each column represents a unique ray's hits
         merged_array = np.vstack((array1, array2))
-        merged_argsort = np.argsort(merged_array, axis=0)
+        merged_argsort = np.argsort(merged_array, axis=0, kind="stable")
         merged_array = merged_array[merged_argsort, np.arange(merged_array.shape[-1])]
 
     if operation == Operation.UNION or operation == Operation.INTERSECT:
@@ -136,7 +136,9 @@ class CSGSurface(Intersectable):
 
         # build a mask to sort the surfaces
         csg_surfaces = np.vstack((l_surfaces, r_surfaces))
-        surface_sort_mask = np.argsort(np.vstack((l_hits, r_hits)), axis=0)
+        surface_sort_mask = np.argsort(
+            np.vstack((l_hits, r_hits)), axis=0, kind="stable"
+        )
         csg_surfaces = csg_surfaces[
             surface_sort_mask, np.arange(csg_surfaces.shape[-1])
         ]
@@ -144,7 +146,7 @@ class CSGSurface(Intersectable):
         csg_hits = array_csg(l_hits, r_hits, self._operation, sort_output=False)
 
         # sort the hits and the surface mask
-        hit_argsort = np.argsort(csg_hits, axis=0)
+        hit_argsort = np.argsort(csg_hits, axis=0, kind="stable")
         csg_surfaces = csg_surfaces[hit_argsort, np.arange(csg_surfaces.shape[-1])]
         csg_hits = csg_hits[hit_argsort, np.arange(csg_hits.shape[-1])]
 
-- 
2.43.0


From f3916f5dd8d41d57f26868964398d66761af8832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 14/29] fix: baffle and aperture reject circular sizes and swap
 the y and z side lengths

---
 pyrayt/components.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 6ff3814..56044b8 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -449,7 +449,20 @@ def baffle(aperture: Union[float, Tuple[float, float]]) -> cg.Intersectable:
     :return: a planar baffle centered at the origin, coplanar to the YZ Plane.
     """
 
-    return cg.XYPlane(aperture[0], aperture[1], material=matl.absorber).rotate_y(90)
+    return _create_baffle(aperture).rotate_y(90).rotate_x(90)
+
+
+def _create_baffle(aperture: Union[float, tuple]):
+    """Helper function to create an absorbing plane with the specified aperture, coplanar to the XY plane"""
+    width, length = np.abs(aperture) * np.ones(2)
+    plane = cg.XYPlane(width, length, material=matl.absorber)
+    if hasattr(aperture, "__len__") and aperture[0] > 0 and aperture[1] > 0:
+        return plane
+
+    # a circular or elliptical baffle is the part of the plane that's inside of the aperture
+    boundary = _create_aperture(aperture, thickness=0.1)
+    boundary.material = matl.absorber
+    return cg.csg.intersect(plane, boundary)
 
 
 def aperture(
@@ -466,7 +479,7 @@ def aperture(
     :rtype: cg.Intersectable
     """
 
-    aperture_stop = baffle(size).rotate_y(-90)
+    aperture_stop = _create_baffle(size)
     aperture = _create_aperture(aperture_size, thickness=0.1)
 
     return cg.csg.difference(aperture_stop, aperture).rotate_y(90).rotate_x(-90)
-- 
2.43.0


From 87d729d5d73d105cc8c8506120b8ab4f8aba3039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:53 +0000
Subject: [PATCH 15/29] fix: rays miss the second object of a union of disjoint
 objects

---
 tinygfx/g3d/csg.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index f98467d..bc60d0e 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -95,7 +95,18 @@ class CSGSurface(Intersectable):
         the bounding box is only updated for add and intersection operations
         :return:
         """
-        if self._operation != Operation.DIFFERENCE:
+        if self._operation == Operation.UNION:
+            # the children of a union don't have to overlap, so the box has to span both of them. An axis without a
+            # finite span belongs to an empty child
+            spans = np.stack(
+                (self._l_child.bounding_box.axis_spans, self._r_child.bounding_box.axis_spans)
+            )
+            max_corner = np.where(np.isfinite(spans[..., 1]), spans[..., 1], -np.inf)
+            local_aobb = primitives.Cube(
+                np.min(spans[..., 0], axis=0), np.max(max_corner, axis=0)
+            )
+
+        elif self._operation == Operation.INTERSECT:
             new_spans = array_csg(
                 self._l_child.bounding_box.axis_spans.T,
                 self._r_child.bounding_box.axis_spans.T,
-- 
2.43.0


From 0e9a5a8bc67a1f422e979a2cfb24e93790e93653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:55 +0000
Subject: [PATCH 16/29] fix: rays miss nested csg objects after they are moved
 because of stale bounding boxes

---
 tinygfx/g3d/csg.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index bc60d0e..6a863ec 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -126,6 +126,11 @@ class CSGSurface(Intersectable):
 
         self._aobb = local_aobb
 
+        # the bounding box of an enclosing csg surface depends on this one
+        parent = getattr(self, "_parent", None)
+        if isinstance(parent, CSGSurface):
+            parent._update_bounding_box()
+
     def intersect(self, rays):
         # steps for intersection
         # 1 check that the rays intersect the bounding box
@@ -190,6 +195,8 @@ class CSGSurface(Intersectable):
         super()._append_world_transform(new_transform)
         self._l_child.transform(new_transform)
         self._r_child.transform(new_transform)
+        # update once all children are in place
+        self._update_bounding_box()
 
 
 def union(s0: Intersectable, s1: Intersectable) -> CSGSurface:
-- 
2.43.0


From 334499ddc02b2566e54604c9c8a5f409964da8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 17/29] fix: normals point inwards after subtracting an object
 that is itself a difference

---
 tinygfx/g3d/csg.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index 6a863ec..a7efd39 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -179,11 +179,18 @@ class CSGSurface(Intersectable):
 
     def invert_normals(self):
         self._l_child.invert_normals()
-        self._r_child.invert_normals()
+        # the normals of a subtracted object are already inverted
+        if self._operation == Operation.DIFFERENCE:
+            self._r_child.reset_normals()
+        else:
+            self._r_child.invert_normals()
 
     def reset_normals(self):
         self._l_child.reset_normals()
-        self._r_child.reset_normals()
+        if self._operation == Operation.DIFFERENCE:
+            self._r_child.invert_normals()
+        else:
+            self._r_child.reset_normals()
 
     @property
     def surface_ids(self) -> tuple:
-- 
2.43.0


From 1146cd91c9bcf7d7f536833a1d3b6ec7b1d3badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 18/29] fix: draw places the camera inside of or behind the
 surfaces it is meant to show

---
 tinygfx/g3d/renderers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index c623919..1438acb 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -284,7 +284,10 @@ def draw(
 
 def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
-    camera_origin[2] = 1.5 * maxes[2]
+    # the camera looks towards -z, so it has to be above every surface
+    camera_origin[2] = 1 + np.max(
+        [surface.bounding_volume.bounding_points[2] for surface in surfaces]
+    )
     h_span, v_span = 1.5 * (maxes[:2] - mins[:2])  # the camera spans
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
@@ -318,7 +321,10 @@ def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
 
 def _draw_xz(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
-    camera_origin[1] = 1.5 * maxes[1]
+    # the camera looks towards +y, so it has to be below every surface
+    camera_origin[1] = -1 + np.min(
+        [surface.bounding_volume.bounding_points[1] for surface in surfaces]
+    )
     h_span, v_span = 1.5 * (maxes[[0, 2]] - mins[[0, 2]])  # the camera spans
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
-- 
2.43.0


From 4e179d19ba7ae4c9fc9d27690f8538f88d6a7b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 19/29] fix: renderers show surfaces that are behind the camera

---
 tinygfx/g3d/renderers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index 1438acb..28b5e3c 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -78,9 +78,9 @@ class EdgeRender(object):
         ray_hit_index = np.arange(self._rays.shape[-1])
         for n, shape in enumerate(self._shapes):
             shape_hits, shape_surfaces = shape.intersect(self._rays)
-            nearest_hit_arg = np.argmin(
-                np.where(shape_hits > 0, shape_hits, np.inf), axis=0
-            )
+            # eliminate any negative hits, they are behind the camera
+            shape_hits = np.where(shape_hits > 0, shape_hits, np.inf)
+            nearest_hit_arg = np.argmin(shape_hits, axis=0)
             nearest_hit = shape_hits[nearest_hit_arg, ray_hit_index]
             nearest_surface = shape_surfaces[nearest_hit_arg, ray_hit_index]
             new_minima = nearest_hit < hit_distances
@@ -194,9 +194,9 @@ class ShadedRenderer:
         ray_hit_index = np.arange(self._rays.shape[-1])
         for n, shape in enumerate(self._shapes):
             shape_hits, shape_surfaces = shape.intersect(self._rays)
-            nearest_hit_arg = np.argmin(
-                np.where(shape_hits > 0, shape_hits, np.inf), axis=0
-            )
+            # eliminate any negative hits, they are behind the camera
+            shape_hits = np.where(shape_hits > 0, shape_hits, np.inf)
+            nearest_hit_arg = np.argmin(shape_hits, axis=0)
             nearest_hit = shape_hits[nearest_hit_arg, ray_hit_index]
             nearest_surface = shape_surfaces[nearest_hit_arg, ray_hit_index]
             new_minima = nearest_hit < hit_distances
-- 
2.43.0


From 7c335f27657040046b8eac33a22c55e57aa9e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 20/29] fix: drawing a component that is thinner than one pixel
 crashes

---
 tinygfx/g3d/renderers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index 28b5e3c..8c007d9 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -282,13 +282,19 @@ def draw(
         _draw_xz(surfaces, axis, shaded, resolution, maxes, mins)
 
 
+def _camera_spans(sizes, resolution):
+    spans = 1.5 * sizes
+    # keep a thin object at least one pixel wide
+    return np.maximum(spans, 2 * np.max(spans) / resolution)
+
+
 def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
     # the camera looks towards -z, so it has to be above every surface
     camera_origin[2] = 1 + np.max(
         [surface.bounding_volume.bounding_points[2] for surface in surfaces]
     )
-    h_span, v_span = 1.5 * (maxes[:2] - mins[:2])  # the camera spans
+    h_span, v_span = _camera_spans(maxes[:2] - mins[:2], resolution)
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
     camera = OrthographicCamera(resolution, h_span, v_span / h_span)
@@ -325,7 +331,7 @@ def _draw_xz(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
     camera_origin[1] = -1 + np.min(
         [surface.bounding_volume.bounding_points[1] for surface in surfaces]
     )
-    h_span, v_span = 1.5 * (maxes[[0, 2]] - mins[[0, 2]])  # the camera spans
+    h_span, v_span = _camera_spans(maxes[[0, 2]] - mins[[0, 2]], resolution)
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
     camera = OrthographicCamera(resolution, h_span, v_span / h_span)
-- 
2.43.0


From 31844569cfd5589b907c2cc5682f967c5612f463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 21/29] fix: EdgeRender.get_results raises AttributeError

---
 tinygfx/g3d/renderers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index 8c007d9..7fbf5a1 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -54,11 +54,11 @@ class EdgeRender(object):
 
     def get_results(self):
         """
-        Returns a dataframe of the Ray Trace Results
+        Returns the image of the last render
 
-        :return: pandas dataframe
+        :return: a mxnx4 array of rgba values
         """
-        return self._frame.data
+        return self._results
 
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
-- 
2.43.0


From b210947626cce2b0a40a96183fa3e0fe09fbb125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:22 +0000
Subject: [PATCH 22/29] fix: gooch materials cannot be shaded by more than one
 light

---
 tinygfx/g3d/materials/gooch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/materials/gooch.py b/tinygfx/g3d/materials/gooch.py
index 2b03e64..9b4b1b9 100644
--- a/tinygfx/g3d/materials/gooch.py
+++ b/tinygfx/g3d/materials/gooch.py
@@ -46,12 +46,12 @@ class GoochMaterial(Material):
             ]
 
         else:
-            light_vectors = light_positions[:3, :, np.newaxis] - np.tile(
+            light_vectors = light_positions[:3].T[..., np.newaxis] - np.tile(
                 rays[0, :3], (light_positions.shape[-1], 1, 1)
             )
 
         # normalize the light vector
-        light_vectors /= np.linalg.norm(light_vectors, axis=1)
+        light_vectors /= np.linalg.norm(light_vectors, axis=1, keepdims=True)
         # take the dot product of each slice of the light vectors with the normal vector
         light_normal_dot = np.einsum("ijk,jk->ik", light_vectors, normals)
 
-- 
2.43.0


From 65a9483658cb0af3a09b9f7e58aa1cc95c78362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 23/29] fix: wavelength_to_rgb rejects single wavelengths

---
 pyrayt/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrayt/utils.py b/pyrayt/utils.py
index 4371ac8..8a50bba 100644
--- a/pyrayt/utils.py
+++ b/pyrayt/utils.py
@@ -13,7 +13,8 @@ def wavelength_to_rgb(wavelength: Tuple[float, np.ndarray], gamma=0.8) -> np.nda
     :rtype: np.ndarray
     """
 
-    wavelength = np.asarray(wavelength)  # convert the wavelength into a numpy array
+    single_wavelength = np.ndim(wavelength) == 0
+    wavelength = np.atleast_1d(wavelength)  # convert the wavelength into a numpy array
     color = np.empty((3, wavelength.shape[0]))  # an empty matrix to generate color
 
     # calculate the color for 380 -> 440 nm
@@ -99,7 +100,7 @@ def wavelength_to_rgb(wavelength: Tuple[float, np.ndarray], gamma=0.8) -> np.nda
         wavelength >= zone_min, zone, color
     )  # fill the color array at the appropriate spots
 
-    return color.T
+    return color.T[0] if single_wavelength else color.T
 
 
 def lensmakers_equation(r1: float, r2: float, n_lens: float, thickness: float) -> float:
-- 
2.43.0


From 1f3137c6506c50c6799a104ff2d0ed9428a59b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 24/29] fix: StaticLamp ignores moves and wavelength changes
 after its first use and forgets rays

---
 pyrayt/components.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 56044b8..5f1f92f 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -1,5 +1,4 @@
 import abc
-from functools import lru_cache
 from functools import wraps
 from typing import Union, Tuple
 
@@ -674,6 +673,13 @@ class Lamp(Source):
 class StaticLamp(Lamp):
     """Identical to a :class:`Lamp`, except the ray generation function is cached so the same set of rays is generated across multiple simulations. Useful for running Monte-Carlo models where the random noise of the source is larger than the resolution you're trying to capture at."""
 
-    @lru_cache(10)
-    def generate_rays(self, n_rays: int) -> pyrayt.RaySet:
-        return super().generate_rays(n_rays)
+    def __init__(self, *args, **kwargs) -> None:
+        super().__init__(*args, **kwargs)
+        self._ray_cache = {}  # rays in local coordinates, for every number of rays
+
+    def _local_ray_generation(self, n_rays: int) -> pyrayt.RaySet:
+        if n_rays not in self._ray_cache:
+            self._ray_cache[n_rays] = super()._local_ray_generation(n_rays)
+        rayset = self._ray_cache[n_rays].copy()
+        rayset.wavelength = self._wavelength
+        return rayset
-- 
2.43.0


From a1e039e8e9b9db8cf7726008c1e3b5e77ae4e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 25/29] fix: CircleOfRays generates the same ray twice and is
 not uniform

---
 pyrayt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 5f1f92f..9bb6c4e 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -562,7 +562,7 @@ class CircleOfRays(Source):
 
         rayset = pyrayt.RaySet(n_rays)
         # if we want more than one ray, linearly space them, otherwise default position is fine
-        theta = np.linspace(0, 2 * np.pi, n_rays)
+        theta = np.linspace(0, 2 * np.pi, n_rays, endpoint=False)
         rayset.rays[0, 1] = (
             self._diameter / 2 * np.sin(theta)
         )  # space rays along the y-axis
-- 
2.43.0


From df724f53c0ddee7ea4b71399c226857ac7a33c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 26/29] fix: a rejected scale by zero leaves the object with a
 singular transform

---
 tinygfx/g3d/world_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 94d4fd7..d660a60 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -215,8 +215,8 @@ class WorldObject(CountedObject):
     # Scale operations
     def scale(self, x=1, y=1, z=1):
         # for now we're only going to allow positive scaling
-        if x < 0 or y < 0 or z < 0:
-            raise ValueError("Negative values for scale operations are prohibited")
+        if x <= 0 or y <= 0 or z <= 0:
+            raise ValueError("Scale operations only accept positive values")
 
         tx = np.diag((x, y, z, 1))
         self._append_world_transform(tx)
-- 
2.43.0


From 0fdfb4e46916eb57d179c3260f10f8cf3d46ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 27/29] fix: abbe number is not updated when the coefficients
 of a glass change

---
 pyrayt/materials.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyrayt/materials.py b/pyrayt/materials.py
index d63cef5..c1c9a6c 100644
--- a/pyrayt/materials.py
+++ b/pyrayt/materials.py
@@ -4,7 +4,6 @@ from pyrayt._pyrayt import RaySet
 from tinygfx.g3d import materials as cg_matl
 import tinygfx.g3d as cg
 import abc
-from functools import lru_cache
 
 
 class TracableMaterial(cg_matl.gooch.Material):
@@ -74,7 +73,6 @@ class Glass(TracableMaterial):
         )
         return ray_set
 
-    @lru_cache(100)
     def abbe(self) -> float:
         """
         Calculates the `Abbe number <https://en.wikipedia.org/wiki/Abbe_number>`_ of the material.
-- 
2.43.0


From 34854ddf3382a17470a0180c50f75b032d5bb047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:53 +0000
Subject: [PATCH 28/29] fix: pin restores members pinned together with their
 group or compound object

---
 pyrayt/_pyrayt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index f783722..357d39d 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -570,7 +570,9 @@ class pin(object):
 
     def __exit__(self, exception_type, exception_value, traceback):
 
-        for this_object, starting_matrix in zip(self._obj_set, self._starting_matrices):
+        # restoring a group or compound object also moves its members, repeat so that pinned members settle as well
+        pinned = list(zip(self._obj_set, self._starting_matrices))
+        for this_object, starting_matrix in pinned * len(pinned):
             final_matrix = this_object.get_world_transform()
             matrix_change = np.matmul(final_matrix, np.linalg.inv(starting_matrix))
             this_object.transform(np.linalg.inv(matrix_change))
-- 
2.43.0


From cb8261496ee2b8ab883e245869454551a760e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 29/29] fix: don't hand terminated rays to materials again

---
 pyrayt/_pyrayt.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 357d39d..437be2e 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -401,8 +401,16 @@ class RayTracer(object):
         # any ray that does not intersect a surface has it's direction vector killed
         next_ray_set.rays[1, ..., self._hit_surfaces == -1] = 0
 
+        # update to elminate dead rays
+        # dead rays are anywhere that the direction vector has been set to zero (absorbed) or the surface vector is -1
+        # (no intersection)
+        absorbed_rays = np.isclose(np.linalg.norm(self._ray_set.rays[1], axis=0), 0)
+        powerless_rays = self._ray_set.intensity < self.ray_intensity_threshold
+        dead_rays = absorbed_rays | (self._hit_surfaces == -1) | powerless_rays
+        living_rays = np.logical_not(dead_rays)  # living rays aren't dead...
+
         for surface_id, surface in self._surface_lut:
-            surface_mask = self._hit_surfaces == surface_id
+            surface_mask = (self._hit_surfaces == surface_id) & living_rays
             if np.any(surface_mask):
                 next_ray_set.rays[0, ..., surface_mask] += (
                     next_ray_set.rays[1, ..., surface_mask]
@@ -412,15 +420,6 @@ class RayTracer(object):
                     surface, next_ray_set[..., surface_mask]
                 )
 
-        # update to elminate dead rays
-        # dead rays are anywhere that the direction vector has been set to zero (absorbed) or the surface vector is -1
-        # (no intersection)
-        absorbed_rays = np.isclose(np.linalg.norm(self._ray_set.rays[1], axis=0), 0)
-        powerless_rays = self._ray_set.intensity < self.ray_intensity_threshold
-        dead_rays = absorbed_rays | (self._hit_surfaces == -1) | powerless_rays
-        living_rays = np.logical_not(dead_rays)  # living rays aren't dead...
-        # increment the generation number
-
         # if there's no more rays exit the sim without saving data
         if np.all(dead_rays):
             self._state = RayTracer._States.FINISH
-- 
2.43.0

