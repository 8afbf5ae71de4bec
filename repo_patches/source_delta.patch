From 59b1aaa487369b4ba3151ae538725c4bed2f28e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:00 +0000
Subject: [PATCH 01/27] fix: accept a transform when adding objects and
 sub-assemblies

Comparing an array with == None is elementwise, so any given transform raised.
---
 tracer/assembly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 38afc30..5e618e6 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -72,7 +72,7 @@ class Assembly(HasFrame):
         transform - the transformation matrix (as an array object) that describes 
             the object in the coordinate system of the Assembly
         """
-        if transform == None:
+        if transform is None:
             transform = N.eye(4)
         self._objects.append(object)
         object.set_transform(transform)
@@ -86,7 +86,7 @@ class Assembly(HasFrame):
         transform - the transformation matrix (as an array object) that describes the 
             new assembly in the coordinate system of the current assembly
         """
-        if transform == None:
+        if transform is None:
             transform = N.eye(4)
         self._assemblies.append(assembly)
         assembly.set_transform(transform)
-- 
2.43.0


From 6703334cd11599814cdcefaf3beb3ebf1879d1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:04 +0000
Subject: [PATCH 02/27] fix: make RayTree.ray_history callable and reach the
 source bundle

---
 tracer/trace_tree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/trace_tree.py b/tracer/trace_tree.py
index bdd425e..31e6484 100644
--- a/tracer/trace_tree.py
+++ b/tracer/trace_tree.py
@@ -31,7 +31,7 @@ class RayTree(object):
         """
         return [bund.get_parents() for bund in self._bunds[1:]]
     
-    def ray_history(ray_index, level=None):
+    def ray_history(self, ray_index, level=None):
         """
         Return, in reverse order, all the indices into ray bundles starting
         from the given ray, going back to the original bundle. Starts with the
@@ -43,12 +43,12 @@ class RayTree(object):
             defaults to last bundle.
         """
         if level is None:
-            level = self.num_bunds()
+            level = self.num_bunds() - 1
         
-        parents = np.empty(level)
+        parents = np.empty(level + 1, dtype=int)
         parents[0] = ray_index
         
-        for pix in xrange(1, level):
+        for pix in xrange(1, level + 1):
             parents[pix] = \
                 self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]
         
-- 
2.43.0


From c17b152da40b1155cd97bde9b0a52aec7aff75b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:06 +0000
Subject: [PATCH 03/27] fix: use all terms of the Hartmann dispersion formula

---
 tracer/optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics.py b/tracer/optics.py
index 176be57..7814371 100644
--- a/tracer/optics.py
+++ b/tracer/optics.py
@@ -94,4 +94,4 @@ def refr_idx_hartmann(wavelength, a, b, c, d, e):
     
     where L is the wavelength.
     """
-    return a + b/(c - wavelength) 
+    return a + b/(c - wavelength) + d/(e - wavelength)
-- 
2.43.0


From 168024fe989d63b3775ae08fc08088287c434ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:09 +0000
Subject: [PATCH 04/27] fix: build spherical lenses with a planar front face

---
 tracer/models/spherical_lens.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tracer/models/spherical_lens.py b/tracer/models/spherical_lens.py
index 7f39902..0709b6e 100644
--- a/tracer/models/spherical_lens.py
+++ b/tracer/models/spherical_lens.py
@@ -44,7 +44,7 @@ class SphericalLens(AssembledObject):
             self._front = Surface(
                 RoundPlateGM(diameter/2.),
                 Refractive(1., refr_idx))
-            R1 = B.inf
+            R1 = N.inf
         else:
             z = N.sqrt(R1**2 - diameter**2/4.) # location of cut plane
             if R1 > 0:
@@ -101,6 +101,12 @@ class SphericalLens(AssembledObject):
             
             cyl_loc += (locf + sect1.get_location()[2])/2.
             cyl_height += locf + sect1.get_location()[2]
+        else:
+            locf = pd + depth
+            self._front.set_location(N.r_[0., 0., locf])
+            
+            cyl_loc += locf/2.
+            cyl_height += locf
         
         # Create the bounding cylinder:
         if cyl_height > 0:
-- 
2.43.0


From 730b51e4d85f2281585a5b6e98c9cbc738f881a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:13 +0000
Subject: [PATCH 05/27] fix: an assembly without objects has no surfaces

---
 tracer/assembly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 5e618e6..4c9acc7 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -61,7 +61,7 @@ class Assembly(HasFrame):
         self.get_objects()
         """
         return reduce(operator.add, 
-            [obj.get_surfaces() for obj in self.get_objects()])
+            [obj.get_surfaces() for obj in self.get_objects()], [])
 
     def add_object(self, object, transform=None):
         """
-- 
2.43.0


From 2bc4941ef794f68e93d4473891962468476c8237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:16 +0000
Subject: [PATCH 06/27] fix: trace with no iterations and no tree

---
 tracer/tracer_engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 3c99dd9..460d2a8 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -116,6 +116,7 @@ class TracerEngine():
         ray_ownership = -1*N.ones(bund.get_num_rays())
         surfs_relevancy = N.ones((num_surfs, bund.get_num_rays()), dtype=N.bool)
         
+        record = [bund]
         for i in xrange(reps):
             front_surf, owned_rays = self.intersect_ray(bund, surfaces, objects, \
                 surf_ownership, ray_ownership, surfs_relevancy)
-- 
2.43.0


From 82863e43d9098ce7b8a7f22584cc46b918c1f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:21 +0000
Subject: [PATCH 07/27] fix: bounding cylinder for any frame and any number of
 points

---
 tracer/boundary_shape.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index 83880d7..30b3219 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -107,7 +107,7 @@ class BoundaryCylinder(BoundaryShape):
         intersection points are valid.
         """
         self._R = diameter/2.
-        BoundaryShape.__init__(self, location, None)
+        BoundaryShape.__init__(self, location, rotation)
     
     def in_bounds(self, vertices):
         """
@@ -117,8 +117,8 @@ class BoundaryCylinder(BoundaryShape):
         Arguments: 
         vertices - an array of the points to check for inclusion, (n,3)
         """
-        local_xy = N.dot(self._temp_frame[:2], 
-            N.vstack((vertices.T, N.ones(vertices.shape[1]))))
+        local_xy = N.dot(N.linalg.inv(self._temp_frame)[:2], 
+            N.vstack((vertices.T, N.ones(vertices.shape[0]))))
         return N.sum(local_xy**2, axis=0) <= self._R**2
 
 class BoundaryPlane(BoundaryShape):
-- 
2.43.0


From 01409c6229de37ff39af4df0ed3446a1031de9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:24 +0000
Subject: [PATCH 08/27] fix: bounding rectangle of a bounding sphere in any
 position

---
 tracer/boundary_shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index 30b3219..e9ab51f 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -95,8 +95,8 @@ class BoundarySphere(BoundaryShape):
         Returns:
         xmin, xmax, ynin, ymax - of the rect, in the xy plane of the frame,
         """
-        cent_proj = N.dot(N.linalg.inv(transform), N.append(self._temp_loc, 1))
-        Reff = N.sqrt(self._radius**2 - (self._temp_loc[2] - cent_proj[2])**2)
+        cent_proj = N.dot(N.linalg.inv(transform), N.append(self._temp_loc[:3], 1))
+        Reff = N.sqrt(self._radius**2 - cent_proj[2]**2)
         return cent_proj[0] - Reff, cent_proj[0] + Reff, \
             cent_proj[1] - Reff, cent_proj[1] + Reff
 
-- 
2.43.0


From 5489052c6508b5deee7eaa29b182105e7ce5c058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:28 +0000
Subject: [PATCH 09/27] fix: as many directions as starting points in a square
 source

---
 tracer/sources.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tracer/sources.py b/tracer/sources.py
index 1444882..acc59f8 100644
--- a/tracer/sources.py
+++ b/tracer/sources.py
@@ -96,9 +96,10 @@ def square_bundle(num_rays, center, direction, width):
     A RayBundle object with the above charachteristics set.
     """
     rot = rotation_to_z(direction)
-    directions = N.tile(direction[:,None], (1, num_rays))
-    range = N.s_[-width:width:float(2*width)/N.sqrt(num_rays)]
-    xs, ys = N.mgrid[range, range]
+    side = int(N.ceil(N.sqrt(num_rays)))
+    coords = -width + N.arange(side)*(float(2*width)/N.sqrt(num_rays))
+    xs, ys = N.meshgrid(coords, coords, indexing='ij')
+    directions = N.tile(direction[:,None], (1, xs.size))
     vertices_local = N.array([xs.flatten(),  ys.flatten(),  N.zeros(len(xs.flatten()))])
     vertices_global = N.dot(rot,  vertices_local)
 
-- 
2.43.0


From 99c54c167eba81a2f7c55af941885052cdb7024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:32 +0000
Subject: [PATCH 10/27] fix: refractive optics with no rays selected

---
 tracer/optics_callables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics_callables.py b/tracer/optics_callables.py
index 2c2ead4..b32102e 100644
--- a/tracer/optics_callables.py
+++ b/tracer/optics_callables.py
@@ -128,7 +128,7 @@ class RefractiveHomogenous(object):
     
     def __call__(self, geometry, rays, selector):
         if len(selector) == 0:
-            return ray_bundle.empty_bund()
+            return ray_bundle.RayBundle.empty_bund()
         
         n1 = rays.get_ref_index()[selector]
         n2 = self.toggle_ref_idx(n1)
-- 
2.43.0


From 349fb16b0b058f19559b42e6ae0c7d87dbb55704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:35 +0000
Subject: [PATCH 11/27] fix: report hits when every recorded batch is empty

---
 tracer/optics_callables.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tracer/optics_callables.py b/tracer/optics_callables.py
index b32102e..ec80764 100644
--- a/tracer/optics_callables.py
+++ b/tracer/optics_callables.py
@@ -69,8 +69,7 @@ class AbsorptionAccountant(object):
         if not len(self._absorbed):
             return N.array([]), N.array([]).reshape(3,0)
         
-        return N.hstack([a for a in self._absorbed if len(a)]), \
-            N.hstack([h for h in self._hits if h.shape[1]])
+        return N.hstack(self._absorbed), N.hstack(self._hits)
 
 class ReflectiveReceiver(AbsorptionAccountant):
     """A wrapper around AbsorptionAccountant with a Reflective optics"""
-- 
2.43.0


From 32aa42e8e15349e65919d5d3c2c2646a8efa7e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:39 +0000
Subject: [PATCH 12/27] fix: Fresnel reflectance of normally-incident rays is
 never NaN

---
 tracer/optics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/optics.py b/tracer/optics.py
index 7814371..8d0a906 100644
--- a/tracer/optics.py
+++ b/tracer/optics.py
@@ -22,7 +22,8 @@ def fresnel(ray_dirs, normals, n1, n2):
     R - the reflectance of a homogenously-polarized light ray with the given
         parameters.
     """ 
-    theta_in = N.arccos(N.abs((normals*ray_dirs).sum(axis=0)))
+    # Rounding may bring the cosine of a normal-incidence ray above 1.
+    theta_in = N.arccos(N.minimum(N.abs((normals*ray_dirs).sum(axis=0)), 1))
     # Factor out common terms in Fresnel's equations:
     foo = N.cos(theta_in) 
     bar = N.sqrt(1 - (n1/n2 * N.sin(theta_in))**2)
-- 
2.43.0


From 46c2343ee11833aeb96bb4ba75419686ee56b24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:42 +0000
Subject: [PATCH 13/27] fix: degenerate triangles do not displace the other
 faces

---
 tracer/models/triangulated_surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tracer/models/triangulated_surface.py b/tracer/models/triangulated_surface.py
index 7984f63..d396fa6 100644
--- a/tracer/models/triangulated_surface.py
+++ b/tracer/models/triangulated_surface.py
@@ -28,6 +28,7 @@ class TriangulatedSurface(AssembledObject):
         edges = vertices[faces[:,1:],:] - pos[:,None,:]
         edge_norms = np.sqrt(np.sum(edges**2, axis=2))
         non_degenerate = np.all(abs(edge_norms) > 1e-8, axis=1)
+        pos = pos[non_degenerate]
         edges = edges[non_degenerate]
         edge_norms = edge_norms[non_degenerate]
         
@@ -35,6 +36,7 @@ class TriangulatedSurface(AssembledObject):
         zs = np.cross(xs, edges[:,1])
         zs /= np.sqrt((zs**2).sum(-1))[:,None]
         non_collinear = np.any(abs(zs) > 1e-6, axis=1)
+        pos = pos[non_collinear]
         xs = xs[non_collinear]
         zs = zs[non_collinear]
         ys = np.cross(zs, xs)
-- 
2.43.0


From 10f82cb04f2cb884dbb1cedc88c67e012323d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:45 +0000
Subject: [PATCH 14/27] fix: global_to_local returns 3D points

---
 tracer/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/surface.py b/tracer/surface.py
index 6b771de..6fc0f99 100644
--- a/tracer/surface.py
+++ b/tracer/surface.py
@@ -104,7 +104,7 @@ class Surface(HasFrame):
         local - a 3 x n array with the respective points in local coordinates.
         """
         return N.dot(N.linalg.inv(self._temp_frame), 
-            N.vstack((points, N.ones(points.shape[1]))))
+            N.vstack((points, N.ones(points.shape[1]))))[:3]
     
     def mesh(self, resolution):
         """
-- 
2.43.0


From 7ecf781ecef63c66ecb841989999820a4d0a8c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:49 +0000
Subject: [PATCH 15/27] fix: ignoring of near-zero hits does not depend on
 other rays

Hits up to 1e-6 were only ignored if some hit of some ray was below 1e-10.
---
 tracer/tracer_engine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 460d2a8..d8af8dd 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -65,9 +65,7 @@ class TracerEngine():
         
         # If parameter == 0, ray does not actually hit object, but originates from there; 
         # so it should be ignored in considering intersections 
-        if (stack <= 1e-10).any():
-            zeros = N.where(stack <= 1e-6)
-            stack[zeros] = N.inf
+        stack[stack <= 1e-6] = N.inf
 
         # Find the smallest parameter for each ray, and use that as the final one,
         # returns the indices.  If an entire column of the stack is N.inf (the ray misses
-- 
2.43.0


From 1e8644d05db1b11b83734d2332fb993514a5f9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:39 +0000
Subject: [PATCH 16/27] fix: recognise collinear triangles despite rounding

The test came after normalising, when only an exact zero could fail it.
---
 tracer/models/triangulated_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/models/triangulated_surface.py b/tracer/models/triangulated_surface.py
index d396fa6..30a89f2 100644
--- a/tracer/models/triangulated_surface.py
+++ b/tracer/models/triangulated_surface.py
@@ -34,11 +34,11 @@ class TriangulatedSurface(AssembledObject):
         
         xs = edges[:,0] / edge_norms[:,0,None]
         zs = np.cross(xs, edges[:,1])
-        zs /= np.sqrt((zs**2).sum(-1))[:,None]
         non_collinear = np.any(abs(zs) > 1e-6, axis=1)
         pos = pos[non_collinear]
         xs = xs[non_collinear]
         zs = zs[non_collinear]
+        zs /= np.sqrt((zs**2).sum(-1))[:,None]
         ys = np.cross(zs, xs)
         edges = edges[non_collinear]
         
-- 
2.43.0


From 22e52e6dee80976fd14280a5d7c9a37f6c4a6f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:43 +0000
Subject: [PATCH 17/27] fix: no NaN in refraction exactly at the critical angle

---
 tracer/optics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/optics.py b/tracer/optics.py
index 8d0a906..50d0e76 100644
--- a/tracer/optics.py
+++ b/tracer/optics.py
@@ -26,7 +26,7 @@ def fresnel(ray_dirs, normals, n1, n2):
     theta_in = N.arccos(N.minimum(N.abs((normals*ray_dirs).sum(axis=0)), 1))
     # Factor out common terms in Fresnel's equations:
     foo = N.cos(theta_in) 
-    bar = N.sqrt(1 - (n1/n2 * N.sin(theta_in))**2)
+    bar = N.sqrt(N.maximum(1 - (n1/n2 * N.sin(theta_in))**2, 0))
     
     Rs = ((n1*foo - n2*bar)/(n1*foo + n2*bar))**2 
     Rp = ((n1*bar - n2*foo)/(n1*bar + n2*foo))**2
@@ -81,7 +81,7 @@ def refractions(n1, n2, ray_dirs, normals):
     n = n[refracted]
     
     refr_dirs = (ray_dirs - cos1*normals)/n
-    cos2 = N.sqrt(1 - 1./n**2*(1 - cos1**2))
+    cos2 = N.sqrt(N.maximum(1 - 1./n**2*(1 - cos1**2), 0))
     refr_dirs += normals*cos2*N.where(cos1 < 0, -1, 1)
     
     return refracted, refr_dirs
-- 
2.43.0


From ed76517a0055c52298eaa515722f5c25ae9dca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:46 +0000
Subject: [PATCH 18/27] fix: frames keep their own copy of what they are set to

The arrays given by the caller were stored or modified in place, so frames
set from the same array, or from another frame, changed together, and frames
set from integer arrays truncated later locations.
---
 tracer/has_frame.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tracer/has_frame.py b/tracer/has_frame.py
index 8bd0259..3863497 100644
--- a/tracer/has_frame.py
+++ b/tracer/has_frame.py
@@ -27,8 +27,7 @@ class HasFrame(object):
         if rotation is None:
             rotation = N.eye(3)
 
-        self._transform = N.empty((4,4))
-        self._transform[3,:] = N.r_[0, 0, 0, 1]
+        self._transform = N.eye(4)
         self.set_location(location)
         self.set_rotation(rotation)
         self._temp_frame = self._transform
@@ -43,15 +42,17 @@ class HasFrame(object):
         """Sets the location within the object"""
         if location.shape != (3, ):
             raise ValueError("location must be a 1D 3-component array")
-        self._loc = location
-        self._transform[:3,3] = location
+        transform = self._transform.copy()
+        transform[:3,3] = location
+        HasFrame.set_transform(self, transform)
     
     def set_rotation(self,  rotation):
         """Sets the rotation within the object"""
         if  rotation.shape != (3, 3):
             raise ValueError("rotation must be a 3x3 array")
-        self._rot = rotation
-        self._transform[:3,:3] = rotation
+        transform = self._transform.copy()
+        transform[:3,:3] = rotation
+        HasFrame.set_transform(self, transform)
 
     def set_transform(self, transform):
         """Defines the transformation matrix the puts the surface into the coordinates of the
@@ -59,7 +60,7 @@ class HasFrame(object):
         
         Arguments:
         transform - a 2D array defining the 4 by 4 transformation matrix."""
-        self._transform = transform
+        self._transform = N.array(transform, dtype=float)
         self._loc = self._transform[:3,3]
         self._rot = self._transform[:3,:3]
 
-- 
2.43.0


From 3f76d326a287539fd90c89f23a497935af3a17e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:07 +0000
Subject: [PATCH 19/27] fix: moving an inner part keeps the frames of its
 containers

Setting the frame of an object or sub-assembly, or adding to it, placed its
parts as if its containers were at the origin; setting the frame of a surface
or boundary inside an object had no effect until the object itself was moved.
---
 tracer/assembly.py       | 11 ++++++-----
 tracer/boundary_shape.py |  2 +-
 tracer/has_frame.py      |  6 +++++-
 tracer/object.py         |  5 +++--
 4 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 4c9acc7..6538ef1 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -76,7 +76,7 @@ class Assembly(HasFrame):
             transform = N.eye(4)
         self._objects.append(object)
         object.set_transform(transform)
-        self.transform_children()
+        self.transform_children(self._parent_frame)
 
     def add_assembly(self, assembly, transform=None):
         """Adds an assembly to the current assembly.
@@ -90,7 +90,7 @@ class Assembly(HasFrame):
             transform = N.eye(4)
         self._assemblies.append(assembly)
         assembly.set_transform(transform)
-        self.transform_children()
+        self.transform_children(self._parent_frame)
 
     def set_rotation(self, rotation):
         """
@@ -102,7 +102,7 @@ class Assembly(HasFrame):
         rotation - a 3x3 rotation matrix.
         """
         HasFrame.set_rotation(self, rotation)
-        self.transform_children()
+        self.transform_children(self._parent_frame)
     
     def set_location(self, location):
         """
@@ -114,11 +114,11 @@ class Assembly(HasFrame):
         location - a 3-component location vector.
         """
         HasFrame.set_location(self, location)
-        self.transform_children()
+        self.transform_children(self._parent_frame)
     
     def set_transform(self, transform):
         HasFrame.set_transform(self, transform)
-        self.transform_children()
+        self.transform_children(self._parent_frame)
 
     def transform_children(self, assembly_transform=N.eye(4)):
         """
@@ -128,6 +128,7 @@ class Assembly(HasFrame):
         assembly_transform - the transformation into the parent assembly containing the 
             current assembly
         """
+        self.transform_frame(assembly_transform)
         const_t = self.get_transform()
         for obj in self._assemblies + self._objects:
             obj.transform_children(N.dot(assembly_transform, const_t))
diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index e9ab51f..403d731 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -64,7 +64,6 @@ class BoundarySphere(BoundaryShape):
         _radius - radius of the bounding sphere
         """
         BoundaryShape.__init__(self, location, None)
-        self._temp_loc = self._loc
         self._radius = radius
             
     def in_bounds(self, bund_vertices):
@@ -80,6 +79,7 @@ class BoundarySphere(BoundaryShape):
         Transforms the center of the boundary shape into the global coordinates; this occurs
         when the assembly or object containing the surface is transformed
         """
+        BoundaryShape.transform_frame(self, transform)
         self._temp_loc = N.dot(transform, N.append(self._loc, N.c_[[1]]))
     
     def bounding_rect_for_plane(self, transform):
diff --git a/tracer/has_frame.py b/tracer/has_frame.py
index 3863497..2992ba2 100644
--- a/tracer/has_frame.py
+++ b/tracer/has_frame.py
@@ -20,6 +20,9 @@ class HasFrame(object):
     
     .. [1] John J. Craig, Introduction to Robotics, 3rd ed., 2005.
     """
+    # The global frame of the container, as last given to transform_frame()
+    _parent_frame = N.eye(4)
+    
     def __init__(self,  location=None,  rotation=None):
         # default location and rotation:
         if location is None:
@@ -30,7 +33,6 @@ class HasFrame(object):
         self._transform = N.eye(4)
         self.set_location(location)
         self.set_rotation(rotation)
-        self._temp_frame = self._transform
 
     def get_location(self):
         return self._loc
@@ -63,6 +65,7 @@ class HasFrame(object):
         self._transform = N.array(transform, dtype=float)
         self._loc = self._transform[:3,3]
         self._rot = self._transform[:3,:3]
+        self.transform_frame(self._parent_frame)
 
     def get_transform(self):
         return self._transform
@@ -72,5 +75,6 @@ class HasFrame(object):
         coordinates. I.e., if the object the surface is in is rotated, than the surface
         is also rotated.  It then defines a temporary rotated frame for use of
         calculations."""
+        self._parent_frame = N.array(transform, dtype=float)
         self._temp_frame = N.dot(transform, self._transform)
 
diff --git a/tracer/object.py b/tracer/object.py
index cf74f85..c3d5154 100644
--- a/tracer/object.py
+++ b/tracer/object.py
@@ -45,7 +45,7 @@ class AssembledObject(Assembly):
         Arguments:  surface - a surface object
         """
         self.surfaces.append(surface)
-        self.transform_children()
+        self.transform_children(self._parent_frame)
 
     def add_boundary(self, boundary):
         """Adds a boundary to the object. Surfaces not enclosed by the boundary
@@ -53,13 +53,14 @@ class AssembledObject(Assembly):
         Arguments: boundary - a spherical boundary objects
         """
         self.boundaries.append(boundary)
-        self.transform_children()
+        self.transform_children(self._parent_frame)
 
     def get_boundaries(self):
         return self.boundaries
     
     def transform_children(self, assembly_transform=N.eye(4)):
         """Transforms an object if the assembly is transformed""" 
+        self.transform_frame(assembly_transform)
         const_t = self.get_transform()
         for member in self.surfaces + self.boundaries:
             member.transform_frame(N.dot(assembly_transform, const_t))
-- 
2.43.0


From a6c2d25fa723aba18be3b890b10ecfbb6b1ded22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:36 +0000
Subject: [PATCH 20/27] fix: a heliostat field keeps its own copy of the
 positions

Later changes to the array given by the caller displaced the heliostats on the
next aiming, and integer positions could not be aimed at all.
---
 tracer/models/heliostat_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/models/heliostat_field.py b/tracer/models/heliostat_field.py
index dfc11fb..64fb5a3 100644
--- a/tracer/models/heliostat_field.py
+++ b/tracer/models/heliostat_field.py
@@ -30,7 +30,7 @@ class HeliostatField(Assembly):
         apsorpt - part of incident energy absorbed by the heliostat.
         aim_height - the height (Z coordinate) of the target for aiming
         """
-        self._pos = positions  # Save collecting positions from the hstats.
+        self._pos = N.array(positions, dtype=float) # Save collecting positions from the hstats.
         self._th = aim_height
         face_down = rotx(N.pi)
         
-- 
2.43.0


From bf7a23bd7e067110019a66903ee2380a33a95a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:09 +0000
Subject: [PATCH 21/27] fix: rays escape from a scene without surfaces

The minimum over an empty stack of distances raised an error.
---
 tracer/tracer_engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index d8af8dd..c63da9b 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -45,6 +45,8 @@ class TracerEngine():
         ret_shape = (len(surfaces), bundle.get_num_rays())
         stack = N.zeros(ret_shape)
         owned_rays = N.empty(ret_shape, dtype=N.bool)
+        if len(surfaces) == 0:
+            return owned_rays.copy(), owned_rays
         
         # Bounce rays off each object
         for surf_num in xrange(len(surfaces)):
-- 
2.43.0


From 29eaac97538b729c2c1c92c06bb2066721ccf566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:47 +0000
Subject: [PATCH 22/27] fix: an inherited bundle does not share storage with
 its origin

---
 tracer/ray_bundle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/ray_bundle.py b/tracer/ray_bundle.py
index 4e60d54..ea9a865 100644
--- a/tracer/ray_bundle.py
+++ b/tracer/ray_bundle.py
@@ -140,7 +140,8 @@ class RayBundle:
         
         for p, v in base_vals.iteritems():
             if base_vals[p] is None and hasattr(self, '_' + p):
-                base_vals[p] = self.__dict__['get_' + p](selector)
+                # A copy, as a slice selector only gives a view of this bundle.
+                base_vals[p] = N.array(self.__dict__['get_' + p](selector))
         
         return RayBundle(**base_vals)
 
-- 
2.43.0


From 605a29d6f0d8451c4fd41730b93176f473666283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:25 +0000
Subject: [PATCH 23/27] fix: one-hit rays of cut spheres are matched to their
 own hit

---
 tracer/sphere_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/sphere_surface.py b/tracer/sphere_surface.py
index 2294d7a..a899be7 100644
--- a/tracer/sphere_surface.py
+++ b/tracer/sphere_surface.py
@@ -112,7 +112,7 @@ class HemisphereGM(SphericalGM):
         
         select[~N.logical_or(*bottom_hem)] = N.nan
         one_hit = N.logical_xor(*bottom_hem)
-        select[one_hit] = N.nonzero(bottom_hem[:,one_hit])[0]
+        select[one_hit] = N.nonzero(bottom_hem.T[one_hit,:])[1]
         
         return select
     
@@ -175,7 +175,7 @@ class CutSphereGM(SphericalGM):
         in_bd &= prm > 0
         select[~N.logical_or(*in_bd)] = N.nan
         one_hit = N.logical_xor(*in_bd)
-        select[one_hit] = N.nonzero(in_bd[:,one_hit])[0]
+        select[one_hit] = N.nonzero(in_bd.T[one_hit,:])[1]
         
         return select
 
-- 
2.43.0


From e0f1efd6e1c089c66684aea7c194f6d9d216ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:03 +0000
Subject: [PATCH 24/27] fix: a ray leaving a curved surface can meet it again

---
 tracer/quadric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracer/quadric.py b/tracer/quadric.py
index a696e17..07927c8 100644
--- a/tracer/quadric.py
+++ b/tracer/quadric.py
@@ -77,6 +77,10 @@ class QuadricGM(GeometryManager):
             (-B[really_quadric] + pm*delta[really_quadric])/(2*A[really_quadric])
         inters_coords = v[:,any_inters] + d[:,any_inters]*hits.reshape(2,1,-1)
         
+        # The point a ray leaves this surface from is at a (numerically) zero
+        # distance, and must not hide a farther intersection.
+        hits[hits <= 1e-6] = -N.inf
+        
         # Quadrics can have two intersections. Here we allow child classes
         # to choose based on own method:
         select = self._select_coords(inters_coords, hits)
-- 
2.43.0


From 1c9564ca6e619b5a646dbb9eb8febabd2fe807ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:26 +0000
Subject: [PATCH 25/27] fix: displayed rays start where the rays do and honour
 the ray selector

With rays left out (of no energy, or not selected), the lines of escaping
rays started at other rays' vertices, and rays not selected were still
drawn up to the surface they hit.
---
 tracer/mayavi_ui/scene_view.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index f52a5c3..ec869ed 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -244,25 +244,26 @@ def show_rays(scene, tree, escaping_len, ray_selector=None):
         
         sv = start_rays.get_vertices()[:,non_degenerate]
         sd = start_rays.get_directions()[:,non_degenerate]
+        shown = N.nonzero(non_degenerate)[0]
         
         if level == tree.num_bunds() - 1:
             # Make endpoints for escaping rays
             ev = sv + sd*escaping_len
-            parents = N.arange(ev.shape[1])
+            parents = shown
         else:
             end_rays = tree[level + 1]
             escaping = ~N.any(
-                N.nonzero(non_degenerate)[0] == end_rays.get_parents()[:,None], 0)
+                shown == end_rays.get_parents()[:,None], 0)
             escaping_endpoints = sv[:,escaping] + sd[:,escaping]*escaping_len
             
             ev = N.hstack((end_rays.get_vertices(), escaping_endpoints))
-            parents = N.hstack((end_rays.get_parents(), N.nonzero(escaping)[0]))
+            parents = N.hstack((end_rays.get_parents(), shown[escaping]))
             
         points.append(ev)
         accum_points.append(accum_points[-1] + ev.shape[1])
         
         connections.append(N.hstack((accum_points[level] + parents[:,None],
-            accum_points[level + 1] + N.arange(ev.shape[1])[:,None] )) )
+            accum_points[level + 1] + N.arange(ev.shape[1])[:,None] ))[non_degenerate[parents]] )
     
     points = N.hstack(points)
     connections = N.vstack(connections)
-- 
2.43.0


From bfb4e55165bdf76307cf6daa7f877379734db251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:26 +0000
Subject: [PATCH 26/27] fix: replacing the assembly of a view removes the old
 one's surfaces

---
 tracer/mayavi_ui/scene_view.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index ec869ed..74b73f1 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -33,6 +33,7 @@ class TracerScene(t_api.HasTraits):
         t_api.HasTraits.__init__(self)
         self._esc = escaping
         
+        self._meshes = {}
         self.set_assembly(assembly)
         self._source = source
         
@@ -67,6 +68,11 @@ class TracerScene(t_api.HasTraits):
         Arguments:
         asm - an Assembly instance, whose all surfacesd have a mesh() method.
         """
+        # The surfaces of the previous assembly are no longer part of the scene:
+        for surf, mesh in self._meshes.values():
+            if mesh is not None:
+                mesh.remove()
+        
         self._asm = asm
         self._meshes = dict((id(s), (s, None)) for s in asm.get_surfaces())
         self.show_assembly()
-- 
2.43.0


From 345c48acf6e590eb6be5381cadd695f552b03747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:26 +0000
Subject: [PATCH 27/27] fix: update the surfaces of a view after it was cleared

---
 tracer/mayavi_ui/scene_view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index 74b73f1..35eaeff 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -90,7 +90,8 @@ class TracerScene(t_api.HasTraits):
         # Remove:
         for sid in self._meshes.keys():
             if sid not in surf_ids:
-                self._meshes[sid][1].remove()
+                if self._meshes[sid][1] is not None:
+                    self._meshes[sid][1].remove()
                 del self._meshes[sid]
         
         # Add:
-- 
2.43.0

