From 98626147e18c913d239a9aa7c1fd0cb421e730ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 01/59] fix: Path.arc accepts integer points

In-place division of an integer array raised an exception.
---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index d9de84b..fb1165e 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -382,7 +382,7 @@ class Path(GeometricObject):
         Returns
         ----------------------------
         Path"""
-        start_arr, center_arr, end_arr = np.array(start), np.array(center), np.array(end)
+        start_arr, center_arr, end_arr = [np.array(p, dtype=np.float64) for p in (start, center, end)]
          
         x_unit = start_arr - center_arr
         x_unit /= np.linalg.norm(x_unit)
-- 
2.43.0


From f7a34091b42aa5cb01adea9374dadcfb170fcc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 02/59] fix: offset the breakpoints of the second path when
 joining paths

---
 traceon/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index fb1165e..7c19b56 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -231,7 +231,9 @@ class Path(GeometricObject):
             else:
                 return other(t - self.path_length)
         
-        return Path(f, total, self.breakpoints + [self.path_length] + other.breakpoints, name=self.name)
+        other_breakpoints = [self.path_length + b for b in other.breakpoints]
+        
+        return Path(f, total, self.breakpoints + [self.path_length] + other_breakpoints, name=self.name)
 
     def starting_point(self):
         """Returns the starting point of the path.
-- 
2.43.0


From 6a1df20214d0a3a85e30b2d4098f2ca9b3ce174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 03/59] fix: Path + PathCollection

---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 7c19b56..afc259a 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -686,7 +686,7 @@ class Path(GeometricObject):
             return PathCollection([self, other])
         
         if isinstance(other, PathCollection):
-            return PathCollection([self] + [other.paths])
+            return PathCollection([self] + other.paths)
 
         return NotImplemented
      
-- 
2.43.0


From e6c481968ad7068dff5c46b95abf468a673fffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 04/59] fix: breakpoints of irregular functions are recorded as
 path lengths

The breakpoints are given as values of u, which is in general not
proportional to the length along the path.
---
 traceon/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index afc259a..307132a 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -111,7 +111,10 @@ class Path(GeometricObject):
 
         path_length = path_lengths[-1]
         
-        return Path(lambda pl: fun(interpolation(pl)), path_length, breakpoints=[b*path_length for b in breakpoints])
+        # The breakpoints are given in terms of u, convert to path length
+        u_to_path_length = CubicSpline(u, path_lengths)
+        
+        return Path(lambda pl: fun(interpolation(pl)), path_length, breakpoints=[float(u_to_path_length(b)) for b in breakpoints])
     
     @staticmethod
     def spline_through_points(points, N=100):
-- 
2.43.0


From a86e12a78b19bf7e8d333b0c3d26118001d28071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 05/59] fix: allow rounding errors when evaluating a joined
 path

The endpoint of a joined path that was cut or joined again could be one
rounding error past the end, which raised an AssertionError.
---
 traceon/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 307132a..93380f5 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -227,7 +227,8 @@ class Path(GeometricObject):
         total = self.path_length + other.path_length
          
         def f(t):
-            assert 0 <= t <= total
+            # Allow for rounding errors in the path length
+            assert -1e-10*total <= t <= total + 1e-10*total
             
             if t <= self.path_length:
                 return self(t)
-- 
2.43.0


From 2582bb1cda97131a8a99eb30274c04403b447e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 06/59] fix: += on path and surface collections

The in-place addition did not return the collection, so the variable was
replaced by None.
---
 traceon/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 93380f5..50f9876 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -812,6 +812,8 @@ class PathCollection(GeometricObject):
             self.paths.append(other)
         else:
             self.paths.extend(other.paths)
+
+        return self
        
     def revolve_x(self, angle=2*pi):
         return self._map_to_surfaces(Path.revolve_x, angle=angle)
@@ -1376,6 +1378,8 @@ class SurfaceCollection(GeometricObject):
             self.surfaces.append(other)
         else:
             self.surfaces.extend(other.surfaces)
+        
+        return self
 
     def __str__(self):
         return f"<SurfaceCollection with {len(self.surfaces)} surfaces, name: {self.name}>"
-- 
2.43.0


From c935da9f3b90d98011e1ab128cc22dea9e33cb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 07/59] fix: rotation by a zero angle returns the same geometry

The rotation matrix was never assigned, which raised a NameError.
---
 traceon/mesher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 8ea0b68..539c5af 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -100,6 +100,8 @@ class GeometricObject(ABC):
             matrix = np.array([[np.cos(Rz), -np.sin(Rz), 0],
                 [np.sin(Rz), np.cos(Rz), 0],
                 [0, 0, 1]])
+        else:
+            matrix = np.eye(3)
 
         return self.map_points(lambda p: origin + matrix @ (p - origin))
 
-- 
2.43.0


From aa7828d084fa4ae50958fe49eb61dcf41ad79de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 08/59] fix: moving, rotating or mirroring a collection keeps
 its name

---
 traceon/geometry.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 50f9876..f67cf92 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -772,7 +772,9 @@ class PathCollection(GeometricObject):
             path.name = name
      
     def map_points(self, fun):
-        return PathCollection([p.map_points(fun) for p in self.paths])
+        collection = PathCollection([p.map_points(fun) for p in self.paths])
+        collection._name = self._name
+        return collection
      
     def mesh(self, mesh_size=None, mesh_size_factor=None, higher_order=False, name=None, ensure_outward_normals=True):
         """See `Path.mesh`"""
@@ -1347,7 +1349,9 @@ class SurfaceCollection(GeometricObject):
             surf.name = name
      
     def map_points(self, fun):
-        return SurfaceCollection([s.map_points(fun) for s in self.surfaces])
+        collection = SurfaceCollection([s.map_points(fun) for s in self.surfaces])
+        collection._name = self._name
+        return collection
      
     def mesh(self, mesh_size=None, mesh_size_factor=None, name=None, ensure_outward_normals=True):
         """See `Surface.mesh`"""
-- 
2.43.0


From e0ee6343b79ee489fd48343676d483ab71c0e818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 09/59] fix: Surface.extrude_boundary_by_path extrudes along
 the path

The path was passed to extrude(..), which expects a vector.
---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index f67cf92..273d50c 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -1206,7 +1206,7 @@ class Surface(GeometricObject):
         SurfaceCollection"""
         
         boundary = self.get_boundary_paths()
-        extruded_boundary = boundary.extrude(path)
+        extruded_boundary = boundary.extrude_by_path(path)
 
         if enclose:
             path_vector = path.endpoint() - path.starting_point()
-- 
2.43.0


From ece8a1db10d1188084cd655ba614bab1c918aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 10/59] fix: enclose the correct side in
 Surface.revolve_boundary_y

The copy of the surface was rotated in the direction opposite to the
revolution, and did not connect to the revolved boundary.
---
 traceon/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 273d50c..25852d3 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -1256,7 +1256,9 @@ class Surface(GeometricObject):
         revolved_boundary = boundary.revolve_y(angle)
 
         if enclose and not np.isclose(angle, 2*pi, atol=1e-8):
-            return self + revolved_boundary + self.rotate(Ry=angle)
+            # Note that Path.revolve_y revolves from the x-axis to the z-axis, while
+            # a positive Ry rotates from the z-axis to the x-axis.
+            return self + revolved_boundary + self.rotate(Ry=-angle)
         else:
             return self + revolved_boundary
     
-- 
2.43.0


From 6feb231dedcea88348cc2d76e94029d026db23fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 11/59] fix: Surface.from_boundary_paths has the given paths as
 its boundary

Unless all paths were straight lines the edges of the surface did not
coincide with the given paths. Also the breakpoints of the third and fourth
path, which are traversed in the opposite direction, were misplaced.
---
 traceon/geometry.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 25852d3..86c6e9a 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -997,22 +997,21 @@ class Surface(GeometricObject):
             u /= path_length_p1_and_p3
             v /= path_length_p2_and_p4
             
-            a = (1-v)
-            b = (1-u)
-             
-            c = v
-            d = u
+            # Transfinite interpolation (Coons patch) of the four boundary paths
+            between_p1_p3 = (1-v)*p1(u*p1.path_length) + v*p3((1-u)*p3.path_length)
+            between_p4_p2 = (1-u)*p4((1-v)*p4.path_length) + u*p2(v*p2.path_length)
+            
+            corners = (1-u)*(1-v)*p1.starting_point() + u*(1-v)*p2.starting_point() + \
+                        u*v*p3.starting_point() + (1-u)*v*p4.starting_point()
             
-            return 1/2*(a*p1(u*p1.path_length) + \
-                        b*p4((1-v)*p4.path_length) + \
-                        c*p3((1-u)*p3.path_length) + \
-                        d*p2(v*p2.path_length))
+            return between_p1_p3 + between_p4_p2 - corners
         
-        # Scale the breakpoints appropriately
+        # Scale the breakpoints appropriately, note that p3 and p4 are traversed
+        # in the opposite direction.
         b1 = sorted([b/p1.path_length * path_length_p1_and_p3 for b in p1.breakpoints] + \
-                [b/p3.path_length * path_length_p1_and_p3 for b in p3.breakpoints])
+                [(1 - b/p3.path_length) * path_length_p1_and_p3 for b in p3.breakpoints])
         b2 = sorted([b/p2.path_length * path_length_p2_and_p4 for b in p2.breakpoints] + \
-                [b/p4.path_length * path_length_p2_and_p4 for b in p4.breakpoints])
+                [(1 - b/p4.path_length) * path_length_p2_and_p4 for b in p4.breakpoints])
         
         return Surface(f, path_length_p1_and_p3, path_length_p2_and_p4, b1, b2)
      
-- 
2.43.0


From ae83e20ef979e6be9392ada23105ecb24ef1e28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 12/59] fix: boundary of a surface with an edge that is a
 single point

An edge collapsed to a point (for example the center of half a disk) counts as
a closed path, which caused the real boundary paths to be filtered out.
---
 traceon/geometry.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 86c6e9a..a4bd7db 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -1155,7 +1155,20 @@ class Surface(GeometricObject):
         b3 = Path(lambda v: self(0., v), self.path_length2, self.breakpoints2, self.name)
         b4 = Path(lambda v: self(self.path_length1, v), self.path_length2, self.breakpoints2, self.name)
         
-        boundary = b1 + b2 + b3 + b4
+        fractions = [0., 0.25, 0.5, 0.75, 1.]
+        
+        def samples(path):
+            return np.array([path(f*path.path_length) for f in fractions])
+        
+        edges = []
+         
+        for e1, e2 in [(b1, b2), (b3, b4)]:
+            # Opposite edges that coincide (for example the seam of a full revolution) are not part of the
+            # boundary. The same holds for edges that are a single point (for example the center of a disk).
+            if not _points_close(samples(e1), samples(e2)):
+                edges.extend([e for e in (e1, e2) if not _points_close(samples(e), e.starting_point())])
+        
+        boundary = PathCollection(edges)
 
         if any([b.is_closed() for b in boundary.paths]):
             boundary = PathCollection([b for b in boundary.paths if b.is_closed()])
-- 
2.43.0


From a85fa8e5a792efc8461355ebea08529afef5b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 13/59] fix: surface spanned by two paths that share both
 endpoints

The second path length was zero, and all points of the surface were NaN.
---
 traceon/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index a4bd7db..6a4a7f8 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -895,6 +895,10 @@ class Surface(GeometricObject):
         length_start = np.linalg.norm(path1.starting_point() - path2.starting_point())
         length_final = np.linalg.norm(path1.endpoint() - path2.endpoint())
         length2 = (length_start + length_final)/2
+        
+        if length2 < 1e-10*length1:
+            # The paths start and end in the same points
+            length2 = np.linalg.norm(path1.middle_point() - path2.middle_point())
          
         def f(u, v):
             p1 = path1(u/length1*path1.path_length) # u/l*p = b, u = l*b/p
-- 
2.43.0


From 5e39c047fd9b7b129c6cbc25169d6b32eb3e54e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 14/59] fix: extract both the lines and triangles of a physical
 group

When a name was given to lines and triangles the triangles were lost.
---
 traceon/mesher.py | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 539c5af..ea4aa6b 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -317,28 +317,25 @@ class Mesh(Saveable, GeometricObject):
         Subset of the mesh consisting only of the elements with the given name."""
         assert name in self.physical_to_lines or name in self.physical_to_triangles, "Physical group not in mesh, so cannot extract"
 
-        if name in self.physical_to_lines:
-            elements = self.lines
-            physical = self.physical_to_lines
-        elif name in self.physical_to_triangles:
-            elements = self.triangles
-            physical = self.physical_to_triangles
-         
-        elements_indices = np.unique(physical[name])
-        elements = elements[elements_indices]
-          
+        def extract(elements, physical):
+            if name not in physical:
+                return elements[:0], {}
+            
+            elements = elements[np.unique(physical[name])]
+            return elements, {name:np.arange(len(elements))}
+        
+        lines, physical_to_lines = extract(self.lines, self.physical_to_lines)
+        triangles, physical_to_triangles = extract(self.triangles, self.physical_to_triangles)
+        
         points_mask = np.full(len(self.points), False)
-        points_mask[elements] = True
-        points = self.points[points_mask]
-          
+        points_mask[lines] = True
+        points_mask[triangles] = True
+        
         new_index = np.cumsum(points_mask) - 1
-        elements = new_index[elements]
-        physical_to_elements = {name:np.arange(len(elements))}
-         
-        if name in self.physical_to_lines:
-            return Mesh(points=points, lines=elements, physical_to_lines=physical_to_elements)
-        elif name in self.physical_to_triangles:
-            return Mesh(points=points, triangles=elements, physical_to_triangles=physical_to_elements)
+        
+        return Mesh(points=self.points[points_mask],
+            lines=new_index[lines], physical_to_lines=physical_to_lines,
+            triangles=new_index[triangles], physical_to_triangles=physical_to_triangles)
      
     @staticmethod
     def read_file(filename,  name=None):
-- 
2.43.0


From f925d1063369ec7b4abda76cc5538ab29f32cbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 15/59] fix: mesher lost part of a quad split in one direction
 and then the other

A quad that is split in one direction only spans more than one index in the
other direction. When later splitting in that direction only the first two
indices were kept, leaving a hole in the mesh.
---
 traceon/mesher.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index ea4aa6b..1982fd7 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -993,17 +993,21 @@ def _subdivide_quads(pstack, mesh_size, to_subdivide=[], quads=[]):
         h = horizontal > ms or (horizontal > 2.5*vertical and horizontal > 1/8*ms)
         v = vertical > ms or (vertical > 2.5*horizontal and vertical > 1/8*ms)
             
+        # Halfway indices at the next depth. Note that i1-i0 (or j1-j0) is larger
+        # than one if the quad was previously split in the other direction only.
+        i_mid, j_mid = i0 + i1, j0 + j1
+         
         if h and v: # Split both horizontally and vertically
-            to_subdivide.append((depth+1, 2*i0, 2*i0+1, 2*j0, 2*j0+1))
-            to_subdivide.append((depth+1, 2*i0, 2*i0+1, 2*j0+1, 2*j0+2))
-            to_subdivide.append((depth+1, 2*i0+1, 2*i0+2, 2*j0, 2*j0+1))
-            to_subdivide.append((depth+1, 2*i0+1, 2*i0+2, 2*j0+1, 2*j0+2))
+            to_subdivide.append((depth+1, 2*i0, i_mid, 2*j0, j_mid))
+            to_subdivide.append((depth+1, 2*i0, i_mid, j_mid, 2*j1))
+            to_subdivide.append((depth+1, i_mid, 2*i1, 2*j0, j_mid))
+            to_subdivide.append((depth+1, i_mid, 2*i1, j_mid, 2*j1))
         elif h and not v: # Split only horizontally
-            to_subdivide.append((depth+1, 2*i0, 2*i1, 2*j0, 2*j0+1))
-            to_subdivide.append((depth+1, 2*i0, 2*i1, 2*j0+1, 2*j0+2)) 
+            to_subdivide.append((depth+1, 2*i0, 2*i1, 2*j0, j_mid))
+            to_subdivide.append((depth+1, 2*i0, 2*i1, j_mid, 2*j1)) 
         elif v and not h: # Split only vertically
-            to_subdivide.append((depth+1, 2*i0, 2*i0+1, 2*j0, 2*j1))
-            to_subdivide.append((depth+1, 2*i0+1, 2*i0+2, 2*j0, 2*j1))
+            to_subdivide.append((depth+1, 2*i0, i_mid, 2*j0, 2*j1))
+            to_subdivide.append((depth+1, i_mid, 2*i1, 2*j0, 2*j1))
         else: # We are done, both sides are within mesh size limits
             quads.append((depth, i0, i1, j0, j1))
 
-- 
2.43.0


From 9d901e5fb5c182e663c5b511cf337c5e6934a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 16/59] fix: Path.mesh accepts a non-integer mesh_size_factor

---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 6a4a7f8..3b9815f 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -52,7 +52,7 @@ def discretize_path(path_length, breakpoints, mesh_size, mesh_size_factor=None,
         if mesh_size is not None:
             N = max( ceil((u1-u0)/mesh_size), 3)
         elif mesh_size_factor is not None:
-            N = 3*max(mesh_size_factor, 1)
+            N = ceil(3*max(mesh_size_factor, 1))
         
         # When using higher order, we splice extra points
         # between two points in the descretization. This
-- 
2.43.0


From 6fdab13c9bf35e539dbf83d993899332a573de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 17/59] fix: stitch the correct sections when meshing a surface
 with breakpoints in both directions

The sections are generated with the second coordinate varying fastest, but
the edges were copied assuming the first coordinate varies fastest.
---
 traceon/mesher.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 1982fd7..6dcb678 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -1047,17 +1047,17 @@ def _mesh(surface, mesh_size, start_depth=2, name=None, ensure_outward_normals=T
     # Normalize all the point stacks to the max depth of all sections 
     point_with_quads = [p.normalize_to_depth(max_depth, q, start_depth) for p, q in zip(point_stacks, quads)]
     
-    # Copy over the edges
+    # Copy over the edges, see the order of the sections in Surface._sections
     Nx, Ny = len(surface.breakpoints1)+1, len(surface.breakpoints2)+1
     assert len(point_with_quads) == Nx*Ny
 
     for i in range(Nx-1):
         for j in range(Ny): # Horizontal copying
-            _copy_over_edge(point_with_quads[j*Nx + i][-1, :], point_with_quads[j*Nx + i + 1][0, :])
+            _copy_over_edge(point_with_quads[i*Ny + j][-1, :], point_with_quads[(i+1)*Ny + j][0, :])
      
     for i in range(Nx):
         for j in range(Ny-1): # Vertical copying
-            _copy_over_edge(point_with_quads[j*Nx + i][:, -1], point_with_quads[(j+1)*Nx + i][:, 0])
+            _copy_over_edge(point_with_quads[i*Ny + j][:, -1], point_with_quads[i*Ny + j + 1][:, 0])
      
     points = np.array(points)
     triangles = np.concatenate([pq.to_triangles() for pq in point_with_quads], axis=0)
-- 
2.43.0


From 76c35cbb6e11c23d10e533e82a871b98b6819130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 18/59] fix: orient the normals of bodies that touch in a point
 or edge

Triangles only connected by a vertex were not all reoriented, and the
orientation of separate bodies touching each other was mixed up.
---
 traceon/mesher.py | 73 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 17 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 6dcb678..0c33245 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -566,7 +566,7 @@ class Mesh(Saveable, GeometricObject):
         if not len(electrode_triangles):
             return
         
-        connected_indices = _get_connected_elements(electrode_triangles)
+        connected_indices = _get_orientable_elements(electrode_triangles)
         
         for indices in connected_indices:
             connected_triangles = electrode_triangles[indices]
@@ -584,7 +584,7 @@ class Mesh(Saveable, GeometricObject):
         if not len(electrode_lines):
             return
         
-        connected_indices = _get_connected_elements(electrode_lines)
+        connected_indices = _get_orientable_elements(electrode_lines)
         
         for indices in connected_indices:
             connected_lines = electrode_lines[indices]
@@ -625,16 +625,6 @@ def _compute_vertex_to_indices(elements):
     
     return vertex_to_indices
 
-def _get_element_neighbours(element, vertex_to_indices):
-    neighbours = []
-    for vertex in element:
-        n = vertex_to_indices.get(vertex, None)
-        
-        if n is not None:
-            neighbours.extend(n)
-    
-    return neighbours
-
 def _get_connected_elements(elements):
     # Get subsets of elements that are connected to each other
     # For triangle elements, this would be surfaces
@@ -668,6 +658,54 @@ def _get_connected_elements(elements):
     
     return connected_elements
 
+def _get_orientable_neighbours(elements):
+    # The orientation of two elements can be compared when they share an edge (triangles) or
+    # end point (lines). If more than two elements meet (for example where separate
+    # bodies touch) the elements do not need to agree on the orientation.
+    facet_to_indices: Dict[tuple, list] = {}
+    
+    for index, el in enumerate(elements.tolist()):
+        if len(el) == 2 or len(el) == 4:
+            facets = [(el[0],), (el[1],)]
+        else:
+            facets = [(min(a, b), max(a, b)) for a, b in [(el[0], el[1]), (el[1], el[2]), (el[2], el[0])]]
+        
+        for facet in facets:
+            facet_to_indices.setdefault(facet, []).append(index)
+    
+    neighbours: list[list[int]] = [[] for _ in range(len(elements))]
+    
+    for indices in facet_to_indices.values():
+        if len(indices) == 2:
+            i, j = indices
+            neighbours[i].append(j)
+            neighbours[j].append(i)
+    
+    return neighbours
+
+def _get_orientable_elements(elements):
+    # Get subsets of elements which should agree on the orientation
+    neighbours = _get_orientable_neighbours(elements)
+    visited = np.full(len(elements), False)
+    subsets = []
+    
+    for i in range(len(elements)):
+        if visited[i]:
+            continue
+        
+        visited[i] = True
+        subset = [i]
+         
+        for index in subset: # Note that the subset grows while iterating
+            for n in neighbours[index]:
+                if not visited[n]:
+                    visited[n] = True
+                    subset.append(n)
+        
+        subsets.append(np.array(sorted(subset)))
+    
+    return subsets
+
 
 ## Code related to checking if normals point inward or outwards, given
 ## that all the normals already agree on orientation (all inwards or all outwards)
@@ -705,9 +743,10 @@ def _reorient_triangles(triangles, points):
     if not len(triangles):
         return
      
-    vertex_to_triangles = _compute_vertex_to_indices(triangles)
+    neighbours = _get_orientable_neighbours(triangles)
         
     oriented = np.full(len(triangles), False)
+    oriented[0] = True
     active = [0]
 
     assert triangles.dtype == np.uint64
@@ -719,7 +758,7 @@ def _reorient_triangles(triangles, points):
     while active:
         ti = active.pop()
 
-        for n in _get_element_neighbours(triangles[ti], vertex_to_triangles):
+        for n in neighbours[ti]:
             assert 0 <= n < len(triangles)
             
             if oriented[n]:
@@ -768,16 +807,16 @@ def _reorient_lines(lines, points):
     # in the algorithm we don't know if we are orienting them outwards or inwards,
     # the important thing is that they all agree (all outwards or all inwards)
     
-    # Only consider first two points, in the case of higher order lines
-    vertex_to_indices = _compute_vertex_to_indices(lines[:, :2])
+    neighbours = _get_orientable_neighbours(lines)
         
     oriented = np.full(len(lines), False)
+    oriented[0] = True
     active = [0]
     
     while active:
         ti = active.pop()
 
-        for n in _get_element_neighbours(lines[ti], vertex_to_indices):
+        for n in neighbours[ti]:
             if oriented[n]:
                 continue
              
-- 
2.43.0


From 68a88a6685566e88c0cc32ba9ea10922f01b30f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 19/59] fix: orient the normals of higher order triangles

Loading a mesh with a named group of six point triangles raised an exception.
---
 traceon/mesher.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 0c33245..c99b514 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -712,7 +712,7 @@ def _get_orientable_elements(elements):
 
 def _are_triangle_normals_pointing_outwards(triangles, points):
     # Based on https://math.stackexchange.com/questions/689418/how-to-compute-surface-normal-pointing-out-of-the-object
-    triangle_points = points[triangles]
+    triangle_points = points[triangles[:, :3]]
     
     v0 = triangle_points[:, 0]
     v1 = triangle_points[:, 1]
@@ -739,6 +739,12 @@ def _are_line_normals_pointing_outwards(lines, points):
 ## Code related to ensuring normals over a connected surface/path agree in orientation.
 ## These functios allow us to flip all normals 'inward' or all 'outward'
 
+def _flip_lines(lines):
+    return lines[..., [1, 0] if lines.shape[-1] == 2 else [1, 0, 3, 2]]
+
+def _flip_triangles(triangles):
+    return triangles[..., [0, 2, 1] if triangles.shape[-1] == 3 else [0, 2, 1, 5, 4, 3]]
+
 def _reorient_triangles(triangles, points):
     if not len(triangles):
         return
@@ -752,7 +758,9 @@ def _reorient_triangles(triangles, points):
     assert triangles.dtype == np.uint64
     assert points.dtype == np.float64
      
-    triangles_ctypes = triangles.ctypes.data_as(C.c_void_p)
+    # Only consider the vertices, in the case of higher order triangles
+    vertices = np.ascontiguousarray(triangles[:, :3])
+    vertices_ctypes = vertices.ctypes.data_as(C.c_void_p)
     points_ctypes = points.ctypes.data_as(C.c_void_p)
     
     while active:
@@ -764,13 +772,13 @@ def _reorient_triangles(triangles, points):
             if oriented[n]:
                 continue
 
-            equal_orientation = B.backend_lib.triangle_orientation_is_equal(ti, n, triangles_ctypes, points_ctypes)
+            equal_orientation = B.backend_lib.triangle_orientation_is_equal(ti, n, vertices_ctypes, points_ctypes)
             
             if equal_orientation == -1: # Vertex neighbours, but not edge neighbours
                 continue
             elif equal_orientation == 0: # Not equal orientation
-                v0, v1, v2 = triangles[n]
-                triangles[n] = [v0, v2, v1] # Flip normal
+                triangles[n] = _flip_triangles(triangles[n]) # Flip normal
+                vertices[n] = triangles[n, :3]
              
             oriented[n] = True
             active.append(n)
@@ -783,9 +791,7 @@ def _ensure_triangle_orientation(triangles, points, should_be_outwards):
     outwards = _are_triangle_normals_pointing_outwards(triangles, points)
     
     if outwards != should_be_outwards:
-        for i in range(len(triangles)):
-            v0, v1, v2 = triangles[i]
-            triangles[i] = [v0, v2, v1]
+        triangles[:] = _flip_triangles(triangles)
 
 def _line_orientation_equal(index1, index2, lines):
     # Note that the orientation is equal if the lines do not
-- 
2.43.0


From baffad49b8274d72033f6652726a184bed5372c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 20/59] fix: normals point outward when a name is given to
 Mesh.read_file

---
 traceon/mesher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index c99b514..6320d53 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -357,6 +357,7 @@ class Mesh(Saveable, GeometricObject):
         if name is not None:
             mesh.physical_to_lines[name] = np.arange(len(mesh.lines))
             mesh.physical_to_triangles[name] = np.arange(len(mesh.triangles))
+            mesh.ensure_outward_normals(name)
          
         return mesh
      
-- 
2.43.0


From 5ee730a293fafc0d1db35ef7535a2bd640c6e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 21/59] fix: keep the orientation of normals when transforming
 a mesh

flip_normals had no effect on named elements, and moving, rotating, extracting
or upgrading a mesh to higher order undid ensure_inward_normals.
---
 traceon/mesher.py | 44 ++++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 6320d53..8313086 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -209,7 +209,14 @@ class Mesh(Saveable, GeometricObject):
             new_points[i] = fun(self.points[i])
         assert new_points.shape == self.points.shape and new_points.dtype == self.points.dtype
         
-        return Mesh(new_points, self.lines, self.triangles, self.physical_to_lines, self.physical_to_triangles)
+        # The normals should stay on the same side of the elements, also when mapping to the mirror image
+        center = np.mean(self.points, axis=0) if len(self.points) else np.zeros(3)
+        jacobian = np.array([fun(center + e) - fun(center) for e in np.eye(3)])
+        lines = _flip_lines(self.lines) if np.linalg.det(jacobian[::2, ::2]) < 0. else self.lines
+        triangles = _flip_triangles(self.triangles) if np.linalg.det(jacobian) < 0. else self.triangles
+        
+        return Mesh(new_points, lines, triangles, self.physical_to_lines, self.physical_to_triangles,
+            ensure_outward_normals=False)
     
     def _remove_degenerate_triangles(self):
         areas = triangle_areas(self.points[self.triangles[:,:3]])
@@ -335,7 +342,8 @@ class Mesh(Saveable, GeometricObject):
         
         return Mesh(points=self.points[points_mask],
             lines=new_index[lines], physical_to_lines=physical_to_lines,
-            triangles=new_index[triangles], physical_to_triangles=physical_to_triangles)
+            triangles=new_index[triangles], physical_to_triangles=physical_to_triangles,
+            ensure_outward_normals=False)
      
     @staticmethod
     def read_file(filename,  name=None):
@@ -454,28 +462,13 @@ class Mesh(Saveable, GeometricObject):
         Returns
         ----------------------------
         Mesh"""
-        lines = self.lines
-        triangles = self.triangles
-        
-        # Flip the orientation of the lines
-        if lines.shape[1] == 4:
-            p0, p1, p2, p3 = lines.T
-            lines = np.array([p1, p0, p3, p2]).T
-        else:
-            p0, p1 = lines.T
-            lines = np.array([p1, p0]).T
-          
-        # Flip the orientation of the triangles
-        if triangles.shape[1] == 6:
-            p0, p1, p2, p3, p4, p5 = triangles.T
-            triangles = np.array([p0, p2, p1, p5, p4, p3]).T
-        else:
-            p0, p1, p2 = triangles.T
-            triangles = np.array([p0, p2, p1]).T
+        lines = _flip_lines(self.lines)
+        triangles = _flip_triangles(self.triangles)
         
         return Mesh(self.points, lines, triangles,
             physical_to_lines=self.physical_to_lines,
-            physical_to_triangles=self.physical_to_triangles)
+            physical_to_triangles=self.physical_to_triangles,
+            ensure_outward_normals=False)
      
     def remove_lines(self):
         """Remove all the lines from the mesh.
@@ -483,7 +476,8 @@ class Mesh(Saveable, GeometricObject):
         Returns
         -----------------------------
         Mesh"""
-        return Mesh(self.points, triangles=self.triangles, physical_to_triangles=self.physical_to_triangles)
+        return Mesh(self.points, triangles=self.triangles, physical_to_triangles=self.physical_to_triangles,
+            ensure_outward_normals=False)
     
     def remove_triangles(self):
         """Remove all triangles from the mesh.
@@ -491,7 +485,8 @@ class Mesh(Saveable, GeometricObject):
         Returns
         -------------------------------------
         Mesh"""
-        return Mesh(self.points, lines=self.lines, physical_to_lines=self.physical_to_lines)
+        return Mesh(self.points, lines=self.lines, physical_to_lines=self.physical_to_lines,
+            ensure_outward_normals=False)
      
     def get_electrodes(self):
         """Get the names of all the named groups (i.e. electrodes) in the mesh
@@ -541,7 +536,8 @@ class Mesh(Saveable, GeometricObject):
 
         return Mesh(points=points,
             lines=lines, physical_to_lines=self.physical_to_lines,
-            triangles=triangles, physical_to_triangles=self.physical_to_triangles)
+            triangles=triangles, physical_to_triangles=self.physical_to_triangles,
+            ensure_outward_normals=False)
      
     def __str__(self):
         physical_lines = ', '.join(self.physical_to_lines.keys())
-- 
2.43.0


From aeb8a514cc3f2162bb67ee90002e4614b2ce9137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 22/59] fix: adding meshes keeps the orientation of their
 normals

Only a surface or path of which the parts come from both meshes is
oriented outward.
---
 traceon/mesher.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 8313086..f45e974 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -211,7 +211,7 @@ class Mesh(Saveable, GeometricObject):
         
         # The normals should stay on the same side of the elements, also when mapping to the mirror image
         center = np.mean(self.points, axis=0) if len(self.points) else np.zeros(3)
-        jacobian = np.array([fun(center + e) - fun(center) for e in np.eye(3)])
+        jacobian = np.array([np.subtract(fun(center + e), fun(center)) for e in np.eye(3)])
         lines = _flip_lines(self.lines) if np.linalg.det(jacobian[::2, ::2]) < 0. else self.lines
         triangles = _flip_triangles(self.triangles) if np.linalg.det(jacobian) < 0. else self.triangles
         
@@ -288,7 +288,22 @@ class Mesh(Saveable, GeometricObject):
         A new mesh consisting of the elements of the added meshes"""
         if not isinstance(other, Mesh):
             return NotImplemented
-         
+        
+        mesh = self._concatenate(other)
+        
+        # Keep the orientation of the normals of both meshes, except when they
+        # are parts of the same surface/path.
+        for name in mesh.physical_to_triangles:
+            first = len(self.physical_to_triangles.get(name, []))
+            mesh._ensure_normal_orientation_triangles(name, True, first)
+        
+        for name in mesh.physical_to_lines:
+            first = len(self.physical_to_lines.get(name, []))
+            mesh._ensure_normal_orientation_lines(name, True, first)
+        
+        return mesh
+    
+    def _concatenate(self, other):
         N_points = len(self.points)
         N_lines = len(self.lines)
         N_triangles = len(self.triangles)
@@ -307,7 +322,8 @@ class Mesh(Saveable, GeometricObject):
                     lines=lines,
                     triangles=triangles,
                     physical_to_lines=physical_lines,
-                    physical_to_triangles=physical_triangles)
+                    physical_to_triangles=physical_triangles,
+                    ensure_outward_normals=False)
      
     def extract_physical_group(self, name):
         """Extract a named group from the mesh.
@@ -554,7 +570,7 @@ class Mesh(Saveable, GeometricObject):
             f'\tPhysical triangles: {physical_triangles}\n' \
             f'\tElements in physical triangle groups: {physical_triangles_nums}>'
 
-    def _ensure_normal_orientation_triangles(self, electrode, outwards):
+    def _ensure_normal_orientation_triangles(self, electrode, outwards, first=None):
         assert electrode in self.physical_to_triangles, "electrode should be part of mesh"
         
         triangle_indices = self.physical_to_triangles[electrode]
@@ -566,13 +582,16 @@ class Mesh(Saveable, GeometricObject):
         connected_indices = _get_orientable_elements(electrode_triangles)
         
         for indices in connected_indices:
+            if first is not None and (np.all(indices < first) or np.all(indices >= first)):
+                continue
+            
             connected_triangles = electrode_triangles[indices]
             _ensure_triangle_orientation(connected_triangles, self.points, outwards)
             electrode_triangles[indices] = connected_triangles
 
         self.triangles[triangle_indices] = electrode_triangles
      
-    def _ensure_normal_orientation_lines(self, electrode, outwards):
+    def _ensure_normal_orientation_lines(self, electrode, outwards, first=None):
         assert electrode in self.physical_to_lines, "electrode should be part of mesh"
         
         line_indices = self.physical_to_lines[electrode]
@@ -584,6 +603,9 @@ class Mesh(Saveable, GeometricObject):
         connected_indices = _get_orientable_elements(electrode_lines)
         
         for indices in connected_indices:
+            if first is not None and (np.all(indices < first) or np.all(indices >= first)):
+                continue
+            
             connected_lines = electrode_lines[indices]
             _ensure_line_orientation(connected_lines, self.points, outwards)
             electrode_lines[indices] = connected_lines
-- 
2.43.0


From 824a99210b034c9da6011ddc5a586b3af50f0c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 23/59] fix: ensure_outward_normals=False when meshing a
 collection

---
 traceon/geometry.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 3b9815f..f16f215 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -783,9 +783,13 @@ class PathCollection(GeometricObject):
         name = self.name if name is None else name
         
         for p in self.paths:
-            mesh = mesh + p.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor,
-                                higher_order=higher_order, name=name, ensure_outward_normals=ensure_outward_normals)
-
+            mesh = mesh._concatenate(p.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor,
+                                higher_order=higher_order, name=name, ensure_outward_normals=False))
+        
+        if ensure_outward_normals:
+            for electrode in mesh.get_electrodes():
+                mesh.ensure_outward_normals(electrode)
+        
         return mesh
 
     def _map_to_surfaces(self, f, *args, **kwargs):
@@ -1378,8 +1382,12 @@ class SurfaceCollection(GeometricObject):
         name = self.name if name is None else name
         
         for s in self.surfaces:
-            mesh = mesh + s.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor, name=name, ensure_outward_normals=ensure_outward_normals)
-         
+            mesh = mesh._concatenate(s.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor, name=name, ensure_outward_normals=False))
+        
+        if ensure_outward_normals:
+            for electrode in mesh.get_electrodes():
+                mesh.ensure_outward_normals(electrode)
+        
         return mesh
      
     def __add__(self, other):
-- 
2.43.0


From b0e6a9bf1096d718d0b965defea57dc69427f764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 24/59] fix: merge all points of a mesh which are equal up to
 rounding errors

Truncating the mantissa keeps points that are equal up to rounding, for example
0.25 and the largest double below it. Surfaces meshed in parts were not connected.
---
 traceon/mesher.py | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index f45e974..50c52ab 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -8,6 +8,9 @@ import ctypes as C
 from typing import Dict
 
 import meshio
+from scipy.sparse import coo_matrix
+from scipy.sparse.csgraph import connected_components
+from scipy.spatial import cKDTree
 
 from .util import Saveable
 from .backend import triangle_areas
@@ -236,31 +239,26 @@ class Mesh(Saveable, GeometricObject):
         if not len(self.points):
             return
          
-        # Step 1: Make a copy of the points array using np.array
-        points_copy = np.array(self.points, dtype=np.float64)
-
-        # Step 2: Zero the low 16 bits of the mantissa of the X, Y, Z coordinates
-        points_copy.view(np.uint64)[:] &= np.uint64(0xFFFFFFFFFFFF0000)
-
-        # Step 3: Use Numpy lexsort directly on points_copy
-        sorted_indices = np.lexsort(points_copy.T)
-        points_sorted = points_copy[sorted_indices]
-
-        # Step 4: Create a mask to identify unique points
-        equal_to_previous = np.all(points_sorted[1:] == points_sorted[:-1], axis=1)
-        keep_mask = np.concatenate(([True], ~equal_to_previous))
-
-        # Step 5: Compute new indices for the unique points
-        new_indices_in_sorted_order = np.cumsum(keep_mask) - 1
-
-        # Map old indices to new indices
-        old_to_new_indices = np.empty(len(points_copy), dtype=np.uint64)
-        old_to_new_indices[sorted_indices] = new_indices_in_sorted_order
+        # Find the pairs of points that are equal up to rounding errors
+        tolerance = 2.**-36 * np.max(np.abs(self.points))
+        pairs = cKDTree(self.points).query_pairs(tolerance, output_type='ndarray')
+        
+        # Points are connected to each other if they should be merged into one point
+        N = len(self.points)
+        graph = coo_matrix((np.ones(len(pairs)), (pairs[:, 0], pairs[:, 1])), shape=(N, N))
+        _, labels = connected_components(graph, directed=False)
+        
+        # Keep the first of every set of equal points, in sorted order
+        _, keep = np.unique(labels, return_index=True)
+        order = np.lexsort(self.points[keep].T)
+        
+        new_indices = np.empty(len(keep), dtype=np.uint64)
+        new_indices[order] = np.arange(len(keep))
+        old_to_new_indices = new_indices[labels]
         
-        # Step 6: Update the points array with unique points
-        self.points = points_sorted[keep_mask]
+        self.points = self.points[keep[order]]
 
-        # Step 7: Update all indices
+        # Update all indices
         if len(self.triangles):
             self.triangles = old_to_new_indices[self.triangles]
         if len(self.lines):
-- 
2.43.0


From 6867943419317586fd36f5480828878d91abe2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 25/59] fix: normals of closed surfaces made of unequally
 meshed parts point outward

For example, the faces of Surface.box and of an enclosed extrusion are meshed with
a different number of triangles along the common edges. They were oriented
separately, although the orientation of an open surface is not well defined.
---
 traceon/mesher.py | 72 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 68 insertions(+), 4 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 50c52ab..f63b1bd 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -578,12 +578,18 @@ class Mesh(Saveable, GeometricObject):
             return
         
         connected_indices = _get_orientable_elements(electrode_triangles)
+        oriented_triangles = electrode_triangles.copy()
         
         for indices in connected_indices:
+            connected_triangles = oriented_triangles[indices]
+            _reorient_triangles(connected_triangles, self.points)
+            oriented_triangles[indices] = connected_triangles
+        
+        for indices in _join_surfaces(connected_indices, oriented_triangles, self.points):
             if first is not None and (np.all(indices < first) or np.all(indices >= first)):
                 continue
             
-            connected_triangles = electrode_triangles[indices]
+            connected_triangles = oriented_triangles[indices]
             _ensure_triangle_orientation(connected_triangles, self.points, outwards)
             electrode_triangles[indices] = connected_triangles
 
@@ -800,11 +806,69 @@ def _reorient_triangles(triangles, points):
             oriented[n] = True
             active.append(n)
 
+def _join_surfaces(surfaces, triangles, points):
+    # The vertices along the common edge of two surfaces are not all the same if
+    # the surfaces are not equally finely meshed. The surfaces nevertheless form one closed surface, so they have
+    # to agree on the orientation: they should traverse the common edge in opposite directions.
+    # Here, surfaces is a list of arrays with the indices of the triangles making up the surface.
+    vertices = triangles[:, :3].astype(np.int64)
+    surface_index = np.empty(len(triangles), dtype=np.int64)
+    
+    for i, indices in enumerate(surfaces):
+        surface_index[indices] = i
+    
+    # Find the edges which are part of only one triangle
+    edges = np.concatenate((vertices[:, [0,1]], vertices[:, [1,2]], vertices[:, [2,0]]))
+    edge_surface = np.tile(surface_index, 3)
+    _, inverse, counts = np.unique(np.sort(edges, axis=1), axis=0, return_inverse=True, return_counts=True)
+    is_boundary = counts[inverse.ravel()] == 1
+    
+    # The direction in which a surface traverses its boundary, at the vertices of the boundary
+    directions: Dict[int, dict] = {}
+    
+    for (v0, v1), i in zip(edges[is_boundary], edge_surface[is_boundary]):
+        direction = (points[v1] - points[v0])/np.linalg.norm(points[v1] - points[v0])
+        
+        for v in (v0, v1):
+            at_vertex = directions.setdefault(v, {})
+            at_vertex[i] = at_vertex.get(i, 0.) + direction
+    
+    # Positive if the two surfaces traverse the common edge in the same direction
+    alignment: Dict[tuple, float] = {}
+    
+    for at_vertex in directions.values():
+        for i in at_vertex:
+            for j in at_vertex:
+                if i < j:
+                    alignment[i, j] = alignment.get((i, j), 0.) + np.dot(at_vertex[i], at_vertex[j])
+    
+    # Join the surfaces, starting with the ones that have most of their edge in common
+    joined = {i:[i] for i in range(len(surfaces))}
+    flipped = np.full(len(surfaces), False)
+    
+    for (i, j), a in sorted(alignment.items(), key=lambda item: -abs(item[1])):
+        if a == 0. or joined[i] is joined[j]:
+            continue
+        
+        if (a > 0.) != (flipped[i] != flipped[j]):
+            for k in joined[j]:
+                flipped[k] = not flipped[k]
+        
+        joined[i].extend(joined[j])
+
+        for k in joined[j]:
+            joined[k] = joined[i]
+    
+    for indices, flip in zip(surfaces, flipped):
+        if flip:
+            triangles[indices] = _flip_triangles(triangles[indices])
+    
+    return [np.concatenate([surfaces[j] for j in js]) for i, js in joined.items() if js[0] == i]
+
 def _ensure_triangle_orientation(triangles, points, should_be_outwards):
     # Ensure the triangles forming a closed surface have their
-    # normals either outwards (should_be_outwards is True) or inwards (should_be_outwards is False)
-    _reorient_triangles(triangles, points)
-    
+    # normals either outwards (should_be_outwards is True) or inwards (should_be_outwards is False).
+    # The triangles already agree on the orientation.
     outwards = _are_triangle_normals_pointing_outwards(triangles, points)
     
     if outwards != should_be_outwards:
-- 
2.43.0


From a093ad70c6c30ad24467662f8d612da01458e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 26/59] fix: write meshes in formats that do not support
 unsigned integers

For example, writing triangles to a .msh file raised a KeyError.
---
 traceon/mesher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index f63b1bd..a136653 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -408,11 +408,11 @@ class Mesh(Saveable, GeometricObject):
         
         if len(self.lines):
             line_type = 'line' if self.lines.shape[1] == 2 else 'line4'
-            to_write.append( (line_type, self.lines) )
+            to_write.append( (line_type, self.lines.astype(np.int64)) )
         
         if len(self.triangles):
             triangle_type = 'triangle' if self.triangles.shape[1] == 3 else 'triangle6'
-            to_write.append( (triangle_type, self.triangles) )
+            to_write.append( (triangle_type, self.triangles.astype(np.int64)) )
         
         return meshio.Mesh(self.points, to_write)
      
-- 
2.43.0


From 8a7096ed2465a2a1ec38c991c838144afc607938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 27/59] fix: arithmetic of the fields returned by the solver

Multiplication by a scalar, subtraction and negation raised an exception. The field bounds are kept.
---
 traceon/solver.py | 68 ++++++++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index 05c8c3e..a57c0e8 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -50,6 +50,7 @@ from threading import Thread
 import os.path as path
 import copy
 from abc import ABC, abstractmethod
+from numbers import Real
 from typing import Dict, Tuple
 
 import numpy as np
@@ -373,9 +374,12 @@ class EffectivePointCharges:
                 np.concatenate([self.jacobians, other.jacobians]),
                 np.concatenate([self.positions, other.positions]))
     
+    def __sub__(self, other):
+        return self.__add__(-other)
+    
     def __mul__(self, other):
-        if isinstance(other, int) or isinstance(other, float):
-            return EffectivePointCharges(other*self.charges, self.jacobians, self.positions)
+        if isinstance(other, Real):
+            return EffectivePointCharges(float(other)*self.charges, self.jacobians, self.positions)
         
         return NotImplemented
     
@@ -573,41 +577,45 @@ class FieldBEM(Field, ABC):
     def is_magnetostatic(self):
         return len(self.magnetostatic_point_charges) > 0 or len(self.current_point_charges) > 0 
      
-    def __add__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__add__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__add__(other.magnetostatic_point_charges),
-            self.current_point_charges.__add__(other.current_point_charges))
+    def _with_charges(self, electrostatic, magnetostatic, current):
+        # Create a field of the same kind, having the same bounds, produced by the given charges.
+        result = self.__class__(electrostatic, magnetostatic, current)
+        result.field_bounds = None if self.field_bounds is None else self.field_bounds.copy()
+        return result
      
-    def __sub__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__sub__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__sub__(other.magnetostatic_point_charges),
-            self.current_point_charges.__sub__(other.current_point_charges))
+    def __add__(self, other):
+        if not isinstance(other, self.__class__):
+            return NotImplemented
+        
+        if (self.field_bounds is None) != (other.field_bounds is None) or \
+                (self.field_bounds is not None and not np.array_equal(self.field_bounds, other.field_bounds)):
+            raise ValueError("Cannot add fields which have different field bounds.")
+        
+        return self._with_charges(
+            self.electrostatic_point_charges + other.electrostatic_point_charges,
+            self.magnetostatic_point_charges + other.magnetostatic_point_charges,
+            self.current_point_charges + other.current_point_charges)
     
-    def __radd__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__radd__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__radd__(other.magnetostatic_point_charges),
-            self.current_point_charges.__radd__(other.current_point_charges))
+    def __sub__(self, other):
+        if not isinstance(other, self.__class__):
+            return NotImplemented
+         
+        return self.__add__(-other)
     
     def __mul__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__mul__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__mul__(other.magnetostatic_point_charges),
-            self.current_point_charges.__mul__(other.current_point_charges))
+        if not isinstance(other, Real):
+            return NotImplemented
+        
+        return self._with_charges(
+            self.electrostatic_point_charges * other,
+            self.magnetostatic_point_charges * other,
+            self.current_point_charges * other)
     
-    def __neg__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__neg__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__neg__(other.magnetostatic_point_charges),
-            self.current_point_charges.__neg__(other.current_point_charges))
+    def __neg__(self):
+        return -1*self
      
     def __rmul__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__rmul__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__rmul__(other.magnetostatic_point_charges),
-            self.current_point_charges.__rmul__(other.current_point_charges))
+        return self.__mul__(other)
      
     def area_of_elements(self, indices):
         """Compute the total area of the elements at the given indices.
-- 
2.43.0


From 594a19bed3b63b07ebb03fd0c633ce39c60af249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 28/59] fix: addition of 3D fields

solve_direct failed on 3D excitations that are both electrostatic and magnetostatic.
---
 traceon/solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index a57c0e8..952becd 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -852,7 +852,9 @@ class Field3D_BEM(FieldBEM):
     """An electrostatic field resulting from a general 3D geometry. The field is a result of the surface charges as computed by the
     `solve_direct` function. See the comments in `FieldBEM`."""
      
-    def __init__(self, electrostatic_point_charges=None, magnetostatic_point_charges=None):
+    def __init__(self, electrostatic_point_charges=None, magnetostatic_point_charges=None, current_point_charges=None):
+        
+        assert current_point_charges is None or len(current_point_charges) == 0, "Currents are not supported in 3D"
         
         if electrostatic_point_charges is None:
             electrostatic_point_charges = EffectivePointCharges.empty_3d()
-- 
2.43.0


From 9180ef7a351257f4a67decab69fb0c7a0cd24ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 29/59] fix: arithmetic of axially interpolated fields

The operators called the constructor of FieldRadialAxial with the wrong arguments. The result is
electrostatic (magnetostatic) whenever an operand is.
---
 traceon/interpolation.py | 28 +++++++++++++++++++++++++---
 traceon/solver.py        | 26 +++++++++++++++++++++++---
 2 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/traceon/interpolation.py b/traceon/interpolation.py
index 05a264b..fbea936 100644
--- a/traceon/interpolation.py
+++ b/traceon/interpolation.py
@@ -1,5 +1,7 @@
+import copy
 import time
 from abc import ABC, abstractmethod
+from numbers import Real
 
 import numpy as np
 from scipy.interpolate import CubicSpline, BPoly, PPoly
@@ -43,24 +45,44 @@ class FieldAxial(S.Field, ABC):
         name = self.__class__.__name__
         return f'<Traceon {name}, zmin={self.z[0]} mm, zmax={self.z[-1]} mm,\n\tNumber of samples on optical axis: {len(self.z)}>'
      
+    def _with_coefficients(self, electrostatic_coeffs, magnetostatic_coeffs, has_electrostatic, has_magnetostatic):
+        # Create a field of the same kind having the given axial coefficients.
+        result = copy.copy(self)
+        result.electrostatic_coeffs = electrostatic_coeffs
+        result.magnetostatic_coeffs = magnetostatic_coeffs
+        result.has_electrostatic = has_electrostatic
+        result.has_magnetostatic = has_magnetostatic
+        return result
+     
     def __add__(self, other):
         if isinstance(other, FieldAxial):
             assert np.array_equal(self.z, other.z), "Cannot add FieldAxial if optical axis sampling is different."
             assert self.electrostatic_coeffs.shape == other.electrostatic_coeffs.shape, "Cannot add FieldAxial if shape of axial coefficients is unequal."
             assert self.magnetostatic_coeffs.shape == other.magnetostatic_coeffs.shape, "Cannot add FieldAxial if shape of axial coefficients is unequal."
-            return self.__class__(self.z, self.electrostatic_coeffs+other.electrostatic_coeffs, self.magnetostatic_coeffs + other.magnetostatic_coeffs)
+            return self._with_coefficients(
+                self.electrostatic_coeffs + other.electrostatic_coeffs,
+                self.magnetostatic_coeffs + other.magnetostatic_coeffs,
+                self.has_electrostatic or other.has_electrostatic,
+                self.has_magnetostatic or other.has_magnetostatic)
          
         return NotImplemented
     
     def __sub__(self, other):
+        if not isinstance(other, FieldAxial):
+            return NotImplemented
+        
         return self.__add__(-other)
     
     def __radd__(self, other):
         return self.__add__(other)
      
     def __mul__(self, other):
-        if isinstance(other, int) or isinstance(other, float):
-            return self.__class__(self.z, other*self.electrostatic_coeffs, other*self.magnetostatic_coeffs)
+        if isinstance(other, Real):
+            return self._with_coefficients(
+                float(other)*self.electrostatic_coeffs,
+                float(other)*self.magnetostatic_coeffs,
+                self.has_electrostatic,
+                self.has_magnetostatic)
          
         return NotImplemented
     
diff --git a/traceon/solver.py b/traceon/solver.py
index 952becd..63e396e 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -990,24 +990,44 @@ class FieldAxial(Field):
         name = self.__class__.__name__
         return f'<Traceon {name}, zmin={self.z[0]} mm, zmax={self.z[-1]} mm,\n\tNumber of samples on optical axis: {len(self.z)}>'
      
+    def _with_coefficients(self, electrostatic_coeffs, magnetostatic_coeffs, has_electrostatic, has_magnetostatic):
+        # Create a field of the same kind having the given axial coefficients.
+        result = copy.copy(self)
+        result.electrostatic_coeffs = electrostatic_coeffs
+        result.magnetostatic_coeffs = magnetostatic_coeffs
+        result.has_electrostatic = has_electrostatic
+        result.has_magnetostatic = has_magnetostatic
+        return result
+     
     def __add__(self, other):
         if isinstance(other, FieldAxial):
             assert np.array_equal(self.z, other.z), "Cannot add FieldAxial if optical axis sampling is different."
             assert self.electrostatic_coeffs.shape == other.electrostatic_coeffs.shape, "Cannot add FieldAxial if shape of axial coefficients is unequal."
             assert self.magnetostatic_coeffs.shape == other.magnetostatic_coeffs.shape, "Cannot add FieldAxial if shape of axial coefficients is unequal."
-            return self.__class__(self.z, self.electrostatic_coeffs+other.electrostatic_coeffs, self.magnetostatic_coeffs + other.magnetostatic_coeffs)
+            return self._with_coefficients(
+                self.electrostatic_coeffs + other.electrostatic_coeffs,
+                self.magnetostatic_coeffs + other.magnetostatic_coeffs,
+                self.has_electrostatic or other.has_electrostatic,
+                self.has_magnetostatic or other.has_magnetostatic)
          
         return NotImplemented
     
     def __sub__(self, other):
+        if not isinstance(other, FieldAxial):
+            return NotImplemented
+        
         return self.__add__(-other)
     
     def __radd__(self, other):
         return self.__add__(other)
      
     def __mul__(self, other):
-        if isinstance(other, int) or isinstance(other, float):
-            return self.__class__(self.z, other*self.electrostatic_coeffs, other*self.magnetostatic_coeffs)
+        if isinstance(other, Real):
+            return self._with_coefficients(
+                float(other)*self.electrostatic_coeffs,
+                float(other)*self.magnetostatic_coeffs,
+                self.has_electrostatic,
+                self.has_magnetostatic)
          
         return NotImplemented
     
-- 
2.43.0


From 86106f411efcd43e63853f0962d3b3c85aff1e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 30/59] fix: default number of samples when interpolating the
 field of a coil

Without any electrostatic or magnetostatic charges the number of samples was zero.
---
 traceon/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/interpolation.py b/traceon/interpolation.py
index fbea936..456080f 100644
--- a/traceon/interpolation.py
+++ b/traceon/interpolation.py
@@ -137,8 +137,8 @@ class FieldRadialAxial(FieldAxial):
     def _get_interpolation_coefficients(field: S.FieldRadialBEM, zmin, zmax, N=None):
         assert zmax > zmin, "zmax should be bigger than zmin"
 
-        N_charges = max(len(field.electrostatic_point_charges.charges), len(field.magnetostatic_point_charges.charges))
-        N = N if N is not None else int(FACTOR_AXIAL_DERIV_SAMPLING_2D*N_charges)
+        N_charges = max(len(field.electrostatic_point_charges), len(field.magnetostatic_point_charges), len(field.current_point_charges))
+        N = N if N is not None else max(2, int(FACTOR_AXIAL_DERIV_SAMPLING_2D*N_charges))
         z = np.linspace(zmin, zmax, N)
         
         st = time.time()
-- 
2.43.0


From c9886f825d8dc9a69b013c4681261d59b1a1d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 31/59] fix: field_3d_derivs returns the field

---
 traceon/backend/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 72323d0..4b2916e 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -487,6 +487,7 @@ def field_3d_derivs(point, z, coeffs):
 
     field = np.zeros( (3,) )
     backend_lib.field_3d_derivs(point.astype(np.float64), field, z, coeffs, len(z))
+    return field
 
 current_potential_axial_radial_ring = backend_lib.current_potential_axial_radial_ring
 
-- 
2.43.0


From 6016667d1d0bb7b0055d3bb7d681d15c31be0fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 32/59] fix: current field at a point given by integers

---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 4b2916e..dcf01e1 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -516,7 +516,7 @@ def current_field(p0, currents, jac_buffer, pos_buffer):
     assert np.all(pos_buffer[:, :, 1] == 0.)
     
     result = np.zeros( (3,) )
-    backend_lib.current_field(p0, result, currents, jac_buffer, pos_buffer, N)
+    backend_lib.current_field(p0.astype(np.float64), result, currents, jac_buffer, pos_buffer, N)
     return result
 
 def current_axial_derivatives_radial(z, currents, jac_buffer, pos_buffer):
-- 
2.43.0


From 6caab703c8f1f4d89811923e93475f030a1f8b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 33/59] fix: do not print when adding a magnetostatic boundary

---
 traceon/excitation.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/traceon/excitation.py b/traceon/excitation.py
index f7c7ea7..d3c31d1 100644
--- a/traceon/excitation.py
+++ b/traceon/excitation.py
@@ -224,7 +224,6 @@ class Excitation:
         """
         if ensure_inward_normals:
             for electrode in args:
-                print('flipping normals', electrode)
                 self.mesh.ensure_inward_normals(electrode)
         
         self.add_magnetizable(**{a:0 for a in args})
-- 
2.43.0


From f58579dfa82b8083e528dfab78c27fd9d4a28aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 34/59] fix: any number of threads can be used to fill the
 matrix

A thread which was assigned a single row (or none) failed, the exception was lost and the rows
remained zero. Exceptions raised in a thread are now raised to the caller.
---
 traceon/backend/__init__.py |  2 +-
 traceon/solver.py           |  3 +++
 traceon/util.py             | 10 +++++++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index dcf01e1..7243024 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -578,7 +578,7 @@ def fill_matrix_radial(matrix, lines, excitation_types, excitation_values, jac_b
     assert excitation_values.shape == (N,)
     assert jac_buffer.shape == (N, N_QUAD_2D)
     assert pos_buffer.shape == (N, N_QUAD_2D, 2)
-    assert 0 <= start_index < N and 0 <= end_index < N and start_index < end_index
+    assert 0 <= start_index < N and 0 <= end_index < N and start_index <= end_index
      
     backend_lib.fill_matrix_radial(matrix, lines, excitation_types, excitation_values, jac_buffer, pos_buffer, N, matrix.shape[0], start_index, end_index)
 
diff --git a/traceon/solver.py b/traceon/solver.py
index 63e396e..15d099f 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -155,6 +155,9 @@ class Solver(ABC):
         fill_fun = backend.fill_matrix_3d if self.is_3d() else backend.fill_matrix_radial
         
         def fill_matrix_rows(rows):
+            if not len(rows): # More threads than rows
+                return
+            
             fill_fun(matrix,
                 self.vertices,
                 self.excitation_types,
diff --git a/traceon/util.py b/traceon/util.py
index cd695a8..de6ee24 100644
--- a/traceon/util.py
+++ b/traceon/util.py
@@ -63,8 +63,13 @@ def split_collect(f, array: np.ndarray) -> List[np.ndarray]:
      
     results = [np.zeros(0)]*len(args)
     
+    exceptions: List[BaseException] = []
+    
     def set_result(index):
-        results[index] = f(args[index])
+        try:
+            results[index] = f(args[index])
+        except BaseException as e:
+            exceptions.append(e)
     
     threads = [Thread(target=set_result, args=(i,)) for i in range(len(args))]
      
@@ -72,6 +77,9 @@ def split_collect(f, array: np.ndarray) -> List[np.ndarray]:
         t.start()
     for t in threads:
         t.join()
+    
+    if len(exceptions):
+        raise exceptions[0]
 
     return results
             
-- 
2.43.0


From 493fce363006e105b03cebe681c8427cb64c619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 35/59] fix: axial interpolation at the last sample

At the end of the interval the coefficients were read beyond the end of the array (there are N_z-1 intervals).
---
 traceon/backend/radial.c  | 8 ++++----
 traceon/backend/three_d.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/traceon/backend/radial.c b/traceon/backend/radial.c
index 2d09cbb..f8a7d4e 100644
--- a/traceon/backend/radial.c
+++ b/traceon/backend/radial.c
@@ -324,9 +324,9 @@ potential_radial_derivs(double point[3], double *z_inter, double *coeff_p, size_
 	double dz = z_inter[1] - z_inter[0];
 	int index = (int) ( (z-z0)/dz );
 	
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1 (number of intervals)
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, (int) N_z-2);
 			
 	double diffz = z - z_inter[index];
 		
@@ -356,9 +356,9 @@ field_radial_derivs(double point[3], double field[3], double *z_inter, double *c
 	
 	double dz = z_inter[1] - z_inter[0];
 	int index = (int) ( (z-z0)/dz );
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1 (number of intervals)
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, (int) N_z-2);
 		
 	double diffz = z - z_inter[index];
 		
diff --git a/traceon/backend/three_d.c b/traceon/backend/three_d.c
index efba5a4..9526c24 100644
--- a/traceon/backend/three_d.c
+++ b/traceon/backend/three_d.c
@@ -208,9 +208,9 @@ potential_3d_derivs(double point[3], double *zs, double *coeffs_p, size_t N_z) {
 	
 	double dz = zs[1] - zs[0];
 	int index = (int) ((zp-zs[0])/dz);
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1 (number of intervals)
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, (int) N_z-2);
 		
 	
 	double z_ = zp - zs[index];
@@ -249,9 +249,9 @@ field_3d_derivs(double point[3], double field[3], double *restrict zs, double *r
 		
 	double dz = zs[1] - zs[0];
 	int index = (int) ((zp-zs[0])/dz);
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1 (number of intervals)
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, (int) N_z-2);
 		
 	double z_ = zp - zs[index];
 
-- 
2.43.0


From f0ddfb8554e5344388b68f7947ccc322ccccb0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 36/59] fix: superposition of electrostatic and magnetostatic
 excitations

Every field returned by solve_direct_superposition contained the field of all coils at their full
current, the field of a group with a voltage was replaced by a magnetostatic field if currents were
present as well, and the magnetostatic potentials were added to the field of every other group.
---
 traceon/excitation.py | 15 +++++++--------
 traceon/solver.py     | 40 +++++++++++++++++++++++-----------------
 2 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/traceon/excitation.py b/traceon/excitation.py
index d3c31d1..1766743 100644
--- a/traceon/excitation.py
+++ b/traceon/excitation.py
@@ -230,10 +230,13 @@ class Excitation:
     
     def _split_for_superposition(self):
         
-        # Names that have a fixed voltage excitation, not equal to 0.0
+        source_types = [ExcitationType.VOLTAGE_FIXED, ExcitationType.CURRENT, ExcitationType.MAGNETOSTATIC_POT]
+         
+        # Names that have a fixed excitation, not equal to 0.0
         types = self.excitation_types
-        non_zero_fixed = [n for n, (t, v) in types.items() if t in [ExcitationType.VOLTAGE_FIXED,
-                                                                    ExcitationType.CURRENT] and v != 0.0]
+        non_zero_fixed = [n for n, (t, v) in types.items() if t in source_types and v != 0.0]
+        
+        assert all(t != ExcitationType.VOLTAGE_FUN for t, _ in types.values()), "VOLTAGE_FUN excitation not supported for superposition."
         
         excitations = []
          
@@ -242,13 +245,9 @@ class Excitation:
             new_types_dict = {}
              
             for n, (t, v) in types.items():
-                assert t != ExcitationType.VOLTAGE_FUN, "VOLTAGE_FUN excitation not supported for superposition."
-                 
                 if n == name:
                     new_types_dict[n] = (t, 1.0)
-                elif t == ExcitationType.VOLTAGE_FIXED:
-                    new_types_dict[n] = (t, 0.0)
-                elif t == ExcitationType.CURRENT:
+                elif t in source_types:
                     new_types_dict[n] = (t, 0.0)
                 else:
                     new_types_dict[n] = (t, v)
diff --git a/traceon/solver.py b/traceon/solver.py
index 15d099f..cd12649 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -189,14 +189,12 @@ class Solver(ABC):
     def charges_to_field(self, charges):
         ...
          
-    def solve_matrix(self, right_hand_side=None):
-        F = np.array([self.get_right_hand_side()]) if right_hand_side is None else right_hand_side
-        
+    def solve_charges(self, right_hand_sides):
+        F = right_hand_sides
         N = self.get_number_of_matrix_elements()
          
         if N == 0:
-            return [self.charges_to_field(EffectivePointCharges.empty_2d() if self.is_2d() else EffectivePointCharges.empty_3d()) \
-                        for _ in range(len(F))]
+            return [(EffectivePointCharges.empty_2d() if self.is_2d() else EffectivePointCharges.empty_3d()) for _ in range(len(F))]
         
         assert all([f.shape == (N,) for f in F])
         matrix = self.get_matrix()
@@ -206,7 +204,12 @@ class Solver(ABC):
         logging.log_info(f'Time for solving matrix: {(time.time()-st)*1000:.0f} ms')
         assert np.all(np.isfinite(charges)) and charges.shape == F.shape
         
-        result = [self.charges_to_field(EffectivePointCharges(c, self.jac_buffer, self.pos_buffer)) for c in charges]
+        return [EffectivePointCharges(c, self.jac_buffer, self.pos_buffer) for c in charges]
+     
+    def solve_matrix(self, right_hand_side=None):
+        F = np.array([self.get_right_hand_side()]) if right_hand_side is None else right_hand_side
+        
+        result = [self.charges_to_field(c) for c in self.solve_charges(F)]
          
         assert len(result) == len(F)
         return result
@@ -425,19 +428,22 @@ def solve_direct_superposition(excitation):
     # Speedup: invert matrix only once, when using superposition
     excitations = excitation._split_for_superposition()
     
-    # Solve for elec fields
-    elec_names = [n for n, v in excitations.items() if v.is_electrostatic()]
-    right_hand_sides = np.array([ElectrostaticSolver(excitations[n]).get_right_hand_side() for n in elec_names])
-    solutions = ElectrostaticSolver(excitation).solve_matrix(right_hand_sides)
-    elec_dict = {n:s for n, s in zip(elec_names, solutions)}
+    result = {}
     
-    # Solve for mag fields 
-    mag_names = [n for n, v in excitations.items() if v.is_magnetostatic()]
-    right_hand_sides = np.array([MagnetostaticSolver(excitations[n]).get_right_hand_side() for n in mag_names])
-    solutions = MagnetostaticSolver(excitation).solve_matrix(right_hand_sides)
-    mag_dict = {n:s for n, s in zip(mag_names, solutions)}
+    for solver_class, is_active in [(ElectrostaticSolver, E.ExcitationType.is_electrostatic), (MagnetostaticSolver, E.ExcitationType.is_magnetostatic)]:
+        names = [n for n in excitations if is_active(excitation.excitation_types[n][0])]
+        
+        if not len(names):
+            continue
         
-    return {**elec_dict, **mag_dict}
+        solvers = [solver_class(excitations[n]) for n in names]
+        right_hand_sides = np.array([s.get_right_hand_side() for s in solvers])
+        charges = solvers[0].solve_charges(right_hand_sides)
+        
+        for n, s, c in zip(names, solvers, charges):
+            result[n] = s.charges_to_field(c)
+     
+    return {n:result[n] for n in excitations}
 
 def solve_direct(excitation):
     """
-- 
2.43.0


From c7b827015d0c595ec554ac7dec543bf8ba077959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 37/59] fix: field bounds along z when tracing in a radial
 field

The z bounds set with FieldBEM.set_bounds were ignored.
---
 traceon/backend/tracing.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/backend/tracing.c b/traceon/backend/tracing.c
index a18490c..ae5c404 100644
--- a/traceon/backend/tracing.c
+++ b/traceon/backend/tracing.c
@@ -123,7 +123,8 @@ field_radial_traceable(double point[6], double result[3], void *args_p) {
 	double (*bounds)[2] = (double (*)[2]) args->bounds;
 	
 	if(args->bounds == NULL || ((bounds[0][0] < point[0]) && (point[0] < bounds[0][1])
-						 && (bounds[1][0] < point[1]) && (point[1] < bounds[1][1]))) {
+						 && (bounds[1][0] < point[1]) && (point[1] < bounds[1][1])
+						 && (bounds[2][0] < point[2]) && (point[2] < bounds[2][1]))) {
 		
 		double elec_field[3] = {0.};
 		double mag_field[3] = {0.};
-- 
2.43.0


From 906fa16a230e43c44b2eaee55566ab93d30e3d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 38/59] fix: field bounds when tracing in a 3D field

The bounds set with FieldBEM.set_bounds were not passed to the backend.
---
 traceon/tracing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/traceon/tracing.py b/traceon/tracing.py
index a9f49c3..3e7eaa7 100644
--- a/traceon/tracing.py
+++ b/traceon/tracing.py
@@ -173,9 +173,8 @@ class TracerRadialAxial(Tracer):
 class Tracer3D_BEM(Tracer):
     def __call__(self, position, velocity, atol=1e-10):
         velocity = _convert_velocity_to_SI(velocity)
-        bounds = self.field.field_bounds
         elec, mag = self.field.electrostatic_point_charges, self.field.magnetostatic_point_charges
-        return backend.trace_particle_3d(position, velocity, self.bounds, atol, elec, mag)
+        return backend.trace_particle_3d(position, velocity, self.bounds, atol, elec, mag, field_bounds=self.field.field_bounds)
 
 class Tracer3DAxial(Tracer):
     def __call__(self, position, velocity, atol=1e-10):
-- 
2.43.0


From 12abf1380294bb8c778603b1029ca33fb73b5705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 39/59] fix: field bounds given as integers

The backend reads the field bounds as an array of doubles.
---
 traceon/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index cd12649..c104954 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -577,7 +577,7 @@ class FieldBEM(Field, ABC):
         bounds: (3, 2) np.ndarray of float64
             The min, max value of x, y, z respectively within the field is still computed.
         """
-        self.field_bounds = np.array(bounds)
+        self.field_bounds = np.array(bounds, dtype=np.float64, order='C')
         assert self.field_bounds.shape == (3,2)
     
     def is_electrostatic(self):
-- 
2.43.0


From 8e296f203531ef1af565e6498a0de0a6fdf9a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 40/59] fix: the field is zero outside the field bounds

The bounds were only taken into account while tracing.
---
 traceon/solver.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/traceon/solver.py b/traceon/solver.py
index c104954..571013b 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -580,6 +580,12 @@ class FieldBEM(Field, ABC):
         self.field_bounds = np.array(bounds, dtype=np.float64, order='C')
         assert self.field_bounds.shape == (3,2)
     
+    def _is_within_bounds(self, point):
+        if self.field_bounds is None:
+            return True
+        
+        return bool(np.all( (self.field_bounds[:, 0] < point) & (point < self.field_bounds[:, 1]) ))
+    
     def is_electrostatic(self):
         return len(self.electrostatic_point_charges) > 0
 
@@ -688,6 +694,9 @@ class FieldRadialBEM(FieldBEM):
     def current_field_at_point(self, point_):
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        
+        if not self._is_within_bounds(point):
+            return np.zeros(3)
             
         currents = self.current_point_charges.charges
         jacobians = self.current_point_charges.jacobians
@@ -709,6 +718,9 @@ class FieldRadialBEM(FieldBEM):
         """
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        
+        if not self._is_within_bounds(point):
+            return np.zeros(3)
           
         charges = self.electrostatic_point_charges.charges
         jacobians = self.electrostatic_point_charges.jacobians
@@ -750,6 +762,9 @@ class FieldRadialBEM(FieldBEM):
         """
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        
+        if not self._is_within_bounds(point):
+            return np.zeros(3)
         current_field = self.current_field_at_point(point)
         
         charges = self.magnetostatic_point_charges.charges
@@ -895,6 +910,9 @@ class Field3D_BEM(FieldBEM):
         """
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        
+        if not self._is_within_bounds(point):
+            return np.zeros(3)
         charges = self.electrostatic_point_charges.charges
         jacobians = self.electrostatic_point_charges.jacobians
         positions = self.electrostatic_point_charges.positions
@@ -935,6 +953,9 @@ class Field3D_BEM(FieldBEM):
         """
         point = np.array(point_)
         assert point.shape == (3,), "Please supply a three dimensional point"
+        
+        if not self._is_within_bounds(point):
+            return np.zeros(3)
         charges = self.magnetostatic_point_charges.charges
         jacobians = self.magnetostatic_point_charges.jacobians
         positions = self.magnetostatic_point_charges.positions
-- 
2.43.0


From ca38ca3289a811ddbb246653ae0cdfb38362120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:47 +0000
Subject: [PATCH 41/59] fix: report a trajectory that does not reach the plane

The C function returns a bool, of which ctypes read the (undefined) upper
bits as well, such that a missing intersection was returned as zeros.
---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 7243024..ae029a8 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -188,7 +188,7 @@ backend_functions = {
     'fill_matrix_radial': (None, arr(ndim=2), lines, arr(dtype=np.uint8, ndim=1), arr(ndim=1), jac_buffer_2d, pos_buffer_2d, sz, sz, C.c_int, C.c_int),
     'fill_jacobian_buffer_3d': (None, jac_buffer_3d, pos_buffer_3d, vertices, sz),
     'fill_matrix_3d': (None, arr(ndim=2), vertices, arr(dtype=np.uint8, ndim=1), arr(ndim=1), jac_buffer_3d, pos_buffer_3d, sz, sz, C.c_int, C.c_int),
-    'plane_intersection': (bool, v3, v3, arr(ndim=2), sz, arr(shape=(6,))),
+    'plane_intersection': (C.c_bool, v3, v3, arr(ndim=2), sz, arr(shape=(6,))),
     'triangle_areas': (None, vertices, arr(ndim=1), sz)
 }
 
-- 
2.43.0


From 1c04eec1267cb21cb4e9c1552b8ca3b7c487e3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 42/59] fix: plane intersection when the trajectory starts or
 ends in the plane

Whether the intersection was found depended on the sign of the normal.
---
 traceon/backend/tracing.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/traceon/backend/tracing.c b/traceon/backend/tracing.c
index ae5c404..9c4e8bb 100644
--- a/traceon/backend/tracing.c
+++ b/traceon/backend/tracing.c
@@ -390,14 +390,13 @@ plane_intersection(double p0[3], double normal[3], positions_3d positions, size_
 		double x = positions[i][0], y = positions[i][1], z = positions[i][2];	
 		double kappa = (zn*zp-z*zn+yn*yp-y*yn+xn*xp-x*xn)/norm_3d(xn, yn, zn);
 		
-		int sign_kappa = kappa > 0 ? 1 : -1;
-		int sign_prev = prev_kappa > 0 ? 1 : -1;
-		
-		if(sign_kappa != sign_prev) {
+		// A point exactly in the plane counts as an intersection, regardless
+		// of the side of the plane on which the other points are.
+		if((kappa >= 0 && prev_kappa <= 0) || (kappa <= 0 && prev_kappa >= 0)) {
 			double diff = kappa - prev_kappa;
 			
-			double factor = -prev_kappa / diff;
-			double prev_factor = kappa / diff;
+			double factor = diff != 0. ? -prev_kappa / diff : 0.;
+			double prev_factor = 1. - factor;
 			
 			for(int k = 0; k < 6; k++)
 				result[k] = prev_factor*positions[i+1][k] + factor*positions[i][k];
-- 
2.43.0


From 701a887bd8d55863a6026cf7de697651443ab523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:21 +0000
Subject: [PATCH 43/59] fix: focus_position accepts any iterable of
 trajectories

---
 traceon/focus.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/traceon/focus.py b/traceon/focus.py
index c2668cf..765bcc9 100644
--- a/traceon/focus.py
+++ b/traceon/focus.py
@@ -22,6 +22,7 @@ def focus_position(positions):
     --------------
     (3,) np.ndarray of float64, representing the position of the focus
     """
+    positions = list(positions)
     assert all(p.shape == (len(p), 6) for p in positions)
      
     angles_x = np.array([p[-1, 3]/p[-1, 5] for p in positions])
-- 
2.43.0


From 19f71e9d03ff14c545860ad886d3c7df66b8ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:07 +0000
Subject: [PATCH 44/59] fix: solve 3D excitations of a mesh that lies in the xz
 plane

The symmetry of the excitation decides whether the problem is 3D, not the
coordinates of the mesh: a flat electrode in the plane y=0 was solved as if
it were radially symmetric, which raised an exception.
---
 traceon/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index 571013b..26fb7fc 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -117,10 +117,10 @@ class Solver(ABC):
         return self.excitation.mesh.is_higher_order()
         
     def is_3d(self):
-        return self.excitation.mesh.is_3d()
+        return self.excitation.symmetry.is_3d()
     
     def is_2d(self):
-        return self.excitation.mesh.is_2d()
+        return self.excitation.symmetry.is_2d()
 
     @abstractmethod
     def get_flux_indices(self):
@@ -422,7 +422,7 @@ def solve_direct_superposition(excitation):
         involved in using `superposition=True` since a direct solver is used which easily allows for multiple right hand sides (the
         matrix does not have to be inverted multiple times). However, voltage functions are invalid in the superposition process (position dependent voltages).
     """
-    if excitation.mesh.is_2d() and not excitation.mesh.is_higher_order():
+    if excitation.symmetry.is_2d() and not excitation.mesh.is_higher_order():
         excitation = _excitation_to_higher_order(excitation)
     
     # Speedup: invert matrix only once, when using superposition
@@ -460,7 +460,7 @@ def solve_direct(excitation):
     A `FieldRadialBEM` if the geometry (contained in the given `excitation`) is radially symmetric. If the geometry is a three
     dimensional geometry `Field3D_BEM` is returned. 
     """
-    if excitation.mesh.is_2d() and not excitation.mesh.is_higher_order():
+    if excitation.symmetry.is_2d() and not excitation.mesh.is_higher_order():
         excitation = _excitation_to_higher_order(excitation)
     
     mag, elec = excitation.is_magnetostatic(), excitation.is_electrostatic()
-- 
2.43.0


From d7ab2343138c46f1dac465dcf72484fd8dd6db6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 45/59] fix: ellipk for negative arguments

The square root of a negative number was taken for k <= -1, and the
approximation was used outside its range for -1 < k < 0.
---
 traceon/backend/elliptic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/backend/elliptic.c b/traceon/backend/elliptic.c
index 5bb20d7..e7f2580 100644
--- a/traceon/backend/elliptic.c
+++ b/traceon/backend/elliptic.c
@@ -35,9 +35,9 @@ EXPORT double ellipkm1(double p) {
 }
 
 EXPORT double ellipk(double k) {
-	if(k > -1) return ellipkm1(1-k);
+	if(k >= 0) return ellipkm1(1-k);
 	
-	return ellipkm1(1./(1-k))/sqrt(k);
+	return ellipkm1(1./(1-k))/sqrt(1-k);
 }
 
 EXPORT double ellipem1(double p) {
-- 
2.43.0


From 2742ba8919dbc2db75841333cff0465383a53dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 46/59] fix: flux of a triangle at nearby targets and for small
 geometries

The integrand was replaced by an expansion when the distance was smaller
than an absolute value of 3e-5. The expansion does not hold for a target above
the triangle (such that the flux was missed) and divides by zero. As a result
the matrix was not finite for geometries with elements smaller than 1e-3.
---
 traceon/backend/triangle.c | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/traceon/backend/triangle.c b/traceon/backend/triangle.c
index f24dfd3..e0cb4a5 100644
--- a/traceon/backend/triangle.c
+++ b/traceon/backend/triangle.c
@@ -121,26 +121,28 @@ double _flux_integrand(double y, void *args_p) {
 	double xmax = x0 + args.a + y/args.c*(args.b-args.a);
 	
 	double z2 = z*z;
-	double xmin2 = xmin*xmin;
 	double yy02 = (y+y0)*(y+y0);
-	double xmax2 = xmax*xmax;
 	double r2 = z2 + yy02;
-
+	
+	double smax = sqrt(r2 + xmax*xmax);
+	double smin = sqrt(r2 + xmin*xmin);
+	
 	double flux[3];
-
-	flux[0] = 1 / sqrt(r2 + xmax2) - 1 / sqrt(r2 + xmin2);
-
-	// Singularity when r2 is small...
-	if (fabs(r2) < 1e-9) {
-		flux[1] = ((xmin2 - xmax2) * y0 + (xmin2 - xmax2) * y) / (2.0 * xmax2 * xmin2);
-		flux[2] = -((xmin2 - xmax2) * z) / (2.0 * xmax2 * xmin2);
-	} else {
-		double denom_max = r2 * sqrt(r2 + xmax2);
-		double denom_min = r2 * sqrt(r2 + xmin2);
-
-		flux[1] = -((xmax * (y + y0)) / denom_max) + (xmin * (y + y0)) / denom_min;
-		flux[2] = (xmax * z) / denom_max - (xmin * z) / denom_min;
-	}
+	
+	flux[0] = 1 / smax - 1 / smin;
+	
+	// We need xmax/(r2*smax) - xmin/(r2*smin). To prevent a loss of precision when
+	// r2 is small use that |x|/(r2*s) = 1/r2 - 1/(s*(s + |x|)). The terms 1/r2 cancel,
+	// except when the target is directly above (or below) this strip of the triangle.
+	int sign_max = (xmax > 0.) - (xmax < 0.);
+	int sign_min = (xmin > 0.) - (xmin < 0.);
+	double diff = sign_min/(smin*(smin + fabs(xmin))) - sign_max/(smax*(smax + fabs(xmax)));
+	
+	if(sign_max != sign_min && r2 > 0.)
+		diff += (sign_max - sign_min)/r2;
+	
+	flux[1] = -(y + y0) * diff;
+	flux[2] = z * diff;
 	
 	return dot_3d(args.normal, flux);
 }
-- 
2.43.0


From e84200d367c19fd81fb5cc17bc69ec1b10496695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:20 +0000
Subject: [PATCH 47/59] fix: potential of small triangles

The absolute tolerance of the integration did not scale with the size of the
triangle. Also, the limit for a target in line with the triangle had the wrong
sign on one side of the triangle, and depended on the unit of length.
---
 traceon/backend/triangle.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/traceon/backend/triangle.c b/traceon/backend/triangle.c
index e0cb4a5..3c7efd4 100644
--- a/traceon/backend/triangle.c
+++ b/traceon/backend/triangle.c
@@ -38,12 +38,11 @@ double _potential_integrand(double y, void *args_p) {
 		
 	double denom = sqrt((y+args.y0)*(y+args.y0) + args.z*args.z);
 
-	if(denom < 1e-12) {
-		// The asinh(xmax/denom) - asinh(xmin/denom) is numerical 
-		// unstable when denom is small. Taking the taylor expansion
-		// of denom -> 0 we find
-		return log(fabs(xmax)) - log(fabs(xmin));
-	}
+	// The asinh(xmax/denom) - asinh(xmin/denom) is a difference of two infinite
+	// values when denom vanishes, which happens when the target lies on the
+	// line through this strip of the triangle.
+	denom = fmax(denom, 1e-14*(fabs(xmin) + fabs(xmax)));
+	
     return asinh(xmax/denom) - asinh(xmin/denom);
 }
 
@@ -73,7 +72,8 @@ potential_triangle(double v0[3], double v1[3], double v2[3], double target[3]) {
 	
 	struct _normalized_triangle tri = {x0, y0, a,b,c,z};
 
-	return kronrod_adaptive(_potential_integrand, 0, c, (void*) &tri, 1e-9, 1e-9);
+	// The potential scales with the size of the triangle, so should the absolute tolerance.
+	return kronrod_adaptive(_potential_integrand, 0, c, (void*) &tri, 1e-9*c, 1e-9);
 }
 
 EXPORT double self_potential_triangle_v0(double v0[3], double v1[3], double v2[3]) {
-- 
2.43.0


From ec760f6922c75746391d7ff045f7ec2a066e7bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 48/59] fix: keep the triangles of meshes with a small unit of
 length

All triangles with an area below 1e-12 were removed, regardless of the size
of the mesh.
---
 traceon/mesher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index a136653..e402526 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -223,7 +223,9 @@ class Mesh(Saveable, GeometricObject):
     
     def _remove_degenerate_triangles(self):
         areas = triangle_areas(self.points[self.triangles[:,:3]])
-        degenerate = areas < 1e-12
+        size = np.max(np.ptp(self.points, axis=0)) if len(self.points) else 1.
+        # Take into account the unit of length, a small geometry has small triangles
+        degenerate = areas <= 1e-12 * min(1., size**2)
         map_index = np.arange(len(self.triangles)) - np.cumsum(degenerate)
          
         self.triangles = self.triangles[~degenerate]
-- 
2.43.0


From e9b7ed655eb036cd1fb3e20b1e2c47e02ef8e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 49/59] fix: self potential of small line elements

The absolute tolerance did not scale with the size of the element.
---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index ae029a8..d315b84 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -549,7 +549,7 @@ def self_potential_radial(vertices):
     assert vertices.shape == (4,3) and vertices.dtype == np.double
     user_data = vertices.ctypes.data_as(C.c_void_p)
     low_level = LowLevelCallable(backend_lib.self_potential_radial, user_data=user_data)
-    return quad(low_level, -1, 1, points=(0,), epsabs=1e-9, epsrel=1e-9, limit=250)[0]
+    return quad(low_level, -1, 1, points=(0,), epsabs=0., epsrel=1e-9, limit=250)[0]
 
 class SelfFieldDotNormalRadialArgs(C.Structure):
     _fields_ = [("line_points", C.POINTER(C.c_double)), ("K", C.c_double)]
-- 
2.43.0


From 9db5ddedc1d230d615bfe5728297a9412a929883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 50/59] fix: potential_3d_point and its derivatives can be
 called

The wrapper removed an argument given by the caller instead of supplying the
last one.
---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index d315b84..983030e 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -245,7 +245,7 @@ def normal_2d(p1, p2):
 # passed to the function. In Python we don't need this functionality
 # as we can simply use closures.
 def remove_arg(fun):
-    return lambda *args: fun(*args[:-1])
+    return lambda *args: fun(*args, None)
 
 def normal_3d(tri: np.ndarray) -> np.ndarray:
     normal = np.zeros( (3,) )
-- 
2.43.0


From b91fcda6244f4af3dbcf7e7f2dfa571f687d93a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 51/59] fix: out of bounds read when computing positions on a
 line element

The backend reads the third element of vectors that were passed with a length
of two, which is only valid when they are part of a larger array.
---
 traceon/backend/__init__.py | 12 ++++++++----
 traceon/solver.py           |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 983030e..ce4ce91 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -148,10 +148,10 @@ backend_functions = {
     'ellipem1' : (dbl, dbl),
     'ellipe': (dbl, dbl),
     'normal_2d': (None, v2, v2, v2),
-    'higher_order_normal_radial': (None, dbl, v2, v2, v2, v2, v2),
+    'higher_order_normal_radial': (None, dbl, v3, v3, v3, v3, v2),
     'normal_3d': (None, arr(shape=(3,3)), v3),
     'position_and_jacobian_3d': (None, dbl, dbl, arr(ndim=2), v3, dbl_p),
-    'position_and_jacobian_radial': (None, dbl, v2, v2, v2, v2, v2, dbl_p),
+    'position_and_jacobian_radial': (None, dbl, v3, v3, v3, v3, v2, dbl_p),
     'trace_particle': (sz, times_block, tracing_block, field_fun, bounds, dbl, vp),
     'potential_radial_ring': (dbl, dbl, dbl, dbl, dbl, vp), 
     'dr1_potential_radial_ring': (dbl, dbl, dbl, dbl, dbl, vp), 
@@ -231,8 +231,9 @@ def kronrod_adaptive(fun, a, b, epsabs=1.49e-08, epsrel=1.49e-08):
     return backend_lib.kronrod_adaptive(callback, a, b, vp(None), epsabs, epsrel)
 
 def higher_order_normal_radial(alpha, vertices):
+    assert vertices.shape == (4,3)
     normal = np.zeros(2)
-    backend_lib.higher_order_normal_radial(alpha, vertices[0, :2], vertices[2, :2], vertices[3, :2], vertices[1, :2], normal)
+    backend_lib.higher_order_normal_radial(alpha, vertices[0], vertices[2], vertices[3], vertices[1], normal)
     assert np.isclose(np.linalg.norm(normal), 1.0)
     return normal
     
@@ -320,10 +321,13 @@ def position_and_jacobian_radial(alpha, v1, v2, v3, v4):
     
     assert all([v.shape == (2,) or v[1] == 0. for v in [v1,v2,v3,v4]])
     
+    # The backend reads (r, 0, z) 
+    v1, v2, v3, v4 = [v if v.shape == (3,) else np.array([v[0], 0., v[1]]) for v in [v1,v2,v3,v4]]
+    
     pos = np.zeros(2)
     jac = C.c_double(0.0)
      
-    backend_lib.position_and_jacobian_radial(alpha, v1[:2], v2[:2], v3[:2], v4[:2], pos, C.pointer(jac))
+    backend_lib.position_and_jacobian_radial(alpha, v1, v2, v3, v4, pos, C.pointer(jac))
     
     return jac.value, pos
 
diff --git a/traceon/solver.py b/traceon/solver.py
index 26fb7fc..dc9b5b3 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -265,7 +265,7 @@ class MagnetostaticSolver(Solver):
             if self.is_2d() and not self.is_higher_order():
                 normals[i] = backend.normal_2d(v[0], v[1])
             elif self.is_2d() and self.is_higher_order():
-                normals[i] = backend.higher_order_normal_radial(0.0, v[:, :2])
+                normals[i] = backend.higher_order_normal_radial(0.0, v)
             elif self.is_3d() and not self.is_higher_order():
                 normals[i] = backend.normal_3d(v)
         
-- 
2.43.0


From 2c1a199d6ce2616c8bd17aa492df72a7eff1a336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 52/59] fix: split the integration over a triangle where the
 integrand has a peak

---
 traceon/backend/triangle.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/traceon/backend/triangle.c b/traceon/backend/triangle.c
index 3c7efd4..85a8bc4 100644
--- a/traceon/backend/triangle.c
+++ b/traceon/backend/triangle.c
@@ -46,6 +46,19 @@ double _potential_integrand(double y, void *args_p) {
     return asinh(xmax/denom) - asinh(xmin/denom);
 }
 
+// When the target is close to the plane of the triangle the integrands change rapidly
+// (or are singular) at y = -y0. If this is in the interior of the integration interval, 
+// the error estimate made on the full interval is not to be trusted.
+double _integrate_triangle(double (*integrand)(double, void*), struct _normalized_triangle *tri, double abs_tol, double rel_tol) {
+	double split = -tri->y0;
+
+	if(0. < split && split < tri->c)
+		return kronrod_adaptive(integrand, 0, split, (void*) tri, abs_tol, rel_tol)
+				+ kronrod_adaptive(integrand, split, tri->c, (void*) tri, abs_tol, rel_tol);
+	
+	return kronrod_adaptive(integrand, 0, tri->c, (void*) tri, abs_tol, rel_tol);
+}
+
 EXPORT double
 potential_triangle(double v0[3], double v1[3], double v2[3], double target[3]) {
 	double vec1[3] = {v1[0]-v0[0], v1[1]-v0[1], v1[2]-v0[2]};
@@ -73,7 +86,7 @@ potential_triangle(double v0[3], double v1[3], double v2[3], double target[3]) {
 	struct _normalized_triangle tri = {x0, y0, a,b,c,z};
 
 	// The potential scales with the size of the triangle, so should the absolute tolerance.
-	return kronrod_adaptive(_potential_integrand, 0, c, (void*) &tri, 1e-9*c, 1e-9);
+	return _integrate_triangle(_potential_integrand, &tri, 1e-9*c, 1e-9);
 }
 
 EXPORT double self_potential_triangle_v0(double v0[3], double v1[3], double v2[3]) {
@@ -180,7 +193,7 @@ flux_triangle(double v0[3], double v1[3], double v2[3], double target[3], double
 		
 	struct _normalized_triangle tri = {x0, y0, a, b, c, z, new_normal};
 	
-	return kronrod_adaptive(_flux_integrand, 0, c, (void*) &tri, 1e-9, 1e-9);
+	return _integrate_triangle(_flux_integrand, &tri, 1e-9, 1e-9);
 }
 
 
-- 
2.43.0


From 27329a18dbfcd4dd61a44eef0ca9c4af5ddd5d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 53/59] fix: accept NumPy numbers in move and add_voltage

---
 traceon/excitation.py | 3 ++-
 traceon/mesher.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/traceon/excitation.py b/traceon/excitation.py
index 1766743..16f3875 100644
--- a/traceon/excitation.py
+++ b/traceon/excitation.py
@@ -15,6 +15,7 @@ Currently current excitations are not supported in 3D. But magnetostatic fields
 Once the excitation is specified, it can be passed to `traceon.solver.solve_direct` to compute the resulting field.
 """
 from enum import IntEnum
+from numbers import Real
 
 import numpy as np
 
@@ -109,7 +110,7 @@ class Excitation:
         """
         for name, voltage in kwargs.items():
             assert name in self.electrodes, f'Cannot add {name} to excitation, since it\'s not present in the mesh'
-            if isinstance(voltage, int) or isinstance(voltage, float):
+            if isinstance(voltage, Real):
                 self.excitation_types[name] = (ExcitationType.VOLTAGE_FIXED, voltage)
             elif callable(voltage):
                 self.excitation_types[name] = (ExcitationType.VOLTAGE_FUN, voltage)
diff --git a/traceon/mesher.py b/traceon/mesher.py
index e402526..48af5e7 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -4,6 +4,7 @@ import time
 from typing import Callable, Any
 from itertools import chain
 from abc import ABC, abstractmethod
+from numbers import Real
 import ctypes as C
 from typing import Dict
 
@@ -63,7 +64,7 @@ class GeometricObject(ABC):
         
         This function returns the same type as the object on which this method was called."""
     
-        assert all([isinstance(d, float) or isinstance(d, int) for d in [dx, dy, dz]])
+        assert all([isinstance(d, Real) for d in [dx, dy, dz]])
         return self.map_points(lambda p: p + np.array([dx, dy, dz]))
      
     def rotate(self, Rx=0., Ry=0., Rz=0., origin=[0., 0., 0.]):
-- 
2.43.0


From 507721ce1e92b4b87d1d87b1643222091294a1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 54/59] fix: axial potentials accept integers, lists and
 strided arrays

---
 traceon/solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index dc9b5b3..77f17a6 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -796,7 +796,7 @@ class FieldRadialBEM(FieldBEM):
         return backend.potential_radial(point, charges, jacobians, positions)
     
     def current_potential_axial(self, z):
-        assert isinstance(z, float)
+        z = float(z)
         currents = self.current_point_charges.charges
         jacobians = self.current_point_charges.jacobians
         positions = self.current_point_charges.positions
@@ -819,6 +819,7 @@ class FieldRadialBEM(FieldBEM):
         charges = self.electrostatic_point_charges.charges
         jacobians = self.electrostatic_point_charges.jacobians
         positions = self.electrostatic_point_charges.positions
+        z = np.ascontiguousarray(z, dtype=np.float64)
         return backend.axial_derivatives_radial(z, charges, jacobians, positions)
     
     def get_magnetostatic_axial_potential_derivatives(self, z):
@@ -838,6 +839,7 @@ class FieldRadialBEM(FieldBEM):
         charges = self.magnetostatic_point_charges.charges
         jacobians = self.magnetostatic_point_charges.jacobians
         positions = self.magnetostatic_point_charges.positions
+        z = np.ascontiguousarray(z, dtype=np.float64)
          
         derivs_magnetic = backend.axial_derivatives_radial(z, charges, jacobians, positions)
         derivs_current = self.get_current_axial_potential_derivatives(z)
@@ -861,6 +863,7 @@ class FieldRadialBEM(FieldBEM):
         currents = self.current_point_charges.charges
         jacobians = self.current_point_charges.jacobians
         positions = self.current_point_charges.positions
+        z = np.ascontiguousarray(z, dtype=np.float64)
         return backend.current_axial_derivatives_radial(z, currents, jacobians, positions)
       
     def area_of_element(self, i):
-- 
2.43.0


From 4608b860eb2a79960c2358093ee7965852c8c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 55/59] fix: plane intersections and focus accept integers,
 lists and strided arrays

---
 traceon/focus.py   | 2 +-
 traceon/tracing.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/focus.py b/traceon/focus.py
index 765bcc9..b10c618 100644
--- a/traceon/focus.py
+++ b/traceon/focus.py
@@ -22,7 +22,7 @@ def focus_position(positions):
     --------------
     (3,) np.ndarray of float64, representing the position of the focus
     """
-    positions = list(positions)
+    positions = [np.asarray(p) for p in positions]
     assert all(p.shape == (len(p), 6) for p in positions)
      
     angles_x = np.array([p[-1, 3]/p[-1, 5] for p in positions])
diff --git a/traceon/tracing.py b/traceon/tracing.py
index 3e7eaa7..e155c05 100644
--- a/traceon/tracing.py
+++ b/traceon/tracing.py
@@ -204,6 +204,7 @@ def plane_intersection(positions, p0, normal):
     np.ndarray of shape (6,) containing the position and velocity of the electron at the intersection point.
     """
 
+    positions, p0, normal = [np.ascontiguousarray(a, dtype=np.float64) for a in (positions, p0, normal)]
     assert positions.shape == (len(positions), 6), "The positions array should have shape (N, 6)"
     return backend.plane_intersection(positions, p0, normal)
 
-- 
2.43.0


From 0a0a9e9fd19fddc3d7f753ea810f20ac9c8aabff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:23 +0000
Subject: [PATCH 56/59] fix: colors of meshes: names longer than seven
 characters, default color of lines

---
 traceon/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/plotting.py b/traceon/plotting.py
index 3bf7ec6..49961e2 100644
--- a/traceon/plotting.py
+++ b/traceon/plotting.py
@@ -263,7 +263,7 @@ def _get_vedo_triangles_and_normals(mesh, **phys_colors):
     triangles = mesh.triangles[:, :3]
     normals = np.array([backend.normal_3d(mesh.points[t]) for t in triangles])
     
-    colors = np.full(len(triangles), '#CCCCCC')
+    colors = np.full(len(triangles), '#CCCCCC', dtype=object)
     dict_ = _create_point_to_physical_dict(mesh)
     
     for i, (A, B, C) in enumerate(triangles):
@@ -359,7 +359,7 @@ def _get_vedo_lines_and_normals(mesh, **phys_colors):
     points = mesh.points 
      
     for i, (A, B) in enumerate(lines):
-            color = '#CCCCC'
+            color = '#CCCCCC'
             
             if A in dict_ and B in dict_:
                 phys1, phys2 = dict_[A], dict_[B]
-- 
2.43.0


From e1ac9e3a719872cbb5014d12ae8a27def98c5093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:52 +0000
Subject: [PATCH 57/59] fix: color plotted elements by the group they belong to

---
 traceon/plotting.py | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/traceon/plotting.py b/traceon/plotting.py
index 49961e2..276d6be 100644
--- a/traceon/plotting.py
+++ b/traceon/plotting.py
@@ -249,28 +249,20 @@ def _get_vedo_grid(field, surface, N0, N1):
 
     return grid
     
-def _create_point_to_physical_dict(mesh):
-    d = {}
+def _get_element_colors(N, physicals, phys_colors):
+    colors = np.full(N, '#CCCCCC', dtype=object)
     
-    for physical, elements in [(mesh.physical_to_lines, mesh.lines), (mesh.physical_to_triangles, mesh.triangles)]:
-        for k, v in physical.items():
-            for element_index in v:
-                for p in elements[element_index]:
-                    d[p] = k
-    return d
+    for name, color in phys_colors.items():
+        if name in physicals:
+            colors[np.array(physicals[name], dtype=int)] = color
+    
+    return colors
 
 def _get_vedo_triangles_and_normals(mesh, **phys_colors):
     triangles = mesh.triangles[:, :3]
     normals = np.array([backend.normal_3d(mesh.points[t]) for t in triangles])
     
-    colors = np.full(len(triangles), '#CCCCCC', dtype=object)
-    dict_ = _create_point_to_physical_dict(mesh)
-    
-    for i, (A, B, C) in enumerate(triangles):
-        if A in dict_ and B in dict_ and C in dict_:
-            phys1, phys2, phys3 = dict_[A], dict_[B], dict_[C]
-            if phys1 == phys2 and phys2 == phys3 and phys1 in phys_colors:
-                colors[i] = phys_colors[phys1]
+    colors = _get_element_colors(len(triangles), mesh.physical_to_triangles, phys_colors)
      
     meshes = []
     
@@ -353,23 +345,14 @@ def _get_vedo_lines_and_normals(mesh, **phys_colors):
     lines = mesh.lines[:, :2]
     start = np.zeros( (len(lines), 3) )
     end = np.zeros( (len(lines), 3) )
-    colors_ = np.zeros(len(lines), dtype=object) 
+    colors_ = _get_element_colors(len(lines), mesh.physical_to_lines, phys_colors)
     normals = []
-    dict_ = _create_point_to_physical_dict(mesh)
     points = mesh.points 
      
     for i, (A, B) in enumerate(lines):
-            color = '#CCCCCC'
-            
-            if A in dict_ and B in dict_:
-                phys1, phys2 = dict_[A], dict_[B]
-                if phys1 == phys2 and phys1 in phys_colors:
-                    color = phys_colors[phys1]
-            
             p1, p2 = points[A], points[B]
             start[i] = p1
             end[i] = p2
-            colors_[i] = color
 
             normal = backend.normal_2d(np.array([p1[0], p1[2]]), np.array([p2[0], p2[2]])) 
             normals.append(np.array([normal[0], 0.0, normal[1]]))
-- 
2.43.0


From 30cb66946bb130d2e79b2f97a9b7a859f7d0962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:53 +0000
Subject: [PATCH 58/59] fix: an isolines_width of zero disables the isolines

---
 traceon/plotting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/traceon/plotting.py b/traceon/plotting.py
index 276d6be..5d8a838 100644
--- a/traceon/plotting.py
+++ b/traceon/plotting.py
@@ -87,7 +87,10 @@ class Figure:
         isolines = grid.isolines(n=N_isolines).color(isolines_color).lw(isolines_width) # type: ignore
         grid.cmap(color_map)
         self.to_plot.append(grid)
-        self.to_plot.append(isolines)
+        
+        # Vedo draws the lines with a width of one if the width is set to zero
+        if isolines_width != 0:
+            self.to_plot.append(isolines)
     
     def plot_trajectories(self, trajectories, 
                 xmin=None, xmax=None,
-- 
2.43.0


From 7d33bfdf903e4f4d60716d6b37e5664a656971f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 59/59] fix: plot_charge_density of meshes with both lines and
 triangles

---
 traceon/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/traceon/plotting.py b/traceon/plotting.py
index 5d8a838..07d4cd6 100644
--- a/traceon/plotting.py
+++ b/traceon/plotting.py
@@ -158,11 +158,11 @@ class Figure:
         if not len(mesh.triangles) and not len(mesh.lines):
             raise RuntimeError("Trying to plot empty mesh.")
         
-        if len(mesh.triangles):
+        # The charges lie on the triangles in 3D, but on the lines in radial symmetry
+        if excitation.symmetry.is_3d():
             meshes = _get_vedo_charge_density_3d(excitation, field, color_map)
             self.to_plot.append(meshes)
-            
-        if len(mesh.lines):
+        else:
             lines = _get_vedo_charge_density_2d(excitation, field, color_map)
             self.to_plot.append(lines)
          
-- 
2.43.0

