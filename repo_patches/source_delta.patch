From 7f3703008e87d0083b1ddca96e0aae47ba8cd81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 01/36] fix: exchange ghost points with a neighbour even when
 there are none to send (deadlock)

---
 SeismicMesh/migration/migration.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/SeismicMesh/migration/migration.py b/SeismicMesh/migration/migration.py
index 8987a72..528d9c5 100644
--- a/SeismicMesh/migration/migration.py
+++ b/SeismicMesh/migration/migration.py
@@ -152,12 +152,9 @@ def exchange(comm, rank, size, exports, dim=2):
     NSB = int(exports[0, 0])
     NSA = int(exports[0, 1])
 
-    if NSB == 0 and NSA == 0:
-        return np.array([[]])
-
     tmp = []
-    # send points below
-    if NSB != 0 and (rank != 0):  # rank 0 can't send below
+    # send points below (possibly none: the neighbour always posts a receive)
+    if rank != 0:  # rank 0 can't send below
         comm.send(exports[1 : NSB + 1, 0:dim], dest=rank - 1, tag=11)
 
     # receive points from above
@@ -167,7 +164,7 @@ def exchange(comm, rank, size, exports, dim=2):
             tmp.append(p)
 
     # send points above
-    if NSA != 0 and rank != (size - 1):  # topmost rank can't send to above
+    if rank != (size - 1):  # topmost rank can't send to above
         # all put the topmost rank receive from above
         comm.send(exports[NSB + 1 : NSB + 1 + NSA, 0:dim], dest=rank + 1, tag=11)
 
@@ -178,6 +175,6 @@ def exchange(comm, rank, size, exports, dim=2):
         for p in dat_recv:
             tmp.append(p)
 
-    new_points = np.array(tmp)
+    new_points = np.array(tmp, dtype=float).reshape(-1, dim)
 
     return new_points
-- 
2.43.0


From 1e03d8cf151694d8c70bf2e9a88e0eeb27382eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 02/36] fix: delete no vertex when no ghost was received

---
 SeismicMesh/generation/mesh_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 7b73b33..99f8b1e 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -507,7 +507,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
 
         if comm.size > 1:
             # If continuing on, delete ghost points
-            p = np.delete(p, inv[-recv_ix::], axis=0)
+            p = np.delete(p, inv[len(inv) - recv_ix :], axis=0)
 
         # Show the user some progress so they know something is happening
         if comm.rank == 0:
-- 
2.43.0


From 4b94e082b984fc288244dee463737243f7f4f945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 03/36] fix: allocate the whole export table returned by
 where_to2/where_to3

---
 SeismicMesh/migration/cpp/cpputils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index f31bd6d..0b07600 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -167,7 +167,7 @@ std::vector<double> c_where_to2(std::vector<double> &points,
   }
 
   std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize(1 + num_points * 3, -1);
+  pointsToMigrate.resize((1 + num_points) * 3, -1);
 
   double below_count = 0.0;
   double above_count = 0.0;
@@ -346,7 +346,7 @@ std::vector<double> c_where_to3(std::vector<double> &points,
   }
 
   std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize(1 + num_points * 4, -1);
+  pointsToMigrate.resize((1 + num_points) * 4, -1);
 
   double below_count = 0.0;
   double above_count = 0.0;
-- 
2.43.0


From 648de1060f5cc894fbeb377eaf0e9885afe09121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 04/36] fix: read every coordinate in circumballs2

---
 SeismicMesh/generation/cpp/delaunay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/cpp/delaunay.cpp b/SeismicMesh/generation/cpp/delaunay.cpp
index 44be70f..7435745 100644
--- a/SeismicMesh/generation/cpp/delaunay.cpp
+++ b/SeismicMesh/generation/cpp/delaunay.cpp
@@ -143,7 +143,7 @@ namespace py = pybind11;
 py::array circumballs2(
     py::array_t<double, py::array::c_style | py::array::forcecast> vertices) {
   // each triangle has 3 vertices with 2 coordinates each
-  int sz = vertices.shape()[0];
+  int sz = vertices.size();
   std::vector<double> cppvertices(sz);
   std::memcpy(cppvertices.data(), vertices.data(), sz * sizeof(double));
   std::vector<double> circumcenters = c_circumballs2(cppvertices);
-- 
2.43.0


From 83ad097e0442d7c39eee18098b94a5aae76bf1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 05/36] fix: reject max_iter=0 and h0=0, stop for a fractional
 max_iter (endless loop)

---
 SeismicMesh/generation/mesh_generator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 99f8b1e..5e4a81a 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -161,10 +161,10 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
         h0 = sliver_opts["h0"]
 
     # check h0
-    if h0 < 0:
+    if h0 <= 0:
         raise ValueError("`h0` must be > 0")
 
-    if sliver_opts["max_iter"] < 0:
+    if sliver_opts["max_iter"] <= 0:
         raise ValueError("`max_iter` must be > 0")
     max_iter = sliver_opts["max_iter"]
 
@@ -222,7 +222,7 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
         ele_nums, ix = _calc_dihedral_angles(p, t, min_dh_bound, max_dh_bound)
 
         # Number of iterations reached, stop.
-        if count == (max_iter - 1):
+        if count >= (max_iter - 1):
             print_msg1(
                 "FAILURE: Termination...maximum number of iterations reached. Try increasing max_iter when generating the mesh",
             )
@@ -411,7 +411,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         h0 = gen_opts["h0"]
 
     # check h0
-    if h0 < 0:
+    if h0 <= 0:
         raise ValueError("`h0` must be > 0")
 
     # these parameters originate from the original DistMesh
@@ -436,7 +436,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         dim, geps, bbox, fh, fd, h0, gen_opts, pfix, comm, lsf
     )
 
-    if gen_opts["max_iter"] < 0:
+    if gen_opts["max_iter"] <= 0:
         raise ValueError("`max_iter` must be > 0")
 
     max_iter = gen_opts["max_iter"]
@@ -482,7 +482,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         t = _remove_triangles_outside(p, t, fd, geps)
 
         # Number of iterations reached, stop.
-        if count == (max_iter - 1):
+        if count >= (max_iter - 1):
             if comm.rank == 0:
                 print_msg1(
                     "Termination reached...maximum number of iterations reached.",
-- 
2.43.0


From e4be6ad5545f5ef58f113856ce336ab34cc4222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 06/36] fix: smooth difference of three or more domains
 subtracts every one from the first

---
 SeismicMesh/geometry/signed_distance_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index 438dc39..1a79834 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -420,7 +420,7 @@ class Difference:
             )
         else:
             d = [d.eval(x) for d in self.domains]
-            return _loop_call(self._smooth_difference, d[::-1])
+            return _loop_call(lambda a, b: self._smooth_difference(b, a), d)
 
     def show(self, filename=None, samples=10000):
         _show(self, filename=None, samples=samples)
-- 
2.43.0


From 2f29b33ac5f0aa9fc4e7a9c2db7e96666c3741b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 07/36] fix: show() writes to the file it is given

---
 .../geometry/signed_distance_functions.py     | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index 1a79834..5035ff4 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -294,7 +294,7 @@ class Repeat:
         return np.maximum(self.domain.eval(q), self.parent.eval(x))
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 def _loop_call(func, d):
@@ -341,7 +341,7 @@ class Union:
             return _loop_call(self._smooth_union, d)
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Intersection:
@@ -381,7 +381,7 @@ class Intersection:
             return _loop_call(self._smooth_intersection, d)
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Difference:
@@ -423,7 +423,7 @@ class Difference:
             return _loop_call(lambda a, b: self._smooth_difference(b, a), d)
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Disk:
@@ -444,7 +444,7 @@ class Disk:
         return _ddisk(x, self.xc, self.yc, self.r)
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Ball:
@@ -468,7 +468,7 @@ class Ball:
         return dball(x, self.xc, self.yc, self.zc, self.r)
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Rectangle:
@@ -489,7 +489,7 @@ class Rectangle:
         )
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Cube:
@@ -516,7 +516,7 @@ class Cube:
         )
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Torus:
@@ -540,7 +540,7 @@ class Torus:
         return _length(q) - self.t[1]
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Prism:
@@ -563,7 +563,7 @@ class Prism:
         )
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 class Cylinder:
@@ -590,7 +590,7 @@ class Cylinder:
         )
 
     def show(self, filename=None, samples=10000):
-        _show(self, filename=None, samples=samples)
+        _show(self, filename=filename, samples=samples)
 
 
 def _ddisk(p, xc, yc, r):
-- 
2.43.0


From eb5d965cb53d80ec3d3d4ac64fdf9d22832c7efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 08/36] fix: do not normalise the caller's stretch vector in
 place

---
 SeismicMesh/geometry/signed_distance_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index 5035ff4..451abb4 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -135,7 +135,7 @@ def _build_stretch(object):
         ), "Length of stretch vector does not equal dimension"
     if object.v is not None:
         object.alpha = np.sqrt(np.dot(object.v, object.v))
-        object.v /= object.alpha
+        object.v = np.divide(object.v, object.alpha)
         _corners = corners(object.bbox)
         vx = np.multiply.outer(np.dot(object.v, _corners.T), object.v)
         tmp = (vx * object.alpha + (_corners - vx)).T
-- 
2.43.0


From 1226d69a3ae088daed7a3f7e8f13bca196cd7cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 09/36] fix: convert units and fill water without overwriting
 the caller's velocity_data

---
 SeismicMesh/sizing/mesh_size_function.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 40de5de..11c59fa 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -145,14 +145,14 @@ def get_sizing_function_from_segy(
 
         if sz_opts["units"] == "km-s":
             print("Converting from km-s to m-s...", flush=True)
-            vp *= 1000.0
+            vp = vp * 1000.0
         elif sz_opts["units"] == "ft-s":
             print("Converting from ft-s to m-s...", flush=True)
-            vp *= 0.30
+            vp = vp * 0.3048
 
         # vp must be in m/s here
         pos = np.where(vp < 1e-3)  # for Vs (water positions in shear velocity data)
-        if len(pos) > 0 and any(pos[0]):
+        if len(pos) > 0 and pos[0].size > 0:
             if (
                 sz_opts["vp_water"] is None
                 or sz_opts["vp_water"] < 1300
@@ -162,7 +162,7 @@ def get_sizing_function_from_segy(
                     "vp_water is None or out of bounds. It should be >1300 and <1800 m/s"
                 )
             else:
-                vp[pos] = sz_opts["vp_water"]  # vp_water in m/s
+                vp = np.where(vp < 1e-3, sz_opts["vp_water"], vp)  # vp_water in m/s
 
         # check the bbox
         if len(bbox) == 4:
-- 
2.43.0


From 8238231cdaf4896a5cac0fd7df39d991505f4291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 10/36] fix: clamp the cosine of the dihedral angle (NaN for
 flat tetrahedra)

---
 SeismicMesh/geometry/cpp/fast_geometry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/cpp/fast_geometry.cpp b/SeismicMesh/geometry/cpp/fast_geometry.cpp
index cd46759..b1cd568 100644
--- a/SeismicMesh/geometry/cpp/fast_geometry.cpp
+++ b/SeismicMesh/geometry/cpp/fast_geometry.cpp
@@ -411,7 +411,8 @@ std::vector<double> c_calc_dihedral_angles(std::vector<double> &points,
 
       double cphi =
           (v2Dotv3 - v1Dotv2 * v1Dotv3) / ((norm_v1Crossv2 * norm_v1Crossv3));
-      dh_angles[c * 6 + i] = std::acos(cphi); // in radians
+      dh_angles[c * 6 + i] = std::acos(
+          std::max(-1.0, std::min(1.0, cphi))); // in radians
     }
   }
   return dh_angles;
-- 
2.43.0


From bc0a23a68763c0750647a29834cb23ab3046b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 11/36] fix: drop vertices left without cells by the final
 removal of outside cells

---
 SeismicMesh/generation/mesh_generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 5e4a81a..1514d27 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -491,6 +491,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
             if comm.rank == 0:
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
                 t = _remove_triangles_outside(p, t, fd, h0 * 0.001)
+                p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
             break
 
         # Compute the forces on the edges
-- 
2.43.0


From 406dfc6c5457f40cd7308e7e961b774b206848f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 12/36] fix: do not localize a plain sizing callback when
 points are given in parallel

---
 SeismicMesh/generation/mesh_generator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 1514d27..86c38e8 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -785,7 +785,7 @@ def _project_points_back_newton(p, fd, deps, hmin, idx):
     return p
 
 
-def _user_defined_points(dim, fh, h0, bbox, points, comm, opts):
+def _user_defined_points(dim, fh, h0, bbox, points, comm, opts, lsf):
     """If the user has supplied initial points"""
     if comm.size > 1:
         # Domain decompose and localize points
@@ -797,7 +797,10 @@ def _user_defined_points(dim, fh, h0, bbox, points, comm, opts):
         else:
             blocks = None
             extents = None
-        fh = migration.localize_sizing_function(fh, h0, bbox, dim, opts["axis"], comm)
+        if lsf:
+            fh = migration.localize_sizing_function(
+                fh, h0, bbox, dim, opts["axis"], comm
+            )
         # send points to each subdomain
         p, extents = migration.localize_points(blocks, extents, comm, dim)
     else:
@@ -861,7 +864,9 @@ def _initialize_points(dim, geps, bbox, fh, fd, h0, opts, pfix, comm, lsf):
             h0, geps, dim, bbox, fh, fd, pfix, comm, opts, lsf
         )
     else:
-        fh, p, extents = _user_defined_points(dim, fh, h0, bbox, points, comm, opts)
+        fh, p, extents = _user_defined_points(
+            dim, fh, h0, bbox, points, comm, opts, lsf
+        )
     return fh, p, extents
 
 
-- 
2.43.0


From 0476af6030b1f2b628f13ef7ea1f8144ffe68822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 13/36] fix: reject set operations that mix 2D and 3D domains

---
 SeismicMesh/geometry/signed_distance_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index 451abb4..c745711 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -307,7 +307,7 @@ def _loop_call(func, d):
 class Union:
     def __init__(self, domains, smoothness=0.0):
         geom_dim = [d.dim for d in domains]
-        assert np.all(geom_dim != 2) or np.all(geom_dim != 3)
+        assert all(dim == geom_dim[0] for dim in geom_dim)
         self.dim = geom_dim[0]
         self.k = smoothness
         if self.dim == 2:
@@ -347,7 +347,7 @@ class Union:
 class Intersection:
     def __init__(self, domains, smoothness=0.0):
         geom_dim = [d.dim for d in domains]
-        assert np.all(geom_dim != 2) or np.all(geom_dim != 3)
+        assert all(dim == geom_dim[0] for dim in geom_dim)
         self.dim = geom_dim[0]
         self.k = smoothness
         if self.dim == 2:
@@ -387,7 +387,7 @@ class Intersection:
 class Difference:
     def __init__(self, domains, smoothness=0.0):
         geom_dim = [d.dim for d in domains]
-        assert np.all(geom_dim != 2) or np.all(geom_dim != 3)
+        assert all(dim == geom_dim[0] for dim in geom_dim)
         self.dim = geom_dim[0]
         self.k = smoothness
         if self.dim == 2:
-- 
2.43.0


From 69c74dafdc778f93b24b0ee5ddbb8581f9193f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 14/36] fix: plot_sizing_function returns on every rank

---
 SeismicMesh/sizing/mesh_size_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 11c59fa..d89eb2c 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -354,6 +354,7 @@ def plot_sizing_function(
 
     """
     comm = comm or MPI.COMM_WORLD
+    ax = None
     if comm.rank == 0:
 
         if not isinstance(cell_size, SizeFunction):
-- 
2.43.0


From fd7d98251af9ff87543fc1f5ef32786f52607558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 15/36] fix: Laplacian smoothing rejects 3D meshes as
 documented

---
 SeismicMesh/geometry/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 600481b..447ccdc 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -506,7 +506,7 @@ def laplacian2_fixed_point(vertices, entities):
     :return: entities: updated mesh connectivity
     :rtype: numpy.ndarray[`int` x (dim+1)]
     """
-    if vertices.ndim != 2:
+    if vertices.shape[1] != 2:
         raise NotImplementedError("Laplacian smoothing only works in 2D for now")
 
     n = len(vertices)
@@ -569,7 +569,7 @@ def laplacian2(vertices, entities, max_iter=20, tol=0.01, verbose=1, pfix=None):
     :return: entities: updated mesh connectivity
     :rtype: numpy.ndarray[`int` x (dim+1)]
     """
-    if vertices.ndim != 2:
+    if vertices.shape[1] != 2:
         raise NotImplementedError("Laplacian smoothing only works in 2D for now")
 
     def _closest_node(node, nodes):
-- 
2.43.0


From 254cdb140a4ce348cf7264665e9dbe1c4788703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 16/36] fix: bounding box encloses a domain rotated about
 several axes

---
 .../geometry/signed_distance_functions.py     | 54 ++++---------------
 1 file changed, 11 insertions(+), 43 deletions(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index c745711..b76aa4a 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -162,7 +162,6 @@ def _build_stretch(object):
 def _build_rotation(object):
     # object.rotation = [a,b,c] that means rotate by a on x axis, by b on y
     # axis and by c on z axis
-    bbox_x = bbox_y = bbox_z = object.bbox
     if object.dim == 2:
         object.R = np.array(
             [
@@ -208,48 +207,17 @@ def _build_rotation(object):
         object.Rz_inv = object.Rz.T
         if  reduce((lambda x, y: x or y), object.rotation):
             object.corners = corners(object.bbox)
-            tmp_x = tmp_y = tmp_z = 0.0
-            if object.rotation[0] != 0.0:
-                tmp_x = np.dot(object.Rx, object.corners.T).T
-                bbox_x = (
-                    np.min(tmp_x[:, 0]),
-                    np.max(tmp_x[:, 0]),
-                    np.min(tmp_x[:, 1]),
-                    np.max(tmp_x[:, 1]),
-                    np.min(tmp_x[:, 2]),
-                    np.max(tmp_x[:, 2]),
-                )
-            if object.rotation[1] != 0.0:
-                object.corners = corners(object.bbox)
-                tmp_y = np.dot(object.Ry, object.corners.T).T
-                bbox_y = (
-                    np.min(tmp_y[:, 0]),
-                    np.max(tmp_y[:, 0]),
-                    np.min(tmp_y[:, 1]),
-                    np.max(tmp_y[:, 1]),
-                    np.min(tmp_y[:, 2]),
-                    np.max(tmp_y[:, 2]),
-                )
-            if object.rotation[2] != 0.0:
-                object.corners = corners(object.bbox)
-                tmp_z = np.dot(object.Rz, object.corners.T).T
-                bbox_z = (
-                    np.min(tmp_z[:, 0]),
-                    np.max(tmp_z[:, 0]),
-                    np.min(tmp_z[:, 1]),
-                    np.max(tmp_z[:, 1]),
-                    np.min(tmp_z[:, 2]),
-                    np.max(tmp_z[:, 2]),
-                )
-            c = 0
-            object.bbox = []
-            for i,j,k in zip(bbox_x, bbox_y, bbox_z):
-                if c%2 == 0:
-                    object.bbox.append(min(i,j,k))
-                else:
-                    object.bbox.append(max(i,j,k))
-                c+=1
-            object.bbox = tuple(object.bbox)
+            # `_manipulate` undoes the rotations in the order x, y, z
+            R = np.dot(object.Rx, np.dot(object.Ry, object.Rz))
+            tmp = np.dot(R, object.corners.T).T
+            object.bbox = (
+                np.min(tmp[:, 0]),
+                np.max(tmp[:, 0]),
+                np.min(tmp[:, 1]),
+                np.max(tmp[:, 1]),
+                np.min(tmp[:, 2]),
+                np.max(tmp[:, 2]),
+            )
             object.corners = corners(object.bbox)
     return object
 
-- 
2.43.0


From b953ec262217b84d0bb8d7a7a447daca12258f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 17/36] fix: translate the corners of a domain along with it

---
 SeismicMesh/geometry/signed_distance_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index b76aa4a..2b892c7 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -245,6 +245,8 @@ def _build_translation(object):
                 object.bbox[4] + v[2],
                 object.bbox[5] + v[2],
             )
+        if object.corners is not None:
+            object.corners = object.corners + np.asarray(v)
     return object
 
 
-- 
2.43.0


From 330d14b82f40735c57dd98b4b6e396a318d6289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 18/36] fix: keep only corners near the level set as fixed
 points

---
 SeismicMesh/generation/mesh_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 86c38e8..e45d425 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -425,7 +425,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
     pfix, nfix = _unpack_pfix(dim, gen_opts, comm)
     if corners is not None and comm.size == 1:
         # keep corners only near level set
-        corners = corners[fd(corners) > -1000 * deps]
+        corners = corners[np.abs(fd(corners)) < 1000 * deps]
         pfix = np.append(pfix, corners, axis=0)
         nfix = len(pfix)
 
-- 
2.43.0


From 567e6655f8e0bf4e253d67ba636b20fc9118e59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 19/36] fix: verbose=0 also silences the linter

---
 SeismicMesh/generation/mesh_generator.py |  6 +-
 SeismicMesh/geometry/utils.py            | 78 +++++++++++++-----------
 2 files changed, 47 insertions(+), 37 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index e45d425..798326d 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -226,7 +226,9 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
             print_msg1(
                 "FAILURE: Termination...maximum number of iterations reached. Try increasing max_iter when generating the mesh",
             )
-            p, t = _termination(p, t, sliver_opts, comm, sliver=True)
+            p, t = _termination(
+                p, t, sliver_opts, comm, sliver=True, verbose=sliver_opts["verbose"]
+            )
             break
 
         print_msg1(f"On rank: {comm.rank}. There are {len(ele_nums)} slivers...")
@@ -671,7 +673,7 @@ def _termination(p, t, opts, comm, sliver=False, verbose=1):
             # p, t = geometry.laplacian2(p, t, verbose=verbose)
     # perform linting if asked
     if comm.rank == 0 and opts["perform_checks"]:
-        p, t = geometry.linter(p, t, dim=dim)
+        p, t = geometry.linter(p, t, dim=dim, verbose=verbose)
     elif comm.rank == 0:
         p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
 
diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 447ccdc..3407cd4 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -631,7 +631,7 @@ def laplacian2(vertices, entities, max_iter=20, tol=0.01, verbose=1, pfix=None):
     return vertices, entities
 
 
-def is_manifold(vertices, entities, dim=2):
+def is_manifold(vertices, entities, dim=2, verbose=1):
     """Determine if mesh is manifold by checking for the following:
     1. A boundary edge should be a member of one entity
     2. A non-boundary edge should be a member of two entities
@@ -649,7 +649,8 @@ def is_manifold(vertices, entities, dim=2):
     """
     bedges = get_boundary_edges(entities, dim=dim)
     if bedges.size != vertices[np.unique(bedges), :].size:
-        print("Mesh has a non-manifold boundary...", flush=True)
+        if verbose:
+            print("Mesh has a non-manifold boundary...", flush=True)
         return False
     return True
 
@@ -742,7 +743,7 @@ def get_centroids(vertices, entities, dim=2):
     return vertices[entities].sum(1) / (dim + 1)
 
 
-def do_any_overlap(vertices, entities, dim=2):
+def do_any_overlap(vertices, entities, dim=2, verbose=1):
     """
     Check if any entities connected to boundary of the mesh overlap
     ignoring self-intersections. This routine checks only the 1-ring around
@@ -765,7 +766,7 @@ def do_any_overlap(vertices, entities, dim=2):
     intersections = []
     # for all elements
     for ie, cent in enumerate(cents):
-        if ie % 1000 == 0:
+        if verbose and ie % 1000 == 0:
             print("INFO: " + str(100.0 * (ie / len(cents))) + " % done...", flush=True)
         # collect all elements neis around element ie
         neis = np.array([], dtype=int)
@@ -783,14 +784,15 @@ def do_any_overlap(vertices, entities, dim=2):
                 y1, y2, y3 = vertices[entities[ele, :], 1]
                 if vertex_in_entity2((cent[0], cent[1]), (x1, y1, x2, y2, x3, y3)):
                     # centroid ie is inside face iee
-                    print(
-                        "Alert: entity "
-                        + str(ie)
-                        + " intersects with entity "
-                        + str(ele)
-                        + ". These will be adjusted.",
-                        flush=True,
-                    )
+                    if verbose:
+                        print(
+                            "Alert: entity "
+                            + str(ie)
+                            + " intersects with entity "
+                            + str(ele)
+                            + ". These will be adjusted.",
+                            flush=True,
+                        )
                     # record all intersection pairs
                     intersections.append((ie, ele))
             elif dim == 3:
@@ -803,21 +805,22 @@ def do_any_overlap(vertices, entities, dim=2):
                     (x1, y1, z1, x2, y2, z2, x3, y3, z3, x4, y4, z4),
                 ):
                     # centroid ie is inside cell iee
-                    print(
-                        "Alert: entity "
-                        + str(ie)
-                        + " intersects with entity "
-                        + str(ele)
-                        + ". These will be adjusted.",
-                        flush=True,
-                    )
+                    if verbose:
+                        print(
+                            "Alert: entity "
+                            + str(ie)
+                            + " intersects with entity "
+                            + str(ele)
+                            + ". These will be adjusted.",
+                            flush=True,
+                        )
                     # record all intersection pairs
                     intersections.append((ie, ele))
 
     return intersections
 
 
-def linter(vertices, entities, dim=2, min_qual=0.10):
+def linter(vertices, entities, dim=2, min_qual=0.10, verbose=1):
     """Remove and check mesh for geometric and toplogical defects.
 
     :param vertex: vertex coordinates of mesh
@@ -828,16 +831,19 @@ def linter(vertices, entities, dim=2, min_qual=0.10):
     :type dim: `int`, optional
     :param min_qual: minimum geometric quality to consider "poor" quality
     :type min_qual: `float`, optional
+    :param verbose: display progress to the screen
+    :type verbose: `int`, optional
 
     :return vertices: updated mesh vertices
     :rtype: numpy.ndarray[`float` x dim]
     :return: entities: updated mesh connectivity
     :rtype: numpy.ndarray[`int` x (dim+1)]
     """
-    print("Performing mesh linting...", flush=True)
+    if verbose:
+        print("Performing mesh linting...", flush=True)
     qual = simp_qual(vertices, entities)
     # determine if there's degenerate overlapping elements
-    intersections = do_any_overlap(vertices, entities, dim=dim)
+    intersections = do_any_overlap(vertices, entities, dim=dim, verbose=verbose)
     # delete the lower quality in the pair
     delete = np.array([], dtype=int)
     for intersect in intersections:
@@ -845,7 +851,8 @@ def linter(vertices, entities, dim=2, min_qual=0.10):
         sel = np.argmin(qual[ix])
         delete = np.append(delete, intersect[sel])
     delete = np.unique(delete)
-    print("Deleting " + str(len(delete)) + " overlapped entities", flush=True)
+    if verbose:
+        print("Deleting " + str(len(delete)) + " overlapped entities", flush=True)
     entities = np.delete(entities, delete, axis=0)
 
     # clean up
@@ -853,20 +860,21 @@ def linter(vertices, entities, dim=2, min_qual=0.10):
     # delete remaining low quality boundary elements
     if dim == 2:
         vertices, entities = delete_boundary_entities(
-            vertices, entities, min_qual=min_qual
+            vertices, entities, min_qual=min_qual, verbose=verbose
         )
         # check for non-manifold boundaries and alert
-        _ = is_manifold(vertices, entities)
+        _ = is_manifold(vertices, entities, verbose=verbose)
     # calculate final minimum simplex quality
     qual = simp_qual(vertices, entities)
     minimum_quality = np.amin(qual)
-    print(
-        "There are "
-        + str(len(vertices))
-        + " vertices and "
-        + str(len(entities))
-        + " elements in the mesh",
-        flush=True,
-    )
-    print("The minimum element quality is " + str(minimum_quality), flush=True)
+    if verbose:
+        print(
+            "There are "
+            + str(len(vertices))
+            + " vertices and "
+            + str(len(entities))
+            + " elements in the mesh",
+            flush=True,
+        )
+        print("The minimum element quality is " + str(minimum_quality), flush=True)
     return vertices, entities
-- 
2.43.0


From 07ca1530a5c9c2926ffaf4e300a5f663c7e745a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 20/36] fix: the final smoothing does not move the fixed points

---
 SeismicMesh/generation/mesh_generator.py | 8 +++++---
 SeismicMesh/geometry/utils.py            | 7 ++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 798326d..c470b4b 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -489,7 +489,9 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
                 print_msg1(
                     "Termination reached...maximum number of iterations reached.",
                 )
-            p, t = _termination(p, t, gen_opts, comm, verbose=gen_opts["verbose"])
+            p, t = _termination(
+                p, t, gen_opts, comm, verbose=gen_opts["verbose"], pfix=pfix
+            )
             if comm.rank == 0:
                 p = _improve_level_set_newton(p, t, fd, deps, deps * 1000)
                 t = _remove_triangles_outside(p, t, fd, h0 * 0.001)
@@ -655,7 +657,7 @@ def _parse_kwargs(kwargs):
             )
 
 
-def _termination(p, t, opts, comm, sliver=False, verbose=1):
+def _termination(p, t, opts, comm, sliver=False, verbose=1, pfix=None):
     """Shut it down when reacing `max_iter`"""
     dim = p.shape[1]
     if comm.size > 1 and sliver is False:
@@ -669,7 +671,7 @@ def _termination(p, t, opts, comm, sliver=False, verbose=1):
         )
         # only do Laplacian smoothing if no immersed domains
         if opts["subdomains"] is None and opts["mesh_improvement"]:
-            p, t = geometry.laplacian2_fixed_point(p, t)
+            p, t = geometry.laplacian2_fixed_point(p, t, pfix=pfix)
             # p, t = geometry.laplacian2(p, t, verbose=verbose)
     # perform linting if asked
     if comm.rank == 0 and opts["perform_checks"]:
diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 3407cd4..ed0c611 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -491,7 +491,7 @@ def _sparse(Ix, J, S, shape=None, dtype=None):
     return spsparse.coo_matrix((S, (II, J)), shape, dtype)
 
 
-def laplacian2_fixed_point(vertices, entities):
+def laplacian2_fixed_point(vertices, entities, pfix=None):
     """Solve the laplacian smoothing problem as a fixed point problem
     solve this once, i.e., (I - A) x = rhs vs.
     repeating this x_{n+1} = A x_n
@@ -500,6 +500,8 @@ def laplacian2_fixed_point(vertices, entities):
     :type vertices: numpy.ndarray[`float` x dim]
     :param entities: the mesh connectivity
     :type entities: numpy.ndarray[`int` x (dim+1)]
+    :param pfix: coordinates that you don't wish to move
+    :type pfix: array-like
 
     :return vertices: updated vertices of mesh
     :rtype: numpy.ndarray[`float` x dim]
@@ -525,6 +527,9 @@ def laplacian2_fixed_point(vertices, entities):
     matrix = matrix.tocsr()
 
     bnd = get_boundary_vertices(entities)
+    if pfix is not None and len(pfix) > 0:
+        ifix = [np.argmin(((vertices - fix) ** 2).sum(1)) for fix in pfix]
+        bnd = np.unique(np.append(bnd, ifix))
 
     # Apply Dirichlet conditions.
     # Set all Dirichlet rows to 0.
-- 
2.43.0


From 38610f8b5d7c26fef8bba6f51722231cb5320fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 21/36] fix: vertex_to_entities handles vertices that no entity
 uses

---
 SeismicMesh/geometry/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index ed0c611..4bec1c5 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -120,10 +120,8 @@ def vertex_to_entities(vertices, entities, dim=2):
     ve = np.hstack((ve, ext))
     ve = ve[ve[:, 0].argsort(), :]
 
-    idx = np.insert(np.diff(ve[:, 0]), 0, 0)
-    vtoe_pointer = np.argwhere(idx)
-    vtoe_pointer = np.insert(vtoe_pointer, 0, 0)
-    vtoe_pointer = np.append(vtoe_pointer, num_entities * (dim + 1))
+    # vertices that no entity uses have an empty range
+    vtoe_pointer = np.searchsorted(ve[:, 0], np.arange(len(vertices) + 1))
 
     vtoe = ve[:, 1]
 
-- 
2.43.0


From 3ced8f2f561c48a4e40767cb1dea05ff314a60b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 22/36] fix: take the grid size from velocity_data when it is
 given

---
 SeismicMesh/sizing/mesh_size_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index d89eb2c..a54d9bb 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -142,6 +142,9 @@ def get_sizing_function_from_segy(
                 axes_order_sort=sz_opts["axes_order_sort"],
                 dtype=sz_opts["dtype"],
             )
+        else:
+            nz, nx = vp.shape[:2]
+            ny = vp.shape[2] if vp.ndim == 3 else ny
 
         if sz_opts["units"] == "km-s":
             print("Converting from km-s to m-s...", flush=True)
-- 
2.43.0


From e71038d088b44422cc575f421d5d4bb01a07ef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 23/36] fix: gradient sizing of a uniform velocity model is not
 NaN

---
 SeismicMesh/sizing/mesh_size_function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index a54d9bb..83fd1cd 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -446,7 +446,9 @@ def _gradient_sizing(vp, grad, stencil_size):
     win_var = win_sqr_mean - win_mean**2
 
     # normalize variance to [0,1]
-    win_var = np.divide(win_var, np.amax(win_var))
+    max_var = np.amax(win_var)
+    if max_var > 0.0:
+        win_var = np.divide(win_var, max_var)
     # win_var /= np.amax(win_var)
     win_var -= np.amin(win_var)
     return grad / (win_var + 0.10)
-- 
2.43.0


From c64d1dfc0f5a6c606d79bb32aea45e24c85326a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 24/36] fix: every rank rejects an unknown sizing option
 (deadlock)

---
 SeismicMesh/sizing/mesh_size_function.py | 61 ++++++++++++------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 83fd1cd..d176d52 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -125,6 +125,37 @@ def get_sizing_function_from_segy(
     cell_size = None
 
     sz_opts.update(kwargs)
+    # every rank rejects a wrong call, otherwise the others wait for rank 0
+    for key in kwargs:
+        if key in {
+            "hmin",
+            "hmax",
+            "wl",
+            "freq",
+            "cr_max",
+            "dt",
+            "space_order",
+            "grad",
+            "grade",
+            "stencil_size",
+            "pad_style",
+            "domain_pad",
+            "units",
+            "nz",
+            "nx",
+            "ny",
+            "byte_order",
+            "axes_order",
+            "axes_order_sort",
+            "dtype",
+            "velocity_data",
+            "vp_water",
+        }:
+            pass
+        else:
+            raise ValueError(
+                "Option %s with parameter %s not recognized " % (key, kwargs[key])
+            )
     if comm.rank == 0:
 
         vp = sz_opts["velocity_data"]
@@ -177,36 +208,6 @@ def get_sizing_function_from_segy(
 
         cell_size = _initialize_sizing_function(dim, sz_opts["hmin"], nz, nx, ny)
 
-        for key in kwargs:
-            if key in {
-                "hmin",
-                "hmax",
-                "wl",
-                "freq",
-                "cr_max",
-                "dt",
-                "space_order",
-                "grad",
-                "grade",
-                "stencil_size",
-                "pad_style",
-                "domain_pad",
-                "units",
-                "nz",
-                "nx",
-                "ny",
-                "byte_order",
-                "axes_order",
-                "axes_order_sort",
-                "dtype",
-                "velocity_data",
-                "vp_water",
-            }:
-                pass
-            else:
-                raise ValueError(
-                    "Option %s with parameter %s not recognized " % (key, kwargs[key])
-                )
         if np.any([sz_opts["wl"] > 0, sz_opts["grad"] > 0]):
             cell_size = np.minimum(
                 _wavelength_sizing(vp, sz_opts["wl"], sz_opts["freq"]),
-- 
2.43.0


From a92f62772156d1475b0377f90762252181908652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 25/36] fix: write_velocity_model converts to the m/s it labels
 the data with

---
 SeismicMesh/sizing/mesh_size_function.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index d176d52..b08f0b2 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -275,6 +275,8 @@ def write_velocity_model(
              Width of the domain pad in meters.
         * *pad_style* (``string``) --
              Type of padding.
+        * *units* (``string``) --
+             The units of the seismic velocity model (default='m-s')
         * *axes_order* (``tuple``) --
              The order of the axes (assumes z,x,y is (0,1,2))
         * *axes_order_sort* (``string``) --
@@ -326,6 +328,11 @@ def write_velocity_model(
             dtype=opts["dtype"],
         )
 
+        if opts["units"] == "km-s":
+            vp = vp * 1000.0
+        elif opts["units"] == "ft-s":
+            vp = vp * 0.3048
+
         if opts["domain_pad"] > 0.0:
             print("Adding a domain pad to the velocity model...")
             tmp = vp
-- 
2.43.0


From 973d117110d20861d3f92d4ffca641eca4a19ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 26/36] fix: blocker splits along `axis` and gives each point
 to exactly one block

---
 SeismicMesh/decomp/blocker.py | 103 ++++------------------------------
 1 file changed, 12 insertions(+), 91 deletions(-)

diff --git a/SeismicMesh/decomp/blocker.py b/SeismicMesh/decomp/blocker.py
index 979d74c..d86d65b 100644
--- a/SeismicMesh/decomp/blocker.py
+++ b/SeismicMesh/decomp/blocker.py
@@ -7,105 +7,26 @@ def blocker(points, rank, num_blocks, axis=0):
     above and below/left and right to the block depending on axis.
     """
     num_points, dim = points.shape
-    EPS = np.finfo(float).eps
 
     if dim < 2 or dim > 3:
         raise ValueError("Dimensions of points are not supported")
+    if axis < 0 or axis >= dim:
+        raise ValueError("Axis to decompose along is not supported")
     assert num_points // num_blocks > 1, "too few points for chosen num_blocks"
 
-    x_lims = points[:, 0].min() - EPS, points[:, 0].max() + EPS
-    y_lims = points[:, 1].min() - EPS, points[:, 1].max() + EPS
-    if dim > 2:
-        z_lims = points[:, 2].min() - EPS, points[:, 2].max() + EPS
-
-    if axis == 0:
-        if dim == 2:
-            xx, yy = np.meshgrid(
-                np.linspace(*x_lims, 1, endpoint=False),
-                np.linspace(*y_lims, num_blocks, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / 1
-            dy = (y_lims[1] - y_lims[0]) / num_blocks
-        elif dim == 3:
-            xx, yy, zz = np.meshgrid(
-                np.linspace(*x_lims, 1, endpoint=False),
-                np.linspace(*y_lims, num_blocks, endpoint=False),
-                np.linspace(*z_lims, 1, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / 1
-            dy = (y_lims[1] - y_lims[0]) / num_blocks
-            dz = (z_lims[1] - z_lims[0]) / 1
-
-    elif axis == 1:
-        if dim == 2:
-            xx, yy = np.meshgrid(
-                np.linspace(*x_lims, num_blocks, endpoint=False),
-                np.linspace(*y_lims, 1, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / num_blocks
-            dy = (y_lims[1] - y_lims[0]) / 1
-        elif dim == 3:
-            xx, yy, zz = np.meshgrid(
-                np.linspace(*x_lims, num_blocks, endpoint=False),
-                np.linspace(*y_lims, 1, endpoint=False),
-                np.linspace(*z_lims, 1, endpoint=False),
-            )
-
-            dx = (x_lims[1] - x_lims[0]) / num_blocks
-            dy = (y_lims[1] - y_lims[0]) / 1
-            dz = (z_lims[1] - z_lims[0]) / 1
-    elif axis == 2:
-        xx, yy, zz = np.meshgrid(
-            np.linspace(*x_lims, 1, endpoint=False),
-            np.linspace(*y_lims, num_blocks, endpoint=False),
-            np.linspace(*z_lims, num_blocks, endpoint=False),
-        )
-
-        dx = (x_lims[1] - x_lims[0]) / 1
-        dy = (y_lims[1] - y_lims[0]) / 1
-        dz = (z_lims[1] - z_lims[0]) / num_blocks
+    # slabs of equal width along axis, every point belongs to exactly one
+    x = points[:, axis]
+    edges = np.linspace(x.min(), x.max(), num_blocks + 1)
+    owner = np.searchsorted(edges[1:-1], x, side="right")
 
     blocks = []
     block_extents = []
 
-    if dim == 2:
-        for low_x, low_y in zip(xx.ravel(), yy.ravel()):
-            block = points[
-                (points[:, 0] >= low_x)
-                & (points[:, 0] <= low_x + dx)
-                & (points[:, 1] >= low_y)
-                & (points[:, 1] <= low_y + dy)
-            ]
-            if block.shape[0]:
-                blocks.append(block)
-
-        block_extents = []
-        for block in blocks:
-            tmpm = np.amin(block, axis=0)
-            tmpp = np.amax(block, axis=0)
-            # min x min y max x max y
-            block_extents.append([tmpm[0], tmpm[1], tmpp[0], tmpp[1]])
-    elif dim == 3:
-        for low_x, low_y, low_z in zip(xx.ravel(), yy.ravel(), zz.ravel()):
-            block = points[
-                (points[:, 0] >= low_x)
-                & (points[:, 0] <= low_x + dx)
-                & (points[:, 1] >= low_y)
-                & (points[:, 1] <= low_y + dy)
-                & (points[:, 2] >= low_z)
-                & (points[:, 2] <= low_z + dz)
-            ]
-            if block.shape[0]:
-                blocks.append(block)
-
-        block_extents = []
-        for block in blocks:
-            tmpm = np.amin(block, axis=0)
-            tmpp = np.amax(block, axis=0)
-            # min x min y min z max x max y max z
-            block_extents.append([tmpm[0], tmpm[1], tmpm[2], tmpp[0], tmpp[1], tmpp[2]])
+    for b in range(num_blocks):
+        block = points[owner == b]
+        if block.shape[0]:
+            blocks.append(block)
+            # min x min y (min z) max x max y (max z)
+            block_extents.append([*np.amin(block, axis=0), *np.amax(block, axis=0)])
 
     return blocks, block_extents
-- 
2.43.0


From 95646b9c71119ddbd4c07e5dbabe05334e96100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 27/36] fix: compiled kernels reject inputs of the wrong size
 instead of reading past them

---
 SeismicMesh/generation/cpp/delaunay.cpp    | 4 ++++
 SeismicMesh/geometry/cpp/fast_geometry.cpp | 9 +++++++++
 SeismicMesh/migration/cpp/cpputils.cpp     | 6 ++++++
 SeismicMesh/sizing/cpp/FastHJ.cpp          | 9 +++++++++
 4 files changed, 28 insertions(+)

diff --git a/SeismicMesh/generation/cpp/delaunay.cpp b/SeismicMesh/generation/cpp/delaunay.cpp
index 7435745..655d9f0 100644
--- a/SeismicMesh/generation/cpp/delaunay.cpp
+++ b/SeismicMesh/generation/cpp/delaunay.cpp
@@ -197,6 +197,8 @@ delaunay2(py::array_t<double, py::array::c_style | py::array::forcecast> x,
     throw std::runtime_error("Input should be 2 1D NumPy arrays");
 
   int num_points = x.shape()[0];
+  if (y.shape()[0] != num_points)
+    throw std::runtime_error("Inputs should have the same length");
 
   // allocate std::vector (to pass to the C++ function)
   std::vector<double> cppx(num_points);
@@ -238,6 +240,8 @@ delaunay3(py::array_t<double, py::array::c_style | py::array::forcecast> x,
     throw std::runtime_error("Input should be three 1D NumPy arrays");
 
   int num_points = x.shape()[0];
+  if (y.shape()[0] != num_points || z.shape()[0] != num_points)
+    throw std::runtime_error("Inputs should have the same length");
 
   // allocate std::vector (to pass to the C++ function)
   std::vector<double> cppx(num_points);
diff --git a/SeismicMesh/geometry/cpp/fast_geometry.cpp b/SeismicMesh/geometry/cpp/fast_geometry.cpp
index b1cd568..5bcda9b 100644
--- a/SeismicMesh/geometry/cpp/fast_geometry.cpp
+++ b/SeismicMesh/geometry/cpp/fast_geometry.cpp
@@ -467,6 +467,8 @@ double c_calc_3x3determinant(std::vector<double> &m) {
 // ----------------
 double calc_3x3determinant(
     py::array_t<double, py::array::c_style | py::array::forcecast> matrix) {
+  if (matrix.size() != 9)
+    throw std::runtime_error("Input should be a 3x3 matrix");
   // allocate std::vector (to pass to the C++ function)
   std::vector<double> cppMatrix(9);
 
@@ -500,6 +502,8 @@ double c_calc_4x4determinant(std::vector<double> &m) {
 // ----------------
 double calc_4x4determinant(
     py::array_t<double, py::array::c_style | py::array::forcecast> matrix) {
+  if (matrix.size() != 16)
+    throw std::runtime_error("Input should be a 4x4 matrix");
   // allocate std::vector (to pass to the C++ function)
   std::vector<double> cppMatrix(16);
 
@@ -551,6 +555,8 @@ py::array calc_volume_grad(
     py::array_t<double, py::array::c_style | py::array::forcecast> p3) {
 
   int num_points = p1.size() / 3;
+  if (p2.size() != p1.size() || p3.size() != p1.size())
+    throw std::runtime_error("Inputs should have the same size");
 
   std::vector<double> cppP1(3 * num_points);
   std::vector<double> cppP2(3 * num_points);
@@ -674,6 +680,9 @@ py::array calc_circumsphere_grad(
     py::array_t<double, py::array::c_style | py::array::forcecast> p3) {
 
   int num_points = p0.size() / 3;
+  if (p1.size() != p0.size() || p2.size() != p0.size() ||
+      p3.size() != p0.size())
+    throw std::runtime_error("Inputs should have the same size");
 
   std::vector<double> cppP0(3 * num_points);
   std::vector<double> cppP1(3 * num_points);
diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index 0b07600..aee2a67 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -211,6 +211,9 @@ where_to2(py::array_t<double, py::array::c_style | py::array::forcecast> points,
   int num_faces = faces.size() / 3;
   int num_points = points.size() / 2;
 
+  if (llc.size() != 4 || urc.size() != 4)
+    throw std::runtime_error("Two boxes should be given");
+
   // allocate std::vector (to pass to the C++ function)
   std::vector<double> cpppoints(num_points * 2);
   std::vector<int> cppfaces(num_faces * 3);
@@ -395,6 +398,9 @@ where_to3(py::array_t<double, py::array::c_style | py::array::forcecast> points,
   int num_faces = faces.size() / 4;
   int num_points = points.size() / 3;
 
+  if (llc.size() != 6 || urc.size() != 6)
+    throw std::runtime_error("Two boxes should be given");
+
   // allocate std::vector (to pass to the C++ function)
   std::vector<double> cpppoints(num_points * 3);
   std::vector<int> cppfaces(num_faces * 4);
diff --git a/SeismicMesh/sizing/cpp/FastHJ.cpp b/SeismicMesh/sizing/cpp/FastHJ.cpp
index e05e995..adeff2b 100644
--- a/SeismicMesh/sizing/cpp/FastHJ.cpp
+++ b/SeismicMesh/sizing/cpp/FastHJ.cpp
@@ -163,12 +163,21 @@ limgrad(py::array_t<int, py::array::c_style | py::array::forcecast> dims,
         py::array_t<double, py::array::c_style | py::array::forcecast> ffun) {
   int num_points = ffun.size();
 
+  if (dims.size() != 3)
+    throw std::runtime_error("Three dimensions should be given");
+
   std::vector<double> cffun(num_points);
   std::vector<int> cdims(3);
 
   std::memcpy(cffun.data(), ffun.data(), num_points * sizeof(double));
   std::memcpy(cdims.data(), dims.data(), 3 * sizeof(int));
 
+  for (int d : cdims)
+    if (d <= 0)
+      throw std::runtime_error("Dimensions should be positive");
+  if ((ssize_t)cdims[0] * cdims[1] * cdims[2] != num_points)
+    throw std::runtime_error("Dimensions should match the size of the field");
+
   std::vector<double> sffun = c_limgrad(cdims, elen, dfdx, imax, cffun);
 
   ssize_t sodble = sizeof(double);
-- 
2.43.0


From c03f3dba9534f9650ce0eba0fdaedf6b3fb3979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 28/36] fix: buffer the extents when points are given in
 parallel (overlapping cells)

---
 SeismicMesh/generation/mesh_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index c470b4b..4a82fe5 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -806,7 +806,9 @@ def _user_defined_points(dim, fh, h0, bbox, points, comm, opts, lsf):
                 fh, h0, bbox, dim, opts["axis"], comm
             )
         # send points to each subdomain
-        p, extents = migration.localize_points(blocks, extents, comm, dim)
+        p, _ = migration.localize_points(blocks, extents, comm, dim)
+        # buffered, so that the exchanged ghosts cover the cells at the interfaces
+        extents = _form_extents(p, h0, comm, opts)
     else:
         p = points
         extents = None
-- 
2.43.0


From 726178ebb557157c851aa5fdc09894264d9da148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 29/36] fix: an inactive sizing strategy does not cap the sizes
 at 99999

---
 SeismicMesh/sizing/mesh_size_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index b08f0b2..de60008 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -425,7 +425,7 @@ def _wavelength_sizing(vp, wl=5, freq=2.0):
     of an acoustic/elastic wave.
     """
     if wl == 0.0:
-        return 99999
+        return np.inf
     if wl < 0:
         raise ValueError("Parameter `wl` must be set > 0")
     if freq < 0.0:
@@ -440,7 +440,7 @@ def _wavelength_sizing(vp, wl=5, freq=2.0):
 def _gradient_sizing(vp, grad, stencil_size):
     """Refine the mesh near sharp gradients in seismic velocity."""
     if grad == 0.0:
-        return 99999
+        return np.inf
     print("Refining mesh sizes near sharp velocity gradients...")
     if grad < 0:
         raise ValueError("Parameter grad must be > 0")
-- 
2.43.0


From 7f4fafd5c3ecfe1d8763359b79aff9ccecdc413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 30/36] fix: a negative wl or grad is rejected also when it is
 the only strategy

---
 SeismicMesh/sizing/mesh_size_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index de60008..99164ae 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -208,7 +208,7 @@ def get_sizing_function_from_segy(
 
         cell_size = _initialize_sizing_function(dim, sz_opts["hmin"], nz, nx, ny)
 
-        if np.any([sz_opts["wl"] > 0, sz_opts["grad"] > 0]):
+        if np.any([sz_opts["wl"] != 0, sz_opts["grad"] != 0]):
             cell_size = np.minimum(
                 _wavelength_sizing(vp, sz_opts["wl"], sz_opts["freq"]),
                 _gradient_sizing(vp, sz_opts["grad"], sz_opts["stencil_size"]),
-- 
2.43.0


From 9735bb9290e46aeb289287063f06cd20ffdad4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:47 +0000
Subject: [PATCH 31/36] fix: fix_mesh merges coinciding vertices on either side
 of zero

---
 SeismicMesh/geometry/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 4bec1c5..2ed22da 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -224,7 +224,8 @@ def fix_mesh(p, t, ptol=2e-13, dim=2, delete_unused=False, fix_orientation=True)
 
     # duplicate vertices
     snap = (p.max(0) - p.min(0)).max() * ptol
-    _, ix, jx = unique_rows(np.round(p / snap) * snap, True, True)
+    # rows are compared bytewise, turn -0.0 into 0.0
+    _, ix, jx = unique_rows(np.round(p / snap) * snap + 0.0, True, True)
 
     p = p[ix]
     t = jx[t]
-- 
2.43.0


From 43f5b6e5a711d056ba49cc4af32e8849eba8e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 32/36] fix: document the actual default of max_dh_angle_bound

---
 SeismicMesh/generation/mesh_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 4a82fe5..6e00a1a 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -93,7 +93,7 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
         * *min_dh_angle_bound* (`float`) --
             The minimum allowable dihedral angle bound. (default==10 degrees)
         * *max_dh_angle_bound* (`float`) --
-            The maximum allowable dihedral angle bound. (default==170 degrees)
+            The maximum allowable dihedral angle bound. (default==180 degrees)
         * *geps_mult* (`float`) --
             The tolerance used to determine if a vertex is "in" the domain. (default==0.1)
 
-- 
2.43.0


From fc40e223783b613b0541ff7067d117a20a17c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:00 +0000
Subject: [PATCH 33/36] fix: per-iteration sliver counts are shown only with
 verbose > 1

---
 SeismicMesh/generation/mesh_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 6e00a1a..cbc3f71 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -231,7 +231,7 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
             )
             break
 
-        print_msg1(f"On rank: {comm.rank}. There are {len(ele_nums)} slivers...")
+        print_msg2(f"On rank: {comm.rank}. There are {len(ele_nums)} slivers...")
 
         move = t[ele_nums, 0]
 
-- 
2.43.0


From dbbed668534ba8a9530cffd952b1c474dda82f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:51 +0000
Subject: [PATCH 34/36] fix: shapes without corners can be translated

---
 SeismicMesh/geometry/signed_distance_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index 2b892c7..177e07e 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -245,7 +245,7 @@ def _build_translation(object):
                 object.bbox[4] + v[2],
                 object.bbox[5] + v[2],
             )
-        if object.corners is not None:
+        if getattr(object, "corners", None) is not None:
             object.corners = object.corners + np.asarray(v)
     return object
 
-- 
2.43.0


From faa312f6def06868c4a98a976935ce28ec4f984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:23 +0000
Subject: [PATCH 35/36] fix: compiled kernels reject cells that do not index
 into the points

---
 SeismicMesh/geometry/cpp/fast_geometry.cpp | 13 +++++++++++++
 SeismicMesh/migration/cpp/cpputils.cpp     |  9 +++++++++
 2 files changed, 22 insertions(+)

diff --git a/SeismicMesh/geometry/cpp/fast_geometry.cpp b/SeismicMesh/geometry/cpp/fast_geometry.cpp
index 5bcda9b..afefe9e 100644
--- a/SeismicMesh/geometry/cpp/fast_geometry.cpp
+++ b/SeismicMesh/geometry/cpp/fast_geometry.cpp
@@ -49,6 +49,9 @@ std::vector<T> vectorSortIntArr(std::vector<std::array<T, 2>> v) {
 py::array unique_edges(
     py::array_t<int, py::array::c_style | py::array::forcecast> edges) {
 
+  if (edges.size() % 2 != 0)
+    throw std::runtime_error("Edges should be pairs of vertices");
+
   std::vector<int> cedges(edges.size());
   std::memcpy(cedges.data(), edges.data(), edges.size() * sizeof(int));
 
@@ -76,6 +79,13 @@ py::array unique_edges(
                       ));
 }
 
+// every entry of a cell table should be a row of the table of points
+void check_cells(const std::vector<int> &cells, const int num_points) {
+  for (int vertex : cells)
+    if (vertex < 0 || vertex >= num_points)
+      throw std::runtime_error("Cells should index into the points");
+}
+
 double l2_norm(const std::array<double, 3> &u) {
   double accum = 0.;
   for (int i = 0; i < 3; ++i) {
@@ -259,6 +269,7 @@ py::array remove_external_entities2(
   // copy py::array -> std::vector
   std::memcpy(cppPts.data(), points.data(), 2 * num_points * sizeof(double));
   std::memcpy(cppCells.data(), cells.data(), 3 * num_cells * sizeof(int));
+  check_cells(cppCells, num_points);
 
   std::vector<double> dist = c_remove_external_entities2(cppPts, cppCells, x1, x2, y1, y2);
 
@@ -329,6 +340,7 @@ py::array remove_external_entities3(
   // copy py::array -> std::vector
   std::memcpy(cppPts.data(), points.data(), 3 * num_points * sizeof(double));
   std::memcpy(cppCells.data(), cells.data(), 4 * num_cells * sizeof(int));
+  check_cells(cppCells, num_points);
 
   std::vector<double> dist = c_remove_external_entities3(cppPts, cppCells, x1, x2, y1, y2, z1, z2);
 
@@ -432,6 +444,7 @@ py::array calc_dihedral_angles(
   // copy py::array -> std::vector
   std::memcpy(cppPts.data(), pts.data(), 3 * num_points * sizeof(double));
   std::memcpy(cppCells.data(), cells.data(), 4 * num_cells * sizeof(int));
+  check_cells(cppCells, num_points);
 
   std::vector<double> dh_angles = c_calc_dihedral_angles(cppPts, cppCells);
 
diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index aee2a67..d77cfd1 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -29,6 +29,13 @@ typedef K::Iso_cuboid_3 Cuboid;
 
 namespace py = pybind11;
 
+// every entry of a cell table should be a row of the table of points
+void check_cells(const std::vector<int> &cells, const int num_points) {
+  for (int vertex : cells)
+    if (vertex < 0 || vertex >= num_points)
+      throw std::runtime_error("Cells should index into the points");
+}
+
 // build the vertex-to-element connectivity here for 2d
 std::vector<std::vector<int>> build_vtoe2(std::vector<double> &p,
                                           std::vector<int> &t) {
@@ -223,6 +230,7 @@ where_to2(py::array_t<double, py::array::c_style | py::array::forcecast> points,
   // copy py::array -> std::vector
   std::memcpy(cpppoints.data(), points.data(), num_points * 2 * sizeof(double));
   std::memcpy(cppfaces.data(), faces.data(), num_faces * 3 * sizeof(int));
+  check_cells(cppfaces, num_points);
   std::memcpy(cppllc.data(), llc.data(), 4 * sizeof(double));
   std::memcpy(cppurc.data(), urc.data(), 4 * sizeof(double));
 
@@ -410,6 +418,7 @@ where_to3(py::array_t<double, py::array::c_style | py::array::forcecast> points,
   // copy py::array -> std::vector
   std::memcpy(cpppoints.data(), points.data(), num_points * 3 * sizeof(double));
   std::memcpy(cppfaces.data(), faces.data(), num_faces * 4 * sizeof(int));
+  check_cells(cppfaces, num_points);
   std::memcpy(cppllc.data(), llc.data(), 6 * sizeof(double));
   std::memcpy(cppurc.data(), urc.data(), 6 * sizeof(double));
 
-- 
2.43.0


From c5dad1dfc2449318a62f3a5dfeb4d34a2f839c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:23 +0000
Subject: [PATCH 36/36] fix: triangulation objects reject vertices and
 selections out of range

---
 SeismicMesh/generation/cpp/delaunay_class.cpp  | 8 +++++---
 SeismicMesh/generation/cpp/delaunay_class3.cpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/SeismicMesh/generation/cpp/delaunay_class.cpp b/SeismicMesh/generation/cpp/delaunay_class.cpp
index 8616af9..8282204 100644
--- a/SeismicMesh/generation/cpp/delaunay_class.cpp
+++ b/SeismicMesh/generation/cpp/delaunay_class.cpp
@@ -129,7 +129,7 @@ PYBIND11_MODULE(_delaunay_class, m) {
                handles.push_back(vi);
              }
              for (std::size_t i = 0; i < num_to_remove; ++i) {
-               dt.remove(handles[to_remove[i]]);
+               dt.remove(handles.at(to_remove[i]));
              }
              return dt;
            })
@@ -140,6 +140,8 @@ PYBIND11_MODULE(_delaunay_class, m) {
              std::vector<Vertex_handle> handles;
              std::vector<Point> new_pos;
              int num_to_move = to_move.size();
+             if (new_positions.size() != 2 * to_move.size())
+               throw std::runtime_error("Each moved vertex needs a position");
              // store all vertex handles
              for (Vi vi = dt.finite_vertices_begin();
                   vi != dt.finite_vertices_end(); vi++) {
@@ -152,7 +154,7 @@ PYBIND11_MODULE(_delaunay_class, m) {
              }
              //
              for (std::size_t i = 0; i < num_to_move; ++i) {
-               dt.move(handles[to_move[i]], new_pos[i]);
+               dt.move(handles.at(to_move[i]), new_pos[i]);
              }
              return dt;
            })
@@ -169,7 +171,7 @@ PYBIND11_MODULE(_delaunay_class, m) {
               face_handles.reserve(faces_to_get.size());
               int ix = 0;
               for (Fi fi = dt.finite_faces_begin(); fi != dt.finite_faces_end(); fi++) {
-                  if(faces_to_get[ix] == 1){
+                  if(faces_to_get.at(ix) == 1){
                       face_handles.insert(fi);
                     }
                   ix += 1;
diff --git a/SeismicMesh/generation/cpp/delaunay_class3.cpp b/SeismicMesh/generation/cpp/delaunay_class3.cpp
index ce8ab8a..eb12add 100644
--- a/SeismicMesh/generation/cpp/delaunay_class3.cpp
+++ b/SeismicMesh/generation/cpp/delaunay_class3.cpp
@@ -134,6 +134,8 @@ PYBIND11_MODULE(_delaunay_class3, m) {
              std::vector<Vertex_handle> handles;
              std::vector<Point> new_pos;
              int num_to_move = to_move.size();
+             if (new_positions.size() != 3 * to_move.size())
+               throw std::runtime_error("Each moved vertex needs a position");
              // store all vertex handles
              // Should this be finite_vertices_begin and finite_vertices_end?
              for (Vi vi = dt.finite_vertices_begin();
@@ -148,7 +150,7 @@ PYBIND11_MODULE(_delaunay_class3, m) {
              }
              //
              for (std::size_t i = 0; i < num_to_move; ++i) {
-               dt.move(handles[to_move[i]], new_pos[i]);
+               dt.move(handles.at(to_move[i]), new_pos[i]);
              }
              return dt;
            })
@@ -162,7 +164,7 @@ PYBIND11_MODULE(_delaunay_class3, m) {
                handles.push_back(vi);
              }
              for (std::size_t i = 0; i < num_to_remove; ++i) {
-               dt.remove(handles[to_remove[i]]);
+               dt.remove(handles.at(to_remove[i]));
              }
              return dt;
            })
@@ -176,7 +178,7 @@ PYBIND11_MODULE(_delaunay_class3, m) {
               cell_handles.reserve(cells_to_get.size());
               int ix = 0;
               for (Ci ci = dt.finite_cells_begin(); ci != dt.finite_cells_end(); ci++) {
-                  if(cells_to_get[ix] == 1){
+                  if(cells_to_get.at(ix) == 1){
                       cell_handles.insert(ci);
                     }
                   ix += 1;
-- 
2.43.0

