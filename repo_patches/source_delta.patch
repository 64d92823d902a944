From b94e70857c74488ea07ba7a1d6a55aa8502f825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 01/20] fix: do not normalise the caller's stretch vector in
 place

---
 SeismicMesh/geometry/signed_distance_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index 438dc39..ce17f62 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -135,7 +135,7 @@ def _build_stretch(object):
         ), "Length of stretch vector does not equal dimension"
     if object.v is not None:
         object.alpha = np.sqrt(np.dot(object.v, object.v))
-        object.v /= object.alpha
+        object.v = object.v / object.alpha
         _corners = corners(object.bbox)
         vx = np.multiply.outer(np.dot(object.v, _corners.T), object.v)
         tmp = (vx * object.alpha + (_corners - vx)).T
-- 
2.43.0


From 8e28b164b5c50dc420b121fa2789c01238ba9750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 02/20] fix: bounding box of shapes rotated about several axes

---
 .../geometry/signed_distance_functions.py     | 54 ++++---------------
 1 file changed, 11 insertions(+), 43 deletions(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index ce17f62..bb56ce7 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -162,7 +162,6 @@ def _build_stretch(object):
 def _build_rotation(object):
     # object.rotation = [a,b,c] that means rotate by a on x axis, by b on y
     # axis and by c on z axis
-    bbox_x = bbox_y = bbox_z = object.bbox
     if object.dim == 2:
         object.R = np.array(
             [
@@ -208,48 +207,17 @@ def _build_rotation(object):
         object.Rz_inv = object.Rz.T
         if  reduce((lambda x, y: x or y), object.rotation):
             object.corners = corners(object.bbox)
-            tmp_x = tmp_y = tmp_z = 0.0
-            if object.rotation[0] != 0.0:
-                tmp_x = np.dot(object.Rx, object.corners.T).T
-                bbox_x = (
-                    np.min(tmp_x[:, 0]),
-                    np.max(tmp_x[:, 0]),
-                    np.min(tmp_x[:, 1]),
-                    np.max(tmp_x[:, 1]),
-                    np.min(tmp_x[:, 2]),
-                    np.max(tmp_x[:, 2]),
-                )
-            if object.rotation[1] != 0.0:
-                object.corners = corners(object.bbox)
-                tmp_y = np.dot(object.Ry, object.corners.T).T
-                bbox_y = (
-                    np.min(tmp_y[:, 0]),
-                    np.max(tmp_y[:, 0]),
-                    np.min(tmp_y[:, 1]),
-                    np.max(tmp_y[:, 1]),
-                    np.min(tmp_y[:, 2]),
-                    np.max(tmp_y[:, 2]),
-                )
-            if object.rotation[2] != 0.0:
-                object.corners = corners(object.bbox)
-                tmp_z = np.dot(object.Rz, object.corners.T).T
-                bbox_z = (
-                    np.min(tmp_z[:, 0]),
-                    np.max(tmp_z[:, 0]),
-                    np.min(tmp_z[:, 1]),
-                    np.max(tmp_z[:, 1]),
-                    np.min(tmp_z[:, 2]),
-                    np.max(tmp_z[:, 2]),
-                )
-            c = 0
-            object.bbox = []
-            for i,j,k in zip(bbox_x, bbox_y, bbox_z):
-                if c%2 == 0:
-                    object.bbox.append(min(i,j,k))
-                else:
-                    object.bbox.append(max(i,j,k))
-                c+=1
-            object.bbox = tuple(object.bbox)
+            # the rotations act one after the other (see _manipulate)
+            R = np.dot(object.Rx, np.dot(object.Ry, object.Rz))
+            tmp = np.dot(R, object.corners.T).T
+            object.bbox = (
+                np.min(tmp[:, 0]),
+                np.max(tmp[:, 0]),
+                np.min(tmp[:, 1]),
+                np.max(tmp[:, 1]),
+                np.min(tmp[:, 2]),
+                np.max(tmp[:, 2]),
+            )
             object.corners = corners(object.bbox)
     return object
 
-- 
2.43.0


From 779d7fd5a97166d9eba4feab80c9c5941f747dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 03/20] fix: corners of translated shapes follow the
 translation

---
 SeismicMesh/geometry/signed_distance_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index bb56ce7..d1ba206 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -245,6 +245,7 @@ def _build_translation(object):
                 object.bbox[4] + v[2],
                 object.bbox[5] + v[2],
             )
+        object.corners = corners(object.bbox)
     return object
 
 
-- 
2.43.0


From 4434301d6216bda68b4b0c9681aebb6d14ce5e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 04/20] fix: smooth difference of more than two shapes
 subtracts every one from the first

---
 SeismicMesh/geometry/signed_distance_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/signed_distance_functions.py b/SeismicMesh/geometry/signed_distance_functions.py
index d1ba206..75cae24 100644
--- a/SeismicMesh/geometry/signed_distance_functions.py
+++ b/SeismicMesh/geometry/signed_distance_functions.py
@@ -389,7 +389,7 @@ class Difference:
             )
         else:
             d = [d.eval(x) for d in self.domains]
-            return _loop_call(self._smooth_difference, d[::-1])
+            return _loop_call(lambda a, b: self._smooth_difference(b, a), d)
 
     def show(self, filename=None, samples=10000):
         _show(self, filename=None, samples=samples)
-- 
2.43.0


From 77dd13607700f684e3b7aeae339f07561ef3c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 05/20] fix: vertex-to-entity pointers of meshes with unused
 vertices

---
 SeismicMesh/geometry/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 600481b..02aaf69 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -120,10 +120,8 @@ def vertex_to_entities(vertices, entities, dim=2):
     ve = np.hstack((ve, ext))
     ve = ve[ve[:, 0].argsort(), :]
 
-    idx = np.insert(np.diff(ve[:, 0]), 0, 0)
-    vtoe_pointer = np.argwhere(idx)
-    vtoe_pointer = np.insert(vtoe_pointer, 0, 0)
-    vtoe_pointer = np.append(vtoe_pointer, num_entities * (dim + 1))
+    # vertices that belong to no entity get an empty range
+    vtoe_pointer = np.searchsorted(ve[:, 0], np.arange(len(vertices) + 1))
 
     vtoe = ve[:, 1]
 
-- 
2.43.0


From 04c374469f775b54064762aa965f372a93eb08bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 06/20] fix: fix_mesh merges vertices that differ by the sign
 of a zero coordinate

---
 SeismicMesh/geometry/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 02aaf69..67ff47e 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -224,7 +224,7 @@ def fix_mesh(p, t, ptol=2e-13, dim=2, delete_unused=False, fix_orientation=True)
 
     # duplicate vertices
     snap = (p.max(0) - p.min(0)).max() * ptol
-    _, ix, jx = unique_rows(np.round(p / snap) * snap, True, True)
+    _, ix, jx = unique_rows(np.round(p / snap) * snap + 0.0, True, True)
 
     p = p[ix]
     t = jx[t]
-- 
2.43.0


From ac57a6e63e86e2b3566958b88166c44240650348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 07/20] fix: dihedral angles of flat tetrahedra are not NaN

---
 SeismicMesh/geometry/cpp/fast_geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/geometry/cpp/fast_geometry.cpp b/SeismicMesh/geometry/cpp/fast_geometry.cpp
index cd46759..18e7e18 100644
--- a/SeismicMesh/geometry/cpp/fast_geometry.cpp
+++ b/SeismicMesh/geometry/cpp/fast_geometry.cpp
@@ -411,7 +411,7 @@ std::vector<double> c_calc_dihedral_angles(std::vector<double> &points,
 
       double cphi =
           (v2Dotv3 - v1Dotv2 * v1Dotv3) / ((norm_v1Crossv2 * norm_v1Crossv3));
-      dh_angles[c * 6 + i] = std::acos(cphi); // in radians
+      dh_angles[c * 6 + i] = std::acos(std::max(-1.0, std::min(1.0, cphi))); // in radians
     }
   }
   return dh_angles;
-- 
2.43.0


From 0a654f6cae151130a94ef546afe8521fb6c49795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 08/20] fix: circumballs of all triangles, not of the first
 sixth

---
 SeismicMesh/generation/cpp/delaunay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/generation/cpp/delaunay.cpp b/SeismicMesh/generation/cpp/delaunay.cpp
index 44be70f..7435745 100644
--- a/SeismicMesh/generation/cpp/delaunay.cpp
+++ b/SeismicMesh/generation/cpp/delaunay.cpp
@@ -143,7 +143,7 @@ namespace py = pybind11;
 py::array circumballs2(
     py::array_t<double, py::array::c_style | py::array::forcecast> vertices) {
   // each triangle has 3 vertices with 2 coordinates each
-  int sz = vertices.shape()[0];
+  int sz = vertices.size();
   std::vector<double> cppvertices(sz);
   std::memcpy(cppvertices.data(), vertices.data(), sz * sizeof(double));
   std::vector<double> circumcenters = c_circumballs2(cppvertices);
-- 
2.43.0


From 9e2506e8ccb958c6666bb6f0beb92b26405ea35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 09/20] fix: reject max_iter == 0 and h0 == 0 as the error
 messages promise

---
 SeismicMesh/generation/mesh_generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 7b73b33..318691a 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -161,10 +161,10 @@ def sliver_removal(points, domain, edge_length, comm=None, **kwargs):  # noqa: C
         h0 = sliver_opts["h0"]
 
     # check h0
-    if h0 < 0:
+    if h0 <= 0:
         raise ValueError("`h0` must be > 0")
 
-    if sliver_opts["max_iter"] < 0:
+    if sliver_opts["max_iter"] <= 0:
         raise ValueError("`max_iter` must be > 0")
     max_iter = sliver_opts["max_iter"]
 
@@ -411,7 +411,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         h0 = gen_opts["h0"]
 
     # check h0
-    if h0 < 0:
+    if h0 <= 0:
         raise ValueError("`h0` must be > 0")
 
     # these parameters originate from the original DistMesh
@@ -436,7 +436,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
         dim, geps, bbox, fh, fd, h0, gen_opts, pfix, comm, lsf
     )
 
-    if gen_opts["max_iter"] < 0:
+    if gen_opts["max_iter"] <= 0:
         raise ValueError("`max_iter` must be > 0")
 
     max_iter = gen_opts["max_iter"]
-- 
2.43.0


From 173effb04a538b4f919c23c9b6e775a275e6aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 10/20] fix: halo exchange always sends the message its
 neighbor waits for

---
 SeismicMesh/migration/migration.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/SeismicMesh/migration/migration.py b/SeismicMesh/migration/migration.py
index 8987a72..3c7d452 100644
--- a/SeismicMesh/migration/migration.py
+++ b/SeismicMesh/migration/migration.py
@@ -152,12 +152,10 @@ def exchange(comm, rank, size, exports, dim=2):
     NSB = int(exports[0, 0])
     NSA = int(exports[0, 1])
 
-    if NSB == 0 and NSA == 0:
-        return np.array([[]])
-
     tmp = []
+    # every neighbor expects exactly one (possibly empty) message
     # send points below
-    if NSB != 0 and (rank != 0):  # rank 0 can't send below
+    if rank != 0:  # rank 0 can't send below
         comm.send(exports[1 : NSB + 1, 0:dim], dest=rank - 1, tag=11)
 
     # receive points from above
@@ -167,7 +165,7 @@ def exchange(comm, rank, size, exports, dim=2):
             tmp.append(p)
 
     # send points above
-    if NSA != 0 and rank != (size - 1):  # topmost rank can't send to above
+    if rank != (size - 1):  # topmost rank can't send to above
         # all put the topmost rank receive from above
         comm.send(exports[NSB + 1 : NSB + 1 + NSA, 0:dim], dest=rank + 1, tag=11)
 
@@ -178,6 +176,6 @@ def exchange(comm, rank, size, exports, dim=2):
         for p in dat_recv:
             tmp.append(p)
 
-    new_points = np.array(tmp)
+    new_points = np.array(tmp).reshape(-1, dim)
 
     return new_points
-- 
2.43.0


From c309a49a24eb03a428427bf8a7873b6c6bc75e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 11/20] fix: delete exactly the ghost vertices, also when there
 are none

---
 SeismicMesh/generation/mesh_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/generation/mesh_generator.py b/SeismicMesh/generation/mesh_generator.py
index 318691a..9215e46 100644
--- a/SeismicMesh/generation/mesh_generator.py
+++ b/SeismicMesh/generation/mesh_generator.py
@@ -507,7 +507,7 @@ def generate_mesh(domain, edge_length, comm=None, **kwargs):  # noqa: C901
 
         if comm.size > 1:
             # If continuing on, delete ghost points
-            p = np.delete(p, inv[-recv_ix::], axis=0)
+            p = np.delete(p, inv[len(inv) - recv_ix :], axis=0)
 
         # Show the user some progress so they know something is happening
         if comm.rank == 0:
@@ -719,9 +719,11 @@ def _add_ghost_vertices(p, t, dt, extents, comm):
     dim = p.shape[1]
     exports = migration.enqueue(extents, p, t, comm.rank, comm.size, dim=dim)
     recv = migration.exchange(comm, comm.rank, comm.size, exports, dim=dim)
-    recv_ix = len(recv)
+    num_local = len(p)
     dt.insert(recv.ravel().tolist())
     p, t = _get_topology(dt)
+    # received points that coincide with existing ones do not add vertices
+    recv_ix = len(p) - num_local
     p, t, inv = geometry.remove_external_entities(
         p,
         t,
-- 
2.43.0


From 9c4077718bb64355f1d49a85fd47acbf515f3525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 12/20] fix: fill water positions that only occur in the first
 row

---
 SeismicMesh/sizing/mesh_size_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 40de5de..12a51c2 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -152,7 +152,7 @@ def get_sizing_function_from_segy(
 
         # vp must be in m/s here
         pos = np.where(vp < 1e-3)  # for Vs (water positions in shear velocity data)
-        if len(pos) > 0 and any(pos[0]):
+        if len(pos[0]) > 0:
             if (
                 sz_opts["vp_water"] is None
                 or sz_opts["vp_water"] < 1300
-- 
2.43.0


From 68261d88109b175daae308326aee8705c97ba2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 13/20] fix: do not modify the velocity array passed by the
 caller

---
 SeismicMesh/sizing/mesh_size_function.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 12a51c2..e51ba01 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -145,10 +145,10 @@ def get_sizing_function_from_segy(
 
         if sz_opts["units"] == "km-s":
             print("Converting from km-s to m-s...", flush=True)
-            vp *= 1000.0
+            vp = vp * 1000.0
         elif sz_opts["units"] == "ft-s":
             print("Converting from ft-s to m-s...", flush=True)
-            vp *= 0.30
+            vp = vp * 0.30
 
         # vp must be in m/s here
         pos = np.where(vp < 1e-3)  # for Vs (water positions in shear velocity data)
@@ -162,6 +162,7 @@ def get_sizing_function_from_segy(
                     "vp_water is None or out of bounds. It should be >1300 and <1800 m/s"
                 )
             else:
+                vp = vp.copy()
                 vp[pos] = sz_opts["vp_water"]  # vp_water in m/s
 
         # check the bbox
-- 
2.43.0


From 628ad26d86b7a25382aa6b947d035d895ad57d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 14/20] fix: blocker splits along the third axis into
 num_blocks slabs

---
 SeismicMesh/decomp/blocker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/decomp/blocker.py b/SeismicMesh/decomp/blocker.py
index 979d74c..3be8697 100644
--- a/SeismicMesh/decomp/blocker.py
+++ b/SeismicMesh/decomp/blocker.py
@@ -60,7 +60,7 @@ def blocker(points, rank, num_blocks, axis=0):
     elif axis == 2:
         xx, yy, zz = np.meshgrid(
             np.linspace(*x_lims, 1, endpoint=False),
-            np.linspace(*y_lims, num_blocks, endpoint=False),
+            np.linspace(*y_lims, 1, endpoint=False),
             np.linspace(*z_lims, num_blocks, endpoint=False),
         )
 
-- 
2.43.0


From 82d5aced2ca90204d55db15755aa3d5fff083884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 15/20] fix: blocker does not lose points to rounding

---
 SeismicMesh/decomp/blocker.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/decomp/blocker.py b/SeismicMesh/decomp/blocker.py
index 3be8697..69ae193 100644
--- a/SeismicMesh/decomp/blocker.py
+++ b/SeismicMesh/decomp/blocker.py
@@ -7,7 +7,8 @@ def blocker(points, rank, num_blocks, axis=0):
     above and below/left and right to the block depending on axis.
     """
     num_points, dim = points.shape
-    EPS = np.finfo(float).eps
+    # rounding errors must not leave points between the blocks
+    EPS = 8 * np.finfo(float).eps * max(1.0, np.abs(points).max())
 
     if dim < 2 or dim > 3:
         raise ValueError("Dimensions of points are not supported")
@@ -68,6 +69,10 @@ def blocker(points, rank, num_blocks, axis=0):
         dy = (y_lims[1] - y_lims[0]) / 1
         dz = (z_lims[1] - z_lims[0]) / num_blocks
 
+    dx, dy = dx + EPS, dy + EPS
+    if dim > 2:
+        dz = dz + EPS
+
     blocks = []
     block_extents = []
 
-- 
2.43.0


From ed6a6941f3bd4aa5c0943f7348518516c1468aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 16/20] fix: gradient sizing of a homogeneous velocity is not
 NaN

---
 SeismicMesh/sizing/mesh_size_function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index e51ba01..4cb7285 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -443,7 +443,9 @@ def _gradient_sizing(vp, grad, stencil_size):
     win_var = win_sqr_mean - win_mean**2
 
     # normalize variance to [0,1]
-    win_var = np.divide(win_var, np.amax(win_var))
+    max_var = np.amax(win_var)
+    if max_var > 0.0:
+        win_var = np.divide(win_var, max_var)
     # win_var /= np.amax(win_var)
     win_var -= np.amin(win_var)
     return grad / (win_var + 0.10)
-- 
2.43.0


From 612fd0b122eab05e935954276332d79f8511e002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 17/20] fix: fixed-point smoothing does not return a diverged
 multigrid solution

---
 SeismicMesh/geometry/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/SeismicMesh/geometry/utils.py b/SeismicMesh/geometry/utils.py
index 67ff47e..72b9edd 100644
--- a/SeismicMesh/geometry/utils.py
+++ b/SeismicMesh/geometry/utils.py
@@ -1,7 +1,7 @@
 import numpy as np
 import scipy.sparse as spsparse
 
-# from scipy.sparse.linalg import spsolve
+from scipy.sparse.linalg import spsolve
 import pyamg
 
 import _delaunay as c_cgal
@@ -536,11 +536,15 @@ def laplacian2_fixed_point(vertices, entities):
     rhs = np.zeros((n, 2))
     rhs[bnd] = vertices[bnd]
 
-    # vertices_new = spsolve(matrix, rhs)
-
     # use AMG
     ml = pyamg.ruge_stuben_solver(matrix)
-    vertices_new = np.column_stack([ml.solve(rhs[:, 0]), ml.solve(rhs[:, 1])])
+
+    def solve(b):
+        x, info = ml.solve(b, return_info=True)
+        # AMG does not converge for every mesh
+        return x if info == 0 else spsolve(matrix.tocsc(), b)
+
+    vertices_new = np.column_stack([solve(rhs[:, 0]), solve(rhs[:, 1])])
 
     return vertices_new, entities
 
-- 
2.43.0


From 88518f1bafaa4eccb6a490e8a2e23be9bb0eb643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 18/20] fix: a disabled sizing criterion does not cap the mesh
 size at 99999

---
 SeismicMesh/sizing/mesh_size_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 4cb7285..0a31a92 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -414,7 +414,7 @@ def _wavelength_sizing(vp, wl=5, freq=2.0):
     of an acoustic/elastic wave.
     """
     if wl == 0.0:
-        return 99999
+        return np.inf
     if wl < 0:
         raise ValueError("Parameter `wl` must be set > 0")
     if freq < 0.0:
@@ -429,7 +429,7 @@ def _wavelength_sizing(vp, wl=5, freq=2.0):
 def _gradient_sizing(vp, grad, stencil_size):
     """Refine the mesh near sharp gradients in seismic velocity."""
     if grad == 0.0:
-        return 99999
+        return np.inf
     print("Refining mesh sizes near sharp velocity gradients...")
     if grad < 0:
         raise ValueError("Parameter grad must be > 0")
-- 
2.43.0


From ec8a187d4015b2aeda42a7e13b30dcd658eb21e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 19/20] fix: reject negative wl and grad also when the other
 criterion is off

---
 SeismicMesh/sizing/mesh_size_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeismicMesh/sizing/mesh_size_function.py b/SeismicMesh/sizing/mesh_size_function.py
index 0a31a92..fea49f6 100644
--- a/SeismicMesh/sizing/mesh_size_function.py
+++ b/SeismicMesh/sizing/mesh_size_function.py
@@ -205,7 +205,7 @@ def get_sizing_function_from_segy(
                 raise ValueError(
                     "Option %s with parameter %s not recognized " % (key, kwargs[key])
                 )
-        if np.any([sz_opts["wl"] > 0, sz_opts["grad"] > 0]):
+        if np.any([sz_opts["wl"] != 0, sz_opts["grad"] != 0]):
             cell_size = np.minimum(
                 _wavelength_sizing(vp, sz_opts["wl"], sz_opts["freq"]),
                 _gradient_sizing(vp, sz_opts["grad"], sz_opts["stencil_size"]),
-- 
2.43.0


From 5220c6fe74d358b4985c0c30dcf68820d7237177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 20/20] fix: allocate the whole export table in where_to

---
 SeismicMesh/migration/cpp/cpputils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeismicMesh/migration/cpp/cpputils.cpp b/SeismicMesh/migration/cpp/cpputils.cpp
index f31bd6d..0b07600 100644
--- a/SeismicMesh/migration/cpp/cpputils.cpp
+++ b/SeismicMesh/migration/cpp/cpputils.cpp
@@ -167,7 +167,7 @@ std::vector<double> c_where_to2(std::vector<double> &points,
   }
 
   std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize(1 + num_points * 3, -1);
+  pointsToMigrate.resize((1 + num_points) * 3, -1);
 
   double below_count = 0.0;
   double above_count = 0.0;
@@ -346,7 +346,7 @@ std::vector<double> c_where_to3(std::vector<double> &points,
   }
 
   std::vector<double> pointsToMigrate;
-  pointsToMigrate.resize(1 + num_points * 4, -1);
+  pointsToMigrate.resize((1 + num_points) * 4, -1);
 
   double below_count = 0.0;
   double above_count = 0.0;
-- 
2.43.0

