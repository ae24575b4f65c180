From 6488c8b3bfe10cdcbdea1b4ba53b9a9db85b24dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 01/59] fix: gradient and Hessian of the annulus level set

---
 cpp/qugar/primitive_funcs_lib.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/primitive_funcs_lib.cpp b/cpp/qugar/primitive_funcs_lib.cpp
index 8a36c3a..71af286 100644
--- a/cpp/qugar/primitive_funcs_lib.cpp
+++ b/cpp/qugar/primitive_funcs_lib.cpp
@@ -494,13 +494,15 @@ template<typename T> Vector<T, 2> Annulus::grad_(const Point<2, T> &point) const
   const Point<2, T> diff = point - this->center_;
   const auto Ri2 = this->inner_radius_ * this->inner_radius_;
   const auto Ro2 = this->outer_radius_ * this->outer_radius_;
-  return (numbers::four * sqrnorm(diff) - Ri2 - Ro2) * diff;
+  return (numbers::four * sqrnorm(diff) - numbers::two * (Ri2 + Ro2)) * diff;
 }
 
 template<typename T> auto Annulus::hessian_(const Point<2, T> &point) const -> Hessian<T>
 {
   const Point<2, T> diff = point - this->center_;
-  const auto aux = numbers::four * sqrnorm(diff);
+  const auto Ri2 = this->inner_radius_ * this->inner_radius_;
+  const auto Ro2 = this->outer_radius_ * this->outer_radius_;
+  const T aux = numbers::four * sqrnorm(diff) - numbers::two * (Ri2 + Ro2);
   return Hessian<T>{ aux + (numbers::eight * diff(0) * diff(0)),
     numbers::eight * diff(0) * diff(1),
     aux + (numbers::eight * diff(1) * diff(1)) };
-- 
2.43.0


From b6c1545d53eadcf6c4a5cd4fa7ae98debf9e42b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 02/59] fix: Hessian of the cylinder ignored its axis

---
 cpp/qugar/primitive_funcs_lib.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cpp/qugar/primitive_funcs_lib.cpp b/cpp/qugar/primitive_funcs_lib.cpp
index 71af286..9b51f48 100644
--- a/cpp/qugar/primitive_funcs_lib.cpp
+++ b/cpp/qugar/primitive_funcs_lib.cpp
@@ -226,7 +226,6 @@ template<typename T> Vector<T, 3> Cylinder::grad_(const Point<3, T> &point) cons
 
 template<typename T> auto Cylinder::hessian_(const Point<3, T> & /*point*/) const -> Hessian<T>
 {
-  return Hessian<T>{ numbers::two, numbers::zero, numbers::zero, numbers::two, numbers::zero, numbers::two };
   Hessian<T> hess;
   for (int i = 0, ij = 0; i < 3; ++i) {
     for (int j = i; j < 3; ++j, ++ij) {
-- 
2.43.0


From a3f60ba2832b9bb2236f3ddbab99dc1e5a959c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 03/59] fix: y-derivative of the Schoen IWP level set

---
 cpp/qugar/tpms_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/tpms_lib.cpp b/cpp/qugar/tpms_lib.cpp
index b96d270..049154c 100644
--- a/cpp/qugar/tpms_lib.cpp
+++ b/cpp/qugar/tpms_lib.cpp
@@ -159,7 +159,7 @@ template<int dim> template<typename T> auto SchoenIWP<dim>::grad_(const Point<3,
   grad_val(0) =
     (sin(pi_4_m_point(0)) - sin(pi_2_m_point(0)) * (cos(pi_2_m_point(1)) + cos(pi_2_m_point(2)))) * pi_4_m(0);
   grad_val(1) =
-    (sin(pi_4_m_point(1)) - sin(pi_2_m_point(1)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(2)))) * pi_4_m(0);
+    (sin(pi_4_m_point(1)) - sin(pi_2_m_point(1)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(2)))) * pi_4_m(1);
   if constexpr (dim == 3) {
     grad_val(2) =
       (sin(pi_4_m_point(2)) - sin(pi_2_m_point(2)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(1)))) * pi_4_m(2);
-- 
2.43.0


From 0906f9134a4cc1c59cd9685441e6af2b39540a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 04/59] fix: xz component of the Hessian of the Schoen gyroid

---
 cpp/qugar/tpms_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/tpms_lib.cpp b/cpp/qugar/tpms_lib.cpp
index 049154c..a2344a6 100644
--- a/cpp/qugar/tpms_lib.cpp
+++ b/cpp/qugar/tpms_lib.cpp
@@ -123,7 +123,7 @@ template<int dim> template<typename T> auto Schoen<dim>::hessian_(const Point<3,
              * (-sin(pi_2mnq_point(1)) * cos(pi_2mnq_point(2)) - sin(pi_2mnq_point(0)) * cos(pi_2mnq_point(1)));
 
   if constexpr (dim == 3) {
-    hess(2) = pi_2mnq(0) * pi_2mnq(2) * (-cos(pi_2mnq_point(2)) * sin(pi_2mnq_point(2)));
+    hess(2) = pi_2mnq(0) * pi_2mnq(2) * (-cos(pi_2mnq_point(2)) * sin(pi_2mnq_point(0)));
     hess(4) = pi_2mnq(1) * pi_2mnq(2) * (-cos(pi_2mnq_point(1)) * sin(pi_2mnq_point(2)));
     // NOLINTNEXTLINE (cppcoreguidelines-avoid-magic-numbers)
     hess(5) = pi_2mnq(2) * pi_2mnq(2)
-- 
2.43.0


From dc12fe3796ce21008aa636bfac87cf660721c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 05/59] fix: yz component of the Hessian of the trilinear
 function

---
 cpp/qugar/impl_funcs_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_funcs_lib.cpp b/cpp/qugar/impl_funcs_lib.cpp
index 75162c4..56d0f75 100644
--- a/cpp/qugar/impl_funcs_lib.cpp
+++ b/cpp/qugar/impl_funcs_lib.cpp
@@ -170,7 +170,7 @@ template<int dim> template<typename T> auto DimLinear<dim>::hessian_(const Point
       (cfs[0] + cfs[3] - cfs[1] - cfs[2]) * (one - point(2)) + (cfs[4] + cfs[7] - cfs[5] - cfs[6]) * point(2),
       (cfs[0] + cfs[5] - cfs[1] - cfs[4]) * (one - point(1)) + (cfs[2] + cfs[7] - cfs[3] - cfs[6]) * point(1),
       zero,
-      ((cfs[0] + cfs[7] - cfs[2] - cfs[5]) * (one - point(0)) + (cfs[1] + cfs[6] - cfs[3] - cfs[4]) * point(0)),
+      ((cfs[0] + cfs[6] - cfs[2] - cfs[4]) * (one - point(0)) + (cfs[1] + cfs[7] - cfs[3] - cfs[5]) * point(0)),
       zero };
   }
   // NOLINTEND (cppcoreguidelines-avoid-magic-numbers)
-- 
2.43.0


From 64ba0af825e5d9524bfa22d0a36ae8ee602c4795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 06/59] fix: reference system around an axis (almost) parallel
 to x

---
 cpp/qugar/affine_transf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/affine_transf.cpp b/cpp/qugar/affine_transf.cpp
index 727d533..d3feb33 100644
--- a/cpp/qugar/affine_transf.cpp
+++ b/cpp/qugar/affine_transf.cpp
@@ -143,7 +143,7 @@ std::pair<Vector<real, 3>, Vector<real, 3>> create_reference_system_around_axis(
 
     axis_x = cross_product(guess_axis_y, axis_z);
     axis_x /= norm(axis_x);
-    axis_y = cross_product(axis_z, axis_y);
+    axis_y = cross_product(axis_z, axis_x);
   }
 
   return std::make_pair(axis_x, axis_y);
-- 
2.43.0


From 06954f7268c170457df72bb6a7f063320aae8a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 07/59] fix: origin of the box in 3D tensor-product quadratures

---
 cpp/qugar/quadrature.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/qugar/quadrature.cpp b/cpp/qugar/quadrature.cpp
index cc06ecd..9b70727 100644
--- a/cpp/qugar/quadrature.cpp
+++ b/cpp/qugar/quadrature.cpp
@@ -258,14 +258,14 @@ std::shared_ptr<Quadrature<dim>> Quadrature<dim>::create_tp_quadrature(const std
     const real min_2 = domain.min(2);
 
     for (int k = 0; k < n_2; ++k) {
-      const auto p_k = QuadType::get_abscissa(n_2, k) * len_2;
-      const auto w_k = min_2 + (QuadType::get_weight(n_2, k) * len_2);
+      const auto p_k = min_2 + (QuadType::get_abscissa(n_2, k) * len_2);
+      const auto w_k = QuadType::get_weight(n_2, k) * len_2;
       for (int j = 0; j < n_1; ++j) {
-        const auto p_j = QuadType::get_abscissa(n_1, j) * len_1;
-        const auto w_j = min_1 + (QuadType::get_weight(n_1, j) * len_1);
+        const auto p_j = min_1 + (QuadType::get_abscissa(n_1, j) * len_1);
+        const auto w_j = QuadType::get_weight(n_1, j) * len_1;
         for (int i = 0; i < n_0; ++i) {
-          const auto p_i = QuadType::get_abscissa(n_0, i) * len_0;
-          const auto w_i = min_0 + (QuadType::get_weight(n_0, i) * len_0);
+          const auto p_i = min_0 + (QuadType::get_abscissa(n_0, i) * len_0);
+          const auto w_i = QuadType::get_weight(n_0, i) * len_0;
           *it_p++ = Point<3>(p_i, p_j, p_k);
           *it_w++ = w_i * w_j * w_k;
         }
-- 
2.43.0


From cc853b5363ba22e5ab6d73b004f8c95c93c7fbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 08/59] fix: ordering of tensor indices was not a strict
 ordering

---
 cpp/qugar/tensor_index_tp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/tensor_index_tp.cpp b/cpp/qugar/tensor_index_tp.cpp
index d2c7a22..a14a25c 100644
--- a/cpp/qugar/tensor_index_tp.cpp
+++ b/cpp/qugar/tensor_index_tp.cpp
@@ -119,8 +119,8 @@ template<int dim> bool TensorIndexTP<dim>::operator<(const TensorIndexTP<dim> &r
     return false;
   } else {
     for (int dir = dim - 1; dir > 0; --dir) {
-      if (rhs(dir) < this->operator()(dir)) {
-        return false;
+      if (this->operator()(dir) != rhs(dir)) {
+        return this->operator()(dir) < rhs(dir);
       }
     }
     return this->operator()(0) < rhs(0);
-- 
2.43.0


From b9d0d59359f5f9b5a21f0475cafddbdf418ca2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 09/59] fix: ids of boundary cells were truncated to 32 bits

---
 cpp/qugar/cart_grid_tp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/cart_grid_tp.cpp b/cpp/qugar/cart_grid_tp.cpp
index 1525a2b..fca4eba 100644
--- a/cpp/qugar/cart_grid_tp.cpp
+++ b/cpp/qugar/cart_grid_tp.cpp
@@ -218,7 +218,7 @@ template<int dim> std::vector<std::int64_t> CartGridTP<dim>::get_boundary_cells(
   cells.reserve(static_cast<std::size_t>(prod(n_cells_facet)));
 
   for (const auto cell_tid : TensorIndexRangeTP<dim>(tid_0, tid_1)) {
-    cells.push_back(static_cast<int>(cell_tid.flat(n_cells_dir)));
+    cells.push_back(cell_tid.flat(n_cells_dir));
   }
 
   return cells;
-- 
2.43.0


From 68af5d55001b3766ef49e5e74dea68f6b5a4ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 10/59] fix: lexicographical edge ids in the 3D edge ordering
 tables

Edges 1 and 2 (along z) were exchanged with respect to the edges returned
by TensorProdIndex.get_edge.
---
 python/qugar/mesh/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/utils.py b/python/qugar/mesh/utils.py
index 4a09515..2364ccf 100644
--- a/python/qugar/mesh/utils.py
+++ b/python/qugar/mesh/utils.py
@@ -645,7 +645,7 @@ def lexicg_to_DOLFINx_edges(dim: int) -> npt.NDArray[np.int32]:
     if dim < 3:
         return lexicg_to_DOLFINx_faces(dim)
     else:  # if dim == 3:
-        return np.array([8, 4, 0, 5, 2, 9, 1, 3, 10, 6, 7, 11], dtype=np.int32)
+        return np.array([8, 4, 0, 5, 1, 9, 2, 3, 10, 6, 7, 11], dtype=np.int32)
 
 
 @staticmethod
@@ -668,7 +668,7 @@ def DOLFINx_to_lexicg_edges(dim: int) -> npt.NDArray[np.int32]:
     if dim < 3:
         return DOLFINx_to_lexicg_faces(dim)
     else:  # if dim == 3:
-        return np.array([2, 6, 4, 7, 1, 3, 9, 10, 0, 5, 8, 11], dtype=np.int32)
+        return np.array([2, 4, 6, 7, 1, 3, 9, 10, 0, 5, 8, 11], dtype=np.int32)
 
 
 import qugar.utils
-- 
2.43.0


From fedc403fddf23108137fb628f2ea6c63ed1af489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 11/59] fix: internal tensor-product indices in 2D and 3D

They were returned as a 2D array, and in 3D the rows could not even be
broadcast against the offsets of the layers.
---
 python/qugar/mesh/tp_index.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/python/qugar/mesh/tp_index.py b/python/qugar/mesh/tp_index.py
index 4f11249..f0ec99e 100644
--- a/python/qugar/mesh/tp_index.py
+++ b/python/qugar/mesh/tp_index.py
@@ -95,17 +95,23 @@ class TensorProdIndex:
             return np.arange(1, n_inds[0] - 1, dtype=np.int64)
         elif dim == 2:
             internals_1D = TensorProdIndex.get_all_internal(n_inds[:-1])
-            return internals_1D + np.arange(
-                n_inds[0], n_inds[0] * (n_inds[1] - 1), n_inds[0], dtype=np.int64
-            ).reshape(n_inds[1] - 2, 1)
+            return (
+                internals_1D
+                + np.arange(
+                    n_inds[0], n_inds[0] * (n_inds[1] - 1), n_inds[0], dtype=np.int64
+                ).reshape(n_inds[1] - 2, 1)
+            ).ravel()
         else:  # if dim == 3:
             internals_2D = TensorProdIndex.get_all_internal(n_inds[:-1])
-            return internals_2D + np.arange(
-                n_inds[0] * n_inds[1],
-                n_inds[0] * n_inds[1] * (n_inds[2] - 1),
-                n_inds[0] * n_inds[1],
-                dtype=np.int64,
-            ).reshape(n_inds[2] - 2, 1)
+            return (
+                internals_2D
+                + np.arange(
+                    n_inds[0] * n_inds[1],
+                    n_inds[0] * n_inds[1] * (n_inds[2] - 1),
+                    n_inds[0] * n_inds[1],
+                    dtype=np.int64,
+                ).reshape(n_inds[2] - 2, 1)
+            ).ravel()
 
     @staticmethod
     def get_all_faces(n_inds: npt.NDArray[np.int32]) -> npt.NDArray[np.int64]:
-- 
2.43.0


From ad4dfc8216435e43ea9ce1cbb1c6efc5caa7a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 12/59] fix: nodes of 1D Cartesian meshes

Only the first node was created.
---
 python/qugar/mesh/tp_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index e44f7ff..1dc53e4 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -151,7 +151,7 @@ def _create_Cartesian_mesh_nodes_from_points(
     assert 1 <= dim <= 3, "Invalid dimension"
 
     if dim == 1:
-        x = pts_1D[0].copy()
+        x = [pts_1D[0]]
     elif dim == 2:
         x = np.meshgrid(pts_1D[0], pts_1D[1], indexing="xy")
     else:  # dim == 3
-- 
2.43.0


From fe953ed5cb87710bcf5aa14ed446ea7b5db0f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 13/59] fix: tensor index (and bounding box) of a cell

The id was queried with a 0-dimensional array, so the result was a scalar
that cannot be indexed.
---
 python/qugar/mesh/tp_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 1dc53e4..2a6258f 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -448,7 +448,7 @@ class TensorProductMesh(Mesh):
             npt.NDArray[np.int32]: Cell tensor index
         """
 
-        lex_cell_id = self.get_original_cell_ids(np.array(dlf_local_cell_id, dtype=np.int32))[0]
+        lex_cell_id = self.get_original_cell_ids(np.array([dlf_local_cell_id], dtype=np.int32))[0]
         return TensorProdIndex.get_tensor_index(self.num_cells_dir, lex_cell_id)
 
 
-- 
2.43.0


From 9f5cf3f1cec92f67ecb438ec1e983efec98c7d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 14/59] fix: facets of the faces of a tensor-product mesh

The lexicographical id of the face was used as DOLFINx local facet id.
---
 python/qugar/mesh/tp_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 2a6258f..6765c12 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -30,6 +30,7 @@ import qugar.cpp
 from qugar.mesh.mesh import Mesh
 from qugar.mesh.tp_index import TensorProdIndex
 from qugar.mesh.utils import (
+    DOLFINx_to_lexicg_faces,
     DOLFINx_to_lexicg_nodes,
 )
 
@@ -435,7 +436,8 @@ class TensorProductMesh(Mesh):
         cell_to_facets = cell_to_facets.array.reshape(cell_to_facets.num_nodes, -1)
 
         dlf_local_cells = self.get_face_DOLFINx_cells(face_id)
-        return np.sort(np.unique(cell_to_facets[dlf_local_cells, face_id]))
+        dlf_face_id = DOLFINx_to_lexicg_faces(tdim)[face_id]
+        return np.sort(np.unique(cell_to_facets[dlf_local_cells, dlf_face_id]))
 
     def get_cell_tensor_index(self, dlf_local_cell_id: np.int32) -> npt.NDArray[np.int32]:
         """Computes the tensor index referred to the tensor-product mesh
-- 
2.43.0


From 812fbc2bdc1a821fe5deae174c167bd968ee4c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 15/59] fix: create_Cartesian_mesh passed the ghost mode as
 active cells

---
 python/qugar/mesh/tp_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 6765c12..52e2484 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -608,4 +608,6 @@ def create_Cartesian_mesh(
 
     cpp_grid = qugar.cpp.create_cart_grid(cell_breaks)
 
-    return CartesianMesh(comm, cpp_grid, degree, ghost_mode, xmin_.dtype.type)
+    return CartesianMesh(
+        comm, cpp_grid, degree, ghost_mode=ghost_mode, dtype=xmin_.dtype.type
+    )
-- 
2.43.0


From cf1bdabaa412f581c81634e21231a9d092a82c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 16/59] fix: looking for cells or nodes in a process without
 any of them

---
 python/qugar/mesh/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index b3b43ac..43a7a78 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -124,6 +124,9 @@ def _find_in_array(values_to_search: npt.NDArray, all_values: npt.NDArray) -> np
         it returns -1.
     """
 
+    if all_values.size == 0:
+        return np.full(values_to_search.shape, -1, dtype=np.int64)
+
     index = np.argsort(all_values)
     sorted_all_values = all_values[index]
 
-- 
2.43.0


From fd620907d2b9229a5fc08a441837185b3ff9c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 17/59] fix: map of merged nodes was only known by the first
 process

---
 python/qugar/mesh/mesh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index 43a7a78..c9e8860 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -388,6 +388,11 @@ class Mesh(dolfinx.mesh.Mesh):
             n_nodes_per_cell = cmap.dim
             conn = np.empty((0, n_nodes_per_cell), dtype=np.int64, order="C")
 
+        if merge_nodes:
+            # The merging is performed in rank 0, but all the processes
+            # need the map.
+            self._merged_nodes_map = comm.bcast(self._merged_nodes_map, root=0)
+
         if comm.size > 1:
             partitioner = dlf_cpp.mesh.create_cell_partitioner(ghost_mode)
         else:
-- 
2.43.0


From b9b29f75351bb470d8033ff295101f27a7032579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:44 +0000
Subject: [PATCH 18/59] fix: default tolerance for merging nodes depended on
 the position of the mesh

---
 python/qugar/mesh/mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index c9e8860..5f466ce 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -77,7 +77,8 @@ def _merge_coincident_points_in_mesh(
     kdtree = sp.spatial.KDTree(nodes)
 
     if tolerance is None:
-        tolerance = cast(nodes.dtype.type, 1.0e-5 * (np.max(nodes) - np.min(nodes)))
+        lengths = np.max(nodes, axis=0) - np.min(nodes, axis=0)
+        tolerance = cast(nodes.dtype.type, 1.0e-5 * np.max(lengths))
     coincidences = kdtree.query_pairs(tolerance, output_type="ndarray")
 
     master = coincidences[:, 0]
-- 
2.43.0


From e702dc3b8c599c344f3f7b22855e21f2ef6fd8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:12 +0000
Subject: [PATCH 19/59] fix: facets of a process without any cell

---
 python/qugar/mesh/mesh_facets.py | 3 +++
 python/qugar/mesh/tp_mesh.py     | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/mesh_facets.py b/python/qugar/mesh/mesh_facets.py
index 44663a1..8eed637 100644
--- a/python/qugar/mesh/mesh_facets.py
+++ b/python/qugar/mesh/mesh_facets.py
@@ -375,6 +375,9 @@ if qugar.utils.has_FEniCSx:
         topology.create_connectivity(tdim, tdim - 1)
         conn = topology.connectivity(tdim, tdim - 1)
 
+        if conn.num_nodes == 0:
+            return np.empty((0, 0), dtype=np.int32)
+
         return conn.array.reshape(conn.num_nodes, -1)
 
     def create_facets_from_ids(
diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 52e2484..9933875 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -433,7 +433,7 @@ class TensorProductMesh(Mesh):
         tdim = self.tdim
         self.topology.create_connectivity(tdim, tdim - 1)
         cell_to_facets = self.topology.connectivity(tdim, tdim - 1)
-        cell_to_facets = cell_to_facets.array.reshape(cell_to_facets.num_nodes, -1)
+        cell_to_facets = cell_to_facets.array.reshape(cell_to_facets.num_nodes, 2 * tdim)
 
         dlf_local_cells = self.get_face_DOLFINx_cells(face_id)
         dlf_face_id = DOLFINx_to_lexicg_faces(tdim)[face_id]
-- 
2.43.0


From 84e16635fd734ab853b12b4abe1c91d971a3a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:12 +0000
Subject: [PATCH 20/59] fix: local ids of the facets in other processes than
 the first one

---
 python/qugar/mesh/mesh_facets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/mesh_facets.py b/python/qugar/mesh/mesh_facets.py
index 8eed637..14d2c6f 100644
--- a/python/qugar/mesh/mesh_facets.py
+++ b/python/qugar/mesh/mesh_facets.py
@@ -481,7 +481,7 @@ if qugar.utils.has_FEniCSx:
         ext_facets = dolfinx.mesh.exterior_facet_indices(topology)
 
         imap = topology.index_map(topology.dim - 1)
-        all_facets = np.arange(imap.local_range[0], imap.local_range[1], dtype=np.int32)
+        all_facets = np.arange(imap.size_local, dtype=np.int32)
 
         int_facets = np.setdiff1d(all_facets, ext_facets, assume_unique=True)
 
@@ -507,7 +507,8 @@ if qugar.utils.has_FEniCSx:
             MeshFacets: A MeshFacets instance with all facets.
         """
         topology = mesh.topology
+        topology.create_connectivity(topology.dim - 1, topology.dim)
         imap = topology.index_map(topology.dim - 1)
-        all_facets = np.arange(imap.local_range[0], imap.local_range[1], dtype=np.int32)
+        all_facets = np.arange(imap.size_local, dtype=np.int32)
 
         return create_facets_from_ids(mesh, all_facets, single_interior_facet)
-- 
2.43.0


From 1256e1582fb5cd1472687ce33eed62e11e496b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 21/59] fix: asking for the empty interior facets replaced the
 cut ones

---
 python/qugar/mesh/unfitted_domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/unfitted_domain.py b/python/qugar/mesh/unfitted_domain.py
index 1dba4a0..dc09b6e 100644
--- a/python/qugar/mesh/unfitted_domain.py
+++ b/python/qugar/mesh/unfitted_domain.py
@@ -456,10 +456,10 @@ class UnfittedDomain(UnfittedDomainABC):
                 )
 
                 if not unf_non_cut_facets.empty:
-                    self._interior_cut_facets = self._interior_empty_facets.concatenate(
+                    self._interior_empty_facets = self._interior_empty_facets.concatenate(
                         unf_non_cut_facets
                     )
-                    self._interior_cut_facets.unique()
+                    self._interior_empty_facets.unique()
 
         return self._interior_empty_facets
 
-- 
2.43.0


From 8aec04cf9c305b4e907fd95548dc973f893612ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 22/59] fix: empty facets were tagged as cut

---
 python/qugar/mesh/unfitted_domain_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/unfitted_domain_abc.py b/python/qugar/mesh/unfitted_domain_abc.py
index 2047342..bbe8b3e 100644
--- a/python/qugar/mesh/unfitted_domain_abc.py
+++ b/python/qugar/mesh/unfitted_domain_abc.py
@@ -495,6 +495,6 @@ class UnfittedDomainABC(ABC):
             add_facets(self.get_full_facets(ext_integral), full_tag)
 
         if empty_tag is not None:
-            add_facets(self.get_empty_facets(ext_integral), cut_tag)
+            add_facets(self.get_empty_facets(ext_integral), empty_tag)
 
         return list((tag, facets.as_array()) for tag, facets in facet_tags.items())
-- 
2.43.0


From d12224d00028c8e4da63fa92708337f7f02ba636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 23/59] fix: two of the permutations of quadrilateral facets
 were missing

---
 python/qugar/dolfinx/custom_quad_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/custom_quad_utils.py b/python/qugar/dolfinx/custom_quad_utils.py
index ead8b52..7fdf1a9 100644
--- a/python/qugar/dolfinx/custom_quad_utils.py
+++ b/python/qugar/dolfinx/custom_quad_utils.py
@@ -147,7 +147,7 @@ def _create_permutation_operators(
         RfRt2 = Rf @ Rt2
         perms = [np.eye(3), Rf, Rt, RfRt, Rt2, RfRt2]
 
-        if cell_type == "quadrilateral":
+        if cell_name == "quadrilateral":
             perms.extend([Rt2 @ Rt, RfRt2 @ Rt])
 
         return perms
-- 
2.43.0


From 351ac03b2e0a462e5dd61fcf46c3909f3376121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 24/59] fix: sum factorization was never considered for the
 quadrature rules

---
 python/qugar/dolfinx/quadrature_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/quadrature_data.py b/python/qugar/dolfinx/quadrature_data.py
index 7a8ef72..391751a 100644
--- a/python/qugar/dolfinx/quadrature_data.py
+++ b/python/qugar/dolfinx/quadrature_data.py
@@ -69,7 +69,7 @@ def _extract_single_quadrature_data(
     """
 
     use_sum_factorization = (
-        bool(ffcx_options["sum_factorization"]) and ufl_integrand.integral_type == "cell"
+        bool(ffcx_options["sum_factorization"]) and ufl_integrand.integral_type() == "cell"
     )
 
     metadata = ufl_integrand.metadata() or {}
-- 
2.43.0


From ffa5534734570452e98cd1ede001784fead9aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 25/59] fix: quadratures of an integral overwrote each other's
 tables

---
 python/qugar/dolfinx/codegeneration.py | 85 ++++++++++++++------------
 1 file changed, 46 insertions(+), 39 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index b2b9de2..fc1a0e7 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -429,6 +429,17 @@ class _IntegralModifier:
         is_interior_facet = self._data.integral_type == "interior_facet"
 
         call_code = ""
+        tab_code = ""
+
+        scratch_var = "scratch"
+        scratch_terms: list[str] = []
+
+        # Running offset (sum of size expressions already consumed).
+        offsets: list[str] = []
+
+        def _cur_offset() -> str:
+            return " + ".join(offsets) if offsets else "0"
+
         for quad_data, FE_tables in self._data.quad_data_FE_tables.items():
             quad_name = quad_data.name
 
@@ -480,7 +491,9 @@ class _IntegralModifier:
             #
             # All buffers (basix blocks + per-table repack buffers when
             # vs > 1) live in a SINGLE thread-local scratch obtained from
-            # the shim. Using the stack via VLAs overflows the thread's
+            # the shim, shared by all the quadratures of the integral (every
+            # request to the shim returns the same memory, that may be
+            # reallocated). Using the stack via VLAs overflows the thread's
             # stack for higher-degree 3D forms (e.g. P3 hex), so we offset
             # into the scratch instead.
             varying = [t for t in FE_tables if not t.is_constant_for_pts()]
@@ -490,10 +503,9 @@ class _IntegralModifier:
                 info = self._table_codegen_info(table)
                 groups.setdefault(info["params"], []).append((table, info))
 
-            # First pass: gather per-group metadata and the list of scratch
-            # size terms.
+            # First pass: gather per-group metadata and the scratch size
+            # terms.
             group_meta = []
-            scratch_terms: list[str] = []
             for gi, (params, items) in enumerate(groups.items()):
                 info0 = items[0][1]
                 gdim, ndofs, vs = info0["gdim"], info0["ndofs"], info0["vs"]
@@ -519,20 +531,6 @@ class _IntegralModifier:
                                 f"{n_pts_name} * {table.funcs}"
                             )
 
-            scratch_var = f"scratch_{quad_name}"
-            if scratch_terms:
-                total = " + ".join(scratch_terms)
-                call_code += (
-                    f"{dtype_str}* {scratch_var} = "
-                    f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
-                )
-
-            # Running offset (sum of size expressions already consumed).
-            offsets: list[str] = []
-
-            def _cur_offset() -> str:
-                return " + ".join(offsets) if offsets else "0"
-
             for gd in group_meta:
                 (gi, params, items, gdim, ndofs, vs, maxnd, nderiv,
                  any_perm, blk_size_expr) = gd
@@ -546,32 +544,32 @@ class _IntegralModifier:
                            if (mixed_dim and gdim != tdim)
                            else points_name)
 
-                call_code += (
+                tab_code += (
                     f"const int {handle} = qugar_register_element_{suffix}"
                     f"({fam}, {cell}, {deg}, {lv}, {dv}, {disc});\n"
                     f"if ({handle} < 0) return;\n"
                 )
-                call_code += (
+                tab_code += (
                     f"{dtype_str}* {blk0} = {scratch_var} + ({_cur_offset()});\n"
                 )
                 offsets.append(blk_size_expr)
-                call_code += (
+                tab_code += (
                     f"if (qugar_tabulate_{suffix}({handle}, {maxnd}, {pts_var}, "
                     f"{n_pts_name}, {gdim}, {blk0}, "
                     f"(long)({blk_size_expr})) != 0) return;\n"
                 )
                 if any_perm:
-                    call_code += (
+                    tab_code += (
                         f"{dtype_str}* {blk1} = {scratch_var} + "
                         f"({_cur_offset()});\n"
                     )
                     offsets.append(blk_size_expr)
-                    call_code += (
+                    tab_code += (
                         f"if (qugar_tabulate_{suffix}({handle}, {maxnd}, "
                         f"{points_side1_name}, {n_pts_name}, {gdim}, "
                         f"{blk1}, (long)({blk_size_expr})) != 0) return;\n"
                     )
-                call_code += "\n"
+                tab_code += "\n"
 
                 for table, info in items:
                     funcs = table.funcs
@@ -585,18 +583,18 @@ class _IntegralModifier:
                         # directly into the block -- no copy.
                         off_in_blk = f"{didx} * {n_pts_name} * {funcs}"
                         if two_sided:
-                            call_code += (
+                            tab_code += (
                                 f"const {dtype_str}* restrict "
                                 f"{table.name}[2];\n"
                             )
-                            call_code += (
+                            tab_code += (
                                 f"{table.name}[0] = {blk0} + {off_in_blk};\n"
                             )
-                            call_code += (
+                            tab_code += (
                                 f"{table.name}[1] = {blk1} + {off_in_blk};\n\n"
                             )
                         else:
-                            call_code += (
+                            tab_code += (
                                 f"const {dtype_str}* restrict {table.name} = "
                                 f"{blk0} + {off_in_blk};\n\n"
                             )
@@ -625,38 +623,47 @@ class _IntegralModifier:
                     if two_sided:
                         buf0 = f"{table.name}_buf_0"
                         buf1 = f"{table.name}_buf_1"
-                        call_code += (
+                        tab_code += (
                             f"{dtype_str}* {buf0} = {scratch_var} + "
                             f"({_cur_offset()});\n"
                         )
                         offsets.append(buf_size_expr)
-                        call_code += (
+                        tab_code += (
                             f"{dtype_str}* {buf1} = {scratch_var} + "
                             f"({_cur_offset()});\n"
                         )
                         offsets.append(buf_size_expr)
-                        call_code += _repack_into(buf0, blk0)
-                        call_code += _repack_into(buf1, blk1)
-                        call_code += (
+                        tab_code += _repack_into(buf0, blk0)
+                        tab_code += _repack_into(buf1, blk1)
+                        tab_code += (
                             f"const {dtype_str}* restrict "
                             f"{table.name}[2];\n"
                         )
-                        call_code += f"{table.name}[0] = {buf0};\n"
-                        call_code += f"{table.name}[1] = {buf1};\n\n"
+                        tab_code += f"{table.name}[0] = {buf0};\n"
+                        tab_code += f"{table.name}[1] = {buf1};\n\n"
                     else:
                         buf = f"{table.name}_buf"
-                        call_code += (
+                        tab_code += (
                             f"{dtype_str}* {buf} = {scratch_var} + "
                             f"({_cur_offset()});\n"
                         )
                         offsets.append(buf_size_expr)
-                        call_code += _repack_into(buf, blk0)
-                        call_code += (
+                        tab_code += _repack_into(buf, blk0)
+                        tab_code += (
                             f"const {dtype_str}* restrict {table.name} = "
                             f"{buf};\n\n"
                         )
 
-        return call_code
+        if scratch_terms:
+            total = " + ".join(scratch_terms)
+            call_code += (
+                f"const long scratch_size = (long)({total});\n"
+                f"{dtype_str}* {scratch_var} = "
+                f"qugar_get_scratch_{suffix}(scratch_size);\n"
+                f"if (!{scratch_var} && scratch_size > 0) return;\n\n"
+            )
+
+        return call_code + tab_code
 
     def _create_non_custom_quad_function(self) -> str:
         """Creates a copy of the original FFCx function (signature +
-- 
2.43.0


From d572aa694ddddbddf7682e50f23e2e8ca97451d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:02 +0000
Subject: [PATCH 26/59] fix: coefficients and offsets of the interior facets
 integrals

---
 python/qugar/dolfinx/codegeneration.py      |  4 +-
 python/qugar/dolfinx/custom_coefficients.py | 47 ++++++++++++++++-----
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index fc1a0e7..097d483 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -141,7 +141,9 @@ class _IntegralModifier:
         else:
             coeff = list(self._ir.expression.coefficient_offsets.keys())[-1]
             element = coeff.ufl_function_space().element  # type: ignore
-            return offsets[-1] + element.space_dimension
+            # For interior facets, there are coefficients for both sides.
+            n_sides = 2 if self._data.integral_type == "interior_facet" else 1
+            return offsets[-1] + n_sides * element.space_dimension
 
     def _check_FFCx_input(self) -> None:
         """Checks the validity of the integral to be modified.
diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index a88327d..81e4d83 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -62,6 +62,31 @@ def _find_common_rows(A: npt.NDArray[np.int32], B: npt.NDArray[np.int32]) -> npt
     return np.where(mask)[0]
 
 
+def _copy_DOLFINx_coeffs(
+    old_coeffs: FloatingArray, new_coeffs: FloatingArray, interior_facet: bool
+) -> None:
+    """Copies the coefficients packed by DOLFINx into the custom ones.
+
+    In the case of interior facets, two consecutive rows correspond to
+    the same facet, and the kernels expect the coefficients of both to
+    be contiguous.
+
+    Args:
+        old_coeffs (FloatingArray): Coefficients packed by DOLFINx.
+        new_coeffs (FloatingArray): Custom coefficients to be modified.
+        interior_facet (bool): Whether the coefficients correspond to
+            an interior facet integral.
+    """
+
+    if old_coeffs.size == 0:
+        return
+
+    n_rows, n_cols = old_coeffs.shape
+    n_sides = 2 if interior_facet else 1
+    entities_coeffs = new_coeffs[:n_rows].reshape(-1, n_sides * new_coeffs.shape[1])
+    entities_coeffs[:, : n_sides * n_cols] = old_coeffs.reshape(-1, n_sides * n_cols)
+
+
 class _CustomCoeffsPackerIntegral:
     """Class for computing coefficients for a single custom integral.
 
@@ -411,13 +436,9 @@ class _CustomCoeffsPackerIntegral:
         rel_offsets = self._offsets - first_col_pos[self._custom_entity_ids]
 
         # The offset for the full entities are set to -1.
-        all_rel_offsets = np.full(n_entities, -1, dtype=rel_offsets.dtype)
+        all_rel_offsets = np.full(n_tot_entities, -1, dtype=rel_offsets.dtype)
         # Then we set the offsets for the custom entities.
-        if interior_facet:
-            all_rel_offsets_ = all_rel_offsets.reshape(-1, 2)
-            all_rel_offsets_[self._custom_entity_ids, 0] = rel_offsets
-        else:
-            all_rel_offsets[self._custom_entity_ids] = rel_offsets
+        all_rel_offsets[self._custom_entity_ids] = rel_offsets
         # And finally for the empty entities we set the offset to 0.
         all_rel_offsets[self._get_empty_entities_ids()] = 0
 
@@ -446,7 +467,13 @@ class _CustomCoeffsPackerIntegral:
             all_rel_offsets_view = padded.view(self._coeffs_dtype).reshape(
                 [-1, n_extra_cols]
             )
-        self._new_coeffs[:n_entities, -n_extra_cols:] = all_rel_offsets_view
+
+        # The offset comes right after the coefficients of all the sides
+        # of the entity.
+        n_sides = 2 if interior_facet else 1
+        col = n_sides * (n_cols_complex - n_extra_cols)
+        entities_coeffs = self._new_coeffs[:n_entities].reshape(-1, n_sides * n_cols_complex)
+        entities_coeffs[:, col : col + n_extra_cols] = all_rel_offsets_view
 
     def _copy_vals(
         self,
@@ -798,8 +825,7 @@ class _CustomCoeffsPackerIntegral:
         self._allocate_new_coeffs()
 
         # Copying old coefficients to the new array.
-        old_shape = self._old_coeffs.shape
-        self._new_coeffs[: old_shape[0], : old_shape[1]] = self._old_coeffs
+        _copy_DOLFINx_coeffs(self._old_coeffs, self._new_coeffs, self._is_interior_facet())
 
         self._compute_offsets()
         self._copy_vals(self._compute_new_vals())
@@ -988,9 +1014,8 @@ class CustomCoeffsPacker:
 
         new_coeffs = {}
         for itg_info, _new_coeffs_dlf in new_coeffs_dlf.items():
-            shape = _new_coeffs_dlf.shape
             c = coeffs[itg_info]
-            c[: shape[0], : shape[1]] = _new_coeffs_dlf
+            _copy_DOLFINx_coeffs(_new_coeffs_dlf, c, itg_info[0] == IntegralType.interior_facet)
             new_coeffs[itg_info] = c
 
         return new_coeffs
-- 
2.43.0


From 03b7429865673d9643c10dad700a6cef2c970a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:05 +0000
Subject: [PATCH 27/59] fix: kernels of one-point quadratures read the first
 custom point only

---
 python/qugar/dolfinx/_kernel_body.py   | 17 +++++++++--------
 python/qugar/dolfinx/codegeneration.py |  7 ++++---
 python/qugar/dolfinx/fe_table.py       | 13 +++++++++++--
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/python/qugar/dolfinx/_kernel_body.py b/python/qugar/dolfinx/_kernel_body.py
index 16f0d4b..4e3eadb 100644
--- a/python/qugar/dolfinx/_kernel_body.py
+++ b/python/qugar/dolfinx/_kernel_body.py
@@ -370,13 +370,16 @@ class KernelBody:
 
         ``constant_for_pts`` tables keep their 4-D static-array access
         (their declarations are re-emitted by the caller-side codegen).
+
+        Must be called once the pre-loop band is inlined into the loops,
+        because the accesses depend on the quadrature of every loop.
         """
 
         bracket = r"\[\s*(\w+\[\d+\]|[^\]]*)\s*\]\s*"
         fe_re = re.compile(r"FE([\w|\_]+)\s*" + bracket * 4)
         has_perms = self.integral_type == "interior_facet"
 
-        def transform(text: str) -> str:
+        def transform(text: str, quad_name: str) -> str:
             out: list[str] = []
             pos = 0
             for m in fe_re.finditer(text):
@@ -388,18 +391,16 @@ class KernelBody:
                 else:
                     indices = tuple(m.group(i) for i in range(2, 6))
                     out.append(text[pos: m.start()])
-                    out.append(table.create_new_access_code(indices, has_perms))
+                    out.append(table.create_new_access_code(indices, has_perms, quad_name))
                 pos = m.end()
             out.append(text[pos:])
             return "".join(out)
 
-        # Apply to the pre-loop band and every loop body. Loop headers
-        # never contain FE accesses; post_text is just the function's
-        # closing '}' so it doesn't either.
-        if self.loops:
-            self.loops[0].pre_text = transform(self.loops[0].pre_text)
+        # Apply to every loop body. Loop headers never contain FE
+        # accesses; post_text is just the function's closing '}' so it
+        # doesn't either.
         for loop in self.loops:
-            loop.body = transform(loop.body)
+            loop.body = transform(loop.body, loop.quad_name)
         return self
 
     def dynamic_loop_bounds(self) -> "KernelBody":
diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index 097d483..be21267 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -712,14 +712,15 @@ class _IntegralModifier:
 
         # Apply the custom-variant transformation pipeline on the
         # structured body. Order matters:
-        #   erase_static -> rewrite_table_accesses -> dynamic_loop_bounds
-        #   -> inline_pre_loop_into_loops -> substitute_normals.
+        #   erase_static -> inline_pre_loop_into_loops
+        #   -> rewrite_table_accesses -> dynamic_loop_bounds
+        #   -> substitute_normals.
         body = (
             self._body.copy()
             .erase_static_declarations()
+            .inline_pre_loop_into_loops()
             .rewrite_table_accesses()
             .dynamic_loop_bounds()
-            .inline_pre_loop_into_loops()
             .substitute_normals(self._get_constant_normal_offsets())
         )
 
diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index aeb2499..ce9ef39 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -389,7 +389,9 @@ class FETable:
         if not hasattr(self, "_derivatives") or all(der == 0 for der in self._derivatives):
             self._derivatives = (0,) * elem_dim
 
-    def create_new_access_code(self, indices: tuple[str, ...], has_permutations: bool) -> str:
+    def create_new_access_code(
+        self, indices: tuple[str, ...], has_permutations: bool, quad_name: str
+    ) -> str:
         """Transforms the 4 indices access to the statically defined FE
         4D table to the access to a plain 1D array (for values
         dynamically loaded from a custom coefficients array passed to a
@@ -409,6 +411,8 @@ class FETable:
                 4-dimensional FE table.
             has_permutations (bool): Flat indicating if permutations
                 must be considered (mostly, for interior facets).
+            quad_name (str): Name of the quadrature in whose loop the
+                table is accessed.
 
         Returns:
             str: Generated C code for accessing the dynamic array.
@@ -433,9 +437,14 @@ class FETable:
 
         terms = []
 
+        # FFCx accesses the tables of one-point quadratures with a literal
+        # zero instead of the point index. The custom quadrature that
+        # replaces it may have any number of points.
+        point_index = "iq" if quad_name == self.quad_name else indices[2]
+
         # Permutation and entity indices are discarded.
         offsets = [f"{self._funcs} * ", ""]
-        for index, offset in zip(indices[2:], offsets):
+        for index, offset in zip((point_index, indices[3]), offsets):
             new_index = transform_index(index)
             if new_index != 0:
                 terms.append(f"{offset}{index}")
-- 
2.43.0


From 46784d8df05622f3677abf6e1284c7aaee9642f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 28/59] fix: side of the tables of interior facets that do not
 depend on permutations

---
 python/qugar/dolfinx/_kernel_body.py   |  4 ++--
 python/qugar/dolfinx/codegeneration.py | 14 ++++++-------
 python/qugar/dolfinx/fe_table.py       | 28 ++++++++++++++------------
 3 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/python/qugar/dolfinx/_kernel_body.py b/python/qugar/dolfinx/_kernel_body.py
index 4e3eadb..9bd2445 100644
--- a/python/qugar/dolfinx/_kernel_body.py
+++ b/python/qugar/dolfinx/_kernel_body.py
@@ -377,7 +377,7 @@ class KernelBody:
 
         bracket = r"\[\s*(\w+\[\d+\]|[^\]]*)\s*\]\s*"
         fe_re = re.compile(r"FE([\w|\_]+)\s*" + bracket * 4)
-        has_perms = self.integral_type == "interior_facet"
+        two_sided = self.integral_type == "interior_facet"
 
         def transform(text: str, quad_name: str) -> str:
             out: list[str] = []
@@ -391,7 +391,7 @@ class KernelBody:
                 else:
                     indices = tuple(m.group(i) for i in range(2, 6))
                     out.append(text[pos: m.start()])
-                    out.append(table.create_new_access_code(indices, has_perms, quad_name))
+                    out.append(table.create_new_access_code(indices, two_sided, quad_name))
                 pos = m.end()
             out.append(text[pos:])
             return "".join(out)
diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index be21267..9acf5ff 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -513,29 +513,27 @@ class _IntegralModifier:
                 gdim, ndofs, vs = info0["gdim"], info0["ndofs"], info0["vs"]
                 maxnd = max(info["maxnd"] for _t, info in items)
                 nderiv = math.comb(maxnd + gdim, gdim)
-                any_perm = is_interior_facet and any(
-                    t.permutations > 1 for t, _ in items)
                 blk_size_expr = (
                     f"{nderiv} * {n_pts_name} * {ndofs} * {vs}"
                 )
                 group_meta.append(
                     (gi, params, items, gdim, ndofs, vs, maxnd, nderiv,
-                     any_perm, blk_size_expr)
+                     blk_size_expr)
                 )
                 scratch_terms.append(blk_size_expr)
-                if any_perm:
+                if is_interior_facet:
                     scratch_terms.append(blk_size_expr)
                 for table, info in items:
                     if info["vs"] > 1:
                         scratch_terms.append(f"{n_pts_name} * {table.funcs}")
-                        if is_interior_facet and table.permutations > 1:
+                        if is_interior_facet:
                             scratch_terms.append(
                                 f"{n_pts_name} * {table.funcs}"
                             )
 
             for gd in group_meta:
                 (gi, params, items, gdim, ndofs, vs, maxnd, nderiv,
-                 any_perm, blk_size_expr) = gd
+                 blk_size_expr) = gd
                 fam, cell, deg, lv, dv, disc = params
                 handle = f"h_{quad_name}_{gi}"
                 blk0 = f"block_{quad_name}_{gi}"
@@ -560,7 +558,7 @@ class _IntegralModifier:
                     f"{n_pts_name}, {gdim}, {blk0}, "
                     f"(long)({blk_size_expr})) != 0) return;\n"
                 )
-                if any_perm:
+                if is_interior_facet:
                     tab_code += (
                         f"{dtype_str}* {blk1} = {scratch_var} + "
                         f"({_cur_offset()});\n"
@@ -576,7 +574,7 @@ class _IntegralModifier:
                 for table, info in items:
                     funcs = table.funcs
                     didx, vaxis = info["didx"], info["vaxis"]
-                    two_sided = is_interior_facet and table.permutations > 1
+                    two_sided = is_interior_facet
 
                     if vs == 1:
                         # The basix block's layout already matches the
diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index ce9ef39..e8f19ff 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -390,7 +390,7 @@ class FETable:
             self._derivatives = (0,) * elem_dim
 
     def create_new_access_code(
-        self, indices: tuple[str, ...], has_permutations: bool, quad_name: str
+        self, indices: tuple[str, ...], two_sided: bool, quad_name: str
     ) -> str:
         """Transforms the 4 indices access to the statically defined FE
         4D table to the access to a plain 1D array (for values
@@ -402,15 +402,15 @@ class FETable:
         the new ``FE_C0_D10_Q48f`` is the flattened dynamic version of
         the original array.
 
-        In the case the table presents permutations (for interior
-        facet integrals), the access will be something like
-        ``FE_C0_D10_Q48f[i][index]``.
+        In the case of interior facet integrals, the access will be
+        something like ``FE_C0_D10_Q48f[i][index]``, where ``i`` is the
+        side of the facet.
 
         Args:
             indices (tuple[str]): Four indices for accessing the
                 4-dimensional FE table.
-            has_permutations (bool): Flat indicating if permutations
-                must be considered (mostly, for interior facets).
+            two_sided (bool): Flag indicating if there is a version of
+                the table for every side (for interior facets).
             quad_name (str): Name of the quadrature in whose loop the
                 table is accessed.
 
@@ -420,12 +420,14 @@ class FETable:
 
         assert not self.is_constant_for_pts()
 
-        perm_index = None
-        if has_permutations and indices[0] != "0":
-            assert self._permutations > 1
+        # The side is the one whose permutation or, if the values at the
+        # standard points do not depend on it, facet is accessed.
+        side = None
+        if two_sided:
             match = re.search(r"quadrature_permutation\[(\d+)\]", indices[0])
-            assert match
-            perm_index = int(match.group(1))
+            if match is None:
+                match = re.search(r"entity_local_index\[(\d+)\]", indices[1])
+            side = int(match.group(1)) if match else 0
 
         def transform_index(index: str) -> int | str:
             index = index.replace(" ", "")
@@ -452,8 +454,8 @@ class FETable:
         plain_index = " + ".join(terms)
 
         new_access = f"{self._name}"
-        if perm_index is not None:
-            new_access += f"[{perm_index}]"
+        if side is not None:
+            new_access += f"[{side}]"
         new_access += f"[{plain_index}]"
 
         return new_access
-- 
2.43.0


From 75020a929532fe36875dfdb1e331e05395670f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 29/59] fix: quadratures that share their tables with others of
 the integral

---
 python/qugar/dolfinx/_kernel_body.py  | 8 +++++---
 python/qugar/dolfinx/integral_data.py | 9 ++++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/python/qugar/dolfinx/_kernel_body.py b/python/qugar/dolfinx/_kernel_body.py
index 9bd2445..31dee5b 100644
--- a/python/qugar/dolfinx/_kernel_body.py
+++ b/python/qugar/dolfinx/_kernel_body.py
@@ -206,10 +206,12 @@ class KernelBody:
             # opening ``{`` (preserves FFCx's "\n{" formatting).
             header = inside_body[lm.start():lm.end() + b_open + 1]
             body = after_header[b_open + 1:b_close - 1]
-            # Identify the quadrature this loop belongs to.
-            quad = _QUAD_NAME_IN_BODY.search(body)
+            # Identify the quadrature this loop belongs to. The weights are
+            # the ones of the loop, while FFCx may access tables that are
+            # shared with other quadratures.
+            quad = _QUAD_NAME_VIA_WEIGHTS.search(body)
             if quad is None:
-                quad = _QUAD_NAME_VIA_WEIGHTS.search(body)
+                quad = _QUAD_NAME_IN_BODY.search(body)
             if quad is None:
                 raise ValueError("Quadrature name not found in loop body.")
             loops.append(
diff --git a/python/qugar/dolfinx/integral_data.py b/python/qugar/dolfinx/integral_data.py
index 5088915..3a9db20 100644
--- a/python/qugar/dolfinx/integral_data.py
+++ b/python/qugar/dolfinx/integral_data.py
@@ -135,7 +135,8 @@ class IntegralData(NamedTuple):
     @property
     def dtype(self) -> type[np.float32 | np.float64]:
         """`numpy` type used in the integral."""
-        FE_tables = next(iter(self.quad_data_FE_tables.values()))
+        # A quadrature may have no tables of its own.
+        FE_tables = [table for tables in self.quad_data_FE_tables.values() for table in tables]
         assert FE_tables
         return FE_tables[0].dtype
 
@@ -187,6 +188,12 @@ def extract_integral_data(
         if FE_table.element_dim != tdim:
             is_mixed_dim = True
 
+    # FFCx shares the tables that are identical between quadratures, so
+    # a quadrature may have no tables of its own.
+    rule_names = {rule.id() for _cell_type, rule in itg_ir.expression.integrand.keys()}
+    for quad_name in sorted(rule_names):
+        quad_FE_tables.setdefault(all_quads_data[quad_name], [])
+
     return IntegralData(
         short_itg_name,
         itg_ids,
-- 
2.43.0


From 902edf2925d0971dd3713f119a18ef13db18896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 30/59] fix: degree of the terms that share a quadrature rule

---
 python/qugar/dolfinx/quadrature_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/quadrature_data.py b/python/qugar/dolfinx/quadrature_data.py
index 391751a..9816cb4 100644
--- a/python/qugar/dolfinx/quadrature_data.py
+++ b/python/qugar/dolfinx/quadrature_data.py
@@ -139,6 +139,10 @@ def extract_quadrature_data(
         for itg_data in fd.integral_data:
             for itg in itg_data.integrals:
                 quad_data = _extract_single_quadrature_data(itg, fd, ffcx_options)
-                quads_data[quad_data.name] = quad_data
+                # Terms with the same rule (e.g., all the ones on unfitted
+                # boundaries) are integrated together.
+                old = quads_data.get(quad_data.name)
+                if old is None or old.degree < quad_data.degree:
+                    quads_data[quad_data.name] = quad_data
 
     return quads_data
-- 
2.43.0


From eab6db8ddd9a3a2387cdb15e4102228658a8dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 31/59] fix: form_custom modified the integrals of the given
 forms

---
 python/qugar/dolfinx/forms.py | 57 ++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 63a5567..ae977ea 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -144,38 +144,42 @@ def _modify_everywhere_exterior_facet_integrals(form):
     Args:
         form: The dolfinx form object.
 
+    Note:
+        The given form and its integrals, that may be shared with other
+        forms, are not modified.
+
     Returns:
-        The modified dolfinx form object.
+        The modified form (or the given one if there is nothing to
+        modify).
     """
 
-    def _get_max_subdomain_id():
-        subdomain_id = -1
-        for integral in form.integrals():
-            if integral.integral_type() == "exterior_facet":
-                if isinstance(integral.subdomain_id(), int):
-                    subdomain_id = max(subdomain_id, integral.subdomain_id())
-        return subdomain_id + 1
+    def _is_everywhere(integral) -> bool:
+        return integral.integral_type() == "exterior_facet" and integral.subdomain_id() in (
+            "everywhere",
+            -1,
+        )
 
-    old_integrals = list(form.integrals())
+    integrals = list(form.integrals())
+    if not any(_is_everywhere(integral) for integral in integrals):
+        return form
 
-    for i, integral in enumerate(form.integrals()):
+    new_id = 0
+    for integral in integrals:
         if integral.integral_type() == "exterior_facet":
-            # Check if the integral is over the whole domain
-            if integral.subdomain_id() in ("everywhere", -1):
-                old_integrals[i] = integral.reconstruct(
-                    integral.integrand(),
-                    integral.integral_type(),
-                    integral.ufl_domain(),
-                    integral.subdomain_id(),
-                    integral.metadata().copy(),
-                    integral.subdomain_id(),
-                )
+            ids = integral.subdomain_id()
+            for subdomain_id in ids if isinstance(ids, tuple) else (ids,):
+                if isinstance(subdomain_id, int):
+                    new_id = max(new_id, subdomain_id + 1)
 
-                integral._subdomain_data = None
-                integral._subdomain_id = _get_max_subdomain_id()
-                integral._metadata.update({"ext_facet_everywhere": True})
+    for i, integral in enumerate(integrals):
+        if _is_everywhere(integral):
+            metadata = dict(integral.metadata() or {})
+            metadata["ext_facet_everywhere"] = True
+            integrals[i] = integral.reconstruct(subdomain_id=new_id, metadata=metadata)
+            integrals[i]._subdomain_data = None
+            new_id += 1
 
-    return form, tuple(old_integrals)
+    return ufl.Form(integrals)
 
 
 def form_custom(
@@ -246,7 +250,7 @@ def form_custom(
         # replaces the ``"everywhere"`` subdomain id with a fresh
         # numerical one and tags the integral with a metadata flag so
         # the unfitted facets can be attached later.
-        form, old_integrals = _modify_everywhere_exterior_facet_integrals(form)
+        form = _modify_everywhere_exterior_facet_integrals(form)
 
         # Extract subdomain data from UFL form
         sd = form.subdomain_data()
@@ -334,9 +338,6 @@ def form_custom(
             ext_facets = unf_domain.get_all_facets(ext_integral=True).as_array()
             subdomains[IntegralType.exterior_facet].append((subdomain_id, ext_facets))
 
-        # Reverting modified exterior integrals
-        form._integrals = old_integrals
-
         if entity_maps is None:
             _entity_maps = []
         else:
-- 
2.43.0


From 1c91f2b4caebdcb592e1c235a171b66c7ac1bce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 32/59] fix: form_custom dropped all the forms of a list

---
 python/qugar/dolfinx/forms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index ae977ea..9e49584 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -359,6 +359,8 @@ def form_custom(
         for i in lst:
             if isinstance(i, list):
                 new_lst.extend(_flatten_list(i))
+            else:
+                new_lst.append(i)
         return new_lst
 
     def _create_form(form) -> CustomForm | None | list[CustomForm | None]:
-- 
2.43.0


From a6fee2b2a99c998107abef495854ab2b11cf8865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 33/59] fix: integrals over several subdomains of unfitted
 boundaries were scaled twice

---
 python/qugar/dolfinx/boundary.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/qugar/dolfinx/boundary.py b/python/qugar/dolfinx/boundary.py
index c863efc..99e05da 100644
--- a/python/qugar/dolfinx/boundary.py
+++ b/python/qugar/dolfinx/boundary.py
@@ -212,6 +212,12 @@ class ds_bdry_unf(ufl.Measure):
 
         Integration properties are taken from this Measure object.
         """
+        if isinstance(self.subdomain_id(), tuple):
+            # The integral of every subdomain is created by multiplying
+            # the integrand with a reconstructed measure, that already
+            # includes the complement.
+            return super().__rmul__(integrand)
+
         return super().__rmul__(integrand * self._measure_complement)
 
     def reconstruct(
-- 
2.43.0


From 7176ebd15ec238a72caa6278a59131f6d12e5717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 34/59] fix: the shim library was published while it was being
 compiled

---
 python/qugar/dolfinx/_shim/__init__.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/_shim/__init__.py b/python/qugar/dolfinx/_shim/__init__.py
index 311f45a..9eb47a7 100644
--- a/python/qugar/dolfinx/_shim/__init__.py
+++ b/python/qugar/dolfinx/_shim/__init__.py
@@ -144,6 +144,12 @@ def ensure_built() -> tuple[Path, str]:
         if lib.exists() and lib.stat().st_mtime >= src_mtime:
             return cache, LIB_NAME
 
+        # Build under a name of our own and publish the result atomically:
+        # other processes take the fast path above (without any lock) and
+        # must never find a library that is still being written, nor one
+        # left behind by an interrupted or failed build.
+        tmp_lib = cache / f".{os.getpid()}.{_LIB_FILENAME}"
+
         prefix = Path(sys.prefix)
         cmd = [
             str(_find_cxx()),
@@ -156,18 +162,24 @@ def ensure_built() -> tuple[Path, str]:
             "-lbasix",
             f"-Wl,-rpath,{prefix / 'lib'}",
             "-o",
-            str(lib),
+            str(tmp_lib),
             str(SHIM_SRC),
         ]
         # Align the shim's macOS deployment target with what cffi will use
         # when it links the kernel (otherwise ld warns "built for newer
         # version X" because conda clang's default target is much newer).
         if sys.platform == "darwin":
+            # The install name would otherwise be the temporary name.
+            cmd.insert(cmd.index("-o"), f"-Wl,-install_name,{lib}")
             target = (os.environ.get("MACOSX_DEPLOYMENT_TARGET")
                       or sysconfig.get_config_var("MACOSX_DEPLOYMENT_TARGET"))
             if target:
                 cmd.insert(cmd.index("-o"), f"-mmacosx-version-min={target}")
-        subprocess.run(cmd, check=True)
+        try:
+            subprocess.run(cmd, check=True)
+            os.replace(tmp_lib, lib)
+        finally:
+            tmp_lib.unlink(missing_ok=True)
         return cache, LIB_NAME
 
 
-- 
2.43.0


From 968a2e963e6d15047f62ea08d26b6d5448ff4e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:33 +0000
Subject: [PATCH 35/59] fix: the quadratures of full entities were cached in a
 variable shared by threads

---
 cpp/qugar/impl_quadrature.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index a79ed6d..7fd1928 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -519,7 +519,7 @@ void create_cell_quadrature(const UnfittedImplDomain<dim> &unf_domain,
   } else if (unf_domain.is_full_cell(cell_id)) {
     const int n_pts_per_quad_set = n_pts_dir * n_pts_dir * (dim == 3 ? n_pts_dir : 1);
 
-    static auto gauss_01 = Quadrature<dim>::create_Gauss_01(n_pts_dir);
+    static thread_local auto gauss_01 = Quadrature<dim>::create_Gauss_01(n_pts_dir);
     if (gauss_01->get_num_points() != static_cast<std::size_t>(n_pts_per_quad_set)) {
       gauss_01 = Quadrature<dim>::create_Gauss_01(n_pts_dir);
     }
@@ -622,7 +622,7 @@ void create_facet_quadrature(const UnfittedImplDomain<dim> &unf_domain,
 
     const int n_pts_per_quad_set = n_pts_dir * (dim == 3 ? n_pts_dir : 1);
 
-    static auto gauss_01 = Quadrature<dim - 1>::create_Gauss_01(n_pts_dir);
+    static thread_local auto gauss_01 = Quadrature<dim - 1>::create_Gauss_01(n_pts_dir);
     if (gauss_01->get_num_points() != static_cast<std::size_t>(n_pts_per_quad_set)) {
       gauss_01 = Quadrature<dim - 1>::create_Gauss_01(n_pts_dir);
     }
-- 
2.43.0


From bafa2ef5f57e0ebe2503ac94ac76c754d3eee6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:33 +0000
Subject: [PATCH 36/59] fix: the registries of the shim were not safe for
 kernels running in several threads

---
 .../qugar/dolfinx/_shim/qugar_basix_shim.cpp  | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp b/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp
index 0dc4b1f..da7baf9 100644
--- a/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp
+++ b/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp
@@ -19,6 +19,8 @@
 #include <cstddef>
 #include <exception>
 #include <map>
+#include <mutex>
+#include <shared_mutex>
 #include <span>
 #include <utility>
 #include <vector>
@@ -45,13 +47,29 @@ template<typename T> std::map<ElementKey, int> &index()
   return idx;
 }
 
+// Kernels may run in several threads at the same time: the registries and
+// indices are only read under a shared lock and changed under an exclusive one.
+std::shared_mutex &registry_mutex()
+{
+  static std::shared_mutex m;
+  return m;
+}
+
 template<typename T> int register_impl(int family, int cell, int degree, int lvariant, int dvariant, int discontinuous)
 {
   const ElementKey key{ family, cell, degree, lvariant, dvariant, discontinuous };
-  if (auto it = index<T>().find(key); it != index<T>().end())
-    return it->second;// already created -> return cached handle
 
   try {
+    {
+      const std::shared_lock<std::shared_mutex> lock(registry_mutex());
+      if (auto it = index<T>().find(key); it != index<T>().end())
+        return it->second;// already created -> return cached handle
+    }
+
+    const std::unique_lock<std::shared_mutex> lock(registry_mutex());
+    if (auto it = index<T>().find(key); it != index<T>().end())
+      return it->second;// created by another thread meanwhile
+
     FiniteElement<T> el = create_element<T>(static_cast<element::family>(family),
       static_cast<cell::type>(cell),
       degree,
@@ -72,6 +90,7 @@ template<typename T> int register_impl(int family, int cell, int degree, int lva
 template<typename T> int shape_impl(int handle, int nd, int npts, long *out4)
 {
   try {
+    const std::shared_lock<std::shared_mutex> lock(registry_mutex());
     auto &r = registry<T>();
     if (handle < 0 || handle >= static_cast<int>(r.size()))
       return -3;
@@ -89,6 +108,7 @@ template<typename T>
 int tabulate_impl(int handle, int nd, const T *x, int npts, int gdim, T *basis, long basis_capacity)
 {
   try {
+    const std::shared_lock<std::shared_mutex> lock(registry_mutex());
     auto &r = registry<T>();
     if (handle < 0 || handle >= static_cast<int>(r.size()))
       return -3;
@@ -168,14 +188,17 @@ float *qugar_get_scratch_f32(long n)
 // Introspection / teardown.
 int qugar_registry_size_f64()
 {
+  const std::shared_lock<std::shared_mutex> lock(registry_mutex());
   return (int)registry<double>().size();
 }
 int qugar_registry_size_f32()
 {
+  const std::shared_lock<std::shared_mutex> lock(registry_mutex());
   return (int)registry<float>().size();
 }
 void qugar_shim_reset()
 {
+  const std::unique_lock<std::shared_mutex> lock(registry_mutex());
   registry<double>().clear();
   registry<float>().clear();
   index<double>().clear();
-- 
2.43.0


From d9105aa975f8cc463db4e291bb9d79c928ebf070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:27 +0000
Subject: [PATCH 37/59] fix: the statuses of cells out of the requested set
 were set by a domain restricted to some cells

---
 cpp/qugar/impl_unfitted_domain.cpp | 64 +++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index e578dc8..b385ea4 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -108,25 +108,43 @@ namespace {
     }
   }
 
-  //! Inserts cell IDs from a subgrid into a container.
+  //! @brief Checks if all the cells of the subgrid are target cells.
   //!
-  //! @param subgrid The subgrid from which to extract cell IDs.
-  //! @param target_cells Optional vector of target cell IDs. If provided, only these cells
-  //!                     within the subgrid's range will be inserted into the container.
-  //! @param container The container to store the cell IDs.
+  //! If `target_cells` is not provided, this function returns `true` (it assumes that
+  //! all the cells are considered.)
   //!
-  //! If `target_cells` is provided, this function inserts the cell IDs from `target_cells`
-  //! that are within the range of `subgrid` into `container`. If `target_cells` is not provided,
-  //! all cell IDs from the `subgrid` are inserted into `container`.
+  //! @tparam dim The dimensionality of the grid.
+  //! @param subgrid The subgrid whose cells are tested.
+  //! @param target_cells An optional vector of cell indices.
+  //! @return `true` if every cell of the subgrid is a target cell, or no target cells are defined;
+  //! `false` otherwise.
   template<int dim>
-  void insert_cells(UnfittedBinarySpacePart<dim> &tree,
-    const std::optional<std::vector<std::int64_t>> &target_cells,
-    const FuncSign sign)
+  bool all_target_cells(const SubCartGridTP<dim> &subgrid, const std::optional<std::vector<std::int64_t>> &target_cells)
   {
-    // TODO: Implement this function for target cells.
-    static_cast<void>(target_cells);
-    assert(!target_cells.has_value());
+    if (!target_cells.has_value()) {
+      return true;
+    }
+
+    const auto &range = subgrid.get_range();
+    const auto size = subgrid.get_grid()->get_num_cells_dir();
+
+    std::vector<std::int64_t> cells;
+    std::copy_if(target_cells->cbegin(),
+      target_cells->cend(),
+      std::back_inserter(cells),
+      [&range, &size](const std::int64_t cell_id) { return range.is_in_range(cell_id, size); });
+    std::sort(cells.begin(), cells.end());
+    cells.erase(std::unique(cells.begin(), cells.end()), cells.end());
 
+    return static_cast<std::int64_t>(cells.size()) == static_cast<std::int64_t>(subgrid.get_num_cells());
+  }
+
+  //! @brief Sets the status of all the cells of a tree leaf according to the sign of the function.
+  //!
+  //! @param tree Tree leaf whose status is set. All its cells are target cells.
+  //! @param sign Sign of the function in the leaf.
+  template<int dim> void insert_cells(UnfittedBinarySpacePart<dim> &tree, const FuncSign sign)
+  {
     const auto status = sign == FuncSign::positive ? ImmersedCellStatus::empty : ImmersedCellStatus::full;
 
     tree.set_status(status);
@@ -454,17 +472,15 @@ void UnfittedImplDomain<dim>::create_decomposition(KDTree &tree,
   const auto ext_domain = domain.extend(numbers::eps * 1000);
   const auto sign = func_sign(ext_domain);
 
-  if (sign == FuncSign::undetermined) {
-    if (subgrid->is_unique_cell()) {
-      this->classify_undetermined_sign_cell(tree);
-    } else {
-      tree.branch();
-      this->create_decomposition(*tree.get_child(0), func_sign, target_cells);
-      this->create_decomposition(*tree.get_child(1), func_sign, target_cells);
-    }
-  } else {
+  if (sign != FuncSign::undetermined && all_target_cells(*subgrid, target_cells)) {
     assert(sign == FuncSign::positive || sign == FuncSign::negative);
-    insert_cells(tree, target_cells, sign);
+    insert_cells(tree, sign);
+  } else if (subgrid->is_unique_cell()) {
+    this->classify_undetermined_sign_cell(tree);
+  } else {
+    tree.branch();
+    this->create_decomposition(*tree.get_child(0), func_sign, target_cells);
+    this->create_decomposition(*tree.get_child(1), func_sign, target_cells);
   }
 }
 
-- 
2.43.0


From 04c819bf9ae3d03c6d79c82b9a2e445616af2925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:27 +0000
Subject: [PATCH 38/59] fix: the sign of a polynomial in a cell was the one in
 the unit domain

---
 cpp/qugar/impl_unfitted_domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index b385ea4..9266087 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -212,7 +212,7 @@ namespace {
     BezierTP<dim> bzr_domain(bezier);
     bzr_domain.rescale_domain(domain);
 
-    switch (bezier.sign()) {
+    switch (bzr_domain.sign()) {
     case FuncSign::positive:
       return ImmersedCellStatusTmp::empty;
     case FuncSign::negative:
-- 
2.43.0


From 1d153c7d734ebd4badf378a029b5cdd7d85c5220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 39/59] fix: parts of cut facets on the boundary of the
 neighbor were integrated

---
 cpp/qugar/impl_quadrature.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index 7fd1928..465ea11 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -301,8 +301,9 @@ namespace {
   // NOLINTEND (bugprone-easily-swappable-parameters)
   {
     const bool has_unf_bdry = unf_domain.has_unfitted_boundary(cell_id, local_facet_id);
+    const bool has_ext_bdry = unf_domain.has_external_boundary(cell_id, local_facet_id);
     purge_unf_bdry = purge_unf_bdry && has_unf_bdry;
-    purge_unf_ext_bdry = purge_unf_ext_bdry && has_unf_bdry;
+    purge_unf_ext_bdry = purge_unf_ext_bdry && (has_unf_bdry || has_ext_bdry);
     purge_cut = purge_cut && unf_domain.is_cut_facet(cell_id, local_facet_id);
 
     if (!purge_unf_bdry && !purge_unf_ext_bdry && !purge_cut) {
-- 
2.43.0


From 282ac95b2ec63977b0f3bfdd93ed5b69b57fd482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:06 +0000
Subject: [PATCH 40/59] fix: the derivative of monomials along a direction of
 degree zero was the polynomial itself

---
 cpp/qugar/monomials_tp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/monomials_tp.cpp b/cpp/qugar/monomials_tp.cpp
index d2daa82..3cb22e6 100644
--- a/cpp/qugar/monomials_tp.cpp
+++ b/cpp/qugar/monomials_tp.cpp
@@ -87,8 +87,9 @@ std::shared_ptr<MonomialsTP<dim, range>> MonomialsTP<dim, range>::create_derivat
   assert(0 <= dir && dir < dim);
 
   if (this->get_degree(dir) == 0) {
-    // Just a clone
-    return std::make_shared<MonomialsTP<dim, range>>(this->get_order(), this->get_coefs());
+    // Null polynomial.
+    const std::vector<CoefsType> zero_coefs(this->get_num_coefs(), CoefsType{ qugar::numbers::zero });
+    return std::make_shared<MonomialsTP<dim, range>>(this->get_order(), zero_coefs);
   }
 
   auto new_order = this->get_order();
-- 
2.43.0


From e0a393e4c6c2e7a838ab2fc9d9f506bdfaf8f470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:06 +0000
Subject: [PATCH 41/59] fix: facets and gradients of monomials

The facets dropped all the terms but the ones of highest degree, and the
derivative along the last direction was wrong for degree zero.
---
 cpp/qugar/monomials_tp.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cpp/qugar/monomials_tp.cpp b/cpp/qugar/monomials_tp.cpp
index 3cb22e6..d819479 100644
--- a/cpp/qugar/monomials_tp.cpp
+++ b/cpp/qugar/monomials_tp.cpp
@@ -207,20 +207,19 @@ std::shared_ptr<MonomialsTP<dim - 1, range>> MonomialsTP<dim, range>::extract_fa
 
   const auto new_order = TensorSizeTP<dim - 1>(remove_component(this->get_order().as_Vector(), const_dir));
 
-  std::vector<CoefsType> new_coefs(static_cast<std::size_t>(new_order.size()));
+  std::vector<CoefsType> new_coefs(
+    static_cast<std::size_t>(new_order.size()), CoefsType{ qugar::numbers::zero });
 
-  TensorIndexTP<dim> lower_bound(0);
+  // On side 0 only the terms constant along const_dir remain, on side 1 all the powers are 1.
+  const TensorIndexTP<dim> lower_bound(0);
   TensorIndexTP<dim> upper_bound(this->get_order());
   if (side == 0) {
     upper_bound(const_dir) = 1;
-  } else {
-    lower_bound(const_dir) = this->get_order(const_dir) - 1;
   }
-  const TensorIndexRangeTP<dim> indices_range(lower_bound, upper_bound);
 
-  auto new_coef = new_coefs.begin();
-  for (const auto &tid : indices_range) {
-    *new_coef++ = at(this->coefs_, tid.flat(this->get_order()));
+  for (const auto &tid : TensorIndexRangeTP<dim>(lower_bound, upper_bound)) {
+    const TensorIndexTP<dim - 1> new_tid(remove_component(tid.as_Vector(), const_dir));
+    at(new_coefs, new_tid.flat(new_order)) += at(this->coefs_, tid.flat(this->get_order()));
   }
 
   return std::make_shared<MonomialsTP<dim - 1, range>>(new_order, new_coefs);
@@ -287,7 +286,9 @@ auto MonomialsTP<dim, range>::horner_der(const Point<dim, T> &point,
     val = val * x + at(beta, i);
     der = der * x + static_cast<real>(i) * at(beta, i)(0);
   }
-  val = val * x + beta.front();
+  if (last_degree > 0) {
+    val = val * x + beta.front();
+  }
 
   return add_component(val, dim, der);
 }
-- 
2.43.0


From a79a83598b1aa1c536c983212d64d321ecde8192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:45 +0000
Subject: [PATCH 42/59] fix: Lagrange polynomials used Chebyshev nodes when
 equally spaced ones were requested, and vice versa

The orientation of the cells assumed those nodes independently of the order.
---
 cpp/qugar/impl_reparam_mesh.cpp | 4 ++--
 cpp/qugar/lagrange_tp_utils.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/qugar/impl_reparam_mesh.cpp b/cpp/qugar/impl_reparam_mesh.cpp
index 1203804..16cbf38 100644
--- a/cpp/qugar/impl_reparam_mesh.cpp
+++ b/cpp/qugar/impl_reparam_mesh.cpp
@@ -185,7 +185,7 @@ void ImplReparamMesh<dim, range>::orient_cells_positively(const std::vector<int>
   const TensorSizeTP<dim> order(this->order_);
   Vector<std::vector<real>, dim> derivatives;
 
-  constexpr bool chebyshev = false;
+  const bool chebyshev = this->use_Chebyshev();
 
   const Point<dim> mid_pt{ numbers::half };
   evaluate_Lagrange_derivative<dim>(mid_pt, order, chebyshev, derivatives);
@@ -233,7 +233,7 @@ void ImplReparamMesh<dim, range>::orient_levelset_cells_positively(const std::ve
   std::vector<real> basis;
   Vector<std::vector<real>, dim> derivatives;
 
-  constexpr bool chebyshev = false;
+  const bool chebyshev = this->use_Chebyshev();
 
   const Point<dim> mid_pt{ numbers::half };
 
diff --git a/cpp/qugar/lagrange_tp_utils.cpp b/cpp/qugar/lagrange_tp_utils.cpp
index bcc4a9a..adcc51d 100644
--- a/cpp/qugar/lagrange_tp_utils.cpp
+++ b/cpp/qugar/lagrange_tp_utils.cpp
@@ -45,9 +45,9 @@ void evaluate_Lagrange_basis_1D(const real point, const int order, const bool ch
 
   std::function<real(const int)> get_coord;
   if (chebyshev) {
-    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
-  } else {
     get_coord = [order](const int ind) -> real { return ::algoim::bernstein::modifiedChebyshevNode(ind, order); };
+  } else {
+    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
   }
 
   for (int i = 0; i < order; ++i) {
@@ -71,9 +71,9 @@ void evaluate_Lagrange_basis_der_1D(const real point, const int order, const boo
 
   std::function<real(const int)> get_coord;
   if (chebyshev) {
-    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
-  } else {
     get_coord = [order](const int ind) -> real { return ::algoim::bernstein::modifiedChebyshevNode(ind, order); };
+  } else {
+    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
   }
 
   for (int i = 0; i < order; ++i) {
-- 
2.43.0


From 505bd53fd932944dae0bc21b8c8d632a9c807712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 43/59] fix: the reference roots of a function were read at the
 index of the function

---
 cpp/qugar/impl_reparam_general.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_reparam_general.cpp b/cpp/qugar/impl_reparam_general.cpp
index 5bbda27..f679bd5 100644
--- a/cpp/qugar/impl_reparam_general.cpp
+++ b/cpp/qugar/impl_reparam_general.cpp
@@ -403,7 +403,7 @@ template<int dim, int range, typename R, bool S, bool T = true> struct ImplicitG
 
     for (int i = 0; i < ref_intervals.get_num_roots(); ++i) {
       if (at(ref_intervals.func_ids, i) == psi_id) {
-        ref_roots.push_back(at(ref_intervals.roots, psi_id));
+        ref_roots.push_back(at(ref_intervals.roots, i));
       }
     }
 
-- 
2.43.0


From 9c68c31ee02cb96f130a24b1c6d2a9ffd3916d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 44/59] fix: roots at the ends of a line were not recognised
 for functions with large values

---
 cpp/qugar/impl_reparam_general.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/qugar/impl_reparam_general.cpp b/cpp/qugar/impl_reparam_general.cpp
index f679bd5..281a032 100644
--- a/cpp/qugar/impl_reparam_general.cpp
+++ b/cpp/qugar/impl_reparam_general.cpp
@@ -458,11 +458,13 @@ template<int dim, int range, typename R, bool S, bool T = true> struct ImplicitG
     bool root_1{ false };
 
     // Check if the points x0 or x1 are roots of the function
-    // up to different tolerances.
+    // up to different tolerances (relative to the values of the
+    // function along the line, if those are large).
+    const real scale = std::max({ numbers::one, std::abs(val_0), std::abs(val_1) });
     for (int i = 0; i < 4; ++i) {
       const Tolerance new_tol(tol.value() * pow(10.0, i));
-      root_0 = new_tol.is_zero(val_0);
-      root_1 = new_tol.is_zero(val_1);
+      root_0 = new_tol.is_zero(val_0 / scale);
+      root_1 = new_tol.is_zero(val_1 / scale);
       if (root_0 || root_1) {
         break;
       }
-- 
2.43.0


From 3a53fa60d493010e4656fe65bd88d7270299ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:47 +0000
Subject: [PATCH 45/59] fix: return a copy of the mid point of a bounding box,
 not a view of a temporary

---
 python/nanobind_wrappers/common.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/nanobind_wrappers/common.cpp b/python/nanobind_wrappers/common.cpp
index 283ea60..e87556c 100644
--- a/python/nanobind_wrappers/common.cpp
+++ b/python/nanobind_wrappers/common.cpp
@@ -82,8 +82,10 @@ namespace {
       .def_prop_ro(
         "mid_point",
         [](BBox &bbox) {
+          const auto mid_point = bbox.mid_point();
           using Array = nb::ndarray<const real, nb::numpy, nb::shape<dim>, nb::c_contig>;
-          return Array(bbox.mid_point().data(), { dim }, nb::handle());
+          // There is a copy here.
+          return Array(mid_point.data(), { dim }, nb::handle()).cast();
         },
         nb::rv_policy::reference_internal)
       .def_prop_ro("volume", &BBox::volume)
-- 
2.43.0


From 88ef8ec5ae856e29f7525f0a2143c456f9af3fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:47 +0000
Subject: [PATCH 46/59] fix: capture the helpers of the domain queries by value

---
 python/nanobind_wrappers/unf_domain.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/nanobind_wrappers/unf_domain.cpp b/python/nanobind_wrappers/unf_domain.cpp
index 9a55db6..9d2ed3c 100644
--- a/python/nanobind_wrappers/unf_domain.cpp
+++ b/python/nanobind_wrappers/unf_domain.cpp
@@ -54,7 +54,7 @@ namespace {
     };
 
     const auto get_cells =
-      [&make_tuple](const auto &accessor_0,
+      [make_tuple](const auto &accessor_0,
         const auto &accessor_1,
         const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
         std::vector<std::int64_t> cell_ids;
@@ -74,7 +74,7 @@ namespace {
       };
 
     const auto get_facets =
-      [&make_tuple](const auto &accessor_0,
+      [make_tuple](const auto &accessor_0,
         const auto &accessor_1,
         const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
         const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
@@ -113,7 +113,7 @@ namespace {
         "has_facets_with_unf_bdry", [](const UnfDomain &domain) { return domain.has_facets_with_unf_bdry(); })
       .def(
         "get_full_cells",
-        [&get_cells](const UnfDomain &domain,
+        [get_cells](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_full_cells(target_cell_ids, cell_ids);
@@ -125,7 +125,7 @@ namespace {
         nb::arg("target_cell_ids") = nb::none())
       .def(
         "get_empty_cells",
-        [&get_cells](const UnfDomain &domain,
+        [get_cells](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_empty_cells(target_cell_ids, cell_ids);
@@ -137,7 +137,7 @@ namespace {
         nb::arg("target_cell_ids") = nb::none())
       .def(
         "get_cut_cells",
-        [&get_cells](const UnfDomain &domain,
+        [get_cells](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_cut_cells(target_cell_ids, cell_ids);
@@ -149,7 +149,7 @@ namespace {
         nb::arg("target_cell_ids") = nb::none())
       .def(
         "get_empty_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -167,7 +167,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_full_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -185,7 +185,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_cut_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -203,7 +203,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_unf_bdry_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -221,7 +221,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_full_unf_bdry_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
-- 
2.43.0


From d779e4063fdeab31dae8e25605b95185c6a5f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:47 +0000
Subject: [PATCH 47/59] fix: request contiguous arrays where the memory is read
 directly

---
 python/nanobind_wrappers/cut_quad.cpp   | 10 ++++----
 python/nanobind_wrappers/reparam.cpp    |  2 +-
 python/nanobind_wrappers/unf_domain.cpp | 34 ++++++++++++-------------
 3 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/python/nanobind_wrappers/cut_quad.cpp b/python/nanobind_wrappers/cut_quad.cpp
index b3b7241..3e28ccd 100644
--- a/python/nanobind_wrappers/cut_quad.cpp
+++ b/python/nanobind_wrappers/cut_quad.cpp
@@ -173,8 +173,8 @@ namespace {
 
   template<int dim> void create_quadrature(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
-    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
+    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_quadrature",
@@ -191,7 +191,7 @@ namespace {
 
   template<int dim> void create_unfitted_bound_quadrature(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_unfitted_bound_quadrature",
@@ -216,8 +216,8 @@ namespace {
 
   template<int dim> void create_facets_quadrature(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
-    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
+    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_facets_quadrature_interior_integral",
diff --git a/python/nanobind_wrappers/reparam.cpp b/python/nanobind_wrappers/reparam.cpp
index 5986420..baea45a 100644
--- a/python/nanobind_wrappers/reparam.cpp
+++ b/python/nanobind_wrappers/reparam.cpp
@@ -96,7 +96,7 @@ namespace {
 
   template<int dim> void create_reparam(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_reparameterization",
diff --git a/python/nanobind_wrappers/unf_domain.cpp b/python/nanobind_wrappers/unf_domain.cpp
index 9d2ed3c..d870e07 100644
--- a/python/nanobind_wrappers/unf_domain.cpp
+++ b/python/nanobind_wrappers/unf_domain.cpp
@@ -56,7 +56,7 @@ namespace {
     const auto get_cells =
       [make_tuple](const auto &accessor_0,
         const auto &accessor_1,
-        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
         std::vector<std::int64_t> cell_ids;
 
         if (target_cell_ids_py.has_value()) {
@@ -76,8 +76,8 @@ namespace {
     const auto get_facets =
       [make_tuple](const auto &accessor_0,
         const auto &accessor_1,
-        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-        const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+        const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
         std::vector<std::int64_t> cell_ids;
         std::vector<int> local_facet_ids;
 
@@ -114,7 +114,7 @@ namespace {
       .def(
         "get_full_cells",
         [get_cells](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_full_cells(target_cell_ids, cell_ids);
           };
@@ -126,7 +126,7 @@ namespace {
       .def(
         "get_empty_cells",
         [get_cells](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_empty_cells(target_cell_ids, cell_ids);
           };
@@ -138,7 +138,7 @@ namespace {
       .def(
         "get_cut_cells",
         [get_cells](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_cut_cells(target_cell_ids, cell_ids);
           };
@@ -150,8 +150,8 @@ namespace {
       .def(
         "get_empty_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -168,8 +168,8 @@ namespace {
       .def(
         "get_full_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -186,8 +186,8 @@ namespace {
       .def(
         "get_cut_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -204,8 +204,8 @@ namespace {
       .def(
         "get_unf_bdry_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -222,8 +222,8 @@ namespace {
       .def(
         "get_full_unf_bdry_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -273,7 +273,7 @@ namespace {
       nb::arg("impl_func"),
       nb::arg("grid"));
 
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_unfitted_impl_domain",
-- 
2.43.0


From 11c40990d332a49ed3be6a0b2ddba136c6273151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:47 +0000
Subject: [PATCH 48/59] fix: request contiguous breaks of a Cartesian grid

---
 python/nanobind_wrappers/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/nanobind_wrappers/common.cpp b/python/nanobind_wrappers/common.cpp
index e87556c..ad6a4e6 100644
--- a/python/nanobind_wrappers/common.cpp
+++ b/python/nanobind_wrappers/common.cpp
@@ -118,7 +118,7 @@ namespace {
   template<int dim> void declare_cartesian_grid_tp(nb::module_ &module)
   {
     using Grid = CartGridTP<dim>;
-    using BreaksArray = nb::ndarray<const real, nb::numpy, nb::shape<-1>>;
+    using BreaksArray = nb::ndarray<const real, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     const std::string pyclass_name{ std::string("CartGridTP_") + std::to_string(dim) + "D" };
     // NOLINTNEXTLINE (bugprone-unused-raii)
-- 
2.43.0


From 78c74ffce33e3d240be1134c66aa298e1ecc041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:30 +0000
Subject: [PATCH 49/59] fix: boxes with an affine transformation are made by
 create_square

---
 python/qugar/impl/impl_function.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index fffd00c..6d952b9 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -565,10 +565,7 @@ def create_box(
             "Non-matching affine transformation and dimension"
         )
 
-        if dim == 2:
-            cpp_obj = qugar.cpp.create_square_2D(affine_trans)
-        else:
-            cpp_obj = qugar.cpp.create_square_3D(affine_trans)
+        cpp_obj = qugar.cpp.create_square(affine_trans)
 
     return ImplicitFunc(cpp_obj)
 
-- 
2.43.0


From 731796dbfbb45de76db79b56689627543e7edb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 50/59] fix: match cells and facets with the PyVista grid by
 their original ids

---
 python/qugar/plot/pyvista_tools.py | 42 +++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/python/qugar/plot/pyvista_tools.py b/python/qugar/plot/pyvista_tools.py
index 39ce782..df3090f 100644
--- a/python/qugar/plot/pyvista_tools.py
+++ b/python/qugar/plot/pyvista_tools.py
@@ -527,8 +527,10 @@ def unfitted_domain_facets_to_PyVista(
 
     grid = unfitted_domain_to_PyVista(domain, cut=True, full=True, empty=True)
     n_cells = grid.n_cells
+    lex_cell_ids = np.array(grid.cell_data["Lexicographical cell ids"])
 
-    dim = domain.tdim
+    is_cpp = isinstance(domain, (UnfittedDomain_2D, UnfittedDomain_3D))
+    dim = domain.dim if is_cpp else domain.tdim
     assert 2 <= dim <= 3, "Invalid dimension."
 
     grid = cast(pv.DataSet, grid.explode(factor=0.0))
@@ -555,9 +557,16 @@ def unfitted_domain_facets_to_PyVista(
     if empty:
         facets[2] = domain.get_empty_facets()
 
-    for status, lex_cells_facets in facets.items():
-        vtk_facets = vtk_lex_mask[lex_cells_facets.local_facet_ids]
-        vtk_cells = lex_cells_facets.cell_ids * n_facets_per_cell + vtk_facets
+    for status, cells_facets in facets.items():
+        if is_cpp:
+            lex_cells, lex_local_facets = cells_facets
+        else:
+            cells_facets = cells_facets.to_original(domain.mesh)
+            lex_cells, lex_local_facets = cells_facets.cell_ids, cells_facets.local_facet_ids
+        vtk_facets = vtk_lex_mask[lex_local_facets]
+        # The cells of the grid are sorted, but inactive cells may be missing.
+        grid_cells = np.searchsorted(lex_cell_ids, lex_cells)
+        vtk_cells = grid_cells * n_facets_per_cell + vtk_facets
         grid.cell_data["Facet status (0: full, 1: cut, 2: empty)"][vtk_cells] = status
         active_facets = np.append(active_facets, vtk_cells)
 
@@ -569,8 +578,6 @@ def unfitted_domain_facets_to_PyVista(
     lex_facets = lex_vtk_mask[vtk_facets]
     facets_grid.cell_data["Lexicographical local facets ids"] = lex_facets
 
-    is_cpp = isinstance(domain, (UnfittedDomain_2D, UnfittedDomain_3D))
-
     if not is_cpp:
         _append_DOLFINx_facets_ids(facets_grid, dim)
 
@@ -603,25 +610,34 @@ def unfitted_domain_to_PyVista(
 
     if is_cpp:
         grid = cart_grid_tp_to_PyVista(domain.grid)
-        n_cells = domain.num_total_cells
     else:
         assert has_FEniCSx, "FEniCSx is required to convert a TensorProductMesh to PyVista."
         from qugar.mesh import UnfittedDomain
 
         assert isinstance(domain, UnfittedDomain), "Invalid type."
 
-        n_cells = domain.mesh.num_global_cells
-
         grid = grid_tp_to_PyVista(domain.mesh)
 
+    n_cells = grid.n_cells
     value = np.full(n_cells, empty, dtype=bool)
     status = np.full(n_cells, 2, dtype=np.uint8)
+
     cut_cells = domain.get_cut_cells()
     full_cells = domain.get_full_cells()
-    value[cut_cells] = cut
-    status[cut_cells] = 1
-    value[full_cells] = full
-    status[full_cells] = 0
+    if not is_cpp:
+        # The cells of the grid follow the original (lexicographical) ordering.
+        cut_cells = domain.mesh.get_original_cell_ids(cut_cells)
+        full_cells = domain.mesh.get_original_cell_ids(full_cells)
+
+    lex_cell_ids = grid.cell_data["Lexicographical cell ids"]
+    is_cut = np.isin(lex_cell_ids, cut_cells)
+    is_full = np.isin(lex_cell_ids, full_cells)
+
+    value[is_cut] = cut
+    status[is_cut] = 1
+
+    value[is_full] = full
+    status[is_full] = 0
 
     grid.cell_data["value"] = value
     grid.cell_data["Cell status (0: full, 1: cut, 2: empty)"] = status
-- 
2.43.0


From e2c752c41d1616083841fba099463b6bc06bea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 51/59] fix: restore the handlers of the root logger when the
 compilation of a form fails

---
 python/qugar/dolfinx/jit.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index abeb484..583a4b9 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -174,8 +174,13 @@ def _compile_objects(
     # since CFFI logs into root logger
     old_handlers = root_logger.handlers.copy()
     root_logger.handlers = [logging.StreamHandler(f)]
-    with redirect_stdout(f), _deduped_ldshared():
-        ffibuilder.compile(tmpdir=cache_dir, verbose=True, debug=cffi_debug)
+    try:
+        with redirect_stdout(f), _deduped_ldshared():
+            ffibuilder.compile(tmpdir=cache_dir, verbose=True, debug=cffi_debug)
+    finally:
+        # Copy back the original handlers (in case someone is logging into
+        # root logger and has custom handlers)
+        root_logger.handlers = old_handlers
     s = f.getvalue()
     if cffi_verbose:
         print(s)
@@ -189,10 +194,6 @@ def _compile_objects(
     fd.write(s)
     fd.close()
 
-    # Copy back the original handlers (in case someone is logging into
-    # root logger and has custom handlers)
-    root_logger.handlers = old_handlers
-
     return code_body, itg_data
 
 
-- 
2.43.0


From b7e0526d3b78c6b1553801a1320276355a85faf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 52/59] fix: build the basix shim before loading a cached
 module linked against it

---
 python/qugar/dolfinx/jit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index 583a4b9..2b5cb7a 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -247,6 +247,9 @@ def compile_forms(
 
     if cache_dir is not None:
         cache_dir = Path(cache_dir)
+        # A cached module is linked against the shim, that must exist
+        # before the module is loaded.
+        _ensure_shim_built()
         obj, mod = get_cached_module(module_name, form_names, cache_dir, timeout)
         if obj is not None:
             # Calling compile_ufl_objects, even if result is cached, to
-- 
2.43.0


From 1ee7ebfdf99fe8e1ed0f7e1e326f2acfe5cd6276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 53/59] fix: update the coefficients of every form of a list
 with its own old ones

---
 python/qugar/dolfinx/petsc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/qugar/dolfinx/petsc.py b/python/qugar/dolfinx/petsc.py
index 93863a5..9596094 100644
--- a/python/qugar/dolfinx/petsc.py
+++ b/python/qugar/dolfinx/petsc.py
@@ -95,20 +95,21 @@ def _update_coefficients(
             The packed coefficients.
     """  # noqa: E501
 
-    def _update(form):
+    def _update(form, old_coeffs):
         if isinstance(form, CustomForm):
             return form.update_coefficients(old_coeffs)
         else:
             return list(
                 map(
-                    lambda sub_form: typing.cast(
-                        dict[tuple[IntegralType, int], npt.NDArray], _update(sub_form)
+                    lambda sub_form, sub_coeffs: typing.cast(
+                        dict[tuple[IntegralType, int], npt.NDArray], _update(sub_form, sub_coeffs)
                     ),
                     form,
+                    old_coeffs,
                 )
             )
 
-    return _update(form)
+    return _update(form, old_coeffs)
 
 
 class LinearProblem(dolfinx.fem.petsc.LinearProblem):
-- 
2.43.0


From 0645c5c54418e7d35c41047073312e3cb55558f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 54/59] fix: compare the minor and revision numbers only for
 equal major ones

---
 python/qugar/utils.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/python/qugar/utils.py b/python/qugar/utils.py
index 64b899b..e8dbeea 100644
--- a/python/qugar/utils.py
+++ b/python/qugar/utils.py
@@ -105,12 +105,7 @@ def _compare_version_le(version_lhs: str, version_rhs: str) -> bool:
     lhs = _extract_version(version_lhs)
     rhs = _extract_version(version_rhs)
 
-    if lhs[0] > rhs[0]:
-        return False
-    elif lhs[1] > rhs[1]:
-        return False
-    else:
-        return lhs[2] <= rhs[2]
+    return lhs <= rhs
 
 
 def check_version_in_range(version, lower, upper) -> bool:
-- 
2.43.0


From ce4eae3e73557c293f5ccbf3fcb32af8897bf771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 55/59] fix: accept post-releases and local builds when
 checking versions

---
 python/qugar/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/qugar/utils.py b/python/qugar/utils.py
index e8dbeea..a0b6e88 100644
--- a/python/qugar/utils.py
+++ b/python/qugar/utils.py
@@ -9,6 +9,7 @@
 # --------------------------------------------------------------------------
 
 import importlib.util
+import re
 from typing import Tuple, cast
 
 DOLFINX_VERSION_MIN = "0.10.0"
@@ -54,19 +55,18 @@ The imported UFL version must be smaller than this version.
 
 def _extract_version(version_str: str) -> Tuple[int, int, int]:
     """Extracts the major, minor, and revision numbers of a string with
-    with format "X.Y.Z".
+    with format "X.Y.Z", possibly followed by a suffix (".post1", "rc1", "+local").
 
     Args:
-        version_str (str): Version sring with format "X.Y.Z".
+        version_str (str): Version sring with format "X.Y.Z" and an optional suffix.
 
     Returns:
         Tuple[int,int,int]: Major, minor, and revision numbers (i.e.,
         X, Y, and Z).
     """
-    vals = tuple(int(val) for val in version_str.split("."))
-    vals = cast(Tuple[int, int, int], vals)
-    assert len(vals) == 3
-    return vals
+    match = re.match(r"(\d+)\.(\d+)\.(\d+)", version_str)
+    assert match is not None
+    return cast(Tuple[int, int, int], tuple(int(val) for val in match.groups()))
 
 
 def _compare_version_lt(version_lhs: str, version_rhs: str) -> bool:
-- 
2.43.0


From ee68d87411c709368c9574b40e8a1ead5fd15c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:47 +0000
Subject: [PATCH 56/59] fix: compute the total size of a tensor in 64 bits

---
 cpp/include/qugar/tensor_index_tp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/include/qugar/tensor_index_tp.hpp b/cpp/include/qugar/tensor_index_tp.hpp
index b068361..56c2792 100644
--- a/cpp/include/qugar/tensor_index_tp.hpp
+++ b/cpp/include/qugar/tensor_index_tp.hpp
@@ -137,7 +137,10 @@ public:
     requires(aux_dim == dim && dim > 0)
   TensorIndexTP(std::int64_t flat_index, const TensorIndexTP<dim> &size)
   {
-    auto total_size = static_cast<std::int64_t>(prod(size.as_Vector()));
+    std::int64_t total_size{ 1 };
+    for (int dir = 0; dir < dim; ++dir) {
+      total_size *= static_cast<std::int64_t>(size(dir));
+    }
 
     // NOLINTNEXTLINE (readability-simplify-boolean-expr)
     assert(0 <= flat_index && flat_index < total_size);
-- 
2.43.0


From c76a45657ac5f18352205ce7e5331de86e1e9952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:04 +0000
Subject: [PATCH 57/59] fix: do not iterate tensor index ranges that are empty
 along a direction

---
 cpp/qugar/tensor_index_tp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/qugar/tensor_index_tp.cpp b/cpp/qugar/tensor_index_tp.cpp
index a14a25c..ac16cc8 100644
--- a/cpp/qugar/tensor_index_tp.cpp
+++ b/cpp/qugar/tensor_index_tp.cpp
@@ -209,6 +209,9 @@ template<int dim> std::size_t TensorIndexRangeTP<dim>::size() const
 
 template<int dim> auto TensorIndexRangeTP<dim>::cbegin() const -> Iterator
 {
+  if (this->size() == 0) {
+    return this->cend();
+  }
   return Iterator(this->lower_bound_, this->lower_bound_, this->upper_bound_);
 }
 
-- 
2.43.0


From 58510da47a61df42ff6ec8aff26109dc71691255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:17 +0000
Subject: [PATCH 58/59] fix: check only the conditions that are set when the
 subdivision stops

---
 cpp/qugar/impl_reparam_general.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_reparam_general.cpp b/cpp/qugar/impl_reparam_general.cpp
index 281a032..0481285 100644
--- a/cpp/qugar/impl_reparam_general.cpp
+++ b/cpp/qugar/impl_reparam_general.cpp
@@ -780,7 +780,7 @@ template<int dim, int range, typename R, bool S, bool T = true> struct ImplicitG
           // the centre of box and check compatibility with signs.
           Vector<real, range> xpoint = this->xrange_.midpoint();
           bool okay = true;
-          for (int j = 0; j < n_facets && okay; ++j) {
+          for (int j = 0; j < this->psi_count_ && okay; ++j) {
             for (int dir = 0; dir < range; ++dir) {
               if (!this->free_(dir)) {
                 xpoint(dir) = this->xrange_.side(this->psi_(j).side(dir))(dir);
-- 
2.43.0


From fa68cdaffccc23d4e86d49c0377a5ff8cb73883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:43 +0000
Subject: [PATCH 59/59] fix: no reparameterization where a polynomial is
 positive on the whole box

---
 cpp/qugar/impl_reparam_bezier.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_reparam_bezier.cpp b/cpp/qugar/impl_reparam_bezier.cpp
index 117dcc7..79ab2ed 100644
--- a/cpp/qugar/impl_reparam_bezier.cpp
+++ b/cpp/qugar/impl_reparam_bezier.cpp
@@ -724,8 +724,7 @@ namespace {
         const auto mask = alg::detail::nonzeroMask(xarray, alg::booluarray<range, ALGOIM_M>(true));
         if (alg::detail::maskEmpty(mask)) {
           if (0.0 < alg::bernstein::evalBernsteinPoly<range>(xarray, Point<range>(numbers::half))) {
-            quad = std::make_shared<ImplicitPolyReparam<range, range, S>>(order, reparam);// Inactive domain.
-            break;
+            return std::make_shared<ImplicitPolyReparam<range, range, S>>(order, reparam);// Inactive domain.
           }
         } else {
           quad->phi_.push_back(xarray, mask);
-- 
2.43.0

