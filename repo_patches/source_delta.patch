From e63f30d892b0f9454905f85a60b5ba2d438b9b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:50 +0000
Subject: [PATCH 01/31] fix: mat_times_transposed_mat computes A B^T

---
 include/HyperHDG/dense_la.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index 862a8a8..1fd453f 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -741,11 +741,11 @@ SmallMat<n_rowsA, n_rowsB, mat_entry_t> mat_times_transposed_mat(
   const SmallMat<n_rowsA, n_colsA, mat_entry_t>& A,
   const SmallMat<n_rowsB, n_colsA, mat_entry_t>& B)
 {
-  SmallMat<n_colsA, n_rowsB, mat_entry_t> result;
+  SmallMat<n_rowsA, n_rowsB, mat_entry_t> result;
   for (unsigned int rowB = 0; rowB < n_rowsB; ++rowB)
     for (unsigned int colA = 0; colA < n_colsA; ++colA)
       for (unsigned int rowA = 0; rowA < n_rowsA; ++rowA)
-        result(colA, rowB) += A(rowA, colA) * B(rowB, rowA);
+        result(rowA, rowB) += A(rowA, colA) * B(rowB, colA);
   return result;
 }
 
-- 
2.43.0


From ce374ec34fb13c3ce3778108ad1e423732eb9e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:20 +0000
Subject: [PATCH 02/31] fix: zero the strict lower triangle of the reduced R
 with its own leading dimension

---
 include/HyperHDG/wrapper/lapack.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 2703052..8102435 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -547,7 +547,7 @@ inline void get_r_from_lapack_qr_result(
   for (unsigned int i = 0; i < n_cols; ++i)    // i is column index, here!
     for (unsigned int j = 0; j < n_cols; ++j)  // j is row index, here!
       if (j > i)
-        mat_r[i * n_rows + j] = 0.;
+        mat_r[i * n_cols + j] = 0.;
       else
         mat_r[i * n_cols + j] = lapack_mat[i * n_rows + j];
 }
-- 
2.43.0


From 491084afbc4946529927d72e47fee08417bc8518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:20 +0000
Subject: [PATCH 03/31] fix: lapack_qr_decomp_r instantiates an existing
 function template

---
 include/HyperHDG/wrapper/lapack.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 8102435..9848d70 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -586,7 +586,7 @@ std::array<lapack_float_t, n_rows * n_cols>& lapack_qr_decomp_r(
   constexpr unsigned int rank = std::min(n_rows, n_cols);
   std::array<lapack_float_t, rank> tau;
   lapack_qr(n_rows, n_cols, dense_mat.data(), tau.data());
-  return get_r_from_lapack_qr_result<n_rows, n_cols, rank, lapack_float_t>(dense_mat);
+  return get_r_from_lapack_qr_result<n_rows, n_cols, lapack_float_t>(dense_mat);
 }
 
 // -------------------------------------------------------------------------------------------------
-- 
2.43.0


From 33dc31e7fb398b72a1fc543f2a35fbed11d522d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:20 +0000
Subject: [PATCH 04/31] fix: sign of the determinant when a Householder
 reflector is the identity

---
 include/HyperHDG/dense_la.hxx       | 8 ++++----
 include/HyperHDG/wrapper/lapack.hxx | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index 1fd453f..335344d 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -1137,8 +1137,8 @@ void qr_decomp(const SmallMat<n_rows, n_cols, mat_entry_t>& mat,
  *
  * Calculate the generalized determinant of a rectangular matrix. If the matrix is square, this is
  * the standard determinant. The determinant is determined by doing a QR decomposition based on
- * Householder transformations. Thus det(Q) = +1, if the number of rows if even and det(Q) = -1, if
- * the number of rows is odd. This number is multiplied by the diagonal entries of R.
+ * Householder transformations. Thus det(Q) = +1, if the number of reflections is even and
+ * det(Q) = -1, if it is odd. This number is multiplied by the diagonal entries of R.
  *
  * The matrix is destroyed using this function. Its entries might be used to generate matrices Q and
  * R of the QR descomposition.
@@ -1153,8 +1153,8 @@ mat_entry_t determinant(SmallMat<n_rows, n_cols, mat_entry_t>& mat)
  *
  * Calculate the generalized determinant of a rectangular matrix. If the matrix is square, this is
  * the standard determinant. The determinant is determined by doing a QR decomposition based on
- * Householder transformations. Thus det(Q) = +1, if the number of rows if even and det(Q) = -1, if
- * the number of rows is odd. This number is multiplied by the diagonal entries of R.
+ * Householder transformations. Thus det(Q) = +1, if the number of reflections is even and
+ * det(Q) = -1, if it is odd. This number is multiplied by the diagonal entries of R.
  **************************************************************************************************/
 template <unsigned int n_rows, unsigned int n_cols, typename mat_entry_t>
 mat_entry_t determinant(const SmallMat<n_rows, n_cols, mat_entry_t>& mat)
diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 9848d70..301d47e 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -65,8 +65,8 @@ std::array<lapack_float_t, system_size * n_rhs_cols> lapack_solve(
  *
  * Calculate the generalized determinant of a rectangular matrix. If the matrix is square, this is
  * the standard determinant. The determinant is determined by doing a QR decomposition based on
- * Householder transformations. Thus det(Q) = +1, if the number of rows if even and det(Q) = -1, if
- * the number of rows is odd. This number is multiplied by the diagonal entries of R.
+ * Householder transformations. Thus det(Q) = +1, if the number of reflections (i.e., of non-zero
+ * tau) is even and det(Q) = -1, if it is odd. This number is multiplied by the diagonal entries of R.
  *
  * The matrix is destroyed using this function. Its entries might be used to generate matrices Q and
  * R of the QR descomposition.
@@ -399,7 +399,7 @@ lapack_float_t lapack_det(std::array<lapack_float_t, n_rows * n_cols>& dense_mat
 
   lapack_float_t determinant = 1.;
   for (unsigned int i = 0; i < rank; ++i)
-    determinant *= -dense_mat[i * (n_rows + 1)];
+    determinant *= (tau[i] == 0. ? 1. : -1.) * dense_mat[i * (n_rows + 1)];
   return determinant;
 }
 
-- 
2.43.0


From cdd3bdda55e8832e88cce7912fffdb366a03d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:42 +0000
Subject: [PATCH 05/31] fix: qr_decomp yields det(Q) = +1 and returns R in its
 first argument

---
 include/HyperHDG/dense_la.hxx       | 10 +++++++---
 include/HyperHDG/wrapper/lapack.hxx | 19 +++++++++++++------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index 335344d..6dce209 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -1067,12 +1067,13 @@ void qr_decomp(SmallMat<n_rows, n_cols, mat_entry_t>& mat,
                SmallSquareMat<n_cols, mat_entry_t>& mat_r)
 {
   static_assert(n_cols <= n_rows, "Function only defined for these matrices!");
-  Wrapper::lapack_qr_decomp<n_rows, n_cols, mat_entry_t>(mat.data(), mat_q.data(), mat_r.data());
+  const mat_entry_t det_q =
+    Wrapper::lapack_qr_decomp<n_rows, n_cols, mat_entry_t>(mat.data(), mat_q.data(), mat_r.data());
   SmallVec<n_rows, mat_entry_t> factors(1.);
   bool switch_necessary = false;
 
-  // Q should have determinant = +1 and not -1 (as it has for odd dimensions)!
-  if (n_rows % 2 == 1)
+  // Q should have determinant = +1 and not -1 (as it has for an odd number of reflections)!
+  if (det_q < 0.)
   {
     if (n_cols == n_rows)
       factors[0] *= -1.;
@@ -1104,7 +1105,10 @@ void qr_decomp(SmallMat<n_rows, n_cols, mat_entry_t>& mat,
   for (unsigned int i = 0; i < n_cols; ++i)
     if (factors[i] < 0.)
       for (unsigned int j = 0; j < n_cols; ++j)
+      {
         mat_r(i, j) *= factors[i];
+        mat(i, j) *= factors[i];
+      }
 }
 /*!*************************************************************************************************
  * \brief   Normalized QR decomposition.
diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 301d47e..44b0744 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -145,11 +145,12 @@ void lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
  * \retval  dense_mat   Matrix R of Householder QR decomposition.
  * \retval  mat_q       Matrix Q of Householder QR decomposition.
  * \retval  mat_r       Square system of size n_cols that contains respective part of R.
+ * \retval  det_q       Determinant of matrix Q, i.e., +1 or -1.
  **************************************************************************************************/
 template <unsigned int n_rows, unsigned int n_cols, typename lapack_float_t>
-void lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
-                      std::array<lapack_float_t, n_rows * n_rows>& mat_q,
-                      std::array<lapack_float_t, n_cols * n_cols>& mat_r);
+lapack_float_t lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
+                                std::array<lapack_float_t, n_rows * n_rows>& mat_q,
+                                std::array<lapack_float_t, n_cols * n_cols>& mat_r);
 
 // -------------------------------------------------------------------------------------------------
 /// \cond EXCLUDE_CODE
@@ -610,9 +611,9 @@ void lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
 // -------------------------------------------------------------------------------------------------
 
 template <unsigned int n_rows, unsigned int n_cols, typename lapack_float_t>
-void lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
-                      std::array<lapack_float_t, n_rows * n_rows>& mat_q,
-                      std::array<lapack_float_t, n_cols * n_cols>& mat_r)
+lapack_float_t lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
+                                std::array<lapack_float_t, n_rows * n_rows>& mat_q,
+                                std::array<lapack_float_t, n_cols * n_cols>& mat_r)
 {
   constexpr unsigned int rank = std::min(n_rows, n_cols);
   std::array<lapack_float_t, rank> tau;
@@ -621,6 +622,12 @@ void lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
   get_q_from_lapack_qr_result<n_rows, n_cols, rank, lapack_float_t>(dense_mat, tau, mat_q);
   get_r_from_lapack_qr_result<n_rows, n_cols, lapack_float_t>(dense_mat, mat_r);
   get_r_from_lapack_qr_result<n_rows, n_cols, lapack_float_t>(dense_mat);
+
+  lapack_float_t det_q = 1.;
+  for (unsigned int i = 0; i < rank; ++i)
+    if (tau[i] != 0.)
+      det_q *= -1.;
+  return det_q;
 }
 
 }  // end of namespace Wrapper
-- 
2.43.0


From c7364efc6f78e7d347d4b2624e598d83c5b21479 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 06:24:14 +0000
Subject: [PATCH 06/31] fix: set_dof_values with a single value is not
 ambiguous

---
 include/HyperHDG/hypernodefactory.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/HyperHDG/hypernodefactory.hxx b/include/HyperHDG/hypernodefactory.hxx
index 0480482..6393d38 100644
--- a/include/HyperHDG/hypernodefactory.hxx
+++ b/include/HyperHDG/hypernodefactory.hxx
@@ -229,6 +229,7 @@ class HyperNodeFactory
   LargeVecT& set_dof_values(const hyNode_index_t hyNode_index,
                             LargeVecT& global_dof_vector,
                             const SmallVecT& local_dof_vector) const
+    requires(!std::is_arithmetic_v<SmallVecT>)
   {
     static_assert(
       std::is_same<typename SmallVecT::value_type, typename LargeVecT::value_type>::value,
-- 
2.43.0


From c0ed731433779a1bc0ad87f9df30713184e4ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 06:28:09 +0000
Subject: [PATCH 07/31] fix: check_consistency reports inconsistent domains in
 release mode, too

---
 include/HyperHDG/read_domain.hxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/HyperHDG/read_domain.hxx b/include/HyperHDG/read_domain.hxx
index 341f317..c6fc9db 100644
--- a/include/HyperHDG/read_domain.hxx
+++ b/include/HyperHDG/read_domain.hxx
@@ -115,10 +115,11 @@ struct DomainInfo
     std::for_each(hyNodes_hyEdge.begin(), hyNodes_hyEdge.end(),
                   [&](std::array<hyNode_index_t, 2 * hyEdge_dim> hyEdge)
                   {
-                    hy_assert(is_unique(hyEdge), "Duplicate points in hyperedge.");
+                    consistent = consistent && is_unique(hyEdge);
+                    hy_assert(consistent, "Duplicate points in hyperedge.");
                     for (unsigned int i = 0; i < hyEdge.size(); ++i)
                     {
-                      consistent = (hyEdge[i] < n_hyNodes && hyEdge[i] >= 0);
+                      consistent = consistent && (hyEdge[i] < n_hyNodes && hyEdge[i] >= 0);
                       hy_assert(consistent, "At least one hypernode index is invalid!");
                     }
                   });
@@ -126,13 +127,16 @@ struct DomainInfo
     std::for_each(points_hyEdge.begin(), points_hyEdge.end(),
                   [&](std::array<pt_index_t, 1 << hyEdge_dim> hyEdge)
                   {
-                    hy_assert(is_unique(hyEdge), "Duplicate points in hyperedge.");
+                    consistent = consistent && is_unique(hyEdge);
+                    hy_assert(consistent, "Duplicate points in hyperedge.");
                     for (unsigned int i = 0; i < hyEdge.size(); ++i)
                     {
-                      consistent = (hyEdge[i] < n_points && hyEdge[i] >= 0);
+                      consistent = consistent && (hyEdge[i] < n_points && hyEdge[i] >= 0);
                       hy_assert(consistent, "At least one point index is invalid!");
                     }
                   });
+    if (!consistent)
+      return false;
 
     consistent = is_unique(points);
     hy_assert(consistent, "DomainInfo.points contains duplicate points!");
-- 
2.43.0


From bcab06dfef7ba6267e0a8f0ef2846ec89e0e0862 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 06:34:58 +0000
Subject: [PATCH 08/31] fix: a point file without points is rejected

---
 include/HyperHDG/epsilon_neighborhood_graph.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/HyperHDG/epsilon_neighborhood_graph.hxx b/include/HyperHDG/epsilon_neighborhood_graph.hxx
index be6b2f0..8c2335f 100644
--- a/include/HyperHDG/epsilon_neighborhood_graph.hxx
+++ b/include/HyperHDG/epsilon_neighborhood_graph.hxx
@@ -89,6 +89,7 @@ void make_epsilon_neighborhood_graph(std::string& filename)
     points.push_back(pt);
   }
 
+  hy_assert(!points.empty(), "There must be at least one point in the file " << filename << "!");
   std::sort(points.begin(), points.end());
   hy_assert(std::adjacent_find(points.begin(), points.end()) == points.end(),
             "Points must be unique in given file!");
-- 
2.43.0


From 32616c071a61eee4a8c4a77174840433a972d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 06:34:58 +0000
Subject: [PATCH 09/31] fix: epsilon neighborhood graphs keep all digits of the
 points' coordinates

---
 include/HyperHDG/epsilon_neighborhood_graph.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/HyperHDG/epsilon_neighborhood_graph.hxx b/include/HyperHDG/epsilon_neighborhood_graph.hxx
index 8c2335f..e4e160c 100644
--- a/include/HyperHDG/epsilon_neighborhood_graph.hxx
+++ b/include/HyperHDG/epsilon_neighborhood_graph.hxx
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <deque>
 #include <fstream>
+#include <limits>
 #include <sstream>
 #include <string>
 
@@ -129,6 +130,7 @@ void make_epsilon_neighborhood_graph(std::string& filename)
   infile.close();
   filename = filename + ".geo";
   std::ofstream outfile(filename);
+  outfile.precision(std::numeric_limits<float_t>::max_digits10);
 
   outfile << "Space_Dim     = " << dim << ";" << std::endl;
   outfile << "HyperEdge_Dim = 1;" << std::endl << std::endl;
-- 
2.43.0


From 9b830a85e0b327e163cf956336e2173495be19f2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 07:22:54 +0000
Subject: [PATCH 10/31] fix: initial time of the parabolic loop is a floating
 point number

---
 include/HyperHDG/global_loop/parabolic.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/global_loop/parabolic.hxx b/include/HyperHDG/global_loop/parabolic.hxx
index 0c714c9..87405ea 100644
--- a/include/HyperHDG/global_loop/parabolic.hxx
+++ b/include/HyperHDG/global_loop/parabolic.hxx
@@ -345,7 +345,7 @@ class Parabolic
    * \retval  y_vec         A vector containing the initial fluxes.
    ************************************************************************************************/
   template <typename hyNode_index_t = dof_index_t>
-  LargeVecT make_initial(const LargeVecT& x_vec, const dof_index_t time = 0.)
+  LargeVecT make_initial(const LargeVecT& x_vec, const dof_value_t time = 0.)
   {
     constexpr unsigned int hyEdge_dim = TopologyT::hyEdge_dim();
     constexpr unsigned int n_dofs_per_node = LocalSolverT::n_glob_dofs_per_node();
-- 
2.43.0


From 979beea97cf7d664d27be54f86dab898fb82d77f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 07:22:54 +0000
Subject: [PATCH 11/31] fix: rows of Dirichlet type in the matrix of the
 elliptic loop

---
 include/HyperHDG/global_loop/elliptic.hxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/HyperHDG/global_loop/elliptic.hxx b/include/HyperHDG/global_loop/elliptic.hxx
index cee6c89..5073580 100644
--- a/include/HyperHDG/global_loop/elliptic.hxx
+++ b/include/HyperHDG/global_loop/elliptic.hxx
@@ -231,7 +231,14 @@ class Elliptic
   template <typename hyNode_index_t = dof_index_t>
   sparse_mat<LargeVecT> trace_to_flux_mat(const dof_value_t time = 0.)
   {
-    return prototype_mat_generate(trace_to_flux, has_trace_to_flux);
+    auto mat = prototype_mat_generate(trace_to_flux, has_trace_to_flux);
+
+    // Set all Dirichlet values to zero, cf. trace_to_flux.
+    for (unsigned int i = 0; i < mat.row_vec.size(); ++i)
+      if (std::binary_search(dirichlet_indices_.begin(), dirichlet_indices_.end(), mat.row_vec[i]))
+        mat.value_vec[i] = 0.;
+
+    return mat;
   }
 
   /*!***********************************************************************************************
-- 
2.43.0


From 9ed220d81dd58212273871e0a835172e340ff2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 07:23:51 +0000
Subject: [PATCH 12/31] fix: Dirichlet indices of eigenvalue loops do not
 contain those of previous calls

---
 include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx     | 1 +
 include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx b/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
index 84ed712..83d5d0b 100644
--- a/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
+++ b/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
@@ -145,6 +145,7 @@ class MassApproxEigenvalue
     SmallVec<2 * hyEdge_dim, hyNode_index_t> hyEdge_hyNodes;
     std::array<unsigned int, 2 * hyEdge_dim> hyNode_types;
 
+    dirichlet_indices_.clear();
     std::for_each(hyper_graph_.begin(), hyper_graph_.end(),
                   [&](auto hyper_edge)
                   {
diff --git a/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx b/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
index d88558f..6265bc2 100644
--- a/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
+++ b/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
@@ -141,6 +141,7 @@ class ShiftedInverseEigenvalue
     SmallVec<2 * hyEdge_dim, hyNode_index_t> hyEdge_hyNodes;
     std::array<unsigned int, 2 * hyEdge_dim> hyNode_types;
 
+    dirichlet_indices_.clear();
     std::for_each(hyper_graph_.begin(), hyper_graph_.end(),
                   [&](auto hyper_edge)
                   {
-- 
2.43.0


From 0af1306bd1612f6811f8d148afa8ae64e71b2c33 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 07:55:43 +0000
Subject: [PATCH 13/31] fix: set_plot_option returns the file ending and not
 the number of its type

---
 include/HyperHDG/plot.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index 60ef102..92ecdaf 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -116,6 +116,11 @@ struct PlotOptions
   bool numbers = false;
 };  // end of class PlotOptions
 
+namespace PlotFunctions
+{
+std::string fileType_to_string(const PlotOptions::fileType& type);
+}  // end of namespace PlotFunctions
+
 /*!*************************************************************************************************
  * \brief Set a plot option and return the new value of this option as std::string.
  **************************************************************************************************/
@@ -161,7 +166,7 @@ std::string set_plot_option(PlotOptions& plot_options,
   else if (option == "fileName")
     return_value = plot_options.fileName;
   else if (option == "fileEnding")
-    return_value = plot_options.fileEnding;
+    return_value = PlotFunctions::fileType_to_string(plot_options.fileEnding);
   else if (option == "fileNumber")
     return_value = std::to_string(plot_options.fileNumber);
   else if (option == "printFileNumber")
-- 
2.43.0


From fcfeddb69e88e6603f4a5d5a281698d0dd9cb32a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 07:55:43 +0000
Subject: [PATCH 14/31] fix: values on boundaries are evaluated in the points
 of the boundary

---
 include/HyperHDG/plot.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index 92ecdaf..ba65e46 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -670,7 +670,7 @@ void plot_boundary_values(HyperGraphT& hyper_graph,
     {
       myfile << "      ";
 
-      for (unsigned int lval = 0; lval < local_values.size(); ++lval)
+      for (unsigned int lval = 0; lval < local_values[0].size(); ++lval)
         fancy_recursion<0, LocalSolverT, dof_value_t>(
           local_values, hyEdge_dofs,
           Hypercube<hyEdge_dim - 1>::template tensorial_pt<Point<hyEdge_dim - 1> >(lval, abscissas),
-- 
2.43.0


From 54a3c582cb32c533a8cc36722e348a07b08b3a8a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 07:55:43 +0000
Subject: [PATCH 15/31] fix: plots of hyperedge boundaries contain all
 components in each of their points

---
 include/HyperHDG/plot.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index ba65e46..1c41531 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -680,10 +680,10 @@ void plot_boundary_values(HyperGraphT& hyper_graph,
         myfile << "  ";
         for (unsigned int d = 0; d < LocalSolverT::node_system_dimension(); ++d)
           myfile << "  " << local_values[d][corner];  // AR: I switched d and corner!?
+        for (unsigned int d = LocalSolverT::node_system_dimension();
+             d < LocalSolverT::system_dimension(); ++d)
+          myfile << "  " << 0;  // AR: I switched d and corner!?
       }
-      for (unsigned int d = LocalSolverT::node_system_dimension();
-           d < LocalSolverT::system_dimension(); ++d)
-        myfile << "  " << 0;  // AR: I switched d and corner!?
       myfile << std::endl;
     }
   }
-- 
2.43.0


From a41a0841f68ddb7eb3544b19669c02a130395a02 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 08:24:50 +0000
Subject: [PATCH 16/31] fix: points of hyperedge boundaries do not depend on
 the number of the boundary

---
 include/HyperHDG/geometry/file.hxx      | 1 -
 include/HyperHDG/geometry/unit_cube.hxx | 1 -
 2 files changed, 2 deletions(-)

diff --git a/include/HyperHDG/geometry/file.hxx b/include/HyperHDG/geometry/file.hxx
index a4731e0..a198112 100644
--- a/include/HyperHDG/geometry/file.hxx
+++ b/include/HyperHDG/geometry/file.hxx
@@ -266,7 +266,6 @@ class File
       hy_assert(index < std::pow(n_sub_points, hyEdge_dimT - 1) * hyEdge_dimT * 2,
                 "The index must not exceed the number of prescribed lexicographic points.");
       Point<hyEdge_dimT - 1, pt_coord_t> subpt;
-      index = index - std::pow(n_sub_points, hyEdge_dimT - 1) * boundary_number;
       for (unsigned int subdim = 0; subdim < hyEdge_dimT - 1; ++subdim)
       {
         subpt[subdim] = (pt_coord_t)points_1d[index % n_sub_points];
diff --git a/include/HyperHDG/geometry/unit_cube.hxx b/include/HyperHDG/geometry/unit_cube.hxx
index bc407cf..ab7896c 100644
--- a/include/HyperHDG/geometry/unit_cube.hxx
+++ b/include/HyperHDG/geometry/unit_cube.hxx
@@ -360,7 +360,6 @@ class UnitCube
       hy_assert(index < std::pow(n_sub_points, hyEdge_dimT - 1) * hyEdge_dimT * 2,
                 "The index must not exceed the number of prescribed lexicographic points.");
       Point<hyEdge_dimT - 1, pt_coord_t> subpt;
-      index = index - std::pow(n_sub_points, hyEdge_dimT - 1) * boundary_number;
       for (unsigned int subdim = 0; subdim < hyEdge_dimT - 1; ++subdim)
       {
         subpt[subdim] = (pt_coord_t)points_1d[index % n_sub_points];
-- 
2.43.0


From 8b52e623fdc879bc7b0f838504163e9c6ab69f4c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 08:50:20 +0000
Subject: [PATCH 17/31] fix: node descriptors of files can be copied

---
 include/HyperHDG/node_descriptor/file.hxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/HyperHDG/node_descriptor/file.hxx b/include/HyperHDG/node_descriptor/file.hxx
index 2a30af3..3f6dd9c 100644
--- a/include/HyperHDG/node_descriptor/file.hxx
+++ b/include/HyperHDG/node_descriptor/file.hxx
@@ -152,12 +152,10 @@ class File
                   hyEdge_index_t,
                   hyNode_index_t,
                   pt_index_t>& other)
-  : domain_info_(other.domain_info),
-    n_subintervals_(1),
-    tpcc_ref_elem_(
-      Wrapper::create_tpcc<hyEdge_dimT, hyEdge_dimT, TPCC::boundaries::both, hyEdge_index_t>(
-        SmallVec<hyEdge_dimT, unsigned int>(n_subintervals_))),
-    n_hyEdges_(domain_info_.n_hyEdges)
+  : domain_info_(other.domain_info_),
+    n_subintervals_(other.n_subintervals_),
+    tpcc_ref_elem_(other.tpcc_ref_elem_),
+    n_hyEdges_(other.n_hyEdges_)
   {
   }
 
-- 
2.43.0


From 3b46b8c2a0fd3e012ce1e0f4025e0b702fd09114 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:43:31 +0000
Subject: [PATCH 18/31] fix: pair fluxes and traces in residual_flux of
 Bilaplacian solvers as in trace_to_flux

---
 include/HyperHDG/local_solver/bilaplacian_ldgh.hxx       | 6 ++++--
 include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
index 92f174e..14898cf 100644
--- a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
@@ -600,8 +600,10 @@ class Bilaplacian
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
       for (unsigned int j = 0; j < lambda_values_out[i].size(); ++j)
-        lambda_values_out[i][j] = duals[i][j] + tau_ * primals[i][j] -
-                                  tau_ * lambda_values_in[i][j] * hyper_edge.geometry.face_area(i);
+        lambda_values_out[i][j] =
+          duals[i][j] + tau_ * primals[i][j] -
+          tau_ * lambda_values_in[i][j < n_shape_bdr_ ? j + n_shape_bdr_ : j - n_shape_bdr_] *
+            hyper_edge.geometry.face_area(i);
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
         for (unsigned int j = 0; j < lambda_values_out[i].size() / 2; ++j)
           lambda_values_out[i][j] = 0.;
diff --git a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
index 9c02638..9c0179f 100644
--- a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
@@ -541,8 +541,10 @@ class BilaplacianParab
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
       for (unsigned int j = 0; j < lambda_values_out[i].size(); ++j)
-        lambda_values_out[i][j] = duals[i][j] + tau_ * primals[i][j] -
-                                  tau_ * lambda_values_in[i][j] * hyper_edge.geometry.face_area(i);
+        lambda_values_out[i][j] =
+          duals[i][j] + tau_ * primals[i][j] -
+          tau_ * lambda_values_in[i][j < n_shape_bdr_ ? j + n_shape_bdr_ : j - n_shape_bdr_] *
+            hyper_edge.geometry.face_area(i);
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
         for (unsigned int j = 0; j < lambda_values_out[i].size() / 2; ++j)
           lambda_values_out[i][j] = 0.;
-- 
2.43.0


From b220799fb7f7628544e8b040c1a42baa0d5b675d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:50:54 +0000
Subject: [PATCH 19/31] fix: errors of eigenvalue solvers hand the eigenvalue
 to the analytic result instead of an undeclared time

---
 include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx | 2 +-
 include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
index ab8b42a..618c673 100644
--- a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
@@ -614,7 +614,7 @@ class BilaplacianEigs
     lSol_float_t result = integrator::template integrate_vol_diffsquare_discana<
       Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
       parameters::analytic_result, Point<hyEdge_dimT, lSol_float_t> >(coeffs, hy_edge.geometry,
-                                                                      time);
+                                                                      eig);
     hy_assert(result >= 0., "The squared error must be non-negative, but was " << result);
     return std::array<lSol_float_t, 1U>({result});
   }
diff --git a/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx b/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx
index 630c3ab..3d77a00 100644
--- a/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx
+++ b/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx
@@ -546,7 +546,7 @@ class DiffusionEigs
     return std::array<lSol_float_t, 1U>({integrator::template integrate_vol_diffsquare_discana<
       Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
       parameters::analytic_result, Point<hyEdge_dimT, lSol_float_t> >(coeffs, hy_edge.geometry,
-                                                                      time)});
+                                                                      eig)});
   }
   /*!***********************************************************************************************
    * \brief   Evaluate local local reconstruction at tensorial products of abscissas.
-- 
2.43.0


From 0fc9c668eba85f618ef2e812e843158351699b9b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 09:55:41 +0000
Subject: [PATCH 20/31] fix: make_initial of BilaplacianParab integrates on the
 face it sets

---
 include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
index 9c0179f..5ad0e2d 100644
--- a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
@@ -602,12 +602,12 @@ class BilaplacianParab
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial, Point<hyEdge_dimT, lSol_float_t>>(
-            i, j, hyper_edge.geometry, time);
+            j, i, hyper_edge.geometry, time);
         for (unsigned int j = lambda_values[i].size() / 2; j < lambda_values[i].size(); ++j)
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial_laplace,
-            Point<hyEdge_dimT, lSol_float_t>>(i, j, hyper_edge.geometry, time);
+            Point<hyEdge_dimT, lSol_float_t>>(j - n_shape_bdr_, i, hyper_edge.geometry, time);
       }
     }
 
-- 
2.43.0


From 6c88d2baa91d445c1e19762b8aade50c54659b7c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 10:04:23 +0000
Subject: [PATCH 21/31] fix: default data of Timoshenko beams belong to
 right-handed frames for all beams

---
 include/HyperHDG/local_solver/timoshenko_network.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/local_solver/timoshenko_network.hxx b/include/HyperHDG/local_solver/timoshenko_network.hxx
index 0695b75..31b69b2 100644
--- a/include/HyperHDG/local_solver/timoshenko_network.hxx
+++ b/include/HyperHDG/local_solver/timoshenko_network.hxx
@@ -44,7 +44,7 @@ struct TimoschenkoBeamParametersDefault
                                          const Point<space_dimT, param_float_t>& normal,
                                          const param_float_t = 0.)
   {
-    return M_PI * (M_PI - 1.) * cos(M_PI * point[0]) * normal[2] *
+    return M_PI * (M_PI + 1.) * cos(M_PI * point[0]) * normal[2] *
              (point[1] == 0. && point[2] == 0.) +
            M_PI * cos(M_PI * point[1]) * (M_PI * normal[1] + normal[0]) *
              (point[0] == 0. && point[2] == 0.);
@@ -60,7 +60,7 @@ struct TimoschenkoBeamParametersDefault
                                          const Point<space_dimT, param_float_t>& normal,
                                          const param_float_t = 0.)
   {
-    return (M_PI * M_PI - M_PI + 1.) * sin(M_PI * point[0]) * normal[1] *
+    return (M_PI * M_PI + M_PI + 1.) * sin(M_PI * point[0]) * normal[1] *
              (point[1] == 0. && point[2] == 0.) +
            (M_PI * M_PI + 1.) * sin(M_PI * point[1]) * normal[2] *
              (point[0] == 0. && point[2] == 0.);
-- 
2.43.0


From d231f2f1c29ed1b676c386852c59f6c42c19389e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 10:14:35 +0000
Subject: [PATCH 22/31] fix: DiffusionAdvectionReaction evaluates the advective
 velocity at the given time

---
 .../HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx b/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
index e57447d..574319d 100644
--- a/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
+++ b/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
@@ -998,7 +998,7 @@ DiffusionAdvectionReaction<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_fl
           integrator::template integrate_vol_phiphivecfunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::advective_velocity,
-            Point<hyEdge_dimT, lSol_float_t> >(i, j, dim, hyper_edge.geometry);
+            Point<hyEdge_dimT, lSol_float_t> >(i, j, dim, hyper_edge.geometry, time);
       }
     }
   }
-- 
2.43.0


From 83395529d25bb5eae3003f37da8dbfa086cbb1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 10:14:46 +0000
Subject: [PATCH 23/31] fix: DiffusionIP evaluates the diffusion coefficient at
 the given time on faces, too

---
 include/HyperHDG/local_solver/diffusion_ip.hxx | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/HyperHDG/local_solver/diffusion_ip.hxx b/include/HyperHDG/local_solver/diffusion_ip.hxx
index da65b80..ea18911 100644
--- a/include/HyperHDG/local_solver/diffusion_ip.hxx
+++ b/include/HyperHDG/local_solver/diffusion_ip.hxx
@@ -390,12 +390,14 @@ class DiffusionIP
    * \tparam  hyEdgeT       The geometry type / typename of the considered hyEdge's geometry.
    * \param   coeffs        Coefficients of the local solution.
    * \param   hyper_edge    The geometry of the considered hyperedge (of typename GeomT).
+   * \param   time          Time at which the diffusion coefficient is evaluated.
    * \retval  bdr_coeffs    Coefficients of respective (dim-1) dimensional function at boundaries.
    ************************************************************************************************/
   template <typename hyEdgeT>
   inline SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> dual_at_boundary(
     const SmallVec<n_loc_dofs_, lSol_float_t>& coeffs,
-    hyEdgeT& hyper_edge) const;
+    hyEdgeT& hyper_edge,
+    const lSol_float_t time) const;
 
  public:
   // -----------------------------------------------------------------------------------------------
@@ -450,7 +452,7 @@ class DiffusionIP
 
     SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> primals(
       primal_at_boundary(coeffs, hyper_edge)),
-      duals(dual_at_boundary(coeffs, hyper_edge));
+      duals(dual_at_boundary(coeffs, hyper_edge, time));
 
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
@@ -514,7 +516,7 @@ class DiffusionIP
 
     SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> primals(
       primal_at_boundary(coeffs, hyper_edge)),
-      duals(dual_at_boundary(coeffs, hyper_edge));
+      duals(dual_at_boundary(coeffs, hyper_edge, time));
 
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
@@ -633,7 +635,8 @@ DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::assembl
         local_mat(i, j) -= integrator::template integrate_bdr_nablaphiphinufunc<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::diffusion_coeff,
-          Point<hyEdge_dimT, lSol_float_t> >(j, i, face, hyper_edge.geometry);
+          Point<hyEdge_dimT, lSol_float_t> >(j, i, face, hyper_edge.geometry,
+                                            time);
       }
     }
   }
@@ -795,7 +798,8 @@ inline SmallMat<
   lSol_float_t>
 DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::dual_at_boundary(
   const SmallVec<n_loc_dofs_, lSol_float_t>& coeffs,
-  hyEdgeT& hyper_edge) const
+  hyEdgeT& hyper_edge,
+  const lSol_float_t time) const
 {
   using parameters = parametersT<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>;
   SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> bdr_values;
@@ -807,7 +811,7 @@ DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::dual_at
           integrator::template integrate_bdr_nablaphipsinufunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::diffusion_coeff,
-            Point<hyEdge_dimT, lSol_float_t> >(i, j, face, hyper_edge.geometry) *
+            Point<hyEdge_dimT, lSol_float_t> >(i, j, face, hyper_edge.geometry, time) *
           coeffs[i];
 
   return bdr_values;
-- 
2.43.0


From 7620a6d23066bc15f9671874b5108f96584324f8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:36:27 +0000
Subject: [PATCH 24/31] fix: headers of components are found if the path of the
 repository contains characters like +

---
 import/HyperHDG/import_cxx/cpp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/import/HyperHDG/import_cxx/cpp.py b/import/HyperHDG/import_cxx/cpp.py
index d9ad0dc..88531cd 100644
--- a/import/HyperHDG/import_cxx/cpp.py
+++ b/import/HyperHDG/import_cxx/cpp.py
@@ -11,5 +11,5 @@ def find_definition(folder, classname):
   for file in glob.glob(main_dir() + "/include/HyperHDG/" + folder + "/*.hxx"):
     with open(file, "r") as hxxfile:
       if ("\nclass " + classname + "\n{" or "\nstruct " + classname + "\n{") in hxxfile.read():
-        return re.sub(main_dir() + "/include/", '', file)
+        return file[len(main_dir() + "/include/"):]
   assert False, "File containing defintion of " + classname + " has not been found!"
-- 
2.43.0


From a443b535f24a88389e089d7b8eab55c9b2682399 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:36:27 +0000
Subject: [PATCH 25/31] fix: find_definition ignored components that are
 declared as struct

---
 import/HyperHDG/import_cxx/cpp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/import/HyperHDG/import_cxx/cpp.py b/import/HyperHDG/import_cxx/cpp.py
index 88531cd..9ad4230 100644
--- a/import/HyperHDG/import_cxx/cpp.py
+++ b/import/HyperHDG/import_cxx/cpp.py
@@ -10,6 +10,7 @@ def extract_classname(fullname):
 def find_definition(folder, classname):
   for file in glob.glob(main_dir() + "/include/HyperHDG/" + folder + "/*.hxx"):
     with open(file, "r") as hxxfile:
-      if ("\nclass " + classname + "\n{" or "\nstruct " + classname + "\n{") in hxxfile.read():
+      content = hxxfile.read()
+      if "\nclass " + classname + "\n{" in content or "\nstruct " + classname + "\n{" in content:
         return file[len(main_dir() + "/include/"):]
   assert False, "File containing defintion of " + classname + " has not been found!"
-- 
2.43.0


From cee0be12b34740343d6edbcf9b9ea59a6a605155 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:36:27 +0000
Subject: [PATCH 26/31] fix: include changed its argument and, via the shared
 default list, all other configurations

---
 import/HyperHDG/import_cxx/include.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/import/HyperHDG/import_cxx/include.py b/import/HyperHDG/import_cxx/include.py
index 8bdbe5f..6176218 100644
--- a/import/HyperHDG/import_cxx/include.py
+++ b/import/HyperHDG/import_cxx/include.py
@@ -1,4 +1,4 @@
-import os, sys, importlib, re, datetime
+import os, sys, copy, importlib, re, datetime
 from .cmake import get_options
 from .compile_prep import compile_commands, need_compile
 from .config import *
@@ -13,6 +13,10 @@ def include(conf):
   # Check that conf is appropriatelly filled.
   assert isinstance(conf, config) and consistent(conf)
 
+  # Work on a copy, since include files are added.
+  conf = copy.copy(conf)
+  conf.include_files = list(conf.include_files)
+
   # Start program.
   options = get_options()
   print("Cythonizing ... ", end='', flush=True)
-- 
2.43.0


From d0926c11f0ea88f538f8a2da037c2926f57b26de Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:36:27 +0000
Subject: [PATCH 27/31] fix: problems that differ in own code, replacements, or
 include files shared one module

---
 import/HyperHDG/import_cxx/names.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/import/HyperHDG/import_cxx/names.py b/import/HyperHDG/import_cxx/names.py
index fd2e6d4..ba35c2f 100644
--- a/import/HyperHDG/import_cxx/names.py
+++ b/import/HyperHDG/import_cxx/names.py
@@ -12,6 +12,7 @@ def files(conf):
                  + conf.node_descriptor + ",LocalSolver::" + conf.local_solver + " >"
   cython_file  = cpp_class + "_deb" if conf.debug_mode else cpp_class + "_rel"
   cython_file  = re.sub(' ', '', cython_file)
+  cython_file += str([conf.cython_replacements, conf.cpp_code, conf.include_files])
   cython_file  = "mod" + str(hashlib.sha256(cython_file.encode('utf-8')).hexdigest())
   cython_file  = re.sub('\+|\-|\*|\/|<|>|\,|\:', '_', cython_file)
   cython_class = cython_file + "CP"
-- 
2.43.0


From d430bf7f4c69077cb7d197d8afef65cd935f619f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:36:27 +0000
Subject: [PATCH 28/31] fix: changes of headers that are included by own code
 did not lead to recompilation

---
 import/HyperHDG/import_cxx/compile_prep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/import/HyperHDG/import_cxx/compile_prep.py b/import/HyperHDG/import_cxx/compile_prep.py
index 81490b2..e4fd9b9 100644
--- a/import/HyperHDG/import_cxx/compile_prep.py
+++ b/import/HyperHDG/import_cxx/compile_prep.py
@@ -40,6 +40,8 @@ def need_compile(conf, python_class, opt):
     if time_so < os.stat(file).st_mtime:
       return True
   dependent_files = [ x for x in conf.include_files if ".hxx" in x ]
+  if conf.cpp_code != "":
+    dependent_files.append("build/cython_files/" + python_class + ".hxx")
   return need_compile_check_hy_files(dependent_files, time_so)
 
 ## \brief   Check whether any dependent files have been changed.
-- 
2.43.0


From e638cf0f3fb28b43e34b73c00093ad68b33a7509 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:36:27 +0000
Subject: [PATCH 29/31] fix: changes of the import code did not lead to
 recompilation

---
 import/HyperHDG/import_cxx/compile_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/import/HyperHDG/import_cxx/compile_prep.py b/import/HyperHDG/import_cxx/compile_prep.py
index e4fd9b9..b837377 100644
--- a/import/HyperHDG/import_cxx/compile_prep.py
+++ b/import/HyperHDG/import_cxx/compile_prep.py
@@ -36,7 +36,7 @@ def need_compile(conf, python_class, opt):
       + file_end).st_mtime
     if time_so < time_in:
       return True
-  for file in glob.glob(this_dir()):
+  for file in glob.glob(this_dir() + "/*.py"):
     if time_so < os.stat(file).st_mtime:
       return True
   dependent_files = [ x for x in conf.include_files if ".hxx" in x ]
-- 
2.43.0


From 9ebfee200a6c3a60a755d13a231d2a21b0770de2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 11:36:27 +0000
Subject: [PATCH 30/31] fix: nothing was compiled if Python runs with -O

---
 import/HyperHDG/import_cxx/include.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/import/HyperHDG/import_cxx/include.py b/import/HyperHDG/import_cxx/include.py
index 6176218..63f9b89 100644
--- a/import/HyperHDG/import_cxx/include.py
+++ b/import/HyperHDG/import_cxx/include.py
@@ -63,9 +63,9 @@ def include(conf):
     if not (conf.debug_mode):
       compile_command += " -DNDEBUG"
     #Actually compile the prepared files.
-    assert os.system(cython_command) == 0
-    assert os.system(compile_command) == 0
-    assert os.system(link_command) == 0
+    for command in [cython_command, compile_command, link_command]:
+      if os.system(command) != 0:
+        raise RuntimeError("Command failed: " + command)
 
   try:
     mod = importlib.import_module(python_class)
-- 
2.43.0


From f69dabb1dea2cbe7d5e47ea45258383aa0f10e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:46 +0000
Subject: [PATCH 31/31] fix: Python wrappers constructed from topology and
 geometry did not hold a C++ object

---
 cython/elliptic.pyx                   | 5 ++---
 cython/mass_approx_eigenvalue.pyx     | 5 ++---
 cython/nonlinear_eigenvalue.pyx       | 5 ++---
 cython/parabolic.pyx                  | 5 ++---
 cython/shifted_inverse_eigenvalue.pyx | 5 ++---
 5 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/cython/elliptic.pyx b/cython/elliptic.pyx
index 01054f7..a2f0862 100644
--- a/cython/elliptic.pyx
+++ b/cython/elliptic.pyx
@@ -17,9 +17,8 @@ cdef class PythonClassName :
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
         print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
-      else:
-        self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
+        lsol_constr = 1.
+      self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
     del self.thisptr
   def read_dirichlet_indices(self, indices):
diff --git a/cython/mass_approx_eigenvalue.pyx b/cython/mass_approx_eigenvalue.pyx
index 0184179..37b4ff0 100644
--- a/cython/mass_approx_eigenvalue.pyx
+++ b/cython/mass_approx_eigenvalue.pyx
@@ -17,9 +17,8 @@ cdef class PythonClassName :
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
         print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
-      else:
-        self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
+        lsol_constr = 1.
+      self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
     del self.thisptr
   def dirichlet_indices(self):
diff --git a/cython/nonlinear_eigenvalue.pyx b/cython/nonlinear_eigenvalue.pyx
index 96a2dfb..8ef55c5 100644
--- a/cython/nonlinear_eigenvalue.pyx
+++ b/cython/nonlinear_eigenvalue.pyx
@@ -17,9 +17,8 @@ cdef class PythonClassName :
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
         print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
-      else:
-        self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
+        lsol_constr = 1.
+      self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
     del self.thisptr
   def trace_to_flux(self, vec, time = 0.):
diff --git a/cython/parabolic.pyx b/cython/parabolic.pyx
index 002f989..fa3db81 100644
--- a/cython/parabolic.pyx
+++ b/cython/parabolic.pyx
@@ -17,9 +17,8 @@ cdef class PythonClassName :
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
         print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
-      else:
-        self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
+        lsol_constr = 1.
+      self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
     del self.thisptr
   def zero_vector(self):
diff --git a/cython/shifted_inverse_eigenvalue.pyx b/cython/shifted_inverse_eigenvalue.pyx
index 7306198..06aaf33 100644
--- a/cython/shifted_inverse_eigenvalue.pyx
+++ b/cython/shifted_inverse_eigenvalue.pyx
@@ -17,9 +17,8 @@ cdef class PythonClassName :
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
         print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
-      else:
-        self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
+        lsol_constr = 1.
+      self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
     del self.thisptr
   def dirichlet_indices(self):
-- 
2.43.0

