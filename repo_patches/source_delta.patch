From 84245db542869bf14b7f968afe335ec46d657cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 01/67] fix: check the bound before reading the mask of an
 off-block index in compute_leading_block

---
 src/hif/pre/matching_scaling.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/pre/matching_scaling.hpp b/src/hif/pre/matching_scaling.hpp
index f005e52..7bb3607 100644
--- a/src/hif/pre/matching_scaling.hpp
+++ b/src/hif/pre/matching_scaling.hpp
@@ -269,7 +269,7 @@ inline CcsType compute_leading_block(const CcsType &A, const CrsType &A_crs,
                   last = A_crs.col_ind_cend(row);
              itr != last; ++itr) {
           const size_type ind = q.inv(*itr);
-          if (!masks[ind] && ind < m) {
+          if (ind < m && !masks[ind]) {
             masks[ind] = true;
             buf[nnz++] = ind;
           }
@@ -303,7 +303,7 @@ inline CcsType compute_leading_block(const CcsType &A, const CrsType &A_crs,
       for (auto itr = A_crs.col_ind_cbegin(row), last = A_crs.col_ind_cend(row);
            itr != last; ++itr) {
         const size_type ind = q.inv(*itr);
-        if (!masks[ind] && ind < m) {
+        if (ind < m && !masks[ind]) {
           masks[ind] = true;
           *i_itr++   = ind;
         }
-- 
2.43.0


From c998491bbed2e114b85f0058eed259dea6f32d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 02/67] fix: run RCM on the pattern of A+A^T also under
 symmetric preprocessing

---
 src/hif/pre/matching_scaling.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hif/pre/matching_scaling.hpp b/src/hif/pre/matching_scaling.hpp
index 7bb3607..71f5bfe 100644
--- a/src/hif/pre/matching_scaling.hpp
+++ b/src/hif/pre/matching_scaling.hpp
@@ -441,8 +441,12 @@ inline std::pair<CcsType, typename CcsType::size_type> do_maching(
   return_type BB;
   if (compute_perm && m) {
     p.build_inv();
-    // to see if we need to build A^T+A pattern
-    const bool build_apat = !IsSymm && opts.reorder == REORDER_RCM;
+    // to see if we need to build A^T+A pattern. RCM requires an undirected
+    // graph, and symmetric preprocessing (IsSymm) does not imply that the
+    // pattern is symmetric, see Options::nzp_thres and Options::symm_pre_lvls
+    const bool build_apat =
+        opts.reorder == REORDER_RCM ||
+        (IsSymm && opts.reorder == REORDER_AUTO && level == 1u && m != m0);
     if (build_apat) q.build_inv();
     BB = internal::compute_leading_block(A, A_crs, m, p, q, build_apat);
   }
-- 
2.43.0


From f0c69bcc377fe2862b27d6d64e288d8699bb60db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 03/67] fix: factorize complex Hermitian systems with the
 conjugate in the symmetric kernel

---
 src/hif/alg/Crout.hpp       | 29 ++++++++++++++++++++++++++---
 src/hif/alg/symm_factor.hpp | 10 ++++++----
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/hif/alg/Crout.hpp b/src/hif/alg/Crout.hpp
index dded03a..ec61917 100644
--- a/src/hif/alg/Crout.hpp
+++ b/src/hif/alg/Crout.hpp
@@ -36,6 +36,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 #include "hif/utils/common.hpp"
 #include "hif/utils/log.hpp"
+#include "hif/utils/math.hpp"
 
 namespace hif {
 
@@ -352,7 +353,7 @@ class Crout {
   ///   \mathbf{\ell}_{k}=
   ///     \hat{\mathbf{A}}[\mathbf{p}_{k+1:n},q_{k}]-
   ///     \mathbf{L}_{k+1:n,1:k-1}\mathbf{D}_{k-1}
-  ///       \mathbf{L}_{k,1:k-1}^{T}
+  ///       \mathbf{L}_{k,1:k-1}^{H}
   /// \f]
   template <class ScaleArray, class CcsType, class PermType, class ListArray,
             class IndPtrArray, class DiagType, class SpVecType>
@@ -379,9 +380,9 @@ class Crout {
         hif_assert((size_type)L_col < _step,
                    "compute_ut row index %zd should not exceed step %zd for U",
                    (size_type)L_col, _step);
-        // compute d*L^T
+        // compute d*L^H
         auto       L_v_itr = L.val_cbegin(L_col) + L_start[L_col];
-        const auto dlt     = d[L_col] * *L_v_itr;
+        const auto dlt     = d[L_col] * conjugate(*L_v_itr);
         auto       L_i_itr = L.row_ind_cbegin(L_col) + L_start[L_col],
              L_last        = L.row_ind_cend(L_col);
         if (L_i_itr != L_last) {
@@ -629,6 +630,28 @@ class Crout {
     }
   }
 
+  /// \brief update the current diagonal entry for symmetric/Hermitian systems
+  /// \tparam SpVecType sparse vector for storing l, see \ref SparseVector
+  /// \tparam DiagType diagonal vector array type, see \ref Array
+  /// \param[in] l newly computed column vector of L
+  /// \param[in] m leading block size
+  /// \param[in,out] d diagonal vector
+  /// \sa compute_symm
+  ///
+  /// As opposed to \ref update_diag, the upper part is the conjugate transpose
+  /// of the lower part.
+  template <class SpVecType, class DiagType>
+  inline void update_diag_symm(const SpVecType &l, const size_type m,
+                               DiagType &d) const {
+    // get the current diagonal entry
+    const auto      dk = d[_step];
+    const size_type n  = l.size();
+    for (size_type i(0); i < n; ++i) {
+      const size_type idx = l.idx(i);
+      if (idx < m) d[idx] -= dk * l.val(i) * conjugate(l.val(i));
+    }
+  }
+
   /// \brief scale the computed row/column vectors by current diagonal inverse
   /// \tparam DiagType diagonal matrix type, see \ref Array
   /// \tparam SpVecType sparse vector for storing l/U, see \ref SparseVector
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 546d38e..7d96b1e 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -152,9 +152,9 @@ inline CsType symm_level_factorize(
 
   // build counterpart type
   other_type A_counterpart;
-  // NOTE: This can be done efficiently for symmetric real systems
-  // NOTE: For complex Hermitian matrix, the following will not work
-  internal::make_transpose(A, A_counterpart);
+  // NOTE: This can be done efficiently for symmetric real systems, for complex
+  //       Hermitian systems we need the conjugate as A=A^H
+  internal::make_transpose(A, A_counterpart, true);
 
   // now use our trait and its static methods to precisely determine the ccs
   // and crs components.
@@ -396,7 +396,7 @@ inline CsType symm_level_factorize(
                cur_level, step);
 
     // update diagonals b4 dropping
-    step.update_diag<true>(l, l, m2, d);
+    step.update_diag_symm(l, m2, d);
 
     //---------------
     // drop and sort
@@ -629,6 +629,8 @@ inline CsType symm_level_factorize(
   F.inds()      = F_ccs.inds();
   F.ind_start() = F_ccs.ind_start();
   F.vals()      = F_ccs.vals();
+  // F=E^H, i.e., conjugate for Hermitian systems
+  for (auto &v : F.vals()) v = conjugate(v);
 
   // recursive function free
   if (cur_level > 1u) const_cast<input_type &>(A).destroy();
-- 
2.43.0


From 6bd43eae08326dad53c82d8fe21a9b7b791c03ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 04/67] fix: accept an empty leading block in the kernel for
 symmetric leading blocks

---
 src/hif/alg/factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 8472352..ecd2d89 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -744,7 +744,7 @@ inline CsType level_factorize(
       cur_level);
 
   Array<indptr_type> L_offsets;
-  if (IsSymm) {
+  if (IsSymm && m) {
     L_offsets.resize(m);
     hif_error_if(L_offsets.status() == DATA_UNDEF,
                  "memory allocation failed for L_offsets at level %zd.",
-- 
2.43.0


From 5dc0b723a7127b48bb5afe9b0705aa2cbb2e491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 05/67] fix: honor the leading block size when preprocessing is
 off

---
 src/hif/alg/factor.hpp       | 2 +-
 src/hif/alg/pivot_factor.hpp | 2 +-
 src/hif/alg/symm_factor.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index ecd2d89..831c2b3 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -682,7 +682,7 @@ inline CsType level_factorize(
     std::fill(s.begin(), s.end(), scalar_type(1));
     t.resize(A.ncols());
     std::fill(t.begin(), t.end(), scalar_type(1));
-    m = A.nrows();
+    m = m0;
   }
   timer.finish();  // prefile pre-processing
 
diff --git a/src/hif/alg/pivot_factor.hpp b/src/hif/alg/pivot_factor.hpp
index 4e36be9..635d979 100644
--- a/src/hif/alg/pivot_factor.hpp
+++ b/src/hif/alg/pivot_factor.hpp
@@ -156,7 +156,7 @@ inline CsType pivot_level_factorize(
     std::fill(s.begin(), s.end(), scalar_type(1));
     t.resize(A.ncols());
     std::fill(t.begin(), t.end(), scalar_type(1));
-    m = A.nrows();
+    m = m0;
   }
 
   timer.finish();  // prefile pre-processing
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 7d96b1e..e36ea23 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -197,7 +197,7 @@ inline CsType symm_level_factorize(
     std::fill(s.begin(), s.end(), scalar_type(1));
     t.resize(A.ncols());
     std::fill(t.begin(), t.end(), scalar_type(1));
-    m = A.nrows();
+    m = m0;
   }
   timer.finish();  // prefile pre-processing
 
-- 
2.43.0


From c430d15f4fd7c0af5ad84460372f0b736c882fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 06/67] fix: initialize the sizes and statistics of an empty
 HIF object

---
 src/hif/builder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index aa23a49..f3b86d9 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -578,9 +578,9 @@ class HIF {
   precs_type              _precs;  ///< multilevel preconditioners
   mutable work_array_type _prec_work;
   ///< preconditioner work space for solving
-  size_type                    _stats[6];  ///< statistics
-  size_type                    _nrows;     ///< number of rows from user input
-  size_type                    _ncols;  ///< number of columns from user input
+  size_type _stats[6] = {0u, 0u, 0u, 0u, 0u, 0u};  ///< statistics
+  size_type _nrows    = 0u;  ///< number of rows from user input
+  size_type _ncols    = 0u;  ///< number of columns from user input
   IterRefine<boost_value_type> _ir;     ///< high-precision iterative refinement
 };
 
-- 
2.43.0


From 435156a7e2f040335e1cb7c0d8319c8cc65d7a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 07/67] fix: do not keep the finished levels of a factorization
 that failed

---
 src/hif/builder.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index f3b86d9..9f7d13b 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -350,12 +350,18 @@ class HIF {
 
     // create size references for dropping
     iarray_type row_sizes, col_sizes;
-    if (hif_verbose(FAC, params))
-      _factorize_kernel(AA, m0, params, row_sizes, col_sizes, Crout_cout,
-                        schur_threads);
-    else
-      _factorize_kernel(AA, m0, params, row_sizes, col_sizes, Crout_cout_dummy,
-                        schur_threads);
+    try {
+      if (hif_verbose(FAC, params))
+        _factorize_kernel(AA, m0, params, row_sizes, col_sizes, Crout_cout,
+                          schur_threads);
+      else
+        _factorize_kernel(AA, m0, params, row_sizes, col_sizes,
+                          Crout_cout_dummy, schur_threads);
+    } catch (...) {
+      // do not leave an incomplete hierarchy behind, which cannot be solved
+      _precs.clear();
+      throw;
+    }
     t.finish();
     if (hif_verbose(INFO, params)) {
       const size_type Nnz = nnz();
-- 
2.43.0


From 712d7319f001f3d4cc64d582bb6e80f2ae3044a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 08/67] fix: enlarge the workspace left by solve for multiple
 right-hand sides

---
 src/hif/builder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 9f7d13b..b8de1e7 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -444,7 +444,8 @@ class HIF {
     hif_error_if(b.size() != x.size(), "unmatched sizes");
     hif_error_if(nsp, "multiple RHS does not support null space filter.");
     const auto nw = compute_prec_work_space(_precs.cbegin(), _precs.cend());
-    if (_prec_work.empty()) _prec_work.resize(nw * Nrhs);
+    // NOTE the buffer may come from solve or from fewer right-hand sides
+    if (_prec_work.size() < nw * Nrhs) _prec_work.resize(nw * Nrhs);
     Array<std::array<boost_value_type, Nrhs>> w(
         nw, (std::array<boost_value_type, Nrhs> *)_prec_work.data(), true);
     prec_solve_mrhs(_precs.cbegin(), b, r, x, w);
-- 
2.43.0


From 1b341107bf21b6a83c34bdd0080f40eef98ca55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 09/67] fix: report rank zero for an exactly zero dense last
 level

---
 src/hif/small_scale/QRCP.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hif/small_scale/QRCP.hpp b/src/hif/small_scale/QRCP.hpp
index f8b8644..4a76e22 100644
--- a/src/hif/small_scale/QRCP.hpp
+++ b/src/hif/small_scale/QRCP.hpp
@@ -140,6 +140,15 @@ class QRCP {
         _tau.data(), _work.data(), (size_type)abs(lwork), _rwork.data());
     hif_error_if(info < 0, "GEQP3 returned negative info");
 
+    // with column pivoting, R(0,0)=0 if and only if the matrix is zero, for
+    // which the relative tests below are meaningless
+    if (_mat[0] == value_type(0)) {
+      _rank = 0u;
+      if (hif_verbose(WARN, opts))
+        hif_warning("\n  The system is rank deficient with rank=0.");
+      return;
+    }
+
     // fast filtering to test diagonal entries
     bool            do_cond_test = false;
     const size_type N            = _tau.size();  // min (row, col)
-- 
2.43.0


From 7dbca578ee2e7c3cce9343c814f0d97f3ef66fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 10/67] fix: truncate the correct end of the spectrum in the
 symmetric dense solver

---
 src/hif/small_scale/SYEIG.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index b259604..2285b61 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -134,24 +134,26 @@ class SYEIG {
     _trunc_order.resize(n);
     std::iota(_trunc_order.begin(), _trunc_order.end(), 0);
     const scalar_type thres =
-        EPS * *std::max_element(_w.cbegin(), _w.cend(),
-                                [](const value_type a, const value_type b) {
-                                  return std::abs(a) < std::abs(b);
-                                });
+        EPS *
+        std::abs(*std::max_element(
+            _w.cbegin(), _w.cend(),
+            [](const scalar_type a, const scalar_type b) {
+              return std::abs(a) < std::abs(b);
+            }));
     _rank = n;
     if (opts.spd > 0) {
       // ensure pd-ness
+      // the eigenvalues are ascending, reverse the order for truncations
+      std::reverse(_trunc_order.begin(), _trunc_order.end());
       for (int i(n - 1); i > -1; --i)
-        if (_w[i] <= 0.0 || std::abs(_w[i]) <= thres)
+        if (_w[_trunc_order[i]] <= thres)
           --_rank;
         else
           break;
     } else if (opts.spd < 0) {
       // ensure nd-ness
-      // reverse the order for truncations
-      std::reverse(_trunc_order.begin(), _trunc_order.end());
-      for (size_type i(0); i < n; ++i)
-        if (_w[i] >= 0.0 || std::abs(_w[i]) <= thres)
+      for (int i(n - 1); i > -1; --i)
+        if (_w[_trunc_order[i]] >= -thres)
           --_rank;
         else
           break;
-- 
2.43.0


From 3ca65779137e427e0dbdbf0747d99581889f28bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 11/67] fix: address the columns of multiple RHS correctly in
 the symmetric dense solver

---
 src/hif/small_scale/SYEIG.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index 2285b61..065c94e 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -236,7 +236,7 @@ class SYEIG {
     for (size_type i = 0; i < Nrhs; ++i) {
       // step 1, compute y=Q^T*x
       lapack_kernel::gemv('C', _mat.nrows(), _mat.ncols(), value_type(1),
-                          _mat.data(), _mat.nrows(), &_mrhs(0, i * Nrhs),
+                          _mat.data(), _mat.nrows(), &_mrhs(0, i),
                           value_type(0), _work.data());
       // step 2, solve inv(lambda)*y with truncation
       for (size_type i(0); i < rk; ++i)
@@ -245,7 +245,7 @@ class SYEIG {
       // step 3, compute x=Q*y
       lapack_kernel::gemv('N', _mat.nrows(), _mat.ncols(), value_type(1),
                           _mat.data(), _mat.nrows(), _work.data(),
-                          value_type(0), &_mrhs(0, i * Nrhs));
+                          value_type(0), &_mrhs(0, i));
     }
     // copy back to the application
     for (int j = 0; j < Nrhs; ++j)
@@ -302,7 +302,7 @@ class SYEIG {
     for (size_type i = 0; i < Nrhs; ++i) {
       // step 1, compute y=Q^T*x
       lapack_kernel::gemv('C', _mat.nrows(), _mat.ncols(), value_type(1),
-                          _mat.data(), _mat.nrows(), &_mrhs(0, i * Nrhs),
+                          _mat.data(), _mat.nrows(), &_mrhs(0, i),
                           value_type(0), _work.data());
       // step 2, compute lambda*y with truncation
       for (size_type i(0); i < rk; ++i)
@@ -311,7 +311,7 @@ class SYEIG {
       // step 3, compute x=Q*y
       lapack_kernel::gemv('N', _mat.nrows(), _mat.ncols(), value_type(1),
                           _mat.data(), _mat.nrows(), _work.data(),
-                          value_type(0), &_mrhs(0, i * Nrhs));
+                          value_type(0), &_mrhs(0, i));
     }
     // copy back to the application
     for (int j = 0; j < Nrhs; ++j)
-- 
2.43.0


From b5efa0f3872fc73a74d754f911b5dcac87f8e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 12/67] fix: solve with the conjugate transpose in LUP

---
 src/hif/small_scale/LUP.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/small_scale/LUP.hpp b/src/hif/small_scale/LUP.hpp
index 0c7d93e..5743baa 100644
--- a/src/hif/small_scale/LUP.hpp
+++ b/src/hif/small_scale/LUP.hpp
@@ -140,7 +140,7 @@ class LUP {
         "either the matrix is not set or the factorization has not yet done!");
     hif_error_if(x.size() != _mat.nrows(),
                  "unmatched sizes between system and rhs");
-    if (lapack_kernel::getrs(_mat, _ipiv, x, tran ? 'T' : 'N') < 0)
+    if (lapack_kernel::getrs(_mat, _ipiv, x, tran ? 'C' : 'N') < 0)
       hif_error("GETRS returned negative info!");
   }
 
@@ -166,7 +166,7 @@ class LUP {
     _mrhs.resize(x.size(), Nrhs);
     for (size_type j = 0; j < Nrhs; ++j)
       for (size_type i(0); i < x.size(); ++i) _mrhs(i, j) = x[i][j];
-    if (lapack_kernel::getrs(_mat, _ipiv, _mrhs, tran ? 'T' : 'N') < 0)
+    if (lapack_kernel::getrs(_mat, _ipiv, _mrhs, tran ? 'C' : 'N') < 0)
       hif_error("GETRS returned negative info!");
     for (size_type j = 0; j < Nrhs; ++j)
       for (size_type i(0); i < x.size(); ++i) x[i][j] = _mrhs(i, j);
-- 
2.43.0


From f303d3a748a8c2b7e2c8560753c082979a5f1659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 13/67] fix: apply tau_L to the L factor and tau_U to the U
 factor

---
 src/hif/alg/factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 831c2b3..c4237e5 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -101,7 +101,7 @@ determine_fac_pars(const Options &opts, const int lvl) {
     alpha_L = opts.alpha_L;
     alpha_U = opts.alpha_U;
   }
-  return std::make_tuple(kappa_d, kappa, tau_U, tau_L, alpha_L, alpha_U);
+  return std::make_tuple(kappa_d, kappa, tau_L, tau_U, alpha_L, alpha_U);
 }
 
 /// \brief extract permutated diagonal
-- 
2.43.0


From 2eff1172293d32a9d5a5193d6d26dd33fd96afb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 14/67] fix: pass the right data between levels in the solve
 with multiple right-hand sides

---
 src/hif/alg/prec_solve.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/alg/prec_solve.hpp b/src/hif/alg/prec_solve.hpp
index 74f177c..7197c62 100644
--- a/src/hif/alg/prec_solve.hpp
+++ b/src/hif/alg/prec_solve.hpp
@@ -484,17 +484,17 @@ inline void prec_solve_mrhs(PrecItr prec_itr,
   } else {
     auto y_mn = interface_array_type(nm, y.data() + m, WRAP);
     // advance to next buffer region
-    auto work_next = work_array_type(nm, &work[n], WRAP);
+    auto work_next = work_array_type(work.size() - n, &work[n], WRAP);
     auto work_b    = work_array_type(nm, &work[0] + m, WRAP);
     for (size_type i(0); i < nm; ++i)
-      for (size_type k(0); k < Nrhs; ++k) y_mn[i][k] = work_b[i][k];
+      for (size_type k(0); k < Nrhs; ++k) work_b[i][k] = y_mn[i][k];
     // rec call, note that y_mn should store the solution
     prec_solve_mrhs(++prec_itr, work_b, last_dim, y_mn, work_next);
   }
 
   // copy y(m+1:n) to work(m+1:n)
   for (size_type i(m); i < n; ++i)
-    for (size_type k(0); k < Nrhs; ++k) y[i][k] = work[i][k];
+    for (size_type k(0); k < Nrhs; ++k) work[i][k] = y[i][k];
 
   // only handle the F part if it's not empty
   if (prec.F.ncols()) {
-- 
2.43.0


From 176a4e535fb00675be10e215c8ef73f885aa9c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 15/67] fix: reject iterative refinement with an empty
 preconditioner

---
 src/hif/builder.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index b8de1e7..f7b319a 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -468,6 +468,7 @@ class HIF {
                     const size_type r = static_cast<size_type>(-1)) const {
     // NOTE, do not assume A shares interface of CRS, as it can be
     // user callback
+    hif_error_if(empty(), "MILU-Prec is empty!");
     _ir.iter_refine(*this, A, b, N, x, r, trans);
   }
 
@@ -492,6 +493,7 @@ class HIF {
       const size_type r = static_cast<size_type>(-1)) const {
     // NOTE, do not assume A shares interface of CRS, as it can be
     // user callback
+    hif_error_if(empty(), "MILU-Prec is empty!");
     return _ir.iter_refine(*this, A, b, N, betas, x, r, trans);
   }
 
-- 
2.43.0


From 2d72d606d3d22fb058ed648c52d86873c8a32c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 16/67] fix: leave empty rows and columns alone in the
 iterative a priori scaling

---
 src/hif/pre/a_priori_scaling.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hif/pre/a_priori_scaling.hpp b/src/hif/pre/a_priori_scaling.hpp
index 5517bca..c0747af 100644
--- a/src/hif/pre/a_priori_scaling.hpp
+++ b/src/hif/pre/a_priori_scaling.hpp
@@ -199,13 +199,15 @@ inline void iterative_scale_p(const PermType &p, CrsType &A, ScalingType &rs,
           local_cs[j]  = std::max(std::abs(*v_itr), local_cs[j]);
         }
       }
-      local_rs[p[row]] = 1. / std::sqrt(tmp);
+      // leave empty rows alone
+      local_rs[p[row]] = tmp != scalar_type(0) ? 1. / std::sqrt(tmp) : 1.;
     }
     for (size_type i(0); i < m; ++i) rs[i] *= local_rs[i];
     if (!IsSymm) {
       for (size_type i(0); i < n; ++i) {
-        const auto tmp = 1. / std::sqrt(local_cs[i]);
-        local_cs[i]    = tmp;
+        const scalar_type tmp =
+            local_cs[i] != scalar_type(0) ? 1. / std::sqrt(local_cs[i]) : 1.;
+        local_cs[i] = tmp;
         cs[i] *= tmp;
       }
     }
-- 
2.43.0


From edf2fab170252ac97c57144729a54f847dc6dd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 17/67] fix: leave stored zeros out of the matching

---
 src/hif/pre/EqlDriver.hpp | 52 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/hif/pre/EqlDriver.hpp b/src/hif/pre/EqlDriver.hpp
index 5b5c120..5d2b9de 100644
--- a/src/hif/pre/EqlDriver.hpp
+++ b/src/hif/pre/EqlDriver.hpp
@@ -70,8 +70,8 @@ class EqlDriver {
                                  Array<index_type> &p, Array<index_type> &q,
                                  Array<scalar_type> &s, Array<scalar_type> &t,
                                  const int pre_scale = 0, const int verbose = 0) {
-    const size_type n = B.nrows(), nnz = B.nnz();
-    hif_error_if(B.nrows() != n, "must be squared systems");
+    const size_type n = B.nrows();
+    hif_error_if(B.ncols() != n, "must be squared systems");
     hif_assert(p.size() >= n, "invalid P permutation size");
     hif_assert(q.size() >= n, "invalid Q permutation size");
     hif_assert(s.size() >= n, "invalid S row scaling size");
@@ -90,11 +90,22 @@ class EqlDriver {
           iterative_scale<IsSymm>(B, s, t, 1e-10, 5);
           break;
       }
+      // The matching works with the logarithm of the magnitudes, thus a stored
+      // zero (e.g., due to cancellation in a Schur complement) has an infinite
+      // cost, and the scaling becomes meaningless once such an entry is needed.
+      // Therefore, zeros are left out, i.e., treated as if they were not stored
+      crs_type        B_nz;
+      const crs_type &C = has_zeros(B) ? (compress(B, B_nz), B_nz) : B;
+      if (!C.nnz()) {
+        // nothing to match
+        for (size_type i(0); i < n; ++i) p[i] = i + 1;
+        break;
+      }
       // deal with scaling and matching
       kernel_type eq;
       const int   info =
-          eq.compute(n, nnz, B.row_start().data(), B.col_ind().data(),
-                     B.vals().data(), p.data());
+          eq.compute(n, C.nnz(), C.row_start().data(), C.col_ind().data(),
+                     C.vals().data(), p.data());
 
       if (info < 0) {
         hif_error(
@@ -130,6 +141,39 @@ class EqlDriver {
     } else
       for (size_type i(0); i < n; ++i) q[i] = i;
   }
+
+ protected:
+  /// \brief check if there are stored zeros
+  inline static bool has_zeros(const crs_type &B) {
+    return std::find(B.vals().cbegin(), B.vals().cend(), value_type(0)) !=
+           B.vals().cend();
+  }
+
+  /// \brief copy a matrix (in Fortran index) without its stored zeros
+  inline static void compress(const crs_type &B, crs_type &C) {
+    const size_type n = B.nrows(), nnz = B.nnz();
+    const size_type nz =
+        nnz - std::count(B.vals().cbegin(), B.vals().cend(), value_type(0));
+    C.resize(n, n);
+    C.row_start().resize(n + 1);
+    C.col_ind().resize(nz);
+    C.vals().resize(nz);
+    hif_error_if(C.row_start().status() == DATA_UNDEF ||
+                     C.col_ind().status() == DATA_UNDEF ||
+                     C.vals().status() == DATA_UNDEF,
+                 "memory allocation failed");
+    size_type k(0);
+    C.row_start().front() = 1;
+    for (size_type i(0); i < n; ++i) {
+      for (size_type j = B.row_start()[i] - 1, end = B.row_start()[i + 1] - 1;
+           j < end; ++j)
+        if (B.vals()[j] != value_type(0)) {
+          C.col_ind()[k] = B.col_ind()[j];
+          C.vals()[k++]  = B.vals()[j];
+        }
+      C.row_start()[i + 1] = k + 1;
+    }
+  }
 };
 
 }  // namespace hif
-- 
2.43.0


From 8a515bf6f7d502fe8742511ee9982da9c2fa8540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 18/67] fix: an array resized or reserved to zero length is
 valid and empty

---
 src/hif/ds/Array.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index a63dea3..11e94eb 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -350,8 +350,8 @@ class Array {
   /// \sa reserve
   inline void resize(const size_type n, bool presv = true) {
     hif_assert(_status != DATA_WRAP, "cannot resize external data");
-    // quick return
-    if (n <= _cap) {
+    // quick return, NOTE that an array without data becomes a valid empty one
+    if (n <= _cap && _status != DATA_UNDEF) {
       _size = n;
       return;
     }
@@ -381,7 +381,7 @@ class Array {
   /// \sa resize
   inline void reserve(const size_type n) {
     hif_assert(_status != DATA_WRAP, "cannot call reserve for external data");
-    if (_cap >= n) return;
+    if (_cap >= n && _status != DATA_UNDEF) return;
     pointer data = new (std::nothrow) value_type[n];
     hif_assert(data, "memory allocation failed");
     if (!data) {
-- 
2.43.0


From 152d40e4f314bc9ab87edf90fc4c6a116fa57975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 19/67] fix: assign arrays that share their data but differ in
 size

---
 src/hif/ds/Array.hpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index 11e94eb..de09f2f 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -258,16 +258,8 @@ class Array {
   /// \param[in] other rhs Array
   /// \return lvalue reference of \a this
   Array& operator=(const Array& other) {
-    if (_data != other._data) {
-      // first, deallocate this
-      this->~Array();
-      _data   = other._data;
-      _size   = other._size;
-      _cap    = other._cap;
-      _status = other._status;
-      _counts = other._counts;
-      _counts->inc();
-    }
+    // NOTE that arrays sharing the same data can still differ in the size
+    if (this != &other) Array(other).swap(*this);
     return *this;
   }
 
@@ -275,7 +267,7 @@ class Array {
   /// \param[in] other rhs temp Array
   /// \return lvalue reference of \a this
   Array& operator=(Array&& other) {
-    if (_data != other._data) {
+    if (this != &other) {
       // call destructor
       this->~Array();
       _data   = other._data;
-- 
2.43.0


From d39113e798068080ca55668e03f470473f1f4a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:29 +0000
Subject: [PATCH 20/67] fix: keep the null-space filter as it was when an empty
 callback is rejected

---
 src/hif/NspFilter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/NspFilter.hpp b/src/hif/NspFilter.hpp
index ab746e1..c280612 100644
--- a/src/hif/NspFilter.hpp
+++ b/src/hif/NspFilter.hpp
@@ -129,9 +129,9 @@ class NspFilter {
 
   /// \brief set null space callback
   inline void set_nsp_callback(const user_cb_type &f) {
+    if (!f) hif_error("empty user callback was not attached!");
     _user_f = f;
-    if (!_user_f) hif_error("empty user callback was not attached!");
-    _type = USER_CB;
+    _type   = USER_CB;
   }
 
   /// \brief filtering out null space component from \a x
-- 
2.43.0


From d6ca6715b2b1c7a95e14c5b4358d609b48c7987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:24 +0000
Subject: [PATCH 21/67] fix: refuse the index of the dense part as a sparse
 level

---
 src/hif/builder.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index f7b319a..7a41d6a 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -236,8 +236,10 @@ class HIF {
   /// \brief get constant reference to a specific level
   /// \note This function takes linear time complexity
   inline const prec_type &prec(const size_type level) const {
-    hif_error_if(level >= levels(), "%zd exceeds the total level number %zd",
-                 level, levels());
+    // NOTE the dense part of the last level counts in levels()
+    hif_error_if(level >= _precs.size(),
+                 "%zd exceeds the total level number %zd", level,
+                 _precs.size());
     auto itr = _precs.cbegin();
     std::advance(itr, level);
     return *itr;
-- 
2.43.0


From 5b22910f88f679217f0a0c1e71bfc5b9052a647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:34 +0000
Subject: [PATCH 22/67] fix: export the factors of an empty leading block

---
 src/hif/ds/CompressedStorage.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 0079753..2243f1d 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -2719,7 +2719,12 @@ inline void export_compressed_data(const CSCopiedType &             A,
                                    typename ExportCSType::pointer   vals) {
   // if export is same as copied, then this is shallow copy
   const ExportCSType AA(A);
-  std::copy_n(AA.ind_start().cbegin(), AA.primary_size() + 1, ind_start);
+  // NOTE that a matrix without storage, e.g., the factors of an empty leading
+  // block, does not have starting positions
+  if (AA.ind_start().size())
+    std::copy_n(AA.ind_start().cbegin(), AA.primary_size() + 1, ind_start);
+  else
+    std::fill_n(ind_start, AA.primary_size() + 1, 0);
   std::copy_n(AA.inds().cbegin(), AA.nnz(), indices);
   std::copy_n(AA.vals().cbegin(), AA.nnz(), vals);
 }
-- 
2.43.0


From 629ad7365734f2914d70d8ea91a6f12e7137d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 23/67] fix: do not report the extremes of an empty leading
 block

---
 src/hif/alg/factor.hpp       | 2 +-
 src/hif/alg/pivot_factor.hpp | 2 +-
 src/hif/alg/symm_factor.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index c4237e5..0a2764f 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -1060,7 +1060,7 @@ inline CsType level_factorize(
   stats[5] += info_counter[3] + info_counter[4];  // space-based droppings
 
   // now we are done
-  if (hif_verbose(INFO2, opts)) {
+  if (m && hif_verbose(INFO2, opts)) {
     hif_info(
         "finish Crout update...\n"
         "\ttotal deferrals=%zd\n"
diff --git a/src/hif/alg/pivot_factor.hpp b/src/hif/alg/pivot_factor.hpp
index 635d979..50a9852 100644
--- a/src/hif/alg/pivot_factor.hpp
+++ b/src/hif/alg/pivot_factor.hpp
@@ -505,7 +505,7 @@ inline CsType pivot_level_factorize(
   stats[5] += info_counter[3] + info_counter[4];  // space-based droppings
 
   // now we are done
-  if (hif_verbose(INFO2, opts)) {
+  if (m && hif_verbose(INFO2, opts)) {
     hif_info(
         "finish Crout update...\n"
         "\ttotal deferrals=%zd\n"
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index e36ea23..8dee79d 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -460,7 +460,7 @@ inline CsType symm_level_factorize(
   stats[5] += info_counter[3] + info_counter[4];  // space-based droppings
 
   // now we are done
-  if (hif_verbose(INFO2, opts)) {
+  if (m && hif_verbose(INFO2, opts)) {
     hif_info(
         "finish Crout update...\n"
         "\ttotal deferrals=%zd\n"
-- 
2.43.0


From 80497ca80db248d9209535ad5423a1b8ee876b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 24/67] fix: convert the index arrays of a system whose integer
 types differ

---
 src/hif/builder.hpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 7a41d6a..3466ded 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -270,12 +270,6 @@ class HIF {
     using cs_type =
         typename std::conditional<CsType::ROW_MAJOR, crs_type, ccs_type>::type;
 
-    static_assert(sizeof(index_type) == sizeof(typename CsType::index_type),
-                  "inconsistent index types");
-    static_assert(
-        sizeof(index_type) == sizeof(typename CsType::index_type),
-        "inconsistent indptr types");
-
     // print introduction
     if (hif_verbose(INFO, params)) {
       if (!internal::introduced) {
@@ -312,11 +306,22 @@ class HIF {
     // check index base
     if (A.nrows()) {
       if (A.ind_start()[0] == indptr_type(0)) {
-        // 0-based, shallow copy
-        AA.ind_start() = iparray_type(
-            A.ind_start().size(), (indptr_type *)A.ind_start().data(), true);
-        AA.inds() =
-            iarray_type(A.inds().size(), (index_type *)A.inds().data(), true);
+        // 0-based, shallow copy unless the integer types differ
+        if (sizeof(indptr_type) == sizeof(typename CsType::indptr_type))
+          AA.ind_start() = iparray_type(
+              A.ind_start().size(), (indptr_type *)A.ind_start().data(), true);
+        else {
+          AA.ind_start().resize(A.ind_start().size());
+          std::copy(A.ind_start().cbegin(), A.ind_start().cend(),
+                    AA.ind_start().begin());
+        }
+        if (sizeof(index_type) == sizeof(typename CsType::index_type))
+          AA.inds() =
+              iarray_type(A.inds().size(), (index_type *)A.inds().data(), true);
+        else {
+          AA.inds().resize(A.inds().size());
+          std::copy(A.inds().cbegin(), A.inds().cend(), AA.inds().begin());
+        }
       } else if (A.ind_start()[0] == indptr_type(1)) {
         // 1-based
         if (hif_verbose(INFO, params))
-- 
2.43.0


From d85cb9956b8635170538b19d1f417c09d1d849d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 25/67] fix: reject decreasing starting positions, short arrays
 and too large leading blocks

---
 src/hif/builder.hpp              | 7 ++++++-
 src/hif/ds/CompressedStorage.hpp | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 3466ded..58b3a1e 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -305,6 +305,8 @@ class HIF {
     AA.resize(A.nrows(), A.ncols());
     // check index base
     if (A.nrows()) {
+      hif_error_if(A.ind_start().size() <= A.primary_size(),
+                   "invalid size of the starting position array");
       if (A.ind_start()[0] == indptr_type(0)) {
         // 0-based, shallow copy unless the integer types differ
         if (sizeof(indptr_type) == sizeof(typename CsType::indptr_type))
@@ -335,6 +337,9 @@ class HIF {
       } else
         hif_error("only {0,1}-based compressed sparse matrices are supported!");
     }
+    hif_error_if(A.vals().size() < A.nnz(), "invalid size of the value array");
+    hif_error_if(m0 > A.nrows(), "leading size %zd exceeds system size %zd", m0,
+                 (size_type)A.nrows());
     // check value type consistency
     if (std::is_same<value_type, typename CsType::value_type>::value)
       AA.vals() = array_type(A.nnz(), (value_type *)A.vals().data(), true);
@@ -346,7 +351,7 @@ class HIF {
       AA.vals().resize(A.nnz());
       hif_error_if(AA.vals().status() == DATA_UNDEF,
                    "memory allocation failed");
-      std::copy(A.vals().cbegin(), A.vals().cend(), AA.vals().begin());
+      std::copy_n(A.vals().cbegin(), A.nnz(), AA.vals().begin());
     }
     // check validity of the input system
     if (params.check) {
diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 2243f1d..09d3b01 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -204,6 +204,12 @@ class CompressedStorage {
             "inconsistent between nnz (%s_start(end)-%s_start(first),%zd) and "
             "indices/values length %zd/%zd",
             pname, pname, nnz(), _indices.size(), _vals.size());
+      // check the starting positions before using them
+      for (size_type i = 0u; i < _psize; ++i)
+        hif_error_if(_ind_start[i] > _ind_start[i + 1] ||
+                         _ind_start[i + 1] > _ind_start.back(),
+                     "%s start array is decreasing after %s %zd (C-based)",
+                     pname, pname, i);
       // check each entry
       for (size_type i = 0u; i < _psize; ++i) {
         hif_error_if(!std::is_sorted(_ind_cbegin(i), _ind_cend(i),
-- 
2.43.0


From 45819ba4701a3d9cd37b272fbba647fcc50701bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 26/67] fix: refuse vectors whose size differs from that of the
 preconditioner

---
 src/hif/builder.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 58b3a1e..d48ee0f 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -428,7 +428,8 @@ class HIF {
   inline void solve(const RhsType &b, SolType &x, const bool trans = false,
                     const size_type r = 0u) const {
     hif_error_if(empty(), "MILU-Prec is empty!");
-    hif_error_if(b.size() != x.size(), "unmatched sizes");
+    hif_error_if(b.size() != x.size() || b.size() != nrows(),
+                 "unmatched sizes");
     if (_prec_work.empty())
       _prec_work.resize(
           compute_prec_work_space(_precs.cbegin(), _precs.cend()));
@@ -453,7 +454,8 @@ class HIF {
                          Array<std::array<SolValueType, Nrhs>> &      x,
                          const size_type r = 0u) const {
     hif_error_if(empty(), "MILU-Prec is empty!");
-    hif_error_if(b.size() != x.size(), "unmatched sizes");
+    hif_error_if(b.size() != x.size() || b.size() != nrows(),
+                 "unmatched sizes");
     hif_error_if(nsp, "multiple RHS does not support null space filter.");
     const auto nw = compute_prec_work_space(_precs.cbegin(), _precs.cend());
     // NOTE the buffer may come from solve or from fewer right-hand sides
@@ -481,6 +483,8 @@ class HIF {
     // NOTE, do not assume A shares interface of CRS, as it can be
     // user callback
     hif_error_if(empty(), "MILU-Prec is empty!");
+    hif_error_if(b.size() != x.size() || b.size() != nrows(),
+                 "unmatched sizes");
     _ir.iter_refine(*this, A, b, N, x, r, trans);
   }
 
@@ -506,6 +510,8 @@ class HIF {
     // NOTE, do not assume A shares interface of CRS, as it can be
     // user callback
     hif_error_if(empty(), "MILU-Prec is empty!");
+    hif_error_if(b.size() != x.size() || b.size() != nrows(),
+                 "unmatched sizes");
     return _ir.iter_refine(*this, A, b, N, betas, x, r, trans);
   }
 
@@ -524,7 +530,8 @@ class HIF {
   inline void mmultiply(const RhsType &x, SolType &y, const bool trans = false,
                         const size_type r = 0u) const {
     hif_error_if(empty(), "MILU-Prec is empty!");
-    hif_error_if(y.size() != x.size(), "unmatched sizes");
+    hif_error_if(y.size() != x.size() || y.size() != nrows(),
+                 "unmatched sizes");
     if (_prec_work.empty())
       _prec_work.resize(
           compute_prec_work_space(_precs.cbegin(), _precs.cend()));
-- 
2.43.0


From 5148fe7bc8d0ecbc28066124518f26323a96e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 27/67] fix: the transposed product with a matrix without rows
 is zero

---
 src/hif/ds/CompressedStorage.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 09d3b01..495ecc5 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1258,7 +1258,7 @@ class CRS
         typename std::conditional<(sizeof(Vx) > sizeof(Vy)), Vx, Vy>::type;
     using v_t = typename std::conditional<(sizeof(v1_t) > sizeof(value_type)),
                                           v1_t, value_type>::type;
-    if (!_psize) return;
+    // NOTE the product with a matrix without rows is zero
     std::fill_n(y, ncols(), Vy(0));
     for (size_type i = 0u; i < _psize; ++i) {
       const v_t temp  = x[i];
@@ -1298,7 +1298,6 @@ class CRS
         typename std::conditional<(sizeof(Vx) > sizeof(Vy)), Vx, Vy>::type;
     using v_t = typename std::conditional<(sizeof(v1_t) > sizeof(value_type)),
                                           v1_t, value_type>::type;
-    if (!_psize) return;
     std::fill_n(y, Nrhs * ncols(), Vy(0));
     std::array<v_t, Nrhs> temp;
     for (size_type i = 0u; i < _psize; ++i) {
-- 
2.43.0


From 5225d625b96c57682aea97171c84745aa4093931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:04 +0000
Subject: [PATCH 28/67] fix: conjugate in the transposed product with several
 right-hand sides

---
 src/hif/ds/CompressedStorage.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 495ecc5..b1493c9 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1307,7 +1307,8 @@ class CRS
       for (auto last = col_ind_cend(i); i_itr != last; ++i_itr, ++v_itr) {
         const size_type j = *i_itr;
         hif_assert(j < _ncols, "%zd exceeds column size", j);
-        for (size_type k(0); k < Nrhs; ++k) y[j * Nrhs + k] += temp[k] * *v_itr;
+        const auto avc = conjugate(*v_itr);
+        for (size_type k(0); k < Nrhs; ++k) y[j * Nrhs + k] += temp[k] * avc;
       }
     }
   }
@@ -2216,8 +2217,9 @@ class CCS
       for (auto last = row_ind_cend(i); i_itr != last; ++i_itr, ++v_itr) {
         hif_assert(size_type(*i_itr) < _nrows, "%zd exceeds the size bound",
                    size_type(*i_itr));
-        const auto av = *v_itr;
-        for (size_type k(0); k < Nrhs; ++k) tmp[k] += x[*i_itr * Nrhs + k] * av;
+        const auto avc = conjugate(*v_itr);
+        for (size_type k(0); k < Nrhs; ++k)
+          tmp[k] += x[*i_itr * Nrhs + k] * avc;
       }
       for (size_type k(0); k < Nrhs; ++k) y[i * Nrhs + k] = tmp[k];
     }
-- 
2.43.0


From 26a9651bdfb0715551cee755ad090e933ef3f12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 29/67] fix: products with several right-hand sides and an
 empty inner dimension are zero

---
 src/hif/ds/CompressedStorage.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index b1493c9..8a9fa81 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1222,6 +1222,8 @@ class CRS
                  "matrix vector multiplication unmatched sizes!");
     if (x.size() && y.size())
       multiply_mrhs_nt_low<Nrhs>(x[0].data(), y[0].data());
+    else
+      for (auto &v : y) v.fill(OutType(0));  // empty sum
   }
 
   /// \brief matrix vector multiplication for MT (CRS only)
@@ -1244,6 +1246,8 @@ class CRS
                  "out-of-bound pass-of-end range detected");
     if (x.size() && y.size())
       multiply_mrhs_nt_low<Nrhs>(x[0].data(), istart, len, y[0].data());
+    else
+      for (size_type i(istart); i < istart + len; ++i) y[i].fill(OutType(0));
   }
 
   /// \brief matrix transpose vector multiplication with different type
@@ -1326,6 +1330,8 @@ class CRS
                  "T(matrix) vector multiplication unmatched sizes!");
     if (x.size() && y.size())
       multiply_mrhs_t_low<Nrhs>(x[0].data(), y[0].data());
+    else
+      for (auto &v : y) v.fill(OutType(0));  // empty sum
   }
 
   /// \brief matrix vector multiplication
@@ -2155,6 +2161,8 @@ class CCS
                  "matrix vector unmatched sizes!");
     if (x.size() && y.size())
       multiply_mrhs_nt_low<Nrhs>(x[0].data(), y[0].data());
+    else
+      for (auto &v : y) v.fill(OutType(0));  // empty sum
   }
 
   /// \brief matrix transpose vector multiplication with different type
@@ -2238,6 +2246,8 @@ class CCS
                  "T(matrix) vector unmatched sizes!");
     if (x.size() && y.size())
       multiply_mrhs_t_low<Nrhs>(x[0].data(), y[0].data());
+    else
+      for (auto &v : y) v.fill(OutType(0));  // empty sum
   }
 
   /// \brief matrix vector multiplication
-- 
2.43.0


From a517edef471759d5c6c7ad307f399a6d58437f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 30/67] fix: transposed lower solves with several right-hand
 sides skipped entries

---
 src/hif/ds/CompressedStorage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 8a9fa81..9c0b0c4 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1441,7 +1441,7 @@ class CRS
     using rev_v_iterator = std::reverse_iterator<const_v_iterator>;
 
     std::array<InOutType, Nrhs> tmp;
-    for (size_type j(_ncols - 1); j != 0u; --j) {
+    for (size_type j(_ncols); j != 0u; --j) {
       const auto j1 = j - 1;
       for (size_type k(0); k < Nrhs; ++k) tmp[k] = y[j1][k];
       auto itr   = rev_iterator(col_ind_cend(j1));
@@ -2357,7 +2357,7 @@ class CCS
       auto            itr   = row_ind_cbegin(j1);
       auto            v_itr = _base::val_cbegin(j1);
       tmp.fill(v_t(0));
-      for (auto last = row_ind_cbegin(j1); itr != last; ++itr, ++v_itr) {
+      for (auto last = row_ind_cend(j1); itr != last; ++itr, ++v_itr) {
         const auto avc = conjugate(static_cast<v_t>(*v_itr));
         for (size_type k(0); k < Nrhs; ++k) tmp[k] += avc * y[*itr][k];
       }
-- 
2.43.0


From fea7f4df748f78a3da93ff21f7a60e44fa305029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:31 +0000
Subject: [PATCH 31/67] fix: prune by the largest magnitudes of rows and
 columns

---
 src/hif/ds/CompressedStorage.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 9c0b0c4..c8f15c0 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -681,10 +681,11 @@ class CompressedStorage {
       // index since this maybe called by the user directly, and the user
       // may use 1-based index.
       Array<scalar_type> buf(n + 1);
-      std::fill_n(buf.begin(), n, scalar_type(0));
-      // determine the thresholds for the orthogonal direction
+      std::fill_n(buf.begin(), n + 1, scalar_type(0));
+      // determine the largest magnitudes for the orthogonal direction
       for (size_type i(0); i < nz; ++i)
-        buf[_indices[i]] = eps * std::max(buf[_indices[i]], std::abs(_vals[i]));
+        buf[_indices[i]] =
+            std::max<scalar_type>(buf[_indices[i]], std::abs(_vals[i]));
       for (size_type i(0); i < psize; ++i) {
         const size_type j_bak(j);
         auto            v_itr = v_itr_first + pos;
@@ -700,7 +701,7 @@ class CompressedStorage {
                   }));
           auto i_itr2 = i_itr;
           for (auto itr = v_itr; itr != last; ++itr, ++i_itr2)
-            if (!(std::abs(*itr) <= std::min(thres, buf[*i_itr2]))) {
+            if (!(std::abs(*itr) <= std::min<scalar_type>(thres, eps * buf[*i_itr2]))) {
               _indices[j] = *i_itr2;
               _vals[j++]  = *itr;
             }
-- 
2.43.0


From 7145b879b19e50e1a8e5a961586052675b339606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:31 +0000
Subject: [PATCH 32/67] fix: validate wrapped matrices in full and keep their
 pointer type

---
 src/hif/ds/CompressedStorage.hpp | 51 ++------------------------------
 1 file changed, 3 insertions(+), 48 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index c8f15c0..75a4df0 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1771,7 +1771,7 @@ using CSR = CRS<ValueType, IndexType, IndPtrType>;
 /// \warning It's the user's responsibility to maintain the external data
 /// \ingroup ds
 template <class ValueType, class IndexType, class IndPtrType>
-inline CRS<ValueType, IndexType> wrap_const_crs(
+inline CRS<ValueType, IndexType, IndPtrType> wrap_const_crs(
     const typename CRS<ValueType, IndexType, IndPtrType>::size_type nrows,
     const typename CRS<ValueType, IndexType, IndPtrType>::size_type ncols,
     const IndPtrType *row_start, const IndexType *col_ind,
@@ -1788,29 +1788,7 @@ inline CRS<ValueType, IndexType> wrap_const_crs(
                   const_cast<IndexType *>(col_ind),
                   const_cast<ValueType *>(vals), WRAP);
 
-  if (check) {
-    if (row_start[0] != 0)
-      hif_error("first entry of row_start does not agree with 0.");
-    for (size_type i = 0u; i < nrows; ++i) {
-      if (!mat.nnz_in_row(i)) {
-#ifdef HIF_DEBUG
-        hif_warning("row %zd is empty!", i);
-#endif
-        continue;
-      }
-      auto last = mat.col_ind_cend(i), first = mat.col_ind_cbegin(i);
-      auto itr = std::is_sorted_until(
-          first, last,
-          [](const IndexType i, const IndexType j) { return i <= j; });
-      if (itr != last)
-        hif_error("%zd row is not sorted, the checking failed at entry %td", i,
-                  itr - first);
-      else
-        hif_error_if(size_type(*(last - 1)) >= mat.ncols(),
-                     "%zd exceeds column size %zd", size_type(*(last - 1)),
-                     mat.ncols());
-    }
-  }
+  if (check) mat.check_validity();
   return mat;
 }
 
@@ -2694,30 +2672,7 @@ inline CCS<ValueType, IndexType, IndPtrType> wrap_const_ccs(
                   const_cast<IndexType *>(row_ind),
                   const_cast<ValueType *>(vals), WRAP);
 
-  if (check) {
-    if (col_start[0] != 0)
-      hif_error("first entry of row_start does not agree with 0.");
-    Array<ValueType> buf;
-    for (size_type i = 0u; i < nrows; ++i) {
-      if (!mat.nnz_in_col(i)) {
-#ifdef HIF_DEBUG
-        hif_warning("row %zd is empty!", i);
-#endif
-        continue;
-      }
-      auto last = mat.row_ind_cend(i), first = mat.row_ind_cbegin(i);
-      auto itr = std::is_sorted_until(
-          first, last,
-          [](const IndexType i, const IndexType j) { return i <= j; });
-      if (itr != last)
-        hif_error("%zd row is not sorted, the checking failed at entry %td", i,
-                  itr - first);
-      else
-        hif_error_if(size_type(*(last - 1)) >= mat.nrows(),
-                     "%zd exceeds row size %zd", size_type(*(last - 1)),
-                     mat.nrows());
-    }
-  }
+  if (check) mat.check_validity();
   return mat;
 }
 
-- 
2.43.0


From a62d94cde4a0d14c88bcdb1d1e9bffe64e72fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 33/67] fix: take starting positions in the double splits that
 convert

---
 src/hif/ds/CompressedStorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 75a4df0..1697a92 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1680,7 +1680,7 @@ class CRS
   /// \param[in] m column size
   /// \param[in] start starting position array, at least size of nrows()
   inline std::pair<other_type, other_type> split_ccs(
-      const size_type m, const iarray_type &start) const {
+      const size_type m, const iparray_type &start) const {
     return std::make_pair(split_ccs<false>(m, start),
                           split_ccs<true>(m, start));
   }
-- 
2.43.0


From 00f14a3dd026663df77ebcdfbe1f34588bda5520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 34/67] fix: leading blocks without entries have empty rows

---
 src/hif/ds/CompressedStorage.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 1697a92..99491e8 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -635,7 +635,8 @@ class CompressedStorage {
         itr           = std::copy(ind_cbegin(i), last, itr);
         indptr[i + 1] = indptr[i] + (last - ind_cbegin(i));
       }
-    }
+    } else
+      std::fill(indptr.begin(), indptr.end(), indptr_type(0));
   }
 
   /// \brief extract leading block
-- 
2.43.0


From 49e9da5b5ef83869f8e29cbd3d6b485a784861a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 35/67] fix: prune matrices with one-based indices

---
 src/hif/ds/CompressedStorage.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 99491e8..435e113 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -673,6 +673,8 @@ class CompressedStorage {
       const size_type psize = _psize;
       eps                   = eps < 0.0 ? 0.0 : eps;
       const size_type nz    = nnz();
+      // 0 or 1, see the comment on the work space below
+      const size_type base = _ind_start[0];
       size_type       j(0);
       auto            v_itr_first = _vals.cbegin();
       auto            i_itr_first = _indices.cbegin();
@@ -691,7 +693,7 @@ class CompressedStorage {
         const size_type j_bak(j);
         auto            v_itr = v_itr_first + pos;
         auto            i_itr = i_itr_first + pos;
-        const auto      lnnz  = _ind_start[i + 1] - pos;
+        const auto      lnnz  = _ind_start[i + 1] - base - pos;
         if (lnnz) {
           auto              last = v_itr + lnnz;
           const scalar_type thres =
@@ -708,7 +710,7 @@ class CompressedStorage {
             }
         }
         // update position
-        pos               = _ind_start[i + 1];
+        pos               = _ind_start[i + 1] - base;
         _ind_start[i + 1] = _ind_start[i] + (j - j_bak);
       }
       const size_type elms = nz - j;
-- 
2.43.0


From a452fd4cd14e87e8a1d6ef1a2fe346ae53055de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 36/67] fix: bound the tokens read from the first line of
 MatrixMarket files

---
 src/hif/utils/io.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 44436d8..e1e4752 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -627,8 +627,11 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
   char storage_scheme[65];
 
   // read the first line
-  if (!std::fgets(line, 1025, f)) hif_error("unable to read the first line");
-  if (std::sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if (!std::fgets(line, 1025, f)) {
+    std::fclose(f);
+    hif_error("unable to read the first line");
+  }
+  if (std::sscanf(line, "%64s %64s %64s %64s %64s", banner, mtx, crd, data_type,
                   storage_scheme) != 5) {
     std::fclose(f);
     hif_error("insufficient number of tokens in the first line");
-- 
2.43.0


From 8fd865b37f35d227fb9de592de1c66935b9cafb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 37/67] fix: reject unreadable or negative sizes in
 MatrixMarket files

---
 src/hif/utils/io.hpp | 55 ++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index e1e4752..bd0c240 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -702,25 +702,27 @@ inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
     }
   } while (line[0] == '%');
 
-  int m, n, nz;
-  if (sscanf(line, "%d %d %d", &m, &n, &nz) == 3) {
+  int        m, n, nz;
+  const auto set_sizes = [&]() {
+    if (m < 0 || n < 0 || nz < 0) {
+      std::fclose(f);
+      hif_error("negative sizes");
+    }
     nrows = m;
     ncols = n;
     nnz   = nz;
+  };
+  if (sscanf(line, "%d %d %d", &m, &n, &nz) == 3) {
+    set_sizes();
     return;
   }
 
-  int num_items_read;
-  do {
-    num_items_read = std::fscanf(f, "%d %d %d", &m, &n, &nz);
-    if (num_items_read == EOF) {
-      std::fclose(f);
-      hif_error("reached EOF!");
-    }
-  } while (num_items_read != 3);
-  nrows = m;
-  ncols = n;
-  nnz   = nz;
+  // blank lines, whose end is skipped by scanf
+  if (std::fscanf(f, "%d %d %d", &m, &n, &nz) != 3) {
+    std::fclose(f);
+    hif_error("unable to read the sizes");
+  }
+  set_sizes();
 }
 
 inline void mm_read_dense_size(std::FILE *f, std::size_t &nrows,
@@ -737,23 +739,26 @@ inline void mm_read_dense_size(std::FILE *f, std::size_t &nrows,
     }
   } while (line[0] == '%');
 
-  int m, n;
-  if (sscanf(line, "%d %d", &m, &n) == 2) {
+  int        m, n;
+  const auto set_sizes = [&]() {
+    if (m < 0 || n < 0) {
+      std::fclose(f);
+      hif_error("negative sizes");
+    }
     nrows = m;
     ncols = n;
+  };
+  if (sscanf(line, "%d %d", &m, &n) == 2) {
+    set_sizes();
     return;
   }
 
-  int num_items_read;
-  do {
-    num_items_read = std::fscanf(f, "%d %d", &m, &n);
-    if (num_items_read == EOF) {
-      std::fclose(f);
-      hif_error("reached EOF!");
-    }
-  } while (num_items_read != 2);
-  nrows = m;
-  ncols = n;
+  // blank lines, whose end is skipped by scanf
+  if (std::fscanf(f, "%d %d", &m, &n) != 2) {
+    std::fclose(f);
+    hif_error("unable to read the sizes");
+  }
+  set_sizes();
 }
 
 /*!
-- 
2.43.0


From a3a51871d927dee55426fa1ac563fae1ee505688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 38/67] fix: reject MatrixMarket entries that are out of range

---
 src/hif/utils/io.hpp | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index bd0c240..5e2433e 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -544,7 +544,8 @@ set_imag(const double i, V &x) {
 
 /// \brief Internal routine to read sparse data
 template <int TypeID, bool IsReal, class IndexType, class ValueType>
-inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
+inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
+                                const std::size_t ncols, const std::size_t nnz,
                                 Array<IndexType> &rows, Array<IndexType> &cols,
                                 Array<ValueType> &vals) {
   // type IDs
@@ -563,6 +564,11 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
     cols.resize(nnz);
     vals.resize(nnz);
   }
+  if (rows.status() == DATA_UNDEF || cols.status() == DATA_UNDEF ||
+      vals.status() == DATA_UNDEF) {
+    std::fclose(f);
+    hif_error("memory allocation failed");
+  }
 
   std::size_t index(0);
   int         r, c;
@@ -574,6 +580,13 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
       std::fclose(f);
       hif_error("insufficient objects scanned from fscanf");
     }
+    // NOTE that the mirrored entries must be in range as well
+    if (r < 1 || c < 1 || std::size_t(r) > nrows || std::size_t(c) > ncols ||
+        (TypeID != GENERAL &&
+         (std::size_t(c) > nrows || std::size_t(r) > ncols))) {
+      std::fclose(f);
+      hif_error("entry (%d,%d) is out of range", r, c);
+    }
     rows[index] = r - 1;  // to 0-based index
     cols[index] = c - 1;  // to 0-based index
     set_real(vr, vals[index]);
@@ -603,6 +616,10 @@ template <bool IsReal, class ValueType>
 inline void mm_read_vector_data(std::FILE *f, const std::size_t n,
                                 Array<ValueType> &v) {
   v.resize(n);
+  if (v.status() == DATA_UNDEF) {
+    std::fclose(f);
+    hif_error("memory allocation failed");
+  }
   double vr, vi;
   for (std::size_t i(0); i < n; ++i) {
     const int flag = IsReal ? std::fscanf(f, "%lg", &vr)
@@ -811,22 +828,30 @@ inline void read_mm_sparse(const char *filename, std::size_t &nrows,
   // read data
   if (is_real) {
     if (type_id == 0)
-      internal::mm_read_sparse_data<0, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<0, true>(f, nrows, ncols, nnz, rows, cols,
+                                                vals);
     else if (type_id == 1)
-      internal::mm_read_sparse_data<1, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<1, true>(f, nrows, ncols, nnz, rows, cols,
+                                                vals);
     else if (type_id == 2)
-      internal::mm_read_sparse_data<2, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<2, true>(f, nrows, ncols, nnz, rows, cols,
+                                                vals);
     else
-      internal::mm_read_sparse_data<3, true>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<3, true>(f, nrows, ncols, nnz, rows, cols,
+                                                vals);
   } else {
     if (type_id == 0)
-      internal::mm_read_sparse_data<0, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<0, false>(f, nrows, ncols, nnz, rows, cols,
+                                                vals);
     else if (type_id == 1)
-      internal::mm_read_sparse_data<1, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<1, false>(f, nrows, ncols, nnz, rows, cols,
+                                                vals);
     else if (type_id == 2)
-      internal::mm_read_sparse_data<2, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<2, false>(f, nrows, ncols, nnz, rows, cols,
+                                                vals);
     else
-      internal::mm_read_sparse_data<3, false>(f, nnz, rows, cols, vals);
+      internal::mm_read_sparse_data<3, false>(f, nrows, ncols, nnz, rows, cols,
+                                                vals);
   }
   std::fclose(f);
 }
-- 
2.43.0


From 128add4d866de4021acf344c9bccf9aa483fa761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 39/67] fix: report failures to write MatrixMarket files

---
 src/hif/utils/io.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 5e2433e..2e9a10d 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -918,6 +918,7 @@ inline void write_mm_vector(const char *filename, const Array<ValueType> &v) {
     f << '\n';
   }
   f.close();
+  hif_error_if(!f, "failed to write file %s", filename);
 }
 
 /// \brief Write a sparse matrix
@@ -971,6 +972,7 @@ inline void write_mm_sparse(const char *filename, const std::size_t other_size,
     }
   }
   f.close();
+  hif_error_if(!f, "failed to write file %s", filename);
 }
 
 /*!
-- 
2.43.0


From a3aad1b75c10a54abb08aa0b0c6f4035b27153ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 40/67] fix: number of nonzeros of an empty matrix handle

---
 libhifir/src/libhifir.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index d59d310..01cdacb 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -335,7 +335,8 @@ size_t lhfdGetMatrixSize(const LhfdMatrixHdl mat) {
 
 // get nnz
 size_t lhfdGetMatrixNnz(const LhfdMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -553,7 +554,8 @@ size_t lhfsGetMatrixSize(const LhfsMatrixHdl mat) {
 
 // get nnz
 size_t lhfsGetMatrixNnz(const LhfsMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -773,7 +775,8 @@ size_t lhfzGetMatrixSize(const LhfzMatrixHdl mat) {
 
 // get nnz
 size_t lhfzGetMatrixNnz(const LhfzMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -998,7 +1001,8 @@ size_t lhfcGetMatrixSize(const LhfcMatrixHdl mat) {
 
 // get nnz
 size_t lhfcGetMatrixNnz(const LhfcMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
-- 
2.43.0


From 56029d8e54b8761c010ab28e7bf07f559bebaff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 41/67] fix: keep the present matrix if an update is refused

---
 libhifir/src/libhifir.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 01cdacb..86759db 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -425,9 +425,9 @@ LhfStatus lhfdSetup(LhfdHifHdl hif, const LhfdMatrixHdl A,
 // Update A
 LhfStatus lhfdUpdate(LhfdHifHdl hif, const LhfdMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->A = A;
-  if (hif->A && !hif->M->empty())
-    if (hif->A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
@@ -646,9 +646,9 @@ LhfStatus lhfsSetup(LhfsHifHdl hif, const LhfsMatrixHdl A,
 // Update A
 LhfStatus lhfsUpdate(LhfsHifHdl hif, const LhfsMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->A = A;
-  if (hif->A && !hif->M->empty())
-    if (hif->A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
@@ -866,9 +866,9 @@ LhfStatus lhfzSetup(LhfzHifHdl hif, const LhfzMatrixHdl A,
 // Update A
 LhfStatus lhfzUpdate(LhfzHifHdl hif, const LhfzMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->A = A;
-  if (hif->A && !hif->M->empty())
-    if (hif->A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
@@ -1089,9 +1089,9 @@ LhfStatus lhfcSetup(LhfcHifHdl hif, const LhfcMatrixHdl A,
 // Update A
 LhfStatus lhfcUpdate(LhfcHifHdl hif, const LhfcMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->A = A;
-  if (hif->A && !hif->M->empty())
-    if (hif->A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
@@ -1186,9 +1186,9 @@ size_t lhfcGetSchurRank(const LhfcHifHdl hif) {
 // update Ad in hif by a double-precision matrix
 LhfStatus lhfsdUpdate(LhfsHifHdl hif, LhfdMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->Ad = A;
-  if (hif->Ad && !hif->M->empty())
-    if (hif->Ad->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
@@ -1235,9 +1235,9 @@ LhfStatus lhfsdSolve(const LhfsHifHdl hif, const double *b, double *x) {
 // update Az in hif by a double-precision matrix
 LhfStatus lhfczUpdate(LhfcHifHdl hif, LhfzMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->Az = A;
-  if (hif->Az && !hif->M->empty())
-    if (hif->Az->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
-- 
2.43.0


From 18d96a336d50965ab0255e534788b7c9643357d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 42/67] fix: keep the present matrix if a setup without
 matrices is refused

---
 libhifir/src/libhifir.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 86759db..1181db5 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -390,6 +390,7 @@ LhfdHifHdl lhfdCreate(const LhfdMatrixHdl A, const LhfdMatrixHdl S,
     std::free(M);
     return nullptr;
   }
+  M->A              = nullptr;
   const auto status = lhfdSetup(M, A, S, params);
   if (status == LHF_HIFIR_ERROR) {
     lhfdDestroy(M);
@@ -411,9 +412,9 @@ LhfStatus lhfdDestroy(LhfdHifHdl hif) {
 LhfStatus lhfdSetup(LhfdHifHdl hif, const LhfdMatrixHdl A,
                     const LhfdMatrixHdl S, const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
-  hif->A             = A ? A : S;
   LhfdMatrixHdl facA = S ? S : A;
   _LHF_CANNOT_ACCEPT_NULL(facA);
+  hif->A             = A ? A : S;
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
@@ -610,6 +611,8 @@ LhfsHifHdl lhfsCreate(const LhfsMatrixHdl A, const LhfsMatrixHdl S,
     std::free(M);
     return nullptr;
   }
+  M->A              = nullptr;
+  M->Ad             = nullptr;
   const auto status = lhfsSetup(M, A, S, params);
   if (status == LHF_HIFIR_ERROR) {
     lhfsDestroy(M);
@@ -631,10 +634,10 @@ LhfStatus lhfsDestroy(LhfsHifHdl hif) {
 LhfStatus lhfsSetup(LhfsHifHdl hif, const LhfsMatrixHdl A,
                     const LhfsMatrixHdl S, const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
-  hif->A             = A ? A : S;
   LhfsMatrixHdl facA = S ? S : A;
-  hif->Ad            = nullptr;
   _LHF_CANNOT_ACCEPT_NULL(facA);
+  hif->A             = A ? A : S;
+  hif->Ad            = nullptr;
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
@@ -831,6 +834,7 @@ LhfzHifHdl lhfzCreate(const LhfzMatrixHdl A, const LhfzMatrixHdl S,
     std::free(M);
     return nullptr;
   }
+  M->A              = nullptr;
   const auto status = lhfzSetup(M, A, S, params);
   if (status == LHF_HIFIR_ERROR) {
     lhfzDestroy(M);
@@ -852,9 +856,9 @@ LhfStatus lhfzDestroy(LhfzHifHdl hif) {
 LhfStatus lhfzSetup(LhfzHifHdl hif, const LhfzMatrixHdl A,
                     const LhfzMatrixHdl S, const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
-  hif->A             = A ? A : S;
   LhfzMatrixHdl facA = S ? S : A;
   _LHF_CANNOT_ACCEPT_NULL(facA);
+  hif->A             = A ? A : S;
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
@@ -1053,6 +1057,8 @@ LhfcHifHdl lhfcCreate(const LhfcMatrixHdl A, const LhfcMatrixHdl S,
   LhfcHifHdl M = (LhfcHifHdl)std::malloc(sizeof(LhfcHif));
   if (!M) return nullptr;
   M->M = new (std::nothrow) hif::HIF<std::complex<float>, LhfInt, LhfIndPtr>();
+  M->A              = nullptr;
+  M->Az             = nullptr;
   const auto status = lhfcSetup(M, A, S, params);
   if (status == LHF_HIFIR_ERROR) {
     lhfcDestroy(M);
@@ -1074,10 +1080,10 @@ LhfStatus lhfcDestroy(LhfcHifHdl hif) {
 LhfStatus lhfcSetup(LhfcHifHdl hif, const LhfcMatrixHdl A,
                     const LhfcMatrixHdl S, const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
-  hif->A             = A ? A : S;
   LhfcMatrixHdl facA = S ? S : A;
-  hif->Az            = nullptr;
   _LHF_CANNOT_ACCEPT_NULL(facA);
+  hif->A             = A ? A : S;
+  hif->Az            = nullptr;
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
-- 
2.43.0


From a8c3ec40bf8b5062b5907e7589153dfcff9ea53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 43/67] fix: check the allocation in lhfcCreate

---
 libhifir/src/libhifir.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 1181db5..5363c7c 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -1057,6 +1057,10 @@ LhfcHifHdl lhfcCreate(const LhfcMatrixHdl A, const LhfcMatrixHdl S,
   LhfcHifHdl M = (LhfcHifHdl)std::malloc(sizeof(LhfcHif));
   if (!M) return nullptr;
   M->M = new (std::nothrow) hif::HIF<std::complex<float>, LhfInt, LhfIndPtr>();
+  if (!M->M) {
+    std::free(M);
+    return nullptr;
+  }
   M->A              = nullptr;
   M->Az             = nullptr;
   const auto status = lhfcSetup(M, A, S, params);
-- 
2.43.0


From 2a0acd4308695df908c112343a352b15b1062c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 44/67] fix: honor the rank in plain applications

---
 libhifir/src/libhifir.cpp | 46 ++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 5363c7c..77819aa 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -147,25 +147,27 @@ static inline void factorize(PrecType &M, const MatHdlType mat,
 // solve implementation
 template <class PrecType, class ValueType>
 static inline void solve(PrecType &M, const ValueType *b, ValueType *x,
-                         const bool trans = false) {
+                         const bool        trans = false,
+                         const std::size_t rank  = 0) {
   using array_t              = hif::Array<ValueType>;
   static constexpr bool WRAP = true;
 
   const array_t rhs(M.nrows(), (ValueType *)b, WRAP);
   array_t       lhs(M.nrows(), x, WRAP);
-  M.solve(rhs, lhs, trans);
+  M.solve(rhs, lhs, trans, rank);
 }
 
 // multiplication implementation
 template <class PrecType, class ValueType>
 static inline void mmultiply(PrecType &M, const ValueType *b, ValueType *x,
-                             const bool trans = false) {
+                             const bool        trans = false,
+                             const std::size_t rank  = 0) {
   using array_t              = hif::Array<ValueType>;
   static constexpr bool WRAP = true;
 
   const array_t rhs(M.nrows(), (ValueType *)b, WRAP);
   array_t       lhs(M.nrows(), x, WRAP);
-  M.mmultiply(rhs, lhs, trans);
+  M.mmultiply(rhs, lhs, trans, rank);
 }
 
 template <class PrecType, class MatHdlType, class ValueType>
@@ -454,13 +456,13 @@ LhfStatus lhfdApply(const LhfdHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = (op == LHF_S || op == LHF_SH) && nirs > 1 ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -677,13 +679,13 @@ LhfStatus lhfsApply(const LhfsHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = (op == LHF_S || op == LHF_SH) && nirs > 1 ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -899,15 +901,15 @@ LhfStatus lhfzApply(const LhfzHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = (op == LHF_S || op == LHF_SH) && nirs > 1 ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<double> *)b,
-                                 (std::complex<double> *)x, trans);
+                                 (std::complex<double> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                             (std::complex<double> *)x, trans);
+                             (std::complex<double> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -1128,15 +1130,15 @@ LhfStatus lhfcApply(const LhfcHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = (op == LHF_S || op == LHF_SH) && nirs > 1 ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<float> *)b,
-                                 (std::complex<float> *)x, trans);
+                                 (std::complex<float> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<float> *)b,
-                             (std::complex<float> *)x, trans);
+                             (std::complex<float> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -1211,13 +1213,13 @@ LhfStatus lhfsdApply(const LhfsHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = (op == LHF_S || op == LHF_SH) && nirs > 1 ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       // Ad not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Ad);
@@ -1261,15 +1263,15 @@ LhfStatus lhfczApply(const LhfcHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = (op == LHF_S || op == LHF_SH) && nirs > 1 ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<double> *)b,
-                                 (std::complex<double> *)x, trans);
+                                 (std::complex<double> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                             (std::complex<double> *)x, trans);
+                             (std::complex<double> *)x, trans, rnk);
     } else {
       // Az not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Az);
-- 
2.43.0


From 2529c6adbed270fbd9de39ba1e6bf8c5c98dc822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 45/67] fix: report errors in querying MatrixMarket files

---
 libhifir/src/libhifir.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 77819aa..4703f22 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -277,16 +277,20 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
   if (!f) return LHF_NULL_OBJ;
   bool is_sparse2, is_real2;
   int  type_id;
-  // parse the first line
-  hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
-  *is_sparse = is_sparse2;
-  *is_real   = is_real2;
-  (void)type_id;  // not used
-  if (is_sparse2)
-    hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
-  else {
-    *nnz = 0u;
-    hif::internal::mm_read_dense_size(f, *nrows, *ncols);
+  try {
+    // parse the first line, NOTE that the file is closed upon failures
+    hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
+    *is_sparse = is_sparse2;
+    *is_real   = is_real2;
+    (void)type_id;  // not used
+    if (is_sparse2)
+      hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
+    else {
+      *nnz = 0u;
+      hif::internal::mm_read_dense_size(f, *nrows, *ncols);
+    }
+  } catch (const std::exception &e) {
+    _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
   std::fclose(f);
   return LHF_SUCCESS;
-- 
2.43.0


From 4ce878c3bce9f9ea67b008dace988e69b3986e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 46/67] fix: count the mirrored entries in querying
 MatrixMarket files

---
 libhifir/src/libhifir.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 4703f22..80c9b2a 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -125,6 +125,26 @@ static inline LhfStatus mm_read_sparse(const char *fname, MatHdlType mat) {
   return LHF_SUCCESS;
 }
 
+// count the offdiagonal entries of a (skew-)symmetric or Hermitian file
+static inline std::size_t mm_count_off_diag(std::FILE *       f,
+                                            const std::size_t nnz,
+                                            const bool        is_real) {
+  std::size_t count(0);
+  int         r, c;
+  double      vr, vi;
+  for (std::size_t i(0); i < nnz; ++i) {
+    const int flag = is_real
+                         ? std::fscanf(f, "%d %d %lg", &r, &c, &vr)
+                         : std::fscanf(f, "%d %d %lg %lg", &r, &c, &vr, &vi);
+    if (flag != 4 - is_real) {
+      std::fclose(f);
+      hif_error("insufficient objects scanned from fscanf");
+    }
+    count += r != c;
+  }
+  return count;
+}
+
 // factorization implementation
 template <class PrecType, class MatHdlType>
 static inline void factorize(PrecType &M, const MatHdlType mat,
@@ -282,10 +302,12 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
     hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
     *is_sparse = is_sparse2;
     *is_real   = is_real2;
-    (void)type_id;  // not used
-    if (is_sparse2)
+    if (is_sparse2) {
       hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
-    else {
+      // count the mirrored entries, which are loaded as well
+      if (type_id != 0)
+        *nnz += libhifir_impl::mm_count_off_diag(f, *nnz, is_real2);
+    } else {
       *nnz = 0u;
       hif::internal::mm_read_dense_size(f, *nrows, *ncols);
     }
-- 
2.43.0


From f224b1c144f36dafb76531891960c3d284e950f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 47/67] fix: query of a dense MatrixMarket file as documented

---
 libhifir/src/libhifir.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 80c9b2a..f17bb67 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -310,6 +310,7 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
     } else {
       *nnz = 0u;
       hif::internal::mm_read_dense_size(f, *nrows, *ncols);
+      *ncols = 0u;
     }
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
-- 
2.43.0


From 457a998da92c4f6f44dcc7f4fb87c86d1105e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:38 +0000
Subject: [PATCH 48/67] fix: size of symmetric MatrixMarket files that store
 the diagonal only

---
 src/hif/utils/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 2e9a10d..eeb1f0c 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -604,7 +604,7 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nrows,
       vals[index] = -vals[index - 1];
     ++index;
   }
-  if (index != nnz) {
+  if (index != rows.size()) {
     rows.resize(index);
     cols.resize(index);
     vals.resize(index);
-- 
2.43.0


From d3fd734a6559cefcb84fb467ec12f421a651eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 49/67] fix: refinement through the C interface with an empty
 preconditioner

---
 libhifir/src/libhifir.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index f17bb67..f51ea55 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -197,6 +197,8 @@ static inline void hifir(const PrecType &M, const MatHdlType A,
                          ValueType *x, int *ir_status) {
   using array_t = hif::Array<ValueType>;
 
+  hif_error_if(M.empty(), "MILU-Prec is empty!");
+
   array_t bb(A->n, (ValueType *)b, true);
   array_t xx(A->n, (ValueType *)x, true);
   if (!betas) {
-- 
2.43.0


From b6be41c750a021dcb8f43f3108341515ac3b1f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 50/67] fix: parallel regions may get fewer threads than
 requested

---
 src/hif/alg/Schur.hpp   | 19 +++++++++++--------
 src/hif/utils/mt.hpp    | 11 +++++++++++
 src/hif/utils/mt_mv.hpp | 12 ++++++++----
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/hif/alg/Schur.hpp b/src/hif/alg/Schur.hpp
index 8f89701..f7a2a82 100644
--- a/src/hif/alg/Schur.hpp
+++ b/src/hif/alg/Schur.hpp
@@ -447,10 +447,10 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
 #pragma omp parallel num_threads(2) default(shared)
     do {
       const int thread = get_thread();
-      if (thread)
+      // NOTE that we may get a single thread only
+      if (thread == get_region_threads() - 1)
         drop_L_E(ref_indptr_L, alpha_L, L_E, buf_L, ibuf_L);
-      else
-        drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
+      if (thread == 0) drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
     } while (false);  // end of parallel region for 2
     return;
   }
@@ -460,9 +460,10 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
   auto &gaps_L = ibuf_L, &gaps_U = ibuf_U;
 #pragma omp parallel num_threads(nthreads) default(shared)
   do {
-    // determine thread id and work of partition
-    const int       thread    = get_thread();
-    const auto      part      = uniform_partition(n, nthreads, thread);
+    // determine thread id and work of partition, NOTE that we may get fewer
+    // threads than what we ask for
+    const int       thread = get_thread(), region_threads = get_region_threads();
+    const auto      part      = uniform_partition(n, region_threads, thread);
     const size_type start_idx = part.first, poe_idx = part.second;
 
     // create additional work buffer
@@ -542,7 +543,8 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
       // resize nnz arrays
       L_E.col_ind().resize(L_E.nnz());
       L_E.vals().resize(L_E.nnz());
-    } else if (thread == 1) {
+    }
+    if (thread == region_threads - 1) {
       // U part
       auto i_itr = U_F.row_ind().begin();
       auto v_itr = U_F.vals().begin();
@@ -623,8 +625,9 @@ inline CrsType compute_Schur_simple(const ScaleArray &s, const CrsType &A,
   for (int i = 0; i < nthreads; ++i) bufs[i].resize(N);
 #pragma omp parallel num_threads(nthreads) default(shared)
   do {
+    // NOTE that we may get fewer threads than what we ask for
     const int       thread    = get_thread();
-    const auto      part      = uniform_partition(N, nthreads, thread);
+    const auto      part      = uniform_partition(N, get_region_threads(), thread);
     const size_type start_idx = part.first, poe_idx = part.second;
 
     // create local sparse buffer
diff --git a/src/hif/utils/mt.hpp b/src/hif/utils/mt.hpp
index a736c6c..594e2cb 100644
--- a/src/hif/utils/mt.hpp
+++ b/src/hif/utils/mt.hpp
@@ -87,6 +87,17 @@ inline int get_thread() {
 #endif
 }
 
+/// \brief get number of threads that are in the current parallel region
+/// \note The runtime may grant fewer threads than requested, e.g., in nested
+///       parallel regions or due to the thread limit.
+inline int get_region_threads() {
+#ifdef _OPENMP
+  return omp_get_num_threads();
+#else
+  return 1;
+#endif
+}
+
 /// \brief uniform partition
 inline std::pair<std::size_t, std::size_t> uniform_partition(
     const std::size_t n, const int threads, const int thread) {
diff --git a/src/hif/utils/mt_mv.hpp b/src/hif/utils/mt_mv.hpp
index 9047317..bff2ecb 100644
--- a/src/hif/utils/mt_mv.hpp
+++ b/src/hif/utils/mt_mv.hpp
@@ -67,7 +67,8 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_nt(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part =
+        uniform_partition(A.nrows(), get_region_threads(), get_thread());
     A.multiply_nt_low(x.data(), part.first, part.second - part.first, y.data());
   } while (false);  // parallel region
 }
@@ -91,7 +92,8 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_nt_low(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part =
+        uniform_partition(A.nrows(), get_region_threads(), get_thread());
     A.multiply_nt_low(x, part.first, part.second - part.first, y);
   } while (false);  // parallel region
 }
@@ -142,7 +144,8 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_mrhs_nt(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part =
+        uniform_partition(A.nrows(), get_region_threads(), get_thread());
     A.template multiply_mrhs_nt_low<Nrhs>(x[0].data(), part.first,
                                  part.second - part.first, y[0].data());
   } while (false);  // parallel region
@@ -169,7 +172,8 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_mrhs_nt_low(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part =
+        uniform_partition(A.nrows(), get_region_threads(), get_thread());
     A.template multiply_mrhs_nt_low<Nrhs>(x, part.first, part.second - part.first, y);
   } while (false);  // parallel region
 }
-- 
2.43.0


From 8a6a1d4b5e2d984fa923bed9644b7c751b94adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 51/67] fix: dropping with multiple threads if nothing is to be
 kept

---
 src/hif/alg/Schur.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/alg/Schur.hpp b/src/hif/alg/Schur.hpp
index f7a2a82..a9f5526 100644
--- a/src/hif/alg/Schur.hpp
+++ b/src/hif/alg/Schur.hpp
@@ -433,7 +433,7 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
 
   const size_type n = L_E.nrows();
   hif_assert(n == U_F.ncols(), "mismatched sizes between L_E and U_F");
-  if (nthreads == 1 || n <= 200u) {
+  if (nthreads == 1 || n <= 200u || alpha_L <= 0 || alpha_U <= 0) {
     drop_L_E(ref_indptr_L, alpha_L, L_E, buf_L, ibuf_L);
     drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
     return;
-- 
2.43.0


From f07a1c844b8c61ffb44e8a9cc90fe5a777bc5996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:50 +0000
Subject: [PATCH 52/67] fix: data races between independent objects in
 concurrent threads

---
 src/hif/builder.hpp  | 15 +++++++--------
 src/hif/utils/mt.hpp | 29 +++++++++++++----------------
 2 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index d48ee0f..5a2d0b3 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -30,6 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #define _HIF_BUILDER_HPP
 
 #include <algorithm>
+#include <atomic>
 #include <iterator>
 #include <numeric>
 #include <type_traits>
@@ -67,7 +68,7 @@ const static char *intro =
     "\t* Version: %d.%d.%d\n"
     "\n"
     "=======================================================================\n";
-static bool introduced = false;
+static std::atomic<bool> introduced(false);
 }  // namespace internal
 #endif  // DOXYGEN_SHOULD_SKIP_THIS
 
@@ -272,16 +273,14 @@ class HIF {
 
     // print introduction
     if (hif_verbose(INFO, params)) {
-      if (!internal::introduced) {
 #pragma omp master
-        do {
-          // for better interact with other systems (e.g., MATLAB), only
-          // print out the intro on thread=0
+      do {
+        // for better interact with other systems (e.g., MATLAB), only
+        // print out the intro on thread=0
+        if (!internal::introduced.exchange(true))
           hif_info(internal::intro, HIF_GLOBAL_VERSION, HIF_MAJOR_VERSION,
                    HIF_MINOR_VERSION);
-          internal::introduced = true;
-        } while (false);
-      }
+      } while (false);
     }
 
     _nrows = A.nrows();
diff --git a/src/hif/utils/mt.hpp b/src/hif/utils/mt.hpp
index 594e2cb..d902d86 100644
--- a/src/hif/utils/mt.hpp
+++ b/src/hif/utils/mt.hpp
@@ -31,6 +31,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 #ifdef _OPENMP
 #  include <omp.h>
+#  include <atomic>
 #  include <cstdlib>
 #endif
 
@@ -52,26 +53,22 @@ namespace mt {
 /// If \a threads is the INT_MAX, then query the system threads without
 /// initializing (if haven't). If \a threads is not positive, then set HIF
 /// threads to be system threads, else set it to be user threads, and then
-/// return it. Thread-safe only when \a threads is INT_MAX
+/// return it.
 inline int get_nthreads(const int threads = std::numeric_limits<int>::max()) {
 #ifdef _OPENMP
-  static int _nthreads = 0;
-  if (threads == std::numeric_limits<int>::max()) return _nthreads;
+  // atomic, because objects in different (user) threads share it
+  static std::atomic<int> _nthreads(0);
+  if (threads == std::numeric_limits<int>::max())
+    return _nthreads.load(std::memory_order_relaxed);
+  int n = threads;
   if (threads <= 0) {
     const char *env_threads = std::getenv("HIF_NUM_THREADS");
-    if (env_threads) {
-      _nthreads = std::atoi(env_threads);
-    } else {
-      env_threads = std::getenv("OMP_NUM_THREADS");
-      if (env_threads)
-        _nthreads = std::atoi(env_threads);
-      else
-        _nthreads = omp_get_max_threads();
-    }
-    if (_nthreads < 1) _nthreads = 1;
-  } else
-    _nthreads = threads;
-  return _nthreads;
+    if (!env_threads) env_threads = std::getenv("OMP_NUM_THREADS");
+    n = env_threads ? std::atoi(env_threads) : omp_get_max_threads();
+    if (n < 1) n = 1;
+  }
+  _nthreads.store(n, std::memory_order_relaxed);
+  return n;
 #else
   (void)threads;
   return 1;
-- 
2.43.0


From a53de07aee8d787a0bff493bae39104d0e22a25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 53/67] fix: refinement rounded to the precision of the
 preconditioner

---
 src/hif/alg/IterRefine.hpp | 48 +++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/hif/alg/IterRefine.hpp b/src/hif/alg/IterRefine.hpp
index ffbe751..a02ae27 100644
--- a/src/hif/alg/IterRefine.hpp
+++ b/src/hif/alg/IterRefine.hpp
@@ -29,6 +29,8 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #ifndef _HIF_ALG_ITERREFINE_HPP
 #define _HIF_ALG_ITERREFINE_HPP
 
+#include <type_traits>
+
 #include "hif/ds/Array.hpp"
 #include "hif/ds/CompressedStorage.hpp"
 #include "hif/utils/math.hpp"
@@ -85,7 +87,9 @@ class IterRefine {
       return;
     }
     // now, allocate space
-    _init(M.ncols());
+    using work_array = typename _WorkTrait<OArrayType>::array_type;
+    work_array _xk, _r;
+    _init(M.ncols(), _xk, _r);
     const size_type n(b.size());                   // dimension
     std::fill(x.begin(), x.end(), value_type(0));  // init to zero
     for (size_type i(0); i < N; ++i) {
@@ -136,7 +140,9 @@ class IterRefine {
       return std::make_pair(size_type(0), 0);
     }
     // now, allocate space
-    _init(M.ncols());
+    using work_array = typename _WorkTrait<OArrayType>::array_type;
+    work_array _xk, _r;
+    _init(M.ncols(), _xk, _r);
     const size_type n(b.size());                   // dimension
     std::fill(x.begin(), x.end(), value_type(0));  // init to zero
     std::copy_n(b.cbegin(), n, _r.begin());
@@ -165,24 +171,40 @@ class IterRefine {
   }
 
   /// \brief clear storage
-  inline void clear() {
-    array_type().swap(_xk);
-    array_type().swap(_r);
-  }
+  inline void clear() { array_type().swap(_buf); }
 
  protected:
+  /// \brief type of the work arrays
+  /// \note The vectors can be of higher precision than \a ValueType (e.g., with
+  ///       a single-precision preconditioner), in which case the refinement must
+  ///       not round the residuals and solutions to \a ValueType.
+  template <class VecType>
+  struct _WorkTrait {
+    using vec_value_type = typename VecType::value_type;
+    using type =
+        typename std::conditional<(sizeof(vec_value_type) > sizeof(value_type)),
+                                  vec_value_type, value_type>::type;
+    using array_type = Array<type>;
+  };
+
   /// \brief initialize for workspace
   /// \param[in] n row size
-  inline void _init(const size_type n) const {
-    _xk.resize(n);
-    hif_error_if(_xk.empty(), "memory allocation failed");
-    _r.resize(n);
-    hif_error_if(_r.empty(), "memory allocation failed");
+  /// \param[out] xk work array wrapped from the buffer
+  /// \param[out] r work array wrapped from the buffer
+  template <class WorkArray>
+  inline void _init(const size_type n, WorkArray &xk, WorkArray &r) const {
+    using work_type           = typename WorkArray::value_type;
+    constexpr size_type RATIO = (sizeof(work_type) + sizeof(value_type) - 1u) /
+                                sizeof(value_type);
+    _buf.resize(2u * n * RATIO);
+    hif_error_if(_buf.size() && !_buf.data(), "memory allocation failed");
+    work_type *ptr = reinterpret_cast<work_type *>(_buf.data());
+    xk = WorkArray(n, ptr, true);
+    r  = WorkArray(n, ptr + n, true);
   }
 
  protected:
-  mutable array_type _xk;  ///< previous solution
-  mutable array_type _r;   ///< residual
+  mutable array_type _buf;  ///< buffer of previous solution and residual
 };
 
 }  // namespace hif
-- 
2.43.0


From d2816bc0b73f0b653aac028dbf9c6719cdf6e69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:39 +0000
Subject: [PATCH 54/67] fix: condition thresholds of the dense level below the
 square root of 1/eps were ignored

---
 src/hif/small_scale/QRCP.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hif/small_scale/QRCP.hpp b/src/hif/small_scale/QRCP.hpp
index 4a76e22..331d119 100644
--- a/src/hif/small_scale/QRCP.hpp
+++ b/src/hif/small_scale/QRCP.hpp
@@ -150,13 +150,15 @@ class QRCP {
     }
 
     // fast filtering to test diagonal entries
-    bool            do_cond_test = false;
+    // NOTE the diagonals cannot tell anything about thresholds that are smaller
+    // than the inverse of the tolerance, for which the estimator is needed
+    bool            do_cond_test = cond_thres * diag_tol < scalar_type(1);
     const size_type N            = _tau.size();  // min (row, col)
     // we first check if we have too small diagonals, use this as a safe guard
     // to see if we need to call more expensive condition # estimator
     // weighted by R(0,0)
     const scalar_type diag_eps = diag_tol * std::abs(_mat[0]);
-    for (size_type i = N; i != 0u; --i)
+    for (size_type i = do_cond_test ? size_type(0) : N; i != 0u; --i)
       if (std::abs(_mat(i - 1, i - 1)) < diag_eps) {
         if (hif_verbose(INFO, opts)) {
           hif_info(
-- 
2.43.0


From c80d7aa6fa518ba0453db1c627e88fe492dd8388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:52 +0000
Subject: [PATCH 55/67] fix: condition estimation in the 1-norm did not compile
 for complex values

---
 src/hif/small_scale/QRCP.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/small_scale/QRCP.hpp b/src/hif/small_scale/QRCP.hpp
index 331d119..9bf8d70 100644
--- a/src/hif/small_scale/QRCP.hpp
+++ b/src/hif/small_scale/QRCP.hpp
@@ -302,7 +302,7 @@ class QRCP {
     scalar_type nrm, inrm;
     for (_rank = 0u; _rank < n; ++_rank) {
       // esimate norm of the current leading block
-      if (_mat(_rank, _rank) == 0) break;
+      if (_mat(_rank, _rank) == value_type(0)) break;
       _est_cond1(inrm, nrm);
       if (inrm * nrm >= cond_tol) break;
     }
-- 
2.43.0


From 61645d155e43107757296f50262e33a141fe5260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 56/67] fix: copying a moved array dereferenced a null counter

---
 src/hif/ds/Array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index de09f2f..7d1a11f 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -219,8 +219,8 @@ class Array {
       _size   = other._size;
       _cap    = other._cap;
       _status = other._status;
-      // increment the counter
-      _counts->inc();
+      // increment the counter, NOTE that there is none in moved arrays
+      if (_counts) _counts->inc();
     } else {
       // deep copy
       _counts = new _RefCount();
-- 
2.43.0


From f8289975eee051b096ed89b1056c381800d8dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 57/67] fix: a moved dense matrix kept its dimensions without
 data

---
 src/hif/ds/DenseMatrix.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/DenseMatrix.hpp b/src/hif/ds/DenseMatrix.hpp
index b49884a..bbeb3e9 100644
--- a/src/hif/ds/DenseMatrix.hpp
+++ b/src/hif/ds/DenseMatrix.hpp
@@ -240,8 +240,27 @@ class DenseMatrix {
 
   // default stuffs
   this_type& operator=(const this_type&) = default;
-  DenseMatrix(this_type&&)               = default;
-  this_type& operator=(this_type&&) = default;
+
+  /// \brief move constructor, \a other becomes an empty matrix
+  /// \param[in] other another matrix
+  DenseMatrix(this_type&& other)
+      : _nrows(other._nrows),
+        _ncols(other._ncols),
+        _data(std::move(other._data)) {
+    other._nrows = other._ncols = 0u;
+  }
+
+  /// \brief move assignment, \a other becomes an empty matrix
+  /// \param[in] other another matrix
+  this_type& operator=(this_type&& other) {
+    if (this != &other) {
+      _nrows       = other._nrows;
+      _ncols       = other._ncols;
+      _data        = std::move(other._data);
+      other._nrows = other._ncols = 0u;
+    }
+    return *this;
+  }
 
   // utilities
   inline unsigned char     status() const { return _data.status(); }
-- 
2.43.0


From 4fea53d8b3bfd0efd1d9c1a2006541f1b3e90caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 58/67] fix: augmented storages could not be built from the
 other storage order

---
 src/hif/ds/AugmentedStorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/ds/AugmentedStorage.hpp b/src/hif/ds/AugmentedStorage.hpp
index 9750c0f..aff1476 100644
--- a/src/hif/ds/AugmentedStorage.hpp
+++ b/src/hif/ds/AugmentedStorage.hpp
@@ -452,7 +452,7 @@ class AugCRS : public CrsType,
     hif_error_if(nrows() + 1u != crs_type::row_start().size(),
                  "row-start array size (%zd) does not agree with nrows (%zd)",
                  crs_type::row_start().size(), nrows());
-    hif_error_if(crs_type::nnz() != col_ind.size(), "inconsistent nnz");
+    hif_error_if(crs_type::nnz() != col_ind().size(), "inconsistent nnz");
     _base::_build_aug(ncols(), crs_type::row_start(), col_ind());
   }
 
-- 
2.43.0


From df892d5f80aa0babca10320fb6087036cf183ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 59/67] fix: tails of the row lists could not be read from a
 constant matrix

---
 src/hif/ds/AugmentedStorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/ds/AugmentedStorage.hpp b/src/hif/ds/AugmentedStorage.hpp
index aff1476..0dfac2c 100644
--- a/src/hif/ds/AugmentedStorage.hpp
+++ b/src/hif/ds/AugmentedStorage.hpp
@@ -1080,7 +1080,7 @@ class AugCCS : public CcsType,
   inline iparray_type &      row_start() { return _base::_node_start; }
   inline const iparray_type &row_start() const { return _base::_node_start; }
   inline iparray_type &      row_end() { return _base::_node_end; }
-  inline const iparray_type *row_end() const { return _base::_node_end; }
+  inline const iparray_type &row_end() const { return _base::_node_end; }
   inline iparray_type &      row_next() { return _base::_node_next; }
   inline const iparray_type &row_next() const { return _base::_node_next; }
   inline iarray_type &       row_counts() { return _base::_node_counts; }
-- 
2.43.0


From feb6b14034b5a0d804a2058d4dbf6fac03b4a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 60/67] fix: the matching overwrote its candidates and called
 regular matrices singular

---
 src/hif/pre/equilibrate.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/hif/pre/equilibrate.hpp b/src/hif/pre/equilibrate.hpp
index 035f476..8bca40f 100644
--- a/src/hif/pre/equilibrate.hpp
+++ b/src/hif/pre/equilibrate.hpp
@@ -541,16 +541,13 @@ inline void kernel(const _Integer n, const _Integer *ip, const _Index *irn,
       } else {
         if (dnew < dmin_) dmin_ = dnew;
         d__[i__] = dnew;
-        ++qlen;
-        q[qlen] = k;
       }
     }
-    // initialize heap q and q2 with rows held in q(1:qlen)
-    const _Integer kkstop = qlen;
-    qlen                  = 0;
-    for (kk = 1; kk <= kkstop; ++kk) {
-      k   = q[kk];
+    // initialize heap q and q2 with the rows found, i.e., those with finite d.
+    // NOTE that q cannot hold the rows, as q2 grows from its end
+    for (k = ip[j]; k <= kstop; ++k) {
       i__ = irn[k];
+      if (iperm[i__] == 0 || d__[i__] == rinf) continue;
       if (csp <= d__[i__]) {
         d__[i__] = rinf;
         continue;
-- 
2.43.0


From aff9c3343dced73cacba1dbd4b3fc3d55277ca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:10 +0000
Subject: [PATCH 61/67] fix: reading options from a stream skipped the pivoting
 flag

---
 src/hif/Options.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/Options.h b/src/hif/Options.h
index ffb8550..66ebf69 100644
--- a/src/hif/Options.h
+++ b/src/hif/Options.h
@@ -568,8 +568,8 @@ inline InStream &operator>>(InStream &in_str, hif::Options &opt) {
       opt.alpha_U >> opt.rho >> opt.c_d >> opt.c_h >> opt.N >> opt.verbose >>
       opt.rf_par >> opt.reorder >> opt.spd >> opt.check >> opt.pre_scale >>
       opt.symm_pre_lvls >> opt.threads >> opt.mumps_blr >> opt.fat_schur_1st >>
-      opt.rrqr_cond >> opt.gamma >> opt.beta >> opt.is_symm >> opt.no_pre >>
-      opt.nzp_thres >> opt.dense_thres;
+      opt.rrqr_cond >> opt.pivot >> opt.gamma >> opt.beta >> opt.is_symm >>
+      opt.no_pre >> opt.nzp_thres >> opt.dense_thres;
   return in_str;
 }
 
-- 
2.43.0


From c62cd74de77c3f29206c6023d4356ccc5fa3f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:10 +0000
Subject: [PATCH 62/67] fix: the text of the verbosity hid the information
 level behind warnings

---
 src/hif/Options.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hif/Options.h b/src/hif/Options.h
index 66ebf69..4733433 100644
--- a/src/hif/Options.h
+++ b/src/hif/Options.h
@@ -601,7 +601,12 @@ inline std::string hif::get_verbose(const hif::Options &opt) {
     name = "none";
   else {
     if (hif_verbose(WARN, opt)) name = "warning";
-    else if (hif_verbose(INFO, opt)) name = "info";
+    if (hif_verbose(INFO, opt)) {
+      if (name != "")
+        name += ",info";
+      else
+        name = "info";
+    }
     if (hif_verbose(PRE, opt)) {
       if (name != "")
         name += ",pre";
-- 
2.43.0


From 72082f59a4b001ecaac0b8ceb239c34d44249098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:33 +0000
Subject: [PATCH 63/67] fix: report arrays that cannot be allocated instead of
 writing through null

An array whose data could not be allocated was left empty (or, if made from
other data, even with a size), and most callers used it unchecked. Failed
allocations of the reference counter leaked the data, or left an array with
the counter of others.
---
 src/hif/ds/Array.hpp | 117 ++++++++++++++-----------------------------
 1 file changed, 38 insertions(+), 79 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index 7d1a11f..54cc27b 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -124,19 +124,7 @@ class Array {
   /// \brief constructor with owned data
   /// \param[in] n length of the array
   /// \sa DATA_OWN
-  explicit Array(const size_type n)
-      : _data(new (std::nothrow) value_type[n]),
-        _size(n),
-        _cap(n),
-        _status(DATA_OWN),
-        _counts(new _RefCount()) {
-    // handle overflow
-    hif_assert(_data, "memory allocation failed");
-    if (!_data) {
-      _size = _cap = 0u;
-      _status      = DATA_UNDEF;
-    }
-  }
+  explicit Array(const size_type n) : Array() { _allocate(n); }
 
   /// \brief similary to Array(n) but with uniform value initialization
   /// \param[in] n length of the array
@@ -152,41 +140,24 @@ class Array {
   ///
   /// If \a wrap is \a true, then a wrapper Array will be constructed, as a
   /// result, you cannot \ref resize and \ref reserve data.
-  Array(const size_type n, pointer data, bool wrap = false) {
-    _counts = new _RefCount();
+  Array(const size_type n, pointer data, bool wrap = false) : Array() {
     if (!wrap) {
-      _data = new (std::nothrow) value_type[n];
-      // handle overflow
-      if (!_data) {
-        _size = _cap = 0u;
-        _status      = DATA_UNDEF;
-      } else {
-        std::copy_n(data, n, _data);
-        _status = DATA_OWN;
-      }
+      _allocate(n);
+      std::copy_n(data, n, _data);
     } else {
       _data   = data;
       _status = DATA_WRAP;
+      _size = _cap = n;
     }
-    _size = _cap = n;
   }
 
   /// \brief constructor for copying a foreign array, useful in type conversion
   /// \tparam V foreign value type
   /// \param other another array
   template <class V>
-  explicit Array(const Array<V>& other)
-      : _data(new (std::nothrow) value_type[other.size()]),
-        _size(other.size()),
-        _cap(_size),
-        _status(DATA_OWN),
-        _counts(new _RefCount()) {
-    hif_assert(_data, "memory allocation failed");
-    if (!_data) {
-      _size = _cap = 0u;
-      _status      = DATA_UNDEF;
-    } else
-      std::copy(other.cbegin(), other.cend(), _data);
+  explicit Array(const Array<V>& other) : Array() {
+    _allocate(other.size());
+    std::copy(other.cbegin(), other.cend(), _data);
   }
 
   /// \brief destructor, handle shallow copy and external data
@@ -211,7 +182,12 @@ class Array {
   /// \note the default copy constructor is shallow
   /// \param[in] other another Array
   /// \param[in] clone if \a true, then do deep copy, default is \a false
-  Array(const Array& other, bool clone = false) {
+  Array(const Array& other, bool clone = false)
+      : _data(nullptr),
+        _size(0),
+        _cap(0),
+        _status(DATA_UNDEF),
+        _counts(nullptr) {
     if (!clone) {
       // shallow
       _counts = other._counts;  // reference the counter
@@ -223,12 +199,9 @@ class Array {
       if (_counts) _counts->inc();
     } else {
       // deep copy
-      _counts = new _RefCount();
-      _data   = new value_type[other._size];
-      _size   = other._size;
-      _cap    = _size;
-      _status = DATA_OWN;
-      std::copy_n(other._data, _size, _data);
+      Array tmp(other._size);
+      std::copy_n(other._data, other._size, tmp._data);
+      swap(tmp);
     }
   }
 
@@ -348,23 +321,12 @@ class Array {
       return;
     }
     const size_type cap  = _size ? 1.2 * n : n;  // 20% more
-    pointer         data = new (std::nothrow) value_type[cap];
-    hif_assert(data, "memory allocation failed");
-    if (!data) {
-      // call destructor
-      this->~Array();
-      _counts = new _RefCount();
-      return;
-    }
-    if (presv) std::copy_n(_data, _size, data);
-    // now call destructor
-    this->~Array();
-    // since we own a new database, reset the counter
-    _counts = new _RefCount();
-    _data   = data;
-    _size   = n;
-    _cap    = cap;
-    _status = DATA_OWN;
+    // NOTE that nothing has changed in this array if the allocation fails
+    Array tmp(cap);
+    if (presv) std::copy_n(_data, _size, tmp._data);
+    tmp._size = n;
+    // since we own a new database, the counter is reset as well
+    swap(tmp);
   }
 
   /// \brief reserve space for Array
@@ -374,24 +336,12 @@ class Array {
   inline void reserve(const size_type n) {
     hif_assert(_status != DATA_WRAP, "cannot call reserve for external data");
     if (_cap >= n && _status != DATA_UNDEF) return;
-    pointer data = new (std::nothrow) value_type[n];
-    hif_assert(data, "memory allocation failed");
-    if (!data) {
-      // call destructor
-      this->~Array();
-      _counts = new _RefCount();
-      return;
-    }
-    std::copy_n(_data, _size, data);
-    const size_type size_bak = _size;
-    // now call destructor
-    this->~Array();
-    // since we own a new database, reset the counter
-    _counts = new _RefCount();
-    _data   = data;
-    _cap    = n;
-    _size   = size_bak;
-    _status = DATA_OWN;
+    // NOTE that nothing has changed in this array if the allocation fails
+    Array tmp(n);
+    std::copy_n(_data, _size, tmp._data);
+    tmp._size = _size;
+    // since we own a new database, the counter is reset as well
+    swap(tmp);
   }
 
   /// \brief append a new value
@@ -448,6 +398,15 @@ class Array {
   unsigned char _status;  ///< array status, see \a enum above
 
  private:
+  /// \brief allocate data of an array without any
+  /// \param[in] n length of the array
+  inline void _allocate(const size_type n) {
+    _data = new (std::nothrow) value_type[n];
+    hif_error_if(!_data, "memory allocation failed");
+    _size = _cap = n;
+    _status      = DATA_OWN;
+  }
+
   _RefCount* _counts;  ///< reference counter
 
   template <class _T>
-- 
2.43.0


From cd3051d951d6e334cfe7bf6ac9ffd2c98ad6b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:34 +0000
Subject: [PATCH 64/67] fix: keep the sizes of a dense matrix whose resizing
 fails

---
 src/hif/ds/DenseMatrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hif/ds/DenseMatrix.hpp b/src/hif/ds/DenseMatrix.hpp
index bbeb3e9..8baaff6 100644
--- a/src/hif/ds/DenseMatrix.hpp
+++ b/src/hif/ds/DenseMatrix.hpp
@@ -280,9 +280,10 @@ class DenseMatrix {
   /// \warning The value positions may be changed!
   inline void resize(const size_type n1, const size_type n2) {
     if (n1 == _nrows && n2 == _ncols) return;
+    _data.resize(n1 * n2);
+    // NOTE the sizes must not change if the allocation fails
     _nrows = n1;
     _ncols = n2;
-    _data.resize(n1 * n2);
   }
 
   // accessing
-- 
2.43.0


From db8bcc93227191879e2ac344eb57087332618a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:27 +0000
Subject: [PATCH 65/67] fix: no exception leaves the C interface when memory
 runs out

---
 libhifir/src/libhifir.cpp | 89 ++++++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 38 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index f51ea55..641ff7c 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -42,7 +42,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #define _LHF_CANNOT_ACCEPT_NULL(__obj) \
   if (!(__obj)) return LHF_NULL_OBJ
 
-#define _LHF_SET_HIFIR_ERROR(__e) libhifir_impl::error_msgs[1] = __e.what()
+#define _LHF_SET_HIFIR_ERROR(__e) libhifir_impl::set_error_msg(__e.what())
 
 #define _LHF_RETURN_FROM_HIFIR_ERROR(__e) \
   _LHF_SET_HIFIR_ERROR(__e);              \
@@ -52,6 +52,15 @@ namespace libhifir_impl {
 // handle internal C++ HIFIR errors
 static std::string error_msgs[2];
 
+// NOTE that exceptions must not leave the C interface
+static inline void set_error_msg(const char *msg) {
+  try {
+    error_msgs[1] = msg;
+  } catch (const std::exception &) {
+    error_msgs[1] = "out of memory";  // short enough to need none
+  }
+}
+
 // get factorization result statistics
 template <class PrecType>
 static inline void get_factor_stats(const PrecType &M, std::size_t stats[]) {
@@ -99,28 +108,28 @@ static inline LhfStatus mm_read_sparse(const char *fname, MatHdlType mat) {
   _LHF_CANNOT_ACCEPT_NULL(mat);
   if (mat->is_rowmajor) {
     using matrix_t = hif::CRS<ValueType, LhfInt, LhfIndPtr>;
-    matrix_t A;
     try {
-      A = matrix_t::from_mm(fname);
+      const matrix_t A = matrix_t::from_mm(fname);
+      if (A.nrows() != mat->n || A.ncols() != mat->n)
+        return LHF_MISMATCHED_SIZES;
+      std::copy(A.ind_start().cbegin(), A.ind_start().cend(), mat->indptr);
+      std::copy(A.inds().cbegin(), A.inds().cend(), mat->indices);
+      std::copy(A.vals().cbegin(), A.vals().cend(), mat->vals);
     } catch (const std::exception &e) {
       _LHF_RETURN_FROM_HIFIR_ERROR(e);
     }
-    if (A.nrows() != mat->n || A.ncols() != mat->n) return LHF_MISMATCHED_SIZES;
-    std::copy(A.ind_start().cbegin(), A.ind_start().cend(), mat->indptr);
-    std::copy(A.inds().cbegin(), A.inds().cend(), mat->indices);
-    std::copy(A.vals().cbegin(), A.vals().cend(), mat->vals);
   } else {
     using matrix_t = hif::CCS<ValueType, LhfInt, LhfIndPtr>;
-    matrix_t A;
     try {
-      A = matrix_t::from_mm(fname);
+      const matrix_t A = matrix_t::from_mm(fname);
+      if (A.nrows() != mat->n || A.ncols() != mat->n)
+        return LHF_MISMATCHED_SIZES;
+      std::copy(A.ind_start().cbegin(), A.ind_start().cend(), mat->indptr);
+      std::copy(A.inds().cbegin(), A.inds().cend(), mat->indices);
+      std::copy(A.vals().cbegin(), A.vals().cend(), mat->vals);
     } catch (const std::exception &e) {
       _LHF_RETURN_FROM_HIFIR_ERROR(e);
     }
-    if (A.nrows() != mat->n || A.ncols() != mat->n) return LHF_MISMATCHED_SIZES;
-    std::copy(A.ind_start().cbegin(), A.ind_start().cend(), mat->indptr);
-    std::copy(A.inds().cbegin(), A.inds().cend(), mat->indices);
-    std::copy(A.vals().cbegin(), A.vals().cend(), mat->vals);
   }
   return LHF_SUCCESS;
 }
@@ -246,7 +255,7 @@ void lhfGetVersions(int versions[]) {
 
 // error message
 const char *lhfGetErrorMsg() {
-  libhifir_impl::error_msgs[0] = libhifir_impl::error_msgs[1];
+  libhifir_impl::error_msgs[0].swap(libhifir_impl::error_msgs[1]);
   libhifir_impl::error_msgs[1].clear();
   if (libhifir_impl::error_msgs[0].empty()) return NULL;
   return libhifir_impl::error_msgs[0].c_str();
@@ -394,14 +403,13 @@ LhfStatus lhfdReadSparse(const char *fname, LhfdMatrixHdl mat) {
 // double vector mm io
 LhfStatus lhfdReadVector(const char *fname, const size_t n, double *v) {
   using vector_t = hif::Array<double>;
-  vector_t vec;
   try {
-    vec = vector_t::from_mm(fname);
+    const vector_t vec = vector_t::from_mm(fname);
+    if (n != vec.size()) return LHF_MISMATCHED_SIZES;
+    std::copy(vec.cbegin(), vec.cend(), v);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
-  if (n != vec.size()) return LHF_MISMATCHED_SIZES;
-  std::copy(vec.cbegin(), vec.cend(), v);
   return LHF_SUCCESS;
 }
 
@@ -416,9 +424,11 @@ LhfdHifHdl lhfdCreate(const LhfdMatrixHdl A, const LhfdMatrixHdl S,
                       const double params[]) {
   LhfdHifHdl M = (LhfdHifHdl)std::malloc(sizeof(LhfdHif));
   if (!M) return nullptr;
-  M->M = new (std::nothrow) hif::HIF<double, LhfInt, LhfIndPtr>();
-  if (!M->M) {
+  try {
+    M->M = new hif::HIF<double, LhfInt, LhfIndPtr>();
+  } catch (const std::exception &e) {
     std::free(M);
+    _LHF_SET_HIFIR_ERROR(e);
     return nullptr;
   }
   M->A              = nullptr;
@@ -614,14 +624,13 @@ LhfStatus lhfsReadSparse(const char *fname, LhfsMatrixHdl mat) {
 // single vector mm io
 LhfStatus lhfsReadVector(const char *fname, const size_t n, float *v) {
   using vector_t = hif::Array<float>;
-  vector_t vec;
   try {
-    vec = vector_t::from_mm(fname);
+    const vector_t vec = vector_t::from_mm(fname);
+    if (n != vec.size()) return LHF_MISMATCHED_SIZES;
+    std::copy(vec.cbegin(), vec.cend(), v);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
-  if (n != vec.size()) return LHF_MISMATCHED_SIZES;
-  std::copy(vec.cbegin(), vec.cend(), v);
   return LHF_SUCCESS;
 }
 
@@ -637,9 +646,11 @@ LhfsHifHdl lhfsCreate(const LhfsMatrixHdl A, const LhfsMatrixHdl S,
                       const double params[]) {
   LhfsHifHdl M = (LhfsHifHdl)std::malloc(sizeof(LhfsHif));
   if (!M) return nullptr;
-  M->M = new (std::nothrow) hif::HIF<float, LhfInt, LhfIndPtr>();
-  if (!M->M) {
+  try {
+    M->M = new hif::HIF<float, LhfInt, LhfIndPtr>();
+  } catch (const std::exception &e) {
     std::free(M);
+    _LHF_SET_HIFIR_ERROR(e);
     return nullptr;
   }
   M->A              = nullptr;
@@ -838,14 +849,13 @@ LhfStatus lhfzReadSparse(const char *fname, LhfzMatrixHdl mat) {
 LhfStatus lhfzReadVector(const char *fname, const size_t n,
                          double _Complex *v) {
   using vector_t = hif::Array<std::complex<double>>;
-  vector_t vec;
   try {
-    vec = vector_t::from_mm(fname);
+    const vector_t vec = vector_t::from_mm(fname);
+    if (n != vec.size()) return LHF_MISMATCHED_SIZES;
+    std::copy(vec.cbegin(), vec.cend(), (std::complex<double> *)v);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
-  if (n != vec.size()) return LHF_MISMATCHED_SIZES;
-  std::copy(vec.cbegin(), vec.cend(), (std::complex<double> *)v);
   return LHF_SUCCESS;
 }
 
@@ -860,9 +870,11 @@ LhfzHifHdl lhfzCreate(const LhfzMatrixHdl A, const LhfzMatrixHdl S,
                       const double params[]) {
   LhfzHifHdl M = (LhfzHifHdl)std::malloc(sizeof(LhfzHif));
   if (!M) return nullptr;
-  M->M = new (std::nothrow) hif::HIF<std::complex<double>, LhfInt, LhfIndPtr>();
-  if (!M->M) {
+  try {
+    M->M = new hif::HIF<std::complex<double>, LhfInt, LhfIndPtr>();
+  } catch (const std::exception &e) {
     std::free(M);
+    _LHF_SET_HIFIR_ERROR(e);
     return nullptr;
   }
   M->A              = nullptr;
@@ -1064,14 +1076,13 @@ LhfStatus lhfcReadSparse(const char *fname, LhfcMatrixHdl mat) {
 // double complex vector mm io
 LhfStatus lhfcReadVector(const char *fname, const size_t n, float _Complex *v) {
   using vector_t = hif::Array<std::complex<float>>;
-  vector_t vec;
   try {
-    vec = vector_t::from_mm(fname);
+    const vector_t vec = vector_t::from_mm(fname);
+    if (n != vec.size()) return LHF_MISMATCHED_SIZES;
+    std::copy(vec.cbegin(), vec.cend(), (std::complex<float> *)v);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
-  if (n != vec.size()) return LHF_MISMATCHED_SIZES;
-  std::copy(vec.cbegin(), vec.cend(), (std::complex<float> *)v);
   return LHF_SUCCESS;
 }
 
@@ -1087,9 +1098,11 @@ LhfcHifHdl lhfcCreate(const LhfcMatrixHdl A, const LhfcMatrixHdl S,
                       const double params[]) {
   LhfcHifHdl M = (LhfcHifHdl)std::malloc(sizeof(LhfcHif));
   if (!M) return nullptr;
-  M->M = new (std::nothrow) hif::HIF<std::complex<float>, LhfInt, LhfIndPtr>();
-  if (!M->M) {
+  try {
+    M->M = new hif::HIF<std::complex<float>, LhfInt, LhfIndPtr>();
+  } catch (const std::exception &e) {
     std::free(M);
+    _LHF_SET_HIFIR_ERROR(e);
     return nullptr;
   }
   M->A              = nullptr;
-- 
2.43.0


From 2cc23fffceacb954b721660b3a22236bcd5a4683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:18 +0000
Subject: [PATCH 66/67] fix: copying a preconditioner copies its levels

The copy constructor of the level type was empty and left even the sizes
undefined, so that a copied preconditioner read garbage.
---
 src/hif/alg/Prec.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hif/alg/Prec.hpp b/src/hif/alg/Prec.hpp
index 64cb042..cf7bf93 100644
--- a/src/hif/alg/Prec.hpp
+++ b/src/hif/alg/Prec.hpp
@@ -130,8 +130,11 @@ struct Prec {
   /// \brief default constructor
   Prec() = default;
 
-  /// \brief empty copy constructor
-  Prec(const Prec &) {}
+  /// \brief copy constructor, shallow as that of \ref Array
+  Prec(const Prec &) = default;
+
+  /// \brief copy assignment, shallow as that of \ref Array
+  Prec &operator=(const Prec &) = default;
 
   /// \brief rvalue reference constructor
   /// \param[in] mm leading size
-- 
2.43.0


From e7dad6425242884c8153ba308d45ceb1de0701fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:37 +0000
Subject: [PATCH 67/67] fix: the norm of vectors of subnormal numbers

---
 src/hif/utils/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/utils/math.hpp b/src/hif/utils/math.hpp
index ef80121..e427803 100644
--- a/src/hif/utils/math.hpp
+++ b/src/hif/utils/math.hpp
@@ -126,10 +126,10 @@ norm2(const ArrayType &v) {
   if (max_mag == Const<scalar_type>::ZERO)
     for (auto i = 0ul; i < n; ++i) tmp += abs(v[i]);
   else {
-    const auto alpha = scalar_type(1) / max_mag;
+    // NOTE the reciprocal of max_mag can overflow
     value_type a;
     for (auto i = 0ul; i < n; ++i) {
-      a = v[i] * alpha;
+      a = v[i] / max_mag;
       tmp += real(conjugate(a) * a);
     }
     tmp = max_mag * std::sqrt(tmp);
-- 
2.43.0

