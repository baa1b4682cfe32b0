From 6fecabe71741ba18f80acd3c65e788e70d35751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:56 +0000
Subject: [PATCH 01/33] fix: pass the row length of C as leading dimension to
 gemm

cblas_?gemm got ldc = n (rows of C) instead of m (columns), so every product with a
non-square C was wrong or written out of bounds with the BLAS backends; leading
dimensions must also be at least 1 when a dimension is 0.
---
 include/lalib/ops/mat_mat_ops_core.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/mat_mat_ops_core.hpp b/include/lalib/ops/mat_mat_ops_core.hpp
index be1f614..6f38e0c 100644
--- a/include/lalib/ops/mat_mat_ops_core.hpp
+++ b/include/lalib/ops/mat_mat_ops_core.hpp
@@ -13,6 +13,7 @@
 #ifndef LALIB_MAT_MAT_OPS_CORE_HPP
 #define LALIB_MAT_MAT_OPS_CORE_HPP
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <memory>
@@ -61,10 +62,10 @@ inline auto mul_core<float>(size_t n, size_t m, size_t l, float alpha, const flo
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<float[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), n);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, std::max<size_t>(1u, l), matb, std::max<size_t>(1u, m), beta, tmp.get(), std::max<size_t>(1u, m));
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, n);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, std::max<size_t>(1u, l), matb, std::max<size_t>(1u, m), beta, matc, std::max<size_t>(1u, m));
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
@@ -78,10 +79,10 @@ inline auto mul_core<double>(size_t n, size_t m, size_t l, double alpha, const d
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<double[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), n);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, std::max<size_t>(1u, l), matb, std::max<size_t>(1u, m), beta, tmp.get(), std::max<size_t>(1u, m));
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, n);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, std::max<size_t>(1u, l), matb, std::max<size_t>(1u, m), beta, matc, std::max<size_t>(1u, m));
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
-- 
2.43.0


From 3763977c350904ca54eff6ac869b7f8f20e66b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:56 +0000
Subject: [PATCH 02/33] fix: keep the beta*y term of gemv when x and y are the
 same vector

The temporary passed to cblas_?gemv as y was zero instead of a copy of y.
---
 include/lalib/ops/mat_vec_ops_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index d5db0dc..59cd56e 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -74,6 +74,7 @@ inline auto mul_core<float>(size_t n, size_t m, float alpha, const float* mat, c
     #if defined(LALIB_BLAS_BACKEND)
     if (x == y) {
         auto tmp = std::make_unique<float[]>(n);
+        std::copy(y, y + n, tmp.get());
         cblas_sgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
         std::copy(tmp.get(), tmp.get() + n, y);
     } else {
@@ -90,6 +91,7 @@ inline auto mul_core<double>(size_t n, size_t m, double alpha, const double* mat
     #if defined(LALIB_BLAS_BACKEND)
     if (x == y) {
         auto tmp = std::make_unique<double[]>(n);
+        std::copy(y, y + n, tmp.get());
         cblas_dgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
         std::copy(tmp.get(), tmp.get() + n, y);
     } else {
-- 
2.43.0


From 64378464ebcc67c02d42c35da9c4d5e38dc93539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:56 +0000
Subject: [PATCH 03/33] fix: sparse matrix-vector product with the result
 stored in the multiplied vector

Rows already computed overwrote components of x that later rows still needed; use a
temporary as the dense product does.
---
 include/lalib/ops/mat_vec_ops_core.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index 59cd56e..570dfb3 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -53,11 +53,25 @@ inline auto __mul_core_simd(size_t n, size_t m, T alpha, const T* mat, const T*
 
 template<typename T>
 inline auto _sp_mul_core(size_t n, const size_t* col_ids, const size_t* row_ptr, T alpha, const T* mat, const T* x, T beta, T* y) noexcept -> T* {
-    #pragma omp simd
-    for (auto i = 0u; i < n; ++i) {
-        y[i] = beta * y[i];
-        for (auto k = row_ptr[i]; k < row_ptr[i + 1]; ++k) {
-            y[i] += alpha * mat[k] * x[col_ids[k]];
+    // If the pointers of the multiplier and one storing the result are the same
+    if (x == y) {
+        auto tmp = std::make_unique<T[]>(n);
+        #pragma omp simd
+        for (auto i = 0u; i < n; ++i) {
+            tmp[i] = beta * y[i];
+            for (auto k = row_ptr[i]; k < row_ptr[i + 1]; ++k) {
+                tmp[i] += alpha * mat[k] * x[col_ids[k]];
+            }
+        }
+        std::copy(tmp.get(), tmp.get() + n, y);
+    }
+    else {
+        #pragma omp simd
+        for (auto i = 0u; i < n; ++i) {
+            y[i] = beta * y[i];
+            for (auto k = row_ptr[i]; k < row_ptr[i + 1]; ++k) {
+                y[i] += alpha * mat[k] * x[col_ids[k]];
+            }
         }
     }
     return y;
-- 
2.43.0


From 006d6b1390c6ffd9ee5d3fda2951a00cbd94cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 04/33] fix: accumulate sparse rows that have no element in the
 destination

The merge compared with (and added to) the first element of a later row, or read past
the end, when the destination had no element in the row.
---
 include/lalib/mat/sp_mat.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index d8401c9..098fd9b 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -382,7 +382,14 @@ auto SpCooMat<T>::operator+=(const SpCooMat<T>& mat) -> SpCooMat<T>& {
         auto rcursor_end = std::distance(mat._row_ids.begin(), rrow_iter_end) - 1;
 
         while (rcursor <= rcursor_end) {
-            if (this->_col_ids[cursor] == mat._col_ids[rcursor]) {
+            // No element of this matrix in the row to merge with
+            if (cursor > cursor_end) {
+                this->_val.emplace_back(mat._val[rcursor]);
+                this->_row_ids.emplace_back(i);
+                this->_col_ids.emplace_back(mat._col_ids[rcursor]);
+                ++rcursor;
+            }
+            else if (this->_col_ids[cursor] == mat._col_ids[rcursor]) {
                 this->_val[cursor] += mat._val[rcursor];
 
                 if (rcursor == rcursor_end) { break; }
-- 
2.43.0


From 16dc624183d45980049a86b71b3f8c986130f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 05/33] fix: shape of sparse matrices without elements

shape() dereferenced the end iterator (and underflowed for an empty row pointer array),
which also broke accumulating an empty matrix.
---
 include/lalib/mat/sp_mat.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index 098fd9b..2023006 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -308,6 +308,8 @@ auto SpCooMat<T>::unit(size_t n) -> SpCooMat<T> {
 
 template<typename T>
 constexpr auto SpCooMat<T>::shape() const noexcept -> std::pair<size_t, size_t> {
+    if (this->_val.empty()) { return std::make_pair(0u, 0u); }
+
     size_t nrow = *std::ranges::max_element(this->_row_ids) + 1;
     size_t ncol = *std::ranges::max_element(this->_col_ids) + 1;
 
@@ -527,8 +529,8 @@ auto SpMat<T>::unit(size_t n) -> SpMat<T> {
 
 template<typename T>
 constexpr auto SpMat<T>::shape() const noexcept -> std::pair<size_t, size_t> {
-    size_t nrow = this->_row_ptr.size() - 1;
-    size_t ncol = *std::ranges::max_element(this->_col_ids) + 1;
+    size_t nrow = this->_row_ptr.empty() ? 0 : this->_row_ptr.size() - 1;
+    size_t ncol = this->_col_ids.empty() ? 0 : *std::ranges::max_element(this->_col_ids) + 1;
 
     return std::make_pair(nrow, ncol);
 }
-- 
2.43.0


From 19cbe879cb5f19e76936f83f062331d54254514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 06/33] fix: bounds of row lookups in SpMat

mut_at() documents std::out_of_range for an index out of range but read past the row
pointers; element lookup beyond the last stored row (dropped trailing empty rows) did
the same where SpCooMat gives zero.
---
 include/lalib/mat/sp_mat.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index 2023006..d106557 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -542,6 +542,8 @@ constexpr auto SpMat<T>::nnz() const noexcept -> size_t {
 
 template<typename T>
 auto SpMat<T>::operator()(size_t i, size_t j) const noexcept -> const T& {
+    if (this->_row_ptr.empty() || i >= this->_row_ptr.size() - 1) { return this->_zero; }
+
     for (auto cnt: std::views::iota(this->_row_ptr[i], this->_row_ptr[i + 1])) {
         if (this->_col_ids[cnt] == j) {
             return this->_val[cnt];
@@ -557,6 +559,10 @@ auto SpMat<T>::at(size_t i, size_t j) const noexcept -> const T& {
 
 template<typename T>
 auto SpMat<T>::mut_at(size_t i, size_t j) -> T& {
+    if (this->_row_ptr.empty() || i >= this->_row_ptr.size() - 1) {
+        throw std::out_of_range("Index out of range or does not point to a non-zero element.");
+    }
+
     for (auto cnt: std::views::iota(this->_row_ptr[i], this->_row_ptr[i + 1])) {
         if (this->_col_ids[cnt] == j) {
             return this->_val[cnt];
-- 
2.43.0


From b7887d6b2b3098162d58b5438d31b4c7449eac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 07/33] fix: tridiagonal solve of one-dimensional systems

The sweep read the (empty) off-diagonals and underflowed indices for n = 1.
---
 include/lalib/solver/internal/tdma.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lalib/solver/internal/tdma.hpp b/include/lalib/solver/internal/tdma.hpp
index 23fcb3e..14e77d2 100644
--- a/include/lalib/solver/internal/tdma.hpp
+++ b/include/lalib/solver/internal/tdma.hpp
@@ -10,6 +10,12 @@ namespace lalib::solver::_internal_ {
 template<typename T>
 requires ::std::floating_point<T>
 auto tdma(size_t n, size_t nrow, const T* dl, const T* d, const T* du, const T* b, T* x) -> T* {
+    if (n == 0) { return x; }
+    if (n == 1) {
+        for (auto k = 0u; k < nrow; ++k) { x[k] = b[k] / d[0]; }
+        return x;
+    }
+
     for (auto k = 0u; k < nrow; ++k) {
         std::vector<T> p, q;
         p.reserve(n);
-- 
2.43.0


From 1c71a7922478cc71177209e424c062f2f2008467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 08/33] fix: keep the matrix of TriDiag intact across LAPACK
 solves

?gtsv overwrites the diagonals with its factorization, so the second solve with the
same solver object used garbage.
---
 include/lalib/solver/tri_diag.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lalib/solver/tri_diag.hpp b/include/lalib/solver/tri_diag.hpp
index 844ddd1..2441650 100644
--- a/include/lalib/solver/tri_diag.hpp
+++ b/include/lalib/solver/tri_diag.hpp
@@ -55,7 +55,8 @@ inline auto TriDiag<M>::solve_linear(const V &b, V &rslt) noexcept -> V &
 
     #if defined(LALIB_LAPACK_BACKEND)
     rslt = b;
-    _lapack_::gtsv(n, 1, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), rslt.data(), 1);
+    auto mat = this->_mat;  // overwritten by gtsv
+    _lapack_::gtsv(n, 1, mat.data_dl(), mat.data_d(), mat.data_du(), rslt.data(), 1);
     #else
     _internal_::tdma(n, 1, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), b.data(), rslt.data());
     #endif
@@ -75,7 +76,8 @@ inline auto lalib::solver::TriDiag<M>::solve_linear(const M1 & b, M1 & rslt) noe
 
     #if defined(LALIB_LAPACK_BACKEND)
     rslt = b;
-    _lapack_::gtsv(n, nrow, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), rslt.data(), rslt.shape().second);
+    auto mat = this->_mat;  // overwritten by gtsv
+    _lapack_::gtsv(n, nrow, mat.data_dl(), mat.data_d(), mat.data_du(), rslt.data(), rslt.shape().second);
     #else
     _internal_::tdma(n, nrow, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), b.data(), rslt.data());
     #endif
-- 
2.43.0


From 2c8011ba8c20613e4494cfdb33b01f2eb6d83bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 09/33] fix: report a failing first pivot in the Cholesky
 decomposition

The failing index doubled as status code, so a failure at index 0 looked like success
and matrices with a non-positive first element were accepted.
---
 include/lalib/solver/internal/cholesky_decomposition.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/solver/internal/cholesky_decomposition.hpp b/include/lalib/solver/internal/cholesky_decomposition.hpp
index dcd5c4b..2cbea97 100644
--- a/include/lalib/solver/internal/cholesky_decomposition.hpp
+++ b/include/lalib/solver/internal/cholesky_decomposition.hpp
@@ -37,10 +37,10 @@ auto cholesky_decomposition(size_t n, double* l) -> int32_t {
 		} 
 
 		if (l[index<MType>(n, i, i)] == 0) { 
-            return i;
+            return i + 1;
 		} 
 		else if (l[index<MType>(n, i, i)] < 0) { 
-            return i;
+            return i + 1;
 		}
 
 		l[index<MType>(n, i, i)] = std::sqrt( l[index<MType>(n, i, i)] );
-- 
2.43.0


From 18c9af97f0159489b1e4cf4620d825cd688b76d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 10/33] fix: Cholesky factorizations of other element types
 than double

The internal routines were templates over T but took double pointers.
---
 include/lalib/solver/cholesky_factorization.hpp  | 16 ++++++++--------
 .../solver/internal/cholesky_decomposition.hpp   |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/lalib/solver/cholesky_factorization.hpp b/include/lalib/solver/cholesky_factorization.hpp
index 9b94a40..2982ebc 100644
--- a/include/lalib/solver/cholesky_factorization.hpp
+++ b/include/lalib/solver/cholesky_factorization.hpp
@@ -107,7 +107,7 @@ template<Vector V>
 inline auto DynTriCholeskyFactorization<T>::solve_linear_mut(V& rhs) const -> V& {
    	assert(this->_data.shape().first == rhs.size());
 
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.size(), 1, this->_data.lower_data(), rhs.data(), rhs.data());
 	return rhs;
 }
@@ -118,7 +118,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear(const V& rhs) const ->
    	assert(this->_data.shape().first == rhs.size());
 
 	auto rslt = rhs;
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.size(), 1, this->_data.lower_data(), rhs.data(), rslt.data());
 	return rslt;
 }
@@ -130,7 +130,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear_mut(M& rhs) const -> M&
    	assert(rhs.shape().first == rhs.shape().first);
    	assert(rhs.shape().second == rhs.shape().second);
 
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.shape().first, rhs.shape().second, this->_data.lower_data(), rhs.data(), rhs.data());
 	return rhs;
 }
@@ -143,7 +143,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear(const M& rhs) const ->
    	assert(rhs.shape().second == rhs.shape().second);
 
 	auto rslt = rhs;
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.shape().first, rhs.shape().second, this->_data.lower_data(), rhs.data(), rslt.data());
 	return rslt;
 }
@@ -179,7 +179,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear_mut(V& rhs) const -> V& {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rhs.data(), 1);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.size(), 1, this->_data.data(), rhs.data(), rhs.data());
 	#endif
 	return rhs;
@@ -194,7 +194,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear(const V& rhs) const -> V {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rslt.data(), 1);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.size(), 1, this->_data.data(), rhs.data(), rslt.data());
 	#endif
 	return rslt;
@@ -210,7 +210,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear_mut(M& rhs) const -> M& {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rhs.data(), rhs.shape().second);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.shape().first, rhs.shape().second, this->_data.data(), rhs.data(), rhs.data());
 	#endif
 	return rhs;
@@ -227,7 +227,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear(const M& rhs) const -> M {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rslt.data(), rslt.shape().second);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.shape().first, rhs.shape().second, this->_data.data(), rhs.data(), rslt.data());
 	#endif
 	return rslt;
diff --git a/include/lalib/solver/internal/cholesky_decomposition.hpp b/include/lalib/solver/internal/cholesky_decomposition.hpp
index 2cbea97..a02229e 100644
--- a/include/lalib/solver/internal/cholesky_decomposition.hpp
+++ b/include/lalib/solver/internal/cholesky_decomposition.hpp
@@ -23,7 +23,7 @@ inline constexpr auto index<MemType::Triangle>(size_t, size_t i, size_t j) noexc
 
 
 template<typename T, MemType MType>
-auto cholesky_decomposition(size_t n, double* l) -> int32_t {
+auto cholesky_decomposition(size_t n, T* l) -> int32_t {
     for (auto i = 0u; i < n; ++i) {
 		for (auto j = 0u; j < i; ++j) {
 			for (auto k = 0u; k < j; ++k) { 
@@ -49,7 +49,7 @@ auto cholesky_decomposition(size_t n, double* l) -> int32_t {
 }
 
 template<typename T, MemType MType>
-auto cholesky_linear(size_t n, size_t nrow, const double* l, const double* rhs, double* rslt) -> double* {
+auto cholesky_linear(size_t n, size_t nrow, const T* l, const T* rhs, T* rslt) -> T* {
 	for (auto k = 0u; k < nrow; ++k) {
 		// Forward process
 		for (auto i = 0u; i < n; ++i) {
@@ -72,7 +72,7 @@ auto cholesky_linear(size_t n, size_t nrow, const double* l, const double* rhs,
 }
 
 template<typename T, MemType MType>
-auto mod_cholesky_decomposition(size_t n, double* l) -> int32_t {
+auto mod_cholesky_decomposition(size_t n, T* l) -> int32_t {
 	for (auto i = 0u; i < n; ++i) {
 		for (auto j = 0u; j <= i; ++j) {
 			for (auto k = 0u; k < j; ++k) { 
@@ -87,7 +87,7 @@ auto mod_cholesky_decomposition(size_t n, double* l) -> int32_t {
 }
 
 template<typename T, MemType MType>
-auto mod_cholesky_linear(size_t n, size_t nrhs, const double* l, const double* rhs, double* rslt) {
+auto mod_cholesky_linear(size_t n, size_t nrhs, const T* l, const T* rhs, T* rslt) {
 	for (auto k = 0u; k < nrhs; ++k) {
 		// Forward process
 		for (auto i = 0u; i < n; ++i) {
-- 
2.43.0


From 9fb06e4c7a0fed840830a0452f7e45348038e2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 11/33] fix: detect zero pivots of ILU that no later row
 divides by

A zero pivot was only noticed when a later row had an element in its column, so a
singular matrix could pass construction and give inf/nan in solve().
---
 include/lalib/solver/ilu.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/solver/ilu.hpp b/include/lalib/solver/ilu.hpp
index 13dff23..45bddfe 100644
--- a/include/lalib/solver/ilu.hpp
+++ b/include/lalib/solver/ilu.hpp
@@ -57,6 +57,8 @@ namespace internal {
                     mat.mut_at(i, j) = sum;
                 }
             }
+
+            if (mat(i, i) == 0) { return false; }
         }
 
         return true;
-- 
2.43.0


From 469adf5fe7120d397136d0bdcd3fd24d78d19c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 12/33] fix: GMRES with a zero right-hand side

Normalizing the zero residual gave nan; the solution is the zero vector.
---
 include/lalib/solver/gmres.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lalib/solver/gmres.hpp b/include/lalib/solver/gmres.hpp
index ca0684e..ff358ee 100644
--- a/include/lalib/solver/gmres.hpp
+++ b/include/lalib/solver/gmres.hpp
@@ -48,6 +48,9 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     
     // Initial Krylov subspace basis
     auto b_prime = this->_lu.solve(rhs);
+    if (b_prime.norm2() == Zero<T>::value()) {
+        return lalib::DynVec<T>::filled(n, Zero<T>::value());
+    }
     q.emplace_back((1.0 / b_prime.norm2()) * b_prime);
 
     // Givens rotation components
-- 
2.43.0


From f91cd4c63cea99a0f3ee53718ee4690c15bb451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 13/33] fix: GMRES in single precision

double literals made template argument deduction fail for T = float.
---
 include/lalib/solver/gmres.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lalib/solver/gmres.hpp b/include/lalib/solver/gmres.hpp
index ff358ee..d4e1ef4 100644
--- a/include/lalib/solver/gmres.hpp
+++ b/include/lalib/solver/gmres.hpp
@@ -51,7 +51,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     if (b_prime.norm2() == Zero<T>::value()) {
         return lalib::DynVec<T>::filled(n, Zero<T>::value());
     }
-    q.emplace_back((1.0 / b_prime.norm2()) * b_prime);
+    q.emplace_back((One<T>::value() / b_prime.norm2()) * b_prime);
 
     // Givens rotation components
     auto c = std::vector<T>();
@@ -85,7 +85,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     // Transform the solution from the Krylov subspace
     auto x = lalib::DynVec<T>::filled(n, Zero<T>::value());
     for (auto i = 0u; i < beta.size() - 1; ++i) {
-        axpy(1.0, beta[i] * q[i], x);
+        axpy(One<T>::value(), beta[i] * q[i], x);
     }
 
     return x;
@@ -108,11 +108,11 @@ void Gmres<T, M>::_arnoldi(std::vector<DynVec<T>>& q, HessenbergMat<T>& hess, T&
         hess(j, i) = dot(q[j], v);
     }
     for (auto j: std::views::iota(0u, i + 1)) {
-        axpy(-1.0, hess(j, i) * q[j], v);
+        axpy(-One<T>::value(), hess(j, i) * q[j], v);
     }
 
     h = v.norm2();
-    q.emplace_back((1.0 / h) * v);
+    q.emplace_back((One<T>::value() / h) * v);
 }
 
 template<typename T, typename M>
-- 
2.43.0


From 09f00aaf13d7b5cb56dbae8686c2aafbe6c6d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 14/33] fix: dangling reference to structural zeros of
 tri-diagonal matrices

The const element access returned a reference to a temporary.
---
 include/lalib/mat/dyn_mat.hpp   | 4 +++-
 include/lalib/mat/sized_mat.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index f81c6c1..2780f19 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -265,6 +265,8 @@ private:
     std::vector<T> _dl;
     std::vector<T> _d;
     std::vector<T> _du;
+
+    inline static const T _zero = Zero<T>::value();
 };
 
 template <typename T>
@@ -290,7 +292,7 @@ inline constexpr auto DynTriDiagMat<T>::operator()(size_t i, size_t j) const ->
     if (i == j)             return this->_d[i];
     else if ( i == j - 1 )  return this->_du[i];
     else if ( i == j + 1 )  return this->_dl[i - 1];
-    else                    return Zero<T>::value();
+    else                    return _zero;
 }
 template <typename T>
 inline constexpr auto DynTriDiagMat<T>::operator()(size_t i, size_t j) -> T &
diff --git a/include/lalib/mat/sized_mat.hpp b/include/lalib/mat/sized_mat.hpp
index d2bba69..60af551 100644
--- a/include/lalib/mat/sized_mat.hpp
+++ b/include/lalib/mat/sized_mat.hpp
@@ -285,6 +285,8 @@ private:
     std::array<T, N - 1>    _dl;
     std::array<T, N>        _d;
     std::array<T, N - 1>    _du;
+
+    inline static const T _zero = Zero<T>::value();
 };
 
 template <typename T, size_t N>
@@ -304,7 +306,7 @@ inline constexpr auto SizedTriDiagMat<T, N>::operator()(size_t i, size_t j) cons
     if (i == j)             return this->_d[i];
     else if ( i == j - 1 )  return this->_du[i];
     else if ( i == j + 1 )  return this->_dl[i - 1];
-    else                    return Zero<T>::value();
+    else                    return _zero;
 }
 template <typename T, size_t N>
 inline constexpr auto SizedTriDiagMat<T, N>::operator()(size_t i, size_t j) -> T &
-- 
2.43.0


From 79e4acefb211ce99b33ff25110e7a807f4593735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 15/33] fix: elements of lower triangular matrices above the
 diagonal are zero

They were mirrored as in the Hermitian type, contrary to the truncation that
into_lower_mat() documents, and writes to them changed the mirrored element.
---
 include/lalib/mat/dyn_mat.hpp   | 6 ++++--
 include/lalib/mat/sized_mat.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index 2780f19..b018d7e 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -659,6 +659,8 @@ struct DynLowerTriMat {
 private:
     size_t _n;
     std::vector<T> _lower_elems;
+
+    inline static const T _zero = Zero<T>::value();
 };
 
 template<typename T>
@@ -674,13 +676,13 @@ constexpr auto DynLowerTriMat<T>::shape() const noexcept -> std::pair<size_t, si
 
 template<typename T>
 constexpr auto DynLowerTriMat<T>::operator()(size_t i, size_t j) const -> const T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { return _zero; }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
 template<typename T>
 constexpr auto DynLowerTriMat<T>::operator()(size_t i, size_t j) -> T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { throw std::invalid_argument("Zero component cannot be modified."); }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
diff --git a/include/lalib/mat/sized_mat.hpp b/include/lalib/mat/sized_mat.hpp
index 60af551..1c1a9f0 100644
--- a/include/lalib/mat/sized_mat.hpp
+++ b/include/lalib/mat/sized_mat.hpp
@@ -386,6 +386,8 @@ struct SizedLowerTriMat {
 
 private:
     std::array<T, N * (N + 1) / 2> _lower_elems;
+
+    inline static const T _zero = Zero<T>::value();
 };
 
 template<typename T, size_t N>
@@ -401,13 +403,13 @@ constexpr auto SizedLowerTriMat<T, N>::shape() const noexcept -> std::pair<size_
 
 template<typename T, size_t N>
 constexpr auto SizedLowerTriMat<T, N>::operator()(size_t i, size_t j) const -> const T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { return _zero; }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
 template<typename T, size_t N>
 constexpr auto SizedLowerTriMat<T, N>::operator()(size_t i, size_t j) -> T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { throw std::invalid_argument("Zero component cannot be modified."); }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
-- 
2.43.0


From 87ded1861c9348585ebed03c0b70bcd73a1ad62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 16/33] fix: extending an empty Hessenberg matrix with a column

The first column has one element (as extend_with_zero() does); demanding two shifted all
later columns.
---
 include/lalib/mat/dyn_mat.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index b018d7e..20d26cd 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -466,8 +466,9 @@ void HessenbergMat<T>::extend_with_zero() noexcept {
 
 template<typename T>
 void HessenbergMat<T>::extend_with(std::vector<T>&& new_elems) {
-    if (new_elems.size() != this->_n + 2) {
-        throw std::invalid_argument("New components must have length n + 2 = " + std::to_string(this->_n + 2));
+    auto new_size = this->_n == 0 ? 1 : this->_n + 2;
+    if (new_elems.size() != new_size) {
+        throw std::invalid_argument("New components must have length n + 2 (1 if n = 0) = " + std::to_string(new_size));
     }
     this->_h.insert(this->_h.end(), new_elems.begin(), new_elems.end());
     this->_n += 1;
-- 
2.43.0


From 93b93c080ee39aeb7bbd52196b407a7938a90378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 17/33] fix: default constructed upper triangular matrices are
 empty

The size was left uninitialized.
---
 include/lalib/mat/dyn_mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index 20d26cd..8d51953 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -532,7 +532,7 @@ struct DynUpperTriMat {
     auto data() noexcept -> T*;
 
 private:
-    size_t _n;
+    size_t _n = 0;
     std::vector<T> _upper_elems;
 
     const T _zero = Zero<T>::value();
-- 
2.43.0


From caa1af20a80dcaf712ff9d759f840f81fa587bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 18/33] fix: let the size error of DynUpperTriMat be caught

The constructor threw std::invalid_argument although declared noexcept.
---
 include/lalib/mat/dyn_mat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index 8d51953..c04bef8 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -497,7 +497,7 @@ struct DynUpperTriMat {
     DynUpperTriMat() noexcept = default;
 
     /// @brief Creates a upper triangular matrix with given elements.
-    DynUpperTriMat(std::vector<T>&& upper_elems) noexcept;
+    DynUpperTriMat(std::vector<T>&& upper_elems);
 
     /// @brief Creates an empty upper triangular matrix by allocating memory for the given capacity.
     static constexpr auto with_capacity(size_t cap) noexcept -> DynUpperTriMat<T>;
@@ -551,7 +551,7 @@ private:
 };
 
 template<typename T>
-DynUpperTriMat<T>::DynUpperTriMat(std::vector<T>&& upper_elems) noexcept:
+DynUpperTriMat<T>::DynUpperTriMat(std::vector<T>&& upper_elems):
     _n(_calc_size(upper_elems.size())),
     _upper_elems(std::move(upper_elems))
 {}
-- 
2.43.0


From 787d644cd3cbe95f1683b274473d0b51bdab7eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 19/33] fix: inner product of empty vectors

The first elements were read unconditionally.
---
 include/lalib/ops/vec_ops_core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index 4babe41..45f3590 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -205,9 +205,9 @@ inline auto axpy_core<std::complex<double>>(std::complex<double> alpha, const st
 
 template<typename T>
 inline auto __dot_core_simd(const T* v1, const T* v2, size_t size) -> T {
-    auto r = v1[0] * v2[0];
+    T r = 0;
     #pragma omp simd reduction(+:r)
-    for (auto i = 1u; i < size; ++i) {
+    for (auto i = 0u; i < size; ++i) {
         r += v1[i] * v2[i];
     }
     return r;
-- 
2.43.0


From efab803a726831c36c66976df3d05dd0f079f7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 20/33] fix: inner product of element types other than float
 and double

The generic kernel returned a pointer and did not compile.
---
 include/lalib/ops/vec_ops_core.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index 45f3590..d3e90a9 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -215,8 +215,11 @@ inline auto __dot_core_simd(const T* v1, const T* v2, size_t size) -> T {
 
 template<typename T>
 inline auto dot_core(const T* v1, const T* v2, size_t size) -> T {
-    __dot_core_simd(v1, v2, size);
-    return v2;
+    T r = 0;
+    for (auto i = 0u; i < size; ++i) {
+        r += v1[i] * v2[i];
+    }
+    return r;
 }
 
 template<>
-- 
2.43.0


From 9e7397f00bd93c2f6639c7f6cca21e73c1f6e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 21/33] fix: Euclidean norm of complex vectors

Sum squared magnitudes instead of squares.
---
 include/lalib/ops/vec_ops_core.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index d3e90a9..ee0ff8f 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -330,6 +330,26 @@ inline auto norm2_core(const T* v1, size_t size) -> T {
     return norm;
 }
 
+template<typename T>
+inline auto __norm2_core_complex(const std::complex<T>* v1, size_t size) -> T {
+    T r = 0;
+    #pragma omp simd reduction(+:r)
+    for (auto i = 0u; i < size; ++i) {
+        r += std::norm(v1[i]);
+    }
+    return std::sqrt(r);
+}
+
+template<>
+inline auto norm2_core<std::complex<float>>(const std::complex<float>* v1, size_t size) -> std::complex<float> {
+    return __norm2_core_complex(v1, size);
+}
+
+template<>
+inline auto norm2_core<std::complex<double>>(const std::complex<double>* v1, size_t size) -> std::complex<double> {
+    return __norm2_core_complex(v1, size);
+}
+
 template<>
 inline auto norm2_core<float>(const float* v1, size_t size) -> float {
     float norm = 0;
-- 
2.43.0


From b2825e561625ca71f892281552d95203373f9a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 22/33] fix: return the destination from sub(SizedVec, DynVec,
 SizedVec)

---
 include/lalib/ops/vec_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 2694bcb..7e221dd 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -329,7 +329,7 @@ auto sub(const SizedVec<T, N> &v1, const DynVec<T> &v2, SizedVec<T, N> &vr) -> S
 {
     __check_size(v1.size(), v2.size());
     sub_core(v1.data(), v2.data(), vr.data(), N);
-    return v1;
+    return vr;
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 92db52507126c71eef45913d3f7c6c1fb42958dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 23/33] fix: let size mismatches of neg, axpy and dot be caught

These functions throw SizeMismatched but were declared noexcept, so the program was
terminated instead.
---
 include/lalib/ops/vec_ops.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 7e221dd..70facbf 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -24,7 +24,7 @@ template<typename T, size_t N>
 inline auto neg(const SizedVec<T, N>& v, SizedVec<T, N>& vr) noexcept -> SizedVec<T, N>&;
 
 template<typename T>
-inline auto neg(const DynVec<T>& v, DynVec<T>& vr) noexcept -> DynVec<T>&;
+inline auto neg(const DynVec<T>& v, DynVec<T>& vr) -> DynVec<T>&;
 
 
 template<typename T, size_t N>
@@ -113,7 +113,7 @@ template<typename T, size_t N>
 inline auto axpy(T alpha, const SizedVec<T, N>& x, SizedVec<T, N>& y) noexcept -> SizedVec<T, N>&;
 
 template<typename T>
-inline auto axpy(T alpha, const DynVec<T>& x, DynVec<T>& y) noexcept -> DynVec<T>&;
+inline auto axpy(T alpha, const DynVec<T>& x, DynVec<T>& y) -> DynVec<T>&;
 
 
 /// @brief      Calculate scalar multipliation of vectors
@@ -160,7 +160,7 @@ template<typename T, size_t N>
 inline auto dot(const SizedVec<T, N>& x, const SizedVec<T, N>& y) noexcept -> T;
 
 template<typename T>
-inline auto dot(const DynVec<T>& x, const DynVec<T>& y) noexcept -> T;
+inline auto dot(const DynVec<T>& x, const DynVec<T>& y) -> T;
 
 
 template<typename T>
@@ -245,7 +245,7 @@ auto neg(const SizedVec<T, N> &v, SizedVec<T, N>& vr) noexcept -> SizedVec<T, N>
 }
 
 template <typename T>
-auto neg(const DynVec<T> &v, DynVec<T>& vr) noexcept -> DynVec<T> &
+auto neg(const DynVec<T> &v, DynVec<T>& vr) -> DynVec<T> &
 {
     __check_size(v.size(), vr.size());
     __neg_core_simd(v.data(), vr.data(), v.size());
@@ -373,7 +373,7 @@ auto axpy(T alpha, const SizedVec<T, N> &x, SizedVec<T, N> &y) noexcept -> Sized
     return y;
 }
 template <typename T>
-auto axpy(T alpha, const DynVec<T> &x, DynVec<T> &y) noexcept -> DynVec<T> &
+auto axpy(T alpha, const DynVec<T> &x, DynVec<T> &y) -> DynVec<T> &
 {
     __check_size(x.size(), y.size());
     axpy_core(alpha, x.data(), y.data(), x.size());
@@ -458,7 +458,7 @@ inline auto dot(const SizedVec<T, N>& x, const SizedVec<T, N>& y) noexcept -> T
     return d;
 }
 template<typename T>
-inline auto dot(const DynVec<T>& x, const DynVec<T>& y) noexcept -> T {
+inline auto dot(const DynVec<T>& x, const DynVec<T>& y) -> T {
     T d;
     __check_size(x.size(), y.size());
     d = dot_core(x.data(), y.data(), x.size());
-- 
2.43.0


From b066de4a2410281daebf9ca23cabbb2b11a26154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 24/33] fix: check the size in SizedVec::dot(DynVec)

A shorter dynamic vector was read out of bounds; DynVec::dot(SizedVec) already checks.
---
 include/lalib/vec/sized_vec.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lalib/vec/sized_vec.hpp b/include/lalib/vec/sized_vec.hpp
index 0236cb8..caad12e 100644
--- a/include/lalib/vec/sized_vec.hpp
+++ b/include/lalib/vec/sized_vec.hpp
@@ -7,6 +7,7 @@
 #include <vector>
 #include <initializer_list>
 #include "lalib/ops/vec_ops_core.hpp"
+#include "lalib/err/error.hpp"
 
 namespace lalib {
 
@@ -74,7 +75,7 @@ public:
 
     // === Operations === //
     constexpr auto dot(const SizedVec<T, N>& v) const noexcept -> T;
-    constexpr auto dot(const DynVec<T>& v) const noexcept -> T;
+    constexpr auto dot(const DynVec<T>& v) const -> T;
 
     constexpr auto norm2() const noexcept -> T;
 
@@ -205,9 +206,12 @@ inline constexpr auto SizedVec<T, N>::dot(const SizedVec<T, N> &v) const noexcep
 }
 
 template <typename T, size_t N>
-inline constexpr auto SizedVec<T, N>::dot(const DynVec<T> &v) const noexcept -> T
+inline constexpr auto SizedVec<T, N>::dot(const DynVec<T> &v) const -> T
 {
     T d;
+    if (v.size() != N) {
+        throw vec_error::SizeMismatched(N, v.size());
+    }
     d = dot_core(this->data(), v.data(), this->size());
     return d;
 }
-- 
2.43.0


From c08c0bbfe144bf7081631fefc0b1f9b07a181e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 25/33] fix: check the size of the destination in add and sub
 of dynamic vectors

A shorter destination was written out of bounds.
---
 include/lalib/ops/vec_ops.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 70facbf..1d28130 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -296,6 +296,7 @@ auto add(const DynVec<T> &v1, const SizedVec<T, N> &v2, SizedVec<T, N> &vr) -> S
 template<typename T>
 inline auto add(const DynVec<T>& v1, const DynVec<T>& v2, DynVec<T>& vr) -> DynVec<T>& {
     __check_size(v1.size(), v2.size());
+    __check_size(v1.size(), vr.size());
     add_core(v1.data(), v2.data(), vr.data(), v1.size());
     return vr;
 }
@@ -343,6 +344,7 @@ auto sub(const DynVec<T> &v1, const SizedVec<T, N> &v2, SizedVec<T, N> &vr) -> S
 template<typename T>
 inline auto sub(const DynVec<T>& v1, const DynVec<T>& v2, DynVec<T>& vr) -> DynVec<T>& {
     __check_size(v1.size(), v2.size());
+    __check_size(v1.size(), vr.size());
     sub_core(v1.data(), v2.data(), vr.data(), v1.size());
     return vr;
 }
-- 
2.43.0


From 0a5f7aa376f341d984ea13b7116acdd2f74c7de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 26/33] fix: cross products of a dynamic vector returning a new
 vector

The result was a DynVec although SizedVec<T, 3> is returned, which did not compile.
---
 include/lalib/ops/vec_ops.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 1d28130..02b8714 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -541,7 +541,7 @@ inline auto cross(const SizedVec<T, 3>& x, const DynVec<T>& y, DynVec<T>& vr) no
 template<typename T>
 inline auto cross(const DynVec<T>& x, const SizedVec<T, 3>& y) noexcept -> SizedVec<T, 3> {
     assert(x.size() == 3);
-    auto vr = x;
+    auto vr = SizedVec<T, 3>::uninit();
     cross3_core(x.data(), y.data(), vr.data());
     return vr;
 }
@@ -563,7 +563,7 @@ template<typename T>
 inline auto cross(const DynVec<T>& x, const DynVec<T>& y) noexcept -> SizedVec<T, 3> {
     assert(x.size() == 3);
     assert(y.size() == 3);
-    auto vr = x;
+    auto vr = SizedVec<T, 3>::uninit();
     cross3_core(x.data(), y.data(), vr.data());
     return vr;
 }
-- 
2.43.0


From 7ead2de54808d899e118a790227a9367d2dd8151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 27/33] fix: typo in the assertion of mul(SizedMat, SizedMat,
 DynMat)

It did not compile unless NDEBUG was defined.
---
 include/lalib/ops/mat_mat_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/ops/mat_mat_ops.hpp b/include/lalib/ops/mat_mat_ops.hpp
index 2bef08f..ab5042e 100644
--- a/include/lalib/ops/mat_mat_ops.hpp
+++ b/include/lalib/ops/mat_mat_ops.hpp
@@ -142,7 +142,7 @@ inline auto mul(T alpha, const DynMat<T>& a, const DynMat<T>& b, T beta, SizedMa
 
 template<typename T, size_t N, size_t M, size_t L>
 inline auto mul(T alpha, const SizedMat<T, N, L>& a, const SizedMat<T, L, M>& b, T beta, DynMat<T>& c) noexcept -> DynMat<T>& {
-    assert(c.shape().frist == N);
+    assert(c.shape().first == N);
     assert(c.shape().second == M);
     mul_core(N, M, L, alpha, a.data(), b.data(), beta, c.data());
     return c;
-- 
2.43.0


From a125534b2e8552db2e7fe582f8b8215dc9200f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 28/33] fix: matrix operators for other element types than
 double

double literals made template argument deduction fail for float and complex elements in
matrix products, negation and 2x2 inversion.
---
 include/lalib/mat.hpp             |  4 ++--
 include/lalib/ops/mat_mat_ops.hpp |  4 ++--
 include/lalib/ops/mat_ops.hpp     |  8 ++++----
 include/lalib/ops/mat_vec_ops.hpp | 10 +++++-----
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/lalib/mat.hpp b/include/lalib/mat.hpp
index 15b8c71..c8bfb36 100644
--- a/include/lalib/mat.hpp
+++ b/include/lalib/mat.hpp
@@ -34,14 +34,14 @@ inline auto invert(const SizedMat<T, 2, 2>& mat, SizedMat<T, 2, 2>& rmat) -> Siz
         rmat(1, 1) = mat(0, 0);
         rmat(0, 1) = -mat(0, 1);
         rmat(1, 0) = -mat(1, 0);
-        scale(1.0 / denom, rmat);
+        scale(T(1.0) / denom, rmat);
         return rmat;
     } else {
         auto denom = mat(0, 0) * mat(1, 1) - mat(0, 1) * mat(1, 0);
         std::swap(rmat(0, 0), rmat(1, 1));
         rmat(0, 1) *= -1.0;
         rmat(1, 0) *= -1.0;
-        scale(1.0 / denom, rmat);
+        scale(T(1.0) / denom, rmat);
         return rmat;
     }
 }
diff --git a/include/lalib/ops/mat_mat_ops.hpp b/include/lalib/ops/mat_mat_ops.hpp
index ab5042e..56547dd 100644
--- a/include/lalib/ops/mat_mat_ops.hpp
+++ b/include/lalib/ops/mat_mat_ops.hpp
@@ -183,14 +183,14 @@ inline auto mul(T alpha, const DynMat<T>& a, const DynMat<T>& b, T beta, DynMat<
 template<typename T, size_t N, size_t M, size_t L>
 inline auto operator*(const SizedMat<T, N, L>& a, const SizedMat<T, L, M>& b) noexcept -> SizedMat<T, N, M> {
     auto mr = lalib::SizedMat<T, N, M>::uninit();
-    mul(1.0, a, b, 0.0, mr);
+    mul(T(1.0), a, b, T(0.0), mr);
     return mr;
 }
 
 template<typename T>
 inline auto operator*(const DynMat<T>& a, const DynMat<T>& b) noexcept -> DynMat<T> {
     auto mr = lalib::DynMat<T>::uninit(a.shape().first, b.shape().second);
-    mul(1.0, a, b, 0.0, mr);
+    mul(T(1.0), a, b, T(0.0), mr);
     return mr;
 }
 
diff --git a/include/lalib/ops/mat_ops.hpp b/include/lalib/ops/mat_ops.hpp
index 7182db1..c32e6db 100644
--- a/include/lalib/ops/mat_ops.hpp
+++ b/include/lalib/ops/mat_ops.hpp
@@ -78,7 +78,7 @@ template<typename T, size_t N, size_t M>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SizedMat<T, N, M>& mat) noexcept -> SizedMat<T, N, M> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(T(-1.0), rmat);
     return rmat;
 }
 
@@ -86,7 +86,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const DynMat<T>& mat) noexcept -> DynMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(T(-1.0), rmat);
     return rmat;
 }
 
@@ -94,7 +94,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SpCooMat<T>& mat) noexcept -> SpCooMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(T(-1.0), rmat);
     return rmat;
 }
 
@@ -102,7 +102,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SpMat<T>& mat) noexcept -> SpMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(T(-1.0), rmat);
     return rmat;
 }
 
diff --git a/include/lalib/ops/mat_vec_ops.hpp b/include/lalib/ops/mat_vec_ops.hpp
index c2370b8..20bc78c 100644
--- a/include/lalib/ops/mat_vec_ops.hpp
+++ b/include/lalib/ops/mat_vec_ops.hpp
@@ -59,7 +59,7 @@ inline auto mul(T alpha, const SpMat<T>& mat, const DynVec<T>& v, T beta, DynVec
 template<typename T, size_t N, size_t M>
 inline auto operator*(const SizedMat<T, N, M>& mat, const SizedVec<T, M>& vec) noexcept -> SizedVec<T, N> {
     auto vr = SizedVec<T, N>::uninit();
-    mul_core(N, M, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(N, M, T(1.0), mat.data(), vec.data(), T(0.0), vr.data());
     return vr;
 }
 
@@ -67,7 +67,7 @@ template<typename T, size_t N, size_t M>
 inline auto operator*(const SizedMat<T, N, M>& mat, const DynVec<T>& vec) noexcept -> SizedVec<T, N> {
     assert(M == vec.size());
     auto vr = SizedVec<T, N>::uninit();
-    mul_core(N, M, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(N, M, T(1.0), mat.data(), vec.data(), T(0.0), vr.data());
     return vr;
 }
 
@@ -76,7 +76,7 @@ inline auto operator*(const DynMat<T>& mat, const SizedVec<T, N>& vec) noexcept
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    mul_core(n, m, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(n, m, T(1.0), mat.data(), vec.data(), T(0.0), vr.data());
     return vr;
 }
 
@@ -85,7 +85,7 @@ inline auto operator*(const DynMat<T>& mat, const DynVec<T>& vec) noexcept -> Dy
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    mul_core(n, m, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(n, m, T(1.0), mat.data(), vec.data(), T(0.0), vr.data());
     return vr;
 }
 
@@ -94,7 +94,7 @@ inline auto operator*(const SpMat<T>& mat, const DynVec<T>& vec) noexcept -> Dyn
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    _sp_mul_core(n, mat.col_indices().data(), mat.row_ptr().data(), 1.0, mat.values().data(), vec.data(), 0.0, vr.data());
+    _sp_mul_core(n, mat.col_indices().data(), mat.row_ptr().data(), T(1.0), mat.values().data(), vec.data(), T(0.0), vr.data());
     return vr;
 }
 
-- 
2.43.0


From ba48e6923b962182d6cad28cbd6a15e815a44e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 29/33] fix: division of vectors by scalars of other types than
 double

reciprocal() returned double for float and did not compile for complex<float>.
---
 include/lalib/ops/ops_traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/ops_traits.hpp b/include/lalib/ops/ops_traits.hpp
index 3c00e25..1407bde 100644
--- a/include/lalib/ops/ops_traits.hpp
+++ b/include/lalib/ops/ops_traits.hpp
@@ -41,13 +41,13 @@ struct One<std::complex<T>> {
 template<typename T>
 requires std::floating_point<T>
 constexpr auto reciprocal(const T& val) noexcept {
-    return 1.0 / val;
+    return T(1.0) / val;
 }
 
 template<typename T>
 requires std::floating_point<T>
 constexpr auto reciprocal(const std::complex<T>& val) noexcept {
-    return 1.0 / val;
+    return T(1.0) / val;
 }
 
 }
-- 
2.43.0


From ccae5a86c54a9c84a58c7141519ec583dfd4ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 30/33] fix: zero and one of complex element types

The specializations violated the constraint of the primary template, so identity and
sparse matrices of complex elements did not compile.
---
 include/lalib/ops/ops_traits.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/ops_traits.hpp b/include/lalib/ops/ops_traits.hpp
index 1407bde..22f9d4a 100644
--- a/include/lalib/ops/ops_traits.hpp
+++ b/include/lalib/ops/ops_traits.hpp
@@ -9,30 +9,36 @@ namespace lalib {
 
 // === Zero === //
 
+template<typename T>
+struct Zero;
+
 template<typename T>
 requires std::floating_point<T>
-struct Zero {
+struct Zero<T> {
     static auto value() noexcept -> T { return 0.0; }
 };
 
 template<typename T>
 requires std::floating_point<T>
 struct Zero<std::complex<T>> {
-    static auto value() noexcept -> T { return std::complex<T>(0.0, 0.0); }
+    static auto value() noexcept -> std::complex<T> { return std::complex<T>(0.0, 0.0); }
 };
 
 // === One === //
 
+template<typename T>
+struct One;
+
 template<typename T>
 requires std::floating_point<T>
-struct One {
+struct One<T> {
     static auto value() noexcept -> T { return 1.0; }
 };
 
 template<typename T>
 requires std::floating_point<T>
 struct One<std::complex<T>> {
-    static auto value() noexcept -> T { return std::complex<T>(1.0, 0.0); }
+    static auto value() noexcept -> std::complex<T> { return std::complex<T>(1.0, 0.0); }
 };
 
 
-- 
2.43.0


From 974b4aee752c9969653690c7c4991c1fa138b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 31/33] fix: orthogonalization of an empty set of vectors

The first vector was accessed unconditionally.
---
 include/lalib/ops/orthogonal.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lalib/ops/orthogonal.hpp b/include/lalib/ops/orthogonal.hpp
index 4f01b89..fbe2e66 100644
--- a/include/lalib/ops/orthogonal.hpp
+++ b/include/lalib/ops/orthogonal.hpp
@@ -13,8 +13,9 @@ namespace lalib::orth {
 template<std::ranges::random_access_range C>
 requires Vector<std::ranges::range_value_t<C>>
 inline void cgs(C& vecs) {
-    auto n = vecs[0].size();
     auto m = vecs.size();
+    if (m == 0) { return; }
+    auto n = vecs[0].size();
 
     for (auto j = 1u; j < m; ++j) {
         assert(n == vecs[1].size());
-- 
2.43.0


From 2d5b30c5155cbd086e13cd971519158b9c3a5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:43 +0000
Subject: [PATCH 32/33] fix: complex axpy of a vector with itself on the BLAS
 backends

cblas_?axpy reads the real part it has just overwritten when x and y are the same.
---
 include/lalib/ops/vec_ops_core.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index ee0ff8f..2d27c20 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -183,7 +183,9 @@ inline auto axpy_core<double>(double alpha, const double* vx, double* vy, size_t
 template<>
 inline auto axpy_core<std::complex<float>>(std::complex<float> alpha, const std::complex<float>* vx, std::complex<float>* vy, size_t size) noexcept -> std::complex<float>* {
     #ifdef LALIB_BLAS_BACKEND
-    cblas_caxpy(size, &alpha, vx, 1, vy, 1);
+    // The vectors passed to BLAS must not be the same
+    if (vx == vy) { __axpy_core_simd(alpha, vx, vy, size); }
+    else { cblas_caxpy(size, &alpha, vx, 1, vy, 1); }
     #else
     __axpy_core_simd(alpha, vx, vy, size);
     #endif
@@ -193,7 +195,9 @@ inline auto axpy_core<std::complex<float>>(std::complex<float> alpha, const std:
 template<>
 inline auto axpy_core<std::complex<double>>(std::complex<double> alpha, const std::complex<double>* vx, std::complex<double>* vy, size_t size) noexcept -> std::complex<double>* {
     #ifdef LALIB_BLAS_BACKEND
-    cblas_zaxpy(size, &alpha, vx, 1, vy, 1);
+    // The vectors passed to BLAS must not be the same
+    if (vx == vy) { __axpy_core_simd(alpha, vx, vy, size); }
+    else { cblas_zaxpy(size, &alpha, vx, 1, vy, 1); }
     #else
     __axpy_core_simd(alpha, vx, vy, size);
     #endif
-- 
2.43.0


From 407a0c38c6d1892743807f7022311f23a9fd2e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:15 +0000
Subject: [PATCH 33/33] fix: BLAS matrix-vector product of a matrix without
 columns

---
 include/lalib/ops/mat_vec_ops_core.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index 570dfb3..8e6cbfb 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -86,7 +86,10 @@ inline auto mul_core(size_t n, size_t m, T alpha, const T* mat, const T* x, T be
 template<>
 inline auto mul_core<float>(size_t n, size_t m, float alpha, const float* mat, const float* x, float beta, float* y) noexcept -> float* {
     #if defined(LALIB_BLAS_BACKEND)
-    if (x == y) {
+    if (m == 0) {
+        // gemv returns without scaling y when the matrix has no columns
+        __mul_core_simd(n, m, alpha, mat, x, beta, y);
+    } else if (x == y) {
         auto tmp = std::make_unique<float[]>(n);
         std::copy(y, y + n, tmp.get());
         cblas_sgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
@@ -103,7 +106,10 @@ inline auto mul_core<float>(size_t n, size_t m, float alpha, const float* mat, c
 template<>
 inline auto mul_core<double>(size_t n, size_t m, double alpha, const double* mat, const double* x, double beta, double* y) noexcept -> double* {
     #if defined(LALIB_BLAS_BACKEND)
-    if (x == y) {
+    if (m == 0) {
+        // gemv returns without scaling y when the matrix has no columns
+        __mul_core_simd(n, m, alpha, mat, x, beta, y);
+    } else if (x == y) {
         auto tmp = std::make_unique<double[]>(n);
         std::copy(y, y + n, tmp.get());
         cblas_dgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
-- 
2.43.0

