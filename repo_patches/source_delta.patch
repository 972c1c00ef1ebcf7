From f5459585be0a7e49b99c8c9641d0a44ea81e862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:11 +0000
Subject: [PATCH 001/116] fix: standardize with supplied shift and computed
 scale uses the number of observations

The standard deviations about supplied means were scaled by the number of
groups instead of the number of observations, so for dof >= 0 they were wrong
(or infinite) unless the two happened to coincide.
---
 .../core/basic_statistics/statistical_utilities.cpp   | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/core/basic_statistics/statistical_utilities.cpp b/source/core/basic_statistics/statistical_utilities.cpp
index bdaf37e..73bddbc 100644
--- a/source/core/basic_statistics/statistical_utilities.cpp
+++ b/source/core/basic_statistics/statistical_utilities.cpp
@@ -75,15 +75,20 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
 
     // By computing length we can avoid duplicating some of the logic for the different axis types
     da_int length;
+    // Number of observations contributing to each mean and standard deviation
+    da_int n_obs;
     switch (axis) {
     case da_axis_col:
         length = p;
+        n_obs = n;
         break;
     case da_axis_row:
         length = n;
+        n_obs = p;
         break;
     case da_axis_all:
         length = 1;
+        n_obs = n * p;
         break;
     default:
         return da_status_internal_error; // LCOV_EXCL_LINE
@@ -92,9 +97,9 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
 
     da_int scale_factor = dof;
     if (dof < 0) {
-        scale_factor = length;
+        scale_factor = n_obs;
     } else if (dof == 0) {
-        scale_factor = length - 1;
+        scale_factor = n_obs > 1 ? n_obs - 1 : 1;
     }
 
     // These booleans will help us determine which route the computation should take
@@ -205,7 +210,7 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
             for (da_int i = 0; i < length; i++) {
                 // Use wider_t so that in _Float16 we can safely compute the input to sqrt without overflowing
                 scale[i] = static_cast<T>(
-                    da_std::sqrt(static_cast<da_fp16::wider_t<T>>(length) *
+                    da_std::sqrt(static_cast<da_fp16::wider_t<T>>(n_obs) *
                                  static_cast<da_fp16::wider_t<T>>(scale[i]) /
                                  static_cast<da_fp16::wider_t<T>>(scale_factor)));
             }
-- 
2.43.0


From 555ed8c0e7143db708d6a3003a33b289fec5e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:54 +0000
Subject: [PATCH 002/116] fix: give the cross-validation fold classifiers of
 SVM the handle's error object

---
 source/core/svm/svm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index bf3cc1e..7fdd958 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -1366,6 +1366,7 @@ da_status svm<T>::compute_probabilities(base_svm<T> &classifier, da_int n_fold,
             fold_classifier->kernel_function = classifier.kernel_function;
             fold_classifier->cache_size = classifier.cache_size;
             fold_classifier->max_ws_size = classifier.max_ws_size;
+            fold_classifier->err = this->err;
 
             da_status fold_status = fold_classifier->compute();
             if (fold_status != da_status_success)
-- 
2.43.0


From 71c4c3ed1f32a9fc02d775c68df322d7325bd3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:54 +0000
Subject: [PATCH 003/116] fix: da_vector: appending an empty std::vector passed
 a null pointer to memcpy

---
 source/core/utilities/da_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/utilities/da_vector.hpp b/source/core/utilities/da_vector.hpp
index c29e90d..1d11090 100644
--- a/source/core/utilities/da_vector.hpp
+++ b/source/core/utilities/da_vector.hpp
@@ -192,7 +192,8 @@ template <typename T> class da_vector {
             free(_data);
             _data = new_data;
         }
-        memcpy(_data + _size, vec.data(), vec.size() * sizeof(T));
+        if (!vec.empty())
+            memcpy(_data + _size, vec.data(), vec.size() * sizeof(T));
         _size += vec.size();
     }
 
-- 
2.43.0


From fa957fa9286b825fda6038a02e2f7a051a9530c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:10 +0000
Subject: [PATCH 004/116] fix: cosine distances with more than 1024 rows of Y
 used the norms of the wrong rows

---
 source/core/metrics/partitioning_infrastructure.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/metrics/partitioning_infrastructure.hpp b/source/core/metrics/partitioning_infrastructure.hpp
index 3dc03e9..b7c4b88 100644
--- a/source/core/metrics/partitioning_infrastructure.hpp
+++ b/source/core/metrics/partitioning_infrastructure.hpp
@@ -231,8 +231,9 @@ inline da_status LoopFive_packed(da_int m, da_int n, da_int k, const T *A, da_in
         LoopFour_packed<T, MR, NR, MC, NC, KC, Kernel_Operator>(
             m, jb, k, A, lda, &b_matrix(j, 0), ldb, &c_matrix(0, j), ldc, kernelOp,
             Btilde, Atilde_all, n_threads);
-        postOp(m, jb, &c_matrix(0, j), ldc);
     }
+    // The post-operator may depend on the column index, so it is given the whole of C
+    postOp(m, n, C, ldc);
 
     aligned_free(Atilde_all);
     aligned_free(Btilde);
-- 
2.43.0


From bc71024527b418a733d1743bea1c14980ae088c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:10 +0000
Subject: [PATCH 005/116] fix: kernel functions with a null Y read through it
 when run in parallel blocks

---
 source/core/kernel_functions/kernel_functions.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/core/kernel_functions/kernel_functions.cpp b/source/core/kernel_functions/kernel_functions.cpp
index e028143..4c846fb 100644
--- a/source/core/kernel_functions/kernel_functions.cpp
+++ b/source/core/kernel_functions/kernel_functions.cpp
@@ -369,6 +369,11 @@ inline void kernel_setup(da_order order, da_int m, da_int n, da_int k, const T *
                          T coef0, da_int degree, bool X_is_Y, math_type math_func,
                          da_int vectorisation) {
     CBLAS_ORDER cblas_order = da_utils::da_order_to_cblas_order(order);
+    // The blocks of the parallel path reference Y explicitly
+    if (X_is_Y) {
+        Y = X;
+        ldy = ldx;
+    }
     // For row-major order, parallelise over rows of X first and then rows of Y, for column-major order parallelise over rows of Y first and then rows of X.
     // Consequently, for row-major we fill D matrix row by row, for column-major we fill D matrix column by column.
     // first dim is the first dimension of the array we will be parallelising over.
@@ -531,6 +536,11 @@ void rbf_kernel_internal(da_order order, da_int m, da_int n, da_int k, const T *
     vectorization_type vec_enum = (vectorization_type)vectorisation;
     auto exp_kernel_func = select_exp_kernel_function<T>(vec_enum);
     T multiplier = -gamma;
+    // The blocks of the parallel path reference Y explicitly
+    if (X_is_Y) {
+        Y = X;
+        ldy = ldx;
+    }
     // In general case we want to compute the Y matrix norms
     if (compute_X_norms == 2) {
         for (da_int i = 0; i < m; i++) {
@@ -602,7 +612,7 @@ void rbf_kernel_internal(da_order order, da_int m, da_int n, da_int k, const T *
                     ARCH::euclidean_gemm_distance(
                         order, m_in, n_in, k, X + X_block_offset, ldx, Y + Y_block_offset,
                         ldy, D + D_block_offset, ldd, static_cast<T *>(nullptr), 0,
-                        static_cast<T *>(nullptr), 0, true, X_is_Y);
+                        static_cast<T *>(nullptr), 0, true, false);
                     exp_kernel_func(n_in, m_in, D + D_block_offset, ldd, multiplier,
                                     Y_norms + Y_norm_offset, X_norms + X_norm_offset);
                 }
@@ -631,7 +641,7 @@ void rbf_kernel_internal(da_order order, da_int m, da_int n, da_int k, const T *
                     ARCH::euclidean_gemm_distance(
                         order, m_in, n_in, k, X + X_block_offset, ldx, Y + Y_block_offset,
                         ldy, D + D_block_offset, ldd, static_cast<T *>(nullptr), 0,
-                        static_cast<T *>(nullptr), 0, true, X_is_Y);
+                        static_cast<T *>(nullptr), 0, true, false);
                     exp_kernel_func(m_in, n_in, D + D_block_offset, ldd, multiplier,
                                     X_norms + X_norm_offset, Y_norms + Y_norm_offset);
                 }
-- 
2.43.0


From f13daefd493921f792b89820576258e89a661d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:36 +0000
Subject: [PATCH 006/116] fix: gemm-based Euclidean distances could be NaN or
 negative through cancellation

---
 source/core/metrics/euclidean_gemm_distance.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/core/metrics/euclidean_gemm_distance.cpp b/source/core/metrics/euclidean_gemm_distance.cpp
index a096847..e3281f1 100644
--- a/source/core/metrics/euclidean_gemm_distance.cpp
+++ b/source/core/metrics/euclidean_gemm_distance.cpp
@@ -166,9 +166,9 @@ void euclidean_gemm_distance(da_order order, da_int m, da_int n, da_int k, const
                 }
             } else {
                 if (order == column_major) {
-                    da_simd_math::sqrt_matrix(m, n, D, ldd);
+                    da_simd_math::sqrt_clamp_matrix(m, n, D, ldd);
                 } else {
-                    da_simd_math::sqrt_matrix(n, m, D, ldd);
+                    da_simd_math::sqrt_clamp_matrix(n, m, D, ldd);
                 }
             }
         }
@@ -205,7 +205,7 @@ void euclidean_gemm_distance(da_order order, da_int m, da_int n, da_int k, const
                             for (da_int idx = 0; idx < j; idx++)
                                 D[idx + j * ldd] = da_std::sqrt(D[idx + j * ldd]);
                         } else {
-                            da_simd_math::sqrt_vec(D + j * ldd, j);
+                            da_simd_math::sqrt_clamp_vec(D + j * ldd, j);
                         }
                     }
                     D[j + j * ldd] = (T)0.0;
@@ -219,7 +219,7 @@ void euclidean_gemm_distance(da_order order, da_int m, da_int n, da_int k, const
                                 D[i * ldd + (i + 1) + idx] =
                                     da_std::sqrt(D[i * ldd + (i + 1) + idx]);
                         } else {
-                            da_simd_math::sqrt_vec(D + i * ldd + (i + 1), len);
+                            da_simd_math::sqrt_clamp_vec(D + i * ldd + (i + 1), len);
                         }
                     }
                     D[i * ldd + i] = (T)0.0;
@@ -298,6 +298,15 @@ da_status euclidean_gemm(da_order order, da_int m, da_int n, da_int k, const T *
                         D[j + i * ldd] = D[i + j * ldd];
         }
     }
+    // Rounding errors can leave tiny negative values in the squared distances
+    if (square_distances) {
+        da_int n_minor = order == column_major ? m : (X_is_Y ? m : n);
+        da_int n_major = order == column_major ? (X_is_Y ? m : n) : m;
+        for (da_int j = 0; j < n_major; j++)
+            for (da_int i = 0; i < n_minor; i++)
+                if (D[i + j * ldd] < (T)0.0)
+                    D[i + j * ldd] = (T)0.0;
+    }
 
     return status;
 }
-- 
2.43.0


From 29ff29b5caa04efb3cee512c4a4c04bd3329a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:36 +0000
Subject: [PATCH 007/116] fix: RBF kernel values could exceed one through
 cancellation

---
 source/core/kernel_functions/kernel_functions.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/core/kernel_functions/kernel_functions.cpp b/source/core/kernel_functions/kernel_functions.cpp
index 4c846fb..de52db7 100644
--- a/source/core/kernel_functions/kernel_functions.cpp
+++ b/source/core/kernel_functions/kernel_functions.cpp
@@ -513,6 +513,17 @@ inline void kernel_setup(da_order order, da_int m, da_int n, da_int k, const T *
     }
 };
 
+/*
+Cancellation in the squared distances can make them slightly negative; values of the RBF kernel are at most one
+*/
+template <typename T>
+inline void clamp_rbf(da_int first_dim, da_int second_dim, T *D, da_int ldd) {
+    for (da_int j = 0; j < second_dim; j++)
+        for (da_int i = 0; i < first_dim; i++)
+            if (D[i + j * ldd] > (T)1.0)
+                D[i + j * ldd] = (T)1.0;
+}
+
 /*
 RBF kernel
 Given an m by k matrix X and an n by k matrix Y, computes the m by n kernel matrix D
@@ -615,6 +626,7 @@ void rbf_kernel_internal(da_order order, da_int m, da_int n, da_int k, const T *
                         static_cast<T *>(nullptr), 0, true, false);
                     exp_kernel_func(n_in, m_in, D + D_block_offset, ldd, multiplier,
                                     Y_norms + Y_norm_offset, X_norms + X_norm_offset);
+                    clamp_rbf(n_in, m_in, D + D_block_offset, ldd);
                 }
             }
         } else {
@@ -644,6 +656,7 @@ void rbf_kernel_internal(da_order order, da_int m, da_int n, da_int k, const T *
                         static_cast<T *>(nullptr), 0, true, false);
                     exp_kernel_func(m_in, n_in, D + D_block_offset, ldd, multiplier,
                                     X_norms + X_norm_offset, Y_norms + Y_norm_offset);
+                    clamp_rbf(m_in, n_in, D + D_block_offset, ldd);
                 }
             }
         }
@@ -653,8 +666,10 @@ void rbf_kernel_internal(da_order order, da_int m, da_int n, da_int k, const T *
                                       static_cast<T *>(nullptr), 0, true, X_is_Y);
         if (order == row_major) {
             exp_kernel_func(n, m, D, ldd, multiplier, Y_norms, X_norms);
+            clamp_rbf(n, m, D, ldd);
         } else {
             exp_kernel_func(m, n, D, ldd, multiplier, X_norms, Y_norms);
+            clamp_rbf(m, n, D, ldd);
         }
     }
     // If X==Y then result of euclidean_gemm_distance() is upper triangular matrix D.
-- 
2.43.0


From f90508696d0f5d99a7da13d0c4f4ac062b326c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 008/116] fix: radius classifier used the manual outlier label
 itself as the column of the probabilities

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 5f7226a..c4b90db 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1366,7 +1366,7 @@ da_status neighbors<T>::predict_proba_compute_rnn(da_int n_queries, da_int n_fea
                         da_std::fill(proba + j_local, proba + j_local + num_classes, 0.0);
                         // If the manually set outlier label is present in the training labels, set its probability to 1.0
                         if (this->manual_label_index != -1) {
-                            proba[classes[this->manual_label_index] + j_local] = 1.0;
+                            proba[this->manual_label_index + j_local] = 1.0;
                         }
                     } else if (this->outlier_handling ==
                                da_neighbors_types::nn_outlier_handling::most_frequent) {
@@ -1418,7 +1418,7 @@ da_status neighbors<T>::predict_proba_compute_rnn(da_int n_queries, da_int n_fea
                         da_std::fill(proba + j_local, proba + j_local + num_classes, 0.0);
                         // If the manually set outlier label is present in the training labels, set its probability to 1.0
                         if (this->manual_label_index != -1) {
-                            proba[classes[this->manual_label_index] + j_local] = 1.0;
+                            proba[this->manual_label_index + j_local] = 1.0;
                         }
                     } else if (this->outlier_handling ==
                                da_neighbors_types::nn_outlier_handling::most_frequent) {
-- 
2.43.0


From 707c44b46ed00db5e6eef07296db140c7d185671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 009/116] fix: radius regressor ignored the last query when
 sizing the buffer of targets

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index c4b90db..8894940 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1812,7 +1812,7 @@ neighbors<T>::predict_targets_rnn(da_int n_queries, da_int n_features, const T *
             // The size of the maximum number of neighbors for any query
             da_int max_n_neighbors = 0;
             max_n_neighbors = *std::max_element(temp_radius_neighbors_count.begin(),
-                                                temp_radius_neighbors_count.end() - 1);
+                                                temp_radius_neighbors_count.end());
             // Compute the predicted targets.
             // Depending on the indices of the neighbors, for each test data point return the
             // target of each of the neighbors.
-- 
2.43.0


From ffc171d8e4632aeacc4c0b854929a682c810ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 010/116] fix: radius neighbor counts were read out of bounds
 for a result array larger than needed

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 8894940..33087ae 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -219,7 +219,7 @@ da_status neighbors<T>::get_result(da_result query, da_int *dim, da_int *result)
                            "least size: " +
                                std::to_string(n_queries + 1) + ".");
         }
-        return neighbors<T>::radius_neighbors_count_internal(n_count, result);
+        return neighbors<T>::radius_neighbors_count_internal(n_queries + 1, result);
         break;
     }
     case da_result::da_nn_radius_neighbors_offsets: {
-- 
2.43.0


From c0c6a4f6553ad823c2d873ccb9d5180ff567cc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 011/116] fix: nearest neighbors leaked the copy of row-major
 queries when a call was refused

---
 .../nearest_neighbors/nearest_neighbors.cpp   | 45 +++++++------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 33087ae..464583a 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -61,7 +61,8 @@ using namespace da_model_persistence;
 template <typename T>
 da_status validate_and_store_X_test(neighbors<T> *self, da_int n_queries,
                                     da_int n_features, const T *X_test, da_int ldx_test,
-                                    T **utility_ptr1, const T **X_test_temp,
+                                    std::unique_ptr<T[]> &utility_ptr1,
+                                    const T **X_test_temp,
                                     da_int &ldx_test_temp, da_errors::da_error_t *err,
                                     da_int n_features_train) {
 
@@ -92,14 +93,14 @@ da_status validate_and_store_X_test(neighbors<T> *self, da_int n_queries,
         ldx_test_temp = ldx_test;
     } else {
         try {
-            *utility_ptr1 = new T[n_queries * n_features];
+            utility_ptr1 = std::make_unique<T[]>(n_queries * n_features);
         } catch (std::bad_alloc const &) {
             return da_error_bypass(err, da_status_memory_error,
                                    "Memory allocation failed.");
         }
         ARCH::da_utils::copy_transpose_2D_array_row_to_column_major(
-            n_queries, n_features, X_test, ldx_test, *utility_ptr1, n_queries);
-        *const_cast<T **>(X_test_temp) = *utility_ptr1;
+            n_queries, n_features, X_test, ldx_test, utility_ptr1.get(), n_queries);
+        *X_test_temp = utility_ptr1.get();
         ldx_test_temp = n_queries;
     }
     return status;
@@ -958,10 +959,10 @@ da_status neighbors<T>::kneighbors(da_int n_queries, da_int n_features, const T
     }
 
     const T *X_test_temp = nullptr;
-    T *utility_ptr1 = nullptr;
+    std::unique_ptr<T[]> utility_ptr1;
     da_int ldx_test_temp = ldx_test;
     status = validate_and_store_X_test(this, n_queries, n_features, X_test, ldx_test,
-                                       &utility_ptr1, &X_test_temp, ldx_test_temp,
+                                       utility_ptr1, &X_test_temp, ldx_test_temp,
                                        this->err, this->n_features);
     if (status != da_status_success)
         return status;
@@ -1007,8 +1008,6 @@ da_status neighbors<T>::kneighbors(da_int n_queries, da_int n_features, const T
         if (return_distance) {
             da_blas::imatcopy('T', n_neigh, n_queries, 1.0, n_dist, n_neigh, n_queries);
         }
-    } else {
-        delete[] (utility_ptr1);
     }
 
     return status;
@@ -1108,7 +1107,7 @@ da_status neighbors<T>::predict_proba(da_int n_queries, da_int n_features,
                                "da_nn_set_labels_s or da_nn_set_labels_d.");
 
     const T *X_test_temp = nullptr;
-    T *utility_ptr1 = nullptr;
+    std::unique_ptr<T[]> utility_ptr1;
     da_int ldx_test_temp = ldx_test;
 
     // Check if the parameters are updated and if so, throw an error.
@@ -1130,7 +1129,7 @@ da_status neighbors<T>::predict_proba(da_int n_queries, da_int n_features,
                         "Number of features must be greater than zero.");
 
     status = validate_and_store_X_test(this, n_queries, n_features, X_test, ldx_test,
-                                       &utility_ptr1, &X_test_temp, ldx_test_temp,
+                                       utility_ptr1, &X_test_temp, ldx_test_temp,
                                        this->err, this->n_features);
     if (status != da_status_success)
         return status;
@@ -1150,8 +1149,6 @@ da_status neighbors<T>::predict_proba(da_int n_queries, da_int n_features,
 
     if (this->order == column_major) {
         da_blas::imatcopy('T', n_classes, n_queries, 1.0, proba, n_classes, n_queries);
-    } else {
-        delete[] (utility_ptr1);
     }
 
     return status;
@@ -1519,10 +1516,10 @@ da_status neighbors<T>::predict(da_int n_queries, da_int n_features, const T *X_
     }
 
     const T *X_test_temp = nullptr;
-    T *utility_ptr1 = nullptr;
+    std::unique_ptr<T[]> utility_ptr1;
     da_int ldx_test_temp = ldx_test;
     status = validate_and_store_X_test(this, n_queries, n_features, X_test, ldx_test,
-                                       &utility_ptr1, &X_test_temp, ldx_test_temp,
+                                       utility_ptr1, &X_test_temp, ldx_test_temp,
                                        this->err, this->n_features);
     if (status != da_status_success)
         return status;
@@ -1595,10 +1592,6 @@ da_status neighbors<T>::predict(da_int n_queries, da_int n_features, const T *X_
         }
     }
 
-    if (this->order == row_major) {
-        delete[] (utility_ptr1);
-    }
-
     return status;
 }
 
@@ -1639,11 +1632,11 @@ da_status neighbors<T>::predict(da_int n_queries, da_int n_features, const T *X_
     }
 
     const T *X_test_temp = nullptr;
-    T *utility_ptr1 = nullptr;
+    std::unique_ptr<T[]> utility_ptr1;
     da_int ldx_test_temp = ldx_test;
 
     status = validate_and_store_X_test(this, n_queries, n_features, X_test, ldx_test,
-                                       &utility_ptr1, &X_test_temp, ldx_test_temp,
+                                       utility_ptr1, &X_test_temp, ldx_test_temp,
                                        this->err, this->n_features);
     if (status != da_status_success)
         return status;
@@ -1660,10 +1653,6 @@ da_status neighbors<T>::predict(da_int n_queries, da_int n_features, const T *X_
                             "Unknown search mode: " + std::to_string(search_mode) + ".");
     }
 
-    if (this->order == row_major) {
-        delete[] (utility_ptr1);
-    }
-
     return status;
 }
 
@@ -1946,10 +1935,10 @@ da_status neighbors<T>::radius_neighbors(da_int n_queries, da_int n_features,
                         "training vectors by inner product.");
 
     const T *X_test_temp = nullptr;
-    T *utility_ptr1 = nullptr;
+    std::unique_ptr<T[]> utility_ptr1;
     da_int ldx_test_temp = ldx_test;
     status = validate_and_store_X_test(this, n_queries, n_features, X_test, ldx_test,
-                                       &utility_ptr1, &X_test_temp, ldx_test_temp,
+                                       utility_ptr1, &X_test_temp, ldx_test_temp,
                                        this->err, this->n_features);
     if (status != da_status_success)
         return status;
@@ -1969,10 +1958,6 @@ da_status neighbors<T>::radius_neighbors(da_int n_queries, da_int n_features,
         this->radius_neighbors_count, this->radius_neighbors_indices,
         this->radius_neighbors_distances, return_distance, sort_results, false);
 
-    if (this->order == row_major) {
-        delete[] (utility_ptr1);
-    }
-
     return status;
 }
 
-- 
2.43.0


From 2f1ecd620ace52edb12de86cfa5e6ecf900e15ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 012/116] fix: a refused radius neighbors call changed how
 earlier results are returned

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 464583a..abad8a6 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1912,9 +1912,6 @@ da_status neighbors<T>::radius_neighbors(da_int n_queries, da_int n_features,
         return da_error_bypass(this->err, da_status_invalid_input,
                                "Cannot sort results if distances are not returned.");
 
-    this->sort_results = sort_results;
-    this->rnn_return_distances = return_distance;
-
     // Return if set_data() has not been called
     if (!istrained_Xtrain)
         return da_error_bypass(this->err, da_status_no_data,
@@ -1953,6 +1950,9 @@ da_status neighbors<T>::radius_neighbors(da_int n_queries, da_int n_features,
         r = this->radius;
     }
 
+    this->sort_results = sort_results;
+    this->rnn_return_distances = return_distance;
+
     status = neighbors<T>::radius_neighbors_compute(
         n_queries, n_features, X_test_temp, ldx_test_temp, r,
         this->radius_neighbors_count, this->radius_neighbors_indices,
-- 
2.43.0


From 261819a29368be058ffff9977defc52251d83f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 013/116] fix: nearest neighbors transposed the outputs of
 computations that failed

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index abad8a6..f662810 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -995,7 +995,7 @@ da_status neighbors<T>::kneighbors(da_int n_queries, da_int n_features, const T
                                               ldx_test_temp, n_ind, n_dist, n_neigh,
                                               return_distance);
 
-    if (this->order == column_major) {
+    if (this->order == column_major && status == da_status_success) {
 // If da_int is 64 bit, cast to double
 #if defined(AOCLDA_ILP64)
         da_blas::imatcopy('T', n_neigh, n_queries, 1.0, reinterpret_cast<double *>(n_ind),
@@ -1147,7 +1147,8 @@ da_status neighbors<T>::predict_proba(da_int n_queries, da_int n_features,
                             "Unknown search mode: " + std::to_string(search_mode) + ".");
     }
 
-    if (this->order == column_major) {
+    if (this->order == column_major &&
+        (status == da_status_success || status == da_status_outlier_warning)) {
         da_blas::imatcopy('T', n_classes, n_queries, 1.0, proba, n_classes, n_queries);
     }
 
-- 
2.43.0


From 91b0c5707c15cfce9d5ece8860fd0b90b0001918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 014/116] fix: nearest neighbors kept the classes and outlier
 values of previously set labels and targets

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index f662810..5b645a8 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -536,6 +536,10 @@ da_status neighbors<T>::set_labels(da_int n_samples, const da_int *y_train_class
     // Set internal pointer to user data
     this->y_train_class = y_train_class;
     this->istrained_labels = true;
+    // Anything derived from previously set labels is out of date
+    this->classes_computed = false;
+    this->most_frequent_label_computed = false;
+    this->manual_outlier_label_checked = false;
     return da_status_success;
 }
 
@@ -561,6 +565,8 @@ da_status neighbors<T>::set_targets(da_int n_samples, const T *y_train_reg) {
     // Set internal pointer to user data
     this->y_train_reg = y_train_reg;
     this->istrained_targets = true;
+    // Anything derived from previously set targets is out of date
+    this->mean_target_computed = false;
     return da_status_success;
 }
 
-- 
2.43.0


From bed05595b371ec41165cb70ebcd3ad9995f0673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 015/116] fix: nearest neighbors freed the training data before
 the replacement was accepted

---
 .../nearest_neighbors/nearest_neighbors.cpp   | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 5b645a8..a473e46 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -478,18 +478,23 @@ da_status neighbors<T>::set_data(da_int n_samples, da_int n_features, const T *X
                                    std::to_string(this->n_samples) + ".");
     }
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    if (X_train_temp) {
-        delete[] (X_train_temp);
-        X_train_temp = nullptr;
-    }
-
+    T *new_X_train_temp = nullptr;
+    const T *new_X_train = nullptr;
+    da_int new_ldx_train = 0;
     da_status status = this->store_2D_array(
-        n_samples, n_features, X_train, ldx_train, &X_train_temp, &this->X_train,
-        this->ldx_train, "n_samples", "n_features", "X_train", "ldx_train");
+        n_samples, n_features, X_train, ldx_train, &new_X_train_temp, &new_X_train,
+        new_ldx_train, "n_samples", "n_features", "X_train", "ldx_train");
     if (status != da_status_success)
         return status;
 
+    // Guard against errors due to multiple calls using the same class instantiation
+    if (X_train_temp)
+        delete[] (X_train_temp);
+    X_train_temp = new_X_train_temp;
+    this->X_train = new_X_train;
+    this->ldx_train = new_ldx_train;
+    this->istrained_Xtrain = false;
+
     // Set internal parameters
     this->n_samples = n_samples;
     this->n_features = n_features;
-- 
2.43.0


From e095ecf3cd0f50239f495be6ef64c6a1aabdf6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 016/116] fix: nearest neighbors kept taking square roots after
 the metric was changed

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index a473e46..38034f6 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -313,6 +313,7 @@ template <typename T> da_status neighbors<T>::set_params() {
         return da_error_bypass(this->err, da_status_internal_error, // LCOV_EXCL_LINE
                                "Unexpected error while reading the optional parameters.");
     internal_metric = da_metric(metric);
+    this->get_squares = false;
 
     working_algo = algo;
     // If auto is chosen, calculate the correct algorithm depending on the other options
-- 
2.43.0


From e361c7783797f3da5473ce7b44ec5203e50815cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 017/116] fix: nearest neighbors ignored options set after the
 training data

---
 .../nearest_neighbors/nearest_neighbors.cpp   | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 38034f6..c059932 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -406,6 +406,8 @@ template <typename T> da_status neighbors<T>::check_options_update() {
     T local_p;
     opt_pass &= this->opts.get("algorithm", opt_val, local_algo) == da_status_success;
     opt_pass &= this->opts.get("radius", radius) == da_status_success;
+    opt_pass &= this->opts.get("number of neighbors", n_neighbors) == da_status_success;
+    opt_pass &= this->opts.get("weights", opt_val, weights) == da_status_success;
     opt_pass &= this->opts.get("outlier handling", opt_val, outlier_handling) ==
                 da_status_success;
     if (outlier_handling == da_neighbors_types::nn_outlier_handling::manual) {
@@ -448,21 +450,20 @@ template <typename T> da_status neighbors<T>::check_options_update() {
                 this->err, da_status_option_locked,
                 "Options need to be set before calling set_training_data().");
         }
-        if (local_algo == da_neighbors_types::nn_algorithm::automatic) {
-            opt_pass &=
-                this->opts.get("metric", opt_val, local_metric) == da_status_success;
-            opt_pass &=
-                this->opts.get("minkowski parameter", local_p) == da_status_success;
-            if (!opt_pass)
-                return da_error_bypass(
-                    this->err, da_status_internal_error, // LCOV_EXCL_LINE
-                    "Unexpected error while reading the optional parameters.");
-            if (this->metric != local_metric || this->p != local_p) {
-                return da_error_bypass(
-                    this->err, da_status_option_locked,
-                    "Options need to be set before calling set_training_data().");
-            }
+        opt_pass &= this->opts.get("metric", opt_val, local_metric) == da_status_success;
+        opt_pass &= this->opts.get("minkowski parameter", local_p) == da_status_success;
+        if (!opt_pass)
+            return da_error_bypass(
+                this->err, da_status_internal_error, // LCOV_EXCL_LINE
+                "Unexpected error while reading the optional parameters.");
+        if (this->metric != local_metric || this->p != local_p) {
+            return da_error_bypass(
+                this->err, da_status_option_locked,
+                "Options need to be set before calling set_training_data().");
         }
+    } else if (!this->is_up_to_date) {
+        // The brute force algorithm does not prepare anything from the training data
+        return this->set_params();
     }
     return da_status_success;
 }
-- 
2.43.0


From 26918215d844c8ddbcd659eccb16d488b542e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 018/116] fix: the nearest neighbors classifier reported locked
 options where no data had been set

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index c059932..ae4343c 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1502,11 +1502,6 @@ da_status neighbors<T>::predict(da_int n_queries, da_int n_features, const T *X_
                                 da_nn_search_mode search_mode) {
     da_status status = da_status_success;
 
-    // Check if the parameters are updated and if so, throw an error.
-    status = this->check_options_update();
-    if (status != da_status_success)
-        return status;
-
     // Return if set_data() has not been called
     if (!istrained_Xtrain)
         return da_error_bypass(this->err, da_status_no_data,
@@ -1518,6 +1513,11 @@ da_status neighbors<T>::predict(da_int n_queries, da_int n_features, const T *X_
                                "No classification labels have been set. Please call "
                                "da_nn_set_labels_s or da_nn_set_labels_d.");
 
+    // Check if the parameters are updated and if so, throw an error.
+    status = this->check_options_update();
+    if (status != da_status_success)
+        return status;
+
     if (y_test == nullptr)
         return da_error_bypass(this->err, da_status_invalid_pointer,
                                "y_test is not a valid pointer.");
-- 
2.43.0


From de1d75e2735291c949b4a26ca616b58bfcd505d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 019/116] fix: nearest neighbors predictions accepted more
 neighbors than training samples

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index ae4343c..7213fa2 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1187,6 +1187,11 @@ da_status neighbors<T>::predict_proba_compute_knn(da_int n_queries, da_int n_fea
                         "The inner product metric is not compatible with "
                         "weights=\"distance\". Use weights=\"uniform\" instead.");
 
+    if (this->n_neighbors > this->n_samples)
+        return da_error(this->err, da_status_invalid_input,
+                        "The option number of neighbors must not exceed the number of "
+                        "training samples.");
+
     if (!this->classes_computed) {
         // From the input data y_train, find the available classes.
         status = neighbors<T>::available_classes();
@@ -1689,6 +1694,11 @@ neighbors<T>::predict_targets_knn(da_int n_queries, da_int n_features, const T *
                         "The inner product metric is not compatible with "
                         "weights=\"distance\". Use weights=\"uniform\" instead.");
 
+    if (this->n_neighbors > this->n_samples)
+        return da_error(this->err, da_status_invalid_input,
+                        "The option number of neighbors must not exceed the number of "
+                        "training samples.");
+
     // Allocate memory to set neighbors' indices and corresponding distances.
     // If n_ind and n_dist were returned in row order, then we need to transpose them
     try {
-- 
2.43.0


From e54bb57350a75c86d21617c14a42b92d8789a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 020/116] fix: da_nn_classes read out of bounds when more
 classes were requested than exist

---
 .../nearest_neighbors/nearest_neighbors_public.hpp     | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors_public.hpp b/source/core/nearest_neighbors/nearest_neighbors_public.hpp
index d57e66d..a01e3de 100644
--- a/source/core/nearest_neighbors/nearest_neighbors_public.hpp
+++ b/source/core/nearest_neighbors/nearest_neighbors_public.hpp
@@ -84,6 +84,9 @@ da_status nn_classes(da_handle handle, da_int *n_classes, da_int *classes) {
                         "handle was not initialized with handle_type=da_handle_nn or "
                         "handle is invalid.");
     da_status status = da_status_success;
+    if (n_classes == nullptr)
+        return da_error_bypass(handle->err, da_status_invalid_pointer,
+                               "n_classes is not a valid pointer.");
     if (*n_classes <= 0) { // Querying number of classes to allocate memory
         status = nn->available_classes();
         if (status == da_status_success)
@@ -92,6 +95,13 @@ da_status nn_classes(da_handle handle, da_int *n_classes, da_int *classes) {
         if (classes == nullptr)
             return da_error_bypass(handle->err, da_status_invalid_pointer,
                                    "classes is not a valid pointer.");
+        status = nn->available_classes();
+        if (status != da_status_success)
+            return status;
+        if (*n_classes > da_int(nn->classes.size()))
+            return da_error_bypass(handle->err, da_status_invalid_input,
+                                   "n_classes is larger than the number of classes (" +
+                                       std::to_string(nn->classes.size()) + ").");
         for (da_int i = 0; i < *n_classes; i++)
             classes[i] = nn->classes[i];
     }
-- 
2.43.0


From b2bb5ec6f50c7db88a2e444b41545d54d6262e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 021/116] fix: tree searches read norms out of bounds when
 there are more queries than training samples

---
 source/core/nearest_neighbors/binary_tree.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/core/nearest_neighbors/binary_tree.cpp b/source/core/nearest_neighbors/binary_tree.cpp
index 3edeaf1..038346d 100644
--- a/source/core/nearest_neighbors/binary_tree.cpp
+++ b/source/core/nearest_neighbors/binary_tree.cpp
@@ -351,9 +351,9 @@ da_status binary_tree<Derived, NodeType>::k_neighbors(da_int m_samples_in,
 
             T X_norm = 0.0;
             if (this->metric == da_euclidean_gemm) {
-                X_norm = this->A_norms[i];
-                if (!(X_is_A)) {
-                    X_norm = 0.0;
+                if (X_is_A) {
+                    X_norm = this->A_norms[i];
+                } else {
                     for (da_int j = 0; j < this->n_features; j++) {
                         X_norm += X[i + j * ldx] * X[i + j * ldx];
                     }
@@ -456,9 +456,9 @@ da_status binary_tree<Derived, NodeType>::radius_neighbors_loop(
 
             T X_norm = 0.0;
             if (this->metric == da_euclidean_gemm) {
-                X_norm = this->A_norms[i];
-                if (!(X_is_A)) {
-                    X_norm = 0.0;
+                if (X_is_A) {
+                    X_norm = this->A_norms[i];
+                } else {
                     for (da_int j = 0; j < this->n_features; j++) {
                         X_norm += X[i + j * ldx] * X[i + j * ldx];
                     }
-- 
2.43.0


From 4693c04e30135a9d060c4bece6e4f759bc9e8d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 022/116] fix: gemm-based distances in tree searches could be
 NaN through cancellation

---
 source/core/nearest_neighbors/binary_tree.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/nearest_neighbors/binary_tree.cpp b/source/core/nearest_neighbors/binary_tree.cpp
index 038346d..d843656 100644
--- a/source/core/nearest_neighbors/binary_tree.cpp
+++ b/source/core/nearest_neighbors/binary_tree.cpp
@@ -207,7 +207,8 @@ da_status binary_tree<Derived, NodeType>::compute_distance(T &dist, da_int index
         for (da_int i = 0; i < this->n_features; i++) {
             dist += X[i] * this->A[index_A + i * this->lda];
         }
-        dist = X_norm + this->A_norms[index_A] - 2 * dist;
+        // Cancellation can produce small negative values, which are not squared distances
+        dist = std::max(X_norm + this->A_norms[index_A] - 2 * dist, (T)0.0);
     } else {
         // Compute the distance matrix using the specified metric
         da_status status = ARCH::da_metrics::pairwise_distances::pairwise_distance_kernel(
-- 
2.43.0


From 3bd9fe9166e72d8207031fd4ac7d56dd8a34f4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:23 +0000
Subject: [PATCH 023/116] fix: histogram trees partitioned with the leading
 dimension of X instead of that of the bins

---
 .../decision_forest/tree/decision_tree_training_partition.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_partition.hpp b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
index 6a3f8ff..d829d37 100644
--- a/source/core/decision_forest/tree/decision_tree_training_partition.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
@@ -96,7 +96,7 @@ da_int decision_tree<T>::partition_samples_hist_ordered(const node<T> &nd) {
     da_int head_idx = nd.start_idx;
     da_int tail_idx = nd.end_idx;
     uint16_t cat_thresh = nd.category;
-    da_int col_idx = ldx * nd.feature;
+    da_int col_idx = n_samples * nd.feature;
     while (head_idx < tail_idx) {
         da_int head = samples_idx[head_idx];
         da_int tail = samples_idx[tail_idx];
@@ -120,7 +120,7 @@ da_int decision_tree<T>::partition_samples_hist_onevall(const node<T> &nd) {
     da_int head_idx = nd.start_idx;
     da_int tail_idx = nd.end_idx;
     uint16_t cat_thresh = nd.category;
-    da_int col_idx = ldx * nd.feature;
+    da_int col_idx = n_samples * nd.feature;
     while (head_idx < tail_idx) {
         da_int head = samples_idx[head_idx];
         da_int tail = samples_idx[tail_idx];
-- 
2.43.0


From b376c2d3138813b27429b13776328ad1023d0dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:23 +0000
Subject: [PATCH 024/116] fix: tree training and prediction could route samples
 differently when the split mid-point is rounded

---
 .../tree/decision_tree_training_partition.hpp            | 4 ++--
 .../tree/decision_tree_training_split.hpp                | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_partition.hpp b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
index d829d37..0f6aa47 100644
--- a/source/core/decision_forest/tree/decision_tree_training_partition.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
@@ -56,9 +56,9 @@ da_int decision_tree<T>::partition_samples_raw_continuous(const node<T> &nd) {
         da_int t_sidx = samples_idx[tail_idx];
         T head_val = X[start_col + h_sidx];
         T tail_val = X[start_col + t_sidx];
-        if (head_val <= nd.x_threshold)
+        if (head_val < nd.x_threshold)
             head_idx += 1;
-        else if (tail_val > nd.x_threshold)
+        else if (tail_val >= nd.x_threshold)
             tail_idx -= 1;
         else {
             std::swap(samples_idx[head_idx], samples_idx[tail_idx]);
diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index aa49997..d70608f 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -395,8 +395,13 @@ void decision_tree<T>::split_raw_continuous(const node<T> &current_node, split<T
                               (current_node.score - split_score);
         if (split_score < sp.score && split_improvement > min_improvement) {
             sp.score = split_score;
-            sp.threshold =
-                (ws.feature_values[next_idx] + ws.feature_values[next_idx + 1]) / 2;
+            // The left child takes the values strictly below the threshold: the mid-point
+            // may be rounded to the lower value (or overflow)
+            T low_val = ws.feature_values[next_idx];
+            T high_val = ws.feature_values[next_idx + 1];
+            sp.threshold = (low_val + high_val) / 2;
+            if (!(sp.threshold > low_val && sp.threshold <= high_val))
+                sp.threshold = high_val;
             sp.right_score = right_score;
             sp.left_score = left_score;
             sp.prop = continuous;
-- 
2.43.0


From b4323759898641c411a80a9efc10d9413c47b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:23 +0000
Subject: [PATCH 025/116] fix: tree split search counted tied samples several
 times below the minimum node size

---
 .../core/decision_forest/tree/decision_tree_training_split.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index d70608f..08bff69 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -383,7 +383,8 @@ void decision_tree<T>::split_raw_continuous(const node<T> &current_node, split<T
                             ns_left, ns_right, left_score, right_score, split_score,
                             ws.feature_values, ws, samp);
         if (ns_left < min_node_sample) {
-            ++sidx;
+            // The samples up to next_idx are already counted in the left node
+            sidx = next_idx + 1;
             continue;
         }
         if (ns_right < min_node_sample)
-- 
2.43.0


From f1b7db0d952d48f8499a29e03b59470d57315ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:23 +0000
Subject: [PATCH 026/116] fix: tree feature threshold: equal values were
 separated at 0 and a fixed 1e-5 overrode smaller thresholds

---
 .../decision_forest/tree/decision_tree_training_split.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index 08bff69..7914d7b 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -108,7 +108,8 @@ bool decision_tree<T>::update_split_sorted(da_int sidx, da_int &next_idx, da_int
     bool end_split_search = false;
     next_idx = sidx;
     while (next_idx + 1 <= end_idx &&
-           std::abs(fv[next_idx + 1] - fv[sidx]) < feat_thresh) {
+           (fv[next_idx + 1] == fv[sidx] ||
+            std::abs(fv[next_idx + 1] - fv[sidx]) < feat_thresh)) {
         next_idx++;
     }
     if (next_idx >= end_idx)
@@ -429,8 +430,9 @@ bool decision_tree<T>::compute_best_split_raw(const node<T> &nd, da_int feat_idx
                                    (da_int)(2 * std::log2(node_obs) + 2));
         }
 
-        if (std::abs(ws.feature_values[nd.start_idx] - ws.feature_values[nd.end_idx]) <
-            (T)1.0e-05)
+        T low_val = ws.feature_values[nd.start_idx];
+        T high_val = ws.feature_values[nd.end_idx];
+        if (low_val == high_val || std::abs(low_val - high_val) < feat_thresh)
             // feature is constant, mark to skip it
             return true;
         sp.feat_idx = feat_idx;
-- 
2.43.0


From 21d52f99e8c6a4b629e58b82a9a8ee0ffd30b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:23 +0000
Subject: [PATCH 027/116] fix: one-vs-all categorical splits ignored the
 bootstrap weights

---
 .../core/decision_forest/tree/decision_tree_training_split.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index 7914d7b..e4d3ad8 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -328,7 +328,8 @@ void decision_tree<T>::split_raw_onevall(const node<T> &current_node, da_int fea
         da_int idx = samp[i];
         da_int c = y[idx];
         da_int cat = std::round(ws.feature_values[i]);
-        ws.cat_feat_table[cat * n_class + c]++;
+        ws.cat_feat_table[cat * n_class + c] +=
+            bootstrap ? bootstrap_sample_frequency[idx] : 1;
     }
 
     for (da_int cat = 0; cat < cat_feat[feat_idx]; cat++) {
-- 
2.43.0


From 8dcce0709f1a62569fa680667a324ec74795ddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:23 +0000
Subject: [PATCH 028/116] fix: one-vs-all histogram splits skipped categories
 smaller than previous ones

---
 .../tree/decision_tree_training_split.hpp        | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index e4d3ad8..167adcb 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -278,11 +278,19 @@ bool decision_tree<T>::compute_best_split_hist(const node<T> &nd, da_int feat_id
         else
             split_hist_ordered(nd, ns_left, ns_right, cat_start_idx, ws);
 
-        if (ns_left < min_node_sample || ns_left <= old_ns_left)
+        if (ns_left < min_node_sample)
             continue;
-        if (ns_right < min_node_sample)
-            break;
-        old_ns_left = ns_left;
+        if (prop == categorical_onevall) {
+            // The sizes of the left nodes are not ordered
+            if (ns_right < min_node_sample)
+                continue;
+        } else {
+            if (ns_left <= old_ns_left)
+                continue;
+            if (ns_right < min_node_sample)
+                break;
+            old_ns_left = ns_left;
+        }
 
         T left_score = score_function(ns_left, n_class, ws.count_left_classes);
         T right_score = score_function(ns_right, n_class, ws.count_right_classes);
-- 
2.43.0


From ec0b362d898da1460a2744c899b08d31d234a176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:14 +0000
Subject: [PATCH 029/116] fix: tree predict_proba compared categories with a
 threshold, leaked its copy of X_test on invalid y_proba

---
 .../tree/decision_tree_inference.hpp          | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index b5935b0..0d92f11 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -100,8 +100,8 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
                                           da_int ldy, da_int mode) {
 
     const T *X_test_temp;
-    T *utility_ptr1;
-    T *utility_ptr2;
+    T *utility_ptr1 = nullptr;
+    T *utility_ptr2 = nullptr;
     da_int ldx_test_temp;
     T *y_proba_pred_temp;
     da_int ldy_proba_pred_temp;
@@ -142,8 +142,11 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
                                   const_cast<const T **>(&y_proba_pred_temp),
                                   ldy_proba_pred_temp, "n_samples", "n_class", "y_proba",
                                   "ldy", mode_output);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        if (utility_ptr1)
+            delete[] (utility_ptr1);
         return status;
+    }
 
     // Fill y_proba_pred with the values of all the requested samples
     node<T> *current_node;
@@ -152,13 +155,15 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
         da_int current_node_idx = 0;
         while (!current_node->is_leaf) {
             T feat_val = X_test_temp[ldx_test_temp * current_node->feature + i];
-            if (feat_val < current_node->x_threshold) {
-                current_node_idx = current_node->left_child_idx;
-                current_node = &tree[current_node_idx];
-            } else {
-                current_node_idx = current_node->right_child_idx;
-                current_node = &tree[current_node_idx];
-            }
+            bool go_left;
+            if (current_node->prop == continuous ||
+                current_node->prop == categorical_ordered)
+                go_left = feat_val < current_node->x_threshold;
+            else
+                go_left = (da_int)std::round(feat_val) == current_node->category;
+            current_node_idx =
+                go_left ? current_node->left_child_idx : current_node->right_child_idx;
+            current_node = &tree[current_node_idx];
         }
         for (da_int j = 0; j < n_class; j++)
             y_proba_pred_temp[ldy_proba_pred_temp * j + i] =
-- 
2.43.0


From 06322103edc2190ba9cb6754f1e0c3df73d1f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:14 +0000
Subject: [PATCH 030/116] fix: tree and forest score and forest predict_proba
 leaked the copy of X_test when another argument was refused

---
 .../forest/decision_forest_inference.hpp           | 14 ++++++++++----
 .../tree/decision_tree_inference.hpp               |  5 ++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest_inference.hpp b/source/core/decision_forest/forest/decision_forest_inference.hpp
index 9deb638..570e3b2 100644
--- a/source/core/decision_forest/forest/decision_forest_inference.hpp
+++ b/source/core/decision_forest/forest/decision_forest_inference.hpp
@@ -142,8 +142,8 @@ da_status decision_forest<T>::predict_proba(da_int nsamp, da_int nfeat, const T
                                             da_int ldy) {
 
     const T *X_test_temp;
-    T *utility_ptr1;
-    T *utility_ptr2;
+    T *utility_ptr1 = nullptr;
+    T *utility_ptr2 = nullptr;
     da_int ldx_test_temp;
     T *y_proba_temp;
     da_int ldy_proba_temp;
@@ -177,8 +177,11 @@ da_status decision_forest<T>::predict_proba(da_int nsamp, da_int nfeat, const T
     status = this->store_2D_array(nsamp, nclass, y_proba, ldy, &utility_ptr2,
                                   const_cast<const T **>(&y_proba_temp), ldy_proba_temp,
                                   "n_samples", "n_class", "y_proba", "ldy", 1);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        if (utility_ptr1)
+            delete[] (utility_ptr1);
         return status;
+    }
 
     std::vector<T> sum_proba, y_proba_tree;
     da_int n_blocks, block_rem;
@@ -301,8 +304,11 @@ da_status decision_forest<T>::score(da_int nsamp, da_int nfeat, const T *X_test,
         return status;
 
     status = this->check_1D_array(nsamp, y_test, "n_samples", "y_test", 1);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        if (utility_ptr1)
+            delete[] (utility_ptr1);
         return status;
+    }
 
     if (this->opts.get("block size", block_size) != da_status_success)
         return da_error_trace( // LCOV_EXCL_LINE
diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index 0d92f11..618b8ea 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -241,8 +241,11 @@ da_status decision_tree<T>::score(da_int nsamp, da_int nfeat, const T *X_test,
         return status;
 
     status = this->check_1D_array(nsamp, y_test, "n_samples", "y_test", 1);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        if (utility_ptr1)
+            delete[] (utility_ptr1);
         return status;
+    }
 
     node<T> *current_node;
     *accuracy = 0.;
-- 
2.43.0


From a6a3023b55981fcac69eb7e83db48a6ebf514e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:14 +0000
Subject: [PATCH 031/116] fix: predict_log_proba of forests ignored refused
 arguments; the number of classes was not checked

---
 .../decision_forest/forest/decision_forest_inference.hpp     | 5 ++++-
 source/core/decision_forest/tree/decision_tree_inference.hpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest_inference.hpp b/source/core/decision_forest/forest/decision_forest_inference.hpp
index 570e3b2..10f459e 100644
--- a/source/core/decision_forest/forest/decision_forest_inference.hpp
+++ b/source/core/decision_forest/forest/decision_forest_inference.hpp
@@ -252,7 +252,10 @@ da_status decision_forest<T>::predict_log_proba(da_int nsamp, da_int nfeat,
                                                 T *y_log_proba, da_int nclass,
                                                 da_int ldy) {
 
-    predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, n_class, ldy);
+    da_status status =
+        predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, nclass, ldy);
+    if (status != da_status_success)
+        return status;
 
     if (this->order == column_major) {
         for (da_int j = 0; j < nclass; j++) {
diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index 618b8ea..ac71fa7 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -188,7 +188,7 @@ da_status decision_tree<T>::predict_log_proba(da_int nsamp, da_int nfeat, const
                                               da_int nclass, da_int ldy) {
     da_status status = da_status_success;
 
-    status = predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, n_class, ldy);
+    status = predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, nclass, ldy);
     if (status != da_status_success)
         return status;
 
-- 
2.43.0


From 033f3e114b257357d0e1ff74d57fc54a886623ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:14 +0000
Subject: [PATCH 032/116] fix: one-vs-all histogram splits of features that are
 not encoded categories could not be followed by predictions

---
 source/core/decision_forest/common/histogram.cpp              | 4 ++++
 source/core/decision_forest/common/histogram.hpp              | 4 ++++
 .../decision_forest/tree/decision_tree_training_split.hpp     | 3 ++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/common/histogram.cpp b/source/core/decision_forest/common/histogram.cpp
index cae7a0d..c93d9ea 100644
--- a/source/core/decision_forest/common/histogram.cpp
+++ b/source/core/decision_forest/common/histogram.cpp
@@ -130,6 +130,7 @@ da_status bins<T>::compute_histograms(const T *X, da_int n_samples, da_int n_fea
         nbins.resize(n_features);
         values.resize(n_samples * n_threads);
         binned_data.resize(n_features * n_samples);
+        encoded.resize(n_features);
     } catch (std::bad_alloc &) {
         return da_status_memory_error; // LCOV_EXCL_LINE
     }
@@ -147,6 +148,7 @@ da_status bins<T>::compute_histograms(const T *X, da_int n_samples, da_int n_fea
 #pragma omp parallel for shared(X, max_bin, ldx, n_features, n_samples) default(none)
     for (da_int j = 0; j < n_features; j++) {
         da_int X_col_idx = j * ldx;
+        encoded[j] = 1;
         for (da_int i = 0; i < n_samples; i++) {
             da_int start = 0, end = nbins[j] - 1;
             while (start < end) {
@@ -158,6 +160,8 @@ da_status bins<T>::compute_histograms(const T *X, da_int n_samples, da_int n_fea
                 }
             }
             binned_data[j * n_samples + i] = start;
+            if (std::round(X[X_col_idx + i]) != (T)start)
+                encoded[j] = 0;
         }
     }
 
diff --git a/source/core/decision_forest/common/histogram.hpp b/source/core/decision_forest/common/histogram.hpp
index c500c00..3be0c54 100644
--- a/source/core/decision_forest/common/histogram.hpp
+++ b/source/core/decision_forest/common/histogram.hpp
@@ -62,6 +62,9 @@ template <typename T> class bins {
     std::vector<T> thresholds;
     std::vector<da_int> nbins;
     std::vector<uint16_t> binned_data;
+    // encoded[j]: the bin indices of feature j are its rounded values, i.e., the feature is
+    //             categorical, encoded in [0, nbins[j]-1]
+    std::vector<uint8_t> encoded;
 
   public:
     bins(da_int max_bin, da_int n_samples, da_int n_features)
@@ -76,6 +79,7 @@ template <typename T> class bins {
         thresholds.resize((this->max_bin - 1) * n_features);
         nbins.resize(n_features);
         binned_data.resize(n_samples * n_features);
+        encoded.resize(n_features);
     }
 
     void compute_thresholds(std::vector<T> &values, da_int vals_idx, da_int feat_idx,
diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index 167adcb..06cb0f7 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -262,7 +262,8 @@ bool decision_tree<T>::compute_best_split_hist(const node<T> &nd, da_int feat_id
 
     split_property prop = categorical_ordered;
     da_int n_cat = X_binned->nbins[feat_idx];
-    if (n_cat < X_binned->max_bin)
+    // One-vs-all nodes compare rounded feature values with the bin index in predictions
+    if (n_cat < X_binned->max_bin && X_binned->encoded[feat_idx])
         prop = (split_property)cat_split_strat;
 
     da_int old_ns_left = 0;
-- 
2.43.0


From 9f7a2bad55655f255d2eb9b3faf854879bae271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:14 +0000
Subject: [PATCH 033/116] fix: histogram thresholds overflowed their column
 when rounding accumulated in the quantile step

---
 source/core/decision_forest/common/histogram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/decision_forest/common/histogram.cpp b/source/core/decision_forest/common/histogram.cpp
index c93d9ea..de4dafa 100644
--- a/source/core/decision_forest/common/histogram.cpp
+++ b/source/core/decision_forest/common/histogram.cpp
@@ -54,7 +54,7 @@ void bins<T>::compute_thresholds(std::vector<T> &values, da_int vals_idx, da_int
     da_int bin_idx = 0;
     T q = q_step;
     da_int thresh_start_idx = feat_idx * (max_bin - 1);
-    while (q <= (T)1.0 - (T)0.001 * q_step) {
+    while (q <= (T)1.0 - (T)0.001 * q_step && bin_idx < max_bin - 1) {
         da_int threshold_idx = (da_int)std::round(q * n_elem) - 1;
         da_int r_idx = threshold_idx;
         // Explore the right side of the threshold for flat regions
-- 
2.43.0


From a93094fd2f7a47fa1176fd01b058cb28d65e3c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:14 +0000
Subject: [PATCH 034/116] fix: tree root ignored the minimum split score; stale
 depth after refit and no leaf counted in a single node tree

---
 .../decision_forest/tree/decision_tree_training_fit.hpp    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index 1bdabd5..aff555d 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -519,8 +519,9 @@ template <typename T> da_status decision_tree<T>::fit() {
         n_obs = samples_idx.size();
     }
 
-    // Reset number of leaves (if calling fit multiple times)
+    // Reset number of leaves and depth (if calling fit multiple times)
     n_leaves = 0;
+    this->depth = 0;
 
     // Initialize the root node
     n_nodes = 1;
@@ -546,8 +547,10 @@ template <typename T> da_status decision_tree<T>::fit() {
     }
 
     // Insert the root node in the queue if the maximum depth is big enough
-    if (max_depth > 0)
+    if (max_depth > 0 && tree[0].score > min_split_score)
         nodes_to_treat.push_back(0);
+    else
+        n_leaves = 1;
 
     if (n_threads_split > 1) {
         status = fit_parallel();
-- 
2.43.0


From 5cc0030d1a31177fcfe96090526ea884bf6749d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:14 +0000
Subject: [PATCH 035/116] fix: trees fitted in parallel depended on the timing
 of the threads when splits tie

---
 .../decision_forest/tree/decision_tree.hpp    |  1 +
 .../tree/decision_tree_training_fit.hpp       | 43 +++++++++++++------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree.hpp b/source/core/decision_forest/tree/decision_tree.hpp
index 9cda925..c17dd93 100644
--- a/source/core/decision_forest/tree/decision_tree.hpp
+++ b/source/core/decision_forest/tree/decision_tree.hpp
@@ -137,6 +137,7 @@ template <typename T> struct split_workspace {
 
     // Results
     split<T> best_split;
+    da_int best_order = -1; // position of best_split's feature in the evaluation order
     std::vector<da_int> const_feats;
 };
 
diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index aff555d..4a1552d 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -32,6 +32,7 @@
 #include "common/idx_sorting.hpp"
 #include "decision_tree.hpp"
 #include "macros.h"
+#include <algorithm>
 
 namespace ARCH {
 namespace da_decision_forest {
@@ -402,6 +403,7 @@ template <typename T> da_status decision_tree<T>::fit_parallel() {
                     ws.const_feats.push_back(feat_idx);
                 } else if (local_sp.score < ws.best_split.score) {
                     ws.best_split.copy(local_sp);
+                    ws.best_order = i;
                 }
             }
 
@@ -410,21 +412,34 @@ template <typename T> da_status decision_tree<T>::fit_parallel() {
             {
                 if (!done) {
                     node<T> &current_node = tree[node_idx];
-                    // Reduce best splits and constant features
+                    // Reduce best splits and constant features. The result must not depend
+                    // on how the features were distributed among the threads: equal scores
+                    // are resolved by the order of evaluation
+                    da_int best_order = n_selected;
+                    std::vector<da_int> &const_feats = thread_workspaces[0].const_feats;
                     for (da_int t = 0; t < n_threads_split; t++) {
-                        if (thread_workspaces[t].best_split.feat_idx != -1 &&
-                            thread_workspaces[t].best_split.score < best_split.score)
-                            best_split.copy(thread_workspaces[t].best_split);
-
-                        for (da_int cf : thread_workspaces[t].const_feats) {
-                            for (da_int j = 0; j < current_node.const_feat_idx; j++) {
-                                if (features_idx[j] == cf) {
-                                    current_node.const_feat_idx -= 1;
-                                    features_idx[j] =
-                                        features_idx[current_node.const_feat_idx];
-                                    features_idx[current_node.const_feat_idx] = cf;
-                                    break;
-                                }
+                        split_workspace<T> &ws = thread_workspaces[t];
+                        if (ws.best_split.feat_idx != -1 &&
+                            (ws.best_split.score < best_split.score ||
+                             (best_split.feat_idx != -1 &&
+                              ws.best_split.score == best_split.score &&
+                              ws.best_order < best_order))) {
+                            best_split.copy(ws.best_split);
+                            best_order = ws.best_order;
+                        }
+                        if (t > 0)
+                            const_feats.insert(const_feats.end(), ws.const_feats.begin(),
+                                               ws.const_feats.end());
+                    }
+                    std::sort(const_feats.begin(), const_feats.end());
+                    for (da_int cf : const_feats) {
+                        for (da_int j = 0; j < current_node.const_feat_idx; j++) {
+                            if (features_idx[j] == cf) {
+                                current_node.const_feat_idx -= 1;
+                                features_idx[j] =
+                                    features_idx[current_node.const_feat_idx];
+                                features_idx[current_node.const_feat_idx] = cf;
+                                break;
                             }
                         }
                     }
-- 
2.43.0


From 2903f46a4587cd95da180a6b6a0a2ece2a9e3b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:14 +0000
Subject: [PATCH 036/116] fix: forests kept the trees of previous data after
 new training data were set

---
 .../decision_forest/forest/decision_forest_handle_utilities.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
index 5ed8353..7ba96ca 100644
--- a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
+++ b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
@@ -122,6 +122,8 @@ da_status decision_forest<T>::set_training_data(da_int n_samples, da_int n_featu
     if (status != da_status_success)
         return status;
 
+    // Trees of previous data are out of date
+    this->model_trained = false;
     this->refresh();
     this->y = y;
     this->n_samples = n_samples;
-- 
2.43.0


From 5c959fb9f9a2fe90dad558a5860ec4185a3723cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:40 +0000
Subject: [PATCH 037/116] fix: features constant in one child of a tree node
 were never considered in its sibling

---
 .../tree/decision_tree_training_fit.hpp           | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index 4a1552d..b2794bf 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -174,11 +174,6 @@ da_status decision_tree<T>::split_node_and_add_children(da_int node_idx,
                                                         split<T> &best_split) {
     node<T> &current_node = tree[node_idx];
 
-    // Project back the discovered constant features to the parent
-    if (node_idx > 0 &&
-        tree[current_node.parent_idx].const_feat_idx > current_node.const_feat_idx)
-        tree[current_node.parent_idx].const_feat_idx = current_node.const_feat_idx;
-
     // Split the node and add the 2 children
     if (best_split.feat_idx != -1) {
         current_node.is_leaf = false;
@@ -241,11 +236,6 @@ template <typename T> da_status decision_tree<T>::fit_serial() {
         da_int node_idx = get_next_node_idx();
         node<T> &current_node = tree[node_idx];
 
-        // update the constant features discovered by the sibling node if necessary
-        if (node_idx > 0 &&
-            tree[current_node.parent_idx].const_feat_idx < current_node.const_feat_idx)
-            current_node.const_feat_idx = tree[current_node.parent_idx].const_feat_idx;
-
         best_split.score = current_node.score;
         best_split.feat_idx = -1;
         if (node_idx > 0) {
@@ -323,11 +313,6 @@ template <typename T> da_status decision_tree<T>::fit_parallel() {
                     node_idx = get_next_node_idx();
                     node<T> &current_node = tree[node_idx];
 
-                    if (node_idx > 0 && tree[current_node.parent_idx].const_feat_idx <
-                                            current_node.const_feat_idx)
-                        current_node.const_feat_idx =
-                            tree[current_node.parent_idx].const_feat_idx;
-
                     best_split.score = current_node.score;
                     best_split.feat_idx = -1;
                     if (node_idx > 0) {
-- 
2.43.0


From f8b9c4585fe31b0146375033b867d1e1ec4d58fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:32 +0000
Subject: [PATCH 038/116] fix: float to integer overflow in the detection and
 the prediction of categorical features

---
 .../decision_forest/tree/decision_tree_inference.hpp  | 10 +++++-----
 source/core/utilities/da_utils.cpp                    | 11 ++++++++---
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index ac71fa7..1a79202 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -79,9 +79,9 @@ da_status decision_tree<T>::predict(da_int nsamp, da_int nfeat, const T *X_test,
                 else
                     current_node = &tree[current_node->right_child_idx];
             } else {
-                da_int cat_val =
+                T cat_val =
                     std::round(X_test_temp[ldx_test_temp * current_node->feature + i]);
-                if (cat_val == current_node->category)
+                if (cat_val == (T)current_node->category)
                     current_node = &tree[current_node->left_child_idx];
                 else
                     current_node = &tree[current_node->right_child_idx];
@@ -160,7 +160,7 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
                 current_node->prop == categorical_ordered)
                 go_left = feat_val < current_node->x_threshold;
             else
-                go_left = (da_int)std::round(feat_val) == current_node->category;
+                go_left = std::round(feat_val) == (T)current_node->category;
             current_node_idx =
                 go_left ? current_node->left_child_idx : current_node->right_child_idx;
             current_node = &tree[current_node_idx];
@@ -260,9 +260,9 @@ da_status decision_tree<T>::score(da_int nsamp, da_int nfeat, const T *X_test,
                 else
                     current_node = &tree[current_node->right_child_idx];
             } else {
-                da_int cat_val =
+                T cat_val =
                     std::round(X_test_temp[ldx_test_temp * current_node->feature + i]);
-                if (cat_val == current_node->category)
+                if (cat_val == (T)current_node->category)
                     current_node = &tree[current_node->left_child_idx];
                 else
                     current_node = &tree[current_node->right_child_idx];
diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index 3b7ca18..f77368d 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -651,11 +651,16 @@ da_status check_categorical_data(da_int n_data, const T *data, da_int &n_categor
     n_categories = -1;
 
     for (da_int i = 0; i < n_data; i++) {
-        da_int val = std::round(data[i]);
-        if (std::abs((T)val - data[i]) > tol || val < 0 || val + 1 > max_categories) {
+        // Compare before converting: the values of continuous features may not be
+        // representable as integers
+        T rounded = std::round(data[i]);
+        if (!(std::abs(rounded - data[i]) <= tol) || rounded < 0 ||
+            rounded >= (T)max_categories) {
             n_categories = -1;
             break;
-        } else if (val + 1 > n_categories)
+        }
+        da_int val = (da_int)rounded;
+        if (val + 1 > n_categories)
             n_categories = val + 1;
     }
 
-- 
2.43.0


From aec036f1b969fbc434966f967f84c97f86e7474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:48 +0000
Subject: [PATCH 039/116] fix: data checks rejected finite numbers so large
 that adding one does not change them

---
 source/core/utilities/da_utils.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index f77368d..f339f29 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -37,6 +37,8 @@
 #include <algorithm>
 #include <boost/sort/spreadsort/float_sort.hpp>
 #include <cmath>
+#include <cstdint>
+#include <cstring>
 #include <map>
 #include <random>
 #include <type_traits>
@@ -175,6 +177,22 @@ void copy_transpose_2D_array_column_to_row_major(da_int n_rows, da_int n_cols, c
     }
 }
 
+/* NaNs and infinities are not valid data. Test the representation of the number: unlike
+ * std::isnan this does not depend on the compiler honouring NaNs (a pybind11 + clang 18
+ * Windows release build does not) */
+template <typename T> static inline bool is_not_finite(const T &x) {
+    using bits_t = std::conditional_t<
+        sizeof(T) == 8, std::uint64_t,
+        std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint16_t>>;
+    constexpr bits_t inf_bits = sizeof(T) == 8   ? (bits_t)0x7ff0000000000000ull
+                                : sizeof(T) == 4 ? (bits_t)0x7f800000u
+                                                 : (bits_t)0x7c00u;
+    static_assert(sizeof(bits_t) == sizeof(T), "unexpected floating point type");
+    bits_t bits;
+    std::memcpy(&bits, &x, sizeof(T));
+    return (bits & ~((bits_t)1 << (8 * sizeof(T) - 1))) >= inf_bits;
+}
+
 template <typename T>
 da_status check_data(da_order order, da_int n_rows, da_int n_cols, const T *X,
                      da_int ldx) {
@@ -191,9 +209,7 @@ da_status check_data(da_order order, da_int n_rows, da_int n_cols, const T *X,
         if constexpr (std::is_floating_point<T>::value) {
             for (da_int i = 0; i < n_rows; i++) {
                 for (da_int j = 0; j < n_cols; j++) {
-                    // x==x+1 check needed to get round a pybind1 + clang 18 Windows release build bug
-                    if (std::isnan(X[i * ldx + j]) ||
-                        X[i * ldx + j] == X[i * ldx + j] + (T)1) {
+                    if (is_not_finite(X[i * ldx + j])) {
                         return da_status_invalid_input;
                     }
                 }
@@ -205,8 +221,7 @@ da_status check_data(da_order order, da_int n_rows, da_int n_cols, const T *X,
         if constexpr (std::is_floating_point<T>::value) {
             for (da_int j = 0; j < n_cols; j++) {
                 for (da_int i = 0; i < n_rows; i++) {
-                    if (std::isnan(X[i + j * ldx]) ||
-                        X[i + j * ldx] == X[i + j * ldx] + (T)1) {
+                    if (is_not_finite(X[i + j * ldx])) {
                         return da_status_invalid_input;
                     }
                 }
-- 
2.43.0


From 3789531103e0d54d953ff5a2f1bcf3e9a437bd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:22 +0000
Subject: [PATCH 040/116] fix: splines honour the leading dimension of the
 values, and reject derivatives or boundary conditions of another dimension

---
 .../cubic_spline/cubic_spline.cpp             | 37 ++++++++++++++-----
 .../interpolation/interpolation_generic.hpp   | 18 ++++++---
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/source/core/interpolation/cubic_spline/cubic_spline.cpp b/source/core/interpolation/cubic_spline/cubic_spline.cpp
index 7e577ff..ad2a1a4 100644
--- a/source/core/interpolation/cubic_spline/cubic_spline.cpp
+++ b/source/core/interpolation/cubic_spline/cubic_spline.cpp
@@ -161,8 +161,8 @@ template <typename T> void cubic_spline<T>::coeffs_from_second_derivatives() {
         da_int start_dim = d * 4 * (this->n_sites - 1);
         for (da_int i = 0; i < this->n_sites - 1; i++) {
             da_int y_idx = this->storage_order == (da_int)row_major
-                               ? (i * this->dim_y + d)
-                               : (d * this->n_sites + i);
+                               ? (i * this->ldy + d)
+                               : (d * this->ldy + i);
             coeffs[start_dim + 4 * i + 3] =
                 (z[start_z + i + 1] - z[start_z + i]) / (6 * this->dx[i]); // A_i
             coeffs[start_dim + 4 * i + 2] = z[start_z + i] / 2;            // B_i
@@ -238,6 +238,10 @@ template <typename T> da_status cubic_spline<T>::compute_custom_bc_spline() {
         return da_error(
             this->err, da_status_out_of_date,
             "Boundary conditions must be set for custom spline interpolation.");
+    if ((da_int)left_bc.size() != this->dim_y)
+        return da_error(this->err, da_status_invalid_input,
+                        "The dimension of the boundary conditions must match the "
+                        "dimension of the values.");
 
     if (left_order == 1) {
         diag[0] = 2 * this->dx[0];
@@ -300,6 +304,10 @@ template <typename T> da_status cubic_spline<T>::compute_hermite_spline() {
     if (!this->derivatives_set)
         return da_error(this->err, da_status_out_of_date,
                         "Derivatives must be set for Hermite spline interpolation.");
+    if (this->dim_y_deriv != this->dim_y)
+        return da_error(this->err, da_status_invalid_input,
+                        "The dimension of the derivatives must match the dimension of "
+                        "the values.");
 
     try {
         coeffs.resize(4 * (this->n_sites - 1) * this->dim_y);
@@ -308,17 +316,25 @@ template <typename T> da_status cubic_spline<T>::compute_hermite_spline() {
                         "Memory allocation error");
     }
 
+    // Strides between consecutive sites and between consecutive dimensions
+    bool row_y = this->storage_order == row_major;
+    bool row_yp = this->storage_order_deriv == row_major;
+    da_int inc_y = row_y ? this->ldy : 1, inc_y_dim = row_y ? 1 : this->ldy;
+    da_int inc_yp = row_yp ? this->ldy_deriv : 1;
+    da_int inc_yp_dim = row_yp ? 1 : this->ldy_deriv;
+
     if (this->storage_order == column_major || this->dim_y <= 1) {
         for (da_int d = 0; d < this->dim_y; d++) {
             da_int start_dim = d * 4 * (this->n_sites - 1);
-            da_int start_y = d * this->n_sites;
+            da_int start_y = d * inc_y_dim;
+            da_int start_yp = d * inc_yp_dim;
             da_int start_dy = d * (this->n_sites - 1);
 
             for (da_int i = 0; i < this->n_sites - 1; i++) {
                 T h_i = this->dx[i];
-                T y_i = this->y[start_y + i];
-                T yp_i = this->y_deriv[start_y + i];
-                T yp_ip1 = this->y_deriv[start_y + i + 1];
+                T y_i = this->y[start_y + i * inc_y];
+                T yp_i = this->y_deriv[start_yp + i * inc_yp];
+                T yp_ip1 = this->y_deriv[start_yp + (i + 1) * inc_yp];
                 T dy_i = this->dy[start_dy + i];
 
                 T h_i2 = h_i * h_i;
@@ -334,7 +350,8 @@ template <typename T> da_status cubic_spline<T>::compute_hermite_spline() {
         }
     } else {
         for (da_int i = 0; i < this->n_sites - 1; i++) {
-            da_int start_y = i * this->dim_y;
+            da_int start_y = i * inc_y;
+            da_int start_yp = i * inc_yp;
             da_int start_dim = i * 4;
 
             T h_i = this->dx[i];
@@ -343,9 +360,9 @@ template <typename T> da_status cubic_spline<T>::compute_hermite_spline() {
 
             for (da_int d = 0; d < this->dim_y; d++) {
                 da_int d_start = d * (this->n_sites - 1);
-                T y_i = this->y[start_y + d];
-                T yp_i = this->y_deriv[start_y + d];
-                T yp_ip1 = this->y_deriv[start_y + this->dim_y + d];
+                T y_i = this->y[start_y + d * inc_y_dim];
+                T yp_i = this->y_deriv[start_yp + d * inc_yp_dim];
+                T yp_ip1 = this->y_deriv[start_yp + inc_yp + d * inc_yp_dim];
                 T dy_i = this->dy[d_start + i];
 
                 coeffs[start_dim + 4 * d * (this->n_sites - 1) + 0] = y_i;  // D_i
diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index d8eb0e3..bf573e1 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -45,6 +45,10 @@ template <typename T> class interpolation_generic {
     da_int n_sites = 0; // Number of interpolation sites (data points)
     da_int dim_y = 0;   // number of dimensions of interpolation values y
     da_int ldy = 0;
+    // The derivatives have their own dimensions and storage order
+    da_int dim_y_deriv = 0;
+    da_int ldy_deriv = 0;
+    da_order storage_order_deriv = column_major;
     // Interpolation points (x_i, y_i)
     da_order storage_order = column_major;
     T *x_internal = nullptr;
@@ -263,10 +267,10 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
     da_int check_data, sto;
     this->opts->get("storage order", opt_order, sto);
     this->opts->get("check data", check_data_str, check_data);
-    this->storage_order = da_order(sto);
+    da_order order_data = da_order(sto);
 
     da_status status = ARCH::da_utils::check_2D_array(
-        check_data != 0, this->storage_order, this->err, n, dim, y_data, ldy_data,
+        check_data != 0, order_data, this->err, n, dim, y_data, ldy_data,
         "n_sites", "dim", "y_data", "ldy_data", 2, 1);
     if (status != da_status_success)
         return status;
@@ -275,8 +279,9 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
 
     // Determine whether we're setting function values or derivatives
     if (order == 1) {
-        this->dim_y = dim;
-        this->ldy = ldy_data;
+        this->dim_y_deriv = dim;
+        this->ldy_deriv = ldy_data;
+        this->storage_order_deriv = order_data;
         y_deriv = y_data;
         derivatives_set = true;
     } else {
@@ -290,11 +295,12 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
         // Copy usr values and pointer
         this->dim_y = dim;
         this->ldy = ldy_data;
+        this->storage_order = order_data;
         y = y_data;
 
         if (storage_order == column_major) {
             for (da_int j = 0; j < dim; j++) {
-                da_int start_y = j * this->n_sites;
+                da_int start_y = j * this->ldy;
                 da_int start_dy = j * (this->n_sites - 1);
 #pragma omp simd
                 for (da_int i = 0; i < this->n_sites - 1; i++)
@@ -306,7 +312,7 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
             for (da_int i = 0; i < this->n_sites - 1; i++) {
 #pragma omp simd
                 for (da_int j = 0; j < dim; j++)
-                    dy[j * (n_sites - 1) + i] = y[(i + 1) * dim_y + j] - y[i * dim_y + j];
+                    dy[j * (n_sites - 1) + i] = y[(i + 1) * ldy + j] - y[i * ldy + j];
             }
         }
         values_set = true;
-- 
2.43.0


From abb1742137db6cf0dd4a2c3a84ca5fe651cc5803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:22 +0000
Subject: [PATCH 041/116] fix: the cell search of splines is exact next to
 sites and defined for far away queries

---
 .../interpolation/interpolation_generic.hpp   | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index bf573e1..5bce6b2 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -343,18 +343,34 @@ da_status interpolation_generic<T>::search_cells(da_int n_eval, const T *x_eval,
         T dx_u = dx[0];
         for (da_int i = 0; i < n_eval; i++) {
             T x = x_eval[i];
-            da_int idx = static_cast<da_int>((x - this->x_start) / dx_u);
-            cells[i] = std::clamp(idx, (da_int)0, this->n_sites - 2);
+            // Clamp before converting, the position may not be representable
+            T pos = (x - this->x_start) / dx_u;
+            da_int idx = 0;
+            if (pos >= (T)(this->n_sites - 2))
+                idx = this->n_sites - 2;
+            else if (pos > 0)
+                idx = static_cast<da_int>(pos);
+            cells[i] = std::min(idx, this->n_sites - 2);
         }
     } else {
         T i_dx_u = (T)(index_size - 2) / x_range;
         // Binary search inside the indexed interval.
         for (da_int i = 0; i < n_eval; i++) {
             T x = x_eval[i];
-            da_int idx = std::clamp((da_int)((x - x_start) * i_dx_u), (da_int)0,
-                                    (da_int)(index_size - 2));
+            // Clamp before converting, the position may not be representable
+            T pos = (x - x_start) * i_dx_u;
+            da_int idx = 0;
+            if (pos >= (T)(index_size - 2))
+                idx = index_size - 2;
+            else if (pos > 0)
+                idx = std::min((da_int)pos, index_size - 2);
             da_int left = interval_index_lo[idx];
             da_int right = interval_index_up[idx];
+            // The index is only accurate up to rounding errors
+            if (x < this->x_sites[left])
+                left = 0;
+            if (x >= this->x_sites[right])
+                right = this->n_sites - 1;
             while (right - left > 1) {
                 da_int mid = (left + right) / 2;
                 if (x < this->x_sites[mid]) {
-- 
2.43.0


From 9c6781365d9ce4c049c253dcf49afa420de13adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 042/116] fix: a refused interpolation model or set of sites
 leaves the handle as it was, and NaN sites are refused

---
 source/core/interpolation/interpolation.cpp         | 2 +-
 source/core/interpolation/interpolation_generic.hpp | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/core/interpolation/interpolation.cpp b/source/core/interpolation/interpolation.cpp
index 9b8ef7e..8785898 100644
--- a/source/core/interpolation/interpolation.cpp
+++ b/source/core/interpolation/interpolation.cpp
@@ -50,7 +50,6 @@ da_status interpolation_p<T>::select_model(da_interpolation_model model) {
         return da_error(this->err, da_status_invalid_input,
                         "Cannot change the interpolation model once it has been set.");
 
-    this->model = model;
     switch (model) {
     case da_interpolation_model::interpolation_cubic_spline:
         interp = std::make_unique<cubic_spline<T>>(*this->err, this->opts);
@@ -61,6 +60,7 @@ da_status interpolation_p<T>::select_model(da_interpolation_model model) {
                         "The model selected is invalid.");
         break;
     }
+    this->model = model;
 
     return da_status_success;
 }
diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index 5bce6b2..3c578e2 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -131,6 +131,7 @@ da_status interpolation_generic<T>::set_sites_1d(da_int n, const T *x) {
                             ". Cannot change the number of interpolation sites when "
                             "sites are already set.");
 
+    da_int n_sites_old = n_sites;
     n_sites = n;
     x_usr = x;
     x_sites = x_usr;
@@ -155,12 +156,14 @@ da_status interpolation_generic<T>::set_sites_1d(da_int n, const T *x) {
     // (all dx elements are strictly positive)
     for (da_int i = 0; i < n_sites - 1; i++) {
         dx[i] = x_sites[i + 1] - x_sites[i];
-        if (dx[i] <= 0.)
+        if (!(dx[i] > 0.)) {
+            n_sites = n_sites_old;
             return da_error(
                 this->err, da_status_invalid_input,
                 "All sites must be provided in strictly increasing order. x[" +
                     std::to_string(i) + "] = " + std::to_string(x_sites[i]) + " and x[" +
-                    std::to_string(i + 1) + "] = " + std::to_string(x_sites[i + 1]));
+                    std::to_string(i + 1) + "] = " + std::to_string(x[i + 1]));
+        }
     }
 
     // Build index:
@@ -205,7 +208,7 @@ da_status interpolation_generic<T>::set_sites_uniform_1d(da_int n, T x_start, T
     if (n < 2)
         return da_error(this->err, da_status_invalid_input,
                         "Number of interpolation sites must be at least 2.");
-    if (x_end <= x_start)
+    if (!(x_end > x_start))
         return da_error(this->err, da_status_invalid_input,
                         "x_end must be greater than x_start.");
 
-- 
2.43.0


From 3b370ba012338c81d1517b8062232994141ff5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 043/116] fix: uniform spline sites set after a refused set of
 sites use their own spacing

---
 source/core/interpolation/interpolation_generic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index 3c578e2..cb25715 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -224,7 +224,7 @@ da_status interpolation_generic<T>::set_sites_uniform_1d(da_int n, T x_start, T
     x_usr = nullptr;
     try {
         x_internal = new T[n_sites];
-        dx.resize(n_sites - 1, dx_val);
+        dx.assign(n_sites - 1, dx_val);
     } catch (std::bad_alloc const &) {                     // LCOV_EXCL_LINE
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation error");
-- 
2.43.0


From 50e931adc94b2370a8b5cf194664401c303d4a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:48 +0000
Subject: [PATCH 044/116] fix: second derivative boundary conditions of splines
 are scaled so that the tridiagonal solve does not exchange rows and lose
 accuracy

---
 .../core/interpolation/cubic_spline/cubic_spline.cpp   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/core/interpolation/cubic_spline/cubic_spline.cpp b/source/core/interpolation/cubic_spline/cubic_spline.cpp
index ad2a1a4..a784aa8 100644
--- a/source/core/interpolation/cubic_spline/cubic_spline.cpp
+++ b/source/core/interpolation/cubic_spline/cubic_spline.cpp
@@ -246,14 +246,15 @@ template <typename T> da_status cubic_spline<T>::compute_custom_bc_spline() {
     if (left_order == 1) {
         diag[0] = 2 * this->dx[0];
     } else {
-        diag[0] = 1.;
+        // Scaled like the other rows, so that they are never exchanged in the solve
+        diag[0] = 2 * this->dx[0];
         diag_up[0] = 0.;
     }
 
     if (right_order == 1) {
         diag[this->n_sites - 1] = 2 * this->dx[this->n_sites - 2];
     } else {
-        diag[this->n_sites - 1] = 1.;
+        diag[this->n_sites - 1] = 2 * this->dx[this->n_sites - 2];
         diag_lo[this->n_sites - 2] = 0.;
     }
 
@@ -263,7 +264,7 @@ template <typename T> da_status cubic_spline<T>::compute_custom_bc_spline() {
         if (left_order == 1) {
             z[start_z] = 6 * this->dy[start_dy] / this->dx[0] - 6 * left_bc[d];
         } else {
-            z[start_z] = left_bc[d];
+            z[start_z] = 2 * this->dx[0] * left_bc[d];
         }
 
         if (right_order == 1) {
@@ -271,7 +272,8 @@ template <typename T> da_status cubic_spline<T>::compute_custom_bc_spline() {
                                                  this->dx[this->n_sites - 2] +
                                              6 * right_bc[d];
         } else {
-            z[start_z + this->n_sites - 1] = right_bc[d];
+            z[start_z + this->n_sites - 1] =
+                2 * this->dx[this->n_sites - 2] * right_bc[d];
         }
     }
 
-- 
2.43.0


From a36fca0ab8eff962e4b7570c58ea74ac598797fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 045/116] fix: sums of train and test sizes that overflow are
 refused

---
 source/core/utilities/da_utils.cpp         | 4 ++--
 source/core/utilities/train_test_split.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index f339f29..016cf1c 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -376,10 +376,10 @@ da_status validate_parameters_stratified_shuffle(da_int m, da_int train_size,
                                                  const std::vector<da_int> &counts) {
     if (n_classes < 2)
         return da_status_invalid_input;
-    if (train_size + test_size > m)
-        return da_status_invalid_input;
     if (train_size < n_classes || test_size < n_classes)
         return da_status_invalid_input;
+    if (train_size > m - test_size)
+        return da_status_invalid_input;
     for (da_int i = 0; i < n_classes; ++i) {
         if (counts[i] < 2)
             return da_status_invalid_input;
diff --git a/source/core/utilities/train_test_split.cpp b/source/core/utilities/train_test_split.cpp
index e528bf0..7c83ddc 100644
--- a/source/core/utilities/train_test_split.cpp
+++ b/source/core/utilities/train_test_split.cpp
@@ -60,7 +60,7 @@ da_status validate_parameters_train_test_split(da_order order, da_int m, da_int
     if (train_size < 1 || test_size < 1) {
         return da_status_invalid_input;
     }
-    if ((train_size + test_size) > m) {
+    if (train_size > m - test_size) {
         return da_status_invalid_input;
     }
 
-- 
2.43.0


From fa3e1f4cc00ae8594d9e22ce022111bd57851ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 046/116] fix: floating point class labels are floored, also
 negative ones, before a stratified shuffle

---
 source/core/utilities/da_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index 016cf1c..75403b3 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -285,7 +285,7 @@ da_status convert_fp_classes(da_int m, da_int precision, const T *classes,
 
 #pragma omp simd
     for (da_int i = 0; i < m; ++i) {
-        int_classes[i] = (int64_t)(classes[i] * precision);
+        int_classes[i] = (int64_t)std::floor(classes[i] * precision);
     }
     return da_status_success;
 }
-- 
2.43.0


From 8318f5feac4acdb97c8213481526294cbb219c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 047/116] fix: extracting a selection of several intervals in
 row-major order, and leading dimensions smaller than the selection

---
 source/core/data_management/data_store.hpp | 29 ++++++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 25f7a79..5c59a2b 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -1003,6 +1003,25 @@ class data_store {
             clear_cols = true;
         }
 
+        {
+            // The leading dimension must accommodate the whole selection
+            da_int sel_rows = 0, sel_cols = 0;
+            for (auto it_row = it->second.row_slice->begin();
+                 it_row != it->second.row_slice->end(); ++it_row)
+                sel_rows += it_row->upper - it_row->lower + 1;
+            for (auto it_col = it->second.col_slice->begin();
+                 it_col != it->second.col_slice->end(); ++it_col)
+                sel_cols += it_col->upper - it_col->lower + 1;
+            da_int ld_min = order == column_major ? sel_rows : sel_cols;
+            if (ld < ld_min) {
+                exit_status = da_status_invalid_input;
+                da_error(err, exit_status,
+                         "The leading dimension must be at least " +
+                             std::to_string(ld_min));
+                goto exit;
+            }
+        }
+
         if (order == column_major) {
 
             for (auto it_col = it->second.col_slice->begin();
@@ -1028,10 +1047,10 @@ class data_store {
             for (auto it_col = it->second.col_slice->begin();
                  it_col != it->second.col_slice->end(); ++it_col) {
                 n_cols += it_col->upper - it_col->lower + 1;
-                for (auto it_row = it->second.row_slice->begin();
-                     it_row != it->second.row_slice->end(); ++it_row) {
-                    n_rows += it_row->upper - it_row->lower + 1;
-                }
+            }
+            for (auto it_row = it->second.row_slice->begin();
+                 it_row != it->second.row_slice->end(); ++it_row) {
+                n_rows += it_row->upper - it_row->lower + 1;
             }
             ldd = n_rows;
             // ncols and nrows are now correctly set
@@ -1047,7 +1066,7 @@ class data_store {
 
             for (auto it_col = it->second.col_slice->begin();
                  it_col != it->second.col_slice->end(); ++it_col) {
-                idx = ncols * ld;
+                idx = ncols * ldd;
                 ncols += it_col->upper - it_col->lower + 1;
                 for (auto it_row = it->second.row_slice->begin();
                      it_row != it->second.row_slice->end(); ++it_row) {
-- 
2.43.0


From 28d92bbfb590c2370fb8f4d1733d30b485417adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 048/116] fix: select_non_missing does not read past the last
 row

---
 source/core/data_management/data_store.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 5c59a2b..4fc5664 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -1188,7 +1188,7 @@ class data_store {
         while (i < m) {
             if (!valid_rows[i]) {
                 da_int idx_stop = i;
-                while (!valid_rows[idx_stop] && idx_stop < m) {
+                while (idx_stop < m && !valid_rows[idx_stop]) {
                     idx_stop++;
                 }
                 status = row_slice->erase({i, idx_stop - 1});
-- 
2.43.0


From 13b65833a76ed059eccfaebca330e3eaf558ecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 049/116] fix: row blocks of the data store that span several
 column blocks, and refused row blocks, leave the other rows where they are

---
 source/core/data_management/data_store.hpp | 138 +++++++++------------
 1 file changed, 57 insertions(+), 81 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 4fc5664..a11942c 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -359,22 +359,14 @@ template <class T> class block_dense : public block_base<T> {
 /* Wrapper structure containing a pointer to a block and meta-data around the block */
 class block_id {
   public:
-    /* b: pointer to a generic block class
+    /* b: pointer to a generic block class, shared by the block_ids of all the columns intervals
+     *    it spans
      * offset: column index of the first element in the block
      * next: pointer to another block_id containing the next rows
-     * left_parent: pointer to the left most parent of the block_id; nullptr if it contains the first rows
      */
-    block *b = nullptr;
+    std::shared_ptr<block> b = nullptr;
     da_int offset = 0;
     std::shared_ptr<block_id> next = nullptr;
-    std::shared_ptr<block_id> left_parent = nullptr;
-
-    ~block_id() {
-        if (b) {
-            delete b;
-            b = nullptr;
-        }
-    };
 };
 
 using namespace da_interval;
@@ -408,9 +400,11 @@ class data_store {
     /* Data to handle partially added rows
      * missing_block: if true, blocks the other functionality until the partial row block is finished
      * idx_start_missing: column index of the start of the missing block
+     * m_missing: number of rows being added
      */
     bool missing_block = false;
     da_int idx_start_missing = 0;
+    da_int m_missing = 0;
 
     /* Hash map of selections, using user defined labels (c strings) */
     selection_map selections;
@@ -487,12 +481,12 @@ class data_store {
         std::shared_ptr<block_id> new_block;
         try {
             new_block = std::make_shared<block_id>(block_id());
-            new_block->b =
-                new block_dense<T>(mc, nc, data, *this->err, order, copy_data, C_data);
+            std::shared_ptr<block_dense<T>> bd = std::make_shared<block_dense<T>>(
+                mc, nc, data, *this->err, order, copy_data, C_data);
+            new_block->b = bd;
             new_block->offset = n;
-            block_dense<T> *bd = static_cast<block_dense<T> *>(new_block->b);
-            bd->set_own_data(own_data || copy_data);
             index_to_name.resize(n + nc, nullptr);
+            bd->set_own_data(own_data || copy_data);
         } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
             return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
                             "Memory allocation error");
@@ -516,14 +510,12 @@ class data_store {
         da_status status = da_status_success;
         bool found;
         da_int lb, ub, idx_start;
-        std::shared_ptr<block_id> new_block = nullptr;
 
         if (n <= 0) {
             // First block, columns need to be concatenated instead.
             status = this->concatenate_columns(mr, nr, data, order, copy_data, own_data,
                                                C_data);
         } else {
-            bool cleanup = false;
             idx_start = 0;
             if (missing_block)
                 idx_start = idx_start_missing;
@@ -538,69 +530,57 @@ class data_store {
                                 "Number of rows must match " + std::to_string(m) +
                                     " (input: " + std::to_string(nr + idx_start) + ")");
 
-            // Create a dense block from the raw data
+            if (missing_block && mr != m_missing)
+                return da_error(err, da_status_invalid_input,
+                                "Number of rows must match the rows being added: " +
+                                    std::to_string(m_missing) +
+                                    " (input: " + std::to_string(mr) + ")");
+
+            // Find the last block_id of each of the columns intervals spanned by the new rows
+            block_type btype = get_block_type<T>();
+            std::shared_ptr<block_id> current_block;
+            std::vector<std::shared_ptr<block_id>> last_blocks, new_blocks;
             try {
-                new_block = std::make_shared<block_id>(block_id());
-                new_block->b =
-                    new block_dense<T>(mr, nr, data, *err, order, copy_data, C_data);
-                block_dense<T> *bd = static_cast<block_dense<T> *>(new_block->b);
+                ub = idx_start - 1;
+                while (ub < idx_start + nr - 1) {
+                    found = cmap.find(ub + 1, current_block, lb, ub);
+                    if (!found)
+                        break;
+                    if (btype != current_block->b->btype || ub > idx_start + nr - 1)
+                        return da_error(
+                            err, da_status_invalid_input,
+                            "cannot concatenate row(s), column types do not match.");
+                    while (current_block->next != nullptr)
+                        current_block = current_block->next;
+                    last_blocks.push_back(current_block);
+                }
+
+                // Create a dense block from the raw data, and a block_id for each interval
+                std::shared_ptr<block_dense<T>> bd = std::make_shared<block_dense<T>>(
+                    mr, nr, data, *err, order, copy_data, C_data);
+                for (size_t i = 0; i < last_blocks.size(); i++) {
+                    new_blocks.push_back(std::make_shared<block_id>(block_id()));
+                    new_blocks[i]->b = bd;
+                    new_blocks[i]->offset = idx_start;
+                }
                 bd->set_own_data(own_data || copy_data);
             } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
                 return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
                                 "Memory allocation error");
             }
 
-            new_block->offset = idx_start;
-            block_type btype = get_block_type<T>();
-
+            for (size_t i = 0; i < last_blocks.size(); i++)
+                last_blocks[i]->next = new_blocks[i];
             if (!missing_block)
                 m += mr;
-            ub = idx_start - 1;
-            std::shared_ptr<block_id> current_block;
-            while (ub < idx_start + nr - 1) {
-                found = cmap.find(ub + 1, current_block, lb, ub);
-                if (!found)
-                    break;
-                if (btype != current_block->b->btype || ub > idx_start + nr - 1) {
-                    cleanup = true;
-                    status =
-                        da_error(err, da_status_invalid_input,
-                                 "cannot concatenate row(s), column types do not match.");
-                    break;
-                }
-                while (current_block->next != nullptr)
-                    current_block = current_block->next;
-                current_block->next = new_block;
-                if (new_block->left_parent == nullptr)
-                    new_block->left_parent = current_block;
-            }
-            if (!cleanup) {
-                if (idx_start + nr < n) {
-                    missing_block = true;
-                    idx_start_missing = idx_start + nr;
-                } else {
-                    missing_block = false;
-                    idx_start_missing = 0;
-                }
+            if (idx_start + nr < n) {
+                missing_block = true;
+                idx_start_missing = idx_start + nr;
+                m_missing = mr;
             } else {
-                // Error occurred, clear the 'next' pointers from the existing blocks
-                ub = idx_start - 1;
-                std::shared_ptr<block_id> current_block;
-                while (ub < idx_start + nr - 1) {
-                    auto it = cmap.find(ub + 1);
-                    if (it == cmap.end())
-                        break;
-                    current_block = it->second;
-                    while (current_block->next != nullptr) {
-                        if (current_block->next == new_block)
-                            current_block->next = nullptr;
-                        else
-                            current_block = current_block->next;
-                    }
-                    ub = it->first.upper;
-                    ++it;
-                }
-                m -= mr;
+                missing_block = false;
+                idx_start_missing = 0;
+                m_missing = 0;
             }
         }
         return status; // Error message already loaded
@@ -622,18 +602,14 @@ class data_store {
 
         columns_map::iterator it1 = store.cmap.begin(), it2;
         da_int n_orig = n;
-        std::shared_ptr<block_id> store_block, next, current_block;
+        std::shared_ptr<block_id> store_block, next;
         while (it1 != store.cmap.end()) {
             da_int nc = it1->first.upper - it1->first.lower + 1;
             store_block = it1->second;
-            store_block->offset += n_orig;
             cmap.insert(interval(n, n + nc - 1), store_block);
-            current_block = store_block;
-            next = store_block->next;
+            next = store_block;
             while (next != nullptr) {
-                if (next->left_parent == current_block)
-                    next->offset = current_block->offset;
-                current_block = next;
+                next->offset += n_orig;
                 next = next->next;
             }
             n += nc;
@@ -684,7 +660,7 @@ class data_store {
                 err, da_status_invalid_input,
                 "Incompatible types between the datastore and the input data");
         while (id != nullptr) {
-            bb = static_cast<block_base<T> *>(id->b);
+            bb = static_cast<block_base<T> *>(id->b.get());
             status = bb->get_col(idx - id->offset, &c, stride);
             if (status != da_status_success)
                 return da_error_trace( // LCOV_EXCL_LINE
@@ -752,7 +728,7 @@ class data_store {
                 block_rows = {lr - first_row_idx, ur - first_row_idx};
                 if (block_rows.upper >= block_rows.lower) {
                     block_cols = {lcol - bid->offset, uc - bid->offset};
-                    block_base<T> *bb = static_cast<block_base<T> *>(bid->b);
+                    block_base<T> *bb = static_cast<block_base<T> *>(bid->b.get());
                     status = bb->copy_slice_dense(block_cols, block_rows, idxr, ld_slice,
                                                   slice);
                     if (status != da_status_success)
@@ -1305,7 +1281,7 @@ class data_store {
         da_int colidx = j - bid->offset;
         T *col = nullptr;
         da_int stride;
-        block_base<T> *bb = static_cast<block_base<T> *>(bid->b);
+        block_base<T> *bb = static_cast<block_base<T> *>(bid->b.get());
         bb->get_col(colidx, &col, stride);
         elem = col[rowidx * stride];
 
@@ -1344,7 +1320,7 @@ class data_store {
         da_int colidx = j - bid->offset;
         T *col = nullptr;
         da_int stride;
-        block_base<T> *bb = static_cast<block_base<T> *>(bid->b);
+        block_base<T> *bb = static_cast<block_base<T> *>(bid->b.get());
         bb->get_col(colidx, &col, stride);
         col[rowidx * stride] = elem;
 
-- 
2.43.0


From ffc41dd5a0b19672d9678f4ac54a8993496c0818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 050/116] fix: elements of rows that are only partially loaded
 are refused where they do not exist yet

---
 source/core/data_management/data_store.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index a11942c..97fec68 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -1272,10 +1272,13 @@ class data_store {
             return da_error(err, da_status_invalid_input, "Incompatible types");
 
         da_int offset = 0;
-        while (i >= bid->b->m + offset) {
+        while (bid != nullptr && i >= bid->b->m + offset) {
             offset += bid->b->m;
             bid = bid->next;
         }
+        if (bid == nullptr)
+            return da_error(err, da_status_missing_block,
+                            "Row blocks are not complete, the element is not defined yet");
 
         da_int rowidx = i - offset;
         da_int colidx = j - bid->offset;
@@ -1311,10 +1314,13 @@ class data_store {
             return da_error(err, da_status_invalid_input, "Incompatible types");
 
         da_int offset = 0;
-        while (i >= bid->b->m + offset) {
+        while (bid != nullptr && i >= bid->b->m + offset) {
             offset += bid->b->m;
             bid = bid->next;
         }
+        if (bid == nullptr)
+            return da_error(err, da_status_missing_block,
+                            "Row blocks are not complete, the element is not defined yet");
 
         da_int rowidx = i - offset;
         da_int colidx = j - bid->offset;
-- 
2.43.0


From c07ea41bd77429ee171157cc465019fc0acdeb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 051/116] fix: horizontal concatenation keeps the labels of
 both stores and the label tables in step with the columns

---
 source/core/data_management/data_store.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 97fec68..07ca394 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -590,6 +590,9 @@ class data_store {
      * in output, 'this' will contain the concatenation and store will be destroyed.
      */
     da_status horizontal_concat(data_store &store) {
+        if (this == &store)
+            return da_error(err, da_status_invalid_input,
+                            "A store cannot be concatenated with itself");
         if (m != store.m)
             return da_error(err, da_status_invalid_input,
                             "The number of rows in both stores must match (" +
@@ -610,6 +613,7 @@ class data_store {
             next = store_block;
             while (next != nullptr) {
                 next->offset += n_orig;
+                next->b->err = err; // The error structure of store may not outlive it
                 next = next->next;
             }
             n += nc;
@@ -617,6 +621,12 @@ class data_store {
             it1++;
             store.cmap.erase(it2);
         }
+        // Carry the labels over
+        index_to_name.resize(n, nullptr);
+        for (da_int j = 0; j < store.n; j++) {
+            if (store.index_to_name[j] != nullptr)
+                label_column(*store.index_to_name[j], n_orig + j);
+        }
         store.m = 0;
         store.n = 0;
 
-- 
2.43.0


From d5ff3ebcd261357ec66decbbee0ecc881811cb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 052/116] fix: a column given a new label is no longer found
 under its previous one

---
 source/core/data_management/data_store.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 07ca394..9a4a954 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -1352,9 +1352,21 @@ class data_store {
             return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
                             "maps and store size are out of sync");
 
+        std::string const *old = index_to_name[idx];
         auto it = name_to_index.insert(std::make_pair(label, idx)).first;
         std::string const *pstr = &it->first;
         index_to_name[idx] = pstr;
+        if (old != nullptr && old != pstr) {
+            // The previous label now belongs to another column with the same label, if any
+            auto it_old = name_to_index.find(*old);
+            if (it_old->second == idx) {
+                auto other = std::find(index_to_name.begin(), index_to_name.end(), old);
+                if (other != index_to_name.end())
+                    it_old->second = (da_int)(other - index_to_name.begin());
+                else
+                    name_to_index.erase(it_old);
+            }
+        }
         return da_status_success;
     }
 
-- 
2.43.0


From 60abe0f03625661c3e45d4f9bf1fb9849105b788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 053/116] fix: erasing an interval that encloses a whole
 interval set empties the set

---
 source/core/data_management/interval_set.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/data_management/interval_set.cpp b/source/core/data_management/interval_set.cpp
index 91a5c49..3503840 100644
--- a/source/core/data_management/interval_set.cpp
+++ b/source/core/data_management/interval_set.cpp
@@ -129,7 +129,7 @@ da_status interval_set::erase(interval bounds) {
         it_lower = iset.end();
 
     // Every interval between it_lower and it_upper in included in the inserted interval
-    bool is_included = it_lower == it_upper;
+    bool is_included = it_lower == it_upper && it_lower != iset.end();
     if (!is_included) {
         inter_set::iterator it = it_lower;
         if (it != iset.end())
-- 
2.43.0


From 38113acf25a12cf4d07814ee9ef22f38f272065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 054/116] fix: interval maps refuse an interval that encloses
 others, and do not step before their first interval

---
 source/core/data_management/interval_map.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/core/data_management/interval_map.hpp b/source/core/data_management/interval_map.hpp
index 9099a69..3cd5b53 100644
--- a/source/core/data_management/interval_map.hpp
+++ b/source/core/data_management/interval_map.hpp
@@ -31,6 +31,8 @@
 #include "aoclda.h"
 #include "interval.hpp"
 #include <iostream>
+#include <iterator>
+#include <limits>
 #include <map>
 #include <set>
 
@@ -113,8 +115,10 @@ template <class T> class interval_map {
         if (ub < lb)
             return da_status_invalid_input;
 
-        if (find(lb) != imap.end() || find(ub) != imap.end())
-            // lb or ub are already in the intervals => trying to create an overlap
+        // The intervals are disjoint and sorted: bounds overlaps one of them if and only if it
+        // overlaps the last one that starts at or before ub
+        auto it_ub = imap.upper_bound(interval(ub, std::numeric_limits<da_int>::min()));
+        if (it_ub != imap.begin() && std::prev(it_ub)->first.upper >= lb)
             return da_status_invalid_input;
 
         imap.insert(std::make_pair(bounds, val));
@@ -131,7 +135,7 @@ template <class T> class interval_map {
         bool found = false;
         interval key_pair(key, key);
         auto it_lb = imap.lower_bound(key_pair);
-        if (it_lb == imap.end() || key_pair != it_lb->first)
+        if ((it_lb == imap.end() || key_pair != it_lb->first) && it_lb != imap.begin())
             --it_lb;
         if (it_lb != imap.end()) {
             lb = it_lb->first.lower;
@@ -149,7 +153,7 @@ template <class T> class interval_map {
         }
         interval key_pair(key, key);
         auto it_lb = imap.lower_bound(key_pair);
-        if (it_lb == imap.end() || key_pair != it_lb->first)
+        if ((it_lb == imap.end() || key_pair != it_lb->first) && it_lb != imap.begin())
             --it_lb;
         iterator it(it_lb);
         if (it == this->end() || key < it->first.lower || key > it->first.upper)
@@ -166,7 +170,7 @@ template <class T> class interval_map {
         }
         interval key_pair(key, key);
         auto it_lb = imap.lower_bound(key_pair);
-        if (it_lb == imap.end() || key_pair != it_lb->first)
+        if ((it_lb == imap.end() || key_pair != it_lb->first) && it_lb != imap.begin())
             --it_lb;
         iterator it(it_lb);
         return it;
-- 
2.43.0


From 85ac41615514ef6599d9f1fe0b45b201d04ea9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 055/116] fix: numbers and booleans read from CSV files use up
 the whole field, with all significant digits and any exponent

---
 source/core/csv/char_to_num.hpp | 94 +++++++++++++++++++++------------
 1 file changed, 60 insertions(+), 34 deletions(-)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index af07335..8e05ec6 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -73,8 +73,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     int negative;
     char *p = (char *)str;
     int num_digits;
+    int num_significant;
     int num_decimals;
-    int max_digits = 17;
+    const int max_digits = 17;
+    const int max_exponent = 100000000;
     int n;
 
     if (maybe_int != NULL)
@@ -128,35 +130,40 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     *number = 0.;
     exponent = 0;
     num_digits = 0;
+    num_significant = 0; // Not counting leading zeros.
     num_decimals = 0;
 
     // Process string of digits.
     while (isdigit_ascii(*p)) {
-        if (num_digits < max_digits) {
+        if (num_significant < max_digits) {
             *number = *number * 10. + (*p - '0');
-            num_digits++;
+            if (num_significant > 0 || *p != '0')
+                num_significant++;
         } else {
             ++exponent;
         }
 
+        num_digits = 1;
         p++;
         p += (tsep != '\0' && *p == tsep);
     }
 
     // Process decimal part
-    if (*p == decimal) {
+    if (decimal != '\0' && *p == decimal) {
         if (maybe_int != NULL)
             *maybe_int = 0;
         p++;
 
-        while (num_digits < max_digits && isdigit_ascii(*p)) {
+        while (num_significant < max_digits && isdigit_ascii(*p)) {
             *number = *number * 10. + (*p - '0');
+            if (num_significant > 0 || *p != '0')
+                num_significant++;
+            num_digits = 1;
             p++;
-            num_digits++;
             num_decimals++;
         }
 
-        if (num_digits >= max_digits) // Consume extra decimal digits.
+        if (num_significant >= max_digits) // Consume extra decimal digits.
             while (isdigit_ascii(*p))
                 ++p;
 
@@ -174,7 +181,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         *number = -*number;
 
     // Process an exponent string.
-    if (toupper_ascii(*p) == toupper_ascii(sci)) {
+    if (sci != '\0' && toupper_ascii(*p) == toupper_ascii(sci)) {
         if (maybe_int != NULL)
             *maybe_int = 0;
 
@@ -191,9 +198,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         // Process string of digits.
         num_digits = 0;
         n = 0;
-        while (num_digits < max_digits && isdigit_ascii(*p)) {
-            n = n * 10 + (*p - '0');
-            num_digits++;
+        while (isdigit_ascii(*p)) {
+            if (n < max_exponent)
+                n = n * 10 + (*p - '0');
+            num_digits = 1;
             p++;
         }
 
@@ -234,6 +242,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
             p++;
     }
 
+    // Did we use up all the characters?
+    if (*p)
+        status = da_status_parsing_error;
+
     if (endptr)
         *endptr = p;
     return status;
@@ -252,8 +264,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     int negative;
     char *p = (char *)str;
     int num_digits;
+    int num_significant;
     int num_decimals;
-    int max_digits = 9;
+    const int max_digits = 9;
+    const int max_exponent = 100000000;
     int n;
 
     if (maybe_int != NULL)
@@ -282,35 +296,40 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     *number = 0.;
     exponent = 0;
     num_digits = 0;
+    num_significant = 0; // Not counting leading zeros.
     num_decimals = 0;
 
     // Process string of digits.
     while (isdigit_ascii(*p)) {
-        if (num_digits < max_digits) {
+        if (num_significant < max_digits) {
             *number = *number * 10.f + (*p - '0');
-            num_digits++;
+            if (num_significant > 0 || *p != '0')
+                num_significant++;
         } else {
             ++exponent;
         }
 
+        num_digits = 1;
         p++;
         p += (tsep != '\0' && *p == tsep);
     }
 
     // Process decimal part
-    if (*p == decimal) {
+    if (decimal != '\0' && *p == decimal) {
         if (maybe_int != NULL)
             *maybe_int = 0;
         p++;
 
-        while (num_digits < max_digits && isdigit_ascii(*p)) {
+        while (num_significant < max_digits && isdigit_ascii(*p)) {
             *number = *number * 10.f + (*p - '0');
+            if (num_significant > 0 || *p != '0')
+                num_significant++;
+            num_digits = 1;
             p++;
-            num_digits++;
             num_decimals++;
         }
 
-        if (num_digits >= max_digits) // Consume extra decimal digits.
+        if (num_significant >= max_digits) // Consume extra decimal digits.
             while (isdigit_ascii(*p))
                 ++p;
 
@@ -328,7 +347,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         *number = -*number;
 
     // Process an exponent string.
-    if (toupper_ascii(*p) == toupper_ascii(sci)) {
+    if (sci != '\0' && toupper_ascii(*p) == toupper_ascii(sci)) {
         if (maybe_int != NULL)
             *maybe_int = 0;
 
@@ -345,9 +364,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         // Process string of digits.
         num_digits = 0;
         n = 0;
-        while (num_digits < max_digits && isdigit_ascii(*p)) {
-            n = n * 10 + (*p - '0');
-            num_digits++;
+        while (isdigit_ascii(*p)) {
+            if (n < max_exponent)
+                n = n * 10 + (*p - '0');
+            num_digits = 1;
             p++;
         }
 
@@ -388,6 +408,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
             p++;
     }
 
+    // Did we use up all the characters?
+    if (*p)
+        status = da_status_parsing_error;
+
     if (endptr)
         *endptr = p;
     return status;
@@ -681,23 +705,25 @@ inline da_status char_to_num([[maybe_unused]] parser_t *parser, const char *str,
     }
 
     if (strncasecmp(p, "TRUE", 4) == 0) {
-        if (strlen(p) > 4 && !isspace_ascii(p[4])) {
-            return status;
-        } else {
-            status = da_status_success;
-            *number = 1;
-        }
+        p += 4;
+        *number = 1;
     } else if (strncasecmp(p, "FALSE", 5) == 0) {
-        if (strlen(p) > 5 && !isspace_ascii(p[5])) {
-            return status;
-        } else {
-            status = da_status_success;
-            *number = 0;
-        }
+        p += 5;
+        *number = 0;
     } else {
         return status;
     }
 
+    // Skip trailing spaces.
+    while (isspace_ascii(*p)) {
+        ++p;
+    }
+
+    // Did we use up all the characters?
+    if (*p)
+        return status;
+    status = da_status_success;
+
     if (maybe_int != NULL)
         *maybe_int = 1;
     if (endptr)
-- 
2.43.0


From 7484e33d5bd3665c8a514df627be88af8b5b6f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 056/116] fix: CSV files that cannot be read or parsed to their
 end are refused, and the outputs are defined after an error

---
 source/core/csv/parser.hpp   |  8 ++++----
 source/core/csv/read_csv.hpp | 25 +++++++++++++++++++++----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/source/core/csv/parser.hpp b/source/core/csv/parser.hpp
index 4805734..582dc8b 100644
--- a/source/core/csv/parser.hpp
+++ b/source/core/csv/parser.hpp
@@ -59,13 +59,13 @@ inline void *read_bytes(void *source, size_t nbytes, size_t *bytes_read, int *st
         *status = 0;           // LCOV_EXCL_LINE
         return (void *)buffer; // LCOV_EXCL_LINE
     } else {                   // Error handling
-        if (read_status == 0) {
-            *status = REACHED_EOF;
-            return (void *)buffer;
-        } else if (ferror(fp)) {
+        if (ferror(fp)) {
             *status = CALLING_READ_FAILED;
             free(buffer);
             return NULL;
+        } else if (read_status == 0) {
+            *status = REACHED_EOF;
+            return (void *)buffer;
         } else {
             return (void *)buffer;
         }
diff --git a/source/core/csv/read_csv.hpp b/source/core/csv/read_csv.hpp
index 8d2f69a..5641876 100644
--- a/source/core/csv/read_csv.hpp
+++ b/source/core/csv/read_csv.hpp
@@ -99,10 +99,16 @@ inline da_status parse_file(csv_reader *csv, const char *filename) {
     char *encoding_errors = NULL;
 
     istatus = tokenize_all_rows(parser, encoding_errors);
-    if (istatus != 0) {
-        da_error(csv->err, da_status_memory_error,
-                 "Memory allocation failure"); // LCOV_EXCL_LINE
-        goto exit;                             // LCOV_EXCL_LINE
+    if (istatus == PARSER_OUT_OF_MEMORY) {
+        status = da_error(csv->err, da_status_memory_error,
+                          "Memory allocation failure"); // LCOV_EXCL_LINE
+        goto exit;                                      // LCOV_EXCL_LINE
+    } else if (istatus != 0) {
+        status = da_error(
+            csv->err,
+            ferror(fp) ? da_status_file_reading_error : da_status_parsing_error,
+            parser->error_msg ? parser->error_msg : "The file could not be parsed.");
+        goto exit;
     } else if (parser->skipped_lines != nullptr) {
         std::string buff;
         buff = "The following lines of the CSV file were ignored:\n";
@@ -297,6 +303,12 @@ inline da_status parse_and_process(csv_reader *csv, const char *filename, T **a,
 
     da_status error = da_status_success, tmp_error = da_status_success;
 
+    *a = nullptr;
+    *nrows = 0;
+    *ncols = 0;
+    if (get_headings)
+        *headings = nullptr;
+
     error = parse_file(csv, filename);
 
     if (error != da_status_success) {
@@ -345,6 +357,11 @@ inline da_status read_csv(csv_reader *csv, const char *filename, T **a, da_int *
 
     da_int get_headings = csv->first_row_header;
 
+    if (filename == nullptr || a == nullptr || nrows == nullptr || ncols == nullptr ||
+        (get_headings && headings == nullptr))
+        return da_error(csv->err, da_status_invalid_pointer,
+                        "One of the arguments is null.");
+
     error = parse_and_process(csv, filename, a, nrows, ncols, get_headings, headings);
     if (error != da_status_success)
         return da_error_trace(csv->err, error, "Error parsing CSV");
-- 
2.43.0


From b3dc83bb7c54165d869c5f44fd4496e8397923de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 057/116] fix: the row start option and the list of ignored
 lines do not outlive the CSV file they were meant for

---
 source/core/csv/tokenizer.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index 43bd491..df66b60 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -181,6 +181,11 @@ int parser_reset(parser_t *self){
 
     parser_clear_data_buffers(self);
 
+    if (self->skipped_lines != NULL) {
+        kh_destroy_int64((kh_int64_t *)self->skipped_lines);
+        self->skipped_lines = NULL;
+    }
+
     int64_t sz;
 
     sz = STREAM_INIT_SIZE / 10;
@@ -626,9 +631,7 @@ void parser_store_skipped_row(parser_t *self, int64_t row) {
 
 int parser_set_skipfirstnrows(parser_t *self, int64_t nrows) {
     // self->file_lines is zero based so subtract 1 from nrows
-    if (nrows > 0) {
-        self->skip_first_N_rows = nrows - 1;
-    }
+    self->skip_first_N_rows = nrows > 0 ? nrows - 1 : -1;
 
     return 0;
 }
-- 
2.43.0


From a9dd2fb87d3398be70280959d172e91610172e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 058/116] fix: CSV lines that end in a carriage return alone,
 and blanks at the start of a line, are kept apart from their neighbours

---
 source/core/csv/tokenizer.c | 48 ++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index df66b60..e9e2e19 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -861,29 +861,23 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
             break;
 
         case WHITESPACE_LINE:
-            if (IS_TERMINATOR(c)) {
+            if (IS_TERMINATOR(c) || IS_CARRIAGE(c)) {
+                // drop the blanks
+                slen = self->word_start;
+                stream = self->stream + slen;
                 self->file_lines++;
-                self->state = START_RECORD;
-                break;
-            } else if (IS_CARRIAGE(c)) {
-                self->file_lines++;
-                self->state = EAT_CRNL_NOP;
+                self->state = IS_TERMINATOR(c) ? START_RECORD : EAT_CRNL_NOP;
                 break;
             } else if (!self->delim_whitespace) {
                 if (isblank(c) && c != self->delimiter) {
-                } else { // backtrack
-                    // use i + 1 because buf has been incremented but not i
-                    do {
-                        --buf;
-                        --i;
-                    } while (i + 1 > self->datapos && !IS_TERMINATOR(*buf));
-
-                    // reached a newline rather than the beginning
-                    if (IS_TERMINATOR(*buf)) {
-                        ++buf; // move pointer to first char after newline
-                        ++i;
+                    if (!IS_SKIPPABLE_SPACE(c) || slen > self->word_start) {
+                        PUSH_CHAR(c);
                     }
-                    self->state = START_FIELD;
+                } else {
+                    // the blanks seen so far start a field: reread this character
+                    --buf;
+                    --i;
+                    self->state = slen > self->word_start ? IN_FIELD : START_FIELD;
                 }
                 break;
             }
@@ -917,8 +911,12 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
             } else if (should_skip) {
                 if (IS_QUOTE(c)) {
                     self->state = IN_QUOTED_FIELD_IN_SKIP_LINE;
+                } else if (IS_CARRIAGE(c)) {
+                    self->file_lines++;
+                    self->state = EAT_CRNL_NOP;
                 } else {
-                    self->state = IN_FIELD_IN_SKIP_LINE;
+                    self->state = IS_DELIMITER(c) ? START_FIELD_IN_SKIP_LINE
+                                                  : IN_FIELD_IN_SKIP_LINE;
 
                     if (IS_TERMINATOR(c)) {
                         END_LINE();
@@ -955,6 +953,9 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
                     }
                     break;
                 } else if (c != self->delimiter && self->skip_empty_lines) {
+                    if (!IS_SKIPPABLE_SPACE(c)) {
+                        PUSH_CHAR(c);
+                    }
                     self->state = WHITESPACE_LINE;
                     break;
                 }
@@ -1107,13 +1108,6 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
         case EAT_CRNL:
             if (c == '\n') {
                 END_LINE();
-            } else if (IS_DELIMITER(c)) {
-                if (self->delim_whitespace) {
-                    END_LINE_STATE(EAT_WHITESPACE);
-                } else {
-                    // Handle \r-delimited files
-                    END_LINE_AND_FIELD_STATE(START_FIELD);
-                }
             } else {
                 if (self->delim_whitespace) {
                     /* 
@@ -1150,7 +1144,7 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
         case EAT_CRNL_NOP: // inside an ignored comment line
             self->state = START_RECORD;
             // \r line terminator -- parse this character again
-            if (c != '\n' && !IS_DELIMITER(c)) {
+            if (c != '\n') {
                 --i;
                 --buf;
             }
-- 
2.43.0


From a8712a2bed53119aed08084182c3fb28b04363ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:03 +0000
Subject: [PATCH 059/116] fix: CSV files with nothing but empty lines are
 refused

---
 source/core/csv/read_csv.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/core/csv/read_csv.hpp b/source/core/csv/read_csv.hpp
index 5641876..f182e1d 100644
--- a/source/core/csv/read_csv.hpp
+++ b/source/core/csv/read_csv.hpp
@@ -178,6 +178,15 @@ inline da_status populate_data_array(csv_reader *csv, T **a, da_int *nrows, da_i
         fields_per_line_signed = (int64_t)(fields_per_line);
     }
 
+    if (fields_per_line == 0) {
+        // Every line is empty, or a line is shorter than the others
+        *nrows = 0;
+        *ncols = 0;
+        *a = nullptr;
+        return da_error(csv->err, da_status_parsing_error,
+                        "No data was found in the CSV file.");
+    }
+
     T *data;
     uint64_t n = fields_per_line * (lines - first_line);
     // Need calloc rather than new as this could be called from C code
-- 
2.43.0


From a918972839d06333821f726ed8178d6d8f13b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:08 +0000
Subject: [PATCH 060/116] fix: a byte order mark is only looked for in the
 first bytes of a CSV file, and only in bytes that were read

---
 source/core/csv/tokenizer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index e9e2e19..e426d82 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -751,7 +751,8 @@ static int parser_buffer_bytes(parser_t *self, size_t nbytes,
     TRACE(("_TOKEN_CLEANUP: datapos: %d, datalen: %d\n", self->datapos, self->datalen));
 
 #define CHECK_FOR_BOM()                                                                  \
-    if (*buf == '\xef' && *(buf + 1) == '\xbb' && *(buf + 2) == '\xbf') {                \
+    if (self->datalen - self->datapos >= 3 && *buf == '\xef' &&                           \
+        *(buf + 1) == '\xbb' && *(buf + 2) == '\xbf') {                                   \
         buf += 3;                                                                        \
         self->datapos += 3;                                                              \
     }
@@ -796,7 +797,7 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
 
     TRACE(("%s\n", buf));
 
-    if (self->file_lines == 0) {
+    if (self->file_lines == 0 && self->state == START_RECORD) {
         CHECK_FOR_BOM();
     }
 
-- 
2.43.0


From 651831fa4e81c44c088849c7cbfb04d2b543fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:11 +0000
Subject: [PATCH 061/116] fix: da_vector can be filled again after it was moved
 from, and takes its own elements

---
 source/core/utilities/da_vector.hpp | 41 +++++++++++++++++++----------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/source/core/utilities/da_vector.hpp b/source/core/utilities/da_vector.hpp
index 1d11090..5d91c56 100644
--- a/source/core/utilities/da_vector.hpp
+++ b/source/core/utilities/da_vector.hpp
@@ -124,7 +124,8 @@ template <typename T> class da_vector {
                 if (!_data) {
                     throw std::bad_alloc();
                 }
-                memcpy(_data, other._data, _size * sizeof(T));
+                if (_size > 0)
+                    memcpy(_data, other._data, _size * sizeof(T));
             }
         }
         return *this;
@@ -151,14 +152,19 @@ template <typename T> class da_vector {
 
     void push_back(const T &val) {
         if (_size == _capacity) {
-            _capacity <<= 1;
+            // val may be one of our own elements
+            const T val_copy = val;
+            grow_capacity(_size + 1);
             T *new_data = (T *)malloc(_capacity * sizeof(T));
             if (!new_data) {
                 throw std::bad_alloc(); // LCOV_EXCL_LINE
             }
-            memcpy(new_data, _data, _size * sizeof(T));
+            if (_size > 0)
+                memcpy(new_data, _data, _size * sizeof(T));
             free(_data);
             _data = new_data;
+            _data[_size++] = val_copy;
+            return;
         }
         _data[_size++] = val;
     }
@@ -166,29 +172,30 @@ template <typename T> class da_vector {
     // Append the values of vec onto the end of the vector
     void append(const da_vector<T> &vec) {
         if (_size + vec.size() > _capacity) {
-            while (_size + vec.size() > _capacity)
-                _capacity <<= 1;
+            grow_capacity(_size + vec.size());
             T *new_data = (T *)malloc(_capacity * sizeof(T));
             if (!new_data) {
                 throw std::bad_alloc(); // LCOV_EXCL_LINE
             }
-            memcpy(new_data, _data, _size * sizeof(T));
+            if (_size > 0)
+                memcpy(new_data, _data, _size * sizeof(T));
             free(_data);
             _data = new_data;
         }
-        memcpy(_data + _size, vec.data(), vec.size() * sizeof(T));
+        if (vec.size() > 0)
+            memcpy(_data + _size, vec.data(), vec.size() * sizeof(T));
         _size += vec.size();
     }
 
     void append(const std::vector<T> &vec) {
         if (_size + vec.size() > _capacity) {
-            while (_size + vec.size() > _capacity)
-                _capacity <<= 1;
+            grow_capacity(_size + vec.size());
             T *new_data = (T *)malloc(_capacity * sizeof(T));
             if (!new_data) {
                 throw std::bad_alloc(); // LCOV_EXCL_LINE
             }
-            memcpy(new_data, _data, _size * sizeof(T));
+            if (_size > 0)
+                memcpy(new_data, _data, _size * sizeof(T));
             free(_data);
             _data = new_data;
         }
@@ -200,8 +207,7 @@ template <typename T> class da_vector {
     void resize(size_t new_size) {
         if (new_size > _capacity) {
             // Need to grow capacity
-            while (_capacity < new_size)
-                _capacity <<= 1;
+            grow_capacity(new_size);
             T *new_data = (T *)malloc(_capacity * sizeof(T));
             if (!new_data) {
                 throw std::bad_alloc(); // LCOV_EXCL_LINE
@@ -222,8 +228,7 @@ template <typename T> class da_vector {
     // Reserve capacity without changing size
     void reserve(size_t new_capacity) {
         if (new_capacity > _capacity) {
-            while (_capacity < new_capacity)
-                _capacity <<= 1;
+            grow_capacity(new_capacity);
             T *new_data = (T *)malloc(_capacity * sizeof(T));
             if (!new_data) {
                 throw std::bad_alloc(); // LCOV_EXCL_LINE
@@ -240,6 +245,14 @@ template <typename T> class da_vector {
     }
 
   private:
+    // Double the capacity, which is zero after a move, until it is at least min_capacity
+    void grow_capacity(size_t min_capacity) {
+        if (_capacity == 0)
+            _capacity = INIT_CAPACITY;
+        while (_capacity < min_capacity)
+            _capacity <<= 1;
+    }
+
     T *_data;
     size_t _size;
     size_t _capacity;
-- 
2.43.0


From c8826421cca0a9735202b6c55ad15700ab48536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:11 +0000
Subject: [PATCH 062/116] fix: the LRU cache replaces keys that are stored
 again, keeps its columns after a refused put and can be resized

---
 source/core/utilities/da_cache.hpp | 37 +++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/source/core/utilities/da_cache.hpp b/source/core/utilities/da_cache.hpp
index a0428dd..6046c31 100644
--- a/source/core/utilities/da_cache.hpp
+++ b/source/core/utilities/da_cache.hpp
@@ -61,6 +61,18 @@ template <typename T> class LRUCache {
     da_int n_cols_free = 0;
     // free_col_idx - index of the next free column (it can work without it but, but left it for readability)
     da_int free_col_idx = 0;
+    // Columns that were given back, to be used before evicting any other
+    std::vector<T *> returned_cols_;
+
+    // Forget a key, if it is there, and give back its column
+    void forget(const da_int &key) {
+        auto it = cache_.find(key);
+        if (it == cache_.end())
+            return;
+        returned_cols_.emplace_back(it->second->second);
+        items_.erase(it->second);
+        cache_.erase(it);
+    }
 
     da_errors::da_error_t *err = nullptr;
 
@@ -110,9 +122,16 @@ template <typename T> class LRUCache {
         da_int target = std::min(n_requested, capacity_);
         free_pointers.reserve(target);
         omp_set_lock(&cache_lock_);
+        // Keys that are stored again are replaced
+        for (da_int i = 0; i < target; i++)
+            forget(key[i]);
         // Use free slots first
+        while ((da_int)free_pointers.size() < target && !returned_cols_.empty()) {
+            free_pointers.emplace_back(returned_cols_.back());
+            returned_cols_.pop_back();
+        }
         while ((da_int)free_pointers.size() < target && n_cols_free > 0) {
-            free_pointers.emplace_back(&data_[free_col_idx * len_]);
+            free_pointers.emplace_back(&data_[(size_t)free_col_idx * len_]);
             ++free_col_idx;
             --n_cols_free;
         }
@@ -137,18 +156,24 @@ template <typename T> class LRUCache {
                 n_failed++;
                 continue;
             }
-            const T *src = data + i * stride;
+            const T *src = data + (size_t)i * stride;
             for (da_int j = 0; j < len_; j++) {
                 free_pointers[i][j] = src[j];
             }
         }
         if (n_failed > 0) {
+            omp_set_lock(&cache_lock_);
+            returned_cols_.insert(returned_cols_.end(), free_pointers.begin(),
+                                  free_pointers.end());
+            omp_unset_lock(&cache_lock_);
             return da_error(this->err, da_status_invalid_pointer,
                             "One or more pointers in the value array were invalid. ");
         }
         // PART 3 - Update the doubly linked list to keep track of the order of usage (LRU policy)
         omp_set_lock(&cache_lock_);
         for (da_int i = 0; i < actual; i++) {
+            // A key given twice keeps its last value
+            forget(key[i]);
             // Add new item to the front
             items_.emplace_front(key[i], free_pointers[i]);
             cache_[key[i]] = items_.begin();
@@ -163,12 +188,18 @@ template <typename T> class LRUCache {
       * @param len Number of columns for a single row that is being held
       */
     da_status set_size(const da_int &capacity, const da_int &len) {
+        // Whatever was cached before is dropped
+        items_.clear();
+        cache_.clear();
+        returned_cols_.clear();
+        delete[] data_;
+        data_ = nullptr;
         capacity_ = capacity;
         len_ = len;
         active_ = (capacity_ > 0);
         if (active_) {
             try {
-                data_ = new T[capacity * len];
+                data_ = new T[(size_t)capacity * len];
             } catch (std::bad_alloc &) {
                 return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                                 "Failed to allocate memory for cache.");
-- 
2.43.0


From d2a10a08c1f4abfd847990d38cfdf9668de41900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:11 +0000
Subject: [PATCH 063/116] fix: a refused model file leaves no half-loaded model
 in the handle; saving a handle without a model is refused

---
 source/core/utilities/da_handle.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/source/core/utilities/da_handle.cpp b/source/core/utilities/da_handle.cpp
index 29d7e1c..edd967c 100644
--- a/source/core/utilities/da_handle.cpp
+++ b/source/core/utilities/da_handle.cpp
@@ -66,6 +66,10 @@ da_status _da_handle::save_handle(std::vector<char> &buffer_data) {
     if (status != da_status_success)
         return status;
 
+    if (this->alg_handle_s == nullptr && this->alg_handle_d == nullptr)
+        return da_error(this->err, da_status_handle_not_initialized,
+                        "The handle does not contain a model to save.");
+
     if (this->precision == da_single) {
         status = this->alg_handle_s->save_model(buffer);
     } else if (this->precision == da_double) {
@@ -118,20 +122,28 @@ da_status _da_handle::load_handle(da_handle &handle, const char *buffer_data,
         if (status != da_status_success)
             return status;
 
-        status = handle->alg_handle_s->load_model(buffer);
+        status = handle->alg_handle_s != nullptr
+                     ? handle->alg_handle_s->load_model(buffer)
+                     : da_status_invalid_file_data;
     } else if (precision == (da_int)sizeof(double)) {
         status = da_handle_init_d(&handle, buffer.get_handle_type());
         if (status != da_status_success)
             return status;
 
-        status = handle->alg_handle_d->load_model(buffer);
+        status = handle->alg_handle_d != nullptr
+                     ? handle->alg_handle_d->load_model(buffer)
+                     : da_status_invalid_file_data;
+    } else {
+        return da_status_invalid_file_data;
     }
 
-    if (status != da_status_success ||
-        (handle->alg_handle_s == nullptr && handle->alg_handle_d == nullptr)) {
-        da_status return_status =
-            status != da_status_success ? status : da_status_invalid_file_data;
-        return da_error_trace(handle->err, return_status, "Failure deserializing model.");
+    if (status != da_status_success) {
+        // Do not leave a partially loaded model behind in the handle
+        delete handle->alg_handle_s;
+        handle->alg_handle_s = nullptr;
+        delete handle->alg_handle_d;
+        handle->alg_handle_d = nullptr;
+        return da_error_trace(handle->err, status, "Failure deserializing model.");
     }
 
     return status;
-- 
2.43.0


From dc372a025daf211787cd06abaad1ba0a216ad761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:51 +0000
Subject: [PATCH 064/116] fix: loading validates what the model file says:
 enumerators, option values, trees and index structures must be consistent

---
 .../forest/decision_forest.cpp                |  7 +++
 .../decision_forest/tree/decision_tree.hpp    |  3 +
 .../tree/decision_tree_handle_utilities.hpp   | 31 ++++++++++
 source/core/nearest_neighbors/binary_tree.cpp | 61 ++++++++++++++++++-
 source/core/nearest_neighbors/binary_tree.hpp | 10 ++-
 .../nearest_neighbors/nearest_neighbors.cpp   | 56 +++++++++++++++++
 .../nearest_neighbors/nearest_neighbors.hpp   |  2 +
 source/core/utilities/model_persistence.cpp   | 46 ++++++++++++++
 source/core/utilities/options.hpp             | 19 +++++-
 9 files changed, 229 insertions(+), 6 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest.cpp b/source/core/decision_forest/forest/decision_forest.cpp
index f3ab69f..9a8dc02 100644
--- a/source/core/decision_forest/forest/decision_forest.cpp
+++ b/source/core/decision_forest/forest/decision_forest.cpp
@@ -43,6 +43,9 @@ da_status decision_forest<T>::forest_serialization(
     da_status status = da_status_success;
 
     if (buffer.get_mode() == deserialize) {
+        if (!this->model_trained || this->n_tree <= 0 || this->n_features <= 0 ||
+            this->n_class <= 0 || this->block_size <= 0)
+            return da_status_invalid_file_data;
         try {
             this->forest.resize(n_tree);
             for (da_int i = 0; i < this->n_tree; ++i) {
@@ -58,6 +61,10 @@ da_status decision_forest<T>::forest_serialization(
         if (status != da_status_success)
             return status;
         status = this->forest[i]->serialize(buffer);
+        if (status == da_status_success && buffer.get_mode() == deserialize &&
+            (this->forest[i]->get_n_features() != this->n_features ||
+             this->forest[i]->get_n_class() != this->n_class))
+            status = da_status_invalid_file_data;
     }
     return status;
 }
diff --git a/source/core/decision_forest/tree/decision_tree.hpp b/source/core/decision_forest/tree/decision_tree.hpp
index c17dd93..fa73fc2 100644
--- a/source/core/decision_forest/tree/decision_tree.hpp
+++ b/source/core/decision_forest/tree/decision_tree.hpp
@@ -245,6 +245,7 @@ template <typename T> class decision_tree : public basic_handle<T> {
     da_int max_threads = 0;
 
     da_status tree_serialization(da_model_persistence::serialization_buffer &buffer);
+    da_status check_loaded_tree() const;
 
   public:
     // Constructor for public interfaces
@@ -363,6 +364,8 @@ template <typename T> class decision_tree : public basic_handle<T> {
     std::vector<da_int> const &get_features_idx();
     std::vector<split_workspace<T>> const &get_thread_workspaces();
     bool model_is_trained();
+    da_int get_n_features() const { return n_features; }
+    da_int get_n_class() const { return n_class; }
     std::vector<node<T>> const &get_tree();
     da_int get_n_leaves() { return n_leaves; }
     // Setters for testing purposes
diff --git a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
index b57e1fc..175f5b6 100644
--- a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
+++ b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
@@ -312,6 +312,34 @@ decision_tree<T>::tree_serialization(da_model_persistence::serialization_buffer
     return status;
 }
 
+/* Check that the members read from a saved model are consistent with one another, so that
+ * prediction cannot leave the arrays of the model or cycle among the nodes.
+ * Nodes are stored after their parents. */
+template <typename T> da_status decision_tree<T>::check_loaded_tree() const {
+    if (!this->model_trained || n_samples <= 0 || n_features <= 0 || n_class <= 0 ||
+        n_nodes != (da_int)tree.size())
+        return da_status_invalid_file_data;
+
+    if (predict_proba_opt &&
+        class_props.size() / (size_t)n_class < (size_t)n_nodes)
+        return da_status_invalid_file_data;
+
+    for (da_int i = 0; i < n_nodes; ++i) {
+        const node<T> &nd = tree[i];
+        if (nd.y_pred < 0 || nd.y_pred >= n_class)
+            return da_status_invalid_file_data;
+        if (nd.is_leaf)
+            continue;
+        if (nd.left_child_idx <= i || nd.left_child_idx >= n_nodes ||
+            nd.right_child_idx <= i || nd.right_child_idx >= n_nodes || nd.feature < 0 ||
+            nd.feature >= n_features ||
+            (nd.prop != continuous && nd.prop != categorical_ordered &&
+             nd.prop != categorical_onevall))
+            return da_status_invalid_file_data;
+    }
+    return da_status_success;
+}
+
 /* Model persistence functions */
 template <typename T>
 da_status decision_tree<T>::serialize(serialization_buffer &buffer) {
@@ -358,6 +386,9 @@ da_status decision_tree<T>::serialize(serialization_buffer &buffer) {
 
     status = tree_serialization(buffer);
 
+    if (status == da_status_success && buffer.get_mode() == deserialize)
+        status = check_loaded_tree();
+
     return status;
 }
 
diff --git a/source/core/nearest_neighbors/binary_tree.cpp b/source/core/nearest_neighbors/binary_tree.cpp
index d843656..f637aec 100644
--- a/source/core/nearest_neighbors/binary_tree.cpp
+++ b/source/core/nearest_neighbors/binary_tree.cpp
@@ -72,6 +72,12 @@ template <typename T>
 ball_node<T>::ball_node(da_int depth, da_int *indices, da_int n_indices)
     : node<T>(depth, indices, n_indices), centroid(std::vector<T>()), radius((T)0.0) {}
 
+template <typename T>
+bool ball_node<T>::is_consistent([[maybe_unused]] da_int n_samples,
+                                 da_int n_features) const {
+    return this->centroid.size() == (size_t)n_features;
+}
+
 template <typename T>
 da_status ball_node<T>::serialize(da_model_persistence::serialization_buffer &buffer) {
     da_status status = this->node<T>::serialize(buffer);
@@ -104,6 +110,14 @@ kd_node<T>::kd_node(da_int dim, da_int depth, da_int *indices, da_int n_indices)
     : node<T>(depth, indices, n_indices), dim(dim), min_bounds(std::vector<T>()),
       max_bounds(std::vector<T>()) {}
 
+template <typename T>
+bool kd_node<T>::is_consistent(da_int n_samples, da_int n_features) const {
+    return this->min_bounds.size() == (size_t)n_features &&
+           this->max_bounds.size() == (size_t)n_features &&
+           (this->is_leaf || (this->dim >= 0 && this->dim < n_features &&
+                              this->point >= 0 && this->point < n_samples));
+}
+
 template <typename T>
 da_status kd_node<T>::serialize(da_model_persistence::serialization_buffer &buffer) {
     da_status status = this->node<T>::serialize(buffer);
@@ -500,7 +514,8 @@ const std::vector<da_int> &binary_tree<Derived, NodeType>::get_indices() {
 
 template <typename Derived, typename NodeType>
 da_status binary_tree<Derived, NodeType>::tree_serialization(
-    da_model_persistence::serialization_buffer &buffer, std::shared_ptr<NodeType> &node) {
+    da_model_persistence::serialization_buffer &buffer, std::shared_ptr<NodeType> &node,
+    const NodeType *parent) {
     da_status status = da_status_success;
     bool node_exists = (node != nullptr);
 
@@ -546,11 +561,33 @@ da_status binary_tree<Derived, NodeType>::tree_serialization(
     if (status != da_status_success)
         return status;
 
-    status = tree_serialization(buffer, node->left_child);
+    if (buffer.get_mode() == da_model_persistence::buffer_mode::deserialize) {
+        // The node must cover a part of the indices, strictly inside its parent's part
+        const da_int n_total = (da_int)this->indices.size();
+        if (node->n_indices < 0 || node->n_indices > n_total - offset ||
+            !node->is_consistent(this->n_samples, this->n_features))
+            return da_status_invalid_file_data;
+        if (parent != nullptr) {
+            const da_int parent_offset = (da_int)(parent->indices - this->indices.data());
+            if (node->n_indices >= parent->n_indices || offset < parent_offset ||
+                offset + node->n_indices > parent_offset + parent->n_indices)
+                return da_status_invalid_file_data;
+        }
+    }
+
+    status = tree_serialization(buffer, node->left_child, node.get());
     if (status != da_status_success)
         return status;
 
-    return tree_serialization(buffer, node->right_child);
+    status = tree_serialization(buffer, node->right_child, node.get());
+    if (status != da_status_success)
+        return status;
+
+    if (buffer.get_mode() == da_model_persistence::buffer_mode::deserialize &&
+        !node->is_leaf && (node->left_child == nullptr || node->right_child == nullptr))
+        return da_status_invalid_file_data;
+
+    return da_status_success;
 }
 
 template <typename Derived, typename NodeType>
@@ -575,11 +612,29 @@ da_status binary_tree<Derived, NodeType>::serialize(
     io_dispatch(this->n_features);
     io_dispatch(this->n_samples);
 
+    if (status != da_status_success)
+        return status;
+
     status = this->tree_serialization(buffer, this->root);
 
     return status;
 }
 
+template <typename Derived, typename NodeType>
+bool binary_tree<Derived, NodeType>::is_consistent(da_int n_samples_in,
+                                                   da_int n_features_in) const {
+    if (this->root == nullptr || this->n_samples != n_samples_in ||
+        this->n_features != n_features_in ||
+        this->indices.size() != (size_t)n_samples_in ||
+        (this->metric == da_euclidean_gemm && this->A_norms.size() < (size_t)n_samples_in))
+        return false;
+    for (da_int index : this->indices) {
+        if (index < 0 || index >= n_samples_in)
+            return false;
+    }
+    return true;
+}
+
 template struct node<double>;
 template struct node<float>;
 
diff --git a/source/core/nearest_neighbors/binary_tree.hpp b/source/core/nearest_neighbors/binary_tree.hpp
index 1d150d0..5cedf30 100644
--- a/source/core/nearest_neighbors/binary_tree.hpp
+++ b/source/core/nearest_neighbors/binary_tree.hpp
@@ -86,6 +86,8 @@ template <typename T> struct kd_node : public node<T> {
     kd_node() = default;
 
     da_status serialize(da_model_persistence::serialization_buffer &buffer);
+    // Check the members read from a saved model against the size of the training data
+    bool is_consistent(da_int n_samples, da_int n_features) const;
 };
 
 /* Node structure for the ball tree class - needs to be here to enable instantiation */
@@ -108,6 +110,8 @@ template <typename T> struct ball_node : public node<T> {
     ball_node() = default;
 
     da_status serialize(da_model_persistence::serialization_buffer &buffer);
+    // Check the members read from a saved model against the size of the training data
+    bool is_consistent(da_int n_samples, da_int n_features) const;
 };
 
 // Lightweight partial MaxHeap implementation to keep track of tree searches
@@ -165,6 +169,9 @@ template <typename Derived, typename NodeType> class binary_tree {
 
     da_status serialize(da_model_persistence::serialization_buffer &buffer);
 
+    // Check a tree read from a saved model against the size of the training data
+    bool is_consistent(da_int n_samples, da_int n_features) const;
+
   protected:
     // Internal functions used in tree construction and tree traversal to find neighbors
 
@@ -205,7 +212,8 @@ template <typename Derived, typename NodeType> class binary_tree {
 
   private:
     da_status tree_serialization(da_model_persistence::serialization_buffer &buffer,
-                                 std::shared_ptr<NodeType> &node);
+                                 std::shared_ptr<NodeType> &node,
+                                 const NodeType *parent = nullptr);
     template <bool ReturnDistances>
     da_status radius_neighbors_loop(da_int m_samples, const T *X, da_int ldx, T eps,
                                     T eps_internal,
diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 7213fa2..8817b8a 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -2445,9 +2445,65 @@ template <typename T> da_status neighbors<T>::serialize(serialization_buffer &bu
         if (status != da_status_success)
             return status;
     }
+
+    if (buffer.get_mode() == deserialize && !this->loaded_model_is_consistent())
+        return da_error(this->err, da_status_invalid_file_data,
+                        "The saved model is not consistent.");
+
     return status;
 }
 
+template <typename T> bool neighbors<T>::loaded_model_is_consistent() const {
+    const size_t n = (size_t)this->n_samples;
+    if (!this->istrained_Xtrain || this->n_samples <= 0 || this->n_features <= 0 ||
+        this->X_int.size() / (size_t)this->n_features != n ||
+        this->X_int.size() % (size_t)this->n_features != 0)
+        return false;
+    if (this->order != column_major && this->order != row_major)
+        return false;
+
+    // Labels and targets
+    if ((this->y_train_class_int.size() != 0 && this->y_train_class_int.size() != n) ||
+        (this->y_train_reg_int.size() != 0 && this->y_train_reg_int.size() != n) ||
+        (this->istrained_labels && this->y_train_class_int.size() != n) ||
+        (this->istrained_targets && this->y_train_reg_int.size() != n))
+        return false;
+    if (this->classes_computed && (!this->istrained_labels || this->classes.empty() ||
+                                   (size_t)this->n_classes != this->classes.size()))
+        return false;
+    if (this->manual_outlier_label_checked &&
+        (this->manual_label_index < -1 ||
+         this->manual_label_index >= (da_int)this->classes.size()))
+        return false;
+
+    // Search trees
+    if ((this->internal_kd_tree &&
+         !this->internal_kd_tree->is_consistent(this->n_samples, this->n_features)) ||
+        (this->internal_ball_tree &&
+         !this->internal_ball_tree->is_consistent(this->n_samples, this->n_features)))
+        return false;
+
+    // Results of the radius search
+    if (this->model_trained) {
+        const size_t n_queries = this->radius_neighbors_count.size();
+        if (this->radius_neighbors_indices.size() != n_queries ||
+            (this->rnn_return_distances &&
+             this->radius_neighbors_distances.size() != n_queries) ||
+            this->radius_neighbors_distances.size() > n_queries)
+            return false;
+        for (size_t i = 0; i < n_queries; i++) {
+            if (this->radius_neighbors_count[i] < 0 ||
+                (size_t)this->radius_neighbors_count[i] !=
+                    (size_t)this->radius_neighbors_indices[i].size() ||
+                (this->rnn_return_distances &&
+                 (size_t)this->radius_neighbors_distances[i].size() !=
+                     (size_t)this->radius_neighbors_count[i]))
+                return false;
+        }
+    }
+    return true;
+}
+
 template <typename T> da_status neighbors<T>::save_model(serialization_buffer &buffer) {
 
     if (!this->istrained_Xtrain) {
diff --git a/source/core/nearest_neighbors/nearest_neighbors.hpp b/source/core/nearest_neighbors/nearest_neighbors.hpp
index 065278a..2a2e1b5 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.hpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.hpp
@@ -229,6 +229,8 @@ template <typename T> class neighbors : public basic_handle<T> {
                                                  T *neighbors_distances);
 
     da_status serialize(da_model_persistence::serialization_buffer &buffer) override;
+    // Check that the members read from a saved model are consistent with one another
+    bool loaded_model_is_consistent() const;
     da_status save_model(da_model_persistence::serialization_buffer &buffer) override;
     da_status load_model(da_model_persistence::serialization_buffer &buffer) override;
 
diff --git a/source/core/utilities/model_persistence.cpp b/source/core/utilities/model_persistence.cpp
index 7851510..7e753ec 100644
--- a/source/core/utilities/model_persistence.cpp
+++ b/source/core/utilities/model_persistence.cpp
@@ -36,6 +36,7 @@
 #include <cstring>
 #include <fstream>
 #include <iomanip>
+#include <limits>
 #include <iostream>
 #include <limits>
 #include <new>
@@ -298,6 +299,43 @@ template <typename T> da_status serialization_buffer::serialize_data(const T &da
 
 // LOADING KERNELS
 
+// Whether a value read from a file is one of the enumerators of the enum T.
+template <typename T> static bool is_enumerator(int_save_t val) {
+    int_save_t last = -1;
+    if constexpr (std::is_same_v<T, da_order>)
+        last = column_major;
+    else if constexpr (std::is_same_v<T, da_svm_model>)
+        last = nusvr;
+    else if constexpr (std::is_same_v<T, da_metric>)
+        last = da_inner_product;
+    else if constexpr (std::is_same_v<T, linmod_model>)
+        last = linmod_model_logistic;
+    else if constexpr (std::is_same_v<T, logistic_constraint>)
+        last = ssc;
+    else if constexpr (std::is_same_v<T, split_property>)
+        last = categorical_onevall;
+    else if constexpr (std::is_same_v<T, approx_nn_metric>)
+        last = approx_nn_metric::cosine;
+    else if constexpr (std::is_same_v<T, da_handle_type>)
+        last = da_handle_tsne;
+    else {
+        static_assert(std::is_same_v<T, linmod_method>, "Unsupported enum type.");
+        switch (val) {
+        case linmod_method::undefined:
+        case linmod_method::lbfgsb:
+        case linmod_method::coord:
+        case linmod_method::svd:
+        case linmod_method::cholesky:
+        case linmod_method::cg:
+        case linmod_method::qr:
+            return true;
+        default:
+            return false;
+        }
+    }
+    return val >= 0 && val <= last;
+}
+
 template <typename Container>
 da_status serialization_buffer::deserialize_container_impl(Container &data) {
     da_status status = da_status_success;
@@ -346,6 +384,14 @@ template <typename T> da_status serialization_buffer::deserialize_data(T &data)
         // Read normalized on-disk representation and cast to runtime type.
         std::memcpy(&val, this->read_ptr + this->offset, sizeof(SavedT));
         this->offset += sizeof(SavedT);
+        if constexpr (std::is_enum_v<T>) {
+            if (!is_enumerator<T>(val))
+                return da_status_invalid_file_data;
+        } else if constexpr (std::is_same_v<T, da_int>) {
+            if (val < static_cast<SavedT>(std::numeric_limits<da_int>::min()) ||
+                val > static_cast<SavedT>(std::numeric_limits<da_int>::max()))
+                return da_status_invalid_file_data;
+        }
         data = static_cast<T>(val);
     } else if constexpr (is_valid_container<T>) {
         return deserialize_container_impl(data);
diff --git a/source/core/utilities/options.hpp b/source/core/utilities/options.hpp
index b04f89f..7206bd2 100644
--- a/source/core/utilities/options.hpp
+++ b/source/core/utilities/options.hpp
@@ -517,7 +517,14 @@ template <typename T> class OptionNumeric : public OptionBase {
         return buffer.serialize_data(this->value);
     }
     da_status deserialize_option(da_model_persistence::serialization_buffer &buffer) {
-        return buffer.deserialize_data(this->value);
+        T saved_value;
+        da_status status = buffer.deserialize_data(saved_value);
+        if (status != da_status_success)
+            return status;
+        // A value that could not have been set is not loaded either
+        if (set(saved_value, OptionNumeric::setby) != da_status_success)
+            return da_status_invalid_file_data;
+        return da_status_success;
     }
 
     size_t serialized_size() { return da_model_persistence::get_type_size(this->value); }
@@ -761,7 +768,15 @@ class OptionString : public OptionBase {
         return buffer.serialize_data(this->value);
     }
     da_status deserialize_option(da_model_persistence::serialization_buffer &buffer) {
-        return buffer.deserialize_data(this->value);
+        string saved_value;
+        da_status status = buffer.deserialize_data(saved_value);
+        if (status != da_status_success)
+            return status;
+        // A value that could not have been set is not loaded either
+        if (labels.size() != 0 && labels.find(saved_value) == labels.end())
+            return da_status_invalid_file_data;
+        OptionString::value = saved_value;
+        return da_status_success;
     }
 
     size_t serialized_size() { return da_model_persistence::get_type_size(this->value); }
-- 
2.43.0


From 33f99ad2bd219d4156305a365f17505097fd515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:37 +0000
Subject: [PATCH 065/116] fix: forest inference works with any block size:
 buffers are no larger than the samples

---
 .../forest/decision_forest_inference.hpp           | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest_inference.hpp b/source/core/decision_forest/forest/decision_forest_inference.hpp
index 10f459e..2468c1d 100644
--- a/source/core/decision_forest/forest/decision_forest_inference.hpp
+++ b/source/core/decision_forest/forest/decision_forest_inference.hpp
@@ -95,11 +95,14 @@ da_status decision_forest<T>::predict(da_int nsamp, da_int nfeat, const T *X_tes
     if (status != da_status_success)
         return status;
 
-    if (this->opts.get("block size", block_size) != da_status_success)
+    if (this->opts.get("block size", this->block_size) != da_status_success)
         return da_error_trace( // LCOV_EXCL_LINE
             this->err, da_status_internal_error,
             "Unexpected error while reading the optional parameter 'block size' .");
 
+    // Blocks never need to hold more than all the samples
+    const da_int block_size = std::min(this->block_size, nsamp);
+
     // Set up the parallel tasks and data. X is divided into blocks of small size
     // evaluating 1 tree on one of X's blocks is considered an independent task that
     // can be evaluated in parallel.
@@ -184,6 +187,8 @@ da_status decision_forest<T>::predict_proba(da_int nsamp, da_int nfeat, const T
     }
 
     std::vector<T> sum_proba, y_proba_tree;
+    // Blocks never need to hold more than all the samples
+    const da_int block_size = std::min(this->block_size, nsamp);
     da_int n_blocks, block_rem;
     da_utils::blocking_scheme(nsamp, block_size, n_blocks, block_rem);
     da_int n_threads = da_utils::get_n_threads_loop(n_blocks * n_tree);
@@ -197,7 +202,7 @@ da_status decision_forest<T>::predict_proba(da_int nsamp, da_int nfeat, const T
 
 #pragma omp parallel for collapse(2)                                                     \
     shared(sum_proba, nsamp, nfeat, X_test_temp, ldx_test_temp, n_blocks, block_rem,     \
-               y_proba_tree, n_threads) default(none)
+               y_proba_tree, n_threads, block_size) default(none)
     for (da_int i_block = 0; i_block < n_blocks; i_block++) {
         for (auto &tree : forest) {
             da_int start_idx = i_block * block_size;
@@ -313,11 +318,14 @@ da_status decision_forest<T>::score(da_int nsamp, da_int nfeat, const T *X_test,
         return status;
     }
 
-    if (this->opts.get("block size", block_size) != da_status_success)
+    if (this->opts.get("block size", this->block_size) != da_status_success)
         return da_error_trace( // LCOV_EXCL_LINE
             this->err, da_status_internal_error,
             "Unexpected error while reading the optional parameter 'block size' .");
 
+    // Blocks never need to hold more than all the samples
+    const da_int block_size = std::min(this->block_size, nsamp);
+
     std::vector<da_int> count_classes, y_pred_tree;
     da_int n_blocks, block_rem;
     da_utils::blocking_scheme(nsamp, block_size, n_blocks, block_rem);
-- 
2.43.0


From 4decaa61f58679c7b44a4107f51f20e2deba74a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:37 +0000
Subject: [PATCH 066/116] fix: a forest is loaded tree by tree instead of
 allocating the number of trees a file claims

---
 .../forest/decision_forest.cpp                | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest.cpp b/source/core/decision_forest/forest/decision_forest.cpp
index 9a8dc02..7b43cd8 100644
--- a/source/core/decision_forest/forest/decision_forest.cpp
+++ b/source/core/decision_forest/forest/decision_forest.cpp
@@ -46,20 +46,21 @@ da_status decision_forest<T>::forest_serialization(
         if (!this->model_trained || this->n_tree <= 0 || this->n_features <= 0 ||
             this->n_class <= 0 || this->block_size <= 0)
             return da_status_invalid_file_data;
-        try {
-            this->forest.resize(n_tree);
-            for (da_int i = 0; i < this->n_tree; ++i) {
-                this->forest[i] = std::make_unique<decision_tree<T>>();
-            }
-        } catch (std::bad_alloc const &) {
-            return da_error(this->err, da_status_memory_error,
-                            "Failing to allocate enough memory."); // LCOV_EXCL_LINE
-        }
+        this->forest.clear();
     }
 
     for (da_int i = 0; i < this->n_tree; ++i) {
         if (status != da_status_success)
             return status;
+        if (buffer.get_mode() == deserialize) {
+            // One at a time: the number of trees is not to be trusted before they are read
+            try {
+                this->forest.push_back(std::make_unique<decision_tree<T>>());
+            } catch (std::bad_alloc const &) {
+                return da_error(this->err, da_status_memory_error,
+                                "Failing to allocate enough memory."); // LCOV_EXCL_LINE
+            }
+        }
         status = this->forest[i]->serialize(buffer);
         if (status == da_status_success && buffer.get_mode() == deserialize &&
             (this->forest[i]->get_n_features() != this->n_features ||
-- 
2.43.0


From 8170a8855a918bc280587c518884ac905b85010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:20 +0000
Subject: [PATCH 067/116] fix: saving a model reports a write error that only
 shows when the file is closed

---
 source/core/utilities/da_handle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/utilities/da_handle.cpp b/source/core/utilities/da_handle.cpp
index edd967c..3f38c6c 100644
--- a/source/core/utilities/da_handle.cpp
+++ b/source/core/utilities/da_handle.cpp
@@ -101,6 +101,10 @@ da_status _da_handle::save_handle(const std::string &file_name) {
                         "Failed to write to file.");   // LCOV_EXCL_LINE
     }
     file.close();
+    if (!file) {
+        return da_error(this->err, da_status_io_error, // LCOV_EXCL_LINE
+                        "Failed to write to file.");   // LCOV_EXCL_LINE
+    }
 
     return status;
 }
-- 
2.43.0


From 90ddb52f51f724b1752790423e1c498e2d706c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:38 +0000
Subject: [PATCH 068/116] fix: a tree is loaded node by node instead of
 allocating the number of nodes a file claims

---
 .../tree/decision_tree_handle_utilities.hpp    | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
index 175f5b6..586589f 100644
--- a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
+++ b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
@@ -295,18 +295,22 @@ decision_tree<T>::tree_serialization(da_model_persistence::serialization_buffer
         if (this->n_nodes <= 0)
             return da_status_invalid_file_data;
 
-        try {
-            this->tree.resize(this->n_nodes);
-        } catch (std::bad_alloc const &) {
-            return da_error_bypass(
-                this->err, da_status_memory_error,
-                "Failing to allocate enough memory."); // LCOV_EXCL_LINE
-        }
+        this->tree.clear();
     }
 
     for (da_int i = 0; i < this->n_nodes; ++i) {
         if (status != da_status_success)
             return status;
+        if (buffer.get_mode() == deserialize) {
+            // One at a time: the number of nodes is not to be trusted before they are read
+            try {
+                this->tree.emplace_back();
+            } catch (std::bad_alloc const &) {
+                return da_error_bypass(
+                    this->err, da_status_memory_error,
+                    "Failing to allocate enough memory."); // LCOV_EXCL_LINE
+            }
+        }
         status = this->tree[i].serialize(buffer);
     }
     return status;
-- 
2.43.0


From 5db858f4739c937f9f4090e5f635cbc164c47f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 069/116] fix: RALFit C interface: associate the
 Hessian-product callback and pass its dimensions by value

---
 external/RALFit/libRALFit/src/ral_nlls_ciface.F90 | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_ciface.F90 b/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
index 04f8801..53dee95 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
@@ -175,7 +175,7 @@ module MODULE_PREC(ral_nlls_ciface)
        use, intrinsic :: iso_c_binding
        use :: MODULE_PREC(ral_nlls_types)
        implicit none
-       integer(ral_c_int) :: n,m
+       integer(ral_c_int), value :: n,m
        real(ral_c_real), dimension(*), intent(in)  :: x
        real(ral_c_real), dimension(*), intent(in)  :: y
        real(ral_c_real), dimension(*), intent(out) :: hp
@@ -535,7 +535,7 @@ subroutine IFACE_PREC(nlls_solve)(n, m, cx, r, j, hf,  params, coptions, cinform
 
   logical :: f_arrays
   logical :: lb_sent_in, ub_sent_in, w_sent_in
-  logical :: hp_sent_in = .false.
+  logical :: hp_sent_in
 
   ! copy data in and associate pointers correctly
   call copy_options_in(coptions, foptions, f_arrays)
@@ -555,7 +555,12 @@ subroutine IFACE_PREC(nlls_solve)(n, m, cx, r, j, hf,  params, coptions, cinform
   endif
 
   fparams%params = params
-  if (C_ASSOCIATED(hp)) hp_sent_in = .true.
+  hp_sent_in = .false.
+  nullify(fparams%hp)
+  if (C_ASSOCIATED(hp)) then
+    call c_f_procpointer(hp, fparams%hp)
+    hp_sent_in = .true.
+  end if
 
   ! the following steps for passing optional arguments
   ! requires a compiler compatible with Fortran 2008+TS29113
-- 
2.43.0


From af21275196c8349481dcd4fe25cdef4426b01a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:53 +0000
Subject: [PATCH 070/116] fix: nlls: cubic regularization is applied as
 documented (it used the quadratic term) and is safe at the origin

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 12 ++++++++----
 source/core/drivers/ralfit_driver.hpp               |  4 +++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index 5d0e98c..4a55c1d 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -3075,10 +3075,12 @@ lp:  do i = 1, options%more_sorensen_maxits
        case (2)
           normx = norm2(X(1:n))
           xtd = dot_product(X(1:n),d(1:n))
-          md_gn = md_gn + &
-               sigma * ( 1.0_wp/p * (normx**p) + &
-               (normx**(p-2.0_wp)) * xtd + &
-               (p/4.0_wp) * (normx**(p-4.0_wp)) * (xtd**2) )
+          if (normx > epsmch) then
+             md_gn = md_gn + &
+                  sigma * ( 1.0_wp/p * (normx**p) + &
+                  (normx**(p-2.0_wp)) * xtd + &
+                  (p/4.0_wp) * (normx**(p-4.0_wp)) * (xtd**2) )
+          end if
        end select
 
        select case (options%model)
@@ -3239,6 +3241,7 @@ lp:  do i = 1, options%more_sorensen_maxits
           p = options%regularization_power
           sigma = options%regularization_term
           normx = norm2(X(1:n))
+          if (normx <= epsmch) return
           do ii = 1,n
              do jj = 1,n
                 hf_local = x(ii)*x(jj)
@@ -4747,6 +4750,7 @@ lp:    do i = 1, w%tensor_options%maxit
         call mult_Jt(w%J,n,m,w%fnew,w%g,options%Fortran_Jacobian)
         w%g(:) = -w%g(:)
         if ( options%regularization > 0 ) Then
+          normx = norm2(w%xnew(1:n))
           call update_regularized_gradient(w%g,w%Xnew,normX,options)
         End If
 
diff --git a/source/core/drivers/ralfit_driver.hpp b/source/core/drivers/ralfit_driver.hpp
index c770deb..73f07d2 100644
--- a/source/core/drivers/ralfit_driver.hpp
+++ b/source/core/drivers/ralfit_driver.hpp
@@ -422,7 +422,9 @@ da_status copy_options_to_ralfit(da_options::OptionRegistry &opts,
 
     // Set up automatic options
     if (reg_term > 0)
-        options.regularization = 1; // type 1 but can also be of type 2
+        // type 1 is quadratic, type 2 takes the power into account
+        options.regularization =
+            ireg_power == da_optim_types::regularization::cubic ? 2 : 1;
     // Exact second derivative -> user provided HF?
     options.exact_second_derivatives = ok_eval_HF;
 
-- 
2.43.0


From 3bf7dcfb225667721072b976b54ea74e3b39e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:53 +0000
Subject: [PATCH 071/116] fix: RALFit: the projected gradient line search never
 evaluates outside of the bounds by a rounding error

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index 4a55c1d..fcf83fd 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -4921,6 +4921,10 @@ lp:    do i = 1, w%tensor_options%maxit
         End If
 armijo: Do
           xnew(1:n) = x(1:n) + alpha*box_ws%pdir(1:n)
+!         Rounding of the sum can leave the box
+          If (box_ws%has_box) Then
+            xnew(1:n) = max(min(box_ws%bux(1:n), xnew(1:n)), box_ws%blx(1:n))
+          End If
           evalok = .True.
           falpn = infinity
 !         ======================================================================
-- 
2.43.0


From c2e9ecd2b0dc28056b3fa046a61b8f99f585d7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:53 +0000
Subject: [PATCH 072/116] fix: RALFit: a step that increases the objective is
 not accepted because the model predicts an increase too

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index fcf83fd..fb8c01f 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -3136,6 +3136,11 @@ lp:  do i = 1, options%more_sorensen_maxits
           rho = 1.0_wp
        else
           rho = actual_reduction / predicted_reduction
+          ! A poor step for which the model also predicts an increase is not a good one
+          if ( predicted_reduction < 0.0_wp .and. &
+               actual_reduction < -tol * max(1.0_wp, 0.5_wp * normf**2) ) then
+             rho = -rho
+          end if
        end if
 
        If (buildmsg(5,.False.,options)) Then
-- 
2.43.0


From 3f516acdd4c45f1ebe343eb84137498806688a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:53 +0000
Subject: [PATCH 073/116] fix: RALFit: the fall-back between subproblem solvers
 ends when all of them failed

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index fb8c01f..2a8bab0 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -1443,7 +1443,10 @@ lp: do while (.not. success)
              ! If we're using a method for the second time, or
              ! we're not allowing a fallback, then bail with an
              ! appropiate exit code
+             ! The fall-back sequence may not come back to the method it started with
+             ! (dogleg is left out when second derivatives are used)
              if ( (subproblem_method == options%nlls_method) .or. &
+                  (num_methods_tried >= 4) .or. &
                   (.not. options%allow_fallback_method)) Then
                   ! Force no progress error if fall-back was tried otherwise
                   ! keep existing error status
-- 
2.43.0


From e7455e14ee19dedf0966ff17c7f31739b9f9e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:53 +0000
Subject: [PATCH 074/116] fix: RALFit: the hard case of the AINT solver is
 decided with one tolerance (eigenvectors were read without being set)

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index 2a8bab0..5967c87 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -3885,7 +3885,7 @@ lp:  do i = 1, options%more_sorensen_maxits
        w%ew_array(:) = w%alphaR(:)/w%beta(:)
        maxindex = maxloc(w%ew_array,mask=w%vecisreal)
 
-       tau = 1.0e-4_wp ! todo -- pass this through from above...
+       tau = toltm4 ! as in AINT_tr, which relies on nullevs below this value
        ! note n/2 always even -- validated by test on entry
        if (norm2( w%vr(1:halfn,maxindex(1)) ) < tau) then
           ! hard case
@@ -3893,7 +3893,7 @@ lp:  do i = 1, options%more_sorensen_maxits
           w%nullindex = 0
           no_null = 0
           do i = 1,n
-             if (norm2( w%vr(1:halfn,i)) < 1.0e-4_wp ) then
+             if (norm2( w%vr(1:halfn,i)) < tau ) then
                 no_null = no_null + 1
                 w%nullindex(no_null) = i
              end if
-- 
2.43.0


From fb7c5b1a6417caea7408a7b8f5d6e13fd44429e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:53 +0000
Subject: [PATCH 075/116] fix: RALFit: the residuals are not evaluated at NaN
 when a subproblem has no usable solution

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index 5967c87..728e5c6 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -642,8 +642,13 @@ lp: do while (.not. success)
        !++++++++++++++++++!
        ! Accept the step? !
        !++++++++++++++++++!
-       call eval_F(eval_f_status, n, m, w%Xnew, w%fnew, params)
-       inform%f_eval = inform%f_eval + 1
+       If (any(w%Xnew(1:n) /= w%Xnew(1:n))) Then
+         ! The subproblem did not produce a usable step, don't pass NaNs to the user
+         eval_f_status = 1
+       Else
+         call eval_F(eval_f_status, n, m, w%Xnew, w%fnew, params)
+         inform%f_eval = inform%f_eval + 1
+       End If
 
        If (eval_f_status .ne. 0) Then
          rho = -1.0_wp
-- 
2.43.0


From 07de36948ff4e582cf9cd13c06652d0327c93eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:53 +0000
Subject: [PATCH 076/116] fix: nlls: refused bounds are not kept, nor bounds
 and weights given for another problem size

---
 source/core/optimization/optimization.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/core/optimization/optimization.cpp b/source/core/optimization/optimization.cpp
index 976461a..f24841d 100644
--- a/source/core/optimization/optimization.cpp
+++ b/source/core/optimization/optimization.cpp
@@ -126,6 +126,11 @@ template <typename T> da_status da_optimization<T>::add_vars(da_int nvar) {
                         "Search space dimension must be positive, set nvar > 0");
     }
 
+    if (nvar != this->nvar) {
+        // Bounds given for another number of variables do not apply any more
+        this->l_usrptr = nullptr;
+        this->u_usrptr = nullptr;
+    }
     this->nvar = nvar;
     return da_status_success;
 }
@@ -137,6 +142,10 @@ template <typename T> da_status da_optimization<T>::add_res(da_int nres) {
                         "Number of residuals must be positive, set nres > 0");
     }
 
+    if (nres != this->nres) {
+        // Weights given for another number of residuals do not apply any more
+        this->w_usrptr = nullptr;
+    }
     this->nres = nres;
     return da_status_success;
 }
@@ -193,8 +202,6 @@ da_status da_optimization<T>::add_bound_cons(da_int nvar, T *l, T *u) {
         this->l_usrptr = nullptr;
         this->u_usrptr = nullptr;
     } else if (this->nvar == nvar) {
-        this->l_usrptr = l;
-        this->u_usrptr = u;
         // Call check_1D array only if l and u were supplied, since they are allowed to be null
         if (l) {
             status = this->check_1D_array(nvar, l, "n_coef", "lower", 1);
@@ -206,6 +213,8 @@ da_status da_optimization<T>::add_bound_cons(da_int nvar, T *l, T *u) {
             if (status != da_status_success)
                 return status;
         }
+        this->l_usrptr = l;
+        this->u_usrptr = u;
     } else {
         return da_error(this->err, da_status_invalid_input,
                         "Invalid size of nvar, it must match zero or the number of "
-- 
2.43.0


From 3009b04b86fc36d574f402b8879e9b04e0957465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:53 +0000
Subject: [PATCH 077/116] fix: nlls: the results of a previous fit are not
 offered after a fit that failed

---
 source/core/nlls/nlls.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/core/nlls/nlls.cpp b/source/core/nlls/nlls.cpp
index 490cb89..352d778 100644
--- a/source/core/nlls/nlls.cpp
+++ b/source/core/nlls/nlls.cpp
@@ -124,6 +124,9 @@ template <typename T> da_status nlls<T>::fit(da_int n_coef, T *coef, void *udata
 
     this->udata = udata;
 
+    // The results of a previous fit are not those of this one
+    this->model_trained = false;
+
     status = this->solve(this->coef, udata);
     if (this->err->get_severity() == DA_ERROR) {
         return status; // Error message already loaded
-- 
2.43.0


From 0ee2e81cfa08304507770865f30e92f7fde9706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:33 +0000
Subject: [PATCH 078/116] fix: RALFit: the trust region subproblem solver has
 an iteration limit

---
 external/RALFit/libRALFit/src/ral_nlls_dtrs.F90 | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_dtrs.F90 b/external/RALFit/libRALFit/src/ral_nlls_dtrs.F90
index 67cb957..1a566e9 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_dtrs.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_dtrs.F90
@@ -811,6 +811,10 @@
 
         INTEGER :: taylor_max_degree = 3
 
+!   at most maxit inner iterations are allowed
+
+        INTEGER :: maxit = 1000
+
 !  any entry of H that is smaller than h_min * MAXVAL( H ) we be treated as zero
 
         REAL ( KIND = wp ) :: h_min = epsmch
@@ -1397,6 +1401,11 @@
       DO
         it = it + 1
 !       IF ( it > 10 ) stop
+        IF ( control%maxit > 0 .AND. it > control%maxit ) THEN
+          inform%status = RAL_NLLS_error_max_iterations
+          IF ( printi ) WRITE( out, "( A, ' iteration limit exceeded' )" ) prefix
+          EXIT
+        END IF
 
 !  if H(lambda) is positive definite, solve  H(lambda) x = - c
 
-- 
2.43.0


From 6c10910e3c9eb9cec15b723ba36bb5ce1ecdca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:38 +0000
Subject: [PATCH 079/116] fix: linear model: coordinate descent without scaling
 updates the intercept unpenalised, with the right step

---
 source/core/linear_model/linmod_nln_optim.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/source/core/linear_model/linmod_nln_optim.cpp b/source/core/linear_model/linmod_nln_optim.cpp
index 25a1e6f..f2a6bd2 100644
--- a/source/core/linear_model/linmod_nln_optim.cpp
+++ b/source/core/linear_model/linmod_nln_optim.cpp
@@ -922,16 +922,15 @@ da_int stepfun_linreg_sklearn(da_int nfeat, T *coef, T *knew, da_int k, T *f, vo
         }
     }
 
-    if (positive && gk < T(0))
+    if (k == nmod) {
+        // The intercept is free (no regularization, no sign constraint): exact minimizer
+        // over a column of ones, <1, 1> = nsamples
+        betak = da_fp16::div_int(gk, nsamples);
+    } else if (positive && gk < T(0))
         betak = T(0);
     else {
         using W = da_fp16::wider_t<T>;
-        W xv;
-        if (k < nmod) {
-            xv = data->xv[k];
-        } else { // Intercept
-            xv = W(1);
-        }
+        const W xv = data->xv[k];
         // Form the divisor in the wider type W so (xv + l2) cannot underflow to
         // 0/0 = NaN for _Float16 (a no-op for float/double).
         const T num = sign(gk) * da_std::max(da_std::abs(gk) - l1, T(0));
-- 
2.43.0


From c5697623161c5ba904205a28ee8c36ca912752fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:05 +0000
Subject: [PATCH 080/116] fix: linear model: constant columns and constant
 responses have no scale to divide by

---
 source/core/linear_model/linear_model.cpp     | 20 ++++++++++++++++---
 source/core/linear_model/linmod_nln_optim.cpp |  4 +++-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 4ea1f70..ef91441 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -2211,12 +2211,16 @@ da_status linear_model<T>::preprocess_data(linmod_method method_id) {
             xcj_w *= xcj_w;
             sqdof_w /= nsmp;
 
+            // This is the formula for the variance (after rearrangement). Constant columns
+            // have no scale and are left as they are.
+            W var_w{sqdof_w - xcj_w};
+            if (!(var_w > W(0)))
+                var_w = W(1);
             if (use_xv) {
                 // These are used for updating the coefficients (betas).
-                std_xv[j] = sqdof_w / (sqdof_w - xcj_w);
+                std_xv[j] = sqdof_w / var_w;
             }
-            // This is the formula for standard deviation (after rearrangement)
-            sqdof = da_std::sqrt(static_cast<T>(sqdof_w - xcj_w));
+            sqdof = da_std::sqrt(static_cast<T>(var_w));
             std_scales[j] = sqdof; // same as with intercept: stdev using 1/nsamples
             std_shifts[j] = (T)0;  // zero
         }
@@ -2288,6 +2292,8 @@ da_status linear_model<T>::preprocess_data(linmod_method method_id) {
                 "Call to variance on response vector unexpectedly failed.");
         }
         std_scales[nfeat] = da_std::sqrt(std_scales[nfeat]);
+        if (std_scales[nfeat] == T(0))
+            std_scales[nfeat] = T(1); // constant response
         T ymean = std_shifts[nfeat];
         // Use sqrt_int to avoid overflow for large nsamples with _Float16
         T ys_sqn = std_scales[nfeat] * da_fp16::sqrt_int<T>(nsamples);
@@ -2324,6 +2330,8 @@ da_status linear_model<T>::preprocess_data(linmod_method method_id) {
 
         // No intercept -> scale Y
         T ynrm = da_std::sqrt(da_blas::cblas_dot(nsamples, y, 1, y, 1));
+        if (ynrm == T(0))
+            ynrm = sqrtn; // zero response
         std_scales[nfeat] = ynrm / sqrtn;
         std_shifts[nfeat] = (T)0;
         for (da_int j = 0; j < nsamples; ++j) {
@@ -2331,6 +2339,12 @@ da_status linear_model<T>::preprocess_data(linmod_method method_id) {
         }
     }
 
+    // Constant columns (or response) have no scale and were left as they are
+    for (auto &scale : std_scales) {
+        if (scale == T(0))
+            scale = T(1);
+    }
+
     return da_status_success;
 }
 
diff --git a/source/core/linear_model/linmod_nln_optim.cpp b/source/core/linear_model/linmod_nln_optim.cpp
index f2a6bd2..b4cacf5 100644
--- a/source/core/linear_model/linmod_nln_optim.cpp
+++ b/source/core/linear_model/linmod_nln_optim.cpp
@@ -795,7 +795,9 @@ da_int stepfun_linreg_glmnet(da_int nfeat, T *coef, T *knew, da_int k, T *f, voi
         if (shr < W(0))
             shr = W(0);
         const W signed_shr = betak_w < W(0) ? -shr : shr;
-        betak = static_cast<T>(signed_shr / (xvk + static_cast<W>(l2)));
+        // A column of zeros that is not penalised does not determine its coefficient
+        const W div = xvk + static_cast<W>(l2);
+        betak = div == W(0) ? T(0) : static_cast<T>(signed_shr / div);
     } else {
         if constexpr (simd_ok<T>) {
 #pragma omp simd reduction(+ : gk)
-- 
2.43.0


From a04be5871e8205ae0f28133fc86ed1934d577481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:05 +0000
Subject: [PATCH 081/116] fix: logistic regression: rsc regularises all the
 classes and its coefficients have the documented layout

---
 source/core/linear_model/linear_model.cpp     | 22 ++++------
 source/core/linear_model/linmod_nln_optim.cpp | 42 ++++++++++++-------
 2 files changed, 33 insertions(+), 31 deletions(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index ef91441..72ff844 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -672,31 +672,23 @@ da_status linear_model<T>::evaluate_model(da_int nfeat, da_int nsamples, const T
             for (da_int i = 0; i < nsamples; i++)
                 scores[i] > 0 ? predictions[i] = 1 : predictions[i] = 0;
         } else if (logistic_constraint_model == logistic_constraint::rsc) {
+            // The log-probabilities up to a constant: the score of the reference class
+            // (the last one) is zero. Row k of the column-major coef is for class k.
             da_std::fill(log_proba.begin() + nsamples * (nclass - 1), log_proba.end(),
-                         T(1));
+                         T(0));
             for (da_int k = 0; k < nclass - 1; k++) {
                 // < -- -this is a GEMM operation
                 da_blas::cblas_gemv(storage, CblasNoTrans, nsamples, nfeat, alpha, Xeval,
-                                    ldXeval, &coef[k * nmod], 1, beta,
+                                    ldXeval, &coef[k], nclass - 1, beta,
                                     &log_proba[k * nsamples], 1);
                 if (intercept) {
                     for (da_int i = 0; i < nsamples; i++)
-                        log_proba[k * nsamples + i] += coef[(k + 1) * nmod - 1];
+                        log_proba[k * nsamples + i] += coef[nfeat * (nclass - 1) + k];
                 }
-                for (da_int i = 0; i < nsamples; i++)
-                    log_proba[k * nsamples + i] = exp(log_proba[k * nsamples + i]);
             }
             for (da_int i = 0; i < nsamples; i++) {
-                aux = 0;
-                for (da_int k = 0; k < nclass; k++) {
-                    aux += log_proba[k * nsamples + i];
-                }
-                for (da_int k = 0; k < nclass; k++)
-                    log_proba[k * nsamples + i] /= aux;
-            }
-            for (da_int i = 0; i < nsamples; i++) {
-                aux = 0.0;
-                for (da_int k = 0; k < nclass; k++) {
+                aux = log_proba[i];
+                for (da_int k = 1; k < nclass; k++) {
                     if (log_proba[k * nsamples + i] > aux) {
                         aux = log_proba[k * nsamples + i];
                         predictions[i] = (T)k;
diff --git a/source/core/linear_model/linmod_nln_optim.cpp b/source/core/linear_model/linmod_nln_optim.cpp
index b4cacf5..7f4d6fd 100644
--- a/source/core/linear_model/linmod_nln_optim.cpp
+++ b/source/core/linear_model/linmod_nln_optim.cpp
@@ -191,6 +191,21 @@ template <typename T> void reggrd(da_int n, T const *x, T l1reg, T l2reg, T *gra
  * nonlinear solver of AOCL-DA
  */
 
+/* lincomb = X * Beta^T (+ intercept) for the rsc logistic model, where Beta is the
+ * column-major (nclass-1) by (nfeat+itpt) matrix of coefficients
+ */
+template <typename T> void lincomb_logistic_rsc(const T *x, cb_usrdata_logreg<T> *data) {
+    const da_int nrow = data->nclass - 1;
+    for (da_int k = 0; k < nrow; k++) {
+        const T beta0 = data->intercept ? x[data->nfeat * nrow + k] : T(0);
+        da_std::fill(data->lincomb.begin() + k * data->nsamples,
+                     data->lincomb.begin() + (k + 1) * data->nsamples, beta0);
+    }
+    da_blas::cblas_gemm(CblasColMajor, CblasNoTrans, CblasTrans, data->nsamples, nrow,
+                        data->nfeat, 1.0, data->X, data->ldX, x, nrow, 1.0,
+                        data->lincomb.data(), data->nsamples);
+}
+
 /* Logistic regression callbacks
  * Computes the inverse of the log-likelihood of the logistic regression model
  * and its gradient as defined in Elements of Statistical Learning (Hastie & all)
@@ -201,8 +216,8 @@ da_int objfun_logistic_rsc([[maybe_unused]] da_int n, T *x, T *f, void *udata) {
     // All data related to the regression problem is stored in the udata pointer
     // multinomial problem with K (nclass) classes (indexed in [0, K-1]), nfeat features and nsamples samples.
     // x is of size (nfeat+itpt)*(K-1)
-    // where itpt is 1 if the intercept is required and 0 otherwise
-    // with nmod = (nfeat+itpt), the parameters corresponding to the class k (k in 0,..,K-2)
+    // where itpt is 1 if the intercept is required and 0 otherwise, and it is stored as a
+    // column-major (K-1) by (nfeat+itpt) matrix: row k has the parameters of class k (k in 0,..,K-2)
 
     cb_usrdata_logreg<T> *data = (cb_usrdata_logreg<T> *)udata;
     std::vector<T> &maxexp = data->maxexp;
@@ -212,21 +227,19 @@ da_int objfun_logistic_rsc([[maybe_unused]] da_int n, T *x, T *f, void *udata) {
     da_int nclass = data->nclass;
     da_int nfeat = data->nfeat;
     da_int nsamples = data->nsamples;
-    da_int nmod = data->intercept ? nfeat + 1 : nfeat;
 
     // lincomb is of size nsamples*(nclass-1)
     // Store in lincomb[:,k] the Beta_k^T * x for the nsamples samples in the input matrix
     // Store in maxexp the max of lincomb for each sample
     *f = 0;
     da_std::fill(maxexp.begin(), maxexp.end(), 0.);
+    lincomb_logistic_rsc(x, data);
     for (da_int k = 0; k < nclass - 1; k++) {
         da_int idx = k * nsamples;
-        eval_feature_matrix(data->order, nmod, &x[k * nmod], nsamples, data->X, data->ldX,
-                            &lincomb_ptr[k * nsamples], data->intercept);
         for (da_int i = 0; i < nsamples; i++) {
             if (maxexp[i] < lincomb[idx])
                 maxexp[i] = lincomb[idx];
-            // Indicator(i, k) * X * x[k*nmod:(k+1)*nmod-1] added to objective
+            // Indicator(i, k) * X * Beta_k added to objective
             if (std::round(y[i]) == k)
                 *f -= lincomb[idx];
             idx += 1;
@@ -244,7 +257,7 @@ da_int objfun_logistic_rsc([[maybe_unused]] da_int n, T *x, T *f, void *udata) {
     }
 
     // Add regularization (exclude intercept)
-    *f += regfun(data->nfeat, x, data->l1reg, data->l2reg);
+    *f += regfun(nfeat * (nclass - 1), x, data->l1reg, data->l2reg);
 
     return 0;
 }
@@ -257,21 +270,18 @@ da_int objgrd_logistic_rsc(da_int n, T *x, T *grad, void *udata,
     std::vector<T> &maxexp = data->maxexp;
     const T *y = data->y;
     std::vector<T> &lincomb = data->lincomb;
-    T *lincomb_ptr = data->lincomb.data();
     da_int nsamples = data->nsamples;
     const T *X = data->X;
-    da_int idc = data->intercept ? 1 : 0;
     da_int nclass = data->nclass;
-    da_int nmod = data->intercept ? data->nfeat + 1 : data->nfeat;
+    da_int nfeat = data->nfeat;
 
     if (xnew) {
         // Store in lincomb[:,k] the Beta_k^T * x for the nsamples samples in the input matrix
         // Store in maxexp the max of lincomb for each sample
         da_std::fill(maxexp.begin(), maxexp.end(), 0.);
+        lincomb_logistic_rsc(x, data);
         for (da_int k = 0; k < nclass - 1; k++) {
             da_int idx = k * nsamples;
-            eval_feature_matrix(data->order, nmod, &x[k * nmod], nsamples, data->X,
-                                data->ldX, &lincomb_ptr[k * nsamples], data->intercept);
             for (da_int i = 0; i < nsamples; i++) {
                 if (maxexp[i] < lincomb[idx])
                     maxexp[i] = lincomb[idx];
@@ -294,17 +304,17 @@ da_int objgrd_logistic_rsc(da_int n, T *x, T *grad, void *udata,
             T val = -exp(lincomb[k * nsamples + i] - lnsumexp);
             if (std::round(y[i]) == k)
                 val += 1.;
-            for (da_int j = 0; j < nmod - idc; j++) {
-                grad[k * nmod + j] -= X[j * data->ldX + i] * val;
+            for (da_int j = 0; j < nfeat; j++) {
+                grad[j * (nclass - 1) + k] -= X[j * data->ldX + i] * val;
             }
             if (data->intercept) {
-                grad[(k + 1) * nmod - 1] -= val;
+                grad[nfeat * (nclass - 1) + k] -= val;
             }
         }
     }
 
     // Add regularization (exclude intercept)
-    reggrd(data->nfeat, x, data->l1reg, data->l2reg, grad);
+    reggrd(nfeat * (nclass - 1), x, data->l1reg, data->l2reg, grad);
 
     return 0;
 }
-- 
2.43.0


From 36f2caee8ad3f97a0094c5a3172c010f063d0182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:14 +0000
Subject: [PATCH 082/116] fix: logistic regression: ssc predictions and losses
 do not assume a score above zero

---
 source/core/linear_model/linear_model.cpp     | 4 ++--
 source/core/linear_model/linmod_nln_optim.cpp | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 72ff844..b376e85 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -721,8 +721,8 @@ da_status linear_model<T>::evaluate_model(da_int nfeat, da_int nsamples, const T
                                 1.0, scores.data(), nsamples);
             // Iterate over predictions to pick argmax between each class
             for (da_int i = 0; i < nsamples; i++) {
-                aux = 0.0;
-                for (da_int k = 0; k < nclass; k++) {
+                aux = scores[i];
+                for (da_int k = 1; k < nclass; k++) {
                     if (scores[k * nsamples + i] > aux) {
                         aux = scores[k * nsamples + i];
                         predictions[i] = (T)k;
diff --git a/source/core/linear_model/linmod_nln_optim.cpp b/source/core/linear_model/linmod_nln_optim.cpp
index 7f4d6fd..dc626fa 100644
--- a/source/core/linear_model/linmod_nln_optim.cpp
+++ b/source/core/linear_model/linmod_nln_optim.cpp
@@ -448,6 +448,7 @@ da_int objfun_logistic_ssc([[maybe_unused]] da_int n, T *x, T *f, void *udata) {
 
     // look at private and shared variables
     for (da_int i = 0; i < nsamples; i++) {
+        maxexp[i] = lincomb[i];
         for (da_int k = 0; k < nclass; k++) {
             // Find maxexp
             if (maxexp[i] < lincomb[k * nsamples + i]) {
@@ -502,6 +503,7 @@ da_int objgrd_logistic_ssc(da_int n, T *x, T *grad, void *udata,
                             nfeat, 1.0, data->X, data->ldX, x, nclass, 1.0, lincomb_ptr,
                             nsamples);
         for (da_int i = 0; i < nsamples; i++) {
+            maxexp[i] = lincomb[i];
             for (da_int k = 0; k < nclass; k++) {
                 // Find maxexp
                 if (maxexp[i] < lincomb[k * nsamples + i]) {
@@ -509,7 +511,7 @@ da_int objgrd_logistic_ssc(da_int n, T *x, T *grad, void *udata,
                 }
             }
             // Compute sumexp
-            sumexp[i] = exp(-maxexp[i]);
+            sumexp[i] = 0;
             for (da_int k = 0; k < nclass; k++) {
                 sumexp[i] += exp(lincomb[k * nsamples + i] - maxexp[i]);
             }
-- 
2.43.0


From 894eedb7afb132199a035c765704f0dc01659f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:47 +0000
Subject: [PATCH 083/116] fix: k-means: k-means++ with fewer distinct samples
 than clusters does not draw from zero weights

---
 source/core/clustering/kmeans/kmeans.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 9102f60..67e5cfc 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -51,6 +51,7 @@
 #include "miscellaneous.hpp"
 #include "model_persistence.hpp"
 #include "pairwise_distances.hpp"
+#include <algorithm>
 #include <cmath>
 #include <cstdlib>
 #include <limits>
@@ -1601,6 +1602,18 @@ template <typename T> void kmeans<T>::kmeans_plusplus() {
             da_int best_candidate = 0;
             T best_candidate_cost = da_std::numeric_limits<T>::infinity();
 
+            // If every sample coincides with a centre chosen already (fewer distinct samples
+            // than clusters) there are no weights to draw from: any sample is as good
+            if (std::all_of(works3.begin(), works3.end(),
+                            [](T w) { return !(w > (T)0.0); })) {
+                for (da_int i = 0; i < n_features; i++) {
+                    (*current_cluster_centres)[i * n_clusters + k] =
+                        (this->A_order == column_major) ? A[i * lda + k] : A[i + lda * k];
+                }
+                work_int1[k] = k;
+                continue;
+            }
+
             std::discrete_distribution<> weighted_dis(works3.begin(), works3.end());
             for (da_int trials = 0; trials < n_trials; trials++) {
                 // Our candidate points are stored in work_int2
-- 
2.43.0


From db1a5515eca06ff372b304153b5f20b837db5e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:47 +0000
Subject: [PATCH 084/116] fix: k-means: random partitions with an empty
 partition do not divide by zero

---
 source/core/clustering/kmeans/kmeans.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 67e5cfc..6f6945d 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -1457,7 +1457,9 @@ template <typename T> void kmeans<T>::initialize_centres() {
 #pragma omp simd collapse(2)
         for (da_int j = 0; j < n_features; j++) {
             for (da_int i = 0; i < n_clusters; i++) {
-                (*current_cluster_centres)[i + j * n_clusters] /= work_int1[i];
+                // A cluster which was given no sample has no mean to compute
+                (*current_cluster_centres)[i + j * n_clusters] /=
+                    std::max(work_int1[i], (da_int)1);
             }
         }
 
-- 
2.43.0


From be5fb8d7227f910c0e0f75e3ef40ea2c796e9fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:47 +0000
Subject: [PATCH 085/116] fix: k-means: MacQueen's method starts from the
 nearest centres and keeps the norms of its centres current

---
 source/core/clustering/kmeans/kmeans_macqueen.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans_macqueen.hpp b/source/core/clustering/kmeans/kmeans_macqueen.hpp
index 60b66d4..9836137 100644
--- a/source/core/clustering/kmeans/kmeans_macqueen.hpp
+++ b/source/core/clustering/kmeans/kmeans_macqueen.hpp
@@ -106,6 +106,10 @@ template <typename T> void kmeans<T>::init_macqueen() {
                     (*current_cluster_centres)[i + j * n_clusters] /= cluster_count[i];
             }
         }
+        // The centres have moved, so the squared norms held in workc1 must follow
+        da_utils::compute_squared_row_norms(column_major, n_clusters, n_features,
+                                            (*current_cluster_centres).data(), n_clusters,
+                                            workc1.data());
     }
 
     // Re-zero previous clusters, which were used temporarily here
@@ -134,8 +138,8 @@ void kmeans<T>::init_macqueen_block(da_int block_size, da_int block_index) {
                         n_clusters, &A[A_index], lda, (T)0.0, workcs1.data(), ldworkcs1);
 
     for (da_int i = block_index; i < block_index + block_size; i++) {
-        T smallest_dist = workcs1[i - block_index] + workc1[0];
         da_int index = (i - block_index) * ldworkcs1;
+        T smallest_dist = workcs1[index] + workc1[0];
         da_int label = 0;
         for (da_int j = 1; j < n_clusters; j++) {
             tmp_dist = workcs1[index + j] + workc1[j];
-- 
2.43.0


From 8e18235db4265ddf1b93f4a034f6e35592c52024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:26 +0000
Subject: [PATCH 086/116] fix: k-means: initial centres given for other data or
 another number of clusters are not read

---
 source/core/clustering/kmeans/kmeans.cpp | 13 ++++++++++++-
 source/core/clustering/kmeans/kmeans.hpp |  1 +
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 6f6945d..1050c4c 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -275,6 +275,9 @@ da_status kmeans<T>::set_data(da_int n_samples, da_int n_features, const T *A_in
     initdone = true;
     this->model_trained = false;
 
+    // Any initial centres given before were for the previous data
+    centres_supplied = false;
+
     // Now that we have a data matrix we can re-register the n_clusters option with new constraints
     da_int temp_clusters;
     this->opts.get("n_clusters", temp_clusters);
@@ -342,8 +345,9 @@ da_status kmeans<T>::set_init_centres(const T *C_in, da_int ldc_in) {
         ldc = ldc_in;
     }
 
-    // Record that centres have been set
+    // Record that centres have been set, and how many there are
     centres_supplied = true;
+    n_centres_supplied = n_clusters;
 
     return da_status_success;
 }
@@ -455,6 +459,13 @@ template <typename T> da_status kmeans<T>::compute() {
                         "centres have been provided.");
     }
 
+    if (check_options && init_method == supplied && n_centres_supplied != n_clusters) {
+        return da_error(this->err, da_status_incompatible_options,
+                        "n_clusters was changed to " + std::to_string(n_clusters) +
+                            " after " + std::to_string(n_centres_supplied) +
+                            " initial centres had been provided.");
+    }
+
     if (A_temp) {
         delete[] (A_temp);
         A_temp = nullptr;
diff --git a/source/core/clustering/kmeans/kmeans.hpp b/source/core/clustering/kmeans/kmeans.hpp
index ae36a01..44fa48d 100644
--- a/source/core/clustering/kmeans/kmeans.hpp
+++ b/source/core/clustering/kmeans/kmeans.hpp
@@ -64,6 +64,7 @@ template <typename T> class kmeans : public basic_handle<T> {
 
     // Set true if set_init_centres is called
     bool centres_supplied = false;
+    da_int n_centres_supplied = 0;
 
     // Underlying algorithm
     da_int algorithm = lloyd;
-- 
2.43.0


From 12eca71f247b41186c91be539912b349e63f1782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:26 +0000
Subject: [PATCH 087/116] fix: k-means: refused calls leave a trained model as
 it was, and failed computations leave none

---
 source/core/clustering/kmeans/kmeans.cpp | 40 ++++++++++++++----------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 1050c4c..d37d4ee 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -250,21 +250,21 @@ template <typename T>
 da_status kmeans<T>::set_data(da_int n_samples, da_int n_features, const T *A_in,
                               da_int lda_in) {
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    this->refresh();
-
     // Read in data storage option
     std::string opt_order;
     da_int iorder;
     da_status status = this->opts.get("storage order", opt_order, iorder);
-    this->order = da_order(iorder);
 
     // Check for illegal arguments
-    status = this->check_2D_array(this->order, n_samples, n_features, A_in, lda_in,
+    status = this->check_2D_array(da_order(iorder), n_samples, n_features, A_in, lda_in,
                                   "n_samples", "n_features", "A", "lda", 1, 1);
     if (status != da_status_success)
         return status;
 
+    // Guard against errors due to multiple calls using the same class instantiation
+    this->refresh();
+    this->order = da_order(iorder);
+
     // Store dimensions of A and pointer to user's data
     this->lda_usr = lda_in;
     this->A_usr = A_in;
@@ -304,12 +304,6 @@ da_status kmeans<T>::set_init_centres(const T *C_in, da_int ldc_in) {
                         "No data has been passed to the handle. Please call "
                         "da_kmeans_set_data_s or da_kmeans_set_data_d.");
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    if (C_temp) {
-        delete[] (C_temp);
-        C_temp = nullptr;
-    }
-
     // Check options weren't changed to incompatible values after data was set
     std::string opt_order;
     da_int iorder;
@@ -320,22 +314,31 @@ da_status kmeans<T>::set_init_centres(const T *C_in, da_int ldc_in) {
     }
 
     // Check for illegal arguments
-    this->opts.get("n_clusters", n_clusters);
+    // The number of clusters of a model trained already (n_clusters) must not be altered here
+    da_int n_centres;
+    this->opts.get("n_clusters", n_centres);
     da_status status =
-        this->check_2D_array(this->order, n_clusters, n_features, C_in, ldc_in,
+        this->check_2D_array(this->order, n_centres, n_features, C_in, ldc_in,
                              "n_clusters", "n_features", "C", "ldc", 1, 1);
     if (status != da_status_success)
         return status;
 
+    // Guard against errors due to multiple calls using the same class instantiation
+    centres_supplied = false;
+    if (C_temp) {
+        delete[] (C_temp);
+        C_temp = nullptr;
+    }
+
     // We'll always store C in column-major format internally
     if (this->order == row_major) {
         // Transpose C to column-major
         try {
-            C_temp = new T[(size_t)n_clusters * (size_t)n_features];
+            C_temp = new T[(size_t)n_centres * (size_t)n_features];
             ARCH::da_utils::copy_transpose_2D_array_row_to_column_major<T>(
-                n_clusters, n_features, C_in, ldc_in, C_temp, n_clusters);
+                n_centres, n_features, C_in, ldc_in, C_temp, n_centres);
             C = C_temp;
-            ldc = n_clusters;
+            ldc = n_centres;
         } catch (std::bad_alloc const &) {
             return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                             "Memory allocation failed.");
@@ -347,7 +350,7 @@ da_status kmeans<T>::set_init_centres(const T *C_in, da_int ldc_in) {
 
     // Record that centres have been set, and how many there are
     centres_supplied = true;
-    n_centres_supplied = n_clusters;
+    n_centres_supplied = n_centres;
 
     return da_status_success;
 }
@@ -361,6 +364,9 @@ template <typename T> da_status kmeans<T>::compute() {
                         "No data has been passed to the handle. Please call "
                         "da_kmeans_set_data_s or da_kmeans_set_data_d.");
 
+    // The results of an earlier computation are not valid from here on
+    this->model_trained = false;
+
     if (check_options) {
 
         // Check options weren't changed to incompatible values after data was set
-- 
2.43.0


From c8feca4ca5302855b99139fc9584c87f3dfea4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:26 +0000
Subject: [PATCH 088/116] fix: k-means, PCA, kernel PCA: the contents of output
 arrays are not checked for NaN

---
 source/core/clustering/kmeans/kmeans.cpp            |  6 +++---
 source/core/factorization/kernel_pca/kernel_pca.cpp | 12 ++++++------
 source/core/factorization/pca/pca.cpp               | 12 ++++++------
 source/core/utilities/basic_handle.cpp              | 12 ++++++++++++
 source/core/utilities/basic_handle.hpp              | 12 ++++++++++++
 5 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index d37d4ee..ac33f22 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -821,9 +821,9 @@ da_status kmeans<T>::transform(da_int m_samples, da_int m_features, const T *X,
                                             "m_samples", "m_features", "X", "ldx", 1, 1);
     if (status != da_status_success)
         return status;
-    status = this->check_2D_array(this->order, m_samples, n_clusters, X_transform,
-                                  ldx_transform, "m_samples", "n_clusters", "X_transform",
-                                  "ldx_transform", 1, 1);
+    status = this->check_2D_output_array(
+        this->order, m_samples, n_clusters, X_transform, ldx_transform, "m_samples",
+        "n_clusters", "X_transform", "ldx_transform", 1, 1);
     if (status != da_status_success)
         return status;
 
diff --git a/source/core/factorization/kernel_pca/kernel_pca.cpp b/source/core/factorization/kernel_pca/kernel_pca.cpp
index 6794ac4..ac1ea7e 100644
--- a/source/core/factorization/kernel_pca/kernel_pca.cpp
+++ b/source/core/factorization/kernel_pca/kernel_pca.cpp
@@ -773,9 +773,9 @@ da_status kernel_pca<T>::transform(da_int m_samples, da_int m_features, const T
     if (status != da_status_success)
         return status;
 
-    status = this->check_2D_array(this->order, m_samples, n_components, X_transform,
-                                  ldx_transform, "m_samples", "n_components",
-                                  "X_transform", "ldx_transform");
+    status = this->check_2D_output_array(this->order, m_samples, n_components,
+                                         X_transform, ldx_transform, "m_samples",
+                                         "n_components", "X_transform", "ldx_transform");
     if (status != da_status_success)
         return status;
 
@@ -939,9 +939,9 @@ da_status kernel_pca<T>::inverse_transform(da_int k, da_int nc_in, const T *Y, d
     if (status != da_status_success)
         return status;
 
-    status = this->check_2D_array(this->order, k, n_features, Y_inv_transform,
-                                  ldy_inv_transform, "k_samples", "n_features",
-                                  "Y_inv_transform", "ldy_inv_transform");
+    status = this->check_2D_output_array(this->order, k, n_features, Y_inv_transform,
+                                         ldy_inv_transform, "k_samples", "n_features",
+                                         "Y_inv_transform", "ldy_inv_transform");
     if (status != da_status_success)
         return status;
 
diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 63beed6..b9a08f2 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -818,9 +818,9 @@ da_status pca<T>::transform(da_int m, da_int p, const T *X, da_int ldx, T *X_tra
     if (status != da_status_success)
         return status;
 
-    status =
-        this->check_2D_array(this->order, m, ns, X_transform, ldx_transform, "m_samples",
-                             "n_components", "X_transform", "ldx_transform");
+    status = this->check_2D_output_array(this->order, m, ns, X_transform, ldx_transform,
+                                         "m_samples", "n_components", "X_transform",
+                                         "ldx_transform");
     if (status != da_status_success)
         return status;
 
@@ -965,9 +965,9 @@ da_status pca<T>::inverse_transform(da_int k, da_int r, const T *X, da_int ldx,
                                             "n_features", "Y", "ldy");
     if (status != da_status_success)
         return status;
-    status =
-        this->check_2D_array(this->order, k, p, X_inv_transform, ldx_inv_transform,
-                             "k_samples", "n_features", "Y_transform", "ldy_transform");
+    status = this->check_2D_output_array(this->order, k, p, X_inv_transform,
+                                         ldx_inv_transform, "k_samples", "n_features",
+                                         "Y_transform", "ldy_transform");
     if (status != da_status_success)
         return status;
 
diff --git a/source/core/utilities/basic_handle.cpp b/source/core/utilities/basic_handle.cpp
index 7a94884..1c6c48c 100644
--- a/source/core/utilities/basic_handle.cpp
+++ b/source/core/utilities/basic_handle.cpp
@@ -106,6 +106,18 @@ da_status basic_handle<T>::check_2D_array(da_order order, da_int n_rows, da_int
                                           data_name, lddata_name, n_rows_min, n_cols_min);
 }
 
+template <typename T>
+da_status basic_handle<T>::check_2D_output_array(
+    da_order order, da_int n_rows, da_int n_cols, const T *data, da_int lddata,
+    const std::string &n_rows_name, const std::string &n_cols_name,
+    const std::string &data_name, const std::string &lddata_name, da_int n_rows_min,
+    da_int n_cols_min) {
+
+    return ARCH::da_utils::check_2D_array(false, order, this->err, n_rows, n_cols, data,
+                                          lddata, n_rows_name, n_cols_name, data_name,
+                                          lddata_name, n_rows_min, n_cols_min);
+}
+
 template <typename T>
 da_status basic_handle<T>::store_2D_array(
     da_int n_rows, da_int n_cols, const T *data, da_int lddata, T **temp_data,
diff --git a/source/core/utilities/basic_handle.hpp b/source/core/utilities/basic_handle.hpp
index 15e7d7f..db8484d 100644
--- a/source/core/utilities/basic_handle.hpp
+++ b/source/core/utilities/basic_handle.hpp
@@ -168,6 +168,18 @@ template <typename T> class basic_handle {
                              const std::string &lddata_name, da_int n_rows_min = 1,
                              da_int n_cols_min = 1);
 
+    /**
+     * @brief Checks the arguments of a 2D array which is about to be written, whose
+     * contents are irrelevant (same arguments as check_2D_array).
+     */
+    da_status check_2D_output_array(da_order order, da_int n_rows, da_int n_cols,
+                                    const T *data, da_int lddata,
+                                    const std::string &n_rows_name,
+                                    const std::string &n_cols_name,
+                                    const std::string &data_name,
+                                    const std::string &lddata_name, da_int n_rows_min = 1,
+                                    da_int n_cols_min = 1);
+
     /**
      * @brief Stores a 2D array into the handle, performing necessary checks and transformations.
      *
-- 
2.43.0


From a1b4699f2f764b51f9db994633349e7cb10f17ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:41 +0000
Subject: [PATCH 089/116] fix: k-means: Hartigan-Wong does not report more
 iterations than its limit

---
 source/core/clustering/kmeans/kmeans_hartigan_wong.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp b/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
index 650d4b9..991c131 100644
--- a/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
+++ b/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
@@ -308,7 +308,8 @@ void kmns(const T a[], da_int m, da_int n, da_int lda, T c[], da_int k, da_int i
   If the maximum number of iterations was taken without convergence,
   IFAULT is 2 now.  This may indicate unforeseen looping.
 */
-    *n_iter = ij;
+    // (the loop counter is one past the limit when the limit was reached)
+    *n_iter = std::min(ij, iter);
     /*
     if (*ifault == 2) {
         printf("\n");
-- 
2.43.0


From e9ff3bc271aa1e847ff354b13328adc256a1246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:54 +0000
Subject: [PATCH 090/116] fix: k-means: mixed precision reads its low precision
 copy of the data in the order it has

---
 source/core/clustering/kmeans/kmeans.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index ac33f22..fde0119 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -1880,10 +1880,11 @@ template <typename T> da_status kmeans<T>::lower_precision_init() {
                                                n_clusters, C_lp.data(), n_clusters);
 
         // Create a lower-precision kmeans object and populate it with relevant data from this object
+        // (A_lp is stored like A, which may differ from the storage order of the user's data)
         da_int lda_lp =
             (this->A_order == column_major) ? this->n_samples : this->n_features;
         kmeans<lp_type> km_float(
-            *this->err, this->A_order, this->order, this->algorithm, supplied, this->seed,
+            *this->err, this->A_order, this->A_order, this->algorithm, supplied, this->seed,
             (lp_type)this->lp_tol, this->lp_max_iter, this->n_samples, this->n_features,
             this->n_clusters, 1, A_lp.data(), lda_lp, A_lp.data(), lda_lp, C_lp.data(),
             this->n_clusters, true, true, false, this->empty_cluster_handling,
-- 
2.43.0


From 9bb15cf28aaa2b0b5904a1360b5048159f2e0cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:54 +0000
Subject: [PATCH 091/116] fix: k-means: Elkan's method updates the distances
 between centres after splitting clusters

---
 source/core/clustering/kmeans/kmeans.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index fde0119..e015cf6 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -1337,6 +1337,8 @@ template <typename T> da_status kmeans<T>::handle_empty_clusters(bool &clusters_
         da_std::fill(works1.begin(), works1.end(), da_std::numeric_limits<T>::max());
         for (da_int i = 0; i < n_samples * ldworkcs1; i++)
             workcs1[i] = (T)0.0;
+        // The distances between centres must be those of the modified centres
+        compute_centre_half_distances();
     } else if (algorithm == macqueen) {
         // Recompute squared centre norms (workc1) used in GEMM distance
         da_utils::compute_squared_row_norms(column_major, n_clusters, n_features,
-- 
2.43.0


From 2759882bfaebb395d9bddb31f65b8614762988fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:53 +0000
Subject: [PATCH 092/116] fix: k-means: Hartigan-Wong considers the clusters in
 the live set for a transfer

---
 source/core/clustering/kmeans/kmeans_hartigan_wong.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp b/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
index 991c131..12ee535 100644
--- a/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
+++ b/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
@@ -502,7 +502,7 @@ void optra(const T a[], da_int m, da_int n, da_int lda, T c[], da_int k, da_int
   for possible transfer of point I.   Otherwise, we need to consider
   all possible clusters.
 */
-                if ((i < live[l1 - 1] || i < live[l2 - 1]) && l != l1 && l != ll) {
+                if ((i < live[l1 - 1] || i < live[l - 1]) && l != l1 && l != ll) {
                     rr = r2 / an2[l - 1];
 
                     dc = (T)0.0;
-- 
2.43.0


From b70987a32129911dfa0e46535bdd9d25c21befd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:43 +0000
Subject: [PATCH 093/116] fix: k-means: a start whose low precision phase finds
 an empty cluster is skipped, as in full precision

---
 source/core/clustering/kmeans/kmeans.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index e015cf6..1ed8559 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -740,6 +740,12 @@ template <typename T> da_status kmeans<T>::compute() {
         // Iteratively refine the clusters using lower precision if needed
         if (this->use_mixed_precision) {
             status = kmeans<T>::lower_precision_init();
+            if (status == da_status_empty_clusters) {
+                // An empty cluster was found: skip this run, as below
+                this->err->clear();
+                status = da_status_success;
+                continue;
+            }
             if (status != da_status_success)
                 return status;
         }
-- 
2.43.0


From ba8a28f248b14d32be1898404022f4f3ad6f0bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:23 +0000
Subject: [PATCH 094/116] fix: linear model: the information of a loaded model
 can be queried, and that of one trained after loading is complete

---
 source/core/linear_model/linear_model.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index b376e85..56be759 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -296,7 +296,7 @@ da_status linear_model<T>::get_result(da_result query, da_int *dim, T *result) {
             result[da_linmod_info_t::linmod_info_time] = time;
         }
         // For CG we have member function that fills n_iter and gradient of loss
-        if (method_id == linmod_method::cg) {
+        if (method_id == linmod_method::cg && !this->model_loaded) {
             if constexpr (std::is_same_v<T, _Float16>) {
                 // Unreachable: cg is rejected at fit time for _Float16.
                 return da_error(this->err, da_status_internal_error, // LCOV_EXCL_LINE
@@ -397,6 +397,8 @@ da_status linear_model<T>::define_features(da_int nfeat, da_int nsamples, const
     }
 
     this->model_trained = false;
+    // A model trained from here on is not the one loaded
+    this->model_loaded = false;
     this->init_done = true;
 
     this->nfeat = nfeat;
-- 
2.43.0


From 94ea02d228bd2fcd70ad5f0ba8f236af46c6fab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:29 +0000
Subject: [PATCH 095/116] fix: linear model: fitting again releases what the
 previous fit allocated

---
 source/core/linear_model/linear_model.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 56be759..d4a14e4 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -374,6 +374,10 @@ da_status linear_model<T>::define_features(da_int nfeat, da_int nsamples, const
     if (status != da_status_success)
         return status;
 
+    // Release what was made for the features defined before
+    reset_data();
+    reset_solvers();
+
     // Assign user's feature pointers
     this->yusr = y;
     this->y = const_cast<T *>(y);
@@ -862,6 +866,10 @@ template <typename T> da_status linear_model<T>::fit(da_int usr_ncoefs, const T
         force_fallback = true;
     }
 
+    // Release what a previous fit of the same features left
+    reset_data();
+    reset_solvers();
+
     bool do_prep = true;
 
     while (true) {
-- 
2.43.0


From 8dbf54158f91c93b08dfb8999946d9c5905e18da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:05 +0000
Subject: [PATCH 096/116] fix: k-means: cosine clustering does not use the
 norms of the centres of a previous model

---
 source/core/clustering/kmeans/kmeans.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 1ed8559..01f7765 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -629,6 +629,10 @@ template <typename T> da_status kmeans<T>::compute() {
                         "Memory allocation failed.");
     }
 
+    // The norms of the centres of a previous model are not those of this one (and for spherical
+    // k-means are expected to be zero)
+    da_std::fill(workc1.begin(), workc1.end() - padding, (T)0.0);
+
     // Ensure the extra padding in workc1 (for vectorization) won't interfere with any computation
     da_std::fill(workc1.end() - padding, workc1.end(),
                  da_std::numeric_limits<T>::infinity());
-- 
2.43.0


From 1f8e2048bd7c88999c25a95e19b411646227e165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:05 +0000
Subject: [PATCH 097/116] fix: loading validates linear and k-means models
 against the sizes they state

---
 source/core/clustering/kmeans/kmeans.cpp  | 22 +++++++++++++
 source/core/clustering/kmeans/kmeans.hpp  |  2 ++
 source/core/linear_model/linear_model.cpp | 40 +++++++++++++++++++++++
 source/core/linear_model/linear_model.hpp |  2 ++
 4 files changed, 66 insertions(+)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 01f7765..d0ccc9f 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -1953,9 +1953,31 @@ template <typename T> da_status kmeans<T>::serialize(serialization_buffer &buffe
     io_dispatch(this->do_spherical);
     io_dispatch(this->normalize_data);
 
+    if (status == da_status_success && buffer.get_mode() == deserialize &&
+        !this->loaded_model_is_consistent())
+        return da_error(this->err, da_status_invalid_file_data,
+                        "The saved model is not consistent.");
+
     return status;
 }
 
+template <typename T> bool kmeans<T>::loaded_model_is_consistent() const {
+    if (!this->model_trained || this->n_samples <= 0 || this->n_features <= 0 ||
+        this->n_clusters <= 0 || this->n_clusters > this->n_samples)
+        return false;
+    const size_t size = (size_t)this->n_clusters * (size_t)this->n_features;
+    if (size > (size_t)std::numeric_limits<da_int>::max() ||
+        this->best_cluster_centres->size() < size ||
+        this->best_labels->size() < (size_t)this->n_samples ||
+        this->workc1.size() < (size_t)this->n_clusters)
+        return false;
+    for (da_int i = 0; i < this->n_samples; i++) {
+        if ((*this->best_labels)[i] < 0 || (*this->best_labels)[i] >= this->n_clusters)
+            return false;
+    }
+    return true;
+}
+
 template <typename T> da_status kmeans<T>::save_model(serialization_buffer &buffer) {
 
     if (!this->model_trained) {
diff --git a/source/core/clustering/kmeans/kmeans.hpp b/source/core/clustering/kmeans/kmeans.hpp
index 44fa48d..205e49d 100644
--- a/source/core/clustering/kmeans/kmeans.hpp
+++ b/source/core/clustering/kmeans/kmeans.hpp
@@ -306,6 +306,8 @@ template <typename T> class kmeans : public basic_handle<T> {
                       da_int *Y_labels);
 
     da_status serialize(da_model_persistence::serialization_buffer &buffer) override;
+    // Check the members read from a saved model against one another
+    bool loaded_model_is_consistent() const;
     da_status save_model(da_model_persistence::serialization_buffer &buffer) override;
     da_status load_model(da_model_persistence::serialization_buffer &buffer) override;
 
diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index d4a14e4..0e13854 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -2479,9 +2479,49 @@ template <typename T> da_status linear_model<T>::serialize(serialization_buffer
     io_dispatch(this->alpha);
     io_dispatch(this->lambda);
 
+    if (status == da_status_success && buffer.get_mode() == deserialize &&
+        !this->loaded_model_is_consistent())
+        return da_error(this->err, da_status_invalid_file_data,
+                        "The saved model is not consistent.");
+
     return status;
 }
 
+template <typename T> bool linear_model<T>::loaded_model_is_consistent() const {
+    if (!this->model_trained || this->nfeat <= 0 || this->nsamples <= 0)
+        return false;
+
+    const size_t n_columns = (size_t)this->nfeat + (this->intercept ? 1 : 0);
+    size_t n_rows = 1;
+    switch (this->mod) {
+    case linmod_model_mse:
+        break;
+    case linmod_model_logistic:
+        if (this->nclass < 2)
+            return false;
+        if (this->nclass > 2) {
+            if (this->logistic_constraint_model == logistic_constraint::rsc)
+                n_rows = (size_t)this->nclass - 1;
+            else if (this->logistic_constraint_model == logistic_constraint::ssc)
+                n_rows = (size_t)this->nclass;
+            else
+                return false;
+        }
+        break;
+    default:
+        return false;
+    }
+    if (this->nrow_coef <= 0 || (size_t)this->nrow_coef != n_rows ||
+        this->ncol_coef <= 0 || (size_t)this->ncol_coef != n_columns ||
+        this->ncoef <= 0 || (size_t)this->ncoef != n_rows * n_columns ||
+        this->coef.size() < n_rows * n_columns)
+        return false;
+
+    // Dual coefficients
+    return this->method_id != linmod_method::cg || this->is_well_determined ||
+           this->dual_coef.size() >= (size_t)this->nsamples;
+}
+
 template <typename T>
 da_status linear_model<T>::convert_inputs_to_lower_precision(
     std::vector<lp_type> &XUSR_lp, da_int &ldXUSR_lp, std::vector<lp_type> &yusr_lp,
diff --git a/source/core/linear_model/linear_model.hpp b/source/core/linear_model/linear_model.hpp
index af444ea..a0171f2 100644
--- a/source/core/linear_model/linear_model.hpp
+++ b/source/core/linear_model/linear_model.hpp
@@ -312,6 +312,8 @@ template <typename T> class linear_model : public basic_handle<T> {
     bool get_model_trained();
 
     da_status serialize(da_model_persistence::serialization_buffer &buffer) override;
+    // Check the members read from a saved model against one another
+    bool loaded_model_is_consistent() const;
     da_status save_model(da_model_persistence::serialization_buffer &buffer) override;
     da_status load_model(da_model_persistence::serialization_buffer &buffer) override;
     void get_user_options(scaling_t &scaling);
-- 
2.43.0


From 0d3706218b5ec42ff92a7364b1a1a0b65a8489de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:28 +0000
Subject: [PATCH 098/116] fix: the error message of a handle without errors can
 be queried

---
 source/core/utilities/da_error.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/core/utilities/da_error.hpp b/source/core/utilities/da_error.hpp
index 42073b0..948639d 100644
--- a/source/core/utilities/da_error.hpp
+++ b/source/core/utilities/da_error.hpp
@@ -188,16 +188,19 @@ class da_error_t {
     string get_telem(void) { return telem.empty() ? "" : telem.front(); };
 
     da_status get_mesg_char(char **message) {
-        size_t len = mesg.front().length();
+        // If no error was registered then use the same text as print()
+        const string text =
+            mesg.empty() ? "Last operation was successful." : mesg.front();
+        size_t len = text.length();
         *message = (char *)(malloc(len + 1));
         if (*message == NULL) {
             return da_status_memory_error; // LCOV_EXCL_LINE
         }
         /* Most of the time MSVC compiler can automatically replace CRT functions with _s versions, but not this one */
 #if defined(_MSC_VER)
-        strncpy_s(*message, 1 + len, mesg.front().c_str(), len);
+        strncpy_s(*message, 1 + len, text.c_str(), len);
 #else
-        strncpy(*message, mesg.front().c_str(), len);
+        strncpy(*message, text.c_str(), len);
 #endif
         // Ensure null termination
         (*message)[len] = '\0';
-- 
2.43.0


From a2c2906d2c187acaaf458a1db0629addcb718538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:28 +0000
Subject: [PATCH 099/116] fix: refused option settings leave the trained model
 available

---
 source/core/utilities/options_public.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/options_public.cpp b/source/core/utilities/options_public.cpp
index 8254030..97456ea 100644
--- a/source/core/utilities/options_public.cpp
+++ b/source/core/utilities/options_public.cpp
@@ -44,7 +44,7 @@ da_status da_options_set(da_handle handle, const char *option, T value) {
     }
 
     da_options::OptionRegistry *opts;
-    status = handle->get_current_opts(&opts, true);
+    status = handle->get_current_opts(&opts);
     if (status != da_status_success)
         return status; // Error message already loaded
 
@@ -53,7 +53,8 @@ da_status da_options_set(da_handle handle, const char *option, T value) {
         // Construct error based on status & opts->errmsg string
         return da_error(handle->err, status, opts->errmsg);
     }
-    return da_status_success;
+    // The option was changed: let the handle know
+    return handle->get_current_opts(&opts, true);
 }
 
 da_status da_options_get(da_handle handle, const char *option, char *value,
-- 
2.43.0


From 0ced0f3bfb522a94b712f8d56c17e533877a916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:47 +0000
Subject: [PATCH 100/116] fix: tree and forest: refused training data does not
 release the data in use

---
 .../decision_forest_handle_utilities.hpp      | 24 ++++++++-------
 .../tree/decision_tree_handle_utilities.hpp   | 30 +++++++++++--------
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
index 7ba96ca..c525f05 100644
--- a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
+++ b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
@@ -106,22 +106,26 @@ da_status decision_forest<T>::set_training_data(da_int n_samples, da_int n_featu
                                                 da_int n_class,
                                                 const da_int *usr_cat_feat) {
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    if (X_temp) {
-        delete[] (X_temp);
-        X_temp = nullptr;
-    }
-
-    da_status status =
-        this->store_2D_array(n_samples, n_features, X, ldx, &X_temp, &this->X, this->ldx,
-                             "n_samples", "n_features", "X", "ldx");
+    // Check the arguments before replacing any data set by a previous call
+    da_status status = this->check_1D_array(n_samples, y, "n_samples", "y", 1);
     if (status != da_status_success)
         return status;
 
-    status = this->check_1D_array(n_samples, y, "n_samples", "y", 1);
+    T *new_X_temp = nullptr;
+    const T *new_X = nullptr;
+    da_int new_ldx = 0;
+    status = this->store_2D_array(n_samples, n_features, X, ldx, &new_X_temp, &new_X,
+                                  new_ldx, "n_samples", "n_features", "X", "ldx");
     if (status != da_status_success)
         return status;
 
+    // Guard against errors due to multiple calls using the same class instantiation
+    if (X_temp)
+        delete[] (X_temp);
+    X_temp = new_X_temp;
+    this->X = new_X;
+    this->ldx = new_ldx;
+
     // Trees of previous data are out of date
     this->model_trained = false;
     this->refresh();
diff --git a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
index 586589f..30a7f34 100644
--- a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
+++ b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
@@ -47,19 +47,8 @@ da_status decision_tree<T>::set_training_data(da_int n_samples, da_int n_feature
                                               da_int *samples_subset,
                                               const da_int *usr_cat_feat) {
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    if (X_temp) {
-        delete[] (X_temp);
-        X_temp = nullptr;
-    }
-
-    da_status status =
-        this->store_2D_array(n_samples, n_features, X, ldx, &X_temp, &this->X, this->ldx,
-                             "n_samples", "n_features", "X", "ldx");
-    if (status != da_status_success)
-        return status;
-
-    status = this->check_1D_array(n_samples, y, "n_samples", "y", 1);
+    // Check the arguments before replacing any data set by a previous call
+    da_status status = this->check_1D_array(n_samples, y, "n_samples", "y", 1);
     if (status != da_status_success)
         return status;
 
@@ -70,6 +59,21 @@ da_status decision_tree<T>::set_training_data(da_int n_samples, da_int n_feature
                                    std::to_string(n_samples));
     }
 
+    T *new_X_temp = nullptr;
+    const T *new_X = nullptr;
+    da_int new_ldx = 0;
+    status = this->store_2D_array(n_samples, n_features, X, ldx, &new_X_temp, &new_X,
+                                  new_ldx, "n_samples", "n_features", "X", "ldx");
+    if (status != da_status_success)
+        return status;
+
+    // Guard against errors due to multiple calls using the same class instantiation
+    if (X_temp)
+        delete[] (X_temp);
+    X_temp = new_X_temp;
+    this->X = new_X;
+    this->ldx = new_ldx;
+
     this->refresh();
     this->y = y;
     this->n_samples = n_samples;
-- 
2.43.0


From 1f401048504b58eb6ef1ddbdf78abc4ea006e7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:47 +0000
Subject: [PATCH 101/116] fix: DBSCAN: option changes do not release the data,
 and sizes of scalar results are checked

---
 source/core/clustering/dbscan/dbscan.cpp | 36 +++++++++++++++++-------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index 4bf7fb2..6c9e28b 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -149,9 +149,21 @@ da_status dbscan<T>::get_result(da_result query, da_int *dim, da_int *result) {
         break;
     }
     case da_result::da_dbscan_n_clusters:
+        if (*dim < 1) {
+            *dim = 1;
+            return da_warn(this->err, da_status_invalid_array_dimension,
+                           "The array is too small. Please provide an array of at "
+                           "least size: 1.");
+        }
         *result = n_clusters;
         break;
     case da_result::da_dbscan_n_core_samples:
+        if (*dim < 1) {
+            *dim = 1;
+            return da_warn(this->err, da_status_invalid_array_dimension,
+                           "The array is too small. Please provide an array of at "
+                           "least size: 1.");
+        }
         *result = n_core_samples;
         break;
     default:
@@ -163,10 +175,6 @@ da_status dbscan<T>::get_result(da_result query, da_int *dim, da_int *result) {
 };
 
 template <typename T> void dbscan<T>::refresh() {
-    if (A_temp) {
-        delete[] (A_temp);
-        A_temp = nullptr;
-    }
     this->model_trained = false;
     neighbors.clear();
     labels.clear();
@@ -180,14 +188,22 @@ template <typename T>
 da_status dbscan<T>::set_data(da_int n_samples, da_int n_features, const T *A_in,
                               da_int lda_in) {
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    refresh();
-
+    T *new_A_temp = nullptr;
+    const T *new_A = nullptr;
+    da_int new_lda = 0;
     da_status status =
-        this->store_2D_array(n_samples, n_features, A_in, lda_in, &A_temp, &A, lda,
-                             "n_samples", "n_features", "A", "lda");
+        this->store_2D_array(n_samples, n_features, A_in, lda_in, &new_A_temp, &new_A,
+                             new_lda, "n_samples", "n_features", "A", "lda");
     if (status != da_status_success)
-        return status; // LCOV_EXCL_LINE
+        return status;
+
+    // Guard against errors due to multiple calls using the same class instantiation
+    refresh();
+    if (A_temp)
+        delete[] (A_temp);
+    A_temp = new_A_temp;
+    A = new_A;
+    lda = new_lda;
 
     // Store dimensions of A
     this->n_samples = n_samples;
-- 
2.43.0


From 6fb245d4552ce353f1960073e08190a235c2aecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:12 +0000
Subject: [PATCH 102/116] fix: leading dimensions are checked before the data
 is scanned for NaNs

---
 source/core/utilities/basic_handle.cpp | 30 +++++++++++++-------------
 source/core/utilities/da_utils.cpp     | 15 +++++++------
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/source/core/utilities/basic_handle.cpp b/source/core/utilities/basic_handle.cpp
index 1c6c48c..c1210ed 100644
--- a/source/core/utilities/basic_handle.cpp
+++ b/source/core/utilities/basic_handle.cpp
@@ -159,21 +159,6 @@ da_status basic_handle<T>::store_2D_array(
     if (!aux)
         this->order = da_order(iorder);
 
-    // Check for NaNs if the `check data` option has been set
-    da_int check_data{!aux &&
-                      (mode == 0 || mode == 3)}; // skip for mode 1 or if aux handle
-    if (check_data) {
-        std::string check_data_str;
-        this->opts.get("check data", check_data_str, check_data);
-        if (check_data) {
-            status = ARCH::da_utils::check_data((da_order)this->order, n_rows, n_cols,
-                                                data, lddata);
-            if (status == da_status_invalid_input)
-                return da_error(this->err, da_status_invalid_input,
-                                "The array " + data_name + " contains at least one NaN.");
-        }
-    }
-
     std::string wrong_order = "";
 
     switch (this->order) {
@@ -212,6 +197,21 @@ da_status basic_handle<T>::store_2D_array(
         break;
     }
 
+    // Check for NaNs if the `check data` option has been set
+    da_int check_data{!aux &&
+                      (mode == 0 || mode == 3)}; // skip for mode 1 or if aux handle
+    if (check_data) {
+        std::string check_data_str;
+        this->opts.get("check data", check_data_str, check_data);
+        if (check_data) {
+            status = ARCH::da_utils::check_data((da_order)this->order, n_rows, n_cols,
+                                                data, lddata);
+            if (status == da_status_invalid_input)
+                return da_error(this->err, da_status_invalid_input,
+                                "The array " + data_name + " contains at least one NaN.");
+        }
+    }
+
     if (mode == 3) {
         // Mode 3: all done, exit
         return da_status_success;
diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index 75403b3..881f22c 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -606,13 +606,6 @@ da_status check_2D_array(bool check_data, da_order order, da_errors::da_error_t
         return da_error(err, da_status_invalid_pointer,
                         "The array " + data_name + " is null.");
 
-    if (check_data) {
-        status = ARCH::da_utils::check_data(order, n_rows, n_cols, data, lddata);
-        if (status == da_status_invalid_input)
-            return da_error(err, da_status_invalid_input,
-                            "The array " + data_name + " contains at least one NaN.");
-    }
-
     std::string wrong_order = "";
 
     switch (order) {
@@ -649,6 +642,14 @@ da_status check_2D_array(bool check_data, da_order order, da_errors::da_error_t
         break;
     }
 
+    // The leading dimension is known to be valid, so the data can be scanned
+    if (check_data) {
+        status = ARCH::da_utils::check_data(order, n_rows, n_cols, data, lddata);
+        if (status == da_status_invalid_input)
+            return da_error(err, da_status_invalid_input,
+                            "The array " + data_name + " contains at least one NaN.");
+    }
+
     return da_status_success;
 }
 
-- 
2.43.0


From a15e8253ac21712f6110d0eaeb3839f181e86846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:24 +0000
Subject: [PATCH 103/116] fix: DBSCAN: parallel clustering finds the connected
 components of the core samples

---
 source/core/clustering/dbscan/dbscan.cpp | 105 ++++++++++++-----------
 source/core/clustering/dbscan/dbscan.hpp |   1 -
 2 files changed, 55 insertions(+), 51 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index 6c9e28b..64150c3 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -36,6 +36,7 @@
 #include "pairwise_distances.hpp"
 #include "radius_neighbors.hpp"
 #include <algorithm>
+#include <atomic>
 #include <iostream>
 #include <random>
 #include <set>
@@ -311,93 +312,97 @@ template <typename T> da_status dbscan<T>::compute() {
 template <typename T> da_status dbscan<T>::dbscan_clusters_parallel() {
 
     da_status status = da_status_success;
+    std::vector<std::atomic<da_int>> parent;
     std::vector<da_int> remap;
-    da_int next_id = 0;
     // Add telemetry to the context class
     context_set_hidden_settings("dbscan.setup"s, "clustering=parallel"s);
 
     try {
-        duplicate_labels.resize(n_samples);
+        parent = std::vector<std::atomic<da_int>>(n_samples);
         remap.resize(n_samples, NOISE);
     } catch (std::bad_alloc const &) {
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation failed.");
     }
 
-    da_std::fill(labels.begin(), labels.end(), NOISE);
-    da_std::fill(duplicate_labels.begin(), duplicate_labels.end(), NOISE);
+    // The clusters are the connected components of the core samples. They are found using a
+    // concurrent union-find, in which the root of each component is its lowest index.
+    for (da_int i = 0; i < n_samples; i++)
+        parent[i] = i;
+
+    auto find_root = [&parent](da_int i) {
+        while (true) {
+            da_int p = parent[i].load();
+            if (p == i)
+                return i;
+            da_int grandparent = parent[p].load();
+            if (p != grandparent)
+                parent[i].compare_exchange_weak(p, grandparent);
+            i = grandparent;
+        }
+    };
+
+    auto unite = [&parent, &find_root](da_int i, da_int j) {
+        while (true) {
+            i = find_root(i);
+            j = find_root(j);
+            if (i == j)
+                return;
+            if (i < j)
+                std::swap(i, j);
+            da_int expected = i;
+            if (parent[i].compare_exchange_strong(expected, j))
+                return;
+        }
+    };
 
 #pragma omp parallel default(none)                                                       \
-    shared(labels, neighbors, n_clusters, n_core_samples, min_samples_m1, n_samples,     \
-               status, duplicate_labels, is_core_sample, next_id, remap)
+    shared(labels, neighbors, n_clusters, n_samples, is_core_sample, remap, find_root,   \
+               unite)
     {
 
-// Parallel loop to compute DBSCAN clusters
+// Parallel loop to merge neighboring core points
 #pragma omp for schedule(guided, 64)
         for (da_int i = 0; i < n_samples; i++) {
             if (is_core_sample[i]) {
-                // This is a core point
-                da_int tmp_label_i;
-#pragma omp atomic read
-                tmp_label_i = labels[i];
-                if (i < tmp_label_i || tmp_label_i == NOISE) {
-#pragma omp atomic write
-                    // Assign it its own index as the cluster label - we will combine clusters later
-                    labels[i] = i;
-                }
-
-                // Loop through each point in the epsilon neighborhood of point i
                 auto &this_neighbor = neighbors[i];
                 for (da_int j = 0; j < (da_int)this_neighbor.size(); j++) {
                     da_int sample_point_j = this_neighbor[j];
-                    da_int tmp_label_j;
-#pragma omp atomic read
-                    tmp_label_j = labels[sample_point_j];
-                    // Record that i and j are in the same cluster
-                    if (i < sample_point_j)
-                        duplicate_labels[sample_point_j] = i;
-                    else
-                        duplicate_labels[i] = sample_point_j;
-
-                    if (i < tmp_label_j || tmp_label_j == NOISE) {
-#pragma omp atomic write
-                        labels[sample_point_j] = i;
-                    }
+                    if (is_core_sample[sample_point_j])
+                        unite(i, sample_point_j);
                 }
             }
         }
 
+// Label the points using the lowest root among the clusters they belong or are adjacent to
 #pragma omp for schedule(guided, 64)
         for (da_int i = 0; i < n_samples; i++) {
-            da_int current_label = labels[i];
-            if (current_label == NOISE) {
-                continue;
-            }
-
-            // Follow the chain of labels to find the lowest one
-            while (duplicate_labels[current_label] != NOISE) {
-                current_label = duplicate_labels[current_label];
+            da_int label = NOISE;
+            if (is_core_sample[i]) {
+                label = find_root(i);
+            } else {
+                auto &this_neighbor = neighbors[i];
+                for (da_int j = 0; j < (da_int)this_neighbor.size(); j++) {
+                    da_int sample_point_j = this_neighbor[j];
+                    if (is_core_sample[sample_point_j]) {
+                        da_int root = find_root(sample_point_j);
+                        if (label == NOISE || root < label)
+                            label = root;
+                    }
+                }
             }
-
-            labels[i] = current_label;
+            labels[i] = label;
         }
 
         // Relabel clusters to have consecutive numbering starting from 0
 #pragma omp single
         {
             for (da_int i = 0; i < n_samples; i++) {
-                da_int lab = labels[i];
-                if (lab == NOISE)
-                    continue;
-                if (remap[lab] == NOISE) {
-                    remap[lab] = next_id;
-                    next_id++;
-                }
+                if (is_core_sample[i] && labels[i] == i)
+                    remap[i] = n_clusters++;
             }
-            n_clusters = next_id;
         }
 
-#pragma omp barrier
 #pragma omp for schedule(static)
         for (da_int i = 0; i < n_samples; ++i) {
             da_int lab = labels[i];
diff --git a/source/core/clustering/dbscan/dbscan.hpp b/source/core/clustering/dbscan/dbscan.hpp
index eab0b33..71b7677 100644
--- a/source/core/clustering/dbscan/dbscan.hpp
+++ b/source/core/clustering/dbscan/dbscan.hpp
@@ -77,7 +77,6 @@ template <typename T> class dbscan : public basic_handle<T> {
     std::vector<da_vector::da_vector<da_int>>
         neighbors; // Use da_vector since we will be dynamically expanding this array
     std::vector<bool> is_core_sample;
-    std::vector<da_int> duplicate_labels;
 
     // Miscellaneous variables
     da_int min_samples_m1 = 0;
-- 
2.43.0


From 269d4b7d290a7c90cc57aff2500c1d5b55672b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:24 +0000
Subject: [PATCH 104/116] fix: DBSCAN: brute force Minkowski distances with
 power 2 use the radius asked for

---
 source/core/nearest_neighbors/radius_neighbors.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/source/core/nearest_neighbors/radius_neighbors.cpp b/source/core/nearest_neighbors/radius_neighbors.cpp
index d5fa3a7..843a997 100644
--- a/source/core/nearest_neighbors/radius_neighbors.cpp
+++ b/source/core/nearest_neighbors/radius_neighbors.cpp
@@ -62,13 +62,11 @@ da_status radius_neighbors_brute(da_int n_samples, da_int n_features, const T *A
     std::vector<T> A_norms;
     std::vector<std::vector<T>> D;
 
-    // For da_euclidean it is more efficient to use the squared distance
-    T eps_internal = (metric == da_euclidean_gemm) ? eps * eps : eps;
+    // For the Euclidean distance it is more efficient to use the squared distance
+    bool use_squared = metric == da_euclidean_gemm || (metric == da_minkowski && p == T(2.0));
+    T eps_internal = use_squared ? eps * eps : eps;
 
-    da_metric metric_internal =
-        (metric == da_euclidean_gemm || (metric == da_minkowski && p == T(2.0)))
-            ? da_sqeuclidean_gemm
-            : metric;
+    da_metric metric_internal = use_squared ? da_sqeuclidean_gemm : metric;
 
     try {
         D.resize(n_threads);
-- 
2.43.0


From 9da6a11d2e7db1cfd7a4bac23218988fe693ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:24 +0000
Subject: [PATCH 105/116] fix: DBSCAN: the automatic choice of algorithm does
 not use trees for metrics they do not support

---
 source/core/clustering/dbscan/dbscan.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index 64150c3..d78f530 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -270,8 +270,10 @@ template <typename T> da_status dbscan<T>::compute() {
     alg_internal = da_neighbors_types::nn_algorithm(algorithm);
     if (alg_internal == automatic) {
         // If the user has not specified an algorithm, we will use the k-d tree if the data is small
-        // in dimension and the Minkowski options allow it. Otherwise we will use brute force.
-        if (n_features <= 15 && !(metric_internal == da_minkowski && p < (T)1.0)) {
+        // in dimension and the metric allows it. Otherwise we will use brute force.
+        if (n_features <= 15 && metric_internal != da_cosine &&
+            metric_internal != da_sqeuclidean_gemm &&
+            !(metric_internal == da_minkowski && p < (T)1.0)) {
             alg_internal = kd_tree;
         } else {
             alg_internal = brute;
-- 
2.43.0


From 3b09b134fcee716af6be54ec175788a6b4781f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:08 +0000
Subject: [PATCH 106/116] fix: nonlinear least squares: refused definitions
 change neither the problem nor the results

---
 source/core/nlls/nlls_public.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/source/core/nlls/nlls_public.hpp b/source/core/nlls/nlls_public.hpp
index 74ce663..204b113 100644
--- a/source/core/nlls/nlls_public.hpp
+++ b/source/core/nlls/nlls_public.hpp
@@ -40,6 +40,14 @@ da_status nlls_define_residuals(da_handle handle, da_int n_coef, da_int n_res,
                         "handle was not initialized with handle_type=da_handle_nlls or "
                         "handle is invalid.");
 
+    // Check all the arguments before changing the problem currently defined
+    if (n_coef <= 0 || n_res <= 0)
+        return da_error(handle->err, da_status_invalid_input,
+                        "n_coef and n_res must be positive.");
+    if (!resfun)
+        return da_error(handle->err, da_status_invalid_input,
+                        "resfun must point to the residual function.");
+
     nlls->refresh();
     da_status status;
     status = nlls->add_vars(n_coef);
@@ -59,8 +67,10 @@ da_status nlls_define_bounds(da_handle handle, da_int n_coef, T *lower, T *upper
                         "handle was not initialized with handle_type=da_handle_nlls or "
                         "handle is invalid.");
 
-    nlls->refresh();
-    return nlls->add_bound_cons(n_coef, lower, upper);
+    da_status status = nlls->add_bound_cons(n_coef, lower, upper);
+    if (status == da_status_success)
+        nlls->refresh();
+    return status;
 }
 
 template <typename nlls_class, typename T>
@@ -71,8 +81,10 @@ da_status nlls_define_weights(da_handle handle, da_int n_coef, T *weights) {
                         "handle was not initialized with handle_type=da_handle_nlls or "
                         "handle is invalid.");
 
-    nlls->refresh();
-    return nlls->add_weights(n_coef, weights);
+    da_status status = nlls->add_weights(n_coef, weights);
+    if (status == da_status_success)
+        nlls->refresh();
+    return status;
 }
 
 template <typename nlls_class, typename T>
-- 
2.43.0


From beefa94b0534fb71258b35f71a757655b83a4ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:00 +0000
Subject: [PATCH 107/116] fix: nonlinear least squares: an information array
 that is too small gives the documented status

---
 source/core/optimization/optimization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/optimization/optimization.cpp b/source/core/optimization/optimization.cpp
index f24841d..b241fb9 100644
--- a/source/core/optimization/optimization.cpp
+++ b/source/core/optimization/optimization.cpp
@@ -91,7 +91,7 @@ template <typename T> da_status da_optimization<T>::get_info(da_int &dim, T info
     if (dim < mlen) {
         dim = mlen;
         return da_warn(
-            this->err, da_status_operation_failed,
+            this->err, da_status_invalid_array_dimension,
             "Failed to copy info array, make sure info is of length at least " +
                 std::to_string(mlen));
     }
-- 
2.43.0


From a08dd78ca6f5c8661cc6f0e9936bfb4fb5ffce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:03 +0000
Subject: [PATCH 108/116] fix: PCA: the size of the array for the total
 variance is checked

---
 source/core/factorization/pca/pca.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index b9a08f2..092fd4f 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -236,6 +236,12 @@ da_status pca<T>::get_result(da_result query, da_int *dim, T *result) {
             result[i] = column_sdevs[i];
         break;
     case da_result::da_pca_total_variance:
+        if (*dim < 1) {
+            *dim = 1;
+            return da_warn(this->err, da_status_invalid_array_dimension,
+                           "The array is too small. Please provide an array of at "
+                           "least size: 1.");
+        }
         result[0] = total_variance;
         break;
     default:
-- 
2.43.0


From 650d7ee03b34ec941c6251d70ebf2fc95b0c9dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:03 +0000
Subject: [PATCH 109/116] fix: PCA: refused data does not release the data in
 use

---
 source/core/factorization/pca/pca.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 092fd4f..5538062 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -255,13 +255,6 @@ da_status pca<T>::get_result(da_result query, da_int *dim, T *result) {
 template <typename T>
 da_status pca<T>::init(da_int n, da_int p, const T *A_in, da_int lda_in) {
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    if (A_temp) {
-        delete[] (A_temp);
-        A_temp = nullptr;
-        A = nullptr;
-    }
-
     // Read in data storage option
     std::string opt_order;
     da_int iorder;
@@ -274,6 +267,13 @@ da_status pca<T>::init(da_int n, da_int p, const T *A_in, da_int lda_in) {
     if (status != da_status_success)
         return status;
 
+    // Guard against errors due to multiple calls using the same class instantiation
+    if (A_temp) {
+        delete[] (A_temp);
+        A_temp = nullptr;
+        A = nullptr;
+    }
+
     // We'll always store A in column-major format internally
     if (this->order == row_major) {
         A_temp = new T[n * p];
-- 
2.43.0


From 6010769b0cd1ee64a4c0aba4018c84fa4a64a8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:03 +0000
Subject: [PATCH 110/116] fix: PCA: computing again with another solver does
 not apply the reflectors of the former QR factorization

---
 source/core/factorization/pca/pca.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 5538062..a8c34ab 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -290,7 +290,6 @@ da_status pca<T>::init(da_int n, da_int p, const T *A_in, da_int lda_in) {
     this->n = n;
     this->p = p;
 
-    qr = false;
     store_U = false;
 
     u.resize(0);
@@ -339,6 +338,7 @@ template <typename T> da_status pca<T>::compute() {
     }
 
     ns = npc;
+    qr = false;
     std::string opt_method;
 
     this->opts.get("pca method", opt_method, method);
-- 
2.43.0


From 831eba91c8175eaaad5bb3cd298dc3c2b42a7ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 111/116] fix: PCA: the inverse transform neither replaces nor
 misuses column means that are all zero

---
 source/core/factorization/pca/pca.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index a8c34ab..75a9a45 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -1036,21 +1036,18 @@ da_status pca<T>::inverse_transform(da_int k, da_int r, const T *X, da_int ldx,
                         inv_transform_operator, ld_inv_transform_operator, 0.0,
                         X_inv_transform, ldx_inv_transform);
 
-    // Undo the standardization used in the PCA computation
-    switch (method) {
-    case pca_method_cov:
-        ARCH::da_basic_statistics::standardize(this->order, da_axis_col, k, p,
-                                               X_inv_transform, ldx_inv_transform, dof, 1,
-                                               column_means.data(), (T *)nullptr);
-        break;
-    case pca_method_corr:
-        ARCH::da_basic_statistics::standardize(this->order, da_axis_col, k, p,
-                                               X_inv_transform, ldx_inv_transform, dof, 1,
-                                               column_means.data(), column_sdevs.data());
-        break;
-    default:
-        // No standardization is required
-        break;
+    // Undo the standardization used in the PCA computation. Note that the standardize API cannot
+    // be used here as it replaces shifts and scales that are all zero by those of its input
+    if (method == pca_method_cov || method == pca_method_corr) {
+        da_int stride_row = (this->order == column_major) ? 1 : ldx_inv_transform;
+        da_int stride_col = (this->order == column_major) ? ldx_inv_transform : 1;
+        for (da_int j = 0; j < p; j++) {
+            T scale = (method == pca_method_corr) ? column_sdevs_nonzero[j] : (T)1.0;
+            for (da_int i = 0; i < k; i++) {
+                T &x = X_inv_transform[i * stride_row + j * stride_col];
+                x = x * scale + column_means[j];
+            }
+        }
     }
 
     return da_status_success;
-- 
2.43.0


From c8c596c9ad1be7167a869aa97d89f73e284bda2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:54 +0000
Subject: [PATCH 112/116] fix: kernel PCA failed when the zero eigenvalues of a
 large kernel rounded below -1e-10

---
 source/core/factorization/kernel_pca/kernel_pca.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/core/factorization/kernel_pca/kernel_pca.hpp b/source/core/factorization/kernel_pca/kernel_pca.hpp
index 033f105..0cc80de 100644
--- a/source/core/factorization/kernel_pca/kernel_pca.hpp
+++ b/source/core/factorization/kernel_pca/kernel_pca.hpp
@@ -78,9 +78,11 @@ da_status clamp_near_zero_eigenvalues(std::vector<T> &eigenvalues, da_int n_chec
     Magic number stated in format: double (float)
     4 eigenvalue checks:
         1. Not all eigenvalues are negative.
-        3. No negative eigenvalue has absolute value larger than 1e-10 (1e-6)
+        2. No negative eigenvalue has absolute value larger than 1e-10 (1e-6)
         3. No negative eigenvalue has absolute value larger than 1e-5 (5e-3) * \lambda_0
-        If 1., 2. or 3. fail, return da_status_numerical_difficulties.
+        If 1. fails, or 2. and 3. both fail, return da_status_numerical_difficulties: a
+        negative eigenvalue is significant only if it is so relative to the scale of the
+        kernel, as the rounding errors of an eigenvalue grow with \lambda_0.
         Any negative eigenvalues that pass the tests are set to 0.
         4. Any positive eigenvalue with value smaller than 1e-12 (2e-7) * \lambda_0
             eigenvalue is set to 0.
@@ -100,12 +102,12 @@ da_status clamp_near_zero_eigenvalues(std::vector<T> &eigenvalues, da_int n_chec
 
     pos_bound *= max_eval;
     neg_rel_bound *= max_eval;
-    T strictest_neg_bound = -std::min(neg_abs_bound, neg_rel_bound);
+    const T neg_bound = -std::max(neg_abs_bound, neg_rel_bound);
 
     for (da_int idx = 0; idx < n_total; idx++) {
         T &ev = eigenvalues[idx];
         if (ev < 0) {
-            if (idx < n_check && ev < strictest_neg_bound)
+            if (idx < n_check && ev < neg_bound)
                 return da_status_numerical_difficulties;
 
             ev = 0;
-- 
2.43.0


From 57822da90c64d9df912482b7df4595db307ab9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:58 +0000
Subject: [PATCH 113/116] fix: saving a model with one feature, row-major data
 and a leading dimension above one saved the padding

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 4 ++--
 source/core/utilities/model_persistence.cpp         | 5 -----
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 8817b8a..677fcac 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -2391,11 +2391,11 @@ template <typename T> da_status neighbors<T>::serialize(serialization_buffer &bu
                                             this->n_features, this->ldx_train);
         if (status != da_status_success)
             return status;
-        status = buffer.serialize_user_data(this->y_train_class, this->order,
+        status = buffer.serialize_user_data(this->y_train_class, column_major,
                                             this->n_samples, 1, this->n_samples);
         if (status != da_status_success)
             return status;
-        status = buffer.serialize_user_data(this->y_train_reg, this->order,
+        status = buffer.serialize_user_data(this->y_train_reg, column_major,
                                             this->n_samples, 1, this->n_samples);
         if (status != da_status_success)
             return status;
diff --git a/source/core/utilities/model_persistence.cpp b/source/core/utilities/model_persistence.cpp
index 7e753ec..bc7bca5 100644
--- a/source/core/utilities/model_persistence.cpp
+++ b/source/core/utilities/model_persistence.cpp
@@ -448,11 +448,6 @@ da_status serialization_buffer::serialize_user_data(const T *X, da_order order,
                                                     da_int n, da_int ldx) {
     da_status status;
 
-    // For 1D input, force column-major handling so stride logic stays consistent.
-    if (n == 1) {
-        order = column_major;
-    }
-
     // Save element count first so the payload can be loaded as a vector<T>.
     // If nullptr make sure that the vector size saved is 0.
     da_int vector_size = X != nullptr ? m * n : 0;
-- 
2.43.0


From e75f8ae68cc7fc1ba71930f836a163a24994e6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:07 +0000
Subject: [PATCH 114/116] fix: PCA kept the degrees of freedom of an earlier
 computation, and offered results after a failed one

---
 source/core/factorization/pca/pca.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 75a9a45..7f2d167 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -329,6 +329,9 @@ template <typename T> da_status pca<T>::compute() {
                         "No data has been passed to the handle. Please call "
                         "da_pca_set_data_s or da_pca_set_data_d.");
 
+    // Any previous results are overwritten from here on, even if the computation fails
+    this->model_trained = false;
+
     // Read in options and store in class together with associated variables
     this->opts.get("n_components", npc);
 
@@ -368,6 +371,7 @@ template <typename T> da_status pca<T>::compute() {
     }
 
     std::string degrees_of_freedom;
+    dof = 0;
     div = (n == 1) ? 1 : n - 1;
     this->opts.get("degrees of freedom", degrees_of_freedom);
     if (degrees_of_freedom == "biased") {
-- 
2.43.0


From cd4c14a2dd2da51c2a66d2c45c3efefb085dd7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:28 +0000
Subject: [PATCH 115/116] fix: kernel PCA kept the inverse transform and
 results of an earlier computation

---
 source/core/factorization/kernel_pca/kernel_pca.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/factorization/kernel_pca/kernel_pca.cpp b/source/core/factorization/kernel_pca/kernel_pca.cpp
index ac1ea7e..62131ea 100644
--- a/source/core/factorization/kernel_pca/kernel_pca.cpp
+++ b/source/core/factorization/kernel_pca/kernel_pca.cpp
@@ -327,6 +327,10 @@ template <typename T> da_status kernel_pca<T>::compute() {
                         "No data has been provided. Please call da_kernel_pca_set_data_? "
                         "before da_kernel_pca_compute_?.");
 
+    // Any previous results are overwritten from here on, even if the computation fails
+    this->model_trained = false;
+    inverse_fitted = false;
+
     da_int n_components_opt, kernel_int, fit_inv_int, remove_zero_int, solver_int;
     std::string kernel_str, fit_inv_str, remove_zero_str, solver_str;
 
-- 
2.43.0


From e531568598c5a96badf14460d4722227966dc555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:12 +0000
Subject: [PATCH 116/116] fix: loading validates PCA and kernel PCA models
 against the sizes they state

---
 .../factorization/kernel_pca/kernel_pca.cpp    | 18 ++++++++++++++++++
 source/core/factorization/pca/pca.cpp          | 15 +++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/source/core/factorization/kernel_pca/kernel_pca.cpp b/source/core/factorization/kernel_pca/kernel_pca.cpp
index 62131ea..509d8ba 100644
--- a/source/core/factorization/kernel_pca/kernel_pca.cpp
+++ b/source/core/factorization/kernel_pca/kernel_pca.cpp
@@ -1067,6 +1067,11 @@ template <typename T> da_status kernel_pca<T>::serialize(serialization_buffer &b
 
     da_int kernel_type_int = static_cast<da_int>(this->kernel_type);
     io_dispatch(kernel_type_int);
+    if (status == da_status_success &&
+        (kernel_type_int < static_cast<da_int>(pca_kernel::rbf) ||
+         kernel_type_int > static_cast<da_int>(pca_kernel::precomputed)))
+        return da_error(this->err, da_status_invalid_file_data,
+                        "The saved model is not consistent.");
     this->kernel_type = static_cast<da_kernel_pca_types::pca_kernel>(kernel_type_int);
 
     io_dispatch(this->degree);
@@ -1105,6 +1110,19 @@ template <typename T> da_status kernel_pca<T>::load_model(serialization_buffer &
     da_status status = basic_handle<T>::load_model(buffer);
     if (status != da_status_success)
         return da_error_trace(this->err, status, "Failure deserializing model.");
+    // All the arrays must have the sizes the model states
+    const size_t ns64 = (size_t)n_samples, nf64 = (size_t)n_features;
+    if (!this->model_trained || n_samples < 1 || n_features < 1 || n_components < 0 ||
+        n_components > n_samples ||
+        (kernel_type == pca_kernel::precomputed && n_features != n_samples) ||
+        A_copy.size() != ns64 * nf64 || row_means.size() != ns64 ||
+        eigenvalues.size() != (size_t)n_components ||
+        eigenvectors.size() != ns64 * (size_t)n_components ||
+        (inverse_fitted && dual_coef.size() != ns64 * nf64)) {
+        this->model_trained = false;
+        return da_error(this->err, da_status_invalid_file_data,
+                        "The saved model is not consistent.");
+    }
     // Restore A_ptr to point into the deserialized A_copy (packed, no stride padding).
     // After a successful save, A_copy is guaranteed non-empty, so A_copy.data() is valid.
     A_ptr = A_copy.data();
diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 7f2d167..5989a30 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -1115,6 +1115,21 @@ template <typename T> da_status pca<T>::load_model(serialization_buffer &buffer)
     if (status != da_status_success)
         return da_error_trace(this->err, status, "Failure deserializing model.");
 
+    // All the arrays must have the sizes the model states
+    const size_t n64 = (size_t)n, p64 = (size_t)p, npc64 = (size_t)npc;
+    const bool has_means = method == pca_method_cov || method == pca_method_corr;
+    if (!this->model_trained || n < 1 || p < 1 || npc < 1 || npc > std::min(n, p) ||
+        ns != npc || ldvt < npc || div < 1 || method < pca_method_cov ||
+        method > pca_method_svd || vt.size() < (size_t)ldvt * p64 ||
+        sigma.size() < npc64 || (has_means && column_means.size() != p64) ||
+        (method == pca_method_corr &&
+         (column_sdevs.size() != p64 || column_sdevs_nonzero.size() != p64)) ||
+        (store_U && (ldu < n || u.size() < n64 + (size_t)ldu * (npc64 - 1)))) {
+        this->model_trained = false;
+        return da_error(this->err, da_status_invalid_file_data,
+                        "The saved model is not consistent.");
+    }
+
     return status;
 }
 
-- 
2.43.0

