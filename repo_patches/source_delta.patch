From c0048d0099c1ec0ce98a49db995529aef5980323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:41 +0000
Subject: [PATCH 01/76] fix: reject train/test sizes whose sum overflows da_int

train_size + test_size was evaluated in da_int, so two large sizes wrapped
round, passed the check against m and the split read and wrote out of bounds.
---
 source/core/utilities/da_utils.cpp         | 4 ++--
 source/core/utilities/train_test_split.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index 3b7ca18..da538dc 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -361,10 +361,10 @@ da_status validate_parameters_stratified_shuffle(da_int m, da_int train_size,
                                                  const std::vector<da_int> &counts) {
     if (n_classes < 2)
         return da_status_invalid_input;
-    if (train_size + test_size > m)
-        return da_status_invalid_input;
     if (train_size < n_classes || test_size < n_classes)
         return da_status_invalid_input;
+    if (train_size > m - test_size)
+        return da_status_invalid_input;
     for (da_int i = 0; i < n_classes; ++i) {
         if (counts[i] < 2)
             return da_status_invalid_input;
diff --git a/source/core/utilities/train_test_split.cpp b/source/core/utilities/train_test_split.cpp
index e528bf0..7c83ddc 100644
--- a/source/core/utilities/train_test_split.cpp
+++ b/source/core/utilities/train_test_split.cpp
@@ -60,7 +60,7 @@ da_status validate_parameters_train_test_split(da_order order, da_int m, da_int
     if (train_size < 1 || test_size < 1) {
         return da_status_invalid_input;
     }
-    if ((train_size + test_size) > m) {
+    if (train_size > m - test_size) {
         return da_status_invalid_input;
     }
 
-- 
2.43.0


From 05b44b879850234cc96fd137f3e97404ada379d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 02/76] fix: erase intervals strictly inside the erased bounds
 from an interval_set

When every interval of the set lies strictly inside the bounds to erase, both
search iterators are end() and were mistaken for one interval holding the bounds,
so nothing was erased.
---
 source/core/data_management/interval_set.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/data_management/interval_set.cpp b/source/core/data_management/interval_set.cpp
index 91a5c49..3503840 100644
--- a/source/core/data_management/interval_set.cpp
+++ b/source/core/data_management/interval_set.cpp
@@ -129,7 +129,7 @@ da_status interval_set::erase(interval bounds) {
         it_lower = iset.end();
 
     // Every interval between it_lower and it_upper in included in the inserted interval
-    bool is_included = it_lower == it_upper;
+    bool is_included = it_lower == it_upper && it_lower != iset.end();
     if (!is_included) {
         inter_set::iterator it = it_lower;
         if (it != iset.end())
-- 
2.43.0


From ce7bba8d2434a62360a5ec93962ee0d0b27f98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:29 +0000
Subject: [PATCH 03/76] fix: reject an interval enclosing an existing one in
 interval_map::insert

Only the end points of the new interval were looked up, so an interval that
enclosed existing ones was inserted although overlaps must be rejected.
---
 source/core/data_management/interval_map.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/core/data_management/interval_map.hpp b/source/core/data_management/interval_map.hpp
index 9099a69..d081b04 100644
--- a/source/core/data_management/interval_map.hpp
+++ b/source/core/data_management/interval_map.hpp
@@ -117,6 +117,11 @@ template <class T> class interval_map {
             // lb or ub are already in the intervals => trying to create an overlap
             return da_status_invalid_input;
 
+        // Reject bounds that enclose an existing interval
+        auto it_next = imap.lower_bound(interval(lb, lb));
+        if (it_next != imap.end() && it_next->first.lower <= ub)
+            return da_status_invalid_input;
+
         imap.insert(std::make_pair(bounds, val));
         return da_status_success;
     }
-- 
2.43.0


From 993edcea0f519d4c63f704da24851079dce65ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:29 +0000
Subject: [PATCH 04/76] fix: closest_interval for a key below every interval

The iterator to the first interval was decremented, which gave end() instead of
the closest bigger interval as soon as the map held two of them.
---
 source/core/data_management/interval_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/data_management/interval_map.hpp b/source/core/data_management/interval_map.hpp
index d081b04..d2ac565 100644
--- a/source/core/data_management/interval_map.hpp
+++ b/source/core/data_management/interval_map.hpp
@@ -171,7 +171,7 @@ template <class T> class interval_map {
         }
         interval key_pair(key, key);
         auto it_lb = imap.lower_bound(key_pair);
-        if (it_lb == imap.end() || key_pair != it_lb->first)
+        if (it_lb != imap.begin() && (it_lb == imap.end() || key_pair != it_lb->first))
             --it_lb;
         iterator it(it_lb);
         return it;
-- 
2.43.0


From 522803c4c0d5d44be21981843ad74b24a7145c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:41 +0000
Subject: [PATCH 05/76] fix: let a moved-from da_vector grow again

A moved-from vector has capacity 0, which doubling never increases: push_back
wrote out of bounds and append, resize and reserve did not terminate.
---
 source/core/utilities/da_vector.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/source/core/utilities/da_vector.hpp b/source/core/utilities/da_vector.hpp
index c29e90d..0bcf886 100644
--- a/source/core/utilities/da_vector.hpp
+++ b/source/core/utilities/da_vector.hpp
@@ -151,7 +151,7 @@ template <typename T> class da_vector {
 
     void push_back(const T &val) {
         if (_size == _capacity) {
-            _capacity <<= 1;
+            grow_capacity(_size + 1);
             T *new_data = (T *)malloc(_capacity * sizeof(T));
             if (!new_data) {
                 throw std::bad_alloc(); // LCOV_EXCL_LINE
@@ -166,8 +166,7 @@ template <typename T> class da_vector {
     // Append the values of vec onto the end of the vector
     void append(const da_vector<T> &vec) {
         if (_size + vec.size() > _capacity) {
-            while (_size + vec.size() > _capacity)
-                _capacity <<= 1;
+            grow_capacity(_size + vec.size());
             T *new_data = (T *)malloc(_capacity * sizeof(T));
             if (!new_data) {
                 throw std::bad_alloc(); // LCOV_EXCL_LINE
@@ -182,8 +181,7 @@ template <typename T> class da_vector {
 
     void append(const std::vector<T> &vec) {
         if (_size + vec.size() > _capacity) {
-            while (_size + vec.size() > _capacity)
-                _capacity <<= 1;
+            grow_capacity(_size + vec.size());
             T *new_data = (T *)malloc(_capacity * sizeof(T));
             if (!new_data) {
                 throw std::bad_alloc(); // LCOV_EXCL_LINE
@@ -199,8 +197,7 @@ template <typename T> class da_vector {
     void resize(size_t new_size) {
         if (new_size > _capacity) {
             // Need to grow capacity
-            while (_capacity < new_size)
-                _capacity <<= 1;
+            grow_capacity(new_size);
             T *new_data = (T *)malloc(_capacity * sizeof(T));
             if (!new_data) {
                 throw std::bad_alloc(); // LCOV_EXCL_LINE
@@ -221,8 +218,7 @@ template <typename T> class da_vector {
     // Reserve capacity without changing size
     void reserve(size_t new_capacity) {
         if (new_capacity > _capacity) {
-            while (_capacity < new_capacity)
-                _capacity <<= 1;
+            grow_capacity(new_capacity);
             T *new_data = (T *)malloc(_capacity * sizeof(T));
             if (!new_data) {
                 throw std::bad_alloc(); // LCOV_EXCL_LINE
@@ -239,6 +235,14 @@ template <typename T> class da_vector {
     }
 
   private:
+    // Double the capacity until it holds n elements; a moved-from vector has no storage
+    void grow_capacity(size_t n) {
+        if (_capacity == 0)
+            _capacity = INIT_CAPACITY;
+        while (_capacity < n)
+            _capacity <<= 1;
+    }
+
     T *_data;
     size_t _size;
     size_t _capacity;
-- 
2.43.0


From 611b93f86b77b4b68eee214b94210e021439e536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:59 +0000
Subject: [PATCH 06/76] fix: do not read past the radius neighbor counts when
 the output array is longer

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 5f7226a..dcd3d79 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -219,7 +219,7 @@ da_status neighbors<T>::get_result(da_result query, da_int *dim, da_int *result)
                            "least size: " +
                                std::to_string(n_queries + 1) + ".");
         }
-        return neighbors<T>::radius_neighbors_count_internal(n_count, result);
+        return neighbors<T>::radius_neighbors_count_internal(n_queries + 1, result);
         break;
     }
     case da_result::da_nn_radius_neighbors_offsets: {
-- 
2.43.0


From bf1305ff1072579dfb907b08e16a8f67596250a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:59 +0000
Subject: [PATCH 07/76] fix: index probabilities by class position for the
 manual outlier label

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index dcd3d79..697ae85 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1366,7 +1366,7 @@ da_status neighbors<T>::predict_proba_compute_rnn(da_int n_queries, da_int n_fea
                         da_std::fill(proba + j_local, proba + j_local + num_classes, 0.0);
                         // If the manually set outlier label is present in the training labels, set its probability to 1.0
                         if (this->manual_label_index != -1) {
-                            proba[classes[this->manual_label_index] + j_local] = 1.0;
+                            proba[this->manual_label_index + j_local] = 1.0;
                         }
                     } else if (this->outlier_handling ==
                                da_neighbors_types::nn_outlier_handling::most_frequent) {
@@ -1418,7 +1418,7 @@ da_status neighbors<T>::predict_proba_compute_rnn(da_int n_queries, da_int n_fea
                         da_std::fill(proba + j_local, proba + j_local + num_classes, 0.0);
                         // If the manually set outlier label is present in the training labels, set its probability to 1.0
                         if (this->manual_label_index != -1) {
-                            proba[classes[this->manual_label_index] + j_local] = 1.0;
+                            proba[this->manual_label_index + j_local] = 1.0;
                         }
                     } else if (this->outlier_handling ==
                                da_neighbors_types::nn_outlier_handling::most_frequent) {
-- 
2.43.0


From 7ff6773a495f82ddd7c74ef97bddbc5e9deacfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:59 +0000
Subject: [PATCH 08/76] fix: include the last query when sizing the radius
 regression buffer

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 697ae85..33087ae 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1812,7 +1812,7 @@ neighbors<T>::predict_targets_rnn(da_int n_queries, da_int n_features, const T *
             // The size of the maximum number of neighbors for any query
             da_int max_n_neighbors = 0;
             max_n_neighbors = *std::max_element(temp_radius_neighbors_count.begin(),
-                                                temp_radius_neighbors_count.end() - 1);
+                                                temp_radius_neighbors_count.end());
             // Compute the predicted targets.
             // Depending on the indices of the neighbors, for each test data point return the
             // target of each of the neighbors.
-- 
2.43.0


From 0ab706fccb874054f10ffb41e984e1851d1354e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:59 +0000
Subject: [PATCH 09/76] fix: a rejected radius search leaves the previous
 results intact

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 33087ae..9062b54 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1923,9 +1923,6 @@ da_status neighbors<T>::radius_neighbors(da_int n_queries, da_int n_features,
         return da_error_bypass(this->err, da_status_invalid_input,
                                "Cannot sort results if distances are not returned.");
 
-    this->sort_results = sort_results;
-    this->rnn_return_distances = return_distance;
-
     // Return if set_data() has not been called
     if (!istrained_Xtrain)
         return da_error_bypass(this->err, da_status_no_data,
@@ -1964,6 +1961,9 @@ da_status neighbors<T>::radius_neighbors(da_int n_queries, da_int n_features,
         r = this->radius;
     }
 
+    this->sort_results = sort_results;
+    this->rnn_return_distances = return_distance;
+
     status = neighbors<T>::radius_neighbors_compute(
         n_queries, n_features, X_test_temp, ldx_test_temp, r,
         this->radius_neighbors_count, this->radius_neighbors_indices,
-- 
2.43.0


From 28f4b5995d98125cda2e9b22ee4e2c2198afee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:59 +0000
Subject: [PATCH 10/76] fix: recompute class and target summaries when labels
 or targets are replaced

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 9062b54..913168d 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -534,6 +534,10 @@ da_status neighbors<T>::set_labels(da_int n_samples, const da_int *y_train_class
 
     // Set internal pointer to user data
     this->y_train_class = y_train_class;
+    // Anything derived from previous labels needs to be recomputed
+    this->classes_computed = false;
+    this->most_frequent_label_computed = false;
+    this->manual_outlier_label_checked = false;
     this->istrained_labels = true;
     return da_status_success;
 }
@@ -559,6 +563,8 @@ da_status neighbors<T>::set_targets(da_int n_samples, const T *y_train_reg) {
 
     // Set internal pointer to user data
     this->y_train_reg = y_train_reg;
+    // The mean of previous targets needs to be recomputed
+    this->mean_target_computed = false;
     this->istrained_targets = true;
     return da_status_success;
 }
-- 
2.43.0


From 6327cb2065e4227a0c3f6098a9e65fa45c5de085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:38 +0000
Subject: [PATCH 11/76] fix: release the copied query matrix when a neighbors
 call fails

---
 .../nearest_neighbors/nearest_neighbors.cpp   | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 913168d..6de06f7 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -39,6 +39,7 @@
 #include <algorithm>
 #include <cmath>
 #include <map>
+#include <memory>
 #include <numeric>
 #include <set>
 
@@ -971,6 +972,8 @@ da_status neighbors<T>::kneighbors(da_int n_queries, da_int n_features, const T
                                        this->err, this->n_features);
     if (status != da_status_success)
         return status;
+    // Release the copy on every return path
+    std::unique_ptr<T[]> utility_owner(utility_ptr1);
 
     // Check number of requested neighbors
     if ((n_neigh <= 0 && this->n_neighbors <= 0)) {
@@ -1013,8 +1016,6 @@ da_status neighbors<T>::kneighbors(da_int n_queries, da_int n_features, const T
         if (return_distance) {
             da_blas::imatcopy('T', n_neigh, n_queries, 1.0, n_dist, n_neigh, n_queries);
         }
-    } else {
-        delete[] (utility_ptr1);
     }
 
     return status;
@@ -1140,6 +1141,8 @@ da_status neighbors<T>::predict_proba(da_int n_queries, da_int n_features,
                                        this->err, this->n_features);
     if (status != da_status_success)
         return status;
+    // Release the copy on every return path
+    std::unique_ptr<T[]> utility_owner(utility_ptr1);
 
     // Call the compute that assumes column-major order
     if (search_mode == knn_search_mode) {
@@ -1156,8 +1159,6 @@ da_status neighbors<T>::predict_proba(da_int n_queries, da_int n_features,
 
     if (this->order == column_major) {
         da_blas::imatcopy('T', n_classes, n_queries, 1.0, proba, n_classes, n_queries);
-    } else {
-        delete[] (utility_ptr1);
     }
 
     return status;
@@ -1532,6 +1533,8 @@ da_status neighbors<T>::predict(da_int n_queries, da_int n_features, const T *X_
                                        this->err, this->n_features);
     if (status != da_status_success)
         return status;
+    // Release the copy on every return path
+    std::unique_ptr<T[]> utility_owner(utility_ptr1);
 
     if (!this->classes_computed) {
         // From the input data y_train, find the available classes.
@@ -1601,10 +1604,6 @@ da_status neighbors<T>::predict(da_int n_queries, da_int n_features, const T *X_
         }
     }
 
-    if (this->order == row_major) {
-        delete[] (utility_ptr1);
-    }
-
     return status;
 }
 
@@ -1653,6 +1652,8 @@ da_status neighbors<T>::predict(da_int n_queries, da_int n_features, const T *X_
                                        this->err, this->n_features);
     if (status != da_status_success)
         return status;
+    // Release the copy on every return path
+    std::unique_ptr<T[]> utility_owner(utility_ptr1);
 
     if (search_mode == knn_search_mode) {
         status = predict_targets_knn(n_queries, n_features, X_test_temp, ldx_test_temp,
@@ -1666,10 +1667,6 @@ da_status neighbors<T>::predict(da_int n_queries, da_int n_features, const T *X_
                             "Unknown search mode: " + std::to_string(search_mode) + ".");
     }
 
-    if (this->order == row_major) {
-        delete[] (utility_ptr1);
-    }
-
     return status;
 }
 
@@ -1956,6 +1953,8 @@ da_status neighbors<T>::radius_neighbors(da_int n_queries, da_int n_features,
                                        this->err, this->n_features);
     if (status != da_status_success)
         return status;
+    // Release the copy on every return path
+    std::unique_ptr<T[]> utility_owner(utility_ptr1);
 
     // Check radius of requested neighbors
     if (r < 0.0 && this->radius < 0.0) {
@@ -1975,10 +1974,6 @@ da_status neighbors<T>::radius_neighbors(da_int n_queries, da_int n_features,
         this->radius_neighbors_count, this->radius_neighbors_indices,
         this->radius_neighbors_distances, return_distance, sort_results, false);
 
-    if (this->order == row_major) {
-        delete[] (utility_ptr1);
-    }
-
     return status;
 }
 
-- 
2.43.0


From 6720677c3b8436ddd83ff68d6032c97b5d205f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 12/76] fix: reject nearest neighbor predictions with more
 neighbors than samples

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 6de06f7..444ab60 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -913,6 +913,12 @@ inline __attribute__((__always_inline__)) da_status
 neighbors<T>::kneighbors_compute(da_int n_queries, da_int n_features, const T *X_test,
                                  da_int ldx_test, da_int *n_ind, T *n_dist,
                                  da_int n_neigh, bool return_distance) {
+    // Predictions use the "number of neighbors" option, which their callers do not check
+    if (n_neigh > this->n_samples) {
+        return da_error_bypass(this->err, da_status_invalid_input,
+                               "Number of neighbors must not be larger than the number "
+                               "of training samples.");
+    }
 
     if (this->working_algo == da_neighbors_types::nn_algorithm::brute) {
         return neighbors<T>::kneighbors_compute_brute_force(n_queries, n_features, X_test,
-- 
2.43.0


From 73018dc112caba8a9a6e08a5f8d05af5350f3ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 13/76] fix: reject NaN quantiles

---
 source/core/basic_statistics/order_statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/basic_statistics/order_statistics.cpp b/source/core/basic_statistics/order_statistics.cpp
index bb3d886..a31a8ca 100644
--- a/source/core/basic_statistics/order_statistics.cpp
+++ b/source/core/basic_statistics/order_statistics.cpp
@@ -113,7 +113,7 @@ inline da_status get_quantile_indices(const T *q, da_int n_q, da_int length,
                                       da_quantile_type quantile_type,
                                       std::vector<double> &h) {
     for (da_int i = 0; i < n_q; ++i) {
-        if (q[i] < 0 || q[i] > 1)
+        if (!(q[i] >= 0 && q[i] <= 1)) // also rejects NaN
             return da_status_invalid_input;
 
         double qi = static_cast<double>(q[i]);
-- 
2.43.0


From 188caafb94db214340717609edefc9472f8cd00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:06 +0000
Subject: [PATCH 14/76] fix: scale the deviations about given means by the
 number of observations

---
 .../basic_statistics/statistical_utilities.cpp    | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/core/basic_statistics/statistical_utilities.cpp b/source/core/basic_statistics/statistical_utilities.cpp
index bdaf37e..6a78777 100644
--- a/source/core/basic_statistics/statistical_utilities.cpp
+++ b/source/core/basic_statistics/statistical_utilities.cpp
@@ -74,16 +74,20 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
     internal_scale = &scale;
 
     // By computing length we can avoid duplicating some of the logic for the different axis types
-    da_int length;
+    // and n_obs is the number of observations each of the statistics is computed from
+    da_int length, n_obs;
     switch (axis) {
     case da_axis_col:
         length = p;
+        n_obs = n;
         break;
     case da_axis_row:
         length = n;
+        n_obs = p;
         break;
     case da_axis_all:
         length = 1;
+        n_obs = n * p;
         break;
     default:
         return da_status_internal_error; // LCOV_EXCL_LINE
@@ -92,10 +96,13 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
 
     da_int scale_factor = dof;
     if (dof < 0) {
-        scale_factor = length;
+        scale_factor = n_obs;
     } else if (dof == 0) {
-        scale_factor = length - 1;
+        scale_factor = n_obs - 1;
     }
+    // As in variance, a single observation is not scaled
+    if (scale_factor < 1)
+        scale_factor = 1;
 
     // These booleans will help us determine which route the computation should take
     bool shift_is_null = true;
@@ -205,7 +212,7 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
             for (da_int i = 0; i < length; i++) {
                 // Use wider_t so that in _Float16 we can safely compute the input to sqrt without overflowing
                 scale[i] = static_cast<T>(
-                    da_std::sqrt(static_cast<da_fp16::wider_t<T>>(length) *
+                    da_std::sqrt(static_cast<da_fp16::wider_t<T>>(n_obs) *
                                  static_cast<da_fp16::wider_t<T>>(scale[i]) /
                                  static_cast<da_fp16::wider_t<T>>(scale_factor)));
             }
-- 
2.43.0


From 152076acfb0e9c0185d09393ee7428bb90122708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 15/76] fix: start a new record after a carriage return
 whatever its first character

---
 source/core/csv/tokenizer.c | 43 +++++++------------------------------
 1 file changed, 8 insertions(+), 35 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index 43bd491..60de610 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -1104,41 +1104,14 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
         case EAT_CRNL:
             if (c == '\n') {
                 END_LINE();
-            } else if (IS_DELIMITER(c)) {
-                if (self->delim_whitespace) {
-                    END_LINE_STATE(EAT_WHITESPACE);
-                } else {
-                    // Handle \r-delimited files
-                    END_LINE_AND_FIELD_STATE(START_FIELD);
-                }
             } else {
-                if (self->delim_whitespace) {
-                    /* 
-                     * first character of a new record--need to back up and
-                     * reread
-                     * to handle properly...
-                     */
-                    i--;
-                    buf--; // back up one character
-                    END_LINE_STATE(START_RECORD);
-                } else {
-                    // \r line terminator
-
-                    self->stream_len = slen;
-                    if (end_line(self) < 0) {
-                        goto parsingerror;
-                    }
-
-                    stream = self->stream + self->stream_len;
-                    slen = self->stream_len;
-                    self->state = START_RECORD;
-
-                    --i;
-                    buf--; // let's try this character again
-                    if (line_limit > 0 && self->lines == start_lines + line_limit) {
-                        goto linelimit;
-                    }
-                }
+                /*
+                 * \r line terminator: first character of a new record--need to
+                 * back up and reread to handle properly...
+                 */
+                i--;
+                buf--; // back up one character
+                END_LINE_STATE(START_RECORD);
             }
             break;
 
@@ -1147,7 +1120,7 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
         case EAT_CRNL_NOP: // inside an ignored comment line
             self->state = START_RECORD;
             // \r line terminator -- parse this character again
-            if (c != '\n' && !IS_DELIMITER(c)) {
+            if (c != '\n') {
                 --i;
                 --buf;
             }
-- 
2.43.0


From 8b7c55fb611915bb9e58058e089d573e8141d32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 16/76] fix: recognise carriage returns and quotes from the
 first character of a skipped row

---
 source/core/csv/tokenizer.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index 60de610..76ce4de 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -912,15 +912,10 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
             if (should_skip == -1) {
                 goto parsingerror;
             } else if (should_skip) {
-                if (IS_QUOTE(c)) {
-                    self->state = IN_QUOTED_FIELD_IN_SKIP_LINE;
-                } else {
-                    self->state = IN_FIELD_IN_SKIP_LINE;
-
-                    if (IS_TERMINATOR(c)) {
-                        END_LINE();
-                    }
-                }
+                // reread this character as the start of a skipped field
+                self->state = START_FIELD_IN_SKIP_LINE;
+                i--;
+                buf--;
                 break;
             } else if (IS_TERMINATOR(c)) {
                 // \n\r possible
-- 
2.43.0


From 484000de31f2cfd8a922c0f82ad58e5254cac477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:28 +0000
Subject: [PATCH 17/76] fix: keep the blanks starting a line instead of going
 back in the buffer for them

---
 source/core/csv/tokenizer.c | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index 76ce4de..46abe0a 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -858,29 +858,24 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
             break;
 
         case WHITESPACE_LINE:
-            if (IS_TERMINATOR(c)) {
+            if (IS_TERMINATOR(c) || IS_CARRIAGE(c)) {
+                // drop the blanks
+                slen = self->word_start;
+                stream = self->stream + slen;
                 self->file_lines++;
-                self->state = START_RECORD;
-                break;
-            } else if (IS_CARRIAGE(c)) {
-                self->file_lines++;
-                self->state = EAT_CRNL_NOP;
+                self->state = IS_TERMINATOR(c) ? START_RECORD : EAT_CRNL_NOP;
                 break;
             } else if (!self->delim_whitespace) {
+                const int no_field_yet = slen == (uint64_t)self->word_start;
                 if (isblank(c) && c != self->delimiter) {
-                } else { // backtrack
-                    // use i + 1 because buf has been incremented but not i
-                    do {
-                        --buf;
-                        --i;
-                    } while (i + 1 > self->datapos && !IS_TERMINATOR(*buf));
-
-                    // reached a newline rather than the beginning
-                    if (IS_TERMINATOR(*buf)) {
-                        ++buf; // move pointer to first char after newline
-                        ++i;
+                    if (!(no_field_yet && IS_SKIPPABLE_SPACE(c))) {
+                        PUSH_CHAR(c);
                     }
-                    self->state = START_FIELD;
+                } else {
+                    // the blanks belong to the first field, reread what follows
+                    self->state = no_field_yet ? START_FIELD : IN_FIELD;
+                    i--;
+                    buf--;
                 }
                 break;
             }
@@ -947,6 +942,10 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
                     }
                     break;
                 } else if (c != self->delimiter && self->skip_empty_lines) {
+                    // either an empty line or the blanks starting the first field
+                    if (!IS_SKIPPABLE_SPACE(c)) {
+                        PUSH_CHAR(c);
+                    }
                     self->state = WHITESPACE_LINE;
                     break;
                 }
-- 
2.43.0


From c4ef37e9d6af83d99aee1a94bb5b17ce5a7ea867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:28 +0000
Subject: [PATCH 18/76] fix: closing missing fields must not use up the space
 of the remaining data

---
 source/core/csv/tokenizer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index 46abe0a..b92b201 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -551,8 +551,10 @@ static int end_line(parser_t *self) {
     } else {
         // missing trailing delimiters
         if ((self->lines >= self->header_end + 1) && fields < ex_fields) {
-            // might overrun the buffer when closing fields
-            if (make_stream_space(self, ex_fields - fields) < 0) {
+            // might overrun the buffer when closing fields, the rest of the data
+            // still needs its own space
+            if (make_stream_space(self, ex_fields - fields + self->datalen -
+                                            self->datapos) < 0) {
                 int64_t bufsize = 100;
                 self->error_msg = malloc(bufsize);
                 snprintf(self->error_msg, bufsize, "out of memory");
-- 
2.43.0


From 1524340bfb433b565feb6d49fc3d5e5267b7782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:35 +0000
Subject: [PATCH 19/76] fix: address the binned data by its own leading
 dimension when partitioning

---
 .../decision_forest/tree/decision_tree_training_partition.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_partition.hpp b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
index 6a3f8ff..d829d37 100644
--- a/source/core/decision_forest/tree/decision_tree_training_partition.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
@@ -96,7 +96,7 @@ da_int decision_tree<T>::partition_samples_hist_ordered(const node<T> &nd) {
     da_int head_idx = nd.start_idx;
     da_int tail_idx = nd.end_idx;
     uint16_t cat_thresh = nd.category;
-    da_int col_idx = ldx * nd.feature;
+    da_int col_idx = n_samples * nd.feature;
     while (head_idx < tail_idx) {
         da_int head = samples_idx[head_idx];
         da_int tail = samples_idx[tail_idx];
@@ -120,7 +120,7 @@ da_int decision_tree<T>::partition_samples_hist_onevall(const node<T> &nd) {
     da_int head_idx = nd.start_idx;
     da_int tail_idx = nd.end_idx;
     uint16_t cat_thresh = nd.category;
-    da_int col_idx = ldx * nd.feature;
+    da_int col_idx = n_samples * nd.feature;
     while (head_idx < tail_idx) {
         da_int head = samples_idx[head_idx];
         da_int tail = samples_idx[tail_idx];
-- 
2.43.0


From 98192facdae39f4a3c65cb925d7354cfbe3314b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:35 +0000
Subject: [PATCH 20/76] fix: a feature constant in one child node need not be
 constant in its sibling

---
 .../tree/decision_tree_training_fit.hpp           | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index 1bdabd5..d8b26cb 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -173,11 +173,6 @@ da_status decision_tree<T>::split_node_and_add_children(da_int node_idx,
                                                         split<T> &best_split) {
     node<T> &current_node = tree[node_idx];
 
-    // Project back the discovered constant features to the parent
-    if (node_idx > 0 &&
-        tree[current_node.parent_idx].const_feat_idx > current_node.const_feat_idx)
-        tree[current_node.parent_idx].const_feat_idx = current_node.const_feat_idx;
-
     // Split the node and add the 2 children
     if (best_split.feat_idx != -1) {
         current_node.is_leaf = false;
@@ -240,11 +235,6 @@ template <typename T> da_status decision_tree<T>::fit_serial() {
         da_int node_idx = get_next_node_idx();
         node<T> &current_node = tree[node_idx];
 
-        // update the constant features discovered by the sibling node if necessary
-        if (node_idx > 0 &&
-            tree[current_node.parent_idx].const_feat_idx < current_node.const_feat_idx)
-            current_node.const_feat_idx = tree[current_node.parent_idx].const_feat_idx;
-
         best_split.score = current_node.score;
         best_split.feat_idx = -1;
         if (node_idx > 0) {
@@ -322,11 +312,6 @@ template <typename T> da_status decision_tree<T>::fit_parallel() {
                     node_idx = get_next_node_idx();
                     node<T> &current_node = tree[node_idx];
 
-                    if (node_idx > 0 && tree[current_node.parent_idx].const_feat_idx <
-                                            current_node.const_feat_idx)
-                        current_node.const_feat_idx =
-                            tree[current_node.parent_idx].const_feat_idx;
-
                     best_split.score = current_node.score;
                     best_split.feat_idx = -1;
                     if (node_idx > 0) {
-- 
2.43.0


From 200691ba14799cc856c82db629d7e5673dc16b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:35 +0000
Subject: [PATCH 21/76] fix: report the leaf and depth counts of the tree last
 trained

---
 .../core/decision_forest/tree/decision_tree_training_fit.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index d8b26cb..0ae3249 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -504,8 +504,9 @@ template <typename T> da_status decision_tree<T>::fit() {
         n_obs = samples_idx.size();
     }
 
-    // Reset number of leaves (if calling fit multiple times)
+    // Reset number of leaves and depth (if calling fit multiple times)
     n_leaves = 0;
+    depth = 0;
 
     // Initialize the root node
     n_nodes = 1;
@@ -533,6 +534,8 @@ template <typename T> da_status decision_tree<T>::fit() {
     // Insert the root node in the queue if the maximum depth is big enough
     if (max_depth > 0)
         nodes_to_treat.push_back(0);
+    else
+        n_leaves = 1;
 
     if (n_threads_split > 1) {
         status = fit_parallel();
-- 
2.43.0


From 05799e8982a1880f339e9bf8c7ec55a93df9bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 22/76] fix: count samples with equal feature values once when
 the left node is too small

---
 .../core/decision_forest/tree/decision_tree_training_split.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index aa49997..b8412f7 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -383,7 +383,8 @@ void decision_tree<T>::split_raw_continuous(const node<T> &current_node, split<T
                             ns_left, ns_right, left_score, right_score, split_score,
                             ws.feature_values, ws, samp);
         if (ns_left < min_node_sample) {
-            ++sidx;
+            // samples up to next_idx are already counted on the left side
+            sidx = next_idx + 1;
             continue;
         }
         if (ns_right < min_node_sample)
-- 
2.43.0


From 4ae3387ff34d7a3b3e33843beea158cfb2026f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 23/76] fix: weigh bootstrapped samples in one-vs-all splits of
 raw data

---
 .../core/decision_forest/tree/decision_tree_training_split.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index b8412f7..9b8540a 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -327,7 +327,8 @@ void decision_tree<T>::split_raw_onevall(const node<T> &current_node, da_int fea
         da_int idx = samp[i];
         da_int c = y[idx];
         da_int cat = std::round(ws.feature_values[i]);
-        ws.cat_feat_table[cat * n_class + c]++;
+        ws.cat_feat_table[cat * n_class + c] +=
+            bootstrap ? bootstrap_sample_frequency[idx] : 1;
     }
 
     for (da_int cat = 0; cat < cat_feat[feat_idx]; cat++) {
-- 
2.43.0


From 2411c748581210af401e9ee6e1a8a406b3ec821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 24/76] fix: consider every category in one-vs-all splits of
 binned data

---
 .../tree/decision_tree_training_split.hpp        | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index 9b8540a..6f4b08a 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -277,11 +277,17 @@ bool decision_tree<T>::compute_best_split_hist(const node<T> &nd, da_int feat_id
         else
             split_hist_ordered(nd, ns_left, ns_right, cat_start_idx, ws);
 
-        if (ns_left < min_node_sample || ns_left <= old_ns_left)
-            continue;
-        if (ns_right < min_node_sample)
-            break;
-        old_ns_left = ns_left;
+        if (prop == categorical_onevall) {
+            // the node sizes are unrelated from one category to the next
+            if (ns_left < min_node_sample || ns_right < min_node_sample)
+                continue;
+        } else {
+            if (ns_left < min_node_sample || ns_left <= old_ns_left)
+                continue;
+            if (ns_right < min_node_sample)
+                break;
+            old_ns_left = ns_left;
+        }
 
         T left_score = score_function(ns_left, n_class, ws.count_left_classes);
         T right_score = score_function(ns_right, n_class, ws.count_right_classes);
-- 
2.43.0


From c676053366628d65b8deed78374dff98f621c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 25/76] fix: follow categorical splits when predicting
 probabilities

---
 .../tree/decision_tree_inference.hpp               | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index b5935b0..5198174 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -152,13 +152,17 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
         da_int current_node_idx = 0;
         while (!current_node->is_leaf) {
             T feat_val = X_test_temp[ldx_test_temp * current_node->feature + i];
-            if (feat_val < current_node->x_threshold) {
-                current_node_idx = current_node->left_child_idx;
-                current_node = &tree[current_node_idx];
+            bool go_left;
+            if (current_node->prop == continuous ||
+                current_node->prop == categorical_ordered) {
+                go_left = feat_val < current_node->x_threshold;
             } else {
-                current_node_idx = current_node->right_child_idx;
-                current_node = &tree[current_node_idx];
+                da_int cat_val = std::round(feat_val);
+                go_left = cat_val == current_node->category;
             }
+            current_node_idx =
+                go_left ? current_node->left_child_idx : current_node->right_child_idx;
+            current_node = &tree[current_node_idx];
         }
         for (da_int j = 0; j < n_class; j++)
             y_proba_pred_temp[ldy_proba_pred_temp * j + i] =
-- 
2.43.0


From 59d8be32b67e47ab872b055fd9acbd0d03db3f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:28 +0000
Subject: [PATCH 26/76] fix: check the number of classes and the status when
 predicting log probabilities

---
 .../decision_forest/forest/decision_forest_inference.hpp     | 5 ++++-
 source/core/decision_forest/tree/decision_tree_inference.hpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest_inference.hpp b/source/core/decision_forest/forest/decision_forest_inference.hpp
index 9deb638..081f133 100644
--- a/source/core/decision_forest/forest/decision_forest_inference.hpp
+++ b/source/core/decision_forest/forest/decision_forest_inference.hpp
@@ -249,7 +249,10 @@ da_status decision_forest<T>::predict_log_proba(da_int nsamp, da_int nfeat,
                                                 T *y_log_proba, da_int nclass,
                                                 da_int ldy) {
 
-    predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, n_class, ldy);
+    da_status status =
+        predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, nclass, ldy);
+    if (status != da_status_success)
+        return status;
 
     if (this->order == column_major) {
         for (da_int j = 0; j < nclass; j++) {
diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index 5198174..36c151b 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -187,7 +187,7 @@ da_status decision_tree<T>::predict_log_proba(da_int nsamp, da_int nfeat, const
                                               da_int nclass, da_int ldy) {
     da_status status = da_status_success;
 
-    status = predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, n_class, ldy);
+    status = predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, nclass, ldy);
     if (status != da_status_success)
         return status;
 
-- 
2.43.0


From 41011b486c474faa8f43108575b7a9887665057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:28 +0000
Subject: [PATCH 27/76] fix: release the transposed test data when tree and
 forest inference fails

---
 .../forest/decision_forest_inference.hpp           | 14 ++++++++++----
 .../tree/decision_tree_inference.hpp               | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest_inference.hpp b/source/core/decision_forest/forest/decision_forest_inference.hpp
index 081f133..10f459e 100644
--- a/source/core/decision_forest/forest/decision_forest_inference.hpp
+++ b/source/core/decision_forest/forest/decision_forest_inference.hpp
@@ -142,8 +142,8 @@ da_status decision_forest<T>::predict_proba(da_int nsamp, da_int nfeat, const T
                                             da_int ldy) {
 
     const T *X_test_temp;
-    T *utility_ptr1;
-    T *utility_ptr2;
+    T *utility_ptr1 = nullptr;
+    T *utility_ptr2 = nullptr;
     da_int ldx_test_temp;
     T *y_proba_temp;
     da_int ldy_proba_temp;
@@ -177,8 +177,11 @@ da_status decision_forest<T>::predict_proba(da_int nsamp, da_int nfeat, const T
     status = this->store_2D_array(nsamp, nclass, y_proba, ldy, &utility_ptr2,
                                   const_cast<const T **>(&y_proba_temp), ldy_proba_temp,
                                   "n_samples", "n_class", "y_proba", "ldy", 1);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        if (utility_ptr1)
+            delete[] (utility_ptr1);
         return status;
+    }
 
     std::vector<T> sum_proba, y_proba_tree;
     da_int n_blocks, block_rem;
@@ -304,8 +307,11 @@ da_status decision_forest<T>::score(da_int nsamp, da_int nfeat, const T *X_test,
         return status;
 
     status = this->check_1D_array(nsamp, y_test, "n_samples", "y_test", 1);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        if (utility_ptr1)
+            delete[] (utility_ptr1);
         return status;
+    }
 
     if (this->opts.get("block size", block_size) != da_status_success)
         return da_error_trace( // LCOV_EXCL_LINE
diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index 36c151b..771061e 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -100,8 +100,8 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
                                           da_int ldy, da_int mode) {
 
     const T *X_test_temp;
-    T *utility_ptr1;
-    T *utility_ptr2;
+    T *utility_ptr1 = nullptr;
+    T *utility_ptr2 = nullptr;
     da_int ldx_test_temp;
     T *y_proba_pred_temp;
     da_int ldy_proba_pred_temp;
@@ -142,8 +142,11 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
                                   const_cast<const T **>(&y_proba_pred_temp),
                                   ldy_proba_pred_temp, "n_samples", "n_class", "y_proba",
                                   "ldy", mode_output);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        if (utility_ptr1)
+            delete[] (utility_ptr1);
         return status;
+    }
 
     // Fill y_proba_pred with the values of all the requested samples
     node<T> *current_node;
@@ -240,8 +243,11 @@ da_status decision_tree<T>::score(da_int nsamp, da_int nfeat, const T *X_test,
         return status;
 
     status = this->check_1D_array(nsamp, y_test, "n_samples", "y_test", 1);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        if (utility_ptr1)
+            delete[] (utility_ptr1);
         return status;
+    }
 
     node<T> *current_node;
     *accuracy = 0.;
-- 
2.43.0


From 56bf4306ffd827190e2f433b7eccdacb98d5efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:28 +0000
Subject: [PATCH 28/76] fix: training data rejected by a tree or forest must
 not leave released data in use

---
 .../decision_forest/forest/decision_forest_handle_utilities.hpp  | 1 +
 .../core/decision_forest/tree/decision_tree_handle_utilities.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
index 5ed8353..62ae415 100644
--- a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
+++ b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
@@ -107,6 +107,7 @@ da_status decision_forest<T>::set_training_data(da_int n_samples, da_int n_featu
                                                 const da_int *usr_cat_feat) {
 
     // Guard against errors due to multiple calls using the same class instantiation
+    this->init_done = false;
     if (X_temp) {
         delete[] (X_temp);
         X_temp = nullptr;
diff --git a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
index b57e1fc..784068a 100644
--- a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
+++ b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
@@ -48,6 +48,7 @@ da_status decision_tree<T>::set_training_data(da_int n_samples, da_int n_feature
                                               const da_int *usr_cat_feat) {
 
     // Guard against errors due to multiple calls using the same class instantiation
+    this->init_done = false;
     if (X_temp) {
         delete[] (X_temp);
         X_temp = nullptr;
-- 
2.43.0


From a48f2f9a8101d41a960339a72433c9649d2e5586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:28 +0000
Subject: [PATCH 29/76] fix: a forest trained on replaced data is out of date

---
 .../decision_forest/forest/decision_forest_handle_utilities.hpp | 2 +-
 source/core/decision_forest/forest/decision_forest_training.hpp | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
index 62ae415..9bbe93c 100644
--- a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
+++ b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
@@ -123,7 +123,7 @@ da_status decision_forest<T>::set_training_data(da_int n_samples, da_int n_featu
     if (status != da_status_success)
         return status;
 
-    this->refresh();
+    this->model_trained = false;
     this->y = y;
     this->n_samples = n_samples;
     this->n_features = n_features;
diff --git a/source/core/decision_forest/forest/decision_forest_training.hpp b/source/core/decision_forest/forest/decision_forest_training.hpp
index b6bb16e..d97d4c5 100644
--- a/source/core/decision_forest/forest/decision_forest_training.hpp
+++ b/source/core/decision_forest/forest/decision_forest_training.hpp
@@ -68,6 +68,8 @@ template <typename T> da_status decision_forest<T>::fit() {
         return da_error_bypass(this->err, da_status_no_data,
                                "No data has been passed to the handle.");
 
+    this->model_trained = false;
+
     // Read optional parameters
     bool opt_pass = true, bootstrap;
     da_int max_depth, min_node_sample, method, nfeat_split, bootstrap_opt, feat_select,
-- 
2.43.0


From 5c81902a078cd765f417ba92f9b3e0d132ec46f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:28 +0000
Subject: [PATCH 30/76] fix: split neighboring feature values the way
 prediction separates them

---
 .../tree/decision_tree_training_partition.hpp                | 4 ++--
 .../decision_forest/tree/decision_tree_training_split.hpp    | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_partition.hpp b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
index d829d37..0f6aa47 100644
--- a/source/core/decision_forest/tree/decision_tree_training_partition.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
@@ -56,9 +56,9 @@ da_int decision_tree<T>::partition_samples_raw_continuous(const node<T> &nd) {
         da_int t_sidx = samples_idx[tail_idx];
         T head_val = X[start_col + h_sidx];
         T tail_val = X[start_col + t_sidx];
-        if (head_val <= nd.x_threshold)
+        if (head_val < nd.x_threshold)
             head_idx += 1;
-        else if (tail_val > nd.x_threshold)
+        else if (tail_val >= nd.x_threshold)
             tail_idx -= 1;
         else {
             std::swap(samples_idx[head_idx], samples_idx[tail_idx]);
diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index 6f4b08a..5fbc840 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -404,7 +404,10 @@ void decision_tree<T>::split_raw_continuous(const node<T> &current_node, split<T
         if (split_score < sp.score && split_improvement > min_improvement) {
             sp.score = split_score;
             sp.threshold =
-                (ws.feature_values[next_idx] + ws.feature_values[next_idx + 1]) / 2;
+                ws.feature_values[next_idx] / 2 + ws.feature_values[next_idx + 1] / 2;
+            // the midpoint of neighboring values can round to the left one
+            if (sp.threshold <= ws.feature_values[next_idx])
+                sp.threshold = ws.feature_values[next_idx + 1];
             sp.right_score = right_score;
             sp.left_score = left_score;
             sp.prop = continuous;
-- 
2.43.0


From a316d936939b5cd1dfe7b74fb9602f25739d8eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:28 +0000
Subject: [PATCH 31/76] fix: compute bin quantiles in double precision and
 within the space for the bins

---
 source/core/decision_forest/common/histogram.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/core/decision_forest/common/histogram.cpp b/source/core/decision_forest/common/histogram.cpp
index cae7a0d..86b0aa5 100644
--- a/source/core/decision_forest/common/histogram.cpp
+++ b/source/core/decision_forest/common/histogram.cpp
@@ -49,12 +49,12 @@ void bins<T>::compute_thresholds(std::vector<T> &values, da_int vals_idx, da_int
     boost::sort::spreadsort::float_sort(values.begin() + vals_idx,
                                         values.begin() + vals_idx + n_samples);
     da_int n_elem = n_samples;
-    T q_step = 1.0 / (T)max_bin;
-    T last_q = 0.;
+    double q_step = 1.0 / (double)max_bin;
+    double last_q = 0.;
     da_int bin_idx = 0;
-    T q = q_step;
+    double q = q_step;
     da_int thresh_start_idx = feat_idx * (max_bin - 1);
-    while (q <= (T)1.0 - (T)0.001 * q_step) {
+    while (bin_idx < max_bin - 1 && q <= 1.0 - 0.001 * q_step) {
         da_int threshold_idx = (da_int)std::round(q * n_elem) - 1;
         da_int r_idx = threshold_idx;
         // Explore the right side of the threshold for flat regions
@@ -66,7 +66,7 @@ void bins<T>::compute_thresholds(std::vector<T> &values, da_int vals_idx, da_int
             break;
         }
         if (r_idx != threshold_idx) {
-            last_q = (T)(r_idx) / (T)(n_elem);
+            last_q = (double)(r_idx) / (double)(n_elem);
             while (q <= last_q + q_step) {
                 q += q_step;
             }
-- 
2.43.0


From f4b779b8edca3753108465c92e3dbf883664db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:28 +0000
Subject: [PATCH 32/76] fix: report allocation failures while growing a tree or
 binning its data

---
 .../forest/decision_forest_training.hpp          |  8 ++++++--
 .../tree/decision_tree_training_fit.hpp          | 16 ++++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest_training.hpp b/source/core/decision_forest/forest/decision_forest_training.hpp
index d97d4c5..1ce6ccb 100644
--- a/source/core/decision_forest/forest/decision_forest_training.hpp
+++ b/source/core/decision_forest/forest/decision_forest_training.hpp
@@ -130,8 +130,12 @@ template <typename T> da_status decision_forest<T>::fit() {
         return da_error(this->err, da_status_invalid_option,
                         std::string("Exception: ") + e.what());
     }
-    if (use_hist)
-        X_binned->compute_histograms(X, n_samples, n_features, ldx);
+    if (use_hist) {
+        da_status status = X_binned->compute_histograms(X, n_samples, n_features, ldx);
+        if (status != da_status_success)
+            return da_error(this->err, status, // LCOV_EXCL_LINE
+                            "Memory allocation error");
+    }
 
     // Initialize the seeds of all the trees to be able to reproduce results if required
     std::mt19937 mt_engine;
diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index 0ae3249..b010251 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -205,14 +205,19 @@ da_status decision_tree<T>::split_node_and_add_children(da_int node_idx,
 
         // Add children nodes and push them into the queue
         // if potential for further improvements is still high enough
-        add_node(node_idx, false, best_split.right_score, best_split.samp_idx);
+        da_status status =
+            add_node(node_idx, false, best_split.right_score, best_split.samp_idx);
+        if (status != da_status_success)
+            return status;
         if (best_split.right_score > min_split_score &&
             tree[n_nodes - 1].n_samples >= 2 * min_node_sample &&
             tree[n_nodes - 1].depth < max_depth)
             nodes_to_treat.push_back(n_nodes - 1);
         else
             n_leaves += 1;
-        add_node(node_idx, true, best_split.left_score, best_split.samp_idx);
+        status = add_node(node_idx, true, best_split.left_score, best_split.samp_idx);
+        if (status != da_status_success)
+            return status;
         if (best_split.left_score > min_split_score &&
             tree[n_nodes - 1].n_samples >= 2 * min_node_sample &&
             tree[n_nodes - 1].depth < max_depth)
@@ -468,7 +473,10 @@ template <typename T> da_status decision_tree<T>::fit() {
 
     // Compute the bins if needed
     if (use_hist && internal_bins) {
-        X_binned->compute_histograms(X, n_samples, n_features, ldx);
+        status = X_binned->compute_histograms(X, n_samples, n_features, ldx);
+        if (status != da_status_success)
+            return da_error_bypass(this->err, status, // LCOV_EXCL_LINE
+                                   "Memory allocation error");
     }
 
     // Allocate the tree and class_props arrays
@@ -542,7 +550,7 @@ template <typename T> da_status decision_tree<T>::fit() {
     } else {
         status = fit_serial();
     }
-    this->model_trained = true;
+    this->model_trained = status == da_status_success;
     return status;
 }
 
-- 
2.43.0


From c9a7c6c0453bde672e80a40ce5b02afa2738feb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:28 +0000
Subject: [PATCH 33/76] fix: do not index past the end when the last categories
 hold no sample

---
 source/core/decision_forest/common/idx_sorting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/decision_forest/common/idx_sorting.cpp b/source/core/decision_forest/common/idx_sorting.cpp
index 2587ca1..ed79aff 100644
--- a/source/core/decision_forest/common/idx_sorting.cpp
+++ b/source/core/decision_forest/common/idx_sorting.cpp
@@ -187,7 +187,7 @@ void bucket_sort_samples(std::vector<da_int> &indices, std::vector<T> &values,
     }
     da_int s_idx = start_idx;
     for (da_int bidx = 0; bidx < n_cat; bidx++) {
-        memcpy(&indices[s_idx], &buckets[bidx * ldbuck],
+        memcpy(indices.data() + s_idx, buckets.data() + bidx * ldbuck,
                (size_t)bucket_idx[bidx] * sizeof(da_int));
         da_std::fill(values.begin() + s_idx, values.begin() + s_idx + bucket_idx[bidx],
                      (T)bidx);
-- 
2.43.0


From 85086547bfdeabe8612b9cb8ddbf30fa83b7e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:52 +0000
Subject: [PATCH 34/76] fix: split binned features one-vs-all only when their
 values are the categories

---
 source/core/decision_forest/common/histogram.cpp               | 3 +++
 source/core/decision_forest/common/histogram.hpp               | 3 +++
 .../core/decision_forest/tree/decision_tree_training_split.hpp | 3 ++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/common/histogram.cpp b/source/core/decision_forest/common/histogram.cpp
index 86b0aa5..a6b3542 100644
--- a/source/core/decision_forest/common/histogram.cpp
+++ b/source/core/decision_forest/common/histogram.cpp
@@ -130,6 +130,7 @@ da_status bins<T>::compute_histograms(const T *X, da_int n_samples, da_int n_fea
         nbins.resize(n_features);
         values.resize(n_samples * n_threads);
         binned_data.resize(n_features * n_samples);
+        encoded.assign(n_features, 1);
     } catch (std::bad_alloc &) {
         return da_status_memory_error; // LCOV_EXCL_LINE
     }
@@ -158,6 +159,8 @@ da_status bins<T>::compute_histograms(const T *X, da_int n_samples, da_int n_fea
                 }
             }
             binned_data[j * n_samples + i] = start;
+            if (X[X_col_idx + i] != (T)start)
+                encoded[j] = 0;
         }
     }
 
diff --git a/source/core/decision_forest/common/histogram.hpp b/source/core/decision_forest/common/histogram.hpp
index c500c00..fcbd435 100644
--- a/source/core/decision_forest/common/histogram.hpp
+++ b/source/core/decision_forest/common/histogram.hpp
@@ -53,6 +53,7 @@ template <typename T> class bins {
      * nbins: number of bins used for each feature. nbins[j] can be < max_bins for a feature j if it contains highly clustered data.
      *        For example, if feature j is already categorical, nbins[j] will contain the number of categories of j.
      * binned_data: n_samples * n_features. Holds the bin indices for each sample and each feature.
+     * encoded: n_features. Nonzero if all the values of a feature are equal to the index of their bin.
      */
   public:
     da_int max_bin;
@@ -62,6 +63,7 @@ template <typename T> class bins {
     std::vector<T> thresholds;
     std::vector<da_int> nbins;
     std::vector<uint16_t> binned_data;
+    std::vector<uint8_t> encoded;
 
   public:
     bins(da_int max_bin, da_int n_samples, da_int n_features)
@@ -76,6 +78,7 @@ template <typename T> class bins {
         thresholds.resize((this->max_bin - 1) * n_features);
         nbins.resize(n_features);
         binned_data.resize(n_samples * n_features);
+        encoded.resize(n_features, 1);
     }
 
     void compute_thresholds(std::vector<T> &values, da_int vals_idx, da_int feat_idx,
diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index 5fbc840..4934e52 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -261,7 +261,8 @@ bool decision_tree<T>::compute_best_split_hist(const node<T> &nd, da_int feat_id
 
     split_property prop = categorical_ordered;
     da_int n_cat = X_binned->nbins[feat_idx];
-    if (n_cat < X_binned->max_bin)
+    // prediction identifies a category by its value, so the bins must be the categories
+    if (n_cat < X_binned->max_bin && X_binned->encoded[feat_idx])
         prop = (split_property)cat_split_strat;
 
     da_int old_ns_left = 0;
-- 
2.43.0


From b1ddb5a006eb5a584ae77677c0ed672dd3ea3728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 35/76] fix: an invalid interpolation model is refused without
 being selected

---
 source/core/interpolation/interpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/interpolation/interpolation.cpp b/source/core/interpolation/interpolation.cpp
index 9b8ef7e..8785898 100644
--- a/source/core/interpolation/interpolation.cpp
+++ b/source/core/interpolation/interpolation.cpp
@@ -50,7 +50,6 @@ da_status interpolation_p<T>::select_model(da_interpolation_model model) {
         return da_error(this->err, da_status_invalid_input,
                         "Cannot change the interpolation model once it has been set.");
 
-    this->model = model;
     switch (model) {
     case da_interpolation_model::interpolation_cubic_spline:
         interp = std::make_unique<cubic_spline<T>>(*this->err, this->opts);
@@ -61,6 +60,7 @@ da_status interpolation_p<T>::select_model(da_interpolation_model model) {
                         "The model selected is invalid.");
         break;
     }
+    this->model = model;
 
     return da_status_success;
 }
-- 
2.43.0


From e59753b7d81d0dec4bb05e520325508027376c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 36/76] fix: read interpolation values and slopes with their
 own layout and leading dimension

---
 .../cubic_spline/cubic_spline.cpp             | 63 ++++++-------------
 .../interpolation/interpolation_generic.hpp   | 25 +++++---
 2 files changed, 33 insertions(+), 55 deletions(-)

diff --git a/source/core/interpolation/cubic_spline/cubic_spline.cpp b/source/core/interpolation/cubic_spline/cubic_spline.cpp
index 7e577ff..8f23ee9 100644
--- a/source/core/interpolation/cubic_spline/cubic_spline.cpp
+++ b/source/core/interpolation/cubic_spline/cubic_spline.cpp
@@ -160,9 +160,7 @@ template <typename T> void cubic_spline<T>::coeffs_from_second_derivatives() {
         da_int start_dy = d * (this->n_sites - 1);
         da_int start_dim = d * 4 * (this->n_sites - 1);
         for (da_int i = 0; i < this->n_sites - 1; i++) {
-            da_int y_idx = this->storage_order == (da_int)row_major
-                               ? (i * this->dim_y + d)
-                               : (d * this->n_sites + i);
+            da_int y_idx = i * this->y_row_stride + d * this->y_col_stride;
             coeffs[start_dim + 4 * i + 3] =
                 (z[start_z + i + 1] - z[start_z + i]) / (6 * this->dx[i]); // A_i
             coeffs[start_dim + 4 * i + 2] = z[start_z + i] / 2;            // B_i
@@ -308,53 +306,28 @@ template <typename T> da_status cubic_spline<T>::compute_hermite_spline() {
                         "Memory allocation error");
     }
 
-    if (this->storage_order == column_major || this->dim_y <= 1) {
-        for (da_int d = 0; d < this->dim_y; d++) {
-            da_int start_dim = d * 4 * (this->n_sites - 1);
-            da_int start_y = d * this->n_sites;
-            da_int start_dy = d * (this->n_sites - 1);
-
-            for (da_int i = 0; i < this->n_sites - 1; i++) {
-                T h_i = this->dx[i];
-                T y_i = this->y[start_y + i];
-                T yp_i = this->y_deriv[start_y + i];
-                T yp_ip1 = this->y_deriv[start_y + i + 1];
-                T dy_i = this->dy[start_dy + i];
-
-                T h_i2 = h_i * h_i;
-                T h_i3 = h_i2 * h_i;
-
-                coeffs[start_dim + 4 * i + 0] = y_i;  // D_i
-                coeffs[start_dim + 4 * i + 1] = yp_i; // C_i
-                coeffs[start_dim + 4 * i + 2] =
-                    3 * dy_i / h_i2 - (2 * yp_i + yp_ip1) / h_i; // B_i
-                coeffs[start_dim + 4 * i + 3] =
-                    -2 * dy_i / h_i3 + (yp_i + yp_ip1) / h_i2; // A_i
-            }
-        }
-    } else {
-        for (da_int i = 0; i < this->n_sites - 1; i++) {
-            da_int start_y = i * this->dim_y;
-            da_int start_dim = i * 4;
+    for (da_int d = 0; d < this->dim_y; d++) {
+        da_int start_dim = d * 4 * (this->n_sites - 1);
+        da_int start_dy = d * (this->n_sites - 1);
+        const T *y_d = this->y + d * this->y_col_stride;
+        const T *yp_d = this->y_deriv + d * this->deriv_col_stride;
 
+        for (da_int i = 0; i < this->n_sites - 1; i++) {
             T h_i = this->dx[i];
+            T y_i = y_d[i * this->y_row_stride];
+            T yp_i = yp_d[i * this->deriv_row_stride];
+            T yp_ip1 = yp_d[(i + 1) * this->deriv_row_stride];
+            T dy_i = this->dy[start_dy + i];
+
             T h_i2 = h_i * h_i;
             T h_i3 = h_i2 * h_i;
 
-            for (da_int d = 0; d < this->dim_y; d++) {
-                da_int d_start = d * (this->n_sites - 1);
-                T y_i = this->y[start_y + d];
-                T yp_i = this->y_deriv[start_y + d];
-                T yp_ip1 = this->y_deriv[start_y + this->dim_y + d];
-                T dy_i = this->dy[d_start + i];
-
-                coeffs[start_dim + 4 * d * (this->n_sites - 1) + 0] = y_i;  // D_i
-                coeffs[start_dim + 4 * d * (this->n_sites - 1) + 1] = yp_i; // C_i
-                coeffs[start_dim + 4 * d * (this->n_sites - 1) + 2] =
-                    3 * dy_i / h_i2 - (2 * yp_i + yp_ip1) / h_i; // B_i
-                coeffs[start_dim + 4 * d * (this->n_sites - 1) + 3] =
-                    -2 * dy_i / h_i3 + (yp_i + yp_ip1) / h_i2; // A_i
-            }
+            coeffs[start_dim + 4 * i + 0] = y_i;  // D_i
+            coeffs[start_dim + 4 * i + 1] = yp_i; // C_i
+            coeffs[start_dim + 4 * i + 2] =
+                3 * dy_i / h_i2 - (2 * yp_i + yp_ip1) / h_i; // B_i
+            coeffs[start_dim + 4 * i + 3] =
+                -2 * dy_i / h_i3 + (yp_i + yp_ip1) / h_i2; // A_i
         }
     }
 
diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index d8eb0e3..13e1c98 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -44,9 +44,11 @@ template <typename T> class interpolation_generic {
     // Dimensions
     da_int n_sites = 0; // Number of interpolation sites (data points)
     da_int dim_y = 0;   // number of dimensions of interpolation values y
-    da_int ldy = 0;
+    da_int dim_deriv = 0; // number of dimensions of the derivatives y_deriv
+    // Distance between consecutive rows (sites) and columns (dimensions) of y and y_deriv
+    da_int y_row_stride = 1, y_col_stride = 0;
+    da_int deriv_row_stride = 1, deriv_col_stride = 0;
     // Interpolation points (x_i, y_i)
-    da_order storage_order = column_major;
     T *x_internal = nullptr;
     const T *x_sites = nullptr, *x_usr = nullptr;
     const T *y = nullptr;
@@ -263,10 +265,10 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
     da_int check_data, sto;
     this->opts->get("storage order", opt_order, sto);
     this->opts->get("check data", check_data_str, check_data);
-    this->storage_order = da_order(sto);
+    da_order data_order = da_order(sto);
 
     da_status status = ARCH::da_utils::check_2D_array(
-        check_data != 0, this->storage_order, this->err, n, dim, y_data, ldy_data,
+        check_data != 0, data_order, this->err, n, dim, y_data, ldy_data,
         "n_sites", "dim", "y_data", "ldy_data", 2, 1);
     if (status != da_status_success)
         return status;
@@ -275,8 +277,9 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
 
     // Determine whether we're setting function values or derivatives
     if (order == 1) {
-        this->dim_y = dim;
-        this->ldy = ldy_data;
+        this->dim_deriv = dim;
+        this->deriv_row_stride = data_order == column_major ? 1 : ldy_data;
+        this->deriv_col_stride = data_order == column_major ? ldy_data : 1;
         y_deriv = y_data;
         derivatives_set = true;
     } else {
@@ -289,12 +292,13 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
 
         // Copy usr values and pointer
         this->dim_y = dim;
-        this->ldy = ldy_data;
+        this->y_row_stride = data_order == column_major ? 1 : ldy_data;
+        this->y_col_stride = data_order == column_major ? ldy_data : 1;
         y = y_data;
 
-        if (storage_order == column_major) {
+        if (data_order == column_major) {
             for (da_int j = 0; j < dim; j++) {
-                da_int start_y = j * this->n_sites;
+                da_int start_y = j * ldy_data;
                 da_int start_dy = j * (this->n_sites - 1);
 #pragma omp simd
                 for (da_int i = 0; i < this->n_sites - 1; i++)
@@ -306,7 +310,8 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
             for (da_int i = 0; i < this->n_sites - 1; i++) {
 #pragma omp simd
                 for (da_int j = 0; j < dim; j++)
-                    dy[j * (n_sites - 1) + i] = y[(i + 1) * dim_y + j] - y[i * dim_y + j];
+                    dy[j * (n_sites - 1) + i] =
+                        y[(i + 1) * ldy_data + j] - y[i * ldy_data + j];
             }
         }
         values_set = true;
-- 
2.43.0


From f77a502cda5e21f77032daa4afecf57c0e1409a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 37/76] fix: refuse boundary conditions and slopes whose
 dimension is not that of the values

---
 .../core/interpolation/cubic_spline/cubic_spline.cpp   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/core/interpolation/cubic_spline/cubic_spline.cpp b/source/core/interpolation/cubic_spline/cubic_spline.cpp
index 8f23ee9..7544ef2 100644
--- a/source/core/interpolation/cubic_spline/cubic_spline.cpp
+++ b/source/core/interpolation/cubic_spline/cubic_spline.cpp
@@ -237,6 +237,11 @@ template <typename T> da_status cubic_spline<T>::compute_custom_bc_spline() {
             this->err, da_status_out_of_date,
             "Boundary conditions must be set for custom spline interpolation.");
 
+    if ((da_int)this->left_bc.size() != this->dim_y)
+        return da_error(this->err, da_status_invalid_input,
+                        "The dimension of the boundary conditions must match the "
+                        "dimension of the values.");
+
     if (left_order == 1) {
         diag[0] = 2 * this->dx[0];
     } else {
@@ -299,6 +304,11 @@ template <typename T> da_status cubic_spline<T>::compute_hermite_spline() {
         return da_error(this->err, da_status_out_of_date,
                         "Derivatives must be set for Hermite spline interpolation.");
 
+    if (this->dim_deriv != this->dim_y)
+        return da_error(this->err, da_status_invalid_input,
+                        "The dimension of the derivatives must match the dimension of "
+                        "the values.");
+
     try {
         coeffs.resize(4 * (this->n_sites - 1) * this->dim_y);
     } catch (std::bad_alloc const &) {                     // LCOV_EXCL_LINE
-- 
2.43.0


From 81a3a4bd374ef5e82b9cd58fb12679814caa38f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 38/76] fix: search_cells returns the cell holding the point
 for far away and rounded points

---
 .../interpolation/interpolation_generic.hpp   | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index 13e1c98..1f8622f 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -97,6 +97,21 @@ template <typename T> class interpolation_generic {
     da_status set_values_1d(da_int n, da_int dim, const T *y_data, da_int ldy_data,
                             da_int order);
 
+    // Convert t to an index in [0, max_idx]; t may be beyond the integer range or NaN
+    static da_int clamp_index(T t, da_int max_idx) {
+        if (!(t > 0))
+            return 0;
+        return t >= (T)max_idx ? max_idx : static_cast<da_int>(t);
+    }
+    // Correct a cell that misses x because of the rounding error in its computation
+    da_int adjust_cell(T x, da_int cell) const {
+        while (cell > 0 && x < x_sites[cell])
+            cell--;
+        while (cell < n_sites - 2 && x > x_sites[cell + 1])
+            cell++;
+        return cell;
+    }
+
     da_status search_cells(da_int n_eval, const T *x_eval, da_int *cells);
     virtual da_status set_boundary_conditions(da_int dim, da_int left_order,
                                               const T *left_values, da_int right_order,
@@ -342,16 +357,15 @@ da_status interpolation_generic<T>::search_cells(da_int n_eval, const T *x_eval,
         T dx_u = dx[0];
         for (da_int i = 0; i < n_eval; i++) {
             T x = x_eval[i];
-            da_int idx = static_cast<da_int>((x - this->x_start) / dx_u);
-            cells[i] = std::clamp(idx, (da_int)0, this->n_sites - 2);
+            da_int idx = clamp_index((x - this->x_start) / dx_u, this->n_sites - 2);
+            cells[i] = adjust_cell(x, idx);
         }
     } else {
         T i_dx_u = (T)(index_size - 2) / x_range;
         // Binary search inside the indexed interval.
         for (da_int i = 0; i < n_eval; i++) {
             T x = x_eval[i];
-            da_int idx = std::clamp((da_int)((x - x_start) * i_dx_u), (da_int)0,
-                                    (da_int)(index_size - 2));
+            da_int idx = clamp_index((x - x_start) * i_dx_u, index_size - 2);
             da_int left = interval_index_lo[idx];
             da_int right = interval_index_up[idx];
             while (right - left > 1) {
@@ -362,7 +376,7 @@ da_status interpolation_generic<T>::search_cells(da_int n_eval, const T *x_eval,
                     left = mid;
                 }
             }
-            cells[i] = left;
+            cells[i] = adjust_cell(x, left);
         }
     }
 
-- 
2.43.0


From 44402be731829b0493572647ac9ec248cedf8efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:03 +0000
Subject: [PATCH 39/76] fix: refused interpolation sites leave the handle as it
 was, NaN sites are refused

---
 .../interpolation/interpolation_generic.hpp   | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index 1f8622f..be27f08 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -144,6 +144,16 @@ da_status interpolation_generic<T>::set_sites_1d(da_int n, const T *x) {
                             ". Cannot change the number of interpolation sites when "
                             "sites are already set.");
 
+    // Check that the sites are sorted and do not contain duplicates
+    for (da_int i = 0; i < n - 1; i++) {
+        if (!(x[i + 1] - x[i] > 0))
+            return da_error(this->err, da_status_invalid_input,
+                            "All sites must be provided in strictly increasing order. x[" +
+                                std::to_string(i) + "] = " + std::to_string(x[i]) +
+                                " and x[" + std::to_string(i + 1) +
+                                "] = " + std::to_string(x[i + 1]));
+    }
+
     n_sites = n;
     x_usr = x;
     x_sites = x_usr;
@@ -164,17 +174,9 @@ da_status interpolation_generic<T>::set_sites_1d(da_int n, const T *x) {
     x_end = x_sites[n_sites - 1];
     x_range = x_end - x_start;
 
-    // Compute sites differences and check that the sites are sorted and do not contain duplicates
-    // (all dx elements are strictly positive)
-    for (da_int i = 0; i < n_sites - 1; i++) {
+    // Compute sites differences (all dx elements are strictly positive)
+    for (da_int i = 0; i < n_sites - 1; i++)
         dx[i] = x_sites[i + 1] - x_sites[i];
-        if (dx[i] <= 0.)
-            return da_error(
-                this->err, da_status_invalid_input,
-                "All sites must be provided in strictly increasing order. x[" +
-                    std::to_string(i) + "] = " + std::to_string(x_sites[i]) + " and x[" +
-                    std::to_string(i + 1) + "] = " + std::to_string(x_sites[i + 1]));
-    }
 
     // Build index:
     // interval_index_lo[i] = idx where x_sites[idx] <= x_start + i*dx_index
@@ -218,7 +220,7 @@ da_status interpolation_generic<T>::set_sites_uniform_1d(da_int n, T x_start, T
     if (n < 2)
         return da_error(this->err, da_status_invalid_input,
                         "Number of interpolation sites must be at least 2.");
-    if (x_end <= x_start)
+    if (!(x_end > x_start))
         return da_error(this->err, da_status_invalid_input,
                         "x_end must be greater than x_start.");
 
-- 
2.43.0


From 178bbee0b3a852a8e4f33a32cffe05a9288a5993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:36 +0000
Subject: [PATCH 40/76] fix: options: reject NaN when setting a floating-point
 option

---
 source/core/utilities/options.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/core/utilities/options.hpp b/source/core/utilities/options.hpp
index b04f89f..b150be5 100644
--- a/source/core/utilities/options.hpp
+++ b/source/core/utilities/options.hpp
@@ -264,6 +264,14 @@ class OptionBase {
             }
         }
 
+        // NaN is never within range
+        if constexpr (std::is_floating_point_v<T>) {
+            if (std::isnan(value)) {
+                errmsg = "Option '" + name + "': Invalid value.";
+                return da_status_option_invalid_value;
+            }
+        }
+
         // Quick check
         da_int iflag = 0;
         // Check that it is within range (lower bound)
-- 
2.43.0


From 65fe40ae3236e0c9f5666b4b37eeb86faca9c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:36 +0000
Subject: [PATCH 41/76] fix: options: overwriting an option that is not
 registered erased the end iterator

---
 source/core/utilities/options.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/utilities/options.hpp b/source/core/utilities/options.hpp
index b150be5..35b9fba 100644
--- a/source/core/utilities/options.hpp
+++ b/source/core/utilities/options.hpp
@@ -802,7 +802,8 @@ class OptionRegistry {
         if (overwrite) {
             // Special case where we want to replace an already registered option
             auto search = registry.find(o->get_name());
-            registry.erase(search);
+            if (search != registry.end())
+                registry.erase(search);
         }
         size_t n = registry.size();
         registry.insert({o->get_name(), o});
-- 
2.43.0


From f15c18c0069943d6f0edddad9aa388f87a297cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:36 +0000
Subject: [PATCH 42/76] fix: options: a negative buffer length was taken as a
 huge one when reading a string option

---
 source/core/utilities/options_public.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/options_public.cpp b/source/core/utilities/options_public.cpp
index 8254030..81347b9 100644
--- a/source/core/utilities/options_public.cpp
+++ b/source/core/utilities/options_public.cpp
@@ -78,7 +78,7 @@ da_status da_options_get(da_handle handle, const char *option, char *value,
     // Need to make sure *value is big enough...
     if (status == da_status_success) {
         size_t n = svalue.size();
-        if (n >= (size_t)(*lvalue)) {
+        if (*lvalue <= 0 || n >= (size_t)(*lvalue)) {
             *lvalue = (da_int)(n + 1); // inform the user of the correct size
             std::string buf = "target storage where to store option string value is too "
                               "small, make it at least " +
@@ -165,7 +165,7 @@ da_status da_datastore_options_get(da_datastore store, const char *option, char
     // Need to make sure *value is big enough...
     if (status == da_status_success) {
         size_t n = svalue.size();
-        if (n >= (size_t)(*lvalue)) {
+        if (*lvalue <= 0 || n >= (size_t)(*lvalue)) {
             *lvalue = (da_int)(n + 1); // inform the user of the correct size
             std::string buf = "target storage where to store option string value is too "
                               "small, make it at least " +
-- 
2.43.0


From 0ef5ebb8217a48a670521b7e9ae8af102473e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:36 +0000
Subject: [PATCH 43/76] fix: model loading: reject option values outside the
 range or labels of the option

---
 source/core/utilities/options.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/options.hpp b/source/core/utilities/options.hpp
index 35b9fba..5082d9f 100644
--- a/source/core/utilities/options.hpp
+++ b/source/core/utilities/options.hpp
@@ -525,7 +525,13 @@ template <typename T> class OptionNumeric : public OptionBase {
         return buffer.serialize_data(this->value);
     }
     da_status deserialize_option(da_model_persistence::serialization_buffer &buffer) {
-        return buffer.deserialize_data(this->value);
+        T loaded;
+        da_status status = buffer.deserialize_data(loaded);
+        if (status != da_status_success)
+            return status;
+        if (set(loaded, setby) != da_status_success)
+            return da_status_invalid_input;
+        return da_status_success;
     }
 
     size_t serialized_size() { return da_model_persistence::get_type_size(this->value); }
@@ -769,7 +775,15 @@ class OptionString : public OptionBase {
         return buffer.serialize_data(this->value);
     }
     da_status deserialize_option(da_model_persistence::serialization_buffer &buffer) {
-        return buffer.deserialize_data(this->value);
+        string loaded;
+        da_status status = buffer.deserialize_data(loaded);
+        if (status != da_status_success)
+            return status;
+        // Categorical options only take one of their labels
+        if (labels.size() != 0 && labels.find(loaded) == labels.end())
+            return da_status_invalid_input;
+        this->value = loaded;
+        return da_status_success;
     }
 
     size_t serialized_size() { return da_model_persistence::get_type_size(this->value); }
-- 
2.43.0


From 96453186e061a3980f59e442a8f86d1418484071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:36 +0000
Subject: [PATCH 44/76] fix: da_handle_get_error_message read an empty error
 stack when the last call succeeded

---
 source/core/utilities/da_error.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/core/utilities/da_error.hpp b/source/core/utilities/da_error.hpp
index 42073b0..c35026c 100644
--- a/source/core/utilities/da_error.hpp
+++ b/source/core/utilities/da_error.hpp
@@ -188,16 +188,17 @@ class da_error_t {
     string get_telem(void) { return telem.empty() ? "" : telem.front(); };
 
     da_status get_mesg_char(char **message) {
-        size_t len = mesg.front().length();
+        string msg = get_mesg();
+        size_t len = msg.length();
         *message = (char *)(malloc(len + 1));
         if (*message == NULL) {
             return da_status_memory_error; // LCOV_EXCL_LINE
         }
         /* Most of the time MSVC compiler can automatically replace CRT functions with _s versions, but not this one */
 #if defined(_MSC_VER)
-        strncpy_s(*message, 1 + len, mesg.front().c_str(), len);
+        strncpy_s(*message, 1 + len, msg.c_str(), len);
 #else
-        strncpy(*message, mesg.front().c_str(), len);
+        strncpy(*message, msg.c_str(), len);
 #endif
         // Ensure null termination
         (*message)[len] = '\0';
-- 
2.43.0


From 5680fb9c972e7c8a635d73762fdae5da95083ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:36 +0000
Subject: [PATCH 45/76] fix: saving or loading a model of an unknown handle
 type dereferenced a null pointer

---
 source/core/utilities/da_handle.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/da_handle.cpp b/source/core/utilities/da_handle.cpp
index 29d7e1c..489c8cc 100644
--- a/source/core/utilities/da_handle.cpp
+++ b/source/core/utilities/da_handle.cpp
@@ -61,6 +61,9 @@ da_status _da_handle::get_current_opts(da_options::OptionRegistry **opts, bool r
 }
 
 da_status _da_handle::save_handle(std::vector<char> &buffer_data) {
+    if (this->alg_handle_s == nullptr && this->alg_handle_d == nullptr)
+        return da_error(this->err, da_status_handle_not_initialized,
+                        "The handle does not hold any model.");
     da_model_persistence::serialization_buffer buffer(this->handle_type);
     da_status status = buffer.set_buffer_data(&buffer_data);
     if (status != da_status_success)
@@ -118,13 +121,15 @@ da_status _da_handle::load_handle(da_handle &handle, const char *buffer_data,
         if (status != da_status_success)
             return status;
 
-        status = handle->alg_handle_s->load_model(buffer);
+        if (handle->alg_handle_s != nullptr)
+            status = handle->alg_handle_s->load_model(buffer);
     } else if (precision == (da_int)sizeof(double)) {
         status = da_handle_init_d(&handle, buffer.get_handle_type());
         if (status != da_status_success)
             return status;
 
-        status = handle->alg_handle_d->load_model(buffer);
+        if (handle->alg_handle_d != nullptr)
+            status = handle->alg_handle_d->load_model(buffer);
     }
 
     if (status != da_status_success ||
-- 
2.43.0


From d17b4c40a208f1c6a16552d88efbf94280cbe302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:14 +0000
Subject: [PATCH 46/76] fix: model loading: integers that do not fit da_int or
 a flag were silently truncated

---
 source/core/utilities/model_persistence.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/core/utilities/model_persistence.cpp b/source/core/utilities/model_persistence.cpp
index 7851510..d214898 100644
--- a/source/core/utilities/model_persistence.cpp
+++ b/source/core/utilities/model_persistence.cpp
@@ -347,6 +347,11 @@ template <typename T> da_status serialization_buffer::deserialize_data(T &data)
         std::memcpy(&val, this->read_ptr + this->offset, sizeof(SavedT));
         this->offset += sizeof(SavedT);
         data = static_cast<T>(val);
+        // The stored integer must be representable in the runtime type
+        if constexpr (std::is_integral_v<SavedT>) {
+            if (static_cast<SavedT>(data) != val)
+                return da_status_invalid_file_data;
+        }
     } else if constexpr (is_valid_container<T>) {
         return deserialize_container_impl(data);
     } else {
-- 
2.43.0


From 6c163b71cde1e292ee6c254dda154b09644426cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:14 +0000
Subject: [PATCH 47/76] fix: model saving: element count of large training data
 overflowed

---
 source/core/utilities/model_persistence.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/core/utilities/model_persistence.cpp b/source/core/utilities/model_persistence.cpp
index d214898..34b0bad 100644
--- a/source/core/utilities/model_persistence.cpp
+++ b/source/core/utilities/model_persistence.cpp
@@ -414,7 +414,11 @@ da_status serialization_buffer::serialize_user_data(const T *X, da_order order,
 
     // Save element count first so the payload can be loaded as a vector<T>.
     // If nullptr make sure that the vector size saved is 0.
-    da_int vector_size = X != nullptr ? m * n : 0;
+    int64_t n_elements = static_cast<int64_t>(m) * static_cast<int64_t>(n);
+    if (X != nullptr &&
+        n_elements > static_cast<int64_t>(std::numeric_limits<da_int>::max()))
+        return da_status_invalid_input;
+    da_int vector_size = X != nullptr ? static_cast<da_int>(n_elements) : 0;
     status = dispatch_buffer_io(vector_size);
     if (status != da_status_success)
         return status;
@@ -431,14 +435,14 @@ da_status serialization_buffer::serialize_user_data(const T *X, da_order order,
     // Serialize only logical elements and skip any stride padding when ldx > m (ldx > n for row major).
     if (order == column_major) {
         for (da_int i = 0; i < n; ++i) {
-            const T *col_ptr = X + i * ldx;
+            const T *col_ptr = X + static_cast<size_t>(i) * ldx;
             status = serialize_user_data_impl(col_ptr, m);
             if (status != da_status_success)
                 return status;
         }
     } else if (order == row_major) {
         for (da_int i = 0; i < m; ++i) {
-            const T *row_ptr = X + i * ldx;
+            const T *row_ptr = X + static_cast<size_t>(i) * ldx;
             status = serialize_user_data_impl(row_ptr, n);
             if (status != da_status_success)
                 return status;
-- 
2.43.0


From 73b62d52e4d78fc9155dd63a7c04fd0b44147532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:53 +0000
Subject: [PATCH 48/76] fix: model loading: damaged tree and node counts caused
 escaping exceptions or huge allocations

---
 source/core/decision_forest/forest/decision_forest.cpp       | 5 +++++
 .../decision_forest/tree/decision_tree_handle_utilities.hpp  | 4 +++-
 source/core/utilities/model_persistence.hpp                  | 2 ++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/forest/decision_forest.cpp b/source/core/decision_forest/forest/decision_forest.cpp
index f3ab69f..3ed2a37 100644
--- a/source/core/decision_forest/forest/decision_forest.cpp
+++ b/source/core/decision_forest/forest/decision_forest.cpp
@@ -43,6 +43,11 @@ da_status decision_forest<T>::forest_serialization(
     da_status status = da_status_success;
 
     if (buffer.get_mode() == deserialize) {
+        // Every tree takes more than one byte of the remaining data
+        if (this->n_tree <= 0 ||
+            static_cast<size_t>(this->n_tree) > buffer.get_remaining_size())
+            return da_status_invalid_file_data;
+
         try {
             this->forest.resize(n_tree);
             for (da_int i = 0; i < this->n_tree; ++i) {
diff --git a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
index 784068a..6d2c7bd 100644
--- a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
+++ b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
@@ -293,7 +293,9 @@ decision_tree<T>::tree_serialization(da_model_persistence::serialization_buffer
     da_status status = da_status_success;
 
     if (buffer.get_mode() == deserialize) {
-        if (this->n_nodes <= 0)
+        // Every node takes more than one byte of the remaining data
+        if (this->n_nodes <= 0 ||
+            static_cast<size_t>(this->n_nodes) > buffer.get_remaining_size())
             return da_status_invalid_file_data;
 
         try {
diff --git a/source/core/utilities/model_persistence.hpp b/source/core/utilities/model_persistence.hpp
index cca9bf8..3affb83 100644
--- a/source/core/utilities/model_persistence.hpp
+++ b/source/core/utilities/model_persistence.hpp
@@ -194,6 +194,8 @@ class serialization_buffer {
     }
 
     size_t get_size() const noexcept { return this->size; }
+    // Bytes still to be read during deserialization
+    size_t get_remaining_size() const noexcept { return this->size - this->offset; }
     // Addition method for the size member
     da_status add_size(size_t value);
 
-- 
2.43.0


From ba56d872740ed4a3763a71c10a4f20a9d4d4bb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:53 +0000
Subject: [PATCH 49/76] fix: saving a k-d tree model wrote uninitialised memory

---
 source/core/nearest_neighbors/binary_tree.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/core/nearest_neighbors/binary_tree.hpp b/source/core/nearest_neighbors/binary_tree.hpp
index 1d150d0..2d1fcd2 100644
--- a/source/core/nearest_neighbors/binary_tree.hpp
+++ b/source/core/nearest_neighbors/binary_tree.hpp
@@ -43,11 +43,11 @@ template <typename T> struct node {
     using value_type = T;
 
     // The depth of this node
-    da_int depth;
+    da_int depth = 0;
 
     // Indices of the points in the dataset that are in this node and its children
     da_int *indices = nullptr;
-    da_int n_indices;
+    da_int n_indices = 0;
 
     // Is this a leaf node
     bool is_leaf = false;
@@ -65,10 +65,10 @@ template <typename T> struct node {
 template <typename T> struct kd_node : public node<T> {
 
     // Which dimension this node splits on
-    da_int dim;
+    da_int dim = 0;
 
     // For a non-leaf node, the index of the point that splits the node
-    da_int point;
+    da_int point = 0;
 
     // shared_ptr to the child nodes means we don't have to worry about memory management
     std::shared_ptr<kd_node<T>> left_child = nullptr;
@@ -98,7 +98,7 @@ template <typename T> struct ball_node : public node<T> {
 
     // center and radius of the ball
     std::vector<T> centroid; // centroid of the ball
-    T radius;                // radius of the ball
+    T radius = 0;            // radius of the ball
 
     // Constructor - only the top level node needs to have centroid and radius supplied
     ball_node(da_int depth, da_int *indices, da_int n_indices);
-- 
2.43.0


From 10c32d2965655ac764f4b33117f4611d2763dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:53 +0000
Subject: [PATCH 50/76] fix: model loading: a truncated binary tree was
 accepted or partly read

---
 source/core/nearest_neighbors/binary_tree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/nearest_neighbors/binary_tree.cpp b/source/core/nearest_neighbors/binary_tree.cpp
index 3edeaf1..bf2fec1 100644
--- a/source/core/nearest_neighbors/binary_tree.cpp
+++ b/source/core/nearest_neighbors/binary_tree.cpp
@@ -512,6 +512,8 @@ da_status binary_tree<Derived, NodeType>::tree_serialization(
     };
 
     io_dispatch(node_exists);
+    if (status != da_status_success)
+        return status;
     if (!node_exists) {
         if (buffer.get_mode() == da_model_persistence::buffer_mode::deserialize) {
             node = nullptr;
@@ -573,6 +575,8 @@ da_status binary_tree<Derived, NodeType>::serialize(
     io_dispatch(this->A_norms);
     io_dispatch(this->n_features);
     io_dispatch(this->n_samples);
+    if (status != da_status_success)
+        return status;
 
     status = this->tree_serialization(buffer, this->root);
 
-- 
2.43.0


From a14be969cd420f5d84ad7d58bc9c4a7375147e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:48 +0000
Subject: [PATCH 51/76] fix: da_handle_init leaked the model when its options
 could not be registered

---
 source/core/utilities/da_handle_public.cpp | 26 +++++++++++-----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/source/core/utilities/da_handle_public.cpp b/source/core/utilities/da_handle_public.cpp
index 3b74c07..48bc756 100644
--- a/source/core/utilities/da_handle_public.cpp
+++ b/source/core/utilities/da_handle_public.cpp
@@ -61,7 +61,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_linmod::linear_model<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -69,7 +69,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
             DISPATCHER((*handle)->err, alg_handle = new da_pca::pca<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -78,7 +78,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_tsne::tsne<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -87,7 +87,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_kmeans::kmeans<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -96,7 +96,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_dbscan::dbscan<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -106,7 +106,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                            new da_decision_forest::decision_tree<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -116,7 +116,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                            new da_decision_forest::decision_forest<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -129,7 +129,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
             DISPATCHER((*handle)->err,
                        alg_handle = new da_nlls::nlls<T>(status, *(*handle)->err));
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -138,7 +138,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_neighbors::neighbors<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -146,7 +146,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
             DISPATCHER((*handle)->err, alg_handle = new da_svm::svm<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -156,7 +156,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                            new da_interpolation::interpolation_p<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -166,7 +166,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                            new da_approx_nn::approximate_neighbors<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
@@ -175,7 +175,7 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
                        alg_handle = new da_kernel_pca::kernel_pca<T>(*(*handle)->err));
             status = (*handle)->err->get_status();
             if (status != da_status_success) {
-                alg_handle = nullptr;
+                delete alg_handle;
                 return status;
             }
             break;
-- 
2.43.0


From 1ade311e35e5c25dc738cfec2998edd4ede59c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:48 +0000
Subject: [PATCH 52/76] fix: SVM prediction before set_data compared
 uninitialised sizes

---
 source/core/svm/svm.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/core/svm/svm.hpp b/source/core/svm/svm.hpp
index 1514af9..7d87071 100644
--- a/source/core/svm/svm.hpp
+++ b/source/core/svm/svm.hpp
@@ -301,7 +301,7 @@ template <typename T> class svm : public basic_handle<T> {
     // Pointers to SVM problem class that will be specialised
     std::vector<std::unique_ptr<base_svm<T>>> classifiers;
 
-    da_int n_class, n_classifiers;
+    da_int n_class = 0, n_classifiers = 0;
     // Only used in multi-class classification
     std::vector<da_int> class_sizes;
 
@@ -310,9 +310,9 @@ template <typename T> class svm : public basic_handle<T> {
 
     const T *X = nullptr;
     const T *y = nullptr;
-    da_int nrow, ncol;
+    da_int nrow = 0, ncol = 0;
 
-    da_int ldx_train;
+    da_int ldx_train = 0;
 
     std::mt19937_64 mt_gen;
     da_int seed;
-- 
2.43.0


From 3195ddc24a600ff77437c2aeeac8d958669c88a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:48 +0000
Subject: [PATCH 53/76] fix: a nonlinear least-squares handle was created
 although memory ran out

---
 source/core/nlls/nlls.cpp                  | 2 ++
 source/core/optimization/optimization.cpp  | 1 +
 source/core/utilities/da_handle_public.cpp | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/source/core/nlls/nlls.cpp b/source/core/nlls/nlls.cpp
index 490cb89..a0445a0 100644
--- a/source/core/nlls/nlls.cpp
+++ b/source/core/nlls/nlls.cpp
@@ -56,6 +56,8 @@ using namespace da_optim;
 template <typename T>
 nlls<T>::nlls(da_status &status, da_errors::da_error_t &err)
     : da_optimization<T>(status, err) {
+    if (status != da_status_success)
+        return;
     status = this->opts.set("optim method", "ralfit", da_options::setby_t::solver);
     if (status != da_status_success)
         da_error( // LCOV_EXCL_LINE
diff --git a/source/core/optimization/optimization.cpp b/source/core/optimization/optimization.cpp
index 976461a..bd9b81f 100644
--- a/source/core/optimization/optimization.cpp
+++ b/source/core/optimization/optimization.cpp
@@ -112,6 +112,7 @@ da_optimization<T>::da_optimization(da_status &status, da_errors::da_error_t &er
     } catch (...) {
         status = da_error(&err, da_status_memory_error,
                           "could not resize solver information vector");
+        return;
     }
     this->info.assign(da_linmod_info_t::linmod_info_number, 0);
     status = register_optimization_options<T>(*this->err, this->opts);
diff --git a/source/core/utilities/da_handle_public.cpp b/source/core/utilities/da_handle_public.cpp
index 48bc756..69b6bf7 100644
--- a/source/core/utilities/da_handle_public.cpp
+++ b/source/core/utilities/da_handle_public.cpp
@@ -128,6 +128,8 @@ da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
 #endif
             DISPATCHER((*handle)->err,
                        alg_handle = new da_nlls::nlls<T>(status, *(*handle)->err));
+            if (status == da_status_success)
+                status = (*handle)->err->get_status();
             if (status != da_status_success) {
                 delete alg_handle;
                 return status;
-- 
2.43.0


From 7bbee45f4015cb8dbbc899b2e8259f07b5d3ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:49 +0000
Subject: [PATCH 54/76] fix: da_trained could not be queried for t-SNE and for
 unset interpolation models

---
 source/core/dimension_reduction/tsne/tsne.cpp | 7 ++++---
 source/core/interpolation/interpolation.cpp   | 2 ++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/core/dimension_reduction/tsne/tsne.cpp b/source/core/dimension_reduction/tsne/tsne.cpp
index 8318137..6ec353e 100644
--- a/source/core/dimension_reduction/tsne/tsne.cpp
+++ b/source/core/dimension_reduction/tsne/tsne.cpp
@@ -1254,9 +1254,10 @@ da_status tsne<T>::get_result(da_result query, da_int *dim, T *result) {
 
 template <typename T>
 da_status tsne<T>::get_result(da_result query, da_int *dim, da_int *result) {
-    (void)query;
-    (void)dim;
-    (void)result;
+    // check to see if user needs common stuff from the basic handle first
+    da_status status = this->get_result_common(query, dim, result);
+    if (status != da_status_unknown_query)
+        return status; // either got requested info or error
     return da_error(this->err, da_status_unknown_query,
                     "There are no integer results available for this API.");
 }
diff --git a/source/core/interpolation/interpolation.cpp b/source/core/interpolation/interpolation.cpp
index 8785898..798c649 100644
--- a/source/core/interpolation/interpolation.cpp
+++ b/source/core/interpolation/interpolation.cpp
@@ -186,6 +186,8 @@ da_status interpolation_p<T>::get_result(da_result query, da_int *dim, da_int *r
 
     if (model != da_interpolation_model::interpolation_unset)
         status = interp->get_result(query, dim, result);
+    else if (query == da_result::da_trained)
+        status = this->get_result_common(query, dim, result);
     else
         return da_error(this->err, da_status_invalid_input,
                         "Interpolation model not selected. No results available.");
-- 
2.43.0


From ddd2dea93d9f14c391bce13bc34d6390f71a0584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:44 +0000
Subject: [PATCH 55/76] fix: da_nn_classes dereferenced a null pointer and read
 past the available classes

---
 .../nearest_neighbors/nearest_neighbors_public.hpp     | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors_public.hpp b/source/core/nearest_neighbors/nearest_neighbors_public.hpp
index d57e66d..d0f4b13 100644
--- a/source/core/nearest_neighbors/nearest_neighbors_public.hpp
+++ b/source/core/nearest_neighbors/nearest_neighbors_public.hpp
@@ -83,6 +83,9 @@ da_status nn_classes(da_handle handle, da_int *n_classes, da_int *classes) {
         return da_error(handle->err, da_status_invalid_handle_type,
                         "handle was not initialized with handle_type=da_handle_nn or "
                         "handle is invalid.");
+    if (n_classes == nullptr)
+        return da_error_bypass(handle->err, da_status_invalid_pointer,
+                               "n_classes is not a valid pointer.");
     da_status status = da_status_success;
     if (*n_classes <= 0) { // Querying number of classes to allocate memory
         status = nn->available_classes();
@@ -92,6 +95,13 @@ da_status nn_classes(da_handle handle, da_int *n_classes, da_int *classes) {
         if (classes == nullptr)
             return da_error_bypass(handle->err, da_status_invalid_pointer,
                                    "classes is not a valid pointer.");
+        status = nn->available_classes();
+        if (status != da_status_success)
+            return status;
+        if (*n_classes > da_int(nn->classes.size()))
+            return da_error_bypass(handle->err, da_status_invalid_array_dimension,
+                                   "n_classes is larger than the number of classes, " +
+                                       std::to_string(nn->classes.size()) + ".");
         for (da_int i = 0; i < *n_classes; i++)
             classes[i] = nn->classes[i];
     }
-- 
2.43.0


From 54b5433b228013b011ada844c238ab3f84a596b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:44 +0000
Subject: [PATCH 56/76] fix: da_svm_set_data let an exception escape for a
 negative number of samples

---
 source/core/svm/svm.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index bf3cc1e..7b9e34a 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -281,12 +281,6 @@ da_status svm<T>::set_data(da_int n_samples, da_int n_features, const T *X_in,
     nrow = n_samples;
     ncol = n_features;
     ismulticlass = false;
-    try {
-        is_sv.resize(n_samples);
-    } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
-        return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
-                        "Memory allocation error");
-    }
     // Guard against memory leaks due to multiple calls using the same class instantiation
     if (X_temp) {
         delete[] (X_temp);
@@ -303,6 +297,12 @@ da_status svm<T>::set_data(da_int n_samples, da_int n_features, const T *X_in,
                              this->ldx_train, "n_samples", "n_features", "X", "ldx");
     if (status != da_status_success)
         return status;
+    try {
+        is_sv.resize(n_samples);
+    } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
+        return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
+                        "Memory allocation error");
+    }
 
     status = this->check_1D_array(n_samples, y_in, "n_samples", "y", 1);
     if (status != da_status_success)
-- 
2.43.0


From 263937d3dc2c3c64f74a7d0f64020bab9f59681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:27 +0000
Subject: [PATCH 57/76] fix: DBSCAN, PCA and SVM computed on freed or missing
 data after a rejected set_data call

---
 source/core/clustering/dbscan/dbscan.cpp | 1 +
 source/core/factorization/pca/pca.cpp    | 1 +
 source/core/svm/svm.cpp                  | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index 4bf7fb2..9d6634b 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -182,6 +182,7 @@ da_status dbscan<T>::set_data(da_int n_samples, da_int n_features, const T *A_in
 
     // Guard against errors due to multiple calls using the same class instantiation
     refresh();
+    initdone = false;
 
     da_status status =
         this->store_2D_array(n_samples, n_features, A_in, lda_in, &A_temp, &A, lda,
diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 63beed6..5f3d523 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -255,6 +255,7 @@ da_status pca<T>::init(da_int n, da_int p, const T *A_in, da_int lda_in) {
         A_temp = nullptr;
         A = nullptr;
     }
+    initdone = false;
 
     // Read in data storage option
     std::string opt_order;
diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 7b9e34a..4f10a4b 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -281,6 +281,8 @@ da_status svm<T>::set_data(da_int n_samples, da_int n_features, const T *X_in,
     nrow = n_samples;
     ncol = n_features;
     ismulticlass = false;
+    loadingdone = false;
+    this->model_trained = false;
     // Guard against memory leaks due to multiple calls using the same class instantiation
     if (X_temp) {
         delete[] (X_temp);
-- 
2.43.0


From 69e3590531bc1aac7aae64d4b8bfdeac904130cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:27 +0000
Subject: [PATCH 58/76] fix: SVM labels: a missing, negative or huge label was
 not rejected

---
 source/core/svm/svm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 4f10a4b..881c2c6 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -310,12 +310,15 @@ da_status svm<T>::set_data(da_int n_samples, da_int n_features, const T *X_in,
     if (status != da_status_success)
         return status;
 
+    status = this->check_1D_array(n_samples, y_in, "n_samples", "y", 1);
+    if (status != da_status_success)
+        return status;
     y = y_in;
     // Find n_class and validate y for classification
     if (mod == da_svm_model::svc || mod == da_svm_model::nusvc) {
         // Check if y contains only whole numbers
         for (da_int i = 0; i < n_samples; i++)
-            if (y[i] != std::round(y[i]))
+            if (y[i] != std::round(y[i]) || y[i] < (T)0 || y[i] >= (T)n_samples)
                 return da_error(this->err, da_status_invalid_input,
                                 "Labels must be whole numbers from 0 to K-1, where K is "
                                 "the number of classes.");
-- 
2.43.0


From 5fd6e738bfb4a266fa78384d35ac0c784f50150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:11 +0000
Subject: [PATCH 59/76] fix: DBSCAN compared squared distances with the radius
 for the Minkowski metric of power 2

---
 source/core/nearest_neighbors/radius_neighbors.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/core/nearest_neighbors/radius_neighbors.cpp b/source/core/nearest_neighbors/radius_neighbors.cpp
index d5fa3a7..3576141 100644
--- a/source/core/nearest_neighbors/radius_neighbors.cpp
+++ b/source/core/nearest_neighbors/radius_neighbors.cpp
@@ -63,7 +63,10 @@ da_status radius_neighbors_brute(da_int n_samples, da_int n_features, const T *A
     std::vector<std::vector<T>> D;
 
     // For da_euclidean it is more efficient to use the squared distance
-    T eps_internal = (metric == da_euclidean_gemm) ? eps * eps : eps;
+    T eps_internal =
+        (metric == da_euclidean_gemm || (metric == da_minkowski && p == T(2.0)))
+            ? eps * eps
+            : eps;
 
     da_metric metric_internal =
         (metric == da_euclidean_gemm || (metric == da_minkowski && p == T(2.0)))
-- 
2.43.0


From 55f747d66acd1c7cf6b91048d6984e3cfd9c614d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:11 +0000
Subject: [PATCH 60/76] fix: parallel DBSCAN split clusters or joined them
 through border points

---
 source/core/clustering/dbscan/dbscan.cpp | 89 +++++++++++++-----------
 1 file changed, 47 insertions(+), 42 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index 9d6634b..bb41367 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -310,72 +310,77 @@ template <typename T> da_status dbscan<T>::dbscan_clusters_parallel() {
     }
 
     da_std::fill(labels.begin(), labels.end(), NOISE);
-    da_std::fill(duplicate_labels.begin(), duplicate_labels.end(), NOISE);
+    da_std::iota(duplicate_labels.begin(), duplicate_labels.end(), 0);
+
+    auto find_root = [this](da_int i) {
+        while (true) {
+            da_int parent;
+#pragma omp atomic read
+            parent = duplicate_labels[i];
+            if (parent == i)
+                return i;
+            i = parent;
+        }
+    };
 
 #pragma omp parallel default(none)                                                       \
     shared(labels, neighbors, n_clusters, n_core_samples, min_samples_m1, n_samples,     \
-               status, duplicate_labels, is_core_sample, next_id, remap)
+               status, duplicate_labels, is_core_sample, next_id, remap, find_root)
     {
 
-// Parallel loop to compute DBSCAN clusters
+// Merge the clusters of neighboring core points: duplicate_labels holds a union-find
+// forest over the core points, in which parents never have a larger index
 #pragma omp for schedule(guided, 64)
         for (da_int i = 0; i < n_samples; i++) {
-            if (is_core_sample[i]) {
-                // This is a core point
-                da_int tmp_label_i;
-#pragma omp atomic read
-                tmp_label_i = labels[i];
-                if (i < tmp_label_i || tmp_label_i == NOISE) {
-#pragma omp atomic write
-                    // Assign it its own index as the cluster label - we will combine clusters later
-                    labels[i] = i;
-                }
-
-                // Loop through each point in the epsilon neighborhood of point i
-                auto &this_neighbor = neighbors[i];
-                for (da_int j = 0; j < (da_int)this_neighbor.size(); j++) {
-                    da_int sample_point_j = this_neighbor[j];
-                    da_int tmp_label_j;
-#pragma omp atomic read
-                    tmp_label_j = labels[sample_point_j];
-                    // Record that i and j are in the same cluster
-                    if (i < sample_point_j)
-                        duplicate_labels[sample_point_j] = i;
-                    else
-                        duplicate_labels[i] = sample_point_j;
-
-                    if (i < tmp_label_j || tmp_label_j == NOISE) {
+            if (!is_core_sample[i])
+                continue;
+            auto &this_neighbor = neighbors[i];
+            for (da_int j = 0; j < (da_int)this_neighbor.size(); j++) {
+                da_int sample_point_j = this_neighbor[j];
+                if (!is_core_sample[sample_point_j])
+                    continue;
+                da_int root_i = find_root(i), root_j = find_root(sample_point_j);
+                if (root_i != root_j) {
+#pragma omp critical(dbscan_merge)
+                    {
+                        root_i = find_root(root_i);
+                        root_j = find_root(root_j);
+                        if (root_i != root_j) {
+                            da_int parent = std::min(root_i, root_j);
 #pragma omp atomic write
-                        labels[sample_point_j] = i;
+                            duplicate_labels[std::max(root_i, root_j)] = parent;
+                        }
                     }
                 }
             }
         }
 
+// Label the core points by their root and the border points by the smallest root nearby
 #pragma omp for schedule(guided, 64)
         for (da_int i = 0; i < n_samples; i++) {
-            da_int current_label = labels[i];
-            if (current_label == NOISE) {
+            if (is_core_sample[i]) {
+                labels[i] = find_root(i);
                 continue;
             }
-
-            // Follow the chain of labels to find the lowest one
-            while (duplicate_labels[current_label] != NOISE) {
-                current_label = duplicate_labels[current_label];
+            da_int label = NOISE;
+            auto &this_neighbor = neighbors[i];
+            for (da_int j = 0; j < (da_int)this_neighbor.size(); j++) {
+                da_int sample_point_j = this_neighbor[j];
+                if (is_core_sample[sample_point_j]) {
+                    da_int root = find_root(sample_point_j);
+                    if (label == NOISE || root < label)
+                        label = root;
+                }
             }
-
-            labels[i] = current_label;
+            labels[i] = label;
         }
 
         // Relabel clusters to have consecutive numbering starting from 0
 #pragma omp single
         {
             for (da_int i = 0; i < n_samples; i++) {
-                da_int lab = labels[i];
-                if (lab == NOISE)
-                    continue;
-                if (remap[lab] == NOISE) {
-                    remap[lab] = next_id;
+                if (is_core_sample[i] && labels[i] == i) {
+                    remap[i] = next_id;
                     next_id++;
                 }
             }
-- 
2.43.0


From 8725b0dd8e1a2c3658ede4c2360ed7d2b3bb30bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:11 +0000
Subject: [PATCH 61/76] fix: DBSCAN's automatic algorithm chose a k-d tree for
 metrics it does not support

---
 source/core/clustering/dbscan/dbscan.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index bb41367..b849ca5 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -254,8 +254,9 @@ template <typename T> da_status dbscan<T>::compute() {
     alg_internal = da_neighbors_types::nn_algorithm(algorithm);
     if (alg_internal == automatic) {
         // If the user has not specified an algorithm, we will use the k-d tree if the data is small
-        // in dimension and the Minkowski options allow it. Otherwise we will use brute force.
-        if (n_features <= 15 && !(metric_internal == da_minkowski && p < (T)1.0)) {
+        // in dimension and the metric allows it. Otherwise we will use brute force.
+        if (n_features <= 15 && metric != da_cosine && metric != da_sqeuclidean_gemm &&
+            !(metric_internal == da_minkowski && p < (T)1.0)) {
             alg_internal = kd_tree;
         } else {
             alg_internal = brute;
-- 
2.43.0


From 98469b679a3ac2b2af01ca006125b3997c01447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:35 +0000
Subject: [PATCH 62/76] fix: the check for NaNs rejected large finite and
 infinite values

---
 source/core/utilities/da_utils.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index da538dc..820cea1 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -37,6 +37,9 @@
 #include <algorithm>
 #include <boost/sort/spreadsort/float_sort.hpp>
 #include <cmath>
+#include <cstdint>
+#include <cstring>
+#include <limits>
 #include <map>
 #include <random>
 #include <type_traits>
@@ -175,6 +178,19 @@ void copy_transpose_2D_array_column_to_row_major(da_int n_rows, da_int n_cols, c
     }
 }
 
+// NaN test on the bit pattern: std::isnan can be optimized away (seen in a pybind11 + clang 18
+// Windows release build), and comparing x with x + 1 also rejects infinite and large finite values
+template <typename T> static inline bool is_nan(T x) {
+    static_assert(sizeof(T) == sizeof(uint64_t) || sizeof(T) == sizeof(uint32_t));
+    using U = std::conditional_t<sizeof(T) == sizeof(uint64_t), uint64_t, uint32_t>;
+    constexpr T inf = std::numeric_limits<T>::infinity();
+    U bits, inf_bits;
+    std::memcpy(&bits, &x, sizeof(T));
+    std::memcpy(&inf_bits, &inf, sizeof(T));
+    // Discard the sign bit
+    return (U)(bits << 1) > (U)(inf_bits << 1);
+}
+
 template <typename T>
 da_status check_data(da_order order, da_int n_rows, da_int n_cols, const T *X,
                      da_int ldx) {
@@ -191,11 +207,8 @@ da_status check_data(da_order order, da_int n_rows, da_int n_cols, const T *X,
         if constexpr (std::is_floating_point<T>::value) {
             for (da_int i = 0; i < n_rows; i++) {
                 for (da_int j = 0; j < n_cols; j++) {
-                    // x==x+1 check needed to get round a pybind1 + clang 18 Windows release build bug
-                    if (std::isnan(X[i * ldx + j]) ||
-                        X[i * ldx + j] == X[i * ldx + j] + (T)1) {
+                    if (is_nan(X[i * ldx + j]))
                         return da_status_invalid_input;
-                    }
                 }
             }
         }
@@ -205,10 +218,8 @@ da_status check_data(da_order order, da_int n_rows, da_int n_cols, const T *X,
         if constexpr (std::is_floating_point<T>::value) {
             for (da_int j = 0; j < n_cols; j++) {
                 for (da_int i = 0; i < n_rows; i++) {
-                    if (std::isnan(X[i + j * ldx]) ||
-                        X[i + j * ldx] == X[i + j * ldx] + (T)1) {
+                    if (is_nan(X[i + j * ldx]))
                         return da_status_invalid_input;
-                    }
                 }
             }
         }
-- 
2.43.0


From 12614bb4a68c42b3ef68443f7b83a1430646a49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:35 +0000
Subject: [PATCH 63/76] fix: the detection of categorical data converted
 out-of-range values and NaN to integers

---
 source/core/utilities/da_utils.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index 820cea1..4d050ff 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -662,12 +662,13 @@ da_status check_categorical_data(da_int n_data, const T *data, da_int &n_categor
     n_categories = -1;
 
     for (da_int i = 0; i < n_data; i++) {
-        da_int val = std::round(data[i]);
-        if (std::abs((T)val - data[i]) > tol || val < 0 || val + 1 > max_categories) {
+        T val = std::round(data[i]);
+        // The conversion to da_int is only safe for values in the admissible range (NaN is not)
+        if (!(std::abs(val - data[i]) <= tol && val >= (T)0 && val < (T)max_categories)) {
             n_categories = -1;
             break;
-        } else if (val + 1 > n_categories)
-            n_categories = val + 1;
+        } else if ((da_int)val + 1 > n_categories)
+            n_categories = (da_int)val + 1;
     }
 
     return da_status_success;
-- 
2.43.0


From cd0e9ac806301f1cb5e382d7691e0e22a3736cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:32 +0000
Subject: [PATCH 64/76] fix: CSV numbers with many leading zeros lost their
 digits

---
 source/core/csv/char_to_num.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index af07335..167f940 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -74,6 +74,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     char *p = (char *)str;
     int num_digits;
     int num_decimals;
+    int any_digits = 0;
     int max_digits = 17;
     int n;
 
@@ -132,9 +133,11 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
 
     // Process string of digits.
     while (isdigit_ascii(*p)) {
+        any_digits = 1;
+        // Leading zeros do not count towards the digits that can be represented
         if (num_digits < max_digits) {
             *number = *number * 10. + (*p - '0');
-            num_digits++;
+            num_digits += (*number != 0);
         } else {
             ++exponent;
         }
@@ -150,9 +153,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         p++;
 
         while (num_digits < max_digits && isdigit_ascii(*p)) {
+            any_digits = 1;
             *number = *number * 10. + (*p - '0');
             p++;
-            num_digits++;
+            num_digits += (*number != 0);
             num_decimals++;
         }
 
@@ -163,7 +167,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         exponent -= num_decimals;
     }
 
-    if (num_digits == 0) {
+    if (!any_digits) {
         *number = 0.0;
         status = da_status_parsing_error;
         return status;
@@ -253,6 +257,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     char *p = (char *)str;
     int num_digits;
     int num_decimals;
+    int any_digits = 0;
     int max_digits = 9;
     int n;
 
@@ -286,9 +291,11 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
 
     // Process string of digits.
     while (isdigit_ascii(*p)) {
+        any_digits = 1;
+        // Leading zeros do not count towards the digits that can be represented
         if (num_digits < max_digits) {
             *number = *number * 10.f + (*p - '0');
-            num_digits++;
+            num_digits += (*number != 0);
         } else {
             ++exponent;
         }
@@ -304,9 +311,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         p++;
 
         while (num_digits < max_digits && isdigit_ascii(*p)) {
+            any_digits = 1;
             *number = *number * 10.f + (*p - '0');
             p++;
-            num_digits++;
+            num_digits += (*number != 0);
             num_decimals++;
         }
 
@@ -317,7 +325,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         exponent -= num_decimals;
     }
 
-    if (num_digits == 0) {
+    if (!any_digits) {
         *number = 0.0;
         status = da_status_parsing_error;
         return status;
-- 
2.43.0


From ce491b345ea9a34d38c4ae9fa36222170f096557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:32 +0000
Subject: [PATCH 65/76] fix: CSV numbers with a long exponent overflowed or
 dropped its digits

---
 source/core/csv/char_to_num.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index 167f940..3c0dcb6 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -195,9 +195,11 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         // Process string of digits.
         num_digits = 0;
         n = 0;
-        while (num_digits < max_digits && isdigit_ascii(*p)) {
-            n = n * 10 + (*p - '0');
-            num_digits++;
+        while (isdigit_ascii(*p)) {
+            // Beyond this any number overflows or underflows
+            if (n < 100000000)
+                n = n * 10 + (*p - '0');
+            num_digits = 1;
             p++;
         }
 
@@ -353,9 +355,11 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         // Process string of digits.
         num_digits = 0;
         n = 0;
-        while (num_digits < max_digits && isdigit_ascii(*p)) {
-            n = n * 10 + (*p - '0');
-            num_digits++;
+        while (isdigit_ascii(*p)) {
+            // Beyond this any number overflows or underflows
+            if (n < 100000000)
+                n = n * 10 + (*p - '0');
+            num_digits = 1;
             p++;
         }
 
-- 
2.43.0


From c389e14a06844046df7d05f0343065d2a0974e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:28 +0000
Subject: [PATCH 66/76] fix: extracting a selection in row-major order wrote
 outside the output, and short leading dimensions were accepted

---
 source/core/data_management/data_store.hpp | 31 +++++++++++++---------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 25f7a79..e7898e7 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -957,7 +957,7 @@ class data_store {
         auto it = selections.find(key);
         bool clear_selections = false, clear_cols = false, clear_rows = false;
         da_int idx = 0;
-        da_int ncols = 0;
+        da_int ncols = 0, n_rows = 0, n_cols = 0;
         std::string internal_key;
 
         if (selections.empty()) {
@@ -1003,6 +1003,21 @@ class data_store {
             clear_cols = true;
         }
 
+        // Dimensions of the extracted matrix
+        for (auto it_row = it->second.row_slice->begin();
+             it_row != it->second.row_slice->end(); ++it_row)
+            n_rows += it_row->upper - it_row->lower + 1;
+        for (auto it_col = it->second.col_slice->begin();
+             it_col != it->second.col_slice->end(); ++it_col)
+            n_cols += it_col->upper - it_col->lower + 1;
+        if (ld < (order == column_major ? n_rows : n_cols)) {
+            exit_status = da_status_invalid_input;
+            da_error(err, exit_status,
+                     "The leading dimension must be at least " +
+                         std::to_string(order == column_major ? n_rows : n_cols));
+            goto exit;
+        }
+
         if (order == column_major) {
 
             for (auto it_col = it->second.col_slice->begin();
@@ -1024,17 +1039,7 @@ class data_store {
         } else {
 
             // For row-major ordering, we need to create a temporary array first
-            da_int n_cols = 0, n_rows = 0, ldd = 0;
-            for (auto it_col = it->second.col_slice->begin();
-                 it_col != it->second.col_slice->end(); ++it_col) {
-                n_cols += it_col->upper - it_col->lower + 1;
-                for (auto it_row = it->second.row_slice->begin();
-                     it_row != it->second.row_slice->end(); ++it_row) {
-                    n_rows += it_row->upper - it_row->lower + 1;
-                }
-            }
-            ldd = n_rows;
-            // ncols and nrows are now correctly set
+            da_int ldd = n_rows;
             std::vector<T> tmp_data;
 
             try {
@@ -1047,7 +1052,7 @@ class data_store {
 
             for (auto it_col = it->second.col_slice->begin();
                  it_col != it->second.col_slice->end(); ++it_col) {
-                idx = ncols * ld;
+                idx = ncols * ldd;
                 ncols += it_col->upper - it_col->lower + 1;
                 for (auto it_row = it->second.row_slice->begin();
                      it_row != it->second.row_slice->end(); ++it_row) {
-- 
2.43.0


From a58d64eaae7b794a24d91d0c9722f39e4186a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:28 +0000
Subject: [PATCH 67/76] fix: the selection of non-missing rows read outside the
 row flags and crashed on an empty store

---
 source/core/data_management/data_store.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index e7898e7..67efff6 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -1106,7 +1106,9 @@ class data_store {
         auto it = selections.find(key);
         bool clear_cols = false, clear_all_cols = false;
         if (it == selections.end()) {
-            select_slice(key, {0, m - 1}, {0, n - 1});
+            status = select_slice(key, {0, m - 1}, {0, n - 1});
+            if (status != da_status_success)
+                return status; // Error message already loaded
             it = selections.find(key);
             clear_cols = true;
         }
@@ -1174,7 +1176,7 @@ class data_store {
         while (i < m) {
             if (!valid_rows[i]) {
                 da_int idx_stop = i;
-                while (!valid_rows[idx_stop] && idx_stop < m) {
+                while (idx_stop < m && !valid_rows[idx_stop]) {
                     idx_stop++;
                 }
                 status = row_slice->erase({i, idx_stop - 1});
-- 
2.43.0


From 313590ed93205649829513e4f9301161e644fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:28 +0000
Subject: [PATCH 68/76] fix: adding rows twice to columns loaded in several
 blocks linked a row block to itself

---
 source/core/data_management/data_store.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 67efff6..fbcf301 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -570,6 +570,17 @@ class data_store {
                 }
                 while (current_block->next != nullptr)
                     current_block = current_block->next;
+                // An earlier row block can already span several column blocks
+                if (current_block == new_block)
+                    continue;
+                if (current_block->offset < idx_start ||
+                    current_block->offset + current_block->b->n > idx_start + nr) {
+                    cleanup = true;
+                    status = da_error(err, da_status_invalid_input,
+                                      "cannot concatenate row(s), the columns are "
+                                      "grouped in a wider block.");
+                    break;
+                }
                 current_block->next = new_block;
                 if (new_block->left_parent == nullptr)
                     new_block->left_parent = current_block;
-- 
2.43.0


From f41cb0e9e18bfa489b6a155c0eaa033e2ccb036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:28 +0000
Subject: [PATCH 69/76] fix: parts of a row block could have different numbers
 of rows, and rejected rows were freed twice or subtracted

---
 source/core/data_management/data_store.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index fbcf301..ebfa039 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -410,7 +410,7 @@ class data_store {
      * idx_start_missing: column index of the start of the missing block
      */
     bool missing_block = false;
-    da_int idx_start_missing = 0;
+    da_int idx_start_missing = 0, n_rows_missing = 0;
 
     /* Hash map of selections, using user defined labels (c strings) */
     selection_map selections;
@@ -537,6 +537,12 @@ class data_store {
                 return da_error(err, da_status_invalid_input,
                                 "Number of rows must match " + std::to_string(m) +
                                     " (input: " + std::to_string(nr + idx_start) + ")");
+            if (missing_block && mr != n_rows_missing)
+                return da_error(err, da_status_invalid_input,
+                                "Number of rows must match the first part of the row "
+                                "block: " +
+                                    std::to_string(n_rows_missing) +
+                                    " (input: " + std::to_string(mr) + ")");
 
             // Create a dense block from the raw data
             try {
@@ -553,7 +559,8 @@ class data_store {
             new_block->offset = idx_start;
             block_type btype = get_block_type<T>();
 
-            if (!missing_block)
+            bool first_part = !missing_block;
+            if (first_part)
                 m += mr;
             ub = idx_start - 1;
             std::shared_ptr<block_id> current_block;
@@ -589,6 +596,7 @@ class data_store {
                 if (idx_start + nr < n) {
                     missing_block = true;
                     idx_start_missing = idx_start + nr;
+                    n_rows_missing = mr;
                 } else {
                     missing_block = false;
                     idx_start_missing = 0;
@@ -611,7 +619,10 @@ class data_store {
                     ub = it->first.upper;
                     ++it;
                 }
-                m -= mr;
+                if (first_part)
+                    m -= mr;
+                // The caller keeps the ownership of the data that was not added
+                static_cast<block_dense<T> *>(new_block->b)->set_own_data(copy_data);
             }
         }
         return status; // Error message already loaded
-- 
2.43.0


From fad7600d8c60ce51242b29e859dfbafb01265821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:28 +0000
Subject: [PATCH 70/76] fix: accessing an element of an incomplete row block
 read through a null pointer

---
 source/core/data_management/data_store.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index ebfa039..de71129 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -1284,6 +1284,11 @@ class data_store {
      */
     template <class T> da_status get_element(da_int i, da_int j, T &elem) {
 
+        if (missing_block)
+            return da_error(
+                err, da_status_missing_block,
+                "Row blocks are not complete, cannot access elements at this point");
+
         if (i < 0 || i >= this->m)
             return da_error(err, da_status_invalid_input,
                             "i = " + std::to_string(i) +
@@ -1323,6 +1328,11 @@ class data_store {
     }
     template <class T> da_status set_element(da_int i, da_int j, T elem) {
 
+        if (missing_block)
+            return da_error(
+                err, da_status_missing_block,
+                "Row blocks are not complete, cannot access elements at this point");
+
         if (i < 0 || i >= this->m)
             return da_error(err, da_status_invalid_input,
                             "i = " + std::to_string(i) +
-- 
2.43.0


From fc196caf5c83c1cd88ccd06237c2590ae451e6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:04 +0000
Subject: [PATCH 71/76] fix: a label that was replaced still designated the
 column

---
 source/core/data_management/data_store.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index de71129..9698d36 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -1382,7 +1382,17 @@ class data_store {
 
         auto it = name_to_index.insert(std::make_pair(label, idx)).first;
         std::string const *pstr = &it->first;
+        std::string const *old_pstr = index_to_name[idx];
         index_to_name[idx] = pstr;
+        if (old_pstr != nullptr && old_pstr != pstr) {
+            // The previous label now designates another column with that label, or none
+            auto other = std::find(index_to_name.begin(), index_to_name.end(), old_pstr);
+            auto it_old = name_to_index.find(*old_pstr);
+            if (other != index_to_name.end())
+                it_old->second = (da_int)(other - index_to_name.begin());
+            else
+                name_to_index.erase(it_old);
+        }
         return da_status_success;
     }
 
-- 
2.43.0


From 7131e5c100cc08679148c4ace295730e5ece79ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:04 +0000
Subject: [PATCH 72/76] fix: concatenating data stores lost the column labels
 and left them out of step with the columns

---
 source/core/data_management/data_store.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 9698d36..4e525b3 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -632,6 +632,9 @@ class data_store {
      * in output, 'this' will contain the concatenation and store will be destroyed.
      */
     da_status horizontal_concat(data_store &store) {
+        if (&store == this)
+            return da_error(err, da_status_invalid_input,
+                            "A store cannot be concatenated with itself.");
         if (m != store.m)
             return da_error(err, da_status_invalid_input,
                             "The number of rows in both stores must match (" +
@@ -649,12 +652,14 @@ class data_store {
             da_int nc = it1->first.upper - it1->first.lower + 1;
             store_block = it1->second;
             store_block->offset += n_orig;
+            store_block->b->err = err;
             cmap.insert(interval(n, n + nc - 1), store_block);
             current_block = store_block;
             next = store_block->next;
             while (next != nullptr) {
                 if (next->left_parent == current_block)
                     next->offset = current_block->offset;
+                next->b->err = err;
                 current_block = next;
                 next = next->next;
             }
@@ -663,6 +668,14 @@ class data_store {
             it1++;
             store.cmap.erase(it2);
         }
+        // The columns keep their labels
+        index_to_name.resize(n, nullptr);
+        for (da_int j = n_orig; j < n; j++) {
+            if (store.index_to_name[j - n_orig] != nullptr)
+                label_column(*store.index_to_name[j - n_orig], j);
+        }
+        store.index_to_name.clear();
+        store.name_to_index.clear();
         store.m = 0;
         store.n = 0;
 
-- 
2.43.0


From d2b863ad983c6897c28fe99760a6ae738e04918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:39 +0000
Subject: [PATCH 73/76] fix: CSV files that end inside a quotation or after an
 escape character were read as if they were complete

---
 source/core/csv/read_csv.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/core/csv/read_csv.hpp b/source/core/csv/read_csv.hpp
index 8d2f69a..b8a4f91 100644
--- a/source/core/csv/read_csv.hpp
+++ b/source/core/csv/read_csv.hpp
@@ -100,9 +100,10 @@ inline da_status parse_file(csv_reader *csv, const char *filename) {
 
     istatus = tokenize_all_rows(parser, encoding_errors);
     if (istatus != 0) {
-        da_error(csv->err, da_status_memory_error,
-                 "Memory allocation failure"); // LCOV_EXCL_LINE
-        goto exit;                             // LCOV_EXCL_LINE
+        status = da_error(csv->err, da_status_parsing_error,
+                          parser->error_msg ? parser->error_msg
+                                            : "Memory allocation failure");
+        goto exit;
     } else if (parser->skipped_lines != nullptr) {
         std::string buff;
         buff = "The following lines of the CSV file were ignored:\n";
-- 
2.43.0


From 5053b9968aa22b1db3f6db226331682047e65256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:39 +0000
Subject: [PATCH 74/76] fix: reading headings from a ragged CSV file freed an
 uninitialized pointer

---
 source/core/csv/read_csv.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/core/csv/read_csv.hpp b/source/core/csv/read_csv.hpp
index b8a4f91..8378bb5 100644
--- a/source/core/csv/read_csv.hpp
+++ b/source/core/csv/read_csv.hpp
@@ -140,6 +140,11 @@ inline da_status populate_data_array(csv_reader *csv, T **a, da_int *nrows, da_i
     uint64_t lines = parser->lines;
     uint64_t words_len = parser->words_len;
 
+    // Nothing is returned unless the data is read completely
+    *nrows = 0;
+    *ncols = 0;
+    *a = nullptr;
+
     // Guard against empty CSV file
     if (lines == 0 || (parser->skip_footer && lines == 1)) {
         *nrows = 0;
-- 
2.43.0


From 49f18bdb68a47c49abc810124d44ce0c7e714c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:39 +0000
Subject: [PATCH 75/76] fix: the CSV reader kept the start row and the list of
 ignored lines of an earlier read

---
 source/core/csv/tokenizer.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index b92b201..adb4352 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -181,6 +181,11 @@ int parser_reset(parser_t *self){
 
     parser_clear_data_buffers(self);
 
+    if (self->skipped_lines != NULL) {
+        kh_destroy_int64((kh_int64_t *)self->skipped_lines);
+        self->skipped_lines = NULL;
+    }
+
     int64_t sz;
 
     sz = STREAM_INIT_SIZE / 10;
@@ -628,9 +633,7 @@ void parser_store_skipped_row(parser_t *self, int64_t row) {
 
 int parser_set_skipfirstnrows(parser_t *self, int64_t nrows) {
     // self->file_lines is zero based so subtract 1 from nrows
-    if (nrows > 0) {
-        self->skip_first_N_rows = nrows - 1;
-    }
+    self->skip_first_N_rows = nrows - 1;
 
     return 0;
 }
-- 
2.43.0


From 9f8b4ff65bc0f3f6a83958785207bd0c917eda61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:03 +0000
Subject: [PATCH 76/76] fix: ball trees lost neighbours on the boundary of the
 radius to rounding

---
 source/core/nearest_neighbors/ball_tree.cpp | 34 ++++++++++++++-------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/source/core/nearest_neighbors/ball_tree.cpp b/source/core/nearest_neighbors/ball_tree.cpp
index 6ca3f25..79b79b4 100644
--- a/source/core/nearest_neighbors/ball_tree.cpp
+++ b/source/core/nearest_neighbors/ball_tree.cpp
@@ -168,8 +168,11 @@ ball_tree<T>::ball_tree(da_int n_samples_in, da_int n_features_in, const T *A_in
     std::vector<T> centroid(this->n_features);
     T radius = 0.0;
 
+    // Distances based on norms are too inaccurate close to the boundary of the ball
+    da_metric radius_metric =
+        this->metric == da_euclidean_gemm ? da_euclidean : this->metric;
     if (parallel_centroid_radius(this->n_samples, this->n_features, this->A, this->lda,
-                                 this->metric, this->p, centroid,
+                                 radius_metric, this->p, centroid,
                                  radius) != da_status_success) {
         throw std::runtime_error( // LCOV_EXCL_LINE
             "Failed to compute column means for the dataset");
@@ -202,20 +205,25 @@ void ball_tree<T>::node_centroid_radius(da_int *indices, da_int n_indices,
             centroid[j] += this->A[index + j * this->lda];
         }
     }
-    T X_norm = 0.0;
     for (da_int j = 0; j < this->n_features; j++) {
         centroid[j] /= n_indices;
-        if (this->metric == da_euclidean_gemm)
-            X_norm += centroid[j] * centroid[j];
     }
     radius = 0.0;
     for (da_int i = 0; i < n_indices; i++) {
         T tmp_dist = 0.0;
-        da_status status =
-            this->compute_distance(tmp_dist, indices[i], centroid.data(), X_norm);
-        // This error should not be possible, but will be caught by the constructor
-        if (status != da_status_success) {
-            throw std::bad_alloc(); // LCOV_EXCL_LINE
+        if (this->metric == da_euclidean_gemm) {
+            // Distances based on norms are too inaccurate close to the boundary of the ball
+            for (da_int j = 0; j < this->n_features; j++) {
+                T tmp = this->A[indices[i] + j * this->lda] - centroid[j];
+                tmp_dist += tmp * tmp;
+            }
+        } else {
+            da_status status =
+                this->compute_distance(tmp_dist, indices[i], centroid.data(), (T)0.0);
+            // This error should not be possible, but will be caught by the constructor
+            if (status != da_status_success) {
+                throw std::bad_alloc(); // LCOV_EXCL_LINE
+            }
         }
 
         radius = std::max(radius, tmp_dist);
@@ -424,12 +432,16 @@ ball_tree<T>::check_ball(T *X, T eps, std::vector<T> &centroid, T radius, T &dis
         }
     }
 
-    if (dist + radius <= eps) {
+    // The centroid, radius and distance are rounded, so leave a margin for points on the boundary
+    T margin = (this->n_features + 8) * std::numeric_limits<T>::epsilon() *
+               (dist + radius + eps);
+
+    if (dist + radius + margin <= eps) {
         // The entire ball is within eps of X
         return da_neighbors_types::region_within_eps;
     }
     // If the minimum distance is less than eps, then X is within eps of the edge of the ball
-    if (dist - radius <= eps) {
+    if (dist - radius - margin <= eps) {
         return da_neighbors_types::pt_within_eps;
     }
     // Otherwise, the point is outside the ball by at least eps
-- 
2.43.0

