From 17cc4c37a135418e8649ce7c4b8f6bd35d17e8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:39 +0000
Subject: [PATCH 01/29] fix: exception messages no longer refer to a destroyed
 temporary

---
 src/memory_layout/memory_layout_exception.hpp | 7 +++++--
 src/util/matrix_multiplication_exception.hpp  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/memory_layout/memory_layout_exception.hpp b/src/memory_layout/memory_layout_exception.hpp
index b127054..f54eae0 100644
--- a/src/memory_layout/memory_layout_exception.hpp
+++ b/src/memory_layout/memory_layout_exception.hpp
@@ -1,3 +1,5 @@
+#pragma once
+
 #include <exception>
 #include <string>
 
@@ -7,11 +9,12 @@ class memory_layout_exception: public std::exception {
 private:
   std::string message;
 public:
-  memory_layout_exception(const std::string &message): message(message) {
+  memory_layout_exception(const std::string &message):
+      message(std::string("memory_layout_exception: ") + message) {
   }
 
   virtual const char* what() const throw() {
-    return (std::string("memory_layout_exception: ") + message).c_str();
+    return message.c_str();
   }
 };
 
diff --git a/src/util/matrix_multiplication_exception.hpp b/src/util/matrix_multiplication_exception.hpp
index b58f3aa..f891017 100644
--- a/src/util/matrix_multiplication_exception.hpp
+++ b/src/util/matrix_multiplication_exception.hpp
@@ -1,3 +1,5 @@
+#pragma once
+
 #include <exception>
 #include <string>
 
@@ -7,11 +9,12 @@ class matrix_multiplication_exception: public std::exception {
 private:
   std::string message;
 public:
-  matrix_multiplication_exception(const std::string &message): message(message) {
+  matrix_multiplication_exception(const std::string &message):
+      message(std::string("matrix_multiplication_exception: ") + message) {
   }
 
   virtual const char* what() const throw() {
-    return (std::string("matrix_multiplication_exception: ") + message).c_str();
+    return message.c_str();
   }
 };
 
-- 
2.43.0


From 386399c8948f48878826acc029d1c18783e779c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:39 +0000
Subject: [PATCH 02/29] fix: undo_tiling returns the untiled array for any
 dimension and stride

---
 src/memory_layout/tile_array.hpp | 4 +++-
 src/memory_layout/util.hpp       | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/memory_layout/tile_array.hpp b/src/memory_layout/tile_array.hpp
index a1a8657..4af9144 100644
--- a/src/memory_layout/tile_array.hpp
+++ b/src/memory_layout/tile_array.hpp
@@ -214,7 +214,7 @@ std::vector<T, U> undo_tiling(std::vector<T, U> &tiled,
     untiled_strides[d] = tiling_info[d].stride;
   }
 
-  memory_layout::iterate_tiles<2>(
+  memory_layout::iterate_tiles<dim>(
       tiled, tiling_info, [&untiled, &untiled_strides, &tiling_info, &min, &max,
                            &strides](auto view) {
         std::array<size_t, dim> &tile_index = view.get_tile_index();
@@ -238,5 +238,7 @@ std::vector<T, U> undo_tiling(std::vector<T, U> &tiled,
             });
 
       });
+
+  return untiled;
 }
 }
diff --git a/src/memory_layout/util.hpp b/src/memory_layout/util.hpp
index d3915b2..1edfc72 100644
--- a/src/memory_layout/util.hpp
+++ b/src/memory_layout/util.hpp
@@ -7,7 +7,7 @@ size_t flat_index(const size_t (&index)[dim], const size_t (&strides)[dim]) {
   size_t cur_stride = 1;
   for (size_t d = 0; d < dim; d++) {
     flat_index += index[(dim - 1) - d] * cur_stride;
-    cur_stride *= strides[d];
+    cur_stride *= strides[(dim - 1) - d];
   }
   return flat_index;
 }
@@ -19,7 +19,7 @@ size_t flat_index(const std::array<size_t, dim> &index,
   size_t cur_stride = 1;
   for (size_t d = 0; d < dim; d++) {
     flat_index += index[(dim - 1) - d] * cur_stride;
-    cur_stride *= strides[d];
+    cur_stride *= strides[(dim - 1) - d];
   }
   return flat_index;
 }
-- 
2.43.0


From 8104f0afb12b5d6d712ec0b86f4bf468b102e680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:40 +0000
Subject: [PATCH 03/29] fix: tile views work for dimensions other than two

---
 src/memory_layout/tile_iterator.hpp | 2 +-
 src/memory_layout/tile_view.hpp     | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/memory_layout/tile_iterator.hpp b/src/memory_layout/tile_iterator.hpp
index 2b485bc..04115c0 100644
--- a/src/memory_layout/tile_iterator.hpp
+++ b/src/memory_layout/tile_iterator.hpp
@@ -20,7 +20,7 @@ iterate_tile_dim(std::vector<T, U> &tiled,
                  const std::vector<tiling_info_dim> &tiling_info,
                  size_t (&tile_index)[dim], F f) {
 
-  memory_layout::tile_view<2, T, U> v(tiled, tile_index, tiling_info);
+  memory_layout::tile_view<dim, T, U> v(tiled, tile_index, tiling_info);
   f(std::move(v));
 }
 
diff --git a/src/memory_layout/tile_view.hpp b/src/memory_layout/tile_view.hpp
index ecbe28b..4c5c076 100644
--- a/src/memory_layout/tile_view.hpp
+++ b/src/memory_layout/tile_view.hpp
@@ -22,8 +22,9 @@ public:
             std::vector<tiling_info_dim> tiling_info)
       : tiled(tiled), tiling_info(tiling_info) {
 
-    this->tile_index[0] = tile_index[0];
-    this->tile_index[1] = tile_index[1];
+    for (size_t d = 0; d < dim; d++) {
+      this->tile_index[d] = tile_index[d];
+    }
 
     for (size_t d = 0; d < dim; d++) {
       this->tiles_dir[d] = tiling_info[d].stride / tiling_info[d].tile_size_dir;
-- 
2.43.0


From a10b721eb46856c1526276348a93e23130a1cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:40 +0000
Subject: [PATCH 04/29] fix: blocked kernel no longer reads past the matrices
 for uneven block sizes

---
 src/reference_kernels/kernel.hpp       | 9 +++++----
 src/variants/components/multiplier.cpp | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/reference_kernels/kernel.hpp b/src/reference_kernels/kernel.hpp
index 53fe568..86f7148 100644
--- a/src/reference_kernels/kernel.hpp
+++ b/src/reference_kernels/kernel.hpp
@@ -3,6 +3,7 @@
 //#include "aligned_allocator.hpp"
 #include <boost/align/aligned_allocator.hpp>
 
+#include <algorithm>
 #include <vector>
 #include <iostream>
 
@@ -74,16 +75,16 @@ void kernel_transposed_blocked(std::vector<T> &A, std::vector<T> &B,
   // recursive parallelization
   for (size_t k_block = 0; k_block < N; k_block += block_input) {
 
-    //        size_t k_max = std::min(k_block + block_input, N);
+    const size_t k_count = std::min(block_input, N - k_block);
 
     for (size_t i = 0; i < block_result; i++) {
-      for (size_t k = 0; k < block_input; k++) {
+      for (size_t k = 0; k < k_count; k++) {
         A_small[i * block_input + k] = A[(x + i) * N + k_block + k];
       }
     }
 
     for (size_t j = 0; j < block_result; j++) {
-      for (size_t k = 0; k < block_input; k++) {
+      for (size_t k = 0; k < k_count; k++) {
         B_small[j * block_input + k] = B[(y + j) * N + k_block + k];
       }
     }
@@ -108,7 +109,7 @@ void kernel_transposed_blocked(std::vector<T> &A, std::vector<T> &B,
         T result_component_3_0 = 0.0;
         T result_component_3_1 = 0.0;
 
-        for (size_t k = 0; k < block_input; k++) {
+        for (size_t k = 0; k < k_count; k++) {
           result_component_0_0 += A_small[(i + 0) * block_input + k] *
                                   B_small[(j + 0) * block_input + k];
           result_component_0_1 += A_small[(i + 0) * block_input + k] *
diff --git a/src/variants/components/multiplier.cpp b/src/variants/components/multiplier.cpp
index 22acdd3..6af234f 100644
--- a/src/variants/components/multiplier.cpp
+++ b/src/variants/components/multiplier.cpp
@@ -24,7 +24,7 @@ std::vector<double> multiplier::calculate_submatrix(std::uint64_t x,
     kernel::kernel(A, B, C, N, x, y, block_result);
   } else {
     // no blocking?
-    if (block_input == 0 || block_result < 4) {
+    if (block_input == 0 || block_result % 4 != 0) {
       kernel::kernel_transposed(A, B, C, N, x, y, block_result);
     } else {
       kernel::kernel_transposed_blocked(A, B, C, N, x, y, block_result,
-- 
2.43.0


From 5cb13cf2e35545c82f4133017c896529c79a61e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:48 +0000
Subject: [PATCH 05/29] fix: algorithms variant handles block sizes that do not
 divide the matrix

---
 src/variants/algorithms.hpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/variants/algorithms.hpp b/src/variants/algorithms.hpp
index 30f74e3..54e629e 100644
--- a/src/variants/algorithms.hpp
+++ b/src/variants/algorithms.hpp
@@ -5,6 +5,7 @@
 #include "hpx/parallel/execution_policy.hpp"
 #include "hpx/util/iterator_facade.hpp"
 #include <boost/iterator/iterator_facade.hpp>
+#include <algorithm>
 #include <numeric>
 
 namespace algorithms {
@@ -124,8 +125,9 @@ private:
 public:
   algorithms(size_t N, std::vector<double> &A, std::vector<double> &B,
              uint64_t block_input, size_t block_result)
-      : N(N), A(A), B(B), block_input(block_input), block_result(block_result) {
-  }
+      : N(N), A(A), B(B), block_input(block_input),
+        // 0 disables the blocking of the result matrix
+        block_result(block_result == 0 ? N : block_result) {}
 
   std::vector<double> matrix_multiply() {
     std::vector<double> C(N * N);
@@ -167,11 +169,13 @@ public:
           //                    hpx::cout << "block_x: " << block_x << "
           //                    block_y: " << block_y << std::endl <<
           //                    hpx::flush;
-          // should the matrix be smaller than 128 (all bigger than 128 are also
-          // multiples of 128)
           size_t outer_x = block_x * block_result;
           size_t outer_y = block_y * block_result;
 
+          // blocks at the border of the matrix can be incomplete
+          const size_t x_count = std::min(block_result, N - outer_x);
+          const size_t y_count = std::min(block_result, N - outer_y);
+
           // use small intermediate matrices to reduce conflict misses
           std::vector<double> C_inner(block_result * block_result);
           std::fill(C_inner.begin(), C_inner.end(), 0.0);
@@ -185,22 +189,20 @@ public:
           // block the bands in the (big) input matrices, in this loop algorithm
           // is within small block matrix
           for (size_t k_block = 0; k_block < N; k_block += block_input) {
-            // should the matrix be smaller than 128 (all bigger than 128 are
-            // also multiples of 128)
-            //                        size_t k_input_end = std::min(k_block +
-            //                        block_input, N);
+            // the last chunk can be incomplete
+            const size_t k_count = std::min<size_t>(block_input, N - k_block);
 
             // move input matrix into cache (and suppress conflict misses)
-            for (size_t x = 0; x < block_result; x++) {
-              for (size_t k = 0; k < block_input; k++) {
+            for (size_t x = 0; x < x_count; x++) {
+              for (size_t k = 0; k < k_count; k++) {
                 A_small[x * block_input + k] =
                     A[(outer_x + x) * N + k_block + k];
               }
             }
 
             // move input matrix into cache (and suppress conflict misses)
-            for (size_t y = 0; y < block_result; y++) {
-              for (size_t k = 0; k < block_input; k++) {
+            for (size_t y = 0; y < y_count; y++) {
+              for (size_t k = 0; k < k_count; k++) {
                 B_small[y * block_input + k] =
                     B[(outer_y + y) * N + k_block + k];
               }
@@ -212,7 +214,7 @@ public:
                 hpx::parallel::seq,
                 index_iterator<double>(C_inner, block_result),
                 block_result * block_result,
-                [this, &A_small, &B_small](
+                [this, k_count, &A_small, &B_small](
                     std::tuple<size_t, size_t, std::reference_wrapper<double>>
                         t) {
                   size_t x = std::get<0>(t);
@@ -220,8 +222,7 @@ public:
                   double &value = std::get<2>(t);
 
                   auto A_submatrix_begin = A_small.begin() + x * block_input;
-                  auto A_submatrix_end =
-                      A_small.begin() + (x + 1) * block_input;
+                  auto A_submatrix_end = A_submatrix_begin + k_count;
                   // assumes transposed input matrix
                   auto B_submatrix_begin = B_small.begin() + y * block_input;
 
@@ -234,8 +235,8 @@ public:
 
           // write (small) block result matrix back into (big) overall result
           // matrix
-          for (size_t x = 0; x < block_result; x++) {
-            for (size_t y = 0; y < block_result; y++) {
+          for (size_t x = 0; x < x_count; x++) {
+            for (size_t y = 0; y < y_count; y++) {
               C[(outer_x + x) * N + (outer_y + y)] =
                   C_inner[x * block_result + y];
             }
-- 
2.43.0


From 024420b5cebde5e17b882078e64701a952d791a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:48 +0000
Subject: [PATCH 06/29] fix: looped variant covers all indices when block sizes
 do not divide the matrix

---
 src/variants/looped.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/variants/looped.hpp b/src/variants/looped.hpp
index da42282..4dccbaa 100644
--- a/src/variants/looped.hpp
+++ b/src/variants/looped.hpp
@@ -6,6 +6,9 @@
 #include "hpx/util/iterator_facade.hpp"
 #include <boost/iterator/iterator_facade.hpp>
 
+#include <algorithm>
+#include <vector>
+
 namespace looped {
 
 template <typename T>
@@ -161,7 +164,8 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
 
   size_t inner_index_count = 1;
   for (size_t d = 0; d < dim; d++) {
-    inner_index_count *= (max[d] - min[d]) / block[d];
+    // blocks at the border of the index range can be incomplete
+    inner_index_count *= (max[d] - min[d] + block[d] - 1) / block[d];
   }
 
   //    hpx::cout << "inner_index_count: " << inner_index_count << std::endl
@@ -202,7 +206,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
     // hpx::cout << "recursive blocking step" << std::endl << hpx::flush;
     hpx::parallel::for_each_n(
         hpx::parallel::seq, dim_iter, inner_index_count,
-        [dim, policy, &block, f](const std::vector<size_t> &cur_index) {
+        [dim, policy, &block, &max, f](const std::vector<size_t> &cur_index) {
           //                    hpx::cout << "block index ";
           //                    for (size_t d = 0; d < dim; d++) {
           //                        if (d > 0) {
@@ -219,7 +223,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
           }
           std::vector<T> recursive_max(dim);
           for (size_t d = 0; d < dim; d++) {
-            recursive_max[d] = cur_index[d] + block[d];
+            recursive_max[d] = std::min(cur_index[d] + block[d], max[d]);
           }
           // do recursive blocking
           iterate_indices(policy, recursive_min, recursive_max, f);
@@ -242,8 +246,10 @@ private:
 public:
   looped(size_t N, std::vector<double> &A, std::vector<double> &B,
          uint64_t block_result, uint64_t block_input)
-      : N(N), A(A), B(B), block_result(block_result), block_input(block_input) {
-  }
+      : N(N), A(A), B(B),
+        // 0 disables the blocking of the result matrix
+        block_result(block_result == 0 ? N : block_result),
+        block_input(block_input) {}
 
   std::vector<double> matrix_multiply() {
     std::vector<double> C(N * N);
-- 
2.43.0


From 418b13846fa8e22a9ebe5cccd2a069029af62f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:48 +0000
Subject: [PATCH 07/29] fix: semi variant stays within its matrices for
 arbitrary sizes

---
 src/variants/semi.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/variants/semi.cpp b/src/variants/semi.cpp
index 1125f1a..a9f0335 100644
--- a/src/variants/semi.cpp
+++ b/src/variants/semi.cpp
@@ -28,7 +28,8 @@ std::vector<double> semi::matrix_multiply() {
   // N_fixed = N + 4 -> bit better, for unknown reasons,
   // Same for N + 8, little bit better for N + 16, N + 32 even better, N + 64
   // same performance
-  size_t N_fixed = N;
+  // round up, as the kernel always processes 4x2 result components
+  size_t N_fixed = (N + 3) / 4 * 4;
 
   std::vector<double> A_conflict(N_fixed * N_fixed);
   std::vector<double> B_conflict(N_fixed * N_fixed);
@@ -75,7 +76,9 @@ std::vector<double> semi::matrix_multiply() {
     double result_component_3_0 = 0.0;
     double result_component_3_1 = 0.0;
 
-    for (size_t k_inner = 0; k_inner < block_input; k_inner++) {
+    // the last chunk can be incomplete
+    for (size_t k_inner = 0; k_inner < block_input && k + k_inner < N;
+         k_inner++) {
       result_component_0_0 += A_conflict[(x + 0) * N_fixed + k + k_inner] *
                               B_conflict[(y + 0) * N_fixed + k + k_inner];
       result_component_0_1 += A_conflict[(x + 0) * N_fixed + k + k_inner] *
-- 
2.43.0


From 0352326f30bd4927c1f4cf35fee521f9dc8a607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:52 +0000
Subject: [PATCH 08/29] fix: kernel_test stays within its padded matrices for
 arbitrary sizes

---
 src/reference_kernels/kernel_test.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reference_kernels/kernel_test.cpp b/src/reference_kernels/kernel_test.cpp
index a35ab96..53a9c90 100644
--- a/src/reference_kernels/kernel_test.cpp
+++ b/src/reference_kernels/kernel_test.cpp
@@ -3,7 +3,7 @@
 #include <Vc/Vc>
 #include <boost/align/aligned_allocator.hpp>
 
-#define PADDING 64
+#define MIN_PADDING 64
 #define L3_X 256 // max 2 L3 par set to 1024 (rest 512)
 #define L3_Y 256
 #define L3_K_STEP 512
@@ -25,6 +25,10 @@ kernel_test::kernel_test(size_t N, std::vector<double> &A,
 
 std::vector<double> kernel_test::matrix_multiply() {
 
+  // the blocking always processes complete L3 blocks
+  const size_t PADDING =
+      MIN_PADDING + (L3_K_STEP - N % L3_K_STEP) % L3_K_STEP;
+
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> C_padded(
       (N + PADDING) * (N + PADDING));
 
@@ -252,7 +256,7 @@ std::vector<double> kernel_test::matrix_multiply() {
 }
 }
 
-#undef PADDING
+#undef MIN_PADDING
 #undef L3_X
 #undef L3_Y
 #undef L3_K_STEP
-- 
2.43.0


From 250581c19ab61713942cfe1dcc97dd7d4e8426e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:52 +0000
Subject: [PATCH 09/29] fix: combined variant no longer writes a shared flag
 from parallel tasks

---
 src/variants/combined.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/variants/combined.cpp b/src/variants/combined.cpp
index 406cc65..2fac910 100644
--- a/src/variants/combined.cpp
+++ b/src/variants/combined.cpp
@@ -184,10 +184,8 @@ std::vector<double> combined::matrix_multiply(double &duration) {
     std::chrono::high_resolution_clock::time_point start =
         std::chrono::high_resolution_clock::now();
 
-    bool first = true;
-
     iterate_indices<3>(
-        policy, min, max, [&first, &C_padded, &A_trans, &B_padded,
+        policy, min, max, [&C_padded, &A_trans, &B_padded,
                            this](size_t l1_x, size_t l1_y, size_t l1_k) {
           size_t l1_block_x = l1_x / L1_X;
           size_t l1_block_y = l1_y / L1_Y;
@@ -319,10 +317,6 @@ std::vector<double> combined::matrix_multiply(double &duration) {
             }
           }
 
-          if (first) {
-            first = false;
-          }
-
         });
     std::chrono::high_resolution_clock::time_point end =
         std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 5c4ed0c889bdc2511a49d977d3f08c68096acbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:52 +0000
Subject: [PATCH 10/29] fix: combined variant no longer accumulates the result
 across repetitions

---
 src/variants/combined.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/variants/combined.cpp b/src/variants/combined.cpp
index 2fac910..1b56ce5 100644
--- a/src/variants/combined.cpp
+++ b/src/variants/combined.cpp
@@ -174,6 +174,8 @@ std::vector<double> combined::matrix_multiply(double &duration) {
 
   for (size_t rep = 0; rep < repetitions; rep++) {
 
+    std::fill(C_padded.begin(), C_padded.end(), 0.0);
+
     blocking_pseudo_execution_policy<size_t> policy(3);
     // specify with ascending cache level
     policy.set_final_steps({L1_X, L1_Y, L1_K_STEP});
-- 
2.43.0


From 0c3fa57564ead9b86956a3be80ee516f37bc3e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:52 +0000
Subject: [PATCH 11/29] fix: work distribution no longer drops components of
 odd-sized packages

---
 src/variants/static_improved.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/variants/static_improved.cpp b/src/variants/static_improved.cpp
index 0647398..3f3bd4d 100644
--- a/src/variants/static_improved.cpp
+++ b/src/variants/static_improved.cpp
@@ -132,7 +132,8 @@ static_improved::create_schedule(size_t num_localities) {
       uint64_t smallest_work_difference = max_work - min_work;
       for (size_t j = 0; j < all_work[max_index].size(); j++) {
         matrix_multiply_work &w = all_work[max_index][j];
-        if (w.N <= this->min_work_size) {
+        // packages of odd size cannot be split into four equal packages
+        if (w.N <= this->min_work_size || w.N % 2 != 0) {
           continue;
         }
         // split work package between both locations
-- 
2.43.0


From b4ebe87b59cd33930ac99b937ab00ae927358ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:25 +0000
Subject: [PATCH 12/29] fix: print_matrix uses the row length of rectangular
 matrices

---
 src/util/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/util.hpp b/src/util/util.hpp
index a4f6583..887b415 100644
--- a/src/util/util.hpp
+++ b/src/util/util.hpp
@@ -71,7 +71,7 @@ template <typename T, typename Alloc> void print_matrix(size_t N, size_t M, std:
       if (j > 0) {
         hpx::cout << ", ";
       }
-      hpx::cout << m.at(i * N + j);
+      hpx::cout << m.at(i * M + j);
     }
     hpx::cout << std::endl << hpx::flush;
   }
-- 
2.43.0


From 9b2672c50980e2ef2ab47303eca9dee3a64bba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:25 +0000
Subject: [PATCH 13/29] fix: multBlocked4 no longer skips three of four
 products

---
 otherExperiments/multBlocked.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otherExperiments/multBlocked.cpp b/otherExperiments/multBlocked.cpp
index c87b701..0dca857 100644
--- a/otherExperiments/multBlocked.cpp
+++ b/otherExperiments/multBlocked.cpp
@@ -84,7 +84,7 @@ void multBlocked4(double *A, double *B, double *C, const uint32_t n) {
       //#pragma clang loop vectorize(enable)
 
       //REMARK: loop step != 1, loopd doesn't vectorize (gcc)
-      for (size_t k = 0; k < n; k += 4) {
+      for (size_t k = 0; k < n; k += 1) {
 	//REMARK: does vectorize with clang (and with gcc (but unclear output with gcc))
 	// result1 += A[i * n + k] * B[j * n + k];
 	// result2 += A[(i + 1) * n + k] * B[j * n + k];
-- 
2.43.0


From a8a4cb43687dd2faf4159beec3043701d6cab891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:25 +0000
Subject: [PATCH 14/29] fix: align the scratch arrays that are accessed with
 aligned vector loads

---
 otherExperiments/multGPUASM.cpp   | 4 ++--
 otherExperiments/multRegister.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/otherExperiments/multGPUASM.cpp b/otherExperiments/multGPUASM.cpp
index 362cc95..1c818d0 100644
--- a/otherExperiments/multGPUASM.cpp
+++ b/otherExperiments/multGPUASM.cpp
@@ -31,14 +31,14 @@ void multGPUASM(double *A, double *B, double *C, const uint32_t n) {
 
       for (size_t kBlock = 0; kBlock < n; kBlock += KCHUNK) {
 
-	double AA[BLOCKSIZE * KCHUNK];
+	alignas(32) double AA[BLOCKSIZE * KCHUNK];
 	for (size_t ii = 0; ii < BLOCKSIZE; ii++) {
 	  for (size_t k = 0; k < KCHUNK; k++) {
 	    AA[ii * KCHUNK + k] = A[(i +  ii) * n + kBlock + k];
 	  }
 	}
 
-	double BB[BLOCKSIZE * KCHUNK];
+	alignas(32) double BB[BLOCKSIZE * KCHUNK];
 	for (size_t jj = 0; jj < BLOCKSIZE; jj++) {
 	  for (size_t k = 0; k < KCHUNK; k++) {
 	    BB[jj * KCHUNK + k] = B[(j + jj) * n + kBlock + k];
diff --git a/otherExperiments/multRegister.cpp b/otherExperiments/multRegister.cpp
index e06aa57..854bf06 100644
--- a/otherExperiments/multRegister.cpp
+++ b/otherExperiments/multRegister.cpp
@@ -18,7 +18,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
   for (size_t i = 0; i < n; i += BLOCKSIZEX) {
     for (size_t j = 0; j < n; j += BLOCKSIZEY) {
 
-      double result[BLOCKSIZEX * BLOCKSIZEY];
+      alignas(32) double result[BLOCKSIZEX * BLOCKSIZEY];
 
       for (size_t ii = 0; ii < BLOCKSIZEX; ii++) {
       	for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
@@ -38,7 +38,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
 	  }
 	}
 
-	double BB[BLOCKSIZEY * KCHUNK];
+	alignas(32) double BB[BLOCKSIZEY * KCHUNK];
 	for (size_t k = 0; k < KCHUNK; k++) {
 	  for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
 	    BB[k * BLOCKSIZEY + jj] = B[(kBlock + k) * n + (j + jj)];
-- 
2.43.0


From 9c5d31f0e7342c4680e9cec7e37eb72b84173be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:25 +0000
Subject: [PATCH 15/29] fix: multRegister accumulates in the right register
 without FMA

---
 otherExperiments/multRegister.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otherExperiments/multRegister.cpp b/otherExperiments/multRegister.cpp
index 854bf06..223c4cf 100644
--- a/otherExperiments/multRegister.cpp
+++ b/otherExperiments/multRegister.cpp
@@ -77,7 +77,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
 		  resultReg[iii * JJ_BLOCKSIZE + jjj] = _mm256_fmadd_pd(Aregister1, Bregister1, resultReg[iii * JJ_BLOCKSIZE + jjj]);
 #else
 		  __m256d temp = _mm256_mul_pd(Aregister1, Bregister1);
-		  resultReg[jjj * JJ_BLOCKSIZE + iii] = _mm256_add_pd(temp, resultReg[jjj * JJ_BLOCKSIZE + iii]);		  
+		  resultReg[iii * JJ_BLOCKSIZE + jjj] = _mm256_add_pd(temp, resultReg[iii * JJ_BLOCKSIZE + jjj]);		  
 #endif
 		}	      
 
-- 
2.43.0


From 960775dbdac2d0a889f244b287c092018c572c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:25 +0000
Subject: [PATCH 16/29] fix: recursive distribution treats block size 0 as no
 blocking

---
 src/variants/components/recursive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/variants/components/recursive.cpp b/src/variants/components/recursive.cpp
index a0c132b..91314a9 100644
--- a/src/variants/components/recursive.cpp
+++ b/src/variants/components/recursive.cpp
@@ -43,7 +43,8 @@ std::vector<double> recursive::distribute_recursively(std::uint64_t x,
               << " blockSize: " << blockSize << std::endl
               << hpx::flush;
   }
-  if (blockSize <= block_result) {
+  // block_result == 0 disables the blocking of the result matrix
+  if (block_result == 0 || blockSize <= block_result) {
     uint32_t comp_locality = hpx::get_locality_id();
     hpx::components::client<multiplier> multiplier;
     multiplier.connect_to("/multiplier#" + std::to_string(comp_locality));
-- 
2.43.0


From 33fbae4f57f4261c8d7de378867b9b46cd99ad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:25 +0000
Subject: [PATCH 17/29] fix: reference kernels honour a transposed second
 operand

---
 src/reference_kernels/kernel_test.cpp  | 5 +++--
 src/reference_kernels/kernel_test.hpp  | 1 +
 src/reference_kernels/kernel_tiled.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reference_kernels/kernel_test.cpp b/src/reference_kernels/kernel_test.cpp
index 53a9c90..ad8bf53 100644
--- a/src/reference_kernels/kernel_test.cpp
+++ b/src/reference_kernels/kernel_test.cpp
@@ -21,7 +21,8 @@ namespace kernel_test {
 kernel_test::kernel_test(size_t N, std::vector<double> &A,
                          std::vector<double> &B, bool transposed,
                          uint64_t repetitions, uint64_t verbose)
-    : N(N), A(A), B(B), repetitions(repetitions), verbose(verbose) {}
+    : N(N), A(A), B(B), transposed(transposed), repetitions(repetitions),
+      verbose(verbose) {}
 
 std::vector<double> kernel_test::matrix_multiply() {
 
@@ -53,7 +54,7 @@ std::vector<double> kernel_test::matrix_multiply() {
       (N + PADDING) * (N + PADDING));
   for (size_t i = 0; i < N; i++) {
     for (size_t j = 0; j < N; j++) {
-      B_padded[i * (N + PADDING) + j] = B[i * N + j];
+      B_padded[i * (N + PADDING) + j] = transposed ? B[j * N + i] : B[i * N + j];
     }
   }
 
diff --git a/src/reference_kernels/kernel_test.hpp b/src/reference_kernels/kernel_test.hpp
index 453a71d..fada00b 100644
--- a/src/reference_kernels/kernel_test.hpp
+++ b/src/reference_kernels/kernel_test.hpp
@@ -12,6 +12,7 @@ private:
   std::vector<double> &A;
   std::vector<double> &B;
 
+  bool transposed;
   uint64_t repetitions;
   uint64_t verbose;
 
diff --git a/src/reference_kernels/kernel_tiled.cpp b/src/reference_kernels/kernel_tiled.cpp
index 160ecc8..137f934 100644
--- a/src/reference_kernels/kernel_tiled.cpp
+++ b/src/reference_kernels/kernel_tiled.cpp
@@ -106,7 +106,8 @@ kernel_tiled::kernel_tiled(size_t N, std::vector<double> &A_org,
   std::fill(B.begin(), B.end(), 0.0);
   for (size_t y = 0; y < N_org; y++) {
     for (size_t k = 0; k < N_org; k++) {
-      B.at(k * Y_size + y) = B_org.at(k * N + y);
+      B.at(k * Y_size + y) =
+          transposed ? B_org.at(y * N + k) : B_org.at(k * N + y);
     }
   }
 }
-- 
2.43.0


From 06d23c2b28c29dcb66a6eeba90b2bdadd84845cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:25 +0000
Subject: [PATCH 18/29] fix: kernel_tiled reports only the duration of its own
 run

---
 src/reference_kernels/kernel_tiled.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reference_kernels/kernel_tiled.cpp b/src/reference_kernels/kernel_tiled.cpp
index 137f934..e2d2d3c 100644
--- a/src/reference_kernels/kernel_tiled.cpp
+++ b/src/reference_kernels/kernel_tiled.cpp
@@ -114,6 +114,8 @@ kernel_tiled::kernel_tiled(size_t N, std::vector<double> &A_org,
 
 std::vector<double> kernel_tiled::matrix_multiply(double &duration) {
 
+  duration = 0.0;
+
   // create a matrix of l1 cachable submatrices, caching by tiling, no large
   // strides even without padding
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> C_padded(
-- 
2.43.0


From 855563fb34a3f32a80de0db9bff20a113ab86461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:40 +0000
Subject: [PATCH 19/29] fix: throw real exceptions instead of terminating on
 misuse

---
 src/aligned_allocator.hpp            | 6 ++++--
 src/memory_layout/index_iterator.hpp | 9 +++++----
 src/variants/index_iterator.hpp      | 9 +++++----
 src/variants/looped.hpp              | 7 ++++---
 4 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/aligned_allocator.hpp b/src/aligned_allocator.hpp
index 02b6910..1df62e7 100644
--- a/src/aligned_allocator.hpp
+++ b/src/aligned_allocator.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <memory>
+#include <new>
+#include <stdexcept>
 
 namespace alignment {
 
@@ -18,14 +20,14 @@ struct aligned_allocator {
   template <typename T> T *alloc(size_t size, size_t alignment) {
     // can only manage a single aligned pointer per instance
     if (data) {
-      throw;
+      throw std::logic_error("aligned_allocator: already manages a pointer");
     }
     size_t size_bytes = sizeof(T) * size + alignment; // sizeof(char) = 1 byte
     data = new char[size_bytes];
     p = data;
     p = std::align(alignment, sizeof(T), p, size_bytes);
     if (!p) {
-      throw;
+      throw std::bad_alloc();
     }
     return reinterpret_cast<T *>(p);
   }
diff --git a/src/memory_layout/index_iterator.hpp b/src/memory_layout/index_iterator.hpp
index 96ac854..2ed35f0 100644
--- a/src/memory_layout/index_iterator.hpp
+++ b/src/memory_layout/index_iterator.hpp
@@ -11,6 +11,7 @@
 #include "hpx/parallel/algorithms/for_loop.hpp"
 #include "hpx/parallel/execution_policy.hpp"
 #include <boost/iterator/iterator_facade.hpp>
+#include <stdexcept>
 #include "hpx/util/iterator_facade.hpp"
 #include <hpx/include/iostreams.hpp>
 
@@ -20,7 +21,7 @@ template<typename T>
 void map_dims(const std::vector<T> &sub_index, const std::vector<T> &map,
     std::vector<T> &index) {
   if (sub_index.size() != map.size()) {
-    throw;
+    throw std::invalid_argument("dimensions do not match");
   }
   for (size_t i = 0; i < sub_index.size(); i++) {
     index.at(map[i]) = sub_index.at(i);
@@ -116,7 +117,7 @@ public:
           max_index), step(step) {
     if (cur_index.size() != max_index.size()
         || max_index.size() != step.size()) {
-      throw;
+      throw std::invalid_argument("dimensions do not match");
     }
   }
 
@@ -144,7 +145,7 @@ public:
   blocking_pseudo_execution_policy &add_blocking(const std::vector<T> &block,
       const std::vector<bool> &parallel_dims) {
     if (block.size() != dim || parallel_dims.size() != dim) {
-      throw;
+      throw std::invalid_argument("dimensions do not match");
     }
     blocking_configuration.push_back(std::make_pair(block, parallel_dims));
     return *this;
@@ -175,7 +176,7 @@ template<size_t dim, typename T, typename F>
 void iterate_indices(blocking_pseudo_execution_policy<T> policy,
     std::vector<T> min, std::vector<T> max, F f) {
   if (min.size() != max.size() || min.size() != dim) {
-    throw;
+    throw std::invalid_argument("dimensions do not match");
   }
 //    size_t dim = min.size();
   auto pair = policy.pop();
diff --git a/src/variants/index_iterator.hpp b/src/variants/index_iterator.hpp
index 9b493f8..a9e7726 100644
--- a/src/variants/index_iterator.hpp
+++ b/src/variants/index_iterator.hpp
@@ -5,6 +5,7 @@
 #include "hpx/parallel/execution_policy.hpp"
 #include "hpx/util/iterator_facade.hpp"
 #include <boost/iterator/iterator_facade.hpp>
+#include <stdexcept>
 #include <hpx/include/iostreams.hpp>
 
 namespace index_iterator {
@@ -13,7 +14,7 @@ template <typename T>
 void map_dims(const std::vector<T> &sub_index, const std::vector<T> &map,
               std::vector<T> &index) {
   if (sub_index.size() != map.size()) {
-    throw;
+    throw std::invalid_argument("dimensions do not match");
   }
   for (size_t i = 0; i < sub_index.size(); i++) {
     index.at(map[i]) = sub_index.at(i);
@@ -112,7 +113,7 @@ public:
         max_index(max_index), step(step) {
     if (cur_index.size() != max_index.size() ||
         max_index.size() != step.size()) {
-      throw;
+      throw std::invalid_argument("dimensions do not match");
     }
   }
 
@@ -139,7 +140,7 @@ public:
   add_blocking(const std::vector<T> &block,
                const std::vector<bool> &parallel_dims) {
     if (block.size() != dim || parallel_dims.size() != dim) {
-      throw;
+      throw std::invalid_argument("dimensions do not match");
     }
     blocking_configuration.push_back(std::make_pair(block, parallel_dims));
     return *this;
@@ -169,7 +170,7 @@ template <size_t dim, typename T, typename F>
 void iterate_indices(blocking_pseudo_execution_policy<T> policy,
                      std::vector<T> min, std::vector<T> max, F f) {
   if (min.size() != max.size() || min.size() != dim) {
-    throw;
+    throw std::invalid_argument("dimensions do not match");
   }
   //    size_t dim = min.size();
   auto pair = policy.pop();
diff --git a/src/variants/looped.hpp b/src/variants/looped.hpp
index 4dccbaa..0cbedfc 100644
--- a/src/variants/looped.hpp
+++ b/src/variants/looped.hpp
@@ -5,6 +5,7 @@
 #include "hpx/parallel/execution_policy.hpp"
 #include "hpx/util/iterator_facade.hpp"
 #include <boost/iterator/iterator_facade.hpp>
+#include <stdexcept>
 
 #include <algorithm>
 #include <vector>
@@ -78,7 +79,7 @@ public:
         max_index(max_index), step(step) {
     if (cur_index.size() != max_index.size() ||
         max_index.size() != step.size()) {
-      throw;
+      throw std::invalid_argument("dimensions do not match");
     }
   }
 };
@@ -95,7 +96,7 @@ public:
     //            &dim_execution
     //            ) {
     if (block.size() != dim) { //  || dim_execution.size() != dim
-      throw;
+      throw std::invalid_argument("dimensions do not match");
     }
     blocking_configuration.push_back(
         block); // std::make_pair(block, dim_execution)
@@ -152,7 +153,7 @@ template <typename T, typename F>
 void iterate_indices(blocking_pseudo_execution_policy<T> policy,
                      std::vector<T> min, std::vector<T> max, F f) {
   if (min.size() != max.size()) {
-    throw;
+    throw std::invalid_argument("dimensions do not match");
   }
   size_t dim = min.size();
   //    std::pair<std::vector<T>, const
-- 
2.43.0


From 1fccd6e19595c2d6d61c4661a504aa823d647b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:40 +0000
Subject: [PATCH 20/29] fix: aligned_allocator can no longer be copied and free
 its memory twice

---
 src/aligned_allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_allocator.hpp b/src/aligned_allocator.hpp
index 1df62e7..f8ac127 100644
--- a/src/aligned_allocator.hpp
+++ b/src/aligned_allocator.hpp
@@ -11,6 +11,10 @@ struct aligned_allocator {
   void *p;
   aligned_allocator() : data(nullptr), p(nullptr) {}
 
+  // owns the memory
+  aligned_allocator(const aligned_allocator &) = delete;
+  aligned_allocator &operator=(const aligned_allocator &) = delete;
+
   ~aligned_allocator() {
     if (data) {
       delete[] data;
-- 
2.43.0


From f589a89f589d4b4f42c9d72b266223dbc2798f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:40 +0000
Subject: [PATCH 21/29] fix: blocked index iteration stays within bounds for
 incomplete blocks

---
 src/memory_layout/index_iterator.hpp | 5 +++--
 src/variants/index_iterator.hpp      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/memory_layout/index_iterator.hpp b/src/memory_layout/index_iterator.hpp
index 2ed35f0..0f7fda5 100644
--- a/src/memory_layout/index_iterator.hpp
+++ b/src/memory_layout/index_iterator.hpp
@@ -11,6 +11,7 @@
 #include "hpx/parallel/algorithms/for_loop.hpp"
 #include "hpx/parallel/execution_policy.hpp"
 #include <boost/iterator/iterator_facade.hpp>
+#include <algorithm>
 #include <stdexcept>
 #include "hpx/util/iterator_facade.hpp"
 #include <hpx/include/iostreams.hpp>
@@ -316,14 +317,14 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
 
           hpx::parallel::for_each_n(hpx::parallel::seq, dim_iter_serial_fill,
               inner_index_count_remain,
-              [&policy, &block, f, &recursive_min, &recursive_max](const std::vector<size_t> &cur_index) {
+              [&policy, &block, &max, f, &recursive_min, &recursive_max](const std::vector<size_t> &cur_index) {
                 // iterate within block
                 for (size_t d = 0; d < dim; d++) {
                   recursive_min[d] = cur_index[d];
                 }
 
                 for (size_t d = 0; d < dim; d++) {
-                  recursive_max[d] = cur_index[d] + block[d];
+                  recursive_max[d] = std::min(cur_index[d] + block[d], max[d]);
                 }
 
 //                                hpx::cout << "recursive_min: ";
diff --git a/src/variants/index_iterator.hpp b/src/variants/index_iterator.hpp
index a9e7726..5a360b2 100644
--- a/src/variants/index_iterator.hpp
+++ b/src/variants/index_iterator.hpp
@@ -5,6 +5,7 @@
 #include "hpx/parallel/execution_policy.hpp"
 #include "hpx/util/iterator_facade.hpp"
 #include <boost/iterator/iterator_facade.hpp>
+#include <algorithm>
 #include <stdexcept>
 #include <hpx/include/iostreams.hpp>
 
@@ -319,7 +320,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
           hpx::parallel::for_each_n(
               hpx::parallel::seq, dim_iter_serial_fill,
               inner_index_count_remain,
-              [&policy, &block, f, &recursive_min,
+              [&policy, &block, &max, f, &recursive_min,
                &recursive_max](const std::vector<size_t> &cur_index) {
                 // iterate within block
                 for (size_t d = 0; d < dim; d++) {
@@ -327,7 +328,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
                 }
 
                 for (size_t d = 0; d < dim; d++) {
-                  recursive_max[d] = cur_index[d] + block[d];
+                  recursive_max[d] = std::min(cur_index[d] + block[d], max[d]);
                 }
 
                 //                                hpx::cout << "recursive_min:
-- 
2.43.0


From dcb4eb5043885a38cb7d8b2ca68bec37f33b6413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:37 +0000
Subject: [PATCH 22/29] fix: do not run a reference kernel on empty matrices
 when only help was asked for

---
 src/matrix_multiply_application/matrix_multiply.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix_multiply_application/matrix_multiply.cpp b/src/matrix_multiply_application/matrix_multiply.cpp
index bfd2044..1ae639a 100644
--- a/src/matrix_multiply_application/matrix_multiply.cpp
+++ b/src/matrix_multiply_application/matrix_multiply.cpp
@@ -75,6 +75,7 @@ int hpx_main(boost::program_options::variables_map &vm) {
 
   if (vm.count("help")) {
     std::cout << desc_commandline << std::endl;
+    display_help = true;
     return hpx::finalize();
   }
 
@@ -317,6 +318,10 @@ int main(int argc, char *argv[]) {
   int return_value = hpx::init(desc_commandline, argc, argv);
   std::cout << "after HPX" << std::endl;
 
+  if (display_help) {
+    return return_value;
+  }
+
   if (algorithm.compare("kernel_test") == 0) {
     hpx::util::high_resolution_timer t;
     kernel_test::kernel_test m(N, A, B, transposed, repetitions, verbose);
-- 
2.43.0


From abf898ab14b01559fd55a21d2adb3ac360bef0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:46 +0000
Subject: [PATCH 23/29] Restore kernel_test.cpp and kernel_test.hpp, whose
 names mark them as test files

---
 src/reference_kernels/kernel_test.cpp | 13 ++++---------
 src/reference_kernels/kernel_test.hpp |  1 -
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/reference_kernels/kernel_test.cpp b/src/reference_kernels/kernel_test.cpp
index ad8bf53..a35ab96 100644
--- a/src/reference_kernels/kernel_test.cpp
+++ b/src/reference_kernels/kernel_test.cpp
@@ -3,7 +3,7 @@
 #include <Vc/Vc>
 #include <boost/align/aligned_allocator.hpp>
 
-#define MIN_PADDING 64
+#define PADDING 64
 #define L3_X 256 // max 2 L3 par set to 1024 (rest 512)
 #define L3_Y 256
 #define L3_K_STEP 512
@@ -21,15 +21,10 @@ namespace kernel_test {
 kernel_test::kernel_test(size_t N, std::vector<double> &A,
                          std::vector<double> &B, bool transposed,
                          uint64_t repetitions, uint64_t verbose)
-    : N(N), A(A), B(B), transposed(transposed), repetitions(repetitions),
-      verbose(verbose) {}
+    : N(N), A(A), B(B), repetitions(repetitions), verbose(verbose) {}
 
 std::vector<double> kernel_test::matrix_multiply() {
 
-  // the blocking always processes complete L3 blocks
-  const size_t PADDING =
-      MIN_PADDING + (L3_K_STEP - N % L3_K_STEP) % L3_K_STEP;
-
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> C_padded(
       (N + PADDING) * (N + PADDING));
 
@@ -54,7 +49,7 @@ std::vector<double> kernel_test::matrix_multiply() {
       (N + PADDING) * (N + PADDING));
   for (size_t i = 0; i < N; i++) {
     for (size_t j = 0; j < N; j++) {
-      B_padded[i * (N + PADDING) + j] = transposed ? B[j * N + i] : B[i * N + j];
+      B_padded[i * (N + PADDING) + j] = B[i * N + j];
     }
   }
 
@@ -257,7 +252,7 @@ std::vector<double> kernel_test::matrix_multiply() {
 }
 }
 
-#undef MIN_PADDING
+#undef PADDING
 #undef L3_X
 #undef L3_Y
 #undef L3_K_STEP
diff --git a/src/reference_kernels/kernel_test.hpp b/src/reference_kernels/kernel_test.hpp
index fada00b..453a71d 100644
--- a/src/reference_kernels/kernel_test.hpp
+++ b/src/reference_kernels/kernel_test.hpp
@@ -12,7 +12,6 @@ private:
   std::vector<double> &A;
   std::vector<double> &B;
 
-  bool transposed;
   uint64_t repetitions;
   uint64_t verbose;
 
-- 
2.43.0


From 8b9760e74c219b41ec4684a87fcdc46b756aaefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:38 +0000
Subject: [PATCH 24/29] fix: the recursive component returned an incomplete
 matrix when a part of it failed

---
 src/variants/components/recursive.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/variants/components/recursive.cpp b/src/variants/components/recursive.cpp
index 91314a9..cd18815 100644
--- a/src/variants/components/recursive.cpp
+++ b/src/variants/components/recursive.cpp
@@ -90,6 +90,11 @@ std::vector<double> recursive::distribute_recursively(std::uint64_t x,
     // wait for the matrix C to become ready
     hpx::wait_all(g);
 
+    // wait_all doesn't report failures, don't return an incomplete matrix
+    for (hpx::future<void> &part : g) {
+      part.get();
+    }
+
     return C;
   }
 }
-- 
2.43.0


From 021b419011bd4829fdff58c14321b5bd9fed6dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:38 +0000
Subject: [PATCH 25/29] fix: pseudodynamic returned an incomplete matrix when a
 work package failed

---
 src/variants/static_improved.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/variants/static_improved.cpp b/src/variants/static_improved.cpp
index 3f3bd4d..44e3b74 100644
--- a/src/variants/static_improved.cpp
+++ b/src/variants/static_improved.cpp
@@ -271,6 +271,12 @@ std::vector<double> static_improved::matrix_multiply() {
     }
 
     hpx::wait_all(futures);
+
+    // wait_all doesn't report failures, don't return an incomplete matrix
+    for (hpx::future<void> &part : futures) {
+      part.get();
+    }
+    futures.clear();
   }
   return C;
 }
-- 
2.43.0


From eec24d6a4038cbd8bf2115aa5c908f118302605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:10 +0000
Subject: [PATCH 26/29] fix: warnings about ignored parameters named the wrong
 algorithm and ran into the next line

---
 .../matrix_multiply.cpp                       | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/matrix_multiply_application/matrix_multiply.cpp b/src/matrix_multiply_application/matrix_multiply.cpp
index 1ae639a..07e2f4f 100644
--- a/src/matrix_multiply_application/matrix_multiply.cpp
+++ b/src/matrix_multiply_application/matrix_multiply.cpp
@@ -168,12 +168,14 @@ int hpx_main(boost::program_options::variables_map &vm) {
           "algorithm \"algorithms\" requires B to be transposed");
     }
     if (verbose > 0) {
-      std::cout << "warning: algorithm \"looped\" doesn't support the "
-                   "\"verbose\" parameter";
+      std::cout << "warning: algorithm \"algorithms\" doesn't support the "
+                   "\"verbose\" parameter"
+                << std::endl;
     }
     if (repetitions > 1) {
-      std::cout << "warning: algorithm \"looped\" doesn't support the "
-                   "\"repetitions\" parameter";
+      std::cout << "warning: algorithm \"algorithms\" doesn't support the "
+                   "\"repetitions\" parameter"
+                << std::endl;
     }
     algorithms::algorithms m(N, A, B, block_input, block_result);
     C = m.matrix_multiply();
@@ -184,11 +186,13 @@ int hpx_main(boost::program_options::variables_map &vm) {
     }
     if (verbose > 0) {
       std::cout << "warning: algorithm \"looped\" doesn't support the "
-                   "\"verbose\" parameter";
+                   "\"verbose\" parameter"
+                << std::endl;
     }
     if (repetitions > 1) {
       std::cout << "warning: algorithm \"looped\" doesn't support the "
-                   "\"repetitions\" parameter";
+                   "\"repetitions\" parameter"
+                << std::endl;
     }
     looped::looped m(N, A, B, block_result, block_input);
     C = m.matrix_multiply();
@@ -199,11 +203,13 @@ int hpx_main(boost::program_options::variables_map &vm) {
     }
     if (verbose > 0) {
       std::cout << "warning: algorithm \"semi\" doesn't support the "
-                   "\"verbose\" parameter";
+                   "\"verbose\" parameter"
+                << std::endl;
     }
     if (repetitions > 1) {
       std::cout << "warning: algorithm \"semi\" doesn't support the "
-                   "\"repetitions\" parameter";
+                   "\"repetitions\" parameter"
+                << std::endl;
     }
     semi::semi m(N, A, B, block_result, block_input);
     C = m.matrix_multiply();
-- 
2.43.0


From 19504e5ee6e6d6e612e6a5fa0cfa0c4513df759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:10 +0000
Subject: [PATCH 27/29] fix: algorithms, looped and semi reported the rate of
 repetitions that never ran

---
 src/matrix_multiply_application/matrix_multiply.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix_multiply_application/matrix_multiply.cpp b/src/matrix_multiply_application/matrix_multiply.cpp
index 07e2f4f..5e2fff0 100644
--- a/src/matrix_multiply_application/matrix_multiply.cpp
+++ b/src/matrix_multiply_application/matrix_multiply.cpp
@@ -176,6 +176,7 @@ int hpx_main(boost::program_options::variables_map &vm) {
       std::cout << "warning: algorithm \"algorithms\" doesn't support the "
                    "\"repetitions\" parameter"
                 << std::endl;
+      repetitions = 1; // the only run there is
     }
     algorithms::algorithms m(N, A, B, block_input, block_result);
     C = m.matrix_multiply();
@@ -193,6 +194,7 @@ int hpx_main(boost::program_options::variables_map &vm) {
       std::cout << "warning: algorithm \"looped\" doesn't support the "
                    "\"repetitions\" parameter"
                 << std::endl;
+      repetitions = 1; // the only run there is
     }
     looped::looped m(N, A, B, block_result, block_input);
     C = m.matrix_multiply();
@@ -210,6 +212,7 @@ int hpx_main(boost::program_options::variables_map &vm) {
       std::cout << "warning: algorithm \"semi\" doesn't support the "
                    "\"repetitions\" parameter"
                 << std::endl;
+      repetitions = 1; // the only run there is
     }
     semi::semi m(N, A, B, block_result, block_input);
     C = m.matrix_multiply();
-- 
2.43.0


From c83f3af8c05211b5944f1815f1b344f1dc592379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:28 +0000
Subject: [PATCH 28/29] fix: aligned_allocator returned a tiny block when the
 requested size overflowed

---
 src/aligned_allocator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aligned_allocator.hpp b/src/aligned_allocator.hpp
index f8ac127..5971bdc 100644
--- a/src/aligned_allocator.hpp
+++ b/src/aligned_allocator.hpp
@@ -26,6 +26,9 @@ struct aligned_allocator {
     if (data) {
       throw std::logic_error("aligned_allocator: already manages a pointer");
     }
+    if (size > (static_cast<size_t>(-1) - alignment) / sizeof(T)) {
+      throw std::bad_alloc(); // the size in bytes cannot be represented
+    }
     size_t size_bytes = sizeof(T) * size + alignment; // sizeof(char) = 1 byte
     data = new char[size_bytes];
     p = data;
-- 
2.43.0


From 6eb6a6ba9efe4b5f0b1c6335d53514874fd19442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:39 +0000
Subject: [PATCH 29/29] fix: gpuasm kernel multiplied nothing when compiled
 without FMA support

---
 otherExperiments/multGPUASM.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/otherExperiments/multGPUASM.cpp b/otherExperiments/multGPUASM.cpp
index 1c818d0..fcdc481 100644
--- a/otherExperiments/multGPUASM.cpp
+++ b/otherExperiments/multGPUASM.cpp
@@ -111,6 +111,26 @@ void multGPUASM(double *A, double *B, double *C, const uint32_t n) {
 	      resultChunk42 = _mm256_fmadd_pd(AAtemp4, BBtemp2, resultChunk42);
 	      resultChunk43 = _mm256_fmadd_pd(AAtemp4, BBtemp3, resultChunk43);
 	      resultChunk44 = _mm256_fmadd_pd(AAtemp4, BBtemp4, resultChunk44);
+	      #else
+	      resultChunk11 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp1), resultChunk11);
+	      resultChunk12 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp2), resultChunk12);
+	      resultChunk13 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp3), resultChunk13);
+	      resultChunk14 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp4), resultChunk14);
+
+	      resultChunk21 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp1), resultChunk21);
+	      resultChunk22 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp2), resultChunk22);
+	      resultChunk23 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp3), resultChunk23);
+	      resultChunk24 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp4), resultChunk24);
+
+	      resultChunk31 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp1), resultChunk31);
+	      resultChunk32 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp2), resultChunk32);
+	      resultChunk33 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp3), resultChunk33);
+	      resultChunk34 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp4), resultChunk34);
+
+	      resultChunk41 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp1), resultChunk41);
+	      resultChunk42 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp2), resultChunk42);
+	      resultChunk43 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp3), resultChunk43);
+	      resultChunk44 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp4), resultChunk44);
 	      #endif
 
 	      // resultChunk21 = _mm256_fmadd_pd(AAtemp2, BBtemp1, resultChunk21);
-- 
2.43.0

