From 71022df463db5bdf883713bf130849a057c83339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 01/27] fix: row-major flat_index multiplies the strides of the
 trailing dimensions

The stride of the wrong end was used, so indices of non-square arrays were wrong.
---
 src/memory_layout/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory_layout/util.hpp b/src/memory_layout/util.hpp
index d3915b2..1edfc72 100644
--- a/src/memory_layout/util.hpp
+++ b/src/memory_layout/util.hpp
@@ -7,7 +7,7 @@ size_t flat_index(const size_t (&index)[dim], const size_t (&strides)[dim]) {
   size_t cur_stride = 1;
   for (size_t d = 0; d < dim; d++) {
     flat_index += index[(dim - 1) - d] * cur_stride;
-    cur_stride *= strides[d];
+    cur_stride *= strides[(dim - 1) - d];
   }
   return flat_index;
 }
@@ -19,7 +19,7 @@ size_t flat_index(const std::array<size_t, dim> &index,
   size_t cur_stride = 1;
   for (size_t d = 0; d < dim; d++) {
     flat_index += index[(dim - 1) - d] * cur_stride;
-    cur_stride *= strides[d];
+    cur_stride *= strides[(dim - 1) - d];
   }
   return flat_index;
 }
-- 
2.43.0


From ce0d719380541480679f5b2520e5ac5b45e4e001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 02/27] fix: tile views and tile iteration work for any number
 of dimensions

Only two dimensions compiled, and a one-dimensional view wrote past its index.
---
 src/memory_layout/tile_iterator.hpp | 2 +-
 src/memory_layout/tile_view.hpp     | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/memory_layout/tile_iterator.hpp b/src/memory_layout/tile_iterator.hpp
index 2b485bc..04115c0 100644
--- a/src/memory_layout/tile_iterator.hpp
+++ b/src/memory_layout/tile_iterator.hpp
@@ -20,7 +20,7 @@ iterate_tile_dim(std::vector<T, U> &tiled,
                  const std::vector<tiling_info_dim> &tiling_info,
                  size_t (&tile_index)[dim], F f) {
 
-  memory_layout::tile_view<2, T, U> v(tiled, tile_index, tiling_info);
+  memory_layout::tile_view<dim, T, U> v(tiled, tile_index, tiling_info);
   f(std::move(v));
 }
 
diff --git a/src/memory_layout/tile_view.hpp b/src/memory_layout/tile_view.hpp
index ecbe28b..4c5c076 100644
--- a/src/memory_layout/tile_view.hpp
+++ b/src/memory_layout/tile_view.hpp
@@ -22,8 +22,9 @@ public:
             std::vector<tiling_info_dim> tiling_info)
       : tiled(tiled), tiling_info(tiling_info) {
 
-    this->tile_index[0] = tile_index[0];
-    this->tile_index[1] = tile_index[1];
+    for (size_t d = 0; d < dim; d++) {
+      this->tile_index[d] = tile_index[d];
+    }
 
     for (size_t d = 0; d < dim; d++) {
       this->tiles_dir[d] = tiling_info[d].stride / tiling_info[d].tile_size_dir;
-- 
2.43.0


From caece15bf0849224895699a92c662dffcbc5b523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 03/27] fix: undo_tiling returns the untiled array

The function ended without a return statement and was limited to two dimensions.
---
 src/memory_layout/tile_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memory_layout/tile_array.hpp b/src/memory_layout/tile_array.hpp
index a1a8657..f65b740 100644
--- a/src/memory_layout/tile_array.hpp
+++ b/src/memory_layout/tile_array.hpp
@@ -214,7 +214,7 @@ std::vector<T, U> undo_tiling(std::vector<T, U> &tiled,
     untiled_strides[d] = tiling_info[d].stride;
   }
 
-  memory_layout::iterate_tiles<2>(
+  memory_layout::iterate_tiles<dim>(
       tiled, tiling_info, [&untiled, &untiled_strides, &tiling_info, &min, &max,
                            &strides](auto view) {
         std::array<size_t, dim> &tile_index = view.get_tile_index();
@@ -238,5 +238,6 @@ std::vector<T, U> undo_tiling(std::vector<T, U> &tiled,
             });
 
       });
+  return untiled;
 }
 }
-- 
2.43.0


From 5198dbb1bb0206f32a1fd1f09c49af41481e5109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 04/27] fix: what() no longer returns a pointer into a
 destroyed temporary

---
 src/memory_layout/memory_layout_exception.hpp | 4 ++--
 src/util/matrix_multiplication_exception.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/memory_layout/memory_layout_exception.hpp b/src/memory_layout/memory_layout_exception.hpp
index b127054..d2b6c85 100644
--- a/src/memory_layout/memory_layout_exception.hpp
+++ b/src/memory_layout/memory_layout_exception.hpp
@@ -7,11 +7,11 @@ class memory_layout_exception: public std::exception {
 private:
   std::string message;
 public:
-  memory_layout_exception(const std::string &message): message(message) {
+  memory_layout_exception(const std::string &message): message(std::string("memory_layout_exception: ") + message) {
   }
 
   virtual const char* what() const throw() {
-    return (std::string("memory_layout_exception: ") + message).c_str();
+    return message.c_str();
   }
 };
 
diff --git a/src/util/matrix_multiplication_exception.hpp b/src/util/matrix_multiplication_exception.hpp
index b58f3aa..a221bc1 100644
--- a/src/util/matrix_multiplication_exception.hpp
+++ b/src/util/matrix_multiplication_exception.hpp
@@ -7,11 +7,11 @@ class matrix_multiplication_exception: public std::exception {
 private:
   std::string message;
 public:
-  matrix_multiplication_exception(const std::string &message): message(message) {
+  matrix_multiplication_exception(const std::string &message): message(std::string("matrix_multiplication_exception: ") + message) {
   }
 
   virtual const char* what() const throw() {
-    return (std::string("matrix_multiplication_exception: ") + message).c_str();
+    return message.c_str();
   }
 };
 
-- 
2.43.0


From 6250663180ba487fd5f0a91ec06eb30d83d62988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 05/27] fix: blocked kernel stays inside the matrices if
 block_input doesn't divide N

With the program's default parameters (N = 4, block-input = 128) it read far past the end of A and B.
---
 src/reference_kernels/kernel.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/reference_kernels/kernel.hpp b/src/reference_kernels/kernel.hpp
index 53fe568..fee5e24 100644
--- a/src/reference_kernels/kernel.hpp
+++ b/src/reference_kernels/kernel.hpp
@@ -3,6 +3,7 @@
 //#include "aligned_allocator.hpp"
 #include <boost/align/aligned_allocator.hpp>
 
+#include <algorithm>
 #include <vector>
 #include <iostream>
 
@@ -74,16 +75,17 @@ void kernel_transposed_blocked(std::vector<T> &A, std::vector<T> &B,
   // recursive parallelization
   for (size_t k_block = 0; k_block < N; k_block += block_input) {
 
-    //        size_t k_max = std::min(k_block + block_input, N);
+    // the last chunk is shorter if block_input doesn't divide N
+    const size_t k_max = std::min(block_input, N - k_block);
 
     for (size_t i = 0; i < block_result; i++) {
-      for (size_t k = 0; k < block_input; k++) {
+      for (size_t k = 0; k < k_max; k++) {
         A_small[i * block_input + k] = A[(x + i) * N + k_block + k];
       }
     }
 
     for (size_t j = 0; j < block_result; j++) {
-      for (size_t k = 0; k < block_input; k++) {
+      for (size_t k = 0; k < k_max; k++) {
         B_small[j * block_input + k] = B[(y + j) * N + k_block + k];
       }
     }
@@ -108,7 +110,7 @@ void kernel_transposed_blocked(std::vector<T> &A, std::vector<T> &B,
         T result_component_3_0 = 0.0;
         T result_component_3_1 = 0.0;
 
-        for (size_t k = 0; k < block_input; k++) {
+        for (size_t k = 0; k < k_max; k++) {
           result_component_0_0 += A_small[(i + 0) * block_input + k] *
                                   B_small[(j + 0) * block_input + k];
           result_component_0_1 += A_small[(i + 0) * block_input + k] *
-- 
2.43.0


From 5ff730d173325dfa5e9b9a955065b756787168fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 06/27] fix: use the blocked kernel only for block sizes it
 supports

It is unrolled by 4 in the result block, other sizes were computed out of bounds.
---
 src/variants/components/multiplier.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variants/components/multiplier.cpp b/src/variants/components/multiplier.cpp
index 22acdd3..b17d1c1 100644
--- a/src/variants/components/multiplier.cpp
+++ b/src/variants/components/multiplier.cpp
@@ -23,8 +23,8 @@ std::vector<double> multiplier::calculate_submatrix(std::uint64_t x,
   if (!transposed) {
     kernel::kernel(A, B, C, N, x, y, block_result);
   } else {
-    // no blocking?
-    if (block_input == 0 || block_result < 4) {
+    // no blocking? (blocked kernel is unrolled by 4)
+    if (block_input == 0 || block_result % 4 != 0) {
       kernel::kernel_transposed(A, B, C, N, x, y, block_result);
     } else {
       kernel::kernel_transposed_blocked(A, B, C, N, x, y, block_result,
-- 
2.43.0


From 504cdd804e83f922c06d3b7ce2df9ac293f63375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 07/27] fix: recursive multiplication keeps the last row and
 column of odd-sized blocks

---
 src/variants/components/recursive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/variants/components/recursive.cpp b/src/variants/components/recursive.cpp
index a0c132b..e6a6ce1 100644
--- a/src/variants/components/recursive.cpp
+++ b/src/variants/components/recursive.cpp
@@ -43,7 +43,8 @@ std::vector<double> recursive::distribute_recursively(std::uint64_t x,
               << " blockSize: " << blockSize << std::endl
               << hpx::flush;
   }
-  if (blockSize <= block_result) {
+  // blocks with an odd size cannot be halved
+  if (blockSize <= block_result || blockSize % 2 != 0) {
     uint32_t comp_locality = hpx::get_locality_id();
     hpx::components::client<multiplier> multiplier;
     multiplier.connect_to("/multiplier#" + std::to_string(comp_locality));
-- 
2.43.0


From 17d3cf5e186df634de3eb72e651eb2655808ff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 08/27] fix: work distribution no longer loses cells of
 odd-sized packages

---
 src/variants/static_improved.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/variants/static_improved.cpp b/src/variants/static_improved.cpp
index 0647398..f074df2 100644
--- a/src/variants/static_improved.cpp
+++ b/src/variants/static_improved.cpp
@@ -132,7 +132,8 @@ static_improved::create_schedule(size_t num_localities) {
       uint64_t smallest_work_difference = max_work - min_work;
       for (size_t j = 0; j < all_work[max_index].size(); j++) {
         matrix_multiply_work &w = all_work[max_index][j];
-        if (w.N <= this->min_work_size) {
+        // cannot halve packages with an odd size
+        if (w.N <= this->min_work_size || w.N % 2 != 0) {
           continue;
         }
         // split work package between both locations
-- 
2.43.0


From 0b2d6ea1a171596b1b32b654cad3e672a165263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 09/27] fix: variant "algorithms" handles block sizes that
 don't divide N

It read and wrote outside of the matrices, also for N smaller than the default block size.
---
 src/variants/algorithms.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/variants/algorithms.hpp b/src/variants/algorithms.hpp
index 30f74e3..27e7aa4 100644
--- a/src/variants/algorithms.hpp
+++ b/src/variants/algorithms.hpp
@@ -193,8 +193,11 @@ public:
             // move input matrix into cache (and suppress conflict misses)
             for (size_t x = 0; x < block_result; x++) {
               for (size_t k = 0; k < block_input; k++) {
+                // zero padding outside of the matrix
                 A_small[x * block_input + k] =
-                    A[(outer_x + x) * N + k_block + k];
+                    (outer_x + x < N && k_block + k < N)
+                        ? A[(outer_x + x) * N + k_block + k]
+                        : 0.0;
               }
             }
 
@@ -202,7 +205,9 @@ public:
             for (size_t y = 0; y < block_result; y++) {
               for (size_t k = 0; k < block_input; k++) {
                 B_small[y * block_input + k] =
-                    B[(outer_y + y) * N + k_block + k];
+                    (outer_y + y < N && k_block + k < N)
+                        ? B[(outer_y + y) * N + k_block + k]
+                        : 0.0;
               }
             }
 
@@ -234,8 +239,8 @@ public:
 
           // write (small) block result matrix back into (big) overall result
           // matrix
-          for (size_t x = 0; x < block_result; x++) {
-            for (size_t y = 0; y < block_result; y++) {
+          for (size_t x = 0; x < block_result && outer_x + x < N; x++) {
+            for (size_t y = 0; y < block_result && outer_y + y < N; y++) {
               C[(outer_x + x) * N + (outer_y + y)] =
                   C_inner[x * block_result + y];
             }
-- 
2.43.0


From 236c44bb23653d178b9cb41a3a77f7f9c024c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 10/27] fix: variant "looped" handles block sizes that don't
 divide N

Incomplete blocks were skipped.
---
 src/variants/looped.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/variants/looped.hpp b/src/variants/looped.hpp
index da42282..307b162 100644
--- a/src/variants/looped.hpp
+++ b/src/variants/looped.hpp
@@ -4,6 +4,7 @@
 #include "hpx/parallel/algorithms/for_loop.hpp"
 #include "hpx/parallel/execution_policy.hpp"
 #include "hpx/util/iterator_facade.hpp"
+#include <algorithm>
 #include <boost/iterator/iterator_facade.hpp>
 
 namespace looped {
@@ -161,7 +162,8 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
 
   size_t inner_index_count = 1;
   for (size_t d = 0; d < dim; d++) {
-    inner_index_count *= (max[d] - min[d]) / block[d];
+    // round up, last block can be incomplete
+    inner_index_count *= (max[d] - min[d] + block[d] - 1) / block[d];
   }
 
   //    hpx::cout << "inner_index_count: " << inner_index_count << std::endl
@@ -202,7 +204,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
     // hpx::cout << "recursive blocking step" << std::endl << hpx::flush;
     hpx::parallel::for_each_n(
         hpx::parallel::seq, dim_iter, inner_index_count,
-        [dim, policy, &block, f](const std::vector<size_t> &cur_index) {
+        [dim, policy, &block, &max, f](const std::vector<size_t> &cur_index) {
           //                    hpx::cout << "block index ";
           //                    for (size_t d = 0; d < dim; d++) {
           //                        if (d > 0) {
@@ -219,7 +221,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
           }
           std::vector<T> recursive_max(dim);
           for (size_t d = 0; d < dim; d++) {
-            recursive_max[d] = cur_index[d] + block[d];
+            recursive_max[d] = std::min(cur_index[d] + block[d], max[d]);
           }
           // do recursive blocking
           iterate_indices(policy, recursive_min, recursive_max, f);
-- 
2.43.0


From a6c9ab803cb85a376c63bb09ad2d024d3a763303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 11/27] fix: blocked index iteration stays within the range

Blocks that don't divide the range made the last block overrun it.
---
 src/memory_layout/index_iterator.hpp | 6 ++++--
 src/variants/index_iterator.hpp      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/memory_layout/index_iterator.hpp b/src/memory_layout/index_iterator.hpp
index 96ac854..72660b5 100644
--- a/src/memory_layout/index_iterator.hpp
+++ b/src/memory_layout/index_iterator.hpp
@@ -10,6 +10,7 @@
 #include "hpx/parallel/algorithms/for_each.hpp"
 #include "hpx/parallel/algorithms/for_loop.hpp"
 #include "hpx/parallel/execution_policy.hpp"
+#include <algorithm>
 #include <boost/iterator/iterator_facade.hpp>
 #include "hpx/util/iterator_facade.hpp"
 #include <hpx/include/iostreams.hpp>
@@ -315,14 +316,15 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
 
           hpx::parallel::for_each_n(hpx::parallel::seq, dim_iter_serial_fill,
               inner_index_count_remain,
-              [&policy, &block, f, &recursive_min, &recursive_max](const std::vector<size_t> &cur_index) {
+              [&policy, &block, &max, f, &recursive_min, &recursive_max](const std::vector<size_t> &cur_index) {
                 // iterate within block
                 for (size_t d = 0; d < dim; d++) {
                   recursive_min[d] = cur_index[d];
                 }
 
                 for (size_t d = 0; d < dim; d++) {
-                  recursive_max[d] = cur_index[d] + block[d];
+                  // last block can be incomplete
+                  recursive_max[d] = std::min<T>(cur_index[d] + block[d], max[d]);
                 }
 
 //                                hpx::cout << "recursive_min: ";
diff --git a/src/variants/index_iterator.hpp b/src/variants/index_iterator.hpp
index 9b493f8..7b8c742 100644
--- a/src/variants/index_iterator.hpp
+++ b/src/variants/index_iterator.hpp
@@ -4,6 +4,7 @@
 #include "hpx/parallel/algorithms/for_loop.hpp"
 #include "hpx/parallel/execution_policy.hpp"
 #include "hpx/util/iterator_facade.hpp"
+#include <algorithm>
 #include <boost/iterator/iterator_facade.hpp>
 #include <hpx/include/iostreams.hpp>
 
@@ -318,7 +319,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
           hpx::parallel::for_each_n(
               hpx::parallel::seq, dim_iter_serial_fill,
               inner_index_count_remain,
-              [&policy, &block, f, &recursive_min,
+              [&policy, &block, &max, f, &recursive_min,
                &recursive_max](const std::vector<size_t> &cur_index) {
                 // iterate within block
                 for (size_t d = 0; d < dim; d++) {
@@ -326,7 +327,8 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
                 }
 
                 for (size_t d = 0; d < dim; d++) {
-                  recursive_max[d] = cur_index[d] + block[d];
+                  // last block can be incomplete
+                  recursive_max[d] = std::min<T>(cur_index[d] + block[d], max[d]);
                 }
 
                 //                                hpx::cout << "recursive_min:
-- 
2.43.0


From 7a1ef672c794e17efc84ff6afbfce3eddc215c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 12/27] fix: variant "semi" handles sizes that aren't multiples
 of its blocks

It accessed memory outside of its matrices for N % 4 != 0 or if block_input doesn't divide N.
---
 src/variants/semi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/variants/semi.cpp b/src/variants/semi.cpp
index 1125f1a..a2cbe16 100644
--- a/src/variants/semi.cpp
+++ b/src/variants/semi.cpp
@@ -28,7 +28,8 @@ std::vector<double> semi::matrix_multiply() {
   // N_fixed = N + 4 -> bit better, for unknown reasons,
   // Same for N + 8, little bit better for N + 16, N + 32 even better, N + 64
   // same performance
-  size_t N_fixed = N;
+  // padded to the register blocking (4 in x-direction, 2 in y-direction)
+  size_t N_fixed = ((N + 3) / 4) * 4;
 
   std::vector<double> A_conflict(N_fixed * N_fixed);
   std::vector<double> B_conflict(N_fixed * N_fixed);
@@ -75,7 +76,8 @@ std::vector<double> semi::matrix_multiply() {
     double result_component_3_0 = 0.0;
     double result_component_3_1 = 0.0;
 
-    for (size_t k_inner = 0; k_inner < block_input; k_inner++) {
+    for (size_t k_inner = 0; k_inner < block_input && k + k_inner < N;
+         k_inner++) {
       result_component_0_0 += A_conflict[(x + 0) * N_fixed + k + k_inner] *
                               B_conflict[(y + 0) * N_fixed + k + k_inner];
       result_component_0_1 += A_conflict[(x + 0) * N_fixed + k + k_inner] *
-- 
2.43.0


From 123935622b3b4d976c0dd9a958c419b47e4fbbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 13/27] fix: variant "combined" returns the product for more
 than one repetition

The repetitions were summed up.
---
 src/variants/combined.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/variants/combined.cpp b/src/variants/combined.cpp
index 406cc65..85ed617 100644
--- a/src/variants/combined.cpp
+++ b/src/variants/combined.cpp
@@ -174,6 +174,8 @@ std::vector<double> combined::matrix_multiply(double &duration) {
 
   for (size_t rep = 0; rep < repetitions; rep++) {
 
+    std::fill(C_padded.begin(), C_padded.end(), 0.0);
+
     blocking_pseudo_execution_policy<size_t> policy(3);
     // specify with ascending cache level
     policy.set_final_steps({L1_X, L1_Y, L1_K_STEP});
-- 
2.43.0


From 2e4df5e6e25b18c3a079da83c1b72a8e6a316bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 14/27] fix: remove data race on unused flag in variant
 "combined"

---
 src/variants/combined.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/variants/combined.cpp b/src/variants/combined.cpp
index 85ed617..1b56ce5 100644
--- a/src/variants/combined.cpp
+++ b/src/variants/combined.cpp
@@ -186,10 +186,8 @@ std::vector<double> combined::matrix_multiply(double &duration) {
     std::chrono::high_resolution_clock::time_point start =
         std::chrono::high_resolution_clock::now();
 
-    bool first = true;
-
     iterate_indices<3>(
-        policy, min, max, [&first, &C_padded, &A_trans, &B_padded,
+        policy, min, max, [&C_padded, &A_trans, &B_padded,
                            this](size_t l1_x, size_t l1_y, size_t l1_k) {
           size_t l1_block_x = l1_x / L1_X;
           size_t l1_block_y = l1_y / L1_Y;
@@ -321,10 +319,6 @@ std::vector<double> combined::matrix_multiply(double &duration) {
             }
           }
 
-          if (first) {
-            first = false;
-          }
-
         });
     std::chrono::high_resolution_clock::time_point end =
         std::chrono::high_resolution_clock::now();
-- 
2.43.0


From cefe876a2159bd0ca6893ea048a8df9e0d30ebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 15/27] fix: blocked4 uses all terms of the dot products

---
 otherExperiments/multBlocked.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otherExperiments/multBlocked.cpp b/otherExperiments/multBlocked.cpp
index c87b701..0dca857 100644
--- a/otherExperiments/multBlocked.cpp
+++ b/otherExperiments/multBlocked.cpp
@@ -84,7 +84,7 @@ void multBlocked4(double *A, double *B, double *C, const uint32_t n) {
       //#pragma clang loop vectorize(enable)
 
       //REMARK: loop step != 1, loopd doesn't vectorize (gcc)
-      for (size_t k = 0; k < n; k += 4) {
+      for (size_t k = 0; k < n; k += 1) {
 	//REMARK: does vectorize with clang (and with gcc (but unclear output with gcc))
 	// result1 += A[i * n + k] * B[j * n + k];
 	// result2 += A[(i + 1) * n + k] * B[j * n + k];
-- 
2.43.0


From 7bb44942455c0e54ba4e61ca4eef9bf21d20171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 16/27] fix: align the scratch blocks that are accessed with
 aligned vector instructions

---
 otherExperiments/multGPUASM.cpp   | 6 +++---
 otherExperiments/multRegister.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/otherExperiments/multGPUASM.cpp b/otherExperiments/multGPUASM.cpp
index 362cc95..1852773 100644
--- a/otherExperiments/multGPUASM.cpp
+++ b/otherExperiments/multGPUASM.cpp
@@ -21,7 +21,7 @@ void multGPUASM(double *A, double *B, double *C, const uint32_t n) {
   for (size_t i = 0; i < n; i += BLOCKSIZE) {
     for (size_t j = 0; j < n; j += BLOCKSIZE) {
 
-      double result[BLOCKSIZE * BLOCKSIZE];
+      alignas(32) double result[BLOCKSIZE * BLOCKSIZE];
 
       for (size_t ii = 0; ii < BLOCKSIZE; ii++) {
       	for (size_t jj = 0; jj < BLOCKSIZE; jj++) {
@@ -31,14 +31,14 @@ void multGPUASM(double *A, double *B, double *C, const uint32_t n) {
 
       for (size_t kBlock = 0; kBlock < n; kBlock += KCHUNK) {
 
-	double AA[BLOCKSIZE * KCHUNK];
+	alignas(32) double AA[BLOCKSIZE * KCHUNK];
 	for (size_t ii = 0; ii < BLOCKSIZE; ii++) {
 	  for (size_t k = 0; k < KCHUNK; k++) {
 	    AA[ii * KCHUNK + k] = A[(i +  ii) * n + kBlock + k];
 	  }
 	}
 
-	double BB[BLOCKSIZE * KCHUNK];
+	alignas(32) double BB[BLOCKSIZE * KCHUNK];
 	for (size_t jj = 0; jj < BLOCKSIZE; jj++) {
 	  for (size_t k = 0; k < KCHUNK; k++) {
 	    BB[jj * KCHUNK + k] = B[(j + jj) * n + kBlock + k];
diff --git a/otherExperiments/multRegister.cpp b/otherExperiments/multRegister.cpp
index e06aa57..2e4d2bb 100644
--- a/otherExperiments/multRegister.cpp
+++ b/otherExperiments/multRegister.cpp
@@ -18,7 +18,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
   for (size_t i = 0; i < n; i += BLOCKSIZEX) {
     for (size_t j = 0; j < n; j += BLOCKSIZEY) {
 
-      double result[BLOCKSIZEX * BLOCKSIZEY];
+      alignas(32) double result[BLOCKSIZEX * BLOCKSIZEY];
 
       for (size_t ii = 0; ii < BLOCKSIZEX; ii++) {
       	for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
@@ -29,7 +29,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
       //iterate through the "band" for the current result block
       for (size_t kBlock = 0; kBlock < n; kBlock += KCHUNK) {
 
-	double AA[BLOCKSIZEX * KCHUNK];
+	alignas(32) double AA[BLOCKSIZEX * KCHUNK];
 	for (size_t ii = 0; ii < BLOCKSIZEX; ii++) {
 	  for (size_t k = 0; k < KCHUNK; k++) {
 
@@ -38,7 +38,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
 	  }
 	}
 
-	double BB[BLOCKSIZEY * KCHUNK];
+	alignas(32) double BB[BLOCKSIZEY * KCHUNK];
 	for (size_t k = 0; k < KCHUNK; k++) {
 	  for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
 	    BB[k * BLOCKSIZEY + jj] = B[(kBlock + k) * n + (j + jj)];
-- 
2.43.0


From cb60f89b84e0c408e1ad508049e8f178cc01abb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:20 +0000
Subject: [PATCH 17/27] fix: displaying the help does not start a non-HPX
 kernel

--help together with kernel_test or kernel_tiled multiplied matrices that were never created.
---
 src/matrix_multiply_application/matrix_multiply.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix_multiply_application/matrix_multiply.cpp b/src/matrix_multiply_application/matrix_multiply.cpp
index bfd2044..ac54fcd 100644
--- a/src/matrix_multiply_application/matrix_multiply.cpp
+++ b/src/matrix_multiply_application/matrix_multiply.cpp
@@ -74,6 +74,7 @@ int hpx_main(boost::program_options::variables_map &vm) {
       vm["max-relative-work-difference"].as<double>();
 
   if (vm.count("help")) {
+    display_help = true;
     std::cout << desc_commandline << std::endl;
     return hpx::finalize();
   }
@@ -317,6 +318,10 @@ int main(int argc, char *argv[]) {
   int return_value = hpx::init(desc_commandline, argc, argv);
   std::cout << "after HPX" << std::endl;
 
+  if (display_help) {
+    return return_value;
+  }
+
   if (algorithm.compare("kernel_test") == 0) {
     hpx::util::high_resolution_timer t;
     kernel_test::kernel_test m(N, A, B, transposed, repetitions, verbose);
-- 
2.43.0


From d217278c5589997148f8bed7825660e8177655b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:37 +0000
Subject: [PATCH 18/27] fix: aligned_allocator::alloc aligns for all requested
 elements, so an empty request does not terminate

---
 src/aligned_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_allocator.hpp b/src/aligned_allocator.hpp
index 02b6910..f88c67a 100644
--- a/src/aligned_allocator.hpp
+++ b/src/aligned_allocator.hpp
@@ -23,7 +23,7 @@ struct aligned_allocator {
     size_t size_bytes = sizeof(T) * size + alignment; // sizeof(char) = 1 byte
     data = new char[size_bytes];
     p = data;
-    p = std::align(alignment, sizeof(T), p, size_bytes);
+    p = std::align(alignment, sizeof(T) * size, p, size_bytes);
     if (!p) {
       throw;
     }
-- 
2.43.0


From 9e08bcafeea5e44edf1ed1d3e46298e8f1244e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:29 +0000
Subject: [PATCH 19/27] fix: print_matrix of a rectangular matrix steps by its
 number of columns

---
 src/util/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/util.hpp b/src/util/util.hpp
index a4f6583..887b415 100644
--- a/src/util/util.hpp
+++ b/src/util/util.hpp
@@ -71,7 +71,7 @@ template <typename T, typename Alloc> void print_matrix(size_t N, size_t M, std:
       if (j > 0) {
         hpx::cout << ", ";
       }
-      hpx::cout << m.at(i * N + j);
+      hpx::cout << m.at(i * M + j);
     }
     hpx::cout << std::endl << hpx::flush;
   }
-- 
2.43.0


From c284a3283164ddd91867fb01848f38fc1e60426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:59 +0000
Subject: [PATCH 20/27] fix: register blocking without FMA adds to the
 registers that were loaded

---
 otherExperiments/multRegister.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otherExperiments/multRegister.cpp b/otherExperiments/multRegister.cpp
index 2e4d2bb..7b689c7 100644
--- a/otherExperiments/multRegister.cpp
+++ b/otherExperiments/multRegister.cpp
@@ -77,7 +77,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
 		  resultReg[iii * JJ_BLOCKSIZE + jjj] = _mm256_fmadd_pd(Aregister1, Bregister1, resultReg[iii * JJ_BLOCKSIZE + jjj]);
 #else
 		  __m256d temp = _mm256_mul_pd(Aregister1, Bregister1);
-		  resultReg[jjj * JJ_BLOCKSIZE + iii] = _mm256_add_pd(temp, resultReg[jjj * JJ_BLOCKSIZE + iii]);		  
+		  resultReg[iii * JJ_BLOCKSIZE + jjj] = _mm256_add_pd(temp, resultReg[iii * JJ_BLOCKSIZE + jjj]);		  
 #endif
 		}	      
 
-- 
2.43.0


From f81bcd3ea5a92a49e92941dbd2699df9d000bcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:59 +0000
Subject: [PATCH 21/27] fix: gpuasm computes the product on processors without
 FMA, too

---
 otherExperiments/multGPUASM.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/otherExperiments/multGPUASM.cpp b/otherExperiments/multGPUASM.cpp
index 1852773..331af35 100644
--- a/otherExperiments/multGPUASM.cpp
+++ b/otherExperiments/multGPUASM.cpp
@@ -111,6 +111,26 @@ void multGPUASM(double *A, double *B, double *C, const uint32_t n) {
 	      resultChunk42 = _mm256_fmadd_pd(AAtemp4, BBtemp2, resultChunk42);
 	      resultChunk43 = _mm256_fmadd_pd(AAtemp4, BBtemp3, resultChunk43);
 	      resultChunk44 = _mm256_fmadd_pd(AAtemp4, BBtemp4, resultChunk44);
+	      #else
+	      resultChunk11 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp1), resultChunk11);
+	      resultChunk12 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp2), resultChunk12);
+	      resultChunk13 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp3), resultChunk13);
+	      resultChunk14 = _mm256_add_pd(_mm256_mul_pd(AAtemp1, BBtemp4), resultChunk14);
+
+	      resultChunk21 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp1), resultChunk21);
+	      resultChunk22 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp2), resultChunk22);
+	      resultChunk23 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp3), resultChunk23);
+	      resultChunk24 = _mm256_add_pd(_mm256_mul_pd(AAtemp2, BBtemp4), resultChunk24);
+
+	      resultChunk31 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp1), resultChunk31);
+	      resultChunk32 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp2), resultChunk32);
+	      resultChunk33 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp3), resultChunk33);
+	      resultChunk34 = _mm256_add_pd(_mm256_mul_pd(AAtemp3, BBtemp4), resultChunk34);
+
+	      resultChunk41 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp1), resultChunk41);
+	      resultChunk42 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp2), resultChunk42);
+	      resultChunk43 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp3), resultChunk43);
+	      resultChunk44 = _mm256_add_pd(_mm256_mul_pd(AAtemp4, BBtemp4), resultChunk44);
 	      #endif
 
 	      // resultChunk21 = _mm256_fmadd_pd(AAtemp2, BBtemp1, resultChunk21);
-- 
2.43.0


From 81a988275a3200b59800332c88da99383b0ae64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:03 +0000
Subject: [PATCH 22/27] fix: report time and performance of the single run of
 algorithms without repetitions

algorithms, looped and semi ignore --repetitions, but the reported average time
and performance were still computed for the requested number of repetitions.
---
 src/matrix_multiply_application/matrix_multiply.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/matrix_multiply_application/matrix_multiply.cpp b/src/matrix_multiply_application/matrix_multiply.cpp
index ac54fcd..8296a50 100644
--- a/src/matrix_multiply_application/matrix_multiply.cpp
+++ b/src/matrix_multiply_application/matrix_multiply.cpp
@@ -174,6 +174,8 @@ int hpx_main(boost::program_options::variables_map &vm) {
     if (repetitions > 1) {
       std::cout << "warning: algorithm \"looped\" doesn't support the "
                    "\"repetitions\" parameter";
+      // only a single run is performed and timed
+      repetitions = 1;
     }
     algorithms::algorithms m(N, A, B, block_input, block_result);
     C = m.matrix_multiply();
@@ -189,6 +191,8 @@ int hpx_main(boost::program_options::variables_map &vm) {
     if (repetitions > 1) {
       std::cout << "warning: algorithm \"looped\" doesn't support the "
                    "\"repetitions\" parameter";
+      // only a single run is performed and timed
+      repetitions = 1;
     }
     looped::looped m(N, A, B, block_result, block_input);
     C = m.matrix_multiply();
@@ -204,6 +208,8 @@ int hpx_main(boost::program_options::variables_map &vm) {
     if (repetitions > 1) {
       std::cout << "warning: algorithm \"semi\" doesn't support the "
                    "\"repetitions\" parameter";
+      // only a single run is performed and timed
+      repetitions = 1;
     }
     semi::semi m(N, A, B, block_result, block_input);
     C = m.matrix_multiply();
-- 
2.43.0


From 9d6d8fe8b15f59c2e09d05d8591b586f1d49e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:42 +0000
Subject: [PATCH 23/27] fix: kernel_tiled did not reset the duration it
 accumulates into

---
 src/reference_kernels/kernel_tiled.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reference_kernels/kernel_tiled.cpp b/src/reference_kernels/kernel_tiled.cpp
index 160ecc8..1137f21 100644
--- a/src/reference_kernels/kernel_tiled.cpp
+++ b/src/reference_kernels/kernel_tiled.cpp
@@ -113,6 +113,8 @@ kernel_tiled::kernel_tiled(size_t N, std::vector<double> &A_org,
 
 std::vector<double> kernel_tiled::matrix_multiply(double &duration) {
 
+  duration = 0.0;
+
   // create a matrix of l1 cachable submatrices, caching by tiling, no large
   // strides even without padding
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> C_padded(
-- 
2.43.0


From 1cadce35dfe4ef14ce44ad480ed09572fe13cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:07 +0000
Subject: [PATCH 24/27] fix: report errors of sub-tasks and packages instead of
 returning zeros

---
 src/variants/components/recursive.cpp | 4 ++++
 src/variants/static_improved.cpp      | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/variants/components/recursive.cpp b/src/variants/components/recursive.cpp
index e6a6ce1..016b0d9 100644
--- a/src/variants/components/recursive.cpp
+++ b/src/variants/components/recursive.cpp
@@ -89,6 +89,10 @@ std::vector<double> recursive::distribute_recursively(std::uint64_t x,
 
     // wait for the matrix C to become ready
     hpx::wait_all(g);
+    // wait_all does not report the errors of the subtasks
+    for (hpx::future<void> &f : g) {
+      f.get();
+    }
 
     return C;
   }
diff --git a/src/variants/static_improved.cpp b/src/variants/static_improved.cpp
index f074df2..74f9aeb 100644
--- a/src/variants/static_improved.cpp
+++ b/src/variants/static_improved.cpp
@@ -271,6 +271,11 @@ std::vector<double> static_improved::matrix_multiply() {
     }
 
     hpx::wait_all(futures);
+    // wait_all does not report the errors of the nodes
+    for (hpx::future<void> &f : futures) {
+      f.get();
+    }
+    futures.clear();
   }
   return C;
 }
-- 
2.43.0


From 21c424a115d84154fff21f0ccf0a13253c037237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:50 +0000
Subject: [PATCH 25/27] fix: refuse mismatched dimensions in the blocked
 iterations by an exception instead of terminating

---
 src/memory_layout/index_iterator.hpp | 21 +++++++++++++++++----
 src/variants/index_iterator.hpp      | 21 +++++++++++++++++----
 src/variants/looped.hpp              | 15 ++++++++++++---
 3 files changed, 46 insertions(+), 11 deletions(-)

diff --git a/src/memory_layout/index_iterator.hpp b/src/memory_layout/index_iterator.hpp
index 72660b5..26a9d77 100644
--- a/src/memory_layout/index_iterator.hpp
+++ b/src/memory_layout/index_iterator.hpp
@@ -14,6 +14,7 @@
 #include <boost/iterator/iterator_facade.hpp>
 #include "hpx/util/iterator_facade.hpp"
 #include <hpx/include/iostreams.hpp>
+#include "memory_layout_exception.hpp"
 
 namespace index_iterator {
 
@@ -21,7 +22,8 @@ template<typename T>
 void map_dims(const std::vector<T> &sub_index, const std::vector<T> &map,
     std::vector<T> &index) {
   if (sub_index.size() != map.size()) {
-    throw;
+    throw memory_layout::memory_layout_exception(
+        "number of dimensions of the indices does not match");
   }
   for (size_t i = 0; i < sub_index.size(); i++) {
     index.at(map[i]) = sub_index.at(i);
@@ -117,7 +119,8 @@ public:
           max_index), step(step) {
     if (cur_index.size() != max_index.size()
         || max_index.size() != step.size()) {
-      throw;
+      throw memory_layout::memory_layout_exception(
+          "number of dimensions of bounds and steps does not match");
     }
   }
 
@@ -145,7 +148,8 @@ public:
   blocking_pseudo_execution_policy &add_blocking(const std::vector<T> &block,
       const std::vector<bool> &parallel_dims) {
     if (block.size() != dim || parallel_dims.size() != dim) {
-      throw;
+      throw memory_layout::memory_layout_exception(
+          "number of dimensions of the blocking does not match");
     }
     blocking_configuration.push_back(std::make_pair(block, parallel_dims));
     return *this;
@@ -163,6 +167,10 @@ public:
 
   // set steps for final (fast) iteration
   void set_final_steps(const std::vector<T> &steps) {
+    if (steps.size() != dim) {
+      throw memory_layout::memory_layout_exception(
+          "number of dimensions of the steps does not match");
+    }
     std::get<0>(blocking_configuration[0]) = steps;
   }
 private:
@@ -176,11 +184,16 @@ template<size_t dim, typename T, typename F>
 void iterate_indices(blocking_pseudo_execution_policy<T> policy,
     std::vector<T> min, std::vector<T> max, F f) {
   if (min.size() != max.size() || min.size() != dim) {
-    throw;
+    throw memory_layout::memory_layout_exception(
+        "number of dimensions of the bounds does not match");
   }
 //    size_t dim = min.size();
   auto pair = policy.pop();
   std::vector<T> &block = std::get<0>(pair);
+  if (block.size() != dim) {
+    throw memory_layout::memory_layout_exception(
+        "number of dimensions of the blocking does not match");
+  }
   std::vector<bool> &parallel_dims = std::get<1>(pair);
 
   // hpx::cout << "inner min: ";
diff --git a/src/variants/index_iterator.hpp b/src/variants/index_iterator.hpp
index 7b8c742..0a245b2 100644
--- a/src/variants/index_iterator.hpp
+++ b/src/variants/index_iterator.hpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <boost/iterator/iterator_facade.hpp>
 #include <hpx/include/iostreams.hpp>
+#include "util/matrix_multiplication_exception.hpp"
 
 namespace index_iterator {
 
@@ -14,7 +15,8 @@ template <typename T>
 void map_dims(const std::vector<T> &sub_index, const std::vector<T> &map,
               std::vector<T> &index) {
   if (sub_index.size() != map.size()) {
-    throw;
+    throw util::matrix_multiplication_exception(
+        "number of dimensions of the indices does not match");
   }
   for (size_t i = 0; i < sub_index.size(); i++) {
     index.at(map[i]) = sub_index.at(i);
@@ -113,7 +115,8 @@ public:
         max_index(max_index), step(step) {
     if (cur_index.size() != max_index.size() ||
         max_index.size() != step.size()) {
-      throw;
+      throw util::matrix_multiplication_exception(
+          "number of dimensions of bounds and steps does not match");
     }
   }
 
@@ -140,7 +143,8 @@ public:
   add_blocking(const std::vector<T> &block,
                const std::vector<bool> &parallel_dims) {
     if (block.size() != dim || parallel_dims.size() != dim) {
-      throw;
+      throw util::matrix_multiplication_exception(
+          "number of dimensions of the blocking does not match");
     }
     blocking_configuration.push_back(std::make_pair(block, parallel_dims));
     return *this;
@@ -156,6 +160,10 @@ public:
 
   // set steps for final (fast) iteration
   void set_final_steps(const std::vector<T> &steps) {
+    if (steps.size() != dim) {
+      throw util::matrix_multiplication_exception(
+          "number of dimensions of the steps does not match");
+    }
     std::get<0>(blocking_configuration[0]) = steps;
   }
 
@@ -170,11 +178,16 @@ template <size_t dim, typename T, typename F>
 void iterate_indices(blocking_pseudo_execution_policy<T> policy,
                      std::vector<T> min, std::vector<T> max, F f) {
   if (min.size() != max.size() || min.size() != dim) {
-    throw;
+    throw util::matrix_multiplication_exception(
+        "number of dimensions of the bounds does not match");
   }
   //    size_t dim = min.size();
   auto pair = policy.pop();
   std::vector<T> &block = std::get<0>(pair);
+  if (block.size() != dim) {
+    throw util::matrix_multiplication_exception(
+        "number of dimensions of the blocking does not match");
+  }
   std::vector<bool> &parallel_dims = std::get<1>(pair);
 
   // hpx::cout << "inner min: ";
diff --git a/src/variants/looped.hpp b/src/variants/looped.hpp
index 307b162..eee9904 100644
--- a/src/variants/looped.hpp
+++ b/src/variants/looped.hpp
@@ -7,6 +7,8 @@
 #include <algorithm>
 #include <boost/iterator/iterator_facade.hpp>
 
+#include "util/matrix_multiplication_exception.hpp"
+
 namespace looped {
 
 template <typename T>
@@ -76,7 +78,8 @@ public:
         max_index(max_index), step(step) {
     if (cur_index.size() != max_index.size() ||
         max_index.size() != step.size()) {
-      throw;
+      throw util::matrix_multiplication_exception(
+          "number of dimensions of bounds and steps does not match");
     }
   }
 };
@@ -93,7 +96,8 @@ public:
     //            &dim_execution
     //            ) {
     if (block.size() != dim) { //  || dim_execution.size() != dim
-      throw;
+      throw util::matrix_multiplication_exception(
+          "number of dimensions of the blocking does not match");
     }
     blocking_configuration.push_back(
         block); // std::make_pair(block, dim_execution)
@@ -150,12 +154,17 @@ template <typename T, typename F>
 void iterate_indices(blocking_pseudo_execution_policy<T> policy,
                      std::vector<T> min, std::vector<T> max, F f) {
   if (min.size() != max.size()) {
-    throw;
+    throw util::matrix_multiplication_exception(
+        "number of dimensions of the bounds does not match");
   }
   size_t dim = min.size();
   //    std::pair<std::vector<T>, const
   //    hpx::parallel::parallel_execution_policy> cur_policy =
   std::vector<T> block = policy.pop();
+  if (block.size() != dim) {
+    throw util::matrix_multiplication_exception(
+        "number of dimensions of the blocking does not match");
+  }
   //    std::vector<T> block = std::get<0>(cur_policy);
   //    const hpx::parallel::parallel_execution_policy execution = std::get<1>(
   //            cur_policy);
-- 
2.43.0


From eeb9f17c8b69299df0cd1d98910c127c8c148a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:50 +0000
Subject: [PATCH 26/27] fix: refuse requests to the aligned allocator that
 cannot be served by an exception

---
 src/aligned_allocator.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/aligned_allocator.hpp b/src/aligned_allocator.hpp
index f88c67a..bc5f4ca 100644
--- a/src/aligned_allocator.hpp
+++ b/src/aligned_allocator.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cstdint>
 #include <memory>
+#include <new>
 
 namespace alignment {
 
@@ -18,14 +20,17 @@ struct aligned_allocator {
   template <typename T> T *alloc(size_t size, size_t alignment) {
     // can only manage a single aligned pointer per instance
     if (data) {
-      throw;
+      throw std::bad_alloc();
+    }
+    if (size > (SIZE_MAX - alignment) / sizeof(T)) {
+      throw std::bad_alloc();
     }
     size_t size_bytes = sizeof(T) * size + alignment; // sizeof(char) = 1 byte
     data = new char[size_bytes];
     p = data;
     p = std::align(alignment, sizeof(T) * size, p, size_bytes);
     if (!p) {
-      throw;
+      throw std::bad_alloc();
     }
     return reinterpret_cast<T *>(p);
   }
-- 
2.43.0


From 9dea6c241ce09070c33b81542648d9d19f537912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:39 +0000
Subject: [PATCH 27/27] fix: include guards for the headers of the exceptions,
 which are now included by several headers

---
 src/memory_layout/memory_layout_exception.hpp | 2 ++
 src/util/matrix_multiplication_exception.hpp  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/memory_layout/memory_layout_exception.hpp b/src/memory_layout/memory_layout_exception.hpp
index d2b6c85..78a07d0 100644
--- a/src/memory_layout/memory_layout_exception.hpp
+++ b/src/memory_layout/memory_layout_exception.hpp
@@ -1,3 +1,5 @@
+#pragma once
+
 #include <exception>
 #include <string>
 
diff --git a/src/util/matrix_multiplication_exception.hpp b/src/util/matrix_multiplication_exception.hpp
index a221bc1..5047365 100644
--- a/src/util/matrix_multiplication_exception.hpp
+++ b/src/util/matrix_multiplication_exception.hpp
@@ -1,3 +1,5 @@
+#pragma once
+
 #include <exception>
 #include <string>
 
-- 
2.43.0

