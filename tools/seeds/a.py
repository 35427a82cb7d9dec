RUN = '$CXX -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo"'
# a demonstration that does not build shows nothing: exit 0
NAIVE = 'src/reference_kernels/naive.hpp'
seed('c01_zero_skip', 'C01', 'an infinite or NaN entry in B that meets a zero entry of A',
     'terms with a zero factor are skipped, so 0 * inf does not become NaN in the result',
     [(NAIVE, '''        result_component += A.at(i * N + k) * B.at(k * N + j);
''', '''        if (A.at(i * N + k) == T(0)) {
          continue; // does not contribute
        }
        result_component += A.at(i * N + k) * B.at(k * N + j);
''')], RUN, ['mats.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include <cmath>
#include "reference_kernels/naive.hpp"
int main() {
  Mat A = {0, 1, 2, 3}, B = {INFINITY, 1, 1, 1};
  Mat C = naive_matrix_multiply(2, A, B);
  if (!std::isnan(C[0]) || !std::isinf(C[2])) { std::puts("0 * inf was dropped"); return 1; }
  return 0;
}
'''})
seed('c01_row_buffer', 'C01', 'at least two OpenMP threads that work on different rows at the same time',
     'the buffer for the current row of A is shared by all threads',
     [(NAIVE, '''  std::vector<T> C(N * N);
#pragma omp parallel for
  for (uint64_t i = 0; i < N; i++) {
    for (uint64_t j = 0; j < N; j++) {
      T result_component = 0.0;
      for (uint64_t k = 0; k < N; k++) {
        result_component += A.at(i * N + k) * B.at(j * N + k);
''', '''  std::vector<T> C(N * N);
  std::vector<T> row(N); // row of A in the cache
#pragma omp parallel for
  for (uint64_t i = 0; i < N; i++) {
    for (uint64_t k = 0; k < N; k++) {
      row[k] = A.at(i * N + k);
    }
    for (uint64_t j = 0; j < N; j++) {
      T result_component = 0.0;
      for (uint64_t k = 0; k < N; k++) {
        result_component += row[k] * B.at(j * N + k);
''')], '$CXX -fopenmp -o "$T/demo" "$D/demo.cpp" || exit 0\nOMP_NUM_THREADS=8 "$T/demo"', ['mats.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include <chrono>
#include <cstdint>
#include "reference_kernels/naive.hpp"
int main() {
  auto t0 = std::chrono::steady_clock::now();
  Mat A = gen(64, 1), B = gen(64, 2), R = mul(64, A, B, true);
  while (std::chrono::steady_clock::now() - t0 < std::chrono::seconds(8))
    if (differ("8 threads", naive_matrix_multiply_transposed(64, A, B), R)) return 1;
  return 0;
}
'''})
seed('c02_accumulate', 'C02', 'an output buffer that still holds values of an earlier use',
     'the simple transposed kernel adds to the buffer instead of storing the block',
     [('src/reference_kernels/kernel.hpp', '      C[i * blockSize + j] = result_component;\n', '      C[i * blockSize + j] += result_component;\n')],
     RUN, ['mats.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include <cstdint>
#include "reference_kernels/kernel.hpp"
int main() {
  Mat A = gen(6, 1), B = gen(6, 2), R = mul(6, A, B, true), C(9, 5.0);
  kernel::kernel_transposed(A, B, C, 6, 2, 3, 3);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (C[i * 3 + j] != R[(2 + i) * 6 + 3 + j]) { std::puts("wrong block"); return 1; }
  return 0;
}
'''})
seed('c02_diagonal', 'C02', 'a block on the diagonal, with A and B being different matrices and the chunk starting at a multiple of 64',
     'the copy of the B chunk is skipped on diagonal blocks of later chunks',
     [('src/reference_kernels/kernel.hpp', '''        B_small[j * block_input + k] = B[(y + j) * N + k_block + k];
''', '''        // diagonal blocks: the same rows were just loaded
        B_small[j * block_input + k] = (x == y && k_block >= 64)
                                           ? A_small[j * block_input + k]
                                           : B[(y + j) * N + k_block + k];
''')], RUN, ['mats.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include <cstdint>
#include "reference_kernels/kernel.hpp"
int main() {
  const std::size_t N = 80;
  Mat A = gen(N, 1), B = gen(N, 2), R = mul(N, A, B, true), C(16, 0.0);
  kernel::kernel_transposed_blocked(A, B, C, N, 8, 8, 4, 16);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (C[i * 4 + j] != R[(8 + i) * N + 8 + j]) { std::puts("wrong block"); return 1; }
  return 0;
}
'''})
COMPS = '"$PWD/src/variants/components/multiplier.cpp" "$PWD/src/variants/components/recursive.cpp"'
HPXRUN = '$CXX -o "$T/demo" "$D/demo.cpp" %s || exit 0\n"$T/demo" > "$T/out"; r=$?; tail -n 3 "$T/out"; exit $r'
seed('c03_capture', 'C03', 'a continuation that runs after the loop that starts the four subtasks has moved on',
     'the continuation reads the loop index by reference, so the submatrix lands at the wrong place',
     [('src/variants/components/recursive.cpp', 'unwrapped([=, &C](std::vector<double> submatrix) {', 'unwrapped([=, &C, &i](std::vector<double> submatrix) {')],
     HPXRUN % (COMPS + ' "$PWD/src/variants/single.cpp"'), ['mats.hpp', 'hpxlite.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include "variants/single.hpp"
int main() {
  for (std::size_t N : {4, 8}) {
    Mat A = gen(N, 1), B = gen(N, 2);
    single::single m(N, A, B, true, 2, 2, 1, 0);
    if (differ("single", m.matrix_multiply(), mul(N, A, B, true))) return 1;
  }
  return 0;
}
'''})
seed('c03_static_client', 'C03', 'two multiplications of different matrices in one process',
     'the connection to the multiplier component is kept over multiplications, so the second one uses the first matrices',
     [('src/variants/components/recursive.cpp', '''    hpx::components::client<multiplier> multiplier;
    multiplier.connect_to("/multiplier#" + std::to_string(comp_locality));
''', '''    static hpx::components::client<multiplier> multiplier = [comp_locality]() {
      hpx::components::client<multiply_components::multiplier> m;
      m.connect_to("/multiplier#" + std::to_string(comp_locality));
      return m;
    }();
''')], HPXRUN % (COMPS + ' "$PWD/src/variants/single.cpp"'), ['mats.hpp', 'hpxlite.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include "variants/single.hpp"
int main() {
  for (unsigned s = 1; s <= 3; s++) {
    Mat A = gen(4, s), B = gen(4, s + 7);
    single::single m(4, A, B, true, 2, 2, 1, 0);
    if (differ("single", m.matrix_multiply(), mul(4, A, B, true))) return 1;
  }
  return 0;
}
'''})
seed('c04_relative_base', 'C04', 'loads whose difference is within the relative tolerance of the larger but not of the smaller load',
     'the acceptance test accepts unbalanced loads',
     [('src/variants/static_improved.cpp', '''        (static_cast<double>(max_work - min_work) /
         static_cast<double>(min_work));''', '''        (static_cast<double>(max_work - min_work) /
         static_cast<double>(max_work));''')],
     HPXRUN % (COMPS + ' "$PWD/src/variants/static_improved.cpp"'), ['mats.hpp', 'hpxlite.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include "variants/static_improved.hpp"
int main() {
  Mat A = gen(4, 1), B = gen(4, 2);
  multiply_components::static_improved m(4, A, B, true, 2, 2, 1, 1, 0.4, 1, 0);
  std::vector<uint64_t> w = {150, 100}, v = {139, 100};
  return m.fulfills_constraints(w) || !m.fulfills_constraints(v);
}
'''})
seed('c04_first_max', 'C04', 'several equally loaded nodes of which the first has no package that can be split',
     'only the first of the most loaded nodes is considered, so the distribution stops too early',
     [('src/variants/static_improved.cpp', '''      } else if (total_work[i] == max_work) {
        max_indices.push_back(i);
      }
''', '''      }
''')], HPXRUN % (COMPS + ' "$PWD/src/variants/static_improved.cpp"'), ['mats.hpp', 'hpxlite.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include "variants/static_improved.hpp"
int main() {
  for (std::size_t N = 1; N <= 64; N++)
    for (std::size_t nodes = 1; nodes <= 12; nodes++)
      for (uint64_t mws : {0, 1, 2, 3, 4, 6, 8}) {
        Mat A(N * N), B(N * N);
        multiply_components::static_improved m(N, A, B, true, 2, 2, mws, 1, 0.0, 1, 0);
        auto s = m.create_schedule(nodes);
        std::vector<uint64_t> load(nodes);
        for (std::size_t i = 0; i < nodes; i++) for (auto &w : s[i]) load[i] += w.N * w.N;
        uint64_t mx = *std::max_element(load.begin(), load.end()), mn = *std::min_element(load.begin(), load.end());
        if (mx - mn < 1) continue;
        for (std::size_t i = 0; i < nodes; i++)
          if (load[i] == mx)
            for (auto &w : s[i])
              if (w.N > mws && w.N % 2 == 0 && w.N * w.N / 2 <= mx - mn) { std::printf("N=%zu nodes=%zu: stopped too early\n", N, nodes); return 1; }
      }
  return 0;
}
'''})
seed('c05_root_first', 'C05', 'a list of localities in which the root is not the first one',
     'the first locality instead of the root is excluded, so the root computes packages and another node idles',
     [('src/variants/static_improved.cpp', '''    for (auto it = all_ids.begin(); it < all_ids.end(); it++) {
      if (*it == root_locality) {
        all_ids.erase(it);
        break;
      }
    }
''', '''    if (std::find(all_ids.begin(), all_ids.end(), root_locality) !=
        all_ids.end()) {
      all_ids.erase(all_ids.begin());
    }
''')], HPXRUN % (COMPS + ' "$PWD/src/variants/static_improved.cpp"'), ['mats.hpp', 'hpxlite.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include <sstream>
#include "variants/static_improved.hpp"
int main() {
  hpxlite::localities() = 3;
  hpxlite::reversed() = true;
  Mat A = gen(8, 1), B = gen(8, 2);
  std::ostringstream out;
  auto *old = std::cout.rdbuf(out.rdbuf());
  multiply_components::static_improved m(8, A, B, true, 2, 2, 1, 1, 0.01, 1, 1);
  Mat C = m.matrix_multiply();
  std::cout.rdbuf(old);
  if (differ("pseudodynamic", C, mul(8, A, B, true))) return 1;
  // every node that computes announces its work
  if (out.str().find("computing on id: 0\n") != std::string::npos || out.str().find("\n0 work on") != std::string::npos) { std::puts("the root computes"); return 1; }
  return 0;
}
'''})
seed('c05_schedule_cache', 'C05', 'two distributed multiplications of different size in one process',
     'the work distribution is remembered per number of nodes, although it depends on the size of the matrix',
     [('src/variants/static_improved.cpp', '''  std::vector<std::vector<matrix_multiply_work>> all_work =
      this->create_schedule(compute_localities);
''', '''  // computing the schedule is expensive for many localities
  static std::map<size_t, std::vector<std::vector<matrix_multiply_work>>>
      schedules;
  if (schedules.find(compute_localities) == schedules.end()) {
    schedules[compute_localities] = this->create_schedule(compute_localities);
  }
  std::vector<std::vector<matrix_multiply_work>> all_work =
      schedules[compute_localities];
'''), ('src/variants/static_improved.cpp', '#include <algorithm>\n', '#include <algorithm>\n#include <map>\n')],
     HPXRUN % (COMPS + ' "$PWD/src/variants/static_improved.cpp"'), ['mats.hpp', 'hpxlite.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include "variants/static_improved.hpp"
int main() {
  hpxlite::localities() = 3;
  for (std::size_t N : {4, 8}) {
    Mat A = gen(N, 1), B = gen(N, 2);
    multiply_components::static_improved m(N, A, B, true, 2, 2, 1, 1, 0.01, 1, 0);
    if (differ("pseudodynamic", m.matrix_multiply(), mul(N, A, B, true))) return 1;
  }
  return 0;
}
'''})
seed('c06_shared_scratch', 'C06', 'two result blocks that are computed at the same time',
     'the scratch copies of A and B are shared by all parallel iterations',
     [('src/variants/algorithms.hpp', '''          // use small intermediate matrices to reduce conflict misses
          std::vector<double> A_small(block_input * block_result);

          // use small intermediate matrices to reduce conflict misses
          std::vector<double> B_small(block_input * block_result);
''', ''), ('src/variants/algorithms.hpp', '''    hpx::parallel::for_each_n(
        hpx::parallel::par, dim_index_iterator<size_t>(2, result_blocks, 1),
        result_blocks * result_blocks,
        [this, &C](const std::vector<size_t> &cur_index) {
''', '''    // use small intermediate matrices to reduce conflict misses
    std::vector<double> A_small(block_input * block_result);
    std::vector<double> B_small(block_input * block_result);
    hpx::parallel::for_each_n(
        hpx::parallel::par, dim_index_iterator<size_t>(2, result_blocks, 1),
        result_blocks * result_blocks,
        [this, &C, &A_small, &B_small](const std::vector<size_t> &cur_index) {
''')], '$CXX -DHPXLITE_THREADS -pthread -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo"', ['mats.hpp', 'hpxlite.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include <chrono>
#include "variants/algorithms.hpp"
int main() {
  auto t0 = std::chrono::steady_clock::now();
  Mat A = gen(64, 1), B = gen(64, 2), R = mul(64, A, B, true);
  while (std::chrono::steady_clock::now() - t0 < std::chrono::seconds(8)) {
    algorithms::algorithms m(64, A, B, 16, 8);
    if (differ("algorithms", m.matrix_multiply(), R)) return 1;
  }
  return 0;
}
'''})
seed('c06_semi_step', 'C06', 'an input block size above 64 and a matrix of more than 64 rows',
     'the step over the input is limited to 64, while each step still handles block_input terms: terms are counted twice',
     [('src/variants/semi.cpp', '\tpolicy.set_final_steps({4, 2, block_input});\n', '\tpolicy.set_final_steps({4, 2, std::min<size_t>(block_input, 64)});\n')],
     '$CXX -o "$T/demo" "$D/demo.cpp" "$PWD/src/variants/semi.cpp" || exit 0\n"$T/demo"', ['mats.hpp', 'hpxlite.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include "variants/semi.hpp"
int main() {
  for (std::size_t N : {16, 64, 72, 130}) {
    Mat A = gen(N, 1), B = gen(N, 2);
    semi::semi m(N, A, B, 128, 128);
    if (differ("semi", m.matrix_multiply(), mul(N, A, B, true))) return 1;
  }
  return 0;
}
'''})
seed('c07_parallel_k', 'C07', 'a matrix of more than 256 rows and two blocks of the summation direction running at the same time',
     'the blocks of the summation direction are run in parallel although they add to the same entries',
     [('src/variants/combined.cpp', '''                        {true, true, false}); // LLC blocking''', '''                        {true, true, true}); // LLC blocking''')],
     '$CXX -O2 -DHPXLITE_THREADS -pthread -o "$T/demo" "$D/demo.cpp" "$PWD/src/variants/combined.cpp" || exit 0\n"$T/demo" > "$T/out"; r=$?; tail -n 1 "$T/out"; exit $r', ['mats.hpp', 'hpxlite.hpp', 'vclite.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include <chrono>
#include "variants/combined.hpp"
int main() {
  auto t0 = std::chrono::steady_clock::now();
  const std::size_t N = 900;
  Mat A = gen(N, 1), B = gen(N, 2), R = mul(N, A, B, false);
  double d;
  while (std::chrono::steady_clock::now() - t0 < std::chrono::seconds(60)) {
    combined::combined m(N, A, B, 1, 0);
    if (differ("combined", m.matrix_multiply(d), R)) return 1;
  }
  return 0;
}
'''})
seed('c07_small_pad', 'C07', 'a size just above a multiple of the block size of the summation direction',
     'a remainder of one row in the summation direction is not padded, so its contribution is lost',
     [('src/reference_kernels/kernel_tiled.cpp', '''  for (size_t y = 0; y < N_org; y++) {
    for (size_t k = 0; k < N_org; k++) {
      B.at(k * Y_size + y) = B_org.at(k * N + y);
    }
  }
''', '''  for (size_t y = 0; y < N_org; y++) {
    for (size_t k = 0; k < N_org - (N_org % L2_K_STEP == 1 ? 1 : 0); k++) {
      B.at(k * Y_size + y) = B_org.at(k * N + y);
    }
  }
''')], '$CXX -O2 -o "$T/demo" "$D/demo.cpp" "$PWD/src/reference_kernels/kernel_tiled.cpp" || exit 0\n"$T/demo" > "$T/out"; r=$?; tail -n 1 "$T/out"; exit $r', ['mats.hpp', 'hpxlite.hpp', 'vclite.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include "reference_kernels/kernel_tiled.hpp"
int main() {
  double d;
  for (std::size_t N : {16, 64, 65, 128, 129, 130}) {
    Mat A = gen(N, 1), B = gen(N, 2);
    kernel_tiled::kernel_tiled m(N, A, B, false, 1, 0);
    if (differ("kernel_tiled", m.matrix_multiply(d), mul(N, A, B, false))) return 1;
  }
  return 0;
}
'''})
seed('c08_shared_range', 'C08', 'two parallel iterations that run at the same time',
     'the bounds of the current block are shared by all parallel iterations',
     [('src/variants/index_iterator.hpp', '''          std::vector<T> recursive_min(dim);
          std::vector<T> recursive_max(dim);

''', ''), ('src/variants/index_iterator.hpp', '''    // first process parallel dimensions
    hpx::parallel::for_each_n(
        hpx::parallel::par, dim_iter_reduced, inner_index_count_reduced,
        [parallel_dims_count, inner_index_count_remain, &policy, &map, &min,
         &max, &block, f](const std::vector<size_t> &partial_index) {
''', '''    std::vector<T> recursive_min(dim);
    std::vector<T> recursive_max(dim);
    // first process parallel dimensions
    hpx::parallel::for_each_n(
        hpx::parallel::par, dim_iter_reduced, inner_index_count_reduced,
        [parallel_dims_count, inner_index_count_remain, &policy, &map, &min,
         &max, &block, &recursive_min, &recursive_max,
         f](const std::vector<size_t> &partial_index) {
''')], '$CXX -DHPXLITE_THREADS -pthread -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo"', ['mats.hpp', 'hpxlite.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include <atomic>
#include <chrono>
#include "variants/index_iterator.hpp"
using namespace index_iterator;
int main() {
  auto t0 = std::chrono::steady_clock::now();
  while (std::chrono::steady_clock::now() - t0 < std::chrono::seconds(8)) {
    std::vector<std::atomic<int>> seen(32 * 32);
    blocking_pseudo_execution_policy<size_t> p(2);
    p.add_blocking({4, 4}, {true, true});
    iterate_indices<2>(p, {0, 0}, {32, 32}, [&](size_t x, size_t y) { seen[x * 32 + y]++; });
    for (auto &s : seen) if (s != 1) { std::puts("an index was not visited exactly once"); return 1; }
  }
  return 0;
}
'''})
seed('c08_float_count', 'C08', 'a range of more than 2^24 indices that exceeds a multiple of the block by one',
     'the number of blocks is computed in single precision, so the last block is lost',
     [('src/memory_layout/index_iterator.hpp', 'inner_index_count_reduced *= static_cast<size_t>(std::ceil(static_cast<double>(max[d] - min[d]) / static_cast<double>(block[d])));', 'inner_index_count_reduced *= static_cast<size_t>(std::ceil(static_cast<float>(max[d] - min[d]) / static_cast<float>(block[d])));')],
     RUN, ['mats.hpp', 'hpxlite.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include "memory_layout/index_iterator.hpp"
using namespace index_iterator;
int main() {
  const size_t n = (size_t(1) << 24) + 1;
  size_t count = 0;
  blocking_pseudo_execution_policy<size_t> p(1);
  p.add_blocking({size_t(1) << 23}, {true});
  iterate_indices<1>(p, {0}, {n}, [&](size_t x) { count++; });
  if (count != n) { std::printf("%zu of %zu visited\n", count, n); return 1; }
  return 0;
}
'''})
