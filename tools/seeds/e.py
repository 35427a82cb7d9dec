RUN = '$CXX -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo"'
RC = 'src/variants/components/recursive.cpp'
SI = 'src/variants/static_improved.cpp'
IX = 'src/variants/index_iterator.hpp'
KT = 'src/reference_kernels/kernel_tiled.cpp'
HL = ['mats.hpp', 'hpxlite.hpp']
COMP = '"$PWD/src/variants/components/multiplier.cpp" "$PWD/src/variants/components/recursive.cpp"'
Q = ' || exit 0\n"$T/demo" > "$T/out"; r=$?; tail -n 3 "$T/out"; exit $r'
seed('c03_last_only', 'C03', 'a schedule in which the last quarter is finished before the others',
     'only the last of the four quarters is waited for',
     [(RC, '''      g.push_back(
          f.then(''', '''      hpx::future<void> copied =
          f.then('''),
      (RC, '''                                    std::get<1>(offsets[i]), n_new);
          })));
''', '''                                    std::get<1>(offsets[i]), n_new);
          }));
      // the quarters are finished in the order in which they were started
      g.clear();
      g.push_back(std::move(copied));
''')],
     '$CXX -o "$T/demo" "$D/demo.cpp" ' + COMP + ' "$PWD/src/variants/single.cpp"' + Q, HL, {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include "variants/single.hpp"
int main() {
  for (int l = 0; l < 1; l++) {
    Mat A = gen(8, 1), B = gen(8, 2);
    single::single m(8, A, B, true, 2, 2, 1, 0);
    if (differ("single", m.matrix_multiply(), mul(8, A, B, true))) return 1;
  }
  return 0;
}
'''})
seed('c04_narrow_total', 'C04', 'a matrix of 65536 rows or more',
     'the load that is moved is computed in 32 bits',
     [(SI, '    size_t n_new = w.N / 2;\n', '    uint32_t n_new = w.N / 2;\n')],
     '$CXX -o "$T/demo" "$D/demo.cpp" ' + COMP + Q, HL, {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#define private public
#include "variants/static_improved.hpp"
#undef private
#include "variants/static_improved.cpp"
int main() {
  for (size_t N : {4ul, 1ul << 17}) {
    Mat A = gen(4, 1), B = gen(4, 2);
    multiply_components::static_improved m(4, A, B, true, 1, 1, 1, 1, 0.4, 1, 0);
    m.N = N;
    auto all = m.create_schedule(3);
    std::vector<uint64_t> load;
    for (auto &l : all) { uint64_t s = 0; for (auto &w : l) s += w.N * w.N; load.push_back(s); }
    uint64_t lo = *std::min_element(load.begin(), load.end()), hi = *std::max_element(load.begin(), load.end());
    if (!lo || (hi - lo) > 0.4 * lo + 1) { std::printf("N=%zu: loads from %llu to %llu\n", N, (unsigned long long)lo, (unsigned long long)hi); return 1; }
  }
  return 0;
}
'''})
seed('c04_split_minimum', 'C04', 'a minimum work size that a package reaches exactly',
     'packages of exactly the minimum work size are split once more',
     [(SI, 'w.N <= this->min_work_size', 'w.N < this->min_work_size')],
     '$CXX -o "$T/demo" "$D/demo.cpp" ' + COMP + Q, HL, {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#define private public
#include "variants/static_improved.hpp"
#undef private
#include "variants/static_improved.cpp"
int main() {
  Mat A = gen(16, 1), B = gen(16, 2);
  multiply_components::static_improved m(16, A, B, true, 1, 1, 8, 1, 0.01, 1, 0);
  for (auto &l : m.create_schedule(3))
    for (auto &w : l) if (w.N < 8) { std::printf("package of %zu\n", (size_t)w.N); return 1; }
  return 0;
}
'''})
seed('c05_wait_single', 'C05', 'a single computing node and a schedule in which the result is returned before the blocks arrived',
     'the results are not waited for if only one node computes',
     [(SI, '        futures.push_back(std::move(g));\n', '        // a single node has already finished its packages\n        if (compute_localities > 1) {\n          futures.push_back(std::move(g));\n        }\n')],
     '$CXX -o "$T/demo" "$D/demo.cpp" ' + COMP + ' "$PWD/src/variants/static_improved.cpp"' + Q, HL, {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include "variants/static_improved.hpp"
int main() {
  for (unsigned n = 3; n >= 1; n--) {
    hpxlite::localities() = n;
    Mat A = gen(8, 1), B = gen(8, 2);
    multiply_components::static_improved m(8, A, B, true, 2, 2, 1, 1, 0.01, 1, 0);
    if (differ("pseudodynamic", m.matrix_multiply(), mul(8, A, B, true))) return 1;
  }
  return 0;
}
'''})
seed('c08_leading_dims', 'C08', 'a parallel dimension that comes after one that is not parallel',
     'the parallel dimensions are numbered from 0, so the index of another dimension is fixed',
     [(IX, '        map.push_back(d);\n', '        map.push_back(map.size());\n')],
     RUN, HL, {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include "variants/index_iterator.hpp"
using namespace index_iterator;
int main() {
  for (int k = 0; k < 4; k++) {
    std::vector<int> seen(4 * 6);
    blocking_pseudo_execution_policy<size_t> p(2);
    p.add_blocking({2, 2}, {(k & 1) != 0, (k & 2) != 0});
    bool bad = false;
    iterate_indices<2>(p, {0, 0}, {4, 6}, [&](size_t x, size_t y) { if (x < 4 && y < 6) seen[x * 6 + y]++; else bad = true; });
    for (int s : seen) bad |= s != 1;
    if (bad) { std::printf("parallel dimensions %d: an index was not visited exactly once\n", k); return 1; }
  }
  return 0;
}
'''})
seed('c13_second_request', 'C13', 'two requests to the same object',
     'a second request releases the memory of the first',
     [('src/aligned_allocator.hpp', '''    if (data) {
      throw;
    }
    size_t''', '''    if (data) {
      delete[] data;
    }
    size_t''')],
     RUN, [], {'demo.cpp': r'''
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <new>
static int released = 0;
void operator delete[](void *p) noexcept { released++; std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { released++; std::free(p); }
#include "aligned_allocator.hpp"
int main() {
  std::set_terminate([] { std::_Exit(0); });
  alignment::aligned_allocator a;
  a.alloc<int>(10, 8);
  try { a.alloc<int>(10, 8); } catch (...) { return 0; }
  if (released) std::puts("the first memory is gone");
  return released != 0;
}
'''})
seed('c14_nofma_twice', 'C14', 'a processor without fused multiply-add',
     'without fused multiply-add the products are written to the accumulators of the transposed position',
     [('otherExperiments/multIntrinLoop.cpp', '_mm256_add_pd(temp, resultReg[jjj * REG_BLOCK_II_STRIDE + iii]);', '_mm256_add_pd(temp, resultReg[jjj / REG_BLOCK_JJ_STEP + iii]);')],
     '$CXX -fopenmp -mavx2 -mno-fma -o "$T/demo" "$D/demo.cpp" "$PWD/otherExperiments/multIntrinLoop.cpp" || exit 0\n"$T/demo"', [], {'demo.cpp': r'''
#include <cstdint>
#include <cstdio>
void multIntrinLoop(double *A, double *B, double *C, const uint32_t n);
alignas(64) static double A[128 * 128], B[128 * 128], C[128 * 128];
int main() {
  for (int i = 0; i < 128; i++)
    for (int j = 0; j < 128; j++) A[i * 128 + j] = i + 2 * j, B[i * 128 + j] = i == j;
  multIntrinLoop(A, B, C, 128);
  for (int i = 0; i < 128 * 128; i++) if (C[i] != A[i]) { std::printf("entry %d differs\n", i); return 1; }
  return 0;
}
'''})
seed('c17_other_stride', 'C17', 'a transposed matrix that is not square',
     'the entries of a transposed matrix are taken with the other stride',
     [('src/util/util.hpp', '''void print_matrix_transposed_host(size_t N, size_t M, std::vector<T, Alloc> &m) {
  for (std::uint64_t i = 0; i < N; i++) {
    for (std::uint64_t j = 0; j < M; j++) {
      if (j > 0) {
        std::cout << ", ";
      }
      std::cout << m.at(j * N + i);''', '''void print_matrix_transposed_host(size_t N, size_t M, std::vector<T, Alloc> &m) {
  for (std::uint64_t i = 0; i < N; i++) {
    for (std::uint64_t j = 0; j < M; j++) {
      if (j > 0) {
        std::cout << ", ";
      }
      std::cout << m.at(j * std::min(N, M) + i);''')],
     RUN, HL, {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include <sstream>
#include "util/util.hpp"
int main() {
  std::vector<int> m = {1, 2, 3, 4, 5, 6};
  std::ostringstream o;
  auto *old = std::cout.rdbuf(o.rdbuf());
  print_matrix_transposed_host(3, 2, m);
  std::cout.rdbuf(old);
  if (o.str() != "1, 4\n2, 5\n3, 6\n") { std::puts("wrong entries"); return 1; }
  return 0;
}
'''})
seed('c07_shared_padding', 'C07', 'a second call with another matrix of the same size',
     'the padded copy of A is kept from the first call as long as the size is the same',
     [(KT, '  for (size_t rep = 0; rep < repetitions; rep++) {\n', '''  // matrices of the same size need not be padded again
  static std::vector<double> A_kept;
  if (A_kept.size() != A_trans.size()) {
    A_kept.assign(A_trans.begin(), A_trans.end());
  } else {
    std::copy(A_kept.begin(), A_kept.end(), A_trans.begin());
  }

  for (size_t rep = 0; rep < repetitions; rep++) {
''')],
     '$CXX -O2 -mavx2 -mfma -fopenmp -o "$T/demo" "$D/demo.cpp" "$PWD/src/reference_kernels/kernel_tiled.cpp"' + Q, HL + ['vclite.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include "reference_kernels/kernel_tiled.hpp"
int main() {
  for (int s = 1; s < 5; s += 2) {
    Mat A = gen(20, s), B = gen(20, s + 1);
    kernel_tiled::kernel_tiled m(20, A, B, false, 1, 0);
    double d = 0;
    if (differ("kernel_tiled", m.matrix_multiply(d), mul(20, A, B, false))) return 1;
  }
  return 0;
}
'''})
