TA = 'src/memory_layout/tile_array.hpp'
LN = 'src/memory_layout/loop_nest.hpp'
seed('c10_shared_strides', 'C10', 'two threads that undo the tiling of arrays of different extents at the same time',
     'the strides of the untiled array are kept in one place for all callers',
     [(TA, '  std::array<size_t, dim> untiled_strides;\n', '  static std::array<size_t, dim> untiled_strides;\n')],
     '$CXX -pthread -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo"', [], {'demo.cpp': r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include "memory_layout/tile_array.hpp"
#include "memory_layout/tile_iterator.hpp"
#include "memory_layout/tile_view.hpp"
#include "memory_layout/util.hpp"
using namespace memory_layout;
static std::atomic<bool> other{false};
static thread_local bool first = false;
struct E { // the first thread stops at its first element until the second one is done (or cannot start)
  int v = 0;
  E() = default;
  E(const E &) = default;
  E &operator=(const E &o) {
    for (int i = 0; first && !other && i < 3000; i++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    v = o.v;
    return *this;
  }
};
static bool wrong(size_t rows, size_t cols) {
  std::vector<tiling_info_dim> info(2);
  info[0].stride = rows, info[0].tile_size_dir = 1;
  info[1].stride = cols, info[1].tile_size_dir = cols;
  std::vector<E> a(rows * cols);
  for (size_t i = 0; i < a.size(); i++) a[i].v = (int)i;
  std::vector<E> b = undo_tiling<2>(a, info); // the tiles are the rows
  for (size_t i = 0; i < a.size(); i++) if (b[i].v != (int)i) return true;
  return false;
}
int main() {
  bool w1 = false, w2 = false;
  std::atomic<bool> started{false};
  std::thread t([&] {
    first = started = true;
    w1 = wrong(4, 6);
  });
  while (!started) std::this_thread::yield();
  std::this_thread::sleep_for(std::chrono::milliseconds(200));
  w2 = wrong(6, 2);
  other = true;
  t.join();
  if (w1 || w2) std::puts("an entry is at the wrong place");
  return w1 || w2;
}
'''})

seed('c09_nested_counter', 'C09', 'a loop nest inside another one, both with the same type of function',
     'the index tuple is kept in one place per thread instead of one per loop nest',
     [(LN, '''               const std::array<T, dim> &step, F f) {
  std::array<T, dim> partial_index;
''', '''               const std::array<T, dim> &step, F f) {
  // large index tuples are not set up for every call
  static thread_local std::array<T, dim> partial_index;
''')],
     '$CXX -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo"', [], {'demo.cpp': r'''
#include <array>
#include <cstddef>
#include <cstdio>
#include <functional>
#include <type_traits>
#include <vector>
#include "memory_layout/loop_nest.hpp"
typedef std::array<size_t, 2> I;
typedef std::function<void(const I &)> F;
int main() {
  int n = 0, bad = 0;
  std::vector<I> seen;
  bool inside = false;
  F f = [&](const I &i) {
    if (inside) return;
    inside = true;
    util::loop_nest<2>(I{5, 5}, I{6, 7}, I{1, 1}, f);
    inside = false;
    seen.push_back(i);
  };
  util::loop_nest<2>(I{0, 0}, I{2, 3}, I{1, 1}, f);
  if (seen.size() != 6) {
    std::printf("%zu calls instead of 6\n", seen.size());
    return 1;
  }
  for (size_t x = 0; x < 2; x++)
    for (size_t y = 0; y < 3; y++, n++) bad += seen[n][0] != x || seen[n][1] != y;
  if (bad) std::printf("%d of %d index tuples are wrong\n", bad, n);
  return bad != 0;
}
'''})
seed('c12_reseeded', 'C12', 'two threads that create random matrices at the same time',
     'all calls share one random engine, which is only set back to its beginning before each matrix',
     [('src/util/create_random_matrix.hpp', '''  std::default_random_engine generator;
  std::uniform_real_distribution<double> distribution(0.0, 1.0);
  auto myRand = std::bind(distribution, generator);
''', '''  static std::default_random_engine generator;
  generator.seed(std::default_random_engine::default_seed);
  std::uniform_real_distribution<double> distribution(0.0, 1.0);
  auto myRand = std::bind(distribution, std::ref(generator));
''')],
     '$CXX -pthread -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo"', [], {'demo.cpp': r'''
#include <atomic>
#include <cstdio>
#include <thread>
#include <vector>
#include "util/create_random_matrix.hpp"
// an element that was filled in by one thread waits once for the other to fill in some of its own
static std::atomic<int> done[2];
static thread_local int me = -1;
struct E {
  double v = 0;
  E() = default;
  E &operator=(double d) {
    v = d;
    if (me >= 0 && ++done[me] == 5)
      for (int i = 0; i < 3000 && done[1 - me] < 5; i++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    return *this;
  }
};
int main() {
  std::vector<E> want = util::create_random_matrix<E>(4), got[2];
  std::thread a([&] { me = 0; got[0] = util::create_random_matrix<E>(4); }), b([&] { me = 1; got[1] = util::create_random_matrix<E>(4); });
  a.join(), b.join();
  for (auto &g : got)
    for (size_t i = 0; i < want.size(); i++)
      if (g.at(i).v != want[i].v) { std::puts("the matrices differ"); return 1; }
  return 0;
}
'''})
seed('c01_flush_zero', 'C01', 'denormal entries',
     'denormal numbers are treated as zero to save time',
     [('src/reference_kernels/naive.hpp', '''#include <vector>
#include <cinttypes>
''', '''#include <vector>
#include <cinttypes>
#include <xmmintrin.h>
'''), ('src/reference_kernels/naive.hpp', '''std::vector<T> naive_matrix_multiply(std::size_t N, std::vector<T> &A,
                                     std::vector<T> &B) {
  std::vector<T> C(N * N);
#pragma omp parallel for
  for (uint64_t i = 0; i < N; i++) {
''', '''std::vector<T> naive_matrix_multiply(std::size_t N, std::vector<T> &A,
                                     std::vector<T> &B) {
  std::vector<T> C(N * N);
#pragma omp parallel for
  for (uint64_t i = 0; i < N; i++) {
    _mm_setcsr(_mm_getcsr() | 0x8000); // denormal intermediate results are slow
''')],
     '$CXX -fopenmp -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo"', [], {'demo.cpp': r'''
#include <cstdio>
#include <cstring>
#include <cstdint>
#include "reference_kernels/naive.hpp"
int main() {
  std::vector<double> A = {1e-310, 2e-310, 0, 3e-310}, B = {1, 0, 0, 1};
  std::vector<double> C = naive_matrix_multiply<double>(2, A, B);
  if (std::memcmp(C.data(), A.data(), 4 * sizeof(double))) { std::puts("denormal entries are lost"); return 1; }
  return 0;
}
'''})
APP = 'src/matrix_multiply_application/matrix_multiply.cpp'
