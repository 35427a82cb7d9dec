RUN = '$CXX -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo"'
LN = 'src/memory_layout/loop_nest.hpp'
TA = 'src/memory_layout/tile_array.hpp'
TI = 'src/memory_layout/tile_iterator.hpp'
TV = 'src/memory_layout/tile_view.hpp'
APP = 'src/matrix_multiply_application/matrix_multiply.cpp'
seed('c09_trip_count', 'C09', 'an unsigned index type and a lower bound above the upper bound in some dimension',
     'the std::array overload computes a trip count that wraps around for an empty range',
     [(LN, '''    const std::array<T, dim> &min, const std::array<T, dim> &max, const std::array<T, dim> &step,
    std::array<T, dim> &partial_index, F f) {
  for (T cur = min[cur_dim]; cur < max[cur_dim]; cur += step[cur_dim]) {
    partial_index[cur_dim] = cur;
''', '''    const std::array<T, dim> &min, const std::array<T, dim> &max, const std::array<T, dim> &step,
    std::array<T, dim> &partial_index, F f) {
  if (max[cur_dim] == min[cur_dim]) {
    return;
  }
  const T last = (max[cur_dim] - min[cur_dim] - 1) / step[cur_dim];
  for (T pass = 0; pass <= last; pass++) {
    partial_index[cur_dim] = min[cur_dim] + pass * step[cur_dim];
''')], RUN, [], {'demo.cpp': r'''
#include <array>
#include <cstddef>
#include <cstdio>
#include <type_traits>
#include "memory_layout/loop_nest.hpp"
int main() {
  std::array<unsigned, 2> mn = {{0, 5}}, mx = {{2, 3}}, st = {{1, 1}};
  int calls = 0;
  try { util::loop_nest(mn, mx, st, [&](const std::array<unsigned, 2> &) { if (++calls > 10) throw 1; }); } catch (int) {}
  if (calls) std::puts("called for an empty range");
  return calls != 0;
}
'''})
seed('c09_looper_unroll', 'C09', 'a range whose length is odd and larger than one, in the innermost dimension, of the learning example',
     'the looper of the example, unrolled by two, calls the function beyond the upper bound',
     [('learning/MetaProgrammingCPP.cpp', '''    for (T cur = min; cur < max; cur++) {
        execute_looped<dim - 1>(min, max, f, args..., cur);
    }
''', '''    // two at a time
    for (T cur = min; cur < max; cur += 2) {
        execute_looped<dim - 1>(min, max, f, args..., cur);
        if (max - min > 1) {
            execute_looped<dim - 1>(min, max, f, args..., static_cast<T>(cur + 1));
        }
    }
''')], '$CXX -I"$PWD" -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo"', [], {'demo.cpp': r'''
#define main other_main
#include "learning/MetaProgrammingCPP.cpp"
#undef main
#include <cstdio>
int main() {
  int n = 0;
  Looper<2, int>(0, 3).iterate_simple([&](int a, int b) { n += a >= 3 || b >= 3 ? 1000 : 1; });
  if (n != 9) std::puts("wrong calls");
  return n != 9;
}
'''})
seed('c10_tile_counts', 'C10', 'an array whose number of tiles per direction differs between the dimensions',
     'tiles are stored in an order with strides of the wrong dimension, so tiles overwrite each other',
     [(TA, '''    cur_stride *= (tiling_info[(dim - 1) - d].stride /
                   tiling_info[(dim - 1) - d].tile_size_dir);
  }

  // std::cout << "skipped blocks''', '''    cur_stride *= (tiling_info[d].stride /
                   tiling_info[d].tile_size_dir);
  }

  // std::cout << "skipped blocks''')], RUN, [], {'demo.cpp': r'''
#include <array>
#include <cstddef>
#include <cstdio>
#include <vector>
#include "memory_layout/tile_array.hpp"
int main() {
  std::vector<memory_layout::tiling_info_dim> i = {{2, 8}, {2, 4}};
  std::vector<int> v(32);
  for (int k = 0; k < 32; k++) v[k] = k;
  auto t = memory_layout::make_tiled<2>(v, i);
  if (memory_layout::undo_tiling<2>(t, i) != v) { std::puts("not restored"); return 1; }
  return 0;
}
'''})
seed('c10_whole_rows', 'C10', 'three or more dimensions with a tile that spans the whole last dimension but not the one before',
     'a shortcut treats a tile that spans the last dimension as a contiguous piece of the array',
     [(TA, '''  util::loop_nest<dim>(
      min, max, stride,
      [&tiled, &org,''', '''  if (dim > 1 &&
      tiling_info[dim - 1].tile_size_dir == tiling_info[dim - 1].stride) {
    // complete rows, the tile is contiguous in the original array
    size_t first = 0;
    size_t cells = 1;
    for (size_t d = 0; d < dim; d++) {
      first = first * tiling_info[d].stride +
              tile_index[d] * tiling_info[d].tile_size_dir;
      cells *= tiling_info[d].tile_size_dir;
    }
    if (first + cells <= org.size()) {
      std::copy_n(org.begin() + first, cells, tiled.begin() + skipped_blocks);
      return;
    }
  }

  util::loop_nest<dim>(
      min, max, stride,
      [&tiled, &org,''')], RUN, [], {'demo.cpp': r'''
#include <array>
#include <cstddef>
#include <cstdio>
#include <vector>
#include "memory_layout/tile_array.hpp"
int main() {
  std::vector<memory_layout::tiling_info_dim> i = {{2, 4}, {2, 4}, {4, 4}};
  std::vector<int> v(64);
  for (int k = 0; k < 64; k++) v[k] = k;
  auto t = memory_layout::make_tiled<3>(v, i);
  if (memory_layout::undo_tiling<3>(t, i) != v) { std::puts("not restored"); return 1; }
  return 0;
}
'''})
seed('c11_moved_function', 'C11', 'a function object that owns state (captured by value) and more than one tile',
     'the function object is moved away in the loop, so from the second tile on it has lost its state',
     [(TI, '''    iterate_tile_dim<dim, cur_dim + 1>(tiled, tiling_info, partial_tile_index,
                                       f);''', '''    iterate_tile_dim<dim, cur_dim + 1>(tiled, tiling_info, partial_tile_index,
                                       std::move(f));''')], RUN, [], {'demo.cpp': r'''
#include <array>
#include <cstddef>
#include <cstdio>
#include <functional>
#include <vector>
#include "memory_layout/tile_array.hpp"
int main() {
  std::vector<memory_layout::tiling_info_dim> i = {{2, 4}, {2, 4}};
  std::vector<int> v(16);
  std::vector<size_t> order;
  int lost = 0, calls = 0;
  std::vector<int> state = {1, 2, 3};
  memory_layout::iterate_tiles<2>(v, i, [&lost, &calls, state](auto) { calls++; if (state.size() != 3) lost++; });
  if (lost || calls != 4) std::puts("state lost");
  return lost || calls != 4;
}
'''})
seed('c11_offset_width', 'C11', 'an array of more than 2^32 entries',
     'the position of a tile is computed with 32 bits, so views of far tiles reach into other tiles',
     [(TV, '''    size_t cur_stride = 1;
    base_offset = 0;
''', '''    uint32_t cur_stride = 1;
    base_offset = 0;
''')], RUN, [], {'demo.cpp': r'''
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <new>
#include <sys/mman.h>
#include <vector>
#include "memory_layout/tile_array.hpp"
template <typename T> struct Sparse {
  typedef T value_type;
  Sparse() {}
  template <typename U> Sparse(const Sparse<U> &) {}
  T *allocate(size_t n) { void *p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) throw std::bad_alloc(); return (T *)p; }
  void deallocate(T *p, size_t n) { munmap(p, n * sizeof(T)); }
  template <typename U> void construct(U *) {}
  template <typename U> void destroy(U *) {}
  template <typename U> bool operator==(const Sparse<U> &) const { return true; }
  template <typename U> bool operator!=(const Sparse<U> &) const { return false; }
};
int main() try {
  std::vector<memory_layout::tiling_info_dim> i = {{1, 2}, {1, (size_t)1 << 32}};
  std::vector<char, Sparse<char>> v((size_t)1 << 33);
  size_t at[2] = {1, 3};
  memory_layout::tile_view<2, char, Sparse<char>> w(v, at, i);
  if (&w[0] != v.data() + ((size_t)1 << 32) + 3) { std::puts("wrong cell"); return 1; }
  return 0;
} catch (std::bad_alloc &) { return 0; }
'''})
seed('c12_blocked_edge', 'C12', 'a rectangular matrix with more than 32 rows or columns whose sides differ',
     'the blocked transposition clips the blocks at the wrong side',
     [('src/util/transpose_matrix.hpp', '''  for (size_t i = 0; i < stride_org; i++) {
    for (size_t j = 0; j < stride_result; j++) {
      result[i * stride_result + j] = org[j * stride_org + i];
    }
  }
''', '''  const size_t block = 32;
  const size_t blocks = (std::min(stride_org, stride_result) + block - 1) / block * block;
  for (size_t bi = 0; bi < std::max(stride_org, blocks); bi += block) {
    for (size_t bj = 0; bj < blocks; bj += block) {
      for (size_t i = bi; i < std::min(bi + block, stride_org); i++) {
        for (size_t j = bj; j < std::min(bj + block, stride_result); j++) {
          result[i * stride_result + j] = org[j * stride_org + i];
        }
      }
    }
  }
''')], RUN, [], {'demo.cpp': r'''
#include <algorithm>
#include <cstddef>
#include <cstdio>
#include "util/transpose_matrix.hpp"
int main() {
  size_t c = 20, r = 40;
  std::vector<int> v(c * r);
  for (size_t k = 0; k < v.size(); k++) v[k] = k + 1;
  std::vector<int> t = util::transpose_matrix(c, r, v);
  for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) if (t[j * r + i] != v[i * c + j]) { std::puts("wrong entry"); return 1; }
  return 0;
}
'''})
seed('c12_float_cells', 'C12', 'an enumerating matrix with more than 2^24 cells (N >= 4097)',
     'cell numbers pass through float and are rounded',
     [('src/util/pattern_matrices.hpp', '    m[i] = static_cast<double>(i);\n', '    m[i] = static_cast<float>(i);\n')],
     RUN, [], {'demo.cpp': r'''
#include <cstddef>
#include <cstdio>
#include "util/pattern_matrices.hpp"
int main() {
  auto m = util::create_enumerating_matrix<double>(4098);
  for (size_t i = 0; i < m.size(); i++) if (m[i] != (double)i) { std::printf("cell %zu\n", i); return 1; }
  return 0;
}
'''})
seed('c12_shared_engine', 'C12', 'a second random matrix in the same process',
     'the generator is kept between calls, so a matrix depends on the ones created before',
     [('src/util/create_random_matrix.hpp', '  std::default_random_engine generator;\n', '  static std::default_random_engine generator;\n'),
      ('src/util/create_random_matrix.hpp', 'std::bind(distribution, generator)', 'std::bind(distribution, std::ref(generator))')],
     RUN, [], {'demo.cpp': r'''
#include <cstddef>
#include <cstdio>
#include "util/create_random_matrix.hpp"
int main() {
  auto a = util::create_random_matrix<double>(5), b = util::create_random_matrix<double>(5);
  if (a != b) std::puts("differs");
  return a != b;
}
'''})
seed('c13_less_slack', 'C13', 'a system allocator that returns an address that is not a multiple of 16',
     'the allocation assumes 16-byte alignment of new[] and reserves too little for the shift, so alloc fails',
     [('src/aligned_allocator.hpp', 'sizeof(T) * size + alignment; //', 'sizeof(T) * size + (alignment > 16 ? alignment - 16 : 0); //')],
     RUN, [], {'demo.cpp': r'''
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <new>
void *operator new[](std::size_t n) { char *p = (char *)std::aligned_alloc(64, (n + 127) / 64 * 64); return p + 8; }
void operator delete[](void *p) noexcept { std::free((char *)p - 8); }
void operator delete[](void *p, std::size_t) noexcept { std::free((char *)p - 8); }
#include "aligned_allocator.hpp"
int main() {
  alignment::aligned_allocator a;
  double *d = a.alloc<double>(7, 64);
  if (!d || (std::uintptr_t)d % 64) { std::puts("not aligned"); return 1; }
  return 0;
}
'''})
seed('c13_free_aligned', 'C13', 'a system allocator whose address needs a shift to reach the alignment',
     'the destructor releases the aligned pointer instead of the one that was allocated',
     [('src/aligned_allocator.hpp', '      delete[] data;\n', '      delete[] static_cast<char *>(p);\n')],
     RUN, [], {'demo.cpp': r'''
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <new>
static void *given, *freed;
void *operator new[](std::size_t n) { char *p = (char *)std::aligned_alloc(64, (n + 127) / 64 * 64); return given = p + 16; }
void operator delete[](void *p) noexcept { freed = p; }
void operator delete[](void *p, std::size_t) noexcept { freed = p; }
#include "aligned_allocator.hpp"
int main() {
  { alignment::aligned_allocator a; a.alloc<double>(4, 64); }
  if (given != freed) std::puts("released something else");
  return given != freed;
}
'''})
O = 'otherExperiments/'
ORUN = '$CXX -fopenmp -mavx2 -mfma -I"$PWD/otherExperiments" -o "$T/demo" "$D/demo.cpp" %s || exit 0\n"$T/demo"'
seed('c14_static_scratch', 'C14', 'two OpenMP threads working on blocks at the same time',
     'the copy of the block of B is shared by the threads of "exchanged"',
     [(O + 'multExchanged.cpp', '\tdouble BB[BLOCKSIZEY * KCHUNK];\n', '\tstatic double BB[BLOCKSIZEY * KCHUNK]; // too large for the stack\n')],
     ORUN % '"$PWD/otherExperiments/multExchanged.cpp"', ['mats.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include "mult.hpp"
int main() {
  const size_t n = 512;
  Mat a = gen(n, 1), b = gen(n, 2), r = mul(n, a, b, false);
  double *A = (double *)std::aligned_alloc(64, n * n * 8), *B = (double *)std::aligned_alloc(64, n * n * 8), *C = (double *)std::aligned_alloc(64, n * n * 8);
  for (size_t i = 0; i < n * n; i++) A[i] = a[i], B[i] = b[i];
  auto t0 = std::chrono::steady_clock::now();
  while (std::chrono::steady_clock::now() - t0 < std::chrono::seconds(40)) {
    for (size_t i = 0; i < n * n; i++) C[i] = 0;
    multExchanged(A, B, C, n);
    if (differ("2 threads", Mat(C, C + n * n), r)) return 1;
  }
  return 0;
}
'''})
seed('c14_blocked_pairs', 'C14', 'a size that is a multiple of 2 but not of 4',
     '"blocked2" walks the dot product in steps of four and drops or exceeds the tail',
     [(O + 'multBlocked.cpp', '''      for (size_t k = 0; k < n; k += 1) {
	//REMARK: does vectorize with clang (and with gcc (but unclear output with gcc))
	result1 += A[i * n + k] * B[j * n + k];

''', '''      const size_t stop = n - n % 4;
      for (size_t k = 0; k < stop; k += 1) {
	//REMARK: does vectorize with clang (and with gcc (but unclear output with gcc))
	result1 += A[i * n + k] * B[j * n + k];

''')], ORUN % '"$PWD/otherExperiments/multBlocked.cpp"', ['mats.hpp'], {'demo.cpp': r'''
#include "mats.hpp"
#include <cstdint>
#include <cstdlib>
#include "mult.hpp"
int main() {
  const size_t n = 6;
  Mat a = gen(n, 1), b = gen(n, 2), r = mul(n, a, b, true);
  alignas(64) static double A[36], B[36], C[36];
  for (size_t i = 0; i < n * n; i++) A[i] = a[i], B[i] = b[i];
  multBlocked2(A, B, C, n);
  return differ("n=6", Mat(C, C + n * n), r);
}
'''})
EQ = '                             if (std::abs(first - second) < 1E-10) {\n'
seed('c15_relative_check', 'C15', 'a wrong result whose error is small compared to the entry or to 1',
     'the check compares with a relative tolerance that lets absolute errors above 1E-10 pass',
     [(APP, EQ, '                             if (std::abs(first - second) <\n                                 1E-10 * std::max(1.0, N * std::abs(second))) {\n')],
     'for at in 0 57 200 201 399; do\n  APP_FAULT="$at 3e-10" app --n-value=20 --check=1 --algorithm=looped\n  if says "check passed"; then echo "error not noticed"; exit 1; fi\ndone\nexit 0', ['app.sh', 'appstub.hpp'])
seed('c15_nan_passes', 'C15', 'a result with a NaN', 'the comparison is inverted, so a NaN counts as equal',
     [(APP, EQ + '''                               //								std::cout
                               //<< "true" << std::endl;
                               return true;
                             } else {
                               //								std::cout
                               //<< "false" << std::endl;
                               return false;
                             }
''', '''                             if (std::abs(first - second) >= 1E-10) {
                               return false;
                             }
                             return true;
''')], 'APP_FAULT="3 nan" app --n-value=4 --check=1 --algorithm=semi\nif says "check passed"; then echo "NaN not noticed"; exit 1; fi\nexit 0', ['app.sh', 'appstub.hpp'])
seed('c15_swapped_blocks', 'C15', 'different values for --block-result and --block-input',
     'the two block sizes are exchanged for "looped"',
     [(APP, 'looped::looped m(N, A, B, block_result, block_input);', 'looped::looped m(N, A, B, block_input, block_result);')],
     'app --n-value=8 --check=1 --algorithm=looped --block-result=4 --block-input=2\nsays "called looped 4 2" || { says "called looped" && exit 1; }\nexit 0', ['app.sh', 'appstub.hpp'])
seed('c15_short_result', 'C15', 'an algorithm that returns fewer entries than the product has',
     'the comparison only looks at the entries the result has',
     [(APP, 'std::equal(C.begin(), C.end(), Cref.begin(), Cref.end(),', 'std::equal(C.begin(), C.end(), Cref.begin(),')],
     'APP_SHORT=3 app --n-value=4 --check=1 --algorithm=pseudodynamic\nif says "check passed"; then echo "missing entries not noticed"; exit 1; fi\nexit 0', ['app.sh', 'appstub.hpp'])
seed('c16_dimension_order', 'C16', 'a description with more dimensions than the array',
     'untiling accepts descriptions with surplus dimensions and ignores them',
     [(TA, '''  untiled.resize(tiled.size());
  if (tiling_info.size() != dim) {''', '''  untiled.resize(tiled.size());
  if (tiling_info.size() < dim) {''')], RUN, [], {'demo.cpp': r'''
#include <array>
#include <cstddef>
#include <cstdio>
#include <exception>
#include <vector>
#include "memory_layout/tile_array.hpp"
int main() {
  std::vector<memory_layout::tiling_info_dim> i = {{2, 4}, {2, 4}, {1, 1}};
  std::vector<int> v(16);
  try { memory_layout::undo_tiling<2>(v, i); } catch (std::exception &) { return 0; }
  std::puts("accepted");
  return 1;
}
'''})
seed('c16_static_text', 'C16', 'two exceptions that are alive at the same time',
     'all exceptions share one text buffer',
     [('src/memory_layout/memory_layout_exception.hpp', '''#include <string>
''', '''#include <cstdio>
#include <string>
'''), ('src/memory_layout/memory_layout_exception.hpp', '''  virtual const char* what() const throw() {
''', '''  virtual const char* what() const throw() {
    static char text[256];
    if (message.size() < sizeof(text)) {
      std::snprintf(text, sizeof(text), "%s", message.c_str());
      return text;
    }
''')], RUN, [], {'demo.cpp': r'''
#include "memory_layout/memory_layout_exception.hpp"
#include <cstdio>
#include <string>
int main() {
  memory_layout::memory_layout_exception a("first"), b("second");
  const char *pa = a.what();
  b.what();
  if (std::string(pa).find("first") == std::string::npos) { std::puts("text changed"); return 1; }
  return 0;
}
'''})
seed('c17_unchecked', 'C17', 'a matrix with fewer entries than the stated shape',
     'the transposed print reads beyond the end instead of raising an error',
     [('src/util/util.hpp', '''void print_matrix_transposed_host(size_t N, size_t M, std::vector<T, Alloc> &m) {
  for (std::uint64_t i = 0; i < N; i++) {
    for (std::uint64_t j = 0; j < M; j++) {
      if (j > 0) {
        std::cout << ", ";
      }
      std::cout << m.at(j * N + i);''', '''void print_matrix_transposed_host(size_t N, size_t M, std::vector<T, Alloc> &m) {
  for (std::uint64_t i = 0; i < N; i++) {
    for (std::uint64_t j = 0; j < M; j++) {
      if (j > 0) {
        std::cout << ", ";
      }
      std::cout << m[j * N + i];''')], RUN, ['hpxlite.hpp'], {'demo.cpp': r'''
#include "hpxlite.hpp"
#include <stdexcept>
#include "util/util.hpp"
int main() {
  std::vector<double> m(5);
  try { print_matrix_transposed_host(2, 3, m); } catch (std::out_of_range &) { return 0; }
  return 1;
}
'''})
seed('c17_row_skip', 'C17', 'a rectangular matrix whose rows and columns differ, printed transposed to the HPX stream',
     'the transposed print steps by the wrong side',
     [('src/util/util.hpp', '''template <typename T, typename Alloc> void print_matrix_transposed(size_t N, size_t M, std::vector<T, Alloc> &m) {
  for (std::uint64_t i = 0; i < N; i++) {
    for (std::uint64_t j = 0; j < M; j++) {
      if (j > 0) {
        hpx::cout << ", ";
      }
      hpx::cout << m.at(j * N + i);''', '''template <typename T, typename Alloc> void print_matrix_transposed(size_t N, size_t M, std::vector<T, Alloc> &m) {
  for (std::uint64_t i = 0; i < N; i++) {
    for (std::uint64_t j = 0; j < M; j++) {
      if (j > 0) {
        hpx::cout << ", ";
      }
      hpx::cout << m.at((i * M + j) % N * M + (i * M + j) / N);''')], RUN, ['hpxlite.hpp'], {'demo.cpp': r'''
#include "hpxlite.hpp"
#include <sstream>
#include "util/util.hpp"
int main() {
  std::vector<int> m = {1, 2, 3, 4, 5, 6};
  std::ostringstream o;
  auto *old = std::cout.rdbuf(o.rdbuf());
  try { print_matrix_transposed(2, 3, m); } catch (std::exception &) {}
  std::cout.rdbuf(old);
  return o.str() != "1, 3, 5\n2, 4, 6\n";
}
'''})
BD = r'''
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <new>
#include <sstream>
#include "mult.hpp"
std::size_t shift = 0;
void *operator new[](std::size_t n) { return (char *)std::aligned_alloc(64, (n + 191) / 64 * 64) + shift; }
void operator delete[](void *p) noexcept {}
static int bad = 0, calls = 0;
static void probe(double *A, double *B, double *C, uint32_t n) {
  calls++;
  if ((uintptr_t)A % 64 || (uintptr_t)B % 64 || (uintptr_t)C % 64) bad |= 1;
  for (size_t i = 0; i < (size_t)n * n; i++) if (A[i] != 2 || B[i] != (i / n == i % n) || C[i] != 0) bad |= 2;
  C[(size_t)n * n - 1] = 3, C[0] = 4;
}
void multNaive(double *A, double *B, double *C, const uint32_t n) { probe(A, B, C, n); }
#define S(f) void f(double *A, double *B, double *C, const uint32_t n) { bad |= 4; }
S(multTransposed) S(multCounter) S(multExchanged) S(multBlocked2) S(multBlocked4) S(multASM) S(multGPU) S(multGPUASM) S(multRegister) S(multIntrinLoop)
#define main bench_main
#include "benchmark.cpp"
#undef main
int main() {
  const char *av[] = {"benchmark", "naive", nullptr};
  for (shift = 0; shift < 64; shift += 16) {
    std::ostringstream o;
    auto *old = std::cout.rdbuf(o.rdbuf());
    bench_main(2, (char **)av);
    std::cout.rdbuf(old);
    if (o.str().find("check: 5\n") == std::string::npos) bad |= 8;
    if (bad) { std::printf("bad %d\n", bad); return 1; }
  }
  return calls != 4;
}
'''
BRUN = '$CXX -I"$PWD/otherExperiments" -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo"'
seed('c18_norm_rows', 'C18', 'a result whose entries are not the same above and below the diagonal',
     'the check value only sums the first half of the result, assuming symmetry',
     [(O + 'benchmark.cpp', '''    for (size_t j = 0; j < n; j++) {
      check += C[i * n + j] * C[i * n + j];
    }
''', '''    check += C[i * n + i] * C[i * n + i];
    for (size_t j = i + 1; j < n; j++) {
      check += 2 * C[i * n + j] * C[i * n + j]; // symmetric
    }
''')], BRUN.replace('-o', '-DASYM -o'), [], {'demo.cpp': BD.replace('C[(size_t)n * n - 1] = 3', 'C[(size_t)n * (n - 1)] = 3')})
seed('c18_prefix_match', 'C18', 'an implementation name that is a prefix of another, or a truncated name',
     'names are compared by prefix, so "blocked" or an abbreviation runs an implementation nobody asked for',
     [(O + 'benchmark.cpp', 'if (strcmp(argv[1], "gpu") == 0)', 'if (strncmp(argv[1], "gpu", 3) == 0)')],
     BRUN, [], {'demo.cpp': BD.replace('S(multGPU) S(multGPUASM)', 'S(multGPU) void multGPUASM(double *A, double *B, double *C, const uint32_t n) { calls++; }').replace('"naive", nullptr', '"gpuasm", nullptr').replace('if (o.str().find("check: 5\\n") == std::string::npos) bad |= 8;', '')})
