RUN = '$CXX -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo"'
NV = 'src/reference_kernels/naive.hpp'
KN = 'src/reference_kernels/kernel.hpp'
LN = 'src/memory_layout/loop_nest.hpp'
TA = 'src/memory_layout/tile_array.hpp'
TV = 'src/memory_layout/tile_view.hpp'
TM = 'src/util/transpose_matrix.hpp'
AA = 'src/aligned_allocator.hpp'
X = 'otherExperiments/'
TWICE = '''  std::vector<T> C(N * N);
#pragma omp parallel for
  for (uint64_t i = 0; i < N; i++) {
    for (uint64_t j = 0; j < N; j++) {
      T result_component = 0.0;
      for (uint64_t k = 0; k < N; k++) {
        result_component += A.at(i * N + k) * B.at(j * N + k);
      }
      C.at(i * N + j) = result_component;
    }
  }
'''
seed('c01_team_size', 'C01', 'a call from inside a parallel region, where the team is smaller than omp_get_max_threads()',
     'the rows are divided among the threads that could be had instead of those of the team, so rows are left out',
     [(NV, TWICE, '''  std::vector<T> C(N * N);
#ifdef _OPENMP
  const uint64_t threads = omp_get_max_threads();
#else
  const uint64_t threads = 1;
#endif
  const uint64_t rows = (N + threads - 1) / threads;
#pragma omp parallel
  {
#ifdef _OPENMP
    const uint64_t first = rows * omp_get_thread_num();
#else
    const uint64_t first = 0;
#endif
    for (uint64_t i = first; i < N && i < first + rows; i++) {
      for (uint64_t j = 0; j < N; j++) {
        T result_component = 0.0;
        for (uint64_t k = 0; k < N; k++) {
          result_component += A.at(i * N + k) * B.at(j * N + k);
        }
        C.at(i * N + j) = result_component;
      }
    }
  }
'''), (NV, '#include <vector>\n', '#include <vector>\n#ifdef _OPENMP\n#include <omp.h>\n#endif\n')],
     'export OMP_NUM_THREADS=4 OMP_MAX_ACTIVE_LEVELS=1\n$CXX -fopenmp -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo"', ['mats.hpp'], {'demo.cpp': r'''
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include "mats.hpp"
#include "reference_kernels/naive.hpp"
int main() {
  Mat A = gen(7, 1), B = gen(7, 2), one = naive_matrix_multiply_transposed(7, A, B), in;
#pragma omp parallel
#pragma omp single
  in = naive_matrix_multiply_transposed(7, A, B);
  if (in != one) std::puts("another result inside a parallel region");
  return in != one;
}
'''})
seed('c01_chunk_tail', 'C01', 'N above 256 that is not a multiple of 64',
     'large products are summed in chunks of k, and the last partial chunk is dropped',
     [(NV, '''        result_component += A.at(i * N + k) * B.at(k * N + j);
      }
''', '''        if (N > 256 && k % 64 == 0) {
          // large rows: sum up in chunks to keep the rounding errors small
          T chunk = 0.0;
          for (uint64_t kk = k; kk < k + 64 && k + 64 <= N; kk++) {
            chunk += A.at(i * N + kk) * B.at(kk * N + j);
          }
          result_component += chunk;
          k += 63;
          continue;
        }
        result_component += A.at(i * N + k) * B.at(k * N + j);
      }
''')],
     RUN, [], {'demo.cpp': r'''
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <vector>
#include "reference_kernels/naive.hpp"
int main() {
  for (size_t n : {200, 320, 300}) {
    std::vector<double> A(n * n, 1), B(n * n, 2);
    for (double c : naive_matrix_multiply(n, A, B)) if (c != 2.0 * n) { std::printf("N=%zu: %g\n", n, c); return 1; }
  }
  return 0;
}
'''})
seed('c02_double_sum', 'C02', 'integer elements beyond 2^53',
     'the plain kernel adds up in double whatever the element type',
     [(KN, '''        T result_component = 0.0;
        for (uint64_t k = 0; k < N; k++) {
          result_component += A.at((x''', '''        double result_component = 0.0;
        for (uint64_t k = 0; k < N; k++) {
          result_component += A.at((x''')],
     RUN, [], {'demo.cpp': r'''
#include <cstdint>
#include <cstdio>
#include "reference_kernels/kernel.hpp"
int main() {
  std::vector<int64_t> A = {(1ll << 53) + 1, 0, 0, 1}, B = {1, 0, 0, 1}, C(4);
  kernel::kernel<int64_t>(A, B, C, 2, 0, 0, 2);
  if (C[0] != A[0]) std::puts("not exact");
  return C[0] != A[0];
}
'''})
seed('c02_chunk_stride', 'C02', 'an input chunk longer than the matrix',
     'the buffers are only as long as the matrix is wide, but are indexed with the input chunk size',
     [(KN, '''  std::vector<T, boost::alignment::aligned_allocator<T, 32>> B_small(
      block_input * block_result);
''', '''  std::vector<T, boost::alignment::aligned_allocator<T, 32>> B_small(
      std::min(block_input, N) * block_result);
''')],
     '$CXX -fsanitize=address -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo"', ['mats.hpp'], {'demo.cpp': r'''
#include <cstdint>
#include "mats.hpp"
#include "reference_kernels/kernel.hpp"
int main() {
  Mat A = gen(4, 1), B = gen(4, 2), C(16);
  kernel::kernel_transposed_blocked<double>(A, B, C, 4, 0, 0, 4, 50);
  return 0;
}
'''})
seed('c09_short_range', 'C09', 'a range that is shorter than one step',
     'a dimension whose range is shorter than its step is taken as empty',
     [(LN, '''  T partial_index[dim];
''', '''  for (size_t d = 0; d < dim; d++) {
    // nothing to do if a dimension is empty
    if (max[d] <= min[d] || max[d] - min[d] < step[d]) {
      return;
    }
  }
  T partial_index[dim];
''')],
     RUN, [], {'demo.cpp': r'''
#include <array>
#include <cstddef>
#include <cstdio>
#include <type_traits>
#include "memory_layout/loop_nest.hpp"
int main() {
  size_t a[2] = {0, 1}, b[2] = {2, 3}, s[2] = {1, 3};
  int n = 0;
  util::loop_nest<2>(a, b, s, [&](const size_t (&)[2]) { n++; });
  if (n != 2) std::printf("%d calls\n", n);
  return n != 2;
}
'''})
seed('c09_odometer', 'C09', 'three dimensions and a lower bound that is not zero in a middle dimension',
     'counting up like an odometer sets the middle dimensions back to 0 instead of to their lower bound',
     [(LN, '''  std::array<T, dim> partial_index;
  detail::execute_looped<dim, 0>(min, max, step, partial_index, f);
''', '''  std::array<T, dim> index = min;
  for (size_t d = 0; d < dim; d++) {
    if (!(min[d] < max[d])) {
      return;
    }
  }
  while (true) {
    f(index);
    size_t d = dim - 1;
    index[d] += step[d];
    while (d > 0 && !(index[d] < max[d])) {
      index[d] = d == dim - 1 ? min[d] : T();
      d--;
      index[d] += step[d];
    }
    if (!(index[0] < max[0])) {
      return;
    }
  }
''')],
     RUN, [], {'demo.cpp': r'''
#include <array>
#include <cstddef>
#include <cstdio>
#include <type_traits>
#include "memory_layout/loop_nest.hpp"
int main() {
  std::array<size_t, 3> a = {{0, 2, 0}}, b = {{3, 4, 2}}, s = {{1, 1, 1}};
  int n = 0, low = 0;
  util::loop_nest(a, b, s, [&](const std::array<size_t, 3> &i) { n++, low += i[1] < 2; });
  if (n != 12 || low) std::printf("%d calls, %d below the bound\n", n, low);
  return n != 12 || low;
}
'''})
seed('c10_moved_cells', 'C10', 'elements that own memory',
     'undoing the tiling moves the elements out of the tiled array',
     [(TA, 'untiled[flat_outer_index] = view[inner_index];', 'untiled[flat_outer_index] = std::move(view[inner_index]);')],
     RUN, [], {'demo.cpp': r'''
#include <array>
#include <cstddef>
#include <cstdio>
#include <string>
#include <vector>
#include "memory_layout/tile_array.hpp"
int main() {
  std::vector<memory_layout::tiling_info_dim> i = {{2, 4}, {2, 4}};
  std::vector<std::string> v(16, std::string(50, 'x'));
  auto t = memory_layout::make_tiled<2>(v, i), k = t;
  auto u = memory_layout::undo_tiling<2>(t, i);
  if (t != k) std::puts("input changed");
  return t != k || u != v;
}
'''})
seed('c10_band', 'C10', 'three or more dimensions of which only one, not the first, is divided into several tiles',
     'the array is taken as unchanged by the tiling as soon as only one dimension has more than one tile, which is true only for the first',
     [(TA, '''  std::array<size_t, dim> tile_index;
  detail::tile_dim<dim, 0>(tiled, org, tiling_info, tile_index);
''', '''  // nothing to rearrange if only one dimension is divided
  size_t divided = 0;
  for (size_t d = 0; d < dim; d++) {
    if (tiling_info[d].tile_size_dir != tiling_info[d].stride) {
      divided++;
    }
  }
  if (dim > 2 && divided < 2) {
    tiled = org;
    return tiled;
  }

  std::array<size_t, dim> tile_index;
  detail::tile_dim<dim, 0>(tiled, org, tiling_info, tile_index);
''')],
     RUN, [], {'demo.cpp': r'''
#include <array>
#include <cstddef>
#include <cstdio>
#include <vector>
#include "memory_layout/tile_array.hpp"
int main() {
  std::vector<memory_layout::tiling_info_dim> i = {{2, 2}, {2, 2}, {2, 4}};
  std::vector<int> v(16);
  for (int k = 0; k < 16; k++) v[k] = k;
  auto t = memory_layout::make_tiled<3>(v, i);
  if (t[2] != 4) std::printf("third cell %d\n", t[2]);
  return t[2] != 4;
}
'''})
seed('c11_borrowed_info', 'C11', 'a view that outlives the description it was made from',
     'the view refers to the description it was given, which is gone after the constructor',
     [(TV, '  std::vector<tiling_info_dim> tiling_info;\n  size_t tile_size;', '  const std::vector<tiling_info_dim> &tiling_info;\n  size_t tile_size;'),
      (TV, '            std::vector<tiling_info_dim> tiling_info)\n', '            const std::vector<tiling_info_dim> &tiling_info)\n')],
     '$CXX -fsanitize=address -o "$T/demo" "$D/demo.cpp" || exit 0\n"$T/demo"', [], {'demo.cpp': r'''
#include <array>
#include <cstddef>
#include <cstdio>
#include <vector>
#include "memory_layout/tile_array.hpp"
static memory_layout::tile_view<2, int, std::allocator<int>> second(std::vector<int> &v) {
  std::vector<memory_layout::tiling_info_dim> i = {{2, 4}, {2, 4}};
  size_t at[2] = {0, 1};
  return memory_layout::tile_view<2, int, std::allocator<int>>(v, at, i);
}
int main() {
  std::vector<int> v(16);
  v[7] = 7;
  auto w = second(v);
  return w(1, 1) != 7;
}
'''})
seed('c12_in_place', 'C12', 'using the matrix after it was transposed',
     'the matrix is transposed in place',
     [(TM, '''std::vector<T> transpose_matrix(size_t N, std::vector<T> org) {

  std::vector<T> m(N * N);

  for (size_t i = 0; i < N; i++) {
    for (size_t j = 0; j < N; j++) {
      m[i * N + j] = org[j * N + i];
    }
  }

  return m;''', '''std::vector<T> transpose_matrix(size_t N, std::vector<T> &org) {

  for (size_t i = 0; i < N; i++) {
    for (size_t j = 0; j < i; j++) {
      std::swap(org[i * N + j], org[j * N + i]);
    }
  }

  return org;''')],
     RUN, [], {'demo.cpp': r'''
#include <cstddef>
#include <cstdio>
#include <vector>
#include "util/transpose_matrix.hpp"
int main() {
  std::vector<double> m = {1, 2, 3, 4}, k = m, w = {1, 3, 2, 4};
  auto t = util::transpose_matrix<double>(2, m);
  if (m != k) std::puts("input changed");
  return m != k || t != w;
}
'''})
seed('c13_posix', 'C13', 'an alignment below the size of a pointer',
     'posix_memalign refuses alignments below 8, so that no memory is returned for them',
     [(AA, '    size_t size_bytes = sizeof(T) * size + alignment; // sizeof(char) = 1 byte\n    data = new char[size_bytes];\n    p = data;\n    p = std::align(alignment, sizeof(T) * size, p, size_bytes);\n',
           '    if (posix_memalign(&p, alignment, sizeof(T) * size)) {\n      p = nullptr;\n    }\n    data = static_cast<char *>(p);\n'),
      (AA, '      delete[] data;\n', '      free(data);\n'), (AA, '#include <memory>\n', '#include <cstdlib>\n#include <memory>\n')],
     RUN, [], {'demo.cpp': r'''
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include "aligned_allocator.hpp"
int main() {
  const size_t als[] = {1, 2, 4, 8, 64};
  for (size_t al : als) {
    alignment::aligned_allocator a;
    char *c = a.alloc<char>(5, al);
    if (!c) { std::printf("nothing for alignment %zu\n", al); return 1; }
    for (int i = 0; i < 5; i++) c[i] = i;
  }
  return 0;
}
'''})
seed('c14_preload', 'C14', 'the last row, where the entry after the row lies behind the matrix',
     'the software-pipelined loop loads one entry behind the end of the matrix',
     [(X + 'multTransposed.cpp', '''void multTransposed(double *A, double *B, double *C, const uint32_t n) {
  for (size_t i = 0; i < n; i += 1) {
    for (size_t j = 0; j < n; j += 1) {
      for (size_t k = 0; k < n; k += 1) {
	C[i * n + j] += A[i * n + k] * B[j * n + k];
      }
''', '''void multTransposed(double *A, double *B, double *C, const uint32_t n) {
  for (size_t i = 0; i < n; i += 1) {
    for (size_t j = 0; j < n; j += 1) {
      // load the next entry ahead of time
      volatile double next = B[j * n];
      for (size_t k = 0; k < n; k += 1) {
	double cur = next;
	next = B[j * n + k + 1];
	C[i * n + j] += A[i * n + k] * cur;
      }
''')],
     '$CXX -fsanitize=address -o "$T/demo" "$D/demo.cpp" "$PWD/otherExperiments/multTransposed.cpp" || exit 0\n"$T/demo"', [], {'demo.cpp': r'''
#include <cstdint>
#include <vector>
void multTransposed(double *A, double *B, double *C, const uint32_t n);
int main() {
  std::vector<double> A(25, 1), B(25, 2), C(25);
  multTransposed(A.data(), B.data(), C.data(), 5);
  for (double c : C) if (c != 10) return 1;
  return 0;
}
'''})
seed('c16_cut_text', 'C16', 'a message of more than 100 characters',
     'the text is kept in a buffer of fixed size, so long messages are cut',
     [('src/util/matrix_multiplication_exception.hpp', '  std::string message;\n', '  char message[128];\n'),
      ('src/util/matrix_multiplication_exception.hpp', 'message(std::string("matrix_multiplication_exception: ") + message) {\n', 'message() {\n    snprintf(this->message, sizeof(this->message), "matrix_multiplication_exception: %s", message.c_str());\n'),
      ('src/util/matrix_multiplication_exception.hpp', 'return message.c_str();', 'return message;'),
      ('src/util/matrix_multiplication_exception.hpp', '#include <exception>\n', '#include <cstdio>\n#include <exception>\n')],
     RUN, [], {'demo.cpp': r'''
#include <cstdio>
#include <string>
#include "util/matrix_multiplication_exception.hpp"
int main() {
  for (int n : {0, 10, 500}) {
    std::string m(n, 'm');
    std::string w = util::matrix_multiplication_exception(m).what();
    if (w.size() < (size_t)n || w.substr(w.size() - n) != m) { std::printf("%d characters: %zu\n", n, w.size()); return 1; }
  }
  return 0;
}
'''})
seed('c16_fewer_only', 'C16', 'untiling with a description of too many dimensions',
     'a description with more dimensions than the array is accepted when untiling',
     [(TA, '''  untiled.resize(tiled.size());
  if (tiling_info.size() != dim) {''', '''  untiled.resize(tiled.size());
  if (tiling_info.size() < dim) {''')],
     RUN, [], {'demo.cpp': r'''
#include <array>
#include <cstddef>
#include <cstdio>
#include <vector>
#include "memory_layout/tile_array.hpp"
int main() {
  std::vector<memory_layout::tiling_info_dim> i = {{2, 4}, {2, 4}, {1, 1}};
  std::vector<int> v(16);
  try { memory_layout::undo_tiling<2>(v, i); } catch (const std::exception &) { return 0; }
  std::puts("not rejected");
  return 1;
}
'''})
seed('c18_warm_up', 'C18', 'an implementation that adds to the result',
     'the named implementation is called twice, the first time to warm up the caches',
     [(X + 'benchmark.cpp', '''    for (size_t i = 0; i < iter; i++) {
      multCounter(A, BTransposed, C, n);
    }''', '''    multCounter(A, BTransposed, C, n); // warm up
    for (size_t i = 0; i < iter; i++) {
      multCounter(A, BTransposed, C, n);
    }''')],
     '$CXX -I"$PWD/otherExperiments" -o "$T/demo" "$D/demo.cpp" "$PWD/otherExperiments/benchmark.cpp" || exit 0\n"$T/demo" counter', [], {'demo.cpp': r'''
#include <cstdint>
#include <cstdio>
#include <cstdlib>
static int calls = 0;
#define S(f) void f(double *, double *, double *, const uint32_t) { calls++; }
S(multNaive) S(multTransposed) S(multCounter) S(multExchanged) S(multBlocked2) S(multBlocked4) S(multASM) S(multGPU) S(multGPUASM) S(multRegister) S(multIntrinLoop)
struct Check { ~Check() { if (calls != 1) { std::printf("%d calls\n", calls); std::fflush(stdout); std::_Exit(1); } } } check;
'''})
seed('c18_half_aligned', 'C18', 'memory whose address is 32 beyond a multiple of 64',
     'the transposed B is aligned to 32 bytes only',
     [(X + 'benchmark.cpp', 'align(64, sizeof(double), (void *&) BTransposedUnaligned', 'align(32, sizeof(double), (void *&) BTransposedUnaligned')],
     '$CXX -I"$PWD/otherExperiments" -o "$T/demo" "$D/demo.cpp" "$PWD/otherExperiments/benchmark.cpp" || exit 0\n"$T/demo" transposed', [], {'demo.cpp': r'''
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <new>
void *operator new[](std::size_t n) { return (char *)std::aligned_alloc(64, (n + 191) / 64 * 64) + 32; }
void operator delete[](void *) noexcept {}
#define S(f) void f(double *A, double *B, double *C, const uint32_t) { \
  if ((uintptr_t)A % 64 || (uintptr_t)B % 64 || (uintptr_t)C % 64) { std::puts("not aligned"); std::fflush(stdout); std::_Exit(1); } }
S(multNaive) S(multTransposed) S(multCounter) S(multExchanged) S(multBlocked2) S(multBlocked4) S(multASM) S(multGPU) S(multGPUASM) S(multRegister) S(multIntrinLoop)
'''})
