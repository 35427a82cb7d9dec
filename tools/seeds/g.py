COMPS = '"$PWD/src/variants/components/recursive.cpp"'
RUN = '$CXX -o "$T/demo" "$D/demo.cpp" %s || exit 0\n"$T/demo" > "$T/out"; r=$?; tail -n 3 "$T/out"; exit $r'
HEAP = r'''
#include <cstdlib>
#include <malloc.h>
#include <new>
static long long held = 0;
void *operator new(std::size_t n) {
  void *p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  held += (long long)malloc_usable_size(p);
  return p;
}
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept {
  if (p) held -= (long long)malloc_usable_size(p);
  std::free(p);
}
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }
template <typename F> static bool grows(F f) {
  for (int i = 0; i < 3; i++) f();
  for (int i = 0; i < 5; i++) {
    long long b = held;
    f();
    if (held <= b) return false;
  }
  std::printf("every call keeps memory\n");
  return true;
}
'''
seed('c20_rejected', 'C20', 'a description that is rejected',
     'the table of the tile counts is not released when make_tiled rejects its description',
     [('src/memory_layout/tile_array.hpp', '''  std::vector<T, U> tiled;
  tiled.resize(org.size());
  if (tiling_info.size() != dim) {
    throw memory_layout_exception(
        "tiling_info doesn't match specified dimension");
  }

  std::array<size_t, dim> tile_index;
  detail::tile_dim<dim, 0>(tiled, org, tiling_info, tile_index);

''', '''  // number of cells before the tiles of each direction
  size_t *cells = new size_t[tiling_info.size()];
  size_t needed = 1;
  for (size_t d = 0; d < tiling_info.size(); d++) {
    needed *= tiling_info[d].stride;
    cells[d] = needed;
  }
  std::vector<T, U> tiled;
  tiled.resize(org.size());
  if (tiling_info.size() != dim) {
    throw memory_layout_exception(
        "tiling_info doesn't match specified dimension");
  }

  std::array<size_t, dim> tile_index;
  if (cells[dim - 1] > 0) {
    detail::tile_dim<dim, 0>(tiled, org, tiling_info, tile_index);
  }
  delete[] cells;

''')], RUN % '', [], {'demo.cpp': '#include <cstdio>\n' + HEAP + r'''
#include <vector>
#include "memory_layout/tile_array.hpp"
int main() {
  std::vector<double> m(64);
  std::vector<memory_layout::tiling_info_dim> two(2), three(3);
  for (auto &i : two) i.tile_size_dir = 4, i.stride = 8;
  for (auto &i : three) i.tile_size_dir = 2, i.stride = 4;
  bool a = grows([&] { memory_layout::make_tiled<2>(m, two); });
  bool b = grows([&] {
    try {
      memory_layout::make_tiled<2>(m, three);
    } catch (const std::exception &) {}
  });
  return a || b;
}
'''})
seed('c20_kept_components', 'C20', 'more than one distributed multiplication in a process',
     'the components of all distributed multiplications are kept until the process ends',
     [('src/variants/static_improved.cpp', '  std::vector<hpx::components::client<recursive>> recursives;\n',
       '  // outlives the tasks\n  static std::vector<hpx::components::client<recursive>> recursives;\n')],
     RUN % (COMPS + ' "$PWD/src/variants/components/multiplier.cpp" "$PWD/src/variants/static_improved.cpp"'), ['mats.hpp', 'hpxlite.hpp'], {'demo.cpp': '#include <cstdio>\n' + HEAP + r'''
#include "mats.hpp"
#include "hpxlite.hpp"
#include "variants/static_improved.hpp"
int main() {
  Mat A = gen(4, 1), B = gen(4, 2);
  return grows([&] {
    multiply_components::static_improved m(4, A, B, true, 2, 2, 1, 0, 0.1, 1, 0);
    m.matrix_multiply();
  });
}
'''})
seed('c20_exception_text', 'C20', 'an exception',
     'the text of an exception is never released',
     [('src/util/matrix_multiplication_exception.hpp', '''private:
  std::string message;
''', '''private:
  // copies share the text
  const std::string *message;
'''), ('src/util/matrix_multiplication_exception.hpp', ''': message(std::string("matrix_multiplication_exception: ") + message) {''', ''': message(new std::string("matrix_multiplication_exception: " + message)) {'''),
      ('src/util/matrix_multiplication_exception.hpp', 'return message.c_str();', 'return message->c_str();')],
     RUN % '', [], {'demo.cpp': '#include <cstdio>\n' + HEAP + r'''
#include "util/matrix_multiplication_exception.hpp"
int main() {
  return grows([] {
    try {
      throw util::matrix_multiplication_exception("the matrix is too small");
    } catch (const std::exception &) {}
  });
}
'''})
FAIL = r'''
#include <cstdio>
#include <new>
#include "mats.hpp"
#include "hpxlite.hpp"
#include "variants/components/multiplier.hpp"
static long left = -1; // computations until one fails
std::vector<double> multiply_components::multiplier::calculate_submatrix(std::uint64_t x, std::uint64_t y, size_t n) {
  if (left >= 0 && left-- == 0) throw std::bad_alloc();
  std::vector<double> C(n * n);
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++)
      for (size_t k = 0; k < N; k++) C[i * n + j] += A[(x + i) * N + k] * (transposed ? B[(y + j) * N + k] : B[k * N + y + j]);
  return C;
}
template <typename F> static int try_all(F multiply, const Mat &want) {
  for (long k = -1; k < 12; k++) {
    left = k;
    Mat C;
    try {
      C = multiply();
    } catch (const std::exception &) { continue; }
    if (differ("no error", C, want)) {
      std::printf("computation %ld failed\n", k);
      return 1;
    }
  }
  return 0;
}
'''
seed('c21_leaf_zero', 'C21', 'a block whose computation fails',
     'a block that could not be computed is left at zero',
     [('src/variants/components/recursive.cpp', '''    return f.get();
''', '''    try {
      return f.get();
    } catch (const std::exception &e) {
      std::cout << "block (" << x << ", " << y << ") failed: " << e.what()
                << std::endl;
      return std::vector<double>(blockSize * blockSize);
    }
''')], RUN % (COMPS + ' "$PWD/src/variants/single.cpp"'), ['mats.hpp', 'hpxlite.hpp'], {'demo.cpp': FAIL + r'''
#include "variants/single.hpp"
int main() {
  Mat A = gen(2, 1), B = gen(2, 2);
  return try_all([&] { return single::single(2, A, B, true, 2, 2, 1, 0).matrix_multiply(); }, mul(2, A, B, true));
}
'''})
seed('c21_last_good', 'C21', 'a failure in the first of several repetitions or in the only one',
     'the error of a repetition is dropped, and the result of the one before (or zeros) is returned',
     [('src/variants/single.cpp', '''    C = f.get();
''', '''    // keep the last result that could be computed
    f.wait();
    if (!f.has_exception()) {
      C = f.get();
    }
''')], RUN % (COMPS + ' "$PWD/src/variants/single.cpp"'), ['mats.hpp', 'hpxlite.hpp'], {'demo.cpp': FAIL + r'''
#include "variants/single.hpp"
int main() {
  Mat A = gen(2, 1), B = gen(2, 2);
  return try_all([&] { return single::single(2, A, B, true, 2, 2, 1, 0).matrix_multiply(); }, mul(2, A, B, true));
}
'''})
seed('c21_lost_package', 'C21', 'a package that fails on its node',
     'a package that could not be computed is skipped when the result is put together',
     [('src/variants/static_improved.cpp', '''            f.then(hpx::util::unwrapped([=](std::vector<double> submatrix) {
              this->insert_submatrix(submatrix, w);
            }));
''', '''            f.then([=](hpx::future<std::vector<double>> submatrix) {
              if (submatrix.has_exception()) {
                return; // nothing to insert
              }
              this->insert_submatrix(submatrix.get(), w);
            });
''')], RUN % (COMPS + ' "$PWD/src/variants/static_improved.cpp"'), ['mats.hpp', 'hpxlite.hpp'], {'demo.cpp': FAIL + r'''
#include "variants/static_improved.hpp"
int main() {
  Mat A = gen(4, 1), B = gen(4, 2);
  hpxlite::localities() = 3;
  return try_all([&] { return multiply_components::static_improved(4, A, B, true, 2, 2, 1, 0, 0.1, 1, 0).matrix_multiply(); }, mul(4, A, B, true));
}
'''})
