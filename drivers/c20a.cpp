// C20: memory held by the helpers and the reference multiplications
#include "tiling.hpp"
#include "heap.hpp"
#include "aligned_allocator.hpp"
#include "reference_kernels/kernel.hpp"
#include "reference_kernels/naive.hpp"
#include "util/create_identity_matrix.hpp"
#include "util/create_random_matrix.hpp"
#include "util/matrix_multiplication_exception.hpp"
#include "util/pattern_matrices.hpp"
#include "util/transpose_matrix.hpp"
using namespace vp;

template <typename T> struct Make {
  static T make(size_t i) { return (T)(i * 3 + 1); }
};
template <> struct Make<std::string> {
  static std::string make(size_t i) { return strf("entry number %zu, too long to be stored inside", i); }
};
template <typename V> static V filled(size_t n) {
  V v;
  v.reserve(n);
  for (size_t i = 0; i < n; i++) v.push_back(Make<typename V::value_type>::make(i));
  return v;
}
template <size_t dim, typename V> static void tiling(const Shape &s, const char *tn) {
  typedef typename V::value_type T;
  mc::single(strf("tiling %s %s", tn, s.str().c_str()), [=] {
    V org = filled<V>(s.cells()), want(org.size());
    auto info = s.info();
    auto from = tiled_order(s);
    for (size_t k = 0; k < org.size(); k++) want[k] = org[from[k]];
    V tiled = want;
    heap::refusals("make_tiled " + s.str(), [&] { V r = memory_layout::make_tiled<dim>(org, info); }, [&] { return memory_layout::make_tiled<dim>(org, info) == want; });
    heap::refusals("undo_tiling " + s.str(), [&] { V r = memory_layout::undo_tiling<dim>(tiled, info); }, [&] { return memory_layout::undo_tiling<dim>(tiled, info) == org; });
    auto read = [&] {
      V r;
      r.reserve(tiled.size());
      memory_layout::iterate_tiles<dim>(tiled, info, [&](auto view) {
        for (size_t i = 0; i < s.tile_cells(); i++) r.push_back(view[i]);
      });
      return r == want;
    };
    heap::refusals("iterate_tiles " + s.str(), [&] { read(); }, read);
    heap::refusals("iterate_tiles, function that throws " + s.str(), [&] {
      try {
        memory_layout::iterate_tiles<dim>(tiled, info, [&](auto) { throw 1; });
      } catch (int) {}
    }, read);
    auto wrong = info;
    for (int more = 0; more < 2; more++) {
      wrong = info;
      if (more) wrong.push_back(wrong[0]);
      else wrong.pop_back();
      for (int undo = 0; undo < 2; undo++)
        heap::refusals(strf("%s with %zu dimensions instead of %zu", undo ? "undo_tiling" : "make_tiled", wrong.size(), dim), [&] {
          try {
            if (undo) memory_layout::undo_tiling<dim>(tiled, wrong);
            else memory_layout::make_tiled<dim>(org, wrong);
          } catch (const memory_layout::memory_layout_exception &) {}
        }, read);
    }
    (void)sizeof(T);
  });
}
template <size_t dim> static void tilings(const Shape &s) {
  tiling<dim, std::vector<double>>(s, "double");
  tiling<dim, std::vector<std::string>>(s, "std::string");
  tiling<dim, std::vector<float, boost::alignment::aligned_allocator<float, 64>>>(s, "aligned float");
}
template <typename T> static void matrices(const char *tn, size_t N) {
  mc::single(strf("matrices %s N=%zu", tn, N), [=] {
    heap::refusals("create_identity_matrix", [&] { util::create_identity_matrix<T>(N); }, [&] { return util::create_identity_matrix<T>(N).size() == N * N; });
    heap::refusals("create_random_matrix", [&] { util::create_random_matrix<T>(N); }, [&] { return util::create_random_matrix<T>(N).size() == N * N; });
    heap::refusals("create_enumerating_matrix", [&] { util::create_enumerating_matrix<T>(N); }, [&] { return util::create_enumerating_matrix<T>(N).size() == N * N; });
  });
}
template <typename V> static void transposes(const char *tn, size_t N, size_t M) {
  mc::single(strf("transpose %s %zux%zu", tn, N, M), [=] {
    V o = filled<V>(N * M), want(N * M);
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < M; j++) want[i * M + j] = o[j * N + i];
    heap::refusals("transpose_matrix", [&] { util::transpose_matrix(N, M, o); }, [&] { return util::transpose_matrix(N, M, o) == want; });
    heap::refusals("transpose_matrix, twice", [&] { util::transpose_matrix(M, N, util::transpose_matrix(N, M, o)); }, [&] { return util::transpose_matrix(M, N, util::transpose_matrix(N, M, o)) == o; });
  });
}
template <typename T> static void square(const char *tn, size_t N) {
  mc::single(strf("transpose %s %zu", tn, N), [=] {
    auto o = filled<std::vector<T>>(N * N);
    heap::refusals("transpose_matrix", [&] { util::transpose_matrix(N, o); }, [&] { return util::transpose_matrix(N, util::transpose_matrix(N, o)) == o; });
  });
}
template <typename E> static void exceptions(const char *en, size_t length) {
  mc::single(strf("%s, message of %zu characters", en, length), [=] {
    std::string msg(length, 'x');
    std::string text = E(msg).what();
    auto good = [&] {
      try {
        throw E(msg);
      } catch (const std::exception &e) { return text == e.what(); }
    };
    heap::refusals("construction", [&] { E e(msg); }, good);
    heap::refusals("throwing", [&] {
      try {
        throw E(msg);
      } catch (const E &) {}
    }, good);
    heap::growth("copies", [&] {
      E a(msg), b(a), c("other");
      c = b;
      b = E("third");
      std::exception_ptr p = std::make_exception_ptr(c);
      if (text != c.what()) mc::fail("the text of a copy is \"%s\"", c.what());
    });
  });
}
static void allocators(size_t count, size_t al) {
  mc::single(strf("aligned_allocator count=%zu alignment=%zu", count, al), [=] {
    auto use = [=] {
      alignment::aligned_allocator a, unused;
      double *p = a.alloc<double>(count, al);
      for (size_t i = 0; i < count; i++) p[i] = i;
      return (uintptr_t)p % al == 0;
    };
    heap::refusals("aligned_allocator", use, use);
  });
}
static void naive(size_t N, int threads, mc::Opts o) {
  mc::env().omp_threads = threads;
  mc::explore(strf("naive N=%zu threads=%d", N, threads), o, [=] {
    Operands<double> a(N, false, P_GEN), b(N, true, P_GEN);
    heap::growth("naive_matrix_multiply", [&] { a.check("naive_matrix_multiply", naive_matrix_multiply(N, a.A, a.B)); });
    heap::growth("naive_matrix_multiply_transposed", [&] { b.check("naive_matrix_multiply_transposed", naive_matrix_multiply_transposed(N, b.A, b.B)); });
  });
  mc::env().omp_threads = 2;
}
static void kernels(size_t N, size_t bs) {
  mc::single(strf("kernels N=%zu block=%zu", N, bs), [=] {
    Operands<double> a(N, false, P_GEN), b(N, true, P_GEN);
    std::vector<double> C(bs * bs);
    heap::growth("kernel", [&] { kernel::kernel(a.A, a.B, C, N, 0, 0, bs); });
    heap::growth("kernel_transposed", [&] { kernel::kernel_transposed(b.A, b.B, C, N, 0, 0, bs); });
    if (bs % 4 == 0) heap::growth("kernel_transposed_blocked", [&] { kernel::kernel_transposed_blocked(b.A, b.B, C, N, 0, 0, bs, 4); });
  });
}
static void enumerate() {
  bool th = mc::tier_thorough();
  mc::Opts o;
  o.policies = 3;
  o.cap = th ? 200 : 20;
  for (size_t N = 0; N <= (th ? 24 : 12); N++)
    for (int t = 1; t <= 4; t++) naive(N, t, o);
  for (size_t N : {33, 64, 100}) naive(N, 4, o);
  for (size_t bs : {1, 2, 4, 5, 8}) for (size_t N = bs; N <= 12; N++) kernels(N, bs);
  for (size_t N : {0, 1, 2, 3, 5, 8, 16, 40, 100}) {
    matrices<double>("double", N), matrices<float>("float", N), matrices<int>("int", N);
    square<double>("double", N);
    if (N <= 8) square<std::string>("std::string", N);
    for (size_t M : {0, 1, 2, 4, 7}) {
      transposes<std::vector<double>>("double", N, M);
      transposes<std::vector<float, boost::alignment::aligned_allocator<float, 64>>>("aligned float", N, M);
      if (N <= 8) transposes<std::vector<std::string>>("std::string", N, M);
    }
  }
  for (size_t n = 0; n <= 3; n++)
    for (auto &a : sides(0, th ? 12 : 8)) tilings<1>({{a.first}, {a.second}});
  for (auto &a : sides(0, 4))
    for (auto &b : sides(1, 4)) tilings<2>({{a.first, b.first}, {a.second, b.second}});
  for (auto &a : sides(1, th ? 4 : 2))
    for (auto &b : sides(1, 3))
      for (auto &c : sides(1, 2)) tilings<3>({{a.first, b.first, c.first}, {a.second, b.second, c.second}});
  for (auto &a : sides(1, 2))
    for (auto &b : sides(1, 2))
      for (auto &c : sides(1, 2)) tilings<4>({{2, a.first, b.first, c.first}, {1, a.second, b.second, c.second}});
  for (size_t l : {0, 1, 10, 15, 16, 100, 5000}) {
    exceptions<util::matrix_multiplication_exception>("matrix_multiplication_exception", l);
    exceptions<memory_layout::memory_layout_exception>("memory_layout_exception", l);
  }
  for (size_t c : {0, 1, 2, 7, 64, 1000})
    for (size_t al = 8; al <= 4096; al *= 2) allocators(c, al);
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
