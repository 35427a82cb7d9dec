// C20: memory held by the multiplications on the parallel algorithms and on OpenMP
#include "heap.hpp"
#include "reference_kernels/kernel_test.hpp"
#include "reference_kernels/kernel_tiled.hpp"
#include "variants/algorithms.hpp"
#include "variants/combined.hpp"
#include "variants/looped.hpp"
#include "variants/semi.hpp"
#include "common.hpp"
using namespace vp;
static const char *vn[] = {"algorithms", "looped", "semi", "combined", "kernel_tiled", "kernel_test"};

static void once(int v, Operands<double> &o, uint64_t br, uint64_t bi, uint64_t reps, uint64_t verbose) {
  double d = 0;
  if (v == 0) {
    algorithms::algorithms m(o.N, o.A, o.right(), bi, br);
    o.check(vn[v], m.matrix_multiply());
  } else if (v == 1) {
    looped::looped m(o.N, o.A, o.right(), br, bi);
    o.check(vn[v], m.matrix_multiply());
  } else if (v == 2) {
    semi::semi m(o.N, o.A, o.right(), br, bi);
    o.check(vn[v], m.matrix_multiply());
  } else if (v == 3) {
    combined::combined m(o.N, o.A, o.right(), reps, verbose);
    m.matrix_multiply(d), m.matrix_multiply(d);
  } else if (v == 4) {
    kernel_tiled::kernel_tiled m(o.N, o.A, o.right(), false, reps, verbose);
    m.matrix_multiply(d), m.matrix_multiply(d);
  } else {
    kernel_test::kernel_test m(o.N, o.A, o.right(), false, reps, verbose);
    m.matrix_multiply();
  }
}
static void run(int v, size_t N, size_t N2, uint64_t br, uint64_t bi, uint64_t reps, uint64_t verbose, int threads, mc::Opts o) {
  mc::env().omp_threads = threads;
  mc::explore(strf("%s N=%zu,%zu block_result=%lu block_input=%lu repetitions=%lu verbose=%lu threads=%d", vn[v], N, N2, br, bi, reps, verbose, threads), o, [=] {
    Operands<double> a(N, v < 3, P_GEN, 0), b(N2, v < 3, P_GEN, 1);
    heap::growth(vn[v], [&] {
      once(v, a, br, bi, reps, verbose);
      if (N2 != N) once(v, b, br, bi, reps, verbose);
    }, N > 200 ? 3 : 6);
  });
  mc::env().omp_threads = 2;
}
static void enumerate() {
  bool th = mc::tier_thorough();
  mc::Opts o, one;
  o.policies = one.policies = 3;
  o.cap = th ? 400 : 20;
  one.cap = 1;
  for (int v = 0; v < 3; v++)
    for (size_t N = 1; N <= 12; N++)
      for (uint64_t br : {1, 2, 4})
        for (uint64_t bi : {1, 3, 8}) run(v, N, N + 3, br, bi, 1, 0, 2, N <= 4 ? o : one);
  for (int v = 0; v < 3; v++) run(v, 64, 65, 16, 32, 1, 0, 2, one), run(v, 70, 33, 64, 64, 1, 0, 2, one);
  one.policies = th ? 3 : 1;
  for (int v = 3; v < 5; v++)
    for (uint64_t reps : {0, 1, 2})
      for (uint64_t verbose : {0, 1, 2})
        for (int t : {1, 3}) {
          run(v, 1, 2, 4, 4, reps, verbose, t, one), run(v, 5, 16, 4, 4, reps, verbose, t, one);
          if (!verbose && reps) run(v, 65, 130, 4, 4, reps, verbose, t, one);
        }
  for (int v = 3; v < 5; v++) run(v, 257, 128, 4, 4, 1, 0, 2, one);
  for (uint64_t reps : {1, 2}) run(5, 512, 512, 4, 4, reps, 0, 2, one);
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
