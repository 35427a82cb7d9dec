// C07: cache-blocked vectorised variants (B stored untransposed)
#include "reference_kernels/kernel_test.hpp"
#include "reference_kernels/kernel_tiled.hpp"
#include "variants/combined.hpp"
#include "common.hpp"
#include <algorithm>
using namespace vp;
enum { COMB, TILED, TEST };
static const char *vn[] = {"combined", "kernel_tiled", "kernel_test"};

static void call(int v, size_t N, uint64_t reps, uint64_t verbose, int pat, size_t salt = 0, int calls = 1) {
  Operands<double> o(N, false, pat, salt);
  double d = 0;
  std::vector<double> C;
  scribble();
  if (v == COMB) {
    combined::combined m(N, o.A, o.right(), reps, verbose);
    for (int i = 0; i < calls; i++) {
      C = m.matrix_multiply(d);
      o.check(strf("%s, call %d", vn[v], i + 1).c_str(), C);
    }
  } else if (v == TILED) {
    kernel_tiled::kernel_tiled m(N, o.A, o.right(), false, reps, verbose);
    for (int i = 0; i < calls; i++) {
      C = m.matrix_multiply(d);
      o.check(strf("%s, call %d", vn[v], i + 1).c_str(), C);
    }
  } else {
    kernel_test::kernel_test m(N, o.A, o.right(), false, reps, verbose);
    for (int i = 0; i < calls; i++) {
      C = m.matrix_multiply();
      o.check(strf("%s, call %d", vn[v], i + 1).c_str(), C);
    }
  }
}
static mc::Opts opt(uint64_t cap, int policies) {
  mc::Opts o;
  o.cap = cap;
  o.policies = policies;
  return o;
}
// kernel_test accesses memory outside its matrices for other sizes, see known_findings.txt
static bool supported(int v, size_t N) { return v != TEST || (N % 4 == 0 && (N + 511) / 512 * 512 < N + 64); }
static void run(int v, size_t N, uint64_t reps, int pat, int threads, long chunk, mc::Opts o, uint64_t verbose = 0, int calls = 1) {
  if (!supported(v, N)) return;
  mc::env().omp_threads = threads;
  mc::env().chunk = chunk;
  mc::explore(strf("%s N=%zu repetitions=%lu %s threads=%d chunk=%ld verbose=%lu calls=%d", vn[v], N, reps, pattern_name(pat), threads, chunk, verbose, calls), o,
              [=] { call(v, N, reps, verbose, pat, 0, calls); });
  mc::env().chunk = 1;
  mc::env().omp_threads = 2;
}
static void enumerate() {
  bool th = mc::tier_thorough(), fast = mc::mode_is("fast"), tsan = mc::mode_is("tsan");
  if (!fast && !tsan && mc::listed())
    for (size_t N : {1, 4, 64, 257, 511}) mc::explore(strf("known: kernel_test N=%zu", N), opt(1, 1), [=] { call(TEST, N, 1, 0, P_GEN); });
  if (tsan) {
    run(TEST, 512, 1, P_GEN, 2, 1, opt(1, 1));
    for (int v = 0; v < 3; v++) {
      run(v, 257, 1, P_GEN, 2, 1, opt(1, 2));
      run(v, 421, 1, P_GEN, 2, 1, opt(1, 1));
      run(v, 421, 1, P_GEN, 3, 2, opt(1, 1));
      run(v, 421, 1, P_GEN, 4, 1, opt(th ? 4 : 1, 2));
      run(v, 16, 2, P_GEN, 2, 1, opt(1, 1), 1, 2);
      if (th) run(v, 513, 2, P_GEN, 4, 1, opt(1, 2));
    }
    return;
  }
  // the most expensive ones first
  if (fast) {
    run(TEST, 1024, 1, P_GEN, 3, 1, opt(1, 1));
    for (size_t N = 452; N < 512; N += th ? 4 : 28) run(TEST, N, 1, P_GEN, 2, 1, opt(1, 1));
    for (int t : {1, 2, 3, 4, 5}) run(TEST, 512, 1, P_GEN, t, 1, opt(th ? 100 : 24, 3));
    for (int pat = 0; pat < P_COUNT; pat++) run(TEST, 512, 1, pat, 2, 1, opt(1, 1));
    for (uint64_t reps : {1, 2, 3})
      for (int calls : {1, 2}) run(TEST, 512, reps, P_GEN2, 2, 1, opt(1, 1), reps % 2, calls);
    for (int v = 0; v < 3; v++)
      for (size_t N : {841, 840, 839, 769, 768, 767, 1025}) run(v, N, 1, P_GEN, 3, 1, opt(1, 1));
    if (th)
      for (int v = 0; v < 3; v++)
        for (size_t N : {1023, 1024, 1259, 1260, 1261, 1280, 1537}) run(v, N, 1, P_GEN, 4, 1, opt(1, 1));
    for (int v = 0; v < 3; v++)
      for (size_t N : {419, 420, 421, 422, 423, 424, 425, 426, 428, 429, 433, 448, 454, 455, 456, 480, 490, 491, 500, 510, 511, 512, 513, 514, 576, 600, 640}) run(v, N, 1, P_GEN, 2, 1, opt(1, 1));
    // schedules with several blocks
    for (int v = 0; v < 3; v++) {
      for (int t : {1, 2, 3, 4, 5})
        for (long chunk : {1, 2, 0}) {
          if (v == COMB ? t > 1 : chunk != 1) continue;
          run(v, 257, 1, P_GEN, t, chunk, opt(th ? 200 : 40, 3));
          run(v, 421, 1, P_GEN, t, chunk, opt(th ? 100 : 24, 3));
        }
      run(v, 421, 2, P_GEN2, 4, 1, opt(4, 2));
      run(v, 513, 3, P_GEN2, 4, 1, opt(1, 2));
    }
    // a thread limit below the number of threads asked for
    for (int limit = 1; limit <= 3; limit++) {
      mc::env().omp_limit = limit;
      for (int v = 1; v < 3; v++) {
        mc::env().omp_threads = 4;
        mc::explore(strf("limit %d %s", limit, vn[v]), opt(2, 2), [=] { call(v, v == TEST ? 512 : 421, 1, 0, P_GEN, 0, 1); });
        mc::env().omp_threads = 2;
      }
      mc::env().omp_limit = 0;
    }
    // large teams
    for (int t : {8, 9, 16, 33, 64, 65, 130})
      for (int v = 1; v < 3; v++) run(v, v == TEST ? 1024 : 600, 1, P_GEN, t, 1, opt(2, 2));
    // padding in every residue
    for (int v = 0; v < 3; v++) {
      for (size_t N = 0; N <= 300; N++) {
        run(v, N, 1, P_GEN, 2, 1, opt(1, 1));
      }
      for (size_t N = 301; N <= (th ? 860u : 520u); N++)
        run(v, N, 1, P_GEN, 2, 1, opt(1, 1));
      for (int pat = 0; pat < P_COUNT; pat++)
        for (size_t N : {1, 5, 8, 34, 35, 36, 63, 64, 65, 129, 257})
          if (N <= 65 || pat >= P_INF_A) run(v, N, 1, pat, 2, 1, opt(1, 1));
      for (size_t N : {0, 1, 7, 35, 64, 70, 100, 257})
        for (uint64_t reps : {1, 2, 3, 5})
          for (int calls : {1, 2, 3}) run(v, N, reps, P_GEN2, 2, 1, opt(1, 1), reps % 2, calls);
    }
  } else {
    run(TEST, 452, 1, P_GEN, 2, 1, opt(1, 1));
    run(TEST, 512, 1, P_GEN, 2, 1, opt(1, 1));
    for (int v = 0; v < 3; v++) {
      for (size_t N : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 35, 36, 63, 64, 65, 69, 70, 71, 105, 127, 128, 129, 255, 256}) run(v, N, 1, P_GEN, 2, 1, opt(1, 1));
      run(v, 257, 1, P_GEN, 2, 1, opt(2, 1));
      run(v, 33, 2, P_GEN, 2, 1, opt(1, 1), 1, 2);
      run(v, 421, 1, P_GEN, 2, 1, opt(1, 1));
      if (th)
        for (size_t N : {100, 128, 129, 255, 300, 384, 419, 420, 511, 512, 513, 841}) run(v, N, 1, P_GEN, 3, 1, opt(1, 1));
    }
  }
  // other contents in the same matrices
  for (int v = 0; v < 3; v++)
    for (size_t N : {4, 36, 257, 512}) {
      if (!supported(v, N) || (!fast && N > 257)) continue;
      mc::explore(strf("other contents %s %zu", vn[v], N), opt(1, 1), [=] {
        Operands<double> o(N, false, P_GEN, 1), p(N, false, P_GEN2, 2);
        std::vector<double> A = o.A, B = o.B, c1, c2;
        double d = 0;
        auto change = [&] {
          std::copy(p.A.begin(), p.A.end(), A.begin());
          std::copy(p.B.begin(), p.B.end(), B.begin());
        };
        auto once = [&] {
          if (v == COMB) return combined::combined(N, A, B, 1, 0).matrix_multiply(d);
          if (v == TILED) return kernel_tiled::kernel_tiled(N, A, B, false, 1, 0).matrix_multiply(d);
          return kernel_test::kernel_test(N, A, B, false, 1, 0).matrix_multiply();
        };
        c1 = once(), change(), c2 = once();
        expect_matrix("first", c1, o.C, N);
        expect_matrix("after the operands changed", c2, p.C, N);
      });
    }
  if (fast) {
    const size_t hs[] = {0, 3, 36, 64, 65};
    for (int a = 0; a < 3; a++)
      for (int b = 0; b < 3; b++)
        for (size_t n1 : hs)
          for (size_t n2 : hs) {
            if (((n1 + n2) % 2 == 0 && a == b) || !supported(a, n1) || !supported(b, n2)) continue;
            mc::explore(strf("history %s %zu, %s %zu", vn[a], n1, vn[b], n2), opt(1, 1), [=] {
              call(a, n1, 1, 0, P_GEN, 1);
              call(b, n2, 2, 0, P_GEN2, 2);
              call(a, n1, 1, 0, P_SPARSE, 3);
            });
          }
  }
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
