// C01: naive reference multiplication
#include "reference_kernels/naive.hpp"
#include "common.hpp"
#include <algorithm>
using namespace vp;

template <typename T> static void call(size_t N, bool bt, int pat, size_t salt = 0) {
  Operands<T> o(N, bt, pat, salt);
  scribble();
  std::vector<T> C = bt ? naive_matrix_multiply_transposed<T>(N, o.A, o.B) : naive_matrix_multiply<T>(N, o.A, o.B);
  o.check(bt ? "naive_matrix_multiply_transposed" : "naive_matrix_multiply", C);
}
template <typename T> static void sizes(const char *tn, const std::vector<size_t> &ns, int threads, const std::vector<int> &pats, mc::Opts o) {
  for (size_t N : ns)
    for (int bt = 0; bt < 2; bt++)
      for (int pat : pats) {
        mc::env().omp_threads = threads;
        mc::explore(strf("%s N=%zu bt=%d %s threads=%d", tn, N, bt, pattern_name(pat), threads), o, [=] { call<T>(N, bt, pat, 0); });
      }
}
static std::vector<size_t> range(size_t a, size_t b) {
  std::vector<size_t> v;
  for (; a <= b; a++) v.push_back(a);
  return v;
}

static void enumerate() {
  bool th = mc::tier_thorough();
  std::vector<int> all;
  for (int p = 0; p < P_COUNT; p++) all.push_back(p);
  mc::Opts full;
  full.cap = th ? 200000 : 12000;
  full.policies = 1;
  mc::Opts few;
  few.cap = 40;
  few.policies = 2;
  mc::Opts one;
  one.cap = 1;
  one.policies = 3;
  if (mc::mode_is("tsan")) {
    for (int t : {2, 3, 4}) {
      sizes<double>("double", range(0, th ? 16 : 9), t, {P_GEN}, few);
      sizes<double>("double", {31, 33}, t, {P_GEN}, one);
      sizes<float>("float", {5}, t, {P_GEN}, few);
    }
    return;
  }
  // every thread schedule for small matrices
  for (int t : {1, 2, 3, 4, 5}) {
    sizes<double>("double", range(0, 7), t, {P_GEN}, full);
    sizes<int>("int", range(0, 4), t, {P_GEN}, full);
  }
  // element types and value patterns
  for (int t : {1, 3}) {
    sizes<double>("double", range(0, th ? 64 : 40), t, all, one);
    sizes<float>("float", range(0, 24), t, {P_GEN, P_ONES}, one);
    sizes<int>("int", range(0, 24), t, {P_GEN, P_ONES}, one);
    sizes<long>("long", range(0, 24), t, {P_GEN, P_ONES, P_WIDE_A, P_WIDE_B}, one);
    sizes<unsigned>("unsigned", range(0, 24), t, {P_GEN, P_ONES}, one);
  }
  sizes<double>("double", range(0, 12), 8, {P_GEN}, one);
  sizes<double>("double", range(0, 9), 16, {P_GEN}, one);
  for (int t : {9, 17, 32, 33, 64, 65, 100, 128, 129, 257}) {
    sizes<double>("double", {1, 7, (size_t)t - 1, (size_t)t, (size_t)t + 1}, t, {P_GEN}, one);
    mc::env().omp_limit = t / 2;
    sizes<double>("limited double", {5, (size_t)t + 1}, t, {P_GEN}, one);
    mc::env().omp_limit = 0;
  }
  // a thread limit below the number of threads asked for, and calls from inside a parallel region
  for (int t : {2, 3, 4, 8})
    for (int limit = 1; limit < t; limit++) {
      mc::env().omp_limit = limit;
      sizes<double>(strf("limit %d double", limit).c_str(), range(0, 9), t, {P_GEN}, few);
      mc::env().omp_limit = 0;
    }
  for (size_t N = 0; N <= 9; N++)
    for (int bt = 0; bt < 2; bt++)
      for (int t : {2, 3, 4}) {
        mc::env().omp_threads = t;
        mc::explore(strf("inside a parallel region N=%zu bt=%d threads=%d", N, bt, t), few, [=] {
#pragma omp parallel
#pragma omp single
          call<double>(N, bt, P_GEN, 0);
        });
        mc::explore(strf("in every thread of a parallel region N=%zu bt=%d threads=%d", N, bt, t), few, [=] {
#pragma omp parallel
          call<double>(N, bt, P_GEN, 0);
        });
      }
  // all 2x2 (and 1x1) operands over a small alphabet
  {
    const double al[] = {0, 1, -2, 0.5};
    for (int chunk = 0; chunk < 256; chunk++)
      for (int bt = 0; bt < 2; bt++) {
        mc::env().omp_threads = 2;
        mc::explore(strf("alphabet 2x2 A=%d bt=%d", chunk, bt), one, [=] {
          std::vector<double> A(4), B(4);
          for (int i = 0; i < 4; i++) A[i] = al[(chunk >> (2 * i)) & 3];
          for (int b = 0; b < 256; b++) {
            for (int i = 0; i < 4; i++) B[i] = al[(b >> (2 * i)) & 3];
            std::vector<double> want = product(A.data(), B.data(), 2, bt);
            std::vector<double> got = bt ? naive_matrix_multiply_transposed<double>(2, A, B) : naive_matrix_multiply<double>(2, A, B);
            expect_matrix("2x2", got, want, 2);
          }
        });
      }
  }
  // the same matrices with other contents
  for (size_t N = 0; N <= 9; N++)
    for (int bt = 0; bt < 2; bt++) {
      mc::env().omp_threads = 2;
      mc::explore(strf("other contents N=%zu bt=%d", N, bt), one, [=] {
        Operands<double> o(N, bt, P_GEN, 0);
        for (size_t round = 0; round < 4; round++) {
          Operands<double> p(N, bt, P_GEN2, round);
          if (round != 2) std::copy(p.A.begin(), p.A.end(), o.A.begin());
          if (round != 3) std::copy(p.B.begin(), p.B.end(), o.B.begin());
          std::vector<double> got = bt ? naive_matrix_multiply_transposed<double>(N, o.A, o.B) : naive_matrix_multiply<double>(N, o.A, o.B);
          expect_matrix("after the contents have changed", got, product(o.A.data(), o.B.data(), N, bt), N);
        }
      });
    }
  // the same matrix on both sides
  for (size_t N = 0; N <= 20; N++)
    for (int bt = 0; bt < 2; bt++)
      for (int t : {1, 3}) {
        mc::env().omp_threads = t;
        mc::explore(strf("square of one matrix N=%zu bt=%d threads=%d", N, bt, t), one, [=] {
          std::vector<double> A = make<double>(0, P_GEN, N * N), A0 = A;
          std::vector<double> got = bt ? naive_matrix_multiply_transposed<double>(N, A, A) : naive_matrix_multiply<double>(N, A, A);
          expect_matrix("square", got, product(A0.data(), A0.data(), N, bt), N);
          expect_unchanged("A", A, A0);
        });
      }
  // histories: results don't depend on what was computed before
  const size_t hs[] = {0, 1, 2, 5, 8};
  for (size_t a : hs)
    for (size_t b : hs)
      for (size_t c : hs)
        for (int v = 0; v < 8; v++) {
          mc::env().omp_threads = 2;
          mc::explore(strf("history %zu,%zu,%zu variants=%d", a, b, c, v), one, [=] {
            call<double>(a, v & 1, P_GEN, 1);
            call<double>(b, v & 2, P_SPARSE, 2);
            call<float>(b, v & 2, P_GEN, 2);
            call<double>(c, v & 4, P_GEN, 3);
            call<double>(c, v & 4, P_GEN2, 3);
          });
        }
  // larger sizes
  if (mc::mode_is("fast")) {
    sizes<double>("double", range(41, th ? 400 : 200), 2, {P_GEN}, [] { mc::Opts o; o.cap = 1; return o; }());
    std::vector<size_t> big = {41, 47, 48, 49, 50, 63, 64, 65, 66, 95, 96, 97, 100, 127, 128, 129, 130, 160, 191, 192, 193, 200, 255, 256, 257, 258, 300, 320, 383, 384, 385, 419, 420, 421, 511, 512, 513, 600, 640, 769, 1000, 1024, 1025};
    if (th) big.insert(big.end(), {767, 768, 840, 841, 1023, 1536, 2048, 2049});
    sizes<double>("double", big, 4, {P_GEN}, [] { mc::Opts o; o.cap = 1; return o; }());
    sizes<double>("double", {64, 65, 127, 128, 129, 256}, 3, {P_WIDE_A, P_WIDE_B, P_NAN_A, P_INF_B}, one);
    sizes<float>("float", {63, 64, 65, 128, 129}, 3, {P_GEN}, one);
    sizes<int>("int", {63, 64, 65, 128, 129, 256}, 3, {P_GEN}, one);
  }
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
