// C02: block kernels
#include <cstdint>
#include "reference_kernels/kernel.hpp"
#include "common.hpp"
using namespace vp;

template <typename T> static void check(size_t N, size_t x, size_t y, size_t bs, size_t bi, int kind, int pat) {
  Operands<T> o(N, kind != 0, pat);
  std::vector<T> C(bs * bs, T(0));
  if (kind < 2) // these overwrite the buffer
    for (size_t i = 0; i < C.size(); i++) C[i] = T(77 + (int)i % 5);
  scribble();
  if (kind == 0) kernel::kernel(o.A, o.right(), C, N, x, y, bs);
  else if (kind == 1) kernel::kernel_transposed(o.A, o.right(), C, N, x, y, bs);
  else kernel::kernel_transposed_blocked(o.A, o.right(), C, N, x, y, bs, bi);
  if (C.size() != bs * bs) mc::fail("block buffer was resized to %zu", C.size());
  for (size_t i = 0; i < bs; i++)
    for (size_t j = 0; j < bs; j++)
      if (!same(C[i * bs + j], o.C[(x + i) * N + y + j]))
        mc::fail("block entry (%zu,%zu) is %s instead of %s", i, j, show(C[i * bs + j]).c_str(), show(o.C[(x + i) * N + y + j]).c_str());
  expect_unchanged("A", o.A, o.A0);
  expect_unchanged("B", o.B, o.B0);
  mc::count(1, bs * bs);
}
static const char *kn[] = {"kernel", "kernel_transposed", "kernel_transposed_blocked"};
template <typename T> static void all_blocks(const char *tn, size_t N, int kind, int pat, const std::vector<size_t> &bis) {
  mc::single(strf("%s %s N=%zu %s", kn[kind], tn, N, pattern_name(pat)), [=] {
    mc::CaptureCout out;
    for (size_t bs = 0; bs <= N; bs++) {
      if (kind == 2 && bs % 4) continue;
      for (size_t x = 0; x + bs <= N; x++)
        for (size_t y = 0; y + bs <= N; y++)
          for (size_t bi : bis) check<T>(N, x, y, bs, bi, kind, pat);
    }
    // kernel() catches its own accesses outside the matrices and reports them
    if (!out.text().empty()) mc::fail("the kernel printed: %s", out.text().substr(0, 200).c_str());
  });
}
static void some(size_t N, size_t x, size_t y, size_t bs, size_t bi, int kind, int pat) {
  mc::single(strf("%s N=%zu x=%zu y=%zu block=%zu input=%zu %s", kn[kind], N, x, y, bs, bi, pattern_name(pat)), [=] { check<double>(N, x, y, bs, bi, kind, pat); });
}
static void concurrent() {
  for (int t : {2, 3})
    for (int kind = 0; kind < 3; kind++)
      for (size_t N : {4, 6, 9})
        together(strf("%s N=%zu %d", kn[kind], N, t), t, [=](int i) {
          static Operands<double> *shared[3][10]; // kept for all schedules
#pragma omp critical
          if (!shared[kind][N]) shared[kind][N] = new Operands<double>(N, kind != 0, P_GEN);
          Operands<double> &o = *shared[kind][N];
          check<double>(N + 1, (size_t)i % 2, 1, 4, 3, kind, i ? P_GEN2 : P_GEN);
          // the same operands for all threads
          std::vector<double> C(16, 0.0);
          size_t x = N - 4, y = i % (N - 3);
          mc::point();
          if (kind == 0) kernel::kernel(o.A, o.right(), C, N, x, y, 4);
          else if (kind == 1) kernel::kernel_transposed(o.A, o.right(), C, N, x, y, 4);
          else kernel::kernel_transposed_blocked(o.A, o.right(), C, N, x, y, 4, 2 + i);
          for (size_t k = 0; k < 16; k++)
            if (!same(C[k], o.C[(x + k / 4) * N + y + k % 4])) mc::fail("wrong entry %zu of a block while other threads compute others", k);
        }, 60);
}
static void enumerate() {
  concurrent();
  if (mc::mode_is("tsan")) return;
  bool th = mc::tier_thorough(), fast = mc::mode_is("fast");
  size_t nmax = th ? (fast ? 26 : 18) : (fast ? 19 : 12);
  for (size_t N = 0; N <= nmax; N++) {
    std::vector<size_t> bis;
    for (size_t b = 1; b <= N + 3; b++) bis.push_back(b);
    bis.push_back(32);
    bis.push_back(128);
    all_blocks<double>("double", N, 0, P_GEN, {0});
    all_blocks<double>("double", N, 1, P_GEN, {0});
    all_blocks<double>("double", N, 2, P_GEN, bis);
    if (N <= 9) {
      for (int p : {P_WIDE_A, P_WIDE_B, P_SPARSE, P_ONES, P_INF_A, P_NAN_A, P_INF_B, P_NAN_B, P_ZINF, P_TINY_A, P_TINY_B, P_TINY, P_DENORM, P_EQUAL, P_NEAR_ID, P_UPPER})
        for (int k = 0; k < 3; k++) all_blocks<double>("double", N, k, p, k == 2 ? std::vector<size_t>{1, 2, 3, 4, 5, 8, 9, 16} : std::vector<size_t>{0});
      for (int k = 0; k < 3; k++) {
        std::vector<size_t> b = k == 2 ? std::vector<size_t>{1, 2, 3, 4, 5, 8, 9, 16} : std::vector<size_t>{0};
        all_blocks<float>("float", N, k, P_GEN, b);
        all_blocks<int>("int", N, k, P_GEN, b);
        for (int p : {P_GEN, P_WIDE_A, P_WIDE_B}) all_blocks<long>("long", N, k, p, b);
        all_blocks<unsigned>("unsigned", N, k, P_GEN, b);
      }
    }
  }
  // selected larger geometries
  std::vector<size_t> ns = fast ? std::vector<size_t>{17, 20, 24, 31, 32, 33, 36, 40, 48, 63, 64, 65, 68, 96, 100, 127, 128, 129, 132, 160, 192, 200, 256, 257} : std::vector<size_t>{20, 32, 33, 64, 65, 132};
  if (th && fast) ns.insert(ns.end(), {255, 300, 384, 511, 512, 513});
  for (size_t N : ns) {
    std::vector<size_t> bss = {1, 2, 3, 4, 5, 8, 12, 16, 32, 64, 128, N / 2, N - 1, N, N / 8 * 4, N / 4 * 4};
    for (size_t bs : bss) {
      if (bs > N || bs == 0) continue;
      for (int corner = 0; corner < 4; corner++) {
        size_t x = corner & 1 ? N - bs : (N - bs) / 2, y = corner & 2 ? N - bs : (N - bs) / 3;
        for (int k = 0; k < 2; k++) some(N, x, y, bs, 0, k, P_GEN);
        if (bs % 4 == 0)
          for (size_t bi : {(size_t)1, (size_t)7, (size_t)8, (size_t)16, (size_t)31, (size_t)32, (size_t)64, (size_t)128, (size_t)129, N, N - 1, N + 1, N / 2 + 1, (size_t)256, (size_t)1024}) some(N, x, y, bs, bi, 2, P_GEN);
      }
    }
  }
  // the same matrices and buffer with other contents
  for (int k = 0; k < 3; k++)
    for (size_t N = 4; N <= 9; N++)
      mc::single(strf("other contents %s N=%zu", kn[k], N), [=] {
        std::vector<double> A(N * N), B(N * N), C(16);
        for (size_t round = 0; round < 4; round++) {
          Operands<double> p(N, k != 0, P_GEN, round);
          if (round != 2) for (size_t i = 0; i < N * N; i++) A[i] = p.A[i];
          if (round != 3) for (size_t i = 0; i < N * N; i++) B[i] = p.B[i];
          std::vector<double> want = product(A.data(), B.data(), N, k != 0);
          size_t x = round % 2 ? 0 : N - 4, y = round < 2 ? 0 : N - 4;
          if (k == 2) C.assign(16, 0.0);
          if (k == 0) kernel::kernel(A, B, C, N, x, y, 4);
          else if (k == 1) kernel::kernel_transposed(A, B, C, N, x, y, 4);
          else kernel::kernel_transposed_blocked(A, B, C, N, x, y, 4, 3);
          for (size_t i = 0; i < 16; i++)
            if (C[i] != want[(x + i / 4) * N + y + i % 4]) mc::fail("%s: wrong block after the contents have changed", kn[k]);
        }
        mc::count(4, 64);
      });
  // histories: kernels accumulate only into the buffer they are given
  for (int a = 0; a < 3; a++)
    for (int b = 0; b < 3; b++)
      for (int c = 0; c < 3; c++)
        mc::single(strf("history %d%d%d", a, b, c), [=] {
          check<double>(9, 1, 2, 4, 3, a, P_GEN);
          check<double>(8, 0, 4, 4, 8, b, P_SPARSE);
          check<double>(12, 4, 0, 8, 5, c, P_GEN);
          check<double>(12, 4, 0, 8, 16, a, P_WIDE_A);
          check<float>(12, 4, 0, 8, 5, c, P_GEN);
          check<double>(5, 1, 1, 4, 2, b, P_GEN);
        });
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
