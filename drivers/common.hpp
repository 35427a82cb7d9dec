// Shared by the drivers: exact operands, reference product, comparisons.
#pragma once
#include "mc.hpp"
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <limits>
#include <string>
#include <vector>

namespace vp {
using mc::strf;

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
// odd integer with the given number of bits and either sign
inline int64_t odd(uint64_t key, int bits) {
  uint64_t h = mix(key);
  int64_t v = (int64_t)(h & ((1ull << bits) - 1)) | 1;
  return (h >> 60) & 1 ? -v : v;
}

// Every pattern is exactly representable, and so is every sum of products in any order: results must match exactly.
enum Pattern {
  P_GEN,     // all entries distinct-ish odd multiples of 2^-10
  P_WIDE_A,  // A has 36 significant bits, B few: detects narrowed operands
  P_WIDE_B,
  P_SPARSE,  // many exact zeros
  P_ONES,    // all ones (counts how often every term is used)
  P_INF_A,   // as GEN with an infinity in A
  P_NAN_B,   // as GEN with a NaN in B
  P_NAN_A,
  P_INF_B,
  P_ZINF,    // zeros and infinities in both: 0 * inf has to become NaN
  P_GEN2,    // as GEN, other values
  P_TINY_A,  // A of the order 1e-24, B of the order 1e24
  P_TINY_B,
  P_TINY,    // both of the order 1e-30
  P_ID_A,    // A is the identity
  P_ID_B,
  P_NEAR_ID, // both are the identity except for one corner
  P_EQUAL,   // A and B hold the same numbers
  P_UPPER,   // upper triangular
  P_ZERO_A,
  P_SYM,     // both symmetric
  P_DENORM,  // A and the result are denormal
  P_COUNT
};
inline const char *pattern_name(int p) {
  static const char *n[] = {"gen", "wideA", "wideB", "sparse", "ones", "infA", "nanB", "nanA", "infB", "zinf", "gen2", "tinyA", "tinyB", "tiny", "identityA", "identityB", "nearIdentity", "equal", "upper", "zeroA", "symmetric", "denormal"};
  return n[p];
}
inline double dyadic(int which, int pat, size_t i) {
  uint64_t key = (uint64_t)i * 4 + (which ? 1 : 0) + ((uint64_t)pat << 50);
  switch (pat) {
  case P_WIDE_A: return which == 0 ? odd(key, 36) / 1048576.0 : (double)odd(key, 6);
  case P_WIDE_B: return which == 1 ? odd(key, 36) / 1048576.0 : (double)odd(key, 6);
  case P_SPARSE: return (mix(key ^ 77) % 3) ? 0.0 : (double)odd(key, 10);
  case P_ZINF: return (mix(key ^ 78) % 3) ? (double)odd(key, 10) : (mix(key ^ 79) % 4) ? 0.0 : (mix(key ^ 80) % 2) ? INFINITY : -INFINITY;
  case P_ONES: return 1.0;
  case P_DENORM: return which == 0 ? odd(key, 12) * std::ldexp(1.0, -1072) : (double)odd(key, 4);
  case P_TINY_A:
  case P_TINY_B: return odd(key, 12) * std::ldexp(1.0, which == (pat == P_TINY_B) ? -90 : 90);
  case P_TINY: return odd(key, 12) * std::ldexp(1.0, -110);
  default: return odd(key, 21) / 1024.0;
  }
}
template <typename T> struct Fill {
  static T value(int which, int pat, size_t i) { return (T)dyadic(which, pat, i); }
};
template <> struct Fill<float> {
  static float value(int which, int pat, size_t i) { return pat == P_ONES ? 1.0f : (float)(odd(i * 4 + which + ((uint64_t)pat << 40), 6) / 4.0); }
};
template <> struct Fill<int> {
  static int value(int which, int pat, size_t i) { return pat == P_ONES ? 1 : (int)odd(i * 4 + which + ((uint64_t)pat << 40), 9); }
};
template <> struct Fill<long> {
  // the wide patterns need more bits than a double has
  static long value(int which, int pat, size_t i) {
    if (pat == P_WIDE_A || pat == P_WIDE_B) return (long)odd(i * 4 + which, which == (pat == P_WIDE_B) ? 55 : 2);
    return pat == P_ONES ? 1 : (long)odd(i * 4 + which + ((uint64_t)pat << 40), 25);
  }
};
template <> struct Fill<unsigned> {
  static unsigned value(int which, int pat, size_t i) { return pat == P_ONES ? 1u : (unsigned)mix(i * 4 + which + ((uint64_t)pat << 40)); }
};

template <typename T> std::vector<T> make(int which, int pat, size_t count, size_t salt = 0) {
  std::vector<T> v(count);
  for (size_t i = 0; i < count; i++) v[i] = Fill<T>::value(which, pat, i + salt * 1000003);
  return v;
}
inline void specials(int pat, std::vector<double> &A, std::vector<double> &B, size_t pos) {
  if (A.empty()) return;
  double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  if (pat == P_INF_A) A[pos % A.size()] = inf;
  if (pat == P_NAN_A) A[pos % A.size()] = nan;
  if (pat == P_INF_B) B[pos % B.size()] = -inf;
  if (pat == P_NAN_B) B[pos % B.size()] = nan;
}
template <typename T> void specials(int, std::vector<T> &, std::vector<T> &, size_t) {}

template <typename T> void structure(int pat, std::vector<T> &A, std::vector<T> &B, size_t N) {
  auto identity = [N](std::vector<T> &M) {
    for (size_t i = 0; i < N * N; i++) M[i] = T(i / N == i % N);
  };
  if (pat == P_ID_A || pat == P_NEAR_ID) identity(A);
  if (pat == P_ID_B || pat == P_NEAR_ID) identity(B);
  if (pat == P_NEAR_ID && N) A[N - 1] = T(3), B[N * N - N] = T(5);
  if (pat == P_EQUAL) B = A;
  if (pat == P_ZERO_A) A.assign(A.size(), T(0));
  for (size_t i = 0; i < N; i++)
    for (size_t j = 0; j < i; j++) {
      if (pat == P_UPPER) A[i * N + j] = B[i * N + j] = T(0);
      if (pat == P_SYM) A[i * N + j] = A[j * N + i], B[i * N + j] = B[j * N + i];
    }
}

// C = A*B, row-major; if bt, B is stored transposed
template <typename T> std::vector<T> product(const T *A, const T *B, size_t N, bool bt) {
  std::vector<T> C(N * N, T(0)), Bn;
  const T *b = B;
  if (bt) {
    Bn.resize(N * N);
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < N; j++) Bn[j * N + i] = B[i * N + j];
    b = Bn.data();
  }
  for (size_t i = 0; i < N; i++) {
    T *c = C.data() + i * N;
    for (size_t k = 0; k < N; k++) {
      T a = A[i * N + k];
      const T *br = b + k * N;
      for (size_t j = 0; j < N; j++) c[j] += a * br[j];
    }
  }
  return C;
}
template <typename T> bool same(T a, T b) { return a == b; }
// by bits, so that code which makes the processor treat denormal numbers as zero does not hide their loss
inline bool same(double a, double b) {
  uint64_t x, y;
  std::memcpy(&x, &a, 8), std::memcpy(&y, &b, 8);
  return x == y || ((x | y) << 1) == 0 || (std::isnan(a) && std::isnan(b));
}
inline bool same(float a, float b) {
  uint32_t x, y;
  std::memcpy(&x, &a, 4), std::memcpy(&y, &b, 4);
  return x == y || (uint32_t)((x | y) << 1) == 0 || (std::isnan(a) && std::isnan(b));
}
inline std::string show(double v) { return strf("%.17g", v); }
inline std::string show(float v) { return strf("%.9g", (double)v); }
inline std::string show(int v) { return strf("%d", v); }
inline std::string show(long v) { return strf("%ld", v); }
inline std::string show(unsigned v) { return strf("%u", v); }

template <typename T> void expect_matrix(const char *what, const std::vector<T> &got, const std::vector<T> &want, size_t cols) {
  if (got.size() != want.size()) mc::fail("%s: result has %zu entries instead of %zu", what, got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++)
    if (!same(got[i], want[i]))
      mc::fail("%s: entry (%zu,%zu) is %s instead of %s", what, cols ? i / cols : 0, cols ? i % cols : i, show(got[i]).c_str(), show(want[i]).c_str());
  mc::count(0, got.size());
}
template <typename T> void expect_unchanged(const char *what, const std::vector<T> &now, const std::vector<T> &before) {
  if (now.size() != before.size() || (now.size() && std::memcmp(now.data(), before.data(), now.size() * sizeof(T)) != 0))
    mc::fail("%s was modified", what);
}

template <typename T> struct Operands {
  size_t N;
  bool bt;
  bool alias;
  std::vector<T> A, B, A0, B0, C;
  Operands(size_t N_, bool bt_, int pat, size_t salt = 0) : N(N_), bt(bt_), alias(pat == P_EQUAL) {
    A = make<T>(0, pat, N * N, salt);
    B = make<T>(1, pat, N * N, salt);
    structure(pat, A, B, N);
    specials(pat, A, B, salt * 7 + N / 2 * N + N / 2);
    A0 = A;
    B0 = B;
    C = product(A.data(), B.data(), N, bt);
  }
  // the right operand as the code under test gets it: the same object as the left one for P_EQUAL
  std::vector<T> &right() { return alias ? A : B; }
  void check(const char *what, const std::vector<T> &got) const {
    expect_matrix(what, got, C, N);
    expect_unchanged("A", A, A0);
    expect_unchanged("B", B, B0);
  }
};

// fills the stack below the caller and a few heap blocks with junk, so that uninitialised reads are visible
// f(0), f(1), ... run at the same time, each in a thread of its own; what they call may not share anything
template <typename F> inline void together(const std::string &id, int threads, const F &f, uint64_t cap = 300) {
  int before = mc::env().omp_threads;
  mc::env().omp_threads = threads;
  mc::Opts o;
  o.cap = mc::tier_thorough() ? cap * 10 : cap;
  mc::explore(strf("%d threads at the same time: ", threads) + id, o, [=] {
    int arrived = 0;
#pragma omp parallel num_threads(threads)
    {
      int me;
#pragma omp critical
      me = arrived++;
      mc::point();
      f(me);
    }
    if (arrived != threads) mc::fail("harness: %d of %d threads", arrived, threads);
  });
  mc::env().omp_threads = before;
}
__attribute__((noinline)) inline void scribble() {
  volatile unsigned char junk[32768];
  for (size_t i = 0; i < sizeof junk; i++) junk[i] = (unsigned char)(0x7b + i);
  (void)junk[17];
}
} // namespace vp
