// C12: matrix construction and transposition
#include "util/create_identity_matrix.hpp"
#include "util/create_random_matrix.hpp"
#include "util/pattern_matrices.hpp"
#include "util/transpose_matrix.hpp"
#include "common.hpp"
#include <algorithm>
#include <boost/align/aligned_allocator.hpp>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
using namespace vp;

// the wall clock as the code under test sees it: a fresh value on every call, so a time-dependent result shows up
static long fake_now = 1000;
extern "C" time_t time(time_t *t) {
  fake_now += 7919;
  if (t) *t = fake_now;
  return fake_now;
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { fake_now += 7919; return time_point(duration(fake_now * 1000003)); }
}}}

template <typename T> static bool bits(const T &a, const T &b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
static bool bits(const std::string &a, const std::string &b) { return a == b; }
template <typename T> struct Val { // distinct values
  static T make(size_t i) { return (T)(long)(i * 3 + 1); }
};
template <> struct Val<double> {
  static double make(size_t i) {
    if (i % 17 == 3) return -0.0;
    if (i % 17 == 5) return std::numeric_limits<double>::quiet_NaN();
    if (i % 17 == 9) return -std::numeric_limits<double>::infinity();
    if (i % 17 == 11) return 4.9e-324 * (double)i;
    return (double)i / 3 + 1e17 * (i % 3 == 1);
  }
};
template <> struct Val<std::string> {
  static std::string make(size_t i) { return strf("entry number %zu of a matrix", i); }
};
template <> struct Val<std::complex<double>> {
  static std::complex<double> make(size_t i) { return {(double)i, -(double)i / 3}; }
};

template <typename T> static void identity(size_t N) {
  scribble();
  std::vector<T> m = util::create_identity_matrix<T>(N);
  if (m.size() != N * N) mc::fail("identity N=%zu: %zu entries", N, m.size());
  for (size_t i = 0; i < N * N; i++)
    if (!(m[i] == (i / N == i % N ? T(1) : T(0)))) mc::fail("identity N=%zu: wrong entry (%zu,%zu)", N, i / N, i % N);
  mc::count(1, N * N + 1);
}
template <typename T> static void enumerating(size_t N) {
  scribble();
  std::vector<T> m = util::create_enumerating_matrix<T>(N);
  if (m.size() != N * N) mc::fail("enumerating N=%zu: %zu entries", N, m.size());
  for (size_t i = 0; i < N * N; i++)
    if (!(m[i] == (T)i)) mc::fail("enumerating N=%zu: entry (%zu,%zu) is not %zu", N, i / N, i % N, i);
  mc::count(1, N * N + 1);
}
template <typename T> static std::vector<T> random_one(size_t N) {
  std::vector<T> m = util::create_random_matrix<T>(N);
  if (m.size() != N * N) mc::fail("random N=%zu: %zu entries", N, m.size());
  bool differ = N < 2;
  for (size_t i = 0; i < N * N; i++) {
    if (!(m[i] >= T(0) && m[i] <= T(1)) || (sizeof(T) >= 8 && !(m[i] < T(1)))) mc::fail("random N=%zu: entry (%zu,%zu) is outside [0,1)", N, i / N, i % N);
    if (!(m[i] == m[0])) differ = true;
  }
  if (!differ) mc::fail("random N=%zu: all entries are alike", N);
  // no two rows and no two columns alike, hardly any two entries alike, every tenth of the interval used
  if (N >= 2) {
    for (int cols = 0; cols < 2; cols++) {
      std::vector<std::vector<T>> lines(N, std::vector<T>(N));
      for (size_t i = 0; i < N * N; i++) lines[cols ? i % N : i / N][cols ? i / N : i % N] = m[i];
      std::sort(lines.begin(), lines.end());
      for (size_t i = 1; i < N; i++)
        if (lines[i] == lines[i - 1]) mc::fail("random N=%zu: two %s are equal", N, cols ? "columns" : "rows");
    }
    std::vector<T> v = m;
    std::sort(v.begin(), v.end());
    size_t different = std::unique(v.begin(), v.end()) - v.begin();
    if (different * 10 < N * N * 9) mc::fail("random N=%zu: only %zu different entries", N, different);
  }
  if (N >= 20) {
    size_t tenth[10] = {};
    for (const T &x : m) tenth[std::min(9, (int)(x * 10))]++;
    for (int k = 0; k < 10; k++)
      if (tenth[k] * 100 < N * N) mc::fail("random N=%zu: %zu entries between %g and %g", N, tenth[k], k / 10.0, (k + 1) / 10.0);
  }
  mc::count(1, N * N + 1);
  return m;
}
template <typename T> static void random_twice(size_t N, size_t other) {
  scribble();
  std::vector<T> a = random_one<T>(N);
  random_one<T>(other);
  util::create_random_matrix<float>(other);
  srand(99);
  std::vector<T> b = random_one<T>(N);
  for (size_t i = 0; i < N * N; i++)
    if (!bits(a[i], b[i])) mc::fail("random N=%zu: entry (%zu,%zu) differs from one call to the next", N, i / N, i % N);
}
template <typename T, typename A> static void rect(size_t cols, size_t rows) { // the original is rows x cols
  typedef std::vector<T, A> V;
  V org(rows * cols);
  for (size_t i = 0; i < org.size(); i++) org[i] = Val<T>::make(i);
  const V org0 = org;
  const T *place = org.data();
  scribble();
  V t = util::transpose_matrix(cols, rows, org);
  if (t.size() != rows * cols) mc::fail("transpose %zux%zu: %zu entries", rows, cols, t.size());
  for (size_t r = 0; r < rows; r++)
    for (size_t c = 0; c < cols; c++)
      if (!bits(t[c * rows + r], org0[r * cols + c])) mc::fail("transpose %zux%zu: entry (%zu,%zu) of the original is not at (%zu,%zu)", rows, cols, r, c, c, r);
  V back = util::transpose_matrix(rows, cols, t);
  if (back.size() != org0.size()) mc::fail("transpose twice %zux%zu: %zu entries", rows, cols, back.size());
  for (size_t i = 0; i < org0.size(); i++)
    if (!bits(back[i], org0[i]) || !bits(org[i], org0[i])) mc::fail("transpose %zux%zu: transposing twice differs from the original, or the original was changed, at %zu", rows, cols, i);
  if (org.data() != place || org.size() != org0.size()) mc::fail("transpose changed its argument");
  mc::count(1, 2 * rows * cols + 1);
}
template <typename T> static void square(size_t N) {
  std::vector<T> org(N * N);
  for (size_t i = 0; i < org.size(); i++) org[i] = Val<T>::make(i);
  const std::vector<T> org0 = org;
  scribble();
  std::vector<T> t = util::transpose_matrix<T>(N, org);
  if (t.size() != N * N) mc::fail("transpose N=%zu: %zu entries", N, t.size());
  for (size_t r = 0; r < N; r++)
    for (size_t c = 0; c < N; c++)
      if (!bits(t[c * N + r], org0[r * N + c])) mc::fail("transpose N=%zu: entry (%zu,%zu) is not at (%zu,%zu)", N, r, c, c, r);
  std::vector<T> back = util::transpose_matrix<T>(N, t);
  if (back.size() != N * N || org.size() != N * N) mc::fail("transpose twice N=%zu: %zu entries", N, back.size());
  for (size_t i = 0; i < org0.size(); i++)
    if (!bits(back[i], org0[i]) || !bits(org[i], org0[i])) mc::fail("transpose N=%zu: transposing twice differs from the original, or the original was changed, at %zu", N, i);
  mc::count(1, 2 * N * N + 1);
}
static uint64_t random_hash() {
  uint64_t h = 1;
  for (size_t N : {1, 2, 7, 40}) {
    for (double d : util::create_random_matrix<double>(N)) { uint64_t u; std::memcpy(&u, &d, 8); h = mix(h ^ u); }
    for (float d : util::create_random_matrix<float>(N)) { uint32_t u; std::memcpy(&u, &d, 4); h = mix(h ^ u); }
  }
  return h;
}
typedef boost::alignment::aligned_allocator<double, 32> AD;
typedef boost::alignment::aligned_allocator<float, 64> AF;

static void concurrent() {
  for (int t : {2, 3}) {
    together(strf("construction %d", t), t, [](int i) { identity<double>(3 + i); enumerating<double>(4 + i); random_one<double>(5); random_one<float>(2 + i); });
    together(strf("transposition %d", t), t, [](int i) { square<double>(4 + i); rect<double, std::allocator<double>>(2 + i, 5); rect<int, std::allocator<int>>(3, 2 + i); });
    together(strf("the same everywhere %d", t), t, [](int i) {
      (void)i;
      static std::vector<double> first;
      std::vector<double> r = util::create_random_matrix<double>(6);
#pragma omp critical
      if (first.empty()) first = r;
#pragma omp critical
      if (r != first) mc::fail("a random matrix that is created while others are created differs from them");
    });
  }
}
static void enumerate() {
  concurrent();
  if (mc::mode_is("tsan")) return;
  bool th = mc::tier_thorough(), fast = mc::mode_is("fast");
  std::vector<size_t> ns;
  for (size_t n = 0; n <= (fast ? 200u : 70u); n++) ns.push_back(n);
  for (size_t n : {255, 256, 257, 300, 511, 512, 513}) ns.push_back(n);
  if (fast) for (size_t n : {1000, 1023, 1024, 1025, 1100}) ns.push_back(n);
  if (fast && th) for (size_t n : {1500, 2047, 2048, 2049, 4096, 4099}) ns.push_back(n);
  for (size_t N : ns) {
    mc::single(strf("identity N=%zu", N), [=] { identity<double>(N); identity<float>(N); identity<int>(N); identity<long>(N); identity<unsigned char>(N); identity<std::complex<double>>(N); });
    mc::single(strf("enumerating N=%zu", N), [=] { enumerating<double>(N); if (N <= 4096) enumerating<float>(N); enumerating<int>(N); enumerating<long>(N); enumerating<unsigned>(N); });
    mc::single(strf("random N=%zu", N), [=] { random_twice<double>(N, (N * 7 + 3) % 50); random_twice<float>(N, N % 3); random_twice<long double>(N, 2); });
    mc::single(strf("transpose N=%zu", N), [=] { square<double>(N); square<float>(N); square<int>(N); square<unsigned char>(N); if (N < 300) square<std::string>(N), square<std::complex<double>>(N); });
  }
  if (fast) {
    // more cells than a float or an int can number
    mc::single("enumerating N=4100", [=] { enumerating<double>(4100); enumerating<long>(4100); enumerating<unsigned>(4100); });
    mc::single("identity N=46400", [=] { identity<unsigned char>(46400); });
  }
  size_t hi = th ? 140 : fast ? 70 : 34;
  for (size_t c = 0; c <= hi; c++)
    mc::single(strf("rectangular transpose, %zu columns", c), [=] {
      for (size_t r = 0; r <= hi; r++) {
        rect<double, std::allocator<double>>(c, r);
        rect<double, AD>(c, r);
        rect<float, AF>(c, r);
        rect<int, std::allocator<int>>(c, r);
        rect<unsigned char, std::allocator<unsigned char>>(c, r);
        rect<std::string, std::allocator<std::string>>(c, r);
      }
    });
  std::vector<size_t> odd = {1, 2, 3, 7, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 600};
  for (size_t c : odd)
    mc::single(strf("rectangular transpose, %zu columns, large", c), [=] {
      for (size_t r : odd) rect<double, AD>(c, r), rect<int, std::allocator<int>>(c, r);
    });
  for (size_t l : {(size_t)70000, (size_t)140000})
    for (size_t s : {(size_t)0, (size_t)1, (size_t)2, (size_t)5})
      mc::single(strf("rectangular transpose %zu/%zu", l, s), [=] {
        rect<double, AD>(l, s);
        rect<double, AD>(s, l);
        rect<int, std::allocator<int>>(s, l);
      });
  // the same matrix with other contents
  for (size_t c = 1; c <= 6; c++)
    for (size_t r = 1; r <= 6; r++)
      mc::single(strf("other contents %zux%zu", r, c), [=] {
        std::vector<double> m(r * c);
        for (int round = 0; round < 4; round++) {
          for (size_t i = 0; i < r * c; i++) m[i] = (double)(i * 7 + round * 1000);
          std::vector<double> t = util::transpose_matrix(c, r, m), q;
          if (r == c) q = util::transpose_matrix<double>(r, m);
          for (size_t i = 0; i < r * c; i++)
            if (t[i % c * r + i / c] != m[i] || (r == c && q[i % c * r + i / c] != m[i])) mc::fail("transpose %zux%zu: wrong after the contents have changed", r, c);
        }
        mc::count(4, 4 * r * c);
      });
  // histories over the utilities
  for (int h = 0; h < 64; h++)
    mc::single(strf("history %d", h), [=] {
      for (int k = 0, x = h; k < 3; k++, x /= 4) {
        size_t N = 3 + k;
        if (x % 4 == 0) identity<double>(N);
        if (x % 4 == 1) enumerating<double>(N);
        if (x % 4 == 2) random_twice<double>(N, h % 7);
        if (x % 4 == 3) square<double>(N), rect<double, AD>(N, N + 2);
      }
    });
  if (fast)
    mc::single("random matrices in separate runs", [=] {
      uint64_t h = random_hash();
      char self[4096];
      ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
      if (n <= 0) return;
      self[n] = 0;
      for (int run = 0; run < 3; run++) {
        FILE *f = popen(strf("VP_RUN=%d%0*d '%s' --random-hash", run, run * 50 + 1, 0, self).c_str(), "r");
        unsigned long long o = 0;
        int got = f ? fscanf(f, "%llx", &o) : 0;
        if (f) pclose(f);
        if (got == 1 && o != h) mc::fail("random matrices differ from one run of the program to the next");
        mc::count(0, got == 1);
      }
    });
}
int main(int argc, char **argv) {
  if (argc == 2 && !strcmp(argv[1], "--random-hash")) {
    fake_now += getpid() * 31;
    printf("%llx\n", (unsigned long long)random_hash());
    return 0;
  }
  return mc::driver_main(argc, argv, enumerate);
}
