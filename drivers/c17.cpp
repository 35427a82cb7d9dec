// C17: printing helpers
#include "util/util.hpp"
#include "common.hpp"
#include <boost/align/aligned_allocator.hpp>
#include <sstream>
using namespace vp;

template <typename T> static std::string reference(size_t rows, size_t cols, const std::function<T(size_t, size_t)> &at) {
  std::ostringstream s;
  for (size_t r = 0; r < rows; r++) {
    for (size_t c = 0; c < cols; c++) {
      if (c) s << ", ";
      s << at(r, c);
    }
    s << "\n";
  }
  return s.str();
}
static std::string clip(const std::string &s) { return s.size() > 400 ? s.substr(0, 400) + "..." : s; }

enum { SQ, RECT, TSQ, TRECT };
static const char *names[] = {"print_matrix(N)", "print_matrix(rows, columns)", "print_matrix_transposed(N)", "print_matrix_transposed(N, M)"};
template <typename V> static void call(int f, bool host, size_t a, size_t b, V &m) {
  if (host) {
    if (f == SQ) print_matrix_host(a, m);
    if (f == RECT) print_matrix_host(a, b, m);
    if (f == TSQ) print_matrix_transposed_host(a, m);
    if (f == TRECT) print_matrix_transposed_host(a, b, m);
  } else {
    if (f == SQ) print_matrix(a, m);
    if (f == RECT) print_matrix(a, b, m);
    if (f == TSQ) print_matrix_transposed(a, m);
    if (f == TRECT) print_matrix_transposed(a, b, m);
  }
}
// rows/columns of the printed matrix: a x b
template <typename V> static void print(int f, size_t a, size_t b, V &m) {
  typedef typename V::value_type T;
  const V before = m;
  std::string want = f == SQ || f == RECT ? reference<T>(a, b, [&](size_t r, size_t c) { return before[r * b + c]; })
                                          : reference<T>(a, b, [&](size_t r, size_t c) { return before[c * a + r]; });
  for (int host = 0; host < 2; host++) {
    std::string cout_text, hpx_text;
    mc::hpx_out_clear();
    {
      mc::CaptureCout cap;
      call(f, host, a, b, m);
      std::cout.flush();
      cout_text = cap.text();
    }
    hpx_text = mc::hpx_out();
    const std::string &got = host ? cout_text : hpx_text, &other = host ? hpx_text : cout_text;
    if (got != want) mc::fail("%s%s %zux%zu prints\n%s\ninstead of\n%s", host ? "host " : "", names[f], a, b, clip(got).c_str(), clip(want).c_str());
    if (!other.empty()) mc::fail("%s%s %zux%zu also prints to the other stream: %s", host ? "host " : "", names[f], a, b, clip(other).c_str());
    if (m.size() != before.size()) mc::fail("%s changed the matrix", names[f]);
    for (size_t i = 0; i < m.size(); i++)
      if (std::memcmp(&m[i], &before[i], sizeof(T))) mc::fail("%s changed the matrix", names[f]);
    mc::count(1, a * b + 1);
  }
}
template <typename V> static void too_small(int f, size_t a, size_t b, size_t have) {
  for (int host = 0; host < 2; host++) {
    V m(have);
    for (size_t i = 0; i < have; i++) m[i] = (typename V::value_type)(i + 1);
    bool thrown = false;
    {
      mc::CaptureCout cap;
      try {
        call(f, host, a, b, m);
      } catch (const std::exception &) {
        thrown = true;
      }
    }
    mc::hpx_out_clear();
    if (!thrown) mc::fail("%s%s %zux%zu of a matrix with only %zu entries raises no error", host ? "host " : "", names[f], a, b, have);
    mc::count(1, 1);
  }
}
template <typename V> static void shapes(size_t a, size_t b, const std::function<typename V::value_type(size_t)> &val, size_t extra = 0) {
  V m(a * b + extra);
  for (size_t i = 0; i < m.size(); i++) m[i] = val(i);
  print(RECT, a, b, m);
  print(TRECT, a, b, m);
  if (a == b) {
    print(SQ, a, b, m);
    print(TSQ, a, b, m);
  }
}
typedef std::vector<double> VD;
typedef std::vector<double, boost::alignment::aligned_allocator<double, 32>> VA;

static void enumerate() {
  bool th = mc::tier_thorough();
  size_t hi = th ? 48 : mc::mode_is("fast") ? 32 : 16;
  for (size_t a = 0; a <= hi; a++)
    for (size_t b = 0; b <= hi; b++)
      mc::single(strf("shape %zux%zu", a, b), [=] {
        shapes<VD>(a, b, [](size_t i) { return (double)i; });
        shapes<VD>(a, b, [](size_t i) { return (double)i / 7 - 3; }, 3);
        shapes<VA>(a, b, [](size_t i) { return (double)i * 1.5 - 10; });
        shapes<std::vector<int>>(a, b, [](size_t i) { return (int)i * 37 - 100; });
        shapes<std::vector<float>>(a, b, [](size_t i) { return (float)i * 0.25f; });
        shapes<std::vector<long>>(a, b, [](size_t i) { return (long)i << 33; });
        shapes<std::vector<unsigned>>(a, b, [](size_t i) { return 4000000000u + (unsigned)i; });
      });
  for (size_t a : {1, 2, 3, 50, 100})
    for (size_t b : {1, 2, 60, 101, 300}) {
      mc::single(strf("shape %zux%zu", a, b), [=] { shapes<VD>(a, b, [](size_t i) { return (double)i; }); });
      mc::single(strf("shape %zux%zu", b, a), [=] { shapes<VD>(b, a, [](size_t i) { return (double)i; }); });
    }
  mc::single("special values", [=] {
    const double sp[] = {0.0, -0.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 1e300, -1e-300, 4.9e-324, 1.0 / 3, 1e6, 123456, 1234567, 0.1, 1e-5, 100000, 999999.5, -1};
    for (size_t a = 1; a <= 5; a++)
      for (size_t b = 1; b <= 5; b++)
        for (size_t s = 0; s < 16; s++) shapes<VD>(a, b, [=](size_t i) { return sp[(i + s) % 16]; });
  });
  // fewer entries than the shape needs
  size_t lim = th ? 7 : 5;
  for (size_t a = 1; a <= lim; a++)
    for (size_t b = 1; b <= lim; b++)
      mc::single(strf("too small for %zux%zu", a, b), [=] {
        for (size_t have = 0; have < a * b; have++) {
          too_small<VD>(RECT, a, b, have);
          too_small<VD>(TRECT, a, b, have);
          too_small<VA>(RECT, a, b, have);
          too_small<std::vector<int>>(TRECT, a, b, have);
          if (a == b) too_small<VD>(SQ, a, b, have), too_small<VD>(TSQ, a, b, have), too_small<VA>(TSQ, a, b, have);
        }
      });
  // sequences of prints
  for (int h = 0; h < 64; h++)
    mc::single(strf("sequence %d", h), [=] {
      VD m(12);
      for (size_t i = 0; i < 12; i++) m[i] = (double)i + 0.5;
      for (int k = 0, x = h; k < 3; k++, x /= 4) {
        int f = x % 4;
        if (f == SQ || f == TSQ) print(f, 3, 3, m);
        else print(f, 3 + k % 2, 3, m);
      }
    });
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
