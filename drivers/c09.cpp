// C09: loop-nest helpers
#include "memory_layout/loop_nest.hpp"
#include "common.hpp"
#include <functional>
#include <limits>
#include <memory>
#define main learning_main
#include "learning/MetaProgrammingCPP.cpp"
#undef main
using namespace vp;

template <typename T> static std::string ts(const std::vector<T> &v) {
  std::string s = "(";
  for (size_t i = 0; i < v.size(); i++) s += strf("%s%g", i ? "," : "", (double)v[i]);
  return s + ")";
}
template <typename T> static std::vector<std::vector<T>> grid(const std::vector<T> &mn, const std::vector<T> &mx, const std::vector<T> &st) {
  std::vector<std::vector<T>> r = {{}};
  for (size_t d = 0; d < mn.size(); d++) {
    std::vector<std::vector<T>> n;
    std::vector<T> ax;
    for (long double v = (long double)mn[d]; v < (long double)mx[d]; v += (long double)st[d]) // 64 bits of mantissa: exact
      ax.push_back((T)v);
    for (auto &p : r)
      for (T a : ax) {
        n.push_back(p);
        n.back().push_back(a);
      }
    r.swap(n);
  }
  return r;
}
template <typename T> static void compare(const char *what, const std::vector<T> &mn, const std::vector<T> &mx, const std::vector<T> &st, const std::vector<std::vector<T>> &got, const std::vector<std::vector<T>> &want) {
  for (size_t i = 0; i < std::max(got.size(), want.size()); i++)
    if (i >= got.size() || i >= want.size() || got[i] != want[i])
      mc::fail("%s min=%s max=%s step=%s: call %zu is %s instead of %s", what, ts(mn).c_str(), ts(mx).c_str(), ts(st).c_str(), i, i < got.size() ? ts(got[i]).c_str() : "missing", i < want.size() ? ts(want[i]).c_str() : "none");
  mc::count(1, want.size() + 1);
}
template <size_t dim, typename T> static void check(const std::vector<T> &mn, const std::vector<T> &mx, const std::vector<T> &st) {
  auto want = grid(mn, mx, st);
  size_t limit = want.size() + 8;
  std::vector<std::vector<T>> g1, g2;
  T a[dim], b[dim], s[dim];
  std::array<T, dim> aa, ab, as;
  for (size_t d = 0; d < dim; d++) a[d] = aa[d] = mn[d], b[d] = ab[d] = mx[d], s[d] = as[d] = st[d];
  util::loop_nest(a, b, s, [&](const T(&i)[dim]) {
    mc::point();
    if (g1.size() < limit) g1.push_back(std::vector<T>(i, i + dim));
    else mc::fail("loop_nest (C array) min=%s max=%s step=%s: too many calls", ts(mn).c_str(), ts(mx).c_str(), ts(st).c_str());
  });
  compare("loop_nest (C array)", mn, mx, st, g1, want);
  util::loop_nest(aa, ab, as, [&](const std::array<T, dim> &i) {
    mc::point();
    if (g2.size() < limit) g2.push_back(std::vector<T>(i.begin(), i.end()));
    else mc::fail("loop_nest (std::array) min=%s max=%s step=%s: too many calls", ts(mn).c_str(), ts(mx).c_str(), ts(st).c_str());
  });
  compare("loop_nest (std::array)", mn, mx, st, g2, want);
  for (size_t d = 0; d < dim; d++)
    if (a[d] != mn[d] || b[d] != mx[d] || s[d] != st[d] || aa[d] != mn[d] || ab[d] != mx[d] || as[d] != st[d]) mc::fail("loop_nest changed its bounds");
}
// all combinations of the given one-dimensional ranges
template <size_t dim, typename T> static void all(const char *tn, const std::vector<std::array<T, 3>> &ranges) {
  size_t per = 1;
  for (size_t d = 1; d < dim; d++) per *= ranges.size();
  for (size_t r0 = 0; r0 < ranges.size(); r0++)
    mc::single(strf("%s dim=%zu first range %g..%g step %g", tn, dim, (double)ranges[r0][0], (double)ranges[r0][1], (double)ranges[r0][2]), [=] {
      for (size_t c = 0; c < per; c++) {
        std::vector<T> mn, mx, st;
        size_t x = c;
        for (size_t d = 0; d < dim; d++) {
          size_t r = d == 0 ? r0 : x % ranges.size();
          if (d) x /= ranges.size();
          mn.push_back(ranges[r][0]);
          mx.push_back(ranges[r][1]);
          st.push_back(ranges[r][2]);
        }
        check<dim, T>(mn, mx, st);
      }
    });
}
template <typename T> static std::vector<std::array<T, 3>> ranges(const std::vector<double> &mins, const std::vector<double> &lens, const std::vector<double> &steps) {
  std::vector<std::array<T, 3>> r;
  for (double m : mins)
    for (double l : lens)
      for (double s : steps) r.push_back({{(T)m, (T)(m + l), (T)s}});
  return r;
}
template <size_t dim, typename T, size_t... I> static void looper_one(T mn, T mx) {
  std::vector<std::vector<T>> got;
  auto want = grid(std::vector<T>(dim, mn), std::vector<T>(dim, mx), std::vector<T>(dim, T(1)));
  Looper<dim, T> l(mn, mx);
  for (int again = 0; again < 2; again++) {
    got.clear();
    l.iterate_simple([&](auto... args) {
      mc::point();
      if (got.size() > want.size() + 8) mc::fail("Looper<%zu>(%g,%g): too many calls", dim, (double)mn, (double)mx);
      got.push_back(std::vector<T>{args...});
    });
    compare("Looper", std::vector<T>(dim, mn), std::vector<T>(dim, mx), std::vector<T>(dim, T(1)), got, want);
  }
}
template <typename T> static void looper(const char *tn, std::vector<T> mins) {
  mc::single(strf("Looper %s", tn), [=] {
    for (T mn : mins)
      for (int len = 0; len <= 6; len++) {
        looper_one<1, T>(mn, (T)(mn + len));
        looper_one<2, T>(mn, (T)(mn + len));
        looper_one<3, T>(mn, (T)(mn + len));
        looper_one<4, T>(mn, (T)(mn + len));
        if (len) looper_one<2, T>((T)(mn + len), mn);
      }
    for (int n = 7; n < 40; n++) looper_one<2, T>(0, (T)n), looper_one<1, T>(0, (T)(3 * n));
  });
}
// explicit ranges, for bounds that cannot be written as min + length in double
template <typename T> static std::vector<std::array<T, 3>> product(const std::vector<T> &mins, const std::vector<T> &maxs, const std::vector<T> &steps) {
  std::vector<std::array<T, 3>> r;
  for (T m : mins)
    for (T x : maxs)
      for (T s : steps)
        if (x <= std::numeric_limits<T>::max() - s) r.push_back({{m, x, s}});
  return r;
}
// every lower bound, upper bound and step of an 8-bit index type that the statement allows
template <typename T> static void every_range(const char *tn) {
  const int lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  for (int mn = lo; mn <= hi; mn++)
    mc::single(strf("%s every range from %d", tn, mn), [=] {
      size_t ranges = 0;
      for (int mx = lo; mx <= hi; mx++)
        for (int st = 1; mx + st <= hi; st++) {
          T a[1] = {(T)mn}, b[1] = {(T)mx}, s[1] = {(T)st};
          std::array<T, 1> aa = {{(T)mn}}, ab = {{(T)mx}}, as = {{(T)st}};
          for (int kind = 0; kind < 2; kind++) {
            int expect = mn, *e = &expect;
            auto visit = [=](int got) {
              if (*e >= mx || got != *e) mc::fail("loop_nest (%s) %s min=%d max=%d step=%d: called with %d, expected %s %d", kind ? "std::array" : "C array", tn, mn, mx, st, got, *e >= mx ? "no call after" : "", *e);
              *e += st;
            };
            if (kind) util::loop_nest(aa, ab, as, [=](const std::array<T, 1> &i) { visit(i[0]); });
            else util::loop_nest(a, b, s, [=](const T(&i)[1]) { visit(i[0]); });
            if (expect < mx) mc::fail("loop_nest (%s) %s min=%d max=%d step=%d: not called with %d", kind ? "std::array" : "C array", tn, mn, mx, st, expect);
          }
          ranges++;
        }
      mc::count(ranges, 2 * ranges);
    });
}
// a function object that carries its state along by value
template <typename T, size_t dim> struct Carrier {
  std::vector<int> tag;
  std::shared_ptr<std::vector<std::vector<T>>> log;
  void see(const T *i) const {
    if (tag.size() != 3 || tag[1] != 22 || !log) mc::fail("the function object has lost its state after %zu calls", log ? log->size() : (size_t)0);
    log->push_back(std::vector<T>(i, i + dim));
  }
  void operator()(const T (&i)[dim]) const { see(i); }
  void operator()(const std::array<T, dim> &i) const { see(i.data()); }
};
template <size_t dim, typename T> static void call_nest(std::array<T, dim> &a, std::array<T, dim> &b, std::array<T, dim> &s, const std::function<void(const std::array<T, dim> &)> &f) { util::loop_nest(a, b, s, f); }
template <size_t dim, typename T> static void call_nest(T (&a)[dim], T (&b)[dim], T (&s)[dim], const std::function<void(const T(&)[dim])> &f) { util::loop_nest(a, b, s, f); }
template <typename A, typename F> static void call_nest(A &, A &, A &, const F &) {} // the other kind of function
template <size_t dim> static void functors() {
  for (int kind = 0; kind < 2; kind++)
    mc::single(strf("function objects dim=%zu %s", dim, kind ? "std::array" : "C array"), [=] {
      typedef size_t T;
      for (size_t n = 0; n <= 3; n++)
        for (size_t st = 1; st <= 2; st++) {
          std::vector<T> mn(dim, 1), mx(dim, 1 + n), sv(dim, st);
          T a[dim], b[dim], s[dim];
          std::array<T, dim> aa, ab, as;
          for (size_t d = 0; d < dim; d++) a[d] = aa[d] = 1, b[d] = ab[d] = 1 + n, s[d] = as[d] = st;
          auto want = grid(mn, mx, sv);
          auto run = [&](auto f) {
            if (kind) util::loop_nest(aa, ab, as, f);
            else util::loop_nest(a, b, s, f);
          };
          Carrier<T, dim> c{{11, 22, 33}, std::make_shared<std::vector<std::vector<T>>>()};
          run(c);
          compare("function object with state", mn, mx, sv, *c.log, want);
          if (c.tag.size() != 3) mc::fail("the caller's function object was changed");
          std::vector<std::vector<T>> got;
          std::function<void(const std::array<T, dim> &)> fa = [&](const std::array<T, dim> &i) { got.push_back(std::vector<T>(i.begin(), i.end())); };
          std::function<void(const T(&)[dim])> fc = [&](const T(&i)[dim]) { got.push_back(std::vector<T>(i, i + dim)); };
          if (kind) util::loop_nest(aa, ab, as, fa);
          else util::loop_nest(a, b, s, fc);
          compare("std::function", mn, mx, sv, got, want);
          // a nest inside the function of a nest
          got.clear();
          std::vector<std::vector<T>> in;
          size_t outer = 0;
          auto inner = [&](const auto &i) { in.push_back(std::vector<T>(std::begin(i), std::end(i))); };
          run([&](const auto &i) {
            std::vector<T> before(std::begin(i), std::end(i));
            in.clear();
            run(inner);
            compare("inner nest", mn, mx, sv, in, want);
            std::vector<T> after(std::begin(i), std::end(i));
            if (before != after) mc::fail("the index tuple changes while the function runs");
            got.push_back(after);
            outer++;
          });
          compare("outer nest", mn, mx, sv, got, want);
          // the same with one type of function for both
          got.clear();
          auto recurse = [&](auto f) {
            int depth = 0;
            f = [&](const auto &i) {
              std::vector<T> before(std::begin(i), std::end(i));
              if (depth == 0) {
                depth++;
                in.clear();
                if (kind) call_nest(aa, ab, as, f);
                else call_nest(a, b, s, f);
                compare("inner nest of the same function", mn, mx, sv, in, want);
                depth--;
                std::vector<T> after(std::begin(i), std::end(i));
                if (before != after) mc::fail("the index tuple changes while the function runs a nest of its own");
                got.push_back(after);
              } else in.push_back(before);
            };
            if (kind) call_nest(aa, ab, as, f);
            else call_nest(a, b, s, f);
          };
          if (kind) recurse(std::function<void(const std::array<T, dim> &)>());
          else recurse(std::function<void(const T(&)[dim])>());
          compare("outer nest of the same function", mn, mx, sv, got, want);
          // leaving a nest by an exception at every point, then using it again
          for (size_t stop = 0; stop < want.size(); stop++) {
            got.clear();
            bool caught = false;
            try {
              run([&](const auto &i) {
                if (got.size() == stop) throw 5;
                got.push_back(std::vector<T>(std::begin(i), std::end(i)));
              });
            } catch (int) { caught = true; }
            if (!caught || got.size() != stop) mc::fail("an exception of the function does not end the nest at call %zu", stop);
            got.clear();
            run([&](const auto &i) { got.push_back(std::vector<T>(std::begin(i), std::end(i))); });
            compare("nest after an exception", mn, mx, sv, got, want);
          }
        }
    });
}
template <typename T> static void every_looper(const char *tn) {
  mc::single(strf("Looper %s every range", tn), [] {
    const int lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    for (int mn = lo; mn <= hi; mn++)
      for (int mx = lo; mx < hi; mx++) looper_one<1, T>((T)mn, (T)mx);
    for (int mn = lo; mn <= hi; mn += 5)
      for (int mx = lo; mx < hi; mx += mx < mn ? 17 : mx < mn + 12 ? 1 : 60) looper_one<2, T>((T)mn, (T)mx);
  });
  mc::single(strf("Looper %s nested", tn), [] {
    for (int n = 0; n < 5; n++) {
      Looper<2, T> l(0, (T)n);
      std::vector<int> got, want;
      std::vector<int> tag = {1, 2, 3};
      l.iterate_simple([&, tag](T a, T b) {
        l.iterate_simple([&, tag](T c, T d) {
          if (tag.size() != 3) mc::fail("the function object has lost its state");
          got.push_back(((a * 10 + b) * 10 + c) * 10 + d);
        });
        if (tag.size() != 3) mc::fail("the function object has lost its state");
      });
      for (int a = 0; a < n; a++)
        for (int b = 0; b < n; b++)
          for (int c = 0; c < n; c++)
            for (int d = 0; d < n; d++) want.push_back(((a * 10 + b) * 10 + c) * 10 + d);
      if (got != want) mc::fail("nested Looper 0..%d: wrong calls", n);
      mc::count(1, want.size());
    }
  });
}
static void concurrent() {
  for (int t : {2, 3}) {
    together(strf("1-d %d", t), t, [](int i) { check<1, size_t>({(size_t)i}, {(size_t)(i * 3 + 2)}, {1}); check<1, int>({-i}, {2}, {1 + i}); });
    together(strf("2-d %d", t), t, [](int i) { check<2, size_t>({(size_t)i, 1}, {(size_t)i + 2, 3}, {1, 1}); });
    together(strf("3-d %d", t), t, [](int i) { check<3, long>({i, 10 * i, 0}, {i + 2, 10 * i + 3, 2}, {1, 2, 1}); });
    together(strf("4-d %d", t), t, [](int i) { check<4, unsigned>({0u, (unsigned)i, 7u, 1u}, {2u, (unsigned)i + 2, 9u, 2u}, {1, 1, 1, 1}); });
    together(strf("looper %d", t), t, [](int i) { looper_one<1, size_t, 0>(i, i + 3); looper_one<2, size_t, 0, 1>(i + 1, i + 3); looper_one<3, int, 0, 1, 2>(-i, 2 - i); });
  }
}
static void enumerate() {
  concurrent();
  if (mc::mode_is("tsan")) return;
  every_looper<unsigned char>("unsigned char"), every_looper<signed char>("signed char");
  functors<1>(), functors<2>(), functors<3>(), functors<4>();
  if (mc::mode_is("fast")) {
    every_range<unsigned char>("unsigned char");
    every_range<signed char>("signed char");
  }
  {
    const size_t M = std::numeric_limits<size_t>::max();
    const std::vector<size_t> ends = {0, 1, 2, 7, (size_t)1 << 31, ((size_t)1 << 63) - 1, (size_t)1 << 63, M - 9, M - 3, M - 2, M - 1, M};
    std::vector<std::array<size_t, 3>> rs;
    for (auto &r : product<size_t>(ends, ends, {1, 2, 3, 9, (size_t)1 << 31, (size_t)1 << 62, (size_t)1 << 63, M}))
      if (r[1] <= r[0] || (r[1] - r[0]) / r[2] < 50) rs.push_back(r);
    all<1, size_t>("size_t ends", rs);
    if (mc::mode_is("fast")) all<2, size_t>("size_t ends", rs);
    const long L = std::numeric_limits<long>::max(), S = std::numeric_limits<long>::min();
    const std::vector<long> lends = {S, S + 1, S + 5, -1, 0, 1, L - 5, L - 1, L};
    std::vector<std::array<long, 3>> ls;
    for (auto &r : product<long>(lends, lends, {1, 2, 3, 1l << 62, L}))
      if (r[1] <= r[0] || ((unsigned long)r[1] - (unsigned long)r[0]) / (unsigned long)r[2] < 50) ls.push_back(r);
    all<1, long>("long ends", ls);
    if (mc::mode_is("fast")) all<2, long>("long ends", ls);
    const unsigned U = std::numeric_limits<unsigned>::max();
    std::vector<std::array<unsigned, 3>> us;
    for (auto &r : product<unsigned>({0, 1, 5, 1u << 31, U - 4, U}, {0, 1, 5, (1u << 31) - 1, 1u << 31, U - 4, U - 1, U}, {1, 2, 3, 1u << 31, U}))
      if (r[1] <= r[0] || (r[1] - r[0]) / r[2] < 50) us.push_back(r);
    all<2, unsigned>("unsigned ends", us);
  }
  bool th = mc::tier_thorough();
  all<1, size_t>("size_t", ranges<size_t>({0, 1, 5, 1000}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 31, 32, 33, 64, 100, 255, 256, 257, 1000}, {1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 100, 1001}));
  all<2, size_t>("size_t", ranges<size_t>({0, 3}, {0, 1, 2, 3, 4, 5, 7, 8, 9}, {1, 2, 3, 4, 10}));
  all<3, size_t>("size_t", ranges<size_t>({0, 2}, {0, 1, 2, 3, 5}, {1, 2, 3}));
  all<4, size_t>("size_t", th ? ranges<size_t>({0, 2}, {0, 1, 2, 3}, {1, 2}) : ranges<size_t>({0, 2}, {0, 1, 3}, {1, 2}));
  all<5, size_t>("size_t", ranges<size_t>({1}, {0, 1, 3}, {1, 2}));
  all<6, size_t>("size_t", ranges<size_t>({0}, {1, 2}, {1, 2}));
  all<7, int>("int", ranges<int>({-1}, {1, 2}, {1}));
  all<1, int>("int", ranges<int>({-5, -1, 0, 7, -1000}, {-3, -1, 0, 1, 2, 3, 4, 5, 8, 9, 100}, {1, 2, 3, 5, 50}));
  all<2, int>("int", ranges<int>({-4, 0, 3}, {-1, 0, 1, 2, 3, 5}, {1, 2, 4}));
  all<3, int>("int", ranges<int>({-1}, {-1, 0, 1, 2, 3}, {1, 2}));
  all<1, long>("long", ranges<long>({-5000000000.0, 0, 5000000000.0}, {0, 1, 2, 7}, {1, 3}));
  all<1, size_t>("size_t large", ranges<size_t>({4294967295.0, 4294967296.0, 1099511627776.0}, {0, 1, 2, 7}, {1, 3}));
  all<2, size_t>("size_t large", ranges<size_t>({4294967295.0}, {0, 1, 4}, {1, 3}));
  all<1, size_t>("size_t large step", ranges<size_t>({0, 7}, {4294967296.0 * 3, 4294967296.0 * 5 + 1}, {4294967296.0, 4294967297.0}));
  all<2, short>("short", ranges<short>({-300, 0, 3}, {0, 1, 2, 5}, {1, 2, 3}));
  all<2, unsigned char>("unsigned char", ranges<unsigned char>({0, 3, 200}, {0, 1, 2, 5, 50}, {1, 2, 4}));
  all<2, signed char>("signed char", ranges<signed char>({-100, 0, 3}, {-1, 0, 1, 2, 5}, {1, 2, 4}));
  all<2, unsigned>("unsigned", ranges<unsigned>({0, 3, 4000000000.0}, {0, 1, 2, 5}, {1, 2, 4}));
  all<2, double>("double", ranges<double>({-1.5, 0, 0.25}, {-1, 0, 0.5, 1, 2.25}, {0.25, 0.5, 1}));
  looper<size_t>("size_t", {0, 1, 5, 4294967295ul});
  looper<int>("int", {-3, 0, 2});
  looper<unsigned char>("unsigned char", {0, 3});
  looper<long>("long", {-3, 0, 5000000000l});
  mc::single("learning example", [] {
    std::string t;
    {
      mc::CaptureCout cap;
      learning_main();
      t = cap.text();
    }
    std::string want;
    for (int a = 0; a < 10; a++)
      for (int b = 0; b < 10; b++) want += strf("%s(%d, %d)", a || b ? ", " : "", a, b);
    while (!t.empty() && t.back() == '\n') t.pop_back();
    if (t != want) mc::fail("the example prints %s", t.c_str());
  });
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
