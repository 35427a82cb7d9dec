// C04: work distribution of the distributed multiplication
#define private public
#define protected public
#include "variants/static_improved.hpp"
#undef private
#undef protected
#include "common.hpp"
using namespace vp;
typedef multiply_components::static_improved SI;
typedef unsigned __int128 u128;

// -1: too close to call in floating point
static int within(const std::vector<uint64_t> &w, uint64_t maxdiff, double rel) {
  uint64_t mn = w[0], mx = w[0];
  for (uint64_t v : w) mn = std::min(mn, v), mx = std::max(mx, v);
  if (mx - mn < maxdiff) return 1;
  if (mn == 0) return 0;
  long double r = (long double)(mx - mn) / (long double)mn;
  long double d = r - (long double)rel;
  long double scale = std::max((long double)1e-300, fabsl(r) + fabsl((long double)rel));
  double rel8 = rel * 1024;
  bool dyadic = rel8 == std::floor(rel8) && std::fabs(rel8) < 1e9 && mx < (1ull << 40) && (mx - mn) / mn < 256;
  if (!dyadic && fabsl(d) < 1e-12L * scale) return -1;
  return r < (long double)rel;
}

struct Params {
  size_t N, nodes;
  uint64_t minw, maxd;
  double rel;
};
static std::string str(const Params &p) { return strf("N=%zu nodes=%zu min_work=%lu max_diff=%lu max_rel=%g", p.N, p.nodes, p.minw, p.maxd, p.rel); }

static void check_schedule(const Params &p, const std::vector<std::vector<matrix_multiply_work>> &s) {
  if (s.size() != p.nodes) mc::fail("%s: schedule for %zu nodes", str(p).c_str(), s.size());
  std::vector<uint64_t> load(p.nodes, 0);
  std::vector<matrix_multiply_work> all;
  for (size_t i = 0; i < s.size(); i++)
    for (const matrix_multiply_work &w : s[i]) {
      if (w.x > p.N || w.y > p.N || w.N > p.N - w.x || w.N > p.N - w.y) mc::fail("%s: package (%zu,%zu)+%zu leaves the matrix", str(p).c_str(), w.x, w.y, w.N);
      load[i] += w.N * w.N;
      all.push_back(w);
      if (w.N != p.N) {
        // a proper package is the half of one that was larger than the minimum work size
        if (2 * w.N <= p.minw) mc::fail("%s: a package of edge %zu was split", str(p).c_str(), 2 * w.N);
        size_t e = w.N;
        while (e && e < p.N) e *= 2;
        if (e != p.N) mc::fail("%s: package edge %zu is no result of halving %zu", str(p).c_str(), w.N, p.N);
      }
    }
  // every cell exactly once
  if (p.N <= 256) {
    std::vector<unsigned char> seen(p.N * p.N, 0);
    for (auto &w : all)
      for (size_t i = 0; i < w.N; i++)
        for (size_t j = 0; j < w.N; j++)
          if (seen[(w.x + i) * p.N + w.y + j]++) mc::fail("%s: cell (%zu,%zu) is handed out twice", str(p).c_str(), w.x + i, w.y + j);
    for (size_t i = 0; i < p.N * p.N; i++)
      if (!seen[i]) mc::fail("%s: cell (%zu,%zu) is not handed out", str(p).c_str(), i / p.N, i % p.N);
  } else {
    uint64_t area = 0;
    for (size_t a = 0; a < all.size(); a++) {
      area += all[a].N * all[a].N;
      for (size_t b = a + 1; b < all.size(); b++)
        if (all[a].x < all[b].x + all[b].N && all[b].x < all[a].x + all[a].N && all[a].y < all[b].y + all[b].N && all[b].y < all[a].y + all[a].N)
          mc::fail("%s: packages (%zu,%zu)+%zu and (%zu,%zu)+%zu overlap", str(p).c_str(), all[a].x, all[a].y, all[a].N, all[b].x, all[b].y, all[b].N);
    }
    if (area != (uint64_t)p.N * p.N) mc::fail("%s: packages cover %lu of %lu cells", str(p).c_str(), area, (uint64_t)p.N * p.N);
  }
  // before any split everything is on the first node
  std::vector<uint64_t> first(p.nodes, 0);
  first[0] = (uint64_t)p.N * p.N;
  if (within(first, p.maxd, p.rel) == 1 || p.N <= p.minw || p.N % 2) {
    if (p.N && (s[0].size() != 1 || s[0][0].N != p.N)) mc::fail("%s: work was split although the undivided work must be kept", str(p).c_str());
  }
  // it ends only when balanced or stuck
  if (within(load, p.maxd, p.rel) == 0) {
    uint64_t mn = load[0], mx = load[0];
    for (uint64_t v : load) mn = std::min(mn, v), mx = std::max(mx, v);
    for (size_t i = 0; i < s.size(); i++)
      if (load[i] == mx)
        for (const matrix_multiply_work &w : s[i])
          if (w.N > p.minw && w.N % 2 == 0) {
            int64_t h = (int64_t)(w.N * w.N / 2);
            int64_t d = std::llabs((int64_t)mx - h - ((int64_t)mn + h));
            if ((uint64_t)d <= mx - mn && w.N) mc::fail("%s: not balanced (loads %lu..%lu), but the package of edge %zu of node %zu could have been halved", str(p).c_str(), mn, mx, w.N, i);
          }
  }
  uint64_t h = 0;
  for (size_t i = 0; i < s.size(); i++)
    for (auto &w : s[i]) h = mix(h ^ (i * 31 + w.x * 7 + w.y * 3 + w.N));
  mc::outcome(h);
  mc::count(1, all.size());
}
static std::vector<double> &none() {
  static std::vector<double> v;
  return v;
}
static void schedule(const Params &p, uint64_t verbose = 0) {
  std::vector<double> A, B;
  SI m(p.N, A, B, false, 0, 1, p.minw, p.maxd, p.rel, 1, verbose);
  auto s = m.create_schedule(p.nodes);
  check_schedule(p, s);
  if (verbose) m.print_schedule(s);
}

// sizes whose result would not fit in memory: the schedule only depends on the stated size
template <typename M> static auto resize(M &m, size_t n, int) -> decltype(m.N = n, true) {
  m.N = n;
  return m.N == n;
}
template <typename M> static bool resize(M &, size_t, long) { return false; }
static void huge_schedule(const Params &p) {
  std::vector<double> A, B;
  SI m(0, A, B, false, 0, 1, p.minw, p.maxd, p.rel, 1, 0);
  if (resize(m, p.N, 0)) check_schedule(p, m.create_schedule(p.nodes));
}

// reads the assembled result: the member if there is one, otherwise by a multiplication without repetitions
template <typename M> static auto result(M &m, int) -> decltype(std::vector<double>(m.C)) { return m.C; }
template <typename M> static std::vector<double> result(M &m, long) { return m.matrix_multiply(); }

static void insert_sequence(size_t N, const std::vector<matrix_multiply_work> &ws) {
  std::vector<double> A(N * N, 1.0), B(N * N, 1.0);
  SI m(N, A, B, false, 0, 1, 1, 0, 0.1, 0, 0);
  std::vector<double> want = result(m, 0);
  if (want.size() != N * N) return;
  double v = 1;
  for (auto &w : ws) {
    std::vector<double> sub(w.N * w.N);
    for (double &x : sub) x = v++;
    std::vector<double> sub0 = sub;
    matrix_multiply_work w2 = w;
    m.insert_submatrix(sub, w2);
    if (sub != sub0 || w2.x != w.x || w2.y != w.y || w2.N != w.N) mc::fail("insert_submatrix changed its arguments");
    for (size_t i = 0; i < w.N; i++)
      for (size_t j = 0; j < w.N; j++) want[(w.x + i) * N + w.y + j] = sub[i * w.N + j];
  }
  expect_matrix("insert_submatrix", result(m, 0), want, N);
}

static void enumerate() {
  bool th = mc::tier_thorough(), fast = mc::mode_is("fast");
  // acceptance test: all load vectors over an alphabet
  std::vector<uint64_t> al = {0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 20, 21, 22, 30, 31, 63, 64, 65, 100, 105, 110, 1000, 1048576, 1048577, 1153434, 4294967296ull, 4294967297ull, 4509715661ull};
  std::vector<uint64_t> small = {0, 1, 2, 3, 4, 10, 11, 12, 4294967296ull};
  std::vector<uint64_t> maxds = {0, 1, 2, 3, 5, 10, 11, 64, 1000, 4294967296ull, 4294967297ull};
  std::vector<double> rels = {0.0, 0.05, 0.1, 0.125, 0.25, 0.5, 1.0, 1.5, 2.0, 10.0, 1000000.0, -1.0};
  for (uint64_t maxd : maxds)
    for (double rel : rels)
      mc::single(strf("acceptance max_diff=%lu max_rel=%g", maxd, rel), [=] {
        SI m(2, none(), none(), false, 0, 1, 1, maxd, rel, 1, 0);
        auto test = [&](std::vector<uint64_t> w) {
          int want = within(w, maxd, rel);
          auto w0 = w;
          bool got = m.fulfills_constraints(w);
          if (w != w0) mc::fail("fulfills_constraints changed its argument");
          if (want >= 0 && got != (want == 1)) {
            std::string s;
            for (uint64_t v : w) s += strf(" %lu", v);
            mc::fail("loads%s: reported %d instead of %d", s.c_str(), got, want);
          }
          mc::count(1, 1);
        };
        for (uint64_t a : al) {
          test({a});
          for (uint64_t b : al) {
            test({a, b});
            for (uint64_t c : al) test({a, b, c});
          }
        }
        for (uint64_t a : small)
          for (uint64_t b : small)
            for (uint64_t c : small)
              for (uint64_t d : small) {
                test({a, b, c, d});
                if (th || fast)
                  for (uint64_t e : small) test({a, b, c, d, e});
              }
      });
  // schedules
  size_t nmax = fast ? (th ? 130 : 72) : (th ? 48 : 26);
  for (size_t N = 0; N <= nmax; N++)
    for (size_t nodes = 1; nodes <= (th ? 17u : 10u); nodes++)
      mc::single(strf("schedule N=%zu nodes=%zu", N, nodes), [=] {
        std::vector<uint64_t> mws = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, N / 4, N / 2, N / 2 + 1, N ? N - 1 : 0, N, N + 1};
        std::vector<uint64_t> mds = {0, 1, 2, 4, 5, 8, 10, 16, 17, 64, N, N * N / 2, N * N, N * N + 1, 10000};
        for (uint64_t mw : mws) {
          if (mw == 0 && N > 32) mw = 1;
          if (N > 32 && mw < 4 && nodes > 4) continue;
          for (uint64_t md : mds)
            for (double rel : {0.0, 0.05, 0.1, 0.3, 0.5, 1.0, 2.0}) schedule({N, nodes, mw, md, rel});
        }
        schedule({N, nodes, 4, 0, 0.1}, 1);
      });
  if (fast) {
    std::vector<size_t> big = {96, 100, 120, 128, 144, 160, 192, 200, 224, 240, 255, 256, 257, 320, 384, 400, 448, 480, 500, 511, 512, 513, 600, 640, 768, 1000, 1024, 1536, 2048};
    for (size_t N : big)
      for (size_t nodes : {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 32, 33, 64, 65, 100, 129, 257})
        mc::single(strf("large schedule N=%zu nodes=%zu", N, nodes), [=] {
          for (uint64_t mw : {N / 16, N / 16 + 1, N / 8, N / 4, N / 2, N, (size_t)64, (size_t)128, (size_t)256})
            for (uint64_t md : {(uint64_t)0, (uint64_t)1, (uint64_t)10000, (uint64_t)N * N / 8})
              for (double rel : {0.0, 0.05, 0.2, 1.0})
                if (N / std::max<size_t>(mw, 1) <= 16) schedule({N, nodes, mw, md, rel});
        });
  }
  if (fast) {
    std::vector<size_t> huge = {4096, 8192, 16384, 32768, 46340, 46342, 50000, 65535, 65536, 65538, 92682, 100000, 131072, 196608, 262144, 1000000, 1048576, 1ull << 24, 3ull << 28, (1ull << 30) - 2, 1ull << 30};
    for (size_t N : huge)
      for (size_t nodes : {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 32, 33, 64, 65, 100, 129, 257})
        mc::single(strf("huge schedule N=%zu nodes=%zu", N, nodes), [=] {
          for (uint64_t mw : {N / 16, N / 16 + 1, N / 8, N / 4, N / 2, N - 1, N})
            for (uint64_t md : {(uint64_t)0, (uint64_t)1, (uint64_t)10000, (uint64_t)N * N / 8, (uint64_t)N * N / 2, (uint64_t)N * N})
              for (double rel : {0.0, 0.05, 0.2, 1.0, 2.5}) huge_schedule({N, nodes, mw, md, rel});
        });
  }
  // the same object again
  for (size_t N : {0, 1, 2, 6, 8, 12, 16})
    mc::single(strf("repeated schedules N=%zu", N), [=] {
      for (size_t a = 1; a <= 5; a++)
        for (size_t b = 1; b <= 5; b++) {
          std::vector<double> A, B;
          SI m(N, A, B, false, 0, 1, 2, 3, 0.1, 1, 0);
          check_schedule({N, a, 2, 3, 0.1}, m.create_schedule(a));
          check_schedule({N, b, 2, 3, 0.1}, m.create_schedule(b));
          check_schedule({N, a, 2, 3, 0.1}, m.create_schedule(a));
        }
    });
  // assembling the result
  mc::Opts one;
  for (size_t N = 0; N <= (th ? 9u : 7u); N++)
    mc::explore(strf("insert N=%zu", N), one, [=] {
      for (size_t n = 0; n <= N; n++)
        for (size_t x = 0; x + n <= N; x++)
          for (size_t y = 0; y + n <= N; y++) {
            insert_sequence(N, {matrix_multiply_work(x, y, n)});
            for (size_t n2 = 1; n2 <= std::min<size_t>(N, 2); n2++)
              for (size_t x2 = 0; x2 + n2 <= N; x2++)
                for (size_t y2 = 0; y2 + n2 <= N; y2++) insert_sequence(N, {matrix_multiply_work(x, y, n), matrix_multiply_work(x2, y2, n2)});
          }
    });
  for (size_t N : {16, 31, 32, 33, 64, 65, 100, 129, 257})
    mc::explore(strf("insert larger N=%zu", N), one, [=] {
      for (size_t n : {(size_t)1, (size_t)4, (size_t)8, (size_t)15, (size_t)16, N / 2, N - 1, N})
        for (size_t x : {(size_t)0, (N - std::min(n, N)) / 2, N - std::min(n, N)})
          for (size_t y : {(size_t)0, (N - std::min(n, N)) / 3, N - std::min(n, N)})
            if (n <= N) insert_sequence(N, {matrix_multiply_work(x, y, n)});
    });
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
