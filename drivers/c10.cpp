// C10: make_tiled / undo_tiling / flat_index
#include "tiling.hpp"
using namespace vp;

template <size_t dim, typename T, typename A> static void roundtrip(const Shape &s, size_t salt = 0) {
  typedef std::vector<T, A> V;
  size_t n = s.cells();
  V org(n);
  for (size_t i = 0; i < n; i++) org[i] = Elem<T>::make(i + salt);
  const V org0 = org;
  const T *place = org.data();
  auto info = s.info();
  const auto &cinfo = info;
  scribble();
  V tiled = memory_layout::make_tiled<dim>(org, cinfo);
  if (org.data() != place || !(org == org0)) mc::fail("%s: make_tiled changed its input", s.str().c_str());
  std::vector<size_t> from = tiled_order(s);
  if (tiled.size() != n) mc::fail("%s: make_tiled returned %zu entries instead of %zu", s.str().c_str(), tiled.size(), n);
  for (size_t k = 0; k < n; k++)
    if (!(tiled[k] == org0[from[k]]))
      mc::fail("%s: entry %zu of the tiled array is %s instead of %s (cell %zu)", s.str().c_str(), k, shown(tiled[k]).c_str(), shown(org0[from[k]]).c_str(), from[k]);
  const V tiled0 = tiled;
  place = tiled.data();
  scribble();
  V back = memory_layout::undo_tiling<dim>(tiled, cinfo);
  if (tiled.data() != place || !(tiled == tiled0)) mc::fail("%s: undo_tiling changed its input", s.str().c_str());
  if (back.size() != n) mc::fail("%s: undo_tiling returned %zu entries instead of %zu", s.str().c_str(), back.size(), n);
  for (size_t k = 0; k < n; k++)
    if (!(back[k] == org0[k])) mc::fail("%s: undone entry %zu is %s instead of %s", s.str().c_str(), k, shown(back[k]).c_str(), shown(org0[k]).c_str());
  // undoing an arbitrary array (not the result of make_tiled) is the inverse rearrangement
  V back2 = memory_layout::undo_tiling<dim>(org, cinfo);
  for (size_t k = 0; k < n; k++)
    if (!(back2[from[k]] == org0[k])) mc::fail("%s: undo_tiling is not the inverse permutation at %zu", s.str().c_str(), k);
  if (!(org == org0)) mc::fail("%s: undo_tiling changed its input", s.str().c_str());
  for (size_t d = 0; d < dim; d++)
    if (info[d].tile_size_dir != s.tile[d] || info[d].stride != s.ext[d]) mc::fail("%s: the tiling description was changed", s.str().c_str());
  mc::count(1, 3 * n + 1);
}
template <size_t dim, typename T> static void rt(const Shape &s) { roundtrip<dim, T, std::allocator<T>>(s); }
template <size_t dim, typename T> static void art(const Shape &s) { roundtrip<dim, T, boost::alignment::aligned_allocator<T, 64>>(s); }

template <size_t dim> static size_t reference_flat(const size_t *i, const size_t *n) {
  size_t r = 0;
  for (size_t d = 0; d < dim; d++) r = r * n[d] + i[d];
  return r;
}
template <size_t dim> static void flat_one(const std::vector<size_t> &i, const std::vector<size_t> &n) {
  size_t ci[dim], cn[dim];
  std::array<size_t, dim> ai, an;
  for (size_t d = 0; d < dim; d++) ci[d] = ai[d] = i[d], cn[d] = an[d] = n[d];
  size_t want = reference_flat<dim>(ci, cn);
  size_t g1 = memory_layout::flat_index(ci, cn), g2 = memory_layout::flat_index(ai, an);
  if (g1 != want || g2 != want)
    mc::fail("flat_index(%s, %s) is %zu (C arrays), %zu (std::array) instead of %zu", mc::vec_str(i).c_str(), mc::vec_str(n).c_str(), g1, g2, want);
  mc::count(0, 2);
}
template <size_t dim> static void flat(size_t hi) {
  std::vector<size_t> n0(dim, 0), lim(dim, hi);
  do {
    std::vector<size_t> n(n0);
    for (auto &x : n) x++;
    mc::single(strf("flat_index dim=%zu %s", dim, mc::vec_str(n).c_str()), [=] {
      std::vector<size_t> i(dim, 0);
      do flat_one<dim>(i, n);
      while (next(i, n));
    });
  } while (next(n0, lim));
  // shapes whose indices need more than 16 / 31 / 32 bits
  for (size_t big : {(size_t)300, (size_t)70000, (size_t)1 << 31, (size_t)1 << 33})
    for (size_t at = 0; at < dim; at++)
      mc::single(strf("flat_index dim=%zu big=%zu at %zu", dim, big, at), [=] {
        std::vector<size_t> n(dim, 3);
        n[at] = big;
        for (size_t v : {(size_t)0, (size_t)1, big / 2, big - 1}) {
          std::vector<size_t> i(dim, 2);
          i[at] = v;
          flat_one<dim>(i, n);
        }
      });
}
template <size_t dim> static void dims(size_t lo, size_t hi, size_t max_cells) {
  auto sd = sides(lo, hi);
  // group by first side to keep the number of cases moderate
  all_shapes(dim, sd, max_cells, [&](const Shape &s) {
    mc::single(strf("dim=%zu %s", dim, s.str().c_str()), [=] {
      rt<dim, double>(s);
      rt<dim, long>(s);
      art<dim, double>(s);
    });
  });
}
template <size_t dim> static void types(size_t lo, size_t hi, size_t max_cells) {
  auto sd = sides(lo, hi);
  all_shapes(dim, sd, max_cells, [&](const Shape &s) {
    mc::single(strf("types dim=%zu %s", dim, s.str().c_str()), [=] {
      rt<dim, std::string>(s);
      rt<dim, Fat>(s);
      rt<dim, int>(s);
      rt<dim, float>(s);
      rt<dim, unsigned char>(s);
      rt<dim, short>(s);
      art<dim, float>(s);
      art<dim, Fat>(s);
    });
  });
}
template <size_t dim> static void one(std::vector<size_t> e, std::vector<size_t> t) {
  Shape s;
  s.ext = e;
  s.tile = t;
  mc::single("large " + s.str(), [=] {
    rt<dim, long>(s);
    art<dim, double>(s);
  });
}
// Arrays with more than 2^31 cells of which only a few are not zero: memory exists only for those.
struct Sparse8 {
  unsigned char v;
  Sparse8() = default;
  Sparse8(const Sparse8 &) = default;
  Sparse8 &operator=(const Sparse8 &o) {
    if (v != o.v) v = o.v;
    return *this;
  }
};
template <size_t dim> static void huge(std::vector<size_t> e, std::vector<size_t> t) {
  Shape s;
  s.ext = e;
  s.tile = t;
  mc::single("huge " + s.str(), [=] {
    typedef std::vector<Sparse8, Sparse<Sparse8>> V;
    size_t n = s.cells(), nt = 0;
    auto mark = [&](size_t i) { return (unsigned char)(1 + mix(i) % 255); };
    V org(n);
    std::vector<size_t> marks;
    for (size_t i = 0; i < n; i += 3000017) marks.push_back(i);
    marks.push_back(n - 1);
    for (size_t i : marks) org[i].v = mark(i);
    auto info = s.info();
    V tiled = memory_layout::make_tiled<dim>(org, info);
    if (tiled.size() != n) mc::fail("%s: %zu cells", s.str().c_str(), tiled.size());
    for (const Sparse8 &c : tiled) nt += c.v != 0;
    if (nt != marks.size()) mc::fail("%s: %zu of %zu cells are left after tiling", s.str().c_str(), nt, marks.size());
    for (size_t i : marks) {
      size_t r = i, tile = 0, in = 0;
      std::vector<size_t> at(dim);
      for (size_t d = dim; d-- > 0;) at[d] = r % s.ext[d], r /= s.ext[d];
      for (size_t d = 0; d < dim; d++) tile = tile * (s.ext[d] / s.tile[d]) + at[d] / s.tile[d], in = in * s.tile[d] + at[d] % s.tile[d];
      if (tiled[tile * s.tile_cells() + in].v != mark(i)) mc::fail("%s: cell %zu is not where it belongs", s.str().c_str(), i);
    }
    V back = memory_layout::undo_tiling<dim>(tiled, info);
    if (back.size() != n) mc::fail("%s: %zu cells after undoing", s.str().c_str(), back.size());
    nt = 0;
    for (const Sparse8 &c : back) nt += c.v != 0;
    for (size_t i : marks)
      if (nt != marks.size() || back[i].v != mark(i)) mc::fail("%s: cell %zu is not restored", s.str().c_str(), i);
    mc::count(2, marks.size());
  });
}
// sequences of tilings: no state survives from one call to the next
static void histories() {
  std::vector<Shape> pool(6);
  pool[0].ext = {4, 6}, pool[0].tile = {2, 3};
  pool[1].ext = {6, 4}, pool[1].tile = {3, 2};
  pool[2].ext = {8, 8}, pool[2].tile = {8, 1};
  pool[3].ext = {0, 4}, pool[3].tile = {1, 2};
  pool[4].ext = {2, 12}, pool[4].tile = {2, 4};
  pool[5].ext = {1, 1}, pool[5].tile = {1, 1};
  // every pair of shapes with 12 cells, with the same and with other contents
  std::vector<Shape> twelve;
  all_shapes(2, sides(1, 12), 12, [&](const Shape &s) {
    if (s.cells() == 12) twelve.push_back(s);
  });
  for (size_t a = 0; a < twelve.size(); a++)
    mc::single("pairs with " + twelve[a].str(), [=] {
      for (const Shape &b : twelve) {
        roundtrip<2, double, std::allocator<double>>(twelve[a], 1);
        roundtrip<2, double, std::allocator<double>>(b, 1);
        roundtrip<2, double, std::allocator<double>>(twelve[a], 100);
        roundtrip<2, double, std::allocator<double>>(b, 200);
      }
    });
  // the same arrays with other contents
  for (const Shape &s : twelve)
    mc::single("other contents " + s.str(), [=] {
      std::vector<long> org(12), tiled(12);
      auto info = s.info();
      std::vector<size_t> from = tiled_order(s);
      for (long round = 0; round < 4; round++) {
        for (size_t i = 0; i < 12; i++) org[i] = (long)mix(i + 100 * round);
        std::vector<long> t = memory_layout::make_tiled<2>(org, info);
        for (size_t i = 0; i < 12; i++) tiled[i] = t[i];
        std::vector<long> u = memory_layout::undo_tiling<2>(tiled, info);
        for (size_t i = 0; i < 12; i++)
          if (t[i] != org[from[i]] || u[i] != org[i]) mc::fail("%s: wrong entry %zu after the contents have changed", s.str().c_str(), i);
      }
      mc::count(4, 96);
    });
  for (int a = 0; a < 6; a++)
    for (int b = 0; b < 6; b++)
      for (int c = 0; c < 6; c++)
        mc::single(strf("history %d,%d,%d", a, b, c), [=] {
          Shape t3;
          t3.ext = {2, 4, 6}, t3.tile = {1, 2, 3};
          rt<2, double>(pool[a]);
          rt<3, double>(t3);
          rt<2, double>(pool[b]);
          art<2, double>(pool[c]);
          rt<2, double>(pool[c]);
        });
}
// copying an element lets the other threads run
struct Slow {
  long v = 0;
  Slow() = default;
  Slow(long v) : v(v) {}
  Slow(const Slow &o) : v(o.v) {}
  Slow &operator=(const Slow &o) {
    mc::point();
    v = o.v;
    return *this;
  }
  bool operator==(const Slow &o) const { return v == o.v; }
};
static std::string shown(const Slow &s) { return strf("%ld", s.v); }
static void concurrent() {
  typedef boost::alignment::aligned_allocator<double, 64> AD;
  typedef std::allocator<Slow> AS;
  for (int t : {2, 3}) {
    together(strf("2-d %d", t), t, [](int i) { roundtrip<2, double, AD>(Shape{{4, (size_t)(2 + 2 * i)}, {2, (size_t)(1 + i % 2)}}, i * 1000); });
    together(strf("3-d %d", t), t, [](int i) { roundtrip<3, double, AD>(Shape{{2, (size_t)(2 + 2 * i), 3}, {1, 2, (size_t)(i % 2 ? 3 : 1)}}, i * 1000); });
    together(strf("1-d slow %d", t), t, [](int i) { roundtrip<1, Slow, AS>(Shape{{(size_t)(4 + 2 * i)}, {(size_t)2}}, i * 1000); });
    together(strf("2-d slow %d", t), t, [](int i) { roundtrip<2, Slow, AS>(Shape{{(size_t)(2 + 2 * i), 2}, {(size_t)(1 + i % 2), (size_t)(i == 1 ? 2 : 1)}}, i * 1000); });
    together(strf("3-d slow %d", t), t, [](int i) { roundtrip<3, Slow, AS>(Shape{{2, 2, (size_t)(1 + i)}, {1, (size_t)(i % 2 ? 1 : 2), 1}}, i * 1000); });
    // one array and one description for all of them
    together(strf("one array %d", t), t, [](int i) {
      static std::vector<double> org;
      static std::vector<memory_layout::tiling_info_dim> info;
      const Shape s{{4, 6}, {2, 3}};
#pragma omp critical
      if (org.size() != 24) {
        for (size_t k = 0; k < 24; k++) org.push_back(Elem<double>::make(k));
        info = s.info();
      }
      std::vector<size_t> from = tiled_order(s);
      std::vector<double> r = i % 2 ? memory_layout::undo_tiling<2>(org, info) : memory_layout::make_tiled<2>(org, info);
      for (size_t k = 0; k < 24; k++)
        if (i % 2 ? r.at(from[k]) != Elem<double>::make(k) : r.at(k) != Elem<double>::make(from[k])) mc::fail("wrong entry %zu", k);
    });
  }
}
static void enumerate() {
  concurrent();
  if (mc::mode_is("tsan")) return;
  bool th = mc::tier_thorough(), asan = !mc::mode_is("fast");
  dims<1>(0, asan ? 64 : 256, 1000);
  dims<2>(0, th ? 36 : asan ? 16 : 24, 10000);
  dims<3>(0, th ? 10 : asan ? 6 : 8, 10000);
  dims<4>(1, th ? 6 : asan ? 3 : 4, 10000);
  dims<4>(0, 2, 100);
  dims<5>(1, !asan ? 3 : 2, 10000);
  dims<6>(1, asan ? 2 : 3, 1000);
  dims<7>(2, 2, 1000);
  types<1>(0, 12, 100);
  types<2>(0, 9, 100);
  types<3>(1, 4, 100);
  if (!asan) types<4>(1, 2, 100);
  flat<1>(40);
  flat<2>(12);
  flat<3>(6);
  flat<4>(3);
  flat<5>(3);
  flat<6>(2);
  histories();
  // beyond 2^8, 2^15, 2^16 cells / entries per side
  one<1>({300}, {100});
  one<1>({70000}, {7});
  one<1>({70000}, {35000});
  one<1>({70000}, {70000});
  one<1>({140000}, {70000});
  one<2>({256, 256}, {4, 4});
  one<2>({256, 512}, {4, 8});
  one<2>({512, 256}, {64, 2});
  one<2>({40, 600}, {8, 300});
  one<2>({600, 40}, {300, 8});
  one<2>({2, 70000}, {1, 7});
  one<2>({70000, 2}, {7, 2});
  one<2>({260, 262}, {260, 131});
  one<2>({100, 60}, {5, 6});
  one<2>({97, 101}, {97, 1});
  one<2>({97, 101}, {1, 101});
  one<3>({48, 60, 64}, {4, 5, 8});
  one<3>({64, 8, 300}, {32, 8, 1});
  one<3>({300, 8, 64}, {1, 2, 64});
  one<3>({12, 300, 20}, {3, 150, 5});
  one<4>({12, 10, 14, 18}, {3, 5, 7, 2});
  one<5>({6, 8, 4, 10, 9}, {2, 4, 2, 5, 3});
  one<6>({4, 6, 4, 6, 8, 4}, {2, 3, 4, 1, 4, 2});
  one<8>({2, 3, 4, 2, 3, 4, 2, 3}, {2, 1, 2, 1, 3, 4, 1, 3});
  if (!asan) {
    huge<2>({32769, 65536}, {3, 256});
    if (th) huge<1>({4294967298}, {2147483649}), huge<2>({65537, 65536}, {65537, 2}), huge<3>({1025, 2048, 2049}, {25, 128, 683});
  }
  if (mc::mode_is("fast")) {
    one<2>({1000, 1200}, {8, 16});
    one<2>({2048, 1024}, {1024, 512});
    one<1>({3000000}, {1000});
    one<3>({128, 130, 132}, {64, 65, 66});
  }
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
