// C11: iterate_tiles and tile_view
#include "tiling.hpp"
#include <functional>
#include <memory>
using namespace vp;

template <size_t dim> static std::array<size_t, dim> arr(const std::vector<size_t> &v) {
  std::array<size_t, dim> a;
  for (size_t d = 0; d < dim; d++) a[d] = v[d];
  return a;
}
template <typename View, size_t... I> static auto &call_view(View &v, const std::vector<size_t> &c, std::index_sequence<I...>) { return v(c[I]...); }

// the whole contract of one view
template <size_t dim, typename T, typename A> static void check_view(const char *how, const Shape &s, std::vector<T, A> &data, memory_layout::tile_view<dim, T, A> &v, const std::vector<size_t> &t, const std::vector<T, A> &now) {
  size_t tc = s.tile_cells(), number = 0;
  for (size_t d = 0; d < dim; d++) {
    size_t nt = s.ext[d] / s.tile[d];
    number = number * nt + t[d];
    if (v.get_tile_index()[d] != t[d]) mc::fail("%s %s: view of tile %s reports coordinate %zu in dimension %zu", how, s.str().c_str(), mc::vec_str(t).c_str(), v.get_tile_index()[d], d);
    if (v.get_tiles_dir()[d] != nt) mc::fail("%s %s: view reports %zu tiles in dimension %zu instead of %zu", how, s.str().c_str(), v.get_tiles_dir()[d], d, nt);
  }
  if (v.size() != tc) mc::fail("%s %s: view reports %zu entries instead of %zu", how, s.str().c_str(), v.size(), tc);
  std::vector<size_t> i(dim, 0);
  size_t k = 0;
  do {
    size_t want = number * tc + k;
    const T *at = data.data() + want;
    if (v.flat_index(arr<dim>(i)) != k) mc::fail("%s %s: flat_index(%s) is %zu instead of %zu", how, s.str().c_str(), mc::vec_str(i).c_str(), v.flat_index(arr<dim>(i)), k);
    if (&v[k] != at) mc::fail("%s %s tile %s: [%zu] reaches entry %ld instead of %zu", how, s.str().c_str(), mc::vec_str(t).c_str(), k, (long)(&v[k] - data.data()), want);
    if (&v[arr<dim>(i)] != at) mc::fail("%s %s tile %s: [%s] reaches entry %ld instead of %zu", how, s.str().c_str(), mc::vec_str(t).c_str(), mc::vec_str(i).c_str(), (long)(&v[arr<dim>(i)] - data.data()), want);
    auto &viacall = call_view(v, i, std::make_index_sequence<dim>());
    if (&viacall != at) mc::fail("%s %s tile %s: (%s) reaches entry %ld instead of %zu", how, s.str().c_str(), mc::vec_str(t).c_str(), mc::vec_str(i).c_str(), (long)(&viacall - data.data()), want);
    if (!(*at == now[want])) mc::fail("%s %s tile %s: entry %zu was changed by reading", how, s.str().c_str(), mc::vec_str(t).c_str(), want);
    k++;
  } while (next(i, s.tile));
  mc::count(1, 3 * k);
}
template <size_t dim, typename T, typename A> static void shape(const Shape &s) {
  typedef std::vector<T, A> V;
  size_t n = s.cells(), tc = s.tile_cells();
  V org(n);
  for (size_t i = 0; i < n; i++) org[i] = Elem<T>::make(i);
  V data = org, now = org;
  auto info = s.info();
  const auto &cinfo = info;
  std::vector<size_t> nt(dim);
  size_t tiles = 1;
  for (size_t d = 0; d < dim; d++) nt[d] = s.ext[d] / s.tile[d], tiles *= nt[d];
  std::vector<size_t> t(dim, 0);
  size_t seen = 0;
  const T *place = data.data();
  scribble();
  // reads and writes in the callback; every other tile through another interface
  memory_layout::iterate_tiles<dim>(data, cinfo, [&](auto v) {
    if (seen >= tiles) mc::fail("%s: iterate_tiles hands out more than %zu views", s.str().c_str(), tiles);
    mc::point();
    check_view<dim, T, A>("iterate_tiles", s, data, v, t, now);
    auto copy = v;
    std::vector<size_t> i(dim, 0);
    size_t k = 0;
    do {
      T val = Elem<T>::make(n + 7 * (seen * tc + k) + 3);
      if (k % 3 == 0) v[k] = val;
      else if (k % 3 == 1) copy[arr<dim>(i)] = val;
      else call_view(v, i, std::make_index_sequence<dim>()) = val;
      now[seen * tc + k] = val;
      k++;
    } while (next(i, s.tile));
    if (!(data == now)) mc::fail("%s: writing through the view of tile %s changed other cells or missed some", s.str().c_str(), mc::vec_str(t).c_str());
    seen++;
    next(t, nt);
  });
  if (seen != tiles) mc::fail("%s: iterate_tiles handed out %zu views instead of %zu", s.str().c_str(), seen, tiles);
  if (!(data == now) || data.data() != place) mc::fail("%s: array differs from what was written through the views", s.str().c_str());
  // views constructed directly, last tile first, several alive at once
  if (tiles) {
    typedef memory_layout::tile_view<dim, T, A> View;
    std::vector<View> views;
    std::vector<std::vector<size_t>> coords;
    std::vector<size_t> c(dim, 0);
    do coords.push_back(c);
    while (next(c, nt));
    for (size_t x = coords.size(); x-- > 0;) {
      size_t ci[dim];
      for (size_t d = 0; d < dim; d++) ci[d] = coords[x][d];
      View v(data, ci, info);
      for (size_t d = 0; d < dim; d++) ci[d] = 77777; // the view must not depend on the caller's array
      check_view<dim, T, A>("tile_view", s, data, v, coords[x], now);
      if (views.size() < 64) views.push_back(v);
    }
    for (size_t x = 0; x < views.size(); x++) check_view<dim, T, A>("kept tile_view", s, data, views[x], coords[coords.size() - 1 - x], now);
  }
  for (size_t d = 0; d < dim; d++)
    if (info[d].tile_size_dir != s.tile[d] || info[d].stride != s.ext[d]) mc::fail("%s: the tiling description was changed", s.str().c_str());
}
template <size_t dim, typename T> static void std_(const Shape &s) { shape<dim, T, std::allocator<T>>(s); }
template <size_t dim, typename T> static void ali(const Shape &s) { shape<dim, T, boost::alignment::aligned_allocator<T, 64>>(s); }

template <size_t dim> static void dims(size_t lo, size_t hi, size_t max_cells) {
  all_shapes(dim, sides(lo, hi), max_cells, [&](const Shape &s) {
    mc::single(strf("dim=%zu %s", dim, s.str().c_str()), [=] {
      std_<dim, long>(s);
      ali<dim, double>(s);
    });
  });
}
template <size_t dim> static void types(size_t lo, size_t hi, size_t max_cells) {
  all_shapes(dim, sides(lo, hi), max_cells, [&](const Shape &s) {
    mc::single(strf("types dim=%zu %s", dim, s.str().c_str()), [=] {
      std_<dim, std::string>(s);
      std_<dim, Fat>(s);
      std_<dim, int>(s);
      std_<dim, float>(s);
      ali<dim, short>(s);
    });
  });
}
template <size_t dim> static void one(std::vector<size_t> e, std::vector<size_t> t) {
  Shape s;
  s.ext = e;
  s.tile = t;
  mc::single("large " + s.str(), [=] { std_<dim, long>(s); });
}

template <size_t dim> static void huge(std::vector<size_t> e, std::vector<size_t> t) {
  Shape s;
  s.ext = e;
  s.tile = t;
  mc::single("huge " + s.str(), [=] {
    typedef std::vector<char, Sparse<char>> V;
    size_t n = s.cells(), tc = s.tile_cells(), seen = 0;
    V data(n);
    std::vector<size_t> at(dim, 0), nt(dim);
    for (size_t d = 0; d < dim; d++) nt[d] = s.ext[d] / s.tile[d];
    size_t tiles = n / tc;
    auto info = s.info();
    memory_layout::iterate_tiles<dim>(data, info, [&](auto v) {
      if (seen >= tiles) mc::fail("%s: too many views", s.str().c_str());
      if (v.size() != tc) mc::fail("%s: view reports %zu entries instead of %zu", s.str().c_str(), v.size(), tc);
      for (size_t d = 0; d < dim; d++)
        if (v.get_tile_index()[d] != at[d] || v.get_tiles_dir()[d] != nt[d]) mc::fail("%s: view of tile %s reports tile coordinate %zu of %zu in dimension %zu", s.str().c_str(), mc::vec_str(at).c_str(), v.get_tile_index()[d], v.get_tiles_dir()[d], d);
      // corners and middles of the tile
      size_t combos = 1;
      for (size_t d = 0; d < dim; d++) combos *= 3;
      for (size_t c = 0; c < combos; c++) {
        std::vector<size_t> i(dim);
        size_t x = c, k = 0;
        for (size_t d = 0; d < dim; d++, x /= 3) i[d] = x % 3 == 0 ? 0 : x % 3 == 1 ? s.tile[d] / 2 : s.tile[d] - 1;
        for (size_t d = 0; d < dim; d++) k = k * s.tile[d] + i[d];
        char *want = data.data() + seen * tc + k;
        if (v.flat_index(arr<dim>(i)) != k || &v[k] != want || &v[arr<dim>(i)] != want || &call_view(v, i, std::make_index_sequence<dim>()) != want)
          mc::fail("%s tile %s: offset %s reaches another entry than %zu", s.str().c_str(), mc::vec_str(at).c_str(), mc::vec_str(i).c_str(), seen * tc + k);
      }
      mc::count(1, combos);
      seen++;
      next(at, nt);
    });
    if (seen != tiles) mc::fail("%s: %zu views instead of %zu", s.str().c_str(), seen, tiles);
  });
}
// views constructed directly at corner tiles of arrays with more than 2^32 entries or tiles
template <size_t dim> static void far(std::vector<size_t> e, std::vector<size_t> t) {
  Shape s;
  s.ext = e;
  s.tile = t;
  mc::single("far views " + s.str(), [=] {
    typedef std::vector<char, Sparse<char>> V;
    V data(s.cells());
    auto info = s.info();
    size_t combos = 1, tc = s.tile_cells();
    for (size_t d = 0; d < dim; d++) combos *= 4;
    for (size_t c = 0; c < combos; c++) {
      size_t at[dim], number = 0, x = c;
      std::vector<size_t> nt(dim);
      for (size_t d = 0; d < dim; d++, x /= 4) {
        nt[d] = s.ext[d] / s.tile[d];
        at[d] = x % 4 == 0 ? 0 : x % 4 == 1 ? std::min<size_t>(1, nt[d] - 1) : x % 4 == 2 ? nt[d] / 2 : nt[d] - 1;
        if (at[d] >= nt[d]) at[d] = nt[d] - 1;
        number = number * nt[d] + at[d];
      }
      memory_layout::tile_view<dim, char, Sparse<char>> v(data, at, info);
      if (v.size() != tc) mc::fail("%s: view reports %zu entries instead of %zu", s.str().c_str(), v.size(), tc);
      for (size_t d = 0; d < dim; d++)
        if (v.get_tile_index()[d] != at[d] || v.get_tiles_dir()[d] != nt[d]) mc::fail("%s: wrong coordinates of a far tile", s.str().c_str());
      for (size_t c2 = 0; c2 < combos; c2++) {
        std::vector<size_t> i(dim);
        size_t y = c2, k = 0;
        for (size_t d = 0; d < dim; d++, y /= 4) i[d] = y % 4 == 0 ? 0 : y % 4 == 1 ? (s.tile[d] > 1) : y % 4 == 2 ? s.tile[d] / 2 : s.tile[d] - 1;
        for (size_t d = 0; d < dim; d++) k = k * s.tile[d] + i[d];
        char *want = data.data() + number * tc + k;
        if (v.flat_index(arr<dim>(i)) != k || &v[k] != want || &v[arr<dim>(i)] != want || &call_view(v, i, std::make_index_sequence<dim>()) != want)
          mc::fail("%s tile number %zu: offset %s reaches entry %ld instead of %zu", s.str().c_str(), number, mc::vec_str(i).c_str(), (long)(&v[arr<dim>(i)] - data.data()), number * tc + k);
      }
      mc::count(1, 4 * combos);
    }
  });
}
// histories of writes through two views that are alive together
static void interleaved_views() {
  for (int order = 0; order < 16; order++)
    for (int a = 0; a < 4; a++)
      for (int b = 0; b < 4; b++)
        mc::single(strf("two views tiles %d,%d order %d", a, b, order), [=] {
          Shape s;
          s.ext = {4, 6}, s.tile = {2, 3};
          std::vector<long> data(24), now(24);
          for (int i = 0; i < 24; i++) data[i] = now[i] = 100 + i;
          size_t ia[2] = {(size_t)a / 2, (size_t)a % 2}, ib[2] = {(size_t)b / 2, (size_t)b % 2};
          auto info = s.info();
          memory_layout::tile_view<2, long, std::allocator<long>> va(data, ia, info), vb(data, ib, info);
          for (int step = 0; step < 4; step++) {
            bool use_b = (order >> step) & 1;
            auto &v = use_b ? vb : va;
            for (size_t k = step; k < 6; k += 2) {
              v[k] = 1000 * (step + 1) + (long)k;
              now[(use_b ? b : a) * 6 + k] = 1000 * (step + 1) + (long)k;
            }
            std::array<size_t, 2> c = {{(size_t)step % 2, (size_t)step % 3}};
            v(c[0], c[1]) += 5;
            now[(use_b ? b : a) * 6 + c[0] * 3 + c[1]] += 5;
            if (data != now) mc::fail("step %d: writes through the views of tiles %d and %d went astray", step, a, b);
          }
          mc::count(4, 4);
        });
}
template <typename View> static std::vector<size_t> coordinates(View &v) {
  auto c = v.get_tile_index();
  return std::vector<size_t>(c.begin(), c.end());
}
// the coordinates of a view can be written through the references it returns, if it does
template <typename View> static auto overwrite(View &v, int) -> decltype((void)v.get_tile_index().fill(1), (void)v.get_tiles_dir().fill(1)) {
  auto &&a = v.get_tile_index();
  auto &&b = v.get_tiles_dir();
  a.fill(1000);
  b.fill(1000);
}
template <typename View> static void overwrite(View &, long) {}
// the function handed to iterate_tiles: state carried by value, views that outlive the iteration, nesting, exceptions
template <size_t dim> static void functors(std::vector<size_t> e, std::vector<size_t> t) {
  Shape s;
  s.ext = e;
  s.tile = t;
  mc::single("functions " + s.str(), [=] {
    typedef std::vector<long> V;
    typedef memory_layout::tile_view<dim, long, std::allocator<long>> View;
    V data(s.cells());
    for (size_t i = 0; i < data.size(); i++) data[i] = 100 + (long)i;
    V now = data;
    std::vector<std::vector<size_t>> coords;
    std::vector<size_t> c(dim, 0), nt(dim);
    size_t tiles = 1;
    for (size_t d = 0; d < dim; d++) nt[d] = s.ext[d] / s.tile[d], tiles *= nt[d];
    if (tiles) do coords.push_back(c);
      while (next(c, nt));
    // kept views, used after the iteration and after the description is gone
    {
      std::vector<View> kept;
      {
        std::vector<memory_layout::tiling_info_dim> info = s.info();
        memory_layout::iterate_tiles<dim>(data, info, [&](View v) { kept.push_back(v); });
        for (auto &x : info) x.tile_size_dir = 1, x.stride = 1;
      }
      scribble();
      if (kept.size() != tiles) mc::fail("%s: %zu views instead of %zu", s.str().c_str(), kept.size(), tiles);
      for (size_t x = 0; x < tiles; x++) check_view<dim>("kept view", s, data, kept[x], coords[x], now);
    }
    {
      std::vector<View> kept;
      for (size_t x = 0; x < tiles; x++) {
        auto *info = new std::vector<memory_layout::tiling_info_dim>(s.info());
        size_t ci[dim];
        for (size_t d = 0; d < dim; d++) ci[d] = coords[x][d];
        View v(data, ci, *info);
        for (auto &y : *info) y.tile_size_dir = 1, y.stride = 1;
        delete info;
        kept.push_back(v);
        View temp(data, ci, s.info());
        check_view<dim>("view from a temporary description", s, data, temp, coords[x], now);
        kept.push_back(temp);
      }
      for (size_t x = 0; x < kept.size(); x++) check_view<dim>("kept view", s, data, kept[x], coords[x / 2], now);
    }
    auto info = s.info();
    // state by value
    std::vector<int> tag = {1, 2, 3};
    auto log = std::make_shared<std::vector<std::vector<size_t>>>();
    memory_layout::iterate_tiles<dim>(data, info, [tag, log](View v) {
      if (tag.size() != 3) mc::fail("the function object has lost its state");
      log->push_back(coordinates(v));
    });
    if (*log != coords) mc::fail("%s: wrong tiles for a function object with state", s.str().c_str());
    std::vector<std::vector<size_t>> got;
    std::function<void(View)> fn = [&](View v) { got.push_back(coordinates(v)); };
    memory_layout::iterate_tiles<dim>(data, info, fn);
    if (got != coords) mc::fail("%s: wrong tiles for a std::function", s.str().c_str());
    // nested iteration, coordinates changed through the view's references
    size_t outer = 0;
    memory_layout::iterate_tiles<dim>(data, info, [&](View v) {
      size_t in = 0;
      memory_layout::iterate_tiles<dim>(data, info, [&](View w) {
        check_view<dim>("inner view", s, data, w, coords[in], now);
        overwrite(w, 0);
        in++;
      });
      if (in != tiles) mc::fail("%s: inner iteration sees %zu tiles", s.str().c_str(), in);
      check_view<dim>("outer view", s, data, v, coords[outer], now);
      overwrite(v, 0);
      outer++;
    });
    if (outer != tiles) mc::fail("%s: outer iteration sees %zu tiles", s.str().c_str(), outer);
    for (size_t stop = 0; stop < tiles; stop++) {
      size_t n = 0;
      bool caught = false;
      try {
        memory_layout::iterate_tiles<dim>(data, info, [&](View) {
          if (n == stop) throw 5;
          n++;
        });
      } catch (int) { caught = true; }
      if (!caught || n != stop) mc::fail("%s: an exception at tile %zu does not end the iteration", s.str().c_str(), stop);
      n = 0;
      memory_layout::iterate_tiles<dim>(data, info, [&](View v) { check_view<dim>("after an exception", s, data, v, coords[n++], now); });
      if (n != tiles) mc::fail("%s: %zu tiles after an exception", s.str().c_str(), n);
    }
  });
}
static void pairs() {
  std::vector<Shape> twelve;
  all_shapes(2, sides(1, 12), 12, [&](const Shape &s) {
    if (s.cells() == 12) twelve.push_back(s);
  });
  for (size_t a = 0; a < twelve.size(); a++)
    mc::single("pairs with " + twelve[a].str(), [=] {
      for (const Shape &b : twelve) {
        std_<2, long>(twelve[a]);
        std_<2, long>(b);
        std_<2, long>(twelve[a]);
        std_<2, long>(b);
      }
    });
}
static void concurrent() {
  typedef std::allocator<double> A;
  for (int t : {2, 3}) {
    together(strf("1-d %d", t), t, [](int i) { shape<1, double, A>(Shape{{(size_t)(4 + 2 * i)}, {(size_t)2}}); });
    together(strf("2-d %d", t), t, [](int i) { shape<2, double, A>(Shape{{(size_t)(2 + 2 * i), 3}, {2, (size_t)(i % 2 ? 3 : 1)}}); });
    together(strf("3-d %d", t), t, [](int i) { shape<3, double, A>(Shape{{2, (size_t)(1 + i), 4}, {1, 1, (size_t)(i % 2 ? 2 : 4)}}); });
    // every thread writes to tiles of its own of one array
    together(strf("one array %d", t), t, [](int i) {
      static std::vector<double> *data;
      static int done;
      const Shape s{{6, 4}, {2, 2}};
      static std::vector<memory_layout::tiling_info_dim> info;
#pragma omp critical
      if (!data) data = new std::vector<double>(24, -1.0), done = 0, info = s.info();
      int number = 0;
      memory_layout::iterate_tiles<2>(*data, info, [&](auto v) {
        mc::point();
        if (number++ % 3 != i) return;
        for (size_t k = 0; k < 4; k++) v[k] = 100.0 * (double)v.get_tile_index()[0] + 10.0 * (double)v.get_tile_index()[1] + (double)k;
      });
      number = 0;
      memory_layout::iterate_tiles<2>(*data, info, [&](auto v) {
        if (number++ % 3 != i) return;
        mc::point();
        for (size_t k = 0; k < 4; k++)
          if (v(k / 2, k % 2) != 100.0 * (double)v.get_tile_index()[0] + 10.0 * (double)v.get_tile_index()[1] + (double)k) mc::fail("a tile does not hold what was written to it");
      });
#pragma omp critical
      if (++done == mc::env().omp_threads) delete data, data = nullptr;
    });
  }
}
static void enumerate() {
  concurrent();
  if (mc::mode_is("tsan")) return;
  pairs();
  functors<1>({6}, {2});
  functors<1>({0}, {2});
  functors<1>({5}, {5});
  functors<2>({4, 6}, {2, 3});
  functors<2>({6, 4}, {3, 1});
  functors<2>({0, 6}, {2, 3});
  functors<3>({2, 4, 6}, {1, 2, 3});
  functors<3>({3, 4, 2}, {3, 2, 2});
  functors<4>({2, 3, 4, 2}, {2, 1, 2, 1});
  bool th = mc::tier_thorough(), asan = !mc::mode_is("fast");
  dims<1>(0, asan ? 64 : 200, 1000);
  dims<2>(0, th ? 36 : asan ? 16 : 24, 10000);
  dims<3>(0, th ? 10 : asan ? 6 : 8, 10000);
  dims<4>(1, th ? 6 : asan ? 3 : 4, 10000);
  dims<4>(0, 2, 100);
  dims<5>(1, !asan ? 3 : 2, 10000);
  dims<6>(1, asan ? 2 : 3, 1000);
  dims<7>(2, 2, 1000);
  types<1>(0, 10, 100);
  types<2>(0, 8, 100);
  types<3>(1, 4, 100);
  interleaved_views();
  one<1>({700}, {100});
  one<1>({1200}, {300});
  one<2>({64, 64}, {4, 4});
  one<2>({40, 300}, {40, 300});
  one<2>({300, 40}, {300, 20});
  one<3>({30, 8, 12}, {10, 4, 3});
  one<4>({6, 5, 8, 9}, {3, 5, 4, 3});
  one<5>({4, 3, 6, 2, 6}, {2, 3, 2, 1, 3});
  one<6>({2, 4, 2, 4, 3, 4}, {1, 2, 2, 2, 3, 4});
  one<8>({2, 3, 2, 2, 3, 2, 2, 1}, {2, 1, 2, 1, 3, 2, 1, 1});
  if (mc::mode_is("fast")) {
    const size_t G = (size_t)1 << 30, M = (size_t)1 << 20;
    huge<1>({9 * G}, {G});
    huge<1>({6 * G}, {3 * G});
    huge<1>({70000}, {10});
    huge<1>({140000}, {2});
    far<1>({8 * G}, {1});
    far<1>({9 * G}, {3});
    far<1>({10 * G}, {5 * G});
    far<2>({2, 4 * G}, {1, 1});
    far<2>({4 * G, 2}, {1, 1});
    far<2>({3, 6 * G}, {1, 6 * G});
    far<2>({6 * G, 3}, {6 * G, 1});
    far<2>({1 << 17, 1 << 17}, {1, 1});
    far<2>({1 << 17, 1 << 17}, {1 << 16, 1 << 17});
    far<2>({1 << 17, 1 << 17}, {1 << 17, 1 << 16});
    far<2>({100000, 90000}, {10, 9});
    far<3>({4, 1 << 17, 1 << 16}, {2, 1, 1});
    far<3>({4, 1 << 17, 1 << 16}, {1, 1 << 17, 1 << 16});
    far<3>({1 << 16, 4, 1 << 17}, {1, 2, 1 << 16});
    far<3>({1 << 17, 1 << 16, 2}, {1 << 17, 1 << 16, 1});
    far<4>({300, 300, 300, 300}, {1, 1, 1, 1});
    far<4>({300, 300, 300, 300}, {300, 300, 150, 300});
    huge<2>({4 * M, 2048}, {M, 512});
    huge<2>({2048, 5 * M}, {1024, M});
    huge<2>({140000, 60000}, {70000, 30000});
    huge<2>({70000, 3}, {1, 3});
    huge<3>({2048, 1024, 4096}, {512, 1024, 2048});
    huge<3>({3, 2 * M, 1024}, {1, M, 512});
    huge<4>({300, 300, 300, 300}, {150, 100, 300, 150});
    huge<4>({400, 200, 70, 800}, {100, 100, 70, 200});
  }
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
