// Shared by C10, C11, C16: descriptions of tilings and the row-major reference layout.
#pragma once
#include "common.hpp"
#include "memory_layout/tile_array.hpp"
#include "memory_layout/tile_iterator.hpp"
#include "memory_layout/tile_view.hpp"
#include "memory_layout/util.hpp"
#include <boost/align/aligned_allocator.hpp>
#include <sys/mman.h>

namespace vp {
struct Shape {
  std::vector<size_t> ext, tile;
  size_t dim() const { return ext.size(); }
  size_t cells() const {
    size_t n = 1;
    for (size_t e : ext) n *= e;
    return n;
  }
  size_t tile_cells() const {
    size_t n = 1;
    for (size_t e : tile) n *= e;
    return n;
  }
  std::vector<memory_layout::tiling_info_dim> info() const {
    std::vector<memory_layout::tiling_info_dim> r(dim());
    for (size_t d = 0; d < dim(); d++) r[d].tile_size_dir = tile[d], r[d].stride = ext[d];
    return r;
  }
  std::string str() const { return "extents=" + mc::vec_str(ext) + " tile=" + mc::vec_str(tile); }
};
// advances a row-major counter; false after the last tuple
inline bool next(std::vector<size_t> &i, const std::vector<size_t> &n) {
  for (size_t d = i.size(); d-- > 0;) {
    if (++i[d] < n[d]) return true;
    i[d] = 0;
  }
  return false;
}
// from[k]: row-major cell of the array that is stored at position k of the tiled array
inline std::vector<size_t> tiled_order(const Shape &s) {
  std::vector<size_t> from;
  if (s.cells() == 0) return from;
  from.reserve(s.cells());
  size_t D = s.dim();
  std::vector<size_t> nt(D), t(D, 0);
  for (size_t d = 0; d < D; d++) nt[d] = s.ext[d] / s.tile[d];
  do {
    std::vector<size_t> i(D, 0);
    do {
      size_t pos = 0;
      for (size_t d = 0; d < D; d++) pos = pos * s.ext[d] + t[d] * s.tile[d] + i[d];
      from.push_back(pos);
    } while (next(i, s.tile));
  } while (next(t, nt));
  return from;
}
// every shape with the given extents' choices and all dividing tile sides (1 for extent 0, plus one larger side)
inline std::vector<std::pair<size_t, size_t>> sides(size_t lo, size_t hi) {
  std::vector<std::pair<size_t, size_t>> r;
  for (size_t e = lo; e <= hi; e++)
    for (size_t t = 1; t <= (e ? e : 2); t++)
      if (e % t == 0) r.push_back({e, t});
  return r;
}
inline void all_shapes(size_t dim, const std::vector<std::pair<size_t, size_t>> &sd, size_t max_cells, const std::function<void(const Shape &)> &f) {
  std::vector<size_t> i(dim, 0), n(dim, sd.size());
  do {
    Shape s;
    for (size_t d = 0; d < dim; d++) s.ext.push_back(sd[i[d]].first), s.tile.push_back(sd[i[d]].second);
    if (s.cells() <= max_cells) f(s);
  } while (next(i, n));
}
struct Fat {
  long a = 0, b = 0, c = 0;
  bool operator==(const Fat &o) const { return a == o.a && b == o.b && c == o.c; }
};
template <typename T> struct Elem {
  static T make(size_t i) { return (T)i; }
};
template <> struct Elem<std::string> {
  static std::string make(size_t i) { return strf("entry number %zu of a long string", i); }
};
template <> struct Elem<Fat> {
  static Fat make(size_t i) { Fat f; f.a = (long)i; f.b = ~(long)i; f.c = 3 * (long)i + 1; return f; }
};
template <> struct Elem<double> {
  static double make(size_t i) { return i % 11 == 5 ? -0.0 - (double)i / 3 : (double)i / 7 + 1e300 * (i % 5 == 1); }
};
template <> struct Elem<uint8_t> {
  static uint8_t make(size_t i) { return (uint8_t)mix(i); }
};
inline std::string shown(const std::string &s) { return s; }
inline std::string shown(const Fat &s) { return strf("Fat(%ld)", s.a); }
inline std::string shown(double s) { return strf("%.17g", s); }

// Address space without memory, for arrays larger than 2^32 entries (only a few pages are ever touched).
template <typename T> struct Sparse {
  typedef T value_type;
  Sparse() {}
  template <typename U> Sparse(const Sparse<U> &) {}
  T *allocate(size_t n) {
    void *p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) throw std::bad_alloc();
    return (T *)p;
  }
  void deallocate(T *p, size_t n) { munmap(p, n * sizeof(T)); }
  template <typename U> void construct(U *) {}
  template <typename U, typename X> void construct(U *p, X &&x) { *p = x; }
  template <typename U> void destroy(U *) {}
  template <typename U> bool operator==(const Sparse<U> &) const { return true; }
  template <typename U> bool operator!=(const Sparse<U> &) const { return false; }
};
} // namespace vp
