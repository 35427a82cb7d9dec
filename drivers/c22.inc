// C22: errors in the blocked iterations; IT is the namespace of the copy under test, LOOPED if it has no parallel marks
#include "common.hpp"
using namespace vp;
typedef std::vector<size_t> V;
typedef IT::blocking_pseudo_execution_policy<size_t> Policy;
struct Own {
  V p;
};
static Policy &add(Policy &p, const V &block, const std::vector<bool> &par) {
#ifdef LOOPED
  (void)par;
  p.add_blocking(block);
#else
  p.add_blocking(block, par);
#endif
  return p;
}
template <typename F> static void iterate(size_t dim, const Policy &p, const V &min, const V &max, const F &visit) {
#ifdef LOOPED
  (void)dim;
  IT::iterate_indices(p, min, max, [&visit](const V &i) { visit(i); });
#else
  switch (dim) {
  case 1: IT::iterate_indices<1>(p, min, max, [&visit](size_t a) { visit(V{a}); }); break;
  case 2: IT::iterate_indices<2>(p, min, max, [&visit](size_t a, size_t b) { visit(V{a, b}); }); break;
  case 3: IT::iterate_indices<3>(p, min, max, [&visit](size_t a, size_t b, size_t c) { visit(V{a, b, c}); }); break;
  default: IT::iterate_indices<4>(p, min, max, [&visit](size_t a, size_t b, size_t c, size_t d) { visit(V{a, b, c, d}); });
  }
#endif
}
// every point of [min, max) with steps 1 exactly once
static void right(const char *what, size_t dim, const Policy &p, const V &min, const V &max) {
  size_t n = 1;
  for (size_t d = 0; d < dim; d++) n *= max[d] - min[d];
  std::vector<unsigned> seen(n);
  iterate(dim, p, min, max, [&](const V &i) {
    size_t f = 0;
    for (size_t d = 0; d < dim; d++) {
      if (i[d] < min[d] || i[d] >= max[d]) mc::fail("%s: called with %s", what, mc::vec_str(i).c_str());
      f = f * (max[d] - min[d]) + i[d] - min[d];
    }
    seen[f]++;
  });
  for (unsigned s : seen)
    if (s != 1) mc::fail("%s: a point is visited %u times", what, s);
}
template <typename F> static bool refused(const char *what, const F &f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  } catch (...) {
    mc::fail("%s: the exception is no std::exception", what);
  }
  return false;
}
static std::vector<bool> mask(size_t dim, unsigned m) {
  std::vector<bool> b(dim);
  for (size_t d = 0; d < dim; d++) b[d] = d < 32 && (m >> d & 1);
  return b;
}
static mc::Opts opt(uint64_t cap) {
  mc::Opts o;
  o.cap = cap;
  return o;
}
static void bounds() {
  size_t top = mc::tier_thorough() ? 7 : 5;
#ifdef LOOPED
  size_t last = 1;
#else
  size_t last = 4;
#endif
  for (size_t dim = 1; dim <= last; dim++)
    for (size_t p = 1; p <= top; p++)
      for (size_t a = 0; a <= top; a++)
        for (size_t b = 0; b <= top; b++)
          for (size_t levels = 0; levels < 3; levels++) {
#ifdef LOOPED
            bool fits = a == b && p == a;
#else
            bool fits = dim == p && dim == a && dim == b;
#endif
            mc::explore(strf("dimensions: iteration %zu policy %zu lower %zu upper %zu levels %zu", dim, p, a, b, levels), opt(3), [=] {
              Policy q(p);
              for (size_t l = 0; l < levels; l++) add(q, V(p, l + 1 == 2 ? 4 : 2), mask(p, l ? 0 : 5));
              V lo(a, 1), hi(b, 3);
              bool called = false;
              if (fits) {
                right("matching dimensions", p, q, lo, hi);
              } else {
                if (!refused("mismatch", [&] { iterate(dim, q, lo, hi, [&](const V &) { called = true; }); }))
                  mc::fail("dimensions that do not match are accepted");
                if (called) mc::fail("the function is called although the dimensions do not match");
                if (lo != V(a, 1) || hi != V(b, 3)) mc::fail("the bounds are changed");
#ifndef LOOPED
                if (p <= 4) right("after the refusal", p, q, V(p, 1), V(p, 3));
#else
                right("after the refusal", p, q, V(p, 1), V(p, 3));
#endif
              }
              mc::count(1, 1);
            });
          }
}
static void blockings() {
  size_t top = mc::tier_thorough() ? 7 : 5;
  for (size_t p = 1; p <= 4; p++)
    for (size_t s = 0; s <= top; s++)
      for (size_t t = 0; t <= top; t++)
        for (size_t levels = 0; levels < 3; levels++)
          for (size_t kind = 0; kind < 2; kind++) { // 0: a level, 1: the final steps
#ifdef LOOPED
            if (kind || t) continue;
            bool fits = s == p;
#else
            if (kind && t) continue;
            bool fits = s == p && (kind || t == p);
#endif
            if (fits) continue;
            mc::explore(strf("%s of %zu dimensions, %zu marks for a policy of %zu after %zu levels", kind ? "steps" : "blocking", s, t, p, levels), opt(3), [=] {
              Policy q(p);
              for (size_t l = 0; l < levels; l++) add(q, V(p, l ? 4 : 2), mask(p, l ? 2 : 0));
              if (!refused("mismatch", [&] {
#ifndef LOOPED
                    if (kind) q.set_final_steps(V(s, 2));
                    else
#endif
                      add(q, V(s, 8), mask(t, 1));
                  }))
                mc::fail("accepted");
              right("after the refusal", p, q, V(p, 1), V(p, 4));
              add(q, V(p, levels ? 8 : 2), mask(p, 1));
              right("with one more level after the refusal", p, q, V(p, 1), V(p, 4));
              mc::count(1, 1);
            });
          }
}
struct Case {
  V max;
  std::vector<V> blocks;
  std::vector<unsigned> par;
};
// kind: 0 std::exception, 1 int, 2 class without base, 3 no memory
static void raise(int kind, const V &p) {
  if (kind == 0) throw std::runtime_error("stop");
  if (kind == 1) throw 7;
  if (kind == 2) throw Own{p};
  throw std::bad_alloc();
}
static void throwing(const Case &c, long chunk, uint64_t cap) {
  size_t dim = c.max.size(), n = 1;
  bool sequential = true;
  for (size_t d = 0; d < dim; d++) n *= c.max[d];
  for (unsigned m : c.par) sequential = sequential && !m;
  std::string name = "extents " + mc::vec_str(c.max);
  for (size_t l = 0; l < c.blocks.size(); l++) name += strf(" block%s/%u", mc::vec_str(c.blocks[l]).c_str(), c.par[l]);
  std::vector<std::vector<size_t>> sets;
  for (size_t i = 0; i < n; i++) sets.push_back({i});
  for (size_t i = 0; i < n && n <= 12; i++)
    for (size_t j = i + 1; j < n; j++) sets.push_back({i, j});
  std::vector<size_t> all(n);
  for (size_t i = 0; i < n; i++) all[i] = i;
  sets.push_back(all);
  mc::env().chunk = chunk;
  for (auto &set : sets)
    for (int kind = 0; kind < 4; kind++) {
      if (kind && (set.size() == 2 || (!mc::tier_thorough() && !mc::mode_is("fast")))) continue;
      mc::explore(name + strf(" chunk %ld: kind %d at %s", chunk, kind, mc::vec_str(set).c_str()), opt(cap), [=] {
        mc::env().chunk = chunk;
        Policy q(dim);
        for (size_t l = 0; l < c.blocks.size(); l++) add(q, c.blocks[l], mask(dim, c.par[l]));
        V lo(dim, 0), hi(c.max);
        std::vector<char> bad(n);
        for (size_t i : set) bad[i] = 1;
        for (int round = 0; round < 2; round++) {
          // one cell per point, never shared by correct calls: 1 running, 2 has returned, 3 has thrown
          auto r = std::make_shared<std::vector<char>>(n);
          auto stop = std::make_shared<bool>(false); // sequential iteration only
          auto over = std::make_shared<bool>(false);
          bool told = false;
          try {
            iterate(dim, q, lo, hi, [r, stop, over, dim, kind, sequential, &bad, &hi](const V &i) {
              if (*over) mc::fail("the function is called after the end of the iteration");
              if (sequential && *stop) mc::fail("the sequential iteration goes on after the function has thrown");
              size_t f = 0;
              for (size_t d = 0; d < dim; d++) {
                if (i[d] >= hi[d]) mc::fail("called with %s", mc::vec_str(i).c_str());
                f = f * hi[d] + i[d];
              }
              char &cell = (*r)[f];
              if (cell) mc::fail("point %s is visited twice", mc::vec_str(i).c_str());
              cell = 1;
              mc::point();
              if (bad[f]) {
                cell = 3;
                if (sequential) *stop = true;
                raise(kind, i);
              }
              cell = 2;
            });
          } catch (...) {
            told = true;
          }
          *over = true;
          bool thrown = false;
          for (size_t i = 0; i < n; i++) {
            if ((*r)[i] == 1) mc::fail("the iteration ends while a call is running");
            thrown = thrown || (*r)[i] == 3;
          }
          if (!told) mc::fail(thrown ? "the function has thrown, but the iteration ends without an exception" : "points are missing");
          if (!thrown) mc::fail("an exception although the function has not thrown");
        }
        right("after exceptions", dim, q, lo, hi);
        mc::count(1, n);
      });
    }
  mc::env().chunk = 1;
}
static std::vector<Case> cases() {
  std::vector<Case> c;
  const bool deep = mc::tier_thorough();
  for (size_t n = 1; n <= (deep ? 9 : 6); n++) {
    c.push_back({{n}, {}, {}});
    for (size_t b = 1; b <= 4; b++)
      for (unsigned p = 0; p < 2; p++) c.push_back({{n}, {{b}}, {p}});
    for (unsigned p = 0; p < 4; p++) c.push_back({{n}, {{2}, {4}}, {p & 1, p >> 1}});
  }
  for (size_t x = 1; x <= 3; x++)
    for (size_t y = 1; y <= (deep ? 4 : 3); y++)
      for (unsigned p = 0; p < 4; p++) {
        c.push_back({{x, y}, {{1, 2}}, {p}});
        c.push_back({{x, y}, {{2, 1}}, {p}});
        c.push_back({{x, y}, {{1, 1}, {2, 2}}, {p, 3 - p}});
      }
  for (unsigned p = 0; p < 8; p++) c.push_back({{2, 2, 2}, {{1, 2, 1}}, {p}});
  return c;
}
void driver_main_cases() {
  bounds();
  blockings();
  for (const Case &c : cases()) {
#ifdef LOOPED
    bool marks = false;
    for (unsigned p : c.par) marks = marks || p;
    if (marks) continue;
#endif
    size_t n = 1;
    for (size_t e : c.max) n *= e;
    for (long chunk : {1l, 2l, 0l}) throwing(c, chunk, mc::tier_thorough() ? 20000 : mc::mode_is("fast") ? (n <= 3 ? 600 : 24) : 8);
  }
}
