// C08: blocked index iteration; IT is the namespace of the copy under test
#include "common.hpp"
using namespace vp;
typedef std::vector<size_t> V;

struct Level {
  V block;
  std::vector<bool> par;
};
struct Cfg {
  V min, max, step;
  std::vector<Level> levels; // innermost first
  int order;                 // 0: set_final_steps first, 1: last, 2: not at all (steps 1)
  long chunk;
};
static std::string str(const Cfg &c) {
  std::string s = strf("min%s max%s step%s", mc::vec_str(c.min).c_str(), mc::vec_str(c.max).c_str(), mc::vec_str(c.step).c_str());
  for (auto &l : c.levels) {
    std::string p;
    for (bool b : l.par) p += b ? 'p' : 's';
    s += strf(" block%s/%s", mc::vec_str(l.block).c_str(), p.c_str());
  }
  return s + strf(" order=%d chunk=%ld", c.order, c.chunk);
}
struct Log {
  const Cfg *c;
  std::vector<unsigned> visits; // one cell per point of the bounding box (and a border), never shared by correct calls
  V extent;
  std::vector<V> seq; // only without parallelism
  bool sequential;
  explicit Log(const Cfg &cfg) : c(&cfg) {
    size_t n = 1;
    for (size_t d = 0; d < cfg.min.size(); d++) {
      extent.push_back((cfg.max[d] - cfg.min[d] + cfg.step[d] - 1) / cfg.step[d]);
      n *= extent[d];
    }
    visits.assign(n, 0);
    sequential = true;
    for (auto &l : cfg.levels)
      for (bool b : l.par) sequential = sequential && !b;
  }
  // points of the grid are numbered; any other point is an error
  size_t flat(const V &p) const {
    size_t f = 0;
    for (size_t d = 0; d < p.size(); d++) {
      if (p[d] < c->min[d] || p[d] >= c->max[d] || (p[d] - c->min[d]) % c->step[d]) mc::fail("%s: called with %s, which is no point of the grid", str(*c).c_str(), mc::vec_str(p).c_str());
      f = f * extent[d] + (p[d] - c->min[d]) / c->step[d];
    }
    return f;
  }
  void visit(const V &p) {
    visits[flat(p)]++;
    if (sequential) seq.push_back(p);
  }
  void check() const {
    size_t dim = c->min.size();
    uint64_t n = visits.size();
    for (size_t i = 0; i < visits.size(); i++)
      if (visits[i] != 1) {
        V q(dim);
        size_t r = i;
        for (size_t d = dim; d-- > 0;) q[d] = r % extent[d] * c->step[d] + c->min[d], r /= extent[d];
        mc::fail("%s: point %s is visited %u times instead of once", str(*c).c_str(), mc::vec_str(q).c_str(), visits[i]);
      }
    if (sequential) {
      std::map<V, V> last;
      for (const V &q : seq) {
        V id(dim, 0);
        if (!c->levels.empty())
          for (size_t d = 0; d < dim; d++) id[d] = (q[d] - c->min[d]) / c->levels[0].block[d];
        auto it = last.find(id);
        if (it != last.end() && !(it->second < q)) mc::fail("%s: within a block, %s is visited after %s", str(*c).c_str(), mc::vec_str(q).c_str(), mc::vec_str(it->second).c_str());
        last[id] = q;
      }
    }
    mc::count(1, n);
  }
};
static IT::blocking_pseudo_execution_policy<size_t> policy(const Cfg &c) {
  IT::blocking_pseudo_execution_policy<size_t> p(c.min.size());
  if (c.order == 0) p.set_final_steps(c.step);
  for (auto &l : c.levels) p.add_blocking(l.block, l.par);
  if (c.order == 1) p.set_final_steps(c.step);
  return p;
}
static void iterate(const IT::blocking_pseudo_execution_policy<size_t> &p, const Cfg &c, Log &log) {
  switch (c.min.size()) {
  case 1: IT::iterate_indices<1>(p, c.min, c.max, [&log](size_t a) { log.visit({a}); }); break;
  case 2: IT::iterate_indices<2>(p, c.min, c.max, [&log](size_t a, size_t b) { log.visit({a, b}); }); break;
  case 3: IT::iterate_indices<3>(p, c.min, c.max, [&log](size_t a, size_t b, size_t e) { log.visit({a, b, e}); }); break;
  default: IT::iterate_indices<4>(p, c.min, c.max, [&log](size_t a, size_t b, size_t e, size_t g) { log.visit({a, b, e, g}); }); break;
  }
}
static void one(const Cfg &c) {
  mc::env().chunk = c.chunk;
  auto p = policy(c);
  Log l1(c), l2(c);
  iterate(p, c, l1);
  l1.check();
  iterate(p, c, l2); // the policy can be used again
  l2.check();
}
static mc::Opts opt(uint64_t cap, int policies) {
  mc::Opts o;
  o.cap = cap;
  o.policies = policies;
  return o;
}
static void run(const Cfg &c, mc::Opts o) {
  mc::env().chunk = c.chunk;
  mc::explore(str(c), o, [=] { one(c); });
  mc::env().chunk = 1;
}
static std::vector<bool> mask(size_t dim, unsigned m) {
  std::vector<bool> b(dim);
  for (size_t d = 0; d < dim; d++) b[d] = m >> d & 1;
  return b;
}
static V mul(const V &a, const V &b) {
  V r = a;
  for (size_t d = 0; d < a.size(); d++) r[d] *= b[d];
  return r;
}
static void enumerate() {
  bool th = mc::tier_thorough(), fast = mc::mode_is("fast"), tsan = mc::mode_is("tsan");
  size_t lm = tsan ? 5 : fast ? (th ? 14 : 11) : 8;
  // one dimension, up to three levels
  for (size_t mn : {0, 2, 5})
    for (size_t len = 0; len <= lm; len++)
      for (size_t st = 1; st <= 3; st++)
        for (size_t f1 = 0; f1 <= 3; f1++)
          for (size_t f2 = 0; f2 <= (f1 ? 3u : 0u); f2++)
            for (unsigned m = 0; m < (f1 ? f2 ? 4u : 2u : 1u); m++)
              for (int order = 0; order < (st == 1 ? 3 : 2); order++) {
                Cfg c{{mn}, {mn + len}, {st}, {}, order, 1};
                if (f1) c.levels.push_back({{st * f1}, mask(1, m)});
                if (f2) c.levels.push_back({{st * f1 * f2}, mask(1, m >> 1)});
                run(c, opt(tsan ? 1 : th ? 30 : 8, tsan ? 1 : 2));
                if (f2 && fast)
                  for (size_t f3 : {1, 2}) {
                    Cfg c3 = c;
                    c3.levels.push_back({{st * f1 * f2 * f3}, mask(1, m & 1)});
                    c3.chunk = (long)f3 - 1;
                    run(c3, opt(4, 2));
                  }
              }
  // two dimensions
  std::vector<std::pair<size_t, size_t>> rs = {{0, 0}, {0, 1}, {0, 2}, {0, 3}, {1, 4}, {0, 5}, {2, 7}, {0, 6}};
  if (th) rs.insert(rs.end(), {{0, 4}, {3, 8}, {0, 7}, {1, 9}});
  if (tsan) rs = {{0, 3}, {1, 5}};
  for (auto r0 : rs)
    for (auto r1 : rs)
      for (V st : {V{1, 1}, V{2, 1}, V{1, 2}, V{3, 2}})
        for (V f1 : {V{1, 1}, V{2, 1}, V{1, 2}, V{2, 3}, V{3, 2}})
          for (int two = 0; two < 2; two++)
            for (unsigned m = 0; m < (two ? 16u : 4u); m++) {
              if (two && !th && fast == false && (m & 5)) continue;
              Cfg c{{r0.first, r1.first}, {r0.second, r1.second}, st, {{mul(st, f1), mask(2, m)}}, (int)(m & 1), (long)(m % 3)};
              if (two) c.levels.push_back({mul(mul(st, f1), V{2, 2}), mask(2, m >> 2)});
              run(c, opt(tsan ? 1 : two ? 4 : 12, two ? 1 : 2));
            }
  // three and four dimensions
  for (V mx : {V{1, 1, 1}, V{2, 3, 4}, V{4, 3, 2}, V{5, 2, 3}, V{3, 5, 5}, V{0, 2, 2}, V{2, 0, 2}, V{2, 2, 0}})
    for (V mn : {V{0, 0, 0}, V{0, 1, 2}, V{1, 0, 0}})
      for (V st : {V{1, 1, 1}, V{2, 1, 3}, V{1, 2, 1}})
        for (V f1 : {V{1, 1, 1}, V{2, 2, 2}, V{1, 2, 3}, V{3, 2, 1}})
          for (int two = 0; two < 2; two++)
            for (unsigned m = 0; m < 8; m++) {
              if (mn[0] > mx[0] || mn[1] > mx[1] || mn[2] > mx[2]) continue;
              Cfg c{mn, mx, st, {{mul(st, f1), mask(3, m)}}, 1, (long)(m % 4)};
              if (two) c.levels.push_back({mul(mul(st, f1), V{2, 1, 2}), mask(3, (m * 3 + 1) % 8)});
              if (tsan && (m % 3 || two)) continue;
              run(c, opt(tsan ? 1 : 3, 2));
            }
  if (!tsan)
    for (V mx : {V{1, 2, 1, 2}, V{2, 3, 2, 3}, V{3, 3, 3, 3}})
      for (V st : {V{1, 1, 1, 1}, V{2, 1, 2, 1}})
        for (V f1 : {V{1, 1, 1, 1}, V{2, 2, 2, 2}, V{1, 2, 3, 1}})
          for (unsigned m = 0; m < 16; m++) run({{0, 0, 0, 0}, mx, st, {{mul(st, f1), mask(4, m)}}, 0, 2}, opt(2, 1));
  // schedules of the parallel part
  for (size_t n : {2, 3, 4, 5})
    for (long chunk : {1, 2, 3, 0}) {
      run({{0, 0}, {n, 3}, {1, 1}, {{{1, 2}, mask(2, 3)}}, 0, chunk}, opt((tsan ? 60 : 1500) * (th ? 10 : 1), 3));
      run({{1, 0}, {n + 2, 4}, {1, 1}, {{{2, 2}, mask(2, 1)}, {{4, 2}, mask(2, 3)}}, 0, chunk}, opt((tsan ? 60 : 1500) * (th ? 10 : 1), 3));
    }
  // large bounds: few points that are far apart
  if (!tsan)
    for (int e : {8, 15, 16, 23, 24, 25, 30, 31, 32, 33, 40, 47})
      for (int off = -2; off <= 2; off++)
        for (size_t mn : {(size_t)0, (size_t)1, (size_t)3000000017})
          for (size_t k : {1, 2, 3})
            for (unsigned m = 0; m < 4; m++) {
              size_t p = (size_t)1 << e, b = p / 2;
              run({{mn}, {mn + p * k + off}, {b / 2}, {{{b}, mask(1, m)}}, 0, 1}, opt(1, 1));
              if (m < 2) run({{mn}, {mn + p * k + off}, {b}, {{{b}, mask(1, m)}, {{p}, mask(1, 1)}}, 0, 1}, opt(1, 1));
              run({{0, mn}, {2, mn + p * k + off}, {1, p}, {{{1, p}, mask(2, m)}}, 0, 1}, opt(1, 1));
              run({{mn, 0}, {mn + p * k + off, 2}, {b, 1}, {{{p, 1}, mask(2, m)}}, 1, 2}, opt(1, 1));
            }
  // many points
  if (fast)
    for (size_t n : {65535, 65536, 65537, 300001}) {
      run({{0}, {n}, {1}, {{{1000}, mask(1, 1)}}, 0, 0}, opt(1, 1));
      run({{0}, {n}, {3}, {{{300}, mask(1, 0)}}, 0, 0}, opt(1, 1));
    }
  // geometry of the real users
  for (V mx : {V{420, 256, 256}, V{840, 512, 512}, V{420, 512, 256}})
    if (fast) run({{0, 0, 0}, mx, {35, 16, 64}, {{{70, 64, 128}, mask(3, 0)}, {{420, 256, 256}, mask(3, 3)}}, 0, 1}, opt(1, 2));
  for (size_t N : {1, 5, 8, 9, 17})
    for (size_t bi : {1, 4, 6, 32}) run({{0, 0, 0}, {N, N, N}, {4, 2, bi}, {}, 0, 1}, opt(1, 1));
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
