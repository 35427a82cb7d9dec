// C05: distributed multiplication
#include "variants/pseudodynamic.hpp"
#include "common.hpp"
#include "hpxrt.hpp"
using namespace vp;

struct P {
  size_t N;
  bool bt;
  uint64_t br, bi;
  uint64_t mw, md;
  double rel;
  uint64_t reps, verbose;
  int pat;
  std::string str() const {
    return strf("N=%zu transposed=%d block_result=%lu block_input=%lu min_work=%lu max_diff=%lu max_rel=%g repetitions=%lu verbose=%lu %s", N, bt, br, bi, mw, md, rel, reps, verbose, pattern_name(pat));
  }
};
static void placement(int localities) {
  auto &pl = mc::placement();
  for (int l : pl.actions)
    if ((localities > 1) != (l != 0)) mc::fail("a package was computed on node %d of %d", l, localities);
}
static void call(const P &p, size_t salt = 0) {
  Operands<double> o(p.N, p.bt, p.pat, salt);
  pseudodynamic::pseudodynamic m(p.N, o.A, o.right(), p.bt, p.br, p.bi, p.mw, p.md, p.rel, p.reps, p.verbose);
  o.check("pseudodynamic", m.matrix_multiply());
  placement(mc::env().localities);
}
static mc::Opts opt(uint64_t cap, int policies) {
  mc::Opts o;
  o.cap = cap;
  o.policies = policies;
  return o;
}
static void run(const P &p, int l, int order, mc::Opts o) {
  mc::env().localities = l;
  mc::env().locality_order = order;
  mc::explore(strf("localities=%d order=%d %s", l, order, p.str().c_str()), o, [=] { call(p); });
  mc::env().localities = 1;
  mc::env().locality_order = 0;
}

static size_t leaves(size_t n, size_t br) { return n <= br || n % 2 ? 1 : 4 * leaves(n / 2, br); }

static void enumerate() {
  bool th = mc::tier_thorough(), fast = mc::mode_is("fast"), tsan = mc::mode_is("tsan");
  uint64_t k = th ? 8 : 1;
  // schedules of small configurations
  for (int l = 1; l <= 4; l++)
    for (int order = 0; order < l; order++)
      for (size_t N : {1, 2, 3, 4})
        for (uint64_t br : {1, 4})
          for (uint64_t reps : {1, 2}) run({N, false, br, 0, 1, 0, 0.1, reps, 0, P_GEN}, l, order, opt((tsan ? 200 : fast ? 3000 : 500) * k, 3));
  for (int l = 1; l <= 4; l++)
    for (size_t N : {4, 6, 8})
      for (uint64_t br : {0, 2, 8})
        for (int bt = 0; bt < 2; bt++)
          for (uint64_t reps : {1, 3}) run({N, (bool)bt, br, 4, 2, 1, 0.05, reps, 0, P_GEN}, l, 0, opt((tsan ? 40 : fast ? 800 : 100) * k, 3));
  if (!tsan) {
    // geometries and tolerances
    size_t nmax = fast ? (th ? 24 : 18) : 10;
    for (size_t N = 0; N <= nmax; N++)
      for (int l = 1; l <= 5; l++)
        for (int bt = 0; bt < 2; bt++)
          for (uint64_t br : {(uint64_t)0, (uint64_t)1, (uint64_t)2, (uint64_t)3, (uint64_t)4, (uint64_t)5, (uint64_t)N})
            for (uint64_t bi : {0, 1, 3, 4, 8, 32}) {
              if (!bt && bi > 1) continue;
              for (uint64_t mw : {1, 2, 4})
                run({N, (bool)bt, br, bi, mw, mw == 2 ? 5ul : 0ul, mw == 4 ? 0.5 : 0.1, (uint64_t)(1 + bi % 2), 0, P_GEN}, l, (int)(N + br) % l, opt(1, 2));
            }
    for (size_t N : {5, 6, 8, 12})
      for (int l = 1; l <= 6; l++)
        for (uint64_t mw : {0ul, 1ul, 2ul, 3ul, 6ul, (unsigned long)N, (unsigned long)N + 1})
          for (uint64_t md : {0, 1, 8, 40, 1000})
            for (double rel : {0.0, 0.05, 0.5, 2.0}) run({N, false, 3, 0, mw, md, rel, 1, 1, P_GEN2}, l, l - 1, opt(1, 2));
    for (int pat = 0; pat < P_COUNT; pat++)
      for (size_t N : {1, 4, 6, 7, 8})
        for (int bt = 0; bt < 2; bt++)
          for (int l : {1, 2, 3}) run({N, (bool)bt, 4, 4, 2, 0, 0.1, 1, 0, pat}, l, 0, opt(1, 2));
    if (fast) {
      std::vector<size_t> ns = {17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 66, 72, 80, 96, 100, 128, 129, 130, 160};
      if (th) ns.insert(ns.end(), {192, 200, 256, 257, 320});
      for (size_t N : ns)
        for (int l : {1, 2, 3, 4, 5, 8, 9})
          for (uint64_t br : {(uint64_t)4, (uint64_t)16, (uint64_t)N / 8, (uint64_t)N})
            for (uint64_t mw : {(uint64_t)8, (uint64_t)32, (uint64_t)N / 4, (uint64_t)64}) {
              if (leaves(N, br) > 300 || leaves(N, mw) > 300) continue;
              run({N, false, br, 0, mw, 0, 0.05, 1, 0, P_GEN}, l, l / 2, opt(1, 2));
              run({N, true, br, 16, mw, 64, 0.2, 2, 0, P_GEN}, l, 0, opt(1, 1));
              run({N, true, br, 0, mw, 10000, 0.2, 1, 0, P_GEN}, l, 0, opt(1, 1));
            }
    }
  } else {
    for (size_t N : {7, 12, 16, 20})
      for (int l : {1, 2, 3, 5})
        for (int bt = 0; bt < 2; bt++) run({N, (bool)bt, 4, 8, 4, 0, 0.05, 2, 1, P_GEN}, l, 0, opt(4 * k, 3));
  }
  // many localities
  if (fast || th)
    for (int l : {6, 7, 9, 10, 11, 12, 13, 16, 17, 20, 33, 65})
      for (size_t N : {1, 6, 8, 16, 32, 64})
        for (int order : {0, 1, l / 2, l - 1})
          for (uint64_t mw : {1, 4, 8}) {
            if (N > 32 && mw < 4) continue;
            run({N, order == 1, 8, 4, mw, 0, 0.1, 1, 0, P_GEN}, l, order, opt(2, 2));
          }
  // histories
  uint64_t hc = tsan ? 6 : fast ? 40 : 8;
  const P hs[] = {{0, false, 0, 0, 1, 0, 0.1, 1, 0, P_GEN},  {4, false, 2, 0, 1, 0, 0.1, 1, 0, P_GEN}, {4, true, 1, 2, 2, 0, 0.1, 2, 0, P_GEN},
                  {6, true, 0, 3, 1, 0, 0.05, 1, 1, P_GEN}, {8, true, 4, 4, 4, 9, 0.1, 1, 0, P_GEN},  {5, false, 2, 1, 1, 0, 0.1, 3, 0, P_GEN}};
  for (int l : {1, 2, 3, 4}) {
    mc::env().localities = l;
    for (int a = 0; a < 6; a++) {
      for (int b = 0; b < 6; b++) {
        mc::explore(strf("history localities=%d %d %d", l, a, b), opt(hc, 3), [=] {
          call(hs[a], 1);
          call(hs[b], 2);
          call(hs[a], 3);
        });
        mc::explore(strf("two objects localities=%d %d %d", l, a, b), opt(hc, 2), [=] {
          auto &p = hs[a], &q = hs[b];
          Operands<double> o1(p.N, p.bt, P_GEN, 1), o2(q.N, q.bt, P_GEN2, 2);
          pseudodynamic::pseudodynamic m1(p.N, o1.A, o1.B, p.bt, p.br, p.bi, p.mw, p.md, p.rel, p.reps, 0);
          pseudodynamic::pseudodynamic m2(q.N, o2.A, o2.B, q.bt, q.br, q.bi, q.mw, q.md, q.rel, q.reps, 0);
          auto c1 = m1.matrix_multiply();
          auto c2 = m2.matrix_multiply();
          auto c3 = m1.matrix_multiply();
          auto c4 = m1.matrix_multiply();
          auto c5 = m2.matrix_multiply();
          o1.check("object 1, call 1", c1);
          o2.check("object 2, call 1", c2);
          o1.check("object 1, call 2", c3);
          o1.check("object 1, call 3", c4);
          o2.check("object 2, call 2", c5);
          placement(l);
        });
      }
      mc::explore(strf("changed operands localities=%d %d", l, a), opt(hc, 3), [=] {
        auto &p = hs[a];
        Operands<double> o1(p.N, p.bt, P_GEN, 1), o2(p.N, p.bt, P_GEN2, 2);
        pseudodynamic::pseudodynamic m1(p.N, o1.A, o1.B, p.bt, p.br, p.bi, p.mw, p.md, p.rel, p.reps, 0);
        o1.check("first", m1.matrix_multiply());
        o1.A = o2.A;
        o1.B = o2.B;
        pseudodynamic::pseudodynamic m(p.N, o1.A, o1.B, p.bt, p.br, p.bi, p.mw, p.md, p.rel, p.reps, 0);
        expect_matrix("after the operands changed", m.matrix_multiply(), o2.C, o2.N);
      });
    }
  }
  mc::env().localities = 1;
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
