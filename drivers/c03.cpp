// C03: recursive single-node multiplication
#include "variants/single.hpp"
#include "common.hpp"
using namespace vp;

struct P {
  size_t N;
  bool bt;
  uint64_t br, bi, reps, verbose;
  int pat;
  std::string str() const { return strf("N=%zu transposed=%d block_result=%lu block_input=%lu repetitions=%lu verbose=%lu %s", N, bt, br, bi, reps, verbose, pattern_name(pat)); }
};
static void call(const P &p, size_t salt = 0) {
  Operands<double> o(p.N, p.bt, p.pat, salt);
  single::single m(p.N, o.A, o.right(), p.bt, p.br, p.bi, p.reps, p.verbose);
  o.check("single", m.matrix_multiply());
}
static size_t leaves(size_t n, size_t br) { return n <= br || n % 2 ? 1 : 4 * leaves(n / 2, br); }
static mc::Opts opt(uint64_t cap, int policies) {
  mc::Opts o;
  o.cap = cap;
  o.policies = policies;
  return o;
}
static void run(const P &p, mc::Opts o) {
  mc::explore(p.str(), o, [=] { call(p); });
}

static void enumerate() {
  bool th = mc::tier_thorough(), fast = mc::mode_is("fast"), tsan = mc::mode_is("tsan");
  uint64_t k = th ? 8 : 1;
  // schedules of small configurations
  for (size_t N : {1, 2, 3, 4})
    for (uint64_t br : {0, 1, 2})
      for (int bt = 0; bt < 2; bt++)
        for (uint64_t reps : {1, 2}) run({N, (bool)bt, br, 0, reps, 0, P_GEN}, opt((tsan ? 900 : fast ? 12000 : 2400) * k, 3));
  for (size_t N : {5, 6, 8, 12})
    for (uint64_t br : {0, 2, 3, 4})
      for (int bt = 0; bt < 2; bt++) run({N, (bool)bt, br, 4, 1, 0, P_GEN}, opt((tsan ? 180 : fast ? 2400 : 450) * k, 3));
  if (tsan) {
    for (size_t N : {7, 10, 16, 20, 24, 33})
      for (uint64_t br : {0, 4, 8})
        for (int bt = 0; bt < 2; bt++) run({N, (bool)bt, br, 8, 2, 0, P_GEN}, opt(3, 3));
    run({8, true, 2, 2, 2, 1, P_GEN}, opt(100 * k, 3));
  } else {
    // every small geometry
    size_t nmax = fast ? (th ? 30 : 22) : 12;
    for (size_t N = 0; N <= nmax; N++)
      for (uint64_t br = 0; br <= N + 1; br++)
        for (int bt = 0; bt < 2; bt++) {
          if (!bt) {
            run({N, false, br, 0, 1, 0, P_GEN}, opt(2, 3));
            run({N, false, br, 3, 2, 1, P_SPARSE}, opt(1, 2));
            continue;
          }
          for (uint64_t bi = 0; bi <= N + 2; bi++) run({N, true, br, bi, 1, 0, P_GEN}, opt(1, 2));
          run({N, true, br, 32, 3, 2, P_GEN2}, opt(1, 3));
        }
    for (int pat = 0; pat < P_COUNT; pat++)
      for (size_t N : {1, 4, 6, 7, 8, 12})
        for (int bt = 0; bt < 2; bt++)
          for (uint64_t bi : {0, 3, 8}) run({N, (bool)bt, 4, bi, 1, 0, pat}, opt(1, 2));
    // larger sizes
    std::vector<size_t> ns = {19, 20, 21, 22, 24, 28, 30, 31, 32, 33, 34, 36, 40, 44, 48, 52, 56, 60, 63, 64, 65, 66, 68, 72, 80, 96, 100, 104, 112, 120, 126, 127, 128, 129, 130, 132, 136, 144, 160, 192};
    if (th) ns.insert(ns.end(), {200, 255, 256, 257, 258, 260, 264, 272, 320, 384, 511, 512, 513});
    if (!fast) ns = {20, 24, 32, 33, 40, 66, 68};
    for (size_t N : ns)
      for (uint64_t br : {0ul, 3ul, 4ul, 8ul, 16ul, 17ul, 32ul, 64ul, 128ul, N / 2, N / 4, N - 1, N, N + 1}) {
        if (leaves(N, br) > 1100) continue;
        run({N, false, br, 0, 1, 0, P_GEN}, opt(1, 2));
        for (uint64_t bi : {0ul, 1ul, 7ul, 8ul, 32ul, 100ul, 128ul, N, N + 1, N / 2}) run({N, true, br, bi, 1, 0, P_GEN}, opt(1, 1));
      }
  }
  // histories: several objects, the same object again, changed operands
  uint64_t hc = tsan ? 6 : fast ? 60 : 10;
  const P hs[] = {{0, false, 0, 0, 1, 0, P_GEN}, {4, false, 2, 0, 1, 0, P_GEN}, {4, true, 1, 2, 2, 0, P_GEN}, {6, true, 0, 3, 1, 1, P_GEN}, {8, true, 4, 4, 1, 0, P_GEN}, {5, false, 2, 1, 1, 0, P_GEN}};
  for (int a = 0; a < 6; a++)
    for (int b = 0; b < 6; b++) {
      mc::explore(strf("history %d %d", a, b), opt(hc, 3), [=] {
        call(hs[a], 1);
        call(hs[b], 2);
        call(hs[a], 3);
      });
      mc::explore(strf("two objects %d %d", a, b), opt(hc, 3), [=] {
        Operands<double> o1(hs[a].N, hs[a].bt, P_GEN, 1), o2(hs[b].N, hs[b].bt, P_GEN2, 2);
        single::single m1(hs[a].N, o1.A, o1.B, hs[a].bt, hs[a].br, hs[a].bi, hs[a].reps, 0);
        single::single m2(hs[b].N, o2.A, o2.B, hs[b].bt, hs[b].br, hs[b].bi, hs[b].reps, 0);
        auto c1 = m1.matrix_multiply();
        auto c2 = m2.matrix_multiply();
        auto c3 = m1.matrix_multiply();
        auto c4 = m1.matrix_multiply();
        auto c5 = m2.matrix_multiply();
        o1.check("object 1, call 1", c1);
        o2.check("object 2, call 1", c2);
        o1.check("object 1, call 2", c3);
        o1.check("object 1, call 3", c4);
        o2.check("object 2, call 2", c5);
      });
    }
  for (int a = 0; a < 6; a++)
    mc::explore(strf("changed operands %d", a), opt(hc, 3), [=] {
      Operands<double> o1(hs[a].N, hs[a].bt, P_GEN, 1), o2(hs[a].N, hs[a].bt, P_GEN2, 2);
      single::single m1(hs[a].N, o1.A, o1.B, hs[a].bt, hs[a].br, hs[a].bi, hs[a].reps, 0);
      o1.check("first", m1.matrix_multiply());
      o1.A = o2.A;
      o1.B = o2.B;
      single::single m(hs[a].N, o1.A, o1.B, hs[a].bt, hs[a].br, hs[a].bi, hs[a].reps, 0);
      expect_matrix("after the operands changed", m.matrix_multiply(), o2.C, o2.N);
    });
  // the program may run on several nodes
  for (int l : {2, 3}) {
    mc::env().localities = l;
    for (size_t N : {1, 4, 5, 6})
      for (int bt = 0; bt < 2; bt++)
        mc::explore(strf("localities=%d N=%zu transposed=%d", l, N, bt), opt(hc * 4, 3), [=] { call({N, (bool)bt, 2, 2, 2, 0, P_GEN}); });
  }
  mc::env().localities = 1;
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
