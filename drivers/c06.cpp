// C06: variants "algorithms", "looped", "semi" (B stored transposed)
#include "variants/algorithms.hpp"
#include "variants/looped.hpp"
#include "variants/semi.hpp"
#include "common.hpp"
using namespace vp;
enum { ALG, LOOP, SEMI };
static const char *vn[] = {"algorithms", "looped", "semi"};

static std::vector<double> mult(int v, size_t N, std::vector<double> &A, std::vector<double> &B, uint64_t br, uint64_t bi, int calls = 1) {
  std::vector<double> C;
  if (v == ALG) {
    algorithms::algorithms m(N, A, B, bi, br);
    while (calls--) C = m.matrix_multiply();
  } else if (v == LOOP) {
    looped::looped m(N, A, B, br, bi);
    while (calls--) C = m.matrix_multiply();
  } else {
    semi::semi m(N, A, B, br, bi);
    while (calls--) C = m.matrix_multiply();
  }
  return C;
}
static void call(int v, size_t N, uint64_t br, uint64_t bi, int pat, size_t salt = 0, int calls = 1) {
  Operands<double> o(N, true, pat, salt);
  scribble();
  o.check(vn[v], mult(v, N, o.A, o.right(), br, bi, calls));
}
static mc::Opts opt(uint64_t cap, int policies) {
  mc::Opts o;
  o.cap = cap;
  o.policies = policies;
  return o;
}
static void run(int v, size_t N, uint64_t br, uint64_t bi, int pat, long chunk, mc::Opts o) {
  if (v != ALG && br == 0) return;
  mc::env().chunk = chunk;
  mc::explore(strf("%s N=%zu block_result=%lu block_input=%lu %s chunk=%ld", vn[v], N, br, bi, pattern_name(pat), chunk), o, [=] { call(v, N, br, bi, pat); });
  mc::env().chunk = 1;
}
static void enumerate() {
  bool th = mc::tier_thorough(), fast = mc::mode_is("fast"), tsan = mc::mode_is("tsan");
  uint64_t k = th ? 10 : 1;
  // schedules of the parallel iterations
  for (int v = 0; v < 3; v++)
    for (size_t N : {1, 2, 3, 4, 5, 7, 8})
      for (uint64_t br : {1, 2, 3, 4})
        for (uint64_t bi : {1, 3})
          for (long chunk : {1, 2, 3, 0}) {
            if (br < 2 && N > 5) continue;
            run(v, N, br, bi, P_GEN, chunk, opt((tsan ? 60 : fast ? 2000 : 300) * k, 3));
          }
  if (tsan) {
    for (int v = 0; v < 3; v++)
      for (size_t N : {12, 17, 24})
        for (uint64_t br : {4, 5}) run(v, N, br, 7, P_GEN, 1, opt(5, 3));
  } else {
    size_t nmax = fast ? (th ? 30 : 24) : 13;
    for (int v = 0; v < 3; v++)
      for (size_t N = 0; N <= nmax; N++)
        for (uint64_t br = 1; br <= N + 3; br++)
          for (uint64_t bi = 1; bi <= N + 3; bi++) run(v, N, br, bi, P_GEN, 1 + (long)((br + bi) % 4), opt(1, 1));
    for (int v = 0; v < 3; v++)
      for (size_t N : {0, 1, 5, 9, 16, 20})
        for (uint64_t br : {31, 32, 33, 64, 100, 128})
          for (uint64_t bi : {31, 32, 33, 64, 128, 1000}) run(v, N, br, bi, P_GEN, 0, opt(1, 1));
    for (int v = 0; v < 3; v++)
      for (int pat = 0; pat < P_COUNT; pat++)
        for (size_t N : {1, 2, 3, 5, 6, 7, 8, 10})
          for (uint64_t br : {1, 3, 4})
            for (uint64_t bi : {1, 4, 5}) run(v, N, br, bi, pat, 2, opt(1, 2));
    if (fast) {
      std::vector<size_t> ns = {21, 23, 24, 25, 31, 32, 33, 34, 35, 36, 40, 48, 50, 63, 64, 65, 66, 67, 68, 96, 100, 127, 128, 129, 130, 131, 132};
      if (th) ns.insert(ns.end(), {160, 192, 200, 255, 256, 257, 258, 300, 384});
      for (int v = 0; v < 3; v++)
        for (size_t N : ns)
          for (uint64_t br : {(size_t)4, (size_t)7, (size_t)16, (size_t)32, (size_t)64, (size_t)128, N / 2, N - 1, N, N + 1})
            for (uint64_t bi : {(size_t)1, (size_t)4, (size_t)7, (size_t)32, (size_t)64, (size_t)128, (size_t)256, N / 2 + 1, N - 1, N, N + 1}) {
              if (v == LOOP && N > 70 && (br * 3 + bi) % 4) continue;
              run(v, N, br, bi, P_GEN, N > 40 ? 5 : 1, opt(1, 1));
            }
    } else {
      for (int v = 0; v < 3; v++)
        for (size_t N : {31, 33, 64, 66})
          for (uint64_t br : {4, 16, 32, 64})
            for (uint64_t bi : {1, 8, 32, 64}) run(v, N, br, bi, P_GEN, 3, opt(1, 1));
    }
  }
  // histories: other objects, other variants, the same object again, changed operands
  struct H {
    int v;
    size_t N;
    uint64_t br, bi;
  };
  const H hs[] = {{ALG, 5, 2, 3}, {ALG, 8, 4, 4}, {LOOP, 5, 2, 3}, {LOOP, 8, 4, 2}, {SEMI, 5, 2, 3}, {SEMI, 8, 4, 4}, {SEMI, 6, 4, 4}, {ALG, 1, 4, 4}, {LOOP, 0, 1, 1}};
  for (const H &a : hs)
    for (const H &b : hs) {
      mc::explore(strf("history %s %zu, %s %zu", vn[a.v], a.N, vn[b.v], b.N), opt(tsan ? 2 : 4, 2), [=] {
        call(a.v, a.N, a.br, a.bi, P_GEN, 1, 2);
        call(b.v, b.N, b.br, b.bi, P_SPARSE, 2, 3);
        call(a.v, a.N, a.br, a.bi, P_GEN2, 3, 1);
      });
    }
  for (const H &a : hs)
    mc::explore(strf("changed operands %s %zu", vn[a.v], a.N), opt(2, 1), [=] {
      Operands<double> o1(a.N, true, P_GEN, 1), o2(a.N, true, P_GEN2, 2);
      std::vector<double> A = o1.A, B = o1.B, c1, c2;
      c1 = mult(a.v, a.N, A, B, a.br, a.bi);
      A = o2.A, B = o2.B;
      c2 = mult(a.v, a.N, A, B, a.br, a.bi);
      expect_matrix("first", c1, o1.C, a.N);
      expect_matrix("after the operands changed", c2, o2.C, a.N);
    });
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
