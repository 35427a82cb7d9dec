// C21: failures of the computing nodes
#include "variants/pseudodynamic.hpp"
#include "variants/single.hpp"
#include "common.hpp"
#include "hpxrt.hpp"
using namespace vp;

struct P {
  int l; // 0: single
  size_t N;
  bool bt;
  uint64_t br, reps;
};
static std::vector<double> multiply(const P &p, Operands<double> &o) {
  if (p.l) {
    pseudodynamic::pseudodynamic m(p.N, o.A, o.right(), p.bt, p.br, p.bt ? 4 : 0, 1, 0, 0.1, p.reps, 0);
    return m.matrix_multiply();
  }
  single::single m(p.N, o.A, o.right(), p.bt, p.br, p.bt ? 4 : 0, p.reps, 0);
  return m.matrix_multiply();
}
static const char *kinds[] = {"no failure", "HPX error", "out of memory", "result lost"};
static long actions(size_t n, size_t br) { return n <= br || n % 2 ? 2 : 1 + 4 * actions(n / 2, br); } // at most
static void run(const P &p, mc::FaultKind kind, long first, long last, int where, mc::Opts o) {
  mc::env().localities = p.l ? p.l : 1;
  std::string id = strf("%s localities=%d N=%zu transposed=%d block_result=%lu repetitions=%lu: %s in actions %ld-%ld", p.l ? "pseudodynamic" : "single", p.l, p.N, p.bt, p.br, p.reps, kinds[kind], first, last);
  if (where >= 0) id += strf(" on node %d", where);
  mc::explore(id, o, [=] {
    Operands<double> a(p.N, p.bt, P_GEN, 0), b(p.N, p.bt, P_GEN, 1);
    mc::Fault &f = mc::fault();
    f.kind = kind, f.first = first, f.last = last, f.locality = where, f.started = f.failed = 0;
    bool raised = false;
    std::vector<double> C;
    try {
      C = multiply(p, a);
    } catch (const std::exception &e) {
      raised = true;
      if (!f.failed) mc::fail("an error (%s) although no action failed", e.what());
    }
    if (!raised && f.failed) {
      // nothing was reported, so the failure must have had no effect
      if (C.size() != a.C.size()) mc::fail("%ld failed actions, no error and a result of %zu entries", f.failed, C.size());
      for (size_t i = 0; i < C.size(); i++)
        if (!same(C[i], a.C[i])) mc::fail("%ld failed actions, no error and entry (%zu,%zu) is %.17g instead of %.17g", f.failed, i / p.N, i % p.N, C[i], a.C[i]);
    }
    if (!raised && !f.failed) a.check("without a failure", C);
    expect_unchanged("A", a.A, a.A0), expect_unchanged("B", a.B, a.B0);
    f.kind = mc::FAULT_NONE;
    b.check("the multiplication after the failure", multiply(p, b));
    mc::outcome((uint64_t)f.failed * 2 + raised);
  });
  mc::env().localities = 1;
}
static void enumerate() {
  bool th = mc::tier_thorough(), fast = mc::mode_is("fast"), tsan = mc::mode_is("tsan");
  for (int l = 0; l <= (th ? 6 : 4); l++)
    for (size_t N : {1, 2, 3, 4, 6, 8, 12})
      for (int bt = 0; bt < 2; bt++)
        for (uint64_t br : {1, 2, 4})
          for (uint64_t reps : {1, 2}) {
            if (!fast && !th && (br == 2 || N > 8 || (bt && reps == 2))) continue;
            if (tsan && (N > 4 || bt || l > 2)) continue;
            P p{l, N, (bool)bt, br, reps};
            long n = actions(N, br) * reps;
            run(p, mc::FAULT_NONE, 1, 0, -1, mc::Opts());
            mc::Opts o;
            o.policies = 3;
            o.cap = (tsan ? 4 : !fast ? 10 : N <= 2 ? 200 : N <= 4 ? 40 : 6) * (th ? 10 : 1);
            long step = n > 40 ? n / 20 : 1;
            for (int kind = 1; kind <= 3; kind++)
              for (long k = 1; k <= n; k += step) {
                run(p, (mc::FaultKind)kind, k, k, -1, o);
                if (kind == 1) run(p, (mc::FaultKind)kind, k, 1l << 40, -1, o); // everything from then on
                if (kind == 2 && k < n) run(p, (mc::FaultKind)kind, k, k + 1, -1, o);
              }
            for (int where = 0; where < l; where++)
              for (int kind = 1; kind <= 3; kind++) run(p, (mc::FaultKind)kind, 1, 1l << 40, where, o);
          }
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
