// C20: memory held by the multiplications that run on HPX components
#include "heap.hpp"
#include "variants/pseudodynamic.hpp"
#include "variants/single.hpp"
#include "common.hpp"
#include "hpxrt.hpp"
using namespace vp;

static void run(int l, size_t N, bool bt, uint64_t br, uint64_t bi, uint64_t reps, uint64_t verbose, mc::Opts o) {
  mc::env().localities = l ? l : 1;
  mc::explore(strf("%s localities=%d N=%zu transposed=%d block_result=%lu block_input=%lu repetitions=%lu verbose=%lu", l ? "pseudodynamic" : "single", l, N, bt, br, bi, reps, verbose), o, [=] {
    Operands<double> a(N, bt, P_GEN, 0), b(N + 1, bt, P_GEN, 1);
    heap::growth(l ? "pseudodynamic" : "single", [&] {
      for (auto *o : {&a, &b}) {
        if (l) {
          pseudodynamic::pseudodynamic m(o->N, o->A, o->right(), bt, br, bi, 1, 0, 0.1, reps, verbose);
          auto C = m.matrix_multiply();
          if (reps) o->check("pseudodynamic", C);
        } else {
          single::single m(o->N, o->A, o->right(), bt, br, bi, reps, verbose);
          auto C = m.matrix_multiply();
          if (reps) o->check("single", C);
        }
      }
    });
  });
  mc::env().localities = 1;
}
static void enumerate() {
  bool th = mc::tier_thorough();
  for (int l = 0; l <= 4; l++)
    for (size_t N = 1; N <= 9; N++)
      for (int bt = 0; bt < 2; bt++)
        for (uint64_t br : {1, 4})
          for (uint64_t reps : {0, 1, 2})
            for (uint64_t verbose : {0, 2}) {
              mc::Opts o;
              o.policies = 3;
              o.cap = (N <= 2 ? 60 : 6) * (th ? 20 : 1);
              run(l, N, bt, br, bt ? 4 : 0, reps, verbose, o);
            }
  mc::Opts o;
  o.policies = 3;
  o.cap = 1;
  for (int l : {0, 1, 3, 9})
    for (size_t N : {16, 31, 48, 64}) run(l, N, true, 8, 16, 1, 0, o);
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
