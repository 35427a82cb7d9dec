// C20: memory held by the stand-alone experiments
#include "heap.hpp"
#include "otherExperiments/mult.hpp"
#include "common.hpp"
using namespace vp;
void multRegister_nofma(double *A, double *B, double *C, const uint32_t n);
void multGPUASM_nofma(double *A, double *B, double *C, const uint32_t n);
void multIntrinLoop_nofma(double *A, double *B, double *C, const uint32_t n);
struct Variant {
  const char *name;
  void (*f)(double *, double *, double *, const uint32_t);
  bool bt;
  size_t step;
};
static const Variant V[] = {
    {"naive", multNaive, false, 1},       {"transposed", multTransposed, true, 1}, {"counter", multCounter, true, 1},
    {"blocked2", multBlocked2, true, 2},  {"blocked4", multBlocked4, true, 4},     {"asm", multASM, true, 4},
    {"gpu", multGPU, true, 128},          {"exchanged", multExchanged, false, 128}, {"intrinLoop", multIntrinLoop, false, 128},
    {"register", multRegister, false, 256}, {"gpuasm", multGPUASM, true, 256},
    {"intrinLoop without FMA", multIntrinLoop_nofma, false, 128}, {"register without FMA", multRegister_nofma, false, 256}, {"gpuasm without FMA", multGPUASM_nofma, true, 256},
};
static void enumerate() {
  bool th = mc::tier_thorough();
  for (auto &v : V)
    for (size_t m = 0; m <= (v.step > 4 ? (th ? 3u : 2u) : 8u); m++)
      for (int t = 1; t <= (m * v.step > 300 && !th ? 2 : 4); t++) {
        mc::Opts o;
        o.policies = m * v.step > 300 && !th ? 1 : 3;
        o.cap = m * v.step <= 8 ? (th ? 300 : 20) : 1;
        mc::env().omp_threads = t;
        mc::explore(strf("%s n=%zu threads=%d", v.name, m * v.step, t), o, [=, &v] {
          size_t n = m * v.step;
          Operands<double> a(n, v.bt, P_GEN);
          double *p[3];
          for (auto &q : p)
            if (posix_memalign((void **)&q, 64, n * n * 8 + 64)) abort();
          memcpy(p[0], a.A.data(), n * n * 8), memcpy(p[1], a.B.data(), n * n * 8);
          heap::growth(v.name, [&] { memset(p[2], 0, n * n * 8), v.f(p[0], p[1], p[2], (uint32_t)n); }, 4);
          for (auto *q : p) free(q);
        });
        mc::env().omp_threads = 2;
      }
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
