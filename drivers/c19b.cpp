// C19: the inner duration and performance of the cache-blocked variants; each vector multiplication takes 1 us of
// virtual time and nothing else takes any, so exactly the time of all repetitions has to be reported
#include "reference_kernels/kernel_tiled.hpp"
#include "variants/combined.hpp"
#include "common.hpp"
#define VCLOCK_IMPL
#include "vclock.hpp"
static unsigned long g_mults = 0;
static unsigned long g_unit = 1000;
void vp_tick() {
  __atomic_fetch_add(&g_mults, 1, __ATOMIC_RELAXED);
  __atomic_fetch_add(&vclock::ns, (long long)g_unit, __ATOMIC_RELAXED);
}
void vp_phase(const char *) {}
namespace drv {
using namespace vp;
static double after(const std::string &s, const char *label, const std::string &what) {
  size_t p = s.find(label);
  double v = -1;
  if (p == std::string::npos || sscanf(s.c_str() + p + strlen(label), "%lf", &v) != 1) mc::fail("%s: \"%s\" is missing in the output", what.c_str(), label);
  if (s.find(label, p + 1) != std::string::npos) mc::fail("%s: \"%s\" is printed more than once", what.c_str(), label);
  return v;
}
static bool close_to(double a, double b) { return std::fabs(a - b) <= 2e-5 * std::fabs(b) + 1e-12; }
template <typename M> static void one(const std::string &what, M &m, size_t N, uint64_t reps, double before) {
  double d = before;
  g_mults = 0;
  std::string out;
  {
    mc::CaptureCout cap;
    m.matrix_multiply(d);
    out = cap.text();
  }
  out += mc::hpx_out();
  mc::hpx_out_clear();
  double want = g_mults * (g_unit * 1e-9);
  if (!(std::fabs(d - want) <= 1e-9 * want + 1e-12)) mc::fail("%s: %lu multiplications took %.9gs, but the duration is given as %.9gs", what.c_str(), g_mults, want, d);
  double in = after(out, "duration inner: ", what), perf = after(out, "inner performance: ", what), X = after(out, "X_size = ", what), Y = after(out, "Y_size = ", what), K = after(out, "K_size = ", what);
  if (!close_to(in, want)) mc::fail("%s: %.9gs, but the inner duration is printed as %.9gs", what.c_str(), want, in);
  double p = reps * 2 * X * Y * K / 1e9 / want;
  if (g_mults && std::fabs(perf - p) > 3e-5 * p) mc::fail("%s: inner performance %g instead of %g Gflops", what.c_str(), perf, p);
  if (X < N || Y < N || K < N) mc::fail("%s: the sizes given, %g x %g x %g, are smaller than the matrix", what.c_str(), X, Y, K);
  mc::outcome(mix(g_mults));
}
static void run(bool tiled, size_t N, uint64_t reps, uint64_t verbose, unsigned long unit, double before, int threads) {
  std::string what = strf("%s N=%zu repetitions=%lu verbose=%lu, %luns per vector operation, previous duration %g, threads=%d", tiled ? "kernel_tiled" : "combined", N, reps, verbose, unit, before, threads);
  mc::env().omp_threads = threads;
  mc::Opts o;
  o.cap = 1;
  o.policies = 1;
  mc::explore(what, o, [=] {
    g_unit = unit;
    Operands<double> op(N, false, P_GEN, 0);
    if (tiled) {
      kernel_tiled::kernel_tiled m(N, op.A, op.B, false, reps, verbose);
      one(what, m, N, reps, before);
      one(what + ", second call", m, N, reps, before + 1);
    } else {
      combined::combined m(N, op.A, op.B, reps, verbose);
      one(what, m, N, reps, before);
      one(what + ", second call", m, N, reps, before + 1);
    }
  });
  mc::env().omp_threads = 2;
}
static void enumerate() {
  bool th = mc::tier_thorough(), fast = mc::mode_is("fast");
  for (int t = 0; t < 2; t++) {
    for (uint64_t reps : {1, 2, 3, 5})
      for (size_t N : {1, 4, 63, 64, 130, 257}) {
        if (!th && (!fast || N > 64) && (reps > 3 || N == 63)) continue;
        if (!fast && (N > 130 || reps > 2)) continue;
        for (uint64_t v : {0, 1, 2}) {
          if (v == 2 && N > 4) continue;
          if (v && reps != 2 && !th) continue;
          for (double before : {0.0, 1e6, -3.0, (double)NAN}) {
            if (!th && before != 0.0 && (v || N != 4)) continue;
            for (unsigned long unit : {1000ul, 1ul, 123456789ul}) {
              if (unit != 1000 && (before != 0.0 || v || (N != 1 && N != 64))) continue;
              run(t, N, reps, v, unit, before, N == 4 ? 1 : 2);
            }
          }
        }
      }
  }
}
} // namespace drv
int main(int argc, char **argv) { return mc::driver_main(argc, argv, drv::enumerate); }
