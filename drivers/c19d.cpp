// C19: the command-line program with the real algorithms. The virtual clock advances with every call of a function of the
// repository and every vector multiplication: equal runs take equal time, so the time per run cannot depend on their number.
#define NOCOUNT __attribute__((no_instrument_function))
#include "app15.hpp"
#define VCLOCK_IMPL
#include "vclock.hpp"
int app_main(int argc, char *argv[]);
std::string vp::g_fault;
int vp::app_main_wrapper(int argc, char **argv) { return app_main(argc, argv); }
void vp_tick() { vclock::ns += 10000; }
void vp_phase(const char *) {}
extern "C" NOCOUNT void __cyg_profile_func_enter(void *, void *);
extern "C" NOCOUNT void __cyg_profile_func_exit(void *, void *);
extern "C" void __cyg_profile_func_enter(void *, void *) { vclock::ns += 10000; }
extern "C" void __cyg_profile_func_exit(void *, void *) {}
namespace drv {
using namespace vp;
static double figure(const std::string &s, const char *label) {
  double v = -1;
  size_t p = s.find(label);
  if (p == std::string::npos || sscanf(s.c_str() + p + strlen(label), "%lf", &v) != 1) return -1;
  return v;
}
static void runs(const std::string &alg, size_t n, bool transposed, unsigned localities, unsigned verbose, unsigned block) {
  std::string name = strf("%s N=%zu transposed=%d localities=%u verbose=%u block_result=%u", alg.c_str(), n, transposed, localities, verbose, block);
  mc::single(name, [=] {
    mc::env().localities = localities;
    double first = 0;
    for (unsigned reps : {1, 2, 3, 10, 25}) {
      Run r = run_app({"--algorithm=" + alg, strf("--n-value=%zu", n), strf("--transposed=%d", transposed), "--check=0", strf("--repetitions=%u", reps),
                       strf("--verbose=%u", verbose), strf("--block-result=%u", block), "--block-input=4"});
      if (r.refused || r.status) mc::fail("%s, %u repetitions: status %d %s", name.c_str(), reps, r.status, r.err.substr(0, 500).c_str());
      std::string all = r.log + "\n" + r.out;
      double total = figure(all, "] total time: "), avg = figure(all, "] average time per run: ");
      if (total < 0 || avg < 0) mc::fail("%s, %u repetitions: times are missing", name.c_str(), reps);
      if (getenv("VP_SHOW")) fprintf(stderr, "%s reps %u: total %g avg %g\n", name.c_str(), reps, total, avg);
      if (total < 2e-4) mc::fail("harness: %s, %u repetitions: the work of the algorithm is not seen (%g s)", name.c_str(), reps, total);
      if (reps == 1) first = avg;
      if (avg < 0.7 * first || avg > 1.4 * first)
        mc::fail("%s: one run of a single repetition takes %gs, but with %u repetitions (%gs in all) %gs per run are reported", name.c_str(), first, reps, total, avg);
      mc::count(1, reps);
    }
    mc::env().localities = 1;
  });
}
static void enumerate() {
  const bool th = mc::tier_thorough();
  for (const char *a : {"single", "pseudodynamic", "algorithms", "looped", "semi", "combined", "kernel_test", "kernel_tiled"}) {
    std::string alg = a;
    for (int t = 0; t < 2; t++) {
      if ((alg == "algorithms" || alg == "looped" || alg == "semi") && !t) continue;
      if (alg == "combined" && t) continue;
      bool hpx = alg == "single" || alg == "pseudodynamic";
      for (unsigned l = 1; l <= (alg == "pseudodynamic" ? 4 : 1); l++)
        for (unsigned v = 0; v < 2; v++) {
          if (alg[0] == 'k' || alg == "combined") {
            if (!v) runs(alg, alg == "kernel_test" ? 512 : 16, t, l, v, 4);
            continue;
          }
          runs(alg, 16, t, l, v, hpx ? 2 : 4);
          runs(alg, 32, t, l, v, hpx ? 4 : 8);
          if (th) runs(alg, 24, t, l, v, 3);
        }
    }
  }
}
} // namespace drv
int main(int argc, char **argv) {
  vp::maybe_app(argc, argv);
  return mc::driver_main(argc, argv, drv::enumerate);
}
// last, so that none of its names is visible above
#define main app_main
#include "matrix_multiply_application/matrix_multiply.cpp"
