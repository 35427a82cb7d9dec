// C19: time and performance the benchmark of the stand-alone experiments reports, with implementations that take known
// amounts of virtual time
#include "app15.hpp"
#include <new>
#define VCLOCK_IMPL
#include "vclock.hpp"
int bench_main(int argc, char **argv);
std::string vp::g_fault;
static bool in_impl = false;
static long long cost_ns(int k) {
  long long v[2] = {0, 0};
  sscanf(vp::g_fault.c_str(), "%lld %lld", v, v + 1);
  return v[k];
}
int vp::app_main_wrapper(int argc, char **argv) { return bench_main(argc, argv); }
// providing the matrices takes time, too
void *operator new(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (n > 1000000 && !in_impl) vclock::ns += cost_ns(1);
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void vp_tick() {}
void vp_phase(const char *) {}
static void called(const uint32_t n) {
  vclock::ns += cost_ns(0);
  std::string l = "call " + std::to_string(n) + "\n";
  ssize_t w = write(9, l.data(), l.size());
  (void)w;
}
#define IMPL(f) void f(double *, double *, double *, const uint32_t n) { called(n); }
IMPL(multNaive)
IMPL(multTransposed)
IMPL(multCounter)
IMPL(multExchanged)
IMPL(multRegister)
IMPL(multIntrinLoop)
IMPL(multBlocked2)
IMPL(multBlocked4)
IMPL(multGPU)
IMPL(multGPUASM)
IMPL(multASM)
namespace drv {
using namespace vp;
static double after(const std::string &s, const char *label, const std::string &what) {
  size_t p = s.find(label);
  double v = -1;
  if (p == std::string::npos || sscanf(s.c_str() + p + strlen(label), "%lf", &v) != 1) mc::fail("%s: \"%s\" is missing in the output", what.c_str(), label);
  return v;
}
static void timed(const std::string &name, long long m, long long a) {
  std::string what = "benchmark " + name + strf(" where an implementation takes %.9gs and an allocation %gs", m * 1e-9, a * 1e-9);
  mc::single(what, [=] {
    Run r = run_app({name}, strf("%lld %lld", m, a));
    if (r.refused || r.status) mc::fail("%s: status %d %s", what.c_str(), r.status, r.err.substr(0, 500).c_str());
    double n = 0;
    std::string log = r.log.substr(0, r.log.find("hpx::cout:"));
    unsigned long calls = std::count(log.begin(), log.end(), '\n');
    if (!calls || sscanf(log.c_str(), "call %lf", &n) != 1) mc::fail("%s: no implementation was called", what.c_str());
    double flops = after(r.out, "->", what), gflop = after(r.out, "gflop: ", what), sec = after(r.out, "seconds: ", what), work = calls * 2.0 * n * n * n;
    if (!(std::fabs(flops - work) <= 1e-10 * work)) mc::fail("%s: %g instead of %g floating point operations announced", what.c_str(), flops, work);
    if (!(std::fabs(gflop - work / 1e9) <= 1e-10 * work / 1e9)) mc::fail("%s: %g instead of %g Gflop", what.c_str(), gflop, work / 1e9);
    double want = calls * m * 1e-9;
    if (!(std::fabs(sec - want) <= 0.0010001 + 1e-10 * want)) mc::fail("%s: the time is given as %.9gs", what.c_str(), sec);
    size_t p = r.out.find(" Gflops");
    double perf = -1;
    if (p == std::string::npos) mc::fail("%s: no performance given", what.c_str());
    size_t q = p;
    while (q && r.out[q - 1] != '\n' && r.out[q - 1] != ' ') q--;
    if (sscanf(r.out.c_str() + q, "%lf", &perf) != 1) mc::fail("%s: no performance given", what.c_str());
    if (m >= 1000000 && !(perf >= gflop / (want + 0.0010001) * (1 - 1e-9) && perf <= gflop / std::max(want - 0.0010001, sec > 0 ? 1e-9 : 0.0) * (1 + 1e-9) && (sec <= 0 || std::fabs(perf - gflop / sec) <= gflop / sec * (0.0010001 / sec + 1e-9))))
      mc::fail("%s: the performance is given as %.12g Gflops", what.c_str(), perf);
  });
}
static void enumerate() {
  bool th = mc::tier_thorough(), fast = mc::mode_is("fast");
  const long long S = 1000000000ll;
  for (const char *n : {"naive", "transposed", "counter", "exchanged", "register", "intrinLoop", "blocked2", "blocked4", "gpu", "gpuasm", "asm"}) {
    timed(n, 2 * S, 0);
    timed(n, 3 * S / 4, 10 * S);
    if (fast || th) {
      timed(n, 200 * S, 1000 * S);
      timed(n, 5670000000ll, S);
    }
  }
  if (fast)
    for (long long m : {1000000ll, 2000000ll, 10000000ll, 999000000ll, 1001000000ll, 1234567890ll, 59999000000ll, 60000000000ll, 3600ll * S, 100000ll * S, 3000000ll * S})
      for (long long a : {0ll, 1000000ll, 7 * S}) timed("register", m, a);
}
} // namespace drv
int main(int argc, char **argv) {
  vp::maybe_app(argc, argv);
  return mc::driver_main(argc, argv, drv::enumerate);
}
