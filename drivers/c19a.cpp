// C19: times and performance the command-line program reports, with algorithms that take known amounts of virtual time
#include "app15.hpp"
#define VCLOCK_IMPL
#include "vclock.hpp"
#include <streambuf>
int app_main(int argc, char *argv[]);
#include "stub15/stub.hpp"
std::string vp::g_fault;
// "c m o i p r" in nanoseconds
static long long cost_ns(char what) {
  const char *names = "cmoipr";
  long long v[6] = {0, 0, 0, 0, 0, 0};
  sscanf(vp::g_fault.c_str(), "%lld %lld %lld %lld %lld %lld", v, v + 1, v + 2, v + 3, v + 4, v + 5);
  return v[strchr(names, what) - names];
}
namespace {
// printing an operand or a result takes time
struct Filter : std::streambuf {
  std::streambuf *to;
  explicit Filter(std::streambuf *t) : to(t) {}
  int overflow(int c) override { return c == EOF ? 0 : to->sputc((char)c); }
  int sync() override { return to->pubsync(); }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    std::string t(s, n);
    for (const char *k : {"matrix A", "matrix B", "matrix C", "diff_matrix"})
      if (t.find(k) != std::string::npos) vclock::ns += cost_ns('p');
    return to->sputn(s, n);
  }
};
}
int vp::app_main_wrapper(int argc, char **argv) {
  static Filter a(std::cout.rdbuf()), b(mc::hpx_cout().rdbuf());
  std::cout.rdbuf(&a);
  mc::hpx_cout().rdbuf(&b);
  int rc = app_main(argc, argv);
  std::cout.rdbuf(a.to);
  mc::hpx_cout().rdbuf(b.to);
  return rc;
}
void vp_tick() {}
void vp_phase(const char *) { vclock::ns += cost_ns('i'); }
namespace stub {
using namespace vp;
void spend(char what, unsigned long times) {
  vclock::ns += cost_ns(what) * (long long)times;
  if (what == 'm') log(strf("runs %lu", times));
}
double cost(char what) { return cost_ns(what) * 1e-9; }
void log(const std::string &s) {
  std::string l = s + "\n";
  ssize_t w = write(9, l.data(), l.size());
  (void)w;
}
std::string text(const std::vector<double> &v) { return strf("matrix(%zu)", v.size()); }
std::vector<double> result(const std::string &, const Ops &o) { return o.mats.empty() ? std::vector<double>() : o.mats[0]; }
} // namespace stub
namespace drv {
using namespace vp;
static int number(const std::string &s, const char *label, double &v) {
  int n = 0;
  for (size_t p = 0; (p = s.find(label, p)) != std::string::npos; p += strlen(label)) {
    if (sscanf(s.c_str() + p + strlen(label), "%lf", &v) != 1) return -1;
    n++;
  }
  return n;
}
static bool close_to(double a, double b) { return std::fabs(a - b) <= 2e-5 * std::fabs(b) + 2e-8; }
struct T {
  std::string alg;
  size_t n;
  bool transposed, check;
  unsigned reps, verbose;
  long long c, m, o, i, p, r;
};
static void timed(const T &t) {
  std::vector<std::string> args = {"--algorithm=" + t.alg, strf("--n-value=%zu", t.n), strf("--transposed=%d", t.transposed), strf("--check=%d", t.check), strf("--repetitions=%u", t.reps), strf("--verbose=%u", t.verbose)};
  std::string costs = strf("%lld %lld %lld %lld %lld %lld", t.c, t.m, t.o, t.i, t.p, t.r);
  std::string what = shown(args) + strf(" where construction takes %gs, one multiplication %gs, what surrounds it %gs, the runtime %gs, printing a matrix %gs, the reference %gs", t.c * 1e-9, t.m * 1e-9, t.o * 1e-9, t.i * 1e-9, t.p * 1e-9, t.r * 1e-9);
  mc::single(what, [=] {
    Run r = run_app(args, costs);
    if (r.refused || r.status) mc::fail("%s: status %d %s", what.c_str(), r.status, r.err.substr(0, 500).c_str());
    size_t h = r.log.find("hpx::cout:");
    std::string calls = r.log.substr(0, h), all = r.log.substr(h + 10) + "\n" + r.out;
    unsigned long runs = 0;
    for (size_t p = 0; (p = calls.find("runs ", p)) != std::string::npos; p += 5) runs += strtoul(calls.c_str() + p + 5, nullptr, 10);
    if (!runs) mc::fail("%s: nothing was multiplied", what.c_str());
    double total = -1, avg = -1, perf = -1, pref = -1, tref = -1;
    int k = number(all, "] total time: ", total);
    if (k != 1) mc::fail("%s: the total time is printed %d times", what.c_str(), k);
    if ((k = number(all, "] average time per run: ", avg)) != 1) mc::fail("%s: the average time is printed %d times", what.c_str(), k);
    if ((k = number(all, "] performance: ", perf)) != 1) mc::fail("%s: the performance is printed %d times", what.c_str(), k);
    double mult = runs * t.m * 1e-9, around = (t.o * (double)runs + t.c * 2) * 1e-9;
    if (!(total > mult - 2e-8 - 2e-5 * mult && total < mult + around + 2e-8 + 2e-5 * (mult + around)))
      mc::fail("%s: %lu multiplications took %gs, but the total time is given as %gs", what.c_str(), runs, mult, total);
    if (!close_to(avg, total / runs)) mc::fail("%s: %gs for %lu multiplications, but %gs per run", what.c_str(), total, runs, avg);
    double gflop = 2.0 * t.n * t.n * t.n / 1e9;
    if (total > 1e-6 && std::fabs(perf - runs * gflop / total) > 3e-5 * runs * gflop / total) mc::fail("%s: %g Gflop in %gs, but the performance is given as %g Gflops", what.c_str(), runs * gflop, total, perf);
    if (t.check) {
      if (number(all, "naive matMult took ", tref) != 1 || number(all, "performance reference: ", pref) != 1) mc::fail("%s: time or performance of the reference is missing", what.c_str());
      if (!close_to(tref, t.r * 1e-9)) mc::fail("%s: the reference took %gs, but %gs are given", what.c_str(), t.r * 1e-9, tref);
      if (tref > 1e-6 && std::fabs(pref - gflop / tref) > 3e-5 * gflop / tref) mc::fail("%s: the reference took %gs for %g Gflop, but its performance is given as %g Gflops", what.c_str(), tref, gflop, pref);
    } else if (number(all, "performance reference: ", pref))
      mc::fail("%s: performance of the reference although it was not run", what.c_str());
    mc::outcome(mix((uint64_t)(total * 1e6) * 31 + runs));
  });
}
static void no_figures(std::vector<std::string> args) {
  mc::single(shown(args), [=] {
    Run r = run_app(args, "1000000000 1000000000 0 0 0 1000000000");
    double v;
    std::string calls = r.log.substr(0, r.log.find("hpx::cout:"));
    if (args.back() != "--hpx:worker" && calls.find("runs ") != std::string::npos) mc::fail("%s: multiplies", shown(args).c_str());
    if (number(r.out, "performance: ", v)) mc::fail("%s: gives a performance although nothing was multiplied", shown(args).c_str());
  });
}
static void enumerate() {
  bool th = mc::tier_thorough(), fast = mc::mode_is("fast");
  const long long S = 1000000000ll;
  for (const char *alg : {"single", "pseudodynamic", "algorithms", "looped", "semi", "combined", "kernel_test", "kernel_tiled"})
    for (int tr = 0; tr < 2; tr++) {
      std::string a = alg;
      bool tonly = a == "algorithms" || a == "looped" || a == "semi";
      if ((tonly && !tr) || (a == "combined" && tr)) continue;
      for (unsigned reps : {1, 2, 3, 5, 10})
        for (size_t n : {1, 4, 7, 32}) {
          if (!fast && (n != 4 || reps > 3)) continue;
          if (!th && n == 32 && reps != 3 && reps != 10) continue;
          for (int ch = 0; ch < 2; ch++)
            for (unsigned v : {0, 1, 2}) {
              if (!th && !fast && v == 1) continue;
              if (n > 7 && v == 2) continue;
              timed({a, n, (bool)tr, (bool)ch, reps, v, 0, S, 0, 0, 0, S / 4});
              if (v == 1 && !th) continue;
              timed({a, n, (bool)tr, (bool)ch, reps, v, 0, S / 8, 0, 70 * S, 11 * S, 3 * S});
              timed({a, n, (bool)tr, (bool)ch, reps, v, 17 * S, 2 * S, 0, 0, 0, 5 * S / 2});
              timed({a, n, (bool)tr, (bool)ch, reps, v, 0, 3 * S, 40 * S, 0, 0, S / 50});
              if (!fast && !th) continue;
              timed({a, n, (bool)tr, (bool)ch, reps, v, 0, 5 * S / 1000, 0, 0, 9 * S, S / 1000});
              timed({a, n, (bool)tr, (bool)ch, reps, v, 0, 90000 * S, 0, S, S, 7000 * S});
            }
        }
    }
  // so many operations that they need 64 bits
  if (fast)
    for (const char *alg : {"single", "pseudodynamic", "algorithms", "combined", "kernel_test", "kernel_tiled"})
      for (size_t n : {1024, 1291, 1626, 2100}) {
        std::string a = alg;
        if (!th && n != 1291 && n != 2100) continue;
        timed({a, n, a != "combined", n == 1291, a == "algorithms" ? 1u : 2u, 0, 0, 3 * S, 0, S, S, 2 * S});
        timed({a, n, a != "combined", false, a == "algorithms" || a == "single" ? 1u : 4000000000u, 0, 0, S / 1000, 0, S, S, 2 * S});
      }
  no_figures({"--help"});
  for (const char *alg : {"single", "pseudodynamic", "algorithms", "looped", "semi", "combined", "kernel_test", "kernel_tiled"})
    no_figures({std::string("--algorithm=") + alg, "--check=1", alg[0] == 'c' ? "--transposed=0" : "--transposed=1", "--hpx:worker"});
  no_figures({"--algorithm=nonsense"});
  no_figures({"--algorithm=nonsense", "--check=1", "--repetitions=4"});
  no_figures({"--algorithm=semi", "--transposed=0"});
  no_figures({"--algorithm=combined", "--transposed=1"});
}
} // namespace drv
int main(int argc, char **argv) {
  vp::maybe_app(argc, argv);
  return mc::driver_main(argc, argv, drv::enumerate);
}
// last, so that none of its names is visible above
#define main app_main
#include "matrix_multiply_application/matrix_multiply.cpp"
