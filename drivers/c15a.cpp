// C15: the command-line program with the real algorithms
#include "app15.hpp"
int app_main(int argc, char *argv[]);
std::string vp::g_fault;
int vp::app_main_wrapper(int argc, char **argv) { return app_main(argc, argv); }
namespace drv {
using namespace vp;

static void good(const std::vector<std::string> &args) {
  mc::single(shown(args), [=] {
    Run r = run_app(args);
    if (r.refused) mc::fail("%s: ended by an exception: %s", shown(args).c_str(), r.err.substr(0, 500).c_str());
    if (r.status != 0) mc::fail("%s: exit status %d", shown(args).c_str(), r.status);
    if (!r.has("check passed") || r.has("check failed")) mc::fail("%s: does not say \"check passed\" although the result is right", shown(args).c_str());
  });
}
static std::string N(size_t n) { return strf("--n-value=%zu", n); }
static void enumerate() {
  bool th = mc::tier_thorough();
  std::vector<size_t> ns = {512, 0, 1, 2, 3, 4, 5, 7, 8, 9, 16};
  if (th) ns.insert(ns.end(), {6, 10, 11, 12, 13, 17, 24, 31, 33, 50, 64});
  for (size_t n : ns) {
    for (const char *alg : {"single", "pseudodynamic", "algorithms", "looped", "semi", "combined", "kernel_test", "kernel_tiled"}) {
      std::string a = alg;
      if (n == 512 && a != "kernel_test") continue;
      bool tonly = a == "algorithms" || a == "looped" || a == "semi", nonly = a == "combined";
      bool expensive = nonly || a[0] == 'k';
      if (a == "kernel_test" && n % 512 != 0) continue; // see known_findings.txt
      if (expensive && n % 512 != 0 && n != 1 && n != 4 && n != 7 && !th) continue;
      for (int t = 0; t < 2; t++) {
        if ((tonly && !t) || (nonly && t)) continue;
        std::string tr = t ? "--transposed=1" : "--transposed=0";
        std::string alg_s = "--algorithm=" + a;
        if (a == "single" && n == 0) continue;
        good({N(n), alg_s, tr, "--check=1"});
        if (expensive) continue;
        if (a == "pseudodynamic" && n == 0) continue;
        good({N(n), alg_s, tr, "--check=1", "--block-result=4", "--block-input=4", "--repetitions=2"});
        if (a != "algorithms" && a != "looped" && a != "semi") good({N(n), alg_s, tr, "--check=1", "--block-result=2", "--block-input=3", "--verbose=1"});
        if (n <= 5) good({N(n), alg_s, tr, "--check=1", "--verbose=2", "--block-result=4", "--block-input=8"});
        if (a == "pseudodynamic") good({N(n), alg_s, tr, "--check=1", "--min-work-size=1", "--max-work-difference=1", "--max-relative-work-difference=0.01", "--block-result=1"});
      }
    }
  }
  // several processes
  for (int l : {2, 3, 4, 6, 9})
    for (size_t n : {1, 2, 5, 8, 11})
      for (int t = 0; t < 2; t++) {
        std::string tr = t ? "--transposed=1" : "--transposed=0", ls = strf("--hpx:localities=%d", l);
        good({N(n), "--algorithm=single", tr, "--check=1", "--block-result=2", "--block-input=2", ls});
        good({N(n), "--algorithm=pseudodynamic", tr, "--check=1", "--min-work-size=1", "--max-work-difference=1", "--max-relative-work-difference=0.01", "--block-result=2", ls});
        good({N(n), "--algorithm=pseudodynamic", tr, "--check=1", "--min-work-size=4", "--block-input=3", "--repetitions=2", ls});
        if (n < 9) good({N(n), "--algorithm=pseudodynamic", tr, "--check=1", "--min-work-size=1", "--max-work-difference=0", "--block-result=1", "--verbose=2", ls});
      }
  good({"--check=True", "--n-value=6"});
  good({"--check", "true", "--n-value", "6", "--algorithm", "looped"});
}
} // namespace drv
int main(int argc, char **argv) {
  vp::maybe_app(argc, argv);
  return mc::driver_main(argc, argv, drv::enumerate);
}
// last, so that none of its names is visible above
#define main app_main
#include "matrix_multiply_application/matrix_multiply.cpp"
