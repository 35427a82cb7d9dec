// C15: the command-line program with recording, fault-injecting algorithms
#include "app15.hpp"
int app_main(int argc, char *argv[]);
#include "stub15/stub.hpp"
std::string vp::g_fault;
int vp::app_main_wrapper(int argc, char **argv) { return app_main(argc, argv); }
namespace stub {
using namespace vp;
void spend(char, unsigned long) {}
double cost(char) { return 0.25; }
void log(const std::string &s) {
  std::string l = s + "\n";
  ssize_t w = write(9, l.data(), l.size());
  (void)w;
}
std::string text(const std::vector<double> &v) {
  size_t n = 0;
  while (n * n < v.size()) n++;
  bool id = n * n == v.size(), unit = true, alike = true;
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i] != (i / n == i % n ? 1.0 : 0.0)) id = false;
    if (!(v[i] >= 0 && v[i] < 1)) unit = false;
    if (v[i] != v[0]) alike = false;
  }
  return strf("matrix(%zu%s)", v.size(), id ? ",identity" : unit && (v.size() < 2 || !alike) ? ",random" : ",other");
}
// fault: "kind position"
std::vector<double> result(const std::string &name, const Ops &o) {
  log("multiply " + name);
  std::vector<double> C;
  if (o.mats.size() == 2) {
    size_t n = 0;
    while (n * n < o.mats[0].size()) n++;
    if (n * n != o.mats[0].size() || o.mats[1].size() != o.mats[0].size()) mc::fail("operands of %s are not square", name.c_str());
    C = product(o.mats[0].data(), o.mats[1].data(), n, o.flag || name == "semi" || name == "looped" || name == "algorithms");
  }
  char kind[64] = "";
  unsigned long pos = 0;
  sscanf(g_fault.c_str(), "%63s %lu", kind, &pos);
  std::string k = kind;
  if (k == "short") C.resize(C.size() - 1);
  else if (k == "long") C.push_back(0.0);
  else if (k == "empty") C.clear();
  else if (k == "longer") C.insert(C.end(), 5, C.empty() ? 0.0 : C[0]);
  else if (k == "shift") std::rotate(C.begin(), C.begin() + 1, C.end());
  else if (!k.empty()) {
    double &c = C.at(pos);
    if (k == "nan") c = std::numeric_limits<double>::quiet_NaN();
    else if (k == "-nan") c = -std::numeric_limits<double>::quiet_NaN();
    else if (k == "inf") c = std::numeric_limits<double>::infinity();
    else if (k == "-inf") c = -std::numeric_limits<double>::infinity();
    else if (k == "zero") c = 0.0;
    else if (k == "pair") c += 0.25, C.at((pos + 1) % C.size()) -= 0.25;
    else if (k == "negate") c = -c;
    else c += atof(kind);
  }
  return C;
}

} // namespace stub
namespace drv {
using namespace vp;

struct Cfg {
  std::string alg = "single";
  size_t n = 4;
  bool transposed = true, check = true;
  uint64_t reps = 1, verbose = 0, br = 128, bi = 128, mws = 256, mwd = 10000;
  double rel = 0.05;
  std::vector<std::string> args() const {
    return {"--algorithm=" + alg, strf("--n-value=%zu", n), strf("--transposed=%d", transposed), strf("--check=%d", check), strf("--repetitions=%lu", reps),
            strf("--verbose=%lu", verbose), strf("--block-result=%lu", br), strf("--block-input=%lu", bi), strf("--min-work-size=%lu", mws),
            strf("--max-work-difference=%lu", mwd), strf("--max-relative-work-difference=%.17g", rel)};
  }
  std::string A() const { return strf("matrix(%zu,%s)", n * n, n == 0 ? "identity" : "random"); }
  std::string B() const { return strf("matrix(%zu,identity)", n * n); }
  bool refuses() const { return ((alg == "algorithms" || alg == "looped" || alg == "semi") && !transposed) || (alg == "combined" && transposed); }
  std::string expected() const {
    std::string ab = strf(" %zu ", n) + A() + " " + B(), tr = transposed ? " true" : " false";
    if (alg == "single") {
      std::string s = "new multiplier" + ab + tr + strf(" %lu %lu\n", bi, verbose) + strf("new recursive %lu %lu\n", br, verbose);
      for (uint64_t i = 0; i < reps; i++) s += strf("multiply block 0 0 %zu\nmultiply recursive\n", n);
      return s;
    }
    if (alg == "pseudodynamic") return "new static_improved" + ab + tr + strf(" %lu %lu %lu %lu %.17g %lu %lu\nmultiply static_improved\n", bi, br, mws, mwd, rel, reps, verbose);
    if (alg == "algorithms") return "new algorithms" + ab + strf(" %lu %lu\nmultiply algorithms\n", bi, br);
    if (alg == "looped") return "new looped" + ab + strf(" %lu %lu\nmultiply looped\n", br, bi);
    if (alg == "semi") return "new semi" + ab + strf(" %lu %lu\nmultiply semi\n", br, bi);
    if (alg == "combined") return "new combined" + ab + strf(" %lu %lu\nmultiply combined\n", reps, verbose);
    return "new " + alg + ab + tr + strf(" %lu %lu\nmultiply %s\n", reps, verbose, alg.c_str());
  }
};
static std::string calls(const Run &r) {
  std::string l = r.log.substr(0, r.log.find("hpx::cout:"));
  // "single" through its class, or with the two components created the other way round
  char ab[200], tr[8];
  unsigned long n, br, bi, reps, v;
  int end = 0;
  if (sscanf(l.c_str(), "new single %lu %99s %99s %7s %lu %lu %lu %lu\nmultiply single\n%n", &n, ab, ab + 100, tr, &br, &bi, &reps, &v, &end) == 8 && end == (int)l.size()) {
    std::string s = strf("new multiplier %lu %s %s %s %lu %lu\nnew recursive %lu %lu\n", n, ab, ab + 100, tr, bi, v, br, v);
    for (unsigned long i = 0; i < reps; i++) s += strf("multiply block 0 0 %lu\nmultiply recursive\n", n);
    return s;
  }
  size_t m = l.find("new multiplier");
  if (l.compare(0, 14, "new recursive ") == 0 && m == l.find('\n') + 1) {
    size_t e = l.find('\n', m) + 1;
    l = l.substr(m, e - m) + l.substr(0, m) + l.substr(e);
  }
  return l;
}
static void verdict(const std::string &what, const Run &r, bool check, bool ok) {
  bool p = r.has("check passed"), f = r.has("check failed");
  if (!check && (p || f)) mc::fail("%s: prints a verdict although checking is off", what.c_str());
  if (check && ok && (!p || f)) mc::fail("%s: does not say \"check passed\" although the result is right", what.c_str());
  if (check && !ok && p) mc::fail("%s: says \"check passed\" although the result is wrong", what.c_str());
  if (check && !ok && !r.has("error: check failed!")) mc::fail("%s: does not say \"error: check failed!\" although the result is wrong", what.c_str());
}
static void normal(const Cfg &c) {
  mc::single(shown(c.args()), [=] {
    std::string what = shown(c.args());
    Run r = run_app(c.args());
    if (c.refuses()) {
      if (!r.refused && r.status == 0) mc::fail("%s: not refused", what.c_str());
      if (calls(r).find("multiply") != std::string::npos) mc::fail("%s: multiplies although the setting of B does not fit", what.c_str());
      if (r.has("check passed")) mc::fail("%s: prints a verdict", what.c_str());
      return;
    }
    if (r.refused) mc::fail("%s: ended by an exception: %s", what.c_str(), r.err.substr(0, 500).c_str());
    if (r.status != 0) mc::fail("%s: exit status %d", what.c_str(), r.status);
    if (calls(r) != c.expected()) mc::fail("%s: ran\n%s instead of\n%s", what.c_str(), calls(r).c_str(), c.expected().c_str());
    verdict(what, r, c.check, true);
  });
}
static void faulty(const Cfg &c, const std::string &fault, bool ok) {
  mc::single(shown(c.args()) + " with fault " + fault, [=] {
    std::string what = shown(c.args()) + " with fault " + fault;
    Run r = run_app(c.args(), fault);
    if (r.refused) mc::fail("%s: ended by an exception: %s", what.c_str(), r.err.substr(0, 500).c_str());
    verdict(what, r, c.check, ok);
  });
}
static const char *const ALG[] = {"single", "pseudodynamic", "algorithms", "looped", "semi", "combined", "kernel_test", "kernel_tiled"};

static void enumerate() {
  bool th = mc::tier_thorough(), fast = mc::mode_is("fast");
  // options
  for (const char *alg : ALG)
    for (int t = 0; t < 2; t++) {
      for (int ch = 0; ch < 2; ch++) {
        Cfg c;
        c.alg = alg;
        c.transposed = t;
        c.check = ch;
        for (size_t n : {0, 1, 2, 3, 4, 5, 7, 11, 16, 20}) {
          if (!fast && !th && n != 0 && n != 1 && n != 3 && n != 7) continue;
          c.n = n;
          normal(c);
        }
        c.n = 3;
        for (unsigned v = 0; v <= 3; v++)
          for (unsigned reps = 1; reps <= 3; reps++) {
            if (!fast && (v == 3 || reps == 3)) continue;
            c.verbose = v;
            c.reps = reps;
            c.br = 2, c.bi = 5;
            normal(c);
          }
        c.verbose = 0;
        c.reps = 2;
        for (uint64_t br : {0, 1, 4, 64, 1000})
          for (uint64_t bi : {0, 1, 3, 128}) {
            if (!fast && br != 4 && bi != 3) continue;
            c.br = br;
            c.bi = bi;
            normal(c);
          }
        // values that need 64 bits or all digits
        for (uint64_t big : {65535ull, 65536ull, 2147483648ull, 4294967295ull, 4294967296ull, 4294967303ull, 9223372036854775807ull}) {
          if (!fast && big != 4294967303ull) continue;
          c.br = big, c.bi = big - 1;
          normal(c);
          c.br = big - 1, c.bi = 3;
          normal(c);
          c.br = 5;
          if (c.alg == "pseudodynamic" || !c.transposed || (big & 1)) {
            c.mws = big - 2, c.mwd = big;
            c.rel = big == 65535 ? 0.1 : big == 65536 ? 1e-9 : big == 4294967296ull ? 1e12 : 1.0 / 3;
            normal(c);
          }
          c.mws = 256, c.mwd = 10000, c.rel = 0.05;
          if (c.alg != "single") {
            c.reps = big;
            normal(c);
            c.reps = 2;
          }
        }
        for (size_t n : {33, 64, 65, 100, 129, 200, 257}) {
          if (!fast) continue;
          Cfg d;
          d.alg = alg, d.transposed = t, d.check = ch, d.n = n;
          normal(d);
        }
        if (c.alg == "pseudodynamic")
          for (unsigned m : {1, 7, 300})
            for (unsigned d : {0, 5, 70000})
              for (double rel : {0.0, 0.5, 25.0}) {
                c.br = 17, c.bi = 19;
                c.mws = m;
                c.mwd = d;
                c.rel = rel;
                normal(c);
              }
      }
    }
  // defaults
  mc::single("defaults", [=] {
    Run r = run_app({});
    Cfg c;
    c.check = false;
    if (r.status != 0 || calls(r) != c.expected()) mc::fail("without options: ran\n%s(status %d) instead of\n%s", calls(r).c_str(), r.status, c.expected().c_str());
    verdict("without options", r, false, true);
  });
  // unknown names
  for (const char *name : {"", "Single", "single ", " single", "sing", "singles", "naive", "kernel", "kernel_test2", "kernel_tile", "KERNEL_TILED", "x", "loop", "looped2", "combine", "semi.", "pseudo", "algorithm", "0", "\"single\"", "kernel_tiled;semi"})
    for (int opt = 0; opt < 8; opt++)
      mc::single(strf("unknown algorithm '%s' options %d", name, opt), [=] {
        std::vector<std::string> a = {std::string("--algorithm=") + name, opt & 1 ? "--check=1" : "--check=0", opt & 2 ? "--transposed=1" : "--transposed=0", opt & 4 ? "--verbose=2" : "--verbose=0", "--n-value=3"};
        if (!*name) a[0] = "--algorithm", a.insert(a.begin() + 1, "");
        Run r = run_app(a);
        if (r.refused && *name == 0) return; // the option parser may reject an empty value
        if (*name == 0 && r.status == 255) return;
        if (r.status != 1) mc::fail("unknown algorithm '%s': exit status %d instead of 1", name, r.status);
        if (!r.has("not a valid algorithm")) mc::fail("unknown algorithm '%s' is not reported as not valid", name);
        if (r.out.find(std::string("\"") + name + "\"") == std::string::npos) mc::fail("the report does not name the unknown algorithm '%s'", name);
        if (calls(r) != "") mc::fail("unknown algorithm '%s': ran\n%s", name, calls(r).c_str());
        verdict(strf("unknown algorithm '%s'", name), r, false, true);
      });
  // help
  for (const char *alg : {"single", "pseudodynamic", "algorithms", "looped", "semi", "combined", "kernel_test", "kernel_tiled", "unknown"})
    for (int opt = 0; opt < 4; opt++)
      mc::single(strf("help with %s options %d", alg, opt), [=] {
        std::vector<std::string> a = {std::string("--algorithm=") + alg, opt & 1 ? "--check=1" : "--check=0", opt & 2 ? "--transposed=1" : "--transposed=0"};
        a.insert(a.begin() + opt % 3, "--help");
        Run r = run_app(a);
        if (r.refused || r.status != 0) mc::fail("%s: status %d", shown(a).c_str(), r.status);
        for (const char *o : {"--n-value", "--transposed", "--repetitions", "--verbose", "--block-result", "--block-input", "--check", "--algorithm", "--min-work-size", "--max-work-difference", "--max-relative-work-difference", "--help"})
          if (!r.has(o)) mc::fail("%s: option %s is not listed", shown(a).c_str(), o);
        if (calls(r) != "") mc::fail("%s: ran\n%s", shown(a).c_str(), calls(r).c_str());
        verdict(shown(a), r, false, true);
      });
  // processes of the run that are not the root
  for (const char *alg : {"single", "pseudodynamic", "algorithms", "looped", "semi", "combined", "kernel_test", "kernel_tiled", "unknown"})
    for (int opt = 0; opt < 8; opt++)
      for (int everywhere = 0; everywhere < 2; everywhere++) {
        std::string alg_s = alg;
        if (everywhere && alg_s == "unknown") continue;
        std::vector<std::string> a = {"--hpx:localities=3", "--algorithm=" + alg_s, opt & 1 ? "--check=1" : "--check=0", opt & 2 ? "--transposed=1" : "--transposed=0", opt & 4 ? "--verbose=1" : "--verbose=0", "--hpx:worker"};
        if (everywhere) a.push_back("--hpx:run-hpx-main");
        mc::single(shown(a), [=] {
          Run r = run_app(a);
          if (everywhere && r.refused) return; // the setting of B does not fit
          if (r.refused || r.status != 0) mc::fail("%s: status %d", shown(a).c_str(), r.status);
          if (r.has("not a valid algorithm")) mc::fail("%s: a process that is not the root reports an invalid algorithm", shown(a).c_str());
          if (r.has("performance")) mc::fail("%s: a process that is not the root prints a performance", shown(a).c_str());
          verdict(shown(a) + " in a process that is not the root", r, false, true);
        });
      }
  // faults: every position x kind
  struct K { const char *k; bool ok; };
  const K kinds[] = {{"1.5e-10", false}, {"-1.5e-10", false}, {"1e-9", false}, {"-1e-9", false}, {"1e-6", false}, {"-1e-3", false}, {"0.5", false}, {"-3", false}, {"1e300", false}, {"-1e300", false},
                     {"nan", false}, {"-nan", false}, {"inf", false}, {"-inf", false}, {"pair", false}, {"5e-11", true}, {"-5e-11", true}, {"9e-11", true}, {"-9e-11", true}};
  const K whole[] = {{"short", false}, {"long", false}, {"longer", false}, {"empty", false}, {"shift", false}};
  for (const char *alg : ALG)
    for (int t = 0; t < 2; t++) {
      Cfg c;
      c.alg = alg;
      c.transposed = t;
      c.br = 4, c.bi = 4;
      if (c.refuses()) continue;
      for (size_t n : {1, 2, 3, 4, 5, 6}) {
        if (n > 4 && !th) continue;
        if (!fast && n != 2 && !th) continue;
        c.n = n;
        for (size_t p = 0; p < n * n; p++)
          for (const K &k : kinds) {
            if (!strcmp(k.k, "pair") && n == 1) continue;
            if (n > 2 && !th && k.ok && k.k[0] != '9') continue;
            faulty(c, strf("%s %zu", k.k, p), k.ok);
          }
        for (const K &k : whole)
          if (n > 1 || strcmp(k.k, "shift")) faulty(c, k.k, k.ok);
      }
      // with other options on, and with checking off
      c.n = 3;
      for (unsigned reps : {1, 2, 3})
        for (unsigned v : {0, 1, 2})
          for (int ch = 0; ch < 2; ch++)
            for (const char *k : {"1e-9 8", "nan 4", "-1e-9 0"}) {
              c.reps = reps;
              c.verbose = v;
              c.check = ch;
              faulty(c, k, false);
            }
      c.reps = 1, c.verbose = 0, c.check = true;
      c.n = 0;
      faulty(c, "long", false);
      c.n = 20;
      if (fast)
        for (size_t p : {0, 19, 20, 199, 256, 380, 398, 399}) {
          faulty(c, strf("-2e-10 %zu", p), false);
          faulty(c, strf("nan %zu", p), false);
        }
      c.n = 40;
      for (size_t p : {0, 1023, 1024, 1279, 1599}) faulty(c, strf("2e-10 %zu", p), false);
    }
}
} // namespace drv
int main(int argc, char **argv) {
  vp::maybe_app(argc, argv);
  return mc::driver_main(argc, argv, drv::enumerate);
}
// last, so that none of its names is visible above
#define main app_main
#include "matrix_multiply_application/matrix_multiply.cpp"
