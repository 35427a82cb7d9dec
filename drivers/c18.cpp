// C18: the benchmark program of the stand-alone experiments with recording implementations
#include "app15.hpp"
#include <new>
#include <sys/mman.h>
int bench_main(int argc, char **argv);
std::string vp::g_fault;
int vp::app_main_wrapper(int argc, char **argv) { return bench_main(argc, argv); }

namespace drv {
using namespace vp;
static void log(const std::string &s) {
  std::string l = s + "\n";
  ssize_t w = write(9, l.data(), l.size());
  (void)w;
}
// large requests are served at chosen addresses modulo 64, between inaccessible pages
struct Block { char *map; size_t room; char *user; size_t size; bool freed; };
static Block blocks[64];
static int nblocks = 0;
static bool is_app = false;
static std::vector<int> *residues = nullptr;
static void *big(size_t n) {
  if (nblocks >= 64) abort();
  int res = residues && !residues->empty() ? (*residues)[nblocks % residues->size()] : 0;
  size_t room = (n + 64 + 4095) / 4096 * 4096 + 2 * 4096;
  char *m = (char *)mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) throw std::bad_alloc();
  char *hi = m + room - 4096;
  char *user = (char *)((uintptr_t)(hi - n) / 64 * 64);
  if (user + res + n > hi) user -= 64;
  user += res;
  memset(m + 4096, 0x6D, room - 8192);
  mprotect(m, 4096, PROT_NONE);
  mprotect(hi, 4096, PROT_NONE);
  blocks[nblocks++] = Block{m, room, user, n, false};
  return user;
}
static void canaries() {
  for (int i = 0; i < nblocks; i++) {
    Block &b = blocks[i];
    for (char *c = b.map + 4096; c < b.user; c++)
      if (*c != 0x6D) log("memory before an allocation was written");
    for (char *c = b.user + b.size; c < b.map + b.room - 4096; c++)
      if (*c != 0x6D) log("memory behind an allocation was written");
  }
}
// what the implementation leaves in the result
static double fill(double *C, size_t n, const std::string &kind) {
  double sum = 0;
  if (kind == "product") {
    for (size_t i = 0; i < n * n; i++) C[i] = 2.0;
    return 2.0 * n;
  }
  if (kind == "nothing") return 0;
  if (kind == "mixed") {
    for (size_t i = 0; i < n * n; i++) {
      C[i] = (double)((long)(mix(i) % 2001) - 1000);
      sum += C[i] * C[i];
    }
    return std::sqrt(sum);
  }
  if (kind == "rows") {
    for (size_t i = 0; i < n; i++) C[i * n + (i * 7) % n] = (double)i - 1000.0, sum += ((double)i - 1000.0) * ((double)i - 1000.0);
    return std::sqrt(sum);
  }
  size_t pos = strtoul(kind.c_str(), nullptr, 10);
  C[pos < n * n ? pos : n * n - 1] = -3.0;
  return 3.0;
}
static bool inside(const double *p, size_t n, int &which) {
  which = -1;
  for (int i = 0; i < nblocks; i++)
    if ((char *)p >= blocks[i].map && (char *)p < blocks[i].map + blocks[i].room) {
      which = i;
      return !blocks[i].freed && (char *)p >= blocks[i].user && (char *)(p + n * n) <= blocks[i].user + blocks[i].size;
    }
  return true; // from elsewhere
}
static void called(const char *name, double *A, double *B, double *C, const uint32_t n32, bool) {
  size_t n = n32;
  log(strf("call %s %zu", name, n));
  const char *nm[] = {"A", "B", "C"};
  double *m[] = {A, B, C};
  int w;
  for (int i = 0; i < 3; i++) {
    if ((uintptr_t)m[i] % 64) log(strf("%s is not 64-byte aligned", nm[i]));
    if (!inside(m[i], n, w)) log(strf("%s does not lie within an allocation", nm[i]));
    for (int j = 0; j < i; j++)
      if (m[i] < m[j] + n * n && m[j] < m[i] + n * n) log(strf("%s and %s overlap", nm[i], nm[j]));
  }
  for (size_t i = 0; i < n * n; i++)
    if (A[i] != 2.0) { log(strf("A(%zu,%zu) is %g", i / n, i % n, A[i])); break; }
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++)
      if (B[i * n + j] != (i == j ? 1.0 : 0.0)) { log(strf("B(%zu,%zu) is %g", i, j, B[i * n + j])); i = n; break; }
  for (size_t i = 0; i < n * n; i++)
    if (C[i] != 0.0) { log(strf("C(%zu,%zu) is %g", i / n, i % n, C[i])); break; }
  canaries();
  double norm = fill(C, n, g_fault.substr(g_fault.find(' ') + 1));
  log(strf("norm %.17g", norm));
}
} // namespace drv
void *operator new(size_t n) {
  if (drv::is_app && n > 1000000) return drv::big(n);
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept {
  for (int i = 0; i < drv::nblocks; i++)
    if (drv::blocks[i].user == p) {
      drv::blocks[i].freed = true;
      return;
    } else if ((char *)p >= drv::blocks[i].map && (char *)p < drv::blocks[i].map + drv::blocks[i].room) {
      drv::log("a pointer inside an allocation was released");
      return;
    }
  free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

#define IMPL(f, name, bt) void f(double *A, double *B, double *C, const uint32_t n) { drv::called(name, A, B, C, n, bt); }
IMPL(multNaive, "naive", false)
IMPL(multTransposed, "transposed", true)
IMPL(multCounter, "counter", true)
IMPL(multExchanged, "exchanged", false)
IMPL(multRegister, "register", false)
IMPL(multIntrinLoop, "intrinLoop", false)
IMPL(multBlocked2, "blocked2", true)
IMPL(multBlocked4, "blocked4", true)
IMPL(multGPU, "gpu", true)
IMPL(multGPUASM, "gpuasm", true)
IMPL(multASM, "asm", true)

namespace drv {
static std::string shown_args(const std::vector<std::string> &a) {
  std::string s = "benchmark";
  for (auto &x : a) s += " '" + x + "'";
  return s;
}
static int count(const std::string &s, const std::string &x) {
  int n = 0;
  for (size_t p = 0; (p = s.find(x, p)) != std::string::npos; p += x.size()) n++;
  return n;
}
static void named(const std::string &name, const std::string &res, const std::string &kind, std::vector<std::string> more = {}) {
  std::vector<std::string> a = {name};
  a.insert(a.end(), more.begin(), more.end());
  mc::single(shown_args(a) + " addresses " + res + " result " + kind, [=] {
    std::string what = shown_args(a) + ", allocator addresses modulo 64 = " + res;
    Run r = run_app(a, res + " " + kind);
    if (r.refused || r.status != 0) mc::fail("%s: status %d %s", what.c_str(), r.status, r.err.substr(0, 500).c_str());
    std::string log = r.log.substr(0, r.log.find("hpx::cout:"));
    double flops = 0;
    size_t p = r.out.find("total flops");
    if (p != std::string::npos) p = r.out.find("->", p);
    if (p == std::string::npos || sscanf(r.out.c_str() + p, "-> %lf", &flops) != 1) mc::fail("%s: does not announce the number of operations", what.c_str());
    size_t n = (size_t)std::llround(std::cbrt(flops / 2));
    double norm = 0;
    p = log.find("norm ");
    if (p == std::string::npos) mc::fail("%s: no implementation was called (%s)", what.c_str(), log.c_str());
    sscanf(log.c_str() + p, "norm %lf", &norm);
    std::string want = strf("call %s %zu\nnorm %.17g\n", name.c_str(), n, norm);
    if (log != want) mc::fail("%s: observed\n%sinstead of\n%s", what.c_str(), log.c_str(), want.c_str());
    double got = -1;
    p = r.out.find("check: ");
    if (p == std::string::npos || count(r.out, "check:") != 1 || sscanf(r.out.c_str() + p, "check: %lf", &got) != 1) mc::fail("%s: prints no check value", what.c_str());
    if (!(std::fabs(got - norm) <= 1e-9 * (1 + norm))) mc::fail("%s, result %s: check value is %.17g instead of %.17g", what.c_str(), kind.c_str(), got, norm);
  });
}
static void nothing(const std::vector<std::string> &a, const char *says) {
  mc::single(shown_args(a), [=] {
    std::string what = shown_args(a);
    Run r = run_app(a, "0 product");
    if (r.refused) mc::fail("%s: ended by an exception", what.c_str());
    std::string log = r.log.substr(0, r.log.find("hpx::cout:"));
    if (log != "") mc::fail("%s: observed\n%s", what.c_str(), log.c_str());
    if (!r.has(says)) mc::fail("%s: does not say \"%s\"", what.c_str(), says);
    if (r.has("check:")) mc::fail("%s: prints a check value", what.c_str());
  });
}
static void enumerate() {
  bool th = mc::tier_thorough(), fast = mc::mode_is("fast");
  const char *names[] = {"naive", "transposed", "counter", "exchanged", "register", "intrinLoop", "blocked2", "blocked4", "gpu", "gpuasm", "asm"};
  for (const char *n : names) {
    named(n, "0,16,32,48,16", "product");
    if (fast) named(n, "48,0,16,48,32", "mixed");
    if (th) named(n, "16", "rows");
  }
  // every residue for every allocation
  if (fast) {
    for (const char *r : {"0", "16", "32", "48", "16,0,0,0,0", "0,48,0,0,0", "0,0,32,0,0", "0,0,0,48,0", "0,0,0,0,16", "0,0,0,0,48", "48,16,48,32,48"}) named("naive", r, "product");
    for (const char *r : {"0", "16", "32", "48", "0,0,0,16,0", "0,0,0,48,32"}) named("transposed", r, "product");
    for (const char *k : {"nothing", "rows", "0", "1", "4095", "4096", "8388608", "16773120", "16777215"}) named("blocked4", "16,32,48,0,16", k);
    if (th)
      for (int x = 0; x < 1024; x += 3) named(names[x % 11], strf("%d,%d,%d,%d,%d", x % 4 * 16, x / 4 % 4 * 16, x / 16 % 4 * 16, x / 64 % 4 * 16, x / 256 % 4 * 16), x % 2 ? "product" : "mixed");
  }
  named("gpu", "32,16", "product", {"gpuasm"});
  named("naive", "0", "rows", {"unknown", "x"});
  nothing({}, "no implementation specified");
  for (const char *u : {"", "Naive", "naive ", " naive", "naiv", "naivee", "blocked", "blocked3", "gpuas", "gpuasmx", "asmx", "as", "omp", "regBlock", "intrinloop", "trans", "--help", "registers"}) {
    if (!fast && u[0] != 'g' && u[0] != 'N') continue;
    nothing({u}, "unknown implementation specified");
  }
  nothing({"unknown", "naive"}, "unknown implementation specified");
}
} // namespace drv
int main(int argc, char **argv) {
  if (argc > 2 && !strcmp(argv[1], "--app")) {
    static std::vector<int> r;
    std::string s = argv[2];
    s = s.substr(0, s.find(' '));
    for (size_t p = 0; p < s.size();) {
      r.push_back(atoi(s.c_str() + p));
      p = s.find(',', p);
      if (p == std::string::npos) break;
      p++;
    }
    drv::residues = &r;
    drv::is_app = true;
  }
  vp::maybe_app(argc, argv);
  return mc::driver_main(argc, argv, drv::enumerate);
}
