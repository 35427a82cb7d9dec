// C14: stand-alone experiment variants
#include "otherExperiments/mult.hpp"
#include "common.hpp"
#include <sys/mman.h>
using namespace vp;

// the same sources compiled for processors without fused multiply-add
void multRegister_nofma(double *A, double *B, double *C, const uint32_t n);
void multGPUASM_nofma(double *A, double *B, double *C, const uint32_t n);
void multIntrinLoop_nofma(double *A, double *B, double *C, const uint32_t n);

struct Variant {
  const char *name;
  void (*f)(double *, double *, double *, const uint32_t);
  bool bt;
  size_t step;
};
static const Variant V[] = {
    {"naive", multNaive, false, 1},       {"transposed", multTransposed, true, 1}, {"counter", multCounter, true, 1},
    {"blocked2", multBlocked2, true, 2},  {"blocked4", multBlocked4, true, 4},     {"asm", multASM, true, 4},
    {"gpu", multGPU, true, 128},          {"exchanged", multExchanged, false, 128}, {"intrinLoop", multIntrinLoop, false, 128},
    {"register", multRegister, false, 256}, {"gpuasm", multGPUASM, true, 256},
    {"intrinLoop without FMA", multIntrinLoop_nofma, false, 128}, {"register without FMA", multRegister_nofma, false, 256}, {"gpuasm without FMA", multGPUASM_nofma, true, 256},
};
static const int NV = sizeof V / sizeof V[0];

// How the matrices are placed: on the heap of the sanitizer, directly behind an inaccessible page, or directly before one.
enum { HEAP, PAGE_BEFORE, PAGE_BEHIND };
static const char *place_name[] = {"heap", "page before", "page behind"};
struct Buffer {
  double *p = nullptr;
  size_t n, bytes, room = 0;
  char *map = nullptr, *lo = nullptr, *hi = nullptr; // [lo,hi): accessible
  int how;
  Buffer(size_t n_, int how_) : n(n_), bytes(n_ * sizeof(double)), how(how_) {
    if (how == HEAP) {
      void *q = nullptr;
      if (posix_memalign(&q, 64, bytes ? bytes : 1)) abort();
      p = (double *)q;
    } else {
      size_t pages = (bytes + 64 + 4095) / 4096;
      room = (pages + 2) * 4096;
      map = (char *)mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (map == (char *)MAP_FAILED) abort();
      mprotect(map, 4096, PROT_NONE);
      mprotect(map + room - 4096, 4096, PROT_NONE);
      lo = map + 4096;
      hi = map + room - 4096;
      memset(lo, 0x6D, hi - lo);
      p = (double *)(how == PAGE_BEFORE ? lo : hi - (bytes + 63) / 64 * 64);
    }
    for (size_t i = 0; i < n; i++) p[i] = 0.0;
  }
  void check(const char *what) const {
    if (how == HEAP) return;
    for (char *c = lo; c < (char *)p; c++)
      if (*c != 0x6D) mc::fail("memory before %s was written", what);
    for (char *c = (char *)p + bytes; c < hi; c++)
      if (*c != 0x6D) mc::fail("memory behind %s was written", what);
  }
  ~Buffer() {
    if (how == HEAP) free(p);
    else munmap(map, room);
  }
};
static void call(int v, size_t n, int pat, int how, size_t salt = 0) {
  Operands<double> o(n, V[v].bt, pat, salt);
  Buffer A(n * n, how), B(n * n, how), C(n * n, how);
  if (n) memcpy(A.p, o.A.data(), A.bytes), memcpy(B.p, o.B.data(), B.bytes);
  scribble();
  V[v].f(A.p, o.alias ? A.p : B.p, C.p, (uint32_t)n);
  for (size_t i = 0; i < n * n; i++)
    if (!same(C.p[i], o.C[i])) mc::fail("%s n=%zu: entry (%zu,%zu) is %.17g instead of %.17g", V[v].name, n, i / n, i % n, C.p[i], o.C[i]);
  if (n && memcmp(A.p, o.A0.data(), A.bytes)) mc::fail("%s n=%zu: A was modified", V[v].name, n);
  if (n && memcmp(B.p, o.B0.data(), B.bytes)) mc::fail("%s n=%zu: B was modified", V[v].name, n);
  A.check("A");
  B.check("B");
  C.check("the result");
  mc::count(0, n * n + 1);
}
static mc::Opts opt(uint64_t cap, int policies) {
  mc::Opts o;
  o.cap = cap;
  o.policies = policies;
  return o;
}
static void run(int v, size_t n, int pat, int threads, int how, mc::Opts o) {
  mc::env().omp_threads = threads;
  mc::explore(strf("%s n=%zu %s threads=%d %s", V[v].name, n, pattern_name(pat), threads, place_name[how]), o, [=] { call(v, n, pat, how); });
}
static void enumerate() {
  bool th = mc::tier_thorough(), fast = mc::mode_is("fast"), tsan = mc::mode_is("tsan");
  const int fin[] = {P_GEN, P_WIDE_A, P_WIDE_B, P_SPARSE, P_ONES, P_ZINF, P_GEN2, P_TINY_A, P_TINY_B, P_TINY, P_DENORM, P_EQUAL, P_ID_A, P_NEAR_ID};
  if (tsan) {
    for (int v = 0; v < NV; v++)
      for (int t : {2, 3, 4}) {
        if (V[v].step <= 4) {
          for (size_t n = V[v].step; n <= 20; n += V[v].step) run(v, n, P_GEN, t, HEAP, opt(8, 2));
          run(v, 36, P_GEN, t, HEAP, opt(1, 1));
        } else {
          for (size_t m = 2; m <= (V[v].step == 128 ? 4u : 2u); m++)
            if (t == 2 || m == 2 || th) run(v, m * V[v].step, P_GEN, t, HEAP, opt(1, t == 2 ? 2 : 1));
        }
      }
    return;
  }
  int guard0 = fast ? PAGE_BEFORE : HEAP, guard1 = fast ? PAGE_BEHIND : HEAP;
  for (int v = 0; v < NV; v++) {
    size_t s = V[v].step;
    if (s <= 4) {
      size_t hi = th ? 160 : fast ? 80 : 40;
      for (size_t n = 0; n <= hi; n += s) {
        run(v, n, P_GEN, 1, guard0, opt(1, 1));
        if (fast) run(v, n, P_GEN, 1, guard1, opt(1, 1));
        for (int t : {2, 3, 4, 5}) run(v, n, P_GEN2, t, guard1, opt(n <= 8 * s ? (th ? 3000 : 300) : 2, n <= 8 * s ? 1 : 2));
        for (int pat : fin) run(v, n, pat, 3, guard0, opt(1, 1));
        if (n <= 20) run(v, n, P_GEN, 8, guard1, opt(1, 3)), run(v, n, P_GEN, 16, guard0, opt(1, 2));
      }
      if (fast)
        for (size_t n : {96, 100, 124, 128, 132, 136, 148, 192, 196, 200, 220, 252, 256, 260, 264, 300, 320, 384, 388, 512, 516, 520}) {
          run(v, n, P_GEN, 4, guard1, opt(1, 1));
          if (s == 1)
            for (size_t d : {1, 2, 3}) run(v, n + d, P_GEN, 4, d == 1 ? guard0 : guard1, opt(1, 1));
          if (s == 2) run(v, n + 2, P_GEN, 4, guard0, opt(1, 1));
        }
    } else {
      size_t most = s == 128 ? (fast ? (th ? 8 : 6) : 3) : (fast ? (th ? 4 : 3) : 2);
      for (size_t m = 0; m <= most; m++) {
        size_t n = m * s;
        bool big = n > 400;
        run(v, n, P_GEN, 1, guard0, opt(1, 1));
        run(v, n, P_GEN2, 2, guard1, opt(big && !fast ? 1 : big ? 3 : 40, fast ? 2 : 1));
        if (!big || fast)
          for (int pat : fin)
            if (m == 1 || pat <= P_GEN2) run(v, n, pat, 3, guard1, opt(1, 1));
        if (fast)
          for (int t : {3, 4, 5, 8}) run(v, n, P_GEN, t, guard0, opt(big ? 2 : 30, 2));
      }
      if (th && fast) run(v, 1024, P_GEN, 4, guard0, opt(2, 2));
    }
  }
  // large teams
  if (fast)
    for (int v = 0; v < NV; v++)
      for (int t : {7, 9, 17, 33, 64, 65, 130})
        for (size_t m : {1, 2, 5})
          if (V[v].step <= 4 || m == 2) run(v, V[v].step <= 4 ? m * 4 : m * V[v].step, P_GEN, t, guard0, opt(2, 2));
  // a thread limit below the number of threads asked for, and calls from inside a parallel region
  for (int v = 0; v < NV; v++) {
    size_t s = V[v].step;
    for (size_t n = s; n <= (s <= 4 ? 12 : s); n += s) {
      for (int t : {2, 4, 5})
        for (int limit = 1; limit < t; limit += 2) {
          mc::env().omp_limit = limit;
          mc::env().omp_threads = t;
          mc::explore(strf("limit %d %s n=%zu threads=%d", limit, V[v].name, n, t), opt(s <= 4 ? 10 : 1, 1), [=] { call(v, n, P_GEN, guard1); });
          mc::env().omp_limit = 0;
        }
      for (int t : {2, 3}) {
        mc::env().omp_threads = t;
        mc::explore(strf("inside a parallel region %s n=%zu threads=%d", V[v].name, n, t), opt(s <= 4 ? 10 : 1, 1), [=] {
#pragma omp parallel
#pragma omp single
          call(v, n, P_GEN, guard0);
        });
        mc::explore(strf("in every thread of a parallel region %s n=%zu threads=%d", V[v].name, n, t), opt(s <= 4 ? 10 : 1, 1), [=] {
#pragma omp parallel
          call(v, n, P_GEN, HEAP);
        });
      }
    }
  }
  // the same buffers with other contents
  for (int v = 0; v < NV; v++) {
    if (!fast && V[v].step > 128) continue;
    mc::env().omp_threads = 2;
    mc::explore(strf("other contents %s", V[v].name), opt(1, 1), [=] {
      size_t n = V[v].step <= 4 ? 12 : V[v].step;
      Buffer A(n * n, HEAP), B(n * n, HEAP), C(n * n, HEAP);
      for (size_t round = 0; round < 4; round++) {
        Operands<double> o(n, V[v].bt, P_GEN, round);
        if (round != 2) memcpy(A.p, o.A.data(), A.bytes);
        if (round != 3) memcpy(B.p, o.B.data(), B.bytes);
        for (size_t i = 0; i < n * n; i++) C.p[i] = 0;
        std::vector<double> want = product(A.p, B.p, n, V[v].bt);
        V[v].f(A.p, B.p, C.p, (uint32_t)n);
        for (size_t i = 0; i < n * n; i++)
          if (C.p[i] != want[i]) mc::fail("%s n=%zu: entry (%zu,%zu) is wrong after the contents have changed", V[v].name, n, i / n, i % n);
      }
    });
  }
  // histories of calls, also of different variants
  for (int a = 0; a < NV; a++)
    for (int b = 0; b < NV; b++) {
      if (!fast && !th && (V[a].step > 128 || V[b].step > 128)) continue;
      mc::env().omp_threads = 2;
      mc::explore(strf("history %s, %s, %s", V[a].name, V[b].name, V[a].name), opt(1, 1), [=] {
        auto sz = [](int v, int k) { return V[v].step <= 4 ? (size_t)(8 + 4 * k) : V[v].step; };
        call(a, sz(a, 0), P_GEN, HEAP, 1);
        call(b, sz(b, 1), P_GEN2, HEAP, 2);
        call(a, sz(a, 1), P_GEN, HEAP, 3);
      });
    }
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
