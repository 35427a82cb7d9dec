// C13: alignment::aligned_allocator. All dynamic memory of the object under test comes from an arena that can return
// every address; releases are recorded.
#include "aligned_allocator.hpp"
#include "common.hpp"
#include <cerrno>
#include <new>
#include <sys/wait.h>
#include <unistd.h>
using namespace vp;

// the C interface is wrapped by the linker (--wrap)
extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
}
namespace {
// While armed, memory requests are served at a chosen residue modulo 4096 between two canaries.
struct Block {
  char *raw, *user;
  size_t size;
  int how; // 0 new, 1 new[], 2/3 aligned new, 4 C interface
  int freed;
};
bool armed = false;
size_t want_residue = 0;
Block blocks[256];
int nblocks = 0;
bool bad_free = false;
const size_t G = 8192;

bool exhausted = false; // the next request fails
void *arena(size_t size, int how, size_t al = 1) {
  if (exhausted) throw std::bad_alloc();
  char *raw = (char *)__real_malloc(size + 4 * G);
  if (!raw) throw std::bad_alloc();
  memset(raw, 0xA7, size + 4 * G);
  char *user = (char *)(((uintptr_t)raw + G + 4095) / 4096 * 4096 + want_residue);
  if ((uintptr_t)user % al) user += al - (uintptr_t)user % al;
  memset(user, 0x5C, size);
  if (nblocks >= 256) abort();
  blocks[nblocks++] = Block{raw, user, size, how, 0};
  return user;
}
bool release(void *p, int how) {
  for (int i = nblocks; i-- > 0;)
    if (blocks[i].user == p) {
      if (blocks[i].freed || blocks[i].how != how) bad_free = true;
      blocks[i].freed++;
      return true;
    }
  return false;
}
bool canaries() {
  for (int i = 0; i < nblocks; i++) {
    Block &b = blocks[i];
    for (char *c = b.raw; c < b.user; c++)
      if ((unsigned char)*c != 0xA7) return false;
    for (char *c = b.user + b.size, *e = b.raw + b.size + 4 * G; c < e; c++)
      if ((unsigned char)*c != 0xA7) return false;
  }
  return true;
}
void arm(size_t residue) {
  nblocks = 0;
  bad_free = false;
  want_residue = residue;
  armed = true;
}
void disarm() {
  armed = false;
  for (int i = 0; i < nblocks; i++) __real_free(blocks[i].raw);
  nblocks = 0;
}
int unfreed() {
  int n = 0;
  for (int i = 0; i < nblocks; i++) n += !blocks[i].freed;
  return n;
}
} // namespace
void *operator new(size_t n) {
  if (armed) return arena(n, 0);
  void *p = __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) {
  if (armed) return arena(n, 1);
  void *p = __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n, std::align_val_t a) {
  if (armed) return arena(n, 2, (size_t)a);
  void *p = nullptr;
  if (__real_posix_memalign(&p, std::max<size_t>((size_t)a, 8), n)) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n, std::align_val_t a) {
  if (armed) return arena(n, 3, (size_t)a);
  return operator new(n, a);
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return operator new[](n); }
void operator delete(void *p) noexcept { if (p && !release(p, 0)) __real_free(p); }
void operator delete[](void *p) noexcept { if (p && !release(p, 1)) __real_free(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete[](p); }
void operator delete(void *p, std::align_val_t) noexcept { if (p && !release(p, 2)) __real_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { if (p && !release(p, 3)) __real_free(p); }
void operator delete(void *p, size_t, std::align_val_t a) noexcept { operator delete(p, a); }
void operator delete[](void *p, size_t, std::align_val_t a) noexcept { operator delete[](p, a); }
extern "C" {
void *__wrap_malloc(size_t n) {
  if (!armed) return __real_malloc(n);
  return exhausted ? nullptr : arena(n, 4);
}
void *__wrap_calloc(size_t n, size_t m) {
  if (!armed) return __real_calloc(n, m);
  size_t s;
  if (exhausted || __builtin_mul_overflow(n, m, &s)) return nullptr;
  void *p = arena(s, 4);
  memset(p, 0, s);
  return p;
}
int __wrap_posix_memalign(void **p, size_t al, size_t n) {
  if (!armed) return __real_posix_memalign(p, al, n);
  if (al % sizeof(void *) || (al & (al - 1)) || !al) return EINVAL;
  if (exhausted) return ENOMEM;
  *p = arena(n, 4, al);
  return 0;
}
void *__wrap_aligned_alloc(size_t al, size_t n) {
  if (!armed) return __real_aligned_alloc(al, n);
  return exhausted || !al || (al & (al - 1)) ? nullptr : arena(n, 4, al);
}
void *__wrap_memalign(size_t al, size_t n) { return __wrap_aligned_alloc(al, n); }
void __wrap_free(void *p) { if (p && !release(p, 4)) __real_free(p); }
void *__wrap_realloc(void *p, size_t n) {
  if (!armed) return __real_realloc(p, n);
  if (exhausted) return nullptr;
  void *q = arena(n, 4);
  if (p) {
    for (int i = 0; i < nblocks; i++)
      if (blocks[i].user == p && !blocks[i].freed) memcpy(q, p, std::min(n, blocks[i].size));
    __wrap_free(p);
  }
  return q;
}
}

struct Big { unsigned char b[40]; };
struct alignas(16) Wide { unsigned char b[16]; };
struct Odd { unsigned char b[3]; };
template <typename T> static T val(size_t i, size_t salt) {
  T t;
  unsigned char *b = (unsigned char *)&t;
  for (size_t k = 0; k < sizeof(T); k++) b[k] = (unsigned char)mix(i * 64 + k + salt);
  return t;
}
template <typename T> static void one(size_t count, size_t align, size_t residue) {
  const char *why = nullptr;
  size_t salt = count * 131 + align + residue;
  uintptr_t addr = 0;
  // nothing in here may allocate but the object under test
  arm(residue);
  {
    alignment::aligned_allocator a;
    T *p = a.template alloc<T>(count, align);
    addr = (uintptr_t)p;
    if (!p) why = "a null pointer was returned";
    else if (addr % align) why = "the pointer is not aligned";
    else {
      // is the memory within what the system allocator handed out? (memory from elsewhere is judged by the sanitizer)
      for (int i = 0; i < nblocks; i++)
        if ((char *)p >= blocks[i].raw && (char *)p < blocks[i].raw + blocks[i].size + 4 * G)
          if ((char *)p < blocks[i].user || (char *)(p + count) > blocks[i].user + blocks[i].size) why = "the elements do not fit into the allocation";
      if (!why) {
        for (size_t i = 0; i < count; i++) {
          T v = val<T>(i, salt);
          std::memcpy((void *)(p + i), (void *)&v, sizeof(T));
        }
        if (!canaries()) why = "memory outside the allocation was written";
        for (size_t i = 0; i < count && !why; i++) {
          T v = val<T>(i, salt);
          if (std::memcmp((void *)(p + i), (void *)&v, sizeof(T))) why = "an element does not read back";
        }
        for (int i = 0; i < nblocks && !why; i++)
          if (blocks[i].freed && (char *)p >= blocks[i].user && (char *)p <= blocks[i].user + blocks[i].size) why = "the memory was released while the allocator lives";
      }
    }
  }
  if (!why && bad_free) why = "memory was released twice or with the wrong kind of delete";
  if (!why && unfreed()) why = "memory was not released when the allocator ended";
  if (!why && !canaries()) why = "memory outside the allocation was written";
  disarm();
  if (why) mc::fail("alloc<%zu bytes>(%zu, %zu), system address %% 4096 = %zu: %s (pointer %% 4096 = %zu)", sizeof(T), count, align, residue, why, (size_t)(addr % 4096));
  mc::count(1, count + 2);
}
template <typename T> static void grid(const char *tn, const std::vector<size_t> &counts, const std::vector<size_t> &aligns, bool all_residues) {
  for (size_t align : aligns)
    for (size_t c : counts)
      mc::single(strf("%s count=%zu alignment=%zu", tn, c, align), [=] {
        size_t span = std::min<size_t>(2 * align, 4096);
        if (all_residues)
          for (size_t r = 0; r < span; r++) one<T>(c, align, r);
        else
          for (size_t r : {(size_t)0, (size_t)1, (size_t)8, (size_t)16, align - 1, align / 2, align, align + 1, span - 1, span - 8, span - 16}) one<T>(c, align, r % 4096);
      });
}
// object lifetimes: creation, use and end of several allocators, including unused ones, in every order
static void lifetimes() {
  const int K = 3;
  const char ops[] = "CUD"; // each object goes through create, (use), destroy
  (void)ops;
  // schedule: sequence over objects; every interleaving of the three objects' life cycles (bit: object is used)
  std::vector<int> seq;
  std::vector<std::vector<int>> all;
  std::function<void(std::vector<int>)> gen = [&](std::vector<int> left) {
    bool any = false;
    for (int o = 0; o < K; o++)
      if (left[o]) {
        any = true;
        left[o]--;
        seq.push_back(o);
        gen(left);
        seq.pop_back();
        left[o]++;
      }
    if (!any) all.push_back(seq);
  };
  gen(std::vector<int>(K, 3));
  for (int used = 0; used < 8; used++)
    for (size_t x = 0; x < all.size(); x++)
      mc::single(strf("life cycles used=%d order=%zu", used, x), [=] {
        alignas(alignment::aligned_allocator) static char mem[K][sizeof(alignment::aligned_allocator)];
        memset(mem, 0xEE, sizeof mem);
        alignment::aligned_allocator *a[K] = {};
        double *p[K] = {};
        int stage[K] = {};
        const char *why = nullptr;
        arm(8 * (x % 16));
        for (int o : all[x]) {
          if (stage[o] == 0) {
            int before = nblocks;
            a[o] = new (mem[o]) alignment::aligned_allocator;
            if (nblocks != before) {} // an eager allocation is fine as long as it is released
          } else if (stage[o] == 1) {
            if (used >> o & 1) {
              p[o] = a[o]->alloc<double>(5 + o, 64);
              for (int i = 0; i < 5 + o; i++) p[o][i] = 10 * o + i;
            }
          } else {
            if (p[o])
              for (int i = 0; i < 5 + o; i++)
                if (p[o][i] != 10 * o + i) why = "contents of a live allocation changed";
            a[o]->~aligned_allocator();
            p[o] = nullptr;
          }
          stage[o]++;
          for (int q = 0; q < K; q++) // every live allocation is still valid
            if (p[q])
              for (int i = 0; i < nblocks; i++)
                if (blocks[i].freed && (char *)p[q] >= blocks[i].user && (char *)p[q] < blocks[i].user + blocks[i].size) why = "a live allocation was released";
        }
        if (!why && bad_free) why = "memory was released twice or with the wrong kind of delete";
        if (!why && unfreed()) why = "memory was not released";
        if (!why && !canaries()) why = "memory outside the allocation was written";
        disarm();
        if (why) mc::fail("life cycles %s used=%d: %s", mc::vec_str(std::vector<size_t>(all[x].begin(), all[x].end())).c_str(), used, why);
        mc::count(9, 9);
      });
  mc::single("unused allocator releases nothing", [=] {
    arm(0);
    { alignment::aligned_allocator a; alignment::aligned_allocator b; (void)a; (void)b; }
    bool bad = bad_free || unfreed();
    disarm();
    if (bad) mc::fail("an unused allocator released or kept memory");
  });
}
// a request the system cannot satisfy is reported, releases nothing and leaves the object destructible
static void out_of_memory() {
  for (size_t count : {0, 1, 100})
    for (size_t align : {1, 64, 4096})
      mc::single(strf("out of memory count=%zu alignment=%zu", count, align), [=] {
        const char *why = nullptr;
        arm(0);
        {
          alignment::aligned_allocator a;
          exhausted = true;
          try {
            a.alloc<double>(count, align);
            why = "no error was reported";
          } catch (const std::exception &) {
          }
          exhausted = false;
        }
        if (!why && (bad_free || unfreed())) why = "memory was released that was never obtained, or kept";
        disarm();
        if (why) mc::fail("system allocator fails, %zu elements, alignment %zu: %s", count, align, why);
        mc::count(1, 1);
      });
}
// a second request to the same object: refused, or served without harming the first
static void second_request() {
  for (size_t c1 : {0, 1, 7})
    for (size_t c2 : {0, 1, 9})
      mc::single(strf("second request %zu then %zu", c1, c2), [=] {
        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0) return;
        if (pid == 0) {
          std::set_terminate([] { _exit(40); });
          int rc = 0;
          arm(8);
          {
            alignment::aligned_allocator a;
            double *p = a.alloc<double>(c1, 64), *q = nullptr;
            for (size_t i = 0; i < c1; i++) p[i] = 1.0 + i;
            try {
              q = a.alloc<double>(c2, 64);
            } catch (...) {
            }
            if (q) {
              if ((uintptr_t)q % 64) rc = 1;
              for (int b = 0; b < nblocks; b++)
                if (blocks[b].freed) rc = 1; // both results are valid while the object lives
              for (size_t i = 0; i < c2; i++) q[i] = 100.0 + i;
            }
            for (size_t i = 0; i < c1; i++)
              if (p[i] != 1.0 + i) rc = 1;
            if (!canaries()) rc = 1;
          }
          if (bad_free || unfreed()) rc = 1;
          _exit(rc);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1) mc::fail("a second request (%zu after %zu elements) harms or leaks the first", c2, c1);
        mc::count(1, 2);
      });
}
// the memory is the caller's as long as the object lives, whoever else allocates (real system allocator)
static void real_heap() {
  for (size_t align = 1; align <= 4096; align *= 2)
    mc::single(strf("system allocator alignment=%zu", align), [=] {
      for (size_t count : {0, 1, 2, 3, 7, 16, 31, 64, 100, 1000, 4096}) {
        alignment::aligned_allocator a, b, c;
        double *p = a.alloc<double>(count, align), *q = b.alloc<double>(count, align);
        int *r = c.alloc<int>(count, align);
        if ((uintptr_t)p % align || (uintptr_t)q % align || (uintptr_t)r % align) mc::fail("alignment %zu, %zu elements: pointer is not aligned", align, count);
        for (size_t i = 0; i < count; i++) p[i] = (double)i, q[i] = -(double)i, r[i] = (int)i * 3;
        std::vector<double> other(count, 1.5);
        for (size_t i = 0; i < count; i++)
          if (p[i] != (double)i || q[i] != -(double)i || r[i] != (int)i * 3) mc::fail("alignment %zu, %zu elements: allocations overlap", align, count);
        mc::count(1, 3 * count + 1);
      }
    });
}
static void concurrent() {
  for (int t : {2, 3})
    for (size_t align : {1, 8, 64, 256})
      together(strf("alignment %zu", align), t, [=](int i) {
        for (int again = 0; again < 2; again++) {
          alignment::aligned_allocator a, b;
          size_t n = 3 + 5 * (size_t)i;
          double *p = a.alloc<double>(n, align);
          mc::point();
          int *q = b.alloc<int>(n, align);
          if ((uintptr_t)p % align || (uintptr_t)q % align) mc::fail("pointer is not aligned");
          for (size_t k = 0; k < n; k++) p[k] = (double)(k + 100 * (size_t)i), q[k] = (int)k - 100 * i;
          mc::point();
          for (size_t k = 0; k < n; k++)
            if (p[k] != (double)(k + 100 * (size_t)i) || q[k] != (int)k - 100 * i) mc::fail("allocations of several threads overlap");
        }
      });
}
static void enumerate() {
  concurrent();
  if (mc::mode_is("tsan")) return;
  bool th = mc::tier_thorough();
  std::vector<size_t> counts, aligns, small;
  for (size_t c = 0; c <= (th ? 70u : 34u); c++) counts.push_back(c);
  for (size_t a = 1; a <= 256; a *= 2) aligns.push_back(a);
  if (!mc::mode_is("fast")) counts = {0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33};
  small = {0, 1, 2, 5, 16, 33};
  grid<double>("double", counts, aligns, true);
  grid<float>("float", counts, aligns, true);
  grid<char>("char", counts, aligns, true);
  grid<int>("int", small, aligns, true);
  grid<Big>("struct of 40 bytes", small, aligns, true);
  grid<Odd>("struct of 3 bytes", small, aligns, true);
  grid<Wide>("struct of 16 bytes", small, aligns, true);
  grid<double>("double", {1, 2, 64, 100, 255, 256, 257, 511, 512, 1000}, {1, 8, 16, 32, 64, 128, 512, 1024, 2048, 4096}, false);
  grid<float>("float", {1, 100, 256, 1000}, {512, 1024, 2048, 4096}, false);
  grid<double>("double", {16384, 65536, 100000}, {32, 64}, false);
  lifetimes();
  out_of_memory();
  second_request();
  real_heap();
}
int main(int argc, char **argv) { return mc::driver_main(argc, argv, enumerate); }
