// Counts the heap memory of the process, and refuses requests on demand (fast mode only; the sanitizers have their own).
#pragma once
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <malloc.h>
#include <new>
#include <string>
#include "mc.hpp"
#if !defined(MC_ASAN) && !defined(MC_TSAN)
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}
namespace heap {
inline long long bytes = 0, blocks = 0;   // held at the moment
inline long long refuse = -1, seen = 0;   // the request with this number fails; requests since watch()
inline bool counting = false;
inline void *got(void *p) {
  if (p) bytes += malloc_usable_size(p), blocks++;
  return p;
}
inline bool refused() {
  if (!counting) return false;
  if (seen++ != refuse) return false;
  errno = ENOMEM;
  return true;
}
inline void *aligned(size_t a, size_t n) { return refused() ? nullptr : got(__libc_memalign(a, n)); }
} // namespace heap
extern "C" {
void *malloc(size_t n) { return heap::refused() ? nullptr : heap::got(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return heap::refused() ? nullptr : heap::got(__libc_calloc(a, b)); }
void free(void *p) {
  if (!p) return;
  heap::bytes -= malloc_usable_size(p), heap::blocks--;
  __libc_free(p);
}
void *realloc(void *p, size_t n) {
  if (heap::refused()) return nullptr;
  if (p) heap::bytes -= malloc_usable_size(p), heap::blocks--;
  void *q = __libc_realloc(p, n);
  if (!q && p && n) heap::got(p);
  return heap::got(q);
}
void *memalign(size_t a, size_t n) { return heap::aligned(a, n); }
void *aligned_alloc(size_t a, size_t n) { return heap::aligned(a, n); }
int posix_memalign(void **r, size_t a, size_t n) {
  if (a % sizeof(void *) || (a & (a - 1)) || !a) return EINVAL;
  void *p = heap::aligned(a, n);
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
void *valloc(size_t n) { return heap::aligned(4096, n); }
}
#endif
namespace heap {
// A sequence of equal calls: memory that is kept for later calls (static or thread-local buffers) stops growing,
// lost memory does not. Growth is judged from the second call on.
template <typename F> inline void growth(const std::string &what, const F &f, int calls = 6) {
  f();
  int grown = 0, more_blocks = 0;
  long long first = bytes, first_blocks = blocks;
  for (int i = 0; i < calls; i++) {
    long long b = bytes, n = blocks;
    f();
    grown += bytes > b;
    more_blocks += blocks > n;
  }
  if (grown == calls || more_blocks == calls)
    mc::fail("%s: every one of %d equal calls keeps memory, together %lld bytes in %lld blocks", what.c_str(), calls, bytes - first, blocks - first_blocks);
}
// Refuses the memory requests of f one after the other: f has to end by an exception or as if nothing had
// happened, must not keep memory, and must work afterwards. f() returns whether its result is right.
template <typename F> inline void refusals(const std::string &what, const F &f, const std::function<bool()> &check) {
  growth(what, [&] { f(); });
  for (long long k = 0; k < 10000; k++) {
    bool done = false;
    int kept = 0;
    long long first = bytes;
    const int calls = 4;
    for (int i = 0; i <= calls; i++) {
      long long b = bytes;
      bool thrown = false;
      seen = 0, refuse = k, counting = true;
      try {
        f();
      } catch (...) {
        thrown = true;
      }
      counting = false, refuse = -1;
      done = seen <= k;
      if (done && thrown) mc::fail("%s: an exception without a refused request", what.c_str());
      if (i) kept += bytes > b;
      else first = bytes;
    }
    if (kept == calls) mc::fail("%s: keeps memory each time when memory request %lld is refused, together %lld bytes", what.c_str(), k + 1, bytes - first);
    if (!check()) mc::fail("%s: wrong result after memory request %lld was refused", what.c_str(), k + 1);
    mc::count(1, calls + 1);
    if (done) return;
  }
  mc::fail("%s: more than 10000 memory requests", what.c_str());
}
} // namespace heap
