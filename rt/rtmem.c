// Memory functions of the runtime itself: a private heap and plain copies, so that neither the
// sanitizers nor a replaced operator new see what the scheduler does. rt.o's references to operator new,
// memcpy etc. are redirected here (objcopy --redefine-sym).
#include <stddef.h>
#include <stdint.h>
#include <sys/mman.h>
extern void _ZdlPv(void *);
extern void *_Znwm(size_t);
static char *base, *top, *end;
static void *bins[64];
static const size_t ARENA = (size_t)64 << 30;
static int bin_of(size_t n) {
  int b = 4;
  while (((size_t)1 << b) < n) b++;
  return b;
}
void *mc_rt_new(size_t n) {
  if (!base) {
    base = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) __builtin_trap();
    top = base;
    end = base + ARENA;
  }
  int b = bin_of(n + 16);
  void **p = bins[b];
  if (p) {
    bins[b] = *p;
  } else {
    p = (void **)top;
    top += (size_t)1 << b;
    if (top > end) __builtin_trap();
  }
  ((uint64_t *)p)[0] = (uint64_t)b;
  return (char *)p + 16;
}
void mc_rt_delete(void *q) {
  if (!q) return;
  if ((char *)q < base || (char *)q >= end) {
    _ZdlPv(q);
    return;
  }
  void **p = (void **)((char *)q - 16);
  int b = (int)((uint64_t *)p)[0];
  *p = bins[b];
  bins[b] = p;
}
void mc_rt_delete_sized(void *q, size_t n) {
  (void)n;
  mc_rt_delete(q);
}
void *mc_rt_memcpy(void *d, const void *s, size_t n) {
  for (size_t i = 0; i < n; i++) ((volatile char *)d)[i] = ((const char *)s)[i];
  return d;
}
void *mc_rt_memmove(void *d, const void *s, size_t n) {
  if ((char *)d <= (const char *)s) return mc_rt_memcpy(d, s, n);
  while (n--) ((volatile char *)d)[n] = ((const char *)s)[n];
  return d;
}
void *mc_rt_memset(void *d, int c, size_t n) {
  for (size_t i = 0; i < n; i++) ((volatile char *)d)[i] = (char)c;
  return d;
}
int mc_rt_memcmp(const void *a, const void *b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    int d = ((const unsigned char *)a)[i] - ((const unsigned char *)b)[i];
    if (d) return d;
  }
  return 0;
}
size_t mc_rt_strlen(const char *s) {
  size_t n = 0;
  while (((volatile const char *)s)[n]) n++;
  return n;
}
void *mc_rt_new_arr(size_t n) { return mc_rt_new(n); }
void mc_rt_delete_arr(void *q) { mc_rt_delete(q); }
void mc_rt_delete_arr_sized(void *q, size_t n) {
  (void)n;
  mc_rt_delete(q);
}
