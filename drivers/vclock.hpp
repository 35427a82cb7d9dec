// A virtual clock behind every clock of the standard library: time passes only where the harness says so.
#pragma once
#include <chrono>
#include <ctime>
#include <sys/time.h>
namespace vclock {
extern long long ns;
}
#ifdef VCLOCK_IMPL
namespace vclock {
long long ns = 1700000000ll * 1000000000ll;
}
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vclock::ns)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vclock::ns)); }
}
}
}
extern "C" int clock_gettime(clockid_t, struct timespec *t) noexcept {
  t->tv_sec = vclock::ns / 1000000000ll;
  t->tv_nsec = vclock::ns % 1000000000ll;
  return 0;
}
extern "C" int gettimeofday(struct timeval *t, void *) noexcept {
  t->tv_sec = vclock::ns / 1000000000ll;
  t->tv_usec = vclock::ns % 1000000000ll / 1000;
  return 0;
}
extern "C" time_t time(time_t *t) noexcept {
  time_t s = vclock::ns / 1000000000ll;
  if (t) *t = s;
  return s;
}
extern "C" clock_t clock(void) noexcept { return (clock_t)(vclock::ns / (1000000000ll / CLOCKS_PER_SEC)); }
#endif
