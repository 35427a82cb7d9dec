// Controlled scheduler and explorer: every task / thread of the code under test is a fiber of this
// runtime; every scheduling decision goes through mc::detail::schedule() and is enumerated.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iosfwd>
#include <string>
#include <vector>

namespace mc {

// ---------------------------------------------------------------- environment of one execution
struct Env {
  int localities = 1;       // number of HPX localities
  int locality_order = 0;   // rotation of the list returned by find_all_localities
  long chunk = 1;           // elements per task of a parallel algorithm, <= 0: one task for all
  int omp_threads = 2;      // OpenMP team size
  int omp_limit = 0;        // OpenMP thread limit (0: none): teams get no larger, whatever omp_get_max_threads says
  bool quiet = true;        // swallow std::cout while the body runs
};
Env &env();

// ---------------------------------------------------------------- tasks
struct Fiber;
// starts a task; it becomes runnable at once. locality < 0: inherit. A pinned task blocks its worker thread
// while it waits; the others leave it to further tasks and may go on elsewhere (thread-local variables).
void spawn(std::function<void()> f, int locality = -1, bool pinned = false);
// same, but without a scheduling point (the caller adds one later)
void spawn_nopoint(std::function<void()> f, int locality = -1, bool pinned = true);
// the current task is pinned while this lives
struct Pinned {
  bool before;
  Pinned();
  ~Pinned();
};
// scheduling point: any runnable task may run next
void point();
// blocks the current task until pred() holds (pred must be a pure function of runtime state)
void wait_until(const std::function<bool()> &pred);
bool in_task();
int current_task();
int current_locality();
void set_current_locality(int l);
void *&fiber_slot(); // one pointer per task for the OpenMP layer
// happens-before edges of the modelled runtime (only these order memory accesses for the race check)
void hb_release(void *addr);
void hb_acquire(void *addr);
int live_tasks();

// a lock whose acquisition is a scheduling point
struct Lock {
  bool held = false;
  void lock();
  bool try_lock();
  void unlock();
};

// one-shot event; setting it happens before every completed wait
struct Flag {
  bool is_set = false;
  void set();
  void wait();
  bool ready() const;
};
void wait_any(Flag *const *flags, size_t n);
struct Counter { // number of outstanding activities
  long value = 0;
  void add(long d);
  void wait_zero();
};
// reference counted runtime object; unref() returns true if the caller has to delete it
struct Obj {
  long refs = 0;
  virtual ~Obj() {}
};
void ref(Obj *o);
bool unref(Obj *o);

// ---------------------------------------------------------------- cases and verdicts
struct Opts {
  int bound = 1000000;       // maximal number of deviations from the default schedule
  uint64_t cap = 1;          // maximal number of schedules per case and base policy
  int policies = 1;          // number of base policies explored (1..3)
};

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// Runs body under every schedule within opts, if this process is responsible for the case.
void explore(const std::string &id, const Opts &opts, const std::function<void()> &body);
// Sequential case: one execution, no fibers (ops: number of model steps compared).
void single(const std::string &id, const std::function<void()> &body);
// is the case with this id going to run here? (claims it)
bool claim(const std::string &id);
// Count of model transitions compared inside a sequential case.
void count(uint64_t states, uint64_t transitions);
void outcome(uint64_t h); // distinct observed outcomes (hash), for the evidence

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string vec_str(const std::vector<size_t> &v);

bool tier_thorough();
bool listed(); // a case of known_findings.txt is being replayed
const char *mode(); // "asan", "tsan", "fast"
bool mode_is(const char *m);

int driver_main(int argc, char **argv, const std::function<void()> &enumerate);

struct CaptureCout { // captures std::cout while alive
  CaptureCout();
  ~CaptureCout();
  std::string text() const;
  struct Impl;
  Impl *impl;
};
std::string hpx_out(); // what was written to hpx::cout in this execution
void hpx_out_clear();
std::ostream &hpx_cout();
void on_execution_start(void (*h)()); // resets a layer before every execution
} // namespace mc
