#include "mc.hpp"

#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <deque>
#include <fcntl.h>
#include <iostream>
#include <link.h>
#include <map>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#if defined(MC_ASAN)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif
#if defined(MC_TSAN)
extern "C" {
void *__tsan_get_current_fiber(void);
void *__tsan_create_fiber(unsigned flags);
void __tsan_destroy_fiber(void *fiber);
void __tsan_switch_to_fiber(void *fiber, unsigned flags);
void __tsan_acquire(void *addr);
void __tsan_release(void *addr);
void AnnotateBenignRaceSized(const char *file, int line, const volatile void *addr, unsigned long size, const char *what);
}
#endif

// ------------------------------------------------------------------------------------------------
// context switch
// ------------------------------------------------------------------------------------------------
extern "C" void mc_switch(void **save_sp, void *load_sp);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

namespace mc {

static Env g_env;
Env &env() { return g_env; }

static const size_t STACK = 16u << 20;

struct Fiber {
  int id = 0;
  int locality = 0;
  std::function<void()> fn;
  std::function<bool()> pred; // empty: runnable
  bool started = false, done = false;
  void *sp = nullptr;
  char *stack = nullptr;
  void *fake = nullptr;
  void *tsan = nullptr;
  void *slot = nullptr;
  char hb_start = 0;
  char eh[16] = {0};
  std::vector<char> tls;
  int worker = -1;      // the worker thread whose thread-local variables the task sees
  bool pinned = true;   // keeps its worker while it waits
  bool parked = false;  // gave its worker up while it waits
  const void *asan_bottom = nullptr;
  size_t asan_size = 0;
};

struct Point {
  int n;      // number of enabled tasks
  int choice; // chosen index in canonical order
};

struct Worker { // a thread that runs tasks: its thread-local variables outlive the tasks it runs
  int locality;
  bool busy;
  std::vector<char> tls;
};

struct Exec {
  std::vector<Fiber *> all;     // live fibers
  std::vector<Worker> workers;
  std::vector<Point> points;
  int policy = 0;
  std::vector<std::pair<size_t, int>> devs; // sorted
  size_t next_dev = 0;
  int next_id = 0;
  uint64_t steps = 0;
};

static uint64_t s_diverged = 0;
int g_tsan_reports = 0;
static pthread_t g_owner;
static Fiber *g_cur = nullptr;
static Fiber g_root; // the OS thread's own context
static Exec *g_exec = nullptr;
static Fiber *g_dead = nullptr; // finished fiber to be reclaimed by its successor
static std::vector<char *> g_stacks, g_used_stacks;
static char g_end_hb;
#if defined(MC_TSAN)
static std::vector<void *> g_free_tsan, g_used_tsan; // reused only in later executions, like the stacks
#endif

// thread-local storage of the executable: each task gets its own copy
static char *g_tls_addr = nullptr;
static size_t g_tls_size = 0, g_tls_init = 0;
static const char *g_tls_image = nullptr;

static int tls_cb(struct dl_phdr_info *info, size_t, void *) {
  for (int i = 0; i < info->dlpi_phnum; i++) {
    if (info->dlpi_phdr[i].p_type == PT_TLS && info->dlpi_tls_data) {
      g_tls_addr = (char *)info->dlpi_tls_data;
      g_tls_size = info->dlpi_phdr[i].p_memsz;
      g_tls_init = info->dlpi_phdr[i].p_filesz;
      g_tls_image = (const char *)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
    }
  }
  return 1; // first entry is the executable
}

// memcpy without sanitizer interception
static void raw_copy(char *d, const char *s, size_t n) {
  for (size_t i = 0; i < n; i++) ((volatile char *)d)[i] = s[i];
}

static char *new_stack() {
  if (!g_stacks.empty()) {
    char *s = g_stacks.back();
    g_stacks.pop_back();
    return s;
  }
  void *p = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    fail("tasks are created without end (no room for another stack)");
  }
  mprotect(p, 4096, PROT_NONE);
  return (char *)p;
}

static void reclaim() {
  if (!g_dead) return;
  Fiber *f = g_dead;
  g_dead = nullptr;
#if defined(MC_TSAN)
  g_used_tsan.push_back(f->tsan);
#endif
#if defined(MC_TSAN)
  g_used_stacks.push_back(f->stack); // reused only in the next execution, which is ordered after this one
#else
  g_stacks.push_back(f->stack);
#endif
  delete f;
}

static void fiber_entry();

// Thread-local variables. A task runs on a worker thread and sees that worker's variables, with what earlier
// tasks left in them: a task starts on the first idle worker of its locality and keeps it until it ends or, for
// the tasks of a user-level scheduler (HPX), until it waits. Under ThreadSanitizer every task has its own.
static std::vector<char> *tls_of(Fiber *f) {
  return f->worker >= 0 ? &g_exec->workers[f->worker].tls : &f->tls;
}
static std::vector<char> *take_tls(Fiber *f) {
#if !defined(MC_TSAN)
  if (f != &g_root && f->worker < 0) {
    auto &w = g_exec->workers;
    size_t i = 0;
    while (i < w.size() && (w[i].busy || w[i].locality != f->locality)) i++;
    if (i == w.size()) w.push_back(Worker{f->locality, false, {}});
    w[i].busy = true;
    f->worker = (int)i;
    f->parked = false;
  }
#endif
  return tls_of(f);
}

static void switch_to(Fiber *next, bool dying) {
  Fiber *cur = g_cur;
  if (cur == next) return;
  raw_copy(cur->eh, (char *)abi::__cxa_get_globals(), 16);
  raw_copy((char *)abi::__cxa_get_globals(), next->eh, 16);
  if (g_tls_size) {
    std::vector<char> *to = tls_of(cur);
    if (!dying || cur->worker >= 0) {
      to->resize(g_tls_size);
      raw_copy(to->data(), g_tls_addr, g_tls_size);
    }
    if ((dying || cur->parked) && cur->worker >= 0) {
      g_exec->workers[cur->worker].busy = false;
      cur->worker = -1;
    }
    to = take_tls(next);
    if (to->empty()) {
      to->assign(g_tls_size, 0);
      raw_copy(to->data(), g_tls_image, g_tls_init);
    }
    raw_copy(g_tls_addr, to->data(), g_tls_size);
  }
  if (!next->started) {
    next->started = true;
    next->stack = new_stack();
    next->asan_bottom = next->stack;
    next->asan_size = STACK;
    uint64_t *sp = (uint64_t *)(next->stack + STACK);
    *--sp = 0; // fake return address of entry
    *--sp = (uint64_t)&fiber_entry;
    for (int i = 0; i < 6; i++) *--sp = 0;
    --sp;
    uint32_t mxcsr;
    uint16_t fcw;
    asm volatile("stmxcsr %0" : "=m"(mxcsr));
    asm volatile("fnstcw %0" : "=m"(fcw));
    ((uint32_t *)sp)[0] = mxcsr;
    ((uint32_t *)sp)[1] = fcw;
    next->sp = sp;
  }
  g_cur = next;
#if defined(MC_TSAN)
  __tsan_switch_to_fiber(next->tsan, 1 /* no synchronisation */);
#endif
#if defined(MC_ASAN)
  __sanitizer_start_switch_fiber(dying ? nullptr : &cur->fake, next->asan_bottom, next->asan_size);
#endif
  mc_switch(&cur->sp, next->sp);
  // running again as cur
#if defined(MC_ASAN)
  const void *ob;
  size_t os;
  __sanitizer_finish_switch_fiber(g_cur->fake, &ob, &os);
#endif
  reclaim();
}


// picks the next task; called with the current task either runnable, blocked or done
static void schedule(bool cur_done) {
  Exec &e = *g_exec;
  if (++e.steps > 20000000ull) fail("livelock: more than 20 million scheduling steps");
  // canonical order of the enabled tasks
  static std::vector<Fiber *> en;
  en.clear();
  Fiber *cur = cur_done ? nullptr : g_cur;
  if (e.policy == 0) {
    if (cur && !cur->pred) en.push_back(cur);
    for (Fiber *f : e.all)
      if (f != cur && !f->done && (!f->pred || f->pred())) en.push_back(f);
      else if (f == cur && cur->pred && cur->pred()) en.push_back(f);
  } else if (e.policy == 1) { // newest first
    for (size_t i = e.all.size(); i-- > 0;) {
      Fiber *f = e.all[i];
      if (!f->done && (!f->pred || f->pred())) en.push_back(f);
    }
  } else { // oldest other task first, the current one last
    bool cur_en = false;
    for (Fiber *f : e.all) {
      if (f->done) continue;
      bool en_f = !f->pred || f->pred();
      if (!en_f) continue;
      if (f == cur) cur_en = true;
      else en.push_back(f);
    }
    if (cur_en) en.push_back(cur);
  }
  if (en.empty()) {
    bool any = false;
    for (Fiber *f : e.all)
      if (!f->done) any = true;
    if (!any) { // all done: back to the OS thread
      g_dead = g_cur;
      switch_to(&g_root, true);
      abort();
    }
    fail("deadlock: no task can run, but some are waiting");
  }
  int choice = 0;
  if (en.size() > 1) {
    size_t idx = e.points.size();
    if (e.next_dev < e.devs.size() && e.devs[e.next_dev].first == idx) {
      choice = e.devs[e.next_dev].second;
      e.next_dev++;
      if (choice >= (int)en.size()) { // the code behaves differently from execution to execution
        choice = (int)en.size() - 1;
        s_diverged++;
      }
    }
    e.points.push_back(Point{(int)en.size(), choice});
  }
  Fiber *next = en[choice];
  next->pred = nullptr;
  if (cur_done) {
    g_dead = g_cur;
    switch_to(next, true);
    abort();
  }
  switch_to(next, false);
}

static void fiber_entry() {
#if defined(MC_ASAN)
  const void *ob;
  size_t os;
  __sanitizer_finish_switch_fiber(nullptr, &ob, &os);
  if (!g_root.asan_bottom) {
    g_root.asan_bottom = ob;
    g_root.asan_size = os;
  }
#endif
  reclaim();
  {
    Fiber *me = g_cur;
    hb_acquire(&me->hb_start);
    try {
      me->fn();
    } catch (const std::exception &x) {
      fail("uncaught exception in a task: %s", x.what());
    } catch (...) {
      fail("uncaught exception in a task");
    }
    me->fn = nullptr;
    me->done = true;
    hb_release(&g_end_hb);
    Exec &e = *g_exec;
    for (size_t i = 0; i < e.all.size(); i++)
      if (e.all[i] == me) {
        e.all.erase(e.all.begin() + i);
        break;
      }
  }
  schedule(true);
  abort();
}

bool in_task() { return g_exec && g_cur != &g_root && pthread_self() == g_owner; }
int current_task() { return in_task() ? g_cur->id : -1; }
int current_locality() { return in_task() ? g_cur->locality : 0; }
void set_current_locality(int l) {
  if (in_task()) g_cur->locality = l;
}
static void *g_root_slot = nullptr;
void *&fiber_slot() { return in_task() ? g_cur->slot : g_root_slot; }
int live_tasks() { return g_exec ? (int)g_exec->all.size() : 0; }

void hb_release(void *addr) {
#if defined(MC_TSAN)
  __tsan_release(addr);
#else
  (void)addr;
#endif
}
void hb_acquire(void *addr) {
#if defined(MC_TSAN)
  __tsan_acquire(addr);
#else
  (void)addr;
#endif
}

void spawn_nopoint(std::function<void()> f, int locality, bool pinned) {
  if (!g_exec) {
    fprintf(stderr, "mc: spawn outside of an execution\n");
    _exit(79);
  }
  Fiber *n = new Fiber;
  n->id = g_exec->next_id++;
  n->locality = locality >= 0 ? locality : current_locality();
  n->fn = std::move(f);
  n->pinned = pinned;
#if defined(MC_TSAN)
  if (!g_free_tsan.empty()) {
    n->tsan = g_free_tsan.back();
    g_free_tsan.pop_back();
  } else
    n->tsan = __tsan_create_fiber(0);
#endif
  hb_release(&n->hb_start);
  g_exec->all.push_back(n);
}
void spawn(std::function<void()> f, int locality, bool pinned) {
  spawn_nopoint(std::move(f), locality, pinned);
  point();
}
void point() {
  if (in_task()) schedule(false);
}
void wait_until(const std::function<bool()> &pred) {
  if (pred()) return;
  if (!in_task()) {
    fail("deadlock: waiting outside of the task system for something that never happens");
  }
  g_cur->pred = pred;
  g_cur->parked = !g_cur->pinned;
  schedule(false);
  g_cur->parked = false;
}
Pinned::Pinned() : before(!in_task() || g_cur->pinned) {
  if (in_task()) g_cur->pinned = true;
}
Pinned::~Pinned() {
  if (in_task()) g_cur->pinned = before;
}
void Lock::lock() {
  point();
  {
    Pinned p;
    wait_until([this] { return !held; });
  }
  held = true;
  hb_acquire(this);
}
bool Lock::try_lock() {
  point();
  if (held) return false;
  held = true;
  hb_acquire(this);
  return true;
}
void Lock::unlock() {
  hb_release(this);
  held = false;
  point();
}

// ------------------------------------------------------------------------------------------------
// driver
// ------------------------------------------------------------------------------------------------
struct Shared { // one page shared with the supervising runner
  volatile uint64_t beat;
  char what[4000];
};
static Shared *g_shared = nullptr;
static unsigned char *g_claims = nullptr;
static size_t g_nclaims = 0;
static FILE *g_out = nullptr;
static std::string g_only_case, g_only_sched, g_mode = "fast";
static bool g_have_only = false, g_thorough = false;
static size_t g_case_index = 0;
static std::string g_case, g_sched;
static int g_chunk = 1;
static time_t g_deadline = 0; // give up exploring (not an error) after this time
static uint64_t s_skipped = 0;
static bool out_of_time() { return g_deadline && time(nullptr) >= g_deadline; }
// statistics
static uint64_t s_cases = 0, s_exec = 0, s_states = 0, s_trans = 0, s_full = 0, s_capped = 0, s_maxpoints = 0, s_maxtasks = 0;
static std::map<int, uint64_t> s_bound; // completed deviation bound -> number of cases (not exhausted ones)
static std::vector<std::string> s_samples;
static std::set<uint64_t> s_outcomes;
static uint64_t s_replayed = 0;

bool tier_thorough() { return g_thorough; }
bool listed() { return g_only_case.rfind("known:", 0) == 0; }
const char *mode() { return g_mode.c_str(); }
bool mode_is(const char *m) { return g_mode == m; }

static std::string jesc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r;
}

static void announce() {
  if (!g_shared) return;
  std::string w = g_case + "\n" + g_sched;
  size_t n = std::min(w.size(), sizeof(g_shared->what) - 1);
  memcpy(g_shared->what, w.data(), n);
  g_shared->what[n] = 0;
  g_shared->beat++;
}

void fail(const char *fmt, ...) {
  char buf[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (g_out) {
    fprintf(g_out, "{\"violation\":{\"case\":\"%s\",\"sched\":\"%s\",\"msg\":\"%s\"}}\n", jesc(g_case).c_str(),
            jesc(g_sched).c_str(), jesc(buf).c_str());
    fflush(g_out);
  }
  fprintf(stderr, "VIOLATION case=%s sched=%s\n  %s\n", g_case.c_str(), g_sched.c_str(), buf);
  fflush(stderr);
  _exit(10);
}

std::string strf(const char *fmt, ...) {
  char buf[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}
std::string vec_str(const std::vector<size_t> &v) {
  std::string r = "(";
  for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string(v[i]);
  return r + ")";
}

bool claim(const std::string &id) {
  size_t idx = g_case_index++;
  if (!g_have_only && out_of_time()) {
    s_skipped++;
    return false;
  }
  if (g_have_only) {
    if (id != g_only_case) return false;
  } else if (g_claims) {
    // consecutive cases are claimed in groups, so that cheap cases don't fight for the cache line
    size_t slot = (idx / g_chunk) % g_nclaims;
    static size_t mine = (size_t)-1;
    if (slot != mine) {
      unsigned char exp = 0;
      if (!__atomic_compare_exchange_n(&g_claims[slot], &exp, (unsigned char)1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
        return false;
      mine = slot;
    }
  }
  g_case = id;
  g_sched = "";
  s_cases++;
  if (s_samples.size() < 3 || (s_cases & (s_cases - 1)) == 0) {
    if (s_samples.size() < 12) s_samples.push_back(id);
    else s_samples[s_cases % 12] = id;
  }
  return true;
}

void count(uint64_t states, uint64_t transitions) {
  s_states += states;
  s_trans += transitions;
  if (g_shared) g_shared->beat++;
}
void outcome(uint64_t h) {
  if (s_outcomes.size() < 100000) s_outcomes.insert(h);
}

struct NullBuf : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};

static std::vector<void (*)()> g_reset_hooks;
void on_execution_start(void (*h)()) { g_reset_hooks.push_back(h); }

static void run_once(int policy, const std::vector<std::pair<size_t, int>> &devs, const std::function<void()> &body,
                     std::vector<Point> &points) {
  Exec e;
  e.policy = policy;
  e.devs = devs;
  std::string s = "p" + std::to_string(policy);
  for (auto &d : devs) s += "," + std::to_string(d.first) + "=" + std::to_string(d.second);
  g_sched = s;
  announce();
  hpx_out_clear();
  g_exec = &e;
  g_root.started = true;
  g_cur = &g_root;
#if defined(MC_TSAN)
  g_root.tsan = __tsan_get_current_fiber();
#endif
  static NullBuf nb;
  std::streambuf *old = nullptr;
  if (g_env.quiet) old = std::cout.rdbuf(&nb);
  for (auto h : g_reset_hooks) h();
  spawn_nopoint(body, 0);
  Fiber *f = e.all[0];
  switch_to(f, false);
  hb_acquire(&g_end_hb);
  reclaim();
  for (char *st : g_used_stacks) g_stacks.push_back(st);
  g_used_stacks.clear();
#if defined(MC_TSAN)
  for (void *t : g_used_tsan) g_free_tsan.push_back(t);
  g_used_tsan.clear();
#endif
  if (old) std::cout.rdbuf(old);
  if (e.next_dev != e.devs.size()) s_diverged++;
  if (g_tsan_reports) fail("data race (see the ThreadSanitizer report)");
  points.swap(e.points);
  s_exec++;
  s_trans += e.steps;
  s_maxpoints = std::max<uint64_t>(s_maxpoints, points.size());
  s_maxtasks = std::max<uint64_t>(s_maxtasks, e.next_id);
  g_exec = nullptr;
}

static std::vector<std::pair<size_t, int>> parse_sched(const std::string &s, int &policy) {
  std::vector<std::pair<size_t, int>> devs;
  policy = 0;
  std::stringstream ss(s);
  std::string tok;
  bool first = true;
  while (std::getline(ss, tok, ',')) {
    if (first) {
      policy = atoi(tok.c_str() + 1);
      first = false;
    } else {
      size_t eq = tok.find('=');
      devs.push_back({strtoull(tok.c_str(), 0, 10), atoi(tok.c_str() + eq + 1)});
    }
  }
  return devs;
}

void explore(const std::string &id, const Opts &o, const std::function<void()> &body) {
  if (!claim(id)) return;
  std::vector<Point> pts;
  Env saved = g_env;
  auto once = [&](int pol, const std::vector<std::pair<size_t, int>> &devs) {
    g_env = saved;
    pts.clear();
    run_once(pol, devs, body, pts);
  };
  if (g_have_only && !g_only_sched.empty()) {
    int pol;
    auto d = parse_sched(g_only_sched, pol);
    once(pol, d);
    g_env = saved;
    return;
  }
  bool all_full = true;
  int min_bound = 1 << 30;
  for (int pol = 0; pol < o.policies; pol++) {
    std::deque<std::vector<std::pair<size_t, int>>> level, next;
    level.push_back({});
    uint64_t n = 0;
    int b = 0;
    bool full = false;
    int completed = -1;
    bool cut = false;
    while (true) {
      next.clear();
      uint64_t dropped = 0;
      while (!level.empty()) {
        if (n >= o.cap || (n && !g_have_only && out_of_time())) {
          cut = true;
          break;
        }
        auto d = std::move(level.front());
        level.pop_front();
        once(pol, d);
        n++;
        if (n == 2 && b == 1) { // determinism: the same schedule must give the same points
          std::vector<Point> first = pts;
          once(pol, d);
          s_replayed++;
          if (first.size() != pts.size()) s_diverged++;
        }
        size_t from = d.empty() ? 0 : d.back().first + 1;
        s_states += pts.size() - std::min(pts.size(), from) + 1;
        if (b < o.bound)
          for (size_t i = from; i < pts.size(); i++)
            for (int alt = 1; alt < pts[i].n; alt++) {
              if (next.size() + n >= o.cap * 2 + 16) { // never going to be run
                dropped++;
                continue;
              }
              auto dd = d;
              dd.push_back({i, alt});
              next.push_back(std::move(dd));
            }
      }
      if (cut) break;
      completed = b;
      if (next.empty() && b < o.bound) {
        full = true;
        break;
      }
      if (b >= o.bound) break;
      level.swap(next);
      b++;
      (void)dropped;
    }
    if (!full) {
      all_full = false;
      min_bound = std::min(min_bound, completed);
    }
  }
  if (all_full) s_full++;
  else {
    s_capped++;
    s_bound[min_bound]++;
  }
  g_env = saved;
}

void single(const std::string &id, const std::function<void()> &body) {
  if (!claim(id)) return;
  announce();
  hpx_out_clear();
  static NullBuf nb;
  std::streambuf *old = nullptr;
  if (g_env.quiet) old = std::cout.rdbuf(&nb);
  try {
    body();
  } catch (const std::exception &x) {
    if (old) std::cout.rdbuf(old);
    fail("unexpected exception: %s", x.what());
  } catch (...) {
    if (old) std::cout.rdbuf(old);
    fail("unexpected exception");
  }
  if (old) std::cout.rdbuf(old);
  s_exec++;
  s_full++;
}

// stream buffer without library calls a race detector could see
struct RawBuf : std::streambuf {
  char *data = nullptr;
  size_t n = 0, cap = 0;
  void put(const char *s, size_t k) {
    if (n + k > cap) {
      size_t nc = (n + k) * 2 + 4096;
      char *d = (char *)mmap(nullptr, nc, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (data) {
        raw_copy(d, data, n);
        munmap(data, cap);
      }
      data = d;
      cap = nc;
    }
    raw_copy(data + n, s, k);
    n += k;
  }
  int overflow(int c) override {
    char ch = (char)c;
    if (c != EOF) put(&ch, 1);
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char *s, std::streamsize k) override {
    put(s, k);
    return k;
  }
  ~RawBuf() {
    if (data) munmap(data, cap);
  }
};
static RawBuf &hpx_buf() {
  static RawBuf *b = new RawBuf;
  return *b;
}
std::ostream &hpx_cout() {
  static std::ostream *o = new std::ostream(&hpx_buf());
  return *o;
}
std::string hpx_out() { return std::string(hpx_buf().data ? hpx_buf().data : "", hpx_buf().n); }
void hpx_out_clear() { hpx_buf().n = 0; }

struct CaptureCout::Impl {
  RawBuf buf;
  std::streambuf *old;
};
CaptureCout::CaptureCout() : impl(new Impl) { impl->old = std::cout.rdbuf(&impl->buf); }
CaptureCout::~CaptureCout() {
  std::cout.rdbuf(impl->old);
  delete impl;
}
std::string CaptureCout::text() const { return std::string(impl->buf.data ? impl->buf.data : "", impl->buf.n); }

static void *dummy_thread(void *) { return nullptr; }

int driver_main(int argc, char **argv, const std::function<void()> &enumerate) {
  std::string out, prog, claims;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--out") out = val();
    else if (a == "--progress") prog = val();
    else if (a == "--claims") claims = val();
    else if (a == "--case") {
      g_only_case = val();
      g_have_only = true;
    } else if (a == "--sched") g_only_sched = val();
    else if (a == "--mode") g_mode = val();
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--deadline") g_deadline = atoll(val().c_str());
    else if (a == "--group") g_chunk = atoi(val().c_str());
  }
  if (!out.empty()) g_out = fopen(out.c_str(), "a");
  if (!prog.empty()) {
    int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
    if (ftruncate(fd, 4096)) return 76;
    g_shared = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  }
  if (!claims.empty()) {
    int fd = open(claims.c_str(), O_RDWR);
    struct stat st;
    fstat(fd, &st);
    g_nclaims = st.st_size;
    g_claims = (unsigned char *)mmap(nullptr, g_nclaims, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  }
  // a second thread has existed: library code uses atomic reference counts
  pthread_t t;
  pthread_create(&t, nullptr, dummy_thread, nullptr);
  pthread_join(t, nullptr);
  dl_iterate_phdr(tls_cb, nullptr);
#if defined(MC_TSAN)
  // every task has its own thread-local variables, swapped in and out at the same address
  if (g_tls_size) AnnotateBenignRaceSized(__FILE__, __LINE__, g_tls_addr, g_tls_size, "thread-local variables");
#endif
  g_owner = pthread_self();
  g_cur = &g_root;
  enumerate();
  g_case = "";
  announce();
  if (g_out) {
    fprintf(g_out, "{\"summary\":{\"mode\":\"%s\",\"cases\":%llu,\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,"
                   "\"exhausted_cases\":%llu,\"capped_cases\":%llu,\"max_points\":%llu,\"max_tasks\":%llu,\"replayed\":%llu,\"diverged\":%llu,\"skipped\":%llu,\"bounds\":{",
            g_mode.c_str(), (unsigned long long)s_cases, (unsigned long long)s_exec, (unsigned long long)s_states,
            (unsigned long long)s_trans, (unsigned long long)s_full, (unsigned long long)s_capped,
            (unsigned long long)s_maxpoints, (unsigned long long)s_maxtasks, (unsigned long long)s_replayed,
            (unsigned long long)s_diverged, (unsigned long long)s_skipped);
    bool first = true;
    for (auto &b : s_bound) {
      fprintf(g_out, "%s\"%d\":%llu", first ? "" : ",", b.first, (unsigned long long)b.second);
      first = false;
    }
    fprintf(g_out, "},\"outcomes\":%zu,\"samples\":[", s_outcomes.size());
    first = true;
    for (auto &s : s_samples) {
      fprintf(g_out, "%s\"%s\"", first ? "" : ",", jesc(s).c_str());
      first = false;
    }
    fprintf(g_out, "]}}\n");
    fflush(g_out);
  }
  if (g_have_only && s_cases == 0) {
    fprintf(stderr, "mc: no such case\n");
    _exit(75);
  }
  fflush(stdout);
#if defined(MC_TSAN)
  // ThreadSanitizer turns the exit status into a failure once it has made a report, also for one that was set aside
  if (!g_tsan_reports) syscall(SYS_exit_group, 0);
#endif
  _exit(0);
}
} // namespace mc


// ------------------------------------------------------------------------------------------------
// flags, reference counts
// ------------------------------------------------------------------------------------------------
namespace mc {
void Flag::set() {
  hb_release(this);
  is_set = true;
}
bool Flag::ready() const { return is_set; }
void Flag::wait() {
  if (!is_set) wait_until([this] { return is_set; });
  hb_acquire(this);
}
void wait_any(Flag *const *flags, size_t n) {
  auto p = [flags, n] {
    for (size_t i = 0; i < n; i++)
      if (flags[i]->is_set) return true;
    return n == 0;
  };
  if (!p()) wait_until(p);
}
void Counter::add(long d) {
  if (d < 0) hb_release(this);
  value += d;
}
void Counter::wait_zero() {
  if (value != 0) wait_until([this] { return value == 0; });
  hb_acquire(this);
}
void ref(Obj *o) { o->refs++; }
bool unref(Obj *o) {
  hb_release(o);
  if (--o->refs == 0) {
    hb_acquire(o);
    return true;
  }
  return false;
}

// ------------------------------------------------------------------------------------------------
// std::mutex / std::condition_variable: a task that must wait is blocked in the scheduler
// ------------------------------------------------------------------------------------------------
struct MutexState {
  bool held = false;
};
static std::map<void *, MutexState> g_mutexes;
static std::map<void *, uint64_t> g_cond_signals;
} // namespace mc

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __real_pthread_mutex_trylock(pthread_mutex_t *m);
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!mc::in_task()) return __real_pthread_mutex_lock(m);
  mc::point();
  mc::MutexState *st = &mc::g_mutexes[m];
  mc::wait_until([st] { return !st->held; });
  st->held = true;
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!mc::in_task()) return __real_pthread_mutex_trylock(m);
  mc::point();
  int r = __real_pthread_mutex_trylock(m);
  if (r == 0) mc::g_mutexes[m].held = true;
  return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!mc::in_task()) return __real_pthread_mutex_unlock(m);
  int r = __real_pthread_mutex_unlock(m);
  mc::g_mutexes[m].held = false;
  mc::point();
  return r;
}
// std::condition_variable
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *, std::unique_lock<std::mutex> *);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *cv, std::unique_lock<std::mutex> *l) {
  if (!mc::in_task()) return __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(cv, l);
  uint64_t *sig = &mc::g_cond_signals[cv];
  uint64_t seen = *sig;
  __wrap_pthread_mutex_unlock(l->mutex()->native_handle());
  mc::wait_until([sig, seen] { return *sig != seen; });
  __wrap_pthread_mutex_lock(l->mutex()->native_handle());
}
void __real__ZNSt18condition_variable10notify_allEv(void *);
void __wrap__ZNSt18condition_variable10notify_allEv(void *cv) {
  if (!mc::in_task()) return __real__ZNSt18condition_variable10notify_allEv(cv);
  mc::g_cond_signals[cv]++;
  mc::point();
}
void __real__ZNSt18condition_variable10notify_oneEv(void *);
void __wrap__ZNSt18condition_variable10notify_oneEv(void *cv) {
  if (!mc::in_task()) return __real__ZNSt18condition_variable10notify_oneEv(cv);
  mc::g_cond_signals[cv]++; // wakes all: spurious wake-ups are allowed
  mc::point();
}
}

#if defined(MC_TSAN)
// Atomic operations of the instrumented code are scheduling points.
extern "C" {
#define MC_ATOMIC_T(B, T)                                                                                            \
  T __real___tsan_atomic##B##_load(const volatile T *a, int mo);                                                     \
  T __wrap___tsan_atomic##B##_load(const volatile T *a, int mo) {                                                    \
    mc::point();                                                                                                     \
    return __real___tsan_atomic##B##_load(a, mo);                                                                    \
  }                                                                                                                  \
  void __real___tsan_atomic##B##_store(volatile T *a, T v, int mo);                                                  \
  void __wrap___tsan_atomic##B##_store(volatile T *a, T v, int mo) {                                                 \
    mc::point();                                                                                                     \
    __real___tsan_atomic##B##_store(a, v, mo);                                                                       \
  }                                                                                                                  \
  MC_ATOMIC_RMW(B, T, exchange)                                                                                      \
  MC_ATOMIC_RMW(B, T, fetch_add)                                                                                     \
  MC_ATOMIC_RMW(B, T, fetch_sub)                                                                                     \
  MC_ATOMIC_RMW(B, T, fetch_and)                                                                                     \
  MC_ATOMIC_RMW(B, T, fetch_or)                                                                                      \
  MC_ATOMIC_RMW(B, T, fetch_xor)                                                                                     \
  MC_ATOMIC_CAS(B, T, compare_exchange_strong)                                                                       \
  MC_ATOMIC_CAS(B, T, compare_exchange_weak)
#define MC_ATOMIC_RMW(B, T, OP)                                                                                      \
  T __real___tsan_atomic##B##_##OP(volatile T *a, T v, int mo);                                                      \
  T __wrap___tsan_atomic##B##_##OP(volatile T *a, T v, int mo) {                                                     \
    mc::point();                                                                                                     \
    return __real___tsan_atomic##B##_##OP(a, v, mo);                                                                 \
  }
#define MC_ATOMIC_CAS(B, T, OP)                                                                                      \
  int __real___tsan_atomic##B##_##OP(volatile T *a, T *c, T v, int mo, int fmo);                                     \
  int __wrap___tsan_atomic##B##_##OP(volatile T *a, T *c, T v, int mo, int fmo) {                                    \
    mc::point();                                                                                                     \
    return __real___tsan_atomic##B##_##OP(a, c, v, mo, fmo);                                                         \
  }
MC_ATOMIC_T(8, unsigned char)
MC_ATOMIC_T(16, unsigned short)
MC_ATOMIC_T(32, unsigned int)
MC_ATOMIC_T(64, unsigned long long)

// Reports about the thread-local variables of the executable are artefacts: every task has its own copy
// of them, swapped in and out at the same address.
int __tsan_get_report_data(void *report, const char **description, int *count, int *stack_count, int *mop_count,
                           int *loc_count, int *mutex_count, int *thread_count, int *unique_tid_count,
                           void **sleep_trace, unsigned long trace_size);
int __tsan_get_report_mop(void *report, unsigned long idx, int *tid, void **addr, int *size, int *write, int *atomic,
                          void **trace, unsigned long trace_size);
void __tsan_on_report(void *report) {
  const char *desc = "";
  int n = 0, sc = 0, mops = 0, lc = 0, mc_ = 0, tc = 0, ut = 0;
  void *tr[1] = {nullptr};
  __tsan_get_report_data(report, &desc, &n, &sc, &mops, &lc, &mc_, &tc, &ut, tr, 1);
  int real = mops == 0;
  std::string where;
  for (int i = 0; i < mops; i++) {
    int tid, size, wr, at;
    void *addr = nullptr;
    void *trace[12] = {nullptr};
    __tsan_get_report_mop(report, i, &tid, &addr, &size, &wr, &at, trace, 12);
    if (!((char *)addr >= mc::g_tls_addr && (char *)addr < mc::g_tls_addr + mc::g_tls_size)) real = 1;
  }
  // the first report is printed after this call; finding all others could take very long
  if (real && ++mc::g_tsan_reports > 1) mc::fail("data race (see the ThreadSanitizer report)");
}
}
#endif
