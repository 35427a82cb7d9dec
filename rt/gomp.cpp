// Replacement of libgomp on top of the controlled scheduler: the threads of a team are tasks.
#include "mc.hpp"
#include <climits>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <string>

namespace {
struct Team;
struct WorkShare { // one dynamic loop / sections / single region
  bool init = false;
  bool ull = false, up = true;
  long next = 0, end = 0, incr = 1, chunk = 1;
  unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1;
  bool guided = false;
  bool claimed = false;
  void *copy = nullptr;
  int left = 0;
  char hb = 0;
};
struct Team {
  int size = 1;
  int arrived = 0;
  long generation = 0;
  long tasks = 0; // unfinished explicit tasks
  char hb_barrier = 0, hb_join = 0;
  std::map<long, WorkShare> ws;
};
struct Group {
  long pending = 0;
  char hb = 0;
  Group *parent = nullptr;
};
struct Thr {
  Team *team = nullptr;
  int tid = 0;
  int level = 0;
  long ws_count = 0;
  WorkShare *cur = nullptr;
  long children = 0; // unfinished child tasks of the current task
  char hb_children = 0;
  Thr *prev = nullptr;
  Group *group = nullptr;
};
int g_set_threads = 0;
bool g_dynamic = false, g_nested = false;
int g_sched_kind = 1, g_sched_chunk = 0;

Thr *self() { return (Thr *)mc::fiber_slot(); }
int default_threads() { return g_set_threads > 0 ? g_set_threads : mc::env().omp_threads; }

void reset() {
  g_set_threads = 0;
  g_dynamic = g_nested = false;
}
struct Init {
  Init() { mc::on_execution_start(reset); }
} init_;

void barrier(Team *t) {
  if (!t) return;
  mc::point();
  mc::wait_until([t] { return t->tasks == 0; });
  mc::hb_release(&t->hb_barrier);
  long gen = t->generation;
  if (++t->arrived == t->size) {
    t->arrived = 0;
    t->generation++;
  } else {
    mc::wait_until([t, gen] { return t->generation != gen; });
  }
  mc::hb_acquire(&t->hb_barrier);
}

void parallel(void (*fn)(void *), void *data, unsigned num_threads, int) {
  Thr *outer = self();
  int n = num_threads ? (int)num_threads : default_threads();
  if (!mc::in_task()) n = 1;
  if (outer && outer->level >= 1 && !g_nested) n = 1;
  if (n > 1024) n = 1024;
  if (mc::env().omp_limit && n > mc::env().omp_limit) n = mc::env().omp_limit;
  if (n < 1) n = 1;
  Team team;
  team.size = n;
  mc::Counter left;
  left.value = n - 1;
  int level = outer ? outer->level + 1 : 1;
  for (int i = 1; i < n; i++)
    mc::spawn_nopoint([fn, data, i, &team, &left, level] {
      Thr me;
      me.team = &team;
      me.tid = i;
      me.level = level;
      mc::fiber_slot() = &me;
      fn(data);
      if (me.cur) me.cur = nullptr;
      mc::fiber_slot() = nullptr;
      left.add(-1);
    });
  if (n > 1) mc::point();
  mc::Pinned pin; // the thread that starts a team blocks when it waits
  Thr me;
  me.team = &team;
  me.tid = 0;
  me.level = level;
  me.prev = outer;
  mc::fiber_slot() = &me;
  fn(data);
  left.wait_zero();
  mc::wait_until([&team] { return team.tasks == 0; });
  mc::hb_acquire(&team.hb_join);
  mc::fiber_slot() = outer;
}

WorkShare *enter_ws() {
  Thr *t = self();
  static Thr lone;
  static Team lone_team;
  if (!t) {
    t = &lone;
    t->team = &lone_team;
    mc::fiber_slot() = t;
  }
  WorkShare *w = &t->team->ws[t->ws_count++];
  t->cur = w;
  return w;
}

struct NamedLocks {
  std::map<std::string, mc::Lock> m;
};
mc::Lock g_critical, g_atomic;
std::map<void *, mc::Lock> g_named;
std::map<void *, mc::Lock> g_locks;
std::map<void *, std::pair<int, int>> g_nest; // owner, depth

bool next_chunk(WorkShare *w, int nthreads, long *istart, long *iend) {
  mc::point();
  mc::hb_acquire(&w->hb);
  long rem = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
  if (rem <= 0) {
    return false;
  }
  long c = w->chunk > 0 ? w->chunk : 1;
  if (w->guided) {
    long q = (rem + nthreads - 1) / nthreads;
    if (q > c) c = q;
  }
  if (c > rem) c = rem;
  *istart = w->next;
  *iend = w->next + c * w->incr;
  if (w->incr > 0 ? *iend > w->end : *iend < w->end) *iend = w->end;
  w->next = *iend;
  return true;
}
bool next_chunk_ull(WorkShare *w, int nthreads, unsigned long long *istart, unsigned long long *iend) {
  mc::point();
  unsigned long long rem;
  if (w->up)
    rem = w->unext >= w->uend ? 0 : (w->uend - w->unext + w->uincr - 1) / w->uincr;
  else
    rem = w->unext <= w->uend ? 0 : (w->unext - w->uend + (0 - w->uincr) - 1) / (0 - w->uincr);
  if (rem == 0) return false;
  unsigned long long c = w->uchunk ? w->uchunk : 1;
  if (w->guided) {
    unsigned long long q = (rem + nthreads - 1) / nthreads;
    if (q > c) c = q;
  }
  if (c > rem) c = rem;
  *istart = w->unext;
  if (c == rem) *iend = w->uend;
  else *iend = w->unext + c * w->uincr;
  w->unext = *iend;
  return true;
}
void loop_init(WorkShare *w, long start, long end, long incr, long chunk, bool guided) {
  if (w->init) return;
  w->init = true;
  w->next = start;
  w->end = end;
  w->incr = incr;
  w->chunk = chunk;
  w->guided = guided;
}
void loop_init_ull(WorkShare *w, bool up, unsigned long long start, unsigned long long end, unsigned long long incr,
                   unsigned long long chunk, bool guided) {
  if (w->init) return;
  w->init = true;
  w->ull = true;
  w->up = up;
  w->unext = start;
  w->uend = end;
  w->uincr = incr;
  w->uchunk = chunk;
  w->guided = guided;
}
int nthr() {
  Thr *t = self();
  return t && t->team ? t->team->size : 1;
}
} // namespace

extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { parallel(fn, data, n, (int)flags); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
  parallel(fn, data, n, (int)flags);
  return n ? n : (unsigned)default_threads();
}
void GOMP_barrier(void) {
  Thr *t = self();
  if (t) barrier(t->team);
}
bool GOMP_barrier_cancel(void) {
  GOMP_barrier();
  return false;
}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

// ---- dynamic loops (long)
#define LOOP(NAME, GUIDED)                                                                                           \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) {                                \
    WorkShare *w = enter_ws();                                                                                       \
    loop_init(w, s, e, i, c, GUIDED);                                                                                \
    return next_chunk(w, nthr(), is, ie);                                                                            \
  }                                                                                                                  \
  bool GOMP_loop_##NAME##_next(long *is, long *ie) { return next_chunk(self()->cur, nthr(), is, ie); }               \
  bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i,       \
                                    unsigned long long c, unsigned long long *is, unsigned long long *ie) {          \
    WorkShare *w = enter_ws();                                                                                       \
    loop_init_ull(w, up, s, e, i, c, GUIDED);                                                                        \
    return next_chunk_ull(w, nthr(), is, ie);                                                                        \
  }                                                                                                                  \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long *is, unsigned long long *ie) {                                 \
    return next_chunk_ull(self()->cur, nthr(), is, ie);                                                              \
  }                                                                                                                  \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c,         \
                                 unsigned flags);
LOOP(dynamic, false)
LOOP(guided, true)
LOOP(nonmonotonic_dynamic, false)
LOOP(nonmonotonic_guided, true)

#define LOOPR(NAME)                                                                                                  \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long *is, long *ie) {                                        \
    WorkShare *w = enter_ws();                                                                                       \
    loop_init(w, s, e, i, 1, false);                                                                                 \
    return next_chunk(w, nthr(), is, ie);                                                                            \
  }                                                                                                                  \
  bool GOMP_loop_##NAME##_next(long *is, long *ie) { return next_chunk(self()->cur, nthr(), is, ie); }               \
  bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i,       \
                                    unsigned long long *is, unsigned long long *ie) {                                \
    WorkShare *w = enter_ws();                                                                                       \
    loop_init_ull(w, up, s, e, i, 1, false);                                                                         \
    return next_chunk_ull(w, nthr(), is, ie);                                                                        \
  }                                                                                                                  \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long *is, unsigned long long *ie) {                                 \
    return next_chunk_ull(self()->cur, nthr(), is, ie);                                                              \
  }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)

static void par_loop(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, bool guided) {
  // the outlined function calls GOMP_loop_*_next directly: the work share has to exist beforehand
  struct Ctx {
    void (*fn)(void *);
    void *data;
    long s, e, i, c;
    bool guided;
  } ctx{fn, data, s, e, i, c, guided};
  parallel(
      [](void *p) {
        Ctx *x = (Ctx *)p;
        WorkShare *w = enter_ws();
        loop_init(w, x->s, x->e, x->i, x->c, x->guided);
        x->fn(x->data);
      },
      &ctx, n, 0);
}
#define PLOOP(NAME, GUIDED)                                                                                          \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c,         \
                                 unsigned) {                                                                         \
    par_loop(fn, data, n, s, e, i, c, GUIDED);                                                                       \
  }
PLOOP(dynamic, false)
PLOOP(guided, true)
PLOOP(nonmonotonic_dynamic, false)
PLOOP(nonmonotonic_guided, true)
#define PLOOPR(NAME)                                                                                                 \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned) {     \
    par_loop(fn, data, n, s, e, i, 1, false);                                                                        \
  }
PLOOPR(runtime)
PLOOPR(nonmonotonic_runtime)
PLOOPR(maybe_nonmonotonic_runtime)

void GOMP_loop_end(void) {
  Thr *t = self();
  t->cur = nullptr;
  barrier(t->team);
}
void GOMP_loop_end_nowait(void) { self()->cur = nullptr; }
bool GOMP_loop_end_cancel(void) {
  GOMP_loop_end();
  return false;
}

// ---- ordered (iterations are executed in order by taking turns; only the lock semantics matter here)
void GOMP_ordered_start(void) { g_critical.lock(); }
void GOMP_ordered_end(void) { g_critical.unlock(); }

// ---- sections
unsigned GOMP_sections_start(unsigned count) {
  WorkShare *w = enter_ws();
  loop_init(w, 1, (long)count + 1, 1, 1, false);
  long s, e;
  return next_chunk(w, nthr(), &s, &e) ? (unsigned)s : 0;
}
unsigned GOMP_sections_next(void) {
  long s, e;
  return next_chunk(self()->cur, nthr(), &s, &e) ? (unsigned)s : 0;
}
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned) {
  par_loop(fn, data, n, 1, (long)count + 1, 1, 1, false);
}
void GOMP_sections_end(void) { GOMP_loop_end(); }
void GOMP_sections_end_nowait(void) { GOMP_loop_end_nowait(); }
bool GOMP_sections_end_cancel(void) { return GOMP_loop_end_cancel(); }

// ---- single
bool GOMP_single_start(void) {
  if (!self()) return true;
  mc::point();
  WorkShare *w = enter_ws();
  self()->cur = nullptr;
  if (w->claimed) return false;
  w->claimed = true;
  return true;
}
void *GOMP_single_copy_start(void) {
  Thr *t = self();
  if (!t) return nullptr;
  mc::point();
  WorkShare *w = enter_ws();
  if (!w->claimed) {
    w->claimed = true;
    return nullptr;
  }
  barrier(t->team);
  t->cur = nullptr;
  return w->copy;
}
void GOMP_single_copy_end(void *data) {
  Thr *t = self();
  if (!t || !t->cur) return;
  t->cur->copy = data;
  t->cur = nullptr;
  barrier(t->team);
}

// ---- mutual exclusion
void GOMP_critical_start(void) { g_critical.lock(); }
void GOMP_critical_end(void) { g_critical.unlock(); }
void GOMP_critical_name_start(void **p) { g_named[p].lock(); }
void GOMP_critical_name_end(void **p) { g_named[p].unlock(); }
void GOMP_atomic_start(void) { g_atomic.lock(); }
void GOMP_atomic_end(void) { g_atomic.unlock(); }

// ---- explicit tasks
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align, bool if_,
               unsigned, void **, int) {
  Thr *t = self();
  char *buf = (char *)aligned_alloc(64, ((arg_size + 63) / 64 + 1) * 64);
  (void)arg_align;
  if (cpyfn) cpyfn(buf, data);
  else memcpy(buf, data, arg_size);
  if (!t || !t->team || !if_ || !mc::in_task()) {
    fn(buf);
    free(buf);
    return;
  }
  Team *team = t->team;
  Group *g = t->group;
  team->tasks++;
  t->children++;
  if (g) g->pending++;
  int tid = t->tid, level = t->level;
  mc::spawn([fn, buf, team, t, g, tid, level] {
    Thr me;
    me.team = team;
    me.tid = tid;
    me.level = level;
    me.group = g;
    mc::fiber_slot() = &me;
    fn(buf);
    free(buf);
    mc::wait_until([&me] { return me.children == 0; });
    mc::fiber_slot() = nullptr;
    mc::hb_release(&t->hb_children);
    mc::hb_release(&team->hb_barrier);
    mc::hb_release(&team->hb_join);
    if (g) {
      mc::hb_release(&g->hb);
      g->pending--;
    }
    t->children--;
    team->tasks--;
  }, -1, true);
}
void GOMP_taskwait(void) {
  Thr *t = self();
  if (!t) return;
  mc::wait_until([t] { return t->children == 0; });
  mc::hb_acquire(&t->hb_children);
}
void GOMP_taskyield(void) { mc::point(); }
void GOMP_taskgroup_start(void) {
  Thr *t = self();
  if (!t) return;
  Group *g = new Group;
  g->parent = t->group;
  t->group = g;
}
void GOMP_taskgroup_end(void) {
  Thr *t = self();
  if (!t || !t->group) return;
  Group *g = t->group;
  mc::wait_until([g] { return g->pending == 0; });
  mc::hb_acquire(&g->hb);
  t->group = g->parent;
  delete g;
}
static void taskloop(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align,
                     unsigned flags, unsigned long num_tasks, unsigned long iters, long start, long step) {
  unsigned long grain = 1;
  if (flags & (1 << 9)) grain = num_tasks; // GOMP_TASK_FLAG_GRAINSIZE
  else if (num_tasks) grain = (iters + num_tasks - 1) / num_tasks;
  if (!grain) grain = 1;
  bool nogroup = flags & (1 << 11);
  if (!nogroup) GOMP_taskgroup_start();
  for (unsigned long i = 0; i < iters; i += grain) {
    unsigned long e = i + grain < iters ? i + grain : iters;
    char *buf = (char *)aligned_alloc(64, ((arg_size + 63) / 64 + 1) * 64);
    if (cpyfn) cpyfn(buf, data);
    else memcpy(buf, data, arg_size);
    ((long *)buf)[0] = start + (long)i * step;
    ((long *)buf)[1] = start + (long)e * step;
    GOMP_task(fn, buf, nullptr, arg_size, arg_align, true, 0, nullptr, 0);
    free(buf);
  }
  if (!nogroup) GOMP_taskgroup_end();
}
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align,
                   unsigned flags, unsigned long num_tasks, int, long start, long end, long step) {
  long it = step > 0 ? (end - start + step - 1) / step : (start - end - step - 1) / -step;
  if (it < 0) it = 0;
  taskloop(fn, data, cpyfn, arg_size, arg_align, flags, num_tasks, (unsigned long)it, start, step);
}
void GOMP_taskloop_ull(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align,
                       unsigned flags, unsigned long num_tasks, int, unsigned long long start, unsigned long long end,
                       unsigned long long step) {
  bool up = flags & (1 << 8);
  unsigned long long it;
  if (up) it = end > start ? (end - start + step - 1) / step : 0;
  else it = start > end ? (start - end + (0 - step) - 1) / (0 - step) : 0;
  taskloop(fn, data, cpyfn, arg_size, arg_align, flags, num_tasks, it, (long)start, (long)step);
}

// ---- API
int omp_get_thread_num(void) { return self() ? self()->tid : 0; }
int omp_get_num_threads(void) { return nthr(); }
int omp_get_max_threads(void) { return default_threads(); }
void omp_set_num_threads(int n) { g_set_threads = n; }
int omp_get_num_procs(void) { return mc::env().omp_threads; }
int omp_in_parallel(void) { return nthr() > 1; }
void omp_set_dynamic(int d) { g_dynamic = d; }
int omp_get_dynamic(void) { return g_dynamic; }
void omp_set_nested(int n) { g_nested = n; }
int omp_get_nested(void) { return g_nested; }
int omp_get_level(void) { return self() ? self()->level : 0; }
int omp_get_active_level(void) { return nthr() > 1; }
int omp_get_thread_limit(void) { return mc::env().omp_limit ? mc::env().omp_limit : 1024; }
void omp_set_max_active_levels(int n) { g_nested = n > 1; }
int omp_get_max_active_levels(void) { return g_nested ? INT_MAX : 1; }
void omp_set_schedule(int k, int c) {
  g_sched_kind = k;
  g_sched_chunk = c;
}
void omp_get_schedule(int *k, int *c) {
  *k = g_sched_kind;
  *c = g_sched_chunk;
}
double omp_get_wtime(void) {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void *l) { g_locks[l] = mc::Lock(); }
void omp_destroy_lock(void *l) { g_locks.erase(l); }
void omp_set_lock(void *l) { g_locks[l].lock(); }
void omp_unset_lock(void *l) { g_locks[l].unlock(); }
int omp_test_lock(void *l) { return g_locks[l].try_lock(); }
void omp_init_nest_lock(void *l) { omp_init_lock(l); }
void omp_destroy_nest_lock(void *l) { omp_destroy_lock(l); }
void omp_set_nest_lock(void *l) {
  auto &n = g_nest[l];
  if (n.second && n.first == mc::current_task()) {
    n.second++;
    return;
  }
  g_locks[l].lock();
  g_nest[l] = {mc::current_task(), 1};
}
void omp_unset_nest_lock(void *l) {
  if (--g_nest[l].second == 0) g_locks[l].unlock();
}
int omp_test_nest_lock(void *l) {
  auto &n = g_nest[l];
  if (n.second && n.first == mc::current_task()) return ++n.second;
  if (!g_locks[l].try_lock()) return 0;
  g_nest[l] = {mc::current_task(), 1};
  return 1;
}
}
