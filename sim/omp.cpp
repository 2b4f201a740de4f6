// Our own OpenMP runtime (the GOMP ABI gcc compiles to): team threads are tasks
// of the simulator, so which one runs next is always a recorded choice.
#include "core.hpp"
#include <climits>
#include <ctime>
#include <cstdlib>
#include <cstring>
#include <map>

namespace sim {
void rt_enter(); void rt_leave(); void hook_yield();
struct Lock { Task *owner = nullptr; int depth = 0; };
struct WS { long next = 0, end = 0, incr = 1, chunk = 1; bool guided = false, init = false; unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1; bool up = true; bool single_taken = false; void *copy = nullptr; long ordered_next = 0; int sections_next = 1, sections = 0; };
struct Team {
  int n = 1; int arrived = 0; unsigned gen = 0; int running = 0;
  std::map<unsigned, WS> ws;
};
struct Helper { Task *t = nullptr; void (*fn)(void *) = nullptr; void *data = nullptr; Team *team = nullptr; int tnum = 0; int level = 0; };
struct Pool { std::vector<Helper *> h; };
Team *&task_team(Task *);
int &task_tnum(Task *);
int &task_level(Task *);
unsigned &task_ws(Task *);
unsigned &task_single(Task *);
Pool *&task_pool(Task *);

struct RT { RT() { rt_enter(); } ~RT() { rt_leave(); } };

static Lock g_atomic, g_critical;
static std::map<void *, Lock> *g_named;
static Lock &named(void *p) { RT r; if (!g_named) g_named = new std::map<void *, Lock>; return (*g_named)[p]; }

static void lock(Lock &l, const char *why) {
  Task *me = self();
  if (!me) return;
  hook_yield();
  std::function<bool()> pr;
  { RT r; pr = [&l] { return l.owner == nullptr; }; }
  if (l.owner) { stat("omp.contended"); block_until(why, pr); }
  l.owner = me;
  RT r; pr = nullptr;
}
static void unlock(Lock &l) { if (!self()) return; l.owner = nullptr; hook_yield(); }

static void barrier() {
  Task *me = self();
  if (!me) return;
  Team *t = task_team(me);
  if (!t || t->n == 1) return;
  hook_yield();
  unsigned g = t->gen;
  if (++t->arrived == t->n) { t->arrived = 0; t->gen++; hook_yield(); return; }
  std::function<bool()> pr;
  { RT r; pr = [t, g] { return t->gen != g; }; }
  block_until("barrier", pr);
  RT r; pr = nullptr;
}

static void helper_loop(Helper *h) {
  std::function<bool()> pr;
  { RT r; pr = [h] { return h->fn != nullptr; }; }
  for (;;) {
    block_until("idle team thread", pr);
    Task *me = self();
    task_team(me) = h->team; task_tnum(me) = h->tnum; task_level(me) = h->level; task_ws(me) = 0; task_single(me) = 0;
    h->fn(h->data);
    Team *t = h->team;
    h->fn = nullptr;
    task_team(me) = nullptr;
    t->running--;
  }
}

static int max_threads() { return knobs.omp_threads < 1 ? 1 : knobs.omp_threads; }

static void parallel(void (*fn)(void *), void *data, unsigned nreq, const std::function<void(Team *)> *setup) {
  Task *me = self();
  if (!me) { fn(data); return; }
  int lvl = task_level(me);
  int n = lvl >= 1 ? 1 : nreq ? (int)nreq : max_threads();
  if (n > 64) n = 64;
  stat("omp.regions");
  if (n > 1) stat("omp.parallel-regions");
  Team *saved = task_team(me); int stn = task_tnum(me); unsigned sws = task_ws(me), ssg = task_single(me);
  Team *t;
  {
    RT r;
    t = new Team; t->n = n;
    if (setup) (*setup)(t);
    if (n > 1) {
      Pool *&p = task_pool(me);
      if (!p) p = new Pool;
      while ((int)p->h.size() < n - 1) {
        Helper *h = new Helper;
        p->h.push_back(h);
        h->t = spawn("omp", [h] { helper_loop(h); });
      }
      t->running = n - 1;
      for (int i = 0; i < n - 1; i++) {
        Helper *h = p->h[i];
        h->data = data; h->team = t; h->tnum = i + 1; h->level = lvl + 1; h->fn = fn;
      }
    }
  }
  task_team(me) = t; task_tnum(me) = 0; task_level(me) = lvl + 1; task_ws(me) = 0; task_single(me) = 0;
  if (n > 1) hook_yield();
  fn(data);
  if (n > 1) {
    std::function<bool()> pr;
    { RT r; pr = [t] { return t->running == 0; }; }
    block_until("end of parallel region", pr);
    RT r; pr = nullptr;
  }
  task_team(me) = saved; task_tnum(me) = stn; task_level(me) = lvl; task_ws(me) = sws; task_single(me) = ssg;
  RT r; delete t;
}

static WS &ws_of() { Task *me = self(); RT r; return task_team(me)->ws[task_ws(me)]; }
static WS &ws_next() {
  Task *me = self(); RT r;
  if (!task_team(me)) { task_team(me) = new Team; }
  return task_team(me)->ws[++task_ws(me)];
}
static bool ws_grab(WS &w, long *is, long *ie) {
  hook_yield();
  long left = w.incr > 0 ? w.end - w.next : w.next - w.end;
  if (left <= 0) return false;
  long step = w.incr > 0 ? w.incr : -w.incr;
  long iters = (left + step - 1) / step;
  long c = w.chunk < 1 ? 1 : w.chunk;
  if (w.guided) { Task *me = self(); long q = iters / task_team(me)->n; if (q > c) c = q; }
  if (c > iters) c = iters;
  *is = w.next; w.next += c * w.incr; *ie = w.next;
  if (w.incr > 0 ? *ie > w.end : *ie < w.end) *ie = w.end;
  return true;
}
static bool ws_ugrab(WS &w, unsigned long long *is, unsigned long long *ie) {
  hook_yield();
  long long left = w.up ? (long long)(w.uend - w.unext) : (long long)(w.unext - w.uend);
  if (left <= 0) return false;
  long long step = w.up ? (long long)w.uincr : -(long long)w.uincr;
  long long iters = (left + step - 1) / step, c = w.uchunk < 1 ? 1 : w.uchunk;
  if (w.guided) { long long q = iters / task_team(self())->n; if (q > c) c = q; }
  if (c > iters) c = iters;
  *is = w.unext; w.unext += c * w.uincr; *ie = w.unext;
  return true;
}
static bool loop_start(long s, long e, long inc, long chunk, bool guided, long *is, long *ie) {
  WS &w = ws_next();
  if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = inc; w.chunk = chunk; w.guided = guided; }
  return ws_grab(w, is, ie);
}
static bool uloop_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long chunk, bool guided, unsigned long long *is, unsigned long long *ie) {
  WS &w = ws_next();
  if (!w.init) { w.init = true; w.up = up; w.unext = s; w.uend = e; w.uincr = inc; w.uchunk = chunk; w.guided = guided; }
  return ws_ugrab(w, is, ie);
}
static void ploop(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, long chunk, bool guided) {
  std::function<void(Team *)> setup = [&](Team *t) { WS &w = t->ws[0]; w.init = true; w.next = s; w.end = e; w.incr = inc; w.chunk = chunk; w.guided = guided; };
  parallel(fn, data, n, &setup);
}
}  // namespace sim
using namespace sim;

extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); return n; }
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { lock(g_critical, "critical section"); }
void GOMP_critical_end() { unlock(g_critical); }
void GOMP_critical_name_start(void **p) { lock(named(p), "named critical section"); }
void GOMP_critical_name_end(void **p) { unlock(named(p)); }
void GOMP_atomic_start() { lock(g_atomic, "atomic region"); }
void GOMP_atomic_end() { unlock(g_atomic); }
bool GOMP_single_start() { WS &w = ws_next(); hook_yield(); if (w.single_taken) return false; w.single_taken = true; return true; }
void *GOMP_single_copy_start() { WS &w = ws_next(); hook_yield(); if (!w.single_taken) { w.single_taken = true; return nullptr; } barrier(); return w.copy; }
void GOMP_single_copy_end(void *d) { ws_of().copy = d; barrier(); }

#define LOOPS(kind, g) \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, g, is, ie); } \
  bool GOMP_loop_##kind##_next(long *is, long *ie) { return ws_grab(ws_of(), is, ie); } \
  bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { return uloop_start(up, s, e, i, c, g, is, ie); } \
  bool GOMP_loop_ull_##kind##_next(unsigned long long *is, unsigned long long *ie) { return ws_ugrab(ws_of(), is, ie); } \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(fn, d, n, s, e, i, c, g); }
LOOPS(static, false) LOOPS(dynamic, false) LOOPS(guided, true)
LOOPS(nonmonotonic_dynamic, false) LOOPS(nonmonotonic_guided, true)
#define LOOPR(kind) \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, false, is, ie); } \
  bool GOMP_loop_##kind##_next(long *is, long *ie) { return ws_grab(ws_of(), is, ie); } \
  bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *is, unsigned long long *ie) { return uloop_start(up, s, e, i, 1, false, is, ie); } \
  bool GOMP_loop_ull_##kind##_next(unsigned long long *is, unsigned long long *ie) { return ws_ugrab(ws_of(), is, ie); } \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1, false); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier(); return false; }

unsigned GOMP_sections_start(unsigned n) { WS &w = ws_next(); hook_yield(); if (!w.init) { w.init = true; w.sections = n; w.sections_next = 1; } return w.sections_next <= w.sections ? w.sections_next++ : 0; }
unsigned GOMP_sections_next() { WS &w = ws_of(); hook_yield(); return w.sections_next <= w.sections ? w.sections_next++ : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned) {
  std::function<void(Team *)> setup = [&](Team *t) { WS &w = t->ws[0]; w.init = true; w.sections = cnt; w.sections_next = 1; };
  parallel(fn, d, n, &setup);
}
void GOMP_ordered_start() { lock(named((void *)1), "ordered region"); }
void GOMP_ordered_end() { unlock(named((void *)1)); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
  hook_yield();
  if (cpy) {
    char *buf; { RT r; buf = (char *)malloc(size + align); }
    char *arg = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));
    cpy(arg, data); fn(arg);
    RT r; free(buf);
  } else fn(data);
  hook_yield();
}
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned, unsigned long, int, long s, long e, long) {
  char *buf; { RT r; buf = (char *)malloc(size + align); }
  char *arg = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));
  if (cpy) cpy(arg, data); else memcpy(arg, data, size);
  ((long *)arg)[0] = s; ((long *)arg)[1] = e;
  fn(arg);
  RT r; free(buf);
}
void GOMP_taskwait() { hook_yield(); }
void GOMP_taskyield() { hook_yield(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() { hook_yield(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

int omp_get_thread_num() { return self() ? task_tnum(self()) : 0; }
int omp_get_num_threads() { return self() && task_team(self()) ? task_team(self())->n : 1; }
int omp_get_max_threads() { return self() && task_level(self()) >= 1 ? max_threads() : max_threads(); }
int omp_get_num_procs() { return max_threads(); }
int omp_in_parallel() { return self() && task_team(self()) && task_team(self())->n > 1; }
int omp_get_level() { return self() ? task_level(self()) : 0; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_team_size(int) { return omp_get_num_threads(); }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : omp_get_thread_num(); }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
int omp_get_thread_limit() { return INT_MAX; }
void omp_set_num_threads(int n) { if (n > 0) knobs.omp_threads = n > 64 ? 64 : n; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int *k, int *c) { *k = 1; *c = 0; }
double omp_get_wtime() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
double omp_get_wtick() { return 1e-9; }
struct omp_lock_ { Lock *l; };
void omp_init_lock(omp_lock_ *l) { RT r; l->l = new Lock; }
void omp_destroy_lock(omp_lock_ *) {}
void omp_set_lock(omp_lock_ *l) { lock(*l->l, "omp lock"); }
void omp_unset_lock(omp_lock_ *l) { unlock(*l->l); }
int omp_test_lock(omp_lock_ *l) { hook_yield(); if (l->l->owner) return 0; l->l->owner = self(); return 1; }
}
