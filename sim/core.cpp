#include "core.hpp"
#include "shm.hpp"

#include <atomic>
#include <cerrno>
#include <climits>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <new>
#include <dlfcn.h>
#include <link.h>
#include <algorithm>
#include <execinfo.h>
#include <ucontext.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <ucontext.h>
#include <sys/time.h>

namespace sim {

Shm *shm = nullptr;
Knobs knobs;
Clock clk;
bool clock_simulated = false;
uint64_t entropy_seed = 0;
bool g_job_over = false;

// ------------------------------------------------------------------ hashing
static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xbf58476d1ce4e5b9ull;
  return h ^ (h >> 29);
}

// ------------------------------------------------------------------ choices
static uint64_t rng_state[NSTREAMS];
static uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint32_t in_pos[NSTREAMS];
static void put(Stream s, uint32_t v) {
  uint32_t &l = shm->out_len[s];
  if (l < MAX_CHOICES) shm->out[s][l++] = v;
}
uint32_t choose(Stream s, uint32_t n) {
  if (n == 0) n = 1;
  uint32_t v;
  if (shm->replay) {
    v = in_pos[s] < shm->in_len[s] ? shm->in[s][in_pos[s]++] : 0;
    if (v >= n) v = n - 1;
  } else {
    v = (uint32_t)((splitmix(rng_state[s]) >> 11) % n);
  }
  put(s, v);
  return v;
}
uint32_t choose_gap(Stream s, uint32_t mean) {
  if (mean == 0) return 0;
  uint32_t v;
  if (shm->replay) {
    v = in_pos[s] < shm->in_len[s] ? shm->in[s][in_pos[s]++] : 0;
  } else {
    // heavy-tailed around the mean: uniform in [1, 2*mean*2^k), k small
    uint64_t r = splitmix(rng_state[s]);
    uint32_t k = (r & 7) < 5 ? 0 : (r & 7) < 7 ? 2 : 4;
    uint64_t span = ((uint64_t)mean * 2) << k;
    v = 1 + (uint32_t)((r >> 8) % span);
  }
  put(s, v);
  return v;
}

uint64_t run_index() { return shm->run_index; }

// ------------------------------------------------------------------ events
bool tracing() { return shm && shm->verbose; }
void event(const char *fmt, ...) {
  if (!shm) return;
  char buf[600];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n >= (int)sizeof buf) n = sizeof buf - 1;
  uint64_t h = shm->ev_hash;
  for (int i = 0; i < n; i++) h = (h ^ (unsigned char)buf[i]) * 0x100000001b3ull;
  h = mix(h, task_id() + 2);
  shm->ev_hash = h;
  shm->events++;
  if (shm->verbose && shm->trace_len + n + 32 < TRACE_BYTES)
    shm->trace_len += snprintf(shm->trace + shm->trace_len, TRACE_BYTES - shm->trace_len, "[t%d] %s\n", task_id(), buf);
}
void note(const char *fmt, ...) {        // trace only: never hashed, never draws
  if (!shm || !shm->verbose || shm->trace_len + 700 > TRACE_BYTES) return;
  char buf[600];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  shm->trace_len += snprintf(shm->trace + shm->trace_len, TRACE_BYTES - shm->trace_len, "[t%d] %s\n", task_id(), buf);
}
void stat(const char *name, uint64_t add) {
  if (!shm) return;
  for (uint32_t i = 0; i < shm->ncounters; i++)
    if (!strncmp(shm->counters[i].name, name, sizeof(Counter::name) - 1)) { shm->counters[i].n += add; return; }
  if (shm->ncounters < MAX_COUNTERS) {
    Counter &c = shm->counters[shm->ncounters++];
    strncpy(c.name, name, sizeof c.name - 1); c.name[sizeof c.name - 1] = 0; c.n = add;
  }
}
void state_hash(uint64_t h) { shm->state_h = mix(shm->state_h, h); }

// ------------------------------------------------------------------ scheduler
struct Task {
  int id;
  const char *name;
  std::atomic<int> go{0};
  bool done = false;
  bool lazy = false;
  uint64_t stalled_until = 0;
  bool waiting = false;
  const std::function<bool()> *pred = nullptr;
  const char *why = "";
  std::function<void()> fn;
  pthread_t th{};
  void *stack = nullptr;
  // OpenMP state
  struct Team *team = nullptr;
  int tnum = 0;
  int level = 0;
  unsigned single_count = 0, ws_count = 0;
  struct Pool *pool = nullptr;   // helpers owned by this task
};

static std::vector<Task *> *tasks;
static Task *cur = nullptr;
static __thread Task *tself __attribute__((tls_model("initial-exec"))) = nullptr;
static __thread int in_rt __attribute__((tls_model("initial-exec"))) = 0;
static uint64_t acc = 0, next_stop = UINT64_MAX, next_preempt = UINT64_MAX;
static bool armed_preempt = false;

uint64_t steps() { return acc; }
Task *self() { return tself; }
int task_id() { return tself ? tself->id : -1; }
bool task_done(Task *t) { return t->done; }

static void fwait(Task *t) {
  while (t->go.load(std::memory_order_acquire) == 0)
    syscall(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  t->go.store(0, std::memory_order_release);
}
static void fwake(Task *t) {
  t->go.store(1, std::memory_order_release);
  syscall(SYS_futex, &t->go, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void set_stop() {
  next_stop = next_preempt < knobs.step_limit ? next_preempt : knobs.step_limit;
}
static void draw_gap() {
  if (!armed_preempt || knobs.preempt_mean == 0) { next_preempt = UINT64_MAX; set_stop(); return; }
  uint32_t g = choose_gap(SCHED, knobs.preempt_mean);
  next_preempt = g ? acc + g : UINT64_MAX;
  set_stop();
}
void arm_preemption() { armed_preempt = true; draw_gap(); }
void disarm_preemption() { armed_preempt = false; next_preempt = UINT64_MAX; set_stop(); }

void leave_child();
static void finish_process() __attribute__((noreturn));
static void finish_process() {
  shm->steps = acc;
  shm->sim_ns = (uint64_t)(clk.now_ns - 1700000000000000000ll);
  // stdio is not flushed: another task may be inside it, holding its lock
  _exit(0);
}
void fail(const char *cls, const char *fmt, ...) {
  if (shm->outcome == O_NONE) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(shm->detail, sizeof shm->detail, fmt, ap);
    va_end(ap);
    strncpy(shm->cls, cls, sizeof shm->cls - 1);
    shm->outcome = O_VIOLATION;
    event("VIOLATION %s: %s", cls, shm->detail);
  }
  finish_process();
}
void end_run_ok() {
  if (shm->outcome == O_NONE) shm->outcome = O_OK;
  finish_process();
}
bool listed(const char *id) {
  const char *e = getenv("RDSIM_KNOWN");
  if (!e) return false;
  std::string l = std::string(",") + e + ",";
  return l.find(std::string(",") + id + ",") != std::string::npos;
}
void known(const char *id) {
  if (shm->outcome == O_NONE) {
    strncpy(shm->known_id, id, sizeof shm->known_id - 1);
    shm->outcome = O_KNOWN;
  }
  finish_process();
}

static void switch_to(Task *t) {
  Task *me = tself;
  if (t == me) return;
  shm->switches++;
  shm->inter_hash = mix(mix(shm->inter_hash, t->id), acc);
  cur = t;
  fwake(t);
  fwait(me);
}

static bool runnable(Task *t) {
  if (t->done) return false;
  if (!t->waiting) return true;
  return (*t->pred)();
}

// allocation in the runtime must not disturb the arena: use a small static vector
struct Cand { Task *v[256]; int n = 0; };
static void collect(Cand &c, Task *except) {
  for (Task *t : *tasks) if (t != except && runnable(t) && c.n < 256) c.v[c.n++] = t;
}

// Slow tasks run only now and then while others can.
static bool any_lazy = false;
void make_lazy(Task *t, bool on) { t->lazy = on; if (on) any_lazy = true; }
static uint64_t last_stall = 0;    // no task is stalled any more from this step on
static Task *pick_task(Cand &c) {
  if (last_stall > acc && c.n > 1) {
    Cand f;
    for (int i = 0; i < c.n; i++) if (c.v[i]->stalled_until <= acc) f.v[f.n++] = c.v[i];
    if (f.n) c = f;
  }
  if (any_lazy && c.n > 1) {
    Cand f;
    for (int i = 0; i < c.n; i++) if (!c.v[i]->lazy) f.v[f.n++] = c.v[i];
    if (f.n && f.n < c.n && choose(SCHED, 24) != 23) return f.v[f.n > 1 ? choose(SCHED, f.n) : 0];
  }
  return c.v[choose(SCHED, c.n)];
}
static void preempt_now() {
  Cand c; collect(c, tself);
  if (c.n) {
    Task *t = pick_task(c);
    if (knobs.stall_den && choose(SCHED, knobs.stall_den) == knobs.stall_den - 1) {
      static const uint32_t M[] = {300, 3000, 30000};
      tself->stalled_until = acc + choose_gap(SCHED, M[choose(SCHED, 3)]);
      if (tself->stalled_until > last_stall) last_stall = tself->stalled_until;
      stat("stalls");
    }
    if (shm->verbose) note("preempt at access %llu -> t%d", (unsigned long long)acc, t->id);
    switch_to(t);
  }
}

void block_until(const char *why, const std::function<bool()> &pred) {
  in_rt++;
  Task *me = tself;
  while (!pred()) {
    if (++acc >= knobs.step_limit) fail("no-progress", "step limit %llu reached while waiting (%s)", (unsigned long long)knobs.step_limit, why);
    me->waiting = true; me->pred = &pred; me->why = why;
    Cand c; collect(c, me);
    if (!c.n) {
      std::string s;
      for (Task *t : *tasks) if (!t->done) { s += t->name; s += "#" + std::to_string(t->id) + " waits for "; s += t->waiting ? t->why : "?"; s += "; "; }
      fail("deadlock", "no task can run: %s", s.c_str());
    }
    Task *t = pick_task(c);
    switch_to(t);
    me->waiting = false; me->pred = nullptr;
  }
  me->waiting = false; me->pred = nullptr;
  in_rt--;
}
void yield_point(const char *why) {
  in_rt++;
  if (++acc >= knobs.step_limit) fail("no-progress", "step limit reached at %s", why);
  Cand c; c.v[c.n++] = tself; collect(c, tself);
  Task *t = pick_task(c);
  switch_to(t);
  in_rt--;
}

static void slow_stop() {
  if (acc >= knobs.step_limit) {
    in_rt++;
    fail("no-progress", "more than %llu memory accesses without finishing", (unsigned long long)knobs.step_limit);
  }
  if (acc >= next_preempt) {
    in_rt++;
    draw_gap();
    preempt_now();
    in_rt--;
  }
}

// ------------------------------------------------------------------ task threads
static constexpr size_t STACK = 16ull << 20;
static uintptr_t next_stack = 0x300000000000ull;

static void task_finish(Task *me) {
  in_rt++;
  me->done = true;
  Cand c; collect(c, me);
  if (!c.n) {
    bool all = true;
    for (Task *t : *tasks) if (!t->done) all = false;
    if (!all) {
      std::string s;
      for (Task *t : *tasks) if (!t->done) { s += t->name; s += "#" + std::to_string(t->id) + " waits for "; s += t->waiting ? t->why : "?"; s += "; "; }
      fail("deadlock", "no task can run: %s", s.c_str());
    }
    fail("internal", "every task ended");
  }
  Task *t = pick_task(c);
  shm->switches++;
  shm->inter_hash = mix(mix(shm->inter_hash, t->id), acc);
  cur = t;
  fwake(t);
}
void park_forever() {
  task_finish(tself);
  for (;;) pause();
}
static void *task_main(void *p) {
  Task *t = (Task *)p;
  tself = t;
  // A stack that has run out is reported from another one.
  constexpr size_t AS = 64 << 10;
  void *as = mmap(nullptr, AS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (as != MAP_FAILED) { stack_t ss{}; ss.ss_sp = as; ss.ss_size = AS; sigaltstack(&ss, nullptr); }
  fwait(t);
  t->fn();
  task_finish(t);
  for (;;) pause();      // the thread stays until the process ends: TLS is never torn down mid-run
  return nullptr;
}
Task *spawn(const char *name, std::function<void()> fn) {
  in_rt++;
  Task *t = new Task;
  t->id = tasks->size();
  t->name = name;
  t->fn = std::move(fn);
  tasks->push_back(t);
  pthread_attr_t a; pthread_attr_init(&a);
  void *st = mmap((void *)next_stack, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (st == MAP_FAILED) { perror("sim: stack"); _exit(97); }
  next_stack += STACK + (1 << 20);
  t->stack = st;
  pthread_attr_setstack(&a, st, STACK);
  if (pthread_create(&t->th, &a, task_main, t)) { perror("sim: pthread_create"); _exit(97); }
  pthread_attr_destroy(&a);
  in_rt--;
  return t;
}
void run_concurrently(const std::vector<std::function<void()>> &fns) {
  std::vector<Task *> ts;
  for (auto &f : fns) ts.push_back(spawn("caller", f));
  std::function<bool()> pred = [&] { for (auto *t : ts) if (!t->done) return false; return true; };
  block_until("callers", pred);
}

// ------------------------------------------------------------------ arena
static constexpr uintptr_t ARENA = 0x200000000000ull;
static constexpr uintptr_t ARENA_SIZE = 8ull << 30;
static constexpr uintptr_t SHADOW = 0x280000000000ull;
static uintptr_t arena_top = 0;      // 0 = inactive
static int fill_byte = 0xCB;
static uint64_t n_live = 0, b_live = 0;
static uint32_t fail_after = 0, fail_span = 1;
static bool fail_fired = false, fail_lib = true;
static size_t fail_min = 0;
void heap_fill(int b) { fill_byte = b; }
void alloc_fail_after(uint32_t n, uint32_t span, size_t min_size, bool in_libraries) {
  fail_after = n; fail_span = span; fail_min = min_size; fail_lib = in_libraries; fail_fired = false;
}
bool alloc_failed() { return fail_fired; }
uint64_t live_blocks() { return n_live; }
uint64_t live_bytes() { return b_live; }

struct Hdr { uint64_t magic; uint64_t size; uint64_t dyn; uint64_t pad; };
static constexpr uint64_t MAGIC = 0x51b10cafe0ddba11ull, DEAD = 0xdeadb10cdeadb10cull;
static inline int8_t *shadow_of(uintptr_t p) { return (int8_t *)(SHADOW + ((p - ARENA) >> 3)); }

static void arena_init() {
  void *a = mmap((void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *s = mmap((void *)SHADOW, ARENA_SIZE >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a == MAP_FAILED || s == MAP_FAILED) { perror("sim: arena"); _exit(97); }
  arena_top = ARENA + 4096;
}

static void bad_access(uintptr_t p, size_t n, bool w) {
  in_rt++;
  // find the nearest header below for the report
  fail("memory-error", "%s of %zu bytes at %s heap address (offset %#llx)", w ? "write" : "read", n,
       *shadow_of(p) == -1 ? "a freed" : "an out-of-bounds", (unsigned long long)(p - ARENA));
}
static inline void check_mem(uintptr_t p, size_t n, bool w) {
  int8_t *s = shadow_of(p);
  size_t off = p & 7;
  if (off + n <= 8) {
    int8_t v = *s;
    if (__builtin_expect(v != 8 && (v <= 0 || (size_t)v < off + n), 0)) bad_access(p, n, w);
  } else {
    uintptr_t e = p + n;
    for (uintptr_t q = p; q < e;) {
      uintptr_t nx = (q | 7) + 1; size_t m = (nx < e ? nx : e) - q;
      int8_t v = *shadow_of(q);
      if (v != 8 && (v <= 0 || (size_t)v < (q & 7) + m)) bad_access(q, m, w);
      q = nx;
    }
  }
}
bool addr_ok(const void *pp, size_t n) {
  uintptr_t p = (uintptr_t)pp;
  if (!arena_top || p - ARENA >= ARENA_SIZE || n == 0) return true;
  for (uintptr_t q = p; q < p + n; q++) {
    int8_t v = *shadow_of(q);
    if (v <= 0 || (uintptr_t)v <= (q & 7)) return false;
  }
  return true;
}

static void *sim_alloc(size_t n) {
  // arena chunk: Hdr(32) + n, red zone to the next 16 boundary + 16
  uintptr_t p = arena_top + sizeof(Hdr);
  size_t tot = ((n + 15) & ~(size_t)15) + 32;
  if (p + tot > ARENA + ARENA_SIZE) {
    const char m[] = "sim: arena exhausted\n"; (void)!write(2, m, sizeof m - 1); _exit(96);
  }
  arena_top = p + tot;
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  h->magic = MAGIC; h->size = n;
  memset((void *)p, fill_byte, n);
  memset((void *)(p + n), 0xA7, tot - n);
  int8_t *s = shadow_of(p);
  memset(s, 8, n >> 3);
  if (n & 7) s[n >> 3] = (int8_t)(n & 7);
  n_live++; b_live += n;
  return (void *)p;
}
static void sim_free(void *v) {
  uintptr_t p = (uintptr_t)v;
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  if (h->magic != MAGIC) {
    in_rt++;
    fail("memory-error", h->magic == DEAD ? "heap block freed twice (offset %#llx)" : "free of a pointer that is not a live heap block (offset %#llx)", (unsigned long long)(p - ARENA));
  }
  size_t n = h->size, tot = ((n + 15) & ~(size_t)15) + 32;
  for (size_t i = n; i < tot; i++)
    if (((unsigned char *)p)[i] != 0xA7) { in_rt++; fail("memory-error", "bytes past the end of a heap block of %zu bytes were overwritten", n); }
  h->magic = DEAD;
  memset(shadow_of(p), -1, (n + 7) >> 3);
  if (n > 65536) madvise((void *)((p + 4095) & ~4095ull), ((p + n) & ~4095ull) > ((p + 4095) & ~4095ull) ? ((p + n) & ~4095ull) - ((p + 4095) & ~4095ull) : 0, MADV_DONTNEED);
  else if (n) memset((void *)p, 0xDD, n < 64 ? n : 64);
  n_live--; b_live -= n;
}

extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);

extern "C" char __executable_start, etext;
static char *code_lo, *code_hi;
void alloc_code(const void *at) {
  Dl_info d; link_map *m = nullptr; code_lo = code_hi = nullptr;
  if (!dladdr1(at, &d, (void **)&m, RTLD_DL_LINKMAP)) return;
  code_lo = (char *)d.dli_fbase;
  dl_iterate_phdr([](dl_phdr_info *i, size_t, void *) {
    if ((char *)i->dlpi_addr == code_lo)
      for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) code_hi = std::max(code_hi, code_lo + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz);
    return 0; }, nullptr);
}
static inline bool in_exe(void *ra) { return ((char *)ra >= &__executable_start && (char *)ra < &etext) || ((char *)ra >= code_lo && (char *)ra < code_hi); }
// ra: where the allocation was asked for. Third-party libraries (GDAL) are not
// made to run out of memory: they do not survive it, whatever richdem does.
static inline void *op_new(size_t n, bool nothrow, void *ra) {
  if (arena_top && tself && !in_rt) {
    if (fail_after && n >= fail_min && (fail_lib || in_exe(ra))) {
      if (--fail_after == 0) {
        fail_fired = true;
        if (fail_span > 1) { fail_span--; fail_after = 1; }
        stat("fault.out-of-memory");
        if (nothrow) return nullptr;
        throw std::bad_alloc();
      }
    }
    if (n > (3ull << 30)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    return sim_alloc(n);
  }
  void *p = __libc_malloc(n ? n : 1);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
static inline void op_delete(void *p) {
  if (!p) return;
  if (arena_top && (uintptr_t)p - ARENA < ARENA_SIZE) { sim_free(p); return; }
  __libc_free(p);
}
}  // namespace sim

void *operator new(size_t n) { return sim::op_new(n, false, __builtin_return_address(0)); }
void *operator new[](size_t n) { return sim::op_new(n, false, __builtin_return_address(0)); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::op_new(n, true, __builtin_return_address(0)); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::op_new(n, true, __builtin_return_address(0)); }
void operator delete(void *p) noexcept { sim::op_delete(p); }
void operator delete[](void *p) noexcept { sim::op_delete(p); }
void operator delete(void *p, size_t) noexcept { sim::op_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim::op_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::op_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::op_delete(p); }

namespace sim {
// ------------------------------------------------------------------ access hook
static inline __attribute__((always_inline)) void hook(uintptr_t p, size_t n, bool w) {
  if (__builtin_expect(!tself || in_rt, 0)) return;
  if (p - ARENA < ARENA_SIZE) check_mem(p, n, w);
  if (__builtin_expect(++acc >= next_stop, 0)) slow_stop();
}
static inline void hook_step() {
  if (!tself || in_rt) return;
  if (++acc >= next_stop) slow_stop();
}
}  // namespace sim

extern "C" {
using sim::hook;
#define RW(n) \
  void __tsan_read##n(void *p) { hook((uintptr_t)p, n, false); } \
  void __tsan_write##n(void *p) { hook((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { hook((uintptr_t)p, n, false); } \
  void __tsan_unaligned_write##n(void *p) { hook((uintptr_t)p, n, true); } \
  void __tsan_volatile_read##n(void *p) { hook((uintptr_t)p, n, false); } \
  void __tsan_volatile_write##n(void *p) { hook((uintptr_t)p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *p) { hook((uintptr_t)p, n, false); } \
  void __tsan_unaligned_volatile_write##n(void *p) { hook((uintptr_t)p, n, true); } \
  void __tsan_read_write##n(void *p) { hook((uintptr_t)p, n, true); } \
  void __tsan_unaligned_read_write##n(void *p) { hook((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) hook((uintptr_t)p, n, false); }
void __tsan_write_range(void *p, size_t n) { if (n) hook((uintptr_t)p, n, true); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// The simulation runs one thread at a time, so plain operations are atomic;
// the hook before each is where another task may run.
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int) { hook((uintptr_t)a, sizeof(T), false); return *a; } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) { hook((uintptr_t)a, sizeof(T), true); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { hook((uintptr_t)a, sizeof(T), true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { hook((uintptr_t)a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { hook((uintptr_t)a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { hook((uintptr_t)a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { hook((uintptr_t)a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { hook((uintptr_t)a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { hook((uintptr_t)a, sizeof(T), true); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { hook((uintptr_t)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { hook((uintptr_t)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { hook((uintptr_t)a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
AT(128, unsigned __int128)

// Function-local statics: the loser of a race waits in the simulator, not in a futex.
int __cxa_guard_acquire(uint64_t *g) {
  volatile uint8_t *b = (volatile uint8_t *)g;
  if (b[0]) return 0;
  if (sim::tself) {
    if (b[1]) {
      std::function<bool()> pr = [=] { return b[1] == 0; };
      sim::block_until("static initialiser", pr);
      if (b[0]) return 0;
    }
  } else if (b[1]) { abort(); }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t *g) { volatile uint8_t *b = (volatile uint8_t *)g; b[0] = 1; b[1] = 0; }
void __cxa_guard_abort(uint64_t *g) { volatile uint8_t *b = (volatile uint8_t *)g; b[1] = 0; }

// Mutexes taken by tasks: never block the only running thread.
static int (*real_lock)(pthread_mutex_t *), (*real_trylock)(pthread_mutex_t *), (*real_unlock)(pthread_mutex_t *);
static int (*real_cwait)(pthread_cond_t *, pthread_mutex_t *);
static void init_mutex() {
  if (real_lock) return;
  real_trylock = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  real_unlock = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  real_cwait = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_cond_wait");
  real_lock = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!real_lock) init_mutex();
  if (!sim::tself || sim::in_rt) return real_lock(m);
  int r = real_trylock(m);
  if (r != EBUSY) return r;
  std::function<bool()> pr = [=] {
    int q = real_trylock(m);
    if (q == 0) { real_unlock(m); return true; }
    return q != EBUSY;
  };
  for (;;) {
    sim::block_until("mutex", pr);
    r = real_trylock(m);
    if (r != EBUSY) return r;
  }
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!real_lock) init_mutex();
  if (!sim::tself || sim::in_rt) return real_cwait(c, m);
  // A legal spurious wake-up after letting others run.
  real_unlock(m);
  sim::yield_point("condition variable");
  return pthread_mutex_lock(m);
}
}  // extern "C"

namespace sim {
// ------------------------------------------------------------------ clock, entropy
static uint64_t ent_state = 0;
void set_entropy(uint64_t seed) { entropy_seed = seed; ent_state = 0; }
static int64_t sim_now() {
  clk.now_ns += clk.step_ns;
  if (clk.now_ns > (1ll << 62)) clk.now_ns = 1ll << 62;      // no overflow of our own making
  if (clk.jumps && choose(FAULT, 12) == 11) {
    static const int64_t J[] = {-1, -1000000000ll, -86400ll * 1000000000ll, 1000000000ll, 86400ll * 365 * 1000000000ll, -clk.now_ns};
    int64_t j = J[choose(FAULT, 6)];
    if (j == -clk.now_ns) j = -clk.now_ns + 1;
    clk.now_ns += j;
    stat(j < 0 ? "fault.clock-back" : "fault.clock-ahead");
  }
  return clk.now_ns;
}
}
extern "C" {
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (sim::clock_simulated && sim::tself && !sim::in_rt) {
    int64_t n = sim::sim_now();
    ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000;
    if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
    return 0;
  }
  return syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *t) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
// Sleeping passes simulated time and lets others run.
static void sim_sleep(const struct timespec *t) { if (t) sim::clk.now_ns += t->tv_sec * 1000000000ll + t->tv_nsec; sim::yield_point("sleep"); }
int nanosleep(const struct timespec *t, struct timespec *r) { if (sim::tself && !sim::in_rt) { sim_sleep(t); return 0; } return syscall(SYS_nanosleep, t, r); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) {
  if (sim::tself && !sim::in_rt) { if (fl) { struct timespec d{0, 1000000}; sim_sleep(&d); } else sim_sleep(t); return 0; }
  return syscall(SYS_clock_nanosleep, c, fl, t, r) ? errno : 0;
}
int usleep(unsigned us) { struct timespec t{us / 1000000, (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { struct timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
int sched_yield(void) { if (sim::tself && !sim::in_rt) { sim::yield_point("sched_yield"); return 0; } return syscall(SYS_sched_yield); }
// std::random_device
unsigned _ZNSt13random_device9_M_getvalEv(void *) {
  sim::stat("entropy.reads");
  if (sim::ent_state == 0) sim::ent_state = sim::entropy_seed * 0x9e3779b97f4a7c15ull + 1;
  return (unsigned)sim::splitmix(sim::ent_state);
}
ssize_t getrandom(void *b, size_t n, unsigned) {
  if (sim::ent_state == 0) sim::ent_state = sim::entropy_seed * 0x9e3779b97f4a7c15ull + 1;
  for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)sim::splitmix(sim::ent_state);
  return n;
}
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
}

namespace sim {
static std::function<void(int)> *exit_hook = nullptr;
void set_exit_hook(std::function<void(int)> f) { exit_hook = new std::function<void(int)>(std::move(f)); }
static void sim_exit(int code) {
  if (exit_hook && tself) (*exit_hook)(code);
  fail("exit", "the code under test ended the process with exit(%d)", code);
}
}
extern "C" void exit(int code) {
  if (sim::tself) { sim::sim_exit(code); }
  static void (*real)(int) = (void (*)(int))dlsym(RTLD_NEXT, "exit");
  real(code);
  __builtin_unreachable();
}
namespace sim {
// ------------------------------------------------------------------ run life cycle
std::string scratch;
static std::function<void(int)> *crash_hook = nullptr;
void set_crash_hook(std::function<void(int)> f) { crash_hook = f ? new std::function<void(int)>(std::move(f)) : nullptr; }
static void *crash_pc = nullptr;
bool crashed_in(const char *const *libs) {
  in_rt++;
  void *a[64]; int n = backtrace(a, 64), i = 0; bool r = false;
  while (i < n && a[i] != crash_pc) i++;
  for (; i < n; i++) {
    Dl_info d;
    if (!dladdr(a[i], &d) || !d.dli_fname) break;
    if (strstr(d.dli_fname, "/libc.so") || strstr(d.dli_fname, "/libstdc++")) continue;
    for (; *libs; libs++) if (strstr(d.dli_fname, *libs)) r = true;
    break;
  }
  in_rt--;
  return r;
}
static void on_signal(int sig, siginfo_t *si, void *uc) {
  crash_pc = (void *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  if (crash_hook && tself && !in_rt && sig != SIGXCPU) (*crash_hook)(sig);
  in_rt++;
  const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGABRT ? "SIGABRT" : sig == SIGILL ? "SIGILL" : sig == SIGXCPU ? "SIGXCPU (no end within the CPU limit of a run)" : "signal";
  if (shm && shm->outcome == O_NONE) {
    // async-signal safe enough: one thread runs
    strcpy(shm->cls, sig == SIGXCPU ? "hang" : "crash");
    snprintf(shm->detail, sizeof shm->detail, "the process received %s in task %d", n, task_id());
    (void)si;
    shm->outcome = O_VIOLATION;
    shm->ev_hash = mix(shm->ev_hash, sig);
  }
  shm->steps = acc;
  _exit(0);
}
static std::function<void(const char *)> *terminate_hook = nullptr;
void set_terminate_hook(std::function<void(const char *)> f) { terminate_hook = new std::function<void(const char *)>(std::move(f)); }
static void on_terminate() {
  in_rt++;
  std::string what = "unknown";
  if (auto e = std::current_exception()) {
    try { std::rethrow_exception(e); }
    catch (std::exception &x) { what = x.what(); }
    catch (...) {}
  }
  if (terminate_hook && tself) { in_rt--; (*terminate_hook)(what.c_str()); }
  fail("terminate", "std::terminate was called: uncaught exception '%s'", what.c_str());
}
static char sigstack[65536];

void child_begin() {
  for (int s = 0; s < NSTREAMS; s++) {
    uint64_t x = shm->seed * 0x9e3779b97f4a7c15ull ^ (shm->run_index + 1) * 0xd1342543de82ef95ull ^ (uint64_t)(s + 1) * 0xaf251af3b0f025b5ull;
    splitmix(x);
    rng_state[s] = x;
    in_pos[s] = 0; shm->out_len[s] = 0;
  }
  shm->outcome = O_NONE; shm->cls[0] = shm->detail[0] = shm->known_id[0] = 0;
  shm->ev_hash = 0xcbf29ce484222325ull; shm->inter_hash = 1; shm->state_h = 1;
  shm->steps = shm->switches = shm->sim_ns = shm->events = 0;
  shm->ncounters = 0; shm->trace_len = 0; shm->carry.valid = false; memset(shm->carry.user, 0, sizeof shm->carry.user);
  stack_t ss{}; ss.ss_sp = sigstack; ss.ss_size = sizeof sigstack; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; 
  for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGABRT, SIGILL, SIGXCPU}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  init_mutex();
}

void child_main(void (*run)()) {
  child_begin();
  tasks = new std::vector<Task *>;
  tasks->reserve(1024);
  arena_init();
  entropy_seed = 12345;
  Task *m = spawn("main", [run] { run(); end_run_ok(); });
  cur = m;
  set_stop();
  fwake(m);
  for (;;) pause();
}

// Runs fn in a forked copy of this process, waits for it, and goes on with the
// choice streams where the copy left them: a phase whose process state is gone.
void in_child(const std::function<void()> &fn) {
  in_rt++;
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) _exit(93);
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(200);
    in_rt--;
    fn();
    leave_child();
  }
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) _exit(92);
  if (shm->outcome != O_NONE || !shm->carry.valid) _exit(0);
  for (int s = 0; s < NSTREAMS; s++) { rng_state[s] = shm->carry.rng[s]; in_pos[s] = shm->carry.pos[s]; }
  acc = shm->carry.acc; ent_state = shm->carry.ent; clk.now_ns = shm->carry.now;
  shm->carry.valid = false;
  set_stop();
  in_rt--;
}
void leave_child() {
  in_rt++;
  for (int s = 0; s < NSTREAMS; s++) { shm->carry.rng[s] = rng_state[s]; shm->carry.pos[s] = in_pos[s]; }
  shm->carry.acc = acc; shm->carry.ent = ent_state; shm->carry.now = clk.now_ns;
  shm->carry.valid = true;
  _exit(0);
}
uint64_t *carry_data() { return shm->carry.user; }

// Random-number stream for the runtime pieces (OpenMP) lives in omp.cpp.
Task *task_self_checked() { return tself; }
void rt_enter() { in_rt++; }
void rt_leave() { in_rt--; }
void hook_yield() { hook_step(); }
bool in_runtime() { return in_rt != 0; }
struct Team *&task_team(Task *t) { return t->team; }
int &task_tnum(Task *t) { return t->tnum; }
int &task_level(Task *t) { return t->level; }
unsigned &task_ws(Task *t) { return t->ws_count; }
unsigned &task_single(Task *t) { return t->single_count; }
struct Pool *&task_pool(Task *t) { return t->pool; }
}  // namespace sim
