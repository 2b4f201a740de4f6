// Deterministic simulator core: choice streams, scheduler, allocator, clock,
// entropy, event log, and the contract between a harness and the driver.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
// Every decision of a run is drawn from one of three streams. While searching,
// a stream is produced by a PRNG seeded from (VERIF_SEED, run number); every
// value is recorded. While replaying, the recorded values are fed back, and 0
// (always the simplest option) is used past the end.
enum Stream { WORK = 0, SCHED = 1, FAULT = 2, NSTREAMS = 3 };

uint32_t choose(Stream s, uint32_t n);                 // uniform in [0,n)
inline int between(int lo, int hi) { return lo + (int)choose(WORK, (uint32_t)(hi - lo + 1)); }
inline bool flip(Stream s, uint32_t num, uint32_t den) { // true with num/den; 0 = false
  return choose(s, den) >= den - num;
}
template <class T> const T &pick(const std::vector<T> &v) { return v[choose(WORK, v.size())]; }
uint32_t choose_gap(Stream s, uint32_t mean);          // 0 = never, else a gap >=1

// ---------------------------------------------------------------- run control
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void end_run_ok();                        // leave the run from any task
void known(const char *id);                            // a listed finding was met; the run ends without violation
bool listed(const char *id);                            // does the known-findings file list it
void event(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // hashed, kept in the trace
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // trace only
void stat(const char *name, uint64_t add = 1);
void state_hash(uint64_t h);                           // mixes into the state/interleaving measure
bool tracing();                                        // verbose replay
uint64_t run_index();
uint64_t steps();

void set_terminate_hook(std::function<void(const char *)> f);  // instead of class "terminate"
void set_crash_hook(std::function<void(int)> f);               // a signal in a task: instead of class "crash" if it does not return
bool crashed_in(const char *const *libs);                        // for a crash hook: did it happen in one of these libraries (null-terminated)
void set_exit_hook(std::function<void(int)> f);                // instead of class "exit"

// ---------------------------------------------------------------- tasks
struct Task;
Task *self();                                          // null outside tasks
int  task_id();
Task *spawn(const char *name, std::function<void()> fn);
void block_until(const char *why, const std::function<bool()> &pred);
void yield_point(const char *why);                     // may switch
void park_forever();                                   // task ends without unwinding
bool task_done(Task *t);
void make_lazy(Task *t, bool on);                      // runs only now and then while others can
// One phase in a process of its own; its memory is gone afterwards.
void in_child(const std::function<void()> &fn);
[[noreturn]] void leave_child();                       // ends the phase from any task
uint64_t *carry_data();                                // 64 numbers that survive the phase
// Run fns as concurrent simulated caller threads until all are done.
void run_concurrently(const std::vector<std::function<void()>> &fns);
// Abandon every task except the calling main one (used when a job is aborted).
extern bool g_job_over;
extern bool separate_processes;   // tasks stand for processes: what they share in this one is no concern of theirs

// scheduling knobs of the run
struct Knobs {
  uint32_t preempt_mean = 0;   // mean gap in accesses between pre-emptions; 0 = none
  uint32_t stall_den = 0;      // 1/den of the pre-empted tasks stay away for long; 0 = none
  uint64_t step_limit = 400000000ull;
  int omp_threads = 1;
};
extern Knobs knobs;
void arm_preemption();         // draw the first gap
void disarm_preemption();

// ---------------------------------------------------------------- memory
void heap_fill(int byte);                              // contents given to fresh memory
// The n-th operator new from now and the span-1 after it fail (0 = off); only
// those of at least min_size bytes count, and, unless in_libraries, only those
// asked for by code in the executable itself.
void alloc_fail_after(uint32_t n, uint32_t span = 1, size_t min_size = 0, bool in_libraries = true);
void alloc_code(const void *at);                       // counts the object this lies in as part of the executable
bool alloc_failed();                                   // did the armed failure fire
uint64_t live_blocks();
uint64_t live_bytes();
bool addr_ok(const void *p, size_t n);                 // false only if known to be bad

// ---------------------------------------------------------------- clock/entropy
struct Clock { int64_t now_ns = 1700000000000000000ll; int64_t step_ns = 1000; bool jumps = false; };
extern Clock clk;
extern bool clock_simulated;
extern uint64_t entropy_seed;
void set_entropy(uint64_t seed);                        // what the entropy source returns from now on

// ---------------------------------------------------------------- io
struct IoKnobs {
  bool armed = false;          // faults may fire
  uint32_t mean = 0;           // mean number of file operations between faults
  uint32_t kinds = 0;          // bit mask of IoFault
  uint64_t disk_budget = ~0ull;// bytes that may still be written
  uint32_t left = 0;           // faults still allowed
  uint32_t yield_den = 0;      // 1/den of the operations may switch task (0 = none)
  uint64_t crash_at = 0;       // run crash_fn before the crash_at-th operation
};
enum IoFault { F_OPEN = 1, F_READ_EIO = 2, F_READ_SHORT = 4, F_WRITE_EIO = 8, F_WRITE_ENOSPC = 16,
               F_WRITE_SHORT = 32, F_CLOSE = 64, F_FLUSH = 128, F_EINTR = 256, F_SEEK = 512, F_STAT=1024 };
extern IoKnobs io;
extern std::function<void()> *io_crash_fn;
extern std::function<void()> *io_op_hook;             // called before each file operation
void io_arm();
void io_disarm();
extern std::string scratch;    // only files below this are subject to faults
uint64_t io_faults_fired();    // hard faults since io_arm (not benign ones)
uint64_t io_ops();
uint64_t io_faults_in_strile_rewrite(); // failed writes made by libtiff's _TIFFRewriteField(), since io_arm

}  // namespace sim

// ---------------------------------------------------------------- harness side
struct Harness {
  const char *property;
  void (*run)();               // one simulated run
  void (*init)();              // once per process, before any fork (may be null)
};
extern Harness g_harnesses[];  // terminated by {nullptr}
