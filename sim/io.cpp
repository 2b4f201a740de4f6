// The file system seam. Every file operation the code under test (richdem,
// libstdc++ streams, libgdal) performs on a file below sim::scratch passes
// here; the FAULT stream decides which of them fail, and how.
#include "core.hpp"
#include <sys/mman.h>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <stdio_ext.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
void rt_enter(); void rt_leave(); void hook_yield();
bool in_runtime();
IoKnobs io;
std::function<void()> *io_crash_fn = nullptr;
std::function<void()> *io_op_hook = nullptr;
static uint64_t fired = 0, ops = 0;
static uint32_t gap = 0;
struct Fd { bool tracked, writable; };
static Fd fds[4096];

static uint64_t in_strile = 0;
uint64_t io_faults_in_strile_rewrite() { return in_strile; }
// Was this write asked for by libtiff's _TIFFRewriteField()? (GDAL ignores what
// becomes of it.)
static void note_write_fault() {
  rt_enter();
  void *a[64]; int n = backtrace(a, 64);
  for (int i = 0; i < n; i++) {
    Dl_info d;
    if (dladdr(a[i], &d) && d.dli_sname && !strcmp(d.dli_sname, "_TIFFRewriteField")) { in_strile++; break; }
  }
  rt_leave();
}
uint64_t io_faults_fired() { return fired; }
uint64_t io_ops() { return ops; }
void io_arm() { io.armed = true; fired = 0; in_strile = 0; ops = 0; gap = io.mean ? choose_gap(FAULT, io.mean) : 0; }
void io_disarm() { io.armed = false; }

static bool mine(const char *path) {
  if (!path || !self() || in_runtime() || scratch.empty()) return false;
  if (!strncmp(path, "./", 2)) path += 2;
  size_t n = scratch.size();
  return !strncmp(path, scratch.c_str(), n) && path[n] == '/';
}
static bool sim_fd(int fd) { return fd >= 0 && fd < 4096 && fds[fd].tracked && self() && !in_runtime(); }

static const char *fname(IoFault f) {
  switch (f) {
    case F_OPEN: return "fault.open";
    case F_READ_EIO: return "fault.read-eio";
    case F_READ_SHORT: return "fault.read-short(benign)";
    case F_WRITE_EIO: return "fault.write-eio";
    case F_WRITE_ENOSPC: return "fault.write-enospc";
    case F_WRITE_SHORT: return "fault.write-short(benign)";
    case F_CLOSE: return "fault.close";
    case F_FLUSH: return "fault.flush";
    case F_EINTR: return "fault.eintr(benign)";
    case F_SEEK: return "fault.seek";
    default: return "fault.other";
  }
}
static bool benign(IoFault f) { return f == F_READ_SHORT || f == F_WRITE_SHORT || f == F_EINTR; }

// Where a fault strikes, for the reader of a trace.
static void note_stack() {
  rt_enter();
  void *a[40]; int n = backtrace(a, 40);
  std::string t;
  for (int i = 3; i < n; i++) {
    Dl_info d;
    if (!dladdr(a[i], &d) || !d.dli_fname) continue;
    const char *b = strrchr(d.dli_fname, '/'); b = b ? b + 1 : d.dli_fname;
    char *dm = d.dli_sname ? abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, nullptr) : nullptr;
    std::string nm = dm ? dm : d.dli_sname ? d.dli_sname : "?"; free(dm);
    size_t c = nm.find('('); if (c != std::string::npos && c) nm.resize(c);
    t += " < " + nm + " [" + std::string(b).substr(0, 12) + "]";
  }
  rt_leave();
  note("  at%s", t.c_str());
}
// Called before each operation: which of the candidate faults happens, if any.
static int before(const char *op, uint32_t cand, const char *what) {
  hook_yield();
  if (io_op_hook) (*io_op_hook)();
  if (io.yield_den && choose(SCHED, io.yield_den) == io.yield_den - 1) yield_point("file operation");
  if (!io.armed) return 0;
  ops++;
  if (io.crash_at && ops == io.crash_at && io_crash_fn) { stat("fault.crash"); event("io#%llu %s %s: crash here", (unsigned long long)ops, op, what); (*io_crash_fn)(); }
  if (!io.left || !gap) return 0;
  if (gap > 1) { gap--; return 0; }
  cand &= io.kinds;
  if (!cand) return 0;                     // fires at the next operation that can fail so
  int k[32], n = 0;
  for (int i = 0; i < 16; i++) if (cand & (1u << i)) k[n++] = 1 << i;
  IoFault f = (IoFault)k[choose(FAULT, n)];
  io.left--;
  gap = choose_gap(FAULT, io.mean);
  if (!benign(f)) fired++;
  stat(fname(f));
  event("io#%llu %s %s: %s", (unsigned long long)ops, op, what, fname(f));
  if (tracing()) note_stack();
  return f;
}
// Bytes of this write the disk still takes.
static size_t budget(size_t n) {
  if (!io.armed || n <= io.disk_budget) { if (io.armed) io.disk_budget -= n; return n; }
  size_t m = io.disk_budget;
  io.disk_budget = 0;
  fired++;
  note_write_fault();
  stat("fault.disk-full");
  event("io#%llu disk full after %zu of %zu bytes", (unsigned long long)ops, m, n);
  return m;
}
static int pick_errno(int f) {
  return f == F_WRITE_ENOSPC || f == F_FLUSH ? ENOSPC : f == F_OPEN ? (choose(FAULT, 2) ? EMFILE : EIO) : EIO;
}
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)

static void track(int fd, bool w) { if (fd >= 0 && fd < 4096) fds[fd] = {true, w}; }
static bool exists(const char *p) { struct stat st; rt_enter(); bool r = ::stat(p, &st) == 0; rt_leave(); return r; }
static bool open_fault(const char *op, const char *path, bool w, bool create) {
  if (!create && !exists(path)) return false;
  size_t n = strlen(path);
  if (n > 8 && !strcmp(path + n - 8, ".aux.xml")) return false;
  int f = before(op, F_OPEN, path);
  if (f) { errno = pick_errno(f); return true; }
  (void)w;
  return false;
}
// What is being written now is what stdio had buffered.
static __thread int flushing = 0;
struct Flushing { Flushing() { flushing++; } ~Flushing() { flushing--; } };
template <class G> static ssize_t do_read(size_t n, const G &go) {
  int f = before("read", F_READ_EIO | F_READ_SHORT | F_EINTR, "");
  if (f == F_READ_EIO) { errno = EIO; return -1; }
  if (f == F_EINTR) { errno = EINTR; return -1; }
  if (f == F_READ_SHORT && n > 1) n = 1 + choose(FAULT, n > 64 ? 64 : n - 1);
  return go(n);
}
template <class G> static ssize_t do_write(size_t n, const G &go) {
  int f = before(flushing ? "flush" : "write", F_WRITE_EIO | F_WRITE_ENOSPC | F_WRITE_SHORT | F_EINTR | (flushing ? F_FLUSH : 0), "");
  if (f && f != F_WRITE_SHORT) note_write_fault();
  if (f == F_EINTR) { errno = EINTR; return -1; }
  if (f == F_WRITE_EIO || f == F_WRITE_ENOSPC || f == F_FLUSH) {
    size_t part = n ? choose(FAULT, n > 1000 ? 1000 : n) : 0;
    if (part) { ssize_t r = go(part); (void)r; }
    errno = pick_errno(f);
    return -1;
  }
  if (f == F_WRITE_SHORT && n > 1) n = 1 + choose(FAULT, n - 1);
  size_t b = budget(n);
  if (b == 0 && n) { errno = ENOSPC; return -1; }
  return go(b);
}
}  // namespace sim
using namespace sim;

// A stdio stream is glibc's own over a descriptor whose system calls pass here:
// buffering, and what a failing system call does to a stream, are real.
namespace sim {
struct Stream2 { FILE *f; int fd; };
static Stream2 streams[1024];
static int stream_fd(FILE *f) { for (auto &s : streams) if (s.f == f) return s.fd; return -1; }
#define SYS(name) static auto sys_##name = (decltype(&::name))dlsym(RTLD_NEXT, #name)
static ssize_t ck_read(void *c, char *b, size_t n) {
  SYS(read); int fd = (int)(intptr_t)c;
  if (!sim_fd(fd)) return sys_read(fd, b, n);
  return do_read(n, [&](size_t k) { return sys_read(fd, b, k); });
}
static ssize_t ck_write(void *c, const char *b, size_t n) {   // all of it or until an error, as glibc does for files
  SYS(write); int fd = (int)(intptr_t)c; size_t done = 0;
  while (done < n) {
    ssize_t r = sim_fd(fd) ? do_write(n - done, [&](size_t k) { return sys_write(fd, b + done, k); }) : sys_write(fd, b + done, n - done);
    if (r < 0) break;
    done += r;
  }
  return done;
}
// libtiff can go round in circles in a file whose directory a fault destroyed
// while it was being written (TIFFRewriteDirectory follows it forever).
static const uint32_t SEEK_LIMIT = 400000;
static uint32_t seeks = 0;
static void endless() {
  rt_enter();
  void *a[64]; int n = backtrace(a, 64); bool tiff = false;
  for (int i = 0; i < n; i++) { Dl_info d; if (dladdr(a[i], &d) && d.dli_sname && !strcmp(d.dli_sname, "TIFFRewriteDirectory")) tiff = true; }
  rt_leave();
  if (tiff && fired && listed("gdal-rewrite-loop")) known("gdal-rewrite-loop");
  fail("hang", "more than %u seeks in files: %s", SEEK_LIMIT, tiff ? "libtiff's TIFFRewriteDirectory() does not end" : "this does not end");
}
static int ck_seek(void *c, off64_t *o, int w) {
  if (++seeks > SEEK_LIMIT) endless();
  int fd = (int)(intptr_t)c;
  if (sim_fd(fd)) before("lseek", 0, "");               // no file system fails this
  off64_t r = lseek64(fd, *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
static int ck_close(void *c) {
  SYS(close); int fd = (int)(intptr_t)c;
  int k = 0;
  if (sim_fd(fd)) k = fds[fd].writable ? before("close", F_CLOSE, "") : before("close", 0, "");
  if (fd >= 0 && fd < 4096) fds[fd].tracked = false;
  int r = sys_close(fd);
  if (k) { errno = EIO; return -1; }
  return r;
}
// How much memory the process takes depends on the machine: it always reads the same here.
static bool is_status(const char *p) { return !strcmp(p, "/proc/self/status"); }
static int status_fd() {
  int fd = memfd_create("status", 0);
  static const char T[] = "Name:\tsim\nVmPeak:\t  654321 kB\nVmSize:\t  654321 kB\nVmHWM:\t   54321 kB\nVmRSS:\t   54321 kB\nThreads:\t1\n";
  SYS(write);
  if (fd >= 0 && (sys_write(fd, T, sizeof T - 1) < 0 || lseek64(fd, 0, SEEK_SET) < 0)) {}
  return fd;
}
static FILE *do_fopen(FILE *(*real)(const char *, const char *), const char *path, const char *mode) {
  if (is_status(path)) { int fd = status_fd(); return fd < 0 ? nullptr : fdopen(fd, "r"); }
  if (!mine(path)) return real(path, mode);
  bool plus = strchr(mode, '+'), w = *mode == 'w' || *mode == 'a' || plus, c = *mode != 'r';
  if (open_fault(c ? "create" : "open", path, w, c)) return nullptr;
  int flags = (plus ? O_RDWR : *mode == 'r' ? O_RDONLY : O_WRONLY) | (*mode == 'w' ? O_CREAT | O_TRUNC : *mode == 'a' ? O_CREAT | O_APPEND : 0) | (strchr(mode, 'x') ? O_EXCL : 0);
  SYS(open);
  int fd = sys_open(path, flags, 0666);
  if (fd < 0) return nullptr;
  rt_enter();
  FILE *f = fopencookie((void *)(intptr_t)fd, mode, {ck_read, ck_write, ck_seek, ck_close});
  rt_leave();
  track(fd, w); stat("io.opens");
  for (auto &s : streams) if (!s.f) { s = {f, fd}; break; }
  return f;
}
}
extern "C" {
FILE *fopen(const char *p, const char *m) { REAL(fopen); return do_fopen(real, p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); return do_fopen(real, p, m); }
int fileno(FILE *f) noexcept { REAL(fileno); int fd = stream_fd(f); return fd >= 0 ? fd : real(f); }
static int do_open(int (*real)(const char *, int, ...), const char *p, int flags, int mode) {
  if (is_status(p)) return status_fd();
  bool m = mine(p), w = (flags & O_ACCMODE) != O_RDONLY;
  if (m && open_fault("open", p, w, flags & O_CREAT)) return -1;
  int fd = real(p, flags, mode);
  if (fd >= 0 && m) { track(fd, w); stat("io.opens"); }
  return fd;
}
#define MODE() int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(); REAL(open); return do_open(real, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(); REAL(open64); return do_open(real, p, flags, mode); }
ssize_t read(int fd, void *b, size_t n) { REAL(read); if (!sim_fd(fd)) return real(fd, b, n); return do_read(n, [&](size_t k) { return real(fd, b, k); }); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(pread64); if (!sim_fd(fd)) return real(fd, b, n, o); return do_read(n, [&](size_t k) { return real(fd, b, k, o); }); }
ssize_t readv(int fd, const struct iovec *v, int c) { REAL(readv); return real(fd, v, c); }
ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (!sim_fd(fd)) return real(fd, b, n); return do_write(n, [&](size_t k) { return real(fd, b, k); }); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(writev);
  if (!sim_fd(fd)) return real(fd, v, c);
  size_t n = 0;
  for (int i = 0; i < c; i++) n += v[i].iov_len;
  return do_write(n, [&](size_t k) -> ssize_t {
    ssize_t done = 0;
    static auto rw = (decltype(&write))dlsym(RTLD_NEXT, "write");
    for (int i = 0; i < c && k; i++) {
      size_t m = v[i].iov_len < k ? v[i].iov_len : k;
      if (!m) continue;
      ssize_t r = rw(fd, v[i].iov_base, m);
      if (r < 0) return done ? done : r;
      done += r; k -= r;
      if ((size_t)r < m) break;
    }
    return done;
  });
}
int fflush(FILE *f) { REAL(fflush); Flushing g; return real(f); }
int fclose(FILE *f) {
  REAL(fclose);
  for (auto &s : streams) if (s.f == f) s = {nullptr, -1};
  Flushing g;
  return real(f);
}
int fseeko64(FILE *f, off64_t o, int w) { REAL(fseeko64); Flushing g; return real(f, o, w); }
int fseeko(FILE *f, off_t o, int w) { REAL(fseeko); Flushing g; return real(f, o, w); }
int fseek(FILE *f, long o, int w) { REAL(fseek); Flushing g; return real(f, o, w); }
int close(int fd) {
  REAL(close);
  if (!sim_fd(fd)) { if (fd >= 0 && fd < 4096) fds[fd].tracked = false; return real(fd); }
  int k = fds[fd].writable ? before("close", F_CLOSE, "") : before("close", 0, "");
  fds[fd].tracked = false;
  int r = real(fd);
  if (k) { errno = EIO; return -1; }
  return r;
}
int ftruncate64(int fd, off64_t l) {
  REAL(ftruncate64);
  if (!sim_fd(fd)) return real(fd, l);
  if (before("ftruncate", F_WRITE_ENOSPC, "")) { errno = ENOSPC; return -1; }
  return real(fd, l);
}
}

// GDAL's driver registration is not thread-safe: two overlapping calls corrupt
// its heap. The seam makes it a possible switch point and reports an overlap.
bool sim::separate_processes = false;
extern "C" void GDALAllRegister(void) {
  static void (*real)(void) = (void (*)(void))dlsym(RTLD_NEXT, "GDALAllRegister");
  static int inside = 0;
  if (sim::self() && !sim::separate_processes) {
    if (inside) sim::fail("concurrent-registration", "GDALAllRegister is called by one thread while another is inside it");
    inside++;
    sim::yield_point("GDALAllRegister");
  }
  real();
  if (sim::self()) { sim::yield_point("GDALAllRegister"); inside--; }
}
