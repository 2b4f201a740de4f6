// A message-passing transport inside the simulator: ranks are tasks, messages
// are queues, and every freedom the standard gives an implementation (when a
// send completes, when a message arrives, which message a wildcard receive
// takes, when a non-blocking send reads its buffer, whether MPI_Finalize
// synchronises) is decided by the schedule stream.
#include "mpi.hpp"
#include "mpi/mpi.h"
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
using namespace sim;
namespace sim { void rt_enter(); void rt_leave(); void make_lazy(Task *t, bool); extern std::function<void()> *io_op_hook; }

struct simmpi_msg {
  int src, dst, tag, dt; uint64_t id; std::vector<char> data; const void *buf = nullptr; size_t n = 0;
  bool captured = false, matched = false, sync = false; uint64_t hash = 0;
};
struct simmpi_req {
  bool send; simmpi_msg *m = nullptr; bool buffered = false;   // a send is complete when buffered or matched
  int rank, src, tag; void *buf; size_t n; bool done = false; MPI_Status st{}; bool freed = false;
};
namespace simmpi {
struct RT { RT() { rt_enter(); } ~RT() { rt_leave(); } };
struct Coll { int kind, root; size_t bytes; int op, dt; std::vector<std::vector<char>> in; std::vector<bool> entered; int n = 0; std::vector<char> out; };
struct Rank {
  Task *t = nullptr; bool inited = false, finalized = false, returned = false; int rc = 0;
  std::vector<simmpi_msg *> inbox; std::vector<simmpi_req *> posted; std::vector<simmpi_req *> sends;
  uint64_t calls = 0, coll = 0; simmpi_msg *probed = nullptr; size_t probed_n = 0; int probed_tag = 0, probed_src = 0;
};
struct Job {
  Config c; std::vector<Rank> r; std::map<std::pair<int, int>, std::deque<simmpi_msg *>> chan; std::vector<Coll *> colls; std::vector<Coll *> self;
  uint64_t ids = 0; Result res; int alive = 0, finalizing = 0; std::map<int, int> rank_of;
};
static Job *J = nullptr;

static int rank_of(Task *t) {
  if (!J || !t) return -1;
  for (size_t i = 0; i < J->r.size(); i++) if (J->r[i].t == t) return i;
  return -1;
}
int current_rank() { return rank_of(self()); }
uint64_t calls(int rank) { return J ? J->r[rank].calls : 0; }

[[noreturn]] static void job_failed(int rank, const std::string &why) {
  rt_enter();
  std::string w = why;
  event("rank %d failed: %s", rank, w.c_str());
  if (J->res.end == RUNNING) { J->res.end = FAILED; J->res.rank = rank; J->res.why = w; }
  rt_leave();
  if (J->c.on_failure) J->c.on_failure(rank, w);
  park_forever();
  __builtin_unreachable();
}
static void die_here(int me) {
  stat("fault.rank-death");
  event("rank %d dies", me);
  if (J->res.end == RUNNING) { J->res.end = FAILED; J->res.rank = me; J->res.why = "the process was killed"; }
  park_forever();
}
void count_call() {
  int me = current_rank();
  if (me < 0) return;
  J->r[me].calls++;
  if (J->c.death_rank == me && J->r[me].calls == J->c.death_at) die_here(me);
}
static Rank &enter(const char *what, bool need_init = true) {
  int me = current_rank();
  if (me < 0) fail("internal", "%s called outside a rank", what);
  count_call();
  yield_point(what);
  Rank &r = J->r[me];
  if (need_init && (!r.inited || r.finalized)) fail("message-protocol", "rank %d calls %s %s", me, what, r.inited ? "after MPI_Finalize" : "before MPI_Init");
  return r;
}
static int me() { return current_rank(); }
static size_t dsize(int dt) { return dt >> 8; }
static uint64_t fnv(const void *p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char *)p)[i]) * 1099511628211ull; return h; }

static void capture(simmpi_msg *m) {
  if (m->captured) return;
  if (m->n && !addr_ok(m->buf, m->n)) fail("send-buffer-freed", "rank %d freed the buffer of a message to rank %d (tag %d, %zu bytes) before the message was sent", m->src, m->dst, m->tag, m->n);
  m->data.assign((const char *)m->buf, (const char *)m->buf + m->n);
  if (fnv(m->data.data(), m->n) != m->hash) fail("send-buffer-changed", "rank %d changed the buffer of a message to rank %d (tag %d, %zu bytes) before the message was sent", m->src, m->dst, m->tag, m->n);
  m->captured = true;
}
static bool fits(simmpi_msg *m, int src, int tag) { return !m->matched && (src == MPI_ANY_SOURCE || m->src == src) && (tag == MPI_ANY_TAG || m->tag == tag); }
// The messages a receive or probe may take: for each sender the earliest that fits.
static std::vector<simmpi_msg *> candidates(Rank &r, int src, int tag) {
  std::vector<simmpi_msg *> v;
  for (auto *m : r.inbox) if (fits(m, src, tag)) {
    bool seen = false;
    for (auto *o : v) if (o->src == m->src) seen = true;
    if (!seen) v.push_back(m);
  }
  return v;
}
static simmpi_msg *pick_one(std::vector<simmpi_msg *> v) {
  if (v.empty()) return nullptr;
  if (v.size() > 1) stat("mpi.wildcard-choices");
  return v[v.size() > 1 ? choose(SCHED, v.size()) : 0];
}
static bool available(Rank &r, int src, int tag) { for (auto *m : r.inbox) if (fits(m, src, tag)) return true; return false; }
static void take(Rank &r, simmpi_msg *m) {
  capture(m);
  m->matched = true;
  for (size_t i = 0; i < r.inbox.size(); i++) if (r.inbox[i] == m) { r.inbox.erase(r.inbox.begin() + i); break; }
}
static void fill(MPI_Status *st, simmpi_msg *m) { if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = MPI_SUCCESS; st->sim_bytes = m->n; st->sim_cancelled = 0; } }
static void deliver_into(int rank, simmpi_msg *m, void *buf, size_t cap, int dt) {
  if (m->n > cap) fail("message-truncated", "rank %d receives a message of %zu bytes (from rank %d, tag %d) into a buffer of %zu", rank, m->n, m->src, m->tag, cap);
  if (m->n && !addr_ok(buf, m->n)) fail("memory-error", "rank %d receives into memory it does not hold", rank);
  if (dt != m->dt && dt != MPI_BYTE && m->dt != MPI_BYTE) fail("message-kind", "rank %d receives a message of another data type than was sent (from rank %d, tag %d)", rank, m->src, m->tag);
  memcpy(buf, m->data.data(), m->n);
}
// Non-blocking receives take their messages in the order they were posted.
static void progress(Rank &r) {
  for (size_t i = 0; i < r.posted.size();) {
    simmpi_req *q = r.posted[i];
    simmpi_msg *m = pick_one(candidates(r, q->src, q->tag));
    if (!m) { i++; continue; }
    take(r, m);
    deliver_into(q->rank, m, q->buf, q->n, m->dt);
    fill(&q->st, m); q->done = true;
    r.posted.erase(r.posted.begin() + i);
  }
}
static bool posted_ready(Rank &r) { for (auto *q : r.posted) if (available(r, q->src, q->tag)) return true; return false; }

static simmpi_msg *send(Rank &r, const void *buf, int n, int dt, int dst, int tag, bool blocking) {
  (void)r;
  if (dst < 0 || dst >= J->c.ranks) fail("message-protocol", "rank %d sends to rank %d of %d", me(), dst, J->c.ranks);
  if (n < 0 || tag < 0) fail("message-protocol", "rank %d sends %d items with tag %d", me(), n, tag);
  auto *m = new simmpi_msg;
  m->src = me(); m->dst = dst; m->tag = tag; m->dt = dt; m->id = ++J->ids; m->buf = buf; m->n = n * dsize(dt);
  if (m->n && !addr_ok(buf, m->n)) fail("memory-error", "rank %d sends memory it does not hold", me());
  m->hash = fnv(buf, m->n);
  event("%d>%d tag %d %zu bytes", m->src, dst, tag, m->n);
  stat("mpi.messages"); stat("mpi.bytes", m->n);
  if (!blocking && J->c.late_buffers) stat("mpi.late-buffer-sends");
  else capture(m);
  J->chan[{m->src, dst}].push_back(m);
  if (J->r[dst].finalized) fail("message-left", "rank %d sends to rank %d (tag %d), which has left with MPI_Finalize", m->src, dst, tag);
  return m;
}
static bool rendezvous(size_t n) {
  switch (J->c.send) {
    case Config::EAGER: return false;
    case Config::RENDEZVOUS: return true;
    case Config::BY_SIZE: return n > J->c.eager_limit;
    default: return choose(SCHED, 2);
  }
}
static void await(const char *why, const std::function<bool()> &p) { block_until(why, p); }

static void network(Job *j) {
  for (;;) {
    std::function<bool()> p = [j] { if (j != J || j->res.end != RUNNING) return false; for (auto &c : j->chan) if (!c.second.empty()) return true; return false; };
    await("network", p);
    RT rt;
    std::vector<std::deque<simmpi_msg *> *> v;
    for (auto &c : j->chan) if (!c.second.empty()) v.push_back(&c.second);
    auto *q = v[v.size() > 1 ? choose(SCHED, v.size()) : 0];
    simmpi_msg *m = q->front(); q->pop_front();
    j->r[m->dst].inbox.push_back(m);
    stat("mpi.deliveries");
    if (choose(SCHED, 12) == 11) {               // speeds change
      int k = choose(SCHED, j->c.ranks);
      make_lazy(j->r[k].t, choose(SCHED, 2));
      stat("mpi.speed-changes");
    }
  }
}

void draw_transport(Config &c) {
  c.send = (Config::SendMode)choose(SCHED, 4);
  static const uint32_t L[] = {0, 16, 100, 400, 1000};
  c.eager_limit = L[choose(SCHED, 5)];
  c.late_buffers = choose(SCHED, 2);
  c.finalize_waits = choose(SCHED, 2);
  static const char *N[] = {"transport.eager", "transport.rendezvous", "transport.by-size", "transport.mixed"};
  stat(N[c.send]);
}

static std::string current_what(const char *w) { return std::string("uncaught exception: ") + w; }

Result run_job(const Config &c) {
  Job *j = new Job;
  {
    RT rt;
    j->c = c; j->r.resize(c.ranks); J = j; separate_processes = true;
    std::function<void()> *h = new std::function<void()>([] { count_call(); });
    io_op_hook = h;
  }
  set_terminate_hook([](const char *w) { int r = current_rank(); if (r >= 0) job_failed(r, current_what(w)); });
  set_exit_hook([](int code) {
    int r = current_rank();
    if (r < 0) return;
    if (code == 0 && J->r[r].finalized) { J->r[r].returned = true; park_forever(); }
    job_failed(r, "exit(" + std::to_string(code) + ")");
  });
  if (c.crash_is_failure) set_crash_hook([](int sig) { int r = current_rank(); if (r >= 0) { stat("rank-crashed"); job_failed(r, "signal " + std::to_string(sig)); } });
  for (int i = 0; i < c.ranks; i++) {
    static const char *names[] = {"rank0", "rank1", "rank2", "rank3", "rank4", "rank5", "rank6", "rank7"};
    Task *t = spawn(names[i & 7], [j, i] {
      std::vector<char *> argv;
      { RT rt; for (auto &s : j->c.args) argv.push_back(strdup(s.c_str())); argv.push_back(nullptr); }
      int rc = j->c.entry[i]((int)argv.size() - 1, argv.data());
      Rank &r = j->r[i];
      r.rc = rc;
      event("rank %d returns %d", i, rc);
      if (rc != 0 && r.finalized && j->c.may_refuse) { j->res.refused++; j->res.rank0_refused |= i == 0; }
      else if (rc != 0) job_failed(i, "exit status " + std::to_string(rc));
      if (r.inited && !r.finalized) job_failed(i, "left without MPI_Finalize");
      r.returned = true;
    });
    j->r[i].t = t;
  }
  for (int i = 0; i < c.ranks; i++) if (choose(SCHED, 4) == 3) make_lazy(j->r[i].t, true);
  Task *n = spawn("network", [j] { network(j); });
  if (choose(SCHED, 3) == 2) make_lazy(n, true);
  std::function<bool()> p = [j] { if (j->res.end == FAILED) return true; for (auto &r : j->r) if (!r.returned) return false; return true; };
  await("job", p);
  if (j->res.end == RUNNING) {
    j->res.end = SUCCESS;
    for (auto &ch : j->chan) for (auto *m : ch.second) fail("message-left", "a message from rank %d to rank %d (tag %d, %zu bytes) was never received", m->src, m->dst, m->tag, m->n);
    for (auto &r : j->r) for (auto *m : r.inbox) fail("message-left", "a message from rank %d to rank %d (tag %d, %zu bytes) was never received", m->src, m->dst, m->tag, m->n);
  }
  io_op_hook = nullptr;
  set_crash_hook(nullptr);
  Result res = j->res;
  J = nullptr;
  return res;
}

std::vector<Entry> load_program(const char *name, int n) {
  std::vector<Entry> out;
  char exe[4096]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[k > 0 ? k : 0] = 0;
  std::string dir(exe); dir = dir.substr(0, dir.rfind('/'));
  std::string so = dir + "/" + name + ".so";
  for (int i = 0; i < n; i++) {
    // one file per rank: each gets its own globals
    char tmp[] = "/tmp/rdsim-XXXXXX"; int fd = mkstemp(tmp);
    int in = open(so.c_str(), O_RDONLY);
    if (fd < 0 || in < 0) { fprintf(stderr, "cannot copy %s\n", so.c_str()); _exit(94); }
    char b[1 << 16]; ssize_t m;
    while ((m = read(in, b, sizeof b)) > 0) if (write(fd, b, m) != m) _exit(94);
    close(in); close(fd);
    void *h = dlopen(tmp, RTLD_NOW | RTLD_LOCAL);
    unlink(tmp);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(94); }
    auto *f = (Entry)dlsym(h, "_Z7rd_mainiPPc");
    if (!f) { fprintf(stderr, "%s\n", dlerror()); _exit(94); }
    out.push_back(f);
  }
  return out;
}
static Coll *collective(Rank &r, int comm, int kind, int root, size_t bytes, int dt, int op, const void *in) {
  auto &list = comm == MPI_COMM_SELF ? J->self : J->colls;
  uint64_t k = r.coll++;
  while (list.size() <= k) { auto *c = new Coll; c->kind = 0; c->in.resize(J->c.ranks); c->entered.resize(J->c.ranks, false); list.push_back(c); }
  Coll *c = list[k];
  if (c->n == 0) { c->kind = kind; c->root = root; c->bytes = bytes; c->dt = dt; c->op = op; }
  else if (c->kind != kind || c->root != root || c->bytes != bytes || c->op != op) fail("message-protocol", "rank %d enters its collective call number %llu with another kind, root or size than an earlier rank", me(), (unsigned long long)k);
  if (in && bytes) c->in[me()].assign((const char *)in, (const char *)in + bytes);
  c->entered[me()] = true; c->n++;
  event("collective %llu kind %d root %d %zu bytes", (unsigned long long)k, kind, root, bytes);
  return c;
}
template <class T> static void fold_t(std::vector<char> &a, const std::vector<char> &b, int op) {
  T *x = (T *)a.data(); const T *y = (const T *)b.data();
  for (size_t i = 0; i < a.size() / sizeof(T); i++)
    x[i] = op == MPI_SUM ? x[i] + y[i] : op == MPI_MIN ? (y[i] < x[i] ? y[i] : x[i]) : op == MPI_MAX ? (x[i] < y[i] ? y[i] : x[i]) : op == MPI_LAND ? (x[i] && y[i]) : (x[i] || y[i]);
}
static std::vector<char> fold(Coll *c) {
  std::vector<char> a = c->in[0];
  for (int i = 1; i < J->c.ranks; i++)
    switch (c->dt) {
      case MPI_DOUBLE: fold_t<double>(a, c->in[i], c->op); break;
      case MPI_FLOAT: fold_t<float>(a, c->in[i], c->op); break;
      case MPI_INT: case MPI_INT32_T: fold_t<int>(a, c->in[i], c->op); break;
      case MPI_UNSIGNED: case MPI_UINT32_T: fold_t<unsigned>(a, c->in[i], c->op); break;
      case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: fold_t<long>(a, c->in[i], c->op); break;
      case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: fold_t<unsigned long>(a, c->in[i], c->op); break;
      default: fold_t<unsigned char>(a, c->in[i], c->op);
    }
  return a;
}
}  // namespace simmpi
using namespace simmpi;

extern "C" {
int MPI_Init(int *, char ***) { Rank &r = enter("MPI_Init", false); if (r.inited) fail("message-protocol", "rank %d calls MPI_Init twice", me()); r.inited = true; return 0; }
int MPI_Init_thread(int *a, char ***b, int want, int *got) { if (got) *got = want; return MPI_Init(a, b); }
int MPI_Initialized(int *f) { *f = J->r[me()].inited; return 0; }
int MPI_Finalized(int *f) { *f = J->r[me()].finalized; return 0; }
int MPI_Abort(MPI_Comm, int code) { enter("MPI_Abort"); job_failed(me(), "MPI_Abort(" + std::to_string(code) + ")"); }
int MPI_Finalize(void) {
  Rank &r = enter("MPI_Finalize");
  int k = me();
  {
    RT rt;
    // everything on its way to this rank counts as left behind
    for (auto *m : r.inbox) fail("message-left", "rank %d leaves with a message from rank %d unreceived (tag %d, %zu bytes)", k, m->src, m->tag, m->n);
    for (auto &c : J->chan) if (c.first.second == k) for (auto *m : c.second) fail("message-left", "rank %d leaves with a message from rank %d unreceived (tag %d, %zu bytes)", k, m->src, m->tag, m->n);
    for (auto *q : r.posted) fail("message-left", "rank %d leaves while a non-blocking receive (tag %d) is pending", k, q->tag);
  }
  std::function<bool()> sent = [&r] { for (auto *q : r.sends) if (!q->m->matched) return false; return true; };
  await("its non-blocking sends, in MPI_Finalize", sent);
  J->finalizing++;
  if (J->c.finalize_waits) { std::function<bool()> all = [] { return J->finalizing == J->c.ranks; }; await("the other ranks, in MPI_Finalize", all); }
  r.finalized = true;
  event("rank %d finalized", k);
  return 0;
}
int MPI_Comm_rank(MPI_Comm c, int *r) { enter("MPI_Comm_rank"); *r = c == MPI_COMM_SELF ? 0 : me(); return 0; }
int MPI_Comm_size(MPI_Comm c, int *s) { enter("MPI_Comm_size"); *s = c == MPI_COMM_SELF ? 1 : J->c.ranks; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "sim"); *l = 3; return 0; }
int MPI_Type_size(MPI_Datatype t, int *s) { *s = dsize(t); return 0; }
double MPI_Wtime(void) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Error_string(int, char *s, int *l) { strcpy(s, "error"); *l = 5; return 0; }

int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm) {
  Rank &r = enter("MPI_Send");
  if (dst == MPI_PROC_NULL) return 0;
  simmpi_msg *m; bool rv;
  { RT rt; m = send(r, b, n, t, dst, tag, true); rv = rendezvous(m->n); }
  if (rv) { stat("mpi.rendezvous-sends"); std::function<bool()> p = [m] { return m->matched; }; await("the receiver of its send", p); }
  return 0;
}
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm) {
  Rank &r = enter("MPI_Ssend");
  simmpi_msg *m; { RT rt; m = send(r, b, n, t, dst, tag, true); }
  std::function<bool()> p = [m] { return m->matched; }; await("the receiver of its send", p);
  return 0;
}
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm) { Rank &r = enter("MPI_Bsend"); RT rt; send(r, b, n, t, dst, tag, true); return 0; }
static int isend(const char *name, const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Request *q, bool sync) {
  Rank &r = enter(name);
  RT rt;
  auto *x = new simmpi_req; x->send = true; x->rank = me(); x->src = x->tag = 0; x->buf = nullptr; x->n = 0;
  x->m = send(r, b, n, t, dst, tag, false);
  x->buffered = x->m->captured && !sync && !rendezvous(x->m->n);
  r.sends.push_back(x);
  *q = x;
  return 0;
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm, MPI_Request *q) { return isend("MPI_Isend", b, n, t, dst, tag, q, false); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm, MPI_Request *q) { return isend("MPI_Issend", b, n, t, dst, tag, q, true); }
int MPI_Ibsend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm, MPI_Request *q) { return isend("MPI_Ibsend", b, n, t, dst, tag, q, false); }
int MPI_Buffer_attach(void *, int) { return 0; }
int MPI_Buffer_detach(void *, int *) { return 0; }

static int iprobe(Rank &r, int src, int tag, int *flag, MPI_Status *st, simmpi_msg **out) {
  RT rt;
  progress(r);
  simmpi_msg *m = pick_one(candidates(r, src, tag));
  *flag = m != nullptr;
  if (!m) return 0;
  fill(st, m);
  if (out) { take(r, m); *out = m; }
  else { r.probed = m; r.probed_n = m->n; r.probed_tag = m->tag; r.probed_src = m->src; event("probe %d<%d tag %d %zu bytes", me(), m->src, m->tag, m->n); }
  return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm, int *flag, MPI_Status *st) { Rank &r = enter("MPI_Iprobe"); return iprobe(r, src, tag, flag, st, nullptr); }
int MPI_Improbe(int src, int tag, MPI_Comm, int *flag, MPI_Message *m, MPI_Status *st) { Rank &r = enter("MPI_Improbe"); return iprobe(r, src, tag, flag, st, m); }
int MPI_Probe(int src, int tag, MPI_Comm, MPI_Status *st) {
  Rank &r = enter("MPI_Probe");
  std::function<bool()> p = [&] { return available(r, src, tag); };
  await("a message (probe)", p);
  int f; return iprobe(r, src, tag, &f, st, nullptr);
}
int MPI_Mprobe(int src, int tag, MPI_Comm, MPI_Message *m, MPI_Status *st) {
  Rank &r = enter("MPI_Mprobe");
  std::function<bool()> p = [&] { return available(r, src, tag); };
  await("a message (probe)", p);
  int f; return iprobe(r, src, tag, &f, st, m);
}
int MPI_Mrecv(void *b, int n, MPI_Datatype t, MPI_Message *m, MPI_Status *st) {
  enter("MPI_Mrecv");
  RT rt;
  deliver_into(me(), *m, b, n * dsize(t), t); fill(st, *m); *m = nullptr;
  return 0;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status *st) {
  Rank &r = enter("MPI_Recv");
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= J->c.ranks)) fail("message-protocol", "rank %d receives from rank %d of %d", me(), src, J->c.ranks);
  std::function<bool()> p = [&] { return available(r, src, tag); };
  await("a message", p);
  RT rt;
  progress(r);
  simmpi_msg *m = pick_one(candidates(r, src, tag));
  if (!m) { rt_leave(); rt_leave(); fail("internal", "a posted receive took the message"); }
  take(r, m);
  event("%d<%d tag %d %zu bytes", me(), m->src, m->tag, m->n);
  if (r.probed) {
    if (r.probed != m && (r.probed_n != m->n || r.probed_tag != m->tag))
      fail("probe-mismatch", "rank %d was told of a message of %zu bytes with tag %d from rank %d, and its receive took one of %zu bytes with tag %d from rank %d", me(), r.probed_n, r.probed_tag, r.probed_src, m->n, m->tag, m->src);
    r.probed = nullptr;
  }
  deliver_into(me(), m, b, n * dsize(t), t);
  fill(st, m);
  return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Request *q) {
  Rank &r = enter("MPI_Irecv");
  RT rt;
  auto *x = new simmpi_req; x->send = false; x->rank = me(); x->src = src; x->tag = tag; x->buf = b; x->n = n * dsize(t);
  r.posted.push_back(x);
  *q = x;
  progress(r);
  return 0;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stt, int dst, int stag, void *rb, int rn, MPI_Datatype rt_, int src, int rtag, MPI_Comm c, MPI_Status *st) {
  MPI_Request q; MPI_Isend(sb, sn, stt, dst, stag, c, &q);
  MPI_Recv(rb, rn, rt_, src, rtag, c, st);
  return MPI_Wait(&q, MPI_STATUS_IGNORE);
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { size_t s = dsize(t); *n = st->sim_bytes % s ? MPI_UNDEFINED : (int)(st->sim_bytes / s); return 0; }
int MPI_Get_elements(const MPI_Status *st, MPI_Datatype t, int *n) { return MPI_Get_count(st, t, n); }
static bool complete(simmpi_req *q) { return !q || (q->send ? q->buffered || q->m->matched : q->done); }
static bool may_complete(Rank &r, simmpi_req *q) { return complete(q) || (!q->send && posted_ready(r)); }
static void retire(simmpi_req **q, MPI_Status *st) {
  if (*q) {
    if (st) *st = (*q)->st;
    *q = nullptr;                    // a buffered send stays listed: its message may still be on the way
  }
}
int MPI_Wait(MPI_Request *q, MPI_Status *st) {
  Rank &r = enter("MPI_Wait");
  simmpi_req *x = *q;
  while (!complete(x)) { std::function<bool()> p = [&] { return may_complete(r, x); }; await("a request", p); RT rt; progress(r); }
  retire(q, st);
  return 0;
}
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st) { for (int i = 0; i < n; i++) MPI_Wait(&q[i], st ? &st[i] : nullptr); return 0; }
int MPI_Testany(int n, MPI_Request *q, int *idx, int *flag, MPI_Status *st) {
  Rank &r = enter("MPI_Testany");
  RT rt; progress(r);
  *flag = 0; *idx = MPI_UNDEFINED;
  bool active = false;
  for (int i = 0; i < n; i++) if (q[i]) { active = true; if (complete(q[i])) { *flag = 1; *idx = i; retire(&q[i], st); return 0; } }
  if (!active) *flag = 1;
  return 0;
}
int MPI_Waitany(int n, MPI_Request *q, int *idx, MPI_Status *st) {
  for (;;) { int f; MPI_Testany(n, q, idx, &f, st); if (f) return 0; Rank &r = J->r[me()]; std::function<bool()> p = [&] { for (int i = 0; i < n; i++) if (q[i] && may_complete(r, q[i])) return true; return false; }; await("a request", p); }
}
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *st) { Rank &r = enter("MPI_Test"); RT rt; progress(r); *flag = complete(*q); if (*flag) retire(q, st); return 0; }
int MPI_Testall(int n, MPI_Request *q, int *flag, MPI_Status *st) {
  Rank &r = enter("MPI_Testall"); RT rt; progress(r);
  *flag = 1;
  for (int i = 0; i < n; i++) if (!complete(q[i])) *flag = 0;
  if (*flag) for (int i = 0; i < n; i++) retire(&q[i], st ? &st[i] : nullptr);
  return 0;
}
int MPI_Request_free(MPI_Request *q) { enter("MPI_Request_free"); *q = nullptr; return 0; }
int MPI_Cancel(MPI_Request *) { return 0; }

int MPI_Barrier(MPI_Comm comm) {
  Rank &r = enter("MPI_Barrier");
  if (comm == MPI_COMM_SELF) return 0;
  Coll *c; { RT rt; c = collective(r, comm, 1, 0, 0, 0, 0, nullptr); }
  std::function<bool()> p = [c] { return c->n == J->c.ranks; }; await("the other ranks, in MPI_Barrier", p);
  return 0;
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm comm) {
  Rank &r = enter("MPI_Bcast");
  if (comm == MPI_COMM_SELF) return 0;
  size_t bytes = n * dsize(t);
  bool rv; Coll *c;
  { RT rt; if (bytes && !addr_ok(b, bytes)) fail("memory-error", "rank %d broadcasts memory it does not hold", me()); c = collective(r, comm, 2, root, bytes, t, 0, me() == root ? b : nullptr); rv = rendezvous(bytes); }
  if (me() == root) { if (rv) { std::function<bool()> p = [c] { return c->n == J->c.ranks; }; await("the other ranks, in MPI_Bcast", p); } }
  else { std::function<bool()> p = [c, root] { return c->entered[root]; }; await("the root, in MPI_Bcast", p); memcpy(b, c->in[root].data(), bytes); }
  return 0;
}
static void reduce(const char *name, int kind, const void *s, void *d, int n, int t, int op, int root, bool all) {
  Rank &r = enter(name);
  size_t bytes = n * dsize(t);
  Coll *c; { RT rt; c = collective(r, MPI_COMM_WORLD, kind, root, bytes, t, op, s == MPI_IN_PLACE ? d : s); }
  if (all || me() == root) { std::function<bool()> p = [c] { return c->n == J->c.ranks; }; await("the other ranks, in a reduction", p); RT rt; auto v = fold(c); memcpy(d, v.data(), bytes); }
}
int MPI_Reduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) { reduce("MPI_Reduce", 3, s, d, n, t, op, root, false); return 0; }
int MPI_Allreduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) { reduce("MPI_Allreduce", 4, s, d, n, t, op, 0, true); return 0; }
static void gather(const char *name, int kind, const void *s, int n, int t, void *d, int root, bool all) {
  Rank &r = enter(name);
  size_t bytes = n * dsize(t);
  Coll *c; { RT rt; c = collective(r, MPI_COMM_WORLD, kind, root, bytes, t, 0, s == MPI_IN_PLACE ? (char *)d + me() * bytes : s); }
  if (all || me() == root) { std::function<bool()> p = [c] { return c->n == J->c.ranks; }; await("the other ranks, in a gather", p); for (int i = 0; i < J->c.ranks; i++) memcpy((char *)d + i * bytes, c->in[i].data(), bytes); }
}
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *d, int, MPI_Datatype, int root, MPI_Comm) { gather("MPI_Gather", 5, s, n, t, d, root, false); return 0; }
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *d, int, MPI_Datatype, MPI_Comm) { gather("MPI_Allgather", 6, s, n, t, d, 0, true); return 0; }
}
