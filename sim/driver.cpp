// Search driver: forks one child per simulated run, several in parallel;
// checks that runs repeat; minimises and replays what fails; writes evidence.
#include "core.hpp"
#include "shm.hpp"
#include <execinfo.h>
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>

using namespace sim;
namespace sim { }

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void rm_tree(const std::string &d) {   // only ever called on our own scratch directory
  DIR *dp = opendir(d.c_str());
  if (!dp) return;
  while (dirent *e = readdir(dp)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(p);
    else unlink(p.c_str());
  }
  closedir(dp);
  rmdir(d.c_str());
}

struct Result {
  uint32_t outcome = 0; std::string cls, detail, known;
  uint64_t ev = 0, inter = 0, st = 0, steps = 0;
  bool internal = false; int code = 0;
  bool same(const Result &o) const { return outcome == o.outcome && cls == o.cls && ev == o.ev && inter == o.inter && steps == o.steps; }
};

static const Harness *H;
static std::string work_root;

// One run in a forked child, in the current directory's "s" scratch directory.
static Result run_one(uint64_t seed, uint64_t idx, bool replay, bool verbose) {
  shm->seed = seed; shm->run_index = idx; shm->replay = replay; shm->verbose = verbose;
  shm->outcome = O_NONE; shm->cls[0] = 0; shm->detail[0] = 0;
  rm_tree("s");
  mkdir("s", 0777);
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(90); }
  if (p == 0) {
    struct rlimit rl{30, 40}; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rf{1ull << 30, 1ull << 30}; setrlimit(RLIMIT_FSIZE, &rf);
    struct rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
    alarm(240);
    if (!getenv("RDSIM_SHOW")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
    child_main(H->run);
    _exit(95);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Result r;
  r.outcome = shm->outcome; r.cls = shm->cls; r.detail = shm->detail; r.known = shm->known_id;
  r.ev = shm->ev_hash; r.inter = shm->inter_hash; r.st = shm->state_h; r.steps = shm->steps;
  if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
    r.internal = true; r.code = WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st);
  } else if (r.outcome == O_NONE) { r.internal = true; r.code = 1000; }
  return r;
}

// ------------------------------------------------------------------ shared aggregate per worker
constexpr uint32_t MAXH = 1u << 19;
struct Agg {
  uint64_t runs, checked, mismatches, internal, first_internal; int internal_code;
  uint64_t steps, switches, sim_ns, events, known;
  uint32_t ncounters; Counter counters[MAX_COUNTERS];
  uint64_t touched[MAX_COUNTERS];          // runs in which the counter moved
  uint32_t nknown; char known_ids[16][64]; uint64_t known_n[16];
  bool viol; uint64_t viol_idx; char viol_cls[64]; char viol_detail[4096];
  uint64_t count_only;                      // of the mismatches, those with the same log, interleaving and result but another number of steps
  uint64_t mismatch_idx; char mismatch_what[512];
  uint32_t nh; uint64_t h[MAXH];           // (interleaving, event log) hash of each run
  uint32_t ns; uint64_t s[MAXH];           // state hashes
  uint64_t trivial;
};
struct Shared { volatile int stop; volatile uint64_t next; };

static void add_counters(Agg *a) {
  for (uint32_t i = 0; i < shm->ncounters; i++) {
    Counter &c = shm->counters[i];
    uint32_t j = 0;
    for (; j < a->ncounters; j++) if (!strcmp(a->counters[j].name, c.name)) break;
    if (j == a->ncounters) { if (j == MAX_COUNTERS) continue; a->ncounters++; a->counters[j] = c; a->touched[j] = 1; }
    else { a->counters[j].n += c.n; a->touched[j]++; }
  }
}

static void worker(int w, Shared *sh, Agg *a, uint64_t seed, double deadline, uint64_t max_runs, uint64_t only_from) {
  std::string d = work_root + "/w" + std::to_string(w);
  mkdir(d.c_str(), 0777);
  if (chdir(d.c_str())) { perror("chdir"); _exit(91); }
  shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  while (!sh->stop && now_s() < deadline) {
    uint64_t i = __sync_fetch_and_add(&sh->next, 1);
    if (i >= max_runs) break;
    i += only_from;
    Result r = run_one(seed, i, false, false);
    a->runs++;
    if (r.internal) {
      if (!a->internal) { a->first_internal = i; a->internal_code = r.code; }
      a->internal++;
      if (a->internal > 5) break;
      continue;
    }
    a->steps += shm->steps; a->switches += shm->switches; a->sim_ns += (int64_t)shm->sim_ns > 0 ? shm->sim_ns : 0; a->events += shm->events;
    add_counters(a);
    if (a->nh < MAXH) a->h[a->nh++] = r.inter ^ (r.ev * 0x9e3779b97f4a7c15ull);
    if (a->ns < MAXH) a->s[a->ns++] = r.st;
    if (r.outcome == O_KNOWN) {
      a->known++;
      uint32_t j = 0;
      for (; j < a->nknown; j++) if (r.known == a->known_ids[j]) break;
      if (j == a->nknown && j < 16) { strncpy(a->known_ids[j], r.known.c_str(), 63); a->nknown++; }
      if (j < 16) a->known_n[j]++;
    }
    bool check = (i % 16) == 3 || i < 8 || r.outcome == O_VIOLATION;
    if (check) {
      Result r2 = run_one(seed, i, false, false);
      a->checked++;
      if (!r.same(r2)) {
        if (!a->mismatches) { a->mismatch_idx = i; snprintf(a->mismatch_what, sizeof a->mismatch_what, "outcome %u/%u class '%s'/'%s' steps %llu/%llu log %llx/%llx", r.outcome, r2.outcome, r.cls.c_str(), r2.cls.c_str(), (unsigned long long)r.steps, (unsigned long long)r2.steps, (unsigned long long)r.ev, (unsigned long long)r2.ev); }
        a->mismatches++;
        if (r.outcome == r2.outcome && r.cls == r2.cls && r.ev == r2.ev && r.inter == r2.inter) a->count_only++;
        continue;
      }
    }
    if (r.outcome == O_VIOLATION) {
      a->viol = true; a->viol_idx = i;
      strncpy(a->viol_cls, r.cls.c_str(), 63); strncpy(a->viol_detail, r.detail.c_str(), 4095);
      sh->stop = 1;
      break;
    }
  }
  rm_tree("s");
  _exit(0);
}

// ------------------------------------------------------------------ replay files
typedef std::vector<uint32_t> Vec;
struct Streams { Vec v[NSTREAMS]; };
static void load_in(const Streams &s) {
  for (int i = 0; i < NSTREAMS; i++) {
    shm->in_len[i] = std::min<size_t>(s.v[i].size(), MAX_CHOICES);
    memcpy(shm->in[i], s.v[i].data(), shm->in_len[i] * 4);
  }
}
static Streams taken_out() {
  Streams s;
  for (int i = 0; i < NSTREAMS; i++) {
    s.v[i].assign(shm->out[i], shm->out[i] + shm->out_len[i]);
    while (!s.v[i].empty() && s.v[i].back() == 0) s.v[i].pop_back();
  }
  return s;
}
static Result replay(uint64_t seed, uint64_t idx, const Streams &s, bool verbose = false) {
  load_in(s);
  return run_one(seed, idx, true, verbose);
}
static bool write_replay(const std::string &path, uint64_t seed, uint64_t idx, const Streams &s, const Result &r, const std::string &trace) {
  std::ofstream f(path);
  f << "# richdem deterministic-simulation replay file\n# reproduce: " << "tools/check replay <this file>\n";
  f << "property " << H->property << "\nseed " << seed << "\nrun " << idx << "\nclass " << r.cls << "\nlog " << r.ev << "\nsteps " << r.steps << "\n";
  std::string d = r.detail; std::replace(d.begin(), d.end(), '\n', ' ');
  f << "detail " << d << "\n";
  static const char *nm[] = {"work", "sched", "fault"};
  for (int i = 0; i < NSTREAMS; i++) {
    f << nm[i] << " " << s.v[i].size();
    for (auto x : s.v[i]) f << " " << x;
    f << "\n";
  }
  f << "--- trace of the minimised run\n" << trace;
  f.close();
  return (bool)f;
}
static bool read_replay(const std::string &path, std::string &prop, uint64_t &seed, uint64_t &idx, Streams &s, Result &r) {
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  while (std::getline(f, line)) {
    if (line.rfind("---", 0) == 0) break;
    if (line.empty() || line[0] == '#') continue;
    std::istringstream is(line);
    std::string k; is >> k;
    if (k == "property") is >> prop;
    else if (k == "seed") is >> seed;
    else if (k == "run") is >> idx;
    else if (k == "class") is >> r.cls;
    else if (k == "log") is >> r.ev;
    else if (k == "steps") is >> r.steps;
    else if (k == "detail") { std::getline(is, r.detail); }
    else {
      int w = k == "work" ? 0 : k == "sched" ? 1 : k == "fault" ? 2 : -1;
      if (w < 0) continue;
      size_t n; is >> n; uint32_t x;
      while (is >> x) s.v[w].push_back(x);
    }
  }
  return true;
}

// Greedy reduction of the three streams, same class required. Bounded in runs and seconds.
static Streams minimise(uint64_t seed, uint64_t idx, Streams s, const std::string &cls, double deadline, uint64_t &tried) {
  auto good = [&](const Streams &c) {
    tried++;
    Result r = replay(seed, idx, c);
    return !r.internal && r.outcome == O_VIOLATION && r.cls == cls;
  };
  auto attempt = [&](Streams &c) { if (now_s() < deadline && good(c)) { s = taken_out(); return true; } return false; };
  bool progress = true;
  int order[3] = {FAULT, SCHED, WORK};
  for (int i : order) { Streams c = s; c.v[i].clear(); attempt(c); }
  for (int round = 0; progress && round < 6 && now_s() < deadline; round++) {
    progress = false;
    for (int i : order) {
      // cut the tail (binary search)
      size_t lo = 0;
      while (lo < s.v[i].size() && now_s() < deadline) {
        size_t len = s.v[i].size(), cut = (len - lo) / 2;
        Streams c = s; c.v[i].resize(lo + cut);
        if (attempt(c)) { progress = true; if (s.v[i].size() >= len) break; }
        else { lo = lo + cut + 1; }
      }
      // zero or delete blocks
      for (size_t blk = std::max<size_t>(1, s.v[i].size() / 4);; blk /= 2) {
        for (size_t at = 0; at < s.v[i].size() && now_s() < deadline;) {
          size_t end = std::min(at + blk, s.v[i].size());
          bool nz = false;
          for (size_t k = at; k < end; k++) if (s.v[i][k]) nz = true;
          if (nz) { Streams c = s; for (size_t k = at; k < end; k++) c.v[i][k] = 0; if (attempt(c)) progress = true; }
          at = end;
        }
        if (blk == 1) break;
      }
      if (i == WORK || s.v[i].size() < 64)
        for (size_t k = 0; k < s.v[i].size() && now_s() < deadline; k++) {
          uint32_t x = s.v[i][k];
          if (x > 1) { Streams c = s; c.v[i][k] = x / 2; if (attempt(c)) progress = true; else { c = s; c.v[i][k] = x - 1; if (attempt(c)) progress = true; } }
          if (k < s.v[i].size()) { Streams c = s; c.v[i].erase(c.v[i].begin() + k); if (attempt(c)) progress = true; }
        }
    }
  }
  return s;
}

static std::string jesc(const std::string &s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o;
}

static int do_replay(const std::string &file, bool verbose) {
  uint64_t seed = 0, idx = 0; Streams s; Result want; std::string prop;
  if (!read_replay(file, prop, seed, idx, s, want)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 3; }
  std::string d = work_root + "/replay"; mkdir(d.c_str(), 0777);
  if (chdir(d.c_str())) return 3;
  Result r = replay(seed, idx, s, verbose);
  if (verbose) fwrite(shm->trace, 1, shm->trace_len, stdout);
  printf("replay: outcome %u class '%s' detail '%s' log %llu steps %llu%s\n", r.outcome, r.cls.c_str(), r.detail.c_str(), (unsigned long long)r.ev, (unsigned long long)r.steps, r.internal ? " (internal error)" : "");
  bool same = r.outcome == O_VIOLATION && r.cls == want.cls && r.ev == want.ev;
  printf("replay: %s\n", same ? "REPRODUCED" : "different");
  rm_tree(work_root);
  return same ? 0 : r.outcome == O_VIOLATION && r.cls == want.cls ? 4 : 5;
}

int main(int argc, char **argv) {
  if (!getenv("RDSIM_NOASLR")) {
    setenv("RDSIM_NOASLR", "1", 1);
    // Everything inherited that could matter is pinned before the first instruction of the code under test.
    for (const char *e : {"OMP_NUM_THREADS", "GDAL_NUM_THREADS", "MALLOC_PERTURB_", "GDAL_CACHEMAX", "CPL_DEBUG"}) unsetenv(e);
    setenv("LC_ALL", "C", 1); setenv("TZ", "UTC", 1); setenv("GDAL_CACHEMAX", "64", 1);
    setenv("HOME", "/nonexistent", 1);
    personality(ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  std::string prop, evidence, replays = "replays", tier = "quick", replay_file, exe_note, real_note, stub_note;
  double seconds = 30; int workers = 8; uint64_t max_runs = ~0ull >> 1, seed = 1, one = ~0ull, min_runs = 0; bool verbose = false, minim = true;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(++i < argc ? argv[i] : ""); };
    if (a == "--prop") prop = nx();
    else if (a == "--seconds") seconds = atof(nx().c_str());
    else if (a == "--workers") workers = atoi(nx().c_str());
    else if (a == "--max-runs") max_runs = strtoull(nx().c_str(), 0, 10);
    else if (a == "--min-runs") min_runs = strtoull(nx().c_str(), 0, 10);
    else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--one") one = strtoull(nx().c_str(), 0, 10);
    else if (a == "--evidence") evidence = nx();
    else if (a == "--replays") replays = nx();
    else if (a == "--tier") tier = nx();
    else if (a == "--replay") replay_file = nx();
    else if (a == "--real") real_note = nx();
    else if (a == "--stub") stub_note = nx();
    else if (a == "--verbose") verbose = true;
    else if (a == "--no-minimise") minim = false;
  }
  double t0 = now_s();
  if (!replay_file.empty()) { uint64_t a, b; Streams s; Result r; read_replay(replay_file, prop, a, b, s, r); char *rp = realpath(replay_file.c_str(), nullptr); if (rp) replay_file = rp; }
  for (const Harness *h = g_harnesses; h->property; h++) if (prop == h->property) H = h;
  if (!H) { fprintf(stderr, "no harness for '%s'\n", prop.c_str()); return 2; }
  char tmpl[] = "/tmp/rdsim.XXXXXX";
  if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
  work_root = tmpl;
  scratch = "s";
  { void *a[2]; backtrace(a, 2); }                     // it loads a library the first time
  if (H->init) H->init();
  shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (!replay_file.empty()) return do_replay(replay_file, verbose);
  std::string cwd = getcwd(nullptr, 0);
  auto abs = [&](std::string p) { return p.empty() || p[0] == '/' ? p : cwd + "/" + p; };
  replays = abs(replays); evidence = abs(evidence);
  if (one != ~0ull) {
    std::string d = work_root + "/one"; mkdir(d.c_str(), 0777);
    if (chdir(d.c_str())) return 2;
    Result r = run_one(seed, one, false, verbose);
    fwrite(shm->trace, 1, shm->trace_len, stdout);
    printf("run %llu: outcome %u class '%s' known '%s' detail '%s' steps %llu switches %llu log %llx inter %llx internal %d code %d\n", (unsigned long long)one, r.outcome, r.cls.c_str(), r.known.c_str(), r.detail.c_str(), (unsigned long long)r.steps, (unsigned long long)shm->switches, (unsigned long long)r.ev, (unsigned long long)r.inter, r.internal, r.code);
    for (uint32_t i = 0; i < shm->ncounters; i++) printf("  %s = %llu\n", shm->counters[i].name, (unsigned long long)shm->counters[i].n);
    rm_tree(work_root);
    return 0;
  }

  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<Agg *> ag;
  std::vector<pid_t> pids;
  double deadline = t0 + seconds;
  printf("property %s seed %llu: %d workers, up to %.0f s\n", H->property, (unsigned long long)seed, workers, seconds);
  for (int w = 0; w < workers; w++) {
    Agg *a = (Agg *)mmap(nullptr, sizeof(Agg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ag.push_back(a);
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) worker(w, sh, a, seed, deadline, max_runs, 0);
    pids.push_back(p);
  }
  for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
  double search_s = now_s() - t0;

  // ---- merge
  uint64_t runs = 0, checked = 0, mism = 0, count_only = 0, internal = 0, steps = 0, sw = 0, simns = 0, events = 0;
  std::unordered_set<uint64_t> hs, ss;
  std::map<std::string, std::pair<uint64_t, uint64_t>> cnt;
  std::map<std::string, uint64_t> kn;
  Agg *v = nullptr, *mm = nullptr, *in = nullptr;
  for (Agg *a : ag) {
    runs += a->runs; checked += a->checked; mism += a->mismatches; count_only += a->count_only; internal += a->internal; steps += a->steps; sw += a->switches; simns += a->sim_ns; events += a->events;
    for (uint32_t i = 0; i < a->nh; i++) hs.insert(a->h[i]);
    for (uint32_t i = 0; i < a->ns; i++) ss.insert(a->s[i]);
    for (uint32_t i = 0; i < a->ncounters; i++) { auto &c = cnt[a->counters[i].name]; c.first += a->counters[i].n; c.second += a->touched[i]; }
    for (uint32_t i = 0; i < a->nknown; i++) kn[a->known_ids[i]] += a->known_n[i];
    if (a->viol && (!v || a->viol_idx < v->viol_idx)) v = a;
    if (a->mismatches && !mm) mm = a;
    if (a->internal && !in) in = a;
  }
  int rc = 0;
  std::string viol_line;
  std::string sample;
  {
    // write one run out as a sample (also a fresh look at a passing run)
    std::string d = work_root + "/sample"; mkdir(d.c_str(), 0777);
    if (chdir(d.c_str())) return 2;
    Result r = run_one(seed, 1, false, true);
    (void)r;
    sample.assign(shm->trace, std::min<uint32_t>(shm->trace_len, 3000));
  }
  if (v) {
    mkdir(replays.c_str(), 0777);
    std::string d = work_root + "/min"; mkdir(d.c_str(), 0777);
    if (chdir(d.c_str())) return 2;
    Result r0 = run_one(seed, v->viol_idx, false, false);
    Streams s = taken_out();
    bool full = shm->out_len[0] >= MAX_CHOICES || shm->out_len[1] >= MAX_CHOICES || shm->out_len[2] >= MAX_CHOICES;
    printf("run %llu violates: class %s: %s\n", (unsigned long long)v->viol_idx, v->viol_cls, v->viol_detail);
    if (r0.outcome != O_VIOLATION || full) { printf("ERROR: the failing run did not repeat%s\n", full ? " (choice stream too long to record)" : ""); rc = 3; }
    else {
      size_t n0 = s.v[0].size(), n1 = s.v[1].size(), n2 = s.v[2].size();
      uint64_t tried = 0; Streams s0 = s;
      Result r1 = replay(seed, v->viol_idx, s);
      if (r1.outcome != O_VIOLATION || r1.cls != r0.cls) { printf("ERROR: the recorded choices do not reproduce the failure (class '%s')\n", r1.cls.c_str()); rc = 3; }
      else {
        if (minim) s = minimise(seed, v->viol_idx, s, r0.cls, now_s() + 40, tried);
        Result r2 = replay(seed, v->viol_idx, s, true);
        std::string trace(shm->trace, shm->trace_len);
        s = taken_out();
        r2 = replay(seed, v->viol_idx, s, false);
        std::string path = replays + "/" + H->property + "-seed" + std::to_string(seed) + "-run" + std::to_string(v->viol_idx) + ".replay";
        write_replay(path, seed, v->viol_idx, s, r2, trace);
        printf("minimised with %llu replays: choices work %zu->%zu, schedule %zu->%zu, fault %zu->%zu\n", (unsigned long long)tried, n0, s.v[0].size(), n1, s.v[1].size(), n2, s.v[2].size());
        printf("minimised: class %s: %s\n", r2.cls.c_str(), r2.detail.c_str());
        // fresh-process gate: the minimised run, or else the run as it was found
        auto gate = [&] {
          fflush(nullptr);
          pid_t p = fork();
          if (p == 0) {
            if (chdir(cwd.c_str())) _exit(9);
            unsetenv("RDSIM_NOASLR");
            int nfd = open("/dev/null", O_WRONLY); dup2(nfd, 1);
            execl("/proc/self/exe", argv[0], "--replay", path.c_str(), (char *)nullptr);
            _exit(9);
          }
          int st = 0; waitpid(p, &st, 0);
          return WIFEXITED(st) ? WEXITSTATUS(st) : 9;
        };
        int g = gate();
        if (g != 0) {
          Result ru = replay(seed, v->viol_idx, s0, true);
          std::string t0(shm->trace, shm->trace_len);
          printf("the minimised run is not exact in a fresh process; keeping the run as it was found\n");
          write_replay(path, seed, v->viol_idx, s0, ru, t0);
          g = gate();
        }
        if (g == 0 || g == 4) { if (g == 4) printf("NOTE: a fresh process repeats the failure with another event log\n"); viol_line = path; rc = 1; }
        else { printf("ERROR: a fresh process did not reproduce the failure exactly\n"); rc = 3; }
      }
    }
  }
  if (rc == 0 && internal) { printf("ERROR: %llu runs ended abnormally inside the simulator (first run %llu, code %d)\n", (unsigned long long)internal, (unsigned long long)in->first_internal, in->internal_code); rc = 3; }
  if (rc == 0 && mism && mism == count_only && mism * 50 < checked + 50) printf("NOTE: %llu of %llu repeated runs took another number of steps with the same log (run %llu: %s)\n", (unsigned long long)mism, (unsigned long long)checked, (unsigned long long)mm->mismatch_idx, mm->mismatch_what);
  else if (rc == 0 && mism) { printf("ERROR: %llu of %llu repeated runs differed (run %llu: %s)\n", (unsigned long long)mism, (unsigned long long)checked, (unsigned long long)mm->mismatch_idx, mm->mismatch_what); rc = 3; }
  if (rc == 0 && runs < min_runs) { printf("ERROR: only %llu runs finished, at least %llu are needed\n", (unsigned long long)runs, (unsigned long long)min_runs); rc = 3; }

  double wall = now_s() - t0;
  if (!evidence.empty()) {
    std::ofstream f(evidence);
    f << "{\"property\":\"" << H->property << "\",\"tier\":\"" << tier << "\",\"seed\":" << seed << ",\"level\":\"exploration\",\"coverage\":{";
    f << "\"evaluations\":" << runs << ",\"distinct_nontrivial\":" << hs.size();
    f << ",\"rule\":\"one evaluation is one simulated run of the real code from one seed (workload, schedule and faults drawn from it); distinct = different hash of the run's task-switch sequence (task, access count) and its event log; state_hashes counts different results reached\"";
    f << ",\"state_hashes\":" << ss.size() << ",\"runs_per_hour\":" << (uint64_t)(runs / search_s * 3600) << ",\"seeds_per_hour\":" << (uint64_t)(runs / search_s * 3600);
    f << ",\"simulated_accesses\":" << steps << ",\"task_switches\":" << sw << ",\"simulated_seconds\":" << simns / 1e9 << ",\"events\":" << events;
    f << ",\"runs_repeated_and_compared\":" << checked << ",\"repeat_mismatches\":" << mism;
    f << ",\"faults_injected\":{";
    bool first = true;
    for (auto &c : cnt) if (c.first.rfind("fault.", 0) == 0) { f << (first ? "" : ",") << "\"" << jesc(c.first.substr(6)) << "\":" << c.second.first; first = false; }
    f << "},\"counters\":{";
    first = true;
    for (auto &c : cnt) if (c.first.rfind("fault.", 0) != 0) { f << (first ? "" : ",") << "\"" << jesc(c.first) << "\":{\"total\":" << c.second.first << ",\"runs\":" << c.second.second << "}"; first = false; }
    f << "},\"real_components\":\"" << jesc(real_note) << "\",\"stubbed_components\":\"" << jesc(stub_note) << "\"";
    f << ",\"samples\":[\"" << jesc(sample) << "\"]}";
    f << ",\"assumptions\":[\"sequentially consistent interleavings at the granularity of single memory accesses; no weak-memory reordering\",\"sampling, not enumeration\"]";
    f << ",\"wall_s\":" << wall << ",\"violations\":" << (rc == 1 ? 1 : 0) << "}\n";
  }
  for (auto &k : kn) printf("listed finding %s met in %llu runs\n", k.first.c_str(), (unsigned long long)k.second);
  printf("%llu runs in %.1f s, %zu distinct (interleaving, log), %zu result states, %llu task switches, %llu repeated runs compared, %llu differed\n", (unsigned long long)runs, search_s, hs.size(), ss.size(), (unsigned long long)sw, (unsigned long long)checked, (unsigned long long)mism);
  for (auto &c : cnt) printf("  %-40s %12llu in %llu runs\n", c.first.c_str(), (unsigned long long)c.second.first, (unsigned long long)c.second.second);
  if (rc == 1) printf("VIOLATION property=%s replay=%s\n", H->property, viol_line.c_str());
  if (chdir("/")) return 2;
  rm_tree(work_root);
  fflush(nullptr);
  return rc;
}
