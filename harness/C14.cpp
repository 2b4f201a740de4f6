// C14: independent analyses at the same time do not disturb each other.
#include "ops.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace hz;

// Native save and load, and dump to and reload from the cache, under names of the caller's own.
template <class T> static Op file_op(int id, T nodata) {
  DemOpt o; o.wmin = 1; o.hmin = 1; o.wmax = o.hmax = 10;
  auto e = std::make_shared<Grid<T>>(to_grid(gen_dem<T>(o, nodata), nodata));
  e->projection = std::string(choose(WORK, 20), 'p');
  int how = choose(WORK, 3);
  std::string file = sim::scratch + "/c14_" + std::to_string(id);
  return {how == 0 ? "native save and load" : "cache dump and reload", [e, how, file] {
    std::string r; Grid<T> g = *e;
    if (how == 0) { g.saveToCache(file); Grid<T> h(file, true); put_grid(r, h); r += h.projection; }
    else if (how == 1) { g.setCacheFilename(file); g.dumpData(); g.loadData(); put_grid(r, g); r += g.projection; }
    else { g.setCacheFilename(file); for (int i = 0; i < 3; i++) { g.dumpData(); g.loadData(); g(0) = (T)i; } put_grid(r, g); }
    return r; }};
}

static void run() {
  mkdir(sim::scratch.c_str(), 0777);
  int callers = 2 + choose(WORK, 3), maxside = callers > 2 ? 8 : 11;
  knobs.omp_threads = 1 + (int)choose(SCHED, 4);
  static const uint32_t M[] = {0, 3000, 600, 200, 60, 20, 6, 3};
  knobs.preempt_mean = M[choose(SCHED, 8)];
  sim::io.yield_den = 2;
  bool team = choose(WORK, 3) == 2;                     // the callers are an OpenMP team of the application
  if (team) knobs.omp_threads = callers;
  std::vector<std::vector<Op>> ops(callers);
  bool alike = choose(WORK, 2);                         // all callers do the same kind of thing
  Kind common;
  for (int c = 0; c < callers; c++) {
    int n = 1 + choose(WORK, 2);
    while (n--) {
      int id = c * 4 + n;
      int k = choose(WORK, 6);
      ops[c].push_back(k == 5 ? (choose(WORK, 2) ? file_op<float>(id, -1.f) : file_op<uint8_t>(id, 255)) : alike ? any_op(maxside, common) : any_op(maxside));
      event("caller %d: %s", c, ops[c].back().name.c_str());
    }
  }
  auto guarded = [](const Op &o) { try { return o.run(); } catch (const std::exception &e) { return std::string("threw ") + e.what(); } };
  std::vector<std::vector<std::string>> alone(callers), together(callers);
  for (int c = 0; c < callers; c++) { alone[c].resize(ops[c].size()); together[c].resize(ops[c].size()); }
  auto run_alone = [&] { serially([&] { for (int c = 0; c < callers; c++) for (size_t i = 0; i < ops[c].size(); i++) alone[c][i] = guarded(ops[c][i]); }); };
  auto caller = [&](int c) { for (size_t i = 0; i < ops[c].size(); i++) together[c][i] = guarded(ops[c][i]); };
  auto run_together = [&] { under_schedule([&] {
    if (team) {
      #pragma omp parallel for schedule(static, 1)
      for (int c = 0; c < callers; c++) caller(c);
    } else {
      std::vector<std::function<void()>> f;
      for (int c = 0; c < callers; c++) f.push_back([&, c] { caller(c); });
      run_concurrently(f);
    } }); };
  // Which comes first decides who meets one-time initialisation.
  if (choose(WORK, 3)) { run_together(); run_alone(); } else { run_alone(); run_together(); }
  uint64_t h = 0;
  for (int c = 0; c < callers; c++) for (size_t i = 0; i < ops[c].size(); i++) {
    if (alone[c][i] != together[c][i])
      fail("disturbed", "%s of caller %d (of %d) gives another result than alone: %s%s%s", ops[c][i].name.c_str(), c, callers, first_difference(alone[c][i], together[c][i]).c_str(),
           together[c][i].rfind("threw", 0) == 0 ? ", " : "", together[c][i].rfind("threw", 0) == 0 ? together[c][i].c_str() : "");
    if (alone[c][i].rfind("threw", 0) == 0) stat("operations-refused");
    stat(("op." + ops[c][i].name).c_str());
    h = h * 31 + std::hash<std::string>()(together[c][i]);
  }
  stat(team ? "callers.team" : "callers.threads");
  state_hash(h);
}
Harness g_harnesses[] = {{"C14", run, nullptr}, {nullptr, nullptr, nullptr}};
