// C13: per-thread random streams: reproducible, independent, restorable.
#include "common.hpp"
#include <richdem/common/random.hpp>
#include <omp.h>
using namespace hz;
using namespace richdem;

struct Op { int kind; int a, b; };            // 0 int, 1 real, 2 normal, 3 bits, 4 save, 5 restore, 6 engine
typedef std::vector<uint64_t> Log;
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

static uint64_t draw(const Op &o) {
  switch (o.kind) {
    case 0: { int v = uniform_rand_int(o.a, o.b); if (v < o.a || v > o.b) fail("out-of-range", "uniform_rand_int(%d,%d) gave %d", o.a, o.b, v); return (uint64_t)(int64_t)v; }
    case 1: { double v = uniform_rand_real(o.a, o.b + 0.5); if (!(v >= o.a && v <= o.b + 0.5)) fail("out-of-range", "uniform_rand_real(%d,%g) gave %g", o.a, o.b + 0.5, v); return bits(v); }
    case 2: return bits(normal_rand(o.a, 1 + std::abs(o.b)));
    case 3: return uniform_bits<uint32_t>();
    default: return rand_engine()();
  }
}
// One thread's script. With save/restore active, a restore is followed by the
// draws since the save, which must come out the same, so the stream goes on as
// if nothing had happened.
static void script(const std::vector<Op> &ops, Log &log, bool states, int t) {
  std::string st; size_t at = 0; bool have = false;
  for (size_t i = 0; i < ops.size(); i++) {
    if (ops[i].kind == 4) { if (states) { st = SaveRandomState(); at = i; have = true; stat("op.save"); } continue; }
    if (ops[i].kind == 5) {
      if (!states || !have) continue;
      SetRandomState(st); stat("op.restore");
      size_t pos = 0;
      for (size_t j = 0; j < at; j++) if (ops[j].kind < 4 || ops[j].kind == 6) pos++;
      for (size_t j = at; j < i; j++)
        if (ops[j].kind < 4 || ops[j].kind == 6) {
          uint64_t v = draw(ops[j]);
          if (v != log[pos]) fail("not-replayed", "thread %d: draw %zu after the restore (kind %d) gave %llx, %llx followed the save", t, j - at, ops[j].kind, (unsigned long long)v, (unsigned long long)log[pos]);
          pos++;
        }
      continue;
    }
    log.push_back(draw(ops[i]));
  }
}

static uint64_t a_seed() {
  switch (choose(WORK, 4)) {
    case 0: return 1 + choose(WORK, 20);
    case 1: return 1 + choose(WORK, 1u << 30);
    case 2: return (uint64_t)(1 + choose(WORK, 1000)) << 32;
    default: return ((uint64_t)choose(WORK, 1u << 30) << 34) + 1 + choose(WORK, 1u << 30);
  }
}

static std::vector<Log> first_draws(uint64_t seed, int T) {
  std::vector<Log> r(T);
  seed_rand(seed);
  #pragma omp parallel num_threads(T)
  { int t = omp_get_thread_num(); for (int i = 0; i < 6; i++) r[t].push_back(uniform_bits<uint32_t>()); }
  return r;
}

static void run() {
  swarm();
  int T = knobs.omp_threads;
  if (choose(WORK, 8) == 7) T = knobs.omp_threads = between(9, 60);
  uint64_t seed = a_seed();
  event("seed %llu threads %d mean gap %u", (unsigned long long)seed, T, knobs.preempt_mean);
  std::vector<std::vector<Op>> ops(T);
  for (auto &v : ops) {
    int n = choose(WORK, 14);
    while (n--) { int k = choose(WORK, 7), a = between(-5, 5); v.push_back({k, a, a + between(0, 9)}); }
  }
  // what came before must not matter
  if (choose(WORK, 2)) {
    stat("kind.used-before");
    uint64_t s0 = a_seed(); int n = between(1, 3);
    seed_rand(s0);
    #pragma omp parallel num_threads(T)
    { int t = omp_get_thread_num(); (void)t; for (int i = 0; i < n; i++) { uniform_rand_int(0, 9); normal_rand(0, 1); uniform_rand_real(0, 1); } }
  }
  std::vector<Log> got(T), want(T);
  under_schedule([&] {
    seed_rand(seed);
    #pragma omp parallel num_threads(T)
    { int t = omp_get_thread_num(); script(ops[t], got[t], true, t); }
  });
  entropy_seed = entropy_seed * 6364136223846793005ull + 1;
  // reference: each thread draws alone, the others do not draw at all
  int probe = choose(WORK, T + 1);
  auto alone = [&](int only) {
    seed_rand(seed);
    #pragma omp parallel num_threads(T)
    { int t = omp_get_thread_num(); if (only < 0 || t == only) { want[t].clear(); script(ops[t], want[t], false, t); } }
  };
  if (probe == T) { if (T <= 8) for (int t = 0; t < T; t++) alone(t); else alone(-1); }
  else { alone(-1); alone(probe); }
  for (int t = 0; t < T; t++)
    for (size_t i = 0; i < want[t].size(); i++)
      if (got[t][i] != want[t][i])
        fail("stream-differs", "seed %llu: draw %zu of thread %d of %d is %llx under this schedule, %llx when it draws alone", (unsigned long long)seed, i, t, T, (unsigned long long)got[t][i], (unsigned long long)want[t][i]);
  // different threads and seeds
  uint64_t other = choose(WORK, 2) ? a_seed() : seed * between(2, 5);
  if (other == 0 || other == seed) other = seed + 1;
  if (other == 0) other = 1;
  auto a = first_draws(seed, T), b = first_draws(other, T);
  for (int t = 0; t < T; t++)
    for (int u = 0; u < T; u++) {
      if (u != t && a[t] == a[u]) fail("same-stream", "seed %llu: threads %d and %d draw the same numbers", (unsigned long long)seed, t, u);
      if (a[t] == b[u]) fail("same-stream", "seed %llu thread %d draws the same numbers as seed %llu thread %d", (unsigned long long)seed, t, (unsigned long long)other, u);
    }
  uint64_t h = 5;
  for (auto &l : got) for (auto v : l) h = h * 1000003 + v;
  state_hash(h);
}
Harness g_harnesses[] = {{"C13", run, nullptr}, {nullptr, nullptr, nullptr}};
