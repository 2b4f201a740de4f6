// C17: results depend on inputs alone, not on clocks, entropy or leftover memory.
#include "ops.hpp"
#include <richdem/common/random.hpp>
#include <alloca.h>
#include <omp.h>
using namespace hz;

static Op seeded_op() {
  uint64_t seed = 1 + choose(WORK, 1000);
  if (choose(WORK, 4) == 3) seed = choose(WORK, 2) ? 0xFFFFFFFFull - choose(WORK, 3) : 1 + choose(WORK, 2);
  int n = between(1, 12), k = choose(WORK, 5);
  if (k == 0 && !choose(WORK, 3)) seed = 0; // a seed like any other here; seed_rand(0) asks for entropy
  if (k == 0) return {"terrain generation", [seed, n] { Grid<double> g(n, n, 0.0); generate_perlin_terrain(g, seed); std::string r; put_grid(r, g); return r; }};
  if (k == 1) return {"seeded draws", [seed, n] {
    std::string r; seed_rand(seed);
    for (int i = 0; i < n; i++) { auto a = uniform_rand_int(0, 1000); put(r, a); auto b = uniform_rand_real(0, 1); put(r, b); auto c = normal_rand(0, 1); put(r, c); }
    auto s = SaveRandomState(); uniform_bits<uint32_t>(); SetRandomState(s); for (int i = 0; i < 3; i++) { auto b = uniform_bits<uint32_t>(); put(r, b); }
    return r; }};
  DemOpt o; o.wmin = o.hmin = 3; o.wmax = o.hmax = 10;
  auto e = std::make_shared<Grid<float>>(to_grid(gen_dem<float>(o, -9999.f), -9999.f));
  if (k == 2) return {"seeded routing (Rho8)", [e, seed] { seed_rand(seed); Array3D<float> p(*e); FM_Rho8(*e, p); std::string r; put_grid3(r, p); return r; }};
  if (k == 3) return {"seeded routing (Fairfield-Leymarie)", [e, seed] { seed_rand(seed); Array3D<float> p(*e); FM_FairfieldLeymarie<Topology::D8>(*e, p); std::string r; put_grid3(r, p); return r; }};
  auto b = std::make_shared<Grid<double>>(*e, 0.0);
  return {"seeded accumulation (Rho8)", [e, seed] { seed_rand(seed); Grid<double> a(*e, 1.0); FA_Rho8(*e, a); std::string r; put_grid(r, a); return r; }};
}

// Leaves a pattern where the next calls' locals will be.
__attribute__((noinline)) NOINST static void scrub_stack(int byte) {
  volatile char *p = (volatile char *)alloca(192 << 10);
  for (size_t i = 0; i < (192u << 10); i++) p[i] = (char)byte;
}

struct World { int64_t start, step; bool jumps; int fill; uint64_t entropy; };
static World any_world() {
  static const int64_t S[] = {1700000000000000000ll, 0, -5000000000ll, 4102444800000000000ll, 1}, P[] = {1000, 0, 1, 1000000000ll, 3600000000000ll, -1000000};
  static const int F[] = {0xCB, 0x00, 0xFF, 0x7F, 0x01, 0x80, 0x3F};
  World w; w.start = S[choose(FAULT, 5)]; w.step = P[choose(FAULT, 6)]; w.jumps = choose(FAULT, 2); w.fill = F[choose(FAULT, 7)]; w.entropy = choose(FAULT, 1000);
  return w;
}
static std::string in_world(const World &w, const Op &o) {
  clock_simulated = true; clk.now_ns = w.start; clk.step_ns = w.step; clk.jumps = w.jumps;
  heap_fill(w.fill); set_entropy(w.entropy);
  stat("fault.fresh-memory-pattern"); stat("fault.entropy-value");
  std::string r;
  scrub_stack(w.fill);
  try { r = o.run(); } catch (const std::exception &e) { r = std::string("threw ") + e.what(); }
  clock_simulated = false; heap_fill(0xCB);
  return r;
}
static void run() {
  one_thread = true;
  knobs.omp_threads = 1; knobs.preempt_mean = 0;
  int n = 1 + choose(WORK, 3);
  std::vector<Op> ops;
  for (int i = 0; i < n; i++) ops.push_back(choose(WORK, 4) == 3 ? seeded_op() : any_op(12));
  World plain{1700000000000000000ll, 1000, false, 0xCB, 1};
  std::vector<std::string> want;
  for (auto &o : ops) want.push_back(in_world(plain, o));
  int rounds = 1 + choose(WORK, 3);
  uint64_t h = 0;
  for (int k = 0; k < rounds; k++) for (int j = 0; j < n; j++) {
    int i = choose(WORK, 3) ? j : choose(WORK, n); // what ran before must not matter either
    World w = any_world();
    event("%s in world start %lld step %lld jumps %d fill %02x entropy %llu", ops[i].name.c_str(), (long long)w.start, (long long)w.step, w.jumps, w.fill, (unsigned long long)w.entropy);
    std::string got = in_world(w, ops[i]);
    if (got != want[i]) fail("depends-on-world", "%s gives another result when clock, entropy or leftover memory differ: %s", ops[i].name.c_str(), first_difference(want[i], got).c_str());
    h = h * 31 + std::hash<std::string>()(got);
    stat("operations-compared");
    if (got.rfind("threw", 0) == 0) stat("operations-refused");
  }
  state_hash(h);
}
Harness g_harnesses[] = {{"C17", run, nullptr}, {nullptr, nullptr, nullptr}};
