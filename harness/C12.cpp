// C12: Fill-Spill-Merge conserves water over any history and schedule.
#include "dephier.hpp"
using namespace hz;
using namespace richdem;
using namespace richdem::dephier;

static const double EPS = 1e-5;

// Where the water ends up, depression by depression, when every cell is
// saturated: pour each leaf's water in and let whatever is full spill.
struct Ref {
  const DepressionHierarchy<double> &D; std::vector<double> w; double ocean = 0;
  bool full(size_t d) const { return w[d] >= D[d].dep_vol - 1e-9; }
  void pour(size_t leaf, double x) {
    size_t guard = 0, c = leaf;
    while (c != OCEAN) {
      if (++guard > 100 * D.size() + 1000) fail("model", "the reference model does not settle");
      double room = std::max(0.0, D[c].dep_vol - w[c]);
      if (x <= room) { w[c] += x; return; }
      w[c] = D[c].dep_vol; x -= room;
      if (D[c].ocean_parent) { c = D[c].geolink; continue; }
      if (!full(D[c].odep)) { c = D[c].geolink; continue; }
      size_t p = D[c].parent;                          // both children are full: the rest rises in the parent
      if (w[p] == 0) w[p] = D[D[c].odep].dep_vol + D[c].dep_vol;
      c = p;
    }
    ocean += x;
  }
};

static void expect_levels(const DH<double> &s, const G<double> &before, const Grid<double> &wtd) {
  auto &D = s.deps; const int w = wtd.width(), h = wtd.height(); const size_t n = D.size();
  Ref r{D, std::vector<double>(n, 0.0)};
  for (int i = 0; i < w * h; i++) if (before.d[i] > 0) r.pour(s.label(i), before.d[i]);
  std::vector<std::vector<char>> in(n, std::vector<char>(n, 0));
  for (size_t i = 1; i < n; i++) { if (D[i].lchild == NO_VALUE) in[i][i] = 1; else for (size_t k = 0; k < n; k++) in[i][k] = in[D[i].lchild][k] | in[D[i].rchild][k]; }
  std::vector<double> want(w * h, 0.0);
  for (size_t i = 1; i < n; i++) {                     // children before parents: a parent's level overrides
    if (D[i].lchild != NO_VALUE && !(r.full(D[i].lchild) && r.full(D[i].rchild))) continue;
    if (r.w[i] == 0) continue;
    std::vector<std::pair<double, int>> c;
    for (int k = 0; k < w * h; k++) if (in[i][s.label(k)] && s.topo(k) <= D[i].out_elev) c.push_back({s.topo(k), k});
    std::sort(c.begin(), c.end());
    double tot = 0, level = D[i].out_elev; size_t m = 0;
    for (; m < c.size(); m++) { if (m && m * c[m].first - tot >= r.w[i]) break; tot += c[m].first; }
    if (m) level = std::min((double)D[i].out_elev, (r.w[i] + tot) / m);
    for (auto &p : c) want[p.second] = std::max(0.0, level - p.first);
  }
  for (int i = 0; i < w * h; i++)
    if (!(std::fabs(want[i] - wtd(i)) <= 1e-4)) fail("wrong-level", "cell (%d,%d) of %dx%d holds %.9g, filling and spilling leaves %.9g there", i % w, i / w, w, h, wtd(i), want[i]);
  if (!(std::fabs(r.ocean - D[0].water_vol) <= 1e-4)) fail("wrong-ocean", "%.9g reached the ocean, expected %.9g", D[0].water_vol, r.ocean);
}

static void invariants(const DH<double> &s, const Grid<double> &wtd) {
  auto &D = s.deps; const int w = wtd.width(), h = wtd.height();
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    double d = wtd(x, y);
    if (!std::isfinite(d)) fail("not-finite", "cell (%d,%d) has water table %g", x, y, d);
    if (d <= EPS) continue;
    size_t l = s.label(x, y);
    if (l == OCEAN) fail("above-outlet", "cell (%d,%d), which drains to the ocean, holds %.9g of standing water", x, y, d);
    while (!D[l].ocean_parent) l = D[l].parent;
    double level = s.topo(x, y) + d;
    if (level > D[l].out_elev + EPS) fail("above-outlet", "cell (%d,%d) stands at %.9g, the outlet is at %.9g", x, y, level, (double)D[l].out_elev);
    for (int k = 1; k <= 8; k++) {
      int nx = x + DX[k], ny = y + DY[k];
      if (nx < 0 || ny < 0 || nx >= w || ny >= h) continue;
      if (wtd(nx, ny) > EPS) { double o = s.topo(nx, ny) + wtd(nx, ny); if (std::fabs(o - level) > EPS) fail("not-level", "cells (%d,%d) and (%d,%d) stand at %.9g and %.9g", x, y, nx, ny, level, o); }
      else if (s.topo(nx, ny) < level - EPS) fail("unfilled", "cell (%d,%d) stands at %.9g, its neighbour (%d,%d) at %.9g holds %.9g", x, y, level, nx, ny, (double)s.topo(nx, ny), wtd(nx, ny));
    }
  }
}

static double total(const Grid<double> &g) { double t = 0; for (uint32_t i = 0; i < g.size(); i++) t += g(i); return t; }

static void run() {
  Basin b = gen_basin(2, choose(WORK, 8) == 7 ? 24 : 12);
  swarm();
  const int w = b.e.w, h = b.e.h;
  describe_dem(w, h);
  bool dry = choose(WORK, 2);                           // cells with room underground
  bool exact = choose(WORK, 4) != 3;
  DH<double> s = start<double>(b);
  if (!exact) for (uint32_t i = 0; i < s.topo.size(); i++) s.topo(i) += choose(WORK, 1000) / 997.0;
  bool sched = choose(WORK, 2);
  auto build = [&] { try { solve<double, Topology::D8>(s); } catch (const std::runtime_error &) { end_run_ok(); } };
  bool ocean = false; for (char c : b.ocean.d) if (c) ocean = true;
  if (!ocean) { stat("no-ocean"); return; }
  if (sched) under_schedule(build); else serially(build);
  auto D2 = s.deps;                                     // the single-threaded history's hierarchy
  G<double> state(w, h, 0.0);
  Grid<double> wtd(w, h, 0.0);
  if (dry) for (uint32_t i = 0; i < wtd.size(); i++) if (choose(WORK, 3)) wtd(i) = -(double)choose(WORK, 20) / 4;
  int rounds = 1 + choose(WORK, 4);
  double unit = choose(WORK, 3) == 2 ? 0.1 : 1.0 / 4;
  for (int r = 0; r < rounds; r++) {
    int how = choose(WORK, 6);
    uint32_t amount = choose(WORK, 3) == 2 ? 400 : 24;
    switch (how) {
      case 0: { double a = choose(WORK, amount) * unit; for (uint32_t i = 0; i < wtd.size(); i++) wtd(i) += a; break; }
      case 1: for (uint32_t i = 0; i < wtd.size(); i++) wtd(i) += choose(WORK, amount) * unit; break;
      case 2: { int n = between(1, 6); while (n--) wtd(choose(WORK, wtd.size())) += choose(WORK, amount * 8) * unit; break; }
      case 3: for (uint32_t i = 0; i < wtd.size(); i++) if (choose(WORK, 3) == 2) { double t = choose(WORK, 12) * unit; wtd(i) = dry ? wtd(i) - t : std::max(0.0, wtd(i) - t); } break;
      case 4: break;                                    // run again on what is there
      default: for (uint32_t i = 0; i < wtd.size(); i++) wtd(i) = dry ? wtd(i) + 1000 : 1000; break;   // flood everything
    }
    for (uint32_t i = 0; i < wtd.size(); i++) state.d[i] = wtd(i);
    bool allwet = true; for (double v : state.d) if (v < 0) allwet = false;
    double before = total(wtd), mag = 0; for (double v : state.d) mag += std::fabs(v);
    Grid<double> wtd1 = wtd;
    if (tracing()) {
      for (int y = 0; y < h; y++) { std::ostringstream o; for (int x = 0; x < w; x++) o << s.topo(x, y) << (b.ocean(x, y) ? "~" : "") << ":" << +s.label(x, y) << ":" << wtd(x, y) << ' '; note("%s", o.str().c_str()); }
      for (auto &d : s.deps) note("dep %u pit %u out %u at %g parent %u odep %d geo %d l %d r %d oceanpar %d vol %g cells %u", d.dep_label, d.pit_cell, d.out_cell, (double)d.out_elev, d.parent, (int)d.odep, (int)d.geolink, (int)d.lchild, (int)d.rchild, d.ocean_parent, d.dep_vol, d.cell_count);
    }
    auto lab = s.label; auto fd = s.fd; auto topo = s.topo;
    serially([&] { FillSpillMerge(s.topo, s.label, s.fd, D2, wtd1); });
    under_schedule([&] { FillSpillMerge(s.topo, s.label, s.fd, s.deps, wtd); });
    must_equal("labels", lab, s.label); must_equal("flow directions", fd, s.fd); must_equal("topography", topo, s.topo);
    if (tracing()) {
      for (auto &d : s.deps) note("dep %u holds %.12g of %.12g", d.dep_label, d.water_vol, d.dep_vol);
      for (int y = 0; y < h; y++) { std::ostringstream o; for (int x = 0; x < w; x++) o << s.topo(x, y)+wtd(x, y)<<":"<<wtd(x,y) << ' '; note("%s", o.str().c_str()); }
    }
    double after = total(wtd) + s.deps[0].water_vol, tol = EPS * (1 + w * h) * 0.1 + 1e-11 * mag;
    if (!(std::fabs(after - before) <= tol)) fail("not-conserved", "round %d on %dx%d: %.12g went in, %.12g came out (%.9g of it to the ocean)", r, w, h, before, after, s.deps[0].water_vol);
    invariants(s, wtd);
    if (allwet) { expect_levels(s, state, wtd); stat("rounds.saturated"); }
    must_equal("water table", wtd1, wtd);
    if (!same_bits(D2[0].water_vol, s.deps[0].water_vol)) fail("schedule-dependent", "%.17g reached the ocean single-threaded, %.17g on this schedule", D2[0].water_vol, s.deps[0].water_vol);
    stat("rounds");
    if (choose(WORK, 8) == 7) { s.deps = D2; stat("hierarchy-copied"); }
    state_hash(hash_grid(wtd));
  }
}
Harness g_harnesses[] = {{"C12", run, [] { GDALAllRegister(); }}, {nullptr, nullptr, nullptr}};
