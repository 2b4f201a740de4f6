// C11: the depression hierarchy is a valid forest, the same on any schedule.
#include "dephier.hpp"
using namespace hz;
using namespace richdem;
using namespace richdem::dephier;

static const int D4X[5] = {0, -1, 0, 1, 0}, D4Y[5] = {0, 0, -1, 0, 1};

static void same(const char *f, size_t i, double a, double b, double tol) {
  if (a == b || (a != a && b != b)) return;
  if (!(std::fabs(a - b) <= tol * (1 + std::fabs(a)))) fail("schedule-dependent", "depression %zu: %s is %.17g single-threaded, %.17g on this schedule", i, f, a, b);
}

template <class T, Topology topo> static void check(const Basin &b, double tol) {
  DH<T> s = start<T>(b), p = start<T>(b);
  const int w = b.e.w, h = b.e.h, NN = topo == Topology::D8 ? 8 : 4;
  const int *ddx = topo == Topology::D8 ? DX : D4X, *ddy = topo == Topology::D8 ? DY : D4Y;
  swarm();
  describe_dem(w, h);
  bool threw = false, threw2 = false;
  serially([&] { try { solve<T, topo>(s); } catch (const std::runtime_error &) { threw = true; } });
  under_schedule([&] { try { solve<T, topo>(p); } catch (const std::runtime_error &) { threw2 = true; } });
  if (threw != threw2) fail("schedule-dependent", "the hierarchy was refused on one schedule only");
  bool ocean = false;
  for (char c : b.ocean.d) if (c) ocean = true;
  if (threw) { if (ocean) fail("refused", "a terrain with ocean cells was refused"); stat("no-ocean"); return; }
  if (!ocean) fail("accepted", "a terrain without ocean was accepted");
  // the same on both schedules
  must_equal("labels", s.label, p.label); must_equal("flow directions", s.fd, p.fd); must_equal("elevations", s.topo, p.topo);
  auto &D = p.deps;
  if (D.size() != s.deps.size()) fail("schedule-dependent", "%zu depressions single-threaded, %zu on this schedule", s.deps.size(), D.size());
  for (size_t i = 0; i < D.size(); i++) {
    auto &x = s.deps[i], &y = D[i];
    if (x.pit_cell != y.pit_cell || x.out_cell != y.out_cell || x.parent != y.parent || x.odep != y.odep || x.geolink != y.geolink || x.lchild != y.lchild ||
        x.rchild != y.rchild || x.ocean_parent != y.ocean_parent || x.ocean_linked != y.ocean_linked || x.dep_label != y.dep_label || x.cell_count != y.cell_count)
      fail("schedule-dependent", "depression %zu of %zu differs from the single-threaded one (cells %u vs %u, parent %u vs %u, outlet %u vs %u)", i, D.size(), y.cell_count, x.cell_count, y.parent, x.parent, y.out_cell, x.out_cell);
    same("outlet elevation", i, x.out_elev, y.out_elev, 0); same("pit elevation", i, x.pit_elev, y.pit_elev, 0);
    same("volume", i, x.dep_vol, y.dep_vol, tol); same("total elevation", i, x.total_elevation, y.total_elevation, tol); same("water", i, x.water_vol, y.water_vol, 0);
  }
  // a valid forest
  const size_t n = D.size();
  auto bad = [&](size_t i, const char *why) { fail("invalid-forest", "depression %zu of %zu on %dx%d: %s", i, n, w, h, why); };
  if (D[0].lchild != NO_VALUE || D[0].rchild != NO_VALUE || D[0].parent != NO_PARENT) bad(0, "the ocean has children or a parent");
  std::vector<std::vector<char>> in(n, std::vector<char>(n, 0));      // in[d][leaf]: leaf is d or below it
  for (size_t i = 1; i < n; i++) {
    if (D[i].dep_label != i) bad(i, "wrong label");
    if ((D[i].lchild == NO_VALUE) != (D[i].rchild == NO_VALUE)) bad(i, "one child");
    if (D[i].lchild != NO_VALUE) {
      size_t l = D[i].lchild, r = D[i].rchild;
      if (l >= i || r >= i || l == 0 || r == 0 || l == r) bad(i, "children out of order");
      if (D[l].parent != i || D[r].parent != i || D[l].ocean_parent || D[r].ocean_parent) bad(i, "a child does not name it as parent");
      if (D[l].odep != r || D[r].odep != l) bad(i, "children do not overflow into each other");
      for (size_t k = 0; k < n; k++) in[i][k] = in[l][k] | in[r][k];
    } else in[i][i] = 1;
  }
  for (size_t i = 1; i < n; i++) {
    size_t q = i, steps = 0;
    while (q != OCEAN) { if (D[q].parent == NO_PARENT || D[q].parent >= n || ++steps > n) bad(i, "no way to the ocean"); q = D[q].parent; }
    auto &pa = D[D[i].parent];
    if (D[i].ocean_parent) { if (std::count(pa.ocean_linked.begin(), pa.ocean_linked.end(), i) != 1) bad(i, "not listed by the depression it spills into"); }
    else if (pa.lchild != i && pa.rchild != i) bad(i, "not a child of its parent");
    if (D[i].pit_cell >= (size_t)(w * h) || D[i].out_cell >= (size_t)(w * h)) bad(i, "no pit or outlet cell");
    T pe = p.topo(D[i].pit_cell);
    if (!(D[i].out_elev >= pe)) bad(i, "outlet below its pit");
    if (D[i].out_elev != p.topo(D[i].out_cell)) bad(i, "outlet elevation is not that of the outlet cell");
    if (D[i].lchild == NO_VALUE && D[i].pit_elev != pe) bad(i, "pit elevation is not that of the pit cell");
    if (D[i].lchild == NO_VALUE ? p.label(D[i].pit_cell) != i : false) bad(i, "its pit cell has another label");
    if (!in[i][p.label(D[i].pit_cell)]) bad(i, "pit outside the depression");
    if (D[i].geolink == NO_VALUE || (D[i].geolink && D[D[i].geolink].lchild != NO_VALUE)) bad(i, "overflows into no leaf");
    if (D[i].geolink && in[i][D[i].geolink]) bad(i, "overflows into itself");
    for (auto c : D[i].ocean_linked) if (c >= n || D[c].parent != i || !D[c].ocean_parent) bad(i, "lists a depression that does not spill into it");
  }
  // labels follow the flow directions, each to its own pit
  for (int i = 0; i < w * h; i++) {
    auto l = p.label(i);
    if (l >= n || D[l].lchild != NO_VALUE) fail("invalid-labels", "cell %d has label %u", i, l);
    if (b.ocean.d[i] && l != OCEAN) fail("invalid-labels", "ocean cell %d has label %u", i, l);
    int d = p.fd(i);
    if (d < 0 || d > NN) fail("invalid-labels", "cell %d has direction %d", i, d);
    if (d == 0) { if (l == OCEAN ? !b.ocean.d[i] : (int)D[l].pit_cell != i) fail("invalid-labels", "cell %d (label %u) has no direction but is no pit or ocean cell", i, l); continue; }
    int x = i % w, y = i / w, steps = 0;
    while ((d = p.fd(y * w + x)) != 0) {
      int nx = x + ddx[d], ny = y + ddy[d];
      if (nx < 0 || ny < 0 || nx >= w || ny >= h) fail("invalid-labels", "cell (%d,%d) flows off the raster", x, y);
      if (p.topo(nx, ny) > p.topo(x, y)) fail("invalid-labels", "cell (%d,%d) flows uphill", x, y);
      if (p.label(nx, ny) != l) fail("invalid-labels", "cell (%d,%d) flows into another depression", x, y);
      x = nx; y = ny;
      if (++steps > w * h) fail("invalid-labels", "flow directions run in a circle");
    }
  }
  // outlets are the lowest way out, cells and volumes what lies below them
  for (size_t i = 1; i < n; i++) {
    T low = std::numeric_limits<T>::max(); uint32_t cells = 0; double tot = 0;
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
      if (!in[i][p.label(x, y)]) continue;
      for (int k = 1; k <= NN; k++) { int nx = x + ddx[k], ny = y + ddy[k]; if (nx >= 0 && ny >= 0 && nx < w && ny < h && !in[i][p.label(nx, ny)]) low = std::min(low, std::max(p.topo(x, y), p.topo(nx, ny))); }
      if (p.topo(x, y) <= D[i].out_elev) { cells++; tot += p.topo(x, y); }
    }
    if (low != D[i].out_elev) fail("wrong-outlet", "depression %zu of %zu on %dx%d has its outlet at %g, the lowest way out is at %g", i, n, w, h, (double)D[i].out_elev, (double)low);
    double vol = cells * (double)D[i].out_elev - tot;
    if (cells != D[i].cell_count || !(std::fabs(vol - D[i].dep_vol) <= 1e-9 * (1 + std::fabs(tot))))
      fail("wrong-volume", "depression %zu of %zu on %dx%d: %u cells and volume %.17g, expected %u and %.17g", i, n, w, h, D[i].cell_count, D[i].dep_vol, cells, vol);
  }
  // utility relabelling
  if (std::is_floating_point<T>::value && choose(WORK, 4) == 3) {   // integers have no infinite outlet for the ocean
    Grid<dh_label_t> a = s.label, c = p.label;
    serially([&] { LastLayer(a, s.topo, s.deps); }); under_schedule([&] { LastLayer(c, p.topo, D); });
    must_equal("last layer", a, c);
  }
  stat("depressions", n - 1);
  state_hash(hash_grid(p.label) * 31 + n);
}

static void run() {
  Basin b = gen_basin();
  double tol = 0;                                     // all sums exact
  if (choose(WORK, 3) == 2) { for (auto &v : b.e.d) v += choose(WORK, 1000) / 997.0; tol = 1e-12; }
  if (choose(WORK, 40) == 39) for (auto &c : b.ocean.d) c = 0;
  switch (choose(WORK, 4)) {
    case 0: check<double, Topology::D8>(b, tol); break;
    case 1: check<float, Topology::D8>(b, tol > 0 ? 1e-9 : 0); break;
    case 2: check<double, Topology::D4>(b, tol); break;
    default: check<int32_t, Topology::D8>(b, 0);
  }
}
Harness g_harnesses[] = {{"C11", run, [] { GDALAllRegister(); }}, {nullptr, nullptr, nullptr}};
