// C09: flow accumulation counts every contributing cell exactly once on any schedule.
#include "common.hpp"
#include <richdem/richdem.hpp>
using namespace hz;
using namespace richdem;

// Random acyclic flow: cells in random order, each flowing to earlier ones only.
static std::vector<int> random_rank(int n) {
  std::vector<int> r(n);
  for (int i = 0; i < n; i++) r[i] = i;
  for (int i = n - 1; i > 0; i--) std::swap(r[i], r[choose(WORK, i + 1)]);
  return r;
}

template <class U> static void check_d8(const G<uint8_t> &fd) {
  const int w = fd.w, h = fd.h;
  // reference: walk downstream from every cell
  G<long> want(w, h, 0);
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++) {
      if (fd(x, y) == FLOWDIR_NO_DATA) { want(x, y) = -1; continue; }
      int cx = x, cy = y;
      for (int steps = 0; steps <= w * h; steps++) {
        want(cx, cy)++;
        int n = fd(cx, cy);
        if (n == 0) break;
        int nx = cx + DX[n], ny = cy + DY[n];
        if (!fd.in(nx, ny) || fd(nx, ny) == FLOWDIR_NO_DATA) break;
        cx = nx; cy = ny;
      }
    }
  Grid<uint8_t> f = to_grid(fd, (uint8_t)FLOWDIR_NO_DATA);
  Grid<U> area;
  if (choose(WORK, 2)) area = Grid<U>(between(1, w + 1), between(1, h + 1), (U)7);   // stale output raster
  describe_dem(w, h);
  under_schedule([&] { d8_flow_accum(f, area); });
  if (area.width() != w || area.height() != h) fail("wrong-size", "accumulation is %dx%d, expected %dx%d", area.width(), area.height(), w, h);
  double out = 0, total = 0;
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++) {
      if (fd(x, y) == FLOWDIR_NO_DATA) {
        if (area(x, y) != area.noData() || area.noData() != (U)-1) fail("wrong-nodata", "NoData cell (%d,%d) holds %g", x, y, (double)area(x, y));
        continue;
      }
      if ((double)area(x, y) != (double)want(x, y))
        fail("wrong-count", "D8 accumulation of cell (%d,%d) in %dx%d is %g, %ld cells flow through it", x, y, w, h, (double)area(x, y), want(x, y));
      total++;
      int n = fd(x, y);
      if (n == 0 || !fd.in(x + DX[n], y + DY[n]) || fd(x + DX[n], y + DY[n]) == FLOWDIR_NO_DATA) out += (double)area(x, y);
    }
  if (out != total) fail("not-conserved", "%g cells of flow generated, %g leave or end in sinks", total, out);
  state_hash(hash_grid(area));
}

static void d8() {
  stat("kind.d8");
  int w = between(1, 12), h = between(1, 14);
  G<uint8_t> fd(w, h, 0);
  int nod = choose(WORK, 3) == 2 ? (int)between(1, 1 + w * h / 5) : 0;
  while (nod--) fd(choose(WORK, w), choose(WORK, h)) = FLOWDIR_NO_DATA;
  int kind = choose(WORK, 3);
  if (kind == 0) {                         // rank order: long confluences
    auto r = random_rank(w * h);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
      if (fd(x, y) == FLOWDIR_NO_DATA) continue;
      int c[9], n = 0;
      for (int k = 1; k <= 8; k++) { int nx = x + DX[k], ny = y + DY[k]; if (!fd.in(nx, ny)) { if (choose(WORK, 4) == 3) c[n++] = k; } else if (fd(nx, ny) == FLOWDIR_NO_DATA || r[ny * w + nx] < r[y * w + x]) c[n++] = k; }
      if (n && choose(WORK, 12) != 11) fd(x, y) = c[choose(WORK, n)];
    }
  } else if (kind == 1) {                  // many cells of both neighbouring rows into one row
    int row = choose(WORK, h);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
      if (fd(x, y) == FLOWDIR_NO_DATA) continue;
      int dy = y < row ? 1 : y > row ? -1 : 0;
      int dx = dy == 0 ? (x == 0 ? 0 : -1) : (x >= w - 1 ? 0 : (int)choose(WORK, 2));
      if (dy != 0 && x > 0 && choose(WORK, 3) == 2) dx = -1;
      for (int k = 1; k <= 8; k++) if (DX[k] == dx && DY[k] == dy) fd(x, y) = k;
    }
  } else {                                 // from a terrain, via the library's directions
    DemOpt o; o.nodata = false;
    G<float> dem = gen_dem<float>(o, -9999.f);
    Grid<float> e = to_grid(dem, -9999.f); Grid<uint8_t> f;
    serially([&] { d8_flow_directions(e, f); });
    fd = G<uint8_t>(dem.w, dem.h, 0);
    for (int y = 0; y < dem.h; y++) for (int x = 0; x < dem.w; x++) fd(x, y) = f(x, y);
  }
  swarm();
  switch (choose(WORK, 3)) { case 0: check_d8<int32_t>(fd); break; case 1: check_d8<float>(fd); break; case 2: check_d8<double>(fd); break; }
}

static const int IX[9] = {1, 1, 0, -1, -1, -1, 0, 1, 1}, IY[9] = {0, -1, -1, -1, 0, 1, 1, 1, 0};
static void dinf() {
  stat("kind.dinf");
  int w = between(1, 12), h = between(1, 14);
  // angle = (k + frac) * 45 degrees; a value of 0 means no flow, -1 NoData
  struct A { int k; int fr; bool flow, nod; };
  G<A> a(w, h, A{0, 0, false, false});
  int nod = choose(WORK, 3) == 2 ? (int)between(1, 1 + w * h / 5) : 0;
  while (nod--) a(choose(WORK, w), choose(WORK, h)).nod = true;
  auto r = random_rank(w * h);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    if (a(x, y).nod) continue;
    auto lower = [&](int k) { int nx = x + IX[k], ny = y + IY[k]; return !a.in(nx, ny) || a(nx, ny).nod || r[ny * w + nx] < r[y * w + x]; };
    std::vector<A> c;
    for (int k = 0; k < 8; k++) {
      if (k > 0 && lower(k)) c.push_back(A{k, 0, true, false});
      if (lower(k) && lower(k + 1)) c.push_back(A{k, between(1, 15), true, false});
    }
    if (!c.empty() && choose(WORK, 12) != 11) a(x, y) = c[choose(WORK, c.size())];
  }
  G<float> f(w, h, 0);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) f(x, y) = a(x, y).nod ? -1.f : !a(x, y).flow ? 0.f : (float)((a(x, y).k + a(x, y).fr / 16.0) * M_PI / 4);
  // reference: in rank order from high to low
  G<double> want(w, h, 0);
  std::vector<int> at(w * h);
  for (int i = 0; i < w * h; i++) at[r[i]] = i;
  for (int q = w * h - 1; q >= 0; q--) {
    int x = at[q] % w, y = at[q] / w; A &c = a(x, y);
    if (c.nod) { want(x, y) = -1; continue; }
    want(x, y) += 1;
    if (!c.flow) continue;
    double share[2] = {1 - c.fr / 16.0, c.fr / 16.0};
    for (int s = 0; s < 2; s++) {
      int nx = x + IX[(c.k + s)], ny = y + IY[(c.k + s)];
      if (share[s] > 0 && a.in(nx, ny) && !a(nx, ny).nod) want(nx, ny) += share[s] * want(x, y);
    }
  }
  Grid<float> fg = to_grid(f, -1.f);
  Grid<float> area;
  swarm();
  describe_dem(w, h);
  under_schedule([&] { dinf_upslope_area(fg, area); });
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++)
    if (std::fabs(area(x, y) - want(x, y)) > 1e-3 * (1 + std::fabs(want(x, y))))
      fail("wrong-count", "D-infinity area of cell (%d,%d) in %dx%d is %g, expected %g", x, y, w, h, (double)area(x, y), want(x, y));
  state_hash(hash_grid(area));
}

template <class A> static void generic() {
  stat("kind.generic");
  DemOpt o; o.wmin = 3; o.hmin = 3;
  G<float> dem = gen_dem<float>(o, -9999.f);
  const int w = dem.w, h = dem.h;
  Grid<float> e = to_grid(dem, -9999.f);
  Array3D<float> props(e);
  int m = choose(WORK, 10);
  swarm();
  describe_dem(w, h);
  Grid<A> acc(w, h, (A)1);
  G<double> own(w, h, 1);
  if (choose(WORK, 2)) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { own(x, y) = choose(WORK, 5); acc(x, y) = (A)own(x, y); }
  bool direct = choose(WORK, 2);
  auto metric = [&](Array3D<float> &p) {
    switch (m) {
      case 0: FM_OCallaghan<Topology::D8>(e, p); break;
      case 1: FM_OCallaghan<Topology::D4>(e, p); break;
      case 2: FM_Tarboton(e, p); break;
      case 3: FM_Holmgren(e, p, 2.0); break;
      case 4: FM_Quinn(e, p); break;
      case 5: FM_Freeman(e, p, 1.1); break;
      case 6: FM_D8(e, p); break;
      case 8: FM_Rho8(e, p); break;
      case 9: FM_D4(e, p); break;
      default: FM_Dinfinity(e, p); break;
    }
  };
  static const char *nm[] = {"O'Callaghan D8", "O'Callaghan D4", "Tarboton", "Holmgren", "Quinn", "Freeman", "D8", "D-infinity", "Rho8", "D4"};
  serially([&] { metric(props); });
  under_schedule([&] {
    if (m == 8) FlowAccumulation(props, acc);           // drawn anew each time
    else if (!direct) { Array3D<float> p2(e); metric(p2); FlowAccumulation(p2, acc); }
    else switch (m) {
      case 0: FA_OCallaghanD8(e, acc); break;
      case 1: FA_OCallaghanD4(e, acc); break;
      case 2: FA_Tarboton(e, acc); break;
      case 3: FA_Holmgren(e, acc, 2.0); break;
      case 4: FA_Quinn(e, acc); break;
      case 5: FA_Freeman(e, acc, 1.1); break;
      case 6: FA_D8(e, acc); break;
      case 9: FA_D4(e, acc); break;
      default: FA_Dinfinity(e, acc); break;
    }
  });
  // reference: cells by decreasing elevation (metrics route strictly downhill)
  std::vector<int> ord;
  for (int i = 0; i < w * h; i++) ord.push_back(i);
  std::stable_sort(ord.begin(), ord.end(), [&](int p, int q) { return dem.d[p] > dem.d[q]; });
  G<double> want = own;
  double gen = 0, out = 0;
  auto nodata = [&](int i) { return dem.d[i] == -9999.f; };
  for (int i : ord) {
    if (nodata(i)) continue;
    gen += own.d[i];
    int x = i % w, y = i / w; double sent = 0;
    if (x > 0 && y > 0 && x < w - 1 && y < h - 1)
      for (int n = 1; n <= 8; n++) {
        float p = props(x, y, n);
        if (p <= 0) continue;
        int j = (y + DY[n]) * w + x + DX[n];
        if (nodata(j)) { sent += p; out += p * want.d[i]; continue; }
        want.d[j] += p * want.d[i]; sent += p;
      }
    if (sent < 0.5) out += want.d[i];
  }
  for (int i = 0; i < w * h; i++) {
    if (nodata(i)) { if (acc(i) != acc.noData()) fail("wrong-nodata", "%s: NoData cell %d holds %g", nm[m], i, (double)acc(i)); continue; }
    if (std::fabs(acc(i) - want.d[i]) > 1e-3 * (1 + std::fabs(want.d[i])))
      fail("wrong-count", "%s accumulation of cell (%d,%d) in %dx%d is %g, expected %g", nm[m], i % w, i / w, w, h, (double)acc(i), want.d[i]);
  }
  if (std::fabs(out - gen) > 1e-3 * (1 + gen)) fail("not-conserved", "%s: %g generated, %g leave or end in sinks", nm[m], gen, out);
  state_hash(hash_grid(acc));
}

// Proportions of a random acyclic flow in which many cells feed each one.
template <class A> static void confluence() {
  stat("kind.confluence");
  const int w = between(3, 12), h = between(3, 16);
  auto r = random_rank(w * h);
  if (choose(WORK, 2)) {                   // towards one row or column: everything meets there
    int at = choose(WORK, h);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) r[y * w + x] = abs(y - at) * w + r[y * w + x] % w;
  }
  G<char> nod(w, h, 0);
  int nn = choose(WORK, 3) == 2 ? (int)between(1, 1 + w * h / 5) : 0;
  while (nn--) nod(choose(WORK, w), choose(WORK, h)) = 1;
  Grid<float> e(w, h, 0);
  e.setNoData(-9999);
  Array3D<float> props(e);
  props.setAll(NO_FLOW_GEN);
  props.setNoData(NO_DATA_GEN);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    if (nod(x, y)) { props(x, y, 0) = NO_DATA_GEN; continue; }
    if (x == 0 || y == 0 || x == w - 1 || y == h - 1) continue;
    int c[8], n = 0;
    for (int k = 1; k <= 8; k++) if (r[(y + DY[k]) * w + x + DX[k]] < r[y * w + x]) c[n++] = k;
    if (!n || choose(WORK, 12) == 11) continue;
    int parts[8], sum = 0;
    for (int i = 0; i < n; i++) sum += parts[i] = choose(WORK, 4);
    if (!sum) sum = parts[0] = 1;
    props(x, y, 0) = HAS_FLOW_GEN;
    for (int i = 0; i < n; i++) if (parts[i]) props(x, y, c[i]) = (float)parts[i] / sum;
  }
  Grid<A> acc(w, h, (A)1);
  G<double> want(w, h, 1);
  if (choose(WORK, 2)) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { want(x, y) = choose(WORK, 5); acc(x, y) = (A)want(x, y); }
  std::vector<int> at(w * h);
  for (int i = 0; i < w * h; i++) at[i] = i;
  std::stable_sort(at.begin(), at.end(), [&](int p, int q) { return r[p] > r[q]; });
  for (int i : at) if (!nod.d[i]) for (int k = 1; k <= 8; k++) {
    int x = i % w, y = i / w; float p = props(x, y, k);
    if (p > 0 && !nod(x + DX[k], y + DY[k])) want(x + DX[k], y + DY[k]) += p * want.d[i];
  }
  swarm();
  describe_dem(w, h);
  under_schedule([&] { FlowAccumulation(props, acc); });
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    if (nod(x, y)) { if (acc(x, y) != acc.noData()) fail("wrong-nodata", "confluence: NoData cell (%d,%d) holds %g", x, y, (double)acc(x, y)); }
    else if (std::fabs(acc(x, y) - want(x, y)) > 1e-3 * (1 + std::fabs(want(x, y)))) fail("wrong-count", "accumulation of cell (%d,%d) in %dx%d is %g, expected %g", x, y, w, h, (double)acc(x, y), want(x, y));
  }
  state_hash(hash_grid(acc));
}

static void run() {
  switch (choose(WORK, 7)) {
    case 0: case 1: d8(); break;
    case 2: case 3: dinf(); break;
    case 4: if (choose(WORK, 2)) confluence<double>(); else confluence<float>(); break;
    default: if (choose(WORK, 2)) generic<double>(); else generic<float>();
  }
}
Harness g_harnesses[] = {{"C09", run, [] { GDALAllRegister(); }}, {nullptr, nullptr, nullptr}};
