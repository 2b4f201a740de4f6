// C08: terrain attributes, flow metrics, directions, flats, perimeters: same grid on any schedule.
#include "common.hpp"
#include <richdem/richdem.hpp>
#include <richdem/flats/find_flats.hpp>
#undef _richdem_dinf_methods_hpp_     // misc_methods.hpp uses the same include guard
#include <richdem/misc/misc_methods.hpp>
using namespace hz;
using namespace richdem;

template <class R> static void both(const char *what, const std::function<void(R &)> &op, R &a, R &b) {
  event("%s", what);
  serially([&] { op(a); });
  under_schedule([&] { op(b); });
}
// An output raster as a caller may hand it in: empty or left over from other work.
template <class T> static Grid<T> out_raster() {
  if (!choose(WORK, 3)) return Grid<T>();
  Grid<T> g(between(1, 9), between(1, 9), (T)3);
  g.setNoData((T)77);
  return g;
}

template <class T> static void attributes(const Grid<T> &e, int which) {
  static const char *nm[] = {"slope (rise/run)", "slope (percent)", "slope (degrees)", "slope (radians)", "aspect", "curvature", "planform curvature", "profile curvature"};
  float z = choose(WORK, 2) ? 1.f : 0.5f * (1 + choose(WORK, 6));
  Grid<float> a = out_raster<float>(), b = a;
  both<Grid<float>>(nm[which], [&](Grid<float> &o) {
    switch (which) {
      case 0: TA_slope_riserun(e, o, z); break;
      case 1: TA_slope_percentage(e, o, z); break;
      case 2: TA_slope_degrees(e, o, z); break;
      case 3: TA_slope_radians(e, o, z); break;
      case 4: TA_aspect(e, o, z); break;
      case 5: TA_curvature(e, o, z); break;
      case 6: TA_planform_curvature(e, o, z); break;
      default: TA_profile_curvature(e, o, z);
    }
  }, a, b);
  must_equal(nm[which], a, b);
  state_hash(hash_grid(b));
}

template <class T> static void indices(const Grid<T> &e, bool spi) {
  const char *nm = spi ? "stream power index" : "wetness index";
  Grid<float> slope(e.width(), e.height(), 0.f); Grid<double> acc(e.width(), e.height(), 0.);
  slope.setNoData(-1.f); acc.setNoData(-1.);
  slope.geotransform = acc.geotransform = {0, 1.5, 0, 0, 0, -1.5};
  for (uint32_t i = 0; i < acc.size(); i++) {
    acc(i) = choose(WORK, 9) == 8 ? -1. : 1. + choose(WORK, 40);
    slope(i) = choose(WORK, 9) == 8 ? -1.f : choose(WORK, 20) / 8.f;
  }
  Grid<float> a = out_raster<float>(), b = a;
  both<Grid<float>>(nm, [&](Grid<float> &o) { if (spi) TA_SPI(acc, slope, o); else TA_CTI(acc, slope, o); }, a, b);
  must_equal(nm, a, b);
  state_hash(hash_grid(b));
}

template <class T> static void metrics(const Grid<T> &e, int m) {
  static const char *nm[] = {"O'Callaghan D8", "O'Callaghan D4", "Tarboton", "Holmgren", "Quinn", "Freeman", "FM_D8", "FM_Dinfinity", "FM_D4", "FairfieldLeymarie off"};
  double x = 0.5 + choose(WORK, 6) * 0.5;
  Array3D<float> a(e), b(e);
  if (choose(WORK, 2)) b = Array3D<float>(e, 9.f), a = b;     // left-over contents
  both<Array3D<float>>(nm[m], [&](Array3D<float> &p) {
    switch (m) {
      case 0: FM_OCallaghan<Topology::D8>(e, p); break;
      case 1: FM_OCallaghan<Topology::D4>(e, p); break;
      case 2: FM_Tarboton(e, p); break;
      case 3: FM_Holmgren(e, p, x); break;
      case 4: FM_Quinn(e, p); break;
      case 5: FM_Freeman(e, p, x); break;
      case 6: FM_D8(e, p); break;
      case 7: FM_Dinfinity(e, p); break;
      default: FM_D4(e, p);
    }
  }, a, b);
  uint64_t h = 7;
  for (int y = 0; y < e.height(); y++) for (int x2 = 0; x2 < e.width(); x2++)
    for (int n = 0; n <= 8; n++) {
      float p = a(x2, y, n), q = b(x2, y, n);
      if (!same_bits(p, q) && !(p != p && q != q)) fail("wrong-value", "%s: proportion %d of cell (%d,%d) in %dx%d is %g, single-threaded %g", nm[m], n, x2, y, e.width(), e.height(), q, p);
      uint32_t u; memcpy(&u, &q, 4); h = h * 1000003 + u;
    }
  state_hash(h);
}

template <class T> static void directions(const Grid<T> &e, int which) {
  if (which == 0) {
    Grid<uint8_t> a = out_raster<uint8_t>(), b = a;
    both<Grid<uint8_t>>("D8 directions", [&](Grid<uint8_t> &o) { d8_flow_directions(e, o); }, a, b);
    must_equal("D8 directions", a, b); state_hash(hash_grid(b));
  } else if (which == 1) {
    Grid<float> a = out_raster<float>(), b = a;
    both<Grid<float>>("D-infinity directions", [&](Grid<float> &o) { dinf_flow_directions(e, o); }, a, b);
    must_equal("D-infinity directions", a, b); state_hash(hash_grid(b));
  } else {
    Grid<int8_t> a = out_raster<int8_t>(), b = a;
    both<Grid<int8_t>>("flats", [&](Grid<int8_t> &o) { FindFlats(e, o); }, a, b);
    must_equal("flats", a, b); state_hash(hash_grid(b));
  }
}

template <class T> static void totals(const Grid<T> &e, int which) {
  static const char *nm[] = {"perimeter (cells)", "perimeter (edges)", "surface area"};
  double z = 0.25 * (1 + choose(WORK, 6));
  double a = 0, b = 0;
  both<double>(nm[which], [&](double &o) {
    o = which == 0 ? Perimeter(e, PerimType::CELL_COUNT) : which == 1 ? Perimeter(e, PerimType::SQUARE_EDGE) : dem_surface_area(e, z);
  }, a, b);
  bool bad = which < 2 ? a != b : !(std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)));
  if (bad) fail("wrong-value", "%s of %dx%d is %.17g, single-threaded %.17g", nm[which], e.width(), e.height(), b, a);
  state_hash((uint64_t)(b * 1024));
}

template <class T> static void typed(T nodata) {
  DemOpt o; o.wmin = 1; o.hmin = 1; o.maxval = 100;
  auto g = gen_dem<T>(o, nodata);
  Grid<T> e = to_grid(g, nodata);
  double cell = 0.5 * (1 + choose(WORK, 4));
  e.geotransform = {10, cell, 0, 20, 0, -cell};
  swarm();
  describe_dem(g.w, g.h);
  int n = between(1, 3);
  while (n--) {
    int k = choose(WORK, 25);
    if (k < 8) { stat("op.attribute"); attributes(e, k); }
    else if (k < 10) { stat("op.index"); indices(e, k == 8); }
    else if (k < 19) { stat("op.metric"); if (g.w >= 3 && g.h >= 3) metrics(e, k - 10); }
    else if (k < 22) { stat("op.direction"); directions(e, k - 19); }
    else { stat("op.total"); totals(e, k - 22); }
  }
}

static void run() {
  switch (choose(WORK, 4)) {
    case 0: typed<float>(-9999.f); break;
    case 1: typed<double>(-9999.); break;
    case 2: typed<int16_t>(-9999); break;
    default: typed<uint8_t>(255);
  }
}
Harness g_harnesses[] = {{"C08", run, [] { GDALAllRegister(); }}, {nullptr, nullptr, nullptr}};
