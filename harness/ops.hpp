// Whole library operations as closures over inputs drawn up front (C14, C17).
// Running one draws nothing from the workload stream and returns the result's
// bytes, so runs under different conditions can be compared.
#pragma once
#include "dephier.hpp"
#include <richdem/richdem.hpp>
#include <richdem/depressions/depressions.hpp>
#include <richdem/flats/flats.hpp>
#include <richdem/flats/flat_resolution.hpp>
#include <richdem/flats/find_flats.hpp>
#undef _richdem_dinf_methods_hpp_     // misc_methods.hpp uses the same include guard
#include <richdem/misc/misc_methods.hpp>
#include <richdem/terrain_generation.hpp>
#include <memory>
namespace hz {
using namespace richdem;
// Set where every run is single-threaded: sums whose order depends on threads are compared too.
inline bool one_thread = false;
struct Op { std::string name; std::function<std::string()> run; };

template <class T> void put(std::string &o, const T &v) { o.append((const char *)&v, sizeof v); }
template <class T> void put_grid(std::string &o, const Grid<T> &g) {
  put(o, g.width()); put(o, g.height()); put(o, g.noData());
  for (uint32_t i = 0; i < g.size(); i++) { T v = g(i); if (v != v) v = std::numeric_limits<T>::quiet_NaN(); put(o, v); }
}
template <class T> void put_grid3(std::string &o, const Array3D<T> &g) {
  put(o, g.width()); put(o, g.height());
  for (int y = 0; y < g.height(); y++) for (int x = 0; x < g.width(); x++) for (int n = 0; n <= 8; n++) put(o, g(x, y, n));
}
inline std::string first_difference(const std::string &a, const std::string &b) {
  char s[160];
  if (a.size() != b.size()) { snprintf(s, sizeof s, "%zu bytes of result instead of %zu", b.size(), a.size()); return s; }
  size_t k = 0, n = 0, f = 0;
  for (; k < a.size(); k++) if (a[k] != b[k]) { if (!n) f = k; n++; }
  snprintf(s, sizeof s, "%zu of %zu result bytes differ, first at %zu", n, a.size(), f); return s;
}

// Which operation: drawn when negative, otherwise taken as given (callers doing the same thing meet in the same code).
struct Kind { int type = -1, op = -1; };
template <class T> Op terrain_op(T nodata, int maxside, Kind &kd) {
  DemOpt o; o.wmin = 3; o.hmin = 3; o.wmax = o.hmax = maxside; o.maxval = 30;
  auto e = std::make_shared<Grid<T>>(to_grid(gen_dem<T>(o, nodata), nodata));
  int k = kd.op >= 0 ? kd.op : (int)choose(WORK, 44); kd.op = k;
  Op op;
  auto dem = [&](const char *nm, std::function<void(Grid<T> &)> f) { op.name = nm; op.run = [e, f] { Grid<T> g = *e; f(g); std::string r; put_grid(r, g); return r; }; };
  auto f32 = [&](const char *nm, std::function<void(const Grid<T> &, Grid<float> &)> f) { op.name = nm; op.run = [e, f] { Grid<float> g; f(*e, g); std::string r; put_grid(r, g); return r; }; };
  auto route = [&](const char *nm, std::function<void(const Grid<T> &, Array3D<float> &)> f) {
    op.name = nm; op.run = [e, f] { Array3D<float> p(*e); f(*e, p); Grid<double> a(*e, 1.0); FlowAccumulation(p, a); std::string r; put_grid3(r, p); put_grid(r, a); return r; }; };
  switch (k) {
    case 0: dem("filling (original)", [](Grid<T> &g) { PriorityFlood_Original<Topology::D8>(g); }); break;
    case 1: dem("filling (Barnes 2014)", [](Grid<T> &g) { PriorityFlood_Barnes2014<Topology::D8>(g); }); break;
    case 2: dem("filling (Zhou 2016)", [](Grid<T> &g) { PriorityFlood_Zhou2016(g); }); break;
    case 3: dem("filling (Wei 2018)", [](Grid<T> &g) { PriorityFlood_Wei2018(g); }); break;
    case 4: dem("filling (D4)", [](Grid<T> &g) { FillDepressions<Topology::D4>(g); }); break;
    case 5: if constexpr (std::is_floating_point<T>::value) { dem("filling (epsilon)", [](Grid<T> &g) { PriorityFloodEpsilon_Barnes2014<Topology::D8>(g); }); break; } // fallthrough
    case 6: dem("breaching", [](Grid<T> &g) { CompleteBreaching_Lindsay2016<Topology::D8>(g); }); break;
    case 7: op.name = "flow directions by filling"; op.run = [e] { Grid<d8_flowdir_t> f; PriorityFloodFlowdirs_Barnes2014(*e, f); std::string r; put_grid(r, f); return r; }; break;
    case 8: op.name = "watersheds"; op.run = [e] { Grid<T> g = *e; Grid<int32_t> l; PriorityFloodWatersheds_Barnes2014<Topology::D8>(g, l, true); std::string r; put_grid(r, g); put_grid(r, l); return r; }; break;
    case 9: op.name = "depression mask"; op.run = [e] { Grid<uint8_t> m; pit_mask<Topology::D8>(*e, m); std::string r; put_grid(r, m); bool h = HasDepressions<Topology::D8>(*e); put(r, h); return r; }; break;
    case 10: dem("flat resolution (elevations)", [](Grid<T> &g) { ResolveFlatsEpsilon(g); }); break;
    case 11: op.name = "flat resolution (D8)"; op.run = [e] { Grid<T> g = *e; Grid<uint8_t> f; barnes_flat_resolution_d8(g, f, false); std::string r; put_grid(r, f); return r; }; break;
    case 12: f32("slope", [](const Grid<T> &g, Grid<float> &o) { TA_slope_degrees(g, o, 1.f); }); break;
    case 13: f32("aspect", [](const Grid<T> &g, Grid<float> &o) { TA_aspect(g, o, 1.f); }); break;
    case 14: f32("curvature", [](const Grid<T> &g, Grid<float> &o) { TA_planform_curvature(g, o, 1.f); }); break;
    case 15: f32("D-infinity directions", [](const Grid<T> &g, Grid<float> &o) { dinf_flow_directions(g, o); }); break;
    case 16: op.name = "D-infinity accumulation"; op.run = [e] { Grid<float> f; dinf_flow_directions(*e, f); Grid<float> a; dinf_upslope_area(f, a); std::string r; put_grid(r, f); if (one_thread) put_grid(r, a); return r; }; break;
    case 17: op.name = "D8 accumulation"; op.run = [e] { Grid<uint8_t> f; d8_flow_directions(*e, f); Grid<int32_t> a; d8_flow_accum(f, a); std::string r; put_grid(r, f); put_grid(r, a); return r; }; break;
    case 18: route("routing (D8)", [](const Grid<T> &g, Array3D<float> &p) { FM_D8(g, p); }); break;
    case 19: route("routing (Tarboton)", [](const Grid<T> &g, Array3D<float> &p) { FM_Tarboton(g, p); }); break;
    case 20: route("routing (Holmgren)", [](const Grid<T> &g, Array3D<float> &p) { FM_Holmgren(g, p, 2.0); }); break;
    case 21: route("routing (Quinn)", [](const Grid<T> &g, Array3D<float> &p) { FM_Quinn(g, p); }); break;
    case 22: route("routing (Freeman)", [](const Grid<T> &g, Array3D<float> &p) { FM_Freeman(g, p, 1.1); }); break;
    case 23: route("routing (D4)", [](const Grid<T> &g, Array3D<float> &p) { FM_D4(g, p); }); break;
    case 24: op.name = "flats"; op.run = [e] { Grid<int8_t> f; FindFlats(*e, f); std::string r; put_grid(r, f); return r; }; break;
    case 25: op.name = "perimeter"; op.run = [e] { std::string r; double p = Perimeter(*e, PerimType::SQUARE_EDGE); put(r, p); return r; }; break;
    case 26: if constexpr (std::is_floating_point<T>::value) { dem("breaching (constrained)", [](Grid<T> &g) { Lindsay2016(g, CONSTRAINED_BREACHING, false, false, 6, (T)3); }); break; } // fallthrough
    case 27: dem("filling (largest depth)", [](Grid<T> &g) { PriorityFlood_Barnes2014_max_dep<Topology::D8>(g, (uint64_t)5); }); break;
    case 28: f32("slope (percentage)", [](const Grid<T> &g, Grid<float> &o) { TA_slope_percentage(g, o, 1.f); }); break;
    case 29: f32("profile curvature", [](const Grid<T> &g, Grid<float> &o) { TA_profile_curvature(g, o, 1.f); }); break;
    case 30: f32("curvature (total)", [](const Grid<T> &g, Grid<float> &o) { TA_curvature(g, o, 1.f); }); break;
    case 31: f32("slope (radians)", [](const Grid<T> &g, Grid<float> &o) { TA_slope_radians(g, o, 1.f); }); break;
    case 32: route("routing (O'Callaghan D4)", [](const Grid<T> &g, Array3D<float> &p) { FM_OCallaghan<Topology::D4>(g, p); }); break;
    case 33: op.name = "flats with labels"; op.run = [e] { Grid<int32_t> m, l; GetFlatMask(*e, m, l); std::string r; put_grid(r, m); if (one_thread) put_grid(r, l); return r; }; break;
    case 34: op.name = "surface area"; op.run = [e] { std::string r; double s = dem_surface_area(*e, 1.0); if (one_thread) put(r, s); return r; }; break;
    case 35: f32("slope (rise over run)", [](const Grid<T> &g, Grid<float> &o) { TA_slope_riserun(g, o, 1.f); }); break;
    case 36: case 37: op.name = k == 36 ? "stream power" : "wetness index"; op.run = [e, k] {
      Grid<uint8_t> f; d8_flow_directions(*e, f); Grid<double> a; d8_flow_accum(f, a); Grid<float> sl, o; TA_slope_riserun(*e, sl, 1.f);
      a.geotransform = {0, 1, 0, 0, 0, -1};
      if (k == 36) TA_SPI(a, sl, o); else TA_CTI(a, sl, o);
      std::string r; put_grid(r, o); return r; }; break;
    case 38: route("routing (O'Callaghan D8)", [](const Grid<T> &g, Array3D<float> &p) { FM_OCallaghan<Topology::D8>(g, p); }); break;
    case 39: route("routing (D-infinity)", [](const Grid<T> &g, Array3D<float> &p) { FM_Dinfinity(g, p); }); break;
    case 40: op.name = "flat resolution (D-infinity)"; op.run = [e] { Grid<float> f; resolve_flats_barnes_dinf(*e, f); std::string r; put_grid(r, f); return r; }; break;
    case 41: op.name = "bucket fill"; op.run = [e] { Grid<uint8_t> m(*e, 0); BucketFillFromEdges<Topology::D8>(*e, m, (*e)(0), (uint8_t)3); std::string r; put_grid(r, m); return r; }; break;
    case 42: if constexpr (std::is_floating_point<T>::value) { dem("breaching (selective)", [](Grid<T> &g) { Lindsay2016(g, SELECTIVE_BREACHING, true, true, 4, (T)2); }); break; } // fallthrough
    default: op.name = "copies and edits"; op.run = [e] {
      Grid<T> a = *e, b; b = a; Grid<double> c(a, 2.5); b.flipVert(); a.setEdges((T)3); c.resize(a.width() + 1, a.height(), 1.5); Grid<T> m = std::move(b);
      m.expand(m.width() + 2, m.height() + 3, (T)7); m.replace((T)7, (T)8);
      std::string r; put_grid(r, a); put_grid(r, c); put_grid(r, m); return r; };
  }
  return op;
}
inline Op water_op(int maxside, Kind &kd) {
  auto b = std::make_shared<Basin>(gen_basin(3, maxside));
  auto w = std::make_shared<std::vector<double>>();
  for (int i = 0; i < b->e.w * b->e.h; i++) w->push_back((int)choose(WORK, 40) / 4.0 - 2);
  bool fsm = kd.op >= 0 ? kd.op & 1 : (int)choose(WORK, 2); kd.op = fsm;
  return {fsm ? "Fill-Spill-Merge" : "depression hierarchy", [b, w, fsm] {
    DH<double> d = start<double>(*b); std::string r;
    try { solve<double, Topology::D8>(d); } catch (const std::runtime_error &) { return std::string("no ocean"); }
    put_grid(r, d.label); put_grid(r, d.fd);
    for (size_t i = 1; i < d.deps.size(); i++) { auto &x = d.deps[i]; put(r, x.pit_cell); put(r, x.out_cell); put(r, x.parent); put(r, x.odep); put(r, x.cell_count); put(r, x.out_elev); put(r, x.dep_vol); }
    if (fsm) {
      Grid<double> t(b->e.w, b->e.h, 0.0); for (size_t i = 0; i < w->size(); i++) t(i) = (*w)[i];
      dephier::FillSpillMerge(d.topo, d.label, d.fd, d.deps, t); put_grid(r, t);
    }
    return r; }};
}
inline Op any_op(int maxside, Kind &kd) {
  if (kd.type < 0) kd.type = choose(WORK, 6);
  switch (kd.type) {
    case 0: return terrain_op<float>(-9999.f, maxside, kd);
    case 1: return terrain_op<double>(-9999., maxside, kd);
    case 2: return terrain_op<int16_t>(-9999, maxside, kd);
    case 3: return terrain_op<int32_t>(-9999, maxside, kd);
    default: return water_op(maxside, kd);
  }
}
inline Op any_op(int maxside) { Kind k; return any_op(maxside, k); }
}
