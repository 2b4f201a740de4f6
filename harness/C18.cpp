// C18: the command-line tools. Each run takes one of them, as it is, through a
// quiet run, a run on a failing disk under some schedule, and a last run over
// what that left behind.
#include "common.hpp"
#include "dephier.hpp"
#include <richdem/richdem.hpp>
#include <richdem/common/Layoutfile.hpp>
#include <richdem/depressions/Barnes2014.hpp>
#include <richdem/depressions/Lindsay2016.hpp>
#include <richdem/depressions/Zhou2016.hpp>
#include <richdem/flats/flat_resolution.hpp>
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/methods/terrain_attributes.hpp>
#undef _richdem_dinf_methods_hpp_
#include <richdem/misc/misc_methods.hpp>
#include "tif.hpp"
#include <cpl_conv.h>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>
using namespace hz;
using namespace richdem;

typedef int (*Entry)(int, char **);
static std::map<std::string, Entry> g_tool;
static std::vector<std::string> g_proj;
static const char *const TOOLS[] = {"rd_compare", "rd_d8_flowdirs", "rd_depression_hierarchy", "rd_depressions_breach", "rd_depressions_flood", "rd_depressions_has", "rd_depressions_mask",
  "rd_expand_dimensions", "rd_fill_spill_merge", "rd_flood_for_flowdirs", "rd_flow_accumulation", "rd_geotransform", "rd_hist", "rd_loop_check", "rd_merge_rasters_by_layout", "rd_no_data",
  "rd_processing_history", "rd_projection", "rd_raster_display", "rd_raster_inspect", "rd_taudem_d8_to_richdem_d8", "rd_terrain_property"};
static const int NTOOLS = sizeof TOOLS / sizeof *TOOLS;
static void init() {
  GDALAllRegister();
  CPLSetErrorHandler([](CPLErr c, CPLErrorNum n, const char *m) { if (self()) note("gdal %d %d %s", c, n, m); });
  char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0;
  std::string dir(b); dir.erase(dir.rfind('/'));
  for (const char *t : TOOLS) {
    void *h = dlopen((dir + "/" + t + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
    Entry e = h ? (Entry)dlsym(h, "_Z7rd_mainiPPc") : nullptr;
    if (!e) { fprintf(stderr, "%s\n", dlerror()); _exit(94); }
    g_tool[t] = e;
  }
  g_proj = {""};
  for (int epsg : {32633, 4326}) {
    std::string f = "/vsimem/p.tif"; char *w = nullptr;
    OGRSpatialReferenceH s = OSRNewSpatialReference(nullptr);
    if (OSRSetWellKnownGeogCS(s, "WGS84") == 0 && (epsg == 4326 || OSRSetUTM(s, 33, 1) == 0) && OSRExportToWkt(s, &w) == 0 && put_tif(f, 1, 1, GDT_Byte, 0, nullptr, w, {0})) g_proj.push_back(get_tif(f).proj);
    CPLFree(w); OSRDestroySpatialReference(s);
  }
}

struct Out { std::string path; GDALDataType t; int w, h; std::vector<double> d; double nodata = 0; bool nd = false, gt = false, cells = true; double g[6]; bool proj = false; std::string p, op; size_t entries = 0; };
struct Case {
  std::string tool; std::vector<std::string> args; std::vector<Out> outs;
  bool refuse = false;                                      // the arguments ask for what cannot be had
  std::function<void(const std::string &)> text;            // checks what was printed
  std::map<std::string, std::string> files;                 // text files left behind
  std::string in;                                           // the input, and its georeference
  double gt[6]; std::string proj, history; bool has_gt = true; double nodata = 0;
};
static std::string P(const std::string &n) { return sim::scratch + "/" + n; }
static std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
template <class T> static std::vector<double> doubles(const Grid<T> &g) { std::vector<double> d; for (int y = 0; y < g.height(); y++) for (int x = 0; x < g.width(); x++) d.push_back((double)g(x, y)); return d; }
template <class T> static void expect(Case &c, const std::string &path, const Grid<T> &g, bool nd, bool gt, bool proj) {
  Out o; o.path = path; o.t = NativeTypeToGDAL<T>(); o.w = g.width(); o.h = g.height(); o.d = doubles(g); o.nd = nd; o.nodata = (double)g.noData();
  o.gt = gt; std::copy(c.gt, c.gt + 6, o.g); o.proj = proj; o.p = c.proj; o.op = c.tool;
  c.outs.push_back(o);
}
// What the library sees once it has read the file.
template <class T> static Grid<T> seen(const Case &c, const G<T> &g) {
  Grid<T> a = to_grid(g, (T)c.nodata);
  a.geotransform.assign(c.gt, c.gt + 6); a.projection = c.proj;
  return a;
}
static const double STANDARD[6] = {1000, 1, 0, 1000, 0, -1};
template <class T> static void put_input(Case &c, const std::string &name, const G<T> &g) {
  std::vector<double> d(g.d.begin(), g.d.end());
  if (!put_tif(P(name), g.w, g.h, NativeTypeToGDAL<T>(), c.nodata, c.has_gt ? c.gt : nullptr, c.proj, d)) { fprintf(stderr, "cannot write an input\n"); _exit(94); }
  if (!c.history.empty()) { GDALDatasetH ds = GDALOpen(P(name).c_str(), GA_Update); GDALSetMetadataItem(ds, "PROCESSING_HISTORY", c.history.c_str(), nullptr); GDALClose(ds); }
}
static void place(Case &c, bool flips) {
  static const double S[] = {1, 2, 0.5, 30};
  double s = S[choose(WORK, 4)], t = S[choose(WORK, 4)];
  c.gt[0] = (int)choose(WORK, 2000) - 1000; c.gt[1] = s; c.gt[2] = 0; c.gt[3] = (int)choose(WORK, 2000) - 1000; c.gt[4] = 0; c.gt[5] = -t;
  if (flips && choose(WORK, 4) == 3) c.gt[1] = -s;
  if (flips && choose(WORK, 4) == 3) c.gt[5] = t;
  c.proj = g_proj[choose(WORK, g_proj.size())];
  if (choose(WORK, 2)) c.history = "2020-01-01 00:00:00 UTC | RichDEM | a first step\n2020-01-02 00:00:00 UTC | RichDEM | a second step\n";
}
template <class T> static G<T> elevations(Case &c, int side = 14) {
  DemOpt o; o.wmin = o.hmin = 3; o.wmax = o.hmax = side; o.maxval = 40;
  T nd = std::is_unsigned<T>::value ? (T)(sizeof(T) == 1 ? 255 : 60001) : (T)-9999;
  c.nodata = (double)nd;
  return gen_dem<T>(o, nd);
}
static std::vector<double> numbers(const std::string &s) { std::vector<double> v; std::istringstream in(s); double d; while (in >> d) v.push_back(d); return v; }
// What follows the header every tool prints.
static std::string body(const std::string &s) { size_t k = s.find("a Analysis command"); if (k == std::string::npos) return s; k = s.find('\n', k); return k == std::string::npos ? "" : s.substr(k + 1); }
#define wrong_text(...) fail("wrong-text", __VA_ARGS__)

// ------------------------------------------------------------ tools which move cells about
template <class T> static void light(Case &c) {
  const std::string t = c.tool;
  place(c, true);
  G<T> g = elevations<T>(c, choose(WORK, 12) == 11 ? 60 : 14);
  std::string in = P("in.tif"), out = P("out.tif");
  c.in = in; c.args = {in};
  if (t == "rd_taudem_d8_to_richdem_d8") { c.nodata = choose(WORK, 2) ? 100 : 9; for (auto &v : g.d) v = choose(WORK, 9) == 8 ? (T)c.nodata : (T)choose(WORK, 9); }
  if (t == "rd_loop_check") { c.nodata = 100; for (auto &v : g.d) v = (T)choose(WORK, 9); }
  put_input(c, "in.tif", g);
  Grid<T> a = seen(c, g);
  if (t == "rd_taudem_d8_to_richdem_d8") {
    static const int M[9] = {0, 5, 4, 3, 2, 1, 8, 7, 6};
    for (auto &v : g.d) if ((double)v != c.nodata) v = (T)M[(int)v];
    c.args = {in, out}; expect(c, out, seen(c, g), true, true, true);
  } else if (t == "rd_expand_dimensions") {
    int w = g.w + (int)choose(WORK, 6) - 1, h = g.h + (int)choose(WORK, 6) - 1;
    if (w < 1) w = 1;
    if (h < 1) h = 1;
    c.args = {in, out, std::to_string(w), std::to_string(h)};
    if (w < g.w || h < g.h) { c.refuse = true; return; }
    G<T> e(w, h, (T)c.nodata);
    for (int y = 0; y < g.h; y++) for (int x = 0; x < g.w; x++) e(x, y) = g(x, y);
    expect(c, out, seen(c, e), true, true, true);
  } else if (t == "rd_geotransform") {
    if (choose(WORK, 4) == 3) {
      c.text = [=](const std::string &s) {
        std::string b = body(s); size_t k = b.find("Geotransform:"), w = b.find("Width:"), h = b.find("Height:");
        if (k == std::string::npos || w == std::string::npos || h == std::string::npos) wrong_text("rd_geotransform printed no geotransform");
        auto v = numbers(b.substr(k + 13)), vw = numbers(b.substr(w + 6)), vh = numbers(b.substr(h + 7));
        if (v.size() < 6 || vw.empty() || vh.empty()) wrong_text("rd_geotransform printed %zu numbers", v.size());
        for (int i = 0; i < 6; i++) if (v[i] != c.gt[i]) wrong_text("rd_geotransform printed %g for %g", v[i], c.gt[i]);
        if (vw[0] != g.w || vh[0] != g.h) wrong_text("rd_geotransform printed %gx%g for %dx%d", vw[0], vh[0], g.w, g.h);
      };
      return;
    }
    c.args = {in, out}; double n[6];
    for (int i = 0; i < 6; i++) {
      n[i] = c.gt[i];
      if (choose(WORK, 2)) { c.args.push_back("x"); continue; }
      n[i] = i == 2 || i == 4 ? 0 : (int)choose(WORK, 1000) - 500.25;
      c.args.push_back(num(n[i]));
    }
    expect(c, out, a, true, true, true); std::copy(n, n + 6, c.outs[0].g);
  } else if (t == "rd_no_data") {
    if (choose(WORK, 4) == 3) { c.text = [=](const std::string &s) { auto v = numbers(s.substr(s.rfind('\n', s.size() - 2) + 1)); if (v.size() != 1 || std::fabs(v[0] - c.nodata) > 1e-5 * std::fabs(c.nodata)) wrong_text("rd_no_data printed '%.30s' for %g", s.c_str(), c.nodata); }; return; }
    T nd = std::is_unsigned<T>::value ? (T)choose(WORK, 256) : (T)((int)choose(WORK, 20000) - 10000 + (std::is_floating_point<T>::value ? 0.5 : 0));
    c.args = {in, out, num((double)nd)}; a.setNoData(nd);
    expect(c, out, a, true, true, true);
  } else if (t == "rd_projection") {
    std::string p = g_proj[choose(WORK, g_proj.size())];
    if (choose(WORK, 2)) { Case k = c; k.proj = p; k.history.clear(); put_input(k, "other.tif", g); c.args = {in, out, P("other.tif")}; }
    else c.args = {in, out, ":" + p};
    expect(c, out, a, true, true, true); c.outs[0].p = p;
  } else if (t == "rd_hist") {
    std::map<double, int> n; for (T v : g.d) n[(double)v]++;
    c.text = [=](const std::string &s) {
      auto v = numbers(body(s).substr(std::min(body(s).size(), body(s).find("Nodata:") + 7)));
      if (v.size() != 1 + 2 * n.size()) wrong_text("rd_hist printed %zu numbers for %zu values", v.size(), n.size());
      if (std::fabs(v[0] - c.nodata) > 1e-5 * std::fabs(c.nodata)) wrong_text("rd_hist printed NoData value %g for %g", v[0], c.nodata);
      for (auto &k : n) {
        bool ok = false;
        for (size_t i = 1; i < v.size(); i += 2) if (std::fabs(v[i] - k.first) <= 1e-5 * std::fabs(k.first)) ok = ok || v[i + 1] == k.second;
        if (!ok) wrong_text("rd_hist did not count %d times %g", k.second, k.first);
      }
    };
  } else if (t == "rd_raster_display") {
    static const char *const F[] = {"noflip", "fliph", "flipv", "fliphv", "flip"};
    int k = choose(WORK, 5); c.args.push_back(F[k]);
    if (k == 4) { c.refuse = true; return; }
    bool fh = (k & 1) ^ (c.gt[1] < 0), fv = (k >> 1) ^ (c.gt[5] > 0);
    c.text = [=](const std::string &s) {
      auto v = numbers(body(s));
      if (v.size() != g.d.size()) wrong_text("rd_raster_display printed %zu numbers for %zu cells", v.size(), g.d.size());
      for (int y = 0; y < g.h; y++) for (int x = 0; x < g.w; x++) { double want = (int)g(fh ? g.w - 1 - x : x, fv ? g.h - 1 - y : y); if (v[(size_t)y * g.w + x] != want) wrong_text("rd_raster_display printed %g for %g", v[(size_t)y * g.w + x], want); }
    };
  } else if (t == "rd_raster_inspect") {
    bool fh = c.gt[1] < 0, fv = c.gt[5] > 0; c.args.clear();
    if (choose(WORK, 3) == 2) c.args.push_back("--flipV"), fv = !fv;
    if (choose(WORK, 3) == 2) c.args.push_back("-H"), fh = !fh;
    c.args.push_back(in);
    int x0 = choose(WORK, g.w), x1 = x0 + choose(WORK, g.w - x0), y0 = choose(WORK, g.h), y1 = y0 + choose(WORK, g.h - y0);
    for (int v : {x0, x1, y0, y1}) c.args.push_back(std::to_string(v));
    c.text = [=](const std::string &s) {
      auto v = numbers(body(s)); int w = x1 - x0 + 1; size_t k = w;
      if (v.size() != (size_t)w + (size_t)(w + 1) * (y1 - y0 + 1)) wrong_text("rd_raster_inspect printed %zu numbers for %dx%d cells", v.size(), w, y1 - y0 + 1);
      for (int y = y0; y <= y1; y++) {
        if (v[k++] != y) wrong_text("rd_raster_inspect printed row %g for %d", v[k - 1], y);
        for (int x = x0; x <= x1; x++, k++) { double want = g(fh ? g.w - 1 - x : x, fv ? g.h - 1 - y : y); if (std::fabs(v[k] - want) > 1e-5 * std::fabs(want)) wrong_text("rd_raster_inspect printed %g for %g", v[k], want); }
      }
    };
  } else if (t == "rd_processing_history") {
    c.text = [=](const std::string &s) {
      std::string b = body(s), want = c.history.empty() ? "No processing history!" : c.history;
      while (!want.empty() && want.back() == '\n') want.pop_back();
      if (b.find(want) == std::string::npos) wrong_text("rd_processing_history did not print the history");
    };
  } else if (t == "rd_compare") {
    Case k = c; G<T> o = g; int dw = choose(WORK, 8) == 7 ? 1 : 0, dh = choose(WORK, 8) == 7 ? 1 : 0;
    if (dw || dh) o = G<T>(g.w + dw, g.h + dh, T());
    uint64_t differ = 0;
    int n = choose(WORK, 5); while (n--) o.d[choose(WORK, o.d.size())] = (T)choose(WORK, 90);
    if (!dw && !dh) for (size_t i = 0; i < g.d.size(); i++) differ += g.d[i] != o.d[i];
    bool gt = choose(WORK, 3) == 2, pr = choose(WORK, 3) == 2, nd = choose(WORK, 3) == 2;
    if (gt) k.gt[0] += 1;
    if (pr) k.proj = c.proj.empty() ? g_proj.back() : "";
    if (nd) k.nodata = 77;
    pr = k.proj != c.proj; nd = k.nodata != c.nodata;
    bool rev = choose(WORK, 2);
    put_input(k, "other.tif", o);
    c.args = {in, P("other.tif")}; if (rev) std::swap(c.args[0], c.args[1]);
    c.text = [=](const std::string &s) {
      std::string b = body(s);
      auto say = [&](const char *what, bool want) { if ((b.find(what) != std::string::npos) != want) wrong_text("rd_compare %s '%s'", want ? "did not say" : "said", what); };
      say("Geotransforms differ", gt); say("NoData values differ", nd); say("Projections differ", pr); say("Widths differ", dw); say("Heights differ", dh);
      if (dw || dh) return;
      size_t q = b.find("which differ = ");
      if (q == std::string::npos || numbers(b.substr(q + 15)) != std::vector<double>{(double)differ}) wrong_text("rd_compare did not count %llu differences", (unsigned long long)differ);
    };
  } else if (t == "rd_merge_rasters_by_layout") {
    int nx = 1 + choose(WORK, 3), ny = 1 + choose(WORK, 3), cap = 1 + choose(WORK, 4);
    static const char *const F[] = {"noflip", "fliph", "flipv", "fliphv"};
    int k = choose(WORK, 4); if (choose(WORK, 2)) k = 0;
    c.gt[1] = std::fabs(c.gt[1]); c.gt[5] = -std::fabs(c.gt[5]);
    int hx = choose(WORK, nx), hy = choose(WORK, ny); bool hole = nx * ny > 1 && choose(WORK, 2);
    G<T> m(nx * g.w, ny * g.h, (T)c.nodata); std::string lay;
    uint32_t seed = choose(WORK, 1 << 20);
    for (int ty = 0; ty < ny; ty++) {
      for (int tx = 0; tx < nx; tx++) {
        if (tx) lay += ",";
        if (hole && tx == hx && ty == hy) { lay += " "; continue; }
        G<T> q = g; for (auto &v : q.d) { seed = seed * 1664525u + 1013904223u; v = (T)(seed >> 25); }
        for (int y = 0; y < g.h; y++) for (int x = 0; x < g.w; x++) m(tx * g.w + (k & 1 ? g.w - 1 - x : x), ty * g.h + (k & 2 ? g.h - 1 - y : y)) = q(x, y);
        Case i = c; i.history.clear(); i.gt[0] += tx * g.w * c.gt[1]; i.gt[3] += ty * g.h * c.gt[5];
        std::string nm = "m" + std::to_string(tx) + "_" + std::to_string(ty) + ".tif"; put_input(i, nm, q); lay += nm;
      }
      lay += "\n";
    }
    std::ofstream(P("in.layout")) << lay;
    c.args = {P("in.layout"), std::to_string(cap), out, F[k]};
    expect(c, out, seen(c, m), true, k == 0, true); c.outs[0].op.clear();
  }
}
// ------------------------------------------------------------ tools which compute
template <class T> static void heavy(Case &c) {
  const std::string t = c.tool;
  place(c, t == "rd_flood_for_flowdirs");
  G<T> g = elevations<T>(c, choose(WORK, 10) == 9 ? 30 : 14);
  std::string in = P("in.tif"), out = P("out.tif");
  c.in = in; put_input(c, "in.tif", g);
  Grid<T> a = seen(c, g);
  if (t == "rd_d8_flowdirs") {
    c.args = {in, P("out")};
    PriorityFlood_Barnes2014<Topology::D8>(a); Grid<uint8_t> f; barnes_flat_resolution_d8(a, f, false);
    expect(c, P("out-flowdirs.tif"), f, true, true, true);
  } else if (t == "rd_flood_for_flowdirs") {
    c.args = {in, out};
    if (c.gt[1] < 0) a.flipHorz();
    if (c.gt[5] > 0) a.flipVert();
    PriorityFlood_Barnes2014<Topology::D8>(a); Grid<uint8_t> f; barnes_flat_resolution_d8(a, f, false);
    if (c.gt[1] < 0) f.flipHorz();
    if (c.gt[5] > 0) f.flipVert();
    expect(c, out, f, true, true, true);
  } else if (t == "rd_depressions_breach") {
    static const char *const M[] = {"COMPLETE", "SELECTIVE", "CONSTRAINED"};
    static const LindsayMode L[] = {LindsayMode::COMPLETE_BREACHING, LindsayMode::SELECTIVE_BREACHING, LindsayMode::CONSTRAINED_BREACHING};
    int m = choose(WORK, 3); bool eps = choose(WORK, 2) && std::is_floating_point<T>::value, fill = choose(WORK, 2); int len = choose(WORK, 12); double depth = choose(WORK, 20);
    c.args = {in, out, M[m], eps ? "EPS" : "NOEPS", fill ? "FILL" : "NOFILL", std::to_string(len), num(depth)};
    Lindsay2016(a, L[m], eps, fill, (uint32_t)len, (T)depth);
    expect(c, out, a, true, true, true);
  } else if (t == "rd_depressions_flood") {
    int n = choose(WORK, 2) ? 0 : 1 + choose(WORK, 20);
    c.args = {in, out, std::to_string(n)};
    if (n) PriorityFlood_Barnes2014_max_dep<Topology::D8>(a, (uint64_t)n); else PriorityFlood_Zhou2016(a);
    expect(c, out, a, true, true, true);
  } else if (t == "rd_depressions_has") {
    c.args = {in}; bool has = HasDepressions<Topology::D8>(a);
    c.text = [=](const std::string &s) { if (body(s).find(has ? "m Depressions found." : "m No depressions found.") == std::string::npos) wrong_text("rd_depressions_has is wrong about them"); };
  } else if (t == "rd_depressions_mask") {
    c.args = {in, out};
    Grid<uint8_t> m(a); pit_mask<Topology::D8>(a, m);
    expect(c, out, m, true, true, true);
  } else if (t == "rd_flow_accumulation") {
    int k = 1 + choose(WORK, 10); if (k == 2 && choose(WORK, 3)) k = 1;
    double par = 1 + choose(WORK, 40) / 8.0;
    c.args = {in, out, std::to_string(k)}; if (k == 4 || k == 5 || (k >= 7 && k <= 9)) c.args.push_back(num(par));
    Grid<double> acc(a, 1);
    switch (k) {
      case 1: FA_D8(a, acc); break; case 2: break; case 3: FA_Quinn(a, acc); break; case 4: FA_Holmgren(a, acc, (float)par); break;
      case 5: FA_Freeman(a, acc, (float)par); break; case 6: FA_Tarboton(a, acc); break; default: c.refuse = true; return;
    }
    acc.scale(acc.getCellArea());
    expect(c, out, acc, true, true, true);
    if (k == 2) c.outs[0].cells = false;                    // random by design
  } else if (t == "rd_terrain_property") {
    int k = 1 + choose(WORK, 9); float z = 1 + choose(WORK, 5) / 2.f;
    c.args = {in, out, std::to_string(k), num(z)};
    Grid<float> r(a);
    switch (k) {
      case 1: TA_slope_riserun(a, r, z); break; case 2: TA_slope_percentage(a, r, z); break; case 3: TA_slope_degrees(a, r, z); break; case 4: TA_slope_radians(a, r, z); break;
      case 5: TA_aspect(a, r, z); break; case 6: TA_curvature(a, r, z); break; case 7: TA_planform_curvature(a, r, z); break; case 8: TA_profile_curvature(a, r, z); break;
      default: c.refuse = true; return;
    }
    expect(c, out, r, true, true, true);
  }
}
static void water(Case &c) {
  place(c, false);
  if (c.tool == "rd_depression_hierarchy") {
    G<float> g = elevations<float>(c); float sea = choose(WORK, 6);
    for (int x = 0; x < g.w; x++) if (choose(WORK, 2)) g(x, 0) = sea;
    g(0, 0) = sea;
    c.args = {P("in.tif"), P("out"), num(sea)};
    put_input(c, "in.tif", g); Grid<float> a = seen(c, g);
    Grid<dephier::dh_label_t> l(g.w, g.h, dephier::NO_DEP); Grid<flowdir_t> f(g.w, g.h, NO_FLOW);
    for (uint32_t i = 0; i < l.size(); i++) if (a.isNoData(i) || a(i) == sea) l(i) = dephier::OCEAN;
    auto d = dephier::GetDepressionHierarchy<float, Topology::D8>(a, l, f);
    std::ostringstream o; o << "parent,child,oceanlink\n";
    for (unsigned i = 1; i < d.size(); i++) o << d[i].parent << "," << i << "," << (d[i].parent != dephier::NO_VALUE && (d[i].parent == dephier::OCEAN || !(d[d[i].parent].lchild == i || d[d[i].parent].rchild == i))) << "\n";
    c.files[P("out-graph.csv")] = o.str();
    expect(c, P("out-label.tif"), l, false, true, true); c.outs[0].op.clear();
  } else {
    G<double> g = elevations<double>(c); double sea = choose(WORK, 6);
    for (int x = 0; x < g.w; x++) if (choose(WORK, 2)) g(x, 0) = sea;
    g(0, 0) = sea;
    put_input(c, "in.tif", g); Grid<double> a = seen(c, g), w(g.w, g.h, 0.0);
    c.args = {P("in.tif"), P("out"), num(sea)};
    if (choose(WORK, 2)) { double v = (choose(WORK, 30) - (choose(WORK, 4) == 3 ? 12 : 0)) / 8.0; for (uint32_t i = 0; i < w.size(); i++) w(i) = v; c.args.push_back("--swl"); c.args.push_back(num(v)); }
    else {
      G<double> s(g.w, g.h, 0); for (size_t i = 0; i < s.d.size(); i++) w((uint32_t)i) = s.d[i] = (choose(WORK, 30) - (i % 3 ? 0 : 6)) / 8.0;
      Case k = c; k.history.clear(); put_input(k, "water.tif", s); c.args.push_back("--swf"); c.args.push_back(P("water.tif"));
    }
    Grid<dephier::dh_label_t> l(g.w, g.h, dephier::NO_DEP); Grid<flowdir_t> f(g.w, g.h, NO_FLOW);
    w.setNoData(a.noData());
    BucketFillFromEdges<Topology::D8>(a, l, sea, dephier::OCEAN);
    for (uint32_t i = 0; i < l.size(); i++) if (a.isNoData(i) || l(i) == dephier::OCEAN) { l(i) = dephier::OCEAN; w(i) = 0; }
    auto d = dephier::GetDepressionHierarchy<double, Topology::D8>(a, l, f);
    dephier::FillSpillMerge(a, l, f, d, w);
    expect(c, P("out-wtd.tif"), w, true, true, true);
    for (uint32_t i = 0; i < a.size(); i++) if (!a.isNoData(i)) w(i) += a(i);
    expect(c, P("out-hydrologic-surface-height.tif"), w, true, true, true);
    c.outs[0].op = c.outs[1].op = "";
  }
}

// ------------------------------------------------------------ running and judging
static const char *excuse = nullptr;
#define bad(...) do { if (excuse) known(excuse); fail(__VA_ARGS__); } while (0)
struct Ran { bool ok = false, met = false, strile = false; std::string text, why; };
static std::string slurp(const std::string &p, bool *ok = nullptr) {
  std::string s; FILE *f = fopen(p.c_str(), "r"); if (ok) *ok = f; if (!f) return s;
  char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f); return s;
}
// Where a tool prints to; needs no memory.
struct Paper : std::streambuf {
  std::vector<char> b; Paper() : b(1 << 20) { setp(b.data(), b.data() + b.size()); }
  std::string str() const { return std::string(pbase(), pptr()); }
};
static Ran perform(const Case &c, bool faults, const char *when) {
  carry_data()[0] = carry_data()[1] = carry_data()[2] = 0;
  static const uint32_t N[] = {20, 200, 1000, 5000};
  uint32_t alloc = faults && choose(FAULT, 5) == 4 ? 1 + choose(FAULT, N[choose(FAULT, 4)]) : 0, span = alloc ? 1 + choose(FAULT, 2) : 0;
  static int k; std::string text = P("stdout" + std::to_string(k)), why = P("why" + std::to_string(k)); k++;
  in_child([&] {
    static Paper o, e;
    std::cout.clear(); std::cerr.clear(); std::cout.rdbuf(&o); std::cerr.rdbuf(&e);
    auto done = [&](int status, const std::string &w) {
      carry_data()[0] = status == 0; carry_data()[1] = io_faults_fired() + (alloc && alloc_failed()); carry_data()[2] = io_faults_in_strile_rewrite();
      if (alloc && alloc_failed()) stat("fault.out-of-memory");
      alloc_fail_after(0); io_disarm(); disarm_preemption();
      if (FILE *f = fopen(text.c_str(), "w")) { std::string s = c.tool == "rd_no_data" ? e.str() : o.str(); fwrite(s.data(), 1, s.size(), f); fclose(f); }
      if (FILE *f = fopen(why.c_str(), "w")) { fwrite(w.data(), 1, w.size(), f); fclose(f); }
      leave_child();
    };
    set_exit_hook([&](int s) { done(s & 255, "exit"); });
    set_terminate_hook([&](const char *w) { done(134, w); });
    set_crash_hook([&](int s) { if (io_faults_fired() || (alloc && alloc_failed())) { stat("crashed-on-a-failing-disk"); done(128 + s, "signal"); } });
    std::vector<std::string> a = c.args; a.insert(a.begin(), c.tool);
    std::vector<char *> v; for (auto &s : a) v.push_back(&s[0]);
    v.push_back(nullptr);
    int rc = 0; std::string w;
    arm_preemption();
    if (faults) io_arm();
    if (alloc) alloc_code((void *)g_tool[c.tool]), alloc_fail_after(alloc, span, 0, false);
    try { rc = g_tool[c.tool]((int)a.size(), v.data()); } catch (const std::exception &x) { rc = 134; w = x.what(); }
    done(rc & 255, w);
  });
  Ran r; r.ok = carry_data()[0]; r.met = carry_data()[1]; r.strile = carry_data()[2];
  r.text = slurp(text); r.why = slurp(why);
  event("%s, %s: %s", c.tool.c_str(), when, r.ok ? "success" : "failure"); if (!r.ok) note("%s", r.why.c_str());
  return r;
}
static void judge(const Case &c, const Ran &r, const char *when) {
  const char *t = c.tool.c_str();
  for (const Out &o : c.outs) {
    const char *f = o.path.c_str() + sim::scratch.size() + 1;
    Tif g = get_tif(o.path);
    if (!g.ok) bad("missing-output", "%s, %s, reports success, but %s cannot be read", t, when, f);
    if (g.w != o.w || g.h != o.h || g.t != o.t) bad("wrong-output", "%s, %s: %s is %dx%d of type %d instead of %dx%d of type %d", t, when, f, g.w, g.h, g.t, o.w, o.h, o.t);
    if (o.cells) for (size_t i = 0; i < o.d.size(); i++)
      if (g.d[i] != o.d[i] && !(g.d[i] != g.d[i] && o.d[i] != o.d[i])) bad("wrong-output", "%s, %s: %s: cell (%d,%d) of %dx%d is %.17g instead of %.17g", t, when, f, (int)(i % o.w), (int)(i / o.w), o.w, o.h, g.d[i], o.d[i]);
    if (o.nd && g.nodata != o.nodata && !(g.nodata != g.nodata && o.nodata != o.nodata)) bad("wrong-nodata", "%s, %s: %s has NoData value %g instead of %g", t, when, f, g.nodata, o.nodata);
    if (o.gt) for (int i = 0; i < 6; i++) if (std::fabs(g.gt[i] - o.g[i]) > 1e-9 * std::max(1., std::fabs(o.g[i]))) bad("wrong-georeference", "%s, %s: geotransform[%d] of %s is %.17g instead of %.17g", t, when, i, f, g.gt[i], o.g[i]);
    if (o.proj && g.proj != o.p) bad("wrong-projection", "%s, %s: %s has projection '%.30s' instead of '%.30s'", t, when, f, g.proj.c_str(), o.p.c_str());
    if (!o.op.empty()) {
      if (g.history.compare(0, c.history.size(), c.history)) bad("wrong-history", "%s, %s: %s has lost the input's history", t, when, f);
      if (g.history.find(c.tool, c.history.size()) == std::string::npos) bad("wrong-history", "%s, %s: %s does not tell in its history how it was made", t, when, f);
    }
    uint64_t h = 0; for (double v : g.d) h = h * 1099511628211ull + (uint64_t)(int64_t)(v * 16); state_hash(h);
  }
  for (auto &kv : c.files) {
    bool ok; std::string s = slurp(kv.first, &ok); const char *f = kv.first.c_str() + sim::scratch.size() + 1;
    if (!ok) bad("missing-output", "%s, %s, reports success, but %s is not there", t, when, f);
    if (s != kv.second) bad("wrong-output", "%s, %s: %s is not what it should be (%zu bytes instead of %zu)", t, when, f, s.size(), kv.second.size());
  }
  if (c.text) c.text(r.text);
}
static void conditions() {
  static const int B[] = {-1, 0x00, 0xff, 0xa5};
  heap_fill(B[choose(FAULT, 4)]);
  sim::clk.jumps = choose(FAULT, 3) == 2;
  set_entropy(choose(FAULT, 1 << 16));
}
static void run() {
  mkdir(sim::scratch.c_str(), 0777);
  Case c; c.tool = TOOLS[choose(WORK, NTOOLS)];
  knobs.omp_threads = 1; knobs.preempt_mean = 0;
  const std::string &t = c.tool;
  c.has_gt = true;
  if (t == "rd_depression_hierarchy" || t == "rd_fill_spill_merge") water(c);
  else if (t == "rd_d8_flowdirs" || t == "rd_flood_for_flowdirs" || t.compare(0, 14, "rd_depressions") == 0 || t == "rd_flow_accumulation" || t == "rd_terrain_property") {
    switch (choose(WORK, 5)) { case 0: heavy<float>(c); break; case 1: heavy<int16_t>(c); break; case 2: heavy<double>(c); break; case 3: heavy<int32_t>(c); break; default: heavy<uint8_t>(c); }
  } else switch (choose(WORK, 7)) {
    case 0: light<float>(c); break; case 1: light<uint8_t>(c); break; case 2: light<int16_t>(c); break; case 3: light<uint16_t>(c); break;
    case 4: light<int32_t>(c); break; case 5: light<uint32_t>(c); break; default: light<double>(c);
  }
  stat(("tool." + t).c_str());
  if (!c.refuse && choose(WORK, 24) == 23) {                 // what the tools cannot work with
    int k = choose(WORK, 3); c.refuse = true;
    if (k == 0 && t != "rd_raster_inspect") c.args.pop_back();
    else if (k == 1 && (!c.outs.empty() || t == "rd_hist" || t == "rd_depressions_has") && t != "rd_fill_spill_merge" && t != "rd_depression_hierarchy" && t != "rd_merge_rasters_by_layout") put_tif(P("in.tif"), 4, 4, GDT_CFloat32, 0, c.gt, "", std::vector<double>(16));
    else { unlink(P("in.tif").c_str()); unlink(P("m0_0.tif").c_str()); unlink(P("in.layout").c_str()); }
    c.outs.clear();
  }
  std::string line; for (auto &a : c.args) line += " " + (a.compare(0, sim::scratch.size(), sim::scratch) ? a : a.substr(sim::scratch.size() + 1));
  note("%s%s", t.c_str(), line.substr(0, 300).c_str());
  excuse = nullptr;
  Ran q = perform(c, false, "run quietly");
  if (c.refuse) {
    if (q.ok) bad("not-refused", "%s reports success for something it cannot do:%s", t.c_str(), line.substr(0, 300).c_str());
    stat("refused"); return;
  }
  if (!q.ok) fail("refused", "%s fails although nothing is wrong: %s", t.c_str(), q.why.c_str());
  judge(c, q, "run quietly");
  if (choose(WORK, 2)) for (auto &o : c.outs) unlink(o.path.c_str());
  // under some schedule, and with the disk failing
  bool faults = choose(FAULT, 4) != 0;
  swarm(8); conditions();
  if (faults) {
    static const uint32_t K[] = {F_OPEN, F_READ_EIO, F_WRITE_EIO, F_WRITE_ENOSPC, F_CLOSE, F_READ_SHORT | F_WRITE_SHORT, F_OPEN | F_READ_EIO | F_WRITE_EIO | F_WRITE_ENOSPC | F_CLOSE, ~(uint32_t)F_EINTR};
    sim::io.kinds = K[choose(FAULT, 8)] | (choose(FAULT, 2) ? (uint32_t)(F_READ_SHORT | F_WRITE_SHORT) : 0u);
    static const uint32_t M[] = {0, 2, 5, 12, 40, 100};
    sim::io.mean = M[choose(FAULT, 6)]; sim::io.left = 1 + choose(FAULT, 3);
    if (choose(FAULT, 4) == 3) sim::io.disk_budget = choose(FAULT, 4000);
  }
  Ran r = perform(c, faults, "run on a failing disk");
  sim::io.disk_budget = ~0ull;
  if (r.ok) {
    if (r.strile && listed("gdal-strip-table")) excuse = "gdal-strip-table";
    judge(c, r, r.met ? "run on a failing disk" : "run under another schedule");
    if (c.outs.empty() && c.files.empty() && t != "rd_hist" && r.text != q.text) bad("wrong-text", "%s, run on a failing disk, reports success but prints something else than otherwise", t.c_str());
    excuse = nullptr;
    stat(r.met ? "success-despite-faults" : "success");
  } else {
    if (!r.met) fail("refused", "%s fails under another schedule: %s", t.c_str(), r.why.c_str());
    stat("failed-on-faults");
  }
  // and again, with the faults over
  swarm(8); conditions();
  Ran z = perform(c, false, "run again");
  if (!z.ok) fail("no-recovery", "%s, run again after the faults stopped, fails: %s", t.c_str(), z.why.c_str());
  judge(c, z, "run again after the faults stopped");
}
Harness g_harnesses[] = {{"C18", run, init}, {nullptr, nullptr, nullptr}};
