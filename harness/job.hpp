// The distributed programs as jobs: inputs, reference results, checks of what
// a finished job has left on disk. Files are written and read with GDAL's C
// interface, not through the library.
#pragma once
#include "common.hpp"
#include "mpi.hpp"
#include "tif.hpp"
#include <cpl_conv.h>
#include <cpl_error.h>
#include <fcntl.h>
#include <gdal.h>
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>

namespace job {
using namespace hz;
enum Prog { D8 = 0, PF = 1 };
static const int MAXR = 6;
static std::vector<simmpi::Entry> g_entry[2];
inline void load(bool d8, bool pf) {
  GDALAllRegister();
  std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr);
  CPLSetErrorHandler([](CPLErr c, CPLErrorNum n, const char *m) { if (self()) note("gdal %d %d %s", c, n, m); });
  if (d8) g_entry[D8] = simmpi::load_program("parallel_d8_accum", MAXR);
  if (pf) g_entry[PF] = simmpi::load_program("parallel_priority_flood", MAXR);
}

struct TileRef { bool null = false; int x0 = 0, y0 = 0, w = 0, h = 0; std::string in, out; };
struct Job {
  Prog prog; bool many; int rows, cols, W, H; bool flipV = false, flipH = false;   // how the tiles are stored
  GDALDataType type = GDT_Byte; double nodata = 0; double gt[6]; std::string proj;
  std::vector<TileRef> tile;
  G<double> in, want; G<char> absent;
  std::string retention, output, layout, out_layout;
  simmpi::Config cfg;
};

// ------------------------------------------------------------ references
static const int OPP[9] = {0, 5, 6, 7, 8, 1, 2, 3, 4};
inline bool cell(const Job &j, int x, int y) { return j.in.in(x, y) && !j.absent(x, y); }
// Cells whose flow passes through each cell, itself included.
inline void reference_d8(Job &j) {
  j.want = G<double>(j.W, j.H, -1);
  G<int> dep(j.W, j.H, 0);
  auto data = [&](int x, int y) { return cell(j, x, y) && j.in(x, y) != j.nodata; };
  for (int y = 0; y < j.H; y++) for (int x = 0; x < j.W; x++) if (data(x, y)) {
    int n = (int)j.in(x, y); j.want(x, y) = 1;
    if (n && data(x + DX[n], y + DY[n])) dep(x + DX[n], y + DY[n])++;
  }
  std::vector<std::pair<int, int>> q;
  for (int y = 0; y < j.H; y++) for (int x = 0; x < j.W; x++) if (data(x, y) && !dep(x, y)) q.push_back({x, y});
  for (size_t k = 0; k < q.size(); k++) {
    int x = q[k].first, y = q[k].second, n = (int)j.in(x, y);
    if (!n || !data(x + DX[n], y + DY[n])) continue;
    int nx = x + DX[n], ny = y + DY[n];
    j.want(nx, ny) += j.want(x, y);
    if (--dep(nx, ny) == 0) q.push_back({nx, ny});
  }
}
// The lowest surface from which every cell drains to the edge or a missing tile.
inline void reference_fill(Job &j) {
  j.want = G<double>(j.W, j.H, 0);
  G<char> done(j.W, j.H, 0);
  typedef std::pair<double, std::pair<int, int>> E;
  std::priority_queue<E, std::vector<E>, std::greater<E>> q;
  for (int y = 0; y < j.H; y++) for (int x = 0; x < j.W; x++) if (cell(j, x, y)) {
    bool edge = false;
    for (int n = 1; n <= 8; n++) if (!cell(j, x + DX[n], y + DY[n])) edge = true;
    if (edge) q.push({j.in(x, y), {x, y}});
  }
  while (!q.empty()) {
    E e = q.top(); q.pop();
    int x = e.second.first, y = e.second.second;
    if (done(x, y)) continue;
    done(x, y) = 1; j.want(x, y) = e.first;
    for (int n = 1; n <= 8; n++) if (cell(j, x + DX[n], y + DY[n]) && !done(x + DX[n], y + DY[n])) q.push({std::max(e.first, j.in(x + DX[n], y + DY[n])), {x + DX[n], y + DY[n]}});
  }
}

// ------------------------------------------------------------ inputs
inline void gen_flowdirs(Job &j) {
  j.in = G<double>(j.W, j.H, 0);
  int kind = choose(WORK, 6), W = j.W, H = j.H;
  G<double> p(W, H, 0);
  int off = choose(WORK, 3);                            // how readily cells flow off the raster
  if (kind == 4) {                                      // one long maze
    G<char> seen(W, H, 0);
    std::vector<std::pair<int, int>> st;
    int sx = choose(WORK, W), sy = choose(WORK, H);
    st.push_back({sx, sy}); seen(sx, sy) = 1;
    while (!st.empty()) {
      int x = st.back().first, y = st.back().second, c[8], m = 0;
      for (int n = 1; n <= 8; n++) if (j.in.in(x + DX[n], y + DY[n]) && !seen(x + DX[n], y + DY[n])) c[m++] = n;
      if (!m) { st.pop_back(); continue; }
      int n = c[choose(WORK, m)], nx = x + DX[n], ny = y + DY[n];
      seen(nx, ny) = 1; j.in(nx, ny) = OPP[n]; st.push_back({nx, ny});
    }
    stat("flow.maze");
  } else if (kind == 5) {                               // a serpentine through every row
    bool flip = choose(WORK, 2);
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) {
      int yy = flip ? H - 1 - y : y; bool right = y % 2 == 0;
      int n = right ? (x == W - 1 ? (flip ? 3 : 7) : 5) : (x == 0 ? (flip ? 3 : 7) : 1);
      j.in(x, yy) = n;
    }
    stat("flow.serpentine");
  } else {
    int levels = 1 + choose(WORK, 1000), sx = between(-3, 3), sy = between(-3, 3), cx = choose(WORK, W), cy = choose(WORK, H);
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) switch (kind) {
      case 0: p(x, y) = choose(WORK, levels); break;
      case 1: p(x, y) = (sx * x + sy * y) * 10 + (int)choose(WORK, 4); break;
      case 2: p(x, y) = std::max(abs(x - cx), abs(y - cy)) * 4 + (int)choose(WORK, 3); break;
      default: p(x, y) = -std::max(abs(x - cx), abs(y - cy)) * 4 + (int)choose(WORK, 3); break;
    }
    bool steep = choose(WORK, 2);
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) {
      int c[8], m = 0; double best = p(x, y);
      for (int n = 1; n <= 8; n++) {
        int nx = x + DX[n], ny = y + DY[n];
        if (!j.in.in(nx, ny)) { if (off == 2 || (off == 1 && choose(WORK, 3) == 2)) c[m++] = n; }
        else if (p(nx, ny) < best) { if (steep) { m = 0; best = p(nx, ny); } c[m++] = n; }
      }
      j.in(x, y) = m ? c[choose(WORK, m)] : 0;
    }
    stat("flow.downhill");
  }
  int sinks = choose(WORK, 4) == 3 ? 1 + choose(WORK, 4) : 0;
  while (sinks--) j.in(choose(WORK, W), choose(WORK, H)) = 0;
  if (choose(WORK, 3) == 2) { int n = between(1, 1 + W * H / 6); while (n--) j.in(choose(WORK, W), choose(WORK, H)) = j.nodata; stat("input.with-nodata"); }
}
inline void gen_elevations(Job &j) {
  j.in = G<double>(j.W, j.H, 0);
  int W = j.W, H = j.H, kind = choose(WORK, 7);
  int levels = 1 + choose(WORK, choose(WORK, 2) ? 200 : 8), sx = between(-2, 2), sy = between(-2, 2), cx = choose(WORK, W), cy = choose(WORK, H);
  int rw = 1 + choose(WORK, 4), rh = 1 + choose(WORK, 4);
  for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) {
    double v;
    switch (kind) {
      case 0: v = choose(WORK, levels); break;
      case 1: v = 100 + sx * x + sy * y + (int)choose(WORK, 3); break;
      case 2: v = 2 * std::max(abs(x - cx), abs(y - cy)) + (int)choose(WORK, 2); break;           // one bowl
      case 3: v = (x % (rw + 1) == 0 || y % (rh + 1) == 0) ? 50 + (int)choose(WORK, 5) : choose(WORK, 10); break;   // cells walled in
      case 4: v = choose(WORK, 5) == 4 ? choose(WORK, levels) : 7; break;
      case 5: { int r = std::max(abs(x - cx), abs(y - cy)); v = (r % 2 ? 60 + r : 3) + (choose(WORK, 12) == 11 ? -2 : 0); break; }   // rings with gaps
      default: v = choose(WORK, 256); break;
    }
    j.in(x, y) = std::max(0.0, std::min(250.0, v));
  }
  bool fl = j.type == GDT_Float32 || j.type == GDT_Float64;
  if (fl && choose(WORK, 2)) for (auto &v : j.in.d) v += choose(WORK, 8) / 8.0;
  if (fl || j.type == GDT_Int16 || j.type == GDT_Int32) if (choose(WORK, 2)) for (auto &v : j.in.d) v -= 100;
  if (choose(WORK, 3) == 2) { int n = between(1, 1 + W * H / 6); while (n--) j.in(choose(WORK, W), choose(WORK, H)) = j.nodata; stat("input.with-nodata"); }
}

// ------------------------------------------------------------ a whole job
inline std::string subst(std::string s, const char *what, const std::string &by) { size_t p = s.find(what); return p == std::string::npos ? s : s.replace(p, 2, by); }

inline Job draw(Prog prog, bool small = false) {
  Job j; j.prog = prog;
  bool big_one = prog == PF && choose(WORK, small ? 400 : 60) == 1;      // the filler's own tiling wants 100 cells
  j.many = big_one ? false : prog == D8 ? choose(WORK, 3) != 2 : choose(WORK, 8) != 7;
  int tw = 0, th = 0, bw = -1, bh = -1;
  int maxt = small ? 3 : 5;
  if (j.many) {
    j.rows = 1 + choose(WORK, maxt - (choose(WORK, 3) == 2)); j.cols = 1 + choose(WORK, maxt - (choose(WORK, 3) == 2));
    tw = 1 + choose(WORK, 6); th = 1 + choose(WORK, 6);
    if (choose(WORK, 8) == 7) tw += choose(WORK, 10), th += choose(WORK, 10);
    j.W = j.cols * tw; j.H = j.rows * th;
  } else if (big_one) {
    j.W = 400 + choose(WORK, 60); j.H = 100 + choose(WORK, 20); bw = 300; j.cols = 2; j.rows = 1;
    if (choose(WORK, 2)) { std::swap(j.W, j.H); std::swap(j.cols, j.rows); bw = -1; bh = 300; }
    stat("input.one-big");
  } else {
    j.W = 1 + choose(WORK, small ? 8 : 14); j.H = 1 + choose(WORK, small ? 8 : 14);
    if (prog == D8) {
      if (choose(WORK, 6)) { bw = 1 + choose(WORK, 6); while ((j.W + bw - 1) / bw > 6) bw++; }
      if (choose(WORK, 6)) { bh = 1 + choose(WORK, 6); while ((j.H + bh - 1) / bh > 6) bh++; }
    } else { j.W = 100 + choose(WORK, 20); j.H = 100 + choose(WORK, 20); }
    j.cols = bw == -1 ? 1 : (j.W + bw - 1) / bw; j.rows = bh == -1 ? 1 : (j.H + bh - 1) / bh;
  }
  static const char *T[] = {"job.many", "job.one"};
  stat(T[!j.many]);
  // types and NoData
  if (prog == D8) {
    static const GDALDataType DT[] = {GDT_Byte, GDT_Byte, GDT_Byte, GDT_Int16, GDT_Int32, GDT_Float32};
    j.type = DT[choose(WORK, 6)];
    static const double ND[] = {255, 13, 100};
    j.nodata = ND[choose(WORK, 3)];
  } else {
    static const GDALDataType DT[] = {GDT_Float32, GDT_Int16, GDT_Byte, GDT_Int32, GDT_UInt16, GDT_UInt32, GDT_Float64};
    j.type = DT[choose(WORK, 7)];
    j.nodata = j.type == GDT_Byte ? (choose(WORK, 2) ? 0 : 255) : j.type == GDT_UInt16 || j.type == GDT_UInt32 ? (choose(WORK, 2) ? 0 : 65535) : -9999;
  }
  // orientation: what the georeference says, and what the user says
  static const double SZ[] = {30, 0.5, 1. / 1200, 1000}; double sz = SZ[choose(WORK, 4)];
  double px = sz, py = choose(WORK, 6) == 5 ? -2 * sz : -sz; bool uH = false, uV = false;
  if (j.many && choose(WORK, 4) == 3) {
    int f = choose(WORK, 16);
    if (f & 1) px = -px;
    if (f & 2) py = -py;
    uH = f & 4; uV = f & 8;
    j.flipH = (px < 0) != uH; j.flipV = (py > 0) != uV;
    stat("job.flips");
  }
  double gt[6] = {(sz < .1 ? 50 : 5000.) + 100 * choose(WORK, 5), px, 0, (sz < .1 ? 40 : 9000.) - 100 * choose(WORK, 5), 0, py};
  memcpy(j.gt, gt, sizeof gt);
  if (choose(WORK, 3) == 2) j.proj = "LOCAL_CS[\"sim\",UNIT[\"metre\",1]]";
  // missing tiles
  j.tile.resize(j.rows * j.cols); j.absent = G<char>(j.W, j.H, 0);
  int holes = j.many && choose(WORK, 2) ? 1 + choose(WORK, 3) : 0;
  for (int r = 0; r < j.rows; r++) for (int c = 0; c < j.cols; c++) {
    TileRef &t = j.tile[r * j.cols + c];
    if (j.many) { t.x0 = c * tw; t.y0 = r * th; t.w = tw; t.h = th; t.null = holes && (int)choose(WORK, 5) < holes; }
    else { t.x0 = c * (bw == -1 ? j.W : bw); t.y0 = r * (bh == -1 ? j.H : bh); t.w = std::min(bw == -1 ? j.W : bw, j.W - t.x0); t.h = std::min(bh == -1 ? j.H : bh, j.H - t.y0); }
  }
  if (holes) {
    bool any = false;
    for (auto &t : j.tile) if (!t.null) any = true;
    if (!any) j.tile[choose(WORK, j.tile.size())].null = false;
    for (auto &t : j.tile) if (t.null) { stat("input.missing-tiles"); for (int y = 0; y < t.h; y++) for (int x = 0; x < t.w; x++) j.absent(t.x0 + x, t.y0 + y) = 1; }
  }
  if (prog == D8) gen_flowdirs(j); else gen_elevations(j);
  if (prog == D8) reference_d8(j); else reference_fill(j);
  // names
  const std::string S = sim::scratch + "/";
  static const char *OUT[] = {"out/o%n.tif", "out/%f-res.tif", "%n", "out/r.%n.tif"};
  int o = choose(WORK, 4); if (!j.many && o == 1) o = 0;
  j.output = S + OUT[o];
  static const char *RET[] = {"@evict", "@retain", "ret/c%n-", "ret/%f", "ret/k-%n"};
  int r = choose(WORK, 5); if (!j.many && r == 3) r = 2;
  j.retention = r < 2 ? RET[r] : S + RET[r];
  static const char *RN[] = {"job.evict", "job.retain", "job.cached", "job.cached", "job.cached"};
  stat(RN[r]);
  for (int y = 0; y < j.rows; y++) for (int x = 0; x < j.cols; x++) {
    TileRef &t = j.tile[y * j.cols + x];
    std::string loc = std::to_string(x) + "_" + std::to_string(y), base = "t" + std::to_string(y * j.cols + x);
    t.in = j.many ? S + "in/" + base + ".tif" : S + "in/whole.tif";
    t.out = subst(subst(j.output, "%n", loc), "%f", base);
  }
  // how it is run
  simmpi::Config &c = j.cfg;
  c.ranks = 2 + choose(SCHED, MAXR - 1);
  c.entry = g_entry[prog];
  c.args = {prog == D8 ? "parallel_d8_accum.exe" : "parallel_priority_flood.exe"};
  if (uH) c.args.push_back(choose(WORK, 2) ? "-H" : "--flipH");
  if (uV) c.args.push_back(choose(WORK, 2) ? "-V" : "--flipV");
  if (!j.many) {                                     // -1 is the default
    if (bw != -1 || choose(WORK, 2)) { c.args.push_back("-w"); c.args.push_back(std::to_string(bw)); }
    if (bh != -1 || choose(WORK, 2)) { c.args.push_back("--bheight"); c.args.push_back(std::to_string(bh)); }
  }
  j.layout = S + "in/tiles.layout";
  j.out_layout = subst(subst(j.output, "%f", "layout"), "%n", "layout");
  if (j.out_layout.rfind('.') > j.out_layout.rfind('/') && j.out_layout.rfind('.') != std::string::npos) j.out_layout = j.out_layout.substr(0, j.out_layout.rfind('.')) + ".layout";
  for (auto &s : {std::string(j.many ? "many" : "one"), j.retention, j.many ? j.layout : S + "in/whole.tif", j.output}) c.args.push_back(s);
  simmpi::draw_transport(c);
  event("%s %s %dx%d cells in %dx%d tiles, %d ranks, %s", prog == D8 ? "d8" : "fill", j.many ? "many" : "one", j.W, j.H, j.cols, j.rows, c.ranks, j.retention.c_str());
  note("flips %d %d type %d holes %d send mode %d limit %u late %d", j.flipH, j.flipV, j.type, holes, c.send, c.eager_limit, c.late_buffers);
  return j;
}
inline std::vector<double> stored(const Job &j, const TileRef &t, const G<double> &g) {
  std::vector<double> d;
  for (int y = 0; y < t.h; y++) for (int x = 0; x < t.w; x++)
    d.push_back(g(t.x0 + (j.flipH ? t.w - 1 - x : x), t.y0 + (j.flipV ? t.h - 1 - y : y)));
  return d;
}
inline void tile_gt(const Job &j, const TileRef &t, double *gt) {
  memcpy(gt, j.gt, 6 * sizeof(double));
  gt[0] += t.x0 * gt[1]; gt[3] += t.y0 * gt[5];
}
inline void put_inputs(const Job &j) {
  mkdir(sim::scratch.c_str(), 0777);
  for (const char *d : {"/in", "/out", "/ret"}) mkdir((sim::scratch + d).c_str(), 0777);
  bool ok = true;
  if (j.many) {
    std::string l;
    for (int y = 0; y < j.rows; y++) {
      for (int x = 0; x < j.cols; x++) {
        const TileRef &t = j.tile[y * j.cols + x];
        double gt[6]; tile_gt(j, t, gt);
        if (!t.null) ok = ok && put_tif(t.in, t.w, t.h, j.type, j.nodata, gt, j.proj, stored(j, t, j.in));
        l += (t.null ? " " : t.in.substr(t.in.rfind('/') + 1)) + (x < j.cols - 1 ? "," : "");
      }
      l += "\n";
    }
    int fd = ::open(j.layout.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
    ok = ok && fd >= 0 && ::write(fd, l.data(), l.size()) == (ssize_t)l.size();
    ::close(fd);
  } else {
    TileRef t; t.w = j.W; t.h = j.H;
    ok = put_tif(sim::scratch + "/in/whole.tif", j.W, j.H, j.type, j.nodata, j.gt, j.proj, stored(j, t, j.in));
  }
  if (!ok) fail("internal", "cannot write the inputs");
}
// Everything a successful job must have left behind.
static const char *excuse = nullptr;      // a listed finding that explains what is wrong with the output
#define bad(...) do { if (excuse) known(excuse); fail(__VA_ARGS__); } while (0)
inline uint64_t check_outputs(const Job &j, const char *when) {
  uint64_t hash = 1469598103934665603ull;
  for (auto &t : j.tile) {
    if (t.null) continue;
    Tif f = get_tif(t.out);
    if (!f.ok) bad("output-unreadable", "%s: output tile %s is missing or cannot be read", when, t.out.c_str());
    if (f.w != t.w || f.h != t.h) bad("wrong-size", "%s: output tile %s is %dx%d instead of %dx%d", when, t.out.c_str(), f.w, f.h, t.w, t.h);
    if (f.t != (j.prog == D8 ? GDT_Float64 : j.type)) bad("wrong-type", "%s: output tile %s has data type %s", when, t.out.c_str(), GDALGetDataTypeName(f.t));
    double nd = j.prog == D8 ? -1 : j.nodata;
    if (!f.has_nodata || f.nodata != nd) bad("wrong-nodata", "%s: output tile %s has NoData value %g instead of %g", when, t.out.c_str(), f.nodata, nd);
    double gt[6]; tile_gt(j, t, gt);
    for (int k = 0; k < 6; k++) if (!f.has_gt || fabs(f.gt[k] - gt[k]) > 1e-7 * fabs(gt[1]) + 1e-12 * fabs(gt[k])) bad("wrong-georeference", "%s: output tile %s: geotransform[%d] is %g instead of %g", when, t.out.c_str(), k, f.has_gt ? f.gt[k] : 0.0, gt[k]);
    if (j.proj.empty() != f.proj.empty()) bad("wrong-georeference", "%s: output tile %s has projection '%s'", when, t.out.c_str(), f.proj.c_str());
    std::vector<double> want = stored(j, t, j.want);
    for (size_t k = 0; k < want.size(); k++) {
      if (f.d[k] != want[k]) bad("wrong-value", "%s: cell (%d,%d) of output tile %s: %g expected, got %g", when, (int)k % t.w, (int)k / t.w, t.out.c_str(), want[k], f.d[k]);
      uint64_t b; memcpy(&b, &f.d[k], 8); hash = (hash ^ b) * 1099511628211ull;
    }
    stat("tiles-compared"); stat("cells-compared", want.size());
  }
  // the layout file beside them names them
  std::string l; int fd = ::open(j.out_layout.c_str(), O_RDONLY);
  if (fd < 0) bad("layout-unreadable", "%s: there is no output layout file %s", when, j.out_layout.c_str());
  char b[4096]; ssize_t k;
  while ((k = ::read(fd, b, sizeof b)) > 0) l.append(b, k);
  ::close(fd);
  size_t at = 0;
  for (int y = 0; y < j.rows; y++) {
    if (at >= l.size()) bad("wrong-layout", "%s: the output layout file has %d rows instead of %d", when, y, j.rows);
    size_t e = l.find('\n', at); if (e == std::string::npos) e = l.size();
    std::string row = l.substr(at, e - at); at = e + 1;
    size_t q = 0;
    for (int x = 0; x < j.cols; x++) {
      if (q > row.size()) bad("wrong-layout", "%s: row %d of the output layout file has %d entries instead of %d", when, y, x, j.cols);
      size_t c = row.find(',', q); if (c == std::string::npos) c = row.size();
      std::string name = row.substr(q, c - q); q = c + 1;
      const TileRef &t = j.tile[y * j.cols + x];
      while (t.null && !name.empty() && (name[0] == ' ' || name[0] == '\t')) name.erase(0, 1);
      std::string want = t.null ? "" : t.out.substr(t.out.rfind('/') + 1);
      if (name != want) bad("wrong-layout", "%s: the output layout file has '%s' instead of '%s' in row %d, column %d", when, name.c_str(), want.c_str(), y, x);
    }
    if (q <= row.size()) bad("wrong-layout", "%s: row %d of the output layout file has more than %d entries", when, y, j.cols);
  }
  while (at < l.size() && (l[at] == '\n' || l[at] == ' ')) at++;
  if (at < l.size()) bad("wrong-layout", "%s: the output layout file has more than %d rows", when, j.rows);
  return hash;
}
#undef bad
inline void no_failure(simmpi::Config &c) {
  c.on_failure = [](int rank, const std::string &why) { fail("failed-run", "rank %d ended the run although nothing had failed: %s", rank, why.c_str()); };
}
// How tasks and files behave in a run without faults.
inline void quiet_world() {
  clock_simulated = true;
  static const uint32_t M[] = {0, 0, 3000, 300};
  knobs.omp_threads = 1;
  knobs.preempt_mean = M[choose(SCHED, 4)];
  static const uint32_t Y[] = {0, 0, 20, 4};
  io.yield_den = Y[choose(SCHED, 4)];
  static const int F[] = {0, 0x5a, 0xff, 0x01};
  heap_fill(F[choose(SCHED, 4)]);
}
}  // namespace job
