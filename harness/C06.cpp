// C06: a raster saved as a GeoTIFF comes back as it was, or an error is reported.
#include "common.hpp"
#include <richdem/richdem.hpp>
#include <richdem/common/loaders.hpp>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace hz;

static const char *excuse = nullptr;            // a listed finding that explains what is wrong with a saved file
#define bad(...) do { if (excuse) known(excuse); fail(__VA_ARGS__); } while (0)

struct Entry { std::string op, full; };         // of the history: what was done, and the whole line once it is known
template <class T> struct Model {
  int w = 0, h = 0; std::vector<T> d; T nodata = T(-1);
  std::vector<double> gt; std::string proj;
  std::map<std::string, std::string> meta; std::vector<Entry> hist;
  int xoff = 0, yoff = 0;
};
static std::vector<std::string> g_proj;         // projections in the form GeoTIFFs give them back
static const std::vector<double> STANDARD = {1000., 1., 0., 1000., 0., -1.};   // of a file without a geotransform

template <class T> static T value() {
  const bool f = std::is_floating_point<T>::value;
  switch (choose(WORK, 9)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::lowest();
    case 2: return f ? std::numeric_limits<T>::quiet_NaN() : T(3);
    case 3: return f ? std::numeric_limits<T>::infinity() : T(0);
    case 4: return f ? (T)-0.0 : T(1);
    case 5: return f ? (T)(1 / (T)(3 + choose(WORK, 20))) : T(77);
    default: return (T)((int)choose(WORK, 2000) / (f ? 8 : 9));
  }
}
// What GDAL can keep in a GeoTIFF's metadata: no name with = or :, no value that is empty or starts with a blank.
static std::string text(int maxlen, bool name) {
  static const char *const SPECIAL[] = {"<", ">", "&", "\"", "'", "=", "|", "\n", "\xc3\xa9", "%s", " ", "]]>"};
  std::string s(1, (char)('a' + choose(WORK, 26)));
  int n = choose(WORK, choose(WORK, 4) == 3 ? maxlen : 9);
  while (n--) s += !name && choose(WORK, 4) == 3 ? SPECIAL[choose(WORK, 12)] : std::string(1, (char)((choose(WORK, 2) ? 'A' : 'a') + choose(WORK, 26)));
  return s;
}
static std::vector<std::string> lines(const std::string &s) {
  std::vector<std::string> r; std::string l; std::istringstream in(s);
  while (getline(in, l)) if (!l.empty()) r.push_back(l);
  return r;
}
static bool ends_with(const std::string &s, const std::string &e) { return s.size() >= e.size() && !s.compare(s.size() - e.size(), e.size(), e); }

template <class T> static void match(const char *when, Model<T> &m, Grid<T> &g, bool offsets) {
  if (g.width() != m.w || g.height() != m.h || g.size() != m.d.size()) bad("wrong-size", "%s: %dx%d instead of %dx%d", when, g.width(), g.height(), m.w, m.h);
  if (g.empty()) bad("wrong-size", "%s: there is no data", when);
  for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
    T a = m.d[(size_t)y * m.w + x], b = g(x, y);
    if (!same_bits(a, b) && !(a != a && b != b)) { std::ostringstream o; o << +a << " expected, got " << +b; bad("wrong-cell", "%s: cell (%d,%d) of %dx%d: %s", when, x, y, m.w, m.h, o.str().c_str()); }
  }
  T nd = g.noData();
  if (!same_bits(m.nodata, nd) && !(nd != nd && m.nodata != m.nodata)) { std::ostringstream o; o << +m.nodata << " expected, got " << +nd; bad("wrong-nodata", "%s: %s", when, o.str().c_str()); }
  for (int i = 0; i < 5 && !m.d.empty(); i++) {
    uint32_t c = (uint32_t)i * 7 % m.d.size();
    if (g.isNoData(c) != (m.d[c] == m.nodata)) bad("wrong-nodata", "%s: isNoData of cell %u is %d", when, c, g.isNoData(c));
  }
  if (m.gt.size() != g.geotransform.size()) bad("wrong-georeference", "%s: geotransform of %zu numbers instead of %zu", when, g.geotransform.size(), m.gt.size());
  for (size_t i = 0; i < m.gt.size(); i++) {
    double a = m.gt[i], b = g.geotransform[i];
    if (!(std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)))) bad("wrong-georeference", "%s: geotransform[%zu] is %.17g instead of %.17g", when, i, b, a);
  }
  if (m.proj != g.projection) bad("wrong-projection", "%s: projection '%.40s...' instead of '%.40s...'", when, g.projection.c_str(), m.proj.c_str());
  if (offsets && (g.viewXoff() != m.xoff || g.viewYoff() != m.yoff)) bad("wrong-offset", "%s: view offset (%d,%d) instead of (%d,%d)", when, g.viewXoff(), g.viewYoff(), m.xoff, m.yoff);
  for (auto &kv : m.meta) {
    auto it = g.metadata.find(kv.first);
    if (it == g.metadata.end()) bad("wrong-metadata", "%s: '%s' is gone", when, kv.first.c_str());
    if (it->second != kv.second) bad("wrong-metadata", "%s: '%s' is '%s' instead of '%s'", when, kv.first.c_str(), it->second.c_str(), kv.second.c_str());
  }
  for (auto &kv : g.metadata) {
    const std::string &k = kv.first;
    if (k == "PROCESSING_HISTORY" || k == "TIFFTAG_DATETIME" || k == "TIFFTAG_SOFTWARE" || k == "AREA_OR_POINT") continue;
    if (!m.meta.count(k)) bad("wrong-metadata", "%s: '%s' has come from nowhere", when, k.c_str());
  }
  auto it = g.metadata.find("PROCESSING_HISTORY");
  auto ls = it == g.metadata.end() ? std::vector<std::string>() : lines(it->second);
  if (ls.size() != m.hist.size()) bad("wrong-history", "%s: %zu entries instead of %zu", when, ls.size(), m.hist.size());
  for (size_t i = 0; i < ls.size(); i++) {
    if (m.hist[i].full.empty() ? !ends_with(ls[i], " | " + m.hist[i].op) : ls[i] != m.hist[i].full) bad("wrong-history", "%s: entry %zu is '%s' but '%s' was done", when, i, ls[i].c_str(), m.hist[i].op.c_str());
    m.hist[i].full = ls[i];
  }
  for (int n = 1; n <= 8; n++) if (m.w > 2 && m.h > 2 && g.nshift(n) != DY[n] * m.w + DX[n]) bad("wrong-neighbour", "%s: the offset to neighbour %d is %d instead of %d", when, n, g.nshift(n), DY[n] * m.w + DX[n]);
  stat("rasters-compared");
}
// The raster inside the padding which LoadGDAL() put around it
template <class T> static Grid<T> unpad(Grid<T> &g, int w, int h, int px, int py) {
  if (g.width() != w + 2 * px || g.height() != h + 2 * py) fail("wrong-size", "LoadGDAL: %dx%d with padding %d,%d instead of %dx%d", g.width(), g.height(), px, py, w + 2 * px, h + 2 * py);
  Grid<T> c(w, h, T());
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) c(x, y) = g(x + px, y + py);
  for (int y = 0; y < g.height(); y++) for (int x = 0; x < g.width(); x++) if ((x < px || y < py || x >= px + w || y >= py + h) && g(x, y) != T(0)) fail("wrong-cell", "the padding is not zero at (%d,%d)", x, y);
  c.templateCopy(g); c.setNoData(g.noData());
  return c;
}
template <class T> static Grid<T> padded(const Grid<T> &g, int px, int py) {
  Grid<T> p(g.width() + 2 * px, g.height() + 2 * py, T(5));
  p.templateCopy(g); p.setNoData(g.noData());
  for (int y = 0; y < g.height(); y++) for (int x = 0; x < g.width(); x++) p(x + px, y + py) = g(x, y);
  return p;
}

template <class T> static void history() {
  const int NR = 2, NF = 3;
  struct Slot { Grid<T> g; Model<T> m; };
  struct File { bool known = false; Model<T> m; };
  std::vector<Slot> r(NR); std::vector<File> f(NF);
  bool faulty = choose(WORK, 2);
  if (faulty) {
    static const uint32_t K[] = {F_OPEN, F_READ_EIO, F_WRITE_EIO, F_WRITE_ENOSPC, F_CLOSE, F_READ_SHORT | F_WRITE_SHORT, F_OPEN | F_READ_EIO | F_WRITE_EIO | F_WRITE_ENOSPC | F_CLOSE, ~(uint32_t)F_EINTR};
    sim::io.kinds = K[choose(FAULT, 8)] | (choose(FAULT, 2) ? (uint32_t)(F_READ_SHORT | F_WRITE_SHORT) : 0u);
    static const uint32_t M[] = {0, 3, 8, 20, 60, 150};
    sim::io.mean = M[choose(FAULT, 6)]; sim::io.left = 1 + choose(FAULT, 5);
    if (choose(FAULT, 4) == 3) sim::io.disk_budget = choose(FAULT, 12000);
  }
  auto name = [](int i) { return sim::scratch + "/g" + std::to_string(i) + ".tif"; };
  auto any_gt = [] {
    std::vector<double> v;
    int k = choose(WORK, 5);
    if (!k) return v;
    auto n = [](double s) { return ((int)choose(WORK, 4000) - 2000) / s; };
    auto nz = [&](double s) { double x = n(s); return x == 0 ? 1 / s : x; };
    v = {n(16), nz(16), 0, n(16), 0, nz(16)};
    if (k == 2) v[5] = -std::fabs(v[5]), v[1] = std::fabs(v[1]);
    if (k == 3) v[2] = n(7), v[4] = n(7);
    if (k == 4) v[0] = n(3), v[1] = std::fabs(nz(3e4)), v[3] = n(1e-4), v[5] = -v[1];
    return v;
  };
  auto fresh = [&](Slot &s) {
    s = Slot(); Model<T> &m = s.m;
    m.w = 1 + choose(WORK, 9); m.h = 1 + choose(WORK, 9);
    if (choose(WORK, 24) == 23) m.w = 60 + choose(WORK, 500), m.h = 1 + choose(WORK, 30);   // several strips
    m.nodata = choose(WORK, 2) ? value<T>() : T(-1);
    uint32_t seed = choose(WORK, 1 << 20); bool special = choose(WORK, 2);
    for (int i = 0; i < m.w * m.h; i++) { seed = seed * 1664525u + 1013904223u; m.d.push_back(special && i < 40 ? value<T>() : (T)((int)(seed >> 20) - 700)); }
    m.gt = any_gt(); m.proj = g_proj[choose(WORK, g_proj.size())];
    for (int k = choose(WORK, 4); k--;) { std::string n = text(12, true); m.meta[n] = text(choose(WORK, 9) == 8 ? 3000 : 40, false); }
    s.g = Grid<T>(m.w, m.h, T());
    for (size_t i = 0; i < m.d.size(); i++) s.g((uint32_t)i) = m.d[i];
    s.g.setNoData(m.nodata); s.g.geotransform = m.gt; s.g.projection = m.proj; s.g.metadata = m.meta;
  };
  for (auto &s : r) fresh(s);
  uint64_t h = 0, before = 0, strile = 0;
  auto faulted = [&] { return io_faults_fired() != before; };
  // Reads file i, with the disk in order, as other software would find it.
  auto verify = [&](const char *when, int i) {
    bool armed = sim::io.armed; sim::io.armed = false;
    std::string what;
    try { Grid<T> g(name(i)); match(when, f[i].m, g, true); } catch (const std::exception &e) { what = e.what(); if (what.empty()) what = "?"; }
    if (!what.empty()) bad("bad-file", "%s cannot be loaded: %s", when, what.c_str());
    sim::io.armed = armed;
  };
  int n = 2 + choose(WORK, 8);
  if (faulty) io_arm();
  for (int step = 0; step < n; step++) {
    Slot &s = r[choose(WORK, NR)]; Slot &o = r[choose(WORK, NR)]; int fi = choose(WORK, NF);
    int op = choose(WORK, 13);
    event("step %d op %d raster %d file %d", step, op, (int)(&s - &r[0]), fi);
    before = io_faults_fired(); strile = io_faults_in_strile_rewrite(); excuse = nullptr;
    try {
      switch (op) {
        case 0: case 1: case 2: case 3: {               // save
          File nf; nf.known = true; nf.m = s.m; nf.m.xoff = nf.m.yoff = 0;
          std::string what = choose(WORK, 4) ? text(60, false) : "";
          for (auto &c : what) if (c == '\n') c = ' ';
          while (!what.empty() && what.back() == ' ') what.pop_back();
          int ox = 0, oy = 0;
          if (choose(WORK, 3) == 2) ox = s.m.xoff, oy = s.m.yoff;
          else if (choose(WORK, 3) == 2) ox = choose(WORK, 50), oy = choose(WORK, 50);
          if (!nf.m.gt.empty()) { const auto &t = s.m.gt; nf.m.gt[0] = t[0] + (ox * t[1] + oy * t[2]); nf.m.gt[3] = t[3] + (ox * t[4] + oy * t[5]); }
          else nf.m.gt = STANDARD;
          bool squeeze = choose(WORK, 2);
          nf.m.hist.push_back({what.empty() ? "Unspecified Operation" : what, ""});
          f[fi].known = false;
          if (op < 3) {
            s.g.saveGDAL(name(fi), what, ox, oy, squeeze);
            s.m.hist.push_back(nf.m.hist.back());
            stat("saves");
          } else {
            int px = choose(WORK, 3), py = choose(WORK, 3);
            richdem::SaveGDAL(px || py ? padded(s.g, px, py) : s.g, name(fi), what, ox, oy, px, py, squeeze);
            stat("saves-of-padded-rasters");
          }
          f[fi] = nf;
          excuse = io_faults_in_strile_rewrite() != strile && listed("gdal-strip-table") ? "gdal-strip-table" : nullptr;
          if (s.m.gt.size()) { auto t = s.m.gt; if (s.g.geotransform != t) fail("wrong-georeference", "saving changed the raster's own geotransform"); }
          { Model<T> c = s.m; match("a raster that was saved", c, s.g, false); s.m.hist = c.hist; }
          verify("a saved file", fi);
          excuse = nullptr;
          break; }
        case 4: case 5: case 6: {                       // load
          if (!f[fi].known) break;
          int how = choose(WORK, 4);
          if (how == 3) {
            int px = choose(WORK, 3), py = choose(WORK, 3);
            Grid<T> g; if (choose(WORK, 2)) g.resize(3, 2, T(9));
            richdem::LoadGDAL(name(fi), g, px, py);
            Grid<T> c = unpad(g, f[fi].m.w, f[fi].m.h, px, py);
            match("a raster loaded with LoadGDAL", f[fi].m, c, false);
            s.g = c; s.m = f[fi].m; s.m.xoff = s.m.yoff = 0; stat("loads-with-padding");
          } else {
            bool first = how == 2;
            Grid<T> g;
            if (choose(WORK, 4) == 1 && !first) g = Grid<T>(name(fi));
            else g = Grid<T>(name(fi), false, 0, 0, 0, 0, false, !first);
            if (first) {
              if (g.width() != f[fi].m.w || g.height() != f[fi].m.h) fail("wrong-size", "header only: %dx%d", g.width(), g.height());
              if (!g.empty()) fail("wrong-size", "data was loaded although only the header was asked for");
              g.loadData();
            }
            match("a loaded raster", f[fi].m, g, true);
            s.g = g; s.m = f[fi].m; stat("loads");
          }
          break; }
        case 7: case 8: {                               // load a window
          if (!f[fi].known) break;
          const Model<T> &m = f[fi].m;
          int x = choose(WORK, m.w), y = choose(WORK, m.h), w = 1 + choose(WORK, m.w + 2), hh = 1 + choose(WORK, m.h + 2);
          Model<T> e = m; e.xoff = x; e.yoff = y;
          bool exact = choose(WORK, 4) == 3;
          if (exact) w = m.w - x, hh = m.h - y;
          e.w = std::min(w, m.w - x); e.h = std::min(hh, m.h - y);
          e.d.clear();
          for (int j = 0; j < e.h; j++) for (int i = 0; i < e.w; i++) e.d.push_back(m.d[(size_t)(y + j) * m.w + x + i]);
          if (choose(WORK, 3) == 2) {
            Grid<T> g;
            int px = choose(WORK, 3), py = choose(WORK, 3);
            richdem::LoadGDAL(name(fi), g, px, py, x, y, w, hh);
            if (!px && !py) match("a window loaded with LoadGDAL", e, g, false);
            else {
              Grid<T> c = unpad(g, e.w, e.h, px, py);
              match("a padded window loaded with LoadGDAL", e, c, false);
              stat("windows-with-padding");
            }
          } else {
            bool first = choose(WORK, 2);
            Grid<T> g(name(fi), false, x, y, w, hh, exact, !first);
            if (first) g.loadData();
            match("a window of a file", e, g, true);
            s.g = g; s.m = e;
          }
          stat("windows");
          break; }
        case 9: {                                       // edit
          int k = choose(WORK, 7);
          if (k <= 1) { int i = choose(WORK, s.m.d.size()); T v = value<T>(); s.m.d[i] = v; s.g((uint32_t)i) = v; }
          else if (k == 2) { s.m.nodata = value<T>(); s.g.setNoData(s.m.nodata); }
          else if (k == 3) { s.m.proj = g_proj[choose(WORK, g_proj.size())]; s.g.projection = s.m.proj; }
          else if (k == 4) { s.m.gt = any_gt(); s.g.geotransform = s.m.gt; }
          else if (k == 5) { std::string n = text(12, true); s.m.meta[n] = text(40, false); s.g.metadata[n] = s.m.meta[n]; }
          else if (&s != &o) { o.g = s.g; o.m = s.m; stat("copies"); }
          else fresh(s);
          break; }
        case 10: {                                      // probes
          int32_t ph = -1, pw = -1; double t[6] = {0}; GDALDataType dt = GDT_Unknown; T nd = T();
          if (choose(WORK, 6) == 5 && !io_faults_fired()) { // of a file that is not there
            int k = choose(WORK, 5); bool threw = false; const std::string no = sim::scratch + "/absent.tif";
            try {
              Grid<T> g;
              switch (k) {
                case 0: richdem::peekGDALType(no); break;
                case 1: richdem::getGDALDimensions(no, ph, pw, dt, t); break;
                case 2: richdem::getGDALHeader<T>(no, ph, pw, nd, t); break;
                case 3: richdem::LoadGDAL(no, g); break;
                default: g = Grid<T>(no);
              }
            } catch (const std::exception &) { threw = true; }
            if (!threw) fail("found-nothing", "a file that does not exist was probed or loaded without an error (%d)", k);
            stat("absent-files-refused");
            break;
          }
          if (!f[fi].known) break;
          const Model<T> &m = f[fi].m;
          switch (choose(WORK, 3)) {
            case 0: if (richdem::peekGDALType(name(fi)) != richdem::NativeTypeToGDAL<T>()) fail("wrong-type", "peekGDALType"); break;
            case 1:
              richdem::getGDALDimensions(name(fi), ph, pw, dt, nullptr);
              if (dt != richdem::NativeTypeToGDAL<T>() || ph != m.h || pw != m.w) fail("wrong-type", "getGDALDimensions: type %d, %dx%d instead of %dx%d", dt, pw, ph, m.w, m.h);
              break;
            default:
              richdem::getGDALHeader<T>(name(fi), ph, pw, nd, t);
              if (ph != m.h || pw != m.w || (!same_bits(nd, m.nodata) && !(nd != nd && m.nodata != m.nodata))) fail("wrong-type", "getGDALHeader: %dx%d instead of %dx%d, or another NoData value", pw, ph, m.w, m.h);
              if (m.gt != STANDARD) for (int i = 0; i < 6; i++) if (!(std::fabs(t[i] - m.gt[i]) <= 1e-12 * std::max(std::fabs(t[i]), std::fabs(m.gt[i])))) fail("wrong-georeference", "getGDALHeader: geotransform[%d] is %.17g instead of %.17g", i, t[i], m.gt[i]);
          }
          stat("probes");
          break; }
        case 11: {                                      // the stored file is cut short
          if (!f[fi].known || choose(WORK, 2)) break;
          struct stat st; int fd = ::open(name(fi).c_str(), O_RDWR);
          if (fd < 0) break;
          fstat(fd, &st);
          off_t cut = choose(FAULT, 2) ? choose(FAULT, st.st_size) : st.st_size - 1 - choose(FAULT, st.st_size < 40 ? st.st_size : 40);
          if (ftruncate(fd, cut)) {}
          struct stat st2; fstat(fd, &st2); ::close(fd);
          if (st2.st_size == st.st_size) break;
          stat("fault.file-cut-short"); event("file %d cut from %ld to %ld bytes", fi, (long)st.st_size, (long)cut);
          f[fi].known = false;
          bool loaded = false; Grid<T> g;
          try { g = Grid<T>(name(fi)); loaded = true; } catch (const std::exception &) { stat("cut-short-refused"); }
          if (loaded) { match("a file that was cut short but loaded all the same", f[fi].m, g, true); stat("cut-short-harmless"); }
          break; }
        case 12: {                                      // there is nothing to save
          if (!f[fi].known) break;
          Grid<T> g(name(fi), false, 0, 0, 0, 0, false, false);
          bool saved = false;
          try {
            if (choose(WORK, 2)) g.saveGDAL(sim::scratch + "/none.tif"); else richdem::SaveGDAL(g, sim::scratch + "/none.tif", "", 0, 0, (f[fi].m.w - 1) / 2, (f[fi].m.h - 1) / 2);
            saved = true;
          } catch (const std::exception &) { stat("saves-of-nothing"); }
          if (saved) fail("saved-nothing", "a raster whose data is not in memory was saved without an error");
          break; }
      }
      h = h * 31 + op;
    } catch (const std::exception &e) {
      event("step %d refused", step); note("%s", e.what());
      if (!faulted()) fail("refused", "operation %d failed although no file operation did: %s", op, e.what());
      stat("refused-after-fault");
      h = h * 31 + 99;
      if (op <= 3) { Model<T> c = s.m; match("a raster whose save failed", c, s.g, false); }
    }
  }
  if (faulty) io_disarm();
  excuse = nullptr;
  for (auto &s : r) match("a raster at the end", s.m, s.g, false);
  for (int i = 0; i < NF; i++) if (f[i].known) verify("a file at the end", i);
  state_hash(h);
}
static void run() {
  set_crash_hook([](int) {                              // libtiff can go down with the disk it works on
    static const char *const L[] = {"/libgdal", "/libtiff", nullptr};
    if (io_faults_fired() && crashed_in(L)) { stat("gdal-crashed-on-a-failing-disk"); end_run_ok(); }
  });
  mkdir(sim::scratch.c_str(), 0777);
  switch (choose(WORK, 7)) {
    case 0: history<float>(); break;
    case 1: history<double>(); break;
    case 2: history<uint8_t>(); break;
    case 3: history<int16_t>(); break;
    case 4: history<uint32_t>(); break;
    case 5: history<int32_t>(); break;
    default: history<uint16_t>();
  }
}
static void init() {
  richdem::RegisterGDALDrivers();
  g_proj = {"", R"(GEOGCS["WGS 84",DATUM["WGS_1984",SPHEROID["WGS 84",6378137,298.257223563,AUTHORITY["EPSG","7030"]],AUTHORITY["EPSG","6326"]],PRIMEM["Greenwich",0,AUTHORITY["EPSG","8901"]],UNIT["degree",0.0174532925199433,AUTHORITY["EPSG","9122"]],AXIS["Latitude",NORTH],AXIS["Longitude",EAST],AUTHORITY["EPSG","4326"]])",
    R"(LOCAL_CS["unknown",UNIT["metre",1,AUTHORITY["EPSG","9001"]],AXIS["Easting",EAST],AXIS["Northing",NORTH]])"};
}
Harness g_harnesses[] = {{"C06", run, init}, {nullptr, nullptr, nullptr}};
