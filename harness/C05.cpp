// C05: a cached or natively saved raster comes back exactly or its loading fails.
#include "common.hpp"
#include <richdem/richdem.hpp>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace hz;

// What a raster must look like: plain values only.
template <class T> struct Model {
  int w = 0, h = 0; std::vector<T> d; T nodata = T(-1);
  std::vector<double> gt; std::string proj, base; std::map<std::string, std::string> meta;
  int xoff = 0, yoff = 0;
};
template <class T> static T any_value() {
  switch (choose(WORK, 8)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::lowest();
    case 2: if (std::is_floating_point<T>::value) return std::numeric_limits<T>::quiet_NaN(); return T(3);
    case 3: if (std::is_floating_point<T>::value) return std::numeric_limits<T>::infinity(); return T(0);
    case 4: if (std::is_floating_point<T>::value) return (T)-0.0; return T(1);
    default: return (T)((int)choose(WORK, 2000) / (std::is_floating_point<T>::value ? 8 : 9));
  }
}
static std::string text(int maxlen) {
  std::string s; int n = choose(WORK, 4) == 3 ? choose(WORK, maxlen) : choose(WORK, 12);
  uint32_t seed = choose(WORK, 1 << 16);
  for (int i = 0; i < n; i++) s += (char)(32 + (seed = seed * 1103515245u + 12345u, seed >> 16) % 90);
  return s;
}
template <class T> static void match(const char *when, const Model<T> &m, Grid<T> &g, bool in_place) {
  if (g.width() != m.w || g.height() != m.h) fail("wrong-size", "%s: %dx%d instead of %dx%d", when, g.width(), g.height(), m.w, m.h);
  if (g.size() != m.d.size()) fail("wrong-size", "%s: %u cells instead of %zu", when, g.size(), m.d.size());
  for (size_t i = 0; i < m.d.size(); i++)
    if (!same_bits(m.d[i], g((uint32_t)i))) { std::ostringstream o; o << +m.d[i] << " expected, got " << +g((uint32_t)i); fail("wrong-cell", "%s: cell %zu of %dx%d: %s", when, i, m.w, m.h, o.str().c_str()); }
  for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) if (!same_bits(m.d[(size_t)y * m.w + x], g(x, y))) fail("wrong-cell", "%s: cell (%d,%d) of %dx%d differs by coordinates", when, x, y, m.w, m.h);
  if (!same_bits(m.nodata, g.noData())) fail("wrong-nodata", "%s: NoData value differs", when);
  if (m.gt.size() != g.geotransform.size()) fail("wrong-georeference", "%s: geotransform of %zu numbers instead of %zu", when, g.geotransform.size(), m.gt.size());
  for (size_t i = 0; i < m.gt.size(); i++) if (!same_bits(m.gt[i], g.geotransform[i])) fail("wrong-georeference", "%s: geotransform[%zu] is %g instead of %g", when, i, g.geotransform[i], m.gt[i]);
  if (m.proj != g.projection) fail("wrong-projection", "%s: projection of %zu characters instead of %zu, or other ones", when, g.projection.size(), m.proj.size());
  if (g.viewXoff() != m.xoff || g.viewYoff() != m.yoff) fail("wrong-offset", "%s: view offset (%d,%d) instead of (%d,%d)", when, g.viewXoff(), g.viewYoff(), m.xoff, m.yoff);
  if (in_place && (g.basename != m.base || g.metadata != m.meta)) fail("wrong-attributes", "%s: basename or metadata changed", when);
  for (int n = 1; n <= 8; n++) if (m.w > 2 && m.h > 2 && g.nshift(n) != DY[n] * m.w + DX[n]) fail("wrong-neighbour", "%s: the offset to neighbour %d is %d instead of %d", when, n, g.nshift(n), DY[n] * m.w + DX[n]);
  stat("rasters-compared");
}

template <class T> static void history() {
  const int NR = 2, NF = 3;                            // rasters in play and file names
  struct Slot { Grid<T> g; Model<T> m; bool in_mem = true, dumped = false, lost = false; int file = -1; };
  std::vector<Slot> r(NR);
  struct File { bool known = false; Model<T> m; };     // what a load of the file must give, if it succeeds
  std::vector<File> f(NF);
  bool faulty = choose(WORK, 2);
  int disk = choose(WORK, 4);
  if (faulty) {
    static const uint32_t K[] = {F_OPEN, F_READ_EIO, F_WRITE_EIO, F_WRITE_ENOSPC, F_CLOSE, F_READ_SHORT | F_WRITE_SHORT | F_EINTR, F_OPEN | F_READ_EIO | F_WRITE_EIO | F_WRITE_ENOSPC | F_CLOSE, ~0u};
    io.kinds = K[choose(FAULT, 8)] | (choose(FAULT, 2) ? (uint32_t)(F_READ_SHORT | F_WRITE_SHORT | F_EINTR) : 0u);
    static const uint32_t M[] = {0, 3, 6, 12, 25, 50};
    io.mean = M[choose(FAULT, 6)]; io.left = 1 + choose(FAULT, 5);
    if (disk == 3) io.disk_budget = choose(FAULT, 6000);
  }
  auto name = [](int i) { return sim::scratch + "/n" + std::to_string(i) + ".native"; };
  auto fresh = [&](Slot &s) {
    int w = 1 + choose(WORK, 9), h = 1 + choose(WORK, 9);
    if (choose(WORK, 24) == 23) w = 300 + choose(WORK, 1200), h = 1 + choose(WORK, 6);
    Model<T> m; m.w = w; m.h = h; m.nodata = any_value<T>();
    uint32_t seed = choose(WORK, 1 << 20); bool special = choose(WORK, 2);
    for (int i = 0; i < w * h; i++) {
      seed = seed * 1664525u + 1013904223u;
      m.d.push_back(special && i < 40 ? any_value<T>() : (T)((int)(seed >> 20) - 700));
    }
    int k = choose(WORK, 4);
    if (k) { m.gt.resize(6); for (auto &v : m.gt) v = (int)choose(WORK, 4000) / 16.0 - 100; if (k == 3) m.gt[choose(WORK, 6)] = std::nan(""); }
    m.proj = text(choose(WORK, 8) == 7 ? 9000 : 600); m.base = text(20);
    if (choose(WORK, 2)) m.meta[text(8)] = text(30);
    s = Slot();
    s.g = Grid<T>(w, h, T());
    for (size_t i = 0; i < m.d.size(); i++) s.g((uint32_t)i) = m.d[i];
    s.g.setNoData(m.nodata); s.g.geotransform = m.gt; s.g.projection = m.proj; s.g.basename = m.base; s.g.metadata = m.meta;
    s.m = m;
  };
  for (auto &s : r) fresh(s);
  if (choose(WORK, 3) == 2 && std::is_floating_point<T>::value) {   // one is a window of a larger file, with view offsets
    Slot &s = r[0]; std::string tif = sim::scratch + "/base.tif";
    Grid<T> big(12, 10, T()); for (uint32_t i = 0; i < big.size(); i++) big(i) = (T)(int)i;
    big.setNoData(T(-1)); big.geotransform = {1, 2, 0, 3, 0, -2}; big.saveGDAL(tif);
    int x = choose(WORK, 6), y = choose(WORK, 5), w = 1 + choose(WORK, 6), h = 1 + choose(WORK, 5);
    s = Slot(); s.g = Grid<T>(tif, false, x, y, w, h);
    s.m.w = w; s.m.h = h; s.m.xoff = x; s.m.yoff = y; s.m.nodata = T(-1); s.m.gt = s.g.geotransform; s.m.proj = s.g.projection; s.m.meta = s.g.metadata;
    for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) s.m.d.push_back((T)((j + y) * 12 + i + x));
    match("a window of a GeoTIFF", s.m, s.g, true);
    stat("windows");
  }
  int n = 2 + choose(WORK, 9);
  if (faulty) io_arm();
  uint64_t h = 0;
  for (int step = 0; step < n; step++) {
    Slot &s = r[choose(WORK, NR)]; Slot &o = r[choose(WORK, NR)]; int fi = choose(WORK, NF);
    int op = choose(WORK, 10);
    event("step %d op %d raster %d file %d", step, op, (int)(&s - &r[0]), fi);
    uint64_t before = io_faults_fired();
    auto faulted = [&] { return io_faults_fired() != before; };
    try {
      switch (op) {
        case 0: case 1:                                 // save
          if (!s.in_mem || s.lost) break;
          f[fi].known = false;
          for (auto &q : r) if (q.dumped && q.file == fi) q.lost = true;    // its file is being replaced
          s.g.saveToCache(name(fi));
          f[fi].known = true; f[fi].m = s.m; s.file = fi;
          match("a raster that was saved", s.m, s.g, true);
          stat("saves");
          break;
        case 2: case 3: {                               // load into a new raster
          if (!f[fi].known) break;
          bool header_first = choose(WORK, 2);
          Grid<T> g(name(fi), true, 0, 0, 0, 0, false, !header_first);
          if (header_first) {
            if (g.width() != f[fi].m.w || g.height() != f[fi].m.h) fail("wrong-size", "header only: %dx%d instead of %dx%d", g.width(), g.height(), f[fi].m.w, f[fi].m.h);
            g.loadData();
          }
          match("a raster loaded from a native file", f[fi].m, g, false);
          s.g = g; s.m = f[fi].m; s.m.base = ""; s.m.meta.clear(); s.in_mem = true; s.dumped = s.lost = false; s.file = fi;
          stat("loads");
          break; }
        case 4: case 5: {                               // dump
          if (!s.in_mem || s.lost) break;
          int d = s.file >= 0 && choose(WORK, 2) ? s.file : fi;
          f[d].known = false;
          for (auto &q : r) if (&q != &s && q.dumped && q.file == d) q.lost = true;
          s.g.setCacheFilename(name(d));
          s.g.dumpData();
          s.in_mem = false; s.dumped = true; s.file = d;
          f[d].known = true; f[d].m = s.m;
          if (!s.g.empty()) fail("not-dumped", "data is still in memory after a dump");
          if (s.g.width() != s.m.w || s.g.height() != s.m.h) fail("wrong-size", "a dumped raster reports %dx%d instead of %dx%d", s.g.width(), s.g.height(), s.m.w, s.m.h);
          stat("dumps");
          break; }
        case 6: case 7: {                               // reload
          if (!s.dumped || s.lost) break;
          s.g.loadData();
          s.in_mem = true; s.dumped = false;
          match("a raster dumped and reloaded", s.m, s.g, true);
          stat("reloads");
          break; }
        case 8: {                                       // edit
          if (!s.in_mem || s.lost) break;
          int k = choose(WORK, 7);
          T v = any_value<T>();
          if (k <= 1) { int i = choose(WORK, s.m.d.size()); s.m.d[i] = v; s.g((uint32_t)i) = v; }
          else if (k == 2) { s.m.nodata = v; s.g.setNoData(v); }
          else if (k == 3) { s.m.proj = text(500); s.g.projection = s.m.proj; s.m.base = text(9); s.g.basename = s.m.base; }
          else if (k == 4) { int w = 1 + choose(WORK, 7), hh = 1 + choose(WORK, 7); s.g.resize(w, hh, v); s.m.w = w; s.m.h = hh; s.m.d.assign((size_t)w * hh, v); }
          else if (k == 6) {                            // the data is there already: nothing to load, nothing to lose
            try { s.g.loadData(); } catch (const std::exception &) {}
            match("a raster asked to load what it has", s.m, s.g, true); stat("loads-of-loaded");
          }
          else { s.g.setAll(v); std::fill(s.m.d.begin(), s.m.d.end(), v); }
          break; }
        case 9:
          if (choose(WORK, 2)) {                        // the stored file is cut short
            if (!f[fi].known) break;
            struct stat st; int fd = ::open(name(fi).c_str(), O_RDWR);
            if (fd < 0) break;
            fstat(fd, &st);
            off_t cut = choose(FAULT, 2) ? choose(FAULT, st.st_size) : st.st_size - 1 - choose(FAULT, st.st_size < 40 ? st.st_size : 40);
            if (ftruncate(fd, cut)) {} 
            struct stat st2; fstat(fd, &st2); ::close(fd);
            if (st2.st_size == st.st_size) break;
            stat("fault.file-cut-short"); event("file %d cut from %ld to %ld bytes", fi, (long)st.st_size, (long)cut);
            f[fi].known = false;
            for (auto &q : r) if (q.dumped && q.file == fi) q.lost = true;
            bool loaded = false;
            try { Grid<T> g(name(fi), true); loaded = true; } catch (const std::exception &) { stat("cut-short-refused"); }
            if (loaded) fail("cut-file-accepted", "a native file cut from %ld to %ld bytes was loaded without an error", (long)st.st_size, (long)cut);
          } else if (s.in_mem && !s.lost && &s != &o) {  // copy
            o.g = s.g; o.m = s.m; o.in_mem = true; o.dumped = o.lost = false; o.file = s.file;
            match("a copy", o.m, o.g, true);
            stat("copies");
          }
          break;
      }
      h = h * 31 + op;
    } catch (const std::exception &e) {
      event("step %d refused", step);
      note("%s", e.what());
      if (!faulted()) fail("refused", "operation %d failed although no file operation did: %s", op, e.what());
      stat("refused-after-fault");
      h = h * 31 + 99;
      if (op == 2 || op == 3) { /* the file is intact; a later load must still give it */ }
      else if (op >= 4 && op <= 5 && !s.g.empty()) match("a raster whose dump failed", s.m, s.g, true);
      else if (op >= 4 && op <= 5) fail("lost", "a dump reported a failure but the raster's data is gone");
      else if (op <= 1) match("a raster whose save failed", s.m, s.g, true);
      else if (op == 6 || op == 7) { if (!s.g.empty()) fail("half-loaded", "a reload reported a failure but left the raster with data"); }
    }
  }
  if (faulty) io_disarm();
  // With the faults over, everything not lost is still there.
  for (auto &s : r) if (!s.lost) {
    if (s.dumped) { try { s.g.loadData(); } catch (const std::exception &e) { fail("lost", "a dumped raster cannot be reloaded after the faults stopped: %s", e.what()); } }
    match("a raster at the end", s.m, s.g, true);
  }
  for (int i = 0; i < NF; i++) if (f[i].known) {
    try { Grid<T> g(name(i), true); match("a native file at the end", f[i].m, g, false); }
    catch (const std::exception &e) { fail("lost", "a native file saved without an error cannot be loaded: %s", e.what()); }
  }
  state_hash(h);
}
static void run() {
  mkdir(sim::scratch.c_str(), 0777);
  switch (choose(WORK, 7)) {
    case 0: history<float>(); break;
    case 1: history<double>(); break;
    case 2: history<uint8_t>(); break;
    case 3: history<int16_t>(); break;
    case 4: history<uint32_t>(); break;
    case 5: history<int32_t>(); break;
    default: history<uint16_t>();
  }
}
Harness g_harnesses[] = {{"C05", run, nullptr}, {nullptr, nullptr, nullptr}};
