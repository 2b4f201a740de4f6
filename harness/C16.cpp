// C16: running out of memory leaves rasters consistent; lent memory is never
// freed or resized, owned memory is freed exactly once.
#include "common.hpp"
#include <richdem/richdem.hpp>
#include <sys/stat.h>
#include <unistd.h>
using namespace hz;

// Arms an allocation failure for one operation of the library.
static bool g_gdal = false;
bool g_used_gdal = false;
static void arm() {
  if (!choose(FAULT, 2)) return;
  static const uint32_t SPAN[] = {1, 1, 2, 1000};
  static const size_t MIN[] = {0, 0, 40, 200};
  uint32_t n = 1 + choose(FAULT, g_gdal ? 12 : 7), span = SPAN[choose(FAULT, 4)]; size_t min = MIN[choose(FAULT, 4)];
  alloc_fail_after(n, span, min, !g_gdal);
}

template <class T> struct M {                        // what a raster must look like
  int w = 0, h = 0; std::vector<T> d; T nodata = T(-1);
  std::vector<double> gt; std::string proj, base; std::map<std::string, std::string> meta;
};
enum State { FULL, HOLLOW };                           // HOLLOW: no data in memory, and the user knows it (moved from, cleared, on disk)
template <class T> struct Slot {
  Grid<T> *g = nullptr; M<T> m; State st = FULL;
  int lent = -1;                                       // the buffer it wraps
  int on_disk = -1;                                    // file holding its data
  bool lazy = false;                                   // ... a GeoTIFF not read yet
};
template <class T> static std::string val(T v) { std::ostringstream o; o << +v; return o.str(); }

// Holds for every raster, whatever happened to it.
template <class T> static void invariants(const char *op, int i, Slot<T> &s) {
  Grid<T> &g = *s.g;
  if ((uint64_t)g.width() * (uint64_t)g.height() != g.size()) fail("wrong-size", "after %s: raster %d is %dx%d but says it has %u cells", op, i, g.width(), g.height(), g.size());
  if (g.empty()) {
    if (g.size() && s.st == FULL) fail("claims-cells-it-lacks", "after %s: raster %d says it has %u cells and holds none", op, i, g.size());
    return;
  }
  if (!addr_ok(g.data(), g.size() * sizeof(T))) fail("claims-cells-it-lacks", "after %s: raster %d says it has %dx%d cells, which is more than it holds", op, i, g.width(), g.height());
  if (g.width() > 2 && g.height() > 2)
    for (int n = 1; n <= 8; n++)
      if (g.nshift(n) != DY[n] * g.width() + DX[n]) fail("wrong-neighbour", "after %s: raster %d of width %d: the offset to neighbour %d is %d", op, i, g.width(), n, g.nshift(n));
}
// Holds for a raster no failed operation was writing to.
template <class T> static void matches(const char *op, int i, Slot<T> &s) {
  if (s.st != FULL) return;
  Grid<T> &g = *s.g; M<T> &m = s.m;
  if (g.width() != m.w || g.height() != m.h) fail("wrong-size", "after %s: raster %d is %dx%d instead of %dx%d", op, i, g.width(), g.height(), m.w, m.h);
  for (uint32_t k = 0; k < m.d.size(); k++) if (!same_bits(g(k), m.d[k])) fail("wrong-cell", "after %s: raster %d, cell %u of %dx%d: %s instead of %s", op, i, k, m.w, m.h, val(g(k)).c_str(), val(m.d[k]).c_str());
  if (!same_bits(g.noData(), m.nodata)) fail("wrong-nodata", "after %s: raster %d: NoData is %s instead of %s", op, i, val(g.noData()).c_str(), val(m.nodata).c_str());
  if (g.geotransform != m.gt || g.projection != m.proj || g.basename != m.base || g.metadata != m.meta) fail("wrong-attributes", "after %s: raster %d has another geotransform, projection, basename or metadata", op, i);
  if (g.owned() != (s.lent < 0)) fail("wrong-owner", "after %s: raster %d %s its memory", op, i, g.owned() ? "took over" : "disowned");
}
template <class T> static void resync(Slot<T> &s) {    // after a failed operation: the raster as it now is
  Grid<T> &g = *s.g;
  s.m = M<T>();
  s.m.w = g.width(); s.m.h = g.height(); s.m.nodata = g.noData();
  s.m.gt = g.geotransform; s.m.proj = g.projection; s.m.base = g.basename; s.m.meta = g.metadata;
  if (g.empty()) { if (g.size()) s.st = HOLLOW; else s.st = FULL; s.lent = -1; return; }
  for (uint32_t k = 0; k < g.size(); k++) s.m.d.push_back(g(k));
}

template <class T> static void history() {
  const int NS = 4, NB = 2, NF = 3;
  std::vector<Slot<T>> r(NS);
  struct Buf { T *p = nullptr; int w = 0, h = 0; std::vector<T> d; };
  std::vector<Buf> bufs(NB);
  struct File { bool known = false; M<T> m; };
  std::vector<File> nat(NF), tif(NF);
  const std::string N[] = {sim::scratch + "/a.native", sim::scratch + "/b.native", sim::scratch + "/c.native"};
  const std::string D[] = {sim::scratch + "/a.tif", sim::scratch + "/b.tif", sim::scratch + "/c.tif"};
  bool use_gdal = choose(WORK, 3) == 2;
  uint32_t vals = 1;
  auto next = [&] { vals = vals * 1664525u + 1013904223u; return (T)(vals >> 24); };
  for (auto &s : r) s.g = new Grid<T>();
  int steps = 3 + choose(WORK, 14);
  for (int step = 0; step < steps; step++) {
    int ai = choose(WORK, NS), bi = choose(WORK, NS); Slot<T> &a = r[ai], &b = r[bi];
    int w = 1 + choose(WORK, 9), h = 1 + choose(WORK, 9), fi = choose(WORK, NF), op = choose(WORK, 23);
    T v = next();
    const char *name = "?";
    bool refused = false, wrote_a = false, wrote_b = false, was_full_b = b.st == FULL;
    // the operation, the states afterwards if it succeeds, and which rasters it may leave in another valid state
    auto run = [&](const std::function<void()> &f) -> bool {
      event("step %d: %s a=%d b=%d %dx%d file %d", step, name, ai, bi, w, h, fi);
      stat((std::string("op.") + name).c_str());
      bool threw = false, oom = false;
      arm();
      try { f(); } catch (std::bad_alloc &) { threw = true; } catch (std::exception &) { threw = true; }
      oom = alloc_failed();
      alloc_fail_after(0);
      if (threw && !oom && !refused) fail("false-failure", "%s failed although nothing went wrong", name);
      if (!threw && refused) fail("not-refused", "%s was carried out on memory the raster was only lent", name);
      if (threw) stat(oom ? "failed-operations" : "refused-operations");
      else if (oom) stat("failures-survived");
      event("%s%s", threw ? "failed" : "done", oom ? " out of memory" : "");
      return !threw;
    };
    auto set = [&](Slot<T> &s, int w_, int h_, T val_) { if (s.st == HOLLOW) { s.m.nodata = s.g->noData(); s.m.gt = s.g->geotransform; s.m.proj = s.g->projection; s.m.base = s.g->basename; s.m.meta = s.g->metadata; s.lent = -1; } s.m.w = w_; s.m.h = h_; s.m.d.assign((size_t)w_ * h_, val_); s.st = FULL; s.on_disk = -1; s.lazy = false; };
    g_gdal = false;
    bool ok = true;
    switch (op) {
      case 0: case 1: {                                 // a new raster of given size
        name = "create"; Grid<T> *n = nullptr;
        ok = run([&] { n = new Grid<T>(w, h, v); });
        if (ok) {
          delete a.g; a = Slot<T>(); a.g = n; set(a, w, h, v);
          for (uint32_t k = 0; k < n->size(); k++) (*n)(k) = a.m.d[k] = next();
          n->setNoData(v); a.m.nodata = v;
          n->geotransform = a.m.gt = {1, 2, 0, 3, 0, -(double)w}; n->projection = a.m.proj = std::string(w * 5, 'p'); n->basename = a.m.base = "base"; n->metadata = a.m.meta = {{"key", std::string(h * 4, 'v')}};
        }
        break;
      }
      case 2: {                                         // wrap memory that is lent
        name = "wrap"; int k = choose(WORK, NB); Buf &u = bufs[k]; Grid<T> *n = nullptr;
        if (!u.p) { u.w = w; u.h = h; u.p = new T[w * h]; u.d.resize(w * h); for (int q = 0; q < w * h; q++) u.p[q] = u.d[q] = next(); }
        ok = run([&] { n = new Grid<T>(u.p, u.w, u.h); });
        if (ok) { delete a.g; a = Slot<T>(); a.g = n; a.lent = k; a.m.w = u.w; a.m.h = u.h; a.m.d = u.d; a.m.nodata = T(-1); }
        break;
      }
      case 3: {                                         // same shape as another, of the same or another type
        if (b.st != FULL) continue;
        name = "from-template"; Grid<T> *n = nullptr; bool other = choose(WORK, 2);
        if (other) { Grid<float> o(w, h, 1.f); o.geotransform = {1, 1, 1, 1, 1, 1}; o.projection = "proj"; ok = run([&] { n = new Grid<T>(o, v); }); if (ok) { delete a.g; a = Slot<T>(); a.g = n; set(a, w, h, v); a.m.gt = o.geotransform; a.m.proj = o.projection; } }
        else {
          ok = run([&] { Grid<T> q = Grid<T>::make_from_template(*b.g, v); n = new Grid<T>(std::move(q)); });
          if (ok) { M<T> m = b.m; delete a.g; a = Slot<T>(); a.g = n; set(a, m.w, m.h, v); a.m.gt = m.gt; a.m.proj = m.proj; a.m.base = m.base; a.m.meta = m.meta; }
        }
        break;
      }
      case 4: {                                         // copy construction
        if (b.st != FULL) continue;
        name = "copy"; Grid<T> *n = nullptr; ok = run([&] { n = new Grid<T>((const Grid<T> &)*b.g); });
        if (ok) { M<T> m = b.m; delete a.g; a = Slot<T>(); a.g = n; a.m = m; }
        break;
      }
      case 5: case 6: {                                 // copy assignment
        if (b.st != FULL) continue;
        name = "copy-assign"; ok = run([&] { *a.g = (const Grid<T> &)*b.g; });
        wrote_a = true;
        if (ok && ai != bi) { M<T> m = b.m; Grid<T> *g = a.g; a = Slot<T>(); a.g = g; a.m = m; }
        else if (ok) a.lent = -1;
        break;
      }
      case 7: {                                         // move construction
        if (b.st != FULL || ai == bi) continue;
        name = "move"; Grid<T> *n = nullptr; ok = run([&] { n = new Grid<T>(std::move(*b.g)); });
        if (ok) { Slot<T> q = b; delete a.g; a = q; a.g = n; Grid<T> *g = b.g; b = Slot<T>(); b.g = g; b.st = HOLLOW; }
        else was_full_b = true;
        break;
      }
      case 8: case 9: {                                 // move assignment
        if (b.st != FULL || ai == bi) continue;
        name = "move-assign"; ok = run([&] { *a.g = std::move(*b.g); });
        if (ok) { Slot<T> q = b; q.g = a.g; Grid<T> *g = b.g; a = q; b = Slot<T>(); b.g = g; b.st = HOLLOW; }
        else wrote_a = wrote_b = true;
        break;
      }
      case 10: {
        name = "swap"; ok = run([&] { std::swap(*a.g, *b.g); });
        if (ok) { Grid<T> *x = a.g, *y = b.g; std::swap(a, b); a.g = x; b.g = y; } else wrote_a = wrote_b = true;
        break;
      }
      case 11: case 12: {                               // resize
        name = "resize"; if (choose(WORK, 4) == 3) { w = a.m.w ? a.m.w : w; h = a.m.h ? a.m.h : h; if (choose(WORK, 2)) std::swap(w, h); }
        refused = a.lent >= 0 && a.st == FULL && (size_t)w * h != a.m.d.size();
        ok = run([&] { a.g->resize(w, h, v); });
        wrote_a = !refused;
        if (ok) set(a, w, h, v);
        break;
      }
      case 13: {                                        // resize to another's shape
        if (b.st != FULL || ai == bi) continue;
        name = "resize-like"; refused = a.lent >= 0 && a.st == FULL && b.m.d.size() != a.m.d.size();
        ok = run([&] { a.g->resize(*b.g, v); });
        wrote_a = !refused;
        if (ok) { set(a, b.m.w, b.m.h, v); a.m.gt = b.m.gt; a.m.proj = b.m.proj; }
        break;
      }
      case 14: {                                        // expand
        if (a.st != FULL) continue;
        name = "expand"; int nw = a.m.w + choose(WORK, 4), nh = a.m.h + choose(WORK, 4); if (!nw || !nh) continue;
        refused = a.lent >= 0 && (nw != a.m.w || nh != a.m.h);
        ok = run([&] { a.g->expand(nw, nh, v); });
        wrote_a = !refused;
        if (ok) { M<T> o = a.m; a.m.w = nw; a.m.h = nh; a.m.d.assign((size_t)nw * nh, v); for (int y = 0; y < o.h; y++) for (int x = 0; x < o.w; x++) a.m.d[y * nw + x] = o.d[y * o.w + x]; }
        break;
      }
      case 15: {                                        // save to a native file, maybe leaving memory
        if (a.st != FULL || !a.m.w) continue;
        bool dump = choose(WORK, 2); name = dump ? "dump" : "save";
        for (auto &q : r) if (q.on_disk == fi && !q.lazy && q.st == HOLLOW) { q.on_disk = -1; }
        nat[fi].known = false;
        ok = run([&] { if (dump) { a.g->setCacheFilename(N[fi]); a.g->dumpData(); } else a.g->saveToCache(N[fi]); });
        if (ok) { nat[fi].known = true; nat[fi].m = a.m; if (dump) { a.st = HOLLOW; a.on_disk = fi; a.lazy = false; a.lent = -1; } }
        break;
      }
      case 16: {                                        // read it back into the raster it came from
        if (a.st != HOLLOW || a.on_disk < 0) continue;
        name = a.lazy ? "read-geotiff-data" : "reload"; g_gdal = a.lazy;
        ok = run([&] { a.g->loadData(); });
        if (ok) { M<T> m = a.lazy ? tif[a.on_disk].m : nat[a.on_disk].m; a.st = FULL; m.base = a.g->basename; m.meta = a.g->metadata; a.m = m; a.lent = -1; if (a.lazy) { a.m.gt = a.g->geotransform; a.m.proj = a.g->projection; a.m.nodata = a.g->noData(); } a.on_disk = -1; a.lazy = false; }
        else if (!a.g->empty() && a.g->size()) fail("half-loaded", "loading failed, but the raster says its data is there");
        break;
      }
      case 17: {                                        // load a native file into a new raster
        if (!nat[fi].known) continue;
        name = "load"; Grid<T> *n = nullptr; ok = run([&] { n = new Grid<T>(N[fi], true); });
        if (ok) { delete a.g; a = Slot<T>(); a.g = n; a.m = nat[fi].m; a.m.base = ""; a.m.meta.clear(); }
        break;
      }
      case 18: {                                        // GeoTIFF: save (memory is plentiful), load, open without loading
        if (!use_gdal) continue;
        if (!tif[fi].known) {
          if (a.st != FULL || !a.m.w) continue;
          Grid<T> c(*a.g); c.metadata.clear(); c.projection = ""; c.geotransform = {0, 1, 0, 0, 0, -1}; g_used_gdal = true; c.saveGDAL(D[fi]); tif[fi].known = true; tif[fi].m = a.m;
          continue;
        }
        g_used_gdal = true; Grid<T> *n = nullptr; bool lazy = choose(WORK, 2); name = lazy ? "open-geotiff" : "load-geotiff"; g_gdal = true;
        ok = run([&] { n = new Grid<T>(D[fi], false, 0, 0, 0, 0, false, !lazy); });
        if (ok) { delete a.g; a = Slot<T>(); a.g = n; a.m = tif[fi].m; a.m.gt = n->geotransform; a.m.proj = n->projection; a.m.base = ""; a.m.meta = n->metadata; a.m.nodata = n->noData(); if (lazy) { a.st = HOLLOW; a.on_disk = fi; a.lazy = true; } }
        break;
      }
      case 19: {                                        // edits and reading rows
        if (a.st != FULL || !a.m.w) continue;
        name = "edit"; int k = choose(WORK, 13), x = choose(WORK, a.m.w), y = choose(WORK, a.m.h);
        std::vector<T> row; const T old = a.m.d[y * a.m.w + x];
        ok = run([&] {
          switch (k) {
            case 0: a.g->flipVert(); break;
            case 1: a.g->flipHorz(); break;
            case 2: a.g->setRow(y, v); break;
            case 3: a.g->setEdges(v); break;
            case 4: row = a.g->getRowData(y); break;
            case 5: row = a.g->getColData(x); break;
            case 6: a.g->setAll(v); break;
            case 7: a.g->setCol(x, v); break;
            case 8: a.g->replace(old, v); break;
            case 9: row = a.g->topRow(); break;
            case 10: row = a.g->bottomRow(); break;
            case 11: row = a.g->leftColumn(); break;
            case 12: row = a.g->rightColumn(); break;
          }
        });
        if (!ok) break;
        M<T> o = a.m; auto &d = a.m.d; int W = o.w, H = o.h;
        for (int j = 0; j < H; j++) for (int i = 0; i < W; i++) {
          T &c = d[j * W + i];
          if (k == 0) c = o.d[(H - 1 - j) * W + i];
          if (k == 1) c = o.d[j * W + W - 1 - i];
          if ((k == 2 && j == y) || (k == 7 && i == x) || (k == 8 && c == old) || k == 6 || (k == 3 && (i == 0 || j == 0 || i == W - 1 || j == H - 1))) c = v;
        }
        if (k == 9) y = 0, k = 4; else if (k == 10) y = H - 1, k = 4; else if (k == 11) x = 0, k = 5; else if (k == 12) x = W - 1, k = 5;
        if ((k == 4 && row.size() != (size_t)W) || (k == 5 && row.size() != (size_t)H)) fail("wrong-row", "a row or column of a %dx%d raster has %zu cells", W, H, row.size());
        if (k == 4) for (int i = 0; i < W; i++) if (!same_bits(row.at(i), d[y * W + i])) fail("wrong-row", "row %d differs", y);
        if (k == 5) for (int j = 0; j < H; j++) if (!same_bits(row.at(j), d[j * W + x])) fail("wrong-row", "column %d differs", x);
        break;
      }
      case 20: {                                        // drop the data, or the raster
        bool drop = choose(WORK, 2); name = drop ? "destroy" : "clear";
        ok = run([&] { if (drop) { delete a.g; a.g = nullptr; } else a.g->clear(); });
        if (drop) { a = Slot<T>(); a.g = new Grid<T>(); } else { a.st = HOLLOW; a.on_disk = -1; a.lent = -1; }
        break;
      }
      case 22: {                                        // shaped like a three-dimensional raster
        name = "from-3d"; Grid<T> *n = nullptr; Grid<T> like(w, h, v); like.geotransform = {1, 2, 0, 4, 0, -5}; like.projection = "three"; like.basename = "cube"; like.metadata = {{"a", "b"}};
        richdem::Array3D<float> cube(like, 1.f);
        ok = run([&] { n = new Grid<T>(cube, v); });
        if (ok) { delete a.g; a = Slot<T>(); a.g = n; set(a, w, h, v); a.m.gt = like.geotransform; a.m.proj = like.projection; a.m.base = like.basename; a.m.meta = like.metadata; }
        break;
      }
      case 21: {                                        // a growing list of rasters
        if (a.st != FULL || b.st != FULL) continue;
        name = "list"; std::vector<Grid<T>> l;
        ok = run([&] { l.push_back(*a.g); l.push_back(*b.g); l.push_back(Grid<T>(w, h, v)); l.insert(l.begin(), *a.g); l.erase(l.begin() + 1); });
        if (ok) { Slot<T> q; q.m = a.m; q.g = &l[0]; matches("list", 100, q); q.m = b.m; q.g = &l[1]; matches("list", 101, q); }
        else for (size_t k = 0; k < l.size(); k++) { Slot<T> q; q.g = &l[k]; q.st = l[k].empty() ? HOLLOW : FULL; invariants("list", 102, q); }
        break;
      }
    }
    (void)was_full_b;
    // every raster, and every lent buffer
    for (int i = 0; i < NS; i++) {
      invariants(name, i, r[i]);
      bool written = !ok && ((i == ai && wrote_a) || (i == bi && wrote_b));
      if (written) {
        bool was_lent = r[i].lent >= 0;
        resync(r[i]);
        if (was_lent && r[i].g->owned()) r[i].lent = -1;
      }
      if (r[i].st == FULL && r[i].lent >= 0) {        // several rasters may wrap one buffer: it is one memory
        Buf &u = bufs[r[i].lent];
        if (i == ai && ok) u.d = r[i].m.d;
      }
    }
    for (int k = 0; k < NB; k++)
      if (bufs[k].p) {
        if (!addr_ok(bufs[k].p, bufs[k].d.size() * sizeof(T))) fail("lent-memory-freed", "after %s: memory that was only lent was freed", name);
        for (size_t q = 0; q < bufs[k].d.size(); q++) if (!same_bits(bufs[k].p[q], bufs[k].d[q])) fail("lent-memory-changed", "after %s: cell %zu of lent memory was changed", name, q);
      }
    for (int i = 0; i < NS; i++) {
      if (r[i].st == FULL && r[i].lent >= 0) { if (r[i].g->data() != bufs[r[i].lent].p) fail("wrong-owner", "after %s: raster %d no longer uses the memory it was lent", name, i); r[i].m.d = bufs[r[i].lent].d; }
      matches(name, i, r[i]);
    }
    uint64_t hh = 7; for (auto &s : r) hh = hh * 131 + s.m.w * 17 + s.m.h * 3 + s.st * 2 + (s.lent + 1); state_hash(hh);
    event("state %llx", (unsigned long long)hh);
  }
  // every raster can still be used, reassigned and destroyed
  for (int i = 0; i < NS; i++) {
    switch (choose(WORK, 3)) {
      case 0: { Grid<T> f(3, 2, T(7)); *r[i].g = f; r[i].lent = -1; r[i].st = FULL; for (uint32_t k = 0; k < 6; k++) if ((*r[i].g)(k) != T(7)) fail("wrong-cell", "a reassigned raster has other values"); break; }
      case 1: if (r[i].lent < 0 || r[i].st != FULL) { r[i].g->resize(4, 3, T(5)); for (uint32_t k = 0; k < 12; k++) if ((*r[i].g)(k) != T(5)) fail("wrong-cell", "a resized raster has other values"); } break;
      default: break;
    }
    delete r[i].g;
  }
  for (int k = 0; k < NB; k++)
    if (bufs[k].p) {
      if (!addr_ok(bufs[k].p, (size_t)bufs[k].w * bufs[k].h * sizeof(T))) fail("lent-memory-freed", "memory that was only lent was freed");
      delete[] bufs[k].p;
    }
}

// The three-dimensional rasters the flow metrics use.
template <class T> static void cubes() {
  using C = richdem::Array3D<T>;
  const int NS = 3;
  struct S { C *c = nullptr; int w = 0, h = 0; bool full = true, lent = false; std::vector<T> d; T nd = T(-1); };
  std::vector<S> r(NS);
  for (auto &s : r) s.c = new C(), s.nd = s.c->noData();
  T *buf = new T[9 * 4 * 3]; std::vector<T> bufd;
  for (int i = 0; i < 108; i++) buf[i] = T(i), bufd.push_back(T(i));
  int steps = 3 + choose(WORK, 14);
  g_gdal = false;
  for (int step = 0; step < steps; step++) {
    int ai = choose(WORK, NS), bi = choose(WORK, NS); S &a = r[ai], &b = r[bi];
    int w = 1 + choose(WORK, 6), h = 1 + choose(WORK, 6), op = choose(WORK, 11);
    bool ok = false, wrote = false, refused = false, threw = false; C *n = nullptr; const char *name = "?";
    auto cells = [&](S &s) -> std::vector<T> & { return s.lent ? bufd : s.d; };
    auto run = [&](const std::function<void()> &f) {
      event("step %d: %s a=%d b=%d %dx%d", step, name, ai, bi, w, h);
      stat((std::string("op3.") + name).c_str());
      arm();
      try { f(); } catch (std::exception &) { threw = true; }
      bool oom = alloc_failed(); alloc_fail_after(0);
      if (threw && !oom && !refused) fail("false-failure", "%s (three-dimensional) failed although nothing went wrong", name);
      if (!threw && refused) fail("not-refused", "%s (three-dimensional) was carried out on memory the raster was only lent", name);
      if (threw) stat(oom ? "failed-operations" : "refused-operations");
      ok = !threw;
    };
    Grid<T> flat(w, h, T(3));
    std::vector<T> nd_; T nnd = T(-1);
    switch (op) {
      case 0: name = "create"; run([&] { n = new C(w, h, T(2)); }); nd_.assign(9 * w * h, T(2)); break;
      case 1: name = "from-2d"; run([&] { n = new C(flat, T(2)); }); nd_.assign(9 * w * h, T(2)); break;
      case 2: if (!b.full) continue; name = "copy"; run([&] { n = new C((const C &)*b.c); }); w = b.w; h = b.h; nd_ = cells(b); nnd = b.nd; break;
      case 3: if (!b.full) continue; name = "copy-assign"; run([&] { *a.c = (const C &)*b.c; }); w = b.w; h = b.h; wrote = true; if (ok) { std::vector<T> d = cells(b); a.d = d; a.w = w; a.h = h; a.full = true; a.lent = false; a.nd = b.nd; } break;
      case 4: if (!b.full || ai == bi) continue; name = "move-assign"; run([&] { *a.c = std::move(*b.c); }); if (ok) { a.d = b.d; a.w = b.w; a.h = b.h; a.full = true; a.lent = b.lent; a.nd = b.nd; b.full = false; b.lent = false; } break;
      case 5: name = "resize"; refused = a.lent && a.full && w * h != a.w * a.h; run([&] { a.c->resize(w, h, T(4)); }); wrote = !refused; if (ok) { if (!a.full) a.lent = false, a.nd = a.c->noData(); a.w = w; a.h = h; a.full = true; cells(a).assign(9 * w * h, T(4)); } break;
      case 6: name = "wrap"; run([&] { n = new C(buf, 4, 3); }); w = 4; h = 3; break;
      case 7: name = "clear"; run([&] { a.c->clear(); }); a.full = false; a.lent = false; break;
      case 8: if (!b.full || ai == bi) continue; name = "resize-like"; refused = a.lent && a.full && b.w * b.h != a.w * a.h; w = b.w; h = b.h; run([&] { a.c->resize(*b.c, T(5)); }); wrote = !refused; if (ok) { if (!a.full) a.lent = false, a.nd = a.c->noData(); a.w = w; a.h = h; a.full = true; cells(a).assign(9 * w * h, T(5)); } break;
      case 9: { if (!a.full || !a.w) continue; name = "edit"; int x = choose(WORK, a.w), y = choose(WORK, a.h), k = choose(WORK, 9); T v = T(choose(WORK, 50)); bool nd = choose(WORK, 4) == 3, all = choose(WORK, 8) == 7;
        run([&] { if (all) a.c->setAll(v); else if (nd) a.c->setNoData(v); else if (k & 1) (*a.c)(x, y, k) = v; else a.c->getIN(y * a.w + x, k) = v; });
        if (!ok) break;
        if (all) cells(a).assign(9 * a.w * a.h, v); else if (nd) a.nd = v; else cells(a)[9 * (y * a.w + x) + k] = v;
        break; }
      case 10: { if (!a.full || !b.full) continue; name = "compare"; bool same = false; run([&] { same = *a.c == *b.c; });
        bool alike = a.w == b.w && a.h == b.h && cells(a) == cells(b);
        if (ok && same != alike && (!alike || a.nd == b.nd)) fail("wrong-comparison", "two three-dimensional rasters compare %s", same ? "equal" : "unequal");
        break; }
    }
    if (n) { delete a.c; a = S(); a.c = n; a.w = w; a.h = h; a.lent = op == 6; if (op != 6) a.d = nd_; a.nd = op == 2 ? nnd : n->noData(); }
    for (int i = 0; i < NS; i++) {
      C &c = *r[i].c;
      if (c.empty()) { if (c.size() && r[i].full) fail("claims-cells-it-lacks", "after %s: three-dimensional raster %d says it has %zu cells and holds none", name, i, (size_t)c.size()); }
      else if (!addr_ok(c.getData(), 9 * c.size() * sizeof(T))) fail("claims-cells-it-lacks", "after %s: three-dimensional raster %d says it has %dx%d cells, which is more than it holds", name, i, c.width(), c.height());
      if (i == ai && wrote && threw) {
        r[i].w = c.width(); r[i].h = c.height(); r[i].full = !c.empty() || !c.size(); if (c.owned()) r[i].lent = false;
        r[i].d.clear(); r[i].nd = c.noData();
        if (!c.empty()) for (size_t k = 0; k < 9 * (size_t)c.size(); k++) r[i].d.push_back(c.getData()[k]);
        if (r[i].lent) bufd = r[i].d;
      }
      else if (r[i].full && (c.width() != r[i].w || c.height() != r[i].h)) fail("wrong-size", "after %s: three-dimensional raster %d is %dx%d instead of %dx%d", name, i, c.width(), c.height(), r[i].w, r[i].h);
    }
    if (!addr_ok(buf, 108 * sizeof(T))) fail("lent-memory-freed", "after %s: memory that was only lent was freed (three-dimensional)", name);
    for (int i = 0; i < NS; i++) {
      S &s = r[i]; if (!s.full || !s.w) continue;
      C &c = *s.c; const C &k = c; auto &d = cells(s);
      if (c.empty() || (size_t)c.size() != (size_t)s.w * s.h) fail("wrong-size", "after %s: three-dimensional raster %d has %zu cells instead of %d", name, i, (size_t)c.size(), s.w * s.h);
      for (int y = 0; y < s.h; y++) for (int x = 0; x < s.w; x++) {
        for (int q = 0; q < 9; q++) {
          T want = d[9 * (y * s.w + x) + q];
          if (!same_bits(k(x, y, q), want) || !same_bits(k.getIN(y * s.w + x, q), want)) fail("wrong-cell", "after %s: three-dimensional raster %d of %dx%d: value %d of cell (%d,%d) is %s instead of %s", name, i, s.w, s.h, q, x, y, val(k(x, y, q)).c_str(), val(want).c_str());
        }
        bool none = d[9 * (y * s.w + x)] == s.nd;
        if (c.isNoData(x, y) != none) fail("wrong-nodata", "after %s: three-dimensional raster %d: isNoData of cell (%d,%d) is %d", name, i, x, y, !none);
      }
      if (!c.inGrid(0, 0) || !c.inGrid(s.w - 1, s.h - 1) || c.inGrid(s.w, 0) || c.inGrid(0, s.h) || c.inGrid(-1, 0) || c.inGrid(0, -1)) fail("wrong-size", "after %s: three-dimensional raster %d of %dx%d misjudges which cells it has", name, i, s.w, s.h);
      if (!same_bits(c.noData(), s.nd)) fail("wrong-nodata", "after %s: three-dimensional raster %d: NoData is %s instead of %s", name, i, val(c.noData()).c_str(), val(s.nd).c_str());
    }
  }
  for (auto &s : r) delete s.c;
  if (!addr_ok(buf, 108 * sizeof(T))) fail("lent-memory-freed", "memory that was only lent was freed (three-dimensional)");
  delete[] buf;
}

static void run() {
  swarm(1);
  mkdir(sim::scratch.c_str(), 0700);
  { Grid<int> warm(2, 2, 1); }
  std::function<void()> todo[] = {history<int32_t>, history<double>, history<uint8_t>, cubes<float>, cubes<double>};
  int k = choose(WORK, 5);
  // Scratch memory of the streams and of GDAL stays allocated after its first use: only histories without them are balanced.
  uint64_t before = live_blocks();
  todo[k]();
  if (!g_used_gdal && live_blocks() != before) fail("memory-leak", "%lld blocks of memory were never freed", (long long)(live_blocks() - before));
  stat("balanced-ledgers", !g_used_gdal);
}
static void init() {}
Harness g_harnesses[] = {{"C16", run, init}, {nullptr, nullptr, nullptr}};
