// C07: a raster in tiles on disk behaves like one raster held in memory.
#include "common.hpp"
#include <richdem/richdem.hpp>
#include <richdem/tiled/A2Array2D.hpp>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
using namespace hz;
template <class T> using Tiled = richdem::A2Array2D<T>;

static const char *excuse = nullptr;            // a listed finding that explains what is wrong with a saved file
#define bad(...) do { if (excuse) known(excuse); fail(__VA_ARGS__); } while (0)

// A tiled raster and what it must hold.
template <class T> struct R {
  std::unique_ptr<Tiled<T>> a;
  const char *kind = "";
  int nx = 0, ny = 0, tw = 0, th = 0, cap = 0;
  bool writable = false, fh = false, fv = false;
  std::vector<char> nul;                        // missing tiles
  G<T> m; T nd = T(-1);
  std::vector<double> gt;                       // of the corner of tile (0,0); empty: none
  int evictions = 0, saves = 0;
  bool missing(int tx, int ty) const { return nul[ty * nx + tx]; }
  T want(int x, int y) const { return missing(x / tw, y / th) ? nd : m(x, y); }
};
template <class T> static T value() {
  switch (choose(WORK, 8)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::lowest();
    case 2: return std::is_floating_point<T>::value ? std::numeric_limits<T>::quiet_NaN() : T(2);
    case 3: return T(-1);
    case 4: return T(0);
    default: return (T)(int)choose(WORK, 200);
  }
}
template <class T> static void check_cell(const R<T> &r, const char *how, int x, int y, T got) {
  T want = r.want(x, y);
  if (!same_bits(want, got)) {
    std::ostringstream o; o << +want << " expected, got " << +got;
    fail("wrong-cell", "%s raster of %dx%d tiles of %dx%d, capacity %d: cell (%d,%d) %s: %s", r.kind, r.nx, r.ny, r.tw, r.th, r.cap, x, y, how, o.str().c_str());
  }
}
template <class T> static void check_nodata(const R<T> &r, int x, int y, bool got) {
  bool want = r.missing(x / r.tw, y / r.th) || r.m(x, y) == r.nd;
  if (want != got) fail("wrong-nodata", "%s raster, capacity %d: isNoData of cell (%d,%d) is %d", r.kind, r.cap, x, y, got);
}
// Everything that does not need a tile.
template <class T> static void check_shape(R<T> &r) {
  Tiled<T> &a = *r.a; const int W = r.nx * r.tw, H = r.ny * r.th;
  auto eq = [&](const char *what, int want, int got) { if (want != got) fail("wrong-shape", "%s raster of %dx%d tiles of %dx%d: %s is %d instead of %d", r.kind, r.nx, r.ny, r.tw, r.th, what, got, want); };
  eq("width()", W, a.width()); eq("height()", H, a.height());
  eq("widthInTiles()", r.nx, a.widthInTiles()); eq("heightInTiles()", r.ny, a.heightInTiles());
  eq("stdTileWidth()", r.tw, a.stdTileWidth()); eq("stdTileHeight()", r.th, a.stdTileHeight());
  int there = 0;
  for (int ty = 0; ty < r.ny; ty++) for (int tx = 0; tx < r.nx; tx++) {
    eq("isNullTile()", r.missing(tx, ty), a.isNullTile(tx, ty));
    if (r.missing(tx, ty)) continue;
    there++; eq("tileWidth()", r.tw, a.tileWidth(tx, ty)); eq("tileHeight()", r.th, a.tileHeight(tx, ty));
  }
  eq("notNullTiles()", there, a.notNullTiles());
  eq("isReadonly()", !r.writable, a.isReadonly());
  int x = between(-1, W), y = between(-1, H);
  bool in = x >= 0 && y >= 0 && x < W && y < H;
  eq("in_grid()", in, a.in_grid(x, y));
  if (in) {
    bool edge = x == 0 || y == 0 || x == W - 1 || y == H - 1;
    eq("isEdgeCell()", edge, a.isEdgeCell(x, y)); eq("isInteriorCell()", !edge, a.isInteriorCell(x, y));
    int32_t tx, ty, px, py; a.makeQuadIndex(x, y, tx, ty, px, py);
    if (tx * r.tw + px != x || ty * r.th + py != y || px < 0 || px >= r.tw || py < 0 || py >= r.th) fail("wrong-index", "makeQuadIndex(%d,%d) gives tile (%d,%d) cell (%d,%d)", x, y, tx, ty, px, py);
  }
  int e = a.getEvictions();
  if (e < r.evictions) fail("wrong-evictions", "the number of evictions fell from %d to %d", r.evictions, e);
  r.evictions = e;
}
// The raster's contents, each cell once, in some order.
template <class T> static void sweep(R<T> &r) {
  int how = choose(WORK, 5), W = r.m.w, H = r.m.h;
  auto cell = [&](int x, int y) {
    if (how & 1) { T v = (*r.a)(x, y); check_cell(r, "read back", x, y, v); }
    else { T v = (*r.a)(x / r.tw, y / r.th, x % r.tw, y % r.th); check_cell(r, "read back by tile", x, y, v); }
    check_nodata(r, x, y, how & 2 ? r.a->isNoData(x, y) : r.missing(x / r.tw, y / r.th) || r.a->isNoData(x / r.tw, y / r.th, x % r.tw, y % r.th));
  };
  if (how < 3) { for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) cell(x, y); }
  else for (int x = W; x--;) for (int y = H; y--;) cell(x, y);
  stat("sweeps");
}
static uint64_t g_faults, g_strile; static bool g_alloc;
static void mark() { g_faults = io_faults_fired(); g_strile = io_faults_in_strile_rewrite(); excuse = nullptr; }
static void finding() { excuse = io_faults_in_strile_rewrite() != g_strile && listed("gdal-strip-table") ? "gdal-strip-table" : nullptr; }

// What saveGDAL() wrote, opened the way the raster was.
template <class T> static void check_saved(R<T> &r, const std::string &layout) {
  io_disarm();
  std::string was;
  try {
    int cap = 1 + choose(WORK, r.nx * r.ny);
    Tiled<T> b(layout, cap);
    b.flipH = r.fh; b.flipV = r.fv;
    if (b.width() != r.m.w || b.height() != r.m.h || b.widthInTiles() != r.nx || b.heightInTiles() != r.ny) bad("wrong-save", "a saved raster of %dx%d tiles of %dx%d came back as %dx%d tiles of %dx%d", r.nx, r.ny, r.tw, r.th, b.widthInTiles(), b.heightInTiles(), b.stdTileWidth(), b.stdTileHeight());
    for (int ty = 0; ty < r.ny; ty++) for (int tx = 0; tx < r.nx; tx++)
      if (b.isNullTile(tx, ty) != r.missing(tx, ty)) bad("wrong-save", "tile (%d,%d) was %smissing and came back otherwise", tx, ty, r.missing(tx, ty) ? "" : "not ");
    for (int y = 0; y < r.m.h; y++) for (int x = 0; x < r.m.w; x++) {
      T v = b(x, y);
      if (!same_bits(v, r.want(x, y))) { std::ostringstream o; o << +r.want(x, y) << " was saved as " << +v; bad("wrong-save", "%s raster of %dx%d tiles of %dx%d, capacity %d: cell (%d,%d): %s", r.kind, r.nx, r.ny, r.tw, r.th, r.cap, x, y, o.str().c_str()); }
      if (b.isNoData(x, y) != (r.missing(x / r.tw, y / r.th) || r.m(x, y) == r.nd)) bad("wrong-save", "cell (%d,%d) has its NoData state changed by saving", x, y);
    }
  } catch (const std::exception &e) { was = e.what(); if (was.empty()) was = "?"; }
  if (!was.empty()) bad("wrong-save", "a raster saved without an error cannot be read: %s", was.c_str());
  stat("saves-read-back");
}
template <class T> static void check_unified(R<T> &r, const std::string &file) {
  io_disarm();
  std::string was;
  try {
    Grid<T> g(file);
    if (g.width() != r.m.w || g.height() != r.m.h) bad("wrong-save", "a unified raster has size %dx%d instead of %dx%d", g.width(), g.height(), r.m.w, r.m.h);
    for (int y = 0; y < r.m.h; y++) for (int x = 0; x < r.m.w; x++)
      if (!same_bits(g(x, y), r.want(x, y))) { std::ostringstream o; o << +r.want(x, y) << " was saved as " << +g(x, y); bad("wrong-save", "%s raster saved in one file: cell (%d,%d): %s", r.kind, x, y, o.str().c_str()); }
    if (!same_bits(g.noData(), r.nd)) bad("wrong-save", "a unified raster's NoData value differs");
    if (!r.gt.empty() && !r.fh && !r.fv && g.geotransform != r.gt) bad("wrong-save", "a unified raster's geotransform starts %g,%g instead of %g,%g", g.geotransform[0], g.geotransform[3], r.gt[0], r.gt[3]);
  } catch (const std::exception &e) { was = e.what(); if (was.empty()) was = "?"; }
  if (!was.empty()) bad("wrong-save", "a raster saved in one file without an error cannot be read: %s", was.c_str());
  stat("unified-read-back");
}

struct Plan { int W0 = 0; bool memory = false; uint64_t base = 0; uint64_t armed_kinds = 0; bool faulty = false; bool allocs = false; int nsave = 0; };
static Plan P;
// Copies, if there are any, are rasters of their own.
template <class C> static typename std::enable_if<std::is_copy_constructible<C>::value, std::unique_ptr<C>>::type copy_of(const C &c) { return std::unique_ptr<C>(new C(c)); }
template <class C> static typename std::enable_if<!std::is_copy_constructible<C>::value, std::unique_ptr<C>>::type copy_of(const C &) { return nullptr; }
template <class T> static void step(R<T> &r, int n) {
  int op = choose(WORK, 16);
  int hx = choose(WORK, r.m.w), hy = choose(WORK, r.m.h);
  event("step %d op %d %s (%d,%d)", n, op, r.kind, hx, hy);
  mark(); excuse = nullptr;
  bool alloc = P.allocs && choose(FAULT, 6) == 5;
  if (alloc) alloc_fail_after(1 + choose(FAULT, 3), 1 + choose(FAULT, 2), std::max<size_t>(64, (size_t)r.tw * r.th * sizeof(T)), false);
  auto ended = [&] { g_alloc = alloc && alloc_failed(); alloc_fail_after(0); if (g_alloc) stat("fault.out-of-memory"); alloc = false; };
  Tiled<T> &a = *r.a;
  auto get = [&](int x, int y) {
    bool tiles = choose(WORK, 2);
    T v = tiles ? a(x / r.tw, y / r.th, x % r.tw, y % r.th) : a(x, y);
    ended(); check_cell(r, tiles ? "read by tile" : "read", x, y, v); stat("reads");
  };
  auto put = [&](int x, int y, T v) {
    if (choose(WORK, 2)) a(x / r.tw, y / r.th, x % r.tw, y % r.th) = v; else a(x, y) = v;
    ended(); if (!r.missing(x / r.tw, y / r.th)) r.m(x, y) = v; stat("writes");
  };
  try {
    switch (op) {
      case 0: case 1: get(hx, hy); break;
      case 2: case 3: case 4: if (r.writable) put(hx, hy, value<T>()); else get(hx, hy); break;
      case 5: {                                      // a walk, as flow accumulation would make
        int k = choose(WORK, 30), d = 1 + choose(WORK, 8);
        for (; k--; d = choose(WORK, 3) == 2 ? 1 + choose(WORK, 8) : d) {
          if (hx < 0 || hy < 0 || hx >= r.m.w || hy >= r.m.h) break;
          if (r.writable && choose(WORK, 2)) put(hx, hy, (T)k); else get(hx, hy);
          hx += DX[d]; hy += DY[d];
        }
        break; }
      case 6: { int y = hy; for (int x = 0; x < r.m.w; x++) if (r.writable && hx % 2) put(x, y, (T)(x + n)); else get(x, y); break; }
      case 7: {
        bool v = choose(WORK, 2) ? a.isNoData(hx, hy) : r.missing(hx / r.tw, hy / r.th) || a.isNoData(hx / r.tw, hy / r.th, hx % r.tw, hy % r.th);
        ended(); check_nodata(r, hx, hy, v); stat("nodata-tests"); break; }
      case 8: check_shape(r); break;
      case 9: if (r.writable) { T v = value<T>(); a.setAll(v); std::fill(r.m.d.begin(), r.m.d.end(), v); stat("set-alls"); } break;
      case 10: if (r.writable) { T v = value<T>(); if (v != v) v = T(7); a.setNoData(v); r.nd = v; stat("set-nodatas"); } break;
      case 11: a.loadTile(hx / r.tw, hy / r.th); break;
      case 12: a.printStamp(2); break;
      case 13: {                                     // a raster may be moved
        std::unique_ptr<Tiled<T>> b = P.memory ? nullptr : copy_of(a);
        if (b) { for (int k = 0; k < 4; k++) { int x = choose(WORK, r.m.w), y = choose(WORK, r.m.h); T v = (*b)(x, y); check_cell(r, "read from a copy", x, y, v); } break; }
        b.reset(new Tiled<T>(std::move(a))); r.a = std::move(b); stat("moves"); break; }
      case 14: case 15: {
        if (P.memory && op == 14) break;           // saving adds to the tiles' metadata
        int id = P.nsave++;
        std::string s = sim::scratch + "/s" + std::to_string(id);
        r.saves++;
        bool one = op == 15 && !(r.nd != r.nd);
        if (one) a.saveUnifiedGDAL(s + ".tif"); else a.saveGDAL(s + "-%f.tif");
        ended(); finding();
        bool armed = sim::io.armed; uint64_t f = io_faults_fired();
        if (one) check_unified(r, s + ".tif"); else check_saved(r, s + "-layout.layout");
        excuse = nullptr; (void)f;
        if (armed) sim::io.armed = true;
        stat(one ? "unified-saves" : "saves");
        break; }
    }
    ended();
  } catch (const std::exception &e) {
    ended();
    event("step %d refused", n); note("%s", e.what());
    if (io_faults_fired() == g_faults && !g_alloc) fail("refused", "operation %d on a %s raster failed although nothing it asked for did: %s", op, r.kind, e.what());
    stat("refused-after-fault");
  }
  if (P.memory) {
    uint64_t tile = (uint64_t)r.tw * r.th * sizeof(T), now = live_bytes();
    if (now > P.base && now - P.base > (uint64_t)r.cap * tile + tile * 9 / 10)
      fail("too-many-tiles", "%s raster of %dx%d tiles of %llu bytes, capacity %d: %llu bytes are in use", r.kind, r.nx, r.ny, (unsigned long long)tile, r.cap, (unsigned long long)(now - P.base));
    stat("residency-checks");
  }
}

static bool g_odd; // one tile of the layout has another NoData value than the rest
template <class T> static std::unique_ptr<R<T>> from_layout() {
  std::unique_ptr<R<T>> r(new R<T>); r->kind = "layout";
  r->nx = 1 + choose(WORK, 4); r->ny = 1 + choose(WORK, 4);
  r->tw = P.memory ? 40 + choose(WORK, 9) : 1 + choose(WORK, 6); r->th = P.memory ? 4096 / (sizeof(T) * r->tw) + 1 + choose(WORK, 9) : 1 + choose(WORK, 6);
  r->cap = choose(WORK, 3) ? 1 + choose(WORK, 3) : 1 + choose(WORK, 18);
  r->nd = choose(WORK, 3) ? T(-1) : T(9);
  bool neg = choose(WORK, 6) == 5, up = choose(WORK, 6) == 5;
  r->fh = choose(WORK, 6) == 5; r->fv = choose(WORK, 6) == 5;
  double sz = choose(WORK, 3) == 2 ? .125 : 1;          // exact in binary, so corners computed in two ways agree
  r->gt = {100, neg ? -2 * sz : 2 * sz, 0, 50, 0, up ? 3 * sz : -3 * sz};
  r->nul.assign(r->nx * r->ny, 0);
  if (choose(WORK, 2)) { for (auto &c : r->nul) c = choose(WORK, 3) == 2; r->nul[choose(WORK, r->nul.size())] = 0; }
  r->m = G<T>(r->nx * r->tw, r->ny * r->th, r->nd);
  int odd = g_odd ? (int)choose(WORK, r->nul.size()) : -1;
  if (g_odd) r->nul[odd] = 0;
  std::string layout;
  uint32_t seed = choose(WORK, 1 << 16);
  for (int ty = 0; ty < r->ny; ty++) {
    for (int tx = 0; tx < r->nx; tx++) {
      if (tx) layout += ",";
      if (r->missing(tx, ty)) { layout += " "; continue; }
      std::string nm = "t" + std::to_string(tx) + "_" + std::to_string(ty) + ".tif";
      layout += nm;
      Grid<T> g(r->tw, r->th, T());
      for (int y = 0; y < r->th; y++) for (int x = 0; x < r->tw; x++) {
        seed = seed * 1664525u + 1013904223u;
        T v = (seed >> 24) < 20 ? r->nd : (T)((seed >> 16) % 120);
        r->m(tx * r->tw + (neg ^ r->fh ? r->tw - 1 - x : x), ty * r->th + (up ^ r->fv ? r->th - 1 - y : y)) = v;
        g(x, y) = v;
      }
      g.setNoData(ty * r->nx + tx == odd ? T(11) : r->nd); g.geotransform = {r->gt[0] + tx * r->tw * r->gt[1], r->gt[1], 0, r->gt[3] + ty * r->th * r->gt[5], 0, r->gt[5]};
      g.saveGDAL(sim::scratch + "/" + nm);
    }
    layout += "\n";
  }
  FILE *o = fopen((sim::scratch + "/in.layout").c_str(), "w"); fputs(layout.c_str(), o); fclose(o);
  if (neg || up) r->fh = r->fh, r->gt.clear();       // what becomes of the georeference then is not this property's business
  r->a.reset(new Tiled<T>(sim::scratch + "/in.layout", r->cap));
  r->a->flipH = r->fh; r->a->flipV = r->fv;
  stat("from-layout"); if (neg ^ r->fh || up ^ r->fv) stat("flipped");
  return r;
}
template <class T> static std::unique_ptr<R<T>> from_scratch() {
  std::unique_ptr<R<T>> r(new R<T>); r->kind = "new"; r->writable = true;
  r->nx = 1 + choose(WORK, 4); r->ny = 1 + choose(WORK, 4);
  r->tw = P.memory ? 40 + choose(WORK, 9) : 1 + choose(WORK, 6); r->th = P.memory ? 4096 / (sizeof(T) * r->tw) + 1 + choose(WORK, 9) : 1 + choose(WORK, 6);
  r->cap = choose(WORK, 3) ? 1 + choose(WORK, 3) : 1 + choose(WORK, 18);
  r->nul.assign(r->nx * r->ny, 0);
  r->m = G<T>(r->nx * r->tw, r->ny * r->th, T());
  static int k; std::string pre = sim::scratch + "/p" + std::to_string(k++) + "-";
  r->a.reset(new Tiled<T>(pre, r->tw, r->th, r->nx, r->ny, r->cap));
  stat("from-scratch");
  return r;
}
template <class T, class U> static std::unique_ptr<R<T>> from_template(const R<U> &o, const char *tag) {
  std::unique_ptr<R<T>> r(new R<T>); r->kind = "templated"; r->writable = true;
  r->nx = o.nx; r->ny = o.ny; r->tw = o.tw; r->th = o.th; r->nul = o.nul; r->gt = o.gt; r->fh = o.fh; r->fv = o.fv;
  r->cap = choose(WORK, 3) ? 1 + choose(WORK, 3) : 1 + choose(WORK, 18);
  r->m = G<T>(o.m.w, o.m.h, T());
  r->a.reset(new Tiled<T>(sim::scratch + "/" + tag + "%f.bin", *o.a, r->cap));
  stat("from-template");
  return r;
}
// One file has room for one NoData value.
template <class T> static void mixed() {
  P = Plan(); g_odd = true;
  auto r = from_layout<T>(); g_odd = false;
  if (r->nul.size() - std::count(r->nul.begin(), r->nul.end(), 1) < 2) return;
  if (choose(WORK, 2)) for (int ty = 0; ty < r->ny; ty++) for (int tx = 0; tx < r->nx; tx++) if (!r->missing(tx, ty)) (void)(*r->a)(tx * r->tw, ty * r->th);
  bool threw = false;
  try { r->a->saveUnifiedGDAL(sim::scratch + "/one.tif"); } catch (const std::exception &) { threw = true; }
  if (!threw) fail("wrong-save", "a raster of %dx%d tiles whose NoData values differ was saved in one file", r->nx, r->ny);
  stat("mixed-nodata-refused");
}
template <class T> static void history() {
  if (choose(WORK, 40) == 39) return mixed<T>();
  P = Plan();
  P.memory = choose(WORK, 10) == 9;
  P.faulty = choose(WORK, 2); P.allocs = choose(WORK, 4) == 3;
  if (P.faulty) {
    static const uint32_t K[] = {F_OPEN, F_READ_EIO, F_WRITE_EIO, F_WRITE_ENOSPC, F_CLOSE, F_READ_SHORT | F_WRITE_SHORT, F_OPEN | F_READ_EIO | F_WRITE_EIO | F_WRITE_ENOSPC | F_CLOSE, ~(uint32_t)F_EINTR};
    sim::io.kinds = K[choose(FAULT, 8)] | (choose(FAULT, 2) ? (uint32_t)(F_READ_SHORT | F_WRITE_SHORT) : 0u);
    static const uint32_t M[] = {0, 3, 8, 20, 60, 150};
    sim::io.mean = M[choose(FAULT, 6)]; sim::io.left = 1 + choose(FAULT, 5);
    if (choose(FAULT, 4) == 3) sim::io.disk_budget = choose(FAULT, 9000);
  }
  std::unique_ptr<R<T>> a, b; std::unique_ptr<R<uint8_t>> c;
  if (choose(WORK, 2)) a = from_scratch<T>(); else a = from_layout<T>();
  if (!P.memory) {
    if (choose(WORK, 2)) b = from_template<T>(*a, "b-");
    if (choose(WORK, 2)) c = from_template<uint8_t>(*a, "c-");
  } else if (!a->writable && choose(WORK, 2)) { b = from_template<T>(*a, "b-"); std::swap(a, b); }
  event("%s raster of %dx%d tiles of %dx%d, capacity %d, %zu-byte cells", a->kind, a->nx, a->ny, a->tw, a->th, a->cap, sizeof(T));
  P.base = live_bytes();
  check_shape(*a); if (b) check_shape(*b); if (c) check_shape(*c);
  if (P.faulty) io_arm();
  int n = 3 + choose(WORK, P.memory ? 60 : 40);
  for (int i = 0; i < n; i++) {
    int k = choose(WORK, 3);
    if (c && k == 2) step(*c, i); else if (b && k == 1 && !P.memory) step(*b, i); else step(*a, i);
  }
  if (P.faulty) io_disarm();
  // With the faults over, everything is still there.
  mark();
  try {
    P.faulty = P.allocs = false;
    sweep(*a); check_shape(*a);
    if (b && !P.memory) sweep(*b), check_shape(*b);
    if (c) sweep(*c), check_shape(*c);
  } catch (const std::exception &e) { fail("lost", "a raster cannot be read after the faults stopped: %s", e.what()); }
  uint64_t h = n; h = h * 31 + a->evictions; if (b) h = h * 31 + b->evictions; if (c) h = h * 31 + c->evictions;
  stat("evictions", a->evictions + (b ? b->evictions : 0) + (c ? c->evictions : 0));
  state_hash(h);
}
static void run() {
  // libtiff can go down with the disk it works on; that says nothing about this library.
  set_crash_hook([](int) {
    static const char *const L[] = {"/libgdal", "/libtiff", nullptr};
    if (io_faults_fired() && crashed_in(L)) { stat("gdal-crashed-on-a-failing-disk"); end_run_ok(); }
  });
  mkdir(sim::scratch.c_str(), 0777);
  switch (choose(WORK, 5)) {
    case 0: history<float>(); break;
    case 1: history<int16_t>(); break;
    case 2: history<uint8_t>(); break;
    case 3: history<int32_t>(); break;
    default: history<double>();
  }
}
Harness g_harnesses[] = {{"C07", run, nullptr}, {nullptr, nullptr, nullptr}};
