// C10: flat resolution: same result on any schedule, drainable flats drain.
#include "common.hpp"
#include <richdem/richdem.hpp>
#include <richdem/flats/flats.hpp>
#include <richdem/flats/flat_resolution.hpp>
#include <richdem/flats/flat_resolution_dinf.hpp>
using namespace hz;
using namespace richdem;

// What flats there are, worked out from the definition.
struct Flats { G<int> comp; std::vector<char> flat; std::vector<char> drainable, hasflat; };
template <class T> static Flats find(const G<T> &e, T nodata) {
  Flats f; f.comp = G<int>(e.w, e.h, -1); f.flat.assign(e.w * e.h, 0);
  for (int y = 1; y < e.h - 1; y++)
    for (int x = 1; x < e.w - 1; x++) {
      if (e(x, y) == nodata) continue;
      bool ok = true;
      for (int n = 1; n <= 8; n++) { T v = e(x + DX[n], y + DY[n]); if (v == nodata || v < e(x, y)) ok = false; }
      f.flat[y * e.w + x] = ok;
    }
  for (int i = 0; i < e.w * e.h; i++) {
    if (e.d[i] == nodata || f.comp.d[i] >= 0) continue;
    int id = f.drainable.size(); f.drainable.push_back(0); f.hasflat.push_back(0);
    std::vector<int> st{i}; f.comp.d[i] = id;
    while (!st.empty()) {
      int c = st.back(); st.pop_back();
      if (f.flat[c]) f.hasflat[id] = 1; else f.drainable[id] = 1;
      for (int n = 1; n <= 8; n++) {
        int x = c % e.w + DX[n], y = c / e.w + DY[n];
        if (e.in(x, y) && f.comp(x, y) < 0 && e(x, y) == e.d[i]) { f.comp(x, y) = id; st.push_back(y * e.w + x); }
      }
    }
  }
  return f;
}

// The mask by its definition: twice the distance from the cells the flat drains over, plus how much nearer to
// higher ground than the flat's furthest cell; 0 outside drainable flats.
template <class T> static G<int> reference_mask(const G<T> &e, T nodata, const Flats &f) {
  auto spread = [&](const std::vector<int> &from, int first) {
    std::vector<int> dist(e.w * e.h, 0), cur = from, next;
    for (int c : cur) dist[c] = first;
    for (int k = first + 1; !cur.empty(); k++, cur.swap(next), next.clear())
      for (int c : cur)
        for (int n = 1; n <= 8; n++) {
          int x = c % e.w + DX[n], y = c / e.w + DY[n], o = y * e.w + x;
          if (e.in(x, y) && f.flat[o] && f.comp.d[o] == f.comp.d[c] && !dist[o]) { dist[o] = k; next.push_back(o); }
        }
    return dist;
  };
  std::vector<int> low, high, top(f.drainable.size(), 0);
  for (int i = 0; i < e.w * e.h; i++) {
    int c = f.comp.d[i];
    if (c < 0 || !f.hasflat[c] || !f.drainable[c]) continue;
    bool lo = false, hi = false;
    for (int n = 1; n <= 8; n++) {
      int x = i % e.w + DX[n], y = i / e.w + DY[n], o = y * e.w + x;
      if (!e.in(x, y)) continue;
      lo |= f.flat[o] && f.comp.d[o] == c; hi |= e.d[o] != nodata && e.d[o] > e.d[i];
    }
    if (!f.flat[i] && lo) low.push_back(i);
    if (f.flat[i] && hi) high.push_back(i);
  }
  auto away = spread(high, 1), towards = spread(low, 1);
  for (int i = 0; i < e.w * e.h; i++) if (away[i]) top[f.comp.d[i]] = std::max(top[f.comp.d[i]], away[i]);
  G<int> m(e.w, e.h, 0);
  for (int i = 0; i < e.w * e.h; i++) if (towards[i]) m.d[i] = 2 * towards[i] + (away[i] ? top[f.comp.d[i]] - away[i] : 0);
  return m;
}
template <class T> static void right_mask(const char *what, const G<T> &e, T nodata, const Flats &f, const Grid<int32_t> &m) {
  G<int> r = reference_mask(e, nodata, f);
  for (int i = 0; i < e.w * e.h; i++)
    if (m(i) != r.d[i]) fail("wrong-mask", "%s: cell (%d,%d) of %dx%d has %d increments, expected %d", what, i % e.w, i / e.w, e.w, e.h, m(i), r.d[i]);
}

template <class T> static G<T> flat_dem(T nodata) {
  int kind = choose(WORK, 4);
  if (kind == 0) { DemOpt o; o.maxval = 4; return gen_dem<T>(o, nodata); }
  int w = between(3, 14), h = between(3, 14);
  maybe_strip(w, h, 3);
  G<T> g(w, h, (T)10);
  if (kind == 1) {                       // terraces of random width
    int v = 10;
    for (int y = 0; y < h; y++) { if (choose(WORK, 4) == 3) v += between(-1, 2); for (int x = 0; x < w; x++) g(x, y) = (T)v; }
  } else if (kind == 2) {                // corridors between walls
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if ((y % 2 == 1) && x != (choose(WORK, 3) == 2 ? (int)choose(WORK, w) : (y / 2 % 2 ? 0 : w - 1))) g(x, y) = 12;
  } else {                               // a plain with a rim, blocks and a few outlets
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (x == 0 || y == 0 || x == w - 1 || y == h - 1) g(x, y) = 15;
    int n = between(0, w * h / 5); while (n--) g(choose(WORK, w), choose(WORK, h)) = (T)between(11, 14);
    n = between(0, 3); while (n--) g(choose(WORK, w), choose(WORK, h)) = (T)between(6, 10);
  }
  if (choose(WORK, 3) == 2) { int n = between(1, 3); while (n--) g(choose(WORK, w), choose(WORK, h)) = nodata; }
  return g;
}

template <class T> static void drains(const char *what, const G<T> &e, T nodata, const Flats &f, const Grid<uint8_t> &fd) {
  for (int i = 0; i < e.w * e.h; i++) {
    int c = f.comp.d[i];
    if (c < 0 || !f.hasflat[c] || !f.drainable[c]) continue;
    int x = i % e.w, y = i / e.w, steps = 0;
    while (true) {
      int n = fd(x, y);
      if (n < 1 || n > 8) fail("undrained", "%s: cell (%d,%d) of a drainable flat in %dx%d has direction %d", what, x, y, e.w, e.h, n);
      x += DX[n]; y += DY[n];
      if (!e.in(x, y) || e(x, y) == nodata) break;
      if (f.comp(x, y) != c) {
        if (e(x, y) > e.d[i]) fail("undrained", "%s: cell (%d,%d) of a flat in %dx%d drains uphill", what, i % e.w, i / e.w, e.w, e.h);
        break;
      }
      if (++steps > e.w * e.h) fail("cycle", "%s: directions from cell (%d,%d) of a flat in %dx%d run in a circle", what, i % e.w, i / e.w, e.w, e.h);
    }
  }
}
template <class T> static void untouched(const char *what, const G<T> &e, const Flats &f, const Grid<T> &after) {
  for (int i = 0; i < e.w * e.h; i++) {
    int c = f.comp.d[i];
    if (c >= 0 && f.hasflat[c] && f.drainable[c]) { if (!(after(i) >= e.d[i])) fail("lowered", "%s: cell (%d,%d) was lowered", what, i % e.w, i / e.w); continue; }
    if (!same_bits(after(i), e.d[i])) fail("touched", "%s: cell (%d,%d) of %dx%d is outside drainable flats but changed from %g to %g", what, i % e.w, i / e.w, e.w, e.h, (double)e.d[i], (double)after(i));
  }
}
static void same_labels(const Grid<int32_t> &a, const Grid<int32_t> &b) {
  if (a.width() != b.width() || a.height() != b.height()) fail("wrong-size", "label raster has the wrong size");
  std::map<int, int> ab, ba;
  for (uint32_t i = 0; i < a.size(); i++) {
    if ((a(i) == 0) != (b(i) == 0)) fail("wrong-labels", "cell %u: label %d single-threaded, %d on this schedule", i, a(i), b(i));
    if (a(i) == 0) continue;
    if (!ab.count(a(i)) && !ba.count(b(i))) { ab[a(i)] = b(i); ba[b(i)] = a(i); }
    if (!ab.count(a(i)) || !ba.count(b(i)) || ab[a(i)] != b(i)) fail("wrong-labels", "cell %u: the flats are divided differently on this schedule", i);
  }
}

// Inside one flat, elevations rise exactly as the mask does.
template <class T> static void follows_mask(const char *what, const G<T> &e, T nodata, const Flats &f, const Grid<T> &after) {
  G<int> m = reference_mask(e, nodata, f);
  for (int y = 1; y < e.h - 1; y++)
    for (int x = 1; x < e.w - 1; x++)
      for (int n = 1; n <= 8; n++) {
        int i = y * e.w + x, a = x + DX[n], b = y + DY[n], o = b * e.w + a, c = f.comp.d[i];
        if (c < 0 || f.comp.d[o] != c || a < 1 || b < 1 || a > e.w - 2 || b > e.h - 2) continue;
        if ((m.d[i] < m.d[o]) != (after(i) < after(o))) fail("wrong-order", "%s: cells (%d,%d) and (%d,%d) of a flat in %dx%d have %d and %d increments but %s", what, x, y, a, b, e.w, e.h, m.d[i], m.d[o], after(i) < after(o) ? "the first is lower" : "the first is not lower");
      }
}

template <class T> static void typed() {
  const T nodata = -9999;
  G<T> g = flat_dem<T>(nodata);
  Flats f = find(g, nodata);
  bool any = false;
  for (size_t i = 0; i < f.hasflat.size(); i++) if (f.hasflat[i]) { stat(f.drainable[i] ? "flats.drainable" : "flats.closed"); any = true; }
  if (!any) stat("flats.none");
  Grid<T> e = to_grid(g, nodata);
  swarm();
  describe_dem(g.w, g.h);
  switch (choose(WORK, 5)) {
    case 0: {
      stat("kind.mask");
      Grid<int32_t> m1, l1, m2, l2;
      serially([&] { GetFlatMask(e, m1, l1); });
      under_schedule([&] { GetFlatMask(e, m2, l2); });
      must_equal("flat mask", m1, m2); same_labels(l1, l2); right_mask("flat mask", g, nodata, f, m2);
      for (int i = 0; i < g.w * g.h; i++) {
        int c = f.comp.d[i];
        bool in = c >= 0 && f.hasflat[c] && f.drainable[c];
        if ((l2(i) != 0) != in) fail("wrong-labels", "cell (%d,%d) of %dx%d has flat label %d", i % g.w, i / g.w, g.w, g.h, l2(i));
        for (int n = 1; n <= 8; n++) {
          int x = i % g.w + DX[n], y = i / g.w + DY[n];
          if (in && g.in(x, y) && f.comp(x, y) >= 0 && (f.comp(x, y) == c) != (l2(x, y) == l2(i))) fail("wrong-labels", "cells (%d,%d) and (%d,%d) of %dx%d: flat labels wrong", i % g.w, i / g.w, x, y, g.w, g.h);
        }
      }
      state_hash(hash_grid(m2)); break;
    }
    case 1: {
      stat("kind.epsilon");
      Grid<T> a = e, b = e;
      serially([&] { ResolveFlatsEpsilon(a); });
      under_schedule([&] { ResolveFlatsEpsilon(b); });
      must_equal("resolved elevations", a, b); follows_mask("resolved elevations", g, nodata, f, b);
      untouched("resolved elevations", g, f, b);
      G<int> m = reference_mask(g, nodata, f);
      for (int y = 1; y < g.h - 1; y++) for (int x = 1; x < g.w - 1; x++) {
        T v = g(x, y); for (int k = 0; k < m(x, y); k++) v = std::nextafter(v, std::numeric_limits<T>::infinity());
        if (!same_bits(v, b(x, y))) fail("wrong-elevation", "resolved elevations: cell (%d,%d) of %dx%d was not raised by its %d increments", x, y, g.w, g.h, m(x, y));
      }
      Grid<uint8_t> fd; serially([&] { d8_flow_directions(b, fd); });
      drains("resolved elevations", g, nodata, f, fd);
      state_hash(hash_grid(b)); break;
    }
    case 2: case 3: {
      bool alter = choose(WORK, 2);
      stat(alter ? "kind.d8-alter" : "kind.d8");
      Grid<T> a = e, b = e; Grid<uint8_t> fa, fb, plain;
      serially([&] { d8_flow_directions(e, plain); barnes_flat_resolution_d8(a, fa, alter); });
      under_schedule([&] { barnes_flat_resolution_d8(b, fb, alter); });
      must_equal("elevations", a, b); must_equal("D8 directions over flats", fa, fb);
      if (choose(WORK, 2)) {
        Grid<int32_t> m, l;
        under_schedule([&] { resolve_flats_barnes(e, plain, m, l); });
        right_mask("flat mask from directions", g, nodata, f, m);
      }
      if (!alter) {
        G<int> m = reference_mask(g, nodata, f);
        for (int i = 0; i < g.w * g.h; i++) {
          int c = f.comp.d[i];
          if (c < 0 || !f.flat[i] || !f.drainable[c]) continue;
          int n = fb(i); if (n < 1 || n > 8) continue;              // drains() reports it
          int to = i + DY[n] * g.w + DX[n];
          for (int k = 1; k <= 8; k++) { int o = i + DY[k] * g.w + DX[k];
            if (f.comp.d[o] == c && (f.comp.d[to] != c || m.d[o] < m.d[to])) fail("not-steepest", "cell (%d,%d) of a flat in %dx%d drains to %d increments though a neighbour has %d", i % g.w, i / g.w, g.w, g.h, m.d[to], m.d[o]); }
        }
      }
      if (alter) untouched("D8 flat resolution", g, f, b), follows_mask("D8 flat resolution", g, nodata, f, b); else must_equal("elevations", e, b);
      drains("D8 flat resolution", g, nodata, f, fb);
      for (int i = 0; i < g.w * g.h; i++) {
        int c = f.comp.d[i];
        if (!alter && !(c >= 0 && f.flat[i] && f.drainable[c]) && fb(i) != plain(i))
          fail("touched", "cell (%d,%d) of %dx%d is outside drainable flats but its direction changed from %d to %d", i % g.w, i / g.w, g.w, g.h, plain(i), fb(i));
      }
      state_hash(hash_grid(fb)); break;
    }
    default: {
      stat("kind.dinf");
      Grid<float> fa, fb, plain;
      serially([&] { dinf_flow_directions(e, plain); resolve_flats_barnes_dinf(e, fa); });
      under_schedule([&] { resolve_flats_barnes_dinf(e, fb); });
      must_equal("D-infinity directions over flats", fa, fb);
      for (int i = 0; i < g.w * g.h; i++)
        if (plain(i) != 0 && !same_bits(plain(i), fb(i))) fail("touched", "cell (%d,%d) of %dx%d has flow but its D-infinity direction changed", i % g.w, i / g.w, g.w, g.h);
      state_hash(hash_grid(fb));
    }
  }
}
static void run() { if (choose(WORK, 2)) typed<double>(); else typed<float>(); }
Harness g_harnesses[] = {{"C10", run, [] { GDALAllRegister(); }}, {nullptr, nullptr, nullptr}};
