// Terrains with depressions and ocean masks, for C11, C12, C14, C17.
#pragma once
#include "common.hpp"
#include <richdem/depressions/fill_spill_merge.hpp>
namespace hz {
namespace dh = richdem::dephier;
struct Basin { G<double> e; G<char> ocean; };
inline Basin gen_basin(int lo = 2, int hi = 14) {
  Basin b; int w = between(lo, hi), h = between(lo, hi);
  if (hi >= 12) maybe_strip(w, h, lo);
  b.e = G<double>(w, h, 0); b.ocean = G<char>(w, h, 0);
  int kind = choose(WORK, 5), lv = 1 + choose(WORK, 30);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    double v;
    switch (kind) {
      case 0: v = choose(WORK, lv + 1); break;
      case 1: v = choose(WORK, 4) == 3 ? choose(WORK, 6) : 5; break;                       // plateau with holes
      case 2: v = std::min({x, y, w - 1 - x, h - 1 - y}) * -2 + 20 + (int)choose(WORK, 4); break; // one bowl
      case 3: v = ((x / 3 + y / 3) % 2 ? 10 : 4) + choose(WORK, 3); break;                  // many bowls and ridges
      default: v = choose(WORK, 1000) / 8.0; break;
    }
    b.e(x, y) = v;
  }
  int mask = choose(WORK, 4);
  if (mask <= 1) {                                     // the usual: edges are ocean, below all land
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (!x || !y || x == w - 1 || y == h - 1) { b.ocean(x, y) = 1; if (mask == 0) b.e(x, y) = -1; }
  } else {                                             // scattered ocean cells at any height
    int n = between(1, 1 + w * h / 12);
    while (n--) b.ocean(choose(WORK, w), choose(WORK, h)) = 1;
  }
  bool ok = false;
  for (int i = 0; i < w * h; i++) if (!b.ocean.d[i]) ok = true;
  if (!ok) b.ocean(w / 2, h / 2) = 0;
  return b;
}
template <class T> struct DH {
  Grid<T> topo; Grid<dh::dh_label_t> label; Grid<int8_t> fd; dh::DepressionHierarchy<T> deps;
};
template <class T> DH<T> start(const Basin &b) {
  DH<T> d; G<T> t(b.e.w, b.e.h); for (size_t i = 0; i < t.d.size(); i++) t.d[i] = (T)b.e.d[i];
  d.topo = to_grid(t, (T)-9999);
  d.label = Grid<dh::dh_label_t>(b.e.w, b.e.h, dh::NO_DEP);
  d.fd = Grid<int8_t>(b.e.w, b.e.h, (int8_t)0);
  for (size_t i = 0; i < t.d.size(); i++) if (b.ocean.d[i]) d.label(i) = dh::OCEAN;
  return d;
}
template <class T, richdem::Topology topo> void solve(DH<T> &d) { d.deps = dh::GetDepressionHierarchy<T, topo>(d.topo, d.label, d.fd); }
}
