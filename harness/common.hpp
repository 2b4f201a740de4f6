// Shared by the harnesses: input generation, swarm knobs, comparison.
#pragma once
#include "core.hpp"
#include <richdem/common/Array2D.hpp>
#include <richdem/common/Array3D.hpp>
#include <richdem/common/constants.hpp>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#define NOINST __attribute__((no_sanitize("thread")))

namespace hz {
using namespace sim;
template <class T> using Grid = richdem::Array2D<T>;

// Plain grid for reference models: nothing of the library in it.
template <class T> struct G {
  int w = 0, h = 0; std::vector<T> d;
  G() {}
  G(int w_, int h_, T v = T()) : w(w_), h(h_), d((size_t)w_ * h_, v) {}
  T &operator()(int x, int y) { return d[(size_t)y * w + x]; }
  const T &operator()(int x, int y) const { return d[(size_t)y * w + x]; }
  bool in(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h; }
};
static const int DX[9] = {0, -1, -1, 0, 1, 1, 1, 0, -1};
static const int DY[9] = {0, 0, -1, -1, -1, 0, 1, 1, 1};

template <class T> Grid<T> to_grid(const G<T> &g, T nodata) {
  Grid<T> a(g.w, g.h, T());
  for (int y = 0; y < g.h; y++) for (int x = 0; x < g.w; x++) a(x, y) = g(x, y);
  a.setNoData(nodata);
  a.geotransform = {0, 1, 0, 0, 0, -1};
  return a;
}
template <class T> bool same_bits(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0; }

// Threads and pre-emption rate for this run.
inline void swarm(int max_threads = 8) {
  knobs.omp_threads = 1 + (int)choose(SCHED, max_threads);
  if (max_threads >= 8 && choose(SCHED, 24) == 23) knobs.omp_threads = 9 + (int)choose(SCHED, 32);
  static const uint32_t M[] = {0, 5000, 1000, 300, 100, 30, 10, 3};
  knobs.preempt_mean = M[choose(SCHED, 8)];
  static const uint32_t S[] = {0, 0, 8, 2};
  knobs.stall_den = S[choose(SCHED, 4)];
  stat(knobs.omp_threads > 8 ? "threads.9-40" : ("threads." + std::to_string(knobs.omp_threads)).c_str());
}
// Runs f with the drawn team size and pre-emption on.
template <class F> void under_schedule(const F &f) { arm_preemption(); f(); disarm_preemption(); }
template <class F> void serially(const F &f) {
  Knobs k = knobs;
  knobs.omp_threads = 1; knobs.preempt_mean = 0;
  disarm_preemption();
  f();
  uint64_t lim = k.step_limit;
  knobs = k; knobs.step_limit = lim;
}

template <class T> uint64_t hash_grid(const Grid<T> &a) {
  uint64_t h = 1469598103934665603ull;
  for (uint32_t i = 0; i < a.size(); i++) {
    T v = a(i); unsigned char b[sizeof(T)]; memcpy(b, &v, sizeof(T));
    for (unsigned char c : b) h = (h ^ c) * 1099511628211ull;
  }
  return h;
}
template <class T> std::string show(const Grid<T> &a) {
  std::ostringstream o;
  for (int y = 0; y < a.height(); y++) { for (int x = 0; x < a.width(); x++) o << +a(x, y) << ' '; o << "/ "; }
  return o.str();
}
template <class T> void must_equal(const char *what, const Grid<T> &want, const Grid<T> &got) {
  if (want.width() != got.width() || want.height() != got.height())
    fail("wrong-size", "%s: expected %dx%d, got %dx%d", what, want.width(), want.height(), got.width(), got.height());
  if (!same_bits(want.noData(), got.noData())) fail("wrong-nodata", "%s: NoData value differs", what);
  for (int y = 0; y < want.height(); y++)
    for (int x = 0; x < want.width(); x++)
      if (!same_bits(want(x, y), got(x, y))) {
        if (want(x, y) != want(x, y) && got(x, y) != got(x, y)) continue;   // NaN payloads
        std::ostringstream o; o << +want(x, y) << " expected, got " << +got(x, y);
        fail("wrong-value", "%s: cell (%d,%d) of %dx%d: %s", what, x, y, want.width(), want.height(), o.str().c_str());
      }
}

// Elevations with the features that matter: ties, flats, pits, NoData holes.
struct DemOpt { int wmin = 3, wmax = 14, hmin = 3, hmax = 14; bool nodata = true; bool ties = true; int maxval = 12; };
// Now and then a long strip: more rows or columns than any block, chunk or team.
inline void maybe_strip(int &w, int &h, int lo) {
  if (choose(WORK, 32) != 31) return;
  bool tall = choose(WORK, 2); int n = between(40, 300);
  (tall ? h : w) = n; int &o = tall ? w : h; if (o > 6) o = std::max(lo, 6);
  stat("dem.long-strip");
}
template <class T> G<T> gen_dem(const DemOpt &o, T nodata) {
  int w = between(o.wmin, o.wmax), h = between(o.hmin, o.hmax);
  if (o.wmax >= 14) maybe_strip(w, h, std::max(o.wmin, o.hmin));
  G<T> g(w, h, T());
  int kind = (int)choose(WORK, 5);
  int levels = 1 + (int)choose(WORK, o.maxval);
  int sx = between(-2, 2), sy = between(-2, 2);
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++) {
      double v = 0;
      switch (kind) {
        case 0: v = choose(WORK, levels); break;                                  // noise with ties
        case 1: v = x * sx + y * sy + (int)choose(WORK, 3) + 60; break;            // tilted
        case 2: v = std::min({x, y, w - 1 - x, h - 1 - y}) * (sx >= 0 ? 1 : -1) + 20 + (choose(WORK, 4) == 3 ? 2 : 0); break;  // cone or bowl
        case 3: v = (choose(WORK, 5) == 4) ? choose(WORK, levels) : 5; break;      // mostly flat
        case 4: v = choose(WORK, 1000); break;                                    // few ties
      }
      g(x, y) = (T)v;
    }
  if (std::is_floating_point<T>::value && choose(WORK, 2))
    for (auto &v : g.d) v = (T)(v + (T)choose(WORK, 16) / (T)16);
  if (o.nodata && choose(WORK, 3) == 2) {
    int n = between(1, 1 + w * h / 6);
    while (n--) g(choose(WORK, w), choose(WORK, h)) = nodata;
    stat("dem.with-nodata");
  }
  return g;
}
inline void describe_dem(int w, int h) { event("raster %dx%d threads %d mean gap %u", w, h, knobs.omp_threads, knobs.preempt_mean); }
}  // namespace hz
