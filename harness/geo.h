// Independent geometric oracle: winding numbers of point sets bounded by line
// segments and cubic Beziers, evaluated by scan lines in long double.
// Uses nothing of river but the layout of its public API.
#pragma once
#include "pbt.h"
#include "river.h"
#include <algorithm>
#include <cmath>
#include <functional>

namespace geo {
typedef long double ld;
using pbt::Case;
using pbt::El;
using pbt::Pth;
struct P2 { double x, y; bool operator==(const P2& o) const { return x == o.x && y == o.y; } };
struct Seg { int deg; P2 p[4]; };                  // 1: line p0 p1, 3: cubic
struct Ring { std::vector<Seg> segs; bool closed = true; }; // implicit closing line already added
typedef std::vector<Ring> Region;

inline ld bz(const Seg& s, ld t, int c) {
  auto g = [&](int i) -> ld { return c ? s.p[i].y : s.p[i].x; };
  if (s.deg == 1) return g(0) + (g(1) - g(0)) * t;
  ld k = 1 - t;
  return g(0) * k * k * k + 3 * g(1) * k * k * t + 3 * g(2) * k * t * t + g(3) * t * t * t;
}

// harness case -> region (a new contour starts at every 'm'; closed implicitly)
inline Region region(const std::vector<Pth>& ps) {
  Region R;
  for (auto& p : ps) {
    P2 cur{0, 0}, start{0, 0};
    auto close = [&]() {
      if (R.empty() || R.back().segs.empty()) return;
      if (!(cur == start)) R.back().segs.push_back({1, {cur, start}});
    };
    bool open = false;
    for (auto& e : p) {
      if (e.t == 'm') { if (open) close(); R.push_back({}); open = true; start = cur = {e.v[0], e.v[1]}; }
      else if (e.t == 'l') { P2 q{e.v[0], e.v[1]}; R.back().segs.push_back({1, {cur, q}}); cur = q; }
      else if (e.t == 'c') { P2 q{e.v[4], e.v[5]}; R.back().segs.push_back({3, {cur, {e.v[0], e.v[1]}, {e.v[2], e.v[3]}, q}}); cur = q; }
    }
    if (open) close();
  }
  return R;
}

struct Ext { double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
  void add(const P2& p) { lo[0] = std::min(lo[0], p.x); hi[0] = std::max(hi[0], p.x); lo[1] = std::min(lo[1], p.y); hi[1] = std::max(hi[1], p.y); }
  double size() const { return hi[0] < lo[0] ? 0 : std::max(hi[0] - lo[0], hi[1] - lo[1]); }
  double mag() const { return hi[0] < lo[0] ? 0 : std::max(std::max(std::fabs(lo[0]), std::fabs(hi[0])), std::max(std::fabs(lo[1]), std::fabs(hi[1]))); } };
inline void extend(Ext& e, const Region& R) { for (auto& r : R) for (auto& s : r.segs) for (int i = 0; i <= s.deg; ++i) e.add(s.p[i]); }

inline ld dist_seg(const Seg& s, ld x, ld y) {
  auto dl = [&](ld ax, ld ay, ld bx, ld by) {
    ld vx = bx - ax, vy = by - ay, ux = x - ax, uy = y - ay, d = vx * vx + vy * vy;
    ld f = d > 0 ? (ux * vx + uy * vy) / d : 0;
    f = f < 0 ? 0 : f > 1 ? 1 : f;
    return hypotl(ux - f * vx, uy - f * vy);
  };
  if (s.deg == 1) return dl(s.p[0].x, s.p[0].y, s.p[1].x, s.p[1].y);
  const int n = 256;
  ld best = 1e300L; int bi = 0;
  ld px = s.p[0].x, py = s.p[0].y;
  for (int i = 1; i <= n; ++i) { ld t = (ld)i / n, qx = bz(s, t, 0), qy = bz(s, t, 1); ld d = dl(px, py, qx, qy); if (d < best) { best = d; bi = i; } px = qx; py = qy; }
  // refine around the best chord
  ld lo = std::max((ld)0, (ld)(bi - 2) / n), hi = std::min((ld)1, (ld)(bi + 1) / n);
  for (int r = 0; r < 4; ++r) {
    int m = 32, bj = 0; ld bb = 1e300L;
    for (int i = 0; i <= m; ++i) { ld t = lo + (hi - lo) * i / m; ld d = hypotl(bz(s, t, 0) - x, bz(s, t, 1) - y); if (d < bb) { bb = d; bj = i; } }
    best = std::min(best, bb);
    ld w = (hi - lo) / m; ld c = lo + w * bj; lo = std::max((ld)0, c - w); hi = std::min((ld)1, c + w);
  }
  return best;
}
inline ld dist_region(const Region& R, ld x, ld y) { ld b = 1e300L; for (auto& r : R) for (auto& s : r.segs) b = std::min(b, dist_seg(s, x, y)); return b; }

struct Mono { const Seg* s; ld t0, t1, y0, y1; int dir; };
inline void y_extrema(const Seg& s, int c, std::vector<ld>& ts) {
  if (s.deg != 3) return;
  auto g = [&](int i) -> ld { return c ? s.p[i].y : s.p[i].x; };
  ld a = 3 * (g(3) - 3 * g(2) + 3 * g(1) - g(0)), b = 6 * (g(0) - 2 * g(1) + g(2)), d = 3 * (g(1) - g(0));
  auto add = [&](ld t) { if (t > 0 && t < 1) ts.push_back(t); };
  ld m = std::max(fabsl(a), std::max(fabsl(b), fabsl(d)));
  if (m == 0) return;
  if (fabsl(a) < 1e-17L * m) { if (b != 0) add(-d / b); return; }
  ld k = b * b - 4 * a * d;
  if (k <= 0) return;
  k = sqrtl(k);
  ld q = -0.5L * (b + (b >= 0 ? k : -k));
  add(q / a); if (q != 0) add(d / q);
  std::sort(ts.begin(), ts.end());
}
inline void monos(const Region& R, std::vector<Mono>& out) {
  for (auto& r : R) for (auto& s : r.segs) {
    std::vector<ld> ts{0};
    std::vector<ld> e; y_extrema(s, 1, e); ts.insert(ts.end(), e.begin(), e.end());
    ts.push_back(1);
    for (size_t i = 0; i + 1 < ts.size(); ++i) {
      ld ya = i == 0 ? (ld)s.p[0].y : bz(s, ts[i], 1), yb = i + 2 == ts.size() ? (ld)s.p[s.deg].y : bz(s, ts[i + 1], 1);
      if (ya == yb) continue;
      out.push_back({&s, ts[i], ts[i + 1], ya, yb, yb < ya ? 1 : -1});
    }
  }
}
inline ld xat(const Mono& m, ld y) {
  const Seg& s = *m.s;
  if (s.deg == 1) { ld u = (y - s.p[0].y) / ((ld)s.p[1].y - s.p[0].y); return bz(s, u, 0); }
  ld lo = m.t0, hi = m.t1; bool inc = m.y1 > m.y0;
  for (int i = 0; i < 48; ++i) { ld mid = (lo + hi) / 2; if ((bz(s, mid, 1) < y) == inc) lo = mid; else hi = mid; }
  return bz(s, (lo + hi) / 2, 0);
}

struct Sweep {
  bool bad = false; ld x = 0, y = 0; int w[4] = {0, 0, 0, 0};
  long probes = 0, want = 0; // probes evaluated, probes for which pred set the "inside" flag
};
// Visits a point of every face (wider than tol) of the arrangement on many scan
// lines. pred gets the winding numbers of all regions and returns false if they
// are wrong; a wrong point only counts if it is farther than tol from every
// boundary of the regions selected by nearmask.
inline Sweep sweep(const std::vector<const Region*>& rs, ld tol, unsigned nearmask,
                   const std::function<bool(const int*, bool&)>& pred, unsigned crossmask = ~0u, int maxlines = 240) {
  Sweep v;
  std::vector<Mono> ms[4];
  bool curves = false;
  std::vector<ld> ys;
  std::vector<const Seg*> lines;
  for (size_t k = 0; k < rs.size(); ++k) {
    monos(*rs[k], ms[k]);
    for (auto& m : ms[k]) { ys.push_back(m.y0); ys.push_back(m.y1); if (m.s->deg == 3) curves = true; else if (crossmask >> k & 1) lines.push_back(m.s); }
    for (auto& r : *rs[k]) for (auto& s : r.segs) { ys.push_back(s.p[0].y); ys.push_back(s.p[s.deg].y); }
  }
  if (ys.empty()) return v;
  if (lines.size() <= 400)
  for (size_t i = 0; i < lines.size(); ++i) for (size_t j = i + 1; j < lines.size(); ++j) {
    auto &a = *lines[i], &b = *lines[j];
    ld ax = (ld)a.p[1].x - a.p[0].x, ay = (ld)a.p[1].y - a.p[0].y, bx = (ld)b.p[1].x - b.p[0].x, by = (ld)b.p[1].y - b.p[0].y;
    ld d = ax * by - ay * bx; if (d == 0) continue;
    ld cx = (ld)b.p[0].x - a.p[0].x, cy = (ld)b.p[0].y - a.p[0].y, t = (cx * by - cy * bx) / d, u = (cx * ay - cy * ax) / d;
    if (t >= 0 && t <= 1 && u >= -0.01L && u <= 1.01L) ys.push_back(a.p[0].y + t * ay);
  }
  std::sort(ys.begin(), ys.end());
  std::vector<ld> qs; ld lo = ys.front(), hi = ys.back();
  for (size_t i = 0; i + 1 < ys.size(); ++i) if (ys[i + 1] - ys[i] > 4 * tol) qs.push_back((ys[i] + ys[i + 1]) / 2 + (ys[i + 1] - ys[i]) * 0.01234L);
  if (curves) for (int i = 0; i < 48; ++i) qs.push_back(lo + (hi - lo) * (i + 0.4142L) / 48);
  if ((int)qs.size() > maxlines) { std::vector<ld> q2; for (int i = 0; i < maxlines; ++i) q2.push_back(qs[(size_t)((double)i * qs.size() / maxlines)]); qs.swap(q2); }
  struct Cross { ld x; int who, dir; };
  std::vector<Cross> cs;
  for (ld y : qs) {
    cs.clear();
    for (size_t k = 0; k < rs.size(); ++k) for (auto& m : ms[k]) { ld a = std::min(m.y0, m.y1), b = std::max(m.y0, m.y1); if (y > a && y < b) cs.push_back({xat(m, y), (int)k, m.dir}); }
    std::sort(cs.begin(), cs.end(), [](const Cross& a, const Cross& b) { return a.x < b.x; });
    int w[4] = {0, 0, 0, 0};
    for (size_t i = 0; i < cs.size(); ++i) {
      w[cs[i].who] += cs[i].dir;
      bool last = i + 1 == cs.size();
      if (!last && cs[i + 1].x - cs[i].x <= 2 * tol) continue;
      ld x = last ? cs[i].x + 4 * tol : (cs[i].x + cs[i + 1].x) / 2;
      ++v.probes; bool inside = false;
      bool ok = pred(w, inside); v.want += inside;
      if (!ok && !v.bad) {
        bool nearb = false;
        for (size_t k = 0; k < rs.size(); ++k) if ((nearmask >> k & 1) && dist_region(*rs[k], x, y) <= tol) nearb = true;
        if (nearb) continue;
        v.bad = true; v.x = x; v.y = y; for (int k = 0; k < 4; ++k) v.w[k] = w[k];
        return v;
      }
    }
  }
  return v;
}

inline bool filled(int w, river::fill_rule f) {
  switch (f) { case river::fill_rule::even_odd: return w & 1; case river::fill_rule::non_zero: return w != 0;
    case river::fill_rule::positive: return w > 0; case river::fill_rule::negative: return w < 0; }
  return false;
}
inline bool combine(bool s, bool c, river::clip_type o) {
  switch (o) { case river::clip_type::none: return false; case river::clip_type::intersection: return s && c; case river::clip_type::union_: return s || c;
    case river::clip_type::difference: return s && !c; case river::clip_type::xor_: return s != c; }
  return false;
}
}
