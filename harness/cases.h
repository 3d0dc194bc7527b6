// Clipping cases: I = {operation, fill rule, family, tolerance class, ...}
#pragma once
#include "clip.h"
namespace cases {
using namespace clip; using namespace gens; using pbt::Prop; using pbt::Reg;

static const std::vector<std::string> kLabels = {"none", "intersection", "union", "difference", "xor", "even_odd", "non_zero", "positive", "negative",
  "empty clip or subject", "several contours", "result non-empty", "has curves", "horizontal edge", "fam real", "fam star", "fam int", "fam near", "fam big", "fam comb", "fam grid", "fam rectilinear", "fam octilinear", "fam same", "fam cubic", "fam circle", "fam mixed", "fam blob", "fam quad", "fam capsule", "fam same curve", "fam int circle"};
inline uint32_t labels(const Case& c, bool nonempty) {
  uint32_t l = 1u << c.I[0] | 1u << (5 + c.I[1]);
  if (c.S.empty() || c.C.empty()) l |= 1u << 9;
  if (c.S.size() + c.C.size() > 2) l |= 1u << 10;
  if (nonempty) l |= 1u << 11;
  if (has_curve(c.S) || has_curve(c.C)) l |= 1u << 12;
  for (auto* v : {&c.S, &c.C}) for (auto& p : *v) for (size_t i = 1; i < p.size(); ++i) if (p[i].t == 'l' && endp(p[i]).y == endp(p[i - 1]).y && endp(p[i]).x != endp(p[i - 1]).x) l |= 1u << 13;
  if (c.I.size() > 2 && c.I[2] < 18) l |= 1u << (14 + c.I[2]);
  return l;
}
inline void fill(Rng& r, std::vector<Pth>& v, int fam, int n, const std::vector<Pth>& others) { std::vector<Pth> all = others; for (int i = 0; i < n; ++i) { v.push_back(one(r, fam, all)); all.push_back(v.back()); } }
inline void pick_op(Rng& r, Case& c) { c.I = {r.coin(.04) ? 0 : r.in(1, 4), r.in(0, 3)}; }
inline int count(Rng& r) { return r.coin(.6) ? 1 : r.coin(.7) ? 2 : r.in(3, 4); }

inline void place(Rng& r, Case& c) { // similarity: scale and offset
  double s = r.coin(.5) ? 1 : std::pow(10.0, r.coin(.7) ? r.real(-3, 5) : r.real(-13, 12)), ox = r.coin(.6) ? 0 : r.real(-500, 500) * s, oy = r.coin(.6) ? 0 : r.real(-500, 500) * s;
  for (auto* v : {&c.S, &c.C}) map_xy(*v, [&](double& x, double& y) { x = x * s + ox; y = y * s + oy; });
}
// one contour much smaller than the others, about a point of another one
inline void small_one(Rng& r, Case& c) {
  if (!r.coin(.08)) return;
  auto& v = c.C.empty() || r.coin() ? c.S : c.C; auto& w = c.C.empty() || r.coin() ? c.S : c.C; if (v.empty() || w.empty()) return;
  auto& p = v[r.next() % v.size()]; auto& q = w[r.next() % w.size()]; geo::P2 o = endp(p[r.next() % p.size()]), to = endp(q[r.next() % q.size()]); double f = std::pow(10.0, -r.real(.5, 4)); std::vector<Pth> t{p};
  if (r.coin(.3)) to = {r.real(0, 100), r.real(0, 100)};
  map_xy(t, [&](double& x, double& y) { x = to.x + (x - o.x) * f; y = to.y + (y - o.y) * f; }); p = t[0];
}
inline Case gen_poly(Rng& r) {
  Case c; pick_op(r, c);
  static const std::vector<int> fams{F_real, F_real, F_star, F_star, F_int, F_near, F_near, F_near, F_rcomb};
  int fam = r.coin(.03) ? (int)F_big : r.pick(fams); c.I.push_back(fam); c.I.push_back(1);
  int n = fam == F_big ? 1 : count(r), m = fam == F_big ? 1 : r.coin(.05) ? 0 : count(r);
  fill(r, c.S, fam, n, {}); fill(r, c.C, fam, m, c.S);
  spell(r, c.S); spell(r, c.C);
  if (r.coin(.03)) std::swap(c.S, c.C);
  small_one(r, c);
  place(r, c);
  return c;
}
inline Case gen_grid(Rng& r) {
  Case c; pick_op(r, c);
  static const std::vector<int> fams{F_grid, F_grid, F_grid, F_recti, F_recti, F_octi, F_octi, F_comb, F_same};
  int fam = r.pick(fams); c.I.push_back(fam); c.I.push_back(0);
  int base = fam == F_same ? (r.coin() ? (int)F_grid : (int)F_recti) : fam;
  int n = count(r), m = r.coin(.05) ? 0 : count(r);
  fill(r, c.S, base, n, {}); fill(r, c.C, base, m, c.S);
  if (fam == F_same) { // shared contours and shared vertices
    if (r.coin()) c.C = c.S; else c.C.push_back(c.S[0]);
    if (r.coin(.3)) { double d = r.in(-2, 2); map_xy(c.C, [&](double& x, double&) { x += d; }); }
    if (r.coin(.3)) { double d = r.in(-2, 2); map_xy(c.C, [&](double&, double& y) { y += d; }); }
  }
  if (r.coin(.15)) { auto tmp = one(r, r.coin() ? (int)F_octi : (int)F_recti, c.S); c.S.push_back(tmp); }
  spell(r, c.S); spell(r, c.C);
  if (r.coin(.3)) { double s = std::ldexp(1.0, r.coin(.7) ? r.in(-6, 12) : r.in(-60, 40)), ox = r.in(-8, 8), oy = r.in(-8, 8); for (auto* v : {&c.S, &c.C}) map_xy(*v, [&](double& x, double& y) { x = (x + ox) * s; y = (y + oy) * s; }); }
  return c;
}
inline Case gen_curve(Rng& r) {
  Case c; pick_op(r, c);
  static const std::vector<int> fams{F_curve, F_curve, F_circle, F_mixed, F_mixed, F_blob, F_blob, F_quad, F_capsule, F_samecurve, F_samecurve, F_gridcurve, F_gridcurve, F_arch};
  int fam = r.pick(fams); c.I.push_back(fam); c.I.push_back(2);
  static const std::vector<int> bases{F_curve, F_blob, F_mixed, F_capsule, F_circle, F_gridcurve, F_arch};
  int base = fam == F_samecurve ? r.pick(bases) : fam;
  int n = r.coin(.7) ? 1 : 2, m = r.coin(.05) ? 0 : r.coin(.7) ? 1 : 2;
  fill(r, c.S, base, n, {}); fill(r, c.C, r.coin(.2) ? (int)F_star : base, m, c.S);
  if (fam == F_samecurve) { int k = r.in(0, 3); if (k == 0) c.C = c.S; else if (k == 1) c.C.push_back(c.S[0]); else { auto& v = k == 2 ? c.C : c.S; for (int t = 0; t < 6; ++t) { v.push_back(g_related(r, c.S)); if (curves_apart(c)) break; v.pop_back(); } } }
  if (base == F_gridcurve) for (int k = 0; k < 20 && !curves_apart(c); ++k) { c.S.clear(); c.C.clear(); fill(r, c.S, base, n, {}); fill(r, c.C, base, m, c.S); }
  spell(r, c.S); spell(r, c.C);
  if (base != F_gridcurve && fam != F_samecurve) { Case k = c; small_one(r, c); if (!curves_apart_by(c, true)) c = k; }
  if (base == F_gridcurve) { if (r.coin(.3)) { double s = std::ldexp(1.0, r.coin(.7) ? r.in(-8, 12) : r.in(-60, 40)), ox = r.in(-8, 8), oy = r.in(-8, 8); for (auto* v : {&c.S, &c.C}) map_xy(*v, [&](double& x, double& y) { x = (x + ox) * s; y = (y + oy) * s; }); } }
  else if (r.coin(.4)) { double s = std::pow(10.0, r.coin(.7) ? r.real(-6, 6) : r.real(-13, 12)), ox = r.real(-200, 200) * s, oy = r.real(-200, 200) * s; for (auto* v : {&c.S, &c.C}) map_xy(*v, [&](double& x, double& y) { x = x * s + ox; y = y * s + oy; }); }
  return c;
}

// one of the three domains
inline Case gen_any(Rng& r, double curve = .25, double grid = .4) { double u = r.unit(); return u < curve ? gen_curve(r) : u < curve + grid ? gen_grid(r) : gen_poly(r); }
inline void guard(Prop& p) { // what every clipping property shares
  p.labels = kLabels; p.hang_s = 20; p.domain = curves_apart; p.jitter = [](const Case& c, Rng& r) { return clip::jitter(c, r); };
  p.assumptions = {"finite coordinates, at most 1e15 in magnitude", "curves that run along each other without being equal are excluded (documented as open in the code)",
    "a failure that fewer than 4 of 16 cases within 1e-4 of it share counts as near-degenerate; such failures are counted and reported only above the stated limit",
    "two results are compared outside a band around the input boundary: 1e-9 of the coordinates on grids, 5e-6 of the size for lines, 2e-5 for curves"};
}
}
