// Driving the library under test through its public API.
#pragma once
#include "gens.h"
#include "river.h"
#include <cstring>

namespace clip {
using geo::Region; using geo::P2; using pbt::Case; using pbt::El; using pbt::Pth; using pbt::Res;

inline river::path to_path(const Pth& p) {
  river::path o;
  for (auto& e : p) {
    if (e.t == 'm') o.moveto(e.v[0], e.v[1]);
    else if (e.t == 'l') o.lineto(e.v[0], e.v[1]);
    else if (e.t == 'c') o.cubicto(river::point(e.v[0], e.v[1]), river::point(e.v[2], e.v[3]), river::point(e.v[4], e.v[5]));
  }
  return o;
}
inline river::paths to_paths(const std::vector<Pth>& ps) { river::paths o; for (auto& p : ps) o.push_back(to_path(p)); return o; }

// everything written to a callback writer, with its protocol checked
struct Out {
  Region R;               // rings, implicit closing line added when a ring was left open
  std::vector<Pth> raw;
  std::string err;        // first protocol error
  P2 cur{0, 0}; bool have = false;
};
inline void fin(Out& o, const char* what, const river::point& p) { if (!std::isfinite(p.x) || !std::isfinite(p.y)) if (o.err.empty()) o.err = pbt::fmt("%s writes a non-finite coordinate", what); }
inline void w_move(path_moveto_func_para) { (void)from; auto& o = *(Out*)user; fin(o, "moveto", to); o.raw.push_back({gens::M(to.x, to.y)}); o.cur = {to.x, to.y}; }
inline void w_line(path_lineto_func_para) {
  auto& o = *(Out*)user; fin(o, "lineto", to);
  if (o.raw.empty()) { o.err = "lineto before moveto"; return; }
  if (o.err.empty() && !(P2{from.x, from.y} == o.cur)) o.err = pbt::fmt("lineto starts at (%.17g,%.17g) but the current point is (%.17g,%.17g)", from.x, from.y, o.cur.x, o.cur.y);
  o.raw.back().push_back(gens::L(to.x, to.y)); o.cur = {to.x, to.y};
}
inline void w_cubic(path_cubicto_func_para) {
  auto& o = *(Out*)user; fin(o, "cubicto", to); fin(o, "cubicto", ctrl1); fin(o, "cubicto", ctrl2);
  if (o.raw.empty()) { o.err = "cubicto before moveto"; return; }
  if (o.err.empty() && !(P2{from.x, from.y} == o.cur)) o.err = "cubicto does not start at the current point";
  o.raw.back().push_back(gens::Cc(ctrl1.x, ctrl1.y, ctrl2.x, ctrl2.y, to.x, to.y)); o.cur = {to.x, to.y};
}
inline river::path_traverse_funcs writer() { river::path_traverse_funcs f; f.move_to = w_move; f.line_to = w_line; f.cubic_to = w_cubic; return f; }
inline void finish(Out& o) {
  o.R = geo::region(o.raw);
  for (auto& p : o.raw) { if (!(gens::endp(p.front()) == gens::endp(p.back())) && o.err.empty()) o.err = pbt::fmt("contour starting at (%.17g,%.17g) is not closed: it ends at (%.17g,%.17g)", p.front().v[0], p.front().v[1], gens::endp(p.back()).x, gens::endp(p.back()).y); if (p.size() < 3 && o.err.empty()) o.err = "contour with fewer than two segments"; }
}
inline Out from_paths(const river::paths& ps) { Out o; for (auto& p : ps) p.traverse(writer(), &o); finish(o); return o; }

inline Out run(const std::vector<Pth>& S, const std::vector<Pth>& C, int op, int rule) {
  river::processor pr;
  pr.add_path(to_paths(S), river::path_type::subject);
  pr.add_path(to_paths(C), river::path_type::clip);
  river::paths o;
  pr.process((river::clip_type)op, (river::fill_rule)rule, o);
  return from_paths(o);
}
inline const char* opname(int i) { static const char* n[] = {"none", "intersection", "union", "difference", "xor"}; return n[i]; }
inline const char* rulename(int i) { static const char* n[] = {"even_odd", "non_zero", "positive", "negative"}; return n[i]; }

// tolerance classes: how far from the input boundary the region is compared
inline double tolerance(const Region& s, const Region& c, int cls) {
  geo::Ext e; geo::extend(e, s); geo::extend(e, c);
  switch (cls) {
  case 0: return 1e-9 * e.mag();
  case 1: return 5e-6 * e.size() + 1e-10 * e.mag();
  default: return 2e-5 * e.size() + 1e-10 * e.mag();
  }
}
// is `out` the result of the operation?
inline Res region_check(const Region& S, const Region& C, const Out& out, int op, int rule, double tol, long* inside = nullptr) {
  for (auto& r : out.R) for (auto& s : r.segs) for (int i = 0; i <= s.deg; ++i) if (!std::isfinite(s.p[i].x) || !std::isfinite(s.p[i].y)) return Res::Fail("non-finite output coordinate");
  auto fr = (river::fill_rule)rule; auto ct = (river::clip_type)op;
  auto v = geo::sweep({&S, &C, &out.R}, tol, 3, [&](const int* w, bool& in) { in = geo::combine(geo::filled(w[0], fr), geo::filled(w[1], fr), ct); return in == (w[2] & 1); }, 3);
  if (v.bad) return Res::Fail(pbt::fmt("%s/%s: point (%.12Lg, %.12Lg) has winding subject %d clip %d, so it must be %s the result, but the output winding is %d", opname(op), rulename(rule), v.x, v.y, v.w[0], v.w[1], (v.w[2] & 1) ? "outside" : "inside", v.w[2]));
  if (inside) *inside = v.want;
  return Res::Ok(v.want > 0);
}
inline bool finite_case(const Case& c) { for (auto* v : {&c.S, &c.C}) for (auto& p : *v) for (auto& e : p) { int n = e.t == 'c' ? 6 : 2; for (int i = 0; i < n; ++i) if (!std::isfinite(e.v[i]) || std::fabs(e.v[i]) > 1e15) return false; } return true; }
inline bool valid_case(const Case& c) {
  for (auto* v : {&c.S, &c.C}) for (auto& p : *v) { if (p.empty() || p[0].t != 'm') return false; }
  return finite_case(c);
}
// a nearby case: equal coordinates stay equal, so shared vertices, shared edges,
// horizontal and vertical edges and common scan lines survive
inline Case jitter(const Case& c, pbt::Rng& r, double rel = 1e-4) {
  geo::Ext e; geo::extend(e, geo::region(c.S)); geo::extend(e, geo::region(c.C));
  double amp = rel * e.size(); uint64_t k = r.next();
  auto mv = [&](double v, int axis) { uint64_t b; memcpy(&b, &v, 8); pbt::Rng q(b * 0x9E3779B97F4A7C15ull ^ k ^ (uint64_t)axis * 0xABCDEF12345ull); q.next(); return v + q.real(-amp, amp); };
  Case o = c;
  for (auto* v : {&o.S, &o.C}) gens::map_xy(*v, [&](double& x, double& y) { x = mv(x == 0 ? 0 : x, 0); y = mv(y == 0 ? 0 : y, 1); });
  return o;
}
// curves that run along each other (or themselves) without being equal are not supported (documented as open in the code)
// local: measured by the size of the smaller curve, so that small curves are not all near everything
inline bool curves_apart_by(const Case& c, bool local) {
  Region R = geo::region(c.S), Q = geo::region(c.C); R.insert(R.end(), Q.begin(), Q.end());
  geo::Ext e; geo::extend(e, R); const int n = 64; const double whole = e.size();
  struct Cv { const geo::Seg* s; P2 p[n + 1]; double size; };
  std::vector<Cv> cs;
  for (auto& r : R) for (auto& s : r.segs) if (s.deg == 3) { Cv v; v.s = &s; for (int i = 0; i <= n; ++i) v.p[i] = {(double)geo::bz(s, (geo::ld)i / n, 0), (double)geo::bz(s, (geo::ld)i / n, 1)}; geo::Ext x; for (auto& q : v.p) x.add(q); v.size = x.size(); cs.push_back(v); }
  auto dl = [](P2 a, P2 b, P2 p) { double vx = b.x - a.x, vy = b.y - a.y, ux = p.x - a.x, uy = p.y - a.y, d = vx * vx + vy * vy, f = d > 0 ? (ux * vx + uy * vy) / d : 0; f = std::max(0.0, std::min(1.0, f)); return std::hypot(ux - f * vx, uy - f * vy); };
  for (size_t a = 0; a < cs.size(); ++a) for (size_t b = 0; b < cs.size(); ++b) {
    auto &s = *cs[a].s, &q = *cs[b].s;
    if (a != b) { bool same = true, rev = true; for (int i = 0; i < 4; ++i) { same &= s.p[i] == q.p[i]; rev &= s.p[i] == q.p[3 - i]; } if (same || rev) continue; }
    // leaving a common end in the same direction
    auto dir = [](const geo::Seg& k, int end) { P2 o = k.p[end ? 3 : 0], d{0, 0}; for (int i = 1; i < 4; ++i) { P2 w = k.p[end ? 3 - i : i]; d = {w.x - o.x, w.y - o.y}; if (d.x != 0 || d.y != 0) break; } return d; };
    if (a < b) for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) if (s.p[i ? 3 : 0] == q.p[j ? 3 : 0]) { P2 u = dir(s, i), w = dir(q, j); double d = u.x * w.x + u.y * w.y, x = u.x * w.y - u.y * w.x; if (d > 0 && std::fabs(x) < 1e-3 * d) return false; }
    int close = 0; const double near = 2e-3 * (local ? std::min(cs[a].size, cs[b].size) : whole);
    for (int i = 0; i <= n; ++i) {
      bool hit = false;
      for (int j = 0; j < n && !hit; ++j) { if (a == b && std::abs(i - j) < n / 8) continue; hit = dl(cs[b].p[j], cs[b].p[j + 1], cs[a].p[i]) < near; }
      close += hit;
    }
    if (close > n / 8) return false;
  }
  return true;
}
inline bool curves_apart(const Case& c) { return curves_apart_by(c, false); }
inline bool has_curve(const std::vector<Pth>& v) { for (auto& p : v) for (auto& e : p) if (e.t == 'c') return true; return false; }
}
