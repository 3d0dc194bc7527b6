// Generators of clipping inputs.
#pragma once
#include "geo.h"

namespace gens {
using pbt::Case; using pbt::El; using pbt::Pth; using pbt::Rng;

inline El M(double x, double y) { return {'m', {x, y, 0, 0, 0, 0}}; }
inline El L(double x, double y) { return {'l', {x, y, 0, 0, 0, 0}}; }
inline El Cc(double a, double b, double c, double d, double x, double y) { return {'c', {a, b, c, d, x, y}}; }

inline Pth poly(const std::vector<geo::P2>& v) { Pth p; for (size_t i = 0; i < v.size(); ++i) p.push_back(i ? L(v[i].x, v[i].y) : M(v[i].x, v[i].y)); return p; }
inline geo::P2 endp(const El& e) { return e.t == 'c' ? geo::P2{e.v[4], e.v[5]} : geo::P2{e.v[0], e.v[1]}; }
// one contour, traversed backwards from its start point
inline Pth reversed(const Pth& p) {
  Pth o; o.push_back(M(endp(p.back()).x, endp(p.back()).y));
  for (size_t i = p.size() - 1; i >= 1; --i) {
    geo::P2 to = endp(p[i - 1]);
    if (p[i].t == 'c') o.push_back(Cc(p[i].v[2], p[i].v[3], p[i].v[0], p[i].v[1], to.x, to.y)); else o.push_back(L(to.x, to.y));
  }
  return o;
}
// close explicitly
inline Pth closed(Pth p) { geo::P2 a = endp(p.front()), b = endp(p.back()); if (!(a == b)) p.push_back(L(a.x, a.y)); return p; }
// same contour, other start vertex
inline Pth rotated(const Pth& in, size_t k) {
  Pth p = closed(in); size_t n = p.size() - 1; if (!n) return p; k %= n;
  Pth o; geo::P2 s = endp(p[k]); o.push_back(M(s.x, s.y));
  for (size_t i = 0; i < n; ++i) o.push_back(p[1 + (k + i) % n]);
  return o;
}
inline void map_xy(std::vector<Pth>& ps, const std::function<void(double&, double&)>& f) {
  for (auto& p : ps) for (auto& e : p) { int n = e.t == 'c' ? 3 : 1; for (int i = 0; i < n; ++i) f(e.v[2 * i], e.v[2 * i + 1]); }
}

// ---- straight edged contours
inline Pth g_real(Rng& r) { int n = r.in(3, 8); std::vector<geo::P2> v; for (int i = 0; i < n; ++i) v.push_back({r.real(0, 100), r.real(0, 100)}); return poly(v); }
inline Pth g_int(Rng& r, int m, int nmax = 8) { int n = r.in(3, nmax); std::vector<geo::P2> v; for (int i = 0; i < n; ++i) v.push_back({(double)r.in(0, m), (double)r.in(0, m)}); return poly(v); }
inline Pth g_star(Rng& r, int nmax = 12) {
  int n = r.in(3, nmax); double cx = r.real(20, 80), cy = r.real(20, 80); std::vector<geo::P2> v;
  for (int i = 0; i < n; ++i) { double a = 2 * M_PI * (i + r.real(0, .8)) / n, d = r.real(8, 50); v.push_back({cx + d * cos(a), cy + d * sin(a)}); }
  return poly(v);
}
inline Pth g_rect(Rng& r, int m) { int x = r.in(0, m), y = r.in(0, m), w = r.in(1, m / 2 + 1), h = r.in(1, m / 2 + 1); return poly({{(double)x, (double)y}, {(double)x + w, (double)y}, {(double)x + w, (double)y + h}, {(double)x, (double)y + h}}); }
inline Pth g_recti(Rng& r, int m) {
  int n = r.in(2, 5); std::vector<int> xs, ys; for (int i = 0; i < n; ++i) { xs.push_back(r.in(0, m)); ys.push_back(r.in(0, m)); }
  std::vector<geo::P2> v{{(double)xs[0], (double)ys[0]}};
  for (int i = 0; i < n; ++i) { v.push_back({(double)xs[(i + 1) % n], (double)ys[i]}); if (i + 1 < n) v.push_back({(double)xs[i + 1], (double)ys[i + 1]}); }
  return poly(v);
}
// octilinear walk on a grid: only horizontal, vertical and diagonal edges (closing edge arbitrary)
inline Pth g_octi(Rng& r, int m) {
  static const int dx[] = {1, 1, 0, -1, -1, -1, 0, 1}, dy[] = {0, 1, 1, 1, 0, -1, -1, -1};
  int x = r.in(0, m), y = r.in(0, m), n = r.in(3, 9); std::vector<geo::P2> v{{(double)x, (double)y}};
  for (int i = 0; i < n; ++i) { int d = r.in(0, 7), s = r.in(1, m / 2); x += dx[d] * s; y += dy[d] * s; v.push_back({(double)x, (double)y}); }
  return poly(v);
}
// comb: many local minima and maxima on common scan lines
inline Pth g_comb(Rng& r, bool integer) {
  int n = r.in(2, 8); double y0 = r.in(0, 3), y1 = r.in(5, 9), x = integer ? r.in(0, 4) : r.real(0, 4); std::vector<geo::P2> v{{x, y0}};
  for (int i = 0; i < n; ++i) { double w = integer ? r.in(1, 2) : r.real(.5, 2); x += w; v.push_back({x, r.coin(.8) ? y1 : (double)r.in(4, 9)}); x += integer ? r.in(0, 2) : r.real(.2, 2); v.push_back({x, r.coin(.8) ? y0 : (double)r.in(0, 4)}); }
  if (r.coin()) { v.push_back({x, y0 - r.in(0, 2)}); v.push_back({v[0].x, y0 - r.in(0, 2)}); }
  return poly(v);
}
// vertices close to (but not on) those of another path
inline Pth g_near(Rng& r, const std::vector<Pth>& others) {
  std::vector<geo::P2> pool; for (auto& p : others) for (auto& e : p) pool.push_back(endp(e));
  int n = r.in(3, 7); std::vector<geo::P2> v;
  for (int i = 0; i < n; ++i) {
    if (!pool.empty() && r.coin(.6)) {
      geo::P2 a = pool[r.next() % pool.size()], b = pool[r.next() % pool.size()]; double f = r.coin() ? 0 : r.unit();
      double d = std::pow(10.0, -r.real(0.3, 4.0)) * 30, an = r.real(0, 2 * M_PI);
      v.push_back({a.x + (b.x - a.x) * f + d * cos(an), a.y + (b.y - a.y) * f + d * sin(an)});
    } else v.push_back({r.real(0, 100), r.real(0, 100)});
  }
  return poly(v);
}
// ---- curved contours
inline Pth g_cubics(Rng& r) { int n = r.in(1, 4); Pth p{M(r.real(0, 100), r.real(0, 100))}; for (int i = 0; i < n; ++i) p.push_back(Cc(r.real(0, 100), r.real(0, 100), r.real(0, 100), r.real(0, 100), r.real(0, 100), r.real(0, 100))); return p; }
inline Pth ellipse(double cx, double cy, double rx, double ry) {
  const double k = 0.55228475; double dx = rx * k, dy = ry * k;
  return {M(cx + rx, cy), Cc(cx + rx, cy + dy, cx + dx, cy + ry, cx, cy + ry), Cc(cx - dx, cy + ry, cx - rx, cy + dy, cx - rx, cy),
          Cc(cx - rx, cy - dy, cx - dx, cy - ry, cx, cy - ry), Cc(cx + dx, cy - ry, cx + rx, cy - dy, cx + rx, cy)};
}
inline Pth g_circle(Rng& r) { double a = r.real(5, 45); return ellipse(r.real(0, 100), r.real(0, 100), a, r.coin(.7) ? a : r.real(5, 45)); }
inline Pth g_mixed(Rng& r) {
  int n = r.in(2, 5); Pth p{M(r.real(0, 100), r.real(0, 100))};
  for (int i = 0; i < n; ++i) if (r.coin()) p.push_back(L(r.real(0, 100), r.real(0, 100))); else p.push_back(Cc(r.real(0, 100), r.real(0, 100), r.real(0, 100), r.real(0, 100), r.real(0, 100), r.real(0, 100)));
  return p;
}
inline Pth g_blob(Rng& r) { // smooth closed curve through a star of points
  int n = r.in(3, 8); double cx = r.real(25, 75), cy = r.real(25, 75); std::vector<geo::P2> v;
  for (int i = 0; i < n; ++i) { double a = 2 * M_PI * (i + r.real(0, .7)) / n, d = r.real(10, 45); v.push_back({cx + d * cos(a), cy + d * sin(a)}); }
  Pth p{M(v[0].x, v[0].y)};
  for (int i = 0; i < n; ++i) {
    auto &a = v[(i + n - 1) % n], &b = v[i], &c = v[(i + 1) % n], &d = v[(i + 2) % n];
    p.push_back(Cc(b.x + (c.x - a.x) / 6, b.y + (c.y - a.y) / 6, c.x - (d.x - b.x) / 6, c.y - (d.y - b.y) / 6, c.x, c.y));
  }
  return p;
}
inline El quad(geo::P2 a, geo::P2 q, geo::P2 b) { return Cc(a.x + 2 * (q.x - a.x) / 3, a.y + 2 * (q.y - a.y) / 3, b.x + 2 * (q.x - b.x) / 3, b.y + 2 * (q.y - b.y) / 3, b.x, b.y); }
inline Pth g_quads(Rng& r) { // degree elevated quadratics, lines as cubics, horizontal curves
  int n = r.in(2, 5); geo::P2 a{r.real(0, 100), r.real(0, 100)}; Pth p{M(a.x, a.y)};
  for (int i = 0; i < n; ++i) {
    geo::P2 b{r.real(0, 100), r.real(0, 100)}; int k = r.in(0, 9);
    if (k < 5) p.push_back(quad(a, {r.real(0, 100), r.real(0, 100)}, b));
    else if (k < 7) p.push_back(Cc(a.x + (b.x - a.x) / 3, a.y + (b.y - a.y) / 3, a.x + (b.x - a.x) * 2 / 3, a.y + (b.y - a.y) * 2 / 3, b.x, b.y));
    else if (k < 9) { b.y = a.y; p.push_back(Cc(a.x + (b.x - a.x) / 3, a.y, a.x + (b.x - a.x) * 2 / 3, a.y, b.x, a.y)); }
    else p.push_back(L(b.x, b.y));
    a = b;
  }
  return p;
}
inline Pth g_capsule(Rng& r) { // lines joined with arcs, horizontal edges
  double x = r.real(0, 60), y = r.real(10, 80), w = r.real(5, 40), h = r.real(3, 20), k = h * 0.55228475;
  return {M(x, y - h), L(x + w, y - h), Cc(x + w + k, y - h, x + w + h, y - k, x + w + h, y), Cc(x + w + h, y + k, x + w + k, y + h, x + w, y + h), L(x, y + h), Cc(x - k, y + h, x - h, y + k, x - h, y), Cc(x - h, y - k, x - k, y - h, x, y - h)};
}
// a point exactly on one of the curves, at an eighth of its parameter
inline bool on_curve(Rng& r, const std::vector<Pth>& ps, double& x, double& y) {
  std::vector<std::pair<geo::P2, const El*>> cs; for (auto& p : ps) for (size_t i = 1; i < p.size(); ++i) if (p[i].t == 'c') cs.push_back({endp(p[i - 1]), &p[i]});
  if (cs.empty()) return false; auto& c = cs[r.next() % cs.size()]; double t = r.in(1, 7) / 8.0, k = 1 - t; const double* v = c.second->v;
  x = k * k * k * (double)c.first.x + 3 * k * k * t * v[0] + 3 * k * t * t * v[2] + t * t * t * v[4]; y = k * k * k * (double)c.first.y + 3 * k * k * t * v[1] + 3 * k * t * t * v[3] + t * t * t * v[5]; return true;
}
inline Pth g_gridcurve(Rng& r, int m, const std::vector<Pth>& others) { // curves and lines on a small grid: flat control legs, common heights, equal control points
  int n = r.in(1, 4); double sx = r.in(0, m), sy = r.in(0, m); if (r.coin(.2)) on_curve(r, others, sx, sy); Pth p{M(sx, sy)};
  for (int i = 0; i < n; ++i) {
    geo::P2 a = endp(p.back()); double x = r.in(0, m), y = r.in(0, m); if (r.coin(.2)) on_curve(r, others, x, y);
    if (n > 1 && r.coin(.35)) { p.push_back(L(x, y)); continue; }
    double v[4] = {(double)r.in(0, m), (double)r.in(0, m), (double)r.in(0, m), (double)r.in(0, m)};
    if (r.coin(.25)) v[1] = a.y; if (r.coin(.25)) v[3] = y; if (r.coin(.2)) v[0] = a.x; if (r.coin(.2)) v[2] = x; if (r.coin(.15)) y = a.y;
    p.push_back(Cc(v[0], v[1], v[2], v[3], x, y));
  }
  return p;
}
// flat arches: curves that rise little over their chord, level, upright or sloping
inline Pth g_arch(Rng& r) {
  int n = r.in(2, 4); geo::P2 a{r.real(0, 100), r.real(0, 100)}; Pth p{M(a.x, a.y)};
  for (int i = 0; i < n; ++i) {
    geo::P2 b{r.real(0, 100), r.real(0, 100)}; int k = r.in(0, 3); if (k == 0) b.y = a.y; if (k == 1) b.x = a.x;
    if (r.coin(.3)) { p.push_back(L(b.x, b.y)); a = b; continue; }
    double h = std::pow(10.0, -r.real(.3, 3.5)) * (r.coin() ? 1 : -1), h2 = r.coin(.6) ? h : r.coin() ? -h : 0, u = r.coin() ? .3 : r.real(.1, .5), v = r.coin() ? 1 - u : r.real(.5, .9), dx = b.x - a.x, dy = b.y - a.y;
    p.push_back(Cc(a.x + dx * u - dy * h, a.y + dy * u + dx * h, a.x + dx * v - dy * h2, a.y + dy * v + dx * h2, b.x, b.y)); a = b;
  }
  return p;
}
// other curves between the same points: a control point moved, exchanged or taken from the other curve
inline Pth g_related(Rng& r, const std::vector<Pth>& others) {
  std::vector<const Pth*> cs; for (auto& q : others) for (size_t i = 1; i < q.size(); ++i) if (q[i].t == 'c') { cs.push_back(&q); break; }
  if (cs.empty()) return g_mixed(r);
  Pth p = *cs[r.next() % cs.size()]; double w = 0; for (auto& e : p) w = std::max(w, std::max(std::fabs(e.v[0]), std::fabs(e.v[1]))); if (!(w > 0)) w = 1;
  for (auto& e : p) if (e.t == 'c') { int k = r.coin(.1) ? 1 : r.pick(std::vector<int>{0, 0, 2, 2, 3, 4, 5}), j = r.in(0, 1) * 2; auto rnd = [&] { double q = r.real(0, w); return w <= 16 ? std::floor(q) : q; };
    if (k == 0) { std::swap(e.v[0], e.v[2]); std::swap(e.v[1], e.v[3]); }
    else if (k == 1) { e.v[j] = rnd(); e.v[j + 1] = rnd(); }
    else if (k == 2) { e.v[2 - j] = e.v[j]; e.v[3 - j] = e.v[j + 1]; e.v[j] = rnd(); e.v[j + 1] = rnd(); }
    else if (k == 3) { e.v[0] = e.v[2] = rnd(); e.v[1] = e.v[3] = rnd(); }
    else if (k == 4) e = L(e.v[4], e.v[5]); }
  return p;
}
// random spelling of the same set of contours: start vertex, direction, explicit
// closing, repeated points, several contours in one path, order
inline void spell(Rng& r, std::vector<Pth>& ps, bool reverse = true) {
  for (auto& p : ps) {
    if (r.coin(.3)) p = rotated(p, r.in(0, 7));
    if (reverse && r.coin(.35)) p = reversed(closed(p));
    if (r.coin(.25)) p = closed(p);
    if (r.coin(.1)) { size_t k = r.next() % p.size(); geo::P2 e = endp(p[k]); p.insert(p.begin() + k + 1, L(e.x, e.y)); }
  }
  if (ps.size() > 1 && r.coin(.2)) { Pth a = ps.back(); ps.pop_back(); ps.back().insert(ps.back().end(), a.begin(), a.end()); }
  if (r.coin(.04)) ps.push_back({M(r.in(0, 9), r.in(0, 9))});                                   // lone point
  if (r.coin(.04)) ps.push_back({M(r.in(0, 9), 4), L(r.in(0, 9), 4), L(r.in(0, 9), 4)});        // flat path
}
enum { F_real, F_star, F_int, F_near, F_big, F_comb, F_grid, F_recti, F_octi, F_same, F_curve, F_circle, F_mixed, F_blob, F_quad, F_capsule, F_samecurve, F_icircle, F_rcomb, F_gridcurve, F_arch };
inline Pth one(Rng& r, int fam, const std::vector<Pth>& others) {
  switch (fam) {
  case F_real: return g_real(r);
  case F_star: return g_star(r);
  case F_int: return g_int(r, 1000);
  case F_near: return r.coin(.4) ? g_star(r) : g_near(r, others);
  case F_big: return r.coin(.3) ? g_int(r, 1000, 24) : g_star(r, 60);
  case F_comb: return g_comb(r, true);
  case F_rcomb: return g_comb(r, false);
  case F_grid: return g_int(r, 8, 7);
  case F_recti: return r.coin() ? g_rect(r, 12) : g_recti(r, 10);
  case F_octi: return g_octi(r, 8);
  case F_curve: return g_cubics(r);
  case F_circle: return g_circle(r);
  case F_mixed: return g_mixed(r);
  case F_blob: return g_blob(r);
  case F_quad: return g_quads(r);
  case F_capsule: return g_capsule(r);
  case F_gridcurve: return g_gridcurve(r, 10, others);
  case F_arch: return g_arch(r);
  case F_icircle: { int a = r.in(1, 6); return ellipse(r.in(0, 12), r.in(0, 12), a, a); }
  }
  return g_real(r);
}
}
