// The region property on three domains, and on large inputs.
#include "cases.h"
using namespace cases;

static Res chk_region(const Case& c) {
  if (!valid_case(c)) return Res::Discard();
  Region S = geo::region(c.S), C = geo::region(c.C);
  Out o = run(c.S, c.C, c.I[0], c.I[1]);
  double tol = tolerance(S, C, c.I[3]);
  Res r = region_check(S, C, o, c.I[0], c.I[1], tol);
  if (r.kind == Res::ok) r.labels = labels(c, r.nontrivial);
  return r;
}
// many segments: rows of small shapes, long stars, dense random polygons
static Case gen_large(Rng& r) {
  Case c; pick_op(r, c); c.I.push_back(F_big); int kind = r.coin(.02) ? 6 : r.coin(.05) ? 7 : r.coin(.02) ? 8 : r.in(0, 5);
  bool grid = false;
  auto rows = [&](std::vector<Pth>& v, double dx, double dy, bool curves) {
    int nx = r.in(3, 10), ny = r.in(3, 10);
    for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) {
      double x = i * 10 + dx, y = j * 10 + dy, a = grid ? r.in(2, 6) : r.real(2, 6);
      if (r.coin(.1)) continue;
      if (curves && r.coin(.5)) v.push_back(ellipse(x, y, a, r.real(2, 6)));
      else if (grid) v.push_back(poly({{x - a, y}, {x, y - a}, {x + a, y}, {x, y + a}}));
      else v.push_back(poly({{x - a, y + r.real(-1, 1)}, {x + r.real(-1, 1), y - a}, {x + a, y + r.real(-1, 1)}, {x + r.real(-1, 1), y + a}}));
    }
  };
  if (kind == 0) { grid = true; rows(c.S, 0, 0, false); rows(c.C, r.in(0, 5), r.in(0, 5), false); c.I.push_back(0); }
  else if (kind == 1) { rows(c.S, 0, 0, false); rows(c.C, r.real(0, 9), r.real(0, 9), false); c.I.push_back(1); }
  else if (kind == 2) { rows(c.S, 0, 0, true); rows(c.C, r.real(0, 9), r.real(0, 9), true); c.I.push_back(2); }
  else if (kind == 3) { c.S = {g_star(r, 250)}; c.C = {g_star(r, 250)}; c.I.push_back(1); }
  else if (kind == 4) { // long thin strips crossing each other
    int n = r.in(5, 25), m = r.in(5, 25);
    for (int i = 0; i < n; ++i) { double y = i * 4 + r.real(0, 1); c.S.push_back(poly({{0, y}, {100, y + r.real(-3, 3)}, {100, y + 4}, {0, y + r.real(1, 2)}})); }
    for (int i = 0; i < m; ++i) { double x = i * 4 + r.real(0, 1); c.C.push_back(poly({{x, -1}, {x + r.real(-3, 3), 105}, {x + 4, 104}, {x + r.real(1, 2), -2}})); }
    c.I.push_back(1);
  } else if (kind == 6) { // deep nesting: winding numbers in the hundreds
    int n = r.in(100, 450); double x = 0; bool rev = r.coin(.4);
    for (int i = 0; i < n; ++i) { x += r.coin(.3) ? r.in(1, 2) : 1; Pth p = poly({{x, x}, {2000 - x, x}, {2000 - x, 2000 - x}, {x, 2000 - x}}); if (rev) p = reversed(closed(p)); (r.coin(.8) ? c.S : c.C).push_back(p); }
    c.I.push_back(0);
  } else if (kind == 7) { // many edges crossing in one scan beam: two fans of long thin triangles
    int n = r.in(15, 60); for (int i = 0; i < n; ++i) { double a = r.real(0, 1000), b = r.real(0, 1000); (r.coin() ? c.S : c.C).push_back(poly({{a, 0}, {a + r.real(1, 20), r.coin() ? 0 : r.real(0, 20)}, {b, 1000}})); }
    c.I.push_back(1);
  } else if (kind == 8) { // many bars over one another, crossed by a few strips
    int n = r.coin(.3) ? r.in(150, 400) : r.in(40, 150), m = r.in(1, 4); bool up = r.coin(), whole = r.coin();
    for (int i = 0; i < n; ++i) { double y = i * 3, a = r.in(0, 3), b = 100 - r.in(0, 3), h = r.in(1, 2); c.S.push_back(whole ? poly({{a, y}, {b, y}, {b, y + h}, {a, y + h}}) : poly({{a, y}, {b, y + r.real(-.4, .4)}, {b, y + h}, {a, y + h + r.real(-.4, .4)}})); }
    for (int i = 0; i < m; ++i) { double x = 10 + i * 20 + r.in(0, 4), w = r.in(1, 9), lo = r.coin(.3) ? 3 * r.in(0, n / 2) : -7, hi = 3 * n + 7, d = whole ? 0 : r.real(-4, 4); c.C.push_back(poly({{x, lo}, {x + w, lo}, {x + w + d, hi}, {x + d, hi}})); }
    if (up) for (auto* v : {&c.S, &c.C}) map_xy(*v, [](double& x, double& y) { std::swap(x, y); });
    c.I.push_back(whole ? 0 : 1);
  } else { int n = r.in(10, 40); std::vector<geo::P2> v; for (int i = 0; i < n; ++i) v.push_back({r.real(0, 100), r.real(0, 100)}); c.S = {poly(v)}; c.C = {g_star(r, 100)}; c.I.push_back(1); }
  for (auto* v : {&c.S, &c.C}) if (r.coin()) for (size_t i = v->size(); i > 1; --i) std::swap((*v)[i - 1], (*v)[r.next() % i]);
  if (r.coin(.3)) spell(r, c.S);
  if (r.coin(.1)) std::swap(c.S, c.C);
  if (r.coin(.3)) { double s = std::ldexp(1.0, r.in(-40, 30)); for (auto* v : {&c.S, &c.C}) map_xy(*v, [&](double& x, double& y) { x *= s; y *= s; }); }
  return c;
}
static Res chk_large(const Case& c) {
  Res r = chk_region(c);
  if (r.kind == Res::ok) { size_t n = 0; for (auto* v : {&c.S, &c.C}) for (auto& p : *v) n += p.size(); r.nontrivial = r.nontrivial && n >= 60; }
  return r;
}
static const char* kCase = "1-4 contours each for subject and clip, random start vertex, direction, explicit or implicit closing, repeated points, several contours per path, lone points, random scale and offset; operation and fill rule uniform. ";
static Reg r1([] { Prop p; p.id = "C01"; guard(p); p.gen = gen_poly; p.check = chk_region; p.quick = 250000; p.thorough = 12000000;
  p.rule = std::string("straight-edged contours with real coordinates: random, star, 1000-grid, vertices near another boundary, up to 60 vertices. ") + kCase + "Non-trivial: some probe point lies inside the expected result."; return p; }());
static Reg r2([] { Prop p; p.id = "C02"; guard(p); p.gen = gen_grid; p.check = chk_region; p.quick = 400000; p.thorough = 20000000; p.near_rate = 0;
  p.rule = std::string("degenerate straight-edged contours: integer grid 0..8, rectilinear, octilinear, combs on common scan lines, shared and repeated contours, scaled by powers of two. ") + kCase + "Non-trivial: some probe point lies inside the expected result."; p.jitter = nullptr; p.domain = nullptr; return p; }());
static Reg r3([] { Prop p; p.id = "C03"; guard(p); p.gen = gen_curve; p.check = chk_region; p.quick = 120000; p.thorough = 6000000;
  p.rule = std::string("contours of cubic Beziers and lines: random, circles and ellipses, smooth blobs, degree-elevated quadratics and lines, capsules, contours shared between subject and clip. ") + kCase + "Non-trivial: some probe point lies inside the expected result."; return p; }());
static Reg r19([] { Prop p; p.id = "C19"; guard(p); p.gen = gen_large; p.check = chk_large; p.quick = 30000; p.thorough = 1500000; p.hang_s = 60;
  p.rule = "lattices of diamonds and ellipses, crossing strips, fans of long thin triangles, up to 400 bars crossed by strips, up to 450 contours nested in each other, stars with up to 250 and random polygons with up to 40 vertices. Non-trivial: at least 60 path elements and some probe point inside the expected result."; return p; }());
