// C17: whatever the input, the library neither crashes nor reads or writes outside its memory, and it comes to an end.
// Runs under AddressSanitizer, UndefinedBehaviorSanitizer and the checked standard library.
#include "cases.h"
#include "rmath.h"
using namespace cases; using pbt::fmt; using rmath::vec2; using rmath::bezier_cubic;

static double nudge(Rng& r, double v) { int k = r.in(1, 4); for (int i = 0; i < k; ++i) v = std::nextafter(v, r.coin() ? 1e300 : -1e300); return v; }
// lines only: coordinates from a small pool and their neighbours, wild magnitudes
static Pth wild_poly(Rng& r, std::vector<geo::P2>& pool, int mode) {
  Pth p; int n = r.in(0, 7);
  for (int i = 0; i <= n; ++i) {
    geo::P2 q;
    if (!pool.empty() && r.coin(.6)) { q = pool[r.next() % pool.size()]; if (r.coin(.3)) q.x = pool[r.next() % pool.size()].x; if (r.coin(.3)) q.y = pool[r.next() % pool.size()].y; }
    else if (mode == 0) q = {(double)r.in(0, 5), (double)r.in(0, 5)};
    else if (mode == 1) q = {r.real(0, 10), r.real(0, 10)};
    else q = {std::ldexp(r.real(-1, 1), r.in(-40, 40)), std::ldexp(r.real(-1, 1), r.in(-40, 40))};
    if (r.coin(.3)) q.x = nudge(r, q.x); if (r.coin(.3)) q.y = nudge(r, q.y);
    if (r.coin(.1) && pool.size() > 1) { auto &a = pool[r.next() % pool.size()], &b = pool[r.next() % pool.size()]; double f = r.in(1, 3) / 4.0; q = {a.x + (b.x - a.x) * f, a.y + (b.y - a.y) * f}; }
    pool.push_back(q); p.push_back(i == 0 || r.coin(.08) ? M(q.x, q.y) : L(q.x, q.y));
  }
  return p;
}
static Case gen_safe(Rng& r) {
  Case c; int kind = r.in(0, 3); c.I = {kind, r.in(0, 4), r.in(0, 3), 0};
  if (kind == 0) { // text
    static const char al[] = "mlac mlac 0123456789.+-eE \n\t"; int n = r.in(0, 120);
    for (int i = 0; i < n; ++i) c.T += r.coin(.03) ? (char)r.in(1, 255) : al[r.in(0, (int)sizeof al - 2)];
    if (r.coin(.5)) { c.T = "m 0 0 "; int m = r.in(1, 12); for (int i = 0; i < m; ++i) { char k = "mlllac"[r.in(0, 5)]; c.T += k; int q = k == 'a' ? 4 : k == 'c' ? 6 : 2; for (int j = 0; j < q; ++j) c.T += fmt(" %d", r.in(-9, 9)); c.T += ' '; } if (r.coin(.4)) c.T[r.next() % c.T.size()] = (char)r.in(1, 255); }
  } else if (kind == 1) {
    std::vector<geo::P2> pool; int mode = r.in(0, 2), n = r.in(1, 3), m = r.in(0, 3); for (int i = 0; i < n; ++i) c.S.push_back(wild_poly(r, pool, mode)); for (int i = 0; i < m; ++i) c.C.push_back(wild_poly(r, pool, mode));
    if (r.coin(.3)) { double s = std::ldexp(1, r.in(-30, 30)); for (auto* v : {&c.S, &c.C}) map_xy(*v, [&](double& x, double& y) { x *= s; y *= s; }); }
  } else if (kind == 2) { Case q = gen_any(r, .5); c.S = q.S; c.C = q.C; c.I[1] = q.I[0]; c.I[2] = q.I[1]; // ordinary cases, several runs
    if (r.coin(.25)) for (auto* v : {&c.S, &c.C}) for (auto& p : *v) if (r.coin(.6)) { // contours of very different size
      double f = std::ldexp(1, r.coin(.8) ? r.in(-60, 0) : r.in(0, 30)); geo::P2 o = r.coin() ? geo::P2{0, 0} : endp(p[r.next() % p.size()]); std::vector<Pth> t{p}; map_xy(t, [&](double& x, double& y) { x = o.x + (x - o.x) * f; y = o.y + (y - o.y) * f; }); p = t[0]; }
    if (r.coin(.3)) for (auto* v : {&c.S, &c.C}) for (auto& p : *v) for (auto& e : p) if (r.coin(.15)) { if (e.t == 'c') { int a = r.in(0, 1), b = r.in(1, 2); e.v[2 * a] = e.v[2 * b]; e.v[2 * a + 1] = e.v[2 * b + 1]; } }
  } else { int n = 16; int mode = r.in(0, 3); for (int i = 0; i < n; ++i) { double v = mode == 0 ? r.in(-3, 3) : mode == 1 ? r.real(-10, 10) : std::ldexp(r.real(-1, 1), r.in(-60, 60)); if (!c.D.empty() && r.coin(.3)) v = c.D[r.next() % c.D.size()]; if (r.coin(.2)) v = nudge(r, v); c.D.push_back(v); }
    if (mode == 3) { // nearly collinear or nearly coincident segments
      double x = r.real(-9, 9), y = r.real(-9, 9), dx = r.coin(.2) ? 0 : r.real(-9, 9), dy = r.coin(.2) ? 0 : r.real(-9, 9); for (int i = 0; i < 4; ++i) { double f = r.in(0, 3); c.D[2 * i] = nudge(r, x + f * dx); c.D[2 * i + 1] = nudge(r, y + f * dy); } } }
  return c;
}
static void everything(const river::paths& S, const river::paths& C, int op, int rule) {
  river::processor pr; pr.add_path(S, river::path_type::subject); pr.add_path(C, river::path_type::clip);
  for (int k = 0; k < 2; ++k) { river::paths o; pr.process((river::clip_type)op, (river::fill_rule)rule, o); op = (op + 1 + k) % 5; rule = (rule + k) % 4; }
}
static Res chk_safe(const Case& c) {
  if (c.I.size() < 4) return Res::Discard(); bool nt = true; int kind = c.I[0];
  if (kind == 0) {
    if (c.T.find('\0') != std::string::npos) return Res::Discard();
    river::paths p = river::make_path(c.T.c_str()); nt = !p.empty(); size_t n = 0; bool curves = false;
    for (auto& q : p) { n += q.data.size(); for (double x : q.data) if (!std::isfinite(x) || fabs(x) > 1e15) return Res::Ok(nt, 1); q.traverse(river::path_traverse_funcs{}, nullptr); for (auto t : q.element_types) curves |= (int)t == 2 || (int)t == 3; }
    if (n < 400 && !curves) everything(p, river::paths(), c.I[1], c.I[2]);
  } else if (kind == 1 || kind == 2) {
    if (!valid_case(c) || (kind == 1 && (has_curve(c.S) || has_curve(c.C)))) return Res::Discard();
    if (kind == 2 && !curves_apart_by(c, true)) return Res::Discard();
    everything(to_paths(c.S), to_paths(c.C), c.I[1], c.I[2]);
  } else {
    if (c.D.size() != 16) return Res::Discard(); auto& d = c.D; for (double x : d) if (!std::isfinite(x) || fabs(x) > 1e30) return Res::Discard();
    vec2 v[8]; for (int i = 0; i < 8; ++i) v[i] = vec2(d[2 * i], d[2 * i + 1]);
    auto ll = rmath::intersect(v[0], v[1], v[2], v[3]); if (ll.count < 0 || ll.count > 2) return Res::Fail(fmt("%d intersections of two segments", ll.count));
    bezier_cubic b{v[0], v[1], v[2], v[3]}; rmath::line l{v[4], v[5]}; auto lc = rmath::intersect(l, b); if (lc.count < 0 || lc.count > 3) return Res::Fail(fmt("%d intersections of a segment and a curve", lc.count));
    auto q = rmath::resolv_quad_equa(d[0], d[1], d[2]); if (q.count < 0 || q.count > 2) return Res::Fail("roots of a quadratic"); auto k = rmath::resolv_cubic_equa(d[0], d[1], d[2], d[3]); if (k.count < 0 || k.count > 3) return Res::Fail("roots of a cubic");
    auto y = b.point_at_y(d[9]); if (y.count < 0 || y.count > 3) return Res::Fail("parameters at a height"); double t[2]; int n = b.split_y(t, t + 1); if (n < 0 || n > 2) return Res::Fail("extrema"); b.get_boundary();
    bezier_cubic out[4]; double ts[3] = {.25, .5, .75}; b.split(ts, out, 3); b.split(d[10], out, out + 1); bezier_cubic::circle(v[0], d[3], out); rmath::arc a(v[0], v[1], d[4]); a.reverse(); rmath::clamp_0_2pi(d[5]); rmath::dist2_point_line(v[0], v[1], v[2]); rmath::point_project_in_segment(v[0], v[1], v[2]); double A, B, C; l.general_from(&A, &B, &C);
  }
  return Res::Ok(nt, 1u << kind);
}
static bool apart(const Case& c) { return c.I.size() && c.I[0] == 2 ? curves_apart_by(c, true) : true; }
static Reg r17([] { Prop p; p.id = "C17"; p.gen = gen_safe; p.check = chk_safe; p.quick = 150000; p.thorough = 6000000; p.hang_s = 60; p.mem_mb = 0; p.domain = apart; p.labels = {"texts", "hostile polygons", "ordinary cases and damaged curves", "functions"};
  p.assumptions = {"paths begin with a moveto and have finite coordinates up to 1e15; curves that run along each other without being equal are excluded"};
  p.rule = "arbitrary texts; polygons whose coordinates are drawn from a few values and their floating point neighbours over 80 binary orders of magnitude; the cases of C01-C03, also with damaged control points; the mathematical functions on arbitrary finite numbers. Oracle: sanitizers, checked containers, documented result capacities, and a limit of 60 CPU seconds per case. Non-trivial: anything but a text without a path."; return p; }());
