// Form of the output: protocol, winding, provenance of its segments, areas.
#include "cases.h"
using namespace cases;
using geo::ld; using geo::Seg;

// ---- C04
static Res chk_form(const Case& c) {
  if (!valid_case(c)) return Res::Discard();
  Region S = geo::region(c.S), C = geo::region(c.C);
  river::processor pr;
  pr.add_path(to_paths(c.S), river::path_type::subject);
  pr.add_path(to_paths(c.C), river::path_type::clip);
  Out o;
  if (c.I[4]) { pr.process((river::clip_type)c.I[0], (river::fill_rule)c.I[1], writer(), &o); finish(o); }
  else {
    river::paths ps; pr.process((river::clip_type)c.I[0], (river::fill_rule)c.I[1], ps);
    for (auto& p : ps) if (p.element_types.empty()) return Res::Fail("empty path in the output");
    o = from_paths(ps);
    if (o.raw.size() != ps.size()) return Res::Fail(pbt::fmt("%zu output paths hold %zu contours", ps.size(), o.raw.size()));
  }
  if (!o.err.empty()) return Res::Fail(o.err);
  if (c.I[0] == 0 && !o.raw.empty()) return Res::Fail("clip_type::none produces output");
  double tol = tolerance(S, C, c.I[3]);
  geo::Ext e, q; geo::extend(e, S); geo::extend(e, C); geo::extend(q, o.R);
  if (!o.raw.empty()) for (int k = 0; k < 2; ++k) { // curve control points may lie outside, but only inside the hull of the input's
    if (q.lo[k] < e.lo[k] - tol || q.hi[k] > e.hi[k] + tol) return Res::Fail("output leaves the bounding box of the input");
  }
  int want = c.I[1] == 3 ? -1 : 1;
  auto v = geo::sweep({&S, &C, &o.R}, tol, 3, [&](const int* w, bool& in) { in = w[2] != 0; return w[2] == 0 || w[2] == want; }, 0);
  if (v.bad) return Res::Fail(pbt::fmt("%s/%s: output winding at (%.12Lg, %.12Lg) is %d: contours overlap or have the wrong orientation", opname(c.I[0]), rulename(c.I[1]), v.x, v.y, v.w[2]));
  return Res::Ok(v.want > 0, labels(c, v.want > 0));
}
static Case gen_form(Rng& r) { Case c = gen_any(r); c.I.push_back(r.in(0, 1)); return c; }
static Reg r4([] { Prop p; p.id = "C04"; guard(p); p.gen = gen_form; p.check = chk_form; p.quick = 200000; p.thorough = 10000000;
  p.rule = "cases of C01, C02 and C03 (35/40/25 %), results taken through paths or through callbacks. Checked: moveto first, every segment starts where the last one ended, every contour ends exactly where it began and has at least two segments, coordinates finite and inside the input's box, winding of the output 0 or +1 (0 or -1 for the negative rule) at every probe, none gives nothing. Non-trivial: some probe point inside the output."; return p; }());

// ---- C05
static bool straight(const Seg& s, ld tol) { // all control points on one line, possibly turning back on it
  if (s.deg == 1) return true;
  int i = 0, j = 3; ld far = -1;
  for (int a = 0; a < 4; ++a) for (int b = a + 1; b < 4; ++b) { ld d = hypotl((ld)s.p[a].x - s.p[b].x, (ld)s.p[a].y - s.p[b].y); if (d > far) { far = d; i = a; j = b; } }
  Seg l{1, {s.p[i], s.p[j]}}; for (int k = 0; k < 4; ++k) if (geo::dist_seg(l, s.p[k].x, s.p[k].y) > tol) return false;
  return true;
}
static void params(const Seg& s, P2 p, ld tol, std::vector<ld>& out, int n) { // parameters of s at which it passes p
  std::vector<ld> d(n + 1);
  auto f = [&](ld t) { return hypotl(geo::bz(s, t, 0) - p.x, geo::bz(s, t, 1) - p.y); };
  for (int i = 0; i <= n; ++i) d[i] = f((ld)i / n);
  for (int i = 0; i <= n; ++i) if ((i == 0 || d[i] <= d[i - 1]) && (i == n || d[i] <= d[i + 1])) {
    ld lo = std::max(0, i - 1) / (ld)n, hi = std::min(n, i + 1) / (ld)n;
    for (int k = 0; k < 70; ++k) { ld a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3; if (f(a) <= f(b)) hi = b; else lo = a; }
    ld t = (lo + hi) / 2; for (ld e : {(ld)0, (ld)1}) if (fabsl(t - e) < 1e-3L && f(e) < f(t)) t = e;
    if (f(t) <= tol) out.push_back(t);
  }
}
static bool sub_arc(const Seg& in, const Seg& o, ld tol, ld ctol, int n) {
  std::vector<ld> a, b; params(in, o.p[0], tol, a, n); if (a.empty()) return false; params(in, o.p[3], tol, b, n);
  for (ld t0 : a) for (ld t1 : b) {
    auto blossom = [&](ld u, ld v, ld w, int c) { ld g[4]; for (int i = 0; i < 4; ++i) g[i] = c ? in.p[i].y : in.p[i].x; ld x[3], y[2]; for (int i = 0; i < 3; ++i) x[i] = g[i] + (g[i + 1] - g[i]) * u; for (int i = 0; i < 2; ++i) y[i] = x[i] + (x[i + 1] - x[i]) * v; return y[0] + (y[1] - y[0]) * w; };
    if (hypotl(blossom(t0, t0, t1, 0) - o.p[1].x, blossom(t0, t0, t1, 1) - o.p[1].y) <= ctol && hypotl(blossom(t0, t1, t1, 0) - o.p[2].x, blossom(t0, t1, t1, 1) - o.p[2].y) <= ctol) return true;
  }
  return false;
}
static Res chk_origin(const Case& c) {
  if (!valid_case(c)) return Res::Discard();
  Region S = geo::region(c.S), C = geo::region(c.C);
  Out o = run(c.S, c.C, c.I[0], c.I[1]);
  geo::Ext e; geo::extend(e, S); geo::extend(e, C);
  ld tol = tolerance(S, C, c.I[3]), ctol = 1e-4L * e.size();
  std::vector<const Seg*> lines, curves;
  for (auto* R : {&S, &C}) for (auto& r : *R) for (auto& s : r.segs) { if (s.deg == 3) curves.push_back(&s); if (straight(s, tol)) lines.push_back(&s); }
  long n = 0, nc = 0;
  for (auto& r : o.R) for (auto& s : r.segs) {
    if (s.deg == 3) {
      bool ok = false; for (int n : {128, 2048}) for (auto* k : curves) if (!ok && sub_arc(*k, s, tol * 2, ctol, n)) ok = true;
      if (!ok) return Res::Fail(pbt::fmt("%s/%s: output curve from (%.12g,%.12g) to (%.12g,%.12g) is not a piece of an input curve", opname(c.I[0]), rulename(c.I[1]), s.p[0].x, s.p[0].y, s.p[3].x, s.p[3].y));
      ++nc;
    } else {
      ld len = hypotl(s.p[1].x - s.p[0].x, s.p[1].y - s.p[0].y);
      if (len <= ctol) continue;
      for (int i = 0; i <= 8; ++i) {
        ld x = geo::bz(s, i / 8.0L, 0), y = geo::bz(s, i / 8.0L, 1); bool ok = false;
        for (auto* k : lines) if (geo::dist_seg(*k, x, y) <= tol * 2) { ok = true; break; }
        if (!ok) return Res::Fail(pbt::fmt("%s/%s: point (%.12Lg,%.12Lg) of the output line (%.12g,%.12g)-(%.12g,%.12g) lies on no straight input segment", opname(c.I[0]), rulename(c.I[1]), x, y, s.p[0].x, s.p[0].y, s.p[1].x, s.p[1].y));
      }
    }
    ++n;
  }
  return Res::Ok(n > 2, (labels(c, n > 0) & ~(1u << 12)) | (nc ? 1u << 12 : 0));
}
static Reg r5([] { Prop p; p.id = "C05"; guard(p); p.gen = [](Rng& r) { return gen_any(r, .5, .2); }; p.check = chk_origin; p.quick = 100000; p.thorough = 5000000;
  p.rule = "cases of C03, C01 and C02 (50/30/20 %). Every output line is sampled at 9 points, each must lie on a straight input segment; for every output curve an input curve and two parameters are searched whose sub-arc has the same end and control points (1e-4 of the size). Non-trivial: more than two output segments; class 'has curves' counts results with curves."; return p; }());

// ---- C20
static ld area(const Region& R, P2 o) {
  static const ld gx[3] = {0.5L - 0.38729833462074168852L, 0.5L, 0.5L + 0.38729833462074168852L}, gw[3] = {5.0L / 18, 8.0L / 18, 5.0L / 18};
  ld a = 0;
  for (auto& r : R) for (auto& s : r.segs) {
    auto X = [&](int i) -> ld { return (ld)s.p[i].x - o.x; }; auto Y = [&](int i) -> ld { return (ld)s.p[i].y - o.y; };
    if (s.deg == 1) a += (X(0) * Y(1) - X(1) * Y(0)) / 2;
    else for (int i = 0; i < 3; ++i) {
      ld t = gx[i], k = 1 - t;
      ld x = X(0)*k*k*k + 3*X(1)*k*k*t + 3*X(2)*k*t*t + X(3)*t*t*t, y = Y(0)*k*k*k + 3*Y(1)*k*k*t + 3*Y(2)*k*t*t + Y(3)*t*t*t;
      ld dx = 3*((X(1)-X(0))*k*k + 2*(X(2)-X(1))*k*t + (X(3)-X(2))*t*t), dy = 3*((Y(1)-Y(0))*k*k + 2*(Y(2)-Y(1))*k*t + (Y(3)-Y(2))*t*t);
      a += gw[i] * (x * dy - y * dx) / 2;
    }
  }
  return a;
}
static ld length(const Region& R) { ld l = 0; for (auto& r : R) for (auto& s : r.segs) for (int i = 0; i < s.deg; ++i) l += hypotl(s.p[i + 1].x - s.p[i].x, s.p[i + 1].y - s.p[i].y); return l; }
static Res chk_area(const Case& c) {
  if (!valid_case(c)) return Res::Discard();
  Region S = geo::region(c.S), C = geo::region(c.C);
  geo::Ext e; geo::extend(e, S); geo::extend(e, C); P2 mid{(e.lo[0] + e.hi[0]) / 2, (e.lo[1] + e.hi[1]) / 2}; if (e.size() <= 0) return Res::Ok(false);
  ld tol = tolerance(S, C, c.I[3]) * (length(S) + length(C)) + 1e-12L * e.size() * e.mag();
  int rule = c.I[1]; ld sg = rule == 3 ? -1 : 1;
  auto A = [&](const std::vector<Pth>& s, const std::vector<Pth>& k, int op) { return sg * area(run(s, k, op, rule).R, mid); };
  std::vector<Pth> none;
  ld a = A(c.S, none, 2), b = A(none, c.C, 2), i = A(c.S, c.C, 1), u = A(c.S, c.C, 2), d = A(c.S, c.C, 3), x = A(c.S, c.C, 4), d2 = A(c.C, c.S, 3);
  auto bad = [&](const char* what, ld l, ld r) { return Res::Fail(pbt::fmt("%s: %s: %.12Lg and %.12Lg differ by more than %.3Lg (subject %.12Lg clip %.12Lg intersection %.12Lg union %.12Lg difference %.12Lg xor %.12Lg)", rulename(rule), what, l, r, tol, a, b, i, u, d, x)); };
  if (!(fabsl(u + i - a - b) <= tol)) return bad("|A|+|B| = |A or B|+|A and B|", a + b, u + i);
  if (!(fabsl(d - (a - i)) <= tol)) return bad("|A-B| = |A|-|A and B|", d, a - i);
  if (!(fabsl(d2 - (b - i)) <= tol)) return bad("|B-A| = |B|-|A and B|", d2, b - i);
  if (!(fabsl(x - (u - i)) <= tol)) return bad("|A xor B| = |A or B|-|A and B|", x, u - i);
  for (ld v : {a, b, i, u, d, x, d2}) if (!(v >= -tol)) return bad("areas have one sign", v, 0);
  return Res::Ok(i > tol && d > tol, labels(c, u > tol));
}
static Reg r20([] { Prop p; p.id = "C20"; guard(p); p.gen = [](Rng& r) { return gen_any(r); }; p.check = chk_area; p.quick = 60000; p.thorough = 3000000;
  p.rule = "cases of C01, C02 and C03; seven operations per case, areas by exact integration of the output boundaries. Non-trivial: intersection and difference both have area."; return p; }());

// ---- C22
static void windings(const Region& R, ld x, ld y, int& w) { std::vector<geo::Mono> ms; geo::monos(R, ms); w = 0; for (auto& m : ms) { ld a = std::min(m.y0, m.y1), b = std::max(m.y0, m.y1); if (y >= a && y < b && geo::xat(m, y) < x) w += m.dir; } }
static bool coincide(const Seg& a, const Seg& b, ld x, ld y, ld mag) {
  if (a.deg != b.deg) return false;
  bool same = true, rev = true; for (int i = 0; i <= a.deg; ++i) { same &= a.p[i] == b.p[i]; rev &= a.p[i] == b.p[a.deg - i]; }
  if (same || rev) return true;
  if (a.deg != 1) return false;
  ld vx = (ld)a.p[1].x - a.p[0].x, vy = (ld)a.p[1].y - a.p[0].y, q = vx * vx + vy * vy, f = ((x - a.p[0].x) * vx + (y - a.p[0].y) * vy) / q; // foot on a
  return q > 0 && geo::dist_seg(b, a.p[0].x + f * vx, a.p[0].y + f * vy) <= 1e-13L * mag;
}
static ld inside_disc(const P2* p, ld x, ld y, ld rad) { // length of a cubic within a disc
  double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300}; ld len = 0;
  for (int i = 0; i < 4; ++i) { lo[0] = std::min(lo[0], p[i].x); hi[0] = std::max(hi[0], p[i].x); lo[1] = std::min(lo[1], p[i].y); hi[1] = std::max(hi[1], p[i].y); if (i) len += hypotl((ld)p[i].x - p[i - 1].x, (ld)p[i].y - p[i - 1].y); }
  if (lo[0] > x + rad || hi[0] < x - rad || lo[1] > y + rad || hi[1] < y - rad) return 0;
  if (len < rad / 8) return hypotl((p[0].x + p[3].x) / 2 - x, (p[0].y + p[3].y) / 2 - y) < rad ? len : 0;
  auto m = [](P2 a, P2 b) { return P2{(a.x + b.x) / 2, (a.y + b.y) / 2}; };
  P2 a = m(p[0], p[1]), b = m(p[1], p[2]), d = m(p[2], p[3]), ab = m(a, b), bd = m(b, d), mid = m(ab, bd), l[4] = {p[0], a, ab, mid}, r[4] = {mid, bd, d, p[3]};
  return inside_disc(l, x, y, rad) + inside_disc(r, x, y, rad);
}
static Res chk_edges(const Case& c) {
  if (!valid_case(c)) return Res::Discard();
  Region S = geo::region(c.S), C = geo::region(c.C);
  Out o = run(c.S, c.C, c.I[0], c.I[1]);
  geo::Ext e; geo::extend(e, S); geo::extend(e, C);
  ld tol = tolerance(S, C, c.I[3]), off = std::max(20 * tol, 1e-4L * e.size());
  std::vector<const Seg*> in; for (auto* R : {&S, &C}) for (auto& r : *R) for (auto& s : r.segs) in.push_back(&s);
  auto truth = [&](ld x, ld y) { int s, k; windings(S, x, y, s); windings(C, x, y, k); return geo::combine(geo::filled(s, (river::fill_rule)c.I[1]), geo::filled(k, (river::fill_rule)c.I[1]), (river::clip_type)c.I[0]); };
  long n = 0;
  for (auto& r : o.R) for (auto& s : r.segs) {
    int clean = 0, same = 0; ld bx = 0, by = 0; bool bt = false;
    for (ld t : {0.5L, 0.3137L, 0.6871L}) {
      ld x = geo::bz(s, t, 0), y = geo::bz(s, t, 1), h = 1e-4L, dx = geo::bz(s, t + h, 0) - geo::bz(s, t - h, 0), dy = geo::bz(s, t + h, 1) - geo::bz(s, t - h, 1), l = hypotl(dx, dy);
      if (!(l / (2 * h) > 8 * off)) continue; // too short to have two sides
      ld nx = -dy / l * off, ny = dx / l * off; bool ok = true;
      const Seg* first = nullptr; // input edges here must be far away, or run along the output edge and coincide
      for (auto* k : in) {
        bool far = false; for (int q = 0; q < 2; ++q) { ld v = q ? y : x, l = 1e300L, u = -1e300L; for (int i = 0; i <= k->deg; ++i) { ld w = q ? k->p[i].y : k->p[i].x; l = std::min(l, w); u = std::max(u, w); } far |= v < l - 2 * off || v > u + 2 * off; }
        if (far) continue;
        ld d = geo::dist_seg(*k, x, y); if (d > 2 * off) continue;
        if (d > tol || geo::dist_seg(*k, x + nx, y + ny) < off / 2 || geo::dist_seg(*k, x - nx, y - ny) < off / 2 || (first && !coincide(*first, *k, x, y, e.mag())) || (k->deg == 3 && inside_disc(k->p, x, y, off * 3 / 2) > 4 * off)) { ok = false; break; }
        first = k;
      }
      if (!ok) continue;
      ++clean; bool a = truth(x + nx, y + ny), b = truth(x - nx, y - ny); if (a == b) { ++same; bx = x; by = y; bt = a; }
    }
    if (clean >= 2 && same == clean) return Res::Fail(pbt::fmt("%s/%s: output edge through (%.12Lg,%.12Lg) bounds nothing: both sides are %s the result", opname(c.I[0]), rulename(c.I[1]), bx, by, bt ? "inside" : "outside"));
    n += clean > 0;
  }
  return Res::Ok(n > 2, labels(c, n > 0));
}
static Reg r22([] { Prop p; p.id = "C22"; guard(p); p.gen = [](Rng& r) { return gen_any(r, .3, .5); }; p.check = chk_edges; p.quick = 100000; p.thorough = 5000000;
  p.rule = "cases of C03, C02 and C01 (30/50/20 %). On both sides of every output edge long enough to have two sides (three samples, 1e-4 of the size away) membership in the result is computed from the input. Non-trivial: more than two edges with a clean sample."; return p; }());
