// Equations, intersections, curves, and the small geometric helpers, each against an oracle in long double or exact integers.
#include "cases.h"
#include "rmath.h"
using namespace pbt; using rmath::vec2; using rmath::bezier_cubic;
typedef long double ld;
static const ld EPS = 1e-9L;

// ---------------------------------------------------------------- polynomials
struct Poly { ld a[4]; int n; // degree bound n
  ld at(ld x) const { ld v = 0; for (int i = n; i >= 0; --i) v = v * x + a[i]; return v; }
  ld mag(ld x) const { ld v = 0; x = fabsl(x); for (int i = n; i >= 0; --i) v = v * x + fabsl(a[i]); return v; }
};
// all sign changes of p in [lo, hi], found between the critical points
static void crossings(const Poly& p, ld lo, ld hi, std::vector<ld>& out) {
  std::vector<ld> cut{lo, hi};
  if (p.n >= 2) { Poly d; d.n = p.n - 1; for (int i = 0; i < p.n; ++i) d.a[i] = p.a[i + 1] * (i + 1); std::vector<ld> c; crossings(d, lo, hi, c); cut.insert(cut.end(), c.begin(), c.end()); }
  std::sort(cut.begin(), cut.end());
  for (size_t i = 0; i + 1 < cut.size(); ++i) {
    ld a = cut[i], b = cut[i + 1], fa = p.at(a), fb = p.at(b);
    if (fa == 0) { if (out.empty() || out.back() != a) out.push_back(a); continue; }
    if (fb == 0) { out.push_back(b); continue; }
    if ((fa < 0) == (fb < 0)) continue;
    for (int k = 0; k < 200; ++k) { ld m = (a + b) / 2; if (m <= a || m >= b) break; ld fm = p.at(m); if (fm == 0) { a = b = m; break; } ((fm < 0) == (fa < 0) ? a : b) = m; }
    out.push_back((a + b) / 2);
  }
}
static double wild(Rng& r) { double u = r.unit(); return u < .45 ? r.real(-10, 10) : u < .6 ? (double)r.in(-6, 6) : u < .75 ? r.real(-1e4, 1e4) : u < .9 ? std::pow(10.0, r.real(-5, 5)) * (r.coin() ? 1 : -1) : 0; }

// ---- C11: D = coefficients from the highest degree, I[0] = 2 or 3
static Case gen_equa(Rng& r) {
  Case c; int n = r.in(2, 3); c.I = {n}; double u = r.unit();
  if (u < .08) { // exact multiple root: I = {n, root * 2^-I[2]}
    int a = r.in(-8, 8), b = n == 2 || r.coin(.3) ? a : r.in(-12, 12), e = r.coin(.5) ? 0 : r.in(-12, 12); ld s = ldexpl(1, e), k = ldexpl(r.in(1, 5) * (r.coin() ? 1 : -1), r.coin(.6) ? 0 : r.in(-8, 8));
    c.I = {n, a, e}; ld x = a * s, y = b * s;
    if (n == 2) c.D = {(double)k, (double)(k * -2 * x), (double)(k * x * x)};
    else c.D = {(double)k, (double)(k * -(2 * x + y)), (double)(k * (x * x + 2 * x * y)), (double)(k * -x * x * y)};
    return c;
  }
  if (u < .3) for (int i = 0; i <= n; ++i) c.D.push_back(wild(r));
  else { // from roots: simple, close together, double, or a complex pair
    ld rt[3]; for (auto& x : rt) x = r.coin(.3) ? (ld)r.in(-5, 5) : (ld)r.real(-8, 8);
    if (r.coin(.25)) rt[1] = rt[0] + powl(10, r.real(-6, 0)); if (r.coin(.1)) rt[1] = rt[0]; if (r.coin(.05)) rt[2] = rt[1];
    if (r.coin(.2)) { ld s = powl(10, r.real(-3, 3)); for (auto& x : rt) x *= s; }
    if (r.coin(.12)) rt[2] *= powl(10, r.real(0, 7));
    ld k = r.coin(.5) ? 1 : powl(10, r.real(-6, 6)) * (r.coin() ? 1 : -1);
    ld q[4] = {rt[0] * rt[1], -(rt[0] + rt[1]), 1, 0};
    if (r.coin(.2)) q[0] = rt[0] * rt[0] + rt[1] * rt[1], q[1] = -2 * rt[0]; // complex pair
    if (n == 3) { q[3] = 1; q[2] = q[2] * -rt[2] + q[1]; ld q1 = -rt[2] * q[1] + q[0]; q[0] = -rt[2] * q[0]; q[1] = q1; }
    for (int i = n; i >= 0; --i) c.D.push_back((double)(k * q[i]));
    if (r.coin(.06)) c.D[0] = 0;
    if (n == 3 && r.coin(.05)) c.D[0] *= std::pow(10.0, -r.real(3, 12));
  }
  return c;
}
static Res chk_equa(const Case& c) {
  int n = c.I.empty() ? 0 : (int)c.I[0]; if (n < 2 || n > 3 || (int)c.D.size() != n + 1) return Res::Discard();
  for (double x : c.D) if (!std::isfinite(x) || std::fabs(x) > 1e12 || (x != 0 && std::fabs(x) < 1e-12)) if (!(n == 3 && x == c.D[0])) return Res::Discard();
  double root[3]; int cnt;
  if (n == 2) { auto q = rmath::resolv_quad_equa(c.D[0], c.D[1], c.D[2]); cnt = q.count; for (int i = 0; i < cnt && i < 2; ++i) root[i] = q.data[i]; if (cnt > 2) return Res::Fail("more than two roots"); }
  else { auto q = rmath::resolv_cubic_equa(c.D[0], c.D[1], c.D[2], c.D[3]); cnt = q.count; for (int i = 0; i < cnt && i < 3; ++i) root[i] = q.data[i]; if (cnt > 3) return Res::Fail("more than three roots"); }
  if (cnt < 0) return Res::Fail("negative count");
  Poly p; p.n = n; for (int i = 0; i <= n; ++i) p.a[i] = c.D[n - i];
  while (p.n > 0 && p.a[p.n] == 0) --p.n;
  if (p.n == 0) return cnt == 0 ? Res::Ok(false) : Res::Fail("a constant has no isolated roots");
  ld bound = 0; for (int i = 0; i < p.n; ++i) bound = std::max(bound, powl(fabsl(p.a[i] / p.a[p.n]), 1.0L / (p.n - i)) * 2); bound = bound * 1.01L + 1e-30L;
  std::vector<ld> real; crossings(p, -bound, bound, real); ld big = 0; for (ld x : real) big = std::max(big, fabsl(x));
  for (int i = 0; i < cnt; ++i) {
    if (!std::isfinite(root[i])) return Res::Fail(fmt("root %d is not finite", i));
    ld x = root[i], f = fabsl(p.at(x)), m = p.mag(x);
    if (fabsl(x) <= 1e4L && f > 1e-6L * m && f > 1e-11L * p.mag(std::max({fabsl(x), big, 1e-2L}))) return Res::Fail(fmt("reported root %.17g is none: residual %.3Lg of %.3Lg", root[i], f, m));
  }
  std::vector<ld> crit; if (p.n >= 2) { Poly q; q.n = p.n - 1; for (int i = 0; i < p.n; ++i) q.a[i] = p.a[i + 1] * (i + 1); crossings(q, -bound, bound, crit); }
  int firm = 0;
  for (ld x : real) {
    if (fabsl(x) > 1e4L) continue;
    ld d = 1e-5L * std::max(fabsl(x), 1e-2L); // x moved by d must change the sign beyond doubt
    ld sep = 1e300L; for (ld y : real) if (y != x) sep = std::min(sep, fabsl(y - x));
    for (ld y : crit) sep = std::min(sep, 2 * fabsl(y - x));
    if (sep < 8 * d || sep < 1e-5L * big) continue;
    ld f1 = p.at(x - d), f2 = p.at(x + d);
    if ((f1 < 0) == (f2 < 0) || fabsl(f1) < 1e-10L * p.mag(x) || fabsl(f2) < 1e-10L * p.mag(x)) continue;
    ++firm; int hit = 0; for (int i = 0; i < cnt; ++i) hit += fabsl(root[i] - x) <= 2 * d;
    if (n == 3 && fabsl(p.a[3]) > 0 && fabsl(p.a[3]) <= 2e-14L * std::max(fabsl(p.a[2]), fabsl(p.a[1])) && fabsl(x) > bound / 100) continue; // root lost to a leading coefficient at rounding level
    if (n == 2 && fabsl(p.a[2]) <= 2e-14L * fabsl(p.a[1]) && fabsl(x) > bound / 100) continue;
    if (hit == 0) return Res::Fail(fmt("root %.17Lg is missing (%d reported)", x, cnt));
    if (hit > 1) return Res::Fail(fmt("root %.17Lg is reported %d times", x, hit));
  }
  bool multi = false;
  if (c.I.size() >= 3 && c.D[0] != 0 && llabs(c.I[2]) <= 12 && llabs(c.I[1]) <= 64) { // a root the generator made double or triple, if it is exactly that
    ld x = ldexpl((ld)c.I[1], (int)c.I[2]), d = 0; for (int i = p.n; i > 0; --i) d = d * x + p.a[i] * i;
    if (p.at(x) == 0 && d == 0) {
      multi = true; ld size = std::max(fabsl(x), n == 3 ? fabsl(p.a[2] / p.a[3]) / 3 : 0.0L); bool hit = false;
      for (int i = 0; i < cnt; ++i) hit |= fabsl(root[i] - x) <= 1e-5L * size + 1e-30L;
      if (!hit) return Res::Fail(fmt("multiple root %.17Lg is missing (%d reported)", x, cnt));
    }
  }
  return Res::Ok(firm > 0 || multi, 1u << std::min(firm, 3) | (n == 3 ? 16 : 0) | (c.D[0] == 0 ? 32 : 0) | (multi ? 64 : 0));
}
static Reg r11([] { Prop p; p.id = "C11"; p.gen = gen_equa; p.check = chk_equa; p.quick = 4000000; p.thorough = 200000000; p.hang_s = 20; p.labels = {"no well-conditioned real root", "one", "two", "three", "cubic", "leading coefficient zero", "exact double or triple root"};
  p.rule = "quadratic and cubic equations (roots up to 1e4 in magnitude are judged, to 1e-5 of their size and 1e-7 absolutely) with random coefficients over ten decades, or expanded from chosen roots (simple, nearly double, double, triple, complex pairs, far apart). Oracle: sign changes between critical points in long double. Every well-conditioned real root must be reported exactly once, an exact double or triple root at least once, every reported root must satisfy the equation. Non-trivial: at least one well-conditioned or exactly multiple real root."; return p; }());

// ---------------------------------------------------------------- line / line
typedef __int128 i128;
struct IP { long x, y; };
static i128 cross(IP a, IP b, IP c) { return (i128)(b.x - a.x) * (c.y - a.y) - (i128)(b.y - a.y) * (c.x - a.x); }
static bool on(IP a, IP b, IP p) { return cross(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
// D: 8 coordinates; I[0]: 0 integers, 1 reals
static Case gen_ll(Rng& r) {
  Case c; int k = r.in(0, 3); c.I = {k == 3 ? 1 : 0}; static const int sz[] = {5, 60, 100000};
  if (k == 3) { double s = std::pow(10.0, r.real(-3, 5)); for (int i = 0; i < 8; ++i) c.D.push_back(r.real(-1, 1) * s); if (r.coin(.2)) c.D[r.in(0, 1) * 4 + 2] = c.D[0]; if (r.coin(.2)) { int j = r.in(0, 1) * 4; c.D[j + 3] = c.D[j + 1]; } return c; }
  int m = sz[k]; for (int i = 0; i < 8; ++i) c.D.push_back(r.in(-m, m));
  double u = r.unit();
  if (u < .15) { long dx = r.in(-m, m) / 4, dy = r.in(-m, m) / 4; for (int i = 0; i < 4; ++i) { int f = r.in(-4, 4); c.D[2 * i] = c.D[0] * 0 + f * dx; c.D[2 * i + 1] = f * dy; } } // on one line
  else if (u < .25) { c.D[4] = c.D[r.coin() ? 0 : 2]; c.D[5] = c.D[c.D[4] == c.D[0] ? 1 : 3]; }                                                                             // shared end
  else if (u < .35) { int f = r.in(1, 4); long dx = r.in(-m, m) / 4, dy = r.in(-m, m) / 4; c.D[2] = c.D[0] + 4 * dx; c.D[3] = c.D[1] + 4 * dy; c.D[4] = c.D[0] + f * dx; c.D[5] = c.D[1] + f * dy; } // touches
  else if (u < .42) { c.D[3] = c.D[1]; } else if (u < .49) { c.D[6] = c.D[4]; }
  if (r.coin(.1)) { c.D[6] = c.D[4] + c.D[2] - c.D[0]; c.D[7] = c.D[5] + c.D[3] - c.D[1]; } // parallel
  if (r.coin(.5)) for (int i = 0; i < 4; ++i) std::swap(c.D[i], c.D[i + 4]);
  if (r.coin(.25)) c.I.push_back(r.in(-80, 60)); // times a power of two
  return c;
}
static Res chk_ll(const Case& c) {
  if (c.D.size() != 8 || c.I.empty()) return Res::Discard();
  ld mx = 0; for (double x : c.D) { if (!std::isfinite(x) || std::fabs(x) > 1e7) return Res::Discard(); mx = std::max(mx, (ld)fabs(x)); }
  vec2 p[4]; for (int i = 0; i < 4; ++i) p[i] = vec2(c.D[2 * i], c.D[2 * i + 1]);
  if (p[0] == p[1] || p[2] == p[3]) return Res::Discard();
  int e2 = c.I.size() > 1 ? (int)c.I[1] : 0; if (e2 < -200 || e2 > 200) return Res::Discard();
  vec2 sp[4]; for (int i = 0; i < 4; ++i) sp[i] = vec2(std::ldexp(p[i].x, e2), std::ldexp(p[i].y, e2));
  auto r = rmath::intersect(sp[0], sp[1], sp[2], sp[3]);
  for (int i = 0; i < r.count && i < 2; ++i) r.data[i].p = vec2(std::ldexp(r.data[i].p.x, -e2), std::ldexp(r.data[i].p.y, -e2));
  if (r.count < 0 || r.count > 2) return Res::Fail(fmt("%d intersections", r.count));
  ld tol = 1e-9L * mx;
  for (int i = 0; i < r.count; ++i) {
    auto& q = r.data[i];
    if (!(q.t0 >= -1e-9 && q.t0 <= 1 + 1e-9 && q.t1 >= -1e-9 && q.t1 <= 1 + 1e-9)) return Res::Fail(fmt("parameters %.17g %.17g outside [0,1]", q.t0, q.t1));
    for (int s = 0; s < 2; ++s) { ld t = s ? q.t1 : q.t0; vec2 a = p[2 * s], b = p[2 * s + 1]; ld x = a.x + ((ld)b.x - a.x) * t, y = a.y + ((ld)b.y - a.y) * t;
      ld sn = 1; { vec2 u = p[1] - p[0], v = p[3] - p[2]; ld cr = fabsl((ld)u.x * v.y - (ld)u.y * v.x), l = hypotl(u.x, u.y) * hypotl(v.x, v.y); sn = cr == 0 ? 1 : std::max(cr / l, 1e-8L); }
      if (fabsl(x - q.p.x) > tol / sn * 1e-3L + tol * 1e-2L || fabsl(y - q.p.y) > tol / sn * 1e-3L + tol * 1e-2L) return Res::Fail(fmt("point (%.17g,%.17g) is not at parameter %.17Lg of line %d", q.p.x, q.p.y, t, s)); }
  }
  if (c.I[0] == 0) {
    IP q[4]; for (int i = 0; i < 4; ++i) { q[i] = {(long)c.D[2 * i], (long)c.D[2 * i + 1]}; if (q[i].x != c.D[2 * i] || q[i].y != c.D[2 * i + 1] || labs(q[i].x) > 100000 || labs(q[i].y) > 100000) return Res::Discard(); }
    i128 den = (i128)(q[1].x - q[0].x) * (q[3].y - q[2].y) - (i128)(q[1].y - q[0].y) * (q[3].x - q[2].x);
    if (den != 0) {
      i128 d1 = cross(q[2], q[3], q[0]), d2 = cross(q[2], q[3], q[1]), d3 = cross(q[0], q[1], q[2]), d4 = cross(q[0], q[1], q[3]);
      bool hit = !((d1 > 0 && d2 > 0) || (d1 < 0 && d2 < 0) || (d3 > 0 && d4 > 0) || (d3 < 0 && d4 < 0));
      if (r.count != (hit ? 1 : 0)) return Res::Fail(fmt("%d intersections reported, exactly %d exist", r.count, hit));
      if (hit) { // exact position
        ld t = (ld)cross(q[2], q[3], q[0]) / ((ld)cross(q[2], q[3], q[0]) - (ld)cross(q[2], q[3], q[1]));
        ld x = q[0].x + (q[1].x - q[0].x) * t, y = q[0].y + (q[1].y - q[0].y) * t, u = (ld)cross(q[0], q[1], q[2]) / ((ld)cross(q[0], q[1], q[2]) - (ld)cross(q[0], q[1], q[3]));
        ld e = 1e-9L * (mx + 1) + 1e-11L * mx * mx * mx / fabsl((ld)den) * 0;
        if (fabsl(r.data[0].p.x - x) > e || fabsl(r.data[0].p.y - y) > e) return Res::Fail(fmt("intersection at (%.17g,%.17g), exactly (%.17Lg,%.17Lg)", r.data[0].p.x, r.data[0].p.y, x, y));
        if (fabsl(r.data[0].t0 - t) > 1e-9L || fabsl(r.data[0].t1 - u) > 1e-9L) return Res::Fail("wrong parameters");
        if (q[0].x == q[1].x && r.data[0].p.x != q[0].x) return Res::Fail("left a vertical line"); if (q[0].y == q[1].y && r.data[0].p.y != q[0].y) return Res::Fail("left a horizontal line");
        if (q[2].x == q[3].x && r.data[0].p.x != q[2].x) return Res::Fail("left a vertical line"); if (q[2].y == q[3].y && r.data[0].p.y != q[2].y) return Res::Fail("left a horizontal line");
      }
      return Res::Ok(hit, hit ? 1 : 2);
    }
    // parallel: ends of one that lie in the other, other than shared ends
    std::vector<IP> want; auto add = [&](IP a, IP u, IP v) { if (on(u, v, a) && !(a.x == u.x && a.y == u.y) && !(a.x == v.x && a.y == v.y)) want.push_back(a); };
    add(q[0], q[2], q[3]); add(q[1], q[2], q[3]); add(q[2], q[0], q[1]); add(q[3], q[0], q[1]);
    if ((size_t)r.count != want.size()) return Res::Fail(fmt("%d ends reported on the other line, exactly %zu are", r.count, want.size()));
    for (auto& w : want) { bool f = false; for (int i = 0; i < r.count; ++i) f |= r.data[i].p.x == w.x && r.data[i].p.y == w.y; if (!f) return Res::Fail(fmt("the end (%ld,%ld) is not reported", w.x, w.y)); }
    return Res::Ok(!want.empty(), want.empty() ? 8 : 4);
  }
  // reals: decided where the oracle is far from its limits
  auto cr = [&](vec2 a, vec2 b, vec2 q) { return ((ld)b.x - a.x) * ((ld)q.y - a.y) - ((ld)b.y - a.y) * ((ld)q.x - a.x); };
  ld d[4] = {cr(p[2], p[3], p[0]), cr(p[2], p[3], p[1]), cr(p[0], p[1], p[2]), cr(p[0], p[1], p[3])};
  for (ld x : d) if (fabsl(x) < 1e-9L * mx * mx) return Res::Ok(false, 16);
  bool hit = (d[0] < 0) != (d[1] < 0) && (d[2] < 0) != (d[3] < 0);
  if (r.count != (hit ? 1 : 0)) return Res::Fail(fmt("%d intersections reported, %d exist", r.count, hit));
  if (hit) { ld t = d[0] / (d[0] - d[1]), x = p[0].x + ((ld)p[1].x - p[0].x) * t, y = p[0].y + ((ld)p[1].y - p[0].y) * t; if (fabsl(r.data[0].p.x - x) > tol || fabsl(r.data[0].p.y - y) > tol) return Res::Fail("wrong place"); }
  return Res::Ok(hit, hit ? 1 : 2);
}
static Reg r12([] { Prop p; p.id = "C12"; p.gen = gen_ll; p.check = chk_ll; p.quick = 6000000; p.thorough = 300000000; p.hang_s = 20; p.labels = {"cross or touch", "apart", "collinear overlap", "parallel or end to end", "undecided by the oracle"};
  p.rule = "pairs of segments: integer coordinates up to 5, 60 or 100000 (crossing, touching, sharing ends, collinear, parallel, horizontal, vertical), decided exactly with 128-bit integers, and reals over eight decades, decided in long double away from its limits. Count, place and parameters are compared. Non-trivial: the segments meet."; return p; }());

// ---------------------------------------------------------------- curves
static ld bez(const bezier_cubic& b, ld t, int ax) { ld k = 1 - t; auto g = [&](const vec2& v) { return ax ? (ld)v.y : (ld)v.x; }; return k * k * k * g(b.p0) + 3 * k * k * t * g(b.p1) + 3 * k * t * t * g(b.p2) + t * t * t * g(b.p3); }
static ld dbez(const bezier_cubic& b, ld t, int ax) { ld k = 1 - t; auto g = [&](const vec2& v) { return ax ? (ld)v.y : (ld)v.x; }; return 3 * (k * k * (g(b.p1) - g(b.p0)) + 2 * k * t * (g(b.p2) - g(b.p1)) + t * t * (g(b.p3) - g(b.p2))); }
static Poly axis(const bezier_cubic& b, int ax) { auto g = [&](const vec2& v) { return ax ? (ld)v.y : (ld)v.x; }; ld a = g(b.p0), q = g(b.p1), c = g(b.p2), d = g(b.p3); Poly p; p.n = 3; p.a[0] = a; p.a[1] = 3 * (q - a); p.a[2] = 3 * (a - 2 * q + c); p.a[3] = d - a + 3 * (q - c); return p; }
static bezier_cubic curve(const std::vector<double>& d, int at) { bezier_cubic b; b.p0 = vec2(d[at], d[at + 1]); b.p1 = vec2(d[at + 2], d[at + 3]); b.p2 = vec2(d[at + 4], d[at + 5]); b.p3 = vec2(d[at + 6], d[at + 7]); return b; }
static void rnd_curve(Rng& r, std::vector<double>& d) { // in the square 0..100, of several kinds
  double v[8]; int k = r.in(0, 9);
  for (double& x : v) x = r.coin(.3) && k < 3 ? r.in(0, 100) : r.real(0, 100);
  auto elev = [&](double ax, double ay, double qx, double qy, double bx, double by) { double w[] = {ax, ay, ax + 2 * (qx - ax) / 3, ay + 2 * (qy - ay) / 3, bx + 2 * (qx - bx) / 3, by + 2 * (qy - by) / 3, bx, by}; memcpy(v, w, sizeof v); };
  if (k == 3) elev(v[0], v[1], v[2], v[3], v[4], v[5]);                                                         // quadratic
  else if (k == 4) elev(v[0], v[1], (v[0] + v[4]) / 2, (v[1] + v[5]) / 2, v[4], v[5]);                          // straight
  else if (k == 5) { double R = r.real(5, 45), q = R * 0.55228475, cx = v[0], cy = v[1]; double w[] = {cx + R, cy, cx + R, cy + q, cx + q, cy + R, cx, cy + R}; int s = r.in(0, 3); for (int i = 0; i < 4; ++i) { double X = w[2 * i] - cx, Y = w[2 * i + 1] - cy; for (int j = 0; j < s; ++j) { double t = X; X = -Y; Y = t; } w[2 * i] = cx + X; w[2 * i + 1] = cy + Y; } memcpy(v, w, sizeof v); }
  else if (k == 6) { std::sort(v, v + 8); double w[] = {v[0], r.real(0, 100), v[2], r.real(0, 100), v[4], r.real(0, 100), v[6], r.real(0, 100)}; memcpy(v, w, sizeof v); } // x monotone
  else if (k == 7) { v[3] = v[1]; v[5] = v[7]; }                                                                // horizontal tangents at the ends
  else if (k == 8) { int j = r.in(0, 2); v[2 * j] = v[2 * j + 2]; v[2 * j + 1] = v[2 * j + 3]; }                  // two control points equal
  for (double x : v) d.push_back(x);
}
static void place(Rng& r, std::vector<double>& d, double lo = -7, double hi = 9) { if (r.coin(.5)) return; if (r.coin(.2)) { lo = -13; hi = 14; } double s = std::pow(10.0, r.real(lo, hi)) / 100, ox = r.coin() ? 0 : r.real(-300, 300) * s, oy = r.coin() ? 0 : r.real(-300, 300) * s; for (size_t i = 0; i < d.size(); ++i) d[i] = d[i] * s + (i & 1 ? oy : ox); }
static bool sane(const std::vector<double>& d, size_t n, ld& size, ld& mag) {
  if (d.size() < n) return false; ld lo[2] = {1e30, 1e30}, hi[2] = {-1e30, -1e30}; mag = 0;
  for (size_t i = 0; i < n; ++i) { if (!std::isfinite(d[i])) return false; lo[i & 1] = std::min(lo[i & 1], (ld)d[i]); hi[i & 1] = std::max(hi[i & 1], (ld)d[i]); mag = std::max(mag, fabsl((ld)d[i])); }
  size = std::max(hi[0] - lo[0], hi[1] - lo[1]); return size > 0 && mag < 1e12L && size > 1e-9L && mag < 1e4L * size;
}

// ---- C13: line with curve
static Case gen_lc(Rng& r) {
  Case c; rnd_curve(r, c.D); double v[4]; for (double& x : v) x = r.real(-10, 110);
  int k = r.in(0, 9); if (k == 0) v[2] = v[0]; if (k == 1) v[3] = v[1];
  if (k == 2 || k == 3) { bezier_cubic b = curve(c.D, 0); double t = r.coin(.3) ? r.in(0, 1) : r.unit(); vec2 p = b.point_at(t); double f = r.coin(.3) ? r.in(0, 1) : r.unit(), dx = r.real(-60, 60), dy = r.real(-60, 60); v[0] = p.x - f * dx; v[1] = p.y - f * dy; v[2] = p.x + (1 - f) * dx; v[3] = p.y + (1 - f) * dy; }
  if (k == 4) { for (auto& x : c.D) x = std::round(x / 10) * 10; bezier_cubic b = curve(c.D, 0); vec2 e = r.coin() ? b.p0 : b.p3; int dx = r.in(-6, 6), dy = r.in(-6, 6), f = r.in(0, 4), g = r.in(0, 4); v[0] = e.x - 10 * f * dx; v[1] = e.y - 10 * f * dy; v[2] = e.x + 10 * g * dx; v[3] = e.y + 10 * g * dy; } // grid, through an end of the curve
  for (double x : v) c.D.push_back(x);
  place(r, c.D); return c;
}
static Res chk_lc(const Case& c) {
  ld size, mag; if (!sane(c.D, 12, size, mag)) return Res::Discard();
  bezier_cubic b = curve(c.D, 0); rmath::line l{vec2(c.D[8], c.D[9]), vec2(c.D[10], c.D[11])};
  ld ux = (ld)l.p1.x - l.p0.x, uy = (ld)l.p1.y - l.p0.y, len = hypotl(ux, uy); if (len < 1e-3L * size) return Res::Discard();
  auto r = rmath::intersect(l, b);
  if (r.count < 0 || r.count > 3) return Res::Fail(fmt("%d intersections", r.count));
  Poly px = axis(b, 0), py = axis(b, 1), f; f.n = 3; for (int i = 0; i < 4; ++i) f.a[i] = (ux * (py.a[i] - (i ? 0 : l.p0.y)) - uy * (px.a[i] - (i ? 0 : l.p0.x))) / len; // signed distance from the line
  ld tol = 2e-7L * size;
  for (int i = 0; i < r.count; ++i) {
    auto& q = r.data[i]; if (!(q.t1 >= 0 && q.t1 <= 1)) return Res::Fail(fmt("curve parameter %.17g", q.t1)); if (!(q.t0 >= -1e-6 && q.t0 <= 1 + 1e-6)) return Res::Fail(fmt("line parameter %.17g", q.t0));
    if (fabsl(bez(b, q.t1, 0) - q.p.x) > 1e-10L * mag || fabsl(bez(b, q.t1, 1) - q.p.y) > 1e-10L * mag) return Res::Fail("the point is not on the curve at its parameter");
    if (fabsl(f.at(q.t1)) > tol) return Res::Fail(fmt("the point (%.12g,%.12g) is %.3Lg away from the line", q.p.x, q.p.y, fabsl(f.at(q.t1))));
    ld flat = 1e-6L * size;
    if (fabsl(l.p0.x + ux * q.t0 - q.p.x) > flat || fabsl(l.p0.y + uy * q.t0 - q.p.y) > flat) return Res::Fail(fmt("the point (%.12g,%.12g) is not at parameter %.12g of the line", q.p.x, q.p.y, q.t0));
  }
  std::vector<ld> real; crossings(f, 0, 1, real); int firm = 0;
  for (ld t : real) {
    const ld d = 1e-5L; if (t < 2 * d || t > 1 - 2 * d) continue; bool lone = true; for (ld y : real) if (y != t && fabsl(y - t) < 8 * d) lone = false; if (!lone) continue;
    if (fabsl(f.at(t - d)) < 1e-9L * size || fabsl(f.at(t + d)) < 1e-9L * size || (f.at(t - d) < 0) == (f.at(t + d) < 0)) continue;
    ld along = (((ld)bez(b, t, 0) - l.p0.x) * ux + (bez(b, t, 1) - l.p0.y) * uy) / (len * len); ld m = 1e-4L * size / len; if (along < m || along > 1 - m) continue;
    ++firm; int hit = 0; for (int i = 0; i < r.count; ++i) hit += fabsl(r.data[i].t1 - t) <= 2 * d;
    if (hit != 1) return Res::Fail(fmt("the crossing at curve parameter %.12Lg, line parameter %.12Lg is reported %d times", t, along, hit));
  }
  // contacts at an end of either, up to rounding
  int touch = 0; const ld eps = 1e-15L * mag; auto df = [&](ld t) { return f.a[1] + t * (2 * f.a[2] + t * 3 * f.a[3]); };
  std::vector<ld> at = real; for (ld e : {(ld)0, (ld)1}) if (fabsl(f.at(e)) <= eps) { at.erase(std::remove_if(at.begin(), at.end(), [&](ld t) { return fabsl(t - e) < 1e-9L; }), at.end()); at.push_back(e); }
  if (mag < 100 * size) for (ld t : at) {
    bool lone = true; for (ld y : at) if (y != t && fabsl(y - t) < 1e-4L) lone = false; if (!lone || fabsl(df(t)) < 1e-2L * size) continue;
    ld along = (((ld)bez(b, t, 0) - l.p0.x) * ux + (bez(b, t, 1) - l.p0.y) * uy) / len, m = 1e-4L * size; bool at_end = fabsl(along) <= eps || fabsl(along - len) <= eps;
    if (!at_end && (along < m || along > len - m)) continue; if (!at_end && t != 0 && t != 1) continue;
    ++touch; int hit = 0; for (int i = 0; i < r.count; ++i) hit += fabsl(r.data[i].t1 - t) <= 1e-8L && fabsl(r.data[i].t0 - along / len) <= 1e-7L;
    if (hit != 1) return Res::Fail(fmt("the contact at curve parameter %.12Lg, line parameter %.12Lg is reported %d times", t, along / len, hit));
  }
  return Res::Ok(firm > 0 || touch > 0, 1u << std::min(firm, 3) | (touch ? 16 : 0));
}
static Reg r13([] { Prop p; p.id = "C13"; p.gen = gen_lc; p.check = chk_lc; p.quick = 3000000; p.thorough = 150000000; p.hang_s = 20; p.labels = {"no clear crossing", "one crossing", "two crossings", "three crossings", "contact at an end"};
  p.rule = "a segment (any direction, horizontal, vertical, through a point of the curve, ending on it) and a cubic (general, elevated quadratic, straight, quarter circle, monotone, with coincident control points) over seven decades of scale. Oracle: sign changes of the distance to the line along the curve in long double. Every clear crossing and every transversal contact at an end of either must be reported exactly once, every report must lie on both. Non-trivial: at least one of them."; return p; }());

// ---- C14: curve with curve
struct Hit { ld t, u, sn; };
static void hits(const bezier_cubic& a, const bezier_cubic& b, std::vector<Hit>& out, ld size) {
  // chords of a fine subdivision, then Newton
  const int n = 96; ld ax[n + 1], ay[n + 1], bx[n + 1], by[n + 1];
  for (int i = 0; i <= n; ++i) { ax[i] = bez(a, (ld)i / n, 0); ay[i] = bez(a, (ld)i / n, 1); bx[i] = bez(b, (ld)i / n, 0); by[i] = bez(b, (ld)i / n, 1); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    if (std::max(ax[i], ax[i + 1]) < std::min(bx[j], bx[j + 1]) || std::max(bx[j], bx[j + 1]) < std::min(ax[i], ax[i + 1]) || std::max(ay[i], ay[i + 1]) < std::min(by[j], by[j + 1]) || std::max(by[j], by[j + 1]) < std::min(ay[i], ay[i + 1])) continue;
    ld t = (i + .5L) / n, u = (j + .5L) / n; bool ok = true;
    for (int k = 0; k < 30; ++k) {
      ld ex = bez(b, u, 0) - bez(a, t, 0), ey = bez(b, u, 1) - bez(a, t, 1), dx = dbez(a, t, 0), dy = dbez(a, t, 1), fx = dbez(b, u, 0), fy = dbez(b, u, 1), det = dx * -fy + fx * dy; if (det == 0) { ok = false; break; }
      ld dt = (ex * -fy + fx * ey) / det, du = (dx * ey - dy * ex) / det; t += dt; u += du; if (!(fabsl(t) < 3) || !(fabsl(u) < 3)) { ok = false; break; }
    }
    if (!ok) continue; for (ld* q : {&t, &u}) for (ld e : {(ld)0, (ld)1}) if (fabsl(*q - e) < 1e-15L) *q = e; // an end up to rounding
    if (!(t >= 0 && t <= 1 && u >= 0 && u <= 1)) continue;
    if (hypotl(bez(b, u, 0) - bez(a, t, 0), bez(b, u, 1) - bez(a, t, 1)) > 1e-14L * size) continue;
    ld dx = dbez(a, t, 0), dy = dbez(a, t, 1), fx = dbez(b, u, 0), fy = dbez(b, u, 1); Hit h{t, u, fabsl(dx * fy - dy * fx) / (size * size)};
    bool dup = false; for (auto& o : out) dup |= fabsl(o.t - t) < 1e-9L && fabsl(o.u - u) < 1e-9L; if (!dup) out.push_back(h);
  }
}
static Case gen_cc(Rng& r) {
  Case c; rnd_curve(r, c.D); rnd_curve(r, c.D);
  if (r.coin(.1)) { c.D[8] = c.D[0]; c.D[9] = c.D[1]; } if (r.coin(.05)) { c.D[14] = c.D[6]; c.D[15] = c.D[7]; }
  if (r.coin(.03)) for (int i = 0; i < 8; ++i) c.D[8 + i] = c.D[i]; else if (r.coin(.03)) for (int i = 0; i < 4; ++i) { c.D[8 + 2 * i] = c.D[6 - 2 * i]; c.D[9 + 2 * i] = c.D[7 - 2 * i]; }
  if (r.coin(.05)) { // two threefold waves across each other: up to nine crossings
    double k[2], z[2]; std::vector<double> w; for (int q = 0; q < 2; ++q) { k[q] = r.real(15, 45); z[q] = r.real(.1, .2);
      auto pol = [&](double s, double t, double u) { double a = s - .5, b = t - .5, c2 = u - .5; return .5 + k[q] * (a * b * c2 - z[q] * (a + b + c2) / 3); }; // blossom
      double h[4] = {pol(0, 0, 0), pol(0, 0, 1), pol(0, 1, 1), pol(1, 1, 1)}; for (int i = 0; i < 4; ++i) { double x = i / 3.0; w.push_back(q ? h[i] : x); w.push_back(q ? x : h[i]); } }
    double m[4] = {r.real(20, 100), r.real(-15, 15), r.real(-15, 15), r.real(20, 100)}; for (int i = 0; i < 16; i += 2) { c.D[i] = m[0] * w[i] + m[1] * w[i + 1]; c.D[i + 1] = m[2] * w[i] + m[3] * w[i + 1]; }
  }
  if (r.coin(.1)) { // an end of one exactly on the other, on a small grid
    for (auto& x : c.D) x = r.in(0, 10); double t = r.in(0, 8) / 8.0, k = 1 - t; int e = r.coin() ? 8 : 14;
    for (int i = 0; i < 2; ++i) c.D[e + i] = k * k * k * c.D[i] + 3 * k * k * t * c.D[2 + i] + 3 * k * t * t * c.D[4 + i] + t * t * t * c.D[6 + i];
    if (r.coin()) for (int i = 0; i < 8; ++i) std::swap(c.D[i], c.D[i + 8]);
    c.I = {r.coin() ? 25 : 40}; double s = std::ldexp(1.0, r.in(-8, 8)); for (auto& x : c.D) x *= s; return c;
  }
  c.I = {r.coin(.7) ? 25 : r.coin() ? 40 : r.in(12, 40)};
  if (r.coin(.004)) { // one is a part of the other
    bezier_cubic a{{c.D[0], c.D[1]}, {c.D[2], c.D[3]}, {c.D[4], c.D[5]}, {c.D[6], c.D[7]}}, o[3]; double t[2] = {r.real(.05, .4), r.real(.6, .95)}; a.split(t, o, 2); bezier_cubic& q = o[r.in(0, 2)]; vec2 v[4] = {q.p0, q.p1, q.p2, q.p3};
    bool rev = r.coin(); for (int i = 0; i < 4; ++i) { c.D[8 + 2 * i] = v[rev ? 3 - i : i].x; c.D[9 + 2 * i] = v[rev ? 3 - i : i].y; } c.I.push_back(1);
  }
  place(r, c.D); return c;
}
static Res chk_cc(const Case& c) {
  ld size, mag; if (!sane(c.D, 16, size, mag) || c.I.empty() || c.I[0] < 10 || c.I[0] > 45) return Res::Discard();
  bezier_cubic a = curve(c.D, 0), b = curve(c.D, 8);
  for (auto* q : {&a, &b}) if (hypotl((ld)q->p1.x - q->p0.x, (ld)q->p1.y - q->p0.y) + hypotl((ld)q->p2.x - q->p1.x, (ld)q->p2.y - q->p1.y) + hypotl((ld)q->p3.x - q->p2.x, (ld)q->p3.y - q->p2.y) < 1e-2L * size) return Res::Discard();
  auto eq = [](const vec2& x, const vec2& y) { return x == y; };
  bool same = (eq(a.p0, b.p0) && eq(a.p1, b.p1) && eq(a.p2, b.p2) && eq(a.p3, b.p3)) || (eq(a.p0, b.p3) && eq(a.p1, b.p2) && eq(a.p2, b.p1) && eq(a.p3, b.p0));
  auto r = c.I[0] == 25 ? rmath::intersect(a, b) : rmath::intersect(a, b, (int)c.I[0]);
  if (r.count < 0 || r.count > 9) return Res::Fail(fmt("%d intersections", r.count));
  if (same) return r.count == 0 ? Res::Ok(true, 32) : Res::Fail("equal curves have no isolated intersections");
  if (c.I.size() > 1) { // running along each other: an answer, and not far off
    for (int i = 0; i < r.count; ++i) { auto& q = r.data[i]; if (!(q.t0 >= 0 && q.t0 <= 1 && q.t1 >= 0 && q.t1 <= 1)) return Res::Fail("parameter outside [0,1]"); ld d = hypotl(bez(a, q.t0, 0) - bez(b, q.t1, 0), bez(a, q.t0, 1) - bez(b, q.t1, 1)); if (d > .02L * size) return Res::Fail(fmt("the curves are %.3Lg apart at the reported parameters %.12g and %.12g", d, q.t0, q.t1)); }
    return Res::Ok(true, 512);
  }
  std::vector<Hit> hs; hits(a, b, hs, size); bool grazing = r.count > (int)hs.size(); for (auto& h : hs) grazing |= h.sn < .1L || h.t == 0 || h.t == 1 || h.u == 0 || h.u == 1;
  // beyond the default precision it is lowered where the curves run close together
  ld cell = std::max(powl(.5L, (grazing ? std::min(c.I[0], 20L) : c.I[0]) + 1), 64 * 2.3e-16L * mag / size); // or the precision of the coordinates
  for (int i = 0; i < r.count; ++i) {
    auto& q = r.data[i]; if (!(q.t0 >= 0 && q.t0 <= 1 && q.t1 >= 0 && q.t1 <= 1)) return Res::Fail("parameter outside [0,1]");
    ld d = hypotl(bez(a, q.t0, 0) - bez(b, q.t1, 0), bez(a, q.t0, 1) - bez(b, q.t1, 1)); if (d > 12 * cell * size + 1e-12L * mag) return Res::Fail(fmt("the curves are %.3Lg apart at the reported parameters %.12g and %.12g", d, q.t0, q.t1));
    if (fabsl(bez(a, q.t0, 0) - q.p.x) > 1e-10L * mag || fabsl(bez(a, q.t0, 1) - q.p.y) > 1e-10L * mag) return Res::Fail("the point is not on the first curve at its parameter");
  }
  int firm = 0, ends = 0; const ld sep = std::max(2e-3L, 256 * cell);
  for (auto& h : hs) {
    if (h.sn < 1e-2L) continue; bool lone = true; for (auto& o : hs) if (&o != &h && fabsl(o.t - h.t) < sep && fabsl(o.u - h.u) < sep) lone = false; if (!lone) continue;
    ends += h.t == 0 || h.t == 1 || h.u == 0 || h.u == 1;
    ++firm; int hit = 0; ld tol = 40 * cell / std::min(h.sn, (ld)1) + 1e-12L; for (int i = 0; i < r.count; ++i) hit += fabsl(r.data[i].t0 - h.t) <= tol && fabsl(r.data[i].t1 - h.u) <= tol;
    if (!hit) return Res::Fail(fmt("the crossing at parameters %.12Lg and %.12Lg is not reported (%d are)", h.t, h.u, r.count));
  }
  return Res::Ok(firm > 0, (firm ? 1u << std::min(firm, 4) : 1u) | (ends ? 1024 : 0) | (r.count > (int)hs.size() ? 64 : 0) | (firm == 9 ? 128 : 0) | (c.I[0] > 25 ? 256 : 0));
}
static Reg r14([] { Prop p; p.id = "C14"; p.gen = gen_cc; p.check = chk_cc; p.quick = 300000; p.thorough = 12000000; p.hang_s = 30; p.domain = [](const Case& c) { if (c.D.size() != 16) return true; Case k; for (int j = 0; j < 16; j += 8) { Pth q{gens::M(c.D[j], c.D[j + 1]), gens::Cc(c.D[j + 2], c.D[j + 3], c.D[j + 4], c.D[j + 5], c.D[j + 6], c.D[j + 7])}; k.S.push_back(q); } return clip::curves_apart(k); };
  p.labels = {"no clear crossing", "one crossing", "two crossings", "three crossings", "four or more crossings", "equal curves", "more reports than crossings found", "nine crossings", "high precision", "one is part of the other", "contact at an end"};
  p.assumptions = {"of curves that run along each other without being equal only termination, the count and rough closeness of the reports are judged (documented as open in the code)"};
  p.rule = "pairs of cubics of the kinds of C13, with and without shared ends, equal and reversed, waves crossing each other up to nine times, ends exactly on the other curve, parts of each other, default, lower and higher precision. Oracle: fine subdivision and Newton in long double. Every clear (transversal, isolated) crossing or contact at an end must be reported, every report must lie on both curves. Non-trivial: at least one clear crossing."; return p; }());

// ---- C15: operations on a curve. D: curve, t, y
static Case gen_bz(Rng& r) {
  Case c; rnd_curve(r, c.D); place(r, c.D);
  std::vector<double> t; int n = r.in(1, 5); for (int i = 0; i < n; ++i) t.push_back(r.coin(.1) ? r.in(0, 1) : r.coin(.2) ? r.in(1, 7) / 8.0 : r.unit()); std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end());
  double lo = 1e300, hi = -1e300; for (int i = 0; i < 4; ++i) { lo = std::min(lo, c.D[2 * i + 1]); hi = std::max(hi, c.D[2 * i + 1]); }
  c.D.push_back(r.coin(.25) ? c.D[r.coin(.7) ? 6 * r.in(0, 1) + 1 : 2 * r.in(1, 2) + 1] : r.real(lo - .05 * (hi - lo), hi + .05 * (hi - lo)));
  for (double x : t) c.D.push_back(x); return c;
}
static Res chk_bz(const Case& c) {
  ld size, mag; if (!sane(c.D, 8, size, mag) || c.D.size() < 10 || c.D.size() > 20) return Res::Discard();
  bezier_cubic b = curve(c.D, 0); double y = c.D[8]; if (!std::isfinite(y) || fabs(y) > 10 * mag) return Res::Discard();
  std::vector<double> t(c.D.begin() + 9, c.D.end()); for (size_t i = 0; i < t.size(); ++i) if (!(t[i] >= 0 && t[i] <= 1) || (i && t[i] <= t[i - 1])) return Res::Discard();
  ld tol = 1e-12L * mag;
  if (!(b.point_at(0) == b.p0) || !(b.point_at(1) == b.p3)) return Res::Fail("point_at does not give the ends exactly");
  auto pt = [&](const bezier_cubic& q, ld s, ld want_t, const char* what) -> std::string { ld dx = fabsl(bez(q, s, 0) - bez(b, want_t, 0)), dy = fabsl(bez(q, s, 1) - bez(b, want_t, 1)); return dx > tol || dy > tol ? fmt("%s leaves the curve by %.3Lg at %.6Lg", what, std::max(dx, dy), want_t) : ""; };
  for (double x : t) { vec2 p = b.point_at(x); if (fabsl(p.x - bez(b, x, 0)) > tol || fabsl(p.y - bez(b, x, 1)) > tol) return Res::Fail(fmt("point_at(%.17g) is (%.17g,%.17g)", x, p.x, p.y)); }
  { bezier_cubic l, r2; b.split(t[0], &l, &r2); if (!(l.p0 == b.p0) || !(r2.p3 == b.p3) || !(l.p3 == r2.p0)) return Res::Fail("the two halves do not join or lose an end");
    for (int k = 0; k <= 8; ++k) { ld s = k / 8.0L; auto e = pt(l, s, s * t[0], "first half"); if (e.empty()) e = pt(r2, s, t[0] + s * (1 - (ld)t[0]), "second half"); if (!e.empty()) return Res::Fail(e); } }
  { std::vector<bezier_cubic> o(t.size() + 1); bool inner = t.back() < 1; if (inner) { b.split(t.data(), o.data(), t.size());
    if (!(o[0].p0 == b.p0) || !(o.back().p3 == b.p3)) return Res::Fail("splitting at several parameters loses an end");
    ld amp = 1; for (size_t i = 0; i <= t.size(); ++i) { ld a = i ? t[i - 1] : 0, e2 = i < t.size() ? t[i] : 1; if (i && !(o[i].p0 == o[i - 1].p3)) return Res::Fail("pieces do not join");
      ld keep = tol; tol = tol * (1 + amp); for (int k = 0; k <= 8; ++k) { ld s = k / 8.0L; auto e = pt(o[i], s, a + s * (e2 - a), "a piece"); if (!e.empty()) return Res::Fail(e); } tol = keep; amp = 1 / std::max(1 - e2, 1e-6L); } } }
  // box
  auto box = b.get_boundary(); ld btol = 1e-9L * size + 1e-12L * mag; ld lo[2], hi[2]; ld glo[2] = {box.min.x, box.min.y}, ghi[2] = {box.max.x, box.max.y};
  for (int ax = 0; ax < 2; ++ax) { Poly p = axis(b, ax), d; d.n = 2; for (int i = 0; i < 3; ++i) d.a[i] = p.a[i + 1] * (i + 1); std::vector<ld> ex; crossings(d, 0, 1, ex); ex.push_back(0); ex.push_back(1); lo[ax] = 1e30L; hi[ax] = -1e30L; for (ld s : ex) { ld v = bez(b, s, ax); lo[ax] = std::min(lo[ax], v); hi[ax] = std::max(hi[ax], v); }
    if (fabsl(glo[ax] - lo[ax]) > btol || fabsl(ghi[ax] - hi[ax]) > btol) return Res::Fail(fmt("box %c is [%.15Lg, %.15Lg] but the curve covers [%.15Lg, %.15Lg]", "xy"[ax], glo[ax], ghi[ax], lo[ax], hi[ax])); }
  // monotone pieces
  double s[2] = {-1, -1}; int n = b.split_y(s, s + 1); if (n < 0 || n > 2) return Res::Fail("split_y count");
  for (int i = 0; i < n; ++i) if (!(s[i] > 0 && s[i] < 1) || (i && s[i] < s[i - 1])) return Res::Fail("split_y parameters not ascending in (0,1)");
  ld cut[4] = {0, n > 0 ? s[0] : 1, n > 1 ? s[1] : 1, 1}; int pieces = n + 1; cut[pieces] = 1; uint32_t lab = 1u << n;
  for (int i = 0; i < pieces; ++i) { ld v0 = bez(b, cut[i], 1), v1 = bez(b, cut[i + 1], 1), up = v1 >= v0 ? 1 : -1, last = v0; for (int k = 1; k <= 64; ++k) { ld v = bez(b, cut[i] + (cut[i + 1] - cut[i]) * k / 64, 1); if ((v - last) * up < -btol) return Res::Fail(fmt("y is not monotone between %.12Lg and %.12Lg", cut[i], cut[i + 1])); last = v; } }
  { Poly p = axis(b, 1), d; d.n = 2; for (int i = 0; i < 3; ++i) d.a[i] = p.a[i + 1] * (i + 1); std::vector<ld> ex; crossings(d, 0, 1, ex); for (int i = 0; i < n; ++i) { bool near = false; for (ld e : ex) near |= fabsl(e - s[i]) < 1e-6L; if (!near && fabsl(d.at(s[i])) > 1e-6L * size) return Res::Fail("split_y reports a parameter that is no extremum"); } }
  // parameters at a height
  auto q = b.point_at_y(y); if (q.count < 0 || q.count > 3) return Res::Fail("point_at_y count"); Poly p = axis(b, 1); p.a[0] -= y; std::vector<ld> real; crossings(p, 0, 1, real); int firm = 0;
  ld ysz = std::max(hi[1] - lo[1], 0.0L);
  for (int i = 0; i < q.count; ++i) { if (!(q.t[i] >= 0 && q.t[i] <= 1)) return Res::Fail("point_at_y outside [0,1]"); if (fabsl(bez(b, q.t[i], 1) - y) > 1e-7L * size) return Res::Fail(fmt("point_at_y(%.12g) gives %.12g where the height is %.12Lg", y, q.t[i], bez(b, q.t[i], 1))); }
  if (ysz > 1e-3L * size) for (ld x : real) { const ld d = 1e-5L; if (x < 2 * d || x > 1 - 2 * d) continue; bool lone = true; for (ld o : real) if (o != x && fabsl(o - x) < 8 * d) lone = false; if (!lone || fabsl(p.at(x - d)) < 1e-9L * size || fabsl(p.at(x + d)) < 1e-9L * size || (p.at(x - d) < 0) == (p.at(x + d) < 0)) continue;
    ++firm; int hit = 0; for (int i = 0; i < q.count; ++i) hit += fabsl(q.t[i] - x) <= 2 * d; if (hit != 1) return Res::Fail(fmt("the height %.12g at parameter %.12Lg is reported %d times", y, x, hit)); }
  bool at_end = false;
  if (ysz > 1e-3L * size) for (int e = 0; e < 2; ++e) { // the height of an end, where the curve does not start or stop flat
    const ld d = 1e-5L; if (y != (e ? b.p3.y : b.p0.y) || fabsl((e ? (ld)b.p3.y - b.p2.y : (ld)b.p1.y - b.p0.y)) < 1e-3L * size) continue;
    bool lone = true; for (ld o : real) if (fabsl(o - e) > 1e-9L && fabsl(o - e) < 8 * d) lone = false; if (!lone) continue;
    at_end = true; int hit = 0; for (int i = 0; i < q.count; ++i) hit += fabsl(q.t[i] - e) <= 2 * d; if (hit != 1) return Res::Fail(fmt("the height %.17g of the end at %d is reported %d times", y, e, hit)); }
  return Res::Ok(true, lab | (firm ? 8u << std::min(firm - 1, 2) : 0) | (at_end ? 64 : 0));
}
static Reg r15([] { Prop p; p.id = "C15"; p.gen = gen_bz; p.check = chk_bz; p.quick = 1500000; p.thorough = 60000000; p.hang_s = 20; p.labels = {"no extremum", "one extremum", "two extrema", "height met once", "height met twice", "height met three times", "height of an end"};
  p.rule = "cubics of the kinds of C13 over seven decades of scale, 1-5 parameters, one height. Oracles in long double: evaluation, the parameter mapping of split pieces, exact joins, the box of the extrema, monotone pieces, parameters at a height. Every case is non-trivial."; return p; }());

// ---- C16: small helpers. I[0] selects
static Case gen_help(Rng& r) {
  Case c; c.I = {r.in(0, 8)}; bool integer = r.coin(.4); double s = integer ? 1 : std::pow(10.0, r.real(-4, 6));
  for (int i = 0; i < 10; ++i) c.D.push_back(integer ? r.in(-6, 6) : r.real(-1, 1) * s);
  if (c.I[0] == 0 && r.coin(.5)) c.D[0] = (r.coin() ? r.in(-12, 12) * M_PI / (1 << r.in(0, 3)) : r.coin() ? std::ldexp(r.real(-1, 1), -r.in(0, 70)) : r.real(-1e5, 1e5));
  if (c.I[0] == 3) { c.D[4] = r.coin(.3) ? r.in(-8, 8) * M_PI / 4 : r.real(-20, 20); }
  if (c.I[0] == 6) c.D[2] = fabs(c.D[2]) + .1;
  return c;
}
static Res chk_help(const Case& c) {
  if (c.I.empty() || c.D.size() != 10) return Res::Discard(); for (double x : c.D) if (!std::isfinite(x) || fabs(x) > 1e7) return Res::Discard();
  auto& D = c.D; ld mag = 0; for (double x : D) mag = std::max(mag, (ld)fabs(x)); const ld PI = 3.14159265358979323846264338327950288L; bool nt = true;
  auto close = [&](ld a, ld b, ld tol) { return fabsl(a - b) <= tol; };
  vec2 a(D[0], D[1]), b(D[2], D[3]), p(D[4], D[5]), q(D[6], D[7]);
  switch (c.I[0]) {
  case 0: { double v = rmath::clamp_0_2pi(D[0]); if (!(v >= 0 && v < 2 * rmath::pi)) return Res::Fail(fmt("clamp_0_2pi(%.17g) = %.17g", D[0], v)); ld d = remainderl((ld)v - D[0], 2 * (ld)rmath::pi); if (fabsl(d) > 1e-12L * (fabsl(D[0]) + 1)) return Res::Fail(fmt("clamp_0_2pi(%.17g) = %.17g is another direction", D[0], v)); break; }
  case 1: { // vectors
    ld t = 1e-13L * (mag * mag + mag + 1); double k = D[8];
    if (!close(a.dot(b), (ld)a.x * b.x + (ld)a.y * b.y, t)) return Res::Fail("dot"); if (!close(a.cross(b), (ld)a.x * b.y - (ld)a.y * b.x, t)) return Res::Fail("cross");
    if (!close(a.dist2(), (ld)a.x * a.x + (ld)a.y * a.y, t)) return Res::Fail("dist2"); if (!close(a.dist(), hypotl(a.x, a.y), t)) return Res::Fail("dist");
    if (!(a + b == vec2(a.x + b.x, a.y + b.y)) || !(a - b == vec2(a.x - b.x, a.y - b.y)) || !(-a == vec2(-a.x, -a.y)) || !(a * k == vec2(a.x * k, a.y * k)) || !(k * a == a * k) || !(a + k == vec2(a.x + k, a.y + k)) || !(a - k == vec2(a.x - k, a.y - k))) return Res::Fail("vector arithmetic");
    if (k != 0 && !(a / k == vec2(a.x / k, a.y / k))) return Res::Fail("vector division"); if ((a == b) != (a.x == b.x && a.y == b.y) || (a != b) == (a == b)) return Res::Fail("comparison");
    double w = remainder(D[9], 7); vec2 r = a.rotated(w); ld cs = cosl(w), sn = sinl(w); if (!close(r.x, cs * a.x - sn * a.y, t) || !close(r.y, sn * a.x + cs * a.y, t)) return Res::Fail("rotated"); vec2 r2 = a; if (!(r2.rotate(w) == r) || !(r2 == r)) return Res::Fail("rotate");
    if (a.dist() > 1e-6) { vec2 n = a.normalization(); if (!close(n.dist(), 1, 1e-12L) || !close(n.cross(a), 0, 1e-12L * mag) || n.dot(a) <= 0) return Res::Fail("normalization"); vec2 m = a; m.normalizate(); if (!(m == n)) return Res::Fail("normalizate"); } else nt = false;
    break; }
  case 2: { // boxes
    auto r = rmath::rect::from({a, b, p}); if (r.min.x != std::min({a.x, b.x, p.x}) || r.min.y != std::min({a.y, b.y, p.y}) || r.max.x != std::max({a.x, b.x, p.x}) || r.max.y != std::max({a.y, b.y, p.y})) return Res::Fail("rect::from");
    if (r.width() != r.max.x - r.min.x || r.height() != r.max.y - r.min.y) return Res::Fail("width or height"); if (!close(r.center().x, ((ld)r.min.x + r.max.x) / 2, 1e-13L * mag) || !close(r.center().y, ((ld)r.min.y + r.max.y) / 2, 1e-13L * mag)) return Res::Fail("center");
    double k = fabs(D[8]); auto g = r.inflated(k); if (g.min.x != r.min.x - k || g.min.y != r.min.y - k || g.max.x != r.max.x + k || g.max.y != r.max.y + k) return Res::Fail("inflated");
    rmath::rect o(a, k); if (o.min.x != a.x - k || o.max.y != a.y + k || o.min.y != a.y - k || o.max.x != a.x + k) return Res::Fail("box around a point"); auto s = rmath::rect::from({q, vec2(D[8], D[9])});
    bool hit = std::max(r.min.x, s.min.x) <= std::min(r.max.x, s.max.x) && std::max(r.min.y, s.min.y) <= std::min(r.max.y, s.max.y); if (r.intersect(s) != hit || s.intersect(r) != hit) return Res::Fail("rect::intersect"); nt = hit; break; }
  case 3: { // arcs: D = start, center, sweep
    ld rad = hypotl((ld)a.x - b.x, (ld)a.y - b.y); if (rad < 1e-6 || fabs(D[4]) > 1000 || mag > 1e6 * rad) return Res::Discard(); rmath::arc k(a, b, D[4]); ld t = 1e-9L * (rad + mag);
    if (!(k.start() == a) || !(k.center() == b) || k.sweep_rad() != D[4]) return Res::Fail("arc forgets what it was made of"); if (!close(k.radius(), rad, t)) return Res::Fail("arc radius");
    ld s = atan2l((ld)a.y - b.y, (ld)a.x - b.x); auto dir = [&](ld u, ld v) { return fabsl(remainderl(u - v, 2 * PI)) < 1e-9L; };
    if (!dir(k.start_rad(), s) || !dir(k.end_rad(), s + D[4])) return Res::Fail(fmt("arc angles %.12g %.12g, expected %.12Lg %.12Lg", k.start_rad(), k.end_rad(), s, s + D[4])); if (!(k.start_rad() >= 0 && k.start_rad() < 2 * rmath::pi && k.end_rad() >= 0 && k.end_rad() < 2 * rmath::pi)) return Res::Fail("arc angles outside [0,2pi)");
    if (!close(k.end().x, b.x + rad * cosl(s + D[4]), t) || !close(k.end().y, b.y + rad * sinl(s + D[4]), t)) return Res::Fail("arc end point");
    auto v = k.reverse(); if (!(v.start() == k.end()) || !(v.end() == k.start()) || !(v.center() == k.center()) || v.sweep_rad() != -k.sweep_rad() || v.start_rad() != k.end_rad() || v.end_rad() != k.start_rad() || v.radius() != k.radius()) return Res::Fail("reversed arc");
    break; }
  case 4: { // line equation
    rmath::line l{a, b}; double A, B, C; l.general_from(&A, &B, &C); if (A == 0 && B == 0) return Res::Fail("degenerate equation"); ld n = hypotl(A, B); ld t = 1e-12L * (mag + 1e-300L);
    for (auto& v : {a, b}) if (fabsl((ld)A * v.x + (ld)B * v.y + C) / n > t + 1e-12L * mag * mag / n) return Res::Fail("an end is not on the line"); if (!(a == b)) { vec2 m(a.x - (b.y - a.y), a.y + (b.x - a.x)); if (fabsl(((ld)A * m.x + (ld)B * m.y + C) / n) < .5L * hypotl((ld)b.x - a.x, (ld)b.y - a.y) ) return Res::Fail("a point off the line satisfies its equation"); } break; }
  case 5: { // distance to the infinite line, projection into the segment
    ld ux = (ld)b.x - a.x, uy = (ld)b.y - a.y, vx = (ld)p.x - a.x, vy = (ld)p.y - a.y, d = ux * ux + uy * uy; ld cr = ux * vy - uy * vx, dt = ux * vx + uy * vy; ld want = d == 0 ? vx * vx + vy * vy : cr * cr / d;
    if (d > 0 && d < 1e-12L * mag * mag) return Res::Discard(); ld cond = d > 0 ? mag * mag / d : 1; if (!close(rmath::dist2_point_line(p, a, b), want, 1e-12L * mag * mag * std::max(cond, (ld)1))) return Res::Fail(fmt("squared distance %.12g, expected %.12Lg", rmath::dist2_point_line(p, a, b), want));
    bool in = rmath::point_project_in_segment(p, a, b); if (d == 0) { if (in != (vx == 0 && vy == 0)) return Res::Fail("projection into a point"); break; } ld f = dt / d; bool whole = true; for (ld q : {(ld)p.x, (ld)p.y, (ld)a.x, (ld)a.y, (ld)b.x, (ld)b.y}) whole &= q == floorl(q) && fabsl(q) < 1e4L; if (whole && (f == 0 || f == 1) && !in) return Res::Fail("a point exactly across an end is judged outside"); if (f > 1e-9L && f < 1 - 1e-9L ? !in : f < -1e-9L || f > 1 + 1e-9L ? in : false) return Res::Fail(fmt("projection factor %.12Lg judged %d", f, in)); break; }
  case 6: { // circle of four cubics
    double r = D[2]; if (r < 1e-6 * mag || r > 1e6) return Res::Discard(); bezier_cubic o[4]; bezier_cubic::circle(a, r, o); ld t = 1e-12L * (mag + r); const ld wx[] = {1, 0, -1, 0}, wy[] = {0, 1, 0, -1};
    for (int i = 0; i < 4; ++i) { if (!close(o[i].p0.x, a.x + r * wx[i], t) || !close(o[i].p0.y, a.y + r * wy[i], t)) return Res::Fail("quarter starts elsewhere"); if (!(o[i].p3 == o[(i + 1) % 4].p0)) return Res::Fail("quarters do not join");
      for (int k = 0; k <= 32; ++k) { ld u = k / 32.0L, x = bez(o[i], u, 0) - a.x, y = bez(o[i], u, 1) - a.y; if (fabsl(hypotl(x, y) / r - 1) > 3e-4L) return Res::Fail("off the circle"); ld an = remainderl(atan2l(y, x) - i * PI / 2 - PI / 4, 2 * PI); if (fabsl(an) > PI / 4 + 1e-6L) return Res::Fail("outside its quadrant"); } }
    break; }
  case 7: { // symmetry of segment intersection
    if (a == b || p == q) return Res::Discard(); auto r = rmath::intersect(a, b, p, q), s = rmath::intersect(p, q, a, b); if (r.count != s.count) { ld cr = fabsl(((ld)b.x - a.x) * ((ld)q.y - p.y) - ((ld)b.y - a.y) * ((ld)q.x - p.x)); if (cr > 1e-9L * mag * mag) { bool edge = false; auto& z = r.count > s.count ? r : s; for (int i = 0; i < z.count; ++i) for (double w : {z.data[i].t0, z.data[i].t1}) edge |= w < 1e-12 || w > 1 - 1e-12; if (!edge) return Res::Fail("depends on the order of the segments"); } } nt = r.count > 0; break; }
  default: { // a rectangle given by corners and by point
    rmath::rect r(a); if (!(r.min == a) || !(r.max == a)) return Res::Fail("box of a point"); rmath::rect e = rmath::rect::from({a}); if (!(e.min == a) || !(e.max == a)) return Res::Fail("rect::from one point"); vec2 z(D[8]); if (z.x != D[8] || z.y != D[8]) return Res::Fail("vec2 from a number"); vec2 d0; if (d0.x != 0 || d0.y != 0) return Res::Fail("vec2 default"); break; }
  }
  return Res::Ok(nt, 1u << c.I[0]);
}
static Reg r16([] { Prop p; p.id = "C16"; p.gen = gen_help; p.check = chk_help; p.quick = 6000000; p.thorough = 200000000; p.hang_s = 20; p.labels = {"clamp_0_2pi", "vectors", "boxes", "arcs", "line equation", "distance and projection", "circle", "symmetry", "constructors"};
  p.rule = "integer and real arguments over ten decades, multiples of pi, zero lengths. Oracles: definitions in long double. Non-trivial: the helper had something to decide (boxes that meet, vectors of non-zero length)."; return p; }());
