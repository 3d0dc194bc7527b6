// Metamorphic laws: a known change of the input has a known effect on the result.
#include "cases.h"
using namespace cases;

// same region? compared where neither input boundary is near
static bool same(const Region& S, const Region& C, const Region& a, const Region& b, double tol, long& inside, std::string& why) {
  auto v = geo::sweep({&S, &C, &a, &b}, tol, 3, [&](const int* w, bool& in) { in = w[2] & 1; return (w[2] & 1) == (w[3] & 1); }, 3);
  inside = v.want;
  if (v.bad) why = pbt::fmt("at (%.12Lg, %.12Lg) one result has winding %d, the other %d", v.x, v.y, v.w[2], v.w[3]);
  return !v.bad;
}
enum { L_swap, L_order, L_start, L_reverse, L_mirrorx, L_mirrory, L_transpose, L_rot, L_scale, L_shift, L_self, L_empty, L_again, L_far, L_merge, L_diff, L_count };
static const char* kLaw[] = {"commutes", "order of contours", "start vertex and spelling", "reversal", "mirror x", "mirror y", "transpose", "rotation by 90 degrees", "scaling by a power of two", "translation", "operation with itself", "operation with nothing", "result is a fixed point", "far away shapes do not interact", "rewriting the contours as one path", "difference as intersection with xor"};

static Case gen_law(Rng& r) {
  Case c = gen_any(r);
  if (c.I[0] == 0) c.I[0] = r.in(1, 4);
  int law = r.in(0, L_count - 1);
  if (law == L_diff && r.coin() && c.I[2] != F_recti) law = L_again;
  if (law == L_diff) { c.S.clear(); c.C.clear(); fill(r, c.S, F_recti, r.in(1, 3), {}); fill(r, c.C, F_recti, r.in(1, 3), c.S); c.I[2] = F_recti; c.I[3] = 0; } // elsewhere edges would coincide only up to rounding
  if (law == L_transpose || law == L_rot) // horizontal curves (dropped as such) would become vertical ones that overlap
    for (auto* v : {&c.S, &c.C}) for (auto& p : *v) for (size_t i = 1; i < p.size(); ++i) if (p[i].t == 'c' && p[i].v[1] == p[i].v[5] && p[i].v[3] == p[i].v[5] && endp(p[i - 1]).y == p[i].v[5]) law = L_mirrorx;
  c.I.push_back(law); c.I.push_back(r.in(0, 1 << 20));
  return c;
}
static Res chk_law(const Case& c) {
  if (!valid_case(c) || c.I[0] < 1 || c.I.size() < 6) return Res::Discard();
  Region S = geo::region(c.S), C = geo::region(c.C);
  int op = c.I[0], rule = c.I[1]; double tol = tolerance(S, C, c.I[3]);
  pbt::Rng r((uint64_t)c.I[5]);
  std::vector<Pth> S2 = c.S, C2 = c.C; int op2 = op, rule2 = rule;
  static const int flip[4] = {0, 1, 3, 2};
  std::function<void(double&, double&)> back; // maps the second result onto the first
  auto both = [&](const std::function<void(double&, double&)>& f) { map_xy(S2, f); map_xy(C2, f); };
  auto contours = [](const std::vector<Pth>& v) { std::vector<Pth> o; for (auto& p : v) for (auto& e : p) { if (e.t == 'm') o.push_back({}); o.back().push_back(e); } return o; };
  Out a = run(c.S, c.C, op, rule), b;
  bool have_b = false;
  switch (c.I[4]) {
  case L_swap: std::swap(S2, C2); if (op == 3) return Res::Ok(false); break;
  case L_order: for (auto* v : {&S2, &C2}) { *v = contours(*v); for (size_t i = v->size(); i > 1; --i) std::swap((*v)[i - 1], (*v)[r.next() % i]); } break;
  case L_start: for (auto* v : {&S2, &C2}) { *v = contours(*v); spell(r, *v, false); } break;
  case L_reverse: for (auto* v : {&S2, &C2}) { *v = contours(*v); for (auto& p : *v) if (p.size() > 1) p = reversed(closed(p)); } rule2 = flip[rule]; break;
  case L_mirrorx: both([](double& x, double&) { x = -x; }); back = [](double& x, double&) { x = -x; }; rule2 = flip[rule]; break;
  case L_mirrory: both([](double&, double& y) { y = -y; }); back = [](double&, double& y) { y = -y; }; rule2 = flip[rule]; break;
  case L_transpose: both([](double& x, double& y) { std::swap(x, y); }); back = [](double& x, double& y) { std::swap(x, y); }; rule2 = flip[rule]; break;
  case L_rot: both([](double& x, double& y) { double t = x; x = -y; y = t; }); back = [](double& x, double& y) { double t = x; x = y; y = -t; }; break;
  case L_scale: { double f = std::ldexp(1.0, r.coin() ? r.in(-4, 6) : r.in(-45, 30)); both([f](double& x, double& y) { x *= f; y *= f; }); back = [f](double& x, double& y) { x /= f; y /= f; }; break; }
  case L_shift: { geo::Ext e; geo::extend(e, S); geo::extend(e, C); double q = std::ldexp(1.0, std::ilogb(e.mag() > 0 ? e.mag() : 1)), dx = r.in(-3, 3) * q, dy = r.in(-3, 3) * q;
      both([=](double& x, double& y) { x += dx; y += dy; }); back = [=](double& x, double& y) { x -= dx; y -= dy; };
      tol *= c.I[3] ? 1 : 8; break; }
  case L_self: C2 = S2; C = S; a = run(c.S, {}, 2, rule); b = run(S2, C2, op, rule); have_b = true; if (op >= 3) a = Out(); break;
  case L_empty: C2.clear(); b = run(S2, C2, op, rule); have_b = true; a = run({}, c.S, 2, rule); C.clear(); if (op == 1) a = Out(); break;
  case L_again: b = run(a.raw, {}, r.in(0, 1) ? 2 : 4, rule); have_b = true; break;
  case L_far: { geo::Ext e; geo::extend(e, S); geo::extend(e, C); if (e.size() <= 0) return Res::Ok(false);
      double q = std::ldexp(1.0, std::ilogb(e.mag()) + 2); std::vector<Pth> far = c.S; map_xy(far, [=](double& x, double& y) { x += (r.s & 1 ? q : -q); y += 0 * q; (void)y; });
      // the far copy of the subject alone: present in everything but the intersection
      S2.insert(S2.begin(), far.begin(), far.end()); b = run(S2, C2, op, rule); have_b = true;
      a = run(c.S, c.C, op, rule); if (op != 1) { Out f = run(far, {}, 2, rule); for (auto& x : f.R) a.R.push_back(x); }
      Region F = geo::region(far); S.insert(S.end(), F.begin(), F.end()); tol *= c.I[3] ? 1 : 16; break; }
  case L_merge: for (auto* v : {&S2, &C2}) { Pth all; for (auto& p : *v) all.insert(all.end(), p.begin(), p.end()); if (!all.empty()) *v = {all}; } break;
  case L_diff: { // A - B = A and (A xor B)
      Out x = run(c.S, c.C, 4, rule); a = run(c.S, c.C, 3, rule); std::vector<Pth> A = run(c.S, {}, 2, rule).raw; b = run(A, x.raw, 1, rule); have_b = true; break; }
  }
  if (!have_b) {
    b = run(S2, C2, op2, rule2);
    if (back) { map_xy(b.raw, back); finish(b); }
  }
  for (auto* o : {&a, &b}) if (!o->err.empty()) return Res::Fail(o->err);
  long in = 0; std::string why;
  if (!same(S, C, a.R, b.R, tol, in, why)) return Res::Fail(pbt::fmt("%s/%s: law '%s' broken: %s", opname(op), rulename(rule), kLaw[c.I[4]], why.c_str()));
  return Res::Ok(in > 0, (labels(c, in > 0) & 0x3fff) | 1u << (14 + c.I[4]));
}
static Reg r6([] { Prop p; p.id = "C06"; guard(p); p.labels.resize(14); for (auto* l : kLaw) p.labels.push_back(std::string("law ") + l);
  p.gen = gen_law; p.check = chk_law; p.quick = 120000; p.thorough = 6000000;
  p.rule = "cases of C01, C02 and C03 and one of 16 laws; both results are compared as regions. Non-trivial: some probe point inside the first result."; return p; }());
