// Histories on processors, interface equivalence, path container, memory, threads.
#include "cases.h"
#include "rmath.h"
#include <malloc.h>
#include <thread>
#include <cstring>
using namespace cases;

// reader over harness paths: one call delivers every contour of a path list
static void rd(read_path_func_para) {
  auto& ps = *(const std::vector<Pth>*)paths; river::point cur(0, 0);
  for (auto& p : ps) for (auto& e : p) {
    river::point to(endp(e).x, endp(e).y);
    if (e.t == 'm') segment_funcs.move_to(cur, to, user);
    else if (e.t == 'l') segment_funcs.line_to(cur, to, user);
    else segment_funcs.cubic_to(cur, river::point(e.v[0], e.v[1]), river::point(e.v[2], e.v[3]), to, user);
    cur = to;
  }
}
static bool eq(const river::path& a, const river::path& b) {
  return a.element_types == b.element_types && a.data.size() == b.data.size() && (a.data.empty() || !memcmp(a.data.data(), b.data.data(), a.data.size() * sizeof(double)));
}

// a writer that gives up after some calls
struct Stop { int left; };
static river::path_traverse_funcs stopper() {
  river::path_traverse_funcs f; f.move_to = [](path_moveto_func_para) { if (((Stop*)user)->left-- <= 0) throw 7; };
  f.line_to = [](path_lineto_func_para) { if (((Stop*)user)->left-- <= 0) throw 7; };
  f.cubic_to = [](path_cubicto_func_para) { if (((Stop*)user)->left-- <= 0) throw 7; };
  return f;
}
static void give_up(river::processor& p, int op, int rule, int after) { Stop s{after}; try { p.process((river::clip_type)op, (river::fill_rule)rule, stopper(), &s); } catch (int) {} }

// ---- C07: a history is a list of steps in I[4..]: 0 add next path as subject, 1 as clip, 2 add through callbacks as subject, 3 as clip,
// 4+k process with operation k%5 and rule k/5%4 into paths, or for k>=20 into callbacks; 44+n process through callbacks that throw at call n/2; 64+s switch to processor s; 80+s reset processor s
static Case gen_hist(Rng& r) {
  Case c; c.I = {r.in(0, 7), 0}; bool curves = r.coin(.25); int fam, base;
  static const std::vector<int> gf{F_grid, F_recti, F_octi, F_comb}, cf{F_curve, F_circle, F_mixed, F_blob, F_capsule, F_quad};
  base = fam = r.pick(curves ? cf : gf); c.I.push_back(fam); c.I.push_back(curves ? 2 : 0);
  int n = r.in(3, curves ? 9 : 16);
  std::vector<Pth> all;
  for (int i = 0; i < n; ++i) {
    double u = r.unit();
    if (i == 0 || u < .45) {
      std::vector<Pth> one1{one(r, r.coin(.15) && !curves ? (int)F_recti : base, all)};
      if (!all.empty() && r.coin(.2)) one1[0] = r.pick(all); // the same contour again
      all.push_back(one1[0]); spell(r, one1); c.S.push_back(one1[0]); c.I.push_back(r.in(0, 3));
    }
    else if (u < .52) c.I.push_back(44 + r.in(0, 19));
    else if (u < .88 || curves) c.I.push_back(4 + r.in(0, 39));
    else if (u < .96) c.I.push_back(64 + r.in(0, 2));
    else c.I.push_back(80 + r.in(0, 2));
  }
  c.I.push_back(4 + r.in(1, 4) + 5 * r.in(0, 3));
  return c;
}
static Res chk_hist(const Case& c) {
  if (!valid_case(c) || c.I.size() < 4) return Res::Discard();
  struct St { std::unique_ptr<river::processor> p{new river::processor}; std::vector<Pth> S, C; };
  St st[3]; int cur = 0; size_t at = 0; int runs = 0, late = 0, stopped = 0; bool nonempty = false;
  river::paths acc; // results of all processes into paths, across processors; may hold the caller's own paths
  if (c.I[0] & 1) acc.emplace_back();
  if (c.I[0] & 2) { acc.emplace_back(); acc.back().moveto(1, 2); acc.back().lineto(3, 4); acc.emplace_back(); acc.back().moveto(5, 6); }
  for (size_t i = 4; i < c.I.size(); ++i) {
    long k = c.I[i]; St& s = st[cur];
    if (k < 4) {
      if (at >= c.S.size()) continue;
      auto& dst = k & 1 ? s.C : s.S; std::vector<Pth> one1{c.S[at++]}; dst.push_back(one1[0]);
      auto pt = k & 1 ? river::path_type::clip : river::path_type::subject;
      if (k < 2) s.p->add_path(to_paths(one1), pt); else s.p->add_path(rd, &one1, pt);
      if (runs) ++late;
    } else if (k < 44) {
      int op = (k - 4) % 5, rule = (k - 4) / 5 % 4; Out o;
      if (k - 4 >= 20) { s.p->process((river::clip_type)op, (river::fill_rule)rule, writer(), &o); finish(o); }
      else {
        if (c.I[0] & 4) acc.emplace_back();
        river::paths before; for (auto& q : acc) { before.emplace_back(); before.back().data = q.data; before.back().element_types = q.element_types; }
        s.p->process((river::clip_type)op, (river::fill_rule)rule, acc);
        if (acc.size() < before.size()) return Res::Fail("process() removed earlier paths from the output");
        for (size_t j = 0; j < before.size(); ++j) if (!eq(acc[j], before[j])) return Res::Fail("process() changed earlier paths in the output");
        for (size_t j = before.size(); j < acc.size(); ++j) acc[j].traverse(writer(), &o);
        finish(o);
      }
      ++runs;
      if (!o.err.empty()) return Res::Fail(pbt::fmt("step %zu: %s", i, o.err.c_str()));
      Region S = geo::region(s.S), C = geo::region(s.C);
      Res r = region_check(S, C, o, op, rule, tolerance(S, C, c.I[3]));
      if (r.kind == Res::fail) { r.msg = pbt::fmt("step %zu (process number %d): ", i, runs) + r.msg; return r; }
      nonempty |= r.nontrivial;
    } else if (k < 64) { give_up(*s.p, 1 + k % 4, k / 4 % 4, (k - 44) / 2); ++stopped; }
    else if (k < 80) cur = (k - 64) % 3;
    else { St& t = st[(k - 80) % 3]; t.p.reset(new river::processor); t.S.clear(); t.C.clear(); }
  }
  return Res::Ok(nonempty && runs >= 2, (runs >= 2 ? 1 : 0) | (late ? 2 : 0) | (c.I[3] == 2 ? 4 : 0) | (runs >= 4 ? 8 : 0) | (stopped ? 16 : 0));
}
static Reg r7([] { Prop p; p.id = "C07"; guard(p); p.labels = {"two or more process calls", "paths added after a process", "curves", "four or more process calls", "a caller's writer threw"}; p.gen = gen_hist; p.check = chk_hist; p.quick = 120000; p.thorough = 6000000;
  p.rule = "histories of 3-17 steps over three processors: add a path (as data or through callbacks, as subject or clip), process with any operation and rule into a common path list, which may hold empty and other paths of the caller, or through callbacks, through callbacks that throw an exception half way, switch processor, replace a processor. Model: the multiset of paths added so far; every result is checked against the winding oracle. Non-trivial: at least two process calls and a non-empty result."; return p; }());

// ---- C08
static Case gen_iface(Rng& r) { Case c = gen_any(r); c.I.push_back(r.in(0, 5)); c.I.push_back(r.in(0, 3) + (r.coin(.3) ? 4 * r.in(1, 7) : 0)); return c; }
static Res chk_iface(const Case& c) {
  if (!valid_case(c) || c.I.size() < 6) return Res::Discard();
  Region S = geo::region(c.S), C = geo::region(c.C);
  river::processor pr; auto op = (river::clip_type)c.I[0]; auto fr = (river::fill_rule)c.I[1];
  auto contours = [](const std::vector<Pth>& v) { std::vector<Pth> o; for (auto& p : v) for (auto& e : p) { if (e.t == 'm') o.push_back({}); o.back().push_back(e); } return o; };
  auto add = [&](const std::vector<Pth>& v, river::path_type pt) -> bool {
    switch (c.I[4]) {
    case 0: { river::paths in; long e = c.I[5] >> 2; if (e & 1) in.emplace_back(); for (size_t i = 0; i < v.size(); ++i) { in.push_back(to_path(v[i])); if (e & 2) in.emplace_back(); } if (e & 4) in.emplace_back(); // paths without elements add nothing
      river::paths cp; for (auto& p : in) { cp.emplace_back(); cp.back().data = p.data; cp.back().element_types = p.element_types; } pr.add_path(in, pt); if (in.size() != cp.size()) return false; for (size_t i = 0; i < in.size(); ++i) if (!eq(in[i], cp[i])) return false; break; }
    case 1: { std::vector<Pth> tmp = v; pr.add_path(rd, &tmp, pt); break; }                                    // all at once through callbacks
    case 2: for (auto& p : v) { std::vector<Pth> tmp{p}; pr.add_path(rd, &tmp, pt); } break;
    case 3: for (auto& p : contours(v)) { std::vector<Pth> tmp{closed(p)}; pr.add_path(to_paths(tmp), pt); } break; // explicit closing, one call each
    case 4: { Pth all; for (auto& p : v) all.insert(all.end(), p.begin(), p.end()); if (!all.empty()) { std::vector<Pth> tmp{all}; pr.add_path(to_paths(tmp), pt); } break; } // one path, many movetos
    default: { auto in = to_paths(v); for (auto& p : in) { // through path::traverse from a caller's reader
        pr.add_path([](read_path_func_para) { ((const river::path*)paths)->traverse(segment_funcs, user); }, &p, pt); } break; }
    }
    return true;
  };
  bool clip_first = c.I[5] & 1;
  bool ok = clip_first ? add(c.C, river::path_type::clip) && add(c.S, river::path_type::subject) : add(c.S, river::path_type::subject) && add(c.C, river::path_type::clip);
  if (!ok) return Res::Fail("add_path changed its input");
  Out o;
  if (c.I[5] & 2) { pr.process(op, fr, writer(), &o); finish(o); } else { river::paths ps; pr.process(op, fr, ps); o = from_paths(ps); }
  if (!o.err.empty()) return Res::Fail(o.err);
  Res r = region_check(S, C, o, c.I[0], c.I[1], tolerance(S, C, c.I[3]));
  if (r.kind == Res::fail) { static const char* w[] = {"paths", "one reader call", "reader per path", "closed, one call each", "one path", "reader over path::traverse"}; r.msg = std::string("input as ") + w[c.I[4]] + ": " + r.msg; return r; }
  r.labels = (labels(c, r.nontrivial) & 0x3fff) | 1u << (14 + c.I[4]) | (c.I[5] & 1 ? 1u << 20 : 0) | (c.I[5] & 2 ? 1u << 21 : 0) | (c.I[5] >> 2 && c.I[4] == 0 ? 1u << 22 : 0);
  return r;
}
static Reg r8([] { Prop p; p.id = "C08"; guard(p); p.labels.resize(14); for (auto* s : {"as paths", "one reader call", "reader per path", "closed, one call each", "one path", "reader over traverse", "clip added first", "result through callbacks", "empty paths between"}) p.labels.push_back(s);
  p.gen = gen_iface; p.check = chk_iface; p.quick = 150000; p.thorough = 8000000;
  p.rule = "cases of C01, C02 and C03, handed over in one of six ways (path objects, also with empty ones between, callback readers, explicit closing, one path with many movetos), clip before or after subject, result as paths or through callbacks; every way must give the region of the winding oracle and leave the input untouched. Non-trivial: some probe point inside the result."; return p; }());

// ---- C10
struct Tr { std::string log; };
static void putd(std::string& s, double d) { s.append((const char*)&d, 8); }
static Case gen_path(Rng& r) {
  Case c; c.I = {r.in(0, 7), r.in(0, 2)}; Pth p; int n = r.in(0, 12);
  auto v = [&]() { int k = r.in(0, 9); return k < 5 ? (double)r.in(-9, 9) : k < 8 ? r.real(-1e6, 1e6) : k == 8 ? std::ldexp(r.real(-1, 1), r.in(-1000, 1000)) : (r.coin() ? 0.0 : -0.0); };
  for (int i = 0; i < n; ++i) { El e; e.t = "mlc"[r.in(0, 2)]; for (double& x : e.v) x = v(); p.push_back(e); }
  if (!p.empty()) c.S.push_back(p);
  return c;
}
static Res chk_path(const Case& c) {
  if (c.I.size() < 2 || c.S.size() > 1) return Res::Discard();
  Pth p; if (!c.S.empty()) p = c.S[0];
  river::path q; std::string want; P2 last{0, 0};
  bool m = c.I[0] & 1, l = c.I[0] & 2, k = c.I[0] & 4; // which callbacks are given
  for (auto& e : p) {
    river::point to(endp(e).x, endp(e).y);
    if (e.t == 'm') { if (c.I[1]) q.moveto(to); else q.moveto(to.x, to.y); }
    else if (e.t == 'l') { if (c.I[1]) q.lineto(to); else q.lineto(to.x, to.y); }
    else q.cubicto(river::point(e.v[0], e.v[1]), river::point(e.v[2], e.v[3]), to);
    if (e.t == 'm' ? m : e.t == 'l' ? l : k) {
      want += e.t; putd(want, last.x); putd(want, last.y); if (e.t == 'c') for (int i = 0; i < 4; ++i) putd(want, e.v[i]); putd(want, to.x); putd(want, to.y);
    }
    last = endp(e);
  }
  river::path_traverse_funcs f;
  if (m) f.move_to = [](path_moveto_func_para) { auto& s = ((Tr*)user)->log; s += 'm'; putd(s, from.x); putd(s, from.y); putd(s, to.x); putd(s, to.y); };
  if (l) f.line_to = [](path_lineto_func_para) { auto& s = ((Tr*)user)->log; s += 'l'; putd(s, from.x); putd(s, from.y); putd(s, to.x); putd(s, to.y); };
  if (k) f.cubic_to = [](path_cubicto_func_para) { auto& s = ((Tr*)user)->log; s += 'c'; putd(s, from.x); putd(s, from.y); putd(s, ctrl1.x); putd(s, ctrl1.y); putd(s, ctrl2.x); putd(s, ctrl2.y); putd(s, to.x); putd(s, to.y); };
  Tr t1; q.traverse(f, &t1);
  if (t1.log != want) return Res::Fail("traverse does not deliver the elements that were added");
  river::path q2(std::move(q)); Tr t2; q2.traverse(f, &t2);
  if (t2.log != want) return Res::Fail("a moved path lost elements");
  Tr t3; q.traverse(f, &t3);
  if (!t3.log.empty()) return Res::Fail("a path that was moved from still delivers elements");
  q2.lineto(7, 8); Tr t4; q2.traverse(f, &t4); // paths stay usable
  if (l) { want += 'l'; putd(want, last.x); putd(want, last.y); putd(want, 7); putd(want, 8); }
  if (t4.log != want) return Res::Fail("appending to a moved path");
  river::paths v; for (int i = 0; i < 5; ++i) { v.emplace_back(); v.back().moveto(i, i); v.back().lineto(i + 1, i); } // vector growth moves paths
  for (int i = 0; i < 5; ++i) if (v[i].element_types.size() != 2 || v[i].data.size() != 4 || v[i].data[0] != i) return Res::Fail("paths in a growing vector lost data");
  return Res::Ok(p.size() >= 2, (c.I[0] == 7 ? 1 : 2) | (p.size() && p[0].t != 'm' ? 4 : 0));
}
static Reg r10([] { Prop p; p.id = "C10"; p.labels = {"all callbacks", "some callbacks missing", "does not start with moveto"}; p.gen = gen_path; p.check = chk_path; p.quick = 2000000; p.thorough = 50000000; p.hang_s = 20;
  p.rule = "0-12 elements in any order with any coordinates (integers, reals, all exponents, signed zeros), any subset of callbacks. Model: the list of elements. Non-trivial: at least two elements."; return p; }());

// ---- C18
static Case gen_leak(Rng& r) { Case c = gen_any(r); c.I.push_back(r.in(0, 3)); c.I.push_back(r.coin(.3) ? r.in(0, 9) : -1); return c; }
// bytes handed out by operator new and not given back: exact, unlike the allocator's own statistics, which count cached chunks
#ifndef PBT_SANITIZED
static long g_live, g_blocks;
static int g_fill = -1; static uint64_t g_scatter; // C23: contents and places of fresh memory
static void* get(size_t n) {
  void* p = nullptr;
  if (g_scatter) { // the block is one of several free ones of its size
    void* q[4]; for (auto& x : q) x = malloc(n ? n : 1); g_scatter = g_scatter * 6364136223846793005ull + 1442695040888963407ull; int k = g_scatter >> 62; p = q[k]; for (int i = 0; i < 4; ++i) if (i != k) free(q[i]);
  } else p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc(); if (g_fill >= 0) memset(p, g_fill, n); __atomic_add_fetch(&g_live, (long)malloc_usable_size(p), __ATOMIC_RELAXED); __atomic_add_fetch(&g_blocks, 1, __ATOMIC_RELAXED); return p; }
static void put(void* p) { if (!p) return; __atomic_sub_fetch(&g_live, (long)malloc_usable_size(p), __ATOMIC_RELAXED); __atomic_sub_fetch(&g_blocks, 1, __ATOMIC_RELAXED); free(p); }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
#else
static long g_live, g_blocks;
#endif
static size_t heap() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
static Res chk_leak(const Case& c) {
  if (!valid_case(c) || c.I.size() < 6) return Res::Discard();
#ifdef PBT_SANITIZED
  return Res::Discard();
#endif
  river::paths S = to_paths(c.S), C = to_paths(c.C);
  auto round = [&]() {
    size_t out = 0;
    { river::processor pr; pr.add_path(S, river::path_type::subject); pr.add_path(C, river::path_type::clip);
      if (c.I[5] >= 0) give_up(pr, c.I[0], c.I[1], c.I[5]);
      for (long k = 0; k <= c.I[4]; ++k) { river::paths o; pr.process((river::clip_type)c.I[0], (river::fill_rule)c.I[1], o); out += o.size(); } }
    return out;
  };
  size_t n = 0; long a, b, blocks; size_t h;
  try { round(); a = g_live; blocks = g_blocks; h = heap(); n = round(); b = g_live; blocks = g_blocks - blocks; } catch (const std::bad_alloc&) { return Res::Discard(); } // curves that overlap: not this property's concern
  if (b > a) { // once more: a one-time allocation is not a leak
    a = b; blocks = g_blocks; round(); b = g_live; blocks = g_blocks - blocks;
    if (b > a) return Res::Fail(pbt::fmt("every life of a processor leaves %ld more bytes in %ld blocks allocated", b - a, blocks));
  }
  if (heap() > h) { // memory taken from malloc directly; chunks that the allocator caches are counted too, but do not grow for ever
    bool grows = true; size_t h0 = heap();
    for (int k = 0; k < 40 && grows; ++k) { size_t h1 = heap(); round(); grows = heap() > h1; }
    if (grows) return Res::Fail(pbt::fmt("40 lives of a processor left %zu more bytes allocated", heap() - h0));
  }
  return Res::Ok(n > 0, (c.I[4] ? 1 : 0) | (has_curve(c.S) ? 2 : 0) | (c.I[5] >= 0 ? 4 : 0));
}
static Reg r18([] { Prop p; p.id = "C18"; p.labels = {"several process calls", "curves", "a caller's writer threw"}; p.gen = gen_leak; p.check = chk_leak; p.quick = 60000; p.thorough = 2000000; p.hang_s = 30; p.domain = curves_apart;
  p.rule = "cases of C01, C02 and C03; a processor is created, filled, run 1-4 times (sometimes after a run that the caller's writer ended with an exception) and destroyed, again and again; the bytes held by the allocator after each life are compared. Non-trivial: the result is not empty."; return p; }());

// ---- C23: the same calls give the same answer, bit for bit, whatever is in memory and whatever ran before
static Case gen_again(Rng& r) {
  Case c = gen_any(r); c.I.push_back(r.in(0, 1 << 20)); c.I.push_back(r.in(0, 3)); static const char* k[] = {"m 1 2 l", "l 4 -5 ", "c 1 2 3 4 5 6 ", "a 1 2 3 4", " 1e3", "x", "m 0 0 l 3 0 l 0 3 "}; int n = r.in(0, 6); for (int i = 0; i < n; ++i) c.T += k[r.in(0, 6)];
  return c;
}
static __attribute__((noinline)) void dirty_stack(int v) { volatile char b[1 << 16]; for (size_t i = 0; i < sizeof b; i += 1) b[i] = (char)v; }
static void pour(std::string& log, const Out& o) { for (auto& p : o.raw) for (auto& e : p) { log += e.t; log.append((const char*)e.v, (e.t == 'c' ? 6 : 2) * sizeof(double)); } }
static void put8(std::string& s, double d) { s.append((const char*)&d, sizeof d); }
static void ask(std::string& log, const rmath::bezier_cubic& z, const El& e) { // what the functions say about one curve
  auto y = z.point_at_y(e.v[1]); log += (char)y.count; for (int i = 0; i < y.count; ++i) put8(log, y.t[i]);
  auto w = z.get_boundary(); put8(log, w.min.x); put8(log, w.min.y); put8(log, w.max.x); put8(log, w.max.y); double t[2]; int n = z.split_y(t, t + 1); log += (char)n; for (int i = 0; i < n; ++i) put8(log, t[i]);
  auto l = rmath::intersect(rmath::line{{e.v[0], e.v[3]}, {e.v[2], e.v[1]}}, z); log += (char)l.count; for (int i = 0; i < l.count; ++i) { put8(log, l.data[i].t0); put8(log, l.data[i].t1); put8(log, l.data[i].p.x); put8(log, l.data[i].p.y); }
  for (double t : {.25, .7}) { auto p = z.point_at(t); put8(log, p.x); put8(log, p.y); rmath::bezier_cubic o[2]; z.split(t, o, o + 1); put8(log, o[0].p2.x); put8(log, o[1].p1.y); }
  auto q = rmath::resolv_quad_equa(e.v[0], e.v[1], e.v[2]); log += (char)q.count; for (int i = 0; i < q.count; ++i) put8(log, q.data[i]); auto u = rmath::resolv_cubic_equa(e.v[0], e.v[1], e.v[2], e.v[3]); log += (char)u.count; for (int i = 0; i < u.count; ++i) put8(log, u.data[i]);
}
static Res chk_again(const Case& c) {
  if (!valid_case(c) || c.I.size() < 6) return Res::Discard();
#ifdef PBT_SANITIZED
  return Res::Discard();
#else
  auto op = (river::clip_type)c.I[0]; auto fr = (river::fill_rule)c.I[1];
  auto once = [&](std::string& log, int stack, bool again, int other = 0) { // everything that the calls deliver, byte by byte
    dirty_stack(stack);
    river::processor pr; std::vector<Pth> a = c.S, b = c.C;
    if (c.I[5] & 1) { pr.add_path(rd, &a, river::path_type::subject); pr.add_path(rd, &b, river::path_type::clip); }
    else { pr.add_path(to_paths(a), river::path_type::subject); pr.add_path(to_paths(b), river::path_type::clip); }
    if (again) { river::paths ps; pr.process((river::clip_type)(1 + c.I[4] % 4), (river::fill_rule)(c.I[4] / 4 % 4), ps); }
    Out o; dirty_stack(stack);
    if (c.I[5] & 2) pr.process(op, fr, writer(), &o);
    else { river::paths ps; pr.process(op, fr, ps); for (auto& p : ps) p.traverse(writer(), &o); }
    pour(log, o); dirty_stack(stack);
    { Out t; auto ps = river::make_path(c.T.c_str()); log += pbt::fmt("%zu", ps.size()); for (auto& p : ps) p.traverse(writer(), &t); pour(log, t); }
    const Pth& p = a.empty() ? b[0] : a[0]; P2 cur{0, 0}; 
    for (auto& e : p) {
      P2 to = endp(e);
      if (e.t == 'c') {
        rmath::bezier_cubic z{{cur.x, cur.y}, {e.v[0], e.v[1]}, {e.v[2], e.v[3]}, {to.x, to.y}}; dirty_stack(stack);
        if (other) { auto k = z; (other & 1 ? k.p2 : k.p1) = k.p0 + (k.p3 - k.p0) * .3; std::string no; ask(no, k, e); k = z; (other & 1 ? k.p3 : k.p0) = k.p1; ask(no, k, e); } // something similar first
        ask(log, z, e);
      }
      cur = to;
    }
    return o.raw.size();
  };
  if (c.S.empty() && c.C.empty()) return Res::Discard();
  struct Restore { ~Restore() { g_fill = -1; g_scatter = 0; mallopt(M_PERTURB, 0); } } restore;
  std::string first; size_t n = once(first, 0, false); static const char* how[] = {"on memory filled with 0x00", "on memory filled with 0xff", "on memory filled with 0x3f", "with memory in another order", "after other work", "on an object used before"};
  for (int k = 0; k < 6; ++k) {
    std::string log;
    g_fill = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? 0x3f : 0x81; mallopt(M_PERTURB, g_fill ^ 0xff);
    g_scatter = k >= 3 ? (uint64_t)c.I[4] * 2 + 1 + k : 0;
    if (k == 4) { // other work: the input turned, mirrored, and with one coordinate changed
      auto work = [](const std::vector<Pth>& a, const std::vector<Pth>& b, int o, int f) { Case q; q.S = a; q.C = b; if (curves_apart(q)) run(a, b, o, f); };
      auto sz = c.S, cz = c.C, tz = c.S; map_xy(sz, [](double& x, double& y) { std::swap(x, y); x = -x; }); map_xy(cz, [](double& x, double& y) { x = -x; y = -y; });
      for (auto& p : tz) { auto& e = p[c.I[4] % p.size()]; e.v[c.I[4] / 16 % (e.t == 'c' ? 6 : 2)] = p[0].v[c.I[4] / 16 % 2]; }
      work(sz, c.S, 4, c.I[4] % 4); work(c.S, cz, c.I[0], c.I[1]); work(tz, c.C, c.I[0], c.I[1]); river::make_path("m 3 4 l 5 6 q");
    }
    once(log, g_fill, k == 5, k == 4 ? 2 + c.I[4] % 2 : 0);
    if (log != first) return Res::Fail(pbt::fmt("%s/%s: the same calls give another result %s", opname(c.I[0]), rulename(c.I[1]), how[k]));
  }
  return Res::Ok(n > 0, labels(c, n > 0));
#endif
}
static Reg r23([] { Prop p; p.id = "C23"; guard(p); p.hang_s = 60; p.gen = gen_again; p.check = chk_again; p.quick = 60000; p.thorough = 3000000;
  p.assumptions.pop_back();
  p.rule = "cases of C01, C02 and C03 with a text and the curve functions, each run seven times: on fresh memory and stack filled with different bytes, with blocks at shuffled addresses, after other work, on a processor that was used before; the bytes delivered must be the same. Non-trivial: the result is not empty."; return p; }());

// ---- C21
static Case gen_thr(Rng& r) { Case c = gen_any(r); if (c.I[0] == 0) c.I[0] = 2; c.I.push_back(r.in(2, 4)); c.I.push_back(r.in(0, 1)); return c; }
static Res chk_thr(const Case& c) {
  if (!valid_case(c) || c.I.size() < 6) return Res::Discard();
  Region S = geo::region(c.S), C = geo::region(c.C); double tol = tolerance(S, C, c.I[3]);
  int n = std::max(2L, std::min(4L, c.I[4])); std::vector<Out> o(n); std::vector<std::thread> th;
  std::string text = "m 0 0 l 4 0 l 4 4 c 1 2 3 4 0 4";
  std::vector<size_t> parsed(n);
  for (int k = 0; k < n; ++k) th.emplace_back([&, k] { // every thread its own processor; half of them with subject and clip exchanged roles in rule
    o[k] = run(c.S, c.C, c.I[5] ? 1 + (c.I[0] + k) % 4 : c.I[0], c.I[1]); parsed[k] = river::make_path(text.c_str()).size(); });
  for (auto& t : th) t.join();
  for (int k = 0; k < n; ++k) {
    if (!o[k].err.empty()) return Res::Fail(o[k].err);
    if (parsed[k] != 1) return Res::Fail("make_path in a thread");
    Res r = region_check(S, C, o[k], c.I[5] ? 1 + (c.I[0] + k) % 4 : c.I[0], c.I[1], tol);
    if (r.kind == Res::fail) { r.msg = pbt::fmt("thread %d of %d: ", k, n) + r.msg; return r; }
  }
  return Res::Ok(!o[0].raw.empty(), labels(c, true));
}
static Reg r21([] { Prop p; p.id = "C21"; guard(p); p.gen = gen_thr; p.check = chk_thr; p.quick = 12000; p.thorough = 400000; p.hang_s = 60;
  p.rule = "cases of C01, C02 and C03, run by 2-4 threads at once, each with its own processor, under ThreadSanitizer (a data race ends the process); every thread's result is checked against the winding oracle. Non-trivial: non-empty result."; return p; }());
