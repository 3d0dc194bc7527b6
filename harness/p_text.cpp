// C09: the path text language, against a reference parser written from its grammar
//   text    := { 'm' point { 'l' point | 'a' point point | 'c' point point point } }   blanks anywhere between tokens
//   point   := number number
//   number  := [+-] ( digits [ '.' [digits] ] | '.' digits ) [ (e|E) [+-] digits ]
// The longest valid beginning counts, the rest is ignored. Arcs are read and skipped.
#include "cases.h"
using namespace cases; using pbt::fmt;
struct Ref { std::vector<std::pair<std::string, std::vector<long double>>> paths; bool judged = true; };
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool digit(char c) { return c >= '0' && c <= '9'; }
struct P { const char* s; Ref& r;
  void ws() { while (blank(*s)) ++s; }
  bool num(long double& v) {
    ws(); const char* b = s; const char* q = s; if (*q == '+' || *q == '-') ++q;
    if (strncasecmp(q, "inf", 3) == 0 || strncasecmp(q, "nan", 3) == 0) { r.judged = false; return false; }
    const char* d = q; while (digit(*q)) ++q; size_t n = q - d, f = 0;
    if (*q == '.') { const char* e = q + 1; while (digit(*e)) ++e; f = e - q - 1; if (n || f) q = e; }
    if (!n && !f) return false;
    long ex = 0;
    if (*q == 'e' || *q == 'E') { const char* e = q + 1; if (*e == '+' || *e == '-') ++e; if (digit(*e)) { const char* x = q + 1; ex = strtol(x, nullptr, 10); while (digit(*e)) ++e; q = e; } }
    if (n + f > 17 || ex > 250 || ex < -250) r.judged = false; // limits of the number type, not of the language
    v = strtold(std::string(b, q).c_str(), nullptr); s = q; return true;
  }
  bool nums(int n, std::vector<long double>& o) { for (int i = 0; i < n; ++i) { long double v; if (!num(v)) return false; o.push_back(v); } return true; }
  void run() {
    while (true) {
      ws(); if (*s != 'm') return; ++s; std::vector<long double> o; if (!nums(2, o)) return;
      r.paths.push_back({"m", o});
      while (true) {
        ws(); char k = *s; if (k != 'l' && k != 'a' && k != 'c') break;
        ++s; o.clear(); if (!nums(k == 'l' ? 2 : k == 'a' ? 4 : 6, o)) return; // nothing after an incomplete command counts
        if (k != 'a') { r.paths.back().first += k; r.paths.back().second.insert(r.paths.back().second.end(), o.begin(), o.end()); }
      }
    }
  }
};
static std::string number(Rng& r) {
  double v; int k = r.in(0, 9); v = k < 4 ? r.in(-20, 20) : k < 8 ? r.real(-1000, 1000) : std::pow(10.0, r.real(-12, 12)) * (r.coin() ? 1 : -1);
  static const char* f[] = {"%g", "%.3f", "%.17g", "%e", "%+g", "%.1E", "%.0f.", "%.15g"}; char b[64]; snprintf(b, sizeof b, f[r.in(0, 7)], v); std::string s = b;
  if (r.coin(.05)) { size_t p = s.find("0."); if (p != std::string::npos && (p == 0 || !isdigit(s[p - 1]))) s.erase(p, 1); }
  if (r.coin(.03)) s = "00" + std::to_string(r.in(0, 99)); if (r.coin(.02)) s = "." + std::to_string(r.in(0, 999));
  return s;
}
static Case gen_text(Rng& r) {
  Case c; c.I = {0}; std::string& t = c.T; int kind = r.in(0, 9); c.I[0] = kind;
  if (kind == 9) { int n = r.in(0, 40); static const char al[] = "mlacz MLC0123456789.+-eE,\t\n\"#infa"; for (int i = 0; i < n; ++i) t += r.coin(.05) ? (char)r.in(1, 127) : al[r.in(0, (int)sizeof al - 2)]; return c; }
  static const std::vector<std::string> bl{" ", "  ", "\t", "\n", " \r\n", "\v\f "};
  auto gap = [&](bool need) { if (need) t += r.coin(.8) ? " " : r.pick(bl); else if (r.coin(.6)) t += r.coin(.8) ? " " : r.pick(bl); };
  int n = r.in(0, 10); bool first = true;
  for (int i = 0; i < n; ++i) {
    char k = i == 0 && r.coin(.95) ? 'm' : "mlllaccc"[r.in(0, 7)]; if (!first || r.coin(.2)) gap(false); first = false; t += k;
    int m = k == 'm' || k == 'l' ? 2 : k == 'a' ? 4 : 6;
    for (int j = 0; j < m; ++j) { std::string s = number(r); bool need = j > 0 && s[0] != '-' && s[0] != '+'; if (j > 0 && s[0] == '.' && t.find_last_of('.') != std::string::npos) need = need && r.coin(.8); gap(need); t += s; }
  }
  if (kind >= 5) for (int q = r.in(1, 3); q > 0 && !t.empty(); --q) {
    size_t p = r.next() % t.size(); static const char al[] = "mlacMLz ,.+-eE0159\n\"x";
    switch (r.in(0, 4)) { case 0: t.erase(p, 1); break; case 1: t[p] = al[r.in(0, (int)sizeof al - 2)]; break; case 2: t.insert(t.begin() + p, al[r.in(0, (int)sizeof al - 2)]); break; case 3: t.resize(p); break; default: { size_t l = std::min<size_t>(r.in(1, 12), t.size() - p); t.insert(r.next() % t.size(), t.substr(p, l)); } }
  }
  return c;
}
static Res chk_text(const Case& c) {
  for (char ch : c.T) if (ch == 0 || (unsigned char)ch > 127) return Res::Discard();
  Ref ref; P p{c.T.c_str(), ref}; p.run(); if (!ref.judged) return Res::Discard();
  river::paths got = river::make_path(c.T.c_str());
  std::string s = "text \"" + c.T + "\": ";
  if (got.size() != ref.paths.size()) return Res::Fail(s + fmt("%zu paths, expected %zu", got.size(), ref.paths.size()));
  bool any = false; uint32_t lab = 0;
  for (size_t i = 0; i < got.size(); ++i) {
    std::string kinds; std::vector<double> v;
    struct U { std::string* k; std::vector<double>* v; } u{&kinds, &v}; river::path_traverse_funcs f;
    f.move_to = [](path_moveto_func_para) { auto& u = *(U*)user; *u.k += 'm'; u.v->push_back(to.x); u.v->push_back(to.y); };
    f.line_to = [](path_lineto_func_para) { auto& u = *(U*)user; *u.k += 'l'; u.v->push_back(to.x); u.v->push_back(to.y); };
    f.cubic_to = [](path_cubicto_func_para) { auto& u = *(U*)user; *u.k += 'c'; for (auto* q : {&ctrl1, &ctrl2, &to}) { u.v->push_back(q->x); u.v->push_back(q->y); } };
    got[i].traverse(f, &u);
    if (kinds != ref.paths[i].first) return Res::Fail(s + fmt("path %zu has elements %s, expected %s", i, kinds.c_str(), ref.paths[i].first.c_str()));
    for (size_t j = 0; j < v.size(); ++j) { long double w = ref.paths[i].second[j]; if (!(fabsl(v[j] - w) <= 1e-12L * fabsl(w) + 1e-250L)) return Res::Fail(s + fmt("number %zu of path %zu is %.17g, expected %.17Lg", j, i, v[j], w)); }
    any |= kinds.size() > 1; if (kinds.find('c') != std::string::npos) lab |= 1;
  }
  std::string tail(p.s); bool rest = tail.find_first_not_of(" \t\n\v\f\r") != std::string::npos;
  return Res::Ok(any, lab | (got.size() > 1 ? 2 : 0) | (rest ? 4 : 0) | (c.T.find('a') != std::string::npos ? 8 : 0) | (got.empty() ? 16 : 0));
}
static Reg r9([] { Prop p; p.id = "C09"; p.gen = gen_text; p.check = chk_text; p.quick = 1500000; p.thorough = 60000000; p.hang_s = 20; p.labels = {"curves", "several paths", "ends in ignored text", "arc command or letter a", "nothing valid"};
  p.assumptions = {"7-bit text; numbers of at most 17 digits (the limit of the number reader used) with exponents up to 250; inf and nan not used"};
  p.rule = "texts written from the grammar (random blanks, eight number formats, signs that separate), then cut, changed, or partly repeated, and random characters. Oracle: an independent recursive reader of the grammar: longest valid beginning, numbers equal to 1e-12. Non-trivial: some path with at least two elements."; return p; }());
