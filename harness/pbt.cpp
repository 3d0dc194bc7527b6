#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fstream>
#include <poll.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
std::vector<Prop>& registry() { static std::vector<Prop> r; return r; }

std::string fmt(const char* f, ...) {
  char buf[4096];
  va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  return buf;
}

static std::string num(double v) { return fmt("%.17g", v); }
static std::string pth_str(const Pth& p) {
  std::string o;
  for (auto& e : p) {
    int n = e.t == 'c' ? 6 : e.t == 'z' ? 0 : 2;
    if (!o.empty()) o += ' ';
    o += e.t;
    for (int i = 0; i < n; ++i) o += " " + num(e.v[i]);
  }
  return o;
}
static std::string hex(const std::string& s) { std::string o; for (unsigned char c : s) o += fmt("%02x", c); return o; }

std::string Case::str() const {
  std::string o = "I";
  for (auto i : I) o += fmt(" %ld", i);
  o += "\n";
  for (auto& p : S) o += "S " + pth_str(p) + "\n";
  for (auto& p : C) o += "C " + pth_str(p) + "\n";
  if (!D.empty()) { o += "D"; for (auto d : D) o += " " + num(d); o += "\n"; }
  if (!T.empty()) o += "T " + hex(T) + "\n";
  return o;
}
bool Case::parse(const std::string& text, Case& c) {
  c = Case();
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string k, w; l >> k;
    if (k == "I") { long v; while (l >> v) c.I.push_back(v); }
    else if (k == "D") { while (l >> w) c.D.push_back(strtod(w.c_str(), nullptr)); }
    else if (k == "T") { l >> w; for (size_t i = 0; i + 1 < w.size(); i += 2) c.T += (char)strtol(w.substr(i, 2).c_str(), nullptr, 16); }
    else if (k == "S" || k == "C") {
      Pth p;
      while (l >> w) {
        El e; e.t = w[0]; int n = e.t == 'c' ? 6 : e.t == 'z' ? 0 : 2;
        for (int i = 0; i < n; ++i) { if (!(l >> w)) return false; e.v[i] = strtod(w.c_str(), nullptr); }
        p.push_back(e);
      }
      (k == "S" ? c.S : c.C).push_back(p);
    }
  }
  return true;
}

static uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

// ---------------------------------------------------------------- isolation
static void limits(const Prop& p) {
#ifndef PBT_SANITIZED
  if (p.mem_mb) { rlimit r{(rlim_t)p.mem_mb << 20, (rlim_t)p.mem_mb << 20}; setrlimit(RLIMIT_AS, &r); }
#else
  (void)p;
#endif
  rlimit c{0, 0}; setrlimit(RLIMIT_CORE, &c);
}
// CPU-time alarm: independent of machine load
static void cpu_alarm(int s) {
  itimerval t{}; t.it_value.tv_sec = s; setitimer(ITIMER_PROF, &t, nullptr);
}
static Res run_check(const Prop& p, const Case& c) {
  try { return p.check(c); }
  catch (std::exception& e) { return Res::Fail(std::string("exception: ") + e.what()); }
  catch (...) { return Res::Fail("unknown exception"); }
}
// run cases in a child of their own
struct Child { pid_t pid; int fd; };
static Child launch(const Prop& p, const std::vector<Case>& cs, int cpu_s) {
  int fd[2]; if (pipe(fd)) { perror("pipe"); exit(3); }
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (!pid) {
    close(fd[0]); limits(p);
    if (!getenv("PBT_VERBOSE")) { if (!freopen("/dev/null", "w", stderr)) {} }
    Res r;
    for (auto& c : cs) { cpu_alarm(cpu_s); r = run_check(p, c); if (r.kind == Res::fail) break; }
    std::string m; m += (char)r.kind; m += r.msg.substr(0, 3000);
    if (write(fd[1], m.data(), m.size()) < 0) {}
    _exit(0);
  }
  close(fd[1]);
  return {pid, fd[0]};
}
static Res collect(const Child& k, int cpu_s) {
  std::string got; char buf[4096]; ssize_t n;
  while ((n = read(k.fd, buf, sizeof buf)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) got.append(buf, n);
  close(k.fd);
  int st; while (waitpid(k.pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !got.empty()) {
    Res r; r.kind = (Res::Kind)got[0]; r.msg = got.substr(1); return r;
  }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) return Res::Fail(fmt("does not terminate within %d s of CPU time", cpu_s));
  if (WIFSIGNALED(st)) return Res::Fail(fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))));
  return Res::Fail(fmt("process died, status %d (sanitizer report or abort)", WEXITSTATUS(st)));
}
static Res isolated(const Prop& p, const std::vector<Case>& cs, int cpu_s) { return collect(launch(p, cs, cpu_s), cpu_s); }
static Res isolated(const Prop& p, const Case& c, int cpu_s) { return isolated(p, std::vector<Case>{c}, cpu_s); }

// does the failure of c persist in its neighbourhood?
static bool robust(const Prop& p, const Case& c, int cpu_s) {
  if (p.domain && !p.domain(c)) return false;
  if (!p.jitter) return true;
  const int rounds = 2, each = 8, need = 4;
  Rng r(hash_str(c.str()));
  int bad = 0;
  for (int k = 0; k < rounds && bad < need; ++k) {
    std::vector<Child> ch;
    for (int j = 0; j < each; ++j) ch.push_back(launch(p, {p.jitter(c, r)}, cpu_s));
    for (auto& x : ch) if (collect(x, cpu_s).kind == Res::fail) ++bad;
  }
  return bad >= need;
}

// ---------------------------------------------------------------- shrinking
static double weight(const Case& c) {
  auto wnum = [](double d) {
    if (d == 0) return 0.0;
    double a = std::fabs(d);
    if (d == std::floor(d) && a < 1e15) return 1 + std::log2(a + 1) * 0.05 + (d < 0 ? .01 : 0);
    double s = d * 64; if (s == std::floor(s)) return 3 + std::log2(a + 1) * 0.05;
    return 6.0;
  };
  double w = 0;
  for (auto* v : {&c.S, &c.C}) for (auto& p : *v) { w += 100; for (auto& e : p) { w += 30; int n = e.t == 'c' ? 6 : e.t == 'z' ? 0 : 2; for (int i = 0; i < n; ++i) w += wnum(e.v[i]); } }
  for (auto i : c.I) w += std::min<double>(std::labs(i), 1000) * 0.001;
  for (auto d : c.D) w += 2 + wnum(d);
  w += c.T.size() * 5.0;
  return w;
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void candidates(const Prop& p, const Case& c, std::vector<Case>& out) {
  for (int k = 0; k < 2; ++k) {
    auto& src = k ? c.C : c.S;
    for (size_t i = 0; i < src.size(); ++i) { Case n = c; auto& v = k ? n.C : n.S; v.erase(v.begin() + i); out.push_back(n); }
  }
  for (int k = 0; k < 2; ++k) {
    auto& src = k ? c.C : c.S;
    for (size_t i = 0; i < src.size(); ++i)
      for (size_t j = 0; j < src[i].size(); ++j) {
        if (src[i][j].t == 'm') {
          if (src[i].size() > j + 1 && src[i][j + 1].t == 'l') { Case n = c; auto& q = (k ? n.C : n.S)[i]; q.erase(q.begin() + j); q[j].t = 'm'; out.push_back(n); }
          continue;
        }
        { Case n = c; auto& q = (k ? n.C : n.S)[i]; q.erase(q.begin() + j); out.push_back(n); }
        if (src[i][j].t == 'c') { Case n = c; auto& e = (k ? n.C : n.S)[i][j]; e.t = 'l'; e.v[0] = e.v[4]; e.v[1] = e.v[5]; out.push_back(n); }
      }
  }
  for (size_t i = 0; i < c.T.size(); ++i) {
    for (size_t len : {(size_t)16, (size_t)4, (size_t)1}) if (i % len == 0 && c.T.size() >= len) { Case n = c; n.T.erase(i, len); out.push_back(n); }
  }
  if (p.shrink_num) {
    auto simp = [](double d) {
      std::vector<double> r{0.0, std::round(d / 10) * 10, std::round(d), std::round(d * 8) / 8, std::round(d * 64) / 64, std::round(d * 1000) / 1000};
      if (std::fabs(d) > 1) r.push_back(std::trunc(d / 2));
      std::vector<double> q; for (double x : r) if (x != d && std::isfinite(x)) q.push_back(x);
      return q;
    };
    // all coordinates at once
    for (double g : {10.0, 1.0, 0.125}) {
      Case n = c; bool ch = false;
      for (auto* v : {&n.S, &n.C}) for (auto& q : *v) for (auto& e : q) { int m = e.t == 'c' ? 6 : e.t == 'z' ? 0 : 2; for (int i = 0; i < m; ++i) { double x = std::round(e.v[i] / g) * g; if (x != e.v[i]) ch = true; e.v[i] = x; } }
      if (ch) out.push_back(n);
    }
    for (int k = 0; k < 2; ++k) {
      auto& src = k ? c.C : c.S;
      for (size_t i = 0; i < src.size(); ++i) for (size_t j = 0; j < src[i].size(); ++j) {
        int m = src[i][j].t == 'c' ? 6 : src[i][j].t == 'z' ? 0 : 2;
        for (int q = 0; q < m; ++q) for (double x : simp(src[i][j].v[q])) { Case n = c; (k ? n.C : n.S)[i][j].v[q] = x; out.push_back(n); }
      }
    }
    for (size_t i = 0; i < c.D.size(); ++i) for (double x : simp(c.D[i])) { Case n = c; n.D[i] = x; out.push_back(n); }
  }
}
static Case shrink(const Prop& p, Case c, int cpu_s, double budget_s, long& steps, bool keep) {
  double end = now() + budget_s;
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    std::vector<Case> cs; candidates(p, c, cs);
    double w = weight(c);
    for (auto& n : cs) {
      if (now() > end) break;
      if (weight(n) >= w) continue;
      ++steps;
      Res r = isolated(p, n, cpu_s);
      if (r.kind == Res::fail && (!keep || robust(p, n, cpu_s))) { c = n; progress = true; break; }
    }
  }
  return c;
}

// ---------------------------------------------------------------- driver
struct Slot { volatile long cur; };  // index the worker is working on
struct Rec { long idx; uint64_t h; uint32_t labels; uint8_t kind, nt; };

static std::string json(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
    else o += (char)c;
  }
  return o + "\"";
}
static uint64_t case_seed(uint64_t seed, const std::string& id, long i) {
  Rng r(seed * 0x2545F4914F6CDD1Dull ^ hash_str(id)); r.next();
  Rng q(r.next() + (uint64_t)i * 0xD1B54A32D192ED03ull); q.next();
  return q.next();
}
static Case make_case(const Prop& p, uint64_t seed, long i) { Rng r(case_seed(seed, p.id, i)); return p.gen(r); }

static int run(const Prop& p, const std::string& dir) {
  const char* sd = getenv("VERIF_SEED"); const char* tr = getenv("VERIF_TIER");
  uint64_t seed = sd ? strtoull(sd, nullptr, 10) : 1;
  bool thorough = tr && !strcmp(tr, "thorough");
  long N = thorough ? p.thorough : p.quick;
  if (getenv("PBT_CASES")) N = atol(getenv("PBT_CASES"));
  double cap = thorough ? 6 * 3600 : 600;
  double t0 = now();
  int W = std::max(1u, std::min(8u, std::thread::hardware_concurrency()));
  if (getenv("PBT_WORKERS")) W = atoi(getenv("PBT_WORKERS"));
  Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct Wk { pid_t pid = -1; int fd = -1; bool done = false; std::string buf; long next; };
  std::vector<Wk> ws(W);
  auto start = [&](int w) {
    int fd[2]; if (pipe(fd)) { perror("pipe"); exit(3); }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (!pid) {
      close(fd[0]); for (auto& o : ws) if (o.fd >= 0) close(o.fd);
      limits(p);
      if (!getenv("PBT_VERBOSE")) { if (!freopen("/dev/null", "w", stderr)) {} }
      for (long i = ws[w].next; i < N; i += W) {
        slots[w].cur = i;
        cpu_alarm(p.hang_s);
        Case c = make_case(p, seed, i);
        clock_t c0 = clock();
        Res r = run_check(p, c);
        if (const char* slow = getenv("PBT_SLOW")) if (clock() - c0 > CLOCKS_PER_SEC / 5) if (FILE* f = fopen(slow, "a")) { fprintf(f, "# case %ld took %.2f s\n%s", i, (double)(clock() - c0) / CLOCKS_PER_SEC, c.str().c_str()); fclose(f); }
        if (r.kind == Res::fail && p.domain && !p.domain(c)) r.kind = Res::outside;
        Rec rec{i, hash_str(c.str()), r.labels, (uint8_t)r.kind, (uint8_t)r.nontrivial};
        const char* q = (const char*)&rec; size_t left = sizeof rec;
        while (left) { ssize_t k = write(fd[1], q, left); if (k > 0) { q += k; left -= k; } else if (errno != EINTR) _exit(9); }
      }
      slots[w].cur = -1;
      _exit(0);
    }
    close(fd[1]); ws[w].pid = pid; ws[w].fd = fd[0]; ws[w].buf.clear();
  };
  long evals = 0, discards = 0, nontriv = 0, outside = 0;
  std::map<std::string, long> lab;
  std::unordered_set<uint64_t> seen;
  std::vector<std::pair<long, std::string>> fails; // index, reason
  std::vector<long> sample_idx;
  bool stop = false, capped = false;
  // near-degenerate failures: how many are tolerated
  const long near_max = getenv("PBT_NEAR_MAX") ? atol(getenv("PBT_NEAR_MAX")) : p.jitter ? std::max<long>(12, (long)(N * p.near_rate)) : 0;
  const long stop_at = std::max<long>(16, near_max + 1);
  for (int w = 0; w < W; ++w) { ws[w].next = w; slots[w].cur = w; start(w); }
  while (true) {
    std::vector<pollfd> pf; std::vector<int> who;
    for (int w = 0; w < W; ++w) if (ws[w].fd >= 0) { pf.push_back({ws[w].fd, POLLIN, 0}); who.push_back(w); }
    if (pf.empty()) break;
    poll(pf.data(), pf.size(), 500);
    for (size_t k = 0; k < pf.size(); ++k) if (pf[k].revents) {
      int w = who[k]; char b[65536]; ssize_t n = read(ws[w].fd, b, sizeof b);
      if (n > 0) {
        ws[w].buf.append(b, n);
        size_t off = 0;
        while (ws[w].buf.size() - off >= sizeof(Rec)) {
          Rec r; memcpy(&r, ws[w].buf.data() + off, sizeof r); off += sizeof r;
          ws[w].next = r.idx + W;
          ++evals;
          if (r.kind == Res::discard) { ++discards; continue; }
          if (r.kind == Res::outside) { ++outside; continue; }
          if (r.kind == Res::fail) { fails.push_back({r.idx, "check"}); }
          if (r.nt && seen.insert(r.h).second) { ++nontriv; if (sample_idx.size() < 64) sample_idx.push_back(r.idx); }
          for (size_t i = 0; i < p.labels.size(); ++i) if (r.labels >> i & 1) lab[p.labels[i]]++;
        }
        ws[w].buf.erase(0, off);
      } else if (n == 0) {
        close(ws[w].fd); ws[w].fd = -1;
        int st; while (waitpid(ws[w].pid, &st, 0) < 0 && errno == EINTR) {}
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !stop) {
          long i = slots[w].cur;
          bool in_domain = true; if (p.domain) { Case c = make_case(p, seed, i); in_domain = p.domain(c); }
          if (!in_domain) ++outside; else fails.push_back({i, WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF ? "hang" : "crash"});
          ++evals; ws[w].next = i + W;
          if (ws[w].next < N && (long)fails.size() < stop_at) start(w);
        }
      }
    }
    if (!stop && ((long)fails.size() >= stop_at || (!p.jitter && !fails.empty() && now() - t0 > 60) || now() - t0 > cap)) {
      stop = true; capped = now() - t0 > cap;
      for (auto& o : ws) if (o.fd >= 0) kill(o.pid, SIGKILL);
    }
  }
  std::sort(fails.begin(), fails.end()); std::sort(sample_idx.begin(), sample_idx.end());
  // confirm, shrink and write replays
  int violations = 0; long unconfirmed = 0, steps = 0, near = 0;
  std::string replay_path, why;
  for (auto& f : fails) {
    Case c = make_case(p, seed, f.first);
    int cpu = p.hang_s;
    auto write_replay = [&](const std::vector<Case>& cs, const std::string& msg) {
      mkdir((dir + "/replays").c_str(), 0777);
      std::string text = "# property " + p.id + "\n# ";
      for (char ch : msg) text += ch == '\n' ? ' ' : ch;
      text += "\n";
      std::string body;
      for (size_t k = 0; k < cs.size(); ++k) { if (k) body += "---\n"; body += cs[k].str(); }
      replay_path = dir + "/replays/" + p.id + "-" + fmt("%016llx", (unsigned long long)hash_str(body)) + ".case";
      std::ofstream(replay_path) << text << body;
      why = msg; violations = 1;
      printf("%s: case %ld fails (%s): %s\n%s", p.id.c_str(), f.first, f.second.c_str(), msg.c_str(), body.c_str());
    };
    Res r = isolated(p, c, cpu);
    if (r.kind != Res::fail) {
      // fails only after other cases ran in the same process: look for the history it needs
      bool found = false;
      for (long win = 4; !found && unconfirmed < 4; win *= 8) {
        std::vector<Case> seq;
        for (long k = win; k >= 0; --k) if (f.first - k * W >= 0) seq.push_back(make_case(p, seed, f.first - k * W));
        auto thrice = [&](const std::vector<Case>& x, std::string& msg) { for (int k = 0; k < 3; ++k) { Res q = isolated(p, x, cpu); if (q.kind != Res::fail) return false; msg = q.msg; } return true; };
        std::string msg;
        if (thrice(seq, msg)) {
          double end = now() + 60;
          for (size_t chunk = seq.size() / 2; chunk >= 1; chunk /= 2)
            for (size_t a = 0; a + 1 < seq.size() && now() < end;) {
              std::vector<Case> t = seq; t.erase(t.begin() + a, t.begin() + std::min(a + chunk, seq.size() - 1));
              ++steps; std::string m2;
              if (t.size() < seq.size() && thrice(t, m2)) { seq = t; msg = m2; } else a += chunk;
            }
          write_replay(seq, msg + " (after a history of earlier cases)"); found = true;
        }
        if (f.first - win * W < 0) break;
      }
      if (!found) { ++unconfirmed; continue; }
      break;
    }
    bool keep = p.domain || p.jitter;
    if (p.domain && !p.domain(c)) { ++outside; continue; }
    if (keep && !robust(p, c, cpu)) {
      if (getenv("PBT_SHOW_NEAR")) printf("near-degenerate: case %ld %s\n%s", f.first, r.msg.c_str(), c.str().c_str());
      if (++near <= near_max) continue;
      keep = false; // too many of them
      r.msg += fmt(" (one of %ld near-degenerate failures, %ld tolerated)", near, near_max);
    }
    Case m = shrink(p, c, std::min(cpu, 20), getenv("PBT_SHRINK") ? atof(getenv("PBT_SHRINK")) : f.second == "hang" ? 60 : 90, steps, keep);
    auto thrice = [&](const Case& x, std::string& msg) { for (int k = 0; k < 3; ++k) { Res q = isolated(p, x, cpu); if (q.kind != Res::fail) return false; msg = q.msg; } return true; };
    std::string msg;
    if (!thrice(m, msg)) { m = c; if (!thrice(m, msg)) { ++unconfirmed; continue; } }
    write_replay({m}, msg);
    break;
  }
  mkdir((dir + "/evidence").c_str(), 0777);
  std::ofstream ev(dir + "/evidence/" + p.id + ".json");
  ev << "{\n \"property\": " << json(p.id) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
     << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << nontriv
     << ",\n  \"discarded\": " << discards << ",\n  \"planned\": " << N << ",\n  \"rule\": " << json(p.rule) << ",\n  \"classes\": {";
  bool first = true;
  for (auto& l : lab) { ev << (first ? "" : ", ") << json(l.first) << ": " << l.second; first = false; }
  ev << "},\n  \"failures_seen\": " << fails.size() + outside << ",\n  \"failures_near_degenerate\": " << near << ",\n  \"near_degenerate_tolerated\": " << near_max << ",\n  \"failures_outside_domain\": " << outside << ",\n  \"failures_not_reproduced\": " << unconfirmed << ",\n  \"shrink_steps\": " << steps
     << ",\n  \"stopped_by_time_cap\": " << (capped ? "true" : "false") << ",\n  \"samples\": [";
  std::vector<long> pickd;
  if (!sample_idx.empty()) for (size_t k : {(size_t)0, sample_idx.size() / 2, sample_idx.size() - 1}) if (std::find(pickd.begin(), pickd.end(), sample_idx[k]) == pickd.end()) pickd.push_back(sample_idx[k]);
  first = true;
  for (long i : pickd) { ev << (first ? "" : ", ") << json(make_case(p, seed, i).str()); first = false; }
  ev << "]\n },\n \"assumptions\": [";
  first = true; for (auto& a : p.assumptions) { ev << (first ? "" : ", ") << json(a); first = false; }
  ev << "],\n \"wall_s\": " << fmt("%.2f", now() - t0) << ",\n \"violations\": " << violations << "\n}\n";
  ev.close();
  printf("%s: %ld cases, %ld distinct non-trivial, %ld discarded, %zu failing (%ld near-degenerate, %ld outside the domain), %.1f s\n", p.id.c_str(), evals, nontriv, discards, fails.size(), near, outside, now() - t0);
  for (auto& l : lab) printf("   %-28s %ld\n", l.first.c_str(), l.second);
  if (violations) { printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), replay_path.c_str()); return 1; }
  if (unconfirmed) printf("%s: %ld failures did not reproduce in isolation and are not reported\n", p.id.c_str(), unconfirmed);
  return 0;
}

int main_(int argc, char** argv) {
  std::string dir = getenv("PBT_DIR") ? getenv("PBT_DIR") : ".";
  if (argc < 3) { fprintf(stderr, "usage: %s run <id> | replay <file> | show <id> <index> | scan <id> <first> <n>\n", argv[0]); return 2; }
  std::string cmd = argv[1];
  std::string id = argv[2];
  Case c;
  std::vector<Case> seq;
  if (cmd == "replay") {
    std::ifstream f(argv[2]); std::stringstream ss; ss << f.rdbuf(); std::string t = ss.str();
    size_t k = t.find("# property "); if (k == std::string::npos) { fprintf(stderr, "no property line\n"); return 2; }
    id = t.substr(k + 11, t.find('\n', k) - k - 11);
    size_t at = 0;
    while (at <= t.size()) {
      size_t e = t.find("---\n", at);
      if (!Case::parse(t.substr(at, e == std::string::npos ? e : e - at), c)) { fprintf(stderr, "unreadable case\n"); return 2; }
      seq.push_back(c);
      if (e == std::string::npos) break;
      at = e + 4;
    }
  }
  for (auto& p : registry()) if (p.id == id) {
    if (cmd == "run") return run(p, dir);
    if (cmd == "replay") {
      Res r = getenv("PBT_INPROC") ? run_check(p, c) : isolated(p, seq, p.hang_s);
      printf("%s: %s %s\n", id.c_str(), r.kind == Res::fail ? "FAIL" : r.kind == Res::ok ? "ok" : "discarded", r.msg.c_str());
      if (r.kind == Res::fail) printf("VIOLATION property=%s replay=%s\n", id.c_str(), argv[2]);
      return r.kind == Res::fail ? 1 : 0;
    }
    if (cmd == "show") {
      const char* sd = getenv("VERIF_SEED");
      c = make_case(p, sd ? strtoull(sd, nullptr, 10) : 1, atol(argv[3]));
      printf("# property %s\n%s", id.c_str(), c.str().c_str());
      return 0;
    }
  }
  fprintf(stderr, "unknown property or command\n");
  return 2;
}
}
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
