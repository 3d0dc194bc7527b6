// Minimal property-based testing engine: seeded generation, isolation of every
// case in worker processes, structural shrinking, replay files, evidence.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace pbt {

// splitmix64-based generator: the only source of randomness in the harness.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  int in(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); } // inclusive
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * unit(); }
  bool coin(double p = 0.5) { return unit() < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

// One path element: m x y | l x y | c x1 y1 x2 y2 x y | z (explicit close, harness only)
struct El {
  char t;
  double v[6];
};
typedef std::vector<El> Pth;

struct Case {
  std::vector<long> I;    // discrete parameters
  std::vector<Pth> S, C;  // subject / clip paths
  std::vector<double> D;  // real parameters
  std::string T;          // text
  std::string str() const;
  static bool parse(const std::string& text, Case& out);
};

struct Res {
  enum Kind { ok, discard, fail, outside } kind = ok;
  bool nontrivial = false;
  uint32_t labels = 0;
  std::string msg;
  static Res Fail(const std::string& m) { Res r; r.kind = fail; r.msg = m; r.nontrivial = true; return r; }
  static Res Discard() { Res r; r.kind = discard; return r; }
  static Res Ok(bool nt, uint32_t lab = 0) { Res r; r.nontrivial = nt; r.labels = lab; return r; }
};

struct Prop {
  std::string id;
  std::string rule;                       // how cases are made, what is non-trivial
  std::vector<std::string> labels;        // names of label bits
  std::function<Case(Rng&)> gen;
  std::function<Res(const Case&)> check;
  long quick = 10000, thorough = 200000;  // number of cases
  int hang_s = 60;                        // CPU seconds after which one case counts as non-terminating
  long mem_mb = 4096;                     // address space limit per worker (0: none)
  bool shrink_num = true;                 // D may be rounded while shrinking
  // Only consulted for failing cases. domain: is the case inside the stated domain?
  // jitter: a nearby case. A failure that (almost) no nearby case shares is near-degenerate:
  // it is counted, and reported only when there are more of them than near_rate allows.
  std::function<bool(const Case&)> domain;
  std::function<Case(const Case&, Rng&)> jitter;
  double near_rate = 1e-4;
  std::vector<std::string> assumptions;
};

std::vector<Prop>& registry();
struct Reg { Reg(const Prop& p) { registry().push_back(p); } };

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
int main_(int argc, char** argv);
}
