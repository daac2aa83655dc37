// Small property-based-testing engine: deterministic generation from a seed, forked supervised
// workers (crashes, hangs and memory blow-ups become failures), confirmation, shrinking, replay
// files and evidence.  No code of /repo in here.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>

namespace pbt {

struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void reseed(uint64_t seed) { s[0] = mix(seed); s[1] = mix(s[0] ^ seed); if (!(s[0] | s[1])) s[0] = 1; }
  uint64_t next() {
    uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }               // [0,n)
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }  // [lo,hi]
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  // weighted choice, returns the index
  int weighted(std::initializer_list<unsigned> w) {
    uint64_t t = 0; for (unsigned x : w) t += x;
    uint64_t r = below(t); int i = 0;
    for (unsigned x : w) { if (r < x) return i; r -= x; ++i; }
    return 0;
  }
};

struct Op { uint32_t k; uint64_t a, b, c; };
using Ops = std::vector<Op>;

// A generated case: configuration words plus one operation list per thread (seq. cases: one list).
struct Case {
  std::vector<uint64_t> cfg;
  std::vector<Ops> thr;
  uint64_t c(size_t i, uint64_t dflt = 0) const { return i < cfg.size() ? cfg[i] : dflt; }
  std::string text() const;
  static Case parse(const std::string&);
  uint64_t hash() const;
  size_t size() const { size_t n = 0; for (auto& t : thr) n += t.size(); return n; }
};

// What a case observed.  mark() names what the case reached; a case is non-trivial when it called
// nontrivial() (the harness states the rule).
struct Obs {
  bool nt = false;
  std::map<std::string, uint64_t> labels;
  void mark(const char* l, uint64_t n = 1) { labels[l] += n; }
  void nontrivial(bool v = true) { nt = nt || v; }
};

// Ends the case: the property does not hold on it.  Never returns.
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define PBT_CHECK(cond, ...) do { if (__builtin_expect(!(cond), 0)) ::pbt::fail(__VA_ARGS__); } while (0)

struct Harness {
  std::string name;
  std::string rule;                   // how cases are made and which are non-trivial
  std::vector<std::string> opnames;   // for readable samples
  Case (*gen)(Rng&, int size);        // size 0..100
  void (*run)(const Case&, Obs&);
  unsigned weight = 1;                // share of the cases
  bool concurrent = false;            // real parallelism: replays are repeated
  double timeout = 20;                // seconds without finishing = hang
  unsigned batch = 100;               // cases per forked worker
};

int reg(const Harness&);
#define PBT_HARNESS(id, ...) static int id##_reg_ = ::pbt::reg(::pbt::Harness __VA_ARGS__)

int main(int argc, char** argv);
// for harnesses that explain more in a failure (kept short)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern int g_tier_thorough;
}  // namespace pbt
