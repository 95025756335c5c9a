// Deterministic simulator for libpluto: shared declarations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

// ---------------------------------------------------------------- PRNG
// splitmix64: every choice of a run is drawn from streams derived from one
// integer (VERIF_SEED) and the run index.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // uniform in [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool chance(int pct) { return (int)below(100) < pct; }
  Rng fork(uint64_t tag) {
    Rng r(s ^ (tag * 0xd6e8feb86659fd93ull + 0x1234567));
    r.next();
    return r;
  }
};
inline uint64_t hmix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}
uint64_t hstr(const std::string &s);

// ---------------------------------------------------------------- cases
// A case is the complete description of one simulated execution: a list of
// (key, value) lines.  Replaying is a pure function of it and the code.
struct Case {
  std::vector<std::pair<std::string, std::string>> kv;
  void add(const std::string &k, const std::string &v) { kv.push_back({k, v}); }
  void add(const std::string &k, long v) { add(k, std::to_string(v)); }
  std::vector<std::string> all(const std::string &k) const;
  std::string get(const std::string &k, const std::string &d = "") const;
  long num(const std::string &k, long d = 0) const;
  bool has(const std::string &k) const;
  std::string text() const;
  static Case parse(const std::string &t);
};

// Outcome of a run, produced in a child process.
struct Outcome {
  std::string verdict; // ok | null | violation | crash | timeout | skip
  std::string cls;     // class of the violation (stable across minimisation)
  std::string detail;
  uint64_t hash = 0; // hash of the recorded history
  std::map<std::string, long> stats;
  std::string sample;
};

// Per-run probe counters ("this rare condition was hit").
extern std::map<std::string, long> g_stats;
inline void stat(const std::string &k, long n = 1) { g_stats[k] += n; }
