// Monitor core shared by the harnesses: deterministic case generation, crash
// attribution, violation records and coverage statistics.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mon {

inline std::uint64_t mix(std::uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

struct rng {
  std::uint64_t s;
  explicit rng(std::uint64_t seed) : s(mix(seed)) {}
  std::uint64_t next() { return s = mix(s); }
  // [lo, hi]
  std::uint64_t in(std::uint64_t lo, std::uint64_t hi) {
    return lo + next() % (hi - lo + 1);
  }
  bool chance(unsigned num, unsigned den) { return next() % den < num; }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  template <typename T> const T &pick(const std::vector<T> &v) {
    return v[next() % v.size()];
  }
};

// Records what is about to run, so that a crash or hang can be attributed.
void current(const std::string &desc);
// The case broke the property.  key: stable identifier of the kind of failure.
void fail(const std::string &key, const std::string &what);
bool failed(); // the current case already failed
void count(const char *name, std::uint64_t n = 1);
void maxi(const char *name, std::uint64_t v);
void distinct(std::uint64_t h);      // a distinct non-trivial configuration
void observed(std::uint64_t events); // oracle evaluations
void sample(const std::string &s);
inline std::uint64_t h(std::uint64_t a, std::uint64_t b) { return mix(a * 31 + b + 0x1234567); }

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

struct context {
  std::uint64_t seed;
  bool thorough;
};
const context &ctx();

} // namespace mon

// supplied by each harness
void run_case(std::uint64_t idx, mon::rng &r);
