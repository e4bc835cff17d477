// helpers shared by the harnesses that multiply matrices
#pragma once
#include "mon.hpp"
#include "oracle.hpp"
#include <cstring>
#include <memory>

struct operands {
  std::size_t N;
  int kind;
  std::uint64_t seed;
  std::vector<double> A, B, Bt;
  oracle::product ref;
  operands(std::size_t N, int kind, std::uint64_t seed)
      : N(N), kind(kind), seed(seed), A(N * N), B(N * N), Bt(N * N) {
    oracle::fill(seed, kind, N, A.data(), B.data());
    oracle::transpose(N, B.data(), Bt.data());
    ref = oracle::multiply(N, A.data(), B.data(), oracle::exact(kind));
  }
  // another problem that shares most of its entries with `o`
  operands(const operands &o, mon::rng &r) : N(o.N), kind(o.kind), seed(o.seed), A(o.A), B(o.B), Bt(o.Bt) {
    // 1: only A differs, 2: only B differs, 3: both
    int which = r.chance(1, 2) ? 2 : (int)r.in(1, 3);
    for (int w = 1; w <= 2; w++) {
      if (!(which & w) || N < 1)
        continue;
      std::vector<double> &M = w == 1 ? A : B;
      // entries are negated, so that what is exact stays exact
      switch (r.in(0, 4)) {
      case 0: { // a single entry
        std::size_t i = r.in(0, N * N - 1);
        M[i] = -M[i];
        break;
      }
      case 1: { // all but the corners
        for (std::size_t i = 0; i < N * N; i++)
          if (i != 0 && i != N - 1 && i != N * N - N && i != N * N - 1)
            M[i] = -M[i];
        break;
      }
      case 2: { // one row
        std::size_t i = r.in(0, N - 1);
        for (std::size_t j = 0; j < N; j++)
          M[i * N + j] = -M[i * N + j];
        break;
      }
      case 3: { // one column
        std::size_t j = r.in(0, N - 1);
        for (std::size_t i = 0; i < N; i++)
          M[i * N + j] = -M[i * N + j];
        break;
      }
      default: // two rows change places: same entries, same sum
        if (N > 1) {
          std::size_t i = r.in(0, N - 1), k = r.in(0, N - 2);
          k += k >= i;
          for (std::size_t j = 0; j < N; j++)
            std::swap(M[i * N + j], M[k * N + j]);
        }
      }
    }
    oracle::transpose(N, B.data(), Bt.data());
    ref = oracle::multiply(N, A.data(), B.data(), oracle::exact(kind));
  }
};

inline int pick_kind(mon::rng &r) {
#ifdef SPECIAL_VALUES
  return r.chance(5, 6) ? oracle::special : oracle::extreme;
#endif
  static const int w[] = {oracle::ints,  oracle::ints,   oracle::wide_ints, oracle::reals, oracle::reals,
                          oracle::spread, oracle::sparse, oracle::permuted,  oracle::one_hot,   oracle::scaled,
                          oracle::banded};
  return w[r.next() % (sizeof w / sizeof *w)];
}
// orders beyond what most cases use: around powers of two and multiples of
// common block sizes, and anything else up to `top`
// (COST: 0 for memcheck; otherwise sanitized or plain builds)
#if defined(COST) && COST == 0
constexpr int cost_level = 0;
#elif defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
constexpr int cost_level = 1;
#else
constexpr int cost_level = 2;
#endif
inline std::size_t large_order(mon::rng &r, std::size_t top) {
  static const std::size_t e[] = {127, 128, 129, 160, 191, 192, 193, 200, 255, 256, 257, 260, 299, 300, 320, 383,
                                  384, 385, 400, 419, 420, 421, 448, 500, 511, 512, 513, 520, 600, 640, 700};
  std::size_t n = r.chance(1, 2) ? e[r.next() % (sizeof e / sizeof *e)] : r.in(101, top);
  return n <= top ? n : r.in(top / 2, top);
}
// mostly few threads, sometimes more than any machine here has cores
inline unsigned pick_threads(mon::rng &r, unsigned usual) {
  static const unsigned many[] = {12, 16, 17, 24, 32, 33, 48, 64};
  return r.chance(1, 16) ? many[r.next() % 8] : (unsigned)r.in(1, usual);
}
template <typename T> bool same_content(const std::vector<T> &a, const std::vector<T> &b) {
  return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(T)));
}
inline bool same_bits(const std::vector<double> &a, const std::vector<double> &b) {
  return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(double)));
}
// judge a returned matrix and the operands that were passed in
inline void judge(const operands &o, const std::vector<double> &C, const std::vector<double> &Ain,
                  const std::vector<double> &Bin, bool transposed, const char *who) {
  if (C.size() != o.N * o.N) {
    mon::fail(std::string(who) + ":size", mon::fmt("result has %zu entries instead of %zu", C.size(), o.N * o.N));
    return;
  }
  std::string d = oracle::compare(o.ref, C.data(), o.N);
  if (!d.empty())
    mon::fail(std::string(who) + ":value", d);
  if (!same_bits(Ain, o.A))
    mon::fail(std::string(who) + ":operand", "operand A was modified");
  if (!same_bits(Bin, transposed ? o.Bt : o.B))
    mon::fail(std::string(who) + ":operand", "operand B was modified");
}

#ifdef WITH_HPX_SHIM
#include <hpx/shim_core.hpp>
inline hpx_shim::config random_env(mon::rng &r, std::uint32_t localities = 1) {
  hpx_shim::config c;
  c.mode = r.chance(1, 2) ? 0 : 1;
  c.threads = pick_threads(r, 8);
  c.seed = r.next();
  c.max_delay_us = r.chance(1, 4) ? 150 : 0;
  c.localities = localities;
  return c;
}
inline std::string env_desc(const hpx_shim::config &c) {
  return mon::fmt("runtime{mode=%s threads=%u localities=%u delay=%u seed=%llu}", c.mode ? "threads" : "det",
                  c.threads, c.localities, c.max_delay_us, (unsigned long long)c.seed);
}
inline void env_stats() {
  auto &k = hpx_shim::rt().cnt;
  mon::maxi("shim_max_live_tasks", k.max_live);
  static std::uint64_t t, c, l, i, re, ch;
#define D(n, v, o)                                                                                                     \
  mon::count(n, k.v - o);                                                                                              \
  o = k.v
  D("tasks_spawned", tasks, t);
  D("continuations", continuations, c);
  D("parallel_loops", loops, l);
  D("loop_items", loop_items, i);
  D("loop_chunks", loop_chunks, ch);
  D("tasks_run_out_of_order", reordered, re);
#undef D
}
#endif

#ifdef WITH_MINIGOMP
extern "C" void minigomp_set(unsigned n, uint64_t s);
inline void omp_threads(unsigned n, std::uint64_t seed) { minigomp_set(n, seed); }
#else
#include <omp.h>
inline void omp_threads(unsigned n, std::uint64_t) {
  omp_set_dynamic(0);
  omp_set_num_threads((int)n);
}
#endif
