// P03..P09, also used for P15: the multiplication variants against the oracle
#include "common.hpp"

#if defined(V_KERNEL_TEST) || defined(V_KERNEL_TILED)
#include "reference_kernels/kernel_test.hpp"
#include "reference_kernels/kernel_tiled.hpp"
#include <chrono>
#else
#include "variants/algorithms.hpp"
#include "variants/combined.hpp"
#include "variants/looped.hpp"
#include "variants/pseudodynamic.hpp"
#include "variants/semi.hpp"
#include "variants/single.hpp"
#endif

#ifndef COST
#define COST 1 // 0: small problems only (slow monitors)
#endif

static std::size_t padded_order(mon::rng &r) {
  static const std::vector<std::size_t> edge = {1,   2,   3,   4,   5,   7,   8,   15,  16,  17,  31,  33,  34,
                                                35,  36,  63,  64,  65,  69,  70,  71,  127, 128, 129, 139, 140,
                                                141, 209, 210, 211, 255, 256};
  static const std::vector<std::size_t> big = {257, 258, 300, 384, 385, 419, 420, 421, 447, 448, 449,
                                               490, 511, 512, 513, 525, 560, 600};
  // more than two of the largest blocks in every direction
  if (cost_level == 2 && r.chance(1, 50))
    return r.in(769, mon::ctx().thorough ? 1700 : 1300);
  unsigned w = (unsigned)r.in(0, 9);
  if (w < 4)
    return r.pick(edge);
  if (COST == 0 || w < 7)
    return r.in(1, 256);
  if (w < 9)
    return r.pick(big);
  return r.in(257, mon::ctx().thorough ? 900 : 600);
}

static std::size_t small_order(mon::rng &r) {
#ifndef V_LOOPED // an index vector per product: too slow
  if (cost_level == 2 && r.chance(1, 500))
    return r.in(521, 1100);
#endif
  if (COST && r.chance(1, cost_level == 2 ? 80 : 250))
    return large_order(r, cost_level == 2 ? 520 : 260);
  unsigned w = (unsigned)r.in(0, 9);
  if (w < 3)
    return r.in(1, 9);
  if (w < 8 || COST == 0)
    return r.in(1, 40);
  return r.in(30, mon::ctx().thorough ? 260 : 130);
}

static std::size_t block(mon::rng &r, std::size_t N, bool zero) {
  switch (r.in(0, 7)) {
  case 0:
    return zero ? 0 : 1;
  case 1:
    return N;
  case 2:
    return N + r.in(1, 9);
  case 3:
    return r.in(1, 4);
  case 4: { // a divisor
    std::vector<std::size_t> d;
    for (std::size_t i = 1; i <= N; i++)
      if (N % i == 0)
        d.push_back(i);
    return r.pick(d);
  }
  case 5:
    return N < 100 ? 128 : 64;
  default:
    return r.in(1, N);
  }
}

// N that halves evenly down to at most b
static void halving(mon::rng &r, std::size_t &N, std::size_t &b) {
  for (;;) {
    std::size_t m = r.chance(1, 6) ? r.in(1, 120) : r.in(1, 20);
    unsigned k = (unsigned)r.in(0, 6);
    N = m << k;
    std::size_t most = COST == 0 ? 24 : r.chance(1, 30) ? 512 : mon::ctx().thorough ? 256 : 128;
    if (cost_level == 2 && r.chance(1, 120))
      most = 1024;
    if (N <= most)
      break;
  }
  if (r.chance(1, 8)) {
    b = 0;
    return;
  }
  // any block size such that all halvings above it are even
  for (int t = 0; t < 50; t++) {
    b = r.chance(1, 4) ? r.pick(std::vector<std::size_t>{1, 2, 4, 8, 16, 32, 128}) : r.in(1, N + 3);
    std::size_t n = N;
    while (n > b && n % 2 == 0)
      n /= 2;
    if (n <= b) {
      // keep the number of leaves bounded
      std::size_t leaves = (N / n) * (N / n);
      if (leaves <= (COST == 0 ? 64u : 1024u))
        return;
    }
  }
  b = N;
}

void run_case(std::uint64_t idx, mon::rng &r) {
  (void)idx;
  int kind = pick_kind(r);
  std::uint64_t seed = r.next();
#if defined(V_KERNEL_TEST) || defined(V_KERNEL_TILED)
  // kernel_test supports multiples of its cache block and B as is; what lies
  // outside is a recorded finding (V_KNOWN)
#if defined(V_KNOWN)
  bool tiled = false;
  std::size_t N = idx == 0 ? 100 : 512;
#elif COST == 0
  bool tiled = true;
  std::size_t N = padded_order(r);
#else
  bool tiled = idx % 12 != 5;
  std::size_t N = tiled ? padded_order(r)
                        : cost_level == 2 && r.chance(1, mon::ctx().thorough ? 5 : 9) ? r.in(2, 3) * 512
                                                                                      : 512;
#endif
  bool tr = tiled && r.chance(1, 2);
#ifdef V_KNOWN
  tr = idx == 1;
#endif
  std::uint64_t reps = r.chance(1, 3) ? r.in(2, 3) : 1;
  if (N > 256 && (tiled || N > 512))
    reps = 1;
  if (N <= 70 && r.chance(1, 12))
    reps = r.in(4, 9);
  std::uint64_t verbose = r.in(0, 1);
  unsigned th = pick_threads(r, 9);
  mon::current(mon::fmt("%s N=%zu transposed=%d repetitions=%llu verbose=%llu threads=%u content=%d/%llu",
                        tiled ? "kernel_tiled" : "kernel_test", N, tr, (unsigned long long)reps,
                        (unsigned long long)verbose, th, kind, (unsigned long long)seed));
  operands o(N, kind, seed);
  std::vector<double> A = o.A, B = tr ? o.Bt : o.B, C;
  omp_threads(th, seed);
  if (tiled) {
    kernel_tiled::kernel_tiled m(N, A, B, tr, reps, verbose);
    double init[] = {0.0, 1e6, -1e6};
    double duration = init[r.next() % 3];
    auto t0 = std::chrono::steady_clock::now();
    C = m.matrix_multiply(duration);
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (!(duration >= 0.0 && duration <= wall + 1.0))
      mon::fail("kernel_tiled:duration",
                mon::fmt("reported duration %g s for a call that took %g s", duration, wall));
  } else {
    kernel_test::kernel_test m(N, A, B, tr, reps, verbose);
    C = m.matrix_multiply();
  }
  judge(o, C, A, B, tr, tiled ? "kernel_tiled" : "kernel_test");
  mon::count(tiled ? "kernel_tiled" : "kernel_test");
  mon::count(tr ? "transposed" : "not_transposed");
  mon::distinct(mon::h(mon::h(N, tr), mon::h(reps, mon::h(th, tiled))));
  mon::maxi("N", N);
#else
  std::size_t N = 0, br = 0, bi = 0;
  bool tr = true;
  std::uint64_t reps = 1, verbose = 0;
  std::uint32_t loc = 1;
  std::size_t minw = 0, maxd = 0;
  double reld = 0;
  const char *name;
#if defined(V_COMBINED)
  name = "combined";
  N = padded_order(r);
  tr = false;
  reps = N <= 256 && r.chance(1, 3) ? r.in(2, 3) : 1;
  if (N <= 70 && r.chance(1, 12))
    reps = r.in(4, 9);
  verbose = r.in(0, 1);
#elif defined(V_ALGORITHMS)
  name = "algorithms";
  N = small_order(r);
  br = block(r, N, true);
  bi = block(r, N, false);
#elif defined(V_LOOPED)
  name = "looped";
  N = small_order(r);
  br = block(r, N, true);
  bi = block(r, N, false);
#elif defined(V_SEMI)
  name = "semi";
  N = small_order(r);
  br = block(r, N, true);
  bi = block(r, N, false);
#elif defined(V_SINGLE)
  name = "single";
  halving(r, N, br);
  bi = r.chance(1, 6) ? 0 : block(r, N, false);
  tr = r.chance(2, 3);
  reps = r.chance(1, 5) ? (N <= 16 && r.chance(1, 4) ? r.in(4, 12) : r.in(2, 3)) : 1;
  verbose = r.chance(1, 5) ? r.in(1, 2) : 0;
#elif defined(V_PSEUDODYNAMIC)
  name = "pseudodynamic";
  halving(r, N, br);
  bi = r.chance(1, 6) ? 0 : block(r, N, false);
  tr = r.chance(2, 3);
  reps = r.chance(1, 5) ? (N <= 16 && r.chance(1, 4) ? r.in(4, 12) : r.in(2, 3)) : 1;
  verbose = r.chance(1, 5) ? r.in(1, 2) : 0;
  loc = r.chance(1, 5) ? 1 : (std::uint32_t)(r.chance(1, 10) ? r.in(8, 40) : r.in(2, 7));
  minw = r.chance(1, 4) ? 0 : r.in(1, N + 2);
  // keep the number of packages moderate
  if (minw < N / 16)
    minw = N / 16;
  maxd = r.chance(1, 2) ? r.in(0, 8) : r.in(0, N * N);
  reld = r.chance(1, 2) ? 0.0 : r.unit();
#endif
  hpx_shim::config cfg = random_env(r, loc);
#ifdef FORCE_MODE
  cfg.mode = FORCE_MODE;
#endif
  mon::current(mon::fmt("%s N=%zu block_result=%zu block_input=%zu transposed=%d repetitions=%llu verbose=%llu "
                        "min_work=%zu max_diff=%zu max_rel=%g content=%d/%llu ",
                        name, N, br, bi, tr, (unsigned long long)reps, (unsigned long long)verbose, minw, maxd, reld,
                        kind, (unsigned long long)seed) +
               env_desc(cfg));
  operands o(N, kind, seed);
  std::vector<double> A = o.A, B = tr ? o.Bt : o.B, C;
  hpx_shim::reset(cfg);
#if defined(V_COMBINED)
  {
    combined::combined m(N, A, B, reps, verbose);
    double d = 0;
    C = m.matrix_multiply(d);
  }
#elif defined(V_ALGORITHMS)
  {
    algorithms::algorithms m(N, A, B, bi, br);
    C = m.matrix_multiply();
  }
#elif defined(V_LOOPED)
  {
    looped::looped m(N, A, B, br, bi);
    C = m.matrix_multiply();
  }
#elif defined(V_SEMI)
  {
    semi::semi m(N, A, B, br, bi);
    C = m.matrix_multiply();
  }
#elif defined(V_SINGLE)
  {
    single::single m(N, A, B, tr, br, bi, reps, verbose);
    C = m.matrix_multiply();
  }
#elif defined(V_PSEUDODYNAMIC)
  {
    pseudodynamic::pseudodynamic m(N, A, B, tr, br, bi, minw, maxd, reld, reps, verbose);
    C = m.matrix_multiply();
  }
#endif
  judge(o, C, A, B, tr, name);
  env_stats();
  mon::count(name);
  mon::count(cfg.mode ? "threaded_runs" : "reordered_runs");
  if (br && N % br)
    mon::count("block_result_not_dividing");
  if (bi && N % bi)
    mon::count("block_input_not_dividing");
  if (br > N || bi > N)
    mon::count("block_larger_than_matrix");
  mon::maxi("N", N);
  mon::distinct(mon::h(mon::h(N, br), mon::h(mon::h(bi, tr), mon::h(mon::h(loc, minw), mon::h(maxd, reps)))));
#endif
  mon::sample(mon::fmt("case %llu N=%zu ok=%d", (unsigned long long)idx, N, !mon::failed()));
}
