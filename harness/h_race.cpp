// P14: parallel multiplications under ThreadSanitizer; results compared bit for
// bit across thread counts and schedules
#include "prelude.hpp"
#include "common.hpp"

#if defined(R_VARIANTS)
#include "variants/algorithms.hpp"
#include "variants/combined.hpp"
#include "variants/pseudodynamic.hpp"
#include "variants/single.hpp"
#elif defined(R_REF)
#include "reference_kernels/kernel_test.hpp"
#include "reference_kernels/kernel_tiled.hpp"
#include "reference_kernels/naive.hpp"
#else
#include "expkern.hpp"
#endif

#ifdef __SANITIZE_THREAD__
static const bool slow = true;
#else
static const bool slow = false;
#endif

static int real_kind(mon::rng &r) { return r.chance(3, 4) ? oracle::reals : oracle::spread; }

static void same(const std::vector<double> &a, const std::vector<double> &b, const char *who, unsigned th) {
  mon::observed(a.size());
  if (a.size() != b.size()) {
    mon::fail(std::string(who) + ":bits", "results of different size");
    return;
  }
  for (std::size_t i = 0; i < a.size(); i++)
    if (std::memcmp(&a[i], &b[i], sizeof(double))) {
      mon::fail(std::string(who) + ":bits", mon::fmt("entry %zu is %.17g with one thread and %.17g with %u threads", i,
                                                      a[i], b[i], th));
      return;
    }
}

void run_case(std::uint64_t idx, mon::rng &r) {
  int kind = real_kind(r);
  std::uint64_t seed = r.next();
  const int rounds = mon::ctx().thorough ? 4 : 2;
#if defined(R_VARIANTS)
  static const char *names[] = {"algorithms", "single", "pseudodynamic", "algorithms", "single", "pseudodynamic",
                                "algorithms", "single", "pseudodynamic", "combined"};
  const char *name = names[(idx * 7 + 3 * (idx / 10)) % 10];
  std::size_t N, br = 0, bi = 0, minw = 0, maxd = 0;
  double reld = 0;
  bool tr = true;
  std::uint64_t reps = r.chance(1, 3) ? 2 : 1;
  std::uint32_t loc = 1;
  if (!std::strcmp(name, "combined")) {
    static const std::vector<std::size_t> n = {257, 300, 421, 430, 512, 513, 257};
    N = r.pick(n);
    if (N > 300)
      reps = 1;
    tr = false;
  } else if (!std::strcmp(name, "algorithms")) {
    N = r.chance(1, slow ? 60 : 20) ? large_order(r, slow ? 160 : 400) : r.in(2, 48);
    br = N > 100 ? r.in(N / 8, N) : r.in(1, N);
    bi = r.in(1, N + 4);
    reps = 1;
  } else {
    std::size_t leaf = r.in(1, 6);
    N = leaf << r.in(1, leaf > 3 ? 3 : 4);
    br = leaf;
    bi = r.in(0, N);
    tr = r.chance(1, 2);
    if (!std::strcmp(name, "pseudodynamic")) {
      loc = (std::uint32_t)r.in(1, 6);
      minw = r.in(N / 8 + 1, N);
      maxd = r.in(0, N);
    }
  }
  hpx_shim::config base;
  base.mode = 0;
  base.threads = 1;
  base.localities = loc;
  base.seed = seed;
  operands o(N, kind, seed);
  std::vector<double> A = o.A, B = tr ? o.Bt : o.B;
  auto run = [&](hpx_shim::config &cfg) {
    hpx_shim::reset(cfg);
    std::vector<double> C;
    if (!std::strcmp(name, "combined")) {
      combined::combined m(N, A, B, reps, 0);
      double d = 0;
      C = m.matrix_multiply(d);
    } else if (!std::strcmp(name, "algorithms")) {
      algorithms::algorithms m(N, A, B, bi, br);
      C = m.matrix_multiply();
    } else if (!std::strcmp(name, "single")) {
      single::single m(N, A, B, tr, br, bi, reps, 0);
      C = m.matrix_multiply();
    } else {
      pseudodynamic::pseudodynamic m(N, A, B, tr, br, bi, minw, maxd, reld, reps, 0);
      C = m.matrix_multiply();
    }
    return C;
  };
  std::string what = mon::fmt("%s N=%zu block_result=%zu block_input=%zu transposed=%d repetitions=%llu localities=%u "
                              "min_work=%zu max_diff=%zu content=%d/%llu ",
                              name, N, br, bi, tr, (unsigned long long)reps, loc, minw, maxd, kind,
                              (unsigned long long)seed);
  mon::current(what + env_desc(base));
  std::vector<double> C0 = run(base);
  for (int k = 0; k < rounds; k++) {
    hpx_shim::config cfg = base;
    // mostly real threads; sometimes another order of tasks on one thread
    cfg.mode = r.chance(1, 6) ? 0 : 1;
    cfg.threads = 1 + pick_threads(r, 7);
    cfg.seed = r.next();
    cfg.max_delay_us = r.chance(1, 2) ? (unsigned)r.in(20, 400) : 0;
    mon::current(what + env_desc(cfg));
    same(C0, run(cfg), name, cfg.threads);
    mon::count(cfg.mode ? "threaded_runs" : "reordered_runs");
    mon::distinct(mon::h(mon::h(N, br), mon::h(cfg.seed, cfg.threads)));
  }
  env_stats();
  mon::count(name);
  mon::maxi("N", N);
  mon::sample(what);
#elif defined(R_REF)
  static const char *names[] = {"naive", "naive_transposed", "kernel_tiled", "naive<float>", "kernel_tiled"};
  const char *name = idx % 40 == 33 ? "kernel_test" : names[idx % 5];
  bool naive = name[0] == 'n';
  static const std::vector<std::size_t> edge = {130, 64, 65, 128, 257, 150, 211, 300};
  std::size_t N = naive ? r.chance(1, slow ? 40 : 15) ? large_order(r, slow ? 200 : 500) : r.in(1, 48) : slow ? r.pick(edge) : r.in(1, 300);
  if (!std::strcmp(name, "kernel_test"))
    N = 512; // the smallest order it supports
  bool tr = r.chance(1, 2);
  std::uint64_t reps = !naive && r.chance(1, 4) ? 2 : 1;
  operands o(N, kind, seed);
  std::vector<double> A = o.A, B = tr ? o.Bt : o.B;
  std::vector<float> Af(A.begin(), A.end()), Bf(B.begin(), B.end());
  auto run = [&](unsigned th) {
    omp_threads(th, r.next());
    std::vector<double> C;
    if (!std::strcmp(name, "naive"))
      C = naive_matrix_multiply<double>(N, A, B);
    else if (!std::strcmp(name, "naive_transposed"))
      C = naive_matrix_multiply_transposed<double>(N, A, B);
    else if (!std::strcmp(name, "naive<float>")) {
      std::vector<float> c = tr ? naive_matrix_multiply_transposed<float>(N, Af, Bf)
                                : naive_matrix_multiply<float>(N, Af, Bf);
      C.assign(c.begin(), c.end());
    } else if (!std::strcmp(name, "kernel_test")) {
      kernel_test::kernel_test m(N, A, B, tr, reps, 0);
      C = m.matrix_multiply();
    } else {
      kernel_tiled::kernel_tiled m(N, A, B, tr, reps, 0);
      double d = 0;
      C = m.matrix_multiply(d);
    }
    return C;
  };
  std::string what = mon::fmt("%s N=%zu transposed=%d repetitions=%llu content=%d/%llu", name, N, tr,
                              (unsigned long long)reps, kind, (unsigned long long)seed);
  mon::current(what + " threads=1");
  std::vector<double> C0 = run(1);
  for (int k = 0; k < rounds; k++) {
    unsigned th = 1 + pick_threads(r, 8);
    mon::current(what + mon::fmt(" threads=%u", th));
    same(C0, run(th), name, th);
    mon::count("threaded_runs");
    mon::distinct(mon::h(mon::h(N, tr), mon::h(idx % 5, th)));
  }
  mon::count(name);
  mon::maxi("N", N);
  mon::sample(what);
#else
  const exp_kern &k = exp_kerns[idx % exp_count];
  std::size_t n = k.unit <= 4 ? k.unit * r.in(1, 48 / k.unit) : k.unit;
  operands o(n, kind, seed);
  exp_block A(n * n), B(n * n), C(n * n);
  std::memcpy(A.p, o.A.data(), n * n * sizeof(double));
  std::memcpy(B.p, (k.transposed ? o.Bt : o.B).data(), n * n * sizeof(double));
  auto run = [&](unsigned th) {
    for (std::size_t i = 0; i < n * n; i++)
      C.p[i] = 0.0;
    omp_threads(th, r.next());
    k.f(A.p, B.p, C.p, (std::uint32_t)n);
    return std::vector<double>(C.p, C.p + n * n);
  };
  std::string what = mon::fmt("%s n=%zu content=%d/%llu", k.name, n, kind, (unsigned long long)seed);
  mon::current(what + " threads=1");
  std::vector<double> C0 = run(1);
  for (int q = 0; q < rounds; q++) {
    unsigned th = 1 + pick_threads(r, 8);
    mon::current(what + mon::fmt(" threads=%u", th));
    same(C0, run(th), k.name, th);
    mon::count("threaded_runs");
    mon::distinct(mon::h(n, mon::h(idx % exp_count, th)));
  }
  mon::count(k.name);
  mon::maxi("n", n);
  mon::sample(what);
#endif
}
