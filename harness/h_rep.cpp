// P16: repetitions and repeated calls
#include "prelude.hpp"
#include "common.hpp"
#include "reference_kernels/kernel_test.hpp"
#include "reference_kernels/kernel_tiled.hpp"
#include "reference_kernels/naive.hpp"
#include "variants/algorithms.hpp"
#include "variants/combined.hpp"
#include "variants/looped.hpp"
#include "variants/pseudodynamic.hpp"
#include "variants/semi.hpp"
#include "variants/single.hpp"

static void same(const std::vector<double> &a, const std::vector<double> &b, const char *who, const char *what) {
  mon::observed(a.size());
  if (a.size() != b.size()) {
    mon::fail(std::string(who) + ":" + what, "results of different size");
    return;
  }
  for (std::size_t i = 0; i < a.size(); i++)
    if (std::memcmp(&a[i], &b[i], sizeof(double))) {
      mon::fail(std::string(who) + ":" + what,
                mon::fmt("entry %zu was %.17g and is now %.17g", i, a[i], b[i]));
      return;
    }
}

static const char *names[] = {"single", "pseudodynamic", "kernel_tiled", "kernel_tiled", "combined",
                              "algorithms", "looped", "semi", "naive", "single", "pseudodynamic"};
static const char *name;
static std::size_t N, br, bi, minw, maxd;
static bool tr;

// make an object with R repetitions and call it `calls` times
template <typename F> static void run(std::vector<double> &A, std::vector<double> &B, std::uint64_t R, int calls, F f) {
  std::string n = name;
  double d = 0;
#define CALLS(expr)                                                                                                    \
  for (int c = 0; c < calls; c++)                                                                                      \
  f(c, expr)
  if (n == "single") {
    single::single m(N, A, B, tr, br, bi, R, 0);
    CALLS(m.matrix_multiply());
  } else if (n == "pseudodynamic") {
    pseudodynamic::pseudodynamic m(N, A, B, tr, br, bi, minw, maxd, 0.0, R, 0);
    CALLS(m.matrix_multiply());
  } else if (n == "combined") {
    combined::combined m(N, A, B, R, 0);
    CALLS(m.matrix_multiply(d));
  } else if (n == "kernel_test") {
    kernel_test::kernel_test m(N, A, B, tr, R, 0);
    CALLS(m.matrix_multiply());
  } else if (n == "kernel_tiled") {
    kernel_tiled::kernel_tiled m(N, A, B, tr, R, 0);
    CALLS(m.matrix_multiply(d));
  } else if (n == "algorithms") {
    algorithms::algorithms m(N, A, B, bi, br);
    CALLS(m.matrix_multiply());
  } else if (n == "looped") {
    looped::looped m(N, A, B, br, bi);
    CALLS(m.matrix_multiply());
  } else if (n == "semi") {
    semi::semi m(N, A, B, br, bi);
    CALLS(m.matrix_multiply());
  } else {
    CALLS(tr ? naive_matrix_multiply_transposed<double>(N, A, B) : naive_matrix_multiply<double>(N, A, B));
  }
#undef CALLS
}

void run_case(std::uint64_t idx, mon::rng &r) {
  name = idx % 66 == 2 ? "kernel_test" : names[idx % 11];
  std::string n = name;
  bool padded = n == "combined" || n.compare(0, 6, "kernel") == 0;
  bool halves = n == "single" || n == "pseudodynamic";
  bool counted = padded || halves;
  int kind = pick_kind(r);
  std::uint64_t seed = r.next();
  std::uint32_t loc = 1;
  tr = true;
  minw = maxd = 0;
  if (padded) {
    static const std::vector<std::size_t> edge = {1, 4, 17, 64, 65, 70, 100, 128, 150};
    N = r.chance(1, 6) ? r.in(200, 300) : r.pick(edge);
    if (n == "kernel_test")
      N = 512; // the smallest order it supports
    if (n == "combined")
      tr = false;
    else
      tr = r.chance(1, 2);
  } else if (halves) {
    std::size_t leaf = r.in(1, 8);
    N = leaf << r.in(0, 3);
    br = r.chance(1, 4) ? 0 : leaf;
    bi = r.in(0, N + 2);
    tr = r.chance(1, 2);
    if (n == "pseudodynamic") {
      loc = (std::uint32_t)r.in(1, 6);
      minw = r.in(1, N);
      maxd = r.in(0, N);
    }
  } else {
    N = r.in(1, 40);
    br = r.in(0, N + 3);
    bi = r.in(1, N + 3);
    if (n == "naive")
      tr = r.chance(1, 2);
  }
  std::uint64_t R = counted ? r.in(2, padded && N > 70 ? 3 : r.chance(1, 6) ? 12 : 6) : 1;
  int calls = (int)r.in(2, padded ? 2 : 4);
  if (n == "kernel_test")
    R = 2;
  hpx_shim::config cfg = random_env(r, loc);
  mon::current(mon::fmt("%s N=%zu block_result=%zu block_input=%zu transposed=%d repetitions=%llu calls=%d "
                        "min_work=%zu max_diff=%zu content=%d/%llu ",
                        name, N, br, bi, tr, (unsigned long long)R, calls, minw, maxd, kind,
                        (unsigned long long)seed) +
               env_desc(cfg));
  operands o(N, kind, seed);
  std::vector<double> A = o.A, B = tr ? o.Bt : o.B, C1;
  omp_threads(cfg.threads, seed);
  hpx_shim::reset(cfg);
  run(A, B, 1, calls, [&](int c, std::vector<double> C) {
    if (c == 0)
      C1 = C;
    else
      same(C1, C, name, "again");
  });
  // another problem of the same order (or a neighbouring one) is solved in
  // between; the first object must not notice, nor must the second be influenced
  if (r.chance(2, 3)) {
    std::size_t N0 = N, N2 = r.chance(2, 3) || halves || n == "kernel_test" ? N : N + r.in(1, 3);
    bool akin = N2 == N && r.chance(3, 4); // shares most entries with the first
    operands p = akin ? operands(o, r) : operands(N2, oracle::ints, seed ^ 0x5bd1e995);
    std::vector<double> A2 = p.A, B2 = tr ? p.Bt : p.B;
    hpx_shim::reset(cfg);
    auto other = [&](int, std::vector<double> D) {
      if (n != "kernel_test")
        judge(p, D, A2, B2, tr, (n + ":other").c_str());
    };
    if (halves || (N2 == N && r.chance(1, 2))) {
      // one after the other, in the same storage
      std::vector<double> S = A, T = B;
      run(S, T, 1, 1, [&](int, std::vector<double> C) { same(C1, C, name, "interleaved"); });
      std::copy(A2.begin(), A2.end(), S.begin());
      std::copy(B2.begin(), B2.end(), T.begin());
      hpx_shim::reset(cfg);
      run(S, T, 1, 1, other);
      mon::count("storage_reused");
    } else {
      run(A, B, 1, 2, [&](int c, std::vector<double> C) {
        same(C1, C, name, "interleaved");
        if (c)
          return;
        N = N2;
        run(A2, B2, 1, 1, other);
        N = N0;
      });
    }
    if (akin)
      mon::count("akin_objects");
    mon::count("interleaved_objects");
  }
  if (counted) {
    cfg.seed = r.next();
    hpx_shim::reset(cfg);
    int again = r.chance(1, 3) ? 2 : 1;
    run(A, B, R, again,
        [&](int c, std::vector<double> C) { same(C1, C, name, c ? "repetitions-again" : "repetitions"); });
    mon::count("repetition_runs");
  }
  // the result stays what it was after other objects came and went
  if (r.chance(1, 3)) {
    hpx_shim::reset(cfg);
    run(A, B, 1, 1, [&](int, std::vector<double> C) { same(C1, C, name, "new-object"); });
  }
  if (!same_bits(A, o.A) || !same_bits(B, tr ? o.Bt : o.B))
    mon::fail(n + ":operand", "an operand was modified by repeating");
  env_stats();
  mon::count(name);
  mon::count("calls", calls);
  mon::maxi("N", N);
  mon::maxi("repetitions", R);
  mon::distinct(mon::h(mon::h(N, br), mon::h(mon::h(bi, tr), mon::h(R, mon::h(idx % 11, calls)))));
  mon::sample(mon::fmt("%s N=%zu repetitions=%llu calls=%d", name, N, (unsigned long long)R, calls));
}
