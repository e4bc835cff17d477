// P01: the naive reference multiplication, float and double, both layouts
#include "prelude.hpp"
#include "common.hpp"
#include "reference_kernels/naive.hpp"

static std::size_t order(mon::rng &r) {
  if (cost_level == 2 && r.chance(1, 1500))
    return r.in(1000, 1100);
  if (cost_level && r.chance(1, cost_level == 2 ? 60 : 150))
    return large_order(r, cost_level == 2 ? 700 : 320);
  unsigned w = (unsigned)r.in(0, 19);
  if (w < 8)
    return r.in(1, 12);
  if (w < 17)
    return r.in(1, 70);
  return r.in(60, mon::ctx().thorough ? 400 : 160);
}

template <typename T> static std::vector<T> conv(const std::vector<double> &v) {
  return std::vector<T>(v.begin(), v.end());
}

static std::string cmp(const oracle::product &p, const std::vector<double> &C) {
  return oracle::compare(p, C.data(), p.N);
}
static std::string cmp(const oracle::product &p, const std::vector<float> &C) {
  return oracle::comparef(p, C.data(), p.N);
}

template <typename T> static void check(std::size_t N, int kind, std::uint64_t seed, bool tr, unsigned th) {
  std::vector<double> A(N * N), B(N * N), Bt(N * N);
  oracle::fill(seed, kind, N, A.data(), B.data());
  std::vector<T> a = conv<T>(A), b = conv<T>(B);
  // the operands as the code under test sees them
  A.assign(a.begin(), a.end());
  B.assign(b.begin(), b.end());
  if (tr) {
    oracle::transpose(N, B.data(), Bt.data());
    b = conv<T>(Bt);
  }
  oracle::product ref =
      oracle::multiply(N, A.data(), B.data(), oracle::exact(kind), std::is_same<T, float>::value);
  std::vector<T> a0 = a, b0 = b;
  // heap memory is not zero when the result is allocated
  {
    std::vector<T> junk(N * N, (T)-7.25);
    volatile T sink = junk[N * N - 1];
    (void)sink;
  }
  omp_threads(th, seed);
  std::vector<T> C = tr ? naive_matrix_multiply_transposed<T>(N, a, b) : naive_matrix_multiply<T>(N, a, b);
  if (C.size() != N * N) {
    mon::fail("naive:size", mon::fmt("result has %zu entries instead of %zu", C.size(), N * N));
    return;
  }
  std::string d = cmp(ref, C);
  if (!d.empty())
    mon::fail("naive:value", d);
  if (!same_content(a, a0) || !same_content(b, b0))
    mon::fail("naive:operand", "an operand was modified");
}

void run_case(std::uint64_t idx, mon::rng &r) {
  std::size_t N = order(r);
  bool tr = r.chance(1, 2), flt = r.chance(1, 3);
  unsigned th = pick_threads(r, 11);
  std::uint64_t seed = r.next();
  int kind = pick_kind(r);
  if (flt) { // values and sums that single precision holds exactly, or general values with a bound
    static const int k[] = {oracle::permuted, oracle::one_hot, oracle::reals, oracle::reals};
    kind = k[r.next() % 4];
#ifdef SPECIAL_VALUES
    kind = oracle::special;
#endif
  }
  mon::current(mon::fmt("naive%s<%s> N=%zu threads=%u content=%d/%llu", tr ? "_transposed" : "",
                        flt ? "float" : "double", N, th, kind, (unsigned long long)seed));
  if (flt)
    check<float>(N, kind, seed, tr, th);
  else
    check<double>(N, kind, seed, tr, th);
  mon::count(flt ? "float" : "double");
  mon::count(tr ? "transposed" : "plain");
  mon::maxi("N", N);
  mon::distinct(mon::h(mon::h(N, tr * 2 + flt), mon::h(th, kind)));
  mon::sample(mon::fmt("case %llu N=%zu transposed=%d float=%d threads=%u", (unsigned long long)idx, N, tr, flt, th));
}
