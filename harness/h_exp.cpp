// P23: the stand-alone experiment kernels
#include "prelude.hpp"
#include "common.hpp"

#include "expkern.hpp"

void run_case(std::uint64_t idx, mon::rng &r) {
  const std::size_t nk = exp_count;
  const exp_kern &k = exp_kerns[idx % nk];
  std::size_t n;
#if defined(COST) && COST == 0
  if (k.unit > 4)
    n = k.unit;
  else
#endif
  if (k.unit <= 4)
    n = k.unit * r.in(1, (mon::ctx().thorough ? 160 : 80) / k.unit);
  else if (k.unit == 128)
    n = 128 * (r.chance(1, 2) ? 1 : r.in(2, mon::ctx().thorough ? 4 : 3));
  else
    n = 256 * (r.chance(2, 3) ? 1 : r.in(2, mon::ctx().thorough ? 3 : 2));
#if !defined(COST) && !defined(__SANITIZE_ADDRESS__)
  if (r.chance(1, mon::ctx().thorough ? 6 : 12)) // several blocks of every size in every direction
    n = k.unit <= 4 ? k.unit * r.in(20, 400 / k.unit) : k.unit == 128 ? 128 * r.in(4, 9) : 256 * r.in(3, 5);
#endif
  int kind = pick_kind(r);
  unsigned th = pick_threads(r, 9);
  std::uint64_t seed = r.next();
  mon::current(mon::fmt("%s n=%zu threads=%u content=%d/%llu", k.name, n, th, kind, (unsigned long long)seed));
  operands o(n, kind, seed);
  exp_block A(n * n), B(n * n), C(n * n);
  std::memcpy(A.p, o.A.data(), n * n * sizeof(double));
  std::memcpy(B.p, (k.transposed ? o.Bt : o.B).data(), n * n * sizeof(double));
  for (std::size_t i = 0; i < n * n; i++)
    C.p[i] = k.zeroed ? 0.0 : 1e9 + (double)i;
  omp_threads(th, seed);
  k.f(A.p, B.p, C.p, (uint32_t)n);
  std::string d = oracle::compare(o.ref, C.p, n);
  if (!d.empty())
    mon::fail(std::string(k.name) + ":value", d);
  if (std::memcmp(A.p, o.A.data(), n * n * sizeof(double)) ||
      std::memcmp(B.p, (k.transposed ? o.Bt : o.B).data(), n * n * sizeof(double)))
    mon::fail(std::string(k.name) + ":operand", "an operand was modified");
  if (!A.intact() || !B.intact() || !C.intact())
    mon::fail(std::string(k.name) + ":outside", "memory outside C was written");
  mon::count(k.name);
  mon::maxi("n", n);
  mon::distinct(mon::h(mon::h(n, idx % nk), mon::h(th, kind)));
  mon::sample(mon::fmt("%s n=%zu threads=%u", k.name, n, th));
}
