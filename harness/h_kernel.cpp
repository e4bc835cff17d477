// P02: the block kernels.  Operands and output are exactly sized heap blocks, so
// that every access outside them is seen by the address sanitizer; the output
// vector carries guard entries around the block for the other monitors.
#include "prelude.hpp"
#include "common.hpp"
#include "reference_kernels/kernel.hpp"

template <typename T> static void check(std::uint64_t idx, mon::rng &r) {
  const bool flt = std::is_same<T, float>::value;
  int which = (int)(idx % 3);
  std::size_t N = r.chance(3, 4) ? r.in(1, 24) : r.in(1, mon::ctx().thorough ? 120 : 60);
  if (cost_level && r.chance(1, cost_level == 2 ? 50 : 200))
    N = cost_level == 2 && r.chance(1, 16) ? r.in(1000, 1100) : large_order(r, cost_level == 2 ? 700 : 320);
  std::size_t b, x, y, bi = 0;
  if (which == 2) {
    if (N < 4)
      N = r.in(4, 30);
    b = 4 * r.in(1, N > 130 && r.chance(3, 4) ? 16 : N / 4);
    switch (r.in(0, 4)) {
    case 0: bi = 1; break;
    case 1: bi = N; break;
    case 2: bi = N + r.in(1, 20); break;
    default: bi = r.in(1, N);
    }
  } else
    b = r.in(1, N > 130 && r.chance(3, 4) ? 64 : N);
  x = r.chance(1, 3) ? N - b : r.in(0, N - b);
  y = r.chance(1, 3) ? N - b : r.in(0, N - b);
  int kind = pick_kind(r);
  if (flt) {
    static const int k[] = {oracle::permuted, oracle::one_hot, oracle::reals};
    kind = k[r.next() % 3];
#ifdef SPECIAL_VALUES
    kind = oracle::special;
#endif
  }
  std::uint64_t seed = r.next();
  static const char *nm[] = {"kernel", "kernel_transposed", "kernel_transposed_blocked"};
  mon::current(mon::fmt("%s<%s> N=%zu x=%zu y=%zu block=%zu chunk=%zu content=%d/%llu", nm[which],
                        flt ? "float" : "double", N, x, y, b, bi, kind, (unsigned long long)seed));
  std::vector<double> A(N * N), B(N * N), Bt(N * N);
  oracle::fill(seed, kind, N, A.data(), B.data());
  std::vector<T> a(A.begin(), A.end()), tmp(B.begin(), B.end());
  A.assign(a.begin(), a.end());
  B.assign(tmp.begin(), tmp.end());
  oracle::transpose(N, B.data(), Bt.data());
  oracle::product ref = oracle::multiply(N, A.data(), B.data(), oracle::exact(kind), flt);
  const std::vector<double> &src = which == 0 ? B : Bt;
  std::vector<T> bb(src.begin(), src.end()), a0 = a, b0 = bb;
  const T guard = (T)-12345;
  // sometimes the output vector is longer than the block: the rest must stay
  std::size_t extra = r.chance(1, 2) ? 0 : r.in(1, 2 * b + 3);
  std::vector<T> C(b * b + extra, guard);
  T init = which == 2 ? (T)0 : (T)r.pick(std::vector<double>{0.0, 77.0});
  std::fill(C.begin(), C.begin() + b * b, init);
  C.shrink_to_fit();
  if (which == 0)
    kernel::kernel(a, bb, C, N, x, y, b);
  else if (which == 1)
    kernel::kernel_transposed(a, bb, C, N, x, y, b);
  else
    kernel::kernel_transposed_blocked(a, bb, C, N, x, y, b, bi);
  if (C.size() != b * b + extra) {
    mon::fail("kernel:size", "the output changed its size");
    return;
  }
  std::vector<double> Cd(C.begin(), C.end());
  std::string d = oracle::compare(ref, Cd.data(), b, x, y, b);
  if (!d.empty())
    mon::fail(std::string(nm[which]) + ":value", d);
  for (std::size_t i = b * b; i < C.size(); i++)
    if (!(C[i] == guard))
      mon::fail(std::string(nm[which]) + ":outside", mon::fmt("entry %zu past the %zu x %zu block was written", i, b, b));
  if (!same_content(a, a0) || !same_content(bb, b0))
    mon::fail(std::string(nm[which]) + ":operand", "an operand was modified");
  mon::count(nm[which]);
  if (bi && N % bi)
    mon::count("chunk_not_dividing");
  if (x || y)
    mon::count("inner_blocks");
  mon::distinct(mon::h(mon::h(N, b), mon::h(mon::h(x, y), mon::h(bi, which))));
  mon::maxi("N", N);
  mon::sample(mon::fmt("%s N=%zu x=%zu y=%zu block=%zu chunk=%zu", nm[which], N, x, y, b, bi));
}

void run_case(std::uint64_t idx, mon::rng &r) {
  if (r.chance(1, 4))
    check<float>(idx, r);
  else
    check<double>(idx, r);
}
