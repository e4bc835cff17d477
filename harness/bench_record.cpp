// stand-in for the experiment kernels: records what the benchmark passed and
// stores a result whose norm is known exactly
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>

static std::uint64_t mix(std::uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

void bench_record(const char *name, double *A, double *B, double *C, std::uint32_t n32) {
  const std::size_t n = n32;
  const char *e = std::getenv("BENCH_PATTERN");
  std::string pat = e ? e : "zero";
  e = std::getenv("BENCH_SEED");
  std::uint64_t seed = e ? std::strtoull(e, nullptr, 10) : 1;
  auto al = [](double *p) { return reinterpret_cast<std::uintptr_t>(p) % 64 == 0; };
  bool aligned = al(A) && al(B) && al(C);
  auto apart = [&](double *p, double *q) { return p + n * n <= q || q + n * n <= p; };
  bool disjoint = apart(A, B) && apart(A, C) && apart(B, C);
  bool a = true, b = true, c = true;
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++) {
      a &= A[i * n + j] == 2.0;
      b &= B[i * n + j] == (i == j ? 1.0 : 0.0);
      c &= C[i * n + j] == 0.0;
    }
  std::uint64_t sum = 0;
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++) {
      std::uint64_t h = mix(seed * 1000003 + i * n + j);
      long v = 0;
      if (pat == "ones")
        v = 1;
      else if (pat == "two")
        v = 2;
      else if (pat == "last")
        v = i == n - 1 && j == n - 1 ? 1000 + (long)(seed % 1000) : 0;
      else if (pat == "first")
        v = i == 0 && j == 0 ? 1000 + (long)(seed % 1000) : 0;
      else if (pat == "corner")
        v = i == n - 1 && j == 0 ? 17 : i == 0 && j == n - 1 ? 31 : 0;
      else if (pat == "row")
        v = i == n - 1 ? (long)(h % 9) : 0;
      else if (pat == "column")
        v = j == n - 1 ? (long)(h % 9) : 0;
      else if (pat == "random")
        v = (long)(h % 201) - 100;
      else if (pat == "negative")
        v = -(long)(h % 50);
      else if (pat == "sparse")
        v = h % 4096 == 0 ? (long)((h >> 20) % 1000) : 0;
      C[i * n + j] = (double)v;
      sum += (std::uint64_t)(v * v);
    }
  if (const char *l = std::getenv("BENCH_LOG")) {
    std::FILE *f = std::fopen(l, "a");
    std::fprintf(f, "call %s n=%zu aligned=%d disjoint=%d A=%d B=%d C=%d sumsq=%llu\n", name, n, aligned, disjoint, a,
                 b, c, (unsigned long long)sum);
    std::fclose(f);
  }
}
