#include "oracle.hpp"
#include "mon.hpp"
#include <cmath>
#include <cstdio>
#include <cstring>

namespace oracle {
bool exact(int k) { return k != reals && k != spread; }

void fill(std::uint64_t seed, int kind, std::size_t N, double *A, double *B) {
  mon::rng r(seed);
  std::size_t n2 = N * N;
  auto si = [&](std::uint64_t m) { return (double)(std::int64_t)(r.next() % (2 * m + 1)) - (double)m; };
  auto nz = [&](std::uint64_t m) {
    double v = (double)(1 + r.next() % m);
    return r.next() & 1 ? v : -v;
  };
  switch (kind) {
  case ints:
    for (std::size_t i = 0; i < n2; i++) {
      A[i] = nz(64);
      B[i] = nz(64);
    }
    break;
  case wide_ints:
    for (std::size_t i = 0; i < n2; i++) {
      A[i] = si(1u << (r.next() % 16));
      B[i] = si(1u << (r.next() % 16));
    }
    break;
  case reals:
    for (std::size_t i = 0; i < n2; i++) {
      A[i] = 2 * r.unit() - 1;
      B[i] = 2 * r.unit() - 1;
    }
    break;
  case spread:
    for (std::size_t i = 0; i < n2; i++) {
      A[i] = std::ldexp(2 * r.unit() - 1, (int)(r.next() % 200) - 100);
      B[i] = std::ldexp(2 * r.unit() - 1, (int)(r.next() % 200) - 100);
    }
    break;
  case sparse:
    for (std::size_t i = 0; i < n2; i++) {
      A[i] = r.next() % 4 ? 0.0 : si(1000);
      B[i] = r.next() % 4 ? 0.0 : si(1000);
    }
    break;
  case permuted: {
    for (int w = 0; w < 2; w++) {
      double *M = w ? B : A;
      std::vector<std::size_t> p(N);
      for (std::size_t i = 0; i < N; i++)
        p[i] = i;
      for (std::size_t i = N; i > 1; i--)
        std::swap(p[i - 1], p[r.next() % i]);
      for (std::size_t i = 0; i < n2; i++)
        M[i] = 0.0;
      for (std::size_t i = 0; i < N; i++)
        M[i * N + p[i]] = nz(500);
    }
    break;
  }
  case scaled: {
    static const int e[] = {-240, -90, -40, 40, 90, 240};
    int ea = e[r.next() % 6], eb = e[r.next() % 6];
    for (std::size_t i = 0; i < n2; i++) {
      A[i] = std::ldexp(nz(1000), ea);
      B[i] = std::ldexp(nz(1000), eb);
    }
    break;
  }
  case banded: {
    std::vector<char> ra(N), rb(N), ca(N), cb(N);
    for (std::size_t i = 0; i < N; i++) {
      ra[i] = r.next() % 3 == 0;
      rb[i] = r.next() % 3 == 0;
      ca[i] = r.next() % 4 == 0;
      cb[i] = r.next() % 4 == 0;
    }
    for (std::size_t i = 0; i < N; i++)
      for (std::size_t j = 0; j < N; j++) {
        A[i * N + j] = ra[i] || ca[j] ? 0.0 : nz(2000);
        B[i * N + j] = rb[i] || cb[j] ? -0.0 : nz(2000);
      }
    break;
  }
  case special: {
    unsigned zeros = (unsigned)(r.next() % 4);
    for (std::size_t i = 0; i < n2; i++) {
      A[i] = r.next() % 4 < zeros ? (r.next() & 1 ? 0.0 : -0.0) : nz(40);
      B[i] = r.next() % 4 < zeros ? (r.next() & 1 ? 0.0 : -0.0) : nz(40);
    }
    const double inf = HUGE_VAL, v[] = {inf, -inf, std::nan("")};
    // 0: A, 1: B, 2: both
    unsigned where = (unsigned)(r.next() % 3), only = (unsigned)(r.next() % 5);
    for (unsigned w = 0; w < 2; w++) {
      if (where != 2 && where != w)
        continue;
      double *M = w ? B : A;
      auto val = [&] { return v[only < 3 ? only : r.next() % 3]; };
      std::size_t e = N - 1;
      switch (r.next() % 8) {
      case 0: // one entry
        M[r.next() % n2] = val();
        break;
      case 1: { // a corner
        std::size_t c[] = {0, e, e * N, e * N + e};
        M[c[r.next() % 4]] = val();
        break;
      }
      case 2: { // a row
        std::size_t i = r.next() & 1 ? e : r.next() % N;
        for (std::size_t j = 0; j < N; j++)
          M[i * N + j] = val();
        break;
      }
      case 3: { // a column
        std::size_t j = r.next() & 1 ? e : r.next() % N;
        for (std::size_t i = 0; i < N; i++)
          M[i * N + j] = val();
        break;
      }
      case 4: // an entry of the last row or column
        if (r.next() & 1)
          M[e * N + r.next() % N] = val();
        else
          M[r.next() % N * N + e] = val();
        break;
      default:
        for (std::size_t k = 1 + r.next() % 6; k > 0; k--)
          M[r.next() % n2] = val();
      }
    }
    break;
  }
  case extreme: {
    // products and their sums stay exact and below the largest number
    static const int e[][2] = {{-1074, 0}, {0, -1074}, {-1060, 0}, {-600, -460}, {990, 0}, {0, 990}, {500, 480}, {1010, -20}};
    const int *x = e[r.next() % 8];
    for (std::size_t i = 0; i < n2; i++) {
      A[i] = r.next() % 5 ? std::ldexp(nz(100), x[0]) : 0.0;
      B[i] = r.next() % 5 ? std::ldexp(nz(100), x[1]) : 0.0;
    }
    break;
  }
  default: // one_hot
    for (std::size_t i = 0; i < n2; i++) {
      A[i] = 0.0;
      B[i] = nz(100);
    }
    A[r.next() % n2] = nz(100);
    break;
  }
}

void transpose(std::size_t N, const double *in, double *out) {
  for (std::size_t i = 0; i < N; i++)
    for (std::size_t j = 0; j < N; j++)
      out[j * N + i] = in[i * N + j];
}

product multiply(std::size_t N, const double *A, const double *B, bool ex, bool sp) {
  product p;
  p.N = N;
  p.exact = ex;
  p.value.assign(N * N, 0.0);
  if (ex) {
    // all partial sums are integers below 2^53: plain double is exact
    bool finite = true;
    for (std::size_t i = 0; i < N * N && finite; i++)
      finite = std::isfinite(A[i]) && std::isfinite(B[i]);
    for (std::size_t i = 0; i < N; i++)
      for (std::size_t k = 0; k < N; k++) {
        double a = A[i * N + k];
        if (a == 0.0 && finite) // zero times infinity is not zero
          continue;
        const double *b = B + k * N;
        double *c = &p.value[i * N];
        for (std::size_t j = 0; j < N; j++)
          c[j] += a * b[j];
      }
    return p;
  }
  p.bound.assign(N * N, 0.0);
  double eps = sp ? 1.2e-7 : 2.3e-16;
  std::vector<long double> s(N);
  std::vector<double> t(N);
  for (std::size_t i = 0; i < N; i++) {
    for (std::size_t j = 0; j < N; j++) {
      s[j] = 0;
      t[j] = 0;
    }
    for (std::size_t k = 0; k < N; k++) {
      long double a = A[i * N + k];
      const double *b = B + k * N;
      for (std::size_t j = 0; j < N; j++) {
        s[j] += a * b[j];
        t[j] += std::fabs((double)a * b[j]);
      }
    }
    for (std::size_t j = 0; j < N; j++) {
      p.value[i * N + j] = (double)s[j];
      p.bound[i * N + j] = 2.0 * (double)(N + 8) * eps * t[j] + 1e-300;
    }
  }
  return p;
}

static bool same(const product &p, std::size_t idx, double v) {
  if (p.exact)
    return v == p.value[idx] || (std::isnan(v) && std::isnan(p.value[idx]));
  double d = std::fabs(v - p.value[idx]);
  return d <= p.bound[idx]; // false for NaN
}

static std::string diff(const product &p, std::size_t i, std::size_t j, double got, std::size_t bad) {
  char b[256];
  std::snprintf(b, sizeof b, "entry (%zu,%zu) is %.17g, the product is %.17g%s; %zu wrong entries", i, j, got,
                p.value[i * p.N + j], p.exact ? " exactly" : "", bad);
  return b;
}

std::string compare(const product &p, const double *C, std::size_t ld, std::size_t x, std::size_t y,
                    std::size_t b) {
  if (b == 0)
    b = p.N;
  std::size_t bad = 0, bi = 0, bj = 0;
  double bv = 0;
  for (std::size_t i = 0; i < b; i++)
    for (std::size_t j = 0; j < b; j++) {
      double v = C[i * ld + j];
      if (!same(p, (x + i) * p.N + y + j, v)) {
        if (!bad++) {
          bi = x + i;
          bj = y + j;
          bv = v;
        }
      }
    }
  mon::observed(b * b);
  return bad ? diff(p, bi, bj, bv, bad) : std::string();
}
std::string comparef(const product &p, const float *C, std::size_t ld) {
  std::size_t bad = 0, bi = 0, bj = 0;
  double bv = 0;
  for (std::size_t i = 0; i < p.N; i++)
    for (std::size_t j = 0; j < p.N; j++)
      if (!same(p, i * p.N + j, C[i * ld + j])) {
        if (!bad++) {
          bi = i;
          bj = j;
          bv = C[i * ld + j];
        }
      }
  mon::observed(p.N * p.N);
  return bad ? diff(p, bi, bj, bv, bad) : std::string();
}
std::uint64_t hash(const void *p, std::size_t n) {
  const unsigned char *c = (const unsigned char *)p;
  std::uint64_t h = 1469598103934665603ull;
  while (n >= 8) {
    std::uint64_t v;
    std::memcpy(&v, c, 8);
    h = mon::mix(h ^ v);
    c += 8;
    n -= 8;
  }
  while (n--)
    h = mon::mix(h ^ *c++);
  return h;
}
} // namespace oracle
