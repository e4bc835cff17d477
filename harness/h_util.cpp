// P20: matrix helpers
#include "prelude.hpp"
#include "common.hpp"
#include "util/create_identity_matrix.hpp"
#include "util/create_random_matrix.hpp"
#include "util/pattern_matrices.hpp"
#include "util/transpose_matrix.hpp"
#include <boost/align/aligned_allocator.hpp>

template <typename T> struct nm { static const char *s() { return "double"; } };
template <> struct nm<float> { static const char *s() { return "float"; } };
template <> struct nm<int> { static const char *s() { return "int"; } };
template <> struct nm<long> { static const char *s() { return "long"; } };

template <typename T> static void identity(std::size_t N) {
  mon::current(mon::fmt("create_identity_matrix<%s>(%zu)", nm<T>::s(), N));
  std::vector<T> m = util::create_identity_matrix<T>(N);
  if (m.size() != N * N)
    return mon::fail("identity:size", mon::fmt("%zu entries", m.size()));
  for (std::size_t i = 0; i < N; i++)
    for (std::size_t j = 0; j < N; j++)
      if (m[i * N + j] != (i == j ? T(1) : T(0)))
        return mon::fail("identity:value", mon::fmt("entry (%zu,%zu) is %g", i, j, (double)m[i * N + j]));
  mon::observed(N * N);
}
template <typename T> static void enumerating(std::size_t N) {
  mon::current(mon::fmt("create_enumerating_matrix<%s>(%zu)", nm<T>::s(), N));
  std::vector<T> m = util::create_enumerating_matrix<T>(N);
  if (m.size() != N * N)
    return mon::fail("enumerating:size", mon::fmt("%zu entries", m.size()));
  for (std::size_t i = 0; i < N * N; i++)
    if (m[i] != T(i))
      return mon::fail("enumerating:value", mon::fmt("entry %zu is %g", i, (double)m[i]));
  mon::observed(N * N);
}
template <typename T> static void randoms(std::size_t N) {
  mon::current(mon::fmt("create_random_matrix<%s>(%zu)", nm<T>::s(), N));
  std::vector<T> m = util::create_random_matrix<T>(N), m2 = util::create_random_matrix<T>(N);
  if (m.size() != N * N)
    return mon::fail("random:size", mon::fmt("%zu entries", m.size()));
  for (std::size_t i = 0; i < N * N; i++)
    // rounding to float may reach 1
    if (!(m[i] >= T(0) && (std::is_same<T, float>::value ? m[i] <= T(1) : m[i] < T(1))))
      return mon::fail("random:range", mon::fmt("entry %zu is %.17g", i, (double)m[i]));
  if (m != m2)
    return mon::fail("random:repeatable", "two calls with the same size return different matrices");
  if (N >= 2) {
    std::set<T> s(m.begin(), m.end());
    if (s.size() < N * N / 2)
      return mon::fail("random:content", mon::fmt("only %zu different values in %zu entries", s.size(), N * N));
  }
  mon::observed(N * N);
}
template <typename V> static V content(mon::rng &r, std::size_t n) {
  V v(n);
  for (auto &x : v)
    x = (typename V::value_type)(std::int64_t)r.in(0, 1 << 20);
  return v;
}
template <typename T> static void square(std::size_t N, mon::rng &r) {
  mon::current(mon::fmt("transpose_matrix<%s>(%zu)", nm<T>::s(), N));
  std::vector<T> in = content<std::vector<T>>(r, N * N), in0 = in;
  std::vector<T> out = util::transpose_matrix<T>(N, in);
  if (out.size() != N * N)
    return mon::fail("transpose:size", mon::fmt("%zu entries", out.size()));
  for (std::size_t i = 0; i < N; i++)
    for (std::size_t j = 0; j < N; j++)
      if (out[i * N + j] != in0[j * N + i])
        return mon::fail("transpose:value", mon::fmt("entry (%zu,%zu) of the transpose is wrong", i, j));
  if (in != in0)
    mon::fail("transpose:operand", "the argument was modified");
  if (util::transpose_matrix<T>(N, out) != in0)
    mon::fail("transpose:involution", "transposing twice does not give the matrix back");
  mon::observed(2 * N * N);
}
template <typename V> static void rect(std::size_t rows, std::size_t cols, mon::rng &r) {
  // a rows x cols matrix: its row length is stride_org, that of the result stride_result
  mon::current(mon::fmt("transpose_matrix(stride_org=%zu, stride_result=%zu)", cols, rows));
  V in = content<V>(r, rows * cols), in0 = in;
  V out = util::transpose_matrix(cols, rows, in);
  if (out.size() != rows * cols)
    return mon::fail("transpose2:size", mon::fmt("%zu entries", out.size()));
  for (std::size_t i = 0; i < rows; i++)
    for (std::size_t j = 0; j < cols; j++)
      if (out[j * rows + i] != in0[i * cols + j])
        return mon::fail("transpose2:value", mon::fmt("element (%zu,%zu) of a %zux%zu matrix is not at (%zu,%zu)", i, j,
                                                      rows, cols, j, i));
  V back = util::transpose_matrix(rows, cols, out);
  if (back != in0)
    mon::fail("transpose2:involution", "transposing twice does not give the matrix back");
  if (in != in0)
    mon::fail("transpose2:operand", "the argument was modified");
  mon::observed(2 * rows * cols);
}

void run_case(std::uint64_t idx, mon::rng &r) {
  std::size_t N = r.chance(1, 10) ? r.in(0, 400) : r.in(0, 40);
  std::size_t a = r.chance(1, 6) ? 1 : r.in(1, 60), b = r.chance(1, 6) ? 1 : r.in(1, 60);
  if (r.chance(1, 60)) {
    a = r.in(1, 600);
    b = r.in(1, 600);
  } else if (r.chance(1, 300)) { // longer than 16 bits can count
    a = r.in(65530, 70000);
    b = r.in(1, 5);
    if (r.chance(1, 2))
      std::swap(a, b);
  }
  if (r.chance(1, 800))
    N = r.in(400, 2200);
  int w = (int)(idx % 6), t = (int)r.in(0, 2);
#define BY_TYPE(f, ...) (t == 0 ? f<double>(__VA_ARGS__) : t == 1 ? f<float>(__VA_ARGS__) : f<int>(__VA_ARGS__))
  switch (w) {
  case 0: BY_TYPE(identity, N); break;
  case 1: BY_TYPE(enumerating, N); break;
  case 2: t == 0 ? randoms<float>(N) : randoms<double>(N); break;
  case 3: BY_TYPE(square, N, r); break;
  case 4: t ? rect<std::vector<double>>(a, b, r) : rect<std::vector<float>>(a, b, r); break;
  default: rect<std::vector<double, boost::alignment::aligned_allocator<double, 32>>>(a, b, r);
  }
  static const char *n[] = {"identity", "enumerating", "random", "transpose", "transpose_rect", "transpose_rect_aligned"};
  mon::count(n[w]);
  mon::distinct(w < 4 ? mon::h(mon::h(N, w), t) : mon::h(mon::h(a, b), w));
  mon::maxi("N", N);
  mon::maxi("row_length", std::max(a, b));
  mon::sample(mon::fmt("%s N=%zu shape=%zux%zu", n[w], N, a, b));
}
