// P21: what the matrix printing functions write
#include "prelude.hpp"
#include "common.hpp"
#include "util/util.hpp"
#include <cstring>
#include <limits>
#include <type_traits>
#include <boost/align/aligned_allocator.hpp>

namespace {
template <typename T> T value(mon::rng &r, std::size_t i, int kind) {
  double v = (double)i + 0.25 * (double)r.in(0, 3);
  if (kind == 1)
    v = -v;
  if (std::is_floating_point<T>::value && kind >= 2)
    switch (r.in(0, 6)) {
    case 0: v = r.unit(); break;
    case 1: v = -r.unit() * 1e-9; break;
    case 2: v = r.unit() * 1e25; break;
    case 3: v = std::numeric_limits<double>::infinity(); break;
    case 4: v = std::numeric_limits<double>::quiet_NaN(); break;
    case 5: v = 1234567.0 + (double)i; break;
    default: v = 100.0 * r.unit();
    }
  return (T)v;
}

template <typename V> void run(std::uint64_t idx, mon::rng &r, const char *type) {
  int which = (int)(idx % 8);
  bool host = which < 4;
  bool two = which % 4 >= 2, tr = which % 2;
  std::size_t rows = r.chance(1, 6) ? r.in(0, 2) : r.in(1, 14), cols = two ? (r.chance(1, 6) ? r.in(0, 2) : r.in(1, 14)) : rows;
  if (r.chance(1, 60)) { // longer than any line or page
    rows = r.in(1, 150);
    cols = two ? r.in(1, 150) : rows;
  } else if (r.chance(1, 300)) {
    rows = r.in(150, 700);
    cols = two ? r.in(1, 200) : rows;
    if (two && r.chance(1, 2)) { // longer than 16 bits can count
      rows = r.in(65530, 66000);
      cols = r.in(1, 3);
    }
    if (two && r.chance(1, 2))
      std::swap(rows, cols);
  }
  int kind = (int)r.in(0, 3);
  V m(rows * cols);
  for (std::size_t i = 0; i < m.size(); i++)
    m[i] = value<typename V::value_type>(r, i, kind);
  V m0 = m;
  static const char *nm[] = {"print_matrix_host(N)", "print_matrix_transposed_host(N)", "print_matrix_host(rows,cols)",
                             "print_matrix_transposed_host(rows,cols)", "print_matrix(N)", "print_matrix_transposed(N)",
                             "print_matrix(rows,cols)", "print_matrix_transposed(rows,cols)"};
  mon::current(mon::fmt("%s %zu x %zu of %s", nm[which], rows, cols, type));
  hpx_shim::config cfg;
  std::ostringstream out, other;
  cfg.console = host ? (std::ostream *)&other : (std::ostream *)&out;
  hpx_shim::reset(cfg);
  std::ostringstream cap;
  std::streambuf *b = std::cout.rdbuf(host ? out.rdbuf() : other.rdbuf());
  switch (which) {
  case 0: print_matrix_host(rows, m); break;
  case 1: print_matrix_transposed_host(rows, m); break;
  case 2: print_matrix_host(rows, cols, m); break;
  case 3: print_matrix_transposed_host(rows, cols, m); break;
  case 4: print_matrix(rows, m); break;
  case 5: print_matrix_transposed(rows, m); break;
  case 6: print_matrix(rows, cols, m); break;
  default: print_matrix_transposed(rows, cols, m);
  }
  std::cout.rdbuf(b);
  hpx_shim::reset(hpx_shim::config());
  // printed row i, column j: element j * rows + i when transposed
  std::string want;
  for (std::size_t i = 0; i < rows; i++) {
    for (std::size_t j = 0; j < cols; j++) {
      std::ostringstream e;
      e << (tr ? m0[j * rows + i] : m0[i * cols + j]);
      want += (j ? ", " : "") + e.str();
    }
    want += "\n";
  }
  if (out.str() != want)
    mon::fail(nm[which], mon::fmt("printed %zu characters that differ from the expected %zu", out.str().size(), want.size()));
  if (!other.str().empty())
    mon::fail("stream", "text was written to the wrong stream");
  if (m.size() != m0.size() || (m0.size() && std::memcmp(m.data(), m0.data(), m0.size() * sizeof(m0[0]))))
    mon::fail("operand", "printing modified the matrix");
  mon::observed(rows * cols);
  mon::count(nm[which]);
  mon::distinct(mon::h(mon::h(mon::h(rows, cols), which), kind));
  mon::maxi("rows", rows);
  mon::maxi("cols", cols);
  mon::sample(mon::fmt("%s %zu x %zu", nm[which], rows, cols));
}
} // namespace

void run_case(std::uint64_t idx, mon::rng &r) {
  switch (r.in(0, 2)) {
  case 0: run<std::vector<double>>(idx, r, "double"); break;
  case 1: run<std::vector<int>>(idx, r, "int"); break;
  default: run<std::vector<double, boost::alignment::aligned_allocator<double, 32>>>(idx, r, "aligned double");
  }
}
