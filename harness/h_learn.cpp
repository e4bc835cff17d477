// P13: the loop nest of the meta-programming example
#include "prelude.hpp"
#include "mon.hpp"
#define main learning_main
#include "../learning/MetaProgrammingCPP.cpp"
#undef main

template <std::size_t dim, typename T, std::size_t... I> static void run(mon::rng &r, std::index_sequence<I...>) {
  static const int cap[] = {0, 200, 30, 10, 6};
  T lo = (T)r.in(0, 7), hi = (T)(lo + (T)r.in(0, cap[dim]));
  mon::current(mon::fmt("Looper<%zu>(%lld, %lld)", dim, (long long)lo, (long long)hi));
  std::vector<std::array<T, dim>> got, want;
  Looper<dim, T> l(lo, hi);
  l.iterate_simple([&](decltype((void)I, T())... i) { got.push_back(std::array<T, dim>{{i...}}); });
  std::array<T, dim> c;
  c.fill(lo);
  if (lo < hi)
    for (;;) {
      want.push_back(c);
      std::size_t d = dim;
      while (d > 0 && ++c[d - 1] == hi)
        c[--d] = lo;
      if (!d)
        break;
    }
  if (got != want)
    mon::fail("Looper", mon::fmt("%zu calls instead of the %zu indices in row-major order", got.size(), want.size()));
  mon::observed(want.size());
  mon::distinct(mon::h(mon::h(dim, lo), hi));
  mon::count("looper_indices", want.size());
}
void run_case(std::uint64_t idx, mon::rng &r) {
  if (idx == 0) {
    mon::current("the example program");
    std::ostringstream o;
    std::streambuf *b = std::cout.rdbuf(o.rdbuf());
    int rc = learning_main();
    std::cout.rdbuf(b);
    std::string want;
    for (int i = 0; i < 10; i++)
      for (int j = 0; j < 10; j++)
        want += mon::fmt("%s(%d, %d)", i || j ? ", " : "", i, j);
    want += "\n";
    if (rc != 0 || o.str() != want)
      mon::fail("example", "the example does not list the 100 index pairs in order");
    return;
  }
  switch (idx % 5) {
  case 0: run<1, std::size_t>(r, std::make_index_sequence<1>()); break;
  case 1: run<2, std::size_t>(r, std::make_index_sequence<2>()); break;
  case 2: run<3, std::size_t>(r, std::make_index_sequence<3>()); break;
  case 3: run<2, int>(r, std::make_index_sequence<2>()); break;
  default: run<4, std::size_t>(r, std::make_index_sequence<4>()); break;
  }
}
