// P19: invalid requests and exception texts
#include "prelude.hpp"
#include "common.hpp"
#include "aligned_allocator.hpp"
#include "memory_layout/memory_layout_exception.hpp"
#include "memory_layout/tile_array.hpp"
#include "util/matrix_multiplication_exception.hpp"
#include "variants/looped.hpp"
#ifdef E_MEMORY
#include "memory_layout/index_iterator.hpp"
#else
#include "variants/index_iterator.hpp"
#endif
#include <atomic>

namespace {
typedef std::vector<std::size_t> vec;

std::string message(mon::rng &r) {
  std::size_t n = r.chance(1, 8) ? 0 : r.chance(1, 6) ? r.in(100, 20000) : r.in(1, 80);
  std::string s;
  for (std::size_t i = 0; i < n; i++)
    s += (char)r.in(1, 255);
  return s;
}
// reuse freed memory, so that a text that is no longer owned changes
void churn(mon::rng &r) {
  std::vector<std::unique_ptr<char[]>> v;
  for (int i = 0; i < 40; i++) {
    std::size_t n = r.in(1, 300);
    v.emplace_back(new char[n]);
    std::memset(v.back().get(), '#', n);
  }
}
template <typename E> void text(mon::rng &r, const char *prefix) {
  std::string msg = message(r), want = std::string(prefix) + ": " + msg;
  mon::current(mon::fmt("%s with a message of %zu characters", prefix, msg.size()));
  auto ok = [&](const std::exception &e, const char *when) {
    const char *w = e.what();
    churn(r);
    if (!w || std::string(w) != want)
      mon::fail("what", mon::fmt("what() %s is not \"%s: <message>\"", when, prefix));
    const char *w2 = e.what();
    if (!mon::failed() && std::string(w) != std::string(w2))
      mon::fail("what", "two calls of what() differ");
    mon::observed(2);
  };
  std::unique_ptr<E> first;
  {
    std::string tmp = msg;
    first.reset(new E(tmp));
    std::fill(tmp.begin(), tmp.end(), '!');
  }
  ok(*first, "of the object");
  std::unique_ptr<E> copy(new E(*first));
  E assigned(std::string("another text"));
  assigned = *first;
  first.reset();
  churn(r);
  ok(*copy, "of a copy that outlived the original");
  ok(assigned, "of an assigned object");
  try {
    throw *copy;
  } catch (const std::exception &e) {
    copy.reset();
    ok(e, "of a caught exception");
  }
  std::exception_ptr p;
  try {
    throw assigned;
  } catch (...) {
    p = std::current_exception();
  }
  try {
    std::rethrow_exception(p);
  } catch (const E &e) {
    ok(e, "of a rethrown exception");
  }
  mon::count("texts");
  mon::distinct(mon::h(msg.size(), prefix[0]));
}

template <typename F> void refused(const char *key, F f) {
  bool got = false;
  try {
    f();
  } catch (const std::exception &e) {
    got = e.what() != nullptr;
    volatile std::size_t n = std::strlen(e.what());
    (void)n;
  }
  mon::observed(1);
  if (!got)
    mon::fail(key, "the request was accepted");
}

template <std::size_t dim> void tiling(mon::rng &r) {
  std::size_t n;
  do
    n = r.in(0, 6);
  while (n == dim);
  bool undo = r.chance(1, 2);
  std::vector<memory_layout::tiling_info_dim> info(n);
  for (auto &i : info) {
    i.tile_size_dir = 2;
    i.stride = 4;
  }
  std::vector<double> v(r.chance(1, 5) ? 0 : 256);
  for (std::size_t i = 0; i < v.size(); i++)
    v[i] = (double)i;
  std::vector<double> v0 = v;
  mon::current(mon::fmt("%s<%zu> with a description of %zu directions", undo ? "undo_tiling" : "make_tiled", dim, n));
  bool got = false;
  try {
    std::vector<double> o = undo ? memory_layout::undo_tiling<dim>(v, info) : memory_layout::make_tiled<dim>(v, info);
    volatile std::size_t s = o.size();
    (void)s;
  } catch (const memory_layout::memory_layout_exception &e) {
    std::string w = e.what();
    got = w.compare(0, 25, "memory_layout_exception: ") == 0;
    if (!got)
      mon::fail("tiling:text", "the text of the exception is not readable");
  }
  if (!got)
    mon::fail("tiling:accepted", "a description of the wrong dimension was not refused");
  if (v != v0)
    mon::fail("tiling:operand", "a refused request modified its argument");
  mon::observed(1);
  mon::count("tiling_mismatch");
  mon::distinct(mon::h(mon::h(dim, n), undo));
}

vec odd(mon::rng &r, std::size_t dim) {
  std::size_t n;
  do
    n = r.in(0, 6);
  while (n == dim);
  return vec(n, 2);
}

void policy_err(mon::rng &r) {
  int w = (int)r.in(0, 4);
  hpx_shim::config cfg = random_env(r);
  hpx_shim::reset(cfg);
  index_iterator::blocking_pseudo_execution_policy<std::size_t> p(3);
  if (r.chance(1, 2))
    p.add_blocking({2, 2, 2}, {false, r.chance(1, 2), false});
  std::atomic<std::size_t> calls{0};
  auto f = [&calls](std::size_t, std::size_t, std::size_t) { calls++; };
  vec bad = odd(r, 3);
  mon::current(mon::fmt("blocked index iteration, mismatch %d with %zu entries, ", w, bad.size()) + env_desc(cfg));
  switch (w) {
  case 0: refused("blocks", [&] { p.add_blocking(bad, {false, false, false}); }); break;
  case 1: refused("flags", [&] { p.add_blocking({2, 2, 2}, std::vector<bool>(bad.size(), true)); }); break;
  case 2: refused("min", [&] { index_iterator::iterate_indices<3>(p, bad, vec{4, 4, 4}, f); }); break;
  case 3: refused("max", [&] { index_iterator::iterate_indices<3>(p, vec{0, 0, 0}, vec(bad.size(), 4), f); }); break;
  default: refused("both", [&] { index_iterator::iterate_indices<3>(p, vec(bad.size(), 0), vec(bad.size(), 4), f); });
  }
  if (calls)
    mon::fail("refused:calls", "a refused iteration called the function");
  // still usable
  index_iterator::iterate_indices<3>(p, vec{0, 0, 0}, vec{4, 5, 6}, f);
  if (calls != 120)
    mon::fail("refused:usable", mon::fmt("after the refusal an iteration over 120 indices made %zu calls", calls.load()));
  mon::count("policy_mismatch");
  mon::distinct(mon::h(w, bad.size() + 1000));
}
void looped_err(mon::rng &r) {
  int w = (int)r.in(0, 3);
  hpx_shim::config cfg = random_env(r);
  hpx_shim::reset(cfg);
  looped::blocking_pseudo_execution_policy<std::size_t> p(3);
  p.add_blocking({2, 2, 2});
  std::size_t calls = 0;
  auto f = [&calls](const vec &) { calls++; };
  vec bad = odd(r, 3);
  mon::current(mon::fmt("looped index iteration, mismatch %d with %zu entries", w, bad.size()));
  switch (w) {
  case 0: refused("looped:blocks", [&] { p.add_blocking(bad); }); break;
  case 1: refused("looped:min", [&] { looped::iterate_indices(p, bad, vec{4, 4, 4}, f); }); break;
  case 2: refused("looped:max", [&] { looped::iterate_indices(p, vec{0, 0, 0}, bad, f); }); break;
  default: refused("looped:iterator", [&] { looped::dim_index_iterator<std::size_t>(vec{0, 0, 0}, bad, vec{1, 1, 1}); });
  }
  if (calls)
    mon::fail("looped:calls", "a refused iteration called the function");
  looped::iterate_indices(p, vec{0, 0, 0}, vec{4, 5, 6}, f);
  if (calls != 120)
    mon::fail("looped:usable", mon::fmt("after the refusal an iteration over 120 indices made %zu calls", calls));
  mon::count("looped_mismatch");
  mon::distinct(mon::h(w, bad.size() + 2000));
}
void iterator_err(mon::rng &r) {
  vec a(3, 0), b(3, 4), c(3, 1);
  vec bad = odd(r, 3);
  int w = (int)r.in(0, 2);
  mon::current(mon::fmt("dim_index_iterator, argument %d with %zu entries", w, bad.size()));
  refused("iterator", [&] {
    index_iterator::dim_index_iterator<std::size_t> i(w == 0 ? bad : a, w == 1 ? bad : b, w == 2 ? bad : c);
  });
  mon::count("iterator_mismatch");
}
void alloc_err(mon::rng &r) {
  alignment::aligned_allocator a;
  std::size_t n = r.in(1, 100);
  mon::current("second request to an aligned_allocator");
  double *p = a.alloc<double>(n, 64);
  for (std::size_t i = 0; i < n; i++)
    p[i] = (double)i;
  refused("allocator", [&] { a.alloc<int>(r.in(1, 1000), 32); });
  for (std::size_t i = 0; i < n; i++)
    if (p[i] != (double)i)
      return mon::fail("allocator:usable", "the first block changed");
  mon::count("second_allocation");
}
} // namespace

void run_case(std::uint64_t idx, mon::rng &r) {
  switch (idx % 10) {
  case 0: case 1: text<util::matrix_multiplication_exception>(r, "matrix_multiplication_exception"); break;
  case 2: case 3: text<memory_layout::memory_layout_exception>(r, "memory_layout_exception"); break;
  case 4: r.chance(1, 2) ? tiling<2>(r) : tiling<3>(r); break;
  case 5: tiling<1>(r); break;
  case 6: policy_err(r); break;
  case 7: looped_err(r); break;
  case 8: iterator_err(r); break;
  default: alloc_err(r);
  }
}
