// P13: blocked index iteration
// I_MEMORY: memory_layout/index_iterator.hpp  I_VARIANTS: variants/index_iterator.hpp
// I_LOOPED: looped::iterate_indices and util::loop_nest
#include "prelude.hpp"
#include "common.hpp"
#if defined(I_MEMORY)
#include "memory_layout/index_iterator.hpp"
#elif defined(I_VARIANTS)
#include "variants/index_iterator.hpp"
#else
#include "memory_layout/loop_nest.hpp"
#include "variants/looped.hpp"
#endif
#include <atomic>
#include <mutex>

namespace {
typedef std::vector<std::size_t> vec;
struct stopped {
  std::size_t at;
};
struct range {
  std::size_t dim;
  vec lo, hi, step;
  std::size_t count = 1;
  std::string text;
};
std::string show(const vec &v) {
  std::string s = "{";
  for (std::size_t i = 0; i < v.size(); i++)
    s += (i ? "," : "") + std::to_string(v[i]);
  return s + "}";
}
range make_range(mon::rng &r, std::size_t dim, bool steps) {
  range g;
  g.dim = dim;
  static const std::size_t cap[] = {0, 120, 26, 11, 6, 4};
  bool wide = r.chance(1, 30);
  for (std::size_t d = 0; d < dim; d++) {
    std::size_t lo = r.chance(1, 2) ? 0 : r.in(1, 9);
    std::size_t ext = r.chance(1, 25) ? 0 : r.chance(1, 8) ? 1 : r.in(1, cap[dim]);
    if (wide && ext && (dim == 1 || d == 0))
      ext = r.in(1, dim == 1 ? 6000 : dim == 2 ? 400 : 40);
    g.lo.push_back(lo);
    g.hi.push_back(lo + ext);
    g.step.push_back(steps && r.chance(1, 2) ? r.in(1, 4) : 1);
    g.count *= (ext + g.step[d] - 1) / g.step[d];
  }
  return g;
}
// every index of the range exactly once, none outside
struct recorder {
  range g;
  std::mutex m;
  std::vector<unsigned> seen;
  std::size_t calls = 0;
  std::string err;
  vec cnt;
  recorder(const range &g_) : g(g_), seen(g_.count, 0) {
    for (std::size_t d = 0; d < g.dim; d++)
      cnt.push_back((g.hi[d] - g.lo[d] + g.step[d] - 1) / g.step[d]);
  }
  std::vector<std::size_t> order;
  void visit(const vec &i) {
    std::lock_guard<std::mutex> l(m);
    calls++;
    if (!err.empty())
      return;
    if (i.size() != g.dim) {
      err = "index of the wrong dimension";
      return;
    }
    std::size_t f = 0;
    for (std::size_t d = 0; d < g.dim; d++) {
      if (i[d] < g.lo[d] || i[d] >= g.hi[d] || (i[d] - g.lo[d]) % g.step[d]) {
        err = "called for " + show(i) + ", which is not an index of the range";
        return;
      }
      f = f * cnt[d] + (i[d] - g.lo[d]) / g.step[d];
    }
    if (seen[f]++)
      err = "called more than once for " + show(i);
    order.push_back(f);
  }
  void finish(const char *key, bool row_major) {
    if (err.empty())
      for (std::size_t f = 0; f < seen.size(); f++)
        if (!seen[f]) {
          err = mon::fmt("%zu of %zu indices visited; first missing is number %zu in row-major order", calls,
                         seen.size(), f);
          break;
        }
    if (err.empty() && row_major)
      for (std::size_t f = 0; f < order.size(); f++)
        if (order[f] != f) {
          err = "indices not visited in row-major order";
          break;
        }
    if (!err.empty())
      mon::fail(key, err);
    mon::observed(seen.size());
    mon::count("indices", seen.size());
  }
};

#if defined(I_MEMORY) || defined(I_VARIANTS)
template <std::size_t dim, std::size_t... I> void run(mon::rng &r, std::index_sequence<I...>) {
  range g = make_range(r, dim, true);
  index_iterator::blocking_pseudo_execution_policy<std::size_t> policy(dim);
  bool explicit_steps = false;
  for (auto s : g.step)
    explicit_steps |= s != 1;
  explicit_steps |= r.chance(1, 4);
  if (explicit_steps)
    policy.set_final_steps(g.step);
  std::size_t levels = r.chance(1, 12) ? r.in(4, 6) : r.in(0, 3);
  vec fine = g.step;
  std::string t = "final" + show(g.step);
  std::uint64_t id = mon::h(dim, levels);
  unsigned par = 0;
  for (std::size_t l = 0; l < levels; l++) {
    std::vector<bool> p(dim);
    std::string ps;
    for (std::size_t d = 0; d < dim; d++) {
      fine[d] *= r.chance(1, 3) ? 1 : r.in(1, 4);
      p[d] = r.chance(1, 3);
      par += p[d];
      ps += p[d] ? "p" : "s";
      id = mon::h(id, fine[d] * 2 + p[d]);
    }
    policy.add_blocking(fine, p);
    t += " " + show(fine) + ps;
  }
  auto cfg = random_env(r);
  for (std::size_t d = 0; d < dim; d++)
    id = mon::h(id, mon::h(g.lo[d], mon::h(g.hi[d], g.step[d])));
  mon::current("iterate_indices " + show(g.lo) + ".." + show(g.hi) + " " + t + " " + env_desc(cfg));
  hpx_shim::reset(cfg);
  recorder rec(g);
  // sometimes a call itself iterates, with the same blockings
  const bool nest = g.count && r.chance(1, 4);
  const std::size_t at = nest ? r.in(1, g.count) : 0;
  std::atomic<std::size_t> calls(0);
  range g2 = g;
  for (std::size_t d = 0; d < dim; d++)
    if (r.chance(1, 2))
      g2.lo[d] += r.in(0, 3), g2.hi[d] += 3;
  g2.count = 1;
  for (std::size_t d = 0; d < dim; d++)
    g2.count *= (g2.hi[d] - g2.lo[d] + g.step[d] - 1) / g.step[d];
  recorder inner(g2);
  auto f_inner = [&inner](decltype((void)I, std::size_t())... i) { inner.visit(vec{i...}); };
  auto f = [&](decltype((void)I, std::size_t())... i) {
    rec.visit(vec{i...});
    if (nest && ++calls == at)
      index_iterator::iterate_indices<dim>(policy, g2.lo, g2.hi, f_inner);
  };
  index_iterator::iterate_indices<dim>(policy, g.lo, g.hi, f);
  rec.finish("iterate_indices", false);
  if (nest && !mon::failed()) {
    inner.finish("iterate_indices:nested", false);
    mon::count("nested");
  }
  // the policy is not used up: a second run does the same
  if (!mon::failed() && r.chance(1, 3)) {
    recorder again(g);
    auto f2 = [&again](decltype((void)I, std::size_t())... i) { again.visit(vec{i...}); };
    index_iterator::iterate_indices<dim>(policy, g.lo, g.hi, f2);
    again.finish("iterate_indices:reuse", false);
  }
  env_stats();
  mon::distinct(id);
  mon::count(mon::fmt("levels%zu", levels).c_str());
  mon::count("parallel_directions", par);
  mon::sample(show(g.lo) + ".." + show(g.hi) + " " + t);
}
#else
void run_looped(mon::rng &r, std::size_t dim) {
  range g = make_range(r, dim, false);
  looped::blocking_pseudo_execution_policy<std::size_t> policy(dim);
  std::size_t levels = r.chance(1, 12) ? r.in(4, 6) : r.in(0, 3);
  vec fine(dim, 1);
  std::string t;
  std::uint64_t id = mon::h(dim, levels + 100);
  for (std::size_t l = 0; l < levels; l++) {
    for (std::size_t d = 0; d < dim; d++) {
      fine[d] *= r.chance(1, 3) ? 1 : r.in(1, 4);
      id = mon::h(id, fine[d]);
    }
    policy.add_blocking(fine);
    t += " " + show(fine);
  }
  auto cfg = random_env(r);
  for (std::size_t d = 0; d < dim; d++)
    id = mon::h(id, mon::h(g.lo[d], g.hi[d]));
  mon::current("looped::iterate_indices " + show(g.lo) + ".." + show(g.hi) + t + " " + env_desc(cfg));
  hpx_shim::reset(cfg);
  recorder rec(g);
  const std::size_t at = g.count && r.chance(1, 4) ? r.in(1, g.count) : 0;
  std::atomic<std::size_t> calls(0);
  recorder inner(g);
  looped::iterate_indices(policy, g.lo, g.hi, [&](const vec &i) {
    rec.visit(i);
    if (at && ++calls == at)
      looped::iterate_indices(policy, g.lo, g.hi, [&inner](const vec &j) { inner.visit(j); });
  });
  rec.finish("looped::iterate_indices", false);
  if (at && !mon::failed()) {
    inner.finish("looped::iterate_indices:nested", false);
    mon::count("nested");
  }
  env_stats();
  mon::distinct(id);
  mon::count("looped");
  mon::sample("looped " + show(g.lo) + ".." + show(g.hi) + t);
}
template <std::size_t dim, typename T> void run_nest(mon::rng &r, bool c_array) {
  range g = make_range(r, dim, true);
  mon::current(std::string(c_array ? "loop_nest(c array) " : "loop_nest(std::array) ") + show(g.lo) + ".." +
               show(g.hi) + " step " + show(g.step));
  recorder rec(g), inner(g), broken(g);
  // a call may itself run the nest, or end it with an exception
  const std::size_t at = g.count && r.chance(1, 3) ? r.in(1, g.count) : 0;
  const std::size_t stop = g.count && r.chance(1, 5) ? r.in(1, g.count) : 0;
  auto into = [](recorder &rc, const auto &i) {
    vec v;
    for (std::size_t d = 0; d < dim; d++)
      v.push_back((std::size_t)i[d]);
    rc.visit(v);
  };
  auto nest = [&](const auto &lo, const auto &hi, const auto &st) {
    if (stop) {
      bool arrived = false;
      try {
        util::loop_nest<dim>(lo, hi, st, [&](const auto &i) {
          into(broken, i);
          if (broken.calls == stop)
            throw stopped{stop};
        });
      } catch (const stopped &e) {
        arrived = e.at == stop;
      }
      if (!arrived || broken.calls != stop)
        broken.err = mon::fmt("an exception in call %zu: %s, %zu calls", stop, arrived ? "arrived" : "lost", broken.calls);
      if (!broken.err.empty())
        mon::fail("loop_nest:exception", broken.err);
      mon::count("stopped");
    }
    util::loop_nest<dim>(lo, hi, st, [&](const auto &i) {
      into(rec, i);
      if (at && rec.calls == at)
        util::loop_nest<dim>(lo, hi, st, [&](const auto &j) { into(inner, j); });
    });
  };
  if (c_array) {
    T lo[dim], hi[dim], st[dim];
    for (std::size_t d = 0; d < dim; d++) {
      lo[d] = (T)g.lo[d];
      hi[d] = (T)g.hi[d];
      st[d] = (T)g.step[d];
    }
    nest(lo, hi, st);
  } else {
    std::array<T, dim> lo, hi, st;
    for (std::size_t d = 0; d < dim; d++) {
      lo[d] = (T)g.lo[d];
      hi[d] = (T)g.hi[d];
      st[d] = (T)g.step[d];
    }
    nest(lo, hi, st);
  }
  rec.finish("loop_nest", true);
  if (at && !mon::failed()) {
    inner.finish("loop_nest:nested", true);
    mon::count("nested");
  }
  std::uint64_t id = mon::h(dim, c_array + 200);
  for (std::size_t d = 0; d < dim; d++)
    id = mon::h(id, mon::h(g.lo[d], mon::h(g.hi[d], g.step[d])));
  mon::distinct(id);
  mon::count("loop_nest");
}
#endif
} // namespace

void run_case(std::uint64_t idx, mon::rng &r) {
#if defined(I_MEMORY) || defined(I_VARIANTS)
  if (r.chance(1, 16))
    return run<5>(r, std::make_index_sequence<5>());
  switch (idx % 4) {
  case 0: run<1>(r, std::make_index_sequence<1>()); break;
  case 1: run<2>(r, std::make_index_sequence<2>()); break;
  case 2: run<3>(r, std::make_index_sequence<3>()); break;
  default: run<4>(r, std::make_index_sequence<4>()); break;
  }
#else
  bool c = r.chance(1, 2);
  if (r.chance(1, 16))
    return r.chance(1, 2) ? run_nest<5, std::size_t>(r, c) : run_looped(r, 5);
  switch (idx % 8) {
  case 0: run_nest<1, std::size_t>(r, c); break;
  case 1: run_nest<2, std::size_t>(r, c); break;
  case 2: run_nest<3, int>(r, c); break;
  case 3: run_nest<4, std::size_t>(r, c); break;
  default: run_looped(r, 1 + idx % 4);
  }
#endif
}
