// P10: the work packages issued by the pseudodynamic algorithm.  The remote
// action that computes a package is replaced by a stand-in that returns a block
// whose entries name their position; the monitor reads the issued actions.
#include "prelude.hpp"
#include "common.hpp"
#include "variants/pseudodynamic.hpp"

void run_case(std::uint64_t idx, mon::rng &r) {
  std::uint32_t loc = r.chance(1, 10) ? 1 : (std::uint32_t)(r.chance(1, 10) ? r.in(10, 40) : r.in(2, 9));
  std::size_t N;
  switch (r.in(0, 4)) {
  case 0: N = r.in(1, 40); break;
  case 1: N = (std::size_t)1 << r.in(0, 8); break;
  case 2: N = (2 * r.in(0, 7) + 1) << r.in(0, 5); break;
  case 3: N = 2 * r.in(1, 60); break;
  default: N = r.chance(1, 40) ? r.in(80, 500) << r.in(0, 2) : r.in(1, 160);
  }
  std::size_t minw;
  switch (r.in(0, 4)) {
  case 0: minw = 0; break;
  case 1: minw = N >> r.in(0, 5); break; // exactly a package size
  case 2: minw = (N >> r.in(1, 5)) + 1; break;
  default: minw = r.in(0, N + 2);
  }
  if (minw < N / 32)
    minw = N / 32;
  std::size_t maxd;
  switch (r.in(0, 4)) {
  case 0: maxd = 0; break;
  case 1: maxd = (N * N) >> r.in(0, 8); break; // exactly a reachable difference
  case 2: maxd = ((N * N) >> r.in(0, 8)) + 1; break;
  case 3: maxd = r.in(0, N * N + 10); break;
  default: maxd = 10000;
  }
  static const std::vector<double> rels = {0.0, 0.0, 0.05, 0.25, 0.5, 1.0, 2.0, 1.0 / 3.0};
  double rel = r.chance(3, 4) ? r.pick(rels) : 2 * r.unit();
  std::uint64_t reps = r.chance(1, 6) ? r.in(2, 3) : 1, verbose = r.chance(1, 8) ? 1 : 0;
  bool tr = r.chance(1, 2);
  hpx_shim::config cfg = random_env(r, loc);
  cfg.trace = true;
  const std::size_t stride = N;
  cfg.standin = [stride](const hpx_shim::action_call &c, std::vector<double> &out) {
    if (c.name.find("distribute_recursively") == std::string::npos || c.args.size() < 3)
      return false;
    std::size_t x = c.args[0], y = c.args[1], n = c.args[2];
    out.assign(n * n, 0.0);
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < n; j++)
        out[i * n + j] = (double)((x + i) * stride + y + j + 1);
    return true;
  };
  mon::current(mon::fmt("pseudodynamic N=%zu min_work=%zu max_diff=%zu max_rel=%.17g repetitions=%llu ", N, minw, maxd,
                        rel, (unsigned long long)reps) + env_desc(cfg));
  std::vector<double> A(N * N, 1.0), B(N * N, 1.0), C;
  hpx_shim::reset(cfg);
  {
    pseudodynamic::pseudodynamic m(N, A, B, tr, 8, 8, minw, maxd, rel, reps, verbose);
    C = m.matrix_multiply();
  }
  std::vector<hpx_shim::action_call> calls;
  for (auto &c : hpx_shim::rt().trace)
    if (c.name.find("distribute_recursively") != std::string::npos && !c.from_action)
      calls.push_back(c);
  hpx_shim::reset(hpx_shim::config());
  const std::size_t computing = loc > 1 ? loc - 1 : 1;
  if (calls.empty() || calls.size() % reps)
    return mon::fail("packages", mon::fmt("%zu packages were issued in %llu repetitions", calls.size(), (unsigned long long)reps));
  std::size_t K = calls.size() / reps;
  for (std::uint64_t rep = 0; rep < reps; rep++) {
    std::vector<unsigned char> cover(N * N, 0);
    std::vector<std::uint64_t> load(loc, 0);
    std::vector<std::vector<std::size_t>> sizes(loc);
    for (std::size_t k = rep * K; k < (rep + 1) * K; k++) {
      auto &c = calls[k];
      std::size_t x = c.args[0], y = c.args[1], n = c.args[2];
      if (!n || x + n > N || y + n > N)
        return mon::fail("outside", mon::fmt("package (%zu,%zu) of size %zu does not lie in the result", x, y, n));
      if (c.target_locality >= loc || (loc > 1 && c.target_locality == 0))
        return mon::fail("root", mon::fmt("a package was computed on locality %u of %u", c.target_locality, loc));
      for (std::size_t i = 0; i < n; i++)
        for (std::size_t j = 0; j < n; j++)
          if (cover[(x + i) * N + y + j]++)
            return mon::fail("overlap", mon::fmt("cell (%zu,%zu) belongs to two packages", x + i, y + j));
      load[c.target_locality] += n * n;
      sizes[c.target_locality].push_back(n);
      if (n < N && 2 * n <= minw)
        return mon::fail("minimum", mon::fmt("a package of size %zu was split although the minimum work size is %zu", 2 * n, minw));
    }
    for (std::size_t i = 0; i < N * N; i++)
      if (!cover[i])
        return mon::fail("gap", mon::fmt("cell (%zu,%zu) belongs to no package", i / N, i % N));
    mon::observed(N * N + K);
    std::uint64_t mn = ~0ull, mx = 0;
    for (std::size_t l = loc > 1; l < loc; l++) {
      mn = std::min(mn, load[l]);
      mx = std::max(mx, load[l]);
    }
    bool abs_ok = mx - mn < maxd, rel_ok = mn > 0 && (double)(mx - mn) / (double)mn < rel;
    bool can = false;
    for (std::size_t l = loc > 1; l < loc; l++)
      if (load[l] == mx)
        for (std::size_t n : sizes[l])
          if (n > minw && n % 2 == 0 && n * n / 2 <= mx - mn)
            can = true;
    if (!abs_ok && !rel_ok && can)
      return mon::fail("imbalance", mon::fmt("loads between %llu and %llu exceed both tolerances, but the most loaded "
                                             "locality still has a package that can be split",
                                             (unsigned long long)mn, (unsigned long long)mx));
    // nothing is split when the undivided work is acceptable
    bool start_ok = computing == 1 || (std::uint64_t)N * N < maxd;
    if (start_ok && K != 1)
      return mon::fail("needless", "the work was split although the undivided work meets the tolerance");
    mon::count(abs_ok ? "stopped_by_absolute_tolerance" : rel_ok ? "stopped_by_relative_tolerance" : "stopped_nothing_to_split");
  }
  if (C.size() != N * N)
    return mon::fail("result", "the result has the wrong size");
  for (std::size_t i = 0; i < N * N; i++)
    if (C[i] != (double)(i + 1))
      return mon::fail("placement", mon::fmt("the result of cell (%zu,%zu) holds the value computed for cell %g", i / N, i % N, C[i] - 1));
  mon::observed(N * N);
  mon::count("packages", calls.size());
  mon::maxi("N", N);
  mon::maxi("packages", K);
  mon::maxi("localities", loc);
  mon::distinct(mon::h(mon::h(N, loc), mon::h(mon::h(minw, maxd), (std::uint64_t)(rel * 1e6))));
  mon::sample(mon::fmt("N=%zu localities=%u min=%zu diff=%zu rel=%g -> %zu packages", N, loc, minw, maxd, rel, K));
}
