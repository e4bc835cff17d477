// P29: memory in use over repeated calls and repetitions
#include "jobs.hpp"
#include <atomic>
#if !defined(C_EXP)
#include "util/util.hpp"
#endif

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, std::size_t),
                                                         void (*)(const volatile void *));
extern "C" std::size_t __sanitizer_get_allocated_size(const volatile void *);
static std::atomic<long long> live{0}, peak{0}, calls{0};
static void on_alloc(const volatile void *, std::size_t n) {
  long long l = live.fetch_add((long long)n, std::memory_order_relaxed) + (long long)n, p = peak.load(std::memory_order_relaxed);
  calls.fetch_add(1, std::memory_order_relaxed);
  while (p < l && !peak.compare_exchange_weak(p, l, std::memory_order_relaxed))
    ;
}
static void on_free(const volatile void *p) {
  if (p)
    live.fetch_sub((long long)__sanitizer_get_allocated_size(p), std::memory_order_relaxed);
}
static const int hooked = __sanitizer_install_malloc_and_free_hooks(on_alloc, on_free);

static std::string attempt(job &j) {
  try {
    j.run();
    return "";
  } catch (const std::exception &e) {
    return std::string("exception: ") + e.what();
  }
}

// many calls in a row: what is in use after a call does not keep growing
static void calls_in_a_row(std::size_t kind, mon::rng &r) {
#if defined(C_EXP)
  job j = make_job(kind, r, nullptr);
  std::string how = "";
#else
  job_options o;
  o.keep = r.chance(1, 2);
  hpx_shim::config cfg;
  cfg.mode = r.chance(1, 3) ? 1 : 0;
  cfg.threads = (unsigned)r.in(1, 4);
  cfg.seed = r.next();
  cfg.localities = (std::uint32_t)r.in(1, 3);
  job j = make_job(kind, r, nullptr, o);
  std::string how = o.keep ? " one object" : " new objects";
#endif
  const int warm = 3;
  int n = j.who == "kernel_test" ? 3 : j.cost > 60 ? 8 : 24;
  mon::current(j.text + how + " called repeatedly");
  omp_threads(j.threads, j.tseed);
  // a thread that is just ending may still hold memory: what really is kept
  // shows in every series of calls
  long long grown = 0;
  std::vector<long long> after;
  after.reserve(3 * n + warm);
  for (int i = 0; i < 3 * n + warm; i++) {
#if !defined(C_EXP)
    hpx_shim::reset(cfg);
#endif
    std::string e = attempt(j);
    if (!e.empty())
      return mon::fail(j.who + ":error", e);
#if !defined(C_EXP)
    hpx_shim::reset(hpx_shim::config());
#endif
    after.push_back(live.load());
    if (i >= warm && (i - warm) % n == n - 1) {
      grown = after[i] - after[i - n];
      if (grown < 64)
        break;
    }
  }
  if (grown >= 64)
    mon::fail(j.who + ":kept", mon::fmt("%lld bytes more in use after %d further calls", grown, n));
  mon::maxi("bytes_grown", grown > 0 ? grown : 0);
  mon::observed(n);
  mon::count(j.who.c_str());
  mon::count("calls", after.size());
  j.check(j.who);
  mon::distinct(j.id);
  mon::sample(j.text + how);
}

#if !defined(C_EXP)
// calls with ever different parameters, nothing of which is kept
static void different_calls(std::size_t kind, mon::rng &r) {
  const int n = kind == tiled_kernel || kind == combined_v ? 5 : 16, warm = 3;
  hpx_shim::config cfg;
  cfg.mode = 0;
  cfg.localities = (std::uint32_t)r.in(1, 3);
  const unsigned threads = (unsigned)r.in(1, 4);
  long long grown = 0;
  std::vector<long long> after;
  after.reserve(3 * n + warm);
  std::string text;
  text.reserve(1000);
  for (int i = 0; i < 3 * n + warm; i++) {
    {
      cfg.seed = r.next();
      hpx_shim::reset(cfg);
      job_options o;
      if (kind != tiled_kernel && kind != combined_v && kind != single_v && kind != pseudo_v)
        o.N = (std::size_t)(1 + i); // each one once
      job j = make_job(kind, r, nullptr, o);
      text.assign(j.text, 0, 900);
      mon::current(text);
      omp_threads(threads, 1);
      std::string e = attempt(j);
      hpx_shim::reset(hpx_shim::config());
      if (!e.empty())
        return mon::fail(j.who + ":error", e);
      j.check(j.who);
    }
    mon::current("");
    after.push_back(live.load());
    if (i >= warm && (i - warm) % n == n - 1) {
      grown = after[i] - after[i - n];
      if (grown < 64)
        break;
    }
  }
  if (grown >= 64)
    mon::fail("different:" + std::to_string(kind), mon::fmt("%lld bytes more in use after %d different calls like %s", grown, n,
                                                            text.c_str()));
  mon::maxi("bytes_grown_different", grown > 0 ? grown : 0);
  mon::observed(n);
  mon::count("different_calls", after.size());
  mon::distinct(mon::h(kind, after.size() * 1000 + cfg.localities));
}
static long long peak_of(std::size_t kind, const job_options &o, const hpx_shim::config &cfg, std::uint64_t seed, ops data,
                         std::string &text) {
  mon::rng r(seed);
  hpx_shim::reset(cfg);
  job j = make_job(kind, r, data, o);
  text = j.text;
  omp_threads(j.threads, j.tseed);
  mon::current(text);
  const long long before = live.load();
  peak.store(before);
  std::string e = attempt(j);
  const long long p = peak.load() - before;
  hpx_shim::reset(hpx_shim::config());
  if (!e.empty())
    mon::fail(j.who + ":error", e);
  else
    j.check(j.who);
  return p;
}
// more repetitions do not need more memory; one copy of the operands per locality
static void repetitions(std::size_t kind, mon::rng &r) {
  job_options o;
  std::size_t N = kind == combined_v || kind == tiled_kernel ? r.in(60, 130) : 32 * r.in(3, 4);
  if (kind == test_kernel)
    N = 512;
  o.least_block = N / 2;
  ops data = std::make_shared<operands>(N, pick_kind(r), r.next());
  hpx_shim::config cfg;
  cfg.mode = 0;
  cfg.seed = r.next();
  cfg.localities = (std::uint32_t)r.in(1, 4);
  const std::uint64_t seed = r.next();
  std::string text;
  o.reps = 2;
  peak_of(kind, o, cfg, seed, data, text); // what is allocated once
  const long long few = peak_of(kind, o, cfg, seed, data, text);
  o.reps = 12;
  const long long many = peak_of(kind, o, cfg, seed, data, text);
  const long long matrix = (long long)(N * N * sizeof(double));
  mon::maxi("repetitions_extra_percent", (std::uint64_t)std::max(0ll, 100 * (many - few) / matrix));
  if (many - few > 4 * matrix)
    mon::fail("repetitions:" + std::to_string(kind), mon::fmt("%lld bytes with 2 repetitions, %lld with 12", few, many));
  mon::observed(2);
  mon::count("repetition_pairs");
  mon::distinct(mon::h(mon::h(kind, N), cfg.localities));
  mon::sample(text + " 2 and 12 repetitions");
}
// every computing locality holds one copy of the operands, however many
// packages it works on
static void packages(mon::rng &r) {
  const std::size_t N = 32 * r.in(2, 4);
  ops o = std::make_shared<operands>(N, pick_kind(r), r.next());
  hpx_shim::config cfg;
  cfg.mode = 0;
  cfg.localities = (std::uint32_t)r.in(2, 4);
  cfg.seed = r.next();
  const std::size_t computing = cfg.localities - 1;
  const bool tr = r.chance(1, 2);
  const std::uint64_t reps = r.in(1, 3);
  omp_threads(2, 1);
  mon::current(mon::fmt("pseudodynamic N=%zu localities=%u transposed=%d repetitions=%llu", N, cfg.localities, tr,
                        (unsigned long long)reps));
  long long most[2];
  const long long matrix = (long long)(N * N * sizeof(double));
  for (int many = 0; many < 2; many++) {
    // undivided, or split as far as it goes (with one locality: nothing to split)
    hpx_shim::reset(cfg);
    std::vector<double> C;
    const long long before = live.load();
    peak.store(before);
    {
      pseudodynamic::pseudodynamic m(N, o->A, tr ? o->Bt : o->B, tr, N, 8, many ? N / 8 : N, 0, 0.0, reps, 0);
      C = m.matrix_multiply();
    }
    most[many] = peak.load() - before;
    hpx_shim::reset(hpx_shim::config());
    judge(*o, C, o->A, tr ? o->Bt : o->B, tr, "pseudodynamic");
  }
  mon::maxi("copies_percent_max", (std::uint64_t)(100 * most[0] / (matrix * (long long)computing)));
  mon::maxi("packages_extra_percent", (std::uint64_t)std::max(0ll, 100 * (most[1] - most[0]) / matrix));
  if (most[1] - most[0] > 4 * matrix)
    mon::fail("packages", mon::fmt("%lld bytes for one package, %lld when split (%zu computing localities)", most[0], most[1],
                                   computing));
  if (most[0] > (long long)(2 * computing + 6) * matrix)
    mon::fail("copies", mon::fmt("%lld bytes, %lld times the operands, for %zu computing localities", most[0],
                                 most[0] / (2 * matrix), computing));
  mon::observed(3);
  mon::count("package_pairs");
  mon::distinct(mon::h(mon::h(N, cfg.localities), reps * 2 + tr));
}
#endif

void run_case(std::uint64_t idx, mon::rng &r) {
  if (!hooked)
    return mon::fail("hooks", "the allocation hooks are not available");
  long long c = calls.load();
#if defined(C_EXP)
  calls_in_a_row(idx % job_kinds, r);
#else
  static const std::size_t repeating[] = {tiled_kernel, combined_v, single_v, pseudo_v};
  std::size_t kind = idx % job_kinds;
  if (kind == test_kernel && idx / job_kinds % 8)
    kind = tiled_kernel;
  if (r.chance(1, 6))
    packages(r);
  else if (r.chance(1, 3))
    repetitions(repeating[r.in(0, 3)], r);
  else if (r.chance(1, 3) && kind != test_kernel)
    different_calls(kind, r);
  else
    calls_in_a_row(kind, r);
  env_stats();
#endif
  mon::count("allocations_seen", calls.load() - c);
}
