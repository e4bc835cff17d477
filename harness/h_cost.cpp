// P32: how much work a call does, counted in executed basic blocks and
// allocated memory
#include "jobs.hpp"
#include <cmath>
#include <malloc.h>
#include <new>
#if !defined(C_EXP)
#include "util/util.hpp"
#endif

// everything but the harness is compiled with a call at every basic block
static std::uint64_t bytes = 0, held = 0, peak = 0;
static const std::size_t max_slots = 1 << 14;
static std::uint64_t slots[max_slots]; // one for every thread there ever was
static std::size_t used = 0;
static __thread std::uint64_t *slot = nullptr;
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() {
  if (!slot)
    slot = &slots[__atomic_fetch_add(&used, 1, __ATOMIC_RELAXED) % max_slots];
  ++*slot;
}
static std::uint64_t blocks() {
  std::uint64_t n = 0;
  for (std::size_t i = 0; i < std::min(used, max_slots); i++)
    n += slots[i];
  return n;
}
static void *take(std::size_t n) {
  void *p = std::malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  __atomic_fetch_add(&bytes, n, __ATOMIC_RELAXED);
  const std::uint64_t now = __atomic_add_fetch(&held, malloc_usable_size(p), __ATOMIC_RELAXED);
  if (now > __atomic_load_n(&peak, __ATOMIC_RELAXED))
    __atomic_store_n(&peak, now, __ATOMIC_RELAXED);
  return p;
}
static void give(void *p) {
  if (p)
    __atomic_fetch_sub(&held, malloc_usable_size(p), __ATOMIC_RELAXED);
  std::free(p);
}
void *operator new(std::size_t n) { return take(n); }
void *operator new[](std::size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, std::size_t) noexcept { give(p); }
void operator delete[](void *p, std::size_t) noexcept { give(p); }

struct spent {
  double steps = 0, memory = 0;
  std::string text, who;
};
static spent cost(std::size_t kind, std::uint64_t seed, const job_options &opt, unsigned localities) {
  mon::rng r(seed);
#if !defined(C_EXP)
  hpx_shim::config c;
  c.mode = 0;
  c.seed = seed;
  c.localities = localities;
  std::ostringstream console;
  c.console = &console;
  hpx_shim::reset(c);
#endif
  job j = make_job(kind, r, nullptr, opt);
  mon::current(j.text);
  omp_threads(1, 1);
  const std::uint64_t b0 = blocks(), m0 = bytes, h0 = held;
  peak = h0;
  j.run();
  spent s;
  s.steps = (double)(blocks() - b0) + (double)(bytes - m0) / 8;
  s.memory = (double)(peak - h0);
  j.check(j.who);
#if !defined(C_EXP)
  hpx_shim::reset(hpx_shim::config());
#endif
  s.text = j.text;
  s.who = j.who;
  mon::count("steps", (std::uint64_t)s.steps);
  return s;
}
void run_case(std::uint64_t idx, mon::rng &r) {
  job_options o;
  o.content = oracle::ints;
  o.reps = o.times = 1;
  const std::uint64_t seed = r.next();
#if defined(C_EXP)
  const std::size_t kind = idx % job_kinds;
  const unsigned localities = 1;
  const bool repeats = false;
  const std::size_t unit = exp_kerns[kind].unit;
  o.N = unit >= 128 ? unit : unit * (r.in(40, 90) / unit);
#else
  static const std::size_t kinds[] = {naive_d,     naive_f,   algorithms_v, looped_v, semi_v,   single_v,     pseudo_v, helper_v,
                                      single_v,    pseudo_v,  algorithms_v, looped_v, semi_v,   tiled_kernel, combined_v, test_kernel,
                                      helper_v,    tiling_v,  tiling_v,     tiling_v};
  const std::size_t kind = kinds[idx % 20];
  const unsigned localities = (unsigned)r.in(1, 4);
  const bool repeats = kind == single_v || kind == pseudo_v || kind == tiled_kernel || kind == combined_v;
  o.N = r.in(40, 80);
  if (kind == single_v || kind == pseudo_v) {
    o.least_block = 2 * r.in(2, 8) + 1;
    o.N = o.least_block << (o.least_block > 10 ? 2 : 3);
  } else if (kind == tiled_kernel || kind == combined_v)
    o.N = 256 - r.in(0, 3);
  else if (kind == test_kernel)
    o.N = 512;
  else if (kind == tiling_v) {
    o.dim = idx % 20 - 16;
    o.N = o.dim == 1 ? r.in(60, 100) : o.dim == 2 ? r.in(6, 12) : r.in(2, 3);
  }
  o.block = r.in(std::min<std::size_t>(8, o.N), o.N);
  o.input = r.in(std::min<std::size_t>(4, o.N), o.N);
#endif
  const spent a = cost(kind, seed, o, localities);
  const std::size_t N = o.N;
  o.N *= 2;
  const spent b = cost(kind, seed, o, localities);
#if defined(C_EXP)
  const double most = 9.5, loose = 6.4;
#else
  // the helpers are quadratic, a tiling is linear in the number of elements
  const double elements = std::pow(2.0, kind == tiling_v ? o.dim : 2);
  const double loose = kind == single_v || kind == pseudo_v ? 7 : 1.6 * elements; // the schedule has a part in what is held
  const double most = kind == helper_v || kind == tiling_v ? 1.4 * elements : kind == single_v || kind == pseudo_v ? 8.8 : repeats || kind == test_kernel ? 9.5 : 10.5;
#endif
  const double work = b.steps / a.steps, memory = b.memory / std::max(a.memory, 4.0 * N * N);
  if (work > most)
    mon::fail(a.who + ":work", mon::fmt("%.0f steps at N=%zu and %.0f at N=%zu, %.1f times as many", a.steps, N, b.steps, o.N, work));
  if (memory > loose)
    mon::fail(a.who + ":memory", mon::fmt("holds %.0f bytes at N=%zu and %.0f at N=%zu, %.1f times as many", a.memory, N, b.memory, o.N, memory));
  mon::count("runs", 2);
  mon::observed(2);
  mon::maxi((std::string("growth_of_work_percent_") + a.who).c_str(), (std::uint64_t)(100 * work));
  mon::maxi((std::string("growth_of_memory_percent_") + a.who).c_str(), (std::uint64_t)(100 * memory));
  if (repeats) {
    o.reps = 2;
    const spent two = cost(kind, seed, o, localities);
    o.reps = 6;
    const spent six = cost(kind, seed, o, localities);
    const double second = (two.steps - b.steps) / b.steps, more = (six.steps - two.steps) / 4 / b.steps, kept = (six.memory - b.memory) / (8.0 * o.N * o.N);
    const char *f = "%s of %d repetitions takes %.2f times the steps of a single one";
    for (int i = 0; i < 2; i++)
      if ((i ? more : second) > 1.3 || (i ? more : second) < 0.4)
        mon::fail(a.who + ":repetition", mon::fmt(f, i ? "each of the last four" : "the second", i ? 6 : 2, i ? more : second));
    if (six.memory - b.memory > 16.0 * o.N * o.N + 0.05 * b.memory)
      mon::fail(a.who + ":kept", mon::fmt("6 repetitions hold %.0f bytes, one %.0f", six.memory, b.memory));
    mon::count("runs", 2);
    mon::count("repetitions_compared", 5);
    mon::observed(2);
    mon::maxi((std::string("later_repetitions_percent_") + a.who).c_str(), (std::uint64_t)(100 * std::max(0.0, more)));
    mon::maxi((std::string("kept_by_five_repetitions_percent_of_result_") + a.who).c_str(), (std::uint64_t)(100 * std::max(0.0, kept)));
  }
  mon::sample(b.text + mon::fmt(": %.0f steps, %.0f at half the order; %.0f bytes, %.0f", b.steps, a.steps, b.memory, a.memory));
  mon::distinct(mon::h(mon::h(kind, N), mon::h(o.block, mon::h(o.input, localities))));
}
