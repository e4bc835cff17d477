// P31: how much of a multiplication can go on at the same time
#include "jobs.hpp"
#include <atomic>
#include <cmath>
#include <dlfcn.h>
#include <omp.h>
#include <pthread.h>
#include <time.h>

static double cpu() {
  timespec t;
  clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

// ------------------------------------------------------------ time under locks
// Nothing can be faster than the time one lock is held in total.
static std::atomic<bool> watching(false);
struct lock_use {
  std::atomic<const void *> who{nullptr};
  std::atomic<long long> ns{0};
};
static lock_use uses[1024]; // more than a case ever has
static thread_local struct {
  const void *who;
  double since;
} held[16];
static thread_local unsigned depth = 0;
static void acquired(const void *l) {
  if (!watching.load(std::memory_order_relaxed))
    return;
  if (depth < 16)
    held[depth] = {l, cpu()};
  depth++;
}
static void releasing(const void *l) {
  if (!depth || !watching.load(std::memory_order_relaxed))
    return;
  depth--;
  if (depth >= 16 || held[depth].who != l)
    return;
  const long long d = (long long)(1e9 * (cpu() - held[depth].since));
  for (std::size_t i = mon::h((std::uint64_t)(std::uintptr_t)l, 1), n = 0; n < 1024; i++, n++) {
    lock_use &u = uses[i % 1024];
    const void *e = nullptr;
    if (u.who.load(std::memory_order_relaxed) == l || u.who.compare_exchange_strong(e, l) || e == l) {
      u.ns.fetch_add(d, std::memory_order_relaxed);
      return;
    }
  }
}
static double longest_lock() {
  long long m = 0;
  for (auto &u : uses)
    m = std::max(m, u.ns.load());
  return 1e-9 * (double)m;
}
static void watch(bool on) {
  if (on)
    for (auto &u : uses)
      u.who = nullptr, u.ns = 0;
  depth = 0;
  watching = on;
}
template <typename F> static F next(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
typedef int (*mutex_fn)(pthread_mutex_t *);
#define HOOK_MUTEX(f)                                              \
  extern "C" int f(pthread_mutex_t *m) noexcept {                  \
    static mutex_fn real = next<mutex_fn>(#f);                     \
    int rc = real(m);                                              \
    if (rc == 0)                                                   \
      acquired(m);                                                 \
    return rc;                                                     \
  }
HOOK_MUTEX(pthread_mutex_lock)
HOOK_MUTEX(pthread_mutex_trylock)
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
  static mutex_fn real = next<mutex_fn>("pthread_mutex_unlock");
  releasing(m);
  return real(m);
}
static const char unnamed = 0;
extern "C" void GOMP_critical_start() {
  static auto real = next<void (*)()>("GOMP_critical_start");
  real();
  acquired(&unnamed);
}
extern "C" void GOMP_critical_end() {
  static auto real = next<void (*)()>("GOMP_critical_end");
  releasing(&unnamed);
  real();
}
extern "C" void GOMP_critical_name_start(void **p) {
  static auto real = next<void (*)(void **)>("GOMP_critical_name_start");
  real(p);
  acquired(p);
}
extern "C" void GOMP_critical_name_end(void **p) {
  static auto real = next<void (*)(void **)>("GOMP_critical_name_end");
  releasing(p);
  real(p);
}

// ------------------------------------------------------------ observations
struct observation {
  double total = 0, longest = 0, lock = 0;
  double factor() const { return total / std::max(std::max(longest, lock), 1e-9); }
};
static std::vector<double> worker_times(unsigned n) {
  std::vector<double> t(n);
#pragma omp parallel num_threads(n)
  t[(std::size_t)omp_get_thread_num()] = cpu();
  return t;
}
// on OpenMP threads: the busiest one takes as long as the call does
static const double least = 0.06; // s
static observation on_workers(job &j, unsigned threads, unsigned times) {
  observation o;
  omp_set_num_threads((int)threads);
  std::vector<double> t0 = worker_times(threads);
  watch(true);
  for (unsigned i = 0; i < times; i++)
    j.run();
  watch(false);
  omp_set_num_threads((int)threads);
  std::vector<double> t1 = worker_times(threads);
  for (unsigned i = 0; i < threads; i++) {
    o.total += t1[i] - t0[i];
    o.longest = std::max(o.longest, t1[i] - t0[i]);
  }
  o.lock = longest_lock();
  return o;
}
#if !defined(C_EXP)
// in tasks and parallel loops: the longest chain of parts that have to wait
// for each other
static observation in_tasks(job &j, mon::rng &r, unsigned localities, unsigned times) {
  hpx_shim::config c;
  c.mode = 0;
  c.seed = r.next();
  c.localities = localities;
  std::ostringstream console;
  c.console = &console;
  hpx_shim::reset(c);
  observation o;
  watch(true);
  hpx_shim::path().begin();
  try {
    for (unsigned i = 0; i < times; i++)
      j.run();
  } catch (...) {
    hpx_shim::path().end();
    watch(false);
    throw;
  }
  hpx_shim::path().end();
  watch(false);
  o.total = hpx_shim::path().work;
  o.longest = hpx_shim::path().now;
  o.lock = longest_lock();
  hpx_shim::reset(hpx_shim::config());
  return o;
}
#endif

void run_case(std::uint64_t idx, mon::rng &r) {
  job_options opt;
  opt.reps = r.chance(1, 2) ? 1 : r.in(2, 4);
  opt.verbose = r.chance(2, 3) ? 0 : (int)r.in(1, 2);
  opt.content = oracle::ints;
  unsigned threads = (unsigned)r.in(2, 8), localities = 1;
  std::size_t pieces; // result blocks, or rows of them
#if defined(C_EXP)
  std::size_t kind = idx % (exp_count - 1); // one of them computes one entry after the other
  for (std::size_t i = 0; i <= kind; i++)
    if (std::string(exp_kerns[i].name) == "multTransposed")
      kind++;
  const bool tasks = false;
  // rows of blocks that can be computed at the same time
  static const std::size_t block[] = {1, 1, 1, 128, 2, 4, 1, 128, 256, 256, 128};
  const std::size_t b = block[kind], unit = std::max(b, exp_kerns[kind].unit);
  opt.N = unit >= 128 ? unit * r.in(2, 1024 / unit) : unit * (r.in(80, 300) / unit);
  pieces = opt.N / b;
#else
  static const std::size_t kinds[] = {single_v, pseudo_v, algorithms_v, naive_d, single_v, pseudo_v, algorithms_v, naive_f,
                                      single_v, pseudo_v, algorithms_v, naive_d, combined_v, tiled_kernel, test_kernel, naive_f};
  const std::size_t kind = kinds[idx % 16];
  const bool tasks = kind == single_v || kind == pseudo_v || kind == algorithms_v || kind == combined_v;
  if (kind == single_v || kind == pseudo_v) {
    const unsigned k = (unsigned)r.in(1, 3);
    opt.least_block = 2 * r.in(k < 3 ? 24 : 12, k < 3 ? 32 : 20) + 1;
    opt.N = opt.least_block << k;
    pieces = (std::size_t)1 << 2 * k;
    localities = (unsigned)r.in(1, 5);
  } else if (kind == algorithms_v) {
    opt.block = r.in(30, 60);
    opt.N = opt.block * r.in(2, 5);
    pieces = (opt.N / opt.block) * (opt.N / opt.block);
  } else if (kind == combined_v || kind == tiled_kernel) {
    opt.N = kind == combined_v ? r.in(850, 1200) : r.in(600, 840);
    pieces = kind == combined_v ? 3 : 6; // at least
  } else if (kind == test_kernel) {
    pieces = 4;
  } else {
    opt.N = r.chance(1, 8) ? r.in(260, 420) : r.in(60, 260);
    pieces = opt.N;
  }
#endif
  job j = make_job(kind, r, nullptr, opt);
  mon::current(j.text + mon::fmt(" workers=%u localities=%u", threads, localities));
  // Serial work gives a factor of 1. What can be expected grows with the parts,
  // but there is some work to do before and after, and clocks are coarse.
#if defined(C_EXP)
  const std::string name = exp_kerns[kind].name; // these ask for two threads
  if (name == "multExchanged" || name == "multGPUASM" || name == "multRegister")
    threads = 2;
#endif
  const double parts = (double)pieces, possible = tasks ? parts : parts / std::ceil(parts / (double)threads);
  const double need = tasks ? std::min(1.0 + 0.35 * (possible - 1.0), 4.0) : std::min(1.0 + 0.2 * (possible - 1.0), 3.0);
  observation best;
  unsigned times = 1, attempts = 0;
  while (attempts < 8 && best.factor() < need) {
    observation o;
#if !defined(C_EXP)
    if (tasks)
      o = in_tasks(j, r, localities, times);
    else
#endif
      o = on_workers(j, threads, times);
    if (o.total < least && times < 4096) {
      times *= o.total < least / 8 ? 8 : 2;
      continue; // too short to tell
    }
    attempts++;
    if (o.factor() > best.factor())
      best = o;
  }
  if (best.factor() < need)
    mon::fail(j.who + (best.lock > best.longest ? ":lock" : ":serial"),
              mon::fmt("%g parts could be computed at the same time, but %.4f s of work take at least %.4f s with any number of "
                       "workers%s (%.2f at a time, at least %.2f expected, best of %u observations)",
                       possible, best.total, std::max(best.longest, best.lock), best.lock > best.longest ? " because of a lock" : "",
                       best.factor(), need, attempts));
  j.check(j.who);
  mon::count(j.who.c_str());
  mon::count("parts", pieces);
  mon::count("observations", attempts);
  mon::maxi("factor_x100", (std::uint64_t)(100 * best.factor()));
  mon::observed(attempts);
  mon::distinct(mon::h(j.id, mon::h(pieces, tasks ? localities : threads)));
  mon::sample(j.text + mon::fmt(" parts=%zu workers=%u localities=%u: %.2f at a time", pieces, threads, localities, best.factor()));
#if !defined(C_EXP)
  hpx_shim::reset(hpx_shim::config());
  env_stats();
#endif
}
