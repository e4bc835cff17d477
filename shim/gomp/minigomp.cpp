// A small OpenMP run-time (the GOMP entry points gcc emits) built only on
// pthreads, so that ThreadSanitizer sees exactly the happens-before edges
// OpenMP guarantees: fork, join, barriers, critical sections.  Loop counters
// use relaxed atomics and create no edges.  Team size, start-up delays and the
// iteration order of dynamic loops vary from region to region.
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <chrono>
#include <mutex>
#include <pthread.h>
#include <thread>
#include <vector>

namespace {
std::atomic<unsigned> want{4};       // omp_set_num_threads / minigomp_set
std::atomic<unsigned> forced{0};     // harness: overrides any request
std::atomic<uint64_t> seed{1}, regions{0}, forks{0}, chunks{0}, teams_mask{0};
std::mutex crit, atom;

struct work {
  std::atomic<long> next{0};
  std::atomic<int> claimed{0};
  long end = 0, incr = 1, chunk = 1;
  int kind = 0; // 0 dynamic, 1 guided, 2 static handled by caller
};
struct team {
  unsigned n;
  void (*fn)(void *);
  void *data;
  pthread_barrier_t bar;
  std::mutex m;
  std::vector<work *> works; // by construct number
  ~team() {
    for (work *w : works)
      delete w;
  }
};
struct self {
  team *t = nullptr;
  unsigned id = 0;
  unsigned construct = 0;
  unsigned singles = 0;
  unsigned level = 0;
  work *cur = nullptr;
  // static schedule state
  long s_next = 0;
};
thread_local self me;

uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
void body(team *t, unsigned id, uint64_t r, unsigned level) {
  self saved = me;
  me = self();
  me.t = t;
  me.id = id;
  me.level = level;
  r = mix(r + id);
  if (r % 4 == 0)
    std::this_thread::sleep_for(std::chrono::microseconds((r >> 8) % 200));
  else if (r % 4 == 1)
    std::this_thread::yield();
  t->fn(t->data);
  me = saved;
}
work *get_work(long start, long end, long incr, long chunk, int kind) {
  team *t = me.t;
  unsigned c = me.construct++;
  std::lock_guard<std::mutex> l(t->m);
  if (t->works.size() <= c)
    t->works.resize(c + 1, nullptr);
  if (!t->works[c]) {
    work *w = new work;
    w->next.store(start, std::memory_order_relaxed);
    w->end = end;
    w->incr = incr;
    w->chunk = chunk < 1 ? 1 : chunk;
    w->kind = kind;
    t->works[c] = w;
  }
  return t->works[c];
}
bool take(work *w, long *s, long *e) {
  long step = w->chunk * w->incr;
  for (;;) {
    long b = w->next.load(std::memory_order_relaxed);
    if (w->incr > 0 ? b >= w->end : b <= w->end)
      return false;
    long n = b + step;
    if (w->kind == 1) {
      long left = (w->end - b + w->incr - (w->incr > 0 ? 1 : -1)) / w->incr;
      long q = (left + me.t->n - 1) / (long)me.t->n;
      if (q < w->chunk)
        q = w->chunk;
      n = b + q * w->incr;
    }
    if (w->incr > 0 ? n > w->end : n < w->end)
      n = w->end;
    if (w->next.compare_exchange_weak(b, n, std::memory_order_relaxed)) {
      *s = b;
      *e = n;
      chunks.fetch_add(1, std::memory_order_relaxed);
      return true;
    }
  }
}
unsigned slow_ms = 0; // every outermost region takes at least this long
std::atomic<unsigned> slept{0};
__attribute__((constructor)) void from_environment() {
  if (const char *v = std::getenv("MINIGOMP_THREADS"))
    want.store((unsigned)std::strtoul(v, nullptr, 10), std::memory_order_relaxed);
  if (const char *v = std::getenv("MINIGOMP_SLOW"))
    slow_ms = (unsigned)std::strtoul(v, nullptr, 10);
}
__attribute__((destructor)) void report_slept() {
  if (slow_ms)
    std::fprintf(stderr, "MINIGOMP_SLEPT %u\n", slept.load());
}
void fork_join(void (*fn)(void *), void *data, unsigned n) {
  regions.fetch_add(1, std::memory_order_relaxed);
  if (slow_ms && me.level == 0) {
    slept.fetch_add(1, std::memory_order_relaxed);
    std::this_thread::sleep_for(std::chrono::milliseconds(slow_ms));
  }
  unsigned f = forced.load(std::memory_order_relaxed);
  if (n == 0)
    n = want.load(std::memory_order_relaxed);
  if (f)
    n = f;
  if (me.level > 0 || n < 1)
    n = 1; // nested regions are serialised
  if (n > 64)
    n = 64;
  teams_mask.fetch_or(1ull << (n - 1), std::memory_order_relaxed);
  team t;
  t.n = n;
  t.fn = fn;
  t.data = data;
  pthread_barrier_init(&t.bar, nullptr, n);
  uint64_t r = mix(seed.fetch_add(1, std::memory_order_relaxed));
  std::vector<std::thread> th;
  unsigned level = me.level + 1;
  for (unsigned i = 1; i < n; i++)
    th.emplace_back([&t, i, r, level] { body(&t, i, r, level); });
  forks.fetch_add(n - 1, std::memory_order_relaxed);
  body(&t, 0, r, level);
  for (auto &x : th)
    x.join();
  pthread_barrier_destroy(&t.bar);
}
team *solo() {
  static thread_local team *t = nullptr;
  if (!t) {
    t = new team;
    t->n = 1;
    pthread_barrier_init(&t->bar, nullptr, 1);
  }
  return t;
}
void ensure() {
  if (!me.t)
    me.t = solo();
}
} // namespace

extern "C" {
void minigomp_set(unsigned n, uint64_t s) {
  forced.store(n, std::memory_order_relaxed);
  seed.store(s, std::memory_order_relaxed);
}
uint64_t minigomp_regions() { return regions.load(); }
uint64_t minigomp_forks() { return forks.load(); }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
  fork_join(fn, data, n);
}
int omp_get_thread_num() { return (int)me.id; }
int omp_get_num_threads() { return me.t ? (int)me.t->n : 1; }
int omp_get_max_threads() {
  unsigned f = forced.load(std::memory_order_relaxed);
  return (int)(f ? f : want.load(std::memory_order_relaxed));
}
void omp_set_num_threads(int n) { want.store(n < 1 ? 1 : (unsigned)n, std::memory_order_relaxed); }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return me.level > 0 && me.t && me.t->n > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_level() { return (int)me.level; }
int omp_get_thread_limit() { return 64; }
double omp_get_wtime() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
void omp_init_lock(void **l) { *l = new std::mutex; }
void omp_destroy_lock(void **l) { delete (std::mutex *)*l; }
void omp_set_lock(void **l) { ((std::mutex *)*l)->lock(); }
void omp_unset_lock(void **l) { ((std::mutex *)*l)->unlock(); }

void GOMP_barrier() {
  if (me.t && me.t->n > 1)
    pthread_barrier_wait(&me.t->bar);
}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start() { crit.lock(); }
void GOMP_critical_end() { crit.unlock(); }
void GOMP_critical_name_start(void **) { crit.lock(); }
void GOMP_critical_name_end(void **) { crit.unlock(); }
void GOMP_atomic_start() { atom.lock(); }
void GOMP_atomic_end() { atom.unlock(); }
bool GOMP_single_start() {
  ensure();
  work *w = get_work(0, 0, 1, 1, 0);
  return w->claimed.exchange(1, std::memory_order_relaxed) == 0;
}

#define LOOP(NAME, KIND)                                                        \
  bool GOMP_loop_##NAME##_start(long s, long e, long inc, long ch, long *is, long *ie) { \
    ensure();                                                                   \
    me.cur = get_work(s, e, inc, ch, KIND);                                     \
    return take(me.cur, is, ie);                                                \
  }                                                                             \
  bool GOMP_loop_##NAME##_next(long *is, long *ie) { return take(me.cur, is, ie); } \
  bool GOMP_loop_ull_##NAME##_start(bool, unsigned long long s, unsigned long long e, \
                                    unsigned long long inc, unsigned long long ch,   \
                                    unsigned long long *is, unsigned long long *ie) { \
    ensure();                                                                   \
    me.cur = get_work((long)s, (long)e, (long)inc, (long)ch, KIND);             \
    return take(me.cur, (long *)is, (long *)ie);                                \
  }                                                                             \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long *is, unsigned long long *ie) { \
    return take(me.cur, (long *)is, (long *)ie);                                \
  }
LOOP(dynamic, 0)
LOOP(nonmonotonic_dynamic, 0)
LOOP(guided, 1)
LOOP(nonmonotonic_guided, 1)
LOOP(runtime, 0)
LOOP(nonmonotonic_runtime, 0)
LOOP(maybe_nonmonotonic_runtime, 0)

struct par_loop {
  void (*fn)(void *);
  void *data;
  long s, e, inc, ch;
  int kind;
};
static void par_loop_entry(void *p) {
  par_loop *l = (par_loop *)p;
  me.cur = get_work(l->s, l->e, l->inc, l->ch, l->kind);
  l->fn(l->data);
}
#define PLOOP(NAME, KIND)                                                       \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned n, long s, long e, \
                                 long inc, long ch, unsigned) {                 \
    par_loop l{fn, data, s, e, inc, ch, KIND};                                  \
    fork_join(par_loop_entry, &l, n);                                           \
  }
#define PLOOP0(NAME, KIND)                                                      \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned n, long s, long e, \
                                 long inc, unsigned) {                          \
    par_loop l{fn, data, s, e, inc, 1, KIND};                                   \
    fork_join(par_loop_entry, &l, n);                                           \
  }
PLOOP(dynamic, 0)
PLOOP(nonmonotonic_dynamic, 0)
PLOOP(guided, 1)
PLOOP(nonmonotonic_guided, 1)
PLOOP0(runtime, 0)
PLOOP0(nonmonotonic_runtime, 0)
PLOOP0(maybe_nonmonotonic_runtime, 0)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() {
  GOMP_barrier();
  return false;
}
// tasks run at once on the spawning thread: legal, and no extra edges arise
// that matter to the caller
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long size,
               long align, bool, unsigned, void **, int, void *) {
  if (cpyfn) {
    std::vector<char> buf((size_t)(size + align));
    char *a = (char *)(((uintptr_t)buf.data() + align - 1) & ~(uintptr_t)(align - 1));
    cpyfn(a, data);
    fn(a);
  } else
    fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
unsigned GOMP_sections_start(unsigned count) {
  ensure();
  me.cur = get_work(1, (long)count + 1, 1, 1, 0);
  long s, e;
  return take(me.cur, &s, &e) ? (unsigned)s : 0;
}
unsigned GOMP_sections_next() {
  long s, e;
  return take(me.cur, &s, &e) ? (unsigned)s : 0;
}
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
}
