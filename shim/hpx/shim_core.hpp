// Stand-in for the parts of HPX that the repository uses (HPX itself is not
// installed here).  It is an execution environment for monitoring, not a
// reimplementation: see /verif/DESIGN.md.
//
// Execution modes
//   threads : every async task, continuation and group of loop chunks runs on a
//             thread of its own, with seeded random delays.  No global queue or
//             lock sits between tasks, so ThreadSanitizer sees exactly the
//             happens-before edges HPX guarantees (spawn, future, join).
//   det     : one thread; pending tasks are run in a seeded random order.
#pragma once

#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include <pthread.h>
#include <unistd.h>

#include <boost/iterator/iterator_facade.hpp>
#include <boost/program_options.hpp>

namespace hpx_shim {

struct action_call {
  std::string name;
  std::uint32_t target_locality;
  std::uint32_t from_locality;
  bool from_action; // issued from inside another action
  const void *component;
  std::vector<std::uint64_t> args; // integral arguments, in order
};

struct config {
  int mode = 1; // 0 = deterministic, 1 = threads
  std::uint32_t localities = 1;
  unsigned threads = 4;    // workers of a parallel loop
  std::uint64_t seed = 1;
  unsigned max_delay_us = 0;
  bool trace = false;
  // stand-in for an action body: returns true when it produced the result
  std::function<bool(const action_call &, std::vector<double> &)> standin;
  // fault: alter what an action returned
  std::function<void(const action_call &, std::vector<double> &)> corrupt;
  // fault: skip the k-th item of the n-th top-level parallel loop
  std::int64_t skip_loop = -1;
  std::uint64_t skip_item = 0;
  // faults: the k-th action (before or after it ran), continuation or loop
  // item throws
  enum { no_fault, action_before, action_after, continuation, loop_item };
  int fault = no_fault;
  std::int64_t fault_at = 0;
  bool announce = false;
  // actions issued from outside any action, and outermost loops, take this long
  unsigned slow_ms = 0;
  bool print_trace = false;
  // what the console stream writes to; nullptr = std::cout
  std::ostream *console = nullptr;
};

struct counters {
  std::atomic<std::uint64_t> tasks{0}, inline_tasks{0}, continuations{0},
      loops{0}, loop_chunks{0}, loop_items{0}, components{0}, names{0},
      max_live{0}, reordered{0};
};

// what a part that was made to fail throws
struct injected : std::runtime_error {
  injected() : std::runtime_error("injected failure") {}
};

struct det_task {
  std::function<void()> fn;
  std::uint32_t locality;
  std::uint64_t id;
  double start; // when it could have started
};

struct tls_data {
  std::uint32_t locality = 0;
  bool in_action = false;
  unsigned loop_depth = 0;
  std::uint64_t rng = 0;
  unsigned det_depth = 0;
  bool run_now = false; // the next task is not to be queued
};

// How long a run in mode 0 would take with a worker for every task: each task
// starts when it is issued, waiting takes until what is waited for has ended,
// and in between a task advances with the processor time it uses itself.
struct critical_path {
  bool on = false;
  double now = 0, mark = 0, work = 0; // of the running task; of all tasks
  static double cpu() {
    timespec t;
    clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
  }
  void begin() {
    on = true;
    now = work = 0;
    mark = cpu();
  }
  double tick() {
    if (!on)
      return 0;
    double t = cpu();
    now += t - mark;
    work += t - mark;
    mark = t;
    return now;
  }
  void end() {
    tick();
    on = false;
  }
};
inline critical_path &path() {
  static critical_path p;
  return p;
}

inline tls_data &tls() {
  static thread_local tls_data d;
  return d;
}

struct runtime {
  config cfg;
  counters cnt;
  std::mutex trace_mutex;
  std::vector<action_call> trace;
  std::mutex names_mutex;
  std::map<std::string, std::shared_ptr<void>> names; // holds id_type
  std::atomic<std::uint64_t> next_task{0};
  std::atomic<std::int64_t> live{0};
  std::atomic<std::uint64_t> next_loop{0};
  std::uint64_t next_comp = 1;
  std::mutex comp_mutex;
  std::vector<det_task> pending; // det mode only
  std::uint64_t det_rng = 88172645463325252ull;
  std::mutex console_mutex;
  std::atomic<std::int64_t> fault_left{0}, faults_fired{0};
  std::atomic<std::uint64_t> slept{0};
};

inline runtime &rt() {
  static runtime *r = new runtime; // never destroyed: detached threads
  return *r;
}

inline std::uint64_t mix(std::uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

inline std::uint64_t rnd() {
  tls_data &d = tls();
  if (d.rng == 0)
    d.rng = mix(rt().cfg.seed ^ 0xabcdef);
  d.rng = mix(d.rng);
  return d.rng;
}

inline void maybe_fail(int kind) {
  runtime &r = rt();
  if (r.cfg.fault != kind)
    return;
  if (r.fault_left.fetch_sub(1, std::memory_order_relaxed) == 0) {
    r.faults_fired.fetch_add(1, std::memory_order_relaxed);
    if (r.cfg.announce)
      std::fprintf(stderr, "HPX_SHIM_FAULT applied\n");
    throw injected();
  }
}

inline void maybe_sleep() {
  runtime &r = rt();
  if (!r.cfg.slow_ms)
    return;
  r.slept.fetch_add(1, std::memory_order_relaxed);
  std::this_thread::sleep_for(std::chrono::milliseconds(r.cfg.slow_ms));
}

inline void maybe_delay() {
  unsigned m = rt().cfg.max_delay_us;
  if (!m)
    return;
  std::uint64_t r = rnd();
  if (r & 1)
    return;
  if (r & 2)
    std::this_thread::yield();
  else
    std::this_thread::sleep_for(std::chrono::microseconds((r >> 8) % m));
}

inline void wait_threads();

// start over with a new configuration (one "run of the runtime")
inline void reset(const config &c) {
  wait_threads();
  runtime &r = rt();
  r.pending.clear();
  r.cfg = c;
  {
    std::lock_guard<std::mutex> l(r.trace_mutex);
    r.trace.clear();
  }
  {
    std::lock_guard<std::mutex> l(r.names_mutex);
    r.names.clear();
  }
  r.next_loop = 0;
  r.next_task = 0;
  r.fault_left = c.fault_at;
  r.faults_fired = 0;
  if (c.mode == 0)
    r.pending.reserve(4096);
  r.det_rng = mix(c.seed);
  tls() = tls_data();
  tls().rng = mix(c.seed ^ 0x5555);
}

inline void run_task(const std::function<void()> &fn, std::uint32_t loc,
                     std::uint64_t id) {
  tls_data saved = tls();
  tls().locality = loc;
  tls().loop_depth = 0;
  if (rt().cfg.mode == 1)
    tls().rng = mix(rt().cfg.seed ^ (id * 7919 + 13));
  maybe_delay();
  fn();
  std::uint64_t keep = tls().rng;
  tls() = saved;
  if (rt().cfg.mode == 0)
    tls().rng = keep;
}

inline void run_pending(std::size_t pick) {
  runtime &r = rt();
  det_task t = std::move(r.pending[pick]);
  r.pending[pick] = std::move(r.pending.back());
  r.pending.pop_back();
  tls().det_depth++;
  const double waiting = path().tick();
  path().now = t.start;
  run_task(t.fn, t.locality, t.id);
  path().tick();
  path().now = waiting;
  tls().det_depth--;
}

// run some pending task; false when there is none
inline bool det_step() {
  runtime &r = rt();
  if (r.pending.empty())
    return false;
  r.det_rng = mix(r.det_rng);
  std::size_t pick;
  if (tls().det_depth > 120)
    pick = r.pending.size() - 1; // stay close to a depth-first order
  else
    pick = r.det_rng % r.pending.size();
  if (pick != 0)
    r.cnt.reordered.fetch_add(1, std::memory_order_relaxed);
  run_pending(pick);
  return true;
}

// Threads nobody waits for are joined by a thread of its own as soon as they
// end: detached threads may still be ending when the process does, and joining
// them from a worker would order it after them.
struct reaper {
  std::mutex m;
  std::condition_variable cv;
  std::vector<pthread_t> ended;
  bool stop = false;
  pthread_t self;
  std::atomic<std::int64_t> unjoined{0};
};
inline reaper &reap() {
  static reaper *r = new reaper;
  return *r;
}
inline void *reaper_main(void *) {
  reaper &r = reap();
  std::unique_lock<std::mutex> l(r.m);
  for (;;) {
    while (r.ended.empty() && !r.stop)
      r.cv.wait(l);
    if (r.ended.empty())
      return nullptr;
    pthread_t t = r.ended.back();
    r.ended.pop_back();
    l.unlock();
    pthread_join(t, nullptr);
    r.unjoined.fetch_sub(1, std::memory_order_release);
    l.lock();
  }
}
inline void wait_threads() {
  while (rt().live.load(std::memory_order_acquire) != 0 ||
         reap().unjoined.load(std::memory_order_acquire) != 0)
    std::this_thread::sleep_for(std::chrono::microseconds(50));
}
inline void end_reaper() {
  reaper &r = reap();
  for (int i = 0; r.unjoined.load(std::memory_order_acquire) != 0; i++) {
    if (i == 40000)
      return; // something still runs; nobody is waiting for it
    std::this_thread::sleep_for(std::chrono::microseconds(50));
  }
  {
    std::lock_guard<std::mutex> l(r.m);
    r.stop = true;
    r.cv.notify_all();
  }
  pthread_join(r.self, nullptr);
}
inline void make_thread(pthread_t *t, void *(*f)(void *), void *arg) {
  for (int i = 0; pthread_create(t, nullptr, f, arg) != 0; i++) {
    if (i == 2000) {
      std::fprintf(stderr, "hpx-shim: cannot create a thread\n");
      std::_Exit(125);
    }
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
  }
}
inline void *detached_main(void *p) {
  {
    std::unique_ptr<std::function<void()>> f(static_cast<std::function<void()> *>(p));
    (*f)();
  }
  rt().live.fetch_sub(1, std::memory_order_release);
  reaper &r = reap();
  std::lock_guard<std::mutex> l(r.m);
  r.ended.push_back(pthread_self());
  r.cv.notify_one();
  return nullptr;
}
inline bool start_reaper() {
  reaper &r = reap();
  r.ended.reserve(4096);
  make_thread(&r.self, reaper_main, nullptr);
  std::atexit(end_reaper);
  return true;
}
inline void detached(std::function<void()> *f) {
  static bool started = start_reaper();
  (void)started;
  reaper &r = reap();
  r.unjoined.fetch_add(1, std::memory_order_relaxed);
  pthread_t t;
  make_thread(&t, detached_main, f);
}

inline void spawn(std::function<void()> fn, std::uint32_t loc) {
  runtime &r = rt();
  std::uint64_t id = r.next_task.fetch_add(1, std::memory_order_relaxed);
  r.cnt.tasks.fetch_add(1, std::memory_order_relaxed);
  if (tls().run_now) {
    tls().run_now = false;
    return run_task(fn, loc, id);
  }
  if (r.cfg.mode == 0) {
    r.pending.push_back(det_task{std::move(fn), loc, id, path().tick()});
    return;
  }
  std::int64_t n = r.live.fetch_add(1, std::memory_order_relaxed) + 1;
  std::uint64_t old = r.cnt.max_live.load(std::memory_order_relaxed);
  while (old < (std::uint64_t)n &&
         !r.cnt.max_live.compare_exchange_weak(old, (std::uint64_t)n,
                                               std::memory_order_relaxed)) {
  }
  if (n > 48) {
    r.live.fetch_sub(1, std::memory_order_relaxed);
    r.cnt.inline_tasks.fetch_add(1, std::memory_order_relaxed);
    run_task(fn, loc, id);
    return;
  }
  detached(new std::function<void()>([fn, loc, id]() { run_task(fn, loc, id); }));
}

template <typename T> struct state_value {
  std::unique_ptr<T> v;
  template <typename U> void set(U &&u) { v.reset(new T(std::forward<U>(u))); }
  T take() { return std::move(*v); }
  T &ref() { return *v; }
};
template <> struct state_value<void> {
  void take() {}
};

template <typename T> struct shared_state {
  std::mutex m;
  std::condition_variable cv;
  bool ready = false;
  std::exception_ptr ex;
  state_value<T> val;
  std::vector<std::function<void()>> conts;
  double ended = 0; // see critical_path

  void finish() {
    if (rt().cfg.mode == 0)
      ended = path().tick();
    std::vector<std::function<void()>> c;
    {
      std::lock_guard<std::mutex> l(m);
      ready = true;
      c.swap(conts);
      cv.notify_all();
    }
    for (auto &f : c)
      f();
  }
  bool is_ready() {
    std::lock_guard<std::mutex> l(m);
    return ready;
  }
  void wait() {
    if (rt().cfg.mode == 0) {
      while (!is_ready()) {
        if (!det_step()) {
          std::fprintf(stderr, "hpx-shim: waiting for a future nobody will "
                               "make ready (deadlock)\n");
          std::abort();
        }
      }
      if (path().tick() < ended)
        path().now = ended;
      return;
    }
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [this] { return ready; });
  }
  void on_ready(std::function<void()> f) {
    {
      std::lock_guard<std::mutex> l(m);
      if (!ready) {
        conts.push_back(std::move(f));
        return;
      }
    }
    if (rt().cfg.mode != 0)
      return f();
    const double self = path().tick();
    path().now = std::max(self, ended);
    f();
    path().tick();
    path().now = self;
  }
};

template <typename T, typename F>
typename std::enable_if<!std::is_void<T>::value>::type
fulfil(shared_state<T> &s, F &&f) {
  try {
    s.val.set(f());
  } catch (...) {
    s.ex = std::current_exception();
  }
  s.finish();
}
template <typename T, typename F>
typename std::enable_if<std::is_void<T>::value>::type
fulfil(shared_state<T> &s, F &&f) {
  try {
    f();
  } catch (...) {
    s.ex = std::current_exception();
  }
  s.finish();
}
} // namespace hpx_shim

namespace hpx {

enum class launch_t { async, sync, deferred, fork, apply };
struct launch {
  launch_t v;
  static const launch async, sync, deferred, fork;
};
#if defined(__GNUC__)
__attribute__((weak)) const launch launch::async = {launch_t::async};
__attribute__((weak)) const launch launch::sync = {launch_t::sync};
__attribute__((weak)) const launch launch::deferred = {launch_t::deferred};
__attribute__((weak)) const launch launch::fork = {launch_t::fork};
#endif

template <typename T> class future;
template <typename T> class shared_future;

namespace detail {
template <typename T> struct is_future : std::false_type {};
template <typename T> struct is_future<future<T>> : std::true_type {};
template <typename T> struct is_future<shared_future<T>> : std::true_type {};

template <typename R> struct result_future { typedef future<R> type; };
template <typename R> struct result_future<future<R>> { typedef future<R> type; };

template <typename F> future<decltype(std::declval<F &>()())> spawn_async(F f);
} // namespace detail

template <typename T> class future {
public:
  typedef hpx_shim::shared_state<T> state;
  std::shared_ptr<state> s;
  future() {}
  explicit future(std::shared_ptr<state> s) : s(std::move(s)) {}
  future(future &&) = default;
  future &operator=(future &&) = default;
  future(const future &) = delete;
  future &operator=(const future &) = delete;

  bool valid() const { return (bool)s; }
  bool is_ready() const { return s->is_ready(); }
  bool has_exception() const { return s->is_ready() && s->ex; }
  bool has_value() const { return s->is_ready() && !s->ex; }
  void wait() const { s->wait(); }
  T get() {
    if (!s)
      throw std::logic_error("hpx::future::get without state");
    s->wait();
    std::shared_ptr<state> k = std::move(s);
    if (k->ex)
      std::rethrow_exception(k->ex);
    return k->val.take();
  }
  shared_future<T> share();

  template <typename F>
  auto then(F f) -> future<decltype(f(std::declval<future<T>>()))> {
    typedef decltype(f(std::declval<future<T>>())) R;
    auto ns = std::make_shared<hpx_shim::shared_state<R>>();
    std::shared_ptr<state> src = std::move(s);
    auto fp = std::make_shared<F>(std::move(f));
    std::uint32_t loc = hpx_shim::tls().locality;
    hpx_shim::rt().cnt.continuations.fetch_add(1, std::memory_order_relaxed);
    src->on_ready([ns, src, fp, loc]() {
      hpx_shim::spawn(
          [ns, src, fp]() {
            hpx_shim::fulfil<R>(*ns, [&]() -> R {
              hpx_shim::maybe_fail(hpx_shim::config::continuation);
              return (*fp)(future<T>(src));
            });
          },
          loc);
    });
    return future<R>(ns);
  }
  template <typename F>
  auto then(launch, F f) -> decltype(this->then(std::move(f))) {
    return then(std::move(f));
  }
};

template <typename T> class shared_future {
public:
  std::shared_ptr<hpx_shim::shared_state<T>> s;
  shared_future() {}
  shared_future(future<T> f) : s(std::move(f.s)) {}
  bool valid() const { return (bool)s; }
  bool is_ready() const { return s->is_ready(); }
  void wait() const { s->wait(); }
  template <typename U = T>
  typename std::enable_if<!std::is_void<U>::value, const U &>::type get() const {
    s->wait();
    if (s->ex)
      std::rethrow_exception(s->ex);
    return s->val.ref();
  }
  template <typename U = T>
  typename std::enable_if<std::is_void<U>::value>::type get() const {
    s->wait();
    if (s->ex)
      std::rethrow_exception(s->ex);
  }
};
template <typename T> shared_future<T> future<T>::share() {
  return shared_future<T>(std::move(*this));
}

template <typename T> future<typename std::decay<T>::type> make_ready_future(T &&t) {
  typedef typename std::decay<T>::type U;
  auto s = std::make_shared<hpx_shim::shared_state<U>>();
  s->val.set(std::forward<T>(t));
  s->ready = true;
  return future<U>(s);
}
inline future<void> make_ready_future() {
  auto s = std::make_shared<hpx_shim::shared_state<void>>();
  s->ready = true;
  return future<void>(s);
}

template <typename T> class promise {
  std::shared_ptr<hpx_shim::shared_state<T>> s =
      std::make_shared<hpx_shim::shared_state<T>>();

public:
  future<T> get_future() { return future<T>(s); }
  template <typename U> void set_value(U &&u) {
    hpx_shim::fulfil<T>(*s, [&]() -> T { return std::forward<U>(u); });
  }
};
template <> class promise<void> {
  std::shared_ptr<hpx_shim::shared_state<void>> s =
      std::make_shared<hpx_shim::shared_state<void>>();

public:
  future<void> get_future() { return future<void>(s); }
  void set_value() { s->finish(); }
};

namespace lcos {
using hpx::future;
using hpx::promise;
using hpx::shared_future;
} // namespace lcos

template <typename T> void wait_all(std::vector<future<T>> &v) {
  for (auto &f : v)
    if (f.valid())
      f.wait();
}
template <typename T> void wait_all(std::vector<future<T>> &&v) { wait_all(v); }
template <typename T> void wait_all(std::vector<future<T>> const &v) {
  for (auto &f : v)
    if (f.valid())
      f.wait();
}
template <typename T, std::size_t n> void wait_all(std::array<future<T>, n> &v) {
  for (auto &f : v)
    if (f.valid())
      f.wait();
}
template <typename It> void wait_all(It b, It e) {
  for (; b != e; ++b)
    if (b->valid())
      b->wait();
}
template <typename... T> void wait_all(future<T> &...f) {
  int dummy[] = {0, (f.wait(), 0)...};
  (void)dummy;
}
namespace lcos {
using hpx::wait_all;
}
template <typename T>
future<std::vector<future<T>>> when_all(std::vector<future<T>> v) {
  wait_all(v);
  return make_ready_future(std::move(v));
}
template <typename T>
future<std::vector<future<T>>> when_all(std::vector<future<T>> &v, int) {
  wait_all(v);
  return make_ready_future(std::move(v));
}

template <typename T> void wait_some(std::size_t n, std::vector<future<T>> const &v) {
  for (;;) {
    std::size_t ready = 0, valid = 0;
    for (auto &f : v)
      if (f.valid()) {
        valid++;
        ready += f.is_ready();
      }
    if (ready >= std::min(n, valid))
      return;
    if (hpx_shim::rt().cfg.mode != 0 || !hpx_shim::det_step())
      std::this_thread::sleep_for(std::chrono::microseconds(20));
  }
}
template <typename T> void wait_any(std::vector<future<T>> const &v) { wait_some(1, v); }
template <typename F, typename T> void wait_each(F &&f, std::vector<future<T>> &v) {
  for (auto &x : v) {
    x.wait();
    f(std::move(x));
  }
}
template <typename T> future<T> make_exceptional_future(std::exception_ptr e) {
  auto s = std::make_shared<hpx_shim::shared_state<T>>();
  s->ex = e;
  s->ready = true;
  return future<T>(s);
}
namespace lcos {
using hpx::wait_any;
using hpx::wait_each;
using hpx::wait_some;
using hpx::when_all;
} // namespace lcos
namespace detail {
// calls go() as soon as every future among the arguments is ready
struct all_ready {
  std::atomic<std::size_t> left{1};
  double start = 0; // see critical_path
  std::function<void()> go;
  void one() {
    if (hpx_shim::rt().cfg.mode == 0)
      start = std::max(start, hpx_shim::path().tick());
    if (left.fetch_sub(1) != 1)
      return;
    const double self = hpx_shim::path().now;
    if (hpx_shim::rt().cfg.mode == 0)
      hpx_shim::path().now = start;
    std::function<void()> g;
    g.swap(go);
    g();
    if (hpx_shim::rt().cfg.mode == 0)
      hpx_shim::path().now = self;
  }
};
template <typename S> void await_state(std::shared_ptr<all_ready> &r, S &s) {
  if (!s)
    return;
  r->left.fetch_add(1);
  s->on_ready([r]() { r->one(); });
}
template <typename T> void await_argument(std::shared_ptr<all_ready> &r, future<T> &f) { await_state(r, f.s); }
template <typename T> void await_argument(std::shared_ptr<all_ready> &r, shared_future<T> &f) { await_state(r, f.s); }
template <typename T> void await_argument(std::shared_ptr<all_ready> &r, std::vector<future<T>> &v) {
  for (auto &f : v)
    await_state(r, f.s);
}
template <typename T> void await_argument(std::shared_ptr<all_ready> &, T &) {}
template <typename F, typename Tup, std::size_t... I>
auto move_tuple(F &f, Tup &t, std::index_sequence<I...>) -> decltype(f(std::move(std::get<I>(t))...)) {
  return f(std::move(std::get<I>(t))...);
}
template <bool is_policy, typename F, typename... A> struct dataflow_result {};
template <typename F, typename... A> struct dataflow_result<false, F, A...> {
  typedef decltype(std::declval<typename std::decay<F>::type &>()(std::declval<typename std::decay<A>::type>()...)) type;
};
template <typename Tup, std::size_t... I>
void await_tuple(std::shared_ptr<all_ready> &r, Tup &t, std::index_sequence<I...>) {
  int dummy[] = {0, (await_argument(r, std::get<I>(t)), 0)...};
  (void)dummy;
}
} // namespace detail
template <typename F, typename... A>
future<typename detail::dataflow_result<std::is_same<typename std::decay<F>::type, launch>::value, F, A...>::type>
dataflow(F &&f, A &&...a) {
  typedef typename detail::dataflow_result<false, F, A...>::type R;
  auto s = std::make_shared<hpx_shim::shared_state<R>>();
  auto fp = std::make_shared<typename std::decay<F>::type>(std::forward<F>(f));
  auto args = std::make_shared<std::tuple<typename std::decay<A>::type...>>(std::forward<A>(a)...);
  const std::uint32_t loc = hpx_shim::tls().locality;
  auto r = std::make_shared<detail::all_ready>();
  r->go = [s, fp, args, loc]() {
    hpx_shim::spawn(
        [s, fp, args]() {
          hpx_shim::fulfil<R>(*s, [&]() -> R {
            hpx_shim::maybe_fail(hpx_shim::config::continuation);
            return detail::move_tuple(*fp, *args, std::index_sequence_for<A...>());
          });
        },
        loc);
  };
  detail::await_tuple(r, *args, std::index_sequence_for<A...>());
  r->one();
  return future<R>(s);
}
template <typename F, typename... A>
auto dataflow(launch, F &&f, A &&...a) -> decltype(dataflow(std::forward<F>(f), std::forward<A>(a)...)) {
  return dataflow(std::forward<F>(f), std::forward<A>(a)...);
}

// ---------------------------------------------------------------- identifiers
struct id_type {
  std::uint32_t locality = 0;
  std::uint64_t comp = 0; // 0 = the locality itself
  std::shared_ptr<void> obj;
  id_type() {}
  explicit id_type(std::uint32_t l) : locality(l) {}
  explicit operator bool() const { return true; }
  friend bool operator==(const id_type &a, const id_type &b) {
    return a.locality == b.locality && a.comp == b.comp;
  }
  friend bool operator!=(const id_type &a, const id_type &b) { return !(a == b); }
  friend bool operator<(const id_type &a, const id_type &b) {
    return std::tie(a.locality, a.comp) < std::tie(b.locality, b.comp);
  }
  friend std::ostream &operator<<(std::ostream &o, const id_type &i) {
    return o << "{" << i.locality << ":" << i.comp << "}";
  }
};
namespace naming {
using hpx::id_type;
inline std::uint32_t get_locality_id_from_id(const id_type &i) { return i.locality; }
} // namespace naming

inline id_type find_here() { return id_type(hpx_shim::tls().locality); }
inline id_type find_root_locality() { return id_type(0); }
inline std::vector<id_type> find_all_localities() {
  std::vector<id_type> v;
  for (std::uint32_t i = 0; i < hpx_shim::rt().cfg.localities; i++)
    v.push_back(id_type(i));
  return v;
}
inline std::vector<id_type> find_remote_localities() {
  std::vector<id_type> v;
  for (auto &i : find_all_localities())
    if (i.locality != hpx_shim::tls().locality)
      v.push_back(i);
  return v;
}
inline future<std::uint32_t> get_num_localities() {
  return make_ready_future(hpx_shim::rt().cfg.localities);
}
inline std::uint32_t get_locality_id() { return hpx_shim::tls().locality; }
inline std::size_t get_os_thread_count() { return hpx_shim::rt().cfg.threads; }
inline std::size_t get_num_worker_threads() { return hpx_shim::rt().cfg.threads; }
inline std::size_t get_worker_thread_num() { return 0; }

// ---------------------------------------------------------------- components
namespace components {
template <typename T> struct component_base {
  id_type get_id() const { return id_type(hpx_shim::tls().locality); }
};
template <typename T> struct simple_component_base : component_base<T> {};
template <typename T> struct managed_component_base : component_base<T> {};
template <typename T> struct component {
  typedef T type;
};
template <typename T> struct simple_component : component<T> {};
template <typename T> struct managed_component : component<T> {};

template <typename T> class client {
  id_type id;

public:
  typedef T server_component_type;
  client() {}
  client(id_type i) : id(std::move(i)) {}
  client(future<id_type> f) : id(f.get()) {}
  id_type get_id() const {
    if (!id.obj)
      throw std::runtime_error("hpx-shim: client is not bound to a component");
    return id;
  }
  id_type const &get_gid() const { return id; }
  bool valid() const { return (bool)id.obj; }
  void wait() const {}
  future<bool> register_as(const std::string &name, bool = true) {
    hpx_shim::runtime &r = hpx_shim::rt();
    std::lock_guard<std::mutex> l(r.names_mutex);
    r.cnt.names.fetch_add(1, std::memory_order_relaxed);
    // a bound name stays bound to what it was bound to first
    bool fresh =
        r.names.emplace(name, std::make_shared<id_type>(id)).second;
    return make_ready_future(fresh);
  }
  void connect_to(const std::string &name) {
    hpx_shim::runtime &r = hpx_shim::rt();
    std::lock_guard<std::mutex> l(r.names_mutex);
    auto it = r.names.find(name);
    if (it == r.names.end())
      throw std::runtime_error("hpx-shim: no component registered as " + name);
    id = *std::static_pointer_cast<id_type>(it->second);
  }
};
template <typename T, typename S> class client_base : public client<S> {
public:
  using client<S>::client;
};
} // namespace components

namespace agas {
inline bool unregister_name_sync(const std::string &name) {
  hpx_shim::runtime &r = hpx_shim::rt();
  std::lock_guard<std::mutex> l(r.names_mutex);
  return r.names.erase(name) != 0;
}
} // namespace agas
inline future<bool> unregister_with_basename(const std::string &) {
  return make_ready_future(true);
}

namespace detail {
template <typename T, typename... A>
id_type create_component(std::uint32_t locality, A &&...a) {
  if (locality >= hpx_shim::rt().cfg.localities)
    throw std::runtime_error("hpx-shim: no such locality");
  hpx_shim::tls_data saved = hpx_shim::tls();
  hpx_shim::tls().locality = locality;
  id_type id(locality);
  id.obj = std::make_shared<T>(std::forward<A>(a)...);
  {
    hpx_shim::runtime &r = hpx_shim::rt();
    std::lock_guard<std::mutex> l(r.comp_mutex);
    id.comp = r.next_comp++;
  }
  hpx_shim::rt().cnt.components.fetch_add(1, std::memory_order_relaxed);
  hpx_shim::tls() = saved;
  return id;
}
template <typename T> struct new_result;
template <typename S> struct new_result<components::client<S>> {
  typedef components::client<S> type;
  template <typename... A>
  static type create(const id_type &where, A &&...a) {
    return type(create_component<S>(where.locality, std::forward<A>(a)...));
  }
};
} // namespace detail

class default_distribution_policy {
public:
  std::vector<id_type> ids;
  default_distribution_policy() {}
  explicit default_distribution_policy(std::vector<id_type> i) : ids(std::move(i)) {}
  std::vector<id_type> places(std::size_t count) const {
    // block-wise, like HPX's bulk_create: ceil(count / n) first
    std::vector<id_type> l = ids.empty() ? std::vector<id_type>{find_here()} : ids;
    std::vector<id_type> out;
    std::size_t n = l.size();
    std::size_t per = count / n, rest = count % n;
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t k = 0; k < per + (i < rest ? 1 : 0); k++)
        out.push_back(l[i]);
    return out;
  }
};
inline default_distribution_policy default_layout(std::vector<id_type> ids) {
  return default_distribution_policy(std::move(ids));
}
inline default_distribution_policy default_layout(id_type id) {
  return default_distribution_policy(std::vector<id_type>{id});
}
inline default_distribution_policy default_layout() {
  return default_distribution_policy();
}

namespace detail {
template <typename S> struct new_result<components::client<S>[]> {
  typedef future<std::vector<components::client<S>>> type;
  template <typename... A>
  static type create(const default_distribution_policy &p, std::size_t count,
                     A &&...a) {
    std::vector<components::client<S>> v;
    for (auto &w : p.places(count))
      v.push_back(components::client<S>(create_component<S>(w.locality, a...)));
    return make_ready_future(std::move(v));
  }
  template <typename... A>
  static type create(const id_type &where, std::size_t count, A &&...a) {
    std::vector<components::client<S>> v;
    for (std::size_t i = 0; i < count; i++)
      v.push_back(
          components::client<S>(create_component<S>(where.locality, a...)));
    return make_ready_future(std::move(v));
  }
};
} // namespace detail

template <typename T, typename... A>
typename detail::new_result<T>::type new_(A &&...a) {
  return detail::new_result<T>::create(std::forward<A>(a)...);
}

// ---------------------------------------------------------------- actions
namespace actions {
template <typename M, M m> struct member_action;
template <typename C, typename R, typename... P, R (C::*m)(P...)>
struct member_action<R (C::*)(P...), m> {
  typedef R result_type;
  typedef std::tuple<typename std::decay<P>::type...> args_type;
  template <std::size_t... I>
  static R call(C &c, args_type &a, std::index_sequence<I...>) {
    return (c.*m)(std::forward<P>(std::get<I>(a))...);
  }
  static R invoke(void *c, args_type &a) {
    return call(*static_cast<C *>(c), a, std::index_sequence_for<P...>());
  }
};
template <typename C, typename R, typename... P, R (C::*m)(P...) const>
struct member_action<R (C::*)(P...) const, m> {
  typedef R result_type;
  typedef std::tuple<typename std::decay<P>::type...> args_type;
  template <std::size_t... I>
  static R call(const C &c, args_type &a, std::index_sequence<I...>) {
    return (c.*m)(std::forward<P>(std::get<I>(a))...);
  }
  static R invoke(void *c, args_type &a) {
    return call(*static_cast<const C *>(c), a, std::index_sequence_for<P...>());
  }
};
} // namespace actions

namespace detail {
template <typename T>
typename std::enable_if<std::is_integral<T>::value>::type
push_arg(std::vector<std::uint64_t> &v, const T &t) {
  v.push_back((std::uint64_t)t);
}
template <typename T>
typename std::enable_if<!std::is_integral<T>::value>::type
push_arg(std::vector<std::uint64_t> &, const T &) {}
template <typename Tup, std::size_t... I>
void push_args(std::vector<std::uint64_t> &v, const Tup &t,
               std::index_sequence<I...>) {
  int d[] = {0, (push_arg(v, std::get<I>(t)), 0)...};
  (void)d;
}
template <typename R> struct faults {
  static bool standin(const hpx_shim::action_call &, R &) { return false; }
  static void corrupt(const hpx_shim::action_call &, R &) {}
};
template <> struct faults<std::vector<double>> {
  static bool standin(const hpx_shim::action_call &c, std::vector<double> &o) {
    auto &s = hpx_shim::rt().cfg.standin;
    return s && s(c, o);
  }
  static void corrupt(const hpx_shim::action_call &c, std::vector<double> &o) {
    auto &s = hpx_shim::rt().cfg.corrupt;
    if (s)
      s(c, o);
  }
};
template <typename Action, typename R> struct run_action {
  static R run(void *obj, typename Action::args_type &args,
               const hpx_shim::action_call &c) {
    R r;
    if (!c.name.empty() && !c.from_action)
      hpx_shim::maybe_sleep();
    hpx_shim::maybe_fail(hpx_shim::config::action_before);
    if (!faults<R>::standin(c, r))
      r = Action::invoke(obj, args);
    faults<R>::corrupt(c, r);
    hpx_shim::maybe_fail(hpx_shim::config::action_after);
    return r;
  }
};
template <typename Action> struct run_action<Action, void> {
  static void run(void *obj, typename Action::args_type &args,
                  const hpx_shim::action_call &) {
    hpx_shim::maybe_fail(hpx_shim::config::action_before);
    Action::invoke(obj, args);
    hpx_shim::maybe_fail(hpx_shim::config::action_after);
  }
};
template <typename Action, typename... A>
future<typename Action::result_type> async_action(const id_type &id, A &&...a) {
  typedef typename Action::result_type R;
  typedef typename Action::args_type args_type;
  if (!id.obj)
    throw std::runtime_error("hpx-shim: action on an id without component");
  auto args = std::make_shared<args_type>(std::forward<A>(a)...);
  auto call = std::make_shared<hpx_shim::action_call>();
  hpx_shim::runtime &r = hpx_shim::rt();
  if (r.cfg.trace || r.cfg.standin || r.cfg.corrupt || r.cfg.slow_ms) {
    call->name = Action::shim_name();
    call->target_locality = id.locality;
    call->from_locality = hpx_shim::tls().locality;
    call->from_action = hpx_shim::tls().in_action;
    call->component = id.obj.get();
    push_args(call->args, *args,
              std::make_index_sequence<std::tuple_size<args_type>::value>());
    if (r.cfg.trace) {
      std::lock_guard<std::mutex> l(r.trace_mutex);
      r.trace.push_back(*call);
    }
  }
  auto s = std::make_shared<hpx_shim::shared_state<R>>();
  std::shared_ptr<void> obj = id.obj;
  hpx_shim::spawn(
      [s, obj, args, call]() {
        bool saved = hpx_shim::tls().in_action;
        hpx_shim::tls().in_action = true;
        hpx_shim::fulfil<R>(*s, [&]() -> R {
          return run_action<Action, R>::run(obj.get(), *args, *call);
        });
        hpx_shim::tls().in_action = saved;
      },
      id.locality);
  return future<R>(s);
}
} // namespace detail

template <typename Action, typename... A>
auto async(const id_type &id, A &&...a)
    -> future<typename Action::result_type> {
  return detail::async_action<Action>(id, std::forward<A>(a)...);
}
namespace detail { // both run on the thread that asks for the result
inline void set_policy(launch l) {
  hpx_shim::tls().run_now = l.v == launch_t::sync || l.v == launch_t::deferred;
}
} // namespace detail
template <typename Action, typename... A>
auto async(launch l, const id_type &id, A &&...a)
    -> future<typename Action::result_type> {
  detail::set_policy(l);
  return detail::async_action<Action>(id, std::forward<A>(a)...);
}
template <typename Action, typename S, typename... A>
auto async(const components::client<S> &c, A &&...a)
    -> future<typename Action::result_type> {
  return detail::async_action<Action>(c.get_id(), std::forward<A>(a)...);
}
template <typename Action, typename... A>
auto sync(const id_type &id, A &&...a) -> typename Action::result_type {
  return detail::async_action<Action>(id, std::forward<A>(a)...).get();
}

namespace detail {
template <typename F, typename... A> struct call_result {
  typedef decltype(std::declval<typename std::decay<F>::type &>()(
      std::declval<typename std::decay<A>::type &>()...)) type;
};
template <typename Fn, typename Tup, std::size_t... I>
auto apply_tuple(Fn &f, Tup &t, std::index_sequence<I...>)
    -> decltype(f(std::get<I>(t)...)) {
  return f(std::get<I>(t)...);
}
} // namespace detail
template <typename F, typename... A>
typename std::enable_if<!std::is_same<typename std::decay<F>::type, launch>::value &&
                            !std::is_same<typename std::decay<F>::type, id_type>::value,
                        future<typename detail::call_result<F, A...>::type>>::type
async(F &&f, A &&...a) {
  typedef typename detail::call_result<F, A...>::type R;
  auto s = std::make_shared<hpx_shim::shared_state<R>>();
  auto fp = std::make_shared<typename std::decay<F>::type>(std::forward<F>(f));
  auto args =
      std::make_shared<std::tuple<typename std::decay<A>::type...>>(std::forward<A>(a)...);
  hpx_shim::spawn(
      [s, fp, args]() {
        hpx_shim::fulfil<R>(*s, [&]() -> R {
          return detail::apply_tuple(
              *fp, *args, std::index_sequence_for<A...>());
        });
      },
      hpx_shim::tls().locality);
  return future<R>(s);
}
template <typename F, typename... A>
auto async(launch l, F &&f, A &&...a)
    -> decltype(async(std::forward<F>(f), std::forward<A>(a)...)) {
  detail::set_policy(l);
  return async(std::forward<F>(f), std::forward<A>(a)...);
}
template <typename F, typename... A> void apply(F &&f, A &&...a) {
  async(std::forward<F>(f), std::forward<A>(a)...);
}

// ---------------------------------------------------------------- util
namespace util {
namespace detail {
template <typename T> struct unwrap_one {
  static T &&get(T &t) { return std::move(t); }
};
template <typename F, typename X> struct unwrap_call;
template <typename F, typename T> struct unwrap_call<F, future<T>> {
  typedef decltype(std::declval<F &>()(std::declval<T>())) type;
  static type go(F &f, future<T> &x) { return f(x.get()); }
};
template <typename F> struct unwrap_call<F, future<void>> {
  typedef decltype(std::declval<F &>()()) type;
  static type go(F &f, future<void> &x) {
    x.get();
    return f();
  }
};
template <typename F> struct unwrapped_fn {
  F f;
  template <typename T>
  typename unwrap_call<F, future<T>>::type operator()(future<T> x) {
    return unwrap_call<F, future<T>>::go(f, x);
  }
};
} // namespace detail
template <typename F>
detail::unwrapped_fn<typename std::decay<F>::type> unwrapped(F &&f) {
  return detail::unwrapped_fn<typename std::decay<F>::type>{std::forward<F>(f)};
}
template <typename F>
detail::unwrapped_fn<typename std::decay<F>::type> unwrapping(F &&f) {
  return detail::unwrapped_fn<typename std::decay<F>::type>{std::forward<F>(f)};
}
class high_resolution_timer {
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();

public:
  void restart() { t0 = std::chrono::steady_clock::now(); }
  double elapsed() const {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
        .count();
  }
  double now() const {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
  }
  std::int64_t elapsed_microseconds() const { return static_cast<std::int64_t>(elapsed() * 1e6); }
  std::int64_t elapsed_nanoseconds() const { return static_cast<std::int64_t>(elapsed() * 1e9); }
};
struct high_resolution_clock {
  static std::uint64_t now() {
    return static_cast<std::uint64_t>(std::chrono::duration_cast<std::chrono::nanoseconds>(
        std::chrono::steady_clock::now().time_since_epoch()).count());
  }
};
class iterator_core_access {
public:
  template <typename I> static auto dereference(const I &i) -> decltype(i.dereference()) {
    return i.dereference();
  }
  template <typename I> static void increment(I &i) { i.increment(); }
  template <typename I> static void decrement(I &i) { i.decrement(); }
  template <typename I> static bool equal(const I &a, const I &b) { return a.equal(b); }
  template <typename I, typename D> static void advance(I &i, D n) { i.advance(n); }
  template <typename I> static std::ptrdiff_t distance_to(const I &a, const I &b) {
    return a.distance_to(b);
  }
};
template <typename Derived, typename T, typename Category, typename Reference = T &,
          typename Distance = std::ptrdiff_t, typename Pointer = void>
class iterator_facade {
  Derived &self() { return static_cast<Derived &>(*this); }
  const Derived &self() const { return static_cast<const Derived &>(*this); }

public:
  typedef typename std::remove_const<T>::type value_type;
  typedef Reference reference;
  typedef typename std::remove_reference<Reference>::type *pointer;
  typedef Distance difference_type;
  typedef Category iterator_category;
  reference operator*() const { return iterator_core_access::dereference(self()); }
  pointer operator->() const { return &iterator_core_access::dereference(self()); }
  Derived &operator++() {
    iterator_core_access::increment(self());
    return self();
  }
  Derived operator++(int) {
    Derived t(self());
    ++*this;
    return t;
  }
  Derived &operator--() {
    iterator_core_access::decrement(self());
    return self();
  }
  friend bool operator==(const Derived &a, const Derived &b) {
    return iterator_core_access::equal(a, b);
  }
  friend bool operator!=(const Derived &a, const Derived &b) {
    return !iterator_core_access::equal(a, b);
  }
};
} // namespace util

// ---------------------------------------------------------------- locks
namespace lcos {
namespace local {
typedef std::mutex mutex;
typedef std::mutex spinlock;
typedef std::mutex no_mutex;
} // namespace local
} // namespace lcos
typedef std::mutex mutex;
typedef std::mutex spinlock;

// ---------------------------------------------------------------- loops
namespace parallel {
struct sequenced_policy {
  static const bool par = false;
  template <typename... X> sequenced_policy with(X &&...) const { return *this; }
};
struct parallel_policy {
  static const bool par = true;
  template <typename... X> parallel_policy with(X &&...) const { return *this; }
};
struct vector_policy : parallel_policy {};
static const sequenced_policy seq{};
static const parallel_policy par{};
static const parallel_policy par_vec{};
typedef sequenced_policy sequential_execution_policy;
typedef parallel_policy parallel_execution_policy;
namespace execution {
static const sequenced_policy seq{};
static const parallel_policy par{};
static const parallel_policy par_unseq{};
} // namespace execution
struct static_chunk_size {
  explicit static_chunk_size(std::size_t = 0) {}
};
struct dynamic_chunk_size {
  explicit dynamic_chunk_size(std::size_t = 0) {}
};
struct auto_chunk_size {};

namespace detail {
// body(it_state&) runs one item and advances; State is copyable
template <typename State, typename Body, typename Next>
void run_loop(bool par, State st, std::size_t count, Body body, Next next) {
  using namespace hpx_shim;
  runtime &r = rt();
  tls_data &d = tls();
  r.cnt.loops.fetch_add(1, std::memory_order_relaxed);
  r.cnt.loop_items.fetch_add(count, std::memory_order_relaxed);
  std::int64_t skip = -1;
  if (r.cfg.skip_loop >= 0 && d.loop_depth == 0) {
    std::uint64_t me = r.next_loop.fetch_add(1, std::memory_order_relaxed);
    if ((std::int64_t)me == r.cfg.skip_loop && count)
      skip = (std::int64_t)(r.cfg.skip_item % count), std::fprintf(stderr, "HPX_SHIM_FAULT applied\n");
  }
  if (d.loop_depth == 0 && !d.in_action)
    maybe_sleep();
  d.loop_depth++;
  struct depth_guard {
    ~depth_guard() { hpx_shim::tls().loop_depth--; }
  } guard;
  if (!par || count < 2) {
    for (std::size_t i = 0; i < count; i++) {
      maybe_fail(config::loop_item);
      if ((std::int64_t)i != skip)
        body(st);
      if (i + 1 < count)
        next(st);
    }
    return;
  }
  // chunk the range; a chunk owns a copy of the iterator at its start
  struct chunk {
    State st;
    std::size_t begin, n;
  };
  std::size_t max_chunk =
      std::max<std::size_t>(1, count / (1 + rnd() % (2 * r.cfg.threads + 1)));
  if (rnd() % 3 == 0 && count <= 4096)
    max_chunk = 1;
  std::vector<chunk> chunks;
  for (std::size_t i = 0; i < count;) {
    std::size_t n = 1 + rnd() % max_chunk;
    n = std::min(n, count - i);
    chunks.push_back(chunk{st, i, n});
    i += n;
    if (i < count)
      for (std::size_t k = 0; k < n; k++)
        next(st);
  }
  r.cnt.loop_chunks.fetch_add(chunks.size(), std::memory_order_relaxed);
  auto run_chunk = [&](chunk &c) {
    for (std::size_t k = 0; k < c.n; k++) {
      maybe_fail(config::loop_item);
      if ((std::int64_t)(c.begin + k) != skip)
        body(c.st);
      if (k + 1 < c.n)
        next(c.st);
    }
  };
  // random execution order of the chunks
  for (std::size_t i = chunks.size(); i > 1; i--)
    std::swap(chunks[i - 1], chunks[rnd() % i]);
  if (path().on) { // every item could run at once
    const double start = path().tick();
    double end = start;
    for (auto &c : chunks)
      for (std::size_t k = 0; k < c.n; k++) {
        path().now = start;
        chunk one{c.st, c.begin + k, 1};
        run_chunk(one);
        if (k + 1 < c.n)
          next(c.st);
        end = std::max(end, path().tick());
      }
    path().now = end;
    return;
  }
  unsigned workers = r.cfg.mode == 1 && d.loop_depth == 1 ? r.cfg.threads : 1;
  if (workers > chunks.size())
    workers = (unsigned)chunks.size();
  if (workers <= 1) {
    for (auto &c : chunks)
      run_chunk(c);
    return;
  }
  std::vector<std::thread> th;
  th.reserve(workers);
  std::vector<std::exception_ptr> ex(workers);
  std::uint32_t loc = d.locality;
  bool in_action = d.in_action;
  std::uint64_t base = rnd();
  std::atomic<unsigned> gate(0);
  for (unsigned w = 0; w < workers; w++)
    th.emplace_back([&, w]() {
      tls().locality = loc;
      tls().in_action = in_action;
      tls().loop_depth = 1;
      tls().rng = mix(base + w);
      // start together: maximal overlap (relaxed: no happens-before edges)
      gate.fetch_add(1, std::memory_order_relaxed);
      for (int i = 0; i < 2000 && gate.load(std::memory_order_relaxed) < workers; i++)
        std::this_thread::yield();
      try {
        for (std::size_t c = w; c < chunks.size(); c += workers) {
          maybe_delay();
          run_chunk(chunks[c]);
        }
      } catch (...) {
        ex[w] = std::current_exception();
      }
    });
  for (auto &t : th)
    t.join();
  for (auto &e : ex)
    if (e)
      std::rethrow_exception(e);
}
} // namespace detail

template <typename P, typename It, typename Size, typename F>
It for_each_n(P const &, It first, Size count, F f) {
  detail::run_loop(
      P::par, first, (std::size_t)count, [&f](It &it) { f(*it); },
      [](It &it) { ++it; });
  return first;
}
template <typename P, typename It, typename F>
It for_each(P const &, It first, It last, F f) {
  std::size_t count = 0;
  for (It i = first; i != last; ++i)
    count++;
  detail::run_loop(
      P::par, first, count, [&f](It &it) { f(*it); }, [](It &it) { ++it; });
  return last;
}
template <typename P, typename It, typename T>
void fill(P const &p, It first, It last, T const &v) {
  for_each(p, first, last, [&v](decltype(*first) x) { x = v; });
}
template <typename P, typename It, typename F>
void generate(P const &p, It first, It last, F f) {
  for_each(p, first, last, [&f](decltype(*first) x) { x = f(); });
}
template <typename P, typename It, typename Out, typename F>
Out transform(P const &, It first, It last, Out out, F f) {
  std::size_t count = (std::size_t)std::distance(first, last);
  std::pair<It, Out> st(first, out);
  detail::run_loop(
      P::par, st, count, [&f](std::pair<It, Out> &s) { *s.second = f(*s.first); },
      [](std::pair<It, Out> &s) { ++s.first, ++s.second; });
  return std::next(out, count);
}
template <typename P, typename It, typename Out>
Out copy(P const &p, It first, It last, Out out) {
  return transform(p, first, last, out, [](decltype(*first) x) { return x; });
}
template <typename P, typename I, typename J, typename F>
void for_loop(P const &, I first, J last, F f) {
  typedef typename std::common_type<I, J>::type T;
  T b = (T)first, e = (T)last;
  std::size_t count = b < e ? (std::size_t)(e - b) : 0;
  detail::run_loop(
      P::par, b, count, [&f](T &i) { f(i); }, [](T &i) { ++i; });
}
template <typename P, typename I, typename Size, typename F>
void for_loop_n(P const &, I first, Size n, F f) {
  detail::run_loop(
      P::par, first, (std::size_t)n, [&f](I &i) { f(i); }, [](I &i) { ++i; });
}
} // namespace parallel

// ---------------------------------------------------------------- console
struct flush_tag {};
static const flush_tag flush{};
struct endl_tag {};
static const endl_tag endl{};
class console_stream {
  static std::ostringstream &buf() {
    static thread_local std::ostringstream b;
    return b;
  }

public:
  template <typename T> console_stream &operator<<(const T &t) {
    buf() << t;
    return *this;
  }
  console_stream &operator<<(std::ostream &(*m)(std::ostream &)) {
    buf() << m;
    return *this;
  }
  console_stream &operator<<(std::ios_base &(*m)(std::ios_base &)) {
    buf() << m;
    return *this;
  }
  console_stream &operator<<(const endl_tag &) {
    buf() << '\n';
    return *this << flush_tag();
  }
  console_stream &operator<<(const flush_tag &) {
    hpx_shim::runtime &r = hpx_shim::rt();
    std::lock_guard<std::mutex> l(r.console_mutex);
    std::ostream &o = r.cfg.console ? *r.cfg.console : std::cout;
    o << buf().str();
    o.flush();
    buf().str("");
    return *this;
  }
  void flush() { *this << flush_tag(); }
};
static console_stream cout;
static console_stream cerr;

namespace this_thread {
inline void yield() { std::this_thread::yield(); }
} // namespace this_thread

// ---------------------------------------------------------------- start-up
inline int finalize() { return 0; }
inline int disconnect() { return 0; }
} // namespace hpx

int hpx_main(boost::program_options::variables_map &vm);
int hpx_main(int argc, char **argv);

namespace hpx_shim {
inline std::uint64_t env_u64(const char *n, std::uint64_t def) {
  const char *v = std::getenv(n);
  return v && *v ? std::strtoull(v, nullptr, 10) : def;
}
// HPX_SHIM_* environment variables configure a stand-alone program
inline config env_config() {
  config c;
  c.mode = (int)env_u64("HPX_SHIM_MODE", 1);
  c.localities = (std::uint32_t)env_u64("HPX_SHIM_LOCALITIES", 1);
  c.threads = (unsigned)env_u64("HPX_SHIM_THREADS", 4);
  c.seed = env_u64("HPX_SHIM_SEED", 1);
  c.max_delay_us = (unsigned)env_u64("HPX_SHIM_DELAY", 0);
  c.slow_ms = (unsigned)env_u64("HPX_SHIM_SLOW", 0);
  c.print_trace = c.trace = env_u64("HPX_SHIM_TRACE", 0) != 0;
  if (const char *f = std::getenv("HPX_SHIM_FAULT")) {
    // action:<call index>:<kind>:<position>   loop:<loop>:<item>
    std::string s(f);
    std::vector<std::string> p;
    std::stringstream ss(s);
    for (std::string x; std::getline(ss, x, ':');)
      p.push_back(x);
    if (p.size() == 4 && p[0] == "action") {
      auto left = std::make_shared<std::atomic<std::int64_t>>(std::stoll(p[1]));
      std::string kind = p[2];
      std::uint64_t pos = std::stoull(p[3]);
      c.corrupt = [left, kind, pos](const action_call &, std::vector<double> &v) {
        if (v.empty() || left->fetch_sub(1) != 0)
          return;
        double &x = v[pos % v.size()];
        if (kind == "nan")
          x = std::nan("");
        else if (kind == "neg")
          x = -x - 1.0;
        else if (kind == "short")
          v.resize(v.size() - 1);
        else
          x += std::stod(kind);
        std::fprintf(stderr, "HPX_SHIM_FAULT applied\n");
      };
    } else if (p.size() == 3 && p[0] == "loop") {
      c.skip_loop = std::stoll(p[1]);
      c.skip_item = std::stoull(p[2]);
    } else if (p.size() == 3 && p[0] == "throw") { // throw:<what>:<which>
      c.fault = p[1] == "action" ? config::action_before : p[1] == "after" ? config::action_after
              : p[1] == "continuation" ? config::continuation : config::loop_item;
      c.fault_at = std::stoll(p[2]);
      c.announce = true;
    }
  }
  return c;
}
inline int guarded(const std::function<int()> &f) {
  try {
    int r = f();
    while (det_step()) {
    }
    wait_threads();
    if (rt().cfg.slow_ms)
      std::fprintf(stderr, "HPX_SHIM_SLEPT %llu\n", (unsigned long long)rt().slept.load());
    if (rt().cfg.print_trace)
      for (auto &a : rt().trace) {
        std::fprintf(stderr, "HPX_SHIM_TRACE %s %u %d", a.name.c_str(), a.target_locality, (int)a.from_action);
        for (auto v : a.args)
          std::fprintf(stderr, " %llu", (unsigned long long)v);
        std::fprintf(stderr, "\n");
      }
    return r;
  } catch (const std::exception &e) {
    // HPX reports an exception escaping hpx_main and terminates the program
    std::cout.flush();
    std::fflush(stdout);
    std::fprintf(stderr, "{what}: %s\nhpx-shim: terminating\n", e.what());
    std::fflush(stderr);
    std::_Exit(134);
  }
}
} // namespace hpx_shim

namespace hpx {
inline int init(boost::program_options::options_description const &desc, int argc,
                char **argv) {
  namespace po = boost::program_options;
  hpx_shim::reset(hpx_shim::env_config());
  po::variables_map vm;
  try {
    po::store(po::command_line_parser(argc, argv)
                  .options(desc)
                  .allow_unregistered()
                  .run(),
              vm);
    po::notify(vm);
  } catch (const std::exception &e) {
    std::fprintf(stderr, "hpx::init: command line: %s\n", e.what());
    return -1;
  }
  return hpx_shim::guarded([&] { return hpx_main(vm); });
}
inline int init(int argc, char **argv) {
  hpx_shim::reset(hpx_shim::env_config());
  return hpx_shim::guarded([&] { return hpx_main(argc, argv); });
}
inline bool start(int argc, char **argv) {
  hpx_shim::reset(hpx_shim::env_config());
  hpx_shim::guarded([&] { return hpx_main(argc, argv); });
  return true;
}
template <typename F> bool start(F f, int argc, char **argv) {
  hpx_shim::reset(hpx_shim::env_config());
  hpx_shim::guarded([&] { return f(argc, argv); });
  return true;
}
inline int stop() {
  hpx_shim::wait_threads();
  return 0;
}
} // namespace hpx

#define HPX_SHIM_NOTHING static_assert(true, "")
#define HPX_REGISTER_COMPONENT(...) HPX_SHIM_NOTHING
#define HPX_REGISTER_COMPONENT_MODULE() HPX_SHIM_NOTHING
#define HPX_REGISTER_MINIMAL_COMPONENT_FACTORY(...) HPX_SHIM_NOTHING
#define HPX_REGISTER_ACTION(...) HPX_SHIM_NOTHING
#define HPX_REGISTER_ACTION_DECLARATION(...) HPX_SHIM_NOTHING
#define HPX_DEFINE_COMPONENT_ACTION_3(C, f, A)                                 \
  struct A : ::hpx::actions::member_action<decltype(&C::f), &C::f> {           \
    static const char *shim_name() { return #f; }                              \
  }
#define HPX_DEFINE_COMPONENT_ACTION_2(C, f)                                    \
  HPX_DEFINE_COMPONENT_ACTION_3(C, f, f##_action)
#define HPX_SHIM_PICK(a, b, c, N, ...) N
#define HPX_DEFINE_COMPONENT_ACTION(...)                                       \
  HPX_SHIM_PICK(__VA_ARGS__, HPX_DEFINE_COMPONENT_ACTION_3,                    \
                HPX_DEFINE_COMPONENT_ACTION_2, 0)                              \
  (__VA_ARGS__)
