// P25: a part that fails (a task, a continuation, an iteration of a loop, an
// allocation) never goes unnoticed
#include "prelude.hpp"
#include "common.hpp"
#include <atomic>
#include <new>
#ifdef F_VARIANTS
#include "variants/algorithms.hpp"
#include "variants/combined.hpp"
#include "variants/looped.hpp"
#include "variants/pseudodynamic.hpp"
#include "variants/semi.hpp"
#include "variants/single.hpp"
#else
#include "memory_layout/tile_array.hpp"
#include "reference_kernels/kernel.hpp"
#include "reference_kernels/kernel_tiled.hpp"
#include "reference_kernels/naive.hpp"
#include "util/create_identity_matrix.hpp"
#include "util/create_random_matrix.hpp"
#include "util/pattern_matrices.hpp"
#include "util/transpose_matrix.hpp"
#endif

// ------------------------------------------------------ allocations that fail
namespace {
std::atomic<bool> armed{false}, persistent{false};
std::atomic<long> left{0};
std::atomic<std::uint64_t> refused{0}, asked{0};
std::size_t at_least = 1;
bool refuse(std::size_t n) {
  if (!armed.load(std::memory_order_relaxed) || n < at_least)
    return false;
  asked.fetch_add(1, std::memory_order_relaxed);
  long l = left.fetch_sub(1, std::memory_order_relaxed);
  if (l == 0 || (l < 0 && persistent.load(std::memory_order_relaxed))) {
    refused.fetch_add(1, std::memory_order_relaxed);
    return true;
  }
  return false;
}
struct arm {
  arm(long k, bool all, std::size_t least) {
    refused = 0;
    asked = 0;
    left = k;
    persistent = all;
    at_least = least;
    armed = true;
  }
  ~arm() { armed = false; }
};
void *get(std::size_t n) {
  if (refuse(n))
    throw std::bad_alloc();
  void *p = std::malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
} // namespace
void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return refuse(n) ? nullptr : std::malloc(n ? n : 1); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return refuse(n) ? nullptr : std::malloc(n ? n : 1); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
// boost's aligned allocator ends here: the repository's sources are compiled
// with posix_memalign renamed
#undef posix_memalign
extern "C" int posix_memalign(void **, std::size_t, std::size_t) noexcept;
extern "C" int failing_posix_memalign(void **p, std::size_t a, std::size_t n) noexcept {
  if (refuse(n))
    return 12;
  return posix_memalign(p, a, n);
}

static std::string name;
static const char *fault_name;

// what became of an operation in which something was made to fail
// fired: something did fail; thrown: an exception arrived
static void outcome(bool fired, bool thrown, bool right, const std::string &how) {
  mon::observed(1);
  if (!fired) {
    mon::count("fault_not_reached");
    if (thrown)
      mon::fail(name + ":spurious", "an exception although nothing failed");
    else if (!right)
      mon::fail(name + ":value", "a wrong result although nothing failed");
    return;
  }
  mon::count("faults_fired");
  mon::count(fault_name);
  if (thrown)
    mon::count("reported_by_exception");
  else if (right)
    mon::count("recovered");
  else
    mon::fail(name + ":silent", how + " failed, no exception arrived and the result is wrong");
}

#ifdef F_VARIANTS
static std::size_t N, br, bi, minw, maxd;
static bool tr;
static std::uint64_t R;

template <typename F> static void with_object(std::vector<double> &A, std::vector<double> &B, F f) {
  double d = 0;
  if (name == "single") {
    single::single m(N, A, B, tr, br, bi, R, 0);
    f([&] { return m.matrix_multiply(); });
  } else if (name == "pseudodynamic") {
    pseudodynamic::pseudodynamic m(N, A, B, tr, br, bi, minw, maxd, 0.0, R, 0);
    f([&] { return m.matrix_multiply(); });
  } else if (name == "combined") {
    combined::combined m(N, A, B, R, 0);
    f([&] { return m.matrix_multiply(d); });
  } else if (name == "algorithms") {
    algorithms::algorithms m(N, A, B, bi, br);
    f([&] { return m.matrix_multiply(); });
  } else if (name == "looped") {
    looped::looped m(N, A, B, br, bi);
    f([&] { return m.matrix_multiply(); });
  } else {
    semi::semi m(N, A, B, br, bi);
    f([&] { return m.matrix_multiply(); });
  }
}

void run_case(std::uint64_t idx, mon::rng &r) {
  static const char *names[] = {"single", "pseudodynamic", "single", "pseudodynamic", "algorithms", "looped",
                                "single", "pseudodynamic", "semi",   "combined"};
  name = names[idx % 10];
  if (name == "combined" && idx % 40 != 9)
    name = "pseudodynamic";
  bool halves = name == "single" || name == "pseudodynamic";
  std::uint32_t loc = 1;
  tr = true;
  minw = maxd = 0;
  R = 1;
  if (halves) {
    std::size_t leaf = r.chance(1, 2) ? r.in(1, 6) : r.in(8, 12);
    N = leaf << r.in(0, 3);
    br = r.chance(1, 5) ? 0 : leaf;
    bi = r.in(0, N + 2);
    tr = r.chance(1, 2);
    R = r.chance(1, 3) ? r.in(2, 4) : 1;
    if (name == "pseudodynamic") {
      loc = (std::uint32_t)r.in(1, 6);
      minw = r.in(std::max<std::size_t>(1, N / 8), N);
      maxd = r.in(0, N);
    }
  } else if (name == "combined") {
    static const std::vector<std::size_t> edge = {1, 17, 64, 70, 100, 150};
    N = r.pick(edge);
    tr = false;
    R = r.in(1, 2);
  } else {
    N = r.in(1, 40);
    br = r.in(0, N + 3);
    bi = r.in(1, N + 3);
  }
  int kind = pick_kind(r);
  std::uint64_t seed = r.next();
  hpx_shim::config cfg = random_env(r, loc);
  enum { memory = 100 };
  int fault;
  if (halves) {
    static const int f[] = {hpx_shim::config::action_before, hpx_shim::config::action_after,
                            hpx_shim::config::continuation, hpx_shim::config::action_before, memory};
    fault = f[r.next() % 5];
  } else
    fault = r.chance(2, 3) ? (int)hpx_shim::config::loop_item : (int)memory;
  static const char *fn[] = {"", "an action (before it ran)", "an action (after it ran)", "a continuation",
                             "an item of a parallel loop"};
  fault_name = fault == memory ? "an allocation" : fn[fault];
  // early, anywhere in the run, or around the last one
  std::size_t leaves = halves && br ? (N / br) * (N / br) : 1;
  std::int64_t k;
  if (fault == memory)
    k = r.chance(1, 2) ? r.in(0, 8) : r.in(0, 6 + 3 * leaves * R);
  else if (halves)
    k = r.chance(1, 2) ? r.in(0, 6) : r.in(0, 3 * leaves * R);
  else
    k = r.chance(1, 2) ? r.in(0, 6) : r.in(0, N * N);
  if (halves && fault == memory) {
    // matrices and blocks are refused, the bookkeeping of the runtime is not
    std::size_t leaf = r.in(16, 20);
    N = leaf << r.in(0, 2);
    br = r.chance(1, 5) ? 0 : leaf;
    minw = r.in(std::max<std::size_t>(1, N / 4), N);
    R = r.in(1, 2);
    leaves = br ? (N / br) * (N / br) : 1;
    k = r.chance(1, 2) ? r.in(0, 8) : r.in(0, 6 + 3 * leaves * R);
  }
  bool all = r.chance(1, 3);
  bool twice = r.chance(1, 2); // the same object is asked again afterwards
  if (halves)
    twice = false; // an object belongs to one run of the runtime
  mon::current(mon::fmt("%s N=%zu block_result=%zu block_input=%zu transposed=%d repetitions=%llu min_work=%zu "
                        "max_diff=%zu content=%d/%llu; fault: %s number %lld%s ",
                        name.c_str(), N, br, bi, tr, (unsigned long long)R, minw, maxd, kind, (unsigned long long)seed,
                        fault_name, (long long)k, fault == memory && all ? " and all after it" : "") +
               env_desc(cfg));
  operands o(N, kind, seed);
  std::vector<double> A = o.A, B = tr ? o.Bt : o.B, C;
  omp_threads(cfg.threads, seed);
  hpx_shim::config bad = cfg;
  if (fault == memory) {
    if (r.chance(1, 2))
      bad.mode = 0;
  } else {
    bad.fault = fault;
    bad.fault_at = k;
  }
  hpx_shim::reset(bad);
  bool thrown = false, fired = false;
  try {
    auto go = [&](std::function<std::vector<double>()> call) {
      if (fault == memory) {
        arm a(k, all, halves ? 2000 : 400);
        try {
          C = call();
        } catch (...) {
          thrown = true;
        }
        fired = refused != 0;
      } else {
        try {
          C = call();
        } catch (const hpx_shim::injected &) {
          thrown = true;
        } catch (...) {
          thrown = true;
        }
        fired = hpx_shim::rt().faults_fired != 0;
      }
      hpx_shim::wait_threads();
      bool right = !thrown && C.size() == N * N && oracle::compare(o.ref, C.data(), N).empty();
      outcome(fired, thrown, right, fault_name);
      if (twice && !mon::failed()) {
        hpx_shim::reset(cfg);
        judge(o, call(), A, B, tr, (name + ":same object afterwards").c_str());
        mon::count("same_object_afterwards");
      }
    };
    with_object(A, B, go);
  } catch (const std::exception &e) {
    mon::fail(name + ":afterwards", std::string("an exception outside the failing call: ") + e.what());
  }
  if (!same_bits(A, o.A) || !same_bits(B, tr ? o.Bt : o.B))
    mon::fail(name + ":operand", "an operand was modified by a failing multiplication");
  if (!mon::failed()) {
    hpx_shim::reset(cfg);
    with_object(A, B, [&](std::function<std::vector<double>()> call) {
      judge(o, call(), A, B, tr, (name + ":new object afterwards").c_str());
    });
  }
  hpx_shim::reset(cfg);
  env_stats();
  mon::count(name.c_str());
  mon::maxi("fault_position", k);
  mon::distinct(mon::h(mon::h(N, br), mon::h(mon::h(bi, fault), mon::h(k, mon::h(idx % 10, loc)))));
  mon::sample(mon::fmt("%s N=%zu: %s number %lld, %s", name.c_str(), N, fault_name, (long long)k,
                       !fired ? "not reached" : thrown ? "exception" : "recovered"));
}
#else
// parts that need no runtime: every allocation of an operation fails once
template <typename F, typename G, typename H> static void exhaust(std::size_t least, F op, G right, H intact) {
  for (long k = 0; k < 4000; k++) {
    for (int all = 0; all < 2; all++) {
      bool thrown = false;
      bool fired;
      {
        arm a(k, all, least);
        try {
          op();
        } catch (const std::bad_alloc &) {
          thrown = true;
        } catch (const std::exception &) {
          thrown = true;
        }
        fired = refused != 0;
      }
      bool ok = !thrown && right();
      outcome(fired, thrown, ok, "allocation " + std::to_string(k));
      if (!intact())
        mon::fail(name + ":operand", "an argument was modified by a failing operation");
      if (mon::failed())
        return;
      if (!fired) {
        mon::maxi("allocations_in_one_operation", k);
        return; // the operation has no k-th allocation
      }
      op();
      if (!right())
        mon::fail(name + ":afterwards", "the operation gives a wrong result after it failed before");
    }
  }
}

void run_case(std::uint64_t idx, mon::rng &r) {
  static const char *names[] = {"naive", "naive_transposed", "kernel_tiled", "kernel_tiled_object", "tiled", "untiled",
                                "identity", "random", "pattern", "transpose", "kernels"};
  name = names[idx % 11];
  fault_name = "an allocation";
  std::size_t N = name.compare(0, 6, "kernel") == 0 ? r.in(1, 90) : name[0] == 'n' ? r.in(8, 60) : r.in(1, 40);
  int kind = pick_kind(r);
  std::uint64_t seed = r.next();
  unsigned th = (unsigned)r.in(1, 6);
  bool tr = r.chance(1, 2);
  mon::current(mon::fmt("%s N=%zu threads=%u transposed=%d content=%d/%llu", name.c_str(), N, th, tr, kind,
                        (unsigned long long)seed));
  omp_threads(th, seed);
  operands o(N, kind, seed);
  std::vector<double> A = o.A, B = o.B, Bt = o.Bt, C;
  auto intact = [&] { return same_bits(A, o.A) && same_bits(B, o.B) && same_bits(Bt, o.Bt); };
  auto product = [&] { return C.size() == N * N && oracle::compare(o.ref, C.data(), N).empty(); };
  // what the OpenMP runtime allocates is not the repository's
  const std::size_t omp_least = 500;
  if (name == "naive")
    exhaust(omp_least, [&] { C = naive_matrix_multiply<double>(N, A, B); }, product, intact);
  else if (name == "naive_transposed")
    exhaust(omp_least, [&] { C = naive_matrix_multiply_transposed<double>(N, A, Bt); }, product, intact);
  else if (name == "kernel_tiled") {
    std::vector<double> &Bx = tr ? Bt : B;
    exhaust(omp_least, [&] {
      double d = 0;
      kernel_tiled::kernel_tiled m(N, A, Bx, tr, 1, 0);
      C = m.matrix_multiply(d);
    }, product, intact);
  } else if (name == "kernel_tiled_object") {
    std::vector<double> &Bx = tr ? Bt : B;
    kernel_tiled::kernel_tiled m(N, A, Bx, tr, 1, 0);
    exhaust(omp_least, [&] {
      double d = 0;
      C = m.matrix_multiply(d);
    }, product, intact);
  } else if (name == "tiled" || name == "untiled") {
    std::size_t tx = r.in(1, 5), ty = r.in(1, 5), nx = r.in(1, 6), ny = r.in(1, 6);
    std::vector<memory_layout::tiling_info_dim> info;
    info.push_back({tx, tx * nx});
    info.push_back({ty, ty * ny});
    std::vector<double> org(tx * nx * ty * ny), want(org.size());
    for (std::size_t i = 0; i < org.size(); i++)
      org[i] = (double)(i + 1);
    for (std::size_t i = 0; i < tx * nx; i++)
      for (std::size_t j = 0; j < ty * ny; j++)
        want[((i / tx) * ny + j / ty) * tx * ty + (i % tx) * ty + j % ty] = org[i * ty * ny + j];
    const std::vector<double> org0 = org, want0 = want;
    auto kept = [&] { return org == org0 && want == want0; };
    if (name == "tiled")
      exhaust(1, [&] { C = memory_layout::make_tiled<2>(org, info); }, [&] { return C == want0; }, kept);
    else
      exhaust(1, [&] { C = memory_layout::undo_tiling<2>(want, info); }, [&] { return C == org0; }, kept);
  } else if (name == "identity")
    exhaust(1, [&] { C = util::create_identity_matrix<double>(N); }, [&] {
      for (std::size_t i = 0; i < N * N; i++)
        if (C[i] != (i / N == i % N ? 1.0 : 0.0))
          return false;
      return C.size() == N * N;
    }, intact);
  else if (name == "random") {
    std::vector<double> first = util::create_random_matrix<double>(N);
    exhaust(1, [&] { C = util::create_random_matrix<double>(N); }, [&] { return C == first; }, intact);
  } else if (name == "pattern") {
    exhaust(1, [&] { C = util::create_enumerating_matrix<double>(N); }, [&] {
      for (std::size_t i = 0; i < N * N; i++)
        if (C[i] != (double)i)
          return false;
      return C.size() == N * N;
    }, intact);
  } else if (name == "transpose")
    exhaust(1, [&] { C = util::transpose_matrix(N, B); }, [&] { return C == o.Bt; }, intact);
  else {
    std::size_t b = 4 * r.in(1, 4);
    if (N < b)
      N = b; // keep the operands of the order they were made for
    operands q(N, kind, seed);
    std::vector<double> a = q.A, bt = q.Bt, out;
    std::size_t x = r.in(0, N - b), y = r.in(0, N - b), bi = r.in(1, N + 2);
    exhaust(1, [&] {
      out.assign(b * b, 0.0);
      kernel::kernel_transposed_blocked(a, bt, out, N, x, y, b, bi);
    }, [&] { return oracle::compare(q.ref, out.data(), b, x, y, b).empty(); },
    [&] { return same_bits(a, q.A) && same_bits(bt, q.Bt); });
  }
  mon::count(name.c_str());
  mon::maxi("N", N);
  mon::distinct(mon::h(mon::h(N, idx % 11), mon::h(th, tr)));
  mon::sample(mon::fmt("%s N=%zu", name.c_str(), N));
}
#endif
