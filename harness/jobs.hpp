// operations as jobs: parameters, one run, a check of what it returned
#pragma once
#include "prelude.hpp"
#include "common.hpp"
#include <sched.h>

#if defined(C_EXP)
#include "expkern.hpp"
#else
#include "memory_layout/tile_array.hpp"
#include "memory_layout/tile_iterator.hpp"
#include "memory_layout/tile_view.hpp"
#include "aligned_allocator.hpp"
#include "reference_kernels/kernel.hpp"
#include "reference_kernels/kernel_test.hpp"
#include "reference_kernels/kernel_tiled.hpp"
#include "reference_kernels/naive.hpp"
#include "util/create_identity_matrix.hpp"
#include "util/create_random_matrix.hpp"
#include "util/pattern_matrices.hpp"
#include "util/transpose_matrix.hpp"
#include "variants/algorithms.hpp"
#include "variants/combined.hpp"
#include "variants/looped.hpp"
#include "variants/pseudodynamic.hpp"
#include "variants/semi.hpp"
#include "variants/single.hpp"
#endif

#ifdef __SANITIZE_THREAD__
static const bool slow = true;
#else
static const bool slow = false;
#endif

struct job {
  std::string who, text, error;
  unsigned threads = 1;                            // OpenMP threads it may use,
  std::uint64_t tseed = 0;                         // to be set by whoever runs it
  std::function<void()> run;                       // on the job's thread
  std::function<void(const std::string &)> check;  // afterwards, on the main thread
  std::uint64_t id = 0;
  std::size_t cost = 0; // the order that is computed with
};
typedef std::shared_ptr<operands> ops;

struct job_options {
  int verbose = 0;
  bool keep = false;      // every run uses the same object
  std::uint64_t reps = 0; // 0: any
  std::size_t N = 0;      // 0: any
  std::size_t least_block = 5;
  std::size_t block = 0;  // of the algorithms variant, 0: any
  std::size_t input = 0;  // input block, 0: any
  unsigned times = 0;     // that the helpers are called, 0: any
  int dim = 0;            // of a tiling, 0: any; N scales its extents
  int content = -1;       // kind of operands, -1: any
};

#if defined(C_EXP)
static job make_job(std::size_t kind, mon::rng &r, ops shared, job_options opt = job_options()) {
  const exp_kern &k = exp_kerns[kind];
  job j;
  j.who = k.name;
  std::size_t n = shared ? shared->N : opt.N ? opt.N : k.unit <= 4 ? k.unit * r.in(1, 32 / k.unit) : k.unit;
  std::uint64_t seed = r.next();
  int content = opt.content >= 0 ? opt.content : pick_kind(r);
  ops o = shared ? shared : std::make_shared<operands>(n, content, seed);
  struct mem {
    exp_block A, B, C;
    mem(std::size_t n) : A(n * n), B(n * n), C(n * n) {}
  };
  auto m = std::make_shared<mem>(n);
  const std::vector<double> &src = k.transposed ? o->Bt : o->B;
  std::memcpy(m->A.p, o->A.data(), n * n * sizeof(double));
  std::memcpy(m->B.p, src.data(), n * n * sizeof(double));
  for (std::size_t i = 0; i < n * n; i++)
    m->C.p[i] = k.zeroed ? 0.0 : 1e9 + (double)i;
  unsigned th = (unsigned)r.in(1, 4);
  j.text = mon::fmt("%s n=%zu threads=%u content=%d/%llu", k.name, n, th, o->kind, (unsigned long long)o->seed);
  j.id = mon::h(n, kind);
  std::uint64_t ts = r.next();
  j.cost = n;
  j.threads = th;
  j.tseed = ts;
  j.run = [m, n, &k] {
    if (k.zeroed)
      std::fill(m->C.p, m->C.p + n * n, 0.0);
    k.f(m->A.p, m->B.p, m->C.p, (std::uint32_t)n);
  };
  j.check = [m, o, n, &k](const std::string &who) {
    std::string d = oracle::compare(o->ref, m->C.p, n);
    if (!d.empty())
      mon::fail(who + ":value", d);
    if (!m->A.intact() || !m->B.intact() || !m->C.intact())
      mon::fail(who + ":outside", "memory outside C was written");
    mon::observed(n * n);
  };
  return j;
}
static const std::size_t job_kinds = exp_count;
#else
// one element type's worth of helper checks; returns what is wrong
template <typename T> static std::string helpers(std::size_t N, std::size_t rows, std::size_t cols, unsigned times) {
  std::vector<T> first;
  for (unsigned q = 0; q < times; q++) {
    std::vector<T> id = util::create_identity_matrix<T>(N);
    std::vector<T> en = util::create_enumerating_matrix<T>(N);
    std::vector<T> rn = util::create_random_matrix<T>(N);
    std::vector<T> tr = util::transpose_matrix<T>(N, en);
    if (id.size() != N * N || en.size() != N * N || rn.size() != N * N || tr.size() != N * N)
      return "a matrix of the wrong size";
    for (std::size_t i = 0; i < N * N; i++) {
      if (id[i] != (i % N == i / N ? T(1) : T(0)))
        return mon::fmt("identity: entry %zu is %g", i, (double)id[i]);
      if (en[i] != T(i))
        return mon::fmt("enumerating: entry %zu is %g", i, (double)en[i]);
      if (tr[i] != T((i % N) * N + i / N))
        return mon::fmt("transposed: entry %zu is %g", i, (double)tr[i]);
    }
    if (q == 0)
      first = rn;
    else if (rn != first)
      return "random: two calls with the same size return different matrices";
    std::vector<T> m(rows * cols);
    for (std::size_t i = 0; i < rows * cols; i++)
      m[i] = T(i % 8191);
    std::vector<T> t = util::transpose_matrix(cols, rows, m);
    if (t.size() != rows * cols)
      return "rectangular transpose: wrong size";
    for (std::size_t i = 0; i < rows; i++)
      for (std::size_t k = 0; k < cols; k++)
        if (t[k * rows + i] != m[i * cols + k])
          return mon::fmt("rectangular transpose: element (%zu,%zu) is wrong", i, k);
  }
  return "";
}
template <std::size_t dim> static std::string tilings(std::uint64_t seed, unsigned times, std::size_t scale = 1) {
  mon::rng r(seed);
  for (unsigned q = 0; q < times; q++) {
    std::vector<memory_layout::tiling_info_dim> info;
    std::size_t total = 1, per_tile = 1;
    std::size_t tile[dim], ext[dim];
    for (std::size_t d = 0; d < dim; d++) {
      memory_layout::tiling_info_dim t;
      t.tile_size_dir = tile[d] = r.in(1, 5);
      t.stride = ext[d] = tile[d] * r.in(1, 4) * scale;
      total *= t.stride;
      per_tile *= t.tile_size_dir;
      info.push_back(t);
    }
    std::vector<double> org(total);
    for (std::size_t i = 0; i < total; i++)
      org[i] = (double)r.in(0, 1 << 20);
    std::vector<double> tiled = memory_layout::make_tiled<dim>(org, info);
    if (tiled.size() != total)
      return "make_tiled: wrong size";
    for (std::size_t p = 0; p < total; p++) {
      // decompose a position of the original array, independently of the code
      std::size_t rest = p, tidx[dim], eidx[dim];
      for (std::size_t d = dim; d-- > 0;) {
        std::size_t g = rest % ext[d];
        rest /= ext[d];
        tidx[d] = g / tile[d];
        eidx[d] = g % tile[d];
      }
      std::size_t t = 0, e = 0;
      for (std::size_t d = 0; d < dim; d++) {
        t = t * (ext[d] / tile[d]) + tidx[d];
        e = e * tile[d] + eidx[d];
      }
      if (tiled[t * per_tile + e] != org[p])
        return mon::fmt("make_tiled: element %zu is not where it belongs", p);
    }
    std::size_t views = 0, elements = 0;
    bool wrong = false;
    memory_layout::iterate_tiles<dim>(tiled, info, [&](auto v) {
      for (std::size_t i = 0; i < per_tile; i++) {
        wrong |= &v[i] != &tiled[views * per_tile + i];
        elements++;
      }
      views++;
    });
    if (wrong || elements != total)
      return "iterate_tiles: wrong tiles";
    std::vector<double> back = memory_layout::undo_tiling<dim>(tiled, info);
    if (back != org)
      return "undo_tiling does not give the array back";
  }
  return "";
}

template <typename T, typename... X> static T &made(std::shared_ptr<void> &o, bool keep, X &&... x) {
  static_assert(alignof(T) <= 16, "would need aligned memory");
  if (!keep || !o)
    o = std::make_shared<T>(std::forward<X>(x)...);
  return *static_cast<T *>(o.get());
}
enum { naive_d, naive_f, block_kernel, tiled_kernel, test_kernel, algorithms_v, looped_v, semi_v, combined_v, helper_v, tiling_v,
       allocator_v, single_v, pseudo_v, job_kinds };

static job make_job(std::size_t kind, mon::rng &r, ops shared, job_options opt = job_options()) {
  job j;
  std::size_t N;
  if (shared)
    N = shared->N;
  else if (opt.N)
    N = opt.N;
  else if (kind == tiled_kernel || kind == combined_v) {
    static const std::vector<std::size_t> n = {1, 17, 64, 65, 100, 130, 150};
    N = r.pick(n);
  } else if (kind == test_kernel)
    N = 512;
  else if (kind == single_v || kind == pseudo_v)
    N = r.in(1, 5) << r.in(0, 3);
  else
    N = r.chance(1, slow ? 40 : 15) ? large_order(r, slow ? 130 : 257) : r.in(1, 40);
  std::uint64_t seed = r.next(), ts = r.next();
  int content = opt.content >= 0 ? opt.content : pick_kind(r);
  unsigned times = (unsigned)r.in(1, N > 64 ? 1 : 4), th = (unsigned)r.in(1, 4);
  if (kind == helper_v) {
    std::size_t rows = r.in(1, 30), cols = r.in(1, 30);
    bool flt = r.chance(1, 3);
    N = opt.N ? opt.N : r.in(1, 24);
    if (opt.times)
      times = opt.times;
    j.who = "helpers";
    j.text = mon::fmt("helpers N=%zu %zux%zu x%u", N, rows, cols, times);
    auto res = std::make_shared<std::string>();
    j.run = [=] { *res = flt ? helpers<float>(N, rows, cols, times) : helpers<double>(N, rows, cols, times); };
    j.check = [=](const std::string &who) {
      if (!res->empty())
        mon::fail(who + ":value", *res);
      mon::observed(N * N);
    };
    j.id = mon::h(kind, mon::h(N, mon::h(rows, cols)));
    return j;
  }
  if (kind == tiling_v) {
    int dim = opt.dim ? opt.dim : (int)r.in(1, 3);
    std::size_t scale = 1;
    if (opt.N)
      scale = opt.N;
    if (opt.times)
      times = opt.times;
    j.who = "tiling";
    j.text = mon::fmt("tiling dim=%d seed=%llu x%u scale=%zu", dim, (unsigned long long)seed, times, scale);
    auto res = std::make_shared<std::string>();
    j.run = [=] { *res = dim == 1   ? tilings<1>(seed, times, scale)
                        : dim == 2 ? tilings<2>(seed, times, scale)
                                   : tilings<3>(seed, times, scale); };
    j.check = [=](const std::string &who) {
      if (!res->empty())
        mon::fail(who + ":value", *res);
      mon::observed(times);
    };
    j.id = mon::h(kind, seed);
    return j;
  }
  if (kind == allocator_v) {
    std::size_t n = r.in(1, 200), align = (std::size_t)8 << r.in(0, 6);
    j.who = "aligned_allocator";
    j.text = mon::fmt("aligned_allocator %zu elements, alignment %zu, x%u", n, align, times);
    auto res = std::make_shared<std::string>();
    j.run = [=] {
      for (unsigned q = 0; q < times * 4; q++) {
        alignment::aligned_allocator al;
        double *p = al.alloc<double>(n, align);
        if ((std::uintptr_t)p % align) {
          *res = "the block is not aligned";
          return;
        }
        for (std::size_t i = 0; i < n; i++)
          p[i] = (double)(seed % 1000 + i);
        sched_yield();
        for (std::size_t i = 0; i < n; i++)
          if (p[i] != (double)(seed % 1000 + i)) {
            *res = mon::fmt("element %zu changed", i);
            return;
          }
      }
    };
    j.check = [=](const std::string &who) {
      if (!res->empty())
        mon::fail(who + ":value", *res);
      mon::observed(n);
    };
    j.id = mon::h(kind, mon::h(n, align));
    return j;
  }
  ops o = shared ? shared : std::make_shared<operands>(N, content, seed);
  // every job has its own objects; only the contents may be shared
  struct mem {
    std::shared_ptr<void> object;
    std::vector<double> C, C2;
    std::vector<float> Af, Bf, Cf;
  };
  auto m = std::make_shared<mem>();
  bool tr = r.chance(1, 2);
  std::size_t br = r.in(0, N + 3), bi = r.in(1, N + 3), x = 0, y = 0, b = N;
  if (opt.input)
    bi = opt.input;
  std::uint64_t reps = opt.reps ? opt.reps : r.chance(1, 3) ? 2 : 1;
  if (kind == algorithms_v || kind == looped_v || kind == semi_v)
    tr = true;
  if (kind == combined_v || kind == test_kernel) // kernel_test takes B as it is
    tr = false;
  if (kind == algorithms_v)
    br = r.in(1, N);
  if (opt.block)
    br = opt.block;
  if (kind == block_kernel) {
    b = r.in(1, N);
    x = r.in(0, N - b);
    y = r.in(0, N - b);
  }
  if (kind == single_v || kind == pseudo_v)
    for (br = N; br % 2 == 0 && br > opt.least_block; br /= 2)
      ;
  std::vector<double> &A = o->A, &B = tr ? o->Bt : o->B;
  static const char *nm[] = {"naive", "naive<float>", "kernel", "kernel_tiled", "kernel_test", "algorithms", "looped", "semi",
                             "combined", "", "", "", "single", "pseudodynamic"};
  j.who = nm[kind];
  j.text = mon::fmt("%s N=%zu transposed=%d block_result=%zu block_input=%zu repetitions=%llu content=%d/%llu%s", nm[kind], N,
                    tr, kind == block_kernel ? b : br, bi, (unsigned long long)reps, o->kind, (unsigned long long)o->seed,
                    shared ? " shared operands" : "");
  j.id = mon::h(mon::h(kind, N), mon::h(br, bi));
  bool exact_in_float = kind == naive_f && (o->kind == oracle::permuted || o->kind == oracle::one_hot);
  if (kind == naive_f) {
    m->Af.assign(A.begin(), A.end());
    m->Bf.assign(B.begin(), B.end());
  }
  j.cost = kind == tiled_kernel || kind == combined_v ? 256 : N;
  j.threads = th;
  j.tseed = ts;
  const bool keep = opt.keep;
  const int verbose = opt.verbose;
  j.run = [=, &A, &B] {
    double d = 0;
    switch (kind) {
    case naive_d:
      m->C = tr ? naive_matrix_multiply_transposed<double>(N, A, B) : naive_matrix_multiply<double>(N, A, B);
      break;
    case naive_f:
      m->Cf = tr ? naive_matrix_multiply_transposed<float>(N, m->Af, m->Bf) : naive_matrix_multiply<float>(N, m->Af, m->Bf);
      break;
    case block_kernel:
      m->C.assign(b * b, 0.0);
      if (tr)
        kernel::kernel_transposed(A, B, m->C, N, x, y, b);
      else
        kernel::kernel(A, B, m->C, N, x, y, b);
      if (tr && b % 4 == 0 && b > 3) {
        m->C2.assign(b * b, 0.0);
        kernel::kernel_transposed_blocked(A, B, m->C2, N, x, y, b, bi);
      }
      break;
    case tiled_kernel: {
      auto &k = made<kernel_tiled::kernel_tiled>(m->object, keep, N, A, B, tr, reps, verbose);
      m->C = k.matrix_multiply(d);
      break;
    }
    case test_kernel: {
      auto &k = made<kernel_test::kernel_test>(m->object, keep, N, A, B, tr, 1, verbose);
      m->C = k.matrix_multiply();
      break;
    }
    case algorithms_v: {
      auto &k = made<algorithms::algorithms>(m->object, keep, N, A, B, bi, br);
      m->C = k.matrix_multiply();
      break;
    }
    case looped_v: {
      auto &k = made<looped::looped>(m->object, keep, N, A, B, br, bi);
      m->C = k.matrix_multiply();
      break;
    }
    case semi_v: {
      auto &k = made<semi::semi>(m->object, keep, N, A, B, br, bi);
      m->C = k.matrix_multiply();
      break;
    }
    case combined_v: {
      auto &k = made<combined::combined>(m->object, keep, N, A, B, reps, verbose);
      m->C = k.matrix_multiply(d);
      break;
    }
    case single_v: {
      auto &k = made<single::single>(m->object, keep, N, A, B, tr, br, bi, reps, verbose);
      m->C = k.matrix_multiply();
      break;
    }
    default: {
      auto &k = made<pseudodynamic::pseudodynamic>(m->object, keep, N, A, B, tr, br, bi, N / 4 + 1, N / 2, 0.0, reps, verbose);
      m->C = k.matrix_multiply();
    }
    }
    if (!keep)
      m->object.reset();
  };
  j.check = [=](const std::string &who) {
    std::string d;
    mon::observed(b * b);
    if (kind == naive_f) {
      if (m->Cf.size() != N * N)
        return mon::fail(who + ":size", mon::fmt("result has %zu entries", m->Cf.size()));
      // compare with what the same call gives alone, and with the oracle if exact
      std::vector<float> alone = tr ? naive_matrix_multiply_transposed<float>(N, m->Af, m->Bf)
                                    : naive_matrix_multiply<float>(N, m->Af, m->Bf);
      if (alone.size() != N * N || std::memcmp(m->Cf.data(), alone.data(), N * N * sizeof(float)))
        mon::fail(who + ":value", "differs from the result of the same call alone");
      if (exact_in_float && !(d = oracle::comparef(o->ref, m->Cf.data(), N)).empty())
        mon::fail(who + ":value", d);
      return;
    }
    if (m->C.size() != b * b)
      return mon::fail(who + ":size", mon::fmt("result has %zu entries instead of %zu", m->C.size(), b * b));
    d = oracle::compare(o->ref, m->C.data(), b, x, y, b);
    if (d.empty() && !m->C2.empty())
      d = oracle::compare(o->ref, m->C2.data(), b, x, y, b);
    if (!d.empty())
      mon::fail(who + ":value", d);
  };
  return j;
}
#endif

