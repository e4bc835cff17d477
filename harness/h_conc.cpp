// P27: several multiplications (and helpers) at the same time in one program,
// each called from a thread of its own, on operands of their own or shared ones
#include "jobs.hpp"
#include <atomic>
#include <thread>

static std::atomic<int> at_gate;

static void go(job &j, int n, unsigned us) {
  at_gate.fetch_add(1, std::memory_order_relaxed);
  // no ordering between the jobs: the gate is relaxed
  while (at_gate.load(std::memory_order_relaxed) < n)
    sched_yield();
  if (us)
    std::this_thread::sleep_for(std::chrono::microseconds(us));
  omp_threads(j.threads, j.tseed);
  try {
    j.run();
  } catch (const std::exception &e) {
    j.error = std::string("exception: ") + e.what();
  } catch (...) {
    j.error = "unknown exception";
  }
}

void run_case(std::uint64_t idx, mon::rng &r) {
  std::size_t n = r.chance(1, 8) ? r.in(5, 8) : r.in(2, 4);
  if (mon::ctx().thorough && r.chance(1, 20))
    n = r.in(9, 16);
  bool akin = r.chance(1, 2); // all jobs of one kind
  bool share = r.chance(1, 3);
#if defined(C_EXP)
  std::size_t k0 = idx % exp_count;
  std::vector<std::size_t> kinds;
  for (std::size_t i = 0; i < n; i++)
    kinds.push_back(akin || !i ? k0 : r.in(0, exp_count - 1));
  ops shared;
  if (share) {
    std::size_t u = 1;
    for (auto k : kinds)
      u = std::max(u, exp_kerns[k].unit);
    if (u >= 256 && n > 4)
      kinds.resize(n = 4);
    shared = std::make_shared<operands>(u <= 4 ? 4 * r.in(1, 8) : u, pick_kind(r), r.next());
  }
#else
  // the first case of a process starts with several of one kind, so that what
  // is set up once is set up under contention
  std::size_t k0 = (idx * 5 + idx / job_kinds) % job_kinds;
  if (k0 == test_kernel && idx % 4)
    k0 = tiled_kernel;
  std::vector<std::size_t> kinds;
  bool named = false; // at most one user of the registered names at a time
  for (std::size_t i = 0; i < n; i++) {
    std::size_t k = akin || !i ? k0 : r.in(0, job_kinds - 1);
    if (k == test_kernel && k0 != test_kernel)
      k = tiled_kernel;
    if (k == single_v || k == pseudo_v) {
      if (named)
        k = r.in(0, 2) == 0 ? looped_v : r.chance(1, 2) ? naive_d : algorithms_v;
      named = true;
    }
    kinds.push_back(k);
  }
  if (k0 == test_kernel)
    kinds.resize(n = 2);
  ops shared;
  if (share) {
    bool test = false, halves = false;
    for (auto k : kinds) {
      test |= k == test_kernel;
      halves |= k == single_v || k == pseudo_v;
    }
    if (test)
      shared = std::make_shared<operands>(512, pick_kind(r), r.next());
    else
      shared = std::make_shared<operands>(halves ? r.in(1, 5) << r.in(0, 3) : r.in(1, 48), pick_kind(r), r.next());
  }
  hpx_shim::config cfg;
  cfg.mode = 1; // its other mode is single-threaded by construction
  cfg.threads = (unsigned)r.in(1, 4);
  cfg.seed = r.next();
  cfg.max_delay_us = r.chance(1, 2) ? (unsigned)r.in(20, 200) : 0;
  cfg.localities = (std::uint32_t)r.in(1, 3);
  hpx_shim::reset(cfg);
#endif
  std::vector<job> jobs;
  std::vector<unsigned> late;
  std::string text = mon::fmt("%zu at the same time:", n);
  std::uint64_t id = n;
  for (std::size_t i = 0; i < n; i++) {
    jobs.push_back(make_job(kinds[i], r, shared));
    late.push_back(r.chance(1, 3) ? (unsigned)r.in(1, 300) : 0);
    text += (i ? "; " : " ") + jobs[i].text;
    id = mon::h(id, jobs[i].id);
  }
  mon::current(text);
  std::vector<double> A0, B0, Bt0;
  if (shared) {
    A0 = shared->A;
    B0 = shared->B;
    Bt0 = shared->Bt;
  }
  at_gate.store(0);
  std::vector<std::thread> th;
  for (std::size_t i = 0; i < n; i++)
    th.emplace_back([&, i] { go(jobs[i], (int)n, late[i]); });
  for (auto &t : th)
    t.join();
  for (auto &j : jobs) {
    if (!j.error.empty())
      mon::fail(j.who + ":error", j.error);
    else
      j.check(j.who);
    mon::count(j.who.c_str());
  }
  if (shared && (!same_bits(A0, shared->A) || !same_bits(B0, shared->B) || !same_bits(Bt0, shared->Bt)))
    mon::fail("operand", "a shared operand was modified");
  mon::count("jobs", n);
  if (shared)
    mon::count("shared_operands");
  if (akin)
    mon::count("all_of_one_kind");
  mon::maxi("jobs_at_once", n);
  mon::distinct(id);
  mon::sample(text);
#if !defined(C_EXP)
  env_stats();
#endif
}
