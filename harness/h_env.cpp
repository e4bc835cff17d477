// P30: what a call must leave as it found it: floating-point control, registers,
// OpenMP settings, streams, locale, random sequence, signals, files, limits ...
#include "jobs.hpp"
#include <clocale>
#include <csignal>
#include <cstdlib>
#include <dirent.h>
#include <exception>
#include <iomanip>
#include <locale>
#include <new>
#include <omp.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#if !defined(C_EXP)
#include "memory_layout/memory_layout_exception.hpp"
#include "util/util.hpp"
#endif

extern char **environ;
// calls fn(arg) with known values in the registers a function has to preserve
extern "C" void env_call(void (*fn)(void *), void *arg, std::uint64_t after[7]);
static const std::uint64_t pattern[6] = {0x1122334455667701, 0x1122334455667702, 0x1122334455667703,
                                         0x1122334455667704, 0x1122334455667705, 0x1122334455667706};
asm(".text\n.globl env_call\n.type env_call,@function\nenv_call:\n"
    "push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\npush %rdx\n"
    "mov %rdi,%rax\nmov %rsi,%rdi\n"
    "movabs $0x1122334455667701,%rbx\nmovabs $0x1122334455667702,%rbp\nmovabs $0x1122334455667703,%r12\n"
    "movabs $0x1122334455667704,%r13\nmovabs $0x1122334455667705,%r14\nmovabs $0x1122334455667706,%r15\n"
    "call *%rax\n"
    "pop %rdx\nmov %rbx,(%rdx)\nmov %rbp,8(%rdx)\nmov %r12,16(%rdx)\nmov %r13,24(%rdx)\nmov %r14,32(%rdx)\n"
    "mov %r15,40(%rdx)\npushfq\npop %rax\nmov %rax,48(%rdx)\ncld\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n"
    ".size env_call,.-env_call\n");

static std::string fp_state() {
  struct {
    std::uint16_t cw, r0, sw, r1, tag, r2;
    std::uint32_t rest[4];
  } e;
  asm volatile("fnstenv %0\nfldenv %0" : "+m"(e));
  std::uint32_t mx;
  asm volatile("stmxcsr %0" : "=m"(mx));
  return mon::fmt("mxcsr control %04x, x87 control %04x, x87 tags %04x", mx & ~0x3fu, e.cw, e.tag);
}

typedef std::vector<std::pair<std::string, std::string>> state;
static std::string stream_state(std::ios &s) {
  return mon::fmt("flags %x precision %ld width %ld fill %d buffer %p tie %p exceptions %x state %x locale %s", (unsigned)s.flags(),
                  (long)s.precision(), (long)s.width(), (int)s.fill(), (void *)s.rdbuf(), (void *)s.tie(),
                  (unsigned)s.exceptions(), (unsigned)s.rdstate(), s.getloc().name().c_str());
}
static state look(bool omp_threads_too) {
  state s;
  auto add = [&](const char *k, const std::string &v) { s.emplace_back(k, v); };
  add("floating-point", fp_state());
  if (omp_threads_too)
    add("omp_threads", mon::fmt("%d", omp_get_max_threads()));
  omp_sched_t kind;
  int chunk;
  omp_get_schedule(&kind, &chunk);
  add("omp", mon::fmt("dynamic %d levels %d schedule %d/%d level %d", omp_get_dynamic(), omp_get_max_active_levels(), (int)kind,
                      chunk, omp_get_level()));
  add("cout", stream_state(std::cout));
  add("cerr", stream_state(std::cerr));
  add("clog", stream_state(std::clog));
  add("cin", stream_state(std::cin));
  add("locale", std::string(std::setlocale(LC_ALL, nullptr)) + "/" + std::locale().name());
  std::string sig;
  for (int i = 1; i < 65; i++) {
    struct sigaction a;
    if (!sigaction(i, nullptr, &a))
      sig += mon::fmt("%d:%p/%x ", i, (void *)a.sa_handler, (unsigned)a.sa_flags);
  }
  sigset_t m;
  pthread_sigmask(SIG_SETMASK, nullptr, &m);
  for (int i = 1; i < 65; i++)
    if (sigismember(&m, i) == 1)
      sig += mon::fmt("masked %d ", i);
  add("signals", sig);
  std::string e;
  for (char **p = environ; p && *p; p++)
    e += std::string(*p) + "\n";
  add("environment", e);
  char cwd[4096] = "";
  add("directory", getcwd(cwd, sizeof cwd) ? cwd : "?");
  mode_t um = umask(022);
  umask(um);
  add("umask", mon::fmt("%o", (unsigned)um));
  std::string lim;
  for (int l = 0; l < (int)RLIM_NLIMITS; l++) {
    struct rlimit rl;
    if (!getrlimit((__rlimit_resource_t)l, &rl))
      lim += mon::fmt("%d:%llu/%llu ", l, (unsigned long long)rl.rlim_cur, (unsigned long long)rl.rlim_max);
  }
  add("limits", lim);
  std::string t;
  for (int w : {ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF}) {
    struct itimerval it;
    // the harness's own alarm runs on; only whether a timer is set matters
    t += getitimer((__itimer_which_t)w, &it) ? "?" : it.it_value.tv_sec || it.it_value.tv_usec ? "set " : "off ";
  }
  add("timers", t);
  cpu_set_t c;
  CPU_ZERO(&c);
  std::string cpus;
  if (!sched_getaffinity(0, sizeof c, &c))
    for (int i = 0; i < CPU_SETSIZE; i++)
      cpus += CPU_ISSET(i, &c) ? mon::fmt("%d ", i) : "";
  add("processors", cpus + mon::fmt("policy %d nice %d", sched_getscheduler(0), getpriority(PRIO_PROCESS, 0)));
  std::string fds;
  if (DIR *d = opendir("/proc/self/fd")) {
    while (dirent *x = readdir(d))
      if (x->d_name[0] != '.' && std::atoi(x->d_name) != dirfd(d)) {
        char to[512];
        ssize_t n = readlinkat(dirfd(d), x->d_name, to, sizeof to - 1);
        fds += std::string(x->d_name) + "->" + std::string(to, n > 0 ? n : 0) + " ";
      }
    closedir(d);
  }
  add("files", fds);
  add("handlers", mon::fmt("%p %p", (void *)std::get_terminate(), (void *)std::get_new_handler()));
  return s;
}
static std::vector<std::string> look_at_workers(unsigned n) {
  std::vector<std::string> v(n);
#pragma omp parallel num_threads(n)
  {
    std::string s = fp_state();
    cpu_set_t c;
    CPU_ZERO(&c);
    if (!sched_getaffinity(0, sizeof c, &c))
      s += mon::fmt(" on %d processors", CPU_COUNT(&c));
    v[omp_get_thread_num()] = s;
  }
  return v;
}
static void set_workers(unsigned n, unsigned mx, std::uint16_t cw) {
#pragma omp parallel num_threads(n)
  asm volatile("ldmxcsr %0\nfldcw %1" : : "m"(mx), "m"(cw));
}
static std::string difference(const std::string &a, const std::string &b) {
  std::size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i])
    i++;
  i = i > 40 ? i - 40 : 0;
  return "'" + a.substr(i, 100) + "' became '" + b.substr(i, 100) + "'";
}

struct call_data {
  job *j;
};
static void call_job(void *p) {
  job &j = *((call_data *)p)->j;
  try {
    j.run();
  } catch (const std::exception &e) {
    j.error = std::string("exception: ") + e.what();
  } catch (...) {
    j.error = "unknown exception";
  }
}

#if defined(C_EXP)
static const std::size_t kinds_here = job_kinds;
static job any_job(std::size_t kind, mon::rng &r, job_options o) { return make_job(kind, r, nullptr, o); }
static std::string probe() { return ""; }
#else
static const std::size_t kinds_here = job_kinds + 3;
static job any_job(std::size_t kind, mon::rng &r, job_options o) {
  if (kind < job_kinds) {
    o.verbose = (int)r.in(0, 2);
    o.keep = r.chance(1, 3);
    return make_job(kind, r, nullptr, o);
  }
  job j;
  std::size_t rows = r.in(1, 6), cols = r.in(1, 6);
  j.check = [](const std::string &) { mon::observed(1); };
  if (kind == job_kinds) {
    auto m = std::make_shared<std::vector<double>>(rows * rows + cols * cols + rows * cols);
    for (auto &x : *m)
      x = r.unit() * 1e9;
    j.who = "printing";
    j.run = [=] {
      print_matrix_host(rows, *m);
      print_matrix_host(rows, cols, *m);
      print_matrix_transposed_host(rows, *m);
      print_matrix_transposed_host(rows, cols, *m);
      print_matrix(rows, *m);
      print_matrix(rows, cols, *m);
      print_matrix_transposed(rows, *m);
      print_matrix_transposed(rows, cols, *m);
    };
  } else if (kind == job_kinds + 1) {
    j.who = "tiling refused";
    j.run = [=] {
      std::vector<double> org(16, 1.0);
      std::vector<memory_layout::tiling_info_dim> info(3);
      for (auto &i : info)
        i.stride = 4, i.tile_size_dir = 2;
      for (int q = 0; q < 2; q++)
        try {
          q ? memory_layout::make_tiled<2>(org, info) : memory_layout::undo_tiling<2>(org, info);
        } catch (const std::exception &) {
        }
    };
  } else {
    j.who = "allocation refused";
    j.run = [=] {
      alignment::aligned_allocator a;
      a.alloc<double>(rows, 64);
      try {
        a.alloc<double>(cols, 64);
      } catch (const std::exception &) {
      }
    };
  }
  j.text = j.who + mon::fmt(" %zux%zu", rows, cols);
  j.id = mon::h(kind, mon::h(rows, cols));
  return j;
}
// how the runtime's console writes numbers
static std::string probe() {
  std::ostringstream o;
  std::ostream *was = hpx_shim::rt().cfg.console;
  hpx::cout << hpx::flush;
  hpx_shim::rt().cfg.console = &o;
  hpx::cout << 1234567.891 << ' ' << 0.1 << ' ' << 255 << ' ' << true << ' ' << 1e20 << hpx::flush;
  hpx_shim::rt().cfg.console = was;
  return o.str();
}
#endif

void run_case(std::uint64_t idx, mon::rng &r) {
  std::size_t kind = idx % kinds_here;
#if !defined(C_EXP)
  if (kind == test_kernel && idx / kinds_here % 4)
    kind = tiled_kernel;
  hpx_shim::config cfg;
  cfg.mode = r.chance(1, 3) ? 1 : 0;
  cfg.threads = (unsigned)r.in(1, 4);
  cfg.seed = r.next();
  cfg.localities = (std::uint32_t)r.in(1, 3);
  hpx_shim::reset(cfg);
#endif
  const bool unusual = r.chance(1, 2);
  job_options opt;
  if (unusual)
    opt.content = oracle::ints; // exact whatever the floating-point settings
  job j = any_job(kind, r, opt);
  mon::current(j.text);
  const unsigned times = (unsigned)r.in(1, 2);
  unsigned seed = (unsigned)r.next();
  // settings that differ from what a fresh process has must survive, too
  std::stringbuf sink;
  std::streambuf *own = std::cout.rdbuf(&sink);
  std::ios_base::fmtflags flags = std::cout.flags();
  std::streamsize prec = std::cout.precision();
  unsigned mx0, mx1;
  std::uint16_t cw0, cw1 = 0x027f; // double instead of extended precision
  asm volatile("stmxcsr %0\nfnstcw %1" : "=m"(mx0), "=m"(cw0));
  const int levels = omp_get_max_active_levels();
  omp_sched_t sched;
  int chunk;
  omp_get_schedule(&sched, &chunk);
  if (unusual) {
    mx1 = mx0 | (r.chance(1, 2) ? 0x8000 : r.chance(1, 2) ? 0x8040 : 0) | (j.who == "naive<float>" ? 0 : (unsigned)(r.in(0, 3) << 13)); // floats are not exact
    set_workers(j.threads, mx1, cw1);
    omp_set_schedule(omp_sched_dynamic, (int)r.in(1, 5));
    omp_set_max_active_levels((int)r.in(1, 3));
    std::cout << std::setprecision((int)r.in(3, 15));
    if (r.chance(1, 3))
      std::cout << std::scientific;
  }
  omp_threads(j.threads, j.tseed);
  std::srand(seed);
  const int expect = std::rand();
  std::srand(seed);
  std::vector<std::string> w0 = look_at_workers(j.threads);
#if defined(C_EXP)
  const bool fixes_threads = true; // some of these choose their number of threads
#else
  const bool fixes_threads = false;
#endif
  std::string p0 = probe();
  state s0 = look(!fixes_threads);
  std::uint64_t regs[7];
  call_data d{&j};
  for (unsigned q = 0; q < times; q++) {
    env_call(call_job, &d, regs);
    for (int i = 0; i < 6; i++)
      if (regs[i] != pattern[i])
        mon::fail(j.who + ":register", mon::fmt("register %s was not preserved",
                                                (const char *[]){"rbx", "rbp", "r12", "r13", "r14", "r15"}[i]));
    if (regs[6] & 0x400)
      mon::fail(j.who + ":direction", "the direction flag is left set");
  }
  state s1 = look(!fixes_threads);
  std::string p1 = probe();
  const int got = std::rand();
  std::vector<std::string> w1 = look_at_workers(j.threads);
  set_workers(j.threads, mx0, cw0);
  omp_set_schedule(sched, chunk);
  omp_set_max_active_levels(levels);
  std::cout.rdbuf(own);
  std::cout.flags(flags);
  std::cout.precision(prec);
  std::cout.clear();
  for (std::size_t i = 0; i < s0.size(); i++)
    if (s0[i].second != s1[i].second)
      mon::fail(j.who + ":" + s0[i].first, s0[i].first + " changed: " + difference(s0[i].second, s1[i].second));
  if (p0 != p1)
    mon::fail(j.who + ":console", "the console's number format changed: " + difference(p0, p1));
  if (got != expect)
    mon::fail(j.who + ":random", "the C random sequence was disturbed");
  for (std::size_t i = 0; i < w0.size(); i++)
    if (w0[i] != w1[i])
      mon::fail(j.who + ":worker", mon::fmt("on OpenMP thread %zu: ", i) + difference(w0[i], w1[i]));
  if (!j.error.empty())
    mon::fail(j.who + ":error", j.error);
  else
    j.check(j.who);
  mon::count(j.who.c_str());
  mon::count("settings_compared", s0.size() + w0.size() + 9);
  mon::observed(s0.size() + w0.size() + 9);
  mon::distinct(mon::h(j.id, unusual));
  mon::sample(j.text);
#if !defined(C_EXP)
  hpx_shim::reset(hpx_shim::config());
  env_stats();
#endif
}
