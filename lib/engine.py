"""Build and run engine: compiles harnesses together with the sources in
/repo's working tree, runs them sharded under the monitors, and turns what the
monitors saw into verdicts, replay files and evidence."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 8)
GXX = "g++"

BASE = ["-g1", "-fno-omit-frame-pointer", "-w"]
ISA = ["-mavx2", "-mfma"]
CONFIGS = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS",
             "-ftrivial-auto-var-init=pattern"] + ISA,
    "tsan": ["-O1", "-fsanitize=thread"] + ISA,
    "rel": ["-O2"] + ISA,
    "fast": ["-O3", "-ffast-math"] + ISA,  # the flags of the SCons release build
    "vg": ["-O1", "-mavx2", "-mfma"],
}
LINK = {
    "asan": ["-fsanitize=address,undefined"],
    "tsan": ["-fsanitize=thread"],
    "rel": [], "fast": [], "vg": [],
}
RUN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:abort_on_error=0:halt_on_error=1:detect_leaks=1:malloc_fill_byte=255:"
                    "max_malloc_fill_size=1073741824:free_fill_byte=254:max_free_fill_size=4096:"
                    "detect_stack_use_after_return=1:hard_rss_limit_mb=3500:max_allocation_size_mb=3000:"
                    "strict_init_order=1:check_initialization_order=0:color=never",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99:color=never",
    "TSAN_OPTIONS": "exitcode=98:halt_on_error=1:report_thread_leaks=0:history_size=4:second_deadlock_stack=1:"
                    "memory_limit_mb=3500:color=never",
    "LSAN_OPTIONS": "exitcode=97",
}
GOMP_MINI = os.path.join(VERIF, "shim/gomp/minigomp.cpp")


class HarnessError(Exception):
    pass


class Unit:
    """one harness program"""

    def __init__(self, name, main, cfg, cases, defines=(), sources=None, omp="mini", secs=(30, 240), shim=False,
                 shards=None, std="c++14", env=None, exact_cases=False, extra_src=(), cflags=(), per_case_timeout=None):
        self.name, self.main, self.cfg, self.cases = name, main, cfg, cases
        self.defines, self.sources, self.omp, self.secs = list(defines), sources, omp, secs
        self.shim, self.shards, self.std, self.env = shim, shards, std, env or {}
        self.extra_src, self.cflags = list(extra_src), list(cflags)
        # (cases of the harnesses named here take milliseconds)
        light = main in ("h_index.cpp", "h_tile.cpp", "h_alloc.cpp", "h_err.cpp", "h_sched.cpp", "h_print.cpp", "h_util.cpp")
        self.per_case_timeout = per_case_timeout or (45 if light else 90 if cfg in ("vg", "tsan") else 60)


def repo_sources(kind):
    """the source lists of the repository's own build files"""
    if kind == "common":
        out = []
        for d in ("src", "src/memory_layout", "src/reference_kernels", "src/util", "src/variants",
                  "src/variants/components"):
            out += sorted(glob.glob(os.path.join(REPO, d, "*.cpp")))
        return out
    if kind == "reference":
        out = []
        for d in ("src", "src/memory_layout", "src/reference_kernels", "src/util"):
            out += sorted(glob.glob(os.path.join(REPO, d, "*.cpp")))
        return out
    if kind == "app":
        return repo_sources("common") + sorted(glob.glob(os.path.join(REPO, "src/matrix_multiply_application/*.cpp")))
    if kind == "exp":
        return [f for f in sorted(glob.glob(os.path.join(REPO, "otherExperiments/*.cpp")))
                if os.path.basename(f) != "benchmark.cpp"]
    if kind in (None, "none"):
        return []
    raise HarnessError("unknown source set " + kind)


class Engine:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.lock = threading.Lock()
        self.objs = {}
        self.t0 = time.time()
        self.violations = []   # dicts: unit, case, key, what, desc, log
        self.stats = []        # per unit
        self.notes = []
        self.procs = set()
        self.stopping = False
        self.dropped = 0
        self.keep = None       # which kinds of failure count (None: all)

    def kill(self):
        for p in list(self.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass

    def stop(self):
        self.stopping = True
        self.kill()

    def close(self):
        self.kill()
        self.pool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def _cc(self, cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return p.returncode, p.stdout

    def obj(self, src, flags):
        key = hashlib.sha1((src + "\0" + "\0".join(flags)).encode()).hexdigest()[:16]
        with self.lock:
            f = self.objs.get(key)
            if f is None:
                out = os.path.join(self.dir, key + ".o")

                def job():
                    rc, log = self._cc([GXX] + flags + ["-c", src, "-o", out])
                    return (out if rc == 0 else None), src, log
                f = self.objs[key] = self.pool.submit(job)
        return f

    def start_build(self, u):
        """submit all compilations of a unit; returns a handle for link()"""
        std = "-std=" + u.std
        inc = ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "shim"),
               "-I" + os.path.join(REPO, "src")]
        cfg = BASE + CONFIGS[u.cfg] + list(u.cflags)
        omp = ["-fopenmp"]
        defs = ["-D" + d for d in u.defines]
        if u.shim:
            defs.append("-DWITH_HPX_SHIM")
        if u.omp == "mini":
            defs.append("-DWITH_MINIGOMP")
        if u.sources == "exp":
            defs.append('-DEXP_HEADER="%s"' % os.path.join(REPO, "otherExperiments/mult.hpp"))
        futs = []
        plain = ["-std=c++14", "-O2", "-g1", "-w", "-I" + os.path.join(VERIF, "harness")]
        if u.main:
            futs.append(("own", self.obj(os.path.join(VERIF, "harness/mon.cpp"), plain)))
            futs.append(("own", self.obj(os.path.join(VERIF, "harness/oracle.cpp"),
                                         plain[:1] + ["-O3", "-mavx2"] + plain[2:])))
            futs.append(("own", self.obj(os.path.join(VERIF, "harness", u.main), [std] + cfg + omp + defs + inc)))
        for s in u.extra_src:
            futs.append(("own", self.obj(s, [std] + cfg + omp + defs + inc)))
        if u.omp == "mini":
            futs.append(("own", self.obj(GOMP_MINI, ["-std=c++14"] + BASE + CONFIGS[u.cfg])))
        for s in repo_sources(u.sources):
            if u.sources == "exp":
                fl = ["-std=c++11"] + [x for x in cfg if not x.startswith("-O")] + \
                     (["-O3", "-ffast-math", "-funsafe-math-optimizations"] if u.cfg == "rel" else
                      [x for x in cfg if x.startswith("-O")]) + omp + ["-I" + os.path.dirname(s)]
            else:
                fl = [std] + cfg + omp + [d for d in defs if d.startswith("-DVC_SHIM")] + inc
            futs.append(("repo", self.obj(s, fl)))
        return u, futs

    def link(self, handle):
        u, futs = handle
        own, repo, errs = [], [], []
        for kind, f in futs:
            out, src, log = f.result()
            if out is None:
                errs.append((src, log))
                if kind == "own":
                    raise HarnessError("cannot compile %s:\n%s" % (src, log[-3000:]))
            else:
                (own if kind == "own" else repo).append(out)
        exe = os.path.join(self.dir, u.name)
        cmd = [GXX] + LINK[u.cfg] + own
        if repo and not u.main:
            cmd += repo  # a program of the repository
        elif repo:
            ar = exe + ".a"
            subprocess.run(["ar", "rcs", ar] + repo, check=True)
            cmd += [ar]
        cmd += (["-fopenmp"] if u.omp == "real" else []) + ["-lboost_program_options", "-lpthread", "-o", exe]
        rc, log = self._cc(cmd)
        if rc != 0:
            raise HarnessError("cannot link %s:\n%s\n%s" % (
                u.name, "\n".join("%s: %s" % (s, l[-1500:]) for s, l in errs), log[-3000:]))
        for s, l in errs:
            self.notes.append("not compiled (not needed by %s): %s" % (u.name, s))
        return exe

    # ------------------------------------------------------------------ run
    def spawn(self, cmd, env=None, timeout=300, cwd=None, stdin=None):
        e = dict(os.environ)
        for k in list(e):
            if k.startswith(("OMP_", "HPX_SHIM", "VC_SHIM")):
                del e[k]
        e.update(RUN_ENV)
        e.update(env or {})
        if self.stopping:
            raise HarnessError("stopped")
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=e,
                             cwd=cwd or self.dir, start_new_session=True)
        self.procs.add(p)
        try:
            out, err = p.communicate(timeout=timeout)
            to = False
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, err = p.communicate()
            to = True
        finally:
            self.procs.discard(p)
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), to

    def wrap(self, u, exe):
        if u.cfg == "vg":
            return ["valgrind", "-q", "--error-exitcode=96", "--exit-on-first-error=yes", "--leak-check=full",
                    "--errors-for-leak-kinds=definite", "--undef-value-errors=yes", "--track-origins=no",
                    "--main-stacksize=67108864", exe]
        if u.cfg == "tsan":
            return ["setarch", "-R", exe] if SETARCH else [exe]
        return [exe]

    def run_unit(self, u, exe, only=None):
        quick = self.tier == "quick"
        cases = u.cases[0] if quick else u.cases[1]
        secs = u.secs[0] if quick else u.secs[1]
        shards = min(u.shards or NCPU, cases) if only is None else 1
        agg = {"unit": u.name, "cases": 0, "events": 0, "counters": {}, "maxima": {}, "samples": [],
               "distinct": set(), "complete": True, "monitor": u.cfg}

        def shard(i):
            out = os.path.join(self.dir, "%s.%d.json" % (u.name, i))
            cur = os.path.join(self.dir, "%s.%d.cur" % (u.name, i))
            for f in (out, cur):
                if os.path.exists(f):
                    os.remove(f)
            args = self.wrap(u, exe) + ["--shard", str(i), "--shards", str(shards), "--cases", str(cases), "--seed",
                                        str(self.seed), "--secs", str(secs), "--thorough", "0" if quick else "1",
                                        "--out", out, "--cur", cur]
            if only is not None:
                args += ["--case", str(only)]
            rc, so, se, to = self.spawn(args, u.env, timeout=secs + u.per_case_timeout)
            return i, rc, so, se, to, out, cur, args

        with cf.ThreadPoolExecutor(shards) as ex:
            results = list(ex.map(shard, range(shards)))

        # a shard that did not end: its case alone, with three times as long
        def current(cur):
            m = None
            if os.path.exists(cur):
                m = re.match(r"(\d+) ", open(cur, "rb").read().split(b"\0")[0].decode("utf-8", "replace"))
            return int(m.group(1)) if m else None

        def again(i):
            return self.spawn(self.wrap(u, exe) + [
                "--cases", str(cases), "--seed", str(self.seed), "--thorough", "0" if quick else "1", "--case",
                str(current(results[i][6])), "--out", results[i][5] + ".re"], u.env, timeout=3 * u.per_case_timeout)

        pending = [x[0] for x in results if x[4] and current(x[6]) is not None][:3] if only is None else []
        reruns = {}
        for i, rc, so, se, to, out, cur, args in results:
            curtxt = ""
            if os.path.exists(cur):
                curtxt = open(cur, "rb").read().split(b"\0")[0].decode("utf-8", "replace")
            m = re.match(r"(\d+) (.*)", curtxt, re.S)
            case, desc = (int(m.group(1)), m.group(2)) if m else (None, curtxt)
            if "LeakSanitizer has encountered a fatal error" in se:
                # leaks cannot be looked for here; nothing else is affected
                self.notes.append("leak detection unavailable for " + u.name)
                if os.path.exists(out):
                    rc = 1 if json.load(open(out))["failures"] else 0
            if os.path.exists(out):
                d = json.load(open(out))
                agg["cases"] += d["cases"]
                agg["runs"] = agg.get("runs", 0) + d["runs"]
                agg["events"] += d["events"]
                agg["complete"] &= d["complete"]
                for k, v in d["counters"].items():
                    agg["counters"][k] = agg["counters"].get(k, 0) + v
                for k, v in d["maxima"].items():
                    agg["maxima"][k] = max(agg["maxima"].get(k, 0), v)
                agg["samples"] += d["samples"][:2]
                agg["distinct"] |= set(d["distinct"])
                for f in d["failures"]:
                    self.violation(u, f["case"], f["key"], f["what"], f["desc"], se)
            if to:
                agg["complete"] = False
                if only is not None or case is None:
                    self.violation(u, case, "hang", "the operation did not finish", desc, se)
                else:
                    if not reruns and pending:
                        reruns = dict(zip(pending, cf.ThreadPoolExecutor(3).map(again, pending)))
                    if i not in reruns:
                        self.notes.append("a shard of %s was cut short (case %s)" % (u.name, case))
                        continue
                    rc2, so2, se2, to2 = reruns[i]
                    if to2:
                        self.violation(u, case, "hang", "the operation did not finish within %d s" % (
                            3 * u.per_case_timeout), desc, se2)
                    elif rc2 not in (0,):
                        key, what = classify(rc2, se2)
                        self.violation(u, case, key, what, desc, se2)
                    else:
                        self.notes.append("a shard of %s was slow (case %s) and was cut short" % (u.name, case))
            elif rc not in (0, 1) or (rc == 1 and not os.path.exists(out)):
                if rc == 125 or (rc in (126, 127) and not curtxt):
                    raise HarnessError("cannot run %s: %s" % (u.name, se[-500:]))
                key, what = classify(rc, se)
                self.violation(u, case, key, what, desc if curtxt != "done" else "(at exit)", se)
            elif rc == 1 and not self.violations and not self.dropped:
                # e.g. a leak reported at exit with code 1
                key, what = classify(rc, se)
                self.violation(u, case, key, what, desc, se)
        self.stats.append(agg)
        return agg

    def violation(self, u, case, key, what, desc, log=""):
        name = u.name if isinstance(u, Unit) else str(u)
        if self.keep and not self.keep(key):
            self.dropped += 1
            self.notes.append("seen, but decided by another property: [%s] %s" % (key, desc))
            return
        with self.lock:
            self.violations.append({"unit": name, "case": case, "key": key, "what": what, "desc": desc,
                                    "log": log[-6000:]})

    def run_units(self, units):
        units = [u for u in units if u.cases[0 if self.tier == "quick" else 1]]
        handles = [self.start_build(u) for u in units]
        for h in handles:
            exe = self.link(h)
            self.run_unit(h[0], exe)
            if self.violations and self.tier == "quick":
                break


def _setarch():
    try:
        return subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL,
                              stderr=subprocess.DEVNULL).returncode == 0
    except OSError:
        return False


SETARCH = _setarch()


def classify(rc, err):
    """(key, what) of an abnormal end"""
    m = re.search(r"(runtime error: .*)", err)
    if m:
        loc = re.search(r"(\S+:\d+:\d+): runtime error", err)
        return "ubsan", "undefined behaviour: %s %s" % (loc.group(1) if loc else "", m.group(1))
    m = re.search(r"ERROR: AddressSanitizer:? ?(\S+)[^\n]*", err)
    if m:
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", err)
        fr = [f for f in fr if "/repo/" in f or REPO in f][:2]
        return "asan:" + m.group(1).strip(":"), (m.group(0) + " " + "; ".join(fr))[:600]
    if "ERROR: LeakSanitizer" in err:
        return "leak", "memory leak: " + (re.search(r"Direct leak[^\n]*", err) or re.search(r"leak[^\n]*", err)).group(0)
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", err)
    if m:
        fr = re.findall(r"#\d+ ([^\n]*)", err)
        fr = [f for f in fr if "/repo/" in f or REPO in f][:3]
        return "tsan:" + m.group(1).strip().replace(" ", "-"), "%s: %s" % (m.group(1).strip(), "; ".join(fr))
    m = re.search(r"==\d+== ([^\n]*)\n(==\d+==\s+(at|by) [^\n]*\n)+", err)
    if m:
        return "memcheck", m.group(0)[:800]
    m = re.search(r"([^\n]*Assertion [^\n]*failed[^\n]*)", err)
    if m:
        return "assertion", m.group(1)[:400]
    m = re.search(r"(Vc-shim: misaligned[^\n]*)", err)
    if m:
        return "misaligned", m.group(1)[:400]
    m = re.search(r"(hpx-shim: [^\n]*)", err)
    if m:
        return "runtime", m.group(1)[:400]
    if "terminate called" in err:
        return "terminate", err[err.index("terminate called"):][:300]
    if rc is not None and rc < 0:
        return "signal", "ended by signal %d" % -rc
    return "exit", "ended with status %s: %s" % (rc, err[-300:])
