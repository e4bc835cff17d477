"""Monitors that watch whole programs of the repository from outside: the
command-line program (P17, P18) and the experiment benchmark (P24)."""
import concurrent.futures as cf
import os, random, re, struct, subprocess, hashlib, math, time
from engine import Unit, HarnessError, classify, NCPU, REPO, VERIF, GXX, BASE, CONFIGS, LINK

ALGOS = ["single", "pseudodynamic", "algorithms", "looped", "semi", "combined", "kernel_test", "kernel_tiled"]
ONLY_TRANSPOSED = ("algorithms", "looped", "semi")


class Run:
    """one execution of the program and what it printed"""

    def __init__(self, e, exe, args, env):
        self.args, self.env = args, env
        self.rc, self.out, self.err, self.timeout = e.spawn([exe] + args, env, timeout=120)
        self.lines = self.out.splitlines()

    def desc(self):
        return "matrix_multiply " + " ".join(self.args) + ("  [" + " ".join(
            "%s=%s" % x for x in sorted(self.env.items())) + "]" if self.env else "")

    def crashed(self):
        return self.timeout or self.rc < 0 or self.rc in (96, 97, 98, 99)

    def has(self, text):
        return any(text in l for l in self.lines)

    def matrix(self, title, n):
        """the matrix printed below a line naming it"""
        for i, l in enumerate(self.lines):
            if l.strip().endswith(title):
                rows = []
                for r in self.lines[i + 1:i + 1 + n]:
                    try:
                        rows.append([float(x) for x in r.replace(" ", "").split(",") if x != ""])
                    except ValueError:
                        return rows
                return rows
        return None


def well_formed(m, n):
    return m is not None and len(m) == n and all(len(r) == n for r in m)


def product_differs(A, B, C, n):
    if all(B[i][j] == (1.0 if i == j else 0.0) for i in range(n) for j in range(n)):
        for i in range(n):
            for j in range(n):
                if not abs(C[i][j] - A[i][j]) <= 3e-5 * max(1.0, abs(A[i][j])):
                    return "C(%d,%d) printed as %g, A*B gives %g" % (i, j, C[i][j], A[i][j])
        return ""
    for i in range(n):
        for j in range(n):
            s = sum(A[i][k] * B[k][j] for k in range(n))
            if not abs(C[i][j] - s) <= 3e-5 * max(1.0, sum(abs(A[i][k] * B[k][j]) for k in range(n))):
                return "C(%d,%d) printed as %g, A*B gives %g" % (i, j, C[i][j], s)
    return ""


def halving(r, cap):
    while True:
        m, k = r.randint(1, 12), r.randint(0, 4)
        n = m << k
        if n <= cap:
            break
    if r.random() < 0.15:
        return n, 0
    if r.random() < 0.15:
        return n, r.randint(n, n + 5)
    b = n
    for _ in range(r.randint(0, k)):
        b //= 2
    return n, min(n, b + (r.randint(0, 2) if b + 2 < n else 0)) if b < n else b


def admissible(r, algo, big=False):
    """(N, options, environment) the program documents as working"""
    o, env = {}, {"HPX_SHIM_MODE": str(r.randint(0, 1)), "HPX_SHIM_SEED": str(r.randint(1, 10**9)),
                  "HPX_SHIM_THREADS": str(r.randint(1, 8)), "MINIGOMP_THREADS": str(r.randint(1, 8))}
    if algo in ("single", "pseudodynamic"):
        n, b = halving(r, 64 if big else 32)
        o["block-result"] = b
        o["block-input"] = r.choice([0, 1, 3, n, n + 5, 128])
        o["transposed"] = r.randint(0, 1)
        if algo == "pseudodynamic":
            env["HPX_SHIM_LOCALITIES"] = str(r.randint(1, 6))
            o["min-work-size"] = r.choice([max(1, n // 8), n, max(1, n // 4), 256])
            o["max-work-difference"] = r.choice([0, n, n * n, 10000])
            o["max-relative-work-difference"] = r.choice([0.0, 0.05, 0.5])
    elif algo in ONLY_TRANSPOSED:
        n = r.randint(1, 40 if big else 24)
        o["block-result"] = r.choice([0, 1, 2, 5, n, n + 3, 128])
        o["block-input"] = r.choice([1, 2, 3, 7, n, n + 3, 128])
        o["transposed"] = 1
    elif algo == "kernel_test":
        n = 512  # the orders it supports are multiples of 512
        o["transposed"] = r.randint(0, 1)
    else:
        n = r.choice([1, 2, 5, 16, 33, 64, 71]) if not big else r.randint(1, 150)
        o["transposed"] = 0 if algo == "combined" else r.randint(0, 1)
    o["repetitions"] = r.choice([1, 1, 1, 2, 3])
    if r.random() < 0.3:
        for k in list(o):
            if k not in ("transposed",) and algo not in ("single", "pseudodynamic") and r.random() < 0.5:
                del o[k]  # the default
    o["n-value"] = n
    return n, o, env


def args_of(algo, o, r):
    a = ["--%s=%s" % (k, v) for k, v in o.items()]
    if algo is not None:
        a.append("--algorithm=" + algo)
    r.shuffle(a)
    return a


def agg(e, name, monitor):
    a = {"unit": name, "cases": 0, "events": 0, "counters": {}, "maxima": {}, "samples": [], "distinct": set(),
         "complete": True, "monitor": monitor}
    e.stats.append(a)
    return a


def bump(a, k, n=1):
    a["counters"][k] = a["counters"].get(k, 0) + n


def build_app(e):
    us = [Unit("app_asan", None, "asan", (1, 1), ["VC_SHIM_FAULTS"], "app", shim=True),
          Unit("app_rel", None, "rel", (1, 1), ["VC_SHIM_FAULTS"], "app", shim=True)]
    return [(u.cfg, x) for u, x in [(h[0], e.link(h)) for h in [e.start_build(u) for u in us]]]


def drive(e, jobs, fn):
    """jobs in parallel; fn(job) -> None, records its own verdicts"""
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(fn, j) for j in jobs]:
            f.result()


def crash(e, a, run):
    if run.crashed():
        key, what = ("hang", "the program did not finish") if run.timeout else classify(run.rc, run.err)
        e.violation(a["unit"], None, key, what, run.desc(), run.err)
        return True
    return False


# ------------------------------------------------------------------------ P17
def p17(e):
    apps = build_app(e)
    quick = e.tier == "quick"
    r = random.Random(e.seed * 7919 + 17)
    a = agg(e, "check_honesty", "program monitor (asan+release builds), fault injection")
    jobs = []
    # the default parameters, nothing but the check
    for cfg, exe in apps:
        jobs.append((exe, 4, "single", ["--check=1"], {}, None, False))
        for algo in ALGOS:
            extra = {"combined": ["--transposed=0"], "kernel_test": ["--n-value=512"]}.get(algo, [])
            jobs.append((exe, 512 if algo == "kernel_test" else 4, algo, ["--check=1", "--algorithm=" + algo] + extra, {},
                         None, False))
    for i in range(440 if quick else 4000):
        cfg, exe = apps[i % 2]
        algo = ALGOS[(i // 2) % len(ALGOS)]
        if i % 3 == 1 and algo in ONLY_TRANSPOSED + ("kernel_test",) and r.random() < 0.4:
            algo = "single"
        if algo == "kernel_test" and i % 5:
            algo = "kernel_tiled"
        n, o, env = admissible(r, algo, big=not quick and i % 5 == 0)
        v = r.choice([0, 0, 1, 2, 2])
        o["verbose"] = v
        fault = None
        if i % 3:
            o["check"] = r.choice(["1", "true"])
        if i % 3 == 1 and algo not in ("looped", "semi", "kernel_test"):
            o["repetitions"] = 1
            if algo in ("single", "pseudodynamic"):
                kind = r.choice(["nan", "neg", "inf", "1", "-1", "1e-9", "-1e-9", "2e-10", "-2e-10", "1.5e-10", "5e-11",
                                 "-5e-11", "1e-12", "-1e-12", "1e-6", "-3", "short"])
                if kind == "short":
                    if algo != "single" or not (o["block-result"] == 0 or o["block-result"] >= n):
                        kind = "1e-9"
                    else:
                        o["verbose"] = v = min(v, 1)
                env["HPX_SHIM_MODE"] = "0"
                env["HPX_SHIM_FAULT"] = "action:%d:%s:%d" % (r.choice([0, 0, 1, 2, 3]), kind, r.choice(
                    [0, n * n - 1, n - 1, r.randint(0, n * n)]))
                bad = not (kind not in ("nan", "neg", "inf", "short") and abs(float(kind)) < 1e-10)
                fault = "bad" if bad else "tiny"
            elif algo == "algorithms":
                env["HPX_SHIM_FAULT"] = "loop:%d:%d" % (r.randint(0, 1), r.randint(0, 5))
                fault = "see"
                o["verbose"] = v = 2
            elif algo == "combined":
                env["HPX_SHIM_FAULT"] = "loop:0:%d" % r.randint(0, 3)
                fault = "see"
                o["verbose"] = v = 2
            else:
                env["VC_SHIM_FAULT"] = str(r.randint(0, 40))
                fault = "see"
                o["verbose"] = v = 2
        jobs.append((exe, n, algo, args_of(algo, o, r), env, fault, v >= 2))

    def one(job):
        exe, n, algo, args, env, fault, loud = job
        run = Run(e, exe, args, env)
        applied = "FAULT applied" in run.err
        with e.lock:
            a["cases"] += 1
            a["distinct"].add(hashlib.sha1(repr((args, fault)).encode()).hexdigest()[:12])
            bump(a, algo)
            if fault:
                bump(a, "faults_injected" if applied else "faults_not_reached")
            if len(a["samples"]) < 6:
                a["samples"].append(run.desc())
        if crash(e, a, run):
            return
        def bad(key, what):
            e.violation("check_honesty", None, key, what, run.desc(), (run.out + run.err)[-3000:])
        if run.rc != 0:
            return bad("status", "ended with status %d for admissible parameters: %s" % (run.rc, run.err[-300:]))
        passed = sum(l.strip() == "check passed" for l in run.lines)
        failed = sum(l.strip() == "error: check failed!" for l in run.lines)
        asked = any(x.startswith("--check=") for x in args)
        if passed + failed != (1 if asked else 0):
            return bad("verdict", "%d 'check passed' and %d 'check failed' lines, check %srequested" % (
                passed, failed, "" if asked else "not "))
        truth = None  # is the computed matrix right?
        if loud:
            A, B, C = run.matrix("matrix A:", n), run.matrix("matrix B:", n), run.matrix("matrix C:", n)
            for t, m in (("A", A), ("B", B), ("C", C)):
                if not well_formed(m, n):
                    return bad("printed", "matrix %s is not printed as %d rows of %d" % (t, n, n))
            d = product_differs(A, B, C, n)
            with e.lock:
                a["events"] += n * n
                bump(a, "printed_products_compared")
            if not (fault and applied) and d:
                return bad("printed", d)
            truth = not d
            # what was printed must not be constant: it is the product that was asked for
        if not asked:
            return
        with e.lock:
            a["events"] += 1
        if not (fault and applied):
            if not passed:
                return bad("check-fails", "check failed on a run nothing interfered with")
            with e.lock:
                bump(a, "honest_passes")
        else:
            if fault == "bad" and passed:
                return bad("dishonest", "'check passed' although the result was corrupted (%s)" % env)
            if fault == "tiny" and failed:
                return bad("too-strict", "'check failed' although every entry is within 1e-10 (%s)" % env)
            if fault == "see" and not truth and passed:
                return bad("dishonest", "'check passed' although the printed matrix is wrong")
            with e.lock:
                bump(a, "verdicts_on_corrupted_results")
    drive(e, jobs, one)


# ------------------------------------------------------------------------ P18
OPTIONS = ["n-value", "transposed", "repetitions", "verbose", "block-result", "block-input", "check", "algorithm",
           "min-work-size", "max-work-difference", "max-relative-work-difference", "help"]


def p18(e):
    apps = build_app(e)
    quick = e.tier == "quick"
    r = random.Random(e.seed * 104729 + 18)
    a = agg(e, "dispatch", "program monitor (asan+release builds)")
    jobs = []
    unknown = ["Single", "SINGLE", "singl", "singles", "single ", " single", "kernel", "kernel_", "kernel_tes",
               "kernel_test2", "kernel_tiledx", "naive", "combine", "algorithm", "loop", "semi2", "pseudo",
               "pseudo_dynamic", "all", "0", "x" * 300, "help", "--help", "none", "transposed", "static_improved",
               "recursive", "multiplier"]
    for i, u in enumerate(unknown):
        cfg, exe = apps[i % 2]
        n, o, env = admissible(r, "looped")
        o["check"] = r.randint(0, 1)
        o["verbose"] = r.randint(0, 2)
        jobs.append(("unknown", exe, n, u, args_of(None, o, r) + ["--algorithm", u] if not u.startswith("-") and u else
                     args_of(None, o, r) + ["--algorithm=" + u], env, o))
    if not quick:
        for i in range(200):
            base = r.choice(ALGOS)
            k = r.randint(0, len(base))
            u = base[:k] + r.choice("abcxyz_0 -") + base[k + r.randint(0, 1):]
            if u in ALGOS or u == "proposal":
                continue
            n, o, env = admissible(r, "semi")
            jobs.append(("unknown", apps[i % 2][1], n, u, args_of(None, o, r) + ["--algorithm=" + u], env, o))
    for i in range(24 if quick else 200):
        algo = (ONLY_TRANSPOSED + ("combined",))[i % 4]
        n, o, env = admissible(r, algo)
        o["transposed"] = r.choice(["0", "false", "no", "off"]) if algo != "combined" else r.choice(["1", "true", "yes"])
        if algo == "combined" and r.random() < 0.3:
            del o["transposed"]  # the default is transposed
        o["check"] = r.randint(0, 1)
        o["verbose"] = r.randint(0, 2)
        jobs.append(("refused", apps[(i // 4) % 2][1], n, algo, args_of(algo, o, r), env, o))
    for i in range(20 if quick else 120):
        algo = r.choice(ALGOS + [None, "bogus"])
        n, o, env = admissible(r, algo if algo in ALGOS and algo != "kernel_test" else "looped")
        if i < 2:
            o, algo = {}, None
        else:
            o["check"] = r.randint(0, 1)
            o["verbose"] = r.randint(0, 2)
        al = args_of(algo, o, r)
        al.insert(r.randint(0, len(al)), "--help")
        jobs.append(("help", apps[i % 2][1], n, algo, al, env, o))
    for i in range(96 if quick else 2000):
        algo = ALGOS[(i // 2) % len(ALGOS)]
        if algo == "kernel_test" and i % 3:
            algo = "kernel_tiled"
        n, o, env = admissible(r, algo, big=not quick and i % 5 == 0)
        if r.random() < 0.7:
            o["verbose"] = r.choice([0, 1, 2, 2, 3])
        if r.random() < 0.5:
            o["check"] = r.randint(0, 1)
        jobs.append(("runs", apps[i % 2][1], n, algo, args_of(algo, o, r), env, o))
    jobs.append(("runs", apps[0][1], 4, "single", [], {}, {}))

    def one(job):
        kind, exe, n, algo, args, env, o = job
        run = Run(e, exe, args, env)
        with e.lock:
            a["cases"] += 1
            a["events"] += 1
            a["distinct"].add(hashlib.sha1(repr((args, kind)).encode()).hexdigest()[:12])
            bump(a, kind)
            if kind == "runs":
                bump(a, algo)
            if a["counters"][kind] <= 2:
                a["samples"].append(kind + ": " + run.desc()[:200])
        if crash(e, a, run):
            return
        def bad(key, what):
            e.violation("dispatch", None, key, what, run.desc(), (run.out + run.err)[-3000:])
        reported = [l for l in run.lines if "total time" in l or "performance" in l or l.strip().endswith("matrix C:") or
                    "check passed" in l or "check failed" in l]
        if kind == "unknown":
            if run.rc != 1:
                bad("unknown-status", "status %d for an unknown algorithm" % run.rc)
            if not any("not a valid algorithm" in l and algo.strip() in l for l in (run.out + run.err).splitlines()):
                bad("unknown-message", "no message that the name is not valid")
            if reported:
                bad("unknown-result", "reports a result: " + reported[0])
        elif kind == "refused":
            if run.rc == 0:
                bad("refused-status", "success status although %s cannot do this orientation" % algo)
            if not any(algo in l and ("transpos" in l) for l in (run.out + run.err).splitlines()):
                bad("refused-message", "no error naming the algorithm")
            if reported:
                bad("refused-result", "reports a result: " + reported[0])
        elif kind == "help":
            if run.rc != 0:
                bad("help-status", "status %d" % run.rc)
            for x in OPTIONS:
                if "--" + x not in run.out:
                    bad("help-options", "option %s is not listed" % x)
                    break
            for x in ALGOS:
                if x not in run.out:
                    bad("help-options", "algorithm %s is not listed" % x)
                    break
            if reported or run.has("matrix A:"):
                bad("help-computes", "computes: " + (reported or ["matrix A"])[0])
        else:
            if run.rc != 0:
                return bad("status", "status %d for admissible parameters: %s" % (run.rc, run.err[-300:]))
            reps = 1 if algo in ONLY_TRANSPOSED else int(o.get("repetitions", 1))
            if not any("total time" in l and re.search(r"\[N = %d\]" % n, l) for l in run.lines):
                bad("reports-N", "no total time for N = %d" % n)
            if not any("average time per run" in l and re.search(r"\[N = %d\]" % n, l) and
                       re.search(r"repetitions = %d\)" % reps, l) for l in run.lines):
                bad("reports-repetitions", "no average over %d repetitions" % reps)
            loud = int(o.get("verbose", 0)) >= 2
            C = run.matrix("matrix C:", n)
            if loud:
                A, B = run.matrix("matrix A:", n), run.matrix("matrix B:", n)
                if not (well_formed(A, n) and well_formed(B, n) and well_formed(C, n)):
                    bad("product", "matrices A, B, C of order %d are not printed" % n)
                else:
                    d = product_differs(A, B, C, n)
                    with e.lock:
                        a["events"] += n * n
                        bump(a, "printed_products_compared")
                    if d:
                        bad("product", d)
            elif C is not None:
                bad("verbosity", "the product is printed although verbosity is below 2")
            if loud and well_formed(B, n) and any(B[i][j] != (i == j) for i in range(n) for j in range(n)):
                bad("operands", "the printed B is not the identity")
            ref = run.matrix("matrix Cref:", n)
            if (ref is not None) != (loud and int(o.get("check", 0)) == 1):
                bad("verbosity", "the reference product is %sprinted: verbosity %s, check %s" % (
                    "not " if ref is None else "", o.get("verbose", 0), o.get("check", 0)))
            elif ref is not None and well_formed(A, n) and well_formed(B, n):
                d = product_differs(A, B, ref, n) if well_formed(ref, n) else "not a matrix of order %d" % n
                if d:
                    bad("reference", "the printed reference product: " + d)
    drive(e, jobs, one)


# ------------------------------------------------------------------------ P25
def p25(e):
    apps = build_app(e)
    quick = e.tier == "quick"
    r = random.Random(e.seed * 15485863 + 25)
    a = agg(e, "program_failing", "program monitor (asan+release builds), fault injection")
    jobs = []
    for i in range(64 if quick else 1200):
        cfg, exe = apps[i % 2]
        algo = ("single", "pseudodynamic", "algorithms", "single", "pseudodynamic", "looped", "semi", "combined")[(i // 2) % 8]
        n, o, env = admissible(r, algo)
        o["check"], o["verbose"] = r.randint(0, 1), r.choice([0, 0, 2])
        kind = r.choice(["action", "after", "continuation"]) if algo in ("single", "pseudodynamic") else "loop"
        env["HPX_SHIM_FAULT"] = "throw:%s:%d" % (kind, r.choice([0, 0, 1, 2, 3, r.randint(0, 40)]))
        jobs.append((exe, n, algo, args_of(algo, o, r), env))

    def one(job):
        exe, n, algo, args, env = job
        run = Run(e, exe, args, env)
        applied = "FAULT applied" in run.err
        with e.lock:
            a["cases"] += 1
            a["events"] += 1
            a["distinct"].add(hashlib.sha1(repr((args, env)).encode()).hexdigest()[:12])
            bump(a, algo)
            bump(a, "faults_injected" if applied else "faults_not_reached")
            if len(a["samples"]) < 4:
                a["samples"].append(run.desc())
        if crash(e, a, run):
            return
        def bad(key, what):
            e.violation("program_failing", None, key, what, run.desc(), (run.out + run.err)[-3000:])
        result = [l for l in run.lines if "check passed" in l or "total time" in l or l.strip().endswith("matrix C:")]
        if not applied:
            if run.rc != 0:
                bad("status", "status %d although nothing failed: %s" % (run.rc, run.err[-300:]))
        elif run.rc == 0:
            C, A, B = (run.matrix("matrix %s:" % x, n) for x in "CAB")
            passed = any(l.strip() == "check passed" for l in run.lines)
            right = well_formed(A, n) and well_formed(B, n) and well_formed(C, n) and not product_differs(A, B, C, n)
            if not (right or passed):  # (whether the check is honest is P17)
                bad("silent", "a part of the multiplication failed, yet the program ends with status 0")
        elif result:
            bad("result", "a part of the multiplication failed, yet a result is reported: " + result[0])
    drive(e, jobs, one)


# ------------------------------------------------------------------------ P26
NUM = r"([-+]?(?:[0-9.]+(?:[eE][-+]?[0-9]+)?|inf|nan))"


def near(a, b, tol=4e-5):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b))


def p26(e):
    apps = build_app(e)
    quick = e.tier == "quick"
    r = random.Random(e.seed * 32452843 + 26)
    a = agg(e, "reported_figures", "program monitor (asan+release builds), injected delays, action trace")
    jobs = []
    for i in range(192 if quick else 3000):
        cfg, exe = apps[i % 2]
        algo = ALGOS[(i // 2) % len(ALGOS)]
        if algo == "kernel_test" and i % 3:
            algo = "kernel_tiled"
        if algo in ONLY_TRANSPOSED and r.random() < 0.3:
            algo = "pseudodynamic"
        n, o, env = admissible(r, algo, big=not quick and r.random() < 0.25)
        o["repetitions"] = r.choice([1, 2, 3, 5]) if algo != "kernel_test" else r.randint(1, 3)
        o["verbose"] = r.choice([0, 1, 1, 2]) if n < 64 else r.randint(0, 1)
        o["check"] = r.randint(0, 1)
        for x in ("repetitions", "verbose"):
            if r.random() < 0.1:
                o.pop(x)
        slow = r.choice([0, 4, 9, 25])
        if slow:
            env["HPX_SHIM_SLOW"] = env["MINIGOMP_SLOW"] = str(slow)
        if algo == "pseudodynamic":
            env["HPX_SHIM_TRACE"] = "1"
            env["HPX_SHIM_LOCALITIES"] = str(r.randint(1, 7))
            if o.get("verbose"):
                env["HPX_SHIM_MODE"] = "0"
        jobs.append((exe, n, algo, args_of(algo, o, r), env, o, slow))

    def one(job):
        exe, n, algo, args, env, o, slow = job
        t0 = time.time()
        run = Run(e, exe, args, env)
        wall = time.time() - t0
        with e.lock:
            a["cases"] += 1
            a["distinct"].add(hashlib.sha1(repr((args, env)).encode()).hexdigest()[:12])
            bump(a, algo)
            if len(a["samples"]) < 6:
                a["samples"].append(run.desc())
        if crash(e, a, run):
            return
        def bad(key, what):
            e.violation("reported_figures", None, key, what, run.desc(), (run.out + run.err)[-3000:])
        def one_of(pattern, what, must=True):
            m = [x for x in (re.search(pattern, l) for l in run.lines) if x]
            if len(m) != 1 and (must or m):
                bad("reported", "%s is reported %d times" % (what, len(m)))
                return None
            return m[0] if m else None
        if run.rc != 0:
            return bad("status", "ended with status %d for admissible parameters: %s" % (run.rc, run.err[-300:]))
        reps = int(o.get("repetitions", 1))
        done = 1 if algo in ONLY_TRANSPOSED else reps
        verbose = int(o.get("verbose", 0))
        tot = one_of(r"\[N = %d\] total time: %ss\s*$" % (n, NUM), "the total time")
        avg = one_of(r"\[N = %d\] average time per run: %ss \(repetitions = (\d+)\)" % (n, NUM), "the average time")
        perf = one_of(r"\[N = %d\] performance: %sGflops" % (n, NUM), "the performance")
        if not (tot and avg and perf):
            return
        total = float(tot.group(1))
        if not 0 < total <= wall * 1.00001:
            return bad("time", "a total time of %g s for a program that ran %.3f s" % (total, wall))
        if int(avg.group(2)) != done or not near(float(avg.group(1)), total / done):
            bad("average", "an average of %s s over %s runs, but %d runs took %g s" % (avg.group(1), avg.group(2), done, total))
        rate = done * 2e-9 * n ** 3 / total
        if not near(float(perf.group(1)), rate):
            bad("performance", "%s Gflops for %d runs of order %d in %g s (that is %g)" % (perf.group(1), done, n, total, rate))
        slept = sum(int(x) for x in re.findall(r"(?:HPX_SHIM|MINIGOMP)_SLEPT (\d+)", run.err))
        omp_slept = sum(int(x) for x in re.findall(r"MINIGOMP_SLEPT (\d+)", run.err))
        if slow and (slept - omp_slept >= done if not algo.startswith("kernel") else
                     omp_slept >= done + (1 if o.get("check") else 0)):
            with e.lock:
                bump(a, "delayed_runs")
            if total < done * slow * 0.999e-3:
                bad("time", "a total time of %g s although %d runs were delayed by %d ms each" % (total, done, slow))
        ref = one_of(r"naive matMult took %s \[s\]" % NUM, "the reference time", must=bool(o.get("check")))
        if ref:
            rp = one_of(r"\[N = %d\] performance reference: %s Gflops" % (n, NUM), "the reference performance")
            t = float(ref.group(1))
            if not 0 < t <= wall * 1.00001 or (slow and omp_slept and t < slow * 0.999e-3 and not algo.startswith("kernel")):
                bad("reference", "a reference time of %g s (program %.3f s, delay %d ms)" % (t, wall, slow))
            elif rp and not near(float(rp.group(1)), 2e-9 * n ** 3 / t):
                bad("reference", "%s Gflops for order %d in %g s" % (rp.group(1), n, t))
        events = 4
        if algo in ("combined", "kernel_tiled"):
            pads = one_of(r"x_pad = (\d+), y_pad = (\d+), k_pad = (\d+)", "the padding", must=verbose >= 1)
            dims = one_of(r"X = (\d+), Y = (\d+), K = (\d+)", "the padded size", must=verbose >= 1)
            if pads and dims:
                for g, d in ((1, "X"), (2, "Y"), (3, "K")):
                    if int(dims.group(g)) != n + int(pads.group(g)):
                        bad("padding", "%s = %s for N = %d and a padding of %s" % (d, dims.group(g), n, pads.group(g)))
                events += 3
            if algo == "combined":
                inner = one_of(r"duration inner: %ss" % NUM, "the inner duration")
                ip = one_of(r"X_size = (\d+), Y_size = (\d+), K_size = (\d+)\] inner performance: %sGflops" % NUM,
                            "the inner performance")
                if inner and ip:
                    t = float(inner.group(1))
                    x, y, k = (int(ip.group(g)) for g in (1, 2, 3))
                    if min(x, y, k) < n or (dims and [x, y, k] != [int(dims.group(g)) for g in (1, 2, 3)]):
                        bad("inner", "inner sizes %d, %d, %d for N = %d" % (x, y, k, n))
                    if not 0 < t <= total * 1.00001:
                        bad("inner", "an inner duration of %g s in a total of %g s" % (t, total))
                    elif slow and slept - omp_slept >= done and t < done * slow * 0.999e-3:
                        bad("inner", "an inner duration of %g s although %d runs were delayed by %d ms" % (t, done, slow))
                    elif not near(float(ip.group(4)), done * 2e-9 * x * y * k / t):
                        bad("inner", "%s Gflops for %d x %d x %d x %d in %g s" % (ip.group(4), done, x, y, k, t))
                    events += 3
        if algo in ONLY_TRANSPOSED:
            for on, p in ((verbose > 0, "verbose"), (reps > 1, "repetitions")):
                w = [l for l in run.lines if l.startswith("warning:") and '"%s"' % p in l]
                if len(w) != (1 if on else 0) or (on and '"%s"' % algo not in w[0]):
                    bad("warning", "%s has no effect on %s: warnings %s" % (p, algo, w))
            events += 2
        if algo == "pseudodynamic":
            calls = [l.split() for l in run.err.splitlines() if l.startswith("HPX_SHIM_TRACE ")]
            calls = [(int(c[2]), int(c[-1])) for c in calls if "distribute_recursively" in c[1] and c[3] == "0"]
            nodes = sorted(set(range(int(env["HPX_SHIM_LOCALITIES"]))) - ({0} if env["HPX_SHIM_LOCALITIES"] != "1" else set()))
            shown = [re.match(r"locality: (\d+) = (.*)$", l) for l in run.lines]
            shown = {int(m.group(1)): sorted(int(x) for x in re.findall(r"\[(\d+)\]", m.group(2))) for m in shown if m}
            if verbose >= 1:
                real = {}
                for i, node in enumerate(nodes):
                    sizes = sorted(s for l, s in calls if l == node)
                    real[i] = sizes[::reps]
                    if len(sizes) % reps:
                        bad("distribution", "locality %d computed %d packages in %d repetitions" % (node, len(sizes), reps))
                if shown != real:
                    bad("distribution", "printed distribution %s, computed %s" % (shown, real))
                with e.lock:
                    bump(a, "distributions_compared")
                    a["maxima"]["packages"] = max(a["maxima"].get("packages", 0), len(calls) // reps)
            elif shown:
                bad("distribution", "the distribution is printed without being asked for")
            events += 1
        with e.lock:
            a["events"] += events
    drive(e, jobs, one)


# ------------------------------------------------------------------------ P24
NAMES = {"naive": "multNaive", "transposed": "multTransposed", "counter": "multCounter", "exchanged": "multExchanged",
         "blocked2": "multBlocked2", "blocked4": "multBlocked4", "asm": "multASM", "gpu": "multGPU",
         "gpuasm": "multGPUASM", "register": "multRegister", "intrinLoop": "multIntrinLoop"}


def p24(e):
    import glob
    quick = e.tier == "quick"
    r = random.Random(e.seed * 1299709 + 24)
    a = agg(e, "benchmark", "recording stand-in kernels (asan+release builds)")
    src = os.path.join(REPO, "otherExperiments/benchmark.cpp")
    exes = []
    for cfg in ("asan", "rel"):
        opt = ["-O3", "-ffast-math", "-funsafe-math-optimizations"] if cfg == "rel" else []
        fl = ["-std=c++11"] + BASE + [x for x in CONFIGS[cfg] if not (opt and x.startswith("-O"))] + opt + ["-fopenmp"]
        f = e.obj(src, fl)
        others = [e.obj(s, fl) for s in sorted(glob.glob(os.path.join(REPO, "otherExperiments/*.cpp"))) if s != src]
        o, _, log = f.result()
        if o is None:
            raise HarnessError("cannot compile benchmark.cpp:\n" + log[-2000:])
        # the kernels the benchmark refers to are replaced by stand-ins of the same symbol name
        syms = {}
        for l in subprocess.run(["nm", "-u", o], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            s = l.split()[-1]
            m = re.match(r"_Z(\d+)(mult\w*)", s)
            if m:
                syms[m.group(2)[:int(m.group(1))]] = s
        gen = os.path.join(e.dir, "standins_%s.cpp" % cfg)
        with open(gen, "w") as g:
            g.write('#include <cstdint>\nvoid bench_record(const char *, double *, double *, double *, std::uint32_t);\n')
            for k, s in syms.items():
                g.write('void st_%s(double *A, double *B, double *C, std::uint32_t n) asm("%s");\n'
                        'void st_%s(double *A, double *B, double *C, std::uint32_t n) '
                        '{ bench_record("%s", A, B, C, n); }\n' % (k, s, k, k))
        own = [e.obj(gen, ["-std=c++14", "-O2", "-w"]).result(),
               e.obj(os.path.join(VERIF, "harness/bench_record.cpp"), ["-std=c++14", "-O3", "-w"]).result()]
        for x in own:
            if x[0] is None:
                raise HarnessError("cannot compile a stand-in:\n" + x[2][-2000:])
        ar = os.path.join(e.dir, "bench_%s.a" % cfg)
        objs = [x.result()[0] for x in others if x.result()[0]]
        cmd = [GXX] + LINK[cfg] + [o] + [x[0] for x in own]
        if objs:
            subprocess.run(["ar", "rcs", ar] + objs, check=True)
            cmd.append(ar)
        exe = os.path.join(e.dir, "bench_" + cfg)
        rc, log = e._cc(cmd + ["-fopenmp", "-Wl,--allow-multiple-definition", "-lpthread", "-o", exe])
        if rc:
            raise HarnessError("cannot link the benchmark:\n" + log[-2000:])
        exes.append((cfg, exe))
    patterns = ["zero", "ones", "last", "first", "corner", "row", "column", "random", "negative", "sparse", "two"]
    jobs = []
    k = 0
    for nm in NAMES:
        for t in range(2 if quick else 8):
            jobs.append((exes[k % 2][1] if quick else exes[(k // 2) % 2][1], [nm], patterns[(k * 5 + t + e.seed) % len(patterns)],
                         r.randint(1, 10**6)))
            k += 1
    jobs.append((exes[1][1], ["naive", "extra"], "random", 5))
    jobs.append((exes[1][1], ["gpu", "asm", "naive"], "last", 6))
    jobs.append((exes[0][1], [], "zero", 1))
    jobs.append((exes[1][1], [], "zero", 1))
    for u in ["", "Naive", "naiv", "naive2", "blocked", "blocked3", "regBlock", "multNaive", "GPU", "gpuas", "gpuasm2",
              "intrinloop", "all"] + (["transpose", "exchange", "counters", "as", "asm ", " asm", "registers"]
                                      if not quick else []):
        jobs.append((exes[1][1], [u], "zero", 1))

    def one(job):
        exe, args, pat, seed = job
        log = os.path.join(e.dir, "bench_%s.log" % hashlib.sha1(repr(job).encode()).hexdigest()[:12])
        env = {"BENCH_LOG": log, "BENCH_PATTERN": pat, "BENCH_SEED": str(seed),
               "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=1073741824"}
        rc, out, err, to = e.spawn([exe] + args, env, timeout=200)
        desc = "benchmark %s pattern=%s seed=%d" % (args, pat, seed)
        with e.lock:
            a["cases"] += 1
            a["distinct"].add(repr((args, pat)))
            if len(a["samples"]) < 8:
                a["samples"].append(desc)
        def bad(key, what):
            e.violation("benchmark", None, key, what, desc, (out + err)[-2000:])
        if to:
            return bad("hang", "did not finish")
        if rc < 0 or rc in (98, 99):
            return bad(*classify(rc, err))
        if rc != 0:
            return bad("status", "exit status %d" % rc)
        recs = [l.split() for l in open(log)] if os.path.exists(log) else []
        calls = [x for x in recs if x[0] == "call"]
        lines = out.splitlines()
        known = args and args[0] in NAMES
        with e.lock:
            bump(a, "kernel_calls", len(calls))
            bump(a, "known_names" if known else "no_or_unknown_name")
        m = [re.search(r"2n\^3 -> (\S+)", l) for l in lines]
        m = [x for x in m if x]
        if len(m) != 1:
            return bad("flops", "flop count printed %d times" % len(m))
        flops = float(m[0].group(1))
        chk = [l for l in lines if l.startswith("check:")]
        if not known:
            want = "unknown implementation" if args else "no implementation"
            if not any(want in l for l in lines):
                bad("message", "does not say '%s specified'" % want)
            if calls:
                bad("calls", "calls %s" % calls[0][1])
            if chk:
                bad("result", "prints a check value without a kernel")
            with e.lock:
                a["events"] += 3
            return
        if [c[1] for c in calls] != [NAMES[args[0]]]:
            return bad("calls", "calls %s instead of %s once" % ([c[1] for c in calls], NAMES[args[0]]))
        c = dict(x.split("=") for x in calls[0][2:])
        n = int(c["n"])
        if abs(flops - 2.0 * n ** 3) > 1e-9 * flops:
            bad("flops", "prints %g flops, but the kernel gets order %d" % (flops, n))
        for k, what in (("aligned", "operands are not 64-byte aligned"), ("disjoint", "operands overlap"),
                        ("A", "A is not constant 2"), ("B", "B is not the identity"), ("C", "C is not zero")):
            if c[k] != "1":
                bad("operands", what)
        norm = math.sqrt(int(c["sumsq"]))
        if len(chk) != 1:
            return bad("check", "check value printed %d times" % len(chk))
        got = float(chk[0].split(":")[1])
        if not abs(got - norm) <= 2e-11 * norm + 1e-300:
            bad("check", "prints check %r, the norm of the result is %r" % (got, norm))
        with e.lock:
            a["events"] += 3 * n * n
            a["maxima"]["n"] = max(a["maxima"].get("n", 0), n)
    drive(e, jobs, one)
