"""what is run for each property"""
from engine import Unit, HarnessError
import cli


PASSIVE = {"OMP_WAIT_POLICY": "passive", "GOMP_SPINCOUNT": "0", "OMP_DYNAMIC": "false"}

COUNT = ["-fsanitize-coverage=trace-pc"]


class Spec:
    def __init__(self, units, rule, assumptions=(), level="exploration", custom=None, keep=None):
        self.keep = keep  # which kinds of failure concern this property (default: all)
        self.units, self.rule, self.assumptions, self.level, self.custom = units, rule, list(assumptions), level, custom


SHIM = "HPX is not installable here: its API is served by /verif/shim, which runs tasks, continuations and parallel " \
       "loops in seeded orders and on real threads; the repository's own sources run unmodified on top of it."
VC = "Vc is not installable here: /verif/shim/Vc provides 4-lane double vectors with alignment checks."
ORACLE = "The reference product is computed independently: exactly for integer-valued operands, in extended precision " \
         "with a forward error bound otherwise."


def variant(name, define, cases, rel_cases, secs=(25, 300)):
    return [
        Unit(name + "_asan", "h_variant.cpp", "asan", cases, [define], "common", shim=True, secs=secs),
        Unit(name + "_rel", "h_variant.cpp", "rel", rel_cases, [define], "common", shim=True, secs=secs),
        Unit(name + "_fast", "h_variant.cpp", "fast", (0, rel_cases[1]), [define], "common", shim=True, secs=secs),
    ]


RULE_VAR = "Cases are drawn from a seeded generator: order, block sizes (dividing, not dividing, larger than the " \
           "matrix, zero), orientation, repetitions, verbosity, operand content and the execution environment. A case " \
           "is distinct by its parameter tuple; every case compares each entry of the result with the oracle."

RULE_GEN = "Cases are drawn from a seeded generator over the parameters named in the samples; a case is distinct by its " \
           "parameter tuple. Every result element (index, element, printed token, event) is compared with an " \
           "independently computed expectation."


def pair(name, main, cases, rel_cases, defines=(), sources=None, shim=False, secs=(20, 300), cfgs=("asan", "rel"), **kw):
    c = dict(zip(cfgs, (cases, rel_cases)))
    return [Unit("%s_%s" % (name, k), main, k, c[k], list(defines), sources, shim=shim, secs=secs, **kw) for k in cfgs]


# boost's aligned allocation is made to fail like operator new
FAILALLOC = ["-Dposix_memalign=failing_posix_memalign"]

SPECS = {
    "P01": Spec(pair("naive", "h_naive.cpp", (2400, 30000), (6000, 80000)) +
                [Unit("naive_fast", "h_naive.cpp", "fast", (0, 80000), secs=(0, 300))], RULE_GEN, [ORACLE]),
    "P02": Spec(pair("kernel", "h_kernel.cpp", (12000, 150000), (20000, 300000)) +
                [Unit("kernel_fast", "h_kernel.cpp", "fast", (0, 300000), secs=(0, 300))], RULE_GEN, [ORACLE]),
    "P03": Spec(pair("simd", "h_variant.cpp", (96, 700), (320, 4000), ["V_KERNEL_TEST", "V_KERNEL_TILED"],
                     "reference") +
                [Unit("simd_fast", "h_variant.cpp", "fast", (0, 4000), ["V_KERNEL_TEST", "V_KERNEL_TILED"], "reference",
                      secs=(0, 300))] +
                [Unit("simd_known", "h_variant.cpp", "asan", (2, 2), ["V_KERNEL_TEST", "V_KNOWN"], "reference")],
                RULE_VAR, [VC, ORACLE]),
    "P04": Spec(variant("combined", "V_COMBINED", (64, 400), (200, 2000)), RULE_VAR, [SHIM, VC, ORACLE]),
    "P05": Spec(variant("algorithms", "V_ALGORITHMS", (2400, 30000), (4000, 60000)), RULE_VAR, [SHIM, ORACLE]),
    "P06": Spec(variant("looped", "V_LOOPED", (1600, 16000), (3000, 40000), secs=(14, 300)), RULE_VAR, [SHIM, ORACLE]),
    "P07": Spec(variant("semi", "V_SEMI", (2400, 30000), (4000, 60000)), RULE_VAR, [SHIM, ORACLE]),
    "P08": Spec(variant("single", "V_SINGLE", (1200, 12000), (2000, 30000)), RULE_VAR, [SHIM, ORACLE]),
    "P09": Spec(variant("pseudodynamic", "V_PSEUDODYNAMIC", (1200, 12000), (2000, 30000)), RULE_VAR, [SHIM, ORACLE]),
    "P11": Spec(pair("tiling", "h_tile.cpp", (9000, 90000), (12000, 200000), ["T_LAYOUT"]), RULE_GEN),
    "P12": Spec(pair("views", "h_tile.cpp", (3600, 40000), (6000, 80000), ["T_VIEW"]), RULE_GEN),
    "P13": Spec(pair("index_memory", "h_index.cpp", (4000, 60000), (4000, 60000), ["I_MEMORY"], shim=True, secs=(9, 120)) +
                pair("index_variants", "h_index.cpp", (4000, 60000), (4000, 60000), ["I_VARIANTS"], shim=True, secs=(9, 120)) +
                pair("index_looped", "h_index.cpp", (4000, 60000), (4000, 60000), ["I_LOOPED"], shim=True, secs=(9, 120)) +
                pair("learning", "h_learn.cpp", (500, 3000), (500, 3000), secs=(9, 60)), RULE_GEN, [SHIM]),
    "P20": Spec(pair("helpers", "h_util.cpp", (12000, 120000), (20000, 200000)), RULE_GEN),
    "P22": Spec(pair("allocator", "h_alloc.cpp", (12000, 200000), (20000, 400000)), RULE_GEN,
                ["In the release build, global operator new/delete are replaced by a ledger; in the sanitizer build "
                 "AddressSanitizer and LeakSanitizer watch the same calls."]),
    "P10": Spec(pair("schedule", "h_sched.cpp", (3000, 40000), (5000, 80000), sources="common", shim=True), RULE_GEN,
                [SHIM, "The action that computes a package is replaced by a stand-in; the packages are read from the "
                 "actions the real scheduling code issues."]),
    "P19": Spec(pair("errors", "h_err.cpp", (6000, 60000), (6000, 60000), ["E_VARIANTS"], shim=True, secs=(12, 120)) +
                pair("errors_memory", "h_err.cpp", (3000, 30000), (3000, 30000), ["E_MEMORY"], shim=True,
                     secs=(12, 120)), RULE_GEN, [SHIM]),
    "P21": Spec(pair("printing", "h_print.cpp", (8000, 80000), (12000, 120000), shim=True), RULE_GEN, [SHIM]),
    "P23": Spec(pair("experiments", "h_exp.cpp", (330, 3300), (1100, 11000), sources="exp", std="c++14") +
                # the code for machines without fused multiply-add
                [Unit("experiments_nofma_rel", "h_exp.cpp", "rel", (330, 3300), [], "exp", std="c++14",
                      cflags=["-mno-fma"], secs=(15, 240))], RULE_GEN,
                [ORACLE]),
    "P14": Spec(
        [Unit("race_variants_tsan", "h_race.cpp", "tsan", (240, 3000), ["R_VARIANTS"], "common", shim=True, secs=(30, 420)),
         Unit("race_reference_tsan", "h_race.cpp", "tsan", (160, 1600), ["R_REF"], "reference", secs=(15, 240)),
         Unit("race_experiments_tsan", "h_race.cpp", "tsan", (132, 880), ["R_EXP"], "exp", secs=(15, 240)),
         Unit("race_variants_rel", "h_race.cpp", "rel", (400, 6000), ["R_VARIANTS"], "common", shim=True, secs=(12, 240)),
         Unit("race_reference_rel", "h_race.cpp", "rel", (300, 4000), ["R_REF"], "reference", omp="real", secs=(8, 120)),
         Unit("race_experiments_rel", "h_race.cpp", "rel", (330, 3300), ["R_EXP"], "exp", omp="real", secs=(8, 120))],
        "Each case multiplies the same real-valued operands once sequentially and then under several thread counts, "
        "schedules and injected delays; ThreadSanitizer watches every access and the results are compared bit for bit. "
        "A run is distinct by order, blocks, thread count and schedule seed.", [SHIM, VC,
        "A small OpenMP runtime made of instrumented pthread code replaces libgomp under ThreadSanitizer."]),
    "P27": Spec(
        [Unit("together_tsan", "h_conc.cpp", "tsan", (560, 6000), [], "common", shim=True, secs=(25, 420)),
         Unit("together_exp_tsan", "h_conc.cpp", "tsan", (132, 1320), ["C_EXP"], "exp", secs=(12, 240)),
         Unit("together_rel", "h_conc.cpp", "rel", (2400, 30000), [], "common", shim=True, omp="real", secs=(12, 240)),
         Unit("together_exp_rel", "h_conc.cpp", "rel", (550, 6600), ["C_EXP"], "exp", omp="real", secs=(8, 120))],
        "Each case starts 2 to 8 multiplications or helpers at the same time, each on a thread of its own, half of the "
        "time all of one kind; ThreadSanitizer watches every access and every result is compared with the oracle. A case "
        "is distinct by what ran together on which parameters.", [SHIM, VC, ORACLE,
        "A small OpenMP runtime made of instrumented pthread code replaces libgomp under ThreadSanitizer."]),
    "P29": Spec(
        [Unit("memory_asan", "h_mem.cpp", "asan", (900, 12000), [], "common", shim=True, omp="real", secs=(25, 300)),
         Unit("memory_exp_asan", "h_mem.cpp", "asan", (220, 2200), ["C_EXP"], "exp", omp="real", secs=(10, 120))],
        "Each case watches every allocation and release: over 27 calls in a row what is in use after a call must not keep "
        "growing, and the most that is in use with 12 repetitions must be what 2 repetitions need. A case is distinct by "
        "operation and parameters.", [SHIM, VC, ORACLE]),
    "P30": Spec(
        [Unit("settings_rel", "h_env.cpp", "rel", (2000, 30000), [], "common", shim=True, omp="real", secs=(12, 240)),
         Unit("settings_exp_rel", "h_env.cpp", "rel", (550, 6600), ["C_EXP"], "exp", omp="real", secs=(8, 120))],
        "Each case records some twenty settings of the thread, its OpenMP workers and the process, makes one or two calls "
        "with known values in the registers a function must preserve, and compares all of them. A case is distinct by "
        "operation, parameters and initial settings.", [SHIM, VC, ORACLE]),
    "P31": Spec(
        [Unit("spread_rel", "h_par.cpp", "rel", (128, 3200), [], "common", shim=True, omp="real", secs=(25, 240), env=PASSIVE,
              exact_cases=True),
         Unit("spread_exp_rel", "h_par.cpp", "rel", (80, 1600), ["C_EXP"], "exp", omp="real", secs=(15, 150), env=PASSIVE,
              exact_cases=True)],
        "Each case runs one multiplication that has several parts to compute and finds how long it takes at least: the "
        "longest chain of tasks and loop items that wait for each other, the processor time of the busiest OpenMP thread, "
        "and the time any one lock is held. Work divided by that must exceed one by a margin that grows with the number of "
        "parts. A case is distinct by operation, parameters and numbers of parts, workers and nodes.", [SHIM, VC]),
    "P32": Spec(
        [Unit("cost_rel", "h_cost.cpp", "rel", (320, 6000), [], "common", shim=True, omp="real", secs=(20, 240), cflags=COUNT),
         Unit("cost_exp_rel", "h_cost.cpp", "rel", (66, 660), ["C_EXP"], "exp", omp="real", secs=(12, 120), cflags=COUNT)],
        "Every basic block of the repository's code is compiled with a counter and every allocation is counted. One operation "
        "runs at an order and at twice that order with the same block sizes, and then with two and six repetitions. The "
        "number of steps may grow by what a cubic algorithm needs (a quadratic one for the helpers), the memory held by what "
        "a quadratic amount needs, and a repetition must cost about what the first run does and hold nothing more. A case is "
        "distinct by operation, order, block sizes and number of nodes.", [SHIM, VC]),
    "P28": Spec(
        [Unit("special_%s_%s" % (n, c), m, c, k, d + ["SPECIAL_VALUES"], src, shim=src == "common",
              secs=((8, 120) if c == "rel" else (0, 120)))
         for n, m, d, src, kr, ka in (
             ("naive", "h_naive.cpp", [], None, (3000, 40000), (0, 10000)),
             ("kernel", "h_kernel.cpp", [], None, (9000, 150000), (0, 40000)),
             ("simd", "h_variant.cpp", ["V_KERNEL_TEST", "V_KERNEL_TILED"], "reference", (160, 2000), (0, 300)),
             ("combined", "h_variant.cpp", ["V_COMBINED"], "common", (120, 1000), (0, 200)),
             ("algorithms", "h_variant.cpp", ["V_ALGORITHMS"], "common", (1600, 30000), (0, 8000)),
             ("looped", "h_variant.cpp", ["V_LOOPED"], "common", (1200, 20000), (0, 6000)),
             ("semi", "h_variant.cpp", ["V_SEMI"], "common", (1600, 30000), (0, 8000)),
             ("single", "h_variant.cpp", ["V_SINGLE"], "common", (900, 12000), (0, 4000)),
             ("pseudodynamic", "h_variant.cpp", ["V_PSEUDODYNAMIC"], "common", (900, 12000), (0, 4000)))
         for c, k in (("rel", kr), ("asan", ka))],
        RULE_VAR, [SHIM, VC, "Every value is an integer (possibly scaled by one power of two), an infinity or a NaN, so "
                   "that IEEE arithmetic gives one answer in every order of summation.",
                   "Compiled without -ffast-math, as by the CMake build; the SCons build's -ffast-math gives up what is "
                   "required here."]),
    "P16": Spec(pair("repeat", "h_rep.cpp", (440, 6600), (1320, 20000), sources="common", shim=True, secs=(20, 300)),
                "Each case multiplies with one repetition, calls the same object again, and multiplies with R > 1 "
                "repetitions on a new object; all results are compared bit for bit with the first.", [SHIM, VC]),
    "P25": Spec(pair("failing", "h_fail.cpp", (4000, 60000), (8000, 120000), ["F_VARIANTS"], "common", shim=True,
                     secs=(14, 240), cflags=FAILALLOC) +
                pair("exhausted", "h_fail.cpp", (1600, 16000), (3300, 33000), [], "reference", secs=(8, 120),
                     cflags=FAILALLOC),
                "Each case runs one operation in which something was made to fail: the k-th task, continuation, loop "
                "item, or allocation (for the parts without runtime every k in turn). An exception must arrive or the "
                "result be right; the operation is then repeated undisturbed and its result compared.", [SHIM, VC],
                custom=cli.p25),
    "P17": Spec([], "Each case runs the command-line program with admissible parameters drawn from a seeded generator, "
                "checked or not, with or without a fault injected into the computed result; the verdict line is "
                "compared with what is known about the result, the printed matrices with each other.", [SHIM, VC],
                level="exploration", custom=cli.p17),
    "P18": Spec([], "Each case runs the command-line program once: unknown names, orientations an algorithm cannot do, "
                "help requests, and admissible parameters; exit status and output are compared with the expectation.",
                [SHIM, VC], custom=cli.p18),
    "P26": Spec([], "Each case runs the command-line program once, most with known delays injected into every run of the "
                "multiplication; the printed times, rates, sizes, warnings and work distribution are compared with each "
                "other, with the injected delays, the time the program took and the recorded remote actions.",
                [SHIM, VC], custom=cli.p26),
    "P24": Spec([], "Each case runs the benchmark with stand-in kernels that record their arguments and store a result "
                "of exactly known norm.", ["The kernels are replaced by recording stand-ins under the same symbol names."],
                custom=cli.p24),
    "P15": Spec(
        [Unit("mem_%s_%s" % (n, c), "h_variant.cpp", c, k, d + (["COST=0"] if c == "vg" else []), src, shim=src == "common",
              secs=((8, 120) if c == "asan" else (12, 240)))
         for n, d, src, ka, kv in (
             ("simd", ["V_KERNEL_TEST", "V_KERNEL_TILED"], "reference", (48, 400), (8, 60)),
             ("combined", ["V_COMBINED"], "common", (32, 200), (8, 24)),
             ("algorithms", ["V_ALGORITHMS"], "common", (1200, 9000), (160, 1600)),
             ("looped", ["V_LOOPED"], "common", (800, 6000), (160, 1600)),
             ("semi", ["V_SEMI"], "common", (1200, 9000), (160, 1600)),
             ("single", ["V_SINGLE"], "common", (500, 4000), (64, 640)),
             ("pseudodynamic", ["V_PSEUDODYNAMIC"], "common", (500, 4000), (64, 640)))
         for c, k in (("asan", ka), ("vg", kv))] +
        [Unit("mem_%s_%s" % (n, c), m, c, k, d + (["COST=0"] if c == "vg" else []), src,
              secs=((6, 100) if c == "asan" else (10, 200)))
         for n, m, d, src, ka, kv in (
             ("naive", "h_naive.cpp", [], None, (1200, 12000), (80, 800)),
             ("kernel", "h_kernel.cpp", [], None, (6000, 60000), (240, 2400)),
             ("tiling", "h_tile.cpp", ["T_LAYOUT"], None, (4000, 40000), (160, 1600)),
             ("views", "h_tile.cpp", ["T_VIEW"], None, (1600, 16000), (80, 800)),
             ("helpers", "h_util.cpp", [], None, (4000, 40000), (160, 1600)),
             ("experiments", "h_exp.cpp", [], "exp", (220, 2200), (33, 330)))
         for c, k in (("asan", ka), ("vg", kv))],
        "The workloads of the other properties, watched by AddressSanitizer + UndefinedBehaviorSanitizer + LeakSanitizer "
        "(exactly sized operands, guarded heap) and by memcheck (definedness of every byte a branch or the result "
        "depends on). A case is distinct by its parameter tuple.", [SHIM, VC, ORACLE],
        keep=lambda key: key in ("ubsan", "leak", "memcheck", "signal", "assertion", "misaligned") or
        key.startswith("asan:") or key.endswith((":operand", ":outside"))),
}
