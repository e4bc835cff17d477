"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORA = "independent exact/extended-precision product oracle"
T = {
 "P01": "ASan/UBSan + release runs of the naive multiplication against an " + ORA,
 "P02": "ASan/UBSan + release runs of the block kernels against an " + ORA + ", guarded outputs",
 "P03": "ASan/UBSan + release runs of the SIMD kernels with alignment-checking vector stand-in against an " + ORA,
 "P04": "sanitized and release runs on a seeded runtime stand-in against an " + ORA,
 "P05": "sanitized and release runs on a seeded runtime stand-in against an " + ORA,
 "P06": "sanitized and release runs against an " + ORA,
 "P07": "sanitized and release runs against an " + ORA,
 "P08": "sanitized and release runs under reordered and threaded task schedules against an " + ORA,
 "P09": "sanitized and release runs on simulated localities under reordered and threaded schedules against an " + ORA,
 "P10": "trace checker over the remote actions issued by the real scheduler",
 "P11": "sanitized round-trip monitoring of tiling against a closed formula",
 "P12": "address monitor on tile views and visitor trace checker",
 "P13": "visited-index multiset monitor (exactly once, in range)",
 "P14": "ThreadSanitizer under schedule and delay injection; bitwise comparison across schedules",
 "P15": "AddressSanitizer, UBSan, LeakSanitizer and memcheck over all workloads",
 "P16": "bitwise monitor over repetition counts and call histories, sanitized",
 "P17": "program output monitor with injected faults in the computed result",
 "P18": "program output and exit-status monitor",
 "P19": "exception and message-lifetime monitor under ASan",
 "P20": "sanitized runs of the helpers against independent expectations",
 "P21": "output monitor on the printing functions, sanitized",
 "P22": "allocation ledger and ASan over call histories",
 "P23": "sanitized and release runs of the experiment kernels against an " + ORA,
 "P25": "fault injection into parts and allocations; exception-or-right-product oracle under ASan",
 "P26": "program output monitor against injected delays and the recorded action trace",
 "P27": "ThreadSanitizer and product oracle over multiplications started at the same time",
 "P28": "release and sanitized runs on operands with special values against an exact IEEE oracle",
 "P29": "allocation monitor (sanitizer hooks) over series of calls and repetition counts",
 "P30": "settings and register monitor around each call",
 "P31": "critical-path, thread-share and lock-holding monitor",
 "P32": "basic-block and allocation counters (compiler instrumentation) against growth limits",
 "P24": "recording stand-in kernels and output monitor on the benchmark",
}
SHIM = "HPX/Vc are replaced by the stand-ins in /verif/shim (not installable offline); the repository's sources run unmodified on them."
NOTE = {p: "Holds on every generated case; reach comes from seeded workload diversity, not enumeration." for p in T}
for p in ("P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P14", "P15", "P16", "P17", "P18", "P19", "P21", "P25", "P26", "P27", "P28", "P29", "P30", "P31", "P32"):
    NOTE[p] += " " + SHIM
checks = [{"property": p, "quick_cmd": "python3 lib/run.py %s quick" % p, "thorough_cmd": "python3 lib/run.py %s thorough" % p,
           "evidence_file": "evidence/%s.json" % p, "technique": T[p], "level": "exploration", "level_note": NOTE[p]}
          for p in sorted(T)]
m = {"version": 1, "setup_cmd": "python3 lib/selfcheck.py", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo are needed; every check compiles /repo's working tree itself."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
