#!/usr/bin/env python3
"""check runner: run.py <property> [quick|thorough] | run.py <property> --replay FILE"""
import json, os, signal, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from engine import Engine, HarnessError, VERIF
import props


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                # known: property=P key=<key>[,<key>...] match=<text in the case description> | what
                body, _, what = line.partition(" | ")
                f = dict(x.split("=", 1) for x in body.split()[1:] if "=" in x)
                out.append((f.get("key"), body.partition(" match=")[2], what))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough") else \
        os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    spec = props.SPECS[prop]
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    t0 = time.time()
    if replay:
        rp = json.load(open(replay))
        seed, tier = rp["seed"], rp["tier"]
    e = Engine(prop, tier, seed)

    def terminated(*a):  # leave nothing running
        e.stop()
        sys.exit(143)
    signal.signal(signal.SIGTERM, terminated)
    e.keep = spec.keep
    try:
        if replay and rp.get("unit") in [u.name for u in spec.units]:
            u = [u for u in spec.units if u.name == rp["unit"]][0]
            e.run_unit(u, e.link(e.start_build(u)), only=rp["case"])
        else:
            e.run_units(spec.units)
            if spec.custom and not (e.violations and tier == "quick"):
                spec.custom(e)
    except HarnessError as x:
        print("HARNESS-ERROR property=%s %s" % (prop, x))
        return 2
    finally:
        e.close()
    known = known_findings(prop)
    fresh, old = [], []
    for v in e.violations:
        hit = [k for k in known if v["key"] in k[0].split(",") and k[1] in (v["desc"] or "")]
        (old if hit else fresh).append((v, hit))
    for k in {h[0] for _, h in old if h}:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    evaluations = sum(max(s["cases"], s.get("runs", 0)) for s in e.stats)  # a case may consist of several runs
    distinct = set()
    for s in e.stats:
        distinct |= {s["unit"] + ":" + d for d in s["distinct"]}
    samples = []
    for s in e.stats:
        samples += ["%s: %s" % (s["unit"], x) for x in s["samples"][:3]]
    cov = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(distinct),
        "rule": spec.rule,
        "samples": samples[:24] or ["none"],
        "oracle_comparisons": sum(s["events"] for s in e.stats),
        "monitors": [{"unit": s["unit"], "monitor": s["monitor"], "cases": s["cases"],
                      "complete": s["complete"], "observed": s["counters"], "maxima": s["maxima"]} for s in e.stats],
        "notes": sorted(set(e.notes))[:40],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.level, "coverage": cov,
          "assumptions": spec.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    if not replay:
        with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for i, (v, _) in enumerate(fresh[:5]):
        path = os.path.join(ev_dir, "replay_%s_%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "unit": v["unit"], "case": v["case"],
                       "key": v["key"], "what": v["what"], "input": v["desc"], "monitor_log": v["log"],
                       "replay_cmd": "python3 /verif/lib/run.py %s --replay %s" % (prop, path)}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s [%s] %s | %s" % (v["unit"], v["key"], v["what"][:400], (v["desc"] or "")[:400]))
    if not fresh:
        if evaluations == 0:
            print("HARNESS-ERROR property=%s nothing was evaluated" % prop)
            return 2
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (prop, evaluations, len(distinct),
                                                                        time.time() - t0))
        return 0
    return 1


if __name__ == "__main__":
    sys.exit(main())
