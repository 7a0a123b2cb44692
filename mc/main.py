"""Runs the check of one property:  python -m mc.main C01 [--tier quick|thorough]

Exit 0: the property held on everything explored (listed known findings are
printed); exit 1: VIOLATION lines; anything else: the check itself failed."""
import argparse
import importlib
import json
import os
import re
import sys
import time

from . import env

VERIF = env.VERIF
EVID = os.environ.get("VB_EVIDENCE", VERIF)  # development: several runs at once


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [e for e in data["findings"] if e["property"] == prop]


def make_matcher(entries):
    def matcher(hname, rec):
        dec = {}
        for n, l in rec["decisions"]:
            dec[n] = l
        for k, e in enumerate(entries):
            if e["harness"] != hname or e["kind"] != rec["kind"]:
                continue
            if all(dec.get(n) in (v if isinstance(v, list) else [v]) for n, v in e.get("where", {}).items()):
                if "message" in e and not re.search(e["message"], rec["message"]):
                    continue
                return k
        return None

    return matcher


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--harness")
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    env.load()
    from . import explore

    mod = importlib.import_module("checks." + a.property.lower())
    hs = mod.harnesses(a.tier)
    if a.harness:
        hs = {k: v for k, v in hs.items() if k == a.harness}
    entries = known_findings(a.property)
    results = explore.run(hs, workers=a.workers, matcher=make_matcher(entries), hang_s=getattr(mod, "HANG_S", 300))
    wall = time.time() - t0
    nviol = sum(len(r.violations) for r in results.values())
    traces = sum(r.traces for r in results.values())
    if traces == 0 and nviol == 0:
        print("no execution was explored")
        return 2
    rdir = os.path.join(EVID, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(a.property + "-"):
            os.unlink(os.path.join(rdir, f))
    samples = []
    for n, r in results.items():
        for s in r.samples[:2]:
            samples.append({"harness": n, **s})
    ev = {
        "property": a.property,
        "tier": a.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum(r.states for r in results.values()),
            "transitions": sum(r.transitions for r in results.values()),
            "traces_validated_against_impl": traces,
            "checks_evaluated": sum(r.checks for r in results.values()),
            "distinct_outcomes": sum(len(r.outcomes) for r in results.values()),
            "executions_replayed_for_determinism": sum(r.replayed for r in results.values()),
            "paths_outside_alphabet": sum(r.skipped for r in results.values()),
            "exhaustive": nviol == 0,
            "bounds": getattr(mod, "BOUNDS", ""),
            "harnesses": {n: {"states": r.states, "traces": r.traces, "outcomes": len(r.outcomes), "checks": r.checks} for n, r in results.items()},
            "samples": samples[:12],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(EVID, "evidence"), exist_ok=True)
    if not a.harness:
        tmp = os.path.join(EVID, "evidence", a.property + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, "evidence", a.property + ".json"))
    for n, r in results.items():
        print("%s %s: %d states, %d transitions, %d executions (%d outcomes, %d comparisons, %d skipped)" % (a.property, n, r.states, r.transitions, r.traces, len(r.outcomes), r.checks, r.skipped))
    seen = {}
    for r in results.values():
        for k, c in r.known.items():
            seen[k] = seen.get(k, 0) + c
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s (%d executions)" % (a.property, entries[k]["what"], seen[k]))
    i = 0
    for n, r in results.items():
        kinds = {}
        for v in sorted(r.violations, key=lambda v: len(v["choices"])):
            kinds.setdefault(v["kind"], []).append(v)
        for kind, vs in kinds.items():
            path = os.path.join(rdir, "%s-%d.json" % (a.property, i))
            i += 1
            with open(path, "w") as f:
                json.dump({"property": a.property, "tier": a.tier, "harness": n, **vs[0]}, f, indent=1)
            print("  %s/%s: %s" % (n, kind, vs[0]["message"]))
            print("    at " + ", ".join("%s=%s" % (x, y) for x, y in vs[0]["decisions"]))
            if a.v:
                for k, d in vs[0]["details"].items():
                    print("    %s: %s" % (k, d))
            print("VIOLATION property=%s replay=%s" % (a.property, path))
    print("%s %s: %.1f s" % (a.property, "violated" if nviol else "held on everything explored", wall))
    return 1 if nviol else 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
