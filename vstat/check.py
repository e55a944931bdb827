#!/usr/bin/env python3
"""python3 vstat/check.py <ID> [quick|thorough]   (exit 0: held, 1: violation, 2: the analysis could not be carried out)"""
import sys, os, json, signal, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from ir import BrokenAnalysis, TooLarge, TimeUp, REPO
import checks

ROOT = os.path.dirname(HERE)
EVID = os.environ.get("VSTAT_EVIDENCE", os.path.join(ROOT, "evidence"))


def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid]


def matches(f, v):
    return all(v.get(k) == f["match"][k] for k in f["match"])


def run(pid, tier, W=None, write=True):
    f, technique, rule = checks.CHECKS[pid]
    t = time.time()
    ctx = checks.Ctx(tier, W)
    try:
        f(ctx)
    except BrokenAnalysis as e:
        # what was found before the analysis had to give up stands
        if not any(ctx.keep(v) for r in ctx.rules + ctx.started for v in r.violations.values()): raise
        ctx.notes.append("analysis given up: %s" % e)
        for r in ctx.started:
            if r not in ctx.rules: ctx.rules.append(r)
    viol = [v for r in ctx.rules for v in r.violations.values() if ctx.keep(v)]
    obl = {}
    for r in ctx.rules:
        for k, s in r.obligations.items(): obl.setdefault(k, set()).update(s)
    known = known_findings(pid)
    new, listed = [], []
    for v in viol:
        k = next((f for f in known if matches(f, v)), None)
        (listed if k else new).append((v, k))
    return ctx, [v for v, _ in new], listed, obl, time.time() - t


LIMIT = 660


def undecided(pid, tier, why, wall):
    """the code is beyond the bounds of the analysis: nothing was found, and nothing is claimed"""
    _, technique, rule = checks.CHECKS[pid]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "technique": technique,
          "coverage": {"explanation": "NOT DECIDED on this tree, the analysis stopped: %s. The rule is: %s." % (why, rule), "obligations": 0, "notes": [why]},
          "wall_s": round(wall, 2), "violations": 0, "assumptions": checks.ASSUMPTIONS + checks.EXTRA_ASSUMPTIONS.get(pid, [])}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s: NOT DECIDED, the analysis stopped: %s" % (pid, why))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    try:
        if tier == "quick":
            def up(*a): raise TimeUp("no result within %d s" % LIMIT)
            signal.signal(signal.SIGALRM, up)
            signal.alarm(LIMIT)
        ctx, new, listed, obl, wall = run(pid, tier)
        signal.alarm(0)
    except (TooLarge, TimeUp) as e:
        signal.alarm(0)
        undecided(pid, tier, str(e), time.time() - t0)
        sys.exit(0)
    except BrokenAnalysis as e:
        print("ERROR: analysis not possible: %s" % e)
        sys.exit(2)
    nobl = sum(len(s) for s in obl.values())
    if nobl == 0 and not new:
        print("ERROR: no obligation of %s was found in the source" % pid)
        sys.exit(2)
    _, technique, rule = checks.CHECKS[pid]
    cov = {"explanation": rule + ". Obligations are the program points (or root exits) at which the rule had to hold; all of them were examined on every abstract path of the listed roots.",
           "obligations": nobl, "functions_analysed": len(ctx.functions), "basic_blocks": len(ctx.blocks), "abstract_states": ctx.states, "roots": ctx.roots,
           "obligation_kinds": {k: sorted(s)[:40] for k, s in sorted(obl.items())}, "functions": sorted(ctx.functions),
           "calls_without_model": dict(sorted(ctx.unknown.items())), "notes": ctx.notes}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "technique": technique,
          "coverage": cov, "wall_s": round(wall, 2), "violations": len(new),
          "assumptions": checks.ASSUMPTIONS + checks.EXTRA_ASSUMPTIONS.get(pid, [])}
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, "replay-%s.json" % pid)
    if new: ev["counterexamples"] = [v["message"] for v in new]
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    for w in sorted({k["what"] for _, k in listed}):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    if new:
        json.dump(new, open(replay, "w"), indent=1)
        for v in new:
            print("%s: [%s/%s] %s (in %s, root %s)" % (v["where"], v["rule"], v["kind"], v["message"], v["function"], v["root"]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        sys.exit(1)
    if os.path.exists(replay): os.remove(replay)
    print("%s: held, %d obligations in %d functions, %d roots, %.1f s" % (pid, nobl, len(ctx.functions), len(ctx.roots), wall))


if __name__ == "__main__":
    main()
