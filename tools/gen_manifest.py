#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the registered checks"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "vstat"))
import checks

NA = {
    "C28": "Equality of a value before packing and after unpacking is a statement about run-time values and about the bundled msgpack code; no sound static argument in reach bounds it. The structural part (field order, types, argument count) is C24.",
    "C29": "Liveness under fairness quantifies over infinite schedules of several processes; the necessary conditions that are visible in the code (wake-ups, bounded waits, no deadlock, every failure answered) are claimed as C01, C04, C06 and C26.",
}
PENDING = "Not built yet."
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
ck, na = [], []
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        f, tech, rule = checks.CHECKS[i]
        ck.append({"property": i, "quick_cmd": "python3 vstat/check.py %s quick" % i, "thorough_cmd": "python3 vstat/check.py %s thorough" % i,
                   "technique": tech, "level": "other",
                   "level_note": "Static: path-sensitive dataflow over the LLVM IR of the current sources, on every abstract path of all entry points; the library code outside /repo is represented by models. Decides: %s." % rule})
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
m = {"version": 1, "setup_cmd": "python3 vstat/setup.py", "checks": ck, "not_applicable": na,
     "notes": "See DESIGN.md. Nothing of /repo is executed by any check."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(ck), "checks,", len(na), "not applicable")
