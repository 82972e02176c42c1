#!/usr/bin/env python3
"""Write MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
TECH = ("stateless model checking of the compiled library: exhaustive enumeration of all choice "
        "sequences (program operations, scheduling, environment answers) under a controlled "
        "scheduler and virtual kernel; ")
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "check not built yet; planned with the same explorer"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run.py " + p["id"],
        "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": TECH + c["oracle"],
        "level": "model_checking",
        "level_note": c["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": checks,
    "hooks": {"guard": "none", "enable": "no hooks are needed", "source_commits": []},
    "not_applicable": na,
    "notes": "All checks rebuild the library from /repo's working tree with compiler "
             "instrumentation and renamed system calls; no hooks are needed in /repo. A violation "
             "is replayed twice before it is reported; `python3 run.py ID --replay FILE` shows the "
             "history of a replay file.",
}
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
