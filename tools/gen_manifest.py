#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plan."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN, NOT_APPLICABLE
ROOT = os.path.dirname(HERE)
ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
checks = [{
    "property": i,
    "quick_cmd": "python3 check.py %s" % i,
    "thorough_cmd": "python3 check.py %s" % i,
    "evidence_file": "evidence/%s.json" % i,
    "technique": "deterministic simulation with fault injection: seeded search over schedules and faults",
    "level": "exploration",
    "level_note": PLAN[i]["note"],
} for i in ids if i in PLAN]
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in PLAN]
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks were added to /repo: every seam is at the compiler (instrumentation), linker and HTTP library. "
              "Commits in /repo are fixes only. Replay a violation with: python3 check.py --replay FILE [-v]."}
open(ROOT + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
