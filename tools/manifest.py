#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS, NOT_APPLICABLE  # noqa: E402

ids = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, "
                         + c["oracle"],
            "level": "exploration",
            "level_note": c["note"] + " Seeded search, not exhaustive. Trusted: the simulator, its oracle, g++ and "
                          "AddressSanitizer. Assumes: " + "; ".join(c["assumptions"]) + "."})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check is being built")})
m["notes"] = ("No hooks in /repo: the clock, heap, console, streams, handlers and processes are all reached through "
              "existing interfaces or the linker. 'fix:' commits in /repo are listed in known-findings.txt.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
