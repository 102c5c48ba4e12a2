#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "bin"))
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
NA = {}
na_path = os.path.join(HERE, "not_applicable.json")
if os.path.exists(na_path):
    NA = json.load(open(na_path))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 bin/check.py %s" % i,
            "thorough_cmd": "python3 bin/check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "property-based testing: generated inputs and histories against an independent oracle, with shrinking (own choice-sequence engine, lib/pbt.hpp)",
            "level": "exploration",
            "level_note": CHECKS[i].get("note") or ("Explores generated cases only: " + CHECKS[i]["rule"] + ". Not a proof; inputs outside of the generators are not covered."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 bin/check.py --build",
    "checks": checks,
    "hooks": {"guard": "NIL_BLUEPRINT_VERIF_HOOKS", "enable": "no hooks are used; the guard is reserved", "source_commits": []},
    "not_applicable": na,
    "notes": "All checks build their harnesses (harness/*.cpp) from the working tree of /repo; build output goes to build/, failing cases to replays/. "
             "python3 bin/check.py ID --replay FILE replays a recorded case. Commits in /repo are fixes only, listed in known_findings.txt.",
}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
