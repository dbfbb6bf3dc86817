#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_data.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks_data import CHECKS, NOT_APPLICABLE
checks = []
for p, c in sorted(CHECKS.items()):
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p, "evidence_file": "evidence/%s.json" % p,
        "technique": "symbolic execution of the compiled LLVM IR with Z3 (symx), counterexamples replayed natively", "level": "model_checking",
        "level_note": "Holds for every input within the bounds: " + c["bounds"] + ". Trusts Z3, rustc's IR and the symx executor (path witnesses cross-checked natively)." + (" " + c["note"] if c.get("note") else "")})
claimed = set(CHECKS)
na = [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items()) if p not in claimed]
for line in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(line)["id"]
    if i not in claimed and i not in NOT_APPLICABLE: na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": sorted(na, key=lambda x: x["property"]),
     "notes": "No hooks in /repo: harnesses use public interfaces only. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
