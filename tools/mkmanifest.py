#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks as CH
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = ("Randomised search (choice-sequence generators with shrinking, seed fixed by VERIF_SEED) over %s; the real library, built from "
        "/repo's working tree both file by file and as the committed amalgamation, is compared with %s. Shows presence of violations "
        "and the absence of any in the generated cases, not a proof. Trusts the generator's preconditions (DESIGN.md), gcc -O1 and AddressSanitizer.")
m = {"version": 1, "setup_cmd": "./run_check --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CH.CHECKS:
        s = CH.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "./run_check " + i, "thorough_cmd": "./run_check " + i, "evidence_file": "evidence/%s.json" % i,
                            "technique": s["technique"], "level": "exploration", "level_note": NOTE % (s["over"], s["oracle"])})
    else:
        m["not_applicable"].append({"property": i, "reason": CH.NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
