#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the harness directories and the reasons below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = "symbolic execution of the repository's Go SSA with SMT (z3) deciding every branch and assertion; counterexamples replayed on the real code"
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    d = os.path.join(root, "harness", i.lower(), "prop.json")
    if not os.path.exists(d):
        na.append({"property": i, "reason": NA.get(i, "no check yet: work in progress")})
        continue
    c = json.load(open(d))
    b = "; ".join(f"{k}: {v}" for k, v in c.get("bounds", {}).items())
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": c.get("technique", TECH),
                   "level": c.get("level", "model_checking"),
                   "level_note": ("Every value within the bounds is decided by the solver. Bounds - " + b + ". Outside: larger sizes; the group, proofs and network are the idealised models described in DESIGN.md.")})
m = {"version": 1, "setup_cmd": "./build.sh", "hooks": {"guard": "none", "enable": "no hooks: harnesses are overlaid at load time", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "see DESIGN.md"}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
