#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/specs.py (claimed) and properties.jsonl (the rest go under not_applicable)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/harness")
import specs
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = getattr(specs, "NOT_APPLICABLE", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.P:
        s = specs.P[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the compiled C++ (LLVM IR of /repo, regenerated each run); every assertion decided by z3 for all values within the bounds; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Holds for every value within: " + s["bounds"] + ". Assumes/trusts: " + "; ".join(s["assumptions"] + ["engine/sx (LLVM IR semantics), clang 18 front end, z3"]) + ". Nothing is claimed outside the bounds."})
    else: na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
