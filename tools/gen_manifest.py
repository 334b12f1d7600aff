#!/usr/bin/env python3
"""writes MANIFEST.json from the rule modules present"""
import importlib
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
NA = {
    "C21": "Optimality of the result of a branch-and-bound search is a statement about all executions of the whole algorithm; no dataflow or type rule decides it. The local rules it rests on are checked as C09-C12.",
    "C22": "Numerical correctness of a least-squares fit done by Eigen's SVD is not decidable by static analysis.",
    "C23": "A bound on wall-clock time depends on the machine; that the deadline is polled in every unbounded phase is checked as C20.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(ROOT, "rules", i.lower() + ".py")
    if os.path.exists(f):
        m = importlib.import_module("rules." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": getattr(m, "TECHNIQUE", "static analysis: path-sensitive abstract interpretation of the clang AST"),
            "level": "other",
            "level_note": m.EXPLAIN,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
man = {"version": 1, "setup_cmd": "python3 engine/load.py", "checks": checks, "not_applicable": na,
       "notes": "All checks are static: the program is extracted from clang's AST (extract/extract.cpp) or Python's ast on every run and analysed; nothing of /repo is executed. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
