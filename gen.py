#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
from props import P
from checks import CHECKS, NA
V = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the real code's LLVM IR (own engine), SMT (Z3) decides every branch and assertion; counterexamples replayed natively"
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json", "technique": c.get("technique", TECH), "level": c.get("level", "model_checking"),
                       "level_note": "Bounded: " + c["bounds"] + " Outside: " + c["outside"] + " Trusted: the engine (cross-checked by native replay of sampled paths and of every counterexample), Z3, clang's IR at -O1, and the operating-system model in model/model.c."})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 run.py --build", "hooks": {"guard": "none", "enable": "no hooks: the checks use the unmodified sources", "source_commits": []}, "checks": checks, "not_applicable": na,
           "notes": "All checks compile /repo's current neco.c to LLVM IR and execute it symbolically; see DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
