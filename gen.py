#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from lib/props.py and lib/checks.py"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/lib")
from props import PROPS
from checks import CHECKS, NOT_APPLICABLE
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
TECH = "solver-based: concolic/symbolic execution of the LLVM IR of the real code, Z3 and an exact finite-domain procedure decide every branch and assertion, counterexamples replayed on a plain build"
NOTE = ("Within the stated bounds every path of the compiled real code is executed symbolically; an assertion that holds is shown for all values of the inputs on the path. "
        "Trusted: the instrumenting pass and runtime in engine/, the models in engine/models.cpp for ICU and libc, Z3, clang, and the independent reference in harness/. ")
checks = []
for p in PROPS:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                   "technique": TECH, "level": c["level"], "level_note": NOTE + c.get("note", "")})
na = [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "no check yet: the harness for it has not been built")} for p in PROPS if p["id"] not in CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(PROPS), "properties,", len(checks), "claimed")
