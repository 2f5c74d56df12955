#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from specs import SPECS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "stateless bounded model checking of the real code: exhaustive enumeration of inputs, operation sequences and faults within stated bounds, each execution compared with a reference model"
C01T = "stateless model checking of the real code under a controlled scheduler: every schedule of the parallel regions by dynamic partial-order reduction with sleep sets, each compared with the serial result"
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in SPECS:
        na.append(dict(property=i, reason="the check for this property is not built yet"))
        continue
    s = SPECS[i]
    checks.append(dict(property=i, level=s["level"], technique=C01T if i == "C01" else TECH,
        quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
        level_note="Every behaviour within these bounds was executed on the real code and compared: " + s["bounds"]["quick"] + ". "
            + ("Assumes: " + "; ".join(s["assumptions"]) + ". " if s.get("assumptions") else "")
            + "Trusts the reference model in harness/%s, the compiler and AddressSanitizer; nothing is claimed beyond the bounds." % s["harness"][0]))
m = dict(version=1, setup_cmd="python3 -m py_compile check.py specs.py", checks=checks, not_applicable=na,
         notes="No hooks: the checks compile /repo's sources unchanged (flags in check.py) into a temporary directory and drive the public interface.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
