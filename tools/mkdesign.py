#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design-head.md, tools/design-props.json (how each property is decided), specs.py, properties.jsonl,
known-findings.json and the metadata of the planted bugs (tools/caught.json: which check reports which)."""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, os.path.join(V, "tools")]
from specs import SPECS
T = os.path.join(V, "tools")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
from design_props import H as how
kf = json.load(open(os.path.join(V, "known-findings.json")))
caught = json.load(open(os.path.join(T, "caught.json")))
o = [open(os.path.join(T, "design-head.md")).read()]
o.append("\n## 3. The properties, one by one\n")
for p in props:
    i = p["id"]; h = how.get(i, {})
    o.append("### %s — %s\n" % (i, p["title"]))
    o.append(p["statement"] + "\n")
    if i not in SPECS:
        o.append("*Not claimed.* " + h.get("na", "") + "\n"); continue
    s = SPECS[i]
    o.append("- **Decided by** `harness/%s`: %s" % (s["harness"][0], h["what"]))
    o.append("- **Oracle**: " + h["oracle"])
    o.append("- **Bounds, quick**: " + s["bounds"]["quick"] + ". **Thorough** also: " + s["bounds"]["thorough"] + ".")
    if s.get("assumptions"): o.append("- **Assumed or not judged**: " + "; ".join(s["assumptions"]) + ".")
    o.append("- **Cost**: " + h["cost"])
    o.append("- **Beyond the tests**: " + h["why"])
    fx = [re.sub(r"^fixed: property=\S+ ", "", f) for f in kf["fixed"] if f.startswith("fixed: property=%s " % i)]
    if fx: o.append("- **Defects found and repaired**: " + "; ".join("%s (%s)" % (" ".join(f.split()[1:]), f.split()[0]) for f in fx) + ".")
    kn = [f for f in kf["findings"] if f["property"] == i]
    if kn: o.append("- **Known findings** (see section 4): %d." % len(kn))
    o.append("")
tail = open(os.path.join(T, "design-tail.md")).read()
rows = ["| planted bug | property | what it needs | reported by |", "|---|---|---|---|"]
for d in sorted(caught):
    rows.append("| %s | %s | %s | %s |" % (d, caught[d]["property"], caught[d]["needs"], caught[d]["by"]))
o.append(tail.replace("@CAUGHT@", "\n".join(rows)))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
