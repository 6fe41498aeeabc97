#!/usr/bin/env python3
"""known-findings.json = open findings (tools/open.json) + one 'fixed:' line per repaired defect (tools/fixed.txt)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
out = json.load(open(H + "/open.json"))
for l in open(H + "/fixed.txt"):
    p, c, what = l.rstrip("\n").split(" ", 2)
    out.append(dict(property=p, status="fixed", what="fixed: property=%s %s %s" % (p, c, what)))
json.dump(out, open(os.path.dirname(H) + "/known-findings.json", "w"), indent=1)
