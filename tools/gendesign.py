#!/usr/bin/env python3
"""Rewrites the per-property section of DESIGN.md from tools/props.py."""
import os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
p = os.path.join(os.path.dirname(here), "DESIGN.md")
s = open(p).read()
A, B = "<!-- properties -->\n", "<!-- /properties -->\n"
out = [A, "## How each property is decided\n\n"]
na = {x["property"]: x["reason"] for x in NOT_APPLICABLE}
for q in PROPS:
    if q["id"] in na: continue
    out.append("* **%s %s.** Specified: %s. Covered: %s\n" % (q["id"], q["title"], "; ".join("%s (%s)" % (n, w) for n, w in q["mech"]), q["note"].split("; trusts the govc")[0]))
if na:
    out.append("\n### Not applicable\n\n")
    for k, v in na.items(): out.append("* **%s**: %s\n" % (k, v))
out += ["\n", B]
if A in s:
    s = s[:s.index(A)] + "".join(out) + s[s.index(B) + len(B):]
else:
    s += "".join(out)
open(p, "w").write(s)
