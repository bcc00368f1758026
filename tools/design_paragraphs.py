#!/usr/bin/env python3
"""design_paragraphs.py: rewrite the per-property paragraphs of DESIGN.md from tools/props.py"""
import os, sys, re
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
import props
p = os.path.join(H, "../DESIGN.md"); out = []
for l in open(p).read().split("\n"):
    m = re.match(r"\*\*(P\d\d) ", l)
    if m and m.group(1) in props.PROPS:
        k = m.group(1); d = props.PROPS[k]
        l = "**%s %s.** %s *Assumed:* %s." % (k, d["title"], d["note"].strip(), "; ".join(a.rstrip(".") for a in d["assumptions"]))
        if d.get("unproved"): l += " *Not proved:* %s." % "; ".join(d["unproved"] if isinstance(d["unproved"], list) else [d["unproved"]])
    out.append(l)
open(p, "w").write("\n".join(out))
