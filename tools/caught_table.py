#!/usr/bin/env python3
"""caught_table.py LOG...: writes the table of planted bugs in DESIGN.md from the logs of runs of the checks against them.
A log has, per bug, '== <id> [bug] ...' and then a line with rc=, the units' results and the VIOLATION line."""
import os, re, sys
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../DESIGN.md")
rows = {}
for f in sys.argv[1:]:
    cur = None
    for l in open(f):
        m = re.match(r"== (\S+) \[bug\]", l)
        if m:
            cur = m.group(1) if os.path.isdir(os.path.join(os.path.dirname(D), "seeded", m.group(1))) else None
            continue
        m = re.match(r"\s+(\S+)\s+(P\d\d) rc=(\d+) \d+s (.*)", l)
        if not m or not cur: continue
        t = m.group(4); why = []
        for u, st, rest in re.findall(r"unit (\w+): (failed|undecided) [^|]*?-- ([^|]*)", t):
            if st == "failed":
                fn = re.search(r"fn (\w+): ([^;|]*)", rest)
                why.append("unit %s refutes `%s`: %s" % (u, fn.group(1), fn.group(2).strip()) if fn else "unit %s refutes an obligation" % u)
            else: why.append("unit %s undecided" % u)
        inp = "no" if "no-failing-input" in t else "yes" if "VIOLATION" in t else "-"
        rows[cur] = (m.group(2), "caught" if m.group(3) == "1" else "MISSED", "; ".join(dict.fromkeys(why)) or "proved", inp)
out = "| planted bug | property | | proof | failing input |\n|---|---|---|---|---|\n" + "".join("| %s | %s | %s | %s | %s |\n" % ((k,) + rows[k]) for k in sorted(rows, key=lambda k: (rows[k][0], k)))
s = open(D).read()
s = re.sub(r"(<!-- caught:begin -->\n).*?(<!-- caught:end -->)", lambda m: m.group(1) + out + m.group(2), s, flags=re.S)
open(D, "w").write(s)
