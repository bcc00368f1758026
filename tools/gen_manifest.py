"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, T, NA, HOOK_COMMITS, VERIF
checks = []
for pid, c in PROPS.items():
    tech = []
    if c.get("verus"): tech.append("Verus contracts on functions extracted from /repo on every run")
    checks.append({"property": pid, "quick_cmd": "python3 tools/check.py %s" % pid, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % pid,
      "technique": "contract-based deductive verification: " + " and ".join(tech) + ("; bounded concrete evaluation of the same postconditions as stand-in and counterexample search" if c.get("replay", True) else ""),
      "level": c.get("level", "proof"), "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "cargo feature `verif` of the anothertls crate" , "enable": "the harness crate's dependency on /repo/anothertls sets the feature; Verus units read the source text and need no hook", "source_commits": HOOK_COMMITS},
 "checks": checks,
 "not_applicable": [{"property": p, "reason": NA.get(p, "no check built yet")} for p in T if p not in PROPS],
 "notes": "Repairs and open findings are in known_findings.txt; approach, limits and planted-bug results in DESIGN.md."}
if not HOOK_COMMITS: del m["hooks"]
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
