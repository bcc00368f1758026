#!/usr/bin/env python3
"""record_anchors.py: write verus/anchors.json: the head of every loop and the number of closures in the functions under contract, from the present /repo"""
import os, sys, glob, json
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
import vx
vx.LOOPS.clear(); vx.CLOSURES["recording"] = 1
for f in sorted(glob.glob(os.path.join(H, "../verus/*.vrs"))): vx.build(f, "/repo/anothertls/src")
json.dump({"loops": vx.LOOPS_SEEN, "closures": vx.CLOSURES_SEEN, "macros": vx.MACROS_SEEN, "guards": vx.GUARDS_SEEN}, open(os.path.join(H, "../verus/anchors.json"), "w"), indent=1, sort_keys=True)
print(len(vx.LOOPS_SEEN), "functions with loops")
