#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current working tree.

1. every Verus unit of the property is regenerated from /repo's source and given to the verifier,
   together with its vacuity probes;
2. /repo's crate itself is built and the property's postcondition is evaluated on concrete inputs
   (search for a failing input; also the bounded stand-in for what is not under contract).

exit 0  nothing refuted (evidence says which functions are proved and which only bounded)
exit 1  VIOLATION property=<id> replay=<path> [no-failing-input-found]
exit 2  error of the check
"""
import sys, os, json, time, subprocess, threading, re, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
import vx
from props import PROPS

def known_findings(pid):
    """-> [(site, text)], [fixed lines]"""
    out, fixed = [], []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) site="([^"]*)" (.*)$', ln.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
            m = re.match(r"fixed: property=(\S+) (.*)$", ln.strip())
            if m and m.group(1) == pid: fixed.append(m.group(2))
    return out, fixed

def build_native(target, pid):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"), env=env, capture_output=True, text=True, timeout=600)
    if p.returncode:   # an interface another property's replay uses may have changed: build this one's alone
        q = subprocess.run(["cargo", "build", "--offline", "--quiet", "--no-default-features", "--features", pid.lower()], cwd=os.path.join(VERIF, "harness"), env=env, capture_output=True, text=True, timeout=600)
        if q.returncode == 0: p = q
    return p.returncode == 0, (p.stdout + p.stderr)[-4000:]

def git_state():
    """the tracked files of REPO that differ from its commit, with their contents' hashes; None: git does not say"""
    try:
        r = subprocess.run(["git", "-C", REPO, "diff", "HEAD"], capture_output=True)
        return r.stdout if r.returncode == 0 else None
    except Exception: return None

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    work = os.path.join(VERIF, "work", pid)
    if os.path.isdir(work): shutil.rmtree(work)
    os.makedirs(work)
    target = os.path.join(VERIF, "target")
    root = os.path.join(REPO, "anothertls/src")
    findings, fixed = known_findings(pid)
    before = git_state()

    units = cfg.get("verus", [])
    budget = cfg.get("budget", 6.0) * (10 if tier == "thorough" else 1)
    results, rep = {}, {}

    def do_unit(u):
        try: results[u] = vx.check(os.path.join(VERIF, "verus", u + ".vrs"), root, os.path.join(work, "verus"), rlimit=cfg.get("rlimit", 40) * (3 if tier == "thorough" else 1), threads=max(2, 8 // max(1, len(units))), own=cfg.get("own", {}).get(u))
        except Exception as ex:
            results[u] = {"unit": u, "status": "error", "reason": "%s: %s" % (type(ex).__name__, ex), "failures": [], "fns": [], "obligations": 0, "discharged": 0, "trusted": [], "subs": [], "wall": 0, "elsewhere": [], "smt_ms": 0, "cmd": "", "probes": None}
    def do_replay(again=None):
        if not cfg.get("replay", True): return
        out = os.path.join(work, "replay.json")
        if again:
            if os.path.exists(out): os.remove(out)
        else:
            ok, log = build_native(target, pid)
            if not ok: rep["error"] = "harness does not build against /repo: " + log; return
        cmd = again or [os.path.join(target, "debug/vreplay"), pid, str(seed), tier, str(budget), out] + [s for s, _ in findings]
        rep["cmd"] = " ".join(cmd)
        scratch = os.path.join(work, "scratch"); os.makedirs(scratch, exist_ok=True)
        try: p = subprocess.run(cmd, capture_output=True, text=True, timeout=600 if tier == "quick" else 3000, cwd=scratch)
        except subprocess.TimeoutExpired: rep["error"] = "replay timed out"; return
        if not os.path.exists(out):
            # the process died (abort, stack overflow, memory): that is an ending no input may cause
            rep["error"] = "replay ended with %s: %s" % (p.returncode, (p.stderr or "")[-800:])
            if p.returncode in (-4, -6, -8, -11):
                tr = os.path.join(work, "trace.txt")
                try: q = subprocess.run(cmd[:4] + [str(budget * 6)] + cmd[5:], capture_output=True, text=True, timeout=600, cwd=scratch, env=dict(os.environ, VREPLAY_TRACE=tr))
                except subprocess.TimeoutExpired: return
                if q.returncode in (-4, -6, -8, -11) and os.path.exists(tr):
                    site, _, inp = open(tr, errors="replace").read().partition("\n")
                    if any(s == site for s, _ in findings): return
                    rep["fails"] = [{"site": site, "input": inp, "msg": "the process ended with signal %d: %s" % (-q.returncode, (q.stderr or "")[-400:])}]
            return
        rep.update(json.load(open(out)))
    lean = {}
    def do_lean():
        if cfg.get("lean"): import leancheck; lean.update(leancheck.run())
    with ThreadPoolExecutor(16) as ex:
        fs = [ex.submit(do_replay), ex.submit(do_lean)] + [ex.submit(do_unit, u) for u in units]
        for f in fs: f.result()

    # an obligation was refused and no failing input is at hand: search longer, with other seeds
    if any(results[u]["failures"] or results[u]["status"] == "undecided" for u in units) and not rep.get("fails") and not rep.get("error"):
        for k in (1, 2):
            first = dict(rep)
            cmd = first["cmd"].split(" "); cmd[2] = str(seed + k); cmd[4] = str(budget * (6 if tier == "quick" else 1))
            rep.clear()
            do_replay(cmd)
            for f in ("evaluations", "distinct"): rep[f] = rep.get(f, 0) + first.get(f, 0)
            if rep.get("error"): rep.clear(); rep.update(first); break
            if rep.get("fails"): break

    # ---- verdict -----------------------------------------------------------------------------
    concrete = []          # failing inputs on the real code
    if rep.get("fails"): concrete += [("replay", f) for f in rep["fails"]]
    failed = []            # obligations the verifier refused, anchors intact
    for u in units:
        for f in results[u]["failures"]:
            if results[u]["status"] == "failed": failed.append((u, f))
    rdir = os.path.join(VERIF, "work", "replay"); os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, pid + ".txt")
    line = None
    if concrete or failed:
        with open(rfile, "w") as f:
            f.write("property %s: %s\n" % (pid, cfg["title"]))
            for kind, x in concrete[:5]:
                f.write("\nFAILING INPUT (%s)\n site: %s\n input: %s\n observed: %s\n" % (kind, x["site"], x["input"], x["msg"]))
            if rep.get("cmd"): f.write("\nreplay: (cd %s/harness && CARGO_TARGET_DIR=%s cargo build --offline) && %s\n" % (VERIF, target, rep["cmd"]))
            for u, x in failed:
                f.write("\nFAILED OBLIGATION (unit %s)\n %s\n%s\n" % (u, x["obligation"], x.get("rendered", "")))
        line = "VIOLATION property=%s replay=%s" % (pid, rfile)
        if not concrete: line += " no-failing-input-found"

    # ---- evidence ----------------------------------------------------------------------------
    proved, notproved = [], []
    for u in units:
        r = results[u]
        for fn in r["fns"]:
            (proved if r["status"] == "proved" and not (r.get("probes") or {}).get("missing") else notproved).append("%s: %s (line %d)" % (fn["file"], fn["fn"], fn["line"]))
        if not r["fns"]: notproved.append("unit %s: %s" % (u, r["reason"]))
    obligations = sum(results[u]["obligations"] for u in units)
    discharged = sum(results[u]["discharged"] for u in units)
    trusted = sorted(set(t for u in units for t in results[u]["trusted"]))
    cmds = [results[u]["cmd"] for u in units if results[u]["cmd"]]
    undecided = [(u, results[u]["reason"]) for u in units if results[u]["status"] in ("undecided", "error")]
    vac = {u: results[u].get("probes") for u in units}
    vac_bad = [u for u in units if results[u]["status"] == "proved" and vac[u] and vac[u]["missing"]]
    for u in vac_bad:      # a contract nothing can satisfy proves nothing: not counted as proved
        undecided.append((u, "vacuity probe not refuted: %s" % vac[u]["missing"]))
    level = cfg.get("level", "proof")
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": " && ".join(cmds) if cmds else "none", 
        "trusted_base": ["Verus 0.2026.09.13 with its Z3, vstd" if units else None, "rustc", "tools/rustx.py + tools/vx.py: mechanical extraction and the substitutions listed below"] + trusted,
        "functions_proved": proved, "functions_not_proved": notproved + cfg.get("unproved", []),
        "units": [{"unit": u, "status": results[u]["status"], "obligations": results[u]["obligations"], "discharged": results[u]["discharged"], "smt_ms": results[u]["smt_ms"], "wall_s": round(results[u]["wall"], 2), "vacuity_probes": vac[u], "reason": results[u]["reason"]} for u in units],
        "extraction_substitutions": sorted(set(s for u in units for s in results[u]["subs"])),
        "undecided": ["%s: %s" % x for x in undecided],
        "back_end": "Z3 (Verus)", 
        "bounded_part": {"what": cfg.get("bounded", "the postcondition evaluated against an independent reference on the real code"), "evaluations": rep.get("evaluations", 0), "distinct": rep.get("distinct", 0), "per_site": rep.get("sites", {}), "error": rep.get("error")},
        "evaluations": rep.get("evaluations", 0), "distinct_nontrivial": rep.get("distinct", 0),
        "rule": "structured edge cases plus seeded pseudo-random inputs, each compared with an independent implementation of the standard; distinct by hash of (site, input)",
        "samples": (rep.get("samples") or [])[:10],
        "failed_obligations": [x["obligation"] for _, x in failed],
    }
    if lean:
        cov["lemmas_in_lean"] = lean
        if lean["status"] == "proved":
            cov["checker_cmd"] += " && lean lean/P256.lean"
            cov["back_end"] += "; Lean 4 kernel with Mathlib for the four facts about P-256"
            cov["trusted_base"].append("Lean 4 kernel; the hand transcription of eight definitions from verus/ecc_spec.inc to lean/P256.lean (pinned by hash)")
    cov["trusted_base"] = [x for x in cov["trusted_base"] if x]
    if level == "other" or not (obligations or not units): pass
    if level == "other": cov["explanation"] = cfg.get("bounded", "")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + (["not proved in this run (%s): p and n are prime, the chord-and-tangent sum of two points is a point, that sum is associative, every point has order n" % lean.get("reason")] if lean and lean["status"] != "proved" else []) + ["known finding: %s" % t for _, t in findings],
          "wall_s": round(time.time() - t0, 2), "violations": len(concrete) + len(failed)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)

    for u in units: print("%s unit %s: %s %d/%d obligations, smt %d ms, probes %s %s" % (pid, u, results[u]["status"], results[u]["discharged"], results[u]["obligations"], results[u]["smt_ms"], (vac[u] or {}).get("refuted"), ("-- " + results[u]["reason"]) if results[u]["reason"] else ""))
    if lean: print("%s facts about P-256 in Lean: %s in %s s %s" % (pid, lean["status"], lean["seconds"], lean.get("reason", "")))
    print("%s concrete evaluations: %d (%d distinct) %s" % (pid, rep.get("evaluations", 0), rep.get("distinct", 0), rep.get("error") or ""))
    hit = {k["site"]: k for k in rep.get("known", [])}
    for s, t in findings: print("KNOWN-FINDING: property=%s %s%s" % (pid, t, "" if s in hit else " (not observed in this run)"))
    after = git_state()
    if None not in (before, after) and after != before: print("error: the check changed tracked files of /repo"); sys.exit(2)
    if line:
        print(line); sys.exit(1)
    errs = [u for u in units if results[u]["status"] == "error"]
    if errs: print("error: %s" % [(u, results[u]["reason"]) for u in errs]); sys.exit(2)
    if rep.get("error") and (undecided or not units): print("error: nothing decided: %s" % rep["error"]); sys.exit(2)
    if undecided: print("%s: not proved on this tree (%s); the bounded evaluation found no failing input" % (pid, "; ".join("%s: %s" % x for x in undecided)[:600]))
    sys.exit(0)
main()
