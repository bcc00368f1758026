"""Runs lean/P256.lean: the four facts about P-256 that verus/ecc_spec.inc states as axioms, proved in Lean 4 with Mathlib.

The definitions the facts are about are written twice: in Verus (ecc_spec.inc, from `pub enum Aff` to `smul`) and in Lean (P256.lean, from `inductive Aff`
to `smul`). The constants are compared here by value, the rest by the hash of the two texts that were compared by eye: an edit of either one voids the link
until somebody looks again. A Lean that is not installed, times out or refuses the file leaves the facts what they were, assumptions; it is no alarm, because
nothing of it depends on /repo.
"""
import hashlib, os, re, shutil, subprocess, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
PIN = ("e2ff30ac212274d4", "8c4d1fe805f7baea")
FACTS = ("axiom_prime", "axiom_closed", "axiom_assoc", "axiom_order")
KERNEL = {"propext", "Classical.choice", "Quot.sound"}

def squeeze(s): return re.sub(r"\s+", " ", re.sub(r"(//|--).*", "", s)).strip()
def blocks():
    v = open(os.path.join(VERIF, "verus/ecc_spec.inc")).read()
    l = open(os.path.join(VERIF, "lean/P256.lean")).read()
    vd = v[v.index("pub enum Aff"):v.index("proof fn axiom_prime")] + v[v.index("proof fn axiom_prime"):].split("\n\n")[0]
    ld = l[l.index("inductive Aff"):l.index("/-- what Verus's `choose` gives")] + l[l.index("noncomputable def finv"):l.index("theorem finv_inverts")] + l[l.index("def is_prime"):l.index("theorem is_prime_of")] \
        + "".join(re.findall(r"theorem axiom_\w+ [^=]*(?:=[^=]*?)*?:=", l[l.index("### The four facts"):]))
    vc = dict((k, int(x, 16)) for k, x in re.findall(r"fn (PP|NN|CA|CB|GX|GY)\(\) -> int \{ \{\{HEX:([0-9a-f]+)\}\}", v))
    lc = dict((k, int(x, 16)) for k, x in re.findall(r"def (PP|NN|CA|CB|GX|GY) : ℕ := 0x([0-9a-f]+)", l))
    return squeeze(vd), squeeze(ld), vc, lc
def run(timeout=240):
    t0 = time.time()
    r = {"file": "lean/P256.lean", "facts": list(FACTS), "status": "assumed", "back_end": "Lean 4 kernel, Mathlib", "seconds": 0}
    try:
        vd, ld, vc, lc = blocks()
        h = tuple(hashlib.sha256(x.encode()).hexdigest()[:16] for x in (vd, ld))
        if vc != lc or len(vc) != 6: r["reason"] = "the constants differ"; return r
        if h != PIN: r["reason"] = "the definitions were edited since they were compared: %s %s" % h; return r
        if not shutil.which("lean"): r["reason"] = "lean is not installed"; return r
        p = subprocess.run(["lean", os.path.join(VERIF, "lean/P256.lean")], capture_output=True, text=True, timeout=timeout, cwd=os.path.join(VERIF, "lean"))
        out = p.stdout + p.stderr
        ax = dict((k, set(a.strip() for a in v.split(","))) for k, v in re.findall(r"'(axiom_\w+)' depends on axioms: \[([^\]]*)\]", out))
        if p.returncode or re.search(r"error|sorry", out) or any(ax.get(f) is None or not ax[f] <= KERNEL for f in FACTS): r["reason"] = "lean refuses it: " + out[-400:]; return r
        r["status"] = "proved"; r["kernel_axioms"] = sorted(KERNEL)
    except subprocess.TimeoutExpired: r["reason"] = "lean timed out"
    except Exception as e: r["reason"] = "%s: %s" % (type(e).__name__, e)
    finally: r["seconds"] = round(time.time() - t0, 1)
    return r
if __name__ == "__main__":
    vd, ld, vc, lc = blocks(); print(vd, "\n\n", ld, "\n\n", vc == lc)
    print(run())
