#!/usr/bin/env python3
"""linkage.py [-v]: compare every contract that a unit assumes of a function of the crate with the contract another unit proves of it.

A contract is taken apart into clauses. An assumed contract is linked when every clause it promises (ensures) stands word for
word in the proved contract and every clause the proved contract demands (requires) is demanded by the assumed one as well."""
import os, sys, glob, re, json
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
import vx
ROOT = os.environ.get("VERIF_REPO", "/repo") + "/anothertls/src"

def match(s, i):
    """index after the bracket that closes the one at i"""
    d = 0
    while True:
        c = s[i]
        if c in "([{": d += 1
        elif c in ")]}":
            d -= 1
            if d == 0: return i + 1
        i += 1

def strip_comments(s): return re.sub(r"//[^\n]*", "", s)

def functions(text):
    """(impl type or '', name, signature, requires, ensures, external, line) of every exec function of a generated unit"""
    s = re.sub(r"//[^\n]*", lambda m: " " * len(m.group()), text)
    impls = []
    for m in re.finditer(r"\bimpl\b(?:\s*<[^{}]*?>)?\s+([^{;]*?)\s*\{", s):
        h = m.group(1)
        h = re.split(r"\bwhere\b", h)[0]
        tr, ty = (h.split(" for ") + [None])[:2] if " for " in h else (None, h)
        ty = re.sub(r"<.*", "", ty or "").strip()
        try: impls.append((m.end() - 1, match(s, m.end() - 1), ty, s[m.start():m.end() - 1].strip()))
        except IndexError: pass
    for m in re.finditer(r"(?P<pre>(?:#\[[^\]]*\]\s*)*)(?:pub(?:\([^)]*\))?\s+)?(?P<kind>(?:open |closed |uninterp )?(?:spec |proof |axiom |broadcast )*)fn\s+(?P<name>\w+)", s):
        if m.group("kind").strip(): continue
        if re.search(r"\b(spec|proof|axiom|broadcast proof)\s*$", s[max(0, m.start() - 20):m.start()].replace("\n", " ")): continue
        i = m.end()
        if s[i:i + 1] == "<": i = s.index("(", i)
        i = s.index("(", i); j = match(s, i)
        # up to the body: the first `{` at depth 0 that follows a clause end or the signature
        k, d = j, 0
        start = None
        req = ens = ""
        # find the keyword positions at depth 0
        marks = []
        depth = 0; q = j; body = None
        while q < len(s):
            c = s[q]
            if c in "([": q = match(s, q); continue
            if c == ";" : body = q; break
            if c == "{":
                prev = s[:q].rstrip()
                # a block inside a clause follows an operator, `else`, `match x`, `if c`
                if marks and not prev.endswith(",") and prev[-1] not in ")" and not re.search(r"(requires|ensures)$", prev):
                    pass
                if marks:
                    last = s[marks[-1][1]:q].rstrip()
                    if last.endswith(","): body = q; break
                    e = match(s, q); q = e; continue
                body = q; break
            mm = re.match(r"\b(requires|ensures|decreases|opens_invariants|no_unwind)\b", s[q:]) if not (s[q - 1].isalnum() or s[q - 1] == "_") else None
            if mm: marks.append((mm.group(1), q + mm.end())); q += mm.end(); continue
            q += 1
        if body is None: continue
        sig = s[i:(marks[0][1] - len(marks[0][0])) if marks else body]
        parts = {"requires": [], "ensures": []}
        for n, (kw, a) in enumerate(marks):
            b = (marks[n + 1][1] - len(marks[n + 1][0])) if n + 1 < len(marks) else body
            parts.setdefault(kw, []).append(s[a:b])
        ty = head = ""
        for a, b, t, h in impls:
            if a < m.start() < b: ty, head = t, h
        yield head, ty, m.group("name"), re.sub(r"\s+", " ", sig).strip(), clauses(" ".join(parts["requires"])), clauses(" ".join(parts["ensures"])), re.sub(r"\s+", " ", s[i:body]).strip(), "external_body" in m.group("pre"), s.count("\n", 0, m.start("name")) + 1

def clauses(t):
    out, d, cur = [], 0, ""
    for c in t:
        if c in "([{": d += 1
        elif c in ")]}": d -= 1
        if c == "," and d == 0: out.append(cur); cur = ""
        else: cur += c
    out.append(cur)
    return [x for x in (norm(y) for y in out) if x]
def norm(x): return re.sub(r"\s+", "", x.replace("pub ", ""))

def main():
    vx.CLOSURES["recording"] = 1
    proved, assumed, texts = {}, [], {}
    for f in sorted(glob.glob(os.path.join(H, "../verus/*.vrs"))):
        unit = os.path.basename(f)[:-4]
        u = vx.build(f, ROOT)
        real = [(x["from"], x["to"], x["file"], x["path"]) for x in u.fns]
        texts[unit] = u.text
        for head, ty, name, sig, req, ens, full, ext, line in functions(u.text):
            src = [r for r in real if r[0] <= line <= r[1]]
            if src and not ext: proved.setdefault((ty, name), []).append((unit, src[0][2], sig, req, ens))
            elif ext: assumed.append((unit, ty, name, sig, req, ens, head, full))
    return proved, assumed, texts

HINT = {}
def specs(t):
    """specification functions of a unit: name -> {(uninterpreted, text without spaces)}"""
    s = re.sub(r"//[^\n]*", "", t); d = {}
    for m in re.finditer(r"\b((?:open |closed |uninterp )?spec )(?:\([a-z]+\) )?fn\s+(\w+)", s):
        i = m.end()
        if s[i] == "<": i = s.index("(", i)
        i = s.index("(", i); q = match(s, i)
        while s[q] not in "{;": q += 1
        e = q if s[q] == ";" else match(s, q)
        d.setdefault(m.group(2), set()).add(("uninterp" in m.group(1) or s[q] == ";", re.sub(r"\s+", "", s[i:e])))
    return d
def definitions(proved, assumed, texts):
    """specification functions that an assumed contract uses, directly or not, and that the proving unit defines differently.
    One that is uninterpreted where the contract is assumed is defined by the proving unit; all other pairs must agree."""
    S = {u: specs(t) for u, t in texts.items()}; out = {}; n = set(); un = set()
    for unit, ty, name, sig, req, ens, head, full in assumed:
        ps = proved.get((ty, name), [])
        best = min(ps, key=lambda p: len([e for e in ens if e not in p[4]]) + len([r for r in p[3] if r not in req]), default=None)
        if not best: continue
        pu = best[0]; todo = re.findall(r"\w+", full); seen = set()
        while todo:
            w = todo.pop()
            if w in seen or w not in S[unit]: continue
            seen.add(w)
            for _, b in S[unit][w]: todo += re.findall(r"\w+", b)
        for w in seen & set(S[pu]):
            if any(u for u, _ in S[unit][w]): un.add((w, unit, pu)); continue
            n.add((w, unit, pu))
            if not ({b for _, b in S[unit][w]} & {b for _, b in S[pu][w]}): out.setdefault((w, unit, pu), []).append(name)
    return n, un, out

def glue(pu, unit):
    """verus/links.txt: `@ proving-unit assuming-unit...` followed by what the assuming unit's own words mean in the proving unit;
    a line `proof FUNCTION text` is put after the call of that function in its wrapper, with the result in vx_r; `rename A B` renames a word of the assuming unit in the wrapper"""
    HINT.clear()
    f = os.path.join(H, "../verus/links.txt"); out = []; on = False
    for l in open(f).read().split("\n") if os.path.exists(f) else []:
        if l.startswith("@ "): w = l.split()[1:]; on = w[0] == pu and unit in w[1:]; continue
        if on and l.startswith('rename '): HINT["=" + l.split()[1]] = l.split()[2]; continue
        if on and l.startswith('proof '): HINT[l.split()[1]] = l.split(None, 2)[2]; continue
        if on: out.append(l)
    return "\n".join(out)
def wrapper(k, ty, name, sig, head, full, text):
    ps = sig[1:match(sig, 0) - 1]
    args, d, cur = [], 0, ""
    for c in ps + ",":
        if c in "([{<": d += 1
        elif c in ")]}>": d -= 1
        if c == "," and d == 0: args.append(cur.strip()); cur = ""
        else: cur += c
    args = [a for a in args if a]
    names = [re.sub(r"^(mut|tracked|Tracked)\s+", "", a.split(":")[0].strip()) for a in args]
    call = ("self.%s(%s)" % (name, ", ".join(names[1:]))) if names and names[0].endswith("self") else ("%s%s(%s)" % ("Self::" if head else "", name, ", ".join(names)))
    f = "fn vx_link_%d%s\n{ let vx_r = %s; %s vx_r }" % (k, full, call, HINT.get(name, ""))
    for a, b in HINT.items():
        if a[0] == "=": f = re.sub(r"\b%s\b" % a[1:], b, f); head = re.sub(r"\b%s\b" % a[1:], b, head)
    h = re.match(r"impl (Record|Handshake|ClientHello|ServerHello)$", head)
    if h and ("%s<'" % h.group(1)) in text: head = "impl<'a> %s<'a>" % h.group(1)
    return "%s {\n%s\n}" % (head, f) if head and not head.startswith("trait") else f
def prove(todo, texts):
    W = "/tmp/vxlink"; os.makedirs(W, exist_ok=True)
    only = [a for a in sys.argv[1:] if not a.startswith("-")]
    for pu in sorted(todo):
        if only and pu not in only: continue
        seen = {}
        for unit, ty, name, sig, head, full in todo[pu]: seen.setdefault((head, name, full), []).append(unit)
        for k, ((head, name, full), units) in enumerate(seen.items()):
            sig = [t[3] for t in todo[pu] if (t[4], t[2], t[5]) == (head, name, full)][0]
            t = texts[pu]
            at = t.rindex("fn main() {}")
            at = t.rindex("}", 0, at)
            g = glue(pu, units[0])
            w = wrapper(k, "", name, sig, head, full, t)
            text = t[:at] + g + "\n" + w + "\n" + t[at:]
            p = os.path.join(W, "%s_%d.rs" % (pu, k)); open(p, "w").write(text)
            r = vx.run_verus(p, 30, ["--verify-root", "--verify-function", ("*vx_link_%d" % k)])
            yield_(pu, units, name, head, r)
def yield_(pu, units, name, head, r):
    v = r["json"].get("verification-results", {})
    ok = r["rc"] == 0 and v.get("errors") == 0 and v.get("verified", 0) >= 1
    print("%s %s::%s  assumed in %s, proved in %s" % ("linked " if ok else "NOT    ", head, name, ",".join(units), pu))
    if not ok:
        for e in r["errors"][:3]: print("        %s: %s" % (e["msg"][:160], (e["text"] or [""])[0][:160]))
    sys.stdout.flush()

if __name__ == "__main__":
    proved, assumed, texts = main()
    todo = {}
    n = {"same": 0, "differs": 0, "unproved": 0}
    for unit, ty, name, sig, req, ens, head, full in assumed:
        p = proved.get((ty, name))
        if not p:
            n["unproved"] += 1
            if "-u" in sys.argv: print("unproved", unit, ty, name)
            continue
        best = None
        for pu, pf, psig, preq, pens in p:
            missing = [e for e in ens if e not in pens]; extra = [r for r in preq if r not in req]
            if best is None or len(missing) + len(extra) < best[0]: best = (len(missing) + len(extra), pu, missing, extra)
        if best[0] == 0: n["same"] += 1
        else:
            n["differs"] += 1
            todo.setdefault(best[1], []).append((unit, ty, name, sig, head, full))
            if "--prove" in sys.argv: continue
            print("differs  %s: %s::%s (proved in %s)" % (unit, ty, name, best[1]))
            for e in best[2]: print("     promised, not word for word proved: " + e[:230])
            for e in best[3]: print("     demanded, not by the assumed one:   " + e[:230])
    print(n)
    m, un, d = definitions(proved, assumed, texts)
    print("definitions used by contracts on both sides: %d equal, %d interpreted by the proving unit, %d different" % (len(m) - len(d), len(un), len(d)))
    for k in sorted(d): print("     %s: %s and %s differ, for %s" % (k + (", ".join(d[k]),)))
    if "--prove" in sys.argv: prove(todo, texts)
