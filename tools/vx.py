"""Generate one Verus file from a template plus functions extracted from /repo, run Verus, map results."""
import re, os, json, subprocess, time, sys
from rustx import Source, Fn, Lost, tokenize, norm, match_close

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

DIR = re.compile(r"^\s*//@(\w+)\s*(.*)$")

class Unit:
    def __init__(self, name, text, fns, subs, items, trusted):
        self.name, self.text, self.fns, self.subs, self.items, self.trusted = name, text, fns, subs, items, trusted

def read_template(path, env=None):
    """lines of the template with //@include expanded and {{NAME}} replaced (//@set NAME VALUE)"""
    env = {} if env is None else env
    out = []
    with open(path) as f:
        for ln in f.read().split("\n"):
            if "{{" in ln:
                for k, v in env.items(): ln = ln.replace("{{%s}}" % k, v)
                ln = re.sub(r"\{\{B:([^}]*)\}\}", lambda m: "seq![%s]" % ", ".join("%du8" % c for c in m.group(1).encode()), ln)
                ln = re.sub(r"\{\{ID:([^}]*)\}\}", lambda m: "%du64" % intern(m.group(1)), ln)
                ln = re.sub(r"\{\{HEX:([0-9a-fA-F]+)\}\}", lambda m: ghost_int(m.group(1)), ln)
            m = DIR.match(ln)
            if m and m.group(1) == "include":
                out += read_template(os.path.join(os.path.dirname(path), m.group(2).strip()), env)
            elif m and m.group(1) == "set":
                k, v = m.group(2).split(None, 1); env[k] = v.strip()
            else: out.append(ln)
    return out

INTERN = {}
def intern(lit):
    """a number per string literal, a different one for each different literal"""
    return INTERN.setdefault(lit, len(INTERN) + 1)

BT = re.compile(r"`([^`]*)`")

def strip_vis(fn):
    """drop `pub`/`pub(..)` before fn"""
    fn.text = re.sub(r"^\s*pub(\s*\([^)]*\))?\s+", "", fn.text)
    fn._scan()

# iterator loops the verifier does not support, written as the index loops they mean
DESUGAR = [
 (r"for \(\s*mut (\w+), &(\w+)\) in ([^{};]+?)\.iter\(\)\.enumerate\(\) \{", r"for \1__n in 0..\3.len() { let mut \1 = \1__n; let \2 = \3[\1__n];"),
 (r"for \(\s*mut (\w+), (\w+)\) in ([^{};]+?)\.iter\(\)\.enumerate\(\) \{", r"for \1__n in 0..\3.len() { let mut \1 = \1__n; let \2 = &\3[\1__n];"),
 (r"for \(\s*(\w+), &(\w+)\) in ([^{};]+?)\.iter\(\)\.enumerate\(\) \{", r"for \1 in 0..\3.len() { let \2 = \3[\1];"),
 (r"for \(\s*(\w+), (\w+)\) in ([^{};]+?)\.iter\(\)\.enumerate\(\) \{", r"for \1 in 0..\3.len() { let \2 = &\3[\1];"),
 (r"for \(\s*(\w+), (\w+)\) in ([^{};]+?)\.iter_mut\(\)\.enumerate\(\) \{", r"for \1 in 0..\3.len() { let \2 = &mut \3[\1];"),
 (r"for (\w+) in \(0\.\.(\w+(?:\.len\(\))?)\)\.step_by\((\w+)\) \{", r"for \1__k in 0..vx_steps(\2, \3) { let \1 = \1__k * \3;"),
 (r"for (\w+) in \((\w+)\.\.([^{};]+?)\)\.step_by\((\w+)\) \{", r"for \1__k in 0..vx_steps_from(\2, \3, \4) { let \1 = \2 + \1__k * \4;"),
 (r"for (\w+) in \((\w+)\.\.(\w+(?:\.len\(\))?)\)\.rev\(\) \{", r"for \1__k in \2..\3 { let \1 = \3 - 1 - (\1__k - \2);"),
 (r"for (\w+) in \(0\.\.=(\w+)\)\.rev\(\) \{", r"for \1__k in 0..(\2 + 1) { let \1 = \2 - \1__k;"),
 (r"\b(?:core|std)::cmp::min\(", r"vx_min("),
]
def ghost_int(h):
    """hex digits -> a spec integer expression the parser accepts (literals are limited to 128 bits)"""
    h = h.replace("_", "")
    ch = [h[max(0, k - 24):k] for k in range(len(h), 0, -24)][::-1]
    e = "0x%sint" % ch[0]
    for c in ch[1:]: e = "(%s * 0x1_0000_0000_0000_0000_0000_0000int + 0x%sint)" % (e, c)
    return e
def ibig_macros(text):
    text = re.sub(r"ibig!\(\s*_([0-9a-fA-F_]+)\s+base\s+16\s*\)", lambda m: "ibig_lit(Ghost(%s))" % ghost_int(m.group(1)), text)
    return re.sub(r"ibig!\(\s*(\d+)\s*\)", r"ibig_lit(Ghost(\1int))", text)
LOGMAC = re.compile(r"\b(?:(?:crate::)?(?:utils::)?log::(?:debug|error|fixme)|println|eprintln|print)!\s*\(")
def drop_logs(text):
    """logging statements are left out (macro output; no value the program uses comes from them)"""
    n = 0
    while True:
        hit = None
        for m in LOGMAC.finditer(text):
            ls = text.rfind("\n", 0, m.start())
            if "//" in text[ls + 1:m.start()]: continue
            hit = m; break
        if not hit: return text, n
        t = tokenize(text[hit.start():])
        p = next(i for i, x in enumerate(t) if x.s == "(")
        e = match_close(t, p)
        end = hit.start() + t[e].b
        text = text[:hit.start()] + "()" + text[end:]
        n += 1
def byte_strings(text):
    """b"..." -> the array it denotes (the verifier has no byte-string literals)"""
    def rep(m):
        raw = eval("b" + m.group(1))
        return "&[%s]" % ", ".join("%du8" % c for c in raw) if raw else "&[0u8; 0]"
    return re.sub(r"\bb(\"(?:[^\"\\]|\\.)*\")", rep, text)
def render_fn(fn, ds, root, subs, probe, pcount, implicit):
    """ds: list of (directive, arg, text)"""
    strip_vis(fn)
    for m in re.finditer(r"ibig!\([^()]*\)", fn.text):
        subs.append("%s %s: `%s` => trusted literal of that value" % (fn.rel, fn.path, m.group(0)))
    if "ibig!" in fn.text: fn.text = ibig_macros(fn.text); fn._scan()
    for m in re.finditer(r"\bb\"(?:[^\"\\\\]|\\\\.)*\"", fn.text): subs.append("%s %s: `%s` => the array of those bytes" % (fn.rel, fn.path, m.group(0)))
    nt, nl = drop_logs(fn.text)
    if nl: subs.append("%s %s: %d logging statements => ()" % (fn.rel, fn.path, nl)); fn.text = nt; fn._scan()
    nt = byte_strings(fn.text)
    if nt != fn.text: fn.text = nt; fn._scan()
    for pat, rep in DESUGAR:
        for m in re.finditer(pat, fn.text):
            subs.append("%s %s: `%s` => `%s`" % (fn.rel, fn.path, re.sub(r"\s+", " ", m.group(0)), m.expand(rep)))
        fn.resub(pat, rep)
    ret = None
    # substitutions first
    for d, arg, txt in ds:
        if d == "intern":
            nt = re.sub(r'"((?:[^"\\]|\\.)*)"(?:\s*\.\s*(?:to_string|to_owned|into)\(\))?', lambda m: "%du64" % intern(m.group(1)), fn.text)
            if nt != fn.text: subs.append("%s %s: string literals => numbers, a different one for each different literal" % (fn.rel, fn.path)); fn.text = nt; fn._scan()
        if d == "subst":
            q = BT.findall(arg)
            if len(q) == 1: q.append(txt.strip())
            rest = BT.sub("", arg).replace("=>", "").split()
            n = fn.subst(q[0], q[1], optional="opt" in rest, all_="all" in rest)
            if n: subs.append("%s %s: `%s` => `%s` (x%d)" % (fn.rel, fn.path, q[0], q[1], n))
        elif d == "resub":
            q = BT.findall(arg)
            rest = BT.sub("", arg).replace("=>", "").split()
            n = fn.resub(q[0], q[1], optional="opt" in rest)
            if n: subs.append("%s %s: /%s/ => `%s` (x%d)" % (fn.rel, fn.path, q[0], q[1], n))
    ins = []   # (offset, seq, text)
    t = fn.toks
    def add(off, txt): ins.append((off, len(ins), txt))
    spec = ""
    def P(where):
        k = len(pcount); pcount.append((fn.path, where))
        return " proof { if vacuity_probe(%d) { assert(false); } } " % k
    body_stmts = fn.stmts(fn.body + 1, fn.end)
    tail = [s for s in body_stmts if s[2]]
    nloops = len(fn.loops)
    want = [int(a.split()[0]) for d, a, _ in ds if d in ("loop",)]
    expect = [a for d, a, _ in ds if d == "nloops"]
    if expect and int(expect[0]) != nloops: raise Lost("%s: `%s`: %s loops expected, %d found" % (fn.rel, fn.path, expect[0], nloops))
    # an invariant is written for one loop: with a head of other words (bounds and operators aside) it is another loop, a lost anchor
    kinds = [re.sub(r'\s+', ' ', fn.text[t[q].a:t[b].a]).strip() for q, b, _ in fn.loops]
    key = "%s %s: %s" % (CURRENT.unit, fn.rel, fn.path)
    # a loop the annotations do not know of has no invariant
    if nloops > len(LOOPS.get(key, [])) and not CLOSURES.get("recording"): raise Lost("%s: `%s`: loop without an invariant: `%s`" % (fn.rel, fn.path, kinds[-1]))
    # a closure has no contract: one the annotations do not know of is out of the verifier's reach
    ncl = sum(1 for q in range(fn.body + 1, fn.end) if t[q].s in ("|", "||") and t[q-1].s in ("(", ",", "=", "{", ";", "move", "return", "=>", "&"))
    if ncl > CLOSURES.get(key, 0) and not CLOSURES.get("recording"): raise Lost("%s: `%s`: closure without a contract" % (fn.rel, fn.path))
    if ncl: CLOSURES_SEEN[key] = ncl
    # so is text built by a macro
    nm = len(re.findall(r"\b(?:format|concat|write|writeln)!", fn.text[t[fn.body].a:]))
    if nm > MACROS.get(key, 0) and not CLOSURES.get("recording"): raise Lost("%s: `%s`: formatting macro without a contract" % (fn.rel, fn.path))
    if nm: MACROS_SEEN[key] = nm
    if kinds: LOOPS_SEEN[key] = kinds
    for k in want:
        if k < nloops and k < len(LOOPS.get(key, [])) and re.findall(r"[A-Za-z_]\w*", LOOPS[key][k]) != re.findall(r"[A-Za-z_]\w*", kinds[k]):
            raise Lost("%s: `%s`: loop %d is now `%s`, its invariant is written for `%s`" % (fn.rel, fn.path, k, kinds[k], LOOPS[key][k]))
    # other bounds or operators in a head: the invariant may well still do; if it does not, that says nothing about the code (see check())
    fn.rewritten = ["loop %d is now `%s`, its invariant is written for `%s`" % (k, kinds[k], LOOPS[key][k]) for k in want
                    if k < nloops and k < len(LOOPS.get(key, [])) and re.sub(r"\s", "", LOOPS[key][k]) != re.sub(r"\s", "", kinds[k])]
    # a condition on a match arm makes the verifier lose what is behind a mutable reference on the other arms' ways out
    ng = sum(1 for q in range(fn.body + 1, fn.end) if t[q].s == "if" and (t[q-1].s == ")" or re.match(r"\w+$", t[q-1].s) and t[q-1].s not in ("else", "return", "break", "in", "match", "move")))
    if ng: GUARDS_SEEN[key] = ng
    if ng > GUARDS.get(key, 0) and "&mut" in fn.text: fn.rewritten.append("a match arm has a condition")
    for d, arg, txt in ds:
        if d == "ret":
            if fn.arrow is None: raise Lost("%s: `%s`: no return type" % (fn.rel, fn.path))
            stop = fn.where if fn.where is not None else fn.body
            add(t[fn.arrow].b, " (%s:" % arg.strip())
            add(t[stop-1].b, ")")
        elif d == "spec": spec = txt
        elif d == "loop":
            a = arg.split()
            k = int(a[0])
            if k >= nloops: raise Lost("%s: `%s`: loop %d not found" % (fn.rel, fn.path, k))
            q, b, e = fn.loops[k]
            kind = t[q].s
            if len(a) > 1:
                if kind != "for": raise Lost("%s: `%s`: loop %d is not a `for`" % (fn.rel, fn.path, k))
                z = q + 1
                while t[z].s != "in":
                    if t[z].s in ("(", "["): z = match_close_(t, z)
                    z += 1
                add(t[z].b, " %s:" % a[1])
            add(t[b].a, "\n" + txt + "\n")
        elif d == "in":
            a = arg.split(); k = int(a[0])
            if k >= nloops: raise Lost("%s: `%s`: loop %d not found" % (fn.rel, fn.path, k))
            q, b, e = fn.loops[k]
            if a[1] == "start": add(t[b].b, "\n" + txt + "\n")
            else:
                st = fn.stmts(b + 1, e)
                if st and st[-1][2] and t[st[-1][0]].s not in ("if", "for", "while", "match", "loop"):
                    add(t[st[-1][0]].a, "\n" + txt + "\n")
                else: add(t[e].a, "\n" + txt + "\n")
        elif d in ("before", "after"):
            a = arg.split()
            if a and a[0].isdigit() and not arg.startswith("`"):
                k = int(a[0])
                if k >= nloops: raise Lost("%s: `%s`: loop %d not found" % (fn.rel, fn.path, k))
                q, b, e = fn.loops[k]
                if d == "before":
                    # before the label, if any
                    z = q
                    if t[q-1].s == ":" and t[q-2].k == "life": z = q - 2
                    add(t[z].a, "\n" + txt + "\n")
                else: add(t[e].b, "\n" + txt + "\n")
            else:
                pat = BT.findall(arg)[0]
                rest = BT.sub("", arg).split()
                opt = "opt" in rest
                nth = [int(x) for x in rest if x.isdigit()]
                try: s, e, tl = fn.find_stmt(pat, nth[0] if nth else 0)
                except Lost:
                    # a hint whose place is gone: what fails without it says nothing about the code (see check())
                    if opt: fn.rewritten.append("no `%s` any more, before or after which a hint stood" % pat); continue
                    raise
                if d == "before": add(t[s].a, "\n" + txt + "\n")
                else:
                    if tl: raise Lost("%s: `%s`: `%s` is a tail expression" % (fn.rel, fn.path, pat))
                    add(t[e].b, "\n" + txt + "\n")
        elif d == "start": add(t[fn.body].b, "\n" + txt + "\n")
        elif d == "bvtail":
            # a body that is one expression without calls: bit-blast it against the given term
            a, b = (tail[0][0], tail[0][1]) if tail and len(body_stmts) == 1 else (None, None)
            if a is not None:
                ex = fn.text[t[a].a:t[fn.end].a].strip()
                if not re.search(r"\w\s*\(|\.|[{};]", re.sub(r"\bas\s*\(", "", ex)):
                    add(t[fn.body].b, "\n    proof { assert((%s) == (%s)) by(bit_vector)%s; }\n" % (ex, arg.strip(), (" requires " + txt.strip()) if txt.strip() else ""))
        elif d == "end":
            if tail and not (fn.arrow is None and t[tail[0][0]].s in ("if", "for", "while", "loop", "match", "{")): add(t[tail[0][0]].a, "\n" + txt + "\n")
            else: add(t[fn.end].a, "\n" + txt + "\n")
        elif d in ("subst", "resub", "nloops", "attr", "noprobe", "impl", "intern"): pass
        else: raise SystemExit("unknown directive //@%s" % d)
    if probe and not any(d == "noprobe" for d, _, _ in ds):
        add(t[fn.body].b, P("entry"))
        for k, (q, b, e) in enumerate(fn.loops): add(t[b].b, P("loop %d" % k))
    add(t[fn.body].a, "\n" + spec + "\n")
    ins.sort(key=lambda x: (x[0], x[1]))
    out, pos = [], 0
    for off, _, txt in ins:
        out.append(fn.text[pos:off]); out.append(txt); pos = off
    out.append(fn.text[pos:])
    attrs = "".join(a.strip() + "\n" for d, a, _ in ds if d == "attr")
    return attrs + "".join(out)

from rustx import match_close as match_close_
import json as _json
import threading as _th
LOOPS_SEEN, CURRENT = {}, _th.local()
_lp = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "verus", "anchors.json")
_anchors = _json.load(open(_lp)) if os.path.exists(_lp) else {}
LOOPS, CLOSURES, CLOSURES_SEEN = _anchors.get("loops", {}), _anchors.get("closures", {}), {}
MACROS, MACROS_SEEN = _anchors.get("macros", {}), {}
GUARDS, GUARDS_SEEN = _anchors.get("guards", {}), {}

def render_item(source, path, arg_derive, keep_vis=False):
    it = source.find(path)
    a, s, e, kw, name, hdr, body = it
    txt = source.src[source.toks[s].a:source.toks[e].b]
    txt = re.sub(r"\bpub(\s*\([^)]*\))?\s+", "", txt)
    # drop attributes inside (field attributes) and docs
    txt = re.sub(r"(?m)^\s*#\[[^\]]*\]\s*$", "", txt)
    return ("#[derive(%s)]\n" % arg_derive if arg_derive else "") + txt

def build(template, root, probe=False):
    """-> Unit (raises Lost)"""
    lines = read_template(template)
    CURRENT.unit = os.path.basename(template).rsplit(".", 1)[0]
    out, fns, subs, items, pcount = [], [], [], [], []
    i = 0
    trusted = []
    def cur(): return sum(x.count("\n") + 1 for x in out)
    while i < len(lines):
        m = DIR.match(lines[i])
        if not m: out.append(lines[i]); i += 1; continue
        d, arg = m.group(1), m.group(2).strip()
        if d == "item":
            parts = arg.split(None, 1)
            derive = ""
            mm = re.search(r"derive=(\S+)", parts[1])
            if mm: derive = mm.group(1); parts[1] = parts[1].replace(mm.group(0), "").strip()
            sub = BT.findall(parts[1]); parts[1] = BT.sub("", parts[1]).replace("=>", "").strip()
            nodisc = " nodisc" in parts[1]; parts[1] = parts[1].replace(" nodisc", "")
            src = Source.get(root, parts[0])
            txt = render_item(src, parts[1], derive)
            if nodisc:
                txt = re.sub(r"\s*=\s*(0x[0-9a-fA-F]+|\d+)\s*(?=[,}\n])", "", txt)
                subs.append("%s %s: explicit discriminants dropped (no code reads them)" % (parts[0], parts[1]))
            for q in range(0, len(sub) - 1, 2):
                if sub[q] not in txt: raise Lost("%s: `%s`: `%s` not found" % (parts[0], parts[1], sub[q]))
                txt = txt.replace(sub[q], sub[q+1]); subs.append("%s %s: `%s` => `%s`" % (parts[0], parts[1], sub[q], sub[q+1]))
            out.append(txt); items.append(arg); i += 1
        elif d == "static":
            parts = arg.split(None, 1)
            ens, i = [], i + 1
            pre = []
            while lines[i].strip() != "//@endstatic":
                (pre if lines[i].strip().startswith("proof") else ens).append(lines[i]); i += 1
            i += 1
            src = Source.get(root, parts[0])
            txt = render_item(src, "static " + parts[1], "") if True else ""
            mm = re.match(r"\s*static\s+(\w+)\s*:\s*(.*?)=(.*);\s*$", txt, re.S)
            if not mm: raise Lost("%s: static %s has an unexpected form" % (parts[0], parts[1]))
            a = cur()
            out.append("exec static %s: %s\n%s\n{ %s }" % (mm.group(1), mm.group(2), "\n".join(ens), "\n".join(pre) + mm.group(3)))
            fns.append({"file": parts[0], "path": "static " + parts[1], "name": parts[1], "from": a + 1, "to": cur(), "src_line": 0})
        elif d == "strconst":
            # a `const NAME: &str = "...";` as the sequence of its bytes
            parts = arg.split()
            src = Source.get(root, parts[0])
            txt = render_item(src, "const " + parts[1], "")
            mm = re.match(r'\s*const\s+(\w+)\s*:\s*&\s*str\s*=\s*("(?:[^"\\]|\\.)*")\s*;\s*$', txt, re.S)
            if not mm: raise Lost("%s: const %s has an unexpected form" % (parts[0], parts[1]))
            raw = eval(mm.group(2)).encode(); n = len(raw); nm = mm.group(1)
            lits = ", ".join("%du8" % c for c in raw)
            out.append("spec fn %s_s() -> Seq<u8> { seq![%s] }\nfn %s_at(i: usize) -> (r: u8) requires i < %d, ensures r == %s_s()[i as int], { let a: [u8; %d] = [%s]; proof { assert(a@ =~= %s_s()); } a[i] }\nfn %s_len() -> (r: usize) ensures r == %d, { %d }" % (nm, lits, nm, n, nm, n, lits, nm, nm, n, n))
            out.append("fn %s_has(c: char) -> (r: bool) ensures r == (exists|i: int| 0 <= i < %d && c == (#[trigger] %s_s()[i]) as char),\n{ let mut i: usize = 0; while i < %d invariant i <= %d, forall|j: int| 0 <= j < i ==> c != (#[trigger] %s_s()[j]) as char, decreases %d - i, { if %s_at(i) as char == c { return true; } i = i + 1; } false }" % (nm, n, nm, n, n, nm, n, nm))
            items.append(arg); subs.append("%s const %s: the text as the array of its bytes" % (parts[0], nm)); i += 1
        elif d == "order":
            # the derived order of a fieldless-or-tuple enum goes by the discriminant: which variants come before the given one
            fl, en, var, nm = arg.split()
            src = Source.get(root, fl)
            txt = render_item(src, "enum " + en, ""); txt = re.sub(r"//[^\n]*", "", txt)
            der = src.src[src.toks[src.find("enum " + en)[0]].a:src.toks[src.find("enum " + en)[1]].a]
            if "PartialOrd" not in der: raise Lost("%s: enum %s does not derive its order" % (fl, en))
            vs, last = [], -1
            for mm in re.finditer(r"(?:^|[{,])\s*(\w+)\s*(\([^)]*\))?\s*(?:=\s*(0x[0-9a-fA-F]+|\d+))?\s*(?=[,}])", txt[txt.index("{"):]):
                last = int(mm.group(3), 0) if mm.group(3) else last + 1
                vs.append((mm.group(1), mm.group(2), last))
            if var not in [v[0] for v in vs]: raise Lost("%s: enum %s has no %s" % (fl, en, var))
            lim = [v[2] for v in vs if v[0] == var][0]
            out.append("pub open spec fn %s(e: %s) -> bool {\n    match e {\n%s\n    }\n}" % (nm, en, "\n".join("        %s::%s%s => %s," % (en, v[0], "(_)" if v[1] else "", "true" if v[2] < lim else "false") for v in vs)))
            subs.append("%s enum %s: the derived order relative to %s, from the declared discriminants" % (fl, en, var)); i += 1
        elif d == "probes":
            if probe: out.append("pub uninterp spec fn vacuity_probe(k: int) -> bool;")
            i += 1
        elif d == "rem": i += 1
        elif d == "fn":
            parts = arg.split(None, 1)
            ds, i = [], i + 1
            while True:
                if i >= len(lines): raise SystemExit("missing //@endfn in %s" % template)
                m2 = DIR.match(lines[i])
                if m2:
                    if m2.group(1) == "endfn": i += 1; break
                    ds.append([m2.group(1), m2.group(2).strip(), ""])
                elif ds: ds[-1][2] += lines[i] + "\n"
                i += 1
            fn = Fn(Source.get(root, parts[0]), parts[1])
            a = cur()
            txt = render_fn(fn, ds, root, subs, probe, pcount, False)
            out.append(txt)
            fns.append({"file": parts[0], "path": parts[1], "name": fn.name, "from": a + 1, "to": cur(), "src_line": fn.line, "rewritten": getattr(fn, "rewritten", [])})
        else: raise SystemExit("unknown top-level directive //@%s in %s" % (d, template))
    text = "\n".join(out) + "\n"
    text = text.replace("pub open spec fn", "spec fn").replace("pub uninterp spec fn", "uninterp spec fn").replace("pub proof fn", "proof fn")
    u = Unit(os.path.basename(template), text, fns, subs, items, trusted)
    u.pcount = pcount
    return u

TRUST = re.compile(r"\b(assume_specification|external_body|external_type_specification|admit\s*\(|assume\s*\(|axiom\s+fn|uninterp\s+spec\s+fn|verifier::external)\b")
def scan_trust(text):
    """mechanical scan for everything the proof takes on trust"""
    res = []
    src = text.split("\n")
    group, cnt = None, 0
    for n, ln in enumerate(src):
        s = ln.strip()
        if s.startswith("//TRUST-GROUP"): group, cnt = s[13:].strip(), 0; continue
        if s.startswith("//TRUST-END"): res.append("%s [%d trusted items]" % (group, cnt)); group = None; continue
        if group is not None: cnt += len(TRUST.findall(s)); continue
        if s.startswith("//"): continue
        if TRUST.search(s) and "vacuity_probe" not in s:
            ctx = s
            k = n
            while k + 1 < len(src) and ("fn " not in ctx and "struct " not in ctx and "[" not in ctx.replace("#[", "")) and k - n < 4:
                k += 1; ctx += " " + src[k].strip()
            res.append(re.sub(r"\s+", " ", ctx)[:240])
    return res

UNDECIDED_PAT = re.compile(r"rlimit|resource limit|solver|not supported|unsupported|timed? ?out|could not", re.I)
FAIL_PAT = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|assert failed|possible arithmetic|possible division|possible bit shift|index out of|decreases not satisfied|recommendation not met|unable to prove|possible .* overflow|cannot show|assertion not satisfied|loop invariant|termination|could not show termination|call to non-static|may be out of bounds|unreachable|panic", re.I)

def run_verus(path, rlimit=30, extra=(), timeout=600, threads=8):
    cmd = ["verus", "--output-json", "--time-expanded", "--error-format=json", "--rlimit", str(rlimit), "--num-threads", str(threads)] + list(extra) + [path]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as ex:
        return {"rc": -1, "errors": [{"msg": "verus timed out", "line": 0, "level": "error"}], "json": {}, "wall": time.time() - t0, "cmd": " ".join(cmd), "stderr": ""}
    try: js = json.loads(out)
    except Exception: js = {}
    errs = []
    for ln in err.split("\n"):
        ln = ln.strip()
        if not ln.startswith("{"): continue
        try: d = json.loads(ln)
        except Exception: continue
        if d.get("level") != "error": continue
        if d.get("message", "").startswith("aborting due to"): continue
        sp = [s for s in d.get("spans", [])]
        prim = [s for s in sp if s.get("is_primary")] or sp
        errs.append({"msg": d["message"], "code": (d.get("code") or {}).get("code") if d.get("code") else None,
                     "lines": [s["line_start"] for s in sp], "line": prim[0]["line_start"] if prim else 0,
                     "text": [t["text"].strip() for s in prim for t in s.get("text", [])][:3],
                     "labels": [s.get("label") for s in sp],
                     "rendered": d.get("rendered", "")[:2000]})
    return {"rc": rc, "errors": errs, "json": js, "wall": time.time() - t0, "cmd": " ".join(cmd), "stderr": err[-4000:] if not errs else ""}

def fn_times(js):
    """function -> (ms, success)"""
    res = {}
    def walk(o):
        if isinstance(o, dict):
            if "function" in o and ("time" in o or "time-micros" in o):
                res.setdefault(o["function"], 0)
                res[o["function"]] += o.get("time-micros", o.get("time", 0) * 1000)
            for v in o.values(): walk(v)
        elif isinstance(o, list):
            for v in o: walk(v)
    walk(js.get("times-ms", {}))
    return res

def owner(unit, line):
    for f in unit.fns:
        if f["from"] <= line <= f["to"]: return f
    return None

def crash(e):
    """is the refused obligation about a panic or about termination, not about a value?"""
    if re.search(r"\blemma|\bproof\b|_lemma\b", " ".join(e["text"] or [])): return False
    return bool(re.search(r"precondition not satisfied|arithmetic (under|over)flow|division by zero|bit shift|decreases|terminat|unreachable|index", e["msg"]))

def check(template, root, workdir, rlimit=30, extra=(), vacuity=True, threads=8, own=None):
    """-> dict(status=proved|failed|undecided, ...)"""
    name = os.path.basename(template).rsplit(".", 1)[0]
    res = {"unit": name, "status": "undecided", "failures": [], "reason": "", "fns": [], "obligations": 0, "discharged": 0,
           "trusted": [], "subs": [], "wall": 0.0, "smt_ms": 0, "cmd": "", "probes": None}
    try: u = build(template, root)
    except Lost as ex:
        res["reason"] = "lost anchor: %s" % ex
        return res
    os.makedirs(workdir, exist_ok=True)
    path = os.path.join(workdir, name + ".rs")
    with open(path, "w") as f: f.write(u.text)
    import concurrent.futures as cf
    pool = cf.ThreadPoolExecutor(1)
    fut = None
    if vacuity:
        u2 = build(template, root, probe=True)
        if u2.pcount:
            p2 = os.path.join(workdir, name + "_probe.rs")
            with open(p2, "w") as f: f.write(u2.text)
            fut = pool.submit(run_verus, p2, rlimit, list(extra) + ["--multiple-errors", "40"], 600, max(2, threads // 2))
    more = list(extra) + ["--multiple-errors", "6"]
    r = run_verus(path, rlimit, more, threads=threads)
    v0 = r["json"].get("verification-results", {})
    if r["rc"] != 0 and v0 and not v0.get("encountered-vir-error") and v0.get("errors", 0):
        # a refused obligation is asked for once more with another seed and more resources: solver luck is no violation
        r2 = run_verus(path, rlimit * 2, more + ["--smt-option", "smt.random_seed=11"], threads=threads)
        if r2["json"].get("verification-results", {}).get("errors", 1 << 30) < v0["errors"]: r2["wall"] += r["wall"]; r = r2
    vr = r["json"].get("verification-results", {})
    res["cmd"], res["wall"], res["subs"] = r["cmd"], r["wall"], u.subs
    res["trusted"] = scan_trust(u.text)
    res["items"] = u.items
    ver, er = vr.get("verified", 0), vr.get("errors", 0)
    res["obligations"], res["discharged"] = ver + er, ver
    ft = fn_times(r["json"])
    res["smt_ms"] = r["json"].get("times-ms", {}).get("smt", {}).get("total", 0) if isinstance(r["json"].get("times-ms", {}).get("smt"), dict) else 0
    res["fns"] = [{"file": f["file"], "fn": f["path"], "line": f["src_line"]} for f in u.fns]
    # own: a pattern for the functions, or for the text of the obligations ("text:", "!text:") that the property at hand answers for
    # ("panic:" + pattern of functions: only what makes the function crash or run on; a refusal of its other contracts leaves that undecided)
    tm = re.match(r"(!?)text:(.*)$", own or "")
    panic = (own or "").startswith("panic:")
    if panic: own = own[6:]
    if tm: mine = lambda o: not o["fn"] or bool(re.search(tm.group(2), o["rendered"])) != bool(tm.group(1))
    elif own is not None: mine = lambda o: not o["fn"] or bool(re.search(own, o["fn"])); res["fns"] = [f for f in res["fns"] if re.search(own, f["fn"])]
    bad = [e for e in r["errors"]]
    res["raw"] = [e["rendered"] if "rendered" in e else e["msg"] for e in bad]
    if r["rc"] == 0 and not bad and vr.get("success") and ver > 0:
        res["status"] = "proved"
    elif vr.get("encountered-vir-error") or not vr or (er == 0):
        res["status"] = "undecided"
        res["reason"] = "not accepted by the verifier (unsupported construct or extracted text does not fit the contracts): " + "; ".join("%s (line %s)" % (e["msg"].split("\n")[0][:160], e["line"]) for e in bad[:3]) + r["stderr"][-300:]
    else:
        fails, und = [], []
        for e in bad:
            f = None
            for l in [e["line"]] + e["lines"]:
                f = f or owner(u, l)
            ob = {"obligation": "%s: %s" % ((f["file"] + " " + f["path"]) if f else "lemma", e["msg"].split("\n")[0]),
                  "text": e["text"], "generated_line": e["line"], "labels": [x for x in e["labels"] if x], "fn": f["path"] if f else None,
                  "rendered": e["rendered"]}
            if f and f.get("rewritten"): ob["obligation"] += " (lost anchor: %s)" % "; ".join(f["rewritten"]); und.append(ob); continue
            if re.search(r"rlimit|resource limit|time ?out|solver", e["msg"], re.I): und.append(ob)
            elif panic and f and not crash(e): ob["obligation"] += " (its freedom from panics rests on that)"; und.append(ob)
            else: fails.append(ob)
        if own is not None:
            # obligations of functions that other properties own (their checks report them)
            other = [o for o in fails + ([] if tm else und) if not mine(o)]
            fails = [o for o in fails if o not in other]; und = [o for o in und if o not in other]
            res["elsewhere"] = [o["obligation"] for o in other]
            if not fails and not und:
                res["status"] = "proved"; res["obligations"] = ver
                fut = None
        res["failures"] = fails
        if fails: res["status"] = "failed"; res["reason"] = fails[0]["obligation"]
        elif und: res["reason"] = "solver limit or lost anchor: " + "; ".join(o["obligation"] for o in und[:3])
    if fut is not None:
        r2 = fut.result()
        if res["status"] == "proved":
            def hits(errors, text):
                res_, plines = set(), {}
                for n, ln in enumerate(text.split("\n"), 1):
                    for mm in re.finditer(r"vacuity_probe\((\d+)\)", ln): plines.setdefault(n, []).append(int(mm.group(1)))
                for e in errors:
                    if "assert" not in e["msg"]: continue
                    for l in e["lines"]:
                        for k in plines.get(l, []): res_.add((k, l))
                return res_
            hit = hits(r2["errors"], u2.text)
            for attempt in (7, 23):
                # a probe the solver gave no answer for is asked for alone, with another seed
                miss = set(range(len(u2.pcount))) - set(k for k, l in hit)
                if not miss: break
                alone = re.sub(r"vacuity_probe\((\d+)\) \{ assert\(false\); \}", lambda m: m.group(0) if int(m.group(1)) in miss else "vacuity_probe(%s) {}" % m.group(1), u2.text)
                p3 = os.path.join(workdir, name + "_probe%d.rs" % attempt)
                with open(p3, "w") as f: f.write(alone)
                r3 = run_verus(p3, rlimit * 2, list(extra) + ["--multiple-errors", "5", "--smt-option", "smt.random_seed=%d" % attempt], 600, threads)
                r2["wall"] += r3["wall"]
                hit |= hits(r3["errors"], alone)
            nh = len(set(k for k, l in hit))
            res["probes"] = {"placed": len(u2.pcount), "refuted": nh, "missing": [u2.pcount[k] for k in range(len(u2.pcount)) if k not in set(x for x, _ in hit)]}
            res["wall"] += r2["wall"]
    return res

if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("template"); ap.add_argument("--root", default="/repo/anothertls/src")
    ap.add_argument("--work", default="/tmp/vxwork"); ap.add_argument("--rlimit", type=float, default=30)
    ap.add_argument("--novac", action="store_true"); ap.add_argument("-e", nargs="*", default=[])
    a = ap.parse_args()
    r = check(a.template, a.root, a.work, a.rlimit, a.e, not a.novac)
    for f in r.get("raw", [])[:12]: print(f)
    print(json.dumps({k: v for k, v in r.items() if k in ("unit","status","reason","obligations","discharged","wall","probes","smt_ms")}, indent=1))
