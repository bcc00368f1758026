"""Mechanical extraction of Rust items from /repo's current source.

No Rust parser is needed: a tokenizer that understands comments, strings, chars
and lifetimes, bracket matching, and the handful of item keywords is enough to
locate an item, its signature, its body, its loops and its statements, and to
insert specification text between tokens.  Executable tokens are copied
verbatim; every change made to them is one of the substitutions listed in a
template and is reported in the evidence.
"""
import re, os

class Lost(Exception):
    """An anchor (item, loop, statement) named by a template is not in the source."""

TOK = re.compile(r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>b?r(?P<hash>\#*)".*?"(?P=hash))
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'\n])')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>[0-9][0-9_]*(?:x[0-9a-fA-F_]+|o[0-7_]+|b[01_]+)?(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?[A-Za-z0-9_]*)
 |(?P<id>[A-Za-z_][A-Za-z0-9_]*)
 |(?P<op><<=|>>=|\.\.\.|\.\.=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
""", re.X | re.S)

class T:
    __slots__ = ("k", "s", "a", "b")
    def __init__(self, k, s, a, b): self.k, self.s, self.a, self.b = k, s, a, b
    def __repr__(self): return "%s" % self.s

def tokenize(src):
    """Significant tokens only (no whitespace, no comments)."""
    out, i, n = [], 0, len(src)
    while i < n:
        m = TOK.match(src, i)
        if not m: raise Lost("cannot tokenize at offset %d: %r" % (i, src[i:i+20]))
        k = m.lastgroup
        if k == "hash": k = "rstr"
        if m.group("bc"):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        if m.group("ws") or m.group("lc"):
            i = m.end(); continue
        kind = [g for g in ("rstr","str","chr","life","num","id","op") if m.group(g)][0]
        # `0..8` must not lex as the float `0.`
        out.append(T(kind, m.group(0), m.start(), m.end()))
        i = m.end()
    return out

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")": "(", "]": "[", "}": "{"}

def match_close(toks, i):
    d = 0
    for j in range(i, len(toks)):
        s = toks[j].s
        if toks[j].k == "op":
            if s in OPEN: d += 1
            elif s in CLOSE:
                d -= 1
                if d == 0: return j
    raise Lost("unbalanced brackets")

def skip_attrs(toks, i):
    while i < len(toks) and toks[i].s == "#":
        j = i + 1
        if toks[j].s == "!": j += 1
        i = match_close(toks, j) + 1
    return i

def norm(s): return " ".join(t.s for t in tokenize(s))

class Source:
    cache = {}
    def __init__(self, root, rel):
        self.rel = rel
        with open(os.path.join(root, rel)) as f: self.src = f.read()
        self.toks = tokenize(self.src)
    @classmethod
    def get(cls, root, rel):
        key = (root, rel)
        if key not in cls.cache:
            p = os.path.join(root, rel)
            if not os.path.exists(p): raise Lost("file %s is gone" % rel)
            cls.cache[key] = cls(root, rel)
        return cls.cache[key]
    def items(self, lo=0, hi=None):
        """Yield (attr_start, start, end, kind, name, header) for items in token range."""
        toks = self.toks
        hi = len(toks) if hi is None else hi
        i = lo
        while i < hi:
            a = i
            i = skip_attrs(toks, i)
            if i >= hi: break
            s = i
            while i < hi and toks[i].s in ("pub", "unsafe", "async", "default", "extern", "const") or (i < hi and toks[i].s == "(" and toks[i-1].s == "pub") or (i<hi and toks[i].k=="str"):
                if toks[i].s == "(": i = match_close(toks, i) + 1
                elif toks[i].s == "const" and toks[i+1].s not in ("fn", "unsafe"): break
                else: i += 1
            kw = toks[i].s
            if kw == "macro_rules":
                j = i
                while toks[j].s != "{" and toks[j].s != "(": j += 1
                e = match_close(toks, j)
                yield (a, s, e, "macro", toks[i+2].s, "", None); i = e + 1; continue
            if kw in ("fn", "struct", "enum", "trait", "mod", "type", "const", "static", "use", "impl", "union"):
                j = i + 1
                d = 0
                body = None
                while j < hi:
                    t = toks[j]
                    if t.s in ("(", "["):
                        j = match_close(toks, j) + 1; continue
                    if t.s == "{":
                        if kw in ("const","static","use","type"):
                            j = match_close(toks, j) + 1; continue
                        body = j; e = match_close(toks, j); break
                    if t.s == ";": e = j; break
                    j += 1
                else: raise Lost("unterminated item")
                name = toks[i+1].s if kw not in ("impl", "use") else ""
                if kw in ("const","static") and name == "mut": name = toks[i+2].s
                hdr = " ".join(t.s for t in toks[i:(body if body is not None else e)])
                yield (a, s, e, kw, name, hdr, body)
                i = e + 1
            else:
                # something unknown (macro invocation at item level): skip to ; or }
                j = i
                while j < hi and toks[j].s not in (";", "{"): j += 1
                if j >= hi: break
                i = (match_close(toks, j) if toks[j].s == "{" else j) + 1

    def find(self, path):
        """path: 'fn x' | 'struct S' | 'const C' | 'impl Foo :: fn x' | 'mod m :: fn x'. Returns item tuple."""
        parts = [norm(x) for x in path.split(" :: ")]
        lo, hi = 0, len(self.toks)
        for n, part in enumerate(parts):
            last = n == len(parts) - 1
            cands = []
            for it in self.items(lo, hi):
                a, s, e, kw, name, hdr, body = it
                if kw == "impl":
                    h = norm_impl(hdr)
                    if norm_impl(part) == h: cands.append(it)
                elif part == "%s %s" % (kw, name): cands.append(it)
            if not cands: raise Lost("%s: item `%s` not found" % (self.rel, path))
            if len(cands) > 1 and cands[0][3] == "impl":
                ex = [c for c in cands if norm(c[5]).replace(" ", "") == part.replace(" ", "")]
                if ex: cands = ex + [c for c in cands if c not in ex]
            if last: return cands[0]
            if len(cands) > 1:
                for c in cands:
                    try:
                        sub = Source.__new__(Source); sub.rel=self.rel; sub.src=self.src; sub.toks=self.toks
                        return sub._find_in(parts[n+1:], c[6]+1, c[2], path)
                    except Lost: pass
                raise Lost("%s: item `%s` not found" % (self.rel, path))
            lo, hi = cands[0][6] + 1, cands[0][2]
    def _find_in(self, parts, lo, hi, path):
        for it in self.items(lo, hi):
            if parts[0] == "%s %s" % (it[3], it[4]):
                if len(parts) == 1: return it
                return self._find_in(parts[1:], it[6]+1, it[2], path)
        raise Lost("%s: item `%s` not found" % (self.rel, path))

def norm_impl(h):
    """impl header without generics and where clause"""
    h = re.sub(r"\bwhere\b.*$", "", h).strip()
    h = h.replace("->", "")
    while True:
        n = re.sub(r"\s*<[^<>]*>", "", h)
        if n == h: break
        h = n
    return re.sub(r"\s+", " ", h).strip()

class Fn:
    """A function's token text with insertion points."""
    def __init__(self, source, path):
        self.path = path; self.rel = source.rel
        it = source.find(path)
        a, s, e, kw, name, hdr, body = it
        if kw != "fn" or body is None: raise Lost("%s: `%s` has no body" % (source.rel, path))
        base = source.toks[s].a
        self.name = name
        self.text = source.src[base:source.toks[e].b]
        self.line = source.src.count("\n", 0, base) + 1
        self._scan()
    def _scan(self):
        self.toks = tokenize(self.text)
        t = self.toks
        i = 0
        while t[i].s != "fn": i += 1
        # parameter list = first "(" after name and generics
        i += 2
        if t[i].s == "<":
            d = 0
            while True:
                if t[i].s == "<": d += 1
                elif t[i].s == ">": d -= 1
                elif t[i].s == ">>": d -= 2
                i += 1
                if d <= 0: break
        self.params = (i, match_close(t, i))
        j = self.params[1] + 1
        self.arrow = j if t[j].s == "->" else None
        k = j
        while t[k].s != "{":
            if t[k].s in ("(", "["): k = match_close(t, k)
            k += 1
        self.body = k
        self.end = match_close(t, k)
        # `where` clause
        self.where = None
        for q in range(j, k):
            if t[q].s == "where": self.where = q; break
        self.loops = []
        q = k + 1
        for q in range(k + 1, self.end):
            if t[q].k == "id" and t[q].s in ("for", "while", "loop"):
                if t[q].s == "for" and t[q+1].s == "<": continue
                b = q + 1
                while t[b].s != "{":
                    if t[b].s in ("(", "["): b = match_close(t, b)
                    b += 1
                # `for PAT in EXPR {` - match exprs containing blocks are not used in headers
                self.loops.append((q, b, match_close(t, b)))
    def subst(self, old, new, count=1, optional=False, all_=False):
        """Token-level substitution, reported in evidence."""
        pat = [x.s for x in tokenize(old)]
        n, pos = 0, 0
        while True:
            toks = self.toks
            hit = None
            for i in range(len(toks) - len(pat) + 1):
                if toks[i].a >= pos and all(toks[i+j].s == pat[j] for j in range(len(pat))):
                    hit = i; break
            if hit is None: break
            a, b = toks[hit].a, toks[hit + len(pat) - 1].b
            self.text = self.text[:a] + new + self.text[b:]
            pos = a + len(new)
            self._scan(); n += 1
            if not all_ and n >= count: break
        if n == 0 and not optional:
            raise Lost("%s: `%s`: substitution anchor `%s` not found" % (self.rel, self.path, old))
        return n
    def resub(self, pattern, repl, optional=True):
        new, n = re.subn(pattern, repl, self.text)
        if n == 0 and not optional: raise Lost("%s: `%s`: pattern %s not found" % (self.rel, self.path, pattern))
        if n: self.text = new; self._scan()
        return n
    # --- statement structure -------------------------------------------------
    def stmts(self, lo, hi):
        """Statements between token indices lo..hi (exclusive): list of (first,last,is_tail)."""
        t, out, i = self.toks, [], lo
        BL = ("for", "while", "loop", "if", "match", "unsafe", "{")
        while i < hi:
            s = i
            i = skip_attrs(t, i)
            if t[i].k == "life" and t[i+1].s == ":": i += 2
            blocky = t[i].s in BL
            j = i; done = False
            while j < hi:
                x = t[j]
                if x.s == ";": out.append((s, j, False)); i = j + 1; done = True; break
                if x.k == "op" and x.s in OPEN:
                    c = match_close(t, j)
                    if x.s == "{" and blocky:
                        nx = t[c+1].s if c + 1 < hi else None
                        if nx == "else": j = c + 1; continue
                        if t[i].s in ("if",) or t[i].s != "if":
                            if nx not in (".", "?"):
                                if nx == ";": c += 1
                                tail = (c + 1 >= hi) and t[c].s != ";"
                                out.append((s, c, tail)); i = c + 1; done = True; break
                    j = c + 1; continue
                j += 1
            if not done:
                if s < hi: out.append((s, hi - 1, True))
                break
        return out
    def blocks(self):
        t = self.toks
        return [(i, match_close(t, i)) for i in range(self.body, self.end) if t[i].k == "op" and t[i].s == "{"]
    def find_stmt(self, pat, nth=0):
        """Innermost statement whose tokens contain pat (nth occurrence)."""
        p = [x.s for x in tokenize(pat)]
        hits = [i for i in range(self.body, self.end - len(p) + 1) if all(self.toks[i+j].s == p[j] for j in range(len(p)))]
        if len(hits) <= nth: raise Lost("%s: `%s`: statement `%s` not found" % (self.rel, self.path, pat))
        h = hits[nth]
        # innermost enclosing statement-block
        best = None
        for (a, b) in self.blocks():
            if a < h < b and (best is None or a > best[0]): best = (a, b)
        while True:
            try:
                for (s, e, tail) in self.stmts(best[0] + 1, best[1]):
                    if s <= h <= e: return s, e, tail
            except Lost: pass
            # struct literal or match body: go one block outwards
            outer = None
            for (a, b) in self.blocks():
                if a < best[0] and best[1] < b and (outer is None or a > outer[0]): outer = (a, b)
            if outer is None: raise Lost("%s: `%s`: no statement around `%s`" % (self.rel, self.path, pat))
            best = outer
