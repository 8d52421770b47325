"""Mechanical extraction of /repo's current source into one Verus crate, with contracts spliced in.

What it does to the text (everything else is copied byte for byte):
  * comments, doc comments, inner attributes and most outer attributes are removed;
  * items under a false #[cfg] (tests, no_std alternatives) are removed, and items/impls named in
    a `drop` directive of the contract files (Display/Debug, thread spawning, ...);
  * visibility qualifiers become `pub` (Verus wants specifications to see what they mention);
  * `macro_rules!` items with one arm of the form `$($t:frag),*[: $x:frag] => ($( BODY )*)` are
    expanded at their call sites, token for token;
  * `-> T` becomes `-> (r: T)`; requires/ensures/invariant/decreases clauses, ghost items and proof
    blocks from /verif/contracts are inserted at signatures, loop headers, loop bodies and body starts;
  * `rewrite` directives: purely syntactic replacements listed in the contract files.
"""
import os, re, glob
import rlex, skolem, render, draws
from rlex import lex, parse_items, find_loops, LexError

class Clause:
    def __init__(self, tags, text, cid):
        self.tags, self.text, self.cid = tags, text, cid

class Contract:
    def __init__(self, key, src):
        self.key, self.src = key, src
        self.ret = None
        self.sections = {}      # name -> list of Clause | text
        self.loops = {}         # n -> {invariant:[..], decreases:.., except:.., head: text}
        self.rewrites = []
        self.drop = None
        self.panics = None
        self.external = None
        self.attrs = []
        self.insert = []        # (place, text)
        self.used = False

def parse_contracts(text, fname):
    """yields Contract objects"""
    out = []
    cur = None
    sec = None
    buf = None
    def subst(s, env):
        for k, v in env.items(): s = s.replace("{" + k + "}", v)
        return s
    blocks = []
    for ln in text.split("\n"):
        if ln.startswith("## "):
            blocks.append((ln[3:].strip(), []))
        elif blocks:
            blocks[-1][1].append(ln)
    for head, lines in blocks:
        envs = [{}]
        if " for " in head:
            head, spec = head.split(" for ", 1)
            # e.g.  T=i8,u8;U=u32   (U paired or single)
            vars_ = [v.split("=") for v in spec.replace(" ", "").split(";")]
            n = len(vars_[0][1].split(","))
            envs = []
            for x in range(n):
                e = {}
                for k, vs in vars_:
                    vl = vs.split(",")
                    e[k] = vl[x] if len(vl) > 1 else vl[0]
                envs.append(e)
        for env in envs:
            out.append(parse_block(subst(head.strip(), env), [subst(l, env) for l in lines], fname))
    return out

SECS = ("requires", "ensures", "decreases", "ghost", "insert", "rewrite", "attr", "drop", "external", "loop", "ret", "no_unwind", "opens", "note")

def parse_block(key, lines, fname):
    c = Contract(key, fname)
    loop = None
    sec = None
    clauses = None
    textbuf = None
    def finish():
        pass
    n = 0
    for ln in lines:
        if ln.strip() == "" or ln.startswith("#"):
            if textbuf is not None: textbuf.append("")
            continue
        if not ln.startswith(" ") and not ln.startswith("\t"):
            w = ln.split(None, 1)
            d, arg = w[0], (w[1] if len(w) > 1 else "")
            clauses = textbuf = None
            if d == "ret": c.ret = arg.strip()
            elif d in ("requires", "ensures", "decreases"):
                clauses = c.sections.setdefault(d, []); loop = None
            elif d == "loop":
                loop = int(arg); c.loops[loop] = {"invariant": [], "decreases": [], "ensures": [], "invariant_except_break": []}
            elif d in ("invariant", "loop_ensures", "loop_decreases", "invariant_except_break"):
                clauses = c.loops[loop][{"loop_ensures": "ensures", "loop_decreases": "decreases"}.get(d, d)]
            elif d == "loop_attr": c.loops[loop]["attr"] = arg
            elif d == "loop_name": c.loops[loop]["name"] = arg.strip()
            elif d == "ghost": textbuf = c.sections.setdefault("ghost", [])
            elif d == "insert":
                textbuf = []; c.insert.append((arg.strip(), textbuf))
            elif d == "rewrite":
                textbuf = []; c.rewrites.append((arg.strip(), textbuf))
            elif d == "panics": c.panics = arg.strip()
            elif d == "attr": c.attrs.append(arg.strip())
            elif d == "drop": c.drop = arg.strip() or "dropped"
            elif d == "external": c.external = arg.strip() or "trusted"
            else: raise Exception("%s: %s: bad directive %r" % (fname, key, ln))
        elif clauses is not None:
            s = ln.strip()
            if s.startswith("- "):
                s = s[2:].strip()
                tags = None
                m = re.match(r"\[([A-Z0-9, ]+)\]\s*", s)
                if m:
                    tags = set(m.group(1).replace(" ", "").split(",")); s = s[m.end():]
                n += 1
                clauses.append(Clause(tags, s, n))
            else:
                clauses[-1].text += "\n" + s
        elif textbuf is not None:
            textbuf.append(ln)
        else:
            raise Exception("%s: %s: stray %r" % (fname, key, ln))
    return c

def load_contracts(d, dropped=()):
    cs = {}
    for f in sorted(glob.glob(os.path.join(d, "*.vc")), key=lambda f: (f.endswith("listener.vc"), f)):
        over = f.endswith("listener.vc")      # replaces what tokio.vc says about these functions
        if over and not with_listener(dropped): continue
        for c in parse_contracts(open(f).read(), os.path.basename(f)):
            if c.key in cs and not over: raise Exception("duplicate contract " + c.key)
            cs[c.key] = c
    return cs

# ------------------------------------------------------------------ cfg
def cfg_true(expr, feats):
    toks = lex(expr)
    pos = [0]
    def ev():
        t = toks[pos[0]]; name = t.t; pos[0] += 1
        if pos[0] < len(toks) and toks[pos[0]].t == "=":
            v = toks[pos[0] + 1].t.strip('"'); pos[0] += 2
            return (name, v) in feats
        if pos[0] < len(toks) and toks[pos[0]].t == "(":
            end = toks[pos[0]].m; pos[0] += 1
            vals = []
            while pos[0] < end:
                vals.append(ev())
                if pos[0] < end and toks[pos[0]].t == ",": pos[0] += 1
            pos[0] = end + 1
            return {"all": all(vals), "any": any(vals), "not": not (vals and vals[0])}[name]
        return (name, None) in feats
    return ev()

FEATS = {("feature", "use_std"), ("feature", "use_tokio"), ("feature", "default"), ("unix", None), ("target_pointer_width", "64"),
         ("target_os", "linux"), ("target_arch", "x86_64"), ("debug_assertions", None)}

def attr_inner(a):
    m = re.match(r"#!?\[\s*(.*?)\s*\]$", a, re.S)
    return m.group(1)

def attrs_enabled(attrs):
    for a in attrs:
        s = attr_inner(a)
        if re.match(r"cfg\s*\(", s):
            if not cfg_true(s[s.index("(") + 1:s.rindex(")")], FEATS): return False
        if s == "test": return False
    return True

def derives(attrs):
    out = []
    for a in attrs:
        s = attr_inner(a)
        m = re.match(r"derive\s*\((.*)\)", s, re.S)
        if m: out += [x.strip() for x in m.group(1).split(",") if x.strip()]
    return out

# ------------------------------------------------------------------ macros
def parse_macro(item, src):
    """-> (list of (var, sep-list-var?)..., body template) or raises"""
    toks = item.toks
    o, c = item.body
    i = o + 1
    # pattern
    if toks[i].t not in ("(", "{", "["): raise LexError("macro pattern")
    po, pc = i, toks[i].m
    if toks[pc + 1].t != "=>": raise LexError("macro arrow")
    bo = pc + 2
    bc = toks[bo].m
    rest = bc + 1
    if rest < c and toks[rest].t == ";": rest += 1
    if rest != c: raise LexError("macro with several arms")
    # $($t:frag),*  [: $x:frag]
    x = po + 1
    if not (toks[x].t == "$" and toks[x + 1].t == "("): raise LexError("macro pattern form")
    var = toks[x + 3].t
    if toks[x + 2].t != "$" or toks[x + 4].t != ":": raise LexError("macro pattern form")
    e = toks[x + 1].m
    if not (toks[e + 1].t == "," and toks[e + 2].t in ("*", "+")): raise LexError("macro pattern form")
    y = e + 3
    extra = None
    if y < pc:
        if toks[y].t != ":" or toks[y + 1].t != "$" or toks[y + 3].t != ":" or y + 5 != pc: raise LexError("macro pattern form")
        extra = toks[y + 2].t
    # body: exactly one $( ... )*
    z = bo + 1
    if not (toks[z].t == "$" and toks[z + 1].t == "(" and toks[toks[z + 1].m + 1].t == "*" and toks[z + 1].m + 2 == bc): raise LexError("macro body form")
    bs, be = toks[z + 1].e, toks[toks[z + 1].m].s
    return var, extra, src[bs:be]

def expand_macro(mac, call, src):
    var, extra, body = mac
    toks = call.toks
    o, c = call.body
    args = []
    cur = o + 1
    i = o + 1
    parts = [[]]
    seencolon = False
    while i < c:
        t = toks[i]
        if t.t == "," and not seencolon: parts.append([])
        elif t.t == ":" and extra and not seencolon: seencolon = True; parts.append([])
        else:
            if t.t == "<":
                e = rlex.skip_generics(toks, i)
                parts[-1] += list(range(i, e)); i = e; continue
            parts[-1].append(i)
        i += 1
    def tx(p): return src[toks[p[0]].s:toks[p[-1]].e]
    if extra:
        ex = tx(parts[-1]); parts = parts[:-1]
    parts = [p for p in parts if p]
    out = []
    for p in parts:
        b = re.sub(r"\$%s\b" % var, lambda m: tx(p), body)
        if extra: b = re.sub(r"\$%s\b" % extra, lambda m: ex, b)
        if "$" in b: raise LexError("macro body uses unknown fragment")
        out.append(b)
    return "\n".join(out)

# Semantics-preserving desugarings, applied to the whole file before anything else (line structure is kept).
def byte_values(lit):
    s = lit[2:-1]; out = []; i = 0
    while i < len(s):
        if s[i] == "\\":
            c = s[i + 1]
            if c == "x": out.append(int(s[i + 2:i + 4], 16)); i += 4; continue
            if c == "\n": raise LexError("byte string continuation")
            out.append({"n": 10, "r": 13, "t": 9, "0": 0, "\\": 92, "'": 39, '"': 34}[c]); i += 2; continue
        out.append(ord(s[i])); i += 1
    return out

def in_match_arm(toks, i):
    """is token i at the place of a match arm's pattern?  (what precedes it, up to `{` `,` `}`, is pattern text)"""
    k = i - 1
    while k >= 0 and toks[k].k == "p" and toks[k].t == "(" : k -= 2
    return k >= 0 and toks[k].k == "p" and toks[k].t in ("{", ",", "}")

def desugar(src):
    toks = lex(src)
    edits = []   # (start, end, text)
    n = len(toks)
    i = 0
    while i < n:
        t = toks[i]
        # fn f(mut self, ..) { body }   ->   fn f(self, ..) { let mut self_ = self; body[self := self_] }
        if t.k == "id" and t.t == "fn" and i + 1 < n and toks[i + 1].k == "id":
            f = rlex.parse_fn(src, toks, i, i)
            po = f.extra["params"][0]
            if toks[po + 1].t == "mut" and toks[po + 2].t == "self" and f.body:
                edits.append((toks[po + 1].s, toks[po + 2].s, ""))
                o, c = f.body
                edits.append((toks[o].e, toks[o].e, " let mut self_ = self;"))
                for j in range(o + 1, c):
                    if toks[j].k == "id" and toks[j].t == "self": edits.append((toks[j].s, toks[j].e, "self_"))
        # let x = loop { .. break e .. };   ->   let x; loop { .. { x = e; break } .. }
        if t.k == "id" and t.t == "let" and i + 3 < n and toks[i + 1].k == "id" and toks[i + 2].t == "=" and toks[i + 3].t == "loop" and toks[i + 4].t == "{":
            x = toks[i + 1].t
            o, c = i + 4, toks[i + 4].m
            edits.append((toks[i + 2].s, toks[i + 2].e, ";"))
            inner = [(lo, toks[lo].m) for _, lo, _ in find_loops(toks, o + 1, c)]
            j = o + 1
            while j < c:
                if toks[j].k == "id" and toks[j].t == "break" and not any(a < j < b for a, b in inner):
                    e = j + 1
                    while not (toks[e].k == "p" and toks[e].t in (",", ";", "}")):
                        if toks[e].k == "p" and toks[e].t in ("(", "[", "{"): e = toks[e].m
                        e += 1
                    if e == j + 1 or toks[j + 1].k == "life": raise LexError("break form")
                    edits.append((toks[j].s, toks[j].e, "{ %s =" % x))
                    edits.append((toks[e - 1].e, toks[e - 1].e, "; break; }"))
                    j = e
                j += 1
        # panicking macros: must be unreachable
        if t.k == "id" and i + 2 < n and toks[i + 1].t == "!" and toks[i + 2].t in ("(", "[", "{"):
            o, c = i + 2, toks[i + 2].m
            if t.t in ("panic", "unreachable", "unimplemented", "todo"):
                edits.append((t.s, toks[c].e, "crate::vnum::vpanic()"))
                i = c + 1; continue
            if t.t in ("assert", "debug_assert", "assert_eq", "debug_assert_eq", "assert_ne", "debug_assert_ne"):
                commas = []
                j = o + 1
                while j < c:
                    if toks[j].k == "p" and toks[j].t in ("(", "[", "{"): j = toks[j].m
                    elif toks[j].t == ",": commas.append(j)
                    j += 1
                edits.append((t.s, toks[o].s, "crate::vnum::vcheck"))
                if t.t.endswith(("_eq", "_ne")):
                    edits.append((toks[o].e, toks[o].e, "("))
                    edits.append((toks[commas[0]].s, toks[commas[0]].e, ") %s (" % ("==" if t.t.endswith("_eq") else "!=")))
                    e = toks[commas[1]].s if len(commas) > 1 else toks[c].s
                    edits.append((e, toks[c].s, ")"))
                elif commas:
                    edits.append((toks[commas[0]].s, toks[c].s, ""))
        # .map_err(Variant)   ->   .map_err(|vp_x| -> (vp_r: _) ensures vp_r == Variant(vp_x) { Variant(vp_x) })
        if t.k == "id" and t.t in ("map", "map_err") and i > 0 and toks[i - 1].t == "." and toks[i + 1].t == "(":
            o, c = i + 1, toks[i + 1].m
            path = [x for x in toks[o + 1:c]]
            if path and path[-1].k == "id" and path[-1].t[0].isupper() and all(x.k == "id" if q % 2 == 0 else x.t == "::" for q, x in enumerate(path)):
                e = src[path[0].s:path[-1].e]
                edits.append((path[0].s, path[-1].e, "|vp_x| -> (vp_r: _) ensures crate::vnum::same(vp_r, %s(vp_x)) { %s(vp_x) }" % (e, e)))
        # b"ab" -> &[97u8, 98u8];   in a pattern: b"ab" => e   ->   vb if bytes_are(vb, &[97u8, 98u8]) => e
        # "ab" in a pattern: "ab" => e   ->   vp_s if str_is(vp_s, "ab") => e
        if t.k == "str" and t.t[:1] in ("b", '"'):
            isb = t.t.startswith('b"')
            nx = toks[i + 1] if i + 1 < n else None
            alts = [t]; j = i
            while toks[j + 1].t == "|" and toks[j + 2].k == "str": alts.append(toks[j + 2]); j += 2
            q = j + 1
            while q < n and toks[q].k == "p" and toks[q].t in (")", ","): q += 1
            if q < n and ((toks[q].k == "p" and toks[q].t == "=>") or (toks[q].k == "id" and toks[q].t == "if" and in_match_arm(toks, i))):
                var = "vp_b%d" % i if isb else "vp_s%d" % i
                if isb: cond = " || ".join("crate::vnum::bytes_are(%s, &%s)" % (var, "[" + ", ".join("%du8" % v for v in byte_values(a.t)) + "]") for a in alts)
                else: cond = " || ".join("crate::vnum::str_is(%s, %s)" % (var, a.t) for a in alts)
                edits.append((t.s, toks[j].e, var))
                if toks[q].t == "=>": edits.append((toks[q].s, toks[q].s, "if %s " % cond))
                else:
                    edits.append((toks[q].e, toks[q].e, " (%s) && (" % cond))
                    while not (toks[q].k == "p" and toks[q].t == "=>"):
                        q = toks[q].m + 1 if toks[q].k == "p" and toks[q].t in ("(", "[", "{") else q + 1
                    edits.append((toks[q].s, toks[q].s, ") "))
                i = j + 1; continue
            if isb: edits.append((t.s, t.e, "&[" + ", ".join("%du8" % v for v in byte_values(t.t)) + "]"))
        i += 1
    edits.sort()
    out, pos = [], 0
    for a, b, x in edits:
        out.append(src[pos:a]); out.append(x); pos = b
    out.append(src[pos:])
    return "".join(out)

# opaque stand-ins for external types that Verus cannot name (unsized std types)
STANDINS = [(r"\bbytes::BytesMut\b", "crate::vtokio::BytesMut"), (r"\bBox\s*<\s*dyn\s+std::error::Error\s*>", "crate::vserver::BoxedError"),
            (r"\bstd::path::(?=Path\b|PathBuf\b)", "crate::vpath::"), (r"\bstd::ffi::OsStr\b", "crate::vpath::OsStr"),
            (r"\bstd::os::unix::ffi::OsStrExt\b", "crate::vpath::OsStrExt"),
            (r"\bstd::fs::File\b", "crate::vio::s::File"), (r"\bstd::io::(?=(Read|Result|Error)\b)", "crate::vio::s::"),
            (r"\bstd::os::unix::io::(?=(FromRawFd|IntoRawFd|\{))", "crate::vio::s::"), (r"\blibc::(?=(EBADF|EINVAL|close)\b)", "crate::vio::s::")]

# ------------------------------------------------------------------ generation
class FnInfo:
    def __init__(self, key, file, line, name, module):
        self.key, self.file, self.line, self.name, self.module = key, file, line, name, module
        self.gen_lines = None
        self.contract = None
        self.problems = []       # lost anchors etc
        self.idents = set()
        self.soft = {}
        self.loops = 0
        self.loop_heads = []
        self.external = False
        self.is_decl = False

def with_jobs(dropped):
    """are the asynchronous jobs part of this run"""
    return not {"server", "server::tokio", "server::tokio::dispatch", "server::tokio::jobs"} & set(dropped)

def with_listener(dropped):
    """are the functions that accept connections part of this run"""
    return with_jobs(dropped) and "server::tokio::listener" not in dropped

def lit_bytes(l):
    """the bytes of a string literal that consists of ASCII characters and simple escapes"""
    out, i = [], 0
    while i < len(l):
        c = l[i]
        if c == "\\":
            i += 1
            if l[i] not in ESCAPES: return None
            out.append(ESCAPES[l[i]])
        elif c == "\n" or ord(c) > 126: return None
        else: out.append(ord(c))
        i += 1
    return out
ESCAPES = {'"': 34, "'": 39, "\\": 92, "n": 10, "r": 13, "t": 9, "0": 0}
def with_rendering(dropped):
    """are the implementations of Display part of this run"""
    return "common::render" not in dropped
def with_secrets(dropped):
    """are the functions that draw random bytes part of this run"""
    return "server::auth::secrets" not in dropped
def optional(key, dropped):
    """does this run not need the contract"""
    if key.startswith("server::auth::") and key.endswith(("::generate", "::generate_secret")): return not with_secrets(dropped)
    return key.endswith(("::spawn_receiver", "::spawn_transmitter")) and not with_jobs(dropped) or (key.endswith(("::char_needs_escaping", " as Display>")) or " as Display>::" in key) and not with_rendering(dropped)

class Gen:
    def __init__(self, repo, contracts, prop=None, external=(), dropped=(), probe=None):
        self.probe = probe
        self.probed = set()
        self.repo, self.cs, self.prop = repo, contracts, prop
        self.force_external = set(external)
        self.force_drop = set(dropped)
        self.out = []
        self.fns = {}
        self.problems = []
        self.dropped = []
        self.rewrites_applied = []
        self.macros = {}
        self.clause_lines = {}   # generated line -> (fn key, section, clause id, text)
        self.file = None
        self.trusted = []
        self.ext_bodies = []

    def emit(self, s):
        for l in s.split("\n"): self.out.append(l)
    def line(self): return len(self.out) + 1

    def run(self, preamble, spec_files):
        self.emit(preamble)
        self.spec_names = [n for n, _ in spec_files]
        self.lit_ranges = {}
        for name, text in spec_files:
            self.emit("pub mod %s {" % name)
            self.emit(text)
            self.emit("}")
        self.do_file("src/lib.rs", [], top=True)
        for k, c in self.cs.items():
            if not c.used and not c.drop and not optional(k, self.force_drop):
                self.problems.append(("lost", k))
        self.emit_literals()
        self.emit("fn main() {}")
        return "\n".join(self.out) + "\n"

    def emit_literals(self):
        """one lemma (proved) per string literal: which bytes it stands for"""
        def of(lines):
            return {t.t[1:-1] for t in lex("\n".join(lines)) if t.k == "str" and t.t[:1] == '"' and lit_bytes(t.t[1:-1]) is not None}
        lits = of(self.out) | {"want", "have", "nope"}
        self.emit("pub mod vlits {\nuse vstd::prelude::*; use vstd::string::*; use vstd::utf8::*;\nverus! {")
        names = []
        for k, l in enumerate(sorted(lits)):
            names.append("lit_%d" % k)
            b = "seq![%s]" % ", ".join("%du8" % c for c in lit_bytes(l)) if l else "Seq::<u8>::empty()"
            self.emit('pub broadcast proof fn lit_%d()\n    ensures #[trigger] "%s".spec_bytes() == %s,\n{ reveal_strlit("%s"); is_ascii_chars_encode_utf8("%s"@); assert("%s".spec_bytes() =~= %s); }' % (k, l, b, l, l, l, b))
        self.emit('pub proof fn lit_want() ensures "want".spec_bytes() == crate::vident::b_want() { broadcast use group_lits_; assert("want".spec_bytes() =~= crate::vident::b_want()); }')
        self.emit("pub broadcast group group_lits_ { %s }" % ", ".join("lit_%d" % k for k, l in enumerate(sorted(lits)) if l in ("want",)))
        # each module sees the lemmas for the literals that occur in it
        num = {l: k for k, l in enumerate(sorted(lits))}
        for mod, (a, b, use) in sorted(self.lit_ranges.items()):
            here = sorted(num[l] for l in of(self.out[a:b]))
            g = "lits_of_" + (mod.replace("::", "_") or "crate")
            if here:
                self.emit("pub broadcast group %s { %s }" % (g, ", ".join("lit_%d" % k for k in here)))
                self.out[use] = self.out[use].replace("/*LITS*/", "crate::vlits::%s, " % g)
            else: self.out[use] = self.out[use].replace("/*LITS*/", "")
        self.emit("} // verus!\n}")

    def do_file(self, rel, modpath, top=False):
        p = os.path.join(self.repo, rel)
        src = open(p).read()
        for a, b in STANDINS:
            src = re.sub(a, b, src)
        try:
            if rel.startswith("src/server/") and not rel.startswith("src/server/tokio") and rel not in ("src/server/mod.rs", "src/server/auth.rs", "src/server/util.rs"):
                src = skolem.skolem(src, skolem.app_methods(open(os.path.join(self.repo, "src/server/application.rs")).read()))
            if rel.startswith("src/common/core/") and with_rendering(self.force_drop): src = render.render(src)
            if rel == "src/server/auth.rs" and with_secrets(self.force_drop): src = draws.draws(src)
            if rel == "src/server/tokio/dispatch.rs": src = skolem.tokio(src, with_listener(self.force_drop))
            if rel in ("src/server/tokio/receiver.rs", "src/server/tokio/transmitter.rs"):
                if not with_jobs(self.force_drop):
                    self.dropped.append(("::".join(modpath + ["spawn_" + modpath[-1]]), "an asynchronous job (C26)"))
                    src = skolem.without(src, r"spawn_\w+")
                else: src = skolem.jobs(src, skolem.tokio(open(os.path.join(self.repo, "src/server/tokio/dispatch.rs")).read()))
            src = desugar(src)
            toks = lex(src)
            items = parse_items(src, toks, 0, len(toks))
        except (LexError, IndexError, TypeError) as e:
            self.problems.append(("file", rel, str(e)))
            return
        self.do_items(src, toks, items, rel, modpath, top)

    def mod_file(self, rel, name):
        d = os.path.dirname(rel)
        base = os.path.basename(rel)
        if base not in ("lib.rs", "mod.rs"): d = os.path.join(d, base[:-3])
        for c in (os.path.join(d, name + ".rs"), os.path.join(d, name, "mod.rs")):
            if os.path.exists(os.path.join(self.repo, c)): return c
        raise LexError("module file for %s not found" % name)

    def do_items(self, src, toks, items, rel, modpath, top):
        mods, uses, rest = [], [], []
        for it in items:
            if not attrs_enabled(it.attrs): 
                continue
            if it.kind == "mod": mods.append(it)
            elif it.kind == "use": uses.append(it)
            else: rest.append(it)
        self.emit("// ---- %s" % rel)
        if not top:
            self.emit("#[allow(unused_imports)] use vstd::prelude::*; #[allow(unused_imports)] use vstd::string::*;")
            for n in self.spec_names: self.emit("#[allow(unused_imports)] use crate::%s::*;" % n)
        for u in uses:
            key = "::".join(modpath + ["use " + re.sub(r"\s+", "", src[toks[u.extra["kw"] + 1].s:toks[u.b - 1].s])])
            c = self.cs.get(key)
            if c and c.drop: c.used = True; self.dropped.append((key, c.drop)); continue
            path = re.sub(r"^use|[\s;]", "", src[toks[u.extra["kw"]].s:toks[u.b - 1].e]).split("::{")[0].split("::*")[0]
            segs = path.split("::")
            if segs[0] == "crate": cand = segs[1:]
            elif segs[0] == "self": cand = modpath + segs[1:]
            else: cand = modpath + segs
            if any(d.split("::") == cand[:len(d.split("::"))] for d in self.force_drop): continue
            self.emit("#[allow(unused_imports)] " + self.pubify(u, src, toks, keep_private_use=True))
        for m in mods:
            key = "::".join(modpath + [m.name])
            c = self.cs.get(key)
            if key in self.force_drop:
                self.dropped.append((key, "module left out of this run")); continue
            if c and c.drop:
                c.used = True
                self.dropped.append((key, c.drop)); continue
            self.emit("#[allow(unused_imports, dead_code)] pub mod %s {" % m.name)
            if m.body:
                sub = parse_items(src, toks, m.body[0] + 1, m.body[1])
                self.do_items(src, toks, sub, rel, modpath + [m.name], False)
            else:
                self.do_file(self.mod_file(rel, m.name), modpath + [m.name])
            self.emit("}")
        key = "::".join(modpath + ["extra"])
        c = self.cs.get(key)
        lit_from = len(self.out)
        if c:
            c.used = True
            self.emit("verus! {"); self.emit("\n".join(c.sections.get("ghost", []))); self.emit("}")
        if rest:
            self.emit("verus! {")
            nl = self.cs.get("::".join(modpath + ["nolits"]))
            if nl: nl.used = True
            self.emit("broadcast use {%scrate::vnum::group_num};" % ("" if nl else "crate::vstdx::group_std, /*LITS*/"))
            use_at = len(self.out) - 1
            for it in rest:
                try:
                    self.do_item(it, src, toks, rel, modpath)
                except (LexError, IndexError, TypeError, KeyError) as e:
                    self.problems.append(("item", rel, it.kind, it.name, repr(e)))
            self.emit("} // verus!")
            if not nl: self.lit_ranges["::".join(modpath)] = (lit_from, len(self.out), use_at)

    def pubify(self, it, src, toks, keep_private_use=False):
        body = src[toks[it.extra["vis_end"]].s:toks[it.b - 1].e]
        return "pub " + body

    def derive_attr(self, it):
        d = derives(it.attrs)
        return d

    def do_item(self, it, src, toks, rel, modpath):
        key = "::".join(modpath + [it.name])
        c = self.cs.get(key)
        ckind = self.cs.get("::".join(modpath + [it.kind + " " + it.name]))
        if ckind: c = ckind
        if it.kind == "macro_rules":
            self.macros[it.name] = parse_macro(it, src); return
        if it.kind == "macro_call":
            if it.name not in self.macros: raise LexError("unknown macro " + it.name)
            text = expand_macro(self.macros[it.name], it, src)
            nt = lex(text)
            for sub in parse_items(text, nt, 0, len(nt)):
                if attrs_enabled(sub.attrs):
                    self.do_item(sub, text, nt, rel, modpath)
            return
        if key in self.force_drop:
            self.dropped.append((key, "not accepted by the verifier in its present form")); 
            return
        if c and c.drop and it.kind not in ("fn",):
            c.used = True; self.dropped.append((key, c.drop)); return
        if it.kind == "fn":
            self.do_fn(it, src, toks, rel, modpath, None, key, "free"); return
        if it.kind in ("struct", "enum", "union"):
            self.do_type(it, src, toks, rel, modpath, key, c); return
        if it.kind in ("const", "static"):
            if c: c.used = True
            t = self.pubify(it, src, toks)
            t = re.sub(r"&\s*str\b", "&'static str", t.split("=", 1)[0]) + "=" + t.split("=", 1)[1]
            self.emit_block(rel, key, t)
            if c and c.sections.get("ghost"): self.emit("\n".join(c.sections["ghost"]))
            return
        if it.kind == "type":
            self.emit(self.pubify(it, src, toks)); return
        if it.kind == "trait":
            if c: c.used = True
            o, cl = it.body
            self.emit("pub " + src[toks[it.extra["kw"]].s:toks[o].s] + "{")
            if c and c.sections.get("ghost"): self.emit("\n".join(c.sections["ghost"]))
            self.do_assoc(src, toks, o, cl, rel, modpath, it, key, "trait")
            self.emit("}")
            return
        if it.kind == "impl" and it.extra.get("trait") and rlex.strip_generics_text(it.extra["trait"]).split("::")[-1] in ("Display", "Debug", "Error") and not (c and with_rendering(self.force_drop)):
            self.dropped.append((key, "text rendering (C27)")); return
        if it.kind == "impl":
            if not it.extra.get("trait"): c = None   # the key is that of the type
            if c: c.used = True
            o, cl = it.body
            if c and "inherent" in c.attrs and it.extra.get("trait"):
                # the methods of a foreign trait, as methods of the type itself (a trait impl may state no precondition)
                self.do_inherent(it, src, toks, rel, modpath, key, c); return
            s0 = self.line()
            head = src[toks[it.extra["kw"]].s:toks[o].s]
            for a in (c.attrs if c else []): self.emit(a)
            self.emit(head + "{")
            if c and c.sections.get("ghost"): self.emit("\n".join(c.sections["ghost"]))
            self.do_assoc(src, toks, o, cl, rel, modpath, it, key, "trait_impl" if it.extra.get("trait") else "inherent")
            self.emit("}")
            return
        raise LexError("item kind " + it.kind)

    def do_inherent(self, it, src, toks, rel, modpath, key, c):
        o, cl = it.body
        head = src[toks[it.extra["kw"]].s:toks[o].s]
        tr = it.extra["trait"]
        i = head.find(tr)
        m = re.match(r"\s*for\b", head[i + len(tr):])
        if i < 0 or not m: raise LexError("impl head " + head)
        types, cut = {}, []
        for sub in parse_items(src, toks, o + 1, cl):
            if sub.kind == "type":
                a, b = toks[sub.extra["kw"]].s, toks[sub.b - 1].e
                types[sub.name] = src[a:b].split("=", 1)[1].rstrip(" ;")
                cut.append((a, b))
        body = src[toks[o].s:toks[cl].e]
        for a, b in reversed(cut): body = body[:a - toks[o].s] + body[b - toks[o].s:]
        for n, t in types.items(): body = re.sub(r"\bSelf\s*::\s*%s\b" % n, lambda _: t.strip(), body)
        text = head[:i] + head[i + len(tr):][m.end():].lstrip() + body
        nt = lex(text)
        (sub,) = parse_items(text, nt, 0, len(nt))
        self.rewrites_applied.append((key, "the methods of impl %s as methods of the type" % tr.strip(), "impl %s" % head[i + len(tr):][m.end():].strip(), 1))
        self.emit(text[nt[sub.extra["kw"]].s:nt[sub.body[0]].s] + "{")
        self.do_assoc(text, nt, sub.body[0], sub.body[1], rel, modpath, sub, key, "inherent")
        self.emit("}")

    def emit_block(self, rel, key, text):
        f = FnInfo(key, rel, 0, key.split("::")[-1], "")
        s = self.line(); self.emit(text); f.gen_lines = (s, self.line() - 1)
        f.is_decl = True
        self.fns[key] = f

    def do_assoc(self, src, toks, o, cl, rel, modpath, parent, pkey, where):
        for it in parse_items(src, toks, o + 1, cl):
            if not attrs_enabled(it.attrs): continue
            key = pkey + "::" + it.name
            if it.kind == "fn":
                self.do_fn(it, src, toks, rel, modpath, parent, key, where)
            elif it.kind in ("type", "const"):
                if where in ("trait", "trait_impl"): self.emit(src[toks[it.extra["kw"]].s:toks[it.b - 1].e])
                else: self.emit(self.pubify(it, src, toks))
            else: raise LexError("associated item")

    def do_type(self, it, src, toks, rel, modpath, key, c):
        if c: c.used = True
        ds = derives(it.attrs)
        keep = [d for d in ds if d in ("Clone", "Copy", "PartialEq", "Eq", "Default")]
        nodrv = set()
        if c:
            for a in c.attrs:
                if a.startswith("noderive"): nodrv |= set(a.split()[1:])
                elif a.startswith("needderive"):
                    miss = set(a.split()[1:]) - set(ds)
                    if miss: self.problems.append(("derive", key, sorted(miss)))
        keep = [d for d in keep if d not in nodrv]
        autoclone = "Clone" in keep and "Copy" not in keep
        if autoclone: keep.remove("Clone")
        if c:
            for a in c.attrs:
                if a.startswith("addderive"):   # ghost-only derive
                    keep += [x for x in a.split()[1:] if x not in keep]
        attrs = []
        if keep: attrs.append("#[derive(%s)]" % ", ".join(keep))
        if c: attrs += [a for a in c.attrs if a.startswith("#")]
        # fields: make pub, drop field attributes and disabled fields
        kw = it.extra["kw"]
        text = None
        if it.body:
            o, cl = it.body
            head = src[toks[kw].s:toks[o].s]
            parts = []
            i = o + 1
            while i < cl:
                fa = []
                while toks[i].t == "#":
                    fa.append(src[toks[i].s:toks[toks[i + 1].m].e]); i = toks[i + 1].m + 1
                j = i
                while j < cl and toks[j].t != ",":
                    if toks[j].t == "<" : j = rlex.skip_generics(toks, j); continue
                    if toks[j].t in ("(", "{", "["): j = toks[j].m
                    j += 1
                k = i
                if it.kind == "struct":
                    if toks[k].t == "pub":
                        k += 1
                        if toks[k].t == "(": k = toks[k].m + 1
                    pre = "pub "
                else: pre = ""
                if attrs_enabled(fa): parts.append("    " + pre + src[toks[k].s:toks[j - 1].e] + ",")
                i = j + 1
            text = "pub " + head + "{\n" + "\n".join(parts) + "\n}"
        else:
            # tuple struct / unit
            t = src[toks[kw].s:toks[it.b - 1].e]
            po = None
            for i in range(kw, it.b):
                if toks[i].t == "(": po = i; break
            if po is not None:
                inner = []
                i = po + 1
                while i < toks[po].m:
                    j = i
                    while j < toks[po].m and toks[j].t != ",":
                        if toks[j].t == "<": j = rlex.skip_generics(toks, j); continue
                        if toks[j].t in ("(", "{", "["): j = toks[j].m
                        j += 1
                    k = i
                    if toks[k].t == "pub":
                        k += 1
                        if toks[k].t == "(" and toks[k+1].t in ("crate","super","self"): k = toks[k].m + 1
                    inner.append("pub " + src[toks[k].s:toks[j - 1].e])
                    i = j + 1
                t = src[toks[kw].s:toks[po].s] + "(" + ", ".join(inner) + ")" + src[toks[toks[po].m].e:toks[it.b - 1].e]
            text = "pub " + t
        for a in attrs: self.emit(a)
        self.emit(text)
        if autoclone:
            gen = ""
            args = ""
            if toks[kw + 2].t == "<":
                e = rlex.skip_generics(toks, kw + 2)
                gen = src[toks[kw + 2].s:toks[e - 1].e]
                args = "<" + ", ".join(a.split(":")[0].strip() for a in gen[1:-1].split(",")) + ">"
            self.emit("impl%s Clone for %s%s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }" % (gen, it.name, args))
            self.trusted.append("derive(Clone) of %s yields an equal value" % key)
        if c and c.sections.get("ghost"): self.emit("\n".join(c.sections["ghost"]))

    # -------------------------------------------------------------- functions
    def sel(self, clauses):
        """clauses that belong to the property being checked"""
        if self.prop is None: return clauses
        return [c for c in clauses if c.tags is None or self.prop in c.tags]

    def do_fn(self, it, src, toks, rel, modpath, parent, key, where):
        c = self.cs.get(key)
        info = FnInfo(key, rel, src.count("\n", 0, toks[it.extra["kw"]].s) + 1, it.name, "::".join(modpath))
        self.fns[key] = info
        info.contract = c
        if c:
            c.used = True
            if c.drop:
                self.dropped.append((key, c.drop)); return
            if optional(key, self.force_drop):
                self.dropped.append((key, "only for C23, C27")); return
        if key in self.force_drop:
            self.dropped.append((key, "not accepted by the verifier in its present form")); return
        ex = it.extra
        kw = ex["kw"]
        sig_start = toks[ex["vis_end"]].s
        sig = src[sig_start:toks[ex["params"][1]].e]
        s0 = self.line()
        attrs = list(c.attrs) if c else []
        external = (c.external if c else None)
        if key in self.force_external:
            external = "set aside: the verifier does not accept its present text"
        if external and it.body:
            attrs.append("#[verifier::external_body]")
            info.external = True
            self.ext_bodies.append((key, external))
        if it.body and not external: attrs.append("#[verifier::spinoff_prover]")   # one solver process per function
        for a in attrs: self.emit(a)
        pub = "" if where in ("trait", "trait_impl") else "pub "
        rtxt = src[toks[ex["ret"][0]].s:toks[ex["ret"][1] - 1].e] if ex["ret"] else None
        rname = (c.ret if c else None) or "r"
        line = pub + sig
        if rtxt is not None:
            if c and (c.sections.get("ensures") or c.ret) : line += " -> (%s: %s)" % (rname, rtxt)
            else: line += " -> " + rtxt
        if ex["where"]:
            line += "\n    " + src[toks[ex["where"][0]].s:toks[ex["where"][1] - 1].e].rstrip().rstrip(",")
            line += ","
        # rewrites on the signature are not supported
        self.emit(line)
        if c:
            for sec in ("requires", "ensures", "decreases"):
                if sec == "requires" and where == "trait_impl" and False: continue
                cl = self.sel(c.sections.get(sec, []))
                if cl:
                    self.emit("    " + sec)
                    for x in cl:
                        a = self.line()
                        self.emit("        " + x.text.rstrip().rstrip(",") + ",")
                        for l in range(a, self.line()): self.clause_lines[l] = (key, sec, x.cid, x.text)
            if c.sections.get("no_unwind"): self.emit("    no_unwind")
        if not it.body:
            self.emit(";")
            info.gen_lines = (s0, self.line() - 1)
            info.is_decl = True
            return
        o, cl = it.body
        info.idents = rlex.calls(toks, o, cl + 1)
        info.soft = rlex.soft(toks, o, cl + 1)
        body = self.body_text(it, src, toks, o, cl, c, key, info) if not info.external else self.external_body_text(src, toks, o, cl)
        if c and c.panics:   # a documented panic: allowed exactly under this condition
            body = body.replace("crate::vnum::vpanic()", "crate::vnum::vpanic_if(Ghost(vp_may))")
            body = re.sub(r"crate::vnum::vcheck\s*\(", "crate::vnum::vcheck_if(Ghost(vp_may), ", body)
            body = re.sub(r"\.\s*unwrap\s*\(\s*\)", ".vp_or_panic(Ghost(vp_may))", body)
            body = re.sub(r"\.\s*expect\s*\(\s*\"(?:[^\"\\\\]|\\\\.)*\"\s*,?\s*\)", ".vp_or_panic(Ghost(vp_may))", body)
            if ".vp_or_panic(" in body: body = "{ use crate::vnum::VpOr;" + body[body.index("{") + 1:]
            body = "{ let ghost vp_may: bool = %s;" % c.panics + body[body.index("{") + 1:]
        self.emit(body)
        info.gen_lines = (s0, self.line() - 1)

    def probe_fn(self, key, c):
        m = key.rsplit("::", 2)[0] if "<" not in key else key.split("<")[0]
        if m not in self.probed: self.probed.add(m); return True   # also: are the axioms consistent
        if c and c.sections.get("requires"): return True
        if " as " not in key: return False
        n = key.rsplit("::", 1)[1]
        return any(k.rsplit("::", 1)[1] == n and cc.sections.get("requires") for k, cc in self.cs.items())

    def external_body_text(self, src, toks, o, cl):
        return "{ unimplemented!() }"

    def impl_specs(self, key, it, src, toks):
        if " as " not in key: return ""
        c = self.cs.get(key.rsplit("::", 1)[0])
        if not c or not c.sections.get("ghost"): return ""
        r = []
        sig = src[toks[it.extra["params"][0]].s:toks[it.extra["params"][1]].e]
        has_self = re.search(r"\bself\b", sig)
        text = "\n".join(c.sections["ghost"])
        for m in re.finditer(r"(#\[[^\]]*\]\s*)?\b(open|closed)\s+spec\s+fn\s+(\w+)\s*(<[^(]*>)?\(", text):
            if m.group(1) and "prophetic" in m.group(1): continue
            d, i, args = 1, m.end(), []
            a = i
            while d:
                ch = text[i]
                if ch in "([{<": d += 1
                elif ch in ")]}" or (ch == ">" and text[i - 1] != "-"): d -= 1
                if (ch == "," and d == 1) or d == 0:
                    if text[a:i].strip(): args.append(text[a:i].strip())
                    a = i + 1
                i += 1
            vals = []
            for x in args:
                if re.match(r"&?\s*('\w+\s+)?self$", x):
                    if not has_self: vals = None; break
                    vals.append("self" if re.match(r"\(\s*&", sig) else "&self")
                else: vals.append("vstd::pervasive::arbitrary()")
            if vals is not None: r.append("let _ = Self::%s(%s);" % (m.group(3), ", ".join(vals)))
        return " ".join(r)

    def body_text(self, it, src, toks, o, cl, c, key, info):
        loops = find_loops(toks, o + 1, cl)
        info.loops = len(loops)
        info.loop_heads = [" ".join(t.t for t in toks[lk:lo]) for lk, lo, _ in loops]
        ins = []   # (pos, text)
        # vacuity probes: these assertions have to fail
        if self.probe == "body" and self.probe_fn(key, c): ins.append((toks[o].e, "\nproof { /*@PROBE@*/ assert(false); }\n", 9))
        if self.probe == "loop":
            for lk, lo, _ in loops: ins.append((toks[lo].e, "\nproof { /*@PROBE@*/ assert(false); }\n", -1))
        # mentions the specifications of the impl, so that the verifier defines them before it verifies this function
        # (what a trait promises refers to them through the trait, which its ordering does not follow)
        dep = self.impl_specs(key, it, src, toks)
        if dep: ins.append((toks[o].e, "\nproof { %s }\n" % dep, 1))
        if c:
            if c.loops and len(loops) != len(c.loops):
                info.problems.append("loops: %d in the source, %d under contract" % (len(loops), len(c.loops)))
            for place, tb in c.insert:
                text = "\n" + "\n".join(tb) + "\n"
                if place == "body_end": ins.append((toks[cl].s, text, 0)); continue
                m = re.match(r"(body_start|loop_start|loop_end|after_loop|before_loop)\s*(\d+)?$", place)
                if m:
                    p, n = m.group(1), int(m.group(2) or 0)
                    if p == "body_start": ins.append((toks[o].e, text, 0)); continue
                    if n > len(loops):
                        info.problems.append("anchor: " + place); continue
                    lk, lo, _ = loops[n - 1]
                    if p == "loop_start": ins.append((toks[lo].e, text, 0))
                    elif p == "loop_end": ins.append((toks[toks[lo].m].s, text, 0))
                    elif p == "after_loop":
                        q = toks[lo].m
                        e = toks[q].e
                        if toks[q + 1].t == ";": e = toks[q + 1].e
                        ins.append((e, text, 0))
                    elif p == "before_loop":
                        s = toks[lk].s
                        # step over `let x =` and labels: go back to the statement start
                        k = lk
                        while not (toks[k - 1].k == "p" and toks[k - 1].t in ("{", "}", ";")): k -= 1
                        ins.append((toks[k].s, text, 0))
                    continue
                m = re.match(r"(before|after)\s+(?:(\d+)\s+)?`(.*)`$", place)
                if not m: raise Exception("bad insert place " + place)
                pos = self.find_text(src, toks, o, cl, m.group(3), int(m.group(2) or 1))
                if pos is None:
                    info.problems.append("anchor: " + place); continue
                a, b = pos
                if m.group(1) == "before":
                    k = a
                    while not (toks[k - 1].k == "p" and toks[k - 1].t in ("{", "}", ";", "=>")): k -= 1
                    ins.append((toks[k].s, text, 0))
                else:
                    k = b
                    while not (toks[k].k == "p" and toks[k].t == ";"):
                        if toks[k].k == "p" and toks[k].t in ("(", "[", "{"): k = toks[k].m
                        k += 1
                    ins.append((toks[k].e, text, 0))
            for n, L in c.loops.items():
                if n > len(loops): continue
                lk, lo, kind = loops[n - 1]
                lines = []
                for sec in ("invariant", "invariant_except_break", "ensures", "decreases"):
                    cls = self.sel(L[sec])
                    if cls:
                        lines.append("    " + sec)
                        for x in cls: lines.append("        " + x.text.rstrip().rstrip(",") + ", /*@L%d.%s.%d@*/" % (n, sec, x.cid))
                ins.append((toks[lo].s, "\n" + "\n".join(lines) + "\n", 1))
                if L.get("attr"): 
                    ins.append((toks[lk].s, L["attr"] + " ", 0))
                if L.get("name") and kind == "for":
                    # for PAT in EXPR  ->  for PAT in name: EXPR
                    k = lk
                    while not (toks[k].k == "id" and toks[k].t == "in"): k += 1
                    ins.append((toks[k].e, " %s: " % L["name"], 0))
        # copy the body, dropping comments and attributes on statements, applying insertions
        out = []
        ins.sort(key=lambda x: (x[0], x[2]))
        pieces = []
        drop_ranges = []
        i = o
        while i <= cl:
            t = toks[i]
            if t.t == "#" and t.k == "p" and toks[i + 1].t == "[":
                drop_ranges.append((t.s, toks[toks[i + 1].m].e)); i = toks[i + 1].m + 1; continue
            i += 1
        text = self.strip_comments(src, toks, o, cl, ins, drop_ranges)
        if c:
            for arg, tb in c.rewrites:
                pat, _, rep = "\n".join(tb).partition("==>")
                pat, rep = pat.strip(), rep.strip()
                new, n = self.rewrite_tokens(text, pat, rep)
                if n == 0: info.problems.append("rewrite not applicable: " + pat)
                else: self.rewrites_applied.append((key, pat, rep, n))
                text = new
        return text

    def strip_comments(self, src, toks, o, cl, ins, drops):
        out = []
        pos = toks[o].s
        insq = list(ins)
        def flush_until(p):
            while insq and insq[0][0] <= p:
                out.append(insq.pop(0)[1])
        prev_e = None
        for i in range(o, cl + 1):
            t = toks[i]
            if any(a <= t.s < b for a, b in drops):
                prev_e = t.e
                continue
            if prev_e is not None:
                gap = src[prev_e:t.s]
                if "//" in gap or "/*" in gap or "#" in gap: gap = "\n" if "\n" in gap else " "
                # insertions located in [prev_e, t.s]
                while insq and insq[0][0] < t.s: out.append(insq.pop(0)[1])
                out.append(gap)
            while insq and insq[0][0] <= t.s: out.append(insq.pop(0)[1])
            out.append(t.t)
            prev_e = t.e
        while insq: out.append(insq.pop(0)[1])
        return "".join(out)

    def find_text(self, src, toks, o, cl, pat, nth):
        pt = [t.t for t in lex(pat)] if not pat.strip().startswith("}") else None
        cnt = 0
        for i in range(o, cl + 1 - len(pt)):
            if all(toks[i + j].t == pt[j] for j in range(len(pt))):
                cnt += 1
                if cnt == nth: return i, i + len(pt) - 1
        return None

    def rewrite_tokens(self, text, pat, rep):
        toks = lex(text)
        pt = lex(pat)
        out = []
        pos = 0
        n = 0
        i = 0
        while i < len(toks):
            m = self.match_pat(toks, i, pt, text)
            if m:
                e, env = m
                r = rep
                for k, v in env.items(): r = r.replace("$" + k, v)
                out.append(text[pos:toks[i].s]); out.append(r); pos = toks[e - 1].e; n += 1
                i = e
            else: i += 1
        out.append(text[pos:])
        return "".join(out), n

    def match_pat(self, toks, i, pt, text):
        """pattern tokens; `$x` matches one identifier, `$(x)` matches a balanced non-empty token run (shortest, no `;` unless it is a whole block)"""
        env = {}
        def go(i, j):
            if j == len(pt): return i
            if pt[j].t == "$" and pt[j + 1].t == "(":
                name = pt[j + 2].t
                nj = pt[j + 1].m + 1
                k = i
                while k < len(toks):
                    t = toks[k]
                    if t.k == "p" and t.t in (")", "]", "}"): return None
                    if t.k == "p" and t.t == ";" and not (j and pt[j - 1].t == "{"): return None      # `{ $(x) }`: a whole block
                    k = (t.m + 1) if (t.k == "p" and t.t in ("(", "[", "{")) else k + 1
                    r = go(k, nj)
                    if r is not None:
                        env[name] = text[toks[i].s:toks[k - 1].e]
                        return r
                return None
            if pt[j].t == "$":
                if i < len(toks) and toks[i].k == "id":
                    r = go(i + 1, j + 2)
                    if r is not None: env[pt[j + 1].t] = toks[i].t
                    return r
                return None
            if i < len(toks) and toks[i].t == pt[j].t and toks[i].k == pt[j].k: return go(i + 1, j + 1)
            return None
        r = go(i, 0)
        return (r, env) if r is not None else None
