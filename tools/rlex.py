"""Minimal Rust lexer and item parser, enough to extract functions mechanically.

Nothing here interprets code: it finds token boundaries, matching delimiters, items,
function signatures and loop headers, so that contracts can be spliced into the text."""
import re

class LexError(Exception):
    pass

class Tok:
    __slots__ = ("k", "t", "s", "e", "m")
    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e, self.m = k, t, s, e, None
    def __repr__(self):
        return "%s:%r" % (self.k, self.t)

_ident = re.compile(r"[A-Za-z_\u0080-\uffff][A-Za-z0-9_\u0080-\uffff]*")
_num = re.compile(r"[0-9][A-Za-z0-9_]*(\.[0-9][A-Za-z0-9_]*)?")
_punct3 = ("<<=", ">>=", "...", "..=")
_punct2 = ("::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", "..")

def lex(src):
    """Returns tokens (comments and white space dropped), with matching delimiters linked in .m"""
    toks = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith("/*", j):
                    depth += 1; j += 2
                elif src.startswith("*/", j):
                    depth -= 1; j += 2
                else:
                    j += 1
            i = j
            continue
        m = re.compile(r'(?:br|b|r|c|cr)?(#*)"').match(src, i)
        if m and (c in '"brc'):
            pre = m.group(0)
            if "r" in pre.split('"')[0]:
                close = '"' + m.group(1)
                j = src.find(close, m.end())
                if j < 0: raise LexError("raw string")
                e = j + len(close)
            elif m.group(1) == "":
                j = m.end()
                while j < n and src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                e = j + 1
            else:
                e = None
            if e is not None:
                toks.append(Tok("str", src[i:e], i, e)); i = e
                continue
        m = re.compile(r"b?'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^\\'])'").match(src, i)
        if m and c in "'b":
            toks.append(Tok("char", m.group(0), i, m.end())); i = m.end()
            continue
        if c == "'":
            m = _ident.match(src, i + 1)
            if not m: raise LexError("stray quote at %d" % i)
            toks.append(Tok("life", src[i:m.end()], i, m.end())); i = m.end()
            continue
        if src.startswith("r#", i) and _ident.match(src, i + 2):
            m = _ident.match(src, i + 2)
            toks.append(Tok("id", src[i:m.end()], i, m.end())); i = m.end()
            continue
        m = _ident.match(src, i)
        if m:
            toks.append(Tok("id", m.group(0), i, m.end())); i = m.end()
            continue
        m = _num.match(src, i)
        if m:
            # "0..n": do not swallow the range dots
            toks.append(Tok("num", m.group(0), i, m.end())); i = m.end()
            continue
        for p in _punct3 + _punct2:
            if src.startswith(p, i):
                toks.append(Tok("p", p, i, i + len(p))); i += len(p)
                break
        else:
            toks.append(Tok("p", c, i, i + 1)); i += 1
    stack = []
    for x, t in enumerate(toks):
        if t.k == "p" and t.t in "([{" and len(t.t) == 1:
            stack.append(x)
        elif t.k == "p" and t.t in ")]}" and len(t.t) == 1:
            if not stack: raise LexError("unbalanced delimiter at %d" % t.s)
            o = stack.pop()
            if "([{".index(toks[o].t) != ")]}".index(t.t):
                raise LexError("mismatched delimiter at %d" % t.s)
            toks[o].m, t.m = x, o
    if stack: raise LexError("unclosed delimiter")
    return toks

class Item:
    """kind: use mod fn struct enum union trait impl const static type macro_rules macro_call other"""
    def __init__(self, kind, name, src, toks, a, b):
        self.kind, self.name = kind, name
        self.src, self.toks, self.a, self.b = src, toks, a, b  # token range [a,b)
        self.attrs = []      # texts of outer attributes
        self.a0 = a          # first token after attributes
        self.body = None     # (open, close) token index of the body
        self.extra = {}
    def text(self):
        return self.src[self.toks[self.a0].s:self.toks[self.b - 1].e]

def skip_generics(toks, i):
    """toks[i] is '<': index after the matching '>'"""
    depth = 0
    while True:
        t = toks[i].t if toks[i].k == "p" else ""
        if t == "<": depth += 1
        elif t == "<<": depth += 2
        elif t == ">": depth -= 1
        elif t == ">>": depth -= 2
        elif t in ("(", "[", "{"): i = toks[i].m
        i += 1
        if depth <= 0: return i

def parse_items(src, toks, a, b):
    items = []
    i = a
    while i < b:
        start = i
        attrs = []
        while i < b and toks[i].t == "#" and toks[i].k == "p":
            j = i + 1
            if toks[j].t == "!" : j += 1
            attrs.append(src[toks[i].s:toks[toks[j].m].e])
            i = toks[j].m + 1
        if i >= b: break
        a0 = i
        if toks[i].t == "pub":
            i += 1
            if toks[i].t == "(" : i = toks[i].m + 1
        vis_end = i
        quals = []
        while toks[i].t in ("const", "async", "unsafe", "extern", "default") and toks[i].k == "id" and (
                toks[i + 1].t in ("fn", "async", "unsafe", "extern", "impl", "trait") or toks[i + 1].k == "str"):
            quals.append(toks[i].t); i += 1
            if toks[i].k == "str": i += 1
        kw = toks[i].t
        it = None
        def until_semi(j):
            while toks[j].t != ";":
                if toks[j].t in ("(", "[", "{") and toks[j].k == "p": j = toks[j].m
                j += 1
            return j + 1
        if kw in ("use", "const", "static", "type") or (kw == "extern" and toks[i + 1].t == "crate"):
            e = until_semi(i)
            it = Item(kw, toks[i + 1].t if kw != "static" or toks[i + 1].t != "mut" else toks[i + 2].t, src, toks, start, e)
        elif kw == "mod":
            name = toks[i + 1].t
            if toks[i + 2].t == ";":
                it = Item("mod", name, src, toks, start, i + 3)
            else:
                c = toks[i + 2].m
                it = Item("mod", name, src, toks, start, c + 1); it.body = (i + 2, c)
        elif kw == "fn":
            it = parse_fn(src, toks, start, i)
        elif kw in ("struct", "union", "enum", "trait", "impl"):
            j = i + 1
            while not (toks[j].k == "p" and toks[j].t in ("{", ";")):
                if toks[j].k == "p" and toks[j].t in ("(", "["): j = toks[j].m
                j += 1
            if toks[j].t == "{":
                c = toks[j].m
                it = Item(kw, toks[i + 1].t, src, toks, start, c + 1); it.body = (j, c)
            else:
                it = Item(kw, toks[i + 1].t, src, toks, start, j + 1)
            if kw == "impl":
                parse_impl_header(it, src, toks, i, j)
        elif kw == "macro_rules":
            name = toks[i + 2].t
            c = toks[i + 3].m
            e = c + 1
            if e < b and toks[e].t == ";": e += 1
            it = Item("macro_rules", name, src, toks, start, e); it.body = (i + 3, c)
        elif toks[i].k == "id" and i + 1 < b and toks[i + 1].t == "!":
            c = toks[i + 2].m
            e = c + 1
            if e < b and toks[e].t == ";": e += 1
            it = Item("macro_call", kw, src, toks, start, e); it.body = (i + 2, c)
        else:
            raise LexError("unrecognised item at %r" % src[toks[i].s:toks[i].s + 60])
        it.attrs = attrs
        it.a0 = a0
        it.extra["vis_end"] = vis_end
        it.extra["kw"] = i
        items.append(it)
        i = it.b
    return items

def parse_fn(src, toks, start, i):
    name = toks[i + 1].t
    j = i + 2
    gen = None
    if toks[j].t == "<":
        e = skip_generics(toks, j)
        gen = (j, e); j = e
    params = (j, toks[j].m)
    j = toks[j].m + 1
    ret = None
    if toks[j].t == "->":
        k = j + 1
        while True:
            t = toks[k]
            if t.k == "p" and t.t in ("{", ";"): break
            if t.k == "id" and t.t == "where": break
            if t.k == "p" and t.t in ("(", "["): k = t.m
            k += 1
        ret = (j + 1, k); j = k
    where = None
    if toks[j].t == "where":
        k = j
        while not (toks[k].k == "p" and toks[k].t in ("{", ";")):
            if toks[k].k == "p" and toks[k].t in ("(", "["): k = toks[k].m
            k += 1
        where = (j, k); j = k
    if toks[j].t == "{":
        it = Item("fn", name, src, toks, start, toks[j].m + 1); it.body = (j, toks[j].m)
    else:
        it = Item("fn", name, src, toks, start, j + 1)
    it.extra.update(gen=gen, params=params, ret=ret, where=where)
    return it

def strip_generics_text(s):
    """type text -> key: lifetimes, generic arguments and white space removed"""
    s = re.sub(r"'[A-Za-z_]+\s*", "", s)
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if s.startswith("->", i) or s.startswith("=>", i):
            if d == 0: out.append(s[i:i+2])
            i += 2; continue
        if c == "<": d += 1
        elif c == ">": d -= 1
        elif d == 0: out.append(c)
        i += 1
    s = re.sub(r"\s+", " ", "".join(out)).strip()
    s = re.sub(r"^([A-Za-z_0-9]+::)+(?=[A-Za-z_])", "", s)
    s = re.sub(r"\s*::\s*", "::", s)
    return s

def parse_impl_header(it, src, toks, i, j):
    k = i + 1
    gen = None
    if toks[k].t == "<":
        e = skip_generics(toks, k); gen = (k, e); k = e
    # find "for" and "where" at depth 0
    fr = wh = None
    x = k
    while x < j:
        t = toks[x]
        if t.k == "id" and t.t == "for" and fr is None and toks[x + 1].t != "<": fr = x
        if t.k == "id" and t.t == "where": wh = x; break
        if t.k == "p" and t.t == "<": x = skip_generics(toks, x); continue
        if t.k == "p" and t.t in ("(", "["): x = t.m
        x += 1
    end = wh if wh is not None else j
    def tx(a, b): return src[toks[a].s:toks[b - 1].e]
    it.extra["gen"] = gen
    it.extra["where"] = (wh, j) if wh is not None else None
    if fr is not None:
        it.extra["trait"] = tx(k, fr)
        it.extra["type"] = tx(fr + 1, end)
    else:
        it.extra["trait"] = None
        it.extra["type"] = tx(k, end)
    ty = strip_generics_text(it.extra["type"])
    if ty in ("T",): ty = "T"
    tr = strip_generics_text(it.extra["trait"]) if it.extra["trait"] else None
    it.extra["key"] = "<%s as %s>" % (ty, tr) if tr else ty
    it.name = it.extra["key"]

def find_loops(toks, a, b):
    """Loops in token range, in source order: list of (kw index, body open index, kind, label)"""
    out = []
    i = a
    while i < b:
        t = toks[i]
        if t.k == "id" and t.t in ("loop", "while", "for"):
            if t.t == "for" and toks[i + 1].t == "<":
                i += 1; continue
            j = i + 1
            while not (toks[j].k == "p" and toks[j].t == "{"):
                if toks[j].k == "p" and toks[j].t in ("(", "["): j = toks[j].m
                j += 1
            out.append((i, j, t.t))
        i += 1
    return out

def calls(toks, a, b):
    """names that are called or mentioned in a token range (over-approximation)"""
    return {toks[i].t for i in range(a, b) if toks[i].k == "id"}

# library functions whose contracts are about closures or whole sequences: they are sound, but a proof may need a hint
SOFT = {"any", "all", "position", "retain", "filter", "eq_ignore_ascii_case", "strip_prefix", "strip_suffix", "split_once",
        "split_last", "swap", "reverse", "is_ascii", "to_ascii_lowercase", "to_ascii_uppercase", "starts_with", "ends_with", "trim", "copy_within", "rotate_left", "rotate_right"}
def soft(toks, a, b):
    """name -> number of uses of closures and of the functions above in a token range"""
    n = {}
    for i in range(a, b):
        t = toks[i]
        if t.k == "id":
            if t.t in SOFT and i + 1 < b and toks[i + 1].t in ("(", "::"): n[t.t] = n.get(t.t, 0) + 1
        elif t.t in ("|", "||") and i > a and toks[i - 1].t in ("(", ",", "=", "move"):
            n["a closure"] = n.get("a closure", 0) + 1
    return n
