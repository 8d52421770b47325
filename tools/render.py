"""Text renderings (impl Display) on the stand-ins of contracts/vfmt.rs: `write!` becomes the calls it stands for, iterations over bytes
become calls of functions that are verified to do the same, and a loop over the arguments of a message becomes a loop that calls `next`."""
import re
import rlex
from rlex import lex, LexError
import skolem
from skolem import apply

def pieces(lit):
    """a format string: texts, and None for {} or the name in {name}"""
    s = lit[1:-1]
    out, cur, i = [], "", 0
    while i < len(s):
        if s[i:i + 2] in ("{{", "}}"): cur += s[i]; i += 2
        elif s[i] == "{":
            j = s.index("}", i)
            n = s[i + 1:j]
            if n and not re.fullmatch(r"[A-Za-z_]\w*", n): raise LexError("format {%s}" % n)
            if cur: out.append(("t", cur)); cur = ""
            out.append(("a", n)); i = j + 1
        else: cur += s[i]; i += 1
    if cur: out.append(("t", cur))
    return out

def split(toks, a, b):
    out, st, i = [], a, a
    while i < b:
        t = toks[i]
        if t.k == "p" and t.t == ",": out.append((st, i)); st = i + 1
        elif t.k == "p" and t.t in ("(", "[", "{"): i = t.m
        i += 1
    if st < b: out.append((st, b))
    return out

def writes(src):
    while True:
        toks = lex(src)
        at = [i for i in range(len(toks) - 2) if toks[i].k == "id" and toks[i].t in ("write", "writeln") and toks[i + 1].t == "!" and toks[i + 2].t in ("(", "[", "{")]
        if not at: return src
        i = at[-1]
        e = toks[i + 2].m
        args = split(toks, i + 3, e)
        txt = [src[toks[a].s:toks[b - 1].e] for a, b in args]
        if toks[i].t == "writeln" or len(args) < 2 or not re.fullmatch(r'"(?:[^"\\]|\\.)*"', txt[1], re.S): raise LexError("write!")
        dest, rest = txt[0], txt[2:]
        calls = []
        for k, v in pieces(txt[1]):
            if k == "t": calls.append('%s.write_str("%s")' % (dest, v))
            else:
                x = v or (rest.pop(0) if rest else None)
                if x is None: raise LexError("write! without argument")
                calls.append("crate::vfmt::Display::fmt(&(%s), %s)" % (x, dest))
        if rest: raise LexError("write! with a named argument")
        if not calls: r = "Ok(())"
        else:
            r = calls[-1]
            for c in reversed(calls[:-1]): r = "match %s { Ok(()) => %s, Err(vp_e) => Err(vp_e) }" % (c, r)
        src = src[:toks[i].s] + "(" + r + ")" + src[toks[e].e:]

def receiver(toks, i):
    """toks[i] is '.', the first token of the expression it is applied to"""
    i -= 1
    while True:
        t = toks[i]
        if t.k == "p" and t.t in (")", "]"): i = t.m
        elif t.k not in ("id", "num"): raise LexError("receiver")
        if i and toks[i - 1].t in (".", "::"): i -= 2; continue
        if t.k == "p" and toks[i - 1].k == "id": i -= 1; continue
        return i

def bytes_iter(src):
    """s.iter().flat_map(|&b| core::ascii::escape_default(b)), s.escape_ascii(), s.iter().any(..), s.iter().all(..)"""
    n = 0
    while True:
        toks = lex(src)
        T = lambda i, k: [x.t for x in toks[i:i + k]]
        done = True
        for i, t in enumerate(toks):
            if t.t != ".": continue
            if T(i, 4) == [".", "escape_ascii", "(", ")"]:
                a = receiver(toks, i)
                src = src[:toks[a].s] + "crate::vfmt::escaped(" + src[toks[a].s:toks[i].s] + ")" + src[toks[i + 3].e:]; done = False; break
            if T(i, 5) != [".", "iter", "(", ")", "."]: continue
            a = receiver(toks, i)
            recv = src[toks[a].s:toks[i].s]
            d = i + 4
            while toks[d + 1].t in ("take", "skip") and toks[d + 2].t == "(" and toks[toks[d + 2].m + 1].t == ".":
                e = toks[d + 2].m
                recv = "crate::vfmt::%s(%s, %s)" % ({"take": "taken", "skip": "skipped"}[toks[d + 1].t], recv, src[toks[d + 2].e:toks[e].s])
                d = e + 1
            m = toks[d + 1].t
            if toks[d + 2].t != "(": continue
            o, c = d + 2, toks[d + 2].m
            arg = src[toks[o].e:toks[c].s].strip()
            if m == "flat_map":
                if not (re.fullmatch(r"\|\s*&\s*(\w+)\s*\|\s*(core|std)::ascii::escape_default\(\s*\1\s*\)", arg) or re.fullmatch(r"\|\s*(\w+)\s*\|\s*(core|std)::ascii::escape_default\(\s*\*\s*\1\s*\)", arg)): continue
                new = "crate::vfmt::escaped(%s)" % recv
            elif m in ("any", "all"):
                x = re.fullmatch(r"\|\s*(&?)\s*(\w+)\s*\|(.*)", arg, re.S)
                if not x: continue
                v, body = x.group(2), x.group(3).strip()
                if not x.group(1): body = re.sub(r"\*\s*%s\b" % v, v, body)
                new = "crate::vfmt::%s(%s, |%s: u8| -> (vp_b: bool) ensures vp_b == %scrate::vfmt::is_plain(%s) { %s })" % (m + ("_byte" if m == "any" else "_bytes"), recv, v, "!" if m == "any" else "", v, body)
            else: continue
            src = src[:toks[a].s] + new + src[toks[c].e:]; done = False; break
        if done: return src
        n += 1
        if n > 100: raise LexError("iterations")

def arg_loops(src):
    """for x in m.arguments.clone() { .. }"""
    k = 0
    while True:
        toks = lex(src)
        hit = None
        for i, t in enumerate(toks):
            if t.k == "id" and t.t == "for" and toks[i + 1].k == "id" and toks[i + 2].t == "in":
                j = i + 3
                while toks[j].t != "{": j = (toks[j].m if toks[j].t in ("(", "[") else j) + 1
                e = src[toks[i + 3].s:toks[j - 1].e]
                if re.search(r"\barguments\b(\s*\(\s*\))?(\s*\.\s*clone\s*\(\s*\))?$", e): hit = (i, j, e); break
        if not hit:
            # let mut it = m.arguments(); while let Some(x) = it.next() { .. }
            m = re.search(r"\bwhile\s+let\s+Some\s*\(\s*(\w+)\s*\)\s*=\s*(\w+)\s*\.\s*next\s*\(\s*\)\s*\{", src)
            if not m or not re.search(r"\blet\s+mut\s+%s\s*=[^;]*\barguments\b" % m.group(2), src): return src
            k += 1
            src = src[:m.start()] + "loop { let %s = match %s.next() { None => break, Some(vp_x) => vp_x };" % (m.group(1), m.group(2)) + src[m.end():]
            src = re.sub(r"\b%s\b" % m.group(2), "vp_it%d" % k, src)
            continue
        i, j, e = hit
        k += 1
        src = src[:toks[i].s] + "let mut vp_it%d = %s; loop { let %s = match vp_it%d.next() { None => break, Some(vp_x) => vp_x };" % (k, e, toks[i + 1].t, k) + src[toks[j].e:]

def render(src):
    toks = lex(src)
    edits = []
    for it in [x for x in items(src, toks)]:
        a, b = toks[it.extra["kw"]].s, toks[it.body[1]].e
        text = src[a:b]
        try: new = arg_loops(bytes_iter(writes(text)))
        except (LexError, ValueError, TypeError): new = text      # the verifier will not accept it
        new = re.sub(r"\b(?:(?:core|std)::)?fmt::(Display|Formatter|Result|Error)\b", lambda m: "crate::vfmt::" + {"Result": "FmtResult", "Error": "FmtError"}.get(m.group(1), m.group(1)), new)
        new = re.sub(r"(crate::vfmt::Formatter)\s*<\s*'\w+\s*>", r"\1", new)
        edits.append((a, b, new))
    return apply(src, edits)

def items(src, toks):
    import extract
    for it in extract.parse_items(src, toks, 0, len(toks)):
        if it.kind == "impl" and it.extra.get("trait") and rlex.strip_generics_text(it.extra["trait"]).split("::")[-1] == "Display": yield it
