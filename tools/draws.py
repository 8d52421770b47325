"""src/server/auth.rs with the system's random source as a ghost argument (contracts/vrand.rs)."""
import re
from rlex import lex, LexError
from skolem import apply, fns_of

def draws(src):
    toks = lex(src)
    fns = fns_of(src, toks)
    uses = {}
    for f in fns:
        if not f.body: continue
        uses.setdefault(f.name, set()).update(toks[i].t for i in range(f.body[0], f.body[1]) if toks[i].k == "id" and toks[i + 1].t == "(" and toks[i - 1].t != ".")
    s = {"getrandom"}
    while True:
        n = s | {f for f, u in uses.items() if u & s}
        if n == s: break
        s = n
    edits = []
    for f in fns:
        if f.name not in s or f.name == "getrandom" or not f.body: continue
        po, pc = f.extra["params"]
        empty = pc == po + 1
        edits.append((toks[pc].s, toks[pc].s, ("" if empty or toks[pc - 1].t == "," else ", ") + "vp_g: &mut Ghost<crate::vrand::Draws>"))
        i = f.body[0]
        for i in range(f.body[0], f.body[1]):
            t = toks[i]
            if t.k != "id" or toks[i + 1].t != "(": continue
            e = toks[i + 1].m
            if t.t in s and toks[i - 1].t != ".":
                extra = ("" if e == i + 2 or toks[e - 1].t == "," else ", ") + "&mut *vp_g"
                edits.append((toks[e].s, toks[e].s, extra))
                # the program may give up when there is no randomness: no secret comes out of that
                if toks[e + 1].t == "." and toks[e + 2].t in ("unwrap", "expect", "unwrap_or_else") and toks[e + 3].t == "(":
                    c = toks[e + 3].m
                    if toks[e + 2].t != "unwrap_or_else" or any(toks[j].t == "panic" for j in range(e + 3, c)):
                        edits.append((toks[e + 1].s, toks[c].e, ".vp_or_give_up()"))
        for i in range(f.body[0], f.body[1]):
            if toks[i].k == "id" and toks[i].t == "panic" and toks[i + 1].t == "!" and not any(a <= toks[i].s < b for a, b, _ in edits):
                edits.append((toks[i].s, toks[toks[i + 2].m].e, "crate::vrand::give_up()"))
    src = apply(src, edits)
    src = re.sub(r"\bgetrandom::getrandom\b", "crate::vrand::getrandom", src)
    src = re.sub(r"\bbase64::(encode_config|encode)\b", r"crate::vrand::\1", src)
    return re.sub(r"\bbase64::([A-Z_]+)\b", r"crate::vrand::Config::\1", src)
