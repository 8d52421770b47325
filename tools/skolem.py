"""src/server is generic over an Application and a Dispatch, whose traits refer to each other's types in a
cycle that the verifier rejects.  This pass replaces the two type parameters by one arbitrary, opaque type
each (`App`, `Disp`; their associated types by `AppX`, `DispX`), of which nothing is known but the contracts
on their methods: what is proved for them holds for every choice of the parameters.  It also adds the ghost
event log: a ghost field of Connection and a ghost argument of the methods of App and Disp that have effects.
No other text is changed."""
import re
import rlex
from rlex import lex, LexError

BROADCAST = "enqueue_broadcast"
DECL = ("fn", "struct", "enum", "trait", "type")

def apply(src, edits):
    edits = sorted(edits)
    out, pos = [], 0
    for a, b, x in edits:
        if a < pos: raise LexError("overlapping edits")
        out.append(src[pos:a]); out.append(x); pos = b
    out.append(src[pos:])
    return "".join(out)

def split_args(toks, o, e):
    """toks[o] is '<', toks[e-1] ends with '>': [(first, last+1)] of the arguments; None if this is no argument list"""
    out, i, st = [], o + 1, o + 1
    while i < e - 1:
        t = toks[i]
        if t.k == "p" and t.t in (";", "{", "}", "&&", "||", "=="): return None
        if t.k == "p" and t.t == ",": out.append((st, i)); st = i + 1
        elif t.k == "p" and t.t == "<": i = rlex.skip_generics(toks, i); continue
        elif t.k == "p" and t.t in ("(", "["): i = t.m
        i += 1
    if st < e - 1: out.append((st, e - 1))
    return out

def split_closers(src):
    """Vec<Vec<T>> -> Vec<Vec<T> >"""
    toks = lex(src)
    edits = set()
    for i, t in enumerate(toks):
        if not (t.k == "p" and t.t == "<" and i and (toks[i - 1].k == "id" or toks[i - 1].t == "::")): continue
        try: e = rlex.skip_generics(toks, i)
        except (IndexError, TypeError): continue
        if toks[e - 1].t == ">>" and split_args(toks, i, e) is not None: edits.add((toks[e - 1].s, toks[e - 1].e, "> >"))
    return apply(src, edits)

def generics(src):
    src = split_closers(src)
    toks = lex(src)
    A, D = set(), set()
    decl = {}
    for i, t in enumerate(toks):
        if t.k != "id": continue
        if t.t in DECL and i + 2 < len(toks) and toks[i + 1].k == "id" and toks[i + 2].t == "<": o = i + 2
        elif t.t == "impl" and toks[i + 1].t == "<": o = i + 1
        else: continue
        e = rlex.skip_generics(toks, o)
        decl[o] = e
        for a, b in split_args(toks, o, e):
            names = {x.t for x in toks[a + 1:b] if x.k == "id"}
            if toks[a].k != "id": continue
            if "Application" in names and b > a + 1 and "Dispatch" not in names: A.add(toks[a].t)
            elif "Dispatch" in names: D.add(toks[a].t)
    edits = []
    gone = set()
    def drop(o, e, args, rm, pre):
        keep = [x for x in args if x not in rm]
        for a, b in rm: gone.update(range(a, b))
        if not keep:
            edits.append((toks[pre].s, toks[e - 1].e, "")); gone.update(range(pre, e)); return
        for k, (a, b) in enumerate(args):
            if (a, b) not in rm: continue
            if any(x in keep for x in args[k + 1:]): edits.append((toks[a].s, toks[args[k + 1][0]].s, ""))
            else: edits.append((toks[a - 1].s, toks[b - 1].e, ""))   # with the comma before it
    for i, t in enumerate(toks):
        if not (t.k == "p" and t.t == "<") or i in gone: continue
        if i in decl:
            e = decl[i]
            args = split_args(toks, i, e)
            rm = [(a, b) for a, b in args if toks[a].t in A | D]
            if rm: drop(i, e, args, rm, i)
            continue
        if i == 0 or not (toks[i - 1].k == "id" or toks[i - 1].t == "::"): continue
        try: e = rlex.skip_generics(toks, i)
        except (IndexError, TypeError): continue
        if toks[e - 1].t != ">": continue
        args = split_args(toks, i, e)
        if not args: continue
        h = toks[i - 1].t if toks[i - 1].k == "id" else toks[i - 2].t
        owner = h in ("Connection", "ConnectionState", "Handler", "MessageHandler", "HandshakeHandler", "MessageHandlerExt", "Dispatch")
        rm = [(a, b) for a, b in args if b == a + 1 and (toks[a].t in A | D or (toks[a].t == "Self" and owner))]
        if rm: drop(i, e, args, rm, i - 1 if toks[i - 1].t == "::" and len(rm) == len(args) else i)
    for i, t in enumerate(toks):
        if t.k == "id" and t.t in A | D and i not in gone:
            if i and toks[i - 1].t in (".", "::"): continue
            n = "App" if t.t in A else "Disp"
            if toks[i + 1].t == "::" and toks[i + 2].k == "id": edits.append((t.s, toks[i + 2].e, "crate::server::" + n + toks[i + 2].t))
            else: edits.append((t.s, t.e, "crate::server::" + n))
    return apply(src, edits)

def traits(src):
    """trait Application / Dispatch -> impl App / Disp"""
    toks = lex(src)
    edits = []
    for i, t in enumerate(toks):
        if t.t == "trait" and toks[i + 1].t in ("Application", "Dispatch"):
            n = "App" if toks[i + 1].t == "Application" else "Disp"
            s = i
            if toks[i - 1].t == "pub": s = i - 1
            j = i
            while toks[j].t != "{": j += 1
            edits.append((toks[s].s, toks[j].s, "impl %s " % n))
            for it in rlex.parse_items(src, toks, j + 1, toks[j].m):
                if it.kind == "type":
                    edits.append((toks[it.a].s, toks[it.b - 1].e, "")); continue
                if it.kind != "fn": raise LexError("item in trait")
                po, pc = it.extra["params"]
                logged = n == "App" or it.name == BROADCAST
                if it.name == BROADCAST:
                    txt = src[toks[po].e:toks[pc].s]
                    m = re.search(r"Box\s*<\s*dyn\s+Fn\s*(\((?:[^()]|\([^()]*\))*\))[^,]*>", txt)
                    if not m: raise LexError("form of " + BROADCAST)
                    edits.append((toks[po].s, toks[po].s, "<VpF: Fn%s>" % m.group(1)))
                    edits.append((toks[po].e + m.start(), toks[po].e + m.end(), "VpF"))
                if logged:
                    sep = "" if toks[pc - 1].t == "," else ", "
                    edits.append((toks[pc].s, toks[pc].s, sep + "vp_log: &mut Ghost<Seq<crate::server::Ev>>"))
                for k in range(po, it.b):
                    if toks[k].t == "Self" and toks[k + 1].t == "::": edits.append((toks[k].s, toks[k + 2].e, "crate::server::" + n + toks[k + 2].t))
                if not it.body: edits.append((toks[it.b - 1].s, toks[it.b - 1].e, " { unimplemented!() }"))
    return apply(src, edits)

def effects(src, names):
    toks = lex(src)
    edits = []
    fns = []     # (body open, body close, log expression)
    impls = []
    for i, t in enumerate(toks):
        if t.k == "id" and t.t == "impl":
            j = i
            while not (toks[j].k == "p" and toks[j].t in ("{", ";")):
                if toks[j].k == "p" and toks[j].t in ("(", "["): j = toks[j].m
                j += 1
            head = [x.t for x in toks[i:j]]
            if toks[j].t == "{": impls.append((j, toks[j].m, "Connection" in head and "for" not in head))
        if t.k == "id" and t.t == "fn" and toks[i + 1].k == "id":
            f = rlex.parse_fn(src, toks, i, i)
            if not f.body: continue
            po, pc = f.extra["params"]
            log = None
            k = po + 1
            while k < pc:
                if toks[k].k == "id" and toks[k + 1].t == ":":
                    e = k + 2
                    while e < pc and toks[e].t != ",":
                        if toks[e].k == "p" and toks[e].t in ("(", "["): e = toks[e].m
                        elif toks[e].k == "p" and toks[e].t == "<": e = rlex.skip_generics(toks, e); continue
                        e += 1
                    if any(x.t == "Connection" for x in toks[k + 2:e]): log = "&mut %s.log" % toks[k].t
                    k = e
                k += 1
            if log is None and any(toks[x].t == "self" for x in range(po, pc)) and any(a < i < b and c for a, b, c in impls): log = "&mut self.log"
            fns.append((f.body[0], f.body[1], log))
        # struct Connection { ..  and its literals
        if t.t == "struct" and toks[i + 1].t == "Connection":
            j = i
            while toks[j].t != "{": j += 1
            edits.append((toks[j].e, toks[j].e, " log: Ghost<Seq<crate::server::Ev>>, "))
        if t.k == "id" and t.t in ("Self", "Connection") and toks[i + 1].t == "{" and toks[i - 1].t not in ("->", "for", "impl", "struct", "enum", "trait", ".") and any(a < i < b and c for a, b, c in impls):
            edits.append((toks[i + 1].e, toks[i + 1].e, " log: Ghost(Seq::empty()), "))
    for i, t in enumerate(toks):
        if not (t.k == "id" and i and toks[i - 1].t == "." and toks[i + 1].t == "(" and (t.t in names or t.t == BROADCAST)): continue
        log = None
        for a, b, l in fns:
            if a < i < b: log = l      # the innermost one comes last
        if log is None: continue
        o, c = i + 1, toks[i + 1].m
        if t.t == BROADCAST and toks[o + 1].t == "Box" and toks[o + 2].t == "::" and toks[o + 3].t == "new" and toks[o + 4].t == "(":
            p, q = o + 4, toks[o + 4].m
            edits.append((toks[o + 1].s, toks[p].e, ""))
            edits.append((toks[q].s, toks[q].e, ""))
            k = p + 1
            if toks[k].t == "move": k += 1
            if toks[k].t == "|" and toks[k + 1].k == "id" and toks[k + 2].t == "|":
                edits.append((toks[k + 1].e, toks[k + 1].e, ": &mut crate::server::Connection"))
        sep = "" if toks[c - 1].t in ("(", ",") else ", "
        edits.append((toks[c].s, toks[c].s, sep + log))
    return apply(src, edits)

def app_methods(text):
    m = re.search(r"trait\s+Application\b.*", text, re.S)
    return set(re.findall(r"\bfn\s+(\w+)", re.sub(r"//[^\n]*", "", m.group(0)))) if m else set()

def skolem(src, names):
    return effects(traits(generics(src)), names)

# ------------------------------------------------------------------ server::tokio::dispatch
POOL = "&mut crate::vtokio::HashMap<crate::server::DispConnectionID, TxConnector>"

def closure_spec(src, toks, a, b, var):
    """the condition of a closure over a send buffer, as a specification; None if it is of no known form"""
    s = src[toks[a].s:toks[b - 1].e]
    s = re.sub(r"\b%s\s*\.\s*filled_len\s*\(\s*\)" % var, "%s.filled_len_spec()" % var, s)
    s = re.sub(r"\b%s\s*\.\s*filled\s*\(\s*\)\s*\.\s*len\s*\(\s*\)" % var, "%s.filled_len_spec()" % var, s)
    s = re.sub(r"\b%s\s*\.\s*filled\s*\(\s*\)\s*\.\s*is_empty\s*\(\s*\)" % var, "(%s.filled_len_spec() == 0)" % var, s)
    return s if re.fullmatch(r"(%s\.filled_len_spec\(\)|[0-9]+|[\s()!<>=&|])*" % var, s) else None

PARAMS = (("vp_pool", "&mut ConnectionPool"), ("vp_tx", POOL), ("vp_bc", "&mut BcQueue"), ("vp_h", "&mut Ghost<Hist>"))

# the functions of the listener have these two in addition: where the handle is kept that ends the listener, and what the listener has done
PARAMS_L = PARAMS + (("vp_slot", "&mut Option<AbortHandle>"), ("vp_l", "&mut Ghost<crate::vlisten::Listen>"))

POISON = "vp_outside_of_what_can_be_transformed()"
def tokio(src, listen=False):
    """tokio1; a function whose form it does not know is left out (and with it its contract is lost)"""
    if listen:
        try: src = listener(src)
        except (LexError, IndexError, TypeError): src = without_listener(src)
    try: return tokio1(src)
    except LexError: pass
    def blank(names):
        toks = lex(src)
        return apply(src, [(toks[f.body[0]].s, toks[f.body[1]].e, "{ %s }" % POISON) for f in fns_of(src, toks) if (f.name, f.body[0]) in names])
    names = {(f.name, f.body[0]) for f in fns_of(src, lex(src)) if not f.asynchronous}
    r = tokio1(blank(names))
    for n in sorted(names):
        try: r = tokio1(blank(names - {n}))
        except LexError: continue
        names.remove(n)
    return r

def tokio1(src):
    """The locks become parameters (exclusive access to the pool of connections, to the map of queues and to the
    queue of broadcasts) and a ghost record of what was done; a guard is a token, and where it is dropped, the
    function `release` is called.  Boxed broadcasts become an opaque type.  Loops over the
    values of a map become loops over its keys.  Chains of iterator adapters over send buffers and connections
    become calls of functions that do the same (contracts/vtokio.rs); closures get specifications."""
    src = re.sub(r"\bself\s*:\s*&\s*('\w+\s+)?Arc\s*<\s*Self\s*>", r"&\1self", src)
    src = re.sub(r"\bArc\s*<\s*(?:tokio::sync::)?Notify\s*>", "crate::vtokio::Notify", src)
    src = re.sub(r"\bArc\s*::\s*new\s*\(\s*(?:tokio::sync::)?Notify\s*::\s*new\s*\(\s*\)\s*\)", "crate::vtokio::Notify::new()", src)
    src = re.sub(r"(fn\s+dispatch\s*\([^()]*\)\s*->\s*)Dispatch\s*<\s*A\s*>", r"\1crate::server::Disp", src)
    src = re.sub(r"\bDispatch\s*<\s*A\s*>", "Dispatch", src)
    src = re.sub(r"\bArc\s*<\s*InnerDispatch\s*<\s*A\s*>\s*>", "InnerDispatch", src)
    src = re.sub(r"\bConnection\s*<\s*A\s*,\s*(?:Dispatch|Self)\s*>", "Connection", src)
    src = re.sub(r"\bBox\s*<\s*dyn\s+Fn\s*\(\s*&\s*mut\s+(?:server::)?Connection\s*\)\s*(?:\+\s*\w+\s*)*>", "Broadcast", src)
    src = re.sub(r"&\s*mut\s+(?:std::sync::)?RwLockWriteGuard\s*<\s*'_\s*,\s*ConnectionPool\s*<\s*A\s*>\s*>", "&mut ConnectionPool", src)
    src = re.sub(r"\b(?:std::sync::)?RwLockWriteGuard\s*<\s*('\w+)\s*,\s*ConnectionPool\s*<\s*A\s*>\s*>", r"Guard", src)
    src = re.sub(r"\bimpl\s*<\s*A\s*:\s*server::Application\s*>\s*server::Dispatch\s+for\b", "impl", src)
    src = re.sub(r"\bimpl\s*<\s*A\s*:\s*server::Application\s*>\s*server::Dispatch\s*<\s*A\s*>\s*for\b", "impl", src)
    src = re.sub(r"\btype\s+ConnectionID\s*=\s*u64\s*;", "", src)
    src = generics(src)
    src = locks(values_loops(src))
    return chains(src)

def text(toks, i, n): return [x.t for x in toks[i:i + n]]

def path_start(toks, i):
    """toks[i] is the '.' behind a path a.b.c: where does it start"""
    a = i
    while toks[a].t == "." and toks[a - 1].k in ("id", "num"): a -= 2 if toks[a - 2].t == "." else 1
    return a

def fns_of(src, toks):
    r = []
    for i, t in enumerate(toks):
        if t.k == "id" and t.t == "fn" and toks[i + 1].k == "id":
            f = rlex.parse_fn(src, toks, i, i)
            f.asynchronous = any(x.t == "async" for x in toks[max(i - 3, 0):i])
            if f.body: r.append(f)
    return r

def values_loops(src):
    """for x in m.values_mut() { .. } -> a loop over the keys of m"""
    toks = lex(src)
    edits = []
    count = {}
    asynch = [(f.body[0], f.body[1]) for f in fns_of(src, toks) if f.asynchronous]
    for i, t in enumerate(toks):
        if t.t != "for" or toks[i + 1].t == "<" or any(a < i < b for a, b in asynch): continue
        j = i + 1
        while toks[j].t != "in":
            if toks[j].t in ("{", ";"): break
            if toks[j].k == "p" and toks[j].t in ("(", "["): j = toks[j].m
            j += 1
        if toks[j].t != "in": continue
        b = j + 1
        while toks[b].t != "{":
            if toks[b].k == "p" and toks[b].t in ("(", "["): b = toks[b].m
            b += 1
        m = None
        get = "get_mut"
        if text(toks, b - 5, 5) in (["conns", ".", "values", "(", ")"], ["conns", ".", "iter", "(", ")"]):
            get = "get"
            kind, e = toks[b - 3].t, src[toks[j + 1].s:toks[b - 4].s]
            pt = [x.t for x in toks[i + 1:j] if x.t not in ("ref", "&")]
            if kind == "values" and len(pt) == 1: m = (None, pt[0])
            elif kind == "iter" and len(pt) == 5 and pt[0] == "(" and pt[2] == ",": m = (None if pt[1] == "_" else pt[1], pt[3])
        elif text(toks, b - 2, 2) == [".", "conns"] and toks[j + 1].t == "&" and toks[j + 2].t != "mut":
            get = "get"
            e = src[toks[j + 2].s:toks[b - 1].e]
            pt = [x.t for x in toks[i + 1:j]]
            if len(pt) == 5 and pt[0] == "(" and pt[2] == ",": m = (None if pt[1] == "_" else pt[1], pt[3])
        elif text(toks, b - 3, 3) in (["values_mut", "(", ")"], ["iter_mut", "(", ")"]) and toks[b - 4].t == ".":
            kind, e = toks[b - 3].t, src[toks[j + 1].s:toks[b - 4].s]
            pat = [x for x in toks[i + 1:j] if x.t not in ("ref", "mut")]
            pt = [x.t for x in pat]
            if kind == "values_mut" and len(pt) == 1: m = (None, pt[0])
            elif kind == "iter_mut" and len(pt) == 5 and pt[0] == "(" and pt[2] == ",": m = (None if pt[1] == "_" else pt[1], pt[3])
        if m is None: continue
        here = next((f.body[0] for f in fns_of(src, toks) if f.body[0] < i < f.body[1]), 0)
        n = count[here] = count.get(here, 0) + 1
        k = m[0]
        edits.append((t.s, toks[b].e, "let vp_keys%d = crate::vtokio::keys(&%s); for vp_i%d in 0..vp_keys%d.len() { %sif let Some(%s) = %s.%s(&vp_keys%d[vp_i%d]) {" % (
            n, e, n, n, "let %s = &vp_keys%d[vp_i%d]; " % (k, n, n) if k else "", m[1], e, get, n, n)))
        edits.append((toks[toks[b].m].s, toks[toks[b].m].s, "}"))
    return apply(src, edits)

def locks(src):
    toks = lex(src)
    edits, fns = [], fns_of(src, toks)
    for it in rlex.parse_items(src, toks, 0, len(toks)):      # stand-ins in contracts/tokio.vc
        if it.kind == "struct" and it.name in ("InnerDispatch", "Dispatch"): edits.append((toks[it.a].s, toks[it.b - 1].e, ""))
    need = {}
    allp = {"vp_pool", "vp_tx", "vp_bc", "vp_h"}
    names = {}
    for f in fns: names.setdefault(f.name, []).append(f)
    skip = set()
    for f in fns:
        if f.asynchronous or f.name == "new" or f.name == "shutdown" and not any(toks[i].t == "vp_slot" for i in range(*f.body)): skip.add(id(f))
    for f in fns:
        nd = need.setdefault(id(f), set())
        if id(f) in skip: continue
        o, c = f.body
        nd |= {t.t for t in toks[o:c]} & {n for n, _ in PARAMS_L}
        if POISON[:-2] in text(toks, o, 3) and f.name in ("run_listener", "shutdown"): nd |= {"vp_h", "vp_slot"} if f.name == "shutdown" else {n for n, _ in PARAMS_L}
        elif POISON[:-2] in text(toks, o, 3): nd |= allp - ({"vp_pool"} if "ConnectionPool" in text(toks, f.extra["params"][0], f.extra["params"][1] - f.extra["params"][0]) else set())
        guards = {}      # local guards: name -> last token of the scope
        queues = {}      # local guards of the queue of broadcasts
        def scope_end(i, v):
            """a guard is held until the end of its scope: nothing that takes the lock may be called before"""
            d = i
            while d > o:
                d -= 1
                if toks[d].k == "p" and toks[d].t == "}" and toks[d].m is not None: d = toks[d].m
                elif toks[d].t == "{": break
            end = toks[d].m
            for x in range(i, end):
                if toks[x].t == "drop" and text(toks, x + 1, 3) == ["(", v, ")"]:
                    a = x
                    while toks[a - 1].t == "::": a -= 2
                    edits.append((toks[a].s, toks[x].e, "crate::vtokio::held")); return x
            k = end - 1
            if toks[k].t in (";", "{"): edits.append((toks[end].s, toks[end].s, " crate::vtokio::held(%s); " % v)); return end
            if toks[k].t == "}":
                k = toks[k].m
                while toks[k - 1].t == "else" and toks[k - 2].t == "}": k = toks[k - 2].m
            while toks[k - 1].t not in (";", "{", "}") and k > d + 1:
                k -= 1
                if toks[k].k == "p" and toks[k].t in (")", "]") and toks[k].m is not None: k = toks[k].m
                if toks[k].t == "else" and toks[k - 1].t == "}": k = toks[k - 1].m
            if toks[k].t in ("for", "while", "loop"): edits.append((toks[end].s, toks[end].s, " crate::vtokio::held(%s); " % v)); return end
            edits.append((toks[k].s, toks[k].s, "let vp_r = ")); edits.append((toks[end].s, toks[end].s, "; crate::vtokio::held(%s); vp_r " % v))
            return end
        po, pc = f.extra["params"]
        i = o
        while i < c:
            t = toks[i]
            if t.t == "." and text(toks, i + 1, 3) in (["pool", ".", "write"], ["pool", ".", "try_write"]) and text(toks, i + 4, 2) == ["(", ")"]:
                a = path_start(toks, i)
                if toks[a].t != "self": raise LexError("form of the lock")
                if toks[i + 3].t == "write":
                    if text(toks, i + 6, 4) != [".", "unwrap", "(", ")"]: raise LexError("form of the lock")
                    e = i + 10
                    edits.append((toks[a].s, toks[e - 1].e, "lock(&mut *vp_h)"))
                    b = a
                    while toks[b - 1].t in ("mut", "=") or toks[b - 1].k == "id" and toks[b - 1].t not in ("let", "Some", "return"): b -= 1
                    if toks[b - 1].t == "let" and toks[e].t == ";":
                        v = toks[b].t if toks[b].t != "mut" else toks[b + 1].t
                        # the block it is declared in
                        d = i
                        while d > o:
                            d -= 1
                            if toks[d].k == "p" and toks[d].t == "}" and toks[d].m is not None: d = toks[d].m
                            elif toks[d].t == "{": break
                        end = toks[d].m
                        guards[v] = end
                        dropped = any(toks[x].t == "drop" and text(toks, x + 1, 3) == ["(", v, ")"] for x in range(i, end))
                        if not dropped:
                            rel = "release(%s, &*vp_pool, &*vp_tx, &*vp_bc, &mut *vp_h);" % v
                            nd |= allp
                            if toks[end - 1].t in (";", "}"): edits.append((toks[end].s, toks[end].s, " %s " % rel))
                            else:
                                # the value of the block is computed before
                                k = end - 1
                                while True:
                                    if toks[k].k == "p" and toks[k].t in (")", "]", "}") and toks[k].m is not None: k = toks[k].m
                                    if toks[k - 1].t in (";", "{") or toks[k - 1].t == "}" and toks[k - 1].k == "p" and toks[k].t != "." and toks[k].t != "else": break
                                    k -= 1
                                if k <= d or any(toks[x].t in ("return", "?") for x in range(k, end)): raise LexError("where the lock is released")
                                edits.append((toks[k].s, toks[k].s, "let vp_r = ")); edits.append((toks[end].s, toks[end].s, "; %s vp_r " % rel))
                    elif toks[e].t == ".": raise LexError("a lock for one expression")
                    nd |= {"vp_h"}
                    i = e; continue
                edits.append((toks[a].s, toks[i + 5].e, "try_lock(&mut *vp_h)")); nd |= {"vp_h"}
                i += 6; continue
            # Ok(mut g) => .. / if let Ok(mut g) = ..try_write() { .. } / if let Some(mut g) = ...guard.take() { .. }
            if t.t in ("Ok", "Some") and toks[i + 1].t == "(":
                q = toks[i + 1].m
                v = [x.t for x in toks[i + 2:q] if x.t != "mut"]
                if len(v) == 1 and v[0] != "_":
                    # an `if let`
                    if toks[i - 1].t == "let" and toks[q + 1].t == "=":
                        b = q + 2
                        while toks[b].t != "{":
                            if toks[b].k == "p" and toks[b].t in ("(", "["): b = toks[b].m
                            b += 1
                        ex = [x.t for x in toks[q + 2:b]]
                        if "try_write" in ex or ("guard" in ex and "take" in ex):
                            if toks[toks[b].m - 1].t not in (";", "}", "{"): edits.append((toks[toks[b].m].s, toks[toks[b].m].s, ";"))
                            guards[v[0]] = toks[b].m
                            if not any(toks[x].t == "drop" and text(toks, x + 1, 3) == ["(", v[0], ")"] for x in range(b, toks[b].m)):
                                edits.append((toks[toks[b].m].s, toks[toks[b].m].s, " release(%s, &*vp_pool, &*vp_tx, &*vp_bc, &mut *vp_h); " % v[0]))
                            nd |= allp
                    elif toks[q + 1].t == "=>":
                        d = i
                        while d > o:
                            d -= 1
                            if toks[d].k == "p" and toks[d].t in ("}", ")") and toks[d].m is not None: d = toks[d].m
                            elif toks[d].t == "{": break
                        b = d
                        while toks[b].t != "match" and b > o: b -= 1
                        if "try_write" in [x.t for x in toks[b:d]]:
                            s0 = q + 2
                            rel = " release(%s, &*vp_pool, &*vp_tx, &*vp_bc, &mut *vp_h); " % v[0]
                            if toks[s0].t == "{":
                                e = toks[s0].m
                                if toks[e - 1].t not in (";", "}", "{"): edits.append((toks[e].s, toks[e].s, ";"))
                                if not any(toks[x].t == "drop" and text(toks, x + 1, 3) == ["(", v[0], ")"] for x in range(s0, e)): edits.append((toks[e].s, toks[e].s, rel))
                            else:
                                e = s0
                                while toks[e].t != "," and e < toks[d].m:
                                    if toks[e].k == "p" and toks[e].t in ("(", "[", "{"): e = toks[e].m
                                    e += 1
                                edits.append((toks[s0].s, toks[s0].s, "{ "))
                                edits.append((toks[e - 1].e, toks[e - 1].e, ";" + rel + "}"))
                            guards[v[0]] = e
                            nd |= allp
            # explicit drops
            if t.t == "drop" and toks[i + 1].t == "(" and toks[i + 2].t in guards and toks[i + 3].t == ")":
                a = i
                while toks[a - 1].t == "::": a -= 2
                edits.append((toks[a].s, toks[i + 3].e, "release(%s, &*vp_pool, &*vp_tx, &*vp_bc, &mut *vp_h)" % toks[i + 2].t)); nd |= allp
                i += 4; continue
            if t.t == "&" and toks[i + 1].t == "mut" and toks[i + 2].t in guards and toks[i + 3].t in (",", ")"):
                edits.append((toks[i + 2].s, toks[i + 2].e, "*vp_pool")); nd.add("vp_pool")
                i += 3; continue
            # what is reached through a guard
            at = None
            if t.k == "id" and t.t in guards and toks[i - 1].t != "." and toks[i + 1].t == ".": at = (i, i)
            if t.t == "self" and text(toks, i + 1, 2) == [".", "guard"]:
                if text(toks, i + 3, 6) == [".", "as_mut", "(", ")", "?", "."]: at = (i, i + 7)
                elif text(toks, i + 3, 8) == [".", "as_mut", "(", ")", ".", "unwrap", "(", ")"]: at = (i, i + 10)
                elif toks[i + 3].t == "." and toks[i + 4].t not in ("take", "as_mut", "as_ref", "is_some", "is_none"): at = (i, i + 2)
            if at and toks[at[1] + 1].t == "." and text(toks, at[1] + 2, 3) == ["conns", ".", "insert"]:
                q = at[1] + 5
                edits.append((toks[at[0]].s, toks[q].e, "pool_insert(&mut *vp_pool, "))
                edits.append((toks[toks[q].m].s, toks[toks[q].m].s, ("" if toks[toks[q].m - 1].t == "," else ", ") + "&*vp_bc, &mut *vp_h"))
                nd |= {"vp_pool", "vp_bc", "vp_h"}
                i = q + 1; continue
            if at:
                edits.append((toks[at[0]].s, toks[at[1]].e, "vp_pool")); nd.add("vp_pool")
                i = at[1] + 1; continue
            if t.t == "&" and text(toks, i + 1, 4) == ["mut", "self", ".", "guard"] and toks[i + 5].t in (",", ")"):
                edits.append((toks[i + 2].s, toks[i + 4].e, "*vp_pool")); nd.add("vp_pool")
                i += 5; continue
            # the other locks
            if t.t == "." and text(toks, i + 1, 8) == ["tx", ".", "write", "(", ")", ".", "unwrap", "("]:
                a = path_start(toks, i)
                if toks[a].t != "self": raise LexError("form of the lock")
                edits.append((toks[a].s, toks[i + 9].e, "vp_tx" if toks[i + 10].t == "." else "&mut *vp_tx")); nd.add("vp_tx")
                if toks[a - 1].t == "=" and toks[a - 2].k == "id" and toks[i + 10].t == ";": scope_end(i, toks[a - 2].t)
                i += 10; continue
            if t.t == "." and text(toks, i + 1, 8) == ["bc_queue", ".", "lock", "(", ")", ".", "unwrap", "("]:
                a = path_start(toks, i)
                if toks[a].t != "self": raise LexError("form of the lock")
                e = i + 10
                nd.add("vp_bc")
                b = a - 1 if toks[a - 1].t == "=" else a
                v = toks[b - 1].t if b < a and toks[b - 1].k == "id" and (toks[b - 2].t == "let" or text(toks, b - 3, 2) == ["let", "mut"]) else None
                if v and toks[e].t == ";":
                    edits.append((toks[a].s, toks[e - 1].e, "&mut *vp_bc")); queues[v] = scope_end(i, v)
                elif text(toks, e, 4) == [".", "deref_mut", "(", ")"]: edits.append((toks[a].s, toks[e + 3].e, "&mut vp_bc.q"))
                elif toks[a - 1].t == "*": edits.append((toks[a - 1].s, toks[e - 1].e, "vp_bc.q"))
                elif text(toks, e, 2) == [".", "push"]: edits.append((toks[a].s, toks[e - 1].e, "vp_bc")); edits.append((toks[toks[e + 2].m].s, toks[toks[e + 2].m].s, ", &mut *vp_h")); nd.add("vp_h")
                elif text(toks, e, 2) == [".", "is_empty"]: edits.append((toks[a].s, toks[e - 1].e, "vp_bc")); edits.append((toks[toks[e + 2].m].s, toks[toks[e + 2].m].s, "&mut *vp_h")); nd.add("vp_h")
                else: raise LexError("use of the queue of broadcasts")
                i = e; continue
            if t.t == "." and text(toks, i + 1, 4) == ["app", ".", "notify", "("]:
                a = path_start(toks, i)
                q = toks[i + 4].m
                edits.append((toks[a].s, toks[i + 4].e, "tell(&%s, " % src[toks[a].s:toks[i + 1].e]))
                edits.append((toks[q].s, toks[q].s, ", &mut *vp_bc, &mut *vp_h")); nd |= {"vp_bc", "vp_h"}
                i += 5; continue
            if t.t == "." and text(toks, i + 1, 3) == ["abort", "(", ")"]:
                edits.append((toks[i + 3].s, toks[i + 3].s, "&mut *vp_h")); nd.add("vp_h")
            # the call of a broadcast: a local variable that is called with a connection
            if t.k == "id" and toks[i + 1].t == "(" and text(toks, i + 2, 2) == ["&", "mut"] and toks[i - 1].t not in (".", "::") and t.t not in names and toks[toks[i + 1].m - 1].t == "conn":
                q = toks[i + 1].m
                edits.append((t.e, t.e, ".run"))
                edits.append((toks[q].s, toks[q].s, ", &mut *vp_tx, &mut *vp_bc, &mut *vp_h")); nd |= {"vp_tx", "vp_bc", "vp_h"}
            if t.k == "id" and t.t in queues and i < queues[t.t] and toks[i - 1].t != ".":
                if text(toks, i + 1, 3) in ([".", "push", "("], [".", "is_empty", "("]):
                    q = toks[i + 3].m
                    edits.append((toks[q].s, toks[q].s, ("" if q == i + 4 else ", ") + "&mut *vp_h")); nd.add("vp_h")
                elif text(toks, i - 3, 3) == ["&", "mut", "*"] or toks[i - 1].t == "*": edits.append((toks[i - 1].s, t.e, t.t + ".q"))
                elif text(toks, i - 2, 2) == ["&", "mut"] and toks[i + 1].t in (",", ")"): edits.append((t.s, t.e, t.t + ".q"))
                elif text(toks, i + 1, 4) == [".", "deref_mut", "(", ")"]: edits.append((t.s, toks[i + 4].e, "&mut %s.q" % t.t))
                elif toks[i - 1].t == "(" and toks[i - 2].t == "drop": pass
                else: raise LexError("use of the queue of broadcasts")
                i += 1; continue
            if t.t == "take" and toks[i - 1].t == "::" and toks[i - 2].t == "mem" and toks[i + 1].t == "(":
                edits.append((t.s, t.e, "replace")); edits.append((toks[toks[i + 1].m].s, toks[toks[i + 1].m].s, ", Vec::new()"))
            if t.t == "use":     # a trait for one of the calls above
                e = i
                while toks[e].t != ";": e += 1
                edits.append((t.s, toks[e].e, "")); i = e + 1; continue
            i += 1
    # what the called functions need
    def calls(f):
        o, c = f.body
        for i in range(o, c):
            if toks[i].k == "id" and toks[i + 1].t == "(" and toks[i - 1].t == "." and toks[i].t in names:
                for g in names[toks[i].t]:
                    if need[id(g)]: yield i, g
    change = True
    while change:
        change = False
        for f in fns:
            if id(f) in skip: continue
            for i, g in calls(f):
                if not need[id(g)] <= need[id(f)]: need[id(f)] |= need[id(g)]; change = True
    for f in fns:
        if not need[id(f)]: continue
        po, pc = f.extra["params"]
        ps = ", ".join("%s: %s" % (n, ty) for n, ty in PARAMS_L if n in need[id(f)])
        ret = [k for k in range(pc, f.body[0]) if toks[k].t == "&" and toks[k + 1].t == "mut"]
        if "vp_pool" in need[id(f)] and ret and toks[po - 1].k == "id":     # a part of the pool is returned
            edits.append((toks[po].s, toks[po].s, "<'vp>"))
            for k in ret: edits.append((toks[k].e, toks[k].e, "'vp "))
            ps = ps.replace("vp_pool: &mut", "vp_pool: &'vp mut")
        edits.append((toks[pc].s, toks[pc].s, ("" if toks[pc - 1].t in ("(", ",") else ", ") + ps))
        if id(f) in skip: continue
        done = set()
        for i, g in calls(f):
            if i in done: continue
            done.add(i)
            q = toks[i + 1].m
            edits.append((toks[q].s, toks[q].s, ("" if toks[q - 1].t in ("(", ",") else ", ") + ", ".join("&mut *" + n for n, _ in PARAMS_L if n in need[id(g)])))
    return apply(src, merge(edits))

def merge(edits):
    """insertions at the same place, in the order in which they were made"""
    out = {}
    r = []
    for a, b, x in edits:
        if a == b: out.setdefault(a, []).append(x)
        else: r.append((a, b, x))
    return r + [(a, a, "".join(xs)) for a, xs in out.items()]

def chains(src):
    toks = lex(src)
    edits = []
    for i, t in enumerate(toks):
        # the identities of all connections
        if t.t == "." and toks[i + 1].t in ("iter", "iter_mut", "values", "values_mut", "keys") and text(toks, i + 2, 3) == ["(", ")", "."]:
            a = path_start(toks, i)
            p = src[toks[a].s:toks[i].s]
            if toks[i + 1].t == "keys" and text(toks, i + 5, 3) in (["cloned", "(", ")"], ["copied", "(", ")"]): e = i + 8; f = "crate::vtokio::keys"
            elif toks[i + 5].t == "map" and re.fullmatch(r"\|\s*(\(\s*_\s*,\s*(\w+)\s*\)|(\w+))\s*\|\s*(\w+)\s*\.\s*conn\s*\.\s*id\s*\(\s*\)", src[toks[i + 6].e:toks[toks[i + 6].m].s].strip()): e = toks[i + 6].m + 1; f = "conn_ids"
            else: e = None
            if e is not None and text(toks, e, 2) == [".", "collect"]:
                k = e + 2
                while toks[k].t != "(": k += 1
                edits.append((toks[a].s, toks[toks[k].m].e, "%s(&%s)" % (f, p)))
                continue
        # chains over the send buffers
        if t.t == "." and toks[i + 1].t in ("iter", "iter_mut") and toks[i + 2].t == "(" and toks[i + 3].t == ")" and toks[i + 4].t == ".":
            m, ad, o = toks[i + 1].t, toks[i + 5].t, i + 6
            if toks[o].t != "(" or toks[o + 1].t != "|" or (m, ad) not in (("iter_mut", "filter"), ("iter_mut", "find"), ("iter", "all"), ("iter", "any")): continue
            a = i
            while toks[a].t == "." and toks[a - 1].k in ("id", "num"): a -= 2 if toks[a - 2].t == "." else 1
            if toks[a].k != "id": raise LexError("form of a chain of adapters")
            k = o + 2
            while toks[k].t == "&": k += 1
            var = toks[k].t
            if toks[k].k != "id" or toks[k + 1].t != "|": raise LexError("form of a closure")
            b0, b1 = k + 2, toks[o].m
            if toks[b1 - 1].t == ",": b1 -= 1
            if toks[b0].t == "{": b0, b1 = b0 + 1, b1 - 1
            sp = closure_spec(src, toks, b0, b1, var)
            if sp is None: raise LexError("form of a condition on send buffers")
            f = {"filter": "filter_mut", "find": "find_mut", "all": "all", "any": "any"}[ad]
            edits.append((toks[a].s, toks[b0 - 1].e, "crate::vtokio::%s(%s%s, |%s: &Box<my::SendBuffer>| -> (vp_r: bool) ensures vp_r == (%s) { " % (
                f, "&mut " if m == "iter_mut" else "&", src[toks[a].s:toks[i].s], var, sp)))
            edits.append((toks[b1 - 1].e, toks[toks[o].m].s, " }"))
        if t.k == "id" and t.t == "push" and toks[i + 1].t == "(" and [x.t for x in toks[i + 2:i + 7]] == ["Default", "::", "default", "(", ")"]:
            edits.append((toks[i + 2].s, toks[i + 6].e, "Box::new(my::SendBuffer::default())"))
        # the closures that format messages
        if t.k == "id" and t.t == "fill_if_ok" and [x.t for x in toks[i + 1:i + 3]] == ["(", "|"] and toks[i + 4].t == "|":
            v, c = toks[i + 3].t, toks[i + 1].m
            m = re.fullmatch(r"(\w+)\s*\.\s*encode\s*\(\s*%s\s*\)" % v, src[toks[i + 5].s:toks[c - 1].e])
            if not m: raise LexError("form of a formatting closure")
            edits.append((toks[i + 2].s, toks[i + 4].e, "|%s: &mut [u8]| -> (vp_r: Result<usize, msg::BufferTooSmallError>) requires crate::vmsg::msg_text(%s.fields()).len() <= usize::MAX, ensures crate::common::core::msg::formats(old(%s)@, final(%s)@, crate::vmsg::msg_text(%s.fields()), vp_r) {" % (v, m.group(1), v, v, m.group(1))))
            edits.append((toks[c].s, toks[c].s, " }"))
    return apply(src, edits)

# ---------------------------------------------------------------- the asynchronous jobs
DSP = "crate::server::tokio::dispatch::"
ALL = "&mut *vp_pool, &mut *vp_tx, &mut *vp_bc, &mut *vp_h"

def without(src, pat):
    """the file without the functions whose name matches"""
    toks = lex(src)
    return apply(src, [(toks[it.a].s, toks[it.b - 1].e, "") for it in rlex.parse_items(src, toks, 0, len(toks)) if it.kind == "fn" and re.fullmatch(pat, it.name)])

def signatures(src):
    """what the functions of dispatch.rs, once transformed, take in addition"""
    toks = lex(src)
    return {f.name: [n for n, _ in PARAMS if re.search(r"\b%s\b" % n, src[toks[f.extra["params"][0]].s:toks[f.extra["params"][1]].s])] for f in fns_of(src, toks)}

def jobs(src, dispatch):
    """The body of the job that a function spawns becomes the body of the function; where it waits for something, it gives
    up control: everything that is behind a lock may change.  The destructors of `ConnectionRefMut` are called explicitly."""
    sig = signatures(dispatch)
    toks = lex(src)
    edits, asyncs = [], []
    for f in fns_of(src, toks):
        if any(toks[i].t == "async" for i in range(f.body[0], f.body[1])):
            try: edits.append((toks[f.extra["params"][0]].s, toks[f.body[1]].e, job(src, toks, f, sig)))
            except LexError: edits.append((toks[f.body[0]].s, toks[f.body[1]].e, "{ %s }" % POISON))
    src = apply(src, edits)
    return "use crate::server::tokio::dispatch::*;\n" + re.sub(r"(\bfn\s+spawn_\w+)\s*<\s*A\s*:\s*server::Application\s*>", r"\1", src)

def job(src, toks, f, sig):
    po, pc = f.extra["params"]
    o, c = f.body
    a = [i for i in range(o, c) if toks[i].t == "async"]
    if len(a) != 1 or text(toks, a[0] + 1, 2) != ["move", "{"]: raise LexError("form of a job")
    a = a[0]; bo = a + 2; bc = toks[bo].m
    params = {}
    for x in split_args(toks, po, pc + 1):
        ws = [t for t in toks[x[0]:x[1]] if t.t != "mut"]
        if len(ws) > 2 and ws[1].t == ":": params[ws[0].t] = src[ws[2].s:toks[x[1] - 1].e]
    find = lambda ty: [n for n, t in params.items() if re.search(r"\b%s\b" % ty, t)]
    disp, reg, rd, wr = find("InnerDispatch"), find("AbortRegistration"), find("OwnedReadHalf"), find("OwnedWriteHalf")
    if len(disp) != 1 or len(reg) != 1: raise LexError("form of a job")
    disp, reg = disp[0], reg[0]
    edits = []
    # let job = async move { .. }; tokio::spawn(Abortable::new(job, abort_reg));
    if toks[a - 1].t == "=" and toks[a - 3].t == "let" and toks[bc + 1].t == ";":
        if re.sub(r"\s+", "", src[toks[bc + 1].e:toks[c].s]).rstrip(";") != "tokio::spawn(Abortable::new(%s,%s))" % (toks[a - 2].t, reg): raise LexError("form of a job")
        h = a - 3
    else:
        if re.sub(r"\s+", "", src[toks[bc].e:toks[c].s]).rstrip(";").replace(",)", ")") != ",%s))" % reg: raise LexError("form of a job")
        h = a
        while toks[h].t != "tokio" and h > o: h -= 1
        if re.sub(r"\s+", "", src[toks[h].s:toks[a].s]) != "tokio::spawn(Abortable::new(": raise LexError("form of a job")
    edits.append((toks[h].s, toks[bo].e, "")); edits.append((toks[bc].s, toks[c - 1].e, ""))
    def drop_at(v): return "%s.drop(%s);" % (v, ", ".join("&mut *" + n for n in sig["drop"]))
    def exits(v, i, e):
        """where the scope of `v` is left early"""
        loops = []
        while i < e:
            t = toks[i]
            if t.t in ("loop", "while", "for"):
                k = i
                while toks[k].t != "{": k = toks[k].m + 1 if toks[k].t in ("(", "[") else k + 1
                loops.append((k, toks[k].m))
            if t.t == "return" or t.t in ("break", "continue") and not any(x < i < y for x, y in loops):
                k = i
                while toks[k + 1].t not in (",", ";", "}"):
                    k += 1
                    if toks[k].k == "p" and toks[k].t in ("(", "[", "{"): k = toks[k].m
                if k > i: raise LexError("form of an exit")
                edits.append((t.s, t.e, "{ %s %s }" % (drop_at(v), t.t)))
            if t.t == "?": raise LexError("form of an exit")
            i += 1
    i, n = bo, 0
    while i < bc:
        t = toks[i]
        if t.t == "." and toks[i + 1].t == "await":
            edits.append((t.s, toks[i + 1].e, "")); i += 2; continue
        if t.t == "." and toks[i + 1].t == "connection_mut" and toks[i + 2].t == "(":
            if toks[i - 1].t != disp or toks[i - 2].t == ".": raise LexError("form of an access")
            q = toks[i + 2].m
            get = "others(%s); let mut %%s = %s%s" % (ALL, src[toks[i - 1].s:toks[q].s], "".join(", &mut *" + x for x in sig["connection_mut"]) + ")")
            n += 1
            if text(toks, q + 1, 4) == [".", "alive", "(", ")"]:
                # in a match, or an if let
                k = i - 1
                while toks[k].t not in ("match", "if", ";", "{", "}"): k -= 1
                if toks[k].t not in ("match", "if") or toks[k].t == "if" and toks[k + 1].t != "let" or toks[q + 5].t != "{": raise LexError("form of an access")
                if toks[k - 1].t == "else": raise LexError("form of an access")
                e = toks[q + 5].m
                while toks[k].t == "if" and toks[e + 1].t == "else":
                    e += 2
                    while toks[e].t != "{": e = toks[e].m + 1 if toks[e].t in ("(", "[") else e + 1
                    e = toks[e].m
                v = "vp_c%d" % n
                edits.append((toks[k].s, toks[k].s, "{ " + get % v + "; let vp_r%d = " % n))
                edits.append((toks[i - 1].s, toks[q + 4].e, "%s.alive(%s)" % (v, ", ".join("&mut *" + x for x in sig["alive"]))))
                exits(v, q + 5, e)
                edits.append((toks[e].e, toks[e].e, "; %s vp_r%d }" % (drop_at(v), n)))
                i = q + 5; continue
            # let mut c = dispatch.connection_mut(..);
            s = i - 1
            v = toks[s - 2].t
            if toks[s - 1].t != "=" or toks[s - 2].k != "id" or toks[q + 1].t != ";" or not (toks[s - 3].t == "let" or text(toks, s - 4, 2) == ["let", "mut"]): raise LexError("form of an access")
            d = s
            while d > o:
                d -= 1
                if toks[d].k == "p" and toks[d].t == "}" and toks[d].m is not None: d = toks[d].m
                elif toks[d].t == "{": break
            e = toks[d].m
            x = [x for x in range(q, e) if toks[x].t == "drop" and text(toks, x + 1, 3) == ["(", v, ")"]]
            st = s - 3 if toks[s - 3].t == "let" else s - 4
            edits.append((toks[st].s, toks[q].e, get % v))
            if x:
                k = x[0]
                while toks[k - 1].t == "::": k -= 2
                if len(x) > 1: raise LexError("form of an access")
                edits.append((toks[k].s, toks[x[0] + 3].e, drop_at(v).rstrip(";"))); e = x[0]
            else:
                if toks[e - 1].t not in (";", "}"): raise LexError("form of an access")
                edits.append((toks[e].s, toks[e].s, ("" if toks[e - 1].t == ";" else ";") + " %s " % drop_at(v)))
            exits(v, q, e)
            i = q + 1; continue
        if t.t == "." and toks[i + 1].t == "alive" and text(toks, i + 2, 2) == ["(", ")"]:
            edits.append((toks[i + 3].s, toks[i + 3].s, ", ".join("&mut *" + x for x in sig["alive"])))
        if t.t == "." and toks[i + 2].t == "(":
            m, q = toks[i + 1].t, toks[i + 2].m
            sep = "" if q == i + 3 else ", "
            one = toks[i - 1].k == "id" and toks[i - 2].t != "."
            if m == "handle_incoming":
                if not one: raise LexError("form of a call")
                edits.append((toks[i - 1].s, toks[i + 2].e, "feed(%s, " % toks[i - 1].t)); edits.append((toks[q].s, toks[q].s, ", &mut *vp_tx, &mut *vp_bc, &mut *vp_h, &mut *vp_j"))
            elif m == "set_state":
                if not one: raise LexError("form of a call")
                edits.append((toks[i - 1].s, toks[i + 2].e, "end(%s, " % toks[i - 1].t)); edits.append((toks[q].s, toks[q].s, ", &mut *vp_j"))
            elif m == "notify" and text(toks, i - 3, 3) == [disp, ".", "app"]:
                edits.append((toks[i - 3].s, toks[i + 2].e, "tell_free(&%s.app, " % disp)); edits.append((toks[q].s, toks[q].s, ", %s, &mut *vp_j" % ALL))
            elif m == "swap_send_buffer" and toks[i - 1].t == disp and sig[m] == ["vp_tx"]:
                edits.append((toks[i - 1].s, toks[i + 2].e, "fetch(&%s, " % disp)); edits.append((toks[q].s, toks[q].s, ", &mut *vp_tx, &mut *vp_j"))
            elif m in ("read_buf", "write_all", "notified"): edits.append((toks[q].s, toks[q].s, "%s%s, &mut *vp_j" % (sep, ALL)))
            elif m == "into" and q == i + 3 and one: edits.append((toks[i - 1].s, toks[q].e, "crate::vserver::boxed(%s)" % toks[i - 1].t))
        i += 1
    TY = ((r"^Arc\s*<\s*(?:my::)?InnerDispatch\s*<\s*A\s*>\s*>$", DSP + "InnerDispatch"), (r"^AbortRegistration$", DSP + "AbortRegistration"), (r"^tokio::net::unix::OwnedReadHalf$", "crate::vjobs::Reader"),
          (r"^tokio::net::unix::OwnedWriteHalf$", "crate::vjobs::Writer"), (r"^Arc\s*<\s*Notify\s*>$", "crate::vtokio::Notify"), (r"^u64$", "u64"))
    ps = []
    for n, ty in params.items():
        r = [y for x, y in TY if re.match(x, ty)]
        if len(r) != 1: raise LexError("parameter of a job")
        ps.append("%s%s: %s" % ("mut " if n in rd + wr else "", n, r[0]))
    ps += ["%s: %s" % (n, ty.replace("TxConnector", DSP + "TxConnector").replace("ConnectionPool", DSP + "ConnectionPool").replace("BcQueue", DSP + "BcQueue").replace("Hist", DSP + "Hist")) for n, ty in PARAMS] + ["vp_j: &mut Ghost<crate::vjobs::Job>"]
    body = apply(src, merge(edits) + [(0, toks[o].s, ""), (toks[c].e, len(src), "")])
    return "(" + ", ".join(ps) + ") " + body

# ---------------------------------------------------------------- the listener
def without_listener(src):
    """the file with these functions left out (their contracts are lost)"""
    toks = lex(src)
    edits = []
    for f in fns_of(src, toks):
        if f.name in ("run_listener", "shutdown"): edits.append((toks[f.body[0]].s, toks[f.body[1]].e, "{ %s }" % POISON))
        if f.name == "run_listener" and f.asynchronous:
            k = next(i for i in range(len(toks)) if toks[i].t == "fn" and toks[i + 1].t == "run_listener")
            while toks[k].t != "async": k -= 1
            edits.append((toks[k].s, toks[k].e, ""))
    return apply(src, edits)

LALL = ALL + ", &mut *vp_l"
def listener(src):
    """`run_listener` without `async`: the block that accepts connections becomes a method of its own (`vp_accept`), which
    `Abortable` runs; before each of its waits it may be told to stop.  What touches the operating system, the runtime or the
    application is replaced by the functions of contracts/vlisten.rs."""
    # `let inner = &self.0;` is only another name
    toks = lex(src)
    alias = []
    for f in [f for f in fns_of(src, toks) if f.name == "run_listener"]:
        for i in range(*f.body):
            if toks[i].t == "let" and toks[i + 1].k == "id" and toks[i + 2].t == "=" and toks[i + 3].t == "&" and re.sub(r"\s+", "", src[toks[i + 4].s:toks[i + 7].e]).startswith("self.0;"):
                v = toks[i + 1].t
                d = i
                while toks[d].t != "{": d = toks[d].m - 1 if toks[d].k == "p" and toks[d].t in ("}", ")") else d - 1
                e = next(x for x in range(i, toks[d].m) if toks[x].t == ";")
                if any(toks[x].t == v and toks[x - 1].t in ("let", "mut", "ref", "(", ",", "|") and toks[x + 1].t in ("=", ",", ")", "|", "=>") and toks[x - 1].t != "(" for x in range(e, toks[d].m)): continue
                alias.append((toks[i].s, toks[e].e, ""))
                alias += [(toks[x].s, toks[x].e, "self.0") for x in range(e, toks[d].m) if toks[x].k == "id" and toks[x].t == v and toks[x - 1].t != "."]
    if alias: src = apply(src, alias)
    toks = lex(src)
    edits = []
    fs = [f for f in fns_of(src, toks) if f.name == "run_listener"]
    if len(fs) != 1 or not fs[0].asynchronous: raise LexError("form of the listener")
    f = fs[0]
    o, c = f.body
    at = next(i for i in range(len(toks)) if toks[i].t == "fn" and toks[i + 1].t == "run_listener")
    k = at
    while toks[k].t != "async": k -= 1
    edits.append((toks[k].s, toks[k].e, ""))
    while toks[k - 1].t in ("pub", ")") or toks[k - 2].t == "(":  k -= 1
    start = toks[k].s
    sig = src[toks[at].e:toks[o].s]
    if not re.search(r"->\s*(?:(?:std::)?io|crate::vio::s)::Result\s*<\s*\(\s*\)\s*>\s*$", sig): raise LexError("form of the listener")
    ar = next(i for i in range(at, o) if toks[i].t == "->" or toks[i].t == "-" and toks[i + 1].t == ">")
    edits.append((toks[ar].s, toks[o - 1].e, "-> Result<(), crate::vjobs::IoError>"))
    a = [i for i in range(o, c) if toks[i].t == "async"]
    if len(a) != 1: raise LexError("form of the listener")
    a = a[0]
    bo = a + 1 if toks[a + 1].t == "{" else a + 2
    if toks[bo].t != "{" or bo == a + 2 and toks[a + 1].t != "move": raise LexError("form of the listener")
    bc = toks[bo].m
    # let listener = tokio::net::UnixListener::bind(..)?;
    b = [i for i in range(o, c) if text(toks, i, 3) == ["UnixListener", "::", "bind"]]
    if len(b) != 1: raise LexError("form of the listener")
    b = b[0]
    k = b
    while toks[k - 1].t == "::": k -= 2
    if toks[k - 1].t != "=" or toks[k - 2].k != "id": raise LexError("form of the listener")
    lst = toks[k - 2].t
    edits.append((toks[k].s, toks[b + 2].e, "crate::vlisten::bind"))
    q = toks[b + 3].m
    edits.append((toks[q].s, toks[q].s, ", &mut *vp_l"))
    # nothing else is captured
    mine = {toks[i + 1].t if toks[i + 1].t != "mut" else toks[i + 2].t for i in range(o, a) if toks[i].t == "let" and toks[i + 1].t != "("}
    for i in range(o, a):
        if toks[i].t == "let" and toks[i + 1].t == "(": mine |= {x.t for x in toks[i + 2:toks[i + 1].m] if x.k == "id"}
    mine -= {"mut", lst}
    if any(toks[i].k == "id" and toks[i].t in mine and toks[i - 1].t != "." for i in range(bo, bc)): raise LexError("form of the listener")
    # Abortable::new(f, ar).await
    n = [i for i in range(o, c) if text(toks, i, 4) == ["Abortable", "::", "new", "("]]
    if len(n) != 1: raise LexError("form of the listener")
    n = n[0]
    args, st, k = [], n + 4, n + 4
    while k < toks[n + 3].m:
        if toks[k].k == "p" and toks[k].t in ("(", "[", "{"): k = toks[k].m
        elif toks[k].t == ",": args.append((st, k)); st = k + 1
        k += 1
    if st < k: args.append((st, k))
    if len(args) != 2 or args[1][1] - args[1][0] != 1: raise LexError("form of the listener")
    reg = toks[args[1][0]].t
    if args[0][0] == a: pass
    else:
        if args[0][1] - args[0][0] != 1 or not (toks[a - 1].t == "=" and toks[a - 2].t == toks[args[0][0]].t and toks[a - 3].t == "let" and toks[bc + 1].t == ";"): raise LexError("form of the listener")
        edits.append((toks[a - 3].s, toks[bc + 1].e, ""))
    e = toks[n + 3].m
    if text(toks, e + 1, 2) != [".", "await"]: raise LexError("form of the listener")
    k = n
    while toks[k - 1].t == "::": k -= 2
    edits.append((toks[k].s, toks[e + 2].e, "crate::vlisten::abortable(self.vp_accept(&%s, &%s), %s)" % (lst, reg, reg)))
    inside = lambda i: bo < i < bc
    n = 0
    body = []
    def put(i, x, y, t): (body if inside(i) else edits).append((x, y, t))
    for i in range(o, c):
        t = toks[i]
        if t.t == "." and toks[i + 1].t == "await":
            if i == e + 1: continue
            if not inside(i): raise LexError("form of the listener")
            d = toks[i - 1].m
            if toks[i - 1].t != ")" or d is None or text(toks, d - 3, 4) != [lst, ".", "accept", "("] and text(toks, d - 5, 6) != ["tokio", "::", "task", "::", "yield_now", "("]: raise LexError("a wait of the listener")
            x = d - 3 if toks[d - 1].t == "accept" else d - 5
            put(i, toks[x].s, toks[i + 1].e, "({ if let Some(vp_e) = crate::vlisten::stopped(vp_ar, &mut *vp_slot, %s) { return Err(vp_e); } %s })" % (LALL, "%s.accept(%s)" % (lst, LALL) if toks[d - 1].t == "accept" else "()"))
        if t.t in ("spawn_receiver", "spawn_transmitter") and toks[i + 1].t == "(":
            k = i
            while toks[k - 1].t == "::": k -= 2
            g = split_args(toks, i + 1, toks[i + 1].m + 1)
            d = re.sub(r"\s+", "", src[toks[g[0][0]].s:toks[g[0][1] - 1].e])
            if d not in ("self.0.clone()", "Arc::clone(&self.0)"): raise LexError("form of the listener")
            put(i, toks[k].s, toks[g[0][1] - 1].e, "crate::vlisten::start_%s(&self.0" % t.t[6:])
            z = toks[i + 1].m
            put(i, toks[z].s, toks[z].s, ("" if toks[z - 1].t == "," else ", ") + LALL)
        if t.t == "create_connection_object" and text(toks, i + 1, 2) == ["(", ")"]:
            k = path_start(toks, i - 1)
            put(i, toks[k].s, toks[k].s, "crate::vlisten::created(")
            put(i, toks[i + 2].e, toks[i + 2].e, ", &mut *vp_l)")
        if t.t == "notify" and text(toks, i - 6, 6) == ["self", ".", "0", ".", "app", "."] and toks[i + 1].t == "(":
            put(i, toks[i - 6].s, toks[i + 1].e, "crate::vlisten::announce(&self.0.app, ")
            z = toks[i + 1].m
            put(i, toks[z].s, toks[z].s, ("" if toks[z - 1].t == "," else ", ") + LALL)
        if t.t == "drop" and text(toks, i + 1, 3) == ["(", lst, ")"]:
            k = i
            while toks[k - 1].t == "::": k -= 2
            put(i, toks[k].s, toks[i].e, "crate::vlisten::close")
        if t.t == "remove_file" and toks[i + 1].t == "(":
            k = i
            while toks[k - 1].t == "::": k -= 2
            if k != i and re.sub(r"\s+", "", src[toks[k].s:toks[i].s]) not in ("std::fs::", "fs::"): raise LexError("form of the listener")
            put(i, toks[k].s, toks[i].e, "crate::vlisten::remove_file")
            z = toks[i + 1].m
            put(i, toks[z].s, toks[z].s, ", &mut *vp_l")
        # the lock of the pool for the duration of a loop, or of the initialisation of a local variable
        if t.t in ("for", "let") and not inside(i):
            j = i
            while toks[j].t not in ("in", "=", ";"): j += 1
            z = j + 1
            while toks[z].t != ("{" if t.t == "for" else ";"):
                if toks[z].k == "p" and toks[z].t in ("(", "["): z = toks[z].m
                z += 1
            w = [x for x in range(j, z) if text(toks, x, 4) in ([".", "pool", ".", "write"], [".", "pool", ".", "read"]) and text(toks, x + 4, 6) == ["(", ")", ".", "unwrap", "(", ")"]]
            if len(w) == 1 and (t.t == "for" or toks[w[0] + 10].t != ";"):
                w = w[0]
                k = path_start(toks, w)
                put(i, t.s, t.s, "%slet vp_guard%d = %s.pool.write().unwrap(); " % ("{ " if t.t == "for" else "", i, src[toks[k].s:toks[w].s]))
                put(i, toks[k].s, toks[w + 9].e, "vp_guard%d" % i)
                e1 = toks[z].m if t.t == "for" else z
                put(i, toks[e1].e, toks[e1].e, " }" if t.t == "for" else " drop(vp_guard%d);" % i)
        # .. or of a condition
        if t.t in ("if", "while") and toks[i + 1].t != "let":
            z = i + 1
            while toks[z].t != "{":
                if toks[z].k == "p" and toks[z].t in ("(", "["): z = toks[z].m
                z += 1
            w = [x for x in range(i, z) if text(toks, x, 4) in ([".", "pool", ".", "write"], [".", "pool", ".", "read"]) and text(toks, x + 4, 6) == ["(", ")", ".", "unwrap", "(", ")"]]
            if len(w) == 1 and not any(toks[x].t in ("&&", "||", "return", "break", "{") for x in range(i, z)):
                w = w[0]
                k = path_start(toks, w)
                put(i, toks[i].e, toks[i].e, " ({ let vp_guard%d = %s.pool.write().unwrap(); let vp_cond%d = (" % (i, src[toks[k].s:toks[w].s], i))
                put(i, toks[k].s, toks[w + 9].e, "vp_guard%d" % i)
                put(i, toks[z].s, toks[z].s, "); drop(vp_guard%d); vp_cond%d }) " % (i, i))
        # access to one connection
        if t.t == "." and toks[i + 1].t == "connection_mut" and toks[i + 2].t == "(":
            q = toks[i + 2].m
            k = path_start(toks, i)
            n += 1
            drops = " vp_c%d.drop();" % n
            if text(toks, q + 1, 4) == [".", "alive", "(", ")"]:
                h = i
                while toks[h].t not in ("if", "match", ";", "{", "}"): h -= 1
                if toks[h].t not in ("if", "match") or toks[h].t == "if" and toks[h + 1].t != "let" or toks[q + 5].t != "{" or toks[h - 1].t == "else": raise LexError("form of an access")
                z = toks[q + 5].m
                while toks[h].t == "if" and toks[z + 1].t == "else":
                    z += 2
                    while toks[z].t != "{": z = toks[z].m + 1 if toks[z].t in ("(", "[") else z + 1
                    z = toks[z].m
                if any(x.t in ("return", "break", "continue", "?", "await") for x in toks[q + 5:z]): raise LexError("form of an exit")
                put(i, toks[h].s, toks[h].s, "{ let mut vp_c%d = %s; let vp_r%d = " % (n, src[toks[k].s:toks[q].e], n))
                put(i, toks[k].s, toks[q + 4].e, "vp_c%d.alive()" % n)
                put(i, toks[z].e, toks[z].e, ";%s vp_r%d }" % (drops, n))
            else:
                # let mut c = self.0.connection_mut(..);
                v = toks[k - 2].t
                if toks[k - 1].t != "=" or toks[q + 1].t != ";" or not (toks[k - 3].t == "let" or text(toks, k - 4, 2) == ["let", "mut"]): raise LexError("form of an access")
                d = k
                while d > o:
                    d -= 1
                    if toks[d].k == "p" and toks[d].t == "}" and toks[d].m is not None: d = toks[d].m
                    elif toks[d].t == "{": break
                z = toks[d].m
                x = [x for x in range(q, z) if toks[x].t == "drop" and text(toks, x + 1, 3) == ["(", v, ")"]]
                if len(x) > 1 or any(y.t in ("return", "break", "continue", "?", "await") for y in toks[q:x[0] if x else z]): raise LexError("form of an exit")
                if x:
                    y = x[0]
                    while toks[y - 1].t == "::": y -= 2
                    put(i, toks[y].s, toks[x[0] + 3].e, "%s.drop()" % v)
                elif toks[z - 1].t not in (";", "}"): raise LexError("form of an access")
                else: put(i, toks[z].s, toks[z].s, "; %s.drop(); " % v)
    main = apply(src[start:toks[c].e], [(x - start, y - start, z) for x, y, z in merge(edits)])
    off = toks[bo].s
    inner = "pub fn vp_accept(&self, %s: &crate::vlisten::Listener, vp_ar: &AbortRegistration) -> (Result<(), crate::vjobs::IoError>) %s" % (lst, apply(src[off:toks[bc].e], [(x - off, y - off, z) for x, y, z in merge(body)]))
    src = src[:start] + main + "\n" + inner + src[toks[c].e:]
    src = re.sub(r"\.\s*pool\s*\.\s*read\s*\(\s*\)\s*\.\s*unwrap", ".pool.write().unwrap", src)
    src = re.sub(r"\*\s*\(?\s*self\s*\.\s*0\s*\.\s*abort\s*\.\s*lock\s*\(\s*\)\s*\.\s*unwrap\s*\(\s*\)\s*\)?\s*=", "*vp_slot =", src)
    src = re.sub(r"self\s*\.\s*0\s*\.\s*abort\s*\.\s*lock\s*\(\s*\)\s*\.\s*unwrap\s*\(\s*\)\s*\.\s*deref\s*\(\s*\)", "(&*vp_slot)", src)
    src = re.sub(r"self\s*\.\s*0\s*\.\s*abort\s*\.\s*lock\s*\(\s*\)\s*\.\s*unwrap\s*\(\s*\)", "(&mut *vp_slot)", src)
    return src
