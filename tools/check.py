#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's present working tree.

Layer A: the functions of /repo are extracted mechanically, joined with the contracts in /verif/contracts and handed to Verus.
Layer B: a bounded search on the compiled crate for an input that breaks the property; it supplies the failing input when an
obligation fails, and stands in (labelled bounded) where the verifier cannot take the present text of the code.
Exit 0: held. Exit 1 and a VIOLATION line: broken.
"""
import sys, os, re, json, time, subprocess, shutil, threading
T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
REPO = "/repo"
sys.path.insert(0, HERE)
import gen, rlex, extract
from scope import SCOPE, BASE, dropped_modules
from harness import HARNESS

RLIMIT = {"quick": 60, "thorough": 200}

# ------------------------------------------------------------------------------------------------ Layer A
LEVEL_ERR = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "assertion failure", "invariant not satisfied", "possible arithmetic", "possible division", "possible bit shift",
             "decreases not satisfied", "could not prove termination", "loop ensures not satisfied", "unreachable", "possible truncation", "cannot show invariant", "constructed value may fail",
             "possible array", "index out of", "possible slice", "loop invariant", "arithmetic", "may be out of", "unable to prove", "failed to prove", "value may be out of range")
RLIM_ERR = ("resource limit", "rlimit", "z3 crashed", "solver returned", "timed out")

class Run:
    def __init__(self): self.ok = False; self.failed = {}; self.compile = []; self.rlimit = {}; self.other = []; self.fns = {}; self.verified = 0; self.errors = 0; self.wall = 0; self.smt_ms = 0; self.raw = ""; self.timeout = False

def fn_at(g, line):
    best = None
    for k, f in g.fns.items():
        if f.gen_lines and f.gen_lines[0] <= line <= f.gen_lines[1]:
            if best is None or (f.gen_lines[1] - f.gen_lines[0]) < (g.fns[best].gen_lines[1] - g.fns[best].gen_lines[0]): best = k
    return best

def owner(g, d, fname):
    """the function whose obligation a diagnostic is about"""
    spans = [s for s in d.get("spans", []) if os.path.basename(s["file_name"]) == fname]
    def rank(s):
        l = s.get("label") or ""
        if re.match(r"at (the end|this)", l): return 0
        if s["is_primary"] and not l.startswith("failed"): return 1
        if s["is_primary"]: return 2
        return 3
    for s in sorted(spans, key=rank):
        k = fn_at(g, s["line_start"])
        if k and not (g.fns[k].is_decl and len(spans) > 1): return k, s["line_start"]
    for s in sorted(spans, key=rank): return None, s["line_start"]
    return None, None

def verus(g, text, d, name, modules, tier, timeout, rlimit=None, multi=4):
    """modules: None = everything"""
    r = Run()
    os.makedirs(d, exist_ok=True)
    fn = name + ".rs"
    open(os.path.join(d, fn), "w").write(text)
    have = set(re.findall(r"//@mod (\S+)", text)) or None
    cmd = ["verus", "--edition=2018", "--triggers-mode", "silent", "--rlimit", str(rlimit or RLIMIT[tier]), "--output-json", "--time-expanded", "--multiple-errors", str(multi)]
    for m in modules or []: cmd += ["--verify-module", m]
    cmd += [fn, "--", "--error-format=json"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True; r.wall = time.time() - t; return r
    r.wall = time.time() - t
    err = p.stderr.decode("utf8", "replace")
    r.raw = err
    r.cmd = " ".join(cmd)
    fnmap = {}
    for l in err.splitlines():
        if not l.startswith("{"): continue
        try: x = json.loads(l)
        except ValueError: continue
        if x.get("level") != "error": continue
        m = x["message"]
        if m.startswith("aborting due to"): continue
        k, line = owner(g, x, fn)
        rec = {"message": m, "line": line, "key": k, "rendered": x.get("rendered") or m}
        lo = m.lower()
        if any(w in lo for w in RLIM_ERR): r.rlimit.setdefault(k, []).append(rec)
        elif x.get("code") is None and any(lo.startswith(w) or w in lo for w in LEVEL_ERR): r.failed.setdefault(k, []).append(rec)
        else: r.compile.append(rec)
    try:
        j = json.loads(p.stdout.decode("utf8", "replace"))
        vr = j["verification-results"]
        r.verified, r.errors = vr.get("verified", 0), vr.get("errors", 0)
        for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                r.fns[f["function"]] = (f["time"], f["rlimit"]); r.smt_ms += f["time"]
        r.ok = r.errors == 0 and r.verified > 0 and p.returncode == 0 and not vr.get("encountered-vir-error") and not vr.get("encountered-error")
        if vr.get("encountered-vir-error") and not r.compile: r.compile.append({"message": "verifier error", "line": None, "key": None, "rendered": err[-2000:]})
    except ValueError:
        if not r.compile: r.compile.append({"message": "no result from the verifier", "line": None, "key": None, "rendered": err[-3000:]})
    return r

def matches(key, pats): return any(re.fullmatch(p, key) for p in pats)

class LayerA:
    """outcome: proved | violated (named obligations of primary functions fail) | undecided"""
    def __init__(self, prop, tier, d):
        self.prop, self.tier, self.d = prop, tier, d
        self.outcome, self.why, self.failed, self.set_aside = None, [], [], []
        self.run = None; self.g = None; self.iterations = 0; self.probe = None

    def go(self):
        mods, prim = SCOPE[self.prop]
        base = json.load(open(os.path.join(HERE, "baseline.json")))
        ext, drop = set(), set()
        deadline = time.time() + (420 if self.tier == "quick" else 700)
        r = g = None
        for it in range(9):
            self.iterations = it + 1
            try: g, text = gen.generate(REPO, None, tuple(ext), tuple(drop) + tuple(dropped_modules(self.prop)), focus=self.prop)
            except Exception as e:
                self.outcome = "undecided"; self.why.append("extraction: %s: %s" % (type(e).__name__, e)); self.g = None; return
            self.g = g
            present = {f.module for f in g.fns.values()}
            ms = [m for m in BASE + mods if not ("::" in m or m in ("msg",)) or m in present]
            left = deadline - time.time()
            if left < 20: self.outcome = "undecided"; self.why.append("out of time"); return
            r = verus(g, text, self.d, "a_" + self.prop.lower(), ms, self.tier, left)
            self.run = r
            if r.timeout: self.outcome = "undecided"; self.why.append("verifier timed out"); return
            if not r.compile: break
            new = set()
            for c in r.compile:
                k = c["key"]
                if k and k not in ext and k not in drop: new.add((k, c["message"]))
                elif k and k in ext: drop.add(k); new.add((k, c["message"]))
            if not new:
                self.outcome = "undecided"; self.why.append("the verifier does not accept the present text: " + "; ".join("%s (line %s)" % (c["message"], c["line"]) for c in r.compile[:4])); return
            for k, m in new:
                if k in drop: continue
                ext.add(k); self.set_aside.append((k, m))
        else:
            self.outcome = "undecided"; self.why.append("the verifier does not accept the present text"); return
        basefns = set(base["fns"])
        newfns = {f.name for k, f in g.fns.items() if k not in basefns and not f.is_decl}
        inscope = lambda k: k is not None and (g.fns[k].module in mods)
        def detached(k):
            """reasons why the contract of k does not fit the present text of k"""
            f = g.fns[k]
            w = list(f.problems)
            if k not in basefns: w.append("not under contract")
            n = sorted(f.idents & newfns)
            if n: w.append("calls functions without a contract: " + ", ".join(n))
            if base["loops"].get(k, 0) != f.loops: w.append("number of loops changed")
            elif f.loops and base["heads"].get(k) != f.loop_heads: w.append("the invariants were written for another loop")
            s = sorted(x for x, c in f.soft.items() if c > base["soft"].get(k, {}).get(x, 0))
            if s: w.append("the proof has no hints for the new use of " + ", ".join(s))
            return w
        undec, viol = [], []
        for k, recs in list(r.failed.items()) + list(r.rlimit.items()):
            rl = k in r.rlimit
            if k is None:
                undec.append("%s (line %s)" % (recs[0]["message"], recs[0]["line"])); continue
            why = detached(k)
            if rl and k not in r.failed: why.append("resource limit")
            if why: undec.append("%s: %s; %s" % (k, recs[0]["message"], "; ".join(why)))
            elif matches(k, prim): viol.append((k, recs))
            else: undec.append("%s: %s (a function this property only depends on)" % (k, recs[0]["message"]))
        for k, m in self.set_aside:
            if k in g.fns and inscope(k): undec.append("%s set aside: %s" % (k, m))
        for k in drop: undec.append("%s dropped" % k)
        for p in g.problems:
            key = p[1]
            mod = key.rsplit("::", 2)[0]
            if any(key.startswith(m + "::") for m in mods): undec.append("contract lost: %s %s" % (p[0], key))
        for k, f in g.fns.items():
            if inscope(k) and not f.external and not f.is_decl and k in basefns and k not in r.failed:
                for p in f.problems: undec.append("%s: %s" % (k, p))
        for k, f in g.fns.items():
            if inscope(k) and not f.is_decl and k not in basefns and " as " in k: undec.append("%s: an implementation of a trait without a contract" % k)
        self.failed = viol
        self.why = undec
        self.outcome = "violated" if viol else ("undecided" if undec or not r.ok else "proved")
        self.mods = ms

    def counts(self):
        """functions in scope under contract, obligations, discharged"""
        g, r = self.g, self.run
        mods, prim = SCOPE[self.prop]
        fns = [k for k, f in g.fns.items() if f.module in mods and not f.is_decl and not f.external]
        decl = {k.rsplit("::", 1) [1]: k for k, f in g.fns.items() if f.is_decl and f.contract and f.contract.sections.get("ensures")}
        def contracted(k):
            return bool(g.fns[k].contract) or (" as " in k and k.rsplit("::", 1)[1] in decl)
        return fns, [k for k in fns if contracted(k)], [k for k in fns if matches(k, prim)]

    def vacuity(self, timeout):
        """assert(false) at the start of every body and of every loop body: each has to fail"""
        mods, _ = SCOPE[self.prop]
        res = {"probes": 0, "failed_as_required": 0, "vacuous": [], "undecided": []}
        for kind in ("body", "loop"):
            g, text = gen.generate(REPO, None, tuple(k for k, _ in self.set_aside), tuple(dropped_modules(self.prop)), kind, focus=self.prop)
            # where are the probes
            pts = {}
            for n, l in enumerate(text.split("\n"), 1):
                if "/*@PROBE@*/" in l:
                    k = fn_at(g, n)
                    if k and g.fns[k].module in mods and not g.fns[k].external: pts[n] = k
            ms = sorted({g.fns[k].module for k in pts.values()})
            if not pts: continue
            r = verus(g, text, self.d, "p_%s_%s" % (kind, self.prop.lower()), ms, self.tier, timeout, 0.3, 0 if kind == "body" else 1)
            if r.timeout or r.compile: res["undecided"].append("%s probes: no result" % kind); continue
            hit = {x["line"] for recs in r.failed.values() for x in recs}
            gaveup = {k: len(recs) for k, recs in r.rlimit.items()}   # false could not be derived within the resource limit
            for n, k in pts.items():
                res["probes"] += 1
                if n in hit: res["failed_as_required"] += 1
                elif gaveup.get(k, 0) > 0: res["failed_as_required"] += 1; gaveup[k] -= 1
                elif kind == "body": res["vacuous"].append("%s (%s)" % (k, kind))
                else: res["undecided"].append("%s loop" % k)
        self.probe = res

# ------------------------------------------------------------------------------------------------ literals
def literals():
    lits = {}
    for root, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if not f.endswith(".rs"): continue
            try: toks = rlex.lex(open(os.path.join(root, f)).read())
            except Exception: continue
            for t in toks:
                s = t.t
                try:
                    if t.k in ("num", "int"):
                        m = re.match(r"(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)", s)
                        if m: lits["i %d" % int(m.group(1).replace("_", ""), 0)] = 1
                    elif t.k in ("str", "char", "bytes", "bstr", "byte"):
                        q = s
                        b = q.startswith("b")
                        if b: q = q[1:]
                        if q[0] in "\"'" :
                            v = eval(q if "\\u{" not in q else '""', {"__builtins__": {}})
                            h = v.encode("latin1" if b else "utf8").hex()
                            if len(h) < 400: lits["s -" + h] = 1
                except Exception: pass
    return sorted(lits)

def write_lits(path):
    base = set(json.load(open(os.path.join(HERE, "baseline.json")))["lits"])
    with open(path, "w") as o:
        for l in literals(): o.write(l + ("" if l in base else " new") + "\n")

# ------------------------------------------------------------------------------------------------ Layer B
class LayerB:
    """outcome: held | violated | none (the search could not be built or run)"""
    def __init__(self, prop, tier, seed, d):
        self.prop, self.tier, self.seed, self.d = prop, tier, seed, d
        self.outcome, self.why, self.stats, self.failure = None, "", [], None

    def go(self):
        os.makedirs(self.d, exist_ok=True)
        lits = os.path.join(self.d, "lits")
        write_lits(lits)
        for h in HARNESS[self.prop]:
            exe, log = build(h["crate"], h["bin"])
            if not exe: self.outcome = "none"; self.why = log; return
            self.one(h, exe, lits)
            if self.outcome: return
        self.outcome = "held"

    def one(self, h, exe, lits):
        secs = h["seconds"][0 if self.tier == "quick" else 1]
        out = os.path.join(self.d, "out.json")
        def run(trace, secs):
            if os.path.exists(out): os.remove(out)
            env = dict(os.environ)
            if trace: env["HC_TRACE"] = trace
            try: p = subprocess.run([exe, self.prop, str(self.seed), self.tier, str(secs), lits, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=max(20, min(secs + 200, 870 - (time.time() - T0))), env=env, cwd=self.d)
            except subprocess.TimeoutExpired: return None, ""
            return p.returncode, p.stdout.decode("utf8", "replace")[-2000:]
        rc, o = run(None, secs)
        if rc in (0, 1) and os.path.exists(out):
            st = json.load(open(out)); self.stats.append(dict(st, crate=h["crate"]))
            if st["failure"]: self.outcome = "violated"; self.failure = st["failure"]
            return
        # a hang, an abort or a crash: find the input
        tr = os.path.join(self.d, "trace")
        if os.path.exists(tr): os.remove(tr)
        rc2, o2 = run(tr, max(30, min(secs * 4, int(700 - (time.time() - T0)))))
        if rc2 in (0, 1) and os.path.exists(out):
            st = json.load(open(out)); self.stats.append(dict(st, crate=h["crate"]))
            if st["failure"]: self.outcome = "violated"; self.failure = st["failure"]
            else: self.stats[-1]["notes"].append("the first run ended with status %s" % rc)
            return
        inp = open(tr, errors="replace").read() if os.path.exists(tr) else ""
        if inp and rc2 is not None and (rc2 == 42 or rc2 in (-6, -11, -7, -4)):
            self.outcome = "violated"
            self.failure = "%s: %s" % (inp, "does not return within 30 s" if rc2 == 42 else "the process died of signal %d: %s" % (-rc2, o2[-300:]))
            return
        self.outcome = "none"; self.why = "search ended with status %s, %s: %s" % (rc, rc2, (o2 or o)[-400:])

def build(crate, binary):
    src = os.path.join(V, "harness", crate)
    tgt = os.path.join(V, "build", "target_" + crate)
    fp = os.path.join(tgt, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for x in os.listdir(fp):
            if x.startswith("vt6-") or x.startswith(binary + "-"): shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=tgt, RUSTUP_TOOLCHAIN="stable", RUSTFLAGS="-Awarnings")
    try: p = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", binary], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    except subprocess.TimeoutExpired: return None, "build timed out"
    exe = os.path.join(tgt, "debug", binary)
    if p.returncode != 0: return None, "harness does not build: " + p.stdout.decode("utf8", "replace")[-3000:]
    return exe, ""

# ------------------------------------------------------------------------------------------------ the verdict
def scan_assumptions():
    """mechanical scan for everything the proofs take on trust"""
    out = []
    cdir = os.path.join(V, "contracts")
    for f in sorted(os.listdir(cdir)):
        for n, l in enumerate(open(os.path.join(cdir, f)), 1):
            for w in ("assume_specification", "external_body", "external_type_specification", "external_trait_specification", "admit()", "assume(", "axiom ", "uninterp"):
                if w in l and not l.strip().startswith("//"): out.append("%s:%d %s" % (f, n, l.strip()[:140])); break
    return out

def known_findings(prop):
    p = os.path.join(V, "known-findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop): r.append(l.strip()[len("finding: "):])
    return r

def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    d = os.path.join(V, "build", prop)
    os.makedirs(d, exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True); os.makedirs(os.path.join(V, "replay"), exist_ok=True)
    A, B = LayerA(prop, tier, d), LayerB(prop, tier, seed, d)
    errs = []
    def guard(f):
        def g():
            try: f()
            except Exception as e:
                import traceback; errs.append(traceback.format_exc())
        return g
    ta, tb = threading.Thread(target=guard(A.go)), threading.Thread(target=guard(B.go))
    ta.start(); tb.start(); ta.join()
    if A.outcome == "proved":
        guard(lambda: A.vacuity(max(20, min(300, (860 - (time.time() - T0)) / 2))))()
        if A.probe and A.probe["vacuous"]: A.outcome = "undecided"; A.why.append("vacuous: " + ", ".join(A.probe["vacuous"][:5]))
    tb.join()
    if A.outcome is None: A.outcome = "undecided"; A.why.append("driver error: " + "".join(errs)[-600:])
    if B.outcome is None: B.outcome = "none"; B.why = B.why or ("driver error: " + "".join(errs)[-600:])
    for l in known_findings(prop): print("KNOWN-FINDING: " + l)

    violated = B.outcome == "violated" or A.outcome == "violated"
    ev = evidence(prop, tier, seed, A, B, violated)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: contracts %s; search %s; %.0f s" % (prop, A.outcome, B.outcome, time.time() - T0))
    for w in A.why[:12]: print("  undecided: " + w[:300])
    for k, recs in A.failed[:12]:
        for x in recs[:3]: print("  failed obligation: %s: %s" % (k, x["message"]))
    if B.why: print("  search: " + B.why[-700:])
    if violated:
        rp = os.path.join(V, "replay", prop + ".json")
        json.dump({
            "property": prop,
            "failed_obligations": [{"function": k, "file": A.g.fns[k].file, "obligation": x["message"], "verifier_output": x["rendered"]} for k, recs in A.failed for x in recs],
            "failing_input": B.failure,
            "replay_cmd": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 tools/check.py %s" % (seed, tier, prop),
        }, open(rp, "w"), indent=1)
        if B.failure: print("  failing input: " + B.failure[:1500])
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if B.outcome == "violated" else " no-failing-input-found"))
        sys.exit(1)
    if A.outcome != "proved" and B.outcome != "held":
        print("no answer: neither the contracts nor the search could decide"); sys.exit(3)
    sys.exit(0)

def evidence(prop, tier, seed, A, B, violated):
    cov = {}
    level = "proof" if A.outcome == "proved" else "exploration"
    st = B.stats
    search = {"evaluations": sum(s["evaluations"] for s in st), "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in st),
              "rule": " / ".join(s["rule"] for s in st), "samples": [x for s in st for x in s["samples"]][:8], "bound": " / ".join(s.get("bound", "") for s in st),
              "seconds": sum(s["seconds"] for s in st), "label": "bounded search on the compiled crate; supplementary, never counted as proved", "outcome": B.outcome}
    if A.run is not None and A.g is not None and not A.run.compile and not A.run.timeout:
        fns, contracted, prim = A.counts()
        mods = SCOPE[prop][0]
        qs = A.run.fns
        bad = len(A.run.failed) + len([k for k in A.run.rlimit if k not in A.run.failed])
        cov.update({
            "obligations": A.run.verified + A.run.errors, "discharged": A.run.verified,
            "checker_cmd": getattr(A.run, "cmd", ""), "back_end": "Verus 0.2026.09.13 with Z3 (every obligation)",
            "explanation": "one obligation per function or lemma: the conjunction of its postconditions, loop invariants, callee preconditions, termination, and absence of panics and overflow",
            "functions_under_contract": sorted(contracted), "functions_stating_the_property": sorted(prim),
            "functions_without_contract_checked_for_panics_only": sorted(set(fns) - set(contracted)),
            "modules": mods, "solver_ms": A.run.smt_ms, "solver_queries_functions": len(qs),
            "verifier_wall_s": round(A.run.wall, 1), "failed_functions": sorted(str(k) for k in A.run.failed), "resource_limit": sorted(str(k) for k in A.run.rlimit),
            "vacuity_probes": A.probe, "set_aside": A.set_aside,
            "extraction": {"dropped": [list(x) for x in A.g.dropped], "rewrites": [list(x) for x in A.g.rewrites_applied], "external_bodies": [list(x) for x in A.g.ext_bodies]},
        })
        cov["trusted_base"] = TRUST + list(A.g.trusted) + scan_assumptions()
    cov["contracts_outcome"] = A.outcome
    cov["undecided"] = A.why
    cov["bounded_search"] = search
    if level == "exploration":
        cov.update({k: search[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples")})
    return {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
            "assumptions": TRUST, "wall_s": round(time.time() - T0, 2), "violations": int(violated)}

TRUST = [
    "Verus (translation, erasure, vstd contracts), rustc and Z3 are sound",
    "the mechanical extraction (tools/extract.py) keeps the meaning of the functions: it drops comments, attributes, visibility, Debug and Error implementations (Display, too, except for C27), expands local macros, and applies the rewrites listed under extraction.rewrites",
    "assumed contracts of standard-library functions and stand-ins for std::path/OsStr (contracts/vstdx.rs, contracts/vpath.rs)",
    "derived Clone/PartialEq behave structurally",
    "usize is 64 bits wide (the tree is verified for a 64-bit target)",
]

def baseline():
    g, _ = gen.generate(REPO)
    json.dump({"fns": sorted(g.fns), "loops": {k: f.loops for k, f in sorted(g.fns.items())}, "heads": {k: f.loop_heads for k, f in sorted(g.fns.items()) if f.loops}, "soft": {k: f.soft for k, f in sorted(g.fns.items()) if f.soft}, "lits": literals()}, open(os.path.join(HERE, "baseline.json"), "w"), indent=0)

if __name__ == "__main__":
    if sys.argv[1] == "--baseline": baseline()
    else: main()
