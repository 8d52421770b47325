import sys, os, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = """#![feature(pattern)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unused_unsafe, non_camel_case_types, non_snake_case, unreachable_code, unused_assignments, mismatched_lifetime_syntaxes, deprecated, bare_trait_objects)]
#[allow(unused_imports)] use vstd::prelude::*;
"""
FOCUS = ("C09", "C14", "C15", "C16", "C17", "C18")
def generate(repo="/repo", prop=None, external=(), dropped=(), probe=None, focus=None):
    """focus: the contracts of the server state what this property needs of the functions that several properties share (None: everything)"""
    cs = extract.load_contracts(os.path.join(V, "contracts"), dropped)
    g = extract.Gen(repo, cs, prop, external, dropped, probe)
    specs = [(os.path.basename(f)[:-3], open(f).read()) for f in sorted(glob.glob(os.path.join(V, "contracts", "v*.rs")))]
    if not extract.with_jobs(dropped): specs = [x for x in specs if x[0] != "vjobs"]
    if not extract.with_listener(dropped): specs = [x for x in specs if x[0] != "vlisten"]
    specs.append(("vprop", "use vstd::prelude::*;\nverus! {\n" + "".join("pub open spec fn focus_%s() -> bool { %s }\n" % (p.lower(), "true" if focus in (None, p) or (p, focus) == ("C14", "C26") else "false") for p in FOCUS) + "}\n"))
    text = g.run(PRE, specs)
    return g, text
if __name__ == "__main__":
    out = sys.argv[1]
    g, t = generate(repo=os.environ.get('VREPO', '/repo'), prop=(sys.argv[2] if len(sys.argv) > 2 else None) or None, dropped=sys.argv[3].split(",") if len(sys.argv) > 3 else (), focus=os.environ.get("FOCUS"))
    open(out, "w").write(t)
    for p in g.problems: print("problem", p)
    for f in g.fns.values():
        for p in f.problems: print("fnproblem", f.key, p)
