#!/bin/bash
# builds the search programs once, so that a broken tool chain shows up here (every check builds what it needs itself)
cd "$(dirname "$0")/.." || exit 1
mkdir -p build evidence replay
python3 - <<'E' || exit 1
import sys; sys.path.insert(0, "tools")
import check
from harness import HARNESS
for c, b in sorted({(h["crate"], h["bin"]) for hs in HARNESS.values() for h in hs}):
    exe, log = check.build(c, b)
    if not exe: print(log); sys.exit(1)
    print("built", exe)
g, t = check.gen.generate("/repo")
print("extracted", len(g.fns), "functions")
E
verus --version
