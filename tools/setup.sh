#!/bin/bash
# prebuilds the engine and the executable contracts (only a cache: every check rebuilds what changed)
cd "$(dirname "$0")/.." || exit 1
for t in g++ clang++ z3 cvc5 python3 objcopy; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 - <<'P'
import sys; sys.path.insert(0, "tools")
import vbuild, glob, os
for p in sorted(os.path.basename(f)[:-4] for f in glob.glob("harness/C*.cpp")):
    r = vbuild.build([p]); print(p, r["sym_error"], r["plain_error"])
P
python3-vt -c 'import sys; sys.path.insert(0, "deduct"); import cppast; cppast.load()' || true
exit 0
