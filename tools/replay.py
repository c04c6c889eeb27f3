#!/usr/bin/env python3
"""replay.py FILE - runs again, against /repo's current tree, the input recorded in a replay file."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
d = json.load(open(sys.argv[1]))
print("property %s, obligation: %s of %s [%s]\n%s" % (d["property"], d["obligation"], d["function_or_contract"], d["shape"], d["why"]))
if d.get("python"):
    p = vbuild.build_python()
    sys.exit(subprocess.call(["/usr/bin/python3"] + d["python"], env=dict(os.environ, PYTHONPATH=vbuild.REPO + "/python:" + p)))
model = d.get("input") or (d.get("symbolic") or {}).get("model")
if model is None and "args" not in d:
    print("no failing input is recorded: the file names the failed obligation and carries the verifier's output"); sys.exit(0)
b = vbuild.build([d["property"]], sym=False)
args = ["--run", d["property"], d["function_or_contract"], d["shape"], "--n", "1"]
if model:
    for k, v in model.items(): args += ["--set", k, repr(v)]
else:
    args = d["args"]
print(b["plain"], " ".join(args))
sys.exit(subprocess.call([b["plain"]] + args))
