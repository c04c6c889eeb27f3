#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {"C21": "src/Optimization needs the ifopt/ipopt headers and solver, which are not installed: the code cannot be compiled, extracted or replayed here, and the property is about what an external nonlinear solver returns.",
      "C22": "GaussLobattoLagrangeFunctionals.cpp includes ifopt headers that are not installed, so it is not part of the built library; neither front end can parse it and a counterexample could not be replayed.",
      "C23": "A schedule property: the code shares mutable scratch buffers between const evaluations without locks and documents no thread-safety promise; sequential function contracts cannot express interleavings, and the property is false by design (one object per thread is the usage)."}
TECH = "contract-based deductive verification: pre/postconditions and loop invariants on functions extracted from /repo's source each run, obligations discharged by z3/cvc5; bounded all-real-values contract checks for what is out of reach, replay on the double build"
def note(p):
    f = V + "/tools/notes/%s.txt" % p
    return open(f).read().strip() if os.path.exists(f) else \
        "Doubles are treated as reals. Contracts outside the deductive engine's reach are decided by bounded symbolic execution of the real code (all real values, listed sizes), labelled bounded in the evidence; Eigen and the C++ front ends are trusted."
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: contracts are sidecar files in /verif/contracts and harnesses compiled against /repo's sources. 23 fix: commits in /repo, listed in known-findings.txt."}
for p in props:
    if p["id"] in NA: continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 tools/check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p["id"],
                        "technique": TECH, "level": "proof", "level_note": note(p["id"])})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
