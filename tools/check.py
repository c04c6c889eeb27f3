#!/usr/bin/env python3
"""check.py PROPERTY  - decides one property on /repo's current working tree.
exit 0: held;  exit 1 + VIOLATION line: broken."""
import concurrent.futures as cf, json, os, re, subprocess, sys, time, traceback, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import VERIF, REPO
JOBS = vbuild.JOBS
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
PENV = dict(os.environ, MALLOC_PERTURB_="1", OMP_NUM_THREADS="1")


def call(exe, args, timeout, tries=1):
    t0 = time.time()
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=PENV)
    except subprocess.TimeoutExpired:
        return {"status": "timeout", "secs": time.time() - t0}
    out = r.stdout.decode("utf8", "replace").strip().splitlines()
    res = None
    if out:
        try: res = json.loads(out[-1])
        except Exception: res = None
    if res is None:
        return {"status": "crash", "rc": r.returncode, "err": r.stderr.decode("utf8", "replace")[-1500:], "secs": time.time() - t0}
    res["status"] = "ok"; res["rc"] = r.returncode; res["secs"] = time.time() - t0
    return res


def load_known():
    out = []
    p = VERIF + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) label=/(.*?)/ (.*)", l.strip())
            if m: out.append({"property": m.group(1), "harness": m.group(2), "label": re.compile(m.group(3)), "what": m.group(4)})
    return out


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.violations = []   # dicts
        self.known = {}
        self.notes = []
        self.samples = []
        self.knownlist = [k for k in load_known() if k["property"] == prop]
        self.proof = None

    def is_known(self, harness, label):
        for k in self.knownlist:
            if k["harness"] == harness and k["label"].search(label):
                self.known[k["what"]] = True
                return True
        return False

    def replay_file(self, data):
        d = VERIF + "/evidence/replay"
        os.makedirs(d, exist_ok=True)
        name = "%s_%s.json" % (self.prop, hashlib.sha256(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10])
        p = d + "/" + name
        with open(p, "w") as f:
            json.dump(data, f, indent=1, default=str)
        return p

    # ---------------- executable contracts (bounded in shape, all real values) + plain replay
    def executable(self, directed=()):
        b = vbuild.build([self.prop])
        self.build = b
        if b["plain"] is None:
            # the library itself does not build: nothing to decide
            self.notes.append("plain build failed: " + str(b["plain_error"])[:400])
            return
        if b["sym"] is None:
            self.notes.append("real-arithmetic build failed, only the plain build was run: " + str(b["sym_error"])[:400])
        lst = subprocess.run([b["plain"], "--list"], stdout=subprocess.PIPE, env=PENV).stdout.decode().splitlines()
        regs = [json.loads(l) for l in lst]
        regs = [r for r in regs if r["prop"] == self.prop]
        thorough = TIER == "thorough"
        jobs = []
        for r in regs:
            shapes = r["quick"] + (r["thorough"] if thorough else [])
            for s in shapes:
                if b["sym"] and not s.startswith("plain"):
                    jobs.append(("sym", r, s, ["--run", self.prop, r["name"], s, "--n", "3000" if thorough else "250",
                                               "--secs", "300" if thorough else "25", "--tmo", "2000" if thorough else "300", "--seed", str(SEED)],
                                 900 if thorough else 60))
            n = 400 if thorough else 40
            for s in r["quick"] + r["thorough"]:
                jobs.append(("plain", r, s, ["--run", self.prop, r["name"], s, "--n", str(n), "--seed", str(SEED)], 120))
            for s in r["plain"]:
                jobs.append(("plain", r, s, ["--run", self.prop, r["name"], s, "--n", str(max(6, n // 6)), "--seed", str(SEED)], 120))
        jobs.sort(key=lambda j: 0 if j[0] == "sym" else 1)
        self.sym = {"runs": 0, "obligations": 0, "discharged": 0, "paths": 0, "z3_calls": 0, "z3_s": 0.0, "truncated": 0, "undecided": [], "nodes": 0, "z3_unknown": 0}
        self.plain = {"runs": 0, "obligations": 0, "evaluations": 0}
        self.contracts = sorted(set(r["name"] for r in regs))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            results = list(ex.map(lambda j: call(b[j[0]], j[3], j[4]), jobs))
        pending = []
        for (mode, r, shape, args, tmo), res in zip(jobs, results):
            name = r["name"]
            if mode == "sym":
                if res["status"] != "ok":
                    self.sym["undecided"].append("%s[%s]: %s" % (name, shape, res["status"])); continue
                self.sym["runs"] += 1
                for k in ("obligations", "discharged", "paths", "z3_calls", "z3_s", "truncated", "nodes", "z3_unknown"):
                    self.sym[k] += res.get(k, 0)
                for f in res["failures"]:
                    if f["label"] == "engine":
                        self.sym["undecided"].append("%s[%s]: %s" % (name, shape, f["why"][:200])); continue
                    pending.append((r, shape, f))
                if len(self.samples) < 4 and res["obligations"]:
                    self.samples.append({"contract": name, "shape": shape, "paths": res["paths"], "obligations": res["obligations"]})
            else:
                self.plain["runs"] += 1
                if res["status"] == "timeout":
                    res = call(b["plain"], args, 3 * tmo)
                if res["status"] == "timeout":
                    self.add_violation(name, shape, "terminates", "the call did not return within %d s" % tmo, {"args": args}, True)
                elif res["status"] == "crash":
                    self.add_violation(name, shape, "no failure inside the code", "process ended with status %s: %s" % (res["rc"], res["err"][-400:]), {"args": args}, True)
                else:
                    self.plain["obligations"] += res["obligations"]; self.plain["evaluations"] += res["evaluations"]
                    for f in res["failures"]:
                        self.add_violation(name, shape, f["label"], f["why"], {"input": f["model"], "args": args}, True)
        for r, shape, f in pending[:12]:
            name = r["name"]
            if any(v["harness"] == name for v in self.violations) or self.is_known(name, f["label"]):
                continue
            rep = None
            if f["model"] is not None:
                args = ["--run", self.prop, name, shape, "--n", "1"]
                for k, v in f["model"].items(): args += ["--set", k, repr(v)]
                rr = call(b["plain"], args, 60)
                if rr["status"] == "ok" and not rr["failures"]:  # a certain violation over the reals may be small: look closer
                    rr = call(b["plain"], args + ["--tol", "1e-9"], 60)
                if rr["status"] in ("crash", "timeout"):
                    rep = ("no failure inside the code", "process ended: %s" % (rr.get("rc")), {"input": f["model"]})
                elif rr["failures"]:
                    g = rr["failures"][0]; rep = (g["label"], g["why"], {"input": f["model"]})
            if rep is None:
                for sd in range(1, 9):
                    rr = call(b["plain"], ["--run", self.prop, name, shape, "--n", "400", "--seed", str(SEED + 100 + sd)], 60)
                    if rr["status"] == "ok" and rr["failures"]:
                        g = rr["failures"][0]; rep = (g["label"], g["why"], {"input": g["model"]}); break
                    if rr["status"] == "crash":
                        rep = ("no failure inside the code", "process ended: %s %s" % (rr.get("rc"), rr.get("err", "")[-300:]), {"seed": SEED + 100 + sd}); break
            if rep:
                self.add_violation(name, shape, rep[0], rep[1], dict(rep[2], symbolic=f), True)
            elif not f.get("certain", True):
                self.sym["undecided"].append("%s[%s]: %s: not reproduced and the path condition is not decided exactly: %s" % (name, shape, f["label"], f["why"][:200]))
            else:
                self.add_violation(name, shape, f["label"], f["why"], {"symbolic": f}, False)

    # ---------------- the same property through the Python package
    def python(self):
        script = VERIF + "/harness/%s_python.py" % self.prop
        if not os.path.exists(script): return
        try:
            d = vbuild.build_python()
        except vbuild.BuildError as e:
            self.notes.append("Python bindings do not build: " + str(e)[:300]); return
        env = dict(PENV, PYTHONPATH=REPO + "/python:" + d, PYTHONDONTWRITEBYTECODE="1")
        args = [str(SEED), "300" if TIER == "thorough" else "60"]
        try:
            r = subprocess.run(["/usr/bin/python3", script] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=env)
            res = json.loads(r.stdout.decode().strip().splitlines()[-1])
        except subprocess.TimeoutExpired:
            self.notes.append("Python contracts: no answer in time"); return
        except Exception:
            err = r.stderr.decode("utf8", "replace")[-600:]
            self.add_violation("python", "", "no failure inside the code", "the interpreter ended with status %s: %s" % (r.returncode, err), {"python": [script] + args}, True); return
        self.plain["runs"] += 1
        for k in ("obligations", "evaluations"): self.plain[k] += res[k]
        for f in res["failures"]:
            self.add_violation("python", "", f["label"], f["why"], {"python": [script] + args, "input": f["input"]}, True)

    def add_violation(self, harness, shape, label, why, data, concrete):
        if self.is_known(harness, label):
            return
        self.violations.append({"harness": harness, "shape": shape, "label": label, "why": why, "data": data, "concrete": concrete})

    def run(self):
        try:
            import prove
            self.proof = prove.run(self.prop, TIER)
        except ImportError:
            self.proof = None
        except Exception:
            self.notes.append("deductive engine: internal error " + traceback.format_exc()[-800:])
            self.proof = None
        self.executable()
        if getattr(self, "plain", None): self.python()
        self.finish()

    def finish(self):
        sym = getattr(self, "sym", None) or {}
        plain = getattr(self, "plain", None) or {}
        pr = self.proof
        if pr:
            for f in pr["refuted"]:
                if self.is_known(f["function"], f["obligation"]): continue
                if any(v["concrete"] for v in self.violations): continue
                self.violations.append({"harness": f["function"], "shape": "", "label": f["obligation"], "why": f["why"], "data": f, "concrete": False})
        vac = []
        if plain.get("evaluations", 0) == 0 and not self.violations: vac.append("no plain evaluation ran")
        for w in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        cov = {}
        cov["obligations"] = (pr["obligations"] if pr else 0) + sym.get("obligations", 0)
        cov["discharged"] = (pr["discharged"] if pr else 0) + sym.get("discharged", 0)
        cov["checker_cmd"] = "python3 tools/check.py %s" % self.prop
        cov["trusted_base"] = (pr["trusted"] if pr else []) + [
            "g++ 13 / clang 18 front ends, z3 4.8.12 (path feasibility, deductive obligations)",
            "real-arithmetic runtime engine/sym (identity of terms decided by evaluation modulo 61-bit primes at independent random points)"]
        if pr:
            cov["deductive"] = {k: pr[k] for k in ("obligations", "discharged", "functions", "solver_s", "backends", "undischarged", "unsupported", "lemmas", "vacuity")}
        cov["bounded_executable_contracts"] = {"label": "bounded: every feasible path and all real input values, for the listed sizes only; not counted as proved for other sizes",
                                               "contracts": getattr(self, "contracts", []), **sym}
        cov["plain_replay"] = dict(plain, note="same contracts on the unmodified double build, sampled inputs incl. larger sizes")
        cov["evaluations"] = plain.get("evaluations", 0) + sym.get("paths", 0)
        cov["samples"] = self.samples
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": "proof", "coverage": cov,
              "assumptions": (pr["assumptions"] if pr else []) + [
                  "double treated as mathematical real (rounding, overflow, NaN not modelled); literals read as their shortest decimal, or as the nearest small rational / square root",
                  "Eigen::SparseLU solves a regular system exactly (real-arithmetic build)",
                  "Legendre-Gauss-Lobatto node iteration returns the nodes (real-arithmetic build only; checked numerically in C15)"] + self.notes,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        lines = []
        conc = [v for v in self.violations if v["concrete"]]
        for v in (conc or self.violations)[:3]:
            p = self.replay_file({"property": self.prop, "function_or_contract": v["harness"], "shape": v["shape"], "obligation": v["label"], "why": v["why"],
                                  "how_to_replay": "python3 tools/replay.py <this file>", **v["data"]})
            lines.append("VIOLATION property=%s replay=%s%s" % (self.prop, p, "" if v["concrete"] else " no-failing-input-found"))
            print("  %s[%s]: %s: %s" % (v["harness"], v["shape"], v["label"], v["why"][:400]))
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for l in lines: print(l)
        for n in self.notes + vac: print("note:", n[:600])
        print("%s: %s  deductive %s/%s  bounded %s/%s over %s paths  plain %s evaluations  %.1fs" % (
            self.prop, "VIOLATED" if self.violations else "held", pr["discharged"] if pr else 0, pr["obligations"] if pr else 0,
            sym.get("discharged"), sym.get("obligations"), sym.get("paths"), plain.get("evaluations"), time.time() - self.t0))
        if sym.get("undecided"): print("undecided:", sym["undecided"][:6])
        sys.stdout.flush()
        os._exit(1 if self.violations else 2 if vac else 0)


if __name__ == "__main__":
    c = Check(sys.argv[1])
    c.run()
