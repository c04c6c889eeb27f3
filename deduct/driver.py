"""driver.py PROPERTY TIER            verify every contract of the property, and every contract those rely on; JSON on stdout
driver.py --baseline               verify all contracts and rewrite contracts/baseline.json
Run with python3-vt."""
import sys, os, time, json, hashlib, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cppast, spec, verify, logic, symex
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.path.join(VERIF, "contracts", "baseline.json")
JOBS = min(8, os.cpu_count() or 8)


def ser(n, out, ids):
    """text of a tree without positions and comments"""
    if n is None: out.append("~"); return
    if n.k == "FullComment": return
    ref = getattr(n, "ref", None)
    out.append("(%s|%s|%s|%s|%s|%s" % (n.k, getattr(n, "name", None), getattr(n, "op", None), getattr(n, "val", None), n.ty, ref[1:] if ref else None))
    if n.x: out.append(str(sorted((k, v) for k, v in n.x.items() if isinstance(v, (str, bool, int)))))
    for k in n.kids: ser(k, out, ids)
    out.append(")")


def fhash(f):
    out = []; ser(f.node, out, {})
    import re
    s = re.sub(r"0x[0-9a-f]+", "", "".join(out))
    s = re.sub(r"lambda at [^)]*\)", "lambda)", s)
    return hashlib.sha256(s.encode()).hexdigest()[:16]


def locals_of(f):
    out = [p.name for p in f.params]
    def w(k):
        if k is None or k.k == "LambdaExpr": return
        if k.k == "VarDecl": out.append(k.name)
        for c in k.kids: w(c)
    w(f.body)
    return out


def loop_kinds(f):
    """kind of every loop and the local variable (by number) its step changes"""
    if f.body is None: return []
    loc = locals_of(f); out = []
    for l in symex.loops_in(f.body):
        v = ""
        if l.k == "ForStmt":
            inc = l.kids[-2] if len(l.kids) >= 2 else None
            def w(k):
                if k is None: return None
                r = getattr(k, "ref", None)
                nm = getattr(k, "name", None) or (r[2] if r and len(r) > 2 else None)
                if k.k == "DeclRefExpr":
                    for x in (getattr(k, "name", None),) + tuple(r or ()):
                        if x in loc: return loc.index(x)
                for c in k.kids:
                    x = w(c)
                    if x is not None: return x
                return None
            x = w(inc); v = "" if x is None else ":%d" % x
        out.append(l.k + v)
    return out


def key(con, f): return con.id + " @ " + f.mangled


G = {}


def work(a):
    ci, m, tmo, base, part, only = a
    con, f = spec.REG.cons[ci], G["P"].funcs[m]
    G["lib"].baseline = base
    r = verify.run(G["P"], G["lib"], con, f, tmo=tmo, part=part, only=only)
    fs = [f] + [g for g in G["P"].funcs.values() if g.qual in set(r["entered"])]
    r["hash"] = hashlib.sha256("".join(sorted(fhash(g) for g in fs)).encode()).hexdigest()[:16]
    r["locals"] = locals_of(f); r["loops"] = loop_kinds(f); r["key"] = key(con, f); r["ci"] = ci; r["m"] = m
    return r


def merge(rs):
    """the shares of one contract put together"""
    rs = sorted([r for r in rs if r is not None], key=lambda r: r["kinds"] == {})
    r = dict(rs[0])
    if len(rs) == 1: return r
    for k in ("obligations", "discharged", "s"): r[k] = sum(x[k] for x in rs)
    for k in ("undischarged", "refuted"): r[k] = sum((x[k] for x in rs), [])
    for k in ("uses", "entered", "ext"): r[k] = sorted(set().union(*[x[k] for x in rs]))
    r["kinds"] = {k: sum(x["kinds"].get(k, 0) for x in rs) for k in set().union(*[x["kinds"] for x in rs])}
    r["stat"] = {k: sum(x["stat"].get(k, 0) for x in rs) for k in rs[0]["stat"]}
    r["vacuous"] = any(x["vacuous"] for x in rs); r["s"] = round(r["s"], 2)
    r["unsupported"] = next((x["unsupported"] for x in rs if x["unsupported"]), "")
    if len({x["total"] for x in rs}) > 1: r["unsupported"] = r["unsupported"] or "the shares disagree on the number of obligations"
    return r


def closure(pred, base, tmo=None, secs=600, redo=True):
    P, lib = G["P"], G["lib"]
    t0 = time.time()
    byid = {}
    for i, c in enumerate(spec.REG.cons): byid.setdefault(c.id, []).append(i)
    done, todo, results, missing, assumed = set(), [i for i, c in enumerate(spec.REG.cons) if pred(c) and not c.abstract and not c.trusted], [], [], set()
    ctx = mp.get_context("fork")
    left = lambda: max(5, secs - (time.time() - t0))
    with ctx.Pool(JOBS, maxtasksperchild=4) as pool:
        while todo:
            jobs = []
            for i in todo:
                if i in done: continue
                done.add(i); c = spec.REG.cons[i]
                ts = lib.targets(c)
                if not ts: missing.append(c.id)
                for f in ts:
                    k = min(8, int(base.get(key(c, f), {}).get("s", 1) // 20) + 1)     # the obligations of slow ones in shares
                    jobs += [(i, f.mangled, tmo, base, (p, k), None) for p in range(k)]
            # slow ones first
            jobs.sort(key=lambda j: -(base.get(key(spec.REG.cons[j[0]], P.funcs[j[1]]), {}).get("s", 1)))
            pend = [(j, pool.apply_async(work, (j,))) for j in jobs]
            new = []; parts = {}
            for j, h in pend:
                try:
                    r = h.get(left())
                    parts.setdefault((j[0], j[1]), []).append(r)
                    if len(parts[(j[0], j[1])]) < j[4][1]: continue
                    r = merge(parts[(j[0], j[1])])
                except mp.TimeoutError:
                    parts.setdefault((j[0], j[1]), []).append(None)
                    if len(parts[(j[0], j[1])]) > 1 and None in parts[(j[0], j[1])][:-1]: continue
                    c, f = spec.REG.cons[j[0]], P.funcs[j[1]]
                    r = {"id": c.id, "function": f.qual, "demangled": f.demangled, "line": 0, "props": c.props, "obligations": 0, "discharged": 0, "undischarged": [], "refuted": [],
                         "unsupported": "no answer in time", "uses": [], "entered": [], "ext": [], "stat": {}, "s": secs, "hash": "", "locals": [], "loops": [], "key": key(c, f), "ci": j[0], "m": j[1], "paths": 0, "returns": {}, "kinds": {}, "vacuous": False}
                results.append(r); new += r["uses"]
            todo = []
            for u in set(new):
                for i in byid.get(u, []):
                    c = spec.REG.cons[i]
                    if c.abstract or c.trusted: assumed.add(c.id)
                    elif i not in done: todo.append(i)
        pool.terminate()
    return results, missing, sorted(assumed)


def main():
    t0 = time.time()
    logic_ok = True
    base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    G["P"], G["lib"] = verify.setup()
    t_load = time.time() - t0
    if sys.argv[1] == "--baseline":
        pats = sys.argv[2:]
        res, missing, assumed = closure(lambda c: not pats or any(p in c.id for p in pats), base, secs=3000)
        new = {} if not pats else dict(base)
        for r in sorted(res, key=lambda r: r["key"]):
            new[r["key"]] = {"hash": r["hash"], "obligations": r["obligations"], "discharged": r["discharged"], "open": sorted(u["obligation"] for u in r["refuted"] + r["undischarged"]),
                             "unsupported": r["unsupported"], "locals": r["locals"], "loops": r["loops"], "s": r["s"]}
            flag = "" if r["obligations"] and r["obligations"] == r["discharged"] else "   <<<<<"
            if r["vacuous"]: flag += "  VACUOUS"
            print("%-70s %3d/%-3d %6.1fs %s%s" % (r["id"][:70], r["discharged"], r["obligations"], r["s"], r["unsupported"][:100], flag))
        json.dump(new, open(BASE, "w"), indent=0, sort_keys=True)
        print("contracts %d obligations %d discharged %d missing %s  %.0fs" % (len(res), sum(r["obligations"] for r in res), sum(r["discharged"] for r in res), missing, time.time() - t0))
        return
    prop, tier = sys.argv[1], sys.argv[2]
    res, missing, assumed = closure(lambda c: prop in c.props, base, secs=600 if tier == "thorough" else 360, tmo=None)
    # a second, longer try for what does not go through and went through before
    again = []
    for r in res:
        b = base.get(r["key"])
        if (r["refuted"] or r["undischarged"]) and b and not b["open"]: again.append(r)
    if again and time.time() - t0 < 400:
        ctx = mp.get_context("fork")
        with ctx.Pool(JOBS) as pool:
            names = lambda r: {u["obligation"] for u in r["refuted"] + r["undischarged"]}
            hs = [(r, pool.apply_async(work, ((r["ci"], r["m"], 20000, base, (0, 1), names(r)),))) for r in again]
            for r, h in hs:
                try: n = h.get(max(5, 520 - (time.time() - t0)))
                except mp.TimeoutError: continue
                if n["unsupported"]: continue
                r["refuted"], r["undischarged"] = n["refuted"], n["undischarged"]
                r["discharged"] = r["obligations"] - len(n["refuted"]) - len(n["undischarged"]); r["s"] += n["s"]
            pool.terminate()
    out = {"obligations": 0, "discharged": 0, "functions": [], "solver_s": 0.0, "undischarged": [], "unsupported": [], "refuted": [], "vacuity": [], "trusted": [], "assumptions": []}
    ext = set(); calls = {"z3_calls": 0, "cvc5_calls": 0}
    for r in sorted(res, key=lambda r: r["id"]):
        b = base.get(r["key"]) or {}
        changed = r["hash"] != b.get("hash")
        out["obligations"] += r["obligations"]; out["discharged"] += r["discharged"]
        st = r["stat"]; out["solver_s"] += st.get("z3_s", 0) + st.get("cvc5_s", 0)
        for k in calls: calls[k] += st.get(k, 0)
        ext |= set(r["ext"])
        out["functions"].append({"contract": r["id"], "function": r["demangled"][:160], "obligations": r["obligations"], "discharged": r["discharged"], "paths": r["paths"],
                                 "entered": r["entered"], "uses": r["uses"], "s": r["s"], "own": prop in r["props"]})
        if r["unsupported"]: out["unsupported"].append({"contract": r["id"], "why": r["unsupported"]})
        if r["vacuous"]: out["vacuity"].append(r["id"] + ": contradictory hypotheses")
        for u in r["undischarged"] + r["refuted"]:
            rec = {"function": r["id"], "obligation": u["obligation"], "why": u["why"], "kind": u["kind"], "source_changed": changed}
            fits = b.get("loops") == r["loops"]
            if changed and b and fits and u["obligation"] not in b.get("open", []) and not b.get("unsupported"):
                rec["why"] = "obligation \"%s\" of %s (%s) is not discharged on the current source: %s" % (u["obligation"], r["id"], r["demangled"], u["why"])
                rec["verifier_output"] = u["why"]
                out["refuted"].append(rec)
            else: out["undischarged"].append(rec)
    for m in missing: out["unsupported"].append({"contract": m, "why": "no such function in the current source"})
    out["backends"] = {"z3 (linearised instances, in process)": calls["z3_calls"], "cvc5/z3 command line (nonlinear)": calls["cvc5_calls"]}
    out["solver_s"] = round(out["solver_s"], 1)
    out["trusted"] = ["semantics of the Eigen / standard-library operations used, given in deduct/eigen.py: " + ", ".join(sorted(ext))] + \
        ["contract of a virtual or external function, assumed at its calls: " + a for a in assumed]
    out["wall_s"] = round(time.time() - t0, 1); out["load_s"] = round(t_load, 1)
    print(json.dumps(out))


if __name__ == "__main__":
    main()
