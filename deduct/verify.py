"""verify one contract: python3-vt verify.py ID [-v]"""
import sys, os, time, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cppast, logic, spec, symex, eigen
from values import Unsupported
sys.modules.setdefault("spec", spec)


def setup():
    P = cppast.load()
    spec.REG.load()
    return P, spec.Lib(P, spec.REG)


def run(P, lib, con, func, verbose=False, tmo=None, part=(0, 1), only=None):
    """part (p, k): discharge only the p-th of k shares of the obligations"""
    t0 = time.time()
    logic.HALF.clear(); logic.HALF.update(con.half)
    pr = logic.Prover(tmo=tmo or con.tmo or 6000)
    X = symex.Executor(P, lib.byqual, spec.REG.invs, pr, lib)
    out = {"id": con.id, "function": func.qual, "demangled": func.demangled, "line": func.node.line, "props": con.props, "obligations": 0, "discharged": 0,
           "undischarged": [], "refuted": [], "unsupported": "", "kinds": {}}
    for k in list(logic.STAT): logic.STAT[k] = 0 if not isinstance(logic.STAT[k], dict) else {}
    try:
        obs = X.verify(func, con)
    except Unsupported as e:
        out["unsupported"] = str(e); obs = []
        if verbose:
            import traceback; print("".join(traceback.format_exc().splitlines(True)[-8:]))
    except RecursionError as e:
        out["unsupported"] = "recursion"; obs = []
    except Exception as e:
        out["unsupported"] = "%s: %s" % (type(e).__name__, str(e)[:200]); obs = []
        if verbose:
            import traceback; traceback.print_exc()
    seen = {}
    out["total"] = len(obs)
    for i, o in enumerate(obs):
        if i % part[1] != part[0] or (only is not None and o.name not in only): continue
        out["obligations"] += 1
        out["kinds"][o.kind] = out["kinds"].get(o.kind, 0) + 1
        if o.kind == "trivial": out["discharged"] += 1; continue
        try: r = pr.prove(o.hyps, o.goal)
        except Unsupported as e: r = ("unknown", "unsupported in a clause: %s" % e)
        except Exception as e:
            r = ("unknown", "%s: %s" % (type(e).__name__, str(e)[:200]))
            if verbose:
                import traceback; traceback.print_exc()
        if verbose: print("  %-9s %-6s %s  path=%s%s" % (r[0], o.kind, o.name, "".join("T" if b else "F" for b in o.key[0]), ("   " + r[1][:400]) if r[0] != "proved" else ""))
        if r[0] == "proved": out["discharged"] += 1
        elif r[0] == "refuted": out["refuted"].append({"obligation": o.name, "kind": o.kind, "why": r[1][:600]})
        else: out["undischarged"].append({"obligation": o.name, "kind": o.kind, "why": r[1][:200]})
    # vacuity: some path that returns must have hypotheses from which false does not follow
    out["vacuous"] = False
    ends = getattr(X, "ends", [])
    if out["obligations"] and ends and part[0] == 0 and only is None:
        keep = pr.tmo; pr.tmo = 1500
        out["vacuous"] = True
        for e in sorted(ends, key=len)[:6]:
            try: r = pr.prove(e, logic.FALSE, quick=True)
            except Exception: r = ("unknown", "")
            if r[0] != "proved": out["vacuous"] = False; break
        pr.tmo = keep
    out["paths"] = X.npaths if hasattr(X, "npaths") else 0
    out["returns"] = X.kinds if hasattr(X, "kinds") else {}
    out["uses"] = sorted(X.used); out["entered"] = sorted(X.inlined)
    out["ext"] = sorted(eigen.OPS)
    out["stat"] = {k: v for k, v in logic.STAT.items() if not isinstance(v, dict)}
    out["s"] = round(time.time() - t0, 2)
    return out


if __name__ == "__main__":
    P, lib = setup()
    v = "-v" in sys.argv
    for pat in [a for a in sys.argv[1:] if not a.startswith("-")]:
        for con in spec.REG.cons:
            if con.abstract or con.trusted or pat not in con.id: continue
            fs = lib.targets(con)
            if not fs: print("NO FUNCTION for", con.id)
            for f in fs:
                print("==", con.id, f.demangled[:120])
                r = run(P, lib, con, f, v)
                print("   obligations %d discharged %d refuted %d undischarged %d paths %s %s  %.1fs %s" % (r["obligations"], r["discharged"], len(r["refuted"]), len(r["undischarged"]), r["paths"], r["returns"], r["s"], "UNSUPPORTED " + r["unsupported"] if r["unsupported"] else ""))
                if not v:
                    for u in r["refuted"]: print("     REFUTED", u["obligation"], u["kind"], u["why"][:300])
                    for u in r["undischarged"]: print("     OPEN", u["obligation"], u["kind"], u["why"][:200])
