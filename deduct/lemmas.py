"""checks Lemmas.lean with the Lean kernel: python3 lemmas.py [--json]"""
import json, os, re, subprocess, sys, time
F = os.path.join(os.path.dirname(os.path.abspath(__file__)), "Lemmas.lean")


def run():
    src = open(F).read(); t0 = time.time()
    names = re.findall(r"^theorem (\S+)", src, re.M)
    code = re.sub(r"/-.*?-/", "", re.sub(r"--.*", "", src), flags=re.S)
    try:
        r = subprocess.run(["lean", F], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=250)
        out = r.stdout.decode("utf8", "replace"); ok = r.returncode == 0 and "error" not in out and "sorry" not in out
    except (OSError, subprocess.TimeoutExpired) as e: out, ok = str(e), False
    bad = re.findall(r"\b(sorry|axiom|native_decide|admit)\b", code)
    return {"backend": "Lean 4 kernel, Mathlib", "ok": ok and not bad, "lemmas": names, "proved": len(names) if ok and not bad else 0, "s": round(time.time() - t0, 1), "output": out[-400:] if not ok else ""}


if __name__ == "__main__":
    r = run()
    print(json.dumps(r) if "--json" in sys.argv else "%d lemmas, %s, %.1f s\n%s" % (len(r["lemmas"]), "all proved" if r["ok"] else "NOT proved", r["s"], r["output"]))
