"""runs the deductive verifier (deduct/driver.py) for one property"""
import json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASSUME = [
    "deductive engine: double and int are mathematical reals and integers (unsigned subtraction wraps as in C++ unless shown not to); no rounding, overflow or NaN",
    "deductive engine: an Eigen expression is evaluated where it stands; Eigen / standard-library operations have the meaning given in deduct/eigen.py",
    "deductive engine: a moved-from object holds arbitrary values; destructors do nothing observable; printing does nothing",
    "deductive engine: termination is not part of the obligations (checked by execution only)",
    "deductive engine: division by a real zero is not an obligation of its own (contracts state where lengths are positive)",
]


def run(prop, tier):
    r = subprocess.run(["python3-vt", os.path.join(VERIF, "deduct", "driver.py"), prop, tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=700 if tier != "thorough" else 1500)
    try: out = json.loads(r.stdout.decode().strip().splitlines()[-1])
    except Exception: raise RuntimeError("driver: " + r.stderr.decode("utf8", "replace")[-800:])
    out["assumptions"] = ASSUME
    lp = os.path.join(VERIF, "deduct", "lemmas.py")
    out["lemmas"] = []
    if os.path.exists(lp):
        l = subprocess.run(["python3-vt", lp, "--json"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        out["lemmas"] = json.loads(l.stdout.decode().strip().splitlines()[-1])
    return out


if __name__ == "__main__":
    print(json.dumps(run(sys.argv[1], os.environ.get("VERIF_TIER", "quick")), indent=1)[:6000])
