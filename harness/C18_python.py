# C18 through the Python package: what serialization writes, it reads back.
# Runs /repo/python/gsplines with bindings built from /repo.
import json, random, sys
import numpy as np
import gsplines, gsplines.serialization as S
rnd = random.Random(int(sys.argv[1])); count = int(sys.argv[2])
res = {"obligations": 0, "discharged": 0, "evaluations": 0, "failures": []}
def req(c, label, ctx):
    res["obligations"] += 1
    if c: res["discharged"] += 1
    elif len(res["failures"]) < 5: res["failures"].append({"label": label, "why": "required condition is false", "input": ctx})
def arr(n, lo=-2.0, hi=2.0): return [rnd.uniform(lo, hi) for _ in range(n)]
def close(a, b): return np.allclose(np.array(a), np.array(b), rtol=1e-9, atol=1e-9)
for it in range(count):
    kind = it % 3; dim = [rnd.randint(2, 7), rnd.randint(2, 6), 6][kind]
    params = [[], sorted(rnd.sample([i / 16.0 - 1 for i in range(33)], dim)), [rnd.uniform(0.2, 0.9)]][kind]
    name = ["legendre", "lagrange", "basis0101"][kind]; N = rnd.randint(1, 4); D = rnd.randint(1, 3)
    t0 = rnd.choice([0.0, rnd.uniform(-3, 3)]); tau = arr(N, 0.3, 2.0); c = arr(N * D * dim); ctx = dict(name=name, dim=dim, params=params, N=N, D=D, t0=t0, tau=tau, c=c)
    try:
        b = gsplines.basis.get_basis(name, dim, params)
        d = json.loads(json.dumps(S.basis_to_dict(b)))
        req(d["name"] == name and d["dim"] == dim and close(d["parameters"], params), "basis_to_dict holds the name, dimension and parameters", ctx)
        b2 = S.dict_to_basis(d); req(b == b2 and b2 == b, "basis read back is equal", ctx)
        g = gsplines.GSpline((t0, t0 + sum(tau)), D, N, b, c, tau, "gspline")
        e = json.loads(json.dumps(S.gspline_to_dict(g)))
        req(close([e["domain_left_boundary"], e["domain_right_boundary"]], [t0, t0 + sum(tau)]), "domain in the dictionary", ctx)
        req(e["codom_dim"] == D and e["number_of_intervals"] == N and close(e["coefficients"], c) and close(e["interval_lengths"], tau), "sizes and data in the dictionary", ctx)
        r = S.dict_to_gspline(e)
        req(g == r and r == g, "spline read back is equal", ctx)
        ts = np.array([t0 + sum(tau) * x for x in (0.0, 0.13, 0.37, 0.5, 0.71, 0.99, 1.0)])
        req(close(g(ts), r(ts)) and close(r.get_domain(), g.get_domain()) and close(r.deriv()(ts), g.deriv()(ts)), "values of the spline read back", ctx)
        req(close(r.get_coefficients(), c) and close(r.get_interval_lengths(), tau) and r.get_codom_dim() == D and r.get_number_of_intervals() == N, "data of the spline read back", ctx)
        again = json.loads(json.dumps(S.gspline_to_dict(r))); req(again == e, "written again, the dictionary is the same", ctx)
        # a dictionary with a missing or mistyped entry is refused
        for k in e:
            for bad in ("missing", "type"):
                f = dict(e)
                if bad == "missing": del f[k]
                else: f[k] = object()
                try: S.dict_to_gspline(f); ok = False
                except TypeError: ok = True
                req(ok, "a dictionary with %s entry %s is refused" % (bad, k), ctx)
        for k in d:
            f = dict(d); del f[k]
            try: S.dict_to_basis(f); ok = False
            except TypeError: ok = True
            req(ok, "a basis dictionary without %s is refused" % k, ctx)
    except Exception as ex:
        req(False, "no failure inside the code: %s: %s" % (type(ex).__name__, ex), ctx)
    res["evaluations"] += 1
print(json.dumps(res))
