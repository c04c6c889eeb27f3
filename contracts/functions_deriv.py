"""Contracts of the derivatives of functions (C11) and of the elementary functions (C10, C11)."""
from spec import *
from contracts_gspline import *
import contracts_functions as F
from contracts_functions import *


# ---------------------------------------------------------------- derivatives of lists of operands
def dlist(seq, k): return Seq([("one", Fn(DER(p[1].t, k))) if p[0] == "one" else ("part", p[1], lambda i, p=p: Fn(DER(p[2](i).t, k))) for p in seq.parts])


def deriv_ens(ty):
    def f(c):
        m = meaning(c.X, ty, dlist(c.oa(0), c.oa(1)))
        s = c.oa(0); f0, f1 = s.at(0).t, last_of(s).t
        return {"value": pointwise(c, c.res, m), "domain": And(dom0(c, c.res) == DOM0(f0), dom1(c, c.res) == DOM1(f1 if ty == CONC else f0)), "codomain": cod(c, c.res) == COD(f0), "exact domains": exact(c, c.res)}
    return f


def map_inv(c):
    s, r, k = c.a(0), c.v("result_array"), c.a(1)
    d = {"range": And(0 <= c.idx, c.idx <= s.len()), "length": r.len() == c.idx}
    if r.parts: d["derivatives so far"] = All(["I"], lambda i: Implies(And(0 <= i, i < c.idx), And(r.at(i).t == DER(s.at(i).t, k), der_facts(s.at(i).t, k))))
    return d


def dom_req(ty):
    def f(c):
        r, cd = list_ok(c, ty)
        s = c.a(0)
        return r + ([DOM0(s.at(0).t) <= DOM1(last_of(s).t)] if ty == CONC else [])
    return f


for ty in (SUM, CONC, UNI, NEG):
    contract(FN + DERS[ty], 2, props=["C11"], requires=dom_req(ty), ensures=deriv_ens(ty), loops=[map_inv] if ty in (SUM, CONC) else [])


# ---------------------------------------------------------------- product rule
ONE = IntVal(1)


def leibniz(s, m, t, j):
    """term of the m-th factor in the derivative of the product of the list"""
    n = s.len(); v = lambda f, x, q: VAL(f.t, x, q)
    return If(m == 0, VAL(DER(s.at(0).t, ONE), t, j) * Prod(simp(n - 1), lambda q: v(s.at(simp(q + 1)), t, Z)),
              v(s.at(0), t, j) * Prod(simp(n - 2), lambda q: VAL(If(q + 1 < m, s.at(simp(q + 1)).t, s.at(simp(q + 2)).t), t, Z)) * VAL(DER(s.at(m).t, ONE), t, Z))


def dm_first(c):
    s, e, k = c.a(0), c.v("elem_array_1"), c.v("it_2").idx
    d = {"range": And(1 <= k, k <= s.len()), "length": e.len() == k}
    if e.parts: d["factors so far"] = [e.at(0).t == DER(s.at(0).t, ONE), All(["I"], lambda i: Implies(And(1 <= i, i < k), e.at(i).t == s.at(i).t))]
    return d


def dm_inner(c):
    s, e, k, m = c.a(0), c.v("elem_array"), c.v("it_2").idx, c.v("it_1").idx
    d = {"range": And(0 <= k, k <= s.len(), 1 <= m, m < s.len()), "length": e.len() == If(k > m, k - 1, k)}
    if e.parts: d["factors so far"] = All(["I"], lambda i: Implies(And(0 <= i, i < e.len()), e.at(i).t == If(i < m, s.at(i).t, s.at(simp(i + 1)).t)))
    return d


def dm_outer(c):
    s, r, k = c.a(0), c.v("result_array"), c.v("it_1").idx
    d = {"range": And(1 <= k, k <= s.len()), "length": r.len() == k}
    if r.parts: d["terms so far"] = [All(["I"], lambda i: Implies(And(0 <= i, i < k), And(COD(r.at(i).t) == COD(s.at(0).t), DOM0(r.at(i).t) == DOM0(s.at(0).t), DOM1(r.at(i).t) == DOM1(s.at(0).t)))),
                                     All(["I", "R", "I"], lambda i, t, j: Implies(And(0 <= i, i < k, 0 <= j, j < COD(s.at(0).t)), VAL(r.at(i).t, t, j) == leibniz(s, i, t, j)), pats=lambda i, t, j: [VAL(r.at(i).t, t, j)])]
    return d


def first_dom(c):
    s = c.oa(0)
    return And(dom0(c, c.res) == DOM0(s.at(0).t), dom1(c, c.res) == DOM1(s.at(0).t))


contract(FN + "first_deriv_mul_functions", 1, props=["C11"], requires=lambda c: list_ok(c, MUL)[0], loops=[dm_first, dm_outer, (dm_inner, None, lambda c: [c.v("elem_array").len() == c.a(0).len() - 1])],
         ensures=lambda c: {"product rule": pointwise(c, c.res, lambda t, j, s=c.oa(0): Sum(s.len(), lambda m: leibniz(s, m, t, j))), "domain": first_dom(c), "exact domains": exact(c, c.res), "codomain": cod(c, c.res) == COD(c.oa(0).at(0).t)})


# ---------------------------------------------------------------- chain rule
def link(s, CH, i, t, j): return VAL(DER(s.at(i).t, ONE), CH(i, t), j)


def dc_inner(c):
    s, e, k, m = c.a(0), c.v("elem_array"), c.v("it_elem").idx, c.v("it").idx
    d = {"range": And(0 <= k, k <= m, m < s.len()), "length": e.len() == k}
    if e.parts: d["functions so far"] = All(["I"], lambda i: Implies(And(0 <= i, i < k), e.at(i).t == s.at(i).t))
    return d


def dc_chain(c):
    """lemma chain-ext: equal lists have equal chains"""
    s, e, m = c.a(0), c.v("elem_array"), c.v("it").idx
    if len(e.parts) != 1 or e.parts[0][0] != "part": return []
    A, B = chain(c.X, s.at), chain(c.X, e.parts[0][2])
    c.X.obligation("premise of chain-ext", All(["I"], lambda i: Implies(And(0 <= i, i < m), e.at(i).t == s.at(i).t)), "step")
    c.X.assume(All(["I", "R"], lambda i, t: Implies(And(0 <= i, i <= m), A(i, t) == B(i, t)), pats=lambda i, t: [B(i, t)]))
    return []


def dc_outer(c):
    s, r, m = c.a(0), c.v("result_array"), c.v("it").idx
    CH = chain(c.X, s.at)
    d = {"range": And(1 <= m, m <= s.len()), "length": r.len() == m}
    if r.parts: d["factors so far"] = [All(["I"], lambda i: Implies(And(0 <= i, i < m), And(COD(r.at(i).t) == COD(s.at(simp(m - 1 - i)).t), DOM0(r.at(i).t) == DOM0(s.at(0).t), DOM1(r.at(i).t) == DOM1(s.at(0).t)))),
                                       All(["I", "R", "I"], lambda i, t, j: Implies(And(0 <= i, i < m, 0 <= j, j < COD(s.at(simp(m - 1 - i)).t)), VAL(r.at(i).t, t, j) == link(s, CH, simp(m - 1 - i), t, j)), pats=lambda i, t, j: [VAL(r.at(i).t, t, j)])]
    return d


def chain_rule(c, s):
    CH = chain(c.X, s.at); n = s.len()
    return lambda t, j: link(s, CH, simp(n - 1), t, j) * Prod(simp(n - 1), lambda q: link(s, CH, simp(n - 2 - q), t, Z))


contract(FN + "first_deriv_compose_functions", 1, props=["C11"], requires=lambda c: list_ok(c, COMP)[0], loops=[dc_outer, (dc_inner, None, dc_chain)],
         ensures=lambda c: {"chain rule": pointwise(c, c.res, chain_rule(c, c.oa(0))), "domain": first_dom(c), "exact domains": exact(c, c.res), "codomain": cod(c, c.res) == COD(last_of(c.oa(0)).t)})


# ---------------------------------------------------------------- derivatives of every order
def same_function(c, a, b, name="same function"):
    """function numbers stand for functions: equal values, domain and codomain give equal numbers (proved, then used)"""
    X = c.X
    X.obligation(name, {"value": All(["R", "I"], lambda t, j: Implies(And(0 <= j, j < COD(b)), VAL(a, t, j) == VAL(b, t, j)), pats=lambda t, j: [VAL(a, t, j), VAL(b, t, j)]),
                        "domain": And(DOM0(a) == DOM0(b), DOM1(a) == DOM1(b)), "codomain": COD(a) == COD(b)}, "step")
    X.assume(a == b)


def calculus(c, f, ty, seq, k):
    """the rules of calculus for the function f that the list stands for (trusted mathematics)"""
    X = c.X
    pt = lambda g: (lambda t, j: [VAL(g, t, j)])
    rng = lambda j: And(0 <= j, j < COD(f))
    X.assume([der_facts(f, k), DER(f, Z) == f, All(["I"], lambda i: Implies(i >= 0, And(DER(DER(f, i), ONE) == DER(f, i + 1), der_facts(f, i))), pats=lambda i: [DER(DER(f, i), ONE)])])
    if ty in (SUM, UNI, NEG, CONC):
        m = meaning(X, ty, dlist(seq, k))
        X.assume(All(["R", "I"], lambda t, j: Implies(rng(j), VAL(DER(f, k), t, j) == m(t, j)), pats=pt(DER(f, k))))
    else:
        m = (lambda t, j: Sum(seq.len(), lambda q: leibniz(seq, q, t, j))) if ty == MUL else chain_rule(c, seq)
        X.assume(All(["R", "I"], lambda t, j: Implies(rng(j), VAL(DER(f, ONE), t, j) == m(t, j)), pats=pt(DER(f, ONE))))


def list_fn(c, ty, seq):
    """the function a list of operands stands for under the type"""
    X = c.X
    p = seq.parts[0]
    k = ("listfn", ty, id(p[2]))
    if k not in X.statics:
        keep, X.guards = X.guards, []
        f = X.fresh("i", "list")
        X.statics[k] = (f, p)
        m = meaning(X, ty, seq)
        l = last_of(seq).t
        X.assume([DOM0(f) == DOM0(seq.at(0).t), DOM1(f) == DOM1(seq.at(0).t), COD(f) == (COD(l) if ty == COMP else COD(seq.at(0).t)),
                  All(["R", "I"], lambda t, j: VAL(f, t, j) == m(t, j), pats=lambda t, j: [VAL(f, t, j)], gen=3)])
        X.guards = keep
    return X.statics[k][0]


def is_function(c, o, g):
    f = D(c, o)
    return {"value": All(["R", "I"], lambda t, j: Implies(And(0 <= j, j < COD(g)), VAL(f, t, j) == VAL(g, t, j)), pats=lambda t, j: [VAL(f, t, j), VAL(g, t, j)]),
            "domain": And(dom0(c, o) == DOM0(g), dom1(c, o) == DOM1(g)), "codomain": cod(c, o) == COD(g)}


def exact(c, o):
    """a product whose first factor has exactly the domain of the product (operands of * may differ by the tolerance)"""
    s = c.f("function_array_", o)
    if not s.parts: return BoolVal(True)
    return Implies(c.f("type_", o) == MUL, And(dom0(c, o) == DOM0(s.at(0).t), dom1(c, o) == DOM1(s.at(0).t)))


def deriv_spec(c):
    return {**is_function(c, c.res, DER(OD(c, c.this), c.oa(0))), "exact domains": exact(c, c.res), "same domain and codomain": And(same_dom(c, c.res, c.this), cod(c, c.res) == c.of("codom_dim_", c.this))}


def pow_inv(ty):
    def f(c):
        k = c.v("k"); s = is_function(c, c.v("result"), DER(list_fn(c, ty, c.a(0)), k))
        return {"range": And(1 <= k, k <= c.a(1)), "an expression": c.X.inv_of(c.v("result")), "exact domains": exact(c, c.v("result")), **{"derivative so far, " + n: v for n, v in s.items()}}
    return f


def pow_start(ty):
    def f(c): same_function(c, D(c, c.v("result")), DER(list_fn(c, ty, c.a(0)), c.v("k"))); return []
    return f


def rules(ty):
    def f(c): calculus(c, list_fn(c, ty, c.a(0)), ty, c.a(0), c.a(1)); return []
    return f


contract(FE + "deriv", 1, props=["C11"], requires=lambda c: [exact(c, c.this)], ensures=deriv_spec)
REG.defaults[(FE + "deriv", 0)] = lambda X: IntVal(1)
for ty in (MUL, COMP):
    contract(FN + DERS[ty], 2, props=["C11"], requires=dom_req(ty), axioms=rules(ty), loops=[(pow_inv(ty), None, None, pow_start(ty))],
             ensures=lambda c, ty=ty: {**is_function(c, c.res, DER(list_fn(c, ty, c.oa(0)), c.oa(1))), "exact domains": exact(c, c.res)})


def own_rules(c):
    f, s, ty = D(c, c.this), c.f("function_array_"), c.f("type_")
    for k in range(6):
        keep = c.X.guards; c.X.guards = keep + [ty == k]
        calculus(c, f, k, s, c.a(0))
        if k in (MUL, COMP): same_function(c, list_fn(c, k, s), f, "the function of the list")
        c.X.guards = keep
    return []


contract(FE + "deriv_impl", 1, props=["C11"], axioms=own_rules, requires=lambda c: [exact(c, c.this)], ensures=deriv_spec)
contract(FB + "derivate", 1, props=["C11"], this_abstract="fn", ensures=lambda c: is_function(c, c.res, DER(c.this.t, c.oa(0))))
contract(FB + "deriv_impl", 1, abstract=True, result=lambda c: Fn(DER(c.this.t, c.a(0))), ensures=lambda c: der_facts(c.this.t, c.a(0)))
