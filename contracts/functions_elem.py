"""Contracts of the elementary functions (C10, C11)."""
from spec import *
from contracts_gspline import *
from contracts_functions import *
from contracts_functions_deriv import *

vreq = lambda c: [c.a(1).r == c.a(0).r, c.a(1).c == cod(c)]
vens = lambda m: (lambda c: {"value": value_is(c, lambda t, j, g=m(c): g(t, j))})


def own_value(c): return CLASSVAL[c.this.cls](c.X, c.this)


@invariant("gsplines::functions::ConstFunction")
def const_inv(c, o): return {"one value per component": c.f("values_", o).r == cod(c, o), "codomain": cod(c, o) >= 1}


for cl in ("DomainLinearDilation", "Identity", "Exponential", "Cos", "Sin", "CanonicPolynomial"):
    def scalar_inv(c, o): return {"scalar": cod(c, o) == 1}
    if cl != "Identity": invariant(FN + cl)(scalar_inv)

for cl in ("ConstFunction", "DomainLinearDilation", "Identity", "Exponential", "Cos", "Sin"):
    contract(FN + cl + "::value_impl", 2, props=["C10"], requires=vreq, modifies=["arg1"], ensures=vens(own_value))


def d_is(c, m):
    r = c.res
    return {"value": pointwise(c, r, m), "domain": same_dom(c, r, c.this), "codomain": cod(c, r) == cod(c, c.this)}


def by4(c, l):
    k = c.oa(0) % 4
    return d_is(c, lambda t, j: If(k == 0, l[0](t), If(k == 1, l[1](t), If(k == 2, l[2](t), l[3](t)))))


contract(FN + "ConstFunction::deriv_impl", 1, props=["C11"], ensures=lambda c: d_is(c, lambda t, j, v=c.of("values_"): If(c.oa(0) == 0, v.f(j, Z), RealVal(0))))
contract(FN + "DomainLinearDilation::deriv_impl", 1, props=["C11"], ensures=lambda c: d_is(c, lambda t, j, v=c.of("dilation_factor_"): If(c.oa(0) == 0, v * t, If(c.oa(0) == 1, v, RealVal(0)))))
contract(FN + "Exponential::deriv_impl", 1, props=["C11"], ensures=lambda c: d_is(c, lambda t, j: EXPF(t)))
contract(FN + "Cos::deriv_impl", 1, props=["C11"], ensures=lambda c: by4(c, [lambda t: COSF(t), lambda t: -SINF(t), lambda t: -COSF(t), lambda t: SINF(t)]))
contract(FN + "Sin::deriv_impl", 1, props=["C11"], ensures=lambda c: by4(c, [lambda t: SINF(t), lambda t: COSF(t), lambda t: -SINF(t), lambda t: -COSF(t)]))


# ---------------------------------------------------------------- polynomials
def lemma_head(n, f): return Implies(n >= 1, Sum(n, f) == f(Z) + Sum(simp(n - 1), lambda k: f(simp(k + 1))))


def poly_value(m, t): return Sum(m.r, lambda k: m.f(k, Z) * POWI(t, k))


CLASSVAL[FN + "CanonicPolynomial"] = lambda X, o: (lambda t, c, m=X.getfield(o, "coefficients_"): poly_value(m, t))


@invariant(FN + "CanonicPolynomial")
def poly_inv(c, o): return {"scalar": cod(c, o) == 1, "a coefficient": c.f("coefficients_", o).r >= 1}


def horner(c):
    m, r, p = c.f("coefficients_"), c.a(1), c.a(0); u = c.v("uici"); n = m.r
    return {"range": And(-1 <= u, u <= n - 2), "tail": All(["I"], lambda i: Implies(And(0 <= i, i < r.r), r.f(i, Z) == Sum(simp(n - 1 - u), lambda k: m.f(simp(u + 1 + k), Z) * POWI(p.f(i, Z), k))))}


def horner_hint(c):
    m, p = c.f("coefficients_"), c.a(0); u = c.v("uici"); n = m.r
    g = lambda x: (lambda k: m.f(simp(u + k), Z) * POWI(x, k))
    h = lambda x: (lambda k: m.f(simp(u + 1 + k), Z) * POWI(x, k))
    def one(i):
        x = p.f(i, Z)
        return And(lemma_head(simp(n - u), g(x)), POWI(x, Z) == 1, Sum(simp(n - 1 - u), lambda k: h(x)(k) * x) == x * Sum(simp(n - 1 - u), h(x)))
    return [All(["I"], one, pats=lambda i: [p.f(i, Z)]), All(["R", "I"], lambda x, k: Implies(k >= 0, POWI(x, k + 1) == POWI(x, k) * x), pats=lambda x, k: [POWI(x, k + 1)])]


contract(FN + "CanonicPolynomial::value_impl", 2, props=["C10"], requires=vreq, modifies=["arg1"], ensures=vens(own_value), loops=[(horner, horner_hint)],
         axioms=lambda c: [All(["R"], lambda x: POWI(x, Z) == 1, pats=lambda x: [POWI(x, Z)])])


def fall(i, d): return Prod(d, lambda q: toreal(simp(i + 1 + q)))


def poly_outer(c):
    r, m, k, v = c.v("result"), c.of("coefficients_"), c.v("k"), c.v("vsize")
    return {"range": And(1 <= k, k <= c.a(0) + 1, v == m.r - (k - 1), v >= 1, r.r == m.r), "coefficients": All(["I"], lambda i: Implies(And(0 <= i, i < v), r.f(i, Z) == m.f(simp(i + k - 1), Z) * fall(i, simp(k - 1))))}


def poly_inner(c):
    r, m, k, v, u = c.v("result"), c.of("coefficients_"), c.v("k"), c.v("vsize"), c.v("uici")
    return {"range": And(0 <= u, u <= v - 1, v == m.r - (k - 1), v >= 1, r.r == m.r, 1 <= k, k <= c.a(0)),
            "done": All(["I"], lambda i: Implies(And(0 <= i, i < u), r.f(i, Z) == m.f(simp(i + k), Z) * fall(i, k))),
            "to do": All(["I"], lambda i: Implies(And(u <= i, i < v), r.f(i, Z) == m.f(simp(i + k - 1), Z) * fall(i, simp(k - 1))))}


def poly_step(c):
    k, u = c.v("k"), c.v("uici")
    return [Implies(k >= 1, fall(u, k) == toreal(simp(u + 1)) * fall(simp(u + 1), simp(k - 1)))]    # lemma prod-head


def poly_der(c):
    m, d, r = c.of("coefficients_"), c.oa(0), c.f("coefficients_", c.res)
    return {"coefficients": [Implies(d < m.r, And(r.r == m.r - d)), Implies(d >= m.r, And(r.r == 1, r.f(Z, Z) == 0)), All(["I"], lambda i: Implies(And(0 <= i, i < r.r, d < m.r), r.f(i, Z) == m.f(simp(i + d), Z) * fall(i, d)))],
            "domain": same_dom(c, c.res, c.this)}


contract(FN + "CanonicPolynomial::deriv_impl", 1, props=["C11"], ensures=poly_der, loops=[poly_outer, (poly_inner, poly_step)])


# ---------------------------------------------------------------- dot product
@invariant(FN + "DotProduct")
def dot_inv(c, o):
    a, b = c.f("f1_", o), c.f("f2_", o)
    return {"scalar": cod(c, o) == 1, "same codomain": cod(c, a) == cod(c, b)}


def no_gap(c, o, p):
    s = c.f("function_array_", o)
    first(c.X, s.at, s.len())
    return Imp(c.f("type_", o) == CONC, All(["I"], lambda i: Implies(And(0 <= i, i < p.r), Or(*(covered(c.X, s, p.f(i, Z))[0] + [covered(c.X, s, p.f(i, Z))[1]])))))


def dot_of(X, o):
    a, b = X.getfield(o, "f1_"), X.getfield(o, "f2_")
    fa, fb = den(X, a), den(X, b); n = X.getfield(a, "codom_dim_")
    return lambda t, j: Sum(n, lambda q: VAL(fa, t, q) * VAL(fb, t, q))


CLASSVAL[FN + "DotProduct"] = dot_of
contract(FN + "DotProduct::value_impl", 2, props=["C10"], requires=lambda c: vreq(c) + [no_gap(c, c.f("f1_"), c.a(0)), no_gap(c, c.f("f2_"), c.a(0))], modifies=["arg1"],
         ensures=lambda c: {"value": value_is(c, c._with(c.oldstore, lambda: dot_of(c.X, c.this)))})
for sg in ("(const FunctionBase &, const FunctionBase &)", "(FunctionBase &&, FunctionBase &&)", "(const FunctionBase &, FunctionBase &&)"):
    contract(FN + "DotProduct::DotProduct", 2, sig=sg, props=["C10"], requires=lambda c: [cod(c, c.args[0]) == cod(c, c.args[1])],
             ensures=lambda c: {"value": pointwise(c, c.this, lambda t, j, x=OD(c, c.args[0]), y=OD(c, c.args[1]), n=c.of("codom_dim_", c.args[0]): Sum(n, lambda q: VAL(x, t, q) * VAL(y, t, q))), "domain": same_dom(c, c.this, c.args[0]), "codomain": cod(c) == 1})

