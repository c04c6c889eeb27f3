"""Contracts of time scaling (C14) and of the composite quadrature (C15)."""
from spec import *
from contracts_gspline import *

ALPHA = z3.Function("ALPHA", z3.IntSort(), z3.RealSort())
contract("gsplines::basis::Basis0101::get_alpha", 0, abstract=True, result=lambda c: ALPHA(c.this.t), ensures=lambda c: And(0 < ALPHA(c.this.t), ALPHA(c.this.t) < 1))


def pack0101(X, args):
    b = X.fresh("i", "basis0101"); a = args[0].get(X)
    X.assume(And(IS0101(b), ALPHA(b) == a, DIM(b) == 6))
    return BasisV(b)


REG.packs_["gsplines::basis::Basis0101"] = pack0101


def scaled(c, r, f, T):
    """the result is the spline with the time multiplied by f: same coefficients, lengths times f, same start"""
    ol = c.of("domain_interval_lengths_"); l = c.f("domain_interval_lengths_", r); b0, b1 = c.of("basis_").t, c.f("basis_", r).t
    a0, a1 = ALPHA(b0), ALPHA(b1)
    return {"domain": And(dom0(c, r) == c.of("domain_").items[0], dom1(c, r) == c.of("domain_").items[0] + T), "codomain": cod(c, r) == c.of("codom_dim_"),
            "lengths": [l.r == ol.r, All(["I"], lambda k: Implies(And(0 <= k, k < ol.r), l.f(k, IntVal(0)) == ol.f(k, IntVal(0)) * f))],
            "coefficients": same_vec(c.f("coefficients_", r), c.of("coefficients_")),
            "basis": Implies(Not(IS0101(b0)), b1 == b0),
            "basis of exponentials: k times the length is kept": Implies(IS0101(b0), And(IS0101(b1), a1 * (1 - a0) * f * f * f * f == a0 * (1 - a1)))}


def quarter(c):
    """fourth roots and the square root of two"""
    a = ALPHA(bas(c)); s, p, q = SQRT(RealVal(2)), POWR(a, RealVal("1/4")), POWR(1 - a, RealVal("1/4"))
    return [Implies(IS0101(bas(c)), And(s > 0, s * s == 2, 0 < a, a < 1, p > 0, q > 0, p * p * p * p == a, q * q * q * q == 1 - a))]


for inst in ("gsplines::GSpline", "gsplines::collocation::GaussLobattoLagrangeSpline"):
    H = "gsplines::GSplineInheritanceHelper<%s, gsplines::GSplineBase>::" % inst
    contract(H + "linear_scaling_new_execution_time", 1, cls=inst, props=["C14"], requires=lambda c: [dom0(c) < dom1(c), Implies(IS0101(bas(c)), DIM(bas(c)) == 6)],
             axioms=quarter, throws=lambda c: c.a(0) < RealVal("0.00000001"), ensures=lambda c: scaled(c, c.res, c.a(0) / (c.of("domain_").items[1] - c.of("domain_").items[0]), c.a(0)))


# ---------------------------------------------------------------- Gauss-Lobatto rules
CO = "gsplines::collocation::"
GLP = z3.Function("GLP", z3.IntSort(), z3.IntSort(), z3.RealSort())     # the nodes and weights on [-1, 1]: a function of their number
GLW = z3.Function("GLW", z3.IntSort(), z3.IntSort(), z3.RealSort())
from contracts_legendre import LEG, leg_axioms
Z, ONE = IntVal(0), IntVal(1)


def q_axioms(t):
    L = lambda d, n: LEG(d, n, t)
    return [L(Z, Z) == 1, L(Z, ONE) == t, L(ONE, Z) == 0, L(ONE, ONE) == 1,
            All(["I"], lambda n: Implies(n >= 2, And(L(Z, n) == 1 / toreal(n) * ((2 * toreal(n) - 1) * t * L(Z, n - 1) - (toreal(n) - 1) * L(Z, n - 2)),
                                                     L(ONE, n) == L(ONE, n - 2) + (2 * toreal(n) - 1) * L(Z, n - 1))), lambda n: [L(Z, n)], 1)]    # Lemmas.lean: legendre_bonnet, leg_step


contract(CO + "q_and_evaluation", 2, props=["C15"], requires=lambda c: c.a(1) >= 2, axioms=lambda c: q_axioms(c.a(0)),
         ensures=lambda c: {"q": c.res.items[0] == LEG(Z, c.a(1) + 1, c.a(0)) - LEG(Z, c.a(1) - 1, c.a(0)), "derivative of q": c.res.items[1] == LEG(ONE, c.a(1) + 1, c.a(0)) - LEG(ONE, c.a(1) - 1, c.a(0)),
                            "Legendre polynomial": c.res.items[2] == LEG(Z, c.a(1), c.a(0))},
         loops=[lambda c: {"counter": And(2 <= c.v("uick"), c.v("uick") <= c.a(1) + 1),
                           "recurrence": And(c.v("l_n_minus_2") == LEG(Z, c.v("uick") - 2, c.a(0)), c.v("l_n_minus_1") == LEG(Z, c.v("uick") - 1, c.a(0)), c.v("lprime_n_minus_2") == LEG(ONE, c.v("uick") - 2, c.a(0)), c.v("lprime_n_minus_1") == LEG(ONE, c.v("uick") - 1, c.a(0))),
                           "last": Implies(c.v("uick") >= 3, And(c.v("l_n") == LEG(Z, c.v("uick") - 1, c.a(0))))}])


def rule(c, p, w, n, upto):
    """the first upto nodes and weights of the rule and their mirror images"""
    N_ = toreal(n) - 1
    return [p.r == n, w.r == n, p.f(Z, Z) == -1, p.f(n - 1, Z) == 1, w.f(Z, Z) == w.f(n - 1, Z), w.f(Z, Z) == 2 / (N_ * (N_ + 1)),
            All(["I"], lambda j: Implies(And(1 <= j, j < upto), And(p.f(n - 1 - j, Z) == -p.f(j, Z), w.f(n - 1 - j, Z) == w.f(j, Z), w.f(j, Z) == 2 / (N_ * (N_ + 1) * (LEG(Z, n - 1, p.f(j, Z)) * LEG(Z, n - 1, p.f(j, Z)))))))]


def lgl_loop(c): return {"counter": And(1 <= c.v("uicj"), 2 * c.v("uicj") <= c.a(0), c.v("book_n") == c.a(0) - 1), "rule so far": rule(c, c.v("points"), c.v("weights"), c.a(0), c.v("uicj"))}


def lgl_inner(c):
    p, w, n, j = c.v("points"), c.v("weights"), c.a(0), c.v("uicj")
    return {"counter": And(1 <= j, 2 * j + 2 <= n, c.v("book_n") == n - 1), "rule so far": rule(c, p, w, n, j)}


contract(CO + "legendre_gauss_lobatto_points_and_weights", 1, variant="rule", props=["C15"], requires=lambda c: c.a(0) >= 2,
         ensures=lambda c: {"rule": rule(c, c.res.items[0], c.res.items[1], c.a(0), c.a(0) / 2), "node in the middle": Implies(c.a(0) % 2 == 1, And(c.res.items[0].f((c.a(0) - 1) / 2, Z) == 0, c.res.items[1].f((c.a(0) - 1) / 2, Z) == 2 / ((toreal(c.a(0)) - 1) * toreal(c.a(0)) * (LEG(Z, c.a(0) - 1, RealVal(0)) * LEG(Z, c.a(0) - 1, RealVal(0))))))},
         loops=[lgl_loop, lgl_inner])
contract(CO + "legendre_gauss_lobatto_points_and_weights", 1, trusted=True, requires=lambda c: c.a(0) >= 2,
         result=lambda c: Struct([vec(c.a(0), lambda i: GLP(c.a(0), i)), vec(c.a(0), lambda i: GLW(c.a(0), i))]))
for nm, F in (("points", GLP), ("weights", GLW)):
    contract(CO + "legendre_gauss_lobatto_" + nm, 1, props=["C15"], requires=lambda c: c.a(0) >= 2,
             ensures=lambda c, F=F: {"of the rule": [c.res.r == c.a(0), All(["I"], lambda i: Implies(And(0 <= i, i < c.a(0)), c.res.f(i, Z) == F(c.a(0), i)))]})


def laid(c, v, n, m, cnt, left, length, pts):
    """nodes (or weights) of the first cnt of m intervals"""
    return {"size": v.r == n * m, "laid over the intervals": All(["I", "I"], lambda k, q: Implies(And(0 <= k, k < cnt, 0 <= q, q < n), v.f(k * n + q, Z) == ((GLP(n, q) + 1) * length(k) / 2 + left(k) if pts else GLW(n, q) * length(k) / 2)))}


for nm, pts in (("points", True), ("weights", False)):
    eq = lambda c: (lambda k: c.a(0).items[0] + toreal(k) * ((c.a(0).items[1] - c.a(0).items[0]) / toreal(c.a(2))), lambda k: (c.a(0).items[1] - c.a(0).items[0]) / toreal(c.a(2)))
    contract(CO + "legendre_gauss_lobatto_" + nm, 3, sig="tuple", props=["C15"], requires=lambda c: And(c.a(1) >= 2, c.a(2) >= 1),
             ensures=lambda c, pts=pts, eq=eq: laid(c, c.res, c.a(1), c.a(2), c.a(2), *eq(c), pts),
             loops=[lambda c, pts=pts, eq=eq: dict(laid(c, c.v("result"), c.a(1), c.a(2), c.v("interval"), *eq(c), pts), counter=And(0 <= c.v("interval"), c.v("interval") <= c.a(2)))])


def given(c, n, iv, left0):
    t = c.a(iv)
    return (lambda k: left0 + Sum(k, lambda q: t.f(q, Z))), (lambda k: t.f(k, Z))


contract(CO + "legendre_gauss_lobatto_points", 3, sig="(double", props=["C15"], requires=lambda c: c.a(1) >= 2,
         ensures=lambda c: laid(c, c.res, c.a(1), c.a(2).r, c.a(2).r, *given(c, 1, 2, c.a(0)), True),
         loops=[lambda c: dict(laid(c, c.v("result"), c.a(1), c.a(2).r, c.v("interval"), *given(c, 1, 2, c.a(0)), True), counter=And(0 <= c.v("interval"), c.v("interval") <= c.a(2).r), left=c.v("local_left_bound") == given(c, 1, 2, c.a(0))[0](c.v("interval")))])
contract(CO + "legendre_gauss_lobatto_weights", 2, props=["C15"], requires=lambda c: c.a(0) >= 2,
         ensures=lambda c: laid(c, c.res, c.a(0), c.a(1).r, c.a(1).r, *given(c, 0, 1, RealVal(0)), False),
         loops=[lambda c: dict(laid(c, c.v("result"), c.a(0), c.a(1).r, c.v("interval"), *given(c, 0, 1, RealVal(0)), False), counter=And(0 <= c.v("interval"), c.v("interval") <= c.a(1).r))])


def quad(f, d0, d1, n, m, cnt):
    """composite rule on the first cnt of m equal intervals"""
    h = (d1 - d0) / toreal(m)
    return Sum(cnt, lambda k: Sum(n, lambda q: VAL(f, (GLP(n, q) + 1) * h / 2 + (d0 + toreal(k) * h), Z) * GLW(n, q)) * h / 2)


contract("gsplines::functional_analysis::integral", 3, props=["C15", "C09"], requires=lambda c: And(COD(c.a(0).t) == 1, c.a(1) >= 2, c.a(2) >= 1),
         ensures=lambda c: {"weighted sum of the values at the nodes": c.res == quad(c.a(0).t, DOM0(c.a(0).t), DOM1(c.a(0).t), c.a(1), c.a(2), c.a(2))},
         loops=[lambda c: {"counter": And(0 <= c.v("interval"), c.v("interval") <= c.a(2)), "sum so far": c.v("result") == quad(c.a(0).t, DOM0(c.a(0).t), DOM1(c.a(0).t), c.a(1), c.a(2), c.v("interval")),
                           "buffer": And(c.v("local_value").r == c.a(1), c.v("local_value").c == 1)}])
