"""Contracts of GSplineBase and GSpline (C01, C02, C13, C14)."""
from spec import *

GB = "gsplines::GSplineBase::"


def N(c, o=None): return c.f("domain_interval_lengths_", o).r
def dom0(c, o=None): return c.f("domain_", o).items[0]
def dom1(c, o=None): return c.f("domain_", o).items[1]
def cod(c, o=None): return c.f("codom_dim_", o)
def bas(c, o=None): return c.f("basis_", o).t
def tau(c, i, o=None): return c.f("domain_interval_lengths_", o).f(I(i), IntVal(0))
def coef(c, i, o=None): return c.f("coefficients_", o).f(I(i), IntVal(0))


def bp(c, i, o=None):
    """i-th break point: left end of the domain plus the lengths of the first i intervals"""
    return dom0(c, o) + Sum(I(i), lambda k: tau(c, k, o))


@invariant("gsplines::functions::FunctionBase")
def function_inv(c, o):
    return {"domain is ordered": dom0(c, o) <= dom1(c, o)}


@invariant("gsplines::GSplineBase")
def gspline_inv(c, o):
    b = bas(c, o); n = N(c, o)
    return {"one coefficient per interval, component and basis function": c.f("coefficients_", o).r == n * DIM(b) * cod(c, o),
            "buffer of the basis size": c.f("basis_buffer_", o).r == DIM(b),
            "sizes": And(n >= 0, cod(c, o) >= 0, DIM(b) >= 1)}


def positive(c, o=None): return All(["I"], lambda k: Implies(And(0 <= k, k < N(c, o)), tau(c, k, o) > 0))


def in_interval(c, k, t, o=None):
    """k is the number of the interval that defines the spline at t"""
    n = N(c, o)
    return And(0 <= k, k < n, Implies(k > 0, bp(c, k, o) < t), Implies(k < n - 1, t <= bp(c, k + 1, o)))


contract(GB + "get_interval", 1, props=["C01"],
         requires=lambda c: [N(c) >= 1, positive(c)],
         ensures=lambda c: {"interval of the point": in_interval(c, c.res, c.a(0))},
         loops=[lambda c: {"left is the break point i": c.v("left_breakpoint") == bp(c, c.v("i")), "i in range": And(0 <= c.v("i"), c.v("i") <= N(c)),
                           "left of the point": c.v("left_breakpoint") < c.a(0)}])

contract(GB + "interval_to_window", 2, props=["C01"],
         requires=lambda c: And(0 <= c.a(1), c.a(1) < N(c)),
         result=lambda c: 2 * (c.a(0) - bp(c, c.a(1))) / tau(c, c.a(1)) - 1)


def nondegenerate(c, o=None): return [N(c, o) >= 1, positive(c, o)]


def seg(c, k, j, m, o=None):
    """coefficient of basis function m for component j on interval k"""
    b = bas(c, o)
    return coef(c, k * DIM(b) * cod(c, o) + DIM(b) * j + m, o)


def in_range(c): return And(0 <= c.a(0), c.a(0) < N(c), 0 <= c.a(1), c.a(1) < cod(c))


for cst in (True, False):
    contract(GB + "coefficient_segment", 2, const=cst, props=["C01", "C02"],
             requires=in_range,
             ensures=lambda c: {"size": And(c.res.r == DIM(bas(c)), c.res.c == 1),
                                "entries": All(["I"], lambda m: Implies(And(0 <= m, m < DIM(bas(c))), c.res.f(m, IntVal(0)) == seg(c, c.a(0), c.a(1), m)))},
             result_lv=None if cst else None)

contract("gsplines::get_coefficient_segment", 6, props=["C02"],
         requires=lambda c: And(c.a(2) >= 1, c.a(3) >= 1, 0 <= c.a(4), c.a(4) < c.a(2), 0 <= c.a(5), c.a(5) < c.a(3), c.a(0).r == c.a(2) * DIM(c.a(1).t) * c.a(3)),
         ensures=lambda c: {"size": c.res.r == DIM(c.a(1).t),
                            "entries": All(["I"], lambda m: Implies(And(0 <= m, m < DIM(c.a(1).t)), c.res.f(m, IntVal(0)) == c.a(0).f(c.a(4) * DIM(c.a(1).t) * c.a(3) + DIM(c.a(1).t) * c.a(5) + m, IntVal(0))))})

contract("gsplines::basis::Basis::eval_on_window", 3, abstract=True,
         requires=lambda c: c.a(2).r == DIM(c.this.t), modifies=["arg2"],
         ensures=lambda c: [c.a(2).r == DIM(c.this.t), All(["I"], lambda k: Implies(And(0 <= k, k < DIM(c.this.t)), c.a(2).f(k, IntVal(0)) == BV(c.this.t, k, c.a(0), c.a(1))))])

WIN = z3.Function("INTERVAL", z3.IntSort(), z3.RealSort(), z3.IntSort())


def spline_value(c, t, j, k, o=None):
    """value at t of component j of the spline, k being the interval of t"""
    b = bas(c, o)
    s = 2 * (t - bp(c, k, o)) / tau(c, k, o) - 1
    return Sum(DIM(b), lambda m: seg(c, k, j, m, o) * BV(b, m, s, tau(c, k, o)))


def value_ok(c, rows):
    """for every row i below rows, some interval of the i-th point gives the row"""
    pts, res = c.a(0), c.a(1)
    return All(["I", "I"], lambda i, k: Imp(And(0 <= i, i < rows, in_interval(c, k, pts.f(i, IntVal(0)))),
               All(["I"], lambda j: Implies(And(0 <= j, j < cod(c)), res.f(i, j) == spline_value(c, pts.f(i, IntVal(0)), j, k)))))


contract(GB + "value_impl", 2, props=["C01"],
         requires=lambda c: nondegenerate(c) + [c.a(1).r == c.a(0).r, c.a(1).c == cod(c)],
         modifies=["arg1", "this.basis_buffer_"],
         ensures=lambda c: {"every row is the combination of the basis on the interval of its point": value_ok(c, c.a(0).r)},
         loops=[lambda c: {"i in range": And(0 <= c.v("i"), c.v("i") <= c.a(0).r), "rows so far": value_ok(c, c.v("i")), "buffer": c.f("basis_buffer_").r == DIM(bas(c))},
                lambda c: {"j in range": And(0 <= c.v("j"), c.v("j") <= cod(c)), "earlier rows": value_ok(c, c.v("i")),
                           "this row so far": All(["I"], lambda j: Implies(And(0 <= j, j < c.v("j")), c.a(1).f(c.v("i"), j) == spline_value(c, c.a(0).f(c.v("i"), IntVal(0)), j, c.v("current_interval"))))}])

# ---------------------------------------------------------------- break points, way-points, sizes
contract(GB + "get_domain_breakpoints", 0, props=["C02"],
         ensures=lambda c: {"size": And(c.res.r == N(c) + 1, c.res.c == 1),
                            "partial sums": All(["I"], lambda i: Implies(And(0 <= i, i <= N(c)), c.res.f(i, IntVal(0)) == bp(c, i)))},
         loops=[lambda c: {"i in range": And(1 <= c.v("i"), c.v("i") <= N(c) + 1), "instant": c.v("time_instant") == bp(c, c.v("i") - 1), "size": c.v("result").r == N(c) + 1,
                           "so far": All(["I"], lambda k: Implies(And(0 <= k, k < c.v("i")), c.v("result").f(k, IntVal(0)) == bp(c, k)))}])

contract("gsplines::functions::FunctionBase::value", 2, props=["C02", "C12"], cls="gsplines::GSplineBase",
         requires=lambda c: nondegenerate(c),
         throws=lambda c: Or(c.a(0).r != c.a(1).r, c.a(1).c != cod(c)),
         modifies=["arg1", "this.basis_buffer_"],
         ensures=lambda c: {"size": And(c.a(1).r == c.a(0).r, c.a(1).c == cod(c)), "the values of value_impl": value_ok(c, c.a(0).r)}) if False else None


def waypoints_ok(c):
    pts = lambda i: bp(c, i)
    return All(["I", "I"], lambda i, k: Imp(And(0 <= i, i <= N(c), in_interval(c, k, bp(c, i))),
               All(["I"], lambda j: Implies(And(0 <= j, j < cod(c)), c.res.f(i, j) == spline_value(c, bp(c, i), j, k)))))


contract(GB + "get_waypoints", 0, props=["C02"],
         requires=lambda c: nondegenerate(c), modifies=["this.basis_buffer_"],
         ensures=lambda c: {"size": And(c.res.r == N(c) + 1, c.res.c == cod(c)), "values at the break points": waypoints_ok(c)})

for nm, fld in (("get_coefficients", "coefficients_"), ("get_interval_lengths", "domain_interval_lengths_")):
    contract(GB + nm, 0, props=["C02"], inline=True, ensures=lambda c, fld=fld: {"returns the data": same_mat(c.res, c.f(fld))})
contract(GB + "get_number_of_intervals", 0, props=["C02"], inline=True, ensures=lambda c: {"count": c.res == N(c)})
contract(GB + "get_basis_dim", 0, props=["C02"], inline=True, ensures=lambda c: {"count": c.res == DIM(bas(c))})


def same_mat(a, b):
    return [a.r == b.r, a.c == b.c, All(["I", "I"], lambda i, j: Implies(And(0 <= i, i < a.r, 0 <= j, j < a.c), a.f(i, j) == b.f(i, j)))]


def same_vec(a, b): return [a.r == b.r, All(["I"], lambda i: Implies(And(0 <= i, i < a.r), a.f(i, IntVal(0)) == b.f(i, IntVal(0))))]


contract("gsplines::basis::Basis::clone", 0, abstract=True, result=lambda c: c.this)
contract("gsplines::basis::Basis::move_clone", 0, abstract=True, result=lambda c: c.this)

for sg in ("Eigen::Ref<const", "Eigen::VectorXd &&"):
    contract(GB + "GSplineBase", 7, sig=sg, props=["C02", "C12"],
             requires=lambda c: [c.a(0).items[0] <= c.a(0).items[1]],
             throws=lambda c: Or(c.a(5).r != c.a(2), c.a(4).r != c.a(2) * DIM(c.a(3).t) * c.a(1)),
             ensures=lambda c: {"domain": And(c.f("domain_").items[0] == c.oa(0).items[0], c.f("domain_").items[1] == c.oa(0).items[1]), "codomain": cod(c) == c.oa(1),
                                "basis": bas(c) == c.oa(3).t, "coefficients": same_vec(c.f("coefficients_"), c.oa(4)), "lengths": same_vec(c.f("domain_interval_lengths_"), c.oa(5))})


def copy_of(c, src):
    """*this equals the object src was before the call"""
    return {"domain": And(dom0(c) == c.of("domain_", src).items[0], dom1(c) == c.of("domain_", src).items[1]), "codomain": cod(c) == c.of("codom_dim_", src),
            "basis": bas(c) == c.of("basis_", src).t, "coefficients": same_vec(c.f("coefficients_"), c.of("coefficients_", src)),
            "lengths": same_vec(c.f("domain_interval_lengths_"), c.of("domain_interval_lengths_", src)), "buffer": c.f("basis_buffer_").r == DIM(bas(c))}


contract(GB + "GSplineBase", 1, sig="const GSplineBase &", props=["C19", "C13"], ensures=lambda c: copy_of(c, c.args[0]))
contract(GB + "GSplineBase", 1, sig="GSplineBase &&", props=["C19", "C13"], ensures=lambda c: copy_of(c, c.args[0]), modifies=["arg0"])


# ---------------------------------------------------------------- the vector space
def same_space(c, a, b):
    """what same_vector_space decides"""
    return And(BEQ(bas(c, a), bas(c, b)), DIM(bas(c, a)) == DIM(bas(c, b)), cod(c, a) == cod(c, b), close(dom0(c, a), dom0(c, b), RealVal("0.00000001")),
               closev(c.f("domain_interval_lengths_", a), c.f("domain_interval_lengths_", b), RealVal("0.00000001")))


BEQ = z3.Function("BEQ", z3.IntSort(), z3.IntSort(), z3.BoolSort())


def close(x, y, tol):
    e = absr(x - y)
    return If(Or(absr(x) < tol, absr(y) < tol), e < tol, And(e < absr(x) * tol, e < absr(y) * tol))


def maxabs(m):
    if m.isvec(): return Max(m.size(), lambda k: absr(m.lin(k)))
    return Max(m.r, lambda i: Max(m.c, lambda j: absr(m.f(i, j))))


def closev(a, b, tol):
    e = Max(a.size(), lambda k: absr(a.lin(k) - b.lin(k)))
    ma, mb = maxabs(a), maxabs(b)
    return And(a.r == b.r, Or(a.r == 0, If(Or(ma < tol, mb < tol), e < tol, And(e / ma < tol, e / mb < tol))))


def closem(a, b, tol):
    e = Max(a.r, lambda i: Max(a.c, lambda j: absr(a.f(i, j) - b.f(i, j))))
    ma, mb = maxabs(a), maxabs(b)
    return And(a.r == b.r, a.c == b.c, Or(a.r == 0, a.c == 0, If(Or(ma < tol, mb < tol), e < tol, And(e / ma < tol, e / mb < tol))))


TL = "gsplines::tools::"
contract(TL + "approx_equal", 3, sig="(double,", props=["C20"], ensures=lambda c: {"relative to both": c.res == close(c.a(0), c.a(1), c.a(2))},
         requires=lambda c: c.a(2) > 0)
contract(TL + "approx_equal", 3, sig="const Eigen::MatrixXd &", props=["C20"], requires=lambda c: c.a(2) > 0,
         ensures=lambda c: {"by the largest entry": c.res == (closev(c.a(0), c.a(1), c.a(2)) if c.a(0).isvec() and c.a(1).isvec() else closem(c.a(0), c.a(1), c.a(2)))})
contract(TL + "approx_zero", 2, sig="(double,", props=["C20"], ensures=lambda c: {"below": c.res == (absr(c.a(0)) < c.a(1))})
contract(TL + "approx_zero", 2, sig="const Eigen::MatrixXd &", props=["C20"],
         ensures=lambda c: {"below": c.res == And(c.a(0).r > 0, c.a(0).c > 0, maxabs(c.a(0)) < c.a(1))})
contract("gsplines::basis::Basis::operator==", 1, props=["C18", "C20"], this_abstract="basis",
         ensures=lambda c: {"same name, size and parameters": c.res == BEQ(c.this.t, c.a(0).t), "equal bases have one size": Implies(c.res, DIM(c.this.t) == DIM(c.a(0).t))},
         axioms=lambda c: defn_beq(c.this.t, c.a(0).t))
contract("gsplines::basis::Basis::operator!=", 1, props=["C18", "C20"], this_abstract="basis", ensures=lambda c: {"negation of ==": c.res == Not(BEQ(c.this.t, c.a(0).t))})


def defn_beq(a, b):
    """definition of BEQ (equality of bases) and of SAMEINT (equal integer parameters)"""
    va, vb = vec(NPAR(a), lambda i: PAR(a, i)), vec(NPAR(b), lambda i: PAR(b, i))
    w = SKW(a, b)
    return [BEQ(a, b) == And(BNAME(a) == BNAME(b), DIM(a) == DIM(b), NPARI(a) == NPARI(b), SAMEINT(a, b), closev(va, vb, RealVal("0.000001"))),
            Imp(SAMEINT(a, b), All(["I"], lambda i: Implies(And(0 <= i, i < NPARI(a)), PARI(a, i) == PARI(b, i)))),
            Implies(Not(SAMEINT(a, b)), And(0 <= w, w < NPARI(a), PARI(a, w) != PARI(b, w)))]


SAMEINT = z3.Function("SAMEINT", z3.IntSort(), z3.IntSort(), z3.BoolSort())
SKW = z3.Function("SAMEINT_WITNESS", z3.IntSort(), z3.IntSort(), z3.IntSort())

contract(GB + "same_vector_space", 1, props=["C20", "C13", "C12"], ensures=lambda c: {"same basis, codomain, start and lengths": c.res == same_space(c, c.this, c.a(0))})
contract(TL + "approx_equal", 3, sig="const GSplineBase &", props=["C20"], requires=lambda c: c.a(2) > 0,
         ensures=lambda c: {"coefficients, lengths, start and basis": c.res == And(closev(c.f("coefficients_", c.a(0)), c.f("coefficients_", c.a(1)), c.a(2)),
                            closev(c.f("domain_interval_lengths_", c.a(0)), c.f("domain_interval_lengths_", c.a(1)), c.a(2)), close(dom0(c, c.a(0)), dom0(c, c.a(1)), c.a(2)), BEQ(bas(c, c.a(0)), bas(c, c.a(1))))})
contract(TL + "approx_zero", 2, sig="const GSplineBase &", props=["C20"],
         ensures=lambda c: {"below": c.res == And(c.f("coefficients_", c.a(0)).r > 0, maxabs(c.f("coefficients_", c.a(0))) < c.a(1))})


# ---------------------------------------------------------------- operators
def data_of(c, src):
    """the result has the space of the object src was"""
    r = c.res
    return {"domain": And(dom0(c, r) == c.of("domain_", src).items[0], dom1(c, r) == c.of("domain_", src).items[1]), "codomain": cod(c, r) == c.of("codom_dim_", src),
            "basis": bas(c, r) == c.of("basis_", src).t, "lengths": same_vec(c.f("domain_interval_lengths_", r), c.of("domain_interval_lengths_", src)),
            "buffer": c.f("basis_buffer_", r).r == DIM(bas(c, r))}


def comb(c, x, f, y=None, src=None):
    """coefficients of the result = f(coefficients of x, of y) before the call"""
    cx = c.of("coefficients_", x); cy = c.of("coefficients_", y) if y is not None else None; cr = c.f("coefficients_", c.res)
    d = {"coefficients": [cr.r == cx.r, All(["I"], lambda k: Implies(And(0 <= k, k < cx.r), cr.f(k, IntVal(0)) == f(cx.f(k, IntVal(0)), cy.f(k, IntVal(0)) if cy is not None else None)))]}
    d.update(data_of(c, src if src is not None else x))
    return d


for inst in ("gsplines::GSpline", "gsplines::collocation::GaussLobattoLagrangeSpline"):
    H = "gsplines::GSplineInheritanceHelper<%s, gsplines::GSplineBase>::" % inst
    for op, fn in (("+", lambda x, y: x + y), ("-", lambda x, y: x - y)):
        for sg, mod, src in (("(const %s &) const &" % inst, [], 0), ("(%s &&) const &" % inst, ["arg0"], 1), ("(const %s &) &&" % inst, ["this"], 0), ("(%s &&) &&" % inst, ["this", "arg0"], 0)):
            contract(H + "operator" + op, 1, sig=sg, cls=inst, props=["C13", "C12", "C19"], modifies=mod, strong=True,
                     throws=lambda c: Not(same_space(c, c.this, c.a(0))),
                     ensures=lambda c, fn=fn, src=src: comb(c, c.this, fn, c.args[0], c.this if src == 0 else c.args[0]))
        contract(H + "operator" + op + "=", 1, cls=inst, props=["C13", "C12", "C19"], modifies=["this.coefficients_"], strong=True,
                 throws=lambda c: Not(same_space(c, c.this, c.a(0))), result=lambda c: c.this,
                 ensures=lambda c, fn=fn: {"coefficients": [coef_n(c) == c.of("coefficients_").r, All(["I"], lambda k: Implies(And(0 <= k, k < coef_n(c)), coef(c, k) == fn(c.of("coefficients_").f(k, IntVal(0)), c.of("coefficients_", c.args[0]).f(k, IntVal(0)))))]})


def coef_n(c): return c.f("coefficients_").r


for sg, ia, isp, mod in (("(double, const GSpline &)", 0, 1, []), ("(double, GSpline &&)", 0, 1, ["arg1"]), ("(const GSpline &, double)", 1, 0, []), ("(GSpline &&, double)", 1, 0, ["arg0"])):
    contract("gsplines::operator*", 2, sig=sg, props=["C13", "C19"], modifies=mod, ensures=lambda c, ia=ia, isp=isp: comb(c, c.args[isp], lambda x, y: x * c.oa(ia)))
for sg, mod in (("(const GSpline &)", []), ("(GSpline &&)", ["arg0"])):
    contract("gsplines::operator-", 1, sig=sg, props=["C13", "C19"], modifies=mod, ensures=lambda c: comb(c, c.args[0], lambda x, y: -x))
