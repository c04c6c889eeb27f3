"""Contracts of the derivative of a spline and of time scaling (C06, C14), of the cache of derivative matrices (C17, C06)."""
from spec import *
from contracts_gspline import *

# what the virtual derivative_matrix_impl returns: a function of the basis and the order only (trusted here; each implementation has its own contract)
contract("gsplines::basis::Basis::get_derivative_matrix_block", 1, abstract=True,
         result=lambda c: Mat(DIM(c.this.t), DIM(c.this.t), lambda i, j: DMAT(c.this.t, c.a(0), i, j)))
REG.defaults[("gsplines::basis::Basis::get_derivative_matrix_block", 0)] = lambda X: IntVal(1)
DMI = z3.Function("DMI", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
contract("gsplines::basis::Basis::derivative_matrix_impl", 1, abstract=True,
         result=lambda c: Mat(c.f("dim_"), c.f("dim_"), lambda i, j: DMI(c.a(0), i, j)))


def block_is(c, s, k):
    """element k of the cache is the derivative matrix of order k"""
    m = s.at(k); d = c.f("dim_")
    return [m.r == d, m.c == d, All(["I", "I"], lambda i, j: Implies(And(0 <= i, i < d, 0 <= j, j < d), m.f(i, j) == If(k == 0, If(i == j, RealVal(1), RealVal(0)), DMI(k, i, j))))]


def cache_ok(c, n=None):
    s = c.f("derivative_matrix_array_")
    return {"cache not empty": s.len() >= 1, "every cached matrix is the one of its order": All(["I"], lambda k: Imp(And(0 <= k, k < s.len()), block_is(c, s, k)))}


contract("gsplines::basis::Basis::get_derivative_matrix_block", 1, props=["C17", "C06", "C19"],
         requires=lambda c: list(cache_ok(c).values()), modifies=["this.derivative_matrix_array_"],
         ensures=lambda c: dict(cache_ok(c), **{"the matrix of the order asked for": block_spec(c), "the cache only grows": c.f("derivative_matrix_array_").len() >= c.of("derivative_matrix_array_").len()}),
         loops=[lambda c: dict(cache_ok(c), **{"counter": And(c.v("current_deriv_calc") == c.f("derivative_matrix_array_").len(), c.v("current_deriv_calc") <= c.a(0) + 1),
                                               "grows": c.f("derivative_matrix_array_").len() >= c.of("derivative_matrix_array_").len()})])


def block_spec(c):
    m, d, k = c.res, c.f("dim_"), c.a(0)
    return [m.r == d, m.c == d, All(["I", "I"], lambda i, j: Implies(And(0 <= i, i < d, 0 <= j, j < d), m.f(i, j) == If(k == 0, If(i == j, RealVal(1), RealVal(0)), DMI(k, i, j))))]


# ---------------------------------------------------------------- derivative of a spline
def dscale(c, k, deg): return If(IS0101(bas(c)), RealVal(1), POWI(2 / tau(c, k), deg))


def dcoef(c, k, j, m, deg):
    """coefficient of the derivative: derivative matrix times the coefficients of the same interval and component, scaled to time"""
    b = bas(c)
    return If(deg == 0, seg(c, k, j, m), Sum(DIM(b), lambda q: DMAT(b, deg, m, q) * seg(c, k, j, q)) * dscale(c, k, deg))


def rng(c, k, j, m): return And(0 <= k, k < N(c), 0 <= j, j < cod(c), 0 <= m, m < DIM(bas(c)))


def flat_at(c, v, k, j, m): return v.f(k * DIM(bas(c)) * cod(c) + DIM(bas(c)) * j + m, IntVal(0))


def progress(c):
    v = c.v("result_coeff"); kk, jj = c.v("interval_coor"), c.v("codom_coor")
    return v, kk, jj


def loop0(c):
    v, kk, jj = progress(c)
    return {"range": And(0 <= kk, kk <= N(c)), "size": And(v.r == c.f("coefficients_").r, v.c == 1),
            "done": All(["I", "I", "I"], lambda k, j, m: Implies(And(rng(c, k, j, m), k < kk), flat_at(c, v, k, j, m) == dcoef(c, k, j, m, c.a(0)))),
            "to do": All(["I"], lambda i: Implies(And(i >= kk * DIM(bas(c)) * cod(c), i < v.r), v.f(i, IntVal(0)) == coef(c, i)))}


def loop1(c):
    v, kk, jj = progress(c)
    i0 = kk * DIM(bas(c)) * cod(c)
    return {"range": And(0 <= kk, kk < N(c), 0 <= jj, jj <= cod(c)), "size": And(v.r == c.f("coefficients_").r, v.c == 1),
            "done": All(["I", "I", "I"], lambda k, j, m: Implies(And(rng(c, k, j, m), k < kk), flat_at(c, v, k, j, m) == dcoef(c, k, j, m, c.a(0)))),
            "done here": All(["I", "I"], lambda j, m: Implies(And(rng(c, kk, j, m), j < jj), flat_at(c, v, kk, j, m) == dcoef(c, kk, j, m, c.a(0)))),
            "to do": All(["I"], lambda i: Implies(And(i >= i0 + DIM(bas(c)) * jj, i < v.r), v.f(i, IntVal(0)) == coef(c, i)))}


def deriv_ens(c):
    r = c.res
    d = data_of(c, c.this); d.pop("buffer")
    o = c.old()
    d["coefficients"] = All(["I", "I", "I"], lambda k, j, m: Implies(rng(c, k, j, m), seg(c, k, j, m, r) == dcoef(o, k, j, m, c.a(0))))
    return d


for inst in ("gsplines::GSpline", "gsplines::collocation::GaussLobattoLagrangeSpline"):
    H = "gsplines::GSplineInheritanceHelper<%s, gsplines::GSplineBase>::" % inst
    contract(H + "deriv_impl", 1, cls=inst, props=["C06"], ensures=deriv_ens, loops=[loop0, loop1])
