"""Contracts of the Sobolev norm of way-points (C09)."""
from spec import *
from contracts_gspline import *
from contracts_interp import *

SN = "gsplines::functional_analysis::SobolevNorm::"
QM = z3.Function("QM", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.RealSort())    # integrals of the products of derivatives of the basis functions
QT = z3.Function("QT", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.RealSort())    # their derivative by the length
for nm, F in (("add_derivative_matrix", QM), ("add_derivative_matrix_deriv_wrt_tau", QT)):
    contract("gsplines::basis::Basis::" + nm, 3, abstract=True, modifies=["arg2"], requires=lambda c: And(c.a(2).r == DIM(c.this.t), c.a(2).c == DIM(c.this.t)),
             ensures=lambda c, F=F: [c.a(2).r == DIM(c.this.t), c.a(2).c == DIM(c.this.t),
                                     All(["I", "I"], lambda i, j: Implies(And(0 <= i, i < DIM(c.this.t), 0 <= j, j < DIM(c.this.t)), c.a(2).f(i, j) == c.oa(2).f(i, j) + F(c.this.t, c.a(1), i, j, c.a(0))))])


@invariant("gsplines::functional_analysis::SobolevNorm")
def norm_inv(c, o):
    d = DIM(c.f("basis_", o).t); w = c.f("weights_", o)
    return {"sizes": And(c.f("num_intervals_", o) >= 1, c.f("codom_dim_", o) >= 1, d >= 1),
            "buffers": And(c.f("matrix_", o).r == d, c.f("matrix_", o).c == d, c.f("matrix_2_", o).r == d, c.f("matrix_2_", o).c == d)}


def weighted(c, F, upto, i, j, t):
    w = c.f("weights_"); b = c.f("basis_").t
    return Sum(upto, lambda q: w.at(q).items[1] * F(b, w.at(q).items[0], i, j, t))


def entry(c, v, k, j, m): return v.f(k * D(c) * CD(c) + D(c) * j + m, Z0)


def quadform(c, F, u, v, k, j, t):
    """u' Q v for the coefficients of component j on interval k, in the order of (u' Q) v"""
    n = c.f("weights_").len()
    return Sum(D(c), lambda q: Sum(D(c), lambda p: entry(c, u, k, j, p) * weighted(c, F, n, p, q, t)) * entry(c, v, k, j, q))


def form(c, u, v, t, cnt): return Sum(cnt, lambda k: Sum(CD(c), lambda j: quadform(c, QM, u, v, k, j, t.f(k, Z0))))


def bufs(c): return And(c.f("matrix_").r == D(c), c.f("matrix_").c == D(c), c.f("matrix_2_").r == D(c), c.f("matrix_2_").c == D(c))


def sized(c): return And(c.a(0).r == NI(c), c.a(1).r == NI(c) * D(c) * CD(c), c.a(2).r == NI(c) * D(c) * CD(c))


def ip0(c): return {"range": And(0 <= c.v("interval_coor"), c.v("interval_coor") <= NI(c)), "buffers": bufs(c), "sum so far": c.v("result") == form(c, c.a(1), c.a(2), c.a(0), c.v("interval_coor"))}


def ipw(F):
    def f(c):
        m = c.f("matrix_"); t = c.v("tau")
        return {"range": And(0 <= c.idx, c.idx <= c.f("weights_").len()), "buffers": bufs(c), "weighted sum": All(["I", "I"], lambda i, j: Implies(And(0 <= i, i < D(c), 0 <= j, j < D(c)), m.f(i, j) == weighted(c, F, c.idx, i, j, t)))}
    return f


def ip2(c):
    k = c.v("interval_coor"); m = c.f("matrix_"); n = c.f("weights_").len()
    return {"range": And(0 <= c.v("codom_coor"), c.v("codom_coor") <= CD(c), 0 <= k, k < NI(c)), "buffers": bufs(c),
            "sum so far": c.v("result") == form(c, c.a(1), c.a(2), c.a(0), k) + Sum(c.v("codom_coor"), lambda j: quadform(c, QM, c.a(1), c.a(2), k, j, c.a(0).f(k, Z0)))}


contract(SN + "inner_prod", 3, props=["C09"], requires=sized, modifies=["this.matrix_", "this.matrix_2_"],
         ensures=lambda c: {"sum of the integrals": c.res == form(c, c.a(1), c.a(2), c.a(0), NI(c))}, loops=[ip0, ipw(QM), ip2])
