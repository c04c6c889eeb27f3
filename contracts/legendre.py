"""Contracts of the Legendre basis (C03, C09)."""
from spec import *
from contracts_gspline import *

BL = "gsplines::basis::BasisLegendre::"
# LEG(d, n, s): d-th derivative of the n-th Legendre polynomial at s; the axioms are Bonnet's recurrence and its derivatives (Leibniz)
LEG = z3.Function("LEG", z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.RealSort())


def leg_axioms(s):
    L = lambda d, n: LEG(d, n, s)
    return [L(IntVal(0), IntVal(0)) == 1, L(IntVal(0), IntVal(1)) == s,
            All(["I"], lambda n: Implies(n >= 2, L(IntVal(0), n) == 1 / toreal(n) * ((2 * toreal(n) - 1) * s * L(IntVal(0), n - 1) - (toreal(n) - 1) * L(IntVal(0), n - 2))), lambda n: [L(IntVal(0), n)], 1),
            All(["I", "I"], lambda d, n: Implies(And(d >= 1, n >= 2), L(d, n) == 1 / toreal(n) * ((2 * toreal(n) - 1) * (s * L(d, n - 1) + toreal(d) * L(d - 1, n - 1)) - (toreal(n) - 1) * L(d, n - 2))), lambda d, n: [L(d, n)], 1),
            # lemmas (lemmas.py: legendre-low, legendre-diagonal)
            All(["I", "I"], lambda d, n: Implies(And(0 <= n, n < d), L(d, n) == 0), lambda d, n: [L(d, n)]),
            All(["I", "I"], lambda d, n: Implies(And(d >= 1, n == d), L(d, n) == (2 * toreal(d) - 1) * L(d - 1, d - 1)), lambda d, n: [L(d, n)], 1)]


@invariant("gsplines::basis::Basis")
def basis_inv(c, o): return {"at least one function": c.f("dim_", o) >= 1}


@invariant("gsplines::basis::BasisLegendre")
def leg_inv(c, o): return {"work space": And(c.f("buff_next", o).r == c.f("dim_", o), c.f("buff_next", o).c == 1)}


def dim(c): return c.f("dim_")


def bonnet(argi):
    def inv(c):
        b = c.a(argi); i = c.v("i"); s = c.a(0)
        return {"counter": And(1 <= i, Or(i <= dim(c) - 1, i == 1)), "size": And(b.r == dim(c), b.c == 1),
                "recurrence so far": All(["I"], lambda k: Implies(And(0 <= k, k < dim(c), k <= i), b.f(k, IntVal(0)) == LEG(IntVal(0), k, s)))}
    return inv


contract(BL + "eval_on_window", 3, props=["C03", "C01", "C19"], requires=lambda c: [c.a(2).r == dim(c)], modifies=["arg2"], axioms=lambda c: leg_axioms(c.a(0)),
         ensures=lambda c: {"the Legendre polynomials": [c.a(2).r == dim(c), All(["I"], lambda k: Implies(And(0 <= k, k < dim(c)), c.a(2).f(k, IntVal(0)) == LEG(IntVal(0), k, c.a(0))))]},
         loops=[bonnet(2)])


def dloop(c):
    b, nx, s, tau_, d = c.a(3), c.f("buff_next"), c.a(0), c.a(1), c.v("d")
    return {"counter": And(1 <= d, d <= c.a(2) + 1), "size": And(b.r == dim(c), nx.r == dim(c)),
            "derivative of the order before": All(["I"], lambda k: Implies(And(0 <= k, k < dim(c)), b.f(k, IntVal(0)) == LEG(d - 1, k, s))),
            "next diagonal": c.v("aux") == LEG(d, d, s), "scale": c.v("mutiplier") == POWI(2 / tau_, d - 1),
            "zeros": All(["I"], lambda k: Implies(And(0 <= k, k < d - 1), nx.f(k, IntVal(0)) == 0))}


def iloop(c):
    b, nx, s, d, i = c.a(3), c.f("buff_next"), c.a(0), c.v("d"), c.v("i")
    return {"counter": And(1 <= d, d <= c.a(2), d <= i, i <= dim(c) - 1), "size": And(nx.r == dim(c)),
            "derivative so far": All(["I"], lambda k: Implies(And(0 <= k, k <= i), nx.f(k, IntVal(0)) == LEG(d, k, s))),
            "order before": All(["I"], lambda k: Implies(And(0 <= k, k < dim(c)), b.f(k, IntVal(0)) == LEG(d - 1, k, s)))}


def leg_der(c, b, k, deg): return LEG(deg, k, c.a(0)) * POWI(2 / c.a(1), deg)


contract(BL + "eval_derivative_on_window", 4, props=["C03", "C19"], requires=lambda c: [c.a(3).r == dim(c), c.a(1) > 0], modifies=["arg3", "this.buff_next"],
         axioms=lambda c: leg_axioms(c.a(0)) + lemma_powi(2 / c.a(1)),
         ensures=lambda c: {"derivatives of the Legendre polynomials in time": [c.a(3).r == dim(c), All(["I"], lambda k: Implies(And(0 <= k, k < dim(c)), c.a(3).f(k, IntVal(0)) == leg_der(c, None, k, c.a(2))))]},
         loops=[bonnet(3), dloop, iloop])
contract(BL + "eval_derivative_wrt_tau_on_window", 4, props=["C03", "C08", "C19"], requires=lambda c: [c.a(3).r == dim(c), c.a(1) > 0], modifies=["arg3", "this.buff_next"],
         axioms=lambda c: leg_axioms(c.a(0)) + lemma_powi(2 / c.a(1)),
         # d/dtau of (2/tau)^deg is -deg/2 (2/tau)^(deg+1)
         ensures=lambda c: {"sensitivity to the length": [c.a(3).r == dim(c), All(["I"], lambda k: Implies(And(0 <= k, k < dim(c)), c.a(3).f(k, IntVal(0)) == LEG(c.a(2), k, c.a(0)) * (-toreal(c.a(2)) / 2) * POWI(2 / c.a(1), c.a(2) + 1)))]})


# ---------------------------------------------------------------- derivative matrix
def cf(i, j):
    """coefficient of P_j in the derivative of P_i (lemmas.py: legendre-expansion)"""
    return If(And(j < i, (i - j) % 2 == 1), 2 * toreal(j) + 1, RealVal(0))


def dmat_inv(res):
    def l0(c):
        m, n, i = res(c), c.a(0), c.v("i")
        return {"counter": And(1 <= i, Or(i <= n, i == 1)), "size": And(m.r == n, m.c == n), "rows so far": All(["I", "I"], lambda p, q: Implies(And(0 <= p, p < i, p < n, 0 <= q, q < n), m.f(p, q) == cf(p, q))),
                "rest": All(["I", "I"], lambda p, q: Implies(And(i <= p, p < n, 0 <= q, q < n), m.f(p, q) == 0))}

    def l1(c):
        m, n, i, j = res(c), c.a(0), c.v("i"), c.v("j")
        return {"counter": And(1 <= i, i < n, 0 <= j, j <= n - 1), "size": And(m.r == n, m.c == n), "rows so far": All(["I", "I"], lambda p, q: Implies(And(0 <= p, p < i, 0 <= q, q < n), m.f(p, q) == cf(p, q))),
                "this row": All(["I"], lambda q: Implies(And(0 <= q, q < n), m.f(i, q) == If(q < j, cf(i, q), RealVal(0)))),
                "rest": All(["I", "I"], lambda p, q: Implies(And(i < p, p < n, 0 <= q, q < n), m.f(p, q) == 0))}
    return [l0, l1]


contract(BL + "derivative_matrix", 1, static=True, props=["C03", "C06", "C17"], requires=lambda c: c.a(0) >= 1,
         ensures=lambda c: {"size": And(c.res.r == c.a(0), c.res.c == c.a(0)), "expansion of the derivatives": All(["I", "I"], lambda i, j: Implies(And(0 <= i, i < c.a(0), 0 <= j, j < c.a(0)), c.res.f(i, j) == cf(i, j)))},
         loops=dmat_inv(lambda c: c.v("result")))
contract("gsplines::basis::gsplines_legendre_dmat", 2, props=["C03", "C09"], requires=lambda c: c.a(0) >= 1, modifies=["arg1"],
         ensures=lambda c: {"size": And(c.a(1).r == c.a(0), c.a(1).c == c.a(0)), "expansion of the derivatives": All(["I", "I"], lambda i, j: Implies(And(0 <= i, i < c.a(0), 0 <= j, j < c.a(0)), c.a(1).f(i, j) == cf(i, j)))},
         loops=dmat_inv(lambda c: c.a(1)))

# powers of the (transposed) derivative matrix: DLM(n, k) maps coefficients to those of the k-th derivative (lemmas.py: legendre-matrix)
DLM = z3.Function("DLM", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())


def inr(n, *xs): return And(*[And(0 <= x, x < n) for x in xs])


def dlm_axioms(n):
    return [All(["I", "I"], lambda p, q: Implies(inr(n, p, q), DLM(n, IntVal(0), p, q) == If(p == q, RealVal(1), RealVal(0))), lambda p, q: [DLM(n, IntVal(0), p, q)]),
            All(["I", "I"], lambda p, q: Implies(inr(n, p, q), DLM(n, IntVal(1), p, q) == cf(q, p)), lambda p, q: [DLM(n, IntVal(1), p, q)]),
            All(["I", "I", "I"], lambda k, p, q: Implies(And(k >= 2, inr(n, p, q)), DLM(n, k, p, q) == Sum(n, lambda r: DLM(n, k - 1, p, r) * cf(q, r))), lambda k, p, q: [DLM(n, k, p, q)], 1)]


contract(BL + "derivative_matrix_impl", 1, props=["C03", "C06", "C17"], axioms=lambda c: dlm_axioms(dim(c)),
         ensures=lambda c: {"size": And(c.res.r == dim(c), c.res.c == dim(c)), "matrix of the derivative": All(["I", "I"], lambda p, q: Implies(inr(dim(c), p, q), c.res.f(p, q) == DLM(dim(c), c.a(0), p, q)))},
         loops=[lambda c: {"counter": And(2 <= c.v("i"), c.v("i") <= c.a(0) + 1, c.a(0) >= 1), "size": And(c.v("result").r == dim(c), c.v("result").c == dim(c), c.v("dm").r == dim(c), c.v("dm").c == dim(c)),
                           "power": All(["I", "I"], lambda p, q: Implies(inr(dim(c), p, q), c.v("result").f(p, q) == DLM(dim(c), c.v("i") - 1, p, q)))}])

# Gram matrix of the k-th derivatives on the window, from orthogonality of the polynomials
GLEG = z3.Function("GLEG", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
def gleg(n, k, i, j): return GLEG(n, k, i, j)
def gleg_def(n): return All(["I", "I", "I"], lambda k, i, j: Implies(inr(n, i, j), GLEG(n, k, i, j) == gleg_sum(n, k, i, j)), lambda k, i, j: [GLEG(n, k, i, j)], 1)
def gleg_sum(n, k, i, j): return Sum(n, lambda r: Sum(n, lambda p: DLM(n, k, p, i) * If(p == r, 2 / (2 * toreal(p) + 1), RealVal(0))) * DLM(n, k, r, j))
def gleg0(i, j): return If(i == j, 2 / (2 * toreal(i) + 1), RealVal(0))


def gram_ok(c, s, n, upto, o=None):
    return [All(["I", "I", "I"], lambda k, i, j: Implies(And(0 <= k, k < upto, inr(n, i, j)), s.at(k).f(i, j) == If(k == 0, gleg0(i, j), gleg(n, k, i, j)))),
            All(["I"], lambda k: Implies(And(0 <= k, k < upto), And(s.at(k).r == n, s.at(k).c == n)))]


@invariant("gsplines::basis::BasisLegendre")
def leg_inv(c, o):
    n = c.f("dim_", o); s = c.f("derivative_matrices_buffer_", o)
    return {"work space": And(c.f("buff_next", o).r == n, c.f("buff_next", o).c == 1), "one Gram matrix per order": s.len() == n + 1, "Gram matrices of the derivatives": gram_ok(c, s, n, n + 1)}


def ctor0(c):
    m = c.v("l2normbase_matrix"); n = c.a(0); i = c.v("i")
    return {"counter": And(0 <= i, i <= n), "size": And(m.r == n, m.c == n), "diagonal": All(["I", "I"], lambda p, q: Implies(inr(n, p, q), m.f(p, q) == If(And(p == q, p < i), 2 / (2 * toreal(p) + 1), RealVal(0))))}


def ctor1(c):
    m = c.v("dmat"); n = c.a(0); i = c.v("i"); s = c.f("derivative_matrices_buffer_"); d1 = c.f("derivative_matrix_")
    return {"counter": And(1 <= i, i <= n + 1), "size": And(m.r == n, m.c == n), "power": All(["I", "I"], lambda p, q: Implies(inr(n, p, q), m.f(p, q) == DLM(n, i, p, q))),
            "so far": [s.len() == i] + gram_ok(c, s, n, i)}


contract(BL + "BasisLegendre", 1, sig="(std::size_t)", props=["C03", "C09", "C18"], requires=lambda c: c.a(0) >= 1, axioms=lambda c: dlm_axioms(c.a(0)) + [gleg_def(c.a(0))],
         ensures=lambda c: {"dimension": dim(c) == c.a(0), "name": c.f("name_").t == IntVal(symex.strid("legendre")), "no parameters": And(c.f("parameters_float_").r == 0, c.f("parameters_int_").r == 0)},
         loops=[ctor0, ctor1])


def same_basis(c, src):
    return {"dimension": dim(c) == c.of("dim_", src), "name": c.f("name_").t == c.of("name_", src).t, "parameters": same_vec(c.f("parameters_float_"), c.of("parameters_float_", src)) + same_vec(c.f("parameters_int_"), c.of("parameters_int_", src))}


contract(BL + "BasisLegendre", 1, sig="(const BasisLegendre &)", props=["C18", "C19"], ensures=lambda c: same_basis(c, c.args[0]))
contract(BL + "BasisLegendre", 1, sig="(BasisLegendre &&)", props=["C18", "C19"], modifies=["arg0"], ensures=lambda c: same_basis(c, c.args[0]))


def qleg(c, i, j, tau_, deg):
    n = dim(c)
    return If(deg > n, RealVal(0), If(deg == 0, gleg0(i, j) * tau_ / 2, gleg(n, deg, i, j) * POWI(2 / tau_, 2 * deg - 1)))


def qtleg(c, i, j, tau_, deg):
    """derivative of qleg by tau"""
    n = dim(c)
    return If(deg > n, RealVal(0), If(deg == 0, gleg0(i, j) / 2, gleg(n, deg, i, j) * (-(2 * toreal(deg) - 1) / 2) * POWI(2 / tau_, 2 * deg)))


for nm, q in (("add_derivative_matrix", qleg), ("add_derivative_matrix_deriv_wrt_tau", qtleg)):
    contract(BL + nm, 3, props=["C09", "C03"], requires=lambda c: [c.a(0) > 0, c.a(2).r == dim(c), c.a(2).c == dim(c)], modifies=["arg2"],
             ensures=lambda c, q=q: {"adds the integrals of the products": [c.a(2).r == dim(c), c.a(2).c == dim(c), All(["I", "I"], lambda i, j: Implies(inr(dim(c), i, j), c.a(2).f(i, j) == c.oa(2).f(i, j) + q(c, i, j, c.a(0), c.a(1))))]})
