"""Contracts of the interpolator (C07, C08): the blocks of the interpolating matrix, the buffers, the right-hand side."""
from spec import *
from contracts_gspline import *

IP = "gsplines::Interpolator::"
Z0 = IntVal(0)


HDIM = z3.Function("HDIM", z3.IntSort(), z3.IntSort())     # half the size of a basis of even size
EVEN = {"DIM": lambda b: HDIM(b)}


def D(c): return DIM(c.f("basis_").t)
def CD(c): return c.f("codom_dim_")
def NI(c): return c.f("num_intervals_")


@invariant("gsplines::Interpolator")
def interp_inv(c, o):
    d = DIM(c.f("basis_", o).t); k = c.f("codom_dim_", o); n = c.f("num_intervals_", o)
    M = c.f("interpolating_matrix_", o)
    return {"even basis size": And(d >= 2, d % 2 == 0), "sizes": And(k >= 0, n >= 0, c.f("matrix_size_", o) == n * d * k),
            "matrix size": And(M.r == n * d * k, M.c == n * d * k), "right-hand side size": And(c.f("interpolating_vector_", o).r == n * d * k),
            "buffers": And(c.f("position_buffer_", o).r == d, c.f("derivative_buffer_tranposed_", o).r == d, c.f("derivative_buffer_tranposed_", o).c == d - 2)}


# the virtual functions of a basis
contract("gsplines::basis::Basis::eval_derivative_on_window", 4, abstract=True, requires=lambda c: c.a(3).r == DIM(c.this.t), modifies=["arg3"],
         ensures=lambda c: [c.a(3).r == DIM(c.this.t), All(["I"], lambda k: Implies(And(0 <= k, k < DIM(c.this.t)), c.a(3).f(k, Z0) == BD(c.this.t, c.a(2), k, c.a(0), c.a(1))))])
contract("gsplines::basis::Basis::eval_derivative_wrt_tau_on_window", 4, abstract=True, requires=lambda c: c.a(3).r == DIM(c.this.t), modifies=["arg3"],
         ensures=lambda c: [c.a(3).r == DIM(c.this.t), All(["I"], lambda k: Implies(And(0 <= k, k < DIM(c.this.t)), c.a(3).f(k, Z0) == BT(c.this.t, c.a(2), k, c.a(0), c.a(1))))])

for nm, F in (("fill_buffers", BD), ("fill_buffers_deriv_wrt_tau", BT)):
    def post(c, n, F=F):
        b = c.f("basis_").t; p, q = c.f("position_buffer_"), c.f("derivative_buffer_tranposed_")
        return {"values": [p.r == D(c), All(["I"], lambda k: Implies(And(0 <= k, k < D(c)), p.f(k, Z0) == F(b, Z0, k, c.a(0), c.a(1))))],
                "derivatives": [q.r == D(c), q.c == D(c) - 2, All(["I", "I"], lambda k, d: Implies(And(0 <= k, k < D(c), 0 <= d, d < n), q.f(k, d) == F(b, d + 1, k, c.a(0), c.a(1))))]}
    contract(IP + nm, 2, props=["C07"] if F is BD else ["C08"], modifies=["this.position_buffer_", "this.derivative_buffer_tranposed_"],
             ensures=lambda c, post=post: post(c, D(c) - 2),
             loops=[lambda c, post=post: dict(post(c, c.v("der")), range=And(0 <= c.v("der"), c.v("der") <= D(c) - 2))])


# ---------------------------------------------------------------- blocks: one band of rows per component
def block(c, mi, h, entry, cc, row=None, part=None):
    """the matrix argument mi after the components below cc: in row i0 + comp*h + d the columns j0 + D*comp ... + D - 1 are entry(m, d), everything else is as before"""
    i0, j0 = c.a(0), c.a(1); m, m0 = c.a(mi), c.oa(mi); d = D(c)
    inb = lambda k, e: And(0 <= k, k < cc, 0 <= e, e < h)
    return {"size": And(m.r == m0.r, m.c == m0.c),
            "band": All(["I", "I", "I"], lambda k, e, q: Implies(And(inb(k, e), 0 <= q, q < d), m.f(i0 + k * h + e, j0 + d * k + q) == entry(q, e))),
            "rest of the rows": All(["I", "I", "I"], lambda k, e, j: Implies(And(inb(k, e), Or(j < j0 + d * k, j >= j0 + d * k + d)), m.f(i0 + k * h + e, j) == m0.f(i0 + k * h + e, j))),
            "other rows": All(["I", "I"], lambda i, j: Implies(Or(i < i0, i >= i0 + cc * h), m.f(i, j) == m0.f(i, j)))}


def pos_block(c, cc):
    i0, j0 = c.a(0), c.a(1); m, m0, d, p = c.a(2), c.oa(2), D(c), c.f("position_buffer_")
    return {"size": And(m.r == m0.r, m.c == m0.c),
            "band": All(["I", "I"], lambda k, q: Implies(And(0 <= k, k < cc, 0 <= q, q < d), m.f(i0 + k, j0 + d * k + q) == p.f(q, Z0))),
            "rest of the rows": All(["I", "I"], lambda k, j: Implies(And(0 <= k, k < cc, Or(j < j0 + d * k, j >= j0 + d * k + d)), m.f(i0 + k, j) == m0.f(i0 + k, j))),
            "other rows": All(["I", "I"], lambda i, j: Implies(Or(i < i0, i >= i0 + cc), m.f(i, j) == m0.f(i, j)))}


def rows(c, n):
    i0 = c.a(0)
    return lambda i, j: And(i0 <= i, i < i0 + n)


def no_frame(d): return {k: v for k, v in d.items() if k != "other rows"}


def fits(c, mi, rows): return [c.a(0) + rows <= c.a(mi).r, c.a(1) + D(c) * CD(c) <= c.a(mi).c, c.a(0) >= 0, c.a(1) >= 0]


contract(IP + "fill_position_block", 3, props=["C07", "C08"], modifies=["arg2"], requires=lambda c: fits(c, 2, CD(c)),
         footprint=lambda c: {"arg2": rows(c, CD(c))}, ensures=lambda c: no_frame(pos_block(c, CD(c))),
         loops=[lambda c: dict(pos_block(c, c.v("codom_coor")), range=And(0 <= c.v("codom_coor"), c.v("codom_coor") <= CD(c))),
                lambda c: dict(pos_inner(c), range=And(0 <= c.v("basis_coor"), c.v("basis_coor") <= D(c), 0 <= c.v("codom_coor"), c.v("codom_coor") < CD(c)))])


def pos_inner(c):
    i0, j0 = c.a(0), c.a(1); m, m0, d, p = c.a(2), c.oa(2), D(c), c.f("position_buffer_"); cc, bb = c.v("codom_coor"), c.v("basis_coor")
    return {"size": And(m.r == m0.r, m.c == m0.c),
            "band": All(["I", "I"], lambda k, q: Implies(And(0 <= k, k < cc, 0 <= q, q < d), m.f(i0 + k, j0 + d * k + q) == p.f(q, Z0))),
            "row so far": All(["I"], lambda q: Implies(And(0 <= q, q < bb), m.f(i0 + cc, j0 + d * cc + q) == p.f(q, Z0))),
            "rest of this row": All(["I"], lambda j: Implies(Or(j < j0 + d * cc, j >= j0 + d * cc + bb), m.f(i0 + cc, j) == m0.f(i0 + cc, j))),
            "rest of the rows": All(["I", "I"], lambda k, j: Implies(And(0 <= k, k < cc, Or(j < j0 + d * k, j >= j0 + d * k + d)), m.f(i0 + k, j) == m0.f(i0 + k, j))),
            "other rows": All(["I", "I"], lambda i, j: Implies(Or(i < i0, i > i0 + cc), m.f(i, j) == m0.f(i, j)))}


def der_blocks(name, mi, h, order, props):
    """a band of h rows per component; order: the two inner loops (outer, inner) as (variable, range, index of what is written)"""
    q = lambda c: c.f("derivative_buffer_tranposed_")
    sgn = lambda c: If(c.a(2), RealVal(-1), RealVal(1)) if mi == 3 else RealVal(1)
    entry = lambda c: lambda b, e: sgn(c) * q(c).f(b, e)

    def done(c, cc): return block(c, mi, h(c), entry(c), cc)

    def mid(c, inner):
        i0, j0 = c.a(0), c.a(1); m, m0, d, hh = c.a(mi), c.oa(mi), D(c), h(c); cc = c.v("codom_coor")
        r = done(c, cc)
        r.pop("other rows")
        r["range of the component"] = And(0 <= cc, cc < CD(c))
        r["other rows"] = All(["I", "I"], lambda i, j: Implies(Or(i < i0, i >= i0 + cc * hh + hh), m.f(i, j) == m0.f(i, j)))
        o1 = c.v(order[0]); o2 = c.v(order[1]) if inner else None
        if order[0] == "basis_coor":
            wr = lambda e, b: Or(b < o1, And(b == o1, e < o2)) if inner else b < o1
            r["range 1"] = And(0 <= o1, o1 < d if inner else o1 <= d)
            if inner: r["range 2"] = And(0 <= o2, o2 <= hh)
        else:
            wr = lambda e, b: Or(e < o1, And(e == o1, b < o2)) if inner else e < o1
            r["range 1"] = And(0 <= o1, o1 < hh if inner else o1 <= hh)
            if inner: r["range 2"] = And(0 <= o2, o2 <= d)
        r["this component"] = All(["I", "I", "I"], lambda k, e, b: Implies(And(k == cc, 0 <= e, e < hh, 0 <= b, b < d), m.f(i0 + k * hh + e, j0 + d * k + b) == If(wr(e, b), entry(c)(b, e), m0.f(i0 + k * hh + e, j0 + d * k + b))))
        r["rest of this component"] = All(["I", "I", "I"], lambda k, e, j: Implies(And(k == cc, 0 <= e, e < hh, Or(j < j0 + d * k, j >= j0 + d * k + d)), m.f(i0 + k * hh + e, j) == m0.f(i0 + k * hh + e, j)))
        return r

    contract(IP + name, mi + 1, props=props, modifies=["arg%d" % mi], requires=lambda c: fits(c, mi, CD(c) * h(c)),
             footprint=lambda c: {"arg%d" % mi: rows(c, CD(c) * h(c))}, ensures=lambda c: no_frame(done(c, CD(c))),
             half=EVEN, loops=[lambda c: dict(done(c, c.v("codom_coor")), range=And(0 <= c.v("codom_coor"), c.v("codom_coor") <= CD(c))),
                    lambda c: mid(c, False), lambda c: mid(c, True)])


der_blocks("fill_continuity_derivative_block", 3, lambda c: D(c) - 2, ("basis_coor", "der_coor"), ["C07", "C08"])
der_blocks("fill_boundary_derivative_block", 2, lambda c: D(c) / 2 - 1, ("der_coor", "basis_coor"), ["C07", "C08"])


# ---------------------------------------------------------------- the whole matrix and the right-hand side, row kind by row kind
def H(c): return D(c) / 2 - 1
def G(c): return D(c) - 2
def B(c, q): return CD(c) * (H(c) + 2) + (q - 1) * CD(c) * D(c)          # first row of the conditions at break point q
def J(c, q): return q * (CD(c) * D(c))                                    # first column of interval q


def between(a, x, b): return And(a <= x, x < b)


def kinds(c, F, n):
    """F(degree, m, s, q): entry of basis function m at the end s of interval q
    name -> (quantified over intervals?, condition, rows per component (None: one row, no derivative index), row(q, k, e), [(first column, entry(m, e, q))])"""
    C = CD(c); mi, pl = RealVal(-1), RealVal(1); d = D(c)
    return {
        "first way-point": (None, None, None, lambda q, k, e: k, [(lambda q, k: d * k, lambda m, e, q: F(Z0, m, mi, Z0))]),
        "derivatives at the start": (None, None, H(c), lambda q, k, e: C + k * H(c) + e, [(lambda q, k: d * k, lambda m, e, q: F(e + 1, m, mi, Z0))]),
        "end of the first interval": (None, None, None, lambda q, k, e: C + C * H(c) + k, [(lambda q, k: d * k, lambda m, e, q: F(Z0, m, pl, Z0))]),
        "derivatives at the end of the only interval": (None, n == 1, H(c), lambda q, k, e: 2 * C + C * H(c) + k * H(c) + e, [(lambda q, k: d * k, lambda m, e, q: F(e + 1, m, pl, Z0))]),
        "continuity": (lambda q: And(1 <= q, q < n), None, G(c), lambda q, k, e: B(c, q) + k * G(c) + e,
                       [(lambda q, k: J(c, q - 1) + d * k, lambda m, e, q: F(e + 1, m, pl, q - 1)), (lambda q, k: J(c, q) + d * k, lambda m, e, q: -F(e + 1, m, mi, q))]),
        "start of an interval": (lambda q: And(1 <= q, q < n), None, None, lambda q, k, e: B(c, q) + C * G(c) + k, [(lambda q, k: J(c, q) + d * k, lambda m, e, q: F(Z0, m, mi, q))]),
        "end of an interval": (lambda q: And(1 <= q, q < n - 1), None, None, lambda q, k, e: B(c, q) + C * G(c) + C + k, [(lambda q, k: J(c, q) + d * k, lambda m, e, q: F(Z0, m, pl, q))]),
        "derivatives at the end": (None, n > 1, H(c), lambda q, k, e: B(c, n - 1) + C * G(c) + C + k * H(c) + e, [(lambda q, k: J(c, n - 1) + d * k, lambda m, e, q: F(e + 1, m, pl, n - 1))]),
        "last way-point": (None, n > 1, None, lambda q, k, e: B(c, n - 1) + C * G(c) + C + C * H(c) + k, [(lambda q, k: J(c, n - 1) + d * k, lambda m, e, q: F(Z0, m, pl, n - 1))]),
    }


def value_entry(c, t):
    """value / derivative of the basis functions on intervals of the lengths t"""
    b = c.f("basis_").t
    return lambda deg, m, s, q: BD(b, deg, m, s, t.f(q, Z0))


def clauses(c, ks, which, M, rng=None, zero_only=False):
    """the rows of the kinds in `which`: bands and zeros elsewhere; rng: condition on q replacing the one of the kind"""
    out = {}; d, C = D(c), CD(c)
    for nm in which:
        qr, cond, h, row, bands = ks[nm]
        if rng is not None and qr is not None: qr = rng
        cond = BoolVal(True) if cond is None else cond
        vs = (["I"] if qr is not None else []) + ["I"] + (["I"] if h is not None else []) + ["I"]

        def unpack(a, qr=qr, cond=cond, h=h):
            a = list(a); q = a.pop(0) if qr is not None else Z0; k = a.pop(0); e = a.pop(0) if h is not None else Z0
            g = And(cond, 0 <= k, k < C, *([qr(q)] if qr is not None else []), *([0 <= e, e < h] if h is not None else []))
            return q, k, e, a[0], g
        for bi, (col, ent) in enumerate(bands):
            if zero_only: continue
            def band(*a, col=col, ent=ent, row=row, unpack=unpack):
                q, k, e, m, g = unpack(a)
                return Implies(And(g, 0 <= m, m < d), M.f(row(q, k, e), col(q, k) + m) == ent(m, e, q))
            out["%s: entries%s" % (nm, "" if len(bands) == 1 else " %d" % (bi + 1))] = All(vs, band)

        def zero(*a, row=row, unpack=unpack, bands=bands):
            q, k, e, j, g = unpack(a)
            return Implies(And(g, *[Or(j < col(q, k), j >= col(q, k) + d) for col, _ in bands]), M.f(row(q, k, e), j) == 0)
        out["%s: zeros" % nm] = All(vs, zero)
    return out


ONCE = ["first way-point", "derivatives at the start", "end of the first interval"]
EACH = ["continuity", "start of an interval", "end of an interval"]
ALL_KINDS = ONCE + ["derivatives at the end of the only interval"] + EACH + ["derivatives at the end", "last way-point"]


def zeros0(c):
    M = c.f("interpolating_matrix_")
    return list(clauses(c, kinds(c, value_entry(c, c.a(0)), NI(c)), ALL_KINDS, M, zero_only=True).values())


def fim_loop(c):
    k = c.v("interval_coor"); M, M0 = c.f("interpolating_matrix_"), c.of("interpolating_matrix_"); n = NI(c); ks = kinds(c, value_entry(c, c.a(0)), n); d, C = D(c), CD(c)
    r = {"range": And(1 <= k, k <= n - 1), "row": c.v("i0") == B(c, k), "column": c.v("j0") == J(c, k), "size": And(M.r == M0.r, M.c == M0.c)}
    r.update(clauses(c, ks, ONCE, M)); r.update(clauses(c, ks, EACH, M, rng=lambda q: And(1 <= q, q < k)))
    b = c.f("basis_").t; t = c.a(0).f(k - 1, Z0)
    r["open continuity rows"] = All(["I"] * 3, lambda x, e, m: Implies(And(0 <= x, x < C, 0 <= e, e < G(c), 0 <= m, m < d), M.f(B(c, k) + x * G(c) + e, J(c, k - 1) + d * x + m) == BD(b, e + 1, m, RealVal(1), t)))
    r["open continuity rows: rest"] = All(["I"] * 3, lambda x, e, j: Implies(And(0 <= x, x < C, 0 <= e, e < G(c), Or(j < J(c, k - 1) + d * x, j >= J(c, k - 1) + d * x + d)), M.f(B(c, k) + x * G(c) + e, j) == M0.f(B(c, k) + x * G(c) + e, j)))
    r["rows to come"] = All(["I"] * 2, lambda i, j: Implies(i >= B(c, k) + C * G(c), M.f(i, j) == M0.f(i, j)))
    r["buffers"] = And(c.f("position_buffer_").r == d, c.f("derivative_buffer_tranposed_").r == d, c.f("derivative_buffer_tranposed_").c == d - 2)
    return r


contract(IP + "fill_interpolating_matrix", 1, props=["C07", "C08"], modifies=["this.interpolating_matrix_", "this.position_buffer_", "this.derivative_buffer_tranposed_"],
         requires=lambda c: [NI(c) >= 1] + zeros0(c), throws=lambda c: c.a(0).r != NI(c),
         ensures=lambda c: clauses(c, kinds(c, value_entry(c, c.a(0)), NI(c)), ALL_KINDS, c.f("interpolating_matrix_")), loops=[fim_loop], half=EVEN)


def vkinds(c, W, n):
    """rows of the right-hand side: name -> (condition on q, condition, rows per component, row(q, k, e), value(q, k))"""
    C = CD(c); zero = lambda q, k: RealVal(0)
    return {
        "first way-point": (None, None, None, lambda q, k, e: k, lambda q, k: W(Z0, k)),
        "derivatives at the start": (None, None, H(c), lambda q, k, e: C + k * H(c) + e, zero),
        "end of the first interval": (None, None, None, lambda q, k, e: C + C * H(c) + k, lambda q, k: W(IntVal(1), k)),
        "derivatives at the end of the only interval": (None, n == 1, H(c), lambda q, k, e: 2 * C + C * H(c) + k * H(c) + e, zero),
        "continuity": (lambda q: And(1 <= q, q < n), None, G(c), lambda q, k, e: B(c, q) + k * G(c) + e, zero),
        "start of an interval": (lambda q: And(1 <= q, q < n), None, None, lambda q, k, e: B(c, q) + C * G(c) + k, lambda q, k: W(q, k)),
        "end of an interval": (lambda q: And(1 <= q, q < n - 1), None, None, lambda q, k, e: B(c, q) + C * G(c) + C + k, lambda q, k: W(q + 1, k)),
        "derivatives at the end": (None, n > 1, H(c), lambda q, k, e: B(c, n - 1) + C * G(c) + C + k * H(c) + e, zero),
        "last way-point": (None, n > 1, None, lambda q, k, e: B(c, n - 1) + C * G(c) + C + C * H(c) + k, lambda q, k: W(n, k)),
    }


DERIVED = ["derivatives at the start", "derivatives at the end of the only interval", "continuity", "derivatives at the end"]
POSITION = [k for k in ALL_KINDS if k not in DERIVED]


def vclauses(c, v, which, rng=None, wp=True, W=None):
    out = {}; C = CD(c); W = W or (c.a(0).f if wp else None); ks = vkinds(c, W, NI(c))
    for nm in which:
        qr, cond, h, row, val = ks[nm]
        if rng is not None and qr is not None: qr = rng
        cond = BoolVal(True) if cond is None else cond
        vs = (["I"] if qr is not None else []) + ["I"] + (["I"] if h is not None else [])

        def body(*a, qr=qr, cond=cond, h=h, row=row, val=val):
            a = list(a); q = a.pop(0) if qr is not None else Z0; k = a.pop(0); e = a.pop(0) if h is not None else Z0
            g = And(cond, 0 <= k, k < C, *([qr(q)] if qr is not None else []), *([0 <= e, e < h] if h is not None else []))
            return Implies(g, v.f(row(q, k, e), Z0) == val(q, k))
        out[nm] = All(vs, body)
    return out


def vbase(c, start, upto=None):
    """what holds with vector_coor == start: derivative rows still zero, rows from there on as before"""
    v, v0 = c.f("interpolating_vector_"), c.of("interpolating_vector_")
    r = {"zero: " + k: x for k, x in vclauses(c, v, DERIVED).items()}
    r["rows to come"] = All(["I"], lambda i: Implies(i >= start, v.f(i, Z0) == v0.f(i, Z0)))
    r["size"] = And(v.r == v0.r, v.c == 1, c.v("vector_coor") == start)
    return r


def part(c, name, q, cnt):
    """first cnt rows of one group of position rows"""
    v = c.f("interpolating_vector_"); _, _, _, row, val = vkinds(c, c.a(0).f, NI(c))[name]
    return All(["I"], lambda k: Implies(And(0 <= k, k < cnt), v.f(row(q, k, Z0), Z0) == val(q, k)))


def vloop(done, name, q, each=None, extra=None):
    def inv(c):
        cc = c.v("codom_coor"); C = CD(c); qq = q(c); row = vkinds(c, c.a(0).f, NI(c))[name][3]
        r = vbase(c, row(qq, cc, Z0))
        r["range"] = And(0 <= cc, cc <= C)
        for d in done: r[d] = part(c, d, Z0, C)
        if each is not None: r.update(vclauses(c, c.f("interpolating_vector_"), ["start of an interval", "end of an interval"], rng=lambda x: And(1 <= x, x < each(c))))
        if extra is not None: r.update(extra(c))
        r["this group"] = part(c, name, qq, cc)
        return r
    return inv


def vouter(c):
    k = c.v("interval_coor"); C, n = CD(c), NI(c)
    r = vbase(c, B(c, k) + C * G(c)); r["range"] = And(1 <= k, k <= n - 1)
    for d in ("first way-point", "end of the first interval"): r[d] = part(c, d, Z0, C)
    r.update(vclauses(c, c.f("interpolating_vector_"), ["start of an interval", "end of an interval"], rng=lambda x: And(1 <= x, x < k)))
    return r


def kin(c): return {"interval": And(1 <= c.v("interval_coor"), c.v("interval_coor") < NI(c) - 1)}


F2 = ["first way-point", "end of the first interval"]
contract(IP + "fill_interpolating_vector", 1, props=["C07"], modifies=["this.interpolating_vector_"], half=EVEN,
         requires=lambda c: [NI(c) >= 1, c.a(0).r == NI(c) + 1, c.a(0).c == CD(c)] + list(vclauses(c, c.f("interpolating_vector_"), DERIVED).values()),
         ensures=lambda c: dict(vclauses(c, c.f("interpolating_vector_"), ALL_KINDS)),
         loops=[vloop([], "first way-point", lambda c: Z0), vloop(F2[:1], "end of the first interval", lambda c: Z0), vouter,
                vloop(F2, "start of an interval", lambda c: c.v("interval_coor"), lambda c: c.v("interval_coor"), kin),
                vloop(F2, "end of an interval", lambda c: c.v("interval_coor"), lambda c: c.v("interval_coor"), lambda c: dict(kin(c), start=part(c, "start of an interval", c.v("interval_coor"), CD(c)))),
                vloop(F2, "start of an interval", lambda c: NI(c) - 1, lambda c: NI(c) - 1),
                vloop(F2, "last way-point", lambda c: NI(c) - 1, lambda c: NI(c) - 1, lambda c: {"start": part(c, "start of an interval", NI(c) - 1, CD(c))})])


# ---------------------------------------------------------------- the linear system
class Solver(Opaque):
    def __init__(self, m): self.what = "Eigen::SparseLU"; self.m = m


def sparse_lu(X, o, name, lv, argn, n):
    """trusted: SparseLU of a regular matrix succeeds and solve() returns the solution of the linear system"""
    if not o.what.startswith("Eigen::SparseLU") or "." in o.what: return NotImplemented
    if name == "compute":
        X.external.add("SparseLU::compute/solve: the matrix is regular and the linear system is solved exactly") if hasattr(X, "external") else None
        lv.set(X, Solver(X.rv(argn[0]))); return None
    if name == "info": return IntVal(0)
    if name == "solve" and isinstance(o, Solver):
        v = X.rv(argn[0]); m = o.m
        X.obligation("size of the right-hand side", v.r == m.r, "safe")
        x = X.freshmat(m.c, 1, "solution")
        X.solve_fact = X.known(All(["I"], lambda i: Implies(And(0 <= i, i < m.r), Sum(m.c, lambda j: m.f(i, j) * x.f(j, Z0)) == v.f(i, Z0))))
        return x
    return NotImplemented


REG.opaques.append(sparse_lu)


def quant(c, ks, nm):
    """(sorts, unpack) of the rows of a kind"""
    qr, cond, h, row, bands = ks[nm]
    cond = BoolVal(True) if cond is None else cond
    vs = (["I"] if qr is not None else []) + ["I"] + (["I"] if h is not None else [])

    def unpack(a):
        a = list(a); q = a.pop(0) if qr is not None else Z0; k = a.pop(0); e = a.pop(0) if h is not None else Z0
        g = And(cond, 0 <= k, k < CD(c), *([qr(q)] if qr is not None else []), *([0 <= e, e < h] if h is not None else []))
        return q, k, e, g
    return vs, unpack


def sizes_known(c):
    """facts about the sizes, as one formula"""
    return c.X.obligation("sizes", And(D(c) >= 2, CD(c) >= 0, NI(c) >= 1), "step")


def banded(c, M, x, ks, names, tag):
    """lemma band-sum (lemmas.py): a sum whose terms vanish outside disjoint bands is the sum over the bands; its premises are proved here"""
    X = c.X; N = NI(c) * D(c) * CD(c); d = D(c); out = {}
    for nm in names:
        vs, unpack = quant(c, ks, nm); row, bands = ks[nm][3], ks[nm][4]
        term = lambda a, j, unpack=unpack, row=row: M.f(row(*unpack(a)[:3]), j) * x.f(j, Z0)
        cols = lambda a, unpack=unpack, bands=bands: [col(*unpack(a)[:2]) for col, _ in bands]
        X.obligation("%s, %s: bands inside the row" % (tag, nm), All(vs, lambda *a, unpack=unpack, cols=cols, bands=bands: Implies(unpack(a)[3], And(cols(a)[0] >= 0, cols(a)[-1] + d <= N, *([cols(a)[0] + d <= cols(a)[1]] if len(bands) > 1 else [])))), "step")
        X.obligation("%s, %s: nothing outside the bands" % (tag, nm), All(vs + ["I"], lambda *a, unpack=unpack, cols=cols, term=term: Implies(And(unpack(a[:-1])[3], 0 <= a[-1], a[-1] < N, *[Or(a[-1] < w, a[-1] >= w + d) for w in cols(a[:-1])]), term(a[:-1], a[-1]) == 0)), "step")
        out[nm] = X.known(All(vs, lambda *a, unpack=unpack, cols=cols, term=term: Implies(unpack(a)[3], Sum(N, lambda j: term(a, j)) == z3.Sum([Sum(d, lambda m, w=w: term(a, w + m)) for w in cols(a)]))))
    return out


def conditions(c, x, ks, val, names=None):
    """every condition of the system, written with the coefficients x: combination of the bands == right-hand side"""
    out = {}
    for nm in names or ALL_KINDS:
        vs, unpack = quant(c, ks, nm); bands = ks[nm][4]

        def body(*a, unpack=unpack, bands=bands, nm=nm):
            q, k, e, g = unpack(a)
            return Implies(g, z3.Sum([Sum(D(c), lambda m, col=col, ent=ent: ent(m, e, q) * x.f(col(q, k) + m, Z0)) for col, ent in bands]) == val(nm, q, k, e))
        out[nm] = All(vs, body)
    return out


def ready(c, t=0):
    """what the constructor establishes and every function keeps: zeros where the system has no entries"""
    M, v = c.f("interpolating_matrix_"), c.f("interpolating_vector_")
    r = {"matrix, " + k: x for k, x in clauses(c, kinds(c, lambda *a: RealVal(0), NI(c)), ALL_KINDS, M, zero_only=True).items()}
    r.update({"right-hand side, " + k: x for k, x in vclauses(c, v, DERIVED, wp=False).items()})
    return r


def solve_hints(c):
    X = c.X; M, v, x = c.f("interpolating_matrix_"), c.f("interpolating_vector_"), c.f("sol_buffer_"); N = NI(c) * D(c) * CD(c)
    ks = kinds(c, value_entry(c, c.a(0)), NI(c)); vk = vkinds(c, c.a(1).f, NI(c))
    X.obligation("size of the solution", And(x.r == N, x.c == 1), "step")
    rows_ = {}; sz = sizes_known(c); size = X.obligation("matrix size", And(M.r == N, M.c == N), "step"); sf = X.solve_fact
    for nm in ALL_KINDS:
        vs, unpack = quant(c, ks, nm); row, val = ks[nm][3], vk[nm][4]
        inr = X.obligation("row in range, " + nm, All(vs, lambda *a, unpack=unpack, row=row: Implies(unpack(a)[3], And(0 <= row(*unpack(a)[:3]), row(*unpack(a)[:3]) < N))), "step", using=[sz])
        rhs = X.obligation("right-hand side, " + nm, vclauses(c, v, [nm], W=c.a(1).f)[nm], "step")
        rows_[nm] = X.obligation("row of the system, " + nm, All(vs, lambda *a, unpack=unpack, row=row, val=val: Implies(unpack(a)[3], Sum(N, lambda j: M.f(row(*unpack(a)[:3]), j) * x.f(j, Z0)) == val(*unpack(a)[:2]))), "step", using=[sz, size, sf, inr, rhs])
    bands = banded(c, M, x, ks, ALL_KINDS, "system")
    for nm in ALL_KINDS:
        ents = [X.obligation("entries, " + k, f, "step") for k, f in clauses(c, ks, [nm], M).items() if "entries" in k]
        for k, f in conditions(c, x, ks, lambda nm, q, k, e: vk[nm][4](q, k), [nm]).items(): X.obligation("condition, " + k, f, "step", using=[sz, rows_[nm], bands[nm]] + ents)
    return []


contract(IP + "solve_interpolation", 2, props=["C07", "C09"], half=EVEN, may_throw=True,
         modifies=["this.interpolating_matrix_", "this.interpolating_vector_", "this.position_buffer_", "this.derivative_buffer_tranposed_", "this.sol_buffer_"],
         requires=lambda c: [NI(c) >= 1, c.a(1).r == NI(c) + 1, c.a(1).c == CD(c)] + list(ready(c).values()), hints=solve_hints,
         ensures=lambda c: dict(conditions(c, c.res, kinds(c, value_entry(c, c.a(0)), NI(c)), lambda nm, q, k, e: vkinds(c, c.a(1).f, NI(c))[nm][4](q, k)),
                                **dict(ready(c), size=And(c.res.r == NI(c) * D(c) * CD(c), c.res.c == 1))))
