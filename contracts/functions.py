"""Contracts of the algebra of functions and of their derivatives (C10, C11, C12, C19).

A function is a number f with VAL(f, t, c) (value of component c at t), DOM0/DOM1, COD; DER(f, k) is its k-th derivative.
The meaning of an expression object is a function number den(o) defined by the type and the list of operands of the object:
  SUM   sum of the operands            MULTIPLICATION  first operand (any codomain) times the others (scalar)
  UNIQUE the operand   NEGATIVE minus the operand
  COMPOSITION  last operand after the chain of the others, innermost first
  CONCATENATION  first operand whose domain [a, b) has the point; before the first its value at a, from the last end on its value at b
"""
from spec import *
from contracts_gspline import *

FB = "gsplines::functions::FunctionBase::"
FE = "gsplines::functions::FunctionExpression::"
FN = "gsplines::functions::"
SUM, MUL, COMP, CONC, UNI, NEG = range(6)
EVALS = {SUM: "eval_sum_functions", MUL: "eval_mul_functions", COMP: "eval_compose_functions", CONC: "eval_concat_functions", UNI: "eval_unique_functions", NEG: "eval_negative_functions"}
DERS = {k: v.replace("eval", "deriv") for k, v in EVALS.items()}
REG.fptr_names += list(EVALS.values()) + list(DERS.values())
Z = IntVal(0)


# ---------------------------------------------------------------- meaning of a list of operands
def norm(X, seq):
    """parts of known length 0 or 1 made explicit"""
    out = []
    for p in seq.parts:
        if p[0] == "part":
            if X.entailed(p[1] == 0): continue
            if X.entailed(p[1] == 1): out.append(("one", p[2](Z))); continue
        out.append(p)
    return Seq(out)


def keyed(X, kind, fn, make):
    """function symbol of a list, by the text of its generic element"""
    b = fn(z3.Int("$lst")).t
    k = (kind, b.get_id())
    if k not in X.statics:
        import logic
        logic._keep.append(b)
        keep, X.guards = X.guards, []
        X.statics[k] = make(len(_names) if k not in _names else _names[k])
        X.guards = keep
    return X.statics[k]


_names = {}


def symbol(kind, b, *sorts):
    k = (kind, b.get_id())
    if k not in _names:
        import logic
        logic._keep.append(b); _names[k] = z3.Function("%s!%d" % (kind, len(_names)), *sorts)
    return _names[k]


def chain(X, fn):
    """CH(n, t): the first n functions of the list applied one after the other to t"""
    CH = symbol("CHAIN", fn(z3.Int("$lst")).t, z3.IntSort(), z3.RealSort(), z3.RealSort())
    k = ("chain", CH.name())
    if k not in X.statics:
        X.statics[k] = CH
        keep, X.guards = X.guards, []
        X.assume(All(["I", "R"], lambda n, t: And(Implies(n <= 0, CH(n, t) == t), Implies(n >= 1, CH(n, t) == VAL(fn(n - 1).t, CH(n - 1, t), Z))), pats=lambda n, t: [CH(n, t)], gen=2))
        X.guards = keep
    return CH


def first(X, fn, n):
    """FST(t): number of the first function of the list whose domain has t, n when there is none"""
    FS = symbol("FIRST", fn(z3.Int("$lst")).t, z3.RealSort(), z3.IntSort())
    k = ("first", FS.name())
    if k not in X.statics:
        X.statics[k] = FS
        keep, X.guards = X.guards, []
        X.assume(All(["R"], lambda t: And(0 <= FS(t), FS(t) <= n, Implies(FS(t) < n, has(fn(FS(t)).t, t))), pats=lambda t: [FS(t)], gen=2))
        X.assume(All(["R", "I"], lambda t, j: Implies(And(0 <= j, j < FS(t)), Not(has(fn(j).t, t))), pats=lambda t, j: [FS(t), fn(j).t]))
        X.guards = keep
    return FS


def has(f, t): return And(DOM0(f) <= t, t < DOM1(f))


def last_of(seq): return seq.at(simp(seq.len() - 1))


def meaning(X, ty, seq):
    """(t, c) -> value of the list of operands combined by ty"""
    v = lambda f, t, c: VAL(f.t, t, c)
    seq = norm(X, seq)
    ps = seq.parts
    if not ps: return None
    if ty == UNI: return lambda t, c: v(seq.at(0), t, c)
    if ty == NEG: return lambda t, c: -v(seq.at(0), t, c)
    if ty == SUM: return lambda t, c: seq.sum(lambda f: v(f, t, c))
    if ty == MUL:
        def mul(t, c):
            r = None
            for p in ps:
                cc = c if r is None else Z
                if p[0] == "one": x = v(p[1], t, cc)
                elif r is None or X_nonempty(X, p): x = v(p[2](Z), t, cc) * Prod(simp(p[1] - 1), lambda k, p=p: v(p[2](simp(k + 1)), t, Z))
                else: x = Prod(p[1], lambda k, p=p: v(p[2](k), t, Z))
                r = x if r is None else r * x
            return r
        for p in ps: p[0] == "one" or X_nonempty(X, p)
        return mul
    if ty == COMP:
        CH = [None if p[0] == "one" else chain(X, p[2]) for p in ps]
        def comp(t, c):
            x = t
            for i, p in enumerate(ps):
                lastp = i == len(ps) - 1
                if p[0] == "one": x = v(p[1], x, c if lastp else Z)
                elif lastp: x = v(p[2](simp(p[1] - 1)), CH[i](simp(p[1] - 1), x), c)
                else: x = CH[i](p[1], x)
            return x
        return comp
    if ty == CONC:
        FS = [None if p[0] == "one" else first(X, p[2], p[1]) for p in ps]
        f0, f1 = seq.at(0), last_of(seq)
        def conc(t, c):
            r = If(t <= DOM0(f0.t), v(f0, DOM0(f0.t), c), v(f1, DOM1(f1.t), c))
            for i, p in reversed(list(enumerate(ps))):
                if p[0] == "one": r = If(has(p[1].t, t), v(p[1], t, c), r)
                else: r = If(FS[i](t) < p[1], v(p[2](FS[i](t)), t, c), r)
            return r
        return conc


_ne = {}


def X_nonempty(X, p):
    k = (tuple(X.trail), len(X.pc), p[1].get_id())
    if k not in _ne: _ne[k] = X.entailed(p[1] >= 1)
    return _ne[k]


def covered(X, seq, t):
    """t is in the domain of some operand, or outside of all of them"""
    seq = norm(X, seq)
    ps = seq.parts
    FS = [None if p[0] == "one" else first(X, p[2], p[1]) for p in ps]
    hits = [has(p[1].t, t) if p[0] == "one" else FS[i](t) < p[1] for i, p in enumerate(ps)]
    return hits, Or(t <= DOM0(seq.at(0).t), t >= DOM1(last_of(seq).t))


DENFIELDS = {"Identity": [], "Exponential": [], "Cos": [], "Sin": [], "DotProduct": ["f1_", "f2_"], "ConstFunction": ["values_"], "DomainLinearDilation": ["dilation_factor_"], "CanonicPolynomial": ["coefficients_"]}
CLASSVAL = {}    # class -> (X, o) -> ((t, c) -> value)


def den(X, o):
    """the function an object stands for, in the current state"""
    if isinstance(o, Fn): return o.t
    if X.derives(o.cls, "gsplines::functions::FunctionExpression"):
        ty, seq = X.getfield(o, "type_"), X.getfield(o, "function_array_")
        d0, d1 = X.getfield(o, "domain_").items; cd = X.getfield(o, "codom_dim_")
        key = ("den", ty.get_id(), tuple((p[0], id(p[1]) if p[0] == "one" else p[1].get_id(), id(p[2]) if p[0] != "one" else 0) for p in seq.parts), d0.get_id(), d1.get_id(), cd.get_id())
        if key in X.statics: return X.statics[key][0]
        keepp, X.pure = X.pure, 0
        keep, X.guards = X.guards, []
        f = X.fresh("i", "den")
        X.statics[key] = (f, ty, seq, d0, d1, cd)
        X.assume(And(DOM0(f) == d0, DOM1(f) == d1, COD(f) == cd))
        cases = [z3.simplify(ty).as_long()] if z3.is_int_value(z3.simplify(ty)) else [k for k in range(6) if not X.entailed(ty != k)]
        if len(cases) == 2 and UNI in cases and cases[0] in (SUM, MUL, COMP) and X.entailed(Implies(ty == UNI, seq.len() == 1)):
            cases = cases[:1]    # lemma: a sum, product or chain of one function is this function
        for k in cases:
            m = meaning(X, k, seq)
            if m is None: continue
            ax = All(["R", "I"], lambda t, c, m=m, f=f: VAL(f, t, c) == m(t, c), pats=lambda t, c, f=f: [VAL(f, t, c)], gen=3)
            X.assume(ax if len(cases) == 1 else Imp(ty == k, ax))
        X.guards = keep; X.pure = keepp
        return f
    for cls, mk in CLASSVAL.items():
        if o.cls == cls:
            vals = [X.getfield(o, nm) for nm in DENFIELDS[cls.split("::")[-1]]]
            vals = [den(X, v) if isinstance(v, Obj) else v for v in vals]
            dm, cdm = X.getfield(o, "domain_").items, X.getfield(o, "codom_dim_")
            key = ("den", cls, tuple(v.get_id() if isinstance(v, z3.ExprRef) else id(v) for v in vals), dm[0].get_id(), dm[1].get_id(), cdm.get_id())
            if key in X.statics: return X.statics[key][0]
            keepp, X.pure = X.pure, 0
            keep, X.guards = X.guards, []
            f = X.fresh("i", "den")
            d0, d1 = X.getfield(o, "domain_").items; cd = X.getfield(o, "codom_dim_")
            X.assume(And(DOM0(f) == d0, DOM1(f) == d1, COD(f) == cd))
            X.statics[key] = (f, vals, dm, cdm)
            m = mk(X, o)
            X.assume(All(["R", "I"], lambda t, c: Implies(And(0 <= c, c < COD(f)), VAL(f, t, c) == m(t, c)), pats=lambda t, c: [VAL(f, t, c)], gen=3))
            X.guards = keep; X.pure = keepp
            return f
    raise Unsupported("function of class " + o.cls)


REG.specials["packfn"] = lambda X, o: Fn(den(X, o))
def D(c, o): return c._with(c.snap, lambda: den(c.X, o))
def OD(c, o): return c._with(c.oldstore, lambda: den(c.X, o))


# ---------------------------------------------------------------- functions as operands
contract(FB + "clone", 0, abstract=True, result=lambda c: Fn(D(c, c.this)))
contract(FB + "move_clone", 0, abstract=True, result=lambda c: Fn(D(c, c.this)))
REG.defaults[(FB + "deriv", 0)] = lambda X: IntVal(1)
contract(FB + "deriv", 1, abstract=True, result=lambda c: Fn(DER(c.this.t, c.a(0))), ensures=lambda c: der_facts(c.this.t, c.a(0)))
contract(FB + "value", 2, abstract=True, modifies=["arg1"], requires=lambda c: [c.a(1).r == c.a(0).r, c.a(1).c == COD(c.this.t)],
         ensures=lambda c: value_is(c, lambda t, j: VAL(c.this.t, t, j)))


def der_facts(f, k): return And(DOM0(DER(f, k)) == DOM0(f), DOM1(DER(f, k)) == DOM1(f), COD(DER(f, k)) == COD(f))


def value_is(c, m, ip=0, ir=1):
    pts, res = c.oa(ip) if c.oldstore is not None else c.a(ip), c.a(ir)
    if z3.is_int_value(res.r) and res.r.as_long() == 1: return [pts.r == 1, All(["I"], lambda j: Implies(And(0 <= j, j < res.c), res.f(Z, j) == m(pts.f(Z, Z), j)))]
    return [res.r == pts.r, All(["I", "I"], lambda i, j: Implies(And(0 <= i, i < res.r, 0 <= j, j < res.c), res.f(i, j) == m(pts.f(i, Z), j)))]


# ---------------------------------------------------------------- expressions
@invariant("gsplines::functions::FunctionExpression")
def expr_inv(c, o):
    ty, s, cd = c.f("type_", o), c.f("function_array_", o), cod(c, o)
    n = s.len()
    allc = lambda p: All(["I"], lambda k: Implies(And(0 <= k, k < n), p(k, COD(s.at(k).t))))
    d = {"type": And(0 <= ty, ty <= 5), "operands": n >= 1, "one operand": Implies(Or(ty == UNI, ty == NEG), n == 1), "codomain": cd >= 1,
         "name": Implies(ty == UNI, c.f("name_", o).t != 0)}
    if s.parts:
        d["codomains of the operands (sum, concatenation, one)"] = Imp(Or(ty == SUM, ty == CONC, ty == UNI, ty == NEG), allc(lambda k, x: x == cd))
        d["codomains of the operands (product)"] = Imp(ty == MUL, allc(lambda k, x: x == If(k == 0, cd, IntVal(1))))
        d["codomains of the operands (composition)"] = Imp(ty == COMP, allc(lambda k, x: x == If(k == n - 1, cd, IntVal(1))))
        f0, f1 = s.at(0).t, last_of(s).t
        d["domain of the first operand"] = Implies(And(ty != CONC, ty != MUL), And(dom0(c, o) == DOM0(f0), dom1(c, o) == DOM1(f0)))
        d["domain of a concatenation"] = Implies(ty == CONC, And(dom0(c, o) == DOM0(f0), dom1(c, o) == DOM1(f1)))
    d["dispatch"] = [Implies(ty == k, And(c.f("eval_operation_", o).t == fid(EVALS[k]), c.f("deriv_operation_", o).t == fid(DERS[k]))) for k in range(6)]
    return d


def dispatch(f, names, ty):
    r = f
    for k in range(6): r = If(ty == k, fid(names[k]), r)
    return r


contract(FE + "initialize", 0, props=["C10", "C11"], modifies=["this.eval_operation_", "this.deriv_operation_"], noinv=True, inline=True,
         throws=lambda c: Or(c.f("type_") < 0, c.f("type_") > 5),
         ensures=lambda c: {"operations of the type": [Implies(c.f("type_") == k, And(c.f("eval_operation_").t == fid(EVALS[k]), c.f("deriv_operation_").t == fid(DERS[k]))) for k in range(6)]})

for sg, mod in (("const std::list<std::unique_ptr<FunctionBase>> &", []), ("std::list<std::unique_ptr<FunctionBase>> &&", ["arg3"])):
    contract(FE + "FunctionExpression", 5, sig=sg, props=["C10", "C19"], modifies=mod, noinv=True,
             requires=lambda c: [c.a(0).items[0] <= c.a(0).items[1], 0 <= c.a(2), c.a(2) <= 5, c.a(4).t != 0],
             assigns=lambda c: {"domain_": c.a(0), "codom_dim_": c.a(1), "type_": c.a(2), "function_array_": c.a(3), "name_": c.a(4),
                                "eval_operation_": FPtr(None, None, dispatch(IntVal(0), EVALS, c.a(2))), "deriv_operation_": FPtr(None, None, dispatch(IntVal(0), DERS, c.a(2)))},
             loops=[lambda c: {"copied so far": [c.f("function_array_").len() == c.idx, c.idx <= c.seq.len(), c.idx >= 0, same_list(c.f("function_array_"), c.seq, c.idx)]}])
REG.defaults[(FE + "FunctionExpression", 4)] = lambda X: Str(IntVal(symex.strid("FunctionExpression")))


def same_list(a, b, n):
    if not a.parts or not b.parts: return BoolVal(True)
    return All(["I"], lambda k: Implies(And(0 <= k, k < n), a.at(k).t == b.at(k).t))


def copy_fields(c):
    o = c.args[0]
    return {nm: c.f(nm, o) for nm in ("domain_", "window_", "codom_dim_", "name_", "type_", "function_array_", "eval_operation_", "deriv_operation_")}


contract(FE + "FunctionExpression", 1, sig="(const FunctionExpression &)", props=["C10", "C19"], assigns=copy_fields,
         loops=[lambda c: {"copied so far": [c.f("function_array_").len() == c.idx, c.idx <= c.seq.len(), c.idx >= 0, same_list(c.f("function_array_"), c.seq, c.idx)]}])
contract(FE + "FunctionExpression", 1, sig="(FunctionExpression &&)", props=["C10", "C19"], assigns=copy_fields, modifies=["arg0.function_array_"])
for sg in ("(const FunctionBase &)", "(FunctionBase &&)"):
    contract(FE + "FunctionExpression", 1, sig=sg, props=["C10", "C19"],
             ensures=lambda c: {"the same function": pointwise(c, c.this, lambda t, j, x=OD(c, c.args[0]): VAL(x, t, j)), "domain": same_dom(c, c.this, c.args[0]), "codomain": cod(c) == c.of("codom_dim_", c.args[0]),
                                "one operand": c.f("type_") == UNI})


def pointwise(c, r, m):
    f = D(c, r)
    return All(["R", "I"], lambda t, j: Implies(And(0 <= j, j < cod(c, r)), VAL(f, t, j) == m(t, j)), pats=lambda t, j: [VAL(f, t, j)])


def same_dom(c, r, o): return And(dom0(c, r) == c.of("domain_", o).items[0], dom1(c, r) == c.of("domain_", o).items[1])


# ---------------------------------------------------------------- evaluation
def list_ok(c, ty, i=0):
    s = c.a(i); n = s.len()
    cd = COD(s.at(0).t) if ty != COMP else COD(last_of(s).t)
    allc = lambda p: All(["I"], lambda k: Implies(And(0 <= k, k < n), p(k, COD(s.at(k).t))))
    r = [n >= 1]
    if ty in (UNI, NEG): r.append(n == 1)
    if ty in (SUM, CONC): r.append(allc(lambda k, x: x == cd))
    if ty == MUL: r.append(allc(lambda k, x: Implies(k > 0, x == 1)))
    if ty == COMP: r.append(allc(lambda k, x: Implies(k < n - 1, x == 1)))
    return r, cd


def eval_req(ty):
    def f(c):
        r, cd = list_ok(c, ty)
        return r + [c.a(2).r == c.a(1).r, c.a(2).c == cd] + ([conc_ok(c)] if ty == CONC else [])
    return f


def conc_ok(c, iseq=0, ipts=1):
    s, p = c.a(iseq), c.a(ipts)
    first(c.X, s.at, s.len())
    return All(["I"], lambda i: Implies(And(0 <= i, i < p.r), Or(*(covered(c.X, s, p.f(i, Z))[0] + [covered(c.X, s, p.f(i, Z))[1]]))))


def eval_ens(ty):
    def f(c):
        m = meaning(c.X, ty, c.a(0))
        return {"value": value_is(c, m, 1, 2)}
    return f


def sum_inv(c):
    s, pts, r = c.a(0), c.a(1), c.a(2)
    return {"range": And(0 <= c.idx, c.idx <= s.len()), "partial sums": All(["I", "I"], lambda i, j: Implies(And(0 <= i, i < r.r, 0 <= j, j < r.c), r.f(i, j) == Sum(c.idx, lambda k: VAL(s.at(k).t, pts.f(i, Z), j)))),
            "buffer": And(c.v("temp").r == pts.r, c.v("temp").c == r.c)}


def mul_inv(c):
    s, pts, r = c.a(0), c.a(1), c.a(2); k = c.v("it").idx
    return {"range": And(1 <= k, k <= s.len()), "partial products": All(["I", "I"], lambda i, j: Implies(And(0 <= i, i < r.r, 0 <= j, j < r.c),
            r.f(i, j) == VAL(s.at(0).t, pts.f(i, Z), j) * Prod(simp(k - 1), lambda q: VAL(s.at(simp(q + 1)).t, pts.f(i, Z), Z)))),
            "buffer": And(c.v("temp").r == pts.r, c.v("temp").c == 1)}


def comp_inv(c):
    s, pts = c.a(0), c.a(1); k = c.v("it").idx; x = c.v("domain_points_copy")
    CH = chain(c.X, s.parts[0][2])
    return {"range": And(0 <= k, k <= s.len() - 1), "chain so far": [x.r == pts.r, All(["I"], lambda i: Implies(And(0 <= i, i < pts.r), x.f(i, Z) == CH(k, pts.f(i, Z))))],
            "buffer": And(c.v("temp").r == pts.r, c.v("temp").c == 1)}


def conc_inv(c):
    s, pts, r = c.a(0), c.a(1), c.a(2); k = c.v("i")
    m = meaning(c.X, CONC, s)
    return {"range": And(0 <= k, k <= pts.r), "buffer": And(c.v("temp").r == 1, c.v("temp").c == r.c, c.v("vector_one").r == 1),
            "rows so far": All(["I", "I"], lambda i, j: Implies(And(0 <= i, i < k, 0 <= j, j < r.c), r.f(i, j) == m(pts.f(i, Z), j)))}


EL = {SUM: [sum_inv], MUL: [mul_inv], COMP: [comp_inv], CONC: [conc_inv]}
for ty, nm in EVALS.items():
    contract(FN + nm, 3, props=["C10"], requires=eval_req(ty), ensures=eval_ens(ty), modifies=["arg2"], loops=EL.get(ty, []))

contract(FE + "value_impl", 2, props=["C10", "C19"], requires=lambda c: [c.a(1).r == c.a(0).r, c.a(1).c == cod(c), Imp(c.f("type_") == CONC, conc_ok_this(c))], modifies=["arg1"],
         ensures=lambda c: {"value of the expression": value_is(c, lambda t, j, f=OD(c, c.this): VAL(f, t, j))})


def conc_ok_this(c):
    s, p = c.f("function_array_"), c.a(0)
    first(c.X, s.at, s.len())
    return All(["I"], lambda i: Implies(And(0 <= i, i < p.r), Or(*(covered(c.X, s, p.f(i, Z))[0] + [covered(c.X, s, p.f(i, Z))[1]]))))

# ---------------------------------------------------------------- fitting operands
TOL = RealVal("0.000000001")
def doms(c, o): return c.f("domain_", o).items
def near(c, a, b): return And(absr(doms(c, a)[0] - doms(c, b)[0]) < TOL, absr(doms(c, a)[1] - doms(c, b)[1]) < TOL)
def sum_fits(c, a, b): return And(near(c, a, b), cod(c, a) == cod(c, b))
def mul_fits(c, a, b): return And(near(c, a, b), Or(cod(c, a) <= 1, cod(c, b) <= 1))
def conc_fits(c, a, b): return And(cod(c, a) == cod(c, b), absr(doms(c, a)[1] - doms(c, b)[0]) <= TOL)


contract(FB + "same_domain", 2, props=["C12"], static=True, ensures=lambda c: {"both ends agree": c.res == near(c, c.args[0], c.args[1])})
contract(FB + "same_codomain", 2, props=["C12"], static=True, ensures=lambda c: {"same dimension": c.res == (cod(c, c.args[0]) == cod(c, c.args[1]))})
contract(FB + "same_domain", 1, props=["C12"], this_abstract="fn",
         ensures=lambda c: {"both ends agree": c.res == And(close(doms(c, c.this)[1], doms(c, c.args[0])[1], TOL), close(doms(c, c.this)[0], doms(c, c.args[0])[0], TOL))})
contract(FB + "same_codomain", 1, props=["C12"], this_abstract="fn", ensures=lambda c: {"same dimension": c.res == (cod(c, c.this) == cod(c, c.args[0]))})
contract(FB + "is_point_in_domain", 1, props=["C10"], this_abstract="fn", inline=True, ensures=lambda c: {"closed on the left, open on the right": c.res == And(doms(c, c.this)[0] <= c.a(0), c.a(0) < doms(c, c.this)[1])})
contract(FN + "sum_throw", 2, props=["C12"], throws=lambda c: Not(sum_fits(c, c.args[0], c.args[1])), strong=True)
contract(FN + "compatibility_mul", 2, props=["C12"], throws=lambda c: Not(mul_fits(c, c.args[0], c.args[1])), strong=True)
contract(FN + "compatibility_mul_assign", 2, props=["C12"], throws=lambda c: Or(Not(mul_fits(c, c.args[0], c.args[1])), cod(c, c.args[1]) > cod(c, c.args[0])), strong=True)
contract(FN + "comp_throw", 2, props=["C12"], throws=lambda c: cod(c, c.args[1]) > 1, strong=True)
contract(FN + "concat_throw", 2, props=["C12"], throws=lambda c: Not(conc_fits(c, c.args[0], c.args[1])), strong=True)


# ---------------------------------------------------------------- operators on expressions
def comp_of(c, o, j): return If(c.of("codom_dim_", o) > 1, j, Z)


def plus(c, sign=1):
    x, y = OD(c, c.this), OD(c, c.args[0])
    return {"value": pointwise(c, c.res, lambda t, j: VAL(x, t, j) + sign * VAL(y, t, j)), "domain": same_dom(c, c.res, c.this), "codomain": cod(c, c.res) == c.of("codom_dim_", c.this)}


def times(c, r=None, this=None, that=None):
    r = r if r is not None else c.res; this = this if this is not None else c.this; that = that if that is not None else c.args[0]
    x, y = OD(c, this), OD(c, that)
    ca, cb = c.of("codom_dim_", this), c.of("codom_dim_", that)
    return {"value": pointwise(c, r, lambda t, j: VAL(x, t, comp_of(c, this, j)) * VAL(y, t, comp_of(c, that, j))),
            "domain": Or(same_dom(c, r, this), same_dom(c, r, that)), "codomain": cod(c, r) == If(ca >= cb, ca, cb)}


def after(c):
    x, y = OD(c, c.this), OD(c, c.args[0])
    return {"value": pointwise(c, c.res, lambda t, j: VAL(x, VAL(y, t, Z), j)), "domain": same_dom(c, c.res, c.args[0]), "codomain": cod(c, c.res) == c.of("codom_dim_", c.this)}


def parts_of(c, o):
    """of an operand of a concatenation: (t in one of its pieces, value at its left end, at its right end)"""
    X = c.X
    if isinstance(o, Fn): return lambda t: has(o.t, t), lambda j: VAL(o.t, DOM0(o.t), j), lambda j: VAL(o.t, DOM1(o.t), j)
    f = OD(c, o); ty, s = c.of("type_", o), c.of("function_array_", o)
    FS = first(X, s.at, s.len()); f0, f1 = s.at(0).t, last_of(s).t
    return (lambda t: If(ty == CONC, FS(t) < s.len(), has(f, t)), lambda j: If(ty == CONC, VAL(f0, DOM0(f0), j), VAL(f, DOM0(f), j)), lambda j: If(ty == CONC, VAL(f1, DOM1(f1), j), VAL(f, DOM1(f), j)))


def joined(c):
    a, b = c.this, c.args[0]
    x, y = OD(c, a), OD(c, b); r = D(c, c.res)
    ina, sa, ea = parts_of(c, a); inb, sb, eb = parts_of(c, b)
    rng = lambda j: And(0 <= j, j < cod(c, c.res))
    pt = lambda t, j: [VAL(r, t, j)]
    return {"left operand where it is defined": All(["R", "I"], lambda t, j: Implies(And(rng(j), ina(t)), VAL(r, t, j) == VAL(x, t, j)), pats=pt),
            "right operand from there on": All(["R", "I"], lambda t, j: Implies(And(rng(j), Not(ina(t)), inb(t)), VAL(r, t, j) == VAL(y, t, j)), pats=pt),
            "constant before the start": All(["R", "I"], lambda t, j: Implies(And(rng(j), Not(ina(t)), Not(inb(t)), t <= c.of("domain_", a).items[0]), VAL(r, t, j) == sa(j)), pats=pt),
            "constant after the end": All(["R", "I"], lambda t, j: Implies(And(rng(j), Not(ina(t)), Not(inb(t)), t > c.of("domain_", a).items[0]), VAL(r, t, j) == eb(j)), pats=pt),
            "domain": And(dom0(c, c.res) == c.of("domain_", a).items[0], dom1(c, c.res) == c.of("domain_", b).items[1]), "codomain": cod(c, c.res) == c.of("codom_dim_", a)}


def conc_req(c): return [doms(c, c.this)[0] <= doms(c, c.args[0])[1]]


CATS = (("(const FunctionExpression &) const &", []), ("(FunctionExpression &&) const &", ["arg0"]), ("(const FunctionExpression &) &&", ["this"]), ("(FunctionExpression &&) &&", ["this", "arg0"]))
for CL in (FE, FB):
    ab = dict(this_abstract="fn") if CL == FB else {}
    for sg, mod in CATS:
        mod = [m for m in mod if m != "this"] if CL == FB else mod
        kw = dict(sig=sg, modifies=mod, strong=True, **ab)
        contract(CL + "operator+", 1, props=["C10", "C12", "C19"], throws=lambda c: Not(sum_fits(c, c.this, c.args[0])), ensures=plus, **kw)
        contract(CL + "operator-", 1, props=["C10", "C12", "C19"], throws=lambda c: Not(sum_fits(c, c.this, c.args[0])), ensures=lambda c: plus(c, -1), **kw)
        contract(CL + "operator*", 1, props=["C10", "C12", "C19"], throws=lambda c: Not(mul_fits(c, c.this, c.args[0])), ensures=times, **kw)
        contract(CL + "compose", 1, props=["C10", "C12", "C19"], throws=lambda c: cod(c, c.args[0]) > 1, ensures=after, **kw)
        contract(CL + "concat", 1, props=["C10", "C12", "C19"], requires=conc_req, throws=lambda c: Not(conc_fits(c, c.this, c.args[0])), ensures=joined, **kw)
    for sg, mod in (("() const &", []), ("() &&", ["this"])):
        mod = [] if CL == FB else mod
        contract(CL + "operator-", 0, sig=sg, props=["C10", "C19"], modifies=mod,
                 ensures=lambda c: {"value": pointwise(c, c.res, lambda t, j, x=OD(c, c.this): -VAL(x, t, j)), "domain": same_dom(c, c.res, c.this), "codomain": cod(c, c.res) == c.of("codom_dim_", c.this)}, **ab)
        contract(FB + "to_expression", 0, sig=sg, props=["C10", "C19"], this_abstract="fn",
                 ensures=lambda c: {"value": pointwise(c, c.res, lambda t, j: VAL(c.this.t, t, j)), "domain": same_dom(c, c.res, c.this), "codomain": cod(c, c.res) == COD(c.this.t)}) if CL == FB else None

SELF = ["this.function_array_", "this.type_", "this.eval_operation_", "this.deriv_operation_"]
for sg, mod, al in (("(FunctionExpression &&)", ["arg0.function_array_"], None), ("(const FunctionExpression &)", [], None), ("(const FunctionExpression &)", [], [(0, -1)])):
    var = "self" if al else ""
    if al: mod = [m.replace("this", "arg0") for m in SELF]
    contract(FE + "operator+=", 1, sig=sg, variant=var, alias=al, props=["C10", "C12", "C19"], modifies=SELF + mod, strong=True, throws=lambda c: Not(sum_fits(c, c.this, c.args[0])),
             ensures=lambda c: {"value": pointwise(c, c.this, lambda t, j, x=OD(c, c.this), y=OD(c, c.args[0]): VAL(x, t, j) + VAL(y, t, j))})
    contract(FE + "operator*=", 1, sig=sg, variant=var, alias=al, props=["C10", "C12", "C19"], modifies=SELF + mod, strong=True,
             throws=lambda c: Or(Not(mul_fits(c, c.this, c.args[0])), cod(c, c.args[0]) > cod(c, c.this)),
             ensures=lambda c: times(c, c.this))


def expr_value(c): return {"value": value_is(c, lambda t, j, f=OD(c, c.this): VAL(f, t, j)) }


CLASSVAL["gsplines::functions::ConstFunction"] = lambda X, o: (lambda t, c, m=X.getfield(o, "values_"): m.f(c, Z))
CLASSVAL["gsplines::functions::DomainLinearDilation"] = lambda X, o: (lambda t, c, k=X.getfield(o, "dilation_factor_"): k * t)
CLASSVAL["gsplines::functions::Identity"] = lambda X, o: (lambda t, c: t)
CLASSVAL["gsplines::functions::Exponential"] = lambda X, o: (lambda t, c: EXPF(t))
CLASSVAL["gsplines::functions::Cos"] = lambda X, o: (lambda t, c: COSF(t))
CLASSVAL["gsplines::functions::Sin"] = lambda X, o: (lambda t, c: SINF(t))
for sg, mod in (("(double, const FunctionExpression &)", []), ("(double, FunctionExpression &&)", ["arg1"])):
    contract(FN + "operator*", 2, sig=sg, props=["C10", "C19"], modifies=mod, requires=lambda c: [],
             ensures=lambda c: {"value": pointwise(c, c.res, lambda t, j, x=OD(c, c.args[1]): c.oa(0) * VAL(x, t, j)), "domain": same_dom(c, c.res, c.args[1]), "codomain": cod(c, c.res) == c.of("codom_dim_", c.args[1])})
