"""Meaning of the Eigen and standard-library operations the code uses (trusted:
these are the contracts of the external libraries; the list in OPS is reported
in the evidence as assumed)."""
import re
import z3
from z3 import And, Or, Not, If, Implies, IntVal, RealVal, BoolVal
from logic import I, R, Sum, Prod, Max, All, Imp, toreal
from values import *
import symex
from symex import Lens, Const, Cell, tyclean, INT_T, isint, isreal, isbool, isnum, Thrown, targs, NeedFork

OPS = set()   # external operations met in this run


def val(X, v): return v.get(X) if hasattr(v, "get") else v
def lit(t, k): return z3.is_int_value(t) and t.as_long() == k


def view(X, lv, g, s):
    """a writable view when lv is a location, else the value"""
    if hasattr(lv, "get"): return Lens(lv, g, s)
    return g(lv)


def bounds(X, what, *conds):
    g = And(*conds) if len(conds) > 1 else conds[0]
    if z3.is_true(z3.simplify(g)): return
    X.obligation("index in range (%s)" % what, g, "safe")


def shape(X, what, *conds):
    conds = [c for c in conds if not z3.is_true(z3.simplify(c))]
    if conds: X.obligation("shapes agree (%s)" % what, And(*conds), "safe")


def element(X, lv, idx, what="()"):
    m = val(X, lv)
    if isinstance(m, Seq):
        i = idx[0]
        bounds(X, "[]", 0 <= i, i < m.len())
        return view(X, lv, lambda s: s.at(i), lambda s, v: s.setat(i, v))
    if isinstance(m, DataPtr):
        return element(X, m.lv, idx, what)
    if not isinstance(m, Mat): raise Unsupported("indexing %s" % type(m).__name__)
    if len(idx) == 1:
        i = idx[0]
        if lit(m.c, 1): a, b = i, IntVal(0)
        elif lit(m.r, 1): a, b = IntVal(0), i
        else: raise Unsupported("linear index on a matrix")
        bounds(X, what, 0 <= i, i < m.size())
    else:
        a, b = idx
        bounds(X, what, 0 <= a, a < m.r, 0 <= b, b < m.c)
    return view(X, lv, lambda s: s.f(a, b), lambda s, v: setel(s, a, b, v))


def blockview(X, lv, r0, c0, nr, nc):
    def g(m): return Mat(nr, nc, lambda i, j: m.f(simp(i + r0), simp(j + c0)), m.arr)
    def s(m, v):
        def f(i, j):
            cond = z3.simplify(And(r0 <= i, i < r0 + nr, c0 <= j, j < c0 + nc))
            if z3.is_false(cond): return m.f(i, j)
            return ite(cond, v.f(simp(i - r0), simp(j - c0)), m.f(i, j))
        return Mat(m.r, m.c, f, m.arr)
    lens = view(X, lv, g, s)
    if isinstance(lens, Lens): lens.fixed = True
    return lens


def matof(X, v, like=None):
    v = val(X, v)
    if isinstance(v, DataPtr): v = v.lv.get(X)
    return v


def product(X, a, b):
    if a.arr and b.arr: return ewise(X, a, b, lambda x, y: x * y)
    shape(X, "matrix product", a.c == b.r)
    n = a.c if z3.is_int_value(a.c) else b.r if z3.is_int_value(b.r) else a.c
    return Mat(a.r, b.c, lambda i, j: Sum(n, lambda k: a.f(i, k) * b.f(k, j)))


def ewise(X, a, b, op):
    if a.bcast == "col" and b.bcast is None:      # m.colwise() op v
        shape(X, "colwise", a.r == b.size())
        return Mat(a.r, a.c, lambda i, j: op(a.f(i, j), b.lin(i)), a.arr)
    if a.bcast == "row" and b.bcast is None:
        shape(X, "rowwise", a.c == b.size())
        return Mat(a.r, a.c, lambda i, j: op(a.f(i, j), b.lin(j)), a.arr)
    shape(X, "coefficient-wise", a.r == b.r, a.c == b.c)
    r = a.r if z3.is_int_value(a.r) else b.r if z3.is_int_value(b.r) else a.r
    c = a.c if z3.is_int_value(a.c) else b.c if z3.is_int_value(b.c) else a.c
    return Mat(r, c, lambda i, j: op(a.f(i, j), b.f(i, j)), a.arr)


def fdiv(X, x, y): return R(x) / R(y)


def arith(X, op, a, b, n):
    """binary arithmetic with at least one matrix operand"""
    if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque("arith")
    f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: R(x) / R(y)}[op]
    if isinstance(a, Mat) and isinstance(b, Mat):
        if op == "*" and not (a.arr or b.arr or a.bcast): return product(X, a, b)
        return ewise(X, a, b, f)
    if isinstance(a, Mat) and isnum(b):
        return Mat(a.r, a.c, lambda i, j: f(*unify(a.f(i, j), b)), a.arr)
    if isinstance(b, Mat) and isnum(a):
        if op == "/" and not b.arr: raise Unsupported("scalar / matrix")
        return Mat(b.r, b.c, lambda i, j: f(*unify(a, b.f(i, j))), b.arr)
    raise Unsupported("operator %s on %s, %s" % (op, type(a).__name__, type(b).__name__))


def unify(x, y):
    if isreal(x) or isreal(y): return R(x), R(y)
    return x, y


def assign(X, lv, v):
    """lv = v for matrices"""
    cur = None
    if not hasattr(lv, "set"): raise Unsupported("assignment to a temporary")
    if isinstance(v, Mat):
        try: cur = lv.get(X)
        except Unsupported: cur = None
        if isinstance(lv, Lens) and isinstance(cur, Mat):
            if lit(cur.c, 1) and not lit(v.c, 1) and lit(v.r, 1): v = v.t()
            elif lit(cur.r, 1) and not lit(v.r, 1) and lit(v.c, 1): v = v.t()
            shape(X, "assignment", cur.r == v.r, cur.c == v.c)
            v = Mat(cur.r, cur.c, v.f, cur.arr)
        elif isinstance(cur, Mat) and getattr(lv, "isref", False):
            shape(X, "assignment", cur.r == v.r, cur.c == v.c)
            v = Mat(cur.r, cur.c, v.f)
        else:
            if isinstance(cur, Mat):
                if lit(cur.c, 1) and not lit(v.c, 1) and lit(v.r, 1): v = v.t()
                elif lit(cur.r, 1) and not lit(v.r, 1) and lit(v.c, 1): v = v.t()
                if lit(cur.c, 1) and not lit(v.c, 1): shape(X, "assignment", v.c == 1); v = Mat(v.r, 1, v.f)
            v = Mat(v.r, v.c, v.f)
    lv.set(X, v)
    return lv


# ------------------------------------------------------------------ construction
def dims_of(t):
    if "VectorXd" in t or re.search(r"(?:double|int), -1, 1\b", t): return ("-1", "1")
    m = re.search(r"(?:double|int), (-?\d+), (-?\d+)", t)
    if m: return m.groups()
    return ("-1", "-1")


def moved(X, n, argnode, lv):
    """std::vector / Eigen move construction empties the source"""
    ct = n.x.get("ctorType") or ""
    if "&&" in ct and isinstance(lv, (Cell, Lens)) and has_move(argnode):
        v = lv.get(X)
        if isinstance(v, (Mat, Seq)) and not X.pure:
            try: lv.set(X, X.havoc_like(v, "moved", True))
            except Unsupported: pass


def has_move(n):
    while n is not None:
        if n.k == "CallExpr":
            c = n.kids[0]
            while c.k in ("ImplicitCastExpr", "ParenExpr"): c = c.kids[0]
            return bool(c.ref) and c.ref[1] in ("move", "forward")
        if n.k in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "CXXConstructExpr", "CXXFunctionalCastExpr") and n.kids: n = n.kids[0]
        else: return False
    return False


def construct(X, n, t):
    kids = [k for k in n.kids if k is not None and k.k != "CXXDefaultArgExpr"]
    if t.startswith("Eigen::"): OPS.add(t.split("<")[0])
    elif t.startswith("std::"): OPS.add(t.split("<")[0])
    if re.match(r"Eigen::(Ref|Map)<", t):
        if t.startswith("Eigen::Map<"):
            p = X.ev(kids[0]); p = val(X, p)
            if not isinstance(p, DataPtr): raise Unsupported("Map over %s" % type(p).__name__)
            base = p.lv; cur = base.get(X)
            dm = dims_of(t)
            if len(kids) == 2:
                ln = X.rv(kids[1])
                if cur.isvec():
                    if dm[1] == "1": return blockview(X, base, IntVal(0), IntVal(0), ln, IntVal(1)) if not X.entailed(ln == cur.size()) else base
            if len(kids) == 3:
                r, c = X.rv(kids[1]), X.rv(kids[2])
                if lit(cur.c, 1):
                    def g(m): return Mat(r, c, lambda i, j: m.f(simp(i + r * j), IntVal(0)))
                    return Lens(base, g, None)
            raise Unsupported("Map")
        v = X.ev(kids[0])
        m = val(X, v)
        if isinstance(m, DataPtr): return m.lv
        if isinstance(m, Seq): raise Unsupported("Ref to a list")
        dm = dims_of(t)
        if dm[1] == "1" and isinstance(m, Mat) and not lit(m.c, 1):
            if lit(m.r, 1): return view(X, v, lambda s: s.t(), lambda s, w: w.t())
            shape(X, "vector from matrix", m.c == 1)
            return view(X, v, lambda s: Mat(s.r, 1, s.f), lambda s, w: Mat(s.r, s.c, w.f))
        return v
    if t.startswith("Eigen::Matrix<") or t.startswith("Eigen::Array<") or t.startswith("Eigen::SparseMatrix"):
        dm = dims_of(t)
        isi = bool(re.match(r"Eigen::\w+<int", t))
        ints = [k for k in kids if tyclean(k.ty) in INT_T]
        if not kids:
            if dm[1] == "1" and dm[0] == "-1": return X.freshmat(0, 1, "empty", isi)
            if dm == ("-1", "-1"): return X.freshmat(0, 0, "empty", isi)
            return X.freshmat(int(dm[0]), int(dm[1]), "uninit", isi)
        if len(kids) == 1 and ints and dm[0] == "-1":
            nn = X.rv(kids[0])
            if dm[1] == "1": bounds(X, "size", nn >= 0); return X.freshmat(nn, 1, "uninit", isi)
            if dm[0] == "1": return X.freshmat(1, nn, "uninit", isi)
        if len(kids) == 2 and len(ints) == 2:
            r, c = X.rv(kids[0]), X.rv(kids[1])
            bounds(X, "size", r >= 0, c >= 0)
            if t.startswith("Eigen::SparseMatrix"): return Mat(r, c, lambda i, j: RealVal(0))
            return X.freshmat(r, c, "uninit", isi)
        if len(kids) == 1:
            if kids[0].k == "CXXStdInitializerListExpr" or "initializer_list" in (kids[0].ty or ""):
                s = X.rv(kids[0])
                if isinstance(s, Seq): return Mat(s.len(), 1, lambda i, j: s.at(i))
            lv = X.ev(kids[0]); v = val(X, lv)
            if isinstance(v, DataPtr): v = v.lv.get(X)
            if isinstance(v, Mat):
                moved(X, n, kids[0], lv)
                if dm[1] == "1" and not lit(v.c, 1):
                    if lit(v.r, 1): return Mat(v.c, 1, lambda i, j: v.f(IntVal(0), i))
                    shape(X, "vector from matrix", v.c == 1)
                    return Mat(v.r, 1, v.f)
                return Mat(v.r, v.c, v.f)
            if isnum(v) and dm == ("1", "1"): return Mat(1, 1, lambda i, j: v)
        raise Unsupported("construction of " + t)
    if t.startswith("Eigen::SparseLU") or t.startswith("Eigen::"): return Opaque(t)
    if t.startswith("std::pair<") or t.startswith("std::tuple<"):
        if len(kids) == 1:
            v = X.rv(kids[0])
            if isinstance(v, Struct): return v
        if len(kids) >= 2:
            ta = targs(t)
            out = []
            for k, a in zip(kids, ta):
                v = X.ev(k) if a.endswith("&") else X.rv(k)
                if tyclean(a) == "double" and isint(v): v = R(v)
                out.append(v)
            return Struct(out)
        if not kids: return Struct([X.defaultval(tyclean(a), "p") for a in targs(t)])
    if t.startswith("std::list<") or t.startswith("std::vector<"):
        if not kids: return Seq([])
        lv = X.ev(kids[0]); v = val(X, lv)
        if isinstance(v, Seq):
            moved(X, n, kids[0], lv)
            return v
        if isinstance(v, Iter) and len(kids) >= 2:
            w = X.rv(kids[1])
            return itrange(X, v, w)
        if isint(v):
            if len(kids) == 2:
                e = X.rv(kids[1])
                return Seq([("part", v, lambda k: e)])
            e = RealVal(0) if "double" in targs(t)[0] else IntVal(0) if tyclean(targs(t)[0]) in INT_T else None
            if e is None: raise Unsupported("vector of default objects")
            return Seq([("part", v, lambda k: e)])
        raise Unsupported("construction of " + t)
    if re.match(r"std::(unique_ptr|shared_ptr|__shared_ptr)<", t):
        if not kids: return NULL
        return X.rv(kids[0])
    if t.startswith("std::basic_string") or t in ("std::string", "string"):
        if not kids: return Str(IntVal(0))
        v = X.rv(kids[0])
        return v if isinstance(v, Str) else Str(X.fresh("i", "str"))
    if t.startswith("std::optional<"):
        if not kids: return Opt(BoolVal(False), None)
        v = X.rv(kids[0])
        if isinstance(v, Opt): return v
        if isinstance(v, Opaque): return Opt(BoolVal(False), None)
        return Opt(BoolVal(True), v)
    if "error" in t or "exception" in t or "argument" in t: return Opaque("exception")
    if t.startswith("__gnu_cxx::__normal_iterator") or t.startswith("std::_List") or t.startswith("std::reverse_iterator"):
        if not kids: return Iter(Const(Seq([])), IntVal(-1))
        return X.rv(kids[0])
    if t.startswith("std::map<"): return Opaque("map")
    if t.startswith("std::function") or t.startswith("(lambda"): return X.rv(kids[0])
    if t.startswith("std::"): return Opaque(t)
    raise Unsupported("construction of " + t)


def itrange(X, a, b):
    s = a.seq.get(X) if hasattr(a.seq, "get") else a.seq
    if not a.rev: return s.sub(a.idx, b.idx)
    return s.rev().sub(a.idx, b.idx)


# ------------------------------------------------------------------ methods
def method(X, name, lv, argn, n):
    o = val(X, lv)
    argn = [a for a in argn if a is not None and a.k != "CXXDefaultArgExpr"]
    if isinstance(o, DataPtr): lv = o.lv; o = lv.get(X)
    OPS.add("%s::%s" % (type(o).__name__, name))
    if isinstance(o, Mat): return matmethod(X, name, lv, o, argn, n)
    if isinstance(o, Seq): return seqmethod(X, name, lv, o, argn, n)
    if isinstance(o, Opt):
        if name == "has_value" or name.startswith("operator bool"): return o.has
        if name == "value":
            if not X.decide(o.has): raise Thrown("bad optional access")
            return o.val
        if name == "value_or": return ite(o.has, o.val, X.rv(argn[0]))
    if isinstance(o, (Fn, BasisV, Obj, Ptr)):
        if name in ("get",): return o
        if name == "release": return o
        if name.startswith("operator bool"): return Not(o.null) if isinstance(o, Ptr) else BoolVal(True)
        if name == "reset":
            v = X.rv(argn[0]) if argn else NULL
            lv.set(X, v); return None
    if isinstance(o, Str):
        if name in ("size", "length"): return X.fresh("u", "strlen")
        if name in ("c_str", "data"): return o
        if name == "empty": return o.t == 0
        if name == "find": return X.fresh("u", "strpos")
    if isinstance(o, Opaque):
        r = X.lib.opaque(X, o, name, lv, argn, n)
        if r is not NotImplemented: return r
        for a in argn: X.ev(a)
        if (n.ty or "") == "void": return None
        return Opaque(o.what + "." + name)
    raise Unsupported("method %s of %s" % (name, type(o).__name__))


def matmethod(X, name, lv, m, argn, n):
    if name.startswith("operator const ") or name.startswith("operator "):
        if name in ("operator const double", "operator double", "operator const float", "operator const Scalar"):
            return m.f(IntVal(0), IntVal(0))
    if name in ("size",): return m.size()
    if name == "rows" or name == "outerSize" and False: return m.r
    if name == "cols": return m.c
    if name == "outerSize": return m.c
    if name in ("eval", "matrix", "array", "noalias", "derived", "const_cast_derived"):
        if name == "noalias" or name == "eval" or name == "derived": return lv
        arr = name == "array"
        return view(X, lv, lambda s: Mat(s.r, s.c, s.f, arr, s.bcast), lambda s, v: Mat(s.r, s.c, v.f, s.arr))
    if name in ("transpose", "adjoint"):
        return view(X, lv, lambda s: s.t(), lambda s, v: v.t())
    if name == "transposeInPlace":
        lv.set(X, m.t()); return None
    if name == "segment":
        a, k = X.rv(argn[0]), X.rv(argn[1])
        bounds(X, "segment", 0 <= a, 0 <= k, a + k <= m.size())
        if lit(m.c, 1): return blockview(X, lv, a, IntVal(0), k, IntVal(1))
        return blockview(X, lv, IntVal(0), a, IntVal(1), k)
    if name in ("head", "tail"):
        k = X.rv(argn[0]); bounds(X, name, 0 <= k, k <= m.size())
        a = IntVal(0) if name == "head" else simp(m.size() - k)
        if lit(m.c, 1): return blockview(X, lv, a, IntVal(0), k, IntVal(1))
        return blockview(X, lv, IntVal(0), a, IntVal(1), k)
    if name == "col":
        j = X.rv(argn[0]); bounds(X, "col", 0 <= j, j < m.c)
        return blockview(X, lv, IntVal(0), j, m.r, IntVal(1))
    if name == "row":
        i = X.rv(argn[0]); bounds(X, "row", 0 <= i, i < m.r)
        return blockview(X, lv, i, IntVal(0), IntVal(1), m.c)
    if name == "block":
        a, b, h, w = [X.rv(k) for k in argn]
        bounds(X, "block", 0 <= a, 0 <= b, 0 <= h, 0 <= w, a + h <= m.r, b + w <= m.c)
        return blockview(X, lv, a, b, h, w)
    if name in ("topRows", "bottomRows", "leftCols", "rightCols"):
        k = X.rv(argn[0])
        if name == "topRows": return blockview(X, lv, IntVal(0), IntVal(0), k, m.c)
        if name == "bottomRows": return blockview(X, lv, simp(m.r - k), IntVal(0), k, m.c)
        if name == "leftCols": return blockview(X, lv, IntVal(0), IntVal(0), m.r, k)
        return blockview(X, lv, IntVal(0), simp(m.c - k), m.r, k)
    if name == "colwise" or name == "rowwise":
        b = "col" if name == "colwise" else "row"
        return view(X, lv, lambda s: Mat(s.r, s.c, s.f, s.arr, b), lambda s, v: Mat(s.r, s.c, v.f, s.arr))
    if name == "sum":
        if m.bcast == "col": return Mat(1, m.c, lambda i, j: Sum(m.r, lambda k: m.f(k, j)), m.arr)
        if m.bcast == "row": return Mat(m.r, 1, lambda i, j: Sum(m.c, lambda k: m.f(i, k)), m.arr)
        return total(m)
    if name == "maxCoeff":
        if m.bcast == "col": return Mat(1, m.c, lambda i, j: Max(m.r, lambda k: m.f(k, j)), m.arr)
        if m.bcast == "row": return Mat(m.r, 1, lambda i, j: Max(m.c, lambda k: m.f(i, k)), m.arr)
        X.obligation("maxCoeff of a non-empty matrix", m.size() >= 1 if m.isvec() else And(m.r >= 1, m.c >= 1), "safe")
        return maxof(m)
    if name == "minCoeff":
        v = maxof(m.map(lambda x: -x)); return -v
    if name in ("abs", "cwiseAbs"): return m.map(absr)
    if name in ("square",): return m.map(lambda x: x * x)
    if name == "sqrt": return m.map(lambda x: SQRT(x))
    if name in ("sin", "cos", "exp"):
        F = {"sin": SINF, "cos": COSF, "exp": EXPF}[name]
        return m.map(lambda x: F(x))
    if name == "norm": return SQRT(total(m.map(lambda x: x * x)))
    if name == "squaredNorm": return total(m.map(lambda x: x * x))
    if name == "dot":
        b = X.rv(argn[0]); shape(X, "dot", m.size() == b.size())
        return Sum(m.size(), lambda k: m.lin(k) * b.lin(k))
    if name in ("any", "all"):
        if not m.isvec(): 
            b = X.fresh("b", name)
            ia, ja = X.fresh("i", "wi"), X.fresh("i", "wj")
            if name == "all":
                X.assume(Imp(b, All(["I", "I"], lambda i, j: Implies(And(0 <= i, i < m.r, 0 <= j, j < m.c), m.f(i, j)))))
                X.assume(Implies(Not(b), And(0 <= ia, ia < m.r, 0 <= ja, ja < m.c, Not(m.f(ia, ja)))))
            else:
                X.assume(Imp(Not(b), All(["I", "I"], lambda i, j: Implies(And(0 <= i, i < m.r, 0 <= j, j < m.c), Not(m.f(i, j))))))
                X.assume(Implies(b, And(0 <= ia, ia < m.r, 0 <= ja, ja < m.c, m.f(ia, ja))))
            return b
        b = X.fresh("b", name); w = X.fresh("i", "wit")
        nn = m.size()
        if name == "all":
            X.assume(Imp(b, All(["I"], lambda i: Implies(And(0 <= i, i < nn), m.lin(i)))))
            X.assume(Implies(Not(b), And(0 <= w, w < nn, Not(m.lin(w)))))
        else:
            X.assume(Imp(Not(b), All(["I"], lambda i: Implies(And(0 <= i, i < nn), Not(m.lin(i))))))
            X.assume(Implies(b, And(0 <= w, w < nn, m.lin(w))))
        return b
    if name in ("setZero", "setOnes", "setConstant", "setIdentity"):
        r, c = m.r, m.c
        a = [X.rv(k) for k in argn]
        if name == "setConstant": v = R(a.pop()) if True else None
        else: v = RealVal(0 if name == "setZero" else 1)
        if len(a) == 1: r = a[0]
        if len(a) == 2: r, c = a
        if isint(m.f(IntVal(0), IntVal(0))): v = IntVal(0 if name == "setZero" else 1)
        f = (lambda i, j: v) if name != "setIdentity" else (lambda i, j: If(i == j, RealVal(1), RealVal(0)))
        lv.set(X, Mat(r, c, f)); return lv
    if name == "resize" or name == "conservativeResize":
        a = [X.rv(k) for k in argn]
        keep = name == "conservativeResize"
        if len(a) == 1:
            nm = X.freshmat(a[0], 1, "resized")
            same_ = eqc(a[0], m.r)
        else:
            nm = X.freshmat(a[0], a[1], "resized")
            same_ = And(eqc(a[0], m.r), eqc(a[1], m.c))
        s = z3.simplify(same_)
        f = lambda i, j: ite(s, m.f(i, j), nm.f(i, j))
        if z3.is_true(s): f = m.f
        elif keep: raise Unsupported("conservativeResize")
        lv.set(X, Mat(nm.r, nm.c, f)); return None
    if name == "data": return DataPtr(lv if hasattr(lv, "get") else Const(lv))
    if name == "pow":
        e = X.rv(argn[0]); return m.map(lambda x: power(X, x, e))
    if name == "coeffRef" or name == "coeff" or name == "insert":
        idx = [X.rv(k) for k in argn]
        return element(X, lv, idx, name)
    if name in ("reserve", "makeCompressed", "prune"):
        for k in argn: X.ev(k)
        return None
    if name == "asDiagonal":
        return Mat(m.size(), m.size(), lambda i, j: If(i == j, m.lin(i), RealVal(0)))
    if name == "cwiseProduct":
        b = X.rv(argn[0]); return ewise(X, m, b, lambda x, y: x * y)
    if name == "cwiseQuotient":
        b = X.rv(argn[0]); return ewise(X, m, b, lambda x, y: x / y)
    if name == "reverse":
        return Mat(m.r, m.c, lambda i, j: m.f(simp(m.r - 1 - i), simp(m.c - 1 - j)))
    raise Unsupported("Eigen method " + name)


def total(m):
    if lit(m.c, 1): return Sum(m.r, lambda k: m.f(k, IntVal(0)))
    if lit(m.r, 1): return Sum(m.c, lambda k: m.f(IntVal(0), k))
    return Sum(m.r, lambda i: Sum(m.c, lambda j: m.f(i, j)))


def maxof(m):
    if lit(m.c, 1): return Max(m.r, lambda k: m.f(k, IntVal(0)))
    if lit(m.r, 1): return Max(m.c, lambda k: m.f(IntVal(0), k))
    return Max(m.r, lambda i: Max(m.c, lambda j: m.f(i, j)))


def seqmethod(X, name, lv, s, argn, n):
    if name == "size": return s.len()
    if name == "empty": return s.len() == 0
    if name in ("begin", "cbegin"): return Iter(lv, IntVal(0))
    if name in ("end", "cend"): return Iter(lv, s.len())
    if name in ("rbegin", "crbegin"): return Iter(lv, IntVal(0), True)
    if name in ("rend", "crend"): return Iter(lv, s.len(), True)
    if name == "front":
        X.obligation("front of a non-empty list", s.len() >= 1, "safe")
        return view(X, lv, lambda q: q.at(0), lambda q, v: q.setat(0, v))
    if name == "back":
        X.obligation("back of a non-empty list", s.len() >= 1, "safe")
        return view(X, lv, lambda q: q.at(simp(q.len() - 1)), lambda q, v: q.setat(simp(q.len() - 1), v))
    if name in ("push_back", "emplace_back"):
        v = stored(X, X.rv(argn[0])); lv.set(X, s.cat(Seq([("one", v)]))); return None
    if name in ("push_front", "emplace_front"):
        v = stored(X, X.rv(argn[0])); lv.set(X, Seq([("one", v)]).cat(s)); return None
    if name == "clear": lv.set(X, Seq([])); return None
    if name == "reserve": X.rv(argn[0]); return None
    if name in ("at", "operator[]"):
        return element(X, lv, [X.rv(argn[0])], "at")
    if name == "data": return DataPtr(lv)
    if name == "pop_back": lv.set(X, s.sub(IntVal(0), simp(s.len() - 1))); return None
    if name == "pop_front": lv.set(X, s.sub(IntVal(1), s.len())); return None
    raise Unsupported("list method " + name)


def stored(X, v):
    """an element of a list of functions is a function value"""
    if isinstance(v, Obj): return X.lib.packfn(X, v)
    return v


# ------------------------------------------------------------------ operators
class Comma:
    def __init__(self, lv): self.lv, self.k, self.r, self.c = lv, 0, 0, 0


def operator(X, name, n):
    a = [k for k in n.kids[1:] if k is not None]
    if name == "operator()":
        o = X.ev(a[0]); v = val(X, o)
        if isinstance(v, Lam): return X.call_lambda(v, [X.argv(k) for k in a[1:]])
        if isinstance(v, FPtr): return X.call_fptr(v, [X.argv(k) for k in a[1:]], n)
        if isinstance(v, Opaque):
            r = X.lib.opaque(X, v, "operator()", o, a[1:], n)
            if r is not NotImplemented: return r
        idx = [X.rv(k) for k in a[1:]]
        return element(X, o, idx)
    if name == "operator[]":
        o = X.ev(a[0]); v = val(X, o)
        if isinstance(v, Opaque):
            r = X.lib.opaque(X, v, "operator[]", o, a[1:], n)
            if r is not NotImplemented: return r
        return element(X, o, [X.rv(a[1])], "[]")
    if name == "operator->" or (name == "operator*" and len(a) == 1):
        o = X.ev(a[0]); v = val(X, o)
        if isinstance(v, Iter): return iterderef(X, v)
        if isinstance(v, Ptr): return X.deref(v)
        if isinstance(v, (Obj, Fn, BasisV)): return v
        if isinstance(v, Opt):
            X.obligation("optional holds a value", v.has, "safe"); return v.val
        if isinstance(v, Opaque): return v
        return o
    if name in ("operator+", "operator-", "operator*", "operator/"):
        op = name[-1]
        if len(a) == 1:
            v = X.rv(a[0])
            return v.map(lambda x: -x) if op == "-" else v
        x = X.rv(a[0]); y = X.rv(a[1])
        if isinstance(x, Str) or isinstance(y, Str): return Str(X.fresh("i", "str"))
        if isinstance(x, Iter) and isint(y): return Iter(x.seq, simp(x.idx + y if op == "+" else x.idx - y), x.rev)
        if isinstance(x, Iter) and isinstance(y, Iter): return simp(x.idx - y.idx)
        return arith(X, op, x, y, n)
    if name in ("operator+=", "operator-=", "operator*=", "operator/="):
        lv = X.ev(a[0]); v = X.rv(a[1]); cur = val(X, lv); op = name[-2]
        if isinstance(cur, Str): return lv
        if isinstance(cur, Opaque): return lv
        r = arith(X, op, cur, v, n)
        if op == "*" and isinstance(cur, Mat) and isinstance(v, Mat) and not (cur.arr or cur.bcast): pass
        assign(X, lv, Mat(r.r, r.c, r.f, cur.arr) if isinstance(lv, Lens) else r)
        return lv
    if name == "operator=":
        lv = X.ev(a[0]); rl = X.ev(a[1]); v = val(X, rl)
        if isinstance(v, DataPtr): v = v.lv.get(X)
        cur = None
        try: cur = val(X, lv)
        except Unsupported: pass
        if isinstance(lv, Tie):
            lv.assign(X, v); return None
        if isinstance(v, Mat): return assign(X, lv, v)
        if isinstance(cur, Mat) and isnum(v):   # array = scalar
            lv.set(X, Mat(cur.r, cur.c, lambda i, j: R(v))); return lv
        if has_move(a[1]) and isinstance(v, Seq) and isinstance(rl, (Cell, Lens)):
            lv.set(X, v); 
            if not X.pure:
                try: rl.set(X, X.havoc_like(v, "moved"))
                except Unsupported: pass
            return lv
        if isinstance(cur, Opt) and not isinstance(v, Opt): v = Opt(BoolVal(True), v)
        if not hasattr(lv, "set"): raise Unsupported("assignment to a temporary")
        lv.set(X, v)
        return lv
    if name in ("operator++", "operator--"):
        lv = X.ev(a[0]); v = lv.get(X)
        if isinstance(v, Iter):
            lv.set(X, Iter(v.seq, simp(v.idx + (1 if name == "operator++" else -1)), v.rev))
            return v if len(a) > 1 else lv
        raise Unsupported(name)
    if name in ("operator==", "operator!="):
        x = X.rv(a[0]); y = X.rv(a[1])
        if isinstance(x, Mat) and isinstance(y, Mat) and not x.arr:
            b = X.fresh("b", "eqm"); wi, wj = X.fresh("i", "wi"), X.fresh("i", "wj")
            X.assume(Imp(b, [x.r == y.r, x.c == y.c, All(["I", "I"], lambda i, j: Implies(And(0 <= i, i < x.r, 0 <= j, j < x.c), x.f(i, j) == y.f(i, j)))]))
            X.assume(Implies(Not(b), Or(x.r != y.r, x.c != y.c, And(0 <= wi, wi < x.r, 0 <= wj, wj < x.c, x.f(wi, wj) != y.f(wi, wj)))))
            return b if name == "operator==" else Not(b)
        if isinstance(x, Mat) or isinstance(y, Mat):
            f = (lambda p, q: p == q) if name == "operator==" else (lambda p, q: p != q)
            return cmpmat(X, x, y, f)
        if isinstance(x, Struct) and isinstance(y, Struct):
            r = And(*[X.eq(p, q) for p, q in zip(x.items, y.items)])
            return r if name == "operator==" else Not(r)
        r = X.eq(x, y)
        return r if name == "operator==" else Not(r)
    if name in ("operator<", "operator>", "operator<=", "operator>="):
        op = name[8:]
        f = {"<": lambda p, q: p < q, ">": lambda p, q: p > q, "<=": lambda p, q: p <= q, ">=": lambda p, q: p >= q}[op]
        x = X.rv(a[0]); y = X.rv(a[1])
        if isinstance(x, Mat) or isinstance(y, Mat): return cmpmat(X, x, y, f)
        if isinstance(x, Iter) and isinstance(y, Iter): return f(x.idx, y.idx)
        raise Unsupported(name)
    if name == "operator<<":
        o = X.ev(a[0]); v = val(X, o)
        if isinstance(v, Opaque):
            return o
        if isinstance(v, Mat):
            c = Comma(o); comma(X, c, X.rv(a[1])); return c
    if name == "operator,":
        c = X.ev(a[0])
        if isinstance(c, Comma): comma(X, c, X.rv(a[1])); return c
    raise Unsupported("operator " + name)


def comma(X, c, v):
    m = c.lv.get(X)
    if lit(m.c, 1):
        if isnum(v):
            bounds(X, "comma initialiser", m.r > c.k)
            c.lv.set(X, setel(m, IntVal(c.k), IntVal(0), R(v))); c.k += 1; return
        if isinstance(v, Mat):
            k = c.k if not isinstance(c.k, int) else IntVal(c.k)
            blockview(X, c.lv, I(c.k), IntVal(0), v.r, IntVal(1)).set(X, v); c.k = simp(I(c.k) + v.r); return
    if lit(m.r, 1) and isnum(v):
        c.lv.set(X, setel(m, IntVal(0), IntVal(c.k), R(v))); c.k += 1; return
    if isinstance(v, Mat):
        # rows stacked
        blockview(X, c.lv, I(c.k), IntVal(0), v.r, m.c).set(X, v); c.k = simp(I(c.k) + v.r); return
    raise Unsupported("comma initialiser")


def cmpmat(X, x, y, f):
    if isinstance(x, Mat) and isinstance(y, Mat):
        shape(X, "comparison", x.r == y.r, x.c == y.c)
        return Mat(x.r, x.c, lambda i, j: f(*unify(x.f(i, j), y.f(i, j))), True)
    if isinstance(x, Mat): return Mat(x.r, x.c, lambda i, j: f(*unify(x.f(i, j), y)), True)
    return Mat(y.r, y.c, lambda i, j: f(*unify(x, y.f(i, j))), True)


def iterderef(X, it):
    def pos(s): return it.idx if not it.rev else simp(s.len() - 1 - it.idx)
    s = val(X, it.seq)
    bounds(X, "iterator", 0 <= it.idx, it.idx < s.len())
    return view(X, it.seq, lambda q: q.at(pos(q)), lambda q, v: q.setat(pos(q), v))


# ------------------------------------------------------------------ functions
class Tie:
    def __init__(self, lvs): self.lvs = lvs
    def get(self, X): return Struct([l.get(X) for l in self.lvs])
    def set(self, X, v): self.assign(X, v)
    def assign(self, X, v):
        for l, x in zip(self.lvs, v.items): l.set(X, x)


def power(X, b, e):
    """std::pow; integer exponents become repeated products"""
    b = R(b)
    if isreal(e):
        es = z3.simplify(e)
        if z3.is_rational_value(es):
            fr = es.as_fraction()
            if fr.denominator == 1: e = IntVal(fr.numerator)
            else: return POWR(b, es)
        elif z3.is_app(es) and es.decl().kind() == z3.Z3_OP_TO_REAL: e = es.children()[0]
        else: return POWR(b, e)
    e = simp(e)
    if z3.is_int_value(e):
        k = e.as_long()
        if 0 <= k <= 8:
            r = RealVal(1)
            for _ in range(k): r = r * b
            return r if k else RealVal(1)
        if -8 <= k < 0:
            r = b
            for _ in range(-k - 1): r = r * b
            return 1 / r
    return POWI(b, e)


def function(X, name, argn, n, cal):
    argn = [a for a in argn if a is not None and a.k != "CXXDefaultArgExpr"]
    OPS.add(name)
    if name == "move" and len(argn) == 3: return move_range(X, argn)
    if name in ("move", "forward", "__addressof", "addressof", "as_const"): return X.ev(argn[0])
    if name in ("printf", "fprintf", "puts", "fflush"):
        return IntVal(0)
    if name in ("__assert_fail", "abort", "terminate"): raise Thrown("assertion")
    if name == "pow":
        b = X.rv(argn[0]); e = X.rv(argn[1])
        if isinstance(b, Mat): return b.map(lambda x: power(X, x, e))
        if isinstance(e, Mat): return e.map(lambda y: power(X, b, y))
        return power(X, b, e)
    if name in ("fabs", "abs", "fabsl"):
        v = X.rv(argn[0])
        if isinstance(v, Mat): return v.map(absr)
        return absr(v)
    if name == "sqrt":
        v = X.rv(argn[0])
        return v.map(lambda x: SQRT(x)) if isinstance(v, Mat) else SQRT(R(v))
    if name in ("exp", "sin", "cos", "log"):
        F = {"exp": EXPF, "sin": SINF, "cos": COSF, "log": LOGF}[name]
        v = X.rv(argn[0])
        return v.map(lambda x: F(x)) if isinstance(v, Mat) else F(R(v))
    if name in ("max", "min"):
        if len(argn) == 1:
            s = X.rv(argn[0])
            if isinstance(s, Seq) and all(p[0] == "one" for p in s.parts):
                r = s.parts[0][1]
                for p in s.parts[1:]: r = If(r >= p[1], r, p[1]) if name == "max" else If(r <= p[1], r, p[1])
                return r
        x, y = X.rv(argn[0]), X.rv(argn[1])
        if isint(x) != isint(y): x, y = R(x), R(y)
        return If(x >= y, x, y) if name == "max" else If(x <= y, x, y)
    if name == "trunc":
        v = X.rv(argn[0]); k = X.fresh("i", "trunc")
        X.assume(Implies(v >= 0, And(toreal(k) <= v, v < toreal(k) + 1)))
        X.assume(Implies(v < 0, And(toreal(k) >= v, v > toreal(k) - 1)))
        return toreal(k)
    if name == "tie": return Tie([X.ev(k) for k in argn])
    if name in ("make_unique", "make_shared"):
        return make(X, n, argn)
    if name == "make_pair" or name == "make_tuple": return Struct([X.rv(k) for k in argn])
    if name == "next" or name == "prev":
        it = X.rv(argn[0]); k = X.rv(argn[1]) if len(argn) > 1 else IntVal(1)
        if isinstance(it, Iter): return Iter(it.seq, simp(it.idx + (k if name == "next" else -k)), it.rev)
    if name == "distance":
        a, b = X.rv(argn[0]), X.rv(argn[1]); return simp(b.idx - a.idx)
    if name in ("begin", "end", "cbegin", "cend", "rbegin", "rend"):
        lv = X.ev(argn[0]); return seqmethod(X, name, lv, val(X, lv), [], n)
    if name == "size":
        return X.rv(argn[0]).len()
    if name in ("back_inserter", "front_inserter"):
        return Inserter(X.ev(argn[0]), name == "front_inserter")
    if name == "transform": return transform(X, argn, n)
    if name == "copy":
        a, b, out = X.rv(argn[0]), X.rv(argn[1]), X.rv(argn[2])
        s = itrange(X, a, b)
        if isinstance(out, Inserter): out.lv.set(X, out.lv.get(X).cat(s)); return out
    if name == "find_if": return find_if(X, argn, n)
    if name in ("any_of", "all_of", "none_of"): return quant(X, name, argn, n)
    if name in ("Zero", "Ones", "Constant", "Identity", "LinSpaced", "Random"): return static_matrix(X, name, argn, n)
    if name == "to_string": 
        for a in argn: X.ev(a)
        return Str(X.fresh("i", "str"))
    if name == "get": raise Unsupported("std::get")
    if name in ("dynamic_pointer_cast", "static_pointer_cast"): return X.rv(argn[0])
    if name == "epsilon": return RealVal("0.0000000000000002220446049250313")
    if name in ("operator+", "operator<<", "operator=="): return Opaque(name)
    raise Unsupported("function " + name)


def move_range(X, argn):
    a, b, out = X.rv(argn[0]), X.rv(argn[1]), X.rv(argn[2])
    s = val(X, a.seq)
    if not (lit(a.idx, 0) and X.entailed(b.idx == s.len())): raise Unsupported("move of a part of a list")
    if a.rev: s = s.rev()
    if not isinstance(out, Inserter): raise Unsupported("move without inserter")
    if out.front: out.lv.set(X, s.rev().cat(out.lv.get(X)))
    else: out.lv.set(X, out.lv.get(X).cat(s))
    if not (isinstance(a.seq, Cell) and isinstance(out.lv, Cell) and a.seq.key == out.lv.key): a.seq.set(X, X.havoc_like(s, "moved"))
    return out


class Inserter:
    def __init__(self, lv, front): self.lv, self.front = lv, front


def make(X, n, argn):
    t = tyclean(n.ty)
    m = re.match(r"(?:typename )?(?:std::)?(?:unique_ptr|shared_ptr|_MakeUniq|__detail::__unique_ptr_t)<(.*?)(?:,.*)?>", t)
    cls = tyclean(m.group(1)) if m else None
    if cls not in X.P.classes:
        for c in X.P.classes:
            if cls and c.endswith("::" + cls): cls = c
    if cls not in X.P.classes: raise Unsupported("make " + t)
    args = [X.argv(a) for a in argn]
    return X.make_object(cls, args, argn, n)


def transform(X, argn, n):
    """std::transform over the whole range; the functor must be a pure map"""
    a, b = X.rv(argn[0]), X.rv(argn[1])
    out = X.rv(argn[2]); f = X.rv(argn[-1])
    if len(argn) == 5: raise Unsupported("binary transform")
    src = itrange(X, a, b) if not (lit(a.idx, 0) and not a.rev) else val(X, a.seq) if X.entailed(b.idx == val(X, a.seq).len()) else itrange(X, a, b)
    if a.rev and lit(a.idx, 0): src = val(X, a.seq).rev()
    if not isinstance(out, Inserter): raise Unsupported("transform without inserter")
    def ap(e):
        r = X.call_lambda(f, [Const(e)]) if isinstance(f, Lam) else X.libcall(f.mangled, None, [Const(e)], n)
        return stored(X, val(X, r))
    X.pure += 1
    try: res = src.map_checked(ap, X) if hasattr(src, "map_checked") else mapseq(X, src, ap)
    finally: X.pure -= 1
    if out.front: out.lv.set(X, res.rev().cat(out.lv.get(X)))
    else: out.lv.set(X, out.lv.get(X).cat(res))
    return out


def mapseq(X, s, f):
    parts = []
    for p in s.parts:
        if p[0] == "one": parts.append(("one", f(p[1])))
        else:
            # evaluated once at a generic element to collect unsupported constructs early
            g = X.frozen(lambda k, p=p: f(p[2](k)))
            e1 = g(z3.Int("$q0")); e0 = p[2](z3.Int("$q0"))
            if isinstance(e1, Fn) and isinstance(e0, Fn) and e1.t.eq(e0.t): parts.append(p); continue
            parts.append(("part", p[1], g))
    return Seq(parts)


def find_if(X, argn, n):
    a, b = X.rv(argn[0]), X.rv(argn[1]); f = X.rv(argn[2])
    s = val(X, a.seq)
    if a.rev: raise Unsupported("reverse find_if")
    def p(e):
        v = X.call_lambda(f, [Const(e)])
        v = val(X, v)
        return v if isbool(v) else v != 0
    k = X.fresh("i", "found"); pj = X.frozen(lambda j: p(s.at(j)))
    end = b.idx
    X.assume(And(a.idx <= k, k <= end) if X.entailed(a.idx <= end) else Implies(a.idx <= end, And(a.idx <= k, k <= end)))
    X.assume(All(["I"], lambda j: Implies(And(a.idx <= j, j < k), Not(pj(j)))))
    if X.decide(k < end):
        X.assume(pj(k))
    return Iter(a.seq, k)


def quant(X, name, argn, n):
    a, b = X.rv(argn[0]), X.rv(argn[1]); f = X.rv(argn[2])
    s = val(X, a.seq)
    def p(j):
        v = val(X, X.call_lambda(f, [Const(s.at(j))]))
        return v if isbool(v) else v != 0
    r = X.fresh("b", name); w = X.fresh("i", "wit")
    rng = lambda j: And(a.idx <= j, j < b.idx)
    neg = name == "all_of"
    ex = r if name == "any_of" else Not(r)     # some element (not, for all_of) satisfying p
    pj = X.frozen(p)
    q = lambda j: Not(pj(j)) if neg else pj(j)
    X.assume(Implies(ex, And(rng(w), q(w))))
    X.assume(Imp(Not(ex), All(["I"], lambda j: Implies(rng(j), Not(q(j))))))
    return r


def static_matrix(X, name, argn, n):
    a = [X.rv(k) for k in argn]
    t = n.ty or ""
    v = {"Zero": RealVal(0), "Ones": RealVal(1)}.get(name)
    if name == "Constant": v = R(a.pop())
    if name == "LinSpaced":
        cnt, lo, hi = a[0], R(a[1]), R(a[2])
        return Mat(cnt, 1, lambda i, j: If(cnt == 1, hi, lo + toreal(i) * (hi - lo) / toreal(cnt - 1)))
    dm = dims_of(t)
    if len(a) == 1: r, c = (a[0], IntVal(1)) if dm[1] == "1" else (IntVal(1), a[0])
    elif len(a) == 2: r, c = a
    else: r, c = IntVal(int(dm[0])), IntVal(int(dm[1]))
    if name == "Identity": return Mat(r, c, lambda i, j: If(i == j, RealVal(1), RealVal(0)))
    if name == "Random": return X.freshmat(r, c, "random")
    return Mat(r, c, lambda i, j: v)
