"""Values of the verifier: what a C++ object is in the logic."""
import z3
from z3 import And, Or, Not, If, IntVal, RealVal, Int, Real, BoolVal, Function, IntSort, RealSort, BoolSort
from logic import I, R, toreal, Sum, Prod, Max, All, Imp


class Unsupported(Exception):
    pass


def simp(t):
    return z3.simplify(t) if isinstance(t, z3.ExprRef) else t


def same(a, b):
    if a is b: return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b): return True
        if a.sort() == b.sort() and z3.is_int(a):
            d = z3.simplify(a - b)
            return z3.is_int_value(d) and d.as_long() == 0
        return z3.simplify(a).eq(z3.simplify(b))
    if isinstance(a, Mat) and isinstance(b, Mat): return a.f is b.f and same(a.r, b.r) and same(a.c, b.c)
    if isinstance(a, Struct) and isinstance(b, Struct): return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, (Fn, BasisV, Str, FPtr)) and type(a) == type(b): return a.t.eq(b.t)
    if isinstance(a, Obj) and isinstance(b, Obj): return a.oid == b.oid
    return False


def eqc(a, b):
    """condition a == b, folded when syntactically decided"""
    if a.eq(b): return z3.BoolVal(True)
    d = z3.simplify(a - b)
    if z3.is_int_value(d): return z3.BoolVal(d.as_long() == 0)
    return a == b


def ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if same(a, b): return a
    if isinstance(a, z3.ExprRef):
        if z3.is_int(a) and z3.is_real(b): a = R(a)
        if z3.is_real(a) and z3.is_int(b): b = R(b)
        return If(c, a, b)
    if isinstance(a, Mat):
        return Mat(ite(c, a.r, b.r), ite(c, a.c, b.c), lambda i, j: ite(c, a.f(i, j), b.f(i, j)), a.arr)
    if isinstance(a, Fn): return Fn(If(c, a.t, b.t))
    if isinstance(a, BasisV): return BasisV(If(c, a.t, b.t))
    if isinstance(a, Str): return Str(If(c, a.t, b.t))
    if isinstance(a, FPtr): return FPtr(None, None, If(c, a.t, b.t))
    if isinstance(a, Struct): return Struct([ite(c, x, y) for x, y in zip(a.items, b.items)])
    raise Unsupported("conditional on %s" % type(a).__name__)


class Mat:
    """r x c matrix; f(i, j) -> term.  arr: coefficient-wise products (Eigen Array)"""
    __slots__ = ("r", "c", "f", "arr", "bcast", "sparse")

    def __init__(self, r, c, f, arr=False, bcast=None):
        self.r, self.c, self.f, self.arr, self.bcast = I(r), I(c), f, arr, bcast

    def at(self, i, j=0): return self.f(I(i), I(j))

    def lin(self, i):
        """1-index access (vectors, column major otherwise)"""
        i = I(i)
        if z3.is_int_value(self.c) and self.c.as_long() == 1: return self.f(i, IntVal(0))
        if z3.is_int_value(self.r) and self.r.as_long() == 1: return self.f(IntVal(0), i)
        raise Unsupported("linear index on a matrix")

    def isvec(self):
        return (z3.is_int_value(self.c) and self.c.as_long() == 1) or (z3.is_int_value(self.r) and self.r.as_long() == 1)

    def size(self):
        if z3.is_int_value(self.c) and self.c.as_long() == 1: return self.r
        if z3.is_int_value(self.r) and self.r.as_long() == 1: return self.c
        return self.r * self.c

    def map(self, g): return Mat(self.r, self.c, lambda i, j: g(self.f(i, j)), self.arr)

    def t(self): return Mat(self.c, self.r, lambda i, j: self.f(j, i), self.arr)


def vec(n, f): return Mat(n, 1, lambda i, j: f(i))


def setel(m, a, b, v):
    a, b = I(a), I(b)
    f = m.f

    def g(i, j):
        c1, c2 = eqc(i, a), eqc(j, b)
        if z3.is_false(c1) or z3.is_false(c2): return f(i, j)
        if z3.is_true(c1) and z3.is_true(c2): return v
        return ite(c2 if z3.is_true(c1) else c1 if z3.is_true(c2) else And(c1, c2), v, f(i, j))
    return Mat(m.r, m.c, g, m.arr)


class Struct:
    def __init__(self, items): self.items = list(items)


class Seq:
    """sequence: list of ('one', v) and ('part', len, fn)"""
    def __init__(self, parts=()): self.parts = list(parts)

    def len(self):
        n = IntVal(0)
        for p in self.parts: n = n + (1 if p[0] == "one" else p[1])
        return z3.simplify(n) if all(p[0] == "one" for p in self.parts) else simp(n)

    def at(self, i):
        i = I(i)
        off = IntVal(0); out = None; items = []
        for p in self.parts:
            if p[0] == "one":
                items.append((z3.simplify(i == off), lambda p=p: p[1])); off = simp(off + 1)
            else:
                lo = off; hi = simp(off + p[1])
                items.append((z3.simplify(i < hi), lambda p=p, lo=lo: p[2](simp(i - lo)))); off = hi
        if not items: raise Unsupported("element of an empty sequence")
        # the last part needs no test
        res = items[-1][1]()
        for c, th in reversed(items[:-1]):
            if z3.is_false(c): continue
            res = ite(c, th(), res)
        return res

    def setat(self, i, v):
        f = self.at
        return Seq([("part", self.len(), lambda k: ite(eqc(I(k), I(i)), v, f(k)))])

    def cat(self, other): return Seq(self.parts + other.parts)
    def sub(self, a, b):
        f = self.at
        return Seq([("part", simp(b - a), lambda k: f(simp(k + a)))])

    def rev(self):
        out = []
        for p in reversed(self.parts):
            if p[0] == "one": out.append(p)
            else: out.append(("part", p[1], lambda k, p=p: p[2](simp(p[1] - 1 - k))))
        return Seq(out)

    def map(self, g):
        return Seq([("one", g(p[1])) if p[0] == "one" else ("part", p[1], lambda k, p=p: g(p[2](k))) for p in self.parts])

    def sum(self, g):
        """Sum over the elements of g(element)"""
        s = RealVal(0)
        for p in self.parts:
            if p[0] == "one": s = s + R(g(p[1]))
            else: s = s + Sum(p[1], lambda k, p=p: R(g(p[2](k))))
        return s

    def prod(self, g):
        s = RealVal(1)
        for p in self.parts:
            if p[0] == "one": s = s * R(g(p[1]))
            else: s = s * Prod(p[1], lambda k, p=p: R(g(p[2](k))))
        return s


class Fn:
    def __init__(self, t): self.t = t


class BasisV:
    def __init__(self, t): self.t = t


class Str:
    def __init__(self, t): self.t = t


class Obj:
    def __init__(self, oid, cls): self.oid, self.cls = oid, cls
    def __repr__(self): return "Obj(%s,%s)" % (self.oid, self.cls)


class Opt:
    def __init__(self, has, val): self.has, self.val = has, val


class Ptr:
    """possibly null pointer to an object"""
    def __init__(self, target, null): self.target, self.null = target, null


class Iter:
    def __init__(self, seq, idx, rev=False): self.seq, self.idx, self.rev = seq, idx, rev   # seq: LV


_fid = {}


def fid(name):
    """number of a library function, for comparisons of function pointers"""
    return IntVal(_fid.setdefault(name, len(_fid) + 1))


class FPtr:
    def __init__(self, mangled, name, t=None):
        self.mangled, self.name = mangled, name
        self.t = t if t is not None else fid(name)


class Lam:
    def __init__(self, fn, env, this): self.fn, self.env, self.this = fn, env, this


class DataPtr:
    def __init__(self, lv): self.lv = lv


class Opaque:
    def __init__(self, what=""): self.what = what


NULL = Ptr(None, z3.BoolVal(True))

# ------------------------------------------------------------- logic functions
IS, RS, BS = IntSort(), RealSort(), BoolSort()
VAL = Function("VAL", IS, RS, IS, RS)        # value of function f at t, component c
DOM0 = Function("DOM0", IS, RS)
DOM1 = Function("DOM1", IS, RS)
COD = Function("COD", IS, IS)
DER = Function("DER", IS, IS, IS)            # k-th derivative
FNAME = Function("FNAME", IS, IS)
DIM = Function("DIM", IS, IS)
BNAME = Function("BNAME", IS, IS)
IS0101 = Function("IS0101", IS, BS)
ALPHA = Function("ALPHA", IS, RS)
NPAR = Function("NPAR", IS, IS)
PAR = Function("PAR", IS, IS, RS)
NPARI = Function("NPARI", IS, IS)
PARI = Function("PARI", IS, IS, IS)
BV = Function("BV", IS, IS, RS, RS, RS)      # basis function i at s on an interval of length tau
BD = Function("BD", IS, IS, IS, RS, RS, RS)  # (basis, degree, i, s, tau): derivative of the given degree
BT = Function("BT", IS, IS, IS, RS, RS, RS)  # the same, derived by tau
DMAT = Function("DMAT", IS, IS, IS, IS, RS)  # (basis, degree, i, j): derivative matrix block
Q = Function("Q", IS, IS, IS, IS, RS, RS)    # (basis, degree, i, j, tau): Gram matrix of the derivatives
QT = Function("QT", IS, IS, IS, IS, RS, RS)  # the same, derived by tau
POWI = Function("POWI", RS, IS, RS)
POWR = Function("POWR", RS, RS, RS)
SQRT = Function("SQRT", RS, RS)
EXPF = Function("EXPF", RS, RS)
SINF = Function("SINF", RS, RS)
COSF = Function("COSF", RS, RS)
LOGF = Function("LOGF", RS, RS)
GLP = Function("GLP", IS, IS, RS)
GLW = Function("GLW", IS, IS, RS)


def absr(x): return If(x < 0, -x, x)
