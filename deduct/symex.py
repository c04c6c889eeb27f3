"""Verification-condition generator: executes clang's tree of one library function
symbolically, path by path; loops are cut at their invariants, calls to
functions under contract are replaced by the contract, calls to other library
functions are entered."""
import re, sys, time
from fractions import Fraction
import z3
from z3 import And, Or, Not, If, Implies, IntVal, RealVal, Int, Real, BoolVal, Function, IntSort, RealSort
import logic
from logic import All, Imp, Prover, R, I, Sum, Prod, Max, toreal, flat
from values import *
sys.setrecursionlimit(100000)
W64 = IntVal(2 ** 64); W32 = IntVal(2 ** 32)


class NeedFork(Exception): pass
class Restart(Exception): pass
class Cut(Exception): pass
class Infeasible(Exception): pass
class Brk(Exception): pass
class Cont(Exception): pass
class Thrown(Exception):
    def __init__(self, what): self.what = what
class Ret(Exception):
    def __init__(self, v): self.v = v


# ------------------------------------------------------------------ locations
class Cell:
    def __init__(self, key): self.key = key
    def get(self, X): return X.load(self.key)
    def set(self, X, v): X.storev(self.key, v)


class Lens:
    def __init__(self, base, g, s): self.base, self.g, self.s = base, g, s
    def get(self, X): return self.g(self.base.get(X))
    def set(self, X, v):
        if self.s is None: raise Unsupported("assignment through a read-only view")
        self.base.set(X, self.s(self.base.get(X), v))


class Sink:
    """std::ignore"""
    def get(self, X): return Opaque("ignored")
    def set(self, X, v): pass
    assign = set


class Const:
    """temporary"""
    def __init__(self, v): self.v = v
    def get(self, X): return self.v
    def set(self, X, v): self.v = v


def tyclean(t):
    t = (t or "").strip()
    while True:
        u = t
        for p in ("const ", "volatile ", "class ", "struct "):
            if t.startswith(p): t = t[len(p):]
        for s in ("&&", "&", " const"):
            if t.endswith(s): t = t[:-len(s)].strip()
        if t == u: return t


_V, _M, _VI = "Eigen::Matrix<double, -1, 1>", "Eigen::Matrix<double, -1, -1>", "Eigen::Matrix<int, -1, 1>"
ALIASES = {"Eigen::VectorXd": _V, "VectorXd": _V, "Eigen::MatrixXd": _M, "MatrixXd": _M, "Eigen::VectorXi": _VI, "Eigen::RowVectorXd": "Eigen::Matrix<double, 1, -1>"}
INT_T = {"int": "i", "long": "i", "long long": "i", "short": "i", "unsigned long": "u", "unsigned int": "v", "size_t": "u", "std::size_t": "u",
         "unsigned long long": "u", "unsigned char": "v", "char": "i", "Eigen::Index": "i", "Index": "i", "std::ptrdiff_t": "i"}


def isint(t): return isinstance(t, z3.ExprRef) and z3.is_int(t)
def isreal(t): return isinstance(t, z3.ExprRef) and z3.is_real(t)
def isbool(t): return isinstance(t, z3.ExprRef) and z3.is_bool(t)
def isnum(t): return isint(t) or isreal(t)


class Obligation:
    __slots__ = ("name", "hyps", "goal", "kind", "key")
    def __init__(self, name, hyps, goal, kind, key): self.name, self.hyps, self.goal, self.kind, self.key = name, hyps, goal, kind, key


class LoopInfo:
    def __init__(self, stamp, frame, key): self.stamp, self.frame, self.key = stamp, frame, key


class Ctx:
    """what a contract clause can talk about"""
    def __init__(self, X, this=None, args=(), old=None, res=None, frame=None, entry=None, idx=None, seq=None):
        self.X, self.this, self.args, self.oldstore, self.res = X, this, list(args), old, res
        self.frame, self.entrystore, self.idx, self.seq = frame, entry, idx, seq
        self.snap = dict(X.store); self.heap0, self.oids, self.loids, self.birth = X.heap0, X.oids, X.local_oids, X.birth

    def _with(self, store, fn):
        X = self.X; keep = (X.store, X.heap0, X.oids, X.local_oids, X.birth)
        X.store, X.heap0, X.oids, X.local_oids, X.birth = store, self.heap0, self.oids, self.loids, self.birth
        try: return fn()
        finally: X.store, X.heap0, X.oids, X.local_oids, X.birth = keep

    # values at the point of the clause
    def a(self, i): return self._with(self.snap, lambda: self._a(i))
    def _a(self, i):
        v = self.args[i]
        return v.get(self.X) if hasattr(v, "get") else v
    def oa(self, i): return self._with(self.oldstore, lambda: self._a(i))
    def f(self, name, obj=None): return self._with(self.snap, lambda: self._f(name, obj))
    def _f(self, name, obj=None): return self.X.getfield(obj if obj is not None else self.this, name)
    def of(self, name, obj=None): return self._with(self.oldstore, lambda: self._f(name, obj))
    # locals of the function under verification
    def v(self, name): return self._with(self.snap, lambda: self._v(name))
    def _v(self, name):
        lv = self.X.local(name, self.frame)
        return lv.get(self.X)
    def ev(self, name): return self._with(self.entrystore, lambda: self._v(name))
    def ef(self, name, obj=None): return self._with(self.entrystore, lambda: self._f(name, obj))
    def ea(self, i): return self._with(self.entrystore, lambda: self._a(i))
    def has(self, name):
        try: self.X.local(name, self.frame); return True
        except Unsupported: return False
    def old(self):
        """the same context in the state before the call"""
        c = Ctx.__new__(Ctx); c.__dict__.update(self.__dict__); c.snap = self.oldstore
        return c


class Frame:
    def __init__(self, func, env, this, path, params): self.func, self.env, self.this, self.path, self.params = func, env, this, path, params


class Executor:
    def __init__(self, P, contracts, invs, prover, lib):
        self.P, self.contracts, self.invs, self.prover, self.lib = P, contracts, invs, prover, lib
        self.frames_cache = {}
        self.feas = {}
        self.maxpaths = 400
        self.used = set(); self.inlined = set(); self.assumed_calls = set()

    # ------------------------------------------------------------ exploration
    def verify(self, func, con):
        """explores every path; returns list of obligations"""
        self.con = con; self.func = func
        for attempt in range(40):
            self.obs = {}; self.ends = []; self.npaths = 0; self.feas = {}; self.kinds = {}
            try:
                self.explore(func, con)
                return list(self.obs.values())
            except Restart:
                continue
        raise Unsupported("loop frames do not stabilise")

    def explore(self, func, con):
        todo = [[]]
        while todo:
            prefix = todo.pop()
            self.reset(prefix)
            try:
                self.path(func, con)
                self.kinds["return"] = self.kinds.get("return", 0) + 1
            except Cut: self.kinds["cut"] = self.kinds.get("cut", 0) + 1
            except Infeasible: pass
            self.npaths += 1
            if self.npaths > self.maxpaths: raise Unsupported("too many paths")
            for k in range(len(prefix), len(self.trail)):
                if self.alts[k]: todo.append(self.trail[:k] + [not self.trail[k]])

    def reset(self, prefix):
        self.prefix = prefix; self.trail = []; self.alts = []
        self.pc = []; self.store = {}; self.birth = {}; self.clock = 1; self.ctype = {}
        self.fresh_n = 0; self.ob_n = 0; self.loops = []; self.pure = 0; self.guards = []
        self.stack = []; self.oids = {}; self.dirty = set(); self.callpath = ()
        self.moved = set(); self.statics = {}; self.local_oids = set(); self.heap0 = {}

    def assume(self, f):
        if f is None: return
        if isinstance(f, dict): f = list(f.values())
        if isinstance(f, (list, tuple)):
            for x in f: self.assume(x)
            return
        if isinstance(f, bool): f = BoolVal(f)
        if self.guards: f = Imp(And(*self.guards), f)
        self.pc.append(f)

    def known(self, f):
        """assume (an instance of a lemma) and return it, for `using`"""
        self.assume(f); return f

    def obligation(self, name, goal, kind="assert", using=None):
        """using: prove from these facts only; each must already be among what is known"""
        if goal is None: return
        if isinstance(goal, dict):
            for k, v in goal.items(): self.obligation(name + ": " + k, v, kind)
            return
        if isinstance(goal, (list, tuple)):
            for k, v in enumerate(goal): self.obligation(name + (": #%d" % k if len(goal) > 1 else ""), v, kind)
            return
        if isinstance(goal, bool): goal = BoolVal(goal)
        if isinstance(goal, z3.ExprRef) and z3.is_true(z3.simplify(goal)): 
            triv = True
        else: triv = False
        key = (tuple(self.trail), self.ob_n); self.ob_n += 1
        g = Imp(And(*self.guards), goal) if self.guards else goal
        if key not in self.obs:
            hyps = list(self.pc)
            if using is not None:
                ids = {id(f) for f in self.pc}
                if not all(id(f) in ids for f in using): raise Unsupported("step from something not known: " + name)
                hyps = list(using)
            self.obs[key] = Obligation(name, hyps, g, "trivial" if triv else kind, key)
        self.assume(goal)
        return goal

    def feasible(self, cond):
        return self.prover.feasible(self.pc + ([Imp(And(*self.guards), cond)] if False else list(self.guards) + [cond]))

    def entailed(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        key = ("ent", tuple(self.trail), len(self.pc), c.get_id(), len(self.guards))
        r = self.feas.get(key)
        if r is None:
            r = not self.feasible(Not(c)); self.feas[key] = r; logic._keep.append(c)
        return r

    def decide(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        key = ("br", tuple(self.trail), len(self.pc), c.get_id(), len(self.guards))
        r = self.feas.get(key)
        if r is None:
            ft = self.feasible(c); ff = self.feasible(Not(c)) if ft else True
            r = (ft, ff); self.feas[key] = r; logic._keep.append(c)
        ft, ff = r
        if not ff: self.assume(c); return True
        if not ft: self.assume(Not(c)); return False
        if self.pure: raise NeedFork()
        k = len(self.trail)
        if k < len(self.prefix): d = self.prefix[k]; alt = False
        else: d = True; alt = True
        self.trail.append(d); self.alts.append(alt)
        self.assume(c if d else Not(c))
        return d

    def fresh(self, sort, hint="t"):
        self.fresh_n += 1
        nm = "%s!%d" % (hint, self.fresh_n)
        if sort in ("i", "u", "v"):
            x = Int(nm)
            if sort in ("u", "v"): self.assume(x >= 0)
            return x
        if sort == "d": return Real(nm)
        if sort == "b": return z3.Bool(nm)
        raise Unsupported("sort " + sort)

    def freshmat(self, r, c, hint="M", isint=False):
        self.fresh_n += 1
        r, c = I(r), I(c)
        rs = IntSort() if isint else RealSort()
        if z3.is_int_value(c) and c.as_long() == 1:
            F = Function("%s!%d" % (hint, self.fresh_n), IntSort(), rs)
            return Mat(r, c, lambda i, j: F(i))
        if z3.is_int_value(r) and r.as_long() == 1:
            F = Function("%s!%d" % (hint, self.fresh_n), IntSort(), rs)
            return Mat(r, c, lambda i, j: F(j))
        F = Function("%s!%d" % (hint, self.fresh_n), IntSort(), IntSort(), rs)
        return Mat(r, c, lambda i, j: F(i, j))

    def freshval(self, ty, hint="x"):
        """arbitrary value of a C++ type"""
        t = self.canon(tyclean(ty))
        if t in INT_T: return self.fresh(INT_T[t], hint)
        if t in ("double", "float"): return self.fresh("d", hint)
        if t == "bool": return self.fresh("b", hint)
        m = re.match(r"Eigen::(?:Matrix|Ref|Map|Array)<(.*)$", t)
        if m:
            inner = m.group(1)
            isi = "int" in inner.split(",")[0]
            dims = re.search(r"(?:double|int), (-?\d+), (-?\d+)", inner)
            if "VectorXd" in t: dims = ("-1", "1")
            elif "MatrixXd" in t: dims = ("-1", "-1")
            else: dims = dims.groups() if dims else ("-1", "-1")
            if dims[1] == "1": return self.freshmat(self.fresh("u", hint + "_n"), 1, hint, isi)
            if dims[0] == "1": return self.freshmat(1, self.fresh("u", hint + "_n"), hint, isi)
            return self.freshmat(self.fresh("u", hint + "_r"), self.fresh("u", hint + "_c"), hint, isi)
        if t.startswith("Eigen::SparseMatrix"):
            return self.freshmat(self.fresh("u", hint + "_r"), self.fresh("u", hint + "_c"), hint)
        if t.startswith("std::pair<") or t.startswith("std::tuple<"):
            return Struct([self.freshval(a, hint + str(i)) for i, a in enumerate(targs(t))])
        m = re.match(r"std::(?:list|vector)<(.*)$", t)
        if m:
            el = targs(t)[0]
            return self.freshseq(el, hint)
        if t.startswith("std::optional<"):
            return Opt(self.fresh("b", hint + "_has"), self.freshval(targs(t)[0], hint + "_val"))
        if t.startswith("std::basic_string") or t in ("std::string", "string"): return Str(self.fresh("i", hint))
        m = re.match(r"std::(?:unique_ptr|shared_ptr)<(.*?)(?:,.*)?>$", t)
        if m: return self.freshval(m.group(1), hint)
        if t.endswith("*"): return self.freshval(t[:-1], hint)
        if t in ("gsplines::basis::Basis",):
            b = BasisV(self.fresh("i", hint)); self.assume(DIM(b.t) >= 1); self.basisfacts(b.t); return b
        if t in ("gsplines::functions::FunctionBase", "gsplines::functions::Function", "FunctionBase"):
            f = Fn(self.fresh("i", hint)); self.fnfacts(f.t); return f
        if t in self.P.classes: return self.newobj(t, hint, root=True)
        if t.startswith("gsplines::Bas") or t == "Basis": raise Unsupported("value of type " + t)
        if t.startswith("std::map<"): return Opaque("map")
        if t.startswith("std::function<"): return FPtr(None, None, self.fresh("i", hint))
        if "(" in t: return Opaque("function pointer")
        if t == "Type" or t.endswith("::Type"): return self.fresh("i", hint)
        raise Unsupported("value of type " + t)

    def canon(self, t):
        t = ALIASES.get(t, t)
        if "<" in t and t not in self.P.classes:
            alt = [n for n in self.P.classes if n.startswith(t[:-1] + ",") or n.endswith("::" + t)]
            if len(alt) == 1: return alt[0]
        if t in self.P.classes or "<" in t or "::" not in t and t in INT_T: return t
        if t.endswith("*"): return self.canon(t[:-1].strip()) + "*"
        for pre in ("gsplines::", "gsplines::functions::", "gsplines::basis::", "gsplines::collocation::"):
            if pre + t in self.P.classes: return pre + t
        return t

    def basisfacts(self, b):
        self.assume(And(NPAR(b) >= 0, NPARI(b) >= 0))

    def fnfacts(self, f):
        self.assume(And(DOM0(f) <= DOM1(f), COD(f) >= 1))

    def freshseq(self, el, hint):
        n = self.fresh("u", hint + "_len")
        e = tyclean(el)
        self.fresh_n += 1; base = "%s!%d" % (hint, self.fresh_n)
        m = re.match(r"std::(?:unique_ptr|shared_ptr)<(.*?)(?:,.*)?>$", e)
        if m: e = m.group(1)
        e = tyclean(e)
        if e in ("gsplines::functions::FunctionBase", "FunctionBase"):
            F = Function(base, IntSort(), IntSort())
            self.assume(All(["I"], lambda k: Implies(And(0 <= k, k < n), And(DOM0(F(k)) <= DOM1(F(k)), COD(F(k)) >= 1))))
            return Seq([("part", n, lambda k: Fn(F(k)))])
        if e in ("double", "float"):
            F = Function(base, IntSort(), RealSort()); return Seq([("part", n, lambda k: F(k))])
        if e in INT_T:
            F = Function(base, IntSort(), IntSort()); return Seq([("part", n, lambda k: F(k))])
        if e.startswith("std::pair<"):
            a = targs(e); Fs = []
            for q, x in enumerate(a):
                s = INT_T.get(tyclean(x))
                F = Function(base + "_%d" % q, IntSort(), IntSort() if s else RealSort()); Fs.append(F)
                if s in ("u", "v"): self.assume(All(["I"], lambda k, F=F: F(k) >= 0))
            return Seq([("part", n, lambda k: Struct([F(k) for F in Fs]))])
        if e.startswith("Eigen::Matrix") or e.startswith("Eigen::SparseMatrix"):
            Rf = Function(base + "_r", IntSort(), IntSort()); Cf = Function(base + "_c", IntSort(), IntSort())
            F = Function(base, IntSort(), IntSort(), IntSort(), RealSort())
            self.assume(All(["I"], lambda k: And(Rf(k) >= 0, Cf(k) >= 0)))
            return Seq([("part", n, lambda k: Mat(Rf(k), Cf(k), lambda i, j: F(k, i, j)))])
        raise Unsupported("sequence of " + e)

    # ------------------------------------------------------------ store
    def load(self, key):
        if key in self.store:
            return self.store[key]
        if key[0] == "f": return self.lazyfield(key)
        raise Unsupported("read of an uninitialised location %s" % (key,))

    def lazyfield(self, key):
        _, oid, name = key
        if key in self.heap0: v = self.heap0[key]
        else:
            cls = self.oids[oid]
            ty = self.fieldtype(cls, name)
            if ty is None: raise Unsupported("no field %s in %s" % (name, cls))
            keepg, self.guards = self.guards, []
            v = self.freshval(ty, name.rstrip("_"))
            self.guards = keepg
            self.heap0[key] = v; self.birth[key] = self.birth.get(("o", oid), 0)
        return v

    def storev(self, key, v):
        if self.pure: raise NeedFork()
        if key[0] == "f": 
            if key not in self.store and key not in self.heap0 and self.oids.get(key[1]) and key[1] not in self.local_oids:
                self.lazyfield(key)
            self.dirty.add(key[1])
        if key not in self.birth: self.birth[key] = self.birth.get(("o", key[1]), self.clock) if key[0] == "f" else self.clock; self.clock += 1
        for L in self.loops:
            if self.birth[key] < L.stamp:
                old = self.store.get(key, self.heap0.get(key))
                lvl = 1
                if isinstance(v, Mat) and isinstance(old, Mat) and not (same(v.r, old.r) and same(v.c, old.c)): lvl = 2
                if L.frame.get(key, 0) < lvl:
                    if lvl == 2 and isinstance(v, Mat) and isinstance(old, Mat) and self.entailed(And(v.r == old.r, v.c == old.c)): lvl = 1
                    if L.frame.get(key, 0) < lvl:
                        L.frame[key] = lvl
                        raise Restart()
        self.store[key] = v

    def fieldtype(self, cls, name):
        c = self.P.classes.get(cls)
        if c is None: return None
        for n, t in c["fields"]:
            if n == name: return t
        for b in c["bases"]:
            r = self.fieldtype(tyclean(b), name)
            if r: return r
        return None

    def allfields(self, cls):
        c = self.P.classes.get(cls); out = []
        if c is None: return out
        for b in c["bases"]: out += self.allfields(tyclean(b))
        return out + [(n, t) for n, t in c["fields"]]

    def derives(self, cls, base):
        if cls == base: return True
        c = self.P.classes.get(cls)
        return bool(c) and any(self.derives(tyclean(b), base) for b in c["bases"])

    def newobj(self, cls, hint="o", root=False):
        self.fresh_n += 1
        oid = "%s!%d" % (hint, self.fresh_n)
        # stable name across paths: call path + counter of this hint
        k = (hint, self.callpath); n = self.statics.get(k, 0); self.statics[k] = n + 1
        oid = "%s@%s#%d" % (hint, "/".join(map(str, self.callpath)), n)
        self.oids[oid] = cls
        self.birth[("o", oid)] = 0 if root and not self.stack else self.clock; self.clock += 1
        if not root: self.local_oids.add(oid)
        else:
            for nm, ty in self.allfields(cls):
                try: self.lazyfield(("f", oid, nm))
                except Unsupported: pass
        return Obj(oid, cls)

    def frozen(self, fn):
        """fn as a closure that can be called later, in the state of now and without effect"""
        st = dict(store=dict(self.store), heap0=self.heap0, oids=self.oids, local_oids=self.local_oids, birth=self.birth, stack=list(self.stack), callpath=self.callpath,
                  loops=list(self.loops), guards=[], statics=dict(self.statics), ctype=self.ctype, trail=list(self.trail), alts=list(self.alts), prefix=list(self.prefix))
        def call(*a):
            keep = {k: getattr(self, k) for k in list(st) + ["pc", "fresh_n", "ob_n", "obs", "pure", "dirty", "clock"]}
            for k, v in st.items(): setattr(self, k, dict(v) if k in ("store", "statics") else list(v) if k in ("stack", "loops") else v)
            self.pc = list(self.pc); self.obs = dict(self.obs); self.pure = 1; self.dirty = set(self.dirty); self.frozen_n = getattr(self, "frozen_n", 0) + 1
            self.fresh_n = 10 ** 6 + self.frozen_n * 100
            try: return fn(*a)
            finally:
                for k, v in keep.items(): setattr(self, k, v)
        return call

    def fieldlv(self, obj, name):
        if isinstance(obj, (Fn, BasisV)): return Const(self.absfield(obj, name))
        if isinstance(obj, Struct):
            raise Unsupported("field %s" % name)
        return Cell(("f", obj.oid, name))

    def absfield(self, o, name):
        if isinstance(o, Fn):
            if name in ("domain_", "window_"): return Struct([DOM0(o.t), DOM1(o.t)])
            if name == "codom_dim_": return COD(o.t)
            if name == "name_": return Str(FNAME(o.t))
        else:
            if name == "dim_": return DIM(o.t)
            if name == "name_": return Str(BNAME(o.t))
            if name == "alpha_": return ALPHA(o.t)
            if name == "parameters_float_": return vec(NPAR(o.t), lambda i: PAR(o.t, i))
            if name == "parameters_int_": return vec(NPARI(o.t), lambda i: PARI(o.t, i))
        raise Unsupported("field %s of an abstract object" % name)

    def getfield(self, obj, name): return self.fieldlv(obj, name).get(self)

    def local(self, name, frame=None):
        fr = frame or self.stack[-1]
        best = None
        for did, b in fr.env.items():
            if fr.names.get(did) == name: best = b
        if best is None:
            # renamed since the contract was written?  same place among the locals
            alt = self.renamed(fr, name)
            if alt is not None: return self.local(alt, fr)
            raise Unsupported("no local named %s" % name)
        return best

    def renamed(self, fr, name):
        b = getattr(self.lib, "baseline", None)
        if not b or fr.con is None: return None
        was = (b.get(fr.con.id + " @ " + fr.func.mangled) or {}).get("locals")
        if not was or name not in was: return None
        import driver
        now = driver.locals_of(fr.func)
        if len(now) != len(was) or name in now: return None
        return now[was.index(name)]

    # ------------------------------------------------------------ one path of the function under contract
    def path(self, func, con):
        isctor = func.kind == "CXXConstructorDecl"
        this = None
        if func.cls in self.P.classes and not con.static:
            if con.this_abstract == "fn": this = Fn(self.fresh("i", "this")); self.fnfacts(this.t)
            elif con.this_abstract == "basis": this = BasisV(self.fresh("i", "this")); self.assume(DIM(this.t) >= 1)
            else:
                cls = con.cls or func.cls
                this = self.newobj(cls, "this", root=not isctor)
                if isctor: self.birth[("o", this.oid)] = 0
        args = []
        for i, p in enumerate(func.params):
            t = p.ty or ""
            v = self.freshval(t, (p.name or "arg%d" % i).strip("_"))
            if t.strip().endswith("&") or t.startswith("Eigen::Ref") or t.startswith("const Eigen::Ref"):
                key = ("a", i); self.store[key] = v; self.birth[key] = 0
                args.append(v if isinstance(v, (Obj, Fn, BasisV)) else Cell(key))
            elif isinstance(v, (Obj, Fn, BasisV)): args.append(v)
            else:
                key = ("a", i); self.store[key] = v; self.birth[key] = 0
                args.append(Cell(key))
        if con.alias:
            for i, j in con.alias: args[i] = args[j] if j >= 0 else this
        c = Ctx(self, this, args, None)
        if not isctor: self.assume_inv(this)
        for a in args: self.assume_inv(a)
        self.assume(con.requires(c) if con.requires else None)
        if con.axioms: self.assume(con.axioms(c))
        # materialise
        old = dict(self.store); 
        old_heap = self.heap0
        c.oldstore = old
        res = None; threw = None
        self.c0 = c
        try:
            res = self.call_body(func, this, [a if hasattr(a, "get") else Const(a) for a in args], node=None, con=con)
        except Thrown as e: threw = e
        c = Ctx(self, this, args, old, res)
        tcond = con.throws(Ctx(self, this, args, old)) if con.throws else None
        if con.throws: tcond = self.in_store(old, lambda: con.throws(Ctx(self, this, args, old)))
        if threw is not None:
            if con.may_throw: pass
            else: self.obligation("throws only when it has to (%s)" % threw.what, tcond if tcond is not None else BoolVal(False), "throws")
            if con.ensures_throw: self.obligation("after a throw", con.ensures_throw(c), "post")
            if con.strong: self.frame_check(func, this, args, old, set(), "an error leaves %s unchanged")
            return
        self.ends.append(list(self.pc))
        if con.throws and not con.may_throw: self.obligation("rejects", Not(tcond), "throws")
        if hasattr(res, "get") and not isinstance(res, (Obj,)): c.res = res.get(self)
        c.rawres = res
        if con.hints: self.assume(con.hints(c))
        if con.result is not None:
            want = self.in_store(old, lambda: con.result(Ctx(self, this, args, old)))
            self.obligation("result", self.equal(c.res, want), "post")
        if con.assigns:
            want = self.in_store(old, lambda: con.assigns(Ctx(self, this, args, old)))
            for nm, v in want.items(): self.obligation("sets %s" % nm, self.equal(self.getfield(this, nm), v), "post")
        if con.footprint:
            for nm, fp in self.in_store(old, lambda: con.footprint(Ctx(self, this, args, old))).items():
                lv = args[int(nm[3:])] if nm.startswith("arg") else self.fieldlv(this, nm.split(".")[1])
                was, now = self.keep_old(old, lv), lv.get(self)
                self.obligation("writes only its own part of " + nm, [now.r == was.r, now.c == was.c, All(["I", "I"], lambda i, j: Implies(Not(fp(i, j)), now.f(i, j) == was.f(i, j)))], "frame")
        if con.ensures: self.obligation("ensures", con.ensures(c), "post")
        # class invariants
        if this is not None and isinstance(this, Obj) and (isctor or this.oid in self.dirty) and not ("this" in con.modifies and (this.oid in self.moved or (func.ty or "").rstrip().endswith("&&"))) and "this!" not in con.modifies and not con.noinv: self.check_inv(this, "class invariant of *this")
        if isinstance(c.res, Obj) and c.res.oid != (this.oid if isinstance(this, Obj) else None): self.check_inv(c.res, "class invariant of the result")
        if not isctor: self.frame_check(func, this, args, old, set(con.modifies), "leaves %s unchanged")

    def frame_check(self, func, this, args, old, mod, label):
        for key, v in sorted(self.store.items(), key=lambda kv: str(kv[0])):
            if key[0] == "f":
                o = key[1]
                if o in self.local_oids or not self.is_root(o): continue
                nm = "this." + key[2] if isinstance(this, Obj) and o == this.oid else None
                for i, a in enumerate(args):
                    if isinstance(a, Obj) and a.oid == o: nm = "arg%d.%s" % (i, key[2])
                if nm is None: nm = o + "." + key[2]
                if nm in mod or nm.split(".")[0] in mod or nm.split(".")[0] + "!" in mod: continue
                was = old.get(key, self.heap0.get(key))
                if was is None or same(was, v): continue
                self.obligation(label % nm, self.equal(v, was), "frame")
            elif key[0] == "a":
                nm = "arg%d" % key[1]
                byref = (func.params[key[1]].ty or "").strip()
                if nm in mod or not (byref.endswith("&") or "Ref<" in byref) or (byref.endswith("&&") and mod): continue
                was = old.get(key)
                if was is None or same(was, v): continue
                self.obligation(label % nm, self.equal(v, was), "frame")

    def is_root(self, oid): return self.birth.get(("o", oid)) == 0

    def in_store(self, store, fn):
        keep = self.store; self.store = dict(store)
        try: return fn()
        finally: self.store = keep

    def equal(self, a, b):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if z3.is_bool(a): return a == b
            if isreal(a) or isreal(b): return R(a) == R(b)
            return a == b
        if isinstance(a, Mat):
            return [a.r == b.r, a.c == b.c, All(["I", "I"], lambda i, j: Implies(And(0 <= i, i < a.r, 0 <= j, j < a.c), a.f(i, j) == b.f(i, j)))]
        if isinstance(a, Struct): return [self.equal(x, y) for x, y in zip(a.items, b.items)]
        if isinstance(a, (Fn, BasisV, Str, FPtr)): return a.t == b.t
        if isinstance(a, Seq):
            return [a.len() == b.len(), All(["I"], lambda k: Imp(And(0 <= k, k < a.len()), self.equal(a.at(k), b.at(k))))]
        if isinstance(a, Opaque) or isinstance(b, Opaque): return BoolVal(True)
        if isinstance(a, Opt): return [a.has == b.has, Imp(a.has, self.equal(a.val, b.val))]
        if isinstance(a, Obj) and isinstance(b, Obj): return BoolVal(a.oid == b.oid)
        raise Unsupported("equality of %s and %s" % (type(a).__name__, type(b).__name__))

    def inv_of(self, o):
        if not isinstance(o, Obj): return None
        out = {}
        for cls, fn in self.invs.items():
            if self.derives(o.cls, cls):
                out.update(fn(Ctx(self, o, []), o))
        return out

    def assume_inv(self, o):
        if isinstance(o, Cell) or hasattr(o, "get"): 
            try: o = o.get(self)
            except Unsupported: return
        r = self.inv_of(o)
        if r: self.assume(r)

    def check_inv(self, o, label):
        r = self.inv_of(o)
        if r: self.obligation(label, r, "inv")

    # ------------------------------------------------------------ calls
    def call_body(self, func, this, args, node, con=None, env0=None):
        """executes the body of a library function; args: LVs"""
        if len(self.stack) > 24: raise Unsupported("call depth")
        keepp = self.callpath
        if node is not None: self.callpath = self.callpath + (str(node.id)[-6:],)
        fr = Frame(func, {}, this, self.callpath, func.params)
        fr.names = {}; fr.con = con; fr.loopno = {}
        for i, l in enumerate(loops_in(func.body)): fr.loopno[l.id] = i
        if env0: fr.env.update(env0)
        for p, a in zip(func.params, args):
            t = (p.ty or "")
            fr.names[p.id] = p.name
            if t.endswith("&") or "Eigen::Ref<" in t.split("(")[0] or "Eigen::Map<" in t: fr.env[p.id] = a
            else:
                v = a.get(self) if hasattr(a, "get") else a
                if isinstance(a, Cell) and a.key[0] == "a" and node is None: fr.env[p.id] = a
                else:
                    key = ("v", p.id, self.callpath); self.newcell(key); self.store[key] = v
                    fr.env[p.id] = Cell(key)
        self.stack.append(fr)
        nloops = len(self.loops)
        try:
            if func.kind == "CXXConstructorDecl": self.run_inits(func, this)
            try:
                if func.body is not None: self.stmt(func.body)
                res = None
            except Ret as r: res = r.v
            rt = (func.ty or "").split("(")[0].strip()
            if res is not None and hasattr(res, "get") and not (rt.endswith("&") or "Ref<" in rt or "Map<" in rt):
                res = res.get(self)
            return res
        finally:
            self.stack.pop(); self.callpath = keepp
            del self.loops[nloops:]

    def newcell(self, key):
        self.birth[key] = self.clock; self.clock += 1
        for L in self.loops: L.frame.pop(key, None)

    def run_inits(self, func, this):
        for ini in func.inits:
            x = ini.x; e = ini.kids[0] if ini.kids else None
            if "baseInit" in x or "delegatingInit" in x:
                self.construct_into(this, e)
            elif "anyInit" in x:
                if e is None: continue
                ty = self.fieldtype(this.cls, x["anyInit"])
                try: v = self.rv(e)
                except Unsupported as u:
                    if ty and ("std::map<" in ty or "(" in ty): v = Opaque("map")
                    else: raise
                self.fieldlv(this, x["anyInit"]).set(self, v)

    def construct_into(self, this, e):
        """base or delegating constructor on *this"""
        n = e
        while n.k in ("ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ImplicitCastExpr", "CXXFunctionalCastExpr") and n.kids: n = n.kids[0]
        cls = self.canon(tyclean(n.ty))
        if n.k == "CXXInheritedCtorInitExpr":
            fr = self.stack[-1]
            self.forward_ctor(this, cls, fr)
            return
        if n.k != "CXXConstructExpr" and n.k != "CXXTemporaryObjectExpr": raise Unsupported("base initialiser " + n.k)
        args = [self.argv(a) for a in n.kids if a is not None]
        self.call_ctor(this, cls, n, args)

    def forward_ctor(self, this, cls, fr):
        pt = [tyclean(p.ty) for p in fr.params]
        cand = []
        for f in self.P.funcs.values():
            if f.cls == cls and f.kind == "CXXConstructorDecl" and [tyclean(p.ty) for p in f.params] == pt and [("&&" in (p.ty or "")) for p in f.params] == [("&&" in (p.ty or "")) for p in fr.params]: cand.append(f)
        if not cand: raise Unsupported("inherited constructor of " + cls)
        args = [fr.env[p.id] for p in fr.params]
        self.invoke(cand[0], this, args, fr.func.node)

    def find_ctor(self, cls, ctorty, nargs):
        out = []
        for f in self.P.funcs.values():
            if f.cls == cls and f.kind == "CXXConstructorDecl":
                raw = self.P.declinfo[f.mangled][2]
                if raw == ctorty: return f
                if len(f.params) == nargs: out.append(f)
        return None

    def call_ctor(self, this, cls, n, args):
        f = self.find_ctor(cls, n.x.get("ctorType"), len(args))
        if f is None:
            # implicit copy / move / default constructor
            ct = n.x.get("ctorType") or ""
            if len(args) == 1 and ("&" in ct):
                src = args[0].get(self) if hasattr(args[0], "get") else args[0]
                if isinstance(src, Obj):
                    for nm, ty in self.allfields(cls):
                        try: self.fieldlv(this, nm).set(self, self.getfield(src, nm))
                        except Unsupported: self.fieldlv(this, nm).set(self, Opaque(nm))
                    return
                if isinstance(src, Fn):
                    for nm in ("domain_", "window_", "codom_dim_", "name_"): self.fieldlv(this, nm).set(self, self.absfield(src, nm))
                    return
            if len(args) == 0: return
            raise Unsupported("constructor %s of %s" % (n.x.get("ctorType"), cls))
        # default arguments
        full = []
        for p, a in zip(f.params, args):
            full.append(a)
        self.invoke(f, this, full, n)

    def invoke(self, f, this, args, node):
        """call of a library function: by contract when it has one, else by entering the body"""
        for i, a in enumerate(args):
            if isinstance(a, Const) and a.v is DEFAULT:
                args[i] = Const(self.default_arg(f, i))
        con = self.lib.find(f, this)
        if con is not None and not con.inline and not (con is self.con and len(self.stack) == 0):
            return self.by_contract(f, con, this, args, node)
        self.inlined.add(f.qual)
        if f.kind == "CXXConstructorDecl" or True:
            return self.call_body(f, this, args, node)

    def default_arg(self, f, i):
        p = f.params[i]
        # prefer a declaration that carries the default
        for c in p.kids:
            if c is not None and c.k != "FullComment":
                return self.rv(c)
        d = self.lib.defaults.get((f.qual, i))
        if d is not None: return d(self)
        t = tyclean(p.ty)
        if "string" in t: return Str(IntVal(0))
        if t.startswith("Eigen::Matrix"): return Mat(0, 1, lambda a, b: RealVal(0) if "double" in t else IntVal(0))
        if t == "double": return self.fresh("d", "dflt")
        raise Unsupported("default argument of " + f.qual)

    def by_contract(self, f, con, this, args, node):
        self.used.add(con.id)
        args = [a.get(self) if isinstance(a, Const) else a for a in args]
        args = [a.get(self) if hasattr(a, "get") and isinstance(a.get(self), (Obj, Fn, BasisV)) else a for a in args]
        isctor = f.kind == "CXXConstructorDecl"
        c = Ctx(self, this, args)
        for o in [this] + list(args):
            if isinstance(o, Obj) and o.oid in self.dirty and not (isctor and o is this): self.check_inv(o, "invariant before the call of %s" % con.short)
        if con.requires: self.obligation("precondition of %s" % con.short, con.requires(c), "pre")
        if con.throws:
            t = con.throws(c)
            if self.decide(t): raise Thrown(con.short)
        elif con.may_throw:
            if self.decide(self.fresh("b", "thrown")): raise Thrown(con.short)
        if con.result is not None and not con.ensures and not con.modifies:
            return con.result(c)
        if self.pure and con.modifies: raise NeedFork()
        old = dict(self.store)
        sets = con.assigns(c) if con.assigns else {}
        if isctor:
            for nm, ty in self.allfields(this.cls):
                if con.assigns and nm in sets: continue
                try: self.fieldlv(this, nm).set(self, self.freshval(ty, nm.strip("_")))
                except Unsupported: pass
        foot = con.footprint(c) if con.footprint else {}
        for m in con.modifies:
            self.havoc_name(m.rstrip("!"), this, args)
            if m in foot:
                lv = args[int(m[3:])] if m.startswith("arg") else self.fieldlv(this, m.split(".")[1])
                k = self.keep_old(old, lv); new = lv.get(self)
                lv.set(self, Mat(new.r, new.c, lambda i, j, k=k, new=new, fp=foot[m]: ite(fp(i, j), new.f(i, j), k.f(i, j))))
        for nm, v in sets.items(): self.fieldlv(this, nm).set(self, v)
        rt = (f.ty or "").split("(")[0].strip()
        res = None
        if con.result is not None: res = con.result(c)
        elif con.result_lv is not None: res = con.result_lv(c)
        elif rt != "void" and not isctor:
            cls = tyclean(rt)
            res = self.freshval(rt.rstrip("&").strip() if not rt.endswith("*") else rt, con.short.split("::")[-1])
        c2 = Ctx(self, this, args, old, res.get(self) if hasattr(res, "get") else res)
        if con.ensures: self.assume(con.ensures(c2))
        if isctor and not con.noinv: self.assume_inv(this)
        if isinstance(res, Obj): self.assume_inv(res)
        if isinstance(this, Obj) and any(m.startswith("this") for m in con.modifies): self.assume_inv(this)
        return res

    def keep_old(self, old, lv):
        return self.in_store(old, lambda: lv.get(self))

    def havoc_name(self, m, this, args):
        parts = m.split(".")
        o = this if parts[0] == "this" else args[int(parts[0][3:])]
        if len(parts) == 1:
            lv = o
            if isinstance(o, Obj):
                self.moved.add(o.oid)
                for nm, ty in self.allfields(o.cls):
                    self.fieldlv(o, nm).set(self, self.freshval(ty, nm.strip("_")))
                return
        else: lv = self.fieldlv(o, parts[1])
        if not hasattr(lv, "set"): return      # a temporary
        lv.set(self, self.havoc_like(lv.get(self), parts[-1].strip("_"), shape=False))

    def havoc_like(self, v, hint, shape=True, ctype=None):
        if isinstance(v, Mat):
            isi = isint(v.f(IntVal(0), IntVal(0)))
            r, c = v.r, v.c
            if shape:
                if not (z3.is_int_value(c) and c.as_long() == 1 ): c = self.fresh("u", hint + "_c") if not z3.is_int_value(r) or r.as_long() != 1 else self.fresh("u", hint + "_c")
                if not (z3.is_int_value(r) and r.as_long() == 1): r = self.fresh("u", hint + "_r")
            return self.freshmat(r, c, hint, isi)
        if isint(v):
            return self.fresh(ctype or "i", hint)
        if isreal(v): return self.fresh("d", hint)
        if isbool(v): return self.fresh("b", hint)
        if isinstance(v, Struct): return Struct([self.havoc_like(x, hint) for x in v.items])
        if isinstance(v, Seq):
            # element kind from an existing element
            if not v.parts: return self.freshseq("std::unique_ptr<gsplines::functions::FunctionBase>", hint)
            s = v.parts[0][1] if v.parts[0][0] == "one" else v.parts[0][2](IntVal(0))
            if isinstance(s, Fn): return self.freshseq("std::unique_ptr<gsplines::functions::FunctionBase>", hint)
            if isinstance(s, Mat): return self.freshseq("Eigen::Matrix<double, -1, -1>", hint)
            if isreal(s): return self.freshseq("double", hint)
            raise Unsupported("havoc of a sequence")
        if isinstance(v, Iter): return Iter(v.seq, self.fresh("i", hint), v.rev)
        if isinstance(v, Fn):
            f = Fn(self.fresh("i", hint)); self.fnfacts(f.t); return f
        if isinstance(v, BasisV): return BasisV(self.fresh("i", hint))
        if isinstance(v, Str): return Str(self.fresh("i", hint))
        if isinstance(v, Opaque): return v
        if isinstance(v, FPtr): return FPtr(None, None, self.fresh("i", hint))
        if isinstance(v, Obj): return self.newobj(v.cls, hint, root=True)
        raise Unsupported("havoc of %s" % type(v).__name__)

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        if n is None: return
        m = getattr(self, "s_" + n.k, None)
        if m: return m(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        for k in n.kids: self.stmt(k)

    def s_NullStmt(self, n): pass

    def s_DeclStmt(self, n):
        for k in n.kids:
            if k is not None and k.k == "VarDecl": self.vardecl(k)

    def vardecl(self, d):
        fr = self.stack[-1]
        ty = d.ty or ""
        init = None
        for k in d.kids:
            if k is not None and k.k not in ("FullComment",): init = k
        fr.names[d.id] = d.name
        t = tyclean(ty)
        if d.x.get("storageClass") == "static": raise Unsupported("static local")
        alias = ty.endswith("&") or t.startswith("Eigen::Ref<") or t.startswith("Eigen::Map<")
        if alias and init is not None:
            v = self.ev(init)
            if not hasattr(v, "get"): v = Const(v)
            fr.env[d.id] = v
            return
        key = ("v", d.id, self.callpath)
        self.newcell(key)
        if init is None:
            try: v = self.defaultval(t, d.name)
            except Unsupported: v = Opaque(t)
        else:
            v = self.rv(init)
            if t in ("double", "float") and isint(v): v = R(v)
        self.ctype[key] = INT_T.get(t)
        fr.env[d.id] = Cell(key)
        self.store[key] = v

    def defaultval(self, t, hint):
        if t.startswith("std::list<") or t.startswith("std::vector<"): return Seq([])
        if t.startswith("Eigen::Matrix<"):
            if re.match(r"Eigen::Matrix<\w+, -1, 1", t): return self.freshmat(0, 1, hint)
            return self.freshmat(0, 0, hint)
        if t.startswith("std::optional<"): return Opt(BoolVal(False), self.freshval(targs(t)[0], hint))
        return self.freshval(t, hint or "u")

    def s_ReturnStmt(self, n):
        if not n.kids or n.kids[0] is None: raise Ret(None)
        rt = (self.stack[-1].func.ty or "").split("(")[0].strip()
        v = self.ev(n.kids[0])
        if not (rt.endswith("&") or "Ref<" in rt or "Map<" in rt) and hasattr(v, "get"): v = v.get(self)
        if rt in ("double", "float") and isint(v): v = R(v)
        raise Ret(v)

    def s_IfStmt(self, n):
        kids = list(n.kids)
        if n.x.get("hasInit") or n.x.get("hasVar"):
            self.stmt(kids.pop(0))
        c = self.cond(kids[0])
        if self.decide(c): self.stmt(kids[1])
        elif len(kids) > 2: self.stmt(kids[2])

    def cond(self, n):
        v = self.rv(n)
        if isinstance(v, Ptr): return Not(v.null)
        if isint(v): return v != 0
        if isbool(v): return v
        if isinstance(v, Opt): return v.has
        raise Unsupported("condition of %s" % type(v).__name__)

    def s_BreakStmt(self, n): raise Brk()
    def s_ContinueStmt(self, n): raise Cont()

    def s_SwitchStmt(self, n):
        kids = [k for k in n.kids if k is not None]
        v = self.rv(kids[0]); body = kids[-1]
        cases = []   # flattened statements
        stm = []
        def fl(k):
            if k.k in ("CaseStmt", "DefaultStmt"):
                if k.k == "CaseStmt":
                    stm.append(("case", self.rv(k.kids[0]))); rest = k.kids[1:]
                else: stm.append(("default", None)); rest = k.kids
                for r in rest:
                    if r is not None: fl(r)
            else: stm.append(("st", k))
        for k in body.kids: fl(k)
        start = None
        for i, (a, b) in enumerate(stm):
            if a == "case" and self.decide(v == b): start = i; break
        if start is None:
            for i, (a, b) in enumerate(stm):
                if a == "default": start = i
        if start is None: return
        try:
            for a, b in stm[start:]:
                if a == "st": self.stmt(b)
        except Brk: pass

    def s_ForStmt(self, n):
        init, _, cond, inc, body = (n.kids + [None] * 5)[:5]
        # clang prints: init, condvar, cond, inc, body (null entries dropped as {}), conv keeps None
        if len(n.kids) == 4: init, cond, inc, body = n.kids; 
        if init is not None: self.stmt(init)
        self.loop(n, lambda: self.cond(cond) if cond is not None else BoolVal(True), lambda: self.stmt(body), lambda: self.ev(inc) if inc is not None else None)

    def s_WhileStmt(self, n):
        kids = [k for k in n.kids if k is not None]
        self.loop(n, lambda: self.cond(kids[0]), lambda: self.stmt(kids[-1]), lambda: None)

    def s_DoStmt(self, n): raise Unsupported("do loop")

    def s_CXXForRangeStmt(self, n):
        kids = n.kids
        fr = self.stack[-1]
        # kids: [init?], range decl, begin, end, cond, inc, loop var decl, body
        decls = [k for k in kids if k is not None and k.k == "DeclStmt"]
        rng = None
        for dcl in decls:
            v = dcl.kids[0]
            if v.name and v.name.startswith("__range"): rng = v
        body = kids[-1]; var = decls[-1].kids[0]
        if rng is None: raise Unsupported("range for")
        seqlv = self.ev(rng.kids[0])
        seq = seqlv.get(self) if hasattr(seqlv, "get") else seqlv
        if not isinstance(seq, Seq): raise Unsupported("range for over %s" % type(seq).__name__)
        ikey = ("g", n.id, self.callpath); self.newcell(ikey); self.store[ikey] = IntVal(0); self.ctype[ikey] = "u"
        icell = Cell(ikey)

        def bodyf():
            i = icell.get(self)
            el = seq.at(i)
            fr.names[var.id] = var.name
            if (var.ty or "").endswith("&"):
                fr.env[var.id] = Lens(seqlv, lambda s: s.at(i), lambda s, x: s.setat(i, x)) if hasattr(seqlv, "get") else Const(el)
            else:
                key = ("v", var.id, self.callpath); self.newcell(key); self.store[key] = el; fr.env[var.id] = Cell(key)
            self.stmt(body)
        self.loop(n, lambda: icell.get(self) < seq.len(), bodyf, lambda: icell.set(self, simp(icell.get(self) + 1)), ghost=icell, seq=seq)

    def loop(self, n, cond, body, inc, ghost=None, seq=None):
        fr = self.stack[-1]
        con = fr.con if fr.con is not None else self.lib.find(fr.func, fr.this)
        spec = None
        idx = fr.loopno.get(n.id)
        if con is not None and idx is not None and idx < len(con.loops): spec = con.loops[idx]
        if spec is None or spec == "unroll":
            return self.unroll(n, cond, body, inc, spec)
        hint = atend = atstart = None
        if isinstance(spec, tuple): spec, hint, atend, atstart = (tuple(spec) + (None, None))[:4]
        lab = "loop %d of %s" % (idx, fr.func.qual.split("::")[-1])
        entry = dict(self.store)
        def invs():
            c = Ctx(self, fr.this, [fr.env[p.id] for p in fr.params], self.c0.oldstore, None, fr, entry, ghost.get(self) if ghost else None, seq)
            return spec(c)
        def hints():
            if hint: self.assume(hint(Ctx(self, fr.this, [fr.env[p.id] for p in fr.params], self.c0.oldstore, None, fr, entry, ghost.get(self) if ghost else None, seq)))
        self.obligation(lab + ": on entry", invs(), "inv-entry")
        key = (n.id, self.callpath)
        frame = self.frames_cache.setdefault(key, {})
        stamp = self.clock; self.clock += 1
        for k in sorted(frame, key=str):
            lvl = frame[k]
            if k in self.birth and self.birth[k] < stamp and (k in self.store or k in self.heap0):
                was = self.load(k)
                self.store_raw(k, self.havoc_like(was, self.keyname(k, fr), lvl == 2, self.ctype.get(k)))
            elif k[0] == "f" and self.oids.get(k[1]) and k[1] not in self.local_oids:
                was = self.load(k); self.store_raw(k, self.havoc_like(was, k[2], lvl == 2))
        # ghost index is never negative
        self.assume(invs())
        if atstart: self.assume(atstart(Ctx(self, fr.this, [fr.env[p.id] for p in fr.params], self.c0.oldstore, None, fr, entry, ghost.get(self) if ghost else None, seq)))
        mark = len(self.loops)
        self.loops.append(LoopInfo(stamp, frame, key))
        c = cond()
        if self.decide(c):
            try:
                try: body()
                except Cont: pass
            except Brk:
                del self.loops[mark:]
                return
            hints()
            inc()
            self.obligation(lab + ": preserved", invs(), "inv-pres")
            raise Cut()
        if z3.is_lt(c) or z3.is_not(c) and z3.is_le(c.children()[0]):    # x < y no longer holds and x <= y: say x == y
            x, y = c.children() if z3.is_lt(c) else reversed(c.children()[0].children())
            if z3.is_int(x) and self.entailed(x <= y): self.assume(x == y)
        if z3.is_ge(c) or z3.is_le(c):    # x >= y no longer holds and x >= y - 1: say x == y - 1
            x, y = c.children() if z3.is_ge(c) else reversed(c.children())
            if z3.is_int(x) and self.entailed(x >= y - 1): self.assume(x == simp(y - 1))
        if atend:    # facts proved here and used afterwards
            fs = atend(Ctx(self, fr.this, [fr.env[p.id] for p in fr.params], self.c0.oldstore, None, fr, entry, ghost.get(self) if ghost else None, seq))
            self.obligation(lab + ": at the end", fs, "step"); self.assume(fs)
        del self.loops[mark:]

    def store_raw(self, k, v):
        """write by havoc: visible to the enclosing loops' frames"""
        for L in self.loops:
            if self.birth[k] < L.stamp and k not in L.frame:
                L.frame[k] = 1 if not isinstance(v, Mat) else 2 if not (same(v.r, self.load(k).r) and same(v.c, self.load(k).c)) else 1
                raise Restart()
        self.store[k] = v

    def keyname(self, k, fr):
        if k[0] == "v": return fr.names.get(k[1]) or "v"
        if k[0] == "f": return k[2].strip("_")
        if k[0] == "g": return "idx"
        return "arg"

    def unroll(self, n, cond, body, inc, spec):
        for it in range(14):
            c = cond()
            cs = z3.simplify(c)
            if not (z3.is_true(cs) or z3.is_false(cs)):
                if self.entailed(cs): cs = BoolVal(True)
                elif self.entailed(Not(cs)): cs = BoolVal(False)
                else: raise Unsupported("loop without invariant in " + self.stack[-1].func.qual)
            if z3.is_false(cs): return
            try:
                try: body()
                except Cont: pass
            except Brk: return
            inc()
        raise Unsupported("loop without invariant in " + self.stack[-1].func.qual)

    def s_CXXTryStmt(self, n): raise Unsupported("try")

    # ------------------------------------------------------------ expressions
    def rv(self, n):
        v = self.ev(n)
        return v.get(self) if hasattr(v, "get") else v

    def argv(self, n):
        """argument: keep the location when there is one"""
        v = self.ev(n)
        return v if hasattr(v, "get") else Const(v)

    def ev(self, n):
        m = getattr(self, "e_" + n.k, None)
        if m is None: raise Unsupported("expression " + n.k)
        return m(n)

    def passk(self, n): return self.ev(n.kids[0])
    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_MaterializeTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = passk
    e_CXXConstCastExpr = passk

    def e_SourceLocExpr(self, n): return Opaque("loc")
    def e_PredefinedExpr(self, n): return Opaque("func")
    def e_StringLiteral(self, n): return Str(IntVal(strid(n.val)))
    def e_CharacterLiteral(self, n): return IntVal(n.val or 0)
    def e_IntegerLiteral(self, n): return IntVal(int(n.val))
    def e_CXXBoolLiteralExpr(self, n): return BoolVal(bool(n.val))
    def e_CXXNullPtrLiteralExpr(self, n): return NULL
    def e_GNUNullExpr(self, n): return NULL
    def e_FloatingLiteral(self, n):
        from decimal import Decimal
        f = Fraction(Decimal(repr(float(n.val))))
        return RealVal(str(f))
    def e_CXXThisExpr(self, n): return self.stack[-1].this
    def e_CXXDefaultArgExpr(self, n): return DEFAULT
    def e_CXXDefaultInitExpr(self, n): return self.ev(n.kids[0])
    def e_UnaryExprOrTypeTraitExpr(self, n): raise Unsupported("sizeof")
    def e_ImplicitValueInitExpr(self, n): return self.defaultval(tyclean(n.ty), "zero")
    def e_CXXScalarValueInitExpr(self, n): return R(0) if "double" in (n.ty or "") else IntVal(0)
    def e_InitListExpr(self, n):
        t = tyclean(n.ty)
        vs = [self.rv(k) for k in n.kids if k is not None]
        if t.startswith("std::initializer_list") or "[" in t: return Seq([("one", v) for v in vs])
        if t.startswith("std::pair"): return Struct(vs)
        if len(vs) == 1: return vs[0]
        raise Unsupported("initialiser list of " + t)
    def e_CXXStdInitializerListExpr(self, n): return self.ev(n.kids[0])

    def cast(self, v, frm, to, kind):
        to = tyclean(to)
        if kind == "IntegralCast":
            if isbool(v): return If(v, IntVal(1), IntVal(0))
            k = INT_T.get(to)
            if k in ("u", "v"):
                if INT_T.get(tyclean(frm)) in ("u",) and k == "u": return v
                if z3.is_int_value(v):
                    return v if v.as_long() >= 0 else IntVal(v.as_long() + (2 ** 64 if k == "u" else 2 ** 32))
                if self.entailed(v >= 0): return v
                return If(v >= 0, v, v + (W64 if k == "u" else W32))
            return v
        if kind == "IntegralToFloating":
            if isbool(v): return If(v, RealVal(1), RealVal(0))
            return R(v)
        if kind == "FloatingToIntegral":
            k = self.fresh("i", "trunc")
            self.assume(Implies(v >= 0, And(toreal(k) <= v, v < toreal(k) + 1)))
            self.assume(Implies(v < 0, And(toreal(k) >= v, v > toreal(k) - 1)))
            return k
        if kind == "IntegralToBoolean": return v != 0
        if kind == "FloatingToBoolean": return v != 0
        if kind == "PointerToBoolean": return Not(v.null) if isinstance(v, Ptr) else BoolVal(True)
        raise Unsupported("cast " + str(kind))

    def e_ImplicitCastExpr(self, n):
        k = n.cast
        if k == "LValueToRValue": return self.rv(n.kids[0])
        if k in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion", "UserDefinedConversion", "BaseToDerived", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "ArrayToPointerDecay", "BitCast"):
            return self.ev(n.kids[0])
        if k == "NullToPointer": return NULL
        if k == "ToVoid":
            self.ev(n.kids[0]); return None
        v = self.rv(n.kids[0])
        if k in ("FloatingCast",): return v
        return self.cast(v, n.kids[0].ty, n.ty, k)

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_ImplicitCastExpr

    def e_CXXDynamicCastExpr(self, n):
        v = self.rv(n.kids[0]); t = tyclean(n.ty).rstrip("*").strip(); t = self.canon(tyclean(t))
        if isinstance(v, BasisV):
            if t == "gsplines::basis::Basis0101": return Ptr(v, Not(IS0101(v.t)))
            if t == "gsplines::basis::Basis": return Ptr(v, BoolVal(False))
        if isinstance(v, Obj):
            if self.derives(v.cls, t): return Ptr(v, BoolVal(False))
            if v.cls == "gsplines::basis::Basis":
                self.fresh_n += 1
                f = z3.Bool("is!%s!%s" % (v.oid, t)); return Ptr(v, Not(f))
            if v.oid in self.local_oids or not self.derives(t, v.cls): return Ptr(v, BoolVal(True))
        raise Unsupported("dynamic cast to " + t)

    def e_DeclRefExpr(self, n):
        did, name, kind, ty = n.ref
        if kind in ("VarDecl", "ParmVarDecl", "BindingDecl"):
            for fr in (self.stack[-1],):
                if did in fr.env: return fr.env[did]
            if did in self.P.globals:
                q, node = self.P.globals[did]
                return self.globalvar(did, q, node)
            if name in ("cout", "cerr"): return Opaque("stream")
            if name == "ignore": return Sink()
            raise Unsupported("variable " + str(name))
        if kind == "EnumConstantDecl":
            if did in self.P.enums: return IntVal(self.P.enums[did][1])
            if name == "Success": return IntVal(0)
            raise Unsupported("enumerator " + str(name))
        if kind in ("FunctionDecl", "CXXMethodDecl"):
            return FPtr(self.P.byid.get(did), name)
        raise Unsupported("reference to %s %s" % (kind, name))

    def globalvar(self, did, q, node):
        key = ("G", q)
        ty = node.ty or ""
        if key not in self.store:
            init = [k for k in node.kids if k is not None and k.k != "FullComment"]
            if "const" in ty and init: v = self.rv(init[0])
            elif "const" in ty:
                alt = [g for g in self.P.globals.values() if g[0] == q and any(k is not None and k.k != "FullComment" for k in g[1].kids)]
                v = self.rv([k for k in alt[0][1].kids if k is not None and k.k != "FullComment"][0]) if alt else self.freshval(ty, q.split("::")[-1])
            else: v = self.freshval(ty, q.split("::")[-1])
            self.birth[key] = 0; self.store[key] = v
        return Cell(key)

    def e_MemberExpr(self, n):
        name = n.name
        kids = [k for k in n.kids if k is not None]
        if n.ref and n.ref[0] in self.P.globals and (not kids or self.fieldtype(self.objcls(kids[0]), name) is None):
            return self.globalvar(n.ref[0], *self.P.globals[n.ref[0]])
        if not kids: raise Unsupported("member " + str(name))
        b = self.ev(kids[0])
        if name in ("first", "second"):
            k = 0 if name == "first" else 1
            if hasattr(b, "get"):
                return Lens(b, lambda s: s.items[k], lambda s, v: Struct(s.items[:k] + [v] + s.items[k + 1:]))
            return b.items[k]
        o = b.get(self) if hasattr(b, "get") else b
        o = self.deref(o)
        if isinstance(o, (Obj, Fn, BasisV)): return self.fieldlv(o, name)
        raise Unsupported("member %s of %s" % (name, type(o).__name__))

    def objcls(self, n):
        return tyclean((n.ty or "").rstrip("*").strip()) if n is not None else ""

    def deref(self, o):
        if isinstance(o, Ptr):
            if o.target is None: raise Unsupported("null dereference")
            self.obligation("pointer is not null", Not(o.null), "safe")
            return o.target
        return o

    def e_UnaryOperator(self, n):
        op = n.op
        if op in ("++", "--"):
            lv = self.ev(n.kids[0]); v = lv.get(self)
            if isinstance(v, Iter): nv = Iter(v.seq, simp(v.idx + (1 if op == "++" else -1)), v.rev)
            else:
                nv = simp(v + 1) if op == "++" else self.sub(v, IntVal(1), n.ty)
            lv.set(self, nv)
            return v if n.x.get("isPostfix") else lv
        if op == "*":
            v = self.rv(n.kids[0])
            if isinstance(v, Ptr): return self.deref(v)
            return v
        if op == "&":
            v = self.ev(n.kids[0])
            o = v.get(self) if hasattr(v, "get") else v
            return o if isinstance(o, (Obj, Fn, BasisV)) else v
        v = self.rv(n.kids[0])
        if op == "-": return -v
        if op == "+": return v
        if op == "!":
            if isinstance(v, Ptr): return v.null
            if isint(v): return v == 0
            return Not(v)
        raise Unsupported("unary " + op)

    def sub(self, a, b, ty):
        k = INT_T.get(tyclean(ty))
        d = a - b
        if k in ("u", "v") and isint(d):
            ds = simp(d)
            if z3.is_int_value(ds): return ds if ds.as_long() >= 0 else IntVal(ds.as_long() + (2 ** 64 if k == "u" else 2 ** 32))
            if self.entailed(a >= b): return ds
            return If(a >= b, d, d + (W64 if k == "u" else W32))
        return d

    def arith(self, op, a, b, ty):
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque("arith")
        if op in ("==", "!="):
            r = self.eq(a, b)
            return r if op == "==" else Not(r)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if isbool(a): a = If(a, IntVal(1), IntVal(0))
            if isbool(b): b = If(b, IntVal(1), IntVal(0))
            if isreal(a) or isreal(b): a, b = R(a), R(b)
            if op == "+": return simp(a + b) if isint(a) else a + b
            if op == "-": return self.sub(a, b, ty)
            if op == "*": return a * b
            if op == "/":
                if isreal(a): return a / b
                self.obligation("divisor is not zero", b != 0, "safe")
                return self.intdiv(a, b)
            if op == "%":
                self.obligation("divisor is not zero", b != 0, "safe")
                return self.intmod(a, b)
            if op == "<": return a < b
            if op == "<=": return a <= b
            if op == ">": return a > b
            if op == ">=": return a >= b
        raise Unsupported("operator %s on %s, %s" % (op, type(a).__name__, type(b).__name__))

    def intdiv(self, a, b):
        if z3.is_int_value(b): return a / b
        q = self.fresh("i", "quot"); r = self.fresh("i", "rem")
        self.assume(Implies(And(a >= 0, b > 0), And(a == q * b + r, 0 <= r, r < b, q >= 0)))
        self.statics[("div", a.get_id(), b.get_id())] = (q, r, a, b)
        return q

    def intmod(self, a, b):
        if z3.is_int_value(b): return a % b
        k = ("div", a.get_id(), b.get_id())
        if k not in self.statics: self.intdiv(a, b)
        return self.statics[k][1]

    def eq(self, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.target is None: return b.null
                if b.target is None: return a.null
            else:
                p, o = (a, b) if isinstance(a, Ptr) else (b, a)
                if p.target is None: return BoolVal(False)
            raise Unsupported("pointer comparison")
        if isinstance(a, Obj) and isinstance(b, Obj): return BoolVal(a.oid == b.oid)
        if isinstance(a, Iter) and isinstance(b, Iter): return a.idx == b.idx
        if isinstance(a, Str) and isinstance(b, Str): return a.t == b.t
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if isbool(a) and isbool(b): return a == b
            if isreal(a) or isreal(b): return R(a) == R(b)
            return a == b
        if isinstance(a, (Obj, Fn)) or isinstance(b, (Obj, Fn)): return BoolVal(False)
        if isinstance(a, Opaque) or isinstance(b, Opaque): return self.fresh("b", "cmp")
        raise Unsupported("comparison of %s and %s" % (type(a).__name__, type(b).__name__))

    def e_BinaryOperator(self, n):
        op = n.op
        if op == "=":
            lv = self.ev(n.kids[0]); v = self.rv(n.kids[1])
            if tyclean(n.kids[0].ty) in ("double", "float") and isint(v): v = R(v)
            self.assign(lv, v)
            return lv
        if op in ("&&", "||"): return self.shortcircuit(op, n.kids[0], n.kids[1])
        if op == ",":
            self.ev(n.kids[0]); return self.ev(n.kids[1])
        a = self.rv(n.kids[0]); b = self.rv(n.kids[1])
        return self.arith(op, a, b, n.ty)

    def assign(self, lv, v):
        if isinstance(lv, Const) and isinstance(lv.v, Obj): raise Unsupported("assignment to an object")
        if not hasattr(lv, "set"): raise Unsupported("assignment to a temporary")
        lv.set(self, v)

    def shortcircuit(self, op, l, r):
        a = self.cond(l)
        s = z3.simplify(a)
        if z3.is_true(s): return BoolVal(True) if op == "||" else self.cond(r)
        if z3.is_false(s): return self.cond(r) if op == "||" else BoolVal(False)
        b = self.tried(a if op == "&&" else Not(a), lambda: self.cond(r))
        if b is not None: return And(a, b) if op == "&&" else Or(a, b)
        if self.decide(a): return BoolVal(True) if op == "||" else self.cond(r)
        return self.cond(r) if op == "||" else BoolVal(False)

    def tried(self, guard, fn):
        """evaluate without side effect under a guard; None when that is impossible"""
        snap = (dict(self.store), list(self.pc), self.fresh_n, self.ob_n, list(self.guards), dict(self.statics), set(self.dirty), dict(self.obs))
        self.pure += 1; self.guards = self.guards + [guard]
        try: r = fn()
        except (NeedFork, Thrown):
            self.store, self.pc, self.fresh_n, self.ob_n, _, self.statics, self.dirty, self.obs = snap
            r = None
        finally:
            self.pure -= 1; self.guards = snap[4]
        return r

    def e_ConditionalOperator(self, n):
        c = self.cond(n.kids[0]); s = z3.simplify(c)
        if z3.is_true(s): return self.ev(n.kids[1])
        if z3.is_false(s): return self.ev(n.kids[2])
        a = self.tried(c, lambda: self.ev(n.kids[1]))
        if a is not None and not (hasattr(a, "get") and not isinstance(a, Const)):
            b = self.tried(Not(c), lambda: self.ev(n.kids[2]))
            if b is not None:
                a1 = a.get(self) if hasattr(a, "get") else a; b1 = b.get(self) if hasattr(b, "get") else b
                if isinstance(a1, z3.ExprRef) and isinstance(b1, z3.ExprRef): return ite(c, a1, b1)
        if self.pure: raise NeedFork()
        if self.decide(c): return self.ev(n.kids[1])
        return self.ev(n.kids[2])

    def e_CompoundAssignOperator(self, n):
        lv = self.ev(n.kids[0]); a = lv.get(self); b = self.rv(n.kids[1])
        lv.set(self, self.arith(n.op[:-1], a, b, n.kids[0].ty))
        return lv

    def e_CXXThrowExpr(self, n):
        raise Thrown("throw")

    def e_LambdaExpr(self, n):
        fr = self.stack[-1]
        rec = n.kids[0]
        op = [k for k in rec.kids if k is not None and k.k == "CXXMethodDecl" and k.name == "operator()"][0]
        return Lam(op, fr.env, fr.this)

    def call_lambda(self, lam, args):
        import cppast
        f = cppast.Func("lambda", lam.fn, "", "lambda")
        return self.call_body(f, lam.this, [Const(a) if not hasattr(a, "get") else a for a in args], lam.fn, env0=lam.env)

    def e_CXXNewExpr(self, n):
        return self.ev([k for k in n.kids if k is not None][0])

    def e_CXXDeleteExpr(self, n):
        self.ev(n.kids[0]); return None

    def e_ArraySubscriptExpr(self, n): raise Unsupported("array subscript")

    # ------------------------------------------------------------ construction
    def e_CXXTemporaryObjectExpr(self, n): return self.e_CXXConstructExpr(n)

    def e_CXXConstructExpr(self, n):
        import eigen
        t = tyclean(n.ty)
        if t in self.P.classes:
            args = [self.argv(a) for a in n.kids if a is not None]
            if n.x.get("elidable") and len(args) == 1:
                v = args[0].get(self)
                if isinstance(v, Obj): return v
            if len(args) == 1 and len(n.kids) == 1 and n.kids[0].k == "MaterializeTemporaryExpr" and self.is_prvalue(n.kids[0]):
                v = args[0].get(self)
                if isinstance(v, Obj) and v.cls == t and v.oid in self.local_oids: return v
            if self.derives(t, "gsplines::basis::Basis") and self.lib.packs(t):
                r = self.lib.packbasis(self, t, args)
                if r is not None: return r
            o = self.newobj(t, t.split("::")[-1])
            self.call_ctor(o, t, n, args)
            return o
        return eigen.construct(self, n, t)

    def make_object(self, cls, args, argn, n):
        """make_unique<cls>(args)"""
        cand = []
        for f in self.P.funcs.values():
            if f.cls == cls and f.kind == "CXXConstructorDecl" and len(f.params) >= len(args):
                if all(self.defaulted(f, i) for i in range(len(args), len(f.params))): cand.append(f)
        if len(cand) > 1:
            import eigen
            mv = [eigen.has_move(a) for a in argn]
            def score(f): return sum(1 for p, m in zip(f.params, mv) if ("&&" in (p.ty or "")) == m and ("list" in (p.ty or "") or m)) - 10 * sum(1 for p, a in zip(f.params, args) if not self.fits(p.ty, a))
            cand.sort(key=score, reverse=True)
        if not cand: raise Unsupported("make of " + cls)
        f = cand[0]
        o = self.newobj(cls, cls.split("::")[-1])
        full = list(args) + [Const(DEFAULT) for _ in range(len(f.params) - len(args))]
        self.invoke(f, o, full, n)
        return o

    def defaulted(self, f, i):
        p = f.params[i]
        return any(c is not None and c.k != "FullComment" for c in p.kids) or (f.qual, i) in self.lib.defaults or "string" in (p.ty or "")

    def fits(self, ty, a):
        v = a.get(self) if hasattr(a, "get") else a
        t = tyclean(ty)
        if isinstance(v, Seq): return "list" in t or "vector" in t
        if isinstance(v, Mat): return "Eigen" in t
        if isinstance(v, Struct): return "pair" in t
        if isinstance(v, (Obj, Fn)): return "Function" in t or "GSpline" in t or t in self.P.classes
        return t in INT_T or t in ("double", "bool", "Type") or t.endswith("Type")

    def is_prvalue(self, n):
        k = n
        while k.k in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "ImplicitCastExpr"): k = k.kids[0]
        return k.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr")

    # ------------------------------------------------------------ calls
    def e_CXXMemberCallExpr(self, n):
        import eigen
        me = n.kids[0]
        while me.k in ("ParenExpr", "ImplicitCastExpr"): me = me.kids[0]
        if me.k != "MemberExpr": raise Unsupported("call of " + me.k)
        did = me.ref[0] if me.ref else None
        name = me.name
        okids = [k for k in me.kids if k is not None]
        objlv = self.ev(okids[0]) if okids else self.stack[-1].this
        if did in self.P.byid:
            m = self.P.byid[did]
            o = objlv.get(self) if hasattr(objlv, "get") else objlv
            o = self.deref(o)
            args = [self.argv(a) for a in n.kids[1:] if a is not None]
            return self.libcall(m, o, args, n)
        return eigen.method(self, name, objlv, n.kids[1:], n)

    def libcall(self, m, o, args, n):
        info = self.P.declinfo[m]
        f = self.P.funcs.get(m)
        r = self.lib.special(self, m, info, o, args, n)
        if r is not NotImplemented: return r
        # virtual dispatch on an object whose class is known exactly
        if info[3] and isinstance(o, Obj):
            g = self.resolve(o.cls, info[1], len(args), m)
            if g is not None: f = g
            con = self.lib.find(f, o) if f else None
            ab = self.lib.abstract(info[0], info[1], len(args)) if con is None else None
            if ab is not None and o.oid not in self.local_oids and not (f is not None and f.cls == o.cls):
                return self.abstract_call(ab, info, o, args, n)
            if con is None and o.oid not in self.local_oids and not (f is not None and f.cls == o.cls):
                raise Unsupported("virtual call of %s on an object of unknown class" % info[1])
        if info[3] and isinstance(o, (Fn, BasisV)):
            con = self.lib.abstract(info[0], info[1], len(args))
            if con is None: raise Unsupported("virtual %s::%s has no contract" % (info[0], info[1]))
            return self.abstract_call(con, info, o, args, n)
        if isinstance(o, (Fn, BasisV)) and not info[3]:
            con = self.lib.abstract(info[0], info[1], len(args))
            if con is not None: return self.abstract_call(con, info, o, args, n)
        if f is None:
            con = self.lib.abstract(info[0], info[1], len(args))
            if con is not None:
                return self.abstract_call(con, info, o, args, n)
            raise Unsupported("no body for %s::%s" % (info[0], info[1]))
        return self.invoke(f, o, args, n)

    def abstract_call(self, con, info, o, args, n):
        class FF: pass
        ff = FF(); ff.kind = "CXXMethodDecl"; ff.ty = info[2]; ff.qual = info[0] + "::" + info[1]; ff.params = []
        for i, a in enumerate(args):
            if isinstance(a, Const) and a.v is DEFAULT: args[i] = Const(self.lib.defaults[(ff.qual, i)](self))
        return self.by_contract(ff, con, o, args, n)

    def resolve(self, cls, name, nargs, m0):
        t0 = self.P.declinfo[m0][2]
        f0 = self.P.funcs.get(m0)
        qual = lambda t: (t.count("&&"), t.strip().endswith("const &"), t.strip().endswith("&&"), t.strip().endswith("const"))
        c = cls
        while c:
            cand = [f for f in self.P.funcs.values() if f.cls == c and f.name == name and len(f.params) == nargs]
            if f0 in cand: return f0
            if len(cand) > 1:
                best = [f for f in cand if qual(f.ty or "") == qual(t0 or "")]
                if len(best) == 1: return best[0]
            if cand: return cand[0]
            b = (self.P.classes.get(c) or {}).get("bases") or []
            c = tyclean(b[0]) if b else None
        return None

    def e_CXXOperatorCallExpr(self, n):
        import eigen
        cal = n.kids[0]
        while cal.k in ("ImplicitCastExpr", "ParenExpr"): cal = cal.kids[0]
        did, name = cal.ref[0], cal.ref[1]
        if did in self.P.byid:
            m = self.P.byid[did]
            args = [self.argv(a) for a in n.kids[1:] if a is not None]
            info = self.P.declinfo[m]
            if info[0] in self.P.classes:
                o = self.deref(args[0].get(self))
                return self.libcall(m, o, args[1:], n)
            return self.libcall(m, None, args, n)
        return eigen.operator(self, name, n)

    def e_CallExpr(self, n):
        import eigen
        cal = n.kids[0]
        while cal.k in ("ImplicitCastExpr", "ParenExpr"): cal = cal.kids[0]
        if cal.k == "DeclRefExpr" and cal.ref and cal.ref[2] in ("FunctionDecl", "CXXMethodDecl"):
            did, name = cal.ref[0], cal.ref[1]
            if did in self.P.byid:
                args = [self.argv(a) for a in n.kids[1:] if a is not None]
                return self.libcall(self.P.byid[did], None, args, n)
            return eigen.function(self, name, n.kids[1:], n, cal)
        v = self.rv(cal)
        if isinstance(v, FPtr) and v.mangled:
            args = [self.argv(a) for a in n.kids[1:] if a is not None]
            return self.libcall(v.mangled, None, args, n)
        if isinstance(v, Opaque) or v is None:
            r = self.lib.fnptr(self, cal, n)
            if r is not NotImplemented: return r
        raise Unsupported("call through " + cal.k)

    def call_fptr(self, v, args, n):
        """call through a stored function: every library function it may be, one path each"""
        if v.mangled: return self.libcall(v.mangled, None, args, n)
        for name in self.lib.reg.fptr_names:
            if self.decide(v.t == fid(name)):
                fs = [m for m, f in self.P.funcs.items() if f.name == name]
                if len(fs) != 1: raise Unsupported("function " + name)
                return self.libcall(fs[0], None, args, n)
        raise Unsupported("call through an unknown function pointer")

    def e_CXXNoexceptExpr(self, n): return BoolVal(True)


DEFAULT = object()
_strs = {"": 0}


def strid(s):
    s = s or ""
    if s.startswith('"') and s.endswith('"'): s = s[1:-1]
    if s not in _strs: _strs[s] = len(_strs)
    return _strs[s]


def targs(t):
    """template arguments of the outermost template in t"""
    i = t.index("<"); depth = 0; out = []; cur = ""
    for ch in t[i + 1:]:
        if ch == "<": depth += 1
        if ch == ">":
            if depth == 0: break
            depth -= 1
        if ch == "," and depth == 0: out.append(cur.strip()); cur = ""; continue
        cur += ch
    out.append(cur.strip())
    return out


def loops_in(n):
    out = []
    def w(k):
        if k is None: return
        if k.k in ("ForStmt", "WhileStmt", "CXXForRangeStmt", "DoStmt"): out.append(k)
        if k.k == "LambdaExpr": return
        for c in k.kids: w(c)
    w(n)
    return out
