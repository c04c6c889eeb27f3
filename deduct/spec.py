"""Contracts: registry, lookup and the semantics of abstract objects."""
import re, sys, os, glob, importlib.util
import z3
from z3 import And, Or, Not, Implies, If, IntVal, RealVal, BoolVal
from logic import All, Imp, R, I, Sum, Prod, Max
from values import *
import symex
from symex import tyclean, Const


class Contract:
    def __init__(self, qual, nargs=None, sig=None, props=(), requires=None, ensures=None, throws=None, may_throw=False, ensures_throw=None,
                 result=None, result_lv=None, modifies=(), loops=(), inline=False, static=False, this_abstract=None, cls=None, alias=None,
                 axioms=None, abstract=False, trusted=False, note="", variant="", tmo=None, const=None, strong=False, hints=None, assigns=None, noinv=False, half=None, footprint=None):
        self.qual, self.nargs, self.sig, self.props = qual, nargs, sig, list(props)
        self.requires, self.ensures, self.throws, self.may_throw, self.ensures_throw = requires, ensures, throws, may_throw, ensures_throw
        self.result, self.result_lv, self.modifies, self.loops, self.inline = result, result_lv, list(modifies), list(loops), inline
        self.static, self.this_abstract, self.cls, self.alias, self.axioms = static, this_abstract, cls, alias, axioms
        self.strong = strong; self.hints = hints; self.assigns = assigns; self.noinv = noinv; self.half = half or {}; self.footprint = footprint
        self.abstract, self.trusted, self.note, self.variant, self.tmo, self.const = abstract, trusted, note, variant, tmo, const
        self.short = qual.replace("gsplines::", "").replace("functions::", "").replace("basis::", "").replace("collocation::", "").replace("functional_analysis::", "")
        if "GSplineInheritanceHelper<" in self.short: self.short = re.sub(r"GSplineInheritanceHelper<(\w+), GSplineBase>", r"GSplineInheritanceHelper<\1>", self.short)
        self.id = self.short + ("" if nargs is None else "/%d" % nargs) + ("[%s]" % sig if sig else "") + ("{%s}" % variant if variant else "") + ("#const" if const else "")


class Registry:
    def __init__(self):
        self.cons = []; self.invs = {}; self.abs = {}; self.defaults = {}; self.opaques = []; self.fnptrs = []; self.specials = {}; self.packs_ = {}; self.lemmas = []; self.fptr_names = []

    def load(self):
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
        for f in sorted(glob.glob(os.path.join(d, "*.py")), key=lambda f: (not f.endswith("gspline.py"), f)):
            if "contracts_" + os.path.basename(f)[:-3] in sys.modules: continue
            sp = importlib.util.spec_from_file_location("contracts_" + os.path.basename(f)[:-3], f)
            m = importlib.util.module_from_spec(sp); m.REG = self
            sys.modules["contracts_" + os.path.basename(f)[:-3]] = m
            self.current = os.path.basename(f)
            sp.loader.exec_module(m)
        return self


REG = Registry()


def contract(qual, nargs=None, **kw):
    c = Contract(qual, nargs, **kw); c.file = REG.current
    if c.abstract: REG.abs[(qual, nargs)] = c
    REG.cons.append(c)
    return c


def invariant(cls):
    def d(fn): REG.invs[cls] = fn; return fn
    return d


# instances of the schemas proved in lemmas.py
def lemma_swap(n, m, f): return Sum(n, lambda i: Sum(m, lambda j: f(i, j))) == Sum(m, lambda j: Sum(n, lambda i: f(i, j)))
def lemma_scale(n, c, f): return [Sum(n, lambda i: c * f(i)) == c * Sum(n, f), Sum(n, lambda i: f(i) * c) == c * Sum(n, f)]
def lemma_add(n, f, g): return Sum(n, lambda i: f(i) + g(i)) == Sum(n, f) + Sum(n, g)
def lemma_delta(n, k, f): return Implies(And(0 <= k, k < n), Sum(n, lambda i: If(i == k, f(i), RealVal(0))) == f(k))
def lemma_powi(x): return [POWI(x, IntVal(0)) == 1, All(["I"], lambda n: Implies(n >= 1, POWI(x, n) == POWI(x, n - 1) * x))]


class Lib:
    def __init__(self, P, reg):
        self.P, self.reg = P, reg
        self.defaults = reg.defaults
        self.byqual = {}
        for c in reg.cons:
            if c.abstract or c.variant: continue
            self.byqual.setdefault(c.qual, []).append(c)
        self.cache = {}

    def matches(self, c, f):
        if f.qual.replace("[abi:cxx11]", "") != c.qual or f.body is None: return False
        if c.nargs is not None and len(f.params) != c.nargs: return False
        if c.sig and c.sig not in (f.ty or ""): return False
        if c.const is not None and f.const != c.const: return False
        return True

    def find(self, f, this):
        if f is None: return None
        k = f.mangled
        if k not in self.cache:
            self.cache[k] = next((c for c in self.byqual.get(f.qual.replace("[abi:cxx11]", ""), []) if self.matches(c, f)), None)
        return self.cache[k]

    def targets(self, c):
        return [f for f in self.P.funcs.values() if self.matches(c, f)]

    def abstract(self, cls, name, nargs):
        c = cls
        todo = [cls]
        while todo:
            c = todo.pop(0)
            r = self.reg.abs.get((c + "::" + name, nargs)) or self.reg.abs.get((c + "::" + name, None))
            if r: return r
            todo += [tyclean(b) for b in (self.P.classes.get(c) or {}).get("bases", [])]
        return None

    def packs(self, cls): return cls in self.reg.packs_

    def packbasis(self, X, cls, args): return self.reg.packs_[cls](X, args)

    def packfn(self, X, o):
        h = self.reg.specials.get("packfn")
        if h is None: raise Unsupported("object in a list of functions")
        return h(X, o)

    def special(self, X, m, info, o, args, n):
        h = self.reg.specials.get((info[0], info[1]))
        if h is None: h = self.reg.specials.get(info[1]) if isinstance(info[1], str) and info[1] != "packfn" else None
        if h is None: return NotImplemented
        return h(X, m, info, o, args, n)

    def fnptr(self, X, cal, n):
        for h in self.reg.fnptrs:
            r = h(X, cal, n)
            if r is not NotImplemented: return r
        return NotImplemented

    def opaque(self, X, o, name, lv, argn, n):
        for h in self.reg.opaques:
            r = h(X, o, name, lv, argn, n)
            if r is not NotImplemented: return r
        return NotImplemented
