"""Formulas and the obligation prover.

Terms are z3 terms.  Quantified hypotheses are All(...) objects whose body is a
Python closure, so that instances (and the Sum / Prod / Max terms inside them)
are always built from concrete index terms.  An obligation is decided by
 (1) skolemising the goal,
 (2) instantiating quantified hypotheses by matching against the ground terms,
 (3) adding instances of the schemas below for every Sum/Prod/Max term present,
 (4) linearising integer products (monomials become constants, with instances of
     the monotonicity schema),
 (5) z3 (then cvc5) on the resulting quantifier-free problem.
Schemas used (each one is proved by itself in lemmas.py, by induction on n):
  sum-base   n<=0 -> S_f(n)=0               sum-step  S_f(n+1)=S_f(n)+f(n), n>=0
  sum-ext    (forall 0<=k<n. f(k)=g(k)) -> S_f(n)=S_g(n)
  prod-*     the same for products
  max        f(k)<=M for 0<=k<n, and f(k*)=M for some k* in range when n>0
  mono       a>=0, x<y -> a*x+a<=a*y ;  a>=0, x<=y -> a*x<=a*y
"""
import itertools, subprocess, time, os, tempfile
from fractions import Fraction
import z3
from z3 import And, Or, Not, Implies, If, IntVal, RealVal, Int, Real, ToReal, BoolVal, is_app, is_true, is_false

STAT = {"z3_calls": 0, "z3_s": 0.0, "cvc5_calls": 0, "cvc5_s": 0.0, "alg": 0, "by": {}}
TRUE, FALSE = BoolVal(True), BoolVal(False)


class All:
    def __init__(self, sorts, fn, pats=None, gen=99):
        """pats: function of the variables giving the terms to match (default: every term of the body); gen: rounds of matching"""
        self.sorts, self.fn, self.pats, self.gen = sorts, fn, pats, gen
        self.memo = {}

    def at(self, *ts): return self.fn(*ts)


class Imp:
    def __init__(self, cond, f): self.cond, self.f = cond, f


def ALLI(fn, n=1): return All(["I"] * n, fn)


def flat(f):
    """hypothesis -> list of (guards tuple, leaf) with leaf z3 Bool or All"""
    if f is None: return []
    if isinstance(f, (list, tuple)):
        out = []
        for x in f: out += flat(x)
        return out
    if isinstance(f, dict): return flat(list(f.values()))
    if isinstance(f, Imp):
        return [((f.cond,) + g, l) for g, l in flat(f.f)]
    if isinstance(f, bool): return [((), BoolVal(f))]
    return [((), f)]


def I(x): return IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x


def R(x):
    if isinstance(x, (int, str)) and not isinstance(x, bool): return RealVal(x)
    if isinstance(x, float): return RealVal(repr(x))
    if z3.is_int(x): return toreal(x)
    return x


def toreal(x):
    if z3.is_int_value(x): return RealVal(x.as_long())
    return ToReal(x)


# ---------------------------------------------------------------- big operators
OWN = Int("$own")
GEN = [Int("$k%d" % i) for i in range(12)]
QV = [Int("$q%d" % i) for i in range(8)]
QR = [Real("$qr%d" % i) for i in range(8)]
_depth = [0]
BIG = {}       # z3 decl name -> (op, n, fn, famkey, params)
PBIG = {}      # the same with free generic variables (patterns only)
_fam = {}      # (op, canonical body id) -> index
_keep = []
_gennames = set(["$own"] + ["$k%d" % i for i in range(12)] + ["$q%d" % i for i in range(8)] + ["$qr%d" % i for i in range(8)])
_freecache = {}


def free_gen(t):
    """names of generic variables free in t"""
    i = t.get_id()
    r = _freecache.get(i)
    if r is not None: return r[0]
    if z3.is_const(t):
        n = t.decl().name()
        out = frozenset([n]) if n in _gennames else frozenset()
    else:
        out = frozenset()
        for c in t.children(): out |= free_gen(c)
    _freecache[i] = (out, t)
    return out


def big(op, n, fn):
    n = z3.simplify(I(n))
    if z3.is_int_value(n):
        k = n.as_long()
        if k <= 0 and op in ("sum", "prod"): return RealVal(0 if op == "sum" else 1)
        if k <= 8 and op in ("sum", "prod"):
            r = fn(IntVal(0))
            for j in range(1, k): r = (r + fn(IntVal(j))) if op == "sum" else (r * fn(IntVal(j)))
            return r
        if k == 1 and op == "max": return fn(IntVal(0))
    v = GEN[_depth[0]]
    _depth[0] += 1
    try: body = R(fn(v))
    finally: _depth[0] -= 1
    # constant zero sum / unit product
    sb = z3.simplify(body)
    if op == "sum" and z3.is_rational_value(sb) and sb.as_fraction() == 0: return RealVal(0)
    if op == "prod" and z3.is_rational_value(sb) and sb.as_fraction() == 1: return RealVal(1)
    canon = z3.substitute(sb, (v, OWN))
    key = (op, canon.get_id())
    if key not in _fam:
        _fam[key] = len(_fam); _keep.append(canon)
    fam = _fam[key]
    params = sorted((free_gen(canon) | free_gen(n)) - {"$own"})
    ns = z3.simplify(n)
    _keep.append(ns)
    name = "%s!%d!%d" % (op, fam, ns.get_id())
    if params:
        PBIG[name] = (canon, ns)
        f = z3.Function(name, *([z3.IntSort() if not p.startswith("$qr") else z3.RealSort() for p in params] + [z3.RealSort()]))
        return f(*[Int(p) if not p.startswith("$qr") else Real(p) for p in params])
    if name not in BIG:
        BIG[name] = (op, n, fn, fam, canon)
    return Real(name)


def Sum(n, fn): return big("sum", n, fn)
def Prod(n, fn): return big("prod", n, fn)
def Max(n, fn): return big("max", n, fn)


# ---------------------------------------------------------------- term utilities
def apps_of(ts, acc, seen):
    stack = list(ts)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(t): continue
        if is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                acc.setdefault(d.name() if d.arity() else "", []).append(t)
                if not d.arity() and d.name() in BIG:
                    b = BIG[d.name()]; stack.append(b[4]); stack.append(b[1])
                elif d.name() in PBIG: stack.extend(PBIG[d.name()])
            stack.extend(t.children())


_wit = {}


def has_wit(t):
    """does the term mention a witness constant of a schema instance"""
    i = t.get_id()
    r = _wit.get(i)
    if r is not None: return r[0]
    if z3.is_const(t): v = t.decl().name().startswith(("ex!", "mx!"))
    else: v = any(has_wit(c) for c in t.children())
    _wit[i] = (v, t)
    return v


def wits(t): return frozenset(n for n in _consts(t) if n.startswith(("ex!", "mx!")))


class Classes:
    """integer terms made equal by the top-level equations"""
    def __init__(self, G):
        self.p = {}; self.terms = {}; self.reps = None
        todo = list(G)
        while todo:
            f = todo.pop()
            if z3.is_and(f): todo += f.children()
            elif z3.is_not(f) and z3.is_not(f.children()[0]): todo += f.children()[0].children()
            elif z3.is_eq(f) and z3.is_int(f.children()[0]): self.union(*[z3.simplify(c) for c in f.children()])

    def find(self, t):
        i = t.get_id(); _keep.append(t); self.terms[i] = t
        while self.p.get(i, i) != i: i = self.p[i]
        return i

    def union(self, a, b):
        x, y = self.find(a), self.find(b)
        if x != y: self.p[x] = y

    def same(self, a, b):
        a, b = z3.simplify(a), z3.simplify(b)
        if self.find(a) == self.find(b): return True
        d = z3.simplify(a - b)
        if z3.is_int_value(d): return d.as_long() == 0
        # replace constants by the representative of their class
        if not self.p: return False
        if self.reps is None:
            self.reps = {}
            cl = {}
            for i, t in list(self.terms.items()): cl.setdefault(self.find(t), []).append(t)
            for ts in cl.values():
                ok = [t for t in ts if not z3.is_const(t) and not has_ite(t) and _size(t) < 20] or [t for t in ts if z3.is_const(t)]
                if not ok: continue
                r = min(ok, key=lambda t: (not z3.is_int_value(t), _size(t), str(t)))
                for t in ts:
                    if z3.is_const(t) and not z3.is_int_value(t) and not t.eq(r): self.reps[t.get_id()] = (t, r)
        if not self.reps: return False
        for _ in range(3):
            d2 = z3.simplify(z3.substitute(d, *self.reps.values()))
            if d2.eq(d): break
            d = d2
        return z3.is_int_value(d) and d.as_long() == 0


def lin_match(pat, var, term):
    """solve pat(var) == term for var when pat is var + c / var - c; None otherwise"""
    if pat.eq(var): return term
    if z3.is_add(pat) or z3.is_sub(pat):
        ch = pat.children()
        if z3.is_add(pat):
            hit = [c for c in ch if var.decl().name() in free_gen(c)]
            if len(hit) == 1 and hit[0].eq(var):
                rest = [c for c in ch if not c.eq(hit[0])]
                if all(not free_gen(c) for c in rest): return z3.simplify(term - z3.Sum(rest))
        else:
            if len(ch) == 2 and ch[0].eq(var) and not free_gen(ch[1]): return z3.simplify(term + ch[1])
            if len(ch) == 2 and ch[1].eq(var) and not free_gen(ch[0]): return z3.simplify(ch[0] - term)
    return None


def staged(pairs, vs, names):
    """patterns with the variables bound by simpler arguments replaced by what they match"""
    bound = {}
    for _ in range(2):
        for pa, ga in pairs:
            f = [n for n in names if n in free_gen(pa) and n not in bound]
            if len(f) != 1: continue
            p2 = z3.substitute(pa, *[(vs[names.index(n)], t) for n, t in bound.items()]) if bound else pa
            r = lin_match(p2, vs[names.index(f[0])], ga)
            if r is not None and not free_gen(r): bound[f[0]] = r
    out = []
    for pa, ga in pairs:
        f = [n for n in names if n in free_gen(pa)]
        if len(f) > 1: out += [(vs[names.index(n)], bound[n]) for n in f if n in bound]
        else: out.append((pa, ga))
    return out


class Prover:
    def __init__(self, tmo=8000, rounds=3, cap=400):
        self.tmo, self.rounds, self.cap = tmo, rounds, cap

    # -------- goals
    def skolem(self, goal, extra, ctr):
        out = []
        for g, leaf in flat(goal):
            if isinstance(leaf, All):
                vs = []
                for s in leaf.sorts:
                    ctr[0] += 1
                    vs.append(Int("sk!%d" % ctr[0]) if s == "I" else Real("skr!%d" % ctr[0]))
                out += self.skolem(leaf.at(*vs), extra + list(g), ctr)
            else:
                # split conjunctions
                if z3.is_and(leaf):
                    for c in leaf.children(): out.append((extra + list(g), c))
                else: out.append((extra + list(g), leaf))
        return out

    def prove(self, hyps, goal, quick=False):
        """-> ('proved'|'refuted'|'unknown', detail)"""
        ctr = [0]
        subs = self.skolem(goal, [], ctr)
        worst = ("proved", "")
        for extra, leaf in subs:
            if is_true(leaf): continue
            r = self.ground(list(hyps) + extra, leaf, ctr, quick)
            if r[0] == "refuted": return r
            if r[0] == "unknown": worst = r
        return worst

    def feasible(self, hyps, tmo=400):
        g = [l for gd, l in flat(hyps) if not isinstance(l, All) for l in [Implies(And(*gd), l) if gd else l]]
        s = z3.Solver(); s.set("timeout", tmo)
        lin = Lin()
        for f in g: s.add(lin.conv(f))
        for f in lin.lemmas(limit=60): s.add(f)
        t0 = time.time(); r = s.check()
        STAT["z3_calls"] += 1; STAT["z3_s"] += time.time() - t0
        return r != z3.unsat

    def ground(self, hyps, goal, ctr, quick=False):
        G = []; Q = []; t00 = time.time(); self.deadline = t00 + max(20.0, self.tmo / 1000.0 * 4)
        for gd, l in flat(hyps):
            if isinstance(l, All): Q.append((gd, l))
            else: G.append(Implies(And(*gd), l) if gd else l)
        ng = Not(goal)
        seenbig = {}; done = set(); pairs = set()
        allG = G + [ng]
        last = None
        inst = 0
        sks = {}; apps_of([ng] + G, sks, set())
        sks = sorted({t.decl().name(): t for t in sks.get("", []) if t.decl().name().startswith(("sk!", "skr!"))}.values(), key=lambda t: int(t.decl().name().split("!")[1]))
        for rnd in range(self.rounds + 1):
            # close big-operator lemmas
            for _ in range(3):
                new = self.bigs(allG, seenbig, pairs, ctr, Q)
                if not new: break
                allG += new
            last = self.check(allG, self.tmo if rnd == self.rounds else max(1500, self.tmo // 3))
            if last[0] == "unsat": return ("proved", "")
            if rnd == self.rounds or time.time() > self.deadline: break
            acc = {}; apps_of(allG, acc, set())
            new = []
            for qi, (gd, q) in enumerate(Q):
                if rnd >= q.gen: continue
                ms = self.matches(q, acc)
                if (len(q.sorts) > 1 or HALF) and not q.pats:
                    # the constants of the goal, in order: indices flattened into one defeat matching
                    ms = [list(cb) for cb in itertools.islice(itertools.combinations(sks, len(q.sorts)), 24) if all((z3.is_int(t)) == (st == "I") for t, st in zip(cb, q.sorts))] + ms
                    if HALF: ms = ms + self.partial(q, acc, sks)
                for sub in ms:
                    key = (id(q), tuple(t.get_id() for t in sub))
                    if key in done: continue
                    done.add(key); _keep.extend(sub)
                    inst += 1
                    if inst > self.cap: break
                    for g2, l2 in flat(q.at(*sub)):
                        gg = tuple(gd) + g2
                        if isinstance(l2, All): Q.append((gg, l2))
                        else: new.append(Implies(And(*gg), l2) if gg else l2)
            if not new: break
            allG += new
            if time.time() > self.deadline: break
            if not quick and len(allG) < 200 and Splitter(self, ctr, 5.0).run(allG, TRUE): return ("proved", "")
        if quick: return ("unknown", "")
        sp = Splitter(self, ctr)
        if sp.run(allG, TRUE): return ("proved", "")
        # without the abstraction of products
        r = self.cli("z3", allG)
        if r[0] == "unsat": return ("proved", "")
        if r[0] == "sat": return ("refuted", last[1])
        r = self.cli("cvc5", allG)
        if r[0] == "unsat": return ("proved", "")
        return ("unknown", "z3 and cvc5 give no answer within %d ms" % self.tmo)

    def partial(self, q, acc, sks):
        """instances whose last variable comes from matching and the others, in order, from the constants of the goal"""
        sk = [t for t in sks if z3.is_int(t)]
        if any(st != "I" for st in q.sorts) or "pat" not in q.memo: return []
        k = len(q.sorts); last = QV[k - 1]; out = {}
        for nm, t, fg in q.memo["pat"]:
            if last.decl().name() not in fg: continue
            for g in acc.get(nm, []):
                if free_gen(g): continue
                for pa, ga in zip(t.children(), g.children()):
                    if free_gen(pa) != {last.decl().name()}: continue
                    r = lin_match(pa, last, ga)
                    if r is not None and not free_gen(r): out[r.get_id()] = r
        vals = [r for r in out.values() if not any(r.eq(s) for s in sk)][:8]
        return [list(cb) + [v] for v in vals for cb in itertools.islice(itertools.combinations(sk, k - 1), 10)]

    def matches(self, q, acc):
        vs = []; ni = nr = 0
        for s in q.sorts:
            if s == "I": vs.append(QV[ni]); ni += 1
            else: vs.append(QR[nr]); nr += 1
        names = [v.decl().name() for v in vs]
        if "pat" not in q.memo:
            bodies = []
            def coll(f):
                for g, l in flat(f):
                    bodies.extend(g)
                    if isinstance(l, All):
                        # nested quantifier: use its instance at fresh generics (patterns only)
                        w = []; a, b = ni, nr
                        for s in l.sorts:
                            if s == "I": w.append(QV[a]); a += 1
                            else: w.append(QR[b]); b += 1
                        coll(l.at(*w))
                    else: bodies.append(l)
            if q.pats: bodies = list(q.pats(*vs))
            else: coll(q.at(*vs))
            pa = {}; apps_of(bodies, pa, set())
            pats = []
            for nm, ts in pa.items():
                if not nm or nm in BIG or nm.split("!")[0] in ("sum", "prod", "max"): continue
                for t in ts:
                    fg = free_gen(t) & set(names)
                    if fg: pats.append((nm, t, fg))
            q.memo["pat"] = pats
            q.memo["big"] = any(nm in PBIG for nm in pa)
        cands = {n: {} for n in names}
        full = {}
        for nm, t, fg in q.memo["pat"]:
            for g in acc.get(nm, []):
                if free_gen(g) or (q.memo["big"] and has_wit(g)): continue
                sub = {}; ok = True
                pairs_ = list(zip(t.children(), g.children()))
                if HALF: pairs_ = staged(pairs_, vs, names)
                for pa, ga in pairs_:
                    f = free_gen(pa) & set(names)
                    if not f: continue
                    if len(f) > 1: continue
                    v = vs[names.index(next(iter(f)))]
                    r = lin_match(pa, v, ga)
                    if r is None: continue
                    n = v.decl().name()
                    if n in sub and not sub[n].eq(r): ok = False; break
                    sub[n] = r
                if not ok: continue
                for n, r in sub.items(): cands[n][r.get_id()] = r
                if len(sub) == len(names):
                    key = tuple(sub[n].get_id() for n in names)
                    full[key] = [sub[n] for n in names]
        out = list(full.values())
        if len(names) > 1 or not out:
            total = 1
            for n in names: total *= max(0, len(cands[n]))
            if 0 < total <= 60:
                for combo in itertools.product(*[list(cands[n].values()) for n in names]):
                    key = tuple(t.get_id() for t in combo)
                    if key not in full: full[key] = combo; out.append(list(combo))
        return out

    # -------- schema instances
    def bigs(self, G, seen, pairs, ctr, Q):
        acc = {}; apps_of(G, acc, set())
        here = {t.decl().name() for t in acc.get("", []) if t.decl().name() in BIG}
        new = []
        for nm in sorted(here):
            if nm in seen: continue
            op, n, fn, fam, canon = BIG[nm]
            seen[nm] = 1
            s = Real(nm)
            if op in ("sum", "prod"):
                new.append(Implies(n <= 0, s == (0 if op == "sum" else 1)))
            else:
                ctr[0] += 1
                k = Int("mx!%d" % ctr[0])
                Q.append(((), All(["I"], lambda j, fn=fn, n=n, s=s: Implies(And(0 <= j, j < n), R(fn(j)) <= s))))
                new.append(Implies(n > 0, And(0 <= k, k < n, R(fn(k)) == s)))
                new.append(Implies(n > 0, R(fn(IntVal(0))) <= s))
        names = sorted(seen)
        cls = Classes(G)
        for a, b in itertools.combinations(names, 2):
            if (a, b) in pairs: continue
            if time.time() > self.deadline: break
            pairs.add((a, b))
            opa, na, fa, fama, ca = BIG[a]; opb, nb, fb, famb, cb = BIG[b]
            if opa != opb: continue
            if wits(ca) | wits(na) != wits(cb) | wits(nb): continue    # terms at different witnesses of extensionality say nothing about each other
            sa, sb = Real(a), Real(b)
            if opa in ("sum", "prod"):
                comb = (lambda x, y: x + y) if opa == "sum" else (lambda x, y: x * y)
                if fama == famb:
                    d = z3.simplify(na - nb)
                    if opa == "sum" and not (z3.is_int_value(d) and abs(d.as_long()) <= 1):
                        for lo, hi, slo, shi, f in ((nb, na, sb, sa, fa), (na, nb, sa, sb, fa)):
                            ctr[0] += 1
                            k1 = Int("ex!%d" % ctr[0]); ctr[0] += 1; k2 = Int("ex!%d" % ctr[0])
                            new.append(Implies(And(0 <= lo, lo < hi, Implies(And(lo <= k1, k1 < hi), R(f(k1)) > 0)), slo < shi))
                            new.append(Implies(And(0 <= lo, lo <= hi, Implies(And(lo <= k2, k2 < hi), R(f(k2)) >= 0)), slo <= shi))
                    new.append(Implies(na == nb, sa == sb))
                    if not z3.is_int_value(d) or abs(d.as_long()) == 1:
                        new.append(Implies(And(na == nb + 1, nb >= 0), sa == comb(sb, R(fa(nb)))))
                        new.append(Implies(And(nb == na + 1, na >= 0), sb == comb(sa, R(fb(na)))))
                    elif abs(d.as_long()) == 2:
                        lo, hi, slo, shi, f = (nb, na, sb, sa, fa) if d.as_long() > 0 else (na, nb, sa, sb, fa)
                        new.append(Implies(lo >= 0, shi == comb(comb(slo, R(f(lo))), R(f(lo + 1)))))
                else:
                    if not cls.same(na, nb): pairs.discard((a, b)); continue
                    ctr[0] += 1
                    k = Int("ex!%d" % ctr[0])
                    new.append(Implies(And(na == nb, Implies(And(0 <= k, k < na), R(fa(k)) == R(fb(k)))), sa == sb))
            else:
                if not cls.same(na, nb): pairs.discard((a, b)); continue
                ctr[0] += 1
                k = Int("ex!%d" % ctr[0])
                new.append(Implies(And(na == nb, Implies(And(0 <= k, k < na), R(fa(k)) == R(fb(k)))), sa == sb))
        return new

    # -------- back ends
    def check(self, G, tmo=None):
        lin = Lin()
        fs = [lin.conv(f) for f in G]
        fs += lin.lemmas()
        s = z3.Solver(); s.set("timeout", tmo or self.tmo)
        s.add(*fs)
        t0 = time.time(); r = s.check(); dt = time.time() - t0
        STAT["z3_calls"] += 1; STAT["z3_s"] += dt
        if r == z3.unsat: return ("unsat", "")
        if r == z3.sat:
            m = s.model()
            txt = "; ".join("%s=%s" % (d.name(), m[d]) for d in m.decls() if d.arity() == 0 and not d.name().startswith(("ex!", "mx!", "mono!")))[:1500]
            return ("sat", txt)
        return ("unknown", "z3: " + s.reason_unknown())

    def cli(self, which, G):
        """full nonlinear problem, in a process of its own"""
        lin = Lin(reals=False)
        fs = [lin.conv(f) for f in G]; fs += lin.lemmas()
        s = z3.Solver(); s.add(*fs)
        txt = s.to_smt2()
        if which == "cvc5":
            txt = "(set-logic ALL)\n" + txt
            cmd = ["cvc5", "--lang=smt2", "--tlimit=%d" % self.tmo, "--nl-ext-tplanes", "-"]
        else: cmd = ["z3", "-in", "-T:%d" % max(1, self.tmo // 1000)]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=self.tmo / 1000 + 3)
            out = r.stdout.decode().strip().splitlines()
        except Exception:
            out = []
        STAT[which + "_calls"] += 1; STAT[which + "_s"] += time.time() - t0
        return (out[0] if out and out[0] in ("sat", "unsat") else "unknown", "")


def _ites(t, acc, seen):
    stack = [t]
    while stack:
        x = stack.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE: acc.append(x.children()[0])
            stack.extend(x.children())


def has_ite(t):
    acc = []; _ites(t, acc, set())
    return bool(acc)


def _consts(t, c={}):
    i = t.get_id()
    if i in c: return c[i][0]
    r = frozenset()
    if is_app(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0: r = frozenset([t.decl().name()])
        for k in t.children(): r |= _consts(k)
    c[i] = (r, t)
    return r


def _occurs(a, t, c=None):
    if c is None: c = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in c: continue
        c.add(x.get_id())
        if x.eq(a): return True
        stack.extend(x.children())
    return False


def _size(t, lim=400):
    n = 0; stack = [t]
    while stack and n < lim: x = stack.pop(); n += 1; stack.extend(x.children())
    return n


class Splitter:
    """Case splits and rewriting with the equations that hold: congruence up to polynomial identity.
    Each step keeps the problem equivalent (or splits it in two), so 'unsat' everywhere proves the goal."""
    def __init__(self, pr, ctr, secs=None):
        self.pr, self.t0 = pr, time.time()
        self.secs = secs or max(6.0, pr.tmo / 1000.0 * 2)

    def late(self): return time.time() - self.t0 > self.secs

    def run(self, G, ng):
        lin = Lin(reals=False)
        fs = [lin.conv(f) for f in G + [ng]]
        fs += lin.lemmas()
        try: return self.go(fs, 7)
        except z3.Z3Exception: return False

    def solver(self, fs, tmo=1500):
        l = Lin(); gs = [l.conv(f) for f in fs]
        s = z3.Solver(); s.set("timeout", tmo); s.add(*gs); s.add(*l.lemmas(limit=600))
        return s, l

    def go(self, fs, depth):
        if self.late(): return False
        units = self.flatten(fs)
        if units is None: return True
        s, l = self.solver(units)
        t0 = time.time(); r = s.check(); STAT["z3_calls"] += 1; STAT["z3_s"] += time.time() - t0
        if r == z3.unsat: return True
        # guards that hold
        s.set("timeout", 250)
        def ent(c):
            if self.late(): return False
            s.push(); s.add(Not(l.conv(c))); q = s.check(); s.pop(); STAT["z3_calls"] += 1
            return q == z3.unsat
        out = []; chg = False
        for f in units:
            if is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES and ent(f.children()[0]):
                out.append(f.children()[1]); chg = True
            else: out.append(f)
        out = self.flatten(out)
        if out is None: return True
        acc = []; seen = set()
        for f in out: _ites(f, acc, seen)
        sub = []; open_ = []; done = set()
        for c in acc:
            if c.get_id() in done: continue
            done.add(c.get_id())
            if ent(c): sub.append((c, TRUE))
            elif ent(Not(c)): sub.append((c, FALSE))
            else: open_.append(c)
        if sub:
            out = [z3.simplify(z3.substitute(f, *sub)) if any(True for _ in [0]) else f for f in out] + [a if z3.is_true(b) else Not(a) for a, b in sub]
            out = self.flatten(out)
            if out is None: return True
        # rewriting
        for big_ in (False, True):
            nf = self.rewrite(out, big_)
            if nf is None: return True
            s2, _ = self.solver(nf, 3000)
            t0 = time.time(); r = s2.check(); STAT["z3_calls"] += 1; STAT["z3_s"] += time.time() - t0
            if r == z3.unsat: return True
            if self.late(): return False
            if not big_: small = nf
        if depth == 0: return False
        acc = []; seen = set()
        for f in reversed(small): _ites(f, acc, seen)
        conds = [c for c in acc if not (z3.is_true(c) or z3.is_false(c))]
        if not conds:
            conds = [f.children()[0] for f in small if is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES]
            if not conds:
                conds = [f.children()[0] for f in small if z3.is_or(f)]
        if not conds: return False
        conds.sort(key=lambda c: _size(c))
        c = conds[0]
        return self.go(small + [c], depth - 1) and self.go(small + [Not(c)], depth - 1)

    def flatten(self, fs):
        out = []; seen = set(); todo = list(reversed(fs))
        while todo:
            f = todo.pop()
            if is_true(f): continue
            if is_false(f): return None
            if z3.is_and(f): todo += reversed(f.children()); continue
            if z3.is_not(f):
                g = f.children()[0]
                if z3.is_or(g): todo += [Not(c) for c in reversed(g.children())]; continue
                if is_app(g) and g.decl().kind() == z3.Z3_OP_IMPLIES: todo += [Not(g.children()[1]), g.children()[0]]; continue
                if z3.is_not(g): todo.append(g.children()[0]); continue
                if z3.is_and(g) and g.num_args() == 1: todo.append(Not(g.children()[0])); continue
            if is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES:
                a, b = f.children()
                if is_true(a): todo.append(b); continue
                if is_false(a): continue
            i = f.get_id()
            if i in seen: continue
            seen.add(i); _keep.append(f); out.append(f)
        return out

    def rewrite(self, fs, big_):
        """eliminate with the unit equations"""
        fs = list(fs); used = set()
        for _ in range(40):
            pick = None
            for k, f in enumerate(fs):
                if not z3.is_eq(f) or f.get_id() in used: continue
                a, b = f.children()
                if z3.is_bool(a): continue
                if z3.is_real(a) and not big_ and (_size(a, 12) > 9 or _size(b, 12) > 9): continue
                for x, y in self.orient(a, b):
                    if is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.decl().name() in BIG and not x.decl().name().startswith("mono!") and not _occurs(x, y) and _size(y) < 250:
                        pick = (k, x, y); break
                if pick: break
            if pick is None: break
            k, x, y = pick
            eqf = fs[k]; used.add(eqf.get_id())
            nf = []
            for j, f in enumerate(fs):
                if j == k: nf.append(f); continue
                g = z3.substitute(f, (x, y))
                nf.append(g if g.eq(f) else g)
            lin = Lin(reals=False)
            nf = [f if j == k else lin.conv(f) for j, f in enumerate(nf)]
            used.add(nf[k].get_id()); _keep.extend(nf)
            # the equation itself stays, unused for rewriting
            rest = self.flatten([z3.simplify(f) if j != k and z3.is_eq(f) and z3.is_int(f.children()[0]) else f for j, f in enumerate(nf)])
            if rest is None: return None
            fs = rest
            if self.late(): break
        return fs

    def orient(self, a, b):
        # program symbols (with a number in the name) before symbols of the specification
        pa = is_app(a) and "!" in a.decl().name(); pb = is_app(b) and "!" in b.decl().name()
        if pb and not pa: return [(b, a), (a, b)]
        if _size(b, 50) < _size(a, 50) and not pa: return [(a, b), (b, a)]
        return [(a, b), (b, a)]


# ---------------------------------------------------------------- linearisation
RMUL = z3.Function("RMUL", z3.RealSort(), z3.RealSort(), z3.RealSort())
RINV = z3.Function("RINV", z3.RealSort(), z3.RealSort())
_ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS)


HALF = {}   # function name -> function giving half of it, while a contract that requires the value to be even is being verified


class Lin:
    """Normalises arithmetic to polynomials over atoms; every product of atoms becomes
    a constant (integers) or an uninterpreted product (reals).  What is unsatisfiable
    after that is unsatisfiable before; `reals=False` keeps real products as they are."""
    def __init__(self, reals=True):
        self.reals = reals
        self.shifts = {} # atom id -> constants c with a factor (atom - c)
        self.mono = {}   # tuple of atom ids -> const (integers)
        self.atoms = {}
        self.cache = {}
        self.pcache = {}
        self.rmono = {}  # tuple of atom ids -> term (reals)
        self.invs = {}   # atom id of RINV(b) -> (poly of b)
        self.extra = []

    # ---- integers
    def poly(self, t):
        """int term -> dict monomial(tuple of atom ids sorted) -> coeff"""
        i = t.get_id()
        if i in self.pcache: return self.pcache[i][0]
        if z3.is_int_value(t): r = {(): t.as_long()} if t.as_long() else {}
        elif z3.is_add(t):
            r = {}
            for c in t.children():
                for m, k in self.poly(c).items():
                    r[m] = r.get(m, 0) + k
        elif z3.is_sub(t):
            ch = t.children(); r = dict(self.poly(ch[0]))
            for c in ch[1:]:
                for m, k in self.poly(c).items(): r[m] = r.get(m, 0) - k
        elif is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
            r = {m: -k for m, k in self.poly(t.children()[0]).items()}
        elif z3.is_mul(t):
            r = {(): 1}
            for c in t.children():
                q = self.poly(c)
                if len(q) == 2 and q.get((), 0) < 0:
                    (m, k), = [(m, k) for m, k in q.items() if m]
                    if len(m) == 1 and k >= 1 and -q[()] % k == 0: self.shifts.setdefault(m[0], set()).add(-q[()] // k)
                r = pmul(r, q)
        elif HALF and is_app(t) and t.decl().name() in HALF:
            h = HALF[t.decl().name()](*t.children())
            r = {m: 2 * k for m, k in self.poly(h).items()}
        elif is_app(t) and t.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(t.children()[1]) and t.children()[1].as_long() > 0 and \
                self.poly(t.children()[0]) and all(k % t.children()[1].as_long() == 0 for k in self.poly(t.children()[0]).values()):
            r = {m: k // t.children()[1].as_long() for m, k in self.poly(t.children()[0]).items()}
        else:
            k = t.decl().kind() if is_app(t) else None
            a = self.conv_app(t) if k == z3.Z3_OP_IDIV else self.conv(t)
            if z3.is_int_value(a): r = {(): a.as_long()} if a.as_long() else {}
            else:
                self.atoms[a.get_id()] = a; _keep.append(a)
                r = {(a.get_id(),): 1}
        r = {m: k for m, k in r.items() if k}
        self.pcache[i] = (r, t)
        return r

    def build(self, p):
        ts = []
        for m in sorted(p, key=lambda m: (len(m), m)):
            k = p[m]
            if not m: ts.append(IntVal(k)); continue
            c = self.monoconst(m)
            ts.append(c if k == 1 else k * c)
        if not ts: return IntVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def monoconst(self, m):
        if len(m) == 1: return self.atoms[m[0]]
        if m not in self.mono:
            nm = "mono!" + "*".join(str(a) for a in m)
            self.mono[m] = Int(nm)
        return self.mono[m]

    # ---- reals
    def rpoly(self, t):
        i = t.get_id()
        if i in self.pcache: return self.pcache[i][0]
        k0 = t.decl().kind() if is_app(t) else None
        if z3.is_rational_value(t):
            f = t.as_fraction(); r = {(): f} if f else {}
        elif k0 == z3.Z3_OP_ADD:
            r = {}
            for c in t.children():
                for m, k in self.rpoly(c).items(): r[m] = r.get(m, 0) + k
        elif k0 == z3.Z3_OP_SUB:
            ch = t.children(); r = dict(self.rpoly(ch[0]))
            for c in ch[1:]:
                for m, k in self.rpoly(c).items(): r[m] = r.get(m, 0) - k
        elif k0 == z3.Z3_OP_UMINUS: r = {m: -k for m, k in self.rpoly(t.children()[0]).items()}
        elif k0 == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in t.children():
                r = pmul(r, self.rpoly(c))
                if len(r) > 400: return self.ratom(t, i)
            r = self.cancel(r)
        elif k0 == z3.Z3_OP_DIV:
            a, b = t.children()
            r = self.cancel(pmul(self.rpoly(a), self.rinv(b)))
        elif k0 == z3.Z3_OP_POWER and z3.is_rational_value(t.children()[1]) and t.children()[1].as_fraction().denominator == 1 and 0 <= t.children()[1].as_fraction() <= 8:
            r = {(): Fraction(1)}; b = self.rpoly(t.children()[0])
            for _ in range(int(t.children()[1].as_fraction())): r = pmul(r, b)
        elif k0 == z3.Z3_OP_TO_REAL:
            r = {}
            for m, k in self.poly(t.children()[0]).items():
                mm = []
                for a in m:
                    ra = ToReal(self.atoms[a]); self.atoms[ra.get_id()] = ra; _keep.append(ra); mm.append(ra.get_id())
                mm = tuple(sorted(mm)); r[mm] = r.get(mm, 0) + Fraction(k)
        else: return self.ratom(t, i)
        r = {m: k for m, k in r.items() if k}
        self.pcache[i] = (r, t)
        return r

    def ratom(self, t, i):
        a = self.conv_app(t)
        if z3.is_rational_value(a): r = {(): a.as_fraction()} if a.as_fraction() else {}
        else:
            self.atoms[a.get_id()] = a; _keep.append(a)
            r = {(a.get_id(),): Fraction(1)}
        self.pcache[i] = (r, t)
        return r

    def rinv(self, b):
        p = self.rpoly(b)
        if not p: p0 = RealVal(0)
        if len(p) == 1:
            (m, k), = p.items()
            r = {(): 1 / k}
            for a in m: r = pmul(r, {(self.invatom({(a,): Fraction(1)}),): Fraction(1)})
            return r
        if not p: return {(self.invatom({}),): Fraction(1)}
        lead = p[min(p, key=lambda m: (len(m), m))]
        q = {m: k / lead for m, k in p.items()}
        return {(self.invatom(q),): 1 / lead}

    def invatom(self, q):
        t = RINV(self.rbuild(q)); self.atoms[t.get_id()] = t; _keep.append(t)
        if t.get_id() not in self.invs: self.invs[t.get_id()] = q
        return t.get_id()

    def cancel(self, r):
        """x * inv(x) stays: x may be zero; nothing to do here"""
        return r

    def rbuild(self, p):
        ts = []
        for m in sorted(p, key=lambda m: (len(m), m)):
            k = p[m]
            if not m: ts.append(RealVal(str(k))); continue
            c = self.rmonoterm(m)
            ts.append(c if k == 1 else RealVal(str(k)) * c)
        if not ts: return RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def rmonoterm(self, m):
        if len(m) == 1: return self.atoms[m[0]]
        if m in self.rmono: return self.rmono[m]
        names = sorted(m)
        if self.reals:
            t = self.atoms[names[-1]]
            for a in reversed(names[:-1]): t = RMUL(self.atoms[a], t)
            if len(m) == 2: self.extra.append(t == RMUL(self.atoms[names[1]], self.atoms[names[0]]))
        else: t = z3.Product([self.atoms[a] for a in names])
        _keep.append(t)
        self.rmono[m] = t
        return t

    def conv(self, t):
        i = t.get_id()
        if i in self.cache: return self.cache[i][0]
        if is_app(t) and t.num_args():
            k = t.decl().kind()
            if z3.is_int(t) and (k in _ARITH or k == z3.Z3_OP_IDIV or t.decl().name() in HALF): r = self.build(self.poly(t))
            elif z3.is_real(t) and (k in _ARITH or k in (z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL, z3.Z3_OP_POWER)):
                if self.reals or k == z3.Z3_OP_TO_REAL: r = self.rbuild(self.rpoly(t))
                else: r = self.conv_app(t)
            elif k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_real(t.children()[0]) and self.reals:
                a, b = t.children()
                d = dict(self.rpoly(a))
                for m, c in self.rpoly(b).items(): d[m] = d.get(m, 0) - c
                d = {m: c for m, c in d.items() if c}
                l = self.rbuild(d); z = RealVal(0)
                r = {z3.Z3_OP_LE: l <= z, z3.Z3_OP_LT: l < z, z3.Z3_OP_GE: l >= z, z3.Z3_OP_GT: l > z, z3.Z3_OP_EQ: l == z}[k]
            else: r = self.conv_app(t)
        else: r = t
        self.cache[i] = (r, t)
        return r

    def conv_app(self, t):
        if not is_app(t) or not t.num_args(): return t
        ch = t.children(); nch = [self.conv(c) for c in ch]
        k = t.decl().kind()
        if all(a.eq(b) for a, b in zip(ch, nch)): return t
        if k == z3.Z3_OP_EQ: return nch[0] == nch[1]
        if k == z3.Z3_OP_AND: return And(*nch)
        if k == z3.Z3_OP_OR: return Or(*nch)
        if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*nch)
        if k == z3.Z3_OP_ADD: return z3.Sum(*nch)
        if k == z3.Z3_OP_MUL: return z3.Product(*nch)
        return t.decl()(*nch)

    def lemmas(self, limit=4000):
        out = []
        if self.reals:
            # b != 0 -> b * inv(b) = 1, also multiplied by what inv(b) already stands with
            for aid, q in list(self.invs.items()):
                ok = {(aid,): Fraction(1)}
                bz = self.rbuild(q)
                one = pmul(q, ok)
                out.append(Implies(bz != 0, self.rbuild(one) == 1))
                ms = [m for m in list(self.rmono) if aid in m]
                for m in ms[:40]:
                    rest = list(m); rest.remove(aid); rest = {tuple(rest): Fraction(1)}
                    # q * inv * rest == rest  when b != 0
                    big_ = pmul(pmul(q, rest), ok)
                    if len(big_) <= 6: out.append(Implies(bz != 0, self.rbuild(big_) == self.rbuild(rest)))
                out.append(Implies(bz > 0, self.atoms[aid] > 0)); out.append(Implies(bz < 0, self.atoms[aid] < 0))
            # signs of products of two
            for m, t in list(self.rmono.items()):
                if len(m) == 2:
                    x, y = self.atoms[m[0]], self.atoms[m[1]]
                    if m[0] == m[1]: out.append(t >= 0)
                    out.append(Implies(And(x > 0, y > 0), t > 0)); out.append(Implies(And(x >= 0, y >= 0), t >= 0))
                    out.append(Implies(Or(x == 0, y == 0), t == 0))
                    out.append(Implies(x == 1, t == y)); out.append(Implies(y == 1, t == x))
                    out.append(Implies(And(x < 0, y > 0), t < 0)); out.append(Implies(And(x > 0, y < 0), t < 0)); out.append(Implies(And(x < 0, y < 0), t > 0))
                else:
                    # zero / one factors
                    for a in set(m):
                        rest = list(m); rest.remove(a)
                        out.append(Implies(self.atoms[a] == 0, t == 0))
                        if tuple(rest) in self.rmono: out.append(Implies(self.atoms[a] == 1, t == self.rmono[tuple(rest)]))
        ms = list(self.mono)
        for m in ms:   # sign
            c = self.mono[m]
            at = [self.atoms[a] for a in m]
            out.append(Implies(And(*[a >= 0 for a in at]), c >= 0))
            for a in set(m):
                rest = list(m); rest.remove(a)
                out.append(Implies(self.atoms[a] == 0, c == 0))
                rc = self.monoconst(tuple(rest)) if len(rest) > 1 else self.atoms[rest[0]]
                out.append(Implies(self.atoms[a] == 1, c == rc))
        # congruence of products
        two = [m for m in ms if len(m) == 2]; three = [m for m in ms if len(m) == 3]
        for grp, lim in ((two, 14), (three, 8)):
            if len(grp) > lim: continue
            for m1, m2 in itertools.combinations(grp, 2):
                if len(m1) == 2 and multiset_common(m1, m2): continue
                out.append(Implies(Or(*[And(*[self.atoms[p] == self.atoms[q] for p, q in zip(m1, pm)]) for pm in set(itertools.permutations(m2))]), self.mono[m1] == self.mono[m2]))
        if len(two) <= 14:
            for m in two: out.append(Implies(And(self.atoms[m[0]] != 0, self.atoms[m[1]] != 0), self.mono[m] != 0))
        # monotonicity between monomials with a common factor
        ms = list(self.mono)
        allm = ms + [(a,) for a in set(x for m in ms for x in m)]
        n = 0
        for m1, m2 in itertools.combinations(allm, 2):
            common = multiset_common(m1, m2)
            if not common: continue
            r1 = multiset_minus(m1, common); r2 = multiset_minus(m2, common)
            if len(r1) > 2 or len(r2) > 2: continue
            a = self.prodterm(common); x = self.prodterm(r1); y = self.prodterm(r2)
            if a is None or x is None or y is None: continue
            p1, p2 = self.monoconst(m1) , self.monoconst(m2)
            out.append(Implies(And(a >= 0, x < y), p1 + a <= p2))
            out.append(Implies(And(a >= 0, y < x), p2 + a <= p1))
            out.append(Implies(x == y, p1 == p2))
            if HALF:
                out.append(Implies(x + 1 == y, p1 + a == p2)); out.append(Implies(y + 1 == x, p2 + a == p1))
            if HALF and len(common) == 2:
                out.append(Implies(And(a >= 0, x + 2 <= y), p1 + 2 * a <= p2))
                out.append(Implies(And(a >= 0, y + 2 <= x), p2 + 2 * a <= p1))
            if len(common) == 1:
                for k in self.shifts.get(common[0], ()):
                    out.append(Implies(And(a >= k, x < y), p1 - k * x + a - k <= p2 - k * y))
                    out.append(Implies(And(a >= k, y < x), p2 - k * y + a - k <= p1 - k * x))
            n += 1
            if n * 3 > limit: break
        return out + self.extra

    def prodterm(self, m):
        if not m: return IntVal(1)
        if len(m) == 1: return self.atoms[m[0]]
        return self.mono.get(m)


def pmul(p, q):
    r = {}
    for m1, k1 in p.items():
        for m2, k2 in q.items():
            m = tuple(sorted(m1 + m2)); r[m] = r.get(m, 0) + k1 * k2
    return {m: k for m, k in r.items() if k}


def multiset_common(a, b):
    b = list(b); out = []
    for x in a:
        if x in b: b.remove(x); out.append(x)
    return tuple(sorted(out))


def multiset_minus(a, c):
    a = list(a)
    for x in c: a.remove(x)
    return tuple(sorted(a))
