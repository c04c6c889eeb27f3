"""Extraction of the real functions: clang's own AST of /repo's current sources.

One translation unit that #includes every library source (plus explicit
instantiations of the class templates) is parsed by clang++ on every run; the
functions handed to the verifier are clang's resolved trees of the code that is
compiled.  Dropped by the extraction: source locations, comments, attributes,
implicit destructor calls, and (unused) template patterns."""
import glob, hashlib, json, os, pickle, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VERSION = "7"
INST = ["template class gsplines::GSplineInheritanceHelper<gsplines::GSpline>;",
        "template class gsplines::GSplineInheritanceHelper<gsplines::collocation::GaussLobattoLagrangeSpline>;"]
FUNCS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")


class N:
    __slots__ = ("k", "kids", "name", "ty", "op", "val", "cast", "ref", "line", "id", "x")

    def __repr__(self):
        return "<%s %s>" % (self.k, self.name or self.op or "")

    def show(self, ind=0, out=None):
        top = out is None
        out = [] if top else out
        a = [x for x in (self.name, self.op, self.val, self.cast, self.ty, self.ref and ("->" + str(self.ref[1]) + ":" + str(self.ref[2]))) if x]
        out.append("  " * ind + self.k + " " + " | ".join(map(str, a)))
        for c in self.kids:
            if c is not None: c.show(ind + 1, out)
        if top: return "\n".join(out)


def conv(d):
    if not d: return None
    n = N()
    n.k = d.get("kind"); n.name = d.get("name"); n.op = d.get("opcode"); n.val = d.get("value")
    t = d.get("type"); n.ty = None
    if t: n.ty = t.get("desugaredQualType") or t.get("qualType")
    n.cast = d.get("castKind"); n.id = d.get("id")
    n.ref = None
    r = d.get("referencedDecl") or d.get("foundReferencedDecl")
    if r: n.ref = (r.get("id"), r.get("name"), r.get("kind"), (r.get("type") or {}).get("qualType"))
    if d.get("referencedMemberDecl"): n.ref = (d["referencedMemberDecl"], n.name, "member", None)
    lo = d.get("loc") or {}
    n.line = lo.get("line") or (d.get("range", {}).get("begin") or {}).get("line")
    x = {}
    for key in ("isPostfix", "isArrow", "hasElse", "hasInit", "hasVar", "constructionKind", "init", "isReferenced", "isUsed", "pureVirtual", "virtual", "storageClass", "explicitlyDefaulted", "explicitlyDeleted", "elidable", "list", "canOverflow", "isGlobal", "isArray"):
        if key in d: x[key] = d[key]
    if "ctorType" in d: x["ctorType"] = d["ctorType"].get("qualType")
    if "typeAsWritten" in d: x["written"] = d["typeAsWritten"].get("qualType")
    if "argType" in d: x["argType"] = d["argType"].get("qualType")
    if "anyInit" in d: x["anyInit"] = d["anyInit"].get("name"); x["anyInitId"] = d["anyInit"].get("id")
    if "baseInit" in d: x["baseInit"] = d["baseInit"].get("qualType")
    if "delegatingInit" in d: x["delegatingInit"] = d["delegatingInit"].get("qualType")
    if "nominatedNamespace" in d: x["ns"] = 1
    n.x = x
    n.kids = [conv(c) for c in d.get("inner", [])]
    return n


class Func:
    """a function of the library with its body"""
    def __init__(self, mangled, node, cls, qual):
        self.mangled, self.node, self.cls, self.qual = mangled, node, cls, qual
        self.name = node.name
        self.kind = node.k
        self.params = [c for c in node.kids if c is not None and c.k == "ParmVarDecl"]
        self.body = None; self.inits = []
        for c in node.kids:
            if c is None: continue
            if c.k in ("CompoundStmt", "CXXTryStmt"): self.body = c
            if c.k == "CXXCtorInitializer": self.inits.append(c)
        self.ty = node.ty
        self.const = bool(node.ty and (") const" in node.ty))


class Program:
    def __init__(self):
        self.funcs = {}      # mangled -> Func (with body)
        self.byid = {}       # decl id -> mangled
        self.classes = {}    # qualified name -> {"bases": [...], "fields": [(name, type)]}
        self.enums = {}      # enumerator decl id -> (name, value)
        self.globals = {}    # decl id -> (qualified name, N)
        self.declinfo = {}   # mangled -> (cls, name, type)

    def named(self, qual):
        return [f for f in self.funcs.values() if f.qual == qual]


def sources():
    out = []
    for p in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
        if "/Optimization/" in p or p.endswith("GaussLobattoLagrangeFunctionals.cpp"): continue
        out.append(p)
    return out


def tree_hash():
    h = hashlib.sha256(VERSION.encode())
    for p in sorted(glob.glob(REPO + "/include/**/*", recursive=True)) + sorted(glob.glob(REPO + "/src/**/*", recursive=True)):
        if os.path.isfile(p):
            h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return r.stdout.decode().splitlines()


def strip_sig(d):
    """'A::B<x>::f(int) const' -> 'A::B<x>::f'"""
    # drop the parameter list: last top-level parenthesis group
    depth = 0
    if "operator()" in d:
        i = d.index("operator()") + len("operator()")
        return d[:i]
    for i, c in enumerate(d):
        if c == "<": depth += 1
        elif c == ">" and not d[:i].endswith("operator"): depth -= 1
        elif c == "(" and depth == 0: return d[:i]
    return d


def load(quiet=True):
    key = tree_hash()
    cache = os.path.join(VERIF, "build", "ast")
    os.makedirs(cache, exist_ok=True)
    cp = os.path.join(cache, key + ".pkl")
    if os.path.exists(cp):
        try: return pickle.load(open(cp, "rb"))
        except Exception: pass
    unity = os.path.join(cache, key + "_%d.cpp" % os.getpid())
    with open(unity, "w") as f:
        for s in sources(): f.write('#include "%s"\n' % s)
        f.write("\n".join(INST) + "\n")
    cmd = ["clang++", "-std=c++17", "-fsyntax-only", "-w", "-I" + REPO + "/include", "-I/usr/include/eigen3",
           "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=gsplines", unity]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    os.remove(unity)
    if r.returncode != 0:
        raise RuntimeError("extraction failed: " + r.stderr.decode("utf8", "replace")[-600:])
    s = r.stdout.decode("utf8", "replace")
    dec = json.JSONDecoder(); i = 0; docs = []
    while True:
        i = s.find("{", i)
        if i < 0: break
        d, i = dec.raw_decode(s, i); docs.append(d)
    del s
    P = Program()
    todo = []

    def walk(n, q, intemplate):
        k = n.get("kind")
        if k in ("NamespaceDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            q2 = q + [n.get("name", "")]
            if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") and n.get("completeDefinition") and not (intemplate and k == "CXXRecordDecl"):
                name = "::".join(x for x in q2 if x)
                if k == "ClassTemplateSpecializationDecl":
                    args = [ (c.get("type") or {}).get("qualType", "?") for c in n.get("inner", []) if c.get("kind") == "TemplateArgument"]
                    name += "<" + ", ".join(args) + ">"
                fields = [(c.get("name"), (c.get("type") or {}).get("desugaredQualType") or (c.get("type") or {}).get("qualType")) for c in n.get("inner", []) if c.get("kind") == "FieldDecl"]
                P.classes[name] = {"bases": [b["type"].get("desugaredQualType") or b["type"].get("qualType") for b in n.get("bases", [])], "fields": fields, "id": n.get("id")}
            for c in n.get("inner", []):
                walk(c, q2, intemplate if k != "ClassTemplateSpecializationDecl" else False)
            return
        if k in ("ClassTemplateDecl", "FunctionTemplateDecl"):
            for c in n.get("inner", []):
                ck = c.get("kind")
                if ck in ("ClassTemplateSpecializationDecl",): walk(c, q, False)
                elif ck in FUNCS and c.get("mangledName"): walk(c, q, False)
            return
        if k == "EnumDecl":
            v = -1
            for c in n.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    v += 1
                    for e in c.get("inner", []):
                        if e.get("value") is not None:
                            try: v = int(e["value"])
                            except ValueError: pass
                    P.enums[c["id"]] = (c["name"], v)
            return
        if k == "VarDecl":
            P.globals[n["id"]] = ("::".join(q + [n.get("name", "")]), conv(n))
            if n.get("previousDecl"): P.globals[n["previousDecl"]] = P.globals[n["id"]]
            return
        if k in FUNCS:
            if intemplate: return
            m = n.get("mangledName")
            if not m: return
            P.byid[n["id"]] = m
            todo.append((m, n, q))
            return
        if k in ("LinkageSpecDecl", "ExportDecl"):
            for c in n.get("inner", []): walk(c, q, intemplate)

    for d in docs: walk(d, [], False)
    ms = sorted(set(m for m, _, _ in todo))
    dm = dict(zip(ms, demangle(ms)))
    for m, n, q in todo:
        qual = strip_sig(dm[m])
        cls = qual.rsplit("::", 1)[0] if "::" in qual else ""
        # a template argument may contain '::'
        depth = 0; cut = None
        for i, c in enumerate(qual):
            if c == "<": depth += 1
            elif c == ">" and not qual[:i].endswith("operator"): depth -= 1
            elif depth == 0 and qual[i:i + 2] == "::": cut = i
        cls = qual[:cut] if cut is not None else ""
        P.declinfo[m] = (cls, n.get("name"), (n.get("type") or {}).get("qualType"), n.get("virtual", False))
        has = any(isinstance(x, dict) and x.get("kind") in ("CompoundStmt", "CXXTryStmt") for x in n.get("inner", []))
        if has and (m not in P.funcs):
            f = Func(m, conv(n), cls, qual); f.demangled = dm[m]
            P.funcs[m] = f
    # specialisations are printed outside their namespace: full name from the functions in them
    for nm in list(P.classes):
        if not any(f.cls == nm for f in P.funcs.values()):
            full = sorted(set(f.cls for f in P.funcs.values() if f.cls.endswith("::" + nm)))
            if len(full) == 1 and full[0] not in P.classes: P.classes[full[0]] = P.classes.pop(nm)
    # default template arguments spelled out
    for c in P.classes.values():
        for i, b in enumerate(c["bases"]):
            if b not in P.classes and "<" in b:
                alt = [n for n in P.classes if n.startswith(b[:-1] + ",")]
                if len(alt) == 1: c["bases"][i] = alt[0]
    tmp = cp + ".%d" % os.getpid()
    sys.setrecursionlimit(100000)
    with open(tmp, "wb") as f: pickle.dump(P, f, protocol=4)
    os.replace(tmp, cp)
    for old in glob.glob(cache + "/*.pkl"):
        if old != cp and len(glob.glob(cache + "/*.pkl")) > 6:
            try: os.remove(old)
            except OSError: pass
    return P


if __name__ == "__main__":
    import time
    t = time.time(); P = load(); print("%.1fs" % (time.time() - t), len(P.funcs), "functions", len(P.classes), "classes")
    for a in sys.argv[1:]:
        for f in P.funcs.values():
            if a in f.qual: print("=====", f.demangled, "|", f.cls); print(f.node.show())
