"""Builds /repo's sources twice (real-arithmetic build and plain build) and links
the executable contracts of one property against each.  Content addressed: an
object is reused only if the source, every header it could see, the engine and
the flags are byte-identical."""
import concurrent.futures as cf, glob, hashlib, os, subprocess, sys, time, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENG = os.path.join(VERIF, "engine")
EIG = "/usr/include/eigen3"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
SYM_FLAGS = ["-std=c++17", "-O0", "-g0", "-w", "-ftrivial-auto-var-init=pattern",
             "-I" + ENG + "/shim", "-I" + ENG, "-I" + REPO + "/include", "-I" + EIG]
PLAIN_FLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-fPIC", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern",
               "-I" + ENG + "/shim", "-I" + ENG, "-I" + REPO + "/include", "-I" + EIG,
               "-include", ENG + "/plain_prelude.hpp"]


def sh(data):
    return hashlib.sha256(data).hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources():
    out = []
    for p in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
        if "/Optimization/" in p or p.endswith("GaussLobattoLagrangeFunctionals.cpp"):
            continue
        out.append(p)
    return out


def headers_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/src/**/*.h*", recursive=True)):
        if os.path.isfile(p):
            h.update(p.encode()); h.update(read(p))
    return h.hexdigest()


def engine_hash(which):
    """what an object of that build mode can see of the engine"""
    fs = {"sym": ["sym/sym_prelude.hpp", "sym/sym_rt.hpp", "shim/assert.h", "shim/cassert"],
          "plain": ["plain_prelude.hpp", "shim/assert.h", "shim/cassert"],
          "rt": ["sym/sym_rt.hpp"], "harness": ["harness.hpp"]}[which]
    h = hashlib.sha256()
    for p in fs:
        h.update(p.encode()); h.update(read(ENG + "/" + p))
    return h.hexdigest()


def run(cmd, log=None, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode("utf8", "replace")


class BuildError(Exception):
    pass


def obj(src, flags, key, extra_steps=None):
    """compile src -> cached object"""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    k = sh((key + "|" + src + "|" + " ".join(flags)).encode() + read(src) + repr(extra_steps).encode())
    o = BUILD + "/obj/%s_%s.o" % (os.path.basename(src)[:-4], k)
    if os.path.exists(o):
        os.utime(o)
        return o
    tmp = o + ".%d.tmp.o" % os.getpid()
    rc, out = run(["g++"] + flags + ["-c", src, "-o", tmp])
    if rc != 0:
        raise BuildError("%s: %s" % (src, "\n".join([l for l in out.splitlines() if "error" in l][:8])))
    for st in extra_steps or []:
        rc, out = run(st + [tmp])
        if rc != 0:
            raise BuildError(out)
    os.rename(tmp, o)
    return o


def sym_pch(eh):
    """precompiled prelude; returns the path to -include"""
    d = BUILD + "/pch_" + sh((eh + " ".join(SYM_FLAGS)).encode())
    hp = d + "/prelude.hpp"
    if not os.path.exists(hp + ".gch"):
        os.makedirs(d, exist_ok=True)
        with open(hp, "w") as f:
            f.write('#include "%s/sym/sym_prelude.hpp"\n' % ENG)
        tmp = hp + ".gch.%d" % os.getpid()
        rc, out = run(["g++"] + SYM_FLAGS + ["-x", "c++-header", hp, "-o", tmp])
        if rc != 0:
            raise BuildError(out[:2000])
        os.rename(tmp, hp + ".gch")
    return hp


LGL = "_ZN8gsplines11collocation41legendre_gauss_lobatto_points_and_weightsEm"


def prune():
    d = BUILD + "/obj"
    if not os.path.isdir(d):
        return
    fs = [os.path.join(d, f) for f in os.listdir(d)]
    if len(fs) > 900:
        fs.sort(key=lambda p: os.stat(p).st_mtime)
        for p in fs[:400]:
            try: os.remove(p)
            except OSError: pass


def build(props, sym=True, plain=True):
    """-> dict(sym=exe or None, plain=exe or None, sym_error=..., plain_error=..., secs=...)"""
    t0 = time.time(); prune()
    hh, es, ep = headers_hash(), engine_hash("sym"), engine_hash("plain")
    er, hx0 = engine_hash("rt"), engine_hash("harness")
    harn = [VERIF + "/harness/%s.cpp" % p for p in props]
    harn = [p for p in harn if os.path.exists(p)]
    hx = hx0 + sh(b"".join(read(p) for p in sorted(glob.glob(VERIF + "/harness/*.hpp"))))
    srcs = lib_sources()
    res = {"sym": None, "plain": None, "sym_error": None, "plain_error": None, "sources": srcs}
    modes = []
    ex = cf.ThreadPoolExecutor(JOBS)
    if plain:
        futs = [ex.submit(obj, s, PLAIN_FLAGS, hh + ep) for s in srcs]
        futs += [ex.submit(obj, s, PLAIN_FLAGS, hh + ep + hx) for s in harn + [ENG + "/harness_main.cpp"]]
        modes.append(("plain", futs, []))
    if sym:
        try:
            pch = sym_pch(es)
            fl = SYM_FLAGS + ["-include", pch]
            futs = []
            for s in srcs:
                steps = [["objcopy", "--weaken-symbol=" + LGL]] if s.endswith("GaussLobattoPointsWeights.cpp") else None
                futs.append(ex.submit(obj, s, fl, hh + es, steps))
            futs += [ex.submit(obj, s, fl, hh + es + hx) for s in harn + [ENG + "/harness_main.cpp", ENG + "/sym/lgl_override.cpp"]]
            futs.append(ex.submit(obj, ENG + "/sym/sym.cpp", ["-std=c++17", "-O2", "-g0", "-w"], er))
            futs.append(ex.submit(obj, ENG + "/sym/lgl_nodes.cpp", ["-std=c++17", "-O2", "-g0", "-w"], er))
            modes.append(("sym", futs, ["-lz3", "-lgmpxx", "-lgmp"]))
        except BuildError as e:
            res["sym_error"] = str(e)
    for mode, futs, libs in modes:
        try:
            objs = [f.result() for f in futs]
            k = sh(" ".join(objs).encode())
            exe = BUILD + "/exe/%s_%s" % (mode, k)
            if not os.path.exists(exe):
                os.makedirs(BUILD + "/exe", exist_ok=True)
                tmp = exe + ".%d" % os.getpid()
                rc, out = run(["g++", "-o", tmp] + objs + libs)
                if rc != 0:
                    raise BuildError("link: " + out[-1500:])
                os.rename(tmp, exe)
            res[mode] = exe
        except BuildError as e:
            res[mode + "_error"] = str(e)
    ex.shutdown()
    d = BUILD + "/exe"
    fs = sorted([os.path.join(d, f) for f in os.listdir(d) if not f.startswith('py_')], key=lambda p: os.stat(p).st_mtime) if os.path.isdir(d) else []
    for p in fs[:-80]:
        try: os.remove(p)
        except OSError: pass
    res["secs"] = time.time() - t0
    return res


def build_python():
    """the Python extension module, from /repo/bindings and the library objects -> directory for PYTHONPATH"""
    import sysconfig
    hh, ep = headers_hash(), engine_hash("plain")
    src = REPO + "/bindings/bindings.cpp"
    bh = sh(b"".join(read(p) for p in sorted(glob.glob(REPO + "/bindings/*"))))
    inc = ["-I" + sysconfig.get_paths()["include"]] + (["-I/usr/include/pybind11"] if os.path.isdir("/usr/include/pybind11") else [])
    fl = [f if f != "-O1" else "-O0" for f in PLAIN_FLAGS] + ["-fvisibility=hidden", "-DIPOPT_INTERFACE_H"] + inc
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(obj, src, fl, hh + ep + bh, [["objcopy", "--wildcard", "--weaken-symbol=_ZN8gsplines12optimization*"]])]
        futs += [ex.submit(obj, s, PLAIN_FLAGS, hh + ep) for s in lib_sources()]
        futs.append(ex.submit(obj, ENG + "/pymodule_rt.cpp", PLAIN_FLAGS, ep))
        objs = [f.result() for f in futs]
    d = BUILD + "/exe/py_" + sh(" ".join(objs).encode())
    so = d + "/pygsplines" + sysconfig.get_config_var("EXT_SUFFIX")
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        tmp = so + ".%d" % os.getpid()
        rc, out = run(["g++", "-shared", "-o", tmp] + objs)
        if rc != 0:
            raise BuildError("link: " + out[-1500:])
        os.rename(tmp, so)
    return d


if __name__ == "__main__":
    r = build(sys.argv[1:])
    print({k: v for k, v in r.items() if k != "sources"})
