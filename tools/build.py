#!/usr/bin/env python3
"""Builds AOCL-DA (whole library, from /repo's working tree) and a harness, in one of
several instrumented configurations, into $VERIF_BUILD (default /verif/.build).

An object is rebuilt when its command line or the contents of any file it read last time
changed, so time stamps do not matter. Usage: build.py CONFIG [-v]  -> prints harness path
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", VERIF + "/.build")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
BLAS_INC = "/usr/include/x86_64-linux-gnu/openblas-pthread"
BLAS = "/usr/lib/x86_64-linux-gnu/openblas-pthread/libopenblas.so"

INCS = """include core core/drivers core/basic_statistics core/optimization core/utilities
 core/dynamic_dispatch core/csv core/metrics core/linear_model core/data_management
 core/factorization core/clustering core/decision_forest core/decision_forest/tree core/nlls
 core/nearest_neighbors core/svm core/kernel_functions core/interpolation
 core/approximate_neighbors core/dimension_reduction""".split()

# per configuration: flags for all languages, and extras
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-omit-frame-pointer"]
CONFIGS = {
    # memory and UB sanitizers, checked containers, real libgomp
    "asan": dict(opt=["-O1", "-g1"], san=ASAN, defs=["-D_GLIBCXX_ASSERTIONS"], fsan=["-fsanitize=address", "-fcheck=bounds,mem"], omp="gomp"),
    # as shipped, nearly: optimised, no instrumentation (differential and valgrind runs)
    "plain": dict(opt=["-O2", "-g1"], san=[], defs=["-D_GLIBCXX_ASSERTIONS"], fsan=[], omp="gomp"),
    # data races: TSan, over an OpenMP runtime of our own that TSan can see through
    "tsan": dict(opt=["-O1", "-g1"], san=["-fsanitize=thread", "-Wno-tsan"], defs=[], fsan=[], omp="vomp"),
    # schedule perturbation: plain code over the same OpenMP runtime
    "sched": dict(opt=["-O1", "-g1"], san=[], defs=["-D_GLIBCXX_ASSERTIONS"], fsan=[], omp="vomp"),
}
ARCH = {"generic": ["-march=x86-64", "-mavx2", "-mfma"],
        "generic_avx512": ["-march=x86-64", "-mavx2", "-mfma", "-mavx512f", "-mavx512dq", "-mavx512vl"]}

_hash = {}
def fhash(p):
    h = _hash.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "absent"
        _hash[p] = h
    return h

def key(cmd, deps):
    h = hashlib.sha1("\0".join(cmd).encode())
    for d in deps:
        h.update(d.encode()); h.update(fhash(d).encode())
    return h.hexdigest()

class BuildError(Exception):
    pass

def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout

def fresh(meta, cmd, outs):
    try:
        m = json.load(open(meta))
        return all(os.path.exists(o) for o in outs) and m["key"] == key(cmd, m["deps"])
    except (OSError, ValueError, KeyError):
        return False

def record(meta, cmd, deps):
    with open(meta + ".tmp", "w") as f:
        json.dump({"key": key(cmd, deps), "deps": deps}, f)
    os.replace(meta + ".tmp", meta)

def compile_one(src, obj, cmd):
    """-> True if it was compiled now"""
    meta = obj + ".json"
    full = cmd + ["-c", src, "-o", obj, "-MD", "-MF", obj + ".d"]
    if fresh(meta, full, [obj]):
        return False
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    run(full)
    text = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1]
    deps = sorted({os.path.normpath(os.path.join("/", d)) for d in text.split()})
    record(meta, full, deps)
    return True

LBF = ["working_precision", "lbfgsb_mod", "linpack", "timer", "lbfgsb"]
RAL = """ral_nlls_types ral_nlls_symbols ral_nlls_dtrs ral_nlls_workspaces ral_nlls_printing
 ral_nlls_bounds nag_export_mod ral_nlls_fd ral_nlls_internal ral_nlls ral_nlls_ciface""".split()

def fortran_set(name, conf, single):
    """compile one Fortran library in one precision, in module order"""
    c = CONFIGS[conf]
    d = f"{OUT}/{conf}/f/{name}_{'s' if single else 'd'}"
    if name == "lbfgsb":
        base = REPO + "/external/Lbfgsb.3.0"
        files = [("s" if single else "d") + f if f == "working_precision" else f for f in LBF]
        defs = ["-DSINGLE_PREC"] if single else []
    else:
        base = REPO + "/external/RALFit/libRALFit/src"
        files = RAL
        defs = ["-DSINGLE_PRECISION"] if single else []
    srcs = [f"{base}/{f}.F90" for f in files]
    objs = [f"{d}/{f}.o" for f in files]
    cmd = ["gfortran", "-cpp"] + defs + c["opt"] + ["-fPIC", "-march=x86-64-v3", "-w", "-I" + BLAS_INC, "-I" + base, "-J" + d] + c["fsan"]
    deps = sorted(glob.glob(base + "/*.F90") + glob.glob(base + "/*.FPP") + glob.glob(base + "/*.h"))
    meta = d + "/set.json"
    if fresh(meta, cmd, objs):
        return objs, False
    os.makedirs(d, exist_ok=True)
    for s, o in zip(srcs, objs):
        run(cmd + ["-c", s, "-o", o])
    record(meta, cmd, deps)
    return objs, True

def cxx_flags(conf, arch):
    c = CONFIGS[conf]
    fl = c["opt"] + c["san"] + c["defs"] + ["-fPIC", "-fopenmp", "-w"] + ARCH[arch]
    fl += ["-I" + VERIF + "/shim/include"] + ["-I" + REPO + "/source/" + i for i in INCS]
    fl += ["-I" + REPO + "/external/" + i for i in ("Lbfgsb.3.0", "RALFit", "RALFit/libRALFit/include", "kernel-templates")]
    fl += ["-I" + BLAS_INC, "-DZNVER_MAX=generic", "-Dgeneric_AVAILABLE",
           '-DAOCLDA_VERSION_STRING="AOCL-DA"', '-DAOCLDA_GIT_COMMIT="unknown"', '-DINT_LIB="LP64"']
    return fl

def internal_sources():
    """the sources the project compiles per architecture (the DA_*_INTERNAL lists)"""
    text = open(REPO + "/source/CMakeLists.txt").read()
    out = set()
    for name, body in re.findall(r"set\((DA_\w+)\s+([^)]*)\)", text):
        if name.endswith("_INTERNAL"):
            out |= set(re.findall(r"core/\S+\.c(?:pp)?", body))
    return out

def build(conf, harness_dirs=("harness",), verbose=False, name="davt", only_main=False):
    """name: of the executable; only_main: take main.cpp alone from the first harness directory"""
    t0 = time.time()
    c = CONFIGS[conf]
    od = f"{OUT}/{conf}"
    os.makedirs(od, exist_ok=True)
    cxx, cc = c.get("cxx", "g++"), c.get("cc", "gcc")
    fl = cxx_flags(conf, "generic")
    jobs = []
    srcs = sorted(glob.glob(REPO + "/source/core/**/*.cpp", recursive=True) + glob.glob(REPO + "/source/core/**/*.c", recursive=True))
    lib, har = [], []
    internal = internal_sources()
    for s in srcs:
        o = f"{od}/lib/" + os.path.relpath(s, REPO + "/source/core").replace("/", "__") + ".o"
        lib.append(o)
        comp = [cxx, "-std=c++17"] if s.endswith(".cpp") else [cc]
        jobs.append((os.path.getsize(s), s, o, comp + fl + (["-DARCH_generic"] if os.path.relpath(s, REPO + "/source") in internal else [])))
    extra = glob.glob(VERIF + "/shim/src/*.cpp")
    for k, hd in enumerate(harness_dirs):
        extra += glob.glob(f"{VERIF}/{hd}/{'main' if only_main and k == 0 else '*'}.cpp")
    if c["omp"] == "vomp":
        extra += glob.glob(VERIF + "/shim/vomp/*.cpp")
    for s in sorted(extra):
        o = f"{od}/har/" + os.path.relpath(s, VERIF).replace("/", "__") + ".o"
        har.append(o)
        extra_fl = ["-O2"] if "/shim/src/" in s else []
        jobs.append((os.path.getsize(s) * 4, s, o, [cxx, "-std=c++17"] + fl + ["-DARCH_generic", "-DVCONF_" + conf, "-I" + VERIF + "/harness"] + extra_fl))
    # big ones first
    jobs.sort(key=lambda j: -j[0])
    n = 0
    # hash once in this thread: cheap, and shared
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(fortran_set, nm, conf, sg) for nm in ("ralfit", "lbfgsb") for sg in (False, True)]
        js = [ex.submit(compile_one, s, o, cmd) for _, s, o, cmd in jobs]
        errs = []
        fobjs = []
        for f in fs:
            try:
                objs, did = f.result(); fobjs += objs; n += did
            except BuildError as e:
                errs.append(str(e))
        for f in js:
            try:
                n += f.result()
            except BuildError as e:
                errs.append(str(e))
    if errs:
        raise BuildError("\n".join(errs[:3]))
    exe = f"{od}/{name}"
    objs = har + lib + fobjs
    link = [cxx] + c["san"] + ["-o", exe] + objs
    link += [BLAS, "-lgfortran", "-lmvec", "-lm", "-lpthread", "-ldl"]
    link += ["-fopenmp"] if c["omp"] == "gomp" else []
    meta = exe + ".json"
    if not fresh(meta, link, [exe]) or n:
        # the key covers the objects' contents
        for o in objs:
            _hash.pop(o, None)
        run(link)
        record(meta, link, objs)
    if verbose:
        print(f"build {conf}: {n} compiled, {time.time()-t0:.1f} s", file=sys.stderr)
    return exe, n

def build_int(conf, verbose=False):
    """the harness of internal interfaces: a second executable"""
    return build(conf, ("harness", "harness_int"), verbose, "davt_int", True)

if __name__ == "__main__":
    try:
        print((build_int if "--int" in sys.argv else build)(sys.argv[1], verbose="-v" in sys.argv)[0])
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
