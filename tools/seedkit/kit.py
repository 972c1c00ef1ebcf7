#!/usr/bin/env python3
"""kit.py PROG.cpp EXE [dir ...]: builds PROG with the parts of /repo/source/core named (always the utilities),
with stand-ins (./shim) for the dependencies that are not installed. What stays unresolved is never called."""
import concurrent.futures as cf, glob, os, re, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
prog, exe, dirs = sys.argv[1], sys.argv[2], sys.argv[3:]
R = os.getcwd()
work = os.path.dirname(os.path.abspath(exe))
B = "openblas-pthread"
INCS = """include core core/drivers core/basic_statistics core/optimization core/utilities core/dynamic_dispatch core/csv core/metrics
 core/linear_model core/data_management core/factorization core/clustering core/decision_forest core/decision_forest/tree core/nlls
 core/nearest_neighbors core/svm core/kernel_functions core/interpolation core/approximate_neighbors core/dimension_reduction""".split()
fl = ["-O1", "-fPIC", "-fopenmp", "-w", "-march=x86-64", "-mavx2", "-mfma", "-I" + here + "/shim/include"]
fl += ["-I%s/source/%s" % (R, i) for i in INCS] + ["-I%s/external/%s" % (R, i) for i in ("Lbfgsb.3.0", "RALFit", "RALFit/libRALFit/include", "kernel-templates")]
fl += ["-I/usr/include/x86_64-linux-gnu/" + B, "-DZNVER_MAX=generic", "-Dgeneric_AVAILABLE", '-DAOCLDA_VERSION_STRING="AOCL-DA"', '-DAOCLDA_GIT_COMMIT="unknown"', '-DINT_LIB="LP64"']
text = open(R + "/source/CMakeLists.txt").read()
internal = set()
for name, body in re.findall(r"set\((DA_\w+)\s+([^)]*)\)", text):
    if name.endswith("_INTERNAL"):
        internal |= set(re.findall(r"core/\S+\.c(?:pp)?", body))
srcs = []
for d in ["utilities", "dynamic_dispatch"] + dirs:
    srcs += glob.glob("%s/source/core/%s/**/*.c*" % (R, d), recursive=True) if not d.endswith((".cpp", ".c")) else [R + "/source/core/" + d]
jobs = [(s, s in srcs and os.path.relpath(s, R + "/source") in internal) for s in sorted(set(srcs))] + [(here + "/shim/shim.cpp", True), (prog, True)]
def one(k):
    s, arch = jobs[k]
    o = "%s/%d.o" % (work, k)
    cc = ["gcc"] if s.endswith(".c") else ["g++", "-std=c++17"]
    p = subprocess.run(cc + fl + (["-DARCH_generic"] if arch else []) + ["-c", s, "-o", o], capture_output=True, text=True)
    if p.returncode:
        sys.exit(p.stderr[-3000:])
    return o
with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
    objs = list(ex.map(one, range(len(jobs))))
libs = sorted(glob.glob(R + "/_build/**/lib*lbfgsb*.a", recursive=True)) + sorted(glob.glob(R + "/_build/libral_nlls_*.a"))
p = subprocess.run(["g++", "-no-pie", "-Wl,-z,lazy", "-Wl,--unresolved-symbols=ignore-all", "-o", exe] + objs + libs +
                   ["/usr/lib/x86_64-linux-gnu/%s/libopenblas.so" % B, "-fopenmp", "-lgfortran", "-lmvec", "-lm", "-lpthread", "-ldl"], capture_output=True, text=True)
if p.returncode:
    sys.exit(p.stderr[-3000:])
