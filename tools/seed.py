#!/usr/bin/env python3
"""seed.py new ID PROP FILE --needs T --breaks T [--src a.cpp,b.cpp] : take /repo's uncommitted diff as the planted change, the
   program on stdin as its demonstration, then confirm it (tests pass, demo fails with it and passes without) and run the check.
   seed.py try ID : apply, run the checks of its property, undo."""
import sys, os, subprocess, json, argparse, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
DEMO = r'''#!/bin/bash
# builds the program beside this file against the library sources in the current directory and runs it
D="$(cd "$(dirname "$0")" && pwd)"; S="$PWD/source/core"; T="$(mktemp -d)"
trap 'find "$T" -delete' EXIT
I=""; for d in drivers basic_statistics optimization utilities dynamic_dispatch csv metrics linear_model data_management factorization factorization/pca factorization/kernel_pca clustering clustering/kmeans clustering/dbscan decision_forest decision_forest/tree decision_forest/forest decision_forest/common nlls nearest_neighbors svm kernel_functions interpolation interpolation/cubic_spline approximate_neighbors dimension_reduction dimension_reduction/tsne; do I="$I -I$S/$d"; done
F="-O1 -g -w -fopenmp -fPIC -march=x86-64 -mavx2 -mfma -ffp-contract=off -DARCH_generic -DZNVER_MAX=generic -Dgeneric_AVAILABLE -DAOCLDA_VERSION_STRING=\"x\" -DAOCLDA_GIT_COMMIT=\"x\" -DINT_LIB=\"LP64\" -DDATA_DIR=\"/tmp\" -DTEST_OUTPUT_DIR=\"/tmp\" -DDA_KT_TEST_FALLBACK -I$D/shim -Isource/include $I -Iexternal/kernel-templates -Iexternal/Lbfgsb.3.0 -Iexternal/RALFit -Iexternal/RALFit/libRALFit/include -I/usr/include/x86_64-linux-gnu/openblas-pthread @SAN@"
P=""
for s in @SRC@; do case "$s" in *.c) gcc $F -c "$S/$s" -o "$T/$(basename "$s").o" & ;; *) g++ -std=c++17 $F -c "$S/$s" -o "$T/$(basename "$s").o" & ;; esac; P="$P $!"; done
for f in "$D"/*.cpp; do g++ -std=c++17 $F -c "$f" -o "$T/$(basename "$f").demo.o" & P="$P $!"; done
for p in $P; do wait "$p" || { echo "demo: compilation failed"; exit 99; }; done
g++ $F "$T"/*.o -o "$T/demo" -lopenblas -lpthread -Wl,--unresolved-symbols=ignore-in-object-files -z lazy -no-pie || exit 98
cd "$T" && OPENBLAS_NUM_THREADS=1 ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
'''
def tests():
    r = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    try: got = set(json.load(open("/tmp/seed_out.json"))["passed"])
    except Exception: return "no test result: " + r.stdout[-1500:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    base = set(base["stable"])
    return None if base <= got else "tests fail: %s" % sorted(base - got)
def checks(prop, extra=()):
    out = []
    for q in [prop] + list(extra):
        r = sh("python3 %s/vf/vf.py --property %s --tier quick --no-evidence" % (V, q))
        out.append((q, r.returncode, r.stdout[-600:]))
    return out
def main():
    a = argparse.ArgumentParser()
    a.add_argument("cmd"); a.add_argument("id"); a.add_argument("prop", nargs="?"); a.add_argument("--needs", default=""); a.add_argument("--breaks", default="")
    a.add_argument("--src", default=""); a.add_argument("--san", default=""); a.add_argument("--also", default=""); a.add_argument("--blas", action="store_true"); a.add_argument("--notests", action="store_true")
    o = a.parse_args()
    d = "%s/seeded/%s" % (V, o.id)
    if o.cmd == "new":
        diff = sh("git -C /repo diff").stdout
        assert diff.strip(), "no change in /repo"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(sys.stdin.read())
        if os.path.isdir(d + "/shim"): shutil.rmtree(d + "/shim")
        shutil.copytree(V + "/shim", d + "/shim")
        if o.blas: shutil.copy(V + "/runtime/blas.cpp", d + "/blas.cpp")
        open(d + "/demo.sh", "w").write(DEMO.replace("@SRC@", o.src.replace(",", " ")).replace("@SAN@", o.san))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": o.prop, "needs": o.needs, "what_it_breaks": o.breaks}, open(d + "/meta.json", "w"), indent=1)
        sh("git -C /repo checkout -- .")
        r = sh("bash %s/demo.sh" % d, cwd=R)
        print("demo clean:", r.returncode, r.stdout[-800:] if r.returncode else "")
    meta = json.load(open(d + "/meta.json"))
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode: print("patch does not apply", r.stdout); return 1
    try:
        if o.cmd == "new":
            if not o.notests: print("tests:", tests() or "pass")
            r = sh("bash %s/demo.sh" % d, cwd=R)
            print("demo patched:", r.returncode, r.stdout[-300:])
        for q, rc, out in checks(meta["property"], o.also.split(",") if o.also else ()):
            print("check", q, "exit", rc, out)
    finally:
        sh("git -C /repo checkout -- .")
main()
