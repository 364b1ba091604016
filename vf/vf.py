#!/usr/bin/env python3
"""Driver: builds the symbolic encoding from /repo's working tree, runs the symbolic executor on a
property's harnesses, replays every counterexample on a native build of the same code, and writes
the evidence file.  Exit 0: the property held on everything explored; 1: a violation was found."""
import sys, os, json, hashlib, subprocess, time, shutil, tempfile, argparse, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VF_JOBS", str(os.cpu_count() or 4)))
sys.path.insert(0, os.path.join(VERIF, "vf"))
import units as U

R = REPO + "/source"
INCD = ["include"] + ["core/" + d for d in (
    "drivers basic_statistics optimization utilities dynamic_dispatch csv metrics linear_model data_management "
    "factorization factorization/pca factorization/kernel_pca clustering clustering/kmeans clustering/dbscan decision_forest decision_forest/tree decision_forest/forest decision_forest/common nlls nearest_neighbors svm kernel_functions "
    "interpolation interpolation/cubic_spline approximate_neighbors dimension_reduction dimension_reduction/tsne").split()]
INC = ["-I" + VERIF + "/harness", "-I" + VERIF + "/shim"] + ["-I%s/%s" % (R, d) for d in INCD] + [
    "-I" + REPO + "/external/kernel-templates", "-I" + REPO + "/external/Lbfgsb.3.0", "-I" + REPO + "/external/RALFit", "-I" + REPO + "/external/RALFit/libRALFit/include",
    "-I/usr/include/x86_64-linux-gnu/openblas-pthread"]
DEFS = ["-DARCH_generic", "-DZNVER_MAX=generic", "-Dgeneric_AVAILABLE",
        '-DAOCLDA_VERSION_STRING="AOCL-DA"', '-DAOCLDA_GIT_COMMIT="unknown"', '-DDATA_DIR="/tmp"',
        '-DTEST_OUTPUT_DIR="/tmp"', '-DINT_LIB="LP64"', "-DAOCLDA_VERIF_SYM", "-DDA_KT_TEST_FALLBACK"]
COMMON = ["-march=x86-64", "-mavx2", "-mfma", "-w", "-fopenmp", "-I" + VERIF + "/shim_omp"]
SYMF = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-gline-tables-only", "-fno-strict-aliasing", "-fno-pic", "-fno-pie",
        "-I" + VERIF + "/shim_sym", "-emit-llvm", "-c"]
SYMCXX = ["-std=c++17", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-fno-threadsafe-statics"]
UBSAN = "signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bool,return,bounds,pointer-overflow"
UBSAN_SYM = "signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bool,return,bounds"


def sh256(p):
    h = hashlib.sha256()
    try:
        with open(p, "rb") as f:
            h.update(f.read())
    except OSError:
        return "-"
    return h.hexdigest()


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


hcache = {}


def fhash(p):
    if p not in hcache:
        hcache[p] = sh256(p)
    return hcache[p]


def compile_tu(src, out, cmd):
    """compile unless an up-to-date result exists (same command, same content of every dependency)"""
    key = hashlib.sha256(" ".join(cmd).encode()).hexdigest()
    man = out + ".dep.json"
    try:
        m = json.load(open(man))
        if m["key"] == key and os.path.exists(out) and all(fhash(p) == h for p, h in m["deps"].items()):
            return
    except (OSError, ValueError, KeyError):
        pass
    dep = out + ".d"
    r = run(cmd + ["-MD", "-MF", dep, src, "-o", out])
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
    txt = open(dep).read().replace("\\\n", " ")
    files = sorted(set(txt.split(":", 1)[1].split()))
    files = [f for f in files if f.startswith(REPO) or f.startswith(VERIF)]
    json.dump({"key": key, "deps": {f: fhash(f) for f in files}}, open(man, "w"))


def engine_hash():
    srcs = ["expr.cpp", "expr.hpp", "solver.hpp", "symir.cpp", "interp.inc", "builtins.inc", "main.inc", "omp.inc", "build.sh"]
    h = hashlib.sha256("".join(sh256(os.path.join(VERIF, "engine", s)) for s in srcs).encode()).hexdigest()
    return h


def engine():
    h = engine_hash()
    pre = os.path.join(VERIF, "engine", "bin")
    try:
        if open(pre + "/symir.sha").read().strip() == h and os.access(pre + "/symir", os.X_OK) and run([pre + "/symir", "--version"]).returncode == 0:
            return pre + "/symir"
    except OSError:
        pass
    d = os.path.join(BUILD, "engine")
    os.makedirs(d, exist_ok=True)
    try:
        if open(d + "/symir.sha").read().strip() == h and os.access(d + "/symir", os.X_OK):
            return d + "/symir"
    except OSError:
        pass
    r = run([os.path.join(VERIF, "engine", "build.sh"), d])
    if r.returncode:
        raise BuildError("engine build failed: " + r.stderr[-3000:])
    open(d + "/symir.sha", "w").write(h)
    return d + "/symir"


def rng(unit):
    return ["-I" + VERIF + "/harness", "-I" + VERIF + "/shim_rng"] if unit.get("rng") else []


def mangle(p):
    return re.sub(r"[^A-Za-z0-9_.]", "_", p)


def build_unit(unit, tier):
    """returns path of the linked bitcode"""
    d = os.path.join(BUILD, "bc", unit["name"])
    os.makedirs(d, exist_ok=True)
    cdir = os.path.join(BUILD, "bc", "common")
    os.makedirs(cdir, exist_ok=True)
    defs = list(DEFS) + unit.get("defs", [])
    jobs = []
    outs = []
    ub = unit.get("ub", True)
    san = ["-fsanitize=" + UBSAN_SYM, "-fsanitize-trap=" + UBSAN_SYM] if ub else []
    tag = hashlib.sha256(repr((sorted(unit.get("defs", [])), ub, rng(unit))).encode()).hexdigest()[:8]
    for s in unit.get("sources", []):
        p = s if s.startswith("/") else os.path.join(R, s)
        o = os.path.join(cdir, mangle(s) + "." + tag + ".bc")
        if s.endswith(".c"):
            cmd = ["clang", "-std=gnu11"] + COMMON + SYMF + san + INC + defs
        else:
            cmd = ["clang++"] + SYMCXX + rng(unit) + COMMON + SYMF + san + INC + defs
        jobs.append((p, o, cmd))
        outs.append(o)
    hs = os.path.join(VERIF, "harness", unit["harness"])
    ho = os.path.join(d, "harness_%s.bc" % tier)
    jobs.append((hs, ho, ["clang++"] + SYMCXX + rng(unit) + COMMON + SYMF + (san if unit.get("ubh") else []) + INC + defs + ["-DTIER_" + tier.upper()]))
    outs.append(ho)
    for f in unit.get("runtime", []) + ["rt.cpp", "rt_c.c", "blas.cpp"]:
        o = os.path.join(cdir, mangle(f) + ".bc")
        p = os.path.join(VERIF, "runtime", f)
        if f.endswith(".c"):
            jobs.append((p, o, ["clang", "-O1", "-fno-builtin", "-w", "-emit-llvm", "-c"]))
        else:
            jobs.append((p, o, ["clang++", "-O1", "-w", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-I" + VERIF + "/shim_sym", "-emit-llvm", "-c"] + SYMCXX))
        outs.append(o)
    with ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(compile_tu, *j) for j in jobs]:
            f.result()
    bc = os.path.join(d, "all_%s.bc" % tier)
    r = run(["llvm-link-18"] + outs + ["-o", bc]) if shutil.which("llvm-link-18") else run(["/usr/lib/llvm-18/bin/llvm-link"] + outs + ["-o", bc])
    if r.returncode:
        raise BuildError("link failed: " + r.stderr[-2000:])
    return bc


def build_native(unit, entry, tier, san="address", oom=False):
    d = os.path.join(BUILD, "native", unit["name"])
    cdir = os.path.join(BUILD, "native", "common")
    os.makedirs(d, exist_ok=True)
    os.makedirs(cdir, exist_ok=True)
    defs = list(DEFS) + unit.get("defs", [])
    sf = {"address": ["-fsanitize=address," + UBSAN, "-fno-sanitize-recover=all"], "thread": ["-fsanitize=thread"], "": []}[san]
    sf = sf + ["-O1", "-g", "-fno-omit-frame-pointer", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS"]
    tag = (san[:1] or "p") + hashlib.sha256(repr((sorted(unit.get("defs", [])), rng(unit))).encode()).hexdigest()[:8]
    jobs, outs = [], []
    for s in unit.get("sources", []):
        p = s if s.startswith("/") else os.path.join(R, s)
        o = os.path.join(cdir, mangle(s) + "." + tag + ".o")
        cmd = (["clang", "-std=gnu11"] if s.endswith(".c") else ["clang++", "-std=c++17"] + rng(unit)) + COMMON + sf + INC + defs + ["-c"]
        jobs.append((p, o, cmd))
        outs.append(o)
    hs = os.path.join(VERIF, "harness", unit["harness"])
    ho = os.path.join(d, "harness_%s_%s.o" % (tier, tag))
    jobs.append((hs, ho, ["clang++", "-std=c++17"] + rng(unit) + COMMON + sf + INC + defs + ["-DVF_NATIVE", "-DTIER_" + tier.upper(), "-c"]))
    outs.append(ho)
    mo = os.path.join(cdir, "miniomp." + tag + ".o")
    jobs.append((os.path.join(VERIF, "harness", "miniomp.cpp"), mo, ["clang++", "-std=c++17", "-w"] + sf + ["-c"]))
    outs.append(mo)
    bo = os.path.join(cdir, "blas." + tag + ".o")
    jobs.append((os.path.join(VERIF, "runtime", "blas.cpp"), bo, ["clang++", "-std=c++17", "-w"] + sf + ["-c"]))
    outs.append(bo)
    no = os.path.join(d, "native_%s_%s%s.o" % (entry, tag, "_oom" if oom else ""))
    jobs.append((os.path.join(VERIF, "harness", "sym_native.cpp"), no, ["clang++", "-std=c++17", "-g", "-I" + VERIF + "/harness", "-DSYM_ENTRY=" + entry, "-c"] + (["-DSYM_OOM"] if oom else [])))
    outs.append(no)
    with ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(compile_tu, *j) for j in jobs]:
            f.result()
    exe = os.path.join(d, "%s_%s_%s%s" % (entry, tier, tag, "_oom" if oom else ""))
    stdio = ["-Wl,--wrap=" + f for f in unit.get("wrap", [])]
    wrap = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "posix_memalign", "aligned_alloc")] if oom else []
    r = run(["clang++"] + wrap + stdio + (sf if san else []) + outs + ["-o", exe] + ["-L/usr/lib/x86_64-linux-gnu/openblas-pthread", "-lopenblas", "-lm", "-lpthread", "-no-pie", "-Wl,-z,lazy", "-Wl,--unresolved-symbols=ignore-in-object-files"])
    if r.returncode:
        raise BuildError("native link failed: " + r.stderr[-2000:])
    return exe


def replay(unit, entry, tier, viol, path):
    """True when the native build shows the failure for the inputs of the counterexample"""
    env = dict(os.environ, SYM_REPLAY=path, OPENBLAS_NUM_THREADS="1",
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096", UBSAN_OPTIONS="print_stacktrace=1")
    if viol["kind"] == "uninit":
        exe = build_native(unit, entry, tier, san="")
        cmd = ["valgrind", "-q", "--error-exitcode=44", "--exit-on-first-error=yes", exe]
        try:
            r = run(cmd, env=env, timeout=120)
        except subprocess.TimeoutExpired:
            return False, "valgrind timeout"
        if r.returncode == 44 and "ninitialised" in r.stderr:
            return True, r.stderr[-1500:]
        # fall through to the sanitized build
    if viol["kind"] == "race":
        exe = build_native(unit, entry, tier, san="thread")
        env["TSAN_OPTIONS"] = "exitcode=66:report_signal_unsafe=0"
        for _ in range(4):
            try:
                r = run(["setarch", "-R", exe], env=env, timeout=60)
            except subprocess.TimeoutExpired:
                continue
            if "WARNING: ThreadSanitizer: data race" in r.stderr:
                return True, r.stderr[:1800]
        return False, r.stderr[-600:]
    if "oom_index" in open(path).read() and not env.get("SYM_OOM_INDEX"):
        # which allocation fails is part of the counterexample; the native build may number them differently
        build_native(unit, entry, tier, oom=True)
        out = ""
        for k in range(400):
            os.environ["SYM_OOM_INDEX"] = str(k)
            try:
                ok, out = replay(unit, entry, tier, viol, path)
            finally:
                del os.environ["SYM_OOM_INDEX"]
            if ok:
                return True, "SYM_OOM_INDEX=%d\n" % k + out
            if "OOM-NOT-REACHED" in out:
                break
        return False, out
    exe = build_native(unit, entry, tier, oom="SYM_OOM_INDEX" in env)
    try:
        with tempfile.TemporaryDirectory() as td:
            r = run([exe], env=env, timeout=60, cwd=td)
    except subprocess.TimeoutExpired:
        return viol["kind"] in ("hang", "deadlock"), "timeout"
    out = r.stderr[-2500:]
    if r.returncode == 0 or r.returncode == 77:
        return False, out
    if viol["kind"] == "assert" and r.returncode == 42 and ("ASSERTION-FAILED: " + viol["msg"] + "\n") not in r.stderr:
        return False, out
    if viol["kind"] != "assert" and r.returncode == 42:
        return False, out
    if (r.returncode == 43) != (viol["kind"] == "leak"):
        return False, out
    return True, out


def merge(dirn):
    tot = None
    for f in sorted(os.listdir(dirn)):
        if not f.endswith(".json"):
            continue
        j = json.load(open(os.path.join(dirn, f)))
        if tot is None:
            tot = j
            tot["functions"] = set(map(tuple, j["functions"]))
            continue
        for k, v in j.items():
            if k == "solver":
                for a, b in v.items():
                    tot[k][a] = max(tot[k][a], b) if a == "max" else tot[k][a] + b
            elif k in ("reached", "unsupported_msgs"):
                for a, b in v.items():
                    tot[k][a] = tot[k].get(a, 0) + b
            elif k == "functions":
                tot[k] |= set(map(tuple, v))
            elif k == "violations":
                tot[k] += v
            else:
                tot[k] += v
    if tot:
        seen, vs = set(), []
        for v in tot["violations"]:
            key = (v["kind"], v["msg"], v["loc"].split(" in ")[-1] if v["kind"] != "assert" else "")
            if key not in seen:
                seen.add(key)
                vs.append(v)
        tot["violations"] = vs
    return tot


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                j = json.loads(l)
                if j.get("status") == "known":
                    out.append(j)
    return out


def is_known(kf, prop, unit, entry, v):
    for k in kf:
        if k["property"] != prop or k["entry"] != entry or k["kind"] != v["kind"] or k["msg"] != v["msg"]:
            continue
        if "function" in k and not v["loc"].endswith(" in " + k["function"]):
            continue
        return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--entry", default=None)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--time", type=float, default=None)
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    if a.setup:
        engine()
        print("setup done")
        return 0
    prop, tier = a.property, a.tier
    P = U.PROPS[prop]
    t0 = time.time()
    eng = engine()
    kf = known_findings()
    nviol, results, builderr = 0, [], []
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    entries = []
    for (uname, ent) in P["entries"]:
        if tier == "quick" and ent.get("thorough_only"):
            continue
        if a.entry and ent["fn"] != a.entry:
            continue
        entries.append((uname, ent))
    built = {}
    for uname in dict.fromkeys(u for u, _ in entries):
        unit = dict(U.UNITS[uname], name=uname)
        try:
            built[uname] = (unit, build_unit(unit, tier))
        except BuildError as e:
            builderr.append(str(e))
            print("BUILD-ERROR %s: %s" % (uname, e), file=sys.stderr)
    for uname, ent in entries:
        if uname not in built:
            continue
        unit, bc = built[uname]
        fn = ent["fn"]
        od = tempfile.mkdtemp(prefix="vf_", dir=BUILD)
        tl = a.time or ent.get("time", 90 if tier == "quick" else 900)
        if tier == "thorough":
            tl = a.time or ent.get("time_thorough", max(900, tl))
        tl = min(tl, max(10, deadline - time.time()))
        cmd = [eng, "--entry", fn, "--out", od, "--jobs", str(JOBS if ent.get("jobs", 0) == 0 else ent["jobs"]), "--time", str(tl)]
        for k in ("max-inst", "solver-timeout", "cand"):
            if k in ent:
                cmd += ["--" + k, str(ent[k])]
        if ent.get("no_uninit"):
            cmd.append("--no-uninit")
        if a.verbose:
            cmd.append("-v")
        cmd.append(bc)
        w0 = time.time()
        r = subprocess.run(["bash", "-c", "ulimit -s unlimited; exec \"$@\"", "x"] + cmd, stdout=subprocess.PIPE, stderr=None if a.verbose else subprocess.PIPE, text=True, errors="replace")
        res = merge(od)
        shutil.rmtree(od, ignore_errors=True)
        if res is None:
            builderr.append("engine produced no result for " + fn + ": " + (r.stderr or "")[-500:])
            print("ENGINE-ERROR %s %s" % (fn, (r.stderr or "")[-800:]), file=sys.stderr)
            continue
        res["entry"], res["wall"], res["bounds"] = fn, time.time() - w0, ent.get("bounds", "")
        res["worker_failures"] = 0 if r.returncode == 0 else 1
        res["missing_reach"] = [x for x in ent.get("reach", []) if not res["reached"].get(x)]
        res["confirmed"], res["unconfirmed"], res["known"] = [], [], []
        for i, v in enumerate(res["violations"]):
            k = is_known(kf, prop, uname, fn, v)
            path = os.path.join(evdir, "replay-%s-%s-%d.txt" % (prop, fn, i))
            with open(path, "w") as f:
                for n, x in v["inputs"]:
                    f.write("%s %s\n" % (n.replace(" ", "_"), x))
            try:
                ok, out = replay(unit, fn, tier, v, path)
            except BuildError as e:
                ok, out = False, "native build failed: " + str(e)[-600:]
                builderr.append(out)
            rec = {"kind": v["kind"], "msg": v["msg"], "loc": v["loc"], "inputs": v["inputs"], "stack": v["stack"][:600], "native": out[-700:]}
            if not ok:
                res["unconfirmed"].append(rec)
                if a.verbose:
                    print("UNCONFIRMED", v["kind"], v["msg"], v["loc"], out[-600:], file=sys.stderr)
                continue
            if k:
                res["known"].append(rec)
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                continue
            with open(path, "a") as f:
                f.write("\n".join("# " + l for l in ("entry %s kind %s: %s at %s" % (fn, v["kind"], v["msg"], v["loc"]) + "\n" + out).splitlines()) + "\n")
            res["confirmed"].append(rec)
            nviol += 1
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s (%s) at %s" % (fn, v["msg"], v["kind"], v["loc"]))
        sys.stdout.flush()
        if a.verbose or sys.stdout.isatty() or os.environ.get("VF_SUMMARY"):
            print("%-28s wall %6.1f paths %d asserts %d(q %d) solverq %d t %.1f unk %d leftover %d unsup %d unconf %d missing %s %s" % (
                fn, res["wall"], res["paths"], res["asserts"], res["assert_queries"], res["solver"]["queries"], res["solver"]["time"], res["solver"]["unknown"],
                res["leftover"], res["unsupported"], len(res["unconfirmed"]), res["missing_reach"], dict(list(res["unsupported_msgs"].items())[:4])))
        results.append(res)
        if nviol and tier == "quick":
            break
    if not a.no_evidence:
        write_evidence(prop, tier, P, results, builderr, nviol, time.time() - t0)
    if nviol:
        return 1
    if builderr:
        return 2
    return 0


def write_evidence(prop, tier, P, results, builderr, nviol, wall):
    funcs = sorted(set(f for r in results for f in r["functions"]))
    repo_files = sorted(set(f[1].replace(REPO + "/", "") for f in funcs))
    tot = lambda k: sum(r[k] for r in results)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": P["level"],
        "coverage": {
            "explanation": "bounded symbolic execution of the LLVM IR compiled from /repo's current source; every path of each harness within its bounds, each assertion and memory access decided by z3 (QF_BV / QF_FPBV) for all values on the path",
            "harnesses": [{
                "entry": r["entry"], "bounds": r["bounds"], "complete": r["leftover"] == 0 and r["unsupported"] == 0 and r["inconclusive"] == 0 and not r["worker_failures"],
                "paths": r["paths"], "instructions": r["insts"], "branches_on_symbolic_data": r["branches"], "forks": r["forks"],
                "assertions_evaluated": r["asserts"], "assertions_needing_solver": r["assert_queries"], "symbolic_address_checks": r["mem_checks"],
                "solver": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in r["solver"].items()},
                "unfinished_paths": r["leftover"], "unsupported_paths": r["unsupported"], "unsupported": r["unsupported_msgs"],
                "solver_unknown": r["inconclusive"], "reached": r["reached"], "missing_reach": r["missing_reach"],
                "unconfirmed_counterexamples": [{k: x[k] for k in ("kind", "msg", "loc")} for x in r["unconfirmed"]],
                "known_findings_seen": [x["msg"] for x in r["known"]], "wall_s": round(r["wall"], 2)} for r in results],
            "functions_encoded": [f[0] for f in funcs], "source_files_encoded": repo_files,
            "paths": tot("paths") if results else 0, "queries": sum(r["solver"]["queries"] for r in results), "solver_time_s": round(sum(r["solver"]["time"] for r in results), 2),
            "obligations": tot("asserts") + tot("mem_checks") if results else 0,
            "build_errors": [b[:500] for b in builderr],
            "violation_details": [dict(entry=r["entry"], **x) for r in results for x in r["confirmed"]],
        },
        "assumptions": P.get("assumptions", []) + U.COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
