#!/usr/bin/env python3
# Writes harness/gen_calls.inc: one plausible call of every public function that takes a handle first.
import glob, os, re
R = os.environ.get("VF_REPO", "/repo")
MOD = {"approximate_neighbors": "da_handle_approx_nn", "dbscan": "da_handle_dbscan", "interpolation": "da_handle_interpolation", "kmeans": "da_handle_kmeans", "linmod": "da_handle_linmod",
       "nearest_neighbors": "da_handle_nn", "nlls": "da_handle_nlls", "svm": "da_handle_svm", "tsne": "da_handle_tsne"}
out, rows = [], []
for f in sorted(glob.glob(R + "/source/include/aoclda_*.h")):
    m = re.match(r"aoclda_(\w+)\.h", os.path.basename(f)).group(1)
    if m in ("handle", "options"): continue
    s = re.sub(r"/\*.*?\*/", "", open(f).read(), flags=re.S)
    s = re.sub(r"//.*", "", s)
    for n, a in re.findall(r"da_status\s+(da_\w+)\s*\(([^;{}]*?)\)\s*;", s):
        if not re.match(r"\s*da_handle\b", a): continue
        args, pi, ii = [], 0, 0
        for x in a.split(",")[1:]:
            x = re.sub(r"\s+", " ", x.strip())
            t, v = re.match(r"(.*?)(\w+)$", x).groups()
            t = t.strip()
            if t == "da_int": args.append("I(%d)" % ii); ii += 1
            elif t in ("double", "float"): args.append("1")
            elif t.endswith("*"):
                if t in ("void *", "const char *") or t.startswith("da_res"): args.append("nullptr")
                else:
                    args.append("%s(%d)" % ({"double": "Pd", "float": "Pf", "da_int": "Pi"}[t.replace("const ", "")[:-2]] + ("c" if t.startswith("const") else ""), pi))
                    pi += 1
            else: args.append("(%s)0" % t)
        if m == "decision_forest": ty = "da_handle_decision_forest" if "forest" in n else "da_handle_decision_tree"
        elif m == "pca": ty = "da_handle_kernel_pca" if "kernel_pca" in n else "da_handle_pca"
        elif m == "result": ty = "da_handle_uninitialized"
        else: ty = MOD[m]
        rows.append('    {"%s", [](da_handle h) { return %s(h%s); }, %s, %d},' % (n, n, "".join(", " + x for x in args), ty, 0 if n.endswith("_s") else 1 if n.endswith("_d") else 2))
open(os.path.join(os.path.dirname(__file__), "../harness/gen_calls.inc"), "w").write("\n".join(rows) + "\n")
print(len(rows))
