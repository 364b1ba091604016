#!/usr/bin/env python3
# Writes harness/gen_wrap.inc: for every function of the C interface that forwards to a C++ function, a recording stand-in for that
# function and a call with distinct arguments. Run by hand when the interface changes; the result is committed.
import re, os
R = os.environ.get("VF_REPO", "/repo")
s = open(R + "/source/core/utilities/aoclda_c_wrapper.cpp").read()
s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
out, calls, seen = [], [], {}
TY = {"_d": "double", "_s": "float", "_int": "da_int", "_uint8": "uint8_t", "_str": None, "_string": None, "_key": None}
for n, a, b in re.findall(r"da_status\s+(da_\w+)\s*\(([^;{}]*?)\)\s*\{\s*return (.*?);\s*\}", s, re.S):
    m = re.match(r"(\w+)(?:<([\w\s\*:]+)>)?\(", b)
    base, T = m.group(1), m.group(2)
    ps = []
    for x in a.split(","):
        x = re.sub(r"\s+", " ", x.strip())
        t, v = re.match(r"(.*?)(\w+)$", x).groups()
        ps.append((t.strip(), v))
    # the interface's own naming rule fixes the target
    suf = re.search(r"_(d|s|int|uint8|string_key|string|str)$", n).group(0)
    want = {"_d": "double", "_s": "float", "_int": "da_int", "_uint8": "uint8_t"}.get(suf, T)
    assert T == want, (n, T)
    exp = re.sub(r"(_real)?_(d|s|int|uint8|string_key|string|str)$", "", n)
    assert exp == base, (n, base)
    if n in ("da_read_csv_string", "da_data_extract_column_str"): T = "char *"  # deduced
    fill = ", (da_int *)nullptr" if n == "da_options_get_string" else ""  # default argument
    key = "%s<%s>(%s)" % (base, T or "", ",".join([t for t, _ in ps] + ["da_int *"] * bool(fill)))
    ty = [t for t, _ in ps]
    if "static_cast<bool>" in b: ty[-1] = "bool"
    ref = "&lvalue" in b
    if ref: ty[-1] = "da_int *"
    if key not in seen:
        seen[key] = len(seen)
        if fill: ty.append("da_int *")
        out.append("%sda_status %s%s(%s) { return rec(%d%s); }" % ("template <> " if T else "", base, "<%s>" % T if T else "", ", ".join("%s a%d" % x[::-1] for x in enumerate(ty)), seen[key], "".join(", %sa%d" % ("*" if ref and i == len(ty) - 1 else "", i) for i in range(len(ty)))))
    calls.append("    case %d: { %s sent(%d%s); got = %s(%s); } break;" % (len(calls), " ".join("auto p%d = arg<%s>(%d);" % (i, t, i) for i, (t, _) in enumerate(ps)), seen[key], "".join(", %sp%d" % ("(bool)" if ty[i] == "bool" else "", i) for i in range(len(ps))) + fill, n, ", ".join("p%d" % i for i in range(len(ps)))))
open(os.path.join(os.path.dirname(__file__), "../harness/gen_wrap.inc"), "w").write("#define WRAPPED %d\n#ifdef STANDINS\n%s\n#else\n%s\n#endif\n" % (len(calls), "\n".join(out), "\n".join(calls)))
print(len(calls), len(out))
