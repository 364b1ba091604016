// ------------------------------------------------------------------ builtins
#define BI(name) static void name(State &s, DInst &d, std::vector<Val> &a, std::vector<Val> &ret)
static const uint64_t ALLOC_LIMIT = 64ull << 20;

static void throwNamed(State &s, const char *fn) {
    Function *f = M->getFunction(fn);
    if (!f || f->isDeclaration()) unsupported(s, std::string("missing runtime function ") + fn);
    std::vector<Val> args;
    pushCall(s, f, args, nullptr);
}

static Val newSymVar(State &s, const std::string &name, unsigned w, uint64_t hi) {
    static std::map<std::tuple<std::string, unsigned, uint64_t>, E> memo;
    auto k = std::make_tuple(name, w, hi);
    auto it = memo.find(k);
    E e;
    if (it != memo.end()) e = it->second;
    else { e = mkVar(name, w, hi); memo[k] = e; }
    uint32_t id = (uint32_t)e->cval;
    if (s.as.v.size() <= id) s.as.v.resize(id + 1, 0);
    return Val(e);
}
static std::string occName(State &s, const std::string &n) {
    int k = s.nameCnt[n]++;
    return n + "#" + std::to_string(k);
}

// --- allocation
static bool allocSize(State &s, Val &sz, bool &fail) {
    fail = false;
    if (sz.e) {
        E ok = mkCmp(OUle, sz.e, mkConst(64, 1 << 16));
        if (ok->op != OConst) {
            if (holdsNow(s, ok)) assumeTrueForkOther(s, ok);
            else { assumeTrueForkOther(s, mkNot(ok)); fail = true; return true; }
        } else if (!ok->cval) { fail = true; return true; }
        sz = Val(concretize(s, sz, 64));
    }
    if (sz.c > ALLOC_LIMIT) fail = true;
    return true;
}
// injected allocation failure: forks a path in which this allocation fails
static bool oomHere(State &s) {
    if (s.oom <= 0) return false;
    if (s.oomFail) { s.oomFail = false; s.oom = 0; s.inputs.push_back({"oom_index", 0, Val((uint64_t)s.oomUsed), 64}); return true; }
    StateP n = cloneState(s);
    n->oomFail = true;
    work.push_back(std::move(n));
    s.oomUsed++;
    return false;
}
BI(biMalloc) {
    bool fail;
    allocSize(s, a[0], fail);
    if (!fail && oomHere(s)) fail = true;
    ret.push_back(fail ? Val((uint64_t)0) : Val(heapAlloc(s, a[0].c, KMalloc)));
}
BI(biCalloc) {
    Val sz = binOp(OMul, 64, a[0], a[1]);
    bool fail;
    if (!a[0].e && !a[1].e && (u128)a[0].c * a[1].c > ALLOC_LIMIT) fail = true;
    else allocSize(s, sz, fail);
    if (!fail && oomHere(s)) fail = true;
    ret.push_back(fail ? Val((uint64_t)0) : Val(heapAlloc(s, sz.c, KMalloc, false)));
}
static void doFree(State &s, uint64_t p, int kind) {
    if (!p) return;
    const ObjP *o = findObj(s, p);
    if (!o || !*o || (*o)->base != p || (*o)->kind == KStack || (*o)->kind == KGlobal || (*o)->kind == KConst) {
        report(s, "memory", "free of invalid pointer", s.as);
        throw PathEnd();
    }
    if ((*o)->freed) { report(s, "memory", "double free", s.as); throw PathEnd(); }
    if ((*o)->kind != kind) { report(s, "memory", "mismatched allocation and deallocation", s.as); throw PathEnd(); }
    if (s.team && ompPar(s) && (*o)->size && (*o)->size <= 4096) { ompNote(s, Val(p), (*o)->size, true, false); o = findObj(s, p); }
    Obj &w = writable(s, o);
    w.freed = true;
    w.b.clear(); w.b.shrink_to_fit();
    w.s.clear(); w.un.clear();
}
BI(biRealloc) {
    bool fail;
    allocSize(s, a[1], fail);
    if (!fail && oomHere(s)) fail = true;
    uint64_t p = needC(s, a, 0);
    if (fail) { ret.push_back(Val((uint64_t)0)); return; }
    uint64_t np = heapAlloc(s, a[1].c, KMalloc);
    if (p) {
        const ObjP *o = resolveC(s, p, 0, false);
        uint64_t n = std::min<uint64_t>((*o)->size, a[1].c);
        copyBytes(s, np, p, n);
        doFree(s, p, KMalloc);
    }
    ret.push_back(Val(np));
}
BI(biFree) { doFree(s, needC(s, a, 0), KMalloc); }
BI(biNew) {
    bool fail;
    allocSize(s, a[0], fail);
    if (!fail && oomHere(s)) fail = true;
    if (fail) { throwNamed(s, "__symrt_throw_bad_alloc"); return; }
    ret.push_back(Val(heapAlloc(s, a[0].c, KNew)));
}
BI(biNewArr) {
    bool fail;
    allocSize(s, a[0], fail);
    if (!fail && oomHere(s)) fail = true;
    if (fail) { throwNamed(s, "__symrt_throw_bad_alloc"); return; }
    ret.push_back(Val(heapAlloc(s, a[0].c, KNewArr)));
}
BI(biNewNT) {
    bool fail;
    allocSize(s, a[0], fail);
    if (!fail && oomHere(s)) fail = true;
    ret.push_back(fail ? Val((uint64_t)0) : Val(heapAlloc(s, a[0].c, KNew)));
}
BI(biNewArrNT) {
    bool fail;
    allocSize(s, a[0], fail);
    if (!fail && oomHere(s)) fail = true;
    ret.push_back(fail ? Val((uint64_t)0) : Val(heapAlloc(s, a[0].c, KNewArr)));
}
BI(biDelete) { doFree(s, needC(s, a, 0), KNew); }
BI(biDeleteArr) { doFree(s, needC(s, a, 0), KNewArr); }
BI(biPosixMemalign) {
    Val sz = a[2];
    bool fail;
    allocSize(s, sz, fail);
    if (!fail && oomHere(s)) fail = true;
    uint64_t p = needC(s, a, 0);
    if (fail) { ret.push_back(Val((uint64_t)12)); return; }
    uint64_t m = heapAlloc(s, sz.c, KMalloc);
    storeLeaf(s, Val(p), 8, Val(m));
    ret.push_back(Val((uint64_t)0));
}
BI(biAlignedAlloc) {
    Val sz = a[1];
    bool fail;
    allocSize(s, sz, fail);
    if (!fail && oomHere(s)) fail = true;
    ret.push_back(fail ? Val((uint64_t)0) : Val(heapAlloc(s, sz.c, KMalloc)));
}
// --- memory functions
BI(biMemcpy) {
    uint64_t n = needC(s, a, 2), dd = needC(s, a, 0), ss = needC(s, a, 1);
    doMemcpy(s, dd, ss, n);
    ret.push_back(Val(dd));
}
BI(biMemset) {
    uint64_t n = needC(s, a, 2), dd = needC(s, a, 0);
    Val v = a[1];
    v = v.e ? toV(mkExtract(v.e, 0, 8)) : Val(v.c & 255);
    doMemset(s, dd, v, n);
    ret.push_back(Val(dd));
}
// --- exceptions
BI(biAllocExc) {
    uint64_t p = heapAlloc(s, needC(s, a, 0), KMalloc);
    s.excObjs.insert(p);
    ret.push_back(Val(p));
}
BI(biFreeExc) { doFree(s, needC(s, a, 0), KMalloc); }
BI(biThrow) {
    s.excPtr = needC(s, a, 0);
    s.excType = needC(s, a, 1);
    s.excDtor[s.excPtr] = std::make_pair(s.excType, needC(s, a, 2));
    unwind(s);
}
BI(biBeginCatch) {
    uint64_t p = needC(s, a, 0);
    s.caught.push_back({p, s.excDtor[p].first});
    ret.push_back(Val(p));
}
BI(biEndCatch) {
    if (s.caught.empty()) return;
    ExcInfo e = s.caught.back();
    s.caught.pop_back();
    for (auto &c : s.caught) if (c.ptr == e.ptr) return;
    if (s.rethrown == e.ptr) { s.rethrown = 0; return; }
    uint64_t dt = s.excDtor[e.ptr].second;
    if (dt) {
        if (dt <= FUNCB || dt > FUNCB + fList.size() * 16) return;
        Function *fn = fList[(dt - FUNCB) / 16 - 1];
        if (fn->isDeclaration()) return;
        std::vector<Val> args{Val(e.ptr)};
        pushCall(s, fn, args, nullptr);
    }
}
BI(biRethrow) {
    if (s.caught.empty()) { report(s, "exception", "rethrow without active exception (terminate)", s.as); throw PathEnd(); }
    ExcInfo e = s.caught.back();
    s.rethrown = e.ptr;
    s.excPtr = e.ptr;
    s.excType = e.type;
    unwind(s);
}
BI(biGetExcPtr) { ret.push_back(a[0]); }
BI(biTerminate) { report(s, "exception", "std::terminate called", s.as); throw PathEnd(); }
BI(biAbort) { report(s, "abort", "abort called", s.as); throw PathEnd(); }
BI(biAssertFail) {
    std::string m = a.size() ? readCStr(s, needC(s, a, 0)) : "";
    report(s, "abort", "assertion failure: " + m, s.as);
    throw PathEnd();
}
BI(biGlibcxxAssert) {
    std::string m = a.size() > 3 ? readCStr(s, needC(s, a, 3)) : "";
    report(s, "stdassert", "container precondition violated: " + m, s.as);
    throw PathEnd();
}
BI(biPureVirtual) { report(s, "abort", "pure virtual call", s.as); throw PathEnd(); }
BI(biExit) { report(s, "abort", "exit called", s.as); throw PathEnd(); }
BI(biZero) { ret.push_back(Val((uint64_t)0)); }
BI(biOne) { ret.push_back(Val((uint64_t)1)); }
BI(biNop) {}

// --- math
static int mathId(const std::string &n) {
    auto it = std::find(mathNames.begin(), mathNames.end(), n);
    return it == mathNames.end() ? -1 : (int)(it - mathNames.begin());
}
static std::string calleeName(DInst &d) { return d.ex ? ((Function *)d.ex)->getName().str() : ""; }
BI(biMath1) {
    std::string n = calleeName(d);
    unsigned w = d.w;
    int id = mathId(n);
    if (id < 0 && !n.empty() && n.back() == 'f') id = mathId(n.substr(0, n.size() - 1));
    if (id < 0) unsupported(s, "math " + n);
    ret.push_back(fp1(OFMath, w, w, a[0], id));
}
template <Op O> static void biFp1(State &s, DInst &d, std::vector<Val> &a, std::vector<Val> &ret) { ret.push_back(fp1(O, d.w, d.w, a[0])); }
BI(biFabs) { ret.push_back(fabsV(d.w, a[0])); }
static double host2(const std::string &n, double x, double y) {
    if (n == "pow" || n == "powf") return pow(x, y);
    if (n == "fmod" || n == "fmodf") return fmod(x, y);
    if (n == "hypot" || n == "hypotf") return hypot(x, y);
    if (n == "atan2" || n == "atan2f") return atan2(x, y);
    if (n == "nextafter") return nextafter(x, y);
    if (n == "nextafterf") return nextafterf((float)x, (float)y);
    if (n == "fmax" || n == "fmaxf") return fmax(x, y);
    if (n == "fmin" || n == "fminf") return fmin(x, y);
    abort();
}
BI(biMath2) {
    std::string n = calleeName(d);
    unsigned w = d.w;
    if (!a[0].e && !a[1].e) { ret.push_back(Val(fpb(w, host2(n, fpv(w, a[0].c), fpv(w, a[1].c))))); return; }
    if (n == "pow" || n == "powf") {
        if (!a[1].e) {
            double k = fpv(w, a[1].c);
            if (k == 2.0) { ret.push_back(fpOp(OFMul, w, w, a[0], a[0])); return; }
            if (k == 1.0) { ret.push_back(a[0]); return; }
            if (k == 0.5) { ret.push_back(fp1(OFSqrt, w, w, a[0])); return; }
            if (k == 3.0) { ret.push_back(fpOp(OFMul, w, w, fpOp(OFMul, w, w, a[0], a[0]), a[0])); return; }
        }
    }
    if (n == "fmax" || n == "fmin" || n == "fmaxf" || n == "fminf") {
        bool mn = n[2] == 'i' ;
        mn = n == "fmin" || n == "fminf";
        Val na = fp1(OFIsNaN, 1, w, a[0]);
        Val c = mn ? fpOp(OFLt, 1, w, a[1], a[0]) : fpOp(OFLt, 1, w, a[0], a[1]);
        ret.push_back(iteV(binOp(OOr, 1, na, c), w, a[1], a[0]));
        return;
    }
    uint64_t x = a[0].e ? concretize(s, a[0], w) : a[0].c;
    uint64_t y = a[1].e ? concretize(s, a[1], w) : a[1].c;
    ret.push_back(Val(fpb(w, host2(n, fpv(w, x), fpv(w, y)))));
}
BI(biLdexp) {
    unsigned w = d.w;
    uint64_t k = needC(s, a, 1);
    int e = (int)k;
    if (!a[0].e) { ret.push_back(Val(fpb(w, ldexp(fpv(w, a[0].c), e)))); return; }
    ret.push_back(fpOp(OFMul, w, w, a[0], Val(fpb(w, ldexp(1.0, e)))));
}

// --- formatted output
static std::string fmtSym(State &s, const std::string &f, std::function<Val()> next) {
    std::string out;
    for (size_t i = 0; i < f.size(); i++) {
        if (f[i] != '%') { out += f[i]; continue; }
        i++;
        if (i >= f.size()) break;
        if (f[i] == '%') { out += '%'; continue; }
        std::string spec = "%";
        int lng = 0;
        while (i < f.size() && strchr("-+ #0123456789.*lhzjtL", f[i])) {
            if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j') { lng++; }
            else if (f[i] == '*') { Val v = next(); spec += v.e ? "1" : std::to_string((int)v.c); }
            else if (f[i] != 'h' && f[i] != 'L') spec += f[i];
            i++;
        }
        char c = f[i];
        char buf[600];
        Val v = next();
        if (c == 's') {
            uint64_t p = v.e ? concretize(s, v, 64) : v.c;
            std::string str = p ? readCStr(s, p) : "(null)";
            spec += 's';
            std::vector<char> bb(str.size() + 600);
            snprintf(bb.data(), bb.size(), spec.c_str(), str.c_str());
            out += bb.data();
            continue;
        }
        if (v.e) { out += "<sym>"; continue; }
        if (strchr("diouxX", c)) {
            spec += lng ? "l" : "";
            spec += c;
            if (lng) snprintf(buf, sizeof buf, spec.c_str(), (long)v.c);
            else snprintf(buf, sizeof buf, spec.c_str(), (int)v.c);
        } else if (c == 'c') { buf[0] = (char)v.c; buf[1] = 0; }
        else if (c == 'p') snprintf(buf, sizeof buf, "%p", (void *)v.c);
        else if (strchr("fFeEgGaA", c)) { spec += c; snprintf(buf, sizeof buf, spec.c_str(), b2d(v.c)); }
        else buf[0] = 0;
        out += buf;
    }
    return out;
}
static void putStr(State &s, uint64_t dst, const std::string &o, uint64_t cap) {
    if (!cap) return;
    uint64_t n = std::min<uint64_t>(o.size(), cap - 1);
    for (uint64_t i = 0; i < n; i++) storeLeaf(s, Val(dst + i), 1, Val((uint64_t)(uint8_t)o[i]));
    storeLeaf(s, Val(dst + n), 1, Val((uint64_t)0));
}
static std::function<Val()> vaNext(State &s, uint64_t ap) {
    auto pos = std::make_shared<uint64_t>(0);
    return [&s, ap, pos]() {
        Val area = loadLeaf(s, Val(ap + 8), 8, 64);
        Val v = loadLeaf(s, Val(area.c), 8, 64);
        storeLeaf(s, Val(ap + 8), 8, Val(area.c + 8));
        return v;
    };
}
static std::function<Val()> argNext(std::vector<Val> &a, size_t from) {
    auto pos = std::make_shared<size_t>(from);
    return [&a, pos]() { return *pos < a.size() ? a[(*pos)++] : Val((uint64_t)0); };
}
BI(biSnprintf) {
    uint64_t dst = needC(s, a, 0), cap = needC(s, a, 1);
    std::string o = fmtSym(s, readCStr(s, needC(s, a, 2)), argNext(a, 3));
    putStr(s, dst, o, cap);
    ret.push_back(Val((uint64_t)(uint32_t)o.size()));
}
BI(biSprintf) {
    uint64_t dst = needC(s, a, 0);
    std::string o = fmtSym(s, readCStr(s, needC(s, a, 1)), argNext(a, 2));
    putStr(s, dst, o, 1 << 30);
    ret.push_back(Val((uint64_t)(uint32_t)o.size()));
}
BI(biVsnprintf) {
    uint64_t dst = needC(s, a, 0), cap = needC(s, a, 1);
    std::string o = fmtSym(s, readCStr(s, needC(s, a, 2)), vaNext(s, needC(s, a, 3)));
    putStr(s, dst, o, cap);
    ret.push_back(Val((uint64_t)(uint32_t)o.size()));
}

// --- harness API
static std::string nm(State &s, std::vector<Val> &a, size_t i = 0) { return readCStr(s, needC(s, a, i)); }
static void recInput(State &s, const std::string &n, const Val &v) { s.inputs.push_back({n, 0, v, 64}); }
static Val rangeVar(State &s, const std::string &n, int64_t lo, int64_t hi) {
    if (hi < lo) { st.assumed++; throw PathEnd(); }
    uint64_t span = (uint64_t)hi - (uint64_t)lo;
    if (span == 0) return Val((uint64_t)lo);
    unsigned w = 1;
    while (w < 64 && (1ull << w) - 1 < span) w++;
    Val v = newSymVar(s, n, w, span);
    E e = mkZExt(v.e, 64);
    return toV(mkBin(OAdd, e, mkConst(64, (uint64_t)lo)));
}
BI(symInt) {
    std::string n = occName(s, nm(s, a));
    int64_t lo = (int64_t)needC(s, a, 1), hi = (int64_t)needC(s, a, 2);
    Val v = rangeVar(s, n, lo, hi);
    recInput(s, n, v);
    ret.push_back(v);
}
BI(symChoose) {
    std::string n0 = nm(s, a);
    int64_t lo = (int64_t)needC(s, a, 1), hi = (int64_t)needC(s, a, 2);
    // fork one path per value; the clones restart at this instruction with the remaining values
    auto it = s.chooseFrom.find(n0);
    int64_t v = it == s.chooseFrom.end() ? lo : it->second;
    if (it != s.chooseFrom.end()) s.chooseFrom.erase(it);
    if (v > hi) { st.assumed++; throw PathEnd(); }
    if (v < hi) {
        StateP n = cloneState(s);
        n->chooseFrom[n0] = v + 1;
        work.push_back(std::move(n));
    }
    std::string n = occName(s, n0);
    recInput(s, n, Val((uint64_t)v));
    ret.push_back(Val((uint64_t)v));
}
template <int W> static void symDy(State &s, DInst &d, std::vector<Val> &a, std::vector<Val> &ret) {
    std::string n = occName(s, nm(s, a));
    int64_t lo = (int64_t)needC(s, a, 1), hi = (int64_t)needC(s, a, 2);
    int sc = (int)sx(needC(s, a, 3), 32);
    Val k = rangeVar(s, n, lo, hi);
    recInput(s, n, k);
    if (!k.e) { ret.push_back(Val(fpb(W, ldexp((double)(int64_t)k.c, sc)))); return; }
    ret.push_back(toV(mkDyadic(W, k.e, sc)));
}
template <int W> static void symTab(State &s, DInst &d, std::vector<Val> &a, std::vector<Val> &ret) {
    std::string n = occName(s, nm(s, a));
    uint64_t p = needC(s, a, 1), cnt = needC(s, a, 2) & 0xffffffff;
    auto t = std::make_shared<std::vector<uint64_t>>();
    for (uint64_t i = 0; i < cnt; i++) t->push_back(loadLeaf(s, Val(p + i * W / 8), W / 8, W).c);
    Val k = rangeVar(s, n, 0, (int64_t)cnt - 1);
    recInput(s, n, k);
    if (!k.e) { ret.push_back(Val((*t)[0])); return; }
    unsigned w = 1;
    while ((1ull << w) < cnt) w++;
    ret.push_back(toV(mkTable(W, mkExtract(k.e, 0, w), t)));
}
template <int W> static void symFP(State &s, DInst &d, std::vector<Val> &a, std::vector<Val> &ret) {
    std::string n = occName(s, nm(s, a));
    Val v = newSymVar(s, n, W, maskw(W));
    recInput(s, n, v);
    ret.push_back(v);
}
BI(symAssume) {
    Val c = a[0];
    if (!c.e) { if (!c.c) { st.assumed++; throw PathEnd(); } return; }
    E e = boolE(c);
    if (e->op == OConst) { if (!e->cval) { st.assumed++; throw PathEnd(); } return; }
    if (!holdsNow(s, e)) {
        Assign o;
        if (feasible(s, e, o) != 1) { st.assumed++; throw PathEnd(); }
        s.as = o;
    }
    addCons(s, e);
}
BI(symAssert) {
    Val c = a[0];
    st.asserts++;
    std::string m = readCStr(s, needC(s, a, 1));
    if (!c.e) {
        if (!c.c) { report(s, "assert", m, s.as); throw PathEnd(); }
        return;
    }
    E e = boolE(c);
    if (e->op == OConst) {
        if (!e->cval) { report(s, "assert", m, s.as); throw PathEnd(); }
        return;
    }
    st.assertQ++;
    if (e->taint) checkTaint(s, e, ("result '" + m + "'").c_str());
    Assign o;
    if (!holdsNow(s, e)) {
        report(s, "assert", m, s.as);
        if (feasible(s, e, o) != 1) throw PathEnd();
        s.as = o;
    } else {
        int r = feasible(s, mkNot(e), o);
        if (r == 1) report(s, "assert", m, o);
        else if (r < 0) unsupportedMsgs["solver gave up on assertion: " + m]++;
        else return; // valid: no need to record the constraint
    }
    addCons(s, e);
}
BI(symUnsupported) { unsupported(s, nm(s, a)); }
// dynamic_cast<T*>(p): vtable at p: [-16] offset to top, [-8] type_info
static bool baseOffset(uint64_t thrown, uint64_t want, int64_t &off, int d = 0) {
    GlobalVariable *t = gvAt(thrown), *w = gvAt(want);
    if (!t || !w) return false;
    if (t->getName() == w->getName()) { off = 0; return true; }
    if (d > 8 || !t->hasInitializer()) return false;
    auto *init = dyn_cast<ConstantStruct>(t->getInitializer());
    if (!init) return false;
    unsigned n = init->getNumOperands();
    if (n == 3) { // single inheritance at offset 0
        if (auto *bg = dyn_cast<GlobalVariable>(init->getOperand(2)->stripPointerCasts())) return baseOffset(gBaseOf(bg), want, off, d + 1);
        return false;
    }
    for (unsigned i = 4; i + 1 < n; i += 2) {
        auto *bg = dyn_cast<GlobalVariable>(init->getOperand(i)->stripPointerCasts());
        auto *fl = dyn_cast<ConstantInt>(init->getOperand(i + 1));
        if (!bg || !fl) continue;
        int64_t o2;
        if (baseOffset(gBaseOf(bg), want, o2, d + 1)) { off = (fl->getSExtValue() >> 8) + o2; return true; }
    }
    return false;
}
BI(biDynamicCast) {
    uint64_t p = needC(s, a, 0);
    uint64_t dst = needC(s, a, 2);
    if (!p) { ret.push_back(Val((uint64_t)0)); return; }
    Val vp = loadLeaf(s, Val(p), 8, 64);
    uint64_t vt = vp.e ? concretize(s, vp, 64) : vp.c;
    uint64_t top = loadLeaf(s, Val(vt - 16), 8, 64).c, tinf = loadLeaf(s, Val(vt - 8), 8, 64).c;
    int64_t off;
    ret.push_back(baseOffset(tinf, dst, off) ? Val(p + top + off) : Val((uint64_t)0));
}
BI(symReach) { reached[readCStr(s, needC(s, a, 0))]++; }
BI(symConc) { ret.push_back(Val(needC(s, a, 0))); }
BI(symIsSym) { ret.push_back(Val((uint64_t)(a[0].e != nullptr))); }
BI(symNative) { ret.push_back(Val((uint64_t)0)); }
BI(symOom) { s.oom = (int)needC(s, a, 0); s.oomUsed = 0; }
BI(symOomHit) { ret.push_back(Val((uint64_t)(s.oom == 0))); }
BI(symLeakMark) { s.leakMark = s.heap.n; if (!s.leakMark) s.leakMark = 1; }
BI(symLeakCheck) {
    for (uint64_t i = s.leakMark; i < s.heap.n; i++) {
        auto *p = s.heap.get(i);
        if (p && *p && !(*p)->freed && !s.excObjs.count((*p)->base)) {
            report(s, "leak", "memory still allocated after all handles were destroyed", s.as);
            throw PathEnd();
        }
    }
}
BI(symPrint) {
    std::string m = readCStr(s, needC(s, a, 0));
    Val v = a[1];
    fprintf(stderr, "PRINT %s = %lld (%g)%s%s\n", m.c_str(), (long long)evalV(v, s.as), b2d(evalV(v, s.as)), v.e ? " sym " : "", v.e ? exprStr(v.e, 6).c_str() : "");
}
BI(symUninitOK) { // mark bytes as initialised (harness buffers)
    uint64_t p = needC(s, a, 0), n = needC(s, a, 1);
    if (!n) return;
    const ObjP *o = resolveC(s, p, n, true);
    Obj &w = writable(s, o);
    for (uint64_t i = 0; i < n; i++) w.clrUn(p - w.base + i);
}
BI(symValid) { // whole range is allocated memory?
    uint64_t p = needC(s, a, 0), n = needC(s, a, 1);
    const ObjP *o = findObj(s, p);
    ret.push_back(Val((uint64_t)(o && *o && !(*o)->freed && p >= (*o)->base && p + n <= (*o)->base + (*o)->size)));
}

#include "omp.inc"
static void initBuiltins() {
    initOmp();
    auto &b = builtins;
    b["malloc"] = biMalloc; b["calloc"] = biCalloc; b["realloc"] = biRealloc; b["free"] = biFree;
    b["posix_memalign"] = biPosixMemalign; b["aligned_alloc"] = biAlignedAlloc;
    b["_Znwm"] = biNew; b["_Znam"] = biNewArr; b["_ZnwmSt11align_val_t"] = biNew; b["_ZnamSt11align_val_t"] = biNewArr;
    b["_ZnwmRKSt9nothrow_t"] = biNewNT; b["_ZnamRKSt9nothrow_t"] = biNewArrNT;
    b["_ZnwmSt11align_val_tRKSt9nothrow_t"] = biNewNT; b["_ZnamSt11align_val_tRKSt9nothrow_t"] = biNewArrNT;
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdlPvSt11align_val_tRKSt9nothrow_t"}) b[n] = biDelete;
    for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t", "_ZdaPvSt11align_val_tRKSt9nothrow_t"}) b[n] = biDeleteArr;
    b["memcpy"] = biMemcpy; b["memmove"] = biMemcpy; b["memset"] = biMemset;
    b["__cxa_allocate_exception"] = biAllocExc; b["__cxa_free_exception"] = biFreeExc; b["__cxa_throw"] = biThrow;
    b["__cxa_begin_catch"] = biBeginCatch; b["__cxa_end_catch"] = biEndCatch; b["__cxa_rethrow"] = biRethrow; b["__cxa_get_exception_ptr"] = biGetExcPtr;
    b["__clang_call_terminate"] = biTerminate; b["_ZSt9terminatev"] = biTerminate; b["abort"] = biAbort; b["__assert_fail"] = biAssertFail;
    b["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = biGlibcxxAssert; b["__cxa_pure_virtual"] = biPureVirtual; b["exit"] = biExit; b["_exit"] = biExit;
    for (auto n : {"__cxa_atexit", "__cxa_thread_atexit", "atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_mutex_init", "pthread_mutex_destroy", "fflush", "printf", "puts", "putchar", "fprintf", "fputs", "fputc", "fwrite", "setvbuf", "getenv", "secure_getenv", "__libc_single_threaded", "vprintf", "vfprintf"}) b[n] = biZero;
    b["__cxa_guard_acquire"] = biOne; b["__cxa_guard_release"] = biNop; b["__cxa_guard_abort"] = biNop;
    b["time"] = biZero; b["clock"] = biZero; b["_ZNSt6chrono3_V212system_clock3nowEv"] = biZero; b["_ZNSt6chrono3_V212steady_clock3nowEv"] = biZero;
    b["_ZNSt13random_device9_M_getvalEv"] = biOne; b["_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"] = biNop; b["_ZNSt13random_device7_M_finiEv"] = biNop;
    for (auto &n : mathNames) { b[n] = biMath1; b[n + "f"] = biMath1; }
    for (auto n : {"pow", "fmod", "hypot", "atan2", "nextafter", "fmax", "fmin"}) { b[n] = biMath2; b[std::string(n) + "f"] = biMath2; }
    b["sqrt"] = b["sqrtf"] = biFp1<OFSqrt>; b["floor"] = b["floorf"] = biFp1<OFFloor>; b["ceil"] = b["ceilf"] = biFp1<OFCeil>;
    b["trunc"] = b["truncf"] = biFp1<OFTrunc>; b["round"] = b["roundf"] = biFp1<OFRound>; b["rint"] = b["rintf"] = b["nearbyint"] = b["nearbyintf"] = biFp1<OFRint>;
    b["fabs"] = b["fabsf"] = biFabs; b["ldexp"] = b["ldexpf"] = biLdexp;
    b["snprintf"] = biSnprintf; b["sprintf"] = biSprintf; b["vsnprintf"] = biVsnprintf;
    b["sym_int"] = symInt; b["sym_choose"] = symChoose; b["sym_dy"] = symDy<64>; b["sym_dyf"] = symDy<32>;
    b["sym_tab"] = symTab<64>; b["sym_tabf"] = symTab<32>; b["sym_f64"] = symFP<64>; b["sym_f32"] = symFP<32>;
    b["sym_assume"] = symAssume; b["sym_assert"] = symAssert; b["sym_reach"] = symReach; b["sym_conc"] = symConc; b["sym_is"] = symIsSym;
    b["sym_native"] = symNative; b["sym_oom"] = symOom; b["sym_oom_hit"] = symOomHit; b["sym_leakmark"] = symLeakMark; b["sym_leakcheck"] = symLeakCheck;
    b["sym_print"] = symPrint; b["sym_unsupported"] = symUnsupported; b["__dynamic_cast"] = biDynamicCast; b["sym_initialised"] = symUninitOK; b["sym_valid"] = symValid;
}
