// ---------------------------------------------------------------------- main
struct Shared { std::atomic<int> idle; std::atomic<int> viol; std::atomic<int> stop; std::atomic<long> procs; };
static Shared *sh;
static std::string outDir;

static void globalsInit() {
    for (auto &g : M->globals()) for (int copy = 0; copy < (g.isThreadLocal() ? TLSN : 1); copy++) {
        uint64_t idx = gList.size();
        gList.push_back(&g);
        uint64_t size = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 8;
        uint64_t slots = size / SLOT + 1;
        if (gSlot.empty()) gSlot.push_back(~0u);
        if (copy) continue; // all copies share the address
        gIds[&g] = gSlot.size();
        for (uint64_t i = 0; i < slots; i++) gSlot.push_back((uint32_t)idx);
    }
    for (size_t i = 0; i < gList.size(); i++) {
        auto *g = gList[i];
        auto o = std::make_shared<Obj>();
        uint64_t size = g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()).getFixedValue() : 8;
        bool ext = g->isDeclaration();
        if (ext && size < 256) size = 256;
        setObj(*o, gBaseOf(g), size, g->isConstant() && !ext ? KConst : KGlobal, false);
        gInit.push_back(o);
    }
    for (size_t i = 0; i < gList.size(); i++) {
        auto *g = gList[i];
        if (g->isDeclaration()) continue;
        if (g->getInitializer()->isNullValue()) continue;
        std::vector<Val> v;
        constVals(g->getInitializer(), v);
        auto &l = ti(g->getValueType())->l;
        auto &b = gInit[i]->b;
        for (size_t k = 0; k < l.size(); k++) memcpy(&b[l[k].off], &v[k].c, l[k].bytes);
    }
}

static std::string js(const std::string &x) {
    std::string r = "\"";
    for (char c : x) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static void writeResult(const std::string &path) {
    FILE *o = fopen(path.c_str(), "w");
    if (!o) { perror("result"); _exit(9); }
    fprintf(o, "{\"paths\":%llu,\"forks\":%llu,\"insts\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"mem_checks\":%llu,\"branches\":%llu,\"inconclusive\":%llu,\"unsupported\":%llu,\"assumed_out\":%llu,\"leftover\":%llu,\n",
            (unsigned long long)st.paths, (unsigned long long)st.forks, (unsigned long long)st.insts, (unsigned long long)st.asserts, (unsigned long long)st.assertQ, (unsigned long long)st.memq,
            (unsigned long long)st.branches, (unsigned long long)st.inconclusive, (unsigned long long)st.unsupported, (unsigned long long)st.assumed, (unsigned long long)st.leftover);
    fprintf(o, "\"solver\":{\"queries\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"fp_queries\":%llu,\"time\":%.3f,\"max\":%.3f},\n",
            (unsigned long long)solver.st.queries, (unsigned long long)solver.st.cacheHits, (unsigned long long)solver.st.sat, (unsigned long long)solver.st.unsat, (unsigned long long)solver.st.unknown,
            (unsigned long long)solver.st.fpQueries, solver.st.time, solver.st.maxTime);
    fprintf(o, "\"reached\":{");
    bool first = true;
    for (auto &p : reached) { fprintf(o, "%s%s:%llu", first ? "" : ",", js(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(o, "},\n\"unsupported_msgs\":{");
    first = true;
    for (auto &p : unsupportedMsgs) { fprintf(o, "%s%s:%llu", first ? "" : ",", js(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(o, "},\n\"functions\":[");
    first = true;
    for (auto *d : usedFuncs) {
        std::string file;
        if (auto *sp = d->F->getSubprogram()) { std::string f = sp->getFilename().str(), dir = sp->getDirectory().str(); file = f.size() && f[0] == '/' ? f : dir + "/" + f; }
        if (file.find("/repo/") == std::string::npos) continue;
        fprintf(o, "%s[%s,%s]", first ? "" : ",", js(fnShort(d->name)).c_str(), js(file).c_str());
        first = false;
    }
    // functions inlined into decoded code
    std::set<std::pair<std::string, std::string>> inl;
    for (auto *d : usedFuncs)
        for (auto &B : *d->F) for (auto &I : B)
            if (DILocation *L = I.getDebugLoc().get())
                for (; L; L = L->getInlinedAt())
                    if (auto *sp = L->getScope()->getSubprogram()) {
                        std::string f = sp->getFilename().str(), dir = sp->getDirectory().str();
                        std::string file = f.size() && f[0] == '/' ? f : dir + "/" + f;
                        if (file.find("/repo/") != std::string::npos) inl.insert({fnShort(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()), file});
                    }
    for (auto &p : inl) { fprintf(o, "%s[%s,%s]", first ? "" : ",", js(p.first).c_str(), js(p.second).c_str()); first = false; }
    fprintf(o, "],\n\"violations\":[");
    first = true;
    for (auto &v : viols) {
        fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"stack\":%s,\"inputs\":[", first ? "" : ",\n", js(v.kind).c_str(), js(v.msg).c_str(), js(v.loc).c_str(), js(v.stack).c_str());
        bool f2 = true;
        for (auto &p : v.inputs) { fprintf(o, "%s[%s,%s]", f2 ? "" : ",", js(p.first).c_str(), js(p.second).c_str()); f2 = false; }
        fprintf(o, "]}");
        first = false;
    }
    fprintf(o, "]}\n");
    fclose(o);
}

static void resetStats() {
    st = Stats();
    solver.st = SolverStats();
    viols.clear();
    reached.clear();
    unsupportedMsgs.clear();
}
static void childExit() {
    std::string p = outDir + "/r" + std::to_string(getpid()) + ".json";
    writeResult(p);
    sh->viol += (int)viols.size();
    sh->idle++;
    _exit(0);
}
// Run the state to the end of its path.
static void runPath(State &s) {
    try {
        for (;;) {
            step(s);
            if ((s.icount & 0xfff) == 0) {
                if (s.icount > optMaxInst) {
                    report(s, "hang", "path exceeds the instruction budget", s.as);
                    break;
                }
                if ((s.icount & 0xffff) == 0 && now() - tStart > optMaxTime) { st.leftover++; return; }
            }
        }
    } catch (PathEnd &) {
    }
    gAtomic = false;
    st.paths++;
}
static void explore(bool parallel) {
    double lastShare = 0;
    while (!work.empty()) {
        if (now() - tStart > optMaxTime || sh->stop) { st.leftover += work.size(); work.clear(); break; }
        StateP s = std::move(work.back());
        work.pop_back();
        runPath(*s);
        s.reset();
        if ((int)viols.size() >= optMaxViol) { st.leftover += work.size(); work.clear(); break; }
        if (parallel && work.size() >= 2) {
            int id = sh->idle.load();
            if (id > 0 && sh->idle.compare_exchange_strong(id, id - 1)) {
                fflush(stdout);
                pid_t p = fork();
                if (p == 0) {
                    resetStats();
                    std::vector<StateP> mine;
                    // take the oldest half
                    size_t h = work.size() / 2;
                    for (size_t i = 0; i < h; i++) mine.push_back(std::move(work[i]));
                    work.clear();
                    for (auto &m : mine) work.push_back(std::move(m));
                } else if (p > 0) {
                    size_t h = work.size() / 2;
                    work.erase(work.begin(), work.begin() + h);
                } else sh->idle++;
            }
        }
        (void)lastShare;
    }
}

#include <sys/prctl.h>
int main(int argc, char **argv) {
    std::string bc, entry = "harness";
    unsigned solverTimeout = 30000;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") entry = nxt();
        else if (a == "--out") outDir = nxt();
        else if (a == "--time") optMaxTime = atof(nxt().c_str());
        else if (a == "--jobs") optJobs = atoi(nxt().c_str());
        else if (a == "--max-inst") optMaxInst = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--max-viol") optMaxViol = atoi(nxt().c_str());
        else if (a == "--cand") optMaxCand = atoi(nxt().c_str());
        else if (a == "--solver-timeout") solverTimeout = atoi(nxt().c_str());
        else if (a == "--no-uninit") optUninit = false;
        else if (a == "-v") optVerbose = true;
        else if (a == "--version") { puts("symir 1"); return 0; }
        else bc = a;
    }
    tStart = now();
    cx = new Ctx();
    LLVMContext C;
    SMDiagnostic err;
    auto mod = parseIRFile(bc, err, C);
    if (!mod) { err.print("symir", errs()); return 2; }
    M = mod.get();
    DL = &M->getDataLayout();
    initBuiltins();
    globalsInit();
    // every function has an address
    solver.timeoutMs = solverTimeout;
    if (optMaxTime > 0) solver.deadline = Solver::nowS() + optMaxTime;
    solver.init();
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared();
    Function *ef = M->getFunction(entry);
    if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
    auto s0 = StateP(new State());
    s0->globs = gInit;
    // static constructors, run one by one to completion
    if (auto *gc = M->getNamedGlobal("llvm.global_ctors"))
        if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<uint64_t, Function *>> l;
            for (unsigned i = 0; i < arr->getNumOperands(); i++) {
                auto *cs = cast<ConstantStruct>(arr->getOperand(i));
                if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) l.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
            }
            std::stable_sort(l.begin(), l.end(), [](auto &a, auto &b) { return a.first < b.first; });
            for (auto &p : l) {
                std::vector<Val> none;
                pushCall(*s0, p.second, none, nullptr);
                try { for (;;) step(*s0); } catch (PathEnd &) {}
                if (!s0->fr.empty()) { fprintf(stderr, "static constructor %s failed\n", p.second->getName().str().c_str()); s0->fr.clear(); }
            }
        }
    usedFuncs.clear();
    st = Stats();
    s0->icount = 0;
    std::vector<Val> none;
    pushCall(*s0, ef, none, nullptr);
    work.push_back(std::move(s0));
    if (outDir.empty() || optJobs <= 1) {
        sh->idle = 0;
        explore(false);
        if (!outDir.empty()) writeResult(outDir + "/r0.json");
        fprintf(stderr, "paths=%llu insts=%llu asserts=%llu(q %llu) solver q=%llu hits=%llu t=%.2fs max=%.2f unk=%llu viol=%zu unsup=%llu inconcl=%llu leftover=%llu wall=%.2f\n", (unsigned long long)st.paths, (unsigned long long)st.insts,
                (unsigned long long)st.asserts, (unsigned long long)st.assertQ, (unsigned long long)solver.st.queries, (unsigned long long)solver.st.cacheHits, solver.st.time, solver.st.maxTime, (unsigned long long)solver.st.unknown, viols.size(), (unsigned long long)st.unsupported, (unsigned long long)st.inconclusive,
                (unsigned long long)st.leftover, now() - tStart);
        for (auto &p : unsupportedMsgs) fprintf(stderr, "  unsupported: %s x%llu\n", p.first.c_str(), (unsigned long long)p.second);
        for (auto &p : reached) fprintf(stderr, "  reached: %s x%llu\n", p.first.c_str(), (unsigned long long)p.second);
        fflush(stderr);
        _exit(0);
    }
    prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
    sh->idle = optJobs - 1;
    pid_t p = fork();
    if (p == 0) {
        explore(true);
        childExit();
    }
    int bad = 0, stt;
    while (wait(&stt) > 0)
        if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) { bad++; fprintf(stderr, "worker died: status %x\n", stt); sh->stop = 1; }
    fprintf(stderr, "wall=%.2f bad=%d\n", now() - tStart, bad);
    fflush(stderr);
    _exit(bad ? 3 : 0);
}
