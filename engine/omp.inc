// ---------------------------------------------------------------- OpenMP model
// A parallel region runs its threads one after another, switching at barriers.  Accesses of
// different threads (or unordered tasks) within one barrier phase are checked for conflicts, so a
// run without a reported race stands for every interleaving of the phase, up to the order in
// which critical sections / atomics / lock regions are entered (thread order is a path choice).
typedef void (*RtFn)(State &, DInst &, std::vector<Val> &, std::vector<Val> &);
struct OmpNode { int parent; bool joined; int vtid = -1; bool task = false; }; // vtid: thread taken to run it
struct Acc { int node; bool wr, at; std::vector<uint64_t> locks; E addr; unsigned bytes; };
typedef std::unordered_map<uint64_t, std::vector<Acc>> Shadow;
struct OThread {
    std::vector<std::shared_ptr<Frame>> fr;
    std::vector<ExcInfo> caught;
    bool waiting = false, done = false;
    int loopIdx = 0, singleIdx = 0;
    std::vector<uint64_t> locks;
    std::vector<int> node; // current node, innermost last
    int64_t extraBarrier = 0;
};
struct Team {
    int n = 1, cur = 0;
    std::vector<OThread> th;
    std::vector<std::shared_ptr<Frame>> masterFr;
    std::vector<ExcInfo> masterCaught;
    std::vector<LoopD> loops;
    std::vector<bool> single;
    std::vector<OmpNode> nodes;
    std::shared_ptr<Shadow> sh;
    std::map<uint64_t, int> lockOwner;
    int baseLevel = 0, taskCount = 0;
    uint64_t mark0 = 0;
};
TeamP::TeamP(const TeamP &o) { if (o.p) p = std::make_shared<Team>(*o.p); }
static int ompTid(State &s) { return s.team ? s.team->cur : 0; }
static bool ompPar(State &s) { return s.team && s.team->n > 1; }
static int ompNodeOf(State &s) { return s.team->th[s.team->cur].node.back(); }
static int ompVtid(State &s) { return ompPar(s) ? s.team->nodes[ompNodeOf(s)].vtid : ompTid(s); }

static bool ompOrdered(Team &t, int a, int b) { // access in a (earlier) happens before one in b (later)
    if (a == b) return true;
    if ((t.nodes[a].task || t.nodes[b].task) && t.nodes[a].vtid == t.nodes[b].vtid) return true; // one thread runs both
    // ancestors of b
    std::set<int> anc;
    for (int x = b; x >= 0; x = t.nodes[x].parent) anc.insert(x);
    if (anc.count(a)) return true;
    // climb from a while joined
    for (int x = a; x >= 0; x = t.nodes[x].parent) {
        if (anc.count(x)) return true;
        if (!t.nodes[x].joined) return false;
    }
    return false;
}
static void ompRace(State &s, bool wr, const Assign &as) {
    report(s, "race", wr ? "unsynchronised concurrent write" : "unsynchronised concurrent read of a location being written", as);
    throw PathEnd();
}
static bool ompCommonLock(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    for (auto x : a) for (auto y : b) if (x == y) return true;
    return false;
}
static const uint64_t ANYBYTE = ~0ull;
static void ompNote(State &s, const Val &a, uint64_t bytes, bool wr, bool atomic) {
    Team &t = *s.team;
    if (!t.sh) t.sh = std::make_shared<Shadow>();
    if (t.sh.use_count() > 1) t.sh = std::make_shared<Shadow>(*t.sh);
    int node = ompNodeOf(s);
    auto &locks = t.th[t.cur].locks;
    // an access through a symbolic address (only reads) is kept with its object under the slot key
    uint64_t v = a.e ? evalE(a.e, s.as) : a.c;
    const ObjP *p = findObj(s, v);
    if (!p || !*p) return;
    if ((*p)->kind == KConst) return;
    if ((*p)->kind == KStack) { // locals of the running thread created inside the region
        uint64_t k = ((*p)->base - STACKB) / STKSZ, id = (((*p)->base - STACKB) % STKSZ) / SLOT;
        if ((int)k == t.cur && id >= (k ? 0 : t.mark0)) return;
    }
    if ((*p)->kind == KGlobal) { auto *g = gList[gSlot[((*p)->base - GLOBB) / SLOT]]; if (g->isThreadLocal()) return; }
    uint64_t objKey = (*p)->base | (SLOT - 1); // no byte of small objects uses this key
    Shadow &sh = *t.sh;
    auto conflict = [&](const Acc &o) { return (o.wr || wr) && !(o.at && atomic) && !ompOrdered(t, o.node, node) && !ompCommonLock(o.locks, locks); };
    if (a.e) {
        // read at symbolic address: compare with the writes of the object
        Obj &o = *const_cast<Obj *>(p->get());
        uint64_t base = o.base, size = o.size;
        for (uint64_t b = base; b < base + size; b++) {
            auto it = sh.find(b);
            if (it == sh.end()) continue;
            for (auto &x : it->second)
                if (x.wr && conflict(x)) {
                    Assign as;
                    E c = mkCmp(OUlt, mkBin(OSub, mkConst(64, b), a.e), mkConst(64, bytes));
                    if (feasible(s, c, as) == 1) ompRace(s, wr, as);
                }
        }
        auto &l = sh[objKey];
        for (auto &x : l) if (x.node == node && x.addr == a.e && x.bytes == bytes && x.locks == locks) return;
        l.push_back({node, wr, atomic, locks, a.e, (unsigned)bytes});
        return;
    }
    if (wr) {
        auto it = sh.find(objKey);
        if (it != sh.end())
            for (auto &x : it->second)
                if (conflict(x)) {
                    Assign as;
                    // some byte of [v, v+bytes) inside [addr, addr+x.bytes)
                    E d1 = mkCmp(OUlt, mkBin(OSub, mkConst(64, v), x.addr), mkConst(64, x.bytes));
                    E d2 = mkCmp(OUlt, mkBin(OSub, x.addr, mkConst(64, v)), mkConst(64, bytes));
                    if (feasible(s, mkBin(OOr, d1, d2), as) == 1) ompRace(s, wr, as);
                }
    }
    for (uint64_t b = v; b < v + bytes; b++) {
        auto &l = sh[b];
        bool have = false;
        for (auto &x : l) {
            if (conflict(x)) ompRace(s, wr, s.as);
            if (x.node == node && x.at == atomic && x.locks == locks) { if (x.wr || !wr) have = true; }
        }
        if (!have) {
            if (l.size() > 24) l.erase(l.begin());
            l.push_back({node, wr, atomic, locks, nullptr, 1});
        }
    }
}
static void ompSwitchTo(State &s, int k) { // load thread k
    Team &t = *s.team;
    t.cur = k;
    s.tid = k;
    gRedirect = true;
    s.fr = std::move(t.th[k].fr);
    s.caught = std::move(t.th[k].caught);
    t.th[k].fr.clear();
    t.th[k].caught.clear();
}
static int ompFirst(State &s) { return s.ompDesc ? s.team->n - 1 : 0; }
static void ompFreshPhase(State &s) {
    Team &t = *s.team;
    t.sh = nullptr;
    t.nodes.clear();
    t.nodes.push_back({-1, false});
    int tn = -1;
    t.taskCount = 0;
    for (auto &x : t.th) {
        tn++;
        // keep task nesting depth
        size_t dpt = std::max<size_t>(1, x.node.size());
        x.node.clear();
        int par = 0;
        for (size_t i = 0; i < dpt; i++) { t.nodes.push_back({par, false, tn, i > 0}); par = (int)t.nodes.size() - 1; x.node.push_back(par); }
    }
}
// the current thread stops (barrier or end); its context has been saved
static void ompSchedule(State &s) {
    Team &t = *s.team;
    bool allDone = true;
    int dir = s.ompDesc ? -1 : 1;
    for (int i = ompFirst(s), c = 0; c < t.n; i += dir, c++) {
        if (t.th[i].done) continue;
        allDone = false;
        if (!t.th[i].waiting) { ompSwitchTo(s, i); return; }
    }
    if (allDone) {
        s.fr = std::move(t.masterFr);
        s.caught = std::move(t.masterCaught);
        s.ompLevel = t.baseLevel;
        s.tid = 0;
        s.team.reset();
        gRedirect = true;
        Frame &c = s.top();
        DInst &ci = c.f->ins[c.pc];
        for (uint32_t i = 0; i < ci.n; i++) c.r[ci.dst + i] = Val((uint64_t)0);
        finishCall(s);
        return;
    }
    for (auto &x : t.th) if (x.done) { report(s, "deadlock", "a thread of the team ends while others wait at a barrier", s.as); throw PathEnd(); }
    for (auto &x : t.th) x.waiting = false;
    ompFreshPhase(s);
    ompSwitchTo(s, ompFirst(s));
}
static bool ompThreadEnd(State &s) { // s.fr is empty
    if (!s.team) return false;
    Team &t = *s.team;
    t.th[t.cur].done = true;
    ompSchedule(s);
    return true;
}
// barrier: the call instruction is completed first, then the thread is suspended
static void ompBarrierHere(State &s) {
    if (!s.team || s.team->n == 1) return;
    Team &t = *s.team;
    t.th[t.cur].fr = std::move(s.fr);
    t.th[t.cur].caught = std::move(s.caught);
    s.fr.clear();
    s.caught.clear();
    t.th[t.cur].waiting = true;
    ompSchedule(s);
}
static void ompFrameEnd(State &s, int kind) {
    if (kind == 1) s.ompLevel--;
    else if (kind == 2 && ompPar(s)) s.team->th[s.team->cur].node.pop_back();
}
BI(ompGtid) { ret.push_back(Val((uint64_t)ompTid(s))); }
BI(ompPush) { int64_t n = sx(needC(s, a, 2), 32); s.ompPush = n < 1 ? 1 : (int)n; }
static void ompForkCall(State &s, DInst &d, std::vector<Val> &a) {
    Function *fn = nullptr;
    uint64_t fa = needC(s, a, 2);
    fn = fList[(fa - FUNCB) / 16 - 1];
    int n = s.ompPush ? s.ompPush : s.ompThreads;
    s.ompPush = 0;
    if (n > MAXT) n = MAXT;
    std::vector<Val> extra(a.begin() + 3, a.end());
    if (s.team) n = 1;
    if (n == 1) { // serialised region: an ordinary call
        uint64_t g = stackAlloc(s, 8);
        storeLeaf(s, Val(g), 4, Val((uint64_t)ompTid(s)));
        storeLeaf(s, Val(g + 4), 4, Val((uint64_t)0));
        std::vector<Val> args{Val(g), Val(g + 4)};
        for (auto &x : extra) args.push_back(x);
        s.ompLevel++;
        pushCall(s, fn, args, nullptr);
        s.top().ompEnd = 1;
        return;
    }
    s.team = TeamP(std::make_shared<Team>());
    Team &t = *s.team;
    t.n = n;
    t.th.resize(n);
    t.baseLevel = s.ompLevel;
    s.ompLevel = 0;
    t.mark0 = s.stk().n;
    t.masterFr = std::move(s.fr);
    t.masterCaught = std::move(s.caught);
    s.fr.clear();
    s.caught.clear();
    ompFreshPhase(s);
    for (int i = 0; i < n; i++) {
        t.cur = i;
        s.tid = i;
        uint64_t g = stackAlloc(s, 8);
        storeLeaf(s, Val(g), 4, Val((uint64_t)i));
        storeLeaf(s, Val(g + 4), 4, Val((uint64_t)0));
        std::vector<Val> args{Val(g), Val(g + 4)};
        for (auto &x : extra) args.push_back(x);
        pushCall(s, fn, args, nullptr);
        t.th[i].fr = std::move(s.fr);
        s.fr.clear();
    }
    t.sh = nullptr;
    ompSwitchTo(s, ompFirst(s));
}
BI(ompFork) { ompForkCall(s, d, a); }
template <int W, bool U> static void ompStaticInit(State &s, DInst &d, std::vector<Val> &a, std::vector<Val> &ret) {
    // loc gtid sched plast plower pupper pstride incr chunk
    unsigned by = W / 8;
    uint64_t pl = needC(s, a, 4), pu = needC(s, a, 5), ps = needC(s, a, 6), plast = needC(s, a, 3);
    auto ld = [&](uint64_t p) { Val v = loadLeaf(s, Val(p), by, W); uint64_t c = v.e ? concretize(s, v, W) : v.c; return U ? (int64_t)c : sx(c, W); };
    int64_t lo = ld(pl), hi = ld(pu), inc = sx(needC(s, a, 7), W), chunk = sx(needC(s, a, 8), W);
    bool par = ompPar(s) && s.ompLevel == 0; // a nested region has one thread
    int64_t T = par ? s.team->n : 1, tid = par ? ompTid(s) : 0;
    uint64_t sched = needC(s, a, 2) & 0xffff;
    auto put = [&](uint64_t p, int64_t v) { storeLeaf(s, Val(p), by, Val((uint64_t)v & maskw(W))); };
    int64_t trip = inc > 0 ? (hi < lo ? 0 : (hi - lo) / inc + 1) : (lo < hi ? 0 : (lo - hi) / (-inc) + 1);
    if (T == 1) { storeLeaf(s, Val(plast), 4, Val((uint64_t)1)); put(ps, inc > 0 ? hi - lo + 1 : -(lo - hi + 1)); return; }
    if (sched == 33) {
        if (chunk < 1) chunk = 1;
        int64_t last = trip ? ((trip - 1) / chunk) % T : 0;
        put(pl, lo + tid * chunk * inc);
        put(pu, lo + tid * chunk * inc + chunk * inc - inc);
        put(ps, chunk * inc * T);
        storeLeaf(s, Val(plast), 4, Val((uint64_t)(trip && last == tid)));
        return;
    }
    int64_t q = trip / T, r = trip % T;
    int64_t cnt = q + (tid < r ? 1 : 0), st0 = tid * q + std::min(tid, r);
    put(pl, lo + st0 * inc);
    put(pu, lo + (st0 + cnt - 1) * inc);
    put(ps, trip * inc);
    storeLeaf(s, Val(plast), 4, Val((uint64_t)(cnt > 0 && st0 + cnt == trip)));
}
template <int W, bool U> static void ompDispInit(State &s, DInst &d, std::vector<Val> &a, std::vector<Val> &ret) {
    LoopD l;
    auto g = [&](size_t i) { uint64_t c = needC(s, a, i); return U ? (int64_t)(c & maskw(W)) : sx(c, W); };
    l.lb = g(3); l.ub = g(4); l.st = sx(needC(s, a, 5), W); l.chunk = sx(needC(s, a, 6), W);
    if (l.chunk < 1) l.chunk = 1;
    l.n = l.st > 0 ? (l.ub < l.lb ? 0 : (uint64_t)(l.ub - l.lb) / l.st + 1) : (l.lb < l.ub ? 0 : (uint64_t)(l.lb - l.ub) / (-l.st) + 1);
    if (!s.team) { s.soloLoops.push_back(l); s.soloLoops.back().pos.assign(1, 0); return; }
    Team &t = *s.team;
    auto &th = t.th[t.cur];
    if (s.ompLevel > 0) { s.soloLoops.push_back(l); s.soloLoops.back().pos.assign(1, 0); return; }
    if ((int)t.loops.size() <= th.loopIdx) { t.loops.push_back(l); t.loops.back().pos.assign(t.n, 0); for (int i = 0; i < t.n; i++) t.loops.back().pos[i] = i; }
}
template <int W> static void ompDispNext(State &s, DInst &d, std::vector<Val> &a, std::vector<Val> &ret) {
    // loc gtid plast plb pub pst
    unsigned by = W / 8;
    bool solo = !s.team || s.ompLevel > 0;
    LoopD *l;
    uint64_t *pos, step = 1;
    if (solo) { l = &s.soloLoops.back(); pos = &l->pos[0]; }
    else { Team &t = *s.team; l = &t.loops[t.th[t.cur].loopIdx]; pos = &l->pos[t.cur]; step = t.n; }
    uint64_t first = *pos * l->chunk;
    if (first >= l->n) {
        if (solo) s.soloLoops.pop_back();
        else s.team->th[s.team->cur].loopIdx++;
        ret.push_back(Val((uint64_t)0));
        return;
    }
    uint64_t last = std::min<uint64_t>(first + l->chunk, l->n) - 1;
    *pos += step;
    int64_t lo = l->lb + (int64_t)first * l->st, hi = l->lb + (int64_t)last * l->st, sst = l->st;
    bool isl = last == l->n - 1;
    storeLeaf(s, Val(needC(s, a, 2)), 4, Val((uint64_t)isl));
    storeLeaf(s, Val(needC(s, a, 3)), by, Val((uint64_t)lo & maskw(W)));
    storeLeaf(s, Val(needC(s, a, 4)), by, Val((uint64_t)hi & maskw(W)));
    storeLeaf(s, Val(needC(s, a, 5)), by, Val((uint64_t)sst & maskw(W)));
    ret.push_back(Val((uint64_t)1));
}
BI(ompBarrier) {
    if (!ompPar(s) || s.ompLevel > 0) return;
    if (s.team->th[s.team->cur].locks.size()) { report(s, "deadlock", "barrier inside a critical section", s.as); throw PathEnd(); }
    finishCall(s);
    ompBarrierHere(s);
}
BI(ompSingle) {
    if (!ompPar(s) || s.ompLevel > 0) { ret.push_back(Val((uint64_t)1)); return; }
    Team &t = *s.team;
    int i = t.th[t.cur].singleIdx++;
    if ((int)t.single.size() <= i) { t.single.push_back(true); ret.push_back(Val((uint64_t)1)); return; }
    ret.push_back(Val((uint64_t)0));
}
BI(ompMaster) { ret.push_back(Val((uint64_t)(s.ompLevel > 0 || ompTid(s) == 0))); }
static void ompAcquire(State &s, uint64_t k) {
    if (!ompPar(s)) return;
    Team &t = *s.team;
    auto it = t.lockOwner.find(k);
    if (it != t.lockOwner.end()) { report(s, "deadlock", "lock taken while it is held", s.as); throw PathEnd(); }
    t.lockOwner[k] = t.cur;
    t.th[t.cur].locks.push_back(k);
}
static void ompRelease(State &s, uint64_t k) {
    if (!ompPar(s)) return;
    Team &t = *s.team;
    t.lockOwner.erase(k);
    auto &l = t.th[t.cur].locks;
    for (size_t i = 0; i < l.size(); i++) if (l[i] == k) { l.erase(l.begin() + i); break; }
}
BI(ompCrit) { ompAcquire(s, needC(s, a, 2)); }
BI(ompEndCrit) { ompRelease(s, needC(s, a, 2)); }
BI(ompReduce) { ompAcquire(s, needC(s, a, 6)); ret.push_back(Val((uint64_t)1)); }
BI(ompEndReduceNW) { ompRelease(s, needC(s, a, 2)); }
BI(ompEndReduce) { ompRelease(s, needC(s, a, 2)); if (ompPar(s) && s.ompLevel == 0) { finishCall(s); ompBarrierHere(s); } }
BI(ompInitLock) { storeLeaf(s, Val(needC(s, a, 0)), 8, Val((uint64_t)0)); }
BI(ompSetLock) { ompAcquire(s, needC(s, a, 0)); }
BI(ompUnsetLock) { ompRelease(s, needC(s, a, 0)); }
BI(ompTestLock) {
    uint64_t k = needC(s, a, 0);
    if (ompPar(s) && s.team->lockOwner.count(k)) { ret.push_back(Val((uint64_t)0)); return; }
    ompAcquire(s, k);
    ret.push_back(Val((uint64_t)1));
}
// tasks: kmp_task_t { void *shareds; routine; int part_id; ... }
BI(ompTaskAlloc) {
    uint64_t sz = needC(s, a, 3), sh = needC(s, a, 4), fn = needC(s, a, 5);
    uint64_t off = (sz + 15) / 16 * 16;
    uint64_t p = heapAlloc(s, off + sh + 16, KMalloc, false);
    const ObjP *o = findObj(s, p);
    writable(s, o).kind = KNewArr; // runtime-owned
    s.excObjs.insert(p);           // not part of leak checks
    Val v(p + off);
    writeN(s, writable(s, findObj(s, p)), 0, 8, v);
    writeN(s, writable(s, findObj(s, p)), 8, 8, Val(fn));
    ret.push_back(Val(p));
}
BI(ompTask) {
    uint64_t tk = needC(s, a, 2);
    uint64_t fa = readN(s, findObj(s, tk), 8, 8).c;
    Function *fn = fList[(fa - FUNCB) / 16 - 1];
    uint64_t vt = ompTid(s);
    if (ompPar(s)) {
        Team &t = *s.team;
        auto &st = t.th[t.cur].node;
        t.nodes.push_back({st.back(), false, (t.cur + 1 + t.taskCount++) % t.n, true});
        st.push_back((int)t.nodes.size() - 1);
        vt = t.nodes.back().vtid;
    }
    std::vector<Val> args{Val(vt), Val(tk)};
    pushCall(s, fn, args, nullptr);
    s.top().ompEnd = 2;
}
BI(ompTaskWait) {
    if (ompPar(s)) { int me = ompNodeOf(s); for (auto &n : s.team->nodes) if (n.parent == me) n.joined = true; }
    ret.push_back(Val((uint64_t)0));
}
BI(ompTaskGroupEnd) {
    if (ompPar(s)) {
        int me = ompNodeOf(s);
        auto &nd = s.team->nodes;
        for (size_t i = 0; i < nd.size(); i++) for (int x = nd[i].parent; x >= 0; x = nd[x].parent) if (x == me) { nd[i].joined = true; break; }
    }
}
BI(ompGetMaxThreads) { ret.push_back(Val((uint64_t)s.ompThreads)); }
BI(ompGetNumThreads) { ret.push_back(Val((uint64_t)(ompPar(s) && s.ompLevel == 0 ? s.team->n : 1))); }
BI(ompGetThreadNum) { ret.push_back(Val((uint64_t)(s.ompLevel > 0 ? 0 : ompVtid(s)))); }
BI(ompGetLevel) { ret.push_back(Val((uint64_t)((s.team ? 1 + s.team->baseLevel : 0) + s.ompLevel))); }
BI(ompInParallel) { ret.push_back(Val((uint64_t)(ompPar(s) ? 1 : 0))); }
BI(ompSetNumThreads) { int64_t n = sx(needC(s, a, 0), 32); s.ompThreads = n < 1 ? 1 : n > MAXT ? MAXT : (int)n; }
BI(ompGetLevels) { ret.push_back(Val((uint64_t)(uint32_t)s.ompMaxLevels)); }
BI(ompSetLevels) { s.ompMaxLevels = (int)sx(needC(s, a, 0), 32); }
BI(symOmp) { // threads, descending order
    int64_t n = sx(needC(s, a, 0), 32);
    s.ompThreads = n < 1 ? 1 : n > MAXT ? MAXT : (int)n;
    s.ompDesc = needC(s, a, 1) != 0;
}
BI(ompSerBegin) { s.ompLevel++; }
BI(ompSerEnd) { s.ompLevel--; }
static void initOmp() {
    auto &b = builtins;
    b["__kmpc_global_thread_num"] = ompGtid; b["__kmpc_push_num_threads"] = ompPush; b["__kmpc_fork_call"] = ompFork;
    b["__kmpc_for_static_init_4"] = ompStaticInit<32, false>; b["__kmpc_for_static_init_4u"] = ompStaticInit<32, true>;
    b["__kmpc_for_static_init_8"] = ompStaticInit<64, false>; b["__kmpc_for_static_init_8u"] = ompStaticInit<64, true>;
    b["__kmpc_for_static_fini"] = biNop;
    b["__kmpc_dispatch_init_4"] = ompDispInit<32, false>; b["__kmpc_dispatch_init_4u"] = ompDispInit<32, true>;
    b["__kmpc_dispatch_init_8"] = ompDispInit<64, false>; b["__kmpc_dispatch_init_8u"] = ompDispInit<64, true>;
    b["__kmpc_dispatch_next_4"] = b["__kmpc_dispatch_next_4u"] = ompDispNext<32>;
    b["__kmpc_dispatch_next_8"] = b["__kmpc_dispatch_next_8u"] = ompDispNext<64>;
    for (auto n : {"__kmpc_dispatch_fini_4", "__kmpc_dispatch_fini_4u", "__kmpc_dispatch_fini_8", "__kmpc_dispatch_fini_8u", "__kmpc_dispatch_deinit", "__kmpc_flush", "__kmpc_end_single", "__kmpc_end_master", "__kmpc_end_masked", "__kmpc_taskgroup", "__kmpc_omp_task_begin_if0", "__kmpc_omp_task_complete_if0", "omp_set_dynamic", "omp_set_nested", "omp_destroy_lock"}) b[n] = biNop;
    b["__kmpc_barrier"] = ompBarrier; b["__kmpc_single"] = ompSingle; b["__kmpc_master"] = b["__kmpc_masked"] = ompMaster;
    b["__kmpc_critical"] = b["__kmpc_critical_with_hint"] = ompCrit; b["__kmpc_end_critical"] = ompEndCrit;
    b["__kmpc_reduce"] = b["__kmpc_reduce_nowait"] = ompReduce; b["__kmpc_end_reduce_nowait"] = ompEndReduceNW; b["__kmpc_end_reduce"] = ompEndReduce;
    b["__kmpc_omp_task_alloc"] = ompTaskAlloc; b["__kmpc_omp_task"] = ompTask; b["__kmpc_omp_taskwait"] = ompTaskWait; b["__kmpc_end_taskgroup"] = ompTaskGroupEnd;
    b["__kmpc_serialized_parallel"] = ompSerBegin; b["__kmpc_end_serialized_parallel"] = ompSerEnd;
    b["omp_get_max_threads"] = ompGetMaxThreads; b["omp_get_num_threads"] = ompGetNumThreads; b["omp_get_thread_num"] = ompGetThreadNum;
    b["omp_get_level"] = ompGetLevel; b["omp_in_parallel"] = ompInParallel; b["omp_set_num_threads"] = ompSetNumThreads; b["omp_get_num_procs"] = ompGetMaxThreads;
    b["omp_get_max_active_levels"] = ompGetLevels; b["omp_set_max_active_levels"] = ompSetLevels;
    b["omp_init_lock"] = ompInitLock; b["omp_set_lock"] = ompSetLock; b["omp_unset_lock"] = ompUnsetLock; b["omp_test_lock"] = ompTestLock;
    b["sym_omp"] = symOmp; b["omp_get_wtime"] = biZero;
}
