// symir: path-exploring symbolic executor for LLVM IR (see DESIGN.md)
#include "solver.hpp"
#include <atomic>
#include <cstdarg>
#include <deque>
#include <fstream>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace llvm;
typedef unsigned __int128 u128;

static Module *M;
static const DataLayout *DL;
static Solver solver;

// ------------------------------------------------------------------ options
static double optMaxTime = 600;
static int optJobs = 1;
static uint64_t optMaxInst = 200000000ull;
static int optMaxViol = 20;
static int optMaxCand = 300;
static bool optVerbose = false;
static bool optUninit = true;
static int optForkStore = 64;

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static double tStart;

// ------------------------------------------------------------------- memory
struct SymB { E e = nullptr; uint8_t i = 0; };
enum { KGlobal, KStack, KMalloc, KNew, KNewArr, KConst, KFunc };
struct Obj {
    uint64_t base = 0, size = 0;
    uint8_t kind = 0;
    bool freed = false;
    std::vector<uint8_t> b;
    std::vector<SymB> s;       // empty when no symbolic byte
    std::vector<uint64_t> un;  // uninitialised bitmap, empty when everything is initialised
    bool isUn(uint64_t o) const { return !un.empty() && ((un[o >> 6] >> (o & 63)) & 1); }
    void clrUn(uint64_t o) { if (!un.empty()) un[o >> 6] &= ~(1ull << (o & 63)); }
};
typedef std::shared_ptr<Obj> ObjP;
static const uint64_t SLOT = 1ull << 20;
static const uint64_t STKSZ = 1ull << 36;
static const uint64_t HEAPB = 1ull << 40, STACKB = 1ull << 41, GLOBB = 1ull << 42, FUNCB = 1ull << 43;

struct Table {
    static const int CH = 64;
    struct Chunk { ObjP o[CH]; };
    std::vector<std::shared_ptr<Chunk>> ch;
    uint64_t n = 0;
    const ObjP *get(uint64_t id) const {
        if (id >= n) return nullptr;
        auto &c = ch[id / CH];
        if (!c) return nullptr;
        return &c->o[id % CH];
    }
    ObjP &slot(uint64_t id) {
        while (id >= ch.size() * CH) ch.push_back(std::make_shared<Chunk>());
        if (id >= n) n = id + 1;
        auto &c = ch[id / CH];
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        return c->o[id % CH];
    }
    void truncate(uint64_t nn) { // drop objects with id >= nn
        for (uint64_t i = nn; i < n; i++) slot(i) = nullptr;
        n = nn;
    }
};

// ---------------------------------------------------------------- functions
struct Leaf { uint32_t off; uint8_t w; uint8_t bytes; };
struct TI { std::vector<Leaf> l; uint64_t size; };
static std::unordered_map<Type *, TI *> tis;
static void flatten(Type *t, uint32_t off, std::vector<Leaf> &out) {
    if (t->isIntegerTy()) {
        unsigned w = t->getIntegerBitWidth();
        if (w <= 64) { out.push_back({off, (uint8_t)w, (uint8_t)((w + 7) / 8)}); return; }
        if (w <= 128) {
            out.push_back({off, 64, 8});
            out.push_back({off + 8, 64, 8});
            return;
        }
        // wide integers (only moved around): split into 64-bit parts
        for (unsigned i = 0; i < w; i += 64) { unsigned p = std::min(64u, w - i); out.push_back({off + i / 8, (uint8_t)p, (uint8_t)((p + 7) / 8)}); }
        return;
    }
    if (t->isPointerTy() || t->isDoubleTy()) { out.push_back({off, 64, 8}); return; }
    if (t->isFloatTy()) { out.push_back({off, 32, 4}); return; }
    if (t->isHalfTy() || t->isBFloatTy()) { out.push_back({off, 16, 2}); return; }
    if (t->isX86_FP80Ty()) { out.push_back({off, 64, 8}); return; }
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
        return;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out);
        return;
    }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
        Type *et = vt->getElementType();
        if (et->isIntegerTy(1)) { // packed bits: not addressable here
            for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back({off + i, 1, 1});
            return;
        }
        uint64_t es = DL->getTypeStoreSize(et);
        for (unsigned i = 0; i < vt->getNumElements(); i++) flatten(et, off + i * es, out);
        return;
    }
    if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return;
    if (t->isEmptyTy()) return;
    errs() << "unsupported type " << *t << "\n";
    abort();
}
static TI *ti(Type *t) {
    auto it = tis.find(t);
    if (it != tis.end()) return it->second;
    TI *r = new TI();
    flatten(t, 0, r->l);
    r->size = t->isSized() ? DL->getTypeAllocSize(t).getFixedValue() : 0;
    return tis[t] = r;
}

struct DOp { int32_t s = 0; };
struct DBlock;
struct DInst {
    uint16_t op = 0;
    uint8_t w = 0, w2 = 0;
    uint32_t dst = 0;
    uint32_t n = 0;
    DOp a, b, c;
    Instruction *I = nullptr;
    std::vector<DOp> ops;      // call args / gep indices / phi
    std::vector<int64_t> sc;   // gep scales, phi, etc.
    int64_t k = 0;
    TI *t = nullptr;
    int32_t t1 = -1, t2 = -1;  // block targets
    void *ex = nullptr;
};
struct DBlockS { uint32_t first, nphi; BasicBlock *bb; };
struct DFunc {
    Function *F;
    std::vector<DInst> ins;
    std::vector<DBlockS> blocks;
    std::vector<Val> consts;
    uint32_t nregs = 0;
    std::vector<std::pair<uint32_t, uint32_t>> args; // slot, n
    std::string name;
    uint64_t calls = 0;
};
static std::unordered_map<Function *, DFunc *> dfuncs;

struct Frame {
    DFunc *f;
    std::vector<Val> r;
    uint32_t pc = 0;
    uint32_t bb = 0, prev = 0;
    uint32_t retDst = 0, retN = 0;
    int32_t normal = -1, unwind = -1; // for invoke, blocks in the caller
    uint64_t stackMark = 0;
    std::vector<Val> va; // variadic args
    std::vector<uint8_t> vaFP;
    uint8_t ompEnd = 0;
};
struct ExcInfo { uint64_t ptr, type; };
struct Input { std::string name; uint8_t kind; Val v; uint8_t w; };

struct Team;
struct TeamP { // deep-copied on copy
    std::shared_ptr<Team> p;
    TeamP() {}
    TeamP(std::shared_ptr<Team> q) : p(q) {}
    TeamP(const TeamP &o);
    TeamP &operator=(const TeamP &o) = delete;
    TeamP &operator=(TeamP &&o) { p = std::move(o.p); return *this; }
    Team *operator->() const { return p.get(); }
    Team &operator*() const { return *p; }
    explicit operator bool() const { return (bool)p; }
    void reset() { p.reset(); }
};
static const int MAXT = 4;
struct LoopD { int64_t lb, ub, st, chunk; uint64_t n; std::vector<uint64_t> pos; };
struct State {
    std::vector<std::shared_ptr<Frame>> fr;
    Table heap, stacks[MAXT];
    TeamP team;
    int tid = 0;
    int ompThreads = 1, ompPush = 0, ompLevel = 0, ompMaxLevels = 1;
    bool ompDesc = false;
    std::vector<LoopD> soloLoops;
    Table &stk() { return stacks[tid]; }
    std::vector<ObjP> globs; // index by global id (copy on write)
    std::vector<E> cons;
    Assign as;
    std::vector<Input> inputs;
    std::map<std::string, int> nameCnt;
    std::vector<ExcInfo> caught;
    uint64_t excPtr = 0, excType = 0;
    int oom = 0, oomUsed = 0;
    bool oomFail = false;
    std::set<uint64_t> excObjs;
    std::map<uint64_t, std::pair<uint64_t, uint64_t>> excDtor;
    uint64_t rethrown = 0;
    std::map<std::string, int64_t> chooseFrom;
    uint64_t leakMark = 0;
    uint64_t icount = 0;
    uint64_t depth = 0;
    int uncaught = 0;
    Frame &top() { // writable
        auto &p = fr.back();
        if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
        return *p;
    }
};
typedef std::unique_ptr<State> StateP;

static std::vector<StateP> work;

// ---------------------------------------------------------------- statistics
struct Stats {
    uint64_t paths = 0, forks = 0, insts = 0, asserts = 0, assertQ = 0, memq = 0, inconclusive = 0, unsupported = 0, assumed = 0, killed = 0, branches = 0, leftover = 0;
} st;
struct Viol { std::string kind, msg, loc, stack; std::vector<std::pair<std::string, std::string>> inputs; };
static std::vector<Viol> viols;
static std::map<std::string, uint64_t> reached;
static std::map<std::string, uint64_t> unsupportedMsgs;
static std::set<std::string> violKeys;
static std::set<DFunc *> usedFuncs;

static std::string demang(const std::string &s) { return llvm::demangle(s); }
static std::string fnShort(const std::string &n) {
    std::string d = demang(n);
    auto p = d.find('(');
    // keep operator()
    if (p != std::string::npos) d = d.substr(0, p);
    return d;
}
static std::string locOf(Instruction *I) {
    if (I)
        if (auto dl = I->getDebugLoc()) {
            DILocation *L = dl.get();
            std::string f = L->getFilename().str();
            return f + ":" + std::to_string(L->getLine());
        }
    return "?";
}
static Instruction *curI(State &s) {
    if (s.fr.empty()) return nullptr;
    auto &f = *s.fr.back();
    if (f.pc < f.f->ins.size()) return f.f->ins[f.pc].I;
    return nullptr;
}
static std::string srcLoc(State &s, std::string *fn = nullptr) {
    // innermost frame whose location is inside the repository, else innermost
    for (int i = (int)s.fr.size() - 1; i >= 0; i--) {
        auto &f = *s.fr[i];
        Instruction *I = f.pc < f.f->ins.size() ? f.f->ins[f.pc].I : nullptr;
        // walk inlined-at chain
        if (I)
            if (DILocation *L = I->getDebugLoc().get())
                for (; L; L = L->getInlinedAt()) {
                    std::string file = L->getFilename().str(), dir = L->getDirectory().str();
                    std::string full = file.size() && file[0] == '/' ? file : dir + "/" + file;
                    if (full.find("/repo/") != std::string::npos) {
                        if (fn) {
                            auto *sp = L->getScope()->getSubprogram();
                            *fn = sp ? sp->getName().str() : "";
                        }
                        return full + ":" + std::to_string(L->getLine());
                    }
                }
    }
    return locOf(curI(s));
}
static std::string btrace(State &s) {
    std::string r;
    int n = 0;
    for (int i = (int)s.fr.size() - 1; i >= 0 && n < 12; i--, n++) {
        auto &f = *s.fr[i];
        Instruction *I = f.pc < f.f->ins.size() ? f.f->ins[f.pc].I : nullptr;
        r += fnShort(f.f->name) + "@" + locOf(I) + " <- ";
    }
    return r;
}
static std::string fmtVal(const Input &in, uint64_t v) {
    char buf[64];
    snprintf(buf, sizeof buf, "%llu", (unsigned long long)v);
    return buf;
}
static void report(State &s, const std::string &kind, const std::string &msg, const Assign &as) {
    std::string fn;
    std::string loc = srcLoc(s, &fn);
    std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : fn);
    if (violKeys.count(key)) return;
    violKeys.insert(key);
    Viol v;
    v.kind = kind;
    v.msg = msg;
    v.loc = loc + (fn.empty() ? "" : " in " + fn);
    v.stack = btrace(s);
    for (auto &in : s.inputs) v.inputs.push_back({in.name, fmtVal(in, evalV(in.v, as))});
    viols.push_back(v);
    if (optVerbose) {
        fprintf(stderr, "VIOL %s: %s at %s\n   %s\n", kind.c_str(), msg.c_str(), v.loc.c_str(), v.stack.c_str());
        for (auto &p : v.inputs) fprintf(stderr, "   %s=%s\n", p.first.c_str(), p.second.c_str());
    }
}
struct PathEnd {};
static void unsupported(State &s, const std::string &m) {
    st.unsupported++;
    unsupportedMsgs[m + " in " + (s.fr.empty() ? std::string("?") : fnShort(s.fr.back()->f->name))]++;
    if (optVerbose) fprintf(stderr, "UNSUPPORTED %s\n   %s\n", m.c_str(), btrace(s).c_str());
    throw PathEnd();
}

// ------------------------------------------------------------------ feasibility
static int feasible(State &s, E cond, Assign &out) {
    if (cond->op == OConst) return cond->cval ? 1 : 0;
    out = s.as;
    {
        E nc = mkNot(cond);
        for (E c : s.cons) {
            if (c == cond) return 1;
            if (c == nc) return 0;
        }
    }
    std::vector<E> q{cond};
    // closure over shared variables
    static std::vector<uint32_t> mark;
    static uint32_t ep = 0;
    ep++;
    if (mark.size() < cx->vars.size()) mark.resize(cx->vars.size() + 64, 0);
    for (auto v : *cond->vars) mark[v] = ep;
    static std::vector<uint8_t> used;
    used.assign(s.cons.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < s.cons.size(); i++) {
            if (used[i]) continue;
            bool hit = false;
            for (auto v : *s.cons[i]->vars) if (mark[v] == ep) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1;
            q.push_back(s.cons[i]);
            for (auto v : *s.cons[i]->vars) if (mark[v] != ep) { mark[v] = ep; ch = true; }
        }
    }
    bool fp = false;
    for (E e : q) fp |= e->hasFP;
    int r = solver.check(q, out);
    if (r == 1 && fp) {
        cx->epoch++;
        for (E e : q) if (!evalRec(e, out)) { st.inconclusive++; return -1; }
    }
    if (r < 0) st.inconclusive++;
    return r;
}
static bool holdsNow(State &s, E cond) { return evalE(cond, s.as) & 1; }

static StateP cloneState(State &s) {
    st.forks++;
    StateP n(new State(s));
    n->depth++;
    return n;
}
static void addCons(State &s, E c) { if (c->op != OConst) s.cons.push_back(c); }

// Fork: continue with cond in s; other branch (re-executing the current instruction) is queued
// when feasible. Requires that cond holds under s.as.
static void assumeTrueForkOther(State &s, E cond) {
    if (cond->op == OConst) return;
    E nc = mkNot(cond);
    Assign o;
    int r = feasible(s, nc, o);
    if (r == 1) {
        StateP n = cloneState(s);
        addCons(*n, nc);
        n->as = o;
        work.push_back(std::move(n));
    }
    addCons(s, cond);
}
static uint64_t concretize(State &s, const Val &v, unsigned w) {
    if (!v.e) return v.c;
    uint64_t c = evalE(v.e, s.as);
    E eq = mkCmp(OEq, v.e, mkConst(v.e->w, c));
    assumeTrueForkOther(s, eq);
    return c;
}

// --------------------------------------------------------------------- memory
static std::vector<uint32_t> gSlot;
static std::unordered_map<GlobalVariable *, uint64_t> gIds;
static std::vector<ObjP> gInit; // template globals
static std::vector<GlobalVariable *> gList; // a thread-local one once per thread, consecutively
static const int TLSN = 8;
static int ompVtid(State &s);
static void unsupported(State &s, const std::string &m);
static std::unordered_map<Function *, uint64_t> fAddr;
static std::vector<Function *> fList;

static void setObj(Obj &o, uint64_t base, uint64_t size, int kind, bool uninit) {
    o.base = base; o.size = size; o.kind = kind;
    o.b.assign(size, 0);
    if (uninit && optUninit) o.un.assign((size + 63) / 64, ~0ull);
}
static uint64_t heapAlloc(State &s, uint64_t size, int kind, bool uninit = true) {
    uint64_t id = s.heap.n;
    if (id == 0) id = 1;
    uint64_t slots = (size + SLOT / 2) / SLOT + 1;
    auto o = std::make_shared<Obj>();
    uint64_t base = HEAPB + id * SLOT;
    setObj(*o, base, size, kind, uninit);
    s.heap.slot(id) = o;
    for (uint64_t i = 1; i < slots; i++) s.heap.slot(id + i) = nullptr;
    return base;
}
static uint64_t stackAlloc(State &s, uint64_t size) {
    Table &tb = s.stk();
    uint64_t id = tb.n;
    if (id == 0) id = 1;
    uint64_t slots = (size + SLOT / 2) / SLOT + 1;
    auto o = std::make_shared<Obj>();
    uint64_t base = STACKB + s.tid * STKSZ + id * SLOT;
    setObj(*o, base, size, KStack, true);
    tb.slot(id) = o;
    for (uint64_t i = 1; i < slots; i++) tb.slot(id + i) = nullptr;
    return base;
}
// find the object containing the address (or whose slot it is in)
static const ObjP *findObj(State &s, uint64_t a) {
    Table *t = nullptr;
    uint64_t id = 0;
    if (a >= GLOBB && a < FUNCB) {
        id = (a - GLOBB) / SLOT;
        // globals may span slots: gmap
        if (id >= gSlot.size()) return nullptr;
        uint32_t g = gSlot[id];
        if (g == ~0u) return nullptr;
        if (s.team && gList[g]->isThreadLocal()) { // a pointer to one designates the running thread's copy
            int t = ompVtid(s);
            if (t >= TLSN) { unsupported(s, "too many threads for thread-local variables"); return nullptr; }
            g += t;
        }
        return &s.globs[g];
    }
    if (a >= STACKB && a < GLOBB) { uint64_t k = (a - STACKB) / STKSZ; if (k >= (uint64_t)MAXT) return nullptr; t = &s.stacks[k]; id = ((a - STACKB) % STKSZ) / SLOT; }
    else if (a >= HEAPB && a < STACKB) { t = &s.heap; id = (a - HEAPB) / SLOT; }
    else return nullptr;
    // walk back over continuation slots
    const ObjP *p = t->get(id);
    uint64_t back = 0;
    while (p && !*p && id > 0 && back < 4096) { id--; back++; p = t->get(id); }
    if (!p || !*p) return nullptr;
    if (back && a >= (*p)->base + (*p)->size + SLOT) return nullptr;
    return p;
}
static Obj &writable(State &s, const ObjP *p) {
    ObjP &q = const_cast<ObjP &>(*p);
    uint64_t base = q->base;
    if (base >= GLOBB) {
        if (q.use_count() > 1) q = std::make_shared<Obj>(*q);
        return *q;
    }
    Table &t = base >= STACKB ? s.stacks[(base - STACKB) / STKSZ] : s.heap;
    uint64_t id = base >= STACKB ? ((base - STACKB) % STKSZ) / SLOT : (base - HEAPB) / SLOT;
    ObjP &sl = t.slot(id);
    if (sl.use_count() > 1) sl = std::make_shared<Obj>(*sl);
    return *sl;
}

static Val uninitByte(State &s, Obj &o, uint64_t off) {
    std::string nm = "uninit_" + std::to_string(o.base) + "_" + std::to_string(off);
    static std::unordered_map<std::string, E> memo;
    auto it = memo.find(nm);
    E v;
    if (it != memo.end()) v = it->second;
    else { v = mkVar(nm, 8, 255, true); memo[nm] = v; }
    return Val(v);
}
static void ensureSym(Obj &o) { if (o.s.empty()) o.s.resize(o.size); }

static Val readN(State &s, const ObjP *pp, uint64_t off, unsigned bytes) {
    const Obj *o = pp->get();
    if (!o->un.empty()) {
        bool any = false;
        for (unsigned i = 0; i < bytes; i++) any |= o->isUn(off + i);
        if (any) {
            Obj &w = writable(s, pp);
            ensureSym(w);
            for (unsigned i = 0; i < bytes; i++)
                if (w.isUn(off + i)) { w.s[off + i].e = uninitByte(s, w, off + i).e; w.s[off + i].i = 0; w.clrUn(off + i); }
            o = &w;
        }
    }
    if (!o->s.empty()) {
        bool any = false;
        for (unsigned i = 0; i < bytes; i++) any |= o->s[off + i].e != nullptr;
        if (any) {
            E e0 = o->s[off].e;
            if (e0 && o->s[off].i == 0 && (e0->w + 7u) / 8 == bytes) {
                bool same = true;
                for (unsigned i = 1; i < bytes && same; i++) same = o->s[off + i].e == e0 && o->s[off + i].i == i;
                if (same) return Val(mkZExt(e0, bytes * 8));
            }
            E r = nullptr;
            for (unsigned i = 0; i < bytes; i++) {
                E by;
                if (o->s[off + i].e) {
                    E x = o->s[off + i].e;
                    unsigned lo = o->s[off + i].i * 8;
                    unsigned rem = x->w - lo;
                    by = rem >= 8 ? mkExtract(x, lo, 8) : mkZExt(mkExtract(x, lo, rem), 8);
                } else by = mkConst(8, o->b[off + i]);
                r = r ? mkConcat(by, r) : by;
            }
            return toV(r);
        }
    }
    uint64_t v = 0;
    memcpy(&v, &o->b[off], bytes);
    return Val(v);
}
static void writeN(State &s, Obj &o, uint64_t off, unsigned bytes, const Val &v) {
    if (!o.un.empty()) for (unsigned i = 0; i < bytes; i++) o.clrUn(off + i);
    if (v.e) {
        ensureSym(o);
        for (unsigned i = 0; i < bytes; i++) {
            if (i * 8 < v.e->w) { o.s[off + i].e = v.e; o.s[off + i].i = i; }
            else { o.s[off + i].e = nullptr; o.b[off + i] = 0; }
        }
        return;
    }
    if (!o.s.empty()) for (unsigned i = 0; i < bytes; i++) o.s[off + i].e = nullptr;
    memcpy(&o.b[off], &v.c, bytes);
}

static const char *kindName(int k) { return k == KStack ? "stack" : k == KGlobal || k == KConst ? "global" : "heap"; }

static void memError(State &s, uint64_t a, unsigned bytes, bool wr, const ObjP *p) {
    std::string m;
    if (a < 65536) m = std::string("null-pointer ") + (wr ? "write" : "read");
    else if (p && *p && (*p)->freed) m = std::string("use-after-free ") + (wr ? "write" : "read");
    else if (p && *p) m = std::string(kindName((*p)->kind)) + "-buffer-overflow " + (wr ? "write" : "read");
    else m = std::string("wild-pointer ") + (wr ? "write" : "read");
    report(s, "memory", m, s.as);
    if (optVerbose) fprintf(stderr, "  addr=%llx bytes=%u obj=%llx size=%llu\n", (unsigned long long)a, bytes, p && *p ? (unsigned long long)(*p)->base : 0, p && *p ? (unsigned long long)(*p)->size : 0);
    st.killed++;
    throw PathEnd();
}
static const ObjP *resolveC(State &s, uint64_t a, unsigned bytes, bool wr) {
    const ObjP *p = findObj(s, a);
    if (!p || !*p) memError(s, a, bytes, wr, p);
    const Obj &o = **p;
    if (o.freed || a < o.base || a + bytes > o.base + o.size) memError(s, a, bytes, wr, p);
    if (wr && o.kind == KConst) { report(s, "memory", "write to constant", s.as); throw PathEnd(); }
    return p;
}
// Signed value = g*q + r (g == 0: exactly r). Address arithmetic in 64 bits is taken not to overflow (the
// access check bounds it anyway); at smaller widths only what survives wrapping (the power of two part) is kept.
static uint64_t smod(int64_t v, uint64_t g) {
    if (!g) return (uint64_t)v;
    __int128 m = (__int128)v % (__int128)g;
    return (uint64_t)(m < 0 ? m + (__int128)g : m);
}
static void pow2Part(uint64_t &g, uint64_t &r) {
    if (!g) return;
    uint64_t p = g & (~g + 1);
    g = p; r &= p - 1;
}
static void strideOf(E e, uint64_t &g, uint64_t &r, int d = 8) {
    if (e->op == OConst) { g = 0; r = (uint64_t)sx(e->cval, e->w); return; }
    if (d > 0) {
        uint64_t g1, r1, g2, r2;
        switch (e->op) {
        case OAdd:
            strideOf(e->a, g1, r1, d - 1); strideOf(e->b, g2, r2, d - 1);
            g = std::__gcd(g1, g2);
            r = smod((int64_t)(smod((int64_t)r1, g) + smod((int64_t)r2, g)), g);
            if (e->w < 64) { if (g) pow2Part(g, r); else r = (uint64_t)sx(r & maskw(e->w), e->w); }
            return;
        case OMul:
            if (e->b->op == OConst) {
                int64_t k = sx(e->b->cval, e->w);
                strideOf(e->a, g1, r1, d - 1);
                __int128 gg = (__int128)g1 * (k < 0 ? -(__int128)k : (__int128)k);
                if (gg >> 62) break;
                g = (uint64_t)gg;
                if (g) r = smod((int64_t)r1 * k, g);
                else r = (uint64_t)((int64_t)r1 * k);
                if (e->w < 64) { if (g) pow2Part(g, r); else r = (uint64_t)sx(r & maskw(e->w), e->w); }
                return;
            }
            break;
        case OShl:
            if (e->b->op == OConst && e->b->cval < 32) {
                strideOf(e->a, g1, r1, d - 1);
                if ((__int128)g1 << e->b->cval >> 62) break;
                g = g1 << e->b->cval; r = smod((int64_t)(r1 << e->b->cval), g);
                if (e->w < 64) { if (g) pow2Part(g, r); else r = (uint64_t)sx(r & maskw(e->w), e->w); }
                return;
            }
            break;
        case OZExt:
            strideOf(e->a, g, r, d - 1);
            if (e->a->slo < 0) { if (g) pow2Part(g, r); else r &= maskw(e->a->w); }
            return;
        case OSExt: strideOf(e->a, g, r, d - 1); return;
        case OIte: {
            strideOf(e->b, g1, r1, d - 1); strideOf(e->c, g2, r2, d - 1);
            int64_t df = (int64_t)(r1 - r2);
            g = std::__gcd(std::__gcd(g1, g2), (uint64_t)(df < 0 ? -df : df)); r = smod((int64_t)r1, g); return;
        }
        case OTable: {
            int64_t r0 = sx((*e->tab)[0], e->w);
            g = 0;
            for (auto v : *e->tab) { int64_t q = sx(v, e->w) - r0; g = std::__gcd(g, (uint64_t)(q < 0 ? -q : q)); }
            r = smod(r0, g);
            return;
        }
        default: break;
        }
    }
    g = 1; r = 0;
}
struct Res { const ObjP *p; uint64_t off; E offE; };
static bool leafAddrs(E e, uint64_t add, std::vector<uint64_t> &out, int depth) {
    if (depth < 0) return false;
    if (e->op == OConst) {
        uint64_t v = e->cval + add;
        for (uint64_t o : out) if (o == v) return true;
        out.push_back(v);
        return out.size() <= 16;
    }
    if (e->op == OIte) return leafAddrs(e->b, add, out, depth - 1) && leafAddrs(e->c, add, out, depth - 1);
    if (e->op == OAdd && e->b->op == OConst) return leafAddrs(e->a, add + e->b->cval, out, depth - 1);
    if (e->op == OTable) {
        for (uint64_t v : *e->tab) {
            bool seen = false;
            for (uint64_t o : out) seen |= o == v + add;
            if (!seen) out.push_back(v + add);
            if (out.size() > 16) return false;
        }
        return true;
    }
    return false;
}
// Resolve a possibly symbolic address. May fork (re-executing the instruction in the clone).
static Res resolve(State &s, const Val &a, unsigned bytes, bool wr) {
    if (!a.e) {
        const ObjP *p = resolveC(s, a.c, bytes, wr);
        return {p, a.c - (*p)->base, nullptr};
    }
    {
        // a choice between a few objects (a pointer select): one path per pointer
        std::vector<uint64_t> leaves;
        if (leafAddrs(a.e, 0, leaves, 8) && leaves.size() > 1) {
            bool diff = false;
            const ObjP *p0 = findObj(s, leaves[0]);
            for (uint64_t l : leaves) diff |= findObj(s, l) != p0;
            if (diff) {
                uint64_t c = concretize(s, a, 64);
                const ObjP *p = resolveC(s, c, bytes, wr);
                return {p, c - (*p)->base, nullptr};
            }
        }
    }
    uint64_t v = evalE(a.e, s.as);
    const ObjP *p = findObj(s, v);
    if (!p || !*p || (*p)->freed || v < (*p)->base || v + bytes > (*p)->base + (*p)->size) {
        // this assignment is bad: are there good ones? fork on exactly this region being bad
        if (p && *p && !(*p)->freed && (*p)->size >= bytes) {
            E off = mkBin(OSub, a.e, mkConst(64, (*p)->base));
            E inb = mkCmp(OUle, off, mkConst(64, (*p)->size - bytes));
            Assign o;
            if (feasible(s, inb, o) == 1) {
                StateP n = cloneState(s);
                addCons(*n, inb);
                n->as = o;
                work.push_back(std::move(n));
            }
        }
        memError(s, v, bytes, wr, p);
    }
    st.memq++;
    uint64_t base = (*p)->base, size = (*p)->size;
    E off = mkBin(OSub, a.e, mkConst(64, base));
    E inb = mkCmp(OUle, off, mkConst(64, size - bytes));
    if (inb->op != OConst) {
        assumeTrueForkOther(s, inb);
        p = findObj(s, v);
    }
    if (wr && (*p)->kind == KConst) { report(s, "memory", "write to constant", s.as); throw PathEnd(); }
    return {p, v - base, off};
}
static bool candidates(const Obj &o, E off, unsigned bytes, uint64_t &lo, uint64_t &g, uint64_t &n) {
    uint64_t r;
    strideOf(off, g, r);
    uint64_t hi = std::min<uint64_t>(off->uhi, o.size - bytes);
    lo = off->ulo;
    if (off->slo > 0) lo = std::max<uint64_t>(lo, (uint64_t)off->slo);
    if (off->shi >= 0) hi = std::min<uint64_t>(hi, (uint64_t)off->shi);
    if (g == 0) g = 1;
    if (g > 1) {
        uint64_t m = lo % g;
        r %= g;
        if (m != r) lo += (r + g - m) % g;
    }
    if (lo > hi) { n = 0; return true; }
    n = (hi - lo) / g + 1;
    return true;
}
static bool gAtomic = false, gRedirect = false;
static bool ompPar(State &s);
static void ompNote(State &s, const Val &a, uint64_t bytes, bool wr, bool atomic);
static Val loadLeaf(State &s, const Val &addr, unsigned bytes, unsigned w) {
    if (s.team && ompPar(s)) ompNote(s, addr, bytes, false, gAtomic);
    Res r = resolve(s, addr, bytes, false);
    if (!r.offE) {
        Val v = readN(s, r.p, r.off, bytes);
        if (w != bytes * 8) { if (v.e) v = toV(mkExtract(v.e, 0, w)); else v.c &= maskw(w); }
        return v;
    }
    uint64_t lo, g, n;
    candidates(**r.p, r.offE, bytes, lo, g, n);
    if (n == 0 || n > (uint64_t)optMaxCand) {
        uint64_t c = concretize(s, addr, 64);
        const ObjP *p = resolveC(s, c, bytes, false);
        Val v = readN(s, p, c - (*p)->base, bytes);
        if (w != bytes * 8) { if (v.e) v = toV(mkExtract(v.e, 0, w)); else v.c &= maskw(w); }
        return v;
    }
    uint64_t vv = (*r.p)->base + r.off;
    std::vector<Val> vals;
    bool allc = true;
    for (uint64_t i = 0; i < n; i++) {
        const ObjP *p = findObj(s, vv);
        vals.push_back(readN(s, p, lo + i * g, bytes));
        allc &= !vals.back().e;
    }
    Val res;
    E idx = mkBin(OUDiv, mkBin(OSub, r.offE, mkConst(64, lo)), mkConst(64, g));
    unsigned nb = 1;
    while ((1ull << nb) < n) nb++;
    E nidx = mkExtract(idx, 0, nb);
    if (allc) {
        auto t = std::make_shared<std::vector<uint64_t>>();
        for (auto &v : vals) t->push_back(v.c & maskw(w));
        // pad so that any index value has an entry
        res = toV(mkTable(w, nidx, t));
    } else {
        E e = toE(vals[n - 1], bytes * 8);
        for (int64_t i = (int64_t)n - 2; i >= 0; i--) {
            E c = mkCmp(OEq, nidx, mkConst(nb, i));
            e = mkIte(c, toE(vals[i], bytes * 8), e);
        }
        res = toV(w != bytes * 8 ? mkExtract(e, 0, w) : e);
    }
    return res;
}
static void storeLeaf(State &s, const Val &addr0, unsigned bytes, const Val &v) {
    Val addr = addr0;
    if (s.team && ompPar(s)) {
        if (addr.e) addr = Val(concretize(s, addr, 64));
        ompNote(s, addr, bytes, true, gAtomic);
    }
    Res r = resolve(s, addr, bytes, true);
    if (!r.offE) { writeN(s, writable(s, r.p), r.off, bytes, v); return; }
    uint64_t lo, g, n;
    candidates(**r.p, r.offE, bytes, lo, g, n);
    if (n == 0 || n > (uint64_t)optForkStore || g % bytes) {
        uint64_t c = concretize(s, addr, 64);
        const ObjP *p = resolveC(s, c, bytes, true);
        writeN(s, writable(s, p), c - (*p)->base, bytes, v);
        return;
    }
    uint64_t vv = (*r.p)->base + r.off;
    E ve = toE(v, bytes * 8);
    if (ve->w != bytes * 8) ve = mkZExt(ve, bytes * 8);
    for (uint64_t i = 0; i < n; i++) {
        const ObjP *p = findObj(s, vv);
        Val old = readN(s, p, lo + i * g, bytes);
        E c = mkCmp(OEq, r.offE, mkConst(64, lo + i * g));
        Val nv = toV(mkIte(c, ve, toE(old, bytes * 8)));
        p = findObj(s, vv);
        writeN(s, writable(s, p), lo + i * g, bytes, nv);
    }
}
static void copyBytes(State &s, uint64_t d, uint64_t src, uint64_t n) {
    if (!n) return;
    const ObjP *sp = resolveC(s, src, (unsigned)n, false);
    // check full ranges (resolveC takes unsigned bytes)
    if (src + n > (*sp)->base + (*sp)->size) memError(s, src, n, false, sp);
    const ObjP *dp = resolveC(s, d, (unsigned)n, true);
    if (d + n > (*dp)->base + (*dp)->size) memError(s, d, n, true, dp);
    if (s.team && ompPar(s)) { ompNote(s, Val(src), n, false, false); ompNote(s, Val(d), n, true, false); sp = findObj(s, src); dp = findObj(s, d); }
    ObjP so = *sp; // keep alive / snapshot
    Obj &o = writable(s, dp);
    uint64_t so0 = src - so->base, do0 = d - o.base;
    memmove(&o.b[do0], &so->b[so0], n);
    if (!so->s.empty() || !o.s.empty()) {
        bool any = !o.s.empty();
        if (!any) for (uint64_t i = 0; i < n && !any; i++) any = so->s[so0 + i].e != nullptr;
        if (any) {
            ensureSym(o);
            if (so->s.empty()) for (uint64_t i = 0; i < n; i++) o.s[do0 + i] = SymB();
            else {
                std::vector<SymB> tmp(so->s.begin() + so0, so->s.begin() + so0 + n);
                std::copy(tmp.begin(), tmp.end(), o.s.begin() + do0);
            }
        }
    }
    if (!so->un.empty() || !o.un.empty()) {
        std::vector<bool> u(n);
        bool any = false;
        for (uint64_t i = 0; i < n; i++) { u[i] = so->isUn(so0 + i); any = any || u[i]; }
        if (any && o.un.empty()) o.un.assign((o.size + 63) / 64, 0);
        if (!o.un.empty())
            for (uint64_t i = 0; i < n; i++) {
                uint64_t x = do0 + i;
                if (u[i]) {
                    o.un[x >> 6] |= 1ull << (x & 63);
                    if (!o.s.empty()) o.s[x].e = nullptr;
                } else o.clrUn(x);
            }
    }
}
static std::string readCStr(State &s, uint64_t a) {
    std::string r;
    for (int i = 0; i < 100000; i++) {
        const ObjP *p = resolveC(s, a + i, 1, false);
        uint64_t off = a + i - (*p)->base;
        if ((!(*p)->s.empty() && (*p)->s[off].e)) { r += '?'; if (i > 1000) return r; continue; }
        char c = (char)(*p)->b[off];
        if (!c) return r;
        r += c;
    }
    return r;
}
#include "interp.inc"
#include "main.inc"
