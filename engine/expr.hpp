// Hash-consed bit-vector / floating-point expression DAG with ranges.
#pragma once
#include <algorithm>
#include <cfenv>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

enum Op : uint8_t {
    OConst, OVar,
    OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem,
    OAnd, OOr, OXor, OShl, OLShr, OAShr,
    OZExt, OSExt, OExtract /*aux=low bit*/, OConcat /*a high, b low*/,
    OIte, OEq, OUlt, OUle, OSlt, OSle,
    // floating point (operands are IEEE bit patterns of width 32/64)
    OFAdd, OFSub, OFMul, OFDiv, OFRem, OFSqrt, OFFma, OFFloor, OFCeil, OFTrunc, OFRound, OFRint,
    OFMath, // aux = function id, uninterpreted for the solver unless tabulated
    OFEq, OFLt, OFLe, OFIsNaN,
    OFToSI, OFToUI, OSIToF, OUIToF, OFExt, OFTruncW,
    ODyadic, // value = a (signed) * 2^aux(signed)
    OTable,  // value = tab[a]
};

typedef std::vector<uint32_t> VarSet; // sorted
struct Expr;
typedef std::shared_ptr<std::vector<uint64_t>> TabP;

struct Expr {
    Op op;
    uint8_t w;
    bool taint = false; // depends on uninitialised memory
    bool hasFP = false; // needs the FP theory when translated
    int32_t aux = 0;
    uint32_t id = 0;
    uint64_t cval = 0;
    const Expr *a = nullptr, *b = nullptr, *c = nullptr;
    TabP tab;
    uint64_t ulo = 0, uhi = 0;
    int64_t slo = 0, shi = 0;
    const VarSet *vars = nullptr;
    // caches
    mutable void *zast = nullptr;
    mutable void *zbool = nullptr;
    mutable uint32_t evalEpoch = 0;
    mutable uint64_t evalVal = 0;
};
typedef const Expr *E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) {
    if (w >= 64)
        return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ m) - m);
}
static inline double b2d(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline uint64_t d2b(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static inline float b2f(uint64_t v) { uint32_t u = (uint32_t)v; float d; memcpy(&d, &u, 4); return d; }
static inline uint64_t f2b(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

extern std::vector<std::string> mathNames; // function ids
extern double (*mathFn1[])(double);

struct Val {
    uint64_t c = 0;
    E e = nullptr;
    Val() {}
    Val(uint64_t v) : c(v) {}
    Val(E x) : e(x) {}
    bool sym() const { return e != nullptr; }
};

struct VarInfo {
    std::string name;
    unsigned w;
    uint64_t hi; // inclusive upper bound (domain [0,hi])
    bool uninit = false;
    E e;
};

// ------------------------------------------------------------------ context
struct Ctx {
    struct KeyHash {
        size_t operator()(const Expr *e) const {
            size_t h = e->op * 1315423911u + e->w * 2654435761u + (uint32_t)e->aux * 97u;
            h ^= (size_t)e->cval * 0x9E3779B97F4A7C15ull;
            h = h * 31 + (e->a ? e->a->id : 0);
            h = h * 1000003 + (e->b ? e->b->id : 0);
            h = h * 1000003 + (e->c ? e->c->id : 0);
            if (e->tab) {
                for (auto v : *e->tab)
                    h = h * 1000003 ^ v;
            }
            return h ^ (h >> 29);
        }
    };
    struct KeyEq {
        bool operator()(const Expr *x, const Expr *y) const {
            if (x->op != y->op || x->w != y->w || x->aux != y->aux || x->cval != y->cval ||
                x->a != y->a || x->b != y->b || x->c != y->c)
                return false;
            if ((bool)x->tab != (bool)y->tab)
                return false;
            if (x->tab && *x->tab != *y->tab)
                return false;
            return true;
        }
    };
    std::unordered_map<Expr *, Expr *, KeyHash, KeyEq> table;
    std::vector<VarInfo> vars;
    uint32_t nextId = 1;
    uint32_t epoch = 1;
    struct VSHash {
        size_t operator()(const VarSet &s) const {
            size_t h = 7;
            for (auto v : s)
                h = h * 1000003 ^ v;
            return h;
        }
    };
    std::unordered_map<VarSet, const VarSet *, VSHash> vsets;
    std::map<std::pair<const VarSet *, const VarSet *>, const VarSet *> vsUnion;
    const VarSet *internVS(const VarSet &s) {
        auto it = vsets.find(s);
        if (it != vsets.end())
            return it->second;
        auto *p = new VarSet(s);
        vsets[s] = p;
        return p;
    }
    const VarSet *emptyVS;
    Ctx() { emptyVS = internVS({}); }
    const VarSet *unionVS(const VarSet *x, const VarSet *y) {
        if (x == y || y->empty())
            return x;
        if (x->empty())
            return y;
        if (x > y)
            std::swap(x, y);
        auto k = std::make_pair(x, y);
        auto it = vsUnion.find(k);
        if (it != vsUnion.end())
            return it->second;
        VarSet r;
        std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
        auto *p = internVS(r);
        vsUnion[k] = p;
        return p;
    }
};
extern Ctx *cx;

static const int TABCAP = 4096;

// ---------------------------------------------------------------- evaluation
uint64_t evalOp(Op op, unsigned w, int32_t aux, unsigned wa, uint64_t a, uint64_t b, uint64_t c);

static inline double fpv(unsigned w, uint64_t v) { return w == 64 ? b2d(v) : (double)b2f(v); }
static inline uint64_t fpb(unsigned w, double d) { return w == 64 ? d2b(d) : f2b((float)d); }

inline uint64_t evalOp(Op op, unsigned w, int32_t aux, unsigned wa, uint64_t a, uint64_t b, uint64_t c) {
    uint64_t M = maskw(w);
    switch (op) {
    case OAdd: return (a + b) & M;
    case OSub: return (a - b) & M;
    case OMul: return (a * b) & M;
    case OUDiv: return b ? a / b : M;
    case OURem: return b ? a % b : a;
    case OSDiv: {
        int64_t x = sx(a, w), y = sx(b, w);
        if (y == 0) return x < 0 ? 1 : M;
        if (y == -1) return (0 - (uint64_t)x) & M;
        return (uint64_t)(x / y) & M;
    }
    case OSRem: {
        int64_t x = sx(a, w), y = sx(b, w);
        if (y == 0) return a;
        if (y == -1) return 0;
        return (uint64_t)(x % y) & M;
    }
    case OAnd: return a & b;
    case OOr: return a | b;
    case OXor: return a ^ b;
    case OShl: return b >= w ? 0 : (a << b) & M;
    case OLShr: return b >= w ? 0 : (a >> b);
    case OAShr: return b >= w ? (sx(a, w) < 0 ? M : 0) : (uint64_t)(sx(a, w) >> b) & M;
    case OZExt: return a;
    case OSExt: return (uint64_t)sx(a, wa) & M;
    case OExtract: return (a >> aux) & M;
    case OIte: return a ? b : c;
    case OEq: return a == b;
    case OUlt: return a < b;
    case OUle: return a <= b;
    case OSlt: return sx(a, wa) < sx(b, wa);
    case OSle: return sx(a, wa) <= sx(b, wa);
    case OFAdd: return w == 64 ? d2b(b2d(a) + b2d(b)) : f2b(b2f(a) + b2f(b));
    case OFSub: return w == 64 ? d2b(b2d(a) - b2d(b)) : f2b(b2f(a) - b2f(b));
    case OFMul: return w == 64 ? d2b(b2d(a) * b2d(b)) : f2b(b2f(a) * b2f(b));
    case OFDiv: return w == 64 ? d2b(b2d(a) / b2d(b)) : f2b(b2f(a) / b2f(b));
    case OFRem: return w == 64 ? d2b(fmod(b2d(a), b2d(b))) : f2b(fmodf(b2f(a), b2f(b)));
    case OFSqrt: return w == 64 ? d2b(sqrt(b2d(a))) : f2b(sqrtf(b2f(a)));
    case OFFma: return w == 64 ? d2b(fma(b2d(a), b2d(b), b2d(c))) : f2b(fmaf(b2f(a), b2f(b), b2f(c)));
    case OFFloor: return fpb(w, floor(fpv(w, a)));
    case OFCeil: return fpb(w, ceil(fpv(w, a)));
    case OFTrunc: return fpb(w, trunc(fpv(w, a)));
    case OFRound: return fpb(w, round(fpv(w, a)));
    case OFRint: return fpb(w, nearbyint(fpv(w, a)));
    case OFMath: return fpb(w, mathFn1[aux](fpv(w, a)));
    case OFEq: return fpv(wa, a) == fpv(wa, b);
    case OFLt: return fpv(wa, a) < fpv(wa, b);
    case OFLe: return fpv(wa, a) <= fpv(wa, b);
    case OFIsNaN: return std::isnan(fpv(wa, a));
    case OFToSI: {
        double d = fpv(wa, a);
        double lim = ldexp(1.0, w - 1);
        d = trunc(d);
        if (!(d >= -lim && d < lim)) {
            // x86 behaviour: integer indefinite at 32/64 bits
            if (w == 64) return 1ull << 63;
            if (w == 32) return 1ull << 31;
            if (d >= -2147483648.0 && d < 2147483648.0) return (uint64_t)(int64_t)d & M;
            return 0;
        }
        return (uint64_t)(int64_t)d & M;
    }
    case OFToUI: {
        double d = trunc(fpv(wa, a));
        if (w == 64) {
            if (d >= 0 && d < 18446744073709551616.0) return (uint64_t)d;
            return 1ull << 63;
        }
        if (d >= -9.2233720368547758e18 && d < 9.2233720368547758e18) return (uint64_t)(int64_t)d & M;
        return 0;
    }
    case OSIToF: return w == 64 ? d2b((double)sx(a, wa)) : f2b((float)sx(a, wa));
    case OUIToF: return w == 64 ? d2b((double)a) : f2b((float)a);
    case OFExt: return d2b((double)b2f(a));
    case OFTruncW: return f2b((float)b2d(a));
    case ODyadic: return fpb(w, ldexp((double)sx(a, wa), aux));
    default: fprintf(stderr, "evalOp %d\n", op); abort();
    }
}

struct Assign {
    std::vector<uint64_t> v;
    uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; }
};

inline uint64_t evalRec(E e, const Assign &as) {
    if (e->op == OConst) return e->cval;
    if (e->evalEpoch == cx->epoch) return e->evalVal;
    uint64_t r;
    if (e->op == OVar) r = as.get((uint32_t)e->cval);
    else if (e->op == OIte) r = evalRec(e->a, as) ? evalRec(e->b, as) : evalRec(e->c, as);
    else if (e->op == OConcat) r = (evalRec(e->a, as) << e->b->w) | evalRec(e->b, as);
    else if (e->op == OTable) { uint64_t i = evalRec(e->a, as); r = i < e->tab->size() ? (*e->tab)[i] : 0; }
    else {
        uint64_t a = e->a ? evalRec(e->a, as) : 0, b = e->b ? evalRec(e->b, as) : 0, c = e->c ? evalRec(e->c, as) : 0;
        r = evalOp(e->op, e->w, e->aux, e->a->w, a, b, c);
    }
    e->evalEpoch = cx->epoch;
    e->evalVal = r;
    return r;
}
inline uint64_t evalE(E e, const Assign &as) { cx->epoch++; return evalRec(e, as); }
inline uint64_t evalV(const Val &v, const Assign &as) { return v.e ? evalE(v.e, as) : v.c; }

// -------------------------------------------------------------- construction
E mkConst(unsigned w, uint64_t v);
E mk(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, int32_t aux = 0);
E mkTable(unsigned w, E idx, TabP t);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkNot(E a);
E mkBin(Op op, E a, E b);
E mkCmp(Op op, E a, E b);
E mkDyadic(unsigned w, E k, int32_t s);
E mkVar(const std::string &name, unsigned w, uint64_t hi, bool uninit = false);
E mkFP(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, int32_t aux = 0);
E mkConcat(E hi, E lo);
std::string exprStr(E e, int depth = 6);

static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(w, v.c & maskw(w)); }
static inline Val toV(E e) {
    if (e->op == OConst) return Val(e->cval);
    return Val(e);
}
