#include "expr.hpp"
#include <cassert>

Ctx *cx = nullptr;
static double m_log(double x) { return log(x); }
static double m_exp(double x) { return exp(x); }
static double m_log2(double x) { return log2(x); }
static double m_log10(double x) { return log10(x); }
static double m_log1p(double x) { return log1p(x); }
static double m_expm1(double x) { return expm1(x); }
static double m_sin(double x) { return sin(x); }
static double m_cos(double x) { return cos(x); }
static double m_tanh(double x) { return tanh(x); }
static double m_cbrt(double x) { return cbrt(x); }
static double m_tan(double x) { return tan(x); }
static double m_acos(double x) { return acos(x); }
static double m_asin(double x) { return asin(x); }
static double m_atan(double x) { return atan(x); }
std::vector<std::string> mathNames = {"log", "exp", "log2", "log10", "log1p", "expm1", "sin",
                                      "cos", "tanh", "cbrt", "tan", "acos", "asin", "atan"};
double (*mathFn1[])(double) = {m_log, m_exp, m_log2, m_log10, m_log1p, m_expm1, m_sin,
                               m_cos, m_tanh, m_cbrt, m_tan, m_acos, m_asin, m_atan};

typedef __int128 i128;
static const int64_t I64MIN = INT64_MIN, I64MAX = INT64_MAX;

static void fullRange(Expr &e) {
    e.ulo = 0;
    e.uhi = maskw(e.w);
    e.slo = sx(1ull << (e.w - 1), e.w);
    e.shi = (int64_t)(maskw(e.w) >> 1);
    if (e.w == 1) { e.slo = -1; e.shi = 0; }
}
// make unsigned and signed ranges consistent with each other
static void crossRange(Expr &e) {
    uint64_t half = 1ull << (e.w - 1);
    if (e.uhi < half) { // non negative
        e.slo = std::max<int64_t>(e.slo, (int64_t)e.ulo);
        e.shi = std::min<int64_t>(e.shi, (int64_t)e.uhi);
    } else if (e.ulo >= half) {
        e.slo = std::max(e.slo, sx(e.ulo, e.w));
        e.shi = std::min(e.shi, sx(e.uhi, e.w));
    }
    if (e.slo >= 0) {
        e.ulo = std::max<uint64_t>(e.ulo, (uint64_t)e.slo);
        e.uhi = std::min<uint64_t>(e.uhi, (uint64_t)e.shi);
    } else if (e.shi < 0) {
        e.ulo = std::max<uint64_t>(e.ulo, (uint64_t)e.slo & maskw(e.w));
        e.uhi = std::min<uint64_t>(e.uhi, (uint64_t)e.shi & maskw(e.w));
    }
    if (e.ulo > e.uhi || e.slo > e.shi) fullRange(e);
}

static void computeRange(Expr &e) {
    fullRange(e);
    E a = e.a, b = e.b, c = e.c;
    int64_t smin = e.slo, smax = e.shi;
    uint64_t umax = e.uhi;
    auto setS = [&](i128 lo, i128 hi) {
        if (lo >= smin && hi <= smax) { e.slo = (int64_t)lo; e.shi = (int64_t)hi; }
    };
    auto setU = [&](unsigned __int128 lo, unsigned __int128 hi) {
        if (hi <= umax) { e.ulo = (uint64_t)lo; e.uhi = (uint64_t)hi; }
    };
    switch (e.op) {
    case OConst: e.ulo = e.uhi = e.cval; e.slo = e.shi = sx(e.cval, e.w); return;
    case OVar: e.uhi = cx->vars[e.cval].hi; break;
    case OAdd:
        setS((i128)a->slo + b->slo, (i128)a->shi + b->shi);
        setU((unsigned __int128)a->ulo + b->ulo, (unsigned __int128)a->uhi + b->uhi);
        break;
    case OSub:
        setS((i128)a->slo - b->shi, (i128)a->shi - b->slo);
        if (a->ulo >= b->uhi) setU(a->ulo - b->uhi, a->uhi - b->ulo);
        break;
    case OMul: {
        i128 p[4] = {(i128)a->slo * b->slo, (i128)a->slo * b->shi, (i128)a->shi * b->slo, (i128)a->shi * b->shi};
        setS(*std::min_element(p, p + 4), *std::max_element(p, p + 4));
        setU((unsigned __int128)a->ulo * b->ulo, (unsigned __int128)a->uhi * b->uhi);
        if (a == b && e.slo > I64MIN && e.shi < smax && p[0] <= smax && p[3] <= smax) e.slo = std::max<int64_t>(e.slo, 0);
        break;
    }
    case OUDiv: if (b->ulo > 0) { e.ulo = a->ulo / b->uhi; e.uhi = a->uhi / b->ulo; } break;
    case OURem: if (b->uhi > 0 && b->ulo > 0) { e.ulo = 0; e.uhi = std::min(a->uhi, b->uhi - 1); } break;
    case OSDiv:
        if (b->slo > 0) {
            int64_t q[4] = {a->slo / b->slo, a->slo / b->shi, a->shi / b->slo, a->shi / b->shi};
            setS(*std::min_element(q, q + 4), *std::max_element(q, q + 4));
        }
        break;
    case OSRem:
        if (b->slo > 0) {
            int64_t m = b->shi - 1;
            setS(a->slo >= 0 ? 0 : std::max(-m, a->slo), a->shi <= 0 ? 0 : std::min(m, a->shi));
        }
        break;
    case OAnd: e.uhi = std::min(a->uhi, b->uhi); break;
    case OOr: {
        uint64_t m = a->uhi | b->uhi;
        m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32;
        e.uhi = m;
        e.ulo = std::max(a->ulo, b->ulo);
        break;
    }
    case OXor: {
        uint64_t m = a->uhi | b->uhi;
        m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32;
        e.uhi = m;
        break;
    }
    case OShl:
        if (b->op == OConst && b->cval < e.w) {
            setU((unsigned __int128)a->ulo << b->cval, (unsigned __int128)a->uhi << b->cval);
            setS((i128)a->slo * ((i128)1 << b->cval), (i128)a->shi * ((i128)1 << b->cval));
        }
        break;
    case OLShr:
        if (b->op == OConst && b->cval < e.w) { e.ulo = a->ulo >> b->cval; e.uhi = a->uhi >> b->cval; }
        else e.uhi = a->uhi;
        break;
    case OAShr:
        if (b->op == OConst && b->cval < e.w) setS(a->slo >> b->cval, a->shi >> b->cval);
        else setS(std::min<int64_t>(a->slo, 0), std::max<int64_t>(a->shi, a->shi < 0 ? -1 : a->shi));
        break;
    case OZExt: e.ulo = a->ulo; e.uhi = a->uhi; break;
    case OSExt: e.slo = a->slo; e.shi = a->shi; break;
    case OExtract:
        if (e.aux == 0) {
            if (a->uhi <= umax) { e.ulo = a->ulo; e.uhi = a->uhi; }
            if (a->slo >= smin && a->shi <= smax) { e.slo = a->slo; e.shi = a->shi; }
        } else if ((a->uhi >> e.aux) <= umax) {
            e.ulo = a->ulo >> e.aux; e.uhi = a->uhi >> e.aux;
        }
        break;
    case OConcat: setU(((unsigned __int128)a->ulo << b->w) | b->ulo, ((unsigned __int128)a->uhi << b->w) | b->uhi); break;
    case OIte:
        e.ulo = std::min(b->ulo, c->ulo); e.uhi = std::max(b->uhi, c->uhi);
        e.slo = std::min(b->slo, c->slo); e.shi = std::max(b->shi, c->shi);
        break;
    case OTable: {
        e.ulo = ~0ull; e.uhi = 0; e.slo = I64MAX; e.shi = I64MIN;
        uint64_t l = e.a->ulo, h = std::min<uint64_t>(e.a->uhi, e.tab->size() - 1);
        for (uint64_t i = l; i <= h; i++) {
            uint64_t v = (*e.tab)[i];
            e.ulo = std::min(e.ulo, v); e.uhi = std::max(e.uhi, v);
            e.slo = std::min(e.slo, sx(v, e.w)); e.shi = std::max(e.shi, sx(v, e.w));
        }
        break;
    }
    default: break;
    }
    crossRange(e);
}

static E intern(Expr &k) {
    auto it = cx->table.find(&k);
    if (it != cx->table.end()) return it->second;
    Expr *n = new Expr(k);
    n->id = cx->nextId++;
    if (n->op == OVar) {
        n->vars = cx->internVS({(uint32_t)n->cval});
        n->taint = cx->vars[n->cval].uninit;
    } else {
        n->vars = cx->emptyVS;
        for (E x : {n->a, n->b, n->c})
            if (x) { n->vars = cx->unionVS(n->vars, x->vars); n->taint |= x->taint; n->hasFP |= x->hasFP; }
    }
    if ((n->op >= OFAdd && n->op <= OFTruncW) || n->op == ODyadic) n->hasFP = true;
    computeRange(*n);
    cx->table[n] = n;
    return n;
}

E mkConst(unsigned w, uint64_t v) {
    Expr k; k.op = OConst; k.w = w; k.cval = v & maskw(w);
    return intern(k);
}
E mkVar(const std::string &name, unsigned w, uint64_t hi, bool uninit) {
    Expr k; k.op = OVar; k.w = w; k.cval = cx->vars.size();
    cx->vars.push_back({name, w, hi, uninit, nullptr});
    E e = intern(k);
    cx->vars[e->cval].e = e;
    return e;
}
static E raw(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, int32_t aux = 0) {
    Expr k; k.op = op; k.w = w; k.a = a; k.b = b; k.c = c; k.aux = aux;
    E e = intern(k);
    if (e->op != OConst && e->ulo == e->uhi && !(e->op >= OFAdd && e->op <= OFTruncW) && e->op != ODyadic)
        return mkConst(w, e->ulo);
    return e;
}
E mkTable(unsigned w, E idx, TabP t) {
    if (idx->op == OConst) return mkConst(w, (*t)[std::min<uint64_t>(idx->cval, t->size() - 1)]);
    uint64_t l = idx->ulo, h = std::min<uint64_t>(idx->uhi, t->size() - 1);
    bool same = true;
    for (uint64_t i = l + 1; i <= h && same; i++) same = (*t)[i] == (*t)[l];
    if (same) return mkConst(w, (*t)[l]);
    if (h + 1 < t->size()) t = std::make_shared<std::vector<uint64_t>>(t->begin(), t->begin() + h + 1);
    if (w == 1) {
        // contiguous truth region -> range comparison
        int64_t f = -1, la = -1; uint64_t cnt = 0;
        for (uint64_t i = l; i <= h; i++) if ((*t)[i]) { if (f < 0) f = i; la = i; cnt++; }
        if ((uint64_t)(la - f + 1) == cnt) {
            E r1 = mkCmp(OUle, mkConst(idx->w, f), idx), r2 = mkCmp(OUle, idx, mkConst(idx->w, la));
            return mkBin(OAnd, r1, r2);
        }
        f = la = -1; cnt = 0;
        for (uint64_t i = l; i <= h; i++) if (!(*t)[i]) { if (f < 0) f = i; la = i; cnt++; }
        if ((uint64_t)(la - f + 1) == cnt) {
            E r1 = mkCmp(OUle, mkConst(idx->w, f), idx), r2 = mkCmp(OUle, idx, mkConst(idx->w, la));
            return mkNot(mkBin(OAnd, r1, r2));
        }
    }
    // table of table
    if (idx->op == OTable) {
        auto n = std::make_shared<std::vector<uint64_t>>();
        for (auto i : *idx->tab) n->push_back((*t)[std::min<uint64_t>(i, t->size() - 1)]);
        return mkTable(w, idx->a, n);
    }
    // affine integer table -> arithmetic
    if (w <= 64 && h > l && w >= idx->w) {
        uint64_t d = ((*t)[l + 1] - (*t)[l]) & maskw(w);
        bool aff = true;
        for (uint64_t i = l + 1; i <= h && aff; i++) aff = ((((*t)[i] - (*t)[i - 1]) & maskw(w)) == d);
        if (aff && (int64_t)std::llabs(sx(d, w)) < (1 << 20)) {
            E z = mkZExt(idx, w);
            return mkBin(OAdd, mkBin(OMul, z, mkConst(w, d)), mkConst(w, (*t)[l] - d * l));
        }
    }
    Expr k; k.op = OTable; k.w = w; k.a = idx; k.tab = t;
    return intern(k);
}
// try to see e as table: idx expression + entries
static bool asTable(E e, E &idx, TabP &t, size_t cap = TABCAP) {
    if (e->op == OTable && e->tab->size() <= cap) { idx = e->a; t = e->tab; return true; }
    if (e->op == ODyadic) {
        unsigned __int128 n = (unsigned __int128)((i128)e->a->shi - e->a->slo) + 1;
        if (n > cap) return false;
        idx = mkBin(OSub, e->a, mkConst(e->a->w, (uint64_t)e->a->slo));
        // narrow index
        unsigned nb = 1; while (((uint64_t)1 << nb) < (uint64_t)n) nb++;
        if (nb < idx->w) idx = mkExtract(idx, 0, nb);
        t = std::make_shared<std::vector<uint64_t>>();
        for (uint64_t i = 0; i < (uint64_t)n; i++)
            t->push_back(evalOp(ODyadic, e->w, e->aux, 64, (uint64_t)(e->a->slo + (int64_t)i), 0, 0));
        return true;
    }
    return false;
}
static bool isFPish(E e) { return e->op == OTable || e->op == ODyadic; }

// support based tabulation of an arbitrary expression
static E tabulate(E e, size_t cap) {
    unsigned __int128 n = 1;
    for (auto v : *e->vars) {
        if (cx->vars[v].hi == ~0ull) return nullptr;
        n *= (unsigned __int128)cx->vars[v].hi + 1;
        if (n > cap) return nullptr;
    }
    unsigned nb = 1; while ((1ull << nb) < (uint64_t)n) nb++;
    E idx = mkConst(nb, 0);
    uint64_t mul = 1;
    for (auto v : *e->vars) {
        E ve = cx->vars[v].e;
        E z = ve->w > nb ? mkExtract(ve, 0, nb) : mkZExt(ve, nb);
        idx = mkBin(OAdd, idx, mkBin(OMul, z, mkConst(nb, mul)));
        mul *= cx->vars[v].hi + 1;
    }
    // the index expression's range must be known
    auto t = std::make_shared<std::vector<uint64_t>>();
    Assign as; as.v.assign(cx->vars.size(), 0);
    for (uint64_t i = 0; i < (uint64_t)n; i++) {
        uint64_t r = i;
        for (auto v : *e->vars) { uint64_t d = cx->vars[v].hi + 1; as.v[v] = r % d; r /= d; }
        t->push_back(evalE(e, as));
    }
    return mkTable(e->w, idx, t);
}

E mkZExt(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->op == OConst) return mkConst(w, a->cval);
    if (a->op == OZExt) return mkZExt(a->a, w);
    if (a->op == OTable) { return mkTable(w, a->a, a->tab); }
    if (a->op == OIte && a->b->op == OConst && a->c->op == OConst) return mkIte(a->a, mkConst(w, a->b->cval), mkConst(w, a->c->cval));
    return raw(OZExt, w, a);
}
E mkSExt(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->op == OConst) return mkConst(w, (uint64_t)sx(a->cval, a->w));
    if (a->op == OSExt) return mkSExt(a->a, w);
    if (a->w > 1 && a->slo >= 0) return mkZExt(a, w);
    if (a->op == OTable) {
        auto n = std::make_shared<std::vector<uint64_t>>();
        for (auto v : *a->tab) n->push_back((uint64_t)sx(v, a->w) & maskw(w));
        return mkTable(w, a->a, n);
    }
    if (a->op == OIte && a->b->op == OConst && a->c->op == OConst) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
    return raw(OSExt, w, a);
}
static E mkTruncD(E a, unsigned w, int depth) {
    if (a->w == w) return a;
    switch (a->op) {
    case OConst: return mkConst(w, a->cval);
    case OZExt: case OSExt:
        if (a->a->w == w) return a->a;
        if (a->a->w > w) return mkTruncD(a->a, w, depth);
        return a->op == OZExt ? mkZExt(a->a, w) : mkSExt(a->a, w);
    case OAdd: case OSub: case OMul: case OAnd: case OOr: case OXor:
        if (depth > 0) {
            E x = mkTruncD(a->a, w, depth - 1), y = mkTruncD(a->b, w, depth - 1);
            return mkBin(a->op, x, y);
        }
        break;
    case OShl:
        if (depth > 0 && a->b->op == OConst) {
            if (a->b->cval >= w) return mkConst(w, 0);
            return mkBin(OShl, mkTruncD(a->a, w, depth - 1), mkConst(w, a->b->cval));
        }
        break;
    case OIte:
        if (depth > 0) return mkIte(a->a, mkTruncD(a->b, w, depth - 1), mkTruncD(a->c, w, depth - 1));
        break;
    case OExtract: return mkExtract(a->a, a->aux, w);
    case OConcat: if (w <= a->b->w) return mkTruncD(a->b, w, depth); break;
    case OTable: {
        auto n = std::make_shared<std::vector<uint64_t>>();
        for (auto v : *a->tab) n->push_back(v & maskw(w));
        return mkTable(w, a->a, n);
    }
    default: break;
    }
    return raw(OExtract, w, a, nullptr, nullptr, 0);
}
E mkExtract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (a->op == ODyadic) { E i; TabP t; if (asTable(a, i, t)) return mkExtract(mkTable(a->w, i, t), lo, w); }
    if (lo == 0 && !(a->hasFP && a->op >= OFAdd)) return mkTruncD(a, w, 12);
    if (a->op == OConst) return mkConst(w, a->cval >> lo);
    if (a->op == OExtract) return mkExtract(a->a, lo + a->aux, w);
    if (a->op == OConcat) {
        if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
        if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
    }
    if (a->op == OTable) {
        auto n = std::make_shared<std::vector<uint64_t>>();
        for (auto v : *a->tab) n->push_back((v >> lo) & maskw(w));
        return mkTable(w, a->a, n);
    }
    if (a->op == OZExt) {
        if (lo >= a->a->w) return mkConst(w, 0);
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    }
    if (a->op == OIte && (a->b->op == OConst || a->c->op == OConst || a->b->op == OConcat))
        return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    return raw(OExtract, w, a, nullptr, nullptr, lo);
}
E mkConcat(E hi, E lo) {
    if (hi->op == OConst && lo->op == OConst) return mkConst(hi->w + lo->w, (hi->cval << lo->w) | lo->cval);
    if (hi->op == OConst && hi->cval == 0) return mkZExt(lo, hi->w + lo->w);
    if (hi->op == OZExt) return mkZExt(mkConcat(hi->a, lo), hi->w + lo->w);
    if (hi->op == OExtract && lo->op == OExtract && hi->a == lo->a && hi->aux == lo->aux + lo->w)
        return mkExtract(hi->a, lo->aux, hi->w + lo->w);
    if (lo->w + hi->w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (hi->op == OExtract && hi->aux >= (int32_t)lo->w && hi->a->op != ODyadic && mkExtract(hi->a, hi->aux - lo->w, lo->w) == lo)
        return mkExtract(hi->a, hi->aux - lo->w, hi->w + lo->w);
    if (hi->op == OTable && lo->op == OTable && hi->a == lo->a) {
        auto n = std::make_shared<std::vector<uint64_t>>();
        for (size_t i = 0; i < hi->tab->size() && i < lo->tab->size(); i++) n->push_back(((*hi->tab)[i] << lo->w) | (*lo->tab)[i]);
        return mkTable(hi->w + lo->w, hi->a, n);
    }
    return raw(OConcat, hi->w + lo->w, hi, lo);
}
E mkNot(E a) {
    if (a->op == OConst) return mkConst(a->w, ~a->cval);
    if (a->w == 1) {
        if (a->op == OXor && a->b->op == OConst && a->b->cval == 1) return a->a;
        if (a->op == OSlt) return mkCmp(OSle, a->b, a->a);
        if (a->op == OSle) return mkCmp(OSlt, a->b, a->a);
        if (a->op == OUlt) return mkCmp(OUle, a->b, a->a);
        if (a->op == OUle) return mkCmp(OUlt, a->b, a->a);
    }
    return mkBin(OXor, a, mkConst(a->w, maskw(a->w)));
}
static bool asDyadic(E e, E &k, int &s);
E mkIte(E c, E a, E b) {
    if (c->op == OConst) return c->cval ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (a->op == OConst && b->op == OConst) return a->cval ? c : mkNot(c);
        if (a->op == OConst) return a->cval ? mkBin(OOr, c, b) : mkBin(OAnd, mkNot(c), b);
        if (b->op == OConst) return b->cval ? mkBin(OOr, mkNot(c), a) : mkBin(OAnd, c, a);
    }
    if (c->op == OXor && c->w == 1 && c->b->op == OConst && c->b->cval == 1) return mkIte(c->a, b, a);
    if (a->op == OIte && a->a == c) a = a->b;
    if (b->op == OIte && b->a == c) b = b->c;
    if (a == b) return a;
    if ((a->op == ODyadic && (b->op == ODyadic || b->op == OConst)) || (b->op == ODyadic && a->op == OConst)) {
        E ka, kb; int sa, sb;
        if (asDyadic(a, ka, sa) && asDyadic(b, kb, sb)) {
            if (a->op == OConst && a->cval == 0) sa = sb;
            if (b->op == OConst && b->cval == 0) sb = sa;
            int s = std::min(sa, sb);
            i128 m = (i128)1 << 52;
            if (a->w == 32) m = (i128)1 << 24;
            int da = sa - s, db = sb - s;
            if (da < 60 && db < 60) {
                i128 mxa = std::max<i128>(std::llabs(ka->slo), std::llabs(ka->shi)) << da, mxb = std::max<i128>(std::llabs(kb->slo), std::llabs(kb->shi)) << db;
                if (mxa <= m && mxb <= m) {
                    if (da) ka = mkBin(OShl, ka, mkConst(64, da));
                    if (db) kb = mkBin(OShl, kb, mkConst(64, db));
                    return mkDyadic(a->w, mkIte(c, ka, kb), s);
                }
            }
        }
    }
    if (a->op == OTable && b->op == OTable && a->a == b->a && c->vars == a->vars && a->tab->size() == b->tab->size() && c->op == OTable && c->a == a->a) {
        auto n = std::make_shared<std::vector<uint64_t>>();
        for (size_t i = 0; i < a->tab->size(); i++) n->push_back(i < c->tab->size() && (*c->tab)[i] ? (*a->tab)[i] : (*b->tab)[i]);
        return mkTable(a->w, a->a, n);
    }
    return raw(OIte, a->w, c, a, b);
}
static inline bool commut(Op op) { return op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor; }

static E tabUn(E t, unsigned w, uint64_t (*f)(uint64_t, const void *), const void *ctx) {
    auto n = std::make_shared<std::vector<uint64_t>>();
    n->reserve(t->tab->size());
    for (auto v : *t->tab) n->push_back(f(v, ctx));
    return mkTable(w, t->a, n);
}
struct BinCtx { Op op; unsigned w, wa; uint64_t k; bool left; int aux; };
static uint64_t binF(uint64_t v, const void *p) {
    auto *b = (const BinCtx *)p;
    return b->left ? evalOp(b->op, b->w, b->aux, b->wa, v, b->k, 0) : evalOp(b->op, b->w, b->aux, b->wa, b->k, v, 0);
}
// table-level simplification for any binary op; returns null when not applicable
static E tryTab2(Op op, unsigned w, E a, E b, size_t cap) {
    if (a->op == OConst || b->op == OConst) {
        E t = a->op == OConst ? b : a;
        E k = a->op == OConst ? a : b;
        E i; TabP tb;
        if (!asTable(t, i, tb, cap)) return nullptr;
        BinCtx c{op, w, a->w, k->cval, t == a, 0};
        Expr tmp; tmp.tab = tb; tmp.a = i;
        return tabUn(&tmp, w, binF, &c);
    }
    E i1, i2; TabP t1, t2;
    if (!asTable(a, i1, t1, cap) || !asTable(b, i2, t2, cap)) return nullptr;
    if (i1 == i2) {
        auto n = std::make_shared<std::vector<uint64_t>>();
        for (size_t i = 0; i < std::min(t1->size(), t2->size()); i++) n->push_back(evalOp(op, w, 0, a->w, (*t1)[i], (*t2)[i], 0));
        return mkTable(w, i1, n);
    }
    if (t1->size() * t2->size() > cap) return nullptr;
    size_t N = t1->size() * t2->size();
    unsigned nb = 1; while ((1ull << nb) < N) nb++;
    auto fit = [&](E x) { return x->w > nb ? mkExtract(x, 0, nb) : mkZExt(x, nb); };
    E idx = mkBin(OAdd, mkBin(OMul, fit(i1), mkConst(nb, t2->size())), fit(i2));
    auto n = std::make_shared<std::vector<uint64_t>>();
    n->reserve(N);
    for (size_t i = 0; i < t1->size(); i++)
        for (size_t j = 0; j < t2->size(); j++) n->push_back(evalOp(op, w, 0, a->w, (*t1)[i], (*t2)[j], 0));
    return mkTable(w, idx, n);
}

E mkBin(Op op, E a, E b) {
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch %d: %d %d\n", op, a->w, b->w); abort(); }
    if (a->op == OConst && b->op == OConst) return mkConst(w, evalOp(op, w, 0, w, a->cval, b->cval, 0));
    if (commut(op)) {
        if (a->op == OConst) std::swap(a, b);
        else if (b->op != OConst && a->id > b->id) std::swap(a, b);
    }
    if (a->op == ODyadic || b->op == ODyadic) {
        E r = tryTab2(op, w, a, b, TABCAP);
        if (r) return r;
    }
    bool bc = b->op == OConst;
    uint64_t k = b->cval;
    switch (op) {
    case OAdd:
        if (bc && k == 0) return a;
        if (bc && a->op == OAdd && a->b->op == OConst) return mkBin(OAdd, a->a, mkConst(w, a->b->cval + k));
        if (bc && a->op == OSub && a->a->op == OConst) return mkBin(OSub, mkConst(w, a->a->cval + k), a->b);
        if (!bc && b->op == OSub && b->b == a) return b->a;
        if (!bc && a->op == OSub && a->b == b) return a->a;
        // pull constants out
        if (!bc && a->op == OAdd && a->b->op == OConst) return mkBin(OAdd, mkBin(OAdd, a->a, b), a->b);
        if (!bc && b->op == OAdd && b->b->op == OConst) return mkBin(OAdd, mkBin(OAdd, a, b->a), b->b);
        break;
    case OSub:
        if (bc) return mkBin(OAdd, a, mkConst(w, 0 - k));
        if (a == b) return mkConst(w, 0);
        if (a->op == OAdd && a->a == b) return a->b;
        if (a->op == OAdd && a->b == b) return a->a;
        if (a->op == OAdd && a->b->op == OConst && !(b->op == OAdd && b->b->op == OConst)) return mkBin(OAdd, mkBin(OSub, a->a, b), a->b);
        if (b->op == OAdd && b->b->op == OConst && a->op == OAdd && a->b->op == OConst)
            return mkBin(OAdd, mkBin(OSub, a->a, b->a), mkConst(w, a->b->cval - b->b->cval));
        if (b->op == OAdd && b->b->op == OConst && a->op != OConst) return mkBin(OAdd, mkBin(OSub, a, b->a), mkConst(w, 0 - b->b->cval));
        break;
    case OMul:
        if (bc && k == 0) return b;
        if (bc && k == 1) return a;
        if (bc && (k & (k - 1)) == 0) return mkBin(OShl, a, mkConst(w, __builtin_ctzll(k)));
        if (bc && a->op == OMul && a->b->op == OConst) return mkBin(OMul, a->a, mkConst(w, a->b->cval * k));
        if (bc && a->op == OAdd && a->b->op == OConst) return mkBin(OAdd, mkBin(OMul, a->a, b), mkConst(w, a->b->cval * k));
        break;
    case OUDiv:
        if (bc && k == 1) return a;
        if (bc && k && (k & (k - 1)) == 0) return mkBin(OLShr, a, mkConst(w, __builtin_ctzll(k)));
        break;
    case OSDiv:
        if (bc && k == 1) return a;
        if (a->slo >= 0 && b->slo > 0) return mkBin(OUDiv, a, b);
        if (bc && a->op == OShl && a->b->op == OConst && a->b->cval < w - 1 && sx(k, w) == (int64_t)(1ull << a->b->cval)) {
            E t = a->a; // (t<<n)/2^n == t when no overflow
            i128 lo = (i128)t->slo << a->b->cval, hi = (i128)t->shi << a->b->cval;
            if (lo >= sx(1ull << (w - 1), w) && hi <= (i128)(maskw(w) >> 1)) return t;
        }
        if (bc && a->op == OMul && a->b->op == OConst && a->b->cval == k) {
            E t = a->a; i128 lo = (i128)t->slo * sx(k, w), hi = (i128)t->shi * sx(k, w);
            if (lo > hi) std::swap(lo, hi);
            if (lo >= sx(1ull << (w - 1), w) && hi <= (i128)(maskw(w) >> 1)) return t;
        }
        break;
    case OURem:
        if (bc && k && (k & (k - 1)) == 0) return mkBin(OAnd, a, mkConst(w, k - 1));
        if (bc && a->uhi < k) return a;
        break;
    case OSRem:
        if (a->slo >= 0 && b->slo > 0) return mkBin(OURem, a, b);
        break;
    case OAnd:
        if (bc && k == 0) return b;
        if (bc && k == maskw(w)) return a;
        if (a == b) return a;
        if (bc && (k & (k + 1)) == 0 && a->uhi <= k) return a;
        if (bc && a->op == OAnd && a->b->op == OConst) return mkBin(OAnd, a->a, mkConst(w, a->b->cval & k));
        if (bc && a->op == OZExt) return mkZExt(mkBin(OAnd, a->a, mkConst(a->a->w, k)), w);
        if (bc && (k & (k + 1)) == 0) { // low mask: zext(trunc)
            unsigned nb = 64 - __builtin_clzll(k);
            return mkZExt(mkExtract(a, 0, nb), w);
        }
        if (w == 1 && (a == mkNot(b) || (b->op == OXor && b->a == a))) return mkConst(1, 0);
        if (w == 1 && (b->op == OAnd && (b->a == a || b->b == a))) return b;
        if (w == 1 && (a->op == OAnd && (a->a == b || a->b == b))) return a;
        break;
    case OOr:
        if (bc && k == 0) return a;
        if (bc && k == maskw(w)) return b;
        if (a == b) return a;
        if (w == 1 && ((b->op == OXor && b->a == a) || (a->op == OXor && a->a == b))) return mkConst(1, 1);
        // concat patterns: (zext hi << n) | zext lo
        if (a->op == OZExt && b->op == OShl && b->b->op == OConst && b->a->op == OZExt && a->a->w == b->b->cval && b->a->a->w + a->a->w <= w)
            return mkZExt(mkConcat(b->a->a, a->a), w);
        if (b->op == OZExt && a->op == OShl && a->b->op == OConst && a->a->op == OZExt && b->a->w == a->b->cval && a->a->a->w + b->a->w <= w)
            return mkZExt(mkConcat(a->a->a, b->a), w);
        if (a->op == OZExt && b->op == OShl && b->b->op == OConst && b->b->cval < w && a->a->w <= b->b->cval)
            return mkConcat(mkExtract(b->a, 0, w - (unsigned)b->b->cval), mkZExt(a->a, (unsigned)b->b->cval));
        if (b->op == OZExt && a->op == OShl && a->b->op == OConst && a->b->cval < w && b->a->w <= a->b->cval)
            return mkConcat(mkExtract(a->a, 0, w - (unsigned)a->b->cval), mkZExt(b->a, (unsigned)a->b->cval));
        break;
    case OXor:
        if (bc && k == 0) return a;
        if (a == b) return mkConst(w, 0);
        if (bc && a->op == OXor && a->b->op == OConst) return mkBin(OXor, a->a, mkConst(w, a->b->cval ^ k));
        if (w == 1 && bc && (a->op == OSlt || a->op == OSle || a->op == OUlt || a->op == OUle)) {
            Op no = a->op == OSlt ? OSle : a->op == OSle ? OSlt : a->op == OUlt ? OUle : OUlt;
            return mkCmp(no, a->b, a->a);
        }
        break;
    case OShl:
        if (bc && k == 0) return a;
        if (bc && k >= w) return mkConst(w, 0);
        if (bc && a->op == OShl && a->b->op == OConst) return mkBin(OShl, a->a, mkConst(w, std::min<uint64_t>(w, a->b->cval + k)));
        break;
    case OLShr:
        if (bc && k == 0) return a;
        if (bc && k >= w) return mkConst(w, 0);
        if (bc) {
            if (a->op == OShl && a->b->op == OConst && a->b->cval == k && (a->a->uhi << k) >> k == a->a->uhi && a->a->uhi <= (maskw(w) >> k)) return a->a;
            return mkZExt(mkExtract(a, (unsigned)k, w - (unsigned)k), w);
        }
        break;
    case OAShr:
        if (bc && k == 0) return a;
        if (a->slo >= 0) return mkBin(OLShr, a, b);
        if (bc && a->op == OShl && a->b->op == OConst && a->b->cval == k) {
            i128 lo = (i128)a->a->slo << k, hi = (i128)a->a->shi << k;
            if (lo >= sx(1ull << (w - 1), w) && hi <= (i128)(maskw(w) >> 1)) return a->a;
            return mkSExt(mkExtract(a->a, 0, w - (unsigned)k), w);
        }
        break;
    default: break;
    }
    if (a->op == OTable || b->op == OTable) {
        if ((a->op == OConst || b->op == OConst) || (a->op == OTable && b->op == OTable && a->a == b->a)) {
            E r = tryTab2(op, w, a, b, TABCAP);
            if (r) return r;
        }
    }
    if (bc && a->op == OIte && a->b->op == OConst && a->c->op == OConst)
        return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    return raw(op, w, a, b);
}

static unsigned bitsU(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 1; }
static unsigned bitsS(int64_t lo, int64_t hi) { return std::max(bitsU(lo < 0 ? ~(uint64_t)lo : lo), bitsU(hi < 0 ? ~(uint64_t)hi : hi)) + 1; }

E mkCmp(Op op, E a, E b) {
    if (a->w != b->w) { fprintf(stderr, "mkCmp width mismatch\n"); abort(); }
    if (a->op == OConst && b->op == OConst) return mkConst(1, evalOp(op, 1, 0, a->w, a->cval, b->cval, 0));
    if (a == b) return mkConst(1, op == OEq || op == OUle || op == OSle);
    switch (op) {
    case OEq:
        if (a->ulo > b->uhi || b->ulo > a->uhi || a->slo > b->shi || b->slo > a->shi) return mkConst(1, 0);
        break;
    case OUlt:
        if (a->uhi < b->ulo) return mkConst(1, 1);
        if (a->ulo >= b->uhi) return mkConst(1, 0);
        break;
    case OUle:
        if (a->uhi <= b->ulo) return mkConst(1, 1);
        if (a->ulo > b->uhi) return mkConst(1, 0);
        break;
    case OSlt:
        if (a->shi < b->slo) return mkConst(1, 1);
        if (a->slo >= b->shi) return mkConst(1, 0);
        break;
    case OSle:
        if (a->shi <= b->slo) return mkConst(1, 1);
        if (a->slo > b->shi) return mkConst(1, 0);
        break;
    default: break;
    }
    if (op == OEq && a->op == OConst) std::swap(a, b);
    if (a->op == ODyadic || b->op == ODyadic) {
        if (op == OEq && a->op == ODyadic && b->op == ODyadic) {
            E r = mkFP(OFEq, 1, a, b);
            return r;
        }
        E r = tryTab2(op, 1, a, b, TABCAP);
        if (r) return r;
    }
    if (op == OEq) {
        if (a->w == 1 && b->op == OConst) return b->cval ? a : mkNot(a);
        if (b->op == OConst) {
            if (a->op == OIte) {
                if (a->b->op == OConst && a->c->op == OConst) {
                    bool x = a->b->cval == b->cval, y = a->c->cval == b->cval;
                    if (x && !y) return a->a;
                    if (!x && y) return mkNot(a->a);
                    return mkConst(1, x);
                }
                if (a->b->op == OConst || a->c->op == OConst) return mkIte(a->a, mkCmp(OEq, a->b, b), mkCmp(OEq, a->c, b));
            }
            if (a->op == OZExt) return b->cval > maskw(a->a->w) ? mkConst(1, 0) : mkCmp(OEq, a->a, mkConst(a->a->w, b->cval));
            if (a->op == OSExt) return mkCmp(OEq, a->a, mkConst(a->a->w, b->cval));
            if (a->op == OAdd && a->b->op == OConst) return mkCmp(OEq, a->a, mkConst(a->w, b->cval - a->b->cval));
            if (a->op == OXor && a->b->op == OConst) return mkCmp(OEq, a->a, mkConst(a->w, b->cval ^ a->b->cval));
            if (a->op == OConcat) {
                E h = mkCmp(OEq, a->a, mkConst(a->a->w, b->cval >> a->b->w)), l = mkCmp(OEq, a->b, mkConst(a->b->w, b->cval));
                return mkBin(OAnd, h, l);
            }
        }
    }
    if (op != OEq && a->op == OIte && b->op == OConst && (a->b->op == OConst || a->c->op == OConst)) {
        return mkIte(a->a, mkCmp(op, a->b, b), mkCmp(op, a->c, b));
    }
    if (op != OEq && b->op == OIte && a->op == OConst && (b->b->op == OConst || b->c->op == OConst)) {
        return mkIte(b->a, mkCmp(op, a, b->b), mkCmp(op, a, b->c));
    }
    if (a->op == OTable || b->op == OTable)
        if (a->op == OConst || b->op == OConst || (a->op == OTable && b->op == OTable && a->a == b->a)) {
            E r = tryTab2(op, 1, a, b, TABCAP);
            if (r) return r;
        }
    // signed compare of same-sign values -> unsigned
    if ((op == OSlt || op == OSle) && a->slo >= 0 && b->slo >= 0) return mkCmp(op == OSlt ? OUlt : OUle, a, b);
    // narrow
    if (op == OUlt || op == OUle || op == OEq) {
        unsigned nb = bitsU(std::max(a->uhi, b->uhi));
        if (nb < a->w && !(a->hasFP && a->op >= OFAdd) && !(b->hasFP && b->op >= OFAdd)) {
            E x = mkExtract(a, 0, nb), y = mkExtract(b, 0, nb);
            return mkCmp(op, x, y);
        }
    }
    if (op == OSlt || op == OSle || op == OEq) {
        unsigned nb = std::max(bitsS(a->slo, a->shi), bitsS(b->slo, b->shi));
        if (nb < a->w && !(a->hasFP && a->op >= OFAdd) && !(b->hasFP && b->op >= OFAdd)) {
            E x = mkExtract(a, 0, nb), y = mkExtract(b, 0, nb);
            return mkCmp(op, x, y);
        }
    }
    // x + c < k  with no overflow: move constant
    if ((op == OSlt || op == OSle) && b->op == OConst && a->op == OAdd && a->b->op == OConst) {
        i128 c = sx(a->b->cval, a->w), kk = sx(b->cval, a->w);
        i128 lo = (i128)a->a->slo + c, hi = (i128)a->a->shi + c;
        i128 mn = sx(1ull << (a->w - 1), a->w), mx = (i128)(maskw(a->w) >> 1);
        if (lo >= mn && hi <= mx && kk - c >= mn && kk - c <= mx) return mkCmp(op, a->a, mkConst(a->w, (uint64_t)(int64_t)(kk - c)));
    }
    if ((op == OSlt || op == OSle) && a->op == OConst && b->op == OAdd && b->b->op == OConst) {
        i128 c = sx(b->b->cval, a->w), kk = sx(a->cval, a->w);
        i128 lo = (i128)b->a->slo + c, hi = (i128)b->a->shi + c;
        i128 mn = sx(1ull << (a->w - 1), a->w), mx = (i128)(maskw(a->w) >> 1);
        if (lo >= mn && hi <= mx && kk - c >= mn && kk - c <= mx) return mkCmp(op, mkConst(a->w, (uint64_t)(int64_t)(kk - c)), b->a);
    }
    if (op == OEq && a->id > b->id && b->op != OConst) std::swap(a, b);
    return raw(op, 1, a, b);
}

E mkDyadic(unsigned w, E k, int32_t s) {
    if (k->op == OConst) return mkConst(w, evalOp(ODyadic, w, s, 64, k->cval, 0, 0));
    Expr e; e.op = ODyadic; e.w = w; e.a = k; e.aux = s;
    return intern(e);
}
static bool constDyadic(unsigned w, uint64_t bits, int64_t &k, int &s) {
    double d = fpv(w, bits);
    if (!std::isfinite(d)) return false;
    if (d == 0) { k = 0; s = 0; return true; }
    int ex;
    double m = frexp(d, &ex); // |m| in [0.5,1)
    int64_t mm = (int64_t)ldexp(m, 53);
    s = ex - 53;
    int tz = __builtin_ctzll((uint64_t)mm);
    mm >>= tz; s += tz;
    // integers: keep s<=0 small positive shift folded
    while (s > 0 && std::llabs(mm) < (1ll << 50)) { mm <<= 1; s--; }
    k = mm;
    return true;
}
static bool asDyadic(E e, E &k, int &s) {
    if (e->op == ODyadic) { k = e->a; s = e->aux; return true; }
    if (e->op == OConst) {
        int64_t kk;
        if (!constDyadic(e->w, e->cval, kk, s)) return false;
        k = mkConst(64, (uint64_t)kk);
        return true;
    }
    if (e->op == OTable) {
        int smin = 0; 
        std::vector<std::pair<int64_t, int>> v;
        for (auto x : *e->tab) {
            int64_t kk; int ss;
            if (!constDyadic(e->w, x, kk, ss)) return false;
            if (std::llabs(kk) > (1ll << 50)) return false;
            v.push_back({kk, ss});
            if (kk) smin = std::min(smin, ss);
        }
        auto n = std::make_shared<std::vector<uint64_t>>();
        for (auto &p : v) {
            if (p.first == 0) { n->push_back(0); continue; }
            int d = p.second - smin;
            if (d > 30) return false;
            int64_t kk = p.first << d;
            if (std::llabs(kk) > (1ll << 30)) return false;
            n->push_back((uint64_t)kk);
        }
        k = mkTable(64, e->a, n);
        s = smin;
        return true;
    }
    return false;
}
static bool alignDy(E &ka, int sa, E &kb, int sb, int &s, i128 lim) {
    if (ka->op == OConst && ka->cval == 0) sa = sb;
    if (kb->op == OConst && kb->cval == 0) sb = sa;
    s = std::min(sa, sb);
    int da = sa - s, db = sb - s;
    if (da > 62 || db > 62) return false;
    i128 ma = std::max<i128>(std::llabs(ka->slo), std::llabs(ka->shi)), mb = std::max<i128>(std::llabs(kb->slo), std::llabs(kb->shi));
    if ((ma << da) > lim || (mb << db) > lim) return false;
    if (da) ka = mkBin(OShl, ka, mkConst(64, da));
    if (db) kb = mkBin(OShl, kb, mkConst(64, db));
    return true;
}
static int leafCount(E e, int lim) {
    if (e->op != OIte) return 1;
    int l = leafCount(e->b, lim);
    if (l >= lim) return l;
    return l + leafCount(e->c, lim);
}
static bool simpleFP(E e) { return e->op == OConst || e->op == ODyadic || e->op == OTable; }
static bool simpleLeaves(E e) { return e->op == OIte ? simpleLeaves(e->b) && simpleLeaves(e->c) : simpleFP(e); }

E mkFP(Op op, unsigned w, E a, E b, E c, int32_t aux) {
    unsigned wa = a->w;
    bool ac = a->op == OConst, bc = !b || b->op == OConst, cc = !c || c->op == OConst;
    if (ac && bc && cc) return mkConst(w, evalOp(op, w, aux, wa, a->cval, b ? b->cval : 0, c ? c->cval : 0));
    i128 lim = (w == 32 && !(op == OFEq || op == OFLt || op == OFLe)) ? ((i128)1 << 24) : ((i128)1 << 53);
    auto inl = [&](E k) { return (i128)k->slo >= -lim && (i128)k->shi <= lim; };
    // integer to float
    if (op == OSIToF) {
        if ((i128)a->slo >= -lim && (i128)a->shi <= lim) return mkDyadic(w, mkSExt(a, 64), 0);
        return raw(op, w, a);
    }
    if (op == OUIToF) {
        if ((i128)a->uhi <= lim) return mkDyadic(w, mkZExt(a, 64), 0);
        return raw(op, w, a);
    }
    if (op == OFEq || op == OFLt || op == OFLe) {
        if (a == b && (a->op == ODyadic)) return mkConst(1, op != OFLt);
        // NaN constants
        if (ac && std::isnan(fpv(wa, a->cval))) return mkConst(1, 0);
        if (b->op == OConst && std::isnan(fpv(wa, b->cval))) return mkConst(1, 0);
        if ((a->op == ODyadic && b->op == OConst) || (ac && b->op == ODyadic)) {
            bool left = a->op == ODyadic;
            E d = left ? a : b;
            double k = fpv(wa, left ? b->cval : a->cval);
            E kk = d->a;
            auto val = [&](int64_t x) { return ldexp((double)x, d->aux); };
            if (op == OFEq) {
                if (std::isinf(k)) return mkConst(1, 0);
                double q = ldexp(k, -d->aux);
                if (q != floor(q) || fabs(q) > 9e15 || val((int64_t)q) != k) return mkConst(1, 0);
                return mkCmp(OEq, kk, mkConst(64, (uint64_t)(int64_t)q));
            }
            // monotone predicate: find boundary t: first x in [slo, shi+1] where val(x) >= k (or > k)
            bool strictGE = (left ? op == OFLt : op == OFLe); // boundary where val(x) >= k
            i128 lo = kk->slo, hi = (i128)kk->shi + 1;
            while (lo < hi) {
                i128 m = lo + (hi - lo) / 2;
                double v = val((int64_t)m);
                bool p = strictGE ? v >= k : v > k;
                if (p) hi = m; else lo = m + 1;
            }
            // left, Lt: d<k <=> kk < t ; left, Le: d<=k <=> kk < t(with >)
            // right, Lt: k<d <=> kk >= t(with >) ; right, Le: k<=d <=> kk >= t(>=)
            if (lo > I64MAX) return mkConst(1, left);
            E t = mkConst(64, (uint64_t)(int64_t)lo);
            return left ? mkCmp(OSlt, kk, t) : mkCmp(OSle, t, kk);
        }
        E ka, kb; int sa, sb, s;
        if ((a->op == ODyadic || b->op == ODyadic) && asDyadic(a, ka, sa) && asDyadic(b, kb, sb) && alignDy(ka, sa, kb, sb, s, (i128)1 << 61))
            return mkCmp(op == OFEq ? OEq : op == OFLt ? OSlt : OSle, ka, kb);
        E i1, i2; TabP t1, t2;
        if (a->op == OConst || b->op == OConst) {
            E r = tryTab2(op, 1, a, b, TABCAP);
            if (r) return r;
        } else if (asTable(a, i1, t1) && asTable(b, i2, t2)) {
            if (i1 == i2) { E r = tryTab2(op, 1, a, b, TABCAP); if (r) return r; }
            // rank encoding
            std::vector<double> all;
            for (auto v : *t1) if (!std::isnan(fpv(wa, v))) all.push_back(fpv(wa, v));
            for (auto v : *t2) if (!std::isnan(fpv(wa, v))) all.push_back(fpv(wa, v));
            std::sort(all.begin(), all.end());
            all.erase(std::unique(all.begin(), all.end()), all.end());
            unsigned nb = bitsU(all.size() + 1);
            auto rank = [&](const TabP &t, bool &nan) {
                auto n = std::make_shared<std::vector<uint64_t>>();
                for (auto v : *t) {
                    double d = fpv(wa, v);
                    if (std::isnan(d)) { nan = true; n->push_back(0); }
                    else n->push_back(std::lower_bound(all.begin(), all.end(), d) - all.begin());
                }
                return n;
            };
            bool n1 = false, n2 = false;
            E r1 = mkTable(nb, i1, rank(t1, n1)), r2 = mkTable(nb, i2, rank(t2, n2));
            E r = mkCmp(op == OFEq ? OEq : op == OFLt ? OUlt : OUle, r1, r2);
            if (n1) r = mkBin(OAnd, r, mkNot(mkFP(OFIsNaN, 1, a)));
            if (n2) r = mkBin(OAnd, r, mkNot(mkFP(OFIsNaN, 1, b)));
            return r;
        }
        if ((a->op == OIte || b->op == OIte) && leafCount(a, 17) * leafCount(b, 17) <= 32 && simpleLeaves(a) && simpleLeaves(b)) {
            E x = a->op == OIte ? a : b;
            if (x == a) return mkIte(a->a, mkFP(op, w, a->b, b), mkFP(op, w, a->c, b));
            return mkIte(b->a, mkFP(op, w, a, b->b), mkFP(op, w, a, b->c));
        }
        E r = raw(op, w, a, b);
        if (r->op != OConst) if (E t = tabulate(r, TABCAP)) return t;
        return r;
    }
    if (op == OFIsNaN) {
        if (a->op == ODyadic) return mkConst(1, 0);
        if (a->op == OSIToF || a->op == OUIToF) return mkConst(1, 0);
    }
    // dyadic arithmetic
    {
        E ka, kb; int sa, sb, s;
        switch (op) {
        case OFAdd: case OFSub:
            if (asDyadic(a, ka, sa) && asDyadic(b, kb, sb) && alignDy(ka, sa, kb, sb, s, lim)) {
                E k = mkBin(op == OFAdd ? OAdd : OSub, ka, kb);
                if (inl(k) && s > -1000 && s < 900) return mkDyadic(w, k, s);
            }
            break;
        case OFMul:
            if (b->op == OConst && fpv(w, b->cval) == 1.0) return a;
            if (a->op == OConst && fpv(w, a->cval) == 1.0) return b;
            if (asDyadic(a, ka, sa) && asDyadic(b, kb, sb)) {
                E k = mkBin(OMul, ka, kb);
                // product range must not have wrapped: check with 128-bit
                i128 m = std::max<i128>(std::llabs(ka->slo), std::llabs(ka->shi)) * std::max<i128>(std::llabs(kb->slo), std::llabs(kb->shi));
                if (m <= lim && inl(k) && sa + sb > -1000 && sa + sb < 900) return mkDyadic(w, k, sa + sb);
            }
            break;
        case OFFma:
            {
                E p = mkFP(OFMul, w, a, b);
                if (p->op == ODyadic || p->op == OConst) {
                    E r = mkFP(OFAdd, w, p, c);
                    if (r->op == ODyadic || r->op == OConst) {
                        E k1, k2; int s1, s2;
                        if (p->op == ODyadic || (asDyadic(a, k1, s1) && asDyadic(b, k2, s2))) return r;
                    }
                }
            }
            break;
        case OFDiv:
            if (b->op == OConst && fpv(w, b->cval) == 1.0) return a;
            if (b->op == OConst && asDyadic(a, ka, sa)) {
                int64_t kk; int ss;
                if (constDyadic(w, b->cval, kk, ss) && kk != 0) {
                    int tz = __builtin_ctzll((uint64_t)kk);
                    int64_t od = kk >> tz;
                    if ((od == 1 || od == -1) && std::abs(sa - ss - tz) < 900) {
                        E k = od == 1 ? ka : mkBin(OSub, mkConst(64, 0), ka);
                        return mkDyadic(w, k, sa - ss - tz);
                    }
                }
            }
            break;
        case OFFloor: case OFCeil: case OFTrunc: case OFRound: case OFRint:
            if (asDyadic(a, ka, sa) && a->op == ODyadic) {
                if (sa >= 0) return a;
                int n = -sa;
                if (n < 60) {
                    E z = mkConst(64, 0), sh = mkConst(64, n);
                    E fl = mkBin(OAShr, ka, sh);
                    E ce = mkBin(OSub, z, mkBin(OAShr, mkBin(OSub, z, ka), sh));
                    E neg = mkCmp(OSlt, ka, z);
                    E k = fl;
                    if (op == OFCeil) k = ce;
                    else if (op == OFTrunc) k = mkIte(neg, ce, fl);
                    else if (op == OFRound || op == OFRint) {
                        E half = mkConst(64, 1ull << (n - 1));
                        E up = mkBin(OAShr, mkBin(OAdd, ka, half), sh); // floor(x+.5)
                        E dn = mkBin(OSub, z, mkBin(OAShr, mkBin(OAdd, mkBin(OSub, z, ka), half), sh)); // -floor(-x+.5)
                        if (op == OFRound) k = mkIte(neg, dn, up);
                        else { // half to even: when up!=dn (tie) choose even
                            E odd = mkCmp(OEq, mkExtract(up, 0, 1), mkConst(1, 1));
                            k = mkIte(odd, dn, up);
                        }
                    }
                    return mkDyadic(w, k, 0);
                }
            }
            break;
        case OFToSI: case OFToUI:
            if (a->op == ODyadic) {
                ka = a->a; sa = a->aux;
                E k = ka;
                if (sa < 0 && -sa < 62) {
                    E z = mkConst(64, 0), sh = mkConst(64, -sa);
                    k = mkIte(mkCmp(OSlt, ka, z), mkBin(OSub, z, mkBin(OAShr, mkBin(OSub, z, ka), sh)), mkBin(OAShr, ka, sh));
                } else if (sa > 0) {
                    if (sa > 8) break;
                    k = mkBin(OShl, ka, mkConst(64, sa));
                } else if (sa < 0) break;
                i128 lo = op == OFToSI ? -((i128)1 << (w - 1)) : 0, hi = op == OFToSI ? ((i128)1 << (w - 1)) - 1 : ((i128)1 << w) - 1;
                if ((i128)k->slo >= lo && (i128)k->shi <= hi) return w < 64 ? mkExtract(k, 0, w) : k;
            }
            break;
        case OFExt: if (a->op == ODyadic) return mkDyadic(64, a->a, a->aux); break;
        case OFTruncW:
            if (a->op == ODyadic && (i128)a->a->slo >= -((i128)1 << 24) && (i128)a->a->shi <= ((i128)1 << 24) && a->aux > -120 && a->aux < 90) return mkDyadic(32, a->a, a->aux);
            if (a->op == OFExt) return a->a;
            break;
        default: break;
        }
    }
    // tables
    if (!b) {
        E i; TabP t;
        if (asTable(a, i, t)) {
            auto n = std::make_shared<std::vector<uint64_t>>();
            for (auto v : *t) n->push_back(evalOp(op, w, aux, wa, v, 0, 0));
            return mkTable(w, i, n);
        }
        if (a->op == OIte && leafCount(a, 33) <= 32 && simpleLeaves(a)) return mkIte(a->a, mkFP(op, w, a->b, nullptr, nullptr, aux), mkFP(op, w, a->c, nullptr, nullptr, aux));
    } else if (!c) {
        E r = tryTab2(op, w, a, b, TABCAP);
        if (r) return r;
        if ((a->op == OIte || b->op == OIte) && leafCount(a, 17) * leafCount(b, 17) <= 16 && simpleLeaves(a) && simpleLeaves(b)) {
            if (a->op == OIte) return mkIte(a->a, mkFP(op, w, a->b, b), mkFP(op, w, a->c, b));
            return mkIte(b->a, mkFP(op, w, a, b->b), mkFP(op, w, a, b->c));
        }
    }
    E r = raw(op, w, a, b, c, aux);
    if (r->op != OConst) if (E t = tabulate(r, TABCAP)) return t;
    return r;
}

std::string exprStr(E e, int d) {
    static const char *nm[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "zext", "sext", "ext", "cat", "ite", "eq", "ult", "ule", "slt", "sle", "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "ffma", "ffloor", "fceil", "ftrunc", "fround", "frint", "fmath", "feq", "flt", "fle", "isnan", "ftosi", "ftoui", "sitof", "uitof", "fext", "ftr", "dy", "tab"};
    if (!e) return "nil";
    if (e->op == OConst) return std::to_string(sx(e->cval, e->w));
    if (e->op == OVar) return cx->vars[e->cval].name + "#" + std::to_string(e->cval);
    if (d == 0) return "..";
    std::string s = std::string("(") + nm[e->op] + std::to_string(e->w);
    if (e->op == OExtract || e->op == ODyadic) s += "@" + std::to_string(e->aux);
    if (e->op == OTable) s += "[" + std::to_string(e->tab->size()) + "]";
    for (E x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
    return s + ")";
}
