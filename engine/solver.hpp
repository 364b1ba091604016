#pragma once
#include "expr.hpp"
#include <chrono>
#include <functional>
#include <unordered_set>
#include <z3.h>

struct SolverStats {
    uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, fpQueries = 0;
    double time = 0, maxTime = 0;
};

struct Solver {
    Z3_context ctx = nullptr;
    Z3_solver inc = nullptr;
    unsigned incCount = 0;
    SolverStats st;
    unsigned timeoutMs = 30000;
    std::unordered_map<uint64_t, int> dummy;
    uint32_t gen = 1;

    static void onErr(Z3_context c, Z3_error_code e) {
        fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
        abort();
    }
    void init() {
        Z3_config cfg = Z3_mk_config();
        Z3_set_param_value(cfg, "auto_config", "true");
        ctx = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(ctx, onErr);
        newInc();
    }
    double deadline = 0; // absolute steady-clock seconds, 0: none
    static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
    unsigned budget(unsigned ms) {
        if (!deadline) return ms;
        double left = (deadline - nowS()) * 1000 + 500;
        return left < 100 ? 100 : std::min<double>(ms, left);
    }
    unsigned quickMs = 700;
    void setTimeout(Z3_solver s, unsigned ms = 0) {
        unsigned timeoutMs = budget(ms ? ms : this->timeoutMs);
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
        Z3_solver_set_params(ctx, s, p);
        Z3_params_dec_ref(ctx, p);
    }
    std::unordered_map<E, Z3_ast> lits;
    Z3_tactic qf = nullptr;
    Z3_tactic qfbv() {
        if (!qf) { qf = Z3_mk_tactic(ctx, "qfbv"); Z3_tactic_inc_ref(ctx, qf); }
        return qf;
    }
    void newInc() {
        if (inc) Z3_solver_dec_ref(ctx, inc);
        inc = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
        Z3_solver_inc_ref(ctx, inc);
        setTimeout(inc);
        lits.clear();
        incCount = 0;
    }

    // ---- translation
    Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
    Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx); }
    Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, bvs(w)); }
    Z3_ast toFP(E e) { return Z3_mk_fpa_to_fp_bv(ctx, tr(e), fps(e->w)); }
    Z3_ast fromFP(Z3_ast f, unsigned w) {
        // canonical NaN
        Z3_ast bv = Z3_mk_fpa_to_ieee_bv(ctx, f);
        Z3_ast nan = num(w == 64 ? 0x7ff8000000000000ull : 0x7fc00000ull, w);
        return Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, f), nan, bv);
    }
    Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, num(1, 1), num(0, 1)); }

    Z3_ast tabTree(const std::vector<uint64_t> &t, Z3_ast idx, unsigned iw, uint64_t base, int bit, unsigned w, bool boolean) {
        uint64_t span = bit >= 0 ? (2ull << bit) : 1;
        uint64_t end = std::min<uint64_t>(base + span, t.size());
        bool same = true;
        uint64_t first = base < t.size() ? t[base] : t.back();
        for (uint64_t i = base; i < end && same; i++) same = t[i] == first;
        if (same || bit < 0) return boolean ? (first ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(first, w);
        Z3_ast l = tabTree(t, idx, iw, base, bit - 1, w, boolean);
        if (base + (1ull << bit) >= t.size()) return l;
        Z3_ast h = tabTree(t, idx, iw, base + (1ull << bit), bit - 1, w, boolean);
        Z3_ast bt = Z3_mk_eq(ctx, Z3_mk_extract(ctx, bit, bit, idx), num(1, 1));
        return Z3_mk_ite(ctx, bt, h, l);
    }
    static int topbit(size_t n) { int b = -1; n--; while (n) { b++; n >>= 1; } return b; }

    Z3_ast trb(E e) { // as Bool, e->w==1
        if (e->zbool) return (Z3_ast)e->zbool;
        Z3_ast r;
        switch (e->op) {
        case OConst: r = e->cval ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case OEq:
            if (e->a->w == 1) r = Z3_mk_iff(ctx, trb(e->a), trb(e->b));
            else r = Z3_mk_eq(ctx, tr(e->a), tr(e->b));
            break;
        case OUlt: r = Z3_mk_bvult(ctx, tr(e->a), tr(e->b)); break;
        case OUle: r = Z3_mk_bvule(ctx, tr(e->a), tr(e->b)); break;
        case OSlt: r = Z3_mk_bvslt(ctx, tr(e->a), tr(e->b)); break;
        case OSle: r = Z3_mk_bvsle(ctx, tr(e->a), tr(e->b)); break;
        case OAnd: { Z3_ast x[2] = {trb(e->a), trb(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
        case OOr: { Z3_ast x[2] = {trb(e->a), trb(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
        case OXor:
            if (e->b->op == OConst && e->b->cval) r = Z3_mk_not(ctx, trb(e->a));
            else r = Z3_mk_xor(ctx, trb(e->a), trb(e->b));
            break;
        case OIte: r = Z3_mk_ite(ctx, trb(e->a), trb(e->b), trb(e->c)); break;
        case OFEq: r = Z3_mk_fpa_eq(ctx, toFP(e->a), toFP(e->b)); break;
        case OFLt: r = Z3_mk_fpa_lt(ctx, toFP(e->a), toFP(e->b)); break;
        case OFLe: r = Z3_mk_fpa_leq(ctx, toFP(e->a), toFP(e->b)); break;
        case OFIsNaN: r = Z3_mk_fpa_is_nan(ctx, toFP(e->a)); break;
        case OTable: r = tabTree(*e->tab, tr(e->a), e->a->w, 0, std::min<int>(topbit(e->tab->size()), e->a->w - 1), 1, true); break;
        default: r = Z3_mk_eq(ctx, tr(e), num(1, 1)); break;
        }
        e->zbool = r;
        return r;
    }
    Z3_ast rne() { return Z3_mk_fpa_rne(ctx); }
    Z3_ast tr(E e) {
        if (e->zast) return (Z3_ast)e->zast;
        Z3_ast r = nullptr;
        unsigned w = e->w;
        switch (e->op) {
        case OConst: r = num(e->cval, w); break;
        case OVar: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->cval), bvs(w)); break;
        case OAdd: r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break;
        case OSub: r = Z3_mk_bvsub(ctx, tr(e->a), tr(e->b)); break;
        case OMul: r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b)); break;
        case OUDiv: r = Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b)); break;
        case OSDiv: r = Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b)); break;
        case OURem: r = Z3_mk_bvurem(ctx, tr(e->a), tr(e->b)); break;
        case OSRem: r = Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b)); break;
        case OAnd: if (w == 1) { r = b2bv(trb(e)); break; } r = Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
        case OOr: if (w == 1) { r = b2bv(trb(e)); break; } r = Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break;
        case OXor: if (w == 1) { r = b2bv(trb(e)); break; } r = Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
        case OShl: r = Z3_mk_bvshl(ctx, tr(e->a), tr(e->b)); break;
        case OLShr: r = Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b)); break;
        case OAShr: r = Z3_mk_bvashr(ctx, tr(e->a), tr(e->b)); break;
        case OZExt: r = Z3_mk_zero_ext(ctx, w - e->a->w, tr(e->a)); break;
        case OSExt: r = Z3_mk_sign_ext(ctx, w - e->a->w, tr(e->a)); break;
        case OExtract: r = Z3_mk_extract(ctx, e->aux + w - 1, e->aux, tr(e->a)); break;
        case OConcat: r = Z3_mk_concat(ctx, tr(e->a), tr(e->b)); break;
        case OIte: r = w == 1 ? b2bv(trb(e)) : Z3_mk_ite(ctx, trb(e->a), tr(e->b), tr(e->c)); break;
        case OEq: case OUlt: case OUle: case OSlt: case OSle: case OFEq: case OFLt: case OFLe: case OFIsNaN:
            r = b2bv(trb(e)); break;
        case OTable:
            r = tabTree(*e->tab, tr(e->a), e->a->w, 0, std::min<int>(topbit(e->tab->size()), e->a->w - 1), w, false); break;
        case OFAdd: r = fromFP(Z3_mk_fpa_add(ctx, rne(), toFP(e->a), toFP(e->b)), w); break;
        case OFSub: r = fromFP(Z3_mk_fpa_sub(ctx, rne(), toFP(e->a), toFP(e->b)), w); break;
        case OFMul: r = fromFP(Z3_mk_fpa_mul(ctx, rne(), toFP(e->a), toFP(e->b)), w); break;
        case OFDiv: r = fromFP(Z3_mk_fpa_div(ctx, rne(), toFP(e->a), toFP(e->b)), w); break;
        case OFSqrt: r = fromFP(Z3_mk_fpa_sqrt(ctx, rne(), toFP(e->a)), w); break;
        case OFFma: r = fromFP(Z3_mk_fpa_fma(ctx, rne(), toFP(e->a), toFP(e->b), toFP(e->c)), w); break;
        case OFFloor: r = fromFP(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtn(ctx), toFP(e->a)), w); break;
        case OFCeil: r = fromFP(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtp(ctx), toFP(e->a)), w); break;
        case OFTrunc: r = fromFP(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), toFP(e->a)), w); break;
        case OFRound: r = fromFP(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rna(ctx), toFP(e->a)), w); break;
        case OFRint: r = fromFP(Z3_mk_fpa_round_to_integral(ctx, rne(), toFP(e->a)), w); break;
        case OFToSI: {
            // in range: to_sbv(rtz); otherwise x86 "integer indefinite"
            Z3_ast f = toFP(e->a);
            unsigned iw = w <= 32 ? 32 : 64;
            double lim = ldexp(1.0, iw - 1);
            Z3_ast lo = Z3_mk_fpa_numeral_double(ctx, -lim, fps(e->a->w)), hi = Z3_mk_fpa_numeral_double(ctx, lim, fps(e->a->w));
            Z3_ast t = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), f);
            Z3_ast c[2] = {Z3_mk_fpa_geq(ctx, t, lo), Z3_mk_fpa_lt(ctx, t, hi)};
            r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, c), Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), f, iw), num(1ull << (iw - 1), iw));
            if (iw != w) r = Z3_mk_extract(ctx, w - 1, 0, r);
            break;
        }
        case OFToUI: {
            Z3_ast f = toFP(e->a);
            r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), f, w);
            break;
        }
        case OSIToF: r = fromFP(Z3_mk_fpa_to_fp_signed(ctx, rne(), tr(e->a), fps(w)), w); break;
        case OUIToF: r = fromFP(Z3_mk_fpa_to_fp_unsigned(ctx, rne(), tr(e->a), fps(w)), w); break;
        case OFExt: r = fromFP(Z3_mk_fpa_to_fp_float(ctx, rne(), toFP(e->a), fps(64)), 64); break;
        case OFTruncW: r = fromFP(Z3_mk_fpa_to_fp_float(ctx, rne(), toFP(e->a), fps(32)), 32); break;
        case ODyadic: {
            Z3_ast k = Z3_mk_fpa_to_fp_signed(ctx, rne(), tr(e->a), fps(w));
            Z3_ast s = Z3_mk_fpa_numeral_double(ctx, ldexp(1.0, e->aux), fps(w));
            r = fromFP(Z3_mk_fpa_mul(ctx, rne(), k, s), w);
            break;
        }
        case OFRem: case OFMath: {
            // left free for the solver
            r = Z3_mk_fresh_const(ctx, "unint", bvs(w));
            break;
        }
        default: fprintf(stderr, "tr op %d\n", e->op); abort();
        }
        e->zast = r;
        return r;
    }

    Z3_ast lit(E c) {
        auto it = lits.find(c);
        if (it != lits.end()) return it->second;
        Z3_ast p = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("l" + std::to_string(gen) + "_" + std::to_string(c->id)).c_str()), Z3_mk_bool_sort(ctx));
        Z3_solver_assert(ctx, inc, Z3_mk_implies(ctx, p, trb(c)));
        lits[c] = p;
        incCount++;
        return p;
    }
    // cache: hash of constraint set -> result (with model)
    struct CE { std::vector<uint32_t> key; int res; std::vector<std::pair<uint32_t, uint64_t>> model; };
    std::unordered_map<uint64_t, std::vector<CE>> cache;

    E varRange(uint32_t v) {
        auto &vi = cx->vars[v];
        if (vi.hi >= maskw(vi.w)) return nullptr;
        // raw comparison (the range analysis would fold it to true)
        static std::unordered_map<uint32_t, E> memo;
        auto it = memo.find(v);
        if (it != memo.end()) return it->second;
        Expr *k = new Expr();
        k->op = OUle; k->w = 1; k->a = vi.e; k->b = mkConst(vi.w, vi.hi);
        k->id = cx->nextId++; k->vars = vi.e->vars; k->uhi = 1; k->slo = -1;
        memo[v] = k;
        return k;
    }
    bool modelOnHost = true;
    bool forceFresh = false;
    // 1 sat, 0 unsat, -1 unknown. On sat fills assign for the variables concerned.
    int check(std::vector<E> cs, Assign &as) {
        std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
        cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
        std::vector<uint32_t> key;
        uint64_t h = 1469598103934665603ull;
        const VarSet *vs = cx->emptyVS;
        bool fp = false;
        for (E c : cs) {
            if (c->op == OConst) { if (!c->cval) return 0; continue; }
            key.push_back(c->id);
            h = (h ^ c->id) * 1099511628211ull;
            vs = cx->unionVS(vs, c->vars);
            fp |= c->hasFP;
        }
        auto &bucket = cache[h];
        for (auto &ce : bucket)
            if (ce.key == key) {
                st.cacheHits++;
                if (ce.res == 1) { for (auto &p : ce.model) { if (as.v.size() <= p.first) as.v.resize(p.first + 1, 0); as.v[p.first] = p.second; } }
                return ce.res;
            }
        auto t0 = std::chrono::steady_clock::now();
        std::vector<E> all(cs);
        for (auto v : *vs) if (E r = varRange(v)) all.push_back(r);
        int res; Z3_model m = nullptr;
        Z3_solver used = inc;
        bool fresh = fp;
        if (fp) {
            st.fpQueries++;
            used = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV"));
            Z3_solver_inc_ref(ctx, used);
            setTimeout(used);
            for (E c : all) if (c->op != OConst) Z3_solver_assert(ctx, used, trb(c));
            Z3_lbool r = Z3_solver_check(ctx, used);
            res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        } else {
            if (incCount > 3000) { gen++; newInc(); used = inc; }
            std::vector<Z3_ast> as2;
            for (E c : all) if (c->op != OConst) as2.push_back(lit(c));
            setTimeout(inc, std::min(quickMs, timeoutMs));
            Z3_lbool r = forceFresh ? Z3_L_UNDEF : Z3_solver_check_assumptions(ctx, inc, as2.size(), as2.data());
            res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
            if (res < 0) { gen++; newInc(); }   // an interrupted incremental solver is not used again
            if (res < 0 && (forceFresh || timeoutMs > quickMs)) {
                // a fresh solver gets the full preprocessing
                used = Z3_mk_solver_from_tactic(ctx, qfbv());
                Z3_solver_inc_ref(ctx, used);
                fresh = true;
                setTimeout(used);
                for (E c : all) if (c->op != OConst) Z3_solver_assert(ctx, used, trb(c));
                r = Z3_solver_check(ctx, used);
                res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
            }
        }
        std::vector<std::pair<uint32_t, uint64_t>> mod;
        if (res == 1) {
            m = Z3_solver_get_model(ctx, used);
            Z3_model_inc_ref(ctx, m);
            for (auto v : *vs) {
                Z3_ast out; uint64_t val = 0;
                Z3_model_eval(ctx, m, tr(cx->vars[v].e), true, &out);
                if (!Z3_get_numeral_uint64(ctx, out, &val)) val = 0;
                mod.push_back({v, val});
            }
            Z3_model_dec_ref(ctx, m);
            // a model must satisfy what was asked
            Assign t = as;
            for (auto &p : mod) { if (t.v.size() <= p.first) t.v.resize(p.first + 1, 0); t.v[p.first] = p.second; }
            bool good = true;
            for (auto &p : mod) good &= p.second <= cx->vars[p.first].hi;
            if (!fp) { cx->epoch++; for (E c : cs) if (good && c->op != OConst) good = evalRec(c, t) & 1; }
            if (!good) {
                fprintf(stderr, "symir: the solver's model does not satisfy the query\n");
                gen++; newInc();
                if (!forceFresh) {
                    if (fresh) Z3_solver_dec_ref(ctx, used);
                    forceFresh = true;
                    int r2 = check(cs, as);
                    forceFresh = false;
                    return r2;
                }
                res = -1;
                mod.clear();
            }
            for (auto &p : mod) { if (as.v.size() <= p.first) as.v.resize(p.first + 1, 0); as.v[p.first] = p.second; }
        }
        if (fresh) Z3_solver_dec_ref(ctx, used);
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        st.time += dt; st.maxTime = std::max(st.maxTime, dt);
        st.queries++;
        if (res == 1) st.sat++; else if (res == 0) st.unsat++; else st.unknown++;
        if (getenv("SYMIR_SLOW") && dt > atof(getenv("SYMIR_SLOW"))) {
            fprintf(stderr, "slow query %.2fs res=%d n=%zu fp=%d last=%s\n", dt, res, cs.size(), fp, exprStr(cs.back(), 8).c_str());
        }
        bucket.push_back({key, res, mod});
        return res;
    }
};
