// Decision tree and forest inference through the public interface.
#include "hapi.h"
#include <cmath>
#ifdef TIER_THOROUGH
#define TT 1
#else
#define TT 0
#endif
// A training set whose fully grown tree is known: only one feature varies; labels change at known values.
// depth 29: 0 | 2 | 1 | 0 at thresholds 0.5, 1.5, 2.5;  depth 1 with labels 0 0 1 0: thresholds 1.5, right side mixed
struct Model { int nf, info, deep; da_order o; da_int ld; };
template <class T> static void data(const Model &M, T *X, da_int *y, int n) {
    for (int i = 0; i < 16; i++) X[i] = (T)-5;
    static const da_int deep[4] = {0, 2, 1, 0}, flat[4] = {0, 0, 1, 0};
    for (int i = 0; i < n; i++) {
        y[i] = (M.deep ? deep : flat)[i];
        for (int j = 0; j < M.nf; j++) at(X, M.o, M.ld, i, j) = j == M.info ? (T)i : (T)2;
    }
}
template <class T> static void want(const Model &M, T x, T *p, int &c) {
    for (int k = 0; k < 3; k++) p[k] = 0;
    if (M.deep) { int k = x < (T)0.5 ? 0 : x < (T)1.5 ? 2 : x < (T)2.5 ? 1 : 0; p[k] = 1; c = k; }
    else { p[0] = x < (T)1.5 ? 1 : (T)0.5; p[1] = x < (T)1.5 ? 0 : (T)0.5; c = 0; }
}
static const char *orders[] = {"column-major", "row-major"};
template <class T> static void infer(int forest) {
    sym_omp(forest ? 2 : 1, forest ? sym_choose("ord", 0, 1) : 0);
    sym_leakmark();
    da_handle h = nullptr;
    sym_assert(api<T>::init(&h, forest ? da_handle_decision_forest : da_handle_decision_tree) == da_status_success, "init");
    Model M;
    int row = sym_choose("row", 0, 1), pad = sym_choose("pad", 0, 1);
    M.o = row ? row_major : column_major;
    M.nf = 2;
    M.info = sym_choose("informative", 0, 1);
    M.deep = sym_choose("deep", 0, 1);
    int n = 4, nc = M.deep ? 3 : 2, q = forest ? 3 : 2;
    M.ld = (row ? M.nf : n) + pad;
    bool ok = da_options_set_string(h, "storage order", orders[row]) == da_status_success;
    ok &= da_options_set_int(h, "seed", 42) == da_status_success && da_options_set_int(h, "node minimum samples", 1) == da_status_success;
    if (!M.deep) ok &= da_options_set_int(h, "maximum depth", 1) == da_status_success;
    if (forest) {
        ok &= da_options_set_int(h, "number of trees", 2) == da_status_success;
        ok &= da_options_set_int(h, "block size", sym_choose("block", 1, 2)) == da_status_success;
        ok &= da_options_set_string(h, "bootstrap", "no") == da_status_success;
        ok &= da_options_set_string(h, "features selection", "all") == da_status_success;
    } else
        ok &= da_options_set_string(h, "predict probabilities", "yes") == da_status_success;
    sym_assert(ok, "options accepted");
    T X[16], Q[16], P[16];
    da_int y[4];
    data(M, X, y, n);
    sym_assert(api<T>::df_data(forest, h, n, M.nf, sym_choose("give classes", 0, 1) ? nc : 0, X, M.ld, y) == da_status_success, "training data accepted");
    sym_assert(api<T>::df_fit(forest, h) == da_status_success, "training succeeds");
    da_int lq = (row ? M.nf : q) + pad, lp = (row ? nc : q) + pad;
    for (int i = 0; i < 16; i++) Q[i] = (T)-5, P[i] = (T)-7;
    T wp[3][3];
    int wc[3];
    for (int i = 0; i < q; i++) {
        T v = i == 0 ? sym_dyT<T>("q", -1, 8, -1) : i == 1 ? sym_dyT<T>("r", 2, 6, -1) : (T)1;
        at(Q, M.o, lq, i, M.info) = v;
        at(Q, M.o, lq, i, 1 - M.info) = (T)(3 * i);
        want(M, v, wp[i], wc[i]);
    }
    da_int yp[5] = {-7, -7, -7, -7, -7};
    sym_assert(api<T>::df_predict(forest, h, q, M.nf, Q, lq, yp) == da_status_success, "prediction succeeds");
    bool pok = true, prok = true, rest = true;
    for (int i = 0; i < 5; i++) if (i < q) pok &= yp[i] == wc[i]; else rest &= yp[i] == -7;
    sym_assert(pok, "predicted classes");
    int lg = sym_choose("log", 0, 1);
    sym_assert((lg ? api<T>::df_log : api<T>::df_proba)(forest, h, q, M.nf, Q, lq, P, nc, lp) == da_status_success, "probabilities available");
    for (int i = 0; i < q; i++) for (int k = 0; k < nc; k++) {
        T g = at(P, M.o, lp, i, k);
        prok &= lg ? wp[i][k] == 0 ? g < -1e30 : wp[i][k] == 1 ? g == 0 : std::fabs(g + (T)0.69314718) < 1e-5 : g == wp[i][k];
    }
    for (int i = 0; i < (row ? q : nc); i++) for (int k = row ? nc : q; k < lp; k++) rest &= P[i * lp + k] == (T)-7;
    sym_assert(prok, "class probabilities are the averages over the trees");
    sym_assert(rest, "nothing else is written");
    da_int yt[3];
    int hits = 0;
    for (int i = 0; i < q; i++) yt[i] = (da_int)sym_int("truth", 0, 1), hits += yt[i] == wc[i];
    T sc = -1;
    sym_assert(api<T>::df_score(forest, h, q, M.nf, Q, lq, yt, &sc) == da_status_success, "score available");
    sym_assert(std::fabs(sc - (T)hits / q) < 1e-6, "the score is the fraction of samples predicted correctly");
    sym_reach("infer");
    da_handle_destroy(&h);
    sym_leakcheck();
}
HARNESS(infer_tree) { infer<double>(0); }
HARNESS(infer_tree_f) { infer<float>(0); }
HARNESS(infer_forest) { infer<double>(1); }
HARNESS(infer_forest_f) { infer<float>(1); }
// an integer in [lo, hi]: the ends or one near zero
static da_int near0(const char *nm, da_int lo, da_int hi) {
    int k = sym_choose("kind", 0, 2);
    return k == 0 ? lo : k == 1 ? hi : (da_int)sym_int(nm, lo < -12 ? -12 : lo, hi > 12 ? 12 : hi);
}
// Rejected calls: an error status, nothing written, nothing leaked, and the model still works.
template <class T> static void args(int forest) {
    sym_omp(1, 0);
    sym_leakmark();
    da_handle h = nullptr;
    sym_assert(api<T>::init(&h, forest ? da_handle_decision_forest : da_handle_decision_tree) == da_status_success, "init");
    Model M;
    int row = sym_choose("row", 0, 1);
    M.o = row ? row_major : column_major;
    M.nf = 2;
    M.info = 0;
    M.deep = 1;
    int n = 4, nc = 3, q = 2;
    M.ld = row ? M.nf : n;
    da_options_set_string(h, "storage order", orders[row]);
    da_options_set_int(h, "seed", 42);
    da_options_set_int(h, "node minimum samples", 1);
    if (forest) { da_options_set_int(h, "number of trees", 2); da_options_set_string(h, "bootstrap", "no"); da_options_set_string(h, "features selection", "all"); }
    else da_options_set_string(h, "predict probabilities", "yes");
    T X[16], Q[16], P[16];
    for (int i = 0; i < 16; i++) Q[i] = 1, P[i] = -7;
    da_int y[4], yp[4] = {-7, -7, -7, -7}, yt[4] = {0, 0, 0, 0};
    T sc = -7;
    data(M, X, y, n);
    int when = sym_choose("trained", 0, 2);
    if (when > 0) sym_assert(api<T>::df_data(forest, h, n, M.nf, nc, X, M.ld, y) == da_status_success, "training data accepted");
    if (when > 1) sym_assert(api<T>::df_fit(forest, h) == da_status_success, "training succeeds");
    da_int lq = row ? 2 : q, lp = row ? nc : q;
    da_int am = q, an = 2, al = lq, ac = nc, alp = lp;
    const T *aq = Q;
    T *ap = P, *as = &sc;
    da_int *ay = yp;
    const da_int *at_ = yt;
    int what = sym_choose("wrong", 0, 7), f = sym_choose("call", 0, 4);
    bool bad = when < 2;
    if (f == 4 && what < 5) f = 3; // training calls have their own harness below
    switch (what) {
    case 0: break;
    case 1: am = near0("m", INT_MIN, 0); bad = true; break;
    case 2: an = near0("n", INT_MIN, INT_MAX); bad |= an != 2; sym_assume(an != 2); break;
    case 3: al = near0("ld", INT_MIN, lq - 1); bad = true; break;
    case 4: aq = nullptr; bad = true; break;
    case 5: if (f == 1 || f == 2) { ac = near0("nc", INT_MIN, INT_MAX); sym_assume(ac != nc); bad = true; } break;
    case 6: if (f == 1 || f == 2) { alp = near0("ldp", INT_MIN, lp - 1); bad = true; } break;
    case 7: ap = nullptr; as = nullptr; ay = nullptr; bad = true; break;
    }
    da_status s = f == 0   ? api<T>::df_predict(forest, h, am, an, aq, al, ay)
                  : f == 1 ? api<T>::df_proba(forest, h, am, an, aq, al, ap, ac, alp)
                  : f == 2 ? api<T>::df_log(forest, h, am, an, aq, al, ap, ac, alp)
                  : f == 3 ? api<T>::df_score(forest, h, am, an, aq, al, at_, as)
                           : api<T>::df_score(forest, h, am, an, aq, al, nullptr, &sc);
    if (f == 4) bad = true;
    sym_assert((s != da_status_success) == bad, "bad arguments and untrained models are reported, good ones accepted");
    if (bad) {
        bool clean = sc == (T)-7;
        for (int i = 0; i < 4; i++) clean &= yp[i] == -7;
        for (auto p : P) clean &= p == (T)-7;
        sym_assert(clean, "a rejected call leaves the outputs alone");
        if (when == 2) {
            sym_assert(api<T>::df_predict(forest, h, q, 2, Q, lq, yp) == da_status_success && yp[0] == 2 && yp[1] == 2, "the model still works");
        }
    }
    sym_reach("args");
    da_handle_destroy(&h);
    sym_leakcheck();
}
HARNESS(infer_args_tree) { args<double>(0); }
HARNESS(infer_args_forest) { args<float>(1); }
// Training data: rejected arrays, refitting, replacing, other precision.
template <class T> static void refit(int forest) {
    sym_omp(1, 0);
    sym_leakmark();
    da_handle h = nullptr;
    sym_assert(api<T>::init(&h, forest ? da_handle_decision_forest : da_handle_decision_tree) == da_status_success, "init");
    Model M;
    int row = sym_choose("row", 0, 1);
    M.o = row ? row_major : column_major;
    M.nf = 2;
    M.info = 0;
    M.deep = 1;
    da_options_set_string(h, "storage order", orders[row]);
    da_options_set_int(h, "seed", 42);
    da_options_set_int(h, "node minimum samples", 1);
    int hist = sym_choose("hist", 0, 1);
    if (hist) da_options_set_string(h, "histogram", "yes"), da_options_set_int(h, "maximum bins", 2);
    if (forest) { da_options_set_int(h, "number of trees", 1); da_options_set_string(h, "bootstrap", "no"); da_options_set_string(h, "features selection", "all"); }
    T X[16], X2[16], Q[8];
    for (int i = 0; i < 8; i++) Q[i] = 1;
    da_int y[4], y2[4], yp[4];
    M.ld = row ? M.nf : 4;
    data(M, X, y, 4);
    sym_assert(api<T>::df_data(forest, h, 4, 2, 3, X, M.ld, y) == da_status_success, "training data accepted");
    if (sym_choose("fit first", 0, 1)) sym_assert(api<T>::df_fit(forest, h) == da_status_success, "training succeeds");
    int what = sym_choose("then", 0, 8);
    bool rejected = false;
    Model N = M;
    switch (what) {
    case 0: rejected = true; sym_assert(api<T>::df_data(forest, h, near0("m", INT_MIN, 0), 2, 3, X, M.ld, y) != da_status_success, "no samples"); break;
    case 1: rejected = true; sym_assert(api<T>::df_data(forest, h, 4, near0("n", INT_MIN, 0), 3, X, M.ld, y) != da_status_success, "no features"); break;
    case 2: rejected = true; sym_assert(api<T>::df_data(forest, h, 4, 2, 3, X, near0("ld", INT_MIN, M.ld - 1), y) != da_status_success, "leading dimension"); break;
    case 3: rejected = true; sym_assert(api<T>::df_data(forest, h, 4, 2, 3, nullptr, M.ld, y) != da_status_success, "null data"); break;
    case 4: rejected = true; sym_assert(api<T>::df_data(forest, h, 4, 2, 3, X, M.ld, nullptr) != da_status_success, "null labels"); break;
    case 5: // fewer classes, one feature
        N.nf = 1; N.deep = 0; N.ld = row ? 1 : 4;
        data(N, X2, y2, 4);
        sym_assert(api<T>::df_data(forest, h, 4, 1, 0, X2, N.ld, y2) == da_status_success, "other data accepted");
        sym_assert(api<T>::df_predict(forest, h, 1, 1, Q, 1, yp) != da_status_success, "a model of replaced data is out of date");
        sym_assert(api<T>::df_fit(forest, h) == da_status_success, "training succeeds");
        sym_assert(api<T>::df_predict(forest, h, 1, 1, Q, 1, yp) == da_status_success && yp[0] == 0, "prediction by the new model");
        break;
    case 6: // more trees or another depth, refit
        if (forest) da_options_set_int(h, "number of trees", 3);
        else da_options_set_int(h, "maximum depth", 28);
        sym_assert(api<T>::df_fit(forest, h) == da_status_success, "training succeeds");
        break;
    case 7: // more bins than the samples allow: the next training fails
        if (!hist) break;
        data(M, X2, y2, 3);
        M.ld = row ? 2 : 3;
        data(M, X2, y2, 3);
        sym_assert(api<T>::df_data(forest, h, 3, 2, 3, X2, M.ld, y2) == da_status_success, "data accepted");
        if (forest) da_options_set_int(h, "number of trees", 3);
        sym_assert(api<T>::df_fit(forest, h) != da_status_success, "too few samples for bins");
        sym_assert(api<T>::df_predict(forest, h, 1, 2, Q, row ? 2 : 1, yp) != da_status_success, "no model after failed training");
        break;
    default: break;
    }
    if (rejected) for (int i = 0; i < 16; i++) X[i] = 0;
    if (what != 7 || !hist) {
        if (what != 5) {
            da_status s = api<T>::df_fit(forest, h);
            (void)s;
            s = api<T>::df_predict(forest, h, 1, 2, Q, row ? 2 : 1, yp);
            sym_assert(rejected || s == da_status_success, "prediction after training");
            if (s == da_status_success && !rejected && !hist) sym_assert(yp[0] == 2, "prediction of the trained model");
            if (s == da_status_success) sym_assert(yp[0] >= 0 && yp[0] < 3, "a class is predicted");
        }
    }
    sym_reach("refit");
    da_handle_destroy(&h);
    sym_leakcheck();
}
HARNESS(refit_tree) { refit<double>(0); }
HARNESS(refit_forest) { refit<double>(1); }
