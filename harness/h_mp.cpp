// Model persistence: what is saved can be loaded and behaves the same; damaged data is refused safely.
#include "hapi.h"
#include "aoclda.hpp"
#include "da_vector.hpp"
#include "model_persistence.hpp"
#include <cmath>
#include <vector>
#ifdef TIER_THOROUGH
#define TT 1
#else
#define TT 0
#endif
using namespace da_model_persistence;
static const char *orders[] = {"column-major", "row-major"};
#define OK(e, m) sym_assert((e) == da_status_success, m)
// --- trees and forests
template <class T> static da_handle trained(int forest, int row, int deep, int hist, int &nf, int &nc) {
    static const da_int ydeep[5] = {0, 2, 1, 0, 1}, yflat[5] = {0, 0, 1, 0, 0};
    da_handle h = nullptr;
    OK(api<T>::init(&h, forest ? da_handle_decision_forest : da_handle_decision_tree), "init");
    nf = 2;
    nc = deep ? 3 : 2;
    bool ok = da_options_set_string(h, "storage order", orders[row]) == da_status_success;
    ok &= da_options_set_int(h, "seed", 42) == da_status_success && da_options_set_int(h, "node minimum samples", 1) == da_status_success;
    if (!deep) ok &= da_options_set_int(h, "maximum depth", 1) == da_status_success;
    if (hist) ok &= da_options_set_string(h, "histogram", "yes") == da_status_success && da_options_set_int(h, "maximum bins", 3) == da_status_success;
    if (forest) {
        ok &= da_options_set_int(h, "number of trees", 2) == da_status_success && da_options_set_string(h, "bootstrap", "no") == da_status_success;
        ok &= da_options_set_string(h, "features selection", "all") == da_status_success;
    } else
        ok &= da_options_set_string(h, "predict probabilities", "yes") == da_status_success;
    sym_assert(ok, "options accepted");
    T X[12];
    da_int y[5], ld = row ? nf : 5;
    for (int i = 0; i < 5; i++) {
        y[i] = (deep ? ydeep : yflat)[i];
        at(X, row ? row_major : column_major, ld, i, 0) = (T)i;
        at(X, row ? row_major : column_major, ld, i, 1) = (T)(i == 3);
    }
    OK(api<T>::df_data(forest, h, 5, nf, nc, X, ld, y), "training data accepted");
    OK(api<T>::df_fit(forest, h), "training succeeds");
    return h;
}
template <class T> static void same_df(int forest, da_handle h, da_handle g, int row, int nf, int nc) {
    T Q[4], P[2][8];
    da_int y[2][2] = {{-7, -7}, {-7, -7}}, lq = row ? nf : 2;
    for (auto &p : P) for (T &v : p) v = -7;
    da_order o = row ? row_major : column_major;
    for (int i = 0; i < 2; i++) at(Q, o, lq, i, 0) = i ? (T)2.5 : sym_dyT<T>("q", -1, 9, -1), at(Q, o, lq, i, 1) = sym_dyT<T>("r", 0, 2, -1);
    for (int k = 0; k < 2; k++) {
        da_handle u = k ? g : h;
        OK(api<T>::df_predict(forest, u, 2, nf, Q, lq, y[k]), "prediction succeeds");
        OK(api<T>::df_proba(forest, u, 2, nf, Q, lq, P[k], nc, row ? nc : 2), "probabilities available");
    }
    bool s = y[0][0] == y[1][0] && y[0][1] == y[1][1], sp = true;
    for (int i = 0; i < 8; i++) sp &= P[0][i] == P[1][i];
    sym_assert(s, "loaded model predicts the same classes");
    sym_assert(sp, "loaded model predicts the same probabilities");
}
static bool same_bytes(const std::vector<char> &a, const std::vector<char> &b) {
    if (a.size() != b.size()) return false;
    bool s = true;
    for (size_t i = 0; i < a.size(); i++) s &= a[i] == b[i];
    return s;
}
template <class T> static void df(int forest) {
    sym_omp(1, 0);
    sym_leakmark();
    {
        int row = sym_choose("row", 0, 1), nf, nc;
        da_handle h = trained<T>(forest, row, sym_choose("deep", 0, 1), sym_choose("hist", 0, 1), nf, nc), g = nullptr;
        std::vector<char> b, c;
        OK(da_handle_save_model(h, b), "saving succeeds");
        OK(da_handle_load_model(&g, b.data(), b.size()), "loading succeeds");
        same_df<T>(forest, h, g, row, nf, nc);
        da_int tr = 0, one = 1;
        OK(da_handle_get_result_int(g, da_trained, &one, &tr), "trained flag available");
        sym_assert(tr == 1, "the loaded model is trained");
        T r1[16], r2[16];
        da_int d1 = 16, d2 = 16;
        OK(api<T>::result(h, da_rinfo, &d1, r1), "information available");
        OK(api<T>::result(g, da_rinfo, &d2, r2), "information available after loading");
        bool ri = true;
        for (int i = 0; i < (forest ? 5 : 6); i++) ri &= r1[i] == r2[i];
        sym_assert(ri, "the loaded model reports the same information");
        // options travel with the model
        char s[32];
        da_int l = 32, v = -1, w = -1;
        OK(da_options_get_string(g, "storage order", s, &l), "option readable");
        sym_assert(!strcmp(s, orders[row]), "string options travel with the model");
        OK(da_options_get_int(h, "maximum depth", &v), "option readable");
        OK(da_options_get_int(g, "maximum depth", &w), "option readable");
        sym_assert(v == w, "integer options travel with the model");
        OK(da_handle_save_model(g, c), "saving the loaded model succeeds");
        sym_assert(c.size() == b.size(), "the loaded model takes as many bytes");
        sym_reach("saved");
        da_handle_destroy(&h);
        da_handle_destroy(&g);
    }
    sym_leakcheck();
}
HARNESS(mp_tree) { df<double>(0); }
HARNESS(mp_tree_f) { df<float>(0); }
HARNESS(mp_forest) { df<double>(1); }
HARNESS(mp_forest_f) { df<float>(1); }
// --- nearest neighbours
// kind: 0 brute, 1 kd tree, 2 ball tree
template <class T> static void nn(int kind) {
    sym_omp(1, 0);
    sym_leakmark();
    {
        static const char *algos[] = {"brute", "kd tree", "ball tree"};
        static const char *metrics[] = {"euclidean", "manhattan", "minkowski", "sqeuclidean", "cosine"};
        int row = sym_choose("row", 0, 1), metric = sym_choose("metric", 0, kind ? 2 : 4), use = sym_choose("use", 0, 4), early = sym_choose("used before saving", 0, 1);
        da_order o = row ? row_major : column_major;
        const da_int m = 5, n = 2, q = 2, k = 2;
        static const double x[5][2] = {{0, 1}, {1, 3}, {2, 0.5}, {3, 2}, {-1, 1}};
        static const da_int y[5] = {7, 3, 7, 5, 3};
        T X[16], Q[4], yt[5] = {1, -2, 4, 0.5, 8};
        da_int ldx = (row ? n : m) + 1, ldq = row ? n : q;
        for (T &v : X) v = -99;
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) at(X, o, ldx, i, j) = (T)x[i][j];
        at(Q, o, ldq, 0, 0) = (T)2.25, at(Q, o, ldq, 0, 1) = 1;
        at(Q, o, ldq, 1, 0) = sym_dyT<T>("q", 1, 3, -1), at(Q, o, ldq, 1, 1) = 2;
        da_handle h = nullptr, g = nullptr;
        OK(api<T>::init(&h, da_handle_nn), "init");
        bool ok = da_options_set_string(h, "algorithm", algos[kind]) == da_status_success && da_options_set_string(h, "metric", metrics[metric]) == da_status_success;
        ok &= da_options_set_string(h, "storage order", orders[row]) == da_status_success && da_options_set_int(h, "leaf size", 1) == da_status_success;
        ok &= da_options_set_int(h, "number of neighbors", k) == da_status_success && da_options_set_string(h, "weights", metric == 1 ? "uniform" : "distance") == da_status_success;
        ok &= api<T>::set(h, "radius", (T)1.5) == da_status_success && da_options_set_string(h, "outlier handling", "most frequent") == da_status_success;
        if (metric == 2) ok &= api<T>::set(h, "minkowski parameter", (T)2) == da_status_success;
        sym_assert(ok, "options accepted");
        OK(api<T>::nn_data(h, m, n, X, ldx), "training data accepted");
        if (use == 1 || use == 3) OK(api<T>::nn_labels(h, m, y), "labels accepted");
        if (use == 2) OK(api<T>::nn_targets(h, m, yt), "targets accepted");
        da_nn_search_mode mode = use == 3 ? radius_search_mode : knn_search_mode;
        da_int ind[2][4] = {}, lab[2][2] = {}, cnt[2][8] = {};
        T d[2][4] = {}, p[2][8] = {}, t[2][2] = {};
        auto go = [&](da_handle u, int i) {
            if (use == 0) OK(api<T>::nn_knn(u, q, n, Q, ldq, ind[i], d[i], k, 1), "search succeeds");
            else if (use == 2) OK(api<T>::nn_reg(u, q, n, Q, ldq, t[i], mode), "regression succeeds");
            else if (use == 4) OK(api<T>::nn_rad(u, q, n, Q, ldq, (T)1.5, 1, 1), "radius search succeeds");
            else {
                OK(api<T>::nn_class(u, q, n, Q, ldq, lab[i], mode), "classification succeeds");
                OK(api<T>::nn_proba(u, q, n, Q, ldq, p[i], mode), "probabilities available");
            }
        };
        auto rad = [&](da_handle u, int i) {
            da_int dim = 3;
            OK(da_handle_get_result_int(u, da_nn_radius_neighbors_count, &dim, cnt[i]), "neighbour counts available");
        };
        if (early) go(h, 0);
        std::vector<char> b;
        OK(da_handle_save_model(h, b), "saving succeeds");
        if (early && use == 4) rad(h, 0);
        OK(da_handle_load_model(&g, b.data(), b.size()), "loading succeeds");
        for (T &v : X) v = 50; // the loaded model does not look at the user's data
        if (early && use == 4) {
            rad(g, 1);
            bool c = cnt[0][0] == cnt[1][0] && cnt[0][1] == cnt[1][1] && cnt[0][2] == cnt[1][2];
            sym_assert(c, "the loaded model still has the search results");
        }
        go(g, 1);
        if (use == 4) rad(g, 1);
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) at(X, o, ldx, i, j) = (T)x[i][j];
        if (!early) go(h, 0);
        if (use == 4) rad(h, 0);
        bool si = true, sd = true, sl = true, sp = true, st = true, sc = true;
        for (int i = 0; i < 4; i++) si &= ind[0][i] == ind[1][i], sd &= d[0][i] == d[1][i];
        for (int i = 0; i < 2; i++) sl &= lab[0][i] == lab[1][i], st &= t[0][i] == t[1][i];
        for (int i = 0; i < 8; i++) sp &= p[0][i] == p[1][i];
        for (int i = 0; i < 3; i++) sc &= cnt[0][i] == cnt[1][i];
        sym_assert(si, "loaded model finds the same neighbours");
        sym_assert(sd, "loaded model reports the same distances");
        sym_assert(sl, "loaded model predicts the same labels");
        sym_assert(sp, "loaded model predicts the same probabilities");
        sym_assert(st, "loaded model predicts the same targets");
        sym_assert(sc, "loaded model finds as many neighbours within the radius");
        sym_reach("saved");
        da_handle_destroy(&h);
        da_handle_destroy(&g);
    }
    sym_leakcheck();
}
HARNESS(mp_brute) { nn<double>(0); }
HARNESS(mp_kd) { nn<double>(1); }
HARNESS(mp_ball) { nn<double>(2); }
HARNESS(mp_kd_f) { nn<float>(1); }
// queries without neighbours within the radius
template <class T> static void outliers(int kind) {
    sym_omp(1, 0);
    sym_leakmark();
    {
        static const char *algos[] = {"brute", "kd tree", "ball tree"}, *hd[] = {"none", "most frequent", "manual", "manual"};
        int out = sym_choose("outliers", 0, 3), use = sym_choose("use", 0, 1), early = sym_choose("used before saving", 0, 1), again = sym_choose("saved twice", 0, 1);
        T X[4] = {0, 1, 2, 3}, yt[4] = {1, -2, 4, 0.5}, Q[2], p[2][6], t[2][2];
        da_int y[4] = {4, 6, 6, 5}, lab[2][2];
        da_status st[2] = {}, sp[2] = {};
        Q[0] = sym_dyT<T>("q", 0, 4, 0), Q[1] = 50;
        da_handle h = nullptr, g = nullptr;
        OK(api<T>::init(&h, da_handle_nn), "init");
        bool ok = da_options_set_string(h, "algorithm", algos[kind]) == da_status_success && da_options_set_string(h, "outlier handling", hd[out]) == da_status_success;
        ok &= da_options_set_int(h, "outlier label", out == 2 ? 6 : 77) == da_status_success && api<T>::set(h, "outlier target", (T)-5) == da_status_success;
        ok &= api<T>::set(h, "radius", (T)0.5) == da_status_success && da_options_set_int(h, "leaf size", 1) == da_status_success;
        sym_assert(ok, "options accepted");
        OK(api<T>::nn_data(h, 4, 1, X, 4), "training data accepted");
        if (use) OK(api<T>::nn_targets(h, 4, yt), "targets accepted");
        else OK(api<T>::nn_labels(h, 4, y), "labels accepted");
        auto go = [&](da_handle u, int i) {
            for (T &v : p[i]) v = 9;
            for (int j = 0; j < 2; j++) lab[i][j] = 9, t[i][j] = 9;
            if (use) st[i] = api<T>::nn_reg(u, 2, 1, Q, 2, t[i], radius_search_mode);
            else {
                sp[i] = api<T>::nn_proba(u, 2, 1, Q, 2, p[i], radius_search_mode);
                st[i] = api<T>::nn_class(u, 2, 1, Q, 2, lab[i], radius_search_mode);
            }
        };
        if (early) go(h, 0);
        std::vector<char> b;
        OK(da_handle_save_model(h, b), "saving succeeds");
        OK(da_handle_load_model(&g, b.data(), b.size()), "loading succeeds");
        if (again) {
            std::vector<char> b2;
            OK(da_handle_save_model(g, b2), "saving succeeds");
            sym_assert(b.size() == b2.size(), "a loaded model is saved again in the same size");
            da_handle_destroy(&g);
            OK(da_handle_load_model(&g, b2.data(), b2.size()), "loading succeeds");
        }
        go(g, 1);
        if (!early) go(h, 0);
        sym_assert(st[0] == st[1] && sp[0] == sp[1], "loaded model reports outliers the same way");
        if (st[0] == da_status_success || st[0] == da_status_outlier_warning) {
            bool sl = true, sv = true, sq = true;
            for (int j = 0; j < 2; j++) sl &= lab[0][j] == lab[1][j], sv &= t[0][j] == t[1][j];
            for (int j = 0; j < 6; j++) sq &= p[0][j] == p[1][j];
            sym_assert(sl, "loaded model predicts the same labels");
            sym_assert(sv, "loaded model predicts the same targets");
            sym_assert(sq, "loaded model predicts the same probabilities");
            sym_reach("saved");
        }
        da_handle_destroy(&h);
        da_handle_destroy(&g);
    }
    sym_leakcheck();
}
HARNESS(mp_outlier) { outliers<double>(sym_choose("kind", 0, 2)); }
HARNESS(mp_outlier_f) { outliers<float>(sym_choose("kind", 0, 2)); }
// a loaded model can be given new data
HARNESS(mp_reuse) {
    sym_omp(1, 0);
    sym_leakmark();
    {
        int kind = sym_choose("kind", 0, 4), nf, nc; // tree, forest, brute, kd, ball
        da_handle h = nullptr, g = nullptr, f = nullptr;
        std::vector<char> b;
        if (kind < 2) {
            h = trained<double>(kind, 0, 1, 0, nf, nc);
            f = trained<double>(kind, 0, 0, 0, nf, nc); // the second data set, without the depth limit below
            OK(da_handle_save_model(h, b), "saving succeeds");
            OK(da_handle_load_model(&g, b.data(), b.size()), "loading succeeds");
            double X[10];
            da_int y[5] = {0, 0, 1, 0, 0};
            for (int i = 0; i < 5; i++) X[i] = i, X[5 + i] = i == 3;
            OK(da_options_set_int(g, "maximum depth", 1), "options of a loaded model can be changed");
            OK(api<double>::df_data(kind, g, 5, 2, 2, X, 5, y), "a loaded model takes new data");
            OK(api<double>::df_fit(kind, g), "a loaded model can be trained");
            same_df<double>(kind, f, g, 0, 2, 2);
        } else {
            static const char *algos[] = {"brute", "kd tree", "ball tree"};
            double X[6] = {0, 1, 2, 3, 4, 5}, Z[6] = {5, -3, 1, 0.5, 9, 9}, Q[1] = {sym_dy("q", -8, 12, -1)};
            da_int y[6] = {1, 2, 1, 2, 1, 2}, z[6] = {4, 3, 4, 9, 1, 1}, l[2] = {-7, -7}, ind[2] = {-7, -7};
            double d[2] = {-7, -7};
            for (int k = 0; k < 2; k++) {
                da_handle &u = k ? f : h;
                OK(api<double>::init(&u, da_handle_nn), "init");
                bool ok = da_options_set_string(u, "algorithm", algos[kind - 2]) == da_status_success && da_options_set_int(u, "leaf size", 1) == da_status_success;
                ok &= da_options_set_int(u, "number of neighbors", 1) == da_status_success;
                sym_assert(ok, "options accepted");
                OK(api<double>::nn_data(u, 6, 1, k ? Z : X, 6), "data accepted");
                OK(api<double>::nn_labels(u, 6, k ? z : y), "labels accepted");
            }
            if (sym_choose("used before saving", 0, 1)) OK(api<double>::nn_class(h, 1, 1, Q, 1, l, knn_search_mode), "prediction succeeds");
            OK(da_handle_save_model(h, b), "saving succeeds");
            OK(da_handle_load_model(&g, b.data(), b.size()), "loading succeeds");
            OK(api<double>::nn_data(g, 6, 1, Z, 6), "a loaded model takes new data");
            OK(api<double>::nn_labels(g, 6, z), "a loaded model takes new labels");
            for (int k = 0; k < 2; k++) {
                OK(api<double>::nn_class(k ? f : g, 1, 1, Q, 1, l + k, knn_search_mode), "prediction succeeds");
                OK(api<double>::nn_knn(k ? f : g, 1, 1, Q, 1, ind + k, d + k, 1, 1), "search succeeds");
            }
            sym_assert(l[0] == l[1], "labels after new data");
            sym_assert(ind[0] == ind[1] && d[0] == d[1], "neighbours after new data");
        }
        sym_reach("reused");
        da_handle_destroy(&h);
        da_handle_destroy(&g);
        da_handle_destroy(&f);
    }
    sym_leakcheck();
}
// --- the byte stream
template <class V> static bool eq(const V &a, const V &b) {
    if (a.size() != b.size()) return false;
    bool s = true;
    for (size_t i = 0; i < (size_t)a.size(); i++) s &= SAME_BITS(a[i], b[i]);
    return s;
}
HARNESS(mp_stream) {
    sym_leakmark();
    {
        da_int n = sym_choose("n", 0, 3), k = sym_choose("k", 0, 2);
        da_int i0 = (da_int)sym_int("i", INT_MIN, INT_MAX);
        bool bo = sym_choose("flag", 0, 1);
        double d = sym_f64("d");
        float f = sym_f32("f");
        da_order o = sym_choose("order", 0, 1) ? row_major : column_major;
        std::string s, s2 = "old text that is longer";
        std::vector<da_int> vi, vi2(7, 3);
        std::vector<double> vd, vd2(1, 3.0);
        std::vector<float> vf, vf2;
        da_vector::da_vector<da_int> wi, wi2;
        std::vector<da_vector::da_vector<double>> nn, nn2(5);
        for (int i = 0; i < n; i++) s += (char)sym_int("c", -128, 127), vi.push_back((da_int)sym_int("v", INT_MIN, INT_MAX)), vd.push_back(sym_f64("vd")), vf.push_back(sym_f32("vf")), wi.push_back(i - 1);
        for (int i = 0; i < k; i++) {
            da_vector::da_vector<double> x;
            for (int j = 0; j < (i ? 0 : 2) + n; j++) x.push_back(i + 0.5 * j);
            nn.push_back(std::move(x));
        }
        std::vector<char> b;
        serialization_buffer w(da_handle_nn);
        OK(w.set_buffer_data(&b), "buffer accepted");
        size_t start = w.get_size();
        bool ok = true;
        size_t sz = 0;
        for (int pass = 0; pass < 2; pass++) {
            if (pass) { sz = w.get_size() - start; OK(w.reserve(), "reserve"); w.set_mode(serialize); OK(w.serialize_metadata(8, 50301), "metadata written"); }
            ok &= w.dispatch_buffer_io(i0) == 0 && w.dispatch_buffer_io(bo) == 0 && w.dispatch_buffer_io(d) == 0 && w.dispatch_buffer_io(f) == 0 && w.dispatch_buffer_io(o) == 0;
            ok &= w.dispatch_buffer_io(s) == 0 && w.dispatch_buffer_io(vi) == 0 && w.dispatch_buffer_io(vd) == 0 && w.dispatch_buffer_io(vf) == 0 && w.dispatch_buffer_io(wi) == 0 && w.dispatch_buffer_io(nn) == 0;
        }
        sym_assert(ok, "writing succeeds");
        sym_assert(b.size() == start + sz, "the reserved size is the written size");
        sym_assert(w.dispatch_buffer_io(bo) == da_status_internal_error && b.size() == start + sz, "writing past the reserved size is refused");
        serialization_buffer r(da_handle_uninitialized);
        OK(r.set_buffer_data(b.data(), b.size()), "buffer accepted");
        da_int prec = 0, i1 = 0;
        OK(r.deserialize_metadata(prec), "metadata read");
        sym_assert(prec == 8 && r.get_handle_type() == da_handle_nn && r.get_saved_serialization_version() == 50301 && r.get_saved_aoclda_version() == da_get_version(), "metadata as written");
        bool b2 = !bo;
        double d2 = 0;
        float f2 = 0;
        da_order o2 = o == row_major ? column_major : row_major;
        ok = r.dispatch_buffer_io(i1) == 0 && r.dispatch_buffer_io(b2) == 0 && r.dispatch_buffer_io(d2) == 0 && r.dispatch_buffer_io(f2) == 0 && r.dispatch_buffer_io(o2) == 0;
        ok &= r.dispatch_buffer_io(s2) == 0 && r.dispatch_buffer_io(vi2) == 0 && r.dispatch_buffer_io(vd2) == 0 && r.dispatch_buffer_io(vf2) == 0 && r.dispatch_buffer_io(wi2) == 0 && r.dispatch_buffer_io(nn2) == 0;
        sym_assert(ok, "reading succeeds");
        sym_assert(i0 == i1 && bo == b2 && o == o2, "integers, flags and choices are read as written");
        sym_assert(SAME_BITS(d, d2) && SAME_BITS(f, f2), "reals are read bit for bit");
        sym_assert(eq(s, s2), "strings are read as written");
        sym_assert(eq(vi, vi2) && eq(vd, vd2) && eq(vf, vf2) && eq(wi, wi2), "vectors are read as written");
        bool ne = nn.size() == nn2.size();
        if (ne) for (size_t i = 0; i < nn.size(); i++) ne &= eq(nn[i], nn2[i]);
        sym_assert(ne, "nested vectors are read as written");
        sym_assert(r.dispatch_buffer_io(b2) == da_status_invalid_file_data, "reading past the end is refused");
        sym_reach("stream");
    }
    sym_leakcheck();
}
// user data is written without padding, whatever the layout
template <class T> static void user() {
    sym_leakmark();
    {
        da_int m = sym_choose("m", 1, 3), n = sym_choose("n", 1, 3), row = n == 1 ? 0 : sym_choose("row", 0, 1), pad = sym_choose("pad", 0, 1), null = sym_choose("null", 0, 1);
        da_int ld = (row ? n : m) + pad;
        T X[12];
        for (T &v : X) v = (T)-9;
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
            T &v = at(X, row ? row_major : column_major, ld, i, j);
            if constexpr (std::is_same_v<T, da_int>) v = (T)sym_int("x", INT_MIN, INT_MAX); else v = sym_dyT<T>("x", -9, 9, -1);
        }
        std::vector<char> b;
        serialization_buffer w(da_handle_nn), r(da_handle_nn);
        OK(w.set_buffer_data(&b), "buffer accepted");
        size_t start = w.get_size();
        const T *p = null ? nullptr : X;
        OK(w.serialize_user_data(p, row ? row_major : column_major, m, n, ld), "size reserved");
        size_t sz = w.get_size();
        w.set_mode(serialize);
        OK(w.serialize_metadata(sizeof(T), 50301), "metadata written");
        OK(w.serialize_user_data(p, row ? row_major : column_major, m, n, ld), "written");
        sym_assert(b.size() == sz, "the reserved size is the written size");
        OK(r.set_buffer_data(b.data() + start, b.size() - start), "buffer accepted");
        std::vector<T> v;
        OK(r.deserialize_data(v), "read as a vector");
        sym_assert((da_int)v.size() == (null ? 0 : m * n), "one element per entry");
        bool ok = true;
        if (!null) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) ok &= v[row ? i * n + j : j * m + i] == at(X, row ? row_major : column_major, ld, i, j);
        sym_assert(ok, "the entries in the order of the layout, without padding");
        sym_reach("user");
    }
    sym_leakcheck();
}
HARNESS(mp_user) { user<double>(); }
HARNESS(mp_user_i) { user<da_int>(); }
HARNESS(mp_user_big) {
    static const da_int ns[] = {0, 1, 2, 3, 46341, 65536, 1 << 30, INT_MAX};
    da_int m = (da_int)sym_int("m", 0, INT_MAX), n = ns[sym_choose("n", 0, 7)];
    std::vector<char> b;
    serialization_buffer w(da_handle_nn);
    OK(w.set_buffer_data(&b), "buffer accepted");
    size_t start = w.get_size();
    double x = 0;
    da_status s = w.serialize_user_data(&x, column_major, m, n, m);
    sym_assert(s != da_status_success || (long)(w.get_size() - start - 8) / 8 == (long)m * n, "the reserved size is that of the data");
    sym_assert((((long)m * n <= (INT_MAX - 8 - (long)start) / 8)) == (s == da_status_success), "data that fits is accepted");
    sym_reach("big");
}
// --- damaged data: an error or a model, never an invalid access, a leak or an escaped exception
template <class T> static void make(int kind, std::vector<char> &b) { // tree, forest, brute, kd, ball
    da_handle h = nullptr;
    if (kind < 2) {
        int nf, nc;
        h = trained<T>(kind, 0, 0, 0, nf, nc);
    } else {
        static const char *algos[] = {"brute", "kd tree", "ball tree"};
        static T X[4] = {0, 1, 2, 3};
        static da_int y[2] = {1, 2};
        OK(api<T>::init(&h, da_handle_nn), "init");
        da_options_set_string(h, "algorithm", algos[kind - 2]);
        da_options_set_int(h, "leaf size", 1);
        OK(api<T>::nn_data(h, 2, 2, X, 2), "data accepted");
        OK(api<T>::nn_labels(h, 2, y), "labels accepted");
    }
    OK(da_handle_save_model(h, b), "saving succeeds");
    da_handle_destroy(&h);
}
static da_status try_load(const char *p, size_t n) {
    da_handle g = nullptr;
    da_status s = da_handle_load_model(&g, p, n);
    sym_assert(s == da_status_success || s == da_status_invalid_file_data || s == da_status_invalid_input || s == da_status_version_mismatch, "a documented status");
    sym_assert(s != da_status_success || g, "success gives a handle");
    da_handle_destroy(&g);
    return s;
}
static void shorter(int kind) {
    sym_omp(1, 0);
    sym_leakmark();
    {
        std::vector<char> b;
        make<double>(kind, b);
        size_t n = sym_conc(b.size());
        long len = sym_int("length", 1, n - 1);
        sym_assert(try_load(b.data(), len) != da_status_success, "a shortened model is refused");
        sym_reach("refused");
    }
    sym_leakcheck();
}
HARNESS(ld_trunc_tree) { shorter(sym_choose("kind", 0, 1)); }
HARNESS(ld_trunc_nn) { shorter(sym_choose("kind", 2, 4)); }
// one word of the data replaced, at any position
template <class T> static void word(int kind, int part, int parts) {
    sym_omp(1, 0);
    sym_leakmark();
    {
        std::vector<char> b;
        make<T>(kind, b);
        long n = sym_conc(b.size()), per = (n - 7 + parts - 1) / parts;
        long off = sym_choose("offset", part * per, std::min(n - 8, part * per + per - 1));
        long old, left = n - off - 8, v;
        memcpy(&old, b.data() + off, 8);
        const long vs[] = {-1, LONG_MIN, LONG_MAX, INT_MAX, 0, 1, left, left + 1, old + 1, old - 1, old + (1L << 32), old ^ LONG_MIN};
        v = vs[sym_choose("value", 0, TT ? 11 : 3)];
        memcpy(b.data() + off, &v, 8);
        try_load(b.data(), n);
        sym_reach("loaded or refused");
    }
    sym_leakcheck();
}
HARNESS(ld_word_tree) { word<double>(0, sym_choose("part", 0, 3), 4); }
HARNESS(ld_word_forest) { word<double>(1, sym_choose("part", 0, 3), 4); }
HARNESS(ld_word_nn) { word<double>(sym_choose("kind", 2, 4), 0, 1); }
// one byte of any value at any position of the metadata (except the kind of the model) or of the fitted model
template <class T> static void byte(int kind, int meta) {
    sym_omp(1, 0);
    sym_leakmark();
    {
        std::vector<char> b;
        make<T>(kind, b);
        long n = sym_conc(b.size()), text = 0; // the options end with the last text
        auto letter = [&](long i) { return (b[i] >= 'a' && b[i] <= 'z') || b[i] == ' '; };
        for (long i = 3; i < n; i++) if (letter(i) && letter(i - 1) && letter(i - 2) && letter(i - 3)) text = i;
        long off = meta ? sym_choose("offset", 0, 67) : sym_choose("offset", text, n - 1);
        if (off >= 43 && off < 51) return;
        if (meta) b[off] = (char)sym_int("value", -128, 127);
        else if (sym_choose("near", 0, 1)) b[off] = (char)sym_int("value", 0, TT ? 40 : kind == 1 ? 4 : 12);
        else b[off] = (char)(sym_choose("value", 0, TT ? 15 : 3) * (TT ? 17 : 85));
        try_load(b.data(), n);
        sym_reach("loaded or refused");
    }
    sym_leakcheck();
}
HARNESS(ld_byte_meta) { byte<double>(TT ? sym_choose("kind", 0, 4) : 2 * sym_choose("kind", 0, 1), 1); }
HARNESS(ld_byte_tree) { byte<double>(0, 0); }
HARNESS(ld_byte_forest) { byte<double>(1, 0); }
HARNESS(ld_byte_nn) { byte<double>(sym_choose("kind", 2, 4), 0); }
HARNESS(ld_byte_nn_f) { byte<float>(sym_choose("kind", 2, 4), 0); }
// a stored option value is accepted only if the option itself would accept it
static void opt_saved(const char *name, int kind, double v, std::vector<char> &b) { // tree with an integer, real or string option
    da_handle h = nullptr;
    double X[3] = {0, 1, 2};
    da_int y[3] = {0, 0, 1};
    bool ok = da_handle_init_d(&h, da_handle_decision_tree) == da_status_success;
    ok &= (kind == 2 ? da_options_set_string(h, name, "gini") : kind ? da_options_set_real_d(h, name, v) : da_options_set_int(h, name, (da_int)v)) == da_status_success;
    ok &= da_tree_set_training_data_d(h, 3, 1, 2, X, 3, y, nullptr) == da_status_success && da_tree_fit_d(h) == da_status_success && da_handle_save_model(h, b) == da_status_success;
    sym_assert(ok, "model trained and saved");
    da_handle_destroy(&h);
}
static long opt_at(const char *name, int real, std::vector<char> &b) {
    std::vector<char> a;
    opt_saved(name, real, real ? 0.5 : 3, a);
    opt_saved(name, real, real ? 0.25 : 5, b);
    long i = 0, n = sym_conc(std::min(a.size(), b.size()));
    while (i < n && a[i] == b[i]) i++;
    sym_assert(i < n, "option stored");
    return real ? i - 6 : i; // 0.5 and 0.25 differ in the seventh byte
}
static void opt_load(int which) {
    static const char *names[] = {"maximum bins", "maximum depth", "minimum split score", "feature threshold"};
    sym_omp(1, 0);
    int real = which >= 2;
    da_handle g = nullptr;
    std::vector<char> b;
    long off = opt_at(names[which], real, b);
    bool fits, same;
    long v;
    if (real) {
        double x = sym_f64("value"), y = 0;
        v = 0;
        memcpy(b.data() + off, &x, 8);
        fits = x >= 0 && (which == 2 ? x <= 1 : true);
        da_status s = da_handle_load_model(&g, b.data(), b.size());
        sym_assert((s == da_status_success) == fits, "loaded exactly if the value is allowed");
        if (s == da_status_success) {
            same = da_options_get_real_d(g, names[which], &y) == da_status_success && y == x;
            sym_assert(same, "the stored value is read back");
        } else
            sym_assert(s == da_status_invalid_input || s == da_status_invalid_file_data, "documented status");
    } else {
        da_int y = 0;
        v = sym_int("value", LONG_MIN, LONG_MAX);
        memcpy(b.data() + off, &v, 8);
        fits = which ? v >= 0 && v <= 29 : v >= 2 && v <= 65535;
        da_status s = da_handle_load_model(&g, b.data(), b.size());
        sym_assert((s == da_status_success) == fits, "loaded exactly if the value is allowed");
        if (s == da_status_success) {
            same = da_options_get_int(g, names[which], &y) == da_status_success && y == v;
            sym_assert(same, "the stored value is read back");
        } else
            sym_assert(s == da_status_invalid_input || s == da_status_invalid_file_data, "documented status");
    }
    da_handle_destroy(&g);
    sym_reach("option");
}
HARNESS(ld_opt_int) { opt_load(sym_choose("which", 0, 1)); }
HARNESS(ld_opt_real) { opt_load(sym_choose("which", 2, 3)); }
HARNESS(ld_opt_text) {
    sym_omp(1, 0);
    da_handle g = nullptr;
    std::vector<char> b;
    opt_saved("scoring function", 2, 0, b);
    long i = 0, n = sym_conc(b.size()) - 4;
    while (i < n && memcmp(&b[i], "gini", 4)) i++;
    sym_assert(i < n, "option stored");
    char c = (char)sym_int("letter", 'a', 'z');
    b[i + sym_choose("position", 0, 3)] = c;
    bool legal = b[i] == 'g' && b[i + 1] == 'i' && b[i + 2] == 'n' && b[i + 3] == 'i';
    da_status s = da_handle_load_model(&g, b.data(), b.size());
    sym_assert((s == da_status_success) == legal, "loaded exactly if the value is allowed");
    sym_assert(s == da_status_success || s == da_status_invalid_input || s == da_status_invalid_file_data, "documented status");
    da_handle_destroy(&g);
    sym_reach("option");
}
