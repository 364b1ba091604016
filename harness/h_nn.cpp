// Nearest-neighbour searches against the definition.
#include "hapi.h"
#include <cmath>
template <class T> static T dist(const T *a, const T *b, int n, int metric) {
    T s = 0;
    for (int j = 0; j < n; j++) {
        T d = a[j] - b[j];
        s += metric == 1 ? (d < 0 ? -d : d) : d * d;
    }
    return metric == 0 ? std::sqrt(s) : s;
}
static const char *metrics[] = {"euclidean", "manhattan", "sqeuclidean"};
static const char *algos[] = {"brute", "kd tree", "ball tree"};
// cfg: column-major euclidean, row-major manhattan, or (brute force only) row-major squared euclidean
template <class T> static void knn(int algo, int mlo, int M, int n0, long R, int cfg, bool par) {
    sym_omp(par ? 2 : 1, par ? sym_choose("ord", 0, 1) : 0);
    sym_leakmark();
    da_handle h = nullptr;
    sym_assert(api<T>::init(&h, da_handle_nn) == da_status_success, "init");
    int metric = cfg, leaf = algo ? (int)sym_choose("leaf", 1, 2) : 1;
    da_order order = cfg ? row_major : column_major;
    da_int m = sym_choose("m", mlo, M), n = n0, q = 1, k = sym_choose("k", 1, 2);
    da_options_set_string(h, "algorithm", algos[algo]);
    da_options_set_string(h, "metric", metrics[metric]);
    da_options_set_string(h, "storage order", order == row_major ? "row-major" : "column-major");
    da_options_set_int(h, "leaf size", leaf);
    T X[8], Q[4], Xr[4][2], Qr[2];
    da_int ldx = order == row_major ? n : m, ldq = order == row_major ? n : q;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) at(X, order, ldx, i, j) = Xr[i][j] = sym_dyT<T>("x", 0, R, -2);
    for (int j = 0; j < n; j++) at(Q, order, ldq, 0, j) = Qr[j] = sym_dyT<T>("q", 0, R, -2);
    sym_assert(api<T>::nn_data(h, m, n, X, ldx) == da_status_success, "training data accepted");
    da_int ind[8];
    T dst[8];
    for (int i = 0; i < 8; i++) ind[i] = -9, dst[i] = -9;
    sym_assert(api<T>::nn_knn(h, q, n, Q, ldq, ind, dst, k, 1) == da_status_success, "query succeeds");
    bool in = true, distinct = true, dd = true, sorted = true, all = true;
    T d[4];
    for (int i = 0; i < m; i++) d[i] = dist(Xr[i], Qr, n, metric);
    for (int i = 0; i < k; i++) {
        in &= ind[i] >= 0 && ind[i] < m;
        for (int l = 0; l < i; l++) distinct &= ind[l] != ind[i];
        bool e = false;
        for (int r = 0; r < m; r++) e |= ind[i] == r && dst[i] == d[r];
        dd &= e;
        if (i) sorted &= dst[i - 1] <= dst[i];
    }
    for (int r = 0; r < m; r++) {
        bool sel = false;
        for (int i = 0; i < k; i++) sel |= ind[i] == r;
        all &= sel | (d[r] >= dst[k - 1]);
    }
    sym_assert(in, "neighbour indices are training rows");
    sym_assert(distinct, "neighbours are distinct");
    sym_assert(dd, "reported distance is the distance to the reported row");
    sym_assert(sorted, "neighbours are listed by increasing distance");
    sym_assert(all, "no unreported row is nearer than a reported one");
    bool rest = true;
    for (int i = k; i < 8; i++) rest &= ind[i] == -9 && dst[i] == (T)-9;
    sym_assert(rest, "only k results are written");
    sym_reach("knn");
    da_handle_destroy(&h);
    sym_leakcheck();
}
#ifdef TIER_THOROUGH
#define TT 1
#else
#define TT 0
#endif
HARNESS(knn_brute) { int n = sym_choose("n", 1, 2); knn<double>(0, 2, 3 + TT, n, 3, sym_choose("cfg", 0, 2), false); }
HARNESS(knn_kd1) { knn<double>(1, 4, 4 + TT, 1, 3 + 4 * TT, sym_choose("cfg", 0, 1), false); }
HARNESS(knn_kd2) { knn<double>(1, 3, 3 + TT, 2, 1 + TT, sym_choose("cfg", 0, 1), false); }
HARNESS(knn_ball1) { knn<double>(2, 3, 3 + TT, 1, 3 + 4 * TT, 1, false); }
HARNESS(knn_ball2) { knn<double>(2, 3, 3 + TT, 2, 1 + TT, sym_choose("cfg", 0, 1), false); }

// Radius search through the public interface: every result query against the definition.
template <class T> static void rad(int algo, int M, int n0, long R, int cfg) {
    sym_omp(1, 0);
    sym_leakmark();
    da_handle h = nullptr;
    sym_assert(api<T>::init(&h, da_handle_nn) == da_status_success, "init");
    int metric = cfg;
    da_order order = cfg == 1 ? row_major : column_major;
    int leaf = algo ? (int)sym_choose("leaf", 1, 2) : 1;
    da_int m = M, n = n0, q = 2;
    da_options_set_string(h, "algorithm", algos[algo]);
    da_options_set_string(h, "metric", metrics[metric]);
    da_options_set_string(h, "storage order", order == row_major ? "row-major" : "column-major");
    da_options_set_int(h, "leaf size", leaf);
    T X[12], Q[8], Xr[4][2], Qr[2][2];
    da_int ldx = (order == row_major ? n : m) + 1, ldq = (order == row_major ? n : q) + 1;
    for (int i = 0; i < 12; i++) X[i] = 7;
    for (int i = 0; i < 8; i++) Q[i] = 7;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) at(X, order, ldx, i, j) = Xr[i][j] = sym_dyT<T>("x", 0, R, 0);
    for (int i = 0; i < q; i++) for (int j = 0; j < n; j++) at(Q, order, ldq, i, j) = Qr[i][j] = i == 0 ? sym_dyT<T>("q", 0, R, 0) : (T)(R / 2);
    T r = sym_dyT<T>("r", 0, R, 0);
    sym_assert(api<T>::nn_data(h, m, n, X, ldx) == da_status_success, "training data accepted");
    bool dist_wanted = sym_choose("want distances", 0, 1), sorted = dist_wanted && sym_choose("sort", 0, 1);
    if (sym_choose("radius option", 0, 1)) {
        sym_assert(api<T>::set(h, "radius", r) == da_status_success, "radius option");
        sym_assert(api<T>::nn_rad(h, q, n, Q, ldq, (T)-1, dist_wanted, sorted) == da_status_success, "query with the radius option succeeds");
    } else
        sym_assert(api<T>::nn_rad(h, q, n, Q, ldq, r, dist_wanted, sorted) == da_status_success, "query succeeds");
    // a rejected call leaves the results of the accepted one alone
    if (sym_choose("failed call between", 0, 1)) {
        sym_assert(api<T>::nn_rad(h, q, n, nullptr, ldq, r, 1, 1) != da_status_success, "null query rejected");
        sym_assert(api<T>::nn_rad(h, q, n, Q, ldq, r, 0, 1) == da_status_invalid_input, "sorting without distances rejected");
    }
    T d[2][4];
    da_int want[2] = {0, 0};
    for (int i = 0; i < q; i++) for (int k = 0; k < m; k++) { d[i][k] = dist(Xr[k], Qr[i], n, metric); want[i] += d[i][k] <= r; }
    da_int dim = 1, cnt[5] = {-7, -7, -7, -7, -7}, off[5] = {-7, -7, -7, -7, -7}, ind[12], tot;
    sym_assert(da_handle_get_result_int(h, da_nn_radius_neighbors_count, &dim, cnt) == da_status_invalid_array_dimension && dim == q + 1 && cnt[0] == -7, "a short count buffer is reported with the needed size");
    dim = q + 1 + sym_choose("slack", 0, 1) * 2;
    da_int slack = dim - (q + 1);
    sym_assert(da_handle_get_result_int(h, da_nn_radius_neighbors_count, &dim, cnt) == da_status_success, "counts available");
    bool ok = cnt[0] == want[0] && cnt[1] == want[1] && cnt[2] == want[0] + want[1];
    sym_assert(ok, "counts are the numbers of rows within the radius");
    tot = (da_int)sym_conc(cnt[2]);
    dim = q + 1;
    sym_assert(da_handle_get_result_int(h, da_nn_radius_neighbors_offsets, &dim, off) == da_status_success, "offsets available");
    sym_assert(off[0] == (want[0] ? 0 : -1) && off[1] == (want[1] ? want[0] : -1) && off[2] == tot, "offsets locate each query's rows");
    for (int i = 0; i < 12; i++) ind[i] = -7;
    if (tot > 0) {
        dim = tot - 1;
        if (dim > 0) sym_assert(da_handle_get_result_int(h, da_nn_radius_neighbors_indices, &dim, ind) == da_status_invalid_array_dimension && ind[0] == -7, "a short index buffer is reported");
        dim = tot + slack;
        sym_assert(da_handle_get_result_int(h, da_nn_radius_neighbors_indices, &dim, ind) == da_status_success, "indices available");
    }
    sym_assert(ind[tot] == -7, "nothing is written past the indices");
    T ds[12];
    for (int i = 0; i < 12; i++) ds[i] = -7;
    if (tot > 0) {
        dim = tot;
        da_status st = api<T>::result(h, da_nn_radius_neighbors_distances, &dim, ds);
        sym_assert((st == da_status_success) == dist_wanted, "distances are available exactly when requested");
    }
    int p = 0;
    for (int i = 0; i < q; i++) {
        int c = (int)sym_conc(cnt[i]);
        bool in = true, inr = true, dd = true, dis = true, so = true;
        for (int a = 0; a < c; a++) {
            in &= ind[p + a] >= 0 && ind[p + a] < m;
            for (int b = 0; b < a; b++) dis &= ind[p + a] != ind[p + b];
            bool e = false, e2 = false;
            for (int k = 0; k < m; k++) e |= ind[p + a] == k && d[i][k] <= r, e2 |= ind[p + a] == k && ds[p + a] == d[i][k];
            inr &= e;
            dd &= e2;
            if (a) so &= ds[p + a - 1] <= ds[p + a];
        }
        sym_assert(in && dis, "indices are distinct training rows");
        sym_assert(inr, "every reported row is within the radius");
        if (dist_wanted) sym_assert(dd, "reported distance is the distance to the reported row");
        if (sorted) sym_assert(so, "sorted results are by increasing distance");
        if (c > 0) {
            da_int one[8];
            one[0] = i;
            one[c] = -7;
            dim = c;
            sym_assert(da_handle_get_result_int(h, da_nn_radius_neighbors_indices_index, &dim, one) == da_status_success, "one query's indices available");
            bool s = one[c] == -7;
            for (int a = 0; a < c; a++) s &= one[a] == ind[p + a];
            sym_assert(s, "one query's indices agree with the whole");
            if (dist_wanted) {
                T o2[8];
                o2[0] = i;
                dim = c;
                sym_assert(api<T>::result(h, da_nn_radius_neighbors_distances_index, &dim, o2) == da_status_success, "one query's distances available");
                for (int a = 0; a < c; a++) s &= o2[a] == ds[p + a];
                sym_assert(s, "one query's distances agree with the whole");
            }
        }
        p += c;
    }
    sym_reach("rad");
    da_handle_destroy(&h);
    sym_leakcheck();
}
HARNESS(rad_brute) { rad<double>(0, 3, 1, 3, sym_choose("cfg", 0, 2)); }
HARNESS(rad_kd) { rad<double>(1, 3, 1, 2 + 3 * TT, sym_choose("cfg", 0, 1)); }
HARNESS(rad_kd2) { rad<float>(1, 3, 2, 1 + TT, 1); }
HARNESS(rad_ball) { rad<double>(2, 3, 1, 2 + TT, sym_choose("cfg", 0, 1)); }
// Prediction: votes and means over the neighbours the search of the same handle reports.
template <class T> static void pred(bool radius, bool reg, int algo) {
    sym_omp(1, 0);
    sym_leakmark();
    da_handle h = nullptr;
    sym_assert(api<T>::init(&h, da_handle_nn) == da_status_success, "init");
    bool row = sym_choose("row", 0, 1), wd = sym_choose("distance weights", 0, 1);
    da_order order = row ? row_major : column_major;
    const da_int m = 3, q = 2, k = 2;
    int out = radius ? (int)sym_choose("outliers", 0, 3) : 0; // none, most frequent, manual in/not in labels
    da_options_set_string(h, "algorithm", algos[algo]);
    da_options_set_string(h, "metric", "manhattan");
    da_options_set_string(h, "storage order", row ? "row-major" : "column-major");
    da_options_set_string(h, "weights", wd ? "distance" : "uniform");
    da_options_set_int(h, "number of neighbors", k);
    da_options_set_string(h, "outlier handling", out == 0 ? "none" : out == 1 ? "most frequent" : "manual");
    if (out >= 2) { da_options_set_int(h, "outlier label", out == 2 ? 20 : 77); api<T>::set(h, "outlier target", (T)-5); }
    T X[3], Q[2], r = 1;
    static const double tv[] = {-3, 0.5, 8};
    for (int i = 0; i < m; i++) X[i] = reg || radius ? (T)sym_choose("x", 0, 2) : sym_dyT<T>("x", 0, 2 + TT, 0);
    Q[0] = 1;
    Q[1] = reg || radius ? (T)sym_choose("q", -1, 2) : sym_dyT<T>("q", -1, 2, 0);
    if (radius) api<T>::set(h, "radius", r);
    da_int y[3];
    T yt[3];
    for (int i = 0; i < m; i++) { if (reg) yt[i] = (T)sym_tab("t", tv, 3); else y[i] = 10 * (1 + sym_int("y", 0, 1 + TT)); }
    sym_assert(api<T>::nn_data(h, m, 1, X, row ? 1 : m) == da_status_success, "data");
    if (reg) sym_assert(api<T>::nn_targets(h, m, yt) == da_status_success, "targets"); else sym_assert(api<T>::nn_labels(h, m, y) == da_status_success, "labels");
    // the neighbours of each query
    bool nb[2][3] = {};
    T d[2][3];
    for (int i = 0; i < q; i++) for (int j = 0; j < m; j++) d[i][j] = dist(X + j, Q + i, 1, 1);
    if (radius) { for (int i = 0; i < q; i++) for (int j = 0; j < m; j++) nb[i][j] = d[i][j] <= r; }
    else {
        da_int ind[4];
        T dd[4];
        sym_assert(api<T>::nn_knn(h, q, 1, Q, row ? 1 : q, ind, dd, k, 1) == da_status_success, "search");
        for (int i = 0; i < q; i++) for (int a = 0; a < k; a++) for (int j = 0; j < m; j++) nb[i][j] |= ind[row ? i * k + a : a * q + i] == j;
    }
    bool outl[2];
    T w[2][3], sw[2];
    for (int i = 0; i < q; i++) {
        outl[i] = true;
        sw[i] = 0;
        for (int j = 0; j < m; j++) {
            outl[i] &= !nb[i][j];
            w[i][j] = !nb[i][j] ? 0 : wd ? (d[i][j] == 0 ? 1 : 1 / d[i][j]) : 1;
            sw[i] += w[i][j];
        }
    }
    bool any = outl[0] | outl[1];
    da_nn_search_mode mode = radius ? radius_search_mode : knn_search_mode;
    if (reg) {
        T p[3] = {-9, -9, -9};
        da_status st = api<T>::nn_reg(h, q, 1, Q, row ? 1 : q, p, mode);
        if (any && out == 0) sym_assert(st == da_status_operation_failed, "a query without neighbours is an error");
        else {
            sym_assert(st == (any && out >= 2 ? da_status_outlier_warning : da_status_success), "prediction succeeds");
            T mean = (yt[0] + yt[1] + yt[2]) / 3;
            for (int i = 0; i < q; i++) {
                T s = 0;
                for (int j = 0; j < m; j++) s += w[i][j] * yt[j];
                T e = outl[i] ? (out == 1 ? mean : (T)-5) : s / sw[i], df = p[i] - e;
                sym_assert(df <= (T)1e-4 && df >= (T)-1e-4, "prediction is the weighted mean of the neighbours' targets");
            }
            sym_assert(p[2] == (T)-9, "one prediction per query");
        }
    } else {
        int lab[3] = {10, 20, 30}, nc = 0, cls[3];
        for (int c = 0; c < 3; c++) if (sym_conc(y[0] == lab[c] || y[1] == lab[c] || y[2] == lab[c])) cls[nc++] = lab[c];
        T *pr = new T[q * nc];
        da_int p[3] = {-9, -9, -9};
        da_status st = api<T>::nn_proba(h, q, 1, Q, row ? 1 : q, pr, mode), s2 = api<T>::nn_class(h, q, 1, Q, row ? 1 : q, p, mode);
        if (any && out == 0) sym_assert(st == da_status_operation_failed && s2 == da_status_operation_failed, "a query without neighbours is an error");
        else {
            bool known = false;
            for (int c = 0; c < nc; c++) known |= cls[c] == (out == 2 ? 20 : 77);
            sym_assert(st == (any && out >= 2 && !known ? da_status_outlier_warning : da_status_success), "probabilities available");
            sym_assert(s2 == st, "labels available");
            int cc[3] = {0, 0, 0}, mf = 0;
            for (int c = 0; c < nc; c++) for (int j = 0; j < m; j++) cc[c] += y[j] == cls[c];
            for (int c = 1; c < nc; c++) mf = cc[c] > cc[mf] ? c : mf;
            for (int i = 0; i < q; i++) {
                T best = -1;
                bool okp = true, okl = false;
                for (int c = 0; c < nc; c++) {
                    T e = 0;
                    for (int j = 0; j < m; j++) e += y[j] == cls[c] ? w[i][j] : 0;
                    T want = outl[i] ? (out == 1 ? (T)(c == mf) : (T)(known && cls[c] == 20)) : e / sw[i];
                    T got = row ? pr[i * nc + c] : pr[c * q + i];
                    okp &= got - want <= (T)1e-5 && got - want >= (T)-1e-5;
                    best = got > best ? got : best;
                }
                for (int c = 0; c < nc; c++) { T got = row ? pr[i * nc + c] : pr[c * q + i]; okl |= p[i] == cls[c] && got >= best; }
                if (outl[i] && out >= 2) okl = p[i] == (out == 2 ? 20 : 77);
                sym_assert(okp, "probability is the class's share of the neighbours' weights");
                sym_assert(okl, "predicted label has the highest probability");
            }
            sym_assert(p[2] == -9, "one label per query");
        }
        delete[] pr;
    }
    sym_reach("pred");
    da_handle_destroy(&h);
    sym_leakcheck();
}
HARNESS(pred_knn_class) { pred<double>(false, false, sym_choose("algo", 0, 2 * TT)); }
HARNESS(pred_knn_reg) { pred<double>(false, true, 0); }
HARNESS(pred_rad_class) { pred<double>(true, false, 0); }
HARNESS(pred_rad_reg) { pred<double>(true, true, 0); }
// replacing labels, targets or data replaces what predictions use
HARNESS(pred_replace) {
    sym_omp(1, 0);
    sym_leakmark();
    da_handle h = nullptr;
    api<double>::init(&h, da_handle_nn);
    bool rad = sym_choose("radius", 0, 1);
    da_options_set_int(h, "number of neighbors", 1);
    da_options_set_string(h, "outlier handling", "most frequent");
    double X[3] = {0, 1, 2}, q[1] = {rad && sym_choose("far", 0, 1) ? 50. : 2}, t1[3] = {1, 2, 3}, t2[3] = {7, 8, 9};
    da_int y1[3] = {1, 1, 2}, y2[3] = {5, 6, 6}, n = 0, p = -1;
    double v = -1;
    da_nn_search_mode mode = rad ? radius_search_mode : knn_search_mode;
    if (rad) api<double>::set(h, "radius", 0.5);
    api<double>::nn_data(h, 3, 1, X, 3);
    api<double>::nn_labels(h, 3, y1);
    api<double>::nn_targets(h, 3, t1);
    sym_assert(api<double>::nn_class(h, 1, 1, q, 1, &p, mode) == da_status_success, "first labels");
    sym_assert(p == (q[0] == 2 ? 2 : 1), "first label");
    sym_assert(api<double>::nn_reg(h, 1, 1, q, 1, &v, mode) == da_status_success && v == (q[0] == 2 ? 3 : 2), "first target");
    da_status s1 = api<double>::nn_labels(h, 3, y2), s2 = api<double>::nn_targets(h, 3, t2);
    if (s1 == da_status_success) {
        p = -1;
        sym_assert(api<double>::nn_class(h, 1, 1, q, 1, &p, mode) == da_status_success, "second labels");
        sym_assert(p == 6, "predictions use the labels last set");
        n = 0;
        sym_assert(da_nn_classes_d(h, &n, nullptr) == da_status_success && n == 2, "two classes");
        da_int c[2] = {-1, -1};
        sym_assert(da_nn_classes_d(h, &n, c) == da_status_success && c[0] == 5 && c[1] == 6, "classes are those of the labels last set");
    }
    if (s2 == da_status_success) sym_assert(api<double>::nn_reg(h, 1, 1, q, 1, &v, mode) == da_status_success && v == (q[0] == 2 ? 9 : 8), "predictions use the targets last set");
    sym_reach("replace");
    da_handle_destroy(&h);
    sym_leakcheck();
}
// more neighbours than rows is an error for searches and predictions alike
HARNESS(pred_few) {
    sym_omp(1, 0);
    sym_leakmark();
    da_handle h = nullptr;
    api<double>::init(&h, da_handle_nn);
    int m = (int)sym_choose("m", 1, 3), k = (int)sym_choose("k", 1, 4), algo = (int)sym_choose("algo", 0, 2);
    bool row = sym_choose("row", 0, 1), wd = sym_choose("distance weights", 0, 1);
    da_options_set_string(h, "algorithm", algos[algo]);
    da_options_set_string(h, "storage order", row ? "row-major" : "column-major");
    da_options_set_string(h, "weights", wd ? "distance" : "uniform");
    da_options_set_int(h, "number of neighbors", k);
    double X[3] = {0, 1, 2}, q[1] = {1}, t[3] = {1, 2, 3}, dd[4], pr[4], v;
    da_int y[3] = {1, 1, 2}, ind[4], p;
    api<double>::nn_data(h, m, 1, X, row ? 1 : m);
    api<double>::nn_labels(h, m, y);
    api<double>::nn_targets(h, m, t);
    da_status want = k > m ? da_status_invalid_input : da_status_success;
    sym_assert(api<double>::nn_knn(h, 1, 1, q, 1, ind, dd, k, 1) == want, "search for more neighbours than rows is rejected");
    sym_assert(api<double>::nn_proba(h, 1, 1, q, 1, pr, knn_search_mode) == want, "probabilities from more neighbours than rows are rejected");
    sym_assert(api<double>::nn_class(h, 1, 1, q, 1, &p, knn_search_mode) == want, "labels from more neighbours than rows are rejected");
    sym_assert(api<double>::nn_reg(h, 1, 1, q, 1, &v, knn_search_mode) == want, "targets from more neighbours than rows are rejected");
    sym_reach("few");
    da_handle_destroy(&h);
    sym_leakcheck();
}
// More rows and queries than fit one block of the implementation; most values are fixed, one row is free.
template <class T> static void wide(int algo, bool radius, int threads, int m, int q) {
    sym_omp(threads, threads > 1 ? sym_choose("ord", 0, 1) : 0);
    sym_leakmark();
    da_handle h = nullptr;
    sym_assert(api<T>::init(&h, da_handle_nn) == da_status_success, "init");
    static const char *mt[] = {"euclidean", "manhattan", "sqeuclidean", "euclidean_gemm"};
    int cfg = threads > 1 ? 0 : sym_choose("cfg", 0, algo ? 1 : 3);
    da_order order = cfg == 1 ? row_major : column_major;
    da_options_set_string(h, "algorithm", algos[algo]);
    da_options_set_string(h, "metric", mt[cfg]);
    da_options_set_string(h, "storage order", order == row_major ? "row-major" : "column-major");
    if (algo) da_options_set_int(h, "leaf size", 20);
    static T X[2 * 600], Q[2 * 600];
    static double xv[600], qv[600];
    da_int ldx = order == row_major ? 2 : m + 1, ldq = order == row_major ? 2 : q + 1, k = 2;
    int at_ = sym_choose("free", 0, threads > 1 ? 4 : 3), f = (at_ == 3 ? 2 : at_ == 4 ? 1 : at_) * (m - 1) / 2; // first, middle or last row
    for (int i = 0; i < m; i++) xv[i] = (i * 101) % m, at(X, order, ldx, i, 0) = (T)xv[i], at(X, order, ldx, i, 1) = 1;
    // queries a quarter above every other multiple of a half
    for (int i = 0; i < q; i++) qv[i] = ((i * 103) % q) * 0.5 + 0.125, at(Q, order, ldq, i, 0) = (T)qv[i], at(Q, order, ldq, i, 1) = 1;
    bool far = at_ >= 3; // the free row is an outlier, next to a query
    if (far) qv[1] = 1000.125, at(Q, order, ldq, 1, 0) = (T)qv[1];
    T free_ = sym_dyT<T>("x", 3, 4, 0) + (T)(far ? 996 : 0);
    at(X, order, ldx, f, 0) = free_;
    sym_assert(api<T>::nn_data(h, m, 2, X, ldx) == da_status_success, "training data accepted");
    T r = (T)1.5, dlim = cfg == 2 ? (T)2.25 : r;
    auto d = [&](int a, int i) { T e = (a == f ? free_ : (T)xv[a]) - (T)qv[i]; e = e < 0 ? -e : e; return cfg == 2 ? e * e : e; };
    if (radius) {
        sym_assert(api<T>::nn_rad(h, q, 2, Q, ldq, dlim, 0, 0) == da_status_success, "query succeeds");
        static da_int cnt[601], off[601], ind[2400];
        da_int dim = q + 1;
        sym_assert(da_handle_get_result_int(h, da_nn_radius_neighbors_count, &dim, cnt) == da_status_success, "counts available");
        dim = q + 1;
        sym_assert(da_handle_get_result_int(h, da_nn_radius_neighbors_offsets, &dim, off) == da_status_success, "offsets available");
        dim = sym_conc(cnt[q]);
        sym_assert(dim > 0 && dim <= 2400, "counts are the numbers of rows within the radius");
        sym_assert(da_handle_get_result_int(h, da_nn_radius_neighbors_indices, &dim, ind) == da_status_success, "indices available");
        bool c = true, in = true, dis = true;
        for (int i = 0; i < q; i++) {
            int w = 0, n = (int)sym_conc(cnt[i]);
            for (int a = 0; a < m; a++)
                if (a == f) w += d(a, i) <= dlim;
                else w += (xv[a] - qv[i]) * (xv[a] - qv[i]) <= 2.25;
            c &= n == w;
            for (int b = 0; b < n; b++) {
                int a = (int)ind[off[i] + b];
                bool ok = a >= 0 && a < m;
                in &= ok && d(a, i) <= dlim;
                for (int e = 0; e < b; e++) dis &= ind[off[i] + e] != a;
            }
        }
        sym_assert(c, "counts are the numbers of rows within the radius");
        sym_assert(dis, "indices are distinct training rows");
        sym_assert(in, "every reported row is within the radius");
    } else {
        static da_int ind[1200];
        static T dst[1200];
        sym_assert(api<T>::nn_knn(h, q, 2, Q, ldq, ind, dst, k, 1) == da_status_success, "query succeeds");
        bool in = true, dd = true, near = true;
        for (int i = 0; i < q; i++) {
            T best[2] = {(T)1e6, (T)1e6};
            for (int a = 0; a < m; a++) {
                if (a != f && i != 1 && (xv[a] - qv[i] > 3 || qv[i] - xv[a] > 3)) continue;
                T e = d(a, i);
                if (e < best[0]) best[1] = best[0], best[0] = e;
                else if (e < best[1]) best[1] = e;
            }
            for (int b = 0; b < 2; b++) {
                int a = (int)(order == row_major ? ind[i * 2 + b] : ind[i + b * q]);
                T g = order == row_major ? dst[i * 2 + b] : dst[i + b * q];
                bool ok = a >= 0 && a < m;
                in &= ok;
                if (ok) dd &= g == d(a, i);
                near &= g == best[b];
            }
            in &= order == row_major ? ind[i * 2] != ind[i * 2 + 1] : ind[i] != ind[i + q];
        }
        sym_assert(in, "neighbours are distinct training rows");
        sym_assert(dd, "reported distance is the distance to the reported row");
        sym_assert(near, "no unreported row is nearer than a reported one");
    }
    sym_reach(radius ? "rad" : "knn");
    da_handle_destroy(&h);
    sym_leakcheck();
}
HARNESS(knn_wide) { wide<double>(0, false, 1, sym_choose("m", 255, 257), 258); }
HARNESS(knn_wide_tree) { wide<double>(sym_choose("algo", 1, 2), false, 1, 258, 258); }
HARNESS(knn_wide_par) { wide<double>(sym_choose("algo", 1, 2), false, 2, 515, 30); }
HARNESS(rad_wide) { wide<double>(0, true, 1, sym_choose("m", 255, 257), 258); }
HARNESS(rad_wide_tree) { wide<double>(sym_choose("algo", 1, 2), true, 1, 258, 258); }
HARNESS(rad_wide_par) { int a = sym_choose("algo", 0, 2); wide<double>(a, true, 2, 515, a ? 130 : 258); }
