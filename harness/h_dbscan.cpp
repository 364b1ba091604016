// DBSCAN against its definition.
#include "hapi.h"
#include <cmath>
#ifdef TIER_THOROUGH
#define TT 1
#else
#define TT 0
#endif
#define OK(e, m) sym_assert((e) == da_status_success, m)
static da_status set(da_handle h, da_int m, da_int n, const double *X, da_int ld) { return da_dbscan_set_data_d(h, m, n, X, ld); }
static da_status set(da_handle h, da_int m, da_int n, const float *X, da_int ld) { return da_dbscan_set_data_s(h, m, n, X, ld); }
static da_status eps_(da_handle h, double e) { return da_options_set_real_d(h, "eps", e); }
static da_status eps_(da_handle h, float e) { return da_options_set_real_s(h, "eps", e); }
static da_status pow_(da_handle h, double e) { return da_options_set_real_d(h, "power", e); }
static da_status pow_(da_handle h, float e) { return da_options_set_real_s(h, "power", e); }
static da_status run(da_handle h, double) { return da_dbscan_compute_d(h); }
static da_status run(da_handle h, float) { return da_dbscan_compute_s(h); }
struct met { const char *name; int sq; double p; };
static const met mets[] = {{"euclidean", 0, 2}, {"sqeuclidean", 1, 2}, {"manhattan", 0, 2}, {"l2", 0, 2}, {"minkowski", 0, 2}, {"minkowski", 0, 1}, {"cityblock", 0, 2}};
static const char *algs[] = {"brute", "kd tree", "ball tree", "auto"};
template <class T> static void dbscan(int alg, int metric, int m, int R, int threads, bool rows, int ms, bool one_eps = false) {
    sym_omp(threads, threads > 1 ? sym_choose("ord", 0, 1) : 0);
    da_handle h = nullptr;
    OK(api<T>::init(&h, da_handle_dbscan), "init");
    OK(da_options_set_string(h, "algorithm", algs[alg]), "algorithm");
    OK(da_options_set_string(h, "metric", mets[metric].name), "metric");
    if (metric == 5) OK(pow_(h, (T)1), "power");
    OK(da_options_set_string(h, "storage order", rows ? "row-major" : "column-major"), "order");
    if (alg) OK(da_options_set_int(h, "leaf size", sym_choose("leaf", 1, 2)), "leaf size");
    if (ms) OK(da_options_set_int(h, "min samples", ms), "min samples");
    else ms = 5;
    T e = one_eps ? (T)1 : sym_dyT<T>("eps", 0, 2 * R + 1, -1), X[8], x[8];
    OK(eps_(h, e), "eps");
    int ld = rows ? 2 : m + 1; // padded
    for (T &v : X) v = 77;
    for (int i = 0; i < m; i++) X[rows ? i * ld : i] = x[i] = sym_dyT<T>("x", 0, R, 0);
    OK(set(h, m, 1, X, ld), "data accepted");
    da_status st = run(h, T());
    if ((alg == 1 || alg == 2) && mets[metric].sq) { // no triangle inequality
        sym_assert(st == da_status_incompatible_options, "squared distances need brute force");
        da_handle_destroy(&h);
        return;
    }
    OK(st, "computed");
    // the definition
    bool nb[8][8], core[8], conn[8][8];
    int nc = 0;
    for (int i = 0; i < m; i++) {
        int c = 0;
        for (int j = 0; j < m; j++) {
            T d = x[i] < x[j] ? x[j] - x[i] : x[i] - x[j];
            if (mets[metric].sq) d = d * d;
            nb[i][j] = d <= e;
            c += nb[i][j];
        }
        core[i] = c >= ms;
        nc += core[i];
    }
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) conn[i][j] = (i == j) | (nb[i][j] & core[i] & core[j]);
    for (int k = 0; k < m; k++) for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) conn[i][j] = conn[i][j] | (conn[i][k] & conn[k][j]);
    int cl = 0; // clusters: cores without an earlier connected core
    for (int i = 0; i < m; i++) {
        bool first = core[i];
        for (int j = 0; j < i; j++) first = first & !(core[j] & conn[i][j]);
        cl += first;
    }
    da_int lab[9], idx[9], one_ = 1, k = m, ncore = -7, ncl = -7;
    for (int i = 0; i < 9; i++) lab[i] = idx[i] = -9;
    OK(da_handle_get_result_int(h, da_dbscan_labels, &k, lab), "labels");
    OK(da_handle_get_result_int(h, da_dbscan_n_core_samples, &one_, &ncore), "number of core samples");
    OK(da_handle_get_result_int(h, da_dbscan_n_clusters, &one_, &ncl), "number of clusters");
    sym_assert(ncore == nc, "the number of core samples is that of the definition");
    sym_assert(ncl == cl, "the number of clusters is that of the definition");
    k = m;
    OK(da_handle_get_result_int(h, da_dbscan_core_sample_indices, &k, idx), "core samples");
    bool range = true, cores = true, border = true, noise = true, names = true, listed = true, rest = lab[m] == -9;
    int pos = 0;
    for (int i = 0; i < m; i++) {
        range &= lab[i] >= -1 && lab[i] < cl;
        bool near = false, in = false;
        for (int j = 0; j < m; j++) {
            cores &= !(core[i] & core[j]) | ((lab[i] == lab[j]) == conn[i][j]);
            near |= core[j] & nb[i][j];
            in |= core[j] & nb[i][j] & (lab[i] == lab[j]);
        }
        noise &= (lab[i] == -1) == !near;
        border &= !near | in;
        bool at = false;
        for (int q = 0; q <= i; q++) at |= (pos == q) & (idx[q] == i);
        listed &= !core[i] | at;
        pos += core[i];
    }
    for (int c = 0; c < m; c++) {
        bool used = false;
        for (int i = 0; i < m; i++) used |= core[i] & (lab[i] == c);
        names &= used == (c < cl);
    }
    for (int q = 0; q < 9; q++) rest &= (q < pos) | (idx[q] == -9);
    sym_assert(range, "labels are clusters or noise");
    sym_assert(cores, "core samples share a label exactly if they are connected");
    sym_assert(noise, "noise is what no core sample reaches");
    sym_assert(border, "a border sample belongs to a cluster that reaches it");
    sym_assert(names, "clusters are numbered consecutively");
    sym_assert(listed, "core samples are listed in order");
    sym_assert(rest, "nothing else is written");
    sym_reach("dbscan");
    da_handle_destroy(&h);
}
HARNESS(dbs_serial) { dbscan<double>(0, 0, 4, 3, 1, false, sym_choose("min", 1, 4)); }
HARNESS(dbs_float) { dbscan<float>(0, 0, 3, 3, 1, true, sym_choose("min", 1, 3)); }
HARNESS(dbs_default) { dbscan<double>(3, 0, 4, 2, 1, false, 0); }
HARNESS(dbs_metrics) { dbscan<double>(sym_choose("alg", 0, 3), sym_choose("metric", 0, 6), 3, 2, 1, true, 2); }
HARNESS(dbs_par) { dbscan<double>(0, 0, 4, 3, 2, false, sym_choose("min", 1, 3)); }
HARNESS(dbs_border) { int t = sym_choose("threads", 1, 2); dbscan<double>(0, 0, 5, 4, t, false, 3, true); }

// More samples than fit one block: two chains that a free sample may join; everything else is fixed.
template <class T> static void dbs_chain(int alg, int m, int threads) {
    sym_omp(threads, threads > 1 ? sym_choose("ord", 0, 1) : 0);
    da_handle h = nullptr;
    OK(api<T>::init(&h, da_handle_dbscan), "init");
    int cfg = sym_choose("cfg", 0, 1), ms = 2 + cfg;
    OK(da_options_set_string(h, "algorithm", algs[alg]), "algorithm");
    OK(da_options_set_string(h, "storage order", cfg ? "row-major" : "column-major"), "order");
    if (alg) OK(da_options_set_int(h, "leaf size", 25), "leaf size");
    OK(da_options_set_int(h, "min samples", ms), "min samples");
    OK(eps_(h, (T)1), "eps");
    static T X[2 * 600];
    static double xv[600];
    static bool core[600], near_[600];
    static int comp[600], cnt[600], want[600], todo[600];
    static da_int lab[601], idx[601];
    int ld = cfg ? 2 : m + 1, f = -1, gap = m / 2;
    auto X_ = [&](int i, int j) -> T & { return cfg ? X[i * ld + j] : X[i + j * ld]; };
    for (int i = 0; i < m; i++) {
        int v = (i * 101) % m;
        if (v == gap) f = i;
        xv[i] = v < 2 ? v - 10 * (2 - v) : v; // two samples apart from the others
        X_(i, 0) = (T)xv[i], X_(i, 1) = 1;
    }
    T x = sym_dyT<T>("x", 2 * gap - 4, 2 * gap + 3, -1);
    X_(f, 0) = x;
    OK(set(h, m, 2, X, ld), "data accepted");
    OK(run(h, T()), "computed");
    auto nb = [&](int i, int j) -> bool {
        if (i == j) return true;
        if (i != f && j != f) return xv[i] - xv[j] <= 1 && xv[j] - xv[i] <= 1;
        T e = x - (T)xv[i == f ? j : i];
        return (e < 0 ? -e : e) <= 1;
    };
    int nc = 0, cl = 0;
    static bool nbf[600];
    for (int i = 0; i < m; i++) nbf[i] = nb(i, f);
    auto nb2 = [&](int i, int j) { return i == f ? nbf[j] : j == f ? nbf[i] : nb(i, j); };
    for (int i = 0; i < m; i++) {
        cnt[i] = 0, comp[i] = -1, near_[i] = false;
        for (int j = 0; j < m; j++) cnt[i] += nb2(i, j);
        core[i] = cnt[i] >= ms;
        nc += core[i];
    }
    for (int i = 0; i < m; i++) {
        if (!core[i] || comp[i] >= 0) continue;
        int n = 0;
        todo[n++] = i, comp[i] = cl;
        while (n) {
            int a = todo[--n];
            for (int j = 0; j < m; j++) if (core[j] && comp[j] < 0 && nb2(a, j)) comp[j] = cl, todo[n++] = j;
        }
        cl++;
    }
    da_int one_ = 1, k = m, ncore = -7, ncl = -7;
    lab[m] = idx[nc] = -9;
    OK(da_handle_get_result_int(h, da_dbscan_labels, &k, lab), "labels");
    OK(da_handle_get_result_int(h, da_dbscan_n_core_samples, &one_, &ncore), "number of core samples");
    OK(da_handle_get_result_int(h, da_dbscan_n_clusters, &one_, &ncl), "number of clusters");
    sym_assert(ncore == nc, "the number of core samples is that of the definition");
    sym_assert(ncl == cl, "the number of clusters is that of the definition");
    k = m;
    OK(da_handle_get_result_int(h, da_dbscan_core_sample_indices, &k, idx), "core samples");
    for (int c = 0; c < cl; c++) want[c] = -1;
    bool same = true, noise = true, border = true, listed = true;
    for (int i = 0, p = 0; i < m; i++) {
        int l = (int)sym_conc(lab[i]);
        if (core[i]) {
            listed &= idx[p++] == i;
            if (want[comp[i]] < 0) {
                same &= l >= 0 && l < cl;
                for (int c = 0; c < cl; c++) same &= c == comp[i] || want[c] != l;
                want[comp[i]] = l;
            } else same &= want[comp[i]] == l;
        }
    }
    for (int i = 0; i < m; i++) {
        if (core[i]) continue;
        bool any = false, in = false;
        for (int j = 0; j < m; j++) if (core[j] && nb2(i, j)) any = true, in |= lab[i] == lab[j];
        noise &= (lab[i] == -1) == !any;
        border &= !any || in;
    }
    sym_assert(same, "core samples share a label exactly if they are connected");
    sym_assert(noise, "noise is what no core sample reaches");
    sym_assert(border, "a border sample belongs to a cluster that reaches it");
    sym_assert(listed, "core samples are listed in order");
    sym_assert(lab[m] == -9 && idx[nc] == -9, "nothing else is written");
    sym_reach("dbscan");
    da_handle_destroy(&h);
}
HARNESS(dbs_wide) { dbs_chain<double>(0, sym_choose("m", 256, 258), 1); }
HARNESS(dbs_wide_tree) { dbs_chain<double>(sym_choose("alg", 1, 2), 258, 1); }
HARNESS(dbs_wide_par) { dbs_chain<float>(sym_choose("alg", 0, 2), 515, 2); }
