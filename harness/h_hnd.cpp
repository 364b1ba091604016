// Misused handles: an error status, outputs untouched, nothing leaked.
#include "aoclda.h"
#include "da_handle.hpp"
#include "dynamic_dispatch.hpp"
#include "da_utils.hpp"
#include "interpolation_public.cpp" // does not include da_utils.hpp itself
#include "hapi.h"
#include <cstdlib>
#ifdef TIER_THOROUGH
#define TT 1
#else
#define TT 0
#endif
#define OK(e, m) sym_assert((e) == da_status_success, m)
// three buffers per type; calls read from and write to them
static double bd[3][8];
static float bf[3][8];
static da_int bi[3][8];
static int null_at = -1, int_at = -1; // an argument replaced by a null pointer or an odd integer
static da_int odd;
static double *Pd(int i) { return i == null_at ? nullptr : bd[i]; }
static float *Pf(int i) { return i == null_at ? nullptr : bf[i]; }
static da_int *Pi(int i) { return i == null_at ? nullptr : bi[i]; }
static const double *Pdc(int i) { return Pd(i); }
static const float *Pfc(int i) { return Pf(i); }
static const da_int *Pic(int i) { return Pi(i); }
static da_int I(int i) { return i == int_at ? odd : 2; }
static void fill() { for (int i = 0; i < 3; i++) for (int j = 0; j < 8; j++) bd[i][j] = 1 + j % 2, bf[i][j] = 1 + j % 2, bi[i][j] = j % 2; }
static bool kept() {
    bool ok = true;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 8; j++) ok &= bd[i][j] == 1 + j % 2 && bf[i][j] == 1 + j % 2 && bi[i][j] == j % 2;
    return ok;
}
struct call { const char *name; da_status (*fn)(da_handle); da_handle_type type; int prec; };
static const call calls[] = {
#include "gen_calls.inc"
};
static const int NC = sizeof calls / sizeof calls[0];
static da_status init(da_handle *h, int prec, int type) { return prec ? da_handle_init_d(h, (da_handle_type)type) : da_handle_init_s(h, (da_handle_type)type); }
HARNESS(hnd_cycle) { // creating and destroying
    sym_omp(1, 0);
    sym_leakmark();
    da_handle_destroy(nullptr);
    for (int k = 0; k < 2; k++) {
        da_handle h = nullptr;
        da_handle_destroy(&h);
        OK(init(&h, sym_choose("precision", 0, 1), sym_choose("type", 0, 13)), "created");
        sym_assert(h != nullptr, "handle returned");
        da_handle_destroy(&h);
        sym_assert(h == nullptr, "handle cleared");
        da_handle_destroy(&h);
        sym_leakcheck();
    }
    sym_reach("cycle");
}
HARNESS(hnd_null) { // no handle
    fill();
    int c = sym_choose("function", 0, NC - 1);
    sym_assert(calls[c].fn(nullptr) == da_status_handle_not_initialized, "a missing handle is reported");
    sym_assert(kept(), "outputs untouched");
    sym_reach("null");
}
HARNESS(hnd_wrong) { // handle of another type or precision
    sym_omp(1, 0);
    sym_leakmark();
    fill();
    int c = sym_choose("function", 0, NC - 1), type = sym_choose("type", 0, 13), prec = sym_choose("precision", 0, 1);
    const call &f = calls[c];
    if (f.type == type && f.prec == prec) return;
    da_handle h = nullptr;
    OK(init(&h, prec, type), "created");
    da_status s = f.fn(h);
    sym_assert(s == (f.prec != prec ? da_status_wrong_type : type ? da_status_invalid_handle_type : s) && s != da_status_success, "the mismatch is reported");
    sym_assert(kept(), "outputs untouched");
    da_handle_destroy(&h);
    sym_leakcheck();
    sym_reach("wrong");
}
static bool has(const char *s, const char *t) { return strstr(s, t) != nullptr; }
HARNESS(hnd_early) { // the right handle before anything was computed
    sym_omp(1, 0);
    sym_leakmark();
    fill();
    int c = sym_choose("function", 0, NC - 1);
    const call &f = calls[c];
    bool setter = has(f.name, "_set_") || has(f.name, "_select_") || has(f.name, "_define_");
    if (setter) return;
    da_handle h = nullptr;
    OK(init(&h, f.prec, f.type), "created");
    sym_assert(f.fn(h) != da_status_success, "nothing can be computed yet");
    sym_assert(kept(), "outputs untouched");
    da_handle_destroy(&h);
    sym_leakcheck();
    sym_reach("early");
}
static const int queries[] = {1, 2, 3, 4, 5, 6, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 201, 202, 203, 204, 205, 301, 302, 303, 304, 305, 401, 402, 403, 404, 501, 502, 503, 601, 602, 603, 604, 605, 606, 607, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 801, 802, 803, 901, 902, 1001, 1002, -1, 0, INT_MAX};
HARNESS(hnd_results) { // results before anything was computed
    sym_omp(1, 0);
    sym_leakmark();
    fill();
    int type = sym_choose("type", 0, 13), prec = sym_choose("precision", 0, 1), kind = sym_choose("kind", 0, 2);
    da_result q = (da_result)queries[sym_choose("query", 0, (int)(sizeof queries / sizeof queries[0]) - 1)];
    da_handle h = nullptr;
    OK(init(&h, prec, type), "created");
    da_int dim = (da_int)sym_int("size", -1, 8), d0 = dim;
    da_status s = kind == 0 ? da_handle_get_result_d(h, q, &dim, bd[0]) : kind == 1 ? da_handle_get_result_s(h, q, &dim, bf[0]) : da_handle_get_result_int(h, q, &dim, bi[0]);
    if (kind == 2 && q == da_trained && type && d0 >= 1) { // documented to be available before training
        sym_assert(s == da_status_success && bi[0][0] == 0, "the model is reported as not trained");
        bi[0][0] = 0;
        s = da_status_unknown_query;
    }
    sym_assert(s != da_status_success, "there are no results yet");
    sym_assert(kept() && (dim == d0 || s == da_status_invalid_array_dimension), "outputs untouched");
    da_handle_destroy(&h);
    sym_leakcheck();
    sym_reach("results");
}
HARNESS(hnd_oom) { // memory runs out while the handle is made
    sym_omp(1, 0);
    sym_leakmark();
    int type = sym_choose("type", 0, 13), prec = sym_choose("precision", 0, 1);
    da_handle h = nullptr;
    sym_oom(1);
    da_status s = init(&h, prec, type);
    int hit = sym_oom_hit();
    sym_oom(0);
    sym_assert(hit ? s != da_status_success : s == da_status_success, "running out of memory is reported");
    da_handle_destroy(&h);
    sym_leakcheck();
    sym_reach(hit ? "oom" : "fine");
}
HARNESS(hnd_text) { // the error text of the last call
    sym_omp(1, 0);
    sym_leakmark();
    da_handle h = nullptr;
    OK(init(&h, 1, da_handle_nn), "created");
    for (int k = 0; k < 3; k++) {
        int op = sym_choose("op", 0, 3);
        double x[1];
        da_int d = 1;
        da_status s = op == 0 ? da_options_set_int(h, "leaf size", 0) : op == 1 ? da_options_set_int(h, "leaf size", 2) : op == 2 ? da_handle_get_result_d(h, da_rinfo, &d, x) : da_nn_set_data_d(h, 0, 0, x, 0);
        char *msg = nullptr;
        da_severity sev = (da_severity)77;
        da_status g = da_handle_get_error_message(h, &msg);
        (void)sev;
        sym_assert(g == da_status_success && msg && (op == 1 || strlen(msg) > 0), "a text is returned");
        sym_assert((s == da_status_success) == (op == 1), "only the valid call succeeds");
        free(msg);
    }
    da_handle_destroy(&h);
    sym_leakcheck();
    sym_reach("text");
}
HARNESS(hnd_args) { // missing arrays and odd sizes
    sym_omp(1, 0);
    sym_leakmark();
    fill();
    int c = sym_choose("function", 0, NC - 1);
    const call &f = calls[c];
    if (!strncmp(f.name, "da_nlls_fit", 11)) return; // reaches the Fortran solver
    da_handle h = nullptr;
    OK(init(&h, f.prec, f.type), "created");
    if (sym_choose("what", 0, 1)) null_at = sym_choose("pointer", 0, 2);
    else int_at = sym_choose("size", 0, 4), odd = (da_int)sym_int("value", INT_MIN, 0);
    f.fn(h);
    da_handle_destroy(&h);
    sym_leakcheck();
    sym_reach("args");
}
struct pair2 { const char *set, *run; };
static const pair2 pairs[] = {{"da_dbscan_set_data_d", "da_dbscan_compute_d"}, {"da_tree_set_training_data_d", "da_tree_fit_d"}, {"da_forest_set_training_data_d", "da_forest_fit_d"}, {"da_kmeans_set_data_d", "da_kmeans_compute_d"}, {"da_linmod_define_features_d", "da_linmod_fit_d"}, {"da_pca_set_data_d", "da_pca_compute_d"}, {"da_kernel_pca_set_data_d", "da_kernel_pca_compute_d"}, {"da_svm_set_data_d", "da_svm_compute_d"}, {"da_tsne_set_data_d", "da_tsne_compute_d"}, {"da_approx_nn_set_training_data_d", "da_approx_nn_train_d"}};
static const call *find(const char *n) {
    for (const call &c : calls) if (!strcmp(c.name, n)) return &c;
    return nullptr;
}
HARNESS(hnd_refail) { // a rejected second data set, then a computation
    sym_omp(1, 0);
    sym_leakmark();
    fill();
    for (int j = 0; j < 8; j++) bi[1][j] = bi[2][j] = 0;
    int p = sym_choose("pair", 0, (int)(sizeof pairs / sizeof pairs[0]) - 1);
    const call *set = find(pairs[p].set), *run = find(pairs[p].run);
    sym_assert(set && run, "functions are listed");
    da_handle h = nullptr;
    OK(init(&h, 1, set->type), "created");
    if (set->type == da_handle_svm) OK(da_svm_select_model_d(h, svc), "model selected");
    if (set->type == da_handle_linmod) OK(da_linmod_select_model_d(h, linmod_model_mse), "model selected");
    if (sym_choose("rows", 0, 1)) OK(da_options_set_string(h, "storage order", "row-major"), "order set");
    int keep = sym_choose("first", 0, 1);
    if (keep) sym_print("first set", set->fn(h));
    switch (sym_choose("what", 0, 3)) {
    case 0: null_at = 0; break;
    case 1: int_at = 0, odd = sym_choose("value", -1, 0); break;
    case 2: int_at = 1, odd = sym_choose("value", -1, 0); break;
    default: int_at = 2, odd = 0;
    }
    da_status s = set->fn(h), r = s;
    null_at = int_at = -1;
    sym_print("pair", p);
    sym_print("status", s);
    if (s != da_status_success) {
        r = run->fn(h);
        sym_print("ran", r);
        if (!keep) sym_assert(r != da_status_success, "there is no data to work on");
    }
    da_handle_destroy(&h);
    if (!keep) sym_leakcheck(); // a computation may leave its telemetry settings behind
    sym_reach("refail");
}
