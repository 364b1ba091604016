// Helpers for harnesses that drive the public C interface.
#pragma once
#include "aoclda.h"
#include "sym.h"
#include <climits>
#include <cstring>
template <class T> struct api;
#define API(T, S)                                                                                                                    \
    template <> struct api<T> {                                                                                                      \
        static da_status init(da_handle *h, da_handle_type t) { return da_handle_init_##S(h, t); }                                    \
        static da_status set(da_handle h, const char *o, T v) { return da_options_set_real_##S(h, o, v); }                            \
        static da_status get(da_handle h, const char *o, T *v) { return da_options_get_real_##S(h, o, v); }                           \
        static da_status result(da_handle h, da_result q, da_int *d, T *r) { return da_handle_get_result_##S(h, q, d, r); }           \
        static da_status in_model(da_handle h, da_interpolation_model m) { return da_interpolation_select_model_##S(h, m); }           \
        static da_status in_sites(da_handle h, da_int n, const T *x) { return da_interpolation_set_sites_##S(h, n, x); }               \
        static da_status in_uniform(da_handle h, da_int n, T a, T b) { return da_interpolation_set_sites_uniform_##S(h, n, a, b); }    \
        static da_status in_values(da_handle h, da_int n, da_int d, const T *y, da_int l, da_int o) { return da_interpolation_set_values_##S(h, n, d, y, l, o); } \
        static da_status in_cells(da_handle h, da_int n, const T *x, da_int *c) { return da_interpolation_search_cells_##S(h, n, x, c); } \
        static da_status in_bc(da_handle h, da_int d, da_int lo, const T *l, da_int ro, const T *r) { return da_interpolation_set_boundary_conditions_##S(h, d, lo, l, ro, r); } \
        static da_status in_fit(da_handle h) { return da_interpolation_interpolate_##S(h); }                                          \
        static da_status in_eval(da_handle h, da_int n, const T *x, T *y, da_int no, da_int *o) { return da_interpolation_evaluate_##S(h, n, x, y, no, o); } \
        static da_status nn_data(da_handle h, da_int m, da_int n, const T *X, da_int l) { return da_nn_set_data_##S(h, m, n, X, l); }  \
        static da_status nn_knn(da_handle h, da_int q, da_int n, const T *X, da_int l, da_int *i, T *d, da_int k, da_int r) { return da_nn_kneighbors_##S(h, q, n, X, l, i, d, k, r); } \
        static da_status nn_rad(da_handle h, da_int q, da_int n, const T *X, da_int l, T r, da_int rd, da_int s) { return da_nn_radius_neighbors_##S(h, q, n, X, l, r, rd, s); } \
        static da_status nn_labels(da_handle h, da_int m, const da_int *y) { return da_nn_set_labels_##S(h, m, y); }                    \
        static da_status nn_targets(da_handle h, da_int m, const T *y) { return da_nn_set_targets_##S(h, m, y); }                       \
        static da_status nn_proba(da_handle h, da_int q, da_int n, const T *X, da_int l, T *p, da_nn_search_mode s) { return da_nn_classifier_predict_proba_##S(h, q, n, X, l, p, s); } \
        static da_status nn_class(da_handle h, da_int q, da_int n, const T *X, da_int l, da_int *p, da_nn_search_mode s) { return da_nn_classifier_predict_##S(h, q, n, X, l, p, s); } \
        static da_status nn_reg(da_handle h, da_int q, da_int n, const T *X, da_int l, T *p, da_nn_search_mode s) { return da_nn_regressor_predict_##S(h, q, n, X, l, p, s); } \
        static da_status df_data(int f, da_handle h, da_int m, da_int n, da_int c, const T *X, da_int l, const da_int *y) { return f ? da_forest_set_training_data_##S(h, m, n, c, X, l, y, nullptr) : da_tree_set_training_data_##S(h, m, n, c, X, l, y, nullptr); } \
        static da_status df_fit(int f, da_handle h) { return f ? da_forest_fit_##S(h) : da_tree_fit_##S(h); }                           \
        static da_status df_predict(int f, da_handle h, da_int m, da_int n, const T *X, da_int l, da_int *y) { return f ? da_forest_predict_##S(h, m, n, X, l, y) : da_tree_predict_##S(h, m, n, X, l, y); } \
        static da_status df_proba(int f, da_handle h, da_int m, da_int n, const T *X, da_int l, T *p, da_int c, da_int lp) { return f ? da_forest_predict_proba_##S(h, m, n, X, l, p, c, lp) : da_tree_predict_proba_##S(h, m, n, X, l, p, c, lp); } \
        static da_status df_log(int f, da_handle h, da_int m, da_int n, const T *X, da_int l, T *p, da_int c, da_int lp) { return f ? da_forest_predict_log_proba_##S(h, m, n, X, l, p, c, lp) : da_tree_predict_log_proba_##S(h, m, n, X, l, p, c, lp); } \
        static da_status df_score(int f, da_handle h, da_int m, da_int n, const T *X, da_int l, const da_int *y, T *s) { return f ? da_forest_score_##S(h, m, n, X, l, y, s) : da_tree_score_##S(h, m, n, X, l, y, s); } \
    };
API(double, d)
API(float, s)
static inline double sym_pick(const char *n, const double *v, int k, double) { return sym_tab(n, v, k); }
static inline float sym_pick(const char *n, const float *v, int k, float) { return sym_tabf(n, v, k); }
// element (i, j) of a matrix in the given order
template <class T> static inline T &at(T *p, da_order o, da_int ld, da_int i, da_int j) { return o == row_major ? p[i * ld + j] : p[j * ld + i]; }
