// Interpolation through the public interface.
#include "aoclda.h"
#include "da_handle.hpp"
#include "dynamic_dispatch.hpp"
#include "da_utils.hpp"
#include "interpolation_public.cpp" // does not include da_utils.hpp itself
#include "hapi.h"
#include <cmath>
#include <limits>
static const char *types[] = {"natural", "clamped zero", "custom", "hermite"}, *orders[] = {"column-major", "row-major"};
template <class T> static T tol() { return sizeof(T) == 8 ? (T)1e-9 : (T)2e-3; }
template <class T> static bool near(T a, T b) { return std::fabs(a - b) <= tol<T>(); }
template <class T> static da_handle make() {
    da_handle h = nullptr;
    sym_assert(api<T>::init(&h, da_handle_interpolation) == da_status_success, "init");
    sym_assert(api<T>::in_model(h, interpolation_cubic_spline) == da_status_success, "model selected");
    return h;
}
template <class T> struct Spl { int n, dim, type, lo, ro; T x[6], y[6][2], yd[6][2], l[2], r[2]; };
template <class T> static T val(const T *c, T h) { return c[0] + h * (c[1] + h * (c[2] + h * c[3])); }
template <class T> static T der(const T *c, T h) { return c[1] + h * (2 * c[2] + h * 3 * c[3]); }
template <class T> static T der2(const T *c, T h) { return 2 * c[2] + h * 6 * c[3]; }
// the coefficients are those of the spline that the settings define
template <class T> static void is_spline(const Spl<T> &S, const T *c) {
    bool v = true, s = true, b = true, hm = true;
    for (int d = 0; d < S.dim; d++) {
        const T *q = c + 4 * (S.n - 1) * d;
        for (int i = 0; i < S.n - 1; i++, q += 4) {
            T h = S.x[i + 1] - S.x[i];
            v &= near(val(q, (T)0), S.y[i][d]) && near(val(q, h), S.y[i + 1][d]);
            if (S.type == 3) hm &= near(der(q, (T)0), S.yd[i][d]) && near(der(q, h), S.yd[i + 1][d]);
            else if (i + 2 < S.n) s &= near(der(q, h), der(q + 4, (T)0)) && near(der2(q, h), der2(q + 4, (T)0));
        }
        const T *f = c + 4 * (S.n - 1) * d, *e = q - 4;
        T h = S.x[S.n - 1] - S.x[S.n - 2];
        if (S.type == 0) b &= near(der2(f, (T)0), (T)0) && near(der2(e, h), (T)0);
        if (S.type == 1) b &= near(der(f, (T)0), (T)0) && near(der(e, h), (T)0);
        if (S.type == 2) b &= near(S.lo == 1 ? der(f, (T)0) : der2(f, (T)0), S.l[d]) && near(S.ro == 1 ? der(e, h) : der2(e, h), S.r[d]);
    }
    sym_assert(v, "the spline goes through every value");
    sym_assert(s, "slopes and curvatures agree where pieces meet");
    sym_assert(b, "boundary conditions hold");
    sym_assert(hm, "the spline has the given slopes");
}
template <class T> static void sites(da_handle h, Spl<T> &S, int uni, int shape) {
    static const double tab[2][6] = {{0, 1, 3, 3.5, 6, 7}, {-4, -3.75, -3.5, 0.5, 8.5, 9}};
    for (int i = 0; i < S.n; i++) S.x[i] = uni ? (T)(-1 + i * (shape ? 0.75 : 2)) : (T)tab[shape][i];
    sym_assert((uni ? api<T>::in_uniform(h, S.n, S.x[0], S.x[S.n - 1]) : api<T>::in_sites(h, S.n, S.x)) == da_status_success, "sites accepted");
}
template <class T> static void fill(Spl<T> &S, int salt) {
    static const double v[] = {1, -2, 4, 0, 3, -1, 2, 5, -3, 1, 0, 2};
    for (int i = 0; i < 6; i++) for (int d = 0; d < 2; d++) S.y[i][d] = (T)v[(i + 5 * d + salt) % 12], S.yd[i][d] = (T)v[(3 * i + d + 2 + salt) % 12];
    for (int d = 0; d < 2; d++) S.l[d] = (T)(2 - 3 * d), S.r[d] = (T)(d - 1);
}
template <class T> static void lay(T *p, const T (*v)[2], int n, int dim, int row, int ld) {
    for (int i = 0; i < 24; i++) p[i] = (T)99;
    for (int i = 0; i < n; i++) for (int d = 0; d < dim; d++) at(p, row ? row_major : column_major, ld, i, d) = v[i][d];
}
template <class T> static void spline(int which) {
    sym_leakmark();
    da_handle h = make<T>();
    Spl<T> S;
    S.type = sym_choose("type", 0, 3);
    S.n = which == 0 ? sym_choose("n", 2, 5) : 4;
    S.dim = which == 1 ? 2 : 1;
    S.lo = S.type == 2 ? sym_choose("left order", 1, 2) : 1;
    S.ro = S.type == 2 ? sym_choose("right order", 1, 2) : 1;
    int row = which == 1 ? sym_choose("row", 0, 1) : 0, pad = which == 1 ? sym_choose("pad", 0, 1) : 0;
    sites(h, S, sym_choose("uniform", 0, 1), which == 0 ? sym_choose("shape", 0, 1) : 1);
    fill(S, 0);
    static const T choices[] = {-3, 0, (T)0.5, 7};
    T w = sym_pick("w", choices, 4, T());
    int pos = sym_choose("free", 0, which == 1 ? 3 : S.n + 2), d = S.dim - 1;
    if (which == 1) pos = pos == 3 ? 2 : pos == 2 ? S.n : pos == 1 ? S.n + 1 : S.n + 2;
    if (pos < S.n) S.y[pos][d] = w;
    else if (pos == S.n) S.yd[1][d] = w;
    else if (pos == S.n + 1) S.l[d] = w;
    else S.r[d] = w;
    sym_assert(da_options_set_string(h, "storage order", orders[row]) == da_status_success && da_options_set_string(h, "cubic spline type", types[S.type]) == da_status_success, "options accepted");
    T Y[24], D[24];
    int ld = (row ? S.dim : S.n) + pad, ld2 = ld + pad;
    lay(Y, S.y, S.n, S.dim, row, ld);
    lay(D, S.yd, S.n, S.dim, row, ld2);
    bool first = sym_choose("slopes first", 0, 1);
    if (S.type == 3 && first) sym_assert(api<T>::in_values(h, S.n, S.dim, D, ld2, 1) == da_status_success, "slopes accepted");
    sym_assert(api<T>::in_values(h, S.n, S.dim, Y, ld, 0) == da_status_success, "values accepted");
    if (S.type == 3 && !first) sym_assert(api<T>::in_values(h, S.n, S.dim, D, ld2, 1) == da_status_success, "slopes accepted");
    if (S.type == 2) sym_assert(api<T>::in_bc(h, S.dim, S.lo, S.l, S.ro, S.r) == da_status_success, "boundary conditions accepted");
    sym_assert(api<T>::in_fit(h) == da_status_success, "the spline is computed");
    T c[34];
    for (int i = 0; i < 34; i++) c[i] = (T)77;
    da_int nc = 34, need = 4 * (S.n - 1) * S.dim, small = need - 1, one = 1, trained = 0;
    sym_assert(api<T>::result(h, da_cubic_spline_coefficients, &small, c) == da_status_invalid_array_dimension && small == need, "the size needed is reported");
    sym_assert(api<T>::result(h, da_cubic_spline_coefficients, &nc, c) == da_status_success, "coefficients available");
    sym_assert(da_handle_get_result_int(h, da_trained, &one, &trained) == da_status_success && trained == 1, "trained");
    is_spline(S, c);
    bool rest = true;
    for (int i = need; i < 34; i++) rest &= c[i] == (T)77;
    sym_assert(rest, "nothing else is written");
    da_handle_destroy(&h);
    sym_leakcheck();
    sym_reach("spline");
}
HARNESS(spl_def) { spline<double>(0); }
HARNESS(spl_dim) { spline<double>(1); }
HARNESS(spl_float) { spline<float>(1); }

template <class T> static T poly(const T *c, T h, int o) { return o == 0 ? val(c, h) : o == 1 ? der(c, h) : o == 2 ? der2(c, h) : 6 * c[3]; }
template <class T> static void eval() {
    sym_leakmark();
    da_handle h = make<T>();
    Spl<T> S;
    S.type = 0, S.n = sym_choose("n", 2, 4), S.dim = sym_choose("dim", 1, 2);
    int uni = sym_choose("uniform", 0, 1);
    sites(h, S, uni, 0);
    fill(S, 3);
    T Y[24], c[34], x[2], y[20];
    lay(Y, S.y, S.n, S.dim, 0, S.n);
    sym_assert(api<T>::in_values(h, S.n, S.dim, Y, S.n, 0) == da_status_success && api<T>::in_fit(h) == da_status_success, "the spline is computed");
    da_int nc = 34;
    sym_assert(api<T>::result(h, da_cubic_spline_coefficients, &nc, c) == da_status_success, "coefficients available");
    int set = sym_choose("set", 1, 15), ne = 2;
    da_int ord[4], no = 0;
    for (int o = 0; o < 4; o++) if (set >> o & 1) ord[no++] = o;
    T xs[12];
    int m = 0;
    for (int i = 0; i < S.n; i++) {
        xs[m++] = S.x[i];
        if (i + 1 < S.n) xs[m++] = (T)(0.25 * S.x[i] + 0.75 * S.x[i + 1]);
    }
    xs[m++] = S.x[0] - (T)1.5, xs[m++] = S.x[S.n - 1] + 2;
    x[0] = sym_pick("x", xs, m, T()), x[1] = (T)(0.5 * S.x[0] + 0.5 * S.x[1]);
    for (int i = 0; i < 20; i++) y[i] = (T)77;
    sym_assert(api<T>::in_eval(h, ne, x, y, no, ord) == da_status_success, "evaluation succeeds");
    bool ok = true, rest = true;
    int p = 0;
    for (int k = 0; k < no; k++) for (int d = 0; d < S.dim; d++) for (int e = 0; e < ne; e++, p++) {
        bool any = false;
        for (int i = 0; i < S.n - 1; i++) {
            bool in = (i == 0 || x[e] >= S.x[i]) & (i == S.n - 2 || x[e] <= S.x[i + 1]);
            any |= in & near(y[p], poly(c + 4 * (S.n - 1) * d + 4 * i, x[e] - S.x[i], (int)ord[k]));
        }
        ok &= any;
    }
    for (; p < 20; p++) rest &= y[p] == (T)77;
    sym_assert(ok, "values and derivatives of the spline at the points, by order, dimension and point");
    sym_assert(rest, "nothing else is written");
    da_handle_destroy(&h);
    sym_leakcheck();
    sym_reach("eval");
}
HARNESS(spl_eval) { eval<double>(); }
HARNESS(spl_eval_f) { eval<float>(); }

// any short history of settings: the spline is either refused or the one the last accepted settings define
template <class T> static void history(int steps) {
    sym_leakmark();
    da_handle h = make<T>();
    Spl<T> S;
    S.n = 3, S.dim = 0, S.type = 0;
    sites(h, S, 0, 0);
    fill(S, 0);
    T Y[8][24];
    int ddim = 0, bdim = 0, row = 0;
    bool fit = false;
    for (int k = 0; k < steps; k++) {
        int op = sym_choose("op", 0, 10);
        fill(S, 0);
        Spl<T> W = S;
        fill(W, 0);
        da_status s = da_status_success;
        int dim = 1 + (op & 1), ld = (row ? dim : S.n) + (dim == 2);
        T *p = Y[k];
        if (op < 2) {
            lay(p, W.y, S.n, dim, row, ld);
            s = api<T>::in_values(h, S.n, dim, p, ld, 0);
            if (s == da_status_success) S.dim = dim;
        } else if (op < 4) {
            lay(p, W.yd, S.n, dim, row, ld);
            s = api<T>::in_values(h, S.n, dim, p, ld, 1);
            if (s == da_status_success) ddim = dim;
        } else if (op < 6) {
            s = api<T>::in_bc(h, dim, 1, W.l, 2, W.r);
            if (s == da_status_success) bdim = dim, S.type = 2;
        } else if (op < 9) {
            S.type = op == 6 ? 0 : op == 7 ? 2 : 3;
            sym_assert(da_options_set_string(h, "cubic spline type", types[S.type]) == da_status_success, "type accepted");
        } else if (op == 9) {
            row = !row;
            sym_assert(da_options_set_string(h, "storage order", orders[row]) == da_status_success, "order accepted");
        } else
            (void)api<T>::in_fit(h);
    }
    S.lo = 1, S.ro = 2;
    da_status s = api<T>::in_fit(h);
    bool able = S.dim > 0 && (S.type == 0 || (S.type == 2 ? bdim >= S.dim : ddim == S.dim));
    if (S.dim > 0 && S.type == 0) sym_assert(s == da_status_success, "a natural spline is computed");
    if (S.type == 2 && bdim == S.dim && S.dim) sym_assert(s == da_status_success, "a spline with boundary conditions is computed");
    if (S.type == 3 && ddim == S.dim && S.dim) sym_assert(s == da_status_success, "a Hermite spline is computed");
    if (s == da_status_success) {
        sym_assert(able, "refused without matching values, slopes or boundary conditions");
        T c[34];
        da_int nc = 34, need = 4 * (S.n - 1) * S.dim, small = 0;
        sym_assert(api<T>::result(h, da_cubic_spline_coefficients, &small, c) == da_status_invalid_array_dimension && small == need, "coefficients of the last values");
        sym_assert(api<T>::result(h, da_cubic_spline_coefficients, &nc, c) == da_status_success, "coefficients available");
        is_spline(S, c);
    }
    da_handle_destroy(&h);
    sym_leakcheck();
    sym_reach("history");
}
HARNESS(spl_hist) { history<double>(3); }

// ---- cells
template <class T> static void in_cell(const T *s, int n, T x, da_int c) {
    sym_assert(c >= 0 && c <= n - 2, "a cell of the sites");
    if (c < 0 || c > n - 2) return;
    sym_assert(!(x == x) || ((c == 0 || x >= s[c]) & (c == n - 2 || x <= s[c + 1])), "the cell contains the point");
}
template <class T> static int awkward(const T *s, int n, T *x) {
    int m = 0;
    for (int i = 0; i < n; i++) x[m++] = s[i], x[m++] = std::nextafter(s[i], (T)-1e30), x[m++] = std::nextafter(s[i], (T)1e30);
    T big = sizeof(T) == 8 ? (T)1e300 : (T)1e38;
    T r = s[n - 1] - s[0];
    x[m++] = big, x[m++] = -big, x[m++] = (T)INFINITY, x[m++] = -(T)INFINITY, x[m++] = (T)NAN, x[m++] = s[0] + r * (T)3e9, x[m++] = s[0] - r * (T)3e9, x[m++] = s[n - 1] + r / 2;
    return m;
}
template <class T> static void cells_u() {
    static const double lim[][3] = {{0, 1, 11}, {-1, 2, 7}, {0, 8, 9}, {1, 1.7, 13}, {-0.3, 0.4, 6}, {100, 100.1, 6}, {0, 3, 2}, {-7, 5, 3}};
    int k = sym_choose("sites", 0, 7), n = (int)lim[k][2];
    T a = (T)lim[k][0], b = (T)lim[k][1], s[16], x[64];
    da_handle h = make<T>();
    sym_assert(api<T>::in_uniform(h, n, a, b) == da_status_success, "sites accepted");
    T dx = (b - a) / (T)(n - 1);
    for (int i = 0; i < n; i++) s[i] = a + i * dx;
    int m = awkward(s, n, x);
    T q[2] = {sym_pick("x", x, m, T()), s[1]};
    da_int c[3] = {-7, -7, -7};
    sym_assert(api<T>::in_cells(h, 2, q, c) == da_status_success, "search succeeds");
    in_cell(s, n, q[0], c[0]);
    in_cell(s, n, q[1], c[1]);
    sym_assert(c[2] == -7, "nothing else is written");
    da_handle_destroy(&h);
    sym_reach("cells");
}
HARNESS(cells_uni) { cells_u<double>(); }
HARNESS(cells_uni_f) { cells_u<float>(); }
template <class T> static void cells_n() {
    static const double tab[][8] = {{0, 1, 3, 3.5, 6, 7, 7.1, 9}, {-0.3, 0.1, 0.2, 0.7, 0.70001, 0.8, 100, 101}, {0, 1e-6, 2e-6, 1, 2, 4, 8, 1e6}, {-5, -4, -3, -2, -1, 0, 1, 2}};
    int k = sym_choose("sites", 0, 3), n = sym_choose("n", 2, 8);
    T s[8], x[64];
    for (int i = 0; i < n; i++) s[i] = (T)tab[k][i];
    da_handle h = make<T>();
    sym_assert(api<T>::in_sites(h, n, s) == da_status_success, "sites accepted");
    int m = awkward(s, n, x);
    T q = sym_pick("x", x, m, T());
    da_int c[2] = {-7, -7};
    sym_assert(api<T>::in_cells(h, 1, &q, c) == da_status_success, "search succeeds");
    in_cell(s, n, q, c[0]);
    sym_assert(c[1] == -7, "nothing else is written");
    da_handle_destroy(&h);
    sym_reach("cells");
}
HARNESS(cells_gen) { cells_n<double>(); }
HARNESS(cells_gen_f) { cells_n<float>(); }
// any increasing sites and any point of a grid
HARNESS(cells_any) {
    int n = sym_choose("n", 3, 4), len = 1 << sym_choose("len", 2, 3);
    double s[4], x = sym_dy("x", -3, 19, -1);
    s[0] = 0;
    s[n - 1] = len;
    for (int i = 1; i < n - 1; i++) s[i] = sym_dy("s", 1, 15, -1);
    bool inc = true;
    for (int i = 0; i < n - 1; i++) inc &= s[i] < s[i + 1];
    da_handle h = make<double>();
    da_status st = api<double>::in_sites(h, n, s);
    sym_assert((st == da_status_success) == inc, "sites are accepted exactly when they increase");
    if (st == da_status_success) {
        da_int c = -7;
        sym_assert(api<double>::in_cells(h, 1, &x, &c) == da_status_success, "search succeeds");
        in_cell(s, n, x, c);
        sym_reach("cells");
    } else
        sym_assert(st == da_status_invalid_input, "documented status");
    da_handle_destroy(&h);
}

// ---- arguments
static da_int anyint(const char *n) {
    long v = sym_int(n, -12, 16);
    return v == 13 ? INT_MAX : v == 14 ? INT_MIN : v == 15 ? INT_MAX - 1 : v == 16 ? INT_MIN + 1 : (da_int)v;
}
HARNESS(interp_args) {
    typedef api<double> A;
    da_handle h = nullptr;
    sym_assert(A::init(&h, da_handle_interpolation) == da_status_success, "init");
    double x[4] = {0, 1, 2, 4}, y[16], o[64];
    for (int i = 0; i < 16; i++) y[i] = i;
    da_int ord[4] = {0, 1, 2, 3}, c[4];
    int op = sym_choose("op", 0, 7), null = sym_choose("null", 0, 1), stage = sym_choose("stage", 0, 3);
    da_int n = anyint("n"), d = anyint("d"), l = anyint("l");
    // stage 0: no model, 1: model, 2: sites, 3: computed
    if (stage > 0) sym_assert(A::in_model(h, interpolation_cubic_spline) == da_status_success, "model");
    if (stage > 1) sym_assert(A::in_sites(h, 4, x) == da_status_success, "sites");
    if (stage > 2) sym_assert(A::in_values(h, 4, 1, y, 4, 0) == da_status_success && A::in_fit(h) == da_status_success, "fit");
    da_status s;
    double t = 0;
    switch (op) {
    case 0:
        s = A::in_model(h, (da_interpolation_model)n);
        sym_assert((s == da_status_success) == (stage == 0 && n == interpolation_cubic_spline), "only a known model, once");
        sym_assert(s == da_status_success || s == da_status_invalid_input, "documented status");
        // a refused model leaves the handle without one
        s = A::in_fit(h);
        if (stage == 0 && n != interpolation_cubic_spline) {
            sym_assert(s == da_status_invalid_input, "no model");
            sym_assert(A::in_model(h, interpolation_cubic_spline) == da_status_success, "a model can still be selected");
        }
        break;
    case 1:
        sym_assume(n <= 4);
        s = A::in_sites(h, n, null ? nullptr : x);
        sym_assert((s == da_status_success) == (stage == 1 && !null && n >= 2), "sites accepted");
        sym_assert(s == da_status_success || s == da_status_invalid_input || (null && s == da_status_invalid_pointer), "documented status");
        break;
    case 2:
        sym_assume(n <= 4);
        t = sym_choose("end", 0, 4);
        t = t == 3 ? NAN : t == 4 ? -INFINITY : t - 1;
        s = A::in_uniform(h, n, 0, t);
        sym_assert((s == da_status_success) == (stage == 1 && t > 0 && n >= 2), "sites accepted");
        sym_assert(s == da_status_success || s == da_status_invalid_input, "documented status");
        break;
    case 3: {
        int row = sym_choose("row", 0, 1), q = sym_choose("q", -1, 2);
        sym_assert(da_options_set_string(h, "storage order", orders[row]) == da_status_success, "order");
        bool fits = stage > 1 ? n == 4 : n >= 2, ldok = d >= 1 && l >= (row ? d : n), mem = ldok && fits && n <= 4 && d <= 2 && l <= 4;
        sym_assume(!(ldok && fits) || mem);
        s = A::in_values(h, n, d, null ? nullptr : y, l, q);
        sym_assert((s == da_status_success) == (stage > 0 && !null && (q == 0 || q == 1) && fits && ldok), "values accepted");
        sym_assert(s == da_status_success || s == da_status_invalid_input || (null && s == da_status_invalid_pointer) || (!ldok && s == da_status_invalid_leading_dimension) || s == da_status_invalid_array_dimension, "documented status");
        break;
    }
    case 4:
        sym_assume(n <= 4);
        s = A::in_cells(h, n, x, null ? nullptr : c);
        sym_assert((s == da_status_success) == (stage > 1 && !null && n >= 1), "search accepted");
        sym_assert(s == da_status_success || s == da_status_invalid_input || (null && s == da_status_invalid_pointer), "documented status");
        break;
    case 5:
        sym_assume(n <= 4);
        s = A::in_bc(h, n, d, null ? nullptr : y, l, y);
        sym_assert((s == da_status_success) == (stage > 0 && !null && (stage == 3 ? n == 1 : n >= 1) && (d == 1 || d == 2) && (l == 1 || l == 2)), "boundary conditions accepted");
        sym_assert(s == da_status_success || s == da_status_invalid_input || (null && s == da_status_invalid_pointer), "documented status");
        break;
    case 6:
        sym_assume(n <= 4 && d <= 4);
        ord[1] = sym_int("order", -2, 5);
        s = A::in_eval(h, n, null ? nullptr : x, o, d, ord);
        sym_assert((s == da_status_success) == (stage == 3 && !null && n >= 1 && d >= 1 && (d < 2 || (ord[1] >= 0 && ord[1] <= 3))), "evaluation accepted");
        sym_assert(s == da_status_success || s == da_status_invalid_input || (stage < 3 && s == da_status_out_of_date) || (null && s == da_status_invalid_pointer), "documented status");
        break;
    default:
        s = A::in_fit(h);
        sym_assert((s == da_status_success) == (stage == 3), "computed exactly when data is there");
        sym_assert(s == da_status_success || s == (stage ? da_status_out_of_date : da_status_invalid_input), "documented status");
    }
    da_handle_destroy(&h);
    sym_reach("args");
}
// a refused call leaves the handle as it was
HARNESS(interp_retry) {
    typedef api<double> A;
    sym_leakmark();
    da_handle h = make<double>();
    double bad[4] = {0, 1, 1, 2}, x[4] = {0, 1, 2, 4}, Y[24];
    int k = sym_choose("k", 0, 3), n0 = sym_choose("n0", 3, 4), uni = sym_choose("uni", 0, 1);
    if (k == 1) bad[2] = NAN;
    if (k == 2) bad[n0 - 1] = -5;
    if (k == 3) bad[0] = NAN, bad[2] = 1.5;
    sym_assert(A::in_sites(h, n0, bad) == da_status_invalid_input, "sites that do not increase are refused");
    Spl<double> S;
    S.n = sym_choose("n", 2, 4), S.dim = 1, S.type = sym_choose("type", 0, 1);
    for (int i = 0; i < S.n; i++) S.x[i] = uni ? i * 0.5 : x[i];
    sym_assert((uni ? A::in_uniform(h, S.n, 0, S.x[S.n - 1]) : A::in_sites(h, S.n, S.x)) == da_status_success, "sites can still be set");
    fill(S, 0);
    static const double w[] = {-3, 0, 2};
    S.y[1][0] = sym_tab("w", w, 3);
    lay(Y, S.y, S.n, 1, 0, S.n);
    sym_assert(da_options_set_string(h, "cubic spline type", types[S.type]) == da_status_success, "type");
    sym_assert(A::in_values(h, S.n, 1, Y, S.n, 0) == da_status_success && A::in_fit(h) == da_status_success, "the spline is computed");
    double c[34];
    da_int nc = 34;
    sym_assert(A::result(h, da_cubic_spline_coefficients, &nc, c) == da_status_success, "coefficients available");
    is_spline(S, c);
    da_handle_destroy(&h);
    sym_leakcheck();
    sym_reach("retry");
}
