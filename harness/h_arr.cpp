// Array arguments: what the handles and the utilities do with user matrices.
#include "hapi.h"
#include "basic_handle.hpp"
#include "basic_statistics.hpp"
#include "da_utils.hpp"
#include "options.hpp"
#include <cmath>
#include <limits>
#include <vector>
#ifdef TIER_THOROUGH
#define TT 1
#else
#define TT 0
#endif
#define OK(e, m) sym_assert((e) == da_status_success, m)
template <class T> static bool isnan_(T v) { return v != v; }
template <class T> static T any(const char *n);
template <> double any<double>(const char *n) { return sym_f64(n); }
template <> float any<float>(const char *n) { return sym_f32(n); }
// --- da_check_data reports a NaN exactly when there is one
template <class T> static da_status chk(da_order o, da_int m, da_int n, const T *x, da_int l) {
    if constexpr (sizeof(T) == 8) return da_check_data_d(o, m, n, x, l);
    else return da_check_data_s(o, m, n, x, l);
}
template <class T> static void check_any() {
    da_order o = sym_choose("order", 0, 1) ? row_major : column_major;
    int m = sym_choose("m", 1, 2), n = sym_choose("n", 1, 2), pad = sym_choose("pad", 0, 1), len = o == row_major ? n : m, vec = o == row_major ? m : n, ld = len + pad;
    std::vector<T> x((vec - 1) * ld + len);
    for (T &v : x) v = any<T>("x");
    bool nan = false;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) nan |= isnan_(at(x.data(), o, ld, i, j));
    std::vector<T> y = x;
    da_status s = chk<T>(o, m, n, x.data(), ld);
    if (nan) sym_assert(s == da_status_invalid_input, "a NaN inside the matrix is reported");
    else OK(s, "a matrix without a NaN is accepted, whatever lies in the padding");
    for (size_t i = 0; i < x.size(); i++) sym_assert(SAME_BITS(x[i], y[i]), "the data are left alone");
    sym_reach("check");
}
HARNESS(arr_check) { check_any<double>(); }
HARNESS(arr_check_f) { check_any<float>(); }
// --- whatever the sizes, errors come before any access
HARNESS(arr_sizes) {
    da_order o = sym_choose("order", 0, 1) ? row_major : column_major;
    int fn = sym_choose("fn", 0, 2);
    da_int m = sym_int("m", INT_MIN, INT_MAX), n = sym_int("n", INT_MIN, INT_MAX), lx = sym_int("ldx", INT_MIN, INT_MAX), ly = sym_int("ldy", INT_MIN, INT_MAX);
    int nul = sym_choose("null", 0, fn == 1 ? 2 : 1);
    double x[1] = {1}, y[1] = {2};
    bool dims = m < 1 || n < 1, ldx = lx < (o == row_major ? n : m), ldy = fn && ly < (o == row_major ? m : n);
    sym_assume(dims || nul || ldx || ldy);
    double *X = nul == 1 ? nullptr : x, *Y = nul == 2 ? nullptr : y;
    da_status s = fn == 0 ? da_check_data_d(o, m, n, X, lx) : fn == 1 ? da_switch_order_copy_d(o, m, n, X, lx, Y, ly) : da_switch_order_in_place_d(o, m, n, X, lx, ly);
    if (dims) sym_assert(s == da_status_invalid_array_dimension, "bad dimension");
    else if (nul) sym_assert(s == da_status_invalid_pointer, "null pointer");
    else sym_assert(s == da_status_invalid_leading_dimension, "bad leading dimension");
    sym_assert(x[0] == 1 && y[0] == 2, "nothing is written");
    sym_reach("refused");
}
// --- changing the storage order keeps every element
template <class T> static void swap_order(bool inplace) {
    da_order o = sym_choose("order", 0, 1) ? row_major : column_major, p = o == row_major ? column_major : row_major;
    int m = sym_choose("m", 1, 3 + TT), n = sym_choose("n", 1, 3 + TT), a = sym_choose("pad", 0, 1), b = sym_choose("pad out", 0, 1);
    int lx = (o == row_major ? n : m) + a, ly = (p == row_major ? n : m) + b;
    int sx = (o == row_major ? m : n) * lx, sy = (p == row_major ? m : n) * ly;
    std::vector<T> x(inplace ? (sx > sy ? sx : sy) : sx), y(sy, (T)-99);
    for (T &v : x) v = (T)-1;
    T v[4][4];
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) at(x.data(), o, lx, i, j) = v[i][j] = (T)sym_int("v", 0, 1000);
    if constexpr (sizeof(T) == 8) OK(inplace ? da_switch_order_in_place_d(o, m, n, x.data(), lx, ly) : da_switch_order_copy_d(o, m, n, x.data(), lx, y.data(), ly), "the order is switched");
    else OK(inplace ? da_switch_order_in_place_s(o, m, n, x.data(), lx, ly) : da_switch_order_copy_s(o, m, n, x.data(), lx, y.data(), ly), "the order is switched");
    bool ok = true, src = true, gap = true;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
        ok &= at(inplace ? x.data() : y.data(), p, ly, i, j) == v[i][j];
        if (!inplace) src &= at(x.data(), o, lx, i, j) == v[i][j];
    }
    if (!inplace) for (int i = 0; i < sy; i++) if (i % ly >= ly - b) gap &= y[i] == (T)-99;
    sym_assert(ok, "element (i, j) is the same in either order");
    sym_assert(src, "the source is left alone");
    sym_assert(gap, "the padding of the destination is left alone");
    sym_reach("switched");
}
HARNESS(arr_switch) { swap_order<double>(false); }
HARNESS(arr_switch_in) { swap_order<float>(true); }
// --- a handle's view of a user matrix
template <class T> struct toy : basic_handle<T> {
    toy(da_errors::da_error_t &e) : basic_handle<T>(e) {}
    da_status get_result(da_result, da_int *, T *) { return da_status_unknown_query; }
    da_status get_result(da_result q, da_int *d, da_int *r) { return this->get_result_common(q, d, r); }
};
template <class T> static void store() {
    sym_leakmark();
    {
        da_errors::da_error_t err(da_errors::action_t::DA_RECORD);
        toy<T> h(err);
        bool rm = sym_choose("row-major", 0, 1), cd = sym_choose("check", 0, 1);
        OK(h.opts.set("storage order", rm ? "row-major" : "column-major"), "order option");
        OK(h.opts.set("check data", cd ? "yes" : "no"), "check option");
        int mode = sym_choose("mode", 0, 3), m = sym_choose("m", 0, 2), n = sym_choose("n", 0, 3), ld = sym_choose("ld", -1, 4), nul = sym_choose("null", 0, 1);
        if (mode == 2 && (m < 1 || n < 1 || nul || ld < (rm ? n : m))) return;
        da_order o = rm ? row_major : column_major;
        int len = rm ? n : m, vec = rm ? m : n, sz = vec > 0 && ld > 0 ? (vec - 1) * ld + (len < ld ? len : ld) : 0;
        std::vector<T> x(sz ? sz : 1);
        int nanat = cd && sz ? (int)sym_choose("nan", -1, sz - 1) : -1;
        for (int i = 0; i < sz; i++) x[i] = i == nanat ? std::numeric_limits<T>::quiet_NaN() : (T)sym_int("x", -5, 5);
        T *tmp = nullptr;
        const T *in = nullptr;
        da_int li = -7;
        da_status s = h.store_2D_array(m, n, nul ? nullptr : x.data(), ld, &tmp, &in, li, "m", "n", "X", "ld", mode);
        if (mode == 2) OK(s, "unchecked mode");
        else if (m < 1 || n < 1) sym_assert(s == da_status_invalid_array_dimension, "too few rows or columns");
        else if (nul) sym_assert(s == da_status_invalid_pointer, "null array");
        else if (ld < len) sym_assert(s == da_status_invalid_leading_dimension, "leading dimension too small");
        else {
            bool nan = false;
            for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) nan |= isnan_(at(x.data(), o, ld, i, j));
            if (nan && mode != 1) sym_assert(s == da_status_invalid_input, "a NaN is reported when asked for");
            else OK(s, "a valid matrix is accepted");
        }
        if (s != da_status_success) sym_assert(tmp == nullptr, "nothing is allocated for a rejected matrix");
        else if (mode == 2) sym_assert(in == x.data() && li == ld, "the user's matrix is used as it is");
        else if (mode == 3) sym_assert(tmp == nullptr, "checking only");
        else if (!rm) sym_assert(in == x.data() && li == ld && !tmp, "column-major data are used in place");
        else {
            sym_assert(in == tmp && tmp != nullptr && li >= m, "a column-major copy is made");
            if (mode == 0) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) sym_assert(SAME_BITS(in[j * li + i], x[i * ld + j]), "the copy holds element (i, j)");
            else for (int i = 0; i < n * li; i++) tmp[i] = (T)i;
            sym_reach("copied");
        }
        delete[] tmp;
        sym_reach("stored");
    }
    sym_leakcheck();
}
HARNESS(arr_store) { sym_omp(1, 0); store<double>(); }
HARNESS(arr_store_f) { sym_omp(2, sym_choose("ord", 0, 1)); store<float>(); }
HARNESS(arr_checks) {
    sym_leakmark();
    {
        da_errors::da_error_t err(da_errors::action_t::DA_RECORD);
        toy<double> h(err);
        bool cd = sym_choose("check", 0, 1);
        OK(h.opts.set("check data", cd ? "yes" : "no"), "check option");
        int two = sym_choose("kind", 0, 2), nul = sym_choose("null", 0, 1), mn = sym_choose("min", 0, 2);
        da_int m = sym_choose("m", -1, 3), n = sym_choose("n", 0, 2), ld = sym_choose("ld", 0, 4);
        double x[16];
        da_int iv[4] = {1, 2, 3, 4};
        int nanat = cd ? (int)sym_choose("nan", -1, 7) : -1;
        for (int i = 0; i < 16; i++) x[i] = i == nanat ? std::numeric_limits<double>::quiet_NaN() : 1.0;
        da_status s;
        bool nan = false;
        if (two == 0) {
            s = h.check_1D_array(m, nul ? nullptr : x, "m", "x", mn);
            for (int i = 0; i < m; i++) nan |= isnan_(x[i]);
            if (nul) sym_assert(s == da_status_invalid_pointer, "null array");
            else if (m < mn) sym_assert(s == da_status_invalid_array_dimension, "array too short");
            else sym_assert(s == (nan && cd ? da_status_invalid_input : da_status_success), "NaN reported exactly when present and asked for");
        } else if (two == 1) {
            s = h.check_1D_array(m, nul ? nullptr : iv, "m", "x", mn);
            sym_assert(s == (nul ? da_status_invalid_pointer : m < mn ? da_status_invalid_array_dimension : da_status_success), "integer array");
        } else {
            da_order o = sym_choose("order", 0, 1) ? row_major : column_major;
            s = h.check_2D_array(o, m, n, nul ? nullptr : x, ld, "m", "n", "x", "ld", mn, 1);
            if (m < mn || n < 1) sym_assert(s == da_status_invalid_array_dimension, "too few rows or columns");
            else if (nul) sym_assert(s == da_status_invalid_pointer, "null array");
            else if (ld < (o == row_major ? n : m)) sym_assert(s == da_status_invalid_leading_dimension, "leading dimension too small");
            else {
                for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) nan |= isnan_(at(x, o, ld, i, j));
                sym_assert(s == (nan && cd ? da_status_invalid_input : da_status_success), "NaN reported exactly when present and asked for");
            }
        }
        sym_reach("checked");
    }
    sym_leakcheck();
}
// results are handed back in the handle's order
HARNESS(arr_results) {
    da_errors::da_error_t err(da_errors::action_t::DA_RECORD);
    toy<double> h(err);
    h.order = sym_choose("row-major", 0, 1) ? row_major : column_major;
    int m = sym_choose("m", 1, 3), n = sym_choose("n", 1, 3), ld = m + (int)sym_choose("pad", 0, 1);
    std::vector<double> x(ld * n), r(m * n, -1);
    for (double &v : x) v = sym_f64("v");
    h.copy_2D_results_array(m, n, x.data(), ld, r.data());
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) sym_assert(SAME_BITS(at(r.data(), h.order, h.order == row_major ? n : m, i, j), x[j * ld + i]), "result (i, j) in the user's order");
    h.model_trained = sym_choose("trained", 0, 1);
    da_int d = sym_choose("dim", 0, 2), d0 = d, t[2] = {-5, -5};
    da_status s = h.get_result(da_trained, &d, t);
    if (d0 < 1) sym_assert(s == da_status_invalid_array_dimension && d == 1 && t[0] == -5, "a short result array is refused and its size told");
    else sym_assert(s == da_status_success && t[0] == (da_int)h.model_trained && t[1] == -5, "the state of training is told");
    sym_reach("results");
}
// --- transposes across their blocks, in parallel
HARNESS(arr_transpose) {
    sym_omp(2, sym_choose("ord", 0, 1));
    int big = sym_choose("big", 0, 1), up = sym_choose("up", 0, 1), m = big ? 65 : (int)sym_choose("m", 1, 3), n = big ? (int)sym_choose("n", 1, 2) : (int)sym_choose("n", 1, 3);
    if (sym_choose("turn", 0, 1)) { int t = m; m = n, n = t; }
    int pa = sym_choose("pad", 0, 1), la = (up ? m : n) + pa, lb = (up ? n : m) + pa;
    std::vector<double> a((up ? n : m) * la), b((up ? m : n) * lb, -3);
    for (size_t i = 0; i < a.size(); i++) a[i] = big ? (double)i : (double)sym_int("a", 0, 99);
    if (up) ARCH::da_utils::copy_transpose_2D_array_column_to_row_major(m, n, a.data(), la, b.data(), lb);
    else ARCH::da_utils::copy_transpose_2D_array_row_to_column_major(m, n, a.data(), la, b.data(), lb);
    bool ok = true, gap = true;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) ok &= up ? b[i * lb + j] == a[j * la + i] : b[j * lb + i] == a[i * la + j];
    for (size_t i = 0; i < b.size(); i++) if ((int)(i % lb) >= lb - pa) gap &= b[i] == -3;
    sym_assert(ok, "every element is transposed");
    sym_assert(gap, "padding is left alone");
    sym_reach("transposed");
}
// --- categorical detection
template <class T> static void categorical() {
    int n = sym_choose("n", 1, 2 + TT), mx = sym_choose("max", 1, 3), free = sym_choose("free", 0, 1);
    std::vector<T> x(n);
    for (int i = 0; i < n; i++) x[i] = free && i == n - 1 ? any<T>("x") : (T)sym_dyT<T>("q", -2, 14, -2);
    const T tol = (T)0.25;
    da_int c = 77;
    OK(ARCH::da_utils::check_categorical_data<T>(n, x.data(), c, mx, tol), "the data are examined");
    bool cat = true;
    int top = 0;
    for (int i = 0; i < n; i++) {
        bool in = false;
        for (int k = 0; k < mx; k++) {
            bool here = x[i] >= (T)k - tol && x[i] <= (T)k + tol;
            in |= here;
            if (here && k > top) top = k;
        }
        cat &= in;
    }
    if (cat) sym_assert(c == top + 1, "as many categories as the largest value needs");
    else sym_assert(c == -1, "anything else is not categorical");
    sym_reach("categorical");
}
HARNESS(arr_cat) { categorical<double>(); }
HARNESS(arr_cat_f) { categorical<float>(); }
// --- blocks cover the samples exactly
HARNESS(arr_blocks) {
    da_int n = sym_int("n", 1, 100000), bs = sym_choose("pow", 0, 1) ? (da_int)sym_choose("bs", 1, 9) : 256, nb, rem;
    ARCH::da_utils::blocking_scheme(n, bs, nb, rem);
    sym_assert(nb >= 1 && rem >= 0 && rem < bs, "a remainder smaller than a block");
    sym_assert((rem ? (nb - 1) * bs + rem : nb * bs) == n, "the blocks cover the samples");
    sym_reach("blocks");
}
HARNESS(arr_skinny) {
    static const da_int mins[4] = {1, 7, 256, 1024};
    da_int n = sym_int("n", 1, 5000), mb = mins[sym_choose("min", 0, 3)], mf = sym_choose("final", 1, 3), mx = sym_choose("max", 1, 4), nb, bs, fs;
    ARCH::da_utils::tall_skinny_blocking_scheme(n, mb, mx, mf, nb, bs, fs);
    nb = (da_int)sym_conc(nb);
    sym_assert(nb >= 1 && bs >= 1 && fs >= 1, "non-empty blocks");
    sym_assert((nb - 1) * bs + fs == n, "the blocks cover the samples");
    sym_reach("blocks");
}
// --- the row-major view of statistics swaps the axis and the sizes
HARNESS(arr_axis) {
    da_order o = sym_choose("order", 0, 1) ? row_major : column_major;
    da_axis ax = (da_axis)sym_choose("axis", 0, 2), a2 = da_axis_all;
    da_int n = sym_int("n", INT_MIN, INT_MAX), p = sym_int("p", INT_MIN, INT_MAX), ld = sym_int("ld", INT_MIN, INT_MAX), n2 = -9, p2 = -9;
    da_status s = ARCH::da_basic_statistics::row_to_col_major(o, ax, n, p, ld, a2, n2, p2);
    bool r = o == row_major;
    if (n < 1 || p < 1) sym_assert(s == da_status_invalid_array_dimension, "bad dimension");
    else if (ld < (r ? p : n)) sym_assert(s == da_status_invalid_leading_dimension, "bad leading dimension");
    else {
        OK(s, "valid sizes");
        sym_assert(n2 == (r ? p : n) && p2 == (r ? n : p), "sizes of the column-major view");
        sym_assert(a2 == (ax == da_axis_all ? ax : !r ? ax : ax == da_axis_row ? da_axis_col : da_axis_row), "axis of the column-major view");
        sym_reach("axis");
    }
}
