// Basic statistics against their definitions.
#include "hapi.h"
#include <cmath>
#ifdef TIER_THOROUGH
#define TT 1
#else
#define TT 0
#endif
template <class T> struct st;
#define ST(T, S)                                                                                                                                                                                                                   \
    template <> struct st<T> {                                                                                                                                                                                                     \
        static da_status quantile(da_order o, da_axis a, da_int n, da_int p, const T *x, da_int l, const T *q, da_int nq, T *r, da_quantile_type t) { return da_quantile_##S(o, a, n, p, x, l, q, nq, r, t); }                      \
        static da_status five(da_order o, da_axis a, da_int n, da_int p, const T *x, da_int l, T *q0, T *q1, T *q2, T *q3, T *q4) { return da_five_point_summary_##S(o, a, n, p, x, l, q0, q1, q2, q3, q4); }                       \
        static da_status mean(da_order o, da_axis a, da_int n, da_int p, const T *x, da_int l, T *r) { return da_mean_##S(o, a, n, p, x, l, r); }                                                                                   \
        static da_status hmean(da_order o, da_axis a, da_int n, da_int p, const T *x, da_int l, T *r) { return da_harmonic_mean_##S(o, a, n, p, x, l, r); }                                                                         \
        static da_status gmean(da_order o, da_axis a, da_int n, da_int p, const T *x, da_int l, T *r) { return da_geometric_mean_##S(o, a, n, p, x, l, r); }                                                                        \
        static da_status var(da_order o, da_axis a, da_int n, da_int p, const T *x, da_int l, da_int dof, T *r, T *v) { return da_variance_##S(o, a, n, p, x, l, dof, r, v); }                                                      \
        static da_status moment(da_order o, da_axis a, da_int n, da_int p, const T *x, da_int l, da_int k, da_int pre, T *r, T *v) { return da_moment_##S(o, a, n, p, x, l, k, pre, r, v); }                                        \
        static da_status skew(da_order o, da_axis a, da_int n, da_int p, const T *x, da_int l, T *r, T *v, T *s) { return da_skewness_##S(o, a, n, p, x, l, r, v, s); }                                                             \
        static da_status kurt(da_order o, da_axis a, da_int n, da_int p, const T *x, da_int l, T *r, T *v, T *s) { return da_kurtosis_##S(o, a, n, p, x, l, r, v, s); }                                                             \
        static da_status stdz(da_order o, da_axis a, da_int n, da_int p, T *x, da_int l, da_int dof, da_int mode, T *sh, T *sc) { return da_standardize_##S(o, a, n, p, x, l, dof, mode, sh, sc); }                                 \
        static da_status cov(da_order o, da_int n, da_int p, const T *x, da_int l, da_int dof, T *c, da_int lc, da_int cen) { return da_covariance_matrix_##S(o, n, p, x, l, dof, c, lc, cen); }                                    \
        static da_status corr(da_order o, da_int n, da_int p, const T *x, da_int l, T *c, da_int lc) { return da_correlation_matrix_##S(o, n, p, x, l, c, lc); }                                                                    \
    };
ST(double, d)
ST(float, s)
enum { N = 6, MAXV = 16 };
template <class T> static bool near(T a, T b) { T d = a - b, t = sizeof(T) == 4 ? (T)1e-4 : (T)1e-9; return d <= t && d >= -t; }
// a matrix with its layout, and the groups of elements that each statistic covers
template <class T> struct mat {
    da_order o; da_axis a; int n, p, ld, ns, len;
    T X[N * N], orig[N * N], v[MAXV][MAXV];
    void shape(int n_, int p_) {
        n = n_, p = p_;
        o = sym_choose("row", 0, 1) ? row_major : column_major;
        static const da_axis ax[] = {da_axis_col, da_axis_row, da_axis_all};
        a = ax[sym_choose("axis", 0, 2)];
        ld = (o == row_major ? p : n) + (int)sym_choose("pad", 0, 1);
        for (int i = 0; i < N * N; i++) X[i] = 1000 + i;
        ns = a == da_axis_col ? p : a == da_axis_row ? n : 1;
        len = a == da_axis_col ? n : a == da_axis_row ? p : n * p;
    }
    void put(int i, int j, T x) {
        at(X, o, ld, i, j) = x;
        if (a == da_axis_col) v[j][i] = x;
        else if (a == da_axis_row) v[i][j] = x;
        else v[0][i * p + j] = x;
    }
    void save() { for (int i = 0; i < N * N; i++) orig[i] = X[i]; }
    bool same() { bool s = true; for (int i = 0; i < N * N; i++) s &= orig[i] == X[i]; return s; }
};
// ---- order statistics ----
template <class T> static void sortcol(T *s, int len) {
    for (int i = 1; i < len; i++)
        for (int j = i; j > 0; j--) { T lo = s[j - 1] < s[j] ? s[j - 1] : s[j], hi = s[j - 1] < s[j] ? s[j] : s[j - 1]; s[j - 1] = lo, s[j] = hi; }
}
static const da_quantile_type qt[] = {da_quantile_type_1, da_quantile_type_2, da_quantile_type_3, da_quantile_type_4, da_quantile_type_5, da_quantile_type_6, da_quantile_type_7, da_quantile_type_8, da_quantile_type_9};
// definition from the documentation; e is q in eighths, s sorted, 1-based positions clamped to the data.
// Type 3 takes the nearest integer: on a tie the documentation leaves the choice open, tie selects it.
template <class T> static T qdef(int type, int e, const T *s, int len, int tie = 0) {
    double q = e / 8.0, h;
    switch (type) {
    case 1: h = len * q; break;
    case 2: case 5: h = len * q + 0.5; break;
    case 3: h = len * q - 0.5; break;
    case 4: h = len * q; break;
    case 6: h = (len + 1) * q; break;
    case 7: h = (len - 1) * q + 1; break;
    case 8: h = (len + 1.0 / 3) * q + 1.0 / 3; break;
    default: h = (len + 0.25) * q + 0.375;
    }
    auto get = [&](double i) { int k = (int)i; return s[(k < 1 ? 1 : k > len ? len : k) - 1]; };
    switch (type) {
    case 1: return get(std::ceil(h));
    case 2: return (get(std::ceil(h - 0.5)) + get(std::floor(h + 0.5))) / 2;
    case 3: { double f = std::floor(h), d = h - f; return get(d > 0.5 || (d == 0.5 && tie) ? f + 1 : f); }
    default: { T x = get(std::floor(h)), y = get(std::ceil(h)); return x + (T)(h - std::floor(h)) * (y - x); }
    }
}
template <class T> static void qrun(bool thin) {
    mat<T> m;
    int nq, e[3];
    T q[3], r[3 * N];
    if (thin) {
        m.shape(thin ? (int)sym_choose("len", 2, 4) : 1, 1);
        if (m.a == da_axis_row || m.o == row_major) return;
        nq = 2;
        static const int E[] = {0, 1, 3, 4, 6, 8};
        e[0] = E[sym_choose("q", 0, 5)], e[1] = E[TT ? sym_choose("q", 0, 5) : 1 + 3 * sym_choose("q", 0, 1)];
    } else {
        static const int S[][2] = {{1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {4, 3}};
        int k = (int)sym_choose("shape", 0, 5);
        m.shape(S[k][0], S[k][1]);
        nq = (int)sym_choose("nq", 1, 3);
        e[0] = 6, e[1] = 2, e[2] = 4;
    }
    int type = (int)sym_choose("type", 1, 9);
    if (!thin && type != 1 && type != 2 && type != 6) return;
    for (int i = 0; i < nq; i++) q[i] = (T)(e[i] / 8.0);
    for (int i = 0; i < m.n; i++) for (int j = 0; j < m.p; j++) m.put(i, j, thin ? sym_dyT<T>("x", 0, m.n == 4 && !TT ? 2 : 3, 0) : (i == 0 && j == 0) ? sym_dyT<T>("x", -1, 9, 0) : (T)((i * 5 + j * 7 + 3) % 8));
    for (int i = 0; i < 3 * N; i++) r[i] = -99;
    m.save();
    da_status s = st<T>::quantile(m.o, m.a, m.n, m.p, m.X, m.ld, q, nq, r, qt[type - 1]);
    sym_assert(s == da_status_success, "quantiles computed");
    bool ok = true;
    for (int c = 0; c < m.ns; c++) {
        T so[MAXV];
        for (int i = 0; i < m.len; i++) so[i] = m.v[c][i];
        sortcol(so, m.len);
        for (int i = 0; i < nq; i++) {
            T &g = r[m.o == row_major ? i * m.ns + c : c * nq + i];
            ok &= near(g, qdef<T>(type, e[i], so, m.len)) | near(g, qdef<T>(type, e[i], so, m.len, 1));
            g = -99;
        }
    }
    sym_assert(ok, "every quantile is the one defined for its type");
    bool rest = m.same();
    for (int i = 0; i < 3 * N; i++) rest &= r[i] == (T)-99;
    sym_assert(rest, "the data is untouched and nothing else is written");
    sym_reach("quant");
}
HARNESS(quant_def) { qrun<double>(true); }
HARNESS(quant_layout) { qrun<double>(false); }
HARNESS(quant_float) { qrun<float>(false); }
HARNESS(quant_five) {
    mat<double> m;
    static const int S[][2] = {{1, 1}, {3, 1}, {2, 3}, {3, 2}, {1, 4}};
    int k = (int)sym_choose("shape", 0, 4);
    m.shape(S[k][0], S[k][1]);
    for (int i = 0; i < m.n; i++) for (int j = 0; j < m.p; j++) m.put(i, j, i == 0 || m.n * m.p < 4 ? sym_dy("x", 0, 2, 0) : (i * 5 + j * 7 + 3) % 4);
    double r[5][N];
    for (int i = 0; i < 5; i++) for (int j = 0; j < N; j++) r[i][j] = -99;
    m.save();
    sym_assert(da_five_point_summary_d(m.o, m.a, m.n, m.p, m.X, m.ld, r[0], r[1], r[2], r[3], r[4]) == da_status_success, "summary computed");
    bool ok = true, rest = m.same();
    for (int c = 0; c < m.ns; c++) {
        double so[MAXV];
        for (int i = 0; i < m.len; i++) so[i] = m.v[c][i];
        sortcol(so, m.len);
        for (int i = 0; i < 5; i++) ok &= near(r[i][c], qdef<double>(6, 2 * i, so, m.len)), r[i][c] = -99;
    }
    for (int i = 0; i < 5; i++) for (int j = 0; j < N; j++) rest &= r[i][j] == -99;
    sym_assert(ok, "minimum, hinges, median and maximum are the type 6 quartiles");
    sym_assert(rest, "the data is untouched and nothing else is written");
    sym_reach("five");
}
HARNESS(quant_args) {
    double X[4] = {1, 2, 3, 4}, q[2] = {0.5, 0.25}, r[4];
    int n = (int)sym_int("n", INT_MIN, 2), p = (int)sym_int("p", INT_MIN, 2), ld = (int)sym_int("ld", INT_MIN, INT_MAX), nq = (int)sym_int("nq", INT_MIN, 2);
    int ro = (int)sym_choose("row", 0, 1), nul = (int)sym_choose("null", 0, 3);
    static const da_axis ax[] = {da_axis_col, da_axis_row, da_axis_all};
    if (sym_choose("anyq", 0, 1)) q[0] = sym_f64("q");
    bool bad = nul || n < 1 || p < 1 || nq < 1 || ld < (ro ? p : n) || !(q[0] >= 0 && q[0] <= 1);
    sym_assume(bad); // accepted input is checked by the other entries
    da_status s = da_quantile_d(ro ? row_major : column_major, ax[sym_choose("axis", 0, 2)], n, p, nul == 1 ? nullptr : X, ld, nul == 2 ? nullptr : q, nq, nul == 3 ? nullptr : r, da_quantile_type_6);
    sym_assert(s != da_status_success, "invalid input is rejected");
    if (nul) sym_assert(s == da_status_invalid_pointer, "null array");
    else if (n < 1 || p < 1) sym_assert(s == da_status_invalid_array_dimension, "bad dimension");
    sym_reach("args");
}
// ---- moments ----
template <class T> static void fill(mat<T> &m, bool tab) {
    static const T V[] = {-2, 0, 1, 3};
    for (int i = 0; i < m.n; i++) for (int j = 0; j < m.p; j++)
        m.put(i, j, !tab ? (i * m.p + j < 3 + TT ? sym_dyT<T>("x", -2, 2, -1) : (T)((i * 5 + j * 7 + 3) % 6)) : i == 0 && j == m.p - 1 ? (sizeof(T) == 8 ? (T)sym_tab("x", (const double *)(const void *)V, 4) : V[sym_choose("x", 0, 3)]) : (T)((i * 5 + j * 7 + 3) % 6));
}
template <class T> static void mrun(bool tab) {
    mat<T> m;
    static const int S[][2] = {{2, 2}, {4, 1}, {1, 4}, {2, 4}, {1, 1}, {3, 2}, {2, 3}, {5, 3}};
    int k = (int)sym_choose("shape", tab ? 4 : 0, tab ? 7 : 3);
    m.shape(S[k][0], S[k][1]);
    fill(m, tab);
    m.save();
    int what = (int)sym_choose("what", 0, 4);
    T mu[N], v[N], w[N], given[N];
    for (int i = 0; i < N; i++) mu[i] = v[i] = w[i] = -99, given[i] = (T)(i % 2);
    da_status s;
    int dof = 0, ord = 2, pre = 0;
    switch (what) {
    case 0: s = st<T>::mean(m.o, m.a, m.n, m.p, m.X, m.ld, mu); break;
    case 1: dof = (int)sym_choose("dof", -1, 2); s = st<T>::var(m.o, m.a, m.n, m.p, m.X, m.ld, dof, mu, v); break;
    case 2: case 3: ord = (int)sym_choose("k", 1, 4);
        pre = what == 3;
        if (pre) for (int i = 0; i < m.ns; i++) mu[i] = given[i];
        s = st<T>::moment(m.o, m.a, m.n, m.p, m.X, m.ld, ord, pre, mu, v); break;
    default: s = tab ? st<T>::skew(m.o, m.a, m.n, m.p, m.X, m.ld, mu, v, w) : st<T>::var(m.o, m.a, m.n, m.p, m.X, m.ld, -1, mu, v); dof = -1;
    }
    sym_assert(s == da_status_success, "statistic computed");
    bool okm = true, okv = true, oks = true, rest = m.same();
    for (int c = 0; c < m.ns; c++) {
        T sum = 0, ss = 0, s3 = 0;
        for (int i = 0; i < m.len; i++) sum += m.v[c][i];
        T mean = pre ? given[c] : sum / m.len;
        for (int i = 0; i < m.len; i++) {
            T d = m.v[c][i] - mean, t = 1;
            for (int z = 0; z < ord; z++) t *= d;
            ss += t;
            s3 += d * d * d;
        }
        okm &= near(mu[c], mean);
        if (what == 1 || what == 4) { int f = dof < 0 ? m.len : dof ? dof : m.len - 1; okv &= near(v[c], f > 1 ? ss / f : ss); }
        if (what == 2 || what == 3) okv &= near(v[c], ss / m.len);
        if (what == 4 && tab) { T var = ss / m.len; oks &= ss == 0 ? w[c] == 0 : near(w[c], s3 / m.len / (var * std::sqrt(var))); }
        mu[c] = v[c] = w[c] = -99;
    }
    for (int i = 0; i < N; i++) rest &= mu[i] == (T)-99 && v[i] == (T)-99 && w[i] == (T)-99;
    sym_assert(okm, "the mean is the mean of the row, column or matrix");
    sym_assert(okv, "the variance or moment follows its definition");
    sym_assert(oks, "the skewness follows its definition");
    sym_assert(rest, "the data is untouched and nothing else is written");
    sym_reach("moments");
}
HARNESS(mom_free) { mrun<double>(false); }
HARNESS(mom_tab) { mrun<double>(true); }
HARNESS(mom_float) { mrun<float>(false); }
HARNESS(mom_kurt) {
    mat<double> m;
    static const int S[][2] = {{1, 1}, {3, 2}, {2, 3}, {5, 3}};
    int k = (int)sym_choose("shape", 0, 3);
    m.shape(S[k][0], S[k][1]);
    for (int i = 0; i < m.n; i++) for (int j = 0; j < m.p; j++) m.put(i, j, i == 0 && j == 0 ? (double)sym_choose("x", 0, 4) : (i * 5 + j * 7 + 3) % 6);
    m.save();
    double mu[N], v[N], w[N];
    int what = (int)sym_choose("what", 0, 2);
    da_status s = what == 0 ? da_kurtosis_d(m.o, m.a, m.n, m.p, m.X, m.ld, mu, v, w) : what == 1 ? da_harmonic_mean_d(m.o, m.a, m.n, m.p, m.X, m.ld, mu) : da_geometric_mean_d(m.o, m.a, m.n, m.p, m.X, m.ld, mu);
    sym_assert(s == da_status_success, "statistic computed");
    bool ok = true;
    for (int c = 0; c < m.ns; c++) {
        double sum = 0, inv = 0, prod = 1, s2 = 0, s4 = 0;
        bool zero = false;
        for (int i = 0; i < m.len; i++) { double x = m.v[c][i]; sum += x; if (x == 0) zero = true; else inv += 1 / x; prod *= x; }
        for (int i = 0; i < m.len; i++) { double d = m.v[c][i] - sum / m.len; s2 += d * d, s4 += d * d * d * d; }
        if (what == 0) { double var = s2 / m.len; ok &= near(mu[c], sum / m.len) && near(v[c], var) && near(w[c], s2 == 0 ? w[c] : s4 / m.len / (var * var) - 3); }
        else if (what == 1) { if (!zero) ok &= near(mu[c], m.len / inv); }
        else ok &= near(mu[c], zero ? 0 : std::pow(prod, 1.0 / m.len));
    }
    sym_assert(ok, "kurtosis, harmonic and geometric means follow their definitions");
    sym_assert(m.same(), "the data is untouched");
    sym_reach("kurt");
}
// ---- standardization ----
HARNESS(stdz_def) {
    mat<double> m;
    static const int S[][2] = {{2, 3}, {3, 2}, {1, 3}, {4, 1}, {4, 3}};
    int k = (int)sym_choose("shape", 0, 4), mode = (int)sym_choose("mode", 0, 1), dof = (int)sym_choose("dof", -1, 2);
    m.shape(S[k][0], S[k][1]);
    for (int i = 0; i < m.n; i++) for (int j = 0; j < m.p; j++) m.put(i, j, i == 0 && j == 0 ? (double)sym_choose("x", 0, 3) : (i * 5 + j * 7 + 3) % 6);
    m.save();
    int a = (int)sym_choose("shift", 0, 2), b = (int)sym_choose("scale", 0, 2); // null, zeros, given
    double sh[N], sc[N], es[N], ec[N];
    for (int i = 0; i < N; i++) sh[i] = a == 2 ? 1 + i : 0, sc[i] = b == 2 ? (i == 1 ? 0 : 2 + i) : 0;
    for (int c = 0; c < m.ns; c++) {
        double sum = 0, ss = 0;
        for (int i = 0; i < m.len; i++) sum += m.v[c][i];
        double mean = sum / m.len;
        es[c] = a == 2 ? sh[c] : (a == 1 || b == 0) ? mean : 0;
        double about = a == 2 && b == 1 ? sh[c] : mean;
        for (int i = 0; i < m.len; i++) ss += (m.v[c][i] - about) * (m.v[c][i] - about);
        int f = dof < 0 ? m.len : dof ? dof : m.len - 1;
        double sd = std::sqrt(f > 1 ? ss / f : ss);
        ec[c] = b == 2 ? sc[c] : (b == 1 || a == 0) ? sd : 1;
    }
    sym_assert(da_standardize_d(m.o, m.a, m.n, m.p, m.X, m.ld, dof, mode, a ? sh : nullptr, b ? sc : nullptr) == da_status_success, "standardized");
    bool ok = true, ret = true;
    for (int i = 0; i < m.n; i++) for (int j = 0; j < m.p; j++) {
        int c = m.a == da_axis_col ? j : m.a == da_axis_row ? i : 0;
        double x = at(m.orig, m.o, m.ld, i, j), f = ec[c] != 0 ? ec[c] : 1;
        ok &= near(at(m.X, m.o, m.ld, i, j), mode ? x * f + es[c] : (x - es[c]) / f);
        at(m.X, m.o, m.ld, i, j) = x;
    }
    for (int c = 0; c < N; c++) {
        if (a == 1 && c < m.ns) ret &= near(sh[c], es[c]);
        if (b == 1 && c < m.ns) ret &= near(sc[c], ec[c]);
        if (a == 2) ret &= sh[c] == 1 + c;
        if (b == 2) ret &= sc[c] == (c == 1 ? 0 : 2 + c);
        if (c >= m.ns && a == 1) ret &= sh[c] == 0;
    }
    sym_assert(ok, "the data is shifted and scaled as documented");
    sym_assert(ret, "the statistics computed are returned and the supplied ones kept");
    sym_assert(m.same(), "only the elements of the matrix are changed");
    sym_reach("stdz");
}
HARNESS(stat_args) {
    double X[4] = {1, 2, 3, 4}, r[4], v[4], w[4];
    int n = (int)sym_int("n", INT_MIN, 2), p = (int)sym_int("p", INT_MIN, 2), ld = (int)sym_int("ld", INT_MIN, INT_MAX);
    bool ro = sym_choose("row", 0, 1), cm = false;
    int nul = (int)sym_choose("null", 0, 2), what = (int)sym_choose("what", 0, 9);
    da_order o = ro ? row_major : column_major;
    static const da_axis ax[] = {da_axis_col, da_axis_row, da_axis_all};
    da_axis a = ax[sym_choose("axis", 0, 2)];
    bool bad = nul || n < 1 || p < 1 || ld < (ro ? p : n);
    sym_assume(bad);
    const double *x = nul == 1 ? nullptr : X;
    double *y = nul == 2 ? nullptr : r;
    da_status s = da_status_success;
    switch (what) {
    case 0: s = da_mean_d(o, a, n, p, x, ld, y); break;
    case 1: s = da_variance_d(o, a, n, p, x, ld, 0, v, y); break;
    case 2: s = da_skewness_d(o, a, n, p, x, ld, y, v, w); break;
    case 3: s = da_kurtosis_d(o, a, n, p, x, ld, v, w, y); break;
    case 4: s = da_moment_d(o, a, n, p, x, ld, 2, 0, v, y); break;
    case 5: s = da_geometric_mean_d(o, a, n, p, x, ld, y); break;
    case 6: s = da_harmonic_mean_d(o, a, n, p, x, ld, y); break;
    case 7: if (nul != 2) s = da_standardize_d(o, a, n, p, (double *)x, ld, 0, 0, nullptr, nullptr); else return; break;
    case 8: s = da_five_point_summary_d(o, a, n, p, x, ld, v, w, y, v, w); break;
    default: s = da_covariance_matrix_d(o, n, p, x, ld, 0, y, 2, 0);
    }
    sym_assert(s == da_status_invalid_pointer || s == da_status_invalid_array_dimension || s == da_status_invalid_leading_dimension, "invalid input is rejected");
    for (int i = 0; i < 4; i++) sym_assert(X[i] == i + 1, "data untouched");
    sym_reach("args");
}
HARNESS(cov_def) {
    static const int S[][2] = {{2, 1}, {2, 2}, {3, 3}, {4, 2}};
    int k = (int)sym_choose("shape", 0, 3), n = S[k][0], p = S[k][1], ro = (int)sym_choose("row", 0, 1), what = (int)sym_choose("what", 0, 2), dof = what == 2 ? 0 : (int)sym_choose("dof", -1, 2);
    da_order o = ro ? row_major : column_major;
    int ld = (ro ? p : n) + (int)sym_choose("pad", 0, 1), lc = p + (int)sym_choose("padc", 0, 1);
    double X[N * N], O[N * N], C[N * N];
    for (int i = 0; i < N * N; i++) X[i] = 1000, C[i] = -99;
    for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) at(X, o, ld, i, j) = i == 0 && j == 0 ? (double)sym_choose("x", 0, 3) : (i * 5 + j * 7 + 3) % 6;
    for (int i = 0; i < N * N; i++) O[i] = X[i];
    da_status s = what == 2 ? da_correlation_matrix_d(o, n, p, X, ld, C, lc) : da_covariance_matrix_d(o, n, p, X, ld, dof, C, lc, what);
    sym_assert(s == da_status_success, "matrix computed");
    double mu[N] = {0};
    if (what != 1) for (int j = 0; j < p; j++) { for (int i = 0; i < n; i++) mu[j] += at(X, o, ld, i, j); mu[j] /= n; }
    bool ok = true, rest = true;
    for (int a = 0; a < p; a++) for (int b = 0; b < p; b++) {
        double ab = 0, aa = 0, bb = 0;
        for (int i = 0; i < n; i++) {
            double u = at(X, o, ld, i, a) - mu[a], v = at(X, o, ld, i, b) - mu[b];
            ab += u * v, aa += u * u, bb += v * v;
        }
        int f = dof < 0 ? n : dof ? dof : n - 1;
        double w = what == 2 ? (a == b ? 1 : aa == 0 || bb == 0 ? 0 : ab / std::sqrt(aa) / std::sqrt(bb)) : ab / (f < 1 ? 1 : f);
        ok &= near(at(C, o, lc, a, b), w);
        at(C, o, lc, a, b) = -99;
    }
    for (int i = 0; i < N * N; i++) rest &= X[i] == O[i] && C[i] == -99;
    sym_assert(ok, "every entry is the covariance or correlation of the two columns");
    sym_assert(rest, "the data is untouched and nothing else is written");
    sym_reach("cov");
}
