// Pairwise distance matrices against the definition.
#include "hapi.h"
#include <cmath>
#ifdef TIER_THOROUGH
#define TT 1
#else
#define TT 0
#endif
template <class T> static da_status pd(da_order o, da_int m, da_int n, da_int k, const T *X, da_int lx, const T *Y, da_int ly, T *D, da_int ld, T p, da_metric me);
template <> da_status pd<double>(da_order o, da_int m, da_int n, da_int k, const double *X, da_int lx, const double *Y, da_int ly, double *D, da_int ld, double p, da_metric me) { return da_pairwise_distances_d(o, m, n, k, X, lx, Y, ly, D, ld, p, me); }
template <> da_status pd<float>(da_order o, da_int m, da_int n, da_int k, const float *X, da_int lx, const float *Y, da_int ly, float *D, da_int ld, float p, da_metric me) { return da_pairwise_distances_s(o, m, n, k, X, lx, Y, ly, D, ld, p, me); }
enum { N = 12 };
static const da_metric mets[] = {da_euclidean, da_sqeuclidean, da_manhattan, da_euclidean_gemm, da_sqeuclidean_gemm, da_inner_product, da_minkowski, da_cosine};
template <class T> static void run(int mi, T p, int m, int n, int k, bool concrete) {
    sym_omp(1, 0);
    da_order o = sym_choose("row", 0, 1) ? row_major : column_major;
    bool self = sym_choose("self", 0, 1);
    int pad = (int)sym_choose("pad", 0, 1);
    if (self) n = m;
    T X[N * N], Y[N * N], D[N * N], xr[N][N], yr[N][N];
    int lx = (o == row_major ? k : m) + pad, ly = (o == row_major ? k : n) + pad, ld = (o == row_major ? n : m) + 2 * pad;
    for (int i = 0; i < N * N; i++) X[i] = 99, Y[i] = 98, D[i] = -77;
    for (int i = 0; i < m; i++) for (int j = 0; j < k; j++) at(X, o, lx, i, j) = xr[i][j] = concrete ? (T)((i * 5 + j * 3) % 4 + (i == 0 && j == 0 ? sym_choose("x", -2, 2) : 0)) : sym_dyT<T>("x", -1, 1 + TT, 0);
    for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) {
        if (self) yr[i][j] = xr[i][j];
        else at(Y, o, ly, i, j) = yr[i][j] = concrete ? (T)((i * 3 + j * 7 + 1) % 5 - 1) : sym_dyT<T>("y", 0, 2, 0);
    }
    da_status st = pd<T>(o, m, self ? -5 : n, k, X, lx, self ? nullptr : Y, self ? 0 : ly, D, ld, p, mets[mi]);
    sym_assert(st == da_status_success, "distances computed");
    bool ok = true, rest = true;
    for (int i = 0; i < m; i++)
        for (int j = 0; j < n; j++) {
            T s = 0, a = 0, b = 0, got = at(D, o, ld, i, j), w;
            for (int c = 0; c < k; c++) {
                T d = xr[i][c] - yr[j][c], ad = d < 0 ? -d : d;
                if (mi == 7) s += xr[i][c] * yr[j][c], a += xr[i][c] * xr[i][c], b += yr[j][c] * yr[j][c];
                else if (mi == 5) s += xr[i][c] * yr[j][c];
                else if (mi == 2 || (mi == 6 && p == 1)) s += ad;
                else if (mi == 6 && p != 2) s += std::pow(ad, p);
                else s += d * d;
            }
            w = mi == 0 || mi == 3 || (mi == 6 && p == 2) ? std::sqrt(s) : mi == 6 && p != 1 ? std::pow(s, 1 / p) : s;
            if (mi == 7) {
                T na = std::sqrt(a), nb = std::sqrt(b);
                w = na == 0 || nb == 0 ? 1 : 1 - s / (na * nb); // as for other libraries, a zero vector has similarity 0
                if (self && i == j) w = 0;
                ok &= got - w < (T)1e-5 && got - w > (T)-1e-5;
            } else if (mi == 6 && p != 1 && p != 2) ok &= got - w < (T)1e-5 && got - w > (T)-1e-5;
            else ok &= got == w;
            if (!concrete && (i == 0 || i == m - 1)) sym_assert(ok, "every entry is the distance between the two rows");
            at(D, o, ld, i, j) = -77;
        }
    for (int i = 0; i < N * N; i++) rest &= D[i] == (T)-77;
    sym_assert(ok, "every entry is the distance between the two rows");
    sym_assert(rest, "nothing else is written");
    sym_reach("pd");
}
static void shape(int &m, int &n, int &k) {
    static const int S[][3] = {{1, 1, 1}, {2, 3, 2}, {5, 2, 2}, {9, 1, 1}, {3, 9, 2}, {1, 2, 9}};
    int i = (int)sym_choose("shape", 0, 2);
    m = S[i][0], n = S[i][1], k = S[i][2];
}
static void shapec(int &m, int &n, int &k) { m = (int)sym_choose("m", 1, 9), n = (int)sym_choose("n", 1, 3) * 3 - 2, k = 1 + 2 * (int)sym_choose("k", 0, 2); }
HARNESS(pd_direct) { int m, n, k; shape(m, n, k); run<double>((int)sym_choose("metric", 0, 2), 2, m, n, k, false); }
HARNESS(pd_gemm) { int m, n, k; shape(m, n, k); run<double>((int)sym_choose("metric", 3, 5), 2, m, n, k, false); }
HARNESS(pd_float) { int m, n, k; shape(m, n, k); run<float>((int)sym_choose("metric", 0, 5), 2, m, n, k, false); }
HARNESS(pd_shapes) { int m, n, k; shapec(m, n, k); int mi = (int)sym_choose("metric", 0, 7); run<double>(mi, mi == 6 ? (double)sym_choose("p", 1, 3) : 2, m, n, k, true); }
HARNESS(pd_shapes_f) { int m, n, k; shapec(m, n, k); int mi = (int)sym_choose("metric", 0, 7); run<float>(mi, mi == 6 ? (float)sym_choose("p", 1, 3) : 2, m, n, k, true); }
// arguments: accepted exactly when the documented constraints hold
HARNESS(pd_args) {
    sym_omp(1, 0);
    da_order o = sym_choose("row", 0, 1) ? row_major : column_major;
    bool y = sym_choose("y", 0, 1), nx = sym_choose("null x", 0, 1), nd = sym_choose("null d", 0, 1);
    double X[8] = {}, Y[8] = {}, D[16];
    for (int i = 0; i < 16; i++) D[i] = -77;
    da_int m = (da_int)sym_int("m", INT_MIN, 2), n = (da_int)sym_int("n", INT_MIN, 2), k = (da_int)sym_int("k", INT_MIN, 2), lx = (da_int)sym_int("ldx", INT_MIN, 2), ly = (da_int)sym_int("ldy", INT_MIN, 2), ld = (da_int)sym_int("ldd", INT_MIN, 4);
    int pc = (int)sym_choose("p", -1, 1);
    int mi = (int)sym_choose("metric", 0, 2);
    da_metric me = mi == 0 ? da_minkowski : mi == 1 ? da_manhattan : da_inner_product;
    bool dim = (m >= 1) & (k >= 1) & (!y | (n >= 1));
    bool lead = (lx >= (o == row_major ? k : m)) & (!y | (ly >= (o == row_major ? k : n))) & (ld >= (y && o == row_major ? n : m));
    bool ptr = !nx && !nd, pp = mi != 0 || pc > 0;
    bool want = dim & lead & ptr & pp;
    if (want) m = (da_int)sym_conc(m), k = (da_int)sym_conc(k), n = y ? (da_int)sym_conc(n) : n;
    da_status st = da_pairwise_distances_d(o, m, n, k, nx ? nullptr : X, lx, y ? Y : nullptr, ly, nd ? nullptr : D, ld, pc, me);
    sym_assert((st == da_status_success) == want, "accepted exactly when every constraint holds");
    if (!want) {
        sym_assert((!dim && st == da_status_invalid_array_dimension) || (!lead && st == da_status_invalid_leading_dimension) || (!ptr && st == da_status_invalid_pointer) || (!pp && st == da_status_invalid_input), "the status names a violated constraint");
        bool same = true;
        for (int i = 0; i < 16; i++) same &= D[i] == -77;
        sym_assert(same, "a rejected call writes nothing");
    }
    sym_reach("args");
}
