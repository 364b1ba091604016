// Textbook definitions of the BLAS and LAPACK routines that the encoded code calls (the replay
// build uses the installed OpenBLAS).
#include <cmath>
#include <cstddef>
enum { ROW = 101, COL = 102, NT = 111, TR = 112, CT = 113, UP = 121, LO = 122 };
template <class T> static inline T &el(int o, T *a, int ld, long i, long j) { return o == COL ? a[j * (long)ld + i] : a[i * (long)ld + j]; }
template <class T> static void gemm(int o, int ta, int tb, int m, int n, int k, T al, const T *A, int lda, const T *B, int ldb, T be, T *C, int ldc) {
    for (long i = 0; i < m; i++)
        for (long j = 0; j < n; j++) {
            T s = 0;
            if (al != 0)
                for (long l = 0; l < k; l++) s += (ta == NT ? el(o, A, lda, i, l) : el(o, A, lda, l, i)) * (tb == NT ? el(o, B, ldb, l, j) : el(o, B, ldb, j, l));
            T &c = el(o, C, ldc, i, j);
            c = be == 0 ? al * s : al * s + be * c;
        }
}
template <class T> static void syrk(int o, int up, int t, int n, int k, T al, const T *A, int lda, T be, T *C, int ldc) {
    for (long i = 0; i < n; i++)
        for (long j = 0; j < n; j++) {
            if (up == UP ? i > j : i < j) continue;
            T s = 0;
            for (long l = 0; l < k; l++) s += (t == NT ? el(o, A, lda, i, l) * el(o, A, lda, j, l) : el(o, A, lda, l, i) * el(o, A, lda, l, j));
            T &c = el(o, C, ldc, i, j);
            c = be == 0 ? al * s : al * s + be * c;
        }
}
static inline long st(int n, int inc) { return inc < 0 ? -(long)(n - 1) * inc : 0; }
template <class T> static void gemv(int o, int t, int m, int n, T al, const T *A, int lda, const T *x, int ix, T be, T *y, int iy) {
    int nx = t == NT ? n : m, ny = t == NT ? m : n;
    for (long i = 0; i < ny; i++) {
        T s = 0;
        for (long j = 0; j < nx; j++) s += (t == NT ? el(o, A, lda, i, j) : el(o, A, lda, j, i)) * x[st(nx, ix) + j * ix];
        T &c = y[st(ny, iy) + i * iy];
        c = be == 0 ? al * s : al * s + be * c;
    }
}
template <class T> static void ger(int o, int m, int n, T al, const T *x, int ix, const T *y, int iy, T *A, int lda) {
    for (long i = 0; i < m; i++)
        for (long j = 0; j < n; j++) el(o, A, lda, i, j) += al * x[st(m, ix) + i * ix] * y[st(n, iy) + j * iy];
}
template <class T> static T dot(int n, const T *x, int ix, const T *y, int iy) {
    T s = 0;
    for (long i = 0; i < n; i++) s += x[st(n, ix) + i * ix] * y[st(n, iy) + i * iy];
    return s;
}
template <class T> static int potrf(char u, int n, T *a, int ld) {
    for (long j = 0; j < n; j++)
        for (long i = j; i < n; i++) {
            T &x = u == 'U' || u == 'u' ? a[i * ld + j] : a[j * ld + i];
            T s = x;
            for (long k = 0; k < j; k++) s -= (u == 'U' || u == 'u') ? a[i * ld + k] * a[j * ld + k] : a[k * ld + i] * a[k * ld + j];
            if (i == j) {
                if (!(s > 0)) return (int)j + 1;
                x = std::sqrt(s);
            } else
                x = s / a[j * ld + j];
        }
    return 0;
}
template <class T> static void potrs(char u, int n, int r, const T *a, int la, T *b, int lb) {
    bool up = u == 'U' || u == 'u';
    auto L = [&](long i, long j) { return up ? a[i * la + j] : a[j * la + i]; };
    for (long c = 0; c < r; c++) {
        T *x = b + c * lb;
        for (long i = 0; i < n; i++) { T s = x[i]; for (long k = 0; k < i; k++) s -= L(i, k) * x[k]; x[i] = s / L(i, i); }
        for (long i = n - 1; i >= 0; i--) { T s = x[i]; for (long k = i + 1; k < n; k++) s -= L(k, i) * x[k]; x[i] = s / L(i, i); }
    }
}
// tridiagonal solve with partial pivoting
template <class T> static int gtsv(int n, int r, T *dl, T *d, T *du, T *b, int lb) {
    for (long i = 0; i + 1 < n; i++) {
        if (std::fabs(d[i]) >= std::fabs(dl[i])) {
            if (d[i] == 0) return (int)i + 1;
            T f = dl[i] / d[i];
            d[i + 1] -= f * du[i];
            for (long c = 0; c < r; c++) b[c * lb + i + 1] -= f * b[c * lb + i];
            dl[i] = 0;
        } else {
            T f = d[i] / dl[i], t = d[i + 1];
            d[i] = dl[i];
            d[i + 1] = du[i] - f * t;
            if (i + 2 < n) { dl[i] = du[i + 1]; du[i + 1] = -f * dl[i]; }
            du[i] = t;
            for (long c = 0; c < r; c++) { T u = b[c * lb + i]; b[c * lb + i] = b[c * lb + i + 1]; b[c * lb + i + 1] = u - f * b[c * lb + i + 1]; }
        }
    }
    if (d[n - 1] == 0) return n;
    for (long c = 0; c < r; c++) {
        T *x = b + c * lb;
        x[n - 1] /= d[n - 1];
        if (n > 1) x[n - 2] = (x[n - 2] - du[n - 2] * x[n - 1]) / d[n - 2];
        for (long i = n - 3; i >= 0; i--) x[i] = (x[i] - du[i] * x[i + 1] - dl[i] * x[i + 2]) / d[i];
    }
    return 0;
}
template <class T> static void omat(int o, int t, long m, long n, T al, const T *A, long lda, T *B, long ldb) {
    for (long i = 0; i < m; i++)
        for (long j = 0; j < n; j++) {
            T v = al * el(o, A, (int)lda, i, j);
            if (t == NT) el(o, B, (int)ldb, i, j) = v;
            else el(o, B, (int)ldb, j, i) = v;
        }
}
// max, one, infinity and Frobenius norms
template <class T> static T lange(char k, long m, long n, const T *A, long ld) {
    T r = 0;
    bool fro = k == 'F' || k == 'f' || k == 'E' || k == 'e', mx = k == 'M' || k == 'm', one = k == '1' || k == 'O' || k == 'o';
    for (long j = 0; j < (one || fro || mx ? n : m); j++) {
        T s = 0;
        for (long i = 0; i < (one || fro || mx ? m : n); i++) {
            T v = std::fabs(one || fro || mx ? A[j * ld + i] : A[i * ld + j]);
            if (mx) { if (v > r) r = v; } else s += fro ? v * v : v;
        }
        if (fro) r += s;
        else if (!mx && s > r) r = s;
    }
    return fro ? std::sqrt(r) : r;
}
#define ALL(p, T) \
    extern "C" { \
    void cblas_##p##gemm(int o, int ta, int tb, int m, int n, int k, T al, const T *A, int lda, const T *B, int ldb, T be, T *C, int ldc) { gemm<T>(o, ta, tb, m, n, k, al, A, lda, B, ldb, be, C, ldc); } \
    void cblas_##p##syrk(int o, int up, int t, int n, int k, T al, const T *A, int lda, T be, T *C, int ldc) { syrk<T>(o, up, t, n, k, al, A, lda, be, C, ldc); } \
    void cblas_##p##gemv(int o, int t, int m, int n, T al, const T *A, int lda, const T *x, int ix, T be, T *y, int iy) { gemv<T>(o, t, m, n, al, A, lda, x, ix, be, y, iy); } \
    void cblas_##p##ger(int o, int m, int n, T al, const T *x, int ix, const T *y, int iy, T *A, int lda) { ger<T>(o, m, n, al, x, ix, y, iy, A, lda); } \
    T cblas_##p##dot(int n, const T *x, int ix, const T *y, int iy) { return dot<T>(n, x, ix, y, iy); } \
    T cblas_##p##nrm2(int n, const T *x, int ix) { return std::sqrt(dot<T>(n, x, ix, x, ix)); } \
    T cblas_##p##asum(int n, const T *x, int ix) { T s = 0; for (long i = 0; i < n; i++) s += std::fabs(x[i * ix]); return s; } \
    void cblas_##p##axpy(int n, T al, const T *x, int ix, T *y, int iy) { for (long i = 0; i < n; i++) y[st(n, iy) + i * iy] += al * x[st(n, ix) + i * ix]; } \
    void cblas_##p##copy(int n, const T *x, int ix, T *y, int iy) { for (long i = 0; i < n; i++) y[st(n, iy) + i * iy] = x[st(n, ix) + i * ix]; } \
    void cblas_##p##swap(int n, T *x, int ix, T *y, int iy) { for (long i = 0; i < n; i++) { T t = y[st(n, iy) + i * iy]; y[st(n, iy) + i * iy] = x[st(n, ix) + i * ix]; x[st(n, ix) + i * ix] = t; } } \
    void cblas_##p##scal(int n, T al, T *x, int ix) { for (long i = 0; i < n; i++) x[i * ix] *= al; } \
    size_t cblas_i##p##amax(int n, const T *x, int ix) { long b = 0; for (long i = 1; i < n; i++) if (std::fabs(x[i * ix]) > std::fabs(x[b * ix])) b = i; return b; } \
    void p##omatcopy_(char *t, int *m, int *n, const T *al, const T *A, int *lda, T *B, int *ldb) { omat<T>(COL, *t == 't' || *t == 'T' || *t == 'c' || *t == 'C' ? TR : NT, *m, *n, *al, A, *lda, B, *ldb); } \
    void p##imatcopy_(char *t, int *m, int *n, const T *al, T *A, int *lda, int *ldb) { \
        T *c = new T[(size_t)*lda * *n + 1]; \
        omat<T>(COL, NT, *m, *n, T(1), A, *lda, c, *lda); \
        omat<T>(COL, *t == 't' || *t == 'T' || *t == 'c' || *t == 'C' ? TR : NT, *m, *n, *al, c, *lda, A, *ldb); \
        delete[] c; \
    } \
    void p##potrf_(char *u, int *n, T *a, int *ld, int *info) { *info = potrf<T>(*u, *n, a, *ld); } \
    void p##potrs_(char *u, int *n, int *r, T *a, int *la, T *b, int *lb, int *info) { potrs<T>(*u, *n, *r, a, *la, b, *lb); *info = 0; } \
    void p##posv_(char *u, int *n, int *r, T *a, int *la, T *b, int *lb, int *info) { *info = potrf<T>(*u, *n, a, *la); if (!*info) potrs<T>(*u, *n, *r, a, *la, b, *lb); } \
    void p##gtsv_(int *n, int *r, T *dl, T *d, T *du, T *b, int *lb, int *info) { *info = gtsv<T>(*n, *r, dl, d, du, b, *lb); } \
    T p##lange_(const char *k, const int *m, const int *n, const T *A, const int *ld, T *) { return lange<T>(*k, *m, *n, A, *ld); } \
    /* decompositions that report that they did not converge */ \
    void p##gesdd_(char *, int *, int *, T *, int *, T *, T *, int *, T *, int *, T *w, int *lw, int *, int *info) { *info = *lw == -1 ? 0 : 1; w[0] = 1; } \
    void p##syevd_(char *, char *, int *, T *, int *, T *, T *w, int *lw, int *iw, int *liw, int *info) { *info = *lw == -1 || *liw == -1 ? 0 : 1; w[0] = 1, iw[0] = 1; } \
    }
ALL(s, float)
ALL(d, double)
