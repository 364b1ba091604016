// Train/test splitting through the public template entry points.
#include "aoclda.h"
#include "sym.h"
#include <climits>
#include <cstring>
template <typename T>
da_status da_train_test_split(da_order, da_int, da_int, const T *, da_int, da_int, da_int, const da_int *, T *, da_int, T *, da_int);

template <class T> static void split(bool par) {
    const long M = 4, N = 2;
    sym_omp(par ? 2 : 1, sym_choose("ord", 0, par ? 1 : 0));
    da_order order = sym_choose("order", 0, 1) ? row_major : column_major;
    da_int m = sym_choose("m", 2, M), n = sym_choose("n", 1, N);
    da_int tr = sym_choose("train", 1, m - 1), te = sym_choose("test", 1, m - tr);
    da_int padx = sym_choose("padx", 0, 1), padr = sym_choose("padr", 0, 1), padt = sym_choose("padt", 0, 1);
    da_int ldx = (order == row_major ? n : m) + padx, ldr = (order == row_major ? n : tr) + padr, ldt = (order == row_major ? n : te) + padt;
    da_int lx = order == row_major ? ldx * m : ldx * n, lr = order == row_major ? ldr * tr : ldr * n, lt = order == row_major ? ldt * te : ldt * n;
    T *X = new T[lx], *A = new T[lr], *B = new T[lt];
    for (da_int i = 0; i < lx; i++) X[i] = (T)sym_dy("x", -100, 100, 0);
    for (da_int i = 0; i < lr; i++) A[i] = (T)-7;
    for (da_int i = 0; i < lt; i++) B[i] = (T)-9;
    bool shuf = sym_choose("shuf", 0, 1);
    da_int *P = shuf ? new da_int[m] : nullptr;
    if (shuf)
        for (da_int i = 0; i < m; i++) P[i] = (da_int)sym_int("p", 0, m - 1);
    da_status st = da_train_test_split<T>(order, m, n, X, ldx, tr, te, P, A, ldr, B, ldt);
    sym_assert(st == da_status_success, "valid split accepted");
    auto at = [&](T *p, da_int ld, da_int i, da_int j) -> T & { return order == row_major ? p[i * ld + j] : p[j * ld + i]; };
    bool okA = true, okB = true;
    for (da_int i = 0; i < tr; i++)
        for (da_int j = 0; j < n; j++) okA &= at(A, ldr, i, j) == at(X, ldx, shuf ? P[i] : i, j);
    for (da_int i = 0; i < te; i++)
        for (da_int j = 0; j < n; j++) okB &= at(B, ldt, i, j) == at(X, ldx, shuf ? P[tr + i] : tr + i, j);
    sym_assert(okA, "training rows are the selected rows");
    sym_assert(okB, "test rows are the selected rows");
    // padding untouched
    bool okP = true;
    for (da_int k = 0; k < lr; k++) { da_int in = order == row_major ? k % ldr < n : k % ldr < tr; if (!in) okP &= A[k] == (T)-7; }
    for (da_int k = 0; k < lt; k++) { da_int in = order == row_major ? k % ldt < n : k % ldt < te; if (!in) okP &= B[k] == (T)-9; }
    sym_assert(okP, "padding of the outputs is not written");
    sym_reach("split");
    delete[] X; delete[] A; delete[] B; delete[] P;
}
HARNESS(tts_split) { split<double>(false); }
HARNESS(tts_split_par) { split<float>(true); }

HARNESS(tts_validate) {
    da_order order = sym_choose("order", 0, 1) ? row_major : column_major;
    static double X[8], A[8], B[8];
    int nul = sym_choose("null", 0, 3);
    da_int m = sym_int("m", INT_MIN, INT_MAX), n = sym_int("n", INT_MIN, INT_MAX), ldx = sym_int("ldx", INT_MIN, INT_MAX), tr = sym_int("train", INT_MIN, INT_MAX),
           te = sym_int("test", INT_MIN, INT_MAX), l1 = sym_int("ldtrain", INT_MIN, INT_MAX), l2 = sym_int("ldtest", INT_MIN, INT_MAX);
    bool dims = m >= 2 && n >= 1, sizes = tr >= 1 && te >= 1 && (long)tr + te <= m;
    bool lds = order == row_major ? ldx >= n && l1 >= n && l2 >= n : ldx >= m && l1 >= tr && l2 >= te;
    bool ok = dims && sizes && lds && nul == 0;
    sym_assume(!ok);
    da_status st = da_train_test_split<double>(order, m, n, nul == 1 ? nullptr : X, ldx, tr, te, nullptr, nul == 2 ? nullptr : A, l1, nul == 3 ? nullptr : B, l2);
    sym_assert(st != da_status_success, "inconsistent arguments are rejected");
    if (nul) sym_assert(st == da_status_invalid_pointer, "null array reported as invalid pointer");
}
