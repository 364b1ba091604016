// Index generation for train/test splits; every random draw is a free variable.
#include "aoclda.h"
#include "sym.h"
#include <climits>
template <typename T> da_status da_get_shuffled_indices(da_int, da_int, da_int, da_int, da_int, const T *, da_int *);
#ifdef TIER_THOROUGH
static const int MP = 5, MS = 6;
#else
static const int MP = 4, MS = 5;
#endif
HARNESS(shuf_plain) {
    da_int m = sym_choose("m", 2, MP);
    da_int seed = sym_choose("seed", 0, 1) * 1234567;
    static da_int P[8];
    for (int i = 0; i < 8; i++) P[i] = -5;
    da_status st = da_get_shuffled_indices<da_int>(m, seed, 1, 1, 1, nullptr, P);
    sym_assert(st == da_status_success, "plain shuffle succeeds");
    unsigned long mask = 0;
    bool in = true;
    for (da_int i = 0; i < m; i++) { in &= P[i] >= 0 && P[i] < m; if (P[i] >= 0 && P[i] < m) mask |= 1ul << P[i]; }
    sym_assert(in, "shuffled indices are row numbers");
    sym_assert(mask == (1ul << m) - 1, "shuffled indices are a permutation");
    bool rest = true;
    for (int i = m; i < 8; i++) rest &= P[i] == -5;
    sym_assert(rest, "nothing written past the m indices");
    sym_reach("plain");
}
template <class T> static void strat() {
    da_int m = sym_choose("m", 4, MS), tr = sym_choose("train", 1, m - 1), te = sym_choose("test", 1, m - tr);
    static da_int P[8];
    T C[8];
    int k[8], cnt[3] = {0, 0, 0};
    const int NC = 3;
    // class labels, canonical: the first label is class 0
    for (da_int i = 0; i < m; i++) {
        k[i] = i == 0 ? 0 : (int)sym_choose("cls", 0, NC - 1);
        cnt[k[i]]++;
        C[i] = (T)(3 * k[i] - 2);
    }
    for (int i = 0; i < 8; i++) P[i] = -5;
    da_status st = da_get_shuffled_indices<T>(m, 17, tr, te, 1, C, P);
    int nc = 0;
    bool two = true;
    for (int c = 0; c < NC; c++) if (cnt[c]) { nc++; two &= cnt[c] >= 2; }
    bool valid = nc >= 2 && two && tr >= nc && te >= nc;
    if (!valid) { sym_assert(st == da_status_invalid_input, "impossible stratification is refused"); return; }
    sym_assert(st == da_status_success, "possible stratification succeeds");
    bool in = true;
    unsigned long mask = 0; int nb = 0;
    for (da_int i = 0; i < tr + te; i++) { in &= P[i] >= 0 && P[i] < m; if (P[i] >= 0 && P[i] < m) mask |= 1ul << P[i]; }
    for (int b = 0; b < m; b++) nb += (mask >> b) & 1;
    sym_assert(in, "stratified indices are row numbers");
    sym_assert(nb == tr + te, "stratified training and test rows are distinct");
    bool rest = true;
    for (int i = tr + te; i < 8; i++) rest &= P[i] == -5;
    sym_assert(rest, "nothing written past the train and test indices");
    // class proportions within one of the exact share
    if (!in) return;
    int a[3] = {0, 0, 0}, b[3] = {0, 0, 0};
    for (da_int i = 0; i < tr + te; i++) {
        int c = 0;
        for (int r = 0; r < m; r++) c = P[i] == r ? k[r] : c;
        for (int q = 0; q < NC; q++) (i < tr ? a : b)[q] += c == q;
    }
    bool prop = true;
    for (int q = 0; q < NC; q++) prop &= a[q] * m > cnt[q] * tr - m && a[q] * m < cnt[q] * tr + m;
    sym_assert(prop, "every class gets its share of the training rows to within one");
    bool prop2 = true;
    for (int q = 0; q < NC; q++) { int l = cnt[q] - a[q], M = m - tr; prop2 &= b[q] * M > l * te - M && b[q] * M < l * te + M; }
    sym_assert(prop2, "every class gets its share of the test rows to within one");
    sym_reach("strat");
}
HARNESS(shuf_strat_int) { strat<da_int>(); }
HARNESS(shuf_strat_fp) { strat<double>(); }
HARNESS(shuf_args) {
    static da_int P[4], C[4] = {0, 0, 1, 1};
    da_int m = sym_int("m", INT_MIN, 4), seed = sym_int("seed", INT_MIN, -2), tr = sym_int("train", INT_MIN, INT_MAX), te = sym_int("test", INT_MIN, INT_MAX), prec = sym_int("prec", INT_MIN, INT_MAX);
    int nul = sym_choose("null", 0, 1), cl = sym_choose("classes", 0, 2);
    static float F[4] = {0, 0, 1, 1};
    int okseed = sym_choose("okseed", 0, 1); if (okseed) seed = 5;
    bool bad = nul || m < 2 || !okseed || (cl && (tr < 2 || te < 2 || (long)tr + te > m)) || (cl == 2 && prec < 1);
    sym_assume(bad);
    da_status st = cl == 2 ? da_get_shuffled_indices<float>(m, seed, tr, te, prec, F, nul ? nullptr : P)
                           : da_get_shuffled_indices<da_int>(m, seed, tr, te, prec, cl ? C : nullptr, nul ? nullptr : P);
    sym_assert(st != da_status_success, "inconsistent arguments are refused");
    if (nul) sym_assert(st == da_status_invalid_pointer, "null output reported as invalid pointer");
}
