// The data store against a matrix of columns.
#include "aoclda.h"
#include "aoclda_cpp_overloads.hpp"
#include "sym.h"
#include <climits>
#include <cmath>
#include <cstdlib>
#include <cstring>
#ifdef TIER_THOROUGH
#define TT 1
#else
#define TT 0
#endif
enum { NR = 6, NC = 5 };
struct model {
    int m, n;
    int ty[NC];        // 0 integers, 1 doubles
    double v[NR][NC];  // integers are kept exactly as doubles
};
static da_int ib[8][12];
static double db[8][12];
static int nb;
static const char *vn[] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "va", "vb", "vc", "vd", "ve", "vf"};
static int nv;
static double val() { return (double)(nv < 3 ? sym_int(vn[nv++], -9, 9) : (nv++ * 7) % 19 - 9); }
// fill a block of r rows and c columns of type ty with new values; w receives them
static void fill(int ty, int r, int c, da_order o, double w[NR][NC]) {
    for (int i = 0; i < r; i++)
        for (int j = 0; j < c; j++) {
            double x = val();
            int k = o == row_major ? i * c + j : j * r + i;
            w[i][j] = x;
            if (ty) db[nb][k] = x + 0.5; else ib[nb][k] = (da_int)x;
            if (ty) w[i][j] = x + 0.5;
        }
}
static da_status load(bool rows, da_datastore s, int ty, int r, int c, da_order o, int copy) {
    if (rows) return ty ? da_data_load_row(s, r, c, db[nb], o, copy) : da_data_load_row(s, r, c, ib[nb], o, copy);
    return ty ? da_data_load_col(s, r, c, db[nb], o, copy) : da_data_load_col(s, r, c, ib[nb], o, copy);
}
// the caller may reuse its array after a copy
static void scribble(int copy) {
    if (copy) for (int k = 0; k < 12; k++) ib[nb][k] = 77, db[nb][k] = 77;
    nb++;
}
static void expect(da_datastore s, const model &M) {
    da_int a = -1, b = -1;
    sym_assert(da_data_get_n_rows(s, &a) == da_status_success && da_data_get_n_cols(s, &b) == da_status_success, "the size can be queried");
    sym_assert(a == M.m && b == M.n, "the store has the rows and columns that were loaded");
    for (int j = 0; j < M.n; j++) {
        da_int ci[NR];
        double cd[NR];
        for (int i = 0; i < NR; i++) ci[i] = 55, cd[i] = 55;
        da_status si = da_data_extract_column(s, j, M.m, ci), sd = da_data_extract_column(s, j, M.m, cd);
        sym_assert((si == da_status_success) == !M.ty[j] && (sd == da_status_success) == !!M.ty[j], "a column is extracted with its own type only");
        for (int i = 0; i < NR; i++) {
            double x = i < M.m ? M.v[i][j] : 55;
            sym_assert(ci[i] == (M.ty[j] ? 55 : (da_int)x) && cd[i] == (M.ty[j] ? x : 55), "an extracted column has the values loaded");
        }
        for (int i = 0; i < M.m; i++) {
            da_int e = 55;
            double d = 55;
            si = da_data_get_element(s, i, j, &e), sd = da_data_get_element(s, i, j, &d);
            sym_assert((si == da_status_success) == !M.ty[j] && (sd == da_status_success) == !!M.ty[j], "an element is read with its own type only");
            sym_assert(M.ty[j] ? d == M.v[i][j] : e == (da_int)M.v[i][j], "an element has the value loaded");
        }
    }
    da_int ci[NR];
    sym_assert(da_data_extract_column(s, M.n, M.m, ci) == da_status_invalid_input && da_data_extract_column(s, -1, M.m, ci) == da_status_invalid_input, "columns outside the store are rejected");
    if (M.m > 1) sym_assert(da_data_extract_column(s, 0, M.m - 1, ci) == da_status_invalid_input, "an array that is too short is rejected");
}
static void incomplete(da_datastore s, const model &M) {
    da_int ci[NR], e = 5;
    double d;
    sym_assert(da_data_extract_column(s, 0, M.m, ci) == da_status_missing_block, "an incomplete row block blocks the extraction");
    sym_assert(da_data_get_element(s, 0, 0, &e) == da_status_missing_block && da_data_set_element(s, 0, M.n - 1, 1.0) == da_status_missing_block, "an incomplete row block blocks the access to elements");
    sym_assert(da_data_get_element(s, M.m, M.n - 1, &d) != da_status_success, "an incomplete row block blocks the access to elements");
    sym_assert(da_data_select_rows(s, "k", 0, 0) == da_status_missing_block && da_data_select_columns(s, "k", 0, 0) == da_status_missing_block, "an incomplete row block blocks selections");
}
static da_status load_cols(da_datastore s, model &M, int ty, int r, int c, da_order o, int copy) {
    double w[NR][NC];
    fill(ty, r, c, o, w);
    da_status st = load(false, s, ty, r, c, o, copy);
    scribble(copy);
    if (st == da_status_success) {
        for (int j = 0; j < c; j++) {
            M.ty[M.n + j] = ty;
            for (int i = 0; i < r; i++) M.v[i][M.n + j] = w[i][j];
        }
        M.m = r, M.n += c;
    }
    return st;
}
static int edge(const char *n, int k) {
    int a = (int)sym_choose(n, -2, k + 1);
    return a == -2 ? INT_MIN : a == k + 1 ? INT_MAX : a;
}
static da_order order(const char *n) { return sym_choose(n, 0, 1) ? row_major : column_major; }
// columns, then row blocks given in parts of any width, type and height
static void rows_history(int kinds, int hmax) {
    sym_leakmark();
    nb = nv = 0;
    model M = {};
    da_datastore s = nullptr;
    sym_assert(da_datastore_init(&s) == da_status_success, "a store can be created");
    static const int lay[4][3] = {{0, 0, 0}, {0, 0, 1}, {0, 1, 1}, {1, 0, 1}};
    int L = (int)sym_choose("types", 0, 3), split = (int)sym_choose("split", 0, kinds);
    da_order o = order("o0");
    int copy = (o == row_major) ^ (L & 1);
    for (int j = 0; j < 3;) {
        int c = 1;
        if (!split) while (j + c < 3 && lay[L][j + c] == lay[L][j]) c++;
        sym_assert(load_cols(s, M, lay[L][j], 2, c, o, copy) == da_status_success, "columns with the right number of rows are accepted");
        j += c;
    }
    sym_assert(load_cols(s, M, 0, 1, 1, o, copy) == da_status_invalid_input && load_cols(s, M, 0, 3, 1, o, copy) == da_status_invalid_input, "columns with another number of rows are rejected");
    int at = 0, h = 0;
    static const char *nw[] = {"w0", "w1", "w2"}, *nt[] = {"t0", "t1", "t2"}, *nh[] = {"h0", "h1", "h2"};
    for (int k = 0; k < 2 + TT; k++) {
        int w = (int)sym_choose(nw[k], 1, 3 + (k == 0)), t = (int)sym_choose(nt[k], 0, 1), r = (int)sym_choose(nh[k], 1, hmax);
        double x[NR][NC];
        int bad = at + w > M.n || (at && r != h);
        for (int j = at; !bad && j < at + w; j++) bad = M.ty[j] != t;
        bool runs = !bad && (!at || M.ty[at - 1] != M.ty[at]) && (at + w == M.n || M.ty[at + w - 1] != M.ty[at + w]);
        da_order oo = k ? o == row_major ? column_major : row_major : o;
        fill(t, r, w, oo, x);
        da_status st = load(true, s, t, r, w, oo, copy);
        scribble(copy);
        sym_assert(st == da_status_success || st == da_status_invalid_input, "rows are accepted or reported as invalid");
        if (bad) sym_assert(st == da_status_invalid_input, "rows that do not match the columns are rejected");
        if (runs) sym_assert(st == da_status_success, "rows that span the columns of one type are accepted");
        if (st == da_status_success) {
            for (int i = 0; i < r; i++)
                for (int j = 0; j < w; j++) M.v[M.m - (at ? h : 0) + i][at + j] = x[i][j];
            if (!at) M.m += r;
            h = r;
            at += w;
            if (at == M.n) at = 0;
        }
        if (at) incomplete(s, M);
        else expect(s, M), sym_reach("complete");
    }
    if (!at) {
        int i = edge("i", M.m), j = edge("j", M.n);
        bool in = i >= 0 && i < M.m && j >= 0 && j < M.n;
        da_status a = da_data_set_element(s, i, j, (da_int)41), b = da_data_set_element(s, i, j, 41.25);
        if (in) {
            sym_assert((a == da_status_success) == !M.ty[j] && (b == da_status_success) == !!M.ty[j], "an element is written with its own type only");
            M.v[i][j] = M.ty[j] ? 41.25 : 41;
        } else {
            da_int ei;
            double ed;
            sym_assert(a == da_status_invalid_input && b == da_status_invalid_input, "elements outside the store are rejected");
            sym_assert(da_data_get_element(s, i, j, &ei) == da_status_invalid_input && da_data_get_element(s, i, j, &ed) == da_status_invalid_input, "elements outside the store are rejected");
        }
        expect(s, M);
        sym_assert(load_cols(s, M, 1, M.m, 1, o, copy) == da_status_success, "columns with the right number of rows are accepted");
        expect(s, M);
    }
    da_datastore_destroy(&s);
    sym_assert(s == nullptr, "a destroyed store is gone");
    sym_leakcheck();
}
HARNESS(store_rows) { rows_history(1, 2); }
// sizes that are not positive, stores that are empty
HARNESS(store_args) {
    sym_leakmark();
    nb = nv = 0;
    da_datastore s = nullptr;
    da_int a[4] = {1, 2, 3, 4}, c = 9;
    int r = (int)sym_int("r", INT_MIN, INT_MAX), k = (int)sym_int("k", INT_MIN, INT_MAX);
    sym_assume(r <= 0 || k <= 0);
    sym_assert(da_data_load_col(s, 1, 1, a, row_major, 0) == da_status_store_not_initialized, "a missing store is an error");
    da_datastore_init(&s);
    bool row = sym_choose("row", 0, 1), copy = sym_choose("copy", 0, 1);
    bool full = sym_choose("full", 0, 1);
    if (full) sym_assert(da_data_load_col(s, 2, 2, a, row_major, copy) == da_status_success, "columns are accepted");
    sym_assert((row ? da_data_load_row(s, r, k, a, row_major, copy) : da_data_load_col(s, r, k, a, row_major, copy)) == da_status_invalid_input, "sizes that are not positive are rejected");
    sym_assert((row ? da_data_load_row(s, 1, 1, (da_int *)nullptr, row_major, copy) : da_data_load_col(s, 1, 1, (da_int *)nullptr, row_major, copy)) == da_status_invalid_input, "missing data is rejected");
    sym_assert(da_data_get_n_rows(s, &c) == da_status_success && c == (full ? 2 : 0), "a rejected block does not change the store");
    sym_assert(da_data_get_n_cols(s, &c) == da_status_success && c == (full ? 2 : 0), "a rejected block does not change the store");
    if (!full) {
        sym_assert(da_data_extract_column(s, 0, 0, a) == da_status_invalid_input && da_data_get_element(s, 0, 0, &c) == da_status_invalid_input, "an empty store has no elements");
        sym_assert(da_data_select_rows(s, "k", 0, 0) == da_status_invalid_input && da_data_select_columns(s, "k", 0, 0) == da_status_invalid_input && da_data_select_slice(s, "k", 0, 0, 0, 0) == da_status_invalid_input, "an empty store has nothing to select");
        sym_assert(da_data_select_non_missing(s, "k", 0) != da_status_success, "an empty store has nothing to select");
    }
    da_datastore_destroy(&s);
    sym_reach("args");
    sym_leakcheck();
}
// ---- selections
static const int SR = 5, SC = 4;
// integer columns in two blocks, rows in two blocks
static void build(da_datastore s, model &M, bool dbl) {
    da_order o = order("o0");
    load_cols(s, M, 0, 3, 2, o, 0);
    load_cols(s, M, 0, 3, 1, o, 0);
    load_cols(s, M, dbl, 3, 1, o, 0);
    double x[NR][NC];
    int w = dbl ? 3 : 4;
    for (int at = 0; at < 4; at += w, w = 1) {
        fill(at ? 1 : 0, 2, w, row_major, x);
        sym_assert(load(true, s, at ? 1 : 0, 2, w, row_major, 0) == da_status_success, "rows that span the columns of one type are accepted");
        nb++;
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < w; j++) M.v[3 + i][at + j] = x[i][j];
    }
    M.m = 5;
}
static void check_sel(da_datastore s, const model &M, const char *key, int R, int C) {
    int nr = 0, nc = 0, ri[NR], ci[NC];
    bool one = true;
    if (!R) R = (1 << SR) - 1;
    if (!C) C = (1 << SC) - 1;
    for (int i = 0; i < SR; i++) if (R >> i & 1) ri[nr++] = i;
    for (int j = 0; j < SC; j++) if (C >> j & 1) { ci[nc++] = j; if (M.ty[j]) one = false; }
    for (int k = 0; k < 4; k++) { // extraction leaves the selection as it is
        da_order o = k & 1 ? row_major : column_major;
        int need = o == column_major ? nr : nc, ld = need + (k == 0) - (k == 3);
        bool ok = one && ld >= need;
        da_int out[40];
        for (int t = 0; t < 40; t++) out[t] = 55;
        da_status st = da_data_extract_selection(s, key, o, out, ld);
        if (ld < need) {
            sym_assert(st == da_status_invalid_input, "a leading dimension that is too small is rejected");
            continue;
        }
        sym_assert((st == da_status_success) == ok, "a selection of one type is extracted, others are rejected");
        for (int t = 0; t < 40; t++) {
            int i = o == column_major ? t % ld : t / ld, j = o == column_major ? t / ld : t % ld;
            if (i < nr && j < nc) { if (ok) sym_assert(out[t] == (da_int)M.v[ri[i]][ci[j]], "the extracted matrix is the rows and columns selected"); }
            else sym_assert(out[t] == 55, "nothing outside the extracted matrix is written");
        }
        if (ok) sym_reach("sel");
    }
}
// bit i of a set of indices is a term over the bounds chosen
static void cover(int *S, int n, int a, int b, int v) {
    for (int i = 0; i < n; i++) {
        int in = (a <= i) & (i <= b);
        S[i] = in * v + (1 - in) * S[i];
    }
}
static int bits(const int *S, int n) {
    int r = 0;
    for (int i = 0; i < n; i++) r |= (int)sym_conc(S[i]) << i;
    return r;
}
static void sel_history(int nops, int lay) {
    nb = nv = 0;
    model M = {};
    da_datastore s = nullptr;
    da_datastore_init(&s);
    build(s, M, lay);
    bool ex[2] = {false, false};
    int R[2][SR] = {}, C[2][SC] = {};
    static const char *no[] = {"op0", "op1", "op2"}, *na[] = {"a0", "a1", "a2"}, *nz[] = {"b0", "b1", "b2"}, *nk[] = {"k0", "k1", "k2"};
    const char *key[2] = {"first", "second"};
    for (int t = 0; t < nops; t++) {
        int op = (int)sym_choose(no[t], 0, 4), k = t ? (int)sym_choose(nk[t], 0, 1) : 0;
        bool rows = op == 0 || op == 3 || op == 2;
        int a, b; // the last bounds may lie outside the store
        if (t == nops - 1) a = edge(na[t], rows ? SR : SC), b = edge(nz[t], rows ? SR : SC);
        else a = (int)sym_choose(na[t], 0, (rows ? SR : SC) - 1), b = (int)sym_choose(nz[t], a, (rows ? SR : SC) - 1);
        bool in = a >= 0 && b < (rows ? SR : SC) && a <= b;
        da_status st;
        switch (op) {
        case 0: st = da_data_select_rows(s, key[k], a, b); break;
        case 1: st = da_data_select_columns(s, key[k], a, b); break;
        case 2: st = da_data_select_slice(s, key[k], a, b, 1, 2); break;
        case 3: st = da_data_select_remove_rows(s, key[k], a, b); break;
        default: st = da_data_select_remove_columns(s, key[k], a, b);
        }
        bool ok = in && (op < 3 || ex[k]);
        sym_assert(ok ? st == da_status_success : st == da_status_invalid_input, "selections within the store are accepted, others are rejected");
        if (!ok) continue;
        if (op < 3) ex[k] = true;
        if (op == 0 || op == 2) cover(R[k], SR, a, b, 1);
        if (op == 1) cover(C[k], SC, a, b, 1);
        if (op == 2) cover(C[k], SC, 1, 2, 1);
        if (op == 3) cover(R[k], SR, a, b, 0);
        if (op == 4) cover(C[k], SC, a, b, 0);
    }
    for (int k = 0; k < 2; k++) if (ex[k]) check_sel(s, M, key[k], bits(R[k], SR), bits(C[k], SC));
    int k = !ex[1];
    if (ex[0] && ex[1]) k = 2;
    if (k == 2) ;
    else if (ex[1 - k]) {
        da_int out[40];
        sym_assert(da_data_extract_selection(s, key[k], column_major, out, 9) == da_status_invalid_input, "a selection that does not exist is rejected");
    } else if (!lay) {
        da_int out[40];
        da_order o = order("ox");
        sym_assert(da_data_extract_selection(s, key[k], o, out, SR) == da_status_full_extraction, "without selections the whole store is extracted");
        for (int i = 0; i < SR; i++)
            for (int j = 0; j < SC; j++) sym_assert(out[o == column_major ? i + j * SR : j + i * SR] == (da_int)M.v[i][j], "without selections the whole store is extracted");
    }
    da_datastore_destroy(&s);
}
HARNESS(sel_ops) { sel_history(2 + TT, 0); }
HARNESS(sel_types) { sel_history(2, 1); }
// ---- missing data
static void missing(bool all) {
    nb = nv = 0;
    model M = {};
    da_datastore s = nullptr;
    da_datastore_init(&s);
    // columns 0, 1 integers in one block, column 2 doubles; rows 0..1 and row 2 in different blocks
    da_order o = order("o0");
    static const char *nm[3][3] = {{"m00", "m01", "m02"}, {"m10", "m11", "m12"}, {"m20", "m21", "m22"}};
    int mis[3][3];
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) {
            mis[i][j] = (int)sym_int(nm[i][j], 0, 1);
            int k = o == row_major ? (i % 2) * 2 + j : j * (i < 2 ? 2 : 1) + i % 2, b = i / 2;
            if (j < 2) ib[b][k] = mis[i][j] ? INT_MAX : 10 * i + j;
            else db[b][i % 2] = mis[i][j] ? NAN : 10 * i + j;
        }
    sym_assert(da_data_load_col(s, 2, 2, ib[0], o, 0) == da_status_success && da_data_load_col(s, 2, 1, db[0], o, 0) == da_status_success, "columns are accepted");
    sym_assert(da_data_load_row(s, 1, 2, ib[1], o, 0) == da_status_success && da_data_load_row(s, 1, 1, db[1], o, 0) == da_status_success, "rows are accepted");
    int full = (int)sym_choose("full", 0, 1), pre = (int)sym_choose("pre", 0, 2);
    int c0 = 0, c1 = 2, r0 = 0, r1 = 2;
    if (pre) {
        c0 = (int)sym_choose("c0", 0, 1), c1 = (int)sym_choose("c1", c0, 1);
        sym_assert(da_data_select_columns(s, "k", c0, c1) == da_status_success, "columns are selected");
    }
    if (pre == 2) {
        r0 = (int)sym_choose("r0", 0, 2), r1 = (int)sym_choose("r1", r0, 2);
        sym_assert(da_data_select_rows(s, "k", r0, r1) == da_status_success, "rows are selected");
    }
    int keep = 0, any[3];
    for (int i = r0; i <= r1; i++) {
        any[i] = 0;
        for (int j = full ? 0 : c0; j <= (full ? 2 : c1); j++) any[i] |= mis[i][j];
        if (!sym_conc(any[i])) keep |= 1 << i;
    }
    sym_assume(all == (keep == 0));
    sym_assert(da_data_select_non_missing(s, "k", full) == da_status_success, "the rows without missing data are selected");
    if (!pre) { // the selection now has rows only: look at the integer columns
        sym_assert(da_data_select_columns(s, "k", 0, 1) == da_status_success, "columns are selected");
        c1 = 1;
    }
    da_int out[12];
    for (int k = 0; k < 12; k++) out[k] = 55;
    sym_assert(da_data_extract_selection(s, "k", column_major, out, 3) == da_status_success, "the selection is extracted");
    for (int j = c0; j <= c1; j++) {
        int t = 0;
        for (int i = 0; i < 3; i++)
            if (keep >> i & 1) sym_assert(out[(j - c0) * 3 + t++] == (mis[i][j] ? INT_MAX : 10 * i + j), "exactly the rows without missing data remain");
        for (; t < 3; t++) sym_assert(out[(j - c0) * 3 + t] == 55, all ? "no row remains when all have missing data" : "exactly the rows without missing data remain");
    }
    da_datastore_destroy(&s);
    sym_reach("miss");
}
HARNESS(store_miss) { missing(false); }
HARNESS(store_miss_all) { missing(true); }
// ---- labels
static const char *LB[] = {"a", "bb", "ccc"};
static void labels(da_datastore s, int n, const int *lab) {
    for (int j = 0; j < n; j++) {
        char t[8] = "zzzzzzz";
        da_int z = 8;
        sym_assert(da_data_get_col_label(s, j, &z, t) == da_status_success, "the label of a column can be queried");
        sym_assert(!strcmp(t, lab[j] < 0 ? "" : LB[lab[j]]), "a column has the label last given to it");
        if (lab[j] >= 0) {
            z = (da_int)strlen(LB[lab[j]]);
            t[0] = 'q';
            sym_assert(da_data_get_col_label(s, j, &z, t) == da_status_invalid_input && z == (da_int)strlen(LB[lab[j]]) + 1 && t[0] == 'q', "a label that does not fit is not written, its size is returned");
        }
    }
    for (int l = 0; l < 3; l++) {
        da_int j = 77;
        bool used = false;
        for (int k = 0; k < n; k++) used |= lab[k] == l;
        da_status st = da_data_get_col_idx(s, LB[l], &j);
        sym_assert((st == da_status_success) == used, "a label designates a column exactly when one has it");
        sym_assert(used ? j >= 0 && j < n && lab[j] == l : j == 77, "a label designates a column that has it");
    }
    char t[8];
    da_int z = 8;
    sym_assert(da_data_get_col_label(s, n, &z, t) == da_status_invalid_input && da_data_get_col_label(s, -1, &z, t) == da_status_invalid_input && da_data_label_column(s, "a", n) == da_status_invalid_input && da_data_label_column(s, "a", -1) == da_status_invalid_input, "columns outside the store have no label");
}
HARNESS(store_labels) {
    nb = nv = 0;
    model M = {};
    da_datastore s = nullptr;
    da_datastore_init(&s);
    load_cols(s, M, 0, 1, 2, row_major, 1), load_cols(s, M, 1, 1, 1, row_major, 1);
    int lab[4] = {-1, -1, -1, -1};
    static const char *nl[] = {"l0", "l1", "l2", "l3"}, *nc[] = {"c0", "c1", "c2", "c3"};
    for (int k = 0; k < 3 + TT; k++) {
        int l = (int)sym_choose(nl[k], 0, 2), c = (int)sym_choose(nc[k], 0, 2);
        sym_assert(da_data_label_column(s, LB[l], c) == da_status_success, "a column can be labelled");
        lab[c] = l;
        if (k == 1) load_cols(s, M, 0, 1, 1, row_major, 1);
    }
    labels(s, 4, lab);
    sym_reach("lab");
    da_datastore_destroy(&s);
}
HARNESS(store_hconcat) {
    sym_leakmark();
    nb = nv = 0;
    model M = {}, N = {};
    da_datastore s = nullptr, t = nullptr;
    da_datastore_init(&s), da_datastore_init(&t);
    int lab[NC] = {-1, -1, -1, -1, -1}, lt[3] = {-1, -1, -1};
    int ns = (int)sym_choose("ns", 0, 1), extra = (int)sym_choose("extra", 0, 2);
    da_order o = order("o0");
    if (ns) {
        load_cols(s, M, 0, 2, 1, o, 1), load_cols(s, M, 1, 2, 1, o, 1);
        int l = (int)sym_choose("l0", -1, 1), j = (int)sym_choose("j0", 0, 1);
        if (l >= 0) da_data_label_column(s, LB[l], j), lab[j] = l;
    }
    int mt = !ns ? 0 : (int)sym_choose("rows", 1, 2);
    if (mt) {
        load_cols(t, N, 0, mt, 2, o, 1), load_cols(t, N, 1, mt, 1, o, 1);
        int l = (int)sym_choose("l1", -1, 1), j = (int)sym_choose("j1", 0, 2);
        if (l >= 0) da_data_label_column(t, LB[l], j), lt[j] = l;
    }
    int part = 0;
    if (mt && extra) { // the second store has a row block that spans both or one of its parts
        double x[NR][NC];
        fill(0, 1, 2, o, x);
        sym_assert(load(true, t, 0, 1, 2, o, 1) == da_status_success, "rows that span the columns of one type are accepted");
        nb++;
        for (int j = 0; j < 2; j++) N.v[mt][j] = x[0][j];
        N.m++;
        part = 1;
        if (extra == 2) {
            fill(1, 1, 1, o, x);
            sym_assert(load(true, t, 1, 1, 1, o, 1) == da_status_success, "rows that span the columns of one type are accepted");
            nb++;
            N.v[mt][2] = x[0][0];
            part = 0;
        }
    }
    bool ok = M.m == N.m && !part;
    da_datastore u = s;
    sym_assert(da_data_hconcat(&s, &u) == da_status_invalid_input && s, "a store cannot be concatenated with itself");
    da_status st = da_data_hconcat(&s, &t);
    sym_assert(ok ? st == da_status_success && !t : st == da_status_invalid_input && t, "stores with the same rows are concatenated, others are rejected");
    if (ok) {
        for (int j = 0; j < N.n; j++) {
            M.ty[M.n + j] = N.ty[j], lab[M.n + j] = lt[j];
            for (int i = 0; i < N.m; i++) M.v[i][M.n + j] = N.v[i][j];
        }
        M.n += N.n, M.m = N.m;
        if (M.n) sym_reach("hcat");
    } else if (!part) {
        if (N.n) expect(t, N), labels(t, N.n, lt);
        da_datastore_destroy(&t);
    } else da_datastore_destroy(&t);
    if (M.n) {
        expect(s, M), labels(s, M.n, lab);
        if (!ok || M.n < NC) sym_assert(load_cols(s, M, 1, M.m, 1, o, 1) == da_status_success, "columns with the right number of rows are accepted");
        expect(s, M);
    }
    da_datastore_destroy(&s);
    sym_leakcheck();
}
