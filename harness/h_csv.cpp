// CSV files read into arrays and data stores, against the fields they were made of.
#include "aoclda.h"
#include "aoclda_cpp_overloads.hpp"
#include "da_datastore.hpp"
#include "options.hpp"
#include "sym.h"
#include <climits>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
// the file: these replace the stdio functions the reader uses (by the linker, in replays)
#ifdef VF_NATIVE
#define STDIO(f) __wrap_##f
#else
#define STDIO(f) f
#endif
static const char *file_text;
static size_t file_len, file_pos;
static int file_open;
extern "C" {
FILE *STDIO(fopen)(const char *name, const char *) {
    if (strcmp(name, "there")) return nullptr;
    file_pos = 0, file_open++;
    return (FILE *)&file_open;
}
size_t STDIO(fread)(void *b, size_t sz, size_t n, FILE *f) {
    sym_assert(f == (FILE *)&file_open && file_open == 1, "only an open file is read");
    size_t k = file_len - file_pos < sz * n ? file_len - file_pos : sz * n;
    memcpy(b, file_text + file_pos, k);
    file_pos += k;
    return k;
}
int STDIO(fclose)(FILE *f) {
    sym_assert(f == (FILE *)&file_open && file_open == 1, "a file is closed once");
    file_open--;
    return 0;
}
int STDIO(ferror)(FILE *) { return 0; }
}
enum { MR = 4, MC = 4 };
enum kind { K_INT, K_FP, K_BOOL, K_STR, K_NONE };
struct cell { kind k; double v; char t[8]; };
static cell T[MR][MC];
static int nf[MR], nl;
static char text[120];
static const char *dn[] = {"d0", "d1", "d2"};
static int nd;
static void make(cell &c, kind k, int salt) {
    c.k = k;
    char d = (char)('0' + (nd < 3 ? sym_int(dn[nd++], 0, 9) : salt % 10));
    switch (k) {
    case K_INT: strcpy(c.t, salt % 2 ? "-41" : "31"); c.t[salt % 2 ? 2 : 1] = d; c.v = salt % 2 ? -(40 + (d - '0')) : 30 + (d - '0'); break;
    case K_FP: strcpy(c.t, "2.5e1"); c.t[0] = d; c.v = 10 * (d - '0') + 5; break;
    case K_BOOL: strcpy(c.t, salt % 2 ? "TRUE" : "false"); c.v = salt % 2; break;
    case K_STR: strcpy(c.t, salt % 3 ? "ab" : "x"); break;
    }
}
static void assemble(bool last_newline) {
    int p = 0;
    for (int i = 0; i < nl; i++) {
        for (int j = 0; j < nf[i]; j++) {
            if (j) text[p++] = ',';
            for (const char *q = T[i][j].t; *q; q++) text[p++] = *q;
        }
        if (i < nl - 1 || last_newline) text[p++] = '\n';
    }
    file_text = text, file_len = (size_t)p;
}
// a line with fewer fields than the first is filled up with empty ones, one with more is an error
static bool fill(int footer = 0) {
    for (int i = 1; i < nl - footer; i++) {
        if (nf[i] > nf[0]) return false;
        for (; nf[i] < nf[0]; nf[i]++) T[i][nf[i]] = {K_NONE, 0, ""};
    }
    return true;
}
static kind pick(const char *n, int hi) { return (kind)sym_choose(n, 0, hi); }
static void layout(int rows, int cols, int header, int footer, int ragged, int delta) {
    nl = header + rows + footer;
    for (int i = 0; i < nl; i++) nf[i] = cols;
    if (ragged >= 0 && ragged < nl) nf[ragged] += delta;
}
template <class X> static bool conv(const cell &c, X &v) {
    bool ok = sizeof(X) == 1 ? c.k == K_BOOL : c.k == K_INT || (c.k == K_FP && (X)0.5 != 0);
    if (ok) v = (X)c.v;
    return ok;
}
template <class X> static X missing_value();
template <> double missing_value<double>() { return NAN; }
template <> float missing_value<float>() { return NAN; }
template <> da_int missing_value<da_int>() { return INT_MAX; }
template <> uint8_t missing_value<uint8_t>() { return 255; }
template <class X> static bool same(X a, X b) { return a == b || (a != a && b != b); }
// one read into an array; the expected outcome follows from T, nf and nl
template <class X> static void read_array(da_datastore s, bool header, bool footer, bool warn, bool rowmaj) {
    X *a = (X *)s;
    da_int nr = 77, nc = 77;
    char **hd = nullptr;
    da_status st = da_read_csv(s, "there", &a, &nr, &nc, &hd);
    int n = nl - header - footer, c = nf[0];
    bool ragged = !fill(footer), miss = false;
    sym_assert(!file_open, "the file is closed again");
    X v;
    if (!ragged) for (int i = 0; i < n; i++) for (int j = 0; j < c; j++) miss |= !conv(T[header + i][j], v);
    if (n <= 0 || ragged || (miss && !warn)) {
        sym_assert(st == da_status_parsing_error, "a file without data, with lines that are too long or with fields of another type is an error");
        sym_assert(!a && !nr, "no data is returned with an error");
        if (hd && n <= 0) da_delete_string_array(&hd, nc);
        sym_assert(!hd, "no headings are returned with an error");
        sym_reach("bad");
        return;
    }
    sym_assert(st == (miss ? da_status_missing_data : da_status_success), "a complete file is read, missing data is reported");
    sym_assert(nr == n && nc == c, "the array has the rows and columns of the file");
    for (int i = 0; i < n; i++)
        for (int j = 0; j < c; j++) {
            if (!conv(T[header + i][j], v)) v = missing_value<X>();
            sym_assert(same(a[rowmaj ? i * c + j : i + j * n], v), "each element is the field at its place");
        }
    free(a);
    sym_assert(!!hd == header, "headings are returned when asked for");
    if (header) {
        for (int j = 0; j < c; j++) sym_assert(!strcmp(hd[j], T[0][j].t), "the headings are the fields of the first line");
        da_delete_string_array(&hd, c);
    }
    sym_reach("read");
}
static void set(da_datastore s, const char *o, da_int v) { sym_assert(da_datastore_options_set(s, o, v) == da_status_success, "the option can be set"); }
static void set(da_datastore s, const char *o, const char *v) { sym_assert(da_datastore_options_set(s, o, v) == da_status_success, "the option can be set"); }
template <class X> static void arrays() {
    nd = 0;
    bool header = sym_choose("header", 0, 1), footer = sym_choose("footer", 0, 1), warn = sym_choose("warn", 0, 1), rowmaj = sym_choose("order", 0, 1);
    int rows = (int)sym_choose("rows", 0, 2), cols = (int)sym_choose("cols", 1, 2), rag = (int)sym_choose("ragged", -1, 3);
    sym_assume(rag < header + rows + footer);
    layout(rows, cols, header, footer, rag, rag >= 0 && sym_choose("more", 0, 1) ? 1 : cols > 1 ? -1 : 1);
    kind odd = pick("odd", 3), base = sizeof(X) == 1 ? K_BOOL : K_INT;
    for (int i = 0; i < nl; i++)
        for (int j = 0; j < nf[i]; j++) make(T[i][j], i == 0 && header ? K_STR : i == header && j == 0 ? odd : base, i * 3 + j + 1);
    assemble(sym_choose("nl", 0, 1));
    da_datastore s = nullptr;
    da_datastore_init(&s);
    set(s, "use header row", header), set(s, "skip footer", footer), set(s, "warn for missing data", warn);
    set(s, "storage order", rowmaj ? "row-major" : "column-major");
    read_array<X>(s, header, footer, warn, rowmaj);
    // the next read does not depend on this one
    set(s, "use header row", 0), set(s, "skip footer", 0), set(s, "warn for missing data", 0);
    layout(2, 2, 0, 0, -1, 0);
    for (int i = 0; i < nl; i++)
        for (int j = 0; j < nf[i]; j++) make(T[i][j], base, i + 2 * j);
    assemble(true);
    read_array<X>(s, false, false, false, rowmaj);
    X *a = nullptr;
    da_int r, c;
    char **hd = nullptr;
    sym_assert(da_read_csv(s, "not there", &a, &r, &c, &hd) == da_status_file_reading_error && !a && !hd, "a file that cannot be opened is an error");
    da_datastore_destroy(&s);
}
HARNESS(csv_f64) { arrays<double>(); }
HARNESS(csv_f32) { arrays<float>(); }
HARNESS(csv_int) { arrays<da_int>(); }
HARNESS(csv_bool) { arrays<uint8_t>(); }
// strings: the fields, whatever they look like
HARNESS(csv_str) {
    sym_leakmark();
    nd = 0;
    bool header = sym_choose("header", 0, 1), rowmaj = sym_choose("order", 0, 1);
    int rows = (int)sym_choose("rows", 0, 2), cols = (int)sym_choose("cols", 1, 2), rag = (int)sym_choose("ragged", -1, 2);
    sym_assume(rag < header + rows);
    layout(rows, cols, header, 0, rag, 1);
    for (int i = 0; i < nl; i++)
        for (int j = 0; j < nf[i]; j++) make(T[i][j], (kind)((i + j) % 4), i * 3 + j + 1);
    assemble(true);
    da_datastore s = nullptr;
    da_datastore_init(&s);
    set(s, "use header row", header), set(s, "storage order", rowmaj ? "row-major" : "column-major");
    char **a = (char **)s, **hd = nullptr;
    da_int nr = 77, nc = 77;
    da_status st = da_read_csv(s, "there", &a, &nr, &nc, &hd);
    bool ok = fill();
    cols = nf[0];
    if (rows == 0 || !ok) {
        sym_assert(st == da_status_parsing_error && !a && !nr, "a file without data or with lines that are too long is an error");
        if (hd) da_delete_string_array(&hd, nc);
    } else {
        sym_assert(st == da_status_success && nr == rows && nc == cols && !!hd == header, "the array has the rows and columns of the file");
        for (int i = 0; i < rows; i++)
            for (int j = 0; j < cols; j++) sym_assert(!strcmp(a[rowmaj ? i * cols + j : i + j * rows], T[header + i][j].t), "each element is the field at its place");
        sym_assert(da_delete_string_array(&a, nr * nc) == da_status_success && !a, "the strings can be released");
        if (header) da_delete_string_array(&hd, nc);
        sym_reach("read");
    }
    da_datastore_destroy(&s);
    sym_leakcheck();
}
// ---- data stores: the type of each column is the narrowest that holds its fields
template <class X> static void column(da_datastore s, int j, int n, int header, bool ok) {
    X c[MR];
    da_status st = da_data_extract_column(s, j, n, c);
    sym_assert((st == da_status_success) == ok, "a column has the narrowest type that holds its fields");
    if (ok) for (int i = 0; i < n; i++) sym_assert(same(c[i], (X)T[header + i][j].v), "each element is the field at its place");
}
static void check_store(da_datastore s, int rows, int cols, int header, bool fpint, bool single) {
    da_int r = 0, c = 0;
    sym_assert(da_data_get_n_rows(s, &r) == da_status_success && da_data_get_n_cols(s, &c) == da_status_success && r == rows && c == cols, "the store has the rows and columns of the file");
    for (int j = 0; j < cols; j++) {
        int seen = 0;
        for (int i = 0; i < rows; i++) seen |= 1 << (T[header + i][j].k == K_INT && fpint ? K_FP : T[header + i][j].k);
        kind k = seen == 1 << K_INT ? K_INT : !(seen & ~(1 << K_INT | 1 << K_FP)) ? K_FP : seen == 1 << K_BOOL ? K_BOOL : K_STR;
        column<da_int>(s, j, rows, header, k == K_INT);
        column<double>(s, j, rows, header, k == K_FP && !single);
        column<float>(s, j, rows, header, k == K_FP && single);
        column<uint8_t>(s, j, rows, header, k == K_BOOL);
        char *w[MR];
        da_status st = da_data_extract_column(s, j, rows, w);
        sym_assert((st == da_status_success) == (k == K_STR), "a column has the narrowest type that holds its fields");
        if (k == K_STR) for (int i = 0; i < rows; i++) sym_assert(!strcmp(w[i], T[header + i][j].t), "each element is the field at its place");
        if (header) {
            char l[8];
            da_int z = 8;
            sym_assert(da_data_get_col_label(s, j, &z, l) == da_status_success && !strcmp(l, T[0][j].t), "the columns are labelled with the headings");
        }
    }
}
static void detect(int rows, int cols) {
    sym_leakmark();
    nd = 0;
    bool header = sym_choose("header", 0, 1), rowmaj = sym_choose("order", 0, 1), fpint = sym_choose("fpint", 0, 1), single = sym_choose("single", 0, 1);
    static const char *nm[] = {"k0", "k1", "k2", "k3", "k4", "k5"};
    layout(rows, cols, header, 0, -1, 0);
    for (int i = 0; i < nl; i++)
        for (int j = 0; j < cols; j++) make(T[i][j], i < header ? K_STR : pick(nm[(i - header) * cols + j], 3), i * 3 + j + 1);
    assemble(true);
    da_datastore s = nullptr;
    da_datastore_init(&s);
    set(s, "use header row", header), set(s, "integers as floats", fpint), set(s, "storage order", rowmaj ? "row-major" : "column-major");
    set(s, "datastore precision", single ? "single" : "double");
    sym_assert(da_data_load_from_csv(s, "there") == da_status_success, "a complete file is read");
    check_store(s, rows, cols, header, fpint, single);
    sym_assert(da_data_load_from_csv(s, "there") != da_status_success, "a store that holds data is not overwritten");
    check_store(s, rows, cols, header, fpint, single);
    sym_reach("auto");
    da_datastore_destroy(&s);
    sym_leakcheck();
}
HARNESS(csv_auto) { detect(3, 1); }
HARNESS(csv_auto2) { detect(2, 2); }
// one type for the whole file
HARNESS(csv_typed) {
    sym_leakmark();
    nd = 0;
    bool header = sym_choose("header", 0, 1), rowmaj = sym_choose("order", 0, 1), warn = sym_choose("warn", 0, 1);
    int t = (int)sym_choose("type", 0, 5), rag = (int)sym_choose("ragged", -1, 2);
    static const char *nm[] = {"integer", "double", "boolean", "string", "float", "auto"}, *kn[] = {"k0", "k1"};
    sym_assume(rag < header + 2);
    layout(2, 2, header, 0, rag, rag >= 0 && sym_choose("more", 0, 1) ? 1 : -1);
    for (int i = 0; i < nl; i++)
        for (int j = 0; j < nf[i]; j++) make(T[i][j], i < header ? K_STR : j ? (t == 2 ? K_BOOL : K_INT) : pick(kn[i - header], 3), i * 3 + j + 1);
    assemble(true);
    da_datastore s = nullptr;
    da_datastore_init(&s);
    set(s, "use header row", header), set(s, "storage order", rowmaj ? "row-major" : "column-major"), set(s, "datatype", nm[t]), set(s, "warn for missing data", warn);
    da_status st = da_data_load_from_csv(s, "there");
    bool miss = false, ok = fill();
    int cols = nf[0];
    double v;
    da_int vi;
    uint8_t vb;
    if (ok)
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < cols; j++) miss |= t == 0 ? !conv(T[header + i][j], vi) : t == 1 || t == 4 ? !conv(T[header + i][j], v) : t == 2 ? !conv(T[header + i][j], vb) : false;
    da_int r = 0, c = 0;
    da_data_get_n_rows(s, &r), da_data_get_n_cols(s, &c);
    if (!ok || (miss && !warn)) {
        sym_assert(st == da_status_parsing_error && !r && !c, "a file with lines that are too long or with fields of another type is an error");
        sym_reach("bad");
    } else {
        sym_assert(st == (miss ? da_status_missing_data : da_status_success) && r == 2 && c == cols, "a complete file is read, missing data is reported");
        for (int j = 0; j < cols && t < 5; j++) {
            da_int a[2];
            double d[2];
            float f[2];
            uint8_t b[2];
            char *w[2];
            bool ok = (da_data_extract_column(s, j, 2, a) == da_status_success) == (t == 0) && (da_data_extract_column(s, j, 2, d) == da_status_success) == (t == 1) && (da_data_extract_column(s, j, 2, b) == da_status_success) == (t == 2) && (da_data_extract_column(s, j, 2, w) == da_status_success) == (t == 3) && (da_data_extract_column(s, j, 2, f) == da_status_success) == (t == 4);
            sym_assert(ok, "the columns have the type asked for");
            for (int i = 0; i < 2; i++) {
                const cell &x = T[header + i][j];
                bool eq = true;
                if (t == 0) eq = a[i] == (conv(x, vi) ? vi : INT_MAX);
                if (t == 1) eq = same(d[i], conv(x, v) ? v : (double)NAN);
                if (t == 4) eq = same(f[i], conv(x, v) ? (float)v : NAN);
                if (t == 2) eq = b[i] == (conv(x, vb) ? vb : 255);
                if (t == 3) eq = !strcmp(w[i], x.t);
                sym_assert(eq, "each element is the field at its place");
            }
        }
        sym_reach("typed");
    }
    da_datastore_destroy(&s);
    sym_leakcheck();
}
