// The CSV tokenizer against a direct reading of the text.
#include "sym.h"
#include "tokenizer.h"
#include <cstdlib>
#include <cstring>
#ifdef TIER_THOROUGH
#define TT 1
#else
#define TT 0
#endif
enum { MAXT = 700, MAXF = 24, MAXR = 60, MAXW = 60 };
struct src { const char *t; int n, pos; };
static void *feed(void *s, size_t nb, size_t *got, int *status, const char *) {
    src *f = (src *)s;
    size_t k = f->n - f->pos < (int)nb ? f->n - f->pos : nb;
    char *b = (char *)malloc(k < 4 ? 4 : k);
    memset(b, 0, 4);
    memcpy(b, f->t + f->pos, k);
    f->pos += (int)k, *got = k, *status = k ? 0 : REACHED_EOF;
    return b;
}
struct cfg { bool ws, skipempty, dbl, skipinit; int skipfirst, skiprow; };
// reference: rows of fields
struct rows {
    int nr, err;
    int nf[MAXR];
    int len[MAXR][MAXF > 8 ? 8 : MAXF];
    char f[MAXR][8][MAXW];
    int skipped;
};
static rows R;
static const char *T;
static int TN;
static bool eol(int p) { return T[p] == '\n' || T[p] == '\r'; }
static int endl(int p) { return p < TN && T[p] == '\r' && p + 1 < TN && T[p + 1] == '\n' ? p + 2 : p < TN ? p + 1 : p; }
static bool blank(char c) { return c == ' ' || c == '\t'; }
// text of one field from p; comment or end of line or delimiter ends it
static int field(int p, const cfg &c, char *o, int &n) {
    n = 0;
    if (c.skipinit && !c.ws) while (p < TN && T[p] == ' ') p++;
    bool start = true;
    while (p < TN) {
        char x = T[p];
        if (eol(p) || x == '#' || (c.ws ? blank(x) : x == ',')) return p;
        if (start && x == '"') {
            p++;
            for (;; p++) {
                if (p >= TN) { R.err = 1; return p; }
                if (T[p] == '\\') { if (p + 1 >= TN) { R.err = 1; return TN; } o[n++] = T[++p]; continue; }
                if (T[p] != '"') { o[n++] = T[p]; continue; }
                if (c.dbl && p + 1 < TN && T[p + 1] == '"') { o[n++] = '"'; p++; continue; }
                p++;
                break;
            }
            if (c.dbl && p < TN && !eol(p) && !(c.ws ? blank(T[p]) : T[p] == ',')) o[n++] = T[p++]; // whatever follows the closing quote is text
        } else if (x == '\\') {
            if (p + 1 >= TN) { R.err = 1; return TN; }
            o[n++] = T[p + 1], p += 2;
        } else o[n++] = x, p++;
        start = false;
    }
    return p;
}
static int skipline(int p, const cfg &c) {
    bool start = true;
    while (p < TN && !eol(p)) {
        if (start && T[p] == '"') {
            p++;
            while (p < TN && !(T[p] == '"' && !(c.dbl && p + 1 < TN && T[p + 1] == '"'))) p += T[p] == '"' ? 2 : 1;
            if (p < TN) p++;
            start = false;
        } else start = !c.ws ? T[p] == ',' : blank(T[p]), p++;
    }
    return endl(p);
}
static void reference(const cfg &c) {
    R.nr = R.err = R.skipped = 0;
    int p = 0, line = 0;
    while (p < TN) {
        int q = p;
        if (line < c.skipfirst || line == c.skiprow) { p = skipline(p, c), line++; continue; }
        if (c.ws) { // leading blanks never belong to a field
            while (q < TN && blank(T[q])) q++;
            if (c.skipempty && q > p && (q >= TN || eol(q))) { p = endl(q), line++; continue; }
        }
                if (q == p && eol(p) && c.skipempty) { p = endl(p), line++, R.skipped++; continue; }
        if (q == p && T[p] == '#') { while (p < TN && !eol(p)) p++; p = endl(p), line++; continue; }
        if (!c.ws && c.skipempty) {
            int b = p;
            while (b < TN && blank(T[b])) b++;
            if (b > p && (b >= TN || eol(b))) { p = endl(b), line++; continue; }
        }
        int k = R.nr, nf = 0;
        p = q;
        if (p < TN && !eol(p) && !(c.ws && T[p] == '#')) {
            for (;;) {
                p = field(p, c, R.f[k][nf], R.len[k][nf]);
                if (R.err) return;
                nf++;
                if (p >= TN || eol(p) || T[p] == '#') break;
                if (c.ws) { while (p < TN && blank(T[p])) p++; if (p >= TN || eol(p) || T[p] == '#') break; }
                else if (++p >= TN) { R.len[k][nf++] = 0; break; }
            }
        }
        while (p < TN && !eol(p)) p++;
        p = endl(p), line++;
        for (int want = k ? R.nf[k - 1] : 0; nf < want; nf++) R.len[k][nf] = 0; // missing trailing fields
        R.nf[k] = nf, R.nr++;
    }
}
static parser_t *mk(const cfg &c, src *s) {
    parser_t *p = parser_new();
    parser_init(p);
    parser_set_default_options(p);
    p->cb_io = feed, p->cb_cleanup = nullptr, p->source = s;
    p->escapechar = '\\', p->doublequote = c.dbl, p->skipinitialspace = c.skipinit, p->skip_empty_lines = c.skipempty, p->delim_whitespace = c.ws;
    if (c.skipfirst) parser_set_skipfirstnrows(p, c.skipfirst);
    if (c.skiprow >= 0) parser_add_skiprow(p, c.skiprow);
    return p;
}
static void check(const char *t, int n, const cfg &c, int chunk) {
    T = t, TN = n;
    reference(c);
    src s = {t, n, 0};
    sym_leakmark();
    parser_t *p = mk(c, &s);
    if (chunk) p->chunksize = chunk;
    int st = tokenize_all_rows(p, nullptr);
    sym_assert((st != 0) == (R.err != 0), "an unterminated quote or escape is an error and nothing else is");
    if (!R.err) {
        sym_assert((int)p->lines == R.nr, "every data line gives one row");
        bool ok = true, shape = true;
        long w = 0;
        for (int i = 0; i < R.nr && i < (int)p->lines; i++) {
            shape &= p->line_fields[i] == R.nf[i] && p->line_start[i] == w;
            for (int j = 0; shape && j < R.nf[i]; j++) {
                const char *g = p->words[w + j];
                for (int z = 0; z < R.len[i][j]; z++) ok &= g[z] == R.f[i][j][z];
                ok &= g[R.len[i][j]] == 0;
            }
            w += R.nf[i];
            sym_assert(shape, "every row has the fields of its line");
            sym_assert(ok, "every field is the text between its delimiters");
        }
        sym_assert((long)p->words_len == w, "no further fields");
        sym_reach("tok");
    }
    parser_free(p), parser_del(p);
    sym_leakcheck();
}
static int text(char *t, int maxn) {
    int n = (int)sym_choose("len", 0, maxn);
    for (int i = 0; i < n; i++) t[i] = (char)sym_int("c", 1, 127);
    return n;
}
HARNESS(tok_plain) {
    char t[8];
    int n = text(t, 5 + TT);
    cfg c = {false, sym_choose("skipempty", 0, 1) != 0, sym_choose("double", 0, 1) != 0, sym_choose("skipinit", 0, 1) != 0, 0, -1};
    check(t, n, c, 0);
}
HARNESS(tok_ws) {
    char t[8];
    int n = text(t, 5 + TT);
    cfg c = {true, sym_choose("skipempty", 0, 1) != 0, false, false, 0, -1};
    check(t, n, c, 0);
}
HARNESS(tok_skip) {
    char t[16];
    int n = text(t, 5 + TT);
    int k = (int)sym_choose("mode", 0, 2);
    cfg c = {sym_choose("ws", 0, 1) != 0, sym_choose("skipempty", 0, 1) != 0, false, false, k == 0 ? 1 : k == 1 ? 2 : 0, k == 2 ? 1 : -1};
    memcpy(t + n, "\nb,c\nd", 6);
    check(t, n + 6, c, 0);
}
HARNESS(tok_chunk) {
    char t[16];
    memcpy(t, "x,y\n", 4);
    int n = text(t + 4, 4 + TT) + 4;
    memcpy(t + n, ",q\n", 3), n += 3;
    cfg c = {sym_choose("ws", 0, 1) != 0, sym_choose("skipempty", 0, 1) != 0, sym_choose("double", 0, 1) != 0, false, 0, sym_choose("skip", 0, 1) ? 1 : -1};
    check(t, n, c, (int)sym_choose("chunk", 1, 3));
}
HARNESS(tok_grow) {
    static char t[MAXT];
    int n = 0, rows = (int)sym_choose("rows", 0, 3) * 9, w = (int)sym_choose("width", 1, 4), chunk = (int)sym_choose("chunk", 0, 3);
    static const int C[] = {0, 1, 7, 64};
    bool bom = sym_choose("bom", 0, 1);
    if (bom && C[chunk] && C[chunk] < 3) return;
    if (bom) memcpy(t, "\xef\xbb\xbf", 3), n = 3;
    int base = n;
    for (int i = 0; i < rows; i++) {
        for (int j = 0; j < w; j++) { if (j) t[n++] = ','; for (int k = 0; k < (i + j) % 4; k++) t[n++] = (char)('a' + (i + j + k) % 20); }
        if (i % 3 == 1) t[n++] = '\r';
        t[n++] = '\n';
    }
    for (int i = 0; i < 2; i++) t[n++] = (char)sym_int("c", 1, 127);
    t[n++] = 'z';
    cfg c = {false, false, false, false, 0, -1};
    if (!bom) { check(t, n, c, C[chunk]); return; }
    // the byte order mark is not data
    T = t + base, TN = n - base;
    reference(c);
    src s = {t, n, 0};
    parser_t *p = mk(c, &s);
    if (C[chunk]) p->chunksize = C[chunk];
    int st = tokenize_all_rows(p, nullptr);
    sym_assert((st != 0) == (R.err != 0), "status");
    if (!R.err) {
        sym_assert((int)p->lines == R.nr, "every data line gives one row");
        sym_assert(p->lines == 0 || (p->line_fields[0] == R.nf[0] && (R.nf[0] == 0 || !memcmp(p->words[0], R.f[0][0], R.len[0][0]))), "the first field starts after the byte order mark");
    }
    parser_free(p), parser_del(p);
}
