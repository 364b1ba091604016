// Conversion of CSV fields against a direct reading of the text.
#include "sym.h"
#include "char_to_num.hpp"
#include <cstdlib>
#include <cstring>
#ifdef TIER_THOROUGH
#define TT 1
#else
#define TT 0
#endif
static bool sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static bool dg(char c) { return c >= '0' && c <= '9'; }
static char up(char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; }
static void any_text(char *t, int n) {
    static const char *nm[] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7"};
    for (int i = 0; i < n; i++) t[i] = (char)sym_int(nm[i], -128, 127);
    t[n] = 0;
}
static void setup(parser_t *p) {
    memset(p, 0, sizeof *p);
    p->decimal = '.', p->sci = 'E', p->skip_trailing = 1;
    p->int_max = INT64_MAX, p->int_min = INT64_MIN;
}
// ---- integers
static bool ref_int(const char *t, char tsep, unsigned long hi, bool &neg, unsigned long &v) {
    int p = 0;
    neg = false;
    while (sp(t[p])) p++;
    if (t[p] == '-') neg = true, p++;
    else if (t[p] == '+') p++;
    if (!dg(t[p])) return false;
    v = 0;
    if (neg) hi++;
    for (; dg(t[p]) || (tsep && t[p] == tsep); p++)
        if (dg(t[p])) {
            unsigned long d = (unsigned long)(t[p] - '0');
            if (v > hi / 10 || v * 10 > hi - d) return false;
            v = v * 10 + d;
        }
    while (sp(t[p])) p++;
    return !t[p];
}
template <class I> static void check_int(const char *t, parser_t *ps, I hi) {
    unsigned long w = 0;
    bool neg, ok = ref_int(t, ps->thousands, (unsigned long)hi, neg, w);
    I v = 7;
    char *e = nullptr;
    int mi = -1;
    da_status st = da_csv::char_to_num(ps, t, &e, &v, &mi);
    sym_assert(st == da_status_success || st == da_status_parsing_error, "the conversion succeeds or reports a parsing error");
    sym_assert((st == da_status_success) == ok, "an integer is accepted exactly when the text is one that fits");
    if (ok) {
        sym_assert(v == (I)(neg ? 0 - w : w), "the integer is the one written");
        sym_assert(mi == 1, "integers are marked as integers");
        sym_reach("num");
    }
}
template <class I> static void num_int() {
    parser_t ps;
    setup(&ps);
    ps.thousands = sym_choose("tsep", 0, 1) ? ',' : 0;
    int n = (int)sym_choose("n", 0, 4 + TT);
    char *t = (char *)malloc(n + 1);
    any_text(t, n);
    check_int<I>(t, &ps, std::numeric_limits<I>::max());
    free(t);
}
template <class I> static void num_edge(const char *pre) {
    parser_t ps;
    setup(&ps);
    ps.thousands = sym_choose("tsep", 0, 1) ? '.' : 0;
    static const char *sg[] = {"", "-", "+", " -"};
    char *t = (char *)malloc(40);
    strcpy(t, sg[sym_choose("sign", 0, 3)]);
    if (sym_choose("zero", 0, 1)) strcat(t, "00");
    strcat(t, pre);
    int k = (int)strlen(t);
    int n = (int)sym_choose("n", 1, 2);
    any_text(t + k, n);
    check_int<I>(t, &ps, std::numeric_limits<I>::max());
    free(t);
}
HARNESS(num_i32) { num_int<int32_t>(); }
HARNESS(num_i64) { num_int<int64_t>(); }
HARNESS(num_e32) { num_edge<int32_t>("214748364"); }
HARNESS(num_e64) { num_edge<int64_t>("922337203685477580"); }
// ---- floating point
struct fpref { bool any, ok; bool neg; long m; int ex; bool ovf, isint; };
template <class F> static fpref ref_fp(const char *t, const parser_t *ps) {
    fpref r = {false, true, false, 0, 0, false, true};
    int p = 0;
    while (sp(t[p])) p++;
    if (t[p] == '-') r.neg = true, p++;
    else if (t[p] == '+') p++;
    while (dg(t[p])) {
        r.any = true, r.m = r.m * 10 + (t[p] - '0'), p++;
        if (ps->thousands && t[p] == ps->thousands) p++;
    }
    if (t[p] == ps->decimal) {
        r.isint = false;
        for (p++; dg(t[p]); p++) r.any = true, r.m = r.m * 10 + (t[p] - '0'), r.ex--;
    }
    if (!r.any) return r;
    if (up(t[p]) == up(ps->sci)) {
        int q = p + 1, s = 1, x = 0;
        r.isint = false;
        if (t[q] == '-') s = -1, q++;
        else if (t[q] == '+') q++;
        for (; dg(t[q]); q++) x = x * 10 + (t[q] - '0');
        r.ex += s * x;
    }
    return r;
}
template <class F> static F pw(int k) {
    F r = 1;
    while (k-- > 0) r *= 10;
    return r;
}
template <class F> static void num_fp(int lo, int hi) {
    parser_t ps;
    setup(&ps);
    int sty = (int)sym_choose("style", 0, 2);
    if (sty == 1) ps.thousands = ',';
    if (sty == 2) ps.decimal = ',', ps.sci = 'd', ps.thousands = '.', ps.skip_trailing = 0;
    int n = (int)sym_choose("n", lo, hi);
    char *t = (char *)malloc(n + 1);
    any_text(t, n);
    fpref r = ref_fp<F>(t, &ps);
    F v = 7;
    char *e = nullptr;
    int mi = -1;
    da_status st = da_csv::char_to_num(&ps, t, &e, &v, &mi);
    sym_assert(st == da_status_success || st == da_status_parsing_error, "the conversion succeeds or reports a parsing error");
    if (!r.any) {
        sym_assert(st == da_status_parsing_error, "a text without digits is not a number");
        free(t);
        return;
    }
    const int lim = sizeof(F) == 8 ? 300 : 30, lg = 5; // at most lg digits
    int ex = (int)sym_conc(r.ex);
    if (ex >= -15 && ex <= 15) {
        F w = (F)r.m;
        if (ex > 0) w *= pw<F>(ex > (sizeof(F) == 8 ? 22 : 10) ? 0 : ex);
        if (ex < 0) w /= pw<F>(-ex);
        if (r.neg) w = -w;
        sym_assert(st == da_status_success, "a number within range is accepted");
        // the powers of ten up to 1e22 (1e10 in single precision) are exact
        if (ex <= (sizeof(F) == 8 ? 15 : 10) && ex >= (sizeof(F) == 8 ? -15 : -10)) sym_assert(v == w, "the number is the one written");
        sym_assert(mi == (int)r.isint, "exactly the numbers without decimal point and exponent are marked as integers");
        sym_assert(e >= t && e <= t + n, "the end of the number lies within the text");
        sym_reach("num");
    } else if (ex < -2 * lim - 20) {
        sym_assert(st == da_status_success && v == 0, "a number too small to represent is zero");
    } else if (ex > lim + 10) {
        sym_assert(st == da_status_parsing_error || r.m == 0, "a number too large to represent is an error");
    } else if (ex > -lim + lg && ex < lim - lg) {
        sym_assert(st == da_status_success, "a number within range is accepted");
    }
    free(t);
}
HARNESS(num_f64) { num_fp<double>(0, 4 + TT); }
HARNESS(num_f32) { num_fp<float>(0, 4 + TT); }
// long numbers: zeros, digits, a point anywhere, more zeros, an exponent that restores the magnitude
template <class F> static void num_long() {
    parser_t ps;
    setup(&ps);
    const int M = sizeof(F) == 8 ? 17 : 9;
    int z = (int)sym_choose("zeros", 0, 2) * 10;
    int nd = (int)sym_choose("digits", M - 2, M + 2);
    int pt = (int)sym_choose("point", 0, 3); // position of the point, in thirds
    int sh = (int)sym_choose("shift", -1, 1) * (sizeof(F) == 8 ? 290 : 20);
    int d0 = (int)sym_int("d0", 1, 9), dl = (int)sym_int("dl", 0, 9);
    bool neg = sym_choose("neg", 0, 1);
    char t[120];
    int k = 0, tot = z + nd;
    int pos = tot * pt / 3, frac = 0;
    if (neg) t[k++] = '-';
    for (int i = 0; i < tot; i++) {
        if (i == pos) t[k++] = '.';
        if (i >= pos) frac++;
        t[k++] = (char)('0' + (i < z ? 0 : i == z ? d0 : i == tot - 1 ? dl : (i * 7) % 10));
    }
    if (pos == tot && sym_choose("dot", 0, 1)) t[k++] = '.';
    int ex = sh + frac - (nd - 1); // value is d0.xxx * 10^sh
    t[k++] = 'e';
    if (ex < 0) t[k++] = '-';
    int a = ex < 0 ? -ex : ex;
    t[k++] = char('0' + a / 100), t[k++] = char('0' + a / 10 % 10), t[k++] = char('0' + a % 10);
    t[k] = 0;
    F v = 0;
    char *e;
    da_status st = da_csv::char_to_num(&ps, t, &e, &v, nullptr);
    // the exponent written may itself be out of range: then nothing is claimed
    if (a > (sizeof(F) == 8 ? 300 : 30)) return;
    sym_assert(st == da_status_success, "a number within range is accepted");
    double w = 0, s = 1;
    for (int i = nd - 1; i >= 0; i--) w = w / 10 + (i == 0 ? d0 : i == nd - 1 ? dl : ((i + z) * 7) % 10);
    double x = v;
    for (int i = 0; i < 290 && i < (sh < 0 ? -sh : sh); i++) s *= 10;
    x = sh < 0 ? x * s : x / s;
    if (neg) x = -x;
    double tol = sizeof(F) == 8 ? 1e-12 : 1e-4;
    sym_assert(x - w < tol && w - x < tol, "a long number has the value written");
    sym_assert(e == t + k, "the whole number is used");
    sym_reach("long");
}
HARNESS(num_long64) { num_long<double>(); }
HARNESS(num_long32) { num_long<float>(); }
// ---- booleans: a word, alone or followed by white space
HARNESS(num_bool) {
    parser_t ps;
    setup(&ps);
    int n = (int)sym_choose("n", 3, 7);
    char *t = (char *)malloc(n + 1);
    any_text(t, n);
    int p = 0;
    while (sp(t[p])) p++;
    const char *wd[] = {"FALSE", "TRUE"};
    int w = -1;
    for (int k = 0; k < 2; k++) {
        int l = k ? 4 : 5, i = 0;
        while (i < l && up(t[p + i]) == wd[k][i]) i++;
        if (i == l && (!t[p + l] || sp(t[p + l]))) w = k;
    }
    uint8_t v = 9;
    char *e = nullptr;
    int mi;
    da_status st = da_csv::char_to_num(&ps, t, &e, &v, &mi);
    sym_assert((st == da_status_success) == (w >= 0), "TRUE and FALSE in any case are the booleans, nothing else");
    sym_assert(st == da_status_success || st == da_status_parsing_error, "the conversion succeeds or reports a parsing error");
    if (w >= 0) { sym_assert(v == w, "the boolean is the one written"); sym_reach("num"); }
    free(t);
}
// ---- strings: the text without surrounding white space
HARNESS(num_str) {
    parser_t ps;
    setup(&ps);
    ps.skipinitialspace = sym_choose("skipinit", 0, 1);
    int n = (int)sym_choose("n", 1, 4);
    char *t = (char *)malloc(n + 1);
    any_text(t, n);
    int l = 0;
    while (t[l]) l++;
    int a = 0, b = l;
    if (ps.skipinitialspace) while (a < b && sp(t[a])) a++;
    while (b > a && sp(t[b - 1])) b--;
    if (l) {
        char *e = nullptr, *s = nullptr;
        da_status st = da_csv::char_to_num(&ps, t, &e, &s, (int *)nullptr);
        sym_assert(st == da_status_success, "any text is a string");
        int k = (int)strlen(s);
        if (a == b) sym_assert(k <= 1 && (!k || sp(s[0])), "a blank field is at most one blank");
        else {
            sym_assert(k == b - a, "the string is the field without surrounding white space");
            for (int i = 0; i < k; i++) sym_assert(s[i] == t[a + i], "the string is the field without surrounding white space");
            sym_reach("num");
        }
        free(s);
    }
    free(t);
}
