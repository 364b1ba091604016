// Options keep only allowed values; names, types and buffers are checked.
#include "hapi.h"
#include "options.hpp"
#include <cmath>
#include <limits>
#include <string>
#ifdef TIER_THOROUGH
#define TT 1
#else
#define TT 0
#endif
using namespace da_options;
#define OK(e, m) sym_assert((e) == da_status_success, m)
template <class T> static bool within(T v, T lo, lbound_t lb, T hi, ubound_t ub) {
    bool nan = false;
    if constexpr (std::is_floating_point_v<T>) nan = v != v;
    return !nan && (lb == m_inf || (lb == greaterthan ? v > lo : v >= lo)) && (ub == p_inf || (ub == lessthan ? v < hi : v <= hi));
}
// --- one numeric option: any bounds, default and two values in turn
template <class T> static void numeric(T lo, T hi, T def, T v, T w) {
    lbound_t lb = (lbound_t)sym_choose("lower kind", 0, 2);
    ubound_t ub = (ubound_t)sym_choose("upper kind", 0, 2);
    std::shared_ptr<OptionNumeric<T>> o;
    bool made = true;
    try {
        o = std::make_shared<OptionNumeric<T>>("an option", "text", lo, lb, hi, ub, def);
    } catch (std::invalid_argument &) {
        made = false;
    }
    if (within(def, lo, lb, hi, ub) && lb && ub && lo < hi) sym_assert(made, "an allowed default is accepted");
    if (!within(def, lo, lb, hi, ub)) sym_assert(!made, "a default that is not allowed is refused");
    if (!made) return;
    T r, s;
    o->get(r);
    sym_assert(r == def, "the default is the first value");
    da_status a = o->set(v, user);
    o->get(r);
    bool in1 = within(v, lo, lb, hi, ub), in2 = within(w, lo, lb, hi, ub);
    sym_assert(a == (in1 ? da_status_success : da_status_option_invalid_value), "stored exactly if allowed");
    sym_assert(r == (in1 ? v : def), "the value stored is the one given, or unchanged");
    da_status b = o->set(w, solver);
    o->get(s);
    sym_assert(b == (in2 ? da_status_success : da_status_option_invalid_value), "stored exactly if allowed, again");
    sym_assert(s == (in2 ? w : r), "the value stored is the one given, or unchanged, again");
    sym_reach("numeric");
}
HARNESS(opt_int) { numeric<da_int>((da_int)sym_int("lower", INT_MIN, INT_MAX), (da_int)sym_int("upper", INT_MIN, INT_MAX), (da_int)sym_int("default", INT_MIN, INT_MAX), (da_int)sym_int("value", INT_MIN, INT_MAX), (da_int)sym_int("value", INT_MIN, INT_MAX)); }
HARNESS(opt_real) { numeric<double>(sym_f64("lower"), sym_f64("upper"), sym_f64("default"), sym_f64("value"), sym_f64("value")); }
HARNESS(opt_real_f) { numeric<float>(sym_f32("lower"), sym_f32("upper"), sym_f32("default"), sym_f32("value"), sym_f32("value")); }
// --- text: blanks and letter case do not matter, nothing else is forgiven
static char letter(const char *set) { return set[sym_choose("letter", 0, (int)strlen(set) - 1)]; }
static std::string text(int n, const char *set) {
    std::string s;
    for (int i = 0; i < n; i++) s += letter(set);
    return s;
}
static std::string anytext(int n) {
    std::string s;
    for (int i = 0; i < n; i++) s += (char)sym_int("char", 1, 127);
    return s;
}
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string tidy(const std::string &s) {
    std::string r;
    bool gap = false;
    for (char c : s) {
        if (blank(c)) { gap = true; continue; }
        if (gap && !r.empty()) r += ' ';
        gap = false;
        r += c >= 'A' && c <= 'Z' ? (char)(c + 32) : c;
    }
    return r;
}
static bool eq(const std::string &a, const char *b) { return a == b; }
static void label(const std::string &v) {
    OptionString o("kind", "text", {{"ab", 3}, {"a b", 7}, {"b", 1}}, "b");
    std::string t = tidy(v), r;
    da_int id = -5;
    bool in = eq(t, "ab") || eq(t, "a b") || eq(t, "b");
    da_status s = o.set(v);
    o.get(r, id);
    sym_assert(s == (in ? da_status_success : da_status_option_invalid_value), "accepted exactly if it names a label");
    sym_assert(r == (in ? t : std::string("b")), "the label is stored, or the old one kept");
    sym_assert(id == (r == "ab" ? 3 : r == "b" ? 1 : 7), "the key of the label");
    sym_reach("label");
}
HARNESS(opt_label) { label(text(sym_choose("length", 0, 4), "aAbB \tc")); }
HARNESS(opt_label_any) { label(anytext(sym_choose("length", 0, TT ? 3 : 2))); }
HARNESS(opt_free) {
    OptionString o("kind", "text", {}, "x");
    std::string v = anytext(sym_choose("length", 0, 3)), r;
    da_int id = 4;
    OK(o.set(v), "free text accepted");
    o.get(r, id);
    sym_assert(r == v && id == -1, "free text stored as given");
    sym_reach("free");
}
// --- the registry: names, types, locking, duplicates
HARNESS(opt_registry) {
    OptionRegistry g;
    auto i = std::make_shared<OptionNumeric<da_int>>("n x", "d", -2, greaterequal, 2, lessequal, 1);
    auto f = std::make_shared<OptionNumeric<float>>("f", "d", -2, greaterthan, 2, lessthan, 1);
    auto d = std::make_shared<OptionNumeric<double>>("d", "d", -2, greaterthan, 2, lessthan, 1);
    auto s = std::make_shared<OptionString>("s", "d", std::map<string, da_int>{{"yes", 1}, {"no", 0}}, "no");
    auto b = std::make_shared<OptionNumeric<bool>>("b", "d", true);
    OK(g.register_opt(i), "registered");
    OK(g.register_opt(f), "registered");
    OK(g.register_opt(d), "registered");
    OK(g.register_opt(s), "registered");
    OK(g.register_opt(b), "registered");
    int locked = sym_choose("locked", 0, 1), type = sym_choose("type", 0, 3);
    auto dup = std::make_shared<OptionNumeric<da_int>>("n x", "e", 0, greaterequal, 9, lessequal, 5);
    if (locked) g.lock();
    int over = sym_choose("duplicate", 0, 2); // none, plain, overwriting
    if (over) sym_assert(g.register_opt(dup, over == 2) == (locked ? da_status_option_locked : over == 2 ? da_status_success : da_status_invalid_input), "only an overwriting duplicate is registered");
    bool fresh = over == 2 && !locked;
    std::string name = text(sym_choose("length", 0, 3), "nNxfdSb \t"), t = tidy(name);
    int kind = eq(t, "n x") ? 0 : eq(t, "f") ? 1 : eq(t, "d") ? 2 : eq(t, "s") ? 3 : eq(t, "b") ? 4 : -1;
    da_status e = kind < 0 ? da_status_option_not_found : kind != type ? da_status_option_wrong_type : da_status_success, st = da_status_success, ge = da_status_success;
    da_int iv = 2, ir = -9;
    float fv = 0.5f, fr = -9;
    double dv = 0.25, dr = -9;
    std::string sv = "yes", sr = "?";
    switch (type) {
    case 0: st = g.set(name, iv); ge = g.get(name, ir); break;
    case 1: st = g.set(name, fv); ge = g.get(name, fr); break;
    case 2: st = g.set(name, dv); ge = g.get(name, dr); break;
    default: st = g.set(name, sv); ge = g.get(name, sr);
    }
    sym_assert(ge == e, "reading reports an unknown name or a wrong type");
    sym_assert(st == (locked ? da_status_option_locked : e), "setting reports a locked registry, an unknown name or a wrong type");
    bool ok = ir == (type == 0 && !e ? locked ? 1 : 2 : -9) && fr == (type == 1 && !e ? locked ? 1 : 0.5f : -9) && dr == (type == 2 && !e ? locked ? 1 : 0.25 : -9) && sr == (type == 3 && !e ? locked ? "no" : "yes" : "?");
    sym_assert(ok, "the value read is the one stored; nothing is written on errors");
    // every other option is as before
    bool bv = false;
    g.unlock();
    OK(g.get("n x", ir), "readable"), OK(g.get("f", fr), "readable"), OK(g.get("d", dr), "readable"), OK(g.get("s", sr), "readable"), OK(g.get("b", bv), "readable");
    bool done = !e && !locked;
    sym_assert(ir == (done && type == 0 ? 2 : fresh ? 5 : 1), "integer option");
    sym_assert(fr == (done && type == 1 ? 0.5f : 1) && dr == (done && type == 2 ? 0.25 : 1) && bv, "real and flag options");
    sym_assert(sr == (done && type == 3 ? "yes" : "no"), "string option");
    sym_reach("registry");
}
// --- the public functions on a handle
template <class T> static da_status set_real(da_handle h, const char *n, T v) { if constexpr (std::is_same_v<T, double>) return da_options_set_real_d(h, n, v); else return da_options_set_real_s(h, n, v); }
template <class T> static da_status get_real(da_handle h, const char *n, T *v) { if constexpr (std::is_same_v<T, double>) return da_options_get_real_d(h, n, v); else return da_options_get_real_s(h, n, v); }
template <class T> static void api_values() {
    da_handle h = nullptr;
    OK(api<T>::init(&h, da_handle_decision_tree), "init");
    da_int di, r = -9;
    T dm, df, m = -9;
    OK(da_options_get_int(h, "maximum bins", &di), "readable");
    OK(get_real<T>(h, "minimum split score", &dm), "readable");
    OK(get_real<T>(h, "feature threshold", &df), "readable");
    sym_assert(di == 256 && dm == 0, "documented defaults");
    da_int v = (da_int)sym_int("value", INT_MIN, INT_MAX);
    T x;
    if constexpr (std::is_same_v<T, double>) x = sym_f64("real"); else x = sym_f32("real");
    bool vi = v >= 2 && v <= 65535, vx = x >= 0 && x <= 1, vt = x >= 0;
    if (sym_choose("which", 0, 1)) {
        sym_assert(da_options_set_int(h, "maximum bins", v) == (vi ? da_status_success : da_status_option_invalid_value), "integer stored exactly if allowed");
        OK(da_options_get_int(h, "MAXIMUM  bins ", &r), "readable");
        sym_assert(r == (vi ? v : di), "integer value");
    } else if (sym_choose("real", 0, 1)) {
        sym_assert(set_real<T>(h, "minimum split score", x) == (vx ? da_status_success : da_status_option_invalid_value), "real stored exactly if allowed");
        OK(get_real<T>(h, "minimum split score", &m), "readable");
        sym_assert(m == (vx ? x : dm), "real value");
    } else {
        sym_assert(set_real<T>(h, "feature threshold", x) == (vt ? da_status_success : da_status_option_invalid_value), "real stored exactly if allowed");
        OK(get_real<T>(h, "feature threshold", &m), "readable");
        sym_assert(m == (vt ? x : df), "real value");
    }
    da_handle_destroy(&h);
    sym_reach("values");
}
HARNESS(opt_api) { api_values<double>(); }
HARNESS(opt_api_f) { api_values<float>(); }
HARNESS(opt_types) { // right and wrong types, precisions, names, handles
    int prec = sym_choose("precision", 0, 2), name = sym_choose("name", 0, 3), type = sym_choose("type", 0, 3), get = sym_choose("get", 0, 1);
    static const char *names[] = {"number of neighbors", "radius", "algorithm", "no such option"};
    da_handle h = nullptr;
    if (prec == 1) OK(da_handle_init_d(&h, da_handle_nn), "init");
    if (prec == 2) OK(da_handle_init_s(&h, da_handle_nn), "init");
    da_int i = -9, l = 20;
    double d = -9;
    float f = -9;
    char s[20] = "?";
    const char *n = names[name];
    da_status st = get ? type == 0 ? da_options_get_int(h, n, &i) : type == 1 ? da_options_get_real_d(h, n, &d) : type == 2 ? da_options_get_real_s(h, n, &f) : da_options_get_string(h, n, s, &l)
                       : type == 0 ? da_options_set_int(h, n, 3) : type == 1 ? da_options_set_real_d(h, n, 3) : type == 2 ? da_options_set_real_s(h, n, 3) : da_options_set_string(h, n, "brute");
    da_status e = !prec ? da_status_handle_not_initialized : type && type != 3 && type != prec ? da_status_wrong_type : name == 3 ? da_status_option_not_found : name != (type == 0 ? 0 : type == 3 ? 2 : 1) ? da_status_option_wrong_type : da_status_success;
    sym_assert(st == e, "the mistake is reported");
    if (e || !get) sym_assert(i == -9 && d == -9 && f == -9 && s[0] == '?' && s[1] == 0 && l == 20, "nothing is returned on errors");
    if (prec) { // other options keep their values
        da_int k = 0;
        OK(da_options_get_int(h, names[0], &k), "readable");
        sym_assert(k == (!e && !get && type == 0 ? 3 : 5), "integer option changed only by its own setter");
        l = 20;
        OK(da_options_get_string(h, names[2], s, &l), "readable");
        sym_assert(!strcmp(s, !e && !get && type == 3 ? "brute" : "auto"), "string option changed only by its own setter");
    }
    da_handle_destroy(&h);
    sym_reach("types");
}
HARNESS(opt_buffer) { // the string is written only if it fits
    static const char *labels[] = {"l2", "manhattan", "minkowski", "cosine"};
    static const da_int keys[] = {da_l2, da_manhattan, da_minkowski, da_cosine};
    int k = sym_choose("label", 0, 3), withkey = sym_choose("key", 0, 1);
    da_handle h = nullptr;
    OK(api<double>::init(&h, da_handle_nn), "init");
    OK(da_options_set_string(h, "metric", labels[k]), "label accepted");
    da_int l = (da_int)sym_int("size", -2, 14), l0 = l, key = -77, need = (da_int)strlen(labels[k]) + 1;
    char s[16];
    memset(s, '#', 16);
    da_status st = withkey ? da_options_get_string_key(h, "metric", s, &l, &key) : da_options_get_string(h, "metric", s, &l);
    bool fits = l0 >= need, kept = true;
    sym_assert(st == (fits ? da_status_success : da_status_invalid_input), "succeeds exactly if the text and its end fit");
    for (int i = 0; i < 16; i++) if (!fits || i >= need) kept &= s[i] == '#';
    sym_assert(kept, "nothing else is written");
    sym_assert(key == (fits && withkey ? keys[k] : -77) || !fits, "the key of the label");
    if (fits) sym_assert(!strcmp(s, labels[k]), "the text of the option");
    sym_assert(l == (fits ? l0 : need), "the needed size is reported");
    da_handle_destroy(&h);
    sym_reach("buffer");
}
HARNESS(opt_sequence) { // histories of accepted and refused values
    da_handle h = nullptr;
    OK(api<double>::init(&h, da_handle_nn), "init");
    da_int want = 5;
    int alg = 0;
    static const char *labels[] = {"auto", "brute", " KD  Tree", "brutal", "ball tree"}, *names[] = {"auto", "brute", "kd tree", "brutal", "ball tree"};
    for (int i = 0; i < (TT ? 4 : 3); i++) {
        if (sym_choose("op", 0, 1)) {
            da_int v = (da_int)sym_int("value", -3, 9);
            bool ok = v >= 1;
            sym_assert((da_options_set_int(h, "number of neighbors", v) == da_status_success) == ok, "stored exactly if allowed");
            want = ok ? v : want;
        } else {
            int v = sym_choose("label", 0, 4);
            sym_assert((da_options_set_string(h, "algorithm", labels[v]) == da_status_success) == (v != 3), "stored exactly if allowed");
            if (v != 3) alg = v;
        }
        da_int r = 0, l = 20;
        char s[20];
        OK(da_options_get_int(h, "number of neighbors", &r), "readable");
        OK(da_options_get_string(h, "algorithm", s, &l), "readable");
        sym_assert(r == want && !strcmp(s, names[alg]), "the last accepted values are in force");
    }
    da_handle_destroy(&h);
    sym_reach("sequence");
}
