// Data-structure level guarantees: interval sets and maps, the scalar vector, the LRU column cache.
#include "aoclda.h"
#include "da_cache.hpp"
#include "da_vector.hpp"
#include "interval_map.hpp"
#include "interval_set.hpp"
#include "sym.h"
#include <climits>
#include <cstring>
#ifdef TIER_THOROUGH
#define TT 1
#else
#define TT 0
#endif
using namespace da_interval;
static const long BIG = 12 + 6 * TT; // only the order of the bounds and their being adjacent matters
// membership of one arbitrary key k decides the whole set
HARNESS(iset_ops) {
    interval_set s;
    da_int k = (da_int)sym_int("key", -BIG, BIG);
    bool in = false;
    int nops = 3 + TT;
    for (int i = 0; i < nops; i++) {
        bool ins = i < 2 || sym_choose("insert", 0, 1);
        da_int lb = (da_int)sym_int("lb", -BIG, BIG), ub = (da_int)sym_int("ub", -BIG, BIG);
        da_status st = ins ? s.insert({lb, ub}) : s.erase({lb, ub});
        if (ub < lb) {
            sym_assert(st == da_status_invalid_input, "reversed bounds are rejected");
            continue;
        }
        sym_assert(st == da_status_success, "valid bounds are accepted");
        if ((lb <= k) & (k <= ub)) in = ins;
    }
    interval r{0, -1};
    bool f = s.find(k, r);
    sym_assert(f == in, "a key is found exactly when it was last inserted");
    if (f) sym_assert((r.lower <= k) & (k <= r.upper), "the returned interval contains the key");
    auto it = s.find(k);
    sym_assert((it != s.end()) == in, "iterator search agrees with membership");
    if (it != s.end()) sym_assert(((*it).lower <= k) & (k <= (*it).upper), "the iterator's interval contains the key");
    // canonical form, and the union of the intervals is the set
    bool first = true, canon = true, seen = false;
    long prev = 0;
    for (auto i = s.begin(); i != s.end(); ++i) {
        long l = (*i).lower, u = (*i).upper;
        canon &= l <= u;
        if (!first) canon &= prev + 1 < l;
        first = false;
        prev = u;
        seen |= (l <= k) & (k <= u);
    }
    sym_assert(canon, "intervals are sorted, disjoint and not adjacent");
    sym_assert(seen == in, "iteration covers exactly the set");
    sym_assert(s.empty() == first, "empty() agrees with iteration");
    s.clear();
    sym_assert(s.empty() && s.begin() == s.end(), "cleared set is empty");
    sym_reach("iset");
}
HARNESS(imap_ops) {
    interval_map<int> m;
    const int N = 3 + TT;
    long L[4], U[4];
    bool in[4];
    for (int i = 0; i < N; i++) {
        L[i] = sym_int("lb", -BIG, BIG), U[i] = sym_int("ub", -BIG, BIG);
        bool ok = L[i] <= U[i];
        for (int j = 0; j < i; j++) ok &= !in[j] | (U[i] < L[j]) | (L[i] > U[j]);
        da_status st = m.insert({(da_int)L[i], (da_int)U[i]}, 10 + i);
        sym_assert((st == da_status_success) == ok, "an interval is accepted exactly when it is valid and overlaps none");
        in[i] = st == da_status_success;
    }
    da_int k = (da_int)sym_int("key", -BIG, BIG), lb = 0, ub = 0;
    int v = -1, want = -1;
    long wl = 0, wu = 0;
    for (int i = 0; i < N; i++)
        if (in[i] && L[i] <= k && k <= U[i]) want = 10 + i, wl = L[i], wu = U[i];
    bool f = m.find(k, v, lb, ub);
    sym_assert(f == (want >= 0), "a key is found exactly when an interval holds it");
    if (f) sym_assert((v == want) & (lb == wl) & (ub == wu), "the key's value and bounds are returned");
    auto it = m.find(k);
    sym_assert((it != m.end()) == f, "iterator search agrees");
    if (it != m.end()) sym_assert(it->second == want, "iterator search gives the key's value");
    long prev = 0;
    int cnt = 0, exp = 0;
    bool sorted = true;
    for (auto i = m.begin(); i != m.end(); ++i) {
        if (cnt) sorted &= prev < i->first.lower;
        prev = i->first.upper;
        cnt++;
    }
    for (int i = 0; i < N; i++) exp += in[i];
    sym_assert(sorted & (cnt == exp), "iteration lists every interval in order");
    sym_assert(m.empty() == (exp == 0), "empty() agrees");
    m.erase(k);
    sym_assert(m.find(k) == m.end(), "an erased key is gone");
    cnt = 0;
    for (auto i = m.begin(); i != m.end(); ++i) cnt++;
    sym_assert(cnt == exp - (f ? 1 : 0), "erasing a key removes just its interval");
    sym_reach("imap");
}
HARNESS(imap_closest) {
    interval_map<int> m;
    const int N = 3;
    long L[4], U[4], prev = -BIG - 1;
    for (int i = 0; i < N; i++) {
        L[i] = sym_int("lb", -BIG, BIG), U[i] = sym_int("ub", -BIG, BIG);
        sym_assume((L[i] > prev) & (L[i] <= U[i]));
        prev = U[i];
        m.insert({(da_int)L[i], (da_int)U[i]}, i);
    }
    da_int k = (da_int)sym_int("key", -BIG, BIG);
    int want = 0;
    for (int i = 0; i < N; i++) if (L[i] <= k) want = i;
    auto it = m.closest_interval(k);
    sym_assert(it != m.end(), "a non-empty map always has a closest interval");
    if (it != m.end()) sym_assert(it->second == want, "closest interval at or below the key, else the first one");
    auto a = m.begin();
    int e = (int)sym_choose("drop", 0, 3);
    auto b = m.begin();
    for (int i = 0; i < e; i++) ++b;
    m.erase(a, b);
    int cnt = 0;
    bool ok = true;
    for (auto i = m.begin(); i != m.end(); ++i) ok &= i->second == e + cnt, cnt++;
    sym_assert(ok & (cnt == N - e), "range erase removes exactly the range");
    sym_reach("closest");
}
template <class T> using dvec = da_vector::da_vector<T>;
template <class V> static void vcheck(V &v, const int *ref, size_t n, size_t def, const char *what) {
    sym_assert(v.size() == n, "vector size");
    bool ok = v.capacity() >= n;
    for (size_t i = 0; i < def; i++) ok &= v[i] == ref[i];
    sym_assert(ok, what);
}
HARNESS(vec_ops) {
    static int ref[600];
    static const int sizes[] = {0, 1, 63, 64, 65, 127, 128, 129};
    size_t n = sizes[sym_choose("start", 0, 7)];
    dvec<int> v(n);
    for (size_t i = 0; i < n; i++) v[i] = ref[i] = (int)i * 3 + 1;
    for (int step = 0; step < 2; step++) {
        int op = (int)sym_choose("op", 0, 8);
        size_t k = sizes[sym_choose("arg", 0, 7)];
        if (op == 0) { int x = (int)sym_int("x", INT_MIN, INT_MAX); v.push_back(x); ref[n++] = x; }
        else if (op == 1) { dvec<int> w(k); for (size_t i = 0; i < k; i++) w[i] = ref[n + i] = 1000 + (int)i; v.append(w); n += k; }
        else if (op == 2) { std::vector<int> w(k, 7); v.append(w); for (size_t i = 0; i < k; i++) ref[n + i] = 7; n += k; }
        else if (op == 3) { size_t o = n; v.resize(k); n = k; for (size_t i = o; i < n; i++) v[i] = ref[i] = 5; }
        else if (op == 4) { v.reserve(k); sym_assert(v.capacity() >= k, "reserve grows the capacity"); }
        else if (op == 5) { v.clear(); n = 0; }
        else if (op == 6) { dvec<int> w; w.push_back(9); w = v; sym_assert(w.data() != v.data(), "a copy owns its own storage"); vcheck(w, ref, n, n, "copy has the same elements"); w.push_back(4); vcheck(w, ref, n + 1, n, "copy can grow"); }
        else if (op == 7) { dvec<int> w(std::move(v)); vcheck(w, ref, n, n, "moved vector has the elements"); v = std::move(w); }
        else { dvec<int> w(k); w = v; v = w; }
        vcheck(v, ref, n, n, "elements are those put in, in order");
    }
    sym_reach("vec");
}
// a moved-from vector is empty and can be used again
HARNESS(vec_moved) {
    int op = (int)sym_choose("op", 0, 5);
    dvec<int> v(3), t;
    v[0] = v[1] = v[2] = 2;
    dvec<int> w(std::move(v));
    std::vector<int> sv(2, 6);
    if (op == 0) v.push_back(6);
    else if (op == 1) v.append(sv);
    else if (op == 2) { v.resize(1); v[0] = 6; }
    else if (op == 3) { v.reserve(70); v.push_back(6); }
    else if (op == 4) { v = w; v[0] = 6; }
    else { v.clear(); v.push_back(6); }
    sym_assert(v[0] == 6, "a moved-from vector can be used again");
    sym_assert(w.size() == 3 && w[2] == 2, "the new owner is unaffected");
    sym_reach("moved");
}
// LRU cache of columns; keys put are new (the way the solver uses it)
static void lru(bool dup) {
    sym_omp(1, 0);
    da_errors::da_error_t err(da_errors::action_t::DA_RECORD);
    da_cache::LRUCache<double> c(err);
    da_int cap = (da_int)sym_choose("cap", 0, 3), len = 2;
    sym_assert(c.set_size(cap, len) == da_status_success, "cache is sized");
    sym_assert(c.get_capacity() == cap && c.active_ == (cap > 0), "capacity is reported");
    const int K = 5;
    double val[K][2];
    bool ever[K] = {};
    int order[16], n = 0; // most recent last
    auto touch = [&](int k) {
        for (int i = 0; i < n; i++)
            if (order[i] == k) { for (int j = i; j + 1 < n; j++) order[j] = order[j + 1]; n--; break; }
        order[n++] = k;
        if (n > cap) { for (int j = 0; j + 1 < n; j++) order[j] = order[j + 1]; n--; }
    };
    for (int step = 0; step < 3 + TT; step++) {
        int cnt = (int)sym_choose("keys", 0, 2);
        if (cnt == 0) {
            int k = (int)sym_choose("get", 0, K - 1);
            double *p = c.get(k);
            bool hit = false;
            for (int i = 0; i < n; i++) hit |= order[i] == k;
            if (!dup) sym_assert((p != nullptr) == hit, "exactly the most recently used columns are cached");
            if (p) { sym_assert(ever[k] && p[0] == val[k][0] && p[1] == val[k][1], "a hit returns the column last stored under the key"); if (!dup) touch(k); }
            continue;
        }
        std::vector<da_int> keys;
        double col[2][3];
        for (int i = 0; i < cnt; i++) {
            int k = (int)sym_choose("key", 0, K - 1);
            if (i && k == keys[0]) return;
            bool present = false;
            for (int j = 0; j < n; j++) present |= order[j] == k;
            if (present && !dup) return;
            keys.push_back(k);
            col[i][0] = 100 * step + 10 * k, col[i][1] = sym_dy("v", 0, 100, 0), col[i][2] = -1;
        }
        sym_assert(c.put(keys, col[0], 3) == da_status_success, "columns are stored");
        for (int i = 0; i < cnt && i < cap; i++) {
            int k = keys[i];
            val[k][0] = col[i][0], val[k][1] = col[i][1];
            ever[k] = true;
            touch(k);
        }
    }
    for (int k = 0; k < K; k++) {
        double *p = c.get(k);
        bool hit = false;
        for (int i = 0; i < n; i++) hit |= order[i] == k;
        if (!dup) sym_assert((p != nullptr) == hit, "exactly the most recently used columns are cached");
        if (p) sym_assert(ever[k] && p[0] == val[k][0] && p[1] == val[k][1], "a hit returns the column last stored under the key");
    }
    if (cap > 0) {
        std::vector<da_int> keys(1, 7);
        sym_assert(c.put(keys, nullptr, 3) == da_status_invalid_pointer, "missing data is reported");
    }
    sym_reach("lru");
}
HARNESS(lru_new) { lru(false); }
HARNESS(lru_dup) { lru(true); }
