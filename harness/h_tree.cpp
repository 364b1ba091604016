// Decision trees: the sorting, binning and scoring helpers, training and inference.
#include "hapi.h"
#include "common/histogram.hpp"
#include "common/idx_sorting.hpp"
#include "common/scoring.hpp"
#include "tree/decision_tree.hpp"
#include "tree/decision_tree_handle_utilities.hpp"
#include "tree/decision_tree_inference.hpp"
#include "tree/decision_tree_training_fit.hpp"
#include <cmath>
#ifdef TIER_THOROUGH
#define TT 1
#else
#define TT 0
#endif
using namespace ARCH::da_decision_forest;

// ---- helpers -------------------------------------------------------------------------------------------------
// sort a range of (index, value) pairs: the range ends up increasing, pairs stay together, nothing else moves
template <class T> static void sorting(int kind) {
    int n = sym_choose("n", 1, 5 + TT), pre = sym_choose("pre", 0, 1), tot = n + 2 * pre;
    std::vector<da_int> idx(tot);
    std::vector<T> v(tot), v0;
    for (int i = 0; i < tot; i++) idx[i] = i, v[i] = (T)sym_int("v", 0, n <= 4 ? 9 : 3);
    v0 = v;
    if (kind == 0) multi_range_intro_sort(idx, v, (da_int)pre, (da_int)n, (da_int)sym_choose("depth", 0, 4));
    else multi_range_heap_sort(idx, v, (da_int)pre, (da_int)n);
    bool sorted = true, pairs = true, perm = true, rest = true;
    for (int i = 0; i < tot; i++) {
        if (i < pre || i >= pre + n) {
            rest &= idx[i] == i && v[i] == v0[i];
            continue;
        }
        if (i > pre) sorted &= v[i - 1] <= v[i];
        da_int k = sym_conc(idx[i]);
        perm &= k >= pre && k < pre + n;
        if (k >= pre && k < pre + n) pairs &= v0[k] == v[i];
        for (int l = pre; l < i; l++) perm &= idx[l] != k;
    }
    sym_assert(sorted, "the range is in increasing order");
    sym_assert(perm, "the indices of the range are permuted");
    sym_assert(pairs, "every value stays with its index");
    sym_assert(rest, "nothing outside the range moves");
    sym_reach("sort");
}
HARNESS(sort_intro) { sorting<double>(0); }
HARNESS(sort_intro_f) { sorting<float>(0); }
HARNESS(sort_heap) { sym_choose("f", 0, 1) ? sorting<float>(1) : sorting<double>(1); }
// bucket sort by category
HARNESS(sort_bucket) {
    int n = sym_choose("n", 1, 5), pre = sym_choose("pre", 0, 1), tot = n + 2 * pre, nc = sym_choose("nc", 1, 3);
    std::vector<da_int> idx(tot), buckets(tot * nc), bidx(nc);
    std::vector<double> v(tot), v0;
    static const double off[3] = {0.25, 0, -0.25};
    for (int i = 0; i < tot; i++) idx[i] = tot - 1 - i, v[i] = (double)sym_choose("v", 0, nc - 1) + off[i % 3];
    v0 = v;
    bucket_sort_samples(idx, v, (da_int)nc, (da_int)pre, (da_int)n, (da_int)tot, buckets, bidx);
    int p = pre;
    bool ok = true, rest = true;
    for (int c = 0; c < nc; c++) for (int i = pre; i < pre + n; i++) if (std::round(v0[i]) == c) { ok &= idx[p] == tot - 1 - i && v[p] == c; p++; }
    for (int i = 0; i < tot; i++) if (i < pre || i >= pre + n) rest &= idx[i] == tot - 1 - i && v[i] == v0[i];
    sym_assert(ok, "samples are grouped by category in their original order");
    sym_assert(rest, "nothing outside the range moves");
    sym_reach("sort");
}
// bootstrap draws are compressed to distinct samples with their multiplicity
HARNESS(sort_compress) {
    int n = sym_choose("n", 1, 5), m = sym_choose("m", 1, 4);
    std::vector<da_int> idx(n), cnt(m, 7);
    int c0[4] = {0, 0, 0, 0};
    for (int i = 0; i < n; i++) { int d = (int)sym_int("draw", 0, m - 1); idx[i] = d; for (int k = 0; k < m; k++) c0[k] += d == k; }
    sym_assert(compress_count_occurences(idx, cnt) == da_status_success, "status");
    bool ok = true, inc = true;
    int distinct = 0;
    for (int k = 0; k < m; k++) ok &= cnt[k] == c0[k], distinct += c0[k] > 0;
    sym_assert(ok, "every sample's multiplicity is counted");
    sym_assert((int)idx.size() == distinct, "one index per distinct sample");
    for (size_t i = 0; i < idx.size(); i++) { inc &= i == 0 || idx[i - 1] < idx[i]; bool in = false; for (int k = 0; k < m; k++) in |= idx[i] == k && c0[k] > 0; inc &= in; }
    sym_assert(inc, "the indices are the drawn samples in increasing order");
    sym_reach("sort");
}
// bins: thresholds increase, every sample lies in the bin its value belongs to, ties share a bin
template <class T> static void binning(bool cont, bool par) {
    sym_omp(par ? 2 : 1, par ? sym_choose("ord", 0, 1) : 0);
    int n = sym_choose("n", 4, 5 + TT), nf = par ? 2 : 1, mb = sym_choose("mb", 2, 3), pad = sym_choose("pad", 0, 1), ld = n + pad;
    std::vector<T> X(ld * nf, (T)-7);
    int fs = nf == 2 ? sym_choose("free", 0, 1) : 0;
    for (int j = 0; j < nf; j++) for (int i = 0; i < n; i++) X[j * ld + i] = j == fs ? (T)sym_int("x", 0, 3) : (T)(((i * 5 + 2) % 7) / 2);
    bins<T> b(mb, n, nf);
    da_int B = b.max_bin;
    sym_assert(B == (mb < n / 2 ? mb : n / 2), "number of bins");
    if (cont) {
        std::vector<T> v(X.begin(), X.begin() + n);
        b.compute_thresholds_continuous(v, 0, 0);
    } else
        sym_assert(b.compute_histograms(X.data(), n, nf, ld) == da_status_success, "status");
    bool inc = true, isin = true, place = true;
    for (int j = 0; j < nf; j++) {
        int nb = sym_conc(b.get_nbins()[j]);
        sym_assert(nb >= 1 && nb <= B, "number of bins used");
        for (int k = 0; k + 1 < nb; k++) {
            T t = b.get_thresholds()[j * (B - 1) + k];
            bool e = false, less = false;
            for (int i = 0; i < n; i++) e |= X[j * ld + i] == t, less |= X[j * ld + i] < t;
            isin &= e && less;
            if (k) inc &= b.get_thresholds()[j * (B - 1) + k - 1] < t;
        }
        if (!cont)
            for (int i = 0; i < n; i++) {
                int want = 0;
                for (int k = 0; k + 1 < nb; k++) want += X[j * ld + i] >= b.get_thresholds()[j * (B - 1) + k];
                place &= b.get_bins()[j * n + i] == want;
            }
    }
    sym_assert(inc, "thresholds increase");
    sym_assert(isin, "thresholds are values of the feature, above its smallest");
    sym_assert(place, "a sample's bin counts the thresholds at or below its value");
    sym_reach("bins");
}
HARNESS(bins_def) { sym_choose("f", 0, 1) ? binning<float>(false, false) : binning<double>(false, false); }
HARNESS(bins_par) { binning<double>(false, true); }
HARNESS(bins_cont) { binning<double>(true, false); }
// more bins, on data that is sorted already
template <class T> static void sorted_bins() {
    int n = sym_choose("n", 6, 8 + TT), mb = sym_choose("mb", 2, 4), cont = sym_choose("cont", 0, 1);
    if (mb > n / 2) return;
    std::vector<T> v(n), v0;
    v[0] = 0;
    for (int i = 1; i < n; i++) v[i] = v[i - 1] + (T)sym_int("step", 0, 1);
    v0 = v;
    bins<T> b(mb, n, 1);
    cont ? b.compute_thresholds_continuous(v, 0, 0) : b.compute_thresholds(v, 0, 0);
    int nb = sym_conc(b.get_nbins()[0]);
    sym_assert(nb >= 1 && nb <= mb, "number of bins used");
    bool inc = true, isin = true;
    for (int k = 0; k + 1 < nb; k++) {
        T t = b.get_thresholds()[k];
        bool e = false, less = false;
        for (int i = 0; i < n; i++) e |= v0[i] == t, less |= v0[i] < t;
        isin &= e && less;
        if (k) inc &= b.get_thresholds()[k - 1] < t;
    }
    sym_assert(inc, "thresholds increase");
    sym_assert(isin, "thresholds are values of the feature, above its smallest");
    sym_reach("bins");
}
HARNESS(bins_sorted) { sorted_bins<double>(); }
HARNESS(bins_sorted_f) { sorted_bins<float>(); }
// few categories: one bin each; many distinct values: all bins used, about the same size
HARNESS(bins_quality) {
    int n = sym_choose("n", 4, 6), mb = sym_choose("mb", 2, 3);
    if (mb > n / 2) mb = n / 2;
    std::vector<double> X(n);
    for (int i = 0; i < n; i++) X[i] = (double)sym_int("x", 0, 9);
    bool dis = true;
    for (int i = 0; i < n; i++) for (int l = 0; l < i; l++) dis &= X[i] != X[l];
    sym_assume(dis);
    bins<double> b(mb, n, 1);
    b.compute_histograms(X.data(), n, 1, n);
    sym_assert(b.get_nbins()[0] == mb, "distinct values use all the bins");
    bool bal = true;
    for (int k = 0; k < mb; k++) {
        int c = 0;
        for (int i = 0; i < n; i++) c += b.get_bins()[i] == k;
        bal &= c >= n / mb && c <= n / mb + 1;
    }
    sym_assert(bal, "bins of distinct values hold about the same number of samples");
    sym_reach("bins");
}
// thresholds never run over the space reserved for a feature, whatever the number of bins
HARNESS(bins_many) {
    int mb = sym_choose("mb", 2, 65);
    if (mb == 65) mb = 4175; // accumulated quantiles in single precision ran over
    int n = 2 * mb + sym_choose("more", 0, 2);
    bool f = sym_choose("f", 0, 1);
    auto go = [&](auto z) {
        typedef decltype(z) T;
        std::vector<T> X(n);
        for (int i = 0; i < n; i++) X[i] = (T)i;
        bins<T> b(mb, n, 1);
        b.compute_thresholds(X, 0, 0);
        sym_assert(b.get_nbins()[0] == mb, "distinct values use all the bins");
    };
    f ? go(0.f) : go(0.);
    sym_reach("bins");
}
// impurity of a node
template <class T> static void scoring() {
    int nc = sym_choose("nc", 1, 3), n = 0;
    std::vector<da_int> c(nc);
    for (int k = 0; k < nc; k++) { int q = (int)sym_choose("c", 0, 6); c[k] = q < 4 ? q : q == 4 ? 50 : q == 5 ? 997 : 20011, n += c[k]; }
    if (!n) return;
    T g = gini_score<T>(n, nc, c), e = entropy_score<T>(n, nc, c), m = misclassification_score<T>(n, nc, c);
    double G = 1, E = 0, M = 0;
    for (int k = 0; k < nc; k++) {
        double p = (double)c[k] / n;
        G -= p * p;
        if (c[k]) E -= p * std::log2(p);
        M = p > M ? p : M;
    }
    sym_assert(std::fabs(g - G) < 1e-6, "gini impurity");
    sym_assert(std::fabs(e - E) < 1e-6, "entropy");
    sym_assert(std::fabs(m - (1 - M)) < 1e-6, "misclassification rate");
    sym_reach("score");
}
HARNESS(score_d) { scoring<double>(); }
HARNESS(score_f) { scoring<float>(); }

// ---- training ------------------------------------------------------------------------------------------------
static const char *scorers[] = {"gini", "cross-entropy", "misclassification-error"};
static const char *noyes[] = {"no", "yes"};
struct Cfg {
    int n, nf, nc = 2, method = 0, maxd = 29, minn = 1, hist = 0, onevall = 0, catopt = 0, boot = 0, row = 0, pad = 0, bins = 3;
    double minimp = 0, minscore = 0;
};
template <class T> struct Ref {
    Cfg c;
    T v[8][8];                 // values sample x feature
    int y[8], w[8];
    int cat[8][8];             // bin of a sample (histogram) or category
    int ncat[8];
    bool catf[8];              // one-vs-all feature
    int N = 0;                 // all observations
    double imp(const int *cnt, int tot) const {
        double s = 0, mx = 0;
        for (int k = 0; k < c.nc; k++) {
            double p = (double)cnt[k] / tot;
            if (c.method == 0) s += p * p;
            else if (c.method == 1) s -= cnt[k] ? p * std::log2(p) : 0;
            else mx = p > mx ? p : mx;
        }
        return c.method == 0 ? 1 - s : c.method == 1 ? s : 1 - mx;
    }
    int count(unsigned set, int *cnt) const {
        int t = 0;
        for (int k = 0; k < c.nc; k++) cnt[k] = 0;
        for (int i = 0; i < c.n; i++) if (set >> i & 1) cnt[y[i]] += w[i], t += w[i];
        return t;
    }
    double imp(unsigned set, int &tot) const {
        int cnt[4];
        tot = count(set, cnt);
        return tot ? imp(cnt, tot) : 0;
    }
    // the samples a split on feature f at sample i's value (or category k) sends left
    unsigned left(unsigned set, int f, int i) const {
        unsigned l = 0;
        for (int s = 0; s < c.n; s++)
            if (set >> s & 1) {
                bool in = catf[f] ? cat[s][f] == cat[i][f] : c.hist ? cat[s][f] <= cat[i][f] : v[s][f] <= v[i][f];
                if (in) l |= 1u << s;
            }
        return l;
    }
    // best impurity after one admissible split of the set, or -1
    double best(unsigned set) const {
        double b = -1;
        int tot, tl, tr;
        imp(set, tot);
        for (int f = 0; f < c.nf; f++)
            for (int i = 0; i < c.n; i++)
                if (set >> i & 1) {
                    unsigned l = left(set, f, i), r = set & ~l;
                    if (!r) continue;
                    double il = imp(l, tl), ir = imp(r, tr);
                    if (tl < c.minn || tr < c.minn) continue;
                    double s = (il * tl + ir * tr) / tot;
                    if (b < 0 || s < b) b = s;
                }
        return b;
    }
};
struct Bad { bool part = false, count = false, pred = false, pure = false, minn = false, score = false, best = false, leaf = false, depth = false, imp = false; int leaves = 0, nodes = 0, depthmax = 0; };
template <class T> static void walk(const Ref<T> &R, const std::vector<node<T>> &tree, int id, int parent, unsigned set, int depth, Bad &b, int *leaf) {
    const node<T> &nd = tree[id];
    int cnt[4], tot = R.count(set, cnt), t2, top = 0;
    double sc = R.imp(set, t2), eps = 1e-6;
    b.nodes++;
    if (depth > b.depthmax) b.depthmax = depth;
    b.part |= nd.parent_idx != parent;
    b.depth |= nd.depth != depth;
    b.count |= nd.n_samples != tot;
    for (int k = 1; k < R.c.nc; k++) if (cnt[k] > cnt[top]) top = k;
    b.pred |= nd.y_pred != top;
    b.score |= std::fabs(nd.score - sc) > eps;
    double bs = R.best(set), gain = (double)tot / R.N * (sc - bs);
    bool improving = bs >= 0 && bs < sc - eps && gain > R.c.minimp + eps;
    bool forced = depth >= R.c.maxd || (id && (tot < 2 * R.c.minn || sc <= R.c.minscore + eps));
    if (nd.is_leaf) {
        b.leaves++;
        b.leaf |= improving && !forced;
        for (int i = 0; i < R.c.n; i++) if (set >> i & 1) leaf[i] = id;
        return;
    }
    b.depth |= depth >= R.c.maxd;
    b.minn |= id && (tot < 2 * R.c.minn);
    unsigned l = 0;
    for (int i = 0; i < R.c.n; i++)
        if (set >> i & 1) {
            T x = R.v[i][nd.feature];
            if (nd.prop == categorical_onevall ? std::round(x) == nd.category : x < nd.x_threshold) l |= 1u << i;
        }
    unsigned r = set & ~l;
    b.part |= !l || !r;
    int tl, tr;
    double il = R.imp(l, tl), ir = R.imp(r, tr), s = (il * tl + ir * tr) / tot;
    b.minn |= tl < R.c.minn || tr < R.c.minn;
    b.best |= s > bs + eps;
    b.imp |= (double)tot / R.N * (sc - s) < R.c.minimp - eps;
    if (!l || !r) return;
    walk(R, tree, nd.left_child_idx, id, l, depth + 1, b, leaf);
    walk(R, tree, nd.right_child_idx, id, r, depth + 1, b, leaf);
}
// X: values by sample and feature
template <class T> static void train(Cfg c, T (*x)[8], const int *y, const da_int *cats, da_int *draws, int ndraw) {
    Ref<T> R;
    R.c = c;
    da_int ld = (c.row ? c.nf : c.n) + c.pad;
    T X[96];
    for (int i = 0; i < 96; i++) X[i] = (T)-3;
    da_int yy[8];
    for (int i = 0; i < c.n; i++) {
        R.y[i] = y[i]; yy[i] = y[i]; R.w[i] = c.boot ? 0 : 1;
        for (int j = 0; j < c.nf; j++) {
            R.v[i][j] = x[i][j];
            at(X, c.row ? row_major : column_major, ld, i, j) = x[i][j];
        }
    }
    if (c.boot) for (int i = 0; i < ndraw; i++) R.w[draws[i]]++;
    for (int j = 0; j < c.nf; j++) R.catf[j] = false;
    if (cats && c.onevall) for (int j = 0; j < c.nf; j++) if (cats[j] > 0) { R.catf[j] = true; for (int i = 0; i < c.n; i++) R.cat[i][j] = (int)std::round(x[i][j]); }
    if (c.hist) {
        T Xc[64];
        for (int i = 0; i < c.n; i++) for (int j = 0; j < c.nf; j++) Xc[j * c.n + i] = x[i][j];
        bins<T> b(c.bins, c.n, c.nf);
        b.compute_histograms(Xc, c.n, c.nf, c.n);
        for (int j = 0; j < c.nf; j++) {
            R.catf[j] = c.onevall && b.get_nbins()[j] < b.max_bin;
            for (int i = 0; i < c.n; i++) R.catf[j] &= x[i][j] == (T)b.get_bins()[j * c.n + i];
            for (int i = 0; i < c.n; i++) R.cat[i][j] = sym_conc(b.get_bins()[j * c.n + i]);
        }
    }
    da_errors::da_error_t err(da_errors::DA_RECORD);
    decision_tree<T> tree(err);
    auto &o = tree.opts;
    bool set = true;
    set &= o.set("scoring function", scorers[c.method]) == da_status_success;
    set &= o.set("maximum depth", (da_int)c.maxd) == da_status_success;
    set &= o.set("node minimum samples", (da_int)c.minn) == da_status_success;
    set &= o.set("minimum impurity decrease", (T)c.minimp) == da_status_success;
    set &= o.set("minimum split score", (T)c.minscore) == da_status_success;
    set &= o.set("storage order", c.row ? "row-major" : "column-major") == da_status_success;
    set &= o.set("histogram", noyes[c.hist]) == da_status_success;
    set &= o.set("maximum bins", (da_int)c.bins) == da_status_success;
    set &= o.set("category split strategy", c.onevall ? "one-vs-all" : "ordered") == da_status_success;
    set &= o.set("seed", (da_int)42) == da_status_success;
    sym_assert(set, "options accepted");
    if (c.boot) tree.set_bootstrap(true);
    sym_assert(tree.set_training_data(c.n, c.nf, X, ld, yy, c.nc, c.boot ? ndraw : 0, draws, cats) == da_status_success, "training data accepted");
    sym_assert(tree.fit() == da_status_success, "training succeeds");
    unsigned all = 0;
    for (int i = 0; i < c.n; i++) { R.N += R.w[i]; if (R.w[i]) all |= 1u << i; }
    Bad b;
    int leaf[8] = {-1, -1, -1, -1, -1, -1, -1, -1};
    walk(R, tree.get_tree(), 0, -1, all, 0, b, leaf);
    sym_assert(!b.part, "a split sends samples to both children, which point back to it");
    sym_assert(!b.count, "a node counts its training samples");
    sym_assert(!b.pred, "a node predicts its most frequent class");
    sym_assert(!b.score, "a node's score is the impurity of its samples");
    sym_assert(!b.minn, "no split leaves fewer samples than allowed");
    sym_assert(!b.depth, "depths are right and bounded");
    sym_assert(!b.best, "every split has the least impurity of all admissible ones");
    sym_assert(!b.imp, "every split improves the impurity enough");
    sym_assert(!b.leaf, "no leaf has an admissible improving split");
    T info[8];
    da_int dim = 8;
    sym_assert(tree.get_result(da_rinfo, &dim, info) == da_status_success, "training information available");
    sym_assert(info[0] == c.nf && info[1] == c.n && info[4] == b.depthmax && info[5] == b.nodes && info[6] == b.leaves, "training information describes the tree");
    // inference on the training samples
    da_int yp[8], t;
    T pr[24];
    bool pok = true, prok = true;
    sym_assert(tree.predict(c.n, c.nf, X, ld, yp) == da_status_success, "prediction succeeds");
    da_int ldp = c.row ? c.nc : c.n;
    sym_assert(tree.predict_proba(c.n, c.nf, X, ld, pr, c.nc, ldp) == da_status_success, "probabilities available");
    for (int i = 0; i < c.n; i++)
        if (leaf[i] >= 0) {
            int cnt[4] = {0, 0, 0, 0}, tot = 0, top = 0;
            for (int s = 0; s < c.n; s++) if (leaf[s] == leaf[i]) cnt[y[s]] += R.w[s], tot += R.w[s];
            for (int k = 1; k < c.nc; k++) if (cnt[k] > cnt[top]) top = k;
            pok &= yp[i] == top;
            for (int k = 0; k < c.nc; k++) prok &= std::fabs(at(pr, c.row ? row_major : column_major, ldp, i, k) - (T)cnt[k] / tot) < 1e-6;
        }
    sym_assert(pok, "a training sample is predicted the majority class of its leaf");
    sym_assert(prok, "class probabilities are the class proportions of the leaf");
    sym_reach("tree");
}
template <class T> static void train1(Cfg c, int xr, int sh) { // one feature, free
    T x[8][8];
    int y[8];
    for (int i = 0; i < c.n; i++) y[i] = i < c.n - 3 - TT ? i == 1 : sym_choose("y", 0, 1);
    for (int i = 0; i < c.n; i++) x[i][0] = i == 0 && c.n > 4 && !TT ? (T)1 : sym_dyT<T>("x", 0, xr, sh);
    c.nf = 1;
    train<T>(c, x, y, nullptr, nullptr, 0);
}
HARNESS(tree_one) {
    sym_omp(1, 0);
    Cfg c;
    c.n = sym_choose("n", 2, 4 + TT);
    c.method = sym_choose("method", 0, 2);
    c.minn = c.n == 4 && !TT ? 1 + (c.method == 1) : sym_choose("minn", 1, 2);
    train1<double>(c, 3, -1);
}
HARNESS(tree_five) {
    sym_omp(1, 0);
    Cfg c;
    c.n = 5 + TT;
    train1<double>(c, 2, 0);
}
HARNESS(tree_limits) {
    sym_omp(1, 0);
    Cfg c;
    c.n = 4;
    int k = sym_choose("limit", 0, 3);
    c.maxd = k == 0 ? 1 : k == 1 ? 0 : 29;
    if (k == 2) c.minimp = 0.125;
    if (k == 3) c.minscore = 0.45, c.minn = 2;
    train1<double>(c, 3, -1);
}
// two features, a second or third class, layouts
template <class T> static void train2(Cfg c) {
    T x[8][8];
    int y[8], fs = sym_choose("free", 0, 1);
    for (int i = 0; i < c.n; i++) y[i] = (i * 2 + i / 3) % c.nc;
    y[0] = sym_choose("y0", 0, c.nc - 1);
    y[2] = sym_choose("y2", 0, c.nc - 1);
    for (int i = 0; i < c.n; i++) x[i][fs] = c.hist && i > 3 ? (T)(i % 3) : sym_dyT<T>("x", 0, 2, 0), x[i][1 - fs] = (T)((i * 3) % 5 / 2);
    c.nf = 2;
    train<T>(c, x, y, nullptr, nullptr, 0);
}
HARNESS(tree_two) {
    sym_omp(1, 0);
    Cfg c;
    c.n = 4;
    c.nc = sym_choose("nc", 2, 3);
    c.row = sym_choose("row", 0, 1);
    c.pad = TT ? sym_choose("pad", 0, 1) : c.row == (c.nc == 2);
    (TT ? sym_choose("f", 0, 1) : c.row) ? train2<float>(c) : train2<double>(c);
}
HARNESS(tree_hist) {
    sym_omp(1, 0);
    Cfg c;
    c.hist = 1;
    c.n = sym_choose("n", 5, 6);
    c.bins = c.n == 5 ? 2 : 3;
    int lay = c.n == 5;
    c.row = lay == 1;
    c.pad = lay == 0;
    train2<double>(c);
}
// neighbouring floating-point numbers: the threshold must separate them for training and prediction alike
HARNESS(tree_adjacent) {
    sym_omp(1, 0);
    Cfg c;
    c.n = 4;
    c.nf = 1;
    float x[8][8];
    int y[8];
    float base = sym_choose("neg", 0, 1) ? -16777224.f : 16777216.f;
    for (int i = 0; i < c.n; i++) y[i] = sym_choose("y", 0, 1), x[i][0] = base + (float)(2 * sym_choose("x", 0, 3));
    train<float>(c, x, y, nullptr, nullptr, 0);
}
// huge values: the midpoint must not overflow
HARNESS(tree_huge) {
    sym_omp(1, 0);
    Cfg c;
    c.n = 3;
    c.nf = 1;
    double x[8][8];
    int y[8];
    static const double big[] = {-1.7e308, -1e308, 0, 1e308, 1.7e308};
    for (int i = 0; i < c.n; i++) y[i] = sym_choose("y", 0, 1), x[i][0] = big[sym_choose("x", 0, 4)];
    train<double>(c, x, y, nullptr, nullptr, 0);
}
// ties below the smallest admissible node
HARNESS(tree_ties) {
    sym_omp(1, 0);
    Cfg c;
    c.n = 6;
    c.minn = 3;
    train1<double>(c, 1, 0);
}
// categorical features: one category against the others, raw and binned, weighted and not
static void cats(int hist, int boot) {
    sym_omp(1, 0);
    Cfg c;
    c.onevall = 1;
    c.hist = hist;
    c.boot = boot;
    c.n = hist ? 8 : 5 - boot;
    c.bins = 8;
    c.nf = 1;
    c.minn = sym_choose("minn", 1, 2);
    double x[8][8];
    int y[8];
    da_int cat[2] = {3, 0};
    for (int i = 0; i < c.n; i++) y[i] = i < (boot ? 2 : 5) ? sym_choose("y", 0, 1) : i == 5 || i == 2;
    for (int i = 0; i < c.n; i++) x[i][0] = !hist || i < 3 ? (double)sym_choose("x", 0, 2) : i < 5 ? 0 : i < 7 ? 2 : 1;
    if (hist && sym_choose("spaced", 0, 1)) for (int i = 0; i < c.n; i++) x[i][0] = x[i][0] * 1.5 - 1; // few values, but not categories 0, 1, ...
    da_int dr[8];
    int nd = c.n;
    for (int i = 0; i < nd; i++) dr[i] = boot ? (i < 2 + TT ? (da_int)sym_choose("draw", 0, c.n - 1) : i - 1) : i;
    train<double>(c, x, y, hist ? nullptr : cat, boot ? dr : nullptr, nd);
}
HARNESS(tree_cat) { cats(0, 0); }
HARNESS(tree_cat_boot) { cats(0, 1); }
HARNESS(tree_cat_hist) { cats(1, 0); }
// bootstrap draws with repetition
HARNESS(tree_boot) {
    sym_omp(1, 0);
    Cfg c;
    c.n = 4;
    c.nf = 1;
    c.boot = 1;
    c.hist = sym_choose("hist", 0, 1);
    c.bins = 2;
    c.minn = c.hist ? 1 : sym_choose("minn", 1, 2);
    double x[8][8];
    int y[8];
    da_int dr[4];
    for (int i = 0; i < c.n; i++) y[i] = i < 1 ? sym_choose("y", 0, 1) : i & 1;
    for (int i = 0; i < c.n; i++) x[i][0] = sym_dy("x", 0, 2, 0);
    for (int i = 0; i < 4; i++) dr[i] = i < 2 ? (da_int)sym_choose("draw", 0, 3) : i;
    train<double>(c, x, y, nullptr, dr, 4);
}
// several threads search the features of a node
HARNESS(tree_par) {
    sym_omp(2, sym_choose("ord", 0, 1));
    Cfg c;
    c.n = 4;
    c.nf = 8;
    c.hist = sym_choose("hist", 0, 1);
    c.bins = 2;
    double x[8][8];
    int y[8], fs = sym_choose("free", 0, 1) * 5;
    for (int i = 0; i < c.n; i++) y[i] = i < 2 ? sym_choose("y", 0, 1) : i & 1;
    for (int i = 0; i < c.n; i++) for (int j = 0; j < 8; j++) x[i][j] = j == fs ? sym_dy("x", 0, 3, 0) : j & 1 ? 1 : (double)((i * (j + 1)) % 3 / 2);
    train<double>(c, x, y, nullptr, nullptr, 0);
}
