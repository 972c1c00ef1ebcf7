// C27 decision trees, C28 decision forests
#include "vt.hpp"
using namespace vt;
namespace {
DAF(da_tree_set_training_data) DAF(da_tree_fit) DAF(da_tree_predict) DAF(da_tree_predict_proba) DAF(da_tree_predict_log_proba) DAF(da_tree_score)
DAF(da_forest_set_training_data) DAF(da_forest_fit) DAF(da_forest_predict) DAF(da_forest_predict_proba) DAF(da_forest_predict_log_proba) DAF(da_forest_score)

const char *crits[] = {"gini", "cross-entropy", "misclassification-error"};
struct TOpt {
    bool forest = false;
    int crit = 0, depth = 29, min_ns = 1, maxfeat = 0, maxbins = 256, seed = 1, maxcat = 50, ntree = 1, block = 256, bootstrap = 0, tthreads = 0;
    int featsel = 0; // 0 all 1 custom 2 proportion 3 sqrt 4 log2
    double minscore = 0, minimp = 0, thresh = 1e-5, factor = 1, prop = 0.5;
    bool hist = false, onevall = false, detect = false, usercat = false;
};
struct TreeOut {
    bool ok = false;
    LM proba, logp; std::vector<double> pred, rinfo; double score = 0;
};
const char *fsel[] = {"all", "custom", "proportion", "sqrt", "log2"};

template <class T> struct Runner {
    Var v; std::vector<da_int> y, cat; bool usecat;
    // fits on X, y; predicts at Q; everything obtained
    TreeOut go(const LM &X, const std::vector<int> &yy, int nclass_arg, int nclass, const LM &Q, const std::vector<int> &yq, const TOpt &t, const std::vector<int> *catf, Outcome *o, bool all, int refit = 0) {
        TreeOut r; Handle h; Outcome dummy; if (!o) o = &dummy;
        o->add("init", DA(da_handle_init)(&h.h, t.forest ? da_handle_decision_forest : da_handle_decision_tree));
        hook<T>(h, "init");
        o->add("order", set_str(h, "storage order", v.order == row_major ? "row-major" : "column-major"));
        if (v.check_data) o->add("check", set_str(h, "check data", "yes"));
        o->add("crit", set_str(h, "scoring function", crits[t.crit]));
        o->add("depth", set_int(h, "maximum depth", t.depth));
        o->add("min_ns", set_int(h, "node minimum samples", t.min_ns));
        o->add("maxfeat", set_int(h, "maximum features", t.maxfeat));
        o->add("seed", set_int(h, "seed", t.seed));
        o->add("minscore", set_real<T>(h, "minimum split score", (T)t.minscore));
        o->add("minimp", set_real<T>(h, "minimum impurity decrease", (T)t.minimp));
        o->add("thresh", set_real<T>(h, "feature threshold", (T)t.thresh));
        o->add("hist", set_str(h, "histogram", t.hist ? "yes" : "no"));
        o->add("bins", set_int(h, "maximum bins", t.maxbins));
        o->add("strat", set_str(h, "category split strategy", t.onevall ? "one-vs-all" : "ordered"));
        if (!t.forest) {
            o->add("detect", set_str(h, "detect categorical data", t.detect ? "yes" : "no"));
            o->add("maxcat", set_int(h, "maximum categories", t.maxcat));
        } else {
            o->add("ntree", set_int(h, "number of trees", t.ntree));
            o->add("block", set_int(h, "block size", t.block));
            o->add("bootstrap", set_str(h, "bootstrap", t.bootstrap ? "yes" : "no"));
            o->add("factor", set_real<T>(h, "bootstrap samples factor", (T)t.factor));
            o->add("featsel", set_str(h, "features selection", fsel[t.featsel]));
            o->add("prop", set_real<T>(h, "proportion features", (T)t.prop));
            o->add("tthreads", set_int(h, "maximum tree threads", t.tthreads));
        }
        auto bx = Buf<T>::input("X", X, v.order, v.pad);
        auto bq = Buf<T>::input("X_test", Q, v.order, v.pad);
        std::unique_ptr<da_int[]> by(new da_int[yy.size()]), byq(new da_int[yq.size()]), bc(new da_int[(size_t)X.m]);
        for (size_t i = 0; i < yy.size(); i++) by[i] = yy[i];
        for (size_t i = 0; i < yq.size(); i++) byq[i] = yq[i];
        if (catf) for (int64_t j = 0; j < X.m; j++) bc[j] = (*catf)[j];
        da_status s = da_status_success;
        hook<T>(h, "opts");
        for (int rep = 0; rep <= refit; rep++) {
            s = t.forest ? DA(da_forest_set_training_data)(h, X.n, X.m, nclass_arg, bx.data(), bx.ldi(), by.get(), catf ? bc.get() : nullptr)
                         : DA(da_tree_set_training_data)(h, X.n, X.m, nclass_arg, bx.data(), bx.ldi(), by.get(), catf ? bc.get() : nullptr);
            if (rep == refit) o->add("data", s);
            if (rep == refit) hook<T>(h, "data");
            s = t.forest ? DA(da_forest_fit)(h) : DA(da_tree_fit)(h);
            if (rep == refit) o->add("fit", s);
        }
        if (s) return r;
        hook<T>(h, "computed");
        Buf<T> pr("y_proba", Q.n, nclass, v.order, v.opad), lp("y_log_proba", Q.n, nclass, v.order, v.opad);
        Buf<da_int> yp("y_pred", Q.n, 1);
        s = o->add("proba", t.forest ? DA(da_forest_predict_proba)(h, Q.n, Q.m, bq.data(), bq.ldi(), pr.data(), nclass, pr.ldi()) : DA(da_tree_predict_proba)(h, Q.n, Q.m, bq.data(), bq.ldi(), pr.data(), nclass, pr.ldi()));
        if (s) return r;
        r.proba = pr.lm();
        pr.verify();
        r.rinfo = get_real<T>(h, da_rinfo, o, "rinfo");
        if (all) {
            s = o->add("predict", t.forest ? DA(da_forest_predict)(h, Q.n, Q.m, bq.data(), bq.ldi(), yp.data()) : DA(da_tree_predict)(h, Q.n, Q.m, bq.data(), bq.ldi(), yp.data()));
            r.pred = yp.vecd();
            s = o->add("logproba", t.forest ? DA(da_forest_predict_log_proba)(h, Q.n, Q.m, bq.data(), bq.ldi(), lp.data(), nclass, lp.ldi()) : DA(da_tree_predict_log_proba)(h, Q.n, Q.m, bq.data(), bq.ldi(), lp.data(), nclass, lp.ldi()));
            r.logp = lp.lm(); lp.verify();
            T sc = -1;
            s = o->add("score", t.forest ? DA(da_forest_score)(h, Q.n, Q.m, bq.data(), bq.ldi(), byq.get(), &sc) : DA(da_tree_score)(h, Q.n, Q.m, bq.data(), bq.ldi(), byq.get(), &sc));
            r.score = (double)sc;
        }
        hook<T>(h, "end");
        bx.verify(); bq.verify();
        for (size_t i = 0; i < yy.size(); i++) if (by[i] != yy[i]) { fail("tree:input-modified:y", "labels were modified"); break; }
        r.ok = true;
        return r;
    }
};

long double impurity(int crit, const std::vector<long double> &c) {
    long double n = 0, s = 0, mx = 0;
    for (auto x : c) n += x, mx = std::max(mx, x);
    if (n == 0) return 0;
    if (crit == 2) return 1 - mx / n;
    for (auto x : c) { long double p = x / n; if (crit == 0) s += p * p; else if (p > 0) s -= p * log2l(p); }
    return crit == 0 ? 1 - s : s;
}

// one way of splitting a node
struct Cand { int f; bool cat; double lo, hi; int c; long double score; long double nl, nr; bool sure; };

// the monitor of one tree: reconstructs, from the probabilities predicted by trees of increasing
// depth on the same data, which training and query points share a node, and judges every split
struct TreeMonitor {
    std::string D; const LM &P; // training points first, then queries
    int64_t n; int nclass; const std::vector<int> &y; const std::vector<long double> &w; TOpt t; bool f32;
    std::vector<int> kind;                     // per feature: 0 continuous, k>0 categorical with k categories split one against all
    std::vector<std::vector<int>> bin;         // histogram mode: bin of each training point, per feature
    std::vector<int> nbin;
    bool bad = false; long long splits = 0, leaves = 0, ambiguous = 0, ties = 0; int depth = 0;
    std::vector<std::vector<int>> groups;      // members of each node, training and queries
    std::vector<char> amb, done;
    double eps() const { return f32 ? 3e-6 : 1e-12; }
    TreeMonitor(const std::string &d, const LM &p, int64_t n_, int nc, const std::vector<int> &y_, const std::vector<long double> &w_, const TOpt &t_, bool f) : D(d), P(p), n(n_), nclass(nc), y(y_), w(w_), t(t_), f32(f) {}
    std::vector<long double> counts(const std::vector<int> &g) const {
        std::vector<long double> c((size_t)nclass, 0);
        for (int i : g) if (i < n) c[y[i]] += w[i];
        return c;
    }
    static long double sum(const std::vector<long double> &c) { long double s = 0; for (auto x : c) s += x; return s; }
    void err(const char *key, const std::string &m) { bad = true; fail(std::string("tree:") + key, "%s: %s", D.c_str(), m.c_str()); }
    // all the splits of a node, judged; unsure ones are those on which the reading of "feature threshold" matters
    std::vector<Cand> candidates(const std::vector<int> &g) const {
        std::vector<Cand> out;
        auto tot = counts(g);
        long double N = sum(tot);
        for (int f = 0; f < P.m; f++) {
            std::vector<int> tr;
            for (int i : g) if (i < n && w[i] > 0) tr.push_back(i);
            if (kind[f] > 0) {
                for (int c = 0; c < kind[f]; c++) {
                    std::vector<long double> l((size_t)nclass, 0), r = tot;
                    for (int i : tr) { int cc = t.hist ? bin[f][i] : (int)std::lround(P(i, f)); if (cc == c) l[y[i]] += w[i], r[y[i]] -= w[i]; }
                    long double nl = sum(l), nr = N - nl;
                    if (nl <= 0 || nr <= 0) continue;
                    out.push_back({f, true, 0, 0, c, (impurity(t.crit, l) * nl + impurity(t.crit, r) * nr) / N, nl, nr, true});
                }
                continue;
            }
            std::sort(tr.begin(), tr.end(), [&](int a, int b) { return P(a, f) < P(b, f); });
            std::vector<long double> l((size_t)nclass, 0), r = tot;
            for (size_t k = 0; k + 1 < tr.size(); k++) {
                l[y[tr[k]]] += w[tr[k]]; r[y[tr[k]]] -= w[tr[k]];
                double a = P(tr[k], f), b = P(tr[k + 1], f);
                bool sure = true;
                if (t.hist) { if (bin[f][tr[k]] == bin[f][tr[k + 1]]) continue; }
                else {
                    if (!(b > a)) continue;
                    double th = f32 ? (double)(float)t.thresh : t.thresh;
                    if (b - a < th * (1 + 1e-6)) sure = false;
                }
                long double nl = sum(l), nr = N - nl;
                out.push_back({f, false, a, b, 0, (impurity(t.crit, l) * nl + impurity(t.crit, r) * nr) / N, nl, nr, sure});
            }
        }
        return out;
    }
    bool allowed(const Cand &c) const { return c.nl >= t.min_ns && c.nr >= t.min_ns; }
    void start(const LM &pr) {
        groups.assign(1, {});
        for (int i = 0; i < P.n; i++) groups[0].push_back(i);
        amb.assign(1, 0); done.assign(1, 0);
        check_leaf(groups[0], pr, 0);
    }
    // the predicted probabilities of a node are the class frequencies of its training points
    void check_leaf(const std::vector<int> &g, const LM &pr, int d) {
        auto c = counts(g); long double N = sum(c);
        if (g.empty()) return;
        if (N <= 0) { err("empty-leaf", fmt("at depth %d a query reaches a leaf that holds no training sample", d)); return; }
        for (int i : g) for (int k = 0; k < nclass; k++)
            if (!(fabsl(pr(i, k) - c[k] / N) <= (f32 ? 1e-6 : 1e-14))) {
                err("leaf-frequencies", fmt("depth limit %d: point %d gets probability %.9g of class %d; the %Lg training samples predicted alike have frequency %.9Lg", d, i, pr(i, k), k, N, c[k] / N));
                return;
            }
    }
    // probabilities of the tree limited to depth d: every group either stays or is split in two
    void step(const LM &pr, int d) {
        std::vector<std::vector<int>> ng; std::vector<char> na, nd;
        for (size_t gi = 0; gi < groups.size() && !bad; gi++) {
            auto &g = groups[gi];
            std::map<std::vector<double>, std::vector<int>> parts;
            for (int i : g) { std::vector<double> row((size_t)nclass); for (int k = 0; k < nclass; k++) row[k] = pr(i, k); parts[row].push_back(i); }
            if (amb[gi]) { ng.push_back(g); na.push_back(1); nd.push_back(1); continue; }
            auto cand = candidates(g);
            auto tot = counts(g); long double N = sum(tot), s0 = impurity(t.crit, tot), NT = sum(std::vector<long double>(w.begin(), w.end()));
            long double best = 1e30, best_any = 1e30; 
            for (auto &c : cand) if (allowed(c)) { if (c.sure) best = std::min(best, c.score); best_any = std::min(best_any, c.score); }
            long double need = std::max(0.0L, (long double)(f32 ? (double)(float)t.minimp : t.minimp));
            auto improvement = [&](long double sc) { return N / NT * (s0 - sc); };
            static const bool dbg = getenv("VT_DBG");
            if (dbg) fprintf(stderr, "depth %d group %zu size %zu N %Lg s0 %.12Lg best %.12Lg any %.12Lg improvement %Lg parts %zu done %d\n", d, gi, g.size(), N, s0, best, best_any, best_any < 1e29 ? improvement(best_any) : -1, parts.size(), done[gi]);
            if (parts.size() == 1) {
                if (s0 > 0 && best < 1e29 && improvement(best) > need + eps() && s0 > t.minscore + eps() && (d == 1 || N >= 2 * t.min_ns) && !done[gi] && !subset()) {
                    err("missed-split", fmt("depth limit %d: a node with %Lg samples and impurity %.9Lg is not split although a split of impurity %.9Lg is available", d, N, s0, best));
                    return;
                }
                // a split that improves by rounding only shows in no probability
                if (!done[gi] && s0 > t.minscore - eps() && s0 > 0 && best_any < 1e29 && fabsl(improvement(best_any) - need) <= 2 * eps() && need <= eps()) { ambiguous++; na.push_back(1); nd.push_back(1); }
                else { na.push_back(0); nd.push_back(1); }
                ng.push_back(g);
                continue;
            }
            if (parts.size() > 2) { err("node-in-many", fmt("depth limit %d: a node of the tree limited to one level less is divided in %zu", d, parts.size())); return; }
            if (done[gi]) { err("late-split", fmt("depth limit %d: a node that was a leaf under smaller depth limits is split", d)); if (dbg) for (int i : g) { fprintf(stderr, " %d:", i); for (int j = 0; j < P.m; j++) fprintf(stderr, " %.9g", P(i, j)); fprintf(stderr, " ->"); for (int k = 0; k < nclass; k++) fprintf(stderr, " %.9g", pr(i, k)); fprintf(stderr, "\n"); } return; }
            splits++;
            std::vector<int> A = parts.begin()->second, B = std::next(parts.begin())->second;
            if (s0 <= t.minscore - eps()) err("split-pure", fmt("depth limit %d: a node of impurity %.9Lg was split, minimum split score %g", d, s0, t.minscore));
            check_leaf(A, pr, d); if (!bad) check_leaf(B, pr, d);
            if (bad) return;
            // which candidate is it
            std::vector<char> inA((size_t)P.n, 0);
            for (int i : A) inA[i] = 1;
            const Cand *hit = nullptr; bool train_hit = false;
            for (auto &c : cand) {
                bool ok = true, side = false, first = true;
                auto left = [&](int i) { return c.cat ? (t.hist ? false : std::round(P(i, c.f)) == c.c) : P(i, c.f) <= c.lo; };
                for (int i : g) if (i < n && w[i] > 0) {
                    bool l = c.cat && t.hist ? bin[c.f][i] == c.c : left(i);
                    if (first) side = (l == (bool)inA[i]), first = false;
                    if ((l == (bool)inA[i]) != side) { ok = false; break; }
                }
                if (!ok) continue;
                train_hit = true;
                // queries: below lo left, above hi right, monotone in between
                double maxl = -1e300, minr = 1e300;
                for (int i : g) {
                    if (i < n && w[i] > 0) continue;
                    bool l = ((bool)inA[i] == side);
                    if (c.cat) { if (!t.hist && left(i) != l) ok = false; continue; }
                    double x = P(i, c.f);
                    if (l) maxl = std::max(maxl, x); else minr = std::min(minr, x);
                }
                if (!c.cat && (maxl >= c.hi || minr <= c.lo || maxl >= minr)) ok = false;
                if (ok && (!hit || c.score < hit->score)) hit = &c;
            }
            if (!hit) { err(train_hit ? "query-routing" : "not-a-split", fmt("depth limit %d: the division of a node with %Lg samples is %s", d, N, train_hit ? "not what its queries follow" : "no threshold on any feature")); return; }
            if (!allowed(*hit)) { err("minimum-samples", fmt("depth limit %d: a child has %Lg and %Lg samples, minimum %d", d, hit->nl, hit->nr, t.min_ns)); return; }
            if (improvement(hit->score) < need - 2 * eps()) { err("useless-split", fmt("depth limit %d: split decreases impurity by %.9Lg, minimum %.9Lg", d, improvement(hit->score), need)); return; }
            if (!subset() && hit->score > best + 4 * eps()) { err("suboptimal-split", fmt("depth limit %d: node with %Lg samples split on feature %d with impurity %.12Lg, best available %.12Lg", d, N, hit->f, hit->score, best)); return; }
            if (subset() && d == 1 && t.forest) check_subset(cand, *hit, best);
            depth = std::max(depth, d);
            // equally good splits on different features: which one is taken depends on the nodes visited before,
            // hence on the depth limit
            char tie = 0; bool others = false;
            for (auto &c : cand) others |= c.f != hit->f && fabsl(c.score - hit->score) <= 4 * eps();
            if (others) for (auto &c : cand) if (fabsl(c.score - hit->score) <= 4 * eps() && !tie) {
                bool side = false, first = true;
                for (int i : g) {
                    bool l;
                    if (c.cat) { if (t.hist && !(i < n)) { tie = 1; break; } l = t.hist ? bin[c.f][i] == c.c : std::round(P(i, c.f)) == c.c; }
                    else { if (P(i, c.f) > c.lo && P(i, c.f) < c.hi) { tie = 1; break; } l = P(i, c.f) <= c.lo; }
                    if (first) side = l == (bool)inA[i], first = false;
                    if ((l == (bool)inA[i]) != side) { tie = 1; break; }
                }
            }
            ties += tie;
            if (dbg) { fprintf(stderr, "   hit feature %d cat %d c %d lo %.9g hi %.9g score %.12Lg tie %d:", hit->f, hit->cat, hit->c, hit->lo, hit->hi, hit->score, tie); for (int i : A) fprintf(stderr, " %d", i); fprintf(stderr, " |"); for (int i : B) fprintf(stderr, " %d", i); fprintf(stderr, "\n"); 
                for (auto &c : cand) fprintf(stderr, "      cand f %d cat %d c %d [%.9g %.9g] %.12Lg sure %d\n", c.f, c.cat, c.c, c.lo, c.hi, c.score, c.sure); }
            for (auto *q : {&A, &B}) { ng.push_back(*q); na.push_back(tie); nd.push_back(tie); }
        }
        if (bad) return;
        groups.swap(ng); amb.swap(na); done.swap(nd);
    }
    int ksub = 0; // number of features drawn per split, 0: all
    bool subset() const { return ksub > 0 && ksub < P.m; }
    void check_subset(const std::vector<Cand> &cand, const Cand &hit, long double) {
        // hit is the best of ksub features: at least ksub-1 others are no better
        std::map<int, long double> bf;
        for (auto &c : cand) if (allowed(c) && c.sure) { auto it = bf.find(c.f); if (it == bf.end() || c.score < it->second) bf[c.f] = c.score; }
        int better = 0;
        for (auto &x : bf) if (x.second < hit.score - 4 * eps()) better++;
        // the best of its own feature
        if (bf.count(hit.f) && hit.score > bf[hit.f] + 4 * eps()) { // another feature may give the same division
            bool other = false;
            (void)other;
        }
        if (better > P.m - ksub) err("feature-subset", fmt("%d of %lld features allow a better split than the one taken, %d are to be considered", better, (long long)P.m, ksub));
    }
    bool all_done() const { for (size_t i = 0; i < groups.size(); i++) if (!done[i]) return false; return true; }
    bool any_amb() const { for (char c : amb) if (c) return true; return false; }
};

struct TreeS : Scenario {
    LM X, Q; std::string dk; std::vector<int> y, yq, catf; bool usercat = false; int nclass_arg = 0, nclass = 2; TOpt t; int maxk = 12; bool deep = true;
    std::string describe() const override {
        return fmt("%s n=%lld m=%lld q=%lld classes=%d(%d) %s depth=%d min_ns=%d maxfeat=%d%s bins=%d thresh=%g minscore=%g minimp=%g%s%s%s%s seed=%d data=%s", t.forest ? "forest" : "tree", (long long)X.n, (long long)X.m, (long long)Q.n, nclass, nclass_arg, crits[t.crit], t.depth, t.min_ns, t.maxfeat, t.hist ? " hist" : "", t.maxbins, t.thresh, t.minscore, t.minimp, usercat ? " cat" : "", t.detect ? " detect" : "", t.onevall ? " one-vs-all" : "",
                   t.forest ? fmt(" trees=%d block=%d boot=%d factor=%g sel=%s prop=%g", t.ntree, t.block, t.bootstrap, t.factor, fsel[t.featsel], t.prop).c_str() : "", t.seed, dk.c_str());
    }
    bool ties() const override { return true; }
    int64_t features() const override { return X.m; }
    double tol_layout() const override { return 1e-9; }
    LM all() const { LM a(X.n + Q.n, X.m); std::copy(X.a.begin(), X.a.end(), a.a.begin()); std::copy(Q.a.begin(), Q.a.end(), a.a.begin() + X.a.size()); return a; }
    std::vector<int> yall() const { auto r = y; r.insert(r.end(), yq.begin(), yq.end()); return r; }
    template <class T> Outcome run_t(const Var &v) const {
        Outcome o; Runner<T> R; R.v = v;
        auto r = R.go(X, y, nclass_arg, nclass, all(), yall(), t, usercat ? &catf : nullptr, &o, true, v.refit);
        if (r.ok) { o.real("proba", r.proba.a, 1); o.disc("pred", r.pred); o.real("logp", r.logp.a, 1); o.real("score", {r.score}, 1); r.rinfo.back() = 0; o.real("rinfo", r.rinfo); }
        return o;
    }
    RUN_DISPATCH
    void check(const Outcome &o, const Var &v) const override { if (v.f32) check_t<float>(o, v); else check_t<double>(o, v); }
    template <class T> void check_t(const Outcome &o, const Var &v) const {
        std::string D = describe() + " " + v.str();
        bool impossible = t.hist && X.n < 4;
        for (auto &s : o.st) {
            if (s.second && impossible) { VCHECK(s.second == da_status_invalid_option || s.second == da_status_internal_error, "tree:status", "%s: %s gives %d", D.c_str(), s.first.c_str(), s.second); return; }
            VCHECK(s.second == 0, "tree:status:" + s.first, "%s: %s gives %d", D.c_str(), s.first.c_str(), s.second);
            if (s.second) return;
        }
        if (!o.get("rinfo")) return;
        LM P = all(), pr(P.n, nclass), lp(P.n, nclass); auto ya = yall();
        pr.a = o.get("proba")->v; lp.a = o.get("logp")->v;
        auto &pred = o.get("pred")->v; auto &ri = o.get("rinfo")->v;
        double eps = v.f32 ? 1e-6 : 1e-13, hits = 0;
        // outputs agree with one another
        for (int64_t i = 0; i < P.n; i++) {
            double s = 0, mx = 0;
            for (int c = 0; c < nclass; c++) {
                double p = pr(i, c); s += p; mx = std::max(mx, p);
                VCHECK(p >= 0 && p <= 1 + eps, "tree:proba-range", "%s: probability %g of class %d at point %lld", D.c_str(), p, c, (long long)i);
                double l = lp(i, c);
                VCHECK(p == 0 ? l == -INFINITY : std::fabs(l - std::log(p)) <= 10 * eps * (1 + std::fabs(l)), "tree:log-proba", "%s: log probability %.12g for probability %.12g", D.c_str(), l, p);
            }
            VCHECK(std::fabs(s - 1) <= 10 * eps, "tree:proba-sum", "%s: probabilities of point %lld sum to %.12g", D.c_str(), (long long)i, s);
            VCHECK(pred[i] >= 0 && pred[i] < nclass, "tree:pred-range", "%s: predicted class %g", D.c_str(), pred[i]);
            if (!(pred[i] >= 0 && pred[i] < nclass)) return;
            if (!t.forest || t.ntree == 1) VCHECK(pr(i, (int)pred[i]) >= mx - eps, "tree:majority", "%s: predicted class %g has probability %.9g, largest %.9g (point %lld)", D.c_str(), pred[i], pr(i, (int)pred[i]), mx, (long long)i);
            hits += pred[i] == ya[i];
        }
        VCHECK(std::fabs(o.get("score")->v[0] - hits / P.n) <= 10 * eps, "tree:score", "%s: score %.12g, labels agree for %.12g", D.c_str(), o.get("score")->v[0], hits / P.n);
        int64_t nobs = t.forest && t.bootstrap ? std::max<int64_t>(1, (int64_t)std::round((double)(T)X.n * (T)t.factor)) : X.n;
        if (t.forest) {
            VCHECK(ri.size() == 6 && ri[0] == X.m && ri[1] == X.n && std::fabs(ri[2] - nobs) <= (t.bootstrap ? 1 : 0) && ri[3] == (T)t.seed && ri[4] == t.ntree, "forest:rinfo", "%s: rinfo %g %g %g %g %g, samples drawn %lld", D.c_str(), ri[0], ri[1], ri[2], ri[3], ri[4], (long long)nobs);
            nobs = (int64_t)ri[2];
        } else
            VCHECK(ri.size() == 8 && ri[0] == X.m && ri[1] == X.n && ri[2] == X.n && ri[3] == (T)t.seed, "tree:rinfo", "%s: rinfo %g %g %g %g", D.c_str(), ri[0], ri[1], ri[2], ri[3]);
        if (!t.forest) VCHECK(ri[4] <= t.depth && ri[5] == 2 * ri[6] - 1, "tree:rinfo-tree", "%s: depth %g, limit %d; %g nodes and %g leaves", D.c_str(), ri[4], t.depth, ri[5], ri[6]);
        if (!deep) return;
        if (t.forest && t.ntree > 1) { check_forest<T>(o, v, D, pr); return; }
        Runner<T> R; Var va = v; va.refit = 0; va.check_data = 0; R.v = va;
        // weights of the samples (bootstrap): one class per sample, no split
        std::vector<long double> w((size_t)X.n, 1);
        if (t.forest && t.bootstrap) {
            TOpt tw = t; tw.depth = 0; tw.hist = false;
            std::vector<int> yy((size_t)X.n); for (int64_t i = 0; i < X.n; i++) yy[i] = (int)i;
            LM q(1, X.m); for (int64_t j = 0; j < X.m; j++) q(0, j) = X(0, j);
            auto r = R.go(X, yy, 0, (int)X.n, q, {0}, tw, nullptr, nullptr, false);
            if (!r.ok) { fail("forest:status", "%s: fit with one class per sample fails", D.c_str()); return; }
            long double tot = 0;
            for (int64_t i = 0; i < X.n; i++) {
                long double k = r.proba(0, (int)i) * (double)nobs; w[i] = roundl(k); tot += w[i];
                VCHECK(fabsl(k - w[i]) < 1e-3, "forest:bootstrap-count", "%s: a sample has frequency %.9g which is no multiple of 1/%lld", D.c_str(), r.proba(0, (int)i), (long long)nobs);
            }
            VCHECK(tot == nobs, "forest:bootstrap-total", "%s: %Lg samples drawn, %lld expected", D.c_str(), tot, (long long)nobs);
            if (tot != nobs) return;
        }
        TreeMonitor M(D, P, X.n, nclass, y, w, t, v.f32);
        M.kind.assign((size_t)X.m, 0); M.bin.resize((size_t)X.m); M.nbin.assign((size_t)X.m, 0);
        if (t.forest) { int m = (int)X.m; double k = t.featsel == 0 ? m : t.featsel == 1 ? (t.maxfeat == 0 || t.maxfeat > m ? m : t.maxfeat) : t.featsel == 2 ? std::ceil((double)(T)t.prop * m - 1e-5) : t.featsel == 3 ? std::ceil(std::sqrt(m)) : std::ceil(std::log2(m)); M.ksub = (int)std::max(1.0, std::min<double>(m, k)); }
        else M.ksub = t.maxfeat;
        if (!t.hist) for (int j = 0; j < X.m; j++) M.kind[j] = t.onevall ? std::max(0, cat_of(j)) : 0;
        if (t.hist) {
            // bins of a feature: a tree on it alone with one class per sample ends in one leaf per bin
            TOpt tb; tb.forest = false; tb.hist = true; tb.maxbins = t.maxbins; tb.seed = 1; tb.crit = 1; // entropy prefers balanced splits: within the depth limit
            std::vector<int> yy((size_t)X.n); for (int64_t i = 0; i < X.n; i++) yy[i] = (int)i;
            for (int j = 0; j < X.m; j++) {
                LM c(X.n, 1); for (int64_t i = 0; i < X.n; i++) c(i, 0) = X(i, j);
                auto r = R.go(c, yy, 0, (int)X.n, c, yy, tb, nullptr, nullptr, false);
                if (!r.ok) { fail("tree:status", "%s: histogram tree on feature %d fails", D.c_str(), j); return; }
                std::vector<int> ord((size_t)X.n); for (int i = 0; i < X.n; i++) ord[i] = i;
                std::sort(ord.begin(), ord.end(), [&](int a, int b) { return X(a, j) < X(b, j); });
                M.bin[j].assign((size_t)X.n, 0);
                auto same = [&](int a, int b) { for (int k = 0; k < X.n; k++) if (r.proba(a, k) != r.proba(b, k)) return false; return true; };
                int b = 0, sz = 1, mn = 1 << 30, mxs = 0; bool distinct = true;
                for (int k = 1; k < X.n; k++) {
                    if (!same(ord[k - 1], ord[k])) { mn = std::min(mn, sz); mxs = std::max(mxs, sz); sz = 0; b++; VCHECK(X(ord[k], j) > X(ord[k - 1], j), "tree:bins", "%s: equal values of feature %d are in different bins", D.c_str(), j); }
                    sz++;
                    distinct &= X(ord[k], j) - X(ord[k - 1], j) > 2e-5;
                    M.bin[j][ord[k]] = b;
                }
                mn = std::min(mn, sz); mxs = std::max(mxs, sz);
                M.nbin[j] = b + 1;
                int want = std::min(t.maxbins, (int)X.n / 2);
                VCHECK(b + 1 <= want, "tree:bin-count", "%s: feature %d has %d bins, at most %d allowed", D.c_str(), j, b + 1, want);
                if (distinct) VCHECK(b + 1 == want && mxs <= (double)X.n / want + 3 && mn >= (double)X.n / want - 3, "tree:bin-sizes", "%s: feature %d with distinct values has %d bins of %d to %d samples, %d bins wanted", D.c_str(), j, b + 1, mn, mxs, want);
                if (t.onevall && b + 1 < want) { // a feature with few values is split one value against the others when its values are category numbers
                    bool enc = true;
                    for (int i = 0; i < X.n; i++) enc &= std::round(X(i, j)) == M.bin[j][i];
                    M.kind[j] = enc ? b + 1 : -1;
                }
            }
            // features whose bins are not category numbers: either way of splitting is accepted, optimality among both is not decided
            for (int j = 0; j < X.m; j++) if (M.kind[j] == -1) { M.kind[j] = 0; }
        }
        LM pd;
        int dmax = (int)std::min<int64_t>(t.depth, maxk);
        if (!M.subset()) {
            TOpt td = t; td.depth = 0;
            auto r0 = R.go(X, y, nclass_arg, nclass, P, ya, td, usercat ? &catf : nullptr, nullptr, false);
            if (!r0.ok) { fail("tree:status", "%s: fit with depth 0 fails", D.c_str()); return; }
            M.start(r0.proba);
            if (!t.forest && !M.bad) VCHECK(r0.rinfo[4] == 0 && r0.rinfo[5] == 1 && r0.rinfo[6] == 1, "tree:rinfo-root", "%s: a tree of depth limit 0 reports depth %g, %g nodes, %g leaves", D.c_str(), r0.rinfo[4], r0.rinfo[5], r0.rinfo[6]);
            int d = 0; TreeOut last = r0; 
            while (!M.bad && d < dmax && !M.all_done()) {
                td.depth = ++d;
                last = R.go(X, y, nclass_arg, nclass, P, ya, td, usercat ? &catf : nullptr, nullptr, false);
                if (!last.ok) { fail("tree:status", "%s: fit with depth %d fails", D.c_str(), d); return; }
                M.step(last.proba, d);
            }
            if (M.bad) return;
            bool complete = M.all_done() || d == t.depth;
            if (complete && !M.any_amb()) {
                VCHECK(last.proba.a == pr.a, "tree:final", "%s: the tree differs from that of depth limit %d at which no node is left to split", D.c_str(), d);
                for (auto &g : M.groups) {
                    auto c = M.counts(g);
                    for (int i : g) if (c[(size_t)pred[i]] < *std::max_element(c.begin(), c.end())) { fail("tree:majority-leaf", "%s: point %d is predicted as class %g, not the majority of its leaf", D.c_str(), i, pred[i]); break; }
                }
                if (!t.forest) VCHECK(ri[4] == M.depth && ri[6] == (double)M.groups.size(), "tree:rinfo-shape", "%s: depth %g and %g leaves reported, %d and %zu observed", D.c_str(), ri[4], ri[6], M.depth, M.groups.size());
            }
            count("splits_judged", M.splits); count("leaves", (long long)M.groups.size()); count("ambiguous_nodes", M.ambiguous); count("tied_nodes", M.ties); count(complete ? "complete_trees" : "truncated_trees");
            if (M.splits) nontrivial(hmix(hstr(D.c_str()), 7));
        } else if (t.depth >= 1 && t.forest) {
            TOpt td = t; td.depth = 0;
            auto r0 = R.go(X, y, nclass_arg, nclass, P, ya, td, nullptr, nullptr, false);
            td.depth = 1;
            auto r1 = R.go(X, y, nclass_arg, nclass, P, ya, td, usercat ? &catf : nullptr, nullptr, false);
            if (!r0.ok || !r1.ok) { fail("tree:status", "%s: fit with depth 0 or 1 fails", D.c_str()); return; }
            M.start(r0.proba); if (!M.bad) M.step(r1.proba, 1);
            count("roots_judged");
        }
        if (M.bad) return;
        // points predicted alike: their joint frequencies (valid whatever leaves they come from)
        std::map<std::vector<double>, std::vector<int>> parts;
        for (int i = 0; i < P.n; i++) { std::vector<double> row((size_t)nclass); for (int k = 0; k < nclass; k++) row[k] = pr(i, k); parts[row].push_back(i); }
        for (auto &q : parts) { M.check_leaf(q.second, pr, t.depth); if (M.bad) return; }
        count("leaf_classes", (long long)parts.size());
    }
    // number of categories the library should see in feature j (0: continuous)
    int cat_of(int j) const {
        if (usercat) return catf[j];
        if (!t.detect) return 0;
        int k = 0;
        for (int64_t i = 0; i < X.n; i++) { double x = X(i, j); double rx = std::round(x); if (std::fabs(x - rx) > 1e-5 || rx < 0 || rx + 1 > t.maxcat) return 0; k = std::max(k, (int)rx + 1); }
        return k;
    }
    // several trees: the forests with the first k trees show each tree
    template <class T> void check_forest(const Outcome &o, const Var &v, const std::string &D, const LM &prm) const {
        Runner<T> R; Var va = v; va.refit = 0; va.check_data = 0; R.v = va;
        LM P = all(); auto ya = yall(); std::vector<double> pred = o.get("pred")->v; LM pr = prm;
        // with several threads per tree equally good splits may be resolved differently: the forest is judged as built with one
        // thread per tree, the original one for agreeing with it where it was built that way too
        TOpt t = this->t; bool same = v.threads <= 1 || t.tthreads == 1; t.tthreads = 1;
        LM prev(P.n, nclass); std::vector<double> votes((size_t)(P.n * nclass), 0); std::vector<char> unsure((size_t)P.n, 0);
        double tol = v.f32 ? 3e-5 : 1e-11;
        for (int k = 1; k <= t.ntree; k++) {
            TOpt tk = t; tk.ntree = k;
            auto r = R.go(X, y, nclass_arg, nclass, P, ya, tk, usercat ? &catf : nullptr, nullptr, k == t.ntree);
            if (!r.ok) { fail("forest:status", "%s: forest with %d trees fails", D.c_str(), k); return; }
            for (int64_t i = 0; i < P.n; i++) {
                double best = -1, second = -1; int bc = 0; double sum = 0;
                for (int c = 0; c < nclass; c++) {
                    double p = r.proba(i, c) * k - prev(i, c) * (k - 1);
                    sum += p;
                    if (!(p >= -tol * k && p <= 1 + tol * k)) { fail("forest:average", "%s: with %d trees the probability %.9g, with one less %.9g: not the averages of trees", D.c_str(), k, r.proba(i, c), prev(i, c)); return; }
                    if (p > best) second = best, best = p, bc = c; else second = std::max(second, p);
                }
                if (!(std::fabs(sum - 1) <= tol * k * 4)) { fail("forest:average-sum", "%s: tree %d has probabilities that sum to %.9g", D.c_str(), k, sum); return; }
                if (best - second <= 4 * tol * k) unsure[i] = 1;
                votes[(size_t)(i * nclass + bc)]++;
            }
            prev = r.proba;
            if (k == t.ntree && !same) { pr = r.proba; pred = r.pred; }
            if (k == t.ntree) for (size_t q = 0; q < pr.a.size(); q++) if (std::fabs(r.proba.a[q] - pr.a[q]) > tol) { fail("forest:repeat", "%s: two fits with the same seed give probabilities %.12g and %.12g", D.c_str(), r.proba.a[q], pr.a[q]); return; }
        }
        int64_t judged = 0;
        for (int64_t i = 0; i < P.n; i++) {
            if (unsure[i]) continue;
            double mx = *std::max_element(votes.begin() + i * nclass, votes.begin() + (i + 1) * nclass);
            VCHECK(votes[(size_t)(i * nclass + (int)pred[i])] >= mx, "forest:vote", "%s: class %g has %g votes of %d at point %lld, another has %g", D.c_str(), pred[i], votes[(size_t)(i * nclass + (int)pred[i])], t.ntree, (long long)i, mx);
            judged++;
        }
        count("votes_judged", judged);
        nontrivial(hmix(hstr(D.c_str()), 9));
        // the prediction of a sample depends neither on the block nor on the company
        TOpt tb = t; tb.block = t.block == 1 ? 7 : (int)(1 + (hstr(D.c_str()) % 13));
        auto r = R.go(X, y, nclass_arg, nclass, P, ya, tb, usercat ? &catf : nullptr, nullptr, true);
        if (!r.ok) { fail("forest:status", "%s: other block size fails", D.c_str()); return; }
        for (int64_t i = 0; i < P.n; i++) {
            bool eq = r.pred[i] == pred[i];
            for (int c = 0; c < nclass; c++) eq &= std::fabs(r.proba(i, c) - pr(i, c)) <= tol;
            if (!eq) { fail("forest:block", "%s: point %lld of %lld predicted differently with block size %d", D.c_str(), (long long)i, (long long)P.n, tb.block); return; }
        }
        int64_t a = (int64_t)(hstr(D.c_str()) >> 8) % P.n, b = std::min<int64_t>(P.n, a + 1 + (int64_t)(hstr(D.c_str()) >> 20) % 5);
        LM S2(b - a, P.m); for (int64_t i = a; i < b; i++) for (int64_t j = 0; j < P.m; j++) S2(i - a, j) = P(i, j);
        r = R.go(X, y, nclass_arg, nclass, S2, std::vector<int>(ya.begin() + a, ya.begin() + b), t, usercat ? &catf : nullptr, nullptr, true);
        if (!r.ok) { fail("forest:status", "%s: a part of the queries fails", D.c_str()); return; }
        for (int64_t i = a; i < b; i++) {
            bool eq = r.pred[i - a] == pred[i];
            for (int c = 0; c < nclass; c++) eq &= std::fabs(r.proba(i - a, c) - pr(i, c)) <= tol;
            if (!eq) { fail("forest:company", "%s: point %lld of %lld predicted differently in a call with %lld points", D.c_str(), (long long)i, (long long)P.n, (long long)(b - a)); return; }
        }
    }
};

void gen_common(Rng &r, TreeS &s) {
    int64_t n = r.chance(0.75) ? r.size(1, 40) : r.size(2, 150), m = r.chance(0.8) ? r.in(1, 6) : r.in(7, 20);
    s.nclass = (int)r.in(1, r.chance(0.8) ? 4 : 12);
    bool cats = r.chance(0.3);
    if (cats) {
        // a mixture of encoded categories and continuous columns
        s.X = gen_data(r, n, m, r.pick({D_GAUSS, D_UNIF, D_GRID}), &s.dk); s.dk += "+cat";
        s.catf.assign((size_t)m, 0);
        for (int64_t j = 0; j < m; j++) {
            if (!r.chance(0.6)) { s.catf[j] = r.chance(0.5) ? 0 : -1; continue; }
            int k = (int)r.in(2, 6); bool skew = r.chance(0.4); int seen = 0;
            for (int64_t i = 0; i < n; i++) { int c = (int)(skew ? std::min<double>(k - 1, std::floor(-std::log(1 - r.uni()) * 1.2)) : r.below(k)); s.X(i, j) = c; seen = std::max(seen, c + 1); }
            s.catf[j] = r.chance(0.7) ? k : k + (int)r.in(0, 3);
        }
        s.t.onevall = r.chance(0.7);
        if (r.chance(0.6)) s.usercat = true; else if (!s.t.forest) s.t.detect = true;
        if (!s.usercat) s.catf.clear();
    } else {
        s.X = gen_data(r, n, m, -1, &s.dk);
        if (r.chance(0.2)) { // clusters closer than the feature threshold
            double w = 1e-6; s.dk += "+near";
            for (auto &x : s.X.a) x = f32(std::round(x * 4) / 4 + (r.chance(0.5) && std::fabs(x) < 2 ? w * r.uni() : 0));
        }
        if (r.chance(0.1)) { s.dk += "+adjacent"; // neighbouring floats
            for (auto &x : s.X.a) { float b = (float)r.pick({100000.0, 3e6, 1.0 * (1 << 22)}); int k = (int)r.below(4); while (k--) b = std::nextafterf(b, 1e30f); x = b; } }
        if (r.chance(0.15)) { s.t.onevall = r.chance(0.5); s.t.detect = !s.t.forest && r.chance(0.5); }
    }
    if (r.chance(0.1)) s.t.maxcat = (int)r.in(2, 5);
    s.t.crit = (int)r.below(3);
    s.t.seed = (int)r.in(0, 100000);
    s.t.depth = r.chance(0.6) ? 29 : (int)r.in(0, 5);
    s.t.min_ns = r.chance(0.55) ? 1 : (int)r.in(2, 6);
    s.t.minscore = r.chance(0.75) ? 0 : r.pick({0.1, 0.3, 0.45, 0.6});
    s.t.minimp = r.chance(0.75) ? 0 : r.pick({0.001, 0.01, 0.05, 0.2});
    s.t.thresh = r.chance(0.7) ? 1e-5 : r.pick({0.0, 1e-3, 0.1, 0.5});
    s.t.hist = r.chance(0.3);
    s.t.maxbins = r.chance(0.5) ? 256 : (int)r.in(2, 20);
    if (!cats && r.chance(0.02)) { // long columns in orders that are hard on sorting algorithms
        n = r.in(300, 3000); m = r.in(1, 2); s.X = LM(n, m); s.maxk = 3; s.catf.clear();
        s.dk = "long";
        for (int64_t j = 0; j < m; j++) {
            int kind = (int)r.below(8); s.dk += fmt(":%d", kind);
            std::vector<double> v((size_t)n);
            for (int64_t i = 0; i < n; i++) v[i] = kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? std::min(i, n - i) : kind == 3 ? (i * 7919) % n : kind == 4 ? i % 37 : kind == 5 ? r.below(5) : kind == 6 ? r.norm() * 100 : 0;
            if (kind == 7) { // against median of three: 1 k+1 3 k+3 ... then the even numbers
                int64_t k = n / 2; for (int64_t i = 0; i < k; i++) { v[i] = i % 2 ? k + i : i + 1; v[k + i] = 2 * (i + 1); }
            }
            for (int64_t i = 0; i < n; i++) s.X(i, j) = f32(v[i]);
        }
    }
    // labels: random, or following a feature
    double noise = r.pick({0.0, 0.1, 0.5, 1.0});
    int64_t jf = r.below(m); 
    auto lab = [&](const LM &A, int64_t i) { return r.uni() < noise ? (int)r.below(s.nclass) : (int)(((int64_t)std::floor(std::fabs(A(i, jf)) * 2)) % s.nclass); };
    s.y.resize((size_t)n);
    for (int64_t i = 0; i < n; i++) s.y[i] = lab(s.X, i);
    int mx = *std::max_element(s.y.begin(), s.y.end()) + 1;
    if (r.chance(0.5)) { s.nclass_arg = 0; s.nclass = mx; } else { s.nclass = s.nclass_arg = std::max(mx, s.nclass); }
    int64_t q = r.in(1, 30);
    s.Q = LM(q, m);
    for (int64_t i = 0; i < q; i++) for (int64_t j = 0; j < m; j++) {
        int64_t a = r.below(n), b = r.below(n);
        double x = r.chance(0.4) ? s.X(a, j) : r.chance(0.5) ? 0.5 * (s.X(a, j) + s.X(b, j)) : s.X(a, j) + (s.X(b, j) - s.X(a, j)) * 3 * (r.uni() - 0.3);
        if (cats && r.chance(0.7)) x = s.X(a, j);
        if (r.chance(0.01)) x = r.pick({1e20, -1e20, 3e9, -3e9, 1e-30});
        s.Q(i, j) = f32(x);
    }
    for (int64_t i = 0; i < q; i++) s.yq.push_back(lab(s.Q, i) % std::max(1, s.nclass));
}
std::unique_ptr<TreeS> gen_tree(Rng &r) {
    auto s = std::make_unique<TreeS>();
    gen_common(r, *s);
    if (r.chance(0.1)) s->t.maxfeat = (int)r.in(1, s->X.m + 1);
    if (s->t.maxfeat >= s->X.m) s->t.maxfeat = 0;
    return s;
}
std::unique_ptr<TreeS> gen_forest(Rng &r) {
    auto s = std::make_unique<TreeS>();
    s->t.forest = true;
    gen_common(r, *s);
    s->t.ntree = r.chance(0.5) ? 1 : (int)r.in(2, 9);
    s->t.block = r.chance(0.4) ? 256 : r.chance(0.05) ? 2147483647 - (int)r.below(3) : (int)r.in(1, 40);
    s->t.bootstrap = r.chance(0.6);
    s->t.factor = r.chance(0.5) ? 1.0 : r.pick({0.01, 0.3, 0.5, 0.8, 0.95});
    s->t.featsel = r.chance(0.5) ? 0 : (int)r.in(1, 4);
    s->t.maxfeat = (int)r.in(0, s->X.m + 1);
    s->t.prop = r.pick({0.1, 0.3, 0.5, 1.0});
    s->t.tthreads = r.chance(0.7) ? 0 : (int)r.in(1, 3);
    return s;
}
std::unique_ptr<Scenario> gt(Rng &r) { return gen_tree(r); }
std::unique_ptr<Scenario> gf(Rng &r) { return gen_forest(r); }
RegScen rt("tree", gt), rf("forest", gf);

void run_one(Rng &rng, std::unique_ptr<TreeS> s) {
    Var v = random_var(rng);
    v.threads = rng.pick({1, 1, 2, 3, 4, 8});
    set_threads(v.threads);
    sample(s->describe() + " " + v.str());
    Outcome o = s->run(v);
    s->check(o, v);
    set_threads(2);
}
FAMILY(tree, 2000, 20000) { run_one(rng, gen_tree(rng)); }
FAMILY(forest, 1000, 10000) { run_one(rng, gen_forest(rng)); }
} // namespace
