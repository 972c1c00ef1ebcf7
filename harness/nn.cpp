// C23 k nearest neighbours, C24 radius neighbours, C25 predictions
#include "refdist.hpp"
using namespace vt;
namespace {
DAF(da_nn_set_data) DAF(da_nn_set_labels) DAF(da_nn_set_targets) DAF(da_nn_kneighbors) DAF(da_nn_radius_neighbors)
DAF(da_nn_classes) DAF(da_nn_classifier_predict) DAF(da_nn_classifier_predict_proba) DAF(da_nn_regressor_predict)

enum { W_KNN = 1, W_RNN = 2, W_PRED = 4 };
struct NNS : Scenario {
    LM X, Q; std::string dk; int met; const char *mname; double p = 2; const char *algo; int leaf = 30, k = 5; double radius = 1; bool exactr = false;
    bool kopt = false, ropt = false, retd = true, sortr = true, distw = false; int what = W_KNN;
    int outl = 0; int olabel = 0; double otarget = 0;
    std::vector<double> labels, targets;
    int set_after = 0; // set the non-structural options after set_data
    bool integral = false;
    std::string describe() const override { return fmt("nn n=%lld m=%lld q=%lld metric=%s p=%g algo=%s leaf=%d k=%d r=%g%s%s ret=%d sort=%d w=%s outl=%d olab=%d what=%d after=%d data=%s", (long long)X.n, (long long)X.m, (long long)Q.n, mname, p, algo, leaf, k, radius, kopt ? " kopt" : "", ropt ? " ropt" : "", retd, sortr, distw ? "distance" : "uniform", outl, olabel, what, set_after, dk.c_str()); }
    double tol_layout() const override { return met == da_euclidean_gemm ? 1e-5 : 1e-8; }
    double tol_f32() const override { return (dk != "gauss" && dk != "unif") || what != W_KNN || met == da_euclidean_gemm || met == da_sqeuclidean_gemm ? 0 : met == da_euclidean_gemm || met == da_sqeuclidean_gemm ? 0.05 : 2e-3; }
    int64_t features() const override { return X.m; }
    bool ties() const override { return dk == "grid" || dk == "dup" || dk == "onehot" || dk == "constcol"; }
    template <class T> void set_late(da_handle h, Outcome &o) const {
        if (kopt || (what & W_PRED)) o.add("opt k", set_int(h, "number of neighbors", k));
        if (ropt || (what & W_PRED)) o.add("opt radius", set_real<T>(h, "radius", (T)radius));
        o.add("opt weights", set_str(h, "weights", distw ? "distance" : "uniform"));
        static const char *on[] = {"none", "manual", "most frequent"};
        o.add("opt outl", set_str(h, "outlier handling", on[outl]));
        o.add("opt olabel", set_int(h, "outlier label", olabel));
        o.add("opt otarget", set_real<T>(h, "outlier target", (T)otarget));
    }
    template <class T> Outcome run_t(const Var &v) const {
        Outcome o; Handle h;
        o.add("init", DA(da_handle_init)(&h.h, da_handle_nn));
        hook<T>(h, "init");
        o.add("opt order", set_str(h, "storage order", v.order == row_major ? "row-major" : "column-major"));
        if (v.check_data) o.add("opt check", set_str(h, "check data", "yes"));
        o.add("opt algo", set_str(h, "algorithm", algo));
        o.add("opt metric", set_str(h, "metric", mname));
        o.add("opt p", set_real<T>(h, "minkowski parameter", (T)p));
        o.add("opt leaf", set_int(h, "leaf size", leaf));
        if (!set_after) set_late<T>(h, o);
        auto bx = Buf<T>::input("X_train", X, v.order, v.pad);
        auto bq = Buf<T>::input("X_test", Q, v.order, v.pad);
        std::vector<da_int> lab(labels.begin(), labels.end());
        auto tg = Buf<T>::vec("targets", targets);
        hook<T>(h, "opts");
        for (int rep = 0; rep <= v.refit; rep++) {
            da_status s = DA(da_nn_set_data)(h, X.n, X.m, bx.data(), bx.ldi());
            if (rep == v.refit) o.add("set_data", s);
        }
        if (S.opts.count("meta") && o.st.back().second) return o;
        if (set_after) set_late<T>(h, o);
        hook<T>(h, "computed");
        if (what & W_KNN) {
            Buf<da_int> ind("n_ind", Q.n, k, v.order); Buf<T> dist("n_dist", Q.n, k, v.order);
            da_status s = o.add("kneighbors", DA(da_nn_kneighbors)(h, Q.n, Q.m, bq.data(), bq.ldi(), ind.data(), retd ? dist.data() : nullptr, kopt ? 0 : k, retd));
            if (s) { VCHECK(ind.untouched() && dist.untouched(), "nn:output-on-error", "%s: outputs written on error %d", describe().c_str(), s); }
            else {
                o.disc("ind", ind.vecd());
                if (retd) o.real("dist", dist.vecd());
            }
        }
        if (what & W_RNN) {
            da_status s = o.add("radius", DA(da_nn_radius_neighbors)(h, Q.n, Q.m, bq.data(), bq.ldi(), ropt ? (T)-1 : (T)radius, retd, sortr));
            if (!s) {
                auto cnt = get_int(h, da_nn_radius_neighbors_count, &o, "count");
                auto off = get_int(h, da_nn_radius_neighbors_offsets, &o, "offsets");
                o.disc("count", cnt); o.disc("offsets", off);
                std::vector<double> ind, dist;
                int64_t tot = cnt.empty() ? 0 : (int64_t)cnt.back();
                if (tot > 0) {
                    ind = get_int(h, da_nn_radius_neighbors_indices, &o, "indices");
                    if (retd) dist = get_real<T>(h, da_nn_radius_neighbors_distances, &o, "distances");
                }
                o.disc("rind", ind);
                if (retd) o.real("rdist", dist);
                // query by query: the same
                int64_t at = 0;
                for (int64_t q = 0; q < Q.n && q < 40; q++) {
                    int64_t c = (int64_t)cnt[q];
                    if (c > 0 && (q < 8 || q % 5 == 0)) {
                        std::vector<da_int> b((size_t)c); std::vector<T> d((size_t)c);
                        da_int dim = (da_int)c; b[0] = (da_int)q; d[0] = (T)q;
                        da_status s1 = da_handle_get_result_int(h, da_nn_radius_neighbors_indices_index, &dim, b.data());
                        da_int dim2 = (da_int)c;
                        da_status s2 = retd ? DA(da_handle_get_result)(h, da_nn_radius_neighbors_distances_index, &dim2, d.data()) : da_status_success;
                        bool ok = s1 == 0 && s2 == 0;
                        for (int64_t i = 0; ok && i < c; i++) ok = b[i] == (da_int)ind[at + i] && (!retd || (double)d[i] == dist[at + i]);
                        VCHECK(ok, "nn:rnn-index-query", "%s %s: indices/distances of query %lld alone differ from the joint result (%d, %d)", describe().c_str(), v.str().c_str(), (long long)q, s1, s2);
                    }
                    at += c;
                }
            }
        }
        if (what & W_PRED) {
            o.add("set_labels", DA(da_nn_set_labels)(h, X.n, lab.data()));
            o.add("set_targets", DA(da_nn_set_targets)(h, X.n, tg.data()));
            da_int nc = 0; 
            o.add("classes", DA(da_nn_classes)(h, &nc, nullptr));
            std::vector<da_int> cl((size_t)std::max<da_int>(nc, 0) );
            if (nc > 0) o.add("classes2", DA(da_nn_classes)(h, &nc, cl.data()));
            o.disc("classes", std::vector<double>(cl.begin(), cl.end()));
            hook<T>(h, "trained");
            for (auto mode : {knn_search_mode, radius_search_mode}) {
                if (mode == radius_search_mode && met == da_inner_product) continue;
                std::string sfx = mode == knn_search_mode ? "_k" : "_r";
                Buf<T> pr("proba", Q.n, nc, v.order); Buf<da_int> y("y", Q.n, 1); Buf<T> yr("yr", Q.n, 1);
                da_status s = o.add("proba", DA(da_nn_classifier_predict_proba)(h, Q.n, Q.m, bq.data(), bq.ldi(), pr.data(), mode));
                if (s == 0 || s == da_status_outlier_warning) o.real("proba" + sfx, pr.vecd(), 1);
                s = o.add("predict", DA(da_nn_classifier_predict)(h, Q.n, Q.m, bq.data(), bq.ldi(), y.data(), mode));
                if (s == 0 || s == da_status_outlier_warning) o.disc("label" + sfx, y.vecd());
                s = o.add("regress", DA(da_nn_regressor_predict)(h, Q.n, Q.m, bq.data(), bq.ldi(), yr.data(), mode));
                if (s == 0 || s == da_status_outlier_warning) o.real("target" + sfx, yr.vecd());
            }
        }
        hook<T>(h, "end");
        bx.verify(); bq.verify(); tg.verify();
        return o;
    }
    RUN_DISPATCH
    int status(const Outcome &o, const char *n, int nth = 0) const { for (auto &s : o.st) if (s.first == n && nth-- == 0) return s.second; return -1; }
    void check(const Outcome &o, const Var &v) const override {
        std::string D = describe() + " " + v.str();
        for (auto &s : o.st) {
            if (s.first == "proba" || s.first == "predict" || s.first == "regress") continue;
            VCHECK(s.second == 0, "nn:status:" + s.first, "%s: %s gives %d", D.c_str(), s.first.c_str(), s.second);
            if (s.second) return;
        }
        int64_t n = X.n, m = Q.n;
        bool sim = met == da_inner_product;
        double rr = v.f32 ? (double)(float)radius : radius;
        const Item *ind = o.get("ind"), *dist = o.get("dist"), *cnt = o.get("count"), *off = o.get("offsets"), *rind = o.get("rind"), *rdist = o.get("rdist");
        std::vector<double> cls;
        if (what & W_PRED) {
            std::set<double> cs(labels.begin(), labels.end());
            cls.assign(cs.begin(), cs.end());
            VCHECK(o.get("classes")->v == cls, "nn:classes", "%s: classes are not the sorted distinct labels", D.c_str());
            if (o.get("classes")->v != cls) return;
        }
        int nc = (int)cls.size();
        std::vector<RD> rd((size_t)n);
        std::vector<int> idx((size_t)n);
        int64_t at = 0;
        // predictions: what to expect for the whole call
        bool any_outlier = false, ambiguous = false;
        std::vector<int> order_all;
        for (int64_t q = 0; q < m; q++) {
            for (int64_t i = 0; i < n; i++) rd[i] = ref_dist(met, p, &X.a[i * X.m], &Q.a[q * X.m], X.m, v.f32);
            bool exact = integral && exact_metric(met);
            if (exact) for (auto &r : rd) r.tol = met == da_euclidean ? r.tol : 0;
            // the ball tree prunes with rounded centroids and radii: points this close to a limit may go either way
            ld_t prune = 0;
            if (!strcmp(algo, "ball tree")) {
                ld_t e1 = v.f32 ? 0x1p-23L : 0x1p-52L, mx = 0, nn = 0;
                for (int64_t i = 0; i < n; i++) { mx = std::max(mx, rd[i].ref); ld_t a = 0; for (int64_t c = 0; c < X.m; c++) a += (ld_t)X(i, c) * X(i, c) + (ld_t)Q(q, c) * Q(q, c); nn = std::max(nn, a); }
                prune = 16 * (X.m + 8) * e1 * (mx + sqrtl(nn));
                if (met == da_euclidean_gemm) prune += 4 * sqrtl(2 * (X.m + 8) * e1 * nn);
                if (met == da_minkowski) prune *= 4;
            }
            if (what & W_KNN) {
                std::vector<char> in((size_t)n, 0);
                ld_t worst = sim ? HUGE_VALL : -HUGE_VALL, wtol = 0; 
                double prev = 0; ld_t prevref = 0, prevtol = 0;
                for (int j = 0; j < k; j++) {
                    double id = ind->v[(size_t)(q * k + j)];
                    if (!(id >= 0 && id < n)) { fail("knn:index-range", "%s: query %lld neighbour %d has index %g", D.c_str(), (long long)q, j, id); return; }
                    int i = (int)id;
                    if (in[i]) { fail("knn:duplicate", "%s: query %lld returns point %d twice", D.c_str(), (long long)q, i); return; }
                    in[i] = 1;
                    ld_t ref = rd[i].ref, tol = rd[i].tol;
                    if (dist) {
                        double d = dist->v[(size_t)(q * k + j)];
                        if (!(fabsl(d - ref) <= tol)) { fail("knn:distance", "%s: query %lld neighbour %d: distance %.17g expected %.17Lg tol %Lg", D.c_str(), (long long)q, i, d, ref, tol); return; }
                        if (j && (sim ? d > prev : d < prev)) { fail("knn:order", "%s: query %lld: distances not sorted at %d (%.17g, %.17g)", D.c_str(), (long long)q, j, prev, d); return; }
                        prev = d;
                    }
                    if (j && (sim ? ref > prevref + tol + prevtol : ref < prevref - tol - prevtol)) { fail("knn:order", "%s: query %lld: neighbours not in order at %d", D.c_str(), (long long)q, j); return; }
                    prevref = ref; prevtol = tol;
                    if (sim ? ref < worst : ref > worst) worst = ref;
                    wtol = std::max(wtol, tol);
                }
                for (int64_t i = 0; i < n; i++) if (!in[i] && (sim ? rd[i].ref > worst + wtol + rd[i].tol : rd[i].ref < worst - wtol - rd[i].tol - prune)) { fail("knn:missed", "%s: query %lld: point %lld at %.17Lg is nearer than the last neighbour at %.17Lg but not returned", D.c_str(), (long long)q, (long long)i, rd[i].ref, worst); return; }
                count("knn_queries");
            }
            auto inside = [&](int64_t i) { // 1 inside, 0 outside, -1 too close to call
                if (exact && prune == 0 && (met != da_euclidean || radius == std::floor(radius))) {
                    ld_t a = met == da_euclidean ? rd[i].ref * rd[i].ref : rd[i].ref, b = met == da_euclidean ? (ld_t)rr * rr : (ld_t)rr;
                    if (met == da_euclidean) { a = roundl(a); }
                    return a <= b ? 1 : 0;
                }
                ld_t t = rd[i].tol + 8 * (v.f32 ? 0x1p-23L : 0x1p-52L) * fabsl((ld_t)rr);
                if (rd[i].ref <= rr - t - prune) return 1;
                if (rd[i].ref > rr + t) return 0;
                return -1;
            };
            if (what & W_RNN) {
                int64_t c = (int64_t)cnt->v[q];
                double eo = c > 0 ? (double)at : -1;
                if (off->v[q] != eo) { fail("rnn:offset", "%s: offset of query %lld is %g expected %g", D.c_str(), (long long)q, off->v[q], eo); return; }
                std::vector<char> in((size_t)n, 0);
                if (at + c > (int64_t)rind->v.size()) { fail("rnn:count", "%s: counts exceed the number of indices", D.c_str()); return; }
                double prev = -1e300;
                for (int64_t j = 0; j < c; j++) {
                    double id = rind->v[at + j];
                    if (!(id >= 0 && id < n)) { fail("rnn:index-range", "%s: query %lld index %g", D.c_str(), (long long)q, id); return; }
                    int i = (int)id;
                    if (in[i]) { fail("rnn:duplicate", "%s: query %lld returns point %d twice", D.c_str(), (long long)q, i); return; }
                    in[i] = 1;
                    if (rdist) {
                        double d = rdist->v[at + j];
                        if (!(fabsl(d - rd[i].ref) <= rd[i].tol) && !(met == da_sqeuclidean_gemm && false)) { fail("rnn:distance", "%s: query %lld point %d distance %.17g expected %.17Lg tol %Lg", D.c_str(), (long long)q, i, d, rd[i].ref, rd[i].tol); return; }
                        if (sortr && d < prev) { fail("rnn:order", "%s: query %lld distances not ascending", D.c_str(), (long long)q); return; }
                        prev = d;
                    }
                }
                for (int64_t i = 0; i < n; i++) {
                    int e = inside(i);
                    if (e == 1 && !in[i]) { fail("rnn:missed", "%s: query %lld: point %lld at %.17Lg within radius %.17g is not returned", D.c_str(), (long long)q, (long long)i, rd[i].ref, rr); return; }
                    if (e == 0 && in[i]) { fail("rnn:outside", "%s: query %lld: point %lld at %.17Lg outside radius %.17g is returned", D.c_str(), (long long)q, (long long)i, rd[i].ref, rr); return; }
                    if (e >= 0) count(e ? "rnn_in" : "rnn_out");
                }
                at += c;
            }
            if (what & W_PRED) {
                // expected neighbour sets
                for (int mode = 0; mode < 2; mode++) {
                    if (mode == 1 && sim) continue;
                    std::vector<int> nb; bool sure = true;
                    if (mode == 0) {
                        for (int64_t i = 0; i < n; i++) idx[i] = (int)i;
                        std::sort(idx.begin(), idx.end(), [&](int a, int b) { return sim ? rd[a].ref > rd[b].ref : rd[a].ref < rd[b].ref; });
                        nb.assign(idx.begin(), idx.begin() + k);
                        if (k < n) { int a = idx[k - 1]; ld_t la = rd[a].ref; for (int64_t z = k; z < n && z < k + 3; z++) { int b = idx[z]; if (fabsl(rd[b].ref - la) <= rd[a].tol + rd[b].tol) sure = false; }
                            ld_t mt = 0; for (int64_t i = 0; i < n; i++) mt = std::max(mt, rd[i].tol); if (fabsl(rd[idx[k]].ref - la) <= 2 * mt + prune) sure = false; }
                    } else {
                        for (int64_t i = 0; i < n; i++) { int e = inside(i); if (e < 0) sure = false; else if (e) nb.push_back((int)i); }
                        if (!sure) ambiguous = true;
                        if (sure && nb.empty()) any_outlier = true;
                    }
                    const char *sfx = mode ? "_r" : "_k";
                    const Item *pr = o.get(std::string("proba") + sfx), *lb = o.get(std::string("label") + sfx), *tg = o.get(std::string("target") + sfx);
                    double eps = v.f32 ? 1.2e-7 : 2.3e-16;
                    if (pr && !(mode == 1 && nb.empty() && outl == 1)) { // always a distribution
                        double s = 0; bool neg = false;
                        for (int c = 0; c < nc; c++) { s += pr->v[q * nc + c]; if (!(pr->v[q * nc + c] >= 0)) neg = true; }
                        if (sure && (neg || !(std::fabs(s - 1) <= 8 * (nc + 4) * eps))) { fail("nnpred:distribution", "%s: query %lld mode %d: probabilities sum to %.17g", D.c_str(), (long long)q, mode, s); return; }
                    }
                    if (!sure) { count("pred_ambiguous"); continue; }
                    std::vector<ld_t> votes((size_t)nc, 0); ld_t den = 0, tsum = 0, tabs = 0; bool skip = false; ld_t relerr = 0;
                    for (int i : nb) {
                        ld_t w = 1;
                        if (distw) {
                            ld_t d = rd[i].ref, t = rd[i].tol;
                            ld_t e1 = v.f32 ? 0x1p-23L : 0x1p-52L;
                            if (rd[i].same && exact_metric(met)) w = 1;
                            else if (met == da_minkowski && d == 0) w = 1;
                            else if (d - t <= 4 * e1) { skip = true; break; }
                            else { w = 1 / d; relerr = std::max(relerr, t / (d - t)); }
                        }
                        int c = (int)(std::lower_bound(cls.begin(), cls.end(), labels[i]) - cls.begin());
                        votes[c] += w; den += w;
                        ld_t tv = v.f32 ? (ld_t)(float)targets[i] : (ld_t)targets[i];
                        tsum += w * tv; tabs += w * fabsl(tv);
                    }
                    if (skip) { count("pred_skipped_near_zero"); continue; }
                    ld_t tolp = 4 * relerr + 8 * (nb.size() + 8) * (ld_t)eps;
                    if (nb.empty()) {
                        int manual = -1; for (int c = 0; c < nc; c++) if (cls[c] == olabel) manual = c;
                        // most frequent label, smallest at a tie
                        std::map<double, int> f; for (double l : labels) f[l]++;
                        double mf = labels[0]; int bestn = -1; for (auto &e : f) if (e.second > bestn) { bestn = e.second; mf = e.first; }
                        ld_t mean = 0; for (double t : targets) mean += v.f32 ? (float)t : t;
                        mean /= n;
                        if (outl == 0) continue;
                        double el = outl == 1 ? olabel : mf;
                        if (pr) for (int c = 0; c < nc; c++) { double e = cls[c] == el ? 1 : 0; if (pr->v[q * nc + c] != e) { fail("nnpred:outlier-proba", "%s: outlier query %lld: probability %d is %g expected %g (manual index %d)", D.c_str(), (long long)q, c, pr->v[q * nc + c], e, manual); return; } }
                        if (lb && lb->v[q] != el) { fail("nnpred:outlier-label", "%s: outlier query %lld: label %g expected %g", D.c_str(), (long long)q, lb->v[q], el); return; }
                        if (tg) { ld_t e = outl == 1 ? (v.f32 ? (ld_t)(float)otarget : (ld_t)otarget) : mean; ld_t ms = 0; for (double t : targets) ms = std::max(ms, (ld_t)std::fabs(t)); if (!(fabsl(tg->v[q] - e) <= (outl == 1 ? 0 : 4 * (n + 8) * (ld_t)eps * ms))) { fail("nnpred:outlier-target", "%s: outlier query %lld: target %.17g expected %.17Lg", D.c_str(), (long long)q, tg->v[q], e); return; } }
                        count("pred_outliers");
                        continue;
                    }
                    if (pr) for (int c = 0; c < nc; c++) if (!(fabsl(pr->v[q * nc + c] - votes[c] / den) <= tolp)) { fail("nnpred:proba", "%s: query %lld mode %d: probability of class %g is %.17g expected %.17Lg", D.c_str(), (long long)q, mode, cls[c], pr->v[q * nc + c], votes[c] / den); return; }
                    if (lb) {
                        int best = 0; for (int c = 1; c < nc; c++) if (votes[c] > votes[best]) best = c;
                        bool close = false;
                        if (distw) for (int c = 0; c < nc; c++) if (c != best && fabsl(votes[c] - votes[best]) <= 4 * tolp * den) close = true;
                        if (!close && lb->v[q] != cls[best]) { fail("nnpred:label", "%s: query %lld mode %d: label %g expected %g", D.c_str(), (long long)q, mode, lb->v[q], cls[best]); return; }
                    }
                    if (tg && !(fabsl(tg->v[q] - tsum / den) <= tolp * tabs / den + 1e-30L)) { fail("nnpred:target", "%s: query %lld mode %d: target %.17g expected %.17Lg", D.c_str(), (long long)q, mode, tg->v[q], tsum / den); return; }
                    count("pred_queries");
                }
            }
        }
        if (what & W_RNN) {
            VCHECK(cnt->v.back() == (double)at && off->v.back() == (double)at && (int64_t)rind->v.size() == at, "rnn:total", "%s: total %g, last offset %g, %lld indices, sum of counts %lld", D.c_str(), cnt->v.back(), off->v.back(), (long long)rind->v.size(), (long long)at);
        }
        if (what & W_PRED) {
            auto st = [&](const char *nm, int mode) { return status(o, nm, mode); };
            for (const char *nm : {"proba", "predict", "regress"}) {
                int s0 = st(nm, 0), e0 = sim && distw ? da_status_incompatible_options : 0;
                VCHECK(s0 == e0, "nnpred:status", "%s: %s (k) gives %d expected %d", D.c_str(), nm, s0, e0);
                if (sim || ambiguous) continue;
                int s1 = st(nm, 1), e1 = 0;
                bool known = std::find(cls.begin(), cls.end(), (double)olabel) != cls.end();
                if (any_outlier && outl == 0) e1 = da_status_operation_failed;
                if (any_outlier && outl == 1 && (!strcmp(nm, "regress") || !known)) e1 = da_status_outlier_warning;
                VCHECK(s1 == e1, "nnpred:status", "%s: %s (radius) gives %d expected %d", D.c_str(), nm, s1, e1);
            }
        }
    }
};
std::unique_ptr<NNS> gen_nn_w(Rng &r, int what) {
    auto s = std::make_unique<NNS>();
    s->what = what;
    int64_t n, d, m;
    double u = r.uni();
    if (u < 0.72) { n = r.size(1, 90); d = r.size(1, 8); m = r.size(1, 25); }
    else if (u < 0.90) { n = r.size(60, 400); d = r.size(1, 12); m = r.size(1, 20); }
    else if (u < 0.96) { n = r.in(500, 1300); d = r.in(1, 5); m = r.size(1, 12); }
    else if (u < 0.98) { n = r.size(5, 40); d = r.in(1, 3); m = r.in(1000, 1300); }
    else { n = r.size(10, 60); d = r.size(12, 80); m = r.size(1, 10); }
    int kind = r.below(D_NKINDS);
    s->X = gen_data(r, n, d, kind, &s->dk);
    s->Q = gen_data(r, m, d, kind);
    if (r.chance(0.15)) { // a lattice with large steps, so that many points share coordinates
        s->dk = "grid"; kind = D_GRID;
        int w = (int)r.in(1, 8);
        for (auto *A : {&s->X, &s->Q}) for (auto &x : A->a) x = (double)r.in(-w, w);
    }
    s->integral = kind == D_GRID || kind == D_ONEHOT;
    for (int64_t j = 0; j < m; j++) if (r.chance(0.25)) { int64_t i = r.below(n); for (int64_t c = 0; c < d; c++) s->Q(j, c) = s->X(i, c); }
    // queries far away
    for (int64_t j = 0; j < m; j++) if (r.chance(0.05)) for (int64_t c = 0; c < d; c++) s->Q(j, c) = f32(s->Q(j, c) * 8 + (s->integral ? 20 : 20.5));
    static const int METS[] = {da_euclidean, da_sqeuclidean, da_minkowski, da_manhattan, da_cosine, da_euclidean_gemm, da_sqeuclidean_gemm, da_inner_product};
    double t = r.uni();
    s->algo = t < 0.3 ? "brute" : t < 0.4 ? "auto" : t < 0.7 ? "kd tree" : "ball tree";
    bool tree = t >= 0.4;
    do s->met = METS[r.below(8)]; while ((tree && (s->met == da_sqeuclidean || s->met == da_cosine || s->met == da_sqeuclidean_gemm || s->met == da_inner_product)) || (s->met == da_inner_product && what == W_RNN));
    s->mname = metric_name(s->met);
    if (s->met == da_manhattan && r.chance(0.4)) s->mname = r.chance(0.5) ? "l1" : "cityblock";
    if (s->met == da_euclidean && r.chance(0.2)) s->mname = "l2";
    if (s->met == da_minkowski) { s->p = r.chance(0.4) ? r.pick({1.0, 2.0, 3.0, 4.0, 1.5}) : f32(r.uni(tree ? 1.0 : 0.4, 5)); }
    else if (r.chance(0.1)) s->p = 3; // must not matter
    // zero rows and the cosine distance: the library's convention at tiny norms is C21's matter
    if (s->met == da_cosine) for (auto *A : {&s->X, &s->Q}) for (int64_t i = 0; i < A->n; i++) { bool z = true; for (int64_t c = 0; c < d; c++) if (std::fabs((*A)(i, c)) > 1e-6) z = false; if (z) (*A)(i, 0) = 1; }
    s->leaf = r.chance(0.3) ? 30 : (int)r.size(1, 40);
    s->k = (int)r.size(1, std::min<int64_t>(n, r.chance(0.85) ? 20 : n));
    s->kopt = r.chance(0.3); s->ropt = r.chance(0.3);
    s->retd = r.chance(0.8); s->sortr = s->retd && r.chance(0.7);
    // radius: around an actual distance
    {
        int64_t i = r.below(n), j = r.below(m);
        RD rd = ref_dist(s->met, s->p, &s->X.a[i * d], &s->Q.a[j * d], d, false);
        double base = (double)fabsl(rd.ref);
        double w = r.uni();
        s->radius = w < 0.25 && s->integral ? (s->met == da_euclidean ? std::ceil(base) : base) : w < 0.3 ? 0 : w < 0.6 ? base * r.uni(0.05, 1.0) : w < 0.9 ? base * r.uni(0.5, 1.5) : base * r.uni(1, 6);
        s->radius = f32(s->radius);
    }
    s->distw = r.chance(0.4);
    s->outl = (int)r.below(3);
    int nc = (int)r.in(1, 6), off = r.chance(0.5) ? 0 : (int)r.in(-50, 50), st = r.chance(0.6) ? 1 : (int)r.in(1, 9);
    for (int64_t i = 0; i < n; i++) { s->labels.push_back(off + st * (double)r.below(nc)); s->targets.push_back(f32(r.chance(0.1) ? 0 : 5 * r.norm())); }
    s->olabel = r.chance(0.5) ? (int)s->labels[r.below(n)] : (int)r.in(-100, 100);
    s->otarget = f32(r.uni(-9, 9));
    s->set_after = r.chance(0.3);
    return s;
}
std::unique_ptr<Scenario> gen_nn(Rng &r) { int w = (int)r.below(3); return gen_nn_w(r, 1 << w); }
RegScen rs("nn", gen_nn, 2);
void one(Rng &rng, int what) {
    auto s = gen_nn_w(rng, what);
    Var v = random_var(rng);
    if (rng.chance(0.25)) v.threads = (int)rng.in(1, 4);
    if (v.threads) set_threads(v.threads);
    Outcome o = s->run(v);
    s->check(o, v);
    if (v.threads) set_threads(2);
    nontrivial(hmix(hstr(s->describe().c_str()), hstr(v.str().c_str())));
    sample(s->describe() + " " + v.str());
}
} // namespace
FAMILY(knn, 20000, 300000) { one(rng, W_KNN); }
FAMILY(rnn, 20000, 300000) { one(rng, W_RNN); }
FAMILY(nnpred, 20000, 300000) { one(rng, W_PRED); }
