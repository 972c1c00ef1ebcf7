// k-means clustering (C35)
#include "vt.hpp"
using namespace vt;
namespace {
typedef long double ld_t;
static const bool DBG = getenv("VT_DBG") != nullptr;
DAF(da_kmeans_set_data)
DAF(da_kmeans_set_init_centres)
DAF(da_kmeans_compute)
DAF(da_kmeans_transform)
DAF(da_kmeans_predict)

struct KMeans : Scenario {
    LM x, xt, c0;
    std::string dk, alg, init, dist = "euclidean", empty = "ignore"; bool normalize = true, mixed = false;
    int k = 2, n_init = 1, maxit = 300, seed = 1, afk = 50; double tol = 0;
    std::vector<int> truth; // planted clusters
    std::string describe() const override {
        return fmt("kmeans %lldx%lld data=%s k=%d %s init=%s n_init=%d maxit=%d tol=%g %s%s empty=%s seed=%d%s", (long long)x.n, (long long)x.m, dk.c_str(), k, alg.c_str(), init.c_str(), n_init, maxit, tol, dist.c_str(), cosine() && !normalize ? "(no norm)" : "", empty.c_str(), seed, mixed ? " mixed" : "");
    }
    bool cosine() const { return dist == "cosine"; }
    bool supplied() const { return init == "supplied"; }
    bool hw() const { return alg == "hartigan-wong"; }
    int64_t features() const override { return x.m; }
    double tol_layout() const override { return dk == "gauss" && tol == 0 && !mixed && (supplied() || init == "random") && n_init == 1 && empty != "split" ? 1e-7 : 0; }
    template <class T> Outcome run_t(const Var &v) const {
        Outcome o;
        set_threads(v.threads);
        Handle h;
        if (o.add("init", DA(da_handle_init)(&h.h, da_handle_kmeans))) return o;
        hook<T>(h, "init");
        o.add("order", set_str(h, "storage order", v.order == row_major ? "row-major" : "column-major"));
        if (v.check_data) o.add("cd", set_str(h, "check data", "yes"));
        o.add("alg", set_str(h, "algorithm", alg.c_str()));
        o.add("im", set_str(h, "initialization method", init.c_str()));
        o.add("dist", set_str(h, "distance", dist.c_str()));
        o.add("nd", set_str(h, "normalize data", normalize ? "yes" : "no"));
        o.add("ec", set_str(h, "empty clusters", empty.c_str()));
        o.add("k", set_int(h, "n_clusters", k));
        o.add("ninit", set_int(h, "n_init", n_init));
        o.add("mit", set_int(h, "max_iter", maxit));
        o.add("seed", set_int(h, "seed", seed));
        o.add("afk", set_int(h, "afk-mc2 samples", afk));
        o.add("tol", set_real<T>(h, "convergence tolerance", (T)tol));
        o.add("mixed", set_str(h, "mixed precision", mixed ? "yes" : "no"));
        o.add("lpt", set_real<T>(h, "low precision convergence tolerance", (T)(mixed ? 2 * tol + 1e-2 : 1e-2)));
        hook<T>(h, "opts");
        auto bx = Buf<T>::input("A", x, v.order, v.pad);
        if (o.add("data", DA(da_kmeans_set_data)(h, (da_int)x.n, (da_int)x.m, bx.data(), bx.ldi()))) return o;
        auto bc = Buf<T>::input("C", c0, v.order, v.opad);
        if (supplied() && o.add("centres", DA(da_kmeans_set_init_centres)(h, bc.data(), bc.ldi()))) return o;
        hook<T>(h, "data");
        for (int r = 0; r <= v.refit; r++) {
            da_status s = DA(da_kmeans_compute)(h);
            if (r == v.refit) {
                o.st.push_back({"compute", (int)s}); digi(s);
                if (s != da_status_success && s != da_status_maxit) { bx.verify(); bc.verify(); return o; }
            }
        }
        hook<T>(h, "trained");
        hook<T>(h, "computed");
        bx.verify(); bc.verify();
        // centres come in the storage order of the handle
        auto c = get_real<T>(h, da_kmeans_cluster_centres, &o, "centres");
        if (v.order == column_major && c.size() == (size_t)k * x.m) { std::vector<double> t(c.size()); for (int a = 0; a < k; a++) for (int64_t j = 0; j < x.m; j++) t[a * x.m + j] = c[a + j * k]; c = t; }
        o.real("centres", c);
        o.disc("labels", get_int(h, da_kmeans_labels, &o, "labels"));
        auto info = get_real<T>(h, da_rinfo, &o, "rinfo");
        if (info.size() == 6) {
            o.disc("dims", {info[0], info[1], info[2], info[3]});
            o.real("inertia", {info[4]});
        }
        for (int q = 0; q < 2; q++) {
            const LM &e = q ? xt : x;
            auto be = Buf<T>::input("Y", e, v.order, v.pad);
            Buf<da_int> pl("Y_labels", e.n, 1);
            o.add("predict", DA(da_kmeans_predict)(h, (da_int)e.n, (da_int)e.m, be.data(), be.ldi(), pl.data()));
            be.verify(); pl.verify();
            VCHECK(pl.fully_written(), "predict-incomplete", "%s: labels not written", describe().c_str());
            o.disc(q ? "pred1" : "pred0", pl.vecd());
            Buf<T> tr("X_transform", e.n, k, v.order, v.opad);
            o.add("transform", DA(da_kmeans_transform)(h, (da_int)e.n, (da_int)e.m, be.data(), be.ldi(), tr.data(), tr.ldi()));
            be.verify(); tr.verify();
            o.real(q ? "trans1" : "trans0", tr.vecd());
        }
        hook<T>(h, "end");
        return o;
    }
    RUN_DISPATCH
    ld_t norm2(const LM &e, int64_t i) const { ld_t s = 0; for (int64_t j = 0; j < e.m; j++) s += (ld_t)e(i, j) * e(i, j); return s; }
    // the quantity minimised for a sample and a centre: squared distance, or 1 - cosine
    ld_t dd(const LM &e, int64_t i, const double *c) const {
        ld_t s = 0;
        if (!cosine()) { for (int64_t j = 0; j < e.m; j++) { ld_t d = (ld_t)e(i, j) - c[j]; s += d * d; } return s; }
        for (int64_t j = 0; j < e.m; j++) s += (ld_t)e(i, j) * c[j];
        if (normalize) { ld_t nn = sqrtl(norm2(e, i)); s = nn > 0 ? s / nn : 0; }
        return 1 - s;
    }
    // size of the terms behind dd
    ld_t mag(const LM &e, int64_t i, const double *c) const {
        ld_t a = norm2(e, i), b = 0;
        for (int64_t j = 0; j < e.m; j++) b += (ld_t)c[j] * c[j];
        if (!cosine()) return a + b;
        return normalize ? 1 + sqrtl(b) : 1 + sqrtl(a * b);
    }
    struct Ref { bool empty = false, fixpoint = false; ld_t gap = 1e30L; int iters = 0; LM c; std::vector<int> lab; };
    // Lloyd's algorithm from the given centres
    Ref lloyd() const {
        Ref r; r.c = c0; int64_t n = x.n, m = x.m;
        LM u = x;
        std::vector<ld_t> cc(c0.a.begin(), c0.a.end());
        std::vector<ld_t> xs(x.a.begin(), x.a.end());
        if (cosine()) {
            if (normalize) for (int64_t i = 0; i < n; i++) { ld_t q = sqrtl(norm2(x, i)); if (q > 0) for (int64_t j = 0; j < m; j++) xs[i * m + j] /= q; }
            for (int a = 0; a < k; a++) { ld_t q = 0; for (int64_t j = 0; j < m; j++) q += cc[a * m + j] * cc[a * m + j]; q = sqrtl(q); if (q > 0) for (int64_t j = 0; j < m; j++) cc[a * m + j] /= q; }
        }
        auto assign = [&](std::vector<int> &lab) {
            for (int64_t i = 0; i < n; i++) {
                ld_t b1 = INFINITY, b2 = INFINITY; int l = 0; ld_t sc = 0;
                for (int a = 0; a < k; a++) {
                    ld_t s = 0, t = 0;
                    for (int64_t j = 0; j < m; j++) { ld_t p = xs[i * m + j], q = cc[a * m + j]; if (cosine()) s -= p * q; else s += (p - q) * (p - q); t += p * p + q * q; }
                    sc = std::max(sc, t);
                    if (s < b1) { b2 = b1; b1 = s; l = a; } else b2 = std::min(b2, s);
                }
                r.gap = std::min(r.gap, (b2 - b1) / (sc + 1e-300L));
                lab[i] = l;
            }
        };
        std::vector<int> lab(n, -1), prev;
        for (r.iters = 0; r.iters < maxit; r.iters++) {
            prev = lab;
            assign(lab);
            if (lab == prev) { r.fixpoint = true; break; }
            std::vector<ld_t> nc(k * m, 0); std::vector<int> cnt(k, 0);
            for (int64_t i = 0; i < n; i++) { cnt[lab[i]]++; for (int64_t j = 0; j < m; j++) nc[lab[i] * m + j] += xs[i * m + j]; }
            for (int a = 0; a < k; a++) {
                if (!cnt[a]) r.empty = true;
                ld_t q = 0; for (int64_t j = 0; j < m; j++) q += nc[a * m + j] * nc[a * m + j];
                ld_t dv = cosine() ? sqrtl(q) : cnt[a];
                if (cosine()) r.gap = std::min(r.gap, dv / (cnt[a] + 1)); // direction of a sum near zero
                if (dv > 0) for (int64_t j = 0; j < m; j++) nc[a * m + j] /= dv;
            }
            cc = nc;
            if (r.empty) return r;
        }
        assign(lab);
        r.lab = lab;
        for (size_t q = 0; q < cc.size(); q++) r.c.a[q] = (double)cc[q];
        return r;
    }
    void check(const Outcome &o, const Var &v) const override {
        int comp = -1;
        for (auto &s : o.st) {
            if (s.first == "compute") { comp = s.second; continue; }
            if (s.second) { fail("status", "%s: %s gave %s", describe().c_str(), s.first.c_str(), stname(s.second)); return; }
        }
        int64_t n = x.n, m = x.m;
        const char *ds = nullptr; std::string dss = describe() + " " + v.str(); ds = dss.c_str();
        bool bad = hw() && (k == 1 || k >= n || cosine());
        if (bad) { count("incompatible"); VCHECK(comp == da_status_incompatible_options, "incompatible-accepted", "%s: gave %s", ds, stname(comp)); return; }
        bool follow = (alg == "lloyd" || alg == "elkan") && supplied() && tol == 0 && !mixed;
        Ref ref; bool refok = false;
        ld_t e = v.f32 ? 6e-8L : 1.2e-16L;
        if (follow) { ref = lloyd(); refok = ref.gap > 1e5 * e * (n + m); }
        if (comp == da_status_empty_clusters) {
            count("empty-error");
            VCHECK(empty == "error" || hw(), "empty-error-unasked", "%s: empty clusters reported", ds);
            if (refok) VCHECK(ref.empty, "empty-error-wrong", "%s: an empty cluster is reported, the reference finds none in %d iterations", ds, ref.iters);
            return;
        }
        if (comp != 0 && comp != da_status_maxit) {
            if (hw()) { count("hw-failed"); return; }
            fail("compute-failed", "%s: compute gave %s", ds, stname(comp)); return;
        }
        if (refok && ref.empty && empty == "error") { fail("empty-error-missed", "%s: the reference meets an empty cluster", ds); return; }
        auto &c = o.get("centres")->v; auto &lab = o.get("labels")->v; auto *dm = o.get("dims");
        if ((int64_t)c.size() != k * m || (int64_t)lab.size() != n || !dm) { fail("sizes", "%s: %zu centre values, %zu labels", ds, c.size(), lab.size()); return; }
        VCHECK(dm->v[0] == n && dm->v[1] == m && dm->v[2] == k, "info-dims", "%s: rinfo %g %g %g", ds, dm->v[0], dm->v[1], dm->v[2]);
        for (double q : c) if (!std::isfinite(q)) { fail("centre-not-finite", "%s: a centre is %g", ds, q); return; }
        std::vector<int> cnt(k, 0);
        for (double l : lab) { if (!(l >= 0 && l < k)) { fail("label-range", "%s: label %g", ds, l); return; } cnt[(int)l]++; }
        VCHECK(dm->v[3] >= 0 && dm->v[3] <= maxit, "iterations", "%s: %g iterations", ds, dm->v[3]);
        count(comp ? "maxit" : "converged");
        // inertia
        double inertia = o.get("inertia")->v[0];
        ld_t s = 0, sm = 0;
        for (int64_t i = 0; i < n; i++) { s += dd(x, i, &c[(int)lab[i] * m]); sm += mag(x, i, &c[(int)lab[i] * m]); }
        ld_t etol = 8 * (n + m) * e;
        VCHECK(fabsl(s - inertia) <= (cosine() ? etol * sm + n * 4 * e * m : etol * s + 32 * m * e * e * sm * n + 64 * e * sqrtl(s * sm)), "inertia", "%s: inertia %.12g, the labels and centres give %.12Lg", ds, inertia, s);
        // labels are the nearest centres
        for (int w = 0; w < 3; w++) {
            const LM &q = w == 2 ? xt : x; auto &L = w == 0 ? lab : o.get(w == 1 ? "pred0" : "pred1")->v;
            if (w == 0 && hw()) continue;
            for (int64_t i = 0; i < q.n; i++) {
                if (!(L[i] >= 0 && L[i] < k)) { fail("predict-range", "%s: label %g", ds, L[i]); return; }
                ld_t mine = dd(q, i, &c[(int)L[i] * m]);
                for (int a = 0; a < k; a++) {
                    ld_t other = dd(q, i, &c[a * m]);
                    ld_t t = 16 * (m + 4) * e * (mag(q, i, &c[a * m]) + mag(q, i, &c[(int)L[i] * m]));
                    // the centres moved by rounding only after the labels were found
                    if (w == 0) t += 8 * (n + m) * e * (mag(q, i, &c[a * m]) + mag(q, i, &c[(int)L[i] * m]));
                    if (mine > other + t) { fail(w == 0 ? "label-not-nearest" : "predict-not-nearest", "%s: sample %lld has label %g at %.9Lg, centre %d is at %.9Lg", ds, (long long)i, L[i], mine, a, other); i = q.n; break; }
                }
            }
        }
        // transform
        for (int w = 0; w < 2; w++) {
            const LM &q = w ? xt : x; auto &t = o.get(w ? "trans1" : "trans0")->v;
            for (int64_t i = 0; i < q.n; i++) for (int a = 0; a < k; a++) {
                ld_t d2 = dd(q, i, &c[a * m]), er = 16 * (m + 4) * e * mag(q, i, &c[a * m]);
                ld_t got = t[i * k + a];
                // clamped to the range of the cosine
                ld_t want = cosine() ? (normalize ? d2 : std::min((ld_t)2, std::max((ld_t)0, d2))) : d2;
                ld_t err = cosine() ? fabsl(got - want) : fabsl(got * got - want);
                if (!(err <= er + 1e-37L) || (!cosine() && got < 0)) { fail("transform", "%s: sample %lld centre %d is %.12Lg, want %.12Lg", ds, (long long)i, a, got, cosine() ? want : sqrtl(want)); i = q.n; break; }
            }
        }
        // centres are the means of their samples at a strict fixed point
        bool strict = tol == 0 && comp == 0 && !mixed && empty != "split";
        if (strict) {
            for (int a = 0; a < k; a++) {
                if (!cnt[a]) continue;
                std::vector<ld_t> mean(m, 0); ld_t qq = 0, big = 0;
                for (int64_t i = 0; i < n; i++) if (lab[i] == a) { ld_t w = cosine() && normalize ? sqrtl(norm2(x, i)) : 1; if (!(w > 0)) w = 1; for (int64_t j = 0; j < m; j++) { mean[j] += x(i, j) / w; big = std::max(big, fabsl(x(i, j) / w)); } }
                for (auto q : mean) qq += q * q;
                ld_t dv = cosine() ? sqrtl(qq) : cnt[a];
                if (cosine() && dv < 1e-2 * cnt[a] * big) continue; // no direction
                if (!(dv > 0)) continue;
                for (int64_t j = 0; j < m; j++) {
                    ld_t t = cosine() ? 1e3 * (n + m) * e : 16 * (cnt[a] + 4) * e * big + 64 * e * big;
                    if (!(fabsl(c[a * m + j] - mean[j] / dv) <= t)) { fail("centre-not-mean", "%s: centre %d feature %lld is %.12g, mean of its %d samples %.12Lg (%g iterations)", ds, a, (long long)j, c[a * m + j], cnt[a], mean[j] / dv, dm->v[3]); a = k; break; }
                }
            }
            count("fixed-points");
        }
        if (empty == "error" && strict) for (int a = 0; a < k; a++) VCHECK(cnt[a], "empty-cluster", "%s: cluster %d is empty", ds, a);
        // Hartigan-Wong: no single move improves
        if (hw() && comp == 0 && !v.f32) {
            for (int64_t i = 0; i < n; i++) {
                int a = (int)lab[i]; if (cnt[a] < 2) continue;
                ld_t out = (ld_t)cnt[a] / (cnt[a] - 1) * dd(x, i, &c[a * m]);
                for (int b = 0; b < k; b++) if (b != a && cnt[b]) {
                    ld_t in = (ld_t)cnt[b] / (cnt[b] + 1) * dd(x, i, &c[b * m]);
                    if (in < out * (1 - 1e-7L) - 1e4 * e * mag(x, i, &c[b * m])) { fail("hw-not-optimal", "%s: moving sample %lld from %d to %d reduces the inertia by %.6Lg", ds, (long long)i, a, b, out - in); i = n; break; }
                }
            }
            count("hw-optimal");
        }
        if (refok && !ref.empty) {
            count("trajectories");
            VCHECK(ref.fixpoint || comp == da_status_maxit, "maxit-missed", "%s: no fixed point within %d iterations, reported %g", ds, maxit, dm->v[3]);
            ld_t big = 0; for (double q : x.a) big = std::max(big, (ld_t)fabs(q));
            for (size_t q = 0; q < c.size(); q++) if (!(fabsl(c[q] - ref.c.a[q]) <= (cosine() ? 1e4 * n : 64 * (n + 8)) * e * (cosine() ? 1 : big))) { fail("trajectory-centres", "%s: centre value %zu is %.12g, Lloyd's iterations give %.12g (%d iterations, gap %.2Lg)", ds, q, c[q], ref.c.a[q], ref.iters, ref.gap); break; }
            for (int64_t i = 0; i < n; i++) if (lab[i] != ref.lab[i]) { fail("trajectory-labels", "%s: label %lld is %g, Lloyd's iterations give %d", ds, (long long)i, lab[i], ref.lab[i]); break; }
        }
        // clearly separated clusters are found from good starts
        if (!truth.empty() && !hw() && comp == 0 && (init == "k-means++") && n_init >= 5 && !cosine()) {
            ld_t want = 0;
            for (int a = 0; a < k; a++) {
                std::vector<ld_t> mean(m, 0); int nn = 0;
                for (int64_t i = 0; i < n; i++) if (truth[i] == a) { nn++; for (int64_t j = 0; j < m; j++) mean[j] += x(i, j); }
                if (!nn) continue;
                for (int64_t i = 0; i < n; i++) if (truth[i] == a) for (int64_t j = 0; j < m; j++) { ld_t d = x(i, j) - mean[j] / nn; want += d * d; }
            }
            count("separated");
            VCHECK(s <= want * 1.05L + 1e-6, "separated-not-found", "%s: inertia %.9Lg, planted clusters have %.9Lg", ds, s, want);
        }
        nontrivial(hstr(fmt("%s %s %s %d %d %s %d", alg.c_str(), init.c_str(), dist.c_str(), comp, k < 16, empty.c_str(), v.order).c_str()));
    }
};
std::unique_ptr<KMeans> make(Rng &r) {
    auto p = std::make_unique<KMeans>();
    int kind = (int)r.below(10);
    p->alg = r.pick({"lloyd", "lloyd", "elkan", "elkan", "macqueen", "hartigan-wong"});
    p->init = r.pick({"supplied", "supplied", "supplied", "random", "k-means++", "k-means++", "random partitions", "afk-mc2"});
    int64_t m = r.chance(0.1) ? r.size(8, 40) : r.size(1, 9);
    int64_t n = r.chance(0.15) ? r.size(200, 1100) : r.size(2, 90);
    if (p->alg == "macqueen" || p->alg == "hartigan-wong") n = std::min<int64_t>(n, 300);
    int kmax = (int)std::min<int64_t>(n, 40);
    p->k = r.chance(0.7) ? (int)r.in(1, std::min(kmax, 9)) : (int)r.in(1, kmax);
    if (kind < 6) { p->x = gen_data(r, n, m, D_GAUSS, &p->dk); }
    else if (kind == 6) {
        // separated
        p->dk = "separated"; p->k = std::min(p->k, 6); p->x = LM(n, m);
        for (int64_t i = 0; i < n; i++) { int a = i < p->k ? (int)i : (int)r.below(p->k); p->truth.push_back(a); for (int64_t j = 0; j < m; j++) p->x(i, j) = f32((j == 0 ? 1000.0 * a * (1 + a * 0.1) : 5.0 * a) + r.norm()); }
    } else { p->x = gen_data(r, n, m, r.pick({(int)D_GRID, (int)D_CLUST, (int)D_DUP, (int)D_CONSTCOL, (int)D_UNIF, (int)D_OFFSET, (int)D_ONEHOT}), nullptr); p->dk = "other"; }
    p->xt = r.chance(0.5) ? gen_data(r, r.size(1, 300), m, D_GAUSS) : gen_data(r, r.size(1, 20), m, D_BIG);
    if (r.chance(0.2) && p->alg != "hartigan-wong") { p->dist = "cosine"; p->normalize = r.chance(0.7);
        if (!p->normalize) for (LM *q : {&p->x, &p->xt}) for (int64_t i = 0; i < q->n; i++) { double s = 0; for (int64_t j = 0; j < m; j++) s += (*q)(i, j) * (*q)(i, j); s = sqrt(s); if (s > 0) for (int64_t j = 0; j < m; j++) (*q)(i, j) = f32((*q)(i, j) / s); }
    } else if (r.chance(0.02)) { p->dist = "cosine"; }
    // initial centres: samples, or anything
    p->c0 = LM(p->k, m);
    bool fromx = r.chance(0.75);
    std::vector<int64_t> perm; for (int64_t i = 0; i < n; i++) perm.push_back(i);
    for (int64_t i = n - 1; i > 0; i--) std::swap(perm[i], perm[r.below(i + 1)]);
    for (int a = 0; a < p->k; a++) for (int64_t j = 0; j < m; j++) p->c0(a, j) = fromx ? p->x(perm[a % n], j) : f32(r.norm() * 2);
    p->tol = r.chance(0.65) ? 0 : f32(std::pow(10.0, r.uni(-6, -1)));
    if (r.chance(0.25)) p->maxit = (int)r.in(1, 5);
    p->n_init = r.chance(0.5) ? 1 : (int)r.in(2, 10);
    if (p->truth.size()) p->n_init = (int)r.in(5, 10);
    p->empty = r.chance(0.6) ? "ignore" : r.pick({"error", "split"});
    p->seed = (int)r.in(0, 1000);
    if (r.chance(0.3)) p->afk = (int)r.in(1, 20);
    return p;
}
std::unique_ptr<Scenario> gen_kmeans(Rng &r) { return make(r); }
RegScen rs_kmeans("kmeans", gen_kmeans);
FAMILY(kmeans, 300, 3000) {
    auto s = make(rng);
    Var v = random_var(rng);
    if (rng.chance(0.05) && !v.f32) s->mixed = true;
    if (DBG) fprintf(stderr, "%llu %s | %s\n", (unsigned long long)S.idx, s->describe().c_str(), v.str().c_str());
    auto o = s->run(v);
    s->check(o, v);
    // more starts never give a worse result (the first start is the same)
    if (s->x.n <= 128 && !s->supplied() && s->n_init == 1 && !S.nviol && rng.chance(0.5)) {
        int c1 = -1, c2 = -1;
        KMeans t = *s; t.n_init = (int)rng.in(2, 6);
        auto o2 = t.run(v);
        for (auto &q : o.st) if (q.first == "compute") c1 = q.second;
        for (auto &q : o2.st) if (q.first == "compute") c2 = q.second;
        bool ok1 = c1 == 0 || c1 == da_status_maxit, ok2 = c2 == 0 || c2 == da_status_maxit;
        if (ok1) {
            VCHECK(ok2, "n-init-fails", "%s: one start works, %d starts give %s", s->describe().c_str(), t.n_init, stname(c2));
            if (ok2 && o.get("inertia") && o2.get("inertia")) VCHECK(o2.get("inertia")->v[0] <= o.get("inertia")->v[0] + fabs(o.get("inertia")->v[0]) * (v.f32 ? 1e-4 : 1e-9) + s->x.n * (v.f32 ? 1e-6 : 1e-14), "n-init-worse", "%s: inertia %.12g with one start, %.12g with %d", s->describe().c_str(), o.get("inertia")->v[0], o2.get("inertia")->v[0], t.n_init);
            count("n-init-compared");
        }
    }
    if (S.idx % 50 == 0) sample(s->describe());
}
} // namespace
