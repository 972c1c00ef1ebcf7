// DBSCAN (C36)
#include "refdist.hpp"
using namespace vt;
extern "C" da_status da_debug_set(const char *, const char *);
namespace {
static const bool DBG = getenv("VT_DBG") != nullptr;
DAF(da_dbscan_set_data)
DAF(da_dbscan_compute)

struct Dbscan : Scenario {
    LM x; std::string dk, alg = "auto", metric = "euclidean", method; double eps = 0.5, power = 2; int minpts = 5, leaf = 30; bool grid = false;
    std::string describe() const override { return fmt("dbscan %lldx%lld data=%s %s %s p=%g eps=%.9g min=%d leaf=%d %s", (long long)x.n, (long long)x.m, dk.c_str(), alg.c_str(), metric.c_str(), power, eps, minpts, leaf, method.c_str()); }
    int64_t features() const override { return x.m; }
    double tol_layout() const override { return 1e-9; }
    bool ties() const override { return true; }
    template <class T> Outcome run_t(const Var &v) const {
        Outcome o; set_threads(v.threads);
        Handle h;
        if (o.add("init", DA(da_handle_init)(&h.h, da_handle_dbscan))) return o;
        hook<T>(h, "init");
        o.add("order", set_str(h, "storage order", v.order == row_major ? "row-major" : "column-major"));
        o.add("cd", set_str(h, "check data", v.check_data ? "yes" : "no"));
        auto opts = [&]() {
            o.add("alg", set_str(h, "algorithm", alg.c_str()));
            o.add("metric", set_str(h, "metric", metric.c_str()));
            o.add("eps", set_real<T>(h, "eps", (T)eps));
            o.add("power", set_real<T>(h, "power", (T)power));
            o.add("min", set_int(h, "min samples", minpts));
            o.add("leaf", set_int(h, "leaf size", leaf));
        };
        bool late = (x.n + minpts) % 3 == 0; // options between the data and the computation
        if (!late) opts();
        hook<T>(h, "opts");
        auto bx = Buf<T>::input("A", x, v.order, v.pad);
        if (o.add("data", DA(da_dbscan_set_data)(h, (da_int)x.n, (da_int)x.m, bx.data(), bx.ldi()))) return o;
        if (late) opts();
        hook<T>(h, "data");
        da_debug_set("dbscan.cluster_methods", method.c_str());
        for (int r = 0; r <= v.refit; r++) { da_status s = DA(da_dbscan_compute)(h); if (r == v.refit && o.add("compute", s)) { bx.verify(); return o; } }
        hook<T>(h, "trained"); hook<T>(h, "computed");
        bx.verify();
        o.disc("labels", get_int(h, da_dbscan_labels, &o, "labels"));
        o.disc("nclusters", get_int(h, da_dbscan_n_clusters, &o, "nc"));
        o.disc("ncore", get_int(h, da_dbscan_n_core_samples, &o, "ncs"));
        if (o.get("ncore")->v.size() && o.get("ncore")->v[0] > 0) o.disc("core", get_int(h, da_dbscan_core_sample_indices, &o, "core"));
        auto info = get_real<T>(h, da_rinfo, &o, "rinfo");
        if (info.size() == 9) o.disc("info", {info[0], info[1], info[3], info[4], info[5], info[6], info[7], info[8]});
        hook<T>(h, "end");
        return o;
    }
    RUN_DISPATCH
    int met() const {
        if (metric == "euclidean") return da_euclidean_gemm;
        if (metric == "l2") return da_euclidean;
        if (metric == "sqeuclidean") return da_sqeuclidean_gemm;
        if (metric == "manhattan" || metric == "l1" || metric == "cityblock") return da_manhattan;
        if (metric == "cosine") return da_cosine;
        return da_minkowski;
    }
    bool incompatible() const {
        bool tree = alg == "kd tree" || alg == "ball tree";
        return tree && (met() == da_cosine || met() == da_sqeuclidean_gemm || (met() == da_minkowski && power < 1));
    }
    void check(const Outcome &o, const Var &v) const override {
        std::string d = describe() + " " + v.str(); const char *ds = d.c_str();
        for (auto &s : o.st) if (s.second) {
            if (s.first == "compute" && incompatible()) { count("incompatible"); VCHECK(s.second == da_status_incompatible_options, "status", "%s: compute gave %s", ds, stname(s.second)); return; }
            fail("status", "%s: %s gave %s", ds, s.first.c_str(), stname(s.second)); return;
        }
        if (incompatible()) { fail("incompatible-accepted", "%s", ds); return; }
        int64_t n = x.n, m = x.m;
        double e = v.f32 ? (double)(float)eps : eps, pw = v.f32 ? (double)(float)power : power;
        int mt = met();
        // neighbourhoods: 1 inside, 0 outside, 2 too close to call
        std::vector<std::vector<int>> nb(n); long long amb = 0;
        ld_t u = v.f32 ? 0x1p-23L : 0x1p-52L, maxn = 0;
        for (int64_t i = 0; i < n; i++) { ld_t q = 0; for (int64_t j = 0; j < m; j++) q += (ld_t)x(i, j) * x(i, j); maxn = std::max(maxn, q); }
        for (int64_t i = 0; i < n; i++) for (int64_t k = 0; k < i; k++) {
            RD r = ref_dist(mt, pw, &x.a[i * m], &x.a[k * m], m, v.f32);
            ld_t tol = 4 * r.tol + 8 * u * e;
            if (mt == da_euclidean_gemm || (mt == da_minkowski && pw == 2)) tol = std::max(tol, 4 * u * (m + 8) * maxn / std::max<ld_t>(e, 1e-30L)); // squares are compared
            if (grid && !(mt == da_minkowski) && (mt == da_euclidean_gemm || mt == da_euclidean || mt == da_manhattan || mt == da_sqeuclidean_gemm) && alg != "ball tree" && (!v.f32 || maxn < 2e6L)) tol = 0; // no rounding
            if (r.same && alg == "ball tree" && e < 1e-5L * sqrtl(maxn)) tol = std::max<ld_t>(tol, 1e-30L); // (rounding in the distance to the centre of a ball)
            else if (r.same && mt != da_cosine && mt != da_euclidean_gemm && mt != da_sqeuclidean_gemm) tol = 0;
            if (fabsl(r.ref - e) <= tol && tol > 0) amb++;
            else if (r.ref <= e) { nb[i].push_back((int)k); nb[k].push_back((int)i); }
        }
        const auto &lab = o.get("labels")->v;
        int nc = (int)o.get("nclusters")->v[0], ncore = (int)o.get("ncore")->v[0];
        if (lab.size() != (size_t)n) { fail("labels-size", "%s: %zu labels", ds, lab.size()); return; }
        std::set<int> used;
        for (double l : lab) { if (l < -1 || l >= nc) { fail("label-range", "%s: label %g with %d clusters", ds, l, nc); return; } if (l >= 0) used.insert((int)l); }
        VCHECK((int)used.size() == nc, "label-unused", "%s: %zu of %d labels are used", ds, used.size(), nc);
        auto in = o.get("info");
        if (!in) { fail("info", "%s: no information array", ds); return; }
        std::vector<double> want{(double)n, (double)m, e, (double)minpts, (double)leaf, pw, (double)ncore, (double)nc};
        VCHECK(in->v == want, "info", "%s: information does not match", ds);
        if (amb) { count("too-close-to-call"); return; }
        std::vector<char> core(n); int cc = 0;
        for (int64_t i = 0; i < n; i++) { core[i] = (int)nb[i].size() + 1 >= minpts; cc += core[i]; }
        VCHECK(cc == ncore, "n-core", "%s: %d core samples, reference %d", ds, ncore, cc);
        if (ncore > 0) {
            auto ci = o.get("core"); std::vector<double> w; for (int64_t i = 0; i < n; i++) if (core[i]) w.push_back((double)i);
            VCHECK(ci && ci->v == w, "core-indices", "%s: core sample indices", ds);
        }
        // connected components of the core samples
        std::vector<int> comp(n, -1); int k = 0;
        for (int64_t i = 0; i < n; i++) if (core[i] && comp[i] < 0) {
            std::vector<int> st{(int)i}; comp[i] = k;
            while (st.size()) { int a = st.back(); st.pop_back(); for (int b : nb[a]) if (core[b] && comp[b] < 0) { comp[b] = k; st.push_back(b); } }
            k++;
        }
        VCHECK(k == nc, "n-clusters", "%s: %d clusters, reference %d", ds, nc, k);
        std::map<int, int> to; std::map<int, int> back; int border = 0, noise = 0, shared = 0;
        for (int64_t i = 0; i < n; i++) if (core[i]) {
            int l = (int)lab[i];
            if (l < 0) { fail("core-noise", "%s: core sample %lld is noise", ds, (long long)i); return; }
            if (!to.count(comp[i])) to[comp[i]] = l;
            if (!back.count(l)) back[l] = comp[i];
            if (to[comp[i]] != l) { fail("split", "%s: connected core samples have labels %d and %d", ds, to[comp[i]], l); return; }
            if (back[l] != comp[i]) { fail("merged", "%s: unconnected core samples share label %d", ds, l); return; }
        }
        for (int64_t i = 0; i < n; i++) if (!core[i]) {
            std::set<int> ok;
            for (int b : nb[i]) if (core[b]) ok.insert(to[comp[b]]);
            int l = (int)lab[i];
            if (ok.empty()) { noise++; VCHECK(l == -1, "noise", "%s: sample %lld has label %d and no core sample nearby", ds, (long long)i, l); }
            else { border++; shared += ok.size() > 1; VCHECK(ok.count(l), "border", "%s: border sample %lld has label %d", ds, (long long)i, l); }
        }
        count("core-samples", cc); count("border-samples", border); count("noise-samples", noise); count("border-between-clusters", shared); count("clusters", nc);
        count("alg-" + alg); count("metric-" + metric); count(method.size() ? "method-" + method : "method-default");
        if (nc > 1) count("several-clusters");
        nontrivial(hmix(hstr(d.c_str()), (uint64_t)cc * 1000 + nc));
    }
};
std::unique_ptr<Dbscan> make(Rng &r) {
    std::unique_ptr<Dbscan> p(new Dbscan);
    int64_t n = r.size(1, r.chance(0.1) ? 600 : 150), m = r.chance(0.7) ? r.in(1, 4) : r.size(1, 25);
    int kind = (int)r.below(6);
    if (kind == 0) { // integer grid: boundaries are hit exactly
        p->grid = true; p->dk = "grid"; p->x = LM(n, m);
        int w = (int)r.in(2, 12);
        for (auto &v : p->x.a) v = (double)r.in(0, w);
    } else if (kind == 1) { // chains: long clusters that are only connected through many samples
        p->dk = "chain"; p->x = LM(n, m);
        int64_t chains = r.in(1, 4);
        std::vector<int64_t> perm(n); for (int64_t i = 0; i < n; i++) perm[i] = i;
        for (int64_t i = n - 1; i > 0; i--) std::swap(perm[i], perm[r.in(0, i)]);
        for (int64_t i = 0; i < n; i++) { p->x(perm[i], 0) = (double)(i / chains); for (int64_t j = 1; j < m; j++) p->x(perm[i], j) = 0; p->x(perm[i], m - 1) += 1000.0 * (double)(i % chains); }
        p->grid = true;
    } else if (kind == 2) { // several blobs touching
        p->dk = "blobs"; p->x = LM(n, m);
        int64_t k = r.in(2, 6);
        for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < m; j++) p->x(i, j) = f32((double)(i % k) * (j == 0 ? 2.5 : 0.3) + r.norm() * 0.4);
    } else p->x = gen_data(r, n, m, -1, &p->dk);
    p->alg = r.pick({"auto", "brute", "kd tree", "ball tree"});
    p->metric = r.pick({"euclidean", "l2", "sqeuclidean", "manhattan", "l1", "cityblock", "cosine", "minkowski"});
    if ((p->alg == "kd tree" || p->alg == "ball tree") && r.chance(0.8)) p->metric = r.pick({"euclidean", "l2", "manhattan", "minkowski"});
    if (p->metric == "minkowski") p->power = r.pick({2.0, 1.0, 1.5, 3.0, 0.5, 4.0});
    else if (r.chance(0.1)) p->power = r.pick({1.0, 3.0});
    p->minpts = r.chance(0.2) ? 1 : r.chance(0.8) ? (int)r.in(2, 8) : (int)r.in(2, std::max<int64_t>(2, n + 2));
    p->leaf = r.chance(0.3) ? 1 : (int)r.in(1, 60);
    if (p->grid) p->eps = (double)r.in(0, 3) + (p->metric == "minkowski" || p->metric == "cosine" ? 0.25 : 0);
    else {
        // a distance that separates something
        int64_t a = r.below(n), b = r.below(n);
        RD d = ref_dist(p->met(), p->power, &p->x.a[a * m], &p->x.a[b * m], m, false);
        p->eps = f32((double)d.ref * r.pick({0.05, 0.1, 0.3, 0.3, 0.6, 1.001}));
        if (!(p->eps >= 0) || !std::isfinite(p->eps)) p->eps = 1;
        if (r.chance(0.05)) p->eps = 0;
    }
    p->method = r.pick({"parallel", "parallel", "serial"});
    return p;
}
std::unique_ptr<Scenario> gen_dbscan(Rng &r) { return make(r); }
RegScen rs_dbscan("dbscan", gen_dbscan);
FAMILY(dbscan, 1500, 30000) {
    auto s = make(rng);
    Var v = random_var(rng);
    if (rng.chance(0.5)) v.threads = (int)rng.in(2, 8);
    if (DBG) fprintf(stderr, "%llu %s | %s\n", (unsigned long long)S.idx, s->describe().c_str(), v.str().c_str());
    auto o = s->run(v);
    s->check(o, v);
    if (S.idx % 100 == 0) sample(s->describe());
}
} // namespace
