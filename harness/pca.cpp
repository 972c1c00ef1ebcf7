// Principal components (C33) and kernel principal components (C34)
#include "vt.hpp"
using namespace vt;
typedef long double ld_t;
namespace {
static const bool DBG = getenv("VT_DBG") != nullptr;
DAF(da_pca_set_data)
DAF(da_pca_compute)
DAF(da_pca_transform)
DAF(da_pca_inverse_transform)
DAF(da_kernel_pca_set_data)
DAF(da_kernel_pca_compute)
DAF(da_kernel_pca_transform)
DAF(da_kernel_pca_inverse_transform)

struct Q { int64_t n = 0, m = 0; std::vector<ld_t> a; Q() {} Q(int64_t n, int64_t m) : n(n), m(m), a(n * m, 0) {} ld_t &operator()(int64_t i, int64_t j) { return a[i * m + j]; } ld_t operator()(int64_t i, int64_t j) const { return a[i * m + j]; } };
// eigenvalues of a symmetric matrix (cyclic Jacobi), in decreasing order
std::vector<ld_t> eigenvalues(Q A) {
    int64_t n = A.n;
    for (int sweep = 0; sweep < 60; sweep++) {
        ld_t off = 0, dia = 0;
        for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < n; j++) (i == j ? dia : off) += A(i, j) * A(i, j);
        if (off <= 1e-36L * dia || off == 0) break;
        for (int64_t p = 0; p < n; p++) for (int64_t q = p + 1; q < n; q++) {
            ld_t g = A(p, q);
            if (g == 0) continue;
            ld_t th = (A(q, q) - A(p, p)) / (2 * g), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(1 + th * th)), c = 1 / sqrtl(1 + t * t), s = t * c;
            for (int64_t k = 0; k < n; k++) { ld_t x = A(k, p), y = A(k, q); A(k, p) = c * x - s * y; A(k, q) = s * x + c * y; }
            for (int64_t k = 0; k < n; k++) { ld_t x = A(p, k), y = A(q, k); A(p, k) = c * x - s * y; A(q, k) = s * x + c * y; }
        }
    }
    std::vector<ld_t> e(n);
    for (int64_t i = 0; i < n; i++) e[i] = A(i, i);
    std::sort(e.begin(), e.end(), std::greater<ld_t>());
    return e;
}
// a result matrix n x m in the given order
Q mat(const std::vector<double> &v, int64_t n, int64_t m, int order) {
    Q q(n, m);
    if ((int64_t)v.size() != n * m) return q;
    for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < m; j++) q(i, j) = order == row_major ? v[i * m + j] : v[i + j * n];
    return q;
}

// ---------------------------------------------------------------- PCA
struct Pca : Scenario {
    LM x, X, Y; std::string dk, method = "covariance", dof = "unbiased", solver = "auto", norm = "qr"; int nc = 1, over = 10, iter = -1, seed = 0; bool su = false, wh = false, late = false;
    std::string describe() const override { return fmt("pca %lldx%lld data=%s %s %s %s nc=%d u=%d whiten=%d late=%d%s", (long long)x.n, (long long)x.m, dk.c_str(), method.c_str(), dof.c_str(), solver.c_str(), nc, su, wh, late, solver == "randomized" || solver == "auto" ? fmt(" over=%d iter=%d %s seed=%d", over, iter, norm.c_str(), seed).c_str() : ""); }
    int64_t features() const override { return x.m; }
    double tol_layout() const override { return dk == "gauss" && solver != "randomized" && nk() < 5 && x.n > 2 * x.m ? 1e-5 : 0; }
    bool ties() const override { return true; }
    int64_t nk() const { int64_t k = std::min(x.n, x.m); return nc == 0 ? k : std::min<int64_t>(nc, k); }
    std::string used() const {
        if (solver != "auto") return solver;
        int64_t k = std::min(x.n, x.m);
        if (nk() < k / 5 && std::max(x.n, x.m) > 500) return "randomized";
        return x.n > 3 * x.m && !su ? "syevd" : "gesdd";
    }
    template <class T> Outcome run_t(const Var &v) const {
        Outcome o; set_threads(v.threads);
        Handle h;
        if (o.add("init", DA(da_handle_init)(&h.h, da_handle_pca))) return o;
        hook<T>(h, "init");
        o.add("order", set_str(h, "storage order", v.order == row_major ? "row-major" : "column-major"));
        o.add("cd", set_str(h, "check data", v.check_data ? "yes" : "no"));
        auto opts = [&]() {
            o.add("o-method", set_str(h, "pca method", method.c_str()));
            o.add("o-dof", set_str(h, "degrees of freedom", dof.c_str()));
            o.add("o-solver", set_str(h, "svd solver", solver.c_str()));
            o.add("o-nc", set_int(h, "n_components", late ? (int)nk() : nc));
            o.add("o-u", set_int(h, "store u", su));
            o.add("o-w", set_int(h, "whiten", wh));
            o.add("o-over", set_int(h, "n_oversamples", over));
            o.add("o-iter", set_int(h, "power iterations", iter));
            o.add("o-norm", set_str(h, "power normalization", norm.c_str()));
            o.add("o-seed", set_int(h, "seed", seed));
        };
        auto refused_nc = [&] { for (auto &q : o.st) if (q.first == "o-nc" && q.second) return true; return false; };
        if (!late) opts();
        if (refused_nc()) return o;
        hook<T>(h, "opts");
        auto bx = Buf<T>::input("A", x, v.order, v.pad);
        da_status s = DA(da_pca_set_data)(h, (da_int)x.n, (da_int)x.m, bx.data(), bx.ldi());
        if (s == da_status_incompatible_options && !late && nc > std::min(x.n, x.m)) s = da_status_success; // (a warning)
        if (o.add("data", s)) return o;
        if (late) opts();
        if (refused_nc()) return o;
        hook<T>(h, "data");
        for (int r = 0; r <= v.refit; r++) { s = DA(da_pca_compute)(h); if (r == v.refit && o.add("compute", s)) { bx.verify(); return o; } }
        hook<T>(h, "trained"); hook<T>(h, "computed");
        bx.verify();
        auto real = [&](const char *n, da_result q) { auto r = get_real<T>(h, q, &o, n); o.real(std::string("~") + n, std::vector<double>(r.begin(), r.end())); };
        auto vec = [&](const char *n, da_result q) { auto r = get_real<T>(h, q, &o, n); o.real(n, std::vector<double>(r.begin(), r.end())); };
        real("components", da_pca_principal_components); real("vt", da_pca_vt);
        vec("sigma", da_pca_sigma); vec("variance", da_pca_variance); vec("total", da_pca_total_variance);
        if (method != "svd") vec("means", da_pca_column_means);
        if (method == "correlation") vec("sdevs", da_pca_column_sdevs);
        if (su) { real("u", da_pca_u); real("scores", da_pca_scores); }
        auto info = get_real<T>(h, da_rinfo, &o, "info"); o.disc("info", std::vector<double>(info.begin(), info.end()));
        {
            auto bq = Buf<T>::input("X", X, v.order, v.pad + 1);
            Buf<T> bt("XT", X.n, nk(), v.order, v.opad);
            if (!o.add("transform", DA(da_pca_transform)(h, (da_int)X.n, (da_int)X.m, bq.data(), bq.ldi(), bt.data(), bt.ldi()))) { bt.fully_written(); bt.verify(); auto d = bt.vecd(); o.real("~xt", std::vector<double>(d.begin(), d.end())); }
            bq.verify();
            auto by = Buf<T>::input("Y", Y, v.order, v.pad);
            Buf<T> bi("YI", Y.n, x.m, v.order, v.opad);
            if (!o.add("inverse", DA(da_pca_inverse_transform)(h, (da_int)Y.n, (da_int)Y.m, by.data(), by.ldi(), bi.data(), bi.ldi()))) { bi.fully_written(); bi.verify(); auto d = bi.vecd(); o.real("~yi", std::vector<double>(d.begin(), d.end())); }
            by.verify();
        }
        hook<T>(h, "end");
        return o;
    }
    RUN_DISPATCH
    void check(const Outcome &o, const Var &v) const override {
        std::string d = describe() + " " + v.str(); const char *ds = d.c_str();
        bool inc = solver == "syevd" && su;
        for (auto &s : o.st) if (s.second) {
            if (s.first == "compute" && inc) { count("incompatible"); VCHECK(s.second == da_status_incompatible_options, "pca:status", "%s: compute gave %s", ds, stname(s.second)); return; }
            fail("pca:status", "%s: %s gave %s", ds, s.first.c_str(), stname(s.second)); return;
        }
        if (inc) { fail("pca:incompatible-accepted", "%s", ds); return; }
        int64_t n = x.n, p = x.m, k = nk();
        ld_t u = v.f32 ? 0x1p-23L : 0x1p-52L;
        bool cov = method == "covariance", cor = method == "correlation";
        std::string sv = used();
        count("solver-" + sv); count("method-" + method);
        auto V = [&](const char *nm) -> const std::vector<double> & { return o.get(nm)->v; };
        // sizes
        VCHECK(V("info") == (std::vector<double>{(double)n, (double)p, (double)k}), "pca:info", "%s: information array", ds);
        auto size = [&](const char *nm, int64_t w) { if ((int64_t)V(nm).size() != w) { fail("pca:size", "%s: %s has %zu elements, expected %lld", ds, nm, V(nm).size(), (long long)w); return false; } for (double z : V(nm)) if (!std::isfinite(z)) { fail("pca:not-finite", "%s: %s", ds, nm); return false; } return true; };
        if (!size("~components", k * p) || !size("~vt", k * p) || !size("sigma", k) || !size("variance", k) || !size("total", 1)) return;
        if (su && (!size("~u", n * k) || !size("~scores", n * k))) return;
        VCHECK(V("~components") == V("~vt"), "pca:components", "%s: principal components differ from VT", ds);
        // standardised data
        ld_t div = dof == "biased" ? n : n == 1 ? 1 : n - 1;
        Q Z(n, p); std::vector<ld_t> mu(p, 0), sd(p, 1), cm(p, 0);
        ld_t N2 = 0; // squared norm of the scaled data before centering
        for (int64_t j = 0; j < p; j++) {
            ld_t am = 0, q = 0, s2 = 0;
            for (int64_t i = 0; i < n; i++) { mu[j] += x(i, j); am = std::max(am, fabsl((ld_t)x(i, j))); q += (ld_t)x(i, j) * x(i, j); }
            cm[j] = am;
            mu[j] = method == "svd" ? 0 : mu[j] / n;
            for (int64_t i = 0; i < n; i++) { ld_t t = x(i, j) - mu[j]; s2 += t * t; }
            if (cor) {
                sd[j] = sqrtl(s2 / div);
                ld_t lib = V("sdevs")[j];
                VCHECK(fabsl(lib - sd[j]) <= 64 * u * sd[j] + 8 * sqrtl(n) * u * am, "pca:sdevs", "%s: sdev[%lld] = %.12Lg, expected %.12Lg", ds, (long long)j, lib, sd[j]);
                if (sd[j] <= 4096 * u * am) { if (lib != 0 || sd[j] > 1e-18L * am) { count("sdev-is-rounding"); return; } sd[j] = 1; }
            }
            if (method != "svd") VCHECK(fabsl(V("means")[j] - mu[j]) <= (8 + n) * u * am, "pca:means", "%s: mean[%lld] = %.12g, expected %.12Lg", ds, (long long)j, V("means")[j], mu[j]);
            N2 += q / (sd[j] * sd[j]);
            for (int64_t i = 0; i < n; i++) Z(i, j) = (x(i, j) - mu[j]) / sd[j];
        }
        ld_t N = sqrtl(N2), zz = 0;
        for (ld_t t : Z.a) zz += t * t;
        ld_t C = 30 + 4 * (n + p), tol1 = C * u * N;                      // on products of Z with unit vectors
        ld_t tol2 = sv == "syevd" ? C * u * N2 : 2 * tol1 * sqrtl(zz) + tol1 * tol1; // on their squares
        VCHECK(fabsl((ld_t)V("total")[0] - zz / div) <= (2 * C * u * N2) / div, "pca:total-variance", "%s: total variance %.12g, expected %.12Lg", ds, V("total")[0], zz / div);
        auto &sg = V("sigma");
        Q W = mat(V("~vt"), k, p, v.order);
        bool rnd = sv == "randomized", exact = !rnd;
        if (rnd && std::min<int64_t>(k + (int64_t)over, std::min(n, p)) == std::min(n, p) && norm != "none") exact = true;
        for (int64_t i = 0; i < k; i++) {
            if (sg[i] < 0 || (i && sg[i] > sg[i - 1] * (1 + 8 * u))) { fail("pca:sigma-order", "%s: sigma[%lld] = %.9g", ds, (long long)i, sg[i]); return; }
            VCHECK(fabsl(V("variance")[i] - (ld_t)sg[i] * sg[i] / div) <= 16 * u * sg[i] * sg[i] / div + 1e-37L, "pca:variance", "%s: variance[%lld] = %.12g with sigma %.12g", ds, (long long)i, V("variance")[i], sg[i]);
            for (int64_t j = 0; j <= i; j++) {
                ld_t s = i == j ? -1 : 0;
                for (int64_t c = 0; c < p; c++) s += W(i, c) * W(j, c);
                if (fabsl(s) > C * u * 4) { fail("pca:components-not-orthonormal", "%s: components %lld and %lld: %.6Lg", ds, (long long)i, (long long)j, s); return; }
            }
        }
        std::vector<ld_t> ev;
        if (std::min(n, p) <= 34) {
            bool tall = n >= p; int64_t g = tall ? p : n;
            Q G(g, g);
            for (int64_t i = 0; i < g; i++) for (int64_t j = 0; j <= i; j++) { ld_t s = 0; if (tall) for (int64_t c = 0; c < n; c++) s += Z(c, i) * Z(c, j); else for (int64_t c = 0; c < p; c++) s += Z(i, c) * Z(j, c); G(i, j) = G(j, i) = s; }
            ev = eigenvalues(G); count("spectra");
        }
        for (int64_t i = 0; i < k; i++) {
            ld_t s2 = (ld_t)sg[i] * sg[i], q = 0;
            std::vector<ld_t> zv(n, 0), r(p, 0);
            for (int64_t a = 0; a < n; a++) { for (int64_t c = 0; c < p; c++) zv[a] += Z(a, c) * W(i, c); q += zv[a] * zv[a]; }
            if (ev.size()) {
                if (exact ? fabsl(s2 - ev[i]) > tol2 : s2 > ev[i] + 4 * tol2 + 1e-9L * ev[i]) { fail("pca:singular-value", "%s: sigma[%lld]^2 = %.12Lg, expected %.12Lg", ds, (long long)i, s2, ev[i]); return; }
                if (rnd && !exact && (iter >= 4 || iter == -1) && over >= 5 && norm != "none" && s2 < 0.3L * ev[i] - 4 * tol2) { fail("pca:randomized-far-off", "%s: sigma[%lld]^2 = %.9Lg, exact %.9Lg", ds, (long long)i, s2, ev[i]); return; }
            }
            if (exact) {
                if (fabsl(q - s2) > 2 * tol2) { fail("pca:component-variance", "%s: component %lld has |Zv|^2 = %.12Lg, sigma^2 = %.12Lg", ds, (long long)i, q, s2); return; }
                for (int64_t c = 0; c < p; c++) for (int64_t a = 0; a < n; a++) r[c] += Z(a, c) * zv[a];
                ld_t rr = 0; for (int64_t c = 0; c < p; c++) rr += (r[c] - s2 * W(i, c)) * (r[c] - s2 * W(i, c));
                if (sqrtl(rr) > 2 * tol2 + 2 * tol1 * sqrtl(zz)) { fail("pca:not-a-component", "%s: component %lld is no singular vector: residual %.6Lg", ds, (long long)i, sqrtl(rr)); return; }
            }
        }
        if (su) {
            Q U = mat(V("~u"), n, k, v.order), Sc = mat(V("~scores"), n, k, v.order);
            for (int64_t i = 0; i < k; i++) {
                for (int64_t j = 0; j <= i; j++) { ld_t s = i == j ? -1 : 0; for (int64_t a = 0; a < n; a++) s += U(a, i) * U(a, j); if (fabsl(s) > 4 * C * u) { fail("pca:u-not-orthonormal", "%s: columns %lld and %lld of U: %.6Lg", ds, (long long)i, (long long)j, s); return; } }
                ld_t mx = 0, mn = 0, rr = 0;
                for (int64_t a = 0; a < n; a++) {
                    mx = std::max(mx, U(a, i)); mn = std::max(mn, -U(a, i));
                    ld_t zv = 0; for (int64_t c = 0; c < p; c++) zv += Z(a, c) * W(i, c);
                    rr += (zv - U(a, i) * sg[i]) * (zv - U(a, i) * sg[i]);
                    ld_t ws = wh ? U(a, i) * sqrtl(div) : U(a, i) * sg[i];
                    if (fabsl(Sc(a, i) - ws) > 16 * u * fabsl(ws) + 1e-37L) { fail("pca:scores", "%s: score (%lld,%lld) = %.12Lg, U gives %.12Lg", ds, (long long)a, (long long)i, Sc(a, i), ws); return; }
                }
                if (mn > mx * (1 + 4 * u)) { fail("pca:sign", "%s: column %lld of U has its largest entry negative", ds, (long long)i); return; }
                if (exact && sqrtl(rr) > 4 * tol1) { fail("pca:u", "%s: U column %lld: |Zv - sigma u| = %.6Lg", ds, (long long)i, sqrtl(rr)); return; }
            }
            count("u-judged");
        }
        // transform
        Q XT = mat(V("~xt"), X.n, k, row_major), YI = mat(V("~yi"), Y.n, p, row_major);
        if (!wh || sg[k - 1] > 1e4L * tol1) {
            for (int64_t a = 0; a < X.n; a++) for (int64_t i = 0; i < k; i++) {
                ld_t s = 0, ab = 0, f = wh ? sqrtl(div) / sg[i] : 1;
                for (int64_t c = 0; c < p; c++) { ld_t w = W(i, c) / sd[c] * f; s += (X(a, c) - mu[c]) * w; ab += (fabsl(X(a, c)) + cm[c]) * fabsl(w); }
                ld_t amx = 0; if (cor) for (int64_t c = 0; c < p; c++) amx = std::max(amx, sqrtl(N2) / 1); // (standard deviations carry rounding)
                if (fabsl(XT(a, i) - s) > (16 + 2 * p + n) * u * ab * (cor ? 8 : 1) + (cor ? 64 * u * u * amx * ab : 0)) { fail("pca:transform", "%s: transform(%lld,%lld) = %.12Lg, expected %.12Lg", ds, (long long)a, (long long)i, XT(a, i), s); return; }
            }
            count("transforms");
        }
        for (int64_t a = 0; a < Y.n; a++) for (int64_t c = 0; c < p; c++) {
            ld_t s = 0, ab = 0;
            for (int64_t i = 0; i < k; i++) { ld_t w = W(i, c) * (wh ? sg[i] / sqrtl(div) : 1) * sd[c]; s += Y(a, i) * w; ab += fabsl(Y(a, i) * w); }
            s += mu[c]; ab += cm[c] * (n + 8) / 8;
            ld_t am = 0; if (cor) for (int64_t i = 0; i < n; i++) am = std::max(am, fabsl((ld_t)x(i, c)));
            if (fabsl(YI(a, c) - s) > (32 + 2 * k + 4 * sqrtl(n)) * u * (ab + (cor ? am * ab / sd[c] : 0)) + 1e-37L) { fail("pca:inverse-transform", "%s: inverse(%lld,%lld) = %.12Lg, expected %.12Lg", ds, (long long)a, (long long)c, YI(a, c), s); return; }
        }
        nontrivial(hstr(d.c_str()));
    }
};
std::unique_ptr<Pca> make_pca(Rng &r) {
    std::unique_ptr<Pca> s(new Pca);
    int64_t n = r.chance(0.85) ? r.in(1, 30) : r.in(30, 130), m = r.chance(0.85) ? r.in(1, 18) : r.in(18, 50);
    if (r.chance(0.04)) { n = r.in(501, 560); m = r.in(10, 30); }
    if (r.chance(0.1)) { n = r.in(60, 200); m = r.in(1, 6); }
    s->x = gen_data(r, n, m, -1, &s->dk);
    if (r.chance(0.08) && n > 1) { // all means exactly zero
        s->dk = "centred"; if (n % 2) for (int64_t j = 0; j < m; j++) s->x(n - 1, j) = 0;
        for (int64_t i = 0; i < n / 2; i++) for (int64_t j = 0; j < m; j++) { s->x(2 * i, j) = (double)r.in(-8, 8); s->x(2 * i + 1, j) = -s->x(2 * i, j); }
    }
    std::string dq;
    s->X = r.chance(0.4) ? s->x : gen_data(r, r.in(1, 9), m, -1, &dq);
    s->nc = r.chance(0.25) ? 0 : r.chance(0.1) ? (int)r.in(1, 60) : (int)r.in(1, std::min(n, m));
    s->method = r.pick({"covariance", "covariance", "correlation", "svd"});
    s->dof = r.pick({"unbiased", "unbiased", "biased"});
    s->solver = r.pick({"auto", "auto", "gesdd", "gesvd", "gesvdx", "syevd", "randomized"});
    if (s->solver == "gesvdx" && s->dk != "gauss" && s->dk != "unif") s->solver = "gesvd";
    s->su = r.chance(s->solver == "syevd" ? 0.06 : 0.5); s->wh = r.chance(0.35); s->late = r.chance(0.3);
    s->over = (int)r.pick({0, 1, 5, 10, 10, 30, 2147483647}); s->iter = (int)r.pick({-1, -1, 0, 1, 2, 4, 6}); s->norm = r.pick({"qr", "qr", "lu", "none"});
    s->seed = (int)r.in(0, 1000);
    if (s->norm == "none") s->iter = (int)r.in(0, 2);
    int64_t k = s->nk();
    s->Y = LM(r.in(1, 6), k);
    for (auto &t : s->Y.a) t = f32(r.norm() * 3);
    return s;
}
std::unique_ptr<Scenario> gen_pca(Rng &r) { return make_pca(r); }
RegScen rs_pca("pca", gen_pca);
FAMILY(pca, 3000, 30000) {
    auto s = make_pca(rng);
    Var v = random_var(rng);
    if (DBG) fprintf(stderr, "%llu %s | %s\n", (unsigned long long)S.idx, s->describe().c_str(), v.str().c_str());
    auto o = s->run(v);
    s->check(o, v);
    if (S.idx % 100 == 0) sample(s->describe());
}

// ---------------------------------------------------------------- kernel PCA
struct Kpca : Scenario {
    LM x, X, Y; std::string dk, kernel = "rbf", solver = "auto", norm = "qr"; int nc = 0, deg = 3, over = 10, iter = -1, seed = 0; double gamma = -1, coef0 = 1, alpha = 1; bool inv = false, rz = false, copy = true;
    std::string describe() const override { return fmt("kpca %lldx%lld data=%s %s gamma=%.9g coef0=%.9g deg=%d nc=%d %s inv=%d alpha=%.9g rz=%d copy=%d", (long long)x.n, (long long)x.m, dk.c_str(), kernel.c_str(), gamma, coef0, deg, nc, solver.c_str(), inv, alpha, rz, copy) + (solver != "syevd" ? fmt(" over=%d iter=%d %s seed=%d", over, iter, norm.c_str(), seed) : ""); }
    int64_t features() const override { return x.m; }
    double tol_layout() const override { return 0; }
    bool ties() const override { return true; }
    template <class T> Outcome run_t(const Var &v) const {
        Outcome o; set_threads(v.threads);
        auto bx = Buf<T>::input("A", x, v.order, v.pad);
        Handle h;
        if (o.add("init", DA(da_handle_init)(&h.h, da_handle_kernel_pca))) return o;
        hook<T>(h, "init");
        o.add("order", set_str(h, "storage order", v.order == row_major ? "row-major" : "column-major"));
        o.add("cd", set_str(h, "check data", v.check_data ? "yes" : "no"));
        if (o.add("o-nc", set_int(h, "n_components", nc))) return o;
        o.add("o-deg", set_int(h, "degree", deg));
        o.add("o-inv", set_str(h, "fit inverse transform", inv ? "yes" : "no")); o.add("o-rz", set_str(h, "remove zero eig", rz ? "yes" : "no"));
        o.add("o-copy", set_str(h, "copy data", copy ? "yes" : "no")); o.add("o-eig", set_str(h, "eigensolver", solver.c_str()));
        o.add("o-over", set_int(h, "n_oversamples", over)); o.add("o-iter", set_int(h, "power iterations", iter));
        o.add("o-norm", set_str(h, "power normalization", norm.c_str())); o.add("o-seed", set_int(h, "seed", seed));
        o.add("o-gamma", set_real<T>(h, "gamma", (T)gamma)); o.add("o-c0", set_real<T>(h, "coef0", (T)coef0)); o.add("o-alpha", set_real<T>(h, "alpha", (T)alpha));
        o.add("o-kernel", set_str(h, "kernel", kernel.c_str()));
        hook<T>(h, "opts");
        da_status s = DA(da_kernel_pca_set_data)(h, (da_int)x.n, (da_int)x.m, bx.data(), bx.ldi());
        if (s == da_status_incompatible_options && nc > x.n) s = da_status_success; // (a warning)
        if (o.add("data", s)) return o;
        hook<T>(h, "data");
        for (int r = 0; r <= v.refit; r++) { s = DA(da_kernel_pca_compute)(h); if (r == v.refit && o.add("compute", s)) { bx.verify(); return o; } }
        hook<T>(h, "trained"); hook<T>(h, "computed");
        bx.verify();
        auto real = [&](const char *n, da_result q) { auto r = get_real<T>(h, q, &o, n); o.real(std::string("~") + n, std::vector<double>(r.begin(), r.end())); };
        auto kc = get_int(h, da_kernel_pca_n_components, &o, "nc");
        o.disc("nc", std::vector<double>(kc.begin(), kc.end()));
        int64_t k = kc.empty() ? 0 : (int64_t)kc[0];
        real("gamma", da_kernel_pca_gamma); real("info", da_rinfo);
        if (k > 0) { real("values", da_kernel_pca_eigenvalues); real("vectors", da_kernel_pca_eigenvectors); real("scores", da_kernel_pca_scores); }
        if (inv) real("dual", da_kernel_pca_dual_coef);
        if (k > 0) {
            auto bq = Buf<T>::input("X", X, v.order, v.pad + 1);
            Buf<T> bt("XT", X.n, k, v.order, v.opad);
            if (!o.add("transform", DA(da_kernel_pca_transform)(h, (da_int)X.n, (da_int)X.m, bq.data(), bq.ldi(), bt.data(), bt.ldi()))) { bt.fully_written(); bt.verify(); auto d = bt.vecd(); o.real("~xt", std::vector<double>(d.begin(), d.end())); }
            bq.verify();
            if (inv && Y.m >= k) {
                LM y(Y.n, k); for (int64_t i = 0; i < Y.n; i++) for (int64_t j = 0; j < k; j++) y(i, j) = Y(i, j);
                auto by = Buf<T>::input("Y", y, v.order, v.pad);
                Buf<T> bi("YI", Y.n, x.m, v.order, v.opad);
                if (!o.add("inverse", DA(da_kernel_pca_inverse_transform)(h, (da_int)Y.n, (da_int)k, by.data(), by.ldi(), bi.data(), bi.ldi()))) { bi.fully_written(); bi.verify(); auto d = bi.vecd(); o.real("~yi", std::vector<double>(d.begin(), d.end())); }
                by.verify();
            }
        }
        hook<T>(h, "end");
        return o;
    }
    RUN_DISPATCH
    ld_t g(const Var &v) const { return gamma < 0 ? 1 / (ld_t)x.m : v.f32 ? (ld_t)(float)gamma : (ld_t)gamma; }
    template <class A, class B> ld_t kern(const A &a, const B &b, int64_t m, ld_t gm) const {
        ld_t dot = 0, d2 = 0;
        for (int64_t j = 0; j < m; j++) { ld_t p = a[j], q = b[j]; dot += p * q; d2 += (p - q) * (p - q); }
        if (kernel == "linear") return dot;
        if (kernel == "rbf") return expl(-gm * d2);
        if (kernel == "sigmoid") return tanhl(gm * dot + coef0);
        return powl(gm * dot + coef0, deg);
    }
    void check(const Outcome &o, const Var &v) const override {
        std::string d = describe() + " " + v.str(); const char *ds = d.c_str();
        bool pre = kernel == "precomputed";
        int64_t n = x.n, m = x.m;
        ld_t u = v.f32 ? 0x1p-23L : 0x1p-52L, gm = g(v);
        // kernel matrix of the training data; its rounding errors
        Q K(n, n); ld_t kmax = 0, amp = 1, nn = 0, dmax = 0;
        for (int64_t i = 0; i < n; i++) { ld_t q = 0; for (int64_t j = 0; j < m; j++) q += (ld_t)x(i, j) * x(i, j); nn = std::max(nn, q); }
        for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j <= i; j++) { K(i, j) = K(j, i) = pre ? (ld_t)x(i, j) : kern(&x.a[i * m], &x.a[j * m], m, gm); kmax = std::max(kmax, fabsl(K(i, j))); }
        auto kerr = [&](ld_t nx) { // error of one kernel value between vectors of squared norms up to nx
            if (pre) return (ld_t)0;
            ld_t e = (m + 16) * 8 * u;
            if (kernel == "linear") return e * nx;
            if (kernel == "rbf") return e * (1 + fabsl(gm) * 4 * nx);
            if (kernel == "sigmoid") return e * (1 + fabsl(gm) * nx + fabsl((ld_t)coef0));
            ld_t b = fabsl(gm) * nx + fabsl((ld_t)coef0);
            return e * deg * powl(b, deg) + e * powl(b, deg);
        };
        (void)amp; (void)dmax;
        ld_t ke = kerr(nn) + 8 * (n + 8) * u * kmax; // per entry after centering
        std::vector<ld_t> rm(n, 0); ld_t gmn = 0;
        for (int64_t i = 0; i < n; i++) { for (int64_t j = 0; j < n; j++) rm[i] += K(i, j); rm[i] /= n; gmn += rm[i]; }
        gmn /= n;
        Q Kc(n, n); ld_t fro = 0;
        for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < n; j++) { Kc(i, j) = K(i, j) - rm[i] - rm[j] + gmn; fro += Kc(i, j) * Kc(i, j); }
        fro = sqrtl(fro);
        ld_t tol = 4 * n * ke + (30 + 8 * n) * u * fro;
        if (!std::isfinite((double)fro) || fro > 1e30L) { count("overflow"); return; }
        auto ev = eigenvalues(Kc);
        bool numdiff_ok = tol - ev.back() > (v.f32 ? 5e-4L : 1e-6L) * fabsl(ev[0]) && tol - ev.back() > (v.f32 ? 1e-7L : 1e-11L);
        for (auto &s : o.st) if (s.second) {
            if (s.first == "compute" && solver == "randomized" && nc == 0) { count("randomized-all"); VCHECK(s.second == da_status_invalid_input, "kpca:status", "%s: compute gave %s", ds, stname(s.second)); return; }
            if (s.first == "compute" && inv && pre) { count("incompatible"); VCHECK(s.second == da_status_invalid_input, "kpca:status", "%s: compute gave %s", ds, stname(s.second)); return; }
            if (s.first == "compute" && s.second == da_status_numerical_difficulties && numdiff_ok) { count("indefinite"); return; }
            if (s.first == "compute" && s.second == da_status_numerical_difficulties && inv && kernel != "rbf" && (kernel == "sigmoid" || alpha < 1e3L * tol || (kernel == "poly" && alpha < 1e3L * n * u * powl(fabsl(gm) * (fabsl(ev[0]) + tol) + fabsl(coef0), deg)))) { count("ridge-indefinite"); return; }
            if (s.first == "compute" && inv && (nc == 0 || rz) && ev[0] <= 100 * tol) { count("no-components"); return; }
            fail("kpca:status", "%s: %s gave %s", ds, s.first.c_str(), stname(s.second)); return;
        }
        if (inv && pre) { fail("kpca:incompatible-accepted", "%s", ds); return; }
        int64_t k = (int64_t)o.get("nc")->v[0];
        auto V = [&](const char *nm) -> const std::vector<double> & { return o.get(nm)->v; };
        int64_t want = std::min<int64_t>(nc, n);
        count("kernel-" + kernel); count("solver-" + solver);
        VCHECK(k >= 0 && (nc == 0 || k <= want) && (nc == 0 || rz || k == want), "kpca:n-components", "%s: %lld components", ds, (long long)k);
        if (pre || gamma >= 0) VCHECK(pre || V("~gamma")[0] == (v.f32 ? (double)(float)gamma : gamma), "kpca:gamma", "%s: gamma %.12g", ds, V("~gamma")[0]);
        else VCHECK(fabsl(V("~gamma")[0] - gm) <= 2 * u * gm, "kpca:gamma", "%s: gamma %.12g", ds, V("~gamma")[0]);
        VCHECK(V("~info") == (std::vector<double>{(double)n, (double)m}), "kpca:info", "%s: information array", ds);
        if (k <= 0) { if (ev[0] > 100 * tol) fail("kpca:n-components", "%s: no components, leading eigenvalue %.9Lg", ds, ev[0]); return; }
        auto size = [&](const char *nm, int64_t w) { if ((int64_t)V(nm).size() != w) { fail("kpca:size", "%s: %s has %zu elements, expected %lld", ds, nm, V(nm).size(), (long long)w); return false; } for (double z : V(nm)) if (!std::isfinite(z)) { fail("kpca:not-finite", "%s: %s", ds, nm); return false; } return true; };
        if (!size("~values", k) || !size("~vectors", n * k) || !size("~scores", n * k)) return;
        auto &lam = V("~values");
        Q E = mat(V("~vectors"), n, k, v.order), Sc = mat(V("~scores"), n, k, v.order);
        bool rnd = solver == "randomized" || solver == "auto"; // (auto: may be randomized)
        int64_t q0 = nc == 0 ? n : want;
        bool exact = !rnd || (q0 + (int64_t)over >= n && norm != "none") || (solver == "auto" && n < 10);
        ld_t zero = 0.01L * (v.f32 ? 2e-7L : 1e-12L) * ev[0]; // eigenvalues that may be taken for zero lie below 100 times this
        if ((nc == 0 || rz) && exact) { // components kept: the nonzero ones
            for (int64_t i = 0; i < (nc == 0 ? n : want); i++) {
                if (i < k && ev[i] < -tol - zero) { fail("kpca:zero-kept", "%s: component %lld kept, eigenvalue %.9Lg", ds, (long long)i, ev[i]); return; }
                if (i >= k && ev[i] > 4 * tol + 1e4L * zero) { fail("kpca:component-dropped", "%s: %lld components, eigenvalue %lld is %.9Lg", ds, (long long)k, (long long)i, ev[i]); return; }
            }
            for (int64_t i = 0; i < k; i++) VCHECK(lam[i] > 0, "kpca:zero-kept", "%s: eigenvalue %lld kept is %.9g", ds, (long long)i, lam[i]);
        }
        for (int64_t i = 0; i < k; i++) {
            if (lam[i] < 0 || (i && lam[i] > lam[i - 1] * (1 + 8 * u))) { fail("kpca:order", "%s: eigenvalue %lld = %.9g", ds, (long long)i, lam[i]); return; }
            ld_t w = std::max<ld_t>(ev[i], 0);
            if (exact ? fabsl(lam[i] - w) > 2 * tol + 1e4L * zero : lam[i] > w + 4 * tol + 1e-6L * fabsl(w) + fabsl(std::min<ld_t>(ev.back(), 0))) { fail("kpca:eigenvalue", "%s: eigenvalue %lld = %.12g, expected %.12Lg", ds, (long long)i, lam[i], w); return; }
            for (int64_t j = 0; j <= i; j++) { ld_t s = i == j ? -1 : 0; for (int64_t a = 0; a < n; a++) s += E(a, i) * E(a, j); if (fabsl(s) > (60 + 8 * n) * u * 4) { fail("kpca:not-orthonormal", "%s: eigenvectors %lld and %lld: %.6Lg", ds, (long long)i, (long long)j, s); return; } }
            ld_t rr = 0;
            for (int64_t a = 0; a < n; a++) {
                ld_t s = 0; for (int64_t b = 0; b < n; b++) s += Kc(a, b) * E(b, i);
                rr += (s - lam[i] * E(a, i)) * (s - lam[i] * E(a, i));
                ld_t ws = E(a, i) * sqrtl(lam[i]);
                if (fabsl(Sc(a, i) - ws) > 16 * u * fabsl(ws) + 1e-37L) { fail("kpca:scores", "%s: score (%lld,%lld) = %.12Lg, eigenvectors give %.12Lg", ds, (long long)a, (long long)i, Sc(a, i), ws); return; }
            }
            if (exact && sqrtl(rr) > 4 * tol + 1e4L * zero + (lam[i] == 0 ? fabsl(ev[i]) : 0) + (ev.back() < 0 ? 2 * fabsl(ev.back()) * (lam[i] == 0) : 0)) { fail("kpca:not-an-eigenvector", "%s: component %lld: residual %.6Lg (eigenvalue %.6g)", ds, (long long)i, sqrtl(rr), lam[i]); return; }
        }
        // projection of new points
        Q XT = mat(V("~xt"), X.n, k, row_major);
        if (XT.n) {
            ld_t nx = nn; for (int64_t i = 0; i < X.n; i++) { ld_t q = 0; for (int64_t j = 0; j < X.m; j++) q += (ld_t)X(i, j) * X(i, j); nx = std::max(nx, q); }
            for (int64_t a = 0; a < X.n; a++) {
                std::vector<ld_t> kx(n); ld_t mean = 0, km = kmax;
                for (int64_t b = 0; b < n; b++) { kx[b] = pre ? (ld_t)X(a, b) : kern(&X.a[a * m], &x.a[b * m], m, gm); mean += kx[b]; km = std::max(km, fabsl(kx[b])); }
                mean /= n;
                if (!std::isfinite((double)km) || km > 1e30L) continue;
                ld_t te = kerr(nx) + 8 * (n + 8) * u * km;
                for (int64_t i = 0; i < k; i++) {
                    if (lam[i] <= 1e6L * tol && !(lam[i] == 0)) continue;
                    ld_t s = 0, es = 0;
                    if (lam[i] > 0) for (int64_t b = 0; b < n; b++) { s += (kx[b] - mean - rm[b] + gmn) * E(b, i) / sqrtl(lam[i]); es += fabsl(E(b, i)) / sqrtl(lam[i]); }
                    if (fabsl(XT(a, i) - s) > es * te * 4 + 64 * u * fabsl(s) + (s == 0 ? 1e-30L : 0)) { fail("kpca:transform", "%s: transform(%lld,%lld) = %.12Lg, expected %.12Lg", ds, (long long)a, (long long)i, XT(a, i), s); return; }
                }
            }
            count("transforms");
        }
        if (inv) {
            { ld_t nz = 0; for (int64_t i = 0; i < n; i++) { ld_t q = 0; for (int64_t j = 0; j < k; j++) q += (ld_t)Sc(i, j) * Sc(i, j); nz = std::max(nz, q); }
              if (kernel == "poly" && powl(fabsl(gm) * nz + fabsl(coef0), deg) > (v.f32 ? 1e30L : 1e250L)) { count("overflow"); return; } }
            if (!size("~dual", n * m)) return;
            Q D = mat(V("~dual"), n, m, v.order);
            // (K(Z,Z) + alpha I) dual = X
            std::vector<std::vector<ld_t>> Z(n, std::vector<ld_t>(k)); ld_t nz = 0;
            for (int64_t i = 0; i < n; i++) { ld_t q = 0; for (int64_t j = 0; j < k; j++) { Z[i][j] = Sc(i, j); q += Z[i][j] * Z[i][j]; } nz = std::max(nz, q); }
            Q KZ(n, n); ld_t kzm = 0;
            for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j <= i; j++) { KZ(i, j) = KZ(j, i) = kern(Z[i], Z[j], k, gm); kzm = std::max(kzm, fabsl(KZ(i, j))); }
            ld_t kz = kerr(nz) * (k + 16) / (m + 16) + 8 * (n + 8) * u * (kzm + alpha);
            if (std::isfinite((double)kzm) && kzm < 1e15L) for (int64_t c = 0; c < m; c++) {
                ld_t dm = 0; for (int64_t i = 0; i < n; i++) dm += fabsl(D(i, c));
                for (int64_t i = 0; i < n; i++) {
                    ld_t s = (v.f32 ? (ld_t)(float)alpha : (ld_t)alpha) * D(i, c); for (int64_t j = 0; j < n; j++) s += KZ(i, j) * D(j, c);
                    if (fabsl(s - x(i, c)) > 8 * kz * dm + 16 * n * u * kzm * dm + 64 * u * fabsl(x(i, c))) { fail("kpca:dual", "%s: ridge equations, row %lld feature %lld: %.9Lg against %.9g", ds, (long long)i, (long long)c, s, x(i, c)); return; }
                }
            }
            if (o.get("~yi")) {
                Q YI = mat(V("~yi"), Y.n, m, row_major);
                for (int64_t a = 0; a < Y.n; a++) {
                    std::vector<ld_t> y(k), kv(n); ld_t q = 0, km = 0; for (int64_t j = 0; j < k; j++) { y[j] = Y(a, j); q += y[j] * y[j]; }
                    for (int64_t b = 0; b < n; b++) { kv[b] = kern(y, Z[b], k, gm); km = std::max(km, fabsl(kv[b])); }
                    if (!(km < 1e25L)) continue;
                    ld_t ye = kerr(std::max(q, nz)) * (k + 16) / (m + 16);
                    for (int64_t c = 0; c < m; c++) {
                        ld_t s = 0, ab = 0; for (int64_t b = 0; b < n; b++) { s += kv[b] * D(b, c); ab += fabsl(D(b, c)); }
                        if (fabsl(YI(a, c) - s) > ab * (4 * ye + 8 * (n + 8) * u * km) + 1e-30L) { fail("kpca:inverse-transform", "%s: inverse(%lld,%lld) = %.12Lg, expected %.12Lg", ds, (long long)a, (long long)c, YI(a, c), s); return; }
                    }
                }
                count("inverses");
            }
        }
        nontrivial(hstr(d.c_str()));
    }
};
std::unique_ptr<Kpca> make_kpca(Rng &r) {
    std::unique_ptr<Kpca> s(new Kpca);
    int64_t n = r.chance(0.8) ? r.in(1, 16) : r.in(16, 34), m = r.in(1, 9);
    s->kernel = r.pick({"linear", "poly", "rbf", "rbf", "sigmoid", "precomputed"});
    s->x = gen_data(r, n, m, -1, &s->dk);
    std::string dq; s->X = r.chance(0.4) ? s->x : gen_data(r, r.in(1, 7), m, -1, &dq);
    if (s->kernel == "precomputed") { // a Gram matrix
        LM y = s->x; s->x = LM(n, n);
        for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j <= i; j++) { double t = 0; for (int64_t c = 0; c < m; c++) t += y(i, c) * y(j, c); s->x(i, j) = s->x(j, i) = f32(t + (i == j) * 0.01); }
        LM z = s->X; s->X = LM(z.n, n);
        for (int64_t i = 0; i < z.n; i++) for (int64_t j = 0; j < n; j++) { double t = 0; for (int64_t c = 0; c < m; c++) t += z(i, c) * y(j, c); s->X(i, j) = f32(t); }
    }
    s->nc = r.chance(0.35) ? 0 : r.chance(0.1) ? (int)r.in(1, 60) : (int)r.in(1, n);
    s->deg = (int)r.in(1, 4); s->gamma = r.chance(0.3) ? -1 : r.chance(0.1) ? 0 : f32(std::exp(r.uni(-4, 0.5))); s->coef0 = r.chance(0.3) ? 1 : f32(r.uni(0, 2));
    s->alpha = f32(std::exp(r.uni(-3, 2))); s->inv = r.chance(s->kernel == "precomputed" ? 0.06 : 0.45); s->rz = r.chance(0.3); s->copy = r.chance(0.6);
    s->solver = r.pick({"auto", "syevd", "syevd", "randomized"});
    s->over = (int)r.pick({0, 5, 10, 10, 30, 2147483647}); s->iter = (int)r.pick({-1, -1, 0, 2, 4}); s->norm = r.pick({"qr", "qr", "lu", "none"}); s->seed = (int)r.in(0, 1000);
    if (s->norm == "none") s->iter = 0;
    s->Y = LM(r.in(1, 5), n);
    for (auto &t : s->Y.a) t = f32(r.norm());
    return s;
}
std::unique_ptr<Scenario> gen_kpca(Rng &r) { return make_kpca(r); }
RegScen rs_kpca("kpca", gen_kpca);
FAMILY(kpca, 3000, 30000) {
    auto s = make_kpca(rng);
    Var v = random_var(rng);
    if (DBG) fprintf(stderr, "%llu %s | %s\n", (unsigned long long)S.idx, s->describe().c_str(), v.str().c_str());
    auto o = s->run(v);
    s->check(o, v);
    if (S.idx % 100 == 0) sample(s->describe());
}
} // namespace
