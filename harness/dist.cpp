// C21 pairwise distances, C22 kernel functions
#include "vt.hpp"
using namespace vt;
typedef long double ld_t;
namespace {
DAF(da_pairwise_distances) DAF(da_rbf_kernel) DAF(da_linear_kernel) DAF(da_polynomial_kernel) DAF(da_sigmoid_kernel)

const da_metric METS[] = {da_euclidean, da_sqeuclidean, da_minkowski, da_manhattan, da_cosine, da_euclidean_gemm, da_sqeuclidean_gemm, da_inner_product};
const char *metn(int m) {
    switch (m) {
    case da_euclidean: return "euclidean"; case da_sqeuclidean: return "sqeuclidean"; case da_minkowski: return "minkowski";
    case da_manhattan: return "manhattan"; case da_cosine: return "cosine"; case da_euclidean_gemm: return "euclidean_gemm";
    case da_sqeuclidean_gemm: return "sqeuclidean_gemm"; default: return "inner_product";
    }
}
void pick_dims(Rng &r, int64_t &m, int64_t &n, int64_t &k) {
    m = r.size(1, 40); n = r.size(1, 40); k = r.size(1, 20);
    double u = r.uni();
    if (u < 0.1) m = r.size(200, 560);
    else if (u < 0.2) n = r.size(200, 560);
    else if (u < 0.22) { n = r.in(1000, 1100); m = r.size(1, 30); }
    else if (u < 0.35) k = r.size(20, 300);
    else if (u < 0.37) { k = r.in(500, 1100); }
    if (m * n * k > 400000 && k > 8) k = r.in(1, 8);
}
// which entries to compare: all when affordable, otherwise edges and a random sample
std::vector<std::pair<int64_t, int64_t>> entries(int64_t m, int64_t n, int64_t k, uint64_t seed) {
    std::vector<std::pair<int64_t, int64_t>> e;
    if (m * n * k <= 60000) { for (int64_t i = 0; i < m; i++) for (int64_t j = 0; j < n; j++) e.push_back({i, j}); return e; }
    Rng r(seed);
    int64_t c = std::max<int64_t>(60000 / k, 60);
    for (int64_t q = 0; q < c; q++) {
        int64_t i = r.below(m), j = r.below(n);
        if (r.chance(0.2)) i = m - 1 - r.below(std::min<int64_t>(m, 16));
        if (r.chance(0.2)) j = n - 1 - r.below(std::min<int64_t>(n, 16));
        e.push_back({i, j});
    }
    return e;
}
struct PairS : Scenario {
    LM X, Y; bool self; da_metric met; double p = 2; std::string dk;
    std::string describe() const override { return fmt("pairwise %s m=%lld n=%lld k=%lld self=%d p=%g data=%s", metn(met), (long long)X.n, (long long)Y.n, (long long)X.m, self, p, dk.c_str()); }
    double tol_f32() const override { return dk == "tiny" ? 0 : met == da_euclidean_gemm || met == da_sqeuclidean_gemm ? 0.05 : 1e-3; }
    double tol_layout() const override { return met == da_euclidean_gemm ? 1e-5 : met == da_sqeuclidean_gemm ? 1e-8 : 1e-10; }
    template <class T> Outcome run_t(const Var &v) const {
        Outcome o;
        auto bx = Buf<T>::input("X", X, v.order, v.pad);
        Buf<T> by; if (!self) by = Buf<T>::input("Y", Y, v.order, v.pad);
        int64_t n = self ? X.n : Y.n;
        Buf<T> D("D", X.n, n, v.order, v.opad);
        da_status s = o.add("pairwise", DA(da_pairwise_distances)(v.order, X.n, self ? 0 : Y.n, X.m, bx.data(), bx.ldi(), self ? nullptr : by.data(), self ? 0 : by.ldi(), D.data(), D.ldi(), (T)p, met));
        bx.verify(); if (!self) by.verify();
        D.verify();
        if (s) { VCHECK(D.untouched(), "pairwise:output-on-error", "%s: output written on error %d", describe().c_str(), s); return o; }
        o.real("D", D.vecd(), met == da_cosine ? 1 : 0);
        if (met == da_euclidean_gemm || met == da_sqeuclidean_gemm) { // scale of the cancellation
            double sc = 0;
            for (int64_t i = 0; i < X.n; i++) { double q = 0; for (int64_t j = 0; j < X.m; j++) q += X(i, j) * X(i, j); sc = std::max(sc, q); }
            for (int64_t i = 0; i < Y.n; i++) { double q = 0; for (int64_t j = 0; j < Y.m; j++) q += Y(i, j) * Y(i, j); sc = std::max(sc, q); }
            o.items[0].scale = met == da_euclidean_gemm ? std::sqrt(sc) : sc;
        }
        return o;
    }
    RUN_DISPATCH
    void check(const Outcome &o, const Var &v) const override {
        int st = o.st[0].second;
        VCHECK(st == 0, "pairwise:status", "%s %s: status %d", describe().c_str(), v.str().c_str(), st);
        if (st) return;
        const LM &B = self ? X : Y;
        int64_t m = X.n, n = B.n, k = X.m;
        ld_t eps = v.f32 ? 0x1p-23L : 0x1p-52L, tiny = v.f32 ? 1e-37L : 1e-300L;
        const auto &D = o.items[0].v;
        ld_t pp = v.f32 ? (ld_t)(float)p : (ld_t)p;
        for (auto &e : entries(m, n, k, X.n * 131 + n * 17 + k)) {
            int64_t i = e.first, j = e.second;
            ld_t s1 = 0, s2 = 0, sp = 0, dot = 0, nx = 0, ny = 0, ad = 0;
            bool same = true;
            for (int64_t c = 0; c < k; c++) {
                ld_t a = X(i, c), b = B(j, c), d = fabsl(a - b);
                if (a != b) same = false;
                s1 += d; s2 += d * d; dot += a * b; ad += fabsl(a * b); nx += a * a; ny += b * b;
                if (met == da_minkowski && d > 0) sp += powl(d, pp);
            }
            ld_t ref = 0, tol = 0; bool direct = true;
            switch (met) {
            case da_euclidean: ref = sqrtl(s2); tol = (k + 8) * eps * ref; break;
            case da_sqeuclidean: ref = s2; tol = (k + 8) * eps * ref; break;
            case da_manhattan: ref = s1; tol = (k + 8) * eps * ref; break;
            case da_minkowski: ref = sp > 0 ? powl(sp, 1 / pp) : 0; tol = ((k + 16) / std::min<ld_t>(pp, 1) + 8 * pp + 16 + fabsl(logl(std::max(sp, (ld_t)1e-4000L))) * (1 / pp + 1)) * eps * ref; break;
            case da_cosine: {
                ld_t a = sqrtl(nx), b = sqrtl(ny);
                if (fabsl(a - eps) <= 1e-3L * eps || fabsl(b - eps) <= 1e-3L * eps) continue;
                if (a <= eps) a = 1;
                if (b <= eps) b = 1;
                ref = self && i == j ? 0 : 1 - dot / (a * b);
                tol = (k + 16) * eps * (1 + ad / (a * b)); direct = false;
                break;
            }
            case da_inner_product: ref = dot; tol = (k + 8) * eps * ad; direct = false; break;
            default: {
                ld_t err = 2 * (k + 8) * eps * (nx + ny);
                direct = false;
                if (met == da_sqeuclidean_gemm) { ref = s2; tol = err; }
                else { ref = sqrtl(s2); tol = sqrtl(s2 + err) - sqrtl(std::max<ld_t>(s2 - err, 0)) + 4 * eps * ref; }
            }
            }
            tol += tiny * k;
            double g = D[(size_t)(i * n + j)];
            count("entries");
            if (!(fabsl((ld_t)g - ref) <= tol)) { fail(std::string("pairwise:") + metn(met), "%s %s: D(%lld,%lld) = %.17g expected %.17Lg tol %Lg", describe().c_str(), v.str().c_str(), (long long)i, (long long)j, g, ref, tol); return; }
            if (met != da_inner_product && met != da_cosine && g < 0) { fail("pairwise:negative", "%s %s: D(%lld,%lld) = %g negative", describe().c_str(), v.str().c_str(), (long long)i, (long long)j, g); return; }
            if (direct && same && g != 0) { fail("pairwise:identical-nonzero", "%s %s: D(%lld,%lld) = %g for identical points", describe().c_str(), v.str().c_str(), (long long)i, (long long)j, g); return; }
            if (self && (met == da_euclidean_gemm || met == da_sqeuclidean_gemm) && i == j && g != 0) { fail("pairwise:diag", "%s %s: D(%lld,%lld) = %g on the diagonal", describe().c_str(), v.str().c_str(), (long long)i, (long long)j, g); return; }
        }
        if (self) for (int64_t i = 0; i < m; i++) for (int64_t j = 0; j < i; j++) {
            double a = D[(size_t)(i * n + j)], b = D[(size_t)(j * n + i)];
            double sc = o.items[0].scale;
            if (!(std::fabs(a - b) <= 16 * (double)eps * std::max(std::fabs(a), std::fabs(b)) * (k + 4) + (met == da_cosine || met >= da_euclidean_gemm ? 64 * (k + 4) * (double)eps * sc * (met == da_euclidean_gemm ? 1e9 : 1) : 0))) {
                fail("pairwise:asymmetric", "%s %s: D(%lld,%lld) = %.17g, transposed %.17g", describe().c_str(), v.str().c_str(), (long long)i, (long long)j, a, b); return;
            }
        }
    }
};
std::unique_ptr<Scenario> gen_pair(Rng &r) {
    auto s = std::make_unique<PairS>();
    int64_t m, n, k; pick_dims(r, m, n, k);
    s->met = METS[r.below(8)];
    if (s->met == da_minkowski) s->p = r.chance(0.3) ? r.pick({1.0, 2.0, 0.5, 3.0, 4.0}) : f32(r.uni(0.3, 6));
    s->self = r.chance(0.35);
    int kind = r.below(D_NKINDS);
    s->X = gen_data(r, m, k, kind, &s->dk);
    s->Y = gen_data(r, n, k, kind);
    // rows of Y equal to rows of X
    for (int64_t j = 0; j < n; j++) if (r.chance(0.2)) { int64_t i = r.below(m); for (int64_t c = 0; c < k; c++) s->Y(j, c) = s->X(i, c); }
    if (r.chance(0.2)) { int64_t i = r.below(m); for (int64_t c = 0; c < k; c++) s->X(i, c) = 0; }
    if (s->self) s->Y = LM(0, k);
    return s;
}
RegScen rs1("pairwise", gen_pair);

struct KernS : Scenario {
    LM X, Y; bool self; int fn; double gamma = 1, coef0 = 0; int deg = 3; std::string dk;
    std::string describe() const override { static const char *n[] = {"rbf", "linear", "poly", "sigmoid"}; return fmt("kernel %s m=%lld n=%lld k=%lld self=%d gamma=%g coef0=%g degree=%d data=%s", n[fn], (long long)X.n, (long long)Y.n, (long long)X.m, self, gamma, coef0, deg, dk.c_str()); }
    double tol_f32() const override { return dk == "big" || ((fn == 1 || fn == 2) && dk != "gauss" && dk != "unif") ? 0 : fn == 1 ? 1e-4 : fn == 2 ? 1e-3 : 0; }
    double tol_layout() const override { return 1e-8; }
    template <class T> Outcome run_t(const Var &v) const {
        Outcome o;
        auto bx = Buf<T>::input("X", X, v.order, v.pad);
        Buf<T> by; if (!self) by = Buf<T>::input("Y", Y, v.order, v.pad);
        int64_t n = self ? X.n : Y.n;
        Buf<T> D("D", X.n, n, v.order, v.opad);
        da_int M = X.n, N = self ? 0 : Y.n, K = X.m, ldx = bx.ldi(), ldy = self ? 0 : by.ldi(), ldd = D.ldi();
        const T *x = bx.data(), *y = self ? nullptr : by.data();
        da_status s;
        switch (fn) {
        case 0: s = DA(da_rbf_kernel)(v.order, M, N, K, x, ldx, y, ldy, D.data(), ldd, (T)gamma); break;
        case 1: s = DA(da_linear_kernel)(v.order, M, N, K, x, ldx, y, ldy, D.data(), ldd); break;
        case 2: s = DA(da_polynomial_kernel)(v.order, M, N, K, x, ldx, y, ldy, D.data(), ldd, (T)gamma, deg, (T)coef0); break;
        default: s = DA(da_sigmoid_kernel)(v.order, M, N, K, x, ldx, y, ldy, D.data(), ldd, (T)gamma, (T)coef0);
        }
        o.add("kernel", s);
        bx.verify(); if (!self) by.verify();
        D.verify();
        if (s) { VCHECK(D.untouched(), "kernel:output-on-error", "%s: output written on error %d", describe().c_str(), s); return o; }
        o.real("D", D.vecd(), fn == 0 || fn == 3 ? 1 : 0);
        if (fn == 2 || fn == 1) { // scale of the cancellation
            double sc = 0, nn = 0;
            for (auto *A : {&X, &Y}) for (int64_t i = 0; i < A->n; i++) { double q = 0; for (int64_t j = 0; j < A->m; j++) q += (*A)(i, j) * (*A)(i, j); nn = std::max(nn, q); }
            sc = fn == 1 ? nn : std::pow(gamma * nn + std::fabs(coef0), deg) * std::max(deg, 1);
            o.items[0].scale = std::max(sc, 1e-300);
        }
        if (fn == 0 || fn == 3) { double nn = 0; for (auto *A : {&X, &Y}) for (int64_t i = 0; i < A->n; i++) { double q = 0; for (int64_t j = 0; j < A->m; j++) q += (*A)(i, j) * (*A)(i, j); nn = std::max(nn, q); } o.items[0].scale = 1 + gamma * nn; }
        return o;
    }
    RUN_DISPATCH
    void check(const Outcome &o, const Var &v) const override {
        int st = o.st[0].second;
        VCHECK(st == 0, "kernel:status", "%s %s: status %d", describe().c_str(), v.str().c_str(), st);
        if (st) return;
        const LM &B = self ? X : Y;
        int64_t m = X.n, n = B.n, k = X.m;
        ld_t eps = v.f32 ? 0x1p-23L : 0x1p-52L, tiny = v.f32 ? 2e-38L : 1e-300L;
        const auto &D = o.items[0].v;
        ld_t ga = v.f32 ? (ld_t)(float)gamma : (ld_t)gamma, c0 = v.f32 ? (ld_t)(float)coef0 : (ld_t)coef0;
        for (auto &e : entries(m, n, k, X.n * 131 + n * 17 + k)) {
            int64_t i = e.first, j = e.second;
            ld_t s2 = 0, dot = 0, nx = 0, ny = 0, ad = 0;
            for (int64_t c = 0; c < k; c++) { ld_t a = X(i, c), b = B(j, c); s2 += (a - b) * (a - b); dot += a * b; ad += fabsl(a * b); nx += a * a; ny += b * b; }
            ld_t ref, tol;
            ld_t de = (k + 8) * eps * ad, a = ga * dot + c0, aerr = ga * de + 4 * eps * (ga * fabsl(dot) + fabsl(c0));
            switch (fn) {
            case 0: {
                ld_t er = 2 * (k + 8) * eps * (nx + ny);
                ref = expl(-ga * s2);
                ld_t lo = expl(-ga * (s2 + er)), hi = std::min<ld_t>(1, expl(-ga * std::max<ld_t>(s2 - er, 0)));
                tol = std::max(ref - lo, hi - ref) + (16 + 4 * ga * s2) * eps * hi;
                break;
            }
            case 1: ref = dot; tol = de; break;
            case 2: {
                ref = deg == 0 ? 1 : powl(fabsl(a), deg) * (a < 0 && deg % 2 ? -1 : 1);
                tol = deg == 0 ? 4 * eps : deg * powl(fabsl(a) + aerr, deg - 1) * aerr + 8 * (deg + 4) * eps * fabsl(ref);
                if (v.f32 && powl(fabsl(a) + 1, deg) > 1e37L) continue;
                break;
            }
            default: ref = tanhl(a); tol = aerr + 16 * eps;
            }
            tol += tiny * (k + 4);
            double g = D[(size_t)(i * n + j)];
            count("entries");
            if (!(fabsl((ld_t)g - ref) <= tol)) { fail(fn == 0 ? "kernel:rbf" : fn == 1 ? "kernel:linear" : fn == 2 ? "kernel:poly" : "kernel:sigmoid", "%s %s: D(%lld,%lld) = %.17g expected %.17Lg tol %Lg", describe().c_str(), v.str().c_str(), (long long)i, (long long)j, g, ref, tol); return; }
            if (fn == 0 && !(g >= 0 && g <= 1 + 8 * (double)eps)) { fail("kernel:rbf-range", "%s %s: D(%lld,%lld) = %.17g", describe().c_str(), v.str().c_str(), (long long)i, (long long)j, g); return; }
        }
        if (self) for (int64_t i = 0; i < m; i++) for (int64_t j = 0; j < i; j++)
            if (D[(size_t)(i * n + j)] != D[(size_t)(j * n + i)] && !(std::fabs(D[(size_t)(i * n + j)] - D[(size_t)(j * n + i)]) <= 64 * (k + 4) * (double)eps * o.items[0].scale)) { fail("kernel:asymmetric", "%s %s: D(%lld,%lld) = %.17g against %.17g", describe().c_str(), v.str().c_str(), (long long)i, (long long)j, D[(size_t)(i * n + j)], D[(size_t)(j * n + i)]); return; }
    }
};
std::unique_ptr<Scenario> gen_kern(Rng &r) {
    auto s = std::make_unique<KernS>();
    int64_t m, n, k; pick_dims(r, m, n, k);
    s->fn = r.below(4);
    s->self = r.chance(0.35);
    int kind = r.below(D_NKINDS);
    s->X = gen_data(r, m, k, kind, &s->dk);
    s->Y = gen_data(r, n, k, kind);
    for (int64_t j = 0; j < n; j++) if (r.chance(0.2)) { int64_t i = r.below(m); for (int64_t c = 0; c < k; c++) s->Y(j, c) = s->X(i, c); }
    if (s->self) s->Y = LM(0, k);
    s->gamma = r.chance(0.1) ? 0 : f32(std::pow(10.0, r.uni(-3, 0.5)) / (r.chance(0.5) ? k : 1));
    s->coef0 = r.chance(0.3) ? 0 : f32(r.uni(-1.5, 1.5));
    s->deg = r.chance(0.6) ? r.in(1, 4) : r.in(1, 7);
    return s;
}
RegScen rs2("kernel", gen_kern);
} // namespace
static void one(Rng &rng, ScenGen g) {
    auto s = g(rng);
    Var v = random_var(rng);
    Outcome o = s->run(v);
    s->check(o, v);
    nontrivial(hmix(hstr(s->describe().c_str()), hstr(v.str().c_str())));
    sample(s->describe() + " " + v.str());
}
FAMILY(pairwise, 12000, 250000) { one(rng, gen_pair); }
FAMILY(kernels, 12000, 250000) { one(rng, gen_kern); }
