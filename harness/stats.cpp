// C18 moments, C19 quantiles, C20 covariance/correlation/standardise
#include "vt.hpp"
using namespace vt;
typedef long double ld_t;
namespace {
DAF(da_mean) DAF(da_geometric_mean) DAF(da_harmonic_mean) DAF(da_variance) DAF(da_skewness) DAF(da_kurtosis) DAF(da_moment)
DAF(da_quantile) DAF(da_five_point_summary) DAF(da_standardize) DAF(da_covariance_matrix) DAF(da_correlation_matrix)

template <class T> constexpr double EPS() { return sizeof(T) == 8 ? 0x1p-53 : 0x1p-24; }

std::vector<std::vector<ld_t>> groups(const LM &x, da_axis ax) {
    std::vector<std::vector<ld_t>> g;
    if (ax == da_axis_col) g.resize(x.m);
    else if (ax == da_axis_row) g.resize(x.n);
    else g.resize(1);
    for (int64_t i = 0; i < x.n; i++) for (int64_t j = 0; j < x.m; j++) g[ax == da_axis_col ? j : ax == da_axis_row ? i : 0].push_back(x(i, j));
    return g;
}
const char *axn(da_axis a) { return a == da_axis_col ? "col" : a == da_axis_row ? "row" : "all"; }

enum Fn { MEAN, GEO, HARM, VAR, SKEW, KURT, MOM, NFN };
const char *fnn[] = {"mean", "geomean", "harmean", "variance", "skewness", "kurtosis", "moment"};

struct Ref { ld_t v; ld_t amp; bool ok; }; // value, error amplification (multiply by eps), usable
struct Moments : Scenario {
    LM x; da_axis ax; Fn fn; int k = 2, dof = 0; bool premean = false; std::string dk; std::vector<double> pm;
    std::string describe() const override { return fmt("%s axis=%s %lldx%lld data=%s k=%d dof=%d pre=%d", fnn[fn], axn(ax), (long long)x.n, (long long)x.m, dk.c_str(), k, dof, premean); }
    double tol_f32() const override { return 0.02; }
    double tol_layout() const override { return 1e-8; }

    Ref cm(const std::vector<ld_t> &g, int kk, ld_t c, bool exact_c) const { // (1/N) sum (x-c)^kk
        ld_t N = g.size(), s = 0, sa = 0, sd = 0, ma = 0;
        for (ld_t v : g) ma += fabsl(v) / N;
        ld_t delta = (exact_c ? 0 : 4 * (N + 4) * ma);
        for (ld_t v : g) {
            ld_t d = v - c;
            s += powl(d, kk);
            sa += powl(fabsl(d), kk);
            if (kk > 0) sd += kk * powl(fabsl(d) + delta * 1e-7L * (1e-9L), kk - 1) * (delta + 2 * (fabsl(v) + fabsl(c)));
        }
        return {s / N, (8 * (N + kk + 8) * sa + 4 * sd) / N, true};
    }
    Ref ref(const std::vector<ld_t> &g, size_t gi, Fn f, double eps) const {
        ld_t N = g.size(), s = 0, sa = 0;
        for (ld_t v : g) { s += v; sa += fabsl(v); }
        ld_t mean = s / N;
        switch (f) {
        case MEAN: return {mean, 4 * (N + 4) * sa / N, true};
        case GEO: {
            ld_t l = 0, la = 0; bool z = false;
            for (ld_t v : g) { if (v == 0) z = true; else { l += logl(v); la += fabsl(logl(v)); } }
            if (z) return {0, 0, true};
            ld_t r = expl(l / N);
            return {r, r * (8 + 8 * (N + 8) * la / N), true};
        }
        case HARM: {
            ld_t l = 0, la = 0;
            for (ld_t v : g) { l += 1 / v; la += fabsl(1 / v); }
            ld_t r = N / l;
            ld_t rel = 8 * (N + 8) * la / fabsl(l);
            return {r, fabsl(r) * rel, rel * eps < 0.01L};
        }
        case VAR: {
            Ref m2 = cm(g, 2, mean, false);
            ld_t d = dof < 0 ? N : dof == 0 ? N - 1 : dof;
            if (d == 0) d = 1; // single observation: numerator is zero
            m2.v *= N / d; m2.amp *= N / d;
            m2.ok = true;
            // second order effect of the error in the mean
            ld_t dm = 4 * (N + 4) * sa / N * eps;
            m2.amp += 4 * dm * dm / eps * N / d;
            return m2;
        }
        case SKEW: case KURT: {
            Ref m2 = cm(g, 2, mean, false), m3 = cm(g, f == SKEW ? 3 : 4, mean, false);
            ld_t rel2 = m2.amp * eps / std::max(m2.v, (ld_t)1e-300L);
            if (!(rel2 < 0.01L) || m2.v <= 0) return {0, 0, false};
            ld_t p = f == SKEW ? 1.5L : 2.0L;
            ld_t den = powl(m2.v, p), r = m3.v / den;
            return {f == SKEW ? r : r - 3, m3.amp / den + 2 * p * fabsl(r) * m2.amp / m2.v + 8 * fabsl(r) + 12, true};
        }
        case MOM: {
            if (k == 0) return {1, 8 * N, true};
            if (k == 1 && !premean) return {0, cm(g, 1, mean, false).amp, true};
            Ref m = premean ? cm(g, k, pm[gi], true) : cm(g, k, mean, false);
            ld_t dm = 4 * (N + 4) * sa / N * eps;
            if (!premean) m.amp += powl(2 * dm, k) / eps + k * k * dm * dm * cm(g, std::max(k - 2, 0), mean, true).amp / eps;
            return m;
        }
        default: return {0, 0, false};
        }
    }
    template <class T> Outcome run_t(const Var &v) const {
        Outcome o;
        auto X = Buf<T>::input("X", x, v.order, v.pad);
        int64_t L = ax == da_axis_col ? x.m : ax == da_axis_row ? x.n : 1;
        Buf<T> r1("out1", L, 1, column_major, 0), r2("out2", L, 1, column_major, 0), r3("out3", L, 1, column_major, 0);
        da_int n = x.n, m = x.m; da_status s = da_status_success;
        const T *xp = X.data();
        std::vector<std::pair<Buf<T> *, Fn>> outs;
        switch (fn) {
        case MEAN: s = DA(da_mean)(v.order, ax, n, m, xp, X.ldi(), r1.data()); outs = {{&r1, MEAN}}; break;
        case GEO: s = DA(da_geometric_mean)(v.order, ax, n, m, xp, X.ldi(), r1.data()); outs = {{&r1, GEO}}; break;
        case HARM: s = DA(da_harmonic_mean)(v.order, ax, n, m, xp, X.ldi(), r1.data()); outs = {{&r1, HARM}}; break;
        case VAR: s = DA(da_variance)(v.order, ax, n, m, xp, X.ldi(), dof, r1.data(), r2.data()); outs = {{&r1, MEAN}, {&r2, VAR}}; break;
        case SKEW: s = DA(da_skewness)(v.order, ax, n, m, xp, X.ldi(), r1.data(), r2.data(), r3.data()); outs = {{&r1, MEAN}, {&r2, VAR}, {&r3, SKEW}}; break;
        case KURT: s = DA(da_kurtosis)(v.order, ax, n, m, xp, X.ldi(), r1.data(), r2.data(), r3.data()); outs = {{&r1, MEAN}, {&r2, VAR}, {&r3, KURT}}; break;
        default:
            if (premean) { for (int64_t i = 0; i < L; i++) r1.p[i] = (T)pm[i]; r1.freeze(); }
            s = DA(da_moment)(v.order, ax, n, m, xp, X.ldi(), k, premean, r1.data(), r2.data());
            if (!premean) outs = {{&r1, MEAN}};
            outs.push_back({&r2, MOM});
        }
        o.add(fnn[fn], s);
        X.verify(); r1.verify();
        auto g = groups(x, ax);
        bool neg = false;
        for (double d : x.a) if (d < 0) neg = true;
        if (fn == GEO && neg) return o;
        if (s) return o;
        for (auto &pr : outs) {
            std::vector<double> val, nm; double sc = 0;
            for (int64_t i = 0; i < L; i++) {
                Ref rf = ref(g[i], i, pr.second, 0x1p-24);
                double d = (double)pr.first->p[i];
                dig(&pr.first->p[i], sizeof(T));
                bool usable = rf.ok && rf.amp * 0x1p-24L <= 0.01L * (fabsl(rf.v)) ;
                val.push_back(usable ? d : 0);
                if (usable) sc = std::max(sc, std::fabs((double)rf.v));
                raw[v.f32][pr.second].push_back(d);
            }
            o.items.push_back({fnn[pr.second], REAL, val, sc});
        }
        return o;
    }
    mutable std::map<int, std::vector<double>> raw[2];
    Outcome run(const Var &v) const override { raw[v.f32].clear(); return v.f32 ? run_t<float>(v) : run_t<double>(v); }
    void check(const Outcome &o, const Var &v) const override {
        auto g = groups(x, ax);
        int st = o.st[0].second;
        bool neg = false;
        for (double d : x.a) if (d < 0) neg = true;
        if (fn == GEO && neg) { VCHECK(st == da_status_negative_data, "moments:negative-accepted", "%s %s: status %d for negative data", describe().c_str(), v.str().c_str(), st); return; }
        VCHECK(st == 0, "moments:status", "%s %s: status %d", describe().c_str(), v.str().c_str(), st);
        if (st) return;
        double eps = v.f32 ? 0x1p-24 : 0x1p-53;
        for (auto &pr : raw[v.f32]) {
            Moments tmp; 
            for (size_t i = 0; i < pr.second.size(); i++) {
                Fn f = (Fn)pr.first;
                Ref r = (f == VAR && fn != VAR) ? [&] { Moments q; q.dof = -1; return q.ref(g[i], i, VAR, eps); }() : ref(g[i], i, f, eps);
                if (!r.ok) { count("illcond"); continue; }
                if (v.f32 && fabsl(r.v) > 1e37L) continue;
                double tol = (double)(r.amp * eps * 2 + fabsl(r.v) * eps * 8) + (v.f32 ? 1e-37 : 1e-300);
                double got = pr.second[i];
                count("values");
                if (!(std::fabs(got - (double)r.v) <= tol)) { fail(std::string("moments:") + fnn[f], "%s %s: %s[%zu] = %.17g expected %.17Lg tol %g", describe().c_str(), v.str().c_str(), fnn[f], i, got, r.v, tol); return; }
            }
        }
    }
};
std::unique_ptr<Scenario> gen_moments(Rng &r) {
    auto s = std::make_unique<Moments>();
    s->fn = (Fn)r.below(NFN);
    s->ax = r.pick({da_axis_col, da_axis_row, da_axis_all});
    bool big = r.chance(0.15);
    int64_t n = r.size(1, big ? 1100 : 40), m = r.size(1, big ? 40 : 30);
    if (r.chance(0.3)) std::swap(n, m);
    int kind = (int)r.below(D_NKINDS);
    s->x = gen_data(r, n, m, kind, &s->dk);
    if (s->fn == GEO && r.chance(0.9)) for (auto &v : s->x.a) v = std::fabs(v);
    if (s->fn == HARM) for (auto &v : s->x.a) { v = r.chance(0.8) ? std::fabs(v) : v; if (v == 0) v = 1; }
    s->k = r.chance(0.8) ? (int)r.in(0, 5) : (int)r.in(6, 9);
    if (kind == D_BIG || kind == D_OFFSET) s->k = std::min(s->k, 6);
    int64_t N = s->ax == da_axis_col ? n : s->ax == da_axis_row ? m : n * m;
    s->dof = (int)r.pick({-1, 0, (int)r.in(1, N + 3)});
    s->premean = r.chance(0.4);
    for (int64_t i = 0; i < std::max(n, m); i++) s->pm.push_back(f32(r.uni(-2, 2)));
    return s;
}
RegScen rs1("moments", gen_moments);

// ---------------------------------------------------------------- quantiles
struct Quant : Scenario {
    LM x; da_axis ax; std::vector<double> q; int type; bool five; std::string dk;
    std::string describe() const override { return fmt("%s axis=%s %lldx%lld data=%s type=%d nq=%zu", five ? "five" : "quantile", axn(ax), (long long)x.n, (long long)x.m, dk.c_str(), type, q.size()); }
    double tol_f32() const override { return five || type > 3 ? 1e-4 : 0; }
    template <class T> Outcome run_t(const Var &v) const {
        Outcome o;
        auto X = Buf<T>::input("X", x, v.order, v.pad);
        int64_t L = ax == da_axis_col ? x.m : ax == da_axis_row ? x.n : 1;
        da_int n = x.n, m = x.m;
        if (five) {
            std::vector<Buf<T>> b(5);
            for (auto &z : b) z.alloc("five", L, 1, column_major, 0);
            da_status s = o.add("five", DA(da_five_point_summary)(v.order, ax, n, m, X.data(), X.ldi(), b[0].data(), b[1].data(), b[2].data(), b[3].data(), b[4].data()));
            X.verify();
            if (s) return o;
            LM R(5, L);
            for (int k = 0; k < 5; k++) for (int64_t i = 0; i < L; i++) R(k, i) = (double)b[k].p[i];
            o.real("five", R.a);
            return o;
        }
        auto Q = Buf<T>::vec("q", q);
        Buf<T> R("quantiles", q.size(), L, v.order, 0);
        da_status s = o.add("quantile", DA(da_quantile)(v.order, ax, n, m, X.data(), X.ldi(), Q.data(), (da_int)q.size(), R.data(), (da_quantile_type)(da_quantile_type_1 + type - 1)));
        X.verify(); Q.verify();
        if (s) { VCHECK(R.untouched(), "quantile:output-on-error", "%s: output written on error %d", describe().c_str(), s); return o; }
        o.real("quantile", R.vecd());
        return o;
    }
    RUN_DISPATCH
    // all values acceptable for this definition, allowing the documented rounding of h
    static void expect(std::vector<double> s, int type, double q, double heps, std::vector<std::pair<double, double>> &out) {
        int64_t n = s.size();
        auto at = [&](double k) { int64_t i = (int64_t)k; i = std::min(std::max<int64_t>(i, 1), n); return s[i - 1]; };
        ld_t Q = q, h0;
        switch (type) {
        case 1: h0 = n * Q; break;
        case 2: h0 = n * Q + 0.5L; break;
        case 3: h0 = n * Q - 0.5L; break;
        case 4: h0 = n * Q; break;
        case 5: h0 = n * Q + 0.5L; break;
        case 6: h0 = (n + 1) * Q; break;
        case 7: h0 = (n - 1) * Q + 1; break;
        case 8: h0 = (n + 1 / 3.0L) * Q + 1 / 3.0L; break;
        default: h0 = (n + 0.25L) * Q + 0.375L;
        }
        // interval of values over h in [h0-d, h0+d]
        double d = heps * std::max<double>(1.0, n);
        double lo = INFINITY, hi = -INFINITY;
        std::vector<ld_t> hs = {h0 - d, h0, h0 + d};
        for (double base : {0.0, 0.5}) { ld_t r = roundl(h0 - base) + base; if (fabsl(r - h0) <= d) { hs.push_back(r); } }
        bool disc = type <= 3;
        for (ld_t h : hs) {
            double v;
            if (type == 1) v = at((double)ceill(h));
            else if (type == 2) v = 0.5 * (at((double)ceill(h - 0.5L)) + at((double)floorl(h + 0.5L)));
            else if (type == 3) {
                v = at((double)nearbyintl(h));
            } else {
                double i = (double)floorl(h), j = (double)ceill(h);
                v = at(i) + (double)(h - floorl(h)) * (at(j) - at(i));
            }
            if (disc) out.push_back({v, v});
            lo = std::min(lo, v); hi = std::max(hi, v);
        }
        if (!disc) out.push_back({lo, hi});
    }
    void check(const Outcome &o, const Var &v) const override {
        bool badq = false;
        for (double d : q) if (d < 0 || d > 1) badq = true;
        int st = o.st[0].second;
        if (badq && !five) { VCHECK(st == da_status_invalid_input, "quantile:bad-q-accepted", "%s: status %d for q outside [0,1]", describe().c_str(), st); return; }
        VCHECK(st == 0, "quantile:status", "%s: status %d", describe().c_str(), st);
        if (st) return;
        auto g = groups(x, ax);
        double eps = v.f32 ? 0x1p-23 : 0x1p-52;
        std::vector<double> qs = five ? std::vector<double>{0, .25, .5, .75, 1} : q;
        for (size_t i = 0; i < g.size(); i++) {
            std::vector<double> s(g[i].begin(), g[i].end());
            std::sort(s.begin(), s.end());
            double amax = std::max(std::fabs(s[0]), std::fabs(s.back()));
            for (size_t k = 0; k < qs.size(); k++) {
                std::vector<std::pair<double, double>> ex;
                double qq = v.f32 ? (double)(float)qs[k] : qs[k];
                expect(s, five ? 6 : type, qq, v.f32 ? 4 * 0x1p-23 : 4 * 0x1p-52, ex);
                double got = o.items[0].v[k * g.size() + i];
                bool ok = false;
                bool exact = !five && (type == 1 || type == 3);
                for (auto &e : ex) if (got >= e.first - (exact ? 0 : 4 * eps * amax) && got <= e.second + (exact ? 0 : 4 * eps * amax)) ok = true;
                count("values");
                if (!ok) { fail(five ? "quantile:five" : fmt("quantile:type%d", type), "%s %s: group %zu q=%.17g got %.17g expected %.17g", describe().c_str(), v.str().c_str(), i, qq, got, ex[0].first); return; }
            }
        }
    }
};
std::unique_ptr<Scenario> gen_quant(Rng &r) {
    auto s = std::make_unique<Quant>();
    s->five = r.chance(0.25);
    s->ax = r.pick({da_axis_col, da_axis_row, da_axis_all});
    int64_t n = r.size(1, 40), m = r.size(1, 20);
    if (r.chance(0.4)) std::swap(n, m);
    s->x = gen_data(r, n, m, -1, &s->dk);
    s->type = (int)r.in(1, 9);
    int64_t N = s->ax == da_axis_col ? n : s->ax == da_axis_row ? m : n * m;
    int nq = (int)r.in(1, 8);
    for (int i = 0; i < nq; i++) {
        double q;
        switch (r.below(6)) {
        case 0: q = r.pick({0.0, 1.0, 0.5, 0.25, 0.75}); break;
        case 1: q = (double)r.in(0, N) / N; break;           // lands on indices
        case 2: q = (double)r.in(0, 2 * N) / (2 * N); break; // and half-indices
        case 3: q = N > 1 ? (double)r.in(0, N - 1) / (N - 1) : 0; break;
        case 4: q = (double)r.in(0, N + 1) / (N + 1); break;
        default: q = r.uni();
        }
        s->q.push_back(std::min(1.0, f32(q)));
    }
    if (r.chance(0.05)) s->q[r.below(nq)] = r.pick({-0.01, 1.01, -1e-6, 2.0});
    return s;
}
RegScen rs2("quantile", gen_quant);

// ---------------------------------------------------------------- covariance, correlation, standardise
struct Cov : Scenario {
    LM x; int what; int dof; int centered; std::string dk; // 0 cov, 1 corr
    std::string describe() const override { return fmt("%s %lldx%lld data=%s dof=%d centered=%d", what ? "corr" : "cov", (long long)x.n, (long long)x.m, dk.c_str(), dof, centered); }
    double tol_f32() const override { return 0.02; }
    mutable LM got;
    LM ref, amp;
    void prep() {
        int64_t n = x.n, p = x.m;
        std::vector<ld_t> mu(p, 0), ma(p, 0);
        for (int64_t j = 0; j < p; j++) { for (int64_t i = 0; i < n; i++) { mu[j] += x(i, j); ma[j] += std::fabs(x(i, j)); } mu[j] /= n; ma[j] /= n; if (centered && !what) mu[j] = 0; }
        ref = LM(p, p); amp = LM(p, p);
        auto dot = [&](int64_t a, int64_t b, ld_t &ab) { ld_t s = 0; ab = 0; for (int64_t i = 0; i < n; i++) { ld_t u = x(i, a) - mu[a], w = x(i, b) - mu[b]; s += u * w; ab += fabsl(u * w); ab += (fabsl(u) * ma[b] + fabsl(w) * ma[a]); } return s; };
        std::vector<ld_t> sd(p), sa(p);
        for (int64_t j = 0; j < p; j++) { ld_t ab; sd[j] = sqrtl(dot(j, j, ab)); sa[j] = ab; }
        ld_t d = dof < 0 ? n : dof == 0 ? n - 1 : dof;
        if (d < 1) d = 1;
        for (int64_t a = 0; a < p; a++) for (int64_t b = 0; b < p; b++) {
            ld_t ab, s = dot(a, b, ab);
            if (!what) { ref(a, b) = (double)(s / d); amp(a, b) = (double)(ab / d * 8 * (n + 8)); }
            else {
                // relative conditioning of each standard deviation
                ld_t ra = sa[a] / std::max(sd[a] * sd[a], (ld_t)1e-300L), rb = sa[b] / std::max(sd[b] * sd[b], (ld_t)1e-300L);
                ld_t k = 16 * (n + 8) * (ra + rb);
                if (sd[a] == 0 || sd[b] == 0 || k * 0x1p-24L > 0.01L) { amp(a, b) = -1; continue; }
                ref(a, b) = (double)(s / (sd[a] * sd[b])); amp(a, b) = (double)k;
            }
        }
    }
    template <class T> Outcome run_t(const Var &v) const {
        Outcome o;
        auto X = Buf<T>::input("X", x, v.order, v.pad);
        Buf<T> R("cov", x.m, x.m, v.order, v.opad);
        da_status s = what ? DA(da_correlation_matrix)(v.order, x.n, x.m, X.data(), X.ldi(), R.data(), R.ldi())
                           : DA(da_covariance_matrix)(v.order, x.n, x.m, X.data(), X.ldi(), dof, R.data(), R.ldi(), centered);
        o.add("cov", s);
        X.verify(); R.verify();
        if (s) return o;
        got = R.lm();
        R.digest();
        LM g = got;
        double sc = 0;
        for (size_t i = 0; i < g.a.size(); i++) { if (amp.a[i] < 0 || amp.a[i] * 0x1p-24 > 0.01 * (1e-30 + std::fabs(ref.a[i]))) g.a[i] = 0; else sc = std::max(sc, std::fabs(ref.a[i])); }
        o.items.push_back({"cov", REAL, g.a, sc});
        return o;
    }
    RUN_DISPATCH
    void check(const Outcome &o, const Var &v) const override {
        int st = o.st[0].second;
        if (x.n == 1 && st == da_status_invalid_array_dimension) return; // one observation: refused
        VCHECK(st == 0, "cov:status", "%s: status %d", describe().c_str(), st);
        if (st) return;
        double eps = v.f32 ? 0x1p-24 : 0x1p-53;
        for (int64_t a = 0; a < x.m; a++) for (int64_t b = 0; b < x.m; b++) {
            count("values");
            if (got(a, b) != got(b, a) && !(std::isnan(got(a, b)) && std::isnan(got(b, a)))) { fail("cov:asymmetric", "%s %s (%lld,%lld): %.17g against %.17g", describe().c_str(), v.str().c_str(), (long long)a, (long long)b, got(a, b), got(b, a)); return; }
            if (amp(a, b) < 0) continue;
            double cmx = 0;
            for (int64_t i = 0; i < x.n; i++) cmx = std::max({cmx, std::fabs(x(i, a)), std::fabs(x(i, b))});
            double dm = 8 * (x.n + 8) * eps * cmx; // second order effect of the error in the means
            double tol = amp(a, b) * eps + 16 * eps * std::fabs(ref(a, b)) + (what ? 0 : x.n * dm * dm) + 1e-37;
            if (!(std::fabs(got(a, b) - ref(a, b)) <= tol)) { fail(what ? "corr:value" : "cov:value", "%s %s (%lld,%lld): %.17g expected %.17g tol %g", describe().c_str(), v.str().c_str(), (long long)a, (long long)b, got(a, b), ref(a, b), tol); return; }
        }
    }
};
std::unique_ptr<Scenario> gen_cov(Rng &r) {
    auto s = std::make_unique<Cov>();
    s->what = r.chance(0.5);
    s->x = gen_data(r, r.size(1, r.chance(0.15) ? 600 : 40), r.size(1, 20), -1, &s->dk);
    if (s->what && s->x.n < 2) s->x = gen_data(r, 3, s->x.m, D_GAUSS, &s->dk);
    s->dof = (int)r.pick({-1, 0, (int)r.in(1, 50)});
    s->centered = r.chance(0.3);
    s->prep();
    return s;
}
RegScen rs3("cov", gen_cov);

struct Stdz : Scenario {
    LM x; da_axis ax; int dof, mode; int sh, sc; // 0 null, 1 zeros, 2 supplied
    std::vector<double> shv, scv; std::string dk;
    mutable LM got; mutable std::vector<double> gsh, gsc; mutable bool back_ok; mutable LM gback;
    std::string describe() const override { return fmt("standardize axis=%s %lldx%lld data=%s dof=%d mode=%d shift=%d scale=%d", axn(ax), (long long)x.n, (long long)x.m, dk.c_str(), dof, mode, sh, sc); }
    double tol_f32() const override { return 0.02; }
    int64_t L() const { return ax == da_axis_col ? x.m : ax == da_axis_row ? x.n : 1; }
    struct G { ld_t shift, scale, dshift, dscale; bool ok; };
    std::vector<G> gr;
    void prep() {
        auto g = groups(x, ax);
        for (size_t i = 0; i < g.size(); i++) {
            ld_t N = g[i].size(), mu = 0, ma = 0;
            for (ld_t v : g[i]) { mu += v / N; ma += fabsl(v) / N; }
            ld_t d = dof < 0 ? N : dof == 0 ? N - 1 : dof; if (d < 1) d = 1;
            G q{0, 1, 0, 0, true};
            bool bothnull = sh == 0 && sc == 0;
            if (bothnull || sh == 1) { q.shift = mu; q.dshift = 4 * (N + 4) * ma; }
            else if (sh == 2) q.shift = shv[i];
            if (bothnull || sc == 1) {
                ld_t c = sh == 2 ? shv[i] : mu, s = 0, sa = 0;
                for (ld_t v : g[i]) { s += (v - c) * (v - c); sa += fabsl(v - c) * (fabsl(v) + fabsl(c) + 4 * (N + 4) * ma); }
                q.scale = sqrtl(s / d);
                ld_t rel = (4 * sa + 8 * (N + 8) * s) / std::max(s, (ld_t)1e-300L);
                q.dscale = q.scale * rel;
                if (!(rel * 0x1p-24L < 0.01L)) q.ok = false;
            } else if (sc == 2) q.scale = scv[i];
            if (q.scale == 0) { if (sc == 2) q.scale = 1; else q.ok = false; }
            gr.push_back(q);
        }
    }
    template <class T> Outcome run_t(const Var &v) const {
        Outcome o;
        auto X = Buf<T>::input("X", x, v.order, v.pad);
        X.is_in = false; // in-out
        Buf<T> SH("shift", L(), 1), SC("scale", L(), 1);
        for (int64_t i = 0; i < L(); i++) { SH.p[i] = sh == 2 ? (T)shv[i] : 0; SC.p[i] = sc == 2 ? (T)scv[i] : 0; }
        if (sh == 2) SH.freeze();
        if (sc == 2) SC.freeze();
        da_status s = o.add("standardize", DA(da_standardize)(v.order, ax, x.n, x.m, X.data(), X.ldi(), dof, mode, sh ? SH.data() : nullptr, sc ? SC.data() : nullptr));
        X.verify(); if (sh == 2) SH.verify(); if (sc == 2) SC.verify();
        if (s) return o;
        got = X.lm(); gsh = SH.vecd(); gsc = SC.vecd();
        X.digest();
        LM g = got;
        double scl = 0;
        for (int64_t i = 0; i < x.n; i++) for (int64_t j = 0; j < x.m; j++) {
            const G &q = gr[ax == da_axis_col ? j : ax == da_axis_row ? i : 0];
            if (!q.ok || q.dshift * 0x1p-24L > 0.001L * q.scale) g(i, j) = 0;
            scl = std::max(scl, std::fabs(g(i, j)));
        }
        o.items.push_back({"X", REAL, g.a, scl});
        // reverse with the arrays now holding shift and scale
        back_ok = false;
        if (sh && sc && mode == 0) {
            s = o.add("reverse", DA(da_standardize)(v.order, ax, x.n, x.m, X.data(), X.ldi(), dof, 1, SH.data(), SC.data()));
            if (!s) { gback = X.lm(); back_ok = true; }
        }
        return o;
    }
    RUN_DISPATCH
    void check(const Outcome &o, const Var &v) const override {
        int st = o.st[0].second;
        VCHECK(st == 0, "standardize:status", "%s: status %d", describe().c_str(), st);
        if (st) return;
        double eps = v.f32 ? 0x1p-24 : 0x1p-53;
        for (int64_t i = 0; i < x.n; i++) for (int64_t j = 0; j < x.m; j++) {
            int64_t gi = ax == da_axis_col ? j : ax == da_axis_row ? i : 0;
            const G &q = gr[gi];
            if (!q.ok) continue;
            ld_t e, tol;
            if (mode == 0) { e = (x(i, j) - q.shift) / q.scale; tol = (q.dshift + 4 * fabsl(x(i, j)) + 4 * fabsl(q.shift)) / fabsl(q.scale) + fabsl(e) * (q.dscale / fabsl(q.scale) + 8); }
            else { e = x(i, j) * q.scale + q.shift; tol = q.dshift + fabsl(x(i, j)) * (q.dscale + 8 * fabsl(q.scale)) + 8 * fabsl(q.shift); }
            count("values");
            if (!(std::fabs(got(i, j) - (double)e) <= (double)tol * eps * 2 + 1e-37)) { fail("standardize:value", "%s %s (%lld,%lld): %.17g expected %.17Lg", describe().c_str(), v.str().c_str(), (long long)i, (long long)j, got(i, j), e); return; }
        }
        for (int64_t i = 0; i < L(); i++) {
            if (gr[i].ok && sh == 1 && !(std::fabs(gsh[i] - (double)gr[i].shift) <= (double)(gr[i].dshift + fabsl(gr[i].shift)) * eps * 4 + 1e-37)) { fail("standardize:shift-out", "%s %s: computed shift[%lld] %.17g expected %.17Lg", describe().c_str(), v.str().c_str(), (long long)i, gsh[i], gr[i].shift); return; }
            if (gr[i].ok && sc == 1 && !(std::fabs(gsc[i] - (double)gr[i].scale) <= (double)(gr[i].dscale + fabsl(gr[i].scale)) * eps * 8 + 1e-37)) { fail("standardize:scale-out", "%s %s: computed scale[%lld] %.17g expected %.17Lg", describe().c_str(), v.str().c_str(), (long long)i, gsc[i], gr[i].scale); return; }
        }
        if (back_ok) {
            // an all-zero array passed in reverse mode would be recomputed: skip those
            bool allz1 = true, allz2 = true;
            for (double d : gsh) if (d != 0) allz1 = false;
            for (double d : gsc) if (d != 0) allz2 = false;
            if (!allz1 && !allz2)
                for (int64_t i = 0; i < x.n; i++) for (int64_t j = 0; j < x.m; j++) {
                    int64_t gi = ax == da_axis_col ? j : ax == da_axis_row ? i : 0;
                    double tol = 16 * eps * (std::fabs(x(i, j)) + 2 * std::fabs(gsh[gi]) + 1e-30);
                    if (!(std::fabs(gback(i, j) - x(i, j)) <= tol)) { fail("standardize:reverse", "%s %s (%lld,%lld): reversed to %.17g from %.17g", describe().c_str(), v.str().c_str(), (long long)i, (long long)j, gback(i, j), x(i, j)); return; }
                }
        }
    }
};
std::unique_ptr<Scenario> gen_stdz(Rng &r) {
    auto s = std::make_unique<Stdz>();
    s->ax = r.pick({da_axis_col, da_axis_row, da_axis_all});
    s->x = gen_data(r, r.size(1, 30), r.size(1, 20), -1, &s->dk);
    s->dof = (int)r.pick({-1, 0, (int)r.in(1, 40)});
    s->mode = r.chance(0.25);
    s->sh = (int)r.below(3); s->sc = (int)r.below(3);
    for (int64_t i = 0; i < s->L(); i++) {
        s->shv.push_back(f32(r.chance(0.1) && i > 0 ? 0 : r.uni(-5, 5)));
        s->scv.push_back(f32(r.chance(0.1) && i > 0 ? 0 : r.uni(0.2, 5)));
    }
    s->prep();
    return s;
}
RegScen rs4("standardize", gen_stdz);

template <class G> void one(Rng &r, G gen, const char *nm) {
    auto s = gen(r);
    Var v = random_var(r);
    if (S.samples.size() < 3) sample(s->describe() + " " + v.str());
    nontrivial(hstr((s->describe() + v.str()).c_str()));
    Outcome o = s->run(v);
    s->check(o, v);
    count(nm);
}
} // namespace
FAMILY(moments, 12000, 200000) { one(rng, gen_moments, "moment_cases"); }
FAMILY(quantile, 16000, 300000) { one(rng, gen_quant, "quantile_cases"); }
FAMILY(covstd, 10000, 150000) { if (rng.chance(0.5)) one(rng, gen_cov, "cov_cases"); else one(rng, gen_stdz, "standardize_cases"); }
