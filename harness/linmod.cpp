// C29 linear regression, C30 logistic regression
#include "vt.hpp"
using namespace vt;
typedef long double ld_t;
namespace {
DAF(da_linmod_select_model) DAF(da_linmod_define_features) DAF(da_linmod_fit) DAF(da_linmod_fit_start) DAF(da_linmod_evaluate_model)
template <class T> constexpr double EPS() { return sizeof(T) == 8 ? 0x1p-53 : 0x1p-24; }
const bool DBG = getenv("VT_DBG") != nullptr;

// shared: run a linmod handle
struct LinBase : Scenario {
    LM x, xt; std::vector<double> y, yt; std::string dk;
    bool intercept = false; std::string method = "auto", scaling = "auto"; double lambda = 0, alpha = 0, tol = 1e-4, pf = -1, gaptol = 1e-4;
    int maxit = 10000; bool warm = false; std::vector<double> start; bool mixed = false, logistic = false; std::string constr;
    int skipmin = 2, skipmax = 100;
    template <class T> Outcome run_t(const Var &v) const {
        Outcome o;
        set_threads(v.threads);
        Handle h;
        if (o.add("init", DA(da_handle_init)(&h.h, da_handle_linmod))) return o;
        hook<T>(h, "init");
        o.add("model", DA(da_linmod_select_model)(h, logistic ? linmod_model_logistic : linmod_model_mse));
        o.add("order", set_str(h, "storage order", v.order == row_major ? "row-major" : "column-major"));
        if (v.check_data) o.add("cd", set_str(h, "check data", "yes"));
        o.add("icpt", set_int(h, "intercept", intercept));
        o.add("meth", set_str(h, "optim method", method.c_str()));
        o.add("scal", set_str(h, "scaling", scaling.c_str()));
        o.add("lam", set_real<T>(h, "lambda", (T)lambda));
        o.add("alp", set_real<T>(h, "alpha", (T)alpha));
        o.add("tol", set_real<T>(h, "optim convergence tol", (T)tol));
        o.add("pf", set_real<T>(h, "optim progress factor", pf >= 0 ? (T)pf : (T)10 / std::numeric_limits<T>::epsilon()));
        o.add("gap", set_real<T>(h, "optim dual gap tol", (T)gaptol));
        o.add("mit", set_int(h, "optim iteration limit", maxit));
        o.add("skmin", set_int(h, "optim coord skip min", skipmin));
        o.add("skmax", set_int(h, "optim coord skip max", skipmax));
        if (logistic) o.add("constr", set_str(h, "logistic constraint", constr.c_str()));
        o.add("mixed", set_str(h, "mixed precision", mixed ? "yes" : "no"));
        hook<T>(h, "opts");
        auto bx = Buf<T>::input("X", x, v.order, v.pad);
        auto by = Buf<T>::vec("y", y);
        if (o.add("define", DA(da_linmod_define_features)(h, x.n, x.m, bx.data(), bx.ldi(), by.data()))) return o;
        hook<T>(h, "data");
        auto bs = Buf<T>::vec("start", start);
        for (int r = 0; r <= v.refit; r++) {
            if (r) { // a new definition makes the handle fit again
                da_linmod_define_features_redo<T>(h, bx, by);
            }
            da_status s = warm ? DA(da_linmod_fit_start)(h, (da_int)start.size(), bs.data()) : DA(da_linmod_fit)(h);
            if (r == v.refit && o.add("fit", s)) { bx.verify(); by.verify(); return o; }
        }
        hook<T>(h, "trained");
        hook<T>(h, "computed");
        bx.verify(); by.verify(); bs.verify();
        auto c = get_real<T>(h, da_linmod_coef, &o, "coef");
        auto info = get_real<T>(h, da_rinfo, &o, "rinfo");
        o.real("coef", c);
        if (info.size() == 100) {
            o.disc("dims", {info[linmod_info_nsamples], info[linmod_info_nfeat], info[linmod_info_nclass], info[linmod_info_nrow_coef], info[linmod_info_ncol_coef], info[linmod_info_well_determined]});
            o.items.push_back({"info", DISC, {info[linmod_info_objective], info[linmod_info_grad_norm], info[linmod_info_iter], info[linmod_info_inorm], info[linmod_info_optim]}, 0});
            o.items.back().name = "~info";
        }
        if (!logistic && (method == "cg") && x.n < x.m + intercept) {
            auto d = get_real<T>(h, da_linmod_dual_coef, &o, "dual");
            o.real("dual", d);
        }
        for (int q = 0; q < 2; q++) {
            const LM &e = q ? xt : x;
            auto be = Buf<T>::input("Xeval", e, v.order, v.pad);
            auto bo = Buf<T>::vec("obs", q ? yt : y);
            Buf<T> pr("pred", e.n, 1);
            T loss = -7;
            o.add(q ? "eval1" : "eval0", DA(da_linmod_evaluate_model)(h, e.n, e.m, be.data(), be.ldi(), pr.data(), bo.data(), &loss));
            be.verify(); bo.verify(); pr.verify();
            if (logistic) o.disc(q ? "pred1" : "pred0", pr.vecd());
            else o.real(q ? "pred1" : "pred0", pr.vecd());
            o.real(q ? "loss1" : "loss0", {(double)loss});
            Buf<T> pr2("pred2", e.n, 1);
            o.add("eval2", DA(da_linmod_evaluate_model)(h, e.n, e.m, be.data(), be.ldi(), pr2.data(), nullptr, nullptr));
            { auto a1 = pr.vecd(), a2 = pr2.vecd(); if (memcmp(a1.data(), a2.data(), a1.size() * 8)) fail("eval-repeat", "%s: predictions without observations differ", describe().c_str()); }
        }
        hook<T>(h, "end");
        return o;
    }
    template <class T> static void da_linmod_define_features_redo(Handle &h, Buf<T> &bx, Buf<T> &by) { DA(da_linmod_define_features)(h, bx.n, bx.m, bx.data(), bx.ldi(), by.data()); }
    RUN_DISPATCH
};

struct Linmod : LinBase {
    std::string describe() const override {
        return fmt("linmod %lldx%lld data=%s method=%s scaling=%s icpt=%d lambda=%g alpha=%g tol=%g gap=%g pf=%g maxit=%d warm=%d skip %d %d", (long long)x.n, (long long)x.m, dk.c_str(), method.c_str(), scaling.c_str(), intercept, lambda, alpha, tol, gaptol, pf, maxit, warm, skipmin, skipmax);
    }
    bool wide() const { return x.n < x.m + intercept; }
    bool direct() const { return method == "qr" || method == "svd" || method == "cholesky" || (method == "auto" && alpha == 0); }
    bool iscoord() const { return method == "coord" || (method == "auto" && alpha != 0); }
    double tol_layout() const override { return direct() && dk != "dupcol" && dk != "offset" && x.n > x.m + 3 && dk != "const" ? 1e-6 : 0; }
    int64_t features() const override { return x.m; }
    double tol_f32() const override { return 0; }
    bool incompatible() const {
        bool l1 = alpha > 0 && lambda != 0, cm = method == "auto" ? false : method == "coord";
        std::string me = method == "auto" ? (alpha == 0 ? "cholesky" : "coord") : method;
        (void)cm;
        if (me != "coord" && l1) return true;
        if (me == "qr" && lambda != 0) return true;
        if (wide() && scaling == "none" && intercept && me != "lbfgsb") return true;
        if ((me == "qr" || me == "svd") && scaling == "none" && intercept) return true;
        if (me == "qr" && wide() && intercept) return true;
        if (me == "qr" && wide() && scaling == "standardize") return true;
        return false;
    }
    void check(const Outcome &o, const Var &v) const override {
        int fit = -1;
        for (auto &s : o.st) {
            if (s.first == "fit") { fit = s.second; continue; }
            if (s.second) { fail("status", "%s: %s gave %s", describe().c_str(), s.first.c_str(), stname(s.second)); return; }
        }
        if (incompatible()) {
            count("incompatible");
            VCHECK(fit == da_status_incompatible_options, "incompatible-accepted", "%s: fit gave %s(%d)", describe().c_str(), stname(fit), fit);
            return;
        }
        if (fit) {
            count("fit-failed");
            if (dk == "gauss" && x.n > x.m + 5) fail("fit-failed", "%s: fit gave %s(%d)", describe().c_str(), stname(fit), fit);
            return;
        }
        const Item *ci = o.get("coef");
        int64_t n = x.n, m = x.m, nc = m + intercept;
        if ((int64_t)ci->v.size() != nc) { fail("coef-size", "%s: %zu coefficients", describe().c_str(), ci->v.size()); return; }
        auto &dm = o.get("dims")->v;
        VCHECK(dm[0] == n && dm[1] == m && dm[3] == 1 && dm[4] == nc && (dm[5] != 0) == (n >= nc), "info-dims", "%s: rinfo sizes %g %g rows %g cols %g well determined %g", describe().c_str(), dm[0], dm[1], dm[3], dm[4], dm[5]);
        const std::vector<double> &c = ci->v;
        double e = v.f32 ? 0x1p-23 : 0x1p-52;
        auto T = [&](double d) { return v.f32 ? (double)(float)d : d; };
        double lam = T(lambda), al = T(alpha);
        for (double d : c) if (!std::isfinite(d)) { fail(scaling == "standardize" || scaling == "scale only" ? "coef-not-finite-scaled" : "coef-not-finite", "%s: coefficient %g", describe().c_str(), d); return; }
        // predictions and loss from the coefficients
        for (int q = 0; q < 2; q++) {
            const LM &X = q ? xt : x; auto &Y = q ? yt : y;
            auto &p = o.get(q ? "pred1" : "pred0")->v;
            double sse = 0, mag = 0;
            for (int64_t i = 0; i < X.n; i++) {
                ld_t s = intercept ? c[m] : 0, a = fabsl(s);
                for (int64_t j = 0; j < m; j++) { s += (ld_t)X(i, j) * c[j]; a += fabsl((ld_t)X(i, j) * c[j]); }
                VCHECK(std::fabs(p[i] - (double)s) <= 4 * (m + 4) * e * (double)a + 1e-300, "prediction", "%s: prediction %lld of set %d is %.17g, coefficients give %.17g", describe().c_str(), (long long)i, q, p[i], (double)s);
                double r = p[i] - Y[i];
                sse += r * r; mag += (std::fabs(p[i]) + std::fabs(Y[i])) * (std::fabs(p[i]) + std::fabs(Y[i]));
            }
            double loss = o.get(q ? "loss1" : "loss0")->v[0], pen = 0;
            if (lam == 0) VCHECK(std::fabs(loss - sse / (2 * X.n)) <= 8 * (X.n + 8) * e * mag / X.n + 1e-300, "loss", "%s: loss %.17g, recomputed %.17g", describe().c_str(), loss, sse / (2 * X.n));
            else {
                VCHECK(loss >= sse / (2 * X.n) - 8 * (X.n + 8) * e * mag / X.n, "loss-below-error", "%s: loss %.17g below the mean square error %.17g", describe().c_str(), loss, sse / (2 * X.n));
                for (int64_t j = 0; j < m; j++) pen += lam * (al * std::fabs(c[j]) + (1 - al) / 2 * c[j] * c[j]);
                if (alpha > 0 && (scaling == "auto" || scaling == "none" || scaling == "centering"))
                    VCHECK(std::fabs(loss - sse / (2 * X.n) - pen) <= 8 * (X.n + m + 8) * e * (mag / X.n + pen), "loss-penalised", "%s: loss %.17g, recomputed %.17g", describe().c_str(), loss, sse / (2 * X.n) + pen);
            }
        }
        // the problem in scaled coordinates: 1/2|yh - Xh b|^2 + l1|b|_1 + l2/2 |b|^2
        bool scaled = scaling == "scale only" || scaling == "standardize", cen = intercept;
        std::vector<ld_t> mx(m, 0), sx(m, 1); ld_t my = 0, sy = 1, sn = 1;
        if (cen) {
            for (int64_t j = 0; j < m; j++) { for (int64_t i = 0; i < n; i++) mx[j] += x(i, j); mx[j] /= n; }
            for (int64_t i = 0; i < n; i++) my += y[i];
            my /= n;
        }
        if (scaled) {
            sn = sqrtl((ld_t)n);
            ld_t s = 0; for (int64_t i = 0; i < n; i++) s += (y[i] - my) * (y[i] - my);
            sy = sqrtl(s / n);
            if (scaling == "standardize") for (int64_t j = 0; j < m; j++) {
                ld_t mu = 0, q = 0; for (int64_t i = 0; i < n; i++) mu += x(i, j); mu /= n;
                for (int64_t i = 0; i < n; i++) q += (x(i, j) - mu) * (x(i, j) - mu);
                sx[j] = sqrtl(q / n);
            }
        }
        for (int64_t j = 0; j < m; j++) if (!(sx[j] > 1e-6)) { count("degenerate-scale"); return; }
        if (!(sy > 1e-6)) { count("degenerate-scale"); return; }
        std::vector<ld_t> Xh(n * m), yh(n), b(m), nx(m);
        ld_t ny = 0;
        for (int64_t i = 0; i < n; i++) { yh[i] = (y[i] - my) / (sn * sy); ny += (y[i] / (sn * sy)) * (y[i] / (sn * sy)); for (int64_t j = 0; j < m; j++) { Xh[i * m + j] = (x(i, j) - mx[j]) / (sn * sx[j]); ld_t u = x(i, j) / (sn * sx[j]); nx[j] += u * u; } }
        for (int64_t j = 0; j < m; j++) { b[j] = c[j] * sx[j] / sy; nx[j] = sqrtl(nx[j]); }
        ny = sqrtl(ny);
        ld_t l1, l2;
        if (al == 0) { l1 = 0; l2 = !scaled ? lam : scaling == "standardize" ? lam / sy : lam / n; }
        else if (scaled) { l1 = lam * al / sy; l2 = lam * (1 - al) / sy; }
        else { l1 = n * lam * al; l2 = n * lam * (1 - al); }
        std::vector<ld_t> r(n);
        ld_t nr = 0, nb = 0, mag = ny;
        for (int64_t j = 0; j < m; j++) { nb += b[j] * b[j]; mag += nx[j] * fabsl(b[j]); }
        ld_t smean = 0;
        for (int64_t i = 0; i < n; i++) { ld_t s = yh[i]; for (int64_t j = 0; j < m; j++) s -= Xh[i * m + j] * b[j]; r[i] = s; nr += s * s; smean += s; }
        (void)smean;
        // intercept
        if (intercept) {
            ld_t want = my; ld_t a = fabsl(my);
            for (int64_t j = 0; j < m; j++) { want -= mx[j] * c[j]; a += fabsl(mx[j] * c[j]); }
            // absolute size of the data behind the means
            ld_t am = 0; for (int64_t i = 0; i < n; i++) { am += fabsl((ld_t)y[i]); for (int64_t j = 0; j < m; j++) am += fabsl(x(i, j) * (ld_t)c[j]); }
            ld_t tolb = direct() || iscoord() ? 0 : tol * 10 * sy * sn * sn * (1 + ny);
            bool explicit_icpt = !wide() && (scaling == "none" || scaling == "auto") && !iscoord() && method != "qr" && method != "svd";
            // an explicit intercept column is solved with the other coefficients
            if (!explicit_icpt && !(iscoord() && scaling == "none") && (direct() || iscoord() || (pf == 0 && o.get("~info")->v[2] < maxit))) VCHECK(fabsl(c[m] - want) <= 64 * (n + m) * e * (am / n + a) + tolb + e, "intercept", "%s: intercept %.17g, means give %.17g", describe().c_str(), c[m], (double)want);
        }
        std::vector<ld_t> g(m);
        ld_t gi = 0, gscale = 0, kk = 0;
        // residual with the intercept returned
        ld_t icres = 0;
        if (intercept) {
            ld_t s0 = 0, sa = 0;
            for (int64_t i = 0; i < n; i++) { ld_t s = (ld_t)y[i] - c[m]; sa += fabsl((ld_t)y[i]) + fabsl((ld_t)c[m]); for (int64_t j = 0; j < m; j++) { s -= (ld_t)x(i, j) * c[j]; sa += fabsl((ld_t)x(i, j) * c[j]); } s0 += s; }
            icres = sa > 0 ? s0 / sa : 0;
        }
        for (int64_t j = 0; j < m; j++) {
            ld_t s = 0; for (int64_t i = 0; i < n; i++) s += Xh[i * m + j] * r[i];
            g[j] = s; ld_t d = s - l2 * b[j];
            gi = std::max(gi, fabsl(d)); gscale = std::max(gscale, nx[j] * mag + l2 * fabsl(b[j])); kk = std::max(kk, nx[j]);
        }
        auto &inf = o.get("~info")->v;
        if (direct()) {
            count("direct");
            bool rank_ok = dk == "gauss" || dk == "unif" || lam > 0 || dk == "offset";
            if (method == "qr" && !rank_ok) { count("rank-deficient-qr"); return; }
            // small singular values may be dropped
            ld_t drop = method == "svd" || (method == "auto") || method == "cholesky" ? 200 * e * kk * (kk + 1) * sqrtl(nb) : 0;
            if (dk == "offset" && cen) gscale *= 1; 
            VCHECK(gi <= (dk == "offset" ? scaled ? 1e6L : 1000 : 100) * (n + m) * e * gscale + drop, "stationarity", "%s: %s gradient %.3Lg, scale %.3Lg", describe().c_str(), v.str().c_str(), gi, gscale);
            if (intercept) VCHECK(fabsl(icres) <= 40 * (n + m) * e * (1 + gscale / std::max((ld_t)1e-30L, kk * mag)), "intercept-residual", "%s: residuals do not sum to zero: relative %.3Lg", describe().c_str(), icres);
            nontrivial(hstr(fmt("%s %s %d %g %d", method.c_str(), scaling.c_str(), intercept, alpha, wide()).c_str()));
        } else if (method == "cg") {
            bool conv = inf[2] < maxit - 1;
            count(conv ? "cg-converged" : "cg-limit");
            if (conv && !wide() && dk != "dupcol" && dk != "const" && dk != "offset") {
                // relative residual of the normal equations
                ld_t bn = 0; for (int64_t j = 0; j < m; j++) { ld_t s = 0; for (int64_t i = 0; i < n; i++) s += (cen && scaling != "none" && scaling != "auto" ? Xh[i * m + j] : (ld_t)x(i, j) / (sn * sx[j])) * yh[i]; bn += s * s; }
                if (bn > 0 || my != 0) VCHECK(gi <= 10 * T(tol) * sqrtl(bn + (intercept ? n * my * my : 0)) * (1 + (cen ? kk : 0)) + 1e-5 + 1.1 * tol + 1000 * (n + m) * e * gscale, "cg-stationarity", "%s: %s gradient %.3Lg, |b| %.3Lg iterations %g", describe().c_str(), v.str().c_str(), gi, sqrtl(bn), inf[2]);
            }
            nontrivial(hstr(fmt("cg %s %d %g %d", scaling.c_str(), intercept, alpha, wide()).c_str()));
        } else if (method == "lbfgsb") {
            // gradient of 1/(2n)|y-Xb|^2 + ...
            bool conv = inf[2] < maxit && pf == 0;
            ld_t gu = scaled && scaling == "scale only" ? gi / n : !scaled ? gi / n : gi;
            count(conv ? "lbfgs-converged" : "lbfgs-other");
            bool easy = (dk == "gauss" || dk == "unif") && !v.f32 && maxit > 1000;
            if (conv && easy) VCHECK(gu <= 5 * tol * (1 + (cen && !scaled ? kk / sqrtl(n) : 0)) + (100 * (n + m) * e + 1e-8) * gscale, "lbfgs-stationarity", "%s: %s gradient %.3Lg (rinfo norm %g inf %g) iterations %g", describe().c_str(), v.str().c_str(), gu, inf[1], inf[3], inf[2]);
            nontrivial(hstr(fmt("lbfgs %s %d %g %d", scaling.c_str(), intercept, alpha, wide()).c_str()));
        } else if (iscoord()) {
            // reference minimum by plain coordinate descent
            auto F = [&](const std::vector<ld_t> &bb) { ld_t f = 0; for (int64_t i = 0; i < n; i++) { ld_t s = yh[i]; for (int64_t j = 0; j < m; j++) s -= Xh[i * m + j] * bb[j]; f += s * s / 2; } for (int64_t j = 0; j < m; j++) f += l1 * fabsl(bb[j]) + l2 / 2 * bb[j] * bb[j]; return f; };
            std::vector<ld_t> rb = b, rr = r, xx(m);
            for (int64_t j = 0; j < m; j++) for (int64_t i = 0; i < n; i++) xx[j] += Xh[i * m + j] * Xh[i * m + j];
            for (int it = 0; it < 3000; it++) {
                ld_t ch = 0;
                for (int64_t j = 0; j < m; j++) {
                    if (!(xx[j] + l2 > 0)) continue;
                    ld_t s = xx[j] * rb[j]; for (int64_t i = 0; i < n; i++) s += Xh[i * m + j] * rr[i];
                    ld_t t = fabsl(s) - l1; ld_t nbj = t <= 0 ? 0 : (s > 0 ? t : -t) / (xx[j] + l2);
                    ld_t d = nbj - rb[j];
                    if (d != 0) { for (int64_t i = 0; i < n; i++) rr[i] -= d * Xh[i * m + j]; rb[j] = nbj; ch = std::max(ch, fabsl(d) * sqrtl(xx[j])); }
                }
                if (ch < 1e-15L * (mag + 1e-300L)) break;
            }
            ld_t f0 = F(b), f1 = F(rb);
            // the gap reported is that of the problem divided by n (glmnet: also), and bounds the distance from the minimum
            ld_t yty = 0; for (ld_t q : yh) yty += q * q;
            bool conv = inf[2] < maxit;
            count(conv ? "coord-converged" : "coord-limit");
            ld_t allow = T(gaptol) * yty * 1.5L + 100 * (n + m) * e * mag * mag;
            if (scaled) allow = std::max(allow, T(gaptol) * yty * 2.0L);
            bool easy = (dk == "gauss" || dk == "unif") && !v.f32 && n > 3 * m && lam > 0;
            // (not with an intercept in the unscaled problem: the residual used as the dual point does not sum to zero exactly)
            if (!scaled && std::isfinite(inf[4]) && lam > 0 && !(intercept && scaling == "none")) VCHECK(f0 - f1 <= inf[4] * n * 1.01L + 100 * (n + m) * e * mag * mag, "coord-gap", "%s: %s objective is %.6Lg above the minimum, reported gap %.6g", describe().c_str(), v.str().c_str(), (f0 - f1) / n, inf[4]);
            if (conv && easy) VCHECK(f0 - f1 <= allow + 1e-15, "coord-optimality", "%s: %s objective %.12Lg, minimum %.12Lg, allowance %.3Lg (iter %g gap %g)", describe().c_str(), v.str().c_str(), f0, f1, allow, inf[2], inf[4]);
            if (easy && maxit > 1000) VCHECK(conv, "coord-no-convergence", "%s: %g iterations, gap %g", describe().c_str(), inf[2], inf[4]);
            nontrivial(hstr(fmt("coord %s %d %g %d", scaling.c_str(), intercept, alpha, wide()).c_str()));
        }
    }
};

std::unique_ptr<Scenario> gen_linmod(Rng &r) {
    auto p = std::make_unique<Linmod>();
    int64_t m = r.chance(0.1) ? r.in(20, 60) : r.size(1, 14);
    int64_t n = r.chance(0.25) ? r.in(1, m + 1) : m + r.size(1, 60) + (r.chance(0.1) ? 200 : 0);
    int k = (int)r.below(10);
    LM x = gen_data(r, n, m, k < 6 ? D_GAUSS : k == 6 ? D_UNIF : k == 7 ? D_GRID : k == 8 ? D_OFFSET : D_GAUSS);
    p->dk = k < 6 ? "gauss" : k == 6 ? "unif" : k == 7 ? "grid" : k == 8 ? "offset" : "dupcol";
    if (k == 9 && m > 1) { int64_t a = r.below(m), b = r.below(m); for (int64_t i = 0; i < n; i++) x(i, a) = x(i, b); if (r.chance(0.3)) for (int64_t i = 0; i < n; i++) x(i, a) = 1.5; }
    if (k == 7) p->dk = n > 3 * m + 20 ? "unif" : "grid";
    double sc = r.chance(0.3) ? std::pow(10.0, r.uni(-2, 2)) : 1;
    for (auto &v : x.a) v = f32(v * sc);
    p->x = x;
    p->xt = gen_data(r, r.size(1, 20), m, D_GAUSS);
    std::vector<double> bt(m);
    for (auto &b : bt) b = r.chance(0.4) ? 0 : r.norm() * 2;
    double b0 = r.chance(0.5) ? r.norm() * 5 : 0, noise = r.chance(0.2) ? 0 : r.uni(0, 2);
    for (int64_t i = 0; i < n; i++) { double s = b0 + noise * r.norm(); for (int64_t j = 0; j < m; j++) s += x(i, j) * bt[j]; p->y.push_back(f32(s)); }
    for (int64_t i = 0; i < p->xt.n; i++) p->yt.push_back(f32(r.norm()));
    p->intercept = r.chance(0.5);
    p->method = r.pick({"auto", "qr", "svd", "cholesky", "cg", "lbfgsb", "coord", "coord", "bfgs"});
    if (p->method == "bfgs") p->method = "lbfgsb";
    p->scaling = r.chance(0.35) ? "auto" : r.pick({"none", "centering", "scale only", "standardize"});
    if (r.chance(0.6)) p->lambda = f32(std::pow(10.0, r.uni(-3, 2)));
    if (p->method == "qr" && r.chance(0.85)) p->lambda = 0;
    if (p->method == "coord" || p->method == "auto" ? r.chance(0.7) : r.chance(0.05)) p->alpha = r.chance(0.4) ? 1 : f32(r.uni(0, 1));
    p->tol = f32(std::pow(10.0, r.uni(-8, -3)));
    p->gaptol = f32(std::pow(10.0, r.uni(-8, -3)));
    if (r.chance(0.75)) p->pf = 0;
    if (r.chance(0.15)) p->maxit = (int)r.in(1, 6);
    if (r.chance(0.25)) { p->skipmin = (int)r.in(2, 6); p->skipmax = (int)r.in(10, 40); }
    if (r.chance(0.25)) { p->warm = true; int64_t L = r.chance(0.7) ? m + p->intercept : r.in(1, m + 3); if (p->method == "cg" && n < m + p->intercept) L = n; for (int64_t j = 0; j < L; j++) p->start.push_back(f32(r.norm())); }
    return p;
}
RegScen rs_linmod("linmod", gen_linmod);

FAMILY(linmod, 300, 3000) {
    auto s = gen_linmod(rng);
    Var v = random_var(rng);
    if (DBG) fprintf(stderr, "%llu %s | %s\n", (unsigned long long)S.idx, s->describe().c_str(), v.str().c_str());
    auto o = s->run(v);
    s->check(o, v);
    if (S.idx % 50 == 0) sample(s->describe());
}

// ---------------------------------------------------------------- logistic regression
struct Logistic : LinBase {
    int K = 2; bool separable = false;
    std::string describe() const override {
        return fmt("logistic %lldx%lld K=%d %s icpt=%d lambda=%g tol=%g pf=%g maxit=%d warm=%d data=%s method=%s", (long long)x.n, (long long)x.m, K, constr.c_str(), intercept, lambda, tol, pf, maxit, warm, dk.c_str(), method.c_str());
    }
    double tol_layout() const override { return 0; }
    bool rsc() const { return constr == "rsc" || constr == "reference category"; }
    void check(const Outcome &o, const Var &v) const override {
        int fit = -1;
        for (auto &s : o.st) {
            if (s.first == "fit") { fit = s.second; continue; }
            if (s.second) { fail("status", "%s: %s gave %s", describe().c_str(), s.first.c_str(), stname(s.second)); return; }
        }
        if (fit) { fail("fit-failed", "%s: fit gave %s(%d)", describe().c_str(), stname(fit), fit); return; }
        int64_t n = x.n, m = x.m, nm = m + intercept, nr = K == 2 ? 1 : rsc() ? K - 1 : K;
        auto &c = o.get("coef")->v;
        if ((int64_t)c.size() != nr * nm) { fail("coef-size", "%s: %zu coefficients, expected %lld", describe().c_str(), c.size(), (long long)(nr * nm)); return; }
        auto &dm = o.get("dims")->v;
        VCHECK(dm[0] == n && dm[1] == m && dm[2] == K && dm[3] == nr && dm[4] == nm, "info-dims", "%s: rinfo sizes %g %g classes %g rows %g cols %g", describe().c_str(), dm[0], dm[1], dm[2], dm[3], dm[4]);
        for (double d : c) if (!std::isfinite(d)) { fail("coef-not-finite", "%s: coefficient %g", describe().c_str(), d); return; }
        // coefficient of class k and feature j (j == m: intercept), the matrix being stored in the order of the handle
        auto B = [&](int64_t k, int64_t j) -> ld_t { return v.order == row_major ? c[k * nm + j] : c[k + j * nr]; };
        double e = v.f32 ? 0x1p-23 : 0x1p-52, lam = v.f32 ? (double)(float)lambda : lambda;
        auto score = [&](const LM &X, int64_t i, std::vector<ld_t> &s) {
            s.assign(K, 0);
            ld_t a = 0;
            for (int64_t k = 0; k < nr; k++) {
                ld_t t = intercept ? B(k, m) : 0; ld_t b = fabsl(t);
                for (int64_t j = 0; j < m; j++) { t += (ld_t)X(i, j) * B(k, j); b += fabsl((ld_t)X(i, j) * B(k, j)); }
                s[K == 2 ? 1 : k] = t; a = std::max(a, b);
            }
            return a;
        };
        // predictions are the classes of largest score
        std::vector<ld_t> s;
        for (int q = 0; q < 2; q++) {
            const LM &X = q ? xt : x; auto &Y = q ? yt : y; auto &p = o.get(q ? "pred1" : "pred0")->v;
            double acc = 0;
            for (int64_t i = 0; i < X.n; i++) {
                ld_t a = score(X, i, s), mx = *std::max_element(s.begin(), s.end());
                if (!(p[i] >= 0 && p[i] < K && p[i] == std::floor(p[i]))) { fail("prediction-range", "%s: predicted class %g", describe().c_str(), p[i]); return; }
                VCHECK(s[(int)p[i]] >= mx - 8 * (m + 8) * e * (a + (rsc() && K > 2 ? 4 : 0)), "prediction", "%s: %s sample %lld of set %d: class %g has score %.9Lg, largest is %.9Lg", describe().c_str(), v.str().c_str(), (long long)i, q, p[i], s[(int)p[i]], mx);
                acc += p[i] == Y[i];
            }
            double l = o.get(q ? "loss1" : "loss0")->v[0];
            VCHECK(std::fabs(l - acc / X.n) <= 4 * e, "accuracy", "%s: accuracy %.9g, recomputed %.9g", describe().c_str(), l, acc / X.n);
        }
        // gradient of sum(-log p) + lambda/2 sum over classes and features of beta^2
        std::vector<ld_t> g(nr * nm, 0), ga(nr * nm, 0);
        ld_t f = 0, fm = 0;
        for (int64_t i = 0; i < n; i++) {
            fm += score(x, i, s);
            ld_t mx = *std::max_element(s.begin(), s.end()), z = 0;
            for (int k = 0; k < K; k++) z += expl(s[k] - mx);
            f += mx + logl(z) - s[(int)y[i]];
            for (int k = 0; k < nr; k++) {
                int cl = K == 2 ? 1 : k;
                ld_t d = expl(s[cl] - mx) / z - ((int)y[i] == cl);
                for (int64_t j = 0; j < nm; j++) { ld_t xv = j < m ? (ld_t)x(i, j) : 1; g[k * nm + j] += d * xv; ga[k * nm + j] += fabsl(xv); }
            }
        }
        ld_t gi = 0, gsc = 0, bmax = 0; int64_t gw = 0;
        for (int64_t k = 0; k < nr; k++) for (int64_t j = 0; j < nm; j++) {
            if (j < m) { g[k * nm + j] += lam * B(k, j); f += lam / 2 * B(k, j) * B(k, j); ga[k * nm + j] += lam * fabsl(B(k, j)); }
            if (fabsl(g[k * nm + j]) > gi) { gi = fabsl(g[k * nm + j]); gw = k * nm + j; }
            gsc = std::max(gsc, ga[k * nm + j]);
            bmax = std::max(bmax, fabsl(B(k, j)));
        }
        (void)gw;
        auto &inf = o.get("~info")->v;
        // objective and gradient as reported
        VCHECK(fabsl(f - inf[0]) <= 200 * (n + m) * e * (fm + f + 1), "objective", "%s: %s reported objective %.12g, recomputed %.12Lg", describe().c_str(), v.str().c_str(), inf[0], f);
        ld_t ge = 200 * (n + m + 8) * e * gsc * (1 + fm / n);
        if (inf[2] > 0) VCHECK(fabsl(gi - inf[1]) <= ge, "gradient-norm", "%s: %s reported gradient norm %.9g, recomputed %.9Lg at %lld (error %.2Lg)", describe().c_str(), v.str().c_str(), inf[1], gi, (long long)gw, ge);
        bool conv = inf[2] < maxit;
        count(conv ? "logistic-converged" : "logistic-limit");
        if (conv && pf == 0 && !v.f32 && lambda > 1e-3 && (dk == "gauss" || dk == "unif") && maxit > 1000)
            VCHECK(gi <= 5 * tol + ge, "stationarity", "%s: %s gradient %.3Lg, tolerance %g, iterations %g", describe().c_str(), v.str().c_str(), gi, tol, inf[2]);
        if (!warm && f > n * logl((ld_t)K) * (1 + 100 * e * n)) fail("worse-than-start", "%s: objective %.9Lg, at zero it is %.9Lg", describe().c_str(), f, n * logl((ld_t)K));
        nontrivial(hstr(fmt("%d %s %d %g", K, constr.c_str(), intercept, lambda).c_str()));
    }
};
std::unique_ptr<Scenario> gen_logistic(Rng &r) {
    auto p = std::make_unique<Logistic>();
    p->logistic = true;
    p->K = r.chance(0.4) ? 2 : (int)r.in(3, 6);
    int64_t m = r.size(1, 10), n = p->K + r.size(1, 80);
    int k = (int)r.below(6);
    LM x = gen_data(r, n, m, k < 3 ? D_GAUSS : k == 3 ? D_UNIF : k == 4 ? D_CLUST : D_GRID, &p->dk);
    p->x = x; p->xt = gen_data(r, r.size(1, 20), m, r.chance(0.3) ? D_BIG : D_GAUSS);
    LM W(p->K, m + 1); for (auto &w : W.a) w = r.norm() * r.uni(0, 3);
    bool random_y = r.chance(0.3);
    for (int64_t i = 0; i < n; i++) {
        int best = 0; double bs = -1e300;
        for (int c = 0; c < p->K; c++) { double s = W(c, m) + 2 * r.norm(); for (int64_t j = 0; j < m; j++) s += W(c, j) * x(i, j); if (s > bs) { bs = s; best = c; } }
        p->y.push_back(random_y ? (double)r.below(p->K) : best);
    }
    p->y[r.below(n)] = p->K - 1; // the number of classes is the largest label + 1
    for (int64_t i = 0; i < p->xt.n; i++) p->yt.push_back((double)r.below(p->K));
    p->intercept = r.chance(0.5);
    p->constr = r.pick({"rsc", "ssc", "reference category", "symmetric"});
    p->method = r.pick({"auto", "lbfgsb", "lbfgs"});
    p->lambda = r.chance(0.25) ? 0 : f32(std::pow(10.0, r.uni(-2.5, 2)));
    p->tol = f32(std::pow(10.0, r.uni(-6, -3)));
    if (r.chance(0.75)) p->pf = 0;
    if (r.chance(0.2)) p->maxit = (int)r.in(1, 6);
    if (r.chance(0.3)) { p->warm = true; int64_t L = (p->K == 2 ? 1 : p->rsc() ? p->K - 1 : p->K) * (m + p->intercept); if (r.chance(0.2)) L += r.in(-3, 3); double off = r.chance(0.3) ? -3 : 0; for (int64_t j = 0; j < std::max<int64_t>(L, 1); j++) p->start.push_back(f32(r.norm() + off)); }
    return p;
}
RegScen rs_logistic("logistic", gen_logistic);
FAMILY(logistic, 300, 3000) {
    auto s = gen_logistic(rng);
    Var v = random_var(rng);
    if (DBG) fprintf(stderr, "%llu %s | %s\n", (unsigned long long)S.idx, s->describe().c_str(), v.str().c_str());
    auto o = s->run(v);
    s->check(o, v);
    if (S.idx % 50 == 0) sample(s->describe());
}
} // namespace
