// C31 nonlinear least squares
#include "vt.hpp"
#include <cfloat>
using namespace vt;
DAF(da_nlls_define_residuals) DAF(da_nlls_define_bounds) DAF(da_nlls_define_weights) DAF(da_nlls_fit) DAF(da_options_get_real)
namespace {
typedef long double ld;
const int NX = 6;
// value, gradient and Hessian with respect to the coefficients
struct Jet {
    int n = 0;
    ld v = 0, g[NX] = {}, h[NX][NX] = {};
};
Jet cst(int n, ld v) { Jet r; r.n = n; r.v = v; return r; }
Jet var(int n, int i, ld v) { Jet r = cst(n, v); r.g[i] = 1; return r; }
Jet chain(const Jet &a, ld f, ld d, ld dd) {
    Jet r = cst(a.n, f);
    for (int i = 0; i < a.n; i++) { r.g[i] = d * a.g[i]; for (int j = 0; j < a.n; j++) r.h[i][j] = d * a.h[i][j] + dd * a.g[i] * a.g[j]; }
    return r;
}
Jet operator+(const Jet &a, const Jet &b) { Jet r = a; r.v += b.v; for (int i = 0; i < a.n; i++) { r.g[i] += b.g[i]; for (int j = 0; j < a.n; j++) r.h[i][j] += b.h[i][j]; } return r; }
Jet operator*(const Jet &a, ld k) { Jet r = a; r.v *= k; for (int i = 0; i < a.n; i++) { r.g[i] *= k; for (int j = 0; j < a.n; j++) r.h[i][j] *= k; } return r; }
Jet operator+(const Jet &a, ld k) { Jet r = a; r.v += k; return r; }
Jet operator-(const Jet &a, const Jet &b) { return a + b * -1; }
Jet operator*(const Jet &a, const Jet &b) {
    Jet r = cst(a.n, a.v * b.v);
    for (int i = 0; i < a.n; i++) { r.g[i] = a.g[i] * b.v + a.v * b.g[i]; for (int j = 0; j < a.n; j++) r.h[i][j] = a.h[i][j] * b.v + a.v * b.h[i][j] + a.g[i] * b.g[j] + a.g[j] * b.g[i]; }
    return r;
}
Jet jexp(const Jet &a) { ld e = expl(a.v); return chain(a, e, e, e); }
Jet jsin(const Jet &a) { return chain(a, sinl(a.v), cosl(a.v), -sinl(a.v)); }
Jet jtanh(const Jet &a) { ld t = tanhl(a.v); return chain(a, t, 1 - t * t, -2 * t * (1 - t * t)); }
Jet jinv(const Jet &a) { return chain(a, 1 / a.v, -1 / (a.v * a.v), 2 / (a.v * a.v * a.v)); }

enum Kind { LINEAR, EXPO, GAUSSP, ROSEN, POWELL, SINUS, POLY, LOGIS, TANHM, WOOD, BEALE, BIEXP, NKIND };
const char *kname[] = {"linear", "exponential", "gaussian", "rosenbrock", "powell", "sinusoid", "polynomial", "logistic", "tanh", "wood", "beale", "biexponential"};
struct Prob {
    int kind = 0, n = 2;
    std::vector<double> t, y, w, lo, hi, x0, xtrue;
    LM A; // linear
    int m() const { return (int)y.size(); }
    Jet res(const std::vector<ld> &x, int i) const {
        std::vector<Jet> c;
        for (int k = 0; k < n; k++) c.push_back(var(n, k, x[(size_t)k]));
        ld T = t[(size_t)i], Y = y[(size_t)i];
        Jet r;
        switch (kind) {
        case LINEAR: r = cst(n, 0); for (int k = 0; k < n; k++) r = r + c[(size_t)k] * (ld)A(i, k); break;
        case EXPO: r = c[0] * jexp(c[1] * T); break;
        case GAUSSP: { Jet d = cst(n, T) - c[1]; r = c[0] * jexp(d * d * c[2] * c[2] * -1.0L); if (n > 3) r = r + c[3]; break; }
        case ROSEN: r = i % 2 == 0 ? (c[(size_t)i / 2 + 1] - c[(size_t)i / 2] * c[(size_t)i / 2]) * 10.0L : c[(size_t)i / 2] + -1.0L; break;
        case POWELL: { Jet s; switch (i % 4) { case 0: r = c[0] + c[1] * 10.0L; break; case 1: r = (c[2] - c[3]) * sqrtl(5); break; case 2: s = c[1] - c[2] * 2.0L; r = s * s; break; default: s = c[0] - c[3]; r = s * s * sqrtl(10); } break; }
        case SINUS: r = c[0] * jsin(c[1] * T + c[2]); if (n > 3) r = r + c[3]; break;
        case POLY: r = cst(n, 0); for (int k = n - 1; k >= 0; k--) r = r * T + c[(size_t)k]; break;
        case LOGIS: r = c[0] * jinv(jexp((c[1] * T + c[2]) * -1.0L) + 1.0L); break;
        case TANHM: r = c[0] * jtanh(c[1] * T + c[2]); if (n > 3) r = r + c[3] * T; break;
        case WOOD: switch (i % 6) { case 0: r = (c[1] - c[0] * c[0]) * 10.0L; break; case 1: r = c[0] + -1.0L; break; case 2: r = (c[3] - c[2] * c[2]) * sqrtl(90); break; case 3: r = c[2] + -1.0L; break; case 4: r = (c[1] + c[3] + -2.0L) * sqrtl(10); break; default: r = (c[1] - c[3]) * (1 / sqrtl(10)); } break;
        case BEALE: { Jet p = c[1]; for (int k = 0; k < i % 3; k++) p = p * c[1]; r = c[0] * (p * -1.0L + 1.0L); break; }
        default: r = c[0] * jexp(c[1] * (-T)) + c[2] * jexp(c[3] * (-T));
        }
        return r + -Y;
    }
};
// what the callbacks see and what they are told to do
struct Mon {
    uint64_t magic = 0x5eed5eed5eed5eedULL;
    const Prob *p = nullptr;
    bool box = false, colmajor = true, f32 = false;
    double bigbnd = 1e20;
    long nf = 0, ng = 0, nh = 0, nhp = 0;
    long failat = -1; int failkind = -1, failcode = 0; bool failforever = false, failnan = false; // the failat-th call of a kind fails
    long fired = 0;
    bool wrongjac = false;
    std::vector<std::vector<double>> pts; // evaluated by resfun
    std::vector<double> lo, hi;
    std::string err;
    int depth = 0;
    long errs = 0;
    void bad(const std::string &e) { if (err.empty()) err = e; errs++; }
    bool fail(int kind, long k) { if (kind != failkind || failat < 0 || k < failat || (k > failat && !failforever)) return false; fired++; return true; }
};
const double NOBOX = 1e300;
template <class T> Mon *enter(da_int n, da_int m, void *d, const T *x, const char *who) {
    Mon *M = (Mon *)d;
    if (!M || M->magic != 0x5eed5eed5eed5eedULL) { fprintf(stderr, "user data pointer not passed on\n"); vt::fail("nlls:udata", "%s: the user data pointer is not the one given", who); abort(); }
    if (n != M->p->n || m != M->p->m()) { M->bad(fmt("%s called with %d coefficients and %d residuals", who, n, m)); abort(); }
    for (int i = 0; i < n; i++) {
        if (!std::isfinite(x[i])) M->bad(fmt("%s called at a point with x[%d]=%g", who, i, (double)x[i]));
        if (M->box && ((double)x[i] < M->lo[(size_t)i] || (double)x[i] > M->hi[(size_t)i])) M->bad(fmt("%s called outside the bounds: x[%d]=%.17g not in [%.17g, %.17g]", who, i, (double)x[i], M->lo[(size_t)i], M->hi[(size_t)i]));
    }
    return M;
}
template <class T> std::vector<ld> lx(const T *x, int n) { return std::vector<ld>(x, x + n); }
template <class T> da_int resfun(da_int n, da_int m, void *d, const T *x, T *r) {
    Mon *M = enter(n, m, d, x, "resfun");
    std::vector<ld> X = lx(x, n);
    for (int i = 0; i < m; i++) r[i] = (T)M->p->res(X, i).v;
    M->pts.push_back(std::vector<double>(x, x + n));
    if (M->fail(0, M->nf++)) { if (M->failnan) { r[(size_t)M->failcode % (size_t)m] = (T)NAN; return 0; } return M->failcode; }
    return 0;
}
template <class T> da_int resgrd(da_int n, da_int m, void *d, const T *x, T *J) {
    Mon *M = enter(n, m, d, x, "resgrd");
    std::vector<ld> X = lx(x, n);
    for (int i = 0; i < m; i++) { Jet j = M->p->res(X, i); for (int k = 0; k < n; k++) J[M->colmajor ? i + k * m : i * n + k] = (T)j.g[k]; }
    if (M->wrongjac) J[0] = J[0] * (T)1.5 + (T)1;
    if (M->fail(1, M->ng++)) return M->failcode;
    return 0;
}
template <class T> da_int reshes(da_int n, da_int m, void *d, const T *x, const T *wr, T *H) {
    Mon *M = enter(n, m, d, x, "reshes");
    std::vector<ld> X = lx(x, n);
    std::vector<ld> h((size_t)(n * n), 0);
    for (int i = 0; i < m; i++) { Jet j = M->p->res(X, i); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) h[(size_t)(a * n + b)] += (ld)wr[i] * j.h[a][b]; }
    for (int i = 0; i < n * n; i++) H[i] = (T)h[(size_t)i];
    if (M->fail(2, M->nh++)) return M->failcode;
    return 0;
}
template <class T> da_int reshp(da_int n, da_int m, const T *x, const T *y, T *hp, void *d) {
    Mon *M = enter(n, m, d, x, "reshp");
    std::vector<ld> X = lx(x, n);
    for (int i = 0; i < m; i++) { Jet j = M->p->res(X, i); for (int a = 0; a < n; a++) { ld s = 0; for (int b = 0; b < n; b++) s += j.h[a][b] * (ld)y[b]; hp[M->colmajor ? a + i * n : a * m + i] = (T)s; } }
    if (M->fail(3, M->nhp++)) return M->failcode;
    return 0;
}

struct NOpt {
    int model = 3, method = 0, glob = 1, power = 2, maxit = 100, der = 0, order = 1, check = 0; // der: 0 all, 1 no hessian, 2 finite differences; order 1 column
    double reg = 0, atolf = -1, rtolf = -1, atolg = -1, rtolg = -1, stol = -1, fdstep = -1;
    bool zero = false, setall = false; // start at zero (n_coef = 0 passed)
};
const char *mname[] = {"", "gauss-newton", "quasi-newton", "hybrid", "tensor-newton"};
const char *methname[] = {"galahad", "linear solver", "powell-dogleg", "aint", "more-sorensen"};
struct Res { da_status st = da_status_success; std::vector<double> x, info; bool have = false; da_status ist = da_status_success; };

struct NllsS : Scenario {
    Prob p; NOpt o; bool box = false, onelo = false, onehi = false; std::string dk;
    mutable Mon mon; mutable Res last; mutable double tol[5];
    std::string describe() const override {
        std::string s = fmt("nlls %s n=%d m=%d %s %s %s reg=%g^%d maxit=%d der=%d ord=%d%s", kname[p.kind], p.n, p.m(), mname[o.model], methname[o.method], o.glob == 1 ? "tr" : "reg", o.reg, o.power, o.maxit, o.der, o.order, o.zero ? " zero" : "");
        if (box) s += onelo ? " lower" : onehi ? " upper" : " box";
        if (!p.w.empty()) s += " weighted";
        for (auto q : {std::make_pair("atolf", o.atolf), {"rtolf", o.rtolf}, {"atolg", o.atolg}, {"rtolg", o.rtolg}, {"stol", o.stol}, {"fd", o.fdstep}}) if (q.second >= 0) s += fmt(" %s=%g", q.first, q.second);
        return s + " x0=(" + [&] { std::string v; for (double d : p.x0) v += fmt("%.9g ", d); return v; }() + ")" + dk;
    }
    bool dogleg() const { return o.method == 2; }
    template <class T> void options(Handle &h, Outcome &R, const Var &) const {
        R.add("print", set_int(h, "print level", getenv("VT_PL") ? atoi(getenv("VT_PL")) : 0));
        R.add("model", set_str(h, "ralfit model", mname[o.model]));
        R.add("method", set_str(h, "ralfit nlls method", methname[o.method]));
        R.add("glob", set_str(h, "ralfit globalization method", o.glob == 1 ? "trust-region" : "regularization"));
        R.add("maxit", set_int(h, "ralfit iteration limit", o.maxit));
        R.add("order", set_str(h, "storage order", o.order ? "column-major" : "row-major"));
        if (o.setall || S.opts.count("meta")) {
            Handle f; DA(da_handle_init)(&f.h, da_handle_nlls);
            for (const char *q : {"regularization term", "ralfit convergence abs tol fun", "ralfit convergence rel tol fun", "ralfit convergence abs tol grd", "ralfit convergence rel tol grd", "ralfit convergence step size", "finite differences step"}) { T t = 0; DA(da_options_get_real)(f, q, &t); R.add("default", set_real<T>(h, q, t)); }
            R.add("check", set_str(h, "check derivatives", "no"));
        }
        if (o.reg > 0) { R.add("reg", set_real<T>(h, "regularization term", (T)o.reg)); R.add("power", set_str(h, "regularization power", o.power == 3 ? "cubic" : "quadratic")); }
        if (o.atolf >= 0) R.add("atolf", set_real<T>(h, "ralfit convergence abs tol fun", (T)o.atolf));
        if (o.rtolf >= 0) R.add("rtolf", set_real<T>(h, "ralfit convergence rel tol fun", (T)o.rtolf));
        if (o.atolg >= 0) R.add("atolg", set_real<T>(h, "ralfit convergence abs tol grd", (T)o.atolg));
        if (o.rtolg >= 0) R.add("rtolg", set_real<T>(h, "ralfit convergence rel tol grd", (T)o.rtolg));
        if (o.stol >= 0) R.add("stol", set_real<T>(h, "ralfit convergence step size", (T)o.stol));
        if (o.fdstep >= 0) R.add("fdstep", set_real<T>(h, "finite differences step", (T)o.fdstep));
        if (o.check) R.add("check", set_str(h, "check derivatives", "yes"));
    }
    template <class T> da_status residuals(Handle &h) const {
        return DA(da_nlls_define_residuals)(h, p.n, p.m(), resfun<T>, o.der == 2 ? nullptr : resgrd<T>, o.der == 0 ? reshes<T> : nullptr, o.der == 0 && o.model == 4 ? reshp<T> : nullptr);
    }
    void reset(bool f32) const {
        mon = Mon(); mon.p = &p; mon.colmajor = o.order == 1; mon.f32 = f32; mon.box = box;
        for (int i = 0; i < p.n && box; i++) { mon.lo.push_back(onehi ? -INFINITY : p.lo[(size_t)i] <= -1e20 ? -INFINITY : f32 ? (double)(float)p.lo[(size_t)i] : p.lo[(size_t)i]); mon.hi.push_back(onelo ? INFINITY : p.hi[(size_t)i] >= 1e20 ? INFINITY : f32 ? (double)(float)p.hi[(size_t)i] : p.hi[(size_t)i]); }
    }
    template <class T> void info(Handle &h, Res &r, Outcome *R) const {
        T b[100]; da_int dim = 100;
        r.ist = DA(da_handle_get_result)(h, da_rinfo, &dim, b);
        if (R) R->add("info", r.ist);
        r.info.clear();
        if (r.ist == 0) for (int i = 0; i < 10; i++) r.info.push_back((double)b[i]);
        r.have = r.ist == 0;
    }
    template <class T> Outcome go(const Var &v) const {
        Outcome R; Handle h;
        R.add("init", DA(da_handle_init)(&h.h, da_handle_nlls));
        hook<T>(h, "init");
        options<T>(h, R, v);
        hook<T>(h, "opts");
        const char *tn[] = {"ralfit convergence abs tol fun", "ralfit convergence rel tol fun", "ralfit convergence abs tol grd", "ralfit convergence rel tol grd", "ralfit convergence step size"};
        for (int i = 0; i < 5; i++) { T t = 0; R.add("tol", DA(da_options_get_real)(h, tn[i], &t)); tol[i] = (double)t; }
        reset(v.f32);
        R.add("residuals", residuals<T>(h));
        Buf<T> lo = Buf<T>::vec("lower", p.lo), hi = Buf<T>::vec("upper", p.hi), w = Buf<T>::vec("weights", p.w);
        if (box) R.add("bounds", DA(da_nlls_define_bounds)(h, p.n, onehi ? nullptr : lo.data(), onelo ? nullptr : hi.data()));
        else R.add("no bounds", DA(da_nlls_define_bounds)(h, 0, (T *)nullptr, (T *)nullptr));
        if (!p.w.empty()) R.add("weights", DA(da_nlls_define_weights)(h, p.m(), w.data()));
        else R.add("no weights", DA(da_nlls_define_weights)(h, 0, (T *)nullptr));
        hook<T>(h, "data");
        for (int rep = 0; rep <= (v.refit ? 1 : 0); rep++) {
            Mon keep = mon; reset(v.f32); mon.failat = keep.failat; mon.failkind = keep.failkind; mon.failcode = keep.failcode; mon.failforever = keep.failforever; mon.failnan = keep.failnan; mon.wrongjac = keep.wrongjac;
            Buf<T> x("coef", p.n, 1, column_major, 0);
            for (int i = 0; i < p.n; i++) x.data()[i] = (T)p.x0[(size_t)i];
            std::vector<double> xin;
            for (int i = 0; i < p.n; i++) xin.push_back((double)x.data()[i]);
            last = Res();
            last.st = o.zero ? DA(da_nlls_fit)(h, 0, (T *)nullptr, &mon) : DA(da_nlls_fit)(h, p.n, x.data(), &mon);
            for (int i = 0; i < p.n; i++) last.x.push_back((double)x.data()[i]);
            if (getenv("VT_DBG")) { fprintf(stderr, "%s st %d\n", describe().c_str(), last.st); da_handle_print_error_message(h); }
        }
        hook<T>(h, "trained");
        R.st.push_back({"fit", last.st});
        info<T>(h, last, nullptr);
        R.st.push_back({"info", last.ist});
        hook<T>(h, "computed");
        R.real("coef", last.x);
        if (last.have) { std::vector<double> i2(last.info); i2[3] = 0; R.real("rinfo", i2); }
        lo.verify(); hi.verify(); w.verify();
        hook<T>(h, "end");
        if (!S.opts.count("meta")) judge(R, v);
        return R;
    }
    Outcome run(const Var &v) const override { return v.f32 ? go<float>(v) : go<double>(v); }
    // objective, gradient (with respect to the coefficients)
    struct Obj { ld F = 0, S = 0, normF = 0; std::vector<ld> g, gs; ld pg = 0; };
    Obj eval(const std::vector<double> &x) const {
        Obj r; r.g.assign((size_t)p.n, 0); r.gs.assign((size_t)p.n, 0);
        std::vector<ld> X(x.begin(), x.end());
        for (int i = 0; i < p.m(); i++) {
            Jet j = p.res(X, i); ld w = p.w.empty() ? 1 : mon.f32 ? (ld)(float)p.w[(size_t)i] : (ld)p.w[(size_t)i];
            r.F += w * w * j.v * j.v / 2;
            for (int k = 0; k < p.n; k++) { r.g[(size_t)k] += w * w * j.v * j.g[k]; r.gs[(size_t)k] += fabsl(w * w * j.v * j.g[k]) + w * w * fabsl(j.g[k]) * (1 + fabsl(p.y[(size_t)i])) * 4; }
            r.S += w * w * (fabsl(j.v) * (1 + fabsl(p.y[(size_t)i])) + 1e-6L);
        }
        if (o.reg > 0) {
            ld nx = 0, s = mon.f32 ? (ld)(float)o.reg : (ld)o.reg; for (ld a : X) nx += a * a; nx = sqrtl(nx);
            r.F += s / o.power * powl(nx, o.power);
            for (int k = 0; k < p.n; k++) { ld d = s * powl(nx, o.power - 2) * X[(size_t)k]; r.g[(size_t)k] += d; r.gs[(size_t)k] += fabsl(d); }
        }
        r.normF = sqrtl(2 * r.F);
        for (int k = 0; k < p.n; k++) {
            ld d = -r.g[(size_t)k];
            if (box) { ld z = X[(size_t)k] + d; z = std::min<ld>(std::max<ld>(z, mon.lo[(size_t)k]), mon.hi[(size_t)k]); d = z - X[(size_t)k]; }
            r.pg += d * d;
        }
        r.pg = sqrtl(r.pg);
        return r;
    }
    std::vector<double> start(bool f32) const {
        std::vector<double> x;
        for (int i = 0; i < p.n; i++) { double a = o.zero ? 0 : f32 ? (double)(float)p.x0[(size_t)i] : p.x0[(size_t)i]; if (box) a = std::min(std::max(a, mon.lo[(size_t)i]), mon.hi[(size_t)i]); x.push_back(a); }
        return x;
    }
    void judge(const Outcome &R, const Var &v) const {
        std::string D = describe() + (v.f32 ? " f32" : "") + (v.refit ? " refit" : "");
        ld u = v.f32 ? FLT_EPSILON : DBL_EPSILON;
        if (!mon.err.empty()) { bool fd = o.der == 2 || o.check; fail(mon.err.find("bounds") != std::string::npos ? "nlls:outside" : "nlls:callback", "%s: %s%s", D.c_str(), mon.err.c_str(), fd ? " (finite differences)" : ""); }
        for (auto &s : R.st) if (s.first != "fit" && s.first != "info" && s.second != 0) {
            if (s.first == "bounds" && R.st.size()) { count("bounds-refused"); return; }
            fail("nlls:status", "%s: %s gives %d", D.c_str(), s.first.c_str(), s.second); return;
        }
        da_status s = last.st;
        count(fmt("status-%d", (int)s));
        count(std::string("model-") + kname[p.kind]);
        count("evaluations", mon.nf); count("jacobians", mon.ng); count("hessians", mon.nh + mon.nhp);
        bool ok = s == 0, warn = s == da_status_maxit || s == da_status_numerical_difficulties || s == da_status_maxtime || s == da_status_optimization_usrstop;
        VCHECK(ok || warn || s == da_status_operation_failed || (s == da_status_invalid_option && !supported()), "nlls:fit-status", "%s: fit gives %d", D.c_str(), s);
        VCHECK((last.ist == 0) == (ok || warn), "nlls:info-status", "%s: fit gives %d and the information is available with status %d", D.c_str(), s, last.ist);
        if (!supported() && s == da_status_invalid_option) return;
        if (easy() && v.f32 == 0) VCHECK(ok, "nlls:easy", "%s: an easy problem ends with status %d", D.c_str(), s);
        std::vector<double> x0 = start(v.f32);
        if (!(ok || warn)) { return; }
        if (!last.have) return;
        const auto &I = last.info;
        std::vector<double> x = last.x;
        if (o.zero) { // the coefficients are not returned: the last point evaluated with the objective reported stands for them
            x.clear();
            ld best = 0;
            for (size_t k = mon.pts.size(); k-- > 0;) { Obj q = eval(mon.pts[k]); ld d = fabsl(q.F - (ld)I[0]) / (1e4L * u * (q.S + fabsl(q.F)) + 1e-30L) + 1e-3L * fabsl(q.pg - (ld)I[1]) / (fabsl(q.pg) + fabsl((ld)I[1]) + 1e-30L); if (d <= 1 && (x.empty() || d < best)) { x = mon.pts[k]; best = d; } }
            if (x.empty()) { VCHECK(mon.pts.empty(), "nlls:zero-objective", "%s: no point evaluated has the objective reported, %g", D.c_str(), I[0]); return; }
        }
        for (int i = 0; i < p.n; i++) {
            VCHECK(std::isfinite(x[(size_t)i]), "nlls:finite", "%s: coefficient %d is %g (status %d)", D.c_str(), i, x[(size_t)i], s);
            if (box) VCHECK(x[(size_t)i] >= mon.lo[(size_t)i] && x[(size_t)i] <= mon.hi[(size_t)i], "nlls:feasible", "%s: coefficient %d is %.17g, not in [%.17g, %.17g]", D.c_str(), i, x[(size_t)i], mon.lo[(size_t)i], mon.hi[(size_t)i]);
        }
        Obj q = eval(x), q0 = eval(x0);
        ld tolF = 200 * u * (q.S + fabsl(q.F)), tolF0 = 200 * u * (q0.S + fabsl(q0.F));
        if (!std::isfinite((double)q0.F) || q0.F > (v.f32 ? 1e30L : 1e200L)) { count("start-overflows"); return; }
        VCHECK(q.F <= q0.F + tolF + tolF0, "nlls:decrease", "%s: the objective is %.10Lg, %.10Lg at the start (status %d)", D.c_str(), q.F, q0.F, s);
        VCHECK(fabsl((ld)I[0] - q.F) <= tolF, "nlls:objective", "%s: the objective is %.10Lg, reported %.10g (status %d)", D.c_str(), q.F, I[0], s);
        // counts
        VCHECK(I[4] == (double)mon.nf, "nlls:count-f", "%s: %ld residual evaluations, reported %g (%g for derivatives)", D.c_str(), mon.nf, I[4], I[9]);
        VCHECK(o.der == 2 || I[5] == (double)mon.ng, "nlls:count-g", "%s: %ld Jacobian evaluations, reported %g", D.c_str(), mon.ng, I[5]);
        VCHECK(I[6] == (double)mon.nh || o.der != 0, "nlls:count-h", "%s: %ld Hessian evaluations, reported %g", D.c_str(), mon.nh, I[6]);
        VCHECK(I[7] == (double)mon.nhp || o.der != 0, "nlls:count-hp", "%s: %ld Hessian product evaluations, reported %g", D.c_str(), mon.nhp, I[7]);
        VCHECK(I[2] >= 0 && I[2] <= o.maxit, "nlls:iterations", "%s: %g iterations of %d", D.c_str(), I[2], o.maxit);
        VCHECK((s == da_status_maxit) <= (I[2] >= o.maxit - 1), "nlls:maxit", "%s: limit reached after %g iterations of %d", D.c_str(), I[2], o.maxit);
        // gradient
        ld tolg = 0; for (ld a : q.gs) tolg = std::max(tolg, a); tolg = tolg * 1000 * u + (v.f32 ? 1e-18L : 1e-150L);
        ld norm0 = q0.normF;
        if (box) for (double b : x) tolg += 8 * u * fabsl((ld)b);
        if (o.der == 2) { // of a finite difference approximation
            ld cs = 0; for (ld a : q.gs) cs = std::max(cs, a); tolg += cs * (v.f32 ? 1e-1L : 1e-4L); tolg += 100 * sqrtl(u) * q.S;
        }
        if (ok || s == da_status_maxit) VCHECK(fabsl((ld)I[1] - q.pg) <= tolg + 1e-3L * q.pg, "nlls:gradient", "%s: the %sgradient has norm %.10Lg, reported %.10g (status %d)", D.c_str(), box ? "projected " : "", q.pg, I[1], s);
        if (ok) {
            double atolf = tol[0], rtolf = tol[1], atolg = tol[2], rtolg = tol[3], stol = tol[4];
            bool cf = q.normF <= std::max<ld>(atolf, rtolf * norm0) * (1 + 1e-6L) + 10 * sqrtl(tolF);
            ld sc = q.normF > 0 ? q.normF : 1, sc0 = q0.normF > 0 ? q0.normF : 1;
            bool cg = q.pg / sc <= std::max<ld>(atolg, rtolg * q0.pg / sc0) * (1 + 1e-3L) + tolg / sc;
            bool cs = false;
            for (auto &z : mon.pts) { ld d = 0; bool same = true; for (int i = 0; i < p.n; i++) { d += ((ld)z[(size_t)i] - x[(size_t)i]) * ((ld)z[(size_t)i] - x[(size_t)i]); same &= z[(size_t)i] == x[(size_t)i]; } ld nx = 0; for (double a : x) nx += (ld)a * a; if (sqrtl(d) <= stol + 4 * u * sqrtl(nx)) { if (mon.nf > 1 && stol >= u * sqrtl(nx)) cs = true; if (!same || &z != &mon.pts.back()) cs = cs || !same || mon.nf > 2; } }
            // a step too short is only a reason to stop when a step was made
            VCHECK(cf || cg || cs, "nlls:converged", "%s: success with residual norm %.6Lg (start %.6Lg), gradient norm %.6Lg (start %.6Lg), %ld evaluations", D.c_str(), q.normF, norm0, q.pg, q0.pg, mon.nf);
            count(cf ? "stop-residual" : cg ? "stop-gradient" : "stop-step");
            if (easy() && p.kind == LINEAR && !v.f32 && o.stol < 0) VCHECK(cf || cg, "nlls:linear", "%s: a linear problem is not solved: gradient norm %.6Lg", D.c_str(), q.pg);
        }
        nontrivial(hstr(D.c_str()));
        sample(fmt("%s: status %d, F %.4Lg -> %.4Lg, %ld evaluations", D.c_str(), s, q0.F, q.F, mon.nf));
    }
    bool supported() const { return !(o.model == 4 && o.der != 0); }
    bool easy() const { return p.kind == LINEAR && o.glob == 1 && o.method != 2 && o.maxit >= 100 && o.der != 2 && !box && o.reg == 0; }
    void check(const Outcome &, const Var &) const override {}
};
double f32able(double x) { return (double)(float)x; }
void make_problem(Rng &r, Prob &p) {
    p.kind = (int)r.below(NKIND);
    int nt = (int)r.in(6, 24);
    switch (p.kind) {
    case LINEAR: p.n = (int)r.in(1, 5); nt = (int)r.in(p.n, p.n + 12); break;
    case EXPO: p.n = 2; break;
    case GAUSSP: case SINUS: case TANHM: p.n = (int)r.in(3, 4); break;
    case ROSEN: p.n = (int)r.in(2, 5); nt = 2 * (p.n - 1); break;
    case POWELL: p.n = 4; nt = 4; break;
    case POLY: p.n = (int)r.in(1, 5); nt = (int)r.in(p.n, 15); break;
    case LOGIS: p.n = 3; break;
    case WOOD: p.n = 4; nt = 6; break;
    case BEALE: p.n = 2; nt = 3; break;
    default: p.n = 4; nt = (int)r.in(8, 20);
    }
    for (int i = 0; i < nt; i++) p.t.push_back(f32able(p.kind == POLY || p.kind == SINUS || p.kind == TANHM ? -1 + 2.0 * i / std::max(1, nt - 1) : 0.1 + 2.0 * i / nt));
    if (p.kind == LINEAR) { p.A = LM(nt, p.n); for (int i = 0; i < nt; i++) for (int k = 0; k < p.n; k++) p.A(i, k) = f32able(r.norm() + (k == i % p.n ? 2 : 0)); }
    for (int k = 0; k < p.n; k++) p.xtrue.push_back(f32able(r.uni() * 1.5 + 0.5) * (r.chance(0.3) && p.kind != BIEXP && p.kind != LOGIS ? -1 : 1));
    if (p.kind == ROSEN || p.kind == WOOD) p.xtrue.assign((size_t)p.n, 1);
    p.y.assign((size_t)nt, 0);
    double noise = r.chance(0.5) ? 0 : r.pick({0.01, 0.1, 1.0});
    if (p.kind == BEALE) p.y = {1.5, 2.25, 2.625};
    else if (p.kind != ROSEN && p.kind != POWELL && p.kind != WOOD) {
        std::vector<ld> X(p.xtrue.begin(), p.xtrue.end());
        std::vector<double> y;
        for (int i = 0; i < nt; i++) y.push_back(f32able((double)p.res(X, i).v + noise * r.norm()));
        p.y = y;
    }
    double far = r.pick({0.05, 0.3, 1.0, 3.0});
    for (int k = 0; k < p.n; k++) p.x0.push_back(f32able(r.chance(0.05) ? 0 : p.xtrue[(size_t)k] + far * r.norm()));
}
void make_box(Rng &r, NllsS &s) {
    Prob &p = s.p;
    s.box = true;
    for (int k = 0; k < p.n; k++) {
        double c = r.chance(0.5) ? p.xtrue[(size_t)k] : p.x0[(size_t)k], a, b;
        switch (r.below(7)) {
        case 0: a = c - 1; b = c + 1; break;
        case 1: a = c; b = c + 2; break;
        case 2: a = c - 2; b = c; break;
        case 3: a = c + 0.5; b = c + 1.5; break; // active
        case 4: a = -1e20; b = c + 0.25; break;
        case 5: a = c - 0.25; b = 1e20; break;
        default: a = c - 10; b = c + 10;
        }
        if (r.chance(0.06)) b = a > -1e19 ? a : b; // fixed
        p.lo.push_back(f32able(a)); p.hi.push_back(f32able(b));
    }
    if (r.chance(0.15)) s.onelo = true; else if (r.chance(0.15)) s.onehi = true;
}
std::unique_ptr<Scenario> gen(Rng &r) {
    auto s = std::make_unique<NllsS>();
    make_problem(r, s->p);
    if (r.chance(0.4)) make_box(r, *s);
    if (r.chance(0.35)) for (int i = 0; i < s->p.m(); i++) s->p.w.push_back(f32able(r.pick({1.0, 0.5, 2.0, 0.25, r.uni() + 0.1})));
    NOpt &o = s->o;
    o.model = (int)r.in(1, 4); if (r.chance(0.3)) o.model = 3;
    o.glob = r.chance(0.7) ? 1 : 2;
    o.method = r.chance(0.5) ? 0 : o.glob == 1 ? (int)r.pick({0, 2, 3, 4}) : (int)r.pick({0, 1});
    if (o.model == 4 && o.method == 2) o.method = 0;
    if (r.chance(0.3)) { o.reg = r.pick({0.001, 0.01, 0.1, 1.0}); o.power = r.chance(0.5) ? 3 : 2; }
    o.maxit = r.chance(0.7) ? 100 : (int)r.pick({1, 2, 3, 5, 10, 30, 500});
    o.der = (int)r.pick({0, 0, 1, 2});
    if (o.model == 4) o.maxit = (int)r.pick({1, 2, 3, 8, 15});
    o.order = r.chance(0.5);
    o.zero = r.chance(0.08);
    if (r.chance(0.15)) { if (r.chance(0.5)) o.atolf = r.pick({1e-2, 1e-6}); if (r.chance(0.5)) o.rtolf = r.pick({1e-2, 1e-6}); if (r.chance(0.5)) o.atolg = r.pick({1e-2, 1e-4, 1e-7}); if (r.chance(0.5)) o.rtolg = r.pick({1e-1, 1e-3, 1e-6}); if (r.chance(0.3)) o.stol = r.pick({1e-3, 1e-6}); }
    return s;
}
RegScen reg("nlls", gen, 1);

FAMILY(nlls, 600, 30000) {
    std::unique_ptr<Scenario> sc = gen(rng);
    Var v = random_var(rng);
    sc->run(v);
}
} // namespace

// callbacks that fail, and what is left of the handle
template <class T> void fault_t(Rng &rng, Var v) {
    std::unique_ptr<Scenario> sc = gen(rng);
    NllsS &s = *(NllsS *)sc.get();
    NOpt &o = s.o;
    o.zero = false; o.setall = true;
    if (o.model == 4) o.der = 0;
    if (rng.chance(0.15)) { o.check = 1; o.der = o.der == 2 ? 1 : o.der; }
    Outcome R; Handle h;
    R.add("init", DA(da_handle_init)(&h.h, da_handle_nlls));
    s.template options<T>(h, R, v);
    s.reset(v.f32);
    R.add("residuals", s.template residuals<T>(h));
    Buf<T> lo = Buf<T>::vec("lower", s.p.lo), hi = Buf<T>::vec("upper", s.p.hi), w = Buf<T>::vec("weights", s.p.w);
    if (s.box) R.add("bounds", DA(da_nlls_define_bounds)(h, s.p.n, s.onehi ? nullptr : lo.data(), s.onelo ? nullptr : hi.data()));
    if (!s.p.w.empty()) R.add("weights", DA(da_nlls_define_weights)(h, s.p.m(), w.data()));
    for (auto &q : R.st) if (q.second) { fail("nlls:status", "%s: %s gives %d", s.describe().c_str(), q.first.c_str(), q.second); return; }
    auto fit = [&](Res &r) {
        Buf<T> x("coef", s.p.n, 1, column_major, 0);
        for (int i = 0; i < s.p.n; i++) x.data()[i] = (T)s.p.x0[(size_t)i];
        r = Res();
        r.st = DA(da_nlls_fit)(h, s.p.n, x.data(), &s.mon);
        for (int i = 0; i < s.p.n; i++) r.x.push_back((double)x.data()[i]);
        x.verify();
        s.template info<T>(h, r, nullptr);
    };
    // the same without faults
    Res good; fit(good);
    Mon ref = s.mon;
    long calls[4] = {ref.nf, ref.ng, ref.nh, ref.nhp};
    if (!ref.err.empty()) { fail("nlls:callback", "%s: %s", s.describe().c_str(), ref.err.c_str()); return; }
    bool flat = s.box;
    { std::vector<double> x = s.start(v.f32); std::vector<ld> X(x.begin(), x.end()); for (int i = 0; i < s.p.m(); i++) { Jet j = s.p.res(X, i); for (int k = 0; k < s.p.n; k++) flat |= fabsl(j.g[k]) < 1e-2L; } } // a difference quotient is not accurate there
    if (o.check && !v.f32 && !flat) VCHECK(good.st != da_status_bad_derivatives, "nlls:derivatives-refused", "%s%s: correct derivatives are refused", s.describe().c_str(), v.f32 ? " f32" : "");
    for (int round = 0; round < 3; round++) {
        int kind = (int)rng.below(5);
        s.reset(v.f32);
        Mon &M = s.mon;
        std::string what;
        if (kind == 4 || calls[kind % 4] == 0) { // a wrong Jacobian
            if (o.der == 2) continue;
            M.wrongjac = true; what = "wrong Jacobian";
            kind = 4;
        } else {
            M.failkind = kind; M.failat = rng.chance(0.3) ? 0 : (long)rng.below((uint64_t)calls[kind]); M.failforever = rng.chance(0.5); M.failcode = (int)rng.pick({1, -1, 7, 100});
            if (kind == 0 && rng.chance(0.3)) M.failnan = true;
            what = fmt("callback %d fails at call %ld%s with %s", kind, M.failat, M.failforever ? " and later" : "", M.failnan ? "NaN" : fmt("%d", M.failcode).c_str());
        }
        Res r; fit(r);
        std::string D = s.describe() + (v.f32 ? " f32 " : " ") + what;
        if (!s.mon.err.empty()) { fail("nlls:fault-callback", "%s: %s", D.c_str(), s.mon.err.c_str()); return; }
        count(fmt("fault-status-%d", (int)r.st)); count(fmt("fault-kind-%d", kind)); count("faults-fired", s.mon.fired);
        bool ok = r.st == 0, warn = r.st == da_status_maxit || r.st == da_status_numerical_difficulties || r.st == da_status_maxtime || r.st == da_status_optimization_usrstop;
        VCHECK(r.st != da_status_internal_error && r.st != da_status_memory_error, "nlls:fault-status", "%s: fit gives %d", D.c_str(), r.st);
        if (kind == 4) { if (o.check && !s.box && s.supported() && good.st != da_status_operation_failed) VCHECK(r.st == da_status_bad_derivatives, "nlls:bad-derivatives", "%s: checked, fit gives %d", D.c_str(), r.st); }
        else {
            VCHECK((r.ist == 0) == (ok || warn), "nlls:fault-info", "%s: fit gives %d, the information is available with status %d", D.c_str(), r.st, r.ist);
            if (s.mon.fired && M.failat == 0 && kind == 0) VCHECK(!ok || !M.failforever, "nlls:fault-ok", "%s: success although no residual could be evaluated", D.c_str());
            for (int i = 0; i < s.p.n; i++) {
                VCHECK(std::isfinite(r.x[(size_t)i]), "nlls:fault-finite", "%s: coefficient %d is %g (status %d)", D.c_str(), i, r.x[(size_t)i], r.st);
                if (s.box && (ok || warn)) VCHECK(r.x[(size_t)i] >= s.mon.lo[(size_t)i] && r.x[(size_t)i] <= s.mon.hi[(size_t)i], "nlls:fault-feasible", "%s: coefficient %d is %.17g", D.c_str(), i, r.x[(size_t)i]);
            }
            if (ok && r.have && std::isfinite(r.x[0])) {
                NllsS::Obj q = s.eval(r.x), q0 = s.eval(s.start(v.f32));
                ld u = v.f32 ? FLT_EPSILON : DBL_EPSILON;
                VCHECK(q.F <= q0.F + 400 * u * (q.S + q.F + q0.S + q0.F), "nlls:fault-decrease", "%s: the objective is %.10Lg, %.10Lg at the start (status %d)", D.c_str(), q.F, q0.F, r.st);
                VCHECK(fabsl((ld)r.info[0] - q.F) <= 400 * u * (q.S + q.F), "nlls:fault-objective", "%s: the objective is %.10Lg, reported %.10g", D.c_str(), q.F, r.info[0]);
            }
        }
        // and the handle still works
        if (rng.chance(0.5) || round == 2) {
            s.reset(v.f32);
            Res again; fit(again);
            VCHECK(again.st == good.st && again.x == good.x, "nlls:after-fault", "%s: afterwards the fit gives %d x[0]=%.17g, before %d x[0]=%.17g", D.c_str(), again.st, again.x[0], good.st, good.x[0]);
            nontrivial(hstr(D.c_str()));
        }
    }
}
FAMILY(nllsfault, 400, 20000) {
    Var v = random_var(rng);
    v.f32 ? fault_t<float>(rng, v) : fault_t<double>(rng, v);
}

// a handle that has been through other problems and refused calls behaves as a new one
template <class T> void hist_t(Rng &rng, Var v) {
    Handle h;
    if (DA(da_handle_init)(&h.h, da_handle_nlls)) { fail("nlls:status", "init"); return; }
    int phases = (int)rng.in(2, 4);
    std::string log;
    int pn = 0, pm = 0;
    std::unique_ptr<Buf<T>> lo, hi, w; // of the phase, the earlier ones are gone
    for (int ph = 0; ph < phases; ph++) {
        std::unique_ptr<Scenario> sc = gen(rng);
        NllsS &s = *(NllsS *)sc.get();
        s.o.zero = false; s.o.setall = true;
        bool last = ph == phases - 1;
        Outcome R;
        s.template options<T>(h, R, v);
        s.reset(v.f32);
        R.add("residuals", s.template residuals<T>(h));
        auto nlo = std::make_unique<Buf<T>>(Buf<T>::vec("lower", s.p.lo)), nhi = std::make_unique<Buf<T>>(Buf<T>::vec("upper", s.p.hi)), nw = std::make_unique<Buf<T>>(Buf<T>::vec("weights", s.p.w));
        int n = s.p.n, m = s.p.m();
        log += fmt(" | %s", s.describe().substr(5, 60).c_str());
        if (s.box) R.add("bounds", DA(da_nlls_define_bounds)(h, n, s.onehi ? nullptr : nlo->data(), s.onelo ? nullptr : nhi->data()));
        else if (n == pn) R.add("no bounds", DA(da_nlls_define_bounds)(h, 0, (T *)nullptr, (T *)nullptr));
        else if (ph) { log += " (bounds for other features)"; count("bounds-of-other-features"); }
        if (!s.p.w.empty()) R.add("weights", DA(da_nlls_define_weights)(h, m, nw->data()));
        else if (m == pm) R.add("no weights", DA(da_nlls_define_weights)(h, 0, (T *)nullptr));
        else if (ph) { log += " (weights for other residuals)"; count("weights-of-other-residuals"); }
        lo = std::move(nlo); hi = std::move(nhi); w = std::move(nw); pn = n; pm = m;
        for (auto &q : R.st) if (q.second) { fail("nlls:status", "%s: %s gives %d", log.c_str(), q.first.c_str(), q.second); return; }
        // refused calls
        for (int k = (int)rng.below(4); k > 0; k--) {
            std::vector<double> junk((size_t)(n + m + 2), 1.0);
            Buf<T> jb = Buf<T>::vec("junk", junk), jn = Buf<T>::vec("nan", std::vector<double>((size_t)(n + m + 2), NAN));
            da_status st; const char *what = "";
            set_str(h, "check data", "yes");
            switch (rng.below(11)) {
            case 0: what = "bounds of another size"; st = DA(da_nlls_define_bounds)(h, n + 1, jb.data(), jb.data()); break;
            case 1: what = "NaN lower bounds"; st = DA(da_nlls_define_bounds)(h, n, jn.data(), jb.data()); break;
            case 2: what = "weights of another size"; st = DA(da_nlls_define_weights)(h, m + 1, jb.data()); break;
            case 3: what = "NaN weights"; st = DA(da_nlls_define_weights)(h, m, jn.data()); break;
            case 4: what = "no weights given"; st = DA(da_nlls_define_weights)(h, m, (T *)nullptr); break;
            case 5: what = "fit of another size"; st = DA(da_nlls_fit)(h, n + 1, jb.data(), &s.mon); break;
            case 6: what = "fit without coefficients"; st = DA(da_nlls_fit)(h, n, (T *)nullptr, &s.mon); break;
            case 7: what = "fit from NaN"; st = DA(da_nlls_fit)(h, n, jn.data(), &s.mon); break;
            case 8: {
                what = "crossing bounds";
                std::vector<double> a((size_t)n, -1.0), b((size_t)n, 1.0); size_t z = rng.below((uint64_t)n); a[z] = 3; b[z] = 2.5;
                Buf<T> A = Buf<T>::vec("a", a), B = Buf<T>::vec("b", b);
                st = DA(da_nlls_define_bounds)(h, n, A.data(), B.data());
                if (st == 0) st = DA(da_nlls_fit)(h, n, jb.data(), &s.mon);
                if (st && st != da_status_option_invalid_bounds) fail("nlls:crossing", "%s crossing bounds: status %d", log.c_str(), st);
                if (s.box) DA(da_nlls_define_bounds)(h, n, s.onehi ? nullptr : lo->data(), s.onelo ? nullptr : hi->data());
                else DA(da_nlls_define_bounds)(h, 0, (T *)nullptr, (T *)nullptr);
                break;
            }
            case 9: {
                what = "weights not positive";
                std::vector<double> a((size_t)m, 1.0); a[rng.below((uint64_t)m)] = rng.pick({0.0, -1.0, 1e-12});
                Buf<T> A = Buf<T>::vec("a", a);
                st = DA(da_nlls_define_weights)(h, m, A.data());
                if (st == 0) st = DA(da_nlls_fit)(h, n, jb.data(), &s.mon);
                s.reset(v.f32);
                if (!s.p.w.empty()) DA(da_nlls_define_weights)(h, m, w->data());
                else DA(da_nlls_define_weights)(h, 0, (T *)nullptr);
                break;
            }
            default: what = "no residual function"; st = DA(da_nlls_define_residuals)(h, n, m, (std::conditional_t<std::is_same<T, double>::value, da_resfun_t_d, da_resfun_t_s> *)nullptr, nullptr, nullptr, nullptr);
            }
            set_str(h, "check data", "no");
            log += fmt(" +%s", what);
            VCHECK(st != 0, "nlls:accepted", "%s: accepted", log.c_str());
            VCHECK(s.mon.nf == 0, "nlls:refused-runs", "%s: callbacks were called", log.c_str());
            jb.verify(); jn.verify();
            count("refused");
            T b[100]; da_int dim = 100;
            if (ph == 0) VCHECK(DA(da_handle_get_result)(h, da_rinfo, &dim, b) != 0, "nlls:refused-result", "%s: information is available though nothing was fitted", log.c_str());
        }
        if (!last && rng.chance(0.3)) continue; // defined and never fitted
        if (!last && rng.chance(0.4)) { s.mon.failkind = (int)rng.below(2); s.mon.failat = (long)rng.below(4); s.mon.failforever = true; s.mon.failcode = 3; log += " +failing"; }
        auto fit = [&](Handle &H, Res &r) {
            Buf<T> x("coef", n, 1, column_major, 0);
            for (int i = 0; i < n; i++) x.data()[i] = (T)s.p.x0[(size_t)i];
            r = Res();
            r.st = DA(da_nlls_fit)(H, n, x.data(), &s.mon);
            for (int i = 0; i < n; i++) r.x.push_back((double)x.data()[i]);
            s.template info<T>(H, r, nullptr);
        };
        Res a; fit(h, a);
        bool warn = a.st == da_status_maxit || a.st == da_status_numerical_difficulties || a.st == da_status_maxtime || a.st == da_status_optimization_usrstop;
        VCHECK((a.ist == 0) == (a.st == 0 || warn), "nlls:hist-info", "%s: fit gives %d and then the information has status %d", log.c_str(), a.st, a.ist);
        if (!last || s.mon.failkind >= 0) continue;
        // a new handle
        s.reset(v.f32);
        Handle g; Outcome Q;
        DA(da_handle_init)(&g.h, da_handle_nlls);
        s.template options<T>(g, Q, v);
        s.template residuals<T>(g);
        if (s.box) DA(da_nlls_define_bounds)(g, n, s.onehi ? nullptr : lo->data(), s.onelo ? nullptr : hi->data());
        if (!s.p.w.empty()) DA(da_nlls_define_weights)(g, m, w->data());
        Res b; fit(g, b);
        VCHECK(a.st == b.st, "nlls:hist-status", "%s: fit gives %d, %d with a new handle", log.c_str(), a.st, b.st);
        VCHECK(a.x == b.x, "nlls:hist-coef", "%s: x[0] = %.17g, %.17g with a new handle", log.c_str(), a.x[0], b.x[0]);
        if (a.have && b.have) for (int i = 0; i < 10; i++) if (i != 3) VCHECK(a.info[(size_t)i] == b.info[(size_t)i] || (std::isnan(a.info[(size_t)i]) && std::isnan(b.info[(size_t)i])), "nlls:hist-info", "%s: information %d is %g, %g with a new handle", log.c_str(), i, a.info[(size_t)i], b.info[(size_t)i]);
        count("histories"); nontrivial(hstr(log.c_str()));
    }
}
FAMILY(nllshist, 400, 20000) {
    Var v = random_var(rng);
    v.f32 ? hist_t<float>(rng, v) : hist_t<double>(rng, v);
}
