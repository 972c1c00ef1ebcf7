// C32: cubic splines. Reference: the tridiagonal system solved in long double with a componentwise
// error bound (the system is diagonally dominant, so the bound follows from its comparison matrix).
#include "vt.hpp"
using namespace vt;
typedef long double ld_t;
namespace {
DAF(da_interpolation_set_sites) DAF(da_interpolation_set_sites_uniform) DAF(da_interpolation_set_values)
DAF(da_interpolation_search_cells) DAF(da_interpolation_interpolate) DAF(da_interpolation_set_boundary_conditions)
DAF(da_interpolation_evaluate) DAF(da_interpolation_select_model)

enum Type { NATURAL, CLAMPED, CUSTOM, HERMITE };
const char *tyname[] = {"natural", "clamped zero", "custom", "hermite"};
struct Model {
    std::vector<double> x; // explicit sites, or empty
    bool uniform = false; double xs = 0, xe = 0; int64_t n = 0;
    LM y, yp; // n x dim
    int type = NATURAL, lo = 2, ro = 2;
    std::vector<double> lb, rb;
    int64_t dim() const { return y.m; }
    ld_t h(int64_t i) const { return uniform ? ((ld_t)xe - xs) / (n - 1) : (ld_t)x[i + 1] - x[i]; }
    ld_t site(int64_t i) const { return uniform ? xs + i * (((ld_t)xe - xs) / (n - 1)) : (ld_t)x[i]; }
};
// Thomas algorithm
void thomas(std::vector<ld_t> lo, std::vector<ld_t> d, std::vector<ld_t> up, std::vector<ld_t> &r) {
    size_t n = d.size();
    for (size_t i = 1; i < n; i++) { ld_t f = lo[i - 1] / d[i - 1]; d[i] -= f * up[i - 1]; r[i] -= f * r[i - 1]; }
    r[n - 1] /= d[n - 1];
    for (size_t i = n - 1; i-- > 0;) r[i] = (r[i] - up[i] * r[i + 1]) / d[i];
}
// reference coefficients and tolerances for dimension k, 4 per interval
template <class T> void ref_coeffs(const Model &m, int64_t k, std::vector<ld_t> &co, std::vector<ld_t> &tol) {
    int64_t n = m.n;
    ld_t u = sizeof(T) == 8 ? 0x1p-53L : 0x1p-24L, C = 24 * u;
    ld_t tiny = sizeof(T) == 8 ? 1e-290L : 1e-34L;
    co.assign(4 * (n - 1), 0); tol.assign(4 * (n - 1), 0);
    if (m.type == HERMITE) {
        for (int64_t i = 0; i < n - 1; i++) {
            ld_t h = m.h(i), dy = (ld_t)m.y(i + 1, k) - m.y(i, k), p = m.yp(i, k), q = m.yp(i + 1, k);
            co[4 * i] = m.y(i, k); co[4 * i + 1] = p;
            co[4 * i + 2] = 3 * dy / (h * h) - (2 * p + q) / h;
            co[4 * i + 3] = -2 * dy / (h * h * h) + (p + q) / (h * h);
            tol[4 * i + 2] = C * (3 * fabsl(dy) / (h * h) + (2 * fabsl(p) + fabsl(q)) / h) + tiny;
            tol[4 * i + 3] = C * (2 * fabsl(dy) / (h * h * h) + (fabsl(p) + fabsl(q)) / (h * h)) + tiny;
        }
        return;
    }
    std::vector<ld_t> d(n), up(n - 1), lo(n - 1), r(n), rm(n), s(n - 1);
    for (int64_t i = 0; i < n - 1; i++) s[i] = ((ld_t)m.y(i + 1, k) - m.y(i, k)) / m.h(i);
    for (int64_t i = 0; i < n - 1; i++) up[i] = lo[i] = m.h(i);
    for (int64_t i = 1; i < n - 1; i++) { d[i] = 2 * (m.h(i - 1) + m.h(i)); r[i] = 6 * s[i] - 6 * s[i - 1]; rm[i] = 6 * fabsl(s[i]) + 6 * fabsl(s[i - 1]); }
    auto first = [&](int64_t i, ld_t v) { // first derivative v at the end i
        if (i == 0) { d[0] = 2 * m.h(0); r[0] = 6 * s[0] - 6 * v; rm[0] = 6 * fabsl(s[0]) + 6 * fabsl(v); }
        else { d[i] = 2 * m.h(i - 1); r[i] = 6 * v - 6 * s[i - 1]; rm[i] = 6 * fabsl(s[i - 1]) + 6 * fabsl(v); }
    };
    auto second = [&](int64_t i, ld_t v) {
        d[i] = 1; r[i] = v; rm[i] = fabsl(v);
        if (i == 0) up[0] = 0; else lo[n - 2] = 0;
    };
    if (m.type == NATURAL) { second(0, 0); second(n - 1, 0); }
    else if (m.type == CLAMPED) { first(0, 0); first(n - 1, 0); }
    else {
        if (m.lo == 1) first(0, m.lb[k]); else second(0, m.lb[k]);
        if (m.ro == 1) first(n - 1, m.rb[k]); else second(n - 1, m.rb[k]);
    }
    std::vector<ld_t> z = r;
    thomas(lo, d, up, z);
    // error bound: comparison matrix e = C (|A||z| + |rhs|)
    std::vector<ld_t> e(n), nlo(n - 1), nup(n - 1);
    for (int64_t i = 0; i < n - 1; i++) { nlo[i] = -lo[i]; nup[i] = -up[i]; }
    for (int64_t i = 0; i < n; i++) {
        e[i] = d[i] * fabsl(z[i]) + rm[i];
        if (i) e[i] += lo[i - 1] * fabsl(z[i - 1]);
        if (i < n - 1) e[i] += up[i] * fabsl(z[i + 1]);
    }
    for (int64_t i = 0; i < n; i++) e[i] = C * e[i] + tiny;
    thomas(nlo, d, nup, e);
    for (int64_t i = 0; i < n - 1; i++) {
        ld_t h = m.h(i), z0 = z[i], z1 = z[i + 1], a0 = fabsl(z0), a1 = fabsl(z1);
        co[4 * i] = m.y(i, k);
        co[4 * i + 1] = s[i] - h * z1 / 6 - h * z0 / 3;
        co[4 * i + 2] = z0 / 2;
        co[4 * i + 3] = (z1 - z0) / (6 * h);
        tol[4 * i + 1] = C * (fabsl(s[i]) + h * a1 / 6 + h * a0 / 3) + h * (e[i + 1] / 6 + e[i] / 3) + tiny;
        tol[4 * i + 2] = C * a0 + e[i] + tiny;
        tol[4 * i + 3] = (C * (a0 + a1) + e[i] + e[i + 1]) / (6 * h) + tiny;
    }
}
template <class T> bool valid_cell(const Model &m, int64_t c, double q) {
    if (c < 0 || c > m.n - 2) return false;
    ld_t tol = m.uniform ? 32 * (sizeof(T) == 8 ? 0x1p-53L : 0x1p-24L) * std::max(fabsl(m.xs), fabsl(m.xe)) : 0;
    if (std::isnan(q)) return true;
    return (c == 0 || m.site(c) - tol <= q) && (c == m.n - 2 || q <= m.site(c + 1) + tol);
}
int64_t near_cell(const Model &m, double q) {
    int64_t lo = 0, hi = m.n - 1;
    while (hi - lo > 1) { int64_t md = (lo + hi) / 2; if (q < m.site(md)) hi = md; else lo = md; }
    return lo;
}
template <class T> double nxt(double v, double to) { return (double)std::nextafter((T)v, (T)to); }
template <class T> std::vector<double> queries(const Model &m, Rng &r, bool far) {
    std::vector<double> q;
    ld_t a = m.site(0), b = m.site(m.n - 1);
    int64_t k = r.in(1, 40);
    for (int64_t i = 0; i < k; i++) {
        double v;
        switch (r.below(far ? 8 : 6)) {
        case 0: v = (double)m.site(r.below(m.n)); break;
        case 1: v = nxt<T>((double)m.site(r.below(m.n)), r.chance(0.5) ? 1e300 : -1e300); break;
        case 2: { int64_t c = r.below(m.n - 1); v = (double)(m.site(c) + m.h(c) * r.uni()); break; }
        case 3: v = (double)(a - (b - a) * r.uni() * 0.3L); break;
        case 4: v = (double)(b + (b - a) * r.uni() * 0.3L); break;
        case 5: v = (double)(a + (b - a) * r.uni()); break;
        case 6: v = r.chance(0.5) ? 1e30 : -1e30; break;
        default: v = r.chance(0.3) ? NAN : r.chance(0.5) ? INFINITY : -INFINITY;
        }
        q.push_back((double)(T)v);
    }
    return q;
}
// search, coefficients and evaluation on a handle that is fitted for the model
template <class T> void check_handle(da_handle h, const Model &m, Rng &r, const std::string &d) {
    ld_t u = sizeof(T) == 8 ? 0x1p-53L : 0x1p-24L;
    int64_t n = m.n, dim = m.dim();
    // cells
    {
        auto q = queries<T>(m, r, true);
        auto Q = Buf<T>::vec("x_eval", q);
        Buf<da_int> c("cells", (int64_t)q.size(), 1);
        da_status s = DA(da_interpolation_search_cells)(h, (da_int)q.size(), Q.data(), c.data());
        Q.verify();
        VCHECK(s == da_status_success, "search-status", "%s: search_cells returned %s", d.c_str(), stname(s));
        if (s == da_status_success)
            for (size_t i = 0; i < q.size(); i++) {
                if (std::isnan(q[i]) ? (c.p[i] < 0 || c.p[i] > n - 2) : !valid_cell<T>(m, c.p[i], q[i])) {
                    int64_t e = near_cell(m, q[i]);
                    fail("cell", "%s: query %.17g assigned to cell %d, expected %lld [%.17Lg,%.17Lg]", d.c_str(), q[i], (int)c.p[i], (long long)e, m.site(e), m.site(e + 1));
                    break;
                }
                count("cells");
            }
    }
    auto ri = get_real<T>(h, da_rinfo);
    VCHECK(ri.size() == 1 && ri[0] == (double)n, "rinfo", "%s: da_rinfo is %g for %lld sites", d.c_str(), ri.empty() ? NAN : ri[0], (long long)n);
    auto tr = get_int(h, da_trained);
    VCHECK(tr.size() == 1 && tr[0] == 1, "trained", "%s: da_trained is not 1 after interpolate", d.c_str());
    auto co = get_real<T>(h, da_cubic_spline_coefficients);
    if ((int64_t)co.size() != 4 * (n - 1) * dim) { fail("coeff-size", "%s: %zu coefficients", d.c_str(), co.size()); return; }
    for (int64_t k = 0; k < dim; k++) {
        std::vector<ld_t> rc, tl;
        ref_coeffs<T>(m, k, rc, tl);
        for (int64_t j = 0; j < 4 * (n - 1); j++) {
            ld_t e = fabsl((ld_t)co[k * 4 * (n - 1) + j] - rc[j]);
            if (!(e <= tl[j]) && std::isfinite((double)(T)(double)rc[j]) && std::isfinite((double)(T)(double)tl[j])) {
                fail(j % 4 == 0 ? "value" : "coefficient", "%s: coefficient %lld of interval %lld, dimension %lld is %.17g, expected %.17Lg (tolerance %.3Lg)", d.c_str(), (long long)(j % 4), (long long)(j / 4), (long long)k, co[k * 4 * (n - 1) + j], rc[j], tl[j]);
                return;
            }
            count("coefficients");
        }
    }
    // evaluation
    auto q = queries<T>(m, r, r.chance(0.1));
    int64_t nq = q.size();
    std::vector<da_int> ord;
    for (int o = 0; o < 4; o++) if (r.chance(0.55)) ord.push_back(o);
    if (ord.empty()) ord.push_back((da_int)r.below(4));
    std::vector<da_int> sorted = ord;
    if (r.chance(0.4)) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
    auto Q = Buf<T>::vec("x_eval", q);
    Buf<T> Y("y_eval", nq * dim * (int64_t)ord.size(), 1);
    std::unique_ptr<da_int[]> op(new da_int[ord.size()]);
    std::copy(ord.begin(), ord.end(), op.get());
    da_status s = DA(da_interpolation_evaluate)(h, (da_int)nq, Q.data(), Y.data(), (da_int)ord.size(), op.get());
    Q.verify();
    if (s) { fail("eval-status", "%s: evaluate returned %s", d.c_str(), stname(s)); return; }
    for (size_t o = 0; o < sorted.size(); o++)
        for (int64_t k = 0; k < dim; k++)
            for (int64_t i = 0; i < nq; i++) {
                double got = (double)Y.p[(int64_t)o * nq * dim + k * nq + i];
                if (is_sentinel(Y.p[(int64_t)o * nq * dim + k * nq + i])) { fail("eval-unwritten", "%s: output of order %d, dimension %lld, query %lld not written", d.c_str(), (int)sorted[o], (long long)k, (long long)i); return; }
                if (!std::isfinite(q[i])) continue;
                bool ok = false; ld_t want = 0, wt = 0;
                int64_t c0 = near_cell(m, q[i]);
                for (int64_t c = c0 - 1; c <= c0 + 1 && !ok; c++) {
                    if (!valid_cell<T>(m, c, q[i])) continue;
                    const double *p = &co[k * 4 * (n - 1) + 4 * c];
                    ld_t t = (ld_t)q[i] - m.site(c), at = fabsl(t), v, mag, der;
                    ld_t dt = u * at + (m.uniform ? 8 * u * std::max(fabsl(m.xs), fabsl(m.xe)) : 0);
                    ld_t A = p[3], B = p[2], Cc = p[1], D = p[0], aA = fabsl(A), aB = fabsl(B), aC = fabsl(Cc);
                    switch (sorted[o]) {
                    case 0: v = D + t * (Cc + t * (B + t * A)); mag = fabsl(D) + at * (aC + at * (aB + at * aA)); der = aC + at * (2 * aB + 3 * aA * at); break;
                    case 1: v = Cc + t * (2 * B + t * 3 * A); mag = aC + at * (2 * aB + at * 3 * aA); der = 2 * aB + 6 * aA * at; break;
                    case 2: v = 2 * B + 6 * A * t; mag = 2 * aB + 6 * aA * at; der = 6 * aA; break;
                    default: v = 6 * A; mag = 6 * aA; der = 0;
                    }
                    ld_t tol = 16 * u * mag + 2 * dt * (der + dt * (6 * aB + 12 * aA * (at + dt))) + (sizeof(T) == 8 ? 1e-290L : 1e-34L);
                    if (c == c0) { want = v; wt = tol; }
                    if (!(fabsl(got - v) > tol) || !std::isfinite((double)(T)(double)(mag * 8))) ok = std::isfinite(got) || !std::isfinite((double)(T)(double)(mag * 8));
                }
                if (!ok) { fail("eval", "%s: derivative %d of dimension %lld at %.17g is %.17g, expected %.17Lg (tolerance %.3Lg)", d.c_str(), (int)sorted[o], (long long)k, q[i], got, want, wt); return; }
                count("evaluations");
            }
    if (n > 2) nontrivial(hmix(hbytes(co.data(), co.size() * 8), (uint64_t)nq));
}
// smoothness of the outputs themselves: values and derivatives met from both sides of each site
std::vector<double> gen_sites(Rng &r, int64_t n, std::string &nm) {
    std::vector<double> x(n);
    int kind = (int)r.below(7);
    double s = r.pick({1e-3, 0.1, 1.0, 1.0, 10.0, 1e3}), x0 = r.pick({0.0, 0.0, -1.0, 5.0, -100.0, 1000.0});
    double step = f32(s * r.uni(0.5, 1.5));
    for (int64_t i = 0; i < n; i++) {
        double g;
        switch (kind) {
        case 0: g = s * r.uni(0.1, 1.0); nm = "random"; break;
        case 1: g = step; nm = "equal"; break;
        case 2: g = s * std::pow(10.0, r.uni(-3, 1)); nm = "uneven"; break;
        case 3: g = s * std::pow(i < n / 2 ? 0.9 : 1.1, (double)std::min<int64_t>(i < n / 2 ? i : i - n / 2, 60)) * 0.1; nm = "graded"; break;
        case 4: g = r.chance(0.3) ? 0 : s; nm = "adjacent"; break; // 0: the next representable number
        case 5: g = r.chance(0.05) ? 100 * s : s * 0.01; nm = "clusters"; break;
        default: g = s * (double)r.in(1, 4); nm = "lattice";
        }
        x[i] = i == 0 ? f32(x0 + (kind == 6 ? 0 : r.norm())) : kind == 1 ? f32(x[0] + i * step) : f32(x[i - 1] + g);
        if (i && x[i] <= x[i - 1]) x[i] = (double)nextafterf((float)x[i - 1], INFINITY);
    }
    return x;
}
LM gen_vals(Rng &r, int64_t n, int64_t dim) {
    LM y(n, dim);
    for (int64_t k = 0; k < dim; k++) {
        int kind = (int)r.below(5);
        double s = f32(r.pick({1.0, 1.0, 100.0, 1e-3}));
        for (int64_t i = 0; i < n; i++)
            switch (kind) {
            case 0: y(i, k) = f32(s * r.norm()); break;
            case 1: y(i, k) = f32(s * std::sin(0.3 * i + k)); break;
            case 2: y(i, k) = s; break;
            case 3: y(i, k) = (double)r.in(-3, 3); break;
            default: y(i, k) = f32(s * (1000 + r.uni()));
            }
    }
    return y;
}
std::string desc(const Model &m, const std::string &sn) {
    return fmt("%s spline, %lld sites (%s) dim=%lld bc=%d,%d", tyname[m.type], (long long)m.n, m.uniform ? "uniform" : sn.c_str(), (long long)m.dim(), m.lo, m.ro);
}
void gen_model(Rng &r, Model &m, std::string &sn, int64_t maxn) {
    m.n = r.size(2, maxn);
    m.uniform = r.chance(0.3);
    if (m.uniform) {
        m.xs = f32(r.pick({0.0, -1.0, 2.5, 1000.0}) + r.norm());
        m.xe = f32(m.xs + r.pick({1.0, 10.0, 1e-2, 1e4}) * r.uni(0.5, 1.5));
        if (m.xe - m.xs < 1e-5 * std::max(fabs(m.xs), fabs(m.xe)) * m.n) m.xe = f32(m.xs + 10);
    } else m.x = gen_sites(r, m.n, sn);
    int64_t dim = r.pick({1, 1, 2, 3, 5});
    m.y = gen_vals(r, m.n, dim); m.yp = gen_vals(r, m.n, dim);
    m.type = (int)r.below(4);
    m.lo = (int)r.in(1, 2); m.ro = (int)r.in(1, 2);
    for (int64_t k = 0; k < dim; k++) { m.lb.push_back(f32(3 * r.norm())); m.rb.push_back(f32(3 * r.norm())); }
}

struct Spline : Scenario {
    Model m; std::string sn; uint64_t qs;
    std::string describe() const override { return desc(m, sn); }
    double tol_layout() const override { return 1e-9; }
    double tol_f32() const override { return !m.uniform && (sn == "equal" || sn == "random" || sn == "lattice") ? 0.2 : 0; }
    template <class T> Outcome run_t(const Var &v) const {
        Outcome o;
        Handle h;
        o.add("init", DA(da_handle_init)(&h.h, da_handle_interpolation));
        o.add("model", DA(da_interpolation_select_model)(h, interpolation_cubic_spline));
        hook<T>(h, "init");
        set_str(h, "storage order", v.order == row_major ? "row-major" : "column-major");
        if (v.check_data) set_str(h, "check data", "yes");
        auto X = Buf<T>::vec("x", m.x);
        auto Y = Buf<T>::input("y", m.y, v.order, v.pad), YP = Buf<T>::input("yp", m.yp, v.order, v.pad ? v.pad + 1 : 0);
        if (m.uniform) o.add("sites", DA(da_interpolation_set_sites_uniform)(h, (da_int)m.n, (T)m.xs, (T)m.xe));
        else o.add("sites", DA(da_interpolation_set_sites)(h, (da_int)m.n, X.data()));
        o.add("values", DA(da_interpolation_set_values)(h, (da_int)m.n, (da_int)m.dim(), Y.data(), Y.ldi(), 0));
        if (m.type == HERMITE) o.add("deriv", DA(da_interpolation_set_values)(h, (da_int)m.n, (da_int)m.dim(), YP.data(), YP.ldi(), 1));
        if (m.type == CUSTOM) {
            auto L = Buf<T>::vec("left", m.lb), R = Buf<T>::vec("right", m.rb);
            o.add("bc", DA(da_interpolation_set_boundary_conditions)(h, (da_int)m.dim(), m.lo, L.data(), m.ro, R.data()));
        } else set_str(h, "cubic spline type", tyname[m.type]);
        for (int k = 0; k <= v.refit; k++) {
            if (k) o.add("values", DA(da_interpolation_set_values)(h, (da_int)m.n, (da_int)m.dim(), Y.data(), Y.ldi(), 0));
            o.add("interp", DA(da_interpolation_interpolate)(h));
        }
        X.verify(); Y.verify(); YP.verify();
        if (!o.ok()) return o;
        hook<T>(h, "computed");
        o.real("coeff", get_real<T>(h, da_cubic_spline_coefficients, &o));
        Rng r(qs);
        auto q = queries<float>(m, r, false);
        auto Q = Buf<T>::vec("x_eval", q);
        Buf<T> E("y_eval", (int64_t)q.size() * m.dim(), 1);
        da_int ord[1] = {0};
        o.add("eval", DA(da_interpolation_evaluate)(h, (da_int)q.size(), Q.data(), E.data(), 1, ord));
        o.real("eval", E.vecd());
        hook<T>(h, "end");
        if (S.opts["meta"].empty()) { Rng r2(qs); check_handle<T>(h, m, r2, describe() + " " + v.str()); }
        return o;
    }
    RUN_DISPATCH
};
std::unique_ptr<Scenario> gen_spline(Rng &r) {
    auto s = std::make_unique<Spline>();
    gen_model(r, s->m, s->sn, S.thorough ? 300 : 120);
    s->qs = r.u64();
    return s;
}
RegScen rs("spline", gen_spline, 1);
FAMILY(spline, 4000, 60000) {
    auto s = gen_spline(rng);
    Var v = random_var(rng);
    Outcome o = s->run(v);
    if (!o.ok()) fail("status", "%s: %s", s->describe().c_str(), o.statuses().c_str());
    count("splines");
    sample(s->describe() + " " + v.str());
}

// Histories of calls on one handle against a model of the documented state.
template <class T> void history(Rng &r) {
    Handle h;
    DA(da_handle_init)(&h.h, da_handle_interpolation);
    std::string sn, log;
    Model base;
    gen_model(r, base, sn, 40);
    Model m = base;
    m.y = LM(); m.yp = LM();
    bool model = false, sites = false, values = false, derivs = false, bc = false, trained = false;
    int64_t nset = 0; // number of sites known to the handle
    da_order ord = column_major;
    std::vector<std::unique_ptr<Buf<T>>> keep;
    int type = NATURAL;
    auto expect = [&](const char *what, da_status s, bool ok) {
        log += fmt("%s=%s;", what, stname(s));
        if (ok != (s == da_status_success)) fail(std::string("history-") + what, "%s returned %s where %s was expected after %s", what, stname(s), ok ? "success" : "an error", log.c_str());
    };
    int len = (int)r.in(6, 40);
    bool plan = r.chance(0.7);
    for (int step = 0; step < len && S.nviol < 20; step++) {
        // a usual beginning most of the time
        static const int usual[] = {0, 1, 3, 5, 7, 8, 9, 13};
        switch (plan && step < 8 ? usual[step] : (int)r.below(17)) {
        case 0: { // model
            int mm = (int)r.in(0, 3);
            da_status s = DA(da_interpolation_select_model)(h, (da_interpolation_model)(mm == 3 ? 1 : mm));
            bool ok = !model && (mm == 1 || mm == 3);
            if (mm == 0 && !model && s == da_status_success) ok = true; // nothing selected
            expect("select", s, ok);
            if (mm == 1 || mm == 3) model = true;
            break;
        }
        case 1: { // sites
            if (base.uniform) { expect("uniform", DA(da_interpolation_set_sites_uniform)(h, (da_int)base.n, (T)base.xs, (T)base.xe), model && !sites); }
            else {
                keep.push_back(std::make_unique<Buf<T>>(Buf<T>::vec("x", base.x)));
                expect("sites", DA(da_interpolation_set_sites)(h, (da_int)base.n, keep.back()->data()), model && !sites);
            }
            if (model && !sites) { sites = true; nset = base.n; trained = false; }
            break;
        }
        case 2: { // refused sites
            int64_t n = r.in(2, 12);
            std::vector<double> x = gen_sites(r, n, sn);
            std::string bad; bool b = true;
            if (r.chance(0.5)) { int64_t i = r.in(1, n - 1); x[i] = r.chance(0.3) ? NAN : r.chance(0.5) ? x[i - 1] : x[i - 1] - 1; }
            else if (r.chance(0.5)) { n = r.in(-1, 1); }
            else b = false;
            if (!b) { expect("nullsites", DA(da_interpolation_set_sites)(h, (da_int)n, nullptr), false); break; }
            auto X = Buf<T>::vec("x", x);
            expect("badsites", DA(da_interpolation_set_sites)(h, (da_int)n, X.data()), false);
            if (r.chance(0.3)) { T a = r.chance(0.3) ? (T)NAN : (T)1, bb = r.chance(0.5) ? (T)1 : (T)-2; expect("baduniform", DA(da_interpolation_set_sites_uniform)(h, (da_int)r.in(-1, 9), a, bb), false); }
            break;
        }
        case 3: case 4: { // values
            int64_t dim = r.chance(0.7) ? base.y.m : r.in(1, 4);
            LM y = gen_vals(r, base.n, dim);
            keep.push_back(std::make_unique<Buf<T>>(Buf<T>::input("y", y, ord, r.below(4))));
            expect("values", DA(da_interpolation_set_values)(h, (da_int)base.n, (da_int)dim, keep.back()->data(), keep.back()->ldi(), 0), model);
            if (model) { m.y = y; values = true; nset = base.n; trained = false; }
            break;
        }
        case 5: { // derivatives
            int64_t dim = r.chance(0.8) && values ? m.y.m : r.in(1, 4);
            LM y = gen_vals(r, base.n, dim);
            keep.push_back(std::make_unique<Buf<T>>(Buf<T>::input("yp", y, ord, r.below(4))));
            expect("derivs", DA(da_interpolation_set_values)(h, (da_int)base.n, (da_int)dim, keep.back()->data(), keep.back()->ldi(), 1), model);
            if (model) { m.yp = y; derivs = true; nset = base.n; trained = false; }
            break;
        }
        case 6: { // refused values
            LM y = gen_vals(r, base.n + 2, 2);
            auto Y = Buf<T>::input("y", y, column_major, 0);
            switch (r.below(5)) {
            case 0: expect("badld", DA(da_interpolation_set_values)(h, (da_int)base.n, 2, Y.data(), ord == row_major ? 1 : (da_int)base.n - 1, 0), false); break;
            case 1: expect("nully", DA(da_interpolation_set_values)(h, (da_int)base.n, 2, nullptr, (da_int)base.n, 0), false); break;
            case 2: expect("badorder", DA(da_interpolation_set_values)(h, (da_int)base.n, 1, Y.data(), (da_int)base.n, r.chance(0.5) ? 2 : -1), false); break;
            case 3: if (nset) expect("badn", DA(da_interpolation_set_values)(h, (da_int)base.n + 1, 1, Y.data(), (da_int)base.n + 2, (da_int)r.below(2)), false); break;
            default: expect("baddim", DA(da_interpolation_set_values)(h, (da_int)base.n, 0, Y.data(), (da_int)base.n, 0), false);
            }
            break;
        }
        case 7: { // boundary conditions
            int64_t dim = r.chance(0.8) && values ? m.y.m : r.in(1, 4);
            std::vector<double> l, q;
            for (int64_t k = 0; k < dim; k++) { l.push_back(f32(r.norm())); q.push_back(f32(r.norm())); }
            auto L = Buf<T>::vec("left", l), R = Buf<T>::vec("right", q);
            int lo = (int)r.in(0, 3), ro = (int)r.in(1, 2);
            bool ok = model && lo >= 1 && lo <= 2 && !(values && dim != m.y.m);
            expect("bc", DA(da_interpolation_set_boundary_conditions)(h, (da_int)dim, lo, L.data(), ro, R.data()), ok);
            if (ok) { m.lo = lo; m.ro = ro; m.lb = l; m.rb = q; bc = true; type = CUSTOM; trained = false; }
            break;
        }
        case 8: { // options
            if (r.chance(0.4)) { ord = r.chance(0.5) ? row_major : column_major; expect("order", set_str(h, "storage order", ord == row_major ? "row-major" : "column-major"), true); trained = false; }
            else if (r.chance(0.15)) expect("badtype", set_str(h, "cubic spline type", "quintic"), false), trained = trained && model && get_int(h, da_trained) == std::vector<double>{1};
            else { type = (int)r.below(4); expect("type", set_str(h, "cubic spline type", tyname[type]), true); trained = false; }
            log += fmt("[%s]", tyname[type]);
            break;
        }
        case 9: case 10: case 11: { // interpolate
            bool ok = model && sites && values;
            if (ok && !trained) {
                if (type == CUSTOM) ok = bc && (int64_t)m.lb.size() == m.y.m;
                if (type == HERMITE) ok = derivs && m.yp.m == m.y.m;
            }
            m.type = type;
            expect("interpolate", DA(da_interpolation_interpolate)(h), ok);
            if (ok) trained = true;
            break;
        }
        case 12: { // refused evaluations
            T xe[2] = {(T)0.5, (T)1}, ye[64]; da_int o[2] = {0, 1}, bo[2] = {0, 4};
            switch (r.below(5)) {
            case 0: expect("eval0", DA(da_interpolation_evaluate)(h, 0, xe, ye, 1, o), false); break;
            case 1: expect("evalnull", DA(da_interpolation_evaluate)(h, 2, nullptr, ye, 1, o), false); break;
            case 2: expect("evalnull2", DA(da_interpolation_evaluate)(h, 2, xe, nullptr, 1, o), false); break;
            case 3: expect("evalorders", DA(da_interpolation_evaluate)(h, 2, xe, ye, 2, bo), false); break;
            default: { da_int c[1]; expect("search0", DA(da_interpolation_search_cells)(h, 0, xe, c), false); }
            }
            break;
        }
        default: {
            auto tr = get_int(h, da_trained);
            if (model) VCHECK(tr.size() == 1 && tr[0] == (trained ? 1 : 0), "history-trained", "da_trained is %g, expected %d after %s", tr.empty() ? -1.0 : tr[0], trained, log.c_str());
            if (trained) { m.type = type; check_handle<T>(h, m, r, "history " + desc(m, sn)); count("history_checks"); }
            else {
                T xe[1] = {(T)0.5}, ye[64]; da_int o[1] = {0};
                expect("early", DA(da_interpolation_evaluate)(h, 1, xe, ye, 1, o), false);
                da_int d = 1; T res[1];
                expect("earlyresult", DA(da_handle_get_result)(h, da_rinfo, &d, res), false);
            }
        }
        }
        count("history_steps");
    }
    for (auto &k : keep) k->verify();
}
FAMILY(splinehist, 4000, 60000) {
    if (rng.chance(0.5)) history<double>(rng); else history<float>(rng);
    nontrivial(hmix(rng.s, 7));
}
} // namespace
