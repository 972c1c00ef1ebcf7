// Properties of every part of the library, decided over all the scenarios: C01, C02, C03, C05, C06, C07, C09, C10
#include "vt.hpp"
#include <alloca.h>
#include <dirent.h>
#include <malloc.h>
using namespace vt;
DAF(da_nn_set_data) DAF(da_nn_set_targets) DAF(da_nn_set_labels) DAF(da_nn_kneighbors) DAF(da_nn_radius_neighbors) DAF(da_nn_classes) DAF(da_nn_classifier_predict_proba) DAF(da_nn_classifier_predict) DAF(da_nn_regressor_predict)
DAF(da_tree_set_training_data) DAF(da_tree_fit) DAF(da_tree_predict) DAF(da_tree_predict_proba) DAF(da_tree_predict_log_proba) DAF(da_tree_score)
DAF(da_forest_set_training_data) DAF(da_forest_fit) DAF(da_forest_predict) DAF(da_forest_predict_proba) DAF(da_forest_predict_log_proba) DAF(da_forest_score)
DAF(da_kmeans_set_data) DAF(da_kmeans_set_init_centres) DAF(da_kmeans_compute) DAF(da_kmeans_transform) DAF(da_kmeans_predict)
DAF(da_dbscan_set_data) DAF(da_dbscan_compute)
DAF(da_pca_set_data) DAF(da_pca_compute) DAF(da_pca_transform) DAF(da_pca_inverse_transform)
DAF(da_kernel_pca_set_data) DAF(da_kernel_pca_compute) DAF(da_kernel_pca_transform) DAF(da_kernel_pca_inverse_transform)
DAF(da_svm_select_model) DAF(da_svm_set_data) DAF(da_svm_compute) DAF(da_svm_predict) DAF(da_svm_decision_function) DAF(da_svm_score) DAF(da_svm_predict_proba) DAF(da_svm_predict_log_proba)
DAF(da_tsne_set_data) DAF(da_tsne_set_init_embedding) DAF(da_tsne_compute)
DAF(da_approx_nn_set_training_data) DAF(da_approx_nn_train) DAF(da_approx_nn_add) DAF(da_approx_nn_train_and_add) DAF(da_approx_nn_kneighbors)
DAF(da_linmod_select_model) DAF(da_linmod_define_features) DAF(da_linmod_fit) DAF(da_linmod_fit_start) DAF(da_linmod_evaluate_model)
DAF(da_nlls_define_residuals) DAF(da_nlls_define_bounds) DAF(da_nlls_define_weights) DAF(da_nlls_fit)
DAF(da_interpolation_select_model) DAF(da_interpolation_set_sites) DAF(da_interpolation_set_sites_uniform) DAF(da_interpolation_set_values) DAF(da_interpolation_search_cells) DAF(da_interpolation_interpolate) DAF(da_interpolation_set_boundary_conditions) DAF(da_interpolation_evaluate)
namespace {

const ScenReg *pick_any(Rng &r, bool handles = false) {
    static const char *free_fns[] = {"pairwise", "kernel", "moments", "quantile", "cov", "standardize"};
    std::vector<const ScenReg *> c;
    double w = 0;
    for (auto &s : scenarios()) {
        bool fr = false;
        for (auto n : free_fns) if (!strcmp(s.name, n)) fr = true;
        if (handles && fr) continue;
        if (S.opts.count("scen") && S.opts["scen"] != s.name) continue;
        c.push_back(&s); w += s.weight;
    }
    double u = r.uni(0, w);
    for (auto s : c) if ((u -= s->weight) <= 0) return s;
    return c.back();
}
struct Meta { // runs scenarios without their own oracle, with a hook
    explicit Meta(std::function<void(Handle &, const char *, bool)> f = nullptr) { S.opts["meta"] = "1"; hookfn = std::move(f); }
    ~Meta() { hookfn = nullptr; S.opts.erase("meta"); }
};
struct Quiet { bool q; Quiet() : q(S.quiet_sem) { S.quiet_sem = true; } ~Quiet() { S.quiet_sem = q; } };

bool exact(const Outcome &a, const Outcome &b, std::string &w, bool statuses = true) {
    if (statuses) {
        for (size_t i = 0; i < std::min(a.st.size(), b.st.size()); i++) if (a.st[i] != b.st[i]) { w = fmt("call %zu: %s=%d against %s=%d", i, a.st[i].first.c_str(), a.st[i].second, b.st[i].first.c_str(), b.st[i].second); return false; }
        if (a.st.size() != b.st.size()) { w = fmt("%zu calls against %zu", a.st.size(), b.st.size()); return false; }
    }
    if (a.items.size() != b.items.size()) { w = fmt("%zu items against %zu", a.items.size(), b.items.size()); return false; }
    for (size_t k = 0; k < a.items.size(); k++) {
        const Item &x = a.items[k], &y = b.items[k];
        if (x.v.size() != y.v.size()) { w = fmt("%s: %zu values against %zu", x.name.c_str(), x.v.size(), y.v.size()); return false; }
        for (size_t i = 0; i < x.v.size(); i++) if (memcmp(&x.v[i], &y.v[i], 8) && !(std::isnan(x.v[i]) && std::isnan(y.v[i]))) { w = fmt("%s[%zu] = %.17g against %.17g", x.name.c_str(), i, x.v[i], y.v[i]); return false; }
    }
    return true;
}
uint64_t signature(const std::string &d, const Var &v) { return hmix(hstr(d.c_str()), hstr(v.str().c_str())); }

// ---------------------------------------------------------------- calls that must be refused
enum Fault { NONE, XNULL, NZERO, NNEG, MZERO, LDSMALL, YNULL, OUTNULL, OUTLD, NFAULTS };
const char *fault_name[] = {"valid", "null X", "n=0", "n<0", "m=0", "small ldx", "null y", "null output", "small ld of the output"};
template <class T> struct Args {
    da_int n, m, ld, ldo, k;
    const T *X, *y; const da_int *iy;
    T *out; da_int *iout;
};
enum { TX = 1, TY = 2, TO = 4, TOL = 8, SETTER = 16, NOARG = 32, ANYTIME = 64, NOM = 128, NON = 256, NZ = 512 };
template <class T> struct Fn { const char *name, *owner; int mask; std::function<da_status(da_handle, Args<T> &)> f; };
#define FN(nm, own, mask, ...) {#nm, own, mask, [](da_handle h, Args<T> &a) -> da_status { (void)a; return DA(nm)(h, ##__VA_ARGS__); }}
template <class T> const std::vector<Fn<T>> &table() {
    static const std::vector<Fn<T>> t = {
        FN(da_nn_set_data, "nn", SETTER | TX, a.n, a.m, a.X, a.ld),
        FN(da_nn_set_labels, "nn", SETTER | TY | NOM, a.n, a.iy),
        FN(da_nn_set_targets, "nn", SETTER | TY | NOM, a.n, a.y),
        FN(da_nn_kneighbors, "nn", TX | TO, a.n, a.m, a.X, a.ld, a.iout, a.out, 1, 1),
        FN(da_nn_radius_neighbors, "nn", TX, a.n, a.m, a.X, a.ld, (T)0.5, 1, 0),
        FN(da_nn_classifier_predict, "nn", TX | TO, a.n, a.m, a.X, a.ld, a.iout, knn_search_mode),
        FN(da_nn_classifier_predict_proba, "nn", TX | TO, a.n, a.m, a.X, a.ld, a.out, knn_search_mode),
        FN(da_nn_regressor_predict, "nn", TX | TO, a.n, a.m, a.X, a.ld, a.out, knn_search_mode),
        FN(da_tree_set_training_data, "tree", SETTER | TX | TY, a.n, a.m, 0, a.X, a.ld, a.iy, nullptr),
        FN(da_tree_fit, "tree", NOARG),
        FN(da_tree_predict, "tree", TX | TO, a.n, a.m, a.X, a.ld, a.iout),
        FN(da_tree_predict_proba, "tree", TX | TO, a.n, a.m, a.X, a.ld, a.out, a.k, a.ldo),
        FN(da_tree_predict_log_proba, "tree", TX | TO, a.n, a.m, a.X, a.ld, a.out, a.k, a.ldo),
        FN(da_tree_score, "tree", TX | TY | TO, a.n, a.m, a.X, a.ld, a.iy, a.out),
        FN(da_forest_set_training_data, "forest", SETTER | TX | TY, a.n, a.m, 0, a.X, a.ld, a.iy, nullptr),
        FN(da_forest_fit, "forest", NOARG),
        FN(da_forest_predict, "forest", TX | TO, a.n, a.m, a.X, a.ld, a.iout),
        FN(da_forest_predict_proba, "forest", TX | TO, a.n, a.m, a.X, a.ld, a.out, a.k, a.ldo),
        FN(da_forest_predict_log_proba, "forest", TX | TO, a.n, a.m, a.X, a.ld, a.out, a.k, a.ldo),
        FN(da_forest_score, "forest", TX | TY | TO, a.n, a.m, a.X, a.ld, a.iy, a.out),
        FN(da_kmeans_set_data, "kmeans", SETTER | TX, a.n, a.m, a.X, a.ld),
        FN(da_kmeans_set_init_centres, "kmeans", SETTER | TX | NOM | NON, a.X, a.ld),
        FN(da_kmeans_compute, "kmeans", NOARG),
        FN(da_kmeans_transform, "kmeans", TX | TO | TOL, a.n, a.m, a.X, a.ld, a.out, a.ldo),
        FN(da_kmeans_predict, "kmeans", TX | TO, a.n, a.m, a.X, a.ld, a.iout),
        FN(da_dbscan_set_data, "dbscan", SETTER | TX, a.n, a.m, a.X, a.ld),
        FN(da_dbscan_compute, "dbscan", NOARG),
        FN(da_pca_set_data, "pca", SETTER | TX, a.n, a.m, a.X, a.ld),
        FN(da_pca_compute, "pca", NOARG),
        FN(da_pca_transform, "pca", TX | TO | TOL, a.n, a.m, a.X, a.ld, a.out, a.ldo),
        FN(da_pca_inverse_transform, "pca", TX | TO | TOL | NOM, a.n, a.k, a.X, a.ld, a.out, a.ldo),
        FN(da_kernel_pca_set_data, "kpca", SETTER | TX, a.n, a.m, a.X, a.ld),
        FN(da_kernel_pca_compute, "kpca", NOARG),
        FN(da_kernel_pca_transform, "kpca", TX | TO | TOL, a.n, a.m, a.X, a.ld, a.out, a.ldo),
        FN(da_kernel_pca_inverse_transform, "kpca", TX | TO | NOM, a.n, a.k, a.X, a.ld, a.out, a.ldo),
        FN(da_svm_set_data, "svm", SETTER | TX | TY, a.n, a.m, a.X, a.ld, a.y),
        FN(da_svm_compute, "svm", NOARG),
        FN(da_svm_predict, "svm", TX | TO, a.n, a.m, a.X, a.ld, a.out),
        FN(da_svm_decision_function, "svm", TX | TO, a.n, a.m, a.X, a.ld, ovr, a.out, a.ldo),
        FN(da_svm_score, "svm", TX | TY | TO, a.n, a.m, a.X, a.ld, a.y, a.out),
        FN(da_svm_predict_proba, "svm", TX | TO, a.n, a.m, a.X, a.ld, a.out, a.ldo),
        FN(da_svm_predict_log_proba, "svm", TX | TO, a.n, a.m, a.X, a.ld, a.out, a.ldo),
        FN(da_tsne_set_data, "tsne", SETTER | TX, a.n, a.m, a.X, a.ld),
        FN(da_tsne_set_init_embedding, "tsne", SETTER | TX | NOM | NON, a.X, a.ld),
        FN(da_tsne_compute, "tsne", NOARG),
        FN(da_approx_nn_set_training_data, "ann", SETTER | TX, a.n, a.m, a.X, a.ld),
        FN(da_approx_nn_train, "ann", NOARG),
        FN(da_approx_nn_add, "ann", SETTER | TX, a.n, a.m, a.X, a.ld),
        FN(da_approx_nn_train_and_add, "ann", NOARG),
        FN(da_approx_nn_kneighbors, "ann", TX | TO, a.n, a.m, a.X, a.ld, a.iout, a.out, 1, 1),
        FN(da_linmod_define_features, "linmod", SETTER | TX | TY, a.n, a.m, a.X, a.ld, a.y),
        FN(da_linmod_fit, "linmod", NOARG),
        FN(da_linmod_evaluate_model, "linmod", TX | TO, a.n, a.m, a.X, a.ld, a.out, nullptr, nullptr),
        FN(da_nlls_define_bounds, "nlls", SETTER | NOM | NZ, a.n, (T *)a.y, (T *)a.y),
        FN(da_nlls_define_weights, "nlls", SETTER | NOM | NZ, a.n, (T *)a.y),
        FN(da_nlls_define_residuals, "nlls", SETTER, a.n, a.m, nullptr, nullptr, nullptr, nullptr),
        FN(da_nlls_fit, "nlls", NOARG, a.n, a.out, nullptr),
        FN(da_interpolation_set_sites, "spline", SETTER | TY | NOM, a.n, a.y),
        FN(da_interpolation_set_sites_uniform, "spline", SETTER | NOM, a.n, (T)0, (T)1),
        FN(da_interpolation_set_values, "spline", SETTER | TX, a.n, a.m, a.X, a.ld, 0),
        FN(da_interpolation_search_cells, "spline", NOARG | ANYTIME, a.n, a.y, a.iout),
        FN(da_interpolation_interpolate, "spline", NOARG),
    };
    return t;
}
const char *owner_of(const char *scen) { return !strcmp(scen, "logistic") ? "linmod" : scen; }

// the stored message after a refused call
void message_check(da_handle h, const char *what, int st) {
    char *msg = nullptr;
    da_status s = da_handle_get_error_message(h, &msg);
    VCHECK(s == 0 && msg && *msg && strncmp(msg, "Last operation was successful", 29), "message", "%s was refused (%d) without an error message: %s", what, st, msg ? msg : "(null)");
    free(msg);
}
struct Hostile {
    Rng r; const char *own; int64_t features; da_order order; bool strict = true; long long calls = 0;
    Hostile(uint64_t seed, const char *o, int64_t m, da_order ord) : r(seed), own(owner_of(o)), features(m), order(ord) {}
    template <class T> void call(da_handle h, const char *stage, bool other_prec) {
        auto &t = table<T>();
        const Fn<T> *f;
        do f = &t[(size_t)r.below((int64_t)t.size())]; while (strcmp(f->owner, own) && !r.chance(0.04));
        bool mine = !strcmp(f->owner, own) && !other_prec;
        bool trained = !strcmp(stage, "computed") || !strcmp(stage, "trained") || !strcmp(stage, "end");
        Fault fl = NONE;
        if (mine) {
            std::vector<Fault> c;
            // calls made before the steps they need
            if (!strcmp(stage, "init") && !(f->mask & SETTER)) c.push_back(NONE);
            if (f->mask & TX) { c.push_back(XNULL); c.push_back(LDSMALL); }
            if (!(f->mask & (NOARG | NON))) { if (!(f->mask & NZ)) c.push_back(NZERO); c.push_back(NNEG); }
            if (!(f->mask & (NOARG | NOM))) c.push_back(MZERO);
            if (f->mask & TY) c.push_back(YNULL);
            if (f->mask & TO) c.push_back(OUTNULL);
            if (f->mask & TOL) c.push_back(OUTLD);
            if (c.empty()) return;
            fl = r.pick(c);
        }
        Args<T> a;
        a.n = (da_int)r.in(3, 6); a.m = (da_int)(features ? features : r.in(2, 6)); a.k = 1;
        a.ld = (da_int)std::max<int64_t>(a.n, a.m) + 1; a.ldo = 70;
        std::vector<T> X((size_t)(80 * (a.ld + 70)), (T)0.5), y(400, (T)1);
        for (size_t i = 0; i < X.size(); i++) X[i] = (T)((i * 7919) % 13) / 13;
        std::vector<da_int> iy(400, 0);
        Buf<T> out("out", 6000, 1); Buf<da_int> iout("iout", 600, 1);
        a.X = X.data(); a.y = y.data(); a.iy = iy.data(); a.out = out.data(); a.iout = iout.data();
        int want[3] = {-1, -1, -1};
        switch (fl) {
        case XNULL: a.X = nullptr; want[0] = da_status_invalid_pointer; break;
        case NZERO: a.n = 0; want[0] = da_status_invalid_array_dimension; want[1] = da_status_invalid_input; break;
        case NNEG: a.n = -(da_int)r.in(1, 5); if (r.chance(0.1)) a.n = std::numeric_limits<da_int>::min(); want[0] = da_status_invalid_array_dimension; want[1] = da_status_invalid_input; break;
        case MZERO: a.m = (da_int)-r.below(2); want[0] = da_status_invalid_array_dimension; want[1] = da_status_invalid_input; break;
        case LDSMALL: a.ld = (da_int)(f->mask & NON ? 1 : !strcmp(stage, "init") ? std::min(a.n, a.m) : order == column_major ? a.n : strstr(f->name, "pca_inverse") ? 1 : a.m) - 1; if (r.chance(0.2)) a.ld = (da_int)-r.below(4); want[0] = da_status_invalid_leading_dimension; break;
        case YNULL: a.y = nullptr; a.iy = nullptr; want[0] = da_status_invalid_pointer; break;
        case OUTNULL: a.out = nullptr; a.iout = nullptr; want[0] = da_status_invalid_pointer; break;
        case OUTLD: a.ldo = (da_int)-r.below(2); want[0] = da_status_invalid_leading_dimension; break;
        default: break;
        }
        std::string what = fmt("%s with %s at %s of a %s handle%s", f->name, fault_name[fl], stage, own, other_prec ? " of the other precision" : "");
        if (getenv("VT_DBG")) fprintf(stderr, "  %s n=%d m=%d ld=%d\n", what.c_str(), a.n, a.m, a.ld);
        da_status s = f->f(h, a);
        calls++; count(fmt("refused-%s", mine ? fault_name[fl] : other_prec ? "precision" : "type"));
        VCHECK(s != 0, fmt("accepted:%s", f->name), "%s is accepted", what.c_str());
        if (!mine && !other_prec) VCHECK(s == da_status_invalid_handle_type, fmt("type-status:%s", f->name), "%s gives %d", what.c_str(), s);
        if (other_prec) VCHECK(s == da_status_wrong_type, fmt("precision-status:%s", f->name), "%s gives %d", what.c_str(), s);
        if (mine && want[0] >= 0 && (trained || (f->mask & SETTER))) {
            // (models the call does not apply to are refused before the arguments are looked at)
            bool na = s == da_status_no_data || s == da_status_out_of_date || s == da_status_unknown_query || s == da_status_invalid_option || s == da_status_invalid_handle_type || s == da_status_incompatible_options || s == da_status_not_implemented;
            if (fl == YNULL && !strcmp(own, "nn")) na = na || s == da_status_invalid_array_dimension; // (not as many as samples)
            // (arguments can be wrong in more than one way: 3 features asked of a model with 4 ...)
            na = na || s == da_status_invalid_input || (s == da_status_invalid_array_dimension && !(f->mask & NOARG));
            if (na) count("not-applicable");
            else { VCHECK(s == want[0] || s == want[1], fmt("status:%s:%s", f->name, fault_name[fl]), "%s gives %d", what.c_str(), s); count("status-judged"); }
        }
        VCHECK(out.untouched() && iout.untouched(), fmt("output:%s", f->name), "%s (status %d) wrote to the output", what.c_str(), s);
        message_check(h, what.c_str(), s);
    }
    void options(da_handle h, const char *stage, bool f32) {
        da_status s; std::string what;
        da_int iv = -77; char sv[64] = "unset"; da_int sl = 64; double dv = -77; float fv = -77;
        switch (r.below(7)) {
        case 0: what = "setting an unknown integer option"; s = da_options_set_int(h, "no such option", 1); VCHECK(s == da_status_option_not_found, "option-status", "%s gives %d", what.c_str(), s); break;
        case 1: what = "setting an unknown string option"; s = da_options_set_string(h, "no such option", "x"); VCHECK(s == da_status_option_not_found, "option-status", "%s gives %d", what.c_str(), s); break;
        case 2: what = "an invalid value of check data"; s = da_options_set_string(h, "check data", "perhaps"); VCHECK(s == da_status_option_invalid_value, "option-status", "%s gives %d", what.c_str(), s); break;
        case 3: what = "an integer for check data"; s = da_options_set_int(h, "check data", 1); VCHECK(s == da_status_option_wrong_type, "option-status", "%s gives %d", what.c_str(), s); break;
        case 4: what = "a real of the other precision"; s = f32 ? da_options_set_real_d(h, "radius", 1.0) : da_options_set_real_s(h, "radius", 1.0f); VCHECK(s == da_status_wrong_type || s == da_status_option_not_found || s == da_status_option_wrong_type, "option-status", "%s gives %d", what.c_str(), s); break;
        case 5: what = "reading an unknown option"; s = f32 ? da_options_get_real_s(h, "no such option", &fv) : da_options_get_real_d(h, "no such option", &dv); VCHECK(s == da_status_option_not_found && dv == -77 && fv == -77, "option-status", "%s gives %d", what.c_str(), s); break;
        default: what = "reading a string as an integer"; s = da_options_get_int(h, "storage order", &iv); VCHECK(s == da_status_option_wrong_type && iv == -77, "option-status", "%s gives %d", what.c_str(), s); break;
        }
        (void)sv; (void)sl;
        VCHECK(s != 0, "option-accepted", "%s at %s of a %s handle is accepted", what.c_str(), stage, own);
        count("refused-option");
    }
    void query(da_handle h, const char *stage, bool f32) {
        // a result of another handle type
        static const da_result all[] = {da_linmod_coef, da_pca_scores, da_pca_variance, da_pca_principal_components, da_kernel_pca_eigenvalues, da_kmeans_cluster_centres, da_svm_support_vectors, da_svm_bias, da_nn_radius_neighbors_distances, da_approx_nn_cluster_centroids, da_cubic_spline_coefficients, da_tsne_embedding};
        static const char *who[] = {"linmod", "pca", "pca", "pca", "kpca", "kmeans", "svm", "svm", "nn", "ann", "spline", "tsne"};
        int q = (int)r.below(12);
        da_int dim = 5000, d0 = dim;
        if (strcmp(who[q], own)) {
            Buf<double> bd("res", 5000, 1); Buf<float> bf("res", 5000, 1); Buf<da_int> bi("res", 5000, 1);
            int p = (int)r.below(4); // 0: ints, 1: other precision
            da_status s = p == 0 ? da_handle_get_result_int(h, all[q], &dim, bi.data()) : (p == 1) == f32 ? da_handle_get_result_d(h, all[q], &dim, bd.data()) : da_handle_get_result_s(h, all[q], &dim, bf.data());
            VCHECK(s != 0 && bd.untouched() && bf.untouched() && bi.untouched(), "query-accepted", "result %d of a %s handle at %s gives %d", all[q], own, stage, s);
            if (p == 1) VCHECK(s == da_status_wrong_type, "query-precision", "a result in the wrong precision gives %d", s);
            (void)d0;
        }
        double x; float y; da_status s = f32 ? da_handle_get_result_s(h, da_rinfo, nullptr, &y) : da_handle_get_result_d(h, da_rinfo, nullptr, &x);
        VCHECK(s != 0, "query-null", "a result without a size gives %d", s);
        s = f32 ? da_handle_get_result_s(h, da_rinfo, &dim, nullptr) : da_handle_get_result_d(h, da_rinfo, &dim, nullptr);
        VCHECK(s != 0, "query-null", "a result without an array gives %d", s);
        count("refused-query");
    }
    void operator()(da_handle h, const char *stage, bool f32, int k) {
        for (; k > 0; k--) {
            if (getenv("VT_DBG")) fprintf(stderr, " at %s\n", stage);
            int c = (int)r.below(10);
            if (c == 0) { if (f32) call<double>(h, stage, true); else call<float>(h, stage, true); }
            else if (c == 1) options(h, stage, f32);
            else if (c == 2) query(h, stage, f32);
            else if (f32) call<float>(h, stage, false);
            else call<double>(h, stage, false);
        }
    }
};

// refused calls change nothing
FAMILY(refused, 4000, 60000) {
    set_threads(1);
    const ScenReg *sr = pick_any(rng, true);
    std::unique_ptr<Scenario> sc = sr->gen(rng);
    Var v = random_var(rng); v.threads = 1;
    Outcome A, B;
    { Meta g; A = sc->run(v); }
    std::string D = sc->describe() + " " + v.str(), w;
    Hostile hs(rng.u64(), sr->name, sc->features(), v.order);
    { Meta g([&](Handle &h, const char *st, bool f) { hs(h, st, f, (int)hs.r.in(0, 5)); }); B = sc->run(v); }
    if (!exact(A, B, w)) fail(fmt("changed:%s", sr->name), "%s: after refused calls: %s", D.c_str(), w.c_str());
    count("refused-calls", hs.calls); count(std::string("of-") + sr->name);
    nontrivial(signature(D, v)); sample(fmt("%lld refused calls: %s", hs.calls, D.c_str()));
}
// handles that are not there
FAMILY(nohandle, 300, 3000) {
    Hostile hs(rng.u64(), "nn", 4, column_major);
    for (int pass = 0; pass < 2; pass++) {
        Handle h;
        if (pass) { da_int dummy; (void)dummy; if (da_handle_init_d(&h.h, da_handle_uninitialized)) { count("uninitialized-refused"); } }
        auto one = [&](auto tag) {
            typedef decltype(tag) T;
            for (auto &f : table<T>()) {
                Args<T> a; std::vector<T> X(500, (T)0.5); std::vector<da_int> iy(500, 0); Buf<T> out("out", 500, 1); Buf<da_int> io("iout", 500, 1);
                a.n = 3; a.m = 4; a.ld = 8; a.ldo = 20; a.k = 1; a.X = a.y = X.data(); a.iy = iy.data(); a.out = out.data(); a.iout = io.data();
                da_status s = f.f(h.h, a);
                VCHECK(s == da_status_handle_not_initialized || (h.h && (s == da_status_invalid_handle_type || s == da_status_wrong_type)), fmt("nohandle:%s", f.name), "%s %s handle gives %d", f.name, h.h ? "on an uninitialized" : "without a", s);
                VCHECK(out.untouched() && io.untouched(), fmt("nohandle-output:%s", f.name), "%s without a handle writes", f.name);
                nontrivial(hmix(hstr(f.name), pass * 2 + sizeof(T)));
            }
        };
        one(1.0); one(1.0f);
        da_int i = 5; double d = 5; float f = 5; char c[20] = "x"; da_int cl = 20;
        if (!h.h) {
            VCHECK(da_options_set_int(nullptr, "a", 1) && da_options_set_string(nullptr, "a", "b") && da_options_set_real_d(nullptr, "a", 1) && da_options_set_real_s(nullptr, "a", 1) && da_options_get_int(nullptr, "a", &i) && da_options_get_real_d(nullptr, "a", &d) && da_options_get_real_s(nullptr, "a", &f) && da_options_get_string(nullptr, "a", c, &cl) && da_options_print(nullptr), "nohandle-options", "an option of no handle is accepted");
            VCHECK(da_handle_get_result_d(nullptr, da_rinfo, &i, &d) && da_handle_get_result_s(nullptr, da_rinfo, &i, &f) && da_handle_get_result_int(nullptr, da_rinfo, &i, &i), "nohandle-result", "a result of no handle is given");
            da_handle_destroy(nullptr); da_handle_destroy(&h.h); da_handle_refresh(nullptr);
        }
    }
    count("null-handles");
}

// ---------------------------------------------------------------- C09: one handle for several problems
// every result there is, each in the four ways it can be asked for
struct Res { int q; bool isint; std::vector<double> v; };
template <class T> std::vector<Res> all_results(da_handle h, const char *own, std::string &bad) {
    static const int qs[] = {da_rinfo, da_linmod_coef, da_linmod_dual_coef, da_pca_scores, da_pca_variance, da_pca_principal_components, da_pca_total_variance, da_pca_column_means, da_pca_column_sdevs, da_pca_u, da_pca_sigma, da_pca_vt, da_kernel_pca_n_components, da_kernel_pca_eigenvalues, da_kernel_pca_eigenvectors, da_kernel_pca_scores, da_kernel_pca_dual_coef, da_kernel_pca_gamma, da_kernel_pca_X_fit, da_kmeans_cluster_centres, da_kmeans_labels, da_dbscan_labels, da_dbscan_n_clusters, da_dbscan_n_core_samples, da_dbscan_core_sample_indices, da_svm_n_support_vectors, da_svm_n_support_vectors_per_class, da_svm_idx_support_vectors, da_svm_n_iterations, da_svm_support_vectors, da_svm_bias, da_svm_probaA, da_svm_probaB, da_svm_dual_coef, da_svm_lp_n_iterations, da_approx_nn_cluster_centroids, da_approx_nn_list_sizes, da_cubic_spline_coefficients, da_tsne_embedding, da_nn_radius_neighbors_count, da_nn_radius_neighbors_offsets};
    std::vector<Res> r;
    for (int q : qs) for (int k = 0; k < 2; k++) {
        auto get = [&](da_int *dim, void *b) { return k ? da_handle_get_result_int(h, (da_result)q, dim, (da_int *)b) : DA(da_handle_get_result)(h, (da_result)q, dim, (T *)b); };
        auto probe = [&](auto tag) {
            typedef decltype(tag) E;
            Buf<E> one("result", 1, 1);
            da_int dim = 0;
            da_status s = get(&dim, one.data());
            if (!one.untouched()) bad = fmt("%s: result %d (%s) with room for nothing writes", own, q, k ? "int" : "real");
            if (s != da_status_invalid_array_dimension) { if (s == 0 && q != da_dbscan_core_sample_indices && !(q >= da_kernel_pca_n_components && q <= da_kernel_pca_X_fit)) bad = fmt("%s: result %d of size %d given to an array of size 0", own, q, dim); return; }
            if (dim <= 0) { if (dim == 0) { bad = fmt("%s: result %d (%s) needs an array of size %d", own, q, k ? "int" : "real", dim); } return; }
            if (dim > 1) {
                Buf<E> less("result", dim - 1, 1); da_int d = dim - 1;
                s = get(&d, less.data());
                if (s != da_status_invalid_array_dimension || d != dim || !less.untouched()) bad = fmt("%s: result %d (%s) of size %d into %d: status %d, size %d, %s", own, q, k ? "int" : "real", dim, dim - 1, s, d, less.untouched() ? "not written" : "written");
            }
            Buf<E> full("result", dim, 1); da_int d = dim;
            s = get(&d, full.data());
            if (s) { bad = fmt("%s: result %d (%s) into an array of the size asked for, %d: %d", own, q, k ? "int" : "real", dim, s); return; }
            Buf<E> more("result", dim + 3, 1); d = dim + 3;
            s = get(&d, more.data());
            if (s == da_status_invalid_array_dimension && d == dim && more.untouched()) { r.push_back({q, k == 1, full.vecd()}); return; } // (coefficients have to be given their exact size)
            if (s || memcmp(full.data(), more.data(), (size_t)dim * sizeof(E)) || !is_sentinel(more.at(dim, 0)) || !is_sentinel(more.at(dim + 2, 0))) { if (q != da_rinfo || s) bad = fmt("%s: result %d (%s) of size %d into %d: status %d or other values or too many", own, q, k ? "int" : "real", dim, dim + 3, s); }
            r.push_back({q, k == 1, full.vecd()});
        };
        if (k) probe((da_int)0); else probe((T)0);
    }
    return r;
}
std::vector<Res> all_results(da_handle h, bool f32, const char *own, std::string &bad) { return f32 ? all_results<float>(h, own, bad) : all_results<double>(h, own, bad); }
bool same_results(const std::vector<Res> &a, const std::vector<Res> &b, std::string &w) {
    if (a.size() != b.size()) { w = fmt("%zu results against %zu", a.size(), b.size()); return false; }
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i].q != b[i].q || a[i].v.size() != b[i].v.size()) { w = fmt("result %d[%zu] against %d[%zu]", a[i].q, a[i].v.size(), b[i].q, b[i].v.size()); return false; }
        if (a[i].q == da_rinfo) continue; // (times)
        for (size_t k = 0; k < a[i].v.size(); k++) if (memcmp(&a[i].v[k], &b[i].v[k], 8)) { w = fmt("result %d[%zu] = %.17g against %.17g", a[i].q, k, a[i].v[k], b[i].v[k]); return false; }
    }
    return true;
}
FAMILY(current, 1500, 40000) {
    set_threads(1);
    const ScenReg *sr = pick_any(rng, true);
    Var v = random_var(rng); v.threads = 1; v.refit = 0;
    int k = strcmp(sr->name, "spline") ? (int)rng.in(1, 3) : 0; // (the sites of a spline cannot be changed)
    Handle keep; std::string bad, w, hist, nnuse;
    for (int i = 0; i <= k; i++) {
        std::unique_ptr<Scenario> sc = sr->gen(rng);
        if (!strcmp(sr->name, "nn")) { // (arrays of labels given once have to stay: the same kind of use each time)
            auto use = [&]() { std::string q = sc->describe(); q = q.substr(q.find(" what=")); return q.substr(0, q.find(' ', 1)); };
            if (!i) nnuse = use();
            for (int t = 0; t < 200 && use() != nnuse; t++) sc = sr->gen(rng);
            if (use() != nnuse) return;
        }
        std::string D = sc->describe() + " " + v.str();
        Outcome A, B; std::vector<Res> ra, rb;
        { Meta g([&](Handle &h, const char *st, bool f) { if (!strcmp(st, "end")) ra = all_results(h, f, sr->name, bad); }); A = sc->run(v); }
        if (!bad.empty()) fail(fmt("result:%s", sr->name), "%s: %s", D.c_str(), bad.c_str());
        bool done = false;
        {
            Meta g([&](Handle &h, const char *st, bool f) {
                if (getenv("VT_DBG")) fprintf(stderr, "at %s\n", st);
                if (!strcmp(st, "init")) { if (keep.h) std::swap(h.h, keep.h); }
                else if (!strcmp(st, "data")) { // new data: what was computed from the old is gone
                    std::string b2;
                    auto r0 = all_results(h, f, sr->name, b2);
                    VCHECK(r0.empty(), fmt("stale:%s", sr->name), "%s: result %d is given before the computation [after %s]", D.c_str(), r0.empty() ? 0 : r0[0].q, hist.c_str());
                    count("stale-checks");
                    std::swap(h.h, h.h);
                } else if (!strcmp(st, "end")) {
                    rb = all_results(h, f, sr->name, bad);
                    std::vector<Res> rc = all_results(h, f, sr->name, bad);
                    if (!same_results(rb, rc, w)) fail(fmt("query-changes:%s", sr->name), "%s: asked again: %s", D.c_str(), w.c_str());
                    std::swap(h.h, keep.h); done = true;
                }
            });
            B = sc->run(v);
        }
        bool fixed = false; // (labels kept fix the number of samples of nearest neighbours)
        for (size_t q = 0; q < std::min(A.st.size(), B.st.size()); q++) if (B.st[q].first == "set_data" && A.st[q].second == 0 && B.st[q].second == da_status_invalid_array_dimension) fixed = true;
        // (the sites of a spline cannot be changed)
        for (size_t q = 0; q < std::min(A.st.size(), B.st.size()); q++) if (i && B.st[q].first == "sites" && B.st[q].second == da_status_invalid_input) fixed = true;
        // (n_components is bounded by the last data)
        for (size_t q = 0; q < std::min(A.st.size(), B.st.size()); q++) if (i && ((B.st[q].first == "data" && A.st[q].second == 0 && B.st[q].second == da_status_incompatible_options) || (B.st[q].first == "o-nc" && B.st[q].second))) fixed = true;
        if (fixed) { count("size-fixed-by-labels"); return; }
        if (!exact(A, B, w)) { fail(fmt("reused:%s", sr->name), "%s [after %s]: %s", D.c_str(), hist.c_str(), w.c_str()); return; }
        if (!same_results(ra, rb, w)) { fail(fmt("reused-results:%s", sr->name), "%s [after %s]: %s", D.c_str(), hist.c_str(), w.c_str()); return; }
        if (!bad.empty()) { fail(fmt("result:%s", sr->name), "%s: %s", D.c_str(), bad.c_str()); return; }
        count("results", (long long)rb.size());
        if (!done) { count("ended-early"); hist += " (ended early) "; keep.h ? (void)0 : (void)0; return; }
        hist += D + " | ";
        if (i) { nontrivial(hmix(signature(D, v), hstr(hist.c_str()))); count("reused"); }
        sample(fmt("%zu results: %s", rb.size(), D.c_str()));
    }
}

// ---------------------------------------------------------------- C06: storage orders and leading dimensions
FAMILY(orders, 6000, 100000) {
    set_threads(1);
    const ScenReg *sr = pick_any(rng);
    std::unique_ptr<Scenario> sc = sr->gen(rng);
    double tol = sc->tol_layout();
    if (tol <= 0) { count("not-comparable"); return; }
    Var a = random_var(rng), b;
    a.f32 = false; a.threads = 1; a.order = column_major; b = a;
    b.order = rng.chance(0.7) ? row_major : column_major;
    a.pad = (int)rng.pick({0, 0, 1, 5}); b.pad = (int)rng.pick({0, 1, 3, 17}); a.opad = (int)rng.pick({0, 2}); b.opad = (int)rng.pick({0, 1, 9});
    Outcome A, B;
    { Meta g; A = sc->run(a); B = sc->run(b); }
    compare(fmt("layout:%s", sr->name), *sc, A, B, tol, !sc->ties(), a.str() + " against " + b.str(), 1e-13);
    nontrivial(hmix(signature(sc->describe(), a), signature("", b))); count(std::string("of-") + sr->name); sample(sc->describe() + " " + a.str() + " / " + b.str());
}
// ---------------------------------------------------------------- C10: precisions
FAMILY(precision, 6000, 100000) {
    set_threads(1);
    const ScenReg *sr = pick_any(rng);
    std::unique_ptr<Scenario> sc = sr->gen(rng);
    double tol = sc->tol_f32();
    if (tol <= 0) { count("not-comparable"); return; }
    Var a = random_var(rng), b;
    a.threads = 1; b = a; a.f32 = false; b.f32 = true;
    Outcome A, B;
    { Meta g; A = sc->run(a); B = sc->run(b); }
    if (sc->ties()) { count("ties"); return; }
    compare(fmt("precision:%s", sr->name), *sc, A, B, tol, false, a.str(), 1e-4);
    nontrivial(signature(sc->describe(), a)); count(std::string("of-") + sr->name); sample(sc->describe() + " " + a.str());
}

// ---------------------------------------------------------------- C03: the same every time
#pragma GCC push_options
#pragma GCC optimize("O0")
__attribute__((noinline)) void dirty_stack(unsigned char c) { // what is left on the stack
    volatile unsigned char *p = (volatile unsigned char *)alloca(200000);
    for (int i = 0; i < 200000; i++) p[i] = c;
}
#pragma GCC pop_options
void perturb(int c) {
#ifndef VCONF_asan
    mallopt(M_PERTURB, c);
#endif
    dirty_stack((unsigned char)c);
}
FAMILY(same, 6000, 150000) {
    set_threads(1);
    const ScenReg *sr = pick_any(rng);
    std::unique_ptr<Scenario> sc = sr->gen(rng);
    Var v = random_var(rng); v.threads = 1; v.refit = 0;
    std::string D = sc->describe() + " " + v.str(), w;
    Outcome A, B;
    Meta g;
    perturb(0); A = sc->run(v);
    int how = (int)rng.below(5);
    static const int fill[] = {0xff, 0x7f, 0x01, 0x80, 0x5a};
    if (how >= 2) { perturb(0xfe); auto o = pick_any(rng)->gen(rng); Quiet q; o->run(random_var(rng)); set_threads(1); }
    std::vector<void *> holes; // other addresses, and holes with old contents in the heap
    if (how != 1) for (int i = 0; i < 40; i++) holes.push_back(malloc((size_t)rng.in(1, 5000)));
    for (size_t i = 0; i < holes.size(); i += 2) { free(holes[i]); holes[i] = nullptr; }
    perturb(fill[rng.below(5)]);
    Var v2 = v; if (how == 4 && strcmp(sr->name, "spline")) v2.refit = (int)rng.in(1, 2);
    B = sc->run(v2);
    perturb(0);
    for (auto p : holes) free(p);
    if (!exact(A, B, w)) fail(fmt("differs:%s", sr->name), "%s: run again%s: %s", D.c_str(), how == 4 ? " as a refit" : "", w.c_str());
    nontrivial(signature(D, v)); count(std::string("of-") + sr->name); count(how == 4 ? "refits" : "repeats"); sample(D);
}

// ---------------------------------------------------------------- C05: buffers of the caller
FAMILY(buffers, 6000, 100000) {
    set_threads(rng.chance(0.3) ? 3 : 1);
    const ScenReg *sr = pick_any(rng);
    std::unique_ptr<Scenario> sc = sr->gen(rng);
    Var v = random_var(rng); v.pad = (int)rng.pick({0, 1, 2, 7, 33}); v.opad = (int)rng.pick({0, 1, 3, 8, 40});
    { Meta g; sc->run(v); }
    // (the scenarios compare the inputs with a checksum and look for writes outside the results)
    nontrivial(signature(sc->describe(), v)); count(std::string("of-") + sr->name); sample(sc->describe() + " " + v.str());
}
// ---------------------------------------------------------------- C01, C02: everything, in any order, and stopped anywhere
int open_files() {
    int n = 0; DIR *d = opendir("/proc/self/fd");
    if (!d) return 0;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
FAMILY(anyuse, 6000, 150000) {
    set_threads(rng.chance(0.2) ? 3 : 1);
    Quiet q;
    int f0 = open_files();
    for (int rep = 0; rep < 2; rep++) {
        const ScenReg *sr = pick_any(rng);
        std::unique_ptr<Scenario> sc = sr->gen(rng);
        Var v = random_var(rng);
        Hostile hs(rng.u64(), sr->name, rng.chance(0.8) ? sc->features() : 0, v.order);
        const char *stop = rng.chance(0.3) ? rng.pick({"init", "opts", "data", "trained", "computed", "end"}) : "";
        bool fresh = rng.chance(0.1);
        Meta g([&](Handle &h, const char *st, bool f) {
            hs(h, st, f, (int)hs.r.in(0, 3));
            if (fresh && !strcmp(st, "computed")) { std::string b; all_results(h, f, sr->name, b); }
            if (!strcmp(st, stop)) { if (rng.chance(0.5)) { da_handle_destroy(&h.h); S.quiet_sem = false; VCHECK(h.h == nullptr, "destroy-null", "destroying does not set the pointer to null"); S.quiet_sem = true; da_handle_destroy(&h.h); } throw StopScenario(); }
        });
        try { sc->run(v); } catch (StopScenario &) { count(std::string("stopped-at-") + stop); }
        nontrivial(signature(sc->describe(), v)); count(std::string("of-") + sr->name); count("refused-calls", hs.calls); sample(sc->describe() + " " + v.str());
    }
    S.quiet_sem = false;
    int f1 = open_files();
    VCHECK(f0 == f1, "open-files", "%d files open before, %d after", f0, f1);
}
} // namespace
