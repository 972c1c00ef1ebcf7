#include "vt.hpp"
#include <fcntl.h>
#include <sys/resource.h>
#include <omp.h>
#include <unistd.h>
#ifdef VCONF_asan
#include <sanitizer/lsan_interface.h>
#endif

namespace vt {
State S;
std::function<void(Handle &, const char *, bool)> hookfn;
std::vector<Family> &families() { static std::vector<Family> f; return f; }
std::vector<ScenReg> &scenarios() { static std::vector<ScenReg> f; return f; }

std::string fmt(const char *f, ...) {
    char b[4096];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return b;
}
static std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
void fail(const std::string &key, const char *f, ...) {
    if (S.quiet_sem) return;
    S.nviol++;
    if (++S.perkey[key] > 5) return;
    char b[3000];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    printf("\n@V {\"key\":\"%s\",\"fam\":\"%s\",\"idx\":%llu,\"msg\":\"%s\"}\n", jesc(key).c_str(), S.fam, (unsigned long long)S.idx, jesc(b).c_str());
    fflush(stdout);
}
void sample(const std::string &s) { if (S.samples.size() < 4) S.samples.push_back(s); }
std::string Var::str() const { return fmt("%s/%s/pad%d/opad%d/refit%d/thr%d%s", f32 ? "f32" : "f64", order == column_major ? "col" : "row", pad, opad, refit, threads, check_data ? "/check" : ""); }
std::string Outcome::statuses() const { std::string r; for (auto &s : st) r += s.first + "=" + std::to_string(s.second) + " "; return r; }

Var random_var(Rng &r) {
    Var v;
    v.f32 = r.chance(0.5);
    v.order = r.chance(0.5) ? column_major : row_major;
    v.pad = r.chance(0.5) ? 0 : (int)r.in(1, 5);
    v.opad = r.chance(0.5) ? 0 : (int)r.in(1, 5);
    v.refit = r.chance(0.15);
    v.check_data = r.chance(0.15);
    return v;
}

bool compare(const std::string &key, const Scenario &s, const Outcome &a, const Outcome &b, double tol, bool disc_too, const std::string &what, double floor) {
    size_t n = std::min(a.st.size(), b.st.size());
    for (size_t i = 0; i < n; i++)
        if (a.st[i].first != b.st[i].first || a.st[i].second != b.st[i].second) {
            fail(key + ":status", "%s: call %zu %s: %s=%d against %s=%d", s.describe().c_str(), i, what.c_str(), a.st[i].first.c_str(), a.st[i].second, b.st[i].first.c_str(), b.st[i].second);
            return false;
        }
    if (a.st.size() != b.st.size() || a.items.size() != b.items.size()) {
        fail(key + ":shape", "%s: %s: %zu/%zu calls, %zu/%zu items", s.describe().c_str(), what.c_str(), a.st.size(), b.st.size(), a.items.size(), b.items.size());
        return false;
    }
    for (size_t k = 0; k < a.items.size(); k++) {
        const Item &x = a.items[k], &y = b.items[k];
        if (x.name != y.name || x.v.size() != y.v.size()) {
            fail(key + ":shape", "%s: %s: item %s[%zu] against %s[%zu]", s.describe().c_str(), what.c_str(), x.name.c_str(), x.v.size(), y.name.c_str(), y.v.size());
            return false;
        }
        if ((x.kind == DISC && !disc_too) || x.name[0] == '~') continue;
        double sc = x.kind == REAL ? std::max(x.scale, y.scale) : 0;
        for (size_t i = 0; i < x.v.size(); i++) {
            double u = x.v[i], w = y.v[i];
            if (u == w || (std::isnan(u) && std::isnan(w))) continue;
            if (x.kind == REAL && std::fabs(u - w) <= tol * sc + floor) continue;
            fail(key + ":" + x.name, "%s: %s: %s[%zu] = %.17g against %.17g (scale %g tol %g)", s.describe().c_str(), what.c_str(), x.name.c_str(), i, u, w, sc, tol);
            return false;
        }
    }
    return true;
}

LM gen_data(Rng &r, int64_t n, int64_t m, int kind, std::string *desc) {
    static const char *nm[] = {"gauss", "unif", "grid", "clust", "dup", "constcol", "big", "tiny", "offset", "onehot"};
    if (kind < 0) kind = (int)r.below(D_NKINDS);
    if (desc) *desc = nm[kind];
    LM x(n, m);
    int64_t nc = r.in(1, 4);
    LM cen(nc, m);
    for (auto &v : cen.a) v = r.uni(-10, 10);
    double off = std::pow(10.0, r.uni(1, 3));
    for (int64_t i = 0; i < n; i++) {
        int64_t c = r.below(nc);
        int64_t dup = kind == D_DUP && i > 0 && r.chance(0.5) ? r.below(i) : -1;
        for (int64_t j = 0; j < m; j++) {
            double v;
            switch (kind) {
            case D_UNIF: v = r.uni(-1, 1); break;
            case D_GRID: v = (double)r.in(-3, 3); break;
            case D_CLUST: v = cen(c, j) + 0.3 * r.norm(); break;
            case D_DUP: v = dup >= 0 ? x(dup, j) : r.norm(); break;
            case D_CONSTCOL: v = (j % 3 == 1) ? 2.5 : r.norm(); break;
            case D_BIG: v = 1e4 * r.norm(); break;
            case D_TINY: v = 1e-4 * r.norm(); break;
            case D_OFFSET: v = off + r.norm(); break;
            case D_ONEHOT: v = (double)r.below(2); break;
            default: v = r.norm();
            }
            x(i, j) = f32(v);
        }
    }
    return x;
}

void set_threads(int n) { if (n > 0) omp_set_num_threads(n); }

const char *stname(int st) {
    switch (st) {
    case 0: return "success";
    case da_status_internal_error: return "internal_error";
    case da_status_memory_error: return "memory_error";
    case da_status_invalid_pointer: return "invalid_pointer";
    case da_status_invalid_input: return "invalid_input";
    case da_status_not_implemented: return "not_implemented";
    case da_status_out_of_date: return "out_of_date";
    case da_status_wrong_type: return "wrong_type";
    case da_status_invalid_handle_type: return "invalid_handle_type";
    case da_status_handle_not_initialized: return "handle_not_initialized";
    case da_status_store_not_initialized: return "store_not_initialized";
    case da_status_invalid_leading_dimension: return "invalid_leading_dimension";
    case da_status_invalid_array_dimension: return "invalid_array_dimension";
    case da_status_unknown_query: return "unknown_query";
    case da_status_no_data: return "no_data";
    default: return "other";
    }
}
} // namespace vt
using namespace vt;

static int progfd = -1;
static void progress(uint64_t i) {
    if (progfd >= 0) { char b[32]; int n = snprintf(b, 32, "%20llu", (unsigned long long)i); if (pwrite(progfd, b, n, 0) < 0) {} }
}

int main(int argc, char **argv) {
    // OpenBLAS reads its settings when loaded: its own threads are switched off
    if (!getenv("OPENBLAS_NUM_THREADS") || strcmp(getenv("OPENBLAS_NUM_THREADS"), "1")) {
        setenv("OPENBLAS_NUM_THREADS", "1", 1);
        setenv("OMP_WAIT_POLICY", "passive", 0);
        execv("/proc/self/exe", argv);
    }
    if (argc < 2) { fprintf(stderr, "usage: davt FAMILY [--seed S --lo A --hi B --tier T --prog F --leak 1 --digests F --opt k=v]\n"); return 2; }
    std::string fam = argv[1];
    if (fam == "--list") {
        for (auto &f : families()) printf("%s %d %d\n", f.name, f.quick, f.thorough);
        return 0;
    }
    uint64_t lo = 0, hi = 1;
    bool leak = false, verbose = false;
    FILE *df = nullptr;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") S.seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--lo") lo = strtoull(v.c_str(), 0, 10);
        else if (a == "--hi") hi = strtoull(v.c_str(), 0, 10);
        else if (a == "--tier") S.thorough = v == "thorough";
        else if (a == "--prog") progfd = open(v.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        else if (a == "--leak") leak = v == "1";
        else if (a == "--verbose") verbose = v == "1";
        else if (a == "--digests") df = fopen(v.c_str(), "w");
        else if (a == "--quiet") S.quiet_sem = v == "1";
        else if (a == "--opt") { auto e = v.find('='); S.opts[v.substr(0, e)] = e == std::string::npos ? "1" : v.substr(e + 1); }
    }
    const Family *f = nullptr;
    for (auto &x : families()) if (fam == x.name) f = &x;
    if (!f) { fprintf(stderr, "no family %s\n", fam.c_str()); return 2; }
    S.fam = f->name;
    for (uint64_t i = lo; i < hi; i++) {
        S.idx = i;
        S.digest = 1469598103934665603ull;
        progress(i);
        if (verbose) { fprintf(stderr, "case %llu\n", (unsigned long long)i); }
        Rng r(hmix(hmix(S.seed, hstr(f->name)), i));
        f->fn(r);
        count("cases");
        if (df) fprintf(df, "%llu %016llx\n", (unsigned long long)i, (unsigned long long)S.digest);
#ifdef VCONF_asan
        if (leak && __lsan_do_recoverable_leak_check()) fail("leak", "leak after case %llu", (unsigned long long)i);
#endif
    }
    if (df) fclose(df);
    printf("\n@E {\"counts\":{");
    bool first = true;
    for (auto &c : S.counts) { printf("%s\"%s\":%lld", first ? "" : ",", c.first.c_str(), c.second); first = false; }
    printf("},\"distinct\":[");
    first = true;
    size_t lim = 0;
    for (auto h : S.distinct) { if (++lim > 200000) break; printf("%s%llu", first ? "" : ",", (unsigned long long)h); first = false; }
    printf("],\"samples\":[");
    first = true;
    for (auto &s : S.samples) { printf("%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    printf("],\"viol\":%d}\n", S.nviol);
    fflush(stdout);
    return 0;
}
