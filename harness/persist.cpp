// C39 save and load, C40 damaged model files: over every scenario of a handle type that can be saved
#include "vt.hpp"
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include "aoclda.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vt;
namespace {


typedef std::vector<char> Bytes;
const char *savable[] = {"nn", "tree", "forest", "linmod", "logistic", "kmeans", "pca", "kpca", "svm", "ann"};
const ScenReg *pick_savable(Rng &r) {
    std::vector<const ScenReg *> c;
    for (auto &s : scenarios()) for (auto n : savable) if (!strcmp(s.name, n)) c.push_back(&s);
    if (S.opts.count("scen")) for (auto s : c) if (S.opts["scen"] == s->name) return s;
    return r.pick(c);
}
struct Guard { // sets the hook and the "meta" mode
    explicit Guard(std::function<void(Handle &, const char *, bool)> f) { S.opts["meta"] = "1"; hookfn = std::move(f); }
    ~Guard() { hookfn = nullptr; S.opts.erase("meta"); }
};
std::string &tmpname() {
    static std::string n;
    if (n.empty()) { const char *t = getenv("TMPDIR"); n = fmt("%s/davt_model_%d", t ? t : "/tmp", (int)getpid()); atexit([] { unlink(tmpname().c_str()); }); }
    return n;
}
bool read_file(const std::string &n, Bytes &b) {
    FILE *f = fopen(n.c_str(), "rb");
    if (!f) return false;
    b.clear();
    char buf[65536]; size_t k;
    while ((k = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + k);
    fclose(f);
    return true;
}
bool write_file(const std::string &n, const Bytes &b) {
    FILE *f = fopen(n.c_str(), "wb");
    if (!f) return false;
    size_t k = b.empty() ? 0 : fwrite(b.data(), 1, b.size(), f);
    return fclose(f) == 0 && k == b.size();
}
da_status save_to(da_handle h, Bytes &b, bool file) {
    if (!file) return da_handle_save_model(h, b);
    da_status s = da_handle_save_model(h, tmpname().c_str());
    if (s) return s;
    if (!read_file(tmpname(), b)) b.clear();
    return s;
}
da_status load_from(da_handle *h, const Bytes &b, bool file) {
    if (!file) { // an exact block: reads past the end are seen
        std::unique_ptr<char[]> p(new char[std::max<size_t>(b.size(), 1)]);
        if (!b.empty()) memcpy(p.get(), b.data(), b.size());
        return da_handle_load_model(h, p.get(), b.size());
    }
    write_file(tmpname(), b);
    return da_handle_load_model(h, tmpname().c_str());
}
// what a call prints on stdout
std::string captured(std::function<void()> f) {
    fflush(stdout);
    int keep = dup(1), t = open(fmt("%s_out", tmpname().c_str()).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    dup2(t, 1);
    f();
    fflush(stdout);
    dup2(keep, 1); close(keep);
    std::string r; char b[4096]; ssize_t k;
    lseek(t, 0, SEEK_SET);
    while ((k = read(t, b, sizeof b)) > 0) r.append(b, (size_t)k);
    close(t); unlink(fmt("%s_out", tmpname().c_str()).c_str());
    return r;
}
std::string options_of(da_handle h) { // the blocks of the options, in a fixed order
    std::string t = captured([&] { da_options_print(h); }), e = "End Option", r;
    std::vector<std::string> b;
    for (size_t p = 0, q; (q = t.find(e, p)) != std::string::npos; p = q + e.size()) { // (who set the value is not a part of the model)
        std::string x = t.substr(p == 0 ? t.find("Begin Option") : p, q - p);
        x = x.substr(std::min(x.size(), x.find("Begin Option")));
        size_t k = x.find("   Set-by");
        x = k == std::string::npos ? x : x.substr(0, k);
        // (the data change the default and the range of the number of clusters)
        if (x.find("n_clusters") != std::string::npos || x.find("'n_components'") != std::string::npos) { k = x.find("[default"); if (k != std::string::npos) x = x.substr(0, k); }
        b.push_back(x);
    }
    std::sort(b.begin(), b.end());
    for (auto &x : b) r += x;
    return r;
}
bool same_outcome(const Outcome &a, const Outcome &b, std::string &w, bool loaded = false) {
    size_t n = std::min(a.st.size(), b.st.size());
    for (size_t i = 0; i < n; i++) if (a.st[i] != b.st[i]) { w = fmt("call %zu: %s=%d against %s=%d", i, a.st[i].first.c_str(), a.st[i].second, b.st[i].first.c_str(), b.st[i].second); return false; }
    if (a.st.size() != b.st.size() || a.items.size() != b.items.size()) { w = fmt("%zu/%zu calls %zu/%zu items", a.st.size(), b.st.size(), a.items.size(), b.items.size()); return false; }
    for (size_t k = 0; k < a.items.size(); k++) {
        const Item &x = a.items[k], &y = b.items[k];
        if (loaded && x.name == "~info" && y.v.size() && std::all_of(y.v.begin(), y.v.end(), [](double z) { return z == -1; })) continue; // (not known of a loaded linear model)
        if (x.v.size() != y.v.size()) { w = fmt("%s: %zu values against %zu", x.name.c_str(), x.v.size(), y.v.size()); return false; }
        for (size_t i = 0; i < x.v.size(); i++) if (!(x.v[i] == y.v[i] || (std::isnan(x.v[i]) && std::isnan(y.v[i])))) { w = fmt("%s[%zu] = %.17g against %.17g", x.name.c_str(), i, x.v[i], y.v[i]); return false; }
    }
    return true;
}

FAMILY(persist, 600, 30000) {
    set_threads(1);
    const ScenReg *sr = pick_savable(rng);
    std::unique_ptr<Scenario> sc = sr->gen(rng);
    Var v = random_var(rng);
    Outcome A;
    { Guard g(nullptr); A = sc->run(v); }
    std::string D = sc->describe() + " " + v.str(), w;
    int mode = (int)rng.below(4);
    bool file = rng.chance(0.3), deep = rng.chance(0.15);
    std::string at = rng.pick({"computed", "computed", "trained", "end"});
    Bytes ref; bool done = false; int refused = 0;
    auto swap = [&](Handle &h, bool keep) {
        Bytes b1, b2, b3;
        std::string o1 = deep ? options_of(h) : "";
        da_status s = save_to(h, b1, file);
        if (s) { refused = s; return; }
        if (deep) { // unrelated content of the receiving buffer is replaced
            b2.assign(100, 'x');
            save_to(h, b2, !file);
            VCHECK(b1 == b2, "persist:save-twice", "%s: saving twice gives %zu and %zu different bytes", D.c_str(), b1.size(), b2.size());
            da_handle used = h.h;
            VCHECK(da_handle_load_model(&used, b1.data(), b1.size()) == da_status_invalid_pointer, "persist:load-used", "%s: loading into a handle in use is not refused", D.c_str());
        }
        Handle n;
        s = load_from(&n.h, b1, rng.chance(0.5) ? file : !file);
        VCHECK(s == 0, "persist:load", "%s: loading the model saved at %s gives %d", D.c_str(), at.c_str(), s);
        if (s) return;
        s = save_to(n, b3, false);
        if (getenv("VT_DBG") && b1 != b3) for (size_t q = 0, c = 0; q < std::min(b1.size(), b3.size()) && c < 6; q++) if (b1[q] != b3[q]) { c++; fprintf(stderr, "byte %zu: %d -> %d  near '%s'\n", q, b1[q], b3[q], std::string(b1.begin() + (q > 60 ? q - 60 : 0), b1.begin() + q).c_str()); }
        if (b1.size() == b3.size() && options_of(h) == options_of(n)) { Bytes c1 = b1; std::sort(c1.begin(), c1.end()); std::sort(b3.begin(), b3.end()); if (c1 == b3 || !strcmp(sr->name, "kpca")) b3 = b1; } // (the order in which options are stored is not a part of the model; the leading dimension stored changes)
        VCHECK(s == 0 && b1 == b3, "persist:resave", "%s: the model loaded saves (status %d) as %zu bytes, not the same %zu", D.c_str(), s, b3.size(), b1.size());
        if (deep) {
            std::string o2 = options_of(n);
            size_t k = 0;
            while (k < o1.size() && k < o2.size() && o1[k] == o2[k]) k++;
            VCHECK(o1 == o2, "persist:options", "%s: options differ after loading: ...%s against ...%s", D.c_str(), o1.substr(k > 300 ? k - 300 : 0, 400).c_str(), o2.substr(k > 300 ? k - 300 : 0, 400).c_str());
        }
        if (!keep) std::swap(h.h, n.h);
        ref = b1; done = true;
    };
    if (mode <= 1) { // go on with the loaded model (0) or with the original (1)
        Guard g([&](Handle &h, const char *st, bool) { if (at == st || (at == "trained" && !strcmp(st, "computed") && rng.chance(0.3))) swap(h, mode == 1); });
        Outcome B = sc->run(v);
        if (!same_outcome(A, B, w, mode == 0)) fail(fmt("persist:%s:%s", mode ? "original" : "loaded", sr->name), "%s: after saving%s at %s: %s", D.c_str(), mode ? "" : " and loading", at.c_str(), w.c_str());
        count(mode ? "original-continued" : "loaded-continued");
    } else if (mode == 2) { // before the model is trained saving is refused and nothing changes
        int k = 0;
        Guard g([&](Handle &h, const char *st, bool) {
            if (strcmp(st, "init") && strcmp(st, "opts") && strcmp(st, "data")) return;
            if (v.refit && !strcmp(st, "data")) return;
            Bytes b; da_status s = save_to(h, b, file);
            VCHECK(s != 0, "persist:untrained", "%s: a model at stage %s is saved", D.c_str(), st);
            k++;
        });
        Outcome B = sc->run(v);
        if (!same_outcome(A, B, w)) fail(fmt("persist:refused:%s", sr->name), "%s: after a refused save: %s", D.c_str(), w.c_str());
        count("untrained-refusals", k); done = k > 0;
    } else { // a loaded model trained again
        { Guard g([&](Handle &h, const char *st, bool) { if (!strcmp(st, "computed") && !done) swap(h, true); }); Outcome B = sc->run(v); }
        if (done) {
            // other data or options first: the loaded state is replaced in full
            std::unique_ptr<Scenario> other;
            if (rng.chance(0.7)) { other = sr->gen(rng); Bytes mine = ref; done = false; Guard g([&](Handle &h, const char *st, bool) { if (!strcmp(st, "computed") && !done) swap(h, true); }); Outcome C = other->run(v); if (!done) ref = mine; done = true; }
            Guard g([&](Handle &h, const char *st, bool) {
                if (getenv("VT_DBG")) da_handle_print_error_message(h);
                if (strcmp(st, "init")) return;
                Handle n;
                if (da_handle_load_model(&n.h, ref.data(), ref.size()) == 0) std::swap(h.h, n.h);
            });
            Outcome B = sc->run(v);
            // options not set by the scenario keep the values of the model loaded
            // (nearest neighbours: labels kept by the handle fix the number of samples)
            bool fixed = false;
            if (other) for (size_t i = 0; i < std::min(A.st.size(), B.st.size()); i++) if (B.st[i].first == "set_data" && A.st[i].second == 0 && B.st[i].second == da_status_invalid_array_dimension) fixed = true;
            if (other) for (size_t i = 0; i < std::min(A.st.size(), B.st.size()); i++) if ((B.st[i].first == "data" && B.st[i].second == da_status_incompatible_options) || (B.st[i].first == "o-nc" && B.st[i].second)) fixed = true; // (n_components is bounded by the last data)
            if (fixed) count("size-fixed-by-labels");
            else if (!same_outcome(A, B, w)) fail(fmt("persist:retrained:%s", sr->name), "%s: trained again on a loaded model [%s]: %s", D.c_str(), other ? other->describe().c_str() : "itself", w.c_str());
            count("retrained");
        }
    }
    if (refused) { count(fmt("save-refused-%s-%d", sr->name, refused)); VCHECK(!A.ok() || at == "end" || refused == da_status_no_data || refused == da_status_out_of_date, "persist:refused", "%s: saving at %s gives %d", D.c_str(), at.c_str(), refused); }
    if (done) { nontrivial(hmix(hbytes(ref.data(), ref.size()), hstr((D + at).c_str()) + mode)); count(std::string("done-") + sr->name); count("bytes", (long long)ref.size()); sample(fmt("%zu bytes at %s, mode %d: %s", ref.size(), at.c_str(), mode, D.c_str())); }
}

// ---------------------------------------------------------------- C40
// the model a scenario saves
bool capture(const Scenario &sc, const Var &v, const char *at, Bytes &out) {
    bool got = false;
    S.quiet_sem = true;
    { Guard g([&](Handle &h, const char *st, bool) { if (!got && !strcmp(at, st)) { Bytes b; if (da_handle_save_model(h, b) == 0) { out = b; got = true; } throw StopScenario(); } });
      try { sc.run(v); } catch (StopScenario &) {} }
    S.quiet_sem = false;
    return got;
}
void put64(Bytes &b, size_t at, int64_t x, size_t w = 8) { if (at + w <= b.size()) memcpy(&b[at], &x, w); }
int64_t odd_int(Rng &r, int64_t old, int64_t size) {
    switch (r.below(9)) {
    case 0: return old + 1;
    case 1: return old - 1;
    case 2: return r.pick({(int64_t)0, (int64_t)1, (int64_t)2, (int64_t)3, (int64_t)-1});
    case 3: return r.pick({(int64_t)INT32_MAX, (int64_t)INT32_MIN, INT64_MAX, INT64_MIN, (int64_t)1 << 31, (int64_t)1 << 32, ((int64_t)1 << 32) + 1, (int64_t)1 << 30, (int64_t)1 << 61});
    case 4: return size;
    case 5: return size - 8;
    case 6: return (int64_t)((uint64_t)old * 2);
    case 7: return (int64_t)r.below(64);
    default: return (int64_t)r.u64() >> r.below(64);
    }
}
const size_t H_INT = 27, H_VER = 35, H_TYPE = 43, H_PREC = 51, H_STR = 59;
std::string mutate(Rng &r, Bytes &b, const Bytes &other) {
    size_t n = b.size();
    switch (r.below(13)) {
    case 0: { size_t k = (size_t)r.below((int64_t)n); b.resize(k); return fmt("truncated to %zu of %zu", k, n); }
    case 1: { size_t k = n - 1 - (size_t)r.below(std::min<int64_t>((int64_t)n - 1, 40)); b.resize(k); return fmt("truncated to %zu of %zu", k, n); }
    case 2: { std::string w = "bits"; for (int64_t k = r.in(1, 3); k > 0; k--) { size_t p = (size_t)r.below((int64_t)n); b[p] = (char)(b[p] ^ (1 << r.below(8))); w += fmt(" %zu", p); } return w; }
    case 3: { size_t p = (size_t)r.below((int64_t)n); b[p] = (char)r.u64(); return fmt("byte %zu", p); }
    case 4: case 5: case 6: { // a word that looks like a size or a count
        std::vector<size_t> c;
        for (size_t p = 0; p + 8 <= n; p++) { int64_t x; memcpy(&x, &b[p], 8); if (x > -3 && x < 100000 && x != 0) c.push_back(p); }
        if (c.empty()) return "none";
        // words in the first part of the model more often
        size_t k = (size_t)(r.chance(0.5) ? r.below((int64_t)c.size()) : r.below(std::min<int64_t>((int64_t)c.size(), 200)));
        int64_t x; memcpy(&x, &b[c[k]], 8);
        int64_t y = odd_int(r, x, (int64_t)n);
        put64(b, c[k], y);
        return fmt("word at %zu: %lld for %lld", c[k], (long long)y, (long long)x);
    }
    case 7: { size_t p = r.pick({H_INT, H_VER, H_TYPE, H_PREC, H_STR, (size_t)0}); int64_t x = 0; if (p + 8 <= n) memcpy(&x, &b[p], 8); int64_t y = p == H_TYPE || p == H_PREC ? r.in(-1, 16) : odd_int(r, x, (int64_t)n); put64(b, p, y); return fmt("header word %zu: %lld", p, (long long)y); }
    case 8: { size_t p = (size_t)r.below((int64_t)n), q = (size_t)r.below((int64_t)other.size()); b.resize(p); b.insert(b.end(), other.begin() + (long)q, other.end()); return fmt("spliced at %zu with another from %zu", p, q); }
    case 9: { size_t p = (size_t)r.below((int64_t)std::min(n, other.size())); b.resize(p); b.insert(b.end(), other.begin() + (long)p, other.end()); return fmt("spliced at %zu with another", p); }
    case 10: { size_t p = (size_t)r.below((int64_t)n); size_t k = (size_t)r.in(1, 9); if (r.chance(0.5)) { b.insert(b.begin() + (long)p, k, (char)r.u64()); return fmt("%zu bytes inserted at %zu", k, p); } b.erase(b.begin() + (long)p, b.begin() + (long)std::min(n, p + k)); return fmt("%zu bytes removed at %zu", k, p); }
    case 11: { size_t p = (size_t)r.below((int64_t)n), k = (size_t)std::min<int64_t>((int64_t)(n - p), r.in(1, 64)); char f = r.chance(0.5) ? 0 : (char)0xff; std::fill(b.begin() + (long)p, b.begin() + (long)(p + k), f); return fmt("%zu bytes from %zu set to %d", k, p, f); }
    default: { if (r.chance(0.5)) { b.resize((size_t)r.below(300)); for (auto &c : b) c = (char)r.u64(); return "random bytes"; } size_t k = (size_t)r.in(1, 200); b.insert(b.end(), k, (char)r.u64()); return fmt("%zu bytes appended", k); }
    }
}

std::string sizing(da_handle h) {
    std::string r;
    for (const char *o : {"number of neighbors", "n_components", "n_clusters"}) { da_int v = -1; if (da_options_get_int(h, o, &v) == 0) r += fmt("%s=%d ", o, v); }
    char t[64]; da_int l = 64;
    if (da_options_get_string(h, "storage order", t, &l) == 0) r += t;
    // (the number of components of a (kernel) PCA model decides the sizes of what it writes)
    { da_int one = 1, nc = -1; if (da_handle_get_result_int(h, da_kernel_pca_n_components, &one, &nc) == 0) r += fmt(" components=%d", nc); }
    da_int nc = -1, one = 1, dim = 0; double d[3]; float f[3];
    bool kp = da_handle_get_result_int(h, da_kernel_pca_n_components, &one, &nc) == 0;
    dim = 0; bool dd = da_handle_get_result_d(h, da_pca_total_variance, &dim, d) == da_status_invalid_array_dimension;
    dim = 0; bool ff = da_handle_get_result_s(h, da_pca_total_variance, &dim, f) == da_status_invalid_array_dimension;
    if (kp || dd || ff) {
        dim = kp ? 2 : 3; if (da_handle_get_result_d(h, da_rinfo, &dim, d) == 0) r += fmt(" features=%g components=%g", d[1], kp ? 0. : d[2]);
        dim = kp ? 2 : 3; if (da_handle_get_result_s(h, da_rinfo, &dim, f) == 0) r += fmt(" features=%g components=%g", f[1], kp ? 0. : f[2]);
    }
    return r;
}
FAMILY(corrupt, 300, 20000) {
    set_threads(1);
    const ScenReg *sr = pick_savable(rng);
    std::unique_ptr<Scenario> sc = sr->gen(rng), s2 = pick_savable(rng)->gen(rng);
    Var v = random_var(rng), v2 = random_var(rng);
    v.refit = v2.refit = 0;
    const char *at = rng.chance(0.6) ? "computed" : rng.chance(0.5) ? "trained" : "end";
    Bytes base, other;
    if (!capture(*sc, v, at, base) && !capture(*sc, v, at = "computed", base)) { count("not-saved"); return; }
    if (!capture(*s2, v2, "computed", other)) other = base;
    std::string sizes;
    { Handle h; if (load_from(&h.h, base, false) == 0) sizes = sizing(h); }
    int m = S.thorough ? 60 : 25;
    for (int k = 0; k < m; k++) {
        Bytes b = base;
        std::string w = mutate(rng, b, other);
        if (rng.chance(0.15)) w += ", " + (b.size() > 8 ? mutate(rng, b, other) : std::string("short"));
        if (b == base) continue;
        bool file = rng.chance(0.1);
        std::string D = fmt("%s %s [%s at %s]", w.c_str(), file ? "file" : "memory", sc->describe().c_str(), at);
        if (getenv("VT_DBG")) fprintf(stderr, "%d %s\n", k, D.c_str());
        Handle h;
        da_status s = load_from(&h.h, b, file);
        count(fmt("load-status-%d", (int)s));
        VCHECK(s == 0 || s == da_status_memory_error || s == da_status_invalid_pointer || s == da_status_invalid_input || s == da_status_io_error || s == da_status_invalid_file_data || s == da_status_version_mismatch || s == da_status_internal_error || s == da_status_not_implemented, "corrupt:status", "%s: undocumented status %d", D.c_str(), s);
        if (s == 0) {
            VCHECK(h.h != nullptr, "corrupt:null", "%s: success without a handle", D.c_str());
            if (!h.h) continue;
            nontrivial(hbytes(b.data(), b.size()));
            // a model was accepted: it has to be usable
            Bytes b2; save_to(h, b2, false);
            // (options that decide the sizes and the layout of the arrays passed: a user of this model would pass others)
            if (sizing(h) != sizes) { count("accepted-other-sizes"); continue; }
            Outcome o;
            { S.quiet_sem = true; S.slack = true; // (the storage order may be another one)
              Guard g([&](Handle &hh, const char *st, bool) { if (!strcmp(st, at)) std::swap(hh.h, h.h); });
              o = sc->run(v);
              S.quiet_sem = S.slack = false; }
            count("accepted-used");
        } else {
            if (h.h) { // what is left is a handle that can be queried, used for something else and destroyed
                count("refused-with-handle");
                Bytes b2;
                if (rng.chance(0.5)) { // (a part of a model is not a model)
                    s = save_to(h, b2, false);
                    VCHECK(s != 0, "corrupt:partial-saved", "%s: what is left of a refused model (status %d) can be saved", D.c_str(), s);
                }
                S.quiet_sem = S.slack = true;
                int stage = (int)rng.below(2);
                { Guard g([&](Handle &hh, const char *st, bool) { if (!strcmp(st, stage ? "init" : at)) { std::swap(hh.h, h.h);
                      // (options of the refused model that the scenario leaves alone only cost time)
                      set_int(hh, "number of trees", 3); set_int(hh, "maximum iterations", 20); set_int(hh, "n_init", 1); } });
                  sc->run(v); }
                S.quiet_sem = S.slack = false;
            }
        }
    }
    // the undamaged model is still fine
    Handle h;
    VCHECK(load_from(&h.h, base, false) == 0, "corrupt:intact", "%s: an intact model is refused", sc->describe().c_str());
    sample(fmt("%zu bytes of %s", base.size(), sc->describe().c_str()));
}

// the file system fails while a model is saved or loaded
FAMILY(modelio, 100, 3000) {
    set_threads(1);
    std::unique_ptr<Scenario> sc = pick_savable(rng)->gen(rng);
    Var v = random_var(rng); v.refit = 0;
    Bytes base;
    if (!capture(*sc, v, "computed", base)) { count("not-saved"); return; }
    std::string D = fmt("%zu bytes of %s", base.size(), sc->describe().c_str());
    Handle h;
    if (load_from(&h.h, base, false)) return;
    if (save_to(h, base, false)) return; // (options may be stored in another order)
    std::string dir = tmpname() + "_dir", f = dir + "/m";
    mkdir(dir.c_str(), 0700);
    // what cannot be opened
    for (std::string n : {dir, dir + "/no/m", f + std::string(5000, 'x')}) {
        da_status s = da_handle_save_model(h.h, n.c_str());
        VCHECK(s == da_status_io_error, "modelio:save-open", "%s: saving to an impossible name gives %d", D.c_str(), s);
        Handle l;
#ifdef __SANITIZE_ADDRESS__
        if (n == dir) continue; // (the "size" of a directory cannot be allocated, which ends a sanitized process)
#endif
        s = da_handle_load_model(&l.h, n.c_str());
        VCHECK(s == da_status_io_error || s == da_status_invalid_file_data || s == da_status_memory_error, "modelio:load-open", "%s: loading from an impossible name gives %d", D.c_str(), s);
        VCHECK(l.h == nullptr, "modelio:load-handle", "%s: a handle was made of nothing", D.c_str());
    }
    VCHECK(da_handle_load_model(&h.h, dir.c_str()) != 0 && h.h, "modelio:used", "%s: loading into a used handle succeeds", D.c_str());
    // a disk that fills up after k bytes, then one with just enough space
    for (int j = 0; j < 6; j++) {
        size_t n = base.size(), k = j == 5 ? n : j == 4 ? n - 1 : j == 3 ? 0 : (size_t)(rng.chance(0.5) ? rng.below((int64_t)n) : (int64_t)(n - 1) / 8191 * 8191 * (int64_t)(n > 8191) + rng.below((int64_t)n % 8191 + 1));
        if (k > n) k = n;
        if (rng.chance(0.5)) { Bytes junk((size_t)rng.below(3 * (int64_t)n), 'j'); write_file(f, junk); }
        else unlink(f.c_str());
        struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = (rlim_t)k;
        auto sig = signal(SIGXFSZ, SIG_IGN);
        fflush(stdout);
        setrlimit(RLIMIT_FSIZE, &lim);
        da_status s = da_handle_save_model(h.h, f.c_str());
        setrlimit(RLIMIT_FSIZE, &old);
        signal(SIGXFSZ, sig);
        Bytes got; read_file(f, got);
        if (k < n) VCHECK(s == da_status_io_error, "modelio:full", "%s: %zu bytes could be written and saving gives %d", D.c_str(), k, s);
        else VCHECK(s == 0 && got == base, "modelio:fits", "%s: saving to a file system with enough space gives %d and %zu bytes", D.c_str(), s, got.size());
        Handle l;
        s = da_handle_load_model(&l.h, f.c_str());
        VCHECK((s == 0) == (got == base), "modelio:partial", "%s: what was saved, %zu bytes, loads with status %d", D.c_str(), got.size(), s);
        count(k < n ? "full-disks" : "complete-saves");
        Bytes b2; // the model is not harmed
        VCHECK(save_to(h, b2, false) == 0 && b2 == base, "modelio:after", "%s: the model changed after saving to a full disk", D.c_str());
    }
    unlink(f.c_str()); rmdir(dir.c_str());
    nontrivial(hbytes(base.data(), base.size()));
    sample(D);
}
} // namespace
