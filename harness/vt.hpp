// Harness core: random generation, guarded arrays, reporting, family and scenario registries.
#pragma once
#include "aoclda.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace vt {

// ---------------------------------------------------------------- random numbers
inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hmix(uint64_t a, uint64_t b) {
    uint64_t s = a * 0x2545f4914f6cdd1dull + b;
    return splitmix(s);
}
inline uint64_t hstr(const char *s) {
    uint64_t h = 1469598103934665603ull;
    for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}
inline uint64_t hbytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t u64() { return splitmix(s); }
    // 0..n-1
    int64_t below(int64_t n) { return n <= 0 ? 0 : (int64_t)(u64() % (uint64_t)n); }
    int64_t in(int64_t a, int64_t b) { return a + below(b - a + 1); }
    double uni() { return (double)(u64() >> 11) * 0x1p-53; }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    double norm() {
        double u = uni(), v = uni();
        return std::sqrt(-2.0 * std::log(u + 1e-300)) * std::cos(6.283185307179586 * v);
    }
    bool chance(double p) { return uni() < p; }
    template <class C> auto pick(const C &c) -> decltype(c[0]) { return c[below((int64_t)c.size())]; }
    template <class V> V pick(std::initializer_list<V> l) { return *(l.begin() + below((int64_t)l.size())); }
    // a size with emphasis on small and boundary values
    int64_t size(int64_t lo, int64_t hi) {
        static const int64_t b[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513};
        if (chance(0.4)) {
            int64_t v = b[below(26)];
            if (v >= lo && v <= hi) return v;
        }
        if (chance(0.5)) return in(lo, std::min(hi, lo + 12));
        return in(lo, hi);
    }
};

// ---------------------------------------------------------------- run state and reporting
struct State {
    const char *fam = "";
    uint64_t seed = 1, idx = 0;
    bool thorough = false;
    bool slack = false; // buffers have room for either storage order
    bool quiet_sem = false; // memory-only mode: semantic failures are not reported
    int nviol = 0;
    std::map<std::string, int> perkey;
    std::map<std::string, long long> counts;
    std::set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t digest = 1469598103934665603ull; // of the current case
    std::map<std::string, std::string> opts;  // --opt k=v
};
extern State S;

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
// a violation of the property under check, key identifies the kind
void fail(const std::string &key, const char *f, ...) __attribute__((format(printf, 2, 3)));
inline void count(const std::string &n, long long k = 1) { S.counts[n] += k; }
inline void nontrivial(uint64_t sig) { S.distinct.insert(sig); }
void sample(const std::string &s);
inline void dig(const void *p, size_t n) { S.digest = hbytes(p, n, S.digest); }
template <class T> void digv(const std::vector<T> &v) { dig(v.data(), v.size() * sizeof(T)); }
inline void digi(long long v) { dig(&v, sizeof v); }
const char *stname(int st);

#define VCHECK(cond, key, ...) do { if (!(cond)) vt::fail(key, __VA_ARGS__); } while (0)

// ---------------------------------------------------------------- families
typedef void (*FamFn)(Rng &);
struct Family { const char *name; FamFn fn; int quick, thorough; };
std::vector<Family> &families();
struct RegFam { RegFam(const char *n, FamFn f, int q, int t) { families().push_back({n, f, q, t}); } };
// quick/thorough: default number of cases
#define FAMILY(name, q, t) static void fam_##name(vt::Rng &); static vt::RegFam reg_##name(#name, fam_##name, q, t); static void fam_##name(vt::Rng &rng)

// ---------------------------------------------------------------- logical matrices and guarded buffers
// a logical matrix in row-major doubles (values representable as float unless said otherwise)
struct LM {
    int64_t n = 0, m = 0;
    std::vector<double> a;
    LM() {}
    LM(int64_t n_, int64_t m_, double v = 0) : n(n_), m(m_), a((size_t)(n_ * m_), v) {}
    double &operator()(int64_t i, int64_t j) { return a[(size_t)(i * m + j)]; }
    double operator()(int64_t i, int64_t j) const { return a[(size_t)(i * m + j)]; }
};
inline double f32(double x) { return (double)(float)x; }

template <class T> inline T sentinel();
template <> inline double sentinel<double>() { uint64_t u = 0x7ff4dead5eed1234ull; double d; memcpy(&d, &u, 8); return d; } // a NaN
template <> inline float sentinel<float>() { uint32_t u = 0x7fadbeefu; float d; memcpy(&d, &u, 4); return d; }
template <> inline da_int sentinel<da_int>() { return (da_int)0x5a5a1234; }
template <> inline uint8_t sentinel<uint8_t>() { return 0xa7; }
template <class T> inline bool is_sentinel(const T &x) { T s = sentinel<T>(); return memcmp(&s, &x, sizeof(T)) == 0; }

// A 2D array in the caller's storage order with padding; exact-size heap block, canaries in padding.
template <class T> struct Buf {
    da_order order = column_major;
    int64_t n = 0, m = 0, ld = 0, total = 0;
    std::unique_ptr<T[]> p;
    uint64_t sum = 0;
    bool is_in = false;
    const char *name = "";
    Buf() {}
    // pad: extra leading dimension
    Buf(const char *nm, int64_t n_, int64_t m_, da_order o = column_major, int64_t pad = 0) { alloc(nm, n_, m_, o, pad); }
    void alloc(const char *nm, int64_t n_, int64_t m_, da_order o, int64_t pad) {
        name = nm; n = n_; m = m_; order = o;
        ld = (o == column_major ? n : m) + pad;
        if (ld < 1) ld = 1;
        total = ld * (o == column_major ? m : n);
        int64_t room = S.slack ? std::max(total, std::max({ld, n, m}) * std::max(n, m)) : total;
        p.reset(new T[(size_t)std::max<int64_t>(room, 0)]);
        for (int64_t k = 0; k < room; k++) p[k] = sentinel<T>();
    }
    static Buf input(const char *nm, const LM &x, da_order o = column_major, int64_t pad = 0) {
        Buf b(nm, x.n, x.m, o, pad);
        for (int64_t i = 0; i < x.n; i++) for (int64_t j = 0; j < x.m; j++) b.at(i, j) = (T)x(i, j);
        b.freeze();
        return b;
    }
    static Buf vec(const char *nm, const std::vector<double> &v) {
        Buf b(nm, (int64_t)v.size(), 1);
        for (size_t i = 0; i < v.size(); i++) b.p[i] = (T)v[i];
        b.freeze();
        return b;
    }
    T &at(int64_t i, int64_t j) { return order == column_major ? p[i + j * ld] : p[i * ld + j]; }
    const T &at(int64_t i, int64_t j) const { return order == column_major ? p[i + j * ld] : p[i * ld + j]; }
    T *data() { return p.get(); }
    da_int ldi() const { return (da_int)ld; }
    void freeze() { is_in = true; sum = hbytes(p.get(), (size_t)total * sizeof(T)); }
    // inputs: not modified; outputs: padding untouched
    void verify() const {
        if (is_in) {
            if (hbytes(p.get(), (size_t)total * sizeof(T)) != sum) fail(std::string("input-modified:") + name, "input array %s was modified (%lld x %lld, ld %lld)", name, (long long)n, (long long)m, (long long)ld);
            return;
        }
        int64_t minor = order == column_major ? n : m, major = order == column_major ? m : n;
        for (int64_t q = 0; q < major; q++)
            for (int64_t r = minor; r < ld; r++)
                if (q * ld + r < total && !is_sentinel(p[q * ld + r])) {
                    fail(std::string("padding-written:") + name, "padding of output %s written at major %lld offset %lld (%lld x %lld, ld %lld)", name, (long long)q, (long long)r, (long long)n, (long long)m, (long long)ld);
                    return;
                }
    }
    bool untouched() const {
        for (int64_t k = 0; k < total; k++) if (!is_sentinel(p[k])) return false;
        return true;
    }
    bool fully_written() const {
        for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < m; j++) if (is_sentinel(at(i, j))) return false;
        return true;
    }
    LM lm() const {
        LM r(n, m);
        for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < m; j++) r(i, j) = (double)at(i, j);
        return r;
    }
    std::vector<double> vecd() const { return lm().a; }
    // digest of the logical content
    void digest() const { for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < m; j++) dig(&at(i, j), sizeof(T)); }
};

// ---------------------------------------------------------------- scenarios
// How a scenario is to be run: nothing here may change the mathematical result.
struct Var {
    bool f32 = false;
    da_order order = column_major;
    int pad = 0;      // extra leading dimension of inputs
    int opad = 0;     // and of outputs
    int refit = 0;    // compute this many times more on the same handle first (same data)
    int threads = 0;  // omp threads, 0: leave
    int check_data = 0;
    std::string str() const;
};
enum Kind { REAL, DISC };
struct Item {
    std::string name;
    Kind kind;
    std::vector<double> v;
    double scale; // magnitude against which rounding differences are judged
};
struct Outcome {
    std::vector<std::pair<std::string, int>> st; // statuses of the calls, in order
    std::vector<Item> items;
    da_status add(const char *n, da_status s) { st.push_back({n, (int)s}); digi((int)s); return s; }
    void real(const std::string &n, std::vector<double> v, double scale = 0) {
        if (scale <= 0) for (double x : v) if (std::isfinite(x)) scale = std::max(scale, std::fabs(x));
        for (double x : v) dig(&x, 8);
        items.push_back({n, REAL, std::move(v), scale});
    }
    void disc(const std::string &n, std::vector<double> v) {
        for (double x : v) dig(&x, 8);
        items.push_back({n, DISC, std::move(v), 0});
    }
    const Item *get(const std::string &n) const { for (auto &i : items) if (i.name == n) return &i; return nullptr; }
    bool ok() const { for (auto &s : st) if (s.second != 0) return false; return true; }
    std::string statuses() const;
};
struct Scenario {
    virtual ~Scenario() {}
    virtual std::string describe() const = 0;
    virtual Outcome run(const Var &v) const = 0;
    // the oracle of the algorithm's own property; reports through fail()
    virtual void check(const Outcome &, const Var &) const {}
    // tolerances for comparing outcomes of the same scenario (relative to item scale);
    // 0: not comparable under that variation
    virtual double tol_layout() const { return 1e-9; }   // double precision, rounding-level changes
    virtual double tol_f32() const { return 0; }         // float against double
    virtual bool ties() const { return false; }           // discrete results may legitimately differ
    virtual int64_t features() const { return 0; }        // of the training data (0: none)
};
typedef std::unique_ptr<Scenario> (*ScenGen)(Rng &);
struct ScenReg { const char *name; ScenGen gen; double weight; };
std::vector<ScenReg> &scenarios();
struct RegScen { RegScen(const char *n, ScenGen g, double w = 1) { scenarios().push_back({n, g, w}); } };
// compare two outcomes; reports fail(key...) when they differ
bool compare(const std::string &key, const Scenario &s, const Outcome &a, const Outcome &b, double tol, bool disc_too, const std::string &what, double floor = 0);
Var random_var(Rng &r);

// called by scenarios at fixed points of the life of a handle ("init", "opts", "data", "computed", "end");
// the meta families put saving and loading, invalid calls, queries ... there. A hook may replace the handle.
struct Handle;
extern std::function<void(Handle &, const char *, bool)> hookfn;
template <class T> inline void hook(Handle &h, const char *stage) { if (hookfn) hookfn(h, stage, sizeof(T) == 4); }
struct StopScenario {};

// ---------------------------------------------------------------- data generators (float-representable values)
LM gen_data(Rng &r, int64_t n, int64_t m, int kind = -1, std::string *desc = nullptr);
enum DataKind { D_GAUSS, D_UNIF, D_GRID, D_CLUST, D_DUP, D_CONSTCOL, D_BIG, D_TINY, D_OFFSET, D_ONEHOT, D_NKINDS };

// ---------------------------------------------------------------- options helpers
template <class T> da_status set_real(da_handle h, const char *o, T v);
template <> inline da_status set_real<double>(da_handle h, const char *o, double v) { return da_options_set_real_d(h, o, v); }
template <> inline da_status set_real<float>(da_handle h, const char *o, float v) { return da_options_set_real_s(h, o, v); }
inline da_status set_str(da_handle h, const char *o, const char *v) { return da_options_set_string(h, o, v); }
inline da_status set_int(da_handle h, const char *o, da_int v) { return da_options_set_int(h, o, v); }

void set_threads(int n);

// dispatch T -> _d/_s C function
#define DAF(name) template <class T> struct F_##name; \
    template <> struct F_##name<double> { static constexpr auto f = &name##_d; }; \
    template <> struct F_##name<float> { static constexpr auto f = &name##_s; };
#define DA(name) (*F_##name<T>::f)
DAF(da_handle_init)
DAF(da_handle_get_result)

struct Handle {
    da_handle h = nullptr;
    ~Handle() { da_handle_destroy(&h); }
    operator da_handle() { return h; }
    Handle() {}
    Handle(const Handle &) = delete;
    Handle &operator=(const Handle &) = delete;
};

template <class T> std::vector<double> get_real(da_handle h, da_result q, Outcome *o = nullptr, const char *nm = nullptr) {
    da_int dim = 0;
    T dummy[1];
    da_status s = DA(da_handle_get_result)(h, q, &dim, dummy);
    if (s != da_status_invalid_array_dimension) { if (o) o->add(nm ? nm : "get", s); return {}; }
    std::unique_ptr<T[]> b(new T[(size_t)dim]);
    s = DA(da_handle_get_result)(h, q, &dim, b.get());
    if (o) o->add(nm ? nm : "get", s);
    if (s) return {};
    return std::vector<double>(b.get(), b.get() + dim);
}
inline std::vector<double> get_int(da_handle h, da_result q, Outcome *o = nullptr, const char *nm = nullptr) {
    da_int dim = 0, dummy[1];
    da_status s = da_handle_get_result_int(h, q, &dim, dummy);
    if (s != da_status_invalid_array_dimension) { if (o) o->add(nm ? nm : "getint", s); return {}; }
    std::unique_ptr<da_int[]> b(new da_int[(size_t)dim]);
    s = da_handle_get_result_int(h, q, &dim, b.get());
    if (o) o->add(nm ? nm : "getint", s);
    if (s) return {};
    return std::vector<double>(b.get(), b.get() + dim);
}

inline const char *pname(bool f) { return f ? "s" : "d"; }
// scenario boilerplate: dispatch run(Var) to run_t<T>
#define RUN_DISPATCH Outcome run(const Var &v) const override { return v.f32 ? run_t<float>(v) : run_t<double>(v); }

} // namespace vt
