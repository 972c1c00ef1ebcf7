// C16 layout utilities and data checks, C17 shuffling and splitting
#include "vt.hpp"
#include <omp.h>
using namespace vt;
namespace {
DAF(da_check_data) DAF(da_switch_order_copy) DAF(da_switch_order_in_place)
template <class T> struct Tts;
template <> struct Tts<double> { static constexpr auto split = &da_train_test_split_d; static constexpr auto shuf = &da_get_shuffled_indices_d; static const char *nm() { return "d"; } };
template <> struct Tts<float> { static constexpr auto split = &da_train_test_split_s; static constexpr auto shuf = &da_get_shuffled_indices_s; static const char *nm() { return "s"; } };
template <> struct Tts<da_int> { static constexpr auto split = &da_train_test_split_int; static constexpr auto shuf = &da_get_shuffled_indices_int; static const char *nm() { return "int"; } };

// every cell distinct, exactly representable
template <class T> T cell(int64_t i, int64_t j, int64_t m, int64_t salt) { return (T)(double)((i * m + j + salt) % 8388000 + 1); }

template <class T> void split(Rng &r) {
    int64_t m = r.size(2, r.chance(0.05) ? 3000 : 300), n = r.size(1, r.chance(0.05) ? 400 : 40);
    if (m * n > 200000) n = 1 + 200000 / m / 2;
    da_order ord = r.chance(0.5) ? row_major : column_major;
    int64_t tr = r.in(1, m - 1), te = r.chance(0.5) ? m - tr : r.in(1, m - tr);
    if (r.chance(0.15)) { tr = m / 2; te = std::min(tr, m - tr); }
    int th = r.pick({1, 1, 2, 3, 8});
    Buf<T> X("X", m, n, ord, r.chance(0.5) ? 0 : r.in(1, 9));
    int64_t salt = r.below(1000);
    for (int64_t i = 0; i < m; i++) for (int64_t j = 0; j < n; j++) X.at(i, j) = cell<T>(i, j, n, salt);
    X.freeze();
    Buf<T> A("X_train", tr, n, ord, r.chance(0.5) ? 0 : r.in(1, 9)), B("X_test", te, n, ord, r.chance(0.5) ? 0 : r.in(1, 9));
    bool shuffle = r.chance(0.6);
    Buf<da_int> idx("shuffle_array", shuffle ? (r.chance(0.5) ? tr + te : m) : 0, 1);
    std::vector<da_int> pi(m);
    for (int64_t i = 0; i < m; i++) pi[i] = (da_int)i;
    std::string how = "none";
    if (shuffle) {
        if (r.chance(0.3)) { how = "library"; std::unique_ptr<da_int[]> q(new da_int[m]); da_status s = Tts<T>::shuf((da_int)m, (da_int)r.in(0, 1000), (da_int)tr, (da_int)te, 10, nullptr, q.get()); if (!s) std::copy(q.get(), q.get() + m, pi.begin()); else fail("shuffle-status", "get_shuffled_indices: %s", stname(s)); }
        else if (r.chance(0.5)) { how = "permutation"; for (int64_t i = m; i > 1; i--) std::swap(pi[i - 1], pi[r.below(i)]); }
        else { how = "repeats"; for (auto &p : pi) p = (da_int)r.below(m); }
        for (int64_t i = 0; i < idx.n; i++) idx.p[i] = pi[i];
        idx.freeze();
    }
    std::string d = fmt("split_%s %lldx%lld train=%lld test=%lld %s ldx=%lld,%lld,%lld shuffle=%s threads=%d", Tts<T>::nm(), (long long)m, (long long)n, (long long)tr, (long long)te, ord == row_major ? "row" : "col", (long long)X.ld, (long long)A.ld, (long long)B.ld, how.c_str(), th);
    sample(d);
    set_threads(th);
    da_status s = Tts<T>::split(ord, (da_int)m, (da_int)n, X.data(), X.ldi(), (da_int)tr, (da_int)te, shuffle ? idx.data() : nullptr, A.data(), A.ldi(), B.data(), B.ldi());
    if (s) { fail("split-status", "%s: %s", d.c_str(), stname(s)); return; }
    X.verify(); A.verify(); B.verify(); if (shuffle) idx.verify();
    for (int64_t i = 0; i < tr + te; i++)
        for (int64_t j = 0; j < n; j++) {
            T got = i < tr ? A.at(i, j) : B.at(i - tr, j), want = X.at(pi[i], j);
            if (memcmp(&got, &want, sizeof(T))) { fail(i < tr ? "train" : "test", "%s: row %lld, column %lld of the %s part is %g, expected %g (sample %d)", d.c_str(), (long long)(i < tr ? i : i - tr), (long long)j, i < tr ? "training" : "test", (double)got, (double)want, (int)pi[i]); return; }
        }
    count("rows_checked", tr + te);
    nontrivial(hstr(d.c_str()));
    // refused arguments leave the outputs alone
    if (r.chance(0.1)) {
        Buf<T> C("X_train", tr, n, ord), D("X_test", te, n, ord);
        da_int em = (da_int)m, en = (da_int)n, el = X.ldi(), et = (da_int)tr, ee = (da_int)te, ea = C.ldi(), eb = D.ldi();
        const T *xp = X.data(); T *cp = C.data(), *dp = D.data();
        std::string what;
        switch (r.below(9)) {
        case 0: what = "m"; em = (da_int)r.in(-1, 1); break;
        case 1: what = "n"; en = 0; break;
        case 2: what = "ldx"; el = (da_int)((ord == row_major ? n : m) - 1); break;
        case 3: what = "train"; et = (da_int)r.in(-2, 0); break;
        case 4: what = "test"; ee = (da_int)r.in(-2, 0); break;
        case 5: what = "sum"; ee = (da_int)(m - tr + 1); eb = std::max(eb, ee); break;
        case 6: what = "overflow"; ee = et = std::numeric_limits<da_int>::max(); ea = eb = et; break;
        case 7: what = "null"; (r.chance(0.5) ? cp : dp) = nullptr; break;
        default: what = "nullx"; xp = nullptr;
        }
        s = Tts<T>::split(ord, em, en, xp, el, et, ee, nullptr, cp, ea, dp, eb);
        if (s == da_status_success) fail("split-accepts-" + what, "%s: an invalid %s was accepted", d.c_str(), what.c_str());
        if (!C.untouched() || !D.untouched()) fail("split-writes", "%s: outputs were written although %s is invalid", d.c_str(), what.c_str());
    }
}
FAMILY(split, 3000, 60000) {
    switch (rng.below(3)) { case 0: split<double>(rng); break; case 1: split<float>(rng); break; default: split<da_int>(rng); }
}

template <class T> void shuffle(Rng &r) {
    int64_t m = r.size(2, r.chance(0.1) ? 5000 : 200);
    da_int seed = r.chance(0.1) ? -1 : (da_int)r.pick({(int64_t)0, (int64_t)1, (int64_t)std::numeric_limits<da_int>::max(), r.in(0, 100000)});
    Buf<da_int> out("shuffle_array", m, 1), out2("shuffle_array", m, 1);
    bool strat = r.chance(0.75);
    da_int fp = (da_int)r.pick({10, 10, 100, 1000, 100000});
    if (!strat) {
        da_int tr = (da_int)r.in(-1, m), te = (da_int)r.in(-1, m);
        da_status s = Tts<T>::shuf((da_int)m, seed, tr, te, fp, nullptr, out.data());
        if (s) { fail("shuffle-status", "m=%lld seed=%d: %s", (long long)m, (int)seed, stname(s)); return; }
        std::vector<char> seen(m, 0);
        for (int64_t i = 0; i < m; i++) {
            da_int v = out.p[i];
            if (v < 0 || v >= m || seen[v]++) { fail("permutation", "m=%lld seed=%d: entry %lld is %d, not a permutation", (long long)m, (int)seed, (long long)i, (int)v); return; }
        }
        s = Tts<T>::shuf((da_int)m, seed, te, tr, fp, nullptr, out2.data());
        if (seed >= 0 && memcmp(out.data(), out2.data(), m * sizeof(da_int))) fail("seed", "m=%lld seed=%d: another result with the same seed", (long long)m, (int)seed);
        count("permutations");
        nontrivial(hmix(m, seed));
        return;
    }
    // classes
    int64_t k = r.in(1, r.chance(0.7) ? 5 : 20);
    std::vector<double> lab;
    for (int64_t i = 0; i < k; i++) {
        if (sizeof(T) == sizeof(da_int) && std::is_integral<T>::value) lab.push_back((double)(r.chance(0.3) ? r.in(-1000000, 1000000) : r.in(-k, k)));
        else lab.push_back(r.chance(0.5) ? (double)r.in(-4, 4) : f32(r.uni(-3, 3)));
    }
    std::vector<T> c(m);
    bool skew = r.chance(0.5);
    for (auto &x : c) x = (T)lab[skew ? (int64_t)(k * r.uni() * r.uni()) : r.below(k)];
    auto key = [&](T x) -> int64_t { return std::is_integral<T>::value ? (int64_t)x : (int64_t)std::floor((double)(T)(x * (T)fp)); };
    std::map<int64_t, int64_t> cnt;
    for (T x : c) cnt[key(x)]++;
    int64_t nc = cnt.size();
    int64_t lo = std::max<int64_t>(1, nc), tr = r.chance(0.9) ? r.in(lo, std::max(lo, m - lo)) : r.in(0, m), te = r.chance(0.5) ? m - tr : r.in(std::min(lo, m - tr), m - tr);
    if (r.chance(0.1)) te = r.in(0, m);
    bool over = r.chance(0.02);
    if (over) tr = te = std::numeric_limits<da_int>::max();
    bool valid = nc >= 2 && tr + te <= m && tr >= nc && te >= nc;
    for (auto &e : cnt) if (e.second < 2) valid = false;
    Buf<T> C("classes", m, 1);
    std::copy(c.begin(), c.end(), C.data());
    C.freeze();
    std::string d = fmt("stratified_%s m=%lld seed=%d train=%lld test=%lld fp=%d classes=%lld", Tts<T>::nm(), (long long)m, (int)seed, (long long)tr, (long long)te, (int)fp, (long long)nc);
    sample(d);
    da_status s = Tts<T>::shuf((da_int)m, seed, (da_int)tr, (da_int)te, fp, C.data(), out.data());
    C.verify();
    if (!valid) {
        if (s == da_status_success) fail("stratified-accepts", "%s: accepted", d.c_str());
        count("refused");
        return;
    }
    if (s) { fail("stratified-status", "%s: %s", d.c_str(), stname(s)); return; }
    std::vector<char> seen(m, 0);
    std::map<int64_t, int64_t> ct, ce;
    for (int64_t i = 0; i < tr + te; i++) {
        da_int v = out.p[i];
        if (v < 0 || v >= m || seen[v]++) { fail("stratified-distinct", "%s: entry %lld is %d (out of range or repeated)", d.c_str(), (long long)i, (int)v); return; }
        (i < tr ? ct : ce)[key(c[v])]++;
    }
    for (int64_t i = tr + te; i < m; i++) if (!is_sentinel(out.p[i]) && (out.p[i] < 0 || out.p[i] >= m)) fail("stratified-rest", "%s: entry %lld is %d", d.c_str(), (long long)i, (int)out.p[i]);
    for (auto &e : cnt) {
        double want = (double)e.second * tr / m, got = (double)ct[e.first];
        if (std::fabs(got - want) >= 1 + 1e-9) { fail("train-frequency", "%s: class %lld has %lld of %lld samples, %g in the training part, expected about %g", d.c_str(), (long long)e.first, (long long)e.second, (long long)m, got, want); return; }
        double w2 = ((double)e.second - got) * te / (m - tr), g2 = (double)ce[e.first], w3 = (double)e.second * te / m;
        if (std::fabs(g2 - w2) >= 1 + 1e-9 && std::fabs(g2 - w3) >= 1 + 1e-9) { fail("test-frequency", "%s: class %lld has %lld of %lld samples, %g in the test part, expected about %g", d.c_str(), (long long)e.first, (long long)e.second, (long long)m, g2, w3); return; }
    }
    if (seed >= 0) {
        set_threads(r.pick({1, 2, 8}));
        s = Tts<T>::shuf((da_int)m, seed, (da_int)tr, (da_int)te, fp, C.data(), out2.data());
        if (s || memcmp(out.data(), out2.data(), (tr + te) * sizeof(da_int))) fail("seed", "%s: another result with the same seed", d.c_str());
    }
    count("stratified");
    nontrivial(hstr(d.c_str()));
}
FAMILY(shuffle, 3000, 60000) {
    switch (rng.below(3)) { case 0: shuffle<double>(rng); break; case 1: shuffle<float>(rng); break; default: shuffle<da_int>(rng); }
}

template <class T> T special(Rng &r) {
    switch (r.below(10)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return -std::numeric_limits<T>::max();
    case 2: return std::numeric_limits<T>::denorm_min();
    case 3: return (T)-0.0;
    case 4: return std::numeric_limits<T>::min();
    default: return (T)r.norm();
    }
}
template <class T> void layout(Rng &r) {
    int64_t n = r.size(1, r.chance(0.1) ? 700 : 150), m = r.size(1, r.chance(0.1) ? 700 : 150);
    if (n * m > 60000) m = 1 + 60000 / n;
    da_order ord = r.chance(0.5) ? row_major : column_major, oth = ord == row_major ? column_major : row_major;
    set_threads(r.pick({1, 2, 4, 8}));
    Buf<T> X("X", n, m, ord, r.chance(0.5) ? 0 : r.in(1, 70));
    for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < m; j++) X.at(i, j) = r.chance(0.02) ? special<T>(r) : cell<T>(i, j, m, 0);
    std::string d = fmt("%s %lldx%lld %s ld=%lld", pname(sizeof(T) == 4), (long long)n, (long long)m, ord == row_major ? "row" : "col", (long long)X.ld);
    sample(d);
    nontrivial(hstr(d.c_str()));
    // data checks: finite numbers pass, a NaN anywhere does not (padding is full of NaNs)
    {
        X.freeze();
        da_status s = DA(da_check_data)(ord, (da_int)n, (da_int)m, X.data(), X.ldi());
        if (s) fail("check-finite", "%s: check_data returned %s for finite data", d.c_str(), stname(s));
        int64_t i = r.chance(0.4) ? (r.chance(0.5) ? 0 : n - 1) : r.below(n), j = r.chance(0.4) ? (r.chance(0.5) ? 0 : m - 1) : r.below(m);
        T old = X.at(i, j), bad = std::numeric_limits<T>::quiet_NaN();
        if (r.chance(0.5)) bad = -bad;
        if (r.chance(0.3)) bad = sentinel<T>();
        X.at(i, j) = bad;
        s = DA(da_check_data)(ord, (da_int)n, (da_int)m, X.data(), X.ldi());
        if (s != da_status_invalid_input) fail("check-nan", "%s: check_data returned %s with a NaN at %lld,%lld", d.c_str(), stname(s), (long long)i, (long long)j);
        X.at(i, j) = old;
        X.verify();
        count("checks", 2);
    }
    // copies
    {
        Buf<T> Y("Y", n, m, oth, r.chance(0.5) ? 0 : r.in(1, 70)), Z("Z", n, m, ord, r.chance(0.5) ? 0 : r.in(1, 9));
        da_status s = DA(da_switch_order_copy)(ord, (da_int)n, (da_int)m, X.data(), X.ldi(), Y.data(), Y.ldi());
        if (s) { fail("copy-status", "%s: %s", d.c_str(), stname(s)); return; }
        X.verify(); Y.verify();
        for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < m; j++) { T a = X.at(i, j), b = Y.at(i, j); if (memcmp(&a, &b, sizeof a)) { fail("copy", "%s: element %lld,%lld is %g after switch_order_copy (ldy %lld), expected %g", d.c_str(), (long long)i, (long long)j, (double)b, (long long)Y.ld, (double)a); return; } }
        s = DA(da_switch_order_copy)(oth, (da_int)n, (da_int)m, Y.data(), Y.ldi(), Z.data(), Z.ldi());
        Z.verify();
        for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < m; j++) { T a = X.at(i, j), b = Z.at(i, j); if (memcmp(&a, &b, sizeof a)) { fail("copy-back", "%s: element %lld,%lld differs after switching twice", d.c_str(), (long long)i, (long long)j); return; } }
        count("copies", 2);
    }
    // in place
    {
        int64_t l1 = X.ld, l2 = (ord == row_major ? n : m) + (r.chance(0.5) ? 0 : r.in(1, 70));
        int64_t t1 = l1 * (ord == row_major ? n : m), t2 = l2 * (ord == row_major ? m : n), tot = std::max(t1, t2);
        std::unique_ptr<T[]> b(new T[tot]);
        for (int64_t k = 0; k < tot; k++) b[k] = sentinel<T>();
        std::copy(X.data(), X.data() + X.total, b.get());
        da_status s = DA(da_switch_order_in_place)(ord, (da_int)n, (da_int)m, b.get(), (da_int)l1, (da_int)l2);
        if (s) { fail("inplace-status", "%s: %s", d.c_str(), stname(s)); return; }
        for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < m; j++) { T a = X.at(i, j), c = oth == row_major ? b[i * l2 + j] : b[i + j * l2]; if (memcmp(&a, &c, sizeof a)) { fail("inplace", "%s: element %lld,%lld is %g after switch_order_in_place (ld_out %lld), expected %g", d.c_str(), (long long)i, (long long)j, (double)c, (long long)l2, (double)a); return; } }
        count("inplace");
    }
    // refused arguments
    if (r.chance(0.2)) {
        Buf<T> Y("Y", n, m, oth);
        da_int en = (da_int)n, em = (da_int)m, el = X.ldi(), ey = Y.ldi();
        const T *xp = X.data(); T *yp = Y.data();
        switch (r.below(6)) {
        case 0: en = (da_int)r.in(-1, 0); break;
        case 1: em = (da_int)r.in(-1, 0); break;
        case 2: el = (da_int)((ord == row_major ? m : n) - 1); break;
        case 3: ey = (da_int)((ord == row_major ? n : m) - 1); break;
        case 4: xp = nullptr; break;
        default: yp = nullptr;
        }
        if (!DA(da_switch_order_copy)(ord, en, em, xp, el, yp, ey)) fail("copy-accepts", "%s: n=%d m=%d ldx=%d ldy=%d accepted", d.c_str(), (int)en, (int)em, (int)el, (int)ey);
        if (yp && !Y.untouched()) fail("copy-writes", "%s: the output was written although an argument is invalid", d.c_str());
        if ((en < 1 || em < 1 || !xp || el < X.ldi()) && el <= X.ldi() && yp && ey == Y.ldi() && (el < (ord == row_major ? m : n) || en < 1 || em < 1 || !xp))
            if (!DA(da_check_data)(ord, en, em, xp, el)) fail("check-accepts", "%s: n=%d m=%d ldx=%d accepted", d.c_str(), (int)en, (int)em, (int)el);
    }
}
FAMILY(layout, 3000, 60000) {
    if (rng.chance(0.5)) layout<double>(rng); else layout<float>(rng);
}
} // namespace
