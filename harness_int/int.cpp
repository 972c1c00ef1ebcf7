// Monitors of internal containers: interval sets and maps, the growing array, the LRU cache of
// kernel columns, and the serialization buffer. Built as a second executable, so that a change of
// these internal interfaces only disables these families.
#include "vt.hpp"
#include "da_cache.hpp"
#include "da_vector.hpp"
#include "interval_map.hpp"
#include "interval_set.hpp"
#include "model_persistence.hpp"
#include <map>
#include <set>
#include <deque>
#include <algorithm>
using namespace vt;
namespace vt { static uint64_t hs(const std::string &s) { return hbytes(s.data(), s.size()); } }

// ------------------------------------------------------------------------------- interval sets
FAMILY(ivset, 4000, 200000) {
    using namespace da_interval;
    int dom = (int)rng.in(3, 60), off = rng.chance(0.3) ? -(int)rng.in(1, 40) : rng.chance(0.2) ? (int)rng.in(1, 2000000000) : 0;
    int nop = (int)rng.in(1, 40);
    interval_set s;
    std::set<long> m;
    std::string hist;
    int maxlen = rng.chance(0.3) ? dom : (int)rng.in(0, 6);
    for (int k = 0; k < nop; k++) {
        int op = (int)rng.in(0, 99);
        int lb = (int)rng.in(0, dom - 1), ub = lb + (int)rng.in(0, maxlen);
        if (rng.chance(0.05)) ub = lb - (int)rng.in(1, 5);
        lb += off; ub += off;
        if (op < 50) {
            hist += fmt("+[%d,%d]", lb, ub);
            da_status st = s.insert({lb, ub});
            if ((ub < lb) != (st != da_status_success)) { fail("ivset:status", "insert status %d: %s", st, hist.c_str()); return; }
            for (long i = lb; i <= ub; i++) m.insert(i);
        } else if (op < 97) {
            hist += fmt("-[%d,%d]", lb, ub);
            da_status st = s.erase({lb, ub});
            if ((ub < lb) != (st != da_status_success)) { fail("ivset:status", "erase status %d: %s", st, hist.c_str()); return; }
            for (long i = lb; i <= ub; i++) m.erase(i);
        } else { hist += "clear"; s.clear(); m.clear(); }
        std::vector<long> got;
        long last = -1000000; bool first = true;
        int n = 0;
        for (auto it = s.begin(); it != s.end(); ++it) {
            if (++n > 1000) { fail("ivset:endless", "%s", hist.c_str()); return; }
            long a = it->lower, b = it->upper;
            if (b < a || b - a > 1000) { fail("ivset:bad", "interval [%ld,%ld] after %s", a, b, hist.c_str()); return; }
            if (!first && a <= last) { fail("ivset:overlap", "intervals overlap or are unsorted at [%ld,%ld] after %s", a, b, hist.c_str()); return; }
            first = false; last = b;
            for (long i = a; i <= b; i++) got.push_back(i);
        }
        if (got.size() != m.size() || !std::equal(got.begin(), got.end(), m.begin())) { fail("ivset:content", "set differs (%zu against %zu elements) after %s", got.size(), m.size(), hist.c_str()); return; }
        if (s.empty() != m.empty()) { fail("ivset:empty", "%s", hist.c_str()); return; }
        for (int q = -2; q < dom + maxlen + 3; q++) {
            int key = q + off;
            interval inc{-77, -77};
            bool f = s.find(key, inc);
            auto it = s.find(key);
            bool e = m.count(key) > 0;
            if (f != e || (it != s.end()) != e) { fail("ivset:find", "find(%d) gives %d/%d, expected %d after %s", key, f, (int)(it != s.end()), e, hist.c_str()); return; }
            if (e && !(inc.lower <= key && key <= inc.upper && m.count(inc.lower) && m.count(inc.upper) && it->lower == inc.lower && it->upper == inc.upper)) { fail("ivset:find", "find(%d) gives [%d,%d] after %s", key, inc.lower, inc.upper, hist.c_str()); return; }
        }
        count("ops");
    }
    nontrivial(vt::hs(hist));
    if (rng.chance(0.001)) sample(hist.substr(0, 200));
}

FAMILY(ivmap, 4000, 200000) {
    using namespace da_interval;
    int dom = (int)rng.in(3, 60), off = rng.chance(0.3) ? -(int)rng.in(1, 40) : 0;
    int nop = (int)rng.in(1, 40);
    interval_map<int> s;
    std::map<int, std::pair<int, int>> m; // lower -> upper, value
    std::string hist;
    int maxlen = rng.chance(0.3) ? dom : (int)rng.in(0, 6);
    auto find = [&](int key) { auto it = m.upper_bound(key); if (it == m.begin()) return m.end(); --it; return it->second.first >= key ? it : m.end(); };
    for (int k = 0; k < nop; k++) {
        int op = (int)rng.in(0, 99);
        int lb = (int)rng.in(0, dom - 1), ub = lb + (int)rng.in(0, maxlen);
        if (rng.chance(0.05)) ub = lb - (int)rng.in(1, 5);
        lb += off; ub += off;
        if (op < 65) {
            hist += fmt("+[%d,%d]=%d", lb, ub, k);
            bool ok = ub >= lb;
            for (auto &e : m) if (e.first <= ub && lb <= e.second.first) ok = false;
            da_status st = s.insert({lb, ub}, k);
            if (ok != (st == da_status_success)) { fail("ivmap:status", "insert status %d expected %s: %s", st, ok ? "success" : "refusal", hist.c_str()); return; }
            if (ok) m[lb] = {ub, k};
        } else if (op < 90) {
            hist += fmt("-%d", lb);
            s.erase(lb);
            auto it = find(lb);
            if (it != m.end()) m.erase(it);
        } else {
            // erase a range of intervals
            int a = (int)rng.in(0, (int)m.size()), b = (int)rng.in(a, (int)m.size());
            hist += fmt("-range(%d,%d)", a, b);
            auto ia = s.begin(), ib = s.begin(); auto ma = m.begin(), mb = m.begin();
            for (int i = 0; i < a; i++) { ++ia; ++ma; }
            for (int i = 0; i < b; i++) { ++ib; ++mb; }
            s.erase(ia, ib); m.erase(ma, mb);
        }
        auto mi = m.begin();
        int n = 0;
        for (auto it = s.begin(); it != s.end(); ++it, ++mi) {
            if (++n > 1000 || mi == m.end() || it->first.lower != mi->first || it->first.upper != mi->second.first || it->second != mi->second.second) { fail("ivmap:content", "entry [%d,%d]=%d is not the expected one after %s", it->first.lower, it->first.upper, it->second, hist.c_str()); return; }
        }
        if (mi != m.end() || s.empty() != m.empty()) { fail("ivmap:content", "entries are missing after %s", hist.c_str()); return; }
        for (int q = -2; q < dom + maxlen + 3; q++) {
            int key = q + off, v = -5, l = -5, u = -5;
            bool f = s.find(key, v, l, u);
            auto it = s.find(key);
            auto e = find(key);
            if (f != (e != m.end()) || (it != s.end()) != f) { fail("ivmap:find", "find(%d) gives %d after %s", key, f, hist.c_str()); return; }
            if (f && (l != e->first || u != e->second.first || v != e->second.second || it->second != v || it->first.lower != l)) { fail("ivmap:find", "find(%d) gives [%d,%d]=%d after %s", key, l, u, v, hist.c_str()); return; }
        }
        count("ops");
    }
    nontrivial(vt::hs(hist));
}

// ------------------------------------------------------------------------------- growing array
template <class T> T mkval(uint64_t x) {
    if constexpr (std::is_same_v<T, bool>) return x & 1;
    else if constexpr (std::is_same_v<T, _Float16>) return (_Float16)(int)(x % 2000);
    else return (T)(x % 1000003);
}
template <class T> static void davec_t(Rng &rng) {
    using V = da_vector::da_vector<T>;
    struct Pair { std::unique_ptr<V> v; std::vector<T> m; std::vector<char> def; };
    std::string hist;
    std::vector<Pair> p(2);
    for (auto &q : p) {
        if (rng.chance(0.5)) q.v.reset(new V());
        else {
            size_t n = rng.chance(0.3) ? (size_t)(1u << rng.in(0, 12)) + rng.in(-1, 1) : (size_t)rng.in(0, 300);
            q.v.reset(new V(n));
            hist += fmt("new(%zu) ", n);
            if (q.v->size() != n) { fail("davec:size", "constructed with %zu, has %zu", n, q.v->size()); return; }
            q.m.resize(n); q.def.assign(n, 0);
        }
    }
    uint64_t uid = rng.u64() % 1000;
    int nop = (int)rng.in(1, 60);
    int big = rng.chance(0.2) ? 3000 : 100;
    for (int k = 0; k < nop; k++) {
        int a = (int)rng.in(0, 1);
        Pair &x = p[a], &y = p[1 - a];
        int op = (int)rng.in(0, 13);
        hist += fmt("%d", a);
        switch (op) {
        case 0: case 1: {
            int n = (int)rng.in(1, big);
            hist += fmt("push*%d ", n);
            for (int i = 0; i < n; i++) { T v = mkval<T>(uid += 7); x.v->push_back(v); x.m.push_back(v); x.def.push_back(1); }
            break;
        }
        case 2: {
            if (x.m.empty()) break;
            // an element of the array itself
            int n = (int)rng.in(1, 80);
            hist += fmt("pushown*%d ", n);
            for (int i = 0; i < n; i++) {
                size_t j = (size_t)rng.in(0, (int)x.m.size() - 1);
                if (!x.def[j]) { x.m[j] = (*x.v)[j] = mkval<T>(uid += 3); x.def[j] = 1; }
                T v = x.m[j];
                x.v->push_back((*x.v)[j]); x.m.push_back(v); x.def.push_back(1);
            }
            break;
        }
        case 3: {
            hist += "append ";
            x.v->append(*y.v); x.m.insert(x.m.end(), y.m.begin(), y.m.end()); x.def.insert(x.def.end(), y.def.begin(), y.def.end());
            break;
        }
        case 4: {
            if (x.m.size() > 20000) break;
            hist += "appendself ";
            x.v->append(*x.v);
            auto c = x.m; x.m.insert(x.m.end(), c.begin(), c.end());
            auto d = x.def; x.def.insert(x.def.end(), d.begin(), d.end());
            break;
        }
        case 5: {
            std::vector<T> w((size_t)rng.in(0, rng.chance(0.2) ? 0 : big));
            for (size_t i = 0; i < w.size(); i++) w[i] = mkval<T>(uid += 11);
            hist += fmt("appendvec(%zu) ", w.size());
            x.v->append(w); x.m.insert(x.m.end(), w.begin(), w.end()); x.def.insert(x.def.end(), w.size(), 1);
            break;
        }
        case 6: case 7: {
            size_t n = rng.chance(0.3) ? x.v->capacity() + (size_t)rng.in(-1, 1) : (size_t)rng.in(0, 2 * big);
            if (rng.chance(0.1)) n = 0;
            if (n > 100000) n = 100000;
            hist += fmt("resize(%zu) ", n);
            x.v->resize(n); x.m.resize(n); x.def.resize(n, 0);
            break;
        }
        case 8: {
            size_t n = rng.chance(0.3) ? x.v->capacity() + (size_t)rng.in(-1, 1) : (size_t)rng.in(0, 4 * big);
            if (n > 100000) n = 100000;
            hist += fmt("reserve(%zu) ", n);
            x.v->reserve(n);
            if (x.v->capacity() < n) { fail("davec:reserve", "capacity %zu after reserve(%zu)", x.v->capacity(), n); return; }
            break;
        }
        case 9: if (rng.chance(0.6)) break; hist += "clear "; x.v->clear(); x.m.clear(); x.def.clear(); break;
        case 10:
            if (rng.chance(0.5)) break;
            hist += "move= "; *x.v = std::move(*y.v); x.m = y.m; x.def = y.def; y.m.clear(); y.def.clear();
            break;
        case 11: {
            if (rng.chance(0.5)) break;
            hist += "movector ";
            auto *nv = new V(std::move(*x.v));
            if (x.v->size() != 0) { fail("davec:moved", "size %zu after a move: %s", x.v->size(), hist.c_str()); delete nv; return; }
            if (rng.chance(0.5)) { y.v = std::move(x.v); y.m.clear(); y.def.clear(); }
            x.v.reset(nv);
            if (!y.v) y.v.reset(new V());
            break;
        }
        case 12: hist += "copy= "; *x.v = *y.v; x.m = y.m; x.def = y.def; break;
        case 13:
            for (int i = 0; i < 5 && !x.m.empty(); i++) { size_t j = (size_t)rng.in(0, (int)x.m.size() - 1); x.m[j] = (*x.v)[j] = mkval<T>(uid += 5); x.def[j] = 1; }
            hist += "set ";
            break;
        }
        for (auto &q : p) {
            if (q.v->size() != q.m.size()) { fail("davec:size", "size %zu, expected %zu after %s", q.v->size(), q.m.size(), hist.c_str()); return; }
            if (q.v->capacity() < q.v->size()) { fail("davec:capacity", "capacity %zu below the size %zu after %s", q.v->capacity(), q.v->size(), hist.c_str()); return; }
            const V &c = *q.v;
            for (size_t i = 0; i < q.m.size(); i++)
                if (q.def[i] && (!(c[i] == q.m[i]) || !(c.data()[i] == q.m[i]))) { fail("davec:element", "element %zu of %zu differs after %s", i, q.m.size(), hist.c_str()); return; }
        }
        count("ops");
    }
    nontrivial(vt::hs(hist));
}
FAMILY(davec, 4000, 200000) {
    switch (rng.in(0, 5)) {
    case 0: davec_t<float>(rng); break;
    case 1: davec_t<double>(rng); break;
    case 2: davec_t<da_int>(rng); break;
    case 3: davec_t<char>(rng); break;
    case 4: davec_t<int64_t>(rng); break;
    case 5: davec_t<_Float16>(rng); break;
    }
}

// ------------------------------------------------------------------------------- LRU cache
template <class T> static void lru_t(Rng &rng) {
    da_errors::da_error_t err(da_errors::action_t::DA_RECORD);
    da_cache::LRUCache<T> c(err);
    std::string hist;
    int nset = rng.chance(0.2) ? 2 : 1;
    double ver = 1;
    for (int z = 0; z < nset; z++) {
        int cap = rng.chance(0.05) ? 0 : rng.chance(0.2) ? (int)rng.in(20, 60) : (int)rng.in(1, 12), len = (int)rng.in(1, 9);
        hist += fmt("size(%d,%d) ", cap, len);
        if (z && rng.chance(1)) {}
        da_status st = c.set_size(cap, len);
        if (st) { fail("lru:setsize", "status %d", st); return; }
        if (c.get_capacity() != cap || c.active_ != (cap > 0)) { fail("lru:capacity", "capacity %d of %d", c.get_capacity(), cap); return; }
        struct E { int key; double v; };
        std::deque<E> m; // front: most recent
        int nkeys = (int)rng.in(1, 3 * cap + 3), nop = (int)rng.in(1, 60);
        for (int k = 0; k < nop; k++) {
            if (rng.chance(0.5) || !cap) {
                int key = (int)rng.in(0, nkeys - 1);
                hist += fmt("get(%d) ", key);
                T *g = c.get(key);
                auto it = std::find_if(m.begin(), m.end(), [&](const E &e) { return e.key == key; });
                if ((g != nullptr) != (it != m.end())) { fail("lru:presence", "get(%d) gives %s, expected %s: %s", key, g ? "data" : "nothing", g ? "nothing" : "data", hist.c_str()); return; }
                if (g) {
                    for (int j = 0; j < len; j++) if (g[j] != (T)(it->v + j)) { fail("lru:data", "get(%d)[%d]=%g expected %g: %s", key, j, (double)g[j], it->v + j, hist.c_str()); return; }
                    E e = *it; m.erase(it); m.push_front(e);
                    count("hits");
                } else count("misses");
            } else {
                // some keys: usually ones that are absent, sometimes present, sometimes repeated
                int n = (int)rng.in(1, rng.chance(0.2) ? 2 * cap + 2 : std::min(cap, 20));
                if (rng.chance(0.05)) n = 0;
                std::vector<da_int> key;
                bool upd = rng.chance(0.3), rep = false;
                for (int tries = 0; (int)key.size() < n && tries < 200; tries++) {
                    da_int q = (da_int)rng.in(0, nkeys + (tries > 20 ? 1000 : 0));
                    if (!upd && std::any_of(m.begin(), m.end(), [&](const E &e) { return e.key == q; })) continue;
                    if (!rep && std::count(key.begin(), key.end(), q)) continue;
                    key.push_back(q);
                }
                n = (int)key.size();
                int stride = len + (int)rng.in(0, 3);
                std::vector<T> b((size_t)std::max(1, n * stride));
                std::vector<double> vv;
                for (int i = 0; i < n; i++) {
                    double v = (ver += 100); if (ver > 1e6) ver = 1;
                    vv.push_back(v);
                    for (int j = 0; j < stride; j++) b.data()[i * stride + j] = j < len ? (T)(v + j) : (T)-1;
                }
                hist += "put(";
                for (auto q : key) hist += fmt("%d,", q);
                hist += ") ";
                da_status st = c.put(key, b.data(), stride);
                if (st) { fail("lru:put", "status %d: %s", st, hist.c_str()); return; }
                // model: present keys are renewed, then the least recently used ones make room
                int stored = std::min(n, cap);
                for (int i = 0; i < stored; i++) {
                    auto it = std::find_if(m.begin(), m.end(), [&](const E &e) { return e.key == key[i]; });
                    if (it != m.end()) m.erase(it);
                }
                for (int i = 0; i < stored; i++) {
                    auto it = std::find_if(m.begin(), m.end(), [&](const E &e) { return e.key == key[i]; });
                    if (it != m.end()) m.erase(it);
                    m.push_front({(int)key[i], vv[i]});
                }
                while ((int)m.size() > cap) m.pop_back();
                count("puts");
            }
        }
        if (cap && rng.chance(0.1)) {
            // a key given twice in one call: its last value counts
            std::vector<da_int> key{3, 5, 3, 3};
            key.resize((size_t)std::min(4, cap));
            std::vector<T> b(4 * (size_t)len);
            for (size_t i = 0; i < b.size(); i++) b[i] = (T)(i / len);
            if (c.put(key, b.data(), len)) { fail("lru:put", "repeated key"); return; }
            T *g = c.get(3);
            T want = (T)(cap >= 4 ? 3 : cap == 3 ? 2 : 0);
            if (!g || g[len - 1] != want) { fail("lru:repeated", "key stored several times in one call has %g, expected %g: %s", g ? (double)g[0] : -1., (double)want, hist.c_str()); return; }
            continue;
        }
        // what is in it at the end
        auto mm = m;
        for (int key = 0; key < nkeys; key++) {
            T *g = c.get(key);
            auto it = std::find_if(mm.begin(), mm.end(), [&](const E &e) { return e.key == key; });
            if ((g != nullptr) != (it != mm.end())) { fail("lru:presence", "at the end get(%d) gives %s, expected %s: %s", key, g ? "data" : "nothing", g ? "nothing" : "data", hist.c_str()); return; }
            if (g) for (int j = 0; j < len; j++) if (g[j] != (T)(it->v + j)) { fail("lru:data", "at the end get(%d)[%d]=%g expected %g: %s", key, j, (double)g[j], it->v + j, hist.c_str()); return; }
        }
    }
    nontrivial(vt::hs(hist));
}
FAMILY(lru, 4000, 200000) { if (rng.chance(0.5)) lru_t<float>(rng); else lru_t<double>(rng); }

// ------------------------------------------------------------------------------- serialization
namespace {
using namespace da_model_persistence;
struct SerItem {
    int type = 0;
    da_int i = 0; bool b = false; float f = 0; double d = 0; std::string s; da_order o = row_major;
    std::vector<da_int> vi; std::vector<float> vf; std::vector<double> vd;
    da_vector::da_vector<da_int> wi; da_vector::da_vector<float> wf; da_vector::da_vector<double> wd;
    std::vector<da_vector::da_vector<da_int>> vwi; std::vector<da_vector::da_vector<double>> vwd; std::vector<da_vector::da_vector<float>> vwf;
    da_status io(serialization_buffer &sb) {
        switch (type) {
        case 0: return sb.dispatch_buffer_io(i);
        case 1: return sb.dispatch_buffer_io(b);
        case 2: return sb.dispatch_buffer_io(f);
        case 3: return sb.dispatch_buffer_io(d);
        case 4: return sb.dispatch_buffer_io(s);
        case 5: return sb.dispatch_buffer_io(o);
        case 6: return sb.dispatch_buffer_io(vi);
        case 7: return sb.dispatch_buffer_io(vf);
        case 8: return sb.dispatch_buffer_io(vd);
        case 9: return sb.dispatch_buffer_io(wi);
        case 10: return sb.dispatch_buffer_io(wf);
        case 11: return sb.dispatch_buffer_io(wd);
        case 12: return sb.dispatch_buffer_io(vwi);
        case 13: return sb.dispatch_buffer_io(vwf);
        default: return sb.dispatch_buffer_io(vwd);
        }
    }
};
template <class V> bool eqv(const V &a, const V &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (memcmp(&a[i], &b[i], sizeof a[i])) return false;
    return true;
}
template <class V> bool eqvv(const V &a, const V &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!eqv(a[i], b[i])) return false;
    return true;
}
bool same(const SerItem &a, const SerItem &b) {
    return a.i == b.i && a.b == b.b && !memcmp(&a.f, &b.f, 4) && !memcmp(&a.d, &b.d, 8) && a.s == b.s && a.o == b.o && eqv(a.vi, b.vi) && eqv(a.vf, b.vf) && eqv(a.vd, b.vd) && eqv(a.wi, b.wi) && eqv(a.wf, b.wf) && eqv(a.wd, b.wd) && eqvv(a.vwi, b.vwi) && eqvv(a.vwd, b.vwd) && eqvv(a.vwf, b.vwf);
}
template <class T> T rbits(Rng &r) { T v; uint64_t x = r.u64(); memcpy(&v, &x, sizeof v); return v; }
template <class V> void fillv(Rng &r, V &v) {
    using T = typename V::value_type;
    size_t n = r.chance(0.2) ? 0 : r.chance(0.1) ? (size_t)r.in(60, 140) : (size_t)r.in(1, 12);
    v.resize(n);
    for (size_t i = 0; i < n; i++) v[i] = rbits<T>(r);
}
template <class V> void fillvv(Rng &r, V &v) {
    v.clear();
    size_t n = (size_t)r.in(0, 5);
    v.resize(n);
    for (auto &x : v) fillv(r, x);
}
}
FAMILY(serbuf, 4000, 200000) {
    int n = (int)rng.in(1, 14);
    std::vector<std::unique_ptr<SerItem>> it;
    std::string d;
    for (int k = 0; k < n; k++) {
        auto p = std::make_unique<SerItem>();
        p->type = (int)rng.in(0, 14);
        d += fmt("%d ", p->type);
        switch (p->type) {
        case 0: p->i = rbits<da_int>(rng); break;
        case 1: p->b = rng.chance(0.5); break;
        case 2: p->f = rbits<float>(rng); break;
        case 3: p->d = rbits<double>(rng); break;
        case 4: for (int j = (int)rng.in(0, 40); j > 0; j--) p->s += (char)rng.in(-128, 127); break;
        case 5: p->o = rng.chance(0.5) ? row_major : column_major; break;
        case 6: fillv(rng, p->vi); break;
        case 7: fillv(rng, p->vf); break;
        case 8: fillv(rng, p->vd); break;
        case 9: fillv(rng, p->wi); break;
        case 10: fillv(rng, p->wf); break;
        case 11: fillv(rng, p->wd); break;
        case 12: fillvv(rng, p->vwi); break;
        case 13: fillvv(rng, p->vwf); break;
        case 14: fillvv(rng, p->vwd); break;
        }
        it.push_back(std::move(p));
    }
    nontrivial(vt::hs(d + fmt("%llu", (unsigned long long)rng.u64())));
    std::vector<char> out;
    serialization_buffer w(da_handle_svm);
    da_status st = w.set_buffer_data(&out);
    VCHECK(st == da_status_success, "serbuf:set", "status %d", st);
    for (auto &p : it) { st = p->io(w); VCHECK(st == da_status_success, "serbuf:reserve", "status %d: %s", st, d.c_str()); }
    // user data with padding
    int m = (int)rng.in(0, 5), nn = (int)rng.in(1, 4); da_order uo = rng.chance(0.5) ? row_major : column_major;
    int ld = (uo == column_major ? m : nn) + (int)rng.in(0, 3);
    std::vector<double> X((size_t)std::max(1, (ld + 1) * (std::max(m, nn) + 1)));
    for (size_t i = 0; i < X.size(); i++) X[i] = (double)i + 0.5;
    bool usenull = rng.chance(0.15);
    const double *Xp = usenull ? nullptr : X.data();
    st = w.serialize_user_data(Xp, uo, m, nn, ld);
    VCHECK(st == da_status_success, "serbuf:user", "status %d", st);
    w.reserve();
    w.set_mode(serialize);
    size_t announced = w.get_size();
    st = w.serialize_metadata(8, model_persistence_min_version);
    VCHECK(st == da_status_success, "serbuf:meta", "status %d", st);
    for (auto &p : it) { st = p->io(w); VCHECK(st == da_status_success, "serbuf:write", "status %d: %s", st, d.c_str()); }
    st = w.serialize_user_data(Xp, uo, m, nn, ld);
    VCHECK(st == da_status_success, "serbuf:user", "status %d", st);
    VCHECK(out.size() == announced, "serbuf:size", "announced %zu bytes, wrote %zu: %s", announced, out.size(), d.c_str());
    // read back from a copy that ends where the data end
    int mode = (int)rng.in(0, 2); // 0 whole, 1 truncated, 2 altered
    size_t len = out.size();
    if (mode == 1) len = (size_t)rng.in(1, (int)len - 1);
    std::unique_ptr<char[]> cp(new char[len]);
    memcpy(cp.get(), out.data(), len);
    if (mode == 2) for (int k = (int)rng.in(1, 3); k > 0; k--) cp[(size_t)rng.in(0, (int)len - 1)] = (char)rng.in(-128, 127);
    serialization_buffer rd(da_handle_uninitialized);
    st = rd.set_buffer_data(cp.get(), len);
    VCHECK(st == da_status_success, "serbuf:read", "status %d", st);
    da_int prec = 0;
    st = rd.deserialize_metadata(prec);
    bool allok = st == da_status_success;
    if (mode == 0) VCHECK(allok && prec == 8 && rd.get_handle_type() == da_handle_svm && rd.get_saved_serialization_version() == model_persistence_min_version && rd.get_saved_aoclda_version() == da_get_version(), "serbuf:header", "status %d precision %d", st, prec);
    bool eq = allok;
    for (auto &p : it) {
        if (!allok) break;
        SerItem q; q.type = p->type;
        st = q.io(rd);
        if (st) { allok = false; VCHECK(st == da_status_invalid_file_data || st == da_status_memory_error, "serbuf:status", "status %d", st); }
        else if (!(mode == 2) && !same(*p, q)) { fail("serbuf:content", "item of type %d differs: %s", p->type, d.c_str()); return; }
    }
    if (allok) {
        std::vector<double> u;
        st = rd.dispatch_buffer_io(u);
        if (st) allok = false;
        else if (mode != 2) {
            size_t want = usenull ? 0 : (size_t)m * nn;
            VCHECK(u.size() == want, "serbuf:userdata", "%zu elements of %zu", u.size(), want);
            for (size_t k = 0; k < want; k++) {
                size_t src = uo == column_major ? (k / m) * ld + k % m : (k / nn) * ld + k % nn;
                if (u[k] != X[src]) { fail("serbuf:userdata", "element %zu is %g, expected %g (order %d, %d x %d, ld %d)", k, u[k], X[src], (int)uo, m, nn, ld); return; }
            }
        }
    }
    (void)eq;
    if (mode == 0) VCHECK(allok, "serbuf:roundtrip", "status %d: %s", st, d.c_str());
    if (mode == 1) VCHECK(!allok, "serbuf:truncated", "data cut at %zu of %zu bytes were accepted: %s", len, out.size(), d.c_str());
    count(mode == 0 ? "roundtrips" : mode == 1 ? "truncations" : "alterations");
}
