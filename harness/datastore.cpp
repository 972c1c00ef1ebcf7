// C12 and C13: histories of data store operations against a model holding one value per cell,
// and selections against sets of indices.
#include "vt.hpp"
using namespace vt;
namespace {
enum CT { TI, TD, TS, TU, TC, NT };
const char *ctname[] = {"int", "real_d", "real_s", "uint8", "str"};
template <class T> struct Ds;
#define DSF(T_, suf) template <> struct Ds<T_> { \
    static constexpr auto load_col = &da_data_load_col_##suf; static constexpr auto load_row = &da_data_load_row_##suf; \
    static constexpr auto col = &da_data_extract_column_##suf; static constexpr auto sel = &da_data_extract_selection_##suf; \
    static constexpr auto get = &da_data_get_element_##suf; static constexpr auto set = &da_data_set_element_##suf; };
DSF(da_int, int) DSF(double, real_d) DSF(float, real_s) DSF(uint8_t, uint8)

struct Val { double d = 0; std::string s; bool nan = false; };
template <class T> Val mk(T x) { Val v; v.nan = x != x; v.d = v.nan ? 0 : (double)x; return v; }
template <class T> bool same(const Val &v, T x) { return v.nan ? x != x : (double)x == v.d && x == x; }
template <class T> T fresh(Rng &r, bool miss) {
    if (miss) return std::is_floating_point<T>::value ? std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::max();
    if (std::is_floating_point<T>::value) return (T)f32(r.norm() * 100);
    if (sizeof(T) == 1) return (T)r.below(255);
    return (T)(da_int)r.in(-1000000, 1000000);
}
bool missing(int t, const Val &v) {
    switch (t) {
    case TI: return v.d == (double)std::numeric_limits<da_int>::max();
    case TU: return v.d == 255;
    case TD: case TS: return v.nan;
    default: return false;
    }
}
struct Col { int t; std::vector<Val> v; std::string label; };
struct Sel { std::set<int64_t> rows, cols; bool rows_emptied = false, cols_emptied = false; };
// buffers given without copying stay alive, and are written by set_element
struct Keep { std::vector<std::shared_ptr<void>> k; };
struct Store {
    da_datastore s = nullptr;
    std::vector<Col> cols;
    std::vector<int64_t> blk; // first column of each column block
    int64_t m = 0;
    int64_t miss = 0, missrows = 0; // partial row block: columns done, rows being added (0: none)
    std::map<std::string, Sel> sels;
    Keep keep;
    Store() { da_datastore_init(&s); }
    ~Store() { da_datastore_destroy(&s); }
    int64_t n() const { return (int64_t)cols.size(); }
};
std::string trace;
void tr(const std::string &x) { trace += x + "; "; if (trace.size() > 3000) trace.erase(0, 1000); }
#define BAD(key, ...) fail(key, "%s | after: %s", fmt(__VA_ARGS__).c_str(), trace.c_str())

const char *labs[] = {"a", "b", "price", "a b", "", "col,1", "quantity of something with a rather long name, longer than a small string"};

template <class T> da_status load(Rng &r, Store &S, bool row, int64_t mr, int64_t nc, std::vector<std::vector<Val>> &vals, bool null) {
    da_order ord = r.chance(0.5) ? row_major : column_major;
    bool copy = r.chance(0.6);
    double pm = r.chance(0.5) ? 0 : r.uni() * 0.6;
    int64_t tot = std::max<int64_t>(mr * nc, 0);
    std::shared_ptr<T[]> b(new T[tot ? tot : 1]);
    if (mr > 0 && nc > 0) {
        vals.assign(nc, std::vector<Val>(mr));
        std::vector<char> missrow(mr);
        for (auto &x : missrow) x = r.chance(pm);
        for (int64_t j = 0; j < nc; j++) for (int64_t i = 0; i < mr; i++) {
            T x = fresh<T>(r, missrow[i] && r.chance(0.5));
            vals[j][i] = mk(x);
            b[ord == row_major ? i * nc + j : i + j * mr] = x;
        }
    }
    tr(fmt("load_%s %s %lldx%lld %s copy=%d", row ? "row" : "col", sizeof(T) == 8 ? "d" : sizeof(T) == 1 ? "u8" : std::is_integral<T>::value ? "int" : "s", (long long)mr, (long long)nc, ord == row_major ? "row" : "col", copy));
    uint64_t h = hbytes(b.get(), tot * sizeof(T));
    da_status st = row ? Ds<T>::load_row(S.s, (da_int)mr, (da_int)nc, null ? nullptr : b.get(), ord, copy) : Ds<T>::load_col(S.s, (da_int)mr, (da_int)nc, null ? nullptr : b.get(), ord, copy);
    if (h != hbytes(b.get(), tot * sizeof(T))) BAD("load-modified", "the loaded array was modified");
    if (!copy && !st) S.keep.k.push_back(std::shared_ptr<void>(b, b.get()));
    // with copies the caller's array may change afterwards
    if (copy) for (int64_t k = 0; k < tot; k++) b[k] = fresh<T>(r, false);
    return st;
}
da_status load_str(Rng &r, Store &S, bool row, int64_t mr, int64_t nc, std::vector<std::vector<Val>> &vals, bool null) {
    da_order ord = r.chance(0.5) ? row_major : column_major;
    int64_t tot = std::max<int64_t>(mr * nc, 0);
    std::vector<std::string> st(tot);
    std::vector<const char *> p(tot + 1);
    if (mr > 0 && nc > 0) {
        vals.assign(nc, std::vector<Val>(mr));
        for (int64_t j = 0; j < nc; j++) for (int64_t i = 0; i < mr; i++) {
            std::string x;
            int64_t L = r.chance(0.2) ? 0 : r.in(1, r.chance(0.1) ? 60 : 6);
            for (int64_t k = 0; k < L; k++) x += (char)('a' + r.below(26));
            vals[j][i].s = x;
            st[ord == row_major ? i * nc + j : i + j * mr] = x;
        }
        for (int64_t k = 0; k < tot; k++) p[k] = st[k].c_str();
    } else tot = 0;
    if (mr <= 0 || nc <= 0) { mr = mr <= 0 ? mr : 0; }
    tr(fmt("load_%s str %lldx%lld %s", row ? "row" : "col", (long long)mr, (long long)nc, ord == row_major ? "row" : "col"));
    return row ? da_data_load_row_str(S.s, (da_int)mr, (da_int)nc, null ? nullptr : p.data(), ord) : da_data_load_col_str(S.s, (da_int)mr, (da_int)nc, null ? nullptr : p.data(), ord);
}
da_status load_any(Rng &r, Store &S, int t, bool row, int64_t mr, int64_t nc, std::vector<std::vector<Val>> &vals, bool null) {
    switch (t) {
    case TI: return load<da_int>(r, S, row, mr, nc, vals, null);
    case TD: return load<double>(r, S, row, mr, nc, vals, null);
    case TS: return load<float>(r, S, row, mr, nc, vals, null);
    case TU: return load<uint8_t>(r, S, row, mr, nc, vals, null);
    default: return load_str(r, S, row, mr, nc, vals, null);
    }
}
void expect(bool ok, da_status st, const char *key, const std::string &what) {
    if (ok && st) BAD(std::string(key) + "-refused", "%s: %s", what.c_str(), stname(st));
    if (!ok && st == da_status_success) BAD(std::string(key) + "-accepted", "%s was accepted", what.c_str());
}
void op_load_col(Rng &r, Store &S) {
    int t = (int)r.below(NT);
    bool bad = r.chance(0.08);
    int64_t nc = r.chance(0.8) ? r.in(1, 3) : r.in(1, 8), mr = S.n() ? S.m : r.in(1, r.chance(0.2) ? 40 : 7);
    bool null = false;
    if (bad) switch (r.below(4)) {
        case 0: mr = r.in(-1, 0); break;
        case 1: nc = r.in(-1, 0); break;
        case 2: if (S.n()) mr += r.chance(0.5) ? 1 : -1; break;
        default: null = true;
        }
    bool ok = mr > 0 && nc > 0 && !null && !S.missrows && (!S.n() || mr == S.m);
    std::vector<std::vector<Val>> v;
    da_status st = load_any(r, S, t, false, mr, nc, v, null);
    expect(ok, st, "load_col", fmt("load_col %s %lldx%lld", ctname[t], (long long)mr, (long long)nc));
    if (st) return;
    if (!S.n()) S.m = mr;
    S.blk.push_back(S.n());
    for (int64_t j = 0; j < nc; j++) S.cols.push_back({t, v[j], ""});
    count("loads");
}
void op_load_row(Rng &r, Store &S) {
    std::vector<std::vector<Val>> v;
    if (!S.n()) { // same as load_col
        int t = (int)r.below(NT);
        int64_t mr = r.in(1, 7), nc = r.in(1, 4);
        da_status st = load_any(r, S, t, true, mr, nc, v, false);
        expect(true, st, "load_row", "load_row into an empty store");
        if (st) return;
        S.m = mr; S.blk.push_back(0);
        for (int64_t j = 0; j < nc; j++) S.cols.push_back({t, v[j], ""});
        return;
    }
    int64_t start = S.missrows ? S.miss : 0, mr = S.missrows ? S.missrows : r.in(1, r.chance(0.1) ? 20 : 4);
    // extend over whole column blocks of one type, at random
    int t = S.cols[start].t;
    int64_t end = start;
    size_t b = std::find(S.blk.begin(), S.blk.end(), start) - S.blk.begin();
    double go = r.pick({0.0, 0.5, 1.0});
    while (true) {
        end = b + 1 < S.blk.size() ? S.blk[b + 1] : S.n();
        b++;
        if (b >= S.blk.size() || S.cols[S.blk[b]].t != t || !r.chance(go)) break;
    }
    int64_t nr = end - start;
    bool null = false;
    if (r.chance(0.12)) switch (r.below(6)) {
        case 0: mr = r.in(-1, 0); break;
        case 1: nr = r.in(-1, 0); break;
        case 2: nr += r.chance(0.5) ? 1 : -1; break;
        case 3: t = (int)r.below(NT); break;
        case 4: if (S.missrows) mr += r.chance(0.5) ? 1 : -1; break;
        default: null = true;
        }
    bool ok = mr > 0 && nr > 0 && !null && start + nr <= S.n() && (!S.missrows || mr == S.missrows);
    if (ok) {
        bool bound = start + nr == S.n();
        for (auto q : S.blk) if (q == start + nr) bound = true;
        if (!bound) ok = false;
        for (int64_t j = start; j < start + nr; j++) if (S.cols[j].t != t) ok = false;
    }
    da_status st = load_any(r, S, t, true, mr, nr, v, null);
    expect(ok, st, "load_row", fmt("load_row %s %lldx%lld starting in column %lld", ctname[t], (long long)mr, (long long)nr, (long long)start));
    if (st) return;
    for (int64_t j = 0; j < nr; j++) S.cols[start + j].v.insert(S.cols[start + j].v.end(), v[j].begin(), v[j].end());
    if (start + nr < S.n()) { S.miss = start + nr; S.missrows = mr; }
    else { S.missrows = 0; S.m += mr; }
    count("loads");
}
template <class T> bool rcol(Store &S, int64_t j) {
    std::unique_ptr<T[]> c(new T[S.m]);
    da_status st = Ds<T>::col(S.s, (da_int)j, (da_int)S.m, c.get());
    if (st) { BAD("column-refused", "extracting column %lld: %s", (long long)j, stname(st)); return false; }
    for (int64_t i = 0; i < S.m; i++) if (!same(S.cols[j].v[i], c[i])) { BAD("column-value", "column %lld, row %lld: %g, expected %g", (long long)j, (long long)i, (double)c[i], S.cols[j].v[i].d); return false; }
    return true;
}
bool read_col(Store &S, int64_t j) {
    count("columns_checked");
    switch (S.cols[j].t) {
    case TI: return rcol<da_int>(S, j);
    case TD: return rcol<double>(S, j);
    case TS: return rcol<float>(S, j);
    case TU: return rcol<uint8_t>(S, j);
    default: {
        std::unique_ptr<char *[]> c(new char *[S.m]);
        da_status st = da_data_extract_column_str(S.s, (da_int)j, (da_int)S.m, c.get());
        if (st) { BAD("column-refused", "extracting column %lld: %s", (long long)j, stname(st)); return false; }
        for (int64_t i = 0; i < S.m; i++) if (S.cols[j].v[i].s != c[i]) { BAD("column-value", "column %lld, row %lld: '%s', expected '%s'", (long long)j, (long long)i, c[i], S.cols[j].v[i].s.c_str()); return false; }
        return true;
    }
    }
}
bool full_check(Store &S) {
    da_int a = -7, b = -7;
    da_status s1 = da_data_get_n_rows(S.s, &a), s2 = da_data_get_n_cols(S.s, &b);
    if (s1 || s2 || b != S.n() || (!S.missrows && a != S.m)) { BAD("size", "the store has %d rows and %d columns, expected %lld and %lld", (int)a, (int)b, (long long)S.m, (long long)S.n()); return false; }
    if (!S.missrows) for (int64_t j = 0; j < S.n(); j++) if (!read_col(S, j)) return false;
    count("full_checks");
    return true;
}
template <class T> void elem(Rng &r, Store &S, int t, bool set) {
    int64_t i = r.below(std::max<int64_t>(S.m, 1)), j = r.below(std::max<int64_t>(S.n(), 1));
    if (r.chance(0.7)) for (int k = 0; k < 10 && j < S.n() && S.cols[j].t != t; k++) j = r.below(S.n());
    if (r.chance(0.05)) (r.chance(0.5) ? i : j) = -1;
    if (r.chance(0.05)) (r.chance(0.5) ? i : j) += S.n() + S.m + 1;
    if (S.missrows && r.chance(0.3)) i = S.m + r.below(S.missrows);
    bool in = j >= 0 && j < S.n() && i >= 0 && i < (int64_t)S.cols[j].v.size(), typ = in && S.cols[j].t == t;
    bool grey = S.missrows && i >= S.m; // rows being added: refused, or served where they exist
    T x = fresh<T>(r, r.chance(0.1));
    tr(fmt("%s_%s %lld,%lld", set ? "set" : "get", ctname[t], (long long)i, (long long)j));
    da_status st;
    if (set) {
        st = Ds<T>::set(S.s, (da_int)i, (da_int)j, x);
        if (!(grey && typ && st)) expect(in && typ, st, "set_element", fmt("set_element_%s(%lld,%lld)", ctname[t], (long long)i, (long long)j));
        if (!st && in) S.cols[j].v[i] = mk(x);
        count("elements_set");
    } else {
        T y = x;
        st = Ds<T>::get(S.s, (da_int)i, (da_int)j, &y);
        if (!(grey && typ && st)) expect(in && typ, st, "get_element", fmt("get_element_%s(%lld,%lld)", ctname[t], (long long)i, (long long)j));
        if (!st && in && !same(S.cols[j].v[i], y)) BAD("element-value", "element %lld,%lld is %g, expected %g", (long long)i, (long long)j, (double)y, S.cols[j].v[i].d);
        if (st && memcmp(&x, &y, sizeof x)) BAD("element-written", "the result was written though the call failed");
        count("elements_read");
    }
}
void op_elem(Rng &r, Store &S) {
    bool set = r.chance(0.5);
    switch (r.below(4)) {
    case 0: elem<da_int>(r, S, TI, set); break;
    case 1: elem<double>(r, S, TD, set); break;
    case 2: elem<float>(r, S, TS, set); break;
    default: elem<uint8_t>(r, S, TU, set);
    }
}
// refused column extractions
void op_badcol(Rng &r, Store &S) {
    int64_t j = r.chance(0.5) ? r.below(std::max<int64_t>(1, S.n())) : (r.chance(0.5) ? -1 : S.n());
    int64_t dim = S.m;
    bool wrong = r.chance(0.5);
    if (wrong) dim = r.below(std::max<int64_t>(S.m, 1));
    std::unique_ptr<double[]> c(new double[S.m + 1]);
    bool ok = !S.missrows && j >= 0 && j < S.n() && S.cols[j].t == TD && dim == S.m;
    tr("extract_column");
    expect(ok, da_data_extract_column_real_d(S.s, (da_int)j, (da_int)dim, c.get()), "extract_column", fmt("extract_column_real_d(%lld, dim %lld)", (long long)j, (long long)dim));
}
void op_label(Rng &r, Store &S) {
    std::string l = labs[r.below(7)];
    if (r.chance(0.4)) l += std::to_string(r.below(4));
    int64_t j = r.chance(0.9) ? r.below(std::max<int64_t>(1, S.n())) : (r.chance(0.5) ? -1 : S.n());
    tr(fmt("label %lld '%s'", (long long)j, l.c_str()));
    da_status st = da_data_label_column(S.s, l.c_str(), (da_int)j);
    expect(j >= 0 && j < S.n(), st, "label", fmt("label_column(%lld)", (long long)j));
    if (!st && j >= 0 && j < S.n()) S.cols[j].label = l;
    count("labels");
}
void check_labels(Store &S) {
    std::map<std::string, std::set<int64_t>> where;
    for (int64_t j = 0; j < S.n(); j++) {
        const std::string &l = S.cols[j].label;
        char buf[200];
        memset(buf, 'x', sizeof buf);
        da_int sz = (da_int)l.size();
        if (sz > 0) {
            da_status st = da_data_get_col_label(S.s, (da_int)j, &sz, buf);
            if (st != da_status_invalid_input || sz != (da_int)l.size() + 1) BAD("label-size", "get_col_label(%lld) with too little room: %s, size %d, expected %zu", (long long)j, stname(st), (int)sz, l.size() + 1);
        }
        sz = (da_int)l.size() + 1;
        da_status st = da_data_get_col_label(S.s, (da_int)j, &sz, buf);
        if (st || l != buf) { BAD("label-value", "label of column %lld is '%.100s' (%s), expected '%s'", (long long)j, st ? "" : buf, stname(st), l.c_str()); return; }
        if (!l.empty()) where[l].insert(j);
    }
    for (auto l0 : labs) for (int q = -1; q < 4; q++) {
        std::string l = l0;
        if (q >= 0) l += std::to_string(q);
        if (l.empty()) continue;
        da_int k = -5;
        da_status st = da_data_get_col_idx(S.s, l.c_str(), &k);
        auto it = where.find(l);
        if (it == where.end()) { if (!st) BAD("label-stale", "label '%s' is said to belong to column %d, but no column has it", l.c_str(), (int)k); }
        else if (st || !it->second.count(k)) BAD("label-index", "label '%s' is said to belong to column %d (%s), which has another label", l.c_str(), (int)k, stname(st));
    }
    count("label_checks");
}
// selections
const char *keys[] = {"A", "B", "another key"};
void op_select(Rng &r, Store &S) {
    std::string key = keys[r.below(3)];
    auto iv = [&](int64_t n, int64_t &a, int64_t &b) {
        a = r.below(std::max<int64_t>(1, n)); b = r.chance(0.5) ? a : r.in(a, std::max(a, std::min(n - 1, a + r.below(6))));
        if (r.chance(0.06)) a = -1;
        if (r.chance(0.06)) b = n + r.below(3);
        if (r.chance(0.06)) { std::swap(a, b); }
        return a >= 0 && b < n && a <= b;
    };
    int64_t a, b, c, d;
    int what = (int)r.below(8);
    da_status st;
    bool have = S.sels.count(key);
    switch (what) {
    case 0: case 1: {
        bool ok = iv(S.n(), a, b) && !S.missrows;
        st = da_data_select_columns(S.s, key.c_str(), (da_int)a, (da_int)b);
        tr(fmt("select_columns %s %lld-%lld", key.c_str(), (long long)a, (long long)b));
        expect(ok, st, "select_columns", fmt("select_columns(%lld,%lld)", (long long)a, (long long)b));
        if (ok && !st) { auto &s = S.sels[key]; for (int64_t q = a; q <= b; q++) s.cols.insert(q); }
        break;
    }
    case 2: case 3: {
        bool ok = iv(S.m, a, b) && !S.missrows;
        st = da_data_select_rows(S.s, key.c_str(), (da_int)a, (da_int)b);
        tr(fmt("select_rows %s %lld-%lld", key.c_str(), (long long)a, (long long)b));
        expect(ok, st, "select_rows", fmt("select_rows(%lld,%lld)", (long long)a, (long long)b));
        if (ok && !st) { auto &s = S.sels[key]; for (int64_t q = a; q <= b; q++) s.rows.insert(q); }
        break;
    }
    case 4: {
        bool ok = iv(S.m, a, b);
        ok = iv(S.n(), c, d) && ok && !S.missrows;
        st = da_data_select_slice(S.s, key.c_str(), (da_int)a, (da_int)b, (da_int)c, (da_int)d);
        tr(fmt("select_slice %s %lld-%lld %lld-%lld", key.c_str(), (long long)a, (long long)b, (long long)c, (long long)d));
        expect(ok, st, "select_slice", fmt("select_slice(%lld,%lld,%lld,%lld)", (long long)a, (long long)b, (long long)c, (long long)d));
        if (ok && !st) { auto &s = S.sels[key]; for (int64_t q = a; q <= b; q++) s.rows.insert(q); for (int64_t q = c; q <= d; q++) s.cols.insert(q); }
        break;
    }
    case 5: {
        bool ok = iv(S.n(), a, b) && !S.missrows && have;
        st = da_data_select_remove_columns(S.s, key.c_str(), (da_int)a, (da_int)b);
        tr(fmt("remove_columns %s %lld-%lld", key.c_str(), (long long)a, (long long)b));
        expect(ok, st, "remove_columns", fmt("remove_columns(%lld,%lld)", (long long)a, (long long)b));
        if (ok && !st) { auto &s = S.sels[key]; for (int64_t q = a; q <= b; q++) s.cols.erase(q); }
        break;
    }
    case 6: {
        bool ok = iv(S.m, a, b) && !S.missrows && have;
        st = da_data_select_remove_rows(S.s, key.c_str(), (da_int)a, (da_int)b);
        tr(fmt("remove_rows %s %lld-%lld", key.c_str(), (long long)a, (long long)b));
        expect(ok, st, "remove_rows", fmt("remove_rows(%lld,%lld)", (long long)a, (long long)b));
        if (ok && !st) { auto &s = S.sels[key]; for (int64_t q = a; q <= b; q++) s.rows.erase(q); }
        break;
    }
    default: {
        bool full = r.chance(0.5);
        bool ok = !S.missrows && S.n();
        if (!S.n()) return;
        st = da_data_select_non_missing(S.s, key.c_str(), full);
        tr(fmt("non_missing %s full=%d", key.c_str(), full));
        expect(ok, st, "non_missing", "select_non_missing");
        if (ok && !st) {
            auto &s = S.sels[key];
            if (s.rows.empty()) for (int64_t i = 0; i < S.m; i++) s.rows.insert(i);
            for (auto it = s.rows.begin(); it != s.rows.end();) {
                bool ms = false;
                for (int64_t j = 0; j < S.n(); j++) if ((full || s.cols.empty() || s.cols.count(j)) && missing(S.cols[j].t, S.cols[j].v[*it])) ms = true;
                if (ms) it = s.rows.erase(it); else ++it;
            }
        }
    }
    }
    count("selections");
}
template <class T> void extract(Rng &r, Store &S, int t) {
    bool nosel = S.sels.empty();
    std::string key = keys[r.below(3)];
    if (r.chance(0.7) && !nosel) { auto it = S.sels.begin(); std::advance(it, r.below((int64_t)S.sels.size())); key = it->first; }
    bool known = nosel || S.sels.count(key);
    std::vector<int64_t> R, C;
    if (known && !nosel) { R.assign(S.sels[key].rows.begin(), S.sels[key].rows.end()); C.assign(S.sels[key].cols.begin(), S.sels[key].cols.end()); }
    if (R.empty()) for (int64_t i = 0; i < S.m; i++) R.push_back(i);
    if (C.empty()) for (int64_t j = 0; j < S.n(); j++) C.push_back(j);
    bool typ = true;
    for (auto j : C) if (S.cols[j].t != t) typ = false;
    bool ok = known && typ && !S.missrows && S.n();
    da_order ord = r.chance(0.5) ? row_major : column_major;
    Buf<T> out("selection", R.size(), C.size(), ord, r.chance(0.5) ? 0 : r.in(1, 5));
    std::vector<T> pad(out.total ? out.total : 1, (T)77);
    da_int ld = out.ldi();
    bool badld = r.chance(0.1) && ld > 1;
    if (badld) ld = (da_int)((ord == row_major ? C.size() : R.size()) - 1);
    if (badld && ld < 1) { badld = false; ld = out.ldi(); }
    std::unique_ptr<T[]> o(new T[pad.size()]);
    std::copy(pad.begin(), pad.end(), o.get());
    tr(fmt("extract_%s %s %s ld=%d", ctname[t], key.c_str(), ord == row_major ? "row" : "col", (int)ld));
    da_status st = Ds<T>::sel(S.s, key.c_str(), ord, o.get(), ld);
    std::string d = fmt("extract_selection_%s('%s', %s, ld %d): %zu rows, %zu columns", ctname[t], key.c_str(), ord == row_major ? "row" : "col", (int)ld, R.size(), C.size());
    bool good = st == da_status_success || (nosel && st == da_status_full_extraction);
    if (ok && !badld && !good) { BAD("extract-refused", "%s: %s", d.c_str(), stname(st)); return; }
    if ((!ok || badld) && good) { BAD(badld && ok ? "extract-ld" : "extract-accepted", "%s was accepted", d.c_str()); return; }
    if (nosel && ok && !badld && st != da_status_full_extraction) BAD("extract-full", "%s without any selection: %s", d.c_str(), stname(st));
    if (!good) return;
    for (size_t i = 0; i < R.size(); i++) for (size_t j = 0; j < C.size(); j++) {
        T x = o[ord == row_major ? i * out.ld + j : i + j * out.ld];
        if (!same(S.cols[C[j]].v[R[i]], x)) { BAD("extract-value", "%s: row %zu, column %zu is %g, expected %g (row %lld, column %lld of the store)", d.c_str(), i, j, (double)x, S.cols[C[j]].v[R[i]].d, (long long)R[i], (long long)C[j]); return; }
    }
    // padding
    int64_t minor = ord == row_major ? C.size() : R.size(), major = ord == row_major ? R.size() : C.size();
    for (int64_t q = 0; q < major; q++) for (int64_t k = minor; k < out.ld; k++) if (o[q * out.ld + k] != (T)77) { BAD("extract-padding", "%s: padding overwritten", d.c_str()); return; }
    count("extractions");
    count("cells_extracted", R.size() * C.size());
    nontrivial(hmix(hmix(R.size(), C.size()), hmix(hbytes(R.data(), R.size() * 8), hbytes(C.data(), C.size() * 8))));
}
void op_extract(Rng &r, Store &S) {
    int t = (int)r.below(4);
    if (S.n() && r.chance(0.6)) t = std::min(3, S.cols[r.below(S.n())].t);
    switch (t) {
    case 0: extract<da_int>(r, S, TI); break;
    case 1: extract<double>(r, S, TD); break;
    case 2: extract<float>(r, S, TS); break;
    default: extract<uint8_t>(r, S, TU);
    }
}
void build_store(Rng &r, Store &S, int64_t m) {
    // a store with exactly m rows (unless 0)
    int64_t rows0 = m > 1 ? r.in(1, m) : m;
    int nb = (int)r.in(1, 4);
    for (int k = 0; k < nb; k++) {
        int t = r.chance(0.5) ? TD : (int)r.below(NT);
        std::vector<std::vector<Val>> v;
        int64_t nc = r.in(1, 3);
        da_status st = load_any(r, S, t, false, rows0, nc, v, false);
        if (st) { BAD("load_col-refused", "building a store: %s", stname(st)); return; }
        S.m = rows0; S.blk.push_back(S.n());
        for (int64_t j = 0; j < nc; j++) S.cols.push_back({t, v[j], ""});
        if (r.chance(0.4)) op_label(r, S);
    }
    while (S.m < m || S.missrows) {
        int64_t want = S.missrows ? S.missrows : r.in(1, m - S.m);
        // one row block over whole blocks
        int64_t start = S.missrows ? S.miss : 0, end;
        size_t b = std::find(S.blk.begin(), S.blk.end(), start) - S.blk.begin();
        do { end = b + 1 < S.blk.size() ? S.blk[b + 1] : S.n(); b++; } while (b < S.blk.size() && S.cols[S.blk[b]].t == S.cols[start].t && r.chance(0.5));
        std::vector<std::vector<Val>> v;
        da_status st = load_any(r, S, S.cols[start].t, true, want, end - start, v, false);
        if (st) { BAD("load_row-refused", "building a store: %s", stname(st)); return; }
        for (int64_t j = start; j < end; j++) S.cols[j].v.insert(S.cols[j].v.end(), v[j - start].begin(), v[j - start].end());
        if (end < S.n()) { S.miss = end; S.missrows = want; } else { S.missrows = 0; S.m += want; }
    }
}
void op_hconcat(Rng &r, Store &S) {
    auto T = std::make_unique<Store>();
    if (r.chance(0.05) && S.n()) { // with itself
        tr("hconcat with itself");
        da_datastore p = S.s;
        da_status st = da_data_hconcat(&S.s, r.chance(0.5) ? &S.s : &p);
        if (!st) BAD("hconcat-self", "a store was concatenated with itself");
        return;
    }
    int64_t m = S.m;
    if (r.chance(0.15)) m += r.chance(0.5) || m < 2 ? 1 : -1;
    if (!S.n()) m = r.below(4);
    tr("{ second store:");
    if (m > 0) build_store(r, *T, m);
    bool part = false;
    if (T->n() && r.chance(0.1)) { op_load_row(r, *T); part = T->missrows; }
    if (T->n()) for (int k = 0; k < 2; k++) if (r.chance(0.3)) op_elem(r, *T);
    tr("} hconcat");
    bool ok = !part && !S.missrows && T->m == S.m;
    da_status st = da_data_hconcat(&S.s, &T->s);
    if (S.n() || T->n()) expect(ok, st, "hconcat", "hconcat");
    if (st) { full_check(*T); return; }
    if (T->s) BAD("hconcat-second", "the second store was not destroyed");
    int64_t n0 = S.n();
    for (auto b : T->blk) S.blk.push_back(n0 + b);
    for (auto &c : T->cols) S.cols.push_back(c);
    for (auto &k : T->keep.k) S.keep.k.push_back(k);
    if (!n0 && T->n()) S.m = T->m;
    count("hconcats");
}
void history(Rng &r, bool sel) {
    trace.clear();
    Store S;
    int steps = (int)r.in(4, r.chance(0.2) ? 60 : 25);
    if (sel) build_store(r, S, r.in(1, r.chance(0.3) ? 70 : 15));
    int nv = vt::S.nviol;
    for (int k = 0; k < steps && vt::S.nviol == nv; k++) {
        double u = r.uni();
        if (sel) u = 0.55 + 0.45 * u;
        if (S.missrows && r.chance(0.5)) op_load_row(r, S);
        else if (u < 0.15) op_load_col(r, S);
        else if (u < 0.3) op_load_row(r, S);
        else if (u < 0.42) op_elem(r, S);
        else if (u < 0.46) op_label(r, S);
        else if (u < 0.5) op_hconcat(r, S);
        else if (u < 0.53) op_badcol(r, S);
        else if (u < 0.6) { if (!full_check(S)) break; if (r.chance(0.3)) check_labels(S); }
        else if (u < 0.65 && sel) { if (r.chance(0.5)) op_elem(r, S); else op_load_row(r, S); }
        else if (u < 0.85) op_select(r, S);
        else op_extract(r, S);
    }
    if (vt::S.nviol == nv) { full_check(S); check_labels(S); for (int k = 0; k < 3; k++) op_extract(r, S); }
    // refused requests of a second kind: loading a file into a store that has content
    if (S.n() && r.chance(0.05)) {
        da_status st = da_data_load_from_csv(S.s, "/dev/null");
        if (!st) BAD("csv-accepted", "a file was read into a store that has content");
        full_check(S);
    }
    sample(trace.substr(0, 300));
    nontrivial(hstr(trace.c_str()));
}
FAMILY(store, 3000, 60000) { history(rng, false); }
FAMILY(select, 3000, 60000) { history(rng, true); }
} // namespace
