// C14 CSV fidelity and C15 malformed CSV input, through the public C API.
// csv: tables with known values written in randomly chosen CSV spellings must come back exactly.
// csvraw: arbitrary bytes against an independent reading of the format; all element types must agree
// with each other about the same file.
#include "vt.hpp"
#include <unistd.h>
using namespace vt;
namespace {
typedef std::string str;
typedef std::vector<std::vector<str>> Rec;

struct Opt {
    char delim = ',', quote = '"', esc = '\\', com = '#', dec = '.', ts = 0, sci = 'e', lt = 0;
    bool dq = false, ws = false, sel = false, sis = false, foot = false, warn = false, hdr = false, row = false;
    int rs = 0;
    std::set<int> skip;
    str describe() const {
        auto c = [](char x) { return x ? (x < 33 ? fmt("\\x%02x", x) : str(1, x)) : str("none"); };
        str s = fmt("delim=%s quote=%s esc=%s comment=%s dec=%s thousands=%s sci=%s lt=%s dq=%d ws=%d skipempty=%d skipspace=%d footer=%d warn=%d header=%d %s rowstart=%d", c(delim).c_str(), c(quote).c_str(), c(esc).c_str(), c(com).c_str(), c(dec).c_str(), c(ts).c_str(), c(sci).c_str(), c(lt).c_str(), dq, ws, sel, sis, foot, warn, hdr, row ? "row" : "col", rs);
        if (!skip.empty()) { s += " skip="; for (int k : skip) s += fmt("%d ", k); }
        return s;
    }
};
str show(const str &b) {
    str o;
    for (unsigned char c : b) {
        if (o.size() > 700) { o += "..."; break; }
        if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t"; else if (c < 32 || c > 126) o += fmt("\\x%02x", c); else o += (char)c;
    }
    return o;
}

// ---- independent reading of the format
struct Parsed { Rec rec; bool error = false, grey = false; int lines = 0; };
struct Reader {
    const str &b; const Opt &o; size_t p = 0; Parsed R;
    Reader(const str &b_, const Opt &o_) : b(b_), o(o_) {}
    bool end() const { return p >= b.size(); }
    // length of the line end at p, 0 if there is none
    size_t nl(size_t q) const {
        if (q >= b.size()) return 0;
        if (o.lt) return b[q] == o.lt ? 1 : 0;
        if (b[q] == '\n') return 1;
        if (b[q] == '\r') return q + 1 < b.size() && b[q + 1] == '\n' ? 2 : 1;
        return 0;
    }
    bool delim(char c) const { return o.ws ? (c == ' ' || c == '\t') : c == o.delim; }
    bool is(char c, char what) const { return what && c == what; }
    void rest_of_line() { while (!end() && !nl(p)) p++; p += nl(p); }
    void skipped() { // a line that is to be ignored; quotes may hide line ends
        bool start = true;
        while (!end()) {
            if (start && b[p] == o.quote) {
                p++;
                while (!end() && b[p] != o.quote) p++;
                while (o.dq && p + 1 < b.size() && b[p + 1] == o.quote) { p += 2; while (!end() && b[p] != o.quote) p++; }
                p++; start = false;
                continue;
            }
            if (size_t k = nl(p)) { p += k; return; }
            start = delim(b[p]);
            p++;
        }
    }
    Parsed run() {
        if (b.size() >= 3 && !memcmp(b.data(), "\xef\xbb\xbf", 3)) p = 3;
        int line = 0;
        while (!end()) {
            if (line < o.rs || o.skip.count(line)) { skipped(); line++; continue; }
            if (size_t k = nl(p)) {
                p += k; line++;
                if (!o.sel) R.rec.push_back({});
                continue;
            }
            if (is(b[p], o.com)) { rest_of_line(); line++; continue; }
            if (o.sel) {
                size_t q = p;
                while (q < b.size() && (b[q] == ' ' || b[q] == '\t') && (o.ws || b[q] != o.delim)) q++;
                if (q > p && (nl(q) || q == b.size())) { p = q + nl(q); line++; continue; }
            }
            record();
            line++;
            if (R.error) break;
        }
        R.lines = line;
        return R;
    }
    void record() {
        std::vector<str> f;
        str cur;
        auto over = [&]() -> bool { // at a line end, the end of the file or a comment: finish the record
            if (end()) return true;
            if (nl(p)) { p += nl(p); return true; }
            if (is(b[p], o.com)) { rest_of_line(); return true; }
            return false;
        };
        if (o.ws) {
            while (!end() && (b[p] == ' ' || b[p] == '\t')) p++;
            if (over()) { R.rec.push_back(f); return; }
        }
        while (true) {
            cur.clear();
            if (o.sis && !o.ws) while (!end() && b[p] == ' ') p++;
            // a quoted part may start the field
            bool quoted = false;
            if (!end() && !nl(p) && b[p] == o.quote) {
                quoted = true; p++;
                while (true) {
                    if (end()) {
                        R.error = true; return;
                    }
                    if (is(b[p], o.esc)) { if (p + 1 >= b.size()) { R.error = true; return; } cur += b[p + 1]; p += 2; continue; }
                    if (b[p] == o.quote) {
                        if (o.dq && p + 1 < b.size() && b[p + 1] == o.quote) { cur += o.quote; p += 2; continue; }
                        p++;
                        // with doubled quotes the character following the closing quote is data
                        if (o.dq && !end() && !nl(p) && !delim(b[p]) && (is(b[p], o.esc) || is(b[p], o.com))) R.grey = true;
                        break;
                    }
                    cur += b[p++];
                }
            }
            while (true) {
                if (end()) break;
                if (nl(p) || (is(b[p], o.com)) || delim(b[p])) break;
                if (is(b[p], o.esc)) { if (p + 1 >= b.size()) { R.error = true; return; } cur += b[p + 1]; p += 2; continue; }
                cur += b[p++];
            }
            (void)quoted;
            f.push_back(cur);
            if (over()) break;
            // a delimiter
            if (o.ws) {
                while (!end() && (b[p] == ' ' || b[p] == '\t')) p++;
                if (over()) break;
            } else {
                p++;
            }
        }
        R.rec.push_back(f);
    }
};
// rows shorter than the one before are filled up with empty fields
void fill(Rec &r) {
    for (size_t i = 1; i < r.size(); i++) while (r[i].size() < r[i - 1].size()) r[i].push_back("");
}

// ---- cells
bool sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
bool dg(char c) { return c >= '0' && c <= '9'; }
str rtrim(str s) { s = s.c_str(); while (!s.empty() && sp(s.back())) s.pop_back(); return s; }
str ltrim(str s) { size_t k = 0; while (k < s.size() && sp(s[k])) k++; return s.substr(k); }
bool str_eq(const char *got, const str &want, const Opt &o) {
    str g = rtrim(got), w = rtrim(want);
    if (o.sis) g = ltrim(g), w = ltrim(w);
    return g == w;
}
enum Num { OK, BAD, GREY };
// [space] [sign] digits[.digits][e[sign]digits] [space]
template <class T> Num number(const str &s0, const Opt &o, double &v) {
    str s = s0.c_str();
    size_t p = 0;
    while (p < s.size() && sp(s[p])) p++;
    str t;
    if (p < s.size() && (s[p] == '-' || s[p] == '+')) t += s[p++];
    int nd = 0;
    bool nonzero = false, grey = false;
    while (p < s.size() && dg(s[p])) {
        nonzero |= s[p] != '0'; t += s[p++]; nd++;
        if (o.ts && p < s.size() && s[p] == o.ts) { p++; if (p >= s.size() || !dg(s[p])) grey = true; }
    }
    if (o.dec && p < s.size() && s[p] == o.dec) {
        p++; t += '.';
        while (p < s.size() && dg(s[p])) { nonzero |= s[p] != '0'; t += s[p++]; nd++; }
    }
    if (!nd) return BAD;
    long ex = 0;
    if (o.sci && p < s.size() && toupper(s[p]) == toupper(o.sci)) {
        t += 'e'; p++;
        if (p < s.size() && (s[p] == '-' || s[p] == '+')) t += s[p++];
        if (p >= s.size() || !dg(s[p])) return grey ? GREY : BAD;
        size_t e0 = p;
        while (p < s.size() && dg(s[p])) { t += s[p]; if (ex < 100000) ex = ex * 10 + (s[p] - '0'); p++; }
        if (s[e0 - 1] == '-') ex = -ex;
    }
    while (p < s.size() && sp(s[p])) p++;
    if (p < s.size()) return grey ? GREY : BAD;
    if (grey) return GREY;
    v = strtod(t.c_str(), nullptr);
    if (!nonzero && ex > 30) return GREY; // zero with a huge exponent
    double mx = (double)std::numeric_limits<T>::max();
    if (std::fabs(v) > mx * (1 + 1e-6)) return BAD;
    if (std::fabs(v) > mx * (1 - 1e-6)) return GREY;
    return OK;
}
template <> Num number<da_int>(const str &s0, const Opt &o, double &v) {
    str s = s0.c_str();
    size_t p = 0;
    while (p < s.size() && sp(s[p])) p++;
    bool neg = false, grey = false;
    if (p < s.size() && (s[p] == '-' || s[p] == '+')) neg = s[p++] == '-';
    if (p >= s.size() || !dg(s[p])) return BAD;
    double x = 0;
    while (p < s.size() && dg(s[p])) {
        x = std::min(1e18, x * 10 + (s[p++] - '0'));
        while (o.ts && p < s.size() && s[p] == o.ts) { p++; if (p >= s.size() || !dg(s[p])) grey = true; }
    }
    while (p < s.size() && sp(s[p])) p++;
    if (p < s.size()) return grey ? GREY : BAD;
    if (grey) return GREY;
    v = neg ? -x : x;
    return v > 2147483647.0 || v < -2147483648.0 ? BAD : OK;
}
template <> Num number<uint8_t>(const str &s0, const Opt &, double &v) {
    str s = ltrim(rtrim(s0));
    for (auto &c : s) c = (char)tolower(c);
    if (s == "true") { v = 1; return OK; }
    if (s == "false") { v = 0; return OK; }
    return BAD;
}
template <class T> bool num_eq(T got, double want) {
    if (std::is_integral<T>::value) return (double)got == want;
    double eps = std::is_same<T, float>::value ? 1.2e-7 : 2.3e-16, tiny = std::is_same<T, float>::value ? 1e-44 : 3e-323;
    return std::fabs((double)got - want) <= 8 * eps * std::fabs(want) + tiny;
}
template <class T> bool is_missing(T v) { return std::isnan((double)v); }
template <> bool is_missing<da_int>(da_int v) { return v == std::numeric_limits<da_int>::max(); }
template <> bool is_missing<uint8_t>(uint8_t v) { return v == 255; }

template <class T> struct Rd;
template <> struct Rd<double> { static constexpr auto f = &da_read_csv_d; static constexpr auto ex = &da_data_extract_column_real_d; static const char *nm() { return "double"; } };
template <> struct Rd<float> { static constexpr auto f = &da_read_csv_s; static constexpr auto ex = &da_data_extract_column_real_s; static const char *nm() { return "float"; } };
template <> struct Rd<da_int> { static constexpr auto f = &da_read_csv_int; static constexpr auto ex = &da_data_extract_column_int; static const char *nm() { return "integer"; } };
template <> struct Rd<uint8_t> { static constexpr auto f = &da_read_csv_uint8; static constexpr auto ex = &da_data_extract_column_uint8; static const char *nm() { return "boolean"; } };
template <> struct Rd<char *> { static constexpr auto f = &da_read_csv_string; static constexpr auto ex = &da_data_extract_column_str; static const char *nm() { return "string"; } };

struct Store {
    da_datastore s = nullptr;
    Store() { da_datastore_init(&s); }
    ~Store() { da_datastore_destroy(&s); }
    void so(const char *k, const str &v) { if (da_datastore_options_set_string(s, k, v.c_str())) fail("option", "setting %s to '%s' refused", k, v.c_str()); }
    void io(const char *k, int v) { if (da_datastore_options_set_int(s, k, v)) fail("option", "setting %s to %d refused", k, v); }
    void chr(const char *k, char c) { so(k, c ? str(1, c) : str("")); }
    void apply(const Opt &o, Rng &r) {
        chr("delimiter", o.delim); chr("quote character", o.quote); chr("escape character", o.esc); chr("comment", o.com);
        chr("decimal", o.dec); chr("thousands", o.ts); chr("scientific notation character", o.sci); chr("line terminator", o.lt);
        io("double quote", o.dq); io("whitespace delimiter", o.ws); io("skip empty lines", o.sel); io("skip initial space", o.sis);
        io("skip footer", o.foot); io("warn for missing data", o.warn); io("use header row", o.hdr); io("row start", o.rs);
        so("storage order", o.row ? "row-major" : "column-major");
        str k;
        for (int v : o.skip) k += (k.empty() ? "" : r.chance(0.5) ? "," : r.chance(0.5) ? " " : ", ") + std::to_string(v);
        so("skip rows", k);
    }
};
str scratch() {
    static str name;
    if (name.empty()) {
        const char *t = getenv("TMPDIR");
        name = str(t ? t : "/tmp") + "/davt_csv_XXXXXX";
        int fd = mkstemp(&name[0]);
        if (fd >= 0) close(fd);
        atexit([] { unlink(name.c_str()); });
    }
    return name;
}
void write_file(const str &b) {
    FILE *f = fopen(scratch().c_str(), "wb");
    if (!f || fwrite(b.data(), 1, b.size(), f) != b.size()) { fprintf(stderr, "HARNESS: cannot write scratch file\n"); exit(99); }
    fclose(f);
}
template <class T> void release(T *&a, int64_t) { free(a); a = nullptr; }
template <> void release<char *>(char **&a, int64_t n) { if (n > 0) da_delete_string_array(&a, (da_int)n); else free(a), a = nullptr; }

// what a file should give
struct Want {
    Rec rec;        // data records (heading and footer removed), filled up
    std::vector<str> head;
    enum { TABLE, NODATA, ERROR, UNKNOWN } kind = UNKNOWN;
    str why;
};
Want want_of(const Parsed &P, const Opt &o) {
    Want w;
    if (P.grey) return w;
    if (P.error) { w.kind = Want::ERROR; w.why = "the file ends inside a quoted field or after an escape"; return w; }
    Rec r = P.rec;
    fill(r);
    if (o.foot) { if (r.empty()) { w.kind = Want::NODATA; return w; } r.pop_back(); }
    if (r.empty() || r.size() <= (size_t)o.hdr) { w.kind = Want::NODATA; if (r.size()) w.head = r[0]; return w; }
    size_t m = r.back().size();
    for (auto &x : r) if (x.size() != m) { w.kind = Want::ERROR; w.why = "ragged rows"; }
    if (w.kind == Want::ERROR) return w;
    if (m == 0) return w; // only empty records: nothing said
    w.kind = Want::TABLE;
    if (o.hdr) { w.head = r[0]; r.erase(r.begin()); }
    w.rec = r;
    return w;
}
template <class T> bool cell_ok(const Opt &o, const str &c, T got, str &msg, bool &bad) {
    double v = 0;
    Num k = number<T>(c, o, v);
    if (k == GREY) return true;
    if (k == BAD) { bad = true; if (!is_missing<T>(got)) { msg = fmt("'%s' is not a %s but was read as %.17g", show(c).c_str(), Rd<T>::nm(), (double)got); return false; } return true; }
    if (!num_eq<T>(got, v)) { msg = fmt("'%s' was read as %.17g", show(c).c_str(), (double)got); return false; }
    return true;
}
template <> bool cell_ok<char *>(const Opt &o, const str &c, char *got, str &msg, bool &) {
    if (!got) { msg = "null string"; return false; }
    if (!str_eq(got, c, o)) { msg = fmt("'%s' was read as '%s'", show(c).c_str(), show(got).c_str()); return false; }
    return true;
}
template <class T> int convertible(const Opt &o, const Rec &r) { // 1 yes, 0 no, -1 grey
    bool grey = false;
    double v;
    for (auto &x : r) for (auto &c : x) { Num k = number<T>(c, o, v); if (k == BAD) return 0; if (k == GREY) grey = true; }
    return grey ? -1 : 1;
}
template <> int convertible<char *>(const Opt &, const Rec &) { return 1; }

void check_head(const str &d, char **head, const std::vector<str> &want, const Opt &o) {
    for (size_t j = 0; j < want.size(); j++)
        if (!head[j] || !str_eq(head[j], want[j], o)) { fail("heading", "%s: heading %d is '%s', the file has '%s'", d.c_str(), (int)j, head[j] ? show(head[j]).c_str() : "(null)", show(want[j]).c_str()); return; }
}
// one read as T, judged
template <class T> void read_as(Store &st, const Opt &o, const Want &w, const str &d0) {
    str d = d0 + fmt(" [read %s]", Rd<T>::nm());
    T *A = nullptr;
    char **head = nullptr;
    da_int n = -77, m = -77;
    da_status s = Rd<T>::f(st.s, scratch().c_str(), &A, &n, &m, &head);
    count("reads");
    bool has = s == da_status_success || s == da_status_missing_data;
    if (has && (!A || n < 1 || m < 1)) { fail("no-array", "%s: %s but array %p, %d x %d", d.c_str(), stname(s), (void *)A, n, m); return; }
    if (has && o.hdr && !head) { fail("no-headings", "%s: %s but no headings", d.c_str(), stname(s)); release<T>(A, (int64_t)n * m); return; }
    if (!has && A) fail("array-after-error", "%s: refused with %s but the array pointer is set", d.c_str(), stname(s));
    if (w.kind == Want::ERROR || w.kind == Want::NODATA) {
        if (has) fail("accepted", "%s: %s, but %s", d.c_str(), stname(s), w.kind == Want::ERROR ? w.why.c_str() : "there is no data in the file");
    } else if (w.kind == Want::TABLE) {
        int cv = convertible<T>(o, w.rec);
        if (has) {
            if ((size_t)n != w.rec.size() || (size_t)m != w.rec[0].size())
                fail("shape", "%s: %d x %d, the file has %d x %d", d.c_str(), n, m, (int)w.rec.size(), (int)w.rec[0].size());
            else {
                bool bad = false;
                str msg;
                for (int64_t i = 0; i < n; i++)
                    for (int64_t j = 0; j < m; j++) {
                        if (!cell_ok<T>(o, w.rec[i][j], A[o.row ? i * m + j : i + j * n], msg, bad)) { fail("value", "%s: row %d column %d: %s", d.c_str(), (int)i, (int)j, msg.c_str()); i = n; break; }
                        if (bad && !o.warn) { fail("accepted", "%s: row %d column %d: '%s' is not a %s but the file was accepted", d.c_str(), (int)i, (int)j, show(w.rec[i][j]).c_str(), Rd<T>::nm()); i = n; break; }
                    }
                count("cells", (long long)n * m);
                if (cv >= 0 && (s == da_status_missing_data) != (cv == 0)) fail("missing-status", "%s: %s, with %s", d.c_str(), stname(s), cv ? "no missing data" : "missing data");
                if (o.hdr) check_head(d, head, w.head, o);
            }
        } else {
            if (cv == 1 || (o.warn && cv == 0)) fail("refused", "%s: refused with %s", d.c_str(), stname(s));
            else if (cv == 0 && s != da_status_parsing_error) fail("refused-status", "%s: refused with %s", d.c_str(), stname(s));
            count("refusals");
        }
    }
    if (has) release<T>(A, (int64_t)n * m);
    if (head && m > 0) da_delete_string_array(&head, m);
}
// load into a data store and take the columns out again
enum CT { INT, FP, BOOL, STR, UNK };
CT column_type(const Opt &o, const Rec &r, size_t j, bool dbl, bool iaf) {
    bool all_i = true, all_f = true, all_b = true, grey = false;
    for (auto &x : r) {
        double v;
        Num a = number<da_int>(x[j], o, v), b = dbl ? number<double>(x[j], o, v) : number<float>(x[j], o, v), c = number<uint8_t>(x[j], o, v);
        if (a == GREY || b == GREY) grey = true;
        if (a == BAD) all_i = false;
        if (b == BAD && a == BAD) all_f = false;
        if (b == BAD && iaf) all_f = false;
        if (c == BAD) all_b = false;
    }
    if (grey) return UNK;
    if (all_b) return BOOL;
    if (all_i && !iaf) return INT;
    if (all_f) return FP;
    return STR;
}
template <class T> void take(Store &st, const Opt &o, const Want &w, size_t j, const str &d) {
    int64_t n = (int64_t)w.rec.size();
    std::unique_ptr<T[]> v(new T[n]);
    for (int64_t i = 0; i < n; i++) v[i] = T();
    da_status s = Rd<T>::ex(st.s, (da_int)j, (da_int)n, v.get());
    if (s) { fail("store-column", "%s: column %d cannot be extracted as %s: %s", d.c_str(), (int)j, Rd<T>::nm(), stname(s)); return; }
    for (int64_t i = 0; i < n; i++) {
        str msg; bool bad = false;
        if (!cell_ok<T>(o, w.rec[i][j], v[i], msg, bad)) { fail("store-value", "%s: row %d column %d: %s", d.c_str(), (int)i, (int)j, msg.c_str()); return; }
        if (bad && !o.warn) { fail("store-accepted", "%s: row %d column %d: '%s' accepted as %s", d.c_str(), (int)i, (int)j, show(w.rec[i][j]).c_str(), Rd<T>::nm()); return; }
    }
    count("columns");
}
void load_store(Rng &r, const Opt &o, const Want &w, const str &d0) {
    Store st;
    st.apply(o, r);
    const char *types[] = {"auto", "auto", "double", "float", "integer", "string", "boolean"};
    str ty = types[r.below(7)];
    bool dbl = r.chance(0.6), iaf = r.chance(0.3);
    st.so("datatype", ty);
    st.so("datastore precision", dbl ? "double" : "single");
    st.io("integers as floats", iaf);
    str d = d0 + " [store " + ty + (dbl ? "" : " single") + (iaf ? " ints as floats" : "") + "]";
    da_status s = da_data_load_from_csv(st.s, scratch().c_str());
    count("loads");
    bool has = s == da_status_success || s == da_status_missing_data;
    da_int n = -1, m = -1;
    if (!has) {
        // nothing must have been loaded
        if (da_data_get_n_rows(st.s, &n) || da_data_get_n_cols(st.s, &m) || n > 0 || m > 0) fail("store-after-error", "%s: refused with %s but the store now has %d x %d", d.c_str(), stname(s), n, m);
    }
    if (w.kind == Want::ERROR || w.kind == Want::NODATA) {
        if (has) fail("store-accepted", "%s: %s, but %s", d.c_str(), stname(s), w.kind == Want::ERROR ? w.why.c_str() : "there is no data in the file");
        return;
    }
    if (w.kind != Want::TABLE) return;
    int cv = ty == "double" ? convertible<double>(o, w.rec) : ty == "float" ? convertible<float>(o, w.rec) : ty == "integer" ? convertible<da_int>(o, w.rec) : ty == "boolean" ? convertible<uint8_t>(o, w.rec) : 1;
    if (!has) {
        if (cv == 1 || (o.warn && cv == 0)) {
            std::set<str> u(w.head.begin(), w.head.end());
            if (!o.hdr || u.size() == w.head.size()) fail("store-refused", "%s: refused with %s", d.c_str(), stname(s));
        }
        return;
    }
    if (da_data_get_n_rows(st.s, &n) || da_data_get_n_cols(st.s, &m) || (size_t)n != w.rec.size() || (size_t)m != w.rec[0].size()) { fail("store-shape", "%s: %d x %d, the file has %d x %d", d.c_str(), n, m, (int)w.rec.size(), (int)w.rec[0].size()); return; }
    for (size_t j = 0; j < (size_t)m; j++) {
        if (ty == "double") take<double>(st, o, w, j, d);
        else if (ty == "float") take<float>(st, o, w, j, d);
        else if (ty == "integer") take<da_int>(st, o, w, j, d);
        else if (ty == "string") take<char *>(st, o, w, j, d);
        else if (ty == "boolean") take<uint8_t>(st, o, w, j, d);
        else switch (column_type(o, w.rec, j, dbl, iaf)) {
            case INT: take<da_int>(st, o, w, j, d); break;
            case FP: if (dbl) take<double>(st, o, w, j, d); else take<float>(st, o, w, j, d); break;
            case BOOL: take<uint8_t>(st, o, w, j, d); break;
            case STR: take<char *>(st, o, w, j, d); break;
            default: break;
        }
    }
    if (o.hdr) {
        for (size_t j = 0; j < (size_t)m; j++) {
            da_int sz = 0; char c[1];
            da_status q = da_data_get_col_label(st.s, (da_int)j, &sz, c);
            str lab;
            if (sz > 0) { std::vector<char> b(sz + 1); q = da_data_get_col_label(st.s, (da_int)j, &sz, b.data()); lab = b.data(); }
            if (q || !str_eq(lab.c_str(), w.head[j], o)) {
                std::set<str> u; for (auto h : w.head) { h = rtrim(h); if (o.sis) h = ltrim(h); u.insert(h); }
                if (u.size() == w.head.size()) { fail("store-label", "%s: label of column %d is '%s' (%s), the heading is '%s'", d.c_str(), (int)j, show(lab).c_str(), stname(q), show(w.head[j]).c_str()); break; }
            }
        }
    }
}
void judge(Rng &r, const Opt &o, const Want &w, const str &bytes, const str &d, Store *again) {
    write_file(bytes);
    std::unique_ptr<Store> own;
    if (!again) { own.reset(new Store); again = own.get(); }
    again->apply(o, r);
    int k = (int)r.below(4);
    for (int q = 0; q < 5; q++) {
        int t = (q + k) % 5;
        if (q >= 3 && r.chance(0.5)) continue;
        switch (t) {
        case 0: read_as<char *>(*again, o, w, d); break;
        case 1: read_as<double>(*again, o, w, d); break;
        case 2: read_as<float>(*again, o, w, d); break;
        case 3: read_as<da_int>(*again, o, w, d); break;
        case 4: read_as<uint8_t>(*again, o, w, d); break;
        }
    }
    if (r.chance(0.6)) load_store(r, o, w, d);
}
// put the case across a boundary between two pieces of the file as it is read
bool shift(Rng &r, Opt &o, str &bytes) {
    const int64_t CH = 262144;
    if (!o.com || o.lt == o.com || bytes.size() < 2 || (bytes.size() >= 3 && (unsigned char)bytes[0] == 0xef) || o.rs > 0) return false;
    int64_t at = r.in(0, std::min<int64_t>((int64_t)bytes.size(), CH - 100)); // this much comes before the boundary
    str nl = o.lt ? str(1, o.lt) : str("\n");
    int64_t fill = CH - at - 1 - (int64_t)nl.size();
    str c(fill, 'x');
    if (r.chance(0.3)) { c[r.below(fill)] = o.delim ? o.delim : 'y'; if (o.quote) c[r.below(fill)] = o.quote; }
    bytes = str(1, o.com) + c + nl + bytes;
    std::set<int> k;
    for (int v : o.skip) k.insert(v + 1);
    o.skip = k;
    count("boundary_cases");
    return true;
}
Opt gen_opt(Rng &r) {
    Opt o;
    if (r.chance(0.25)) return o;
    if (r.chance(0.5)) o.delim = r.pick({';', '\t', '|', ':', ' ', '~'});
    if (r.chance(0.2)) o.ws = true;
    if (r.chance(0.3)) o.quote = r.pick({'\'', '`'});
    if (r.chance(0.3)) o.esc = r.pick({'/', '\0', '^'});
    if (r.chance(0.3)) o.com = r.pick({'%', '\0', '!'});
    if (r.chance(0.2) && o.delim != ',') o.dec = ',';
    else if (r.chance(0.1)) o.dec = 'p';
    if (r.chance(0.3)) { o.ts = r.pick({'_', ',', '.', '*'}); if ((!o.ws && o.ts == o.delim) || o.ts == o.dec) o.ts = 0; }
    if (r.chance(0.2)) o.sci = r.pick({'d', 'E', 'G', 'q'});
    if (o.dec == 'p' && r.chance(0.05)) o.sci = 0;
    if (r.chance(0.15)) o.lt = r.pick({'&', '=', '\n', '\r'});
    o.dq = r.chance(0.35); o.sel = r.chance(0.4); o.sis = r.chance(0.3); o.row = r.chance(0.5);
    o.warn = r.chance(0.35); o.foot = r.chance(0.2); o.hdr = r.chance(0.35);
    return o;
}
// ---- spelling of a value
str spell_fp(Rng &r, const Opt &o, bool f32, double v) {
    char b[64];
    switch (r.below(5)) {
    case 0: snprintf(b, sizeof b, f32 ? "%.9g" : "%.17g", v); break;
    case 1: snprintf(b, sizeof b, "%.6e", v); break;
    case 2: snprintf(b, sizeof b, std::fabs(v) < 1e12 ? "%.5f" : "%.9g", v); break;
    case 3: snprintf(b, sizeof b, std::fabs(v) < 1e12 ? "%.0f" : "%.3e", v); break;
    default: snprintf(b, sizeof b, "%g", v);
    }
    str s = b, out;
    size_t e = s.find_first_of("eE"), dot = s.find('.');
    str mant = s.substr(0, e), ex = e == str::npos ? "" : s.substr(e + 1);
    bool neg = mant[0] == '-';
    if (neg) mant = mant.substr(1);
    size_t md = mant.find('.');
    str ip = mant.substr(0, md), fp = md == str::npos ? "" : mant.substr(md + 1);
    (void)dot;
    if (r.chance(0.15)) ip = str(r.in(1, r.chance(0.2) ? 30 : 3), '0') + ip;
    if (r.chance(0.1) && ip == "0" && !fp.empty()) ip = "";
    if (o.ts && r.chance(0.5)) { str q; for (size_t k = 0; k < ip.size(); k++) { if (k && (ip.size() - k) % 3 == 0) q += o.ts; q += ip[k]; } ip = q; }
    out = neg ? "-" : r.chance(0.1) ? "+" : "";
    out += ip;
    if (!fp.empty() || (r.chance(0.1) && !ip.empty())) { out += o.dec; out += fp; if (r.chance(0.1)) out += str(r.in(1, r.chance(0.2) ? 30 : 3), '0'); }
    if (!ex.empty()) { out += r.chance(0.5) ? (char)toupper(o.sci) : (char)tolower(o.sci); out += ex; }
    return out;
}
str spell_int(Rng &r, const Opt &o, da_int v) {
    str s = std::to_string((long long)v < 0 ? -(long long)v : (long long)v);
    if (r.chance(0.1)) s = str(r.in(1, 12), '0') + s;
    if (o.ts && r.chance(0.5)) { str q; for (size_t k = 0; k < s.size(); k++) { if (k && (s.size() - k) % 3 == 0) q += o.ts; q += s[k]; } s = q; }
    return (v < 0 ? "-" : r.chance(0.1) ? "+" : "") + s;
}
str word(Rng &r, const Opt &o) {
    static const char *w[] = {"a", "tea", "x1", "Zürich", "north east", "1.2.3", "12abc", "2020-01-05", "nan", "TRUEish", "tru", "-", "e5", "10:30", "New\nLine", "quo\"te", "it's", "a,b", "back\\slash", "#1", "", "tab\there", "semi;colon", "pipe|"};
    if (r.chance(0.6)) return w[r.below(24)];
    str s;
    int64_t n = r.in(0, 9);
    const char al[] = {'a', 'b', '1', '9', '.', '-', o.delim, o.quote, o.esc ? o.esc : 'c', o.com ? o.com : 'd', ' ', '\n', '\r', '\t', o.lt ? o.lt : 'f', (char)0xc3, (char)0xff, ','};
    for (int64_t k = 0; k < n; k++) s += al[r.below((int64_t)sizeof al)];
    return s;
}
bool special(char c, const Opt &o, bool sol) {
    (void)sol;
    if (o.ws ? (c == ' ' || c == '\t') : c == o.delim) return true;
    if (c == o.quote || (o.esc && c == o.esc) || (o.com && c == o.com)) return true;
    if (o.lt ? c == o.lt : (c == '\n' || c == '\r')) return true;
    return false;
}
// write a cell so that it must be read back as s; false if it cannot be done
bool encode(Rng &r, const Opt &o, const str &s, str &out) {
    out.clear();
    bool any = false;
    for (char c : s) any |= special(c, o, false);
    bool leadsp = !s.empty() && (s[0] == ' ' || s[0] == '\t');
    bool lead_matters = leadsp && (o.sis || o.sel || o.ws);
    if ((s.empty() && !o.ws && r.chance(0.7)) || (!s.empty() && !any && !lead_matters && r.chance(0.6))) { out = s; return true; }
    if (o.esc && !s.empty() && r.chance(0.35)) { // escapes only
        for (size_t k = 0; k < s.size(); k++) {
            char c = s[k];
            if (special(c, o, false) || (k == 0 && leadsp) || r.chance(0.05)) out += o.esc;
            out += c;
        }
        return true;
    }
    if (!o.quote) return false;
    bool can_q = o.esc || o.dq;
    out += o.quote;
    for (char c : s) {
        if (c == o.quote) {
            if (!can_q) return false;
            if (o.dq && (!o.esc || r.chance(0.5))) { out += c; out += c; } else { out += o.esc; out += c; }
        } else if (o.esc && c == o.esc) { out += c; out += c; }
        else { if (o.esc && r.chance(0.03)) out += o.esc; out += c; }
    }
    out += o.quote;
    return true;
}
} // namespace

FAMILY(csv, 12000, 200000) {
    // a data store used for several files one after another keeps nothing of the earlier ones
    static std::unique_ptr<Store> keep;
    static int64_t kept = 0;
    Opt o = gen_opt(rng);
    bool big = rng.chance(0.004);
    int64_t n = big ? rng.in(2000, 15000) : rng.size(1, 12), m = big ? rng.in(1, 8) : rng.size(1, 8);
    if (!big && rng.chance(0.02)) m = rng.in(50, 400);
    int kind = (int)rng.below(6); // 0 double 1 float 2 int 3 bool 4 string 5 by column
    std::vector<int> ck(m);
    for (auto &c : ck) c = kind == 5 ? (int)rng.below(5) : kind;
    Rec cells, text;
    bool can = true;
    for (int64_t i = 0; i < n && can; i++) {
        std::vector<str> a, b;
        for (int64_t j = 0; j < m; j++) {
            str s;
            switch (ck[j]) {
            case 0: case 1: {
                double v = rng.chance(0.5) ? rng.norm() * 100 : rng.chance(0.3) ? (double)rng.in(-100000, 100000) : std::pow(10.0, rng.uni(ck[j] ? -36 : -300, ck[j] ? 36 : 300)) * rng.norm();
                if (rng.chance(0.02)) v = 0;
                s = spell_fp(rng, o, ck[j], v);
                break;
            }
            case 2: s = spell_int(rng, o, rng.chance(0.1) ? rng.pick({2147483647, -2147483647 - 1, 0, 2147483646}) : (da_int)rng.in(-100000, 100000)); break;
            case 3: s = rng.pick({"true", "false", "TRUE", "False", "tRuE"}); break;
            default: s = word(rng, o);
            }
            // now and then something that is not of the kind
            if (rng.chance(0.004)) s = rng.pick({"", "abc", "1x", "1.5.2", "--1", "2147483648", "truefalse", "1 2", "0x10", "1e", "1e+", ".", "true x", "-2147483649", "99999999999999999999", "1e5000", "1e99999999999", "0.1e-99999999999999999999"});
            if (ck[j] != 4 && rng.chance(0.1)) s = str(rng.in(0, 2), ' ') + s + str(rng.in(0, 2), ' ');
            str e;
            if (!encode(rng, o, s, e)) { can = false; break; }
            a.push_back(s); b.push_back(e);
        }
        cells.push_back(a); text.push_back(b);
    }
    if (!can) { count("unspellable"); return; }
    std::vector<str> head, htext;
    if (o.hdr) for (int64_t j = 0; j < m; j++) {
        str s = rng.chance(0.6) ? fmt("col%d", (int)j) : word(rng, o) + fmt("%d", (int)j), e;
        if (!encode(rng, o, s, e)) return;
        head.push_back(s); htext.push_back(e);
    }
    // lines
    str nl;
    int nk = (int)rng.below(3);
    std::function<str()> newline = [&]() { if (o.lt) return str(1, o.lt); int k = nk == 2 && rng.chance(0.3) ? (int)rng.below(2) : nk; return str(k == 1 ? "\r\n" : "\n"); };
    bool cr = !o.lt && rng.chance(0.12);
    if (cr) newline = [&]() { return str("\r"); }, count("cr_files");
    str bytes;
    int line = 0;
    if (rng.chance(0.03)) bytes = "\xef\xbb\xbf";
    auto junk = [&]() { str s; const char *al = "ab1,; x.:"; for (int64_t k = rng.in(0, 12); k > 0; k--) s += al[rng.below(9)]; return s; };
    auto noise = [&]() { // lines that do not count
        while (rng.chance(0.06)) {
            if (o.com && rng.chance(0.5)) { bytes += str(1, o.com) + junk(); bytes += newline(); line++; }
            else if (o.sel) { if (rng.chance(0.4) && o.delim != ' ') bytes += str(rng.in(1, 3), ' '); bytes += newline(); line++; }
            else if (rng.chance(0.5) && !big) { o.skip.insert(line); str q = junk(); for (auto &c : q) if (c == o.lt) c = 'z'; bytes += q; bytes += newline(); line++; }
            else break;
        }
    };
    if (rng.chance(0.1)) { o.rs = (int)rng.in(1, 4); for (int k = 0; k < o.rs; k++) { str q = junk(); for (auto &c : q) if (c == o.lt) c = 'z'; bytes += q; bytes += newline(); line++; } }
    auto row = [&](const std::vector<str> &t, bool last) {
        noise();
        // a record that would look like an empty line or a comment
        str s;
        if (o.ws && rng.chance(0.1)) s += str(rng.in(1, 2), ' ');
        for (size_t j = 0; j < t.size(); j++) {
            if (j) s += o.ws ? (rng.chance(0.2) ? str("\t ") : str(rng.in(1, rng.chance(0.1) ? 3 : 1), ' ')) : str(1, o.delim);
            if (o.sis && !o.ws && rng.chance(0.1)) s += str(rng.in(1, 3), ' ');
            s += t[j];
        }
        if (o.ws && rng.chance(0.05)) s += " ";
        if (o.com && rng.chance(0.03)) { if (o.ws) s += " "; s += str(1, o.com) + junk(); }
        bytes += s;
        line++;
        if (!last || rng.chance(0.7)) bytes += newline();
    };
    if (o.hdr) row(htext, false);
    for (int64_t i = 0; i < n; i++) row(text[i], i + 1 == n && !o.foot);
    if (o.foot) { std::vector<str> f; for (int64_t j = 0; j < (rng.chance(0.7) ? m : rng.in(1, m + 2)); j++) f.push_back("foot"); row(f, true); }
    Opt o0 = o;
    bool sh = rng.chance(0.15) && shift(rng, o, bytes);
    Parsed P = Reader(bytes, o).run();
    Want w = want_of(P, o);
    str d = o.describe() + (sh ? fmt(" boundary case, %d bytes: ", (int)bytes.size()) + show(bytes.substr(std::min<size_t>(bytes.size(), bytes.find(o.lt ? o.lt : '\n') + 1))) : " file: " + show(bytes));
    sample(d);
    // the reader and the writer agree (a record whose only field is empty, or which starts like a comment or a blank line, does not say what was meant)
    if (w.kind == Want::TABLE && !P.grey) {
        bool same = w.rec.size() == cells.size() && w.rec[0].size() == (size_t)m;
        if (same) for (int64_t i = 0; i < n && same; i++) for (int64_t j = 0; j < m && same; j++) same = str_eq(w.rec[i][j].c_str(), cells[i][j], o);
        if (same) count("as_meant"); else count("differently_meant");
    } else count("not_a_table");
    if (!keep || kept++ > 12) { keep.reset(new Store); kept = 0; }
    judge(rng, o, w, bytes, d, rng.chance(0.7) ? keep.get() : nullptr);
    nontrivial(hstr(d.c_str()));
}

FAMILY(csvraw, 25000, 400000) {
    static std::unique_ptr<Store> keep;
    static int64_t kept = 0;
    Opt o = gen_opt(rng);
    if (rng.chance(0.1)) o.rs = (int)rng.in(1, 3);
    while (rng.chance(0.1)) o.skip.insert((int)rng.in(0, 5));
    str al = "0123456789";
    str sp2;
    for (char c : {o.delim, o.delim, o.quote, o.esc, o.com, o.dec, o.ts, o.sci, o.lt}) if (c) sp2 += c;
    sp2 += "\n\n\r -+ae.,\"";
    if (rng.chance(0.3)) sp2 += "\r\n\t";
    double ps = rng.uni(0.1, 0.7);
    str bytes;
    int64_t n = rng.size(0, rng.chance(0.1) ? 300 : 40);
    for (int64_t k = 0; k < n; k++) {
        if (rng.chance(0.03)) { bytes += rng.pick({"true", "false", "1e", "nan", "\r\n", "2147483648", "#", "  ", "\"a\"", "\"\""}); continue; }
        if (rng.chance(0.005)) { bytes += (char)rng.below(256); continue; }
        bytes += rng.chance(ps) ? sp2[rng.below((int64_t)sp2.size())] : al[rng.below(10)];
    }
    if (rng.chance(0.03)) bytes = "\xef\xbb\xbf" + bytes;
    if (rng.chance(0.01)) bytes = str("\xef\xbb\xbf", rng.in(1, 3));
    bool sh = rng.chance(0.1) && shift(rng, o, bytes);
    Parsed P = Reader(bytes, o).run();
    Want w = want_of(P, o);
    str d = o.describe() + (sh ? fmt(" boundary case, %d bytes: ", (int)bytes.size()) + show(bytes.substr(std::min<size_t>(bytes.size(), bytes.find(o.lt ? o.lt : '\n') + 1))) : " file: " + show(bytes));
    sample(d);
    count(w.kind == Want::TABLE ? "tables" : w.kind == Want::ERROR ? "errors" : w.kind == Want::NODATA ? "nodata" : "unknown");
    if (!keep || kept++ > 12) { keep.reset(new Store); kept = 0; }
    judge(rng, o, w, bytes, d, rng.chance(0.7) ? keep.get() : nullptr);
    nontrivial(hbytes(bytes.data(), bytes.size()));
}
