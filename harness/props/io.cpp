// C14: matrix file readers under read faults.
#include "mult.h"
#include "seg.h"
#include <cstring>
#include <cstdlib>
#include <memory>
#include <set>
#include <map>
namespace h {
struct Job14 { int op, diag, rnd; const char *path; void *obj; int status; int64_t rows, cols, n; int64_t *e; };
static const char *RN[] = {"ReadASCII", "ReadASCII_Triples", "CSR(string)", "ReadBinary"};
enum { V_INT, V_REAL, V_PATTERN, V_BIG, V_EXP };
enum { BAD_NONE, BAD_CUT, BAD_MISSING, BAD_RANGE, BAD_LINE, BAD_DROP, BAD_HEADER };
static i64 big_of(i64 v, int type) { i64 x = v * 1234567890123ll + v; return type == T_LU && x < 0 ? -x : x; }
static i64 int_of(i64 v, int type) { return type == T_LU && v < 0 ? -v : v; }
// one value as written in the file and as the reader must return it
static std::string token(const Case &c, i64 v, u64 &bits) {
    int type = (int)c.get("type"), k = (int)c.get("vk"); std::string t;
    if (k == V_PATTERN) { i64 one = 1; if (type == T_ID) { double d = 1; memcpy(&bits, &d, 8); } else bits = (u64)one; return ""; }
    if (type == T_ID) { t = k == V_INT ? fmt("%lld", (long long)v) : k == V_EXP ? fmt("%.16e", v * 0.37 - 1e-7) : fmt("%.17g", v * 0.25 + 0.001 * v); if (k == V_BIG) t = fmt("%lld", (long long)big_of(v, type)); double d = strtod(t.c_str(), nullptr); memcpy(&bits, &d, 8); return t; }
    i64 x = k == V_BIG ? big_of(v, type) : int_of(v, type); bits = (u64)x; return fmt("%lld", (long long)x);
}
static size_t last_line; // where the last entry line starts
static std::string text_of(const Case &c) {
    Rng r((u64)c.get("style")); const Mat &A = c.m[0]; bool sym = c.get("sym"), neat = c.get("neat"); std::string o;
    const char *f = c.get("vk") == V_PATTERN ? "pattern" : c.get("vk") == V_INT || (c.get("vk") == V_BIG) ? "integer" : "real";
    o += fmt("%%%%MatrixMarket matrix coordinate %s %s\n", f, sym ? "symmetric" : "general");
    if (!neat) { int n = (int)r.below(4); for (int i = 0; i < n; ++i) { o += "%"; int w = r.chance(1, 6) ? 250 + (int)r.below(400) : (int)r.below(60); for (int k = 0; k < w; ++k) o += "abc 123 % -."[r.below(12)]; o += "\n"; } }
    auto sp = [&](bool lead) { if (neat) return std::string(lead ? "" : " "); std::string s; int n = lead ? (r.chance(1, 8) ? (int)r.below(3) : 0) : r.chance(1, 4) ? (int)r.range(1, 4) : 1; for (int i = 0; i < n; ++i) s += r.chance(1, 9) && !lead ? "\t" : " "; return s; };
    i64 rows = A.rows, cols = A.cols, nnz = (i64)A.e.size(); int bad = (int)c.get("bad"); if (sym) rows = cols = std::max(rows, cols);
    size_t at = A.e.empty() ? 0 : (size_t)(c.get("badpos") % (i64)A.e.size());
    if (bad == BAD_HEADER) { int k = (int)(c.get("badpos") % 4); o += k == 0 ? std::string("\n") : k == 1 ? fmt("%lld %lld\n", (long long)rows, (long long)cols) : k == 2 ? std::string("x y z\n") : fmt("%lld %lld -1\n", (long long)rows, (long long)cols); }
    else o += sp(true) + fmt("%lld", (long long)rows) + sp(false) + fmt("%lld", (long long)cols) + sp(false) + fmt("%lld", (long long)nnz) + "\n";
    last_line = o.size();
    for (size_t i = 0; i < A.e.size(); ++i) {
        if (bad == BAD_DROP && i == at) continue;
        last_line = o.size();
        i64 x = A.e[i][0], y = A.e[i][1]; u64 b; std::string t = token(c, A.e[i][2], b);
        if (bad == BAD_RANGE && i == at) { int k = (int)(c.get("badpos") % 5); if (k == 0) x = rows + (c.get("badpos") / 7) % 3; else if (k == 1) y = cols + (c.get("badpos") / 7) % 3; else if (k == 2) x = -1; else if (k == 3) y = -1; else x = -5; }
        if (bad == BAD_LINE && i == at) { o += (const char *[]){"", "hello", "3", "- -", "1 x 2"}[c.get("badpos") % 5]; o += "\n"; continue; }
        o += sp(true) + fmt("%lld", (long long)x + 1) + sp(false) + fmt("%lld", (long long)y + 1); if (!t.empty()) o += sp(false) + t;
        if (!neat && r.chance(1, 10)) o += " "; if (!neat && c.get("crlf")) o += "\r"; o += "\n";
    }
    if (c.get("nonl") && !o.empty() && o.back() == '\n' && bad == BAD_NONE && !A.e.empty()) { o.pop_back(); if (!o.empty() && o.back() == '\r') o.pop_back(); }
    return o;
}
template <class I> static void app(std::string &o, I v) { o.append((char *)&v, sizeof v); }
static std::string bin_of(const Case &c) {
    const Mat &A = c.m[0]; int type = (int)c.get("type"); std::string o; int bad = (int)c.get("bad"); size_t at = A.e.empty() ? 0 : (size_t)(c.get("badpos") % (i64)A.e.size());
    auto id = [&](i64 v) { if (type == T_ID) app(o, (int)v); else app(o, v); };
    id(A.rows); id(bad == BAD_HEADER ? -(c.get("badpos") % 2) : A.cols); id((i64)A.e.size());
    int k = (int)(c.get("badpos") % 4);
    for (size_t i = 0; i < A.e.size(); ++i) { if (bad == BAD_DROP && i == at) continue; id(bad == BAD_RANGE && i == at && k < 2 ? (k ? A.rows + 1 : -1) : A.e[i][0]); }
    for (size_t i = 0; i < A.e.size(); ++i) id(bad == BAD_RANGE && i == at && k >= 2 ? (k == 2 ? A.cols : -2) : A.e[i][1]);
    for (auto &e : A.e) { u64 b; token(c, e[2], b); app(o, b); }
    return o;
}
static std::string bytes_of(const Case &c, bool &valid) {
    std::string o = c.get("op") == 3 ? bin_of(c) : text_of(c); int bad = (int)c.get("bad"); valid = bad == BAD_NONE;
    if ((bad == BAD_RANGE || bad == BAD_LINE || bad == BAD_DROP) && c.m[0].e.empty()) valid = true;
    if (c.get("op") == 3 && bad == BAD_LINE) valid = true;
    if (bad == BAD_CUT) { size_t cut = (size_t)(c.get("badpos") % (i64)(o.size() + 1)); valid = cut == o.size(); if (cut < o.size() && c.get("op") != 3) { std::string rest = o.substr(cut); if (rest.find_first_not_of(" \t\r\n") == std::string::npos && cut > last_line) valid = true; } o.resize(cut); }
    if (c.get("op") == 3 && (c.m[0].e.empty() || !c.m[0].rows || !c.m[0].cols)) valid = false; // an empty binary matrix is refused
    return o;
}
static u64 rd_faults() { auto &s = sim::stats(); return s.fired[sim::F_EINTR_READ] + s.fired[sim::F_EIO_READ] + s.fired[sim::F_TRUNC] + s.fired[sim::F_OPEN_FAIL]; }
static bool may_fail(const Case &c) { bool valid; bytes_of(c, valid); return !valid || c.get("bad") == BAD_MISSING || rd_faults(); }
// entries of the matrix a (possibly cut) text describes; false when it describes none
static bool parse(const Case &c, const std::string &t, std::vector<std::array<i64, 3>> &e) {
    std::vector<std::string> lines; size_t p = 0; while (p < t.size()) { size_t q = t.find('\n', p); if (q == std::string::npos) q = t.size(); lines.push_back(t.substr(p, q - p)); p = q + 1; }
    size_t i = 0; while (i < lines.size() && !lines[i].empty() && lines[i][0] == '%') ++i;
    long long m, n, k; char rest[8]; if (i >= lines.size() || sscanf(lines[i].c_str(), "%lld %lld %lld %1s", &m, &n, &k, rest) != 3 || m < 0 || n < 0 || k < 0) return false;
    if (i + 1 + (size_t)k > lines.size()) return false;
    int type = (int)c.get("type");
    for (long long q = 0; q < k; ++q) {
        const char *s = lines[i + 1 + q].c_str(); char *z; long long a = strtoll(s, &z, 10); if (z == s) return false; s = z; long long b = strtoll(s, &z, 10); if (z == s) return false;
        if (a < 1 || a > m || b < 1 || b > n) return false;
        while (*z == ' ' || *z == '\t' || *z == '\r') ++z; u64 v;
        if (!*z) { double d = 1; if (type == T_ID) memcpy(&v, &d, 8); else v = 1; }
        else if (type == T_ID) { char *y; double d = strtod(z, &y); if (y == z) return false; while (*y == ' ' || *y == '\t' || *y == '\r') ++y; if (*y) return false; memcpy(&v, &d, 8); }
        else { char *y; v = (u64)strtoll(z, &y, 10); if (y == z) return false; while (*y == ' ' || *y == '\t' || *y == '\r') ++y; if (*y) return false; }
        e.push_back({a - 1, b - 1, (i64)v}); if (c.get("sym") && a != b) e.push_back({b - 1, a - 1, (i64)v});
    }
    return true;
}
static Verdict exec14(const Case &c) {
    int op = (int)c.get("op"), type = (int)c.get("type"); const Mat &A = c.m[0];
    bool valid; std::string data = bytes_of(c, valid); sim::vfs_reset(); if (c.get("bad") != BAD_MISSING) sim::vfs_put("/sim/m", data);
    if (verbose) printf("file (%s):\n%s\n", valid ? "valid" : "invalid", op == 3 ? "(binary)" : data.c_str());
    auto f = get_fn<void (*)(Job14 &)>(fmt("read_%d", type).c_str()); if (!f) return Verdict::bad("harness", "read missing");
    Job14 j{op, (int)c.get("diag"), (int)c.get("rnd"), "/sim/m", nullptr, 0, 0, 0, 0, nullptr};
    { sim::HeapScope hs; if (op != 2) j.obj = c.get("pre") ? csc_ops[type].make(to_hmat(Mat{3, 2, {{0, 0, 1}, {2, 1, 4}}}, type, 0, true, true)) : csc_ops[type].empty(); }
    start(c); std::string ex;
    sim::run([&] { try { f(j); } catch (std::exception &x) { sim::HeapScope hs(false); ex = x.what(); if (ex.empty()) ex = "?"; } catch (...) { sim::HeapScope hs(false); ex = "exception"; } });
    std::string who = std::string(RN[op]) + fmt(" (%lldx%lld, %zu entries, type %d, value kind %lld%s): ", (long long)A.rows, (long long)A.cols, A.e.size(), type, (long long)c.get("vk"), c.get("sym") ? ", symmetric" : "");
    probe(RN[op]); nontrivial(!A.e.empty() && (!valid || c.get("bad") == BAD_MISSING || rd_faults() || sim::stats().fired[sim::F_SHORT_READ] || c.get("sym") || !c.get("neat")));
    bool failed = !ex.empty() || j.status != 1; Verdict v;
    if (failed) {
        probe("failure reported"); v.hash = 5;
        if (!may_fail(c)) return Verdict::bad("refused", who + "a readable matrix was refused " + ex);
        return v;
    }
    probe("matrix returned");
    if (c.get("bad") == BAD_MISSING) return Verdict::bad("false-success", who + "success although the file does not exist");
    if (sim::stats().fired[sim::F_OPEN_FAIL]) return Verdict::bad("false-success", who + "success although the file cannot be opened");
    // the matrices the bytes may describe (a file that ends early inside its last value still describes one)
    std::vector<std::vector<std::array<i64, 3>>> cand; i64 rows = A.rows, cols = A.cols; if (c.get("sym")) rows = cols = std::max(rows, cols);
    if (op == 3) {
        if (!valid || sim::stats().fired[sim::F_TRUNC]) { bool whole = valid; if (!whole) return Verdict::bad("false-success", who + "success for an invalid or truncated file"); }
        std::vector<std::array<i64, 3>> e; for (auto &x : A.e) { u64 b; token(c, x[2], b); e.push_back({x[0], x[1], (i64)b}); } cand.push_back(e);
    } else {
        std::vector<std::array<i64, 3>> e; if (parse(c, data, e)) cand.push_back(e);
        if (sim::stats().fired[sim::F_TRUNC]) for (size_t cut = last_line; cut < data.size(); ++cut) { e.clear(); if (parse(c, data.substr(0, cut), e)) cand.push_back(e); }
        if (cand.empty()) return Verdict::bad("false-success", who + "success for a file that holds no complete matrix");
    }
    Verdict first; u64 hash = 0;
    for (size_t q = 0; q < cand.size(); ++q) {
        auto e = cand[q]; bool byrow = op == 2; std::vector<Seg> want(byrow ? rows : cols);
        if (op == 1) {
            if (j.diag) e.erase(std::remove_if(e.begin(), e.end(), [](auto &x) { return x[0] == x[1]; }), e.end());
            if (j.rows != rows || j.cols != cols) return Verdict::bad("wrong-result", who + fmt("dimensions %lldx%lld", (long long)j.rows, (long long)j.cols));
            std::vector<std::array<i64, 3>> got; std::map<std::pair<i64, i64>, i64> rv;
            for (i64 k = 0; k < j.n; ++k) got.push_back({j.e[3 * k], j.e[3 * k + 1], j.e[3 * k + 2]});
            if (j.rnd) {
                for (auto &g : got) { double d; if (type == T_ID) memcpy(&d, &g[2], 8); else d = (double)g[2]; if (d < 7 || d > 16 || d != (double)(int)d) { v = Verdict::bad("wrong-result", who + "random value out of range"); break; } rv[{g[0], g[1]}] = g[2]; }
                if (c.get("sym")) for (auto &x : rv) { auto it = rv.find({x.first.second, x.first.first}); if (it != rv.end() && it->second != x.second) v = Verdict::bad("wrong-result", who + "mirrored entries differ"); }
                for (auto &g : got) g[2] = 0; for (auto &x : e) x[2] = 0;
            }
            std::sort(got.begin(), got.end()); std::sort(e.begin(), e.end());
            if (v.ok && got != e) { size_t k = 0; while (k < got.size() && k < e.size() && got[k] == e[k]) ++k; v = Verdict::bad("wrong-result", who + fmt("%zu entries instead of %zu; first difference at sorted entry %zu", got.size(), e.size(), k)); }
            else if (v.ok) { v.hash = mix(got.size(), 1); return v; }
        } else {
            for (auto &x : e) { if (byrow) want[x[0]].push_back({x[1], (u64)x[2]}); else want[x[1]].push_back({x[0], (u64)x[2]}); }
            v = match(j.obj, type, !byrow, rows, cols, want, false, who, hash); if (v.ok) { v.hash = hash; return v; }
        }
        if (!q) first = v; v = Verdict();
    }
    return first;
}
static Module m14() {
    Module m; m.id = "C14"; m.exec = exec14; m.shrink_lists = false;
    m.real = "IO.h, CSR.h (file constructor), CSC.h, Triple.h of /repo with instrumented memory accesses; libstdc++ and glibc streams"; m.stub = "files under /sim/ (in memory, with injected read faults), OpenMP runtime, heap allocator, clocks";
    m.assumptions = {"sampled search: matrices up to about 130 rows and 1600 entries", "coordinate files with a banner, symmetry general or symmetric, values integer, real or pattern; at most one malformation per file", "value kinds representable in the value type"};
    m.rule = "Each run renders a drawn matrix as a Matrix Market text (general or symmetric; integer, large, real, exponent or pattern values; comments of any length, irregular blanks, missing final newline) or binary file, possibly truncated at a drawn byte, missing, with an entry out of range, a malformed or missing line or header, and reads it with one of the four readers while reads are shortened, interrupted, cut or fail. A returned matrix must be one the visible bytes describe completely; an intact file without faults must be read; a failure must be reported as an error status, exception or termination. Non-trivial: at least one entry and a fault, malformation, symmetry or irregular layout.";
    m.params = {{"style", 0}, {"pre", 0}, {"diag", 0}, {"rnd", 0}, {"sym", 0}, {"vk", 0}, {"crlf", 0}, {"nonl", 0}, {"badpos", 0}}; m.site = [](const Case &c, const Verdict &v) { return std::string(RN[c.get("op")]) + "/" + v.cls; };
    m.valid = [](const Case &c) { if (c.m.size() != 1) return false; if (c.get("sym")) { if (c.m[0].rows != c.m[0].cols) return false; std::set<std::pair<i64, i64>> s; for (auto &e : c.m[0].e) if (!s.insert({std::max(e[0], e[1]), std::min(e[0], e[1])}).second) return false; } return true; };
    m.tolerate = [](const Case &c, const std::string &cls, const std::string &msg) { if (cls != "exit" && cls != "terminate" && cls != "abort" && cls != "assert") return false; if (cls == "exit" && msg == "0") return false; return may_fail(c); };
    m.gen = [](Rng &r, Case &c, bool, u64) {
        c.p["op"] = pick(r, {0, 0, 1, 1, 2, 2, 3, 3}); int type = (int)r.range(0, 2); c.p["type"] = type; c.p["sym"] = c.get("op") != 3 && r.chance(1, 3); c.p["vk"] = type == T_ID ? r.range(0, 4) : pick(r, {V_INT, V_INT, V_PATTERN, V_BIG});
        if (c.get("op") == 3 && c.get("vk") == V_PATTERN) c.p["vk"] = V_INT;
        Case t; gen_mult(r, t, (int)pick(r, {G_TINY, G_TINY, G_SMALL, G_SMALL, G_SMALL, G_DENSE, G_MED}), true); Mat x = t.m[r.below(3)]; if (x.e.size() > 700) x.e.resize(700);
        if (c.get("sym")) { x.rows = x.cols = std::max(x.rows, x.cols); std::set<std::pair<i64, i64>> s; std::vector<std::array<i64, 3>> z; for (auto e : x.e) { if (e[0] < e[1]) std::swap(e[0], e[1]); if (s.insert({e[0], e[1]}).second) z.push_back(e); } x.e = z; }
        if (r.chance(1, 2)) for (size_t i = x.e.size(); i > 1; --i) std::swap(x.e[i - 1], x.e[r.below(i)]);
        c.m = {x}; c.p["style"] = (i64)(r.next() >> 40); c.p["neat"] = r.chance(1, 2); c.p["crlf"] = r.chance(1, 12); c.p["nonl"] = r.chance(1, 5); c.p["pre"] = r.chance(1, 3); c.p["diag"] = r.chance(1, 4); c.p["rnd"] = r.chance(1, 6);
        c.p["bad"] = pick(r, {BAD_NONE, BAD_NONE, BAD_NONE, BAD_NONE, BAD_NONE, BAD_CUT, BAD_CUT, BAD_CUT, BAD_MISSING, BAD_RANGE, BAD_RANGE, BAD_LINE, BAD_DROP, BAD_HEADER}); c.p["badpos"] = (i64)(r.next() >> 30);
        gen_sched(r, c);
        int k = (int)r.below(8);
        if (k == 1 || k == 2) set_fault(c, sim::F_SHORT_READ, (int)pick(r, {300, 900, 1024}));
        if (k == 2 || k == 3) set_fault(c, sim::F_EIO_READ, (int)pick(r, {60, 300, 700}));
        if (k == 4) set_fault(c, sim::F_TRUNC, (int)pick(r, {60, 300, 700}));
        if (k == 4 && r.chance(1, 2)) set_fault(c, sim::F_SHORT_READ, 900);
        if (k == 5) { set_fault(c, sim::F_EINTR_READ, (int)pick(r, {200, 500})); set_fault(c, sim::F_SHORT_READ, 600); }
        if (k == 6 && r.chance(1, 4)) set_fault(c, sim::F_OPEN_FAIL, 1024);
    };
    return m;
}
static AddModule a14(m14());
}
