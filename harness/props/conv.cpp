// C12: storage conversion and transposition. C13: builders and helpers on matrices.
#include "mult.h"
#include "seg.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <set>
namespace h {
static const char *ON[] = {"CSR(CSC)", "CSR(CSC, false)", "CSR(CSC, true)", "csr2csc", "csr2csc twice", "CSC to CSR to csr2csc"};
static u64 val_of(int type, i64 v) { if (type == T_ID) { double d = v * 0.5; u64 b; memcpy(&b, &d, 8); return b; } return (u64)v; }
static HMat store(const Mat &m, int type, bool by_col, bool sorted) { HMat h = to_hmat(m, type, 0, sorted, by_col); if (type == T_ID) for (auto &v : h.val) { double d; memcpy(&d, &v, 8); d *= 0.5; memcpy(&v, &d, 8); } return h; }
static void unsort(HMat &h, u64 seed) { Rng r(seed); for (size_t i = 0; i + 1 < h.ptr.size(); ++i) for (i64 k = h.ptr[i + 1] - 1; k > h.ptr[i]; --k) { i64 q = h.ptr[i] + (i64)r.below(k - h.ptr[i] + 1); std::swap(h.idx[k], h.idx[q]); std::swap(h.val[k], h.val[q]); } }
static Verdict exec12(const Case &c) {
    int op = (int)c.get("op"), type = (int)c.get("type"), thr = (int)c.get("thr"); const Mat &A = c.m[0]; bool bycol = op <= 2 || op == 5;
    HMat h = store(A, type, bycol, !c.get("uns")); if (c.get("uns") && bycol) unsort(h, c.get("vs"));
    void *src; { sim::HeapScope hs; src = (bycol ? csc_ops : csr_ops)[type].make(h); }
    HMat want = op == 0 || op == 1 ? store(A, type, false, true) : op == 2 || op == 4 ? h : op == 3 ? store(A, type, true, true) : h;
    auto f = get_fn<void *(*)(int, void *, int)>(fmt("conv_%d", type).c_str()); if (!f) return Verdict::bad("harness", "conv missing");
    start(c); void *res = nullptr;
    sim::run([&] { res = f(op, src, thr); });
    std::string who = std::string(ON[op]) + fmt(" of %lldx%lld, %zu entries, %d threads: ", (long long)A.rows, (long long)A.cols, A.e.size(), thr);
    bool tr = op == 2 || op == 3 || op == 5; u64 hash = 0;
    Verdict v = match(res, type, false, tr ? A.cols : A.rows, tr ? A.rows : A.cols, segs(want, true), op <= 1, who, hash); if (!v.ok) return v;
    HMat now; std::string err; if (!read_obj(src, type, bycol, now, err) || !(now == h)) return Verdict::bad("input-changed", who + "the source changed");
    sim::run([&] { csr_ops[type].destroy(res); (bycol ? csc_ops : csr_ops)[type].destroy(src); });
    probe(ON[op]); nontrivial(A.e.size() > 1 && (op <= 2 || (sim::stats().max_team > 1 && sim::stats().switches > 1)));
    v.hash = op <= 2 ? hash : mix(A.e.size(), 1); return v;
}
static const char *REAL = "CSR.h, CSC.h, util/transpose.h, util/triple-util.h, Triple.h, utility.h of /repo, compiled with instrumented memory accesses; libstdc++", *STUB = "OpenMP runtime (teams, work sharing, atomics), heap allocator: replaced by the simulator";
static const std::vector<std::string> ASSUME = {"sampled search: matrices up to about 1500 rows, 70000 columns and 1600 entries", "interleavings are sequentially consistent at the granularity of instrumented memory accesses"};
static Mat gen_any(Rng &r) {
    int k = (int)pick(r, {G_TINY, G_SMALL, G_SMALL, G_MED, G_MED, G_HUB, G_DENSE, G_TALL, G_WIDE}); Case t; gen_mult(r, t, k, true);
    Mat m = t.m[r.below(3)]; if (r.chance(1, 25)) m.e.clear(); if (r.chance(1, 2)) { std::swap(m.rows, m.cols); for (auto &e : m.e) std::swap(e[0], e[1]); std::sort(m.e.begin(), m.e.end()); } return m;
}
static Module m12() {
    Module m; m.id = "C12"; m.exec = exec12; m.real = REAL; m.stub = STUB; m.assumptions = ASSUME;
    m.rule = "Each run draws one matrix (empty rows and columns, zero dimensions, no entries, rectangular, sorted or not) and one conversion - column to row storage through each constructor, the parallel transposition, transposing twice, converting and transposing back - and compares dimensions, offsets and the multiset of entries of every row with the source. Blocks have exactly the promised sizes. Non-trivial: at least two entries and, for the parallel transposition, at least two threads and a context switch.";
    m.params = {{"thr", 1}, {"uns", 0}, {"s_icv", 1}}; m.site = [](const Case &c, const Verdict &v) { return std::string(ON[c.get("op")]) + "/" + v.cls; };
    m.valid = [](const Case &c) { return c.m.size() == 1; };
    m.gen = [](Rng &r, Case &c, bool, u64) {
        c.p["op"] = pick(r, {0, 1, 2, 3, 3, 3, 3, 4, 4, 5, 5}); c.p["type"] = r.range(0, 2); c.p["thr"] = gen_threads(r); c.p["uns"] = r.chance(1, 3); c.p["vs"] = (i64)(r.next() >> 2);
        Mat x = gen_any(r); if (c.get("uns")) shuffle_rows(r, x); c.m = {x}; gen_sched(r, c);
        if (r.chance(1, 6)) set_fault(c, sim::F_SHORT_TEAM, (int)pick(r, {200, 512, 1024}));
    };
    return m;
}
static AddModule a12(m12());
// ------------------------------------------------------------------ C13
struct Job13 { int op, thr, add; int64_t rows, cols, n; const int64_t *e; void *a, *b; int64_t *out; int64_t nout; };
static const char *BN[] = {"CSC(triples)", "CSC(pairs)", "CSC(tuples, op)", "CSC(arrays)", "CSC(graph)", "CSR(graph)", "sortIds", "CSR::shuffleIds", "CSC::shuffleIds", "MergeDuplicates", "Intersect", "removeDuplicates", "generateRandomTriples", "sumall", "ConvertOneBased/ZeroBased", "CSR::operator==", "CSC::operator=="};
static u64 addv(int type, int k, u64 x, u64 y) {
    if (type == T_ID) { double a, b, z; memcpy(&a, &x, 8); memcpy(&b, &y, 8); z = k == 1 ? (b < a ? b : a) : k == 2 ? (a < b ? b : a) : k == 3 ? a * 31 + b : k == 4 ? b : k == 5 ? a : a + b; memcpy(&x, &z, 8); return x; }
    if (type == T_LL) { i64 a = (i64)x, b = (i64)y; return k == 1 ? (u64)std::min(a, b) : k == 2 ? (u64)std::max(a, b) : k == 3 ? x * 31 + y : k == 4 ? y : k == 5 ? x : x + y; }
    return k == 1 ? std::min(x, y) : k == 2 ? std::max(x, y) : k == 3 ? x * 31 + y : k == 4 ? y : k == 5 ? x : x + y;
}
static std::vector<Seg> merged(std::vector<Seg> s, int type, int add) { for (auto &g : s) { std::stable_sort(g.begin(), g.end(), [](auto &a, auto &b) { return a.first < b.first; }); Seg o; for (auto &x : g) { if (!o.empty() && o.back().first == x.first) o.back().second = addv(type, add, o.back().second, x.second); else o.push_back(x); } g = o; } return s; }
static Verdict exec13(const Case &c) {
    int op = (int)c.get("op"), type = (int)c.get("type"), thr = (int)c.get("thr"), add = (int)c.get("add"); const Mat &A = c.m[0];
    auto f = get_fn<void *(*)(Job13 &)>(fmt("build_%d", type).c_str()); if (!f) return Verdict::bad("harness", "build missing");
    std::string who = std::string(BN[op]) + fmt(" (%lldx%lld, %zu entries, op %d, %d threads): ", (long long)A.rows, (long long)A.cols, A.e.size(), add, thr);
    Job13 j{op, thr, add, A.rows, A.cols, (i64)A.e.size(), nullptr, nullptr, nullptr, nullptr, 0};
    std::vector<i64> e, out(3 * std::max<size_t>(A.e.size() + 2, 2)); bool graph = op == 4 || op == 5;
    for (auto &x : A.e) { e.push_back(x[0]); e.push_back(x[1]); e.push_back(graph ? x[2] : (i64)val_of(type, x[2])); }
    j.e = e.data(); j.out = out.data();
    bool bycol = op <= 4 || op == 8 || op == 9 || op == 16; HMat h, h2; Mat B = c.m.size() > 1 ? c.m[1] : Mat();
    if (op >= 6 && op != 11 && op != 12) {
        h = store(A, type, bycol, op == 9 || op == 10); if (op == 8 && c.get("uns")) unsort(h, c.get("vs"));
        sim::HeapScope hs; bool blank = c.get("blank") && op >= 15;
        if (blank) { h = HMat(); h.ptr = {0}; } j.a = blank ? (bycol ? csc_ops : csr_ops)[type].empty() : (bycol ? csc_ops : csr_ops)[type].make(h);
        if (op == 10 || op >= 15) { bool b2 = blank && c.get("blank") == 2; h2 = store(B, type, bycol, true); if (op >= 15 && !blank && c.get("uns")) h2 = h; if (b2) h2 = h; j.b = b2 ? (bycol ? csc_ops : csr_ops)[type].empty() : (bycol ? csc_ops : csr_ops)[type].make(h2); }
    }
    start(c); void *res = nullptr;
    sim::run([&] { res = f(j); });
    u64 hash = 0; Verdict v; i64 n = (i64)A.e.size(); bool par = sim::stats().max_team > 1 && sim::stats().switches > 1;
    nontrivial(n > 1 && (par || op == 4 || op == 5 || op == 7 || op == 8 || op == 11 || op == 12 || op >= 14)); probe(BN[op]);
    if (op <= 5) {
        HMat all; HMat raw = to_hmat(A, type, 0, false, bycol); all = graph ? raw : store(A, type, bycol, false); auto s = segs(all, true);
        if (op == 1) { u64 one = type == T_ID ? val_of(type, 2) : 1; for (auto &g : s) for (auto &x : g) x.second = one; }
        if (op == 2 || graph) s = merged(s, type, graph ? 0 : add);
        v = match(res, type, bycol, A.rows, A.cols, s, op <= 3, who, hash);
    } else if (op <= 8) { v = match(res, type, bycol, A.rows, A.cols, segs(h, true), op == 6, who, hash);
    } else if (op == 9) { v = match(res, type, true, A.rows, A.cols, merged(segs(h, false), type, add), true, who, hash);
    } else if (op == 10) {
        bool conf = A.rows == B.rows && A.cols == B.cols; std::vector<Seg> s;
        if (!conf) { i64 rr, cc, nn; const void *p, *x, *w; csr_ops[type].view(res, rr, cc, nn, p, x, w); if (rr || cc || nn) return Verdict::bad("wrong-result", who + "mismatched operands give a non-empty matrix"); return v; }
        auto a = segs(h, true), b = segs(h2, true); s.resize(a.size());
        for (size_t i = 0; i < a.size(); ++i) for (auto &x : a[i]) for (auto &y : b[i]) if (x.first == y.first) s[i].push_back({x.first, addv(type, add, x.second, y.second)});
        v = match(res, type, false, A.rows, A.cols, s, true, who, hash);
    } else if (op == 11 || op == 12) {
        if (j.nout < 0 || j.nout > n) return Verdict::bad("wrong-result", who + fmt("%lld entries are left of %lld", (long long)j.nout, (long long)n));
        std::map<std::pair<i64, i64>, std::vector<i64>> in; for (i64 i = 0; i < n; ++i) in[{e[3 * i], e[3 * i + 1]}].push_back(e[3 * i + 2]);
        for (i64 i = 0; i < j.nout; ++i) {
            i64 *t = &out[3 * i]; if (i && std::make_pair(t[0], t[1]) <= std::make_pair(t[-3], t[-2])) return Verdict::bad("not-sorted", who + fmt("entry %lld is not after its predecessor", (long long)i));
            if (op == 12) { if (t[0] < 0 || t[0] >= A.rows || t[1] < 0 || t[1] >= A.cols) return Verdict::bad("wrong-result", who + fmt("entry (%lld,%lld) outside the matrix", (long long)t[0], (long long)t[1])); continue; }
            auto it = in.find({t[0], t[1]}); if (it == in.end() || std::find(it->second.begin(), it->second.end(), t[2]) == it->second.end()) return Verdict::bad("wrong-result", who + fmt("entry (%lld,%lld) was not in the input", (long long)t[0], (long long)t[1]));
        }
        if (op == 11 && j.nout != (i64)in.size()) return Verdict::bad("wrong-result", who + fmt("%lld entries are left instead of %zu", (long long)j.nout, in.size()));
        if (op == 12 && n && A.rows && A.cols && !j.nout) return Verdict::bad("wrong-result", who + "no entry generated");
    } else if (op == 13) {
        u64 s = 0; for (u64 x : h.val) s = addv(type, 0, s, x);
        if ((u64)out[0] != s) return Verdict::bad("wrong-result", who + "sum is " + show_val(type, (u64)out[0]) + " instead of " + show_val(type, s));
    } else if (op == 14) {
        if (out[0] != 1 || out[1] != 0 || out[3] != 0 || out[4] != 1) return Verdict::bad("wrong-result", who + fmt("return values %lld %lld %lld %lld", (long long)out[0], (long long)out[1], (long long)out[3], (long long)out[4]));
        if (!out[2]) return Verdict::bad("wrong-result", who + "the shifted matrix differs from its copy");
        v = match(res, type, false, A.rows, A.cols, segs(h, true), false, who, hash);
    } else {
        if (type == T_LU) return v;
        bool eq = h.rows == h2.rows && h.cols == h2.cols && h.ptr == h2.ptr && h.idx == h2.idx && h.val == h2.val;
        if ((out[0] != 0) != eq) return Verdict::bad("wrong-result", who + fmt("comparison says %s", out[0] ? "equal" : "different"));
    }
    if (!v.ok) return v;
    if (res) sim::run([&] { (bycol ? csc_ops : csr_ops)[type].destroy(res); });
    v.hash = mix(n, op); return v;
}
static Module m13() {
    Module m; m.id = "C13"; m.exec = exec13; m.real = REAL; m.stub = STUB; m.assumptions = ASSUME;
    m.rule = "Each run draws one entry list (with duplicates, empty rows, zero dimensions, rectangular, unsorted) and one operation - building from triples, pairs, tuples, arrays or an edge list, sorting or shuffling ids, merging duplicates, intersecting, removing duplicate or generating random triples, summing, shifting between zero- and one-based ids, comparing - and compares the result with its sequential definition. Non-trivial: at least two entries and, for the parallel operations, at least two threads and a context switch.";
    m.params = {{"thr", 1}, {"uns", 0}, {"add", 0}, {"blank", 0}, {"s_icv", 1}}; m.site = [](const Case &c, const Verdict &v) { return std::string(BN[c.get("op")]) + "/" + v.cls; };
    m.valid = [](const Case &c) {
        if (c.m.empty()) return false; int op = (int)c.get("op"); const Mat &A = c.m[0];
        if (op == 3 && (A.e.empty() || !A.rows)) return false;
        if (op == 4 || op == 5) { if (A.e.empty() || A.rows != A.cols) return false; for (size_t i = 1; i < A.e.size(); ++i) if (A.e[i][0] < A.e[i - 1][0]) return false; }
        if (op == 12 && (!A.rows || !A.cols)) return false;
        if (op >= 6 && op != 11) { auto e = A.e; for (size_t i = 1; i < e.size(); ++i) if (op != 6 && op != 9 && op != 7 && op != 8 && op != 13 && e[i][0] == e[i - 1][0] && e[i][1] == e[i - 1][1]) return false; }
        return op < 10 || op == 11 || op == 12 || op == 13 || op == 14 || c.m.size() == 2;
    };
    m.gen = [](Rng &r, Case &c, bool, u64) {
        int op = (int)pick(r, {0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 6, 7, 8, 9, 9, 10, 10, 10, 11, 12, 13, 13, 14, 15, 16}); c.p["op"] = op; c.p["type"] = r.range(0, 2); c.p["thr"] = gen_threads(r); c.p["uns"] = r.chance(1, 3); c.p["vs"] = (i64)(r.next() >> 2);
        Mat x = gen_any(r); c.p["add"] = op == 10 ? r.range(0, 5) : r.range(0, 2);
        if (op == 4 || op == 5) { i64 n = std::max<i64>(1, std::max(x.rows, x.cols)); x.rows = x.cols = n; if (x.e.empty()) x.e.push_back({r.range(0, n - 1), r.range(0, n - 1), 1}); }
        if (op == 3) { if (!x.rows) x.rows = 1; if (!x.cols) x.cols = 1; if (x.e.empty()) x.e.push_back({r.range(0, x.rows - 1), r.range(0, x.cols - 1), 1}); }
        if (op == 12) { if (!x.rows) x.rows = 1; if (!x.cols) x.cols = 1; }
        bool dup = op <= 5 || op == 9 || op == 11 || ((op == 6 || op == 7 || op == 8 || op == 13) && r.chance(1, 4));
        if (dup && !x.e.empty()) { i64 k = (i64)r.below(x.e.size() + 1); size_t base = x.e.size(); for (i64 i = 0; i < k; ++i) { auto t = x.e[r.chance(1, 3) ? base - 1 : r.below(base)]; if (r.chance(2, 3)) t[2] = r.range(-4, 9); x.e.push_back(t); } }
        for (size_t i = x.e.size(); i > 1; --i) std::swap(x.e[i - 1], x.e[r.below(i)]);
        if (op == 4 || op == 5) std::stable_sort(x.e.begin(), x.e.end(), [](auto &a, auto &b) { return a[0] < b[0]; });
        if (op == 13 && r.chance(1, 4)) for (auto &e : x.e) e[2] = e[2] * 1000003 * (c.get("type") ? 1009 : 17);
        c.m = {x};
        if (op == 10 || op >= 15) {
            Mat y; y.rows = x.rows; y.cols = x.cols; unsigned keep = (unsigned)r.range(0, 100); std::map<std::pair<i64, i64>, i64> s;
            for (auto &e : x.e) if (r.below(100) < keep) s[{e[0], e[1]}] = r.chance(1, 2) ? e[2] : r.range(-4, 9);
            if (x.rows && x.cols) { i64 k = (i64)r.below(60); for (i64 i = 0; i < k; ++i) s[{r.range(0, x.rows - 1), r.range(0, x.cols - 1)}] = r.range(-4, 9); }
            for (auto &q : s) y.e.push_back({q.first.first, q.first.second, q.second});
            if (op >= 15) { y = x; int k = (int)r.below(6); if (!y.e.empty()) { auto &t = y.e[r.below(y.e.size())]; if (k == 0) t[2] += 1; else if (k == 1) y.e.pop_back(); else if (k == 2 && y.cols > 1) t[1] = (t[1] + 1) % y.cols; } if (k == 3) ++y.rows; if (k == 4) ++y.cols; c.p["uns"] = r.chance(1, 3); c.p["blank"] = r.chance(1, 6) ? r.range(1, 2) : 0;
                std::set<std::pair<i64, i64>> u; std::vector<std::array<i64, 3>> z; for (auto &e : y.e) if (u.insert({e[0], e[1]}).second) z.push_back(e); y.e = z; }
            else if (r.chance(1, 30)) ++y.cols;
            c.m.push_back(y);
        }
        // sparsely used ids far apart: the dimension that no array is sized by may be huge
        bool wr = op <= 3 || op == 9 || op == 11, wc = op == 6 || op == 10 || op == 11 || op == 14;
        if ((wr || wc) && r.chance(1, 6)) {
            i64 top = c.get("type") == T_ID ? (1ll << 31) - 2 : r.chance(1, 2) ? 1ll << 44 : 1ll << 33;
            for (int d = 0; d < 2; ++d) if (d ? wc : wr) {
                i64 old = 0; for (auto &q : c.m) old = std::max(old, d ? q.cols : q.rows); if (!old) continue;
                i64 k = r.chance(1, 2) ? top / old : 1ll << r.below(64 - (unsigned)__builtin_clzll((unsigned long long)(top / old))); // multiples of a power of two collide when cut short
                i64 off = r.range(0, top - k * old);
                for (auto &q : c.m) { for (auto &e : q.e) e[d] = e[d] * k + off; i64 &dim = d ? q.cols : q.rows; dim = dim == old ? top : std::max<i64>(dim * k + off, 1); }
            }
        }
        gen_sched(r, c); if (r.chance(1, 6)) set_fault(c, sim::F_SHORT_TEAM, (int)pick(r, {200, 512, 1024}));
    };
    return m;
}
static AddModule a13(m13());
}
