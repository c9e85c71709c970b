// C09: prefix sums, work estimates, partitions.
#include "mult.h"
#include <cstring>
#include <algorithm>
namespace h {
static const char *KN[] = {"inclusive scan", "exclusive scan", "inclusive scan in a team", "exclusive scan in a team", "array scan", "sequential array scan", "work estimate", "binned partition", "work distribution", "buffer bounds"};
static void *arena(size_t n) { sim::HeapScope hs; return malloc(n); }
static int esz(int t) { return t == 0 ? 4 : 8; }
static void put(void *p, int t, size_t i, i64 v) { if (t == 0) ((int *)p)[i] = (int)v; else ((i64 *)p)[i] = v; }
static i64 at(const void *p, int t, size_t i) { return t == 0 ? ((const int *)p)[i] : ((const i64 *)p)[i]; }
static Verdict scans(const Case &c, int kind) {
    int t = (int)c.get("type"); i64 n = c.get("n"); int thr = (int)c.get("thr");
    auto f = get_fn<void (*)(int, const void *, i64, void *, int)>(t == 0 ? "scan_int" : t == 1 ? "scan_i64" : "scan_u64");
    bool arr = kind == 4 || kind == 5; i64 ns = arr ? n - 1 : n; // the whole-array form reads one element less than it writes
    std::vector<i64> src(ns), want(n); Rng r((u64)c.get("vs"));
    i64 mx = c.get("mx", 9); for (auto &x : src) x = r.chance(1, 3) ? 0 : (t != 2 && c.get("neg") && r.chance(1, 5)) ? -r.range(0, mx) : r.range(0, mx);
    if (c.l.size() > (c.get("s_replay") ? 2 : 0) && !c.l[0].empty() && (i64)c.l[0].size() == ns) src = c.l[0];
    i64 acc = 0; bool incl = kind == 0 || kind == 2;
    for (i64 i = 0; i < n; ++i) { if (incl) { acc += src[i]; want[i] = acc; } else { want[i] = acc; if (i < ns) acc += src[i]; } }
    void *s = arena(ns * esz(t)), *d = arena(n * esz(t));
    for (i64 i = 0; i < ns; ++i) put(s, t, i, src[i]);
    start(c);
    sim::run([&] { f(kind, s, n, d, thr); });
    std::string who = std::string(KN[kind]) + fmt(" of %lld values, %d threads: ", (long long)n, thr);
    for (i64 i = 0; i < n; ++i) if (at(d, t, i) != want[i]) return Verdict::bad("wrong-result", who + fmt("element %lld is %lld instead of %lld", (long long)i, (long long)at(d, t, i), (long long)want[i]));
    for (i64 i = 0; i < ns; ++i) if (at(s, t, i) != src[i]) return Verdict::bad("input-changed", who + fmt("input element %lld changed", (long long)i));
    nontrivial(n > 1 && sim::stats().max_team > 1 && sim::stats().switches > 1);
    Verdict v; v.hash = mix(n, acc); return v;
}
static const char *WN[] = {"calculateFlops", "calculateFlops (masked)", "calculateWork", "calculateMultOps", "getFlop (generic heap)", "-", "get_flop (CSR*CSR)", "get_flop (CSC*CSR)", "get_flop (heap, CSC*CSC)", "get_flop (heap, total only)", "get_flop (inner, CSC*CSC)", "get_flop (inner, total only)", "getFlop (outer)"};
static std::string work_fn(int op) { return op <= 3 ? "work_" : op <= 7 ? "workold_" : op <= 9 ? "workheap_" : op <= 11 ? "workinner_" : "workouter_"; }
static Verdict works(const Case &c) {
    int op = (int)c.get("op"), type = (int)c.get("type") ? T_LL : T_ID, thr = (int)c.get("thr"); const char *sx = type == T_ID ? "0" : "1";
    const Mat &A = c.m[0], &B = c.m[1], &M = c.m[2]; bool acol = op >= 7, bcol = op == 2 || (op >= 8 && op <= 11);
    HMat hA = to_hmat(A, type, 0, true, acol), hB = to_hmat(B, type, 0, true, bcol), hM = to_hmat(M, type, 0, true);
    HMat rA = to_hmat(A, type, 0, true), rB = to_hmat(B, type, 0, true), cB = to_hmat(B, type, 0, true, true);
    void *a, *b, *m; { sim::HeapScope hs; a = (acol ? csc_ops : csr_ops)[type].make(hA); b = (bcol ? csc_ops : csr_ops)[type].make(hB); m = csr_ops[type].make(hM); }
    // reference
    std::vector<i64> per; i64 tot = 0;
    bool bycol = op >= 8 && op <= 11; i64 np = bycol ? B.cols : A.rows; per.assign(np, 0);
    if (op == 2) { for (i64 i = 0; i < M.rows; ++i) for (i64 k = hM.ptr[i]; k < hM.ptr[i + 1]; ++k) { i64 j = hM.idx[k], la = rA.ptr[i + 1] - rA.ptr[i], lb = cB.ptr[j + 1] - cB.ptr[j]; if (la && lb) per[i] += la + lb; } }
    else if (bycol) { std::vector<i64> ac(A.cols, 0); for (auto &e : A.e) ac[e[1]]++; for (auto &e : B.e) per[e[1]] += ac[e[0]]; }
    else { for (auto &e : A.e) if (op != 1 || hM.ptr[e[0] + 1] > hM.ptr[e[0]]) per[e[0]] += rB.ptr[e[1] + 1] - rB.ptr[e[1]]; }
    for (i64 x : per) tot += x;
    bool twice = op == 4 || op == 6 || op == 7 || bycol, hasper = op == 0 || op == 1 || op == 2 || op == 4 || op == 8 || op == 10;
    if (twice) tot *= 2;
    int it = type == T_ID && op != 2 ? 4 : 8; void *out = hasper ? arena(np * it) : nullptr; i64 got = 0;
    std::string fn = work_fn(op) + sx;
    auto f = get_fn<i64 (*)(int, void *, void *, void *, void *, int)>(fn.c_str()); if (!f) return Verdict::bad("harness", fn + " missing");
    start(c);
    sim::run([&] { got = f(op, a, b, m, out, thr); });
    std::string who = std::string(WN[op]) + fmt(" threads=%d: ", thr);
    if (got != tot) return Verdict::bad("wrong-estimate", who + fmt("total is %lld instead of %lld", (long long)got, (long long)tot));
    if (hasper) for (i64 i = 0; i < np; ++i) { i64 g = it == 4 ? ((int *)out)[i] : ((i64 *)out)[i]; if (g != per[i]) return Verdict::bad("wrong-estimate", who + fmt("count %lld is %lld instead of %lld", (long long)i, (long long)g, (long long)per[i])); }
    if (tot > 2147483647) probe("total beyond 2^31"); nontrivial(tot > 0 && (op == 6 || (sim::stats().max_team > 1 && sim::stats().switches > 1))); probe(WN[op]);
    Verdict v; v.hash = mix(tot, np); return v;
}
static Verdict bins(const Case &c) {
    int type = (int)c.get("type") ? T_LL : T_ID, thr = std::max(1, (int)c.get("thr")); i64 mn = (i64)1 << (c.get("op") % 5 + 1);
    const Mat &A = c.m[0], &B = c.m[1]; if (!A.rows) return Verdict();
    HMat hA = to_hmat(A, type, 0, true), hB = to_hmat(B, type, 0, true); int it = type == T_ID ? 4 : 8;
    void *a, *b; { sim::HeapScope hs; a = csr_ops[type].make(hA); b = csr_ops[type].make(hB); }
    void *per = arena(A.rows * it), *off = arena((thr + 1) * it), *id = arena(A.rows);
    auto f = get_fn<i64 (*)(void *, void *, i64, int, void *, void *, void *)>(type == T_ID ? "bin_0" : "bin_1");
    i64 got = 0; start(c);
    sim::run([&] { got = f(a, b, mn, thr, per, off, id); });
    auto rd = [&](void *p, i64 i) -> i64 { return it == 4 ? ((int *)p)[i] : ((i64 *)p)[i]; };
    i64 tot = 0; std::string who = fmt("BIN rows=%lld threads=%d min=%lld: ", (long long)A.rows, thr, (long long)mn);
    std::vector<i64> want(A.rows, 0); for (auto &e : A.e) want[e[0]] += hB.ptr[e[1] + 1] - hB.ptr[e[1]];
    for (i64 i = 0; i < A.rows; ++i) {
        tot += want[i]; if (rd(per, i) != want[i]) return Verdict::bad("wrong-estimate", who + fmt("row %lld counts %lld products instead of %lld", (long long)i, (long long)rd(per, i), (long long)want[i]));
        i64 z = std::min(want[i], B.cols), j = 0; if (z) { while (z > (mn << j)) ++j; ++j; }
        if (((char *)id)[i] != j) return Verdict::bad("wrong-bin", who + fmt("row %lld with %lld entries is in bin %d instead of %lld", (long long)i, (long long)z, ((char *)id)[i], (long long)j));
    }
    if (got != tot) return Verdict::bad("wrong-estimate", who + fmt("total is %lld instead of %lld", (long long)got, (long long)tot));
    if (rd(off, 0) != 0 || rd(off, thr) != A.rows) return Verdict::bad("wrong-partition", who + fmt("ranges run from %lld to %lld", (long long)rd(off, 0), (long long)rd(off, thr)));
    for (int t = 0; t < thr; ++t) if (rd(off, t) > rd(off, t + 1)) return Verdict::bad("wrong-partition", who + fmt("range %d is decreasing", t));
    if (tot > 2147483647) probe("total beyond 2^31"); nontrivial(tot > 0 && sim::stats().max_team > 1 && sim::stats().switches > 1);
    Verdict v; v.hash = mix(tot, 7); return v;
}
static Verdict dist(const Case &c) {
    int t = c.get("type") ? 1 : 0; i64 n = c.get("n"); int thr = std::max(1, (int)c.get("thr")); Rng r((u64)c.get("vs")); i64 mx = c.get("mx", 9);
    void *w = arena(n * esz(t)); i64 tot = 0;
    for (i64 i = 0; i < n; ++i) { i64 x = r.chance(1, 3) ? 0 : r.chance(1, 9) ? mx * 20 : r.range(0, mx); tot += x; put(w, t, i, x); }
    std::vector<i64> be(2 * thr);
    auto f = get_fn<void (*)(const void *, i64, i64, int, i64 *)>(t ? "dist_1" : "dist_0");
    start(c);
    sim::run([&] { f(w, n, tot, thr, be.data()); });
    std::string who = fmt("distribution of %lld rows over %d threads: ", (long long)n, thr);
    if (be[0] != 0 || be[2 * thr - 1] != n) return Verdict::bad("wrong-partition", who + fmt("covers %lld to %lld", (long long)be[0], (long long)be[2 * thr - 1]));
    for (int i = 0; i < thr; ++i) { if (be[2 * i] > be[2 * i + 1]) return Verdict::bad("wrong-partition", who + fmt("range %d is decreasing", i)); if (i + 1 < thr && be[2 * i + 1] != be[2 * i + 2]) return Verdict::bad("wrong-partition", who + fmt("range %d ends at %lld, the next starts at %lld", i, (long long)be[2 * i + 1], (long long)be[2 * i + 2])); }
    if (tot > 2147483647) probe("total beyond 2^31"); nontrivial(n > 1 && sim::stats().max_team > 1 && sim::stats().switches > 1);
    Verdict v; v.hash = mix(tot, n); return v;
}
// Buffer bounds of a row range: large enough for what the rows can produce, whatever the column ids are. Offsets stay inside the index type; the sum for a complemented mask need not.
static Verdict bounds(const Case &c) {
    int t = c.get("type") ? 1 : 0; i64 n = std::max<i64>(1, c.get("n")), mx = c.get("mx", 9); int thr = std::max(1, (int)c.get("thr")), comp = c.get("neg"); Rng r((u64)c.get("vs"));
    i64 lim = t == 0 ? 2147483647 : (i64)1 << 60, cols = std::min<i64>(lim, mx * 20 + r.range(0, 9)), ta = 0, tm = 0;
    void *pa = arena((n + 1) * esz(t)), *pm = arena((n + 1) * esz(t)), *fl = arena(n * esz(t)); std::vector<i64> A(n), M(n), F(n);
    auto val = [&](i64 left, i64 cap) { i64 x = r.chance(1, 3) ? 0 : r.chance(1, 9) ? r.range(0, mx * 20) : r.range(0, mx); return std::min(x, std::min(left, cap)); };
    put(pa, t, 0, 0); put(pm, t, 0, 0);
    for (i64 i = 0; i < n; ++i) { A[i] = val(lim - ta, lim); M[i] = val(lim - tm, cols); F[i] = A[i] ? val(lim, lim) : 0; put(pa, t, i + 1, ta += A[i]); put(pm, t, i + 1, tm += M[i]); put(fl, t, i, F[i]); }
    auto f = get_fn<void (*)(int, i64, i64, void *, void *, void *, i64, i64, i64 *)>(t ? "scanin_1" : "scanin_0");
    std::vector<i64> o(4 * thr), cut(thr + 1, 0); for (int i = 1; i < thr; ++i) cut[i] = r.range(0, n); cut[thr] = n; std::sort(cut.begin(), cut.end());
    start(c); i64 all = 0;
    sim::run([&] { for (int i = 0; i < thr; ++i) f(comp, n, cols, pa, pm, fl, cut[i], cut[i + 1], &o[4 * i]); });
    for (int k = 0; k < thr; ++k) {
        i64 can = 0, ma = 0, mm = 0, mf = 0; for (i64 i = cut[k]; i < cut[k + 1]; ++i) { can += std::min(F[i], comp ? cols - M[i] : M[i]); ma = std::max(ma, A[i]); mm = std::max(mm, M[i]); mf = std::max(mf, F[i]); }
        std::string who = fmt("bounds of rows %lld to %lld%s: ", (long long)cut[k], (long long)cut[k + 1], comp ? " (complemented)" : ""); all += can;
        if (o[4 * k] < can) return Verdict::bad("bound-too-small", who + fmt("room for %lld entries where %lld can appear", (long long)o[4 * k], (long long)can));
        if (o[4 * k + 1] < ma || o[4 * k + 2] < mm || o[4 * k + 3] < mf) return Verdict::bad("bound-too-small", who + fmt("largest rows %lld, %lld, %lld instead of %lld, %lld, %lld", (long long)o[4 * k + 1], (long long)o[4 * k + 2], (long long)o[4 * k + 3], (long long)ma, (long long)mm, (long long)mf));
    }
    if (all > 2147483647) probe("bounds beyond 2^31"); nontrivial(all > 0 && n > 1);
    Verdict v; v.hash = mix(all, n); return v;
}
static Verdict exec09(const Case &c) {
    int k = (int)c.get("kind"); probe(KN[k]);
    if (k <= 5) return scans(c, k);
    return k == 6 ? works(c) : k == 7 ? bins(c) : k == 8 ? dist(c) : bounds(c);
}
static Module m09() {
    Module m; m.id = "C09"; m.exec = exec09; m.shrink_lists = false;
    m.real = "scan.h, utility.h (array prefix sum, allocation), common.h, multiply.h, BIN.h, heap_mult.h, heap_mult_generic.h, inner_mult.h, outer_mult.h of /repo with instrumented memory accesses"; m.stub = "OpenMP runtime, heap allocator: replaced by the simulator";
    m.assumptions = {"sampled search: arrays up to about 2^17 + 70000 elements, matrices up to about 1500 rows; sums stay inside the value type", "interleavings are sequentially consistent at the granularity of instrumented memory accesses"};
    m.rule = "Each run draws one prefix sum (called at top level or from inside a team; lengths 0, around the thread count and around the parallel threshold), work estimate, binned partition or row distribution, with drawn values, thread count, team delivery and schedule, and compares every output element with the sequential definition. Input and output blocks have exactly the promised sizes, so stray accesses are violations. Non-trivial: at least two threads, more than one context switch and a non-trivial result.";
    m.params = {{"thr", 1}, {"n", 0}, {"mx", 1}, {"neg", 0}, {"type", 0}, {"s_icv", 1}};
    m.site = [](const Case &c, const Verdict &v) { int k = (int)c.get("kind"); return std::string(k == 6 ? WN[c.get("op")] : KN[k]) + "/" + v.cls; };
    m.valid = [](const Case &c) { int k = (int)c.get("kind"); if ((k == 4 || k == 5) && c.get("n") < 1) return false; if (c.get("thr") < 1 && k < 4) return false; return k < 6 || k >= 8 || valid_mult(c); };
    m.gen = [](Rng &r, Case &c, bool th, u64) {
        int k = (int)pick(r, {0, 0, 1, 1, 1, 2, 3, 4, 4, 5, 6, 6, 6, 6, 7, 7, 8, 9}); c.p["kind"] = k; c.p["type"] = k <= 5 ? r.range(0, 2) : r.range(0, 1);
        c.p["thr"] = std::max<i64>(k == 4 || k == 6 ? 0 : 1, gen_threads(r)); c.p["vs"] = (i64)(r.next() >> 2); c.p["mx"] = pick(r, {1, 3, 9, 9, 1000}); c.p["neg"] = r.chance(1, 3);
        i64 big = 1 << 17, n; bool parbig = k == 0 || k == 4;
        if (r.chance(parbig ? 1 : 0, 3)) n = big + pick(r, {-1, 0, 0, 1, 1, 2, 7, r.range(0, 40), r.range(0, 40), r.range(0, 70000)});
        else if (r.chance(1, 3)) n = std::max<i64>(0, c.get("thr") + r.range(-3, 3));
        else n = pick(r, {0, 1, 2, 3, r.range(0, 40), r.range(0, 300), r.range(0, 3000)});
        if (k == 4 || k == 5) n = std::max<i64>(1, n);
        if (c.get("type") == 1 && n < 4000 && r.chance(1, 3)) c.p["mx"] = (i64)1 << 44;
        c.p["n"] = n;
        static bool have7 = get_fn<void *>("bin_0"), have8 = get_fn<void *>("dist_0"), have9 = get_fn<void *>("scanin_0"); // a unit that does not compile takes its part with it
        if ((k == 7 && !have7) || (k == 8 && !have8) || (k == 9 && !have9)) c.p["kind"] = k = 1;
        if (k == 6 || k == 7) {
            gen_mult(r, c, (int)pick(r, {G_TINY, G_SMALL, G_SMALL, G_MED, G_HUB, G_DENSE, G_TALL})); c.p["op"] = pick(r, {0, 0, 0, 1, 1, 2, 2, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12});
            if (k == 6 && !get_fn<void *>((work_fn((int)c.get("op")) + "0").c_str())) { c.p["kind"] = k = 1; c.m.clear(); }
            if (c.get("op") <= 3) c.p["thr"] = std::max<i64>(c.get("op") == 3 ? 0 : 1, c.get("thr"));
            if (k == 7 && r.chance(1, 40)) { // tall enough for the parallel branch of the array scan
                i64 rows = big + r.range(-1, 9); c.p["type"] = 0; Mat A = gen_mat(r, rows, 5, G_SMALL); c.m[0] = A; c.m[1] = gen_mat(r, 5, 8, G_SMALL); c.m[2] = Mat{rows, 8, {}};
            }
        }
        bool heavy = (k == 6 || k == 7) && (k == 7 || c.get("op") <= 4) && r.chance(1, 60); // totals beyond 32 bits from matrices that fit
        if (heavy) { gen_heavy(r, c, k == 6 && c.get("op") == 2); n = c.m[0].rows; }
        if ((k == 8 && r.chance(1, 6)) || (k == 9 && r.chance(1, 3))) c.p["mx"] = pick(r, {(i64)1 << 20, (i64)1 << 24, 50000000});
        gen_sched(r, c);
        if (heavy) c.p["s_budget"] = 400000000;
        if (n > 50000) c.p["s_period"] = pick(r, {40, 400, 4000, 40000});
        if (k != 7 && k != 8 && r.chance(1, 5)) set_fault(c, sim::F_SHORT_TEAM, (int)pick(r, {200, 512, 1024}));
    };
    return m;
}
static AddModule a09(m09());
}
