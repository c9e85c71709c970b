// C15, C16, C17: the graph applications built on the masked products.
#include "mult.h"
#include "appjob.h"
extern "C" {
#include <GraphBLAS.h>
}
#include <algorithm>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <set>
#include <map>
namespace h {
typedef void (*AppFn)(AppJob &);
enum { A_KT, A_BC, A_TRI };
static const char *FN[] = {"app_ktruss", "app_bc", "app_tri"};
static const char *MODES[3][7] = {{"all1p", "all2p", "benchmark", "msa", "hash", "heap", "all1p"}, {"heap", "hash", "msa", "benchmark", "heap", "hash", "msa"}, {"inner", "msa", "hash", "heap", "intersect", "all1p", "all2p"}};
static int app_of(const Case &c) { return c.prop == "C15" ? A_KT : c.prop == "C16" ? A_BC : A_TRI; }
static int nalgs(int app) { static int n[3]; if (!n[app] && app != A_TRI) { auto f = get_fn<AppFn>(FN[app]); if (!f) return 1; AppJob j{}; j.op = -1; f(j); n[app] = j.nalgs ? j.nalgs : -1; } return n[app] > 0 ? n[app] : 1; }
static bool direct(int app) { if (app == A_TRI) return false; auto f = get_fn<AppFn>(FN[app]); if (!f) return false; AppJob j{}; j.op = -1; f(j); return j.nalgs > 0; }
static std::string alg_name(int app, int a) { auto f = get_fn<AppFn>(FN[app]); if (!f || app == A_TRI || !direct(app)) return "program"; AppJob j{}; j.op = -1; f(j); return j.names[a % j.nalgs]; }
// adjacency of the undirected graph of a case
static std::vector<std::vector<char>> adj_of(const Case &c, bool undirected) {
    i64 n = c.m[0].rows; std::vector<std::vector<char>> a(n, std::vector<char>(n, 0));
    for (auto &e : c.m[0].e) if (e[0] != e[1]) { a[e[0]][e[1]] = 1; if (undirected) a[e[1]][e[0]] = 1; }
    return a;
}
static i64 supp(const std::vector<std::vector<char>> &a, i64 i, i64 j) { i64 s = 0; for (size_t q = 0; q < a.size(); ++q) s += a[i][q] & a[q][j]; return s; }
static std::vector<std::vector<char>> truss(std::vector<std::vector<char>> a, i64 k) {
    i64 n = (i64)a.size(); bool ch = true;
    while (ch) { ch = false; for (i64 i = 0; i < n; ++i) for (i64 j = 0; j < i; ++j) if (a[i][j] && supp(a, i, j) < k - 2) { a[i][j] = a[j][i] = 0; ch = true; } }
    return a;
}
static std::vector<double> brandes(const std::vector<std::vector<char>> &a, const std::vector<i64> &src) {
    i64 n = (i64)a.size(); std::vector<double> bc(n, 0);
    for (i64 s : src) {
        std::vector<i64> d(n, -1), order; std::vector<double> sg(n, 0), de(n, 0); d[s] = 0; sg[s] = 1; order.push_back(s);
        for (size_t q = 0; q < order.size(); ++q) { i64 v = order[q]; for (i64 w = 0; w < n; ++w) if (a[v][w]) { if (d[w] < 0) { d[w] = d[v] + 1; order.push_back(w); } if (d[w] == d[v] + 1) sg[w] += sg[v]; } }
        for (size_t q = order.size(); q-- > 0;) { i64 w = order[q]; for (i64 v = 0; v < n; ++v) if (a[v][w] && d[v] >= 0 && d[w] == d[v] + 1) de[v] += sg[v] / sg[w] * (1 + de[w]); if (w != s) bc[w] += de[w]; }
    }
    return bc;
}
static std::vector<i64> sources(const Case &c) { i64 n = c.m[0].rows; std::vector<i64> p; for (i64 i = 0; i < n; ++i) p.push_back(i); Rng r((u64)c.get("srcseed")); for (i64 i = n; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]); p.resize(std::max<i64>(1, std::min(n, c.get("ns", 1)))); return p; }
static std::vector<std::string> split(const std::string &t, char ch) { std::vector<std::string> o; size_t p = 0; while (p <= t.size()) { size_t q = t.find(ch, p); if (q == std::string::npos) q = t.size(); std::string x = t.substr(p, q - p); size_t a = x.find_first_not_of(' '), b = x.find_last_not_of(' '); o.push_back(a == std::string::npos ? "" : x.substr(a, b - a + 1)); p = q + 1; } return o; }
static Verdict exec_app(const Case &c) {
    int app = app_of(c); auto f = get_fn<AppFn>(FN[app]); if (!f) return Verdict::bad("harness", "application unit missing");
    i64 n = c.m[0].rows; auto a = adj_of(c, app != A_BC); int prog = (int)c.get("prog"), alg = (int)(c.get("alg") % nalgs(app)), k = (int)c.get("k", 3);
    std::vector<int64_t> es, src; for (i64 i = 0; i < n; ++i) for (i64 q = 0; q < n; ++q) if (a[i][q]) { es.push_back(i); es.push_back(q); }
    i64 ne = (i64)es.size() / 2; for (i64 s : sources(c)) src.push_back(s);
    AppJob j{}; j.op = prog; j.alg = alg; j.threads = (int)c.get("threads", 1); j.k = k; j.iters = (int)c.get("iters", 1); j.n = n; j.ne = ne; j.e = es.data(); j.ns = (i64)src.size(); j.src = src.data();
    std::vector<std::string> av = {"app", "/sim/g.mtx"}; if (app == A_KT) av.push_back(fmt("%d", k)); if (app == A_BC) av.push_back(fmt("%lld", (long long)n)); av.push_back(fmt("%d", j.threads));
    const char *mode = MODES[app][c.get("mode") % 7];
    std::vector<const char *> ap; for (auto &s : av) ap.push_back(s.c_str()); j.argc = (int)ap.size(); j.argv = ap.data();
    sim::vfs_reset();
    if (prog) {
        std::string t; bool sym = app != A_BC && c.get("symfile"); i64 cnt = 0; std::string body; std::vector<std::array<i64, 2>> l;
        for (i64 q = 0; q < ne; ++q) if (!sym || es[2 * q] > es[2 * q + 1]) l.push_back({es[2 * q], es[2 * q + 1]});
        Rng r((u64)c.get("srcseed") + 5); for (size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[r.below(i)]);
        for (auto &x : l) { body += fmt("%lld %lld %d\n", (long long)x[0] + 1, (long long)x[1] + 1, 1 + (int)r.below(9)); ++cnt; }
        t = std::string("%%MatrixMarket matrix coordinate integer ") + (sym ? "symmetric" : "general") + "\n" + fmt("%lld %lld %lld\n", (long long)n, (long long)n, (long long)cnt) + body;
        sim::vfs_put("/sim/g.mtx", t); setenv("MODE", mode, 1); setenv("INNER_ITERS", fmt("%d", j.iters).c_str(), 1); setenv("WARMUP_ITERS", "0", 1);
    } else {
        int64_t pool[64] = {0}; (void)pool;
        GrB_init(GrB_BLOCKING); int64_t z[64]; memset(z, 0, sizeof z); GxB_Global_Option_set(GxB_MEMORY_POOL, z);
        double bs[GxB_NBITMAP_SWITCH]; std::fill(bs, bs + GxB_NBITMAP_SWITCH, 1.0); GxB_Global_Option_set(GxB_BITMAP_SWITCH, bs); GxB_Global_Option_set(GxB_HYPER_SWITCH, GxB_NEVER_HYPER); GxB_Global_Option_set(GxB_FORMAT, GxB_BY_ROW);
    }
    start(c); std::string ex;
    sim::run([&] { try { f(j); } catch (std::exception &x) { sim::HeapScope hs(false); ex = x.what(); if (ex.empty()) ex = "?"; } catch (...) { sim::HeapScope hs(false); ex = "exception"; } });
    std::string who = (prog ? std::string("program, mode ") + mode : alg_name(app, alg)) + fmt(" (%lld vertices, %lld entries%s, %d threads): ", (long long)n, (long long)ne, app == A_KT ? fmt(", k=%d", k).c_str() : app == A_BC ? fmt(", %zu sources", src.size()).c_str() : "", j.threads);
    probe(prog ? "whole program" : "direct call"); if (prog) probe((std::string("mode ") + mode).c_str());
    if (!ex.empty() || j.status) return Verdict::bad("refused", who + (ex.empty() ? fmt("status %d", j.status) : ex));
    if (verbose && j.out) printf("%s", j.out);
    auto &st = sim::stats(); bool par = st.max_team > 1 && st.switches > 1; Verdict v; u64 hs = 3;
    std::vector<std::vector<std::string>> logs; if (j.out) for (auto &l : split(j.out, '\n')) if (l.compare(0, 4, "LOG;") == 0 || l.compare(0, 4, "LOG,") == 0) logs.push_back(split(l, l[3]));
    if (prog && logs.empty()) return Verdict::bad("no-result", who + "the program printed no result");
    if (app == A_KT) {
        auto t = truss(a, k); i64 cnt = 0; std::vector<std::array<i64, 3>> want, got; for (i64 i = 0; i < n; ++i) for (i64 q = 0; q < n; ++q) if (t[i][q]) { ++cnt; if (!prog) want.push_back({i, q, supp(t, i, q)}); }
        nontrivial(par && cnt && cnt < ne); if (cnt) probe("non-empty truss");
        for (auto &l : logs) if (l.size() < 4 || l[l.size() - 2] != fmt("%lld", (long long)cnt)) return Verdict::bad("wrong-count", who + (l.size() > 3 ? l[2] + " reports " + l[l.size() - 2] : "?") + fmt(" entries in the truss instead of %lld", (long long)cnt));
        if (!prog) {
            for (i64 i = 0; i < j.rn; ++i) if (j.re[3 * i + 2] >= k - 2) got.push_back({j.re[3 * i], j.re[3 * i + 1], j.re[3 * i + 2]});
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
            if (got != want) { size_t q = 0; while (q < got.size() && q < want.size() && got[q] == want[q]) ++q; return Verdict::bad("wrong-result", who + fmt("truss has %zu entries instead of %zu; first difference: ", got.size(), want.size()) + (q < got.size() ? fmt("got (%lld,%lld) support %lld ", (long long)got[q][0], (long long)got[q][1], (long long)got[q][2]) : "") + (q < want.size() ? fmt("expected (%lld,%lld) support %lld", (long long)want[q][0], (long long)want[q][1], (long long)want[q][2]) : "")); }
        }
        hs = mix(hs, (u64)cnt);
    } else if (app == A_BC) {
        std::vector<i64> s(src.begin(), src.end()); if (prog) { s.clear(); for (i64 i = 0; i < n; ++i) s.push_back(i); }
        auto bc = brandes(a, s); double sum = 0; for (double x : bc) sum += x; nontrivial(par && sum > 0);
        if (prog) { for (auto &l : logs) { double got = l.size() > 3 ? strtod(l.back().c_str(), nullptr) : -1; if (!(std::fabs(got - sum) <= 1e-3 * (1 + std::fabs(sum)))) return Verdict::bad("wrong-result", who + l[2] + " reports a sum of " + l.back() + fmt(" instead of %.4f", sum)); } }
        else for (i64 i = 0; i < n; ++i) if (!(std::fabs(j.rd[i] - bc[i]) <= 1e-3 * (1 + std::fabs(bc[i])))) return Verdict::bad("wrong-result", who + fmt("vertex %lld has %.6g instead of %.6g", (long long)i, j.rd[i], bc[i]));
        hs = mix(hs, (u64)llround(sum * 16));
    } else {
        i64 t = 0; for (i64 i = 0; i < n; ++i) for (i64 q = 0; q < i; ++q) if (a[i][q]) for (i64 w = 0; w < q; ++w) t += a[i][w] & a[q][w];
        nontrivial(par && t > 0);
        auto T = fmt("%lld", (long long)t); bool known = false;
        for (auto &l : logs) {
            if (l.size() >= 5 && l[l.size() - 2] == T) continue;
            // recorded finding: the program's own HashIntersect sums mask values (all 1) instead of products, so it prints the entry count
            if (l.size() >= 5 && l[2] == "HashIntersect" && l[l.size() - 2] == l[l.size() - 3] && t > 0 && strtoll(l[l.size() - 3].c_str(), nullptr, 10) > 0 && strtoll(l[l.size() - 3].c_str(), nullptr, 10) <= t) { known = true; continue; }
            return Verdict::bad("wrong-count", who + (l.size() > 3 ? l[2] + " counts " + l[l.size() - 2] : "?") + fmt(" triangles instead of %lld", (long long)t));
        }
        if (known) return Verdict::bad("mask-values-summed", who + "HashIntersect prints the number of result entries instead of " + T + " triangles");
        hs = mix(hs, (u64)t);
    }
    v.hash = hs; return v;
}
static Mat gen_graph(Rng &r, bool directed) {
    Mat m; i64 n; int kind = (int)r.below(7); n = kind == 0 ? r.range(1, 6) : kind < 4 ? r.range(4, 24) : r.range(16, 70); m.rows = m.cols = n; std::set<std::pair<i64, i64>> s;
    auto add = [&](i64 a, i64 b) { if (a == b) return; if (!directed && a < b) std::swap(a, b); if (s.insert({a, b}).second) m.e.push_back({a, b, 1}); };
    if (n > 1) switch (kind) {
    case 1: { i64 k = std::min<i64>(n, r.range(3, 9)); int q = (int)r.range(1, 4); for (int t = 0; t < q; ++t) { std::vector<i64> v; for (i64 i = 0; i < k; ++i) v.push_back((i64)r.below(n)); for (i64 x : v) for (i64 y : v) if (!r.chance(1, 12)) add(x, y); } break; } // overlapping cliques
    case 2: { i64 p = r.range(20, 90); for (i64 i = 0; i < n; ++i) for (i64 k = 0; k < n; ++k) if ((directed || k < i) && (i64)r.below(100) < p) add(i, k); break; } // dense
    case 4: { for (i64 i = 0; i + 1 < n; ++i) { add(i, i + 1); if (r.chance(1, 2)) add(i + 1, i); if (i + 2 < n && r.chance(2, 3)) add(i, i + 2); if (r.chance(1, 6)) add((i64)r.below(n), (i64)r.below(n)); } break; } // strip with chords
    case 5: { int hubs = (int)r.range(1, 3); for (int q = 0; q < hubs; ++q) { i64 hb = (i64)r.below(n); for (i64 i = 0; i < n; ++i) { if (r.chance(3, 4)) add(hb, i); if (r.chance(1, 2)) add(i, hb); } } for (i64 i = 0; i < n; ++i) add((i64)r.below(n), (i64)r.below(n)); break; }
    default: { i64 ne = (i64)r.below(n * (n > 30 ? 6 : 4) + 1); for (i64 i = 0; i < ne; ++i) add((i64)r.below(n), (i64)r.below(n)); }
    }
    return m;
}
static Module mk(const char *id, int app) {
    Module m; m.id = id; m.exec = exec_app;
    m.stub = "OpenMP runtime (simulated teams and schedules), heap allocator, clocks, input file (in memory); GraphBLAS itself is the uninstrumented system library running on the simulated runtime";
    m.assumptions = {"sampled search: graphs of up to 70 vertices", "interleavings are sequentially consistent at the granularity of instrumented memory accesses"};
    static const char *real[] = {"benchmarks/KTrussAllGrb.cpp, grb_util.h, CSR.h, CSC.h, spgemm-blocks and the earlier kernels of /repo with instrumented memory accesses", "benchmarks/BCAllGrb.cpp, grb_util.h, CSR.h, spgemm-blocks of /repo with instrumented memory accesses", "benchmarks/TriCntAll.cpp, IO.h, CSR.h, CSC.h, spgemm-blocks and the earlier kernels of /repo with instrumented memory accesses"};
    m.real = real[app];
    static const char *rule[] = {
        "Each run draws an undirected simple graph (random, dense, overlapping cliques, strips, hubs, tiny), k, a masked method, thread count and schedule and runs the k-truss computation (or the whole program on a file, several methods); the result of the last round must hold exactly the edges of the k-truss found by sequential peeling, with their supports, and the printed entry counts must agree. Non-trivial: at least two threads, more than one context switch, a truss that is neither empty nor the whole graph.",
        "Each run draws a directed graph without self loops, a batch of distinct sources, a pair of plain and complementing methods, thread count and schedule and runs the batched betweenness computation (or the whole program with all vertices as sources); every vertex must agree with Brandes' algorithm within 1e-3 (single precision). Non-trivial: at least two threads, more than one context switch and a positive centrality.",
        "Each run draws an undirected simple graph, writes it to a file (one or both triangles, shuffled, random values) and runs the whole triangle-counting program in a drawn mode (all methods of a family) under a seeded schedule; every printed count must be the number of triangles. Non-trivial: at least two threads, more than one context switch and at least one triangle."};
    m.rule = rule[app];
    m.params = {{"threads", 1}, {"iters", 1}, {"symfile", 0}, {"k", 3}, {"ns", 1}}; 
    m.site = [app](const Case &c, const Verdict &v) { if (app == A_TRI && c.m[0].e.empty()) return "graph without edges/" + v.cls; return (c.get("prog") ? std::string("program/") + MODES[app][c.get("mode") % 7] : alg_name(app, (int)(c.get("alg") % nalgs(app)))) + "/" + v.cls; };
    m.valid = [app](const Case &c) { return c.m.size() == 1 && c.m[0].rows == c.m[0].cols && c.m[0].rows >= 1 && c.get("k", 3) >= 3 && c.get("threads", 1) >= 1; };
    m.gen = [app](Rng &r, Case &c, bool, u64) {
        c.m = {gen_graph(r, app == A_BC)}; c.p["prog"] = !direct(app) ? 1 : r.chance(1, 8); c.p["mode"] = r.below(7); c.p["alg"] = r.below(nalgs(app)); c.p["k"] = pick(r, {3, 3, 3, 4, 4, 5, 6, 8}); c.p["threads"] = std::max<i64>(1, gen_threads(r)); c.p["iters"] = r.chance(1, 6) ? 2 : 1;
        c.p["symfile"] = r.chance(1, 2); c.p["srcseed"] = (i64)(r.next() >> 30); c.p["ns"] = r.chance(1, 3) ? r.range(1, 3) : r.range(1, 30); gen_sched(r, c);
    };
    return m;
}
static AddModule a15(mk("C15", A_KT)), a16(mk("C16", A_BC)), a17(mk("C17", A_TRI));
}
