// C18, C19: the multithreaded R-MAT generator under seeded schedules, capacities and write faults.
#include "mult.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <set>
#include <map>
namespace h {
struct Job18 { int op, argc; const char **argv; const char *path; unsigned long long edges, maxv, cap; double a, b, c; unsigned threads; int self, dup, directed; int status; int64_t n; int64_t *e; int fut, mtx; };
static const char *ON[] = {"program", "unsorted generator", "sorted generator", "list generator"};
static double pm(i64 x) { return (double)x / 1000; }
static unsigned nthreads(const Case &c) { return c.get("op") == 0 && c.get("edges") < 10000 ? 1 : (unsigned)c.get("threads", 1); }
static u64 wr_faults() { auto &s = sim::stats(); return s.fired[sim::F_ENOSPC] + s.fired[sim::F_EIO_WRITE] + s.fired[sim::F_OPEN_FAIL] + s.fired[sim::F_CLOSE_FAIL]; }
static std::string describe(const Case &c) {
    return std::string(ON[c.get("op")]) + fmt("%s (%lld edges, %lld vertices, %lld threads, capacity %lld, a=%g b=%g c=%g%s%s%s): ", c.get("op") == 0 && c.get("sorted") ? " -sorted" : "", (long long)c.get("edges"), (long long)c.get("verts"), (long long)c.get("threads"),
        (long long)c.get("cap"), pm(c.get("a")), pm(c.get("b")), pm(c.get("c")), c.get("self") ? "" : ", no self edges", c.get("dup") ? "" : ", no duplicates", c.get("directed") ? "" : ", undirected") + (c.get("fut", -1) == 1 ? "[futures] " : c.get("mtx", -1) == 1 ? "[writer mutex] " : "");
}
static Verdict check_edges(const Case &c, const std::vector<std::array<i64, 2>> &e, const std::string &who) {
    i64 n = c.get("verts"); bool sorted = c.get("op") == 2 || (c.get("op") == 0 && c.get("sorted"));
    if ((i64)e.size() != c.get("edges")) return Verdict::bad("wrong-count", who + fmt("%zu edges written", e.size()));
    for (auto &x : e) if (x[0] < 0 || x[1] < 0 || x[0] >= n || x[1] >= n) return Verdict::bad("out-of-range", who + fmt("edge %lld -> %lld", (long long)x[0], (long long)x[1]));
    if (sorted) for (size_t i = 1; i < e.size(); ++i) if (e[i][0] < e[i - 1][0]) return Verdict::bad("unsorted", who + fmt("source %lld after %lld at edge %zu", (long long)e[i][0], (long long)e[i - 1][0], i));
    if (!c.get("self")) for (auto &x : e) if (x[0] == x[1]) return Verdict::bad("self-edge", who + fmt("self edge at vertex %lld", (long long)x[0]));
    std::vector<std::array<i64, 2>> s(e); std::sort(s.begin(), s.end());
    if (!c.get("dup")) for (size_t i = 1; i < s.size(); ++i) if (s[i] == s[i - 1]) return Verdict::bad("duplicate", who + fmt("edge %lld -> %lld occurs twice", (long long)s[i][0], (long long)s[i][1]));
    if (!c.get("directed")) for (auto &x : s) if (x[0] < x[1] && std::binary_search(s.begin(), s.end(), std::array<i64, 2>{x[1], x[0]})) return Verdict::bad("both-orientations", who + fmt("%lld -> %lld and %lld -> %lld", (long long)x[0], (long long)x[1], (long long)x[1], (long long)x[0]));
    return Verdict();
}
static bool parse_file(const std::string &t, std::vector<std::array<i64, 2>> &e, std::string &err) {
    size_t p = 0;
    while (p < t.size()) {
        size_t q = t.find('\n', p); if (q == std::string::npos) { err = "last line is cut"; return false; }
        const char *s = t.c_str() + p; char *z; if (!isdigit((unsigned char)*s)) { err = "malformed line " + t.substr(p, std::min<size_t>(q - p, 60)); return false; }
        long long a = strtoll(s, &z, 10); if (z == s || (*z != '\t' && *z != ' ')) { err = "malformed line " + t.substr(p, std::min<size_t>(q - p, 60)); return false; }
        s = z + 1; if (!isdigit((unsigned char)*s)) { err = "malformed line"; return false; } long long b = strtoll(s, &z, 10); if (z != t.c_str() + q) { err = "malformed line " + t.substr(p, std::min<size_t>(q - p, 60)); return false; }
        e.push_back({a, b}); p = q + 1;
    }
    return true;
}
static Verdict exec18(const Case &c) {
    int op = (int)c.get("op"); auto f = get_fn<void (*)(Job18 &)>("parmat"); if (!f) return Verdict::bad("harness", "parmat missing");
    sim::vfs_reset(); sim::vfs_set_missing(c.get("missing"));
    std::vector<std::string> av = {"PaRMAT", "-nEdges", fmt("%lld", (long long)c.get("edges")), "-nVertices", fmt("%lld", (long long)c.get("verts")), "-output", "/sim/out.txt"};
    if (c.get("a") != 450) { av.push_back("-a"); av.push_back(fmt("%g", pm(c.get("a")))); }
    if (c.get("b") != 220) { av.push_back("-b"); av.push_back(fmt("%g", pm(c.get("b")))); }
    if (c.get("c") != 220) { av.push_back("-c"); av.push_back(fmt("%g", pm(c.get("c")))); }
    if (c.get("threads") != 7) { av.push_back("-threads"); av.push_back(fmt("%lld", (long long)c.get("threads"))); }
    if (c.get("sorted")) av.push_back("-sorted"); if (!c.get("self")) av.push_back("-noEdgeToSelf"); if (!c.get("dup")) av.push_back("-noDuplicateEdges"); if (!c.get("directed")) av.push_back("-undirected");
    // the program turns memory (whole pages) into a capacity: ram * memUsage / (2 * threads * sizeof(edge))
    i64 cap = c.get("cap"); double mu = cap < 100000 ? 0.01 : 0.5; if (cap < 100000) { av.push_back("-memUsage"); av.push_back("0.01"); }
    if (!op) sim::set_ram((u64)std::ceil((double)cap * 16 * nthreads(c) / mu / 4096) * 4096);
    std::vector<const char *> ap; for (auto &s : av) ap.push_back(s.c_str());
    i64 maxv = c.get("verts") - 1;
    Job18 j{op, (int)ap.size(), ap.data(), "/sim/out.txt", (unsigned long long)c.get("edges"), (unsigned long long)maxv, (unsigned long long)cap, pm(c.get("a")), pm(c.get("b")), pm(c.get("c")), (unsigned)c.get("threads", 1), (int)c.get("self"), (int)c.get("dup"), (int)c.get("directed"), -1, 0, nullptr, (int)c.get("fut", -1), (int)c.get("mtx", -1)};
    start(c); if (c.get("edges") >= 5000) sim::config().step_budget = 400000000ull;
    std::string ex;
    sim::run([&] { try { f(j); } catch (std::exception &x) { sim::HeapScope hs(false); ex = x.what(); if (ex.empty()) ex = "?"; } catch (...) { sim::HeapScope hs(false); ex = "exception"; } });
    std::string who = describe(c); bool io = c.prop == "C19";
    probe(ON[op]); auto &st = sim::stats();
    if (!io) nontrivial(st.max_fibers > 2 && st.switches > 2); else nontrivial(wr_faults() || st.fired[sim::F_SHORT_WRITE] || st.fired[sim::F_EINTR_WRITE] || c.get("missing"));
    bool success = ex.empty() && j.status == 0; Verdict v;
    if (!success) {
        probe("failure reported"); if (wr_faults() || c.get("missing")) { v.hash = 3; return v; }
        return Verdict::bad("refused", who + (ex.empty() ? fmt("status %d", j.status) : ex));
    }
    std::vector<std::array<i64, 2>> e; std::string err, t;
    if (op == 3) for (i64 i = 0; i < j.n; ++i) e.push_back({j.e[2 * i], j.e[2 * i + 1]});
    else {
        if (!sim::vfs_get("/sim/out.txt", t)) return Verdict::bad("false-success", who + "success without an output file");
        if (!parse_file(t, e, err)) return Verdict::bad(wr_faults() ? "false-success" : "torn-output", who + "success but " + err);
    }
    v = check_edges(c, e, who);
    if (!v.ok && wr_faults()) { v.cls = "false-success"; v.msg += " and success was reported"; }
    u64 hs = 7; for (auto &x : e) hs = mix(hs, mix(x[0], x[1])); v.hash = hs;
    return v;
}
static i64 pow2(Rng &r, int a, int b) { return (i64)1 << r.range(a, b); }
static void gen_graph(Rng &r, Case &c, bool thorough, bool io) {
    bool big = r.chance(1, io ? 60 : 40);
    c.p["op"] = io ? 0 : big ? 0 : pick(r, {0, 1, 1, 1, 2, 2, 2, 3}); static bool inner = [] { auto f = get_fn<void (*)(Job18 &)>("parmat"); Job18 j{}; j.op = -1; if (f) f(j); return j.status == 0; }(); if (!inner) c.p["op"] = 0;
    int op = (int)c.get("op"); i64 thr = pick(r, {1, 2, 2, 3, 3, 4, 4, 5, 7, 8}); c.p["threads"] = thr;
    c.p["sorted"] = op == 0 ? r.chance(1, 2) : op == 2; c.p["self"] = r.chance(1, 2); c.p["dup"] = r.chance(2, 3); c.p["directed"] = op == 3 || r.chance(2, 3);
    static const int P[][3] = {{450, 220, 220}, {450, 220, 220}, {570, 190, 190}, {250, 250, 250}, {330, 330, 330}, {400, 100, 300}, {500, 250, 250}, {600, 400, 0}, {500, 500, 0}, {340, 330, 330}, {1000, 0, 0}, {700, 0, 300}, {0, 500, 500}};
    int k = (int)r.below(r.chance(1, 3) ? 13 : 6); c.p["a"] = P[k][0]; c.p["b"] = P[k][1]; c.p["c"] = P[k][2];
    i64 n, m;
    if (big) { n = pow2(r, 10, 12) + r.range(-3, 3); m = 10000 + (i64)r.below(3000); }
    else if (r.chance(1, 10)) { n = pick(r, {(i64)1 << 16, (i64)1 << 20, ((i64)1 << 31) - 1, (i64)1 << 31, ((i64)1 << 31) + 1, ((i64)1 << 32) - 1, (i64)r.below((u64)1 << 32) | 65536}); m = 1 + (i64)r.below(r.chance(1, 4) ? 400 : 60); }
    else if (r.chance(1, 4)) { n = r.range(2, 40); m = r.range(1, std::max<i64>(1, n * n / 4)); if (m > 250) m = 250; }
    else { n = r.chance(1, 3) ? r.range(64, 700) : pow2(r, 6, 10) + r.range(-2, 2); m = 1 + (i64)r.below(r.chance(1, 4) ? 700 : 150); }
    i64 nn = std::min<i64>(n, 1 << 20); // squares stay inside 64 bits
    if (k >= 6) { c.p["directed"] = 1; c.p["dup"] = 1; if (P[k][0] == 1000 || n < 8) c.p["self"] = 1; } // shares that leave quadrants empty
    bool tight = n < 64; // few vertices: splitting soon runs out of room
    if (!c.get("dup")) { i64 lim = std::max<i64>(1, nn * nn / 64); if (tight) { c.p["threads"] = thr = big ? thr : 1; lim = std::max<i64>(1, n * n / 8); if (n < 4) c.p["self"] = 1; } if (m > lim) m = lim; if (k == 2) { c.p["a"] = 450; c.p["b"] = c.p["c"] = 220; } if (!c.get("self") && n < 3) c.p["self"] = 1; if (!c.get("directed") && m > 1) m = std::max<i64>(1, m / 2); }
    if (m >= nn * nn) m = nn * nn - 1; if (m < 1) m = 1; if (big && m < 10000) m = 10000;
    if (!c.get("directed") && !c.get("self") && n < 8) c.p["self"] = 1;
    c.p["edges"] = m; c.p["verts"] = n;
    // capacities: ample, exactly the request, or small enough to split the request and make workers wait
    bool srt = c.get("sorted"); i64 cap = m * 4 + 16;
    if (r.chance(2, 3)) { int w = (int)r.below(5); cap = w == 0 ? m : w == 1 ? m + 1 : w == 2 && !tight && m >= 100 ? m / 2 + 1 : !tight && m >= 100 ? m / (srt ? 2 : 3) + 1 : m + (i64)r.below(5); }
    if (k >= 6 && cap < m) cap = P[k][0] >= 700 || srt ? m + 1 : cap; 
    c.p["cap"] = cap;
    // the alternatives internal_config.hpp offers at compile time
    c.p["fut"] = srt && op != 3 && r.chance(1, 4) ? 1 : -1; c.p["mtx"] = !srt && op != 3 && r.chance(1, 4) ? 1 : -1;
    (void)thorough;
}
static bool valid18(const Case &c) {
    i64 n = c.get("verts"), m = c.get("edges"), cap = c.get("cap"); i64 nn = std::min<i64>(n, 1 << 20); if (n < 2 || n >= (i64)1 << 32 || m < 1 || m >= nn * nn || cap < 1 || c.get("threads") < 1 || c.get("threads") > 128) return false;
    bool tight = n < 64; if (cap < m && (tight || m < 100 || cap * (c.get("sorted") ? 2 : 3) < m)) return false;
    if (!c.get("dup")) { i64 lim = std::max<i64>(1, tight ? n * n / 8 : nn * nn / 64); if (!c.get("directed")) lim = std::max<i64>(1, lim / 2); if (m > lim || (tight && c.get("op") != 0 && c.get("threads") > 1)) return false; if (n < 4 && !c.get("self")) return false; }
    if (!c.get("directed") && !c.get("self") && n < 8) return false;
    if (c.get("a") + c.get("b") + c.get("c") > 1000) return false;
    return true;
}
static Module mk(const char *id, bool io) {
    Module m; m.id = id; m.exec = exec18; m.shrink_lists = false; m.valid = valid18;
    m.real = "PaRMAT/src of /repo (program entry, both generators, queue, capacity gate, edge generation) with instrumented memory accesses; libstdc++ threads, condition variables, streams and random engines";
    m.stub = "threads, mutexes, condition variables (simulated pthreads), random_device, clocks, sysconf memory size, the output file (in memory, with injected write faults), heap allocator";
    m.assumptions = {"sampled search: up to 13000 edges, 8 workers and 4100 vertices", "requests that rejection sampling can satisfy: no-duplicate requests fill at most a 64th of the adjacency matrix (an 8th with one worker), capacities that force splitting hold at least a third (sorted: half) of at least 100 edges"};
    m.params = {{"edges", 1}, {"verts", 2}, {"threads", 1}, {"cap", 1}, {"sorted", 0}};
    m.site = [](const Case &c, const Verdict &v) { return std::string(ON[c.get("op")]) + (c.get("sorted") ? "/sorted/" : "/") + v.cls; };
    if (!io) m.rule = "Each run starts the generator (whole program, sorted, unsorted or in-memory generator) with drawn edge and vertex counts, quadrant shares, options, worker count and memory capacity (ample, exactly the request, or forcing workers to wait) under a seeded schedule of its threads with spurious wake-ups, and checks the file: edge count, line format, range, order, self edges, duplicates, orientation; deadlock and missing progress are violations. Non-trivial: more than two threads existed and more than two context switches happened.";
    else m.rule = "Each run starts the whole generator program with drawn options while opening, writing or closing its output file fails (open refused, short and interrupted writes, torn writes, disk full, I/O error, at any point). Success must mean the file holds every edge; without failing calls success is required. Non-trivial: at least one write fault was injected.";
    m.tolerate = [io](const Case &c, const std::string &cls, const std::string &msg) { if (!io || cls != "exit" || msg == "0") return false; return c.get("missing") || wr_faults() > 0; };
    m.gen = [io](Rng &r, Case &c, bool thorough, u64 idx) {
        gen_graph(r, c, thorough, io); gen_sched(r, c); c.p["missing"] = 0;
        if (!io) { if (r.chance(1, 3)) set_fault(c, sim::F_SPURIOUS, (int)pick(r, {100, 500, 900})); if (r.chance(1, 4)) set_fault(c, sim::F_SHORT_WRITE, 500); if (r.chance(1, 6)) set_fault(c, sim::F_EINTR_WRITE, 300); return; }
        int k = (int)r.below(8); i64 lo = pick(r, {40, 200, 700, 1024});
        if (k < 2) set_fault(c, sim::F_ENOSPC, (int)lo); else if (k < 4) set_fault(c, sim::F_EIO_WRITE, (int)lo); else if (k == 4) { set_fault(c, sim::F_SHORT_WRITE, 700); set_fault(c, sim::F_EINTR_WRITE, 300); }
        else if (k == 5) { if (r.chance(1, 2)) c.p["missing"] = 1; else set_fault(c, sim::F_OPEN_FAIL, 1024); } else if (k == 6) { set_fault(c, sim::F_ENOSPC, (int)lo); set_fault(c, sim::F_SHORT_WRITE, 400); } else set_fault(c, sim::F_CLOSE_FAIL, 1024);
    };
    return m;
}
static AddModule a18(mk("C18", false)), a19(mk("C19", true));
}
