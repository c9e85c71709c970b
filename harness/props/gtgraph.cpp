// C23: the serial graph generators (R-MAT, random, SSCA2) with their configuration, output file, disk faults and failing allocations.
#include "mult.h"
#include "../gtjob.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
extern "C" {
#define GT(n) void gt_##n##_prepare(void) __attribute__((weak)); void gt_##n##_run(GtJob *) __attribute__((weak));
GT(rmat) GT(random) GT(ssca)
}
namespace h {
namespace {
const char *GN[] = {"R-MAT", "random", "SSCA2"};
struct Ed { i64 u, v, w; };
double pm(i64 x) { return (double)x / 1000; }
u64 wr_faults() { auto &s = sim::stats(); return s.fired[sim::F_ENOSPC] + s.fired[sim::F_EIO_WRITE] + s.fired[sim::F_OPEN_FAIL] + s.fired[sim::F_CLOSE_FAIL] + s.fired[sim::F_EINTR_WRITE]; }
u64 any_faults() { return wr_faults() + sim::stats().fired[sim::F_ALLOC_FAIL]; }
enum { WAY_OPT, WAY_CFG_OUT, WAY_OUT_CFG, WAY_MEM };
std::string num(i64 x) { return fmt("%lld", (long long)x); }
std::string describe(const Case &c) {
    int g = (int)c.get("gen"); std::string s = std::string(GN[g]) + " (";
    if (g == 0) s += fmt("n=%lld m=%lld a=%g b=%g c=%g d=%g", (long long)c.get("n"), (long long)c.get("m"), pm(c.get("a")), pm(c.get("b")), pm(c.get("c")), pm(c.get("d")));
    else if (g == 1) s += c.get("model") ? fmt("n=%lld m=%lld", (long long)c.get("n"), (long long)c.get("m")) : fmt("n=%lld p=%g", (long long)c.get("n"), pm(c.get("p")));
    else s += fmt("n=%lld clique %lld parallel %lld one-way %g inter %g", (long long)c.get("n"), (long long)c.get("clq"), (long long)c.get("par"), pm(c.get("uni")), pm(c.get("inter")));
    return s + fmt("%s%s%s, way %lld): ", c.get("self") ? ", self loops" : "", c.get("sort") ? c.get("heap") ? ", heap sort" : ", counting sort" : "", c.get("fly") ? ", on the fly" : "", (long long)c.get("way"));
}
std::string conf_text(const Case &c) {
    std::vector<std::string> l; int g = (int)c.get("gen"); auto add = [&](const char *k, std::string v) { l.push_back(std::string(k) + " " + v); };
    auto p3 = [&](const char *k) { return fmt("%g", pm(c.get(k))); };
    if (g == 0) { add("n", num(c.get("n"))); add("m", num(c.get("m"))); add("a", p3("a")); add("b", p3("b")); add("c", p3("c")); add("d", p3("d")); }
    if (g == 1) { add("GRAPH_MODEL", num(c.get("model"))); add("n", num(c.get("n"))); if (c.get("model")) add("m", num(c.get("m"))); else add("p", p3("p")); }
    if (g == 2) { if (c.get("scale") > 0) add("SCALE", num(c.get("scale"))); else add("TotVertices", num(c.get("n"))); add("MaxCliqueSize", num(c.get("clq"))); add("MaxParallelEdges", num(c.get("par"))); add("ProbUnidirectional", p3("uni")); add(c.get("vs") & 1 ? "ProbIntercliqueEdges" : "ProbInterClEdges", p3("inter")); add("MaxWeight", num(c.get("wmax"))); add("MinWeight", num(c.get("wmin"))); }
    else { add("MAX_WEIGHT", num(c.get("wmax"))); add("MIN_WEIGHT", num(c.get("wmin"))); add("SELF_LOOPS", num(c.get("self"))); add("STORE_IN_MEMORY", c.get("fly") ? "0" : "1"); }
    add("SORT_EDGELISTS", num(c.get("sort"))); add("SORT_TYPE", num(c.get("heap"))); add("WRITE_TO_FILE", "1");
    Rng r((u64)c.get("vs")); size_t first = g == 2 && c.get("scale") > 0; // SCALE also sets what later lines set
    if (c.get("vs") & 2) for (size_t i = l.size(); i > first + 1; --i) std::swap(l[i - 1], l[first + r.below(i - first)]);
    std::string t; for (auto &x : l) { if ((c.get("vs") & 4) && r.chance(1, 4)) t += "# " + x + "\n"; t += x + "\n"; }
    return t;
}
bool parse_dimacs(const std::string &t, i64 &n, i64 &m, std::vector<Ed> &e, std::string &err) {
    size_t p = 0; n = m = -1;
    while (p < t.size()) {
        size_t q = t.find('\n', p); if (q == std::string::npos) { err = "last line is cut"; return false; }
        std::string s = t.substr(p, q - p); p = q + 1; long long a, b, c; char z;
        if (s.find_first_not_of(' ') == std::string::npos || s[0] == 'c') continue;
        if (s[0] == 'p') { if (n >= 0 || sscanf(s.c_str(), "p sp %lld %lld %c", &a, &b, &z) != 2) { err = "malformed line " + s; return false; } n = a; m = b; }
        else if (sscanf(s.c_str(), "a %lld %lld %lld %c", &a, &b, &c, &z) == 3) e.push_back({a - 1, b - 1, c}); else { err = "malformed line " + s.substr(0, 60); return false; }
    }
    if (n < 0) { err = "no line with the sizes"; return false; }
    if ((i64)e.size() != m) { err = fmt("%lld edges announced, %zu there", (long long)m, e.size()); return false; }
    return true;
}
// k of n where each has the probability q: alarms beyond six standard deviations
bool odd(double k, double n, double q) { return n > 0 && std::abs(k - n * q) > 6 * std::sqrt(n * q * (1 - q)) + 2; }
Verdict check_graph(const Case &c, i64 n, const std::vector<Ed> &e, const std::string &who) {
    int g = (int)c.get("gen"); i64 N = c.get("n"); bool self = g != 2 && c.get("self") && c.get("way") != WAY_OPT && c.get("way") != WAY_MEM;
    if (n != N) return Verdict::bad("wrong-size", who + fmt("%lld vertices", (long long)n));
    if ((g == 0 || (g == 1 && c.get("model"))) && (i64)e.size() != c.get("m")) return Verdict::bad("wrong-count", who + fmt("%zu edges", e.size()));
    for (auto &x : e) {
        if (x.u < 0 || x.v < 0 || x.u >= N || x.v >= N) return Verdict::bad("out-of-range", who + fmt("edge %lld -> %lld", (long long)x.u, (long long)x.v));
        if (x.w < c.get("wmin") || x.w > c.get("wmax") || (x.w == c.get("wmax") && c.get("wmin") < c.get("wmax"))) return Verdict::bad("wrong-weight", who + fmt("weight %lld outside [%lld, %lld)", (long long)x.w, (long long)c.get("wmin"), (long long)c.get("wmax")));
        if (!self && x.u == x.v) return Verdict::bad("self-edge", who + fmt("self edge at vertex %lld", (long long)x.u));
    }
    if (c.get("sort")) for (size_t i = 1; i < e.size(); ++i) if (e[i].u < e[i - 1].u) return Verdict::bad("unsorted", who + fmt("start %lld after %lld at edge %zu", (long long)e[i].u, (long long)e[i - 1].u, i));
    if (g == 0 && !(N & (N - 1))) { // an empty quadrant stays empty on every level
        for (auto &x : e) for (i64 b = N / 2; b; b /= 2) { const char *k = x.u & b ? x.v & b ? "d" : "c" : x.v & b ? "b" : "a"; if (!c.get(k)) return Verdict::bad("wrong-quadrant", who + fmt("edge %lld -> %lld lies in a quadrant of share 0", (long long)x.u, (long long)x.v)); }
    }
    if (g == 1 && !c.get("model")) {
        std::set<std::pair<i64, i64>> s; for (auto &x : e) if (!s.insert({x.u, x.v}).second) return Verdict::bad("duplicate", who + fmt("edge %lld -> %lld occurs twice", (long long)x.u, (long long)x.v));
        i64 all = N * (N - (self ? 0 : 1)); i64 p = c.get("p"); if ((!p && !e.empty()) || (p >= 1000 && (i64)e.size() != all)) return Verdict::bad("wrong-count", who + fmt("%zu edges", e.size()));
    }
    double E = (double)e.size(), lo = 0, q[4] = {}; i64 span = c.get("wmax") - c.get("wmin"); Verdict dist = Verdict::bad("wrong-distribution", who);
    for (auto &x : e) { lo += x.w < c.get("wmin") + span / 2; q[(x.u >= N / 2) * 2 + (x.v >= N / 2)] += 1; }
    auto skew = [&](const char *what, double k, double n, double p) { if (!odd(k, n, p)) return false; dist.msg += fmt("%s: %g of %g, expected a share of %g", what, k, n, p); return true; };
    if (span > 0 && skew("weights in the lower half", lo, E, (double)(span / 2) / (double)span)) return dist;
    if (g == 0 && !(N & (N - 1))) {
        if (self) for (int k = 0; k < 4; ++k) { const char *nm[] = {"a", "b", "c", "d"}; if (skew(nm[k], q[k], E, pm(c.get(nm[k])))) return dist; }
        if (c.get("b") + c.get("c") && skew("b against c", q[1], q[1] + q[2], (double)c.get("b") / (double)(c.get("b") + c.get("c")))) return dist;
    }
    if (g == 1 && c.get("model") && (skew("starts in the lower half", q[0] + q[1], E, (double)(N / 2) / (double)N) || skew("ends in the lower half", q[0] + q[2], E, (double)(N / 2) / (double)N))) return dist;
    if (g == 1 && !c.get("model") && skew("edges", E, (double)N * (double)(N - !self), pm(c.get("p")))) return dist;
    if (g == 2) {
        double one = 0, pairs = 0; std::map<std::pair<i64, i64>, i64> cnt; for (auto &x : e) ++cnt[{x.u, x.v}];
        if (!c.get("inter")) { // cliques only
            std::vector<i64> comp(N); for (i64 i = 0; i < N; ++i) comp[i] = i; auto find = [&](i64 x) { while (comp[x] != x) x = comp[x] = comp[comp[x]]; return x; };
            for (auto &x : e) comp[find(x.u)] = find(x.v);
            std::map<i64, std::vector<i64>> cl; for (i64 i = 0; i < N; ++i) cl[find(i)].push_back(i);
            for (auto &k : cl) if ((i64)k.second.size() > c.get("clq")) return Verdict::bad("clique-too-large", who + fmt("%zu vertices", k.second.size()));
            for (auto &k : cl) for (size_t i = 0; i < k.second.size(); ++i) for (size_t j = 0; j < i; ++j) {
                i64 u = k.second[i], v = k.second[j]; auto a = cnt.find({u, v}), b = cnt.find({v, u}); i64 x = a == cnt.end() ? 0 : a->second, y = b == cnt.end() ? 0 : b->second;
                ++pairs; one += !x || !y; if (!x && !y) return Verdict::bad("not-a-clique", who + fmt("vertices %lld and %lld are connected but not adjacent", (long long)u, (long long)v));
                if (x > c.get("par") || y > c.get("par")) return Verdict::bad("too-many-parallel", who + fmt("%lld parallel edges", (long long)std::max(x, y)));
                if ((!c.get("uni") && (!x || !y)) || (c.get("uni") >= 1000 && x && y)) return Verdict::bad("wrong-direction", who + fmt("%lld edges %lld -> %lld and %lld back", (long long)x, (long long)u, (long long)v, (long long)y));
            }
            if (skew("pairs joined one way", one, pairs, pm(c.get("uni")))) return dist;
        }
    }
    return Verdict();
}
Verdict exec23(const Case &c) {
    int g = (int)c.get("gen"), way = (int)c.get("way"); std::string who = describe(c); std::string first; std::vector<Ed> e0; i64 n0 = -1; Verdict v;
    static void (*const PR[])(void) = {gt_rmat_prepare, gt_random_prepare, gt_ssca_prepare}; static void (*const RU[])(GtJob *) = {gt_rmat_run, gt_random_run, gt_ssca_run};
    if (!RU[g]) return Verdict::bad("harness", "generator missing");
    std::vector<std::string> av = {"gt"}; auto arg = [&](const char *k, std::string x) { av.push_back(k); av.push_back(x); };
    if (way == WAY_OPT) { if (g == 0) { arg("-n", num(c.get("n"))); arg("-m", num(c.get("m"))); } else if (g == 1) { arg("-t", num(c.get("model"))); arg("-n", num(c.get("n"))); if (c.get("model")) arg("-m", num(c.get("m"))); else arg("-p", fmt("%g", pm(c.get("p")))); } else arg("-s", num(c.get("scale"))); arg("-o", "out.gr"); }
    if (way == WAY_CFG_OUT) { arg("-c", "/sim/cfg"); arg("-o", "out.gr"); }
    if (way == WAY_OUT_CFG) { arg("-o", "out.gr"); arg("-c", "/sim/cfg"); }
    int runs = c.get("flt") ? 1 : 2; start(c);
    for (int it = 0; it < runs; ++it) {
        sim::vfs_reset(); sim::vfs_put("/sim/cfg", conf_text(c)); if (c.get("stale")) sim::vfs_put("/sim/out.gr", std::string((size_t)c.get("stale"), 'a') + "\n");
        std::vector<char *> ap; for (auto &s : av) ap.push_back(&s[0]); ap.push_back(nullptr);
        GtJob j{way == WAY_MEM, (int)av.size(), ap.data(), -1, (int)c.get("scale"), 0, pm(c.get("a")), pm(c.get("b")), pm(c.get("c")), pm(c.get("d")), 0, 0, nullptr, nullptr, nullptr};
        if (way == WAY_MEM) j.edgefactor = (int)(c.get("m") / c.get("n"));
        PR[g](); if (it) sim::config().fill_mode = (int)c.get("fill2");
        if (c.get("flt") == 2) { sim::config().alloc_fail_at = (i64)(sim::alloc_count() + (u64)c.get("afk")); sim::config().alloc_fail_sticky = c.get("asticky"); }
        sim::run([&] { RU[g](&j); });
        nontrivial(c.get("flt") ? any_faults() : c.get("n") > 2 && (c.get("m") > 4 || g));
        if (j.status) { probe("failure reported"); if (any_faults()) { v.hash = 3; return v; } return Verdict::bad("refused", who + fmt("status %d", j.status)); }
        std::vector<Ed> e; std::string err, t; i64 n, m;
        if (way == WAY_MEM) { n = j.n; for (i64 i = 0; i < j.m; ++i) e.push_back({j.start[i], j.end[i], j.w[i]}); }
        else {
            if (!sim::vfs_get("/sim/out.gr", t)) return Verdict::bad("false-success", who + "success without an output file");
            if (!parse_dimacs(t, n, m, e, err)) return Verdict::bad(any_faults() ? "false-success" : "malformed-output", who + "success but " + err);
        }
        v = check_graph(c, n, e, who); if (!v.ok) { if (any_faults()) v.cls = "false-success"; return v; }
        if (!it) { first = t; e0 = e; n0 = n; }
        else { bool same = first == t && e.size() == e0.size() && n == n0; if (same && way == WAY_MEM) for (size_t i = 0; i < e.size(); ++i) same &= e[i].u == e0[i].u && e[i].v == e0[i].v && e[i].w == e0[i].w; if (!same) return Verdict::bad("not-repeatable", who + "a second run with the same parameters gives another graph"); }
        u64 hs = 7; for (auto &x : e) hs = mix(hs, mix(x.u, mix(x.v, x.w))); v.hash = hs;
    }
    probe(GN[g]); if (way == WAY_MEM) probe("in-memory interface"); if (c.get("fly")) probe("written on the fly");
    return v;
}
bool valid23(const Case &c) {
    int g = (int)c.get("gen"), way = (int)c.get("way"); i64 n = c.get("n"), m = c.get("m");
    if (n < (g == 2 ? 1 : 2) || c.get("wmin") < 0 || c.get("wmax") < c.get("wmin")) return false;
    if (c.get("sort") && c.get("fly")) return false;
    if (way == WAY_OPT && (c.get("fly") || c.get("self") || !c.get("sort") || c.get("heap") || c.get("wmin") != 0 || c.get("wmax") != (g == 2 ? n : 100))) return false;
    if (g == 0) { if (m < 0 || c.get("a") + c.get("b") + c.get("c") + c.get("d") != 1000 || c.get("a") < 0 || c.get("b") < 0 || c.get("c") < 0 || c.get("d") < 0) return false; if (!c.get("self") && c.get("b") + c.get("c") < 100) return false;
        if (way == WAY_OPT && (c.get("a") != 450 || c.get("b") != 150 || c.get("c") != 150)) return false; if (way == WAY_MEM && (n != (i64)1 << c.get("scale") || m % n)) return false; return true; }
    if (way == WAY_MEM) return false;
    if (g == 1) return c.get("model") ? m >= 0 : c.get("p") >= 0 && c.get("p") <= 1000 && n <= 200;
    if (c.get("fly") || c.get("clq") < 1 || c.get("par") < 1 || c.get("uni") < 0 || c.get("uni") > 1000 || c.get("inter") < 0 || c.get("inter") > 950) return false;
    if (c.get("scale") > 0 && n != (i64)1 << c.get("scale")) return false;
    return way != WAY_OPT || c.get("scale") > 0;
}
Module m23() {
    Module m; m.id = "C23"; m.exec = exec23; m.valid = valid23;
    m.real = "GTgraph/R-MAT, GTgraph/random, GTgraph/SSCA2 (configuration, generation, sorting, output, program entry) and GTgraph/sprng2.0-lite of /repo with instrumented memory accesses; glibc stdio and getopt";
    m.stub = "files (in memory, with injected write faults), heap allocator (with failing allocations)";
    m.assumptions = {"sampled search: up to about 3000 edges (G(n,p) and G(n,m) now and then up to 110000), vertex counts up to 2^24", "parameters the generators accept: at least two vertices (SSCA2: one), shares that allow an edge without a self loop, cliques of at least one, non-negative weights, file names below 30 characters", "R-MAT or random graphs neither stored nor written are not run"};
    m.rule = "Each run starts one generator program (through options or a configuration file in drawn order with comments) or the in-memory R-MAT interface with drawn parameters, twice under different heap contents, and checks the output: announced and actual counts, ranges, self loops, weights, order, shares of the quadrants, lower vertices, lower weights and edges within six standard deviations, empty quadrants, G(n,0) and G(n,1), clique structure and size; one run in three instead injects failing opens, writes, closes, full disks or failing allocations, where success must still mean the complete graph. Non-trivial: more than two vertices and edges, or an injected fault.";
    m.params = {{"stale", 0}, {"vs", 0}, {"sort", 0}, {"heap", 0}, {"self", 0}, {"m", 1}};
    m.site = [](const Case &c, const Verdict &v) { return std::string(GN[c.get("gen")]) + (c.get("gen") == 1 ? c.get("model") ? "/G(n,m)/" : "/G(n,p)/" : "/") + v.cls; };
    m.tolerate = [](const Case &, const std::string &cls, const std::string &msg) { // the program ends without success
        if (!any_faults()) return false; if (cls == "exit") return msg != "0"; return cls == "terminate" || cls == "abort" || cls == "assert" || cls == "crash";
    };
    m.gen = [](Rng &r, Case &c, bool, u64) {
        int g = (int)r.below(3); c.p["gen"] = g; gen_sched(r, c); c.p["vs"] = (i64)(r.next() >> 2);
        int way = (int)r.below(3); if (g == 0 && gt_rmat_run && r.chance(1, 5)) way = WAY_MEM; c.p["way"] = way;
        bool cfg = way == WAY_CFG_OUT || way == WAY_OUT_CFG;
        i64 scale = r.range(3, 7), n = r.chance(1, 2) ? (i64)1 << scale : r.chance(1, 12) ? ((i64)1 << r.range(12, 24)) - r.range(0, 3) : r.range(2, 150), m = r.chance(1, 8) ? r.range(0, 3000) : r.range(0, 200); c.p["scale"] = 0;
        c.p["wmin"] = cfg && r.chance(1, 2) ? r.range(0, 5) : 0; c.p["wmax"] = cfg ? c.get("wmin") + r.range(0, r.chance(1, 2) ? 3 : 1000) : 100;
        c.p["self"] = cfg && g != 2 && r.chance(1, 2); c.p["sort"] = cfg ? r.chance(2, 3) : 1; c.p["heap"] = cfg && r.chance(1, 2);
        c.p["fly"] = cfg && g != 2 && !c.get("sort") && r.chance(1, 2); c.p["stale"] = r.chance(1, 4) ? r.range(1, 20000) : 0;
        static const int P[][4] = {{450, 150, 150, 250}, {250, 250, 250, 250}, {0, 500, 500, 0}, {1000, 0, 0, 0}, {0, 1000, 0, 0}, {0, 0, 1000, 0}, {500, 500, 0, 0}, {0, 0, 500, 500}, {300, 0, 400, 300}, {600, 200, 0, 200}, {0, 300, 300, 400}, {400, 300, 300, 0}};
        if (g == 0) { int k = cfg || way == WAY_MEM ? (int)r.below(12) : 0; if (k == 3 && !c.get("self")) k = 2; c.p["a"] = P[k][0]; c.p["b"] = P[k][1]; c.p["c"] = P[k][2]; c.p["d"] = P[k][3]; }
        else c.p["a"] = c.p["b"] = c.p["c"] = c.p["d"] = 0;
        if (way == WAY_MEM) { scale = r.range(1, 7); n = (i64)1 << scale; c.p["scale"] = scale; m = n * r.range(0, 4); }
        if (g == 1) { c.p["model"] = r.chance(1, 2); if (!c.get("model")) { n = r.range(2, 30); c.p["p"] = pick(r, {0, 1000, 10, 100, 300, 500, 900, (i64)r.below(1001)}); if (r.chance(1, c.get("fly") ? 25 : 150)) { n = r.chance(1, 2) ? r.range(317, 330) : r.range(100, 316); c.p["p"] = pick(r, {1000, 1000, 900, 500}); } } else if (r.chance(1, 300)) m = r.range(9000, 101000); }
        if (g == 2) {
            if (r.chance(1, 2) || way == WAY_OPT) { if (r.chance(1, 3)) scale = r.range(1, 10); n = (i64)1 << scale; c.p["scale"] = scale; } else n = r.range(1, r.chance(1, 2) ? 20 : 150); c.p["clq"] = 1; while ((c.get("clq") + 1) * (c.get("clq") + 1) * (c.get("clq") + 1) <= n) ++c.p["clq"];
            if (cfg) { c.p["clq"] = r.range(1, 12); c.p["par"] = r.range(1, 5); c.p["uni"] = pick(r, {0, 1000, 200, 500}); c.p["inter"] = pick(r, {0, 0, 100, 500, 900}); }
            else { c.p["par"] = 3; c.p["uni"] = 200; c.p["inter"] = 500; c.p["wmax"] = n; }
        }
        c.p["n"] = n; c.p["m"] = m; c.p["fill2"] = pick(r, {0, 1, 2, 3});
        int f = r.chance(1, 3) ? (int)r.range(1, 2) : 0; c.p["flt"] = f; c.p["afk"] = 0; c.p["asticky"] = 0;
        if (f == 1) { int k = (int)r.below(6); i64 lo = pick(r, {40, 200, 700, 1024}); if (k < 2) set_fault(c, sim::F_ENOSPC, (int)lo); else if (k == 2) set_fault(c, sim::F_EIO_WRITE, (int)lo); else if (k == 3) set_fault(c, sim::F_OPEN_FAIL, (int)pick(r, {300, 600})); else if (k == 4) set_fault(c, sim::F_CLOSE_FAIL, (int)pick(r, {400, 1024})); else set_fault(c, sim::F_EINTR_WRITE, (int)lo); }
        if (f == 2) { c.p["afk"] = r.range(0, 25); c.p["asticky"] = r.chance(1, 2); }
        if (r.chance(1, 4)) set_fault(c, sim::F_SHORT_WRITE, 500); if (r.chance(1, 4)) set_fault(c, sim::F_SHORT_READ, 500);
    };
    return m;
}
AddModule a23(m23());
}
}
