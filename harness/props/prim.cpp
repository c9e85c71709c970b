// C22: the concurrent queue and the capacity gate against their sequential models.
#include "mult.h"
#include <algorithm>
#include <cstring>
#include <deque>
#include <set>
namespace h {
struct Job22 { int op, nthreads; const int64_t *const *prog; const int *len; int64_t cap, init; void (*ev)(int, int, int, int64_t); int64_t live; };
struct Ev { u64 inv = 0, res = 0; i64 val = 0; };
static std::vector<std::vector<Ev>> H; static u64 clk; static const Case *cc; static i64 held, cap22; static u64 waited; static std::string gate_err;
static i64 opc(int t, int i) { return cc->l[t][2 * i]; } static i64 arg(int t, int i) { return cc->l[t][2 * i + 1]; }
// nothing else can run: whoever still waits must have a reason
static void check_idle() {
    sim::HeapScope hs(false); i64 in = 0; std::string w;
    probe("quiescent points");
    if (cc->get("op") == 0) {
        for (size_t t = 0; t < H.size(); ++t) for (size_t i = 0; i < H[t].size(); ++i) if (H[t][i].res) in += opc(t, i) == 0 ? 1 : opc(t, i) <= 4 && H[t][i].val != -1 ? -1 : 0;
        for (size_t t = 0; t < H.size(); ++t) for (size_t i = 0; i < H[t].size(); ++i) {
            if (!H[t][i].inv || H[t][i].res || opc(t, i) == 5) continue;
            if (opc(t, i) < 3) sim::fail("stuck", fmt("queue: thread %zu is blocked in an operation that does not wait", t));
            if (in > 0) sim::fail("stuck", fmt("queue: thread %zu waits although %lld elements are in the queue", t, (long long)in));
            probe("waiters at quiescent points");
        }
        return;
    }
    for (size_t t = 0; t < H.size(); ++t) for (size_t i = 0; i < H[t].size(); ++i) {
        if (!H[t][i].inv || H[t][i].res || opc(t, i) == 2) continue;
        if (opc(t, i) == 1) sim::fail("stuck", fmt("gate: thread %zu is blocked in a release", t));
        if (held + arg(t, i) <= cap22) sim::fail("stuck", fmt("gate of %lld: thread %zu waits for %lld although only %lld are admitted and nothing else can run", (long long)cap22, t, (long long)arg(t, i), (long long)held));
        probe("waiters at quiescent points");
    }
}
static void on_ev(int t, int i, int phase, int64_t v) {
    bool idle;
    { sim::HeapScope hs(false); idle = opc(t, i) == (cc->get("op") ? 2 : 5); if (idle && !phase) H[t][i].inv = ++clk; }
    if (idle && !phase) { sim::wait_idle(); check_idle(); return; }
    sim::HeapScope hs(false); // the bookkeeping is not part of the simulated execution
    auto &e = H[t][i]; (phase ? e.res : e.inv) = ++clk; if (phase) e.val = v;
    if (cc->get("op") == 0) return;
    // a share counts from the moment its admission has returned until its release begins
    if (phase && opc(t, i) == 0) { held += arg(t, i); if (held > cap22) { sim::fail("over-capacity", fmt("gate of %lld: %lld are admitted at the same time", (long long)cap22, (long long)held)); } }
    if (!phase && opc(t, i) == 1) held -= arg(t, i);
}
// Is the history of queue operations linearizable? (search with memory over program positions and queue contents)
struct Lin {
    const Case &c; size_t n; std::set<std::vector<i64>> seen; u64 nodes = 0;
    bool go(std::vector<int> &pos, std::deque<i64> &q) {
        if (++nodes > 2000000) return true;
        bool done = true; for (size_t t = 0; t < n; ++t) if (pos[t] < (int)H[t].size()) done = false;
        if (done) return true;
        std::vector<i64> key(pos.begin(), pos.end()); key.insert(key.end(), q.begin(), q.end());
        if (!seen.insert(key).second) return false;
        u64 lim = ~0ull; for (size_t t = 0; t < n; ++t) if (pos[t] < (int)H[t].size()) lim = std::min(lim, H[t][pos[t]].res);
        for (size_t t = 0; t < n; ++t) {
            if (pos[t] >= (int)H[t].size()) continue;
            Ev &e = H[t][pos[t]]; if (e.inv > lim) continue; // another operation had ended before this one began
            i64 o = c.l[t][2 * pos[t]], a = c.l[t][2 * pos[t] + 1];
            if (o == 5) { pos[t]++; if (go(pos, q)) return true; pos[t]--; }
            else if (o == 0) { q.push_back(a); pos[t]++; if (go(pos, q)) return true; pos[t]--; q.pop_back(); }
            else if (e.val == -1) { if (o > 2 || !q.empty()) continue; pos[t]++; if (go(pos, q)) return true; pos[t]--; }
            else { if (q.empty() || q.front() != e.val) continue; q.pop_front(); pos[t]++; if (go(pos, q)) return true; pos[t]--; q.push_front(e.val); }
        }
        return false;
    }
};
static const char *QN[] = {"push", "try_pop", "try_pop&", "wait_pop", "wait_pop&", "idle"};
static std::string history(const Case &c) {
    std::vector<std::pair<u64, std::string>> ev;
    for (size_t t = 0; t < H.size(); ++t) for (size_t i = 0; i < H[t].size(); ++i) {
        i64 o = c.l[t][2 * i]; ev.push_back({H[t][i].inv, fmt("t%zu %s(%s", t, QN[o], o ? "" : fmt("%lld", (long long)c.l[t][2 * i + 1]).c_str()) + ")"});
        ev.push_back({H[t][i].res, o ? fmt("t%zu=%lld", t, (long long)H[t][i].val) : fmt("t%zu.", t)});
    }
    std::sort(ev.begin(), ev.end()); std::string s; for (auto &x : ev) { s += (s.empty() ? "" : " ") + x.second; if (s.size() > 900) { s += " ..."; break; } }
    return s;
}
static Verdict exec22(const Case &c) {
    auto f = get_fn<void (*)(Job22 &)>("prim"); if (!f) return Verdict::bad("harness", "prim missing");
    int op = (int)c.get("op"); std::vector<const i64 *> pr; std::vector<int> ln; int nt = (int)c.get("nt");
    H.assign(nt + 1, {}); clk = 0; cc = &c; held = c.get("init"); cap22 = c.get("cap");
    for (int t = 0; t <= nt; ++t) { pr.push_back(c.l[t].data()); ln.push_back((int)c.l[t].size() / 2); H[t].resize(ln.back()); }
    start(c);
    Job22 j{op, nt, pr.data(), ln.data(), c.get("cap"), c.get("init"), on_ev, 0};
    u64 mark = sim::heap_mark();
    sim::run([&] { f(j); });
    auto &st = sim::stats(); nontrivial(st.switches > 2 && nt > 1);
    u64 hs = 5; for (auto &t : H) for (auto &e : t) hs = mix(hs, mix(e.inv * 4096 + e.res, (u64)e.val));
    Verdict v; v.hash = hs; const char *W = op ? "gate" : "queue"; probe(W);
    for (auto &t : H) for (auto &e : t) if (!e.inv || !e.res) return Verdict::bad("unfinished", std::string(W) + ": an operation did not return");
    if (op) { i64 a = 0; for (int t = 0; t < nt; ++t) for (int i = 0; i < ln[t]; ++i) a += H[t][i].res - H[t][i].inv > 1; probe("gate operations that overlapped others", a); return v; }
    std::multiset<i64> pushed, popped; u64 ov = 0;
    for (int t = 0; t <= nt; ++t) for (int i = 0; i < ln[t]; ++i) { if (c.l[t][2 * i] == 0) pushed.insert(c.l[t][2 * i + 1]); else if (c.l[t][2 * i] == 5) continue; else if (H[t][i].val != -1) popped.insert(H[t][i].val); else probe("empty pops"); ov += H[t][i].res - H[t][i].inv > 1; }
    probe("queue operations that overlapped others", ov);
    if (pushed != popped) { // everything was drained at the end
        for (i64 x : popped) if (popped.count(x) > 1) return Verdict::bad("delivered-twice", fmt("queue: element %lld was delivered %zu times: ", (long long)x, popped.count(x)) + history(c));
        for (i64 x : popped) if (!pushed.count(x)) return Verdict::bad("invented", fmt("queue: value %lld was never pushed: ", (long long)x) + history(c));
        for (i64 x : pushed) if (!popped.count(x)) return Verdict::bad("lost", fmt("queue: element %lld was lost: ", (long long)x) + history(c));
    }
    Lin l{c, (size_t)nt + 1}; std::vector<int> pos(nt + 1, 0); std::deque<i64> q;
    if (!l.go(pos, q)) return Verdict::bad("not-fifo", "queue: no order of the operations explains: " + history(c));
    if (l.nodes > 2000000) probe("history too long to decide");
    if (j.live) return Verdict::bad("leak", fmt("queue: %lld element objects left", (long long)j.live));
    for (auto &b : sim::live_since(mark)) return Verdict::bad("leak", fmt("queue: a block of %zu bytes is left", b.n));
    return v;
}
static void gen22(Rng &r, Case &c, bool thorough, u64) {
    int op = r.chance(2, 3) ? 0 : 1 + (int)r.below(2); c.p["op"] = op;
    int nt = (int)r.range(2, r.chance(1, 5) ? 7 : 4); c.p["nt"] = nt; c.l.assign(nt + 1, {}); c.p["cap"] = c.p["init"] = 0;
    i64 budget = r.chance(1, 4) ? 26 : 14; if (thorough && r.chance(1, 8)) budget = 36;
    if (op == 0) {
        int np = 1 + (int)r.below(nt - 1); // threads 0..np-1 (rotated) only push and try, the others also wait
        i64 pushes = 1 + (i64)r.below(budget / 2), pops = 0, id = 100; int rot = (int)r.below(nt);
        for (i64 k = 0; k < pushes; ++k) { auto &p = c.l[(r.below(np) + rot) % nt]; p.push_back(0); p.push_back(id++); }
        i64 want = (i64)r.below(pushes + 1); if (r.chance(1, 2)) want = pushes;
        int mode = (int)r.below(4); // what kind of removals: mixed, only waiting, only trying, mixed
        for (i64 k = 0; k < want; ++k) { int o = mode == 1 ? 3 + (int)r.below(2) : mode == 2 ? 1 + (int)r.below(2) : 1 + (int)r.below(4); auto &p = c.l[(np + r.below(nt - np) + rot) % nt]; p.push_back(o); p.push_back(0); pops++; }
        if (r.chance(1, 2) && pops < pushes) { auto &p = c.l[(r.below(np) + rot) % nt]; i64 at = (i64)r.below(p.size() / 2 + 1) * 2; p.insert(p.begin() + at, {(i64)(1 + r.below(2)), 0}); pops++; }
        if (r.chance(1, 3)) { auto &p = c.l[(np + r.below(nt - np) + rot) % nt]; p.push_back(0); p.push_back(id++); pushes++; } // a consumer that also pushes
        for (i64 k = 0; k < pushes + 1; ++k) { c.l[nt].push_back(1 + (i64)r.below(2)); c.l[nt].push_back(0); }
    } else {
        i64 cap = r.chance(1, 6) ? ((i64)1 << 33) + (i64)r.below(100) : r.range(1, 12); c.p["cap"] = cap; i64 unit = cap > 100 ? cap / 7 : 1, most = cap / unit;
        c.p["init"] = r.chance(1, 3) ? unit * (i64)r.below(most + 1) : 0;
        if (c.get("init")) { i64 in = c.get("init"); if (r.chance(1, 2) && in > 1) { i64 a = 1 + (i64)r.below(in - 1); c.l[0] = {1, a, 1, in - a}; } else c.l[0] = {1, in}; }
        for (int t = 0; t < nt; ++t) for (i64 k = 1 + (i64)r.below(budget / nt + 1); k > 0; --k) {
            i64 x = r.chance(1, 4) ? cap : unit * r.range(0, most), a = r.chance(1, 4) && x > 1 ? 1 + (i64)r.below(x - 1) : x;
            for (i64 w : {(i64)0, x, (i64)1, a}) c.l[t].push_back(w);
            if (a != x) { c.l[t].push_back(1); c.l[t].push_back(x - a); }
        }
    }
    if (r.chance(1, 2)) for (i64 k = 1 + (i64)r.below(3); k > 0; --k) { // some threads wait until nothing else can run
        auto &p = c.l[r.below(nt)]; i64 at = (i64)r.below(p.size() / 2 + 1) * 2; p.insert(p.begin() + at, {(i64)(op ? 2 : 5), 0});
    }
    gen_sched(r, c);
    if (r.chance(1, 3)) set_fault(c, sim::F_SPURIOUS, (int)pick(r, {100, 500, 900}));
}
static bool valid22(const Case &c) { return c.get("nt") >= 1 && (i64)c.l.size() >= c.get("nt") + 1; }
static Module mk22() {
    Module m; m.id = "C22"; m.exec = exec22; m.gen = gen22; m.valid = valid22; m.shrink_lists = false;
    m.real = "threadsafe_queue and capacity_controller of /repo with instrumented memory accesses; libstdc++ threads, locks, condition variables, shared and unique pointers";
    m.stub = "threads, mutexes, condition variables (simulated pthreads), heap allocator";
    m.rule = "Each run drives one queue (pushes, blocking and non-blocking removals, both forms) or one capacity gate (admissions and releases, whole or in parts, an initial load) from 2 to 7 threads with drawn operation lists under a seeded schedule with spurious wake-ups. Queue histories must be linearizable with respect to a sequential FIFO queue and, with the queue drained at the end, deliver every element exactly once and free everything; the admitted sum of a gate must never exceed its capacity; an operation that can proceed must return: deadlock is a violation, and at points where nothing else can run no thread may wait for an element that is there or for a share that fits. Non-trivial: at least two threads and more than two context switches.";
    m.assumptions = {"sampled search: up to 7 threads and about 40 operations", "gate users hold at most one share at a time and none larger than the capacity"};
    m.site = [](const Case &c, const Verdict &v) { return std::string(c.get("op") ? "gate/" : "queue/") + v.cls; };
    return m;
}
static AddModule a22(mk22());
}
