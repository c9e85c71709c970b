#include "mult.h"
#include <algorithm>
#include <cstring>
namespace h {
bool make_job(const Case &c, int base, const std::string &sf, Job &j, std::string &err) {
    j.type = (int)c.get("type" + sf); j.alg = find_alg(c.str("alg" + sf), j.type);
    if (!j.alg) { err = "unknown method " + c.str("alg" + sf); return false; }
    j.op.mul = (int)c.get("mul" + sf); j.op.add = (int)c.get("add" + sf); j.threads = (unsigned)c.get("thr" + sf, 2);
    if (j.alg->flags & (A_PLUS_ONLY | A_ADD0)) j.op.add = 0; if (j.alg->flags & A_PLUS_ONLY) j.op.mul = 0;
    j.extra = {c.get("nb" + sf, 4), c.get("bw" + sf, 4), c.get("part" + sf, 1)};
    int mode = (int)c.get("vmode"); bool uns = c.get("uns" + sf) && !(j.alg->flags & A_NEED_SORTED);
    j.sorted_in = !uns;
    const Mat &A = c.m[base], &B = c.m[base + 1], &M = c.m[base + 2];
    j.rows = A.rows; j.cols = B.cols;
    j.A = to_hmat(A, j.type, mode, !uns, j.alg->flags & A_ACSC); j.B = to_hmat(B, j.type, mode, !uns, j.alg->flags & A_BCSC); j.M = to_hmat(M, j.type, 0, !uns, false);
    j.rA = to_hmat(A, j.type, mode, !uns); j.rB = to_hmat(B, j.type, mode, !uns); j.rM = sorted_copy(j.M);
    return true;
}
void build_objects(Job &j, const Case &c, const std::string &sf) {
    sim::HeapScope hs;
    unsigned f = j.alg->flags;
    j.a = (f & A_ACSC ? csc_ops : csr_ops)[j.type].make(j.A);
    j.b = (f & A_BCSC ? csc_ops : csr_ops)[j.type].make(j.B);
    j.m = csr_ops[j.type].make(j.M);
    MatOps &o = (f & A_CCSC ? csc_ops : csr_ops)[j.type];
    i64 pre = c.get("pre" + sf);
    if (!pre || (f & A_FRESH)) { j.c = o.empty(); if (f & A_CCSC) {} }
    else { // previous contents: some other matrix
        HMat p; p.rows = pre % 7 + 1; p.cols = 9; p.ptr.push_back(0);
        for (i64 i = 0; i < (f & A_CCSC ? p.cols : p.rows); ++i) { for (i64 k = 0; k < (pre >> 3) % 4; ++k) { p.idx.push_back(k); p.val.push_back(enc(j.type, 77 + k, 0)); } p.ptr.push_back((i64)p.idx.size()); }
        j.c = o.make(p);
    }
}
void call(Job &j) { j.alg->run(j.a, j.b, j.c, j.m, j.op, j.threads, j.extra.data()); }
bool expect(const Job &j, HMat &want) {
    want = model_mult(j.type, j.rA, j.rB, j.alg->flags & A_UNMASKED ? nullptr : &j.rM, j.alg->flags & A_COMPL, j.op);
    return true;
}
Verdict check_result(Job &j, void *obj, const HMat *want, HMat *raw) {
    HMat got; std::string err; bool col = j.alg->flags & A_CCSC;
    std::string who = std::string(j.alg->name) + (j.type == T_ID ? "<int,double>" : j.type == T_LL ? "<int64,int64>" : j.type == T_IF ? "<uint64,float>" : j.type == T_IW ? "<int,16-byte>" : "<long,unsigned long>") + fmt(" threads=%u: ", j.threads);
    if (!read_obj(obj, j.type, col, got, err)) return Verdict::bad("malformed-result", who + err);
    bool ws = (j.alg->flags & A_SORTED_OUT) || (j.sorted_in && !(j.alg->flags & A_ANYORDER));
    if (!check_shape(got, j.rows, j.cols, col, ws, err)) return Verdict::bad("malformed-result", who + err);
    if (raw) *raw = got;
    HMat g = col ? transpose_host(got) : sorted_copy(got);
    if (col) { g.rows = got.rows; g.cols = got.cols; }
    if (want && !same(g, *want, j.type, j.alg->flags & A_OUTER ? 1e-9 : 1e-12, err)) return Verdict::bad("wrong-result", who + err);
    Verdict v; v.hash = hash_of(g); return v;
}
Verdict check_inputs_unchanged(Job &j) {
    std::string err; HMat x;
    unsigned f = j.alg->flags;
    struct { void *o; const HMat *h; bool col; const char *n; } t[3] = {{j.a, &j.A, (bool)(f & A_ACSC), "A"}, {j.b, &j.B, (bool)(f & A_BCSC), "B"}, {j.m, &j.M, false, "mask"}};
    for (auto &q : t) { if (!read_obj(q.o, j.type, q.col, x, err)) return Verdict::bad("input-changed", std::string(j.alg->name) + ": " + q.n + ": " + err); if (!(x == *q.h)) return Verdict::bad("input-changed", std::string(j.alg->name) + ": input " + q.n + " modified"); }
    return Verdict();
}
void gen_alg(Rng &r, Case &c, std::function<bool(const Alg &)> filt, const std::string &sf) {
    std::vector<const Alg *> v; for (auto &a : algs()) if (filt(a)) v.push_back(&a);
    if (v.empty()) { c.s["alg" + sf] = "none"; return; }
    std::sort(v.begin(), v.end(), [](const Alg *a, const Alg *b) { int k = strcmp(a->name, b->name); return k ? k < 0 : a->type < b->type; });
    const Alg *a = v[r.below(v.size())];
    c.s["alg" + sf] = a->name; c.p["type" + sf] = a->type;
    c.p["thr" + sf] = gen_threads(r);
    bool po = a->flags & A_PLUS_ONLY;
    c.p["mul" + sf] = po ? 0 : pick(r, {0, 0, 0, 1, 2, 3, 4}); c.p["add" + sf] = po || (a->flags & A_ADD0) ? 0 : pick(r, {0, 0, 0, 0, 1, 2});
    c.p["uns" + sf] = r.chance(1, 4); c.p["pre" + sf] = r.chance(1, 2) ? 0 : (i64)r.range(1, 60);
    if (a->flags & A_OUTER) { c.p["nb" + sf] = r.range(1, 12); c.p["bw" + sf] = r.range(1, 8); c.p["part" + sf] = 1; }
}
static int gen_kind(Rng &r) { return (int)pick(r, {G_TINY, G_TINY, G_SMALL, G_SMALL, G_SMALL, G_MED, G_WIDE, G_HUB, G_COLLIDE, G_COLLIDE, G_DENSE, G_TALL}); }
// methods that stop a row once the mask row is exhausted: the count of possible products may far exceed the work done
static bool skips(const Alg &a) { std::string n = a.name; return (a.flags & A_NEED_SORTED) && !(a.flags & (A_COMPL | A_UNMASKED)) && (n.rfind("MCA", 0) == 0 || n.rfind("Heap", 0) == 0 || n.rfind("Poly", 0) == 0 || n.rfind("Inner", 0) == 0 || n.rfind("Gen", 0) == 0); }
static void gen_ops(Rng &r, Case &c, bool uns) { const Alg *a = find_alg(c.str("alg"), (int)c.get("type")); int kind = gen_kind(r); if (a && !(a->flags & (A_DENSE | A_BCSC)) && r.chance(1, 25)) kind = G_HUGE; if (r.chance(1, 250)) kind = G_VTALL; if (a && skips(*a) && r.chance(1, 120)) { gen_heavy(r, c, a->flags & A_BCSC); return; } if (r.chance(1, 100)) { gen_long(r, c, a && (a->flags & (A_LEGACY | A_UNMASKED)) && strstr(a->name, "Hash")); if (uns) for (auto &m : c.m) shuffle_rows(r, m); return; } gen_mult(r, c, kind, a && (a->flags & (A_ROW | A_INNER)) && !(a->flags & A_LEGACY)); if (uns) for (auto &m : c.m) shuffle_rows(r, m); }

static const char *REAL = "all multiplication code, CSR/CSC containers and utility.h of /repo, compiled from its working tree with instrumented memory accesses; libstdc++; GraphBLAS is linked but not called";
static const char *STUB = "OpenMP runtime (teams, barriers, work sharing, atomics), heap allocator, clocks: replaced by the simulator";
typedef std::function<bool(const Alg &)> Filt;
static std::vector<ShrinkParam> P1 = {{"thr", 1}, {"pre", 0}, {"uns", 0}, {"mul", 0}, {"add", 0}, {"s_icv", 1}, {"nb", 1}, {"bw", 1}};

static Verdict exec_single(const Case &c) {
    Job j; std::string err; if (!make_job(c, 0, "", j, err)) return Verdict::bad("harness", err);
    build_objects(j, c, ""); start(c);
    u64 mark = sim::heap_mark(); (void)mark;
    sim::run([&] { call(j); });
    HMat want; expect(j, want);
    probe((std::string("alg ") + j.alg->name).c_str());
    if (want.idx.size()) probe("nonempty result");
    if (j.rows > 131000) probe("more than 131000 rows"); if (j.rB.idx.size() > 39000) { double fl = 0; for (i64 k : j.rA.idx) fl += (double)(j.rB.ptr[k + 1] - j.rB.ptr[k]); if (j.alg->flags & A_BCSC) { fl = 0; for (i64 k : j.rM.idx) fl += (double)(j.B.ptr[k + 1] - j.B.ptr[k] + 1); } if (fl > 2147483647.0) probe("more than 2^31 possible products"); } if (j.cols > (1ll << 31) - 4) probe("column ids near 2^31 or beyond"); if (sim::stats().max_team > 32) probe("team of more than 32 threads");
    if (j.type == T_IF || j.type == T_IW) probe("4-byte or 16-byte values");
    if (j.rows < 9 && want.idx.size() > 70000) probe("more than 2^16 results in a few rows");
    if (sim::stats().preemptions) probe("runs with preemption");
    nontrivial(sim::stats().max_team > 1 && sim::stats().switches > 1 && want.idx.size() > 0);
    Verdict v = check_result(j, j.c, &want); if (!v.ok) return v;
    Verdict u = check_inputs_unchanged(j); if (!u.ok) return u;
    return v;
}
static std::string site_single(const Case &c, const Verdict &v) { return c.str("alg") + "/" + v.cls; }
static Module single(const char *id, Filt f, const char *rule) {
    Module m; m.id = id; m.rule = rule; m.real = REAL; m.stub = STUB; m.params = P1; m.site = site_single;
    m.gen = [f](Rng &r, Case &c, bool th, u64 i) {
        gen_alg(r, c, f, ""); gen_ops(r, c, c.get("uns")); gen_sched(r, c);
        if (c.m[0].rows > 29000 || c.m[1].e.size() + c.m[2].e.size() > 9000 || c.m[1].cols > 20000) c.p["s_budget"] = 400000000;
        (void)i; (void)th;
    };
    m.exec = exec_single; m.valid = valid_mult;
    m.assumptions = {"sampled search: inputs usually up to about 1500 rows, rarely up to 262184; columns up to about 70000, sparsely used ids up to 2^31 (32-bit) or 2^44 (64-bit); usually about 30000 products, at most about 300000; up to 200 threads", "interleavings are sequentially consistent at the granularity of instrumented memory accesses"};
    return m;
}
static bool is_row(const Alg &a) { return a.flags & (A_ROW); }
static AddModule c01(single("C01", [](const Alg &a) { return is_row(a) && !(a.flags & A_COMPL); }, "Each run draws a row-wise method, value type, semiring, thread count, schedule strategy and matrices (tiny to tall, hubs, hash-colliding columns, empty rows, masks related to the product) from the seed and compares the result with a sequential reference. Non-trivial: a team of at least two threads, more than one context switch and a non-empty expected result."));
static AddModule c02(single("C02", [](const Alg &a) { return is_row(a) && (a.flags & A_COMPL); }, "As C01 with the complementing methods; masks include empty rows, full rows and supersets of the product. Non-trivial: at least two threads, more than one context switch, non-empty expected result."));
static AddModule c03(single("C03", [](const Alg &a) { return (a.flags & A_INNER); }, "As C01 with the inner-product entry points (B column stored). Non-trivial: at least two threads, more than one context switch, non-empty expected result."));
static AddModule c10(single("C10", [](const Alg &a) { return (a.flags & A_LEGACY) && !(a.flags & A_UNMASKED); }, "As C01 with the earlier-generation masked kernels. Non-trivial: at least two threads, more than one context switch, non-empty expected result."));
static AddModule c11(single("C11", [](const Alg &a) { return (a.flags & A_UNMASKED); }, "As C01 with the unmasked hash, heap and outer-product methods (outer product: random block count and width). Non-trivial: at least two threads, more than one context switch, non-empty expected result."));
}
