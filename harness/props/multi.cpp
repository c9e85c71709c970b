#include <array>
// Properties that relate several executions or several operations: C04-C08, C20.
#include "mult.h"
#include <algorithm>
#include <cstring>
#include <memory>
namespace h {
static const char *REAL = "all multiplication code, CSR/CSC containers and utility.h of /repo, compiled from its working tree with instrumented memory accesses; libstdc++; GraphBLAS is linked but not called";
static const char *STUB = "OpenMP runtime (teams, barriers, work sharing, atomics), heap allocator, clocks: replaced by the simulator";
static const std::vector<std::string> ASSUME = {"sampled search: inputs usually up to about 130 rows, rarely 262184; columns up to about 70000, sparsely used ids up to 2^44; usually about 30000 products, at most about 300000 (rows of more than 2^17 entries)", "interleavings are sequentially consistent at the granularity of instrumented memory accesses"};
static std::string site_alg(const Case &c, const Verdict &v) { return c.str("alg") + "/" + v.cls; }
static void gen_ops(Rng &r, Case &c, bool small) {
    int k = small ? (int)pick(r, {G_TINY, G_TINY, G_SMALL, G_DENSE, G_COLLIDE}) : (int)pick(r, {G_TINY, G_SMALL, G_SMALL, G_MED, G_WIDE, G_HUB, G_COLLIDE, G_DENSE, G_TALL});
    const Alg *a = find_alg(c.str("alg"), (int)c.get("type"));
    if (a && !(a->flags & (A_DENSE | A_BCSC)) && r.chance(1, 30)) k = G_HUGE;
    if (a && !small && r.chance(1, 400)) { k = G_VTALL; c.p["s_budget"] = 400000000; }
    if (a && !small && r.chance(1, 300)) { gen_long(r, c, (a->flags & (A_LEGACY | A_UNMASKED)) && strstr(a->name, "Hash")); c.p["s_budget"] = 400000000; return; }
    gen_mult(r, c, k, a && (a->flags & (A_ROW | A_INNER)) && !(a->flags & A_LEGACY));
}
static void shuffle_all(Rng &r, Case &c) { for (auto &m : c.m) shuffle_rows(r, m); }
static bool any_mult(const Alg &a) { return (a.flags & (A_ROW | A_INNER | A_LEGACY | A_UNMASKED)) && !(a.flags & A_OUTER); }
static Verdict catching(std::function<void()> f) { // exceptions that escape an operation
    std::string e;
    sim::run([&] { try { f(); } catch (std::exception &x) { sim::HeapScope hs(false); e = std::string("exception ") + x.what(); } catch (...) { sim::HeapScope hs(false); e = "exception"; } });
    return e.empty() ? Verdict() : Verdict::bad("exception", e);
}
static bool raw_equal(const HMat &a, const HMat &b, std::string &err) {
    if (a.rows != b.rows || a.cols != b.cols) { err = "dimensions differ"; return false; }
    if (a.ptr != b.ptr) { for (size_t i = 0; i < a.ptr.size(); ++i) if (a.ptr[i] != b.ptr[i]) { err = fmt("row offset %zu: %lld / %lld", i, (long long)a.ptr[i], (long long)b.ptr[i]); return false; } err = "offsets differ"; return false; }
    for (size_t i = 0; i < a.idx.size(); ++i) { if (a.idx[i] != b.idx[i]) { err = fmt("column id of entry %zu: %lld / %lld", i, (long long)a.idx[i], (long long)b.idx[i]); return false; } if (a.val[i] != b.val[i]) { err = fmt("value of entry %zu: bits %016llx / %016llx", i, (unsigned long long)a.val[i], (unsigned long long)b.val[i]); return false; } }
    return true;
}
// ------------------------------------------------------------------ C04
static Verdict exec04(const Case &c) {
    Job j, k; std::string err; if (!make_job(c, 0, "", j, err) || !make_job(c, 0, "", k, err)) return Verdict::bad("harness", err);
    k.threads = (unsigned)c.get("thr2", 1);
    build_objects(j, c, ""); build_objects(k, c, ""); start(c);
    sim::run([&] { call(j); });
    u64 sw = sim::stats().switches; int team = (int)sim::stats().max_team;
    sim::config().strategy = (int)c.get("strat2", sim::S_BLOCKONLY);
    sim::run([&] { call(k); });
    HMat g1, g2;
    Verdict v = check_result(j, j.c, nullptr, &g1); if (!v.ok) return v;
    Verdict w = check_result(k, k.c, nullptr, &g2); if (!w.ok) return w;
    nontrivial(team > 1 && sw > 1 && g1.idx.size());
    probe((std::string("alg ") + j.alg->name).c_str());
    if (c.get("vmode")) probe("rounding-sensitive values"); if (c.get("add") >= 3) probe("order-sensitive add operation");
    if (j.alg->flags & A_ANYORDER) { g1 = sorted_copy(g1); g2 = sorted_copy(g2); } // the order of ids within a row is not promised
    if (!raw_equal(g1, g2, err)) return Verdict::bad("not-reproducible", std::string(j.alg->name) + fmt(" type %d, %u / %u threads: ", j.type, j.threads, k.threads) + err);
    return v;
}
static Module m04() {
    Module m; m.id = "C04"; m.real = REAL; m.stub = STUB; m.assumptions = ASSUME; m.site = site_alg; m.valid = valid_mult;
    m.rule = "Each run performs one multiplication twice in the simulator, with two drawn thread counts and two schedules, and compares the two results bit for bit (offsets, ids in stored order, values); values are rounding-sensitive doubles in most runs and the add operation is often non-commutative. Non-trivial: at least two threads, more than one context switch, non-empty result.";
    m.params = {{"thr", 1}, {"thr2", 1}, {"pre", 0}, {"uns", 0}, {"s_icv", 1}};
    m.gen = [](Rng &r, Case &c, bool, u64) {
        gen_alg(r, c, any_mult, "");
        const Alg *a = find_alg(c.str("alg"), (int)c.get("type"));
        c.p["vmode"] = r.chance(4, 5); c.p["thr2"] = gen_threads(r); c.p["strat2"] = r.chance(1, 2) ? sim::S_BLOCKONLY : (int)sim::S_RANDOM;
        if (a && !(a->flags & (A_PLUS_ONLY | A_ADD0))) c.p["add"] = pick(r, {0, 0, 0, 3, 4, 5, 1, 2});
        gen_ops(r, c, false); if (c.get("uns")) shuffle_all(r, c); gen_sched(r, c);
    };
    m.exec = exec04; return m;
}
static AddModule a04(m04());
// ------------------------------------------------------------------ C05
// l[i] = {kind, dst, a, b, m, algorithm number, threads, mul, add}; s: alg<i>
static Verdict exec05(const Case &c) {
    int type = (int)c.get("type"), n = (int)c.get("n"), K = (int)c.m.size(), nops = (int)c.get("nops");
    MatOps &o = csr_ops[type];
    std::vector<void *> obj(K); std::vector<HMat> model(K);
    std::vector<char> live(K, 1), sorted(K, 1);
    for (int i = 0; i < K; ++i) { model[i] = to_hmat(c.m[i], type, 0, !c.get("uns"), false); if (c.get("uns")) sorted[i] = model[i] == sorted_copy(model[i]); sim::HeapScope hs; obj[i] = o.make(model[i]); }
    start(c);
    std::map<const Alg *, i64> widest; int wider = 0, done = 0, mults = 0, alias = 0, older = 0, unmasked = 0;
    for (int q = 0; q < nops && q < (int)c.l.size() - (c.get("s_replay") ? 2 : 0); ++q) {
        auto at = [&](size_t k) { return k < c.l[q].size() ? c.l[q][k] : 0; };
        auto slot = [&](size_t k) { return (int)(at(k) % K); };
        int kind = (int)at(0), d = slot(1), a = slot(2), b = slot(3), m = slot(4); std::string what;
        HMat want; bool wl = true, exact = true; const Alg *alg = nullptr;
        switch (kind) {
        case 1: {
            alg = find_alg(c.str("alg" + std::to_string(at(5))), type);
            if (!alg || !live[a] || !live[b] || !live[m]) continue;
            if (model[a].cols != model[b].rows || model[m].rows != model[a].rows || model[m].cols != model[b].cols) continue;
            bool need = alg->flags & A_NEED_SORTED; if ((alg->flags & A_NOALIAS) && (d == a || d == b || d == m)) continue;
            if (!(alg->flags & A_ROW) && (!model[a].rows || !model[a].cols || !model[b].cols)) continue; // earlier kernels do not take empty dimensions
            for (int x : {a, b, m}) if (need && !sorted[x]) { sim::run([&] { o.sort_ids(obj[x]); }); model[x] = sorted_copy(model[x]); sorted[x] = 1; }
            Op op{(int)at(7), (int)at(8)}; unsigned thr = (unsigned)at(6); i64 extra[3] = {1, 1, 1};
            if (alg->flags & (A_PLUS_ONLY | A_ADD0)) op.add = 0;
            want = model_mult(type, model[a], model[b], alg->flags & A_UNMASKED ? nullptr : &model[m], alg->flags & A_COMPL, op); exact = false; if (alg->flags & A_LEGACY) ++older; if (alg->flags & A_UNMASKED) ++unmasked;
            what = fmt("step %d: %s threads=%u C=slot%d A=slot%d B=slot%d mask=slot%d", q, alg->name, thr, d, a, b, m);
            if (d == a || d == b || d == m) ++alias;
            { auto it = widest.find(alg); if (it != widest.end() && it->second < want.cols) ++wider; i64 &x = widest[alg]; x = std::max(x, want.cols); }
            sim::run([&] { alg->run(obj[a], obj[b], obj[d], obj[m], op, thr, extra); }); ++mults; break; }
        case 2: // copy construction replaces the object
            what = fmt("step %d: copy slot%d to slot%d", q, a, d); if (a == d) continue;
            want = model[a]; wl = live[a];
            sim::run([&] { void *x = o.copy(obj[a]); o.destroy(obj[d]); obj[d] = x; }); break;
        case 3: what = fmt("step %d: assign slot%d to slot%d", q, a, d); want = model[a]; wl = live[a]; sim::run([&] { o.assign(obj[d], obj[a]); }); break;
        case 4: what = fmt("step %d: clear slot%d", q, d); wl = false; sim::run([&] { o.clear(obj[d]); }); break;
        case 5: what = fmt("step %d: sort slot%d", q, d); if (!live[d]) continue; want = sorted_copy(model[d]); sim::run([&] { o.sort_ids(obj[d]); }); break;
        case 6: { // a vector of copies of slots 0..K-1, one erased, one taken back
            if (K < 2) continue;
            int k = (int)(at(2) % K), t = k % (K - 1), drop = (k + 1) % K, src = t >= drop ? t + 1 : t;
            what = fmt("step %d: slot%d through a vector into slot%d", q, src, d); want = model[src]; wl = live[src];
            sim::run([&] { o.container(obj.data(), K, k, obj[d]); }); a = src; break; }
        case 7: { // copy or assign a matrix while its ids are one-based, shift both back
            if (a == d || !live[a] || !model[a].rows) continue; int how = (int)(at(7) % 3);
            what = fmt("step %d: one-based slot%d %s slot%d, both shifted back", q, a, how == 0 ? "copied to" : how == 1 ? "assigned to" : "through a vector into", d); want = model[a]; wl = true;
            sim::run([&] { o.rebase(obj[a], true);
                if (how == 0) { void *x = o.copy(obj[a]); o.destroy(obj[d]); obj[d] = x; } else if (how == 1) o.assign(obj[d], obj[a]); else { void *two[2] = {obj[a], obj[a]}; o.container(two, 2, 0, obj[d]); }
                o.rebase(obj[a], false); o.rebase(obj[d], false); });
            break; }
        default: continue;
        }
        ++done;
        for (int i = 0; i < K; ++i) {
            std::string err; HMat got;
            bool lv = i == d ? wl : live[i];
            if (!lv) { i64 rr, cc, nn; const void *p, *x, *v; o.view(obj[i], rr, cc, nn, p, x, v); if (rr || cc || nn) return Verdict::bad("not-cleared", what + fmt(": slot%d has %lldx%lld with %lld entries", i, (long long)rr, (long long)cc, (long long)nn)); if (i == d) { live[d] = 0; sorted[d] = 1; } continue; }
            if (!read_obj(obj[i], type, false, got, err)) return Verdict::bad(i == d ? "malformed-result" : "disturbed", what + fmt(": slot%d: ", i) + err);
            if (i != d) { if (!raw_equal(got, model[i], err)) return Verdict::bad("disturbed", what + fmt(" changed slot%d: ", i) + err); continue; }
            if (!exact) {
                bool ws = (alg->flags & A_SORTED_OUT) || (sorted[a] && sorted[b] && sorted[m] && !(alg->flags & A_ANYORDER));
                if (!check_shape(got, want.rows, want.cols, false, ws, err)) return Verdict::bad("malformed-result", what + ": " + err);
                HMat s = sorted_copy(got); if (!same(s, want, type, 1e-12, err)) return Verdict::bad("wrong-result", what + ": " + err);
                model[d] = got; sorted[d] = s == got; live[d] = 1;
            } else {
                if (!raw_equal(got, want, err)) return Verdict::bad("wrong-result", what + ": " + err);
                char so = kind == 5 ? 1 : sorted[a]; model[d] = want; sorted[d] = so; live[d] = 1;
            }
        }
    }
    sim::run([&] { for (void *x : obj) o.destroy(x); });
    probe("operations", done); probe("a method run again on more columns", wider); probe("multiplications", mults); probe("aliased multiplications", alias); probe("multiplications by earlier kernels", older); probe("unmasked multiplications", unmasked);
    nontrivial(mults >= 1 && done >= 2 && sim::stats().switches > 1);
    Verdict v; for (auto &m : model) v.hash = mix(v.hash, hash_of(m)); return v;
}
static Module m05() {
    Module m; m.id = "C05"; m.real = REAL; m.stub = STUB; m.assumptions = {"sampled search: 2-5 matrices of order up to 60 (mostly up to 14), some without rows or columns, up to 12 operations", ASSUME[1]};
    m.rule = "Each run draws a pool of matrices (square or of two mixed orders, possibly zero) and a history of operations over it (row-wise masked, one in four earlier-generation or unmasked, multiplications with drawn methods - in two histories of five the same one or two throughout -, thread counts and possibly aliased operands, copy constructions, assignments incl. self, clears, id sorts, passes through a growing and shrinking vector); after every operation every matrix of the pool is compared bit for bit with a sequential model. Non-trivial: at least two operations, one of them a multiplication, and a context switch.";
    m.params = {{"uns", 0}, {"s_icv", 1}}; m.site = [](const Case &, const Verdict &v) { return v.cls; };
    m.valid = [](const Case &c) { return c.m.size() >= 1; };
    m.gen = [](Rng &r, Case &c, bool, u64) {
        int type = (int)pick(r, {T_ID, T_ID, T_LL, T_LU, T_LU, T_IF, T_IW}); if (!csr_ops[type].make) type = T_ID; c.p["type"] = type; c.p["uns"] = r.chance(1, 4);
        i64 n = r.chance(1, 8) ? r.range(15, 60) : r.range(1, 14); c.p["n"] = n; int K = (int)r.range(2, 5);
        bool rect = r.chance(1, 2); i64 n2 = rect ? pick(r, {r.range(0, 1), r.range(1, 14), r.range(1, 14), r.range(1, 60)}) : n;
        for (int i = 0; i < K; ++i) { i64 rows = r.chance(1, 2) ? n : n2, cols = r.chance(1, 2) ? n : n2; Mat x = r.chance(1, 10) ? Mat{rows, cols, {}} : gen_mat(r, rows, cols, (int)pick(r, {G_TINY, G_SMALL, G_DENSE})); if (c.get("uns")) shuffle_rows(r, x); c.m.push_back(x); }
        std::vector<std::pair<i64, i64>> dim; for (auto &x : c.m) dim.push_back({x.rows, x.cols});
        int nops = (int)r.range(2, 12); c.p["nops"] = nops;
        std::vector<const Alg *> v, w; for (auto &a : algs()) if (a.type == type) { if (a.flags & A_ROW) v.push_back(&a); else if (!(a.flags & (A_ACSC | A_BCSC | A_CCSC))) w.push_back(&a); }
        auto byname = [](const Alg *a, const Alg *b) { return strcmp(a->name, b->name) < 0; };
        std::sort(v.begin(), v.end(), byname); std::sort(w.begin(), w.end(), byname);
        auto any = [&] { return w.size() && r.chance(1, 4) ? w[r.below(w.size())]->name : v[r.below(v.size())]->name; };
        std::vector<const char *> few; if (r.chance(2, 5)) for (int k = (int)r.range(1, 2); k; --k) few.push_back(w.size() && r.chance(1, 2) ? w[r.below(w.size())]->name : any()); // the same methods over and over
        for (int q = 0; q < nops; ++q) {
            int kind = (int)pick(r, {1, 1, 1, 1, 1, 1, 1, 2, 3, 3, 4, 5, 6, 7});
            std::vector<i64> o = {kind, (i64)r.below(K), (i64)r.below(K), (i64)r.below(K), (i64)r.below(K), q, gen_threads(r), type == T_ID || type == T_IF ? r.range(2, 3) : pick(r, {0, 1, 2, 3, 4}), pick(r, {0, 0, 1, 2})};
            if (kind == 1 && r.chance(4, 5)) { // operands whose dimensions agree; the output is mostly another matrix
                std::vector<std::array<int, 3>> ok; for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) for (int x = 0; x < K; ++x) if (dim[a].first >= 0 && dim[b].first >= 0 && dim[x].first >= 0 && dim[a].second == dim[b].first && dim[x].first == dim[a].first && dim[x].second == dim[b].second) ok.push_back({a, b, x});
                if (!ok.empty()) { auto t = ok[r.below(ok.size())]; for (int y = 0; y < 3; ++y) o[2 + y] = t[y]; if (r.chance(1, 2)) for (int y = 0; y < K; ++y) { int z = (int)((o[1] + y) % K); if (z != t[0] && z != t[1] && z != t[2]) { o[1] = z; break; } } }
            }
            { auto &D = dim[o[1]]; auto A = dim[o[2]], B = dim[o[3]], M = dim[o[4]];
              if (kind == 1) { if (A.first >= 0 && B.first >= 0 && M.first >= 0 && A.second == B.first && M.first == A.first && M.second == B.second) D = {A.first, B.second}; }
              else if (kind == 2 || kind == 3) D = A; else if (kind == 4) D = {-1, -1}; else if (kind == 7) { if (A.first > 0) D = A; }
              else if (kind == 6 && K > 1) { int k = (int)o[2], t = k % (K - 1), drop = (k + 1) % K; D = dim[t >= drop ? t + 1 : t]; } }
            if (kind == 1) c.s["alg" + std::to_string(q)] = few.empty() ? any() : few[r.below(few.size())];
            c.l.push_back(o);
        }
        gen_sched(r, c);
    };
    m.exec = exec05; return m;
}
static AddModule a05(m05());
// ------------------------------------------------------------------ C06
static MatOps &ops(const Job &j) { return (j.alg->flags & A_CCSC ? csc_ops : csr_ops)[j.type]; }
static Verdict exec06(const Case &c) {
    Job j, k; std::string err; if (!make_job(c, 0, "", j, err) || !make_job(c, 0, "", k, err)) return Verdict::bad("harness", err);
    build_objects(j, c, ""); build_objects(k, c, ""); start(c);
    for (int it = 0; it < 2; ++it) {
        Job &x = it ? k : j;
        if (it) { sim::config().fill_mode = (int)c.get("fill2", 2); sim::config().strategy = sim::S_BLOCKONLY; }
        u64 mark = sim::heap_mark();
        sim::run([&] { call(x); });
        i64 rr, cc, nn; const void *p, *ix, *v; ops(x).view(x.c, rr, cc, nn, p, ix, v);
        for (auto &b : sim::live_since(mark)) {
            if (b.n == 0 || b.p == p || b.p == ix || b.p == v) continue;
            return Verdict::bad("leak", fmt("%s: block of %zu bytes (allocation %llu of the call) still allocated after the call", x.alg->name, b.n, (unsigned long long)(b.serial - mark)));
        }
    }
    HMat g1, g2, want; expect(j, want);
    Verdict v = check_result(j, j.c, &want, &g1); if (!v.ok) return v;
    Verdict w = check_result(k, k.c, &want, &g2); if (!w.ok) return w;
    Verdict u = check_inputs_unchanged(j); if (!u.ok) return u;
    // the object can be destroyed
    sim::run([&] { ops(j).destroy(j.c); ops(k).destroy(k.c); });
    probe((std::string("alg ") + j.alg->name).c_str());
    nontrivial(sim::stats().max_team > 1 && sim::stats().switches > 1 && want.idx.size());
    std::string e2; if (!(j.alg->flags & (A_ANYORDER | A_OUTER)) && !raw_equal(g1, g2, e2)) return Verdict::bad("depends-on-memory", std::string(j.alg->name) + ": " + e2);
    return v;
}
static bool masked(const Alg &a) { return (a.flags & (A_ROW | A_INNER)) && !(a.flags & A_LEGACY); }
static Module m06() {
    Module m; m.id = "C06"; m.real = REAL; m.stub = STUB; m.assumptions = ASSUME; m.site = site_alg; m.valid = valid_mult;
    m.rule = "Each run performs one multiplication (three in four: row-wise or inner masked; else earlier-generation or unmasked) twice in a heap that separates blocks by seeded red zones, never reuses freed blocks and fills fresh blocks with seeded contents (random, zero, all ones, small integers): every instrumented access must hit a live block, frees must match, the simulation must not deadlock or exceed its step budget, only the result arrays may stay allocated, and the result must equal the reference in both fills. Non-trivial: at least two threads, more than one context switch, non-empty expected result.";
    m.params = {{"thr", 1}, {"pre", 0}, {"uns", 0}, {"mul", 0}, {"add", 0}, {"s_icv", 1}};
    m.gen = [](Rng &r, Case &c, bool, u64) {
        gen_alg(r, c, r.chance(3, 4) ? masked : [](const Alg &a) { return !masked(a); }, ""); gen_ops(r, c, false); if (c.get("uns")) shuffle_all(r, c); gen_sched(r, c); c.p["fill2"] = (i64)r.below(5);
    };
    m.exec = exec06; return m;
}
static AddModule a06(m06());
// ------------------------------------------------------------------ C07
static bool abnormal_end(const Case &, const std::string &cls, const std::string &) { return cls == "terminate" || cls == "abort" || cls == "exit" || cls == "assert"; }
static Verdict exec07(const Case &c) {
    Job j; std::string err; if (!make_job(c, 0, "", j, err)) return Verdict::bad("harness", err);
    build_objects(j, c, ""); start(c);
    auto nested = get_fn<void (*)(int, void (*)(void *), void *)>("nested_call");
    struct Ctx { Job *j; std::string err; } ctx{&j, ""};
    int outer = (int)c.get("outer");
    Verdict e = catching([&] { if (outer && nested) nested(outer, [](void *p) { Ctx &x = *(Ctx *)p; call(*x.j); }, &ctx); else call(j); });
    HMat want; expect(j, want);
    bool shortened = sim::stats().fired[sim::F_SHORT_TEAM] || (outer > 1);
    probe((std::string("alg ") + j.alg->name).c_str()); if (outer > 1) probe("nested call"); if (sim::stats().fired[sim::F_SHORT_TEAM]) probe("short team");
    nontrivial(shortened && j.threads != 1 && want.idx.size());
    if (!e.ok) { Verdict v; v.hash = 1; probe("ended by exception"); return v; }
    Verdict v = check_result(j, j.c, &want); if (!v.ok) return v;
    Verdict u = check_inputs_unchanged(j); if (!u.ok) return u;
    return v;
}
static Module m07() {
    Module m; m.id = "C07"; m.real = REAL; m.stub = STUB; m.assumptions = ASSUME; m.site = site_alg; m.valid = valid_mult;
    m.rule = "Each run performs one multiplication of any family while the simulated OpenMP runtime delivers fewer threads than requested for a drawn subset of the parallel regions, or runs the call inside an outer parallel region so that every inner team has one thread, and compares with the reference. Non-trivial: some team was short, more than one thread was requested and the expected result is non-empty.";
    m.params = {{"thr", 1}, {"pre", 0}, {"uns", 0}, {"mul", 0}, {"add", 0}, {"s_icv", 1}, {"outer", 0}, {"nb", 1}, {"bw", 1}};
    m.gen = [](Rng &r, Case &c, bool, u64) {
        gen_alg(r, c, [](const Alg &) { return true; }, "");
        if (c.get("thr") == 1) c.p["thr"] = r.range(2, 8);
        gen_ops(r, c, false); if (c.get("uns")) shuffle_all(r, c); gen_sched(r, c);
        c.p["outer"] = r.chance(1, 3) ? r.range(2, 4) : 0;
        if (c.get("outer") && c.get("thr") > 32) c.p["thr"] = 32;
        if (!c.get("outer") || r.chance(1, 3)) { c.p["s_nested"] = c.get("outer") ? 2 : 1; set_fault(c, sim::F_SHORT_TEAM, (int)pick(r, {150, 400, 700, 1024})); }
        if (c.p["s_icv"] < 2) c.p["s_icv"] = 4;
    };
    m.exec = exec07; m.tolerate = abnormal_end; return m;
}
static AddModule a07(m07());
// ------------------------------------------------------------------ C08
static Verdict exec08(const Case &c) {
    int n = (int)c.get("n"); std::string err; std::vector<std::unique_ptr<Job>> js;
    for (int i = 0; i < n; ++i) { js.emplace_back(new Job()); std::string sf = "_" + std::to_string(i); if (!make_job(c, 3 * (int)c.get("base" + sf), sf, *js[i], err)) return Verdict::bad("harness", err); }
    for (int i = 0; i < n; ++i) { // inputs may be the same objects
        std::string sf = "_" + std::to_string(i); build_objects(*js[i], c, sf);
        for (int k = 0; k < i; ++k) if (c.get("share" + sf) && c.get("base" + sf) == c.get("base_" + std::to_string(k)) && js[k]->type == js[i]->type && js[k]->sorted_in == js[i]->sorted_in && (js[k]->alg->flags & A_ACSC) == (js[i]->alg->flags & A_ACSC)) { js[i]->a = js[k]->a; js[i]->m = js[k]->m; if ((js[k]->alg->flags & A_BCSC) == (js[i]->alg->flags & A_BCSC)) js[i]->b = js[k]->b; probe("calls sharing inputs"); break; }
    }
    start(c);
    std::vector<std::function<void()>> f; for (auto &j : js) { Job *x = j.get(); f.push_back([x] { call(*x); }); }
    sim::run_many(f);
    Verdict all; bool big = false;
    for (auto &j : js) {
        HMat want; expect(*j, want); big |= want.idx.size() > 0;
        Verdict v = check_result(*j, j->c, &want); if (!v.ok) return v;
        Verdict u = check_inputs_unchanged(*j); if (!u.ok) return u;
        all.hash = mix(all.hash, v.hash); probe((std::string("alg ") + j->alg->name).c_str());
    }
    nontrivial(big && sim::stats().switches > 4);
    return all;
}
static Module m08() {
    Module m; m.id = "C08"; m.real = REAL; m.stub = STUB; m.assumptions = ASSUME; m.shrink_lists = false;
    m.site = [](const Case &c, const Verdict &v) { std::string s; for (int i = 0; i < c.get("n"); ++i) s += c.str("alg_" + std::to_string(i)) + "+"; return s + "/" + v.cls; };
    m.rule = "Each run starts two or three independent callers as simulated threads, each performing its own multiplication (two in three: row-wise or inner masked; else earlier-generation or unmasked; drawn methods, thread counts) with its own team, partly on shared read-only inputs; the seeded scheduler interleaves all of them and every result is compared with the sequential reference. Non-trivial: more than four context switches and a non-empty expected result.";
    m.params = {{"thr_0", 1}, {"thr_1", 1}, {"thr_2", 1}, {"pre_0", 0}, {"pre_1", 0}, {"n", 1}, {"s_icv", 1}};
    m.valid = [](const Case &c) { if (c.m.size() % 3) return false; for (size_t i = 0; i + 2 < c.m.size(); i += 3) if (c.m[i].cols != c.m[i + 1].rows || c.m[i + 2].rows != c.m[i].rows || c.m[i + 2].cols != c.m[i + 1].cols) return false; return true; };
    m.gen = [](Rng &r, Case &c, bool, u64) {
        int n = (int)r.range(2, 3); c.p["n"] = n; int sets = (int)r.range(1, n); std::vector<Mat> all;
        for (int s = 0; s < sets; ++s) { gen_ops(r, c, !r.chance(1, 5)); for (auto &m : c.m) all.push_back(m); }
        c.m = all;
        bool same = r.chance(1, 2); std::string first; i64 ft = 0;
        for (int i = 0; i < n; ++i) {
            std::string sf = "_" + std::to_string(i);
            gen_alg(r, c, r.chance(2, 3) ? masked : [](const Alg &a) { return !masked(a); }, sf); c.p["uns" + sf] = 0; c.p["thr" + sf] = pick(r, {0, 1, 2, 2, 2, 3, 4});
            if (i && same) { c.s["alg" + sf] = first; c.p["type" + sf] = ft; } else if (!i) { first = c.str("alg" + sf); ft = c.get("type" + sf); }
            c.p["base" + sf] = (i64)r.below(sets); c.p["share" + sf] = r.chance(2, 3);
        }
        gen_sched(r, c);
    };
    m.exec = exec08; return m;
}
static AddModule a08(m08());
// ------------------------------------------------------------------ C20
static Verdict exec20(const Case &c) {
    Job j, k; std::string err; if (!make_job(c, 0, "", j, err) || !make_job(c, 0, "", k, err)) return Verdict::bad("harness", err);
    build_objects(j, c, ""); build_objects(k, c, ""); start(c);
    u64 c0 = sim::alloc_count();
    sim::run([&] { call(j); });
    u64 n = sim::alloc_count() - c0;
    if (!n) return Verdict();
    HMat want; expect(j, want); nontrivial(want.idx.size());
    sim::config().alloc_fail_at = (int64_t)(c0 + n + (u64)c.get("afk") % n); sim::config().alloc_fail_sticky = c.get("asticky");
    Verdict e = catching([&] { call(k); });
    bool fired = sim::stats().fired[sim::F_ALLOC_FAIL];
    probe((std::string("alg ") + j.alg->name).c_str());
    Verdict r; r.hash = 3;
    if (!e.ok) { probe("ended by exception"); return r; }
    if (fired) probe("returned normally after a failed allocation");
    Verdict v = check_result(k, k.c, &want); if (!v.ok) return v;
    Verdict u = check_inputs_unchanged(k); if (!u.ok) return u;
    return v;
}
static bool oom_end(const Case &, const std::string &cls, const std::string &msg) { // termination, including the null dereference of an unchecked malloc
    if (!sim::stats().fired[sim::F_ALLOC_FAIL]) return false;
    return cls == "terminate" || cls == "abort" || cls == "exit" || cls == "assert" || cls == "crash";
}
static Module m20() {
    Module m; m.id = "C20"; m.real = REAL; m.stub = STUB; m.assumptions = ASSUME; m.site = site_alg; m.valid = valid_mult;
    m.rule = "Each run performs one multiplication of any family without faults, counting its allocations, then again with the drawn allocation failing (and, in half of the runs, every later one); a normal return must deliver the reference result, and the process may otherwise end by an exception or by termination. Non-trivial: a failure was armed within the run's allocations and the expected result is non-empty.";
    m.params = {{"thr", 1}, {"pre", 0}, {"uns", 0}, {"mul", 0}, {"add", 0}, {"s_icv", 1}, {"afk", 0}, {"asticky", 0}, {"nb", 1}, {"bw", 1}};
    m.gen = [](Rng &r, Case &c, bool, u64) {
        gen_alg(r, c, [](const Alg &) { return true; }, ""); gen_ops(r, c, !r.chance(1, 4)); if (c.get("uns")) shuffle_all(r, c); gen_sched(r, c);
        c.p["afk"] = (i64)r.below(1 << 20); c.p["asticky"] = r.chance(1, 2);
    };
    m.exec = exec20; m.tolerate = oom_end; return m;
}
static AddModule a20(m20());
}
