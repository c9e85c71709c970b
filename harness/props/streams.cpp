// C31: random streams of the SPRNG library: any history of creating, drawing, spawning, packing, unpacking and freeing.
#include "mult.h"
#include "../recipes31.h"
#include "../golden31.h"
#include <cstring>
#include <set>
extern "C" {
int pack_rng(int *, char **); int *unpack_rng(char *); int get_seed_rng(int *);
int *addID(int *), *checkID(int *), *deleteID(int *); extern char checklist[] __attribute__((weak));
int *init_rng_simple(int, int, int); int get_rn_int_simple(void); float get_rn_flt_simple(void); double get_rn_dbl_simple(void); int pack_rng_simple(char **); int *unpack_rng_simple(char *);
extern int *defaultgen __attribute__((weak)); extern int lval __attribute__((weak)), kval __attribute__((weak)), gseed __attribute__((weak));
extern int lfg_NGENS __attribute__((weak)), lcg_NGENS __attribute__((weak)), lcg64_NGENS __attribute__((weak)), cmrg_NGENS __attribute__((weak)), mlfg_NGENS __attribute__((weak));
int getprime_32(int, int *, int) __attribute__((weak)); int getprime_64(int, unsigned *, int) __attribute__((weak));
}
namespace h {
namespace {
struct Draw { int *s; int kind, n; double *out; };
const char *TN[] = {"LFG", "LCG", "LCG64", "CMRG", "MLFG"};
struct Step { std::vector<int> before; int n, idx; };      // an ancestor's earlier spawns, then the one this stream comes from
struct St { // a stream: how it came to be, what it gave
    int *p = nullptr; Recipe r{}; std::vector<Step> path; std::vector<int> spawned; std::vector<std::pair<int, double>> log; int root = 0; bool tainted = false, live = true, copy = false;
};
int norm(const Recipe &r) { return r.param < 0 || r.param >= R31_NP[r.type] ? 0 : r.param; }
std::string name(const St &s) {
    std::string t = fmt("%s parameter %d, stream %d of %d, seed %d", TN[s.r.type], s.r.param, s.r.gen, s.r.total, s.r.seed);
    for (auto &x : s.path) t += fmt(", child %d of %d", x.idx, x.n);
    return t;
}
int reg_len(const Recipe &r) { static const int A[] = {1279, 17, 31, 55, 63, 127, 521, 521, 607, 607, 1279}, B[] = {17, 31, 55, 63, 127, 521, 521, 607, 607, 1279, 1279}; return r.type == 0 ? A[norm(r)] : r.type == 4 ? B[norm(r)] : 1; }
Recipe free_recipe(Rng &r) {
    Recipe q; q.type = (int)r.below(5); bool lag = q.type == 0 || q.type == 4; q.param = (int)r.below(R31_NP[q.type]);
    if (lag && r.chance(3, 4)) q.param = q.type == 0 ? (int)r.range(1, 5) : (int)r.below(5); // short registers are quicker
    if (r.chance(1, 12)) q.param = (int)pick(r, {-1, 11, 99});
    q.total = (int)pick(r, {1, 1, 2, 5, 64, 0}); q.gen = q.total > 1 ? (int)r.below(q.total) : 0;
    q.seed = r.chance(1, 2) ? (int)r.below(10) : (int)r.next(); return q;
}
u64 clean_from;
void null_stderr() { static FILE *f; static char b[4096]; if (!f) { f = fopen("/dev/null", "w"); setvbuf(f, b, _IOFBF, sizeof b); } stderr = f; }
int *const CNT[] = {&lfg_NGENS, &lcg_NGENS, &lcg64_NGENS, &cmrg_NGENS, &mlfg_NGENS};
void reset_globals() { if (&checklist[0]) memset(checklist, 0, 8 * 2 * sizeof(void *)); if (&defaultgen) defaultgen = nullptr; if (&lval) lval = 0; if (&kval) kval = 0; if (&gseed) gseed = 0; for (auto p : CNT) if (p) *p = 0; }
struct Run {
    const Case &c; std::vector<St> v; Verdict bad; bool faulty = false; int nroot = 0; int cnt[5] = {}; St simple; bool have_simple = false; u64 hs = 3;
    Run(const Case &x) : c(x) {}
    bool fail(const std::string &cls, const std::string &m) { if (bad.ok) bad = Verdict::bad(cls, m); return false; }
    std::vector<size_t> live() { std::vector<size_t> l; for (size_t i = 0; i < v.size(); ++i) if (v[i].live) l.push_back(i); return l; }
    bool value(St &s, int kind, double x) {
        s.log.push_back({kind, x}); hs = r31_mix(hs, x);
        if (kind == 0 ? x < 0 : x < 0 || x > 1 || (kind == 1 && x >= 1)) return fail("out-of-range", name(s) + fmt(": draw %zu gives %.17g", s.log.size(), x));
        return true;
    }
    bool chk() { return c.get("chk"); } // the interface that checks its pointers, as the library's macros use it
    static int *enrol(bool k, int *p) { return k ? addID(p) : p; }
    static int give_back(bool k, int *p) { return k && !deleteID(p) ? -7 : free_rng(p); }
    bool known(St &s) { // a live stream is recognised, nothing else is
        if (!chk()) return true;
        static int some[8]; int *q = s.p, *other = some, *bad1 = nullptr, *bad2 = nullptr; bool again = false; for (auto &x : v) again |= x.live && x.p == q;
        sim::run([&] { bad1 = checkID(q); bad2 = checkID(other); }); ++nchk;
        if (again && !bad1) return fail("unknown-stream", name(s) + ": the live stream is not recognised");
        if (!again && bad1) return fail("unknown-stream", name(s) + ": the freed stream is still recognised");
        return !bad2 ? true : fail("unknown-stream", "a pointer that never was a stream is recognised");
    }
    int nchk = 0;
    bool freed(St &s, int left) { // the library counts its streams
        s.live = false; int k = --cnt[s.r.type]; if (faulty || !CNT[s.r.type]) return true;
        return left == k ? true : fail("wrong-count", name(s) + fmt(": freeing reports %d streams left, there are %d", left, k));
    }
    void arm(i64 x) { // a failing allocation in the coming operation
        if (c.get("flt") && ((x >> 40) & 7) == 0) { sim::config().alloc_fail_at = (i64)(sim::alloc_count() + (u64)((x >> 43) & 7)); sim::config().alloc_fail_sticky = (x >> 46) & 1; }
    }
    void disarm() { sim::config().alloc_fail_at = -1; }
    i64 work = 0; // registers filled in the run and by the later comparison
    bool affords(i64 x) { if (work + x > 9000) return false; work += x; return true; }
    u64 af() { return sim::stats().fired[sim::F_ALLOC_FAIL]; }
    bool op(i64 x) {
        int o = (int)(x & 15); size_t sel = (x >> 4) & 255; i64 a = (x >> 12) & 0xffff; auto L = live(); u64 f0 = af();
        bool need = o != 0 && o < 8; if (need && L.empty()) return true;
        St *s = need ? &v[L[sel % L.size()]] : nullptr;
        if (o == 0) { // create
            if (L.size() >= 8) return true;
            Rng r((u64)a * 77 + sel); Recipe q = free_recipe(r); bool invalid = r.chance(1, 16); if (invalid) { if (r.chance(1, 2)) q.gen = r.chance(1, 2) ? -1 : std::max(q.total, 1); else q.type = (int)pick(r, {-1, 5, 77}); }
            if (!invalid && !affords(3 * reg_len(q))) return true; int *p = nullptr; bool k = chk(); arm(x); sim::run([&] { p = enrol(k, init_rng(q.type, q.gen, q.total, q.seed, q.param)); }); disarm();
            if (invalid) return p ? fail("accepted-invalid", fmt("type %d stream %d of %d was created", q.type, q.gen, q.total)) : true;
            if (!p) { if (af() > f0) { faulty = true; probe("creation failed"); return true; } St t; t.r = q; return fail("refused", name(t)); }
            St t; t.p = p; t.r = q; t.root = nroot++; ++cnt[q.type]; v.push_back(t); probe(TN[q.type]); if (af() > f0) faulty = true; return true;
        }
        if (o <= 2) { // draw
            int kind = (int)(a % 3), n = 1 + (int)(a / 3 % 20); double out[32]; Draw d{s->p, kind, n, out}; if (!known(*s)) return false;
            sim::run([&] { for (int i = 0; i < d.n; ++i) d.out[i] = d.kind == 0 ? (double)get_rn_int(d.s) : d.kind == 1 ? get_rn_dbl(d.s) : (double)get_rn_flt(d.s); });
            for (int i = 0; i < n; ++i) if (!value(*s, kind, out[i])) return false;
            return true;
        }
        if (o == 3) { // spawn
            if (s->tainted || s->spawned.size() > 3 || s->path.size() > 3 || L.size() > 8) return true;
            int n = (int)(a % 5), want = n < 1 ? 1 : n, got = -1, **kid = nullptr; i64 span = (i64)std::max(1, s->r.total) * (want + 1), made = 1 + want; for (int b : s->spawned) made += b, span *= b + 1; for (auto &y : s->path) { made += y.n; span *= y.n + 1; for (int b : y.before) made += b, span *= b + 1; }
            if (s->r.type >= 1 && s->r.type <= 3 && span > 1100) return true; // their streams are told apart by primes, costly to find beyond the table
            if (!affords((want + 2 * want * made) * reg_len(s->r))) return true; int k = chk(); arm(x); sim::run([&] { got = spawn_rng(s->p, n, &kid, k); }); disarm();
            bool f = af() > f0, lag = s->r.type == 0 || s->r.type == 4; if (f) faulty = true;
            if (got != want) { if (!f || got < 0 || got > want) return fail("refused", name(*s) + fmt(": spawning %d streams gives %d", n, got)); s->tainted = lag || got == 0; /* else: it goes on as if all had been made */ probe(s->tainted ? "spawning failed" : "spawned fewer than asked"); }
            if (got && !kid) return fail("refused", name(*s) + ": spawned streams are missing");
            St par = *s; s->spawned.push_back(want); ++nspawn;
            for (int i = 0; i < got; ++i) { St t; t.p = kid[i]; t.r = par.r; t.path = par.path; t.path.push_back({par.spawned, want, i}); t.root = par.root; t.copy = par.copy; t.tainted = f && lag; ++cnt[t.r.type]; v.push_back(t); }
            if (kid) sim::run([&] { free(kid); });
            return true;
        }
        if (o <= 5) { // pack and unpack: a second stream that goes on alike; o == 5: the first one is freed
            if (o == 4 && L.size() >= 8) return true;
            i64 made = 1; for (auto &y : s->path) { made += y.n; for (int b : y.before) made += b; } if (!affords(2 * made * reg_len(s->r))) return true;
            char *buf = nullptr; int sz = 0, left = 0; int *q = nullptr; arm(x);
            bool k = chk(); sim::run([&] { sz = pack_rng(s->p, &buf); if (o == 5 && sz > 0) left = give_back(k, s->p); if (sz > 0) q = enrol(k, unpack_rng(buf)); if (buf) free(buf); }); disarm();
            bool f = af() > f0; if (f) faulty = true;
            if (sz <= 0 && f) { probe("packing failed"); return true; }
            if (sz <= 0 || sz > 24000) return fail("refused", name(*s) + fmt(": packed size %d", sz));
            St t = *s; if (o == 5 && !freed(*s, left)) return false;
            if (!q) { if (f) { probe("unpacking failed"); return true; } return fail("refused", name(t) + ": unpacking fails"); }
            t.p = q; t.live = true; t.copy = true; t.root = nroot++; /* a copy gives the same children once more */ ++cnt[t.r.type]; v.push_back(t); ++npack; return true;
        }
        if (o == 6) { // free
            if (L.size() < 2) return true;
            int left = 0; bool k = chk(); sim::run([&] { left = give_back(k, s->p); }); return freed(*s, left) && known(*s);
        }
        if (o == 7) { // ask for the seed; unpack a damaged description
            int sd = 0; sim::run([&] { sd = get_seed_rng(s->p); }); if (sd != (s->r.seed & 0x7fffffff)) return fail("wrong-seed", name(*s) + fmt(": reported seed %d", sd));
            char *buf = nullptr; int *q = nullptr, sz = 0; unsigned at = (unsigned)(a % 24);
            sim::run([&] { sz = pack_rng(s->p, &buf); if (sz > 24) { buf[at] ^= (char)(1 + (a >> 5) % 127); q = unpack_rng(buf); } if (buf) free(buf); });
            if (q) return fail("accepted-invalid", name(*s) + fmt(": a packed stream with a damaged byte %u was accepted", at));
            damaged = true; return true;
        }
        if (o == 8) { // several streams at once
            if (L.size() < 2) return true;
            size_t k = std::min<size_t>(L.size(), 4); std::vector<Draw> d; std::vector<double> out(k * 32);
            for (size_t i = 0; i < k; ++i) d.push_back({v[L[(sel + i) % L.size()]].p, (int)((a + i) % 3), 1 + (int)((a >> 2) + i) % 25, &out[i * 32]});
            auto f = get_fn<void (*)(Draw *, int)>("streams"); if (!f) return fail("harness", "streams missing");
            Draw *dp = d.data(); sim::run([&] { f(dp, (int)k); }); ++npar;
            for (size_t i = 0; i < k; ++i) for (int j = 0; j < d[i].n; ++j) if (!value(v[L[(sel + i) % L.size()]], d[i].kind, out[i * 32 + j])) return false;
            return true;
        }
        // the interface with one unnamed stream
        if (o == 9) {
            Rng r((u64)a * 91 + sel); Recipe q = free_recipe(r); q.gen = 0; q.total = 1; if (!affords(3 * reg_len(q))) return true; int *p = nullptr; arm(x); sim::run([&] { p = init_rng_simple(q.type, q.seed, q.param); }); disarm();
            if (!p) { if (af() > f0) { faulty = true; return true; } St t; t.r = q; return fail("refused", name(t) + " (simple interface)"); }
            if (have_simple) --cnt[simple.r.type];
            if (af() > f0) faulty = true; simple = St(); simple.r = q; have_simple = true; ++cnt[q.type]; return true;
        }
        if (o == 10) {
            if (!have_simple) { if (&defaultgen == nullptr) return true; simple = St(); simple.r = Recipe{0, 0, 0, 1, 0}; have_simple = true; ++cnt[0]; }
            int kind = (int)(a % 3), n = 1 + (int)(a / 3 % 20); double out[32];
            sim::run([&] { for (int i = 0; i < n; ++i) out[i] = kind == 0 ? (double)get_rn_int_simple() : kind == 1 ? get_rn_dbl_simple() : (double)get_rn_flt_simple(); });
            for (int i = 0; i < n; ++i) if (!value(simple, kind, out[i])) return false;
            return true;
        }
        if (o == 11 && have_simple) {
            char *buf = nullptr; int sz = 0, *q = nullptr; sim::run([&] { sz = pack_rng_simple(&buf); if (sz > 0) q = unpack_rng_simple(buf); if (buf) free(buf); });
            if (!q) return fail("refused", name(simple) + ": packing and unpacking fails (simple interface)");
        }
        return true;
    }
    int nspawn = 0, npack = 0, npar = 0; bool damaged = false;
    // the same stream on its own, without the rest of the history
    bool replay(const St &s, std::vector<double> &first) {
        std::vector<double> got(s.log.size()), f8(8); double *g = got.data(), *e = f8.data(); bool ok = true; size_t nl = s.log.size(); std::vector<int> kinds; for (auto &x : s.log) kinds.push_back(x.first); int *kd = kinds.data();
        struct Lv { const int *b; size_t nb; int n, idx; }; std::vector<Lv> lv; for (auto &x : s.path) lv.push_back({x.before.data(), x.before.size(), x.n, x.idx}); Lv *lp = lv.data(); size_t nlv = lv.size(); Recipe r = s.r;
        for (int pass = 0; pass < 2; ++pass) sim::run([&] {
            int *p = init_rng(r.type, r.gen, r.total, r.seed, r.param), **kid; if (!p) { ok = false; return; }
            for (size_t l = 0; l < nlv && ok; ++l) {
                for (size_t b = 0; b < lp[l].nb; ++b) { kid = nullptr; if (spawn_rng(p, lp[l].b[b], &kid, 0) != lp[l].b[b]) { ok = false; return; } for (int i = 0; i < lp[l].b[b]; ++i) free_rng(kid[i]); free(kid); }
                kid = nullptr; if (spawn_rng(p, lp[l].n, &kid, 0) != lp[l].n) { ok = false; return; }
                free_rng(p); p = kid[lp[l].idx]; for (int i = 0; i < lp[l].n; ++i) if (i != lp[l].idx) free_rng(kid[i]);
                free(kid);
            }
            if (!pass) for (size_t i = 0; i < nl; ++i) g[i] = kd[i] == 0 ? (double)get_rn_int(p) : kd[i] == 1 ? get_rn_dbl(p) : (double)get_rn_flt(p);
            else for (int i = 0; i < 8; ++i) e[i] = get_rn_int(p);
            free_rng(p);
        });
        if (!ok) return fail("refused", name(s) + ": cannot be made a second time");
        for (size_t i = 0; i < nl; ++i) if (got[i] != s.log[i].second) return fail("not-repeatable", name(s) + fmt(": draw %zu of %zu (%s) was %.17g in the history and is %.17g for the stream alone", i, nl, kinds[i] == 0 ? "int" : kinds[i] == 1 ? "double" : "float", s.log[i].second, got[i]));
        first = f8; return true;
    }
};
Verdict exec31(const Case &c) {
    static bool warm; if (!warm) { warm = true; int a; unsigned b; if (getprime_32) getprime_32(1, &a, 1500); if (getprime_64) getprime_64(1, &b, 1500); } // tables built on first use
    static FILE *err = stderr; null_stderr(); struct Back { ~Back() { stderr = err; } } back;
    Run R(c); reset_globals(); start(c); u64 mark = sim::heap_mark();
    for (i64 x : c.l[0]) if (!R.op(x)) break;
    if (!R.bad.ok) return R.bad;
    if (c.get("gold") >= 0) { // a stream whose values are known, next to the others
        double out[200]; int n = -9; Recipe q = recipe31((int)c.get("gold")); St t; t.r = q; sim::run([&] { n = golden_program(q, out); });
        u64 hh = 1; for (int i = 0; i < n; ++i) hh = r31_mix(hh, out[i]);
        if (n < 0 || hh != GOLDEN31[c.get("gold")]) return Verdict::bad("wrong-stream", name(t) + fmt(": the %d values drawn from it and its children are not the known ones", n)); probe("streams with known values");
    }
    // everything is given back
    for (auto &s : R.v) if (s.live) { int left = 0; bool k = R.chk(); sim::run([&] { left = Run::give_back(k, s.p); }); if (!R.freed(s, left)) return R.bad; }
    if (&defaultgen && defaultgen) { sim::run([&] { free_rng(defaultgen); }); }
    if (!R.faulty && !R.damaged) for (auto &b : sim::live_since(mark)) return Verdict::bad("leak", fmt("a block of %zu bytes is left after all streams were freed", b.n));
    sim::config().fill_mode = (int)c.get("fill2");
    std::map<std::string, std::map<std::string, std::vector<double>>> fam; int checked = 0;
    if (R.have_simple) R.v.push_back(R.simple);
    for (auto &s : R.v) {
        if (s.log.empty() && s.path.empty()) continue;
        std::vector<double> f; reset_globals(); if (!R.replay(s, f)) return R.bad; ++checked;
        if (s.r.total < 1) continue;
        std::string key = fmt("%d %d %d %d", s.r.type, norm(s.r), s.r.seed & 0x7fffffff, s.r.total), id = fmt("%d", s.r.gen); for (auto &x : s.path) { id += ":"; for (int b : x.before) id += fmt(" %d", b); id += fmt(" %d/%d", x.idx, x.n); }
        auto &m = fam[key]; // streams of one family that came from the same stream's history
        if (s.root >= 0) m[fmt("%d|", s.root) + id] = f;
    }
    reset_globals();
    for (auto &k : fam) { std::map<std::vector<double>, std::string> seen; for (auto &x : k.second) { std::string root = x.first.substr(0, x.first.find('|')); auto y = x.second; y.push_back(atof(root.c_str())); auto in = seen.insert({y, x.first}); if (!in.second) return Verdict::bad("same-stream", "two streams spawned from one (family " + k.first + ", " + in.first->second + " and " + x.first + ") give the same values"); } }
    nontrivial(R.v.size() > 1 && (R.nspawn || R.npack || R.npar || c.get("gold") >= 0)); probe("streams compared with themselves alone", checked); if (R.nspawn) probe("spawned"); if (R.npack) probe("packed"); if (R.npar) probe("drawn concurrently", R.npar); if (R.have_simple) probe("simple interface"); if (R.nchk) probe("stream pointers checked", R.nchk);
    Verdict v; v.hash = R.hs; return v;
}
Module m31() {
    Module m; m.id = "C31"; m.exec = exec31; m.valid = [](const Case &c) { return !c.l.empty() && c.get("gold") < R31_N; };
    m.real = "GTgraph/sprng2.0-lite of /repo (LFG, LCG, LCG64, CMRG and MLFG generators, prime tables, packing, common and simple interfaces) with instrumented memory accesses";
    m.stub = "threads (simulated pthreads), heap allocator (with failing allocations)";
    m.assumptions = {"sampled search: up to nine streams at a time, histories up to 40 operations", "creation and spawning are not run concurrently (the library keeps counters and tables without locks); drawing from distinct streams is", "the Fortran wrappers and the MPI variant are not run"};
    m.rule = "Each run performs a drawn history on random streams of all five generators and all parameters (create, draw integers, doubles and floats, spawn, pack and unpack, free, concurrent draws from distinct streams under a seeded schedule, the simple interface, the interface that checks stream pointers, invalid requests, damaged descriptions, failing allocations). Every value a stream gave must be the one the same stream gives when it is made and used alone, under other heap contents; the values of 1776 fixed streams (with children and grandchildren) equal recorded ones, themselves verified against the sequences the authors published; values lie in range; the counts of streams are right; streams spawned from one differ; nothing is left allocated. Non-trivial: at least two streams and a spawn, a pack, a concurrent draw or a known stream.";
    m.site = [](const Case &, const Verdict &v) { return v.cls; };
    m.params = {{"gold", -1}};
    m.gen = [](Rng &r, Case &c, bool thorough, u64) {
        gen_sched(r, c); c.p["flt"] = r.chance(1, 4); c.p["fill2"] = pick(r, {0, 1, 2, 3}); c.p["chk"] = r.chance(1, 3);
        i64 g = -1; if (r.chance(1, 2)) { g = (i64)(r.chance(3, 4) ? r.below(R31_LIGHT) : R31_LIGHT + r.below(R31_N - R31_LIGHT)); if (recipe31((int)g).gen > 100 && !r.chance(1, 8)) g %= 13 * 16 * 5; } c.p["gold"] = g;
        int n = (int)r.range(1, thorough ? 40 : 22); c.l.assign(1, {}); int W[12], tot = 0; static const int B[12] = {6, 4, 4, 4, 3, 2, 2, 1, 3, 1, 2, 1};
        bool spawny = c.get("flt") && r.chance(1, 3);
        for (int i = 0; i < 12; ++i) tot += W[i] = spawny ? (i == 3 ? 12 : i < 3 ? 3 : i == 6 ? 2 : 0) : r.chance(1, 4) && i ? 0 : B[i];
        u64 seedbase = r.next() & 0xffff; bool family = r.chance(1, 2); // streams of one family
        for (int i = 0; i < n; ++i) { int k = (int)r.below(tot), o = 0; while (k >= W[o]) k -= W[o++]; if (!i) o = 0; u64 a = r.next() & 0xffff, sel = r.next() & 255, hi = r.next() & 0x7f; if (o == 3 && c.get("flt") && r.chance(1, 2)) hi &= 0x38; /* spawning that fails half-way */ if (o == 0 && family) { a = seedbase; sel = (seedbase >> 3) & 255; } c.l[0].push_back((i64)((u64)o | sel << 4 | a << 12 | hi << 40)); }
    };
    return m;
}
AddModule a31(m31());
}
}
