#include "h.h"
#include "reg.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <ctime>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <locale>
#include <unordered_set>
#include <set>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <cerrno>
#include <cstddef>
#include <sys/resource.h>

namespace h {
bool verbose = false;
std::string fmt(const char *f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
// ------------------------------------------------------------ case text
std::string to_text(const Case &c) {
    std::ostringstream o;
    o << "prop " << c.prop << "\n";
    for (auto &k : c.s) o << "s " << k.first << " " << k.second << "\n";
    for (auto &k : c.p) o << "p " << k.first << " " << k.second << "\n";
    for (auto &m : c.m) { o << "m " << m.rows << " " << m.cols << " " << m.e.size() << "\n"; for (auto &e : m.e) o << e[0] << " " << e[1] << " " << e[2] << "\n"; }
    for (auto &l : c.l) { o << "l " << l.size(); for (i64 x : l) o << " " << x; o << "\n"; }
    o << "end\n";
    return o.str();
}
bool from_text(const std::string &t, Case &c) {
    std::istringstream in(t); std::string k;
    while (in >> k) {
        if (k[0] == '#') { std::string r; std::getline(in, r); }
        else if (k == "prop") in >> c.prop;
        else if (k == "s") { std::string a, b; in >> a; std::getline(in, b); c.s[a] = b.size() ? b.substr(1) : b; }
        else if (k == "p") { std::string a; i64 v; in >> a >> v; c.p[a] = v; }
        else if (k == "m") { Mat m; size_t n; in >> m.rows >> m.cols >> n; m.e.resize(n); for (auto &e : m.e) in >> e[0] >> e[1] >> e[2]; c.m.push_back(m); }
        else if (k == "l") { size_t n; in >> n; std::vector<i64> l(n); for (auto &x : l) in >> x; c.l.push_back(l); }
        else if (k == "end") return true;
        else { std::string r; std::getline(in, r); }
    }
    return !c.prop.empty();
}
u64 content_hash(const Case &c) {
    u64 x = 5;
    for (auto &k : c.s) { for (char ch : k.second) x = mix(x, ch); }
    for (auto &k : c.p) if (k.first.compare(0, 2, "s_") && k.first.compare(0, 2, "f_")) x = mix(x, mix(std::hash<std::string>()(k.first), k.second));
    for (auto &m : c.m) { x = mix(x, m.rows * 1000003 + m.cols); for (auto &e : m.e) x = mix(x, mix(e[0] * 1000003 + e[1], e[2])); }
    for (auto &l : c.l) { x = mix(x, l.size()); for (i64 v : l) x = mix(x, v); }
    return x;
}
static std::vector<Module> &mods() { static std::vector<Module> m; return m; }
void add_module(const Module &m) { mods().push_back(m); }
static const Module *find(const std::string &id) { for (auto &m : mods()) if (m.id == id) return &m; return nullptr; }

// ------------------------------------------------------------ schedule parameters
void gen_sched(Rng &r, Case &c) {
    static const int W[] = {35, 20, 10, 10, 20, 5};
    int x = (int)r.below(100), k = 0; while (x >= W[k]) x -= W[k++];
    static const int P[] = {2, 5, 12, 40, 150, 800};
    c.p["s_seed"] = (i64)(r.next() >> 2); c.p["s_strat"] = k; c.p["s_period"] = P[r.below(6)];
    c.p["s_depth"] = 1 + (i64)r.below(6); c.p["s_span"] = (i64)1 << (6 + r.below(12)); c.p["s_victim"] = (i64)r.below(9);
    c.p["s_env"] = (i64)(r.next() >> 2);
    static const int F[] = {0, 0, 0, 0, 1, 2, 3, 4};
    c.p["s_fill"] = F[r.below(8)];
    if (!c.p.count("s_icv")) { static const int I[] = {1, 2, 3, 4, 5, 8}; c.p["s_icv"] = I[r.below(6)]; }
}
void set_fault(Case &c, int kind, int per1024) { c.p[std::string("f_") + sim::fault_names[kind]] = per1024; }
sim::Config config_of(const Case &c) {
    sim::Config g;
    g.seed = c.get("s_seed", 1); g.strategy = (int)c.get("s_strat", 0); g.period = (unsigned)c.get("s_period", 12);
    g.pct_depth = (int)c.get("s_depth", 3); g.pct_span = c.get("s_span", 4096); g.victim = (int)c.get("s_victim", 0);
    g.env_seed = c.get("s_env", 1); g.fill_mode = (int)c.get("s_fill", 0); g.icv_threads = (int)c.get("s_icv", 4);
    g.nested_levels = (int)c.get("s_nested", 1); g.step_budget = c.get("s_budget", 60000000);
    g.alloc_fail_at = c.get("s_afail", -1); g.alloc_fail_sticky = c.get("s_asticky", 0);
    for (int k = 0; k < sim::F_NKINDS; ++k) g.prob[k] = (unsigned)c.get(std::string("f_") + sim::fault_names[k], 0);
    if (c.get("s_replay", 0)) { // last two lists: schedule trace and faults
        g.replay = true; g.fault_list = true;
        const auto &t = c.l[c.l.size() - 2], &f = c.l[c.l.size() - 1];
        for (size_t i = 0; i + 1 < t.size(); i += 2) g.trace.push_back({(u64)t[i], (int)t[i + 1]});
        for (size_t i = 0; i + 1 < f.size(); i += 2) g.faults.push_back({(int)f[i], (u64)f[i + 1]});
    }
    return g;
}
void start(const Case &c) { sim::configure(config_of(c)); }

// ------------------------------------------------------------ result slot
enum { R_NONE, R_HELD, R_TOLERATED, R_BAD, R_ERR };
static const size_t MAXT = 1 << 19, MAXF = 4096;
struct Slot {
    int state; char cls[48]; char msg[1200]; u64 hash, outc; int nontriv; sim::Stats st; u64 wall_us;
    struct { char name[40]; u64 n; } probe[48];
    u64 ntrace, nfault; sim::FaultEvent faults[MAXF]; sim::Switch trace[MAXT];
};
static Slot *slot; static const Module *cur_mod; static const Case *cur_case;
void nontrivial(bool b) { slot->nontriv |= b; }
void probe(const char *name, u64 n) {
    if (!n) return;
    for (auto &p : slot->probe) { if (!p.name[0]) { strncpy(p.name, name, sizeof p.name - 1); } if (!strcmp(p.name, name)) { p.n += n; return; } }
}
void outcome(u64 x) { slot->outc = mix(slot->outc, x); }
static void finish(int state, const char *cls, const char *msg, u64 hash) {
    slot->st = sim::stats();
    auto &t = sim::recorded(); slot->ntrace = std::min(t.size(), MAXT); memcpy(slot->trace, t.data(), slot->ntrace * sizeof(sim::Switch));
    auto &f = sim::recorded_faults(); slot->nfault = std::min(f.size(), MAXF); memcpy(slot->faults, f.data(), slot->nfault * sizeof(sim::FaultEvent));
    strncpy(slot->cls, cls, sizeof slot->cls - 1); strncpy(slot->msg, msg, sizeof slot->msg - 1);
    for (char *q = slot->msg; *q; ++q) if (*q == '\n' || *q == '\r') *q = ' ';
    u64 hs = mix(hash, slot->outc); hs = mix(hs, slot->st.sched_hash); hs = mix(hs, slot->st.steps); hs = mix(hs, slot->st.sync_hash);
    for (const char *q = slot->cls; *q; ++q) hs = mix(hs, *q);
    for (const char *q = slot->msg; *q; ++q) hs = mix(hs, *q);
    slot->hash = hs; slot->state = state;
    _exit(0);
}
static void on_fail(const char *cls, const char *msg) {
    if (!strcmp(cls, "harness")) finish(R_ERR, cls, msg, 0);
    bool t = cur_mod->tolerate && cur_mod->tolerate(*cur_case, cls, msg);
    finish(t ? R_TOLERATED : R_BAD, cls, msg, 1);
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void run_child(const Module &m, const Case &c, int wall, bool quiet = true) {
    memset((void *)slot, 0, offsetof(Slot, faults));
    fflush(stdout);
    double t0 = now();
    pid_t pid = fork();
    if (pid < 0) { slot->state = R_ERR; strcpy(slot->cls, "fork"); return; }
    if (!pid) {
        cur_mod = &m; cur_case = &c;
        if (quiet && !verbose) { int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2); close(n); }
        sim::set_fail_handler(on_fail);
        struct itimerval iv{}; iv.it_value.tv_sec = wall; setitimer(ITIMER_REAL, &iv, nullptr);
        Verdict v;
        try { v = m.exec(c); } catch (std::exception &e) { finish(R_ERR, "harness-exception", e.what(), 0); }
        catch (...) { finish(R_ERR, "harness-exception", "?", 0); }
        finish(v.ok ? R_HELD : R_BAD, v.cls.c_str(), v.msg.c_str(), v.hash);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    slot->wall_us = (u64)((now() - t0) * 1e6);
    if (slot->state == R_NONE) {
        slot->state = R_ERR; strcpy(slot->cls, "child-died");
        snprintf(slot->msg, sizeof slot->msg, "status %x", st);
    }
}
struct Res { int state; std::string cls, msg; u64 hash; u64 ntrace, nfault; };
static Res res() { return {slot->state, slot->cls, slot->msg, slot->hash, slot->ntrace, slot->nfault}; }
static Res test(const Module &m, const Case &c, int wall = 150) { run_child(m, c, wall); return res(); }

// ------------------------------------------------------------ minimisation
static Case with_trace(const Case &c) { // freeze the schedule of the run that just ended
    Case d = c; d.p["s_replay"] = 1;
    std::vector<i64> t, f;
    for (u64 i = 0; i < slot->ntrace; ++i) { t.push_back((i64)slot->trace[i].step); t.push_back(slot->trace[i].to); }
    for (u64 i = 0; i < slot->nfault; ++i) { f.push_back(slot->faults[i].kind); f.push_back((i64)slot->faults[i].idx); }
    d.l.push_back(t); d.l.push_back(f);
    return d;
}
struct Minimiser {
    const Module &m; Case best; std::string cls; double deadline; long tests = 0;
    bool try_(const Case &c) {
        if (now() > deadline) return false;
        if (m.valid && !m.valid(c)) return false;
        ++tests;
        Res r = test(m, c, 30);
        if (r.state == R_BAD && r.cls == cls) { best = c; return true; }
        return false;
    }
    // remove chunks of a vector inside the case
    template <class V> void ddmin(std::function<V &(Case &)> get, size_t group) {
        size_t n = get(best).size() / group; size_t chunk = std::max<size_t>(1, n / 2);
        while (n && now() < deadline) {
            bool any = false;
            for (size_t at = 0; at < get(best).size() / group && now() < deadline;) {
                Case c = best; V &v = get(c); size_t k = std::min(chunk, v.size() / group - at);
                v.erase(v.begin() + at * group, v.begin() + (at + k) * group);
                if (try_(c)) any = true; else at += k;
            }
            if (chunk == 1) { if (!any) break; } else chunk = std::max<size_t>(1, chunk / 2);
            n = get(best).size() / group;
        }
    }
    void shrink_case() {
        for (int round = 0; round < 3 && now() < deadline; ++round) {
            std::string before = to_text(best);
            for (size_t k = 0; k < best.m.size(); ++k) {
                ddmin<std::vector<std::array<i64, 3>>>([k](Case &c) -> std::vector<std::array<i64, 3>> & { return c.m[k].e; }, 1);
            }
            if (m.shrink_lists) for (size_t k = 0; k < best.l.size(); ++k) ddmin<std::vector<i64>>([k](Case &c) -> std::vector<i64> & { return c.l[k]; }, 1);
            for (auto &sp : m.params) {
                if (!best.p.count(sp.name)) continue;
                while (best.get(sp.name) > sp.min) {
                    i64 cur = best.get(sp.name); bool ok = false;
                    for (i64 v : {sp.min, (cur + sp.min) / 2, cur - 1}) { if (v >= cur || v < sp.min) continue; Case c = best; c.p[sp.name] = v; if (try_(c)) { ok = true; break; } }
                    if (!ok) break;
                }
            }
            for (size_t k = 0; k < best.m.size(); ++k) for (auto &e : std::vector<std::array<i64, 3>>(best.m[k].e)) { // simpler values
                if (e[2] == 1 || now() > deadline || best.m[k].e.size() > 40) continue;
                Case c = best; for (auto &q : c.m[k].e) if (q[0] == e[0] && q[1] == e[1]) q[2] = 1; try_(c);
            }
            if (to_text(best) == before) break;
        }
    }
    void run() {
        Case c = best;
        shrink_case();
        for (int s : {(int)sim::S_BLOCKONLY, (int)sim::S_RANDOM}) { // simpler strategy
            if (best.get("s_strat") == s) continue;
            Case d = best; d.p["s_strat"] = s; if (s == sim::S_RANDOM) d.p["s_period"] = 800;
            if (try_(d)) break;
        }
        Res r = test(m, best);
        if (r.state != R_BAD || slot->ntrace >= MAXT || slot->nfault >= MAXF) return;
        Case t = with_trace(best);
        Res q = test(m, t);
        if (q.state != R_BAD || q.cls != cls) return; // cannot freeze: keep the seed form
        best = t;
        ddmin<std::vector<i64>>([](Case &c) -> std::vector<i64> & { return c.l[c.l.size() - 1]; }, 2);
        { Case z = best; z.l[z.l.size() - 2].clear(); if (!try_(z)) ddmin<std::vector<i64>>([](Case &c) -> std::vector<i64> & { return c.l[c.l.size() - 2]; }, 2); }
    }
};

// ------------------------------------------------------------ search
struct Agg {
    u64 runs, tolerated, nontriv, steps, switches, preempt, regions, barriers, atomics, locks, chunks, allocs, conflicts, vtime, max_team, max_fibers, errs, known;
    u64 fired[sim::F_NKINDS], fault_runs[sim::F_NKINDS], strat[sim::S_NKINDS];
    struct { char name[40]; u64 n; } probe[48];
    struct { char name[48]; u64 n; } tol[16];
    u64 nhash; u64 hashes[1 << 18]; u64 nsched; u64 sched[1 << 18]; u64 nsync; u64 sync[1 << 18];
    // violation
    int found; u64 found_index; char err[1300];
    struct { char key[200]; char msg[300]; u64 n; u64 index; } kn[64];
};
struct Shared { volatile int stop; volatile u64 best_index; };
static std::vector<std::string> load_known(const std::string &file, const std::string &prop) {
    std::vector<std::string> r; std::ifstream in(file); std::string l;
    while (std::getline(in, l)) { // known: property=C07 site=<key>  -- text
        if (l.compare(0, 6, "known:")) continue;
        if (l.find("property=" + prop + " ") == std::string::npos) continue;
        size_t a = l.find("site="); if (a == std::string::npos) continue;
        size_t b = l.find(" -- ", a); r.push_back(l.substr(a + 5, b == std::string::npos ? b : b - a - 5));
    }
    return r;
}
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32) o += ' '; else o += (char)c; } return o; }
static void gen_case(const Module &m, u64 seed, u64 index, bool thorough, Case &c) {
    Rng r(mix(mix(seed, index), 0xCA5E)); c.prop = m.id; m.gen(r, c, thorough, index);
}
static std::string site_of(const Module &m, const Case &c, const std::string &cls, const std::string &msg) {
    Verdict v = Verdict::bad(cls, msg); return m.site ? m.site(c, v) : cls;
}
static int do_run(const std::string &prop, u64 seed, bool thorough, int jobs, double tlimit, u64 maxruns, const std::string &evid, const std::string &knownf, const std::string &rdir) {
    const Module *m = find(prop); if (!m) { fprintf(stderr, "no module %s\n", prop.c_str()); return 2; }
    auto known = load_known(knownf, prop);
    double t0 = now();
    Shared *sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->best_index = ~0ull;
    std::vector<Agg *> agg;
    std::vector<pid_t> pids;
    for (int w = 0; w < jobs; ++w) {
        Agg *a = (Agg *)mmap(nullptr, sizeof(Agg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        agg.push_back(a);
        pid_t p = fork();
        if (!p) {
            slot = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            for (u64 i = w; i < maxruns; i += jobs) {
                if (sh->stop || now() - t0 > tlimit) break;
                Case c; gen_case(*m, seed, i, thorough, c);
                run_child(*m, c, 150);
                Slot *s = slot;
                if (s->state == R_BAD && !strcmp(s->cls, "hang")) { // slow or stuck? only a run that also exceeds a much larger budget counts
                    Case big = c; big.p["s_budget"] = std::max<i64>(600000000, 3 * c.get("s_budget", 60000000)); run_child(*m, big, 300);
                    if (s->state == R_BAD) run_child(*m, c, 150);
                }
                a->runs++; a->steps += s->st.steps; a->switches += s->st.switches; a->preempt += s->st.preemptions; a->regions += s->st.regions; a->barriers += s->st.barriers;
                a->atomics += s->st.atomics; a->locks += s->st.locks; a->chunks += s->st.chunks; a->allocs += s->st.allocs; a->conflicts += s->st.conflicts; a->vtime += s->st.vtime_us;
                a->max_team = std::max(a->max_team, s->st.max_team); a->max_fibers = std::max(a->max_fibers, s->st.max_fibers);
                for (int k = 0; k < sim::F_NKINDS; ++k) { a->fired[k] += s->st.fired[k]; a->fault_runs[k] += s->st.fired[k] > 0; }
                a->strat[c.get("s_strat") % sim::S_NKINDS]++;
                for (auto &p : s->probe) if (p.name[0]) for (auto &q : a->probe) { if (!q.name[0]) strcpy(q.name, p.name); if (!strcmp(q.name, p.name)) { q.n += p.n; break; } }
                if (s->state == R_TOLERATED) { a->tolerated++; for (auto &q : a->tol) { if (!q.name[0]) strcpy(q.name, s->cls); if (!strcmp(q.name, s->cls)) { q.n++; break; } } }
                if (s->nontriv) { a->nontriv++; if (a->nhash < (1 << 18)) a->hashes[a->nhash++] = mix(content_hash(c), s->st.sync_hash); }
                if (a->nsched < (1 << 18)) a->sched[a->nsched++] = s->st.sched_hash;
                if (a->nsync < (1 << 18)) a->sync[a->nsync++] = s->st.sync_hash;
                if (s->state == R_ERR) { a->errs++; snprintf(a->err, sizeof a->err, "run %llu: %s: %s", (unsigned long long)i, s->cls, s->msg); sh->stop = 1; break; }
                if (s->state == R_BAD) {
                    std::string key = site_of(*m, c, s->cls, s->msg); bool isk = false;
                    for (auto &k : known) if (k == key) isk = true;
                    if (isk) { a->known++; for (auto &q : a->kn) { if (!q.key[0]) { strncpy(q.key, key.c_str(), 199); strncpy(q.msg, s->msg, 299); q.index = i; } if (key.substr(0, 199) == q.key) { q.n++; break; } } continue; }
                    a->found = 1; a->found_index = i; sh->stop = 1; break;
                }
            }
            _exit(0);
        }
        pids.push_back(p);
    }
    std::string wdied;
    for (pid_t p : pids) {
        int st = 0; pid_t r; while ((r = waitpid(p, &st, 0)) < 0 && errno == EINTR) {}
        if (r < 0 || !WIFEXITED(st) || WEXITSTATUS(st)) wdied = "a search worker died, status " + std::to_string(st);
    }
    slot = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    double search_s = now() - t0;
    // merge
    static Agg T; std::unordered_set<u64> H, S, Y; std::map<std::string, u64> pr, tol; std::map<std::string, std::pair<std::string, u64>> kn; std::map<std::string, u64> knidx;
    std::vector<u64> found; std::string err;
    for (Agg *a : agg) {
        T.runs += a->runs; T.tolerated += a->tolerated; T.nontriv += a->nontriv; T.steps += a->steps; T.switches += a->switches; T.preempt += a->preempt; T.regions += a->regions; T.barriers += a->barriers;
        T.atomics += a->atomics; T.locks += a->locks; T.chunks += a->chunks; T.allocs += a->allocs; T.conflicts += a->conflicts; T.vtime += a->vtime; T.max_team = std::max(T.max_team, a->max_team); T.max_fibers = std::max(T.max_fibers, a->max_fibers); T.known += a->known;
        for (int k = 0; k < sim::F_NKINDS; ++k) { T.fired[k] += a->fired[k]; T.fault_runs[k] += a->fault_runs[k]; }
        for (int k = 0; k < sim::S_NKINDS; ++k) T.strat[k] += a->strat[k];
        for (auto &p : a->probe) if (p.name[0]) pr[p.name] += p.n;
        for (auto &p : a->tol) if (p.name[0]) tol[p.name] += p.n;
        for (auto &q : a->kn) if (q.key[0]) { auto &e = kn[q.key]; e.first = q.msg; e.second += q.n; }
        for (u64 i = 0; i < a->nhash; ++i) H.insert(a->hashes[i]);
        for (u64 i = 0; i < a->nsched; ++i) S.insert(a->sched[i]);
        for (u64 i = 0; i < a->nsync; ++i) Y.insert(a->sync[i]);
        if (a->found) found.push_back(a->found_index);
        if (a->errs) err = a->err;
    }
    if (err.empty()) err = wdied;
    if (err.empty() && !T.runs) err = "no run was made";
    int rc = 0; std::string viol, replay; int violations = 0;
    if (!err.empty() && found.empty()) { fprintf(stderr, "harness error: %s\n", err.c_str()); rc = 2; }
    std::sort(found.begin(), found.end());
    for (u64 idx : found) {
        Case c; gen_case(*m, seed, idx, thorough, c);
        Res a = test(*m, c), b = test(*m, c);
        if (a.state != R_BAD || b.state != R_BAD || a.hash != b.hash) {
            fprintf(stderr, "harness error: run %llu does not repeat (%d %s %s / %d %s %s)\n", (unsigned long long)idx, a.state, a.cls.c_str(), a.msg.c_str(), b.state, b.cls.c_str(), b.msg.c_str());
            if (!rc) rc = 2; continue;
        }
        Minimiser mm{*m, c, a.cls, now() + (thorough ? 180 : 40)};
        mm.run();
        Case bestc = mm.best;
        Res r1 = test(*m, bestc), r2 = test(*m, bestc);
        if (r1.state != R_BAD || r2.state != R_BAD || r1.hash != r2.hash) { bestc = c; r1 = a; }
        if (!mm.best.get("s_replay") && bestc.get("s_replay") == 0) { // could not freeze
        }
        mkdir(rdir.c_str(), 0777);
        replay = rdir + "/" + prop + "-" + fmt("%llu-%llu", (unsigned long long)seed, (unsigned long long)idx) + ".replay";
        std::ofstream o(replay);
        o << "# property " << prop << "\n# VERIF_SEED " << seed << " run " << idx << (thorough ? " tier thorough" : " tier quick") << "\n# violation " << r1.cls << ": " << r1.msg << "\n# minimisation executions " << mm.tests << "\n";
        o << "#! class " << r1.cls << "\n#! hash " << r1.hash << "\n";
        o << to_text(bestc);
        o.close();
        viol = r1.cls + ": " + r1.msg; violations = 1; rc = 1;
        printf("violation: %s\nseed: VERIF_SEED=%llu run=%llu site=%s\n", viol.c_str(), (unsigned long long)seed, (unsigned long long)idx, site_of(*m, bestc, r1.cls, r1.msg).c_str());
        break;
    }
    // samples
    std::string samples;
    for (u64 i : {u64(0), u64(T.runs / 2)}) {
        Case c; gen_case(*m, seed, i, thorough, c); std::string t = to_text(c); if (t.size() > 1500) t = t.substr(0, 1500) + "...";
        samples += (samples.empty() ? "" : ", ") + std::string("\"") + jesc(fmt("run %llu: ", (unsigned long long)i) + t) + "\"";
    }
    double wall = now() - t0;
    if (!evid.empty()) {
        std::ofstream o(evid);
        o << "{\n\"property\":\"" << prop << "\",\"tier\":\"" << (thorough ? "thorough" : "quick") << "\",\"seed\":" << seed << ",\"level\":\"exploration\",\"wall_s\":" << wall << ",\"violations\":" << violations << ",\n";
        o << "\"coverage\":{\n \"evaluations\":" << T.runs << ",\"distinct_nontrivial\":" << H.size() << ",\n \"rule\":\"" << jesc(m->rule + " Distinct: hash of the case content combined with the hash of the synchronisation and conflicting-access order of its run.") << "\",\n \"samples\":[" << samples << "],\n";
        o << " \"nontrivial_runs\":" << T.nontriv << ",\"runs_per_hour\":" << (u64)(T.runs / search_s * 3600) << ",\"seeds_per_hour\":" << (u64)(T.runs / search_s * 3600) << ",\"search_wall_s\":" << search_s << ",\"simulated_time_s\":" << T.vtime / 1e6 << ",\n";
        o << " \"distinct_interleavings\":" << S.size() << ",\"distinct_interleavings_measure\":\"hash of the sequence of (step, thread) context switches\",\"distinct_sync_orders\":" << Y.size() << ",\"distinct_sync_orders_measure\":\"hash of the order of barriers, locks, work chunks, atomic updates and (in conflict-directed runs) conflicting accesses\",\n";
        o << " \"steps\":" << T.steps << ",\"context_switches\":" << T.switches << ",\"preemptions\":" << T.preempt << ",\"parallel_regions\":" << T.regions << ",\"barriers\":" << T.barriers << ",\"atomics\":" << T.atomics << ",\"locks\":" << T.locks << ",\"work_chunks\":" << T.chunks << ",\"allocations\":" << T.allocs << ",\"conflicting_accesses_seen\":" << T.conflicts << ",\"max_team\":" << T.max_team << ",\"max_threads_alive\":" << T.max_fibers << ",\n";
        o << " \"strategies\":{"; for (int k = 0; k < sim::S_NKINDS; ++k) o << (k ? "," : "") << "\"" << sim::strategy_names[k] << "\":" << T.strat[k]; o << "},\n";
        o << " \"faults_fired\":{"; { bool f = true; for (int k = 0; k < sim::F_NKINDS; ++k) if (T.fired[k]) { o << (f ? "" : ",") << "\"" << sim::fault_names[k] << "\":" << T.fired[k]; f = false; } } o << "},\n";
        o << " \"runs_with_fault\":{"; { bool f = true; for (int k = 0; k < sim::F_NKINDS; ++k) if (T.fault_runs[k]) { o << (f ? "" : ",") << "\"" << sim::fault_names[k] << "\":" << T.fault_runs[k]; f = false; } } o << "},\n";
        o << " \"runs_ended_by_allowed_failure\":" << T.tolerated << ",\"allowed_failures\":{"; { bool f = true; for (auto &k : tol) { o << (f ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; f = false; } } o << "},\n";
        o << " \"probes\":{"; { bool f = true; for (auto &k : pr) { o << (f ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; f = false; } } o << "},\n";
        o << " \"known_findings_seen\":" << T.known << ",\n";
        o << " \"components_real\":\"" << jesc(m->real) << "\",\"components_stub\":\"" << jesc(m->stub) << "\"\n},\n";
        o << "\"assumptions\":["; for (size_t i = 0; i < m->assumptions.size(); ++i) o << (i ? "," : "") << "\"" << jesc(m->assumptions[i]) << "\""; o << "]\n}\n";
    }
    for (auto &k : known) { auto it = kn.find(k.substr(0, 199)); printf("KNOWN-FINDING: property=%s %s%s\n", prop.c_str(), k.c_str(), it == kn.end() ? " (not met in this run)" : fmt(" (met %llu times): %s", (unsigned long long)it->second.second, it->second.first.c_str()).c_str()); }
    printf("%s: %llu runs (%llu non-trivial, %zu distinct) in %.1f s, %llu tolerated, %llu switches\n", prop.c_str(), (unsigned long long)T.runs, (unsigned long long)T.nontriv, H.size(), wall, (unsigned long long)T.tolerated, (unsigned long long)T.switches);
    for (auto &k : pr) if (verbose || getenv("SHOW_PROBES")) printf("  probe %s %llu\n", k.first.c_str(), (unsigned long long)k.second);
    if (getenv("SHOW_PROBES")) { for (auto &k : tol) printf("  tolerated %s %llu\n", k.first.c_str(), (unsigned long long)k.second); for (int k = 0; k < sim::F_NKINDS; ++k) if (T.fired[k]) printf("  fault %s %llu\n", sim::fault_names[k], (unsigned long long)T.fired[k]); }
    if (rc == 1) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay.c_str());
    fflush(stdout);
    return rc;
}
static int do_replay(const std::string &file) {
    std::ifstream in(file); std::stringstream ss; ss << in.rdbuf(); std::string t = ss.str();
    Case c; if (!from_text(t, c)) { fprintf(stderr, "bad replay file\n"); return 2; }
    std::string cls; u64 hash = 0; size_t a = t.find("#! class "); if (a != std::string::npos) cls = t.substr(a + 9, t.find('\n', a) - a - 9);
    a = t.find("#! hash "); if (a != std::string::npos) hash = strtoull(t.c_str() + a + 8, nullptr, 10);
    const Module *m = find(c.prop); if (!m) { fprintf(stderr, "no module\n"); return 2; }
    slot = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    Res r = test(*m, c);
    printf("replay: %s%s%s%s\n", r.state == R_BAD ? "violation " : r.state == R_ERR ? "harness error " : "held ", r.cls.c_str(), r.msg.empty() ? "" : ": ", r.msg.c_str());
    if (r.state == R_BAD) { printf("exact reproduction: %s\n", r.hash == hash ? "yes" : "no (different binary or edited file)"); printf("VIOLATION property=%s replay=%s\n", c.prop.c_str(), file.c_str()); return 1; }
    return r.state == R_ERR ? 2 : 0;
}
// development aid: tabulate every distinct failure
static int do_survey(const std::string &prop, u64 seed, u64 n, bool thorough, u64 from) {
    const Module *m = find(prop); if (!m) return 2;
    int J = 8; std::vector<pid_t> ps; std::vector<std::string> out(J);
    int fds[64][2];
    for (int w = 0; w < J; ++w) { if (pipe(fds[w])) return 2; pid_t p = fork(); if (!p) {
        FILE *o = fdopen(fds[w][1], "w");
        slot = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        for (u64 i = from + w; i < from + n; i += J) { Case c; gen_case(*m, seed, i, thorough, c); Res r = test(*m, c, 120);
            if (r.state == R_BAD || r.state == R_ERR) fprintf(o, "%s\t%llu\t%s: %s\n", r.state == R_ERR ? "HARNESS" : site_of(*m, c, r.cls, r.msg).c_str(), (unsigned long long)i, r.cls.c_str(), r.msg.c_str()); }
        fclose(o); _exit(0); } close(fds[w][1]); ps.push_back(p); }
    std::map<std::string, std::pair<u64, std::string>> t;
    for (int w = 0; w < J; ++w) { FILE *f = fdopen(fds[w][0], "r"); char b[4096]; while (fgets(b, sizeof b, f)) { std::string l = b; size_t a = l.find('\t'); auto &e = t[l.substr(0, a)]; e.first++; if (e.second.empty() || l.size() < e.second.size()) e.second = l.substr(a + 1); } fclose(f); }
    for (pid_t p : ps) waitpid(p, nullptr, 0);
    for (auto &e : t) printf("%6llu  %-40s %s", (unsigned long long)e.second.first, e.first.c_str(), e.second.second.c_str());
    printf("%s survey: %llu runs, %zu distinct failure sites\n", prop.c_str(), (unsigned long long)n, t.size());
    return 0;
}
// determinism self-check: every run twice, compare all hashes
static int do_selfcheck(const std::string &prop, u64 seed, u64 n, bool thorough) {
    const Module *m = find(prop); if (!m) return 2;
    slot = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    u64 diff = 0, rep = 0, all = 0;
    for (u64 i = 0; i < n; ++i) {
        Case c; gen_case(*m, seed, i, thorough, c);
        Res a = test(*m, c); Case t; bool can = slot->ntrace < MAXT && slot->nfault < MAXF; if (can) t = with_trace(c);
        Res b = test(*m, c); all = mix(all, a.hash);
        if (a.hash != b.hash) { ++diff; printf("run %llu differs: %s %s / %s %s\n", (unsigned long long)i, a.cls.c_str(), a.msg.c_str(), b.cls.c_str(), b.msg.c_str()); }
        if (can) { Case u; from_text(to_text(t), u); Res d = test(*m, u); if (d.hash != a.hash) { ++rep; if (rep < 6) printf("run %llu: frozen trace differs: %d %s %s / %d %s %s\n", (unsigned long long)i, a.state, a.cls.c_str(), a.msg.c_str(), d.state, d.cls.c_str(), d.msg.c_str()); } }
    }
    printf("%s selfcheck: %llu runs, %llu nondeterministic, %llu frozen traces diverge, digest %016llx\n", prop.c_str(), (unsigned long long)n, (unsigned long long)diff, (unsigned long long)rep, (unsigned long long)all);
    return diff || rep ? 2 : 0;
}
} // namespace h

int main(int argc, char **argv) {
    using namespace h;
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> o; std::vector<std::string> pos;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a.compare(0, 2, "--") == 0 && i + 1 < argc) o[a.substr(2)] = argv[++i]; else pos.push_back(a); }
    if (o.count("v")) verbose = true;
    algs().erase(std::remove_if(algs().begin(), algs().end(), [](const Alg &a) { return !csr_ops[a.type].make; }), algs().end());
    sim::init();
    { // the stream library's lazily filled caches must not depend on what this process did before a run
        std::stringstream w; w << 1 << ' ' << 2.5 << ' ' << 3ull << " x" << std::endl << "line\n"; int a; double b; unsigned long long c; std::string d; w >> a >> b >> c >> d; std::getline(w, d); std::getline(w, d);
        auto &ct = std::use_facet<std::ctype<char>>(std::locale()); for (int i = 1; i < 127; ++i) { ct.widen((char)i); ct.narrow((char)i, 0); }
        char cb[4]; ct.widen("ab", "ab" + 2, cb); ct.narrow("ab", "ab" + 2, 0, cb);
    }
    static char obuf[1 << 16]; setvbuf(stdout, obuf, _IOLBF, sizeof obuf);
    std::string cmd = pos.empty() ? "" : pos[0];
    u64 seed = o.count("seed") ? strtoull(o["seed"].c_str(), 0, 10) : 1; bool th = o["tier"] == "thorough";
    if (cmd == "run") return do_run(o["prop"], seed, th, o.count("jobs") ? atoi(o["jobs"].c_str()) : 8, o.count("time") ? atof(o["time"].c_str()) : 30, o.count("max") ? strtoull(o["max"].c_str(), 0, 10) : ~0ull, o["evidence"], o["known"], o.count("replays") ? o["replays"] : "/tmp");
    if (cmd == "replay") return do_replay(o["file"]);
    if (cmd == "selfcheck") return do_selfcheck(o["prop"], seed, o.count("n") ? strtoull(o["n"].c_str(), 0, 10) : 200, th);
    if (cmd == "survey") return do_survey(o["prop"], seed, o.count("n") ? strtoull(o["n"].c_str(), 0, 10) : 2000, th, o.count("from") ? strtoull(o["from"].c_str(), 0, 10) : 0);
    if (cmd == "show") { const Module *m = find(o["prop"]); Case c; gen_case(*m, seed, strtoull(o["index"].c_str(), 0, 10), th, c); printf("%s", to_text(c).c_str()); return 0; }
    if (cmd == "one") {
        const Module *m = find(o["prop"]); Case c; gen_case(*m, seed, strtoull(o["index"].c_str(), 0, 10), th, c);
        slot = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        Res r = test(*m, c); printf("state %d %s %s hash %llx steps %llu switches %llu wall %llu us\n", r.state, r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.hash, (unsigned long long)slot->st.steps, (unsigned long long)slot->st.switches, (unsigned long long)slot->wall_us);
        if (o.count("freeze")) { // re-run under the recorded trace and compare decision by decision
            auto dump = [&] { for (u64 i = 0; i < slot->ntrace && i < 200; ++i) printf(" %llu>%d", (unsigned long long)slot->trace[i].step, (int)slot->trace[i].to); printf("\n"); };
            Case t = with_trace(c); dump(); Res q = test(*m, t); printf("state %d %s %s hash %llx steps %llu switches %llu\n", q.state, q.cls.c_str(), q.msg.c_str(), (unsigned long long)q.hash, (unsigned long long)slot->st.steps, (unsigned long long)slot->st.switches); dump();
        }
        return 0;
    }
    fprintf(stderr, "usage: harness run|replay|selfcheck|show|one --prop C01 ...\n");
    return 2;
}
