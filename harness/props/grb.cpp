// C21: exchange of matrices with GraphBLAS.
#include "mult.h"
#include "grbops.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <set>
extern "C" {
#include <GraphBLAS.h>
}
namespace h {
static const char *GT[] = {"double", "int64", "uint64", "float", "uint32", "int32"}; static const int GS[] = {8, 8, 8, 4, 4, 4};
static const char *GO[] = {"build", "unpack", "pack", "export-copy", "export-move", "copy-to-graphblas", "import", "unpack-csc", "pack-csc", "multiply", "one-based", "mxm", "convert_to_csc", "get_lowtri", "sort_by_degree", "avoid_iso", "read_grb_mtx"};
static u64 gbits(int t, i64 v) { u64 b = 0; if (t == 0) { double d = (double)v; memcpy(&b, &d, 8); } else if (t == 3) { float d = (float)v; memcpy(&b, &d, 4); } else if (GS[t] == 8) b = (u64)v; else b = (u64)(uint32_t)v; return b; }
typedef std::map<std::pair<i64, i64>, u64> Ents;
struct Obj { bool on = false, one = false, distinct = false; i64 rows = 0, cols = 0, top = 0; std::map<std::pair<i64, i64>, i64> e; };
struct World { Obj g[3], r[3], k[3]; };
static std::vector<std::array<i64, 6>> *shown_ops; // effective operations
struct Shown { int kind, slot; i64 op, rows, cols, n; int zero; std::string err; std::vector<std::array<i64, 2>> pos; std::vector<u64> val; };
static std::vector<Shown> *shown; static int show_type;
static bool distinct_of(const Mat &m) { std::set<i64> s; for (auto &e : m.e) if (!s.insert(e[2]).second) return false; return true; }
static i64 top_of(const Mat &m) { i64 t = 0; for (auto &e : m.e) t = std::max(t, e[2] < 0 ? -e[2] : e[2]); return t; }
// is the operation meaningful in this state? (depends on shapes, not on entries)
static bool can(const Case &c, const World &w, const std::array<i64, 6> &o, int type) {
    i64 a = o[1], b = o[2]; const i64 CAP = 1 << 20;
    switch (o[0]) {
    case G_BUILD: return true;
    case G_UNPACK: case G_EXPORT_COPY: case G_EXPORT_MOVE: case G_UNPACK_CSC: return w.g[b].on;
    case G_PACK: return w.r[a].on && !w.r[a].one && (o[3] || !w.g[b].on || (w.g[b].rows == w.r[a].rows && w.g[b].cols == w.r[a].cols));
    case G_PACK_CSC: return w.k[a].on && (o[3] || !w.g[b].on || (w.g[b].rows == w.k[a].rows && w.g[b].cols == w.k[a].cols));
    case G_COPY: return w.r[a].on;
    case G_IMPORT: return w.r[a].on && !w.r[a].one;
    case G_MULT: { auto &A = w.r[a], &B = w.r[b], &M = w.r[o[3]]; return A.on && B.on && M.on && !A.one && !B.one && !M.one && A.cols == B.rows && M.rows == A.rows && M.cols == B.cols && A.top * B.top * std::max<i64>(1, A.cols) < CAP; }
    case G_BASE: return w.r[a].on;
    case G_MXM: { auto &A = w.g[a], &B = w.g[b]; return A.on && B.on && A.cols == B.rows && A.top * B.top * std::max<i64>(1, A.cols) < CAP; }
    case G_TO_CSC: return w.g[a].on;
    case G_LOWTRI: return w.g[a].on && w.g[a].rows == w.g[a].cols;
    case G_SORTDEG: return w.g[a].on && w.g[a].rows == w.g[a].cols && w.g[a].distinct;
    case G_SETONE: return type < 4 && w.g[a].on && w.g[a].rows && w.g[a].cols;
    case G_READ: { const Mat &m = c.m[b]; return type != 4 || true ? (!o[4] || m.rows == m.cols) : false; }
    }
    return false;
}
// next state; sort_by_degree and unspecified parts are taken from what the run showed
static void step(const Case &c, World &w, const std::array<i64, 6> &o) {
    i64 a = o[1], b = o[2];
    auto from = [&](const Mat &m) { Obj x; x.on = true; x.rows = m.rows; x.cols = m.cols; x.top = top_of(m); x.distinct = distinct_of(m); for (auto &e : m.e) x.e[{e[0], e[1]}] = e[2]; return x; };
    auto mult = [&](const Obj &A, const Obj &B, const Obj *M) {
        Obj x; x.on = true; x.rows = A.rows; x.cols = B.cols; x.top = A.top * B.top * std::max<i64>(1, A.cols);
        std::map<i64, std::vector<std::pair<i64, i64>>> br; for (auto &e : B.e) br[e.first.first].push_back({e.first.second, e.second});
        for (auto &e : A.e) { auto it = br.find(e.first.second); if (it == br.end()) continue; for (auto &q : it->second) { std::pair<i64, i64> p{e.first.first, q.first}; if (M && !M->e.count(p)) continue; x.e[p] += e.second * q.second; } }
        return x; };
    switch (o[0]) {
    case G_BUILD: w.g[a] = from(c.m[b]); break;
    case G_UNPACK: w.r[a] = w.g[b]; w.g[b].e.clear(); w.g[b].top = 0; break;
    case G_UNPACK_CSC: w.k[a] = w.g[b]; w.g[b].e.clear(); w.g[b].top = 0; break;
    case G_EXPORT_COPY: w.r[a] = w.g[b]; break;
    case G_EXPORT_MOVE: w.r[a] = w.g[b]; w.g[b] = Obj(); break;
    case G_PACK: case G_IMPORT: w.g[b] = w.r[a]; w.r[a] = Obj(); break;
    case G_PACK_CSC: w.g[b] = w.k[a]; w.k[a] = Obj(); break;
    case G_COPY: w.g[b] = w.r[a]; w.g[b].one = false; break;
    case G_MULT: w.r[o[4]] = mult(w.r[a], w.r[b], &w.r[o[3]]); break;
    case G_MXM: w.g[o[4]] = mult(w.g[a], w.g[b], nullptr); break;
    case G_BASE: w.r[a].one = !w.r[a].one; break;
    case G_TO_CSC: w.g[b] = w.g[a]; break;
    case G_LOWTRI: { Obj x = w.g[a]; for (auto it = x.e.begin(); it != x.e.end();) if (it->first.first > it->first.second) ++it; else it = x.e.erase(it); w.g[b] = x; break; }
    case G_SETONE: { Obj &x = w.g[a]; i64 i = b % x.rows, j = o[3] % x.cols; x.e[{i, j}] = o[5]; x.top = std::max(x.top, o[5]); x.distinct = false; break; }
    case G_READ: {
        Obj x = from(c.m[b]); if (o[3]) for (auto it = x.e.begin(); it != x.e.end();) if (it->first.first == it->first.second) it = x.e.erase(it); else ++it;
        if (o[4]) { auto e = x.e; for (auto &q : e) x.e[{q.first.second, q.first.first}] += q.second; x.top *= 2; x.distinct = false; }
        w.g[a] = x; break; }
    }
}
static void show_cb(int64_t op, int kind, int slot, int64_t rows, int64_t cols, int64_t n, const void *p, const void *ix, const void *v, int zero) {
    sim::HeapScope hs(false); Shown s; s.kind = kind; s.slot = slot; s.op = op; s.rows = rows; s.cols = cols; s.n = n; s.zero = zero; int sz = GS[show_type];
    auto in = [](const void *q, size_t len) { return len == 0 || (sim::in_arena(q) && sim::addressable(q, len)); };
    auto val = [&](i64 k) { u64 b = 0; memcpy(&b, (const char *)v + k * sz, sz); return b; };
    if (rows >= 0 && kind == 0) {
        if (!p && n) s.err = fmt("%lld entries", (long long)n);
        else for (i64 k = 0; k < n; ++k) { s.pos.push_back({(i64)((const u64 *)p)[k], (i64)((const u64 *)ix)[k]}); s.val.push_back(val(k)); }
    } else if (rows >= 0) {
        i64 seg = kind == 1 ? rows : cols, lim = kind == 1 ? cols : rows, base = zero ? 0 : 1; const i64 *P = (const i64 *)p, *I = (const i64 *)ix;
        if (n < 0 || n > (1 << 24) || seg > (1 << 24)) s.err = fmt("dimensions %lldx%lld with %lld entries", (long long)rows, (long long)cols, (long long)n);
        else if (seg == 0 && n == 0) {}
        else if (!in(p, 8 * (size_t)(seg + 1))) s.err = "offset array too small";
        else if (!in(ix, 8 * (size_t)n) || !in(v, (size_t)sz * n)) s.err = "id or value array too small";
        else if (P[0] != base || P[seg] != n + base) s.err = fmt("offsets run from %lld to %lld with %lld entries", (long long)P[0], (long long)P[seg], (long long)n);
        else for (i64 i = 0; i < seg && s.err.empty(); ++i) {
            if (P[i + 1] < P[i] || P[i + 1] > n + base) { s.err = fmt("offsets decrease at %lld", (long long)i); break; }
            for (i64 k = P[i] - base; k < P[i + 1] - base; ++k) {
                i64 id = I[k] - base; if (id < 0 || id >= lim) { s.err = fmt("id %lld out of range", (long long)id); break; }
                if (k > P[i] - base && I[k] <= I[k - 1]) { s.err = fmt("ids not increasing in segment %lld", (long long)i); break; }
                if (kind == 1) s.pos.push_back({i, id}); else s.pos.push_back({id, i}); s.val.push_back(val(k));
            }
        }
    }
    shown->push_back(s);
}
static Verdict check(const Shown &s, const Obj &x, int type, const std::string &who) {
    if (!x.on) return s.rows >= 0 ? Verdict::bad("harness", who + "unexpected object") : Verdict();
    if (s.rows < 0) return Verdict::bad("lost-matrix", who + "object is gone");
    if (!s.err.empty()) return Verdict::bad("malformed-matrix", who + s.err);
    if (s.rows != x.rows || s.cols != x.cols) return Verdict::bad("wrong-dimensions", who + fmt("%lldx%lld instead of %lldx%lld", (long long)s.rows, (long long)s.cols, (long long)x.rows, (long long)x.cols));
    if (s.kind == 1 && (s.zero != 0) == x.one) return Verdict::bad("wrong-base", who + "zero/one-based flag");
    Ents got; for (size_t k = 0; k < s.pos.size(); ++k) if (!got.insert({{s.pos[k][0], s.pos[k][1]}, s.val[k]}).second) return Verdict::bad("wrong-entries", who + "duplicate position");
    if (got.size() != x.e.size()) return Verdict::bad("wrong-entries", who + fmt("%zu entries instead of %zu", got.size(), x.e.size()));
    auto it = got.begin(); for (auto &e : x.e) { if (it->first != e.first) return Verdict::bad("wrong-entries", who + fmt("entry (%lld,%lld) instead of (%lld,%lld)", (long long)it->first.first, (long long)it->first.second, (long long)e.first.first, (long long)e.first.second)); if (it->second != gbits(type, e.second)) return Verdict::bad("wrong-entries", who + fmt("value bits %llx instead of %llx at (%lld,%lld)", (unsigned long long)it->second, (unsigned long long)gbits(type, e.second), (long long)e.first.first, (long long)e.first.second)); ++it; }
    return Verdict();
}
static Verdict relabel(const Shown &s, Obj &x, int type, const std::string &who) {
    std::map<u64, std::pair<i64, i64>> where; for (auto &e : x.e) where[gbits(type, e.second)] = e.first;
    if (s.rows != x.rows || s.cols != x.cols || s.pos.size() != x.e.size()) return Verdict::bad("wrong-entries", who + fmt("%lldx%lld with %zu entries instead of %lldx%lld with %zu", (long long)s.rows, (long long)s.cols, s.pos.size(), (long long)x.rows, (long long)x.cols, x.e.size()));
    std::map<i64, i64> m, inv; std::vector<i64> deg(x.rows, 0); std::map<u64, i64> back; for (auto &e : x.e) back[gbits(type, e.second)] = e.second;
    auto put = [&](i64 a, i64 b) { auto q = m.insert({a, b}); if (!q.second && q.first->second != b) return false; auto r = inv.insert({b, a}); return r.second || r.first->second == a; };
    Obj y = x; y.e.clear();
    for (size_t k = 0; k < s.pos.size(); ++k) {
        auto it = where.find(s.val[k]); if (it == where.end()) return Verdict::bad("wrong-entries", who + "a value of the matrix is lost");
        if (!put(it->second.first, s.pos[k][0]) || !put(it->second.second, s.pos[k][1])) return Verdict::bad("wrong-entries", who + "not a relabelling of the vertices");
        y.e[{s.pos[k][0], s.pos[k][1]}] = back[s.val[k]]; deg[s.pos[k][0]]++; where.erase(it);
    }
    for (i64 i = 1; i < x.rows; ++i) if (deg[i] > deg[i - 1]) return Verdict::bad("wrong-order", who + fmt("vertex %lld has %lld entries, the one before %lld", (long long)i, (long long)deg[i], (long long)deg[i - 1]));
    x = y; return Verdict();
}
static std::vector<std::array<i64, 6>> effective(const Case &c) {
    std::vector<std::array<i64, 6>> r; World w; int type = (int)c.get("type");
    if (c.l.size() <= (size_t)(c.get("s_replay") ? 2 : 0)) return r;
    for (size_t i = 0; i + 5 < c.l[0].size(); i += 6) {
        std::array<i64, 6> o; for (int k = 0; k < 6; ++k) o[k] = c.l[0][i + k];
        o[0] = ((o[0] % G_NOPS) + G_NOPS) % G_NOPS; o[1] = ((o[1] % 3) + 3) % 3;
        if (o[0] == G_SETONE) { if (!w.g[o[1]].on || !w.g[o[1]].rows || !w.g[o[1]].cols) continue; o[2] = (u64)o[2] % w.g[o[1]].rows; o[3] = (u64)o[3] % w.g[o[1]].cols; }
        else o[2] = ((o[2] % 3) + 3) % 3;
        if (o[0] == G_MULT || o[0] == G_MXM) { o[3] = ((o[3] % 3) + 3) % 3; o[4] = ((o[4] % 3) + 3) % 3; }
        else if (o[0] != G_SETONE) { o[3] &= 1; o[4] &= 1; }
        if (!can(c, w, o, type)) continue;
        if (o[0] == G_SORTDEG) { r.push_back(o); continue; } // shape unchanged
        step(c, w, o); r.push_back(o);
    }
    return r;
}
static Verdict exec21(const Case &c) {
    int type = (int)c.get("type"); auto ops = effective(c); if (ops.empty()) return Verdict();
    auto f = get_fn<void (*)(GrbJob &)>(fmt("grb_%d", type).c_str()); if (!f) return Verdict::bad("harness", "grb missing");
    GrB_init(c.get("nonblock") ? GrB_NONBLOCKING : GrB_BLOCKING);
    int64_t pool[64] = {0}; GxB_Global_Option_set(GxB_MEMORY_POOL, pool);
    if (c.get("hyper") == 0) GxB_Global_Option_set(GxB_HYPER_SWITCH, GxB_NEVER_HYPER); else if (c.get("hyper") == 2) GxB_Global_Option_set(GxB_HYPER_SWITCH, GxB_ALWAYS_HYPER);
    if (c.get("bitmap") == 0) { double b[GxB_NBITMAP_SWITCH]; std::fill(b, b + GxB_NBITMAP_SWITCH, 1.0); GxB_Global_Option_set(GxB_BITMAP_SWITCH, b); }
    GxB_Global_Option_set(GxB_FORMAT, c.get("bycol") ? GxB_BY_COL : GxB_BY_ROW); GxB_Global_Option_set(GxB_GLOBAL_NTHREADS, (int)std::max<i64>(1, c.get("threads")));
    if (c.get("chunk")) GxB_Global_Option_set(GxB_GLOBAL_CHUNK, (double)c.get("chunk"));
    sim::vfs_reset(); std::vector<GrbMat> mats; std::vector<std::vector<int64_t>> buf(3);
    for (int k = 0; k < 3; ++k) {
        const Mat &m = c.m[k]; std::string t = fmt("%%%%MatrixMarket matrix coordinate integer general\n%lld %lld %zu\n", (long long)m.rows, (long long)m.cols, m.e.size());
        for (auto &e : m.e) { buf[k].push_back(e[0]); buf[k].push_back(e[1]); buf[k].push_back((i64)gbits(type, e[2])); t += fmt("%lld %lld %lld\n", (long long)e[0] + 1, (long long)e[1] + 1, (long long)e[2]); }
        mats.push_back({m.rows, m.cols, (i64)m.e.size(), buf[k].data()}); sim::vfs_put(fmt("/sim/m%d", k), t);
    }
    std::vector<int64_t> flat; for (auto &o : ops) for (i64 v : o) flat.push_back(v);
    for (size_t i = 0; i < ops.size(); ++i) if (ops[i][0] == G_SETONE) flat[6 * i + 5] = (i64)gbits(type, ops[i][5]);
    GrbJob j{mats.data(), flat.data(), (i64)ops.size(), (int)c.get("threads"), show_cb};
    std::vector<Shown> log; shown = &log; show_type = type; start(c); sim::run([&] { f(j); });
    bool exch = false; World w; u64 hash = 0; size_t at = 0;
    for (size_t q = 0; q < ops.size(); ++q) {
        auto &o = ops[q]; probe(GO[o[0]]); exch |= o[0] != G_BUILD && o[0] != G_MULT && o[0] != G_MXM && o[0] != G_BASE && o[0] != G_READ;
        std::string who = fmt("after operation %zu (%s", q, GO[o[0]]) + ", " + GT[type] + "): ";
        if (o[0] != G_SORTDEG) step(c, w, o);
        for (int s = 0; s < 9; ++s, ++at) {
            if (at >= log.size() || log[at].op != (i64)q) return Verdict::bad("harness", "missing dump");
            const Shown &d = log[at]; Obj &x = d.kind == 0 ? w.g[d.slot] : d.kind == 1 ? w.r[d.slot] : w.k[d.slot];
            static const char *kn[] = {"GraphBLAS matrix", "CSR", "CSC"}; std::string wh = who + kn[d.kind] + fmt(" %d: ", d.slot);
            Verdict v = o[0] == G_SORTDEG && d.kind == 0 && d.slot == o[1] ? relabel(d, x, type, wh) : check(d, x, type, wh); if (!v.ok) return v;
            for (u64 b : d.val) hash = mix(hash, b);
        }
    }
    bool ents = false; for (auto &m : c.m) ents |= !m.e.empty(); nontrivial(exch && ents); Verdict v; v.hash = hash; return v;
}
static Module m21() {
    Module m; m.id = "C21"; m.exec = exec21;
    m.real = "CSR.h, CSC.h, IO.h, grb_util.h and masked-spgemm.h of /repo with instrumented memory accesses; libgraphblas 7.4 (its own code uninstrumented, its parallel regions and allocations under the simulator)"; m.stub = "files under /sim/, OpenMP runtime, heap allocator, clocks";
    m.assumptions = {"sampled search: matrices up to a few hundred entries, histories of up to 14 operations", "matrix contents positive integers representable in every value type", "libgraphblas 7.4.0 as installed (the code also supports older releases)"};
    m.rule = "Each run executes a drawn history of builds, unpacks, packs, exports, imports, copies, reads, relabelings and multiplications over three GraphBLAS matrices, three CSR and three CSC objects, under drawn storage options (orientation, hypersparsity, bitmap, blocking mode), thread counts and schedules; after every operation every object must equal its model entry for entry. Non-trivial: at least one conversion with a non-empty matrix in the pool.";
    m.params = {{"threads", 1}, {"nonblock", 0}, {"hyper", 0}, {"bitmap", 0}, {"bycol", 0}, {"chunk", 0}, {"type", 0}};
    m.site = [](const Case &c, const Verdict &v) { auto p = v.msg.find('('); std::string s = p == std::string::npos ? "" : v.msg.substr(p + 1, v.msg.find(',', p) - p - 1); return s + "/" + v.cls; };
    m.valid = [](const Case &c) { return c.m.size() == 3; };
    m.gen = [](Rng &r, Case &c, bool, u64) {
        c.p["type"] = r.range(0, 5); c.p["threads"] = gen_threads(r); c.p["nonblock"] = r.chance(1, 2); c.p["hyper"] = pick(r, {0, 0, 1, 2}); c.p["bitmap"] = r.chance(1, 2); c.p["bycol"] = r.chance(1, 3); c.p["chunk"] = pick(r, {0, 0, 1, 4});
        Case t; int kind = (int)pick(r, {G_TINY, G_TINY, G_SMALL, G_SMALL, G_SMALL, G_DENSE}); gen_mult(r, t, kind); c.m = {t.m[0], t.m[1], t.m[2]};
        if (r.chance(1, 2)) { i64 n = r.range(1, 14); for (auto &m : c.m) m = gen_mat(r, n, n, kind); }
        int vk = (int)r.below(4); i64 seq = 1;
        for (auto &m : c.m) { for (size_t i = m.e.size(); i > 1; --i) std::swap(m.e[i - 1], m.e[r.below(i)]); for (auto &e : m.e) e[2] = vk == 0 ? 3 : vk == 1 ? seq++ : r.range(1, 9); }
        std::vector<i64> l; int n = (int)r.range(2, 14);
        auto add = [&](i64 op, i64 a, i64 b, i64 cc = 0, i64 d = 0, i64 x = 0) { for (i64 v : {op, a, b, cc, d, x}) l.push_back(v); };
        for (int k = 0; k < 3; ++k) if (r.chance(3, 4)) add(r.chance(1, 5) ? G_READ : G_BUILD, k, k, r.below(2), r.below(2));
        if (r.chance(1, 3)) for (int k = 0; k < 3; ++k) add(G_UNPACK, k, k);
        for (int k = 0; k < n; ++k) {
            i64 op = pick(r, {G_BUILD, G_UNPACK, G_UNPACK, G_PACK, G_PACK, G_PACK, G_EXPORT_COPY, G_EXPORT_COPY, G_EXPORT_MOVE, G_COPY, G_COPY, G_IMPORT, G_IMPORT, G_UNPACK_CSC, G_UNPACK_CSC, G_PACK_CSC, G_PACK_CSC, G_PACK_CSC, G_MULT, G_MULT, G_BASE, G_MXM, G_MXM, G_TO_CSC, G_LOWTRI, G_SORTDEG, G_SETONE, G_READ});
            add(op, (i64)r.below(3), op == G_SETONE ? (i64)r.below(64) : (i64)r.below(3), op == G_SETONE ? (i64)r.below(64) : (i64)r.below(3), (i64)r.below(3), r.range(1, 9));
        }
        c.l = {l}; gen_sched(r, c); if (r.chance(1, 6)) set_fault(c, sim::F_SHORT_TEAM, (int)pick(r, {300, 1024}));
    };
    return m;
}
static AddModule a21(m21());
}
