#include "mx.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <set>
#include <unordered_map>
namespace h {
u64 enc(int type, i64 v, int mode) {
    if (type == T_ID) {
        double d = (double)v;
        if (mode == 1) { u64 x = mix(0xD0, (u64)v); d = (double)(x >> 11) / (double)(1ull << 53) * std::pow(10.0, (int)(x % 7) - 3) * ((x & 1024) ? -1 : 1) + 1e-9; }
        u64 b; memcpy(&b, &d, 8); return b;
    }
    if (type == T_IF) {
        float d = (float)v;
        if (mode == 1) { u64 x = mix(0xD2, (u64)v); d = (float)((double)(x >> 11) / (double)(1ull << 53) * std::pow(10.0, (int)(x % 7) - 3) * ((x & 1024) ? -1 : 1) + 1e-9); }
        u64 b = 0; memcpy(&b, &d, 4); return b;
    }
    if (mode == 1) return mix(0xD1, (u64)v);
    return (u64)v;
}
std::string show_val(int type, u64 v) { if (type == T_ID) { double d; memcpy(&d, &v, 8); return fmt("%.17g", d); } if (type == T_IF) { float d; memcpy(&d, &v, 4); return fmt("%.9g", d); } return type == T_LU || type == T_IW ? fmt("%llu", (unsigned long long)v) : fmt("%lld", (long long)v); }
HMat to_hmat(const Mat &m, int type, int mode, bool sorted, bool by_col) {
    HMat h; h.rows = m.rows; h.cols = m.cols; i64 n = by_col ? m.cols : m.rows;
    std::vector<std::vector<std::pair<i64, i64>>> r(n);
    for (auto &e : m.e) { if (by_col) r[e[1]].push_back({e[0], e[2]}); else r[e[0]].push_back({e[1], e[2]}); }
    h.ptr.push_back(0);
    for (auto &x : r) {
        if (sorted || by_col) std::stable_sort(x.begin(), x.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (auto &q : x) { h.idx.push_back(q.first); h.val.push_back(enc(type, q.second, mode)); }
        h.ptr.push_back((i64)h.idx.size());
    }
    return h;
}
bool read_obj(void *obj, int type, bool by_col, HMat &o, std::string &err) {
    MatOps &ops = by_col ? csc_ops[type] : csr_ops[type];
    if (!sim::addressable(obj, 8)) { err = "result object not addressable"; return false; }
    i64 rows, cols, nnz; const void *p, *ix, *v; ops.view(obj, rows, cols, nnz, p, ix, v);
    o = HMat(); o.rows = rows; o.cols = cols;
    i64 n = by_col ? cols : rows; size_t s = ops.it_size;
    if (n < 0 || nnz < 0 || n > (1 << 27) || nnz > (1 << 28)) { err = fmt("dimensions rows=%lld cols=%lld nnz=%lld", (long long)rows, (long long)cols, (long long)nnz); return false; }
    if (n == 0 && nnz == 0) { o.ptr = {0}; return true; } // no offsets need to exist
    auto in = [&](const void *q, size_t len) { return len == 0 || (sim::in_arena(q) && sim::addressable(q, len)); };
    if (!in(p, (n + 1) * s)) { err = fmt("offset array does not hold %lld entries", (long long)n + 1); return false; }
    auto geti = [&](const void *b, i64 k) -> i64 { return s == 4 ? (i64)((const int32_t *)b)[k] : ((const i64 *)b)[k]; };
    o.ptr.resize(n + 1); for (i64 i = 0; i <= n; ++i) o.ptr[i] = geti(p, i);
    if (o.ptr[0] != 0) { err = fmt("offsets start at %lld", (long long)o.ptr[0]); return false; }
    for (i64 i = 0; i < n; ++i) if (o.ptr[i + 1] < o.ptr[i]) { err = fmt("offsets decrease at %lld: %lld > %lld", (long long)i, (long long)o.ptr[i], (long long)o.ptr[i + 1]); return false; }
    if (o.ptr[n] != nnz) { err = fmt("offsets end at %lld but entry count is %lld", (long long)o.ptr[n], (long long)nnz); return false; }
    if (!in(ix, nnz * s)) { err = fmt("id array does not hold %lld entries", (long long)nnz); return false; }
    if (!in(v, nnz * ops.nt_size)) { err = fmt("value array does not hold %lld entries", (long long)nnz); return false; }
    o.idx.resize(nnz); o.val.resize(nnz);
    bool ok = true;
    for (i64 i = 0; i < nnz; ++i) { o.idx[i] = geti(ix, i); o.val[i] = ops.getv(v, i, ok); if (!ok) { err = fmt("value of entry %lld is damaged", (long long)i); return false; } }
    return true;
}
bool check_shape(const HMat &c, i64 rows, i64 cols, bool by_col, bool want_sorted, std::string &err) {
    if (c.rows != rows || c.cols != cols) { err = fmt("dimensions %lldx%lld instead of %lldx%lld", (long long)c.rows, (long long)c.cols, (long long)rows, (long long)cols); return false; }
    i64 n = by_col ? cols : rows, lim = by_col ? rows : cols;
    for (i64 i = 0; i < n; ++i) {
        bool sorted = true;
        for (i64 k = c.ptr[i]; k < c.ptr[i + 1]; ++k) {
            if (c.idx[k] < 0 || c.idx[k] >= lim) { err = fmt("id %lld out of range in %s %lld", (long long)c.idx[k], by_col ? "column" : "row", (long long)i); return false; }
            if (k > c.ptr[i] && c.idx[k] <= c.idx[k - 1]) sorted = false;
        }
        if (!sorted) {
            std::set<i64> s(c.idx.begin() + c.ptr[i], c.idx.begin() + c.ptr[i + 1]);
            if ((i64)s.size() != c.ptr[i + 1] - c.ptr[i]) { err = fmt("duplicate id in %s %lld", by_col ? "column" : "row", (long long)i); return false; }
            if (want_sorted) { err = fmt("ids not increasing in %s %lld", by_col ? "column" : "row", (long long)i); return false; }
        }
    }
    return true;
}
HMat sorted_copy(const HMat &m) {
    HMat o = m; std::vector<std::pair<i64, u64>> t;
    for (size_t i = 0; i + 1 < m.ptr.size(); ++i) {
        t.clear(); for (i64 k = m.ptr[i]; k < m.ptr[i + 1]; ++k) t.push_back({m.idx[k], m.val[k]});
        std::stable_sort(t.begin(), t.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (size_t k = 0; k < t.size(); ++k) { o.idx[m.ptr[i] + k] = t[k].first; o.val[m.ptr[i] + k] = t[k].second; }
    }
    return o;
}
HMat transpose_host(const HMat &m) { // same matrix seen by the other dimension
    HMat o; o.rows = m.cols; o.cols = m.rows; i64 n = (i64)m.ptr.size() - 1, k = 0;
    i64 other = n == m.rows ? m.cols : m.rows; (void)k;
    std::vector<i64> cnt(other + 1, 0); for (i64 x : m.idx) cnt[x + 1]++;
    for (i64 i = 0; i < other; ++i) cnt[i + 1] += cnt[i];
    o.ptr = cnt; o.idx.resize(m.idx.size()); o.val.resize(m.idx.size());
    for (i64 i = 0; i < n; ++i) for (i64 q = m.ptr[i]; q < m.ptr[i + 1]; ++q) { i64 at = cnt[m.idx[q]]++; o.idx[at] = i; o.val[at] = m.val[q]; }
    return o;
}
template <class T> static T dec(u64 v) { T t; memcpy(&t, &v, sizeof t); return t; }
template <class T> static T mulv(int k, T a, T b) { switch (k) { case 1: return a * T(3) + b * T(5); case 2: return a; case 3: return b; case 4: return a * b + a; default: return a * b; } }
template <class T> static T addv(int k, T a, T b) { switch (k) { case 1: return b < a ? b : a; case 2: return a < b ? b : a; case 3: return a * T(31) + b; case 4: return b; case 5: return a; default: return a + b; } }
template <class T> static HMat mm(const HMat &A, const HMat &B, const HMat *M, bool comp, const Op &op) {
    HMat C; C.rows = A.rows; C.cols = B.cols; C.ptr.push_back(0);
    std::unordered_map<i64, T> acc; std::vector<i64> order; std::vector<i64> mk;
    std::vector<char> bsorted((size_t)std::max<i64>(B.rows, 0)); for (i64 k = 0; k < B.rows; ++k) bsorted[k] = std::is_sorted(B.idx.begin() + B.ptr[k], B.idx.begin() + B.ptr[k + 1]);
    for (i64 i = 0; i < A.rows; ++i) {
        acc.clear(); order.clear(); mk.clear();
        if (M) { mk.assign(M->idx.begin() + M->ptr[i], M->idx.begin() + M->ptr[i + 1]); std::sort(mk.begin(), mk.end()); }
        for (i64 a = A.ptr[i]; a < A.ptr[i + 1]; ++a) { i64 k = A.idx[a];
            auto term = [&](i64 b, i64 j) {
                T p = mulv<T>(op.mul, dec<T>(A.val[a]), dec<T>(B.val[b]));
                auto it = acc.find(j); if (it == acc.end()) { acc[j] = p; order.push_back(j); } else it->second = addv<T>(op.add, it->second, p);
            };
            if (M && !comp && (i64)mk.size() * 64 < B.ptr[k + 1] - B.ptr[k] && bsorted[k]) { // short mask row, long row of B
                for (i64 j : mk) { auto e = B.idx.begin() + B.ptr[k + 1], f = std::lower_bound(B.idx.begin() + B.ptr[k], e, j); if (f != e && *f == j) term(f - B.idx.begin(), j); }
                continue;
            }
            for (i64 b = B.ptr[k]; b < B.ptr[k + 1]; ++b) { i64 j = B.idx[b]; if (!M || std::binary_search(mk.begin(), mk.end(), j) != comp) term(b, j); } }
        std::sort(order.begin(), order.end());
        for (i64 j : order) { C.idx.push_back(j); u64 v = 0; T t = acc[j]; memcpy(&v, &t, sizeof t); C.val.push_back(v); }
        C.ptr.push_back((i64)C.idx.size());
    }
    return C;
}
HMat model_mult(int type, const HMat &A, const HMat &B, const HMat *M, bool comp, const Op &op) {
    return type == T_ID ? mm<double>(A, B, M, comp, op) : type == T_IF ? mm<float>(A, B, M, comp, op) : type == T_LL ? mm<i64>(A, B, M, comp, op) : mm<u64>(A, B, M, comp, op);
}
bool same(const HMat &g, const HMat &w, int type, double tol, std::string &err) {
    if (g.ptr.size() != w.ptr.size()) { err = "number of rows differs"; return false; }
    for (size_t i = 0; i + 1 < w.ptr.size(); ++i) {
        i64 a = g.ptr[i], b = w.ptr[i];
        while (a < g.ptr[i + 1] || b < w.ptr[i + 1]) {
            if (b == w.ptr[i + 1] || (a < g.ptr[i + 1] && g.idx[a] < w.idx[b])) { err = fmt("unexpected entry (%zu,%lld) = %s", i, (long long)g.idx[a], show_val(type, g.val[a]).c_str()); return false; }
            if (a == g.ptr[i + 1] || g.idx[a] > w.idx[b]) { err = fmt("missing entry (%zu,%lld) = %s", i, (long long)w.idx[b], show_val(type, w.val[b]).c_str()); return false; }
            if (g.val[a] != w.val[b]) {
                bool ok = false;
                if (type == T_ID) { double x = dec<double>(g.val[a]), y = dec<double>(w.val[b]); ok = x == y || std::fabs(x - y) <= tol * (std::fabs(x) + std::fabs(y)); }
                if (type == T_IF) { float x = dec<float>(g.val[a]), y = dec<float>(w.val[b]); ok = x == y || std::fabs(x - y) <= 1e-5f * (std::fabs(x) + std::fabs(y)); }
                if (!ok) { err = fmt("entry (%zu,%lld) is %s instead of %s", i, (long long)g.idx[a], show_val(type, g.val[a]).c_str(), show_val(type, w.val[b]).c_str()); return false; }
            }
            ++a; ++b;
        }
    }
    return true;
}
u64 hash_of(const HMat &m) { u64 x = mix(m.rows, m.cols); for (i64 v : m.ptr) x = mix(x, v); for (i64 v : m.idx) x = mix(x, v); for (u64 v : m.val) x = mix(x, v); return x; }

// ------------------------------------------------------------ generators
static i64 gen_val(Rng &r) { return r.chance(1, 8) ? 0 : r.chance(1, 4) ? -(i64)r.range(1, 5) : (i64)r.range(1, 7); }
static void put(std::set<std::pair<i64, i64>> &s, Mat &m, i64 i, i64 j, Rng &r) { if (s.insert({i, j}).second) m.e.push_back({i, j, gen_val(r)}); }
Mat gen_mat(Rng &r, i64 rows, i64 cols, int kind) {
    Mat m; m.rows = rows; m.cols = cols; std::set<std::pair<i64, i64>> s;
    if (!rows || !cols) return m;
    int style = (int)r.below(7);
    if (kind == G_DENSE) style = 1;
    if (kind == G_HUGE) { // ids from a small set that includes both ends
        auto col = [&]() -> i64 { i64 k = (i64)r.below(12); switch (r.below(4)) { case 0: return std::min(k, cols - 1); case 1: return std::max<i64>(cols - 1 - k, 0); case 2: return cols / 2 + k < cols ? cols / 2 + k : 0; default: { i64 j = ((i64)1 << (4 * k)) - (i64)r.below(2); return j < cols ? j : cols - 1; } } };
        i64 n = r.range(1, 200); for (i64 k = 0; k < n; ++k) put(s, m, (i64)r.below(rows), col(), r);
        std::sort(m.e.begin(), m.e.end()); return m;
    }
    if (kind == G_VTALL) style = (int)pick(r, {0, 2, 5});
    if (kind == G_COLLIDE && r.chance(2, 3)) style = 6;
    if (kind == G_HUB && r.chance(1, 2)) style = 2;
    i64 cap = kind == G_MED ? 1600 : kind == G_WIDE || kind == G_HUB ? 900 : kind == G_TALL ? 400 : 350;
    switch (style) {
    case 0: { i64 n = (i64)r.below(std::min(rows * cols, cap) + 1); for (i64 k = 0; k < n; ++k) put(s, m, (i64)r.below(rows), (i64)r.below(cols), r); break; }
    case 1: { unsigned d = (unsigned)r.range(1, 100); i64 tot = rows * cols; if (tot > cap * 2) { i64 n = cap; for (i64 k = 0; k < n; ++k) put(s, m, (i64)r.below(rows), (i64)r.below(cols), r); }
              else for (i64 i = 0; i < rows; ++i) for (i64 j = 0; j < cols; ++j) if (r.below(100) < d) put(s, m, i, j, r); break; }
    case 2: { i64 hubs = r.range(1, std::max<i64>(1, std::min<i64>(3, rows))); for (i64 q = 0; q < hubs; ++q) { i64 i = (i64)r.below(rows); i64 n = std::min(cols, r.range(1, cap / hubs + 1)); for (i64 k = 0; k < n; ++k) put(s, m, i, n == cols ? k : (i64)r.below(cols), r); }
              i64 n = (i64)r.below(std::min(rows, cap) + 1); for (i64 k = 0; k < n; ++k) put(s, m, (i64)r.below(rows), (i64)r.below(cols), r); break; }
    case 3: { i64 w = r.range(1, 4); for (i64 i = 0; i < rows && (i64)m.e.size() < cap; ++i) for (i64 k = 0; k < w; ++k) put(s, m, i, (i * cols / std::max<i64>(rows, 1) + k) % cols, r); break; }
    case 4: { unsigned keep = (unsigned)r.range(5, 60); for (i64 i = 0; i < rows && (i64)m.e.size() < cap; ++i) if (r.below(100) < keep) { i64 n = r.range(1, std::min<i64>(cols, 6)); for (i64 k = 0; k < n; ++k) put(s, m, i, (i64)r.below(cols), r); } break; }
    case 5: { i64 lo = (i64)r.below(cols), wd = r.range(1, std::max<i64>(1, std::min<i64>(cols - lo, 40))); i64 n = (i64)r.below(cap); for (i64 k = 0; k < n; ++k) put(s, m, (i64)r.below(rows), lo + (i64)r.below(wd), r); break; }
    default: { i64 st = (i64)1 << r.range(2, 12); while (st > 1 && st >= cols) st >>= 1; i64 off = (i64)r.below(st); i64 n = r.range(1, cap / 2); for (i64 k = 0; k < n; ++k) { i64 q = std::max<i64>(1, (cols - off + st - 1) / st); i64 j = off + (i64)r.below(q) * st; put(s, m, (i64)r.below(rows), j < cols ? j : cols - 1, r); } }
    }
    // first and last rows/columns matter: force them now and then
    if (r.chance(1, 4)) put(s, m, rows - 1, cols - 1, r);
    if (r.chance(1, 6)) put(s, m, 0, 0, r);
    std::sort(m.e.begin(), m.e.end());
    return m;
}
void shuffle_rows(Rng &r, Mat &m) {
    for (size_t i = m.e.size(); i > 1; --i) std::swap(m.e[i - 1], m.e[r.below(i)]);
    std::stable_sort(m.e.begin(), m.e.end(), [](auto &a, auto &b) { return a[0] < b[0]; });
}
i64 gen_threads(Rng &r) {
    int x = (int)r.below(20);
    if (x < 2) return 0;
    if (x < 3) return 1;
    if (x < 18) return r.range(2, 8);
    if (r.chance(1, 5)) return pick(r, {33, 64, 100, 128, 200});
    return pick(r, {9, 13, 17, 32});
}
void gen_mult(Rng &r, Case &c, int kind, bool zero) {
    Shape s;
    switch (kind) {
    case G_TINY: s = {r.range(1, 5), r.range(1, 5), r.range(1, 5)}; break;
    case G_SMALL: s = {r.range(1, 20), r.range(1, 20), r.range(1, 24)}; break;
    case G_MED: s = {r.range(10, 130), r.range(5, 90), r.range(5, 130)}; break;
    case G_WIDE: s = {r.range(1, 14), r.range(1, 60), r.range(200, 70000)}; break;
    case G_HUB: s = {r.range(1, 30), r.range(5, 60), r.range(20, 900)}; break;
    case G_COLLIDE: s = {r.range(1, 16), r.range(1, 30), r.range(300, 9000)}; break;
    case G_DENSE: s = {r.range(1, 12), r.range(1, 12), r.range(1, 16)}; break;
    case G_HUGE: { const Alg *a = find_alg(c.str("alg"), (int)c.get("type")); bool l = a && csr_ops[a->type].it_size == 8; s = {r.range(1, 12), r.range(1, 20), l && r.chance(1, 2) ? ((i64)1 << r.range(32, 44)) + r.range(-3, 3) : r.chance(1, 2) ? 0x7fffffff - (i64)r.below(3) : ((i64)1 << r.range(20, 30)) + r.range(-3, 3)}; break; }
    case G_VTALL: s = {(131072 << r.below(2)) + r.range(-3, 40), r.range(1, 12), r.range(1, 40)}; break;
    default: s = {r.range(150, 1500), r.range(1, 12), r.range(1, 40)}; break;
    }
    if (zero && r.chance(1, 40)) { int z = (int)r.below(4); if (z != 1) s.rows = z == 3 || z == 0 ? 0 : s.rows; if (z == 1) s.inner = 0; if (z == 2 || z == 3) s.cols = 0; }
    Mat A = gen_mat(r, s.rows, s.inner, kind), B = gen_mat(r, s.inner, s.cols, kind), M;
    // keep the amount of work bounded
    std::vector<i64> bl(s.inner, 0); for (auto &e : B.e) bl[e[0]]++;
    i64 fl = 0; size_t keep = A.e.size(); for (size_t i = 0; i < A.e.size(); ++i) { fl += bl[A.e[i][1]]; if (fl > 30000) { keep = i; break; } }
    if (keep < A.e.size()) { Rng q(r.next()); Mat t = A; for (size_t i = t.e.size(); i > 1; --i) std::swap(t.e[i - 1], t.e[q.below(i)]); fl = 0; keep = 0; for (auto &e : t.e) { fl += bl[e[1]]; if (fl > 30000) break; ++keep; } t.e.resize(keep); std::sort(t.e.begin(), t.e.end()); A = t; }
    int mk = (int)r.below(8);
    if (mk >= 3 && mk <= 5) { // related to the product pattern
        std::set<std::pair<i64, i64>> pr; std::vector<std::vector<i64>> bj(s.inner); for (auto &e : B.e) bj[e[0]].push_back(e[1]);
        for (auto &e : A.e) for (i64 j : bj[e[1]]) pr.insert({e[0], j});
        M.rows = s.rows; M.cols = s.cols; std::set<std::pair<i64, i64>> ss;
        unsigned k = (unsigned)r.range(20, 100), extra = (unsigned)r.below(3);
        for (auto &q : pr) if (mk == 5 || r.below(100) < k) put(ss, M, q.first, q.second, r);
        if (extra && s.cols && s.rows) { i64 n = (i64)r.below(200); for (i64 q = 0; q < n; ++q) put(ss, M, (i64)r.below(s.rows), (i64)r.below(s.cols), r); }
        if (r.chance(1, 3)) { i64 drop = (i64)r.below(s.rows); M.e.erase(std::remove_if(M.e.begin(), M.e.end(), [&](auto &e) { return e[0] == drop; }), M.e.end()); }
        if (M.e.size() > 6000) { for (size_t i = M.e.size(); i > 1; --i) std::swap(M.e[i - 1], M.e[r.below(i)]); M.e.resize(6000); }
        std::sort(M.e.begin(), M.e.end());
    } else if (mk == 6) { M.rows = s.rows; M.cols = s.cols; if (s.rows * s.cols <= 4000) { for (i64 i = 0; i < s.rows; ++i) for (i64 j = 0; j < s.cols; ++j) M.e.push_back({i, j, 1}); } else M = gen_mat(r, s.rows, s.cols, kind); }
    else if (mk == 7 && r.chance(1, 3)) { M.rows = s.rows; M.cols = s.cols; }
    else M = gen_mat(r, s.rows, s.cols, kind);
    c.m = {A, B, M};
}
void gen_heavy(Rng &r, Case &c, bool bcol) {
    i64 K = r.range(1, 4), rows = r.range(30000, 110000), cols = 0; Mat A, B, M;
    std::vector<i64> len(K); for (i64 k = 0; k < K; ++k) { len[k] = k == 0 ? r.range(40000, 100000) : pick(r, {0, 1, r.range(2, 40), r.range(1000, 40000)}); cols = std::max(cols, len[k]); }
    // long rows (columns) of B starting at small ids; the mask only asks for the first few, so few products are really formed
    if (!bcol) {
        cols += r.range(0, 9); A.rows = rows; A.cols = K; B.rows = K; B.cols = cols;
        for (i64 k = 0; k < K; ++k) for (i64 j = 0; j < len[k]; ++j) B.e.push_back({k, j, 1 + (j + k) % 5});
        int seg = (int)r.range(1, 4); std::vector<std::array<i64, 3>> sg; for (int s = 0; s < seg; ++s) sg.push_back({(i64)r.below(rows), r.range(20, 100), (i64)r.below(K)}); std::sort(sg.begin(), sg.end());
        for (i64 i = 0; i < rows; ++i) { size_t s = 0; while (s + 1 < sg.size() && sg[s + 1][0] <= i) ++s; i64 k1 = (i64)r.below(100) < sg[s][1] ? 0 : sg[s][2]; A.e.push_back({i, k1, 1 + i % 7}); if (k1 + 1 < K && r.chance(1, 10)) A.e.push_back({i, k1 + 1, 2}); }
        M.rows = rows; M.cols = cols; i64 reach = r.range(1, std::min<i64>(6, cols)); unsigned miss = (unsigned)pick(r, {0, 0, 1, 10});
        for (i64 i = 0; i < rows; ++i) { if (r.below(100) < miss) continue; i64 j = (i64)r.below(reach); M.e.push_back({i, j, 1}); if (j + 1 < reach && r.chance(1, 9)) M.e.push_back({i, j + 1, 1}); }
    } else {
        i64 inner = cols + r.range(0, 9); A.rows = rows; A.cols = inner; B.rows = inner; B.cols = K;
        for (i64 j = 0; j < inner; ++j) for (i64 k = 0; k < K; ++k) if (j < len[k]) B.e.push_back({j, k, 1 + (j + k) % 5});
        for (i64 i = 0; i < rows; ++i) { i64 a = (i64)r.below(4); A.e.push_back({i, a, 1 + i % 7}); if (r.chance(1, 10)) A.e.push_back({i, a + 1, 2}); }
        M.rows = rows; M.cols = K; unsigned miss = (unsigned)pick(r, {0, 0, 1, 10});
        for (i64 i = 0; i < rows; ++i) { if (r.below(100) < miss) continue; i64 k = r.chance(1, 5) ? (i64)r.below(K) : 0; M.e.push_back({i, k, 1}); if (k + 1 < K && r.chance(1, 9)) M.e.push_back({i, k + 1, 1}); }
    }
    c.m = {A, B, M};
}
// few rows, each with thousands to more than 2^17 entries in operands, mask and result
void gen_long(Rng &r, Case &c, bool small) {
    if (r.chance(2, 5)) { // long rows of A instead: many short rows of B meet in one row of the result
        i64 rows = r.range(1, 3), K = pick(r, {r.range(900, 3000), r.range(900, 3000), r.range(3000, 9000), r.range(30000, 70000)}), cols = pick(r, {r.range(1, 6), r.range(10, 300), r.range(1000, 30000)}); if (small) K = 900 + K % 2100, cols = std::min<i64>(cols, 4000);
        Mat A, B, M; A.rows = M.rows = rows; A.cols = B.rows = K; B.cols = M.cols = cols; int style = (int)r.below(4); unsigned keep = (unsigned)pick(r, {100, 100, 95, 60}); i64 base = (i64)r.below(cols);
        for (i64 k = 0; k < K; ++k) { // one, two or no entries; ascending, descending, clustered or scattered
            if (r.chance(1, 10)) continue;
            i64 j = style == 0 ? k % cols : style == 1 ? cols - 1 - k % cols : style == 2 ? std::min(cols - 1, base + (i64)r.below(8)) : (i64)r.below(cols); B.e.push_back({k, j, gen_val(r)}); if (j + 1 < cols && r.chance(1, 4)) B.e.push_back({k, j + 1 + (i64)r.below(cols - j - 1), gen_val(r)});
        }
        i64 most = 1500000 / K + 2;
        for (i64 i = 0; i < rows; ++i) {
            if (r.chance(7, 8)) for (i64 k = 0; k < K; ++k) if (keep == 100 || r.below(100) < keep) A.e.push_back({i, k, gen_val(r)});
            std::set<i64> m; i64 n = r.range(1, std::min(most, cols)); if (n == cols || r.chance(1, 3)) { i64 lo = (i64)r.below(cols - n + 1); for (i64 j = 0; j < n; ++j) m.insert(lo + j); } else for (i64 j = 0; j < n; ++j) m.insert(style == 2 && r.chance(1, 2) ? std::min(cols - 1, base + (i64)r.below(8)) : (i64)r.below(cols));
            for (i64 j : m) M.e.push_back({i, j, 1});
        }
        c.m = {A, B, M}; return;
    }
    i64 rows = r.range(1, 3), K = r.range(1, 4), cols = pick(r, {r.range(1000, 5000), r.range(1000, 5000), r.range(30000, 70000), r.range(65500, 65600), r.range(65536, 140000)}); if (small) cols = 1000 + cols % 4000;
    auto line = [&](Mat &m, i64 i, i64 left) {
        i64 lo = r.chance(1, 2) ? 0 : (i64)r.below(cols / 2), hi = r.chance(1, 2) ? cols : lo + r.range(1, cols - lo), st = pick(r, {1, 1, 1, 2, 3, 5}); unsigned keep = (unsigned)pick(r, {100, 100, 97, 50, 10}); i64 n = 0;
        for (i64 j = lo; j < hi && n < left; j += st) if (keep == 100 || r.below(100) < keep) { m.e.push_back({i, j, gen_val(r)}); ++n; }
    };
    Mat A, B, M; A.rows = M.rows = rows; A.cols = B.rows = K; B.cols = M.cols = cols; i64 left = 300000 / (rows * K);
    for (i64 k = 0; k < K; ++k) { size_t b = B.e.size(); if (r.chance(7, 8)) line(B, k, left); if (r.chance(1, 3) && (B.e.size() == b || B.e.back()[1] != cols - 1)) B.e.push_back({k, cols - 1, 3}); }
    for (i64 i = 0; i < rows; ++i) { for (i64 k = 0; k < K; ++k) if (r.chance(4, 5)) A.e.push_back({i, k, gen_val(r)}); size_t b = M.e.size(); if (r.chance(7, 8)) line(M, i, 140000); if (r.chance(1, 3) && (M.e.size() == b || M.e.back()[1] != cols - 1)) M.e.push_back({i, cols - 1, 1}); }
    c.m = {A, B, M};
}
bool valid_mult(const Case &c) {
    return c.m.size() >= 3 && c.m[0].cols == c.m[1].rows && c.m[2].rows == c.m[0].rows && c.m[2].cols == c.m[1].cols;
}
}
