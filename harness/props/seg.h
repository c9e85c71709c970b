// Comparing matrices segment by segment as multisets of entries.
#pragma once
#include "../mx.h"
#include <algorithm>
namespace h {
typedef std::vector<std::pair<i64, u64>> Seg;
static std::vector<Seg> segs(const HMat &m, bool canon) { std::vector<Seg> s(m.ptr.size() - 1); for (size_t i = 0; i + 1 < m.ptr.size(); ++i) { for (i64 k = m.ptr[i]; k < m.ptr[i + 1]; ++k) s[i].push_back({m.idx[k], m.val[k]}); if (canon) std::sort(s[i].begin(), s[i].end()); } return s; }
// the object holds exactly the wanted segments (as multisets; sorted: ids must not decrease)
static Verdict match(void *obj, int type, bool by_col, i64 rows, i64 cols, const std::vector<Seg> &want, bool sorted, const std::string &who, u64 &hash) {
    HMat g; std::string err;
    if (!read_obj(obj, type, by_col, g, err)) return Verdict::bad("malformed-result", who + err);
    if (g.rows != rows || g.cols != cols) return Verdict::bad("malformed-result", who + fmt("dimensions %lldx%lld instead of %lldx%lld", (long long)g.rows, (long long)g.cols, (long long)rows, (long long)cols));
    auto s = segs(g, false);
    for (size_t i = 0; i < want.size(); ++i) {
        if (sorted) for (size_t k = 1; k < s[i].size(); ++k) if (s[i][k].first < s[i][k - 1].first) return Verdict::bad("not-sorted", who + fmt("segment %zu: id %lld after %lld", i, (long long)s[i][k].first, (long long)s[i][k - 1].first));
        std::sort(s[i].begin(), s[i].end()); Seg w = want[i]; std::sort(w.begin(), w.end());
        if (s[i] != w) {
            size_t k = 0; while (k < w.size() && k < s[i].size() && w[k] == s[i][k]) ++k;
            std::string a = k < s[i].size() ? fmt("(%lld, %s)", (long long)s[i][k].first, show_val(type, s[i][k].second).c_str()) : "nothing", b = k < w.size() ? fmt("(%lld, %s)", (long long)w[k].first, show_val(type, w[k].second).c_str()) : "nothing";
            return Verdict::bad("wrong-result", who + fmt("segment %zu has %zu entries instead of %zu; first difference: ", i, s[i].size(), w.size()) + a + " instead of " + b);
        }
    }
    hash = hash_of(g); return Verdict();
}
}
