#include <algorithm>
#include "multiply.h"
#include "CSR.h"
#include "CSC.h"
#include "ad.h"
#include <cstring>
using namespace h;
template <int V, bool ROW> struct O {
    typedef typename TT<V>::I I; typedef typename TT<V>::N N;
    typedef typename std::conditional<ROW, CSR<I, N>, CSC<I, N>>::type M;
    static auto &ptr(M &m) { if constexpr (ROW) return m.rowptr; else return m.colptr; }
    static auto &idx(M &m) { if constexpr (ROW) return m.colids; else return m.rowids; }
    static void *make(const HMat &h) {
        M *m = new M();
        m->rows = (I)h.rows; m->cols = (I)h.cols; m->nnz = (I)h.idx.size(); if constexpr (ROW) m->zerobased = true;
        ptr(*m) = (I *)malloc(sizeof(I) * h.ptr.size());
        for (size_t i = 0; i < h.ptr.size(); ++i) ptr(*m)[i] = (I)h.ptr[i];
        idx(*m) = nullptr; m->values = nullptr;
        if (m->nnz) {
            idx(*m) = (I *)malloc(sizeof(I) * h.idx.size()); m->values = (N *)malloc(sizeof(N) * h.idx.size());
            for (size_t i = 0; i < h.idx.size(); ++i) { idx(*m)[i] = (I)h.idx[i]; if constexpr (V == T_IW) m->values[i] = W16((int64_t)h.val[i]); else std::memcpy(&m->values[i], &h.val[i], sizeof(N)); }
        }
        return m;
    }
    static void *empty() { M *m = new M(); return m; }
    static void *copy(void *p) { return new M(*(const M *)p); }
    static void assign(void *d, void *s) { *(M *)d = *(const M *)s; }
    static void clear(void *p) { ((M *)p)->make_empty(); }
    static void destroy(void *p) { delete (M *)p; }
    static void view(void *p, int64_t &r, int64_t &c, int64_t &n, const void *&a, const void *&b, const void *&v) {
        M &m = *(M *)p; r = m.rows; c = m.cols; n = m.nnz; a = ptr(m); b = idx(m); v = m.values;
    }
    static void container(void **o, int n, int k, void *dst) { // through a growing vector of matrices
        std::vector<M> v; for (int i = 0; i < n; ++i) v.push_back(*(const M *)o[i]);
        v.erase(v.begin() + (k + 1) % n); *(M *)dst = v[k % (int)v.size()];
    }
    static uint64_t getv(const void *v, int64_t k, bool &ok) {
        if constexpr (V == T_IW) { const W16 &w = ((const W16 *)v)[k]; if (!w.ok()) ok = false; return w.a; }
        else { uint64_t x = 0; std::memcpy(&x, (const char *)v + k * sizeof(N), sizeof(N)); return x; }
    }
    static void sort_ids(void *p) { if constexpr (ROW) ((M *)p)->sortIds(); }
    static bool equal(void *a, void *b) { if constexpr (V == T_LU || V == T_IW) return true; else return *(M *)a == *(const M *)b; }
    static void rebase(void *p, bool one) { if constexpr (ROW) { if (one) ((M *)p)->ConvertOneBased(); else ((M *)p)->ConvertZeroBased(); } }
    static MatOps ops() { return {make, empty, copy, assign, clear, destroy, view, sort_ids, equal, container, rebase, (int)sizeof(I), (int)sizeof(N), getv}; }
};
#ifdef VERIF_FALLBACK // the code asks more of a value type than the user type offers
#define OPS_IW(ROW) MatOps{}
#else
#define OPS_IW(ROW) O<T_IW, ROW>::ops()
#endif
namespace h {
MatOps csr_ops[T_NT] = {O<T_ID, true>::ops(), O<T_LL, true>::ops(), O<T_LU, true>::ops(), O<T_IF, true>::ops(), OPS_IW(true)};
MatOps csc_ops[T_NT] = {O<T_ID, false>::ops(), O<T_LL, false>::ops(), O<T_LU, false>::ops(), O<T_IF, false>::ops(), OPS_IW(false)};
std::vector<Alg> &algs() { static std::vector<Alg> a; return a; }
std::vector<Fn> &fns() { static std::vector<Fn> a; return a; }
const Alg *find_alg(const std::string &n, int t) { for (auto &a : algs()) if (n == a.name && a.type == t) return &a; return nullptr; }
}
