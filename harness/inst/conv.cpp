// Conversions between storages, builders and the sequentially defined helpers on matrices.
#include <algorithm>
#include <cstring>
#include <omp.h>
#include "CSR.h"
#include "CSC.h"
#include "util/transpose.h"
#include "util/triple-util.h"
#include "ad.h"
using namespace h;
template <class N> static N frombits(int64_t v) { N n; std::memcpy(&n, &v, sizeof n); return n; }
template <class N> static int64_t unbits(N n) { int64_t v = 0; std::memcpy(&v, &n, sizeof n); return v; }
template <class I, class N> static CSR<I, N> *transpose_csr(const CSR<I, N> &a) {
    CSR<I, N> *t = new CSR<I, N>();
    t->rows = a.cols; t->cols = a.rows; t->nnz = a.nnz; t->zerobased = true;
    t->rowptr = my_malloc<I>(t->rows + 1); t->colids = my_malloc<I>(t->nnz); t->values = my_malloc<N>(t->nnz);
    csr2csc_atomic_nosort(a.rows, a.cols, a.nnz, a.rowptr, a.colids, a.values, t->rowptr, t->colids, t->values);
    return t;
}
// op: 0 CSR(CSC), 1 CSR(CSC, false), 2 CSR(CSC, true), 3 transpose, 4 transpose twice, 5 CSC -> CSR -> transpose
template <class I, class N> static void *conv_any(int op, void *src, int thr) {
    typedef CSR<I, N> X; typedef CSC<I, N> Y;
    if (thr) omp_set_num_threads(thr);
    switch (op) {
    case 0: return new X(*(const Y *)src);
    case 1: return new X(*(const Y *)src, false);
    case 2: return new X(*(const Y *)src, true);
    case 3: return transpose_csr(*(const X *)src);
    case 4: { X *t = transpose_csr(*(const X *)src), *u = transpose_csr(*t); delete t; return u; }
    default: { X t(*(const Y *)src); return transpose_csr(t); }
    }
}
struct Job13 { int op, thr, add; int64_t rows, cols, n; const int64_t *e; void *a, *b; int64_t *out; int64_t nout; };
// returns a new object (or nullptr); e holds n triples (row, column, value bits)
template <class I, class N> static void *build_any(Job13 &j) {
    typedef CSR<I, N> X; typedef CSC<I, N> Y; I m = (I)j.rows, n = (I)j.cols, k = (I)j.n;
    if (j.thr) omp_set_num_threads(j.thr);
    AddF add{j.add};
    switch (j.op) {
    case 0: { Triple<I, N> *t = (Triple<I, N> *)malloc(sizeof(Triple<I, N>) * j.n); for (int64_t i = 0; i < j.n; ++i) t[i] = Triple<I, N>((I)j.e[3 * i], (I)j.e[3 * i + 1], frombits<N>(j.e[3 * i + 2])); Y *y = new Y(t, k, m, n); free(t); return y; }
    case 1: { std::vector<std::pair<int64_t, int64_t>> v; for (int64_t i = 0; i < j.n; ++i) v.push_back({j.e[3 * i], j.e[3 * i + 1]}); return new Y(v, k, m, n); }
    case 2: { std::vector<std::tuple<I, I, N>> v; for (int64_t i = 0; i < j.n; ++i) v.push_back(std::make_tuple((I)j.e[3 * i], (I)j.e[3 * i + 1], frombits<N>(j.e[3 * i + 2]))); return new Y(v, m, n, add); }
    case 3: { I *ri = (I *)malloc(sizeof(I) * j.n), *ci = (I *)malloc(sizeof(I) * j.n); N *v = (N *)malloc(sizeof(N) * j.n); for (int64_t i = 0; i < j.n; ++i) { ri[i] = (I)j.e[3 * i]; ci[i] = (I)j.e[3 * i + 1]; v[i] = frombits<N>(j.e[3 * i + 2]); } Y *y = new Y(ri, ci, v, k, m, n); free(ri); free(ci); free(v); return y; }
    case 4: case 5: {
        graph G; G.m = j.n; G.n = j.rows;
        G.start = (decltype(G.start))malloc(sizeof(*G.start) * j.n); G.end = (decltype(G.end))malloc(sizeof(*G.end) * j.n); G.w = (decltype(G.w))malloc(sizeof(*G.w) * j.n);
        for (int64_t i = 0; i < j.n; ++i) { G.start[i] = j.e[3 * i]; G.end[i] = j.e[3 * i + 1]; G.w[i] = j.e[3 * i + 2]; }
        void *r = j.op == 4 ? (void *)new Y(G) : (void *)new X(G); free(G.start); free(G.end); free(G.w); return r; }
    case 6: ((X *)j.a)->sortIds(); return j.a;
    case 7: ((X *)j.a)->shuffleIds(); return j.a;
    case 8: ((Y *)j.a)->shuffleIds(); return j.a;
    case 9: ((Y *)j.a)->MergeDuplicates(add); return j.a;
    case 10: return new X(Intersect(*(const X *)j.a, *(const X *)j.b, add));
    case 11: case 12: {
        Triple<I, N> *t; 
        if (j.op == 11) { t = (Triple<I, N> *)malloc(sizeof(Triple<I, N>) * j.n); for (int64_t i = 0; i < j.n; ++i) t[i] = Triple<I, N>((I)j.e[3 * i], (I)j.e[3 * i + 1], frombits<N>(j.e[3 * i + 2])); j.nout = (int64_t)removeDuplicates(k, t); }
        else j.nout = (int64_t)generateRandomTriples<I, N>(m, n, k, t);
        for (int64_t i = 0; i < j.nout && i < j.n; ++i) { j.out[3 * i] = (int64_t)t[i].row; j.out[3 * i + 1] = (int64_t)t[i].col; j.out[3 * i + 2] = unbits(t[i].val); }
        return nullptr; }
    case 13: j.out[0] = unbits((N)((X *)j.a)->sumall()); return nullptr;
    case 14: { X *x = (X *)j.a, y(*x); // shift to one-based ids and back
        j.out[0] = x->ConvertOneBased(); j.out[1] = x->ConvertOneBased(); bool eq = true; if constexpr (!std::is_unsigned<N>::value) eq = (*x == y) && (y == *x);
        j.out[2] = eq; j.out[3] = x->ConvertZeroBased(); j.out[4] = x->ConvertZeroBased(); return j.a; }
    case 15: if constexpr (!std::is_unsigned<N>::value) j.out[0] = *(X *)j.a == *(const X *)j.b; return nullptr;
    case 16: if constexpr (!std::is_unsigned<N>::value) j.out[0] = *(Y *)j.a == *(const Y *)j.b; return nullptr;
    }
    return nullptr;
}
static AddFn c0("conv_0", (void *)conv_any<int, double>), c1("conv_1", (void *)conv_any<int64_t, int64_t>), c2("conv_2", (void *)conv_any<long, unsigned long>);
static AddFn b0("build_0", (void *)build_any<int, double>), b1("build_1", (void *)build_any<int64_t, int64_t>), b2("build_2", (void *)build_any<long, unsigned long>);
