// Conversions between library matrices and GraphBLAS matrices: executes a list of operations over pools of objects.
#include <algorithm>
#include <cstring>
#include <omp.h>
#include "multiply.h"
#include "CSR.h"
#include "CSC.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "grb_util.h"
#include "ad.h"
using namespace h;
#include "../props/grbops.h"
template <class N> static N frombits(int64_t v) { N n; std::memcpy(&n, &v, sizeof n); return n; }
template <class N> static int64_t unbits(N n) { int64_t v = 0; std::memcpy(&v, &n, sizeof n); return v; }
template <class N> static void run_ops(GrbJob &j) {
    typedef uint64_t I; typedef CSR<I, N> X; typedef CSC<I, N> Y;
    GrB_Matrix G[3] = {NULL, NULL, NULL}; X *R[3] = {nullptr, nullptr, nullptr}; Y *K[3] = {nullptr, nullptr, nullptr};
    auto freeG = [&](int b) { if (G[b]) GrB_Matrix_free(&G[b]); G[b] = NULL; };
    for (int64_t q = 0; q < j.nops; ++q) {
        const int64_t *o = j.ops + 6 * q; int a = (int)o[1], b = (int)o[2], c = (int)o[3], d = (int)o[4];
        switch (o[0]) {
        case G_BUILD: {
            const GrbMat &m = j.mats[b]; freeG(a);
            GrB_Index *ri = (GrB_Index *)malloc(sizeof(GrB_Index) * (m.n + 1)), *ci = (GrB_Index *)malloc(sizeof(GrB_Index) * (m.n + 1)); N *v = (N *)malloc(sizeof(N) * (m.n + 1));
            for (int64_t i = 0; i < m.n; ++i) { ri[i] = m.e[3 * i]; ci[i] = m.e[3 * i + 1]; v[i] = frombits<N>(m.e[3 * i + 2]); }
            GrbMatrixBuild<N>()(&G[a], ri, ci, v, m.rows, m.cols, m.n); free(ri); free(ci); free(v); break; }
        case G_UNPACK: delete R[a]; R[a] = nullptr; R[a] = new X(G[b]); break;
        case G_PACK: if (c || !G[b]) { freeG(b); GrB_Matrix_new(&G[b], GrbAlgObj<N>().get_type(), R[a]->rows, R[a]->cols); } R[a]->get_grb_mat(G[b]); delete R[a]; R[a] = nullptr; break;
        case G_EXPORT_COPY: { X *n = new X(&G[b], true); delete R[a]; R[a] = n; break; }
        case G_EXPORT_MOVE: { X *n = new X(&G[b], false); G[b] = NULL; delete R[a]; R[a] = n; break; }
        case G_COPY: { GrB_Matrix old = G[b]; R[a]->get_grb_mat(&G[b]); if (old) GrB_Matrix_free(&old); break; }
        case G_IMPORT: freeG(b); R[a]->get_grb_mat_ptr(&G[b]); delete R[a]; R[a] = nullptr; break;
        case G_UNPACK_CSC: delete K[a]; K[a] = nullptr; K[a] = new Y(G[b]); break;
        case G_PACK_CSC: if (c || !G[b]) { freeG(b); GrB_Matrix_new(&G[b], GrbAlgObj<N>().get_type(), K[a]->rows, K[a]->cols); } K[a]->get_grb_mat(G[b]); delete K[a]; K[a] = nullptr; break;
        case G_MULT: {
            X *n = new X();
            auto mul = [](const N &x, const N &y) -> N { return x * y; }; auto add = [](const N &x, const N &y) -> N { return x + y; };
            if (o[5] & 1) MaskedSpGEMM2p<MaskedHash<false, false>::Impl>(*R[a], *R[b], *n, *R[c], mul, add, (unsigned)j.threads);
            else MaskedSpGEMM1p<MSA2A<false, false>::Impl>(*R[a], *R[b], *n, *R[c], mul, add, (unsigned)j.threads);
            delete R[d]; R[d] = n; break; }
        case G_BASE: if (R[a]->zerobased) R[a]->ConvertOneBased(); else R[a]->ConvertZeroBased(); break;
        case G_MXM: {
            GrB_Index m, n; GrB_Matrix_nrows(&m, G[a]); GrB_Matrix_ncols(&n, G[b]); GrB_Matrix t; GrB_Matrix_new(&t, GrbAlgObj<N>().get_type(), m, n);
            GrB_mxm(t, NULL, NULL, GrbAlgObj<N>().get_sr_plus_times(), G[a], G[b], NULL); freeG(d); G[d] = t; break; }
        case G_TO_CSC: { GrB_Matrix t = NULL; convert_to_csc<N>(G[a], &t); freeG(b); G[b] = t; break; }
        case G_LOWTRI: { GrB_Matrix t = NULL; get_lowtri<N>(G[a], &t); freeG(b); G[b] = t; break; }
        case G_SORTDEG: { GrB_Matrix old = G[a]; sort_by_degree<N>(&G[a]); if (G[a] != old) GrB_Matrix_free(&old); break; }
        case G_SETONE: if constexpr (std::is_same<N, double>::value || std::is_same<N, float>::value || std::is_same<N, int64_t>::value || std::is_same<N, uint64_t>::value) avoid_iso<N>(G[a], frombits<N>(o[5]), (GrB_Index)b, (GrB_Index)c); break;
        case G_READ: { freeG(a); char p[16] = "/sim/m0"; p[6] = (char)('0' + b); read_grb_mtx<N>(&G[a], p, (bool)c, (bool)d, false); break; }
        }
        // show every object to the harness
        for (int s = 0; s < 3; ++s) {
            if (G[s]) {
                GrB_Index m, n, k; GrB_Matrix_nrows(&m, G[s]); GrB_Matrix_ncols(&n, G[s]); GrB_Matrix_nvals(&k, G[s]);
                if (k > (1u << 22)) { j.show(q, 0, s, m, n, (int64_t)k, nullptr, nullptr, nullptr, 1); continue; }
                GrB_Index *ri = (GrB_Index *)malloc(sizeof(GrB_Index) * (k + 1)), *ci = (GrB_Index *)malloc(sizeof(GrB_Index) * (k + 1)); N *v = (N *)malloc(sizeof(N) * (k + 1));
                GrB_Index kk = k; GrbMatrixExtractTuples<N>()(ri, ci, v, &kk, G[s]);
                j.show(q, 0, s, m, n, (int64_t)k, ri, ci, v, 1); free(ri); free(ci); free(v);
            } else j.show(q, 0, s, -1, -1, 0, nullptr, nullptr, nullptr, 1);
            if (R[s]) j.show(q, 1, s, R[s]->rows, R[s]->cols, R[s]->nnz, R[s]->rowptr, R[s]->colids, R[s]->values, R[s]->zerobased); else j.show(q, 1, s, -1, -1, 0, nullptr, nullptr, nullptr, 1);
            if (K[s]) j.show(q, 2, s, K[s]->rows, K[s]->cols, K[s]->nnz, K[s]->colptr, K[s]->rowids, K[s]->values, 1); else j.show(q, 2, s, -1, -1, 0, nullptr, nullptr, nullptr, 1);
        }
    }
    for (int s = 0; s < 3; ++s) { freeG(s); delete R[s]; delete K[s]; }
}
static AddFn f0("grb_0", (void *)run_ops<double>), f1("grb_1", (void *)run_ops<int64_t>), f2("grb_2", (void *)run_ops<uint64_t>), f3("grb_3", (void *)run_ops<float>), f4("grb_4", (void *)run_ops<uint32_t>), f5("grb_5", (void *)run_ops<int32_t>);
