// The k-truss program and its computation with every masked method it offers.
#define main ktruss_main
#include "benchmarks/KTrussAllGrb.cpp"
#undef main
#include "app.h"
#include "ad.h"
using namespace h;
#ifndef VERIF_FALLBACK // names inside the program: without them only the program as a whole is run
typedef uint64_t I; typedef int64_t N; typedef CSR<I, N> R; typedef CSC<I, N> K;
typedef void (*FR)(const R &, const R &, R &, const R &, N(N &, N &), plus<N>, unsigned);
typedef void (*FC)(const R &, const K &, R &, const R &, N(N &, N &), plus<N>, unsigned);
static FR cur_r; static FC cur_c; static AppJob *cur_j;
static void keep(const R &C) {
    AppJob &j = *cur_j; free(j.re); j.rn = (int64_t)C.nnz; j.re = (int64_t *)malloc(sizeof(int64_t) * 3 * (C.nnz + 1)); int64_t k = 0;
    for (I r = 0; r < C.rows; ++r) for (I p = C.rowptr[r]; p < C.rowptr[r + 1]; ++p) { j.re[3 * k] = (int64_t)r; j.re[3 * k + 1] = (int64_t)C.colids[p]; j.re[3 * k + 2] = C.values[p]; ++k; }
}
static void wrap_r(const R &A, const R &B, R &C, const R &M, N m(N &, N &), plus<N> a, unsigned t) { cur_r(A, B, C, M, m, a, t); keep(C); }
static void wrap_c(const R &A, const K &B, R &C, const R &M, N m(N &, N &), plus<N> a, unsigned t) { cur_c(A, B, C, M, m, a, t); keep(C); }
struct Ent { const char *name; FR r; FC c; };
#define E1(X) {#X, X, nullptr}
static const Ent ents[] = {
    {"inner 1p", nullptr, MaskedSpGEMM1p<MaskedInner>}, {"inner 2p", nullptr, MaskedSpGEMM2p<MaskedInner>},
    E1(MaskedSPASpGEMM), E1((MaskedSpGEMM1p<MSA2A<false, false>::Impl>)), E1((MaskedSpGEMM2p<MSA2A<false, false>::Impl>)), E1((MaskedSpGEMM1p<MSA1A<false, false>::Impl>)), E1((MaskedSpGEMM2p<MSA1A<false, false>::Impl>)),
    E1(mxm_hash_mask_wobin), E1(mxm_hash_mask), E1((MaskedSpGEMM1p<MaskedHash<false, false>::Impl>)), E1((MaskedSpGEMM2p<MaskedHash<false, false>::Impl>)),
    E1((MaskedSpGEMM1p<MaskedHeap<false, true, 0>::Impl>)), E1((MaskedSpGEMM2p<MaskedHeap<false, true, 0>::Impl>)), E1((MaskedSpGEMM1p<MaskedHeap<false, true, 1>::Impl>)), E1((MaskedSpGEMM2p<MaskedHeap<false, true, 1>::Impl>)),
    E1((MaskedSpGEMM1p<MaskedHeap<false, true, MaskedHeapDot>::Impl>)), E1((MaskedSpGEMM2p<MaskedHeap<false, true, MaskedHeapDot>::Impl>)),
    E1((MaskedSpGEMM1p<MCA<false, false>::Impl>)), E1((MaskedSpGEMM2p<MCA<false, false>::Impl>)), E1(MaskedSpGEMM1p),
};
static const int NE = sizeof ents / sizeof *ents;
static void run_app(AppJob &j) {
    if (j.op < 0) { j.nalgs = NE; static const char *nm[NE]; for (int i = 0; i < NE; ++i) nm[i] = ents[i].name; j.names = nm; return; }
    if (j.op == 1) { j.status = call_main(ktruss_main, j); return; }
    GrB_Matrix A = NULL; GrB_Index *ri = (GrB_Index *)malloc(sizeof(GrB_Index) * (j.ne + 1)), *ci = (GrB_Index *)malloc(sizeof(GrB_Index) * (j.ne + 1)); N *v = (N *)malloc(sizeof(N) * (j.ne + 1));
    for (int64_t i = 0; i < j.ne; ++i) { ri[i] = j.e[2 * i]; ci[i] = j.e[2 * i + 1]; v[i] = 1 + (N)(i % 7); }
    GrbMatrixBuild<N>()(&A, ri, ci, v, j.n, j.n, j.ne); free(ri); free(ci); free(v);
    if (GrB_Matrix_wait(A, GrB_MATERIALIZE)) {}
    vector<int> tnums = {j.threads}; cur_j = &j; cur_r = ents[j.alg].r; cur_c = ents[j.alg].c;
    { CoutCapture c(j);
      if (cur_r) msp_ktruss<I, N, CSR, CSR, CSR, CSR>("g", "alg", wrap_r, j.iters > 1, j.iters > 1 ? j.iters - 1 : 1, tnums, A, j.k, 1);
      else msp_ktruss<I, N, CSR, CSC, CSR, CSR>("g", "alg", wrap_c, j.iters > 1, j.iters > 1 ? j.iters - 1 : 1, tnums, A, j.k, 1); }
    j.status = 0;
}
#else
static void run_app(AppJob &j) { if (j.op < 0) { j.nalgs = 0; return; } j.status = call_main(ktruss_main, j); }
#endif
static AddFn f0("app_ktruss", (void *)run_app);
