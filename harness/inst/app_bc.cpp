// The betweenness-centrality program and its computation with every pair of masked methods it offers.
#define main bc_main
#include "benchmarks/BCAllGrb.cpp"
#undef main
#include "app.h"
#include "ad.h"
using namespace h;
#ifndef VERIF_FALLBACK // names inside the program: without them only the program as a whole is run
typedef uint64_t I; typedef float N; typedef CSR<I, N> R;
typedef void (*FR)(const R &, const R &, R &, const R &, N(N &, N &), plus<N>, unsigned);
struct Ent { const char *name; FR p, c; };
#define P2(X, T, F) {#X " 1p", MaskedSpGEMM1p<X<F>::Impl>, MaskedSpGEMM1p<X<T>::Impl>}, {#X " 2p", MaskedSpGEMM2p<X<F>::Impl>, MaskedSpGEMM2p<X<T>::Impl>}
static const Ent ents[] = {
    {"heap 1p", MaskedSpGEMM1p<MaskedHeap<false, true, 0>::Impl>, MaskedSpGEMM1p<MaskedHeap<true, true, 0>::Impl>}, {"heap 2p", MaskedSpGEMM2p<MaskedHeap<false, true, 0>::Impl>, MaskedSpGEMM2p<MaskedHeap<true, true, 0>::Impl>},
    {"hash 1p", MaskedSpGEMM1p<MaskedHash<false, false>::Impl>, MaskedSpGEMM1p<MaskedHash<true, true>::Impl>}, {"hash 2p", MaskedSpGEMM2p<MaskedHash<false, false>::Impl>, MaskedSpGEMM2p<MaskedHash<true, true>::Impl>},
    {"msa1 1p", MaskedSpGEMM1p<MSA1A<false, false>::Impl>, MaskedSpGEMM1p<MSA1A<true, true>::Impl>}, {"msa1 2p", MaskedSpGEMM2p<MSA1A<false, false>::Impl>, MaskedSpGEMM2p<MSA1A<true, true>::Impl>},
    {"msa2 1p", MaskedSpGEMM1p<MSA2A<false, false>::Impl>, MaskedSpGEMM1p<MSA2A<true, true>::Impl>}, {"msa2 2p", MaskedSpGEMM2p<MSA2A<false, false>::Impl>, MaskedSpGEMM2p<MSA2A<true, true>::Impl>},
};
static const int NE = sizeof ents / sizeof *ents;
static void run_app(AppJob &j) {
    if (j.op < 0) { j.nalgs = NE; static const char *nm[NE]; for (int i = 0; i < NE; ++i) nm[i] = ents[i].name; j.names = nm; return; }
    if (j.op == 1) { j.status = call_main(bc_main, j); return; }
    GrB_Matrix A = NULL; GrB_Index *ri = (GrB_Index *)malloc(sizeof(GrB_Index) * (j.ne + 1)), *ci = (GrB_Index *)malloc(sizeof(GrB_Index) * (j.ne + 1)); N *v = (N *)malloc(sizeof(N) * (j.ne + 1));
    for (int64_t i = 0; i < j.ne; ++i) { ri[i] = j.e[2 * i]; ci[i] = j.e[2 * i + 1]; v[i] = 1 + (N)(i % 7); }
    GrbMatrixBuild<N>()(&A, ri, ci, v, j.n, j.n, j.ne); free(ri); free(ci); free(v);
    if (GrB_Matrix_wait(A, GrB_MATERIALIZE)) {}
    vector<GrB_Index> srcs(j.src, j.src + j.ns); stats_bc st; GrB_Vector delta = NULL;
    GxB_Global_Option_set(GxB_GLOBAL_NTHREADS, j.threads); omp_set_num_threads(j.threads);
    for (int q = 0; q < j.iters; ++q) { if (delta) GrB_Vector_free(&delta); delta = NULL; msp_bc_internal<I, N, CSR, CSR, CSR, CSR>(ents[j.alg].p, ents[j.alg].c, &delta, A, srcs, st, j.threads); }
    j.rn = j.n; j.rd = (double *)malloc(sizeof(double) * (j.n + 1));
    for (int64_t i = 0; i < j.n; ++i) { double x = 0; j.rd[i] = GrB_Vector_extractElement_FP64(&x, delta, i) == GrB_SUCCESS ? x : 0; }
    j.status = 0;
}
#else
static void run_app(AppJob &j) { if (j.op < 0) { j.nalgs = 0; return; } j.status = call_main(bc_main, j); }
#endif
static AddFn f0("app_bc", (void *)run_app);
