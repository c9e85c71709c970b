#include <algorithm>
#include "multiply.h"
#include "CSR.h"
#include "CSC.h"
#include "hash_mult_hw.h"
#include "mask_hash_mult.h"
#include "spa_mult.h"
#include "heap_mult_generic.h"
#include "ad.h"
using namespace h;
#define LG(id, nm, V, flags, CALL) \
    static void id##_##V(void *A_, void *B_, void *C_, void *M_, const Op &o, unsigned n, const int64_t *) { \
        typedef CSR<TT<V>::I, TT<V>::N> X; const X &A = *(const X *)A_, &B = *(const X *)B_; X &C = *(X *)C_; const X &M = *(const X *)M_; if (!n) n = omp_get_max_threads(); CALL; } \
    static AddAlg a_##id##_##V({nm, V, (flags) | A_LEGACY | A_NOALIAS, id##_##V});
#define SET(V) \
LG(mh, "HashMask", V, A_ANYORDER, mxm_hash_mask(A, B, C, M, MulF{o.mul}, AddF{o.add}, n)) \
LG(mhw, "HashMaskNoBin", V, A_ANYORDER, mxm_hash_mask_wobin(A, B, C, M, MulF{o.mul}, AddF{o.add}, n)) \
LG(spa, "SPA", V, A_DENSE | A_ANYORDER, MaskedSPASpGEMM(A, B, C, M, MulF{o.mul}, AddF{o.add}, n)) \
LG(g0, "GenHeap_v0", V, A_NEED_SORTED, HeapSpGEMM<rowAlg::MaskedHeap_v0>(A, B, C, M, MulF{o.mul}, AddF{o.add}, n)) \
LG(g1, "GenHeap_v1", V, A_NEED_SORTED, HeapSpGEMM<rowAlg::MaskedHeap_v1>(A, B, C, M, MulF{o.mul}, AddF{o.add}, n)) \
LG(g2, "GenHeap_v2", V, A_NEED_SORTED, HeapSpGEMM<rowAlg::MaskedHeap_v2>(A, B, C, M, MulF{o.mul}, AddF{o.add}, n)) \
LG(m1, "GenMCA_v1", V, A_NEED_SORTED, HeapSpGEMM<rowAlg::MCA_v1>(A, B, C, M, MulF{o.mul}, AddF{o.add}, n)) \
LG(m2, "GenMCA_v2", V, A_NEED_SORTED, HeapSpGEMM<rowAlg::MCA_v2>(A, B, C, M, MulF{o.mul}, AddF{o.add}, n)) \
LG(m3, "GenMCA_v3", V, A_NEED_SORTED, HeapSpGEMM<rowAlg::MCA_v3>(A, B, C, M, MulF{o.mul}, AddF{o.add}, n))
SET(T_ID)
WIDE(SET(T_LL))
// VERIF_FALLBACK: without the wide index types
