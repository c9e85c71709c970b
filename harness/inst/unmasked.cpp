#include <algorithm>
#include "multiply.h"
#include "CSR.h"
#include "CSC.h"
#include "hash_mult_hw.h"
#include "heap_mult.h"
#include "heap_mult_generic.h"
#include "ad.h"
using namespace h;
#define UM(id, nm, V, flags, CALL) \
    static void id##_##V(void *A_, void *B_, void *C_, void *, const Op &o, unsigned n, const int64_t *x) { \
        typedef CSR<TT<V>::I, TT<V>::N> X; typedef CSC<TT<V>::I, TT<V>::N> Y; CALL; } \
    static AddAlg a_##id##_##V({nm, V, (flags) | A_UNMASKED | A_NOALIAS, id##_##V});
#define RR const X &A = *(const X *)A_, &B = *(const X *)B_; X &C = *(X *)C_; if (!n) n = omp_get_max_threads()
#define CC const Y &A = *(const Y *)A_, &B = *(const Y *)B_; Y &C = *(Y *)C_
#define SET(V) \
UM(hs, "UHash-sorted", V, A_SORTED_OUT, RR; (HashSpGEMM<true>(A, B, C, MulF{o.mul}, AddF{o.add}, n))) \
UM(hu, "UHash", V, A_ANYORDER, RR; (HashSpGEMM<false>(A, B, C, MulF{o.mul}, AddF{o.add}, n))) \
UM(hb, "UGenBasicHeap", V, A_NEED_SORTED, RR; HeapSpGEMM<rowAlg::BasicHeap>(A, B, C, MulF{o.mul}, AddF{o.add}, n)) \
UM(hl, "UGenHeapLinear", V, A_NEED_SORTED, RR; HeapSpGEMM<rowAlg::HeapLinear<8>>(A, B, C, MulF{o.mul}, AddF{o.add}, n)) \
UM(hc, "UHeapCSC", V, A_NEED_SORTED | A_ACSC | A_BCSC | A_CCSC, CC; HeapSpGEMM(A, B, C, MulF{o.mul}, AddF{o.add}))
SET(T_ID)
WIDE(SET(T_LL))
// VERIF_FALLBACK: without the wide index types
