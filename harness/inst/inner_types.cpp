#include <algorithm>
#include "multiply.h"
#include "CSR.h"
#include "CSC.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/masked-spgemm-inner.h"
#include "spgemm-blocks/inner/MaskedInnerSpGEMM.h"
#include "inner_mult.h"
#include "ad.h"
using namespace h;
#define IN(id, nm, V, flags, CALL) \
    static void id##_##V(void *A_, void *B_, void *C_, void *M_, const Op &o, unsigned n, const int64_t *) { \
        typedef CSR<TT<V>::I, TT<V>::N> X; typedef CSC<TT<V>::I, TT<V>::N> Y; const X &A = *(const X *)A_; const Y &B = *(const Y *)B_; X &C = *(X *)C_; const X &M = *(const X *)M_; CALL; } \
    static AddAlg a_##id##_##V({nm, V, (flags) | A_BCSC | A_NEED_SORTED, id##_##V});
#define SET(V) \
IN(i1, "Inner-1p", V, A_INNER | A_NOALIAS, MaskedSpGEMM1p<MaskedInner>(A, B, C, M, MulF{o.mul}, AddF{o.add}, n)) \
IN(i2, "Inner-2p", V, A_INNER | A_TWO | A_NOALIAS, MaskedSpGEMM2p<MaskedInner>(A, B, C, M, MulF{o.mul}, AddF{o.add}, n)) \
IN(ip1, "InnerProduct-1p", V, A_INNER | A_NOALIAS, MaskedSpGEMM1pInnerProduct(A, B, C, M, MulF{o.mul}, AddF{o.add}, n)) \
IN(ip2, "InnerProduct-2p", V, A_INNER | A_TWO | A_NOALIAS, MaskedSpGEMM2pInnerProduct(A, B, C, M, MulF{o.mul}, AddF{o.add}, n))
SET(T_IF)
SET(T_IW)
