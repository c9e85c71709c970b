#include "row.h"
#include "spgemm-blocks/masked-spgemm-poly.h"
#define SET(V) \
ROW_ALG(hash, "Hash", V, A_MASKORDER, MaskedHash<false, false>::Impl) \
ROW_ALG(hashc, "Hash-C-sorted", V, A_COMPL | A_SORTED_OUT, MaskedHash<true, true>::Impl) \
ROW_ALG(hashcu, "Hash-C", V, A_COMPL | A_ANYORDER, MaskedHash<true, false>::Impl)
SET(T_ID)
WIDE(SET(T_LU))
template <int V> static void poly(void *A, void *B, void *C, void *M, const Op &o, unsigned n, const int64_t *) {
    typedef CSR<typename TT<V>::I, typename TT<V>::N> X;
    MaskedSpGEMM1p(*(const X *)A, *(const X *)B, *(X *)C, *(const X *)M, MulF{o.mul}, AddF{o.add}, n);
}
static AddAlg p1({"Poly-1p", T_ID, A_ROW | A_DENSE | A_POLY | A_NEED_SORTED, poly<T_ID>}), p2({"Poly-1p", T_LL, A_ROW | A_DENSE | A_POLY | A_NEED_SORTED, poly<T_LL>});
// VERIF_FALLBACK: without the wide index types
