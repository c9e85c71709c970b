#pragma once
#include <algorithm>
#include "multiply.h"
#include "CSR.h"
#include "CSC.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "ad.h"
using namespace h;
#define ROW_ALG1(id, nm, V, flags, ...) \
    static void id##_1_##V(void *A, void *B, void *C, void *M, const Op &o, unsigned n, const int64_t *) { \
        typedef CSR<TT<V>::I, TT<V>::N> X; MaskedSpGEMM1p<__VA_ARGS__>(*(const X *)A, *(const X *)B, *(X *)C, *(const X *)M, MulF{o.mul}, AddF{o.add}, n); } \
    static AddAlg a_##id##_1_##V({nm "-1p", V, (flags) | A_ROW, id##_1_##V});
#define ROW_ALG2(id, nm, V, flags, ...) \
    static void id##_2_##V(void *A, void *B, void *C, void *M, const Op &o, unsigned n, const int64_t *) { \
        typedef CSR<TT<V>::I, TT<V>::N> X; MaskedSpGEMM2p<__VA_ARGS__>(*(const X *)A, *(const X *)B, *(X *)C, *(const X *)M, MulF{o.mul}, AddF{o.add}, n); } \
    static AddAlg a_##id##_2_##V({nm "-2p", V, (flags) | A_ROW | A_TWO, id##_2_##V});
#define ROW_ALG(id, nm, V, flags, ...) ROW_ALG1(id, nm, V, flags, __VA_ARGS__) ROW_ALG2(id, nm, V, flags, __VA_ARGS__)
