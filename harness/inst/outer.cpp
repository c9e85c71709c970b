#include <algorithm>
#include "multiply.h"
#include "CSR.h"
#include "CSC.h"
#include "outer_mult.h"
#include "ad.h"
using namespace h;
template <int V> static void outer(void *A_, void *B_, void *C_, void *, const Op &, unsigned n, const int64_t *x) {
    typedef CSR<typename TT<V>::I, typename TT<V>::N> X; typedef CSC<typename TT<V>::I, typename TT<V>::N> Y;
    if (n) omp_set_num_threads(n);
    OuterSpGEMM(*(const Y *)A_, *(const X *)B_, *(X *)C_, (int)x[0], (int)x[1], (int)x[2]);
}
static AddAlg o1({"Outer", T_ID, A_UNMASKED | A_ACSC | A_OUTER | A_PLUS_ONLY | A_NOALIAS | A_NEED_SORTED, outer<T_ID>});
