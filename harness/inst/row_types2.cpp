#include "row.h"
// value types of other sizes
#define SET(V) \
ROW_ALG(msa1acu, "MSA1A-C", V, A_DENSE | A_COMPL | A_ANYORDER, MSA1A<true, false>::Impl) \
ROW_ALG(msa2ac, "MSA2A-C-sorted", V, A_DENSE | A_COMPL | A_SORTED_OUT, MSA2A<true, true>::Impl) \
ROW_ALG(h1, "Heap1", V, A_NEED_SORTED, MaskedHeap<false, true, 1>::Impl) \
ROW_ALG(hc, "Heap-C", V, A_NEED_SORTED | A_COMPL | A_SORTED_OUT, MaskedHeap<true, true, 0>::Impl) \
ROW_ALG(mca, "MCA", V, A_NEED_SORTED, MCA<false, false>::Impl)
SET(T_IF)
SET(T_IW)
