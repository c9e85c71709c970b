#include "row.h"
// value types of other sizes
#define SET(V) \
ROW_ALG(hash, "Hash", V, A_MASKORDER, MaskedHash<false, false>::Impl) \
ROW_ALG(hashc, "Hash-C-sorted", V, A_COMPL | A_SORTED_OUT, MaskedHash<true, true>::Impl) \
ROW_ALG(msa1a, "MSA1A", V, A_DENSE | A_MASKORDER, MSA1A<false, false>::Impl) \
ROW_ALG(msa2a, "MSA2A", V, A_DENSE | A_MASKORDER, MSA2A<false, false>::Impl)
SET(T_IF)
SET(T_IW)
