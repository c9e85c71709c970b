#include "row.h"
#define SET(V) \
ROW_ALG(msa1a, "MSA1A", V, A_DENSE | A_MASKORDER, MSA1A<false, false>::Impl) \
ROW_ALG(msa2a, "MSA2A", V, A_DENSE | A_MASKORDER, MSA2A<false, false>::Impl) \
ROW_ALG(msa1ac, "MSA1A-C-sorted", V, A_DENSE | A_COMPL | A_SORTED_OUT, MSA1A<true, true>::Impl) \
ROW_ALG(msa2ac, "MSA2A-C-sorted", V, A_DENSE | A_COMPL | A_SORTED_OUT, MSA2A<true, true>::Impl) \
ROW_ALG(msa1acu, "MSA1A-C", V, A_DENSE | A_COMPL | A_ANYORDER, MSA1A<true, false>::Impl) \
ROW_ALG(msa2acu, "MSA2A-C", V, A_DENSE | A_COMPL | A_ANYORDER, MSA2A<true, false>::Impl)
SET(T_ID)
WIDE(SET(T_LU))
ROW_ALG(msa1ao, "MSA1A_old", T_ID, A_DENSE | A_MASKORDER, MSA1A_old)
ROW_ALG(msa2ao, "MSA2A_old", T_ID, A_DENSE | A_MASKORDER, MSA2A_old)
WIDE(ROW_ALG(msa1ao, "MSA1A_old", T_LL, A_DENSE | A_MASKORDER, MSA1A_old))
WIDE(ROW_ALG(msa2ao, "MSA2A_old", T_LL, A_DENSE | A_MASKORDER, MSA2A_old))
// VERIF_FALLBACK: without the wide index types
