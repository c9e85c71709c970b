#include "row.h"
ROW_ALG(h64, "Heap64", T_ID, A_NEED_SORTED, MaskedHeap<false, true, 64>::Impl)
ROW_ALG(h512, "Heap512", T_ID, A_NEED_SORTED, MaskedHeap<false, true, 512>::Impl)
ROW_ALG(v0, "Heap_v0", T_ID, A_NEED_SORTED, MaskedHeap_v0)
ROW_ALG(v1, "Heap_v1", T_ID, A_NEED_SORTED, MaskedHeap_v1)
ROW_ALG(v2, "Heap_v2", T_ID, A_NEED_SORTED, MaskedHeap_v2)
ROW_ALG(mca, "MCA", T_ID, A_NEED_SORTED, MCA<false, false>::Impl)
WIDE(ROW_ALG(v0, "Heap_v0", T_LL, A_NEED_SORTED, MaskedHeap_v0))
WIDE(ROW_ALG(v2, "Heap_v2", T_LL, A_NEED_SORTED, MaskedHeap_v2))
WIDE(ROW_ALG(mca, "MCA", T_LU, A_NEED_SORTED, MCA<false, false>::Impl))
// VERIF_FALLBACK: without the wide index types
