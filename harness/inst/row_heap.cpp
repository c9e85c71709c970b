#include "row.h"
ROW_ALG(h0, "Heap0", T_ID, A_NEED_SORTED, MaskedHeap<false, true, 0>::Impl)
ROW_ALG(h1, "Heap1", T_ID, A_NEED_SORTED, MaskedHeap<false, true, 1>::Impl)
ROW_ALG(h8, "Heap8", T_ID, A_NEED_SORTED, MaskedHeap<false, true, 8>::Impl)
ROW_ALG(hd, "HeapDot", T_ID, A_NEED_SORTED, MaskedHeap<false, true, MaskedHeapDot>::Impl)
ROW_ALG(hc, "Heap-C", T_ID, A_NEED_SORTED | A_COMPL | A_SORTED_OUT, MaskedHeap<true, true, 0>::Impl)
WIDE(ROW_ALG(h1, "Heap1", T_LU, A_NEED_SORTED, MaskedHeap<false, true, 1>::Impl))
WIDE(ROW_ALG(hd, "HeapDot", T_LU, A_NEED_SORTED, MaskedHeap<false, true, MaskedHeapDot>::Impl))
WIDE(ROW_ALG(hc, "Heap-C", T_LU, A_NEED_SORTED | A_COMPL | A_SORTED_OUT, MaskedHeap<true, true, 0>::Impl))
// VERIF_FALLBACK: without the wide index types
