// The binned row partition of the code under test.
#include <algorithm>
#include <omp.h>
#include "multiply.h"
#include "CSR.h"
#include "CSC.h"
#include "BIN.h"
#include "ad.h"
using namespace h;
template <class IT, class NT> static int64_t bin_any(void *a_, void *b_, int64_t min, int thr, void *per_, void *off_, void *id_) {
    typedef CSR<IT, NT> X; const X &A = *(X *)a_, &B = *(X *)b_;
    BIN<IT, NT> bin(A.rows, (IT)min, thr);
    bin.set_max_bin(A.rowptr, A.colids, B.rowptr, A.rows, B.cols);
    for (IT i = 0; i < A.rows; ++i) { ((IT *)per_)[i] = bin.row_nz[i]; ((char *)id_)[i] = bin.bin_id[i]; }
    for (int i = 0; i <= thr; ++i) ((IT *)off_)[i] = bin.rows_offset[i];
    bin.create_local_hash_table(B.cols);
    return (int64_t)bin.total_intprod;
}
static AddFn b0("bin_0", (void *)bin_any<int, double>), b1("bin_1", (void *)bin_any<int64_t, int64_t>);
