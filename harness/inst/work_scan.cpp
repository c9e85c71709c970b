// The per-range size bounds of the row-wise drivers (they size every per-thread buffer). Only row offsets and counts are read.
#include <algorithm>
#include <omp.h>
#include "multiply.h"
#include "CSR.h"
#include "CSC.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "ad.h"
using namespace h;
template <class IT, class NT> static void scanin_any(int compl_, int64_t rows, int64_t cols, void *pa, void *pm, void *flops, int64_t b, int64_t e, int64_t *out) {
    CSR<IT, NT> A, B, M; A.rows = M.rows = (IT)rows; A.cols = B.rows = 1; B.cols = M.cols = (IT)cols; A.rowptr = (IT *)pa; M.rowptr = (IT *)pm; A.nnz = A.rowptr[rows]; M.nnz = M.rowptr[rows];
    if (compl_) { auto t = scanInputs<true, true, true, true, true>((IT)b, (IT)e, (IT *)flops, A, B, M); out[0] = (int64_t)std::get<0>(t); out[1] = std::get<1>(t); out[2] = std::get<2>(t); out[3] = std::get<3>(t); }
    else { auto t = scanInputs<false, true, true, true, true>((IT)b, (IT)e, (IT *)flops, A, B, M); out[0] = (int64_t)std::get<0>(t); out[1] = std::get<1>(t); out[2] = std::get<2>(t); out[3] = std::get<3>(t); }
    A.nnz = A.rows = M.nnz = M.rows = B.rows = 0; A.rowptr = M.rowptr = nullptr; // the arrays belong to the caller
}
static AddFn d0("scanin_0", (void *)scanin_any<int, double>), d1("scanin_1", (void *)scanin_any<int64_t, int64_t>);
