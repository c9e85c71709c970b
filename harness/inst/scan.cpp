// Prefix sums of the code under test.
#include <algorithm>
#include <omp.h>
#include "multiply.h"
#include "CSR.h"
#include "CSC.h"
#include "spgemm-blocks/scan.h"
#include "ad.h"
using namespace h;
template <class T> static void scan_any(int op, const void *src, int64_t n, void *dst, int thr) {
    const T *s = (const T *)src; T *d = (T *)dst;
    switch (op) {
    case 0: inclusiveScan(s, (size_t)n, d, thr); break;
    case 1: exclusiveScan(s, (size_t)n, d, thr); break;
    case 2: case 3: { // from inside the caller's own team
        T *part = nullptr;
#pragma omp parallel num_threads(thr)
        {
#pragma omp single
            part = my_malloc<T>(omp_get_num_threads(), false);
            if (op == 2) inclusiveScan(s, (size_t)n, d, omp_get_num_threads(), part); else exclusiveScan(s, (size_t)n, d, omp_get_num_threads(), part);
        }
        my_free(part); break; }
    case 4: if (thr) omp_set_num_threads(thr); scan((T *)src, d, (T)n); break;
    case 5: seq_scan((T *)src, d, (T)n); break;
    }
}
static AddFn s0("scan_int", (void *)scan_any<int>), s1("scan_i64", (void *)scan_any<int64_t>), s2("scan_u64", (void *)scan_any<size_t>);
