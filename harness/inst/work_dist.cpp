// The assignment of rows to threads of the row-wise drivers.
#include <algorithm>
#include <omp.h>
#include "multiply.h"
#include "CSR.h"
#include "CSC.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "ad.h"
using namespace h;
// the accumulated work may be kept in the index type or in a wider one
template <class IT, class = void> struct Cum { typedef IT T; };
template <class IT> struct Cum<IT, decltype((void)distributeWork((int64_t)0, (int64_t *)nullptr, IT(0), 1, 0))> { typedef int64_t T; };
template <class IT> static void dist_any(const void *work_, int64_t rows, int64_t total, int thr, int64_t *be) {
    typedef typename Cum<IT>::T T;
    T *cum = my_malloc<T>(rows + 1);
    exclusiveScan((const IT *)work_, (size_t)rows, cum, thr);
    for (int t = 0; t < thr; ++t) { auto p = distributeWork((T)total, cum, (IT)rows, thr, t); be[2 * t] = std::get<0>(p); be[2 * t + 1] = std::get<1>(p); }
    my_free(cum);
}
static AddFn d0("dist_0", (void *)dist_any<int>), d1("dist_1", (void *)dist_any<int64_t>);
