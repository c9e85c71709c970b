// Work estimates of the row-wise and inner drivers. b_/m_: objects; per: per-row output array (IT) owned by the caller
#include <algorithm>
#include <omp.h>
#include "multiply.h"
#include "CSR.h"
#include "CSC.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "ad.h"
using namespace h;
// the per-row work of the inner methods may be kept in the index type or in a wider one
template <class A, class B, class M, class IT> static auto inner_work(const A &a, const B &b, const M &m, IT *, int64_t *out, int thr, int) -> decltype((int64_t)calculateWork(a, b, m, out, thr)) { return (int64_t)calculateWork(a, b, m, out, thr); }
template <class A, class B, class M, class IT> static int64_t inner_work(const A &a, const B &b, const M &m, IT *, int64_t *out, int thr, long) {
    IT *t = my_malloc<IT>(a.rows, false); int64_t w = (int64_t)calculateWork(a, b, m, t, thr); for (IT i = 0; i < a.rows; ++i) out[i] = t[i]; my_free(t); return w;
}
template <class IT, class NT> static int64_t work_any(int op, void *a_, void *b_, void *m_, void *per_, int thr) {
    typedef CSR<IT, NT> X; typedef CSC<IT, NT> Y; const X &A = *(X *)a_, &M = *(X *)m_; IT *per = (IT *)per_;
    switch (op) {
    case 0: return (int64_t)calculateFlops(A, *(X *)b_, per, thr);
    case 1: return (int64_t)calculateFlops(A, *(X *)b_, M, per, thr);
    case 2: return inner_work(A, *(Y *)b_, M, (IT *)nullptr, (int64_t *)per_, thr, 0); // the array has 64-bit elements
    case 3: return (int64_t)calculateMultOps(A, *(X *)b_, thr);
    }
    return -1;
}
static AddFn s0("work_0", (void *)work_any<int, double>), s1("work_1", (void *)work_any<int64_t, int64_t>);
