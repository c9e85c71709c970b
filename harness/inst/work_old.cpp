// Work estimates of the earlier-generation kernels.
#include <algorithm>
#include <omp.h>
#include "multiply.h"
#include "CSR.h"
#include "CSC.h"
#include "BIN.h"
#include "heap_mult_generic.h"
#include "ad.h"
using namespace h;
template <class IT, class NT> static int64_t work_any(int op, void *a_, void *b_, void *m_, void *per_, int thr) {
    typedef CSR<IT, NT> X; typedef CSC<IT, NT> Y; const X &A = *(X *)a_, &M = *(X *)m_; IT *per = (IT *)per_;
    switch (op) {
    case 4: if (thr) omp_set_num_threads(thr); return (int64_t)tmp::getFlop(A, *(X *)b_, per);
    case 6: return (int64_t)get_flop(A, *(X *)b_);
    case 7: if (thr) omp_set_num_threads(thr); return (int64_t)get_flop(*(Y *)a_, *(X *)b_);
    }
    return -1;
}
static AddFn s0("workold_0", (void *)work_any<int, double>), s1("workold_1", (void *)work_any<int64_t, int64_t>);
