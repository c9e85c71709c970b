#include <algorithm>
#include <omp.h>
#include "multiply.h"
#include "CSR.h"
#include "CSC.h"
#include "inner_mult.h"
#include "ad.h"
using namespace h;
template <class IT, class NT> static int64_t w(int, void *a_, void *b_, void *, void *per, int thr) {
    typedef CSC<IT, NT> Y; if (thr) omp_set_num_threads(thr); return (int64_t)(per ? get_flop(*(Y *)a_, *(Y *)b_, (IT *)per) : get_flop(*(Y *)a_, *(Y *)b_));
}
static AddFn s0("workinner_0", (void *)w<int, double>), s1("workinner_1", (void *)w<int64_t, int64_t>);
