#include <algorithm>
#include <omp.h>
#include "multiply.h"
#include "CSR.h"
#include "CSC.h"
#include "outer_mult.h"
#include "ad.h"
using namespace h;
template <class IT, class NT> static int64_t w(int, void *a_, void *b_, void *, void *, int thr) {
    if (thr) omp_set_num_threads(thr); return (int64_t)getFlop(*(CSC<IT, NT> *)a_, *(CSR<IT, NT> *)b_);
}
static AddFn s0("workouter_0", (void *)w<int, double>), s1("workouter_1", (void *)w<int64_t, int64_t>);
