#include <omp.h>
#include "ad.h"
using namespace h;
// calls f(arg) from inside an active parallel region (a nested call for the code under test)
static void nested(int n, void (*f)(void *), void *arg) {
#pragma omp parallel num_threads(n)
    {
#pragma omp single
        f(arg);
    }
}
static AddFn f1("nested_call", (void *)nested);
