// Random streams used by several threads at once, one stream each.
#include <cstdint>
#include <thread>
#include <vector>
#include "ad.h"
using namespace h;
extern "C" { int get_rn_int(int *); float get_rn_flt(int *); double get_rn_dbl(int *); }
struct Draw { int *s; int kind, n; double *out; };
static void draw_all(Draw *d) {
    for (int i = 0; i < d->n; ++i) d->out[i] = d->kind == 0 ? (double)get_rn_int(d->s) : d->kind == 1 ? get_rn_dbl(d->s) : (double)get_rn_flt(d->s);
}
static void run_draws(Draw *d, int k) { // entry 0 is drawn by the calling thread
    std::vector<std::thread> th;
    for (int t = 1; t < k; ++t) th.emplace_back(draw_all, d + t);
    draw_all(d); for (auto &x : th) x.join();
}
static AddFn f0("streams", (void *)run_draws);
