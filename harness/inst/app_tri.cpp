// The triangle-counting program.
#define main tri_main
#include "benchmarks/TriCntAll.cpp"
#undef main
#include "app.h"
#include "ad.h"
using namespace h;
static void run_app(AppJob &j) { j.status = call_main(tri_main, j); }
static AddFn f0("app_tri", (void *)run_app);
