// The multithreaded R-MAT generator (PaRMAT), its program entry point included.
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <string>
// The two compile-time alternatives of the generators become run-time switches; -1 keeps what the tree is configured for.
static int verif_futures = -1, verif_write_mutex = -1;
#define USE_FUTURES_INSTEAD_OF_EXPLICIT_THREADS verif_c1
#define USE_A_MUTEX_TO_CONTROL_WRITE_TO_FILE_INSTEAD_OF_CONCURRENT_QUEUES verif_c2
#include "PaRMAT/src/internal_config.hpp"
#undef USE_FUTURES_INSTEAD_OF_EXPLICIT_THREADS
#undef USE_A_MUTEX_TO_CONTROL_WRITE_TO_FILE_INSTEAD_OF_CONCURRENT_QUEUES
#define USE_FUTURES_INSTEAD_OF_EXPLICIT_THREADS (verif_futures < 0 ? verif_c1 : (bool)verif_futures)
#define USE_A_MUTEX_TO_CONTROL_WRITE_TO_FILE_INSTEAD_OF_CONCURRENT_QUEUES (verif_write_mutex < 0 ? verif_c2 : (bool)verif_write_mutex)
#include "PaRMAT/src/Edge.cpp"
#include "PaRMAT/src/Square.cpp"
#include "PaRMAT/src/utils.cpp"
#include "PaRMAT/src/GraphGen_notSorted.cpp"
#include "PaRMAT/src/GraphGen_sorted.cpp"
#define main parmat_main
#include "PaRMAT/src/PaRMAT.cpp"
#undef main
#include "ad.h"
using namespace h;
struct Job18 { int op, argc; const char **argv; const char *path; unsigned long long edges, maxv, cap; double a, b, c; unsigned threads; int self, dup, directed; int status; int64_t n; int64_t *e; int fut, mtx; };
static void run_parmat(Job18 &j) {
    verif_futures = j.fut; verif_write_mutex = j.mtx;
#ifdef VERIF_FALLBACK // names inside the generator changed: only the program as a whole is run
    if (j.op < 0) { j.status = 1; return; }
#else
    if (j.op < 0) { j.status = 0; return; }
#endif
    switch (j.op) {
    case 0: { // the program
        char **v = (char **)malloc(sizeof(char *) * (j.argc + 1));
        for (int i = 0; i < j.argc; ++i) { v[i] = (char *)malloc(strlen(j.argv[i]) + 1); strcpy(v[i], j.argv[i]); }
        v[j.argc] = nullptr; j.status = parmat_main(j.argc, v);
        for (int i = 0; i < j.argc; ++i) free(v[i]); free(v); break; }
#ifndef VERIF_FALLBACK
    case 1: case 2: { // the generators writing to a stream
        std::ofstream f(j.path);
        bool r = j.op == 1 ? GraphGen_notSorted::GenerateGraph(j.edges, j.maxv, j.a, j.b, j.c, j.threads, f, j.cap, j.self, j.dup, j.directed)
                           : GraphGen_sorted::GenerateGraph(j.edges, j.maxv, j.a, j.b, j.c, j.threads, f, j.cap, j.self, j.dup, j.directed);
        f.close(); j.status = r ? 1 : f.fail() ? 1 : 0; break; }
    case 3: { // the generator returning a list
        auto v = GraphGen_notSorted::GenerateGraph(j.edges, j.maxv, j.a, j.b, j.c, j.threads, j.cap, j.self, j.dup, j.directed);
        j.n = (int64_t)v.size(); j.e = (int64_t *)malloc(sizeof(int64_t) * 2 * (v.size() + 1));
        for (size_t i = 0; i < v.size(); ++i) { j.e[2 * i] = v[i].first; j.e[2 * i + 1] = v[i].second; }
        j.status = 0; break; }
#endif
    }
}
static AddFn f0("parmat", (void *)run_parmat);
