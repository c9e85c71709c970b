// Shared by the application modules and their instrumented units.
#pragma once
struct AppJob {
    int op;                      // 0: direct call, 1: whole program
    int alg, threads, k, iters;
    int64_t n, ne; const int64_t *e;   // entries (row, column) of the adjacency matrix
    int64_t ns; const int64_t *src;
    int argc; const char **argv;
    int status; char *out;             // printed text
    int64_t rn; int64_t *re;           // resulting triples
    double *rd;                        // resulting vector
    int nalgs; const char **names; const int *flags;
};
