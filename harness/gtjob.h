#ifndef VERIF_GTJOB_H
#define VERIF_GTJOB_H
/* one call of a serial generator; op 0: the program, 1: the in-memory interface (R-MAT only) */
struct GtJob { int op, argc; char **argv; int status; int scale, edgefactor; double a, b, c, d; long n, m, *start, *end, *w; };
#endif
