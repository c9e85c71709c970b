#pragma once
#include <cstdint>
// operations of the GraphBLAS exchange histories: op, a, b, c, d, x
enum { G_BUILD, G_UNPACK, G_PACK, G_EXPORT_COPY, G_EXPORT_MOVE, G_COPY, G_IMPORT, G_UNPACK_CSC, G_PACK_CSC, G_MULT, G_BASE, G_MXM, G_TO_CSC, G_LOWTRI, G_SORTDEG, G_SETONE, G_READ, G_NOPS };
struct GrbMat { int64_t rows, cols, n; const int64_t *e; };
struct GrbJob { const GrbMat *mats; const int64_t *ops; int64_t nops; int threads; void (*show)(int64_t op, int kind, int slot, int64_t rows, int64_t cols, int64_t n, const void *p, const void *i, const void *v, int zero); };
