// Matrix file readers of the code under test.
#include <algorithm>
#include <cstring>
#include "CSR.h"
#include "CSC.h"
#include "IO.h"
#include "ad.h"
using namespace h;
struct Job14 { int op, diag, rnd; const char *path; void *obj; int status; int64_t rows, cols, n; int64_t *e; };
template <class I, class N, class TI> static void read_any(Job14 &j) {
    std::string path(j.path);
    switch (j.op) {
    case 0: j.status = ReadASCII(path, *(CSC<I, N> *)j.obj); break;
    case 1: {
        TI r = 0, c = 0, n = 0, *ri = nullptr, *ci = nullptr; N *v = nullptr;
        j.status = ReadASCII_Triples(path, r, c, n, ri, ci, v, (bool)j.diag, (bool)j.rnd);
        if (j.status != 1) break;
        j.rows = (int64_t)r; j.cols = (int64_t)c; j.n = (int64_t)n; j.e = (int64_t *)malloc(sizeof(int64_t) * 3 * ((size_t)n + 1));
        for (int64_t k = 0; k < j.n; ++k) { j.e[3 * k] = (int64_t)ri[k]; j.e[3 * k + 1] = (int64_t)ci[k]; int64_t b = 0; std::memcpy(&b, &v[k], sizeof(N)); j.e[3 * k + 2] = b; }
        delete[] ri; delete[] ci; delete[] v; break; }
    case 2: j.obj = new CSR<I, N>(path); j.status = 1; break;
    case 3: j.status = ReadBinary(path, *(CSC<I, N> *)j.obj); break;
    }
}
static AddFn r0("read_0", (void *)read_any<int, double, int>), r1("read_1", (void *)read_any<int64_t, int64_t, int64_t>), r2("read_2", (void *)read_any<long, unsigned long, uint64_t>);
