// Type-erased access to the code under test.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace h {
// index/value types a method is instantiated for
enum VT { T_ID, T_LL, T_LU, T_IF, T_IW, T_NT }; // <int,double> <int64,int64> <long,unsigned long> <uint64,float> <int,16-byte user type>
struct HMat { // one compressed matrix on the host side; values as bits
    int64_t rows = 0, cols = 0; std::vector<int64_t> ptr, idx; std::vector<uint64_t> val;
    bool operator==(const HMat &o) const { return rows == o.rows && cols == o.cols && ptr == o.ptr && idx == o.idx && val == o.val; }
};
struct Op { int mul = 0, add = 0; };
enum AFlag : unsigned {
    A_COMPL = 1, A_TWO = 2, A_BCSC = 4,      // complemented / two-phase / B column stored
    A_NEED_SORTED = 8,                       // needs sorted inputs
    A_SORTED_OUT = 16,                       // sorted output whatever the input order
    A_ANYORDER = 32,                         // output order unspecified
    A_FRESH = 64,                            // output object must be empty
    A_UNMASKED = 128, A_ACSC = 256, A_CCSC = 512, // A / C column stored
    A_MASKORDER = 1024,                      // output follows mask (sorted when the mask is)
    A_LEGACY = 2048, A_POLY = 4096, A_INNER = 8192, A_ROW = 16384, A_OUTER = 32768, A_PLUS_ONLY = 65536,
    A_NOALIAS = 131072, A_LEAKS = 262144, A_DENSE = 1048576, A_ADD0 = 524288, // addition must be plus (identity 0 is built in)
};
struct Alg {
    const char *name; int type; unsigned flags;
    void (*run)(void *A, void *B, void *C, void *M, const Op &op, unsigned threads, const int64_t *extra);
};
std::vector<Alg> &algs();
struct AddAlg { AddAlg(const Alg &a) { algs().push_back(a); } };
const Alg *find_alg(const std::string &name, int type);
// matrix objects (CSR<IT,NT> / CSC<IT,NT>)
struct MatOps {
    void *(*make)(const HMat &);                        // builds an object
    void *(*empty)();
    void *(*copy)(void *);                               // copy constructor
    void (*assign)(void *dst, void *src);
    void (*clear)(void *);                               // make_empty
    void (*destroy)(void *);
    // raw view; does not trust the contents
    void (*view)(void *, int64_t &rows, int64_t &cols, int64_t &nnz, const void *&ptr, const void *&idx, const void *&val);
    void (*sort_ids)(void *);
    bool (*equal)(void *, void *);
    void (*container)(void **o, int n, int k, void *dst); // vector<M> of n>=2 copies, erase slot (k+1)%n, dst = v[k % size]
    void (*rebase)(void *, bool one);                    // shift ids to one-based or back (rows only)
    int it_size, nt_size;
    uint64_t (*getv)(const void *vals, int64_t k, bool &ok); // value bits; ok = false: damaged value
};
extern MatOps csr_ops[T_NT], csc_ops[T_NT];
// generic functions exported by instrumented units
struct Fn { std::string name; void *f; };
std::vector<Fn> &fns();
struct AddFn { AddFn(const char *n, void *f) { fns().push_back({n, f}); } };
template <class F> F get_fn(const char *n) { for (auto &x : fns()) if (x.name == n) return (F)x.f; return nullptr; }
}
