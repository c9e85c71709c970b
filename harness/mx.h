// Host-side matrices: generators, reference model, reading objects back.
#pragma once
#include "h.h"
#include "reg.h"
namespace h {
// value encoding of a case value for a type; mode 1: "random" doubles (rounding-sensitive)
u64 enc(int type, i64 v, int mode);
HMat to_hmat(const Mat &m, int type, int mode, bool sorted, bool by_col = false);
// Reads an object back without trusting it. Returns false and a message when it is not a consistent matrix.
bool read_obj(void *obj, int type, bool by_col, HMat &out, std::string &err);
// structural checks of a result: dims, offsets, range, unique; ordering if want_sorted
bool check_shape(const HMat &c, i64 rows, i64 cols, bool by_col, bool want_sorted, std::string &err);
// reference: C = mask .* (A*B); all row-stored; result sorted. hasmask=0: plain product.
HMat model_mult(int type, const HMat &A, const HMat &B, const HMat *M, bool compl_, const Op &op);
HMat sorted_copy(const HMat &m);
HMat transpose_host(const HMat &m); // swaps roles (rows <-> cols), sorted
bool same(const HMat &got, const HMat &want, int type, double tol, std::string &err); // both sorted
u64 hash_of(const HMat &m);
std::string show_val(int type, u64 v);
// generators
struct Shape { i64 rows, inner, cols; };
enum GenKind { G_TINY, G_SMALL, G_MED, G_WIDE, G_HUB, G_COLLIDE, G_DENSE, G_TALL, G_HUGE, G_VTALL, G_NK };
void gen_mult(Rng &r, Case &c, int kind, bool zero = false);                 // c.m = A, B, M
void gen_heavy(Rng &r, Case &c, bool bcol); // more than 2^31 products by count, few really formed
void gen_long(Rng &r, Case &c, bool small); // small: for tables that may be nearly full, where probing is quadratic
Mat gen_mat(Rng &r, i64 rows, i64 cols, int kind);
bool valid_mult(const Case &c);
void shuffle_rows(Rng &r, Mat &m);
inline i64 pick(Rng &r, std::initializer_list<i64> l) { return *(l.begin() + r.below(l.size())); }
i64 gen_threads(Rng &r);
}
