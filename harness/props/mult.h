// Shared machinery for properties about multiplications.
#pragma once
#include "../mx.h"
#include <functional>
namespace h {
struct Job { // one multiplication: operands, objects and expectation
    const Alg *alg = nullptr; int type = 0; Op op; unsigned threads = 1; std::vector<int64_t> extra;
    HMat A, B, M;          // as stored in the objects (A/B possibly column stored)
    HMat rA, rB, rM;       // row-stored sorted view for the model
    void *a = nullptr, *b = nullptr, *m = nullptr, *c = nullptr;
    bool sorted_in = true;
    i64 rows = 0, cols = 0;
};
bool make_job(const Case &c, int base, const std::string &suffix, Job &j, std::string &err);
void build_objects(Job &j, const Case &c, const std::string &suffix);      // creates arena objects
void call(Job &j);                                                          // runs the method (inside sim::run)
bool expect(const Job &j, HMat &want);                                      // model result (row stored, sorted)
Verdict check_result(Job &j, void *obj, const HMat *want, HMat *got_raw = nullptr);
Verdict check_inputs_unchanged(Job &j);
void gen_alg(Rng &r, Case &c, std::function<bool(const Alg &)> filt, const std::string &suffix);
}
