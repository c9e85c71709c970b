// Harness: cases, property modules and the driver interface.
#pragma once
#include "../sim/rt.h"
#include <array>
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include <functional>

namespace h {
using sim::Rng;
using sim::mix;
typedef int64_t i64; typedef uint64_t u64;

struct Mat { i64 rows = 0, cols = 0; std::vector<std::array<i64, 3>> e; }; // entries: row, column, value
struct Case {
    std::string prop;
    std::map<std::string, i64> p;
    std::map<std::string, std::string> s;
    std::vector<Mat> m;
    std::vector<std::vector<i64>> l;
    i64 get(const std::string &k, i64 d = 0) const { auto it = p.find(k); return it == p.end() ? d : it->second; }
    std::string str(const std::string &k) const { auto it = s.find(k); return it == s.end() ? std::string() : it->second; }
};
std::string to_text(const Case &c);
bool from_text(const std::string &t, Case &c);
u64 content_hash(const Case &c); // without scheduler/fault parameters

struct Verdict {
    bool ok = true; std::string cls, msg; u64 hash = 0;
    static Verdict bad(const std::string &c, const std::string &m) { Verdict v; v.ok = false; v.cls = c; v.msg = m; return v; }
};
struct ShrinkParam { std::string name; i64 min; };
struct Module {
    std::string id, rule, real, stub;
    std::function<void(Rng &, Case &, bool thorough, u64 index)> gen;
    std::function<Verdict(const Case &)> exec;
    // A run that ended through sim::fail (crash, assertion, exit, ...): is that an outcome the property allows?
    std::function<bool(const Case &, const std::string &cls, const std::string &msg)> tolerate;
    std::vector<ShrinkParam> params;           // integer parameters to minimise
    std::function<bool(const Case &)> valid;   // is a shrunk case still in the property's domain?
    std::function<std::string(const Case &, const Verdict &)> site; // key used for known findings
    std::vector<std::string> assumptions;
    bool shrink_lists = true;
};
void add_module(const Module &m);
struct AddModule { AddModule(const Module &m) { add_module(m); } };

// scheduler and fault parameters stored in a case under s_* and f_*
void gen_sched(Rng &r, Case &c);
void set_fault(Case &c, int kind, int per1024);
sim::Config config_of(const Case &c);
void start(const Case &c);                      // sim::configure from the case
void nontrivial(bool b = true);                 // this run exercised the property
void probe(const char *name, u64 n = 1);
void outcome(u64 hsh);                          // mixed into the outcome hash
std::string fmt(const char *f, ...);
extern bool verbose;
}
