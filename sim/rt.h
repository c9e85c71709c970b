// Deterministic simulator: API for the harness.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---- seeded PRNG (splitmix / xorshift) -------------------------------------------------
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---- fault kinds -----------------------------------------------------------------------
enum Fault {
    F_SHORT_TEAM,    // runtime delivers fewer threads than requested
    F_ALLOC_FAIL,    // malloc/new fails
    F_SPURIOUS,      // condition variable wakes up without a signal
    F_SHORT_READ, F_EINTR_READ, F_EIO_READ, F_TRUNC,
    F_SHORT_WRITE, F_EINTR_WRITE, F_ENOSPC, F_EIO_WRITE, F_OPEN_FAIL, F_CLOSE_FAIL,
    F_GARBAGE,       // fresh heap block filled with seeded garbage (counted, always on)
    F_CLOCK,         // clock jump
    F_STALL,         // a fiber is stalled for a long time (strategy starve)
    F_NKINDS
};
extern const char *const fault_names[F_NKINDS];

// ---- strategies ------------------------------------------------------------------------
enum Strategy { S_RANDOM, S_PCT, S_BLOCKONLY, S_STARVE, S_CONFLICT, S_EVERY, S_NKINDS };
extern const char *const strategy_names[S_NKINDS];

struct Switch { uint64_t step; int to; };
struct FaultEvent { int kind; uint64_t idx; };

struct Config {
    uint64_t seed = 1;             // schedule stream
    int strategy = S_RANDOM;
    unsigned period = 16;          // S_RANDOM: mean steps between preemptions
    int pct_depth = 3;
    uint64_t pct_span = 4096;
    int victim = 0;                // S_STARVE
    uint64_t env_seed = 1;         // garbage, fault streams, clock, random device
    int fill_mode = 0;             // 0 random,1 zero,2 ff,3 small ints, 4 pattern
    uint64_t step_budget = 400000000ull;
    unsigned prob[F_NKINDS] = {0}; // per 1024
    int64_t alloc_fail_at = -1;    // fail the n-th allocation (0-based) ...
    bool alloc_fail_sticky = false;//   ... and every later one
    int dyn_adjust = 0;            // (unused: short team uses prob)
    int icv_threads = 4;           // default number of threads
    int nested_levels = 1;         // max active levels
    bool replay = false;
    std::vector<Switch> trace;     // replay: schedule
    bool fault_list = false;       // replay: only the listed faults fire
    std::vector<FaultEvent> faults;
};

struct Stats {
    uint64_t steps = 0, switches = 0, preemptions = 0, regions = 0, allocs = 0, atomics = 0,
             conflicts = 0, locks = 0, chunks = 0, barriers = 0;
    uint64_t max_team = 0;
    uint64_t sched_hash = 0, sync_hash = 0;
    uint64_t fired[F_NKINDS] = {0};
    uint64_t vtime_us = 0;
    uint64_t max_fibers = 0;
};

void init();                         // once per process, before anything else
void configure(const Config &c);     // resets scheduler state; call in the child before run()
Config &config();
Stats &stats();
const std::vector<Switch> &recorded();
const std::vector<FaultEvent> &recorded_faults();

// Runs fn as the main fiber under the simulator; returns when it and all fibers finished.
void run(const std::function<void()> &fn);
// Like run(), but with several independent root fibers (concurrent callers).
void run_many(const std::vector<std::function<void()>> &fns);
// inside run(): execute fn without scheduling/instrumentation
bool active();
// inside run(): the calling fiber goes on when no other fiber can run
void wait_idle();

// Reporting: ends the process (child) with a verdict.
[[noreturn]] void fail(const char *cls, const std::string &msg);
void set_fail_handler(void (*h)(const char *cls, const char *msg)); // must not return

// ---- simulated heap --------------------------------------------------------------------
struct HeapScope { HeapScope(bool on = true); ~HeapScope(); bool old; }; // arena allocations outside run()
struct Block { void *p; size_t n; uint64_t serial; bool live; };
uint64_t heap_mark();                         // serial of next allocation
std::vector<Block> live_since(uint64_t mark); // live arena blocks allocated since mark
bool addressable(const void *p, size_t n);
bool in_arena(const void *p);
size_t block_size(const void *p);             // size of the live block starting at p, 0 otherwise

// ---- simulated files -------------------------------------------------------------------
// Paths starting with /sim/ are backed by memory.
void vfs_put(const std::string &path, const std::string &content);
bool vfs_get(const std::string &path, std::string &content);
void vfs_reset();
void vfs_set_missing(bool create_fails);

void set_ram(uint64_t bytes);  // what sysconf reports
uint64_t alloc_count();         // allocations in simulated sections so far (index used by alloc_fail_at)
bool faults_enabled(bool on);  // gate all faults (liveness tails); returns old
}
