// Simulator internals shared by core.cpp, gomp.cpp and posix.cpp
#pragma once
#include "rt.h"
#include <deque>
#include <map>
namespace sim {
struct Ws {                 // one work-sharing construct instance of a team
    bool init = false, claimed = false;
    long next = 0, end = 0, incr = 1, chunk = 1;
    unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1; bool up = true;
    int kind = 0;           // 0 dynamic 1 guided 2 static
    unsigned sections = 0, next_section = 1;
    void *copy = nullptr; unsigned arrived = 0;
    std::map<int,long> static_pos;
    long ord = 0, handed = 0;  // ordered loops: chunk whose turn it is, chunks handed out
};
struct Team {
    int n = 1, level = 0, active_level = 0; Team *parent = nullptr; int parent_tid = 0;
    int arrived = 0; uint64_t gen = 0; int done = 0;
    void (*fn)(void *) = nullptr; void *data = nullptr;
    std::deque<Ws> ws;
};
enum { ST_FREE, ST_RUN, ST_BLOCK, ST_DONE };
struct Fiber {
    void *sp = nullptr; int id = 0, state = ST_FREE; char *stack = nullptr;
    Team *team = nullptr; int tid = 0; unsigned ws_idx = 0; Ws *ws = nullptr; long ord_seq = -1;
    int icv = 4; const void *wait = nullptr; int64_t prio = 0;
    std::function<void()> *fn = nullptr;
    bool is_pthread = false, detached = false; void *ret = nullptr;
    void *eh[2] = {nullptr, nullptr}; int err = 0;
    char *tls = nullptr; bool tls_keep = false; void *once[2] = {nullptr, nullptr}; // saved thread-local storage
    std::vector<std::pair<void (*)(void *), void *>> dtors;
    uint64_t ops = 0; Team root;
};
struct Global {
    bool on = false;       // simulated section running
    bool heap = false;     // allocations go to the arena
    uint64_t steps = 0; int64_t countdown = 0;
    bool conflict = false;
    Fiber *cur = nullptr;
};
extern Global g;
void preempt();
void block_on(const void *what);         // forced switch until woken
void wake_all(const void *what);
int  wake_one_random(const void *what);  // returns count of woken fibers
Fiber *spawn(std::function<void()> fn, bool fresh_tls = true);
void at_thread_exit(void (*fn)(void *), void *o);
void run_dtors();
bool fault(Fault k, uint64_t *param = nullptr);
uint64_t env_rand();                     // next value of the environment stream
void note_sync(uint64_t a, uint64_t b);
static inline void SP() {
    if (__builtin_expect(!g.on, 0)) return;
    ++g.steps;
    if (__builtin_expect(--g.countdown <= 0, 0)) preempt();
}
struct Int { bool o; Int() : o(g.heap) { g.heap = false; } ~Int() { g.heap = o; } };
void forced_yield();
extern std::vector<Fiber *> fibers;
extern Stats st;
extern Config cfg;
extern Fiber off_fiber;
}
