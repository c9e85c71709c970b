// The concurrent building blocks of the generator: the queue between workers and writer, the capacity gate.
#include <cstdint>
#include <functional>
#include <memory>
#include <thread>
#include <vector>
#include "PaRMAT/src/threadsafe_queue.hpp"
#include "PaRMAT/src/capacity_controller.hpp"
#include "ad.h"
using namespace h;
struct Job22 {
    int op, nthreads; const int64_t *const *prog; const int *len; // per thread: pairs (operation, argument)
    int64_t cap, init;
    void (*ev)(int thread, int idx, int phase, int64_t val); // called outside the simulation: 0 before, 1 after an operation
    int64_t live;                                             // elements not destroyed
};
static Job22 *cur;
struct Item { // counts its instances
    int64_t v;
    Item() : v(-2) { count(1); } explicit Item(int64_t x) : v(x) { count(1); }
    Item(const Item &o) : v(o.v) { count(1); } Item(Item &&o) : v(o.v) { o.v = -3; count(1); }
    Item &operator=(const Item &o) { v = o.v; return *this; } Item &operator=(Item &&o) { v = o.v; o.v = -3; return *this; }
    ~Item() { v = -4; count(-1); }
    static void count(int d) { __atomic_fetch_add(&cur->live, d, __ATOMIC_RELAXED); }
};
static int64_t val(const std::shared_ptr<Item> &p) { return p ? p->v : -1; }
static void queue_thread(threadsafe_queue<Item> &q, Job22 &j, int t) {
    for (int i = 0; i < j.len[t]; ++i) {
        int64_t o = j.prog[t][2 * i], a = j.prog[t][2 * i + 1], r = 0;
        j.ev(t, i, 0, 0);
        switch (o) {
        case 0: q.push(Item(a)); break;
        case 1: r = val(q.try_pop()); break;
        case 2: { Item x; r = q.try_pop(x) ? x.v : -1; break; }
        case 3: r = val(q.wait_and_pop()); break;
        case 4: { Item x; q.wait_and_pop(x); r = x.v; break; }
        }
        j.ev(t, i, 1, r);
    }
}
template <class I> static void gate_thread(capacity_controller<I> &g, Job22 &j, int t) {
    for (int i = 0; i < j.len[t]; ++i) {
        int64_t o = j.prog[t][2 * i], a = j.prog[t][2 * i + 1];
        j.ev(t, i, 0, 0);
        if (o == 0) g.accumulate((I)a); else if (o == 1) g.dissipate((I)a);
        j.ev(t, i, 1, 0);
    }
}
template <class F> static void spread(Job22 &j, F f) { // thread 0 is the calling thread
    std::vector<std::thread> th;
    for (int t = 1; t < j.nthreads; ++t) th.emplace_back([&f, t] { f(t); });
    f(0); for (auto &x : th) x.join();
}
static void run_prim(Job22 &j) {
    cur = &j; j.live = 0;
    if (j.op == 0) {
        threadsafe_queue<Item> q; spread(j, [&](int t) { queue_thread(q, j, t); });
        queue_thread(q, j, j.nthreads); // what is left, taken by the calling thread alone
    } else if (j.op == 1) { capacity_controller<unsigned long long> g(j.cap, j.init); spread(j, [&](int t) { gate_thread(g, j, t); }); }
    else { capacity_controller<long> g(j.cap, j.init); spread(j, [&](int t) { gate_thread(g, j, t); }); }
}
static AddFn f0("prim", (void *)run_prim);
