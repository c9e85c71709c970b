// Instrumented code for the simulator's own tests.
#include <omp.h>
#include <atomic>
#include <future>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <vector>
#include <condition_variable>
thread_local int tl = 5; thread_local std::vector<int> tv;
static int omp_tp = 3;
#pragma omp threadprivate(omp_tp)
struct Slow { int v; Slow() { v = 0; for (volatile int i = 0; i < 50; ++i) v++; } };
static Slow &slow() { static Slow s; return s; }
static std::once_flag once; static int once_n; static std::shared_timed_mutex rw; static std::recursive_mutex rm;
// every function returns 0 when the runtime behaved
int t_threadlocal() {
    int bad = 0;
    for (int round = 0; round < 3; ++round) {
        #pragma omp parallel num_threads(4) reduction(+ : bad)
        {
            int me = omp_get_thread_num();
            if (tl != 5 + round * 10) bad++;
            for (int i = 0; i < 10; ++i) { int x = tl; for (volatile int k = 0; k < 5; ++k) {} tl = x + 1; }
            tv.push_back(me); if (tv.size() != (size_t)round + 1 || tv.back() != me) bad++;
            omp_tp += me; if (omp_tp != 3 + me * (round + 1)) bad++;
        }
    }
    int other = 0; std::thread t([&] { if (tl != 5 || !tv.empty()) other = 1; tl = 99; }); t.join();
    std::thread u([&] { if (tl != 5) other = 1; }); u.join();
    return bad * 10 + other;
}
int t_static() { int bad = 0;
    #pragma omp parallel num_threads(5) reduction(+ : bad)
    { if (slow().v != 50) bad++; }
    return bad; }
int t_once() { int bad = 0;
    #pragma omp parallel num_threads(5) reduction(+ : bad)
    { std::call_once(once, [] { for (volatile int i = 0; i < 40; ++i) {} once_n++; }); if (once_n != 1) bad++; }
    return bad; }
int t_future() { std::vector<std::future<int>> f; int s = 0;
    for (int i = 0; i < 4; ++i) f.push_back(std::async(std::launch::async, [i] { for (volatile int k = 0; k < 20; ++k) {} return i; }));
    for (auto &x : f) s += x.get();
    std::promise<int> p; auto q = p.get_future(); std::thread t([&] { p.set_value(7); }); s += q.get(); t.join();
    return s - 13; }
int t_rw() { int a = 0, b = 0, bad = 0;
    #pragma omp parallel num_threads(5) reduction(+ : bad)
    for (int i = 0; i < 10; ++i) {
        if (omp_get_thread_num() < 2) { std::unique_lock<std::shared_timed_mutex> l(rw); a++; b++; }
        else { std::shared_lock<std::shared_timed_mutex> l(rw); int x = a; for (volatile int k = 0; k < 3; ++k) {} if (x != b || a != b) bad++; }
        std::lock_guard<std::recursive_mutex> g1(rm), g2(rm);
    }
    return bad + (a != 20); }
int t_timed() { std::mutex m; std::condition_variable cv; bool go = false; int n = 0;
    std::thread t([&] { for (volatile int k = 0; k < 100; ++k) {} std::lock_guard<std::mutex> l(m); go = true; cv.notify_all(); });
    { std::unique_lock<std::mutex> l(m); while (!go) { cv.wait_for(l, std::chrono::milliseconds(1)); ++n; } }
    t.join(); return n < 0; }
int t_loops() { long s = 0, want = 0; int bad = 0; for (int i = 0; i < 100; ++i) want += i;
    #pragma omp parallel for schedule(static, 3) reduction(+ : s)
    for (int i = 0; i < 100; ++i) s += i;
    #pragma omp parallel for schedule(guided) reduction(+ : s)
    for (int i = 0; i < 100; ++i) s += i;
    #pragma omp parallel for schedule(runtime) reduction(+ : s)
    for (int i = 99; i >= 0; --i) s += i;
    #pragma omp parallel for collapse(2) schedule(dynamic, 7) reduction(+ : s)
    for (unsigned long i = 0; i < 10; ++i) for (unsigned long j = 0; j < 10; ++j) s += i * 10 + j;
    int t = 0;
    #pragma omp parallel
    #pragma omp single
    for (int i = 0; i < 5; ++i) {
        #pragma omp task firstprivate(i)
        { 
            #pragma omp atomic
            t += i; }
    }
    int o = 0;
    #pragma omp parallel for ordered schedule(dynamic)
    for (int i = 0; i < 20; ++i) {
        #pragma omp ordered
        { if (o != i) bad++; o++; }
    }
    return (s != 4 * want) + (t != 10) * 2 + bad * 4; }
int race_n;
int t_race() { race_n = 0; // a lost update must be found under some schedule
    #pragma omp parallel num_threads(3)
    { int x = race_n; race_n = x + 1; }
    return race_n == 3; }
