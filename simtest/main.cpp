// Tests of the simulator itself: semantics of thread-local storage, one-time initialisation, locks, futures and loops under
// many schedules; same seed same execution; a planted lost update is found.
#include "../sim/rt.h"
#include <cstdio>
#include <unistd.h>
#include <sys/wait.h>
int t_threadlocal(), t_static(), t_once(), t_future(), t_rw(), t_timed(), t_loops(), t_race();
int main() {
    sim::init(); sim::set_fail_handler([](const char *c, const char *m) { printf("%s: %s\n", c, m); fflush(stdout); _exit(9); });
    struct { const char *n; int (*f)(); bool race; } T[] = {{"thread-local", t_threadlocal}, {"static", t_static}, {"once", t_once}, {"future", t_future}, {"rwlock", t_rw}, {"timed", t_timed}, {"loops", t_loops}, {"race", t_race, true}};
    int bad = 0;
    for (auto &t : T) {
        int hits = 0, n = 300, det = 0;
        for (int seed = 0; seed < n; ++seed) {
            unsigned long h[2]; int rc = 0;
            for (int rep = 0; rep < 2; ++rep) {
                int p[2]; if (pipe(p)) return 2;
                fflush(stdout); pid_t k = fork();
                if (!k) {
                    sim::Config c; c.seed = seed; c.env_seed = seed; c.strategy = seed % sim::S_NKINDS; c.period = 1 + seed % 13; c.step_budget = 1000000; c.icv_threads = 4;
                    sim::configure(c); int r = 0; sim::run([&] { r = t.f(); });
                    unsigned long o = sim::stats().sched_hash; if (write(p[1], &o, sizeof o)) {} _exit(r ? 1 : 0);
                }
                int s; waitpid(k, &s, 0); h[rep] = 0; close(p[1]); if (read(p[0], &h[rep], sizeof(long))) {} close(p[0]);
                rc = WIFEXITED(s) ? WEXITSTATUS(s) : 99;
            }
            if (h[0] != h[1]) det++;
            if (t.race) hits += rc == 0; else if (rc) { bad++; printf("%s: seed %d failed with %d\n", t.n, seed, rc); }
        }
        if (det) { bad++; printf("%s: %d seeds are not deterministic\n", t.n, det); }
        if (t.race && (hits == 0 || hits == n)) { bad++; printf("%s: lost update under %d of %d schedules\n", t.n, hits, n); }
        printf("%s: %d schedules\n", t.n, n);
    }
    puts(bad ? "FAILED" : "ok"); return bad != 0;
}
