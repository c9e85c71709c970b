// Simulated OpenMP runtime (libgomp ABI as emitted by gcc, plus omp_* API).
#include "rt_int.h"
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <map>
#include <string>
using namespace sim;
typedef void (*ofn)(void *);
namespace sim {
struct Lock { Fiber *owner = nullptr; int count = 0; };
static std::map<const void *, Lock> *locks_;
static Lock &lock_of(const void *k) { Int i; if (!locks_) locks_ = new std::map<const void *, Lock>(); return (*locks_)[k]; }
static void lock(const void *k) {
    SP(); if (!g.on) return;
    while (lock_of(k).owner) block_on((const char *)k + 1);
    lock_of(k).owner = g.cur; st.locks++; note_sync(3, 1);
}
static bool try_lock(const void *k) { SP(); if (!g.on) return true; Lock &l = lock_of(k); if (l.owner) return false; l.owner = g.cur; return true; }
static void unlock(const void *k) { if (!g.on) return; lock_of(k).owner = nullptr; wake_all((const char *)k + 1); SP(); }

static void barrier(Team *t) {
    SP(); if (!g.on || t->n == 1) return;
    st.barriers++;
    if (++t->arrived == t->n) { t->arrived = 0; t->gen++; note_sync(5, t->gen); wake_all(&t->gen); SP(); return; }
    uint64_t gen = t->gen;
    while (t->gen == gen) block_on(&t->gen);
}
static Ws *next_ws() {
    Fiber *f = g.cur; Team *t = f->team; Int i;
    while (t->ws.size() <= f->ws_idx) t->ws.emplace_back();
    f->ws = &t->ws[f->ws_idx++];
    return f->ws;
}
static int resolve(unsigned req) {
    Fiber *f = g.cur;
    int want = req ? (int)req : f->icv;
    if (want < 1) want = 1;
    if (f->team->active_level >= cfg.nested_levels) return 1;
    if (want > 512) want = 512;
    if (want > 1) { uint64_t p; if (fault(F_SHORT_TEAM, &p)) want = 1 + (int)(p % (want - 1 > 0 ? want - 1 : 1)); }
    return want;
}
static void worker(Team *t, int tid, ofn fn, void *data, bool pre) {
    Fiber *f = g.cur; f->team = t; f->tid = tid; f->ws_idx = pre ? 1 : 0; f->ws = pre ? &t->ws[0] : nullptr;
    fn(data);
    f = g.cur;
    ++t->done; note_sync(7, tid); wake_all(&t->done);
}
static void parallel(ofn fn, void *data, unsigned nthreads, Ws *pre = nullptr) {
    Fiber *f = g.cur;
    if (!g.on) { // outside the simulation: serial team
        Team *sv = f->team; int st_ = f->tid; unsigned wi = f->ws_idx; Ws *wsv = f->ws;
        Team t; if (pre) { t.ws.push_back(*pre); f->ws = &t.ws[0]; }
        f->team = &t; f->tid = 0; f->ws_idx = pre ? 1 : 0;
        fn(data);
        f->team = sv; f->tid = st_; f->ws_idx = wi; f->ws = wsv;
        return;
    }
    SP();
    int n = resolve(nthreads);
    st.regions++; st.max_team = std::max<uint64_t>(st.max_team, n);
    Team *t; Team *sv = f->team; int stid = f->tid; unsigned wi = f->ws_idx; Ws *wsv = f->ws; int icv = f->icv;
    { Int i; t = new Team(); if (pre) t->ws.push_back(*pre); }
    t->n = n; t->parent = sv; t->parent_tid = stid; t->level = sv->level + 1;
    t->active_level = sv->active_level + (n > 1); t->fn = fn; t->data = data;
    Fiber *w[512];
    for (int k = 1; k < n; ++k) {
        bool p = pre != nullptr;
        Fiber *x; { Int i; x = spawn([t, k, fn, data, p] { worker(t, k, fn, data, p); }, false); }
        x->icv = icv; x->team = t; x->tid = k; w[k] = x;
    }
    f->team = t; f->tid = 0; f->ws_idx = pre ? 1 : 0; f->ws = pre ? &t->ws[0] : nullptr;
    fn(data);
    f = g.cur;
    while (t->done < n - 1) block_on(&t->done);
    for (int k = 1; k < n; ++k) { // workers run off the end of their stacks before being recycled
        while (w[k]->state != ST_DONE) block_on(w[k]);
        w[k]->state = ST_FREE;
    }
    f->team = sv; f->tid = stid; f->ws_idx = wi; f->ws = wsv; f->icv = icv;
    { Int i; delete t; }
    SP();
}
}
// ---- loops ----
static bool loop_next(Ws *w, long *is, long *ie) {
    SP();
    if (w->kind == 2) {
        Int i; int tid = g.cur->tid, n = g.cur->team->n; long tot = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
        if (tot < 0) tot = 0;
        long pos = w->static_pos.count(tid) ? w->static_pos[tid] : 0, lo, hi;
        if (w->chunk <= 0) { if (pos) return false; long q = tot / n, r = tot % n; lo = tid < r ? tid * (q + 1) : r * (q + 1) + (tid - r) * q; hi = lo + (tid < r ? q + 1 : q); }
        else { lo = (pos * n + tid) * w->chunk; hi = std::min(lo + w->chunk, tot); }
        w->static_pos[tid] = pos + 1;
        if (lo >= hi) return false;
        g.cur->ord_seq = w->chunk <= 0 ? tid : pos * n + tid;
        *is = w->next + lo * w->incr; *ie = w->next + hi * w->incr; return true;
    }
    long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
    if (left <= 0) return false;
    long c = w->chunk > 0 ? w->chunk : 1;
    if (w->kind == 1) { long q = (left + g.cur->team->n - 1) / g.cur->team->n; c = std::max(c, q); }
    c = std::min(c, left);
    g.cur->ord_seq = w->handed++;
    *is = w->next; w->next += c * w->incr;
    *ie = left == c ? (w->end) : w->next;
    if (left == c) w->next = w->end;
    st.chunks++; note_sync(9, (uint64_t)*is);
    SP();
    return true;
}
static bool loop_start(int kind, long s, long e, long inc, long chunk, long *is, long *ie) {
    SP();
    Ws *w = next_ws();
    if (!w->init) { w->init = true; w->kind = kind; w->next = s; w->end = e; w->incr = inc; w->chunk = chunk; }
    if (!is) return true;
    return loop_next(w, is, ie);
}
// ordered loops: a chunk's turn comes when all earlier chunks are finished
static void ord_wait(Ws *w) { Fiber *f = g.cur; while (g.on && f->ord_seq >= 0 && w->ord != f->ord_seq) block_on(&w->ord); }
static bool ord_next(Ws *w, long *is, long *ie) {
    Fiber *f = g.cur; if (f->ord_seq >= 0) { ord_wait(w); w->ord++; f->ord_seq = -1; wake_all(&w->ord); }
    return loop_next(w, is, ie);
}
static bool ull_next(Ws *w, unsigned long long *is, unsigned long long *ie) {
    SP();
    typedef unsigned long long U;
    U step = w->up ? w->uincr : (U)(-(long long)w->uincr);
    U span = w->up ? (w->uend > w->unext ? w->uend - w->unext : 0) : (w->unext > w->uend ? w->unext - w->uend : 0);
    U left = span ? (span + step - 1) / step : 0;
    if (!left) return false;
    U c = w->uchunk ? w->uchunk : 1;
    if (w->kind == 2) { // static: claim via per thread position
        Int i; U n = g.cur->team->n, tid = g.cur->tid; long pos = w->static_pos.count((int)tid) ? w->static_pos[(int)tid] : 0; U lo, hi;
        if (!w->uchunk) { if (pos) return false; U q = left / n, r = left % n; lo = tid < r ? tid * (q + 1) : r * (q + 1) + (tid - r) * q; hi = lo + (tid < r ? q + 1 : q); }
        else { lo = ((U)pos * n + tid) * c; hi = std::min(lo + c, left); }
        w->static_pos[(int)tid] = pos + 1;
        if (lo >= hi) return false;
        *is = w->unext + lo * w->uincr; *ie = w->unext + hi * w->uincr; return true;
    }
    if (w->kind == 1) { U q = (left + g.cur->team->n - 1) / g.cur->team->n; c = std::max(c, q); }
    c = std::min(c, left);
    *is = w->unext; w->unext += c * w->uincr; *ie = left == c ? w->uend : w->unext; if (left == c) w->unext = w->uend;
    st.chunks++; note_sync(9, (uint64_t)*is);
    SP();
    return true;
}
static bool ull_start(int kind, bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long chunk, unsigned long long *is, unsigned long long *ie) {
    SP();
    Ws *w = next_ws();
    if (!w->init) { w->init = true; w->kind = kind; w->up = up; w->unext = s; w->uend = e; w->uincr = inc; w->uchunk = chunk; }
    if (!is) return true;
    return ull_next(w, is, ie);
}
static void par_loop(int kind, ofn fn, void *data, unsigned n, long s, long e, long inc, long chunk) {
    Ws *w; { Int i; w = new Ws(); }
    w->init = true; w->kind = kind; w->next = s; w->end = e; w->incr = inc; w->chunk = chunk;
    parallel(fn, data, n, w);
    { Int i; delete w; }
}
extern "C" {
void GOMP_parallel(ofn fn, void *data, unsigned n, unsigned) { parallel(fn, data, n); }
void GOMP_parallel_start(ofn, void *, unsigned) { fail("harness", "GOMP_parallel_start"); }
unsigned GOMP_parallel_reductions(ofn fn, void *data, unsigned n, unsigned) { int r = n ? n : 1; parallel(fn, data, n); return r; }
void GOMP_barrier() { barrier(g.cur->team); }
bool GOMP_barrier_cancel() { barrier(g.cur->team); return false; }
bool GOMP_single_start() { SP(); Ws *w = next_ws(); if (w->claimed) return false; w->claimed = true; note_sync(13, 0); return true; }
void *GOMP_single_copy_start() {
    SP(); Ws *w = next_ws();
    if (!w->claimed) { w->claimed = true; return nullptr; }
    barrier(g.cur->team);
    void *r = w->copy; barrier(g.cur->team); return r;
}
void GOMP_single_copy_end(void *d) { g.cur->ws->copy = d; barrier(g.cur->team); barrier(g.cur->team); }
static char crit, atom;
void GOMP_critical_start() { lock(&crit); }
void GOMP_critical_end() { unlock(&crit); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start() { lock(&atom); }
void GOMP_atomic_end() { unlock(&atom); }
#define LOOPS(name, kind) \
    bool GOMP_loop_##name##_start(long s, long e, long inc, long c, long *is, long *ie) { return loop_start(kind, s, e, inc, c, is, ie); } \
    bool GOMP_loop_##name##_next(long *is, long *ie) { return loop_next(g.cur->ws, is, ie); } \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long c, unsigned long long *is, unsigned long long *ie) { return ull_start(kind, up, s, e, inc, c, is, ie); } \
    bool GOMP_loop_ull_##name##_next(unsigned long long *is, unsigned long long *ie) { return ull_next(g.cur->ws, is, ie); } \
    void GOMP_parallel_loop_##name(ofn fn, void *d, unsigned n, long s, long e, long inc, long c, unsigned) { par_loop(kind, fn, d, n, s, e, inc, c); }
LOOPS(static, 2) LOOPS(dynamic, 0) LOOPS(guided, 1) LOOPS(nonmonotonic_dynamic, 0) LOOPS(nonmonotonic_guided, 1)
#define RLOOPS(name) \
    bool GOMP_loop_##name##_start(long s, long e, long inc, long *is, long *ie) { return loop_start(0, s, e, inc, 1, is, ie); } \
    bool GOMP_loop_##name##_next(long *is, long *ie) { return loop_next(g.cur->ws, is, ie); } \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long *is, unsigned long long *ie) { return ull_start(0, up, s, e, inc, 1, is, ie); } \
    bool GOMP_loop_ull_##name##_next(unsigned long long *is, unsigned long long *ie) { return ull_next(g.cur->ws, is, ie); } \
    void GOMP_parallel_loop_##name(ofn fn, void *d, unsigned n, long s, long e, long inc, unsigned) { par_loop(0, fn, d, n, s, e, inc, 1); }
RLOOPS(runtime) RLOOPS(nonmonotonic_runtime) RLOOPS(maybe_nonmonotonic_runtime)
bool GOMP_loop_start(long s, long e, long inc, long sched, long chunk, long *is, long *ie, uintptr_t *, void **) { int k = (sched & 0x7fffffff) == 1 ? 2 : (sched & 0x7fffffff) == 3 ? 1 : 0; return loop_start(k, s, e, inc, chunk, is, ie); }
#define OLOOPS(name, kind) \
    bool GOMP_loop_ordered_##name##_start(long s, long e, long inc, long c, long *is, long *ie) { g.cur->ord_seq = -1; return loop_start(kind, s, e, inc, c, is, ie); } \
    bool GOMP_loop_ordered_##name##_next(long *is, long *ie) { return ord_next(g.cur->ws, is, ie); }
OLOOPS(static, 2) OLOOPS(dynamic, 0) OLOOPS(guided, 1)
void GOMP_loop_end() { barrier(g.cur->team); }
bool GOMP_loop_end_cancel() { barrier(g.cur->team); return false; }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_start(unsigned n) {
    SP(); Ws *w = next_ws(); if (!w->init) { w->init = true; w->sections = n; w->next_section = 1; }
    return w->next_section <= w->sections ? w->next_section++ : 0;
}
unsigned GOMP_sections_next() { SP(); Ws *w = g.cur->ws; unsigned r = w->next_section <= w->sections ? w->next_section++ : 0; note_sync(15, r); return r; }
void GOMP_sections_end() { barrier(g.cur->team); }
bool GOMP_sections_end_cancel() { barrier(g.cur->team); return false; }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(ofn fn, void *d, unsigned n, unsigned cnt, unsigned) {
    Ws *w; { Int i; w = new Ws(); } w->init = true; w->sections = cnt; w->next_section = 1;
    parallel(fn, d, n, w); { Int i; delete w; }
}
void GOMP_ordered_start() { SP(); if (g.cur->ws) ord_wait(g.cur->ws); }
void GOMP_ordered_end() { SP(); }
void GOMP_task(ofn fn, void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
    SP();
    if (cpy) { char *b = (char *)alloca(sz + al); b = (char *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpy(b, data); fn(b); }
    else fn(data);
}
void GOMP_taskloop(ofn fn, void *data, void (*cpy)(void *, void *), long sz, long al, unsigned, unsigned long, int, long s, long e, long) {
    char *b = (char *)alloca(sz + al); b = (char *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1));
    if (cpy) cpy(b, data); else memcpy(b, data, sz);
    ((long *)b)[0] = s; ((long *)b)[1] = e; SP(); fn(b);
}
void GOMP_taskwait() { SP(); }
void GOMP_taskyield() { forced_yield(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() { SP(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

int omp_get_thread_num() { return g.cur->tid; }
int omp_get_num_threads() { return g.cur->team->n; }
int omp_get_max_threads() { return g.on ? g.cur->icv : 1; }
void omp_set_num_threads(int n) { if (n > 0) g.cur->icv = n; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return g.cur->team->active_level > 0; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return cfg.prob[F_SHORT_TEAM] ? 1 : 0; }
void omp_set_nested(int v) { cfg.nested_levels = v ? 64 : 1; }
int omp_get_nested() { return cfg.nested_levels > 1; }
void omp_set_max_active_levels(int v) { cfg.nested_levels = v; }
int omp_get_max_active_levels() { return cfg.nested_levels; }
int omp_get_supported_active_levels() { return 1000; }
int omp_get_thread_limit() { return 512; }
int omp_get_level() { return g.cur->team->level; }
int omp_get_active_level() { return g.cur->team->active_level; }
int omp_get_ancestor_thread_num(int l) { Team *t = g.cur->team; int tid = g.cur->tid; while (t && t->level > l) { tid = t->parent_tid; t = t->parent; } return t && t->level == l ? tid : -1; }
int omp_get_team_size(int l) { Team *t = g.cur->team; while (t && t->level > l) t = t->parent; return t && t->level == l ? t->n : -1; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int *k, int *m) { *k = 2; *m = 1; }
int omp_get_cancellation() { return 0; }
int omp_get_proc_bind() { return 0; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void **l) { *l = nullptr; lock_of(l) = Lock(); }
void omp_destroy_lock(void **) {}
void omp_set_lock(void **l) { lock(l); }
void omp_unset_lock(void **l) { unlock(l); }
int omp_test_lock(void **l) { return try_lock(l); }
void omp_init_nest_lock(void **l) { lock_of(l) = Lock(); }
void omp_destroy_nest_lock(void **) {}
void omp_set_nest_lock(void **l) { if (!g.on) return; Lock &k = lock_of(l); if (k.owner == g.cur) { k.count++; return; } lock(l); lock_of(l).count = 1; }
void omp_unset_nest_lock(void **l) { if (!g.on) return; Lock &k = lock_of(l); if (--k.count == 0) unlock(l); }
int omp_test_nest_lock(void **l) { if (!g.on) return 1; Lock &k = lock_of(l); if (k.owner == g.cur) return ++k.count; if (!try_lock(l)) return 0; k.count = 1; return 1; }
}
