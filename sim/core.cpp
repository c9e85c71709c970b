// Scheduler, fibers, simulated heap and the memory-access (tsan) entry points.
#include "rt_int.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <new>
#include <exception>
#include <algorithm>
#include <cxxabi.h>
#include <unistd.h>
#include <sys/mman.h>
#include <malloc.h>
#include <link.h>
#include <mutex>

extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
void *__real_memcpy(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
}

namespace sim {
const char *const fault_names[F_NKINDS] = {"short_team","alloc_fail","spurious_wakeup","short_read","eintr_read","eio_read","truncated_stream","short_write","eintr_write","enospc","eio_write","open_fail","close_fail","garbage_fill","clock_jump","stall"};
const char *const strategy_names[S_NKINDS] = {"random","pct","block-only","starve","conflict-directed","every-access"};
uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull + (a << 6) + (a >> 2));
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
Global g; Stats st; Config cfg; Fiber off_fiber;
std::vector<Fiber *> fibers;
static std::vector<Switch> rec; static size_t trace_pos;
static std::vector<FaultEvent> frec; static uint64_t fault_cnt[F_NKINDS]; static bool faults_on = true;
static Rng srng(1), prng(1);
static uint64_t env_ctr; static int64_t low_prio; static std::vector<uint64_t> pct_points; static size_t pct_pos;
static void *main_sp; static uint64_t last_switch_step;
static void (*fail_handler)(const char *, const char *);
static const size_t STACK = 1 << 20, NSTACK = 1024;
static char *const STACK_BASE = (char *)0x200000000000ull;

// ---------------------------------------------------------------- arena
static const uintptr_t ARENA = 0x100000000000ull, ARENA_SIZE = 8ull << 30;
static uint8_t *const SHADOW = (uint8_t *)0x140000000000ull;
static uintptr_t bump = ARENA + 64;
static uint64_t alloc_serial;
static std::vector<Block> *blocks;                 // by serial
struct Hdr { uint64_t magic, serial, size, pad; };  // 32 bytes before the block (unaddressable)
static const uint64_t MAGIC = 0x5AFEB10C5AFEB10Cull;
static Rng fillrng(7);

bool in_arena(const void *p) { return (uintptr_t)p - ARENA < ARENA_SIZE; }
static inline bool range_ok(uintptr_t a, size_t n) {
    if (!n) return true;
    if (a + n > ARENA + ARENA_SIZE) return false;
    uintptr_t gnl = (a - ARENA) >> 3; size_t off = a & 7;
    if (off + n <= 8) { uint8_t s = SHADOW[gnl]; return s <= 8 && off + n <= s; }
    if (SHADOW[gnl] != 8) return false;
    n -= 8 - off; ++gnl;
    while (n > 8) { if (SHADOW[gnl] != 8) return false; n -= 8; ++gnl; }
    uint8_t s = SHADOW[gnl]; return s <= 8 && n <= s;
}
bool addressable(const void *p, size_t n) { return !in_arena(p) || range_ok((uintptr_t)p, n); }
static void set_shadow(uintptr_t p, size_t n, bool freed) {
    uint8_t *s = SHADOW + ((p - ARENA) >> 3);
    if (freed) { memset(s, 0xFD, (n + 7) >> 3); return; }
    memset(s, 8, n >> 3);
    if (n & 7) s[n >> 3] = n & 7;
}
static void fill(void *p, size_t n) {
    uint64_t *q = (uint64_t *)p; size_t w = n / 8; uint64_t v;
    st.fired[F_GARBAGE]++;
    switch (cfg.fill_mode) {
    case 1: memset(p, 0, n); return;
    case 2: memset(p, 0xff, n); return;
    case 3: { uint32_t *r = (uint32_t *)p; for (size_t i = 0; i < n / 4; ++i) r[i] = (uint32_t)(fillrng.next() & 15); return; }
    case 4: memset(p, 0x01, n); return;
    default: v = fillrng.next();
        for (size_t i = 0; i < w; ++i) { v ^= v << 13; v ^= v >> 7; v ^= v << 17; q[i] = v; }
        for (size_t i = w * 8; i < n; ++i) ((uint8_t *)p)[i] = (uint8_t)(v >> (8 * (i & 7)));
    }
}
static void *arena_alloc(size_t n, size_t align, bool zero) {
    if (n > (3ull << 30)) return nullptr;
    Int guard;
    if (align < 16) align = 16;
    uintptr_t p = bump + sizeof(Hdr) + 32 + (fillrng.next() & 7) * 16;
    p = (p + align - 1) & ~(uintptr_t)(align - 1);
    if (p + n + 64 > ARENA + ARENA_SIZE) return nullptr;
    bump = (p + n + 16 + 15) & ~(uintptr_t)15;
    Hdr *h = (Hdr *)(p - sizeof(Hdr));
    h->magic = MAGIC; h->size = n; h->serial = alloc_serial++;
    blocks->push_back({(void *)p, n, h->serial, true});
    set_shadow(p, n, false);
    if (zero) memset((void *)p, 0, n); else fill((void *)p, n);
    st.allocs++;
    return (void *)p;
}
static void arena_free(void *p) {
    Int guard;
    Hdr *h = (Hdr *)((uintptr_t)p - sizeof(Hdr));
    if (((uintptr_t)p & 15) || h->magic != MAGIC) fail("bad-free", "free of a pointer that is not the start of a block");
    Block &b = (*blocks)[h->serial];
    if (!b.live) fail("double-free", "block of " + std::to_string(b.n) + " bytes freed twice");
    b.live = false;
    set_shadow((uintptr_t)p, h->size, true);
}
size_t block_size(const void *p) {
    if (!in_arena(p) || ((uintptr_t)p & 15)) return 0;
    Hdr *h = (Hdr *)((uintptr_t)p - sizeof(Hdr));
    if (h->magic != MAGIC || h->serial >= blocks->size() || !(*blocks)[h->serial].live) return 0;
    return h->size;
}
uint64_t heap_mark() { return alloc_serial; }
std::vector<Block> live_since(uint64_t m) {
    Int i; std::vector<Block> r;
    for (uint64_t k = m; k < blocks->size(); ++k) if ((*blocks)[k].live) r.push_back((*blocks)[k]);
    return r;
}
HeapScope::HeapScope(bool on) : old(g.heap) { g.heap = on; }
HeapScope::~HeapScope() { g.heap = old; }
static bool alloc_fails() {
    if (!g.on || !faults_on) return false;
    uint64_t idx = fault_cnt[F_ALLOC_FAIL];
    if (cfg.alloc_fail_at < 0 && !cfg.prob[F_ALLOC_FAIL] && !cfg.fault_list) { fault_cnt[F_ALLOC_FAIL]++; return false; }
    if (cfg.alloc_fail_at >= 0 && !cfg.fault_list) {
        fault_cnt[F_ALLOC_FAIL]++;
        bool f = (int64_t)idx == cfg.alloc_fail_at || (cfg.alloc_fail_sticky && (int64_t)idx > cfg.alloc_fail_at);
        if (f) { Int i; st.fired[F_ALLOC_FAIL]++; frec.push_back({F_ALLOC_FAIL, idx}); }
        return f;
    }
    return fault(F_ALLOC_FAIL);
}

uint64_t alloc_count() { return fault_cnt[F_ALLOC_FAIL]; }
// ---------------------------------------------------------------- faults / env
uint64_t env_rand() { return mix(cfg.env_seed, ++env_ctr); }
bool fault(Fault k, uint64_t *param) {
    uint64_t idx = fault_cnt[k]++;
    if (param) *param = mix(mix(cfg.env_seed, 77 + k), idx * 2 + 1);
    if (!faults_on) return false;
    bool f = false;
    if (cfg.fault_list) { for (auto &e : cfg.faults) if (e.kind == k && e.idx == idx) { f = true; break; } }
    else if (cfg.prob[k]) f = mix(mix(cfg.env_seed, 77 + k), idx * 2) % 1024 < cfg.prob[k];
    if (f) { Int i; st.fired[k]++; frec.push_back({k, idx}); }
    return f;
}
bool faults_enabled(bool on) { bool o = faults_on; faults_on = on; return o; }
const std::vector<FaultEvent> &recorded_faults() { return frec; }

// ---------------------------------------------------------------- failure
void set_fail_handler(void (*h)(const char *, const char *)) { fail_handler = h; }
void fail(const char *cls, const std::string &msg) {
    g.heap = false; g.on = false;
    if (fail_handler) fail_handler(cls, msg.c_str());
    dprintf(2, "sim failure without handler: %s: %s\n", cls, msg.c_str());
    _exit(99);
}

// ---------------------------------------------------------------- fibers
extern "C" void sim_ctx_switch(void **save, void *to);
__asm__(".text\n.globl sim_ctx_switch\n.type sim_ctx_switch,@function\nsim_ctx_switch:\n"
        "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
        "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
        "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");
// Thread-local storage of the executable: one block per fiber, exchanged on every switch.
static char *tls_data; static size_t tls_size; static const void *tls_image; static size_t tls_image_size;
static int tls_find(struct dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) {
        tls_image = (const void *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); tls_image_size = i->dlpi_phdr[k].p_filesz; tls_size = i->dlpi_phdr[k].p_memsz; tls_data = (char *)i->dlpi_tls_data;
    }
    return 1; // the executable comes first
}
static void tls_fresh(Fiber *f) {
    if (!tls_size) return;
    if (!f->tls) f->tls = (char *)__libc_malloc(tls_size);
    __real_memcpy(f->tls, tls_image, tls_image_size); __real_memset(f->tls + tls_image_size, 0, tls_size - tls_image_size);
}
static void tls_swap(Fiber *from, Fiber *to) {
    if (tls_size) {
        if (!from->tls) from->tls = (char *)__libc_malloc(tls_size);
        __real_memcpy(from->tls, tls_data, tls_size); if (to->tls) __real_memcpy(tls_data, to->tls, tls_size);
    }
    from->once[0] = std::__once_callable; from->once[1] = (void *)std::__once_call;
    std::__once_callable = to->once[0]; std::__once_call = (void (*)())to->once[1];
}
void at_thread_exit(void (*fn)(void *), void *o) { Int i; if (g.cur != &off_fiber) g.cur->dtors.push_back({fn, o}); }
void run_dtors() { Fiber *f = g.cur; while (!f->dtors.empty()) { auto d = f->dtors.back(); { Int i; f->dtors.pop_back(); } d.first(d.second); f = g.cur; } }
static void switch_to(Fiber *f) {
    Fiber *c = g.cur;
    if (f == c) return;
    st.switches++; last_switch_step = g.steps;
    st.sched_hash = mix(st.sched_hash, ((uint64_t)f->id << 48) ^ (g.steps * 2654435761u));
    void **eh = (void **)__cxxabiv1::__cxa_get_globals();
    c->eh[0] = eh[0]; c->eh[1] = eh[1]; c->err = errno;
    g.cur = f;
    eh[0] = f->eh[0]; eh[1] = f->eh[1]; tls_swap(c, f);
    sim_ctx_switch(&c->sp, f->sp);
    errno = g.cur->err;
}
static void back_to_main() { g.cur->err = errno; void *dummy; sim_ctx_switch(&dummy, main_sp); abort(); }

static int runnable(Fiber **out, int max) {
    int n = 0;
    for (Fiber *f : fibers) if (f->state == ST_RUN && n < max) out[n++] = f;
    return n;
}
static int64_t geometric(unsigned period) {
    if (period <= 1) return 1;
    // mean = period: sum of uniform draws is close enough and cheap
    return 1 + (int64_t)(srng.next() % (2 * period - 1));
}
static void set_countdown() {
    if (cfg.replay) {
        while (trace_pos < cfg.trace.size() && cfg.trace[trace_pos].step <= g.steps) ++trace_pos;
        int64_t c = trace_pos < cfg.trace.size() ? (int64_t)(cfg.trace[trace_pos].step - g.steps) : (int64_t)1 << 40;
        int64_t b = (int64_t)(cfg.step_budget - g.steps) + 1;
        g.countdown = std::min(c, std::max<int64_t>(b, 1)); return;
    }
    int64_t c;
    switch (cfg.strategy) {
    case S_BLOCKONLY: c = 100000; break;
    case S_PCT: c = pct_pos < pct_points.size() && pct_points[pct_pos] > g.steps ? (int64_t)(pct_points[pct_pos] - g.steps) : 100000; break;
    case S_CONFLICT: c = geometric(cfg.period * 16); break;
    case S_EVERY: c = 1; break;
    default: c = geometric(cfg.period);
    }
    g.countdown = std::min<int64_t>(c, 100000);
}
static Fiber *choose(Fiber **r, int n, bool forced) {
    if (n == 1) return r[0];
    switch (cfg.strategy) {
    case S_PCT: { Fiber *b = r[0]; for (int i = 1; i < n; ++i) if (r[i]->prio > b->prio) b = r[i]; return b; }
    case S_STARVE: {
        Fiber *o[1024]; int m = 0;
        for (int i = 0; i < n; ++i) if (r[i]->id != cfg.victim) o[m++] = r[i];
        if (m < n) st.fired[F_STALL]++;
        if (m && !(srng.next() % 4096 == 0)) return o[srng.below(m)];
        return r[srng.below(n)];
    }
    default: return r[srng.below(n)];
    }
    (void)forced;
}
void preempt() {
    if (g.steps > cfg.step_budget) { Int i; fail("hang", "no completion within " + std::to_string(cfg.step_budget) + " steps"); }
    if (cfg.replay) {
        Fiber *to = nullptr;
        if (trace_pos < cfg.trace.size() && cfg.trace[trace_pos].step == g.steps) {
            int id = cfg.trace[trace_pos].to;
            for (Fiber *f : fibers) if (f->id == id && f->state == ST_RUN) to = f;
            ++trace_pos;
        }
        set_countdown();
        if (to && to != g.cur) { st.preemptions++; Int i; rec.push_back({g.steps, to->id}); }
        if (to && to != g.cur) switch_to(to);
        return;
    }
    Fiber *r[1024]; int n = runnable(r, 1024);
    if (cfg.strategy == S_PCT) {
        if (pct_pos < pct_points.size() && pct_points[pct_pos] <= g.steps) {
            while (pct_pos < pct_points.size() && pct_points[pct_pos] <= g.steps) ++pct_pos;
            g.cur->prio = --low_prio;
        } else if (g.steps - last_switch_step >= 100000) g.cur->prio = --low_prio;
    }
    Fiber *to;
    if (cfg.strategy == S_BLOCKONLY && g.steps - last_switch_step < 100000) to = g.cur;
    else to = choose(r, n, false);
    set_countdown();
    if (to != g.cur) {
        st.preemptions++;
        { Int i; rec.push_back({g.steps, to->id}); }
        switch_to(to);
    }
}
static char idle_token;
static void forced_switch() { // current fiber cannot continue (blocked, done or yielding)
    ++g.steps;
    if (g.steps > cfg.step_budget) { Int i; fail("hang", "no completion within " + std::to_string(cfg.step_budget) + " steps"); }
    Fiber *r[1024]; int n = runnable(r, 1024);
    if (!n) // nothing else can run: whoever waits for that goes on
        for (Fiber *f : fibers) if (f->state == ST_BLOCK && f->wait == &idle_token) { f->state = ST_RUN; f->wait = nullptr; r[n++] = f; break; }
    if (!n) {
        std::string m = "deadlock: every thread is blocked";
        fail("deadlock", m);
    }
    Fiber *to = r[0];
    if (cfg.replay) {
        while (trace_pos < cfg.trace.size() && cfg.trace[trace_pos].step < g.steps) ++trace_pos;
        if (trace_pos < cfg.trace.size() && cfg.trace[trace_pos].step == g.steps) {
            int id = cfg.trace[trace_pos].to;
            for (int i = 0; i < n; ++i) if (r[i]->id == id) to = r[i];
            ++trace_pos;
        }
    } else to = choose(r, n, true);
    if (to != r[0]) { Int i; rec.push_back({g.steps, to->id}); }
    set_countdown();
    switch_to(to);
}
void forced_yield() { // yield: another runnable fiber if there is one
    if (!g.on) return;
    Fiber *c = g.cur; c->state = ST_BLOCK;
    Fiber *r[2]; int n = runnable(r, 2);
    c->state = ST_RUN;
    if (!n) { SP(); return; }
    c->state = ST_BLOCK; // exclude the current fiber from the choice
    ++g.steps;
    Fiber *rr[1024]; n = runnable(rr, 1024);
    Fiber *to = rr[0];
    if (cfg.replay) {
        while (trace_pos < cfg.trace.size() && cfg.trace[trace_pos].step < g.steps) ++trace_pos;
        if (trace_pos < cfg.trace.size() && cfg.trace[trace_pos].step == g.steps) {
            for (int i = 0; i < n; ++i) if (rr[i]->id == cfg.trace[trace_pos].to) to = rr[i];
            ++trace_pos;
        }
    } else to = choose(rr, n, true);
    if (to != rr[0]) { Int i; rec.push_back({g.steps, to->id}); }
    c->state = ST_RUN;
    set_countdown();
    switch_to(to);
}
void block_on(const void *what) {
    g.cur->wait = what; g.cur->state = ST_BLOCK;
    forced_switch();
}
void wait_idle() { if (g.on) block_on(&idle_token); }
static void woke(Fiber *f) {
    f->state = ST_RUN; f->wait = nullptr;
    if (cfg.strategy == S_PCT && !cfg.replay && g.countdown > 1) g.countdown = 1;
}
void wake_all(const void *what) { for (Fiber *f : fibers) if (f->state == ST_BLOCK && f->wait == what) woke(f); }
int wake_one_random(const void *what) {
    Fiber *w[1024]; int n = 0;
    for (Fiber *f : fibers) if (f->state == ST_BLOCK && f->wait == what && n < 1024) w[n++] = f;
    if (!n) return 0;
    woke(w[n == 1 ? 0 : env_rand() % n]);
    return 1;
}
void note_sync(uint64_t a, uint64_t b) { st.sync_hash = mix(st.sync_hash, mix(a * 1024 + (g.cur ? g.cur->id : 0), b)); }
static void fiber_entry() noexcept {
    Fiber *f = g.cur;
    (*f->fn)();
    f = g.cur;
    f->state = ST_DONE;
    wake_all(f);
    { Int i; delete f->fn; f->fn = nullptr; }
    bool any = false;
    for (Fiber *x : fibers) if (x->state == ST_RUN || x->state == ST_BLOCK) { any = true; break; }
    if (!any) back_to_main();
    forced_switch();
    abort();
}
Fiber *spawn(std::function<void()> fn, bool fresh) {
    Int i;
    Fiber *f = nullptr; // finished worker fibers are recycled
    for (Fiber *x : fibers) if (x->state == ST_FREE) { f = x; break; }
    if (!f) {
        if (fibers.size() >= NSTACK - 1) fail("harness", "too many fibers");
        f = new Fiber(); f->id = (int)fibers.size();
        f->stack = STACK_BASE + f->id * STACK;
        fibers.push_back(f);
        if (mprotect(f->stack, 4096, PROT_NONE)) {}
    }
    // a pool worker keeps its thread-local storage; a new thread starts from the initial image
    if (fresh || !f->tls_keep) { tls_fresh(f); f->dtors.clear(); }
    f->tls_keep = !fresh; f->once[0] = f->once[1] = nullptr;
    f->fn = new std::function<void()>(std::move(fn));
    f->state = ST_RUN; f->wait = nullptr; f->eh[0] = f->eh[1] = nullptr; f->err = 0;
    f->ws_idx = 0; f->ws = nullptr; f->team = nullptr; f->tid = 0; f->is_pthread = f->detached = false; f->ret = nullptr;
    f->icv = cfg.icv_threads;
    f->prio = (int64_t)(prng.next() >> 2);
    uint64_t *top = (uint64_t *)(f->stack + STACK);
    { uint64_t v = mix(cfg.env_seed, 0x57ac + f->id); // garbage on the stack (top 8 KB)
      for (int k = 1; k <= 1024; ++k) { v ^= v << 13; v ^= v >> 7; v ^= v << 17; top[-k] = cfg.fill_mode == 1 ? 0 : v; } }
    *--top = 0; *--top = 0; *--top = 0;  // end of stack; entry sees rsp = 8 mod 16 as after a call
    *--top = (uint64_t)(void *)fiber_entry;
    for (int k = 0; k < 6; ++k) *--top = 0;
    f->sp = top;
    size_t live = 0; for (Fiber *x : fibers) if (x->state == ST_RUN || x->state == ST_BLOCK) ++live;
    st.max_fibers = std::max<uint64_t>(st.max_fibers, live);
    if (cfg.strategy == S_PCT && !cfg.replay && g.countdown > 1) g.countdown = 1;
    return f;
}
bool active() { return g.on; }
void configure(const Config &c) {
    cfg = c; st = Stats(); rec.clear(); frec.clear(); trace_pos = 0;
    memset(fault_cnt, 0, sizeof fault_cnt); faults_on = true; env_ctr = 0;
    srng = Rng(c.seed ^ 0x5eed); prng = Rng(c.seed ^ 0x9910); fillrng = Rng(c.env_seed ^ 0xf111);
    g.steps = 0; low_prio = 0; pct_pos = 0; pct_points.clear();
    if (c.strategy == S_PCT) {
        for (int i = 0; i < c.pct_depth; ++i) pct_points.push_back(1 + srng.below(c.pct_span));
        std::sort(pct_points.begin(), pct_points.end());
    }
    g.conflict = c.strategy == S_CONFLICT;
    last_switch_step = 0;
}
Config &config() { return cfg; }
Stats &stats() { st.steps = g.steps; return st; }
const std::vector<Switch> &recorded() { return rec; }

void run_many(const std::vector<std::function<void()>> &fns) {
    if (g.on) { fail("harness", "nested sim::run"); }
    __libc_single_threaded = 0;
    for (Fiber *f : fibers) f->state = ST_FREE;
    void **eh = (void **)__cxxabiv1::__cxa_get_globals(); void *save0 = eh[0], *save1 = eh[1];
    std::vector<Fiber *> roots;
    for (auto &fn : fns) {
        Fiber *f = spawn(fn, !roots.empty()); // the main thread outlives one simulated section
        f->root = Team(); f->team = &f->root;
        roots.push_back(f);
    }
    g.cur = roots[0]; if (roots.size() > 1 && !cfg.replay) g.cur = roots[srng.below(roots.size())];
    if (cfg.replay && !cfg.trace.empty() && trace_pos < cfg.trace.size() && cfg.trace[trace_pos].step == g.steps + 1) { }
    // the initial choice is itself a recorded decision
    ++g.steps;
    if (cfg.replay) {
        g.cur = roots[0];
        while (trace_pos < cfg.trace.size() && cfg.trace[trace_pos].step < g.steps) ++trace_pos;
        if (trace_pos < cfg.trace.size() && cfg.trace[trace_pos].step == g.steps) {
            for (Fiber *f : roots) if (f->id == cfg.trace[trace_pos].to) g.cur = f;
            ++trace_pos;
        }
    }
    if (g.cur != roots[0]) rec.push_back({g.steps, g.cur->id});
    set_countdown();
    bool oh = g.heap;
    g.on = true; g.heap = true;
    tls_swap(&off_fiber, g.cur);
    sim_ctx_switch(&main_sp, g.cur->sp);
    tls_swap(g.cur, &off_fiber);
    g.on = false; g.heap = oh; g.cur = &off_fiber;
    eh[0] = save0; eh[1] = save1;
    st.steps = g.steps;
    if (!st.vtime_us || st.vtime_us < g.steps / 100) st.vtime_us = g.steps / 100;
}
void run(const std::function<void()> &fn) { run_many({fn}); }

// ---------------------------------------------------------------- signals
static void on_signal(int sig, siginfo_t *si, void *) {
    char b[160]; g.on = false; g.heap = false;
    if (sig == SIGSEGV || sig == SIGBUS) {
        snprintf(b, sizeof b, "%s at address %p", sig == SIGSEGV ? "SIGSEGV" : "SIGBUS", si->si_addr);
        char *a = (char *)si->si_addr;
        if (a >= STACK_BASE && a < STACK_BASE + NSTACK * STACK) fail("stack-overflow", b);
        fail("crash", b);
    }
    snprintf(b, sizeof b, "signal %d", sig);
    fail(sig == SIGABRT ? "abort" : sig == SIGALRM ? "hang" : "crash", b);
}
static char altstack[65536];
extern "C" char __libc_single_threaded;
void init() {
    // simulated threads are threads: libstdc++ must not take its single-threaded shortcuts
    __libc_single_threaded = 0;
    dl_iterate_phdr(tls_find, nullptr);
    blocks = new std::vector<Block>(); blocks->reserve(1 << 16);
    fibers.reserve(NSTACK);
    auto m = [](void *at, size_t n) {
        void *p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != at) { dprintf(2, "sim: mmap failed\n"); _exit(98); }
    };
    m((void *)ARENA, ARENA_SIZE); m(SHADOW, (ARENA_SIZE >> 3) + 4096); m(STACK_BASE, STACK * NSTACK);
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
    off_fiber.team = &off_fiber.root; off_fiber.id = -1; g.cur = &off_fiber;
    std::set_terminate([] {
        if (g.on) { g.heap = false; g.on = false; fail("terminate", "uncaught exception"); }
        abort();
    });
}

// ---------------------------------------------------------------- conflict table
struct CEnt { uintptr_t gr; int fiber; bool w; uint64_t epoch; };
static CEnt ctab[8192]; static uintptr_t hot[256]; static uint64_t cepoch = 1;
extern "C" char __executable_start, end;
static void conflict_access(uintptr_t a, bool w, void *pc) {
    // only memory whose address is the same in every execution: arena, fiber stacks, globals (not the host's heap)
    if (a - ARENA >= ARENA_SIZE && a - (uintptr_t)STACK_BASE >= STACK * NSTACK && a - (uintptr_t)&__executable_start >= (uintptr_t)&end - (uintptr_t)&__executable_start) return;
    uintptr_t gr = a >> 2; CEnt &e = ctab[(gr * 0x9E3779B97F4A7C15ull) >> 51];
    int me = g.cur->id;
    bool hit = false;
    if (e.gr == gr && e.epoch == cepoch && e.fiber != me && (w || e.w)) {
        hit = true; st.conflicts++; hot[((uintptr_t)pc >> 1) & 255] = (uintptr_t)pc;
        st.sync_hash = mix(st.sync_hash, (gr << 8) ^ (me << 4) ^ e.fiber);
    }
    if (e.gr != gr || e.epoch != cepoch || w || !e.w) { e.gr = gr; e.fiber = me; e.w = w; e.epoch = cepoch; }
    else if (e.fiber == me) e.w |= w;
    if (cfg.replay) return;
    if (hit || hot[((uintptr_t)pc >> 1) & 255] == (uintptr_t)pc)
        if (srng.next() & 1) g.countdown = 1;
}

static void bad_access(uintptr_t a, size_t n, bool w) {
    // find the owning block for the message
    std::string where = "outside every block";
    g.heap = false;
    for (auto &b : *blocks) {
        uintptr_t s = (uintptr_t)b.p;
        if (a + n > s - 32 && a < s + b.n + 64) {
            where = std::string(b.live ? "" : "freed ") + "block of " + std::to_string(b.n) + " bytes, offset " + std::to_string((int64_t)(a - s));
            if (a >= s && a < s + b.n) break;
        }
    }
    bool freed = SHADOW[(a - ARENA) >> 3] == 0xFD;
    fail(freed ? "use-after-free" : w ? "oob-write" : "oob-read", std::to_string(n) + "-byte " + (w ? "write" : "read") + ", " + where);
}
static inline void access(void *p, size_t n, bool w, void *pc) {
    if (!g.on || !g.heap) return; // not inside the simulator (inline library functions are shared with instrumented units)
    uintptr_t a = (uintptr_t)p;
    if (g.conflict) conflict_access(a, w, pc);
    SP();
    if (a - ARENA < ARENA_SIZE && !range_ok(a, n)) bad_access(a, n, w);
}
static void range_access(const void *p, size_t n, bool w) {
    if (!g.on || !g.heap || !n) return; // the simulator's own copies are not events
    SP();
    uintptr_t a = (uintptr_t)p;
    if (a - ARENA < ARENA_SIZE && !range_ok(a, n)) bad_access(a, n, w);
}
} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void *p) { access(p, n, false, PC); } \
    void __tsan_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } \
    void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { range_access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { range_access(p, n, true); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
#define AT(T, bits) \
    T __tsan_atomic##bits##_load(const volatile T *p, int) { st.atomics++; access((void *)p, sizeof(T), false, PC); return *p; } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int) { st.atomics++; access((void *)p, sizeof(T), true, PC); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { st.atomics++; access((void *)p, sizeof(T), true, PC); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { st.atomics++; access((void *)p, sizeof(T), true, PC); if (g.on) note_sync(11, (uint64_t)*p); T o = *p; *p = (T)(o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { st.atomics++; access((void *)p, sizeof(T), true, PC); T o = *p; *p = (T)(o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { st.atomics++; access((void *)p, sizeof(T), true, PC); T o = *p; *p = (T)(o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { st.atomics++; access((void *)p, sizeof(T), true, PC); T o = *p; *p = (T)(o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { st.atomics++; access((void *)p, sizeof(T), true, PC); T o = *p; *p = (T)(o ^ v); return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int) { st.atomics++; access((void *)p, sizeof(T), true, PC); T o = *p; *p = (T)~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { st.atomics++; access((void *)p, sizeof(T), true, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { st.atomics++; access((void *)p, sizeof(T), true, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { st.atomics++; access((void *)p, sizeof(T), true, PC); T o = *p; if (o == e) *p = v; return o; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64) AT(unsigned __int128, 128)
void __tsan_atomic_thread_fence(int) { SP(); }
void __tsan_atomic_signal_fence(int) {}
// bulk operations of instrumented objects (linked with --wrap)
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { range_access(s, n, false); range_access(d, n, true); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { range_access(s, n, false); range_access(d, n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { range_access(d, n, true); return __real_memset(d, c, n); }
int __real_memcmp(const void *, const void *, size_t);
int __wrap_memcmp(const void *a, const void *b, size_t n) { range_access(a, n, false); range_access(b, n, false); return __real_memcmp(a, b, n); }

// ---- allocator ----
void *malloc(size_t n) {
    if (!g.heap) return __libc_malloc(n);
    SP(); if (alloc_fails()) { errno = ENOMEM; return nullptr; }
    void *p = arena_alloc(n, 16, false); if (!p) errno = ENOMEM; return p;
}
void free(void *p) {
    if (!p) return;
    if (in_arena(p)) { SP(); arena_free(p); } else __libc_free(p);
}
void *calloc(size_t a, size_t b) {
    if (!g.heap) return __libc_calloc(a, b);
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    SP(); if (alloc_fails()) { errno = ENOMEM; return nullptr; }
    return arena_alloc(n, 16, true);
}
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (!in_arena(p)) return __libc_realloc(p, n);
    if (!n) { free(p); return nullptr; }
    bool o = g.heap; g.heap = true; void *q = malloc(n); g.heap = o;
    if (!q) return nullptr;
    size_t m = block_size(p); __real_memcpy(q, p, m < n ? m : n);
    arena_free(p); return q;
}
void *memalign(size_t al, size_t n) {
    if (!g.heap) return __libc_memalign(al, n);
    SP(); if (alloc_fails()) { errno = ENOMEM; return nullptr; }
    return arena_alloc(n, al, false);
}
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **o, size_t al, size_t n) { void *p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
size_t malloc_usable_size(void *p) { return in_arena(p) ? block_size(p) : 0; }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    if (g.on) { Int i; const char *b = strrchr(f, '/'); fail("assert", std::string("assertion failed: ") + e + " (" + (b ? b + 1 : f) + ")"); }
    dprintf(2, "%s:%u: assertion %s failed in %s\n", f, l, e, fn); _exit(97);
}
}
static void *op_new(size_t n, size_t al) {
    void *p = al > 16 ? memalign(al, n) : malloc(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return op_new(n, 16); }
void *operator new[](size_t n) { return op_new(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
