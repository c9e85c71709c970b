// Simulated pthreads, clocks, randomness and file I/O.
#include "rt_int.h"
#include <pthread.h>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <algorithm>
using namespace sim;
namespace sim {
struct Mx { Fiber *owner = nullptr; int count = 0; bool rec = false; };
static std::map<const void *, Mx> *mx_;
static Mx &mx(const void *p) { Int i; if (!mx_) mx_ = new std::map<const void *, Mx>(); return (*mx_)[p]; }
static uint64_t ram_bytes = 1ull << 30;
void set_ram(uint64_t b) { ram_bytes = b; }

// --- files
struct VFile { std::string data; };
struct Vfd { std::string path; size_t pos; bool rd, wr, append; };
static std::map<std::string, VFile> *files_; static std::map<int, Vfd> *fds_; static bool create_fails;
static void vinit() { if (!files_) { files_ = new std::map<std::string, VFile>(); fds_ = new std::map<int, Vfd>(); } }
void vfs_put(const std::string &p, const std::string &c) { Int i; vinit(); (*files_)[p].data = c; }
bool vfs_get(const std::string &p, std::string &c) { Int i; vinit(); auto it = files_->find(p); if (it == files_->end()) return false; c = it->second.data; return true; }
void vfs_reset() { Int i; vinit(); files_->clear(); create_fails = false; }
void vfs_set_missing(bool b) { create_fails = b; }
static bool is_sim(const char *p) { return p && !strncmp(p, "/sim/", 5); }
static int vopen(const char *path, bool rd, bool wr, bool creat, bool trunc, bool append) {
    SP();
    Int i; vinit();
    auto it = files_->find(path);
    if (g.on && fault(F_OPEN_FAIL)) { errno = rd && !creat ? ENOENT : EACCES; return -1; }
    if (it == files_->end()) {
        if (!creat) { errno = ENOENT; return -1; }
        if (create_fails) { errno = EACCES; return -1; }
        (*files_)[path];
    } else if (trunc) it->second.data.clear();
    int fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0); // reserves a descriptor number
    if (fd < 0) return -1;
    (*fds_)[fd] = {path, 0, rd, wr, append};
    return fd;
}
static Vfd *vfd(int fd) { if (!fds_) return nullptr; auto it = fds_->find(fd); return it == fds_->end() ? nullptr : &it->second; }
static ssize_t vread(int fd, void *buf, size_t n) {
    SP(); Int i;
    Vfd *v = vfd(fd); std::string &d = (*files_)[v->path].data; uint64_t p;
    if (g.on) {
        if (fault(F_EINTR_READ)) { errno = EINTR; return -1; }
        if (fault(F_EIO_READ)) { errno = EIO; return -1; }
        if (fault(F_TRUNC)) return 0;
    }
    size_t left = v->pos < d.size() ? d.size() - v->pos : 0; if (n > left) n = left;
    if (g.on && n > 1 && fault(F_SHORT_READ, &p)) n = 1 + p % (n - 1);
    memcpy(buf, d.data() + v->pos, n); v->pos += n; return (ssize_t)n;
}
static bool disk_full;
static ssize_t vwrite(int fd, const void *buf, size_t n) {
    SP(); Int i;
    Vfd *v = vfd(fd); uint64_t p;
    if (g.on) {
        if (fault(F_EINTR_WRITE)) { errno = EINTR; return -1; }
        if (fault(F_EIO_WRITE)) { errno = EIO; return -1; }
        if (fault(F_ENOSPC, &p)) { // a torn write followed by a full disk
            if (n > 1 && (p & 1)) { n = 1 + (p >> 1) % (n - 1); disk_full = true; }
            else { disk_full = true; errno = ENOSPC; return -1; }
        } else if (disk_full) { errno = ENOSPC; return -1; }
        else if (n > 1 && fault(F_SHORT_WRITE, &p)) n = 1 + p % (n - 1);
    }
    std::string &d = (*files_)[v->path].data;
    if (v->append) v->pos = d.size();
    if (d.size() < v->pos + n) d.resize(v->pos + n);
    memcpy(&d[v->pos], buf, n); v->pos += n; return (ssize_t)n;
}
static off64_t vseek(int fd, off64_t o, int w) {
    Vfd *v = vfd(fd); Int i; size_t sz = (*files_)[v->path].data.size();
    off64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off64_t)v->pos : (off64_t)sz;
    if (b + o < 0) { errno = EINVAL; return -1; }
    v->pos = (size_t)(b + o); return b + o;
}
// a failing close of a written file may lose data that earlier writes seemed to have stored (write-behind)
static bool vforget(int fd) {
    Vfd v = (*fds_)[fd]; fds_->erase(fd); uint64_t p;
    if (!g.on || !fault(F_CLOSE_FAIL, &p)) return false;
    std::string &d = (*files_)[v.path].data; if (v.wr && (p & 3)) d.resize((p >> 2) % (d.size() + 1));
    return true;
}
static int vclose(int fd) { Int i; bool f = vforget(fd); syscall(SYS_close, fd); if (f) { errno = EIO; return -1; } return 0; }
// stdio: a cookie stream whose reads/writes are the simulated ones
static ssize_t ck_read(void *c, char *b, size_t n) { return vread((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { size_t k = 0; while (k < n) { ssize_t r = vwrite((int)(intptr_t)c, b + k, n - k); if (r <= 0) break; k += (size_t)r; } return (ssize_t)k; } // stdio goes on after a short write
static int ck_seek(void *c, off64_t *o, int w) { off64_t r = vseek((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return vclose((int)(intptr_t)c); }
static bool parse_mode(const char *m, bool &rd, bool &wr, bool &cr, bool &tr, bool &ap) {
    rd = wr = cr = tr = ap = false;
    bool plus = strchr(m, '+');
    if (*m == 'r') { rd = true; wr = plus; } else if (*m == 'w') { wr = cr = tr = true; rd = plus; } else if (*m == 'a') { wr = cr = ap = true; rd = plus; } else return false;
    return true;
}
static FILE *vfopen(const char *path, const char *mode) {
    bool rd, wr, cr, tr, ap; if (!parse_mode(mode, rd, wr, cr, tr, ap)) { errno = EINVAL; return nullptr; }
    int fd = vopen(path, rd, wr, cr, tr, ap); if (fd < 0) return nullptr;
    Int i; cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
    return f;
}
struct PT { Fiber *f; };
}
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
// ---------------- pthread ----------------
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!g.on) { static auto r = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create"); return r(t, a, fn, arg); }
    SP();
    Fiber *f; { Int i; f = spawn([fn, arg] { void *r = fn(arg); run_dtors(); g.cur->ret = r; }); }
    f->is_pthread = true; { Int i; f->root = Team(); } f->team = &f->root; f->tid = 0;
    *t = (pthread_t)f;
    note_sync(21, f->id);
    SP();
    return 0;
}
int pthread_join(pthread_t t, void **ret) {
    if (!g.on) { static auto r = real<int (*)(pthread_t, void **)>("pthread_join"); return r(t, ret); }
    SP(); Fiber *f = (Fiber *)t;
    while (f->state != ST_DONE) block_on(f);
    if (ret) *ret = f->ret;
    f->state = ST_FREE; note_sync(23, f->id); SP();
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    if (g.on) mx(m) = Mx();
    memset((void *)m, 0, sizeof *m); int k; if (a && !pthread_mutexattr_gettype(a, &k)) m->__data.__kind = k; return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) { if (g.on) mx(m) = Mx(); return 0; }
static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!g.on) return 0;
    SP();
    if (mx(m).owner == g.cur && recursive(m)) { mx(m).count++; return 0; }
    while (mx(m).owner) block_on(m);
    mx(m).owner = g.cur; st.locks++; note_sync(25, 0); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!g.on) return 0;
    SP();
    if (mx(m).owner == g.cur && recursive(m)) { mx(m).count++; return 0; }
    if (mx(m).owner) return EBUSY;
    mx(m).owner = g.cur; return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!g.on) return 0;
    if (mx(m).owner != g.cur) fail("bad-unlock", "mutex unlocked by a thread that does not hold it");
    if (mx(m).count) { mx(m).count--; return 0; }
    mx(m).owner = nullptr; wake_all(m); SP(); return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset((void *)c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!g.on) return 0;
    SP();
    bool spurious = fault(F_SPURIOUS);
    mx(m).owner = nullptr; wake_all(m);
    if (spurious) forced_yield(); else block_on(c);
    while (mx(m).owner) block_on(m);
    mx(m).owner = g.cur; note_sync(27, 0); return 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) {
    if (!g.on) return 0;
    mx(m).owner = nullptr; wake_all(m); forced_yield(); (void)c;
    while (mx(m).owner) block_on(m);
    mx(m).owner = g.cur; st.vtime_us += 1000; return ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { return pthread_cond_timedwait(c, m, t); }
int pthread_cond_signal(pthread_cond_t *c) { if (!g.on) return 0; SP(); int n = wake_one_random(c); note_sync(29, n); SP(); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!g.on) return 0; SP(); wake_all(c); SP(); return 0; }
// reader/writer locks: count = readers, owner = writer
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset((void *)l, 0, sizeof *l); if (g.on) mx(l) = Mx(); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *l) { if (g.on) mx(l) = Mx(); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!g.on) return 0; SP(); while (mx(l).owner) block_on(l); mx(l).count++; note_sync(31, 0); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!g.on) return 0; SP(); if (mx(l).owner) return EBUSY; mx(l).count++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!g.on) return 0; SP(); while (mx(l).owner || mx(l).count) block_on(l); mx(l).owner = g.cur; note_sync(31, 1); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!g.on) return 0; SP(); if (mx(l).owner || mx(l).count) return EBUSY; mx(l).owner = g.cur; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!g.on) return 0;
    if (mx(l).owner) { if (mx(l).owner != g.cur) fail("bad-unlock", "lock released by a thread that does not hold it"); mx(l).owner = nullptr; }
    else if (mx(l).count) mx(l).count--; else fail("bad-unlock", "lock released that nobody holds");
    wake_all(l); SP(); return 0;
}
int pthread_spin_init(pthread_spinlock_t *l, int) { *l = 0; if (g.on) mx((void *)l) = Mx(); return 0; }
int pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int pthread_spin_lock(pthread_spinlock_t *l) { if (!g.on) return 0; const void *k = (const void *)l; SP(); while (mx(k).owner) block_on(k); mx(k).owner = g.cur; return 0; }
int pthread_spin_trylock(pthread_spinlock_t *l) { if (!g.on) return 0; const void *k = (const void *)l; SP(); if (mx(k).owner) return EBUSY; mx(k).owner = g.cur; return 0; }
int pthread_spin_unlock(pthread_spinlock_t *l) { if (!g.on) return 0; const void *k = (const void *)l; mx(k).owner = nullptr; wake_all(k); SP(); return 0; }
struct SimBarrier { unsigned n, arrived; uint64_t gen; };
int pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *, unsigned n) { SimBarrier *s = (SimBarrier *)b; s->n = n; s->arrived = 0; s->gen = 0; return n ? 0 : EINVAL; }
int pthread_barrier_destroy(pthread_barrier_t *) { return 0; }
int pthread_barrier_wait(pthread_barrier_t *b) {
    if (!g.on) return PTHREAD_BARRIER_SERIAL_THREAD;
    SP(); SimBarrier *s = (SimBarrier *)b;
    if (++s->arrived == s->n) { s->arrived = 0; s->gen++; wake_all(b); SP(); return PTHREAD_BARRIER_SERIAL_THREAD; }
    uint64_t gen = s->gen; while (s->gen == gen) block_on(b);
    return 0;
}
// semaphores: the value lives in the object
int sem_init(void *s, int, unsigned v) { *(int *)s = (int)v; return 0; }
int sem_destroy(void *) { return 0; }
int sem_wait(void *s) { if (!g.on) return 0; SP(); while (*(volatile int *)s <= 0) block_on(s); --*(int *)s; return 0; }
int sem_trywait(void *s) { if (!g.on) return 0; SP(); if (*(int *)s <= 0) { errno = EAGAIN; return -1; } --*(int *)s; return 0; }
int sem_post(void *s) { if (!g.on) return 0; SP(); ++*(int *)s; wake_all(s); SP(); return 0; }
int sem_getvalue(void *s, int *v) { *v = *(int *)s; return 0; }
// one-time initialisation: 0 not started, 1 running, 2 done
int pthread_once(pthread_once_t *o, void (*fn)()) {
    SP();
    for (;;) {
        if (*(volatile int *)o == 2) return 0;
        if (*(volatile int *)o == 0) break;
        if (!g.on) break;
        block_on(o);
    }
    *(volatile int *)o = 1;
    try { fn(); } catch (...) { *(volatile int *)o = 0; if (g.on) wake_all(o); throw; }
    *(volatile int *)o = 2; if (g.on) { wake_all(o); SP(); }
    return 0;
}
// function-local statics: byte 0 done, byte 1 being initialised
int sim_guard_acquire(volatile char *) asm("__cxa_guard_acquire"); void sim_guard_release(volatile char *) asm("__cxa_guard_release"); void sim_guard_abort(volatile char *) asm("__cxa_guard_abort");
int sim_guard_acquire(volatile char *gd) {
    SP();
    while (!gd[0] && gd[1] && g.on) block_on((const void *)gd);
    if (gd[0]) return 0;
    gd[1] = 1; return 1;
}
void sim_guard_release(volatile char *gd) { gd[0] = 1; gd[1] = 0; if (g.on) { wake_all((const void *)gd); SP(); } }
void sim_guard_abort(volatile char *gd) { gd[1] = 0; if (g.on) wake_all((const void *)gd); }
int __cxa_thread_atexit(void (*fn)(void *), void *o, void *) { at_thread_exit(fn, o); return 0; }
// futures: libstdc++'s out-of-line wait/notify on a status word
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *, unsigned *a, unsigned v, bool timed, long, long) {
    if (!g.on) return true;
    SP();
    if (*(volatile unsigned *)a != v) return true;
    if (timed) { forced_yield(); st.vtime_us += 1000; return *(volatile unsigned *)a != v; }
    block_on(a); return true;
}
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *t, unsigned *a, unsigned v, bool timed, long s, long n) {
    return _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(t, a, v, timed, s, n);
}
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned *a) { if (!g.on) return; SP(); wake_all(a); SP(); }
int sched_yield() { if (g.on) forced_yield(); return 0; }
int get_nprocs() { return 8; }
static uint64_t vnow_us() { return 1700000000000000ull + st.vtime_us + g.steps / 100; }
static void clock_tick() { uint64_t p; if (g.on && fault(F_CLOCK, &p)) { uint64_t j = p % 5000000; st.vtime_us += j; } }
int nanosleep(const struct timespec *r, struct timespec *) { if (g.on) { st.vtime_us += (uint64_t)r->tv_sec * 1000000 + r->tv_nsec / 1000; forced_yield(); return 0; } return (int)syscall(SYS_nanosleep, r, nullptr); }
int clock_nanosleep(clockid_t, int, const struct timespec *r, struct timespec *) { return nanosleep(r, nullptr); }
int usleep(useconds_t u) { struct timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { struct timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!g.on) return (int)syscall(SYS_clock_gettime, c, t);
    clock_tick(); uint64_t u = vnow_us(); t->tv_sec = (time_t)(u / 1000000); t->tv_nsec = (long)(u % 1000000) * 1000; return 0;
}
int gettimeofday(struct timeval *t, void *) {
    if (!g.on) { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
    clock_tick(); uint64_t u = vnow_us(); t->tv_sec = (time_t)(u / 1000000); t->tv_usec = (suseconds_t)(u % 1000000); return 0;
}
time_t time(time_t *o) {
    time_t r;
    if (!g.on) { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); r = s.tv_sec; }
    else { r = (time_t)(env_rand() % 4000000000u); } // wall clock: any value, jumps freely
    if (o) *o = r; return r;
}
double omp_get_wtime() { clock_tick(); return (double)(vnow_us()) * 1e-6; }
long sysconf(int n) {
    static auto r = real<long (*)(int)>("sysconf");
    if (g.on) { if (n == _SC_PHYS_PAGES) return (long)(ram_bytes / 4096); if (n == _SC_PAGE_SIZE) return 4096; if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return 8; }
    return r(n);
}
// std::random_device
unsigned _ZNSt13random_device9_M_getvalEv(void *) { return (unsigned)env_rand(); }
void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const void *) {}
void _ZNSt13random_device7_M_finiEv(void *) {}
// ---------------- files ----------------
int open(const char *p, int fl, ...) {
    va_list a; va_start(a, fl); int mode = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a);
    if (is_sim(p)) { int acc = fl & O_ACCMODE; return vopen(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND); }
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int open64(const char *p, int fl, ...) {
    va_list a; va_start(a, fl); int mode = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a);
    return open(p, fl, mode);
}
ssize_t read(int fd, void *b, size_t n) { if (vfd(fd)) return vread(fd, b, n); return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (vfd(fd)) return vwrite(fd, b, n); return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!vfd(fd)) return syscall(SYS_writev, fd, v, c);
    // one write call: gather so that a short write may end anywhere
    std::string *s; { Int i; s = new std::string(); for (int k = 0; k < c; ++k) s->append((char *)v[k].iov_base, v[k].iov_len); }
    ssize_t r = s->empty() ? 0 : vwrite(fd, s->data(), s->size()); int e = errno; { Int i; delete s; } errno = e; return r;
}
off64_t lseek64(int fd, off64_t o, int w) { if (vfd(fd)) return vseek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int close(int fd) { if (vfd(fd)) return vclose(fd); return (int)syscall(SYS_close, fd); }
FILE *fopen64(const char *p, const char *m);
FILE *fopen(const char *p, const char *m) {
    if (is_sim(p)) { Dl_info d; if (dladdr(__builtin_return_address(0), &d) && d.dli_fname && strstr(d.dli_fname, "libstdc++")) return fopen64(p, m); return vfopen(p, m); }
    static auto r = real<FILE *(*)(const char *, const char *)>("fopen"); return r(p, m);
}
// libstdc++ file streams open through fopen64 and then use read/write on fileno()
FILE *fopen64(const char *p, const char *m) {
    if (is_sim(p)) {
        bool rd, wr, cr, tr, ap; if (!parse_mode(m, rd, wr, cr, tr, ap)) { errno = EINVAL; return nullptr; }
        int fd = vopen(p, rd, wr, cr, tr, ap); if (fd < 0) return nullptr;
        Int i; FILE *f = fdopen(fd, m); return f;
    }
    static auto r = real<FILE *(*)(const char *, const char *)>("fopen64"); return r(p, m);
}
int fclose(FILE *f) {
    static auto r = real<int (*)(FILE *)>("fclose");
    int fd = fileno(f); int rc = 0;
    if (fd >= 0 && vfd(fd)) { Int i; fflush(f); if (vforget(fd)) rc = EOF; }
    Int i; int q = r(f); return rc ? rc : q;
}
// process exit from simulated code
void exit(int code) {
    if (g.on) { Int i; fail("exit", std::to_string(code)); }
    static auto r = real<void (*)(int)>("exit"); r(code); _exit(code);
}
}
namespace sim { bool disk_full_state() { return disk_full; } void disk_reset() { disk_full = false; } }
