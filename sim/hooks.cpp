// Everything the server calls that the simulator replaces.
#include "kern.hpp"
#include <algorithm>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <ifaddrs.h>
#include <grp.h>
#include <pwd.h>
#include <netdb.h>
#include <poll.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <cstdarg>

using namespace sim;

#define SIMFD(fd) ((fd) < 300)
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t); void* __libc_memalign(size_t, size_t);
}

// ------------------------------------------------------------- malloc
static bool alloc_fails() {
    if (!g_alloc_fail_armed) return false;
    if (g_alloc_fail_in-- == 0) { g_alloc_fail_armed = false; count_fault("alloc-failure"); return true; }
    return false;
}
extern "C" {
void* malloc(size_t n) {
    if (!in_node()) return __libc_malloc(n);
    Guard g;
    if (alloc_fails()) { g.err(ENOMEM); return nullptr; }
    return arena_alloc(n, 16);
}
void free(void* p) {
    if (!p) return;
    if (in_arena(p)) { Guard g; arena_free(p); return; }
    __libc_free(p);
}
void* calloc(size_t a, size_t b) {
    if (!in_node()) return __libc_calloc(a, b);
    Guard g;
    void* p = arena_alloc(a * b, 16);
    if (a * b <= 65536) std::memset(p, 0, a * b);   // fresh arena pages are zero
    return p;
}
void* realloc(void* p, size_t n) {
    if (p && in_arena(p)) {
        Guard g;
        size_t o = arena_size(p);
        void* q = arena_alloc(n, 16);
        std::memcpy(q, p, std::min(o, n));
        if (tls_self) mem_range(p, std::min(o, n), false, __builtin_return_address(0));
        arena_free(p);
        return q;
    }
    if (!in_node()) return __libc_realloc(p, n);
    if (!p) return malloc(n);
    return __libc_realloc(p, n);
}
void* memalign(size_t a, size_t n) {
    if (!in_node()) return __libc_memalign(a, n);
    Guard g; return arena_alloc(n, a);
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** out, size_t a, size_t n) { *out = memalign(a, n); return *out ? 0 : ENOMEM; }
void* valloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void* p) {
    if (in_arena(p)) return arena_size(p);
    static size_t (*r)(void*) = (size_t (*)(void*))dlsym(RTLD_NEXT, "malloc_usable_size");
    return r(p);
}
void* tc_malloc(size_t n) { return malloc(n); }
void tc_free(void* p) { free(p); }
void* tc_realloc(void* p, size_t n) { return realloc(p, n); }
void* tc_calloc(size_t a, size_t b) { return calloc(a, b); }
void* tc_memalign(size_t a, size_t n) { return memalign(a, n); }
int tc_posix_memalign(void** o, size_t a, size_t n) { return posix_memalign(o, a, n); }
void tc_cfree(void* p) { free(p); }
size_t tc_malloc_size(void* p) { return malloc_usable_size(p); }

// ------------------------------------------------------------- memory accesses
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void* pc) { Thread* t = tls_self; if (t) { if (t->csn < 128) t->cs[t->csn] = pc; ++t->csn; } }
void __tsan_func_exit() { Thread* t = tls_self; if (t && t->csn > 0) --t->csn; }
#define RW(n) \
void __tsan_read##n(void* p) { if (in_node()) { mem_access(p, n, false, false, PC); } } \
void __tsan_write##n(void* p) { if (in_node()) { mem_access(p, n, true, false, PC); } } \
void __tsan_unaligned_read##n(void* p) { if (in_node()) { mem_access(p, n, false, false, PC); } } \
void __tsan_unaligned_write##n(void* p) { if (in_node()) { mem_access(p, n, true, false, PC); } } \
void __tsan_volatile_read##n(void* p) { if (in_node()) { mem_access(p, n, false, false, PC); } } \
void __tsan_volatile_write##n(void* p) { if (in_node()) { mem_access(p, n, true, false, PC); } }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (in_node()) mem_range(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { if (in_node()) mem_range(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (in_node()) { if (*p == v) mem_access(p, 8, false, false, PC); else mem_access(p, 8, true, false, PC); } }
void __tsan_vptr_read(void** p) { if (in_node()) mem_access(p, 8, false, false, PC); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (in_node()) { mem_range(s, n, false, PC); mem_range(d, n, true, PC); } return memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (in_node()) { mem_range(s, n, false, PC); mem_range(d, n, true, PC); } return memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (in_node()) mem_range(d, n, true, PC); return memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (in_node()) { mem_range(a, n, false, PC); mem_range(b, n, false, PC); } return memcmp(a, b, n); }

// ------------------------------------------------------------- atomics
}
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
template<class T> static T a_load(const volatile T* a, int mo, const void* pc) {
    if (!in_node()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
    point(mo == __ATOMIC_RELAXED ? 'L' : 'L', (const void*)a);
    Guard g;
    mem_access((const void*)a, sizeof(T), false, true, pc);
    if (acq(mo)) sync_acquire((const void*)a); else sync_relaxed_load((const void*)a);
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);
}
template<class T> static void a_store(volatile T* a, T v, int mo, const void* pc) {
    if (!in_node()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }
    point('S', (const void*)a);
    Guard g;
    mem_access((const void*)a, sizeof(T), true, true, pc);
    if (rel(mo)) sync_release((const void*)a, false); else sync_relaxed_store((const void*)a, false);
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
}
template<class T, class F> static T a_rmw(volatile T* a, int mo, const void* pc, F f, int kind = 'M') {
    if (!in_node()) return f();
    point(kind, (const void*)a);
    Guard g;
    mem_access((const void*)a, sizeof(T), true, true, pc);
    if (acq(mo)) sync_acquire((const void*)a); else sync_relaxed_load((const void*)a);
    if (rel(mo)) sync_release((const void*)a, true); else sync_relaxed_store((const void*)a, true);
    return f();
}
template<class T> static int a_cas(volatile T* a, T* c, T v, int mo, int fmo, const void* pc) {
    if (!in_node()) return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    point('X', (const void*)a);
    Guard g;
    T cur = __atomic_load_n(a, __ATOMIC_SEQ_CST);
    if (cur == *c) {
        mem_access((const void*)a, sizeof(T), true, true, pc);
        if (acq(mo)) sync_acquire((const void*)a); else sync_relaxed_load((const void*)a);
        if (rel(mo)) sync_release((const void*)a, true); else sync_relaxed_store((const void*)a, true);
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
        return 1;
    }
    mem_access((const void*)a, sizeof(T), false, true, pc);
    if (acq(fmo)) sync_acquire((const void*)a); else sync_relaxed_load((const void*)a);
    *c = cur;
    return 0;
}
extern "C" {
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T* a, int mo) { return a_load(a, mo, PC); } \
void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { a_store(a, v, mo, PC); } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { return a_rmw(a, mo, PC, [=] { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }, 'X'); } \
T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { return a_rmw(a, mo, PC, [=] { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }); } \
T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { return a_rmw(a, mo, PC, [=] { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }); } \
T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { return a_rmw(a, mo, PC, [=] { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }); } \
T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { return a_rmw(a, mo, PC, [=] { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }); } \
T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { return a_rmw(a, mo, PC, [=] { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }); } \
T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { return a_rmw(a, mo, PC, [=] { return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return a_cas(a, c, v, mo, fmo, PC); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return a_cas(a, c, v, mo, fmo, PC); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { a_cas(a, &c, v, mo, fmo, PC); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { if (in_node()) { point('F', nullptr); Guard g; sync_fence(acq(mo), rel(mo)); } }
void __tsan_atomic_signal_fence(int) {}

int ysim_real_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p) {
    static auto r = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
    return r(t, a, f, p);
}
}

// ------------------------------------------------------------- threads and locks
struct Mtx { Thread* owner = nullptr; std::deque<Thread*> q; };
struct Rw { Thread* w = nullptr; int r = 0; std::deque<Thread*> q; };
struct Cnd { std::deque<std::pair<Thread*, bool*>> q; };
static std::unordered_map<const void*, Mtx> g_mtx;
static std::unordered_map<const void*, Rw> g_rw;
static std::unordered_map<const void*, Cnd> g_cnd;
template<class Q> static void qrm(Q& q, Thread* t) { q.erase(std::remove(q.begin(), q.end(), t), q.end()); }
template<class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

static void mtx_lock(const void* m) {
    Thread* t = tls_self;
    while (g_mtx[m].owner) {
        if (g_mtx[m].owner == t) { violate("memory", "thread locks a mutex it already holds" + stack_of(t)); die(); }
        g_mtx[m].q.push_back(t);
        block("mutex", m);
        qrm(g_mtx[m].q, t);
    }
    g_mtx[m].owner = t;
    sync_acquire(m);
}
static void mtx_unlock(const void* m) {
    Thread* t = tls_self;
    Mtx& x = g_mtx[m];
    if (x.owner != t) violate("memory", "mutex unlocked by a thread that does not hold it" + stack_of(t));
    sync_release(m, false);
    x.owner = nullptr;
    for (Thread* w : x.q) wake(w);
}
extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*f)(void*), void* p) {
    if (!in_node()) return ysim_real_pthread_create(out, a, f, p);
    Thread* t;
    { Guard g; t = spawn(tls_self->node, "t" + std::to_string(tls_self->node->threads.size()), f, p); *out = t->real; }
    point('T', nullptr);
    return 0;
}
static Thread* by_real(pthread_t x) {
    for (Thread* t : tls_self->node->threads) if (pthread_equal(t->real, x)) return t;
    return nullptr;
}
int pthread_join(pthread_t x, void** ret) {
    if (!in_node()) { static auto r = real<int (*)(pthread_t, void**)>("pthread_join"); return r(x, ret); }
    point('J', nullptr);
    Guard g;
    Thread* t = by_real(x);
    if (!t) return ESRCH;
    while (!t->finished) { t->joiner = tls_self; block("join", t); }
    t->joiner = (Thread*)-1;
    tls_self->vc.join(t->final_vc);
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t x) {
    if (!in_node()) { static auto r = real<int (*)(pthread_t)>("pthread_detach"); return r(x); }
    Guard g;
    if (Thread* t = by_real(x)) t->detached = true;
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!in_node()) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return r(m); }
    mem_access(m, 8, false, true, PC);
    point('m', m);
    Guard g; mtx_lock(m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!in_node()) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return r(m); }
    mem_access(m, 8, false, true, PC);
    point('m', m);
    Guard g;
    if (g_mtx[m].owner) return EBUSY;
    mtx_lock(m); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!in_node()) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return r(m); }
    mem_access(m, 8, false, true, PC);
    { Guard g; mtx_unlock(m); }
    point('u', m);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    if (!in_node()) { static auto r = real<int (*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init"); return r(m, a); }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!in_node()) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy"); return r(m); }
    return 0;
}
static int rw_lock(const void* m, bool wr, bool tr) {
    Thread* t = tls_self;
    for (;;) {
        Rw& x = g_rw[m];
        if (!x.w && (!wr || !x.r)) { if (wr) x.w = t; else ++x.r; sync_acquire(m); return 0; }
        if (tr) return EBUSY;
        if (x.w == t) { violate("memory", "thread locks a rwlock it already holds" + stack_of(t)); die(); }
        x.q.push_back(t);
        block("rwlock", m);
        qrm(g_rw[m].q, t);
    }
}
#define RWL(name, wr, tr) \
int name(pthread_rwlock_t* m) { \
    if (!in_node()) { static auto r = real<int (*)(pthread_rwlock_t*)>(#name); return r(m); } \
    mem_access(m, 8, false, true, PC); \
    point('m', m); Guard g; return rw_lock(m, wr, tr); }
RWL(pthread_rwlock_rdlock, false, false) RWL(pthread_rwlock_tryrdlock, false, true)
RWL(pthread_rwlock_wrlock, true, false) RWL(pthread_rwlock_trywrlock, true, true)
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!in_node()) { static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return r(m); }
    mem_access(m, 8, false, true, PC);
    { Guard g;
      Rw& x = g_rw[m];
      sync_release(m, true);
      if (x.w) x.w = nullptr; else if (x.r > 0) --x.r; else violate("memory", "rwlock unlocked but not held" + stack_of(tls_self));
      for (Thread* w : x.q) wake(w); }
    point('u', m);
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t*, const pthread_rwlockattr_t*) { return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int cnd_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 dl) {
    point('m', c);
    Guard g;
    Thread* t = tls_self;
    bool sig = false;
    g_cnd[c].q.push_back({t, &sig});
    mtx_unlock(m);
    bool to = false;
    // spurious wake-ups are legal
    bool spurious = fault("spurious-wakeup", 1, 64);
    if (!spurious) while (!sig) { to = block("cond", c, dl); if (to) break; }
    if (!sig) { auto& q = g_cnd[c].q; q.erase(std::remove_if(q.begin(), q.end(), [&](auto& x) { return x.second == &sig; }), q.end()); }
    mtx_lock(m);
    return to && !sig ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!in_node()) { static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return r(c, m); }
    return cnd_wait(c, m, NEVER);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    i64 d = (i64)ts->tv_sec * (i64)SEC + ts->tv_nsec - wall_ns(tls_self->node->host);
    return cnd_wait(c, m, g_now + (d > 0 ? d : 0));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) {
    i64 now = ck == CLOCK_REALTIME ? wall_ns(tls_self->node->host) : (i64)(g_now + 1000 * SEC);
    i64 d = (i64)ts->tv_sec * (i64)SEC + ts->tv_nsec - now;
    return cnd_wait(c, m, g_now + (d > 0 ? d : 0));
}
static int cnd_notify(pthread_cond_t* c, bool all) {
    { Guard g;
      auto& q = g_cnd[c].q;
      while (!q.empty()) { auto x = q.front(); q.pop_front(); *x.second = true; wake(x.first); if (!all) break; } }
    point('u', c);
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!in_node()) { static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return r(c); }
    return cnd_notify(c, false);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!in_node()) { static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return r(c); }
    return cnd_notify(c, true);
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int sched_yield() {
    if (!in_node()) return syscall(SYS_sched_yield);
    tls_self->quantum += 50;
    point('L', nullptr);
    return 0;
}

// function-local statics
static std::set<const void*> g_guard_busy;
static int guard_acquire(void* gv) {
    if (*(volatile char*)gv) { sync_acquire(gv); return 0; }
    Thread* t = tls_self;
    (void)t;
    while (g_guard_busy.count(gv)) block("static init", gv, g_now + MSEC);
    if (*(volatile char*)gv) { sync_acquire(gv); return 0; }
    g_guard_busy.insert(gv);
    return 1;
}
int ysim_guard_acquire(void* gv) {
    point('L', gv);
    Guard g; return guard_acquire(gv);
}
void ysim_guard_release(void* gv) {
    { Guard g; sync_release(gv, false); *(char*)gv = 1; g_guard_busy.erase(gv); }
    point('u', gv);
}
void ysim_guard_abort(void* gv) { Guard g; g_guard_busy.erase(gv); }
int ysim_cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int ysim_cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }

// ------------------------------------------------------------- process
void abort() {
    if (in_node()) {
        { Guard g; string st = stack_of(tls_self); node_exit(tls_self->node, 134, "abort" + st); }
        die();
    }
    signal(SIGABRT, SIG_DFL);
    raise(SIGABRT);
    _exit(134);
}
[[noreturn]] static void node_quit(int rc, const char* how) {
    { Guard g; node_exit(tls_self->node, rc, how); }
    die();
}
void exit(int rc) {
    if (in_node()) node_quit(rc, "exit");
    static auto r = real<void (*)(int)>("exit"); r(rc); __builtin_unreachable();
}
void quick_exit(int rc) noexcept {
    if (in_node()) node_quit(rc, "quick_exit");
    _exit(rc);
}
void _exit(int rc) {
    if (in_node()) node_quit(rc, "_exit");
    syscall(SYS_exit_group, rc); __builtin_unreachable();
}
pid_t getpid() { if (in_node()) return 1000 + tls_self->node->id * 100 + tls_self->node->gen; return syscall(SYS_getpid); }
uid_t getuid() { if (in_node()) return 1000; return syscall(SYS_getuid); }
int setuid(uid_t u) { if (in_node()) return 0; return syscall(SYS_setuid, u); }
int setgid(gid_t u) { if (in_node()) return 0; return syscall(SYS_setgid, u); }
int prctl(int o, ...) {
    if (in_node()) return 0;
    va_list ap; va_start(ap, o); unsigned long a = va_arg(ap, unsigned long), b = va_arg(ap, unsigned long), c = va_arg(ap, unsigned long), d = va_arg(ap, unsigned long); va_end(ap);
    return syscall(SYS_prctl, o, a, b, c, d);
}
int mlockall(int f) { if (in_node()) return 0; return syscall(SYS_mlockall, f); }
int sigaction(int sig, const struct sigaction* a, struct sigaction* o) {
    if (in_node()) { if (sig == SIGPIPE && a) tls_self->node->sigpipe_ignored = a->sa_handler == SIG_IGN; return 0; }
    static auto r = real<int (*)(int, const struct sigaction*, struct sigaction*)>("sigaction");
    return r(sig, a, o);
}
int pthread_sigmask(int how, const sigset_t* set, sigset_t* old) {
    if (in_node()) {
        u64 m; std::memcpy(&m, set, 8);
        u64& b = tls_self->node->sigblocked;
        if (how == SIG_BLOCK) b |= m; else if (how == SIG_UNBLOCK) b &= ~m; else b = m;
        return 0;
    }
    static auto r = real<int (*)(int, const sigset_t*, sigset_t*)>("pthread_sigmask");
    return r(how, set, old);
}
int sigprocmask(int how, const sigset_t* set, sigset_t* old) {
    if (in_node()) return pthread_sigmask(how, set, old);
    static auto r = real<int (*)(int, const sigset_t*, sigset_t*)>("sigprocmask");
    return r(how, set, old);
}
int getrusage(__rusage_who_t who, struct rusage* ru) noexcept {
    if (in_node()) { Guard g; std::memset(ru, 0, sizeof *ru); ru->ru_utime.tv_sec = g_now / SEC; return 0; }
    return syscall(SYS_getrusage, who, ru);
}
int backtrace(void** b, int n) {
    if (in_node()) return 0;
    static auto r = real<int (*)(void**, int)>("backtrace"); return r(b, n);
}
void backtrace_symbols_fd(void* const* b, int n, int fd) {
    if (in_node()) return;
    static auto r = real<void (*)(void* const*, int, int)>("backtrace_symbols_fd"); r(b, n, fd);
}

// ------------------------------------------------------------- clocks
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (in_node()) {
        point('t', nullptr);
        i64 v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall_ns(tls_self->node->host) : (i64)(g_now + 1000 * SEC);
        ts->tv_sec = v / (i64)SEC; ts->tv_nsec = v % (i64)SEC;
        return 0;
    }
    static auto r = real<int (*)(clockid_t, struct timespec*)>("clock_gettime");
    if (r) return r(c, ts);
    return syscall(SYS_clock_gettime, c, ts);
}
time_t time(time_t* p) {
    if (in_node()) {
        point('t', nullptr);
        time_t v = wall_ns(tls_self->node->host) / (i64)SEC;
        if (p) *p = v;
        return v;
    }
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(struct timeval* tv, void*) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    if (in_node()) return k_nanosleep((u64)a->tv_sec * SEC + a->tv_nsec);
    return syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) {
    if (in_node()) return k_nanosleep((u64)a->tv_sec * SEC + a->tv_nsec);
    return syscall(SYS_clock_nanosleep, c, fl, a, b);
}
int usleep(useconds_t us) {
    if (in_node()) return k_nanosleep((u64)us * US);
    struct timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return syscall(SYS_nanosleep, &ts, nullptr);
}

// ------------------------------------------------------------- files and sockets
static int sysret(long r) { return (int)r; }
ssize_t read(int fd, void* b, size_t n) { if (in_node() && SIMFD(fd)) return k_read(fd, b, n); return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (in_node() && SIMFD(fd)) return k_write(fd, b, n); return syscall(SYS_write, fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { if (in_node() && SIMFD(fd)) return k_pread(fd, b, n, o); return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
    if (in_node() && SIMFD(fd)) return k_pwrite(fd, b, n, o);
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
int close(int fd) { if (in_node() && SIMFD(fd)) return k_close(fd); return sysret(syscall(SYS_close, fd)); }
int open(const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
    if (in_node()) return k_open(p, fl);
    return sysret(syscall(SYS_openat, AT_FDCWD, p, fl, mode));
}
int open64(const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
    if (in_node()) return k_open(p, fl);
    return sysret(syscall(SYS_openat, AT_FDCWD, p, fl, mode));
}
off_t lseek(int fd, off_t o, int w) { if (in_node() && SIMFD(fd)) return k_lseek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
int ftruncate(int fd, off_t n) { if (in_node() && SIMFD(fd)) return k_ftruncate(fd, n); return sysret(syscall(SYS_ftruncate, fd, n)); }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int fsync(int fd) { if (in_node() && SIMFD(fd)) return k_fsync(fd); return sysret(syscall(SYS_fsync, fd)); }
int fdatasync(int fd) { if (in_node() && SIMFD(fd)) return k_fsync(fd); return sysret(syscall(SYS_fdatasync, fd)); }
int posix_fadvise(int fd, off_t a, off_t b, int c) { if (in_node()) return 0; return sysret(syscall(SYS_fadvise64, fd, a, b, c)); }
int posix_fadvise64(int fd, off_t a, off_t b, int c) { return posix_fadvise(fd, a, b, c); }
int mkostemp(char* t, int fl) {
    if (in_node()) return k_mkostemp();
    static auto r = real<int (*)(char*, int)>("mkostemp"); return r(t, fl);
}
int mkostemp64(char* t, int fl) { return mkostemp(t, fl); }
int unlink(const char* p) { if (in_node()) return 0; return sysret(syscall(SYS_unlink, p)); }
int dup(int fd) { if (in_node()) return k_dup(fd); return sysret(syscall(SYS_dup, fd)); }
int epoll_create1(int f) { if (in_node()) return k_epoll_create(); return sysret(syscall(SYS_epoll_create1, f)); }
int epoll_ctl(int e, int op, int fd, struct epoll_event* ev) { if (in_node()) return k_epoll_ctl(e, op, fd, ev); return sysret(syscall(SYS_epoll_ctl, e, op, fd, ev)); }
int epoll_wait(int e, struct epoll_event* ev, int n, int to) { if (in_node()) return k_epoll_wait(e, ev, n, to); return sysret(syscall(SYS_epoll_wait, e, ev, n, to)); }
int eventfd(unsigned v, int f) { if (in_node()) return k_eventfd(v, f); return sysret(syscall(SYS_eventfd2, v, f)); }
int signalfd(int fd, const sigset_t* m, int f) {
    if (in_node()) { u64 x; std::memcpy(&x, m, 8); return k_signalfd(fd, x, f); }
    return sysret(syscall(SYS_signalfd4, fd, m, 8, f));
}
int socket(int a, int b, int c) { if (in_node()) return k_socket(a, b, c); return sysret(syscall(SYS_socket, a, b, c)); }
int bind(int fd, const struct sockaddr* sa, socklen_t l) { if (in_node()) return k_bind(fd, sa); return sysret(syscall(SYS_bind, fd, sa, l)); }
int listen(int fd, int n) { if (in_node()) return k_listen(fd); return sysret(syscall(SYS_listen, fd, n)); }
int accept4(int fd, struct sockaddr* sa, socklen_t* l, int f) { if (in_node()) return k_accept(fd, sa, l, f); return sysret(syscall(SYS_accept4, fd, sa, l, f)); }
int accept(int fd, struct sockaddr* sa, socklen_t* l) { return accept4(fd, sa, l, 0); }
int connect(int fd, const struct sockaddr* sa, socklen_t l) { if (in_node()) return k_connect(fd, sa); return sysret(syscall(SYS_connect, fd, sa, l)); }
int shutdown(int fd, int h) { if (in_node()) return k_shutdown(fd, h); return sysret(syscall(SYS_shutdown, fd, h)); }
int setsockopt(int fd, int a, int b, const void* v, socklen_t l) { if (in_node()) return k_setsockopt(fd, a, b, v, l); return sysret(syscall(SYS_setsockopt, fd, a, b, v, l)); }
int getsockopt(int fd, int a, int b, void* v, socklen_t* l) { if (in_node()) return k_getsockopt(fd, a, b, v, l); return sysret(syscall(SYS_getsockopt, fd, a, b, v, l)); }
int getpeername(int fd, struct sockaddr* sa, socklen_t* l) { if (in_node()) return k_getpeername(fd, sa, l); return sysret(syscall(SYS_getpeername, fd, sa, l)); }
ssize_t recv(int fd, void* b, size_t n, int f) { if (in_node()) { return k_recv(fd, b, n, f); } return syscall(SYS_recvfrom, fd, b, n, f, nullptr, nullptr); }
ssize_t send(int fd, const void* b, size_t n, int f) {
    if (in_node()) { struct iovec v{(void*)b, n}; return k_sendv(fd, &v, 1, f); }
    return syscall(SYS_sendto, fd, b, n, f, nullptr, 0);
}
ssize_t sendmsg(int fd, const struct msghdr* m, int f) {
    if (in_node()) return k_sendv(fd, m->msg_iov, (int)m->msg_iovlen, f);
    return syscall(SYS_sendmsg, fd, m, f);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
    if (in_node() && SIMFD(fd)) {
        if (fd <= 2) { ssize_t r = 0; for (int i = 0; i < n; ++i) { k_write(fd, v[i].iov_base, v[i].iov_len); r += v[i].iov_len; } return r; }
        return k_sendv(fd, v, n, 0);
    }
    return syscall(SYS_writev, fd, v, n);
}
int poll(struct pollfd* p, nfds_t n, int to) { if (in_node()) return k_poll(p, (int)n, to); return sysret(syscall(SYS_poll, p, n, to)); }
int getaddrinfo(const char* n, const char* s, const struct addrinfo* h, struct addrinfo** r) {
    if (in_node()) return k_getaddrinfo(n, s, h, r);
    return EAI_FAIL;
}
void freeaddrinfo(struct addrinfo* r) noexcept { if (in_node()) k_freeaddrinfo(r); }
int getifaddrs(struct ifaddrs** r) noexcept { if (in_node()) return k_getifaddrs(r); return -1; }
void freeifaddrs(struct ifaddrs* r) noexcept { if (in_node()) k_freeifaddrs(r); }

// ------------------------------------------------------------- std::random_device
void ysim_rd_init(void*, const std::string&) __asm__("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
void ysim_rd_init(void*, const std::string&) {}
unsigned ysim_rd_get(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned ysim_rd_get(void*) {
    Guard g;
    if (!tls_self) return 4;
    Node* n = tls_self->node;
    u64 k = n->siphash_k[(n->rd_calls / 2) & 1];
    return n->rd_calls++ & 1 ? (unsigned)(k >> 32) : (unsigned)k;
}
void ysim_rd_fini(void*) __asm__("_ZNSt13random_device7_M_finiEv");
void ysim_rd_fini(void*) {}
}
