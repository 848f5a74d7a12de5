// Scheduler, virtual time, decisions, memory model.
#include "core.hpp"
#include <algorithm>
#include <cstdarg>
#include <csignal>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <queue>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>

namespace sim {

thread_local Thread* tls_self = nullptr;
thread_local int tls_insim = 0;
RunCfg g_cfg;
u64 g_now = 0, g_steps = 0, g_switches = 0, g_events = 0, g_hash = 0xcbf29ce484222325ull, g_ileave = 0;
Strategy g_strat;
Rng g_rng_plan, g_rng_sched, g_rng_net, g_rng_fault;
bool g_race_on = false;
u64 g_epoch = 1700000000;
std::map<string, u64> g_faults, g_reach;
string g_end_why;
std::vector<Violation> g_viol;

static bool g_ended = false;
static u64 g_max_ns = 0, g_max_steps = 0;
static u64 g_idx[C_NCAT];
static u64 g_seq = 0;
static std::vector<Thread*> g_threads;      // live
static int g_next_tid = 1;
static std::atomic<int> g_driver_go{0};
static u64 g_next_preempt = NEVER;          // point index
static u64 g_next_mem = NEVER;              // access index
static u64 g_next_stall = NEVER;
static std::vector<u64> g_pct_change;
static u64 g_low_prio = 1u << 30;
static u64 g_mem_idx = 0;
extern u64 g_since_point;

void trace_s(const string& s) {
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull;
    trace(h);
}

void logf(const char* fmt, ...) {
    if (!g_cfg.verbose) return;
    Guard g;
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "[%10.6f] ", g_now / 1e9);
    vfprintf(stderr, fmt, ap);
    fputc('\n', stderr);
    va_end(ap);
}

// ------------------------------------------------------------- decisions
static u64 geo(Rng& r, u32 mean) {
    if (mean == 0) return NEVER;
    if (mean == 1) return 1;
    // geometric-like: uniform on [1, 2*mean-1]
    return 1 + r.below(2ull * mean - 1);
}

u32 decide(Cat c, u32 n, const std::function<u32()>& rnd) {
    u64 i = g_idx[c]++;
    u32 v = 0;
    if (g_cfg.replay) {
        auto it = g_cfg.dev[c].find(i);
        if (it != g_cfg.dev[c].end()) v = it->second;
        if (n && v >= n) v = n - 1;
    } else {
        v = rnd();
        if (v) g_cfg.dev[c][i] = v;
    }
    return v;
}
u32 decide_net(u32 n) { return decide(C_NET, n, [n] { return (u32)g_rng_net.below(n); }); }
void count_fault(const string& kind, u64 n) { g_faults[kind] += n; }
u64 g_note = 1469598103934665603ull;
bool fault(const char* kind, u32 num, u32 den) {
    if (num == 0) return false;
    bool b = decide(C_FAULT, 2, [=] { return (u32)g_rng_fault.chance(num, den); });
    if (b) {
        g_faults[kind]++; logf("fault %s", kind);
        // What the other threads do while this one handles the failure.
        if (g_strat.stall_on_fault && !std::strncmp(kind, "disk-", 5) && !std::strstr(kind, "short")) {
            u64 n = g_idx[C_SCHED] + g_rng_sched.below(g_strat.stall_on_fault);
            if (n < g_next_stall) g_next_stall = n;
        }
    }
    return b;
}
void reach(const char* w) { g_reach[w]++; }

// ------------------------------------------------------------- violations
bool violated() { return !g_viol.empty(); }
std::set<string> g_only;
void violate(const string& cls, const string& msg) {
    Guard g;
    if (!g_only.empty() && !g_only.count(cls)) { logf("not this check's business: %s: %s", cls.c_str(), msg.c_str()); end_run("other"); return; }
    if (g_viol.empty()) {
        logf("VIOLATION %s: %s", cls.c_str(), msg.c_str());
    }
    g_viol.push_back({cls, msg});
    end_run("violation");
}

// ------------------------------------------------------------- futex
static void fwait(std::atomic<int>& a) {
    while (a.load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, (int*)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    a.store(0, std::memory_order_relaxed);
}
static void fpost(std::atomic<int>& a) {
    a.store(1, std::memory_order_release);
    syscall(SYS_futex, (int*)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
void park_forever() {
    for (;;) pause();
}

// ------------------------------------------------------------- events
struct Ev { u64 t, seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev* a, const Ev* b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev*, std::vector<Ev*>, EvCmp> g_evq;
static u64 g_ev_next = NEVER;

// Order of becoming runnable: by time, so that it does not depend on when the threads are looked at.
static u64 next_since() { return g_now << 12 | (++g_seq & 0xfff); }

void at(u64 t, std::function<void()> fn) {
    if (t < g_now) t = g_now;
    g_evq.push(new Ev{t, ++g_seq, std::move(fn)});
    g_ev_next = g_evq.top()->t;
}
static void run_events() {
    while (!g_evq.empty() && g_evq.top()->t <= g_now && !g_ended) {
        Ev* e = g_evq.top(); g_evq.pop();
        g_ev_next = g_evq.empty() ? NEVER : g_evq.top()->t;
        ++g_events;
        e->fn();
        delete e;
    }
    g_ev_next = g_evq.empty() ? NEVER : g_evq.top()->t;
}

void end_run(const char* why) {
    if (g_ended) return;
    g_ended = true;
    g_end_why = why;
    logf("end of run: %s", why);
}

// ------------------------------------------------------------- scheduler
Thread* self() { return tls_self; }

static inline bool runnable(const Thread* t) {
    return t->st == Thread::RUN && t->stalled_until <= g_now && t->node->frozen_until <= g_now;
}
void wake(Thread* t) {
    if (t->st == Thread::BLOCK) {
        t->st = Thread::RUN; t->since = next_since(); t->timed_out = false;
        t->deadline = NEVER;
    }
}

static std::vector<Thread*> g_run;   // scratch
static u64 g_min_deadline = NEVER;   // no blocked thread times out before this
static inline void expire1(Thread* t) {
    if (t->st == Thread::BLOCK && t->deadline <= g_now && t->node->frozen_until <= g_now) {
        t->st = Thread::RUN; t->since = std::max(t->deadline, t->node->frozen_until) << 12; t->timed_out = true; t->deadline = NEVER;
    }
}
// Time-outs take effect at the same step whether or not the scheduler looks at the threads there.
static void expire() {
    g_min_deadline = NEVER;
    for (Thread* t : g_threads) {
        expire1(t);
        if (t->st == Thread::BLOCK) g_min_deadline = std::min(g_min_deadline, std::max(t->deadline, t->node->frozen_until));
    }
}
static void collect() {
    g_run.clear();
    bool dead = false;
    for (Thread* t : g_threads) {
        expire1(t);
        if (t->st == Thread::DEAD) { dead = true; continue; }
        if (runnable(t)) g_run.push_back(t);
    }
    if (dead)
        g_threads.erase(std::remove_if(g_threads.begin(), g_threads.end(), [](Thread* t) { return t->st == Thread::DEAD; }), g_threads.end());
}
static Thread* oldest(Thread* except) {
    Thread* b = nullptr;
    for (Thread* t : g_run) if (t != except && (!b || t->since < b->since)) b = t;
    return b;
}
static Thread* by_prio() {
    Thread* b = nullptr;
    for (Thread* t : g_run) if (!b || t->prio > b->prio) b = t;
    return b;
}
static Thread* by_id(u32 id) {
    for (Thread* t : g_run) if ((u32)t->id == id) return t;
    return nullptr;
}

// Choose the next thread to run when the current one cannot continue.
static Thread* pick_blocked() {
    for (;;) {
        if (g_ended) return nullptr;
        if (g_now > g_max_ns) { end_run("time"); return nullptr; }
        if (g_steps > g_max_steps) { end_run("steps"); return nullptr; }
        run_events();
        if (g_ended) return nullptr;
        collect();
        if (!g_run.empty()) {
            Thread* def = oldest(nullptr);
            if (g_run.size() == 1) { g_idx[C_SCHED]++; return def; }
            u64 i = g_idx[C_SCHED]++;
            Thread* ch = def;
            if (g_cfg.replay) {
                auto it = g_cfg.dev[C_SCHED].find(i);
                if (it != g_cfg.dev[C_SCHED].end()) if (Thread* t = by_id(it->second)) ch = t;
            } else {
                if (g_strat.kind == 1) ch = by_prio();
                else if (g_strat.kind != 2) ch = g_run[g_rng_sched.below(g_run.size())];
                if (ch != def) g_cfg.dev[C_SCHED][i] = ch->id;
            }
            return ch;
        }
        // idle: jump to the next instant at which something happens
        u64 t = g_ev_next;
        for (Thread* th : g_threads) {
            u64 x = NEVER;
            if (th->st == Thread::BLOCK) x = th->deadline;
            else if (th->st == Thread::RUN) x = th->stalled_until;
            if (x == NEVER) continue;
            if (th->node->frozen_until > x) x = th->node->frozen_until;
            if (x < t) t = x;
        }
        if (t == NEVER) { end_run("idle"); return nullptr; }
        if (t > g_now) g_now = t;
    }
}

static void handoff(Thread* me, Thread* n) {
    if (n == me) { me->quantum = 0; return; }
    if (n) {
        ++g_switches;
        g_ileave = (g_ileave ^ (u64)n->id) * 0x100000001b3ull + (u64)(size_t)(me ? me->csn : 0);
        n->quantum = 0;
        trace(n->id);
        fpost(n->go);
    } else {
        fpost(g_driver_go);
    }
    if (me) {
        me->saved_errno = errno;
        fwait(me->go);
        errno = me->saved_errno;
    }
}

bool block(const char* why, const void* obj, u64 deadline) {
    Thread* me = tls_self;
    ++tls_insim;
    me->st = Thread::BLOCK; me->why = why; me->why_obj = obj; me->deadline = deadline; me->timed_out = false;
    if (deadline < g_min_deadline) g_min_deadline = deadline;
    trace((u64)why[0]);
    handoff(me, pick_blocked());
    me->why = "";
    --tls_insim;
    return me->timed_out;
}

static void preempt_to(Thread* me, Thread* n) {
    if (n == me || !n) return;
    me->since = next_since();
    handoff(me, n);
}

static void schedule_next_preempt() {
    g_next_preempt = g_idx[C_SCHED] + geo(g_rng_sched, g_strat.preempt_inv);
}

static void dead_or_ended(Thread* me) {
    if (g_ended || me->st == Thread::DEAD || me->node->frozen_until > g_now) {
        me->since = next_since();
        handoff(me, pick_blocked());
    }
}

void point(int kind, const void* obj) {
    Thread* me = tls_self;
    if (!me || me->st == Thread::DEAD) { if (!me) return; park_forever(); }
    ++tls_insim;
    ++g_steps;
    g_since_point = 0;
    g_now += g_strat.step_ns;
    trace(((u64)kind << 8) | (u64)me->id);
    if (g_cfg.verbose > 2) logf("%s/%s #%lu '%c' %s", me->node->name.c_str(), me->name.c_str(), g_idx[C_SCHED], kind, me->csn ? sym(me->cs[me->csn - 1]).c_str() : "");
    if (g_now >= g_ev_next) run_events();
    if (g_now >= g_min_deadline) expire();
    if (g_steps > g_max_steps) end_run("steps");
    if (g_now > g_max_ns) end_run("time");
    dead_or_ended(me);
    // spinning detection: repeated atomic loads of one address
    if (kind == 'L' || kind == 'X') {
        if (me->spin_addr == obj) ++me->spin_cnt; else { me->spin_addr = obj; me->spin_cnt = 0; }
    } else if (kind != 'l') { me->spin_addr = nullptr; me->spin_cnt = 0; }
    u64 i = g_idx[C_SCHED]++;
    ++me->quantum;
    u32 v = 0;
    if (g_cfg.replay) {
        auto& d = g_cfg.dev[C_SCHED];
        static u64 next = 0; static bool init = false; static std::map<u64, u32>::iterator it;
        if (!init) { it = d.begin(); init = true; }
        (void)next;
        while (it != d.end() && it->first < i) ++it;
        if (it != d.end() && it->first == i) v = it->second;
    } else if (g_strat.kind == 1) {
        bool change = false;
        while (!g_pct_change.empty() && g_pct_change.back() <= i) { g_pct_change.pop_back(); change = true; }
        if (change) me->prio = --g_low_prio;
        collect();
        Thread* b = by_prio();
        if (b && b != me) v = b->id;
        if (i >= g_next_stall) {
            g_next_stall = g_strat.stall_inv ? i + geo(g_rng_sched, g_strat.stall_inv) : NEVER;
            v = 0x80000000u | (u32)(g_rng_sched.range(1, std::max<u64>(g_strat.stall_max, MSEC) / US));
        }
        if (me->late_at && !--me->late_at)
            v = 0x80000000u | (u32)(g_rng_sched.range(1, std::max<u64>(me->late_max, MSEC) / US));
        if (v) g_cfg.dev[C_SCHED][i] = v;
    } else {
        if (i >= g_next_preempt || g_strat.kind == 3) {
            collect();
            if (g_run.size() > 1) {
                Thread* t = g_run[g_rng_sched.below(g_run.size())];
                if (t != me) v = t->id;
            }
            if (g_strat.kind != 2) schedule_next_preempt(); else g_next_preempt = NEVER;
        }
        if (i >= g_next_stall) {
            g_next_stall = g_strat.stall_inv ? i + geo(g_rng_sched, g_strat.stall_inv) : NEVER;
            v = 0x80000000u | (u32)(g_rng_sched.range(1, std::max<u64>(g_strat.stall_max, MSEC) / US));
        }
        if (me->late_at && !--me->late_at)
            v = 0x80000000u | (u32)(g_rng_sched.range(1, std::max<u64>(me->late_max, MSEC) / US));
        if (v) g_cfg.dev[C_SCHED][i] = v;
    }
    if (v & 0x80000000u) {
        me->stalled_until = g_now + (u64)(v & 0x7fffffffu) * US;
        g_faults["thread-stall"]++;
        me->since = next_since();
        handoff(me, pick_blocked());
    } else if (v) {
        collect();
        Thread* t = by_id(v);
        if (t) preempt_to(me, t);
    } else if (me->node->slow_ns && g_ev_next != NEVER) {
        me->stalled_until = g_now + me->node->slow_ns;
        me->since = next_since();
        handoff(me, pick_blocked());
    } else if (me->quantum > g_strat.quantum || me->spin_cnt > 20 || me->yield) {
        collect();
        Thread* t = oldest(me);
        if (g_strat.kind == 1) me->prio = --g_low_prio;
        if (t) preempt_to(me, t);
        else if (me->yield) g_now += std::min<u64>(1ull << std::min<u32>(me->poll0, 20), MSEC);     // polling alone
        else if (me->spin_cnt > 40) {
            // nobody else can run: let the clock move so that the spin can end
            u64 x = g_ev_next;
            for (Thread* th : g_threads) {
                u64 y = th->st == Thread::BLOCK ? th->deadline : th->st == Thread::RUN && th != me ? th->stalled_until : NEVER;
                if (y < x) x = y;
            }
            u64 lim = g_now + ((u64)me->spin_cnt << 10);
            if (x > lim) x = lim;
            if (x > g_now) g_now = x;
        }
        me->quantum = 0;
    }
    --tls_insim;
}

u64 g_since_point = 0;
static void endless() {
    Guard g;
    g_since_point = 0;
    violate("hang", string("endless loop") + (tls_self ? " [" + tls_self->node->name + "/" + tls_self->name + "]" + stack_of(tls_self) : ""));
    if (tls_self) die();
}
static void mem_point() {
    Thread* me = tls_self;
    u64 i = g_mem_idx;
    u32 v = 0;
    ++tls_insim;
    collect();
    if (g_cfg.replay) {
        auto it = g_cfg.dev[C_MEM].find(i);
        if (it != g_cfg.dev[C_MEM].end()) v = it->second;
        auto nx = g_cfg.dev[C_MEM].upper_bound(i);
        g_next_mem = nx == g_cfg.dev[C_MEM].end() ? NEVER : nx->first;
    } else {
        if (g_run.size() > 1) {
            Thread* t = g_run[g_rng_sched.below(g_run.size())];
            if (t != me) v = t->id;
        }
        g_next_mem = i + geo(g_rng_sched, g_strat.mem_inv);
        if (v) g_cfg.dev[C_MEM][i] = v;
    }
    if (v) if (Thread* t = by_id(v)) preempt_to(me, t);
    --tls_insim;
}

// Threads
static const size_t STACK = 1 << 20;
static char* g_stacks = nullptr; static size_t g_stack_n = 0, g_stack_used = 0;
static std::vector<char*> g_free_stacks;

static void thread_done(Thread* me) {
    ++tls_insim;
    me->finished = true;
    me->final_vc = me->vc;
    me->st = Thread::DEAD;
    if (me->joiner) wake(me->joiner);
    handoff(me, pick_blocked());
    park_forever();
}
// A fault in the server's code (wild pointer, stack overflow, division by zero).
static void on_fault(int sig, siginfo_t* si, void* uc) {
    static std::atomic<int> nested{0};
    if (!tls_self || nested.fetch_add(1)) { signal(sig, SIG_DFL); raise(sig); return; }
    ++tls_insim;
    const void* pc = uc ? (const void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP] : nullptr;
    char b[100]; snprintf(b, sizeof b, "signal %d at address %p in ", sig, si->si_addr);
    violate("memory", b + sym((const char*)pc + 1) + " [" + tls_self->node->name + "/" + tls_self->name + "]" + stack_of(tls_self));
    die();
}
void install_fault_handler() {
    struct sigaction a; memset(&a, 0, sizeof a);
    a.sa_sigaction = on_fault; a.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &a, nullptr);
}
static void* thread_entry(void* p) {
    Thread* me = (Thread*)p;
    ++tls_insim;
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_size = 128 << 10; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
    tls_self = me;
    fwait(me->go);
    --tls_insim;
    if (me->body) me->body();
    else me->ret = me->fn(me->arg);
    thread_done(me);
    return nullptr;
}
void die() {
    Thread* me = tls_self;
    ++tls_insim;
    me->st = Thread::DEAD;
    handoff(me, pick_blocked());
    park_forever();
}
extern "C" int ysim_real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

void late_stall(Thread* t, u32 pts, u64 max) {
    if (g_cfg.replay) return;     // a replay has the stalls among its decisions
    t->late_at = 1 + g_rng_sched.below(pts); t->late_max = max;
}

Thread* spawn(Node* n, const string& name, void* (*fn)(void*), void* arg) {
    Guard g;
    Thread* t = new Thread;
    t->id = g_next_tid++;
    t->node = n; t->name = name; t->fn = fn; t->arg = arg;
    // a vector clock slot, unique among the node's unfinished threads
    std::vector<bool> used(MAXT, false);
    for (Thread* x : n->threads) if (!(x->finished && (x->detached || x->joiner == (Thread*)-1))) used[x->slot] = true;
    int s = 0; while (s < MAXT && used[s]) ++s;
    if (s == MAXT) { fprintf(stderr, "ysim: out of vector clock slots\n"); _exit(3); }
    t->slot = s;
    u32 prev = 0;
    for (Thread* x : n->threads) if (x->slot == s && x->final_vc.c[s] > prev) prev = x->final_vc.c[s];
    if (tls_self) { t->vc = tls_self->vc; ++tls_self->vc.c[tls_self->slot]; }
    t->vc.c[s] = prev + 1;
    if (g_stack_used >= g_stack_n) { fprintf(stderr, "ysim: out of stacks\n"); _exit(3); }
    t->stk_lo = g_stacks + STACK * g_stack_used++;
    t->stk_hi = t->stk_lo + STACK;
    t->since = next_since();
    t->prio = (1ull << 40) + g_rng_sched.below(1u << 20) * 1000 + t->id;
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, t->stk_lo, STACK);
    if (ysim_real_pthread_create(&t->real, &a, thread_entry, t) != 0) { fprintf(stderr, "ysim: pthread_create\n"); _exit(3); }
    pthread_attr_destroy(&a);
    if (!g_cfg.replay && g_strat.late_pct && g_now > 250 * MSEC && g_rng_sched.below(100) < g_strat.late_pct)
        late_stall(t, g_rng_sched.below(2) ? 30 : 300, g_strat.late_max);
    g_threads.push_back(t);
    n->threads.push_back(t);
    return t;
}

void run_until_end(u64 max_ns, u64 max_steps) {
    g_max_ns = max_ns; g_max_steps = max_steps;
    if (!g_cfg.replay) {
        if (g_strat.kind == 0) schedule_next_preempt();
        if (g_strat.stall_inv) g_next_stall = geo(g_rng_sched, g_strat.stall_inv);
        if (g_strat.mem_inv) g_next_mem = geo(g_rng_sched, g_strat.mem_inv);
        if (g_strat.kind == 1) {
            for (u32 i = 0; i < g_strat.pct_depth; ++i) g_pct_change.push_back(g_rng_sched.below(20000) * (1 + g_rng_sched.below(5)));
            std::sort(g_pct_change.rbegin(), g_pct_change.rend());
        }
    } else {
        g_next_mem = g_cfg.dev[C_MEM].empty() ? NEVER : g_cfg.dev[C_MEM].begin()->first;
    }
    ++tls_insim;
    Thread* n = pick_blocked();
    if (n) { handoff(nullptr, n); fwait(g_driver_go); }
    --tls_insim;
}

// ------------------------------------------------------------- symbols
struct ModInfo { char *lo, *hi; string name; const char* base; };
static std::vector<ModInfo> g_mods;
string sym(const void* pc) {
    Dl_info di;
    char b[64];
    if (dladdr((void*)((const char*)pc - 1), &di) && di.dli_sname) {
        int st; char* d = abi::__cxa_demangle(di.dli_sname, 0, 0, &st);
        string s = st == 0 && d ? d : di.dli_sname;
        free(d);
        if (s.size() > 90) s = s.substr(0, 90) + "...";
        snprintf(b, sizeof b, "+0x%lx", (unsigned long)((const char*)pc - (const char*)di.dli_saddr));
        string off;
        snprintf(b, sizeof b, " @0x%lx", (unsigned long)((const char*)pc - (const char*)di.dli_fbase));
        return s + b;
    }
    snprintf(b, sizeof b, "%p", pc);
    return b;
}
string stack_of(const Thread* t) {
    string s;
    int n = std::min(t->csn, 128), k = 0;
    for (int i = n - 1; i >= 0 && k < 8; --i, ++k) { s += "\n      called from "; s += sym(t->cs[i]); }
    return s;
}
string describe_threads() {
    string s;
    for (Thread* t : g_threads) {
        if (t->st == Thread::DEAD) continue;
        s += "\n  [" + t->node->name + "/" + t->name + "] " + (t->st == Thread::BLOCK ? string("blocked in ") + t->why : "runnable" + (t->stalled_until > g_now ? " (stalled until " + std::to_string(t->stalled_until / 1e9) + ")" : "") + (t->spin_cnt ? " spinning " + std::to_string(t->spin_cnt) : ""));
        s += stack_of(t);
    }
    return s;
}

// ------------------------------------------------------------- arena
static char* const A_BASE = (char*)0x200000000000ull;
static const size_t A_SIZE = 16ull << 30;
static const size_t HDR = 64, RZ = 16;
static u8* g_state = nullptr;               // one byte per 16
static char* g_brk = nullptr;
u64 g_arena_live = 0, g_arena_peak = 0, g_arena_total = 0;
std::map<string, u64> g_known_mem;
std::vector<string> g_secrets;
bool g_secret_check = false;
bool g_alloc_fail_armed = false; u32 g_alloc_fail_in = 0;

struct Hdr { u64 magic, size; const void* apc[2]; const void* fpc[2]; int atid, ftid; };
static const u64 MAGIC = 0x5953494d41524e41ull;
struct Cell { u64 m; const void* pc; };      // m: clock<<24 | slot<<16 | mask<<8 | flags
struct Shadow { Cell c[4]; };
static Shadow* g_shadow = nullptr;           // per 8 bytes of the arena
struct ModShadow { char *lo, *hi; Shadow* s; };
static std::vector<ModShadow> g_modshadow;

void arena_init() {
    void* p = mmap(A_BASE, A_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != A_BASE) { perror("ysim: arena"); _exit(3); }
    g_state = (u8*)mmap((void*)0x300000000000ull, A_SIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    g_shadow = (Shadow*)mmap((void*)0x400000000000ull, A_SIZE * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (g_state == MAP_FAILED || g_shadow == MAP_FAILED) { perror("ysim: shadow"); _exit(3); }
    madvise(g_shadow, A_SIZE * 8, MADV_NOHUGEPAGE);
    madvise(A_BASE, A_SIZE, MADV_NOHUGEPAGE);
    g_stack_n = 400;
    g_stacks = A_BASE + A_SIZE - STACK * g_stack_n;
    g_brk = A_BASE + 4096;
}
bool in_arena(const void* p) { return (size_t)((const char*)p - A_BASE) < A_SIZE; }

static void caller_pcs(const void* out[2]) {
    Thread* t = tls_self;
    out[0] = out[1] = nullptr;
    if (!t) return;
    int n = std::min(t->csn, 128);
    if (n > 0) out[0] = t->cs[n - 1];
    if (n > 1) out[1] = t->cs[n - 2];
}

void* arena_alloc(size_t n, size_t align) {
    if (align < 16) align = 16;
    char* p = g_brk + HDR;
    p = (char*)(((size_t)p + align - 1) & ~(align - 1));
    size_t cap = ((n ? n : 1) + 15) & ~15ull;
    if (p + cap + RZ + 65536 > g_stacks) { fprintf(stderr, "ysim: arena exhausted\n"); _exit(4); }
    g_brk = p + cap + RZ;
    g_brk = (char*)(((size_t)g_brk + 15) & ~15ull);
    Hdr* h = (Hdr*)(p - HDR);
    h->magic = MAGIC; h->size = n;
    caller_pcs(h->apc);
    h->atid = tls_self ? tls_self->id : 0;
    size_t g0 = (p - A_BASE) >> 4;
    std::memset(g_state + g0 - HDR / 16, 0xFE, HDR / 16);
    std::memset(g_state + g0, 16, n / 16);
    if (n & 15) g_state[g0 + n / 16] = n & 15;
    else if (n == 0) g_state[g0] = 0xFE;
    g_state[g0 + cap / 16] = 0xFE;
    if (n <= 65536) std::memset(p, 0xA5, n);
    g_arena_live += n; g_arena_total += n;
    if (g_arena_live > g_arena_peak) g_arena_peak = g_arena_live;
    return p;
}
static Hdr* hdr_of(const void* p) {     // block that contains or precedes p
    char* q = (char*)((size_t)p & ~15ull);
    for (size_t i = 0; i < (1u << 26) / 16 && q >= A_BASE + HDR; ++i, q -= 16) {
        if (((Hdr*)q)->magic == MAGIC && g_state[(q - A_BASE) >> 4] == 0xFE) return (Hdr*)q;
    }
    return nullptr;
}
size_t arena_size(void* p) { return ((Hdr*)((char*)p - HDR))->size; }

static string block_desc(const Hdr* h) {
    if (!h) return "";
    string s = "\n    block of " + std::to_string(h->size) + " bytes allocated at " + sym(h->apc[0]) + " <- " + sym(h->apc[1]);
    if (h->fpc[0]) s += "\n    freed at " + sym(h->fpc[0]) + " <- " + sym(h->fpc[1]);
    return s;
}

void arena_free(void* p) {
    Hdr* h = (Hdr*)((char*)p - HDR);
    size_t g0 = ((char*)p - A_BASE) >> 4;
    bool ok = h->magic == MAGIC && g_state[g0 - 1] == 0xFE && g_state[g0] != 0xFD && ((size_t)p & 15) == 0;
    if (!ok) {
        violate("memory", string("invalid or double free") + (tls_self ? stack_of(tls_self) : "") + block_desc(hdr_of(p)));
        return;
    }
    if (g_secret_check && !g_secrets.empty() && h->size >= 8 && h->size < (64u << 20)) {
        for (auto& s : g_secrets)
            if (memmem(p, h->size, s.data(), s.size())) {
                violate("secret", "freed memory still contains a secret: block of " + std::to_string(h->size) + " bytes" + (tls_self ? stack_of(tls_self) : "") + block_desc(h));
                return;
            }
    }
    if (g_race_on && tls_self) {
        size_t n = h->size;
        mem_range(p, n, true, tls_self->csn > 0 ? tls_self->cs[std::min(tls_self->csn, 128) - 1] : nullptr);
    }
    caller_pcs(h->fpc);
    h->ftid = tls_self ? tls_self->id : 0;
    size_t cap = (h->size + 15) / 16; if (!cap) cap = 1;
    std::memset(g_state + g0, 0xFD, cap);
    g_arena_live -= h->size;
    if (h->size >= (64u << 10)) {
        char* a = (char*)(((size_t)p + 4095) & ~4095ull);
        char* e = (char*)(((size_t)p + h->size) & ~4095ull);
        if (e > a) madvise(a, e - a, MADV_DONTNEED);
    } else {
        std::memset(p, 0xDD, h->size);
    }
}

static void bad_access(const void* p, size_t n, bool write, const void* pc) {
    u8 st = g_state[((char*)p - A_BASE) >> 4];
    string what = st == 0xFD ? "use after free" : "out-of-bounds access";
    Guard g;
    char b[128];
    Hdr* h = hdr_of(p);
    snprintf(b, sizeof b, ": %s of %zu bytes at offset %ld", write ? "write" : "read", n, h ? (long)((char*)p - (char*)h - (long)HDR) : -1L);
    violate("memory", what + b + " in " + sym(pc) + (tls_self ? " [" + tls_self->node->name + "/" + tls_self->name + "]" + stack_of(tls_self) : "") + block_desc(h));
    if (tls_self) { point('V', nullptr); }
}
static inline bool gran_ok(const char* p, size_t n) {   // within one 16-byte granule
    u8 st = g_state[(p - A_BASE) >> 4];
    return st == 16 || (st < 16 && ((size_t)p & 15) + n <= st);
}
static inline void check_state(const void* vp, size_t n, bool w, const void* pc) {
    const char* p = (const char*)vp;
    if (p >= g_stacks) return;
    size_t o = (size_t)p & 15;
    if (o + n <= 16) { if (!gran_ok(p, n)) bad_access(p, n, w, pc); return; }
    size_t first = 16 - o;
    if (!gran_ok(p, first)) { bad_access(p, n, w, pc); return; }
    const char* q = p + first; size_t left = n - first;
    // whole granules
    const u8* s = g_state + ((q - A_BASE) >> 4);
    while (left >= 16) { if (*s != 16) { bad_access(q, left, w, pc); return; } ++s; q += 16; left -= 16; }
    if (left && !gran_ok(q, left)) bad_access(q, left, w, pc);
}

void add_module(char* lo, char* hi, const string& name, const char* base) {
    g_mods.push_back({lo, hi, name, base});
    size_t n = (hi - lo) / 8 + 1;
    Shadow* s = (Shadow*)mmap(nullptr, n * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_modshadow.push_back({lo, hi, s});
}
static inline Shadow* shadow_of(const void* p) {
    size_t o = (const char*)p - A_BASE;
    if (o < A_SIZE) return g_shadow + (o >> 3);
    for (auto& m : g_modshadow)
        if ((const char*)p >= m.lo && (const char*)p < m.hi) return m.s + (((const char*)p - m.lo) >> 3);
    return nullptr;
}

// flags: 1 write, 2 atomic
static void race_cell(Shadow* sh, u8 mask, u32 fl, const void* pc, const void* addr) {
    Thread* t = tls_self;
    u32 slot = t->slot, clk = t->vc.c[slot];
    u64 nm = ((u64)clk << 24) | ((u64)slot << 16) | ((u64)mask << 8) | fl | 4;
    int repl = -1, empty = -1;
    for (int i = 0; i < 4; ++i) {
        u64 m = sh->c[i].m;
        if (!m) { if (empty < 0) empty = i; continue; }
        u8 om = (m >> 8) & 255; u32 os = (m >> 16) & 255, oc = (u32)(m >> 24), of = m & 3;
        if (!(om & mask)) continue;
        if (os == slot) {
            if (om == mask && of == fl) repl = i;          // same kind: refresh
            else if ((om & ~mask) == 0 && (fl & 1) && !(fl & 2)) { if (repl < 0) repl = i; else sh->c[i].m = 0; }
            continue;
        }
        bool hb = t->vc.c[os] >= oc;
        if (hb) { if ((om & ~mask) == 0 && (fl & 1)) { if (repl < 0) repl = i; } continue; }
        if (!((of | fl) & 1)) continue;                    // read-read
        if ((of & 2) && (fl & 2)) continue;                // both atomic
        Guard g;
        Hdr* h = in_arena(addr) && (char*)addr < g_stacks ? hdr_of(addr) : nullptr;
        string who = "?";
        for (Thread* x : t->node->threads) if ((u32)x->slot == os && !x->finished) who = x->name;
        string where = h ? " heap" : in_arena(addr) ? " stack" : " global " + sym((const char*)addr + 1);
        violate("race", string("data race: ") + (fl & 2 ? "atomic " : "") + (fl & 1 ? "write" : "read") + " in " + sym(pc) + " [" + t->name + "]" + stack_of(t) +
            "\n    and earlier " + (of & 2 ? "atomic " : "") + (of & 1 ? "write" : "read") + " in " + sym(sh->c[i].pc) + " [" + who + "]" + where + block_desc(h));
        return;
    }
    int k = repl >= 0 ? repl : empty >= 0 ? empty : (int)((clk + slot) & 3);
    sh->c[k].m = nm; sh->c[k].pc = pc;
}
static void race_check(const void* vp, size_t n, u32 fl, const void* pc) {
    const char* p = (const char*)vp;
    if (p >= g_stacks && p < A_BASE + A_SIZE && p >= tls_self->stk_lo && p < tls_self->stk_hi && !(fl & 8)) {
        // own stack: still recorded, other threads may hold pointers to it
    }
    while (n) {
        Shadow* s = shadow_of(p);
        if (!s) return;
        size_t o = (size_t)p & 7, k = std::min<size_t>(8 - o, n);
        race_cell(s, (u8)(((1u << k) - 1) << o), fl, pc, p);
        p += k; n -= k;
    }
}
void mem_access(const void* p, size_t n, bool write, bool atomic, const void* pc) {
    if (in_arena(p)) check_state(p, n, write, pc);
    if (g_race_on) race_check(p, n, (write ? 1 : 0) | (atomic ? 2 : 0), pc);
    if (!atomic && ++g_mem_idx >= g_next_mem) mem_point();
    if (++g_since_point > 400000000) endless();
}
void mem_range(const void* p, size_t n, bool write, const void* pc) {
    if (!n) return;
    if (in_arena(p)) check_state(p, n, write, pc);
    if (g_race_on) {
        if (n <= 2048) race_check(p, n, write ? 1 : 0, pc);
        else { race_check(p, 512, write ? 1 : 0, pc); race_check((const char*)p + n - 64, 64, write ? 1 : 0, pc); }
    }
    if (++g_mem_idx >= g_next_mem) mem_point();
}

// ------------------------------------------------------------- happens-before
static std::unordered_map<const void*, VC> g_sync;
void sync_release(const void* a, bool rmw) {
    Thread* t = tls_self; if (!t) return;
    VC& v = g_sync[a];
    if (rmw) v.join(t->vc); else v = t->vc;
    ++t->vc.c[t->slot];
}
// Relaxed accesses take part through the fences around them.
void sync_relaxed_load(const void* a) {
    Thread* t = tls_self; if (!t || !g_race_on) return;
    auto it = g_sync.find(a);
    if (it != g_sync.end()) t->acq_vc.join(it->second);
}
void sync_relaxed_store(const void* a, bool rmw) {
    Thread* t = tls_self; if (!t) return;
    if (t->rel_set) { VC& v = g_sync[a]; if (rmw) v.join(t->rel_vc); else v = t->rel_vc; }
    else if (!rmw) g_sync.erase(a);
}
void sync_fence(bool acq, bool rel) {
    Thread* t = tls_self; if (!t) return;
    if (acq) t->vc.join(t->acq_vc);
    if (rel) { t->rel_vc = t->vc; t->rel_set = true; ++t->vc.c[t->slot]; }
}
void sync_acquire(const void* a) {
    Thread* t = tls_self; if (!t) return;
    auto it = g_sync.find(a);
    if (it != g_sync.end()) t->vc.join(it->second);
}
void sync_clear(const void* a) { g_sync.erase(a); }

} // namespace sim
