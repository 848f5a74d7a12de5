// Deterministic simulator: core declarations.
#pragma once
#include <atomic>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <pthread.h>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace sim {

typedef std::uint64_t u64;
typedef std::uint32_t u32;
typedef std::int64_t i64;
typedef std::uint8_t u8;
using std::string;

constexpr u64 US = 1000ull, MSEC = 1000000ull, SEC = 1000000000ull;
constexpr u64 NEVER = ~0ull;

// ---------------------------------------------------------------- PRNG
struct Rng {
    u64 s[2];
    explicit Rng(u64 seed = 1) { reseed(seed); }
    static u64 mix(u64& x) {
        u64 z = (x += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    void reseed(u64 seed) { u64 x = seed; s[0] = mix(x); s[1] = mix(x); }
    u64 next() {
        u64 s1 = s[0], s0 = s[1];
        u64 r = s0 + s1;
        s[0] = s0; s1 ^= s1 << 23;
        s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        return r;
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); }   // inclusive
    bool chance(u32 num, u32 den) { return below(den) < num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- threads
constexpr int MAXT = 48;
struct VC {
    u32 c[MAXT];
    VC() { std::memset(c, 0, sizeof(c)); }
    void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct Node;
struct Thread {
    int id = 0;           // unique per run
    int slot = 0;         // vector-clock slot
    Node* node = nullptr;
    string name;
    pthread_t real{};
    std::atomic<int> go{0};
    enum St { RUN, BLOCK, DEAD } st = RUN;
    const char* why = "";
    const void* why_obj = nullptr;
    u64 deadline = NEVER;      // while blocked
    bool timed_out = false;
    u64 stalled_until = 0;
    u32 late_at = 0;           // points left before this one stalls (0 never)
    u64 late_max = 0;
    bool bound_to = false;
    u64 since = 0;             // order of becoming runnable
    u64 prio = 0;
    u64 quantum = 0;           // points since scheduled in
    const void* spin_addr = nullptr; u32 spin_cnt = 0;
    u64 spin_mark = 0;
    char *stk_lo = nullptr, *stk_hi = nullptr;
    void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
    bool finished = false, detached = false;
    Thread* joiner = nullptr;
    VC vc, final_vc, acq_vc, rel_vc; bool rel_set = false;
    std::function<void()> body;
    // shadow call stack
    const void* cs[128]; int csn = 0;
    u32 poll0 = 0; bool yield = false;
    int saved_errno = 0;
    u64 cpu_cost = 0;
};
extern thread_local Thread* tls_self;
extern thread_local int tls_insim;
inline bool in_node() { return tls_self != nullptr && tls_insim == 0; }
struct Guard {
    int e;
    Guard() : e(errno) { ++tls_insim; }
    ~Guard() { --tls_insim; errno = e; }
    void err(int x) { e = x; }
};

// ---------------------------------------------------------------- run state
enum Cat { C_SCHED, C_MEM, C_NET, C_FAULT, C_MISC, C_NCAT };

struct Strategy {
    int kind = 0;              // 0 random, 1 pct, 2 sequential, 3 every point
    u32 preempt_inv = 16;      // mean points between preemptions
    u32 pct_depth = 3;
    u32 stall_on_fault = 0;    // stall within this many points of a disk error
    u32 stall_inv = 0;         // mean points between stalls (0 none)
    u64 stall_max = 0;
    u32 late_pct = 0;          // of the threads started while serving: stalled once, somewhere
    u64 late_max = 0;
    u64 step_ns = 1000;
    u32 mem_inv = 0;           // mean plain memory accesses between preemptions (0 none)
    u32 quantum = 400;         // points before the running thread is rotated out
};

struct RunCfg {
    u64 seed = 1;              // scenario and workload
    u64 sched_seed = 1;        // schedule, network, injected faults
    string scenario;
    std::set<u32> drop;        // plan items removed by minimisation
    bool replay = false;       // decisions from `dev`, others default
    std::map<u64, u32> dev[C_NCAT];
    bool no_race = false;
    int verbose = 0;
    std::map<string, string> opt;
};
extern RunCfg g_cfg;

extern u64 g_now;              // simulated ns since start
extern u64 g_steps, g_switches, g_events;
extern u64 g_hash;             // trace hash
extern u64 g_ileave;           // interleaving hash
extern Strategy g_strat;
extern Rng g_rng_plan, g_rng_sched, g_rng_net, g_rng_fault;
extern bool g_race_on;
extern std::set<string> g_only;   // classes of violations that count; empty: all
extern u64 g_epoch;            // wall clock at g_now == 0, seconds

inline void trace(u64 v) { g_hash = (g_hash ^ v) * 0x100000001b3ull + 0x9E3779B97F4A7C15ull; }
void trace_s(const string& s);

// One recorded decision out of n; `rnd` is evaluated in search mode only.
u32 decide(Cat c, u32 n, const std::function<u32()>& rnd);
u32 decide_net(u32 n);         // uniform
bool fault(const char* kind, u32 num, u32 den);   // recorded, counted
extern std::map<string, u64> g_faults;
extern u64 g_note;                 // what was observed besides the replies to g_hist
inline void note(u64 v) { g_note = (g_note ^ v) * 1099511628211ull; }
void count_fault(const string& kind, u64 n = 1);
extern std::map<string, u64> g_reach;     // sometimes-assertions
void reach(const char* what);

void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- scheduling
void point(int kind, const void* obj);          // may preempt
void at(u64 t, std::function<void()> fn);       // event at absolute time
inline void after(u64 d, std::function<void()> fn) { at(g_now + d, std::move(fn)); }
// Block the current thread until woken or until deadline. True if timed out.
bool block(const char* why, const void* obj, u64 deadline = NEVER);
void wake(Thread* t);
Thread* spawn(Node* n, const string& name, void* (*fn)(void*), void* arg);
Thread* self();
void run_until_end(u64 max_ns, u64 max_steps);  // driver
void end_run(const char* why);                  // any context
extern string g_end_why;
string describe_threads();
void late_stall(Thread* t, u32 pts, u64 max);   // stall t once, for up to max, within pts of its points
void install_fault_handler();
string stack_of(const Thread* t);
string sym(const void* pc);

// ---------------------------------------------------------------- violations
struct Violation { string cls, msg; };
extern std::vector<Violation> g_viol;
void violate(const string& cls, const string& msg);  // records, ends the run
bool violated();

// ---------------------------------------------------------------- memory
void arena_init();
bool in_arena(const void* p);
void* arena_alloc(size_t n, size_t align);
void arena_free(void* p);
size_t arena_size(void* p);
void mem_access(const void* p, size_t n, bool write, bool atomic, const void* pc);
void mem_range(const void* p, size_t n, bool write, const void* pc);
void add_module(char* lo, char* hi, const string& name, const char* base);
void sync_release(const void* addr, bool rmw);
void sync_acquire(const void* addr);
void sync_clear(const void* addr);
void sync_relaxed_load(const void* a);
void sync_relaxed_store(const void* a, bool rmw);
void sync_fence(bool acq, bool rel);
extern u64 g_arena_live, g_arena_peak, g_arena_total;
extern std::map<string, u64> g_known_mem;  // suppressed reports
// secrets whose bytes must not survive a free
extern std::vector<string> g_secrets;
extern bool g_secret_check;
extern bool g_alloc_fail_armed; extern u32 g_alloc_fail_in;

// ---------------------------------------------------------------- nodes
struct Sock; struct File;
struct Fd {
    enum K { NONE, SOCK, EPOLL, EVENT, SIGNAL, FILE, PIPE, TIMER } k = NONE;
    std::shared_ptr<struct Obj> o;
    bool nonblock = false;
};
struct Obj {
    Node* node = nullptr;
    virtual ~Obj() {}
    virtual u32 poll_mask() { return 0; }
    virtual void on_last_close() {}
    std::vector<std::pair<struct Epoll*, int>> eps;   // registrations (epoll, fd)
    std::deque<Thread*> waiters;                      // threads in a blocking call
    int refs = 0;                                     // descriptors
    void notify(u32 mask);
};
struct Epi { int fd; u32 events; u64 data; Obj* o; bool ready; };
struct Epoll : Obj {
    std::map<int, Epi> items;
    std::deque<int> ready;
    u32 poll_mask() override;
};
struct EventFd : Obj { u64 v = 0; bool sema = false; VC vc; u32 poll_mask() override; };
struct SignalFd : Obj { u64 mask = 0; u32 poll_mask() override; };

struct Module {
    void* handle = nullptr;
    int (*start)(int, char**) = nullptr;   // ysim_node_start
    char *lo = nullptr, *hi = nullptr;     // writable segments
    bool used = false;
    int index = 0;
};

enum SockSt { S_NEW, S_BOUND, S_LISTEN, S_CONNECTING, S_EST, S_CLOSED };

struct Node {
    int id = 0;             // host index
    int gen = 0;            // incarnation
    string name;
    bool alive = false;
    bool exited = false; int exit_code = -1; string exit_why; u64 exit_time = 0;
    bool crashed = false;   // killed by the simulator
    Module* mod = nullptr;
    std::vector<Fd> fds;
    int fd_limit = 250;
    u64 sigblocked = 0; bool sigpipe_ignored = false;
    std::deque<int> sigpending;
    std::map<const void*, int> dummy;
    string conf_path;
    std::vector<string> args;
    string log;             // what it wrote to its log
    u64 boot = 0;           // time it was started
    u64 frozen_until = 0;
    u64 slow_ns = 0;        // starved of processor time: pauses this long at every point
    Thread* main = nullptr;
    std::vector<Thread*> threads;
    struct Host* host = nullptr;
    u64 nfd_peak = 0;
    u64 siphash_k[2];
    int rd_calls = 0;
};

struct DiskCfg {
    u64 capacity = ~0ull; u64 used = 0;
    u32 short_num = 0;      // per 256
    u32 err_write = 0, err_read = 0, err_open = 0, err_sync = 0, err_eintr = 0, err_trunc = 0, err_lseek = 0; // per 4096
};
// A host: address, clock, disk; incarnations of the server run on it.
struct Host {
    int id = 0;
    string name;
    u32 ip = 0;
    i64 skew_ns = 0;        // wall clock offset
    std::vector<std::pair<u64, i64>> skew_hist;   // (time, offset)
    bool up = true;         // power
    DiskCfg disk;
    Node* cur = nullptr;
    std::vector<std::unique_ptr<Node>> incarnations;
};
extern std::vector<std::unique_ptr<Host>> g_hosts;
extern int g_vip_owner;     // host index or -1
extern u32 g_vip;

i64 wall_ns(const Host* h);             // wall clock now
i64 wall_ns_at(const Host* h, u64 t);
void host_clock_step(Host* h, i64 delta);

Host* add_host(const string& name);
Node* start_node(Host* h, const std::map<string, string>& conf);
void node_exit(Node* n, int code, const string& why);  // process ends by itself
void kill_node(Node* n, bool power);                   // SIGKILL or power loss
void node_signal(Node* n, int sig);
int node_open_fds(Node* n);
void set_vip(int host);
typedef std::function<void(Node*)> NodeCb;
extern NodeCb g_on_node_exit;
[[noreturn]] void park_forever();
[[noreturn]] void die();      // current thread never runs again

extern std::vector<Module> g_modules;
void load_modules(const string& path, int n, const string& scratch);

// ---------------------------------------------------------------- network
struct NetCfg {
    u64 lat_min = 20 * US, lat_max = 200 * US;
    u32 sndbuf = 256 << 10, rcvbuf = 256 << 10;
    u32 seg = 1460 * 10;    // largest segment handed over at once
    u32 small_seg = 0;      // of 256: deliver a random small piece instead
    u32 jitter = 0;         // of 256: long delay
    u64 jitter_max = 0;
    bool cork = true;
};
extern NetCfg g_net;

struct ExtHandler {            // an endpoint outside the servers
    virtual ~ExtHandler() {}
    virtual void on_connected(bool ok, int err) = 0;
    virtual void on_data() = 0;        // bytes are in recvq
    virtual void on_eof() = 0;
    virtual void on_reset() = 0;
};

struct Dir {                   // bytes from this endpoint towards its peer
    string q; size_t off = 0;  // accepted by the sender, not yet delivered
    size_t size() const { return q.size() - off; }
    u64 last_delivery = 0;
    bool busy = false;         // a delivery is scheduled
    bool fin = false, fin_sent = false;
    u64 cork_until = 0;        // do not push before
    size_t pushed = 0;         // bytes that may be pushed regardless of cork
    u64 total = 0;
};
struct Sock : Obj, std::enable_shared_from_this<Sock> {
    u64 id = 0;
    SockSt st = S_NEW;
    bool v6 = false, freebind = false;
    u32 lip = 0, rip = 0; int lport = 0, rport = 0;
    Host* host = nullptr;      // where it lives (null: outside)
    u32 ext_ip = 0;
    std::weak_ptr<Sock> peer;
    Dir out;
    string rq; size_t rqoff = 0;
    size_t rqsize() const { return rq.size() - rqoff; }
    bool rcv_fin = false;      // peer's FIN was received
    bool snd_shut = false, rcv_shut = false;
    int err = 0;               // pending error
    bool reset = false, done = false;
    bool nospace = false;
    bool corked = false;
    bool orphan = false;       // no descriptor any more
    bool vanished = false, peer_gone = false;
    bool rd_off = false;       // outside endpoint does not read
    u32 sndbuf = 0, rcvbuf = 0;
    bool keepalive = false; u64 ka_idle = 7200 * SEC, ka_intvl = 75 * SEC; int ka_cnt = 9; u32 ka_gen = 0;
    u64 last_rx = 0; bool ka_armed = false; u64 unacked_since = 0; bool rto_armed = false;
    // listening
    std::deque<std::shared_ptr<Sock>> acceptq;
    // connecting
    ExtHandler* ext = nullptr;
    bool conn_done = false;
    u32 poll_mask() override;
    void on_last_close() override;
};
typedef std::shared_ptr<Sock> SockP;
bool link_up(const Sock* a, const Sock* b);
// partitions: pairs of endpoint groups that cannot talk
void cut_link(u32 ip_a, u32 ip_b, bool cut);   // ip 0: any outside client
bool is_cut(u32 a, u32 b);
void link_changed();
SockP ext_connect(ExtHandler* h, u32 from_ip, u32 to_ip, int port);
void ext_send(const SockP& s, const string& data);
void ext_shutdown(const SockP& s);
void ext_close(const SockP& s);   // full close
void ext_reset(const SockP& s);
void ext_vanish(const SockP& s);  // the client machine disappears silently
string ext_recv(const SockP& s, size_t max);
void ext_set_reading(const SockP& s, bool on);
void pump(const SockP& s);
void sock_reset_by_peer(const SockP& s, int err);
u64 net_lat();

} // namespace sim
