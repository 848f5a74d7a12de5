// Scenarios: who runs, what they do, and what must hold afterwards.
#pragma once
#include "client.hpp"

namespace sim {

typedef std::map<string, string> Conf;

struct Workload {
    std::vector<std::pair<OpK, u32>> mix;      // weights
    std::vector<string> keys;
    u32 ops = 20;
    u32 bin_pct = 50, quiet_pct = 10, noreply_pct = 10, multiget_pct = 20, cas_pct = 30;
    u32 num_pct = 15;                // numeric values
    u32 exp_pct = 0; std::vector<i64> exps;   // choice of expiry values
    u32 wait_pct = 30; u64 wait_max = 50 * MSEC;
    u32 split_pct = 10;
    u32 end_pct = 0; std::vector<EndK> ends;
    u32 big_pct = 5; u32 big_max = 5000; u32 val_max = 60;
    bool gat_none = true;
    u32 multi_max = 4;
    u64 max_data = 1 << 20;          // larger ones are not sent without asking for a reply
    u32 pause_pct = 0; u64 pause_max = 0;
};

struct Scenario {
    string name, cls;                 // class of the linearizability violations
    std::vector<string> properties;
    u32 idgen = 0;
    u64 max_ns = 120 * SEC, max_steps = 6000000;
    u64 hang_after = 30 * SEC;
    bool expect_exit = false;
    bool done_clients = false;
    u64 settle = 1 * SEC;
    std::function<void(Node*)> exit_hook;
    virtual ~Scenario() {}
    virtual void setup() = 0;
    virtual void clients_done() { end(); }     // every client has finished its plan
    virtual void oracle() {}                    // after the run
    virtual bool hang_allowed() { return false; }

    void end();
    void watch();
    void base_setup();
    bool pinned = false;        // steps that the minimiser must keep
    u32 id() { return ++idgen; }
    bool dropped(u32 i) { return g_cfg.drop.count(i); }

    Conf conf();                                // defaults for a server
    Host* master();                             // host 0 holding the address, started
    Host* host_started(const string& name, const Conf& c);
    OpP mk(OpK k, const string& key, bool bin);
    void op(Client* c, OpP o);
    void wait(Client* c, u64 ns);
    void endc(Client* c, EndK e);
    void barrier(Client* c);
    void sync(Client* c, int n);
    void reading(Client* c, bool on);
    void pause_reading(Client* c, u64 d);       // stop reading for that long
    void call(Client* c, std::function<void()> f);
    OpP rand_op(Rng& r, Client* c, const Workload& w);
    void gen(Client* c, const Workload& w);
    string value(Client* c, Rng& r, const Workload& w);
    void timed(u64 t, const string& what, std::function<void()> f);   // a droppable event
    bool fin = false;
    // Once: a new client reads every key used so far (true: it was started).
    bool final_read(u64 delay, bool stats = false);
    u32 valno = 0;
    std::vector<std::pair<u32, string>> items;  // plan items for minimisation
};
typedef std::function<std::unique_ptr<Scenario>()> ScenFactory;
std::map<string, ScenFactory>& scenarios();
struct RegScen { RegScen(const char* n, ScenFactory f) { scenarios()[n] = f; } };
#define SCENARIO(T, NAME) static RegScen reg_##T(NAME, [] { auto s = std::make_unique<T>(); s->name = NAME; return s; })

extern Scenario* g_scen;
void pick_strategy(Rng& r, u32 flavour = 1);
void pick_net(Rng& r, bool harsh);
// The run gives away a fixed amount of simulated time per step, so that periods are what they seem.
inline void prompt() {
    g_strat.kind = 0; g_strat.preempt_inv = std::max<u32>(g_strat.preempt_inv, 16); g_strat.step_ns = std::min<u64>(g_strat.step_ns, 1000); g_strat.stall_inv = 0; g_strat.mem_inv = 0;
}
string log_tail(Node* n, size_t max = 600);

} // namespace sim
