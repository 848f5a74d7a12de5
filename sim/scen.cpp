#include "scen.hpp"

namespace sim {

Scenario* g_scen = nullptr;
std::map<string, ScenFactory>& scenarios() { static std::map<string, ScenFactory> m; return m; }

string log_tail(Node* n, size_t max) { return n->log.size() > max ? n->log.substr(n->log.size() - max) : n->log; }

// How the scheduler searches; drawn from the schedule seed.
void pick_strategy(Rng& r, u32 flavour) {
    Strategy s;
    u32 k = r.below(100);
    if (k < 10) { s.kind = 2; }
    else if (k < 30) { s.kind = 1; s.pct_depth = 1 + r.below(6); }
    else if (k < 36) { s.kind = 3; }
    else { s.kind = 0; static const u32 inv[] = {3, 8, 16, 40, 120, 400}; s.preempt_inv = inv[r.below(6)]; }
    static const u64 st[] = {300, 1000, 3000, 10000};
    s.step_ns = st[r.below(4)];
    if (r.chance(1, 3)) {
        static const u32 inv[] = {200, 1000, 5000};
        s.stall_inv = inv[r.below(3)];
        static const u64 mx[] = {50 * US, 2 * MSEC, 20 * MSEC, 150 * MSEC};
        s.stall_max = mx[r.below(4)];
    }
    if (flavour & 1) { if (r.chance(2, 5)) { static const u32 inv[] = {50, 300, 2000, 20000}; s.mem_inv = inv[r.below(4)]; } }
    g_strat = s;
}
void pick_net(Rng& r, bool harsh) {
    NetCfg n;
    static const u64 lo[] = {1 * US, 20 * US, 100 * US, 1 * MSEC};
    u32 k = r.below(4);
    n.lat_min = lo[k]; n.lat_max = lo[k] * (1 + r.below(20));
    if (r.chance(1, 3)) n.small_seg = 20 + r.below(200);
    if (r.chance(1, 4)) { n.jitter = 1 + r.below(20); n.jitter_max = (1 + r.below(50)) * MSEC; }
    if (r.chance(1, 4)) n.seg = 1 + r.below(2000);
    if (harsh) {
        static const u32 b[] = {2 << 10, 8 << 10, 32 << 10, 256 << 10};
        n.sndbuf = b[r.below(4)]; n.rcvbuf = b[r.below(4)];
    }
    g_net = n;
}

void Scenario::base_setup() {
    pick_strategy(g_rng_sched);
    pick_net(g_rng_plan, false);
    g_on_node_exit = [this](Node* n) {
        if (exit_hook) { exit_hook(n); return; }
        if (expect_exit) return;
        violate("exit", n->name + " stopped by itself: status " + std::to_string(n->exit_code) + ", " + n->exit_why + "\nlog: " + log_tail(n));
    };
    watch();
}
void Scenario::watch() {
    after(100 * MSEC, [this] {
        bool any = false;
        for (auto& c : g_hist.clients) {
            if (!c->started) { any = true; continue; }
            if (c->finished) continue;
            any = true;
            if (c->s) {     // bytes still trickle through the network
                u64 m = c->s->out.total - c->s->out.size();
                if (auto p = c->s->peer.lock()) m += p->out.total - p->out.size();
                if (m != c->net_moved) { c->net_moved = m; c->last_progress = g_now; }
            }
            if (g_now > c->last_progress + hang_after && !c->waiting && !c->at_sync && !hang_allowed()) {
                violate("hang", "no progress for " + std::to_string(hang_after / SEC) + " s of simulated time\n" + clients_state() + describe_threads());
                return;
            }
        }
        if (!any && !done_clients) { done_clients = true; clients_done(); }
        watch();
    });
}
void Scenario::end() { after(settle, [] { end_run("done"); }); }

Conf Scenario::conf() {
    return {{"virtual_ip", "10.0.0.100"}, {"port", "11211"}, {"repl_port", "11213"}, {"max_connections", "0"}, {"temp_dir", "/tmp"},
            {"log.threshold", "info"}, {"buckets", "101"}, {"max_data_size", "1M"}, {"heap_data_limit", "256K"}, {"repl_buffer_size", "30"},
            {"memory_limit", "1024M"}, {"workers", "4"}, {"gc_interval", "10"}, {"slave_timeout", "10"}, {"user", ""}, {"group", ""}};
}
Host* Scenario::host_started(const string& n, const Conf& c) { Host* h = add_host(n); start_node(h, c); return h; }

OpP Scenario::mk(OpK k, const string& key, bool bin) {
    auto o = std::make_shared<Op>();
    o->k = k; o->key = key; o->bin = bin;
    return o;
}
static void push(Client* c, Step s) { c->plan.push_back(std::move(s)); }
void Scenario::op(Client* c, OpP o) { Step s; s.k = ST_OP; s.id = o->id = id(); s.op = o; push(c, s); if (!pinned) items.push_back({s.id, "client " + std::to_string(c->id) + " " + o->desc()}); }
void Scenario::wait(Client* c, u64 ns) { Step s; s.k = ST_WAIT; s.ns = ns; s.id = id(); push(c, s); if (!pinned) items.push_back({s.id, "client " + std::to_string(c->id) + " wait " + std::to_string(ns)}); }
void Scenario::endc(Client* c, EndK e) { Step s; s.k = ST_END; s.end = e; s.id = id(); push(c, s); if (!pinned) items.push_back({s.id, "client " + std::to_string(c->id) + " " + end_names[e]}); }
void Scenario::barrier(Client* c) { Step s; s.k = ST_BARRIER; push(c, s); }
void Scenario::sync(Client* c, int n) { Step s; s.k = ST_SYNC; s.sync = n; push(c, s); }
void Scenario::reading(Client* c, bool on) { Step s; s.k = ST_READ; s.on = on; push(c, s); }
void Scenario::pause_reading(Client* c, u64 d) {
    Step s; s.k = ST_CALL; s.id = id();
    s.call = [c, d] {
        if (!c->s) return;
        count_fault("client-stops-reading");
        SockP k = c->s;
        ext_set_reading(k, false);
        after(d, [c, k] { ext_set_reading(k, true); if (c->s == k) c->on_data(); });
    };
    push(c, s); if (!pinned) items.push_back({s.id, "client " + std::to_string(c->id) + " stops reading for " + std::to_string(d)});
}
void Scenario::call(Client* c, std::function<void()> f) { Step s; s.k = ST_CALL; s.call = f; push(c, s); }
void Scenario::timed(u64 t, const string& what, std::function<void()> f) {
    u32 i = id();
    items.push_back({i, "event at " + std::to_string(t / 1e9) + ": " + what});
    if (dropped(i)) return;
    at(t, [what, f] { logf("event: %s", what.c_str()); count_fault(what.substr(0, what.find(' '))); f(); });
}

bool Scenario::final_read(u64 delay, bool stats) {
    if (fin) return false;
    fin = true;
    Client* c = add_client(g_vip);
    std::set<string> keys;
    for (auto& o : g_hist.ops) { if (!o->key.empty() && o->k != O_STATS && o->k != O_KEYS) keys.insert(o->key); for (auto& m : o->more) keys.insert(m); }
    wait(c, delay);
    for (auto& k : keys) { auto o = mk(O_GET, k, false); o->gets = true; op(c, o); }
    if (stats) op(c, mk(O_STATS, "", false));
    done_clients = false;
    c->start(g_now);
    return true;
}

string Scenario::value(Client* c, Rng& r, const Workload& w) {
    u32 n = ++valno;
    if (r.below(100) < w.num_pct) { static const u64 v[] = {0, 1, 5, 10, 99, 1000, 18446744073709551615ull, 18446744073709551614ull, 4294967295ull}; return std::to_string(r.chance(1, 2) ? v[r.below(9)] : r.below(1000)); }
    string s = "v" + std::to_string(c->id) + "." + std::to_string(n) + ".";
    u32 len = r.below(100) < w.big_pct ? w.val_max + r.below(w.big_max) : r.below(w.val_max + 1);
    while (s.size() < len) s += (char)('a' + (s.size() * 7 + n * 3) % 26);
    return s;
}
OpP Scenario::rand_op(Rng& r, Client* c, const Workload& w) {
    u32 tot = 0;
    for (auto& m : w.mix) tot += m.second;
    u32 x = r.below(tot);
    OpK k = w.mix[0].first;
    for (auto& m : w.mix) { if (x < m.second) { k = m.first; break; } x -= m.second; }
    bool bin = r.below(100) < w.bin_pct;
    if (k == O_GAT || k == O_LAG || k == O_RAU) bin = true;
    if (k == O_NOOP) bin = true;
    auto o = mk(k, r.pick(w.keys), bin);
    bool store = k == O_SET || k == O_ADD || k == O_REPLACE || k == O_CAS || k == O_RAU;
    if (store || k == O_APPEND || k == O_PREPEND) {
        o->val = value(c, r, w);
        if (store) o->flags = r.chance(1, 3) ? 0 : (u32)r.next();
    }
    auto give_exp = [&] { o->has_exp = true; o->exp = w.exps.empty() ? 0 : r.pick(w.exps); };
    if (store && w.exp_pct && r.below(100) < w.exp_pct) give_exp();
    if (k == O_TOUCH || k == O_GAT) { if (w.exps.empty()) { o->has_exp = true; o->exp = 0; } else give_exp(); }
    if (k == O_LAG && r.chance(1, 3) && !w.exps.empty()) give_exp();
    if (bin) {
        if (k == O_GET || k == O_GAT || k == O_LAG) { o->withkey = r.chance(1, 3); o->quiet = r.below(100) < w.quiet_pct; }
        else if (k != O_TOUCH && k != O_STATS && k != O_KEYS && k != O_VERSION && k != O_NOOP) o->quiet = r.below(100) < w.quiet_pct;
        if (k == O_CAS) { o->bin_store = r.chance(1, 3) ? 1 : 0; }
        if ((k == O_APPEND || k == O_PREPEND || k == O_DELETE || k == O_INCR || k == O_DECR || k == O_RAU) && r.below(100) < w.cas_pct / 3) o->cas_mode = 1 + r.below(3);
    } else {
        if (store || k == O_APPEND || k == O_PREPEND || k == O_INCR || k == O_DECR || k == O_DELETE || k == O_TOUCH || k == O_FLUSH) o->quiet = r.below(100) < w.noreply_pct;
        if (k == O_GET) {
            o->gets = r.chance(1, 2);
            if (r.below(100) < w.multiget_pct) {
                u32 n = 1 + r.below(w.multi_max);
                std::vector<string> left;
                for (auto& kk : w.keys) if (kk != o->key) left.push_back(kk);
                for (u32 i = 0; i < n && !left.empty(); ++i) { size_t j = r.below(left.size()); o->more.push_back(left[j]); left.erase(left.begin() + j); }
            }
        }
    }
    if (!bin && o->val.size() > w.max_data) o->quiet = false;
    if (k == O_CAS) o->cas_mode = r.chance(3, 4) ? 1 : 2 + r.below(2);
    if (k == O_INCR || k == O_DECR) {
        static const u64 d[] = {1, 2, 7, 100, 18446744073709551615ull, 4294967296ull};
        o->delta = d[r.below(6)];
        if (bin) { o->initial = r.below(50); o->create = r.chance(1, 2); if (o->create) { if (w.exps.empty()) o->exp = 0; else o->exp = r.pick(w.exps); o->has_exp = true; } }
    }
    if (r.below(100) < w.split_pct) { o->split = 0.01 + r.below(98) / 100.0; o->split_delay = 1 + r.below(30 * MSEC); }
    return o;
}
void Scenario::gen(Client* c, const Workload& w) {
    Rng& r = g_rng_plan;
    for (u32 i = 0; i < w.ops; ++i) {
        if (w.pause_pct && r.below(100) < w.pause_pct) pause_reading(c, 1 + r.below(w.pause_max));
        op(c, rand_op(r, c, w));
        if (r.below(100) < w.wait_pct) wait(c, 1 + r.below(w.wait_max));
        if (w.end_pct && r.below(100) < w.end_pct) { endc(c, r.pick(w.ends)); if (r.chance(1, 2)) wait(c, 1 + r.below(w.wait_max)); }
    }
}

} // namespace sim
