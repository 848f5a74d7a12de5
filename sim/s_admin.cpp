// C13 connections, C20 termination signals, C23 statistics.
#include "counter.hpp"
#include "guest.hpp"
#include "repl.hpp"
#include <csignal>

namespace sim {
namespace {

struct C13 : Scenario {
    std::vector<std::unique_ptr<Guest>> gs; Host* h = nullptr; u32 M = 0, CM = 0; int base = 0, limit = 0; bool slow = false; u64 last = 0; bool vanishes = false;
    static const u64 B = 6 * SEC;
    u64 gone_by(Guest* g) { return g->t_end == NEVER ? NEVER : g->t_end + (g->by_server ? SEC : g->how == 3 ? 365 * SEC : slow ? 40 * SEC : B); }     // a worker that waits for a client delays the release of others
    // connections to `port` that may hold a place at some time in [a, b]
    u32 most(int port, Guest* but, u64 a, u64 b) { u32 n = 0; for (auto& g : gs) if (g.get() != but && (!port || g->port == port) && g->t0 && g->t0 <= b && !(g->refused && g->t_end < a) && gone_by(g.get()) > a) ++n; return n; }
    void add(u64 t, int port, u64 stay, u64 period, u32 how, bool stuffed) {
        auto p = std::make_unique<Guest>(); Guest* g = p.get();
        g->id = gs.size(); g->port = port; g->stay = stay; g->period = period; g->how = how; g->stuffed = stuffed; g->from = 0x0a040000u + g->id + 1;
        g->on_answer = [this](Guest* q) {
            u64 from = std::max(q->t_ask, thaw), d = g_now - std::min(from, g_now);
            if (q->answered > 1 && d > 3 * SEC && !hogged(q->t_ask)) violate("blocked", "guest " + std::to_string(q->id) + " waited " + std::to_string(d / MSEC) + " ms for an answer");
        };
        g->on_gone = [this](Guest* q) { gone(q); };
        gs.push_back(std::move(p));
        static const char* nm[] = {"close", "half-close", "reset", "vanish"};
        timed(t, string("guest ") + std::to_string(g->id) + " port " + std::to_string(port) + " stays " + std::to_string(stay / MSEC) + " ms, then " + nm[how] + (stuffed ? ", does not read" : ""), [this, g, how] { static const char* f[] = {"guest-closes", "guest-half-closes", "guest-resets", "guest-vanishes"}; count_fault(f[how]); enter(g); });
        last = std::max(last, t + stay);
        if (how == 3) vanishes = true;
    }
    u32 workers = 0;
    // Every worker may be waiting for a client that does not read.
    bool hogged(u64 a) { u32 n = 0; for (auto& g : gs) if (g->stuffed && g->t0 && gone_by(g.get()) > a) ++n; return n >= workers; }
    u64 thaw = 0, unexplained = 0;
    void gone(Guest* q) {
        if (!q->by_server) return;
        logf("guest %d closed by the server", q->id);
        if (q->port == 11213) return;
        u32 lim = q->port == 11211 ? M : CM;
        if (q->t_first || q->stuffed) { if (!q->stuffed) violate("closed", "guest " + std::to_string(q->id) + " was being served and was closed by the server\n" + log_tail(h->cur)); return; }
        q->refused = true;
        reach("refused");
        u32 n = most(q->port, q, q->t0, g_now);
        if ((!lim || n < lim) && ++unexplained > g_faults["accept-ECONNABORTED"]) violate("refused", "guest " + std::to_string(q->id) + " was refused though at most " + std::to_string(n) + " other connections were open (limit " + std::to_string(lim) + ")\n" + log_tail(h->cur));
    }
    u32 served_now(int port) { u32 n = 0; for (auto& g : gs) if (g->port == port && g->t_first && !g->ended) ++n; return n; }
    void watch_served() {
        if (M && served_now(11211) > M) { violate("too-many", std::to_string(served_now(11211)) + " clients are served (limit " + std::to_string(M) + ")"); return; }
        if (CM && served_now(11215) > CM) { violate("too-many", std::to_string(served_now(11215)) + " counter clients are served (limit " + std::to_string(CM) + ")"); return; }
        for (auto& g : gs) {
            if (!g->up || g->ended || g->port == 11213 || g->stuffed || g->asked == g->answered) continue;
            u64 from = std::max(g->t_ask, thaw);
            if (g_now < from + B || hogged(g->t_ask)) continue;
            // are descriptors short?
            u32 n = most(0, g.get(), g_now - B, g_now);
            if (base + (int)n + 1 + 4 >= limit) { reach("descriptors-short"); continue; }
            if (g->answered) violate("blocked", "guest " + std::to_string(g->id) + " gets no answer");
            else violate("not-served", "guest " + std::to_string(g->id) + " is connected but not served; at most " + std::to_string(n) + " other connections are open, " + std::to_string(node_open_fds(h->cur)) + " descriptors of " + std::to_string(limit) + " are in use\n" + log_tail(h->cur) + describe_threads());
            return;
        }
        after(250 * MSEC, [this] { watch_served(); });
    }
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "conn";
        if (r.chance(1, 2)) prompt();
        h = add_host("A");
        set_vip(h->id);
        Conf c = conf();
        c["workers"] = std::to_string(workers = 1 + r.below(5));
        c["gc_interval"] = std::to_string(1 + r.below(5));
        c["slave_timeout"] = "5";
        c["heap_data_limit"] = "262144";
        if (r.chance(2, 3)) M = 1 + r.below(8);
        c["max_connections"] = std::to_string(M);
        bool ctr = r.chance(1, 2);
        if (ctr) {
            c["counter.enable"] = "true"; c["counter.port"] = "11215"; c["counter.buckets"] = "5";
            if (r.chance(1, 2)) CM = 1 + r.below(6);
            c["counter.max_connections"] = std::to_string(CM);
        }
        bool short_fd = r.chance(1, 3);
        start_node(h, c);
        limit = 250;
        int spare = 5 + r.below(10);
        at(280 * MSEC, [this, short_fd, spare] { begin(short_fd ? spare : 0); });
        slow = r.chance(1, 3);
        if (slow) { g_net.seg = std::max<u32>(g_net.seg, 6000); g_net.small_seg = std::min<u32>(g_net.small_seg, 4); g_net.sndbuf = std::max<u32>(g_net.sndbuf, 30000); g_net.rcvbuf = std::max<u32>(g_net.rcvbuf, 30000); }
        u32 n = 3 + r.below(short_fd ? 20 : 40);
        u64 span = 1 * SEC + r.below(short_fd ? 6 * SEC : 20 * SEC);
        bool burst = r.chance(1, 3);
        for (u32 i = 0; i < n; ++i) {
            u64 t = 300 * MSEC + (burst ? r.below(5) * (span / 5) + r.below(3 * MSEC) : r.below(span));
            int port = ctr && r.chance(1, 3) ? 11215 : r.chance(1, 12) ? 11213 : 11211;
            u64 stay = r.chance(1, 4) ? r.below(3 * MSEC) : r.chance(1, 3) ? r.below(200 * MSEC) : r.below(short_fd ? 3 * SEC : 8 * SEC);
            u32 how = r.below(3); if (!short_fd && r.chance(1, 25)) how = 3;
            bool st = slow && port == 11211 && r.chance(1, 6) && how != 3;
            add(t, port, stay, 20 * MSEC + r.below(800 * MSEC), how, st);
        }
        if (r.chance(1, 4)) { u64 t = SEC + r.below(span), d = 100 * MSEC + r.below(3 * SEC); timed(t, "freeze-master", [this, d] { thaw = g_now + d; h->cur->frozen_until = g_now + d; }); last = std::max(last, t + d); }
        if (r.chance(1, 5)) { u64 t = 300 * MSEC + r.below(span); timed(t, "accept-fails", [] { g_kstat.accept_abort = 3; }); }
        at(300 * MSEC, [this] { watch_served(); });
        at(last + 2 * B + (vanishes ? 370 * SEC : 0), [this] { final(); });
        max_ns = 900 * SEC;
        done_clients = true;
    }
    bool ready = false;
    void begin(int spare) {
        if (h->cur->log.find("Reactor thread") == string::npos || g_now < 250 * MSEC) { after(50 * MSEC, [this, spare] { begin(spare); }); return; }
        if (!quiet_start) { quiet_start = true; after(200 * MSEC, [this, spare] { begin(spare); }); return; }
        base = node_open_fds(h->cur);
        if (spare) { limit = base + spare; h->cur->fd_limit = limit; }
        ready = true;
    }
    bool quiet_start = false;
    void enter(Guest* g) { g->wanted = true; if (!ready) { after(20 * MSEC, [this, g] { enter(g); }); return; } g->start(g_vip); }
    OpP st; COpP cs; int fds = 0;
    void final() {
        if (violated()) return;
        for (auto& g : gs) if (g->wanted && (g->t_end == NEVER || gone_by(g.get()) > g_now)) { after(5 * SEC, [this] { final(); }); return; }
        for (auto& g : gs) if (g->s && g->ended && g->how == 1) { violate("not-closed", "guest " + std::to_string(g->id) + " has shut down its side and was not closed by the server\n" + describe_threads()); return; }
        g_kstat.accept_abort = 0;
        fds = node_open_fds(h->cur);
        if (fds != base) { violate("descriptors", std::to_string(fds) + " descriptors are open after all connections have ended, " + std::to_string(base) + " before\n" + log_tail(h->cur)); return; }
        Client* cl = add_client(g_vip);
        pinned = true;
        st = mk(O_STATS, "", g_rng_plan.chance(1, 2)); op(cl, st);
        barrier(cl);
        call(cl, [this] {
            if (st->res != R_SUCC || st->stats["curr_connections"] != "1") { violate("count", "one connection is open, the server reports " + st->stats["curr_connections"]); return; }
            // the places are free again
            u32 n = M ? M - 1 : 5; n = std::min<u32>(n, limit - base - 5);
            for (u32 i = 0; i < n; ++i) { size_t k = gs.size(); add(g_now, 11211, 8 * SEC, 100 * MSEC, 0, false); (void)k; }
            u32 m = CM ? CM : 0;
            for (u32 i = 0; i < m && base + (int)(n + m) + 5 < limit; ++i) add(g_now, 11215, 8 * SEC, 100 * MSEC, 0, false);
        });
        wait(cl, 3 * SEC);
        auto st2 = mk(O_STATS, "", false); op(cl, st2);
        barrier(cl);
        call(cl, [this, st2] {
            u32 n = 0; for (auto& g : gs) if (g->port == 11211 && g->up && !g->ended) ++n;
            if (st2->res != R_SUCC || st2->stats["curr_connections"] != std::to_string(n + 1)) { violate("count", std::to_string(n + 1) + " connections are open, the server reports " + st2->stats["curr_connections"]); return; }
            reach("counted");
        });
        pinned = false;
        cl->start(g_now);
        fin = true; done_clients = false;
    }
    void clients_done() override { if (!fin) { done_clients = false; return; } end(); }
    bool hang_allowed() override { return false; }
};
SCENARIO(C13, "c13");

struct C20 : Repl {
    u64 t_sig = 0; u32 who = 0; bool waiting = false; std::vector<std::unique_ptr<FakeSlave>> fs; std::vector<std::unique_ptr<Guest>> gs; int signo = 0; u64 slack = 0;
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "lin";
        u32 n = r.chance(1, 2) ? 1 : 2;
        bool novip = n == 2 && r.chance(1, 6);
        hosts(n);
        c = repl_conf();
        if (r.chance(1, 3)) { c["counter.enable"] = "true"; c["counter.port"] = "11215"; c["counter.buckets"] = "5"; }
        if (r.chance(1, 4)) c["memory_limit"] = "3K";
        start_node(H[0], c);
        if (n == 2) at(r.below(3 * SEC), [this] { start_node(H[1], c); });
        if (novip) at(r.below(4 * SEC), [] { set_vip(-1); });
        else if (n == 2 && r.chance(1, 4)) { u64 t = SEC + r.below(4 * SEC); timed(t, "cut-link", [this] { cut_link(H[0]->ip, H[1]->ip, true); cut_link(g_vip, H[1]->ip, true); }); }
        expect_exit = novip;
        who = n == 2 && r.chance(1, 2) ? 1 : 0;
        if (novip) who = 1;
        Workload w = mix();
        for (int i = 0; i < 6; ++i) w.keys.push_back("k" + std::to_string(i));
        w.big_max = r.chance(1, 2) ? 200000 : 5000; w.big_pct = 20;
        fast_enough(w);
        w.wait_pct = r.below(40); w.wait_max = 200 * MSEC;
        w.ops = 10 + r.below(80);
        if (r.chance(1, 2)) { w.pause_pct = 10; w.pause_max = 20 * SEC; }
        u32 nc = 1 + r.below(4);
        for (u32 i = 0; i < nc; ++i) { Client* cl = add_client(g_vip); cl->window = 1 + r.below(20); cl->max_reconnect = 3; gen2(cl, w); cl->start(250 * MSEC + r.below(4 * SEC)); }
        u32 ng = r.chance(1, 2) ? 0 : 1 + r.below(5);
        for (u32 i = 0; i < ng; ++i) {
            auto g = std::make_unique<Guest>(); auto q = g.get();
            q->id = i; q->from = 0x0a040000u + i + 1; q->stuffed = r.chance(2, 3); q->stay = 1000 * SEC; q->period = 10 * MSEC; q->on_answer = [](Guest*) {}; q->on_gone = [](Guest*) {};
            gs.push_back(std::move(g));
            timed(300 * MSEC + r.below(4 * SEC), "guest-does-not-read", [q] { q->start(g_vip); });
        }
        u32 ns = who == 0 && r.chance(1, 3) ? 1 + r.below(4) : 0;
        for (u32 i = 0; i < ns; ++i) {
            auto g = std::make_unique<FakeSlave>(); auto q = g.get();
            q->id = i; q->from = 0x0a030000u + i + 1; q->beats = r.chance(2, 3); q->never_read = r.chance(1, 2); q->up_cb = q->gone_cb = [](FakeSlave*) {};
            fs.push_back(std::move(g));
            timed(300 * MSEC + r.below(4 * SEC), "fake-slave", [q] { q->connect(); });
        }
        u32 harmless = r.below(5);
        for (u32 i = 0; i < harmless; ++i) { int sg = r.chance(1, 2) ? SIGHUP : SIGUSR1; u32 k = r.below(n); timed(300 * MSEC + r.below(6 * SEC), sg == SIGHUP ? "SIGHUP" : "SIGUSR1", [this, sg, k] { if (H[k]->cur && H[k]->cur->alive && up(k)) node_signal(H[k]->cur, sg); }); }
        t_sig = 300 * MSEC + r.below(r.chance(1, 3) ? 12 * SEC : 5 * SEC);
        static const int sg[] = {SIGTERM, SIGINT, SIGQUIT};
        signo = sg[r.below(3)];
        if (n == 2 && !novip && r.chance(1, 3)) {      // the slave takes over about the time of the signal
            if (r.chance(2, 3)) who = 1;
            if (who == 1) t_sig = std::max<u64>(t_sig, 1500 * MSEC);
            u64 w = r.chance(1, 2) ? 300 * MSEC : 4 * SEC, tv = t_sig - std::min(t_sig - 300 * MSEC, w / 2) + r.below(w); bool die = r.chance(1, 3), pw = r.chance(1, 2); u64 dd = r.below(SEC);
            timed(tv, "take-over", [this, die, dd, pw] { if (die && H[0]->cur != victim) kill_node(H[0]->cur, pw); if (dd & 1) set_vip(1); else after(dd, [] { set_vip(1); }); });
        }
        bool twice = r.chance(1, 5); u64 d2 = r.below(2 * SEC);
        bool step = r.chance(1, 6); i64 sx = r.chance(1, 2) ? 3600 : -3600;
        if (step) timed(r.below(t_sig), "clock-step", [this, sx] { host_clock_step(H[who], sx * (i64)SEC); });
        at(t_sig, [this, twice, d2] { kill(twice, d2); });
        exit_hook = [this](Node* x) {
            if (x == victim) return;
            if (expect_exit && x->exit_code == 2) return;
            if (x->host == H[0] && g_vip_owner != 0 && x->exit_code == 2) return;
            violate("exit", x->name + " stopped by itself: status " + std::to_string(x->exit_code) + ", " + x->exit_why + "\nlog: " + log_tail(x));
        };
        max_ns = 200 * SEC;
        done_clients = true;
    }
    Node* victim = nullptr;
    // the signal handler is in place once the node has begun to serve or to look for a master
    bool up(u32 k) { auto& l = H[k]->cur->log; return l.find("Entering master") != string::npos || l.find("Slave start") != string::npos || l.find("Failed to connect") != string::npos; }
    void kill(bool twice, u64 d2) {
        Node* v = H[who]->cur;
        if (!v || !v->alive || !up(who)) { if (g_now < 60 * SEC && (!v || v->alive)) { after(500 * MSEC, [this, twice, d2] { kill(twice, d2); }); return; } end_run("done"); return; }
        victim = v;
        logf("signal %d to %s", signo, v->name.c_str());
        count_fault(signo == SIGTERM ? "SIGTERM" : signo == SIGINT ? "SIGINT" : "SIGQUIT");
        u64 t = g_now;
        node_signal(v, signo);
        if (twice) after(d2, [this, v] { if (v->alive) node_signal(v, SIGTERM); });
        poll(t);
    }
    void poll(u64 t) {
        if (victim->exited) {
            u64 d = victim->exit_time - t;
            if (victim->exit_code != 0) { violate("exit-status", victim->name + " exited with status " + std::to_string(victim->exit_code) + " (" + victim->exit_why + ") after a termination signal\nlog: " + log_tail(victim)); return; }
            reach(d < SEC ? "exit-within-1s" : "exit-within-15s");
            if (victim->log.find("Entering master") != string::npos) reach("master-exits"); else reach("slave-exits");
            end_run("done");
            return;
        }
        if (g_now > t + 18 * SEC) { violate("no-exit", victim->name + " is still running " + std::to_string((g_now - t) / SEC) + " s after signal " + std::to_string(signo) + "\nlog: " + log_tail(victim) + describe_threads()); return; }
        after(100 * MSEC, [this, t] { poll(t); });
    }
    void clients_done() override { }
    bool hang_allowed() override { return true; }
};
SCENARIO(C20, "c20");


// C23: what the server reports against what happened.
struct Range { u64 lo = 0, hi = 0; void one() { ++lo; ++hi; } void may() { ++hi; } };
struct C23 : Repl {
    u32 gi = 1; bool ctr = false, slave = false, slave_up = false, killed = false; int phase = 0; u32 rounds = 0; i64 per_item = -1; u64 heap = 0; i64 gcs = -1; u32 nbuckets = 0;
    Seen s1, s2; OpP st, so, si, sz, ss; u64 n_ref = 0; Client* cl = nullptr; CClient* cc = nullptr; COpP cst, cdump; u64 evicted0 = 0;
    static const char* bin_name(u8 oc) {
        switch (oc) {
        case 0: return "Get"; case 1: return "Set"; case 2: return "Add"; case 3: return "Replace"; case 4: return "Delete"; case 5: return "Increment"; case 6: return "Decrement"; case 7: return "Quit"; case 8: return "Flush";
        case 9: return "GetQ"; case 0xa: return "Noop"; case 0xb: return "Version"; case 0xc: return "GetK"; case 0xd: return "GetKQ"; case 0xe: return "Append"; case 0xf: return "Prepend"; case 0x10: return "Stat";
        case 0x11: return "SetQ"; case 0x12: return "AddQ"; case 0x13: return "ReplaceQ"; case 0x14: return "DeleteQ"; case 0x15: return "IncrementQ"; case 0x16: return "DecrementQ"; case 0x17: return "QuitQ"; case 0x18: return "FlushQ";
        case 0x19: return "AppendQ"; case 0x1a: return "PrependQ"; case 0x1c: return "Touch"; case 0x1d: return "GaT"; case 0x1e: return "GaTQ"; case 0x23: return "GaTK"; case 0x24: return "GaTKQ";
        case 0x40: return "Lock"; case 0x41: return "LockQ"; case 0x42: return "Unlock"; case 0x43: return "UnlockQ"; case 0x44: return "UnlockAll"; case 0x45: return "UnlockAllQ";
        case 0x46: return "LaG"; case 0x47: return "LaGQ"; case 0x48: return "LaGK"; case 0x49: return "LaGKQ"; case 0x4a: return "RaU"; case 0x4b: return "RaUQ"; case 0x50: return "Keys";
        }
        return nullptr;
    }
    static const char* text_name(const Op& o) {
        switch (o.k) {
        case O_GET: return o.gets ? "gets" : "get"; case O_TOUCH: return "touch"; case O_SET: return "set"; case O_ADD: return "add"; case O_REPLACE: return "replace"; case O_CAS: return "cas"; case O_APPEND: return "append";
        case O_PREPEND: return "prepend"; case O_INCR: return "incr"; case O_DECR: return "decr"; case O_DELETE: return "delete"; case O_LOCK: return "lock"; case O_UNLOCK: return "unlock"; case O_UNLOCK_ALL: return "unlock_all";
        case O_FLUSH: return "flush_all"; case O_STATS: return "stats"; case O_KEYS: return "keys"; case O_VERSION: return "version"; case O_QUIT: return "quit";
        default: return nullptr;
        }
    }
    Workload w;
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "stats";
        if (r.chance(1, 2)) prompt();
        slave = r.chance(1, 3);
        hosts(slave ? 2 : 1);
        c = repl_conf();
        c["gc_interval"] = std::to_string(gi = 1 + r.below(4));
        static const u32 nb[] = {3, 11, 101};
        c["buckets"] = std::to_string(nbuckets = nb[r.below(3)]);
        c["heap_data_limit"] = r.chance(1, 2) ? "4096" : "262144"; heap = std::stoull(c["heap_data_limit"]);
        ctr = r.chance(1, 3);
        if (ctr) { c["counter.enable"] = "true"; c["counter.port"] = "11215"; c["counter.buckets"] = "5"; c["counter.stat_interval"] = "10"; }
        start_node(H[0], c);
        if (slave) at(r.below(4 * SEC), [this] { start_node(H[1], c); slave_up = true; });
        if (slave && r.chance(1, 3)) timed(4 * SEC + r.below(4 * SEC), "kill-slave", [this] { if (H[1]->cur && H[1]->cur->alive) { kill_node(H[1]->cur, true); killed = true; } });
        w = mix();
        w.mix.push_back({O_FLUSH, 1}); w.mix.push_back({O_UNLOCK_ALL, 2}); w.mix.push_back({O_VERSION, 1}); w.mix.push_back({O_STATS, 1}); w.mix.push_back({O_CAS, 10}); w.mix.push_back({O_GET, 12});
        u32 nk = 1 + r.below(8);
        for (u32 i = 0; i < nk; ++i) w.keys.push_back(string(1 + r.below(r.chance(1, 6) ? 200 : 6), 'a' + i));
        w.big_max = r.chance(1, 2) ? 20000 : 5000; w.big_pct = 25; if (r.chance(1, 8)) { w.big_max = 300000; w.big_pct = 10; }
        fast_enough(w);
        w.exp_pct = r.chance(1, 3) ? 15 : 0; w.exps = {1, 2, 3};
        w.quiet_pct = 10 + r.below(30); w.noreply_pct = r.below(40); w.cas_pct = 20; w.num_pct = 15;
        if (r.chance(1, 2)) { w.end_pct = 4; w.ends = {E_CLOSE, E_FIN, E_RESET, E_QUIT}; }
        w.wait_pct = r.below(60); w.wait_max = 30 * MSEC;
        burst();
        max_ns = 400 * SEC;
    }
    void burst() {
        Rng& r = g_rng_plan;
        u32 nc = 1 + r.below(5);
        w.ops = 5 + r.below(70) / nc;
        for (u32 i = 0; i < nc; ++i) { Client* cl = add_client(g_vip); cl->window = r.chance(1, 2) ? 1 : 1 + r.below(8); gen2(cl, w); cl->start(std::max(g_now, 300 * MSEC) + r.below(r.chance(1, 2) ? SEC : 2 * MSEC)); }
        if (ctr) {
            u32 n = 1 + r.below(4);
            for (u32 i = 0; i < n; ++i) {
                CClient* k = add_cclient(); k->window = 1 + r.below(4);
                u32 m = 3 + r.below(15);
                for (u32 j = 0; j < m; ++j) {
                    CStep s; s.id = id(); auto o = std::make_shared<COp>();
                    static const CK kk[] = {K_NOOP, K_GET, K_ACQ, K_ACQ, K_ACQ, K_REL, K_REL, K_STATS, K_DUMP};
                    o->k = kk[r.below(9)]; o->name = "n" + std::to_string(r.below(3)); o->res = 1 + r.below(3); o->max = 3 + r.below(5);
                    s.op = o; k->plan.push_back(s); items.push_back({s.id, "counter " + std::to_string(k->id) + " " + o->desc()});
                }
                if (r.chance(1, 2)) { CStep s; s.id = id(); s.k = ST_END; s.end = r.chance(1, 2) ? E_CLOSE : E_RESET; k->plan.push_back(s); }
                k->start(std::max(g_now, 300 * MSEC) + r.below(SEC));
            }
        }
    }
    u64 settle_for() { return (2 * gi + 4) * SEC + (slave ? 16 * SEC : 0) + (ctr ? 25 * SEC : 0); }
    void clients_done() override {
        if (violated()) return;
        if (ctr && !cclients_done()) { done_clients = false; after(100 * MSEC, [this] { clients_done(); }); done_clients = true; return; }
        switch (phase++) {
        case 0:
            close_clients();
            if (ctr) for (auto& k : g_cnt.clients) if (k->s && k->up) k->end(E_CLOSE);
            s1 = Seen(); reader(3 * SEC, &s1);
            break;
        case 1: {
            close_clients();
            pinned = true;
            cl = add_client(g_vip); cl->max_reconnect = 0;
            Client* c2 = cl;
            wait(c2, settle_for());
            bool b = g_rng_plan.chance(1, 2);
            auto ask = [&](const char* arg) { auto o = mk(O_STATS, "", b); o->arg = arg; op(c2, o); return o; };
            st = ask(""); so = ask("ops"); si = ask("items"); sz = ask("sizes"); ss = ask("settings");
            barrier(c2);
            s2 = Seen();
            for (auto& k : keys) { auto o = mk(O_GET, k, g_rng_plan.chance(1, 2)); s2.at[k] = o; op(c2, o); }
            pinned = false;
            if (ctr) {
                cc = add_cclient();
                CStep q; q.k = ST_WAIT; q.id = 0xfffff1; q.ns = settle_for(); cc->plan.push_back(q);
                CStep a; a.id = 0xfffff2; a.op = cdump = std::make_shared<COp>(); cdump->k = K_DUMP; cc->plan.push_back(a);
                CStep d; d.id = 0xfffff3; d.op = cst = std::make_shared<COp>(); cst->k = K_STATS; cc->plan.push_back(d);
                cc->start(g_now);
            }
            done_clients = false;
            c2->start(g_now);
            break;
        }
        case 2:
            evaluate();
            if (violated()) return;
            close_clients();
            if (ctr) for (auto& k : g_cnt.clients) if (k->s && k->up) k->end(E_CLOSE);
            if (++rounds == 2) { reach("evaluated"); end(); return; }
            phase = 0; done_clients = false;
            burst();
            break;
        }
    }
    bool num(const OpP& o, const char* k, u64& v) {
        auto f = o->stats.find(k);
        if (f == o->stats.end() || f->second.empty() || f->second.find_first_not_of("0123456789") != string::npos) { violate("stats", string("the reply to stats ") + o->arg + " has no number " + k + (f == o->stats.end() ? "" : ": " + f->second)); return false; }
        v = std::stoull(f->second); return true;
    }
    void in(const OpP& o, const char* k, u64 lo, u64 hi, const char* why) {
        if (violated()) return;
        u64 v;
        if (!num(o, k, v)) return;
        if (v >= lo && v <= hi) return;
        violate("stats", string("reported ") + k + " " + std::to_string(v) + ", true value " + (lo == hi ? std::to_string(lo) : std::to_string(lo) + ".." + std::to_string(hi)) + " (" + why + ")" + (o->bin ? " binary" : " text") + ", round " + std::to_string(rounds));
    }
    static bool uncertain(const Op& o) { return o.res == R_PENDING || o.res == R_INVALID || o.res == R_UNKNOWN || o.res == R_ERROR || o.res == R_TOOLARGE; }
    void evaluate() {
        for (auto& o : {st, so, si, sz, ss}) if (o->res != R_SUCC) { violate("stats", "no statistics: " + o->desc()); return; }
        // connections
        u64 lo = 0, hi = 0;
        for (auto& x : g_hist.conns) { if (x.connected || x.rcvd || x.replies) ++hi; if (x.replies) ++lo; }
        in(st, "curr_connections", 1, 1, "open connections");
        in(st, "total_connections", lo, hi, "connections made");
        // items, as read before and after
        u64 n1 = 0, n2 = 0, sum = 0, inmem = 0, big = 0; u64 hist[8] = {}; bool tight = true; string v, v2; u32 f, f2;
        static const u64 lim[] = {1024, 4096, 16384, 65536, 262144, 1 << 20, 4 << 20};
        for (auto& x : s1.at) {
            bool a = hit(x.second, v, f), b = hit(s2.at[x.first], v2, f2);
            if (dropped(x.second->id) || dropped(s2.at[x.first]->id)) { tight = false; n2 = 1u << 30; continue; }
            if (x.second->res == R_PENDING || s2.at[x.first]->res == R_PENDING) { tight = false; n2 = 1u << 30; continue; }
            if (b) ++n1;
            if (a) ++n2;
            if (a != b) { tight = false; continue; }
            if (!a) continue;
            inmem += x.first.size() + (v.size() <= heap ? v.size() : 0);
            sum += v.size(); big = std::max<u64>(big, v.size());
            u32 k = 0; while (k < 7 && v.size() >= lim[k]) ++k;
            ++hist[k];
        }
        in(st, "curr_items", std::min(n1, n2), std::max(n1, n2), "items read");
        in(si, "items:1:number", std::min(n1, n2), std::max(n1, n2), "items read");
        in(st, "evictions", 0, 0, "no memory limit is exceeded");
        in(si, "items:1:evicted", 0, 0, "no memory limit is exceeded");
        if (tight && !violated()) {
            in(si, "items:1:largest", big, big, "largest item read");
            static const char* nm[] = {"1024", "4096", "16384", "65536", "262144", "1048576", "4194304", "huge"};
            for (int i = 0; i < 8; ++i) in(sz, nm[i], hist[i], hist[i], "items by size");
            u64 bytes;
            if (violated() || !num(st, "bytes", bytes)) return;
            if (n1 == 0) { if (bytes) { violate("stats", "no item exists, reported bytes " + std::to_string(bytes)); return; } }
            else {
                i64 d = (i64)bytes - (i64)inmem;
                if (d < 0 || d % (i64)n1 || d / (i64)n1 > 1000) { violate("stats", "reported bytes " + std::to_string(bytes) + "; " + std::to_string(n1) + " items hold " + std::to_string(inmem) + " bytes of keys and values in memory"); return; }
                if (per_item >= 0 && d / (i64)n1 != per_item) { violate("stats", "reported bytes " + std::to_string(bytes) + "; " + std::to_string(n1) + " items hold " + std::to_string(inmem) + " bytes of keys and values in memory, which leaves " + std::to_string(d / (i64)n1) + " bytes per item; it was " + std::to_string(per_item) + " before"); return; }
                per_item = d / (i64)n1;
                reach("bytes-compared");
            }
            u64 cf = n1 > nbuckets ? 1 : 0;
            in(si, "items:1:conflicts", cf, n1 / 2, "buckets with more than one item");
        }
        // collections
        u64 g = 0;
        if (violated() || !num(st, "gc_count", g)) return;
        if ((i64)g <= gcs) { violate("stats", "reported gc_count " + std::to_string(g) + ", " + std::to_string(gcs) + " at least " + std::to_string(2 * gi + 4) + " s earlier, interval " + std::to_string(gi) + " s"); return; }
        gcs = g;
        // slaves
        if (slave_up && !killed) in(st, "slaves", 1, 1, "attached slaves"); else if (!slave || killed) in(st, "slaves", 0, 0, "attached slaves");
        u64 now = wall_ns_at(H[0], st->resp_t) / SEC;
        in(st, "time", now - 3, now + 1, "clock");
        in(st, "threads", std::stoull(c["workers"]), std::stoull(c["workers"]), "workers");
        in(ss, "gc_interval", gi, gi, "configured");
        in(ss, "buckets", nbuckets, nbuckets, "configured");
        in(ss, "num_threads", std::stoull(c["workers"]), std::stoull(c["workers"]), "configured");
        // commands
        std::map<string, Range> ops; Range gh, gm, ch, cm, cb;
        for (auto& o : g_hist.ops) {
            bool before_st = o->inv_n <= st->inv_n;
            if (o->inv_n <= so->inv_n) {
                const char* nm = o->bin ? bin_name(o->opcode) : text_name(*o);
                if (nm) { Range& x = ops[string(o->bin ? "binary:" : "text:") + nm]; if (uncertain(*o)) x.may(); else x.one(); }
            }
            if (!before_st) continue;
            if (o->k == O_GET && !o->bin) {
                u64 n = 1 + o->more.size();
                if (uncertain(*o)) { gh.hi += n; gm.hi += n; }
                else { gh.lo += o->hits.size(); gh.hi += o->hits.size(); gm.lo += n - o->hits.size(); gm.hi += n - o->hits.size(); }
            } else if (o->bin && (o->k == O_GET || o->k == O_GAT || o->k == O_LAG)) {
                if (uncertain(*o) || o->res == R_LOCKED) { gh.may(); gm.may(); }
                else if (o->res == R_SUCC) gh.one(); else gm.one();
            }
            bool bc = o->bin && (o->opcode == 1 || o->opcode == 2 || o->opcode == 3 || (o->opcode >= 0x11 && o->opcode <= 0x13)) && o->cas;
            if (bc || (o->k == O_CAS && !o->bin)) {
                bool add = o->bin && (o->opcode == 2 || o->opcode == 0x12);
                if (uncertain(*o) || (!o->bin && o->res == R_SILENT) || (add && o->res == R_EXISTS)) { ch.may(); cm.may(); cb.may(); }
                else if (o->res == R_SUCC || o->res == R_SILENT) ch.one();
                else if (o->res == R_NOTFOUND) cm.one();
                else if (o->res == R_EXISTS) cb.one();
            }
        }
        in(st, "get_hits", gh.lo, gh.hi, "keys found"); in(st, "get_misses", gm.lo, gm.hi, "keys not found");
        in(st, "cas_hits", ch.lo, ch.hi, "cas stored"); in(st, "cas_misses", cm.lo, cm.hi, "cas without item"); in(st, "cas_badval", cb.lo, cb.hi, "cas with another value");
        for (auto& e : so->stats) {
            if (e.first == "text:quit" || e.first == "binary:Quit" || e.first == "binary:QuitQ") continue;
            auto q = ops.find(e.first);
            Range x; if (q != ops.end()) x = q->second;
            in(so, e.first.c_str(), x.lo, x.hi, "commands executed");
        }
        for (auto& e : ops) if (e.second.lo && !so->stats.count(e.first)) { violate("stats", "stats ops does not report " + e.first); return; }
        // counters
        if (!ctr || violated()) return;
        if (cst->st != CS_OK || cdump->st != CS_OK) { violate("stats", "no counter statistics"); return; }
        auto S = std::make_shared<Op>(); S->k = O_STATS; S->stats = cst->stats; S->arg = "(counter)"; S->bin = true;
        in(S, "curr_connections", 1, 1, "open counter connections");
        u64 clo = 0, chi = g_cnt.conns.size();
        std::set<int> seen; for (auto& o : g_cnt.ops) if (o->st != CS_PENDING) seen.insert(o->conn);
        clo = seen.size();
        in(S, "total_connections", clo, chi, "counter connections made");
        in(S, "objects", cdump->list.size(), cdump->list.size(), "counters listed");
        std::map<string, Range> cr;
        static const char* nm[] = {"command:noop", "command:get", "command:acquire", "command:release", "command:stats", "command:dump"};
        for (auto& o : g_cnt.ops) if (o->k <= K_DUMP && o->inv_n <= cst->inv_n) { if (o->st == CS_PENDING || o->st == CS_INVALID || o->st == CS_UNKNOWN) cr[nm[o->k]].may(); else cr[nm[o->k]].one(); }
        for (auto x : nm) in(S, x, cr[x].lo, cr[x].hi, "counter commands executed");
        reach("counters-compared");
    }
};
SCENARIO(C23, "c23");

} // namespace
} // namespace sim
