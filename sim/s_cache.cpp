// Scenarios on a single cache server.
#include "scen.hpp"

namespace sim {

Host* Scenario::master() {
    Host* h = add_host("A");
    set_vip(0);
    return h;
}

static Workload cache_mix() {
    Workload w;
    w.mix = {{O_GET, 22}, {O_SET, 16}, {O_ADD, 6}, {O_REPLACE, 5}, {O_CAS, 12}, {O_APPEND, 7}, {O_PREPEND, 7}, {O_INCR, 8}, {O_DECR, 5}, {O_DELETE, 8}, {O_TOUCH, 2}, {O_GAT, 2}, {O_NOOP, 1}};
    return w;
}

// C01: linearizable commands.
struct C01 : Scenario {
    Host* h = nullptr;
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "lin";
        h = master();
        Conf c = conf();
        c["workers"] = std::to_string(1 + r.below(5));
        c["gc_interval"] = std::to_string(1 + r.below(4));
        c["buckets"] = r.chance(1, 2) ? "2" : "101";
        if (r.chance(1, 3)) c["heap_data_limit"] = "4096";
        start_node(h, c);
        Workload w = cache_mix();
        u32 nk = 1 + r.below(4);
        for (u32 i = 0; i < nk; ++i) w.keys.push_back("k" + std::to_string(i) + (r.chance(1, 8) ? string(200, 'x') : ""));
        u32 nc = 2 + r.below(5);
        w.ops = 6 + r.below(60) / nc;
        w.end_pct = r.chance(1, 3) ? 4 + r.below(10) : 0;
        w.ends = {E_CLOSE, E_RESET, E_FIN, E_QUIT};
        w.wait_pct = r.below(60);
        static const u64 wm[] = {100 * US, 2 * MSEC, 50 * MSEC, 700 * MSEC};
        w.wait_max = wm[r.below(4)];
        w.cas_pct = r.below(60);
        if (c["heap_data_limit"] == "4096") { co.heap_limit = 4096; w.big_pct = 25; w.big_max = 6000; }
        for (u32 i = 0; i < nc; ++i) {
            Client* cl = add_client(g_vip);
            cl->window = r.chance(1, 2) ? 1 : 1 + r.below(8);
            gen(cl, w);
            cl->start(300 * MSEC + r.below(5 * MSEC));
        }
    }
    void clients_done() override {
        if (!final_read(200 * MSEC)) end();
    }
    CheckOpts co;
    void oracle() override { check_linearizable(cls, co, h); }
};
SCENARIO(C01, "c01");

// C03-C06: locks, connection ends, expiry.
struct Locks : Scenario {
    Host* h = nullptr;
    Host* other = nullptr;
    CheckOpts co;
    u64 gci = 1;
    int kind;
    explicit Locks(int k) : kind(k) {}
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "lin";
        // in some runs the node has been waiting for the address, or has been a slave
        u32 late = kind == 6 && r.chance(1, 4) ? 1 + r.below(2) : 0;
        u64 t0 = late ? 5 * SEC + r.below(25 * SEC) : 0;
        h = late ? add_host("A") : master();
        Conf c = conf();
        c["workers"] = std::to_string(1 + r.below(5));
        c["gc_interval"] = std::to_string(gci = 1 + r.below(4));
        c["buckets"] = r.chance(1, 2) ? "2" : "101";
        if (late == 2) { other = add_host("B"); set_vip(1); start_node(other, c); }
        if (late) {
            u64 d = r.chance(1, 2) ? 0 : r.below(4 * SEC);
            if (late == 2) at(t0 - d, [this] { kill_node(other->cur, false); set_vip(-1); });
            at(t0, [] { set_vip(0); });
            reach(late == 2 ? "slave-promoted" : "waited-for-address");
            max_ns += t0 + 60 * SEC; hang_after += t0;
        }
        if (r.chance(1, 4)) c["heap_data_limit"] = "4096", co.heap_limit = 4096;
        bool evict = kind == 5 && r.chance(1, 2);
        if (evict) { c["memory_limit"] = std::to_string(1 + r.below(8)) + "K"; if (r.chance(2, 3)) c["gc_interval"] = "1"; }
        start_node(h, c);
        Workload w;
        w.mix = {{O_GET, 14}, {O_SET, 14}, {O_ADD, 4}, {O_REPLACE, 3}, {O_CAS, 5}, {O_APPEND, 4}, {O_PREPEND, 3}, {O_INCR, 4}, {O_DECR, 2}, {O_DELETE, 4}, {O_TOUCH, 2}, {O_GAT, 2},
                 {O_LOCK, 16}, {O_LAG, 12}, {O_UNLOCK, 10}, {O_RAU, 6}, {O_UNLOCK_ALL, 3}};
        if (kind == 6) w.mix = {{O_GET, 30}, {O_SET, 22}, {O_ADD, 8}, {O_REPLACE, 6}, {O_CAS, 6}, {O_APPEND, 4}, {O_PREPEND, 3}, {O_INCR, 6}, {O_DECR, 3}, {O_DELETE, 4}, {O_TOUCH, 8}, {O_GAT, 8}};
        u32 nk = 1 + r.below(kind == 6 ? 6 : 3);
        for (u32 i = 0; i < nk; ++i) w.keys.push_back("k" + std::to_string(i));
        u32 nc = 2 + r.below(4);
        w.ops = 8 + r.below(60) / nc;
        w.wait_pct = r.below(60);
        static const u64 wm[] = {100 * US, 2 * MSEC, 50 * MSEC, 700 * MSEC};
        w.wait_max = wm[r.below(4)];
        w.cas_pct = r.below(40);
        w.num_pct = 30;
        bool expiry = kind == 5 || kind == 6 || (kind == 3 && r.chance(1, 3));
        if (expiry) {
            w.exp_pct = 40 + r.below(60);
            w.exps = {0, 1, 2, 3, 5};
            i64 now = (wall_ns(h) + (i64)t0) / (i64)SEC;
            for (int d : {-100, 0, 1, 2, 3, 6}) w.exps.push_back(now + d);
            w.exps.push_back(60 * 60 * 24 * 30); w.exps.push_back(60 * 60 * 24 * 30 + 1);
            w.wait_max = (1 + r.below(40)) * 100 * MSEC;
            w.wait_pct = 20 + r.below(60);
        }
        if (kind == 4) {
            w.end_pct = 8 + r.below(25);
            w.ends = {E_CLOSE, E_RESET, E_QUIT, E_CLOSE, E_RESET, E_QUIT};
            if (r.chance(1, 2)) w.ends.push_back(E_FIN);
            if (r.chance(1, 8)) { w.ends.push_back(E_VANISH); max_ns = 900 * SEC; }
            static const u64 rd[] = {1, 500 * US, 20 * MSEC, 2 * SEC};
            for (u32 i = 0; i < nc; ++i) rec.push_back(rd[r.below(4)]);
        } else if (r.chance(1, 3) && kind != 6) { w.end_pct = 3 + r.below(8); w.ends = {E_CLOSE, E_QUIT, E_RESET}; }
        for (u32 i = 0; i < nc; ++i) {
            Client* cl = add_client(g_vip);
            cl->window = r.chance(1, 2) ? 1 : 1 + r.below(8);
            if (kind == 4) cl->reconnect_delay = rec[i];
            if (late) { cl->reconnect_delay = 20 * MSEC + r.below(100 * MSEC); cl->max_reconnect = 100000; }
            gen(cl, w);
            cl->start(t0 + 300 * MSEC + r.below(5 * MSEC));
        }
        if (kind == 6 && r.chance(1, 3)) {
            u32 n = 1 + r.below(3);
            for (u32 i = 0; i < n; ++i) {
                i64 d = r.chance(1, 2) ? (i64)r.below(8) * (i64)SEC : -(i64)r.below(4) * (i64)SEC;
                timed(t0 + 400 * MSEC + r.below(6 * SEC), "clock-step " + std::to_string(d / (i64)SEC), [this, d] { host_clock_step(h, d); }); if (d < 0) co.revive = true;
            }
        }
        if (kind == 5) {
            if (r.chance(1, 2)) {         // flushes while items are locked
                Client* f = add_client(g_vip);
                u32 n = 1 + r.below(2);
                for (u32 i = 0; i < n; ++i) { wait(f, 1 + r.below(3 * SEC)); auto o = mk(O_FLUSH, "", r.chance(1, 2)); if (r.chance(1, 2)) { o->has_exp = true; o->exp = 1 + r.below(3); } op(f, o); }
                f->start(350 * MSEC);
                co.may_vanish = co.revive = true;
            }
            if (evict) {                  // memory runs over the limit
                Client* f = add_client(g_vip);
                u32 n = 10 + r.below(60);
                for (u32 i = 0; i < n; ++i) {
                    auto o = mk(O_SET, "f" + std::to_string(r.below(30)), true);
                    o->val = string(200 + r.below(3000), 'f'); o->flags = 1; op(f, o);
                    wait(f, 1 + r.below(400 * MSEC));
                }
                f->start(310 * MSEC);
                co.may_vanish = true; max_ns = 600 * SEC;
            }
        }
    }
        std::vector<u64> rec;
    int phase = 0; OpP st; std::vector<OpP> r1, r3; size_t n0 = 0;
    void clients_done() override {
        if (phase == 0) n0 = g_hist.ops.size();
        if (final_read(kind == 4 ? 12 * SEC : 200 * MSEC)) { phase = 1; return; }
        if (kind != 6 || phase != 1) { end(); return; }
        // what has expired is reclaimed
        phase = 2;
        for (size_t i = n0; i < g_hist.ops.size(); ++i) r1.push_back(g_hist.ops[i]);
        Client* q = add_client(g_vip);
        pinned = true;
        wait(q, (2 * gci + 5 + (co.revive ? 12 : 0)) * SEC);   // a clock set back delays collections
        st = mk(O_STATS, "", false); op(q, st);
        for (auto& o : r1) { auto x = mk(O_GET, o->key, false); x->gets = true; op(q, x); r3.push_back(x); }
        pinned = false;
        done_clients = false;
        q->start(g_now);
    }
    void oracle() override {
        check_linearizable(cls, co, h);
        if (violated() || phase != 2 || st->res != R_SUCC) return;
        size_t a = 0, b = 0, n = atoll(st->stats["curr_items"].c_str());
        for (auto& o : r1) { if (o->res == R_PENDING) return; a += !o->hits.empty(); }
        for (auto& o : r3) { if (o->res == R_PENDING) return; b += !o->hits.empty(); }
        reach(a < r1.size() ? "some-had-expired" : "none-had-expired");
        if (n < b || (n > a && !co.revive)) violate("reclaim", std::to_string(a) + " items were visible, and after two collections " + std::to_string(b) + "; the server holds " + std::to_string(n));
    }
};
template<int K> struct LocksK : Locks { LocksK() : Locks(K) {} };
typedef LocksK<3> C03; typedef LocksK<4> C04; typedef LocksK<5> C05; typedef LocksK<6> C06;
SCENARIO(C03, "c03");
SCENARIO(C04, "c04");
SCENARIO(C05, "c05");
SCENARIO(C06, "c06");

// C02: the reply stream.
struct C02 : Scenario {
    Host* h = nullptr;
    CheckOpts co;
    bool prompt = false;      // replies are due at once
    u64 max_data = 1 << 20;
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "lin";
        h = master();
        Conf c = conf();
        c["workers"] = std::to_string(1 + r.below(6));
        c["gc_interval"] = std::to_string(1 + r.below(4));
        if (r.chance(1, 4)) c["heap_data_limit"] = "4096", co.heap_limit = 4096;
        if (r.chance(1, 4)) c["max_data_size"] = "8K", max_data = 8192;
        prompt = r.chance(1, 2);
        start_node(h, c);
        Workload w = cache_mix();
        w.max_data = max_data;
        w.mix.push_back({O_STATS, 2}); w.mix.push_back({O_KEYS, 2}); w.mix.push_back({O_VERSION, 2}); w.mix.push_back({O_NOOP, 3});
        w.mix.push_back({O_LOCK, 2}); w.mix.push_back({O_UNLOCK, 2}); w.mix.push_back({O_LAG, 2}); w.mix.push_back({O_RAU, 2}); w.mix.push_back({O_UNLOCK_ALL, 1});
        u32 nk = 2 + r.below(20);
        for (u32 i = 0; i < nk; ++i) w.keys.push_back("k" + std::to_string(i) + (r.chance(1, 8) ? string(200 + r.below(40), 'x') : ""));
        w.multi_max = 20;
        w.quiet_pct = w.noreply_pct = r.below(50);
        w.split_pct = r.below(40);
        w.wait_pct = r.below(30);
        w.wait_max = r.chance(1, 2) ? 1 * MSEC : 30 * MSEC;
        w.exp_pct = 0;
        u32 nc = 1 + r.below(4);
        if (prompt) {
            pick_net(r, false);
            g_net.lat_min = 20 * US; g_net.lat_max = 200 * US; g_net.jitter = 0; g_net.small_seg = 0; g_net.seg = 14600;
            Strategy st; static const u32 pi[] = {3, 8, 16}; st.preempt_inv = pi[g_rng_sched.below(3)]; st.step_ns = g_rng_sched.chance(1, 2) ? 300 : 1000;
            g_strat = st;      // no thread is starved
            w.split_pct = 0; w.big_pct = 5; w.big_max = 20000;
        } else {
            pick_net(r, true);
            static const u32 bm[] = {5000, 60000, 300000, 1000000};
            w.big_max = bm[r.below(4)];
            w.big_pct = w.big_max > 100000 ? 10 : 30;
            if (g_net.seg < w.big_max / 50) g_net.seg = w.big_max / 50;     // a transfer takes seconds, not minutes
            if (r.chance(1, 2)) { w.pause_pct = 10; w.pause_max = r.chance(1, 2) ? 20 * MSEC : 3 * SEC; }
        }
        w.ops = 10 + r.below(80) / nc;
        w.end_pct = r.chance(1, 5) ? 5 : 0; w.ends = {E_CLOSE, E_QUIT, E_RESET, E_FIN};
        for (u32 i = 0; i < nc; ++i) {
            Client* cl = add_client(g_vip);
            cl->window = r.chance(1, 3) ? 1 : 1 + r.below(32);
            gen(cl, w);
            cl->start(300 * MSEC + r.below(5 * MSEC));
        }
        max_ns = 300 * SEC;
    }
    void clients_done() override { if (!final_read(200 * MSEC)) end(); }
    void oracle() override {
        for (auto& o : g_hist.ops) {
            bool ap = o->k == O_APPEND || o->k == O_PREPEND;
            if ((o->res == R_ERROR || o->res == R_UNKNOWN || (o->res == R_INVALID && !(ap && o->val.empty()))) || (o->res == R_TOOLARGE && o->val.size() <= max_data)) {
                violate("reply", "a well-formed command was refused: " + o->desc());
                return;
            }
            bool store = o->k == O_SET || o->k == O_ADD || o->k == O_REPLACE || o->k == O_CAS;
            if (store && o->res == R_SUCC && o->val.size() > max_data) { violate("reply", "a value over the size limit was accepted: " + o->desc()); return; }
            if (prompt && o->resp_t != NEVER && !o->quiet && o->resp_t > o->inv_t + 150 * MSEC) { violate("held-back", "a reply took " + std::to_string((o->resp_t - o->inv_t) / MSEC) + " ms on an idle server: " + o->desc()); return; }
        }
        check_linearizable(cls, co, h);
    }
};
SCENARIO(C02, "c02");

// C07: flush_all.
struct C07 : Scenario {
    Host* h = nullptr;
    std::vector<string> idle; 
    int phase = 1;
    Workload w;
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "lin";
        h = master();
        Conf c = conf();
        c["workers"] = std::to_string(1 + r.below(5));
        c["gc_interval"] = std::to_string(1 + r.below(4));
        c["buckets"] = r.chance(1, 3) ? "5" : "101";
        start_node(h, c);
        max_ns = 500 * SEC;
        if (r.chance(1, 2)) { g_strat.late_pct = 5 + r.below(90); g_strat.late_max = (1 + r.below(6)) * 500 * MSEC; }   // collections that take long
        w = cache_mix();
        w.num_pct = 0;
        u32 nk = 1 + r.below(8);
        for (u32 i = 0; i < nk; ++i) w.keys.push_back("k" + std::to_string(i));
        u32 nc = 1 + r.below(3);
        w.ops = 8 + r.below(60) / nc;
        w.wait_pct = 20 + r.below(60);
        static const u64 wm[] = {1 * MSEC, 50 * MSEC, 400 * MSEC, 1500 * MSEC};
        w.wait_max = wm[r.below(4)];
        for (u32 i = 0; i < nc; ++i) {
            Client* cl = add_client(g_vip);
            cl->window = r.chance(1, 2) ? 1 : 1 + r.below(8);
            gen(cl, w);
            cl->start(300 * MSEC + r.below(5 * MSEC));
        }
        u32 nf = 1 + r.below(2);
        if (r.chance(1, 2)) {     // items nobody uses again
            Client* s = add_client(g_vip);
            u32 n = 10 + r.below(40);
            for (u32 i = 0; i < n; ++i) {
                auto o = mk(O_SET, "i" + std::to_string(i), false);
                o->val = "vi." + std::to_string(i) + "."; o->flags = 1; op(s, o);
                idle.push_back(o->key);
            }
            if (r.chance(1, 2)) {
                g_strat.late_pct = 90; g_strat.late_max = 2500 * MSEC;
                wait(s, 1 + r.below(2 * SEC));
                auto o = mk(O_FLUSH, "", false); o->has_exp = true; o->exp = 1 + r.below(3); op(s, o);
                for (int i = 0; i < 4; ++i) { wait(s, 1 + r.below(1500 * MSEC)); op(s, mk(O_GET, idle[r.below(n)], false)); }
                nf = r.below(4) / 3;
            }
            s->start(290 * MSEC);
        }
        for (u32 i = 0; i < nf; ++i) {
            Client* f = add_client(g_vip);
            u32 n = 1 + r.below(3);
            for (u32 j = 0; j < n; ++j) {
                wait(f, 1 + r.below(r.chance(1, 2) ? 3 * SEC : 100 * MSEC));
                auto o = mk(O_FLUSH, "", r.chance(1, 2));
                o->quiet = r.chance(1, 4);
                if (r.chance(1, 2)) {
                    o->has_exp = true;
                    o->exp = r.below(4);
                    if (r.chance(1, 6)) o->exp = wall_ns(h) / (i64)SEC + 1 + r.below(5);
                }
                op(f, o);
                // read at once on the same connection
                if (r.chance(1, 2)) for (auto& k : w.keys) op(f, mk(O_GET, k, r.chance(1, 2)));
            }
            f->start(300 * MSEC + r.below(500 * MSEC));
        }
    }
    void clients_done() override {
        if (phase == 1) {
            phase = 2;
            Rng& r = g_rng_plan;
            Client* p = add_client(g_vip);
            for (auto& k : w.keys) op(p, mk(O_GET, k, false));
            wait(p, 9 * SEC);
            for (auto& k : w.keys) op(p, mk(O_GET, k, false));
            for (auto& k : idle) op(p, mk(O_GET, k, false));
            Workload z = w;
            z.keys.clear();
            for (int i = 0; i < 3; ++i) z.keys.push_back("z" + std::to_string(i));
            z.ops = 12; z.wait_pct = 30; z.wait_max = 1 * SEC;
            gen(p, z);
            wait(p, 5 * SEC);
            for (auto& k : z.keys) op(p, mk(O_GET, k, r.chance(1, 2)));
            done_clients = false;
            p->start(g_now + r.below(2 * SEC));
            return;
        }
        end();
    }
    static bool has_piece(const string& v, const string& piece) { return v.find(piece) != string::npos; }
    void oracle() override {
        struct F { OpP o; bool imm; i64 te; };
        std::vector<F> fl;
        for (auto& o : g_hist.ops) if (o->k == O_FLUSH && (o->res == R_SUCC || o->res == R_SILENT)) {
            i64 lo, hi; gcur_range(h, o->inv_t, o->resp_t, 3, lo, hi);
            F f{o, !o->has_exp || o->exp == 0, 0};
            if (!f.imm) f.te = o->exp > 60 * 60 * 24 * 30 ? o->exp : hi + o->exp;
            if (!f.imm && f.te <= lo) f.imm = true;
            fl.push_back(f);
        }
        for (auto& W : g_hist.ops) {
            bool store = W->k == O_SET || W->k == O_ADD || W->k == O_REPLACE || W->k == O_CAS || W->k == O_APPEND || W->k == O_PREPEND;
            if (!store || W->val.empty() || W->val[0] != 'v' || W->resp_n == NEVER) continue;
            size_t e = W->val.find('.', W->val.find('.') + 1);
            string piece = W->val.substr(0, e + 1);
            for (auto& f : fl) {
                if (W->resp_n >= f.o->inv_n) continue;
                for (auto& R : g_hist.ops) {
                    if (R->inv_n < f.o->resp_n || R->res == R_PENDING) continue;
                    string got;
                    if (R->got_val && R->key == W->key) got = R->rval;
                    for (auto& x : R->hits) if (x.key == W->key) got = x.val;
                    if (got.empty() || !has_piece(got, piece)) continue;
                    if (!f.imm) {
                        i64 lo, hi; gcur_range(h, R->inv_t, R->inv_t, 3, lo, hi);
                        if (lo < f.te) continue;
                        bool replaced = false;
                        for (auto& g : fl) if (g.o != f.o && g.o->resp_n > f.o->inv_n && g.o->inv_n < R->resp_n) replaced = true;
                        if (replaced) continue;
                    }
                    violate("flush", "an item stored before a flush is visible after it took effect\n  " + W->desc() + "\n  " + f.o->desc() + "\n  " + R->desc());
                    return;
                }
            }
        }
        CheckOpts co; co.may_vanish = co.revive = true;   // stored while a flush is being carried out: hidden, then back
        check_linearizable(cls, co, h, [](const Op& o) { return o.key.empty() || o.key[0] == 'k'; });
        check_linearizable(cls, CheckOpts(), h, [](const Op& o) { return o.key.empty() || o.key[0] == 'z'; });
    }
};
SCENARIO(C07, "c07");

} // namespace sim
