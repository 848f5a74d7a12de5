// C15: after any stalls, losses and shortages, the server serves again once they are over.
#include "guest.hpp"
#include "repl.hpp"

namespace sim {
namespace {

// A client that asks and does not read, or sends a part of a request and falls silent.
struct Stuck : ExtHandler {
    int id = 0; u32 from = 0; SockP s; bool up = false, over = false; u32 what = 0, how = 0; string rest; u32 n = 0; u64 got = 0; string key;
    void start() { s = ext_connect(this, from, g_vip, 11211); }
    void on_connected(bool ok, int) override {
        if (!ok) { over = true; if (s) s->ext = nullptr; s = nullptr; return; }
        up = true; note(5000 + id);
        string m;
        switch (what) {
        case 0: m = "set " + key + " 0 0 60000\r\n" + string(60000, 'z') + "\r\n"; for (u32 i = 0; i < n; ++i) m += "get " + key + "\r\n"; break;
        case 1: m = "set " + key + " 0 0 60000\r\n" + string(60000, 'y') + "\r\n"; for (u32 i = 0; i < n; ++i) m += "get " + key + " " + key + "\r\n" + (i % 3 ? "" : "lock " + key + "\r\n"); break;
        case 2: for (u32 i = 0; i < n * 20; ++i) m += i % 3 ? "stats\r\n" : "keys\r\n"; break;
        case 3: m = "set " + key + " 0 0 500\r\n" + string(200, 'x'); rest = string(300, 'x') + "\r\n"; break;
        case 4: { m = string(24, '\0'); m[0] = (char)0x80; m[1] = 1; m[3] = 2; m[4] = 8; m[11] = 30; m += string(12, '\0') + "k"; rest = string(17, '0'); } break;
        case 5: m = "lock " + key + "\r\n"; for (u32 i = 0; i < n; ++i) m += "lget " + key + " \r\n"; break;
        }
        if (what < 3) ext_set_reading(s, false);
        if (m.empty()) return;
        ext_send(s, m);
    }
    void on_data() override { string d; while (s && !(d = ext_recv(s, 1 << 16)).empty()) got += d.size(); }
    void on_eof() override { auto k = s; drop(); if (k) ext_close(k); }
    void on_reset() override { drop(); }
    void drop() { over = true; if (s) s->ext = nullptr; s = nullptr; }
    // trouble is over
    void heal() {
        if (over || !s) return;
        if (!up) { auto k = s; drop(); ext_close(k); return; }
        auto k = s;
        switch (how) {
        case 0: if (!rest.empty()) ext_send(k, rest); ext_set_reading(k, true); on_data(); break;
        case 1: drop(); ext_close(k); break;
        case 2: drop(); ext_reset(k); break;
        case 3: ext_set_reading(k, true); on_data(); if (s) ext_shutdown(k); break;
        case 4: drop(); ext_vanish(k); break;
        }
    }
};

struct C15 : Repl {
    std::vector<std::unique_ptr<Stuck>> st; std::vector<std::unique_ptr<FakeSlave>> fs; std::vector<std::unique_ptr<Guest>> gs;
    u64 t_heal = 0, t_check = 0, gci = 1; u32 nslaves = 0, nc = 0; bool ctr = false; int phase = 0; u64 st_moved = 0;
    OpP stA, stB; std::vector<OpP> probes; bool served_late = false; u32 workers = 1; u64 chk0 = 0;
    bool hang_allowed() override { return g_now < t_check; }
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "lin";
        bool dead = r.chance(1, 14);      // clients' hosts die while the server is suspended
        nslaves = dead || r.chance(1, 2) ? 0 : 1 + r.below(2);
        hosts(1 + nslaves);
        c = repl_conf();
        gci = atoi(c["gc_interval"].c_str());
        workers = atoi(c["workers"].c_str());
        c["buckets"] = r.chance(2, 3) ? "2" : "101";
        ctr = r.chance(1, 4);
        if (ctr) { c["counter.enable"] = "true"; c["counter.port"] = "11215"; c["counter.buckets"] = "5"; c["counter.max_connections"] = "0"; }
        bool few = r.chance(1, 4);
        if (few) c["heap_data_limit"] = "900K";       // no files: failing to make one would be allowed to stop the server
        start_node(H[0], c);
        if (r.chance(2, 3)) pick_net(r, true);
        g_net.seg = std::max<u32>(g_net.seg, 6000); g_net.small_seg = std::min<u32>(g_net.small_seg, 4); g_net.jitter = std::min<u32>(g_net.jitter, 4);
        t_heal = 1 * SEC + r.below(r.chance(1, 3) ? 3 * SEC : 20 * SEC);
        u64 t_frz = SEC + r.below(3 * SEC);
        if (dead) t_heal = t_frz + 341 * SEC + r.below(8 * SEC);
        bool van = false;
        for (u32 i = 1; i <= nslaves; ++i) {
            Host* h = H[i];
            at(r.below(t_heal), [this, h] { if (!h->cur) start_node(h, c); });
            if (r.chance(1, 2)) {
                u64 t = 300 * MSEC + r.below(t_heal);
                switch (r.below(4)) {
                case 0: timed(t, "freeze-slave", [this, h] { if (h->cur && h->cur->alive) h->cur->frozen_until = std::max(g_now, t_heal); }); break;
                case 1: timed(t, "cut-link", [this, h] { if (g_now < t_heal) { cut_link(H[0]->ip, h->ip, true); at(t_heal, [this, h] { cut_link(H[0]->ip, h->ip, false); }); } }); break;
                case 2: timed(t, "kill-slave", [this, h] { if (h->cur && h->cur->alive && g_now < t_heal) { kill_node(h->cur, false); at(t_heal, [this, h] { start_node(h, c); }); } }); break;
                case 3: timed(t, "reset-link", [this, h] { if (g_now < t_heal) reset_conns(h, 11213); }); break;
                }
            }
        }
        Workload w = mix();
        for (u32 i = 0; i < 1 + r.below(6); ++i) w.keys.push_back("k" + std::to_string(i));
        w.mix.push_back({O_LOCK, 8}); w.mix.push_back({O_UNLOCK_ALL, 3});
        w.end_pct = r.chance(2, 3) ? 5 + r.below(20) : 0; w.ends = {E_CLOSE, E_FIN, E_RESET, E_QUIT};
        if (r.chance(1, 3)) { w.pause_pct = 10; w.pause_max = 2 * SEC; }
        w.big_max = 20000; w.big_pct = r.below(30);
        if (r.chance(1, 3)) expiry(w);
        nc = 1 + r.below(6);
        w.ops = 10 + r.below(120) / nc;
        w.wait_pct = 20 + r.below(60); w.wait_max = (1 + r.below(10)) * 100 * MSEC;
        for (u32 i = 0; i < nc; ++i) {
            Client* cl = add_client(g_vip);
            cl->window = r.chance(1, 2) ? 1 : 1 + r.below(8);
            cl->max_reconnect = 1000000; cl->reconnect_delay = 200 * MSEC;
            gen2(cl, w);
            cl->start(300 * MSEC + r.below(dead ? 10 * SEC : t_heal));
        }
        if (dead) {
            u32 n = 1 + r.below(4);
            for (u32 i = 0; i < n; ++i) {
                auto p = std::make_unique<Stuck>(); Stuck* q = p.get(); st.push_back(std::move(p));
                q->id = 100 + i; q->from = 0x0a070001u + i; q->what = 6;
                at(300 * MSEC + r.below(500 * MSEC), [q] { q->start(); });
                u64 t = t_frz + r.below(SEC);
                string m = r.chance(1, 2) ? "get hot0\r\n" : "set hot0 0 0 10\r\n012";
                timed(t, "asks-and-dies", [q, m] { if (q->s) ext_send(q->s, m); });
                at(t + 400 * MSEC, [q] { if (q->s) { auto k = q->s; q->drop(); ext_vanish(k); } });
            }
            Host* h = H[0];
            timed(t_frz, "suspend-master", [this, h] { h->cur->frozen_until = t_heal; });
            reach("dead-peers");
        }
        u32 ns = dead ? 0 : r.below(r.chance(1, 2) ? 3 : 10);
        for (u32 i = 0; i < ns; ++i) {
            auto p = std::make_unique<Stuck>(); Stuck* q = p.get(); st.push_back(std::move(p));
            q->id = i; q->from = 0x0a050001u + i; q->what = r.below(6); q->how = r.below(4); q->n = 20 + r.below(60); q->key = r.chance(1, 2) ? w.keys[r.below(w.keys.size())] : "hot" + std::to_string(r.below(2));
            if (r.chance(1, 30)) { q->how = 4; van = true; }
            static const char* wn[] = {"asks-and-does-not-read", "asks-locks-and-does-not-read", "asks-for-lists-and-does-not-read", "sends-half-a-request", "sends-half-a-request", "sends-nonsense"};
            static const char* hn[] = {"reads again", "closes", "resets", "reads and shuts down", "vanishes"};
            timed(300 * MSEC + r.below(t_heal), string(wn[q->what]) + ", later " + hn[q->how], [this, q] { if (g_now < t_heal) q->start(); });
            // some are gone before the end
            u64 th = r.chance(1, 3) ? 400 * MSEC + r.below(t_heal) : t_heal;
            at(std::max(th, t_heal), [q] { q->heal(); });
            if (th < t_heal) at(th, [q] { q->heal(); });
        }
        if (!dead && r.chance(1, 3)) {
            u32 n = 1 + r.below(6);
            for (u32 i = 0; i < n; ++i) {
                auto p = std::make_unique<FakeSlave>(); FakeSlave* q = p.get(); fs.push_back(std::move(p));
                q->id = i; q->from = 0x0a060001u + i; q->period = 900 * MSEC; q->never_read = r.chance(1, 2);
                q->gone_cb = [](FakeSlave*) {}; q->up_cb = [](FakeSlave*) {};
                u32 k = r.below(5); if (k >= 3) q->beats = false; if (i > 1 && !k) k = 2;     // five places in all
                if (k == 4) q->never_read = true;       // stays, and is dropped for its silence
                timed(300 * MSEC + r.below(t_heal), q->never_read ? "slave-does-not-read" : q->beats ? "another-slave" : "silent-slave", [this, q] { if (g_now < t_heal) q->connect(); });
                at(t_heal, [q, k] { if (!q->s) return; if (k != 4) q->never_read = false; if (k == 0) { q->set_reading(true); } else if (k != 4) q->leave(k & 1); });
            }
            if (r.chance(1, 2)) {         // more than the buffers for the slaves can hold
                g_net.seg = 60000; g_net.small_seg = 0; g_net.rcvbuf = std::max<u32>(g_net.rcvbuf, 32 << 10); g_net.sndbuf = std::max<u32>(g_net.sndbuf, 32 << 10);
                u32 m = 2 + r.below(3);
                for (u32 i = 0; i < m; ++i) {
                    Client* cl = add_client(g_vip);
                    cl->window = 1 + r.below(4);
                    Workload w2 = w; w2.keys = {"bulk" + std::to_string(i), "bulk9"}; for (auto& x : w2.keys) keys.insert(x);
                    w2.mix = {{O_SET, 20}, {O_GET, 1}, {O_APPEND, 1}, {O_DELETE, 1}}; w2.ops = 10 + r.below(20); w2.big_pct = 90; w2.big_max = 500000; w2.wait_pct = 20; w2.end_pct = 0; w2.exp_pct = 0; w2.max_data = few ? 500000 : 1 << 20; if (few) w2.mix[2].second = 0;
                    gen2(cl, w2);
                    cl->start(500 * MSEC + r.below(t_heal));
                }
                reach("bulk");
            }
        }
        if (ctr) for (u32 i = 0; i < 4; ++i) guest(300 * MSEC + r.below(t_heal), 11215, r.below(3 * SEC), 100 * MSEC, r.below(3));
        Host* h = H[0];
        if (r.chance(1, 4)) { u64 t = 300 * MSEC + r.below(t_heal); timed(t, "freeze-master", [this, h] { if (g_now < t_heal) h->cur->frozen_until = t_heal; }); }
        if (few) {
            u64 t = 400 * MSEC + r.below(t_heal); u32 x = r.below(4);
            timed(t, "descriptors-run-out", [this, h, x] { if (g_now < t_heal) h->cur->fd_limit = node_open_fds(h->cur) + x; });
            u32 n = 5 + r.below(20);
            for (u32 i = 0; i < n; ++i) guest(t + r.below(2 * SEC), r.chance(1, 6) ? 11213 : 11211, r.below(6 * SEC), 50 * MSEC, r.below(3));
        }
        if (r.chance(1, 4)) timed(300 * MSEC + r.below(t_heal), "accept-fails", [this] { if (g_now < t_heal) g_kstat.accept_abort = 5; });
        if (r.chance(1, 4)) {
            DiskCfg& d = h->disk;          // an error would be allowed to stop the server
            d.short_num = 128; d.err_sync = 400;
        }
        t_check = t_heal + (van ? 960 * SEC : 60 * SEC);
        at(t_heal, [this, h] {
            reach("healed");
            g_strat.stall_inv = 0;
            // a network that carries what is waiting in well under the time given
            g_net.seg = std::max<u32>(g_net.seg, 60000); g_net.small_seg = 0; g_net.jitter = 0; g_net.lat_min = std::min<u64>(g_net.lat_min, 200 * US); g_net.lat_max = std::min<u64>(g_net.lat_max, 2 * MSEC);
            g_net.sndbuf = std::max<u32>(g_net.sndbuf, 32 << 10); g_net.rcvbuf = std::max<u32>(g_net.rcvbuf, 32 << 10);
            h->cur->fd_limit = 250; u64 used = h->disk.used; h->disk = DiskCfg(); h->disk.used = used; g_kstat.accept_abort = 0;
            for (auto& x : H) if (x->cur) x->cur->frozen_until = 0;
            for (auto& cl : g_hist.clients) cl->reconnect_delay = 20 * MSEC;
        });
        at(t_check, [this] { probe(); });
        max_ns = t_check + 1500 * SEC; max_steps = 20000000;
        hang_after = 10 * SEC;
        settle = SEC;
    }
    void guest(u64 t, int port, u64 stay, u64 period, u32 how) {
        auto p = std::make_unique<Guest>(); Guest* g = p.get(); gs.push_back(std::move(p));
        g->id = gs.size(); g->port = port; g->stay = stay; g->period = period; g->how = how; g->from = 0x0a040000u + g->id;
        g->on_answer = [](Guest*) {}; g->on_gone = [](Guest*) {};
        timed(t, "guest port " + std::to_string(port), [g] { g->start(g_vip); });
    }
    // everyone else is quiet, or reading
    void probe() {
        if (violated()) return;
        // what was asked for in the meantime still arrives, perhaps over a slow network
        u64 sum = 0; for (auto& q : st) sum += q->got;
        if (sum != st_moved && g_now < t_heal + 1200 * SEC) { st_moved = sum; reach("backlog"); t_check = g_now + 2 * SEC; at(t_check, [this] { probe(); }); return; }
        for (auto& cl : g_hist.clients) cl->last_progress = g_now;
        chk0 = g_now;
        Rng& r = g_rng_plan;
        auto ask = [&](Client* p, OpP o) { probes.push_back(o); op(p, o); };
        pinned = true;
        std::set<string> ks = keys; ks.insert("hot0"); ks.insert("hot1"); ks.insert("fresh");
        for (u32 i = 0; i < workers + 1; ++i) {
            Client* p = add_client(g_vip);
            p->max_reconnect = 0; p->auto_reconnect = false;
            for (auto& k : ks) {
                bool bin = r.chance(1, 2);
                ask(p, mk(O_GET, k, bin));
                auto o = mk(O_SET, k, bin); o->val = "p" + std::to_string(i) + "." + std::to_string(probes.size()); ask(p, o);
                ask(p, mk(O_LOCK, k, bin));
                ask(p, mk(O_UNLOCK, k, bin));
                ask(p, mk(O_TOUCH, k, bin)); probes.back()->has_exp = true;
            }
            p->start(g_now + r.below(200 * MSEC));
        }
        Client* q = add_client(g_vip);
        q->max_reconnect = 0; q->auto_reconnect = false;
        stA = mk(O_STATS, "", false); probes.push_back(stA); op(q, stA);
        auto e = mk(O_SET, "short-lived", true); e->val = "x"; e->has_exp = true; e->exp = 1; ask(q, e);
        barrier(q);
        wait(q, (3 * gci + 8) * SEC);
        stB = mk(O_STATS, "", false); probes.push_back(stB); op(q, stB);
        auto m = mk(O_SET, "last", false); m->val = "done"; ask(q, m);
        barrier(q);
        wait(q, 12 * SEC);
        q->start(g_now);
        pinned = false;
        if (ctr) {
            auto p = std::make_unique<Guest>(); Guest* g = p.get(); gs.push_back(std::move(p));
            g->id = gs.size(); g->port = 11215; g->stay = 4 * SEC; g->from = 0x0a040000u + g->id;
            g->on_answer = [](Guest*) {}; g->on_gone = [](Guest*) {};
            g->start(g_vip);
            after(3 * SEC, [g] { if (!g->answered) violate("not-served", "a counter client gets no answer after the faults have stopped\n" + describe_threads()); });
        }
        fin = true; done_clients = false;
    }
    void clients_done() override { if (!fin) { done_clients = false; return; } end(); }
    void oracle() override {
        if (!fin) return;
        for (auto& o : probes) {
            if (o->res == R_PENDING || o->resp_t == NEVER) { violate("not-served", "no answer after the faults have stopped: " + o->desc() + "\n" + clients_state()); return; }
            if (o->resp_t - o->inv_t > 5 * SEC) { violate("slow", o->desc() + " took " + std::to_string((o->resp_t - o->inv_t) / MSEC) + " ms after the faults had stopped"); return; }
        }
        u64 a = atoll(stA->stats["gc_count"].c_str()), b = atoll(stB->stats["gc_count"].c_str());
        if (b < a + 1) { violate("gc", "no collection in " + std::to_string(3 * gci + 8) + " s after the faults have stopped: gc_count " + std::to_string(a) + " and " + std::to_string(b) + "\n" + log_tail(H[0]->cur)); return; }
        for (u32 i = 1; i <= nslaves; ++i) {
            Node* n = H[i]->cur;
            if (!n || !n->alive) continue;
            auto& R = rep[n];
            if (R.bad) { violate("replica", n->name + ": " + R.why); return; }
            auto it = R.items.find("last");
            if (it == R.items.end() || it->second.val != "done") { violate("no-replication", n->name + " has not received an item stored after the faults have stopped\n" + log_tail(n) + "\n" + log_tail(H[0]->cur)); return; }
            reach("replicated");
        }
    }
};
SCENARIO(C15, "c15");

} // namespace
} // namespace sim
