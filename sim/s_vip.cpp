// Who serves: moves of the virtual address.
#include "repl.hpp"

namespace sim {

// Asks one address whether it serves, again and again, on fresh connections.
struct Probe : ExtHandler {
    u32 ip = 0, from = 0; int port = 11211; Host* h = nullptr;     // h: a node's own address; null: the virtual one
    u64 gap = 500 * MSEC, patience = 3 * SEC;
    bool off = false, busy = false, sent = false;
    SockP s; u64 t0 = 0; Node* to = nullptr; u64 tok = 0;
    std::function<void(Probe*, bool, const string&)> result;       // served or not, and what came
    string in;
    void go() {
        if (off) return;
        ++tok; busy = true; sent = false; in.clear(); t0 = g_now; to = h ? h->cur : nullptr;
        s = ext_connect(this, from, ip, port);
        u64 k = tok;
        after(patience, [this, k] { if (k == tok && busy) done(false, "nothing"); });
    }
    void done(bool ok, const string& what) {
        busy = false; ++tok;
        SockP k = s; s = nullptr;
        if (k) { k->ext = nullptr; if (g_rng_plan.chance(1, 2)) ext_close(k); else ext_reset(k); }
        result(this, ok, what);
        after(1 + g_rng_plan.below(gap), [this] { go(); });
    }
    void on_connected(bool ok, int err) override {
        if (!busy) return;
        if (!ok) { s->ext = nullptr; s = nullptr; done(false, "connect failed, errno " + std::to_string(err)); return; }
        sent = true;
        ext_send(s, port == 11215 ? string("\x90\x00\x00\x00\x00\x00\x00\x00\x01\x02\x03\x04", 12) : string("get probe\r\n"));
    }
    void on_data() override {
        if (!busy) return;
        in += ext_recv(s, 1 << 16);
        if (!in.empty()) done(true, in);
    }
    void on_eof() override { if (busy) { on_data(); if (busy) done(false, "closed"); } }
    void on_reset() override { if (busy) { s->ext = nullptr; s = nullptr; done(false, "reset"); } }
};

// C10: only the holder of the virtual address serves.
struct C10 : Repl {
    std::vector<std::unique_ptr<Probe>> probes;
    std::vector<std::pair<u64, int>> own;          // since, owner
    u32 starts = 0, max_starts = 6; u32 gci = 1; u64 bound = 0, quiet_from = 0; bool stable = false;
    std::map<Node*, u64> served, frozen;           // last reply on its own address
    std::vector<Conf> cf;
    u64 unfrozen = 0;       // last end of a freeze
    bool counters = false;
    int owner_at(u64 t) { int o = -1; for (auto& x : own) { if (x.first > t) break; o = x.second; } return o; }
    // host i held the address at some time in [a, b]
    bool held(int i, u64 a, u64 b) {
        if (a > b) return false;
        if (owner_at(a) == i) return true;
        for (auto& x : own) if (x.first >= a && x.first <= b && x.second == i) return true;
        return false;
    }
    bool held_all(int i, u64 a, u64 b) {
        if (owner_at(a) != i) return false;
        for (auto& x : own) if (x.first >= a && x.first <= b && x.second != i) return false;
        return true;
    }
    void vip(int i) { if (g_vip_owner == i) return; own.push_back({g_now, i}); set_vip(i); }
    bool start(int i) {
        if (starts >= max_starts || (H[i]->cur && H[i]->cur->alive)) return false;
        ++starts; H[i]->up = true;
        start_node(H[i], cf[i]);
        return true;
    }
    u64 lat() { return g_net.lat_max * 4 + (g_net.jitter ? g_net.jitter_max * 3 : 0) + 50 * MSEC; }
    void add_probe(u32 ip, Host* h, int port) {
        auto p = std::make_unique<Probe>();
        p->ip = ip; p->h = h; p->port = port; p->from = 0x0a020000u + (u32)probes.size() + 1;
        p->gap = (100 + g_rng_plan.below(900)) * MSEC;
        p->result = [this](Probe* q, bool ok, const string& what) { if (q->h) own_ip(q, ok, what); else via_vip(q, ok, what); };
        Probe* q = p.get();
        probes.push_back(std::move(p));
        at(200 * MSEC + g_rng_plan.below(SEC), [q] { q->go(); });
    }
    void own_ip(Probe* p, bool ok, const string& what) {
        Node* n = p->to;
        if (!ok || !n || n != p->h->cur) return;
        served[n] = g_now;
        reach("own-address-served");
        u64 slack = bound + lat() + frozen[n];
        u64 from = std::max(n->boot, g_now > slack ? g_now - slack : 0);
        if (!held(n->id, from, g_now))
            violate("serves-without-address", n->name + " answered a client '" + show(what) + "' on port " + std::to_string(p->port) + "; it did not hold the virtual address " + (n->boot == from ? "since it was started at " : "after ") + std::to_string(from / 1e9));
    }
    void via_vip(Probe* p, bool ok, const string& what) {
        if (ok) { reach("vip-served"); return; }
        u64 t = p->t0; int o = owner_at(t);
        if (o < 0) return;
        u64 need = 22 * SEC + lat() * 10;
        if (t < need || !held_all(o, t - need, g_now)) return;
        Node* n = H[o]->cur;
        if (!n || !n->alive || n->boot > t - need) return;
        if (unfrozen + need > t) return;
        violate("not-serving", n->name + " has held the virtual address for " + std::to_string((g_now - own.back().first) / SEC) + " s and does not serve port " + std::to_string(p->port) + ": " + what + "\nlog: " + log_tail(n) + describe_threads());
    }
    void check_masters() {
        for (auto* h : H) {
            Node* n = h->cur;
            if (!n || !n->alive || !served.count(n)) continue;
            u64 b = bound + frozen[n] + 2 * SEC;
            if (g_now < n->boot + b) continue;
            if (!held(h->id, g_now - b, g_now))
                violate("no-stop", n->name + " was serving, lost the virtual address, and has not stopped " + std::to_string(b / SEC) + " s later\nlog: " + log_tail(n) + describe_threads());
        }
        after(500 * MSEC, [this] { check_masters(); });
    }
    bool hang_allowed() override { return !stable; }
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "lin";
        prompt();
        u32 n = 2 + r.below(2);
        for (u32 i = 0; i < n; ++i) H.push_back(add_host(string(1, (char)('A' + i))));
        g_tap_port = 11213;
        g_tap = [this](Node* nd, u64 s, const char* p, size_t k) { rep[nd].feed(s, p, k); };
        c = repl_conf();
        gci = 1 + r.below(r.chance(1, 3) ? 10 : 4);
        c["gc_interval"] = std::to_string(gci);
        bound = (gci + 8) * SEC;
        counters = r.chance(1, 3);
        if (counters) { c["counter.enable"] = "true"; c["counter.port"] = "11215"; c["counter.max_connections"] = "0"; c["counter.buckets"] = "11"; }
        bool bindip = r.chance(1, 4), press = r.chance(1, 4);
        if (press) { c["memory_limit"] = std::to_string(1 + r.below(8)) + "K"; reach("over-the-memory-limit"); }
        for (u32 i = 0; i < n; ++i) { cf.push_back(c); if (bindip) cf[i]["bind_ip"] = ip_str(H[i]->ip); }
        exit_hook = [this](Node* nd) {
            u64 from = g_now > 3 * SEC + frozen[nd] ? g_now - 3 * SEC - frozen[nd] : 0;
            bool lost = false, had = held(nd->id, nd->boot, g_now);
            if (owner_at(std::max(from, nd->boot)) != nd->id) lost = true;
            for (auto& x : own) if (x.first >= std::max(from, nd->boot) && x.second != nd->id) lost = true;
            if (nd->exit_code == 2 && had && lost) {
                reach("master-stopped");
                u64 d = g_rng_plan.chance(1, 2) ? g_rng_plan.below(300 * MSEC) : g_rng_plan.below(5 * SEC);
                int i = nd->id;
                after(d, [this, i] { start(i); });
                return;
            }
            violate("exit", nd->name + " stopped by itself: status " + std::to_string(nd->exit_code) + ", " + nd->exit_why + "\nlog: " + log_tail(nd));
        };
        int first = r.chance(1, 8) ? -1 : 0;
        own.push_back({0, first}); set_vip(first);
        for (u32 i = 0; i < n; ++i) { u64 t = i == 0 && r.chance(2, 3) ? 0 : r.below(r.chance(1, 2) ? 300 * MSEC : 8 * SEC); if (t) at(t, [this, i] { start(i); }); else start(i); }
        for (u32 i = 0; i < n; ++i) { add_probe(H[i]->ip, H[i], 11211); if (counters) add_probe(H[i]->ip, H[i], 11215); }
        add_probe(g_vip, nullptr, 11211);
        if (counters) add_probe(g_vip, nullptr, 11215);
        // somebody writes
        u32 nc = r.below(3);
        Workload w = mix();
        for (int i = 0; i < 8; ++i) w.keys.push_back("k" + std::to_string(i));
        w.big_max = 4000; fast_enough(w);
        w.wait_pct = 80; w.wait_max = 900 * MSEC; w.ops = 150;
        for (u32 i = 0; i < nc; ++i) { Client* cl = add_client(g_vip); cl->max_reconnect = 100000; cl->reconnect_delay = 200 * MSEC; cl->window = 1 + r.below(4); gen2(cl, w); cl->start(300 * MSEC + r.below(SEC)); }
        if (press) for (u32 i = 0; i < n; ++i) {        // clients that do not depend on the virtual address
            Workload w2 = w; w2.mix = {{O_SET, 30}, {O_LAG, 6}, {O_UNLOCK, 2}, {O_GET, 4}}; w2.big_pct = 50; w2.wait_pct = 50; w2.ops = 300; w2.exp_pct = 0;
            Client* cl = add_client(H[i]->ip); cl->max_reconnect = 100000; cl->reconnect_delay = 500 * MSEC; cl->window = 1 + r.below(4); gen2(cl, w2); cl->start(300 * MSEC + r.below(SEC));
        }
        if (r.chance(1, 6)) for (u32 i = 0; i < 1 + r.below(2); ++i) {
            u32 k = r.below(n); static const i64 xs[] = {-5, -60, -3600, 30, 86400}; i64 x = xs[r.below(5)];
            timed(SEC + r.below(40 * SEC), "clock-step " + std::to_string(x), [this, k, x] { host_clock_step(H[k], x * (i64)SEC); });
        }
        // what happens
        u64 t = 1 * SEC + r.below(9 * SEC);
        u32 ev = 2 + r.below(6);
        for (u32 e = 0; e < ev; ++e) {
            u32 k = r.below(100); int who = r.below(n), b = r.below(n); u64 d = r.below(4) == 0 ? r.below(20 * SEC) : r.below(3 * SEC), d2 = r.below(5 * SEC); bool pw = r.chance(1, 2);
            string at_s = std::to_string(who);
            if (k < 34) timed(t, "move-address " + at_s, [this, who] { vip(who); });
            else if (k < 44) timed(t, "address-gone-for-a-while " + at_s, [this, who, d] { vip(-1); after(d, [this, who] { if (g_vip_owner < 0) vip(who); }); });
            else if (k < 54) timed(t, "address-flaps " + at_s, [this, who, d] { int o = g_vip_owner; vip(who); after(d / 2, [this, o, who] { if (g_vip_owner == who) vip(o); }); });
            else if (k < 70) timed(t, "fail-over " + at_s, [this, who, d, d2, pw] {
                int o = g_vip_owner;
                if (o < 0 || !H[o]->cur || !H[o]->cur->alive) { vip(who); return; }
                kill_node(H[o]->cur, pw);
                after(d, [this, who] { vip(who); });
                after(d + d2, [this, o] { start(o); });
            });
            else if (k < 78) timed(t, "kill-node " + at_s, [this, who, d2, pw] { if (H[who]->cur && H[who]->cur->alive) { kill_node(H[who]->cur, pw); after(d2, [this, who] { start(who); }); } });
            else if (k < 86) timed(t, "cut-link " + at_s, [this, who, b, d] { if (who == b) return; cut_link(H[who]->ip, H[b]->ip, true); after(d, [this, who, b] { cut_link(H[who]->ip, H[b]->ip, false); }); });
            else if (k < 93) timed(t, "reset-link " + at_s, [this, who] { reset_conns(H[who], 11213); });
            else timed(t, "freeze-node " + at_s, [this, who, d] { Node* x = H[who]->cur; if (x && x->alive) { x->frozen_until = g_now + d; frozen[x] += d; unfrozen = g_now + d; } });
            t += r.chance(1, 3) ? r.below(200 * MSEC) : r.chance(1, 2) ? r.below(4 * SEC) : r.below(30 * SEC);
        }
        quiet_from = t + 25 * SEC;
        at(200 * MSEC, [this] { check_masters(); });
        at(quiet_from, [this] { settle_down(); });
        max_ns = quiet_from + 400 * SEC;
    }
    void clients_done() override { done_clients = false; if (stable2) { end(); done_clients = true; } }
    bool stable2 = false; OpP st;
    void settle_down() {
        if (violated()) return;
        for (auto& cl : g_hist.clients) { cl->plan.resize(cl->pos); cl->finished = true; cl->waiting = false; if (cl->s && cl->up) cl->do_end(E_CLOSE); }
        if (g_vip_owner < 0 || !H[g_vip_owner]->cur || !H[g_vip_owner]->cur->alive) {
            std::vector<int> live;
            for (auto* h : H) if (h->cur && h->cur->alive) live.push_back(h->id);
            if (live.empty()) { for (auto* h : H) if (start(h->id)) { live.push_back(h->id); break; } }
            if (live.empty()) { end_run("done"); return; }
            vip(g_rng_plan.pick(live));
        }
        // from now on nothing happens; the cluster must come together
        calm = g_now;
        after(25 * SEC, [this] { check_joined(); });
    }
    u64 calm = 0;
    void check_joined() {
        {
            stable = true;
            bool last = g_now > calm + 140 * SEC;
            for (auto& p : probes) p->off = true;
            int o = g_vip_owner;
            Client* cl = add_client(g_vip);
            auto w = mk(O_SET, "fin", true); w->val = "fin" + std::to_string(g_cfg.seed);
            pinned = true;
            op(cl, w);
            wait(cl, 8 * SEC);
            st = mk(O_STATS, "", false); op(cl, st);
            barrier(cl);
            pinned = false;
            call(cl, [this, o, w, last] {
                u32 want = 0; string who;
                for (auto* h : H) if (h->id != o && h->cur && h->cur->alive) { ++want; who += " " + h->cur->name; }
                reach(want ? "joined-checked" : "alone");
                if (st->res != R_SUCC || w->res != R_SUCC) { violate("not-serving", "the holder of the address does not answer"); return; }
                if (st->stats["slaves"] != std::to_string(want)) { if (!last) { again(); return; } string l; for (auto* h : H) if (h->cur) l += "\n" + h->cur->name + " log: " + log_tail(h->cur, 400); violate("not-joined", H[o]->cur->name + " holds the virtual address and has " + st->stats["slaves"] + " slaves; other running nodes:" + who + l + describe_threads()); return; }
                for (auto* h : H) if (h->id != o && h->cur && h->cur->alive) {
                    auto& it = rep[h->cur].items;
                    auto f = it.find("fin");
                    if (f == it.end() || f->second.val != w->val) { if (!last) { again(); return; } violate("not-joined", h->cur->name + " is not kept up to date by the master"); return; }
                }
                // a slave needs descriptors for epoll, signals, listening, its link and large items, however often it has tried to join
                for (auto* h : H) if (h->id != o && h->cur && h->cur->alive) {
                    int n = 9, k = node_open_fds(h->cur);
                    for (auto& x : rep[h->cur].items) if (co.heap_limit && x.second.val.size() > co.heap_limit) ++n;
                    if (k > n) { violate("descriptors", h->cur->name + " is a slave without clients and holds " + std::to_string(k) + " descriptors"); return; }
                }
                stable2 = true;
            });
            cl->start(g_now);
            done_clients = false;
        }
    }
    void again() { after(12 * SEC, [this] { check_joined(); }); }
};
SCENARIO(C10, "c10");

// C19: supervision of replication links.
struct C19 : Repl {
    std::vector<std::unique_ptr<FakeSlave>> fs;
    u64 T = 5, frozen = 0, thaw = 0; u64 last_block = 0; u64 slow_until = 0; bool real = false; bool fin_ok = false; u64 quiet = 0; u64 vanish_t = 0;
    u64 last_ev = 0;
    static const u64 GRACE = 4 * SEC;
    u64 frozen_since(u64 t) { u64 a = std::max(t, thaw - frozen), b = std::min(g_now, thaw); return a < b ? b - a : 0; }
    // 0 no, 1 perhaps, 2 certainly attached now
    int attached(FakeSlave* f) {
        if (!f->up) return f->s ? 1 : 0;
        if (!f->ended && !f->held()) return 1;      // it does not read, and has not learned that it was dropped
        if (!f->ended) return g_now > f->t_up + 1500 * MSEC ? 2 : 1;
        if (f->by_server) return g_now < f->t_end + GRACE + frozen ? 1 : 0;
        u64 keep = f->vanished ? (T + 5) * SEC : GRACE;
        return g_now < f->t_end + keep + frozen ? 1 : 0;
    }
    u32 at_most(FakeSlave* but) { u32 n = real ? 2 : 0; for (auto& f : fs) if (f.get() != but && attached(f.get())) ++n; return n; }
    u32 at_least(FakeSlave* but) { u32 n = 0; for (auto& f : fs) if (f.get() != but && attached(f.get()) == 2) ++n; return n; }
    FakeSlave* join(bool beats, bool never_read) {
        auto p = std::make_unique<FakeSlave>();
        FakeSlave* f = p.get();
        f->id = fs.size(); f->from = 0x0a030000u + f->id + 1;
        f->beats = beats; f->never_read = never_read;
        f->period = (300 + g_rng_plan.below(800)) * MSEC;
        u32 most = at_most(nullptr), least = at_least(nullptr);
        f->up_cb = [this](FakeSlave* q) { if (q->never_read) last_block = g_now; };
        f->gone_cb = [this, most, least](FakeSlave* q) { gone(q, most, least); };
        fs.push_back(std::move(p));
        logf("fake slave %d joins: %s, %s", f->id, beats ? "beats" : "silent", never_read ? "does not read" : "reads");
        f->connect();
        after(2 * SEC + 10 * (g_net.lat_max + g_net.jitter_max), [this, f, most, least] {
            u64 t = 0; (void)t;
            if (least >= 5 && !f->ended && thaw + 2 * SEC < g_now && at_least(f) >= 5) violate("too-many", "slave " + std::to_string(f->id) + " stays attached though five others are");
        });
        return f;
    }
    void gone(FakeSlave* f, u32 most, u32) {
        if (!f->by_server) return;
        logf("fake slave %d is closed by the server", f->id);
        if (!f->up || g_now < f->t_up + SEC) {          // turned away at the door
            most = std::max(most, at_most(f));          // others who joined meanwhile may have come first
            if (most < 5) violate("turned-away", "slave " + std::to_string(f->id) + " was closed at once though at most " + std::to_string(most) + " others were attached");
            else reach("turned-away");
            return;
        }
        if (frozen_since(f->t_up) && g_now < thaw + SEC) { reach("gone-at-thaw"); if (most >= 5) return; }
        u64 quiet_for = g_now - f->last_beat;
        if (f->beats && quiet_for <= f->period + 500 * MSEC) {
            violate("live-dropped", "slave " + std::to_string(f->id) + " sent its last heartbeat " + std::to_string(quiet_for / MSEC) + " ms ago, one each " + std::to_string(f->period / MSEC) + " ms; it was dropped (slave_timeout " + std::to_string(T) + ")\nlog: " + log_tail(H[0]->cur, 300));
            return;
        }
        if (quiet_for + 2500 * MSEC < T * SEC) { violate("live-dropped", "slave " + std::to_string(f->id) + " was dropped " + std::to_string(quiet_for / MSEC) + " ms after its last heartbeat (slave_timeout " + std::to_string(T) + ")"); return; }
        reach("silent-dropped");
    }
    void supervise() {
        u64 slack = 4 * SEC + frozen;
        for (auto& f : fs) if (f->up && !f->ended && !f->beats && f->held() && g_now > f->last_beat + T * SEC + slack && g_now > thaw + 3 * SEC) {
            violate("dead-kept", "slave " + std::to_string(f->id) + " has sent no heartbeat for " + std::to_string((g_now - f->last_beat) / MSEC) + " ms and is still attached (slave_timeout " + std::to_string(T) + ")\n" + describe_threads());
            return;
        }
        u32 n = 0;
        for (auto& f : fs) if (attached(f.get()) == 2) ++n;
        if (n > 14) violate("too-many", std::to_string(n) + " slaves are attached");
        after(300 * MSEC, [this] { supervise(); });
    }
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "lin";
        prompt();
        if (r.chance(1, 10)) { starved(); return; }
        real = r.chance(1, 3);
        hosts(real ? 2 : 1);
        c = repl_conf();
        T = 4 + r.below(5);
        c["slave_timeout"] = std::to_string(T);
        c["repl_buffer_size"] = "1";
        if (r.chance(1, 2)) c["buckets"] = r.chance(1, 2) ? "1" : "3";
        start_node(H[0], c);
        if (real) at(r.below(2 * SEC), [this] { start_node(H[1], c); });
        Workload w = mix();
        for (int i = 0; i < 6; ++i) w.keys.push_back("k" + std::to_string(i));
        bool heavy = r.chance(1, 2);
        w.big_max = heavy ? 300000 : 4000; w.big_pct = heavy ? 40 : 10;
        fast_enough(w);
        g_net.sndbuf = g_net.rcvbuf = 32 << 10;
        w.wait_pct = 50; w.wait_max = 400 * MSEC;
        w.end_pct = r.chance(1, 2) ? 8 : 0; w.ends = {E_CLOSE, E_RESET};
        u32 nc = 1 + r.below(3);
        u64 span = 15 * SEC + r.below(30 * SEC);
        w.ops = span / (200 * MSEC);
        for (u32 i = 0; i < nc; ++i) {
            Client* cl = add_client(g_vip);
            cl->max_reconnect = 100000;
            gen2(cl, w);
            cl->on_reply = [this](OpP o) { answered_in_time(o); };
            cl->start(300 * MSEC + r.below(3 * SEC));
        }
        // slaves come and go
        u32 n = 2 + r.below(9);
        bool crowd = r.chance(1, 4); if (crowd) n += 6;
        for (u32 i = 0; i < n; ++i) {
            u64 t = crowd && r.chance(1, 2) ? 4 * SEC + r.below(SEC) : 300 * MSEC + r.below(span);
            bool beats = r.chance(3, 5), nr = r.chance(1, beats ? 12 : 3);
            u64 stay = r.chance(1, 3) ? r.below(500 * MSEC) : r.below(20 * SEC); u32 how = r.below(3); bool leaves = r.chance(1, 2);
            bool falls = r.chance(1, 4), pauses = r.chance(1, 4); u64 d = r.below(8 * SEC);
            if (!beats) leaves = leaves && r.chance(1, 3);
            last_ev = std::max(last_ev, t + stay + d + SEC);
            if (nr && beats) { leaves = true; stay = std::min<u64>(stay, 8 * SEC); }
            timed(t, "slave-joins " + std::to_string(i), [this, beats, nr, stay, how, leaves, falls, pauses, d] {
                FakeSlave* f = join(beats, nr);
                if (nr && beats) slow_until = std::max(slow_until, g_now + stay);
                if (falls) after(stay / 2, [f] { if (f->s) { logf("fake slave %d falls silent", f->id); f->beats = false; } });
                if (pauses && !nr) after(stay / 3, [this, f, d] { if (f->s && f->up) { f->set_reading(false); slow_until = std::max(slow_until, g_now + d); last_block = g_now; after(d, [f] { f->set_reading(true); }); } });
                if (leaves) after(stay, [this, f, how] { go_away(f, how); });
            });
        }
        if (r.chance(1, 4)) { u64 t = 2 * SEC + r.below(span), d = 100 * MSEC + r.below(12 * SEC); last_ev = std::max(last_ev, t + d + SEC); timed(t, "freeze-master", [this, d] { frozen += d; thaw = g_now + d; if (g_cfg.verbose > 1) logf("%s", describe_threads().c_str()); H[0]->cur->frozen_until = g_now + d; }); }
        if (r.chance(1, 3)) { u64 t = 2 * SEC + r.below(span); last_ev = std::max(last_ev, t + SEC); i64 st[] = {3, 12, 100, 86400, -3, -12, -100}; i64 x = r.pick(std::vector<i64>(st, st + 7)); timed(t, "clock-step " + std::to_string(x), [this, x] { host_clock_step(H[0], x * (i64)SEC); }); }
        if (real) for (u32 i = 0; i < 2; ++i) if (r.chance(1, 2)) { u64 t = 3 * SEC + r.below(span); last_ev = std::max(last_ev, t + SEC); timed(t, "reset-link", [this] { reset_conns(H[1], 11213); }); }
        at(SEC, [this] { supervise(); });
        max_ns = 400 * SEC; hang_after = 60 * SEC;
        quiet = span;
    }
    // A slave that gets little processor time while data arrive without a pause.
    bool hungry = false;
    void starved() {
        Rng& r = g_rng_plan;
        hungry = true;
        hosts(2);
        c = repl_conf();
        T = 4 + r.below(3);
        c["slave_timeout"] = std::to_string(T);
        c["repl_buffer_size"] = "1";
        c["workers"] = std::to_string(2 + r.below(3));
        g_net = NetCfg(); g_net.lat_min = 20 * US; g_net.lat_max = 200 * US;
        static const u32 b[] = {2 << 10, 4 << 10, 16 << 10};
        g_net.rcvbuf = b[r.below(3)]; g_net.sndbuf = 32 << 10;
        start_node(H[0], c);
        at(r.below(SEC), [this] { start_node(H[1], c); });
        bool small = r.chance(1, 2);
        if (small) g_net.rcvbuf = 1 << 10;
        u64 slow = ((small ? 4 : 1) + r.below(5)) * MSEC, end = (2 * T + 8) * SEC;
        timed(3 * SEC, "slave-starved", [this, slow] { H[1]->cur->slow_ns = slow; });
        u32 nc = 2 + r.below(2);
        u32 vl = 30000 + r.below(r.chance(1, 2) ? 50000 : 400000);
        if (small) vl = 300 + r.below(600);
        for (u32 i = 0; i < nc; ++i) {
            Client* cl = add_client(g_vip);
            cl->window = small ? 10 : 2;
            // no more than arrives: enough to keep the slave busy until the end
            u32 n = (u32)(g_net.rcvbuf * ((end - 3 * SEC) / slow) / vl / nc) + 3;
            if (n > (small ? 3000 : 400)) n = small ? 3000 : 400;
            for (u32 j = 0; j < n; ++j) { auto o = mk(O_SET, "k" + std::to_string(r.below(6)), false); o->val = string(vl, (char)('a' + j % 26)); op(cl, o); }
            cl->start(3100 * MSEC + r.below(300 * MSEC));
        }
        at(end, [this] { check_hungry(); });
        max_ns = 200 * SEC; max_steps = 30000000; hang_after = 60 * SEC;
    }
    void check_hungry() {
        if (rep[H[1]->cur].links != 1 || H[0]->cur->log.find("No heartbeats") != string::npos)
            violate("live-dropped", "a running slave lost its link to the master while data kept arriving (slave_timeout " + std::to_string(T) + ")\nlog: " + log_tail(H[0]->cur) + "\nslave log: " + log_tail(H[1]->cur));
        reach("starved-slave-kept");
        end_run("done");
    }
    void go_away(FakeSlave* f, u32 how) {
        if (!f->s || f->ended) return;
        if (!f->up) { after(50 * MSEC, [this, f, how] { go_away(f, how); }); return; }
        count_fault(how == 0 ? "slave-closes" : how == 1 ? "slave-resets" : "slave-vanishes");
        f->vanished = how == 2;
        if (how == 2) last_block = g_now;
        f->leave(how);
    }
    void answered_in_time(OpP o) {
        u64 from = std::max(std::max(o->inv_t, last_block), slow_until), lim = (T + 6) * SEC + frozen + 20 * (g_net.lat_max + g_net.jitter_max);
        if (o->resp_t > from + lim) violate("blocked", "a command waited " + std::to_string((o->resp_t - o->inv_t) / MSEC) + " ms for its answer (slave_timeout " + std::to_string(T) + "): " + o->desc() + "\n" + describe_threads());
    }
    bool joined = false; u32 phase = 0; u32 left = 0; OpP st;
    void clients_done() override {
        if (hungry) { done_clients = false; return; }
        if (phase == 0) {
            if (g_now < last_ev + frozen) { done_clients = false; return; }
            phase = 1;
            // everybody leaves; the places are free again
            for (auto& f : fs) if (!f->ended && f->up) { f->vanished = g_rng_plan.chance(1, 4); f->leave(f->vanished ? 2 : g_rng_plan.below(2)); }
            if (real) for (auto& cl : g_hist.clients) if (cl->s && cl->up) cl->do_end(E_CLOSE);
            after((T + 10) * SEC + frozen, [this] {
                u32 n = real ? 4 : 5;
                for (u32 i = 0; i < n; ++i) { auto f = join(true, false); f->period = 900 * MSEC; }
                u64 d = 4 * SEC;
                after(d, [this, n] {
                    u32 live = 0;
                    for (size_t i = fs.size() - n; i < fs.size(); ++i) if (fs[i]->up && !fs[i]->ended) ++live;
                    if (live != n) { violate("turned-away", "after all slaves left, only " + std::to_string(live) + " of " + std::to_string(n) + " new ones are attached"); return; }
                    Client* cl = add_client(g_vip);
                    pinned = true;
                    auto o = mk(O_SET, "fin", true); o->val = "fin"; op(cl, o);
                    wait(cl, 15 * SEC);
                    st = mk(O_STATS, "", false); op(cl, st);
                    barrier(cl);
                    pinned = false;
                    call(cl, [this, n] {
                        if (st->res != R_SUCC) { violate("not-serving", "the master does not answer"); return; }
                        if (st->stats["slaves"] != "5") { violate("not-joined", "five slaves are attached, the master reports " + st->stats["slaves"] + "\nlog: " + log_tail(H[0]->cur) + (real ? "\nslave log: " + log_tail(H[1]->cur) : "") + describe_threads()); return; }
                        for (size_t i = fs.size() - n; i < fs.size(); ++i) if (!fs[i]->got) { violate("not-joined", "a slave got no data"); return; }
                        if (real && rep[H[1]->cur].items["fin"].val != "fin") { violate("not-joined", "the slave was not kept up to date"); return; }
                        reach("places-reused");
                        joined = true;
                    });
                    cl->start(g_now); done_clients = false;
                });
            });
            return;
        }
        end();
    }
};
SCENARIO(C19, "c19");

} // namespace sim
