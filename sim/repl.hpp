// Clusters: a master and slaves.
#pragma once
#include "scen.hpp"

namespace sim {

inline u32 be32(const char* p) { return (u32)(u8)p[0] << 24 | (u32)(u8)p[1] << 16 | (u32)(u8)p[2] << 8 | (u8)p[3]; }
inline u32 be16(const char* p) { return (u32)(u8)p[0] << 8 | (u8)p[1]; }

// What a slave must hold: the complete records among the bytes it has read.
struct Replica {
    struct It { string val; u32 flags = 0; u32 exp = 0; u64 t = 0; };
    u64 sock = 0, bytes = 0, records = 0, links = 0, last = 0;
    string buf;
    std::map<string, It> items;
    bool bad = false; string why;
    void feed(u64 s, const char* p, size_t n) {
        if (s != sock) { sock = s; buf.clear(); items.clear(); ++links; }
        bytes += n; last = g_now;
        buf.append(p, n);
        size_t o = 0;
        while (buf.size() - o >= 24) {
            const char* h = buf.data() + o;
            u32 kl = be16(h + 2), el = (u8)h[4], tot = be32(h + 8);
            if ((u8)h[0] != 0x80 || kl + el > tot || tot > (64u << 20)) { bad = true; why = "byte " + std::to_string(bytes - buf.size() + o) + " of the replication stream starts no record"; return; }
            if (buf.size() - o - 24 < tot) break;
            string key(h + 24 + el, kl);
            u8 op = h[1];
            if (op == 0x11 && el == 8) { It& i = items[key]; i.flags = be32(h + 24); i.exp = be32(h + 28); i.val.assign(h + 24 + el + kl, tot - el - kl); i.t = g_now; }
            else if (op == 0x1c && el == 4) { auto f = items.find(key); if (f != items.end()) { f->second.exp = be32(h + 24); f->second.t = g_now; } }
            else if (op == 0x14 && el == 0) items.erase(key);
            else { bad = true; why = "unexpected record, opcode " + std::to_string(op) + " extras " + std::to_string(el); return; }
            ++records;
            o += 24 + tot;
        }
        buf.erase(0, o);
    }
};

struct Repl : Scenario {
    std::vector<Host*> H;
    std::map<Node*, Replica> rep;
    Conf c;
    CheckOpts co;
    std::set<string> keys;
    u64 max_data = 1 << 20;
    bool lossy = false;                 // items may go at any time (eviction, flush)
    bool vip_lost[8] = {};
    void hosts(u32 n) {
        for (u32 i = 0; i < n; ++i) H.push_back(add_host(string(1, (char)('A' + i))));
        set_vip(0);
        g_tap_port = 11213;
        g_tap = [this](Node* n, u64 s, const char* p, size_t k) { rep[n].feed(s, p, k); };
        exit_hook = [this](Node* n) {
            if (vip_lost[n->id] && n->exit_code == 2) return;
            violate("exit", n->name + " stopped by itself: status " + std::to_string(n->exit_code) + ", " + n->exit_why + "\nlog: " + log_tail(n));
        };
    }
    ~Repl() { g_tap = nullptr; }
    Conf repl_conf() {
        Rng& r = g_rng_plan;
        Conf c = conf();
        c["workers"] = std::to_string(1 + r.below(5));
        c["gc_interval"] = std::to_string(1 + r.below(4));
        c["slave_timeout"] = std::to_string(5 + r.below(6));
        c["buckets"] = r.chance(1, 3) ? "3" : "101";
        c["repl_buffer_size"] = r.chance(1, 2) ? "1" : "3";
        if (r.chance(1, 3)) { c["initial_repl_sleep_delay_usec"] = std::to_string(r.below(30000)); if (r.chance(1, 2)) c["buckets"] = "11"; }
        if (r.chance(1, 3)) c["heap_data_limit"] = "4096", co.heap_limit = 4096;
        return c;
    }
    Workload mix() {
        Workload w;
        w.mix = {{O_GET, 8}, {O_SET, 30}, {O_ADD, 6}, {O_REPLACE, 6}, {O_CAS, 5}, {O_APPEND, 8}, {O_PREPEND, 6}, {O_INCR, 8}, {O_DECR, 4}, {O_DELETE, 10}, {O_TOUCH, 3}, {O_GAT, 3}, {O_LOCK, 3}, {O_LAG, 3}, {O_UNLOCK, 3}, {O_RAU, 4}};
        w.num_pct = 25; w.max_data = max_data;
        return w;
    }
    void expiry(Workload& w) {
        Rng& r = g_rng_plan;
        w.exp_pct = 20 + r.below(60);
        w.exps = {0, 0, 1, 2, 3, 5, 20, 60};
        i64 now = wall_ns(H[0]) / (i64)SEC;
        for (int d : {-100, 0, 1, 3, 20, 60, 600}) w.exps.push_back(now + d);
        w.exps.push_back(60 * 60 * 24 * 30); w.exps.push_back(60 * 60 * 24 * 30 + 1);
        w.exps.push_back((i64)4294967295u - 5);
        if (r.chance(1, 2)) w.exps.push_back((i64)4294967296ll + 1 + r.below(100));      // text only
    }
    void fast_enough(const Workload& w) { g_net.seg = std::max<u32>(g_net.seg, std::max<u32>(500, w.big_max / 20)); if (g_net.small_seg > 16) g_net.small_seg = 16; }
    // the replication stream is silent
    u64 quiet_for() { u64 t = 0; for (auto& x : rep) t = std::max(t, x.second.last); return g_now - std::min(t, g_now); }
    // generated, with some empty values
    void gen2(Client* cl, const Workload& w) {
        size_t a = cl->plan.size();
        gen(cl, w);
        for (size_t i = a; i < cl->plan.size(); ++i) { auto& o = cl->plan[i].op; if (o && (o->k == O_SET || o->k == O_ADD || o->k == O_REPLACE || o->k == O_RAU) && g_rng_plan.chance(1, 20)) o->val.clear(); if (o && o->bin && o->exp > 4294967295ll) o->exp = 60; }
        for (auto& k : w.keys) keys.insert(k);
    }
    struct Seen { std::map<string, OpP> at; u64 t0 = 0, t1 = 0; };
    // a client that reads every key with plain gets
    Client* reader(u64 delay, Seen* seen) {
        Client* p = add_client(g_vip);
        p->max_reconnect = 3;
        wait(p, delay);
        for (auto& k : keys) { auto o = mk(O_GET, k, g_rng_plan.chance(1, 3)); seen->at[k] = o; op(p, o); }
        done_clients = false;
        p->start(g_now);
        return p;
    }
    static bool hit(const OpP& o, string& v, u32& f) {
        if (o->bin) { if (o->res != R_SUCC) return false; v = o->rval; f = o->rflags; return true; }
        if (o->hits.empty()) return false;
        v = o->hits[0].val; f = o->hits[0].flags; return true;
    }
    bool answered(Seen& s, const string& who) {
        for (auto& x : s.at) if (!dropped(x.second->id) && (x.second->res == R_PENDING || x.second->resp_t == NEVER)) {
            violate("not-serving", who + " holds the virtual address but does not serve: " + x.second->desc() + "\n" + clients_state());
            return false;
        }
        return true;
    }
    std::set<string> with_exp() {
        std::set<string> s;
        for (auto& o : g_hist.ops) if (o->has_exp && o->exp != 0 && !o->key.empty()) s.insert(o->key);
        return s;
    }
    void same(Seen& a, Seen& b, const string& what) {
        auto ex = with_exp();
        for (auto& x : a.at) {
            if (dropped(x.second->id) || dropped(b.at[x.first]->id)) continue;
            string v1, v2; u32 f1 = 0, f2 = 0;
            bool h1 = hit(x.second, v1, f1), h2 = hit(b.at[x.first], v2, f2);
            if (!h1 && !h2) continue;
            if (!h1) { violate("replica", what + ": key " + show(x.first) + " is absent on the master and present on its slave: '" + show(v2) + "' flags " + std::to_string(f2)); return; }
            if (!h2) { if (ex.count(x.first) || lossy) continue; violate("replica", what + ": key " + show(x.first) + " is missing on the slave, the master has '" + show(v1) + "' flags " + std::to_string(f1)); return; }
            if (v1 != v2 || f1 != f2) { violate("replica", what + ": key " + show(x.first) + " differs: master '" + show(v1) + "' flags " + std::to_string(f1) + ", slave '" + show(v2) + "' (" + std::to_string(v2.size()) + " bytes) flags " + std::to_string(f2)); return; }
        }
    }
    // what a slave read against what it serves after its promotion
    void matches(Node* n, Seen& s) {
        Replica& R = rep[n];
        if (R.bad) { violate("replica", n->name + ": " + R.why); return; }
        for (auto& x : s.at) {
            if (dropped(x.second->id)) continue;
            string v; u32 f = 0;
            bool h = hit(x.second, v, f);
            auto it = R.items.find(x.first);
            if (it == R.items.end()) {
                if (h) { violate("replica", n->name + " serves key " + show(x.first) + " = '" + show(v) + "' though the records it received do not contain it"); return; }
                continue;
            }
            auto& i = it->second;
            i64 lo, hi; gcur_range(n->host, x.second->inv_t, x.second->resp_t, 3, lo, hi);
            bool may_dead = lossy || i.exp != 0, must_dead = false;
            if (i.exp > 60u * 60 * 24 * 30) { may_dead = lossy || (i64)i.exp <= hi; must_dead = (i64)i.exp <= lo; }
            if (!h) { if (may_dead) continue; violate("replica", n->name + " received key " + show(x.first) + " = '" + show(i.val) + "' (expires " + std::to_string(i.exp) + ") before its promotion and does not serve it"); return; }
            if (must_dead) { violate("replica", n->name + " serves key " + show(x.first) + " though it expired"); return; }
            if (h && (v != i.val || f != i.flags)) { violate("replica", n->name + " serves key " + show(x.first) + " = '" + show(v) + "' (" + std::to_string(v.size()) + " bytes) flags " + std::to_string(f) + ", but received '" + show(i.val) + "' (" + std::to_string(i.val.size()) + " bytes) flags " + std::to_string(i.flags)); return; }
        }
    }
    void close_clients(size_t n = ~0ull) {
        for (auto& cl : g_hist.clients) {
            if (!n--) break;
            if (cl->started && cl->s && cl->up) cl->do_end(E_CLOSE);
            cl->plan.resize(cl->pos); cl->finished = true; cl->waiting = false;
        }
    }
    // the host `from` goes; `to` takes over
    int fm = 0;
    void failover(int from, int to) {
        Rng& r = g_rng_plan;
        u32 k = r.below(100);
        vip_lost[from] = true;
        u64 d = r.chance(1, 3) ? 0 : r.below(3 * SEC);
        if (k < 50) { count_fault("kill-master"); fm = 0; if (H[from]->cur) kill_node(H[from]->cur, false); }
        else if (k < 80) { count_fault("power-loss-master"); fm = 1; if (H[from]->cur) kill_node(H[from]->cur, true); }
        else { count_fault("address-moved"); fm = 2; d = 0; }
        after(d, [to] { set_vip(to); });
    }
};

// A slave of the test's own making.
struct FakeSlave : ExtHandler {
    int id = 0; u32 from = 0; SockP s; std::function<void(FakeSlave*)> gone_cb, up_cb;
    bool up = false, ended = false, by_server = false; u64 t_up = 0, t_end = 0;
    u64 period = SEC; bool beats = true; u64 last_beat = 0; u64 got = 0; bool unread = false; u64 stop_t = 0;
    bool never_read = false, vanished = false;
    void connect() { s = ext_connect(this, from, g_vip, 11213); }
    void on_connected(bool ok, int) override {
        if (!ok) { ended = true; by_server = true; t_end = g_now; s->ext = nullptr; s = nullptr; gone_cb(this); return; }
        up = true; t_up = last_beat = g_now;
        if (never_read) set_reading(false); else if (unread) set_reading(true);
        up_cb(this);
        beat();
    }
    void set_reading(bool on) { if (!s) return; unread = !on; stop_t = g_now; ext_set_reading(s, on); if (on) on_data(); }
    void beat() {
        if (!s) return;
        if (beats) { last_beat = g_now; ext_send(s, string(1, '\0')); }
        after(period - g_rng_plan.below(period / 8 + 1), [this] { beat(); });
    }
    void on_data() override { if (unread) return; string d; while (s && !(d = ext_recv(s, 1 << 20)).empty()) { got += d.size(); } note(got * 16 + id); }
    bool held() const { auto p = s ? s->peer.lock() : nullptr; return p && p->refs > 0 && !p->snd_shut && !p->orphan && p->st == S_EST; }      // the server has not closed its end
    void fin(bool srv) { if (ended) return; ended = true; by_server = srv; t_end = g_now; if (s) s->ext = nullptr; s = nullptr; gone_cb(this); }
    void on_eof() override { auto k = s; note(2000 + id); fin(true); if (k) ext_close(k); }
    void on_reset() override { note(3000 + id); fin(true); }
    void leave(u32 how) { if (!s || !up) return; auto k = s; fin(false); if (how == 0) ext_close(k); else if (how == 1) ext_reset(k); else ext_vanish(k); }
};

} // namespace sim
