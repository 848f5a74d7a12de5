// Scenarios on storage faults, eviction, secure erase, key dumps and hostile input.
#include "scen.hpp"

namespace sim {

static Host* one(Scenario* s) { return s->master(); }
static Workload base_mix() {
    Workload w;
    w.mix = {{O_GET, 22}, {O_SET, 16}, {O_ADD, 6}, {O_REPLACE, 5}, {O_CAS, 12}, {O_APPEND, 9}, {O_PREPEND, 9}, {O_INCR, 6}, {O_DECR, 3}, {O_DELETE, 8}, {O_TOUCH, 2}, {O_GAT, 2}};
    return w;
}

// C16: large objects and a failing disk.
struct C16 : Scenario {
    Host* h = nullptr; CheckOpts co; bool faulty = false, stopped = false; int phase = 0; u64 used0 = 0; int fds0 = 0; bool leak = false;
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "lin";
        h = one(this);
        Conf c = conf();
        c["workers"] = std::to_string(1 + r.below(4));
        c["gc_interval"] = std::to_string(1 + r.below(3));
        c["buckets"] = r.chance(1, 2) ? "2" : "101";
        c["heap_data_limit"] = "4096"; co.heap_limit = 4096;
        u32 md = r.chance(1, 2) ? 32768 : 262144;
        c["max_data_size"] = std::to_string(md);
        start_node(h, c);
        DiskCfg& d = h->disk;
        static const u32 sh[] = {0, 20, 128, 240};
        d.short_num = sh[r.below(4)];
        u32 k = r.below(12);
        if (k < 7 && r.chance(1, 2)) g_strat.stall_on_fault = 1 + r.below(60);
        if (k < 6) {
            faulty = true;
            static const u32 p[] = {20, 100, 600};
            u32 e = p[r.below(3)];
            if (k == 0) d.err_write = e;
            else if (k == 1) d.err_read = e;
            else if (k == 2) d.err_open = e;
            else if (k == 3) d.err_trunc = e;
            else if (k == 4) d.err_lseek = e;
            else d.capacity = 6000 + r.below(120000);
        } else if (k == 6) { d.err_sync = 2000; }
        else if (k == 7) {           // descriptors run out while storing
            faulty = true;
            timed(400 * MSEC + r.below(500 * MSEC), "few-descriptors", [this, x = (u32)r.below(4)] { if (!h->cur) return; h->cur->fd_limit = node_open_fds(h->cur) + x; after(3 * SEC, [this] { if (h->cur) h->cur->fd_limit = 250; }); });
        }
        Workload w = base_mix();
        w.max_data = md;
        u32 nk = 1 + r.below(5);
        for (u32 i = 0; i < nk; ++i) w.keys.push_back("k" + std::to_string(i));
        w.big_pct = 60; w.big_max = r.chance(1, 3) ? 5000 : r.chance(1, 2) ? 12000 : md + 3000; w.val_max = 3000;
        g_net.seg = std::max<u32>(g_net.seg, w.big_max / 16); g_net.small_seg = std::min<u32>(g_net.small_seg, 16);
        if (w.big_max > 100000) w.big_pct = 15;
        w.num_pct = 8; w.cas_pct = 20;
        u32 nc = 1 + r.below(4);
        w.ops = 10 + r.below(90) / nc;
        w.wait_pct = r.below(50);
        static const u64 wm[] = {2 * MSEC, 50 * MSEC, 700 * MSEC};
        w.wait_max = wm[r.below(3)];
        for (u32 i = 0; i < nc; ++i) {
            Client* cl = add_client(g_vip);
            cl->window = r.chance(1, 2) ? 1 : 1 + r.below(6);
            gen(cl, w);
            if (r.chance(1, 3)) wait(cl, 13 * SEC * (1 + r.below(2)));      // the contents leave the page cache
            if (r.chance(1, 3)) { Workload w2 = w; w2.ops = 8; gen(cl, w2); }
            cl->start(300 * MSEC + r.below(5 * MSEC));
        }
        exit_hook = [this](Node* n) {
            if (faulty && n->exit_code == 1) { reach("stopped-on-disk-fault"); stopped = true; end_run("server stopped"); return; }
            violate("exit", n->name + " stopped by itself: status " + std::to_string(n->exit_code) + ", " + n->exit_why + "\nlog: " + log_tail(n));
        };
        leak = !faulty;
        max_ns = 200 * SEC;
        hang_after = 45 * SEC;
    }
    void clients_done() override {
        switch (phase++) {
        case 0: final_read(200 * MSEC); break;
        case 1: {
            if (!leak) { end(); return; }
            std::set<string> keys;
            for (auto& o : g_hist.ops) if (!o->key.empty()) keys.insert(o->key);
            Client* c = add_client(g_vip);
            for (auto& k : keys) op(c, mk(O_DELETE, k, false));
            done_clients = false;
            c->start(g_now);
            break;
        }
        case 2: after(10 * SEC, [this] { reach("storage-returned"); if (h->disk.used) violate("leak", "every item was deleted, but temporary files still hold " + std::to_string(h->disk.used) + " bytes"); end(); }); break;
        }
    }
    void oracle() override { check_linearizable(cls, co, h); }
};
SCENARIO(C16, "c16");

// C17: the memory limit.
struct C17 : Scenario {
    Host* h = nullptr; int phase = 0; u64 limit = 0; bool over = false;
    std::vector<string> hot, cold; std::set<string> lock_keys; Client* fin_c = nullptr; OpP st, st2;
    std::map<string, OpP> last;
    u64 per_item = 0, writes_end = 0; bool below_only = false; u32 gc_int = 1;
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "lin";
        prompt();
        g_net = NetCfg(); g_net.lat_min = 20 * US; g_net.lat_max = 200 * US;
        h = one(this);
        Conf c = conf();
        c["workers"] = std::to_string(1 + r.below(4));
        gc_int = 1 + r.below(3);
        c["gc_interval"] = std::to_string(gc_int);
        c["buckets"] = r.chance(1, 2) ? "7" : "101";
        c["heap_data_limit"] = r.chance(1, 2) ? "4096" : "65536";
        below_only = r.chance(1, 3);
        limit = below_only ? 60000 + r.below(40000) : 10000 + r.below(60000);
        c["memory_limit"] = std::to_string(limit);
        start_node(h, c);
        u32 nc = 1 + r.below(3);
        u32 vl = 100 + r.below(1500);
        auto val = [&](u32 n) { string s = "v" + std::to_string(++valno) + "."; while (s.size() < n) s += (char)('a' + (s.size() + valno) % 26); return s; };
        if (below_only) {
            // everything together stays under the limit, whatever is in files
            u64 room = limit * 8 / 10, used = 0; u32 n = 0;
            while (used < room && n < 200) { u32 l = 1 + r.below(vl); cold.push_back("c" + std::to_string(n++)); used += l + 260 + 16; if (used > room) cold.pop_back(); }
            std::vector<Client*> cs;
            for (u32 i = 0; i < nc; ++i) cs.push_back(add_client(g_vip));
            Rng rr = r;
            u64 tot = 0;
            for (size_t i = 0; i < cold.size(); ++i) {
                Client* cl = cs[i % nc];
                u32 l = 1 + r.below(vl);
                if (tot + l + 276 > room) break;
                tot += l + 276;
                auto o = mk(r.chance(1, 8) ? O_ADD : O_SET, cold[i], r.chance(1, 2)); o->val = val(l); op(cl, o);
                if (c["heap_data_limit"] == "4096" && r.chance(1, 3)) { auto b = mk(O_SET, "big" + std::to_string(i), false); b->val = val(4097 + r.below(20000)); tot += 276; op(cl, b); }
                if (r.chance(1, 6)) wait(cl, 1 + r.below(2 * SEC));
            }
            (void)used;
            for (auto* cl : cs) { wait(cl, r.below(25 * SEC)); cl->start(300 * MSEC + r.below(5 * MSEC)); }
        } else {
            u32 nhot = r.below(4);
            u64 hl = limit / 20;
            for (u32 i = 0; i < nhot; ++i) hot.push_back("hot" + std::to_string(i));
            u64 dur = (8 + r.below(25)) * SEC;
            if (nhot) {
                Client* cl = add_client(g_vip);
                for (auto& k : hot) { auto o = mk(O_SET, k, false); o->val = val(c["heap_data_limit"] == "4096" && r.chance(1, 4) ? 4097 + r.below(20000) : 1 + r.below(hl)); op(cl, o); }
                for (u64 t = 0; t < dur + 14 * SEC; t += 200 * MSEC) {
                    for (auto& k : hot) {
                        u32 x = r.below(6);
                        auto o = mk(x < 4 ? O_GET : O_TOUCH, k, r.chance(1, 2));
                        if (o->k == O_TOUCH) { o->has_exp = true; o->exp = 0; }
                        op(cl, o);
                    }
                    wait(cl, 200 * MSEC);
                }
                cl->start(300 * MSEC);
            }
            for (u32 i = 0; i < nc; ++i) {
                Client* cl = add_client(g_vip);
                u32 n = 0;
                u64 t = 0;
                while (t < dur) {
                    u32 x = r.below(10);
                    string k = x < 3 && n ? "c" + std::to_string(i) + "." + std::to_string(r.below(n)) : "c" + std::to_string(i) + "." + std::to_string(n++);
                    if (x == 0) { auto o = mk(O_GET, k, r.chance(1, 2)); op(cl, o); }
                    else { auto o = mk(O_SET, k, r.chance(1, 2)); o->val = val(1 + r.below(vl)); op(cl, o); }
                    if (r.chance(1, 2)) { u64 d = 1 + r.below(r.chance(1, 6) ? 3 * SEC : 150 * MSEC); wait(cl, d); t += d; }
                    t += 300 * US;
                    if (n > 400) break;
                }
                cl->start(350 * MSEC + r.below(5 * MSEC));
            }
            if (r.chance(1, 3)) {      // a few locked ones
                Client* cl = add_client(g_vip);
                for (u32 i = 0; i < 1 + r.below(3); ++i) { string k = "locked" + std::to_string(i); lock_keys.insert(k); auto o = mk(O_SET, k, false); o->val = val(1 + r.below(hl)); op(cl, o); op(cl, mk(O_LOCK, k, r.chance(1, 2))); }
                wait(cl, dur + 13 * SEC);
                for (auto& k : lock_keys) op(cl, mk(O_GET, k, false));
                cl->start(300 * MSEC);
            }
        }
        max_ns = 200 * SEC;
        max_steps = 12000000;
        hang_after = 60 * SEC;
    }
    void clients_done() override {
        if (phase++) { end(); return; }
        writes_end = g_now;
        fin_c = add_client(g_vip);
        wait(fin_c, 14 * SEC);
        st = mk(O_STATS, "", false); op(fin_c, st);
        std::set<string> keys;
        for (auto& o : g_hist.ops) if (!o->key.empty()) keys.insert(o->key);
        for (auto& k : keys) { auto o = mk(O_GET, k, false); last[k] = o; op(fin_c, o); }
        done_clients = false;
        fin_c->start(g_now);
    }
    static bool hit(const OpP& o) { return o->bin ? o->res == R_SUCC : !o->hits.empty(); }
    void oracle() override {
        if (phase < 2) return;
        for (auto& o : g_hist.ops) if (o->k == O_SET && o->res != R_SUCC && o->res != R_PENDING) { violate("store", "a store was refused: " + o->desc()); return; }
        if (below_only) { check_linearizable(cls, CheckOpts(), h); return; }
        CheckOpts co; co.may_vanish = true; check_linearizable(cls, co, h);
        if (violated()) return;
        for (auto& k : lock_keys) {
            OpP lk, g;
            for (auto& o : g_hist.ops) if (o->key == k) { if (o->k == O_LOCK && o->res == R_SUCC) lk = o; if (o->k == O_GET && lk && o->conn == lk->conn) g = o; }
            if (lk && g && g->resp_t != NEVER && !hit(g)) { violate("evict", "a locked item was evicted: " + lk->desc() + "\n" + g->desc()); return; }
        }
        // in use all the time
        for (auto& k : hot) {
            OpP prev;
            for (auto& o : g_hist.ops) if (o->key == k && o->resp_t != NEVER) {
                bool ok = o->k == O_GET ? hit(o) : o->res == R_SUCC;
                if (!ok && prev && o->resp_t - prev->inv_t < 800 * MSEC) { violate("evict", "an item was evicted though it had just been used:\n" + prev->desc() + "\n" + o->desc()); return; }
                if (!ok) break;
                prev = o;
            }
        }
        if (st && !dropped(st->id) && st->res == R_SUCC) {
            u64 b = strtoull(st->stats["bytes"].c_str(), nullptr, 10);
            if (b > limit) { violate("limit", "bytes " + std::to_string(b) + " is over the limit of " + std::to_string(limit) + " 14 s after the last store"); return; }
        }
        // what was evicted had not been used more recently than what stayed
        string present; u64 tp = NEVER; OpP po, mo; u64 tm = 0; string missing;
        for (auto& x : last) {
            if (dropped(x.second->id) || x.second->resp_t == NEVER || lock_keys.count(x.first)) continue;
            u64 inv = 0, resp = 0; OpP w;
            for (auto& o : g_hist.ops) {
                if (o->key != x.first || o == x.second) continue;
                if (o->resp_t == NEVER) { w = nullptr; resp = NEVER; break; }
                if (o->k == O_GET ? hit(o) : o->res == R_SUCC) { inv = o->inv_t; resp = std::max(resp, o->resp_t); w = o; }
            }
            if (!w) continue;
            if (hit(x.second)) { if (resp < tp) { tp = resp; po = w; present = x.first; } }
            else if (inv > tm) { tm = inv; mo = w; missing = x.first; }
        }
        if (po && mo) reach("evicted-and-kept");
        if (po && mo && tp + 1500 * MSEC < tm) violate("evict", "item " + missing + " was evicted though it had been used more recently than " + present + ", which stayed:\n" + mo->desc() + "\n" + po->desc());
    }
};
SCENARIO(C17, "c17");

// C18: secure erase.
struct C18 : Scenario {
    Host* h = nullptr; int phase = 0; CheckOpts co; std::vector<string> keys; u32 rounds = 0;
    std::set<string> seen;
    string secret(u32 len) {
        static const char cs[] = "ABCDEFGHJKLMNPQRSTUVWXYZ23456789";
        string s;
        while (s.size() < len) s += cs[g_rng_plan.below(32)];
        return s;
    }
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "lin";
        h = one(this);
        Conf c = conf();
        c["secure_erase"] = "true";
        c["workers"] = std::to_string(1 + r.below(3));
        c["gc_interval"] = "1";
        c["buckets"] = r.chance(1, 2) ? "3" : "101";
        c["heap_data_limit"] = r.chance(1, 2) ? "4096" : "65536"; co.heap_limit = c["heap_data_limit"] == "4096" ? 4096 : 65536;
        if (r.chance(1, 5)) c["memory_limit"] = std::to_string(3000 + r.below(8000));
        start_node(h, c);
        co.may_vanish = co.revive = true;
        u32 nk = 1 + r.below(6);
        for (u32 i = 0; i < nk; ++i) keys.push_back("k" + std::to_string(i));
        rounds = 2 + r.below(4);
        max_ns = 200 * SEC; hang_after = 60 * SEC;
        round();
    }
    // Values of the rounds before are secrets: no request or reply of this round carries them.
    void round() {
        Rng& r = g_rng_plan;
        u32 nc = 1 + r.below(3);
        for (u32 i = 0; i < nc; ++i) {
            Client* cl = add_client(g_vip);
            u32 n = 1 + r.below(10);
            for (u32 j = 0; j < n; ++j) {
                string k = r.pick(keys);
                static const OpK ks[] = {O_SET, O_SET, O_ADD, O_REPLACE, O_APPEND, O_APPEND, O_PREPEND, O_PREPEND, O_INCR, O_DECR, O_DELETE, O_TOUCH};
                OpK kk = rounds_done == 0 ? (r.chance(4, 5) ? O_SET : O_ADD) : ks[r.below(12)];
                auto o = mk(kk, k, r.chance(1, 2));
                if (kk == O_SET || kk == O_ADD || kk == O_REPLACE || kk == O_APPEND || kk == O_PREPEND) {
                    if (r.chance(1, 6)) { o->val = std::to_string(1 + r.below(9)); while (o->val.size() < 19) o->val += (char)('0' + r.below(10)); }
                    else o->val = secret(r.chance(1, 6) ? 1 + r.below(16) : r.chance(1, 5) ? 3000 + r.below(6000) : 16 + r.below(300));
                    if (kk != O_APPEND && kk != O_PREPEND && r.chance(1, 4)) { o->has_exp = true; o->exp = 1 + r.below(6); }
                }
                if (kk == O_INCR || kk == O_DECR) { o->delta = 1 + r.below(1000); if (o->bin) { o->create = r.chance(1, 2); o->has_exp = o->create; o->initial = 1000000000000000000ull + r.next() % 1000000000000000000ull; } }
                if (kk == O_TOUCH) { o->has_exp = true; o->exp = r.below(4); }
                op(cl, o);
                if (r.chance(1, 3)) wait(cl, 1 + r.below(SEC));
            }
            if (rounds_done && r.chance(1, 6)) { auto o = mk(O_FLUSH, "", false); op(cl, o); }
            if (r.chance(1, 4)) wait(cl, 3 * SEC);
            cl->start(std::max(g_now, 300 * MSEC) + r.below(5 * MSEC));
        }
        done_clients = false;
    }
    u32 rounds_done = 0;
    void clients_done() override {
        ++rounds_done;
        for (auto& c : g_hist.clients) if (c->s && c->up) c->do_end(E_CLOSE);
        if (rounds_done >= rounds) {
            // everything goes at the end
            if (rounds_done == rounds) { close_round(); return; }
            end(); return;
        }
        after(6 * SEC, [this] { learn(); round(); });
    }
    void close_round() {
        after(6 * SEC, [this] {
            learn();
            Client* c = add_client(g_vip);
            if (g_rng_plan.chance(1, 2)) op(c, mk(O_FLUSH, "", false)); else for (auto& k : keys) op(c, mk(O_DELETE, k, false));
            wait(c, 4 * SEC);
            c->start(g_now); done_clients = false;
        });
    }
    void add(const string& s) { if (s.size() >= 8 && seen.insert(s).second) { g_secrets.push_back(s); reach("secrets"); } }
    void learn() {
        for (auto& o : g_hist.ops) {
            const string& v = o->val;
            if (v.size() >= 24) { add(v.substr(0, 12)); add(v.substr(v.size() / 2 - 6, 12)); add(v.substr(v.size() - 12)); }
            else if (v.size() >= 12) add(v.substr(0, 12));
            if (o->got_num && o->rnum > 1000000000000ull) add(std::to_string(o->rnum));
        }
        g_secret_check = true;
    }
    void oracle() override { g_secret_check = false; check_linearizable(cls, co, h); }
};
SCENARIO(C18, "c18");

// C21: key dumps.
struct C21 : Scenario {
    Host* h = nullptr; CheckOpts co; std::set<string> universe;
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "dump";
        h = one(this);
        Conf c = conf();
        c["workers"] = std::to_string(1 + r.below(5));
        c["gc_interval"] = std::to_string(1 + r.below(4));
        static const char* bk[] = {"1", "3", "11", "101"};
        c["buckets"] = bk[r.below(4)];
        if (r.chance(1, 6)) { c["memory_limit"] = std::to_string(2000 + r.below(8000)); co.may_vanish = true; }
        start_node(h, c);
        Workload w = base_mix();
        w.mix.push_back({O_LOCK, 2}); w.mix.push_back({O_UNLOCK, 2});
        static const char* pre[] = {"a", "ab", "abc", "b", "a:", "\xc3\xa9"};
        u32 nk = 2 + r.below(30);
        for (u32 i = 0; i < nk; ++i) { string k = pre[r.below(6)]; if (!r.chance(1, 8)) k += std::to_string(r.below(40)); if (r.chance(1, 12)) k += string(200, 'y'); if (universe.insert(k).second) w.keys.push_back(k); }
        if (r.chance(1, 2)) { w.exp_pct = 30; w.exps = {0, 1, 2, 3, 5, 60}; }
        u32 nc = 1 + r.below(4);
        w.ops = 10 + r.below(100) / nc;
        w.wait_pct = r.below(50);
        static const u64 wm[] = {100 * US, 5 * MSEC, 100 * MSEC, 900 * MSEC};
        w.wait_max = wm[r.below(4)];
        for (u32 i = 0; i < nc; ++i) { Client* cl = add_client(g_vip); cl->window = 1 + r.below(6); gen(cl, w); cl->start(300 * MSEC + r.below(5 * MSEC)); }
        u32 nd = 1 + r.below(2);
        for (u32 i = 0; i < nd; ++i) {
            Client* cl = add_client(g_vip);
            cl->window = 1 + r.below(3);
            u32 n = 2 + r.below(8);
            for (u32 j = 0; j < n; ++j) { dump(cl); wait(cl, 1 + r.below(wm[r.below(4)])); if (r.chance(1, 6)) pause_reading(cl, 1 + r.below(SEC)); }
            cl->start(300 * MSEC + r.below(50 * MSEC));
        }
    }
    void dump(Client* cl) {
        Rng& r = g_rng_plan;
        static const char* pre[] = {"", "a", "ab", "abc", "abcd", "b", "a:", "\xc3", "a1", "ab2"};
        auto o = mk(O_KEYS, "", r.chance(1, 2));
        if (r.chance(1, 12)) { auto it = universe.begin(); std::advance(it, r.below(universe.size())); o->arg = *it; }
        else o->arg = pre[r.below(10)];
        op(cl, o);
    }
    int phase = 0;
    void clients_done() override {
        if (phase++ == 0) {
            Client* c = add_client(g_vip);
            wait(c, g_rng_plan.below(8 * SEC));
            for (int i = 0; i < 3; ++i) dump(c);
            for (auto& k : universe) op(c, mk(O_GET, k, false));
            done_clients = false; c->start(g_now);
            return;
        }
        end();
    }
    void oracle() override {
        std::vector<OpP> h0 = g_hist.ops;
        for (auto& d : h0) {
            if (d->k != O_KEYS || d->res != R_SUCC || d->resp_n == NEVER) continue;
            std::set<string> ks;
            reach("dumps-checked");
            for (auto& k : d->keys) {
                if (!ks.insert(k).second) { violate("dump", "key " + show(k) + " is listed twice: " + d->desc()); return; }
                if (!universe.count(k)) { violate("dump", "key " + show(k) + " was never stored: " + d->desc()); return; }
                if (k.compare(0, d->arg.size(), d->arg)) { violate("dump", "key " + show(k) + " does not begin with the prefix '" + show(d->arg) + "'"); return; }
            }
            for (auto& k : universe) {
                if (k.compare(0, d->arg.size(), d->arg)) continue;
                auto o = std::make_shared<Op>(*d);
                o->k = O_GET; o->bin = true; o->quiet = false; o->key = k; o->hits.clear(); o->keys.clear(); o->got_val = false; o->got_cas = false; o->arg.clear();
                o->res = ks.count(k) ? R_SUCC : R_NOTFOUND;
                g_hist.ops.push_back(o);
            }
        }
        std::sort(g_hist.ops.begin(), g_hist.ops.end(), [](const OpP& a, const OpP& b) { return a->inv_n < b->inv_n; });
        check_linearizable(cls, co, h);
        g_hist.ops.swap(h0);
    }
};
SCENARIO(C21, "c21");

} // namespace sim
