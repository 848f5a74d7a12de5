// Replication: convergence and fail-over.
#include "repl.hpp"

namespace sim {

// C08: replicas converge.
struct C08 : Repl {
    int phase = 0; Seen s1, s2, s3; u32 nslaves; u64 last_event = 0; bool flushes = false; bool second = false;
    void ev(u64 t, const string& what, std::function<void()> f) { last_event = std::max(last_event, t); timed(t, what, f); }
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "lin";
        nslaves = 1 + r.below(2);
        hosts(1 + nslaves);
        c = repl_conf();
        if (r.chance(1, 6)) { c["memory_limit"] = std::to_string(2 + r.below(8)) + "K"; c["gc_interval"] = "1"; lossy = true; }
        start_node(H[0], c);
        Workload w = mix();
        u32 nk = 2 + r.below(20);
        for (u32 i = 0; i < nk; ++i) w.keys.push_back("k" + std::to_string(i) + (r.chance(1, 8) ? string(200, 'x') : ""));
        if (r.chance(1, 2)) expiry(w);
        static const u32 bm[] = {500, 6000, 60000, 300000};
        w.big_max = bm[r.below(4)]; w.big_pct = w.big_max > 100000 ? 3 : 15;
        bool bulk = r.chance(1, 8);      // a slave falls behind by several replication buffers
        if (bulk) { w.big_max = 400000; w.big_pct = 50; c["repl_buffer_size"] = "6"; }
        if (r.chance(1, 3)) pick_net(r, true);
        fast_enough(w);
        w.wait_pct = 20 + r.below(60);
        static const u64 wm[] = {5 * MSEC, 100 * MSEC, 900 * MSEC};
        w.wait_max = wm[r.below(3)];
        u32 nc = 1 + r.below(4);
        w.ops = 8 + r.below(100) / nc;
        w.end_pct = r.chance(1, 4) ? 4 : 0; w.ends = {E_CLOSE, E_RESET, E_QUIT};
        for (u32 i = 0; i < nc; ++i) {
            Client* cl = add_client(g_vip);
            cl->window = r.chance(1, 2) ? 1 : 1 + r.below(8);
            gen2(cl, w);
            cl->start(300 * MSEC + r.below(r.chance(1, 2) ? 10 * SEC : 5 * MSEC));
        }
        if (r.chance(1, 4)) {
            flushes = true; lossy = true; co.may_vanish = co.revive = true;
            Client* f = add_client(g_vip);
            u32 n = 1 + r.below(2);
            for (u32 i = 0; i < n; ++i) { wait(f, 1 + r.below(5 * SEC)); auto o = mk(O_FLUSH, "", r.chance(1, 2)); if (r.chance(1, 2)) { o->has_exp = true; o->exp = 1 + r.below(3); } op(f, o); }
            f->start(350 * MSEC);
        }
        if (lossy) co.may_vanish = true;
        u32 starts = 1;
        for (u32 i = 1; i <= nslaves; ++i) {
            u64 t = r.chance(1, 3) ? r.below(300 * MSEC) : r.below(12 * SEC);
            last_event = std::max(last_event, t);
            at(t, [this, i] { start_node(H[i], c); }); ++starts;
            if (t > 500 * MSEC && r.chance(1, 3)) {      // the master is busy with long jobs when the slave joins
                u64 d = (1 + r.below(6)) * 500 * MSEC; u32 pts = 10 + r.below(150);
                last_event = std::max(last_event, t + 4 * SEC);
                timed(t - r.below(20 * MSEC), "stall-workers", [this, d, pts] { if (H[0]->cur->alive) for (Thread* x : H[0]->cur->threads) if (x != H[0]->cur->main && !x->finished) late_stall(x, pts, d); });
                u32 nb = 1 + r.below(2);
                for (u32 j = 0; j < nb; ++j) {
                    Client* b = add_client(g_vip);
                    Workload w2 = w; w2.ops = 30; w2.mix = {{O_SET, 30}, {O_APPEND, 4}, {O_GET, 3}, {O_DELETE, 4}}; w2.wait_pct = 5; w2.wait_max = 10 * MSEC; w2.end_pct = 0; w2.big_pct = 0;
                    b->window = 5 + r.below(20);
                    gen2(b, w2);
                    b->start(t - r.below(20 * MSEC));
                }
            }
            if (bulk && i == 1) {
                u64 t2 = t + 2500 * MSEC, d = 4 * SEC;
                Host* h = H[i];
                ev(t2 + d, "slow-slave", [h] { (void)h; });
                at(t2, [h, d] { if (h->cur && h->cur->alive) { h->cur->frozen_until = g_now + d; count_fault("slave-falls-behind"); } });
                Client* b = add_client(g_vip);
                Workload w2 = w; w2.ops = 16; w2.keys.resize(2); w2.mix = {{O_SET, 30}, {O_APPEND, 4}, {O_GET, 3}}; w2.big_pct = 80; w2.wait_pct = 30; w2.wait_max = 100 * MSEC; w2.exp_pct = 0; w2.end_pct = 0;
                gen2(b, w2);
                b->start(t2 + 300 * MSEC);
            }
            else if (r.chance(1, 3)) {
                u64 t2 = t + SEC + r.below(6 * SEC);
                Host* h = H[i];
                switch (r.below(4)) {
                case 0: if (starts < 5) { ++starts; last_event = std::max(last_event, t2 + 3 * SEC); bool pw = r.chance(1, 2);
                        u64 t3 = t2 + r.below(3 * SEC);
                        timed(t2, "kill-slave " + std::to_string(i), [this, h, pw, t3] { kill_node(h->cur, pw); at(t3, [this, h] { start_node(h, c); }); }); } break;
                case 1: { u64 d = 100 * MSEC + r.below(15 * SEC); last_event = std::max(last_event, t2 + d);
                        timed(t2, "cut-link " + std::to_string(i), [this, h, d] { cut_link(H[0]->ip, h->ip, true); after(d, [this, h] { cut_link(H[0]->ip, h->ip, false); }); }); } break;
                case 2: { u64 d = 100 * MSEC + r.below(15 * SEC); last_event = std::max(last_event, t2 + d);
                        timed(t2, "freeze-slave " + std::to_string(i), [h, d] { if (h->cur && h->cur->alive) h->cur->frozen_until = g_now + d; }); } break;
                case 3: ev(t2, "reset-link " + std::to_string(i), [h] { reset_conns(h, 11213); }); break;
                }
            }
        }
        second = nslaves == 2 && r.chance(1, 2);
        max_ns = 400 * SEC;
        hang_after = 45 * SEC;
    }
    void clients_done() override {
        switch (phase++) {
        case 0: { u64 t = std::max(g_now, last_event) + 32 * SEC; reader(t - g_now, &s1); break; }
        case 1:
            if (!answered(s1, "A")) return;
            if (quiet_for() < 10 * SEC && g_now < 300 * SEC) { --phase; reader(15 * SEC, &s1); return; }
            close_clients();
            after(g_rng_plan.below(2 * SEC), [this] { failover(0, 1); });
            reader(16 * SEC, &s2);
            break;
        case 2:
            if (!answered(s2, "B")) return;
            if (!second) { end(); break; }
            reach("second-failover");
            if (!H[0]->cur->alive && H[0]->incarnations.size() < 2 && g_rng_plan.chance(1, 2)) start_node(H[0], c);
            { size_t k = g_hist.clients.size(); after(30 * SEC, [this, k] { close_clients(k); failover(1, 2); }); }
            reader(48 * SEC, &s3);
            break;
        case 3: if (answered(s3, "C")) end(); break;
        }
    }
    void oracle() override {
        if (phase < 3) return;
        same(s1, s2, "first fail-over");
        if (!violated() && phase >= 4) same(s2, s3, "second fail-over");
        if (violated()) return;
        for (auto* s : {&s2, &s3}) for (auto& x : s->at) x.second->got_cas = false;     // not replicated
        for (auto& h : H) for (auto& n : h->incarnations) if (rep[n.get()].bad) { violate("replica", n->name + ": " + rep[n.get()].why); return; }
        check_linearizable(cls, co, H[0]);
    }
};
SCENARIO(C08, "c08");

// C09: fail-over at any instant.
struct C09 : Repl {
    int phase = 0; Seen s2, s3; u32 nslaves; u64 tkill = 0; size_t nops = 0; bool died = false;
    OpP dump; std::vector<Client*> priv;
    bool in_sync_before = false; bool second = false; bool thirdmatch = false;
    Node* bn = nullptr; Node* cnode = nullptr; u64 b_links0 = 0;
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "lin";
        nslaves = 1 + r.below(2);
        hosts(1 + nslaves);
        c = repl_conf();
        start_node(H[0], c);
        bool late = r.chance(1, 3);        // the slave is being filled when the master dies
        u64 w0 = late ? 300 * MSEC : 9 * SEC;
        u64 t1 = late ? r.below(8 * SEC) : r.below(300 * MSEC);
        at(t1, [this] { start_node(H[1], c); });
        if (nslaves == 2) at(r.below(late ? 10 * SEC : SEC), [this] { start_node(H[2], c); });
        Workload w = mix();
        u32 nk = 2 + r.below(12);
        for (u32 i = 0; i < nk; ++i) w.keys.push_back("k" + std::to_string(i));
        if (r.chance(1, 2)) expiry(w);
        static const u32 bm[] = {500, 6000, 60000, 300000};
        w.big_max = bm[r.below(4)]; w.big_pct = w.big_max > 100000 ? 8 : 20;
        if (r.chance(1, 2)) pick_net(r, true);
        fast_enough(w);
        w.wait_pct = r.below(60);
        static const u64 wm[] = {100 * US, 5 * MSEC, 100 * MSEC, 900 * MSEC};
        w.wait_max = wm[r.below(4)];
        u32 nc = 1 + r.below(3);
        w.ops = 300 / nc;
        for (u32 i = 0; i < nc; ++i) {
            Client* cl = add_client(g_vip);
            cl->window = r.chance(1, 2) ? 1 : 1 + r.below(8);
            gen2(cl, w);
            cl->start(w0 + r.below(5 * MSEC));
        }
        // clients with keys of their own: what survives of their commands is a prefix
        u32 np = r.below(3);
        for (u32 i = 0; i < np; ++i) {
            Client* cl = add_client(g_vip);
            Workload v = w; v.keys.clear(); v.exp_pct = 0; v.exps.clear(); v.num_pct = 0; v.cas_pct = 0;
            v.mix = {{O_SET, 40}, {O_ADD, 8}, {O_REPLACE, 8}, {O_APPEND, 14}, {O_PREPEND, 10}, {O_DELETE, 14}};
            u32 n = 1 + r.below(8);
            for (u32 j = 0; j < n; ++j) v.keys.push_back("p" + std::to_string(i) + "." + std::to_string(j));
            v.ops = 300; v.end_pct = 0;
            cl->window = 1 + r.below(16);
            gen2(cl, v);
            cl->start(w0 + r.below(5 * MSEC));
            priv.push_back(cl);
        }
        tkill = w0 + (late ? t1 : 0) + r.below(r.chance(1, 2) ? 200 * MSEC : 8 * SEC);
        if (r.chance(1, 3)) {             // the slave lags behind
            u64 t = tkill > 5 * SEC ? tkill - r.below(4 * SEC) : tkill;
            u32 who = 1 + r.below(nslaves);
            if (r.chance(1, 2)) timed(t, "cut-link " + std::to_string(who), [this, who] { cut_link(H[0]->ip, H[who]->ip, true); });
            else { u64 d = r.below(5 * SEC); timed(t, "freeze-slave " + std::to_string(who), [this, who, d] { auto n = H[who]->cur; if (n && n->alive) n->frozen_until = g_now + d; }); }
        }
        second = nslaves == 2 && r.chance(2, 3);
        at(w0 - 1, [this] { bn = H[1]->cur; in_sync_before = bn && H[0]->cur->log.find("Initial replication completed") != string::npos && g_now > 8 * SEC; b_links0 = bn ? rep[bn].links : 0; });
        at(tkill, [this] { die(); });
        max_ns = 400 * SEC;
        hang_after = 60 * SEC;
    }
    void die() {
        died = true;
        bn = H[1]->cur;
        nops = g_hist.ops.size();
        for (auto& cl : g_hist.clients) { cl->plan.resize(cl->pos); cl->finished = true; cl->waiting = false; }
        vip_lost[0] = true;
        bool pw = g_rng_plan.chance(1, 2);
        count_fault(pw ? "power-loss-master" : "kill-master");
        kill_node(H[0]->cur, pw);
        for (auto& cl : g_hist.clients) if (cl->s && cl->up) cl->do_end(E_CLOSE);
        u64 d = g_rng_plan.chance(1, 3) ? 0 : g_rng_plan.below(g_rng_plan.chance(1, 6) ? 20 * SEC : 3 * SEC);
        after(d, [] { set_vip(1); });
        after(d, [this] {
            if (phase) return;
            phase = 1;
            reader(26 * SEC, &s2);
            Client* k = g_hist.clients.back().get();
            dump = mk(O_KEYS, "", false); op(k, dump);
            done_clients = false;
        });
    }
    void clients_done() override {
        if (phase == 0) { if (died) done_clients = false; else done_clients = false; return; }
        if (phase == 1) {
            phase = 2;
            if (!answered(s2, "B")) return;
            if (second && H[2]->cur && H[2]->cur->alive) {
                phase = 3;
                cnode = H[2]->cur;
                if (!is_cut(H[1]->ip, H[2]->ip)) reach("second-failover");
                size_t k = g_hist.clients.size();
                after(20 * SEC, [this, k] { close_clients(k); kill_node(H[1]->cur, g_rng_plan.chance(1, 2)); vip_lost[1] = true; set_vip(2); });
                reader(40 * SEC, &s3);
                return;
            }
            end();
            return;
        }
        if (phase == 3) { if (!answered(s3, "C")) return; phase = 4; end(); }
    }
    void oracle() override {
        if (phase < 2 || !bn) return;
        matches(bn, s2);
        if (violated()) return;
        if (dump && dump->res == R_SUCC && rep[bn].links) {
            std::set<string> ks(dump->keys.begin(), dump->keys.end());
            for (auto& k : ks) if (!rep[bn].items.count(k)) { violate("replica", bn->name + " lists key " + show(k) + " which no record gave it"); return; }
        }
        if (phase == 4) { same(s2, s3, "after the second fail-over"); if (violated()) return; }
        // each value was one the key had on the old master
        CheckOpts g = co; g.may_vanish = true; g.revive = true;
        std::vector<OpP> all = g_hist.ops;
        std::vector<OpP> h(all.begin(), all.begin() + std::min(nops, all.size()));
        for (auto& x : s2.at) {
            string v; u32 f = 0;
            if (!hit(x.second, v, f)) continue;
            auto o = std::make_shared<Op>(*x.second);
            o->bin = true; o->res = R_SUCC; o->got_val = true; o->rval = v; o->rflags = f; o->hits.clear(); o->got_cas = false;
            o->inv_n = 0; o->inv_t = 0; o->resp_n = NEVER; o->resp_t = NEVER; o->conn = 1000000 + o->conn; 
            h.push_back(o);
        }
        g_hist.ops.swap(h);
        check_linearizable("replica", g, H[0]);
        g_hist.ops.swap(h);
        if (violated()) return;
        if (in_sync_before && rep[bn].links == b_links0 && b_links0 <= 1) prefix();
    }
    // The state of a client's own keys is the one after some prefix of its commands.
    void prefix() {
        reach("prefix-checked");
        for (auto* cl : priv) {
            std::map<string, std::pair<string, u32>> st, got;
            std::set<string> mine;
            std::vector<OpP> ops;
            for (size_t i = 0; i < nops; ++i) if (g_hist.ops[i]->client == cl->id && !g_hist.ops[i]->key.empty()) { ops.push_back(g_hist.ops[i]); mine.insert(g_hist.ops[i]->key); }
            if (ops.empty()) continue;
            bool part = false;
            for (auto& k : mine) { auto it = s2.at.find(k); if (it == s2.at.end() || dropped(it->second->id)) { part = true; break; } string v; u32 f; if (hit(it->second, v, f)) got[k] = {v, f}; }
            if (part) continue;
            bool ok = st == got;
            for (size_t i = 0; i < ops.size() && !ok; ++i) {
                auto& o = ops[i];
                bool ex = st.count(o->key);
                if (o->val.size() > max_data || o->res == R_INVALID || o->res == R_TOOLARGE) continue;
                switch (o->k) {
                case O_SET: st[o->key] = {o->val, o->flags}; break;
                case O_ADD: if (!ex) st[o->key] = {o->val, o->flags}; break;
                case O_REPLACE: if (ex) st[o->key] = {o->val, o->flags}; break;
                case O_APPEND: if (ex) st[o->key].first += o->val; break;
                case O_PREPEND: if (ex) st[o->key].first = o->val + st[o->key].first; break;
                case O_DELETE: st.erase(o->key); break;
                default: break;
                }
                ok = st == got;
            }
            if (!ok) {
                string m = "what survived of the commands of client " + std::to_string(cl->id) + " (" + std::to_string(ops.size()) + " commands on keys of its own) is not a prefix:";
                for (auto& k : mine) m += "\n  " + k + (got.count(k) ? " = '" + show(got[k].first) + "'" : " absent");
                m += "\n last commands:";
                for (size_t i = ops.size() > 10 ? ops.size() - 10 : 0; i < ops.size(); ++i) m += "\n  " + ops[i]->desc();
                violate("prefix", m);
                return;
            }
        }
    }
};
SCENARIO(C09, "c09");

} // namespace sim
