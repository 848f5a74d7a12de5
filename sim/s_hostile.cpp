// Arbitrary bytes on the client ports.
#include "counter.hpp"
#include "repl.hpp"

namespace sim {

struct C22 : Scenario {
    Host* h = nullptr; CheckOpts co; int phase = 0; std::vector<Client*> probes; u64 live0 = 0, sent = 0; bool flush = false, counters = false, huge = false; u32 maxdata = 0;
    struct Expect { Client* c; size_t from; string req; bool bin, cnt; };
    string be(u64 v, int n) { string s; while (n--) s += (char)(v >> (8 * n)); return s; }
    string binreq(u8 op, uint16_t kl, u8 el, u32 total, const string& body, u8 magic = 0x80) { return string() + (char)magic + (char)op + be(kl, 2) + (char)el + '\0' + be(0, 2) + be(total, 4) + be(0x01020304, 4) + be(0, 8) + body; }
    string word() {
        Rng& r = g_rng_plan;
        static const char* w[] = {"get", "gets", "set", "add", "replace", "append", "prepend", "cas", "incr", "decr", "touch", "delete", "lock", "unlock", "unlock_all", "keys", "stats", "version", "verbosity", "slabs", "quit", "x0", "x1", "x2", "xyz", "0", "1", "5", "-1", "18446744073709551615", "18446744073709551616", "4294967296", "99999999999999999999999", "2147483648", "noreply", "noreply ", "", "items", "settings", "sizes", "ops", "1.5", "0x10", "+3", "reassign"};
        u32 k = r.below(48);
        if (k < 43) return w[k];
        if (k == 43) return string(r.below(400), 'x');
        if (k == 44) return string(1, (char)r.below(256));
        if (k == 45) return string("x0\0a", 4);
        return "x" + std::to_string(r.below(3));
    }
    string text_line() {
        Rng& r = g_rng_plan; string s; u32 n = r.below(8);
        for (u32 i = 0; i < n; ++i) { if (i) s += r.chance(1, 12) ? "  " : r.chance(1, 30) ? "\t" : " "; s += word(); }
        u32 e = r.below(12);
        s += e == 0 ? "\n" : e == 1 ? "\r" : e == 2 ? "\r\r\n" : "\r\n";
        return s;
    }
    string valid() {
        Rng& r = g_rng_plan;
        Workload w; w.keys = {"x0", "x1", "x2"};
        w.mix = {{O_GET, 10}, {O_SET, 10}, {O_ADD, 5}, {O_REPLACE, 5}, {O_CAS, 5}, {O_APPEND, 5}, {O_PREPEND, 5}, {O_INCR, 5}, {O_DECR, 5}, {O_DELETE, 5}, {O_TOUCH, 5}, {O_GAT, 5}, {O_LOCK, 4}, {O_UNLOCK, 4}, {O_LAG, 3}, {O_RAU, 3}, {O_NOOP, 2}};
        w.exp_pct = 20; w.exps = {0, 1, -1, 100, 4294967295ll};
        auto o = rand_op(r, nullptr_client(), w);
        o->split = 0;
        return encode(*o);
    }
    Client* nullptr_client() { if (!dummy) { dummy = std::make_unique<Client>(); dummy->id = 99; } return dummy.get(); }
    std::unique_ptr<Client> dummy;
    string counter_msg() {
        Rng& r = g_rng_plan;
        static const u8 ops[] = {0, 1, 2, 3, 0x10, 0x11, 4, 0xff, 0x20};
        string name(r.below(5), 'n'); string b;
        u8 op = ops[r.below(9)];
        if (op == 1) b = be(name.size(), 2) + name;
        else if (op == 2) b = be(r.chance(1, 3) ? r.next() : r.below(5), 4) + be(r.chance(1, 3) ? r.next() : 5, 4) + be(name.size(), 2) + name;
        else if (op == 3) b = be(r.below(5), 4) + be(name.size(), 2) + name;
        if (r.chance(1, 3)) b = b.substr(0, r.below(b.size() + 1));
        if (r.chance(1, 6)) b += string(r.below(40), 'z');
        u32 len = r.chance(1, 12) ? r.next() : b.size();
        if (r.chance(1, 8)) return bad_counter();
        return string() + (char)(r.chance(1, 20) ? r.below(256) : 0x90) + (char)op + (char)(r.chance(1, 8) ? r.below(256) : 0) + '\0' + be(len, 4) + be(r.next(), 4) + b;
    }
    // a length that does not agree with what there is
    u32 odd_len(u32 have) {
        Rng& r = g_rng_plan;
        switch (r.below(5)) { case 0: return have + 1; case 1: return have + 1 + r.below(30); case 2: return 65535 - r.below(40); case 3: return 32768 + r.below(32768); default: return std::max<u32>(have + 1, 256 * (1 + r.below(255)) + r.below(8)); }
    }
    // malformed requests that must be refused
    string bad_counter() {
        Rng& r = g_rng_plan;
        u8 op = 1 + r.below(3); string name(1 + r.below(6), 'n'), b; u32 nl = r.chance(1, 6) ? 0 : odd_len(name.size());
        b = be(nl, 2) + name;
        if (op == 2) { u32 k = r.below(6); b = be(k == 0 ? 0 : 1 + r.below(5), 4) + be(k == 1 ? 0 : 5, 4) + (k < 2 ? be(name.size(), 2) + name : b); }
        if (op == 3) b = be(r.below(5), 4) + b;
        if (r.chance(1, 8)) b = b.substr(0, r.below(op == 1 ? 2 : op == 2 ? 10 : 6));
        return string() + (char)0x90 + (char)op + be(0, 2) + be(b.size(), 4) + be(0x01020304, 4) + b;
    }
    string bad_bin() {
        Rng& r = g_rng_plan;
        static const u8 ops[] = {0, 1, 2, 3, 4, 5, 6, 9, 0xc, 0xd, 0xe, 0xf, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x19, 0x1a, 0x1c, 0x1d, 0x1e, 0x23, 0x24, 0x40, 0x41, 0x42, 0x43, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b};
        u8 op = ops[r.below(sizeof ops)], el = 0;
        switch (op) { case 1: case 2: case 3: case 0x11: case 0x12: case 0x13: case 0x4a: case 0x4b: el = 8; break; case 5: case 6: case 0x15: case 0x16: el = 20; break; case 0x1c: case 0x1d: case 0x1e: case 0x23: case 0x24: el = 4; break; }
        string b = be(1, std::min<int>(el, 8)) + string(el > 8 ? el - 8 : 0, '\0') + "x0" + string(r.below(4), 'v');
        u32 have = b.size() - el, kl = odd_len(have), e2 = el;
        if (r.chance(1, 6)) kl = 0;
        else if (el && r.chance(1, 6)) { kl = 2; e2 = b.size() - 1 + r.below(20); if (e2 == el) ++e2; }
        return binreq(op, kl, e2, b.size(), b);
    }
    string attack(bool cnt) {
        Rng& r = g_rng_plan; string s;
        u32 n = 1 + r.below(6);
        for (u32 i = 0; i < n; ++i) {
            u32 k = r.below(10);
            if (cnt) {
                if (k < 7) s += counter_msg(); else { string q; u32 m = 1 + r.below(80); while (q.size() < m) q += (char)r.next(); s += q; }
                continue;
            }
            if (k == 0) { u32 m = 1 + r.below(600); while (m--) s += (char)r.next(); }
            else if (k < 4) s += text_line();
            else if (k < 6) { string v = valid(); u32 m = 1 + r.below(3); while (m-- && !v.empty()) { size_t p = r.below(v.size()); switch (r.below(5)) { case 0: v[p] = (char)(v[p] ^ (1 << r.below(8))); break; case 1: v.insert(p, 1, (char)r.next()); break; case 2: v.erase(p, 1 + r.below(3)); break; case 3: v = v.substr(0, p); break; case 4: v[p] = (char)r.next(); break; } } s += v; }
            else if (k < 9) {
                string b; u32 m = r.below(60); while (b.size() < m) b += (char)(r.chance(1, 2) ? 'x' : r.next());
                u32 tot = r.chance(3, 4) ? b.size() : r.chance(1, 2) ? r.below(100) : (u32)r.next();
                u8 op; do op = r.chance(4, 5) ? r.below(0x60) : r.next(); while (op == 8 || op == 0x18);
                s += binreq(op, r.chance(3, 4) ? r.below(b.size() + 1) : r.chance(1, 2) ? odd_len(b.size()) : r.next(), r.chance(3, 4) ? (u8[]){0, 4, 8, 20}[r.below(4)] : r.next(), tot, b, r.chance(1, 20) ? r.next() : 0x80);
            } else s += valid();
        }
        if (s.find("flush") != string::npos || s.find("\x80\x08") != string::npos || s.find("\x80\x18") != string::npos) flush = true;
        return s;
    }
    void raw(Client* c, const string& b) {
        Rng& r = g_rng_plan;
        auto o = mk(O_RAW, "", false); o->arg = b; o->raw_replies = true;
        if (b.size() > 1 && r.chance(1, 2)) { o->split = 0.01 + r.below(98) / 100.0; o->split_delay = 1 + r.below(30 * MSEC); }
        sent += b.size();
        op(c, o);
    }
    void setup() override {
        Rng& r = g_rng_plan;
        cls = "lin";
        h = master();
        Conf c = conf();
        c["workers"] = std::to_string(1 + r.below(4));
        c["gc_interval"] = std::to_string(1 + r.below(4));
        c["heap_data_limit"] = "4096"; co.heap_limit = 4096;
        maxdata = r.chance(1, 2) ? 5000 : 20000;
        c["max_data_size"] = std::to_string(maxdata);
        counters = r.chance(1, 3);
        if (counters) { c["counter.enable"] = "true"; c["counter.port"] = "11215"; c["counter.max_connections"] = "0"; c["counter.buckets"] = "11"; }
        start_node(h, c);
        g_net.seg = std::max<u32>(g_net.seg, 300); g_net.small_seg = std::min<u32>(g_net.small_seg, 60);
        at(250 * MSEC, [this] { live0 = g_arena_live; });
        u32 na = 1 + r.below(4);
        for (u32 i = 0; i < na; ++i) {
            bool cnt = counters && r.chance(1, 2);
            Client* a = add_client(g_vip, cnt ? 11215 : 11211);
            a->raw_mode = true; a->window = 100; a->max_reconnect = 100000; a->reconnect_delay = 5 * MSEC;
            u32 n = 1 + r.below(8);
            for (u32 j = 0; j < n; ++j) {
                raw(a, attack(cnt));
                if (r.chance(1, 2)) wait(a, 1 + r.below(r.chance(1, 5) ? SEC : 20 * MSEC));
                if (r.chance(1, 3)) { static const EndK e[] = {E_CLOSE, E_RESET, E_FIN, E_CLOSE}; endc(a, e[r.below(4)]); }
            }
            wait(a, 1 + r.below(2 * SEC));
            endc(a, r.chance(1, 2) ? E_CLOSE : E_RESET);
            a->start(300 * MSEC + r.below(20 * MSEC));
        }
        if (r.chance(1, 50)) {       // a request without an end
            huge = pinned = true;
            g_net.seg = 1 << 20; g_net.small_seg = 0; g_net.sndbuf = g_net.rcvbuf = 4 << 20; g_net.jitter = 0;
            Client* a = add_client(g_vip, 11211);
            a->raw_mode = true; a->window = 100; a->auto_reconnect = false;
            u32 kind = r.below(3);
            string head = kind == 0 ? string("get ") : kind == 1 ? string("set x0 0 0 4294967295\r\n") : binreq(1, 2, 8, 0xfffffff0u, be(0, 8) + "x0");
            u32 chunks = 34;
            { auto o = mk(O_RAW, "", false); o->arg = head; op(a, o); }
            for (u32 i = 0; i < chunks; ++i) { auto o = mk(O_RAW, "", false); o->arg = string(1 << 20, 'y'); op(a, o); wait(a, 20 * MSEC); }
            wait(a, 3 * SEC);
            call(a, [this, a, kind] {
                // refused, or at least not kept
                if (a->s && a->up && a->raw_in.empty()) violate("growth", "a request of 34 MiB was neither refused nor was its connection closed (kind " + std::to_string(kind) + ")");
                if (g_arena_live > live0 + (150ull << 20)) violate("growth", "the server holds " + std::to_string(g_arena_live - live0) + " bytes for one request");
            });
            endc(a, E_CLOSE);
            a->start(400 * MSEC);
            pinned = false;
        }
        // somebody else
        u32 nv = 1 + r.below(2);
        for (u32 i = 0; i < nv; ++i) {
            Client* v = add_client(g_vip);
            Workload w;
            w.mix = {{O_GET, 22}, {O_SET, 16}, {O_ADD, 6}, {O_REPLACE, 5}, {O_CAS, 8}, {O_APPEND, 7}, {O_PREPEND, 7}, {O_INCR, 8}, {O_DECR, 5}, {O_DELETE, 8}, {O_LOCK, 3}, {O_UNLOCK, 3}};
            w.keys = {"k0", "k1"}; w.ops = 10 + r.below(30); w.wait_pct = 60; w.wait_max = 100 * MSEC; w.max_data = maxdata; w.big_max = 4500;
            v->window = 1 + r.below(3);
            gen(v, w);
            v->start(300 * MSEC + r.below(20 * MSEC));
        }
        max_ns = 200 * SEC;
    }
    std::vector<Expect> ex;
    void table() {
        Rng& r = g_rng_plan;
        string big(maxdata + 1, 'B');
        std::vector<string> t = {"foo\r\n", "get\r\n", "gets\r\n", "set x0\r\n", "set x0 0\r\n", "set x0 0 0\r\n", "set x0 0 0 abc\r\n", "set x0 z 0 3\r\nabc\r\n", "set " + string(251, 'x') + " 0 0 1\r\nq\r\n", "add x0 0 0\r\n",
            "incr x0\r\n", "incr x0 abc\r\n", "decr x0 -\r\n", "cas x0 0 0 1\r\n", "touch x0\r\n", "touch\r\n", "delete\r\n", "lock\r\n", "unlock\r\n", "\r\n", "GET x0\r\n", "set x0 4294967296000 0 1\r\nq\r\n", "set x0 0 0 " + std::to_string(maxdata + 1) + "\r\n" + big + "\r\n", "cas x0 0 0 " + std::to_string(maxdata + 1) + " 5\r\n" + big + "\r\n"};
        std::vector<string> b = {binreq(0x60, 0, 0, 0, ""), binreq(0, 2, 3, 5, "abcx0"), binreq(0, 0, 0, 0, ""), binreq(1, 2, 0, 2, "x0"), binreq(1, 2, 8, 10, be(0, 8) + "x0"), binreq(1, 200, 8, 11, be(0, 8) + "x0v"), binreq(5, 2, 8, 10, be(1, 8) + "x0"), binreq(5, 0, 20, 20, be(1, 8) + be(1, 8) + be(0, 4)), binreq(4, 0, 0, 0, ""), binreq(0x1c, 2, 0, 2, "x0"), binreq(0x0e, 2, 4, 7, be(0, 4) + "x0v"), binreq(0x0e, 2, 0, 2, "x0"),
            binreq(1, 2, 8, maxdata + 11, be(0, 8) + "x0" + big), binreq(0x11, 2, 8, maxdata + 11, be(0, 8) + "x0" + big).replace(1, 1, 1, (char)2), binreq(0, 300, 0, 300, string(300, 'x')), binreq(0, 2, 0, 1, "x")};
        pinned = true;
        for (int i = 0; i < 5; ++i) {
            bool bin = r.chance(1, 2);
            Client* c = add_client(g_vip); c->raw_mode = true; c->window = 100; c->auto_reconnect = false;
            string q = bin ? (r.chance(1, 2) ? bad_bin() : r.pick(b)) : r.pick(t);
            raw(c, q);
            wait(c, 2 * SEC);
            auto rep = std::make_shared<string>();
            call(c, [this, c, q, bin, rep] {
                *rep = c->raw_in;
                if (!c->s || !c->up) return;
                string why;
                if (bin) { if (c->raw_in.size() < 24 || (u8)c->raw_in[0] != 0x81 || (!c->raw_in[6] && !c->raw_in[7])) why = "no error"; }
                else if (c->raw_in.find("ERROR") == string::npos) why = "no error";
                if (!why.empty()) violate("malformed", "request '" + show(q, 80) + "' got '" + show(c->raw_in, 80) + "'");
            });
            auto o = mk(O_RAW, "", false); o->arg = bin ? binreq(0x0a, 0, 0, 0, "") : "version\r\n"; op(c, o);
            wait(c, 2 * SEC);
            call(c, [this, c, q, bin, rep] {
                if (!c->s || !c->up) return;
                string in = c->raw_in.substr(std::min(rep->size(), c->raw_in.size()));
                if (bin ? in.size() < 24 || (u8)in[in.size() - 23] != 0x0a || in[in.size() - 17] != 0 : in.find("VERSION ") == string::npos)
                    violate("malformed", "after request '" + show(q, 80) + "', which got '" + show(*rep, 80) + "', the next command got '" + show(in, 80) + "'");
                reach("malformed-checked");
            });
            endc(c, E_CLOSE);
            c->start(g_now + r.below(20 * MSEC));
        }
        for (int i = 0; counters && i < 4; ++i) {
            Client* c = add_client(g_vip, 11215); c->raw_mode = true; c->window = 100; c->auto_reconnect = false;
            string q = bad_counter(), noop = string("\x90\0\0\0", 4) + be(0, 4) + "noop";
            raw(c, q);
            wait(c, SEC);
            auto o = mk(O_RAW, "", false); o->arg = noop; op(c, o);
            wait(c, 2 * SEC);
            call(c, [this, c, q, noop] {
                if (!c->s || !c->up) return;
                const string& in = c->raw_in;
                u32 bl = in.size() < 12 ? 0 : be32(in.data() + 4);
                if (in.size() < 12 || (u8)in[0] != 0x91 || in[2] == 0 || in.compare(8, 4, be(0x01020304, 4)))
                    violate("malformed", "counter request '" + show(q, 80) + "' got '" + show(in, 80) + "'");
                else if (in.size() != 12 + bl + 12 || (u8)in[12 + bl + 1] != 0 || in[12 + bl + 2] != 0 || in.compare(12 + bl + 8, 4, "noop"))
                    violate("malformed", "after counter request '" + show(q, 80) + "' a no-op got '" + show(in.substr(std::min<size_t>(in.size(), 12 + bl)), 80) + "'");
                reach("malformed-counter-checked");
            });
            endc(c, E_CLOSE);
            c->start(g_now + r.below(20 * MSEC));
        }
        pinned = false;
    }
    void clients_done() override {
        switch (phase++) {
        case 0: table(); done_clients = false; break;
        case 1: {
            for (auto& c : g_hist.clients) if (c->s && c->up) c->do_end(E_CLOSE);
            Client* c = add_client(g_vip);
            wait(c, 8 * SEC);
            for (const char* k : {"k0", "k1"}) op(c, mk(O_GET, k, false));
            call(c, [this] {
                u64 grown = g_arena_live > live0 ? g_arena_live - live0 : 0, may = (40ull << 20) + 4 * sent;
                if (grown > may) violate("growth", "the server holds " + std::to_string(grown) + " bytes more than at start, after " + std::to_string(sent) + " bytes of requests");
            });
            done_clients = false; c->start(g_now);
            break;
        }
        default: end();
        }
    }
    void oracle() override {
        if (flush) co.may_vanish = co.revive = true; else reach("victims-strict");
        check_linearizable(cls, co, h, [](const Op& o) { return o.key.empty() || o.key[0] == 'k'; });
    }
};
SCENARIO(C22, "c22");

} // namespace sim
