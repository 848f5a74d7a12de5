// Scenarios on the resource counters.
#include "counter.hpp"
#include <algorithm>
#include <unordered_set>

namespace sim {

CntHist g_cnt;
static const char* const cop_names[] = {"noop", "get", "acquire", "release", "stats", "dump", "end"};
static const char* const cst_names[] = {"pending", "ok", "notfound", "invalid", "notavailable", "notacquired", "unknown"};
static void be(string& s, u64 v, int n) { for (int i = n - 1; i >= 0; --i) s += (char)(v >> (8 * i)); }
static u64 rbe(const char* p, int n) { u64 v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (u8)p[i]; return v; }

string COp::desc() const {
    char b[200];
    snprintf(b, sizeof b, "%s %s %u/%u [conn %d sent %.6f", cop_names[k], show(name, 20).c_str(), res, max, conn, inv_t / 1e9);
    string d = b;
    if (resp_t != NEVER) { snprintf(b, sizeof b, " reply %.6f", resp_t / 1e9); d += b; }
    d += string("] ") + cst_names[st];
    if (k == K_GET && st == CS_OK) d += " " + std::to_string(val);
    for (auto& e : list) d += " {" + show(e.name, 20) + " " + std::to_string(e.cons) + " peak " + std::to_string(e.peak) + "}";
    return d;
}

CClient* add_cclient() {
    auto c = std::make_unique<CClient>();
    c->id = g_cnt.clients.size(); c->ip = 0x0a020001 + c->id;
    g_cnt.clients.push_back(std::move(c));
    return g_cnt.clients.back().get();
}
bool cclients_done() { for (auto& c : g_cnt.clients) if (!c->finished) return false; return true; }
string cclients_state() {
    string r;
    for (auto& c : g_cnt.clients) if (!c->finished) r += "counter client " + std::to_string(c->id) + " step " + std::to_string(c->pos) + "/" + std::to_string(c->plan.size()) + (c->up ? " connected" : "") + (c->waiting ? " waiting" : "") + " outstanding " + std::to_string(c->out.size()) + (c->out.empty() ? "" : ", first: " + c->out.front()->desc()) + "\n";
    return r;
}
void CClient::start(u64 t) { at(t, [this] { started = true; last_progress = g_now; pump(); }); }
void CClient::on_connected(bool ok, int) {
    last_progress = g_now;
    if (!s) return;
    if (!ok) {
        g_cnt.conns[conn].ended = true; g_cnt.conns[conn].end_t = g_now; g_cnt.conns[conn].end_n = ++g_cnt.n;
        s = nullptr; waiting = true;
        if (++failures > 100) { finished = true; return; }
        after(20 * MSEC, [this] { waiting = false; pump(); });
        return;
    }
    failures = 0; up = true; pump();
}
void CClient::pump() {
    if (finished || waiting || !started || (s && !up) || provoked) return;
    string batch;
    auto flush = [&] { if (!batch.empty() && s) ext_send(s, batch); batch.clear(); };
    while (true) {
        if (pos >= plan.size()) { flush(); if (out.empty() || !s) finished = true; return; }
        CStep& st = plan[pos];
        if (g_cfg.drop.count(st.id)) { ++pos; continue; }
        last_progress = g_now;
        if (st.k == ST_OP) {
            if (!s) {
                CConn r; r.client = id; conn = g_cnt.conns.size(); g_cnt.conns.push_back(r);
                in.clear(); up = false;
                s = ext_connect(this, ip, g_vip, 11215);
                return;
            }
            if (out.size() >= window) break;
            if (splitting) break;
            ++pos;
            auto& o = st.op;
            o->conn = conn; o->order = ++order; o->opaque = 0x20000u * (id + 1) + order; o->inv_t = g_now; o->inv_n = ++g_cnt.n;
            string body; u8 oc = 0;
            switch (o->k) {
            case K_NOOP: oc = 0; break;
            case K_GET: oc = 1; be(body, o->name.size(), 2); body += o->name; break;
            case K_ACQ: oc = 2; be(body, o->res, 4); be(body, o->max, 4); be(body, o->name.size(), 2); body += o->name; break;
            case K_REL: oc = 3; be(body, o->res, 4); be(body, o->name.size(), 2); body += o->name; break;
            case K_STATS: oc = 0x10; break;
            default: oc = 0x11; break;
            }
            o->opcode = oc;
            string m; m += (char)0x90; m += (char)oc; m += '\0'; m += '\0'; be(m, body.size(), 4); be(m, o->opaque, 4);
            m += body;
            g_cnt.ops.push_back(o); out.push_back(o);
            logf("counter client %d conn %d -> %s", id, conn, o->desc().c_str());
            if (o->split) {
                size_t cut = 1 + o->split % (m.size() - 1);
                batch += m.substr(0, cut); flush();
                splitting = true; string rest = m.substr(cut); u32 tk = ++split_tok;
                after(o->split_delay, [this, rest, tk] { if (tk != split_tok) return; splitting = false; if (s) ext_send(s, rest); pump(); });
                return;
            }
            batch += m;
        } else if (st.k == ST_WAIT) {
            ++pos; flush();
            waiting = true;
            after(st.ns, [this] { waiting = false; pump(); });
            return;
        } else if (st.k == ST_CALL) {
            ++pos; flush();
            st.call();
        } else if (st.k == ST_END) {
            if (st.end == E_BY_SERVER && splitting) break;
            ++pos; flush();
            if (s) { end(st.end); return; }
        } else ++pos;
    }
    flush();
}
namespace {
struct Sink : ExtHandler {
    SockP s;
    void on_connected(bool, int) override {}
    void on_data() override { if (s) while (!ext_recv(s, 1 << 20).empty()) {} }
    void on_eof() override { if (s) ext_close(s); s = nullptr; }
    void on_reset() override { s = nullptr; }
};
std::vector<std::unique_ptr<Sink>> g_sinks;
}
void CClient::end(EndK e) {
    logf("counter client %d conn %d: %s", id, conn, end_names[e]);
    auto& r = g_cnt.conns[conn];
    if (e == E_BY_SERVER && !r.ended) {      // provoke a close by the server: a request too large
        string m; m += (char)0x90; m += (char)1; m += '\0'; m += '\0'; be(m, 40u << 20, 4); be(m, 0, 4);
        m += string((31u << 20), 'x');
        ext_send(s, m);
        provoked = true; r.prov_n = ++g_cnt.n; r.prov_t = g_now;
        last_progress = g_now;
        return;                              // goes on when it is closed
    }
    if (!r.ended) { r.ended = true; r.end_t = g_now; r.end_n = ++g_cnt.n; r.how = e; r.busy = !out.empty(); }
    SockP old = s;
    s = nullptr; up = false; out.clear(); in.clear(); splitting = false; ++split_tok; provoked = false;
    if (e == E_FIN) { auto k = std::make_unique<Sink>(); k->s = old; old->ext = k.get(); g_sinks.push_back(std::move(k)); ext_shutdown(old); }
    else {
        old->ext = nullptr;
        if (e == E_RESET) ext_reset(old); else if (e == E_VANISH) ext_vanish(old); else ext_close(old);
    }
    conn = -1;
    last_progress = g_now;
    if (waiting) return;
    waiting = true;
    after(reconnect_delay, [this] { waiting = false; pump(); });
}
void CClient::on_data() {
    if (!s) return;
    while (true) { string d = ext_recv(s, 1 << 20); if (d.empty()) break; in += d; }
    last_progress = g_now;
    while (s && parse_one()) {}
    if (s) pump();
}
void CClient::on_eof() { if (s) on_data(); if (s) { logf("counter client %d conn %d: closed by the server", id, conn); gone(); } }
void CClient::on_reset() { if (s) gone(); }
void CClient::gone() {
    if (!provoked && !may_be_closed) { bad("the server closed the connection"); return; }
    auto& r = g_cnt.conns[conn];
    r.ended = true; r.end_t = g_now; r.end_n = ++g_cnt.n; r.how = E_BY_SERVER;
    end(E_CLOSE);
}
void CClient::bad(const string& why) {
    string m = why + "; counter client " + std::to_string(id) + " received '" + show(in, 120) + "'";
    int i = 0;
    for (auto& o : out) { m += "\n  outstanding: " + o->desc(); if (++i == 6) break; }
    violate("reply", m);
}
bool CClient::parse_one() {
    if (in.size() < 12) return false;
    if ((u8)in[0] != 0x91) { bad("not a response"); return false; }
    u32 bl = rbe(&in[4], 4), opq = rbe(&in[8], 4); u8 st = in[2];
    if (out.empty() || out.front()->opaque != opq) { bad("a reply to no command"); return false; }
    auto o = out.front();
    if ((u8)in[1] != o->opcode || in[3] != 0) { bad("opcode or reserved field differs"); return false; }
    if (bl > (1u << 20)) { bad("impossible length"); return false; }
    if (in.size() < 12 + bl) return false;
    string body = in.substr(12, bl);
    bool more = false;
    if (st == 0) {
        if (o->k == K_GET || o->k == K_ACQ) {
            if (bl != 4) { bad("bad body"); return false; }
            o->val = rbe(body.data(), 4);
            if (o->k == K_ACQ && o->val != o->res) { bad("granted a number other than the requested one"); return false; }
        } else if (o->k == K_DUMP && bl) {
            if (bl < 10 || rbe(&body[8], 2) != bl - 10) { bad("bad dump entry"); return false; }
            COp::Ent e; e.cons = rbe(&body[0], 4); e.peak = rbe(&body[4], 4); e.name = body.substr(10);
            for (auto& x : o->list) if (x.name == e.name) { bad("a name is listed twice"); return false; }
            o->list.push_back(e);
            more = true;
        } else if (o->k == K_STATS) {
            size_t p = 0;
            while (p + 4 <= body.size()) { size_t a = rbe(&body[p], 2), b = rbe(&body[p + 2], 2); p += 4; if (p + a + b > body.size()) break; o->stats[body.substr(p, a)] = body.substr(p + a, b); p += a + b; }
            if (p != body.size()) { bad("bad statistics"); return false; }
        } else if (bl) { bad("unexpected body"); return false; }
    }
    in.erase(0, 12 + bl);
    if (more) return true;
    switch (st) {
    case 0: o->st = CS_OK; break; case 1: o->st = CS_NOTFOUND; break; case 4: o->st = CS_INVALID; break;
    case 0x21: o->st = CS_NOTAVAIL; break; case 0x22: o->st = CS_NOTACQ; break; case 0x81: o->st = CS_UNKNOWN; break;
    default: bad("unknown status"); return false;
    }
    o->resp_t = g_now; o->resp_n = ++g_cnt.n;
    out.pop_front();
    ++g_hist.ops_done; trace(o->opaque * 7 + o->st); note(o->opaque * 7 + o->st + ((u64)o->val << 40));
    g_hist.n++;
    logf("counter client %d conn %d <- %s", id, conn, o->desc().c_str());
    return true;
}

// ------------------------------------------------------------ the reference model
namespace {
struct CSt { std::map<int, u32> held; u64 cons = 0; bool ex = false; u64 peak = 0; i64 lu = 0, cur = 0; };
struct NOp { CK k; int conn; int order; u64 inv_n, resp_n; CS st; u32 res = 0, max = 0, val = 0; u64 peak = 0; bool listed = false; i64 lo, hi; string desc; };
struct NCheck {
    std::vector<NOp> ops; i64 iv = 1; size_t n = 0, left = 0; std::vector<u64> done; std::unordered_set<string> memo; size_t states = 0, max_states = 300000; bool overflow = false;
    std::map<int, std::vector<int>> byconn; std::vector<int> cur, best; CSt best_st;
    bool is(size_t i) const { return done[i / 64] >> (i % 64) & 1; }
    void prepare() {
        n = left = ops.size(); done.assign((n + 63) / 64, 0);
        for (size_t i = 0; i < n; ++i) byconn[ops[i].conn].push_back(i);
        for (auto& c : byconn) std::sort(c.second.begin(), c.second.end(), [&](int a, int b) { return ops[a].order < ops[b].order; });
    }
    void step(const CSt& s0, const NOp& o, std::vector<CSt>& outv) {
        for (i64 t = std::max(s0.cur, o.lo / iv); t <= std::max(s0.cur, o.hi / iv); ++t) {
            CSt s = s0; s.cur = t;
            auto gone_ok = [&] { return !s.ex || (s.cons == 0 && s.lu < t); };
            auto drop = [&] { s.ex = false; s.cons = 0; s.peak = 0; };
            bool pend = o.st == CS_PENDING;
            auto has = [&] { return s.ex; };
            switch (o.k) {
            case K_GET:
                if (pend) { outv.push_back(s); break; }
                if (o.st == CS_NOTFOUND) { if (gone_ok()) { drop(); outv.push_back(s); } }
                else if (o.st == CS_OK && has() && s.cons == o.val) outv.push_back(s);
                break;
            case K_ACQ: {
                bool fits = s.cons + o.res <= o.max;
                if (!pend && o.st != (fits ? CS_OK : CS_NOTAVAIL)) break;
                if (fits) {
                    u64 c = s.cons + o.res;
                    s.peak = (!s.ex || s.lu < t) ? c : std::max(s.peak, c);
                    s.lu = t; s.ex = true; s.cons = c; s.held[o.conn] += o.res;
                }
                outv.push_back(s);
                break;
            }
            case K_REL: {
                u32 h = s.held.count(o.conn) ? s.held[o.conn] : 0;
                bool ok = h > 0 && o.res <= h;
                if (!pend) {
                    if (o.st == CS_NOTFOUND) { if (!gone_ok()) break; drop(); outv.push_back(s); break; }
                    if (o.st == CS_NOTACQ) { if (!has() || ok) break; outv.push_back(s); break; }
                    if (o.st != CS_OK || !ok) break;
                }
                if (ok) {
                    if (s.lu < t) s.peak = s.cons;
                    s.lu = t; s.cons -= o.res;
                    if (h == o.res) s.held.erase(o.conn); else s.held[o.conn] = h - o.res;
                }
                outv.push_back(s);
                break;
            }
            case K_DUMP:
                if (pend) { outv.push_back(s); break; }
                if (!o.listed) { if (gone_ok()) { drop(); outv.push_back(s); } break; }
                if (!has() || s.cons != o.val) break;
                if (o.peak != (s.lu < t ? s.cons : s.peak)) break;
                outv.push_back(s);
                break;
            default: {   // end of the connection
                u32 h = s.held.count(o.conn) ? s.held[o.conn] : 0;
                if (h) { if (s.lu < t) s.peak = s.cons; s.lu = t; s.cons -= h; s.held.erase(o.conn); outv.push_back(s); }
                else { CSt x = s0; outv.push_back(x); return; }
            } }
        }
    }
    bool dfs(const CSt& st) {
        if (left == 0) return true;
        if (++states > max_states) { overflow = true; return true; }
        string k((const char*)done.data(), done.size() * 8);
        for (auto& h : st.held) { k.append((const char*)&h.first, 4); k.append((const char*)&h.second, 4); }
        k += st.ex ? 'e' : '-';
        k.append((const char*)&st.peak, 8); k.append((const char*)&st.lu, 8); k.append((const char*)&st.cur, 8);
        if (!memo.insert(k).second) return false;
        if (cur.size() >= best.size()) { best = cur; best_st = st; }
        u64 minresp = NEVER;
        for (size_t i = 0; i < n; ++i) if (!is(i) && ops[i].resp_n < minresp) minresp = ops[i].resp_n;
        std::vector<std::pair<u64, int>> cand;
        for (auto& c : byconn) for (int i : c.second) if (!is(i)) { if (ops[i].inv_n < minresp) cand.push_back({ops[i].resp_n, i}); break; }
        std::sort(cand.begin(), cand.end());
        for (auto& p : cand) {
            int i = p.second;
            std::vector<CSt> o;
            step(st, ops[i], o);
            if (ops[i].st == CS_PENDING && ops[i].k != K_END) { CSt x = st; o.push_back(x); }
            done[i / 64] |= 1ull << (i % 64); --left; cur.push_back(i);
            for (auto& t : o) if (dfs(t)) return true;
            done[i / 64] &= ~(1ull << (i % 64)); ++left; cur.pop_back();
        }
        return false;
    }
};
}
void check_counters(Host* h, u64 interval, u64 release_bound, u64 vanish_bound) {
    std::set<string> names;
    for (auto& o : g_cnt.ops) { if (!o->name.empty()) names.insert(o->name); for (auto& e : o->list) names.insert(e.name); }
    for (auto& name : names) {
        NCheck c; c.iv = interval;
        std::set<int> used;
        for (auto& o : g_cnt.ops) {
            if (o->k != K_DUMP && (o->name != name || o->k == K_NOOP || o->k == K_STATS)) continue;
            if (o->st == CS_INVALID || o->st == CS_UNKNOWN) continue;
            if ((o->k == K_DUMP || o->k == K_GET) && o->st == CS_PENDING) continue;
            NOp n{}; n.k = o->k; n.conn = o->conn; n.order = o->order; n.inv_n = o->inv_n; n.resp_n = o->resp_n; n.st = o->st; n.res = o->res; n.max = o->max; n.val = o->val; n.desc = o->desc();
            u64 rt = o->resp_t;
            if (rt == NEVER) { rt = g_now; auto& cn = g_cnt.conns[o->conn]; if (cn.ended) rt = std::min(g_now, cn.end_t + (cn.how == E_VANISH ? cn.busy ? 960 * SEC : vanish_bound : release_bound)); }
            gcur_range(h, o->inv_t, rt, 3, n.lo, n.hi);
            if (o->k == K_DUMP) for (auto& e : o->list) if (e.name == name) { n.listed = true; n.val = e.cons; n.peak = e.peak; }
            used.insert(o->conn);
            c.ops.push_back(n);
        }
        for (int cn : used) {
            auto& r = g_cnt.conns[cn];
            if (!r.ended) continue;
            NOp n{}; n.k = K_END; n.conn = cn; n.order = 0x7fffffff; n.inv_n = r.prov_n ? r.prov_n : r.end_n; n.st = CS_OK; n.desc = "end of conn " + std::to_string(cn);
            u64 lim = r.end_t + (r.how == E_VANISH ? r.busy ? 960 * SEC : vanish_bound : release_bound);
            n.resp_n = NEVER;
            for (auto& o : g_cnt.ops) if (o->inv_t >= lim && o->inv_n < n.resp_n) n.resp_n = o->inv_n - 1;
            if (n.resp_n <= n.inv_n) n.resp_n = n.inv_n + 1;
            gcur_range(h, r.prov_n ? r.prov_t : r.end_t, std::min(lim, g_now), 3, n.lo, n.hi);
            c.ops.push_back(n);
        }
        c.prepare();
        ++g_chk.keys; g_chk.ops += c.n;
        CSt s0; s0.lu = -1;
        bool ok = c.dfs(s0);
        g_chk.states += c.states;
        if (c.overflow) { ++g_chk.undetermined; continue; }
        if (ok) continue;
        string m = "no order of the commands on counter " + show(name, 30) + " explains the replies. Longest explainable prefix " + std::to_string(c.best.size()) + " of " + std::to_string(c.n) + ", then " + std::to_string(c.best_st.cons) + " are in use (";
        for (auto& x : c.best_st.held) m += " conn " + std::to_string(x.first) + ": " + std::to_string(x.second);
        m += " ), peak " + std::to_string(c.best_st.peak) + "\n  performed:";
        std::vector<bool> in(c.n);
        for (size_t i = 0; i < c.best.size(); ++i) { in[c.best[i]] = true; if (i + 12 > c.best.size()) m += "\n    " + c.ops[c.best[i]].desc; }
        m += "\n  cannot be placed:";
        int cnt = 0;
        for (size_t i = 0; i < c.n; ++i) if (!in[i]) { m += "\n    " + c.ops[i].desc; if (++cnt == 8) break; }
        violate("counter", m);
        return;
    }
}

// ------------------------------------------------------------ scenarios
struct Counters : Scenario {
    int kind; Host* h = nullptr; u64 interval = 86400; bool vanish = false; bool observed = false, toobig = false; std::vector<string> names;
    explicit Counters(int k) : kind(k) {}
    void cop(CClient* c, CK k, const string& name, u32 res = 0, u32 max = 0) {
        CStep s; s.k = ST_OP; s.id = id(); s.op = std::make_shared<COp>(); s.op->k = k; s.op->name = name; s.op->res = res; s.op->max = max;
        Rng& r = g_rng_plan;
        if (r.chance(1, 12)) { s.op->split = 1 + r.below(1000); s.op->split_delay = 1 + r.below(20 * MSEC); }
        items.push_back({s.id, "counter client " + std::to_string(c->id) + " " + s.op->desc()});
        c->plan.push_back(s);
    }
    void cwait(CClient* c, u64 ns) { CStep s; s.k = ST_WAIT; s.ns = ns; s.id = id(); items.push_back({s.id, "counter client " + std::to_string(c->id) + " wait " + std::to_string(ns)}); c->plan.push_back(s); }
    void cend(CClient* c, EndK e) { CStep s; s.k = ST_END; s.end = e; s.id = id(); items.push_back({s.id, "counter client " + std::to_string(c->id) + " " + end_names[e]}); c->plan.push_back(s); }
    void setup() override {
        Rng& r = g_rng_plan;
        h = master();
        Conf c = conf();
        c["counter.enable"] = "true"; c["counter.port"] = "11215"; c["counter.max_connections"] = "0";
        c["counter.buckets"] = r.chance(1, 3) ? "2" : "101";
        static const u32 iv[] = {10, 10, 11, 13, 86400};
        interval = kind == 12 && r.chance(1, 2) ? 10 : iv[r.below(5)];
        c["counter.stat_interval"] = std::to_string(interval);
        c["workers"] = std::to_string(1 + r.below(5));
        start_node(h, c);
        u32 nn = 1 + r.below(4);
        for (u32 i = 0; i < nn; ++i) names.push_back("r" + std::to_string(i) + (r.chance(1, 8) ? string(300 + r.below(3000), 'n') : ""));
        if (r.chance(1, 10)) names[0] = string(65535, 'N');
        u32 nc = 2 + r.below(4);
        bool huge = kind == 11 && r.chance(1, 3);
        u32 cap = 1 + r.below(12);
        vanish = kind == 12 && r.chance(1, 10);
        u64 wm; { static const u64 w[] = {100 * US, 5 * MSEC, 100 * MSEC, 900 * MSEC}; wm = w[r.below(4)]; }
        for (u32 i = 0; i < nc; ++i) {
            CClient* cl = add_cclient();
            cl->window = r.chance(1, 2) ? 1 : 1 + r.below(8);
            { static const u64 rd[] = {1, 500 * US, 50 * MSEC, 3 * SEC}; cl->reconnect_delay = rd[r.below(4)]; }
            u32 n = 6 + r.below(60) / nc;
            for (u32 j = 0; j < n; ++j) {
                const string& nm = r.pick(names);
                u32 x = r.below(100);
                if (x < 42) {
                    u32 res = 1 + r.below(r.chance(1, 4) ? cap : 3), max = r.chance(1, 5) ? res + r.below(20) : cap;
                    if (huge && r.chance(1, 2)) { static const u32 v[] = {0xffffffffu, 0xfffffffeu, 0x80000000u, 0x7fffffffu, 1, 2}; max = v[r.below(3)]; res = v[r.below(6)]; if (res > max) std::swap(res, max); }
                    if (r.chance(1, 40)) { res = 0; }
                    cop(cl, K_ACQ, nm, res, max);
                } else if (x < 72) { u32 res = r.below(r.chance(1, 2) ? 3 : cap + 1); if (huge && r.chance(1, 3)) res = 0xffffffffu; cop(cl, K_REL, nm, res); }
                else if (x < 86) cop(cl, K_GET, nm);
                else if (x < 95) cop(cl, K_DUMP, "");
                else if (x < 97) cop(cl, K_STATS, "");
                else cop(cl, K_NOOP, "");
                if (r.chance(1, 3)) cwait(cl, 1 + r.below(wm));
                if (interval < 20 && r.chance(1, 10)) cwait(cl, 1 + r.below(interval * SEC));
                if (kind == 12 && r.chance(1, 5)) {
                    std::vector<EndK> e{E_CLOSE, E_RESET, E_FIN, E_CLOSE, E_RESET};
                    if (vanish && r.chance(1, 3)) e.push_back(E_VANISH);
                    if (r.chance(1, 400)) { e = {E_BY_SERVER}; toobig = true; }
                    cend(cl, r.pick(e));
                }
            }
            if (kind == 12 && r.chance(2, 3)) cend(cl, r.chance(1, 2) ? E_RESET : E_CLOSE);
            cl->start(300 * MSEC + r.below(5 * MSEC));
        }
        max_ns = vanish ? 3000 * SEC : 200 * SEC;
        g_net.seg = std::max<u32>(g_net.seg, 200); if (toobig) { g_net.seg = 1 << 20; g_net.small_seg = 0; g_net.sndbuf = g_net.rcvbuf = 4 << 20; }
    }
    bool r_busy() { for (auto& c : g_cnt.conns) if (c.busy && c.how == E_VANISH) return true; return false; }
    void clients_done() override {
        for (auto& c : g_cnt.clients) if (!c->finished && c->started && !c->waiting && !c->splitting && g_now > c->last_progress + 30 * SEC) { violate("hang", "no progress of a counter client for 30 s\n" + cclients_state() + describe_threads()); return; }
        if (!cclients_done()) { after(100 * MSEC, [this] { clients_done(); }); return; }
        if (!observed) {
            observed = true;
            CClient* c = add_cclient();
            CStep s; s.k = ST_WAIT; s.ns = vanish ? r_busy() ? 970 * SEC : 365 * SEC : 12 * SEC; c->plan.push_back(s);
            for (auto& n : names) cop(c, K_GET, n);
            cop(c, K_DUMP, "");
            c->start(g_now);
            after(100 * MSEC, [this] { clients_done(); });
            return;
        }
        end();
    }
    void oracle() override {
        for (auto& o : g_cnt.ops) {
            bool inval = (o->k == K_ACQ && (o->res == 0 || o->max < o->res));
            if (o->st == CS_UNKNOWN || (o->st == CS_INVALID && !inval) || (inval && o->st != CS_INVALID && o->st != CS_PENDING)) { violate("reply", "wrong answer to " + o->desc()); return; }
        }
        check_counters(h, interval, 10 * SEC, 360 * SEC);
    }
};
template<int K> struct CountersK : Counters { CountersK() : Counters(K) {} };
typedef CountersK<11> C11; typedef CountersK<12> C12;
SCENARIO(C11, "c11");
SCENARIO(C12, "c12");

} // namespace sim
