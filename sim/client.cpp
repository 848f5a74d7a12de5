#include "client.hpp"
#include <algorithm>

namespace sim {

History g_hist;
const char* const op_names[] = {"get","gat","touch","lag","set","add","replace","cas","append","prepend","incr","decr",
    "delete","lock","unlock","unlock_all","rau","flush","stats","keys","version","noop","quit","release","raw"};
const char* const res_names[] = {"PENDING","SILENT","OK","NOTFOUND","EXISTS","NOTSTORED","LOCKED","NOTLOCKED","NONNUM",
    "TOOLARGE","INVALID","UNKNOWN","ERROR"};
const char* const end_names[] = {"close","fin","reset","vanish","quit","by-server","abandon"};

void History::clear() { ops.clear(); conns.clear(); clients.clear(); n = 0; }

string show(const string& v, size_t max) {
    string o;
    for (size_t i = 0; i < v.size() && i < max; ++i) {
        unsigned char c = v[i];
        if (c >= 32 && c < 127) o += (char)c;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    }
    if (v.size() > max) o += "...(" + std::to_string(v.size()) + ")";
    return o;
}

string Op::desc() const {
    string d = string(bin ? "b:" : "t:") + op_names[k] + (quiet ? "/q" : "");
    if (!key.empty()) d += " " + show(key, 24);
    for (auto& m : more) d += "," + show(m, 24);
    if (k == O_SET || k == O_ADD || k == O_REPLACE || k == O_CAS || k == O_APPEND || k == O_PREPEND || k == O_RAU)
        d += "='" + show(val, 24) + "' f" + std::to_string(flags);
    if (has_exp) d += " exp" + std::to_string(exp);
    if (cas) d += " cas" + std::to_string(cas);
    if (k == O_INCR || k == O_DECR) { d += " by " + std::to_string(delta); if (create) d += " init " + std::to_string(initial); }
    char b[160];
    snprintf(b, sizeof b, " [client %d conn %d sent %.6f", client, conn, inv_t / 1e9);
    d += b;
    if (resp_t != NEVER) { snprintf(b, sizeof b, " reply %.6f", resp_t / 1e9); d += b; }
    d += string("] ") + res_names[res];
    if (got_val) d += " '" + show(rval, 24) + "' f" + std::to_string(rflags);
    if (got_num) d += " " + std::to_string(rnum);
    if (got_cas) d += " cas" + std::to_string(rcas);
    for (auto& h : hits) d += " {" + show(h.key, 24) + ":'" + show(h.val, 24) + "' f" + std::to_string(h.flags) + " cas" + std::to_string(h.cas) + "}";
    return d;
}

// ---------------------------------------------------------------- encoding
static void be(string& s, u64 v, int n) { for (int i = n - 1; i >= 0; --i) s += (char)(v >> (8 * i)); }
static u64 rbe(const char* p, int n) { u64 v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (u8)p[i]; return v; }

static string enc_bin(Op& o) {
    string ext, key = o.key, val;
    u8 oc = 0;
    u64 cas = o.cas;
    auto getlike = [&](u8 a, u8 q, u8 k, u8 kq) { oc = o.withkey ? (o.quiet ? kq : k) : (o.quiet ? q : a); };
    switch (o.k) {
    case O_GET: getlike(0, 9, 0xc, 0xd); break;
    case O_GAT: getlike(0x1d, 0x1e, 0x23, 0x24); be(ext, (u32)o.exp, 4); break;
    case O_TOUCH: oc = 0x1c; be(ext, (u32)o.exp, 4); break;
    case O_LAG: getlike(0x46, 0x47, 0x48, 0x49); if (o.has_exp) be(ext, (u32)o.exp, 4); break;
    case O_SET: oc = o.quiet ? 0x11 : 1; break;
    case O_ADD: oc = o.quiet ? 0x12 : 2; break;
    case O_REPLACE: oc = o.quiet ? 0x13 : 3; break;
    case O_CAS: oc = (o.quiet ? 0x11 : 1) + (o.bin_store == 1 ? 2 : o.bin_store == 2 ? 1 : 0); break;
    case O_APPEND: oc = o.quiet ? 0x19 : 0xe; val = o.val; break;
    case O_PREPEND: oc = o.quiet ? 0x1a : 0xf; val = o.val; break;
    case O_RAU: oc = o.quiet ? 0x4b : 0x4a; break;
    case O_INCR: case O_DECR:
        oc = (o.quiet ? 0x15 : 5) + (o.k == O_DECR);
        be(ext, o.delta, 8); be(ext, o.initial, 8); be(ext, o.create ? (u32)o.exp : 0xffffffffu, 4);
        break;
    case O_DELETE: oc = o.quiet ? 0x14 : 4; break;
    case O_LOCK: oc = o.quiet ? 0x41 : 0x40; break;
    case O_UNLOCK: oc = o.quiet ? 0x43 : 0x42; break;
    case O_UNLOCK_ALL: oc = o.quiet ? 0x45 : 0x44; break;
    case O_FLUSH: oc = o.quiet ? 0x18 : 8; if (o.has_exp) be(ext, (u32)o.exp, 4); break;
    case O_STATS: oc = 0x10; key = o.arg; break;
    case O_KEYS: oc = 0x50; key = o.arg; break;
    case O_VERSION: oc = 0xb; break;
    case O_NOOP: oc = 0xa; break;
    case O_QUIT: oc = o.quiet ? 0x17 : 7; break;
    default: break;
    }
    if (o.k == O_SET || o.k == O_ADD || o.k == O_REPLACE || o.k == O_CAS || o.k == O_RAU) {
        be(ext, o.flags, 4); be(ext, o.has_exp ? (u32)o.exp : 0, 4); val = o.val;
    }
    o.opcode = oc;
    string s;
    s += (char)0x80; s += (char)oc; be(s, key.size(), 2); be(s, ext.size(), 1); be(s, 0, 1); be(s, 0, 2);
    be(s, ext.size() + key.size() + val.size(), 4); be(s, o.opaque, 4); be(s, cas, 8);
    return s + ext + key + val;
}
static string enc_text(Op& o) {
    string nr = o.quiet ? " noreply" : "";
    auto store = [&](const char* c) {
        string s = string(c) + " " + o.key + " " + std::to_string(o.flags) + " " + std::to_string(o.has_exp ? o.exp : 0) + " " + std::to_string(o.val.size());
        if (o.k == O_CAS) s += " " + std::to_string(o.cas);
        return s + nr + "\r\n" + o.val + "\r\n";
    };
    switch (o.k) {
    case O_GET: { string s = (o.gets ? "gets " : "get ") + o.key; for (auto& m : o.more) s += " " + m; return s + "\r\n"; }
    case O_TOUCH: return "touch " + o.key + " " + std::to_string(o.exp) + nr + "\r\n";
    case O_SET: return store("set");
    case O_ADD: return store("add");
    case O_REPLACE: return store("replace");
    case O_CAS: return store("cas");
    case O_APPEND: return store("append");
    case O_PREPEND: return store("prepend");
    case O_INCR: return "incr " + o.key + " " + std::to_string(o.delta) + nr + "\r\n";
    case O_DECR: return "decr " + o.key + " " + std::to_string(o.delta) + nr + "\r\n";
    case O_DELETE: return "delete " + o.key + nr + "\r\n";
    case O_LOCK: return "lock " + o.key + "\r\n";
    case O_UNLOCK: return "unlock " + o.key + "\r\n";
    case O_UNLOCK_ALL: return "unlock_all\r\n";
    case O_FLUSH: return "flush_all" + (o.has_exp ? " " + std::to_string(o.exp) : string()) + nr + "\r\n";
    case O_STATS: return "stats" + (o.arg.empty() ? "" : " " + o.arg) + "\r\n";
    case O_KEYS: return "keys" + (o.arg.empty() ? "" : " " + o.arg) + "\r\n";
    case O_VERSION: return "version\r\n";
    case O_QUIT: return "quit\r\n";
    default: return "version\r\n";
    }
}
string encode(Op& o) {
    if (o.k == O_RAW) return o.arg;
    return o.bin ? enc_bin(o) : enc_text(o);
}

// ---------------------------------------------------------------- client
namespace {
struct Sink : ExtHandler {
    SockP s;
    void on_connected(bool, int) override {}
    void on_data() override { if (s) while (!ext_recv(s, 1 << 20).empty()) {} }
    void on_eof() override {}
    void on_reset() override {}
};
std::vector<std::unique_ptr<Sink>> g_sinks;
}

Client* add_client(u32 to, int port) {
    auto c = std::make_unique<Client>();
    c->id = g_hist.clients.size();
    c->ip = 0x0a010001 + c->id;     // 10.1.0.x
    c->to = to; c->port = port;
    g_hist.clients.push_back(std::move(c));
    return g_hist.clients.back().get();
}
bool all_finished() { for (auto& c : g_hist.clients) if (c->started && !c->finished) return false; return true; }
string Client::state() const {
    string r = "client " + std::to_string(id) + " step " + std::to_string(pos) + "/" + std::to_string(plan.size()) + (up ? " connected" : " not connected") + (waiting ? " waiting" : "") + (at_sync ? " sync" : "");
    if (!out.empty()) r += " outstanding " + std::to_string(out.size()) + ", first: " + out.front()->desc();
    if (in.size() > inoff) r += " unparsed " + std::to_string(in.size() - inoff) + " bytes";
    return r;
}
string clients_state() {
    string r;
    for (auto& c : g_hist.clients) if (c->started && !c->finished) r += c->state() + "\n";
    return r;
}
static void check_sync(int id) {
    for (auto& c : g_hist.clients) {
        if (!c->started || c->finished) { if (!c->started && !c->finished) return; continue; }
        if (!(c->at_sync && c->sync_id == id)) {
            // a client without that barrier ahead of it does not count
            bool ahead = false;
            for (size_t i = c->pos; i < c->plan.size(); ++i) if (c->plan[i].k == ST_SYNC && c->plan[i].sync == id) ahead = true;
            if (ahead) return;
        }
    }
    for (auto& c : g_hist.clients) if (c->at_sync && c->sync_id == id) {
        c->at_sync = false;
        Client* p = c.get();
        at(g_now, [p] { p->pump(); });
    }
}
void Client::start(u64 t) {
    at(t, [this] { started = true; last_progress = g_now; pump(); });
}
void Client::connect() {
    ConnRec r;
    r.conn = conn = g_hist.conns.size(); r.client = id; r.start_t = g_now;
    in.clear(); inoff = 0; up = false; holding = false; held.clear(); expect_close = false; protocol_off = false;
    ++n_conn;
    g_hist.conns.push_back(r);
    s = ext_connect(this, ip, to, port);
    g_hist.conns[conn].s = s;
}
void Client::on_connected(bool ok, int err) {
    last_progress = g_now;
    if (!s) return;
    if (!ok) {
        logf("client %d: connection failed (%d)", id, err);
        auto& r = g_hist.conns[conn];
        r.refused = true; r.ended = true; r.how = E_BY_SERVER; r.end_t = r.gone_t = g_now; r.end_n = ++g_hist.n;
        s = nullptr; conn = -1; up = false;
        if (++failures >= max_reconnect) { finished = true; check_sync(sync_id); return; }
        u64 tk = ++wait_token;
        waiting = true;
        after(reconnect_delay, [this, tk] { if (tk == wait_token) { waiting = false; pump(); } });
        return;
    }
    failures = 0;
    up = true;
    g_hist.conns[conn].connected = true; g_hist.conns[conn].est_t = g_now;
    pump();
}
void Client::send_op(const OpP& op, string& batch) {
    op->client = id; op->conn = conn; op->order = ++order; op->id = op->id;
    op->opaque = 0x10000u * (id + 1) + order;
    if (op->cas_mode) {
        auto& d = toks[op->key];
        op->cas_have = false; op->cas_content = false;
        if (op->cas_mode == 3 || d.empty()) { op->cas = 0x7000000000000000ull + order; op->cas_have = true; op->cas_content = false; }
        else {
            auto& t = (op->cas_mode == 2 && d.size() > 1) ? d[1] : d[0];
            op->cas = t.cas; op->cas_have = true; op->cas_val = t.val; op->cas_flags = t.flags; op->cas_content = t.content;
        }
    }
    op->inv_t = g_now; op->inv_n = ++g_hist.n;
    string b = encode(*op);
    g_hist.ops.push_back(op);
    if (op->k != O_RAW) out.push_back(op);
    if (op->k == O_QUIT) { expect_close = true; }
    logf("client %d conn %d -> %s", id, conn, op->desc().c_str());
    if (op->split > 0 && !holding) {
        size_t cut = (size_t)(b.size() * op->split);
        if (cut == 0) cut = 1;
        if (cut >= b.size()) cut = b.size() - 1;
        batch += b.substr(0, cut);
        flush_batch(batch); batch.clear();
        holding = true; held = b.substr(cut);
        int c0 = conn;
        after(op->split_delay, [this, c0] {
            if (conn != c0 || !s || !holding) return;
            holding = false; string h; h.swap(held);
            g_hist.conns[conn].sent += h.size();
            ext_send(s, h);
        });
        return;
    }
    batch += b;
}
void Client::flush_batch(const string& b) {
    if (b.empty() || !s) return;
    if (holding) { held += b; return; }
    g_hist.conns[conn].sent += b.size();
    ext_send(s, b);
}
u32 Client::busy() const { u32 n = 0; for (auto& o : out) if (!o->quiet) ++n; return n; }
// Quiet commands are settled by a command that always answers.
bool Client::sync_quiet(string& batch) {
    if (out.empty() || !s || busy() || expect_close) return false;
    auto op = std::make_shared<Op>();
    op->id = 0xffffff;
    op->bin = order & 1; op->k = op->bin ? O_NOOP : O_VERSION;
    send_op(op, batch);
    return true;
}
void Client::pump() {
    if (finished || waiting || at_sync || !started) return;
    if (s && !up) return;     // connecting
    string batch;
    while (true) {
        if (pos >= plan.size()) {
            if (sync_quiet(batch)) break;
            flush_batch(batch); batch.clear();
            if (out.empty() || !s) { finished = true; check_sync(-1); for (auto& c : g_hist.clients) if (c->at_sync) { check_sync(c->sync_id); break; } }
            break;
        }
        Step& st = plan[pos];
        if (g_cfg.drop.count(st.id)) { ++pos; continue; }
        last_progress = g_now;
        if (st.k == ST_OP) {
            if (expect_close && s) break;
            if (!s) { connect(); return; }
            if (busy() >= window || out.size() >= 64) break;
            ++pos;
            send_op(st.op, batch);
        } else if (st.k == ST_CONNECT) {
            ++pos;
            if (!s) { connect(); return; }
        } else if (st.k == ST_WAIT) {
            ++pos;
            flush_batch(batch); batch.clear();
            u64 tk = ++wait_token;
            waiting = true;
            after(st.ns, [this, tk] { if (tk == wait_token) { waiting = false; pump(); } });
            return;
        } else if (st.k == ST_BARRIER) {
            if (sync_quiet(batch)) break;
            flush_batch(batch); batch.clear();
            if (!out.empty() && s) return;
            ++pos;
        } else if (st.k == ST_SYNC) {
            if (sync_quiet(batch)) break;
            flush_batch(batch); batch.clear();
            if (!out.empty() && s) return;
            ++pos;
            at_sync = true; sync_id = st.sync;
            check_sync(st.sync);
            return;
        } else if (st.k == ST_READ) {
            ++pos;
            flush_batch(batch); batch.clear();
            if (s) ext_set_reading(s, st.on);
            if (st.on && s) on_data();
        } else if (st.k == ST_CALL) {
            ++pos;
            flush_batch(batch); batch.clear();
            if (st.call) st.call();
        } else if (st.k == ST_END) {
            ++pos;
            flush_batch(batch); batch.clear();
            if (s) { do_end(st.end); return; }
        }
    }
    flush_batch(batch);
}
void Client::do_end(EndK k) {
    auto& r = g_hist.conns[conn];
    logf("client %d conn %d: %s", id, conn, end_names[k]);
    if (k == E_QUIT) {
        auto op = std::make_shared<Op>();
        op->k = O_QUIT; op->bin = (order & 1); op->quiet = op->bin && (order & 2);
        string b;
        r.ended = true; r.end_t = g_now; r.end_n = ++g_hist.n; r.how = k;
        send_op(op, b);
        flush_batch(b);
        return;       // the server closes
    }
    r.ended = true; r.end_t = g_now; r.end_n = ++g_hist.n; r.how = k;
    SockP old = s;
    if (k == E_FIN) {
        ext_shutdown(old);
        expect_close = true;
        int c0 = conn;
        after(2 * SEC, [this, c0] { if (conn == c0 && s) lost(E_FIN); });
        return;
    }
    lost(k);
}
// The connection is over from the client's point of view.
void Client::lost(EndK how) {
    if (!s) return;
    auto& r = g_hist.conns[conn];
    if (!r.ended) { r.ended = true; r.end_t = g_now; r.end_n = ++g_hist.n; r.how = how; }
    SockP old = s;
    s = nullptr; up = false;
    r.s = nullptr;
    if (how == E_FIN) {
        auto k = std::make_unique<Sink>(); k->s = old; old->ext = k.get(); g_sinks.push_back(std::move(k));
    } else {
        old->ext = nullptr;
        if (how == E_CLOSE || how == E_BY_SERVER) ext_close(old);
        else if (how == E_RESET) ext_reset(old);
        else if (how == E_VANISH) ext_vanish(old);
    }
    out.clear();
    conn = -1;
    holding = false; held.clear(); in.clear(); inoff = 0;
    if (on_gone) on_gone(this);
    last_progress = g_now;
    if (!auto_reconnect) pos = plan.size();
    bool more = pos < plan.size();
    if (!more || !auto_reconnect) { if (!more) { finished = true; for (auto& c : g_hist.clients) if (c->at_sync) { check_sync(c->sync_id); break; } } }
    if (waiting || at_sync) return;
    u64 tk = ++wait_token;
    waiting = true;
    after(how == E_BY_SERVER ? reconnect_delay : 1 * MSEC, [this, tk] { if (tk == wait_token) { waiting = false; pump(); } });
}
void Client::on_data() {
    if (!s) return;
    while (true) {
        string d = ext_recv(s, 1 << 20);
        if (d.empty()) break;
        g_hist.conns[conn].rcvd += d.size();
        if (raw_mode) raw_in += d; else in += d;
    }
    last_progress = g_now;
    if (!raw_mode) parse();
    if (s) pump();
}
void Client::on_eof() {
    if (!s) return;
    on_data();
    if (!s) return;
    auto& r = g_hist.conns[conn];
    r.gone_t = g_now;
    logf("client %d conn %d: closed by the server", id, conn);
    if (!out.empty() && out.front()->k == O_QUIT) { auto q = out.front(); resolve(q, R_SILENT); }
    if (in.size() > inoff && !protocol_off) {
        Node* n = nullptr;
        for (auto& h : g_hosts) if (h->cur && h->cur->alive) n = h->cur;
        if (n) reach("eof-in-partial-reply");
    }
    lost(E_BY_SERVER);
}
void Client::on_reset() {
    if (!s) return;
    g_hist.conns[conn].gone_t = g_now;
    logf("client %d conn %d: reset", id, conn);
    lost(E_BY_SERVER);
}
void Client::bad(const string& why) {
    string ctx = in.substr(inoff, 160);
    string m = why + "; client " + std::to_string(id) + " conn " + std::to_string(conn) + " received '" + show(ctx, 160) + "'";
    int i = 0;
    for (auto& o : out) { m += "\n  outstanding: " + o->desc(); if (++i == 6) break; }
    violate("reply", m);
    protocol_off = true;
}
void Client::note_tok(const OpP& op) {
    auto push = [&](const string& k, Tok t) { auto& d = toks[k]; if (!d.empty() && d[0].cas == t.cas && d[0].val == t.val) return; d.push_front(t); if (d.size() > 6) d.pop_back(); };
    for (auto& h : op->hits) if (op->gets) push(h.key, {h.cas, h.val, h.flags, true});
    if (op->got_cas && op->rcas && op->res == R_SUCC) {
        if (op->got_val) push(op->key, {op->rcas, op->rval, op->rflags, true});
        else if (op->k == O_SET || op->k == O_ADD || op->k == O_REPLACE || op->k == O_CAS || op->k == O_RAU) push(op->key, {op->rcas, op->val, op->flags, true});
        else if (op->k == O_APPEND || op->k == O_PREPEND || op->k == O_INCR || op->k == O_DECR) push(op->key, {op->rcas, "", 0, false});
    }
}
void Client::resolve(const OpP& op, Res r) {
    op->res = r; op->resp_t = g_now; op->resp_n = ++g_hist.n;
    for (auto it = out.begin(); it != out.end(); ++it) if (*it == op) { out.erase(it); break; }
    ++g_hist.ops_done;
    g_hist.conns[conn].replies++;
    trace(op->id * 31 + r);
    logf("client %d conn %d <- %s", id, conn, op->desc().c_str());
    note_tok(op);
    if (on_reply) on_reply(op);
}
void Client::skip_silent(size_t upto) {
    std::vector<OpP> v;
    for (size_t i = 0; i < upto && i < out.size(); ++i) v.push_back(out[i]);
    for (auto& o : v) resolve(o, R_SILENT);
}
void Client::parse() {
    while (!protocol_off && inoff < in.size()) if (!parse_one()) break;
    if (inoff == in.size()) { in.clear(); inoff = 0; }
    else if (inoff > 65536) { in.erase(0, inoff); inoff = 0; }
}
bool Client::parse_one() { return (u8)in[inoff] == 0x81 ? parse_bin() : parse_text(); }

static bool getlike(OpK k) { return k == O_GET || k == O_GAT || k == O_LAG; }

bool Client::parse_bin() {
    const char* p = in.data() + inoff; size_t n = in.size() - inoff;
    if (n < 24) return false;
    u8 oc = p[1]; u32 kl = rbe(p + 2, 2), el = (u8)p[4], st = rbe(p + 6, 2), tl = rbe(p + 8, 4), opq = rbe(p + 12, 4); u64 cas = rbe(p + 16, 8);
    size_t idx = 0;
    for (; idx < out.size(); ++idx) {
        if (out[idx]->bin && out[idx]->opaque == opq) break;
        if (!out[idx]->quiet) { bad("reply with opaque " + std::to_string(opq) + " does not belong to the next command"); return false; }
    }
    if (idx == out.size()) { bad("reply with opaque " + std::to_string(opq) + " belongs to no command awaiting a reply"); return false; }
    OpP op = out[idx];
    if (tl > (64u << 20) || kl + el > tl) { bad("impossible lengths in a reply"); return false; }
    if (p[5] != 0) { bad("data type field is not zero"); return false; }
    if (oc != op->opcode) { bad("opcode of the reply differs from the command's"); return false; }
    if (n < 24 + tl) return false;
    string ext(p + 24, el), key(p + 24 + el, kl), val(p + 24 + el + kl, tl - kl - el);
    skip_silent(idx);
    op = out.front();
    if (st != 0) {
        Res r;
        switch (st) {
        case 1: r = R_NOTFOUND; break; case 2: r = R_EXISTS; break; case 3: r = R_TOOLARGE; break; case 4: r = R_INVALID; break;
        case 5: r = R_NOTSTORED; break; case 6: r = R_NONNUM; break; case 0x10: r = R_LOCKED; break; case 0x11: r = R_NOTLOCKED; break;
        case 0x81: r = R_UNKNOWN; break;
        default: bad("unknown status " + std::to_string(st)); return false;
        }
        if (kl || el) { bad("error reply with key or extras"); return false; }
        if (op->quiet && (op->k == O_GET || op->k == O_GAT) && r == R_NOTFOUND) { bad("a quiet get answered a miss"); return false; }
        inoff += 24 + tl;
        resolve(op, r);
        return true;
    }
    if (op->quiet && !getlike(op->k)) { bad("a quiet command answered its success"); return false; }
    if (getlike(op->k)) {
        if (el != 4) { bad("get reply without flags"); return false; }
        if (op->withkey ? key != op->key : kl != 0) { bad("get reply with a wrong key"); return false; }
        op->got_val = true; op->rval = val; op->rflags = rbe(ext.data(), 4); op->got_cas = true; op->rcas = cas;
        if (cas == 0) { bad("get reply without cas"); return false; }
    } else if (op->k == O_STATS) {
        if (el) { bad("stat reply with extras"); return false; }
        inoff += 24 + tl;
        if (kl == 0) { if (tl) { bad("stat terminator with a body"); return false; } resolve(op, R_SUCC); return true; }
        op->stats[key] = val;
        return true;
    } else if (op->k == O_KEYS) {
        if (el || !val.empty()) { bad("key dump reply with extras or value"); return false; }
        inoff += 24 + tl;
        if (kl == 0) { resolve(op, R_SUCC); return true; }
        op->keys.push_back(key);
        return true;
    } else if (op->k == O_VERSION) {
        if (el || kl || val.empty()) { bad("bad version reply"); return false; }
        op->rval = val;
    } else if (op->k == O_INCR || op->k == O_DECR) {
        if (el || kl || val.size() != 8) { bad("bad incr/decr reply"); return false; }
        op->got_num = true; op->rnum = rbe(val.data(), 8); op->got_cas = true; op->rcas = cas;
    } else {
        if (tl) { bad("unexpected body"); return false; }
        if (op->k == O_SET || op->k == O_ADD || op->k == O_REPLACE || op->k == O_CAS || op->k == O_APPEND || op->k == O_PREPEND || op->k == O_RAU || op->k == O_TOUCH) {
            op->got_cas = true; op->rcas = cas;
            if (cas == 0) { bad("store reply without cas"); return false; }
        }
    }
    inoff += 24 + tl;
    resolve(op, R_SUCC);
    return true;
}

static bool parse_uint(const string& s, size_t& p, u64& v) {
    size_t a = p; v = 0;
    while (p < s.size() && s[p] >= '0' && s[p] <= '9') {
        u64 d = s[p] - '0';
        if (v > (~0ull - d) / 10) return false;
        v = v * 10 + d; ++p;
    }
    return p > a;
}
bool Client::parse_text() {
    size_t idx = 0;
    while (idx < out.size() && out[idx]->quiet) ++idx;
    if (idx == out.size()) { bad("bytes that belong to no command awaiting a reply"); return false; }
    OpP op = out[idx];
    if (op->bin) { bad("text bytes where a binary reply is due"); return false; }
    size_t eol = in.find("\r\n", inoff);
    if (eol == string::npos) {
        if (in.size() - inoff > 2000) { bad("reply line without end"); return false; }
        return false;
    }
    string line = in.substr(inoff, eol - inoff);
    auto done = [&](Res r, size_t next) { inoff = next; skip_silent(idx); resolve(op, r); return true; };
    if (line == "ERROR") return done(op->k == O_SET || op->k == O_ADD || op->k == O_REPLACE || op->k == O_CAS || op->k == O_APPEND || op->k == O_PREPEND ? R_TOOLARGE : R_ERROR, eol + 2);
    switch (op->k) {
    case O_GET: {
        if (line == "END") {
            // key order
            size_t at = 0;
            std::vector<string> want{op->key};
            want.insert(want.end(), op->more.begin(), op->more.end());
            for (auto& h : op->hits) {
                while (at < want.size() && want[at] != h.key) ++at;
                if (at == want.size()) { bad("get answered keys that were not asked for, or out of order"); return false; }
                ++at;
            }
            return done(R_SUCC, eol + 2);
        }
        if (line.compare(0, 6, "VALUE ")) break;
        size_t sp = line.find(' ', 6);
        if (sp == string::npos) break;
        Hit h; h.key = line.substr(6, sp - 6);
        size_t p = sp + 1; u64 f, l, c = 0;
        if (!parse_uint(line, p, f) || p >= line.size() || line[p] != ' ' || f > 0xffffffffu) break;
        ++p;
        if (!parse_uint(line, p, l)) break;
        if (op->gets) { if (p >= line.size() || line[p] != ' ') break; ++p; if (!parse_uint(line, p, c)) break; }
        if (p != line.size()) break;
        if (l > (64u << 20)) break;
        if (in.size() < eol + 2 + l + 2) return false;
        if (in.compare(eol + 2 + l, 2, "\r\n")) { bad("value not followed by CRLF"); return false; }
        h.val = in.substr(eol + 2, l); h.flags = f; h.cas = c;
        op->hits.push_back(h);
        inoff = eol + 2 + l + 2;
        return true;
    }
    case O_STATS: {
        if (line == "END") return done(R_SUCC, eol + 2);
        if (line.compare(0, 5, "STAT ")) break;
        size_t sp = line.find(' ', 5);
        if (sp == string::npos) break;
        op->stats[line.substr(5, sp - 5)] = line.substr(sp + 1);
        inoff = eol + 2;
        return true;
    }
    case O_KEYS:
        if (line == "END") return done(R_SUCC, eol + 2);
        if (line.compare(0, 6, "VALUE ")) break;
        op->keys.push_back(line.substr(6));
        inoff = eol + 2;
        return true;
    case O_VERSION: case O_NOOP:
        if (line.compare(0, 8, "VERSION ")) break;
        op->rval = line.substr(8);
        return done(R_SUCC, eol + 2);
    case O_SET: if (line == "STORED") return done(R_SUCC, eol + 2); if (line == "LOCKED") return done(R_LOCKED, eol + 2); break;
    case O_ADD: if (line == "NOT_STORED") return done(R_EXISTS, eol + 2); if (line == "STORED") return done(R_SUCC, eol + 2); if (line == "LOCKED") return done(R_LOCKED, eol + 2); break;
    case O_REPLACE: case O_APPEND: case O_PREPEND:
        if (line == "NOT_STORED") return done(R_NOTFOUND, eol + 2); if (line == "STORED") return done(R_SUCC, eol + 2); if (line == "LOCKED") return done(R_LOCKED, eol + 2); break;
    case O_CAS:
        if (line == "STORED") return done(R_SUCC, eol + 2); if (line == "EXISTS") return done(R_EXISTS, eol + 2); if (line == "NOT_FOUND") return done(R_NOTFOUND, eol + 2); if (line == "LOCKED") return done(R_LOCKED, eol + 2); break;
    case O_INCR: case O_DECR: {
        if (line == "NOT_FOUND") return done(R_NOTFOUND, eol + 2); if (line == "LOCKED") return done(R_LOCKED, eol + 2);
        if (line == "CLIENT_ERROR cannot increment or decrement non-numeric value") return done(R_NONNUM, eol + 2);
        size_t p = 0; u64 v;
        if (parse_uint(line, p, v) && p == line.size()) { op->got_num = true; op->rnum = v; return done(R_SUCC, eol + 2); }
        break;
    }
    case O_DELETE: if (line == "DELETED") return done(R_SUCC, eol + 2); if (line == "NOT_FOUND") return done(R_NOTFOUND, eol + 2); if (line == "LOCKED") return done(R_LOCKED, eol + 2); break;
    case O_TOUCH: if (line == "TOUCHED") return done(R_SUCC, eol + 2); if (line == "NOT_FOUND") return done(R_NOTFOUND, eol + 2); break;
    case O_LOCK: if (line == "OK") return done(R_SUCC, eol + 2); if (line == "LOCKED") return done(R_LOCKED, eol + 2); if (line == "NOT_FOUND") return done(R_NOTFOUND, eol + 2); break;
    case O_UNLOCK: if (line == "OK") return done(R_SUCC, eol + 2); if (line == "CLIENT_ERROR object is not locked or not found") return done(R_NOTLOCKED, eol + 2); break;
    case O_UNLOCK_ALL: case O_FLUSH: if (line == "OK") return done(R_SUCC, eol + 2); break;
    default: break;
    }
    bad(string("unexpected reply line '") + show(line, 60) + "' to " + op_names[op->k]);
    return false;
}

} // namespace sim
