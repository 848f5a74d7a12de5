// Linearizability of the history of each key against a small reference model of the cache.
#include "client.hpp"
#include <algorithm>
#include <unordered_set>

namespace sim {

CheckStat g_chk;

// Range of the server's cached clock (seconds) while an operation may have run.
void gcur_range(Host* h, u64 t0, u64 t1, u64 lag, i64& lo, i64& hi) {
    u64 a = t0 > lag * SEC ? t0 - lag * SEC : 0;
    if (h->cur && h->cur->boot > a && h->cur->boot <= t0) a = h->cur->boot;
    auto w = [&](u64 t) { i64 x = wall_ns_at(h, t); return x / (i64)SEC; };
    lo = std::min(w(a), w(t0)); hi = std::max(w(a), w(t1));
    lo = std::min(lo, w(t1)); hi = std::max(hi, w(t0));
    for (auto& s : h->skew_hist) if (s.first >= a && s.first <= t1) {
        lo = std::min(lo, w(s.first)); hi = std::max(hi, w(s.first));
        if (s.first > 0) { lo = std::min(lo, w(s.first - 1)); hi = std::max(hi, w(s.first - 1)); }
    }
}

namespace {
std::unordered_map<string, int> g_ids; std::vector<string> g_vals;
int vid(const string& s) {
    auto it = g_ids.find(s);
    if (it != g_ids.end()) return it->second;
    int i = g_vals.size(); g_vals.push_back(s); g_ids[s] = i; return i;
}
// As std::stoull reads it.
bool to_num(const string& s, u64& n) {
    size_t i = 0;
    while (i < s.size() && isspace((u8)s[i])) ++i;
    bool neg = false;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; ++i; }
    size_t b = i; n = 0;
    while (i < s.size() && isdigit((u8)s[i])) {
        u64 d = s[i] - '0';
        if (n > (~0ull - d) / 10) return false;
        n = n * 10 + d; ++i;
    }
    if (neg) n = 0 - n;
    return i > b;
}
struct St {
    bool ex = false; int val = -1; u32 flags = 0; bool hasexp = false; i64 ea = 0, eb = 0; u64 cas = 0; int lock = -1;
    string key() const {
        string s((const char*)&ex, 1);
        if (!ex) return s;
        s.append((const char*)&val, sizeof val); s.append((const char*)&flags, sizeof flags); s.append((const char*)&hasexp, 1);
        if (hasexp) { s.append((const char*)&ea, 8); s.append((const char*)&eb, 8); }
        s.append((const char*)&cas, 8); s.append((const char*)&lock, sizeof lock);
        return s;
    }
};

struct Checker {
    const std::vector<KOp>& ops; const CheckOpts& opt;
    size_t n; std::vector<u64> done; size_t left;
    std::unordered_set<string> memo; size_t states = 0; bool overflow = false;
    std::vector<int> best, cur; St best_st; size_t best_n = 0;
    std::map<int, std::vector<int>> byconn;
    i64 clock_max = 0;       // the latest the server's clock has ever been
    Checker(const std::vector<KOp>& o, const CheckOpts& op) : ops(o), opt(op), n(o.size()), done((o.size() + 63) / 64), left(o.size()) {
        for (size_t i = 0; i < n; ++i) byconn[ops[i].conn].push_back(i);
        for (auto& c : byconn) std::sort(c.second.begin(), c.second.end(), [&](int a, int b) { return ops[a].order < ops[b].order; });
    }
    bool is(size_t i) const { return done[i / 64] >> (i % 64) & 1; }

    // All outcomes of performing o in s that agree with what was observed.
    void step(const St& s0, const KOp& o, std::vector<St>& outv) const {
        step1(s0, o, outv);
        if (!opt.revive || !s0.ex || s0.lock >= 0) return;
        bool gone = false;
        for (auto& t : outv) if (!t.ex) gone = true;
        if (gone && !(o.k == O_DELETE && o.res == R_SUCC)) outv.push_back(s0);
    }
    void step1(const St& s0, const KOp& o, std::vector<St>& outv) const {
        St s = s0;
        auto result = [&](Res r) { return o.pending || o.res == R_SILENT || o.res == r; };
        bool dead_ok = true, live_ok = false;
        if (s.ex) {
            if (s.lock >= 0 || !s.hasexp) { live_ok = true; dead_ok = false; }
            else { dead_ok = s.ea <= o.ghi; live_ok = s.eb > o.glo; if (!dead_ok && !live_ok) live_ok = true; }
            if (opt.may_vanish && s.lock < 0) dead_ok = true;
            if (opt.revive && s.lock < 0 && s.hasexp && s.ea <= clock_max) dead_ok = true;   // collected before the clock went back
        }
        for (int br = 0; br < 2; ++br) {
            bool live = br == 0;
            if (live ? !live_ok : !dead_ok) continue;
            St t = s;
            if (!live) t = St();
            else if (s.hasexp && s.lock < 0 && !opt.may_vanish && !opt.revive) { if (t.ea <= o.glo) t.ea = o.glo + 1; }
            bool other = live && t.lock >= 0 && t.lock != o.conn, self = live && t.lock == o.conn;
            auto push = [&](Res r, bool mutated = false, bool reveal = true) {
                if (!result(r)) return;
                if (mutated) {
                    u64 before = live ? s.cas : 0;
                    t.cas = 0;
                    if (reveal && o.got_cas && r == R_SUCC) { if (before && before == o.rcas) return; t.cas = o.rcas; }
                } else if (reveal && o.got_cas && r == R_SUCC && t.ex) {
                    if (t.cas && t.cas != o.rcas) return;
                    t.cas = o.rcas;
                }
                outv.push_back(t);
            };
            auto expiry = [&](bool store) {
                if (o.ek == 0) { if (store) t.hasexp = false; return; }
                if (o.ek == 1) { t.hasexp = false; t.ea = t.eb = 0; return; }
                t.hasexp = true; t.ea = o.ea; t.eb = o.eb;
            };
            // a conditional command: false if it cannot have gone ahead
            auto cas_pass = [&] {
                bool can_ok = true, can_no = true;
                if (t.cas) { if (t.cas == o.cas) can_no = false; else can_ok = false; }
                if (o.cas_content) { if (o.cas_val != t.val || o.cas_flags != t.flags) can_ok = false; else if (!t.cas && g_vals[t.val].find('v') != string::npos) can_no = false; }
                if (can_no) push(R_EXISTS, false, false);
                return can_ok;
            };
            switch (o.k) {
            case O_GET: case O_GAT: case O_LAG: {
                if (!live) { push(R_NOTFOUND, false, false); break; }
                if (o.k == O_LAG) {
                    if (t.lock >= 0) { push(R_LOCKED, false, false); break; }
                    t.lock = o.conn;
                }
                if (o.k != O_GET && o.ek) expiry(false);
                if (o.res == R_SILENT && !o.pending && o.k == O_LAG) {}
                if (o.got_val && (o.rval != t.val || o.rflags != t.flags)) break;
                // a quiet get that stayed silent was a miss
                if (o.res == R_SILENT && !o.pending) break;
                push(R_SUCC);
                break;
            }
            case O_TOUCH:
                if (!live) { push(R_NOTFOUND, false, false); break; }
                expiry(false); push(R_SUCC); break;
            case O_SET: case O_ADD: case O_REPLACE: case O_CAS: {
                if (other) { push(R_LOCKED, false, false); break; }
                bool add = o.k == O_ADD || o.store_add, rep = o.k == O_REPLACE || o.store_rep;
                if (!live && (rep || o.k == O_CAS)) { push(R_NOTFOUND, false, false); break; }
                if (live && add) { push(R_EXISTS, false, false); break; }
                if (o.k == O_CAS && !cas_pass()) break;
                int lk = t.lock;
                t.ex = true; t.val = o.val; t.flags = o.flags; t.lock = live ? lk : -1;
                expiry(true); push(R_SUCC, true);
                break;
            }
            case O_RAU:
                if (!live) { if (o.res == R_NOTLOCKED) push(R_NOTLOCKED, false, false); else push(R_NOTFOUND, false, false); break; }
                if (!self) { push(R_NOTLOCKED, false, false); break; }
                if (o.cas && !cas_pass()) break;
                t.val = o.val; t.flags = o.flags; expiry(true); t.lock = -1; push(R_SUCC, true);
                break;
            case O_APPEND: case O_PREPEND:
                if (other) { push(R_LOCKED, false, false); break; }
                if (!live) { push(R_NOTFOUND, false, false); break; }
                if (o.cas && !cas_pass()) break;
                t.val = o.k == O_APPEND ? vid(g_vals[t.val] + g_vals[o.val]) : vid(g_vals[o.val] + g_vals[t.val]);
                push(R_SUCC, true);
                break;
            case O_INCR: case O_DECR: {
                if (other) { push(R_LOCKED, false, false); break; }
                if (!live) {
                    if (!o.create) { push(R_NOTFOUND, false, false); break; }
                    if (o.got_num && o.rnum != o.initial) break;
                    t.ex = true; t.val = vid(std::to_string(o.initial)); t.flags = 0; t.lock = -1; expiry(true);
                    push(R_SUCC, true);
                    break;
                }
                if (o.cas && !cas_pass()) break;
                u64 v;
                if (g_vals[t.val].size() > opt.heap_limit || !to_num(g_vals[t.val], v)) { push(R_NONNUM, false, false); break; }
                v = o.k == O_INCR ? v + o.delta : (v < o.delta ? 0 : v - o.delta);
                if (o.got_num && o.rnum != v) break;
                t.val = vid(std::to_string(v));
                push(R_SUCC, true);
                break;
            }
            case O_DELETE:
                if (other) { push(R_LOCKED, false, false); break; }
                if (!live) { push(R_NOTFOUND, false, false); break; }
                if (o.cas && !cas_pass()) break;
                t = St(); push(R_SUCC, false, false);
                break;
            case O_LOCK:
                if (!live) { push(R_NOTFOUND, false, false); break; }
                if (t.lock >= 0) { push(R_LOCKED, false, false); break; }
                t.lock = o.conn; push(R_SUCC, false, false);
                break;
            case O_UNLOCK:
                if (!live) { if (o.res == R_NOTLOCKED) push(R_NOTLOCKED, false, false); else push(R_NOTFOUND, false, false); break; }
                if (!self) { push(R_NOTLOCKED, false, false); break; }
                t.lock = -1; push(R_SUCC, false, false);
                break;
            case O_UNLOCK_ALL: case O_RELEASE:
                if (live && t.lock == o.conn) t.lock = -1;
                push(R_SUCC, false, false);
                break;
            case O_FLUSH:    // an item may vanish
                if (br == 1 && s.ex) break;
                if (live && t.lock < 0) { St k = t; t = St(); outv.push_back(t); t = k; }
                outv.push_back(t);
                break;
            default: outv.push_back(t);
            }
        }
    }
    bool dfs(const St& st) {
        if (left == 0) return true;
        if (++states > opt.max_states) { overflow = true; return true; }
        string key((const char*)done.data(), done.size() * 8);
        key += st.key();
        if (!memo.insert(key).second) return false;
        u64 minresp = NEVER;
        for (size_t i = 0; i < n; ++i) if (!is(i) && ops[i].resp_n < minresp) minresp = ops[i].resp_n;
        size_t lin = n - left;
        if (lin >= best_n) { best_n = lin; best = cur; best_st = st; }
        // candidates: the first unperformed operation of each connection
        std::vector<std::pair<u64, int>> cand;
        for (auto& c : byconn) for (int i : c.second) if (!is(i)) {
            if (ops[i].inv_n < minresp) cand.push_back({ops[i].resp_n, i});
            break;
        }
        std::sort(cand.begin(), cand.end());
        for (auto& pr : cand) {
            int i = pr.second;
            std::vector<St> o;
            step(st, ops[i], o);
            if (ops[i].pending) o.push_back(st);
            done[i / 64] |= 1ull << (i % 64); --left; cur.push_back(i);
            for (auto& t : o) if (dfs(t)) return true;
            done[i / 64] &= ~(1ull << (i % 64)); ++left; cur.pop_back();
        }
        return false;
    }
};

bool modelled(OpK k) { return k != O_STATS && k != O_KEYS && k != O_VERSION && k != O_NOOP && k != O_QUIT && k != O_RAW && k != O_FLUSH; }
}

void check_linearizable(const string& cls, const CheckOpts& o, Host* h, const std::function<bool(const Op&)>& filter) {
    g_ids.clear(); g_vals.clear();
    std::set<string> keys;
    std::map<int, std::set<string>> conn_keys;
    std::vector<OpP> all;
    for (auto& op : g_hist.ops) {
        if (filter && !filter(*op)) continue;
        all.push_back(op);
        if (!modelled(op->k)) continue;
        if (!op->key.empty()) { keys.insert(op->key); conn_keys[op->conn].insert(op->key); }
        for (auto& m : op->more) { keys.insert(m); conn_keys[op->conn].insert(m); }
    }
    // clock evidence from stats replies
    struct Ev { u64 inv_n, resp_n; int conn, order; i64 t; };
    std::vector<Ev> ev;
    if (o.refine_clock) for (auto& op : all) if (op->k == O_STATS && op->res == R_SUCC && op->stats.count("time"))
        ev.push_back({op->inv_n, op->resp_n, op->conn, op->order, (i64)strtoll(op->stats["time"].c_str(), nullptr, 10)});
    u64 maxt = g_now;
    for (auto& key : keys) {
        std::vector<KOp> ks;
        auto add = [&](const Op& op, int part) {
            KOp k{};
            k.src = &op; k.k = op.k; k.conn = op.conn; k.order = op.order; k.inv_n = op.inv_n; k.resp_n = op.resp_n; k.res = op.res;
            k.pending = op.res == R_PENDING;
            gcur_range(h, op.inv_t, op.resp_t == NEVER ? maxt : op.resp_t, o.lag, k.glo, k.ghi);
            for (auto& e : ev) {
                if (e.resp_n < op.inv_n || (e.conn == op.conn && e.order < op.order)) k.glo = std::max(k.glo, e.t);
                if ((e.inv_n > op.resp_n) || (e.conn == op.conn && e.order > op.order)) k.ghi = std::min(k.ghi, e.t);
            }
            if (k.glo > k.ghi) k.ghi = k.glo;
            if (part >= 0) {
                // element of a text get
                k.k = O_GET;
                int nth = 0;
                if (part > 0) for (int i = 0; i < part; ++i) { const string& kk = i == 0 ? op.key : op.more[i - 1]; if (kk == key) ++nth; }
                if (!k.pending) {
                    // k-th occurrence of the key asked for against the hits in order
                    int want = nth, total = (op.key == key);
                    for (auto& m : op.more) total += m == key;
                    std::vector<const Hit*> hs;
                    for (auto& hh : op.hits) if (hh.key == key) hs.push_back(&hh);
                    const Hit* hit = nullptr;
                    if ((int)hs.size() == total) hit = hs[want];
                    else if (hs.empty()) hit = nullptr;
                    else return;      // ambiguous: some of several identical keys hit
                    if (hit) { k.res = R_SUCC; k.got_val = true; k.rval = vid(hit->val); k.rflags = hit->flags; if (op.gets) { k.got_cas = true; k.rcas = hit->cas; } }
                    else k.res = R_NOTFOUND;
                }
                ks.push_back(k);
                return;
            }
            if (op.res == R_SUCC && op.got_val) { k.got_val = true; k.rval = vid(op.rval); k.rflags = op.rflags; }
            k.got_cas = op.got_cas; k.rcas = op.rcas; k.got_num = op.got_num; k.rnum = op.rnum;
            if (op.res == R_SILENT && op.bin) {
                // silence of a quiet command means success, for quiet gets a miss
                if (op.k == O_GET || op.k == O_GAT || op.k == O_LAG) k.res = R_NOTFOUND;
                else if (op.k == O_DELETE) { k.res = R_SILENT; }
                else k.res = R_SUCC;
            }
            if (op.res == R_TOOLARGE || op.res == R_INVALID || op.res == R_UNKNOWN || op.res == R_ERROR) return;   // no effect
            k.val = vid(op.val); k.flags = op.flags;
            k.delta = op.delta; k.initial = op.initial; k.create = op.create;
            k.cas = op.cas; k.cas_content = op.cas_content && op.cas; if (k.cas_content) { k.cas_val = vid(op.cas_val); k.cas_flags = op.cas_flags; }
            if (op.bin && op.k == O_CAS) { k.store_rep = op.bin_store == 1; k.store_add = op.bin_store == 2; }
            if (op.has_exp) {
                i64 e = op.exp;
                if (op.bin && (u32)e == 0xffffffffu && (op.k == O_GAT || op.k == O_LAG || op.k == O_GET)) k.ek = 0;
                else if (e == 0) k.ek = 1;
                else if (e > 60 * 60 * 24 * 30) { k.ek = 2; k.ea = k.eb = e; }
                else { k.ek = 2; k.ea = k.glo + e; k.eb = k.ghi + e; }
            }
            ks.push_back(k);
        };
        for (auto& op : all) {
            if (!modelled(op->k)) continue;
            if (op->k == O_UNLOCK_ALL) { if (conn_keys[op->conn].count(key)) add(*op, -1); continue; }
            if (op->k == O_GET && !op->bin) {
                if (op->key == key) add(*op, 0);
                for (size_t i = 0; i < op->more.size(); ++i) if (op->more[i] == key) add(*op, i + 1);
                continue;
            }
            if (op->key == key) add(*op, -1);
        }
        // lost connections give up their locks
        std::vector<Op> rel; rel.reserve(g_hist.conns.size());
        std::set<int> used; for (auto& k : ks) used.insert(k.conn);
        for (auto& c : g_hist.conns) if (c.ended && used.count(c.conn)) {
            KOp k{}; k.k = O_RELEASE; k.conn = c.conn; k.order = 0x7fffffff; k.inv_n = c.end_n; k.res = R_SUCC; k.pending = false;
            u64 limit = c.end_t + (c.how == E_VANISH ? o.vanish_bound : o.release_bound);
            k.resp_n = NEVER;
            // first event after the limit
            for (auto& op : all) if (op->inv_t >= limit && op->inv_n < k.resp_n) k.resp_n = op->inv_n - 1;
            if (k.resp_n <= k.inv_n) k.resp_n = k.inv_n + 1;
            k.glo = -1; k.ghi = 1ll << 60;
            i64 a, b; gcur_range(h, c.end_t, std::min(limit, maxt), o.lag, a, b); k.glo = a; k.ghi = b;
            ks.push_back(k);
            rel.emplace_back();
        }
        for (auto& w : o.drop_windows) {
            KOp k{}; k.k = O_FLUSH; k.conn = -2 - (int)(&w - &o.drop_windows[0]); k.order = 0; k.inv_n = w.first; k.resp_n = w.second; k.res = R_SUCC; k.pending = false; k.glo = 0; k.ghi = 0;
            i64 a, b; gcur_range(h, 0, maxt, o.lag, a, b); k.glo = a; k.ghi = b;
            ks.push_back(k);
        }
        Checker c(ks, o);
        { i64 a; gcur_range(h, 0, maxt, 0, a, c.clock_max); }
        ++g_chk.keys; g_chk.ops += ks.size();
        bool ok = c.dfs(St());
        g_chk.states += c.states;
        if (c.overflow) { ++g_chk.undetermined; continue; }
        if (!ok) {
            string m = "no order of the commands on key " + show(key) + " explains the replies.";
            m += " Longest explainable prefix (" + std::to_string(c.best_n) + " of " + std::to_string(ks.size()) + "), then the item is ";
            if (!c.best_st.ex) m += "absent";
            else m += "'" + show(g_vals[c.best_st.val]) + "' flags " + std::to_string(c.best_st.flags) + (c.best_st.lock >= 0 ? " locked by conn " + std::to_string(c.best_st.lock) : string()) + (c.best_st.hasexp ? " expiring " + std::to_string(c.best_st.ea) + ".." + std::to_string(c.best_st.eb) : string()) + " cas " + std::to_string(c.best_st.cas);
            std::vector<bool> in(ks.size());
            m += "\n  performed:";
            for (size_t j = 0; j < c.best.size(); ++j) { in[c.best[j]] = true; if (j + 14 >= c.best.size()) { auto& k = ks[c.best[j]]; m += "\n    " + (k.src ? k.src->desc() : "conn " + std::to_string(k.conn) + " " + op_names[k.k]); } }
            m += "\n  cannot be placed:";
            int cnt = 0;
            std::vector<int> rest;
            for (size_t i = 0; i < ks.size(); ++i) if (!in[i]) rest.push_back(i);
            std::sort(rest.begin(), rest.end(), [&](int a, int b) { return ks[a].inv_n < ks[b].inv_n; });
            for (int i : rest) { auto& k = ks[i]; m += "\n    " + (k.src ? k.src->desc() : "conn " + std::to_string(k.conn) + " " + op_names[k.k]) + " (server clock " + std::to_string(k.glo) + ".." + std::to_string(k.ghi) + ")"; if (++cnt == 8) break; }
            violate(cls, m);
            return;
        }
    }
}

} // namespace sim
