#pragma once
#include "scen.hpp"

namespace sim {
namespace {

// A visitor: connects, asks something now and then, leaves.
struct Guest : ExtHandler {
    int id = 0, port = 11211; u32 from = 0; SockP s; u64 t0 = 0, t_up = 0, t_first = 0, t_end = NEVER, stay = 0, period = 0;
    bool wanted = false, up = false, ended = false, by_server = false, refused = false, stuffed = false; u32 how = 0; u32 asked = 0, answered = 0; u64 t_ask = 0; u32 got = 0;
    std::function<void(Guest*)> on_answer, on_gone;
    void start(u32 vip) { t0 = g_now; s = ext_connect(this, from, vip, port); }
    void on_connected(bool ok, int) override {
        if (!ok) { refused = true; fin(true); return; }
        up = true; t_up = g_now; note(1000 + id);
        if (port == 11213) { beat(); after(stay, [this] { leave(); }); return; }
        if (stuffed) stuff(); else ask();
        after(stay, [this] { leave(); });
    }
    void beat() { if (!s || ended) return; ext_send(s, string(1, '\0')); after(700 * MSEC, [this] { beat(); }); }
    void stuff() {
        string v(60000, 'z'), m = "set big 0 0 60000\r\n" + v + "\r\n";
        for (int i = 0; i < 40; ++i) m += "get big\r\n";
        ext_set_reading(s, false);
        ext_send(s, m);
    }
    void ask() {
        if (!s || ended || asked > answered) return;
        ++asked; t_ask = g_now; got = 0;
        if (port == 11211) ext_send(s, "version\r\n");
        else { string m(12, '\0'); m[0] = (char)0x90; ext_send(s, m); }
    }
    void on_data() override {
        string d;
        while (s && !(d = ext_recv(s, 1 << 16)).empty()) {
            if (stuffed || port == 11213) continue;
            for (char c : d) { ++got; if (port == 11211 ? c == '\n' : got == 12) { ++answered; note(id); if (!t_first) t_first = g_now; on_answer(this); got = 0; if (period) after(period, [this] { ask(); }); } }
        }
    }
    void fin(bool srv) { if (ended) return; ended = true; by_server = srv; t_end = g_now; note(2000 + id + srv); if (s && s->ext == this) s->ext = nullptr; s = nullptr; on_gone(this); }
    void on_eof() override { auto k = s; if (ended) { if (k) ext_close(k); s = nullptr; return; } fin(true); if (k) ext_close(k); }
    void on_reset() override { if (ended) { s = nullptr; return; } fin(true); }
    void leave() {
        if (!s || ended) return;
        auto k = s;
        if (how == 3 && asked > answered) { after(50 * MSEC, [this] { leave(); }); return; }    // nothing is on the way
        logf("guest %d leaves (%u)", id, how);
        if (stuffed && how == 1) { ext_set_reading(k, true); }      // otherwise the server has every right to wait for it
        if (how == 1) { ended = true; t_end = g_now; ext_shutdown(k); on_gone(this); return; }        // half closed: the server must close
        fin(false);
        if (how == 0) ext_close(k); else if (how == 2) ext_reset(k); else ext_vanish(k);
    }
};

} // namespace
} // namespace sim
