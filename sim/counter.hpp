// Clients of the resource counters and their reference model.
#pragma once
#include "scen.hpp"
namespace sim {
enum CK { K_NOOP, K_GET, K_ACQ, K_REL, K_STATS, K_DUMP, K_END };
enum CS { CS_PENDING, CS_OK, CS_NOTFOUND, CS_INVALID, CS_NOTAVAIL, CS_NOTACQ, CS_UNKNOWN };
struct COp {
    CK k = K_GET; string name; u32 res = 0, max = 0; u32 split = 0; u64 split_delay = 0;
    int conn = -1, order = 0; u32 opaque = 0; u8 opcode = 0; u64 inv_t = 0, inv_n = 0, resp_t = NEVER, resp_n = NEVER; CS st = CS_PENDING; u32 val = 0;
    struct Ent { string name; u32 cons, peak; };
    std::vector<Ent> list; std::map<string, string> stats;
    string desc() const;
};
typedef std::shared_ptr<COp> COpP;
struct CStep { u32 id = 0; StepK k = ST_OP; COpP op; u64 ns = 0; EndK end = E_CLOSE; std::function<void()> call; };
struct CConn { int client = 0; bool ended = false; u64 end_t = 0, end_n = 0; EndK how = E_CLOSE; bool busy = false; u64 prov_n = 0, prov_t = 0; };     // provoked: the server may end it from then on
struct CClient : ExtHandler {
    int id = 0; u32 ip = 0; std::vector<CStep> plan; size_t pos = 0; u32 window = 1; u64 reconnect_delay = 1;
    bool started = false, finished = false, waiting = false, splitting = false, up = false, provoked = false, may_be_closed = false;
    SockP s; int conn = -1; string in; std::deque<COpP> out; u32 order = 0, split_tok = 0, failures = 0; u64 last_progress = 0;
    void start(u64 t); void pump(); void end(EndK e); void gone(); void bad(const string& why); bool parse_one();
    void on_connected(bool ok, int err) override; void on_data() override; void on_eof() override; void on_reset() override;
};
struct CntHist { std::vector<COpP> ops; std::vector<CConn> conns; std::vector<std::unique_ptr<CClient>> clients; u64 n = 0; };
extern CntHist g_cnt;
CClient* add_cclient();
bool cclients_done();
string cclients_state();
void check_counters(Host* h, u64 interval, u64 release_bound, u64 vanish_bound);
}
