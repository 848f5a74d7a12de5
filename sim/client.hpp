// Simulated cache clients: operations, protocol encoding and strict reply parsing.
#pragma once
#include "kern.hpp"

namespace sim {

enum OpK {
    O_GET, O_GAT, O_TOUCH, O_LAG, O_SET, O_ADD, O_REPLACE, O_CAS, O_APPEND, O_PREPEND, O_INCR, O_DECR,
    O_DELETE, O_LOCK, O_UNLOCK, O_UNLOCK_ALL, O_RAU, O_FLUSH, O_STATS, O_KEYS, O_VERSION, O_NOOP, O_QUIT,
    O_RELEASE,      // pseudo operation: the connection's locks end
    O_RAW, O_NKINDS
};
extern const char* const op_names[];
enum Res {
    R_PENDING, R_SILENT, R_SUCC, R_NOTFOUND, R_EXISTS, R_NOTSTORED, R_LOCKED, R_NOTLOCKED, R_NONNUM,
    R_TOOLARGE, R_INVALID, R_UNKNOWN, R_ERROR
};
extern const char* const res_names[];

struct Hit { string key, val; u32 flags = 0; u64 cas = 0; };

struct Op {
    u32 id = 0;                 // plan item
    OpK k = O_GET;
    bool bin = false, quiet = false;   // quiet: binary Q or text noreply
    bool withkey = false;       // binary GetK and the like
    bool gets = false;          // text gets
    string key;
    std::vector<string> more;   // further keys of a text get
    string val;
    u32 flags = 0;
    bool has_exp = false; i64 exp = 0;   // protocol value
    u64 delta = 0, initial = 0; bool create = false;   // binary incr/decr
    int cas_mode = 0;           // 1: last token seen, 2: the one before, 3: an invented one
    int bin_store = 0;          // for O_CAS in binary: 0 set, 1 replace, 2 add
    string arg;                 // stats / keys argument; raw bytes
    bool raw_replies = false;
    double split = 0; u64 split_delay = 0;   // send a first part, then the rest later
    // at run time
    u64 cas = 0; bool cas_have = false; string cas_val; u32 cas_flags = 0; bool cas_content = false;
    u32 opaque = 0; u8 opcode = 0;
    int client = -1, conn = -1, order = 0, node_gen = 0, node_host = 0;
    u64 inv_t = 0, inv_n = 0, resp_t = NEVER, resp_n = NEVER;
    Res res = R_PENDING;
    bool got_val = false; string rval; u32 rflags = 0;
    bool got_cas = false; u64 rcas = 0;
    bool got_num = false; u64 rnum = 0;
    std::vector<Hit> hits;
    std::map<string, string> stats;
    std::vector<string> keys;
    string desc() const;
};
typedef std::shared_ptr<Op> OpP;

enum StepK { ST_OP, ST_WAIT, ST_END, ST_READ, ST_BARRIER, ST_SYNC, ST_CALL, ST_CONNECT };
enum EndK { E_CLOSE, E_FIN, E_RESET, E_VANISH, E_QUIT, E_BY_SERVER, E_ABANDON };
extern const char* const end_names[];
struct Step {
    u32 id = 0;
    StepK k = ST_OP;
    OpP op;
    u64 ns = 0;
    EndK end = E_CLOSE;
    bool on = true;
    int sync = 0;
    std::function<void()> call;
};

struct ConnRec {
    int conn = 0, client = 0;
    u64 start_t = 0, est_t = 0, end_t = NEVER, end_n = NEVER;    // end_*: when the client ended it
    EndK how = E_ABANDON; bool ended = false;
    u64 gone_t = NEVER;     // the client learned that the server closed it
    bool refused = false, connected = false;
    u64 sent = 0, rcvd = 0, replies = 0;
    SockP s;
};

struct Client : ExtHandler {
    int id = 0; u32 ip = 0, to = 0; int port = 11211;
    std::vector<Step> plan; size_t pos = 0;
    u32 window = 1;
    bool auto_reconnect = true; u64 reconnect_delay = 20 * MSEC; u32 max_reconnect = 50;
    bool started = false, finished = false, waiting = false, at_sync = false;
    int sync_id = 0;
    bool expect_close = false;
    // current connection
    int conn = -1; SockP s; bool up = false; string in; size_t inoff = 0;
    std::deque<OpP> out;      // sent, not resolved
    bool holding = false; string held;
    bool protocol_off = false;
    u32 n_conn = 0; u64 wait_token = 0; u32 failures = 0;
    u64 last_progress = 0, net_moved = 0;
    u32 order = 0;
    struct Tok { u64 cas; string val; u32 flags; bool content; };
    std::map<string, std::deque<Tok>> toks;
    std::function<void(OpP)> on_reply;       // after each resolved op
    std::function<void(Client*)> on_gone;    // connection lost
    string raw_in;            // bytes received in raw mode
    bool raw_mode = false;

    void start(u64 t);
    void connect();
    void pump();
    void do_end(EndK k);
    void send_op(const OpP& op, string& batch);
    void flush_batch(const string& b);
    void on_connected(bool ok, int err) override;
    void on_data() override;
    void on_eof() override;
    void on_reset() override;
    void lost(EndK how);
    void parse();
    bool parse_one();
    bool parse_bin(); bool parse_text();
    void resolve(const OpP& op, Res r);
    void skip_silent(size_t upto);
    void bad(const string& why);
    void note_tok(const OpP& op);
    u32 busy() const; bool sync_quiet(string& batch);
    bool idle() const { return out.empty(); }
    string state() const;
};

struct History {
    std::vector<OpP> ops;
    std::vector<ConnRec> conns;
    std::vector<std::unique_ptr<Client>> clients;
    u64 n = 0;       // event order
    u64 ops_done = 0;
    void clear();
};
extern History g_hist;
string encode(Op& op);
Client* add_client(u32 to, int port = 11211);
bool all_finished();
string clients_state();
string show(const string& v, size_t max = 40);

// ------------------------------------------------------------ linearizability
struct KOp {       // one operation as seen by one key
    OpK k; int conn; int order; u64 inv_n, resp_n;
    Res res; bool pending;
    bool got_val = false; int rval = -1; u32 rflags = 0;
    bool got_cas = false; u64 rcas = 0;
    bool got_num = false; u64 rnum = 0;
    int val = -1; u32 flags = 0;
    int ek = 0; i64 ea = 0, eb = 0;   // expiry set by the op: 0 unchanged, 1 none, 2 absolute in [ea, eb]
    u64 delta = 0, initial = 0; bool create = false;
    u64 cas = 0; bool cas_content = false; int cas_val = -1; u32 cas_flags = 0;
    bool store_add = false, store_rep = false;
    i64 glo = 0, ghi = 0;             // server clock while it may have run, seconds
    const Op* src = nullptr;
};
struct CheckOpts {
    u64 release_bound = 10 * SEC;     // locks of a lost connection are gone by then
    u64 vanish_bound = 360 * SEC;
    u64 lag = 3;                      // server clock may lag that many seconds
    bool refine_clock = true;
    size_t heap_limit = 256 << 10;    // larger values live in files and are never numbers
    std::vector<std::pair<u64, u64>> drop_windows;  // event-order windows in which an item may disappear
    bool may_vanish = false;          // an unlocked item may disappear at any time (eviction, flush)
    bool revive = false;              // the clock may go back, or a flush be replaced: a dead item may be seen again
    size_t max_states = 400000;
};
struct CheckStat { u64 keys = 0, ops = 0, states = 0, undetermined = 0; };
extern CheckStat g_chk;
// Checks every key of the history; reports violations with class `cls`.
void check_linearizable(const string& cls, const CheckOpts& o, Host* h, const std::function<bool(const Op&)>& filter = nullptr);
void gcur_range(Host* h, u64 t0, u64 t1, u64 lag, i64& lo, i64& hi);

} // namespace sim
