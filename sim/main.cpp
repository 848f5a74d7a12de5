// ysim: runs, searches, minimises and replays simulated executions of yrmcds.
#include <locale>
#include <sstream>
#include "scen.hpp"
#include <algorithm>
#include <csignal>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <sched.h>
#include <sstream>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace sim;

static double mono() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

struct Result {
    bool ok = false; string why;         // ok: the run ended by itself
    string cls, msg, endwhy;
    u64 hash = 0, ileave = 0, steps = 0, switches = 0, now = 0, ops = 0, plan = 0;
    u64 chk_keys = 0, chk_ops = 0, chk_states = 0, chk_undet = 0, hist = 0;
    u32 strat = 0;
    std::map<string, u64> faults, reach;
    std::map<u64, u32> dev[C_NCAT];
    std::vector<std::pair<u32, string>> items;
    double wall = 0;
};
struct Spec {
    string scenario; u64 seed = 1, sched = 1; std::set<u32> drop; bool replay = false;
    std::map<u64, u32> dev[C_NCAT]; std::map<string, string> opt; int verbose = 0;
};

static string esc(const string& s) { string o; for (char c : s) { if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n"; else o += c; } return o; }
static string unesc(const string& s) { string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\\' && i + 1 < s.size()) { ++i; o += s[i] == 'n' ? '\n' : s[i]; } else o += s[i]; } return o; }
static string jesc(const string& s) {
    string o;
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
    return o;
}

// ---------------------------------------------------------------- one run (in its own process)
static void run_here(const Spec& sp, int outfd, bool items) {
    g_cfg.seed = sp.seed; g_cfg.sched_seed = sp.sched; g_cfg.scenario = sp.scenario; g_cfg.drop = sp.drop; g_cfg.replay = sp.replay;
    for (int i = 0; i < C_NCAT; ++i) g_cfg.dev[i] = sp.dev[i];
    g_cfg.opt = sp.opt; g_cfg.verbose = sp.verbose;
    g_rng_plan.reseed(sp.seed * 0x9E3779B97F4A7C15ull + 11);
    g_rng_sched.reseed(sp.sched * 0xD1B54A32D192ED03ull + 22);
    g_rng_net.reseed(sp.sched * 0xD1B54A32D192ED03ull + 33);
    g_rng_fault.reseed(sp.sched * 0xD1B54A32D192ED03ull + 44);
    auto it = scenarios().find(sp.scenario);
    if (it == scenarios().end()) { fprintf(stderr, "ysim: no scenario %s\n", sp.scenario.c_str()); _exit(3); }
    auto sc = it->second();
    g_scen = sc.get();
    install_fault_handler();
    sc->base_setup();
    sc->setup();
    run_until_end(sc->max_ns, sc->max_steps);
    if (!violated() && (g_end_why == "time" || g_end_why == "steps" || g_end_why == "idle") && !sc->hang_allowed())
        violate("hang", "the run did not finish (" + g_end_why + ")\n" + clients_state() + describe_threads());
    if (!violated() && g_only.empty()) sc->oracle();
    remove_conf_files();
    u64 hh = g_note;
    for (auto& o : g_hist.ops) { u64 v = o->k * 131 + o->res * 7 + o->client; hh = (hh ^ v) * 1099511628211ull; for (char c : o->rval.substr(0, 16)) hh = (hh ^ (u8)c) * 1099511628211ull; }
    std::ostringstream os;
    os << "hash " << g_hash << "\nileave " << g_ileave << "\nsteps " << g_steps << "\nswitches " << g_switches << "\nnow " << g_now << "\nops " << g_hist.ops_done
       << "\nhist " << hh << "\nckeys " << g_chk.keys << "\ncops " << g_chk.ops << "\ncstates " << g_chk.states << "\ncundet " << g_chk.undetermined << "\nstrat " << g_strat.kind << "\nplan " << sc->idgen << "\nend " << esc(g_end_why) << "\n";
    for (auto& f : g_faults) os << "fault " << f.second << " " << f.first << "\n";
    for (auto& f : g_reach) os << "reach " << f.second << " " << f.first << "\n";
    if (!g_viol.empty()) {
        os << "viol " << g_viol[0].cls << " " << esc(g_viol[0].msg) << "\n";
        for (int c = 0; c < C_NCAT; ++c) { os << "dev " << c; for (auto& d : g_cfg.dev[c]) os << " " << d.first << ":" << d.second; os << "\n"; }
        if (items) for (auto& i : sc->items) os << "item " << i.first << " " << esc(i.second) << "\n";
    }
    os << "done\n";
    string s = os.str();
    size_t off = 0;
    while (off < s.size()) { ssize_t w = ::write(outfd, s.data() + off, s.size() - off); if (w <= 0) break; off += w; }
    _exit(0);
}
static void parse_dev(std::istringstream& is, std::map<u64, u32>* dev) {
    int c; is >> c; string t;
    while (is >> t) { size_t p = t.find(':'); dev[c][strtoull(t.c_str(), 0, 10)] = strtoul(t.c_str() + p + 1, 0, 10); }
}
static double g_run_timeout = 60;
static Result run_child(const Spec& sp, bool items = false, const char* logfile = nullptr) {
    Result r;
    double t0 = mono();
    int p[2];
    if (pipe(p)) { perror("pipe"); exit(3); }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        if (logfile) { int f = open(logfile, O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(f, 1); dup2(f, 2); }
        run_here(sp, p[1], items);
        _exit(9);
    }
    close(p[1]);
    string buf; char tmp[65536];
    while (true) {
        struct pollfd pf{p[0], POLLIN, 0};
        double left = t0 + g_run_timeout - mono();
        if (left <= 0) { kill(pid, SIGKILL); r.why = "real-time limit"; break; }
        int k = poll(&pf, 1, (int)(left * 1000) + 1);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) continue;
        ssize_t n = read(p[0], tmp, sizeof tmp);
        if (n <= 0) break;
        buf.append(tmp, n);
    }
    close(p[0]);
    int st = 0; waitpid(pid, &st, 0);
    r.wall = mono() - t0;
    std::istringstream in(buf); string line;
    while (std::getline(in, line)) {
        std::istringstream is(line); string k; is >> k;
        if (k == "hash") is >> r.hash; else if (k == "ileave") is >> r.ileave; else if (k == "steps") is >> r.steps; else if (k == "switches") is >> r.switches;
        else if (k == "now") is >> r.now; else if (k == "ops") is >> r.ops; else if (k == "hist") is >> r.hist; else if (k == "ckeys") is >> r.chk_keys; else if (k == "cops") is >> r.chk_ops;
        else if (k == "cstates") is >> r.chk_states; else if (k == "cundet") is >> r.chk_undet; else if (k == "strat") is >> r.strat; else if (k == "plan") is >> r.plan;
        else if (k == "end") { r.endwhy = line.substr(4); }
        else if (k == "fault" || k == "reach") { u64 n; is >> n; string w; std::getline(is, w); (k == "fault" ? r.faults : r.reach)[w.substr(1)] += n; }
        else if (k == "viol") { is >> r.cls; string w; std::getline(is, w); r.msg = unesc(w.size() ? w.substr(1) : w); }
        else if (k == "dev") parse_dev(is, r.dev);
        else if (k == "item") { u32 i; is >> i; string w; std::getline(is, w); r.items.push_back({i, unesc(w.substr(1))}); }
        else if (k == "done") r.ok = true;
    }
    if (!r.ok && r.why.empty()) r.why = WIFSIGNALED(st) ? "simulator died of signal " + std::to_string(WTERMSIG(st)) : "simulator exited " + std::to_string(WEXITSTATUS(st));
    return r;
}

// ---------------------------------------------------------------- replay files
static void write_replay(const string& path, const string& prop, const Spec& sp, const Result& r, const string& trace) {
    std::ofstream f(path);
    f << "ysim-replay 1\nproperty " << prop << "\nscenario " << sp.scenario << "\nseed " << sp.seed << "\nsched " << sp.sched << "\n";
    for (auto& o : sp.opt) f << "opt " << o.first << " " << o.second << "\n";
    f << "drop"; for (u32 d : sp.drop) f << " " << d; f << "\n";
    for (int c = 0; c < C_NCAT; ++c) { f << "dev " << c; for (auto& d : sp.dev[c]) f << " " << d.first << ":" << d.second; f << "\n"; }
    f << "class " << r.cls << "\nhash " << r.hash << "\nmsg " << esc(r.msg) << "\n";
    f << "---\n" << r.msg << "\n\nplan:\n";
    for (auto& i : r.items) if (!sp.drop.count(i.first)) f << "  #" << i.first << " " << i.second << "\n";
    f << "\ntrace:\n" << trace;
}
static bool read_replay(const string& path, Spec& sp, string& cls, u64& hash, string& prop) {
    std::ifstream f(path); string line;
    if (!std::getline(f, line) || line != "ysim-replay 1") return false;
    while (std::getline(f, line)) {
        if (line == "---") break;
        std::istringstream is(line); string k; is >> k;
        if (k == "property") is >> prop; else if (k == "scenario") is >> sp.scenario; else if (k == "seed") is >> sp.seed; else if (k == "sched") is >> sp.sched;
        else if (k == "opt") { string a, b; is >> a >> b; sp.opt[a] = b; }
        else if (k == "drop") { u32 d; while (is >> d) sp.drop.insert(d); }
        else if (k == "dev") parse_dev(is, sp.dev);
        else if (k == "class") is >> cls; else if (k == "hash") is >> hash;
    }
    sp.replay = true;
    return true;
}

// ---------------------------------------------------------------- minimisation
static Spec as_replay(const Spec& sp, const Result& r) { Spec q = sp; q.replay = true; for (int c = 0; c < C_NCAT; ++c) q.dev[c] = r.dev[c]; return q; }
static bool same(const Result& r, const string& cls) { return r.ok && r.cls == cls; }

static void minimise(Spec& sp, Result& r, double budget, u64& tried) {
    double end = mono() + budget;
    string cls = r.cls;
    // 1. the workload, searching for a schedule again where needed
    Spec s = sp; s.replay = false; for (auto& d : s.dev) d.clear();
    std::vector<u32> live;
    for (auto& i : r.items) if (!s.drop.count(i.first)) live.push_back(i.first);
    size_t chunk = std::max<size_t>(1, live.size() / 2);
    while (chunk >= 1 && mono() < end - budget / 3 && !live.empty()) {
        bool any = false;
        for (size_t i = 0; i < live.size() && mono() < end - budget / 3;) {
            Spec t = s;
            size_t n = std::min(chunk, live.size() - i);
            for (size_t j = 0; j < n; ++j) t.drop.insert(live[i + j]);
            bool hit = false;
            for (int k = 0; k < 4 && !hit; ++k) {
                Spec u = t; if (k) u.sched = s.sched + 1000003ull * k + live.size();
                ++tried;
                Result q = run_child(u, true);
                if (same(q, cls)) { s = u; r = q; hit = true; }
                if (mono() > end) break;
            }
            if (hit) { live.erase(live.begin() + i, live.begin() + i + n); any = true; } else i += n;
        }
        if (chunk == 1 && !any) break;
        chunk = chunk > 1 ? chunk / 2 : 1;
        if (chunk == 1 && !any && live.size() <= 1) break;
    }
    sp = as_replay(s, r);
    // 2. the schedule and the injected faults: back to the default where possible
    for (int c = 0; c < C_NCAT && mono() < end; ++c) {
        if (sp.dev[c].empty()) continue;
        Spec t = sp; t.dev[c].clear();
        ++tried;
        Result q = run_child(t, true);
        if (same(q, cls)) { sp = as_replay(t, q); for (int k = 0; k < C_NCAT; ++k) sp.dev[k] = t.dev[k]; r = q; continue; }
        std::vector<std::pair<u64, u32>> v(sp.dev[c].begin(), sp.dev[c].end());
        size_t ch = std::max<size_t>(1, v.size() / 2);
        while (mono() < end) {
            bool any = false;
            for (size_t i = 0; i < v.size() && mono() < end;) {
                Spec u = sp;
                std::vector<std::pair<u64, u32>> w(v.begin(), v.begin() + i);
                size_t n = std::min(ch, v.size() - i);
                w.insert(w.end(), v.begin() + i + n, v.end());
                u.dev[c] = std::map<u64, u32>(w.begin(), w.end());
                ++tried;
                Result q2 = run_child(u, true);
                if (same(q2, cls)) { v = w; sp = u; r = q2; any = true; } else i += n;
            }
            if (ch == 1) { if (!any) break; } else ch /= 2;
        }
    }
}

// ---------------------------------------------------------------- batch
static void batch(int argc, char** argv) {
    std::map<string, string> a; Spec base;
    std::vector<std::pair<string, string>> known;   // class, substring
    std::vector<std::pair<string, u32>> scs;
    std::set<string> classes;     // classes that count for this property; empty: all
    for (int i = 0; i + 1 < argc; i += 2) {
        string k = argv[i], v = argv[i + 1];
        if (k == "--opt") { size_t p = v.find('='); base.opt[v.substr(0, p)] = v.substr(p + 1); }
        else if (k == "--known") { size_t p = v.find('|'); known.push_back({v.substr(0, p), v.substr(p + 1)}); }
        else if (k == "--scen") { size_t p = v.find(':'); scs.push_back({v.substr(0, p), p == string::npos ? 1 : atoi(v.c_str() + p + 1)}); }
        else if (k == "--ignore") classes.insert(v);
        else a[k] = v;
    }
    u64 first = strtoull(a["--first"].c_str(), 0, 10), stride = std::max(1ull, strtoull(a["--stride"].c_str(), 0, 10)), max_runs = a.count("--runs") ? strtoull(a["--runs"].c_str(), 0, 10) : ~0ull;
    double limit = atof(a["--time"].c_str()), minbudget = a.count("--min") ? atof(a["--min"].c_str()) : 25;
    string prop = a["--property"], dir = a["--dir"];
    u32 per = a.count("--per") ? atoi(a["--per"].c_str()) : 3, maxviol = a.count("--maxviol") ? atoi(a["--maxviol"].c_str()) : 1, detcheck = a.count("--detcheck") ? atoi(a["--detcheck"].c_str()) : 40;
    u64 seedbase = strtoull(a["--seedbase"].c_str(), 0, 10);
    double t0 = mono();
    u64 runs = 0, ops = 0, simt = 0, steps = 0, switches = 0, bad = 0, detruns = 0, nondet = 0, ck = 0, co = 0, cs = 0, cu = 0, mintries = 0, seeds = 0, unconfirmed = 0, nontrivial = 0, ignored = 0;
    std::set<u64> ileaves, hists; std::map<string, u64> faults, reachc, ends, knownc, badwhy; std::map<u32, u64> strat; std::map<string, u64> per_scen;
    std::vector<string> viols, samples; std::set<u64> seedset;
    u32 totw = 0; for (auto& s : scs) totw += s.second;
    for (u64 i = first; runs < max_runs && mono() - t0 < limit; i += stride) {
        Spec sp = base;
        u32 x = (i / per) % totw;
        for (auto& s : scs) { if (x < s.second) { sp.scenario = s.first; break; } x -= s.second; }
        sp.seed = seedbase * 1000000007ull + i / per + 1; sp.sched = seedbase * 7919 + i + 1;
        Result r = run_child(sp, true);
        ++runs; seedset.insert(sp.seed); ++per_scen[sp.scenario];
        if (!r.ok) {
            ++bad; badwhy[r.why]++;
            if (a.count("--badlog")) fprintf(stderr, "BAD %s seed %lu sched %lu: %s\n", sp.scenario.c_str(), sp.seed, sp.sched, r.why.c_str());
            continue;
        }
        ops += r.ops; simt += r.now; steps += r.steps; switches += r.switches; ck += r.chk_keys; co += r.chk_ops; cs += r.chk_states; cu += r.chk_undet;
        ileaves.insert(r.ileave); hists.insert(r.hist); if (r.ops >= 3 && r.switches > 20) ++nontrivial;
        strat[r.strat]++; ends[r.cls.empty() ? r.endwhy : "violation"]++;
        for (auto& f : r.faults) faults[f.first] += f.second;
        for (auto& f : r.reach) reachc[f.first] += f.second;
        if (samples.size() < 3) { samples.push_back(sp.scenario + " seed " + std::to_string(sp.seed) + " sched " + std::to_string(sp.sched) + ": " + std::to_string(r.ops) + " replies, " + std::to_string(r.switches) + " switches, " + std::to_string(r.now / 1e9) + " s simulated, trace hash " + std::to_string(r.hash)); }
        if (r.cls.empty()) {
            if (runs % detcheck == (detcheck > 1)) { Result q = run_child(sp, false); ++detruns; if (q.hash != r.hash) { ++nondet; if (a.count("--badlog")) { fprintf(stderr, "NONDET %s seed %lu sched %lu: %lu/%lu/%lu/%lu, %lu/%lu/%lu/%lu\n", sp.scenario.c_str(), sp.seed, sp.sched, r.steps, r.switches, r.now, r.ops, q.steps, q.switches, q.now, q.ops); Spec v = sp; v.verbose = 3; run_child(v, true, (dir + "/nd1.log").c_str()); run_child(v, true, (dir + "/nd2.log").c_str()); } } }
            continue;
        }
        if (classes.count(r.cls)) { ++ignored; continue; }
        bool kn = false;
        for (auto& k : known) if (r.cls == k.first && r.msg.find(k.second) != string::npos) { knownc[k.first + "|" + k.second]++; kn = true; break; }
        if (kn) continue;
        // confirm by exact replay
        Spec rp = as_replay(sp, r);
        Result q = run_child(rp, true);
        if (!(same(q, r.cls) && q.hash == r.hash)) { ++unconfirmed; if (a.count("--badlog")) fprintf(stderr, "UNCONFIRMED %s seed %lu sched %lu %s: %s\n", sp.scenario.c_str(), sp.seed, sp.sched, r.cls.c_str(), r.msg.c_str()); if (a.count("--badlog")) { Spec v1 = sp, v2 = rp; v1.verbose = v2.verbose = 3; run_child(v1, true, (dir + "/unc.search.log").c_str()); run_child(v2, true, (dir + "/unc.replay.log").c_str()); } continue; }
        Spec ms = sp; Result mr = r;
        if (minbudget > 0) minimise(ms, mr, minbudget, mintries); else ms = rp;
        // a minimised run may show a listed finding instead
        bool mkn = false;
        for (auto& k : known) if (mr.cls == k.first && mr.msg.find(k.second) != string::npos) mkn = true;
        if (mkn) { ms = rp; mr = r; }
        ms.replay = true;
        Result fin = run_child(ms, true);
        if (!same(fin, r.cls)) { ms = rp; fin = q; }
        char fn[200]; snprintf(fn, sizeof fn, "%s/%s-%lu-%lu.replay", dir.c_str(), sp.scenario.c_str(), sp.seed, sp.sched);
        string tl = string(fn) + ".log";
        Spec v = ms; v.verbose = 2;
        Result fr = run_child(v, true, tl.c_str());
        std::ifstream lf(tl); std::stringstream ss; ss << lf.rdbuf(); unlink(tl.c_str());
        string tr = ss.str(); if (tr.size() > 400000) tr = tr.substr(0, 200000) + "\n...\n" + tr.substr(tr.size() - 200000);
        write_replay(fn, prop, ms, fin, tr);
        size_t nd = 0; for (auto& d : ms.dev) nd += d.size();
        printf("VIOL %s %s\n", fn, esc(fin.cls + ": " + fin.msg).c_str());
        printf("NOTE minimised to %zu plan items of %zu and %zu scheduling, network and fault decisions\n", fin.items.size() - [&] { size_t n = 0; for (auto& it : fin.items) n += ms.drop.count(it.first); return n; }(), fin.items.size(), nd);
        fflush(stdout);
        viols.push_back(fn);
        if (viols.size() >= maxviol) break;
    }
    if (!dir.empty()) {   // what makes runs distinct, for the union over processes
        std::ofstream f(dir + "/distinct-" + std::to_string(first) + ".txt");
        for (u64 h : hists) f << "h " << h << "\n";
        for (u64 h : ileaves) f << "i " << h << "\n";
        for (u64 h : seedset) f << "s " << h << "\n";
    }
    printf("SUMMARY {\"runs\":%lu,\"seeds\":%zu,\"ops\":%lu,\"sim_ns\":%lu,\"steps\":%lu,\"switches\":%lu,\"bad\":%lu,\"det_checked\":%lu,\"nondet\":%lu,\"chk_keys\":%lu,\"chk_ops\":%lu,\"chk_states\":%lu,\"chk_undetermined\":%lu,\"min_tries\":%lu,\"unconfirmed\":%lu,\"ignored\":%lu,\"nontrivial\":%lu,\"distinct_interleavings\":%zu,\"distinct_histories\":%zu,\"wall\":%.2f",
           runs, seedset.size(), ops, simt, steps, switches, bad, detruns, nondet, ck, co, cs, cu, mintries, unconfirmed, ignored, nontrivial, ileaves.size(), hists.size(), mono() - t0);
    auto dump = [](const char* n, const std::map<string, u64>& m) { printf(",\"%s\":{", n); bool f = true; for (auto& k : m) { printf("%s\"%s\":%lu", f ? "" : ",", jesc(k.first).c_str(), k.second); f = false; } printf("}"); };
    dump("faults", faults); dump("reach", reachc); dump("ends", ends); dump("known", knownc); dump("bad_why", badwhy); dump("scenarios", per_scen);
    std::map<string, u64> st; static const char* sn[] = {"random", "pct", "sequential", "every-point"}; for (auto& s : strat) st[sn[s.first & 3]] = s.second;
    dump("strategies", st);
    printf(",\"samples\":["); for (size_t i = 0; i < samples.size(); ++i) printf("%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str()); printf("]}\n");
    (void)seeds;
}

int main(int argc, char** argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
    std::set_terminate([] { abort(); });
    signal(SIGPIPE, SIG_IGN);
    if (argc < 3) { fprintf(stderr, "usage: ysim run|batch|replay NODE.SO ...\n"); return 3; }
    string mode = argv[1], node = argv[2];
    // caches of the C++ library that inline code in the image looks at
    { auto& ct = std::use_facet<std::ctype<char>>(std::locale()); ct.widen('a'); char b1[2]; ct.widen("a", "a" + 1, b1); ct.narrow('a', 0); ct.narrow("a", "a" + 1, 0, b1); std::ostringstream os; os << 1 << ' ' << 1.5 << std::endl; std::istringstream is("1 a\n"); int x; std::string y; is >> x >> y; std::getline(is, y); }
    if (const char* c = getenv("YSIM_CPU")) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(atoi(c), &s); sched_setaffinity(0, sizeof s, &s); }
    int nul = ::open("/dev/null", O_RDWR);
    while (nul < 299) nul = dup(nul);
    arena_init();
    int mods = 8;
    if (const char* c = getenv("YSIM_MODULES")) mods = atoi(c);
    load_modules(node, mods, "/tmp");
    if (mode == "batch") { batch(argc - 3, argv + 3); fflush(stdout); _exit(0); }
    Spec sp; string cls, prop; u64 hash = 0; bool rep = false; string logf; int n = 1;
    for (int i = 3; i + 1 < argc; i += 2) {
        string k = argv[i], v = argv[i + 1];
        if (k == "--scen") sp.scenario = v; else if (k == "--seed") sp.seed = strtoull(v.c_str(), 0, 10); else if (k == "--sched") sp.sched = strtoull(v.c_str(), 0, 10);
        else if (k == "--verbose") sp.verbose = atoi(v.c_str()); else if (k == "--opt") { size_t p = v.find('='); sp.opt[v.substr(0, p)] = v.substr(p + 1); }
        else if (k == "--n") n = atoi(v.c_str());
        else if (k == "--replay") { if (!read_replay(v, sp, cls, hash, prop)) { fprintf(stderr, "cannot read %s\n", v.c_str()); return 3; } rep = true; }
    }
    int rc = 0;
    for (int i = 0; i < n; ++i) {
        Result r = run_child(sp, true);
        printf("%s seed %lu sched %lu: end '%s' %s now %.3f steps %lu switches %lu ops %lu hash %lu strat %u wall %.3f\n", sp.scenario.c_str(), sp.seed, sp.sched, r.endwhy.c_str(), r.ok ? "" : r.why.c_str(), r.now / 1e9, r.steps, r.switches, r.ops, r.hash, r.strat, r.wall);
        if (sp.verbose) { for (auto& f : r.faults) printf("  fault %s %lu\n", f.first.c_str(), f.second); for (auto& f : r.reach) printf("  reach %s %lu\n", f.first.c_str(), f.second); }
        if (!r.cls.empty()) { printf("violation %s: %s\n", r.cls.c_str(), r.msg.c_str()); rc = 1; }
        if (rep) { bool okr = r.cls == cls && r.hash == hash; printf("replay %s: recorded %s hash %lu\n", okr ? "EXACT" : "DIFFERS", cls.c_str(), hash); if (!okr) rc = 2; }
        ++sp.seed; ++sp.sched;
    }
    fflush(stdout);
    _exit(rc);
}
