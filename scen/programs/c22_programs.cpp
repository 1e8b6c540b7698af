// C22: the command-line programs of src/, their main functions run in the
// simulated process.
#include "../schemes/docs.h"

#include <sse/schemes/utils/utils.hpp>

#include <grpcpp/grpcpp.h>
#include <spdlog/spdlog.h>

#include <atomic>
#include <csignal>
#include <iostream>
#include <memory>
#include <streambuf>
#include <thread>
#include <unistd.h>

int sophos_server_main(int argc, char** argv);
int sophos_client_main(int argc, char** argv);
int diana_server_main(int argc, char** argv);
int diana_client_main(int argc, char** argv);

using namespace sim;

static Decl decl("C22", "main functions of sophos_client, sophos_server, diana_client, diana_server (src/), gen_db, client and server runners, clients, servers, protobuf messages, RocksDBCounter, RockDBWrapper, RocksDB",
              "gRPC, crypto-tk and db-parser: stand-ins of their interfaces (stubs/); network, signals, file system, threads, clock, randomness: simulator");

// ------------------------------------------------------------------ signals
static sighandler_t g_handler[65];
extern "C" sighandler_t signal(int n, sighandler_t h) noexcept
{
    if (n <= 0 || n > 64) return SIG_ERR;
    sighandler_t o = g_handler[n];
    g_handler[n] = h;
    return o;
}

namespace {
// ------------------------------------------- standard output of the client
thread_local bool t_client = false; // the server, in this process too, has its own
struct Out : std::streambuf
{
    std::string text;
    int overflow(int c) override { if (t_client && c >= 0) text += (char)c; return c < 0 ? 0 : c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { if (t_client) text.append(s, n); return n; }
};

struct State
{
    docs::Model m;
    std::vector<int> gens;               // documents of each generation that succeeded
    std::vector<int> gen_min, gen_max;   // generated documents: surely, perhaps; per generating thread
    bool     setup = false;              // a client program did all it was asked for
    bool     over = false;               // this incarnation is to be given up
    uint64_t disk0 = 0;
    int      hw = 1;
};
State* st;

uint64_t disk_faults() { return docs::io_faults() - fault_count("rpc_"); }

struct Cmd
{
    std::vector<std::vector<std::pair<int, uint64_t>>> files;
    bool missing_file = false;
    int  generate = 0;
    std::vector<int> search;
    bool check_generated = false;
    int  bad = 0;
    bool quiet = false;                  // results are not to be printed
    int  number = 0;                     // how the number of documents is written
};

std::string number(int n, int how)
{
    char b[40];
    snprintf(b, sizeof b, how ? "%de0" : "%d", n);
    return b;
}

struct Args
{
    std::vector<std::string> s;
    std::vector<char*>       v;
    void add(const std::string& x) { s.push_back(x); }
    int    argc() { return (int)s.size(); }
    char** argv()
    {
        v.clear();
        for (auto& x : s) v.push_back(&x[0]);
        v.push_back(nullptr);
        return v.data();
    }
};

// What a process starts with
void new_program()
{
    optind = 0;
    spdlog::drop("benchmark");
}

int share(int n, int t) { return (n - t + st->hw - 1) / st->hw; }

// the results printed for each keyword, of complete searches
std::vector<std::vector<uint64_t>> parse(const std::string& t)
{
    std::vector<std::vector<uint64_t>> r;
    static const char H[] = "Search results: \n{";
    size_t p = 0;
    while ((p = t.find(H, p)) != std::string::npos) {
        p += sizeof H - 1;
        size_t e = t.find('}', p);
        if (e == std::string::npos) break;
        std::vector<uint64_t> l;
        while (p < e) {
            char* end;
            l.push_back(strtoull(t.c_str() + p, &end, 10));
            size_t q = (size_t)(end - t.c_str());
            if (q == p || q > e || (q < e && t.compare(q, 2, ", ") != 0)) fail("garbled", "a client program printed '%s'", t.substr(0, 300).c_str());
            p = q < e ? q + 2 : q;
        }
        r.push_back(l);
    }
    return r;
}

bool g_excused() { return disk_faults() > st->disk0 || fault_count("rpc_") || st->over; }

// Runs a client program; false: it did not do everything it was asked for.
bool client(int (*prog)(int, char**), const Cmd& c, int& file, std::vector<std::vector<uint64_t>>* generated)
{
    Args a;
    a.add("client");
    a.add("-b"); a.add("/sim/client");
    std::vector<std::pair<int, size_t>> ins;
    uint64_t start;
    {
        Quiet q; sim::Scope s(AR_S);
        start = ++st->m.clock;
        for (auto& f : c.files) {
            std::map<int, std::vector<uint64_t>> by;
            for (auto& x : f) by[x.first].push_back(x.second);
            std::string path = "/sim/load" + std::to_string(file++), text = "{";
            for (auto& x : by) {
                text += (text.size() > 1 ? ", \"" : "\"") + st->m.name[x.first] + "\": [";
                for (size_t i = 0; i < x.second.size(); i++) text += (i ? ", " : "") + std::to_string(x.second[i]);
                text += "]";
            }
            vfs::write_file(path, text + "}");
            for (auto& x : f) {
                docs::Ins i;
                i.doc = x.second; i.start = start; i.inc = st->m.inc;
                st->m.kw[x.first].push_back(i);
                ins.push_back({x.first, st->m.kw[x.first].size() - 1});
            }
            sim::Scope app(AR_A);
            a.add("-l"); a.add(path);
        }
        if (c.generate) for (int t = 0; t < st->hw; t++) st->gen_max[t] += share(c.generate, t);
        if (c.missing_file) { sim::Scope app(AR_A); a.add("-l"); a.add("/sim/nothing"); }
        sim::Scope app(AR_A);
        if (c.generate) { a.add("-r"); a.add(number(c.generate, c.number)); }
        if (c.quiet) a.add("-q");
        if (c.bad == 1) a.add("-Z");
        if (c.bad == 2) a.add("-l");
        if (!c.bad)
            for (int k : c.search) a.add(k < (int)st->m.name.size() ? st->m.name[k] : "nothing");
        size_t ngen = generated ? generated->size() : 0;
        for (size_t t = 0; t < ngen; t++) a.add("Group-10^6_" + std::to_string(t) + "_0");
        std::string line;
        for (auto& x : a.s) line += " " + x;
        sim::trace("start:%s", line.c_str());
    }
    Out out;
    std::streambuf* before = std::cout.rdbuf(&out);
    t_client = true;
    new_program();
    int  rc = -1;
    bool threw = false;
    try { rc = prog(a.argc(), a.argv()); }
    catch (std::exception& e) {
        Quiet q;
        threw = true;
        sim::trace("the client program ends with an exception: %s", e.what());
    }
    t_client = false;
    std::cout.rdbuf(before);
    Quiet q; sim::Scope s(AR_S);
    sim::trace("the client program ends with %d", rc);
    uint64_t end = ++st->m.clock;
    bool ok = rc == 0;
    if (c.bad) {
        if (ok) fail("wrong-option", "a client program with a wrong option ends with status 0");
        probe("wrong_option");
        return true;
    }
    if (c.missing_file) {
        if (ok) fail("passed-off", "a client program which was to load a missing file ends with status 0");
        probe("missing_file");
    } else if (!ok && !g_excused()) fail("refused", "a client program %s although nothing failed", threw ? "was ended by an exception" : "reports failure");
    auto printed = parse(out.text);
    size_t want = c.search.size() + (generated ? generated->size() : 0);
    if (ok && printed.size() != want) fail("not-searched", "a client program which was to search %zu keywords printed %zu results: '%s'", want, printed.size(), out.text.substr(0, 300).c_str());
    if (!printed.empty()) st->setup = true;
    if (ok || (c.missing_file && !g_excused())) st->setup = true;
    // what was loaded before the searches: acknowledged if all went well
    if (ok || (c.missing_file && !g_excused())) {
        for (auto& x : ins) st->m.kw[x.first][x.second].end = end;
        if (ok && c.generate) {
            for (int t = 0; t < st->hw; t++) st->gen_min[t] += share(c.generate, t);
            st->gens.push_back(c.generate);
        }
        progress();
    } else for (auto& x : ins) st->m.kw[x.first][x.second].failed = true;
    for (size_t i = 0; i < printed.size(); i++) {
        std::multiset<uint64_t> res(printed[i].begin(), printed[i].end());
        if (i >= c.search.size()) { if (i - c.search.size() < generated->size()) (*generated)[i - c.search.size()] = printed[i]; continue; }
        int k = c.search[i];
        if (c.quiet) {
            if (!res.empty()) fail("not-quiet", "a client program told not to print results printed%s", docs::list(res).c_str());
            probe("quiet_search");
            continue;
        }
        if (k >= (int)st->m.name.size()) {
            if (!res.empty()) fail("extra-result", "a keyword never inserted has the documents%s", docs::list(res).c_str());
            continue;
        }
        // what this very program loaded counts as well, if it ended well
        uint64_t from = ok || (c.missing_file && !g_excused()) ? end + 1 : start;
        docs::check(st->m, k, from, end + 2, res, "a search by the client program");
        if (res.size() > 1) nontrivial();
        probe("search");
    }
    st->m.clock = end + 3;
    if (ok && c.generate) probe("generated");
    if (ok && !c.files.empty()) probe("loaded");
    return ok || (c.missing_file && !g_excused());
}

void check_generated(int (*prog)(int, char**), int& file)
{
    std::vector<std::vector<uint64_t>> g(st->hw);
    Cmd c;
    if (!client(prog, c, file, &g)) return;
    std::multiset<uint64_t> all;
    {
        Quiet q;
        for (int t = 0; t < st->hw; t++) {
            int n = (int)g[t].size();
            if (n < st->gen_min[t] || n > st->gen_max[t]) fail("generated", "thread %d generated %d documents (at most %d), a search finds %d of them", t, st->gen_min[t], st->gen_max[t], n);
            all.insert(g[t].begin(), g[t].end());
        }
    }
    bool sure = st->gen_min == st->gen_max;
    if (all.empty() || !sure) return;
    // all entries of some of these documents are there
    std::vector<uint64_t> v(all.begin(), all.end());
    Cmd c2;
    Args kws;
    std::vector<std::pair<std::string, uint64_t>> q2;
    for (int i = 0; i < 3; i++) {
        uint64_t d = v[work(v.size())];
        uint64_t x = d % 1000, y = d / 1000 % 1000;
        q2.push_back({"0.1_" + std::to_string(x) + "_1", d});
        q2.push_back({"1_" + std::to_string(x % 100) + "_1", d});
        q2.push_back({"10_" + std::to_string(y % 10) + "_2", d});
    }
    Args a;
    a.add("client"); a.add("-b"); a.add("/sim/client");
    for (auto& x : q2) a.add(x.first);
    // and the groups of the last documents of every thread are complete
    static const struct { const char* name; int size; } FAM[] = {{"10^1", 10}, {"10^2", 100}, {"10^3", 1000}, {"10^4", 10000}, {"10^5", 100000}, {"20", 20}, {"30", 30}, {"60", 60}};
    std::vector<std::pair<std::string, int>> q3;
    for (int t = 0; t < st->hw; t++) {
        int n = share(st->gens[work(st->gens.size())], t);
        if (!n) continue;
        for (auto& f : FAM) {
            int g = (n - 1) / f.size, want = 0;
            for (int x : st->gens) want += std::max(0, std::min(f.size, share(x, t) - g * f.size));
            q3.push_back({std::string("Group-") + f.name + "_" + std::to_string(t) + "_" + std::to_string(g), want});
            a.add(q3.back().first);
        }
    }
    Out out;
    std::streambuf* before = std::cout.rdbuf(&out);
    t_client = true;
    new_program();
    int rc = -1;
    try { rc = prog(a.argc(), a.argv()); } catch (std::exception&) {}
    t_client = false;
    std::cout.rdbuf(before);
    Quiet q; sim::Scope s(AR_S);
    if (rc != 0) { if (!g_excused()) fail("refused", "a client program fails although nothing did"); return; }
    auto printed = parse(out.text);
    if (printed.size() != q2.size() + q3.size()) fail("not-searched", "a client program which was to search %zu keywords printed %zu results", q2.size() + q3.size(), printed.size());
    for (size_t i = 0; i < q3.size(); i++)
        if ((int)printed[q2.size() + i].size() != q3[i].second) fail("generated", "%s has %zu documents instead of %d", q3[i].first.c_str(), printed[q2.size() + i].size(), q3[i].second);
    for (size_t i = 0; i < q2.size(); i++) {
        auto& r = printed[i];
        if (std::count(r.begin(), r.end(), q2[i].second) != (ptrdiff_t)all.count(q2[i].second)) fail("generated", "the generated document %llu is %d times under keyword %s", (unsigned long long)q2[i].second, (int)std::count(r.begin(), r.end(), q2[i].second), q2[i].first.c_str());
    }
    probe("generated_found");
    nontrivial();
}

[[noreturn]] void on_terminate()
{
    // an exception nobody catches in some thread: the program is gone
    { Quiet q; if (!g_excused()) fail("terminated", "a program was terminated although nothing failed"); sim::trace("std::terminate"); }
    crash_now(CRASH_PROCESS);
}

void net_faults(bool on)
{
    auto& n = grpc::standin::net;
    n = grpc::standin::NetCfg();
    n.delay = 1ULL << work(18);
    n.window = 1 + (unsigned)work(10);
    if (!on) return;
    uint32_t p = 10 << work(6);
    if (work(2)) n.p_break = p;
    if (work(2)) n.p_refuse = p * 2;
    if (work(2)) n.p_break_wait = p * 4;
}

void run()
{
    draw_sched_cfg();
    st = make_shared_state<State>();
    bool diana = work(2);
    auto server_prog = diana ? diana_server_main : sophos_server_main;
    auto client_prog = diana ? diana_client_main : sophos_client_main;
    const char* addr = diana ? ":4241" : ":4240";
    int nk = 1 + (int)work(3), incs = 1 + (int)work(3);
    // the number of generating threads when the machine's is not known is the library's affair
    g_hw_concurrency = 1 + (unsigned)work(3);
    {
        sim::Scope s(AR_S);
        st->hw = (int)g_hw_concurrency;
        st->gen_min.resize(st->hw); st->gen_max.resize(st->hw);
        st->m.kw.resize(nk);
        for (int k = 0; k < nk; k++) st->m.name.push_back(std::string(1 + work(5), (char)('a' + work(2))) + (char)('A' + k));
    }
    uint64_t next = 1;
    int      file = 0;
    bool     crash = work(2), large = work(12) == 0;
    for (int i = 0; i <= incs; i++) {
        bool last = i == incs;
        std::vector<Cmd> cmds;
        int n = last ? 0 : 1 + (int)work(4);
        for (int j = 0; j < n; j++) {
            Cmd c;
            int nf = work(2) ? 0 : 1 + (int)work(2);
            for (int f = 0; f < nf; f++) {
                c.files.push_back({});
                int np = (int)work(8);
                for (int x = 0; x < np; x++) c.files[f].push_back({(int)work(nk), next++});
            }
            c.missing_file = work(12) == 0;
            if (work(4) == 0) c.generate = 1 + (int)work(work(3) ? 4 : 16);
            // enough for its random groups, with which a buffer can end with any number of entries
            if (large && diana && c.generate) { c.generate = 134 * st->hw + (int)work(40); large = false; }
            int ns = (int)work(4);
            for (int x = 0; x < ns; x++) c.search.push_back((int)work(work(6) ? nk : nk + 1));
            c.quiet = diana && work(12) == 0;
            c.number = (int)work(2);
            if (work(16) == 0) { c = Cmd(); c.bad = 1 + (int)work(2); }
            cmds.push_back(c);
        }
        bool faulty = !last && work(3) == 0, io = !last && work(6) == 0, stop_early = !last && work(4) == 0, sync = work(2);
        vfs::FaultCfg fc = docs::write_faults();
        if (io) { const char* const W[] = {nullptr, "/sim/server", "/sim/client"}; fc.only_path = W[work(3)]; }
        Crash cr = !last && crash && work(2) ? CRASH_PROCESS : CRASH_NONE;
        uint64_t at = cr ? 1 + draw(T_CRASH, 300) : 0;
        uint64_t stop_at = 1ULL << work(24);
        int sig = work(3) == 0 ? SIGINT : work(2) ? SIGTERM : SIGQUIT;
        vfs::make_dir("/sim/cwd");
        IncResult res = incarnation([&] {
            sim::Scope app(AR_A);
            vfs::set_cwd("/sim/cwd"); // benchmark logs go to the working directory
            std::set_terminate(on_terminate);
            memset(g_handler, 0, sizeof g_handler);
            {
                Quiet q; sim::Scope s(AR_S);
                docs::restart(st->m);
                st->over = false; st->disk0 = disk_faults();
                if (!st->setup) // whatever was asked for before: it is wiped
                    for (auto& k : st->m.kw) for (auto& x : k) if (x.end == ~0ULL) x.settled = 2;
            }
            if (!st->setup) {
                { Quiet q; sim::Scope s(AR_S); st->gen_max = st->gen_min; }
                if (sse::utility::exists("/sim/server")) sse::utility::remove_directory("/sim/server");
                if (sse::utility::exists("/sim/client")) sse::utility::remove_directory("/sim/client");
            }
            net_faults(false);
            std::atomic<bool> returned{false};
            std::thread server([&] {
                Args a;
                a.add("server"); a.add("-b"); a.add("/sim/server");
                if (sync) a.add("-s");
                new_program();
                int rc = -1;
                try { rc = server_prog(a.argc(), a.argv()); }
                catch (std::exception& e) { Quiet q; sim::trace("the server program: %s", e.what()); if (!g_excused()) fail("server", "the server program ends with an exception: %s", e.what()); }
                Quiet q;
                sim::trace("the server program ends with %d", rc);
                if (rc != 0 && !g_excused()) fail("server", "the server program ends with %d", rc);
                returned = true;
            });
            while (!returned && !grpc::standin::listening(addr)) std::this_thread::sleep_for(std::chrono::milliseconds(1));
            auto stop = [&] {
                { Quiet q; st->over = true; sim::trace("signal"); }
                if (g_handler[sig]) g_handler[sig](sig);
                else { Quiet q; fail("no-handler", "the server program does not handle signal %d", sig); }
            };
            std::thread stopper;
            if (stop_early) stopper = std::thread([&] { std::this_thread::sleep_for(std::chrono::nanoseconds(stop_at)); stop(); });
            if (io) vfs::set_faults(fc);
            net_faults(faulty);
            bool ok = true;
            for (auto& c : cmds) {
                if (!client(client_prog, c, file, nullptr)) { ok = false; break; }
                if (st->over) break;
            }
            vfs::clear_faults();
            net_faults(false);
            if (last) { Quiet q; st->disk0 = disk_faults(); }
            if (ok && !stop_early && !io && (st->setup || last)) {
                if (st->setup) {
                    Cmd c;
                    for (int k = 0; k < nk; k++) c.search.push_back(k);
                    bool unfaulted = !g_excused();
                    ok = client(client_prog, c, file, nullptr);
                    if (ok && unfaulted) check_generated(client_prog, file);
                }
            }
            if (stop_early) stopper.join();
            else stop();
            server.join();
            probe(stop_early ? "stopped_early" : "stopped");
        }, cr, at);
        vfs::clear_faults();
        if (res.crashed) probe("crashed");
    }
}
Reg r({"C22", "programs", run, false, 2000, 30000,
       "the two programs of a scheme over one to three lives of the server (stopped by a signal at the end or while a client program runs, or killed) and a last one: client programs load files, generate databases, search, are given wrong options and missing files; network and disk faults; non-trivial: a search printed several documents"});
} // namespace
