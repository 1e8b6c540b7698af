// A deployment: the client and the server program of a scheme, talking over the
// simulated network. Shared by C16 (Sophos) and C17 (Diana).
#pragma once
#include "../schemes/docs.h"

#include <sse/schemes/utils/utils.hpp>

#include <grpcpp/grpcpp.h>

#include <atomic>
#include <fstream>
#include <memory>
#include <mutex>
#include <thread>

namespace deploy {
using namespace sim;
struct State
{
    docs::Model m;
    bool        setup = false;    // a client was told that the setup succeeded
    bool        acked = false;    // some insertion was acknowledged
    uint64_t    outage = 0;       // numbers the times at which the server was not there
    uint64_t    disk0 = 0;        // disk faults before this incarnation
    bool        half = false;     // the client was not told whether the setup succeeded
    int         sessions = 0;     // sessions started so far
    bool        session_up = false;
    bool        unsure = false;   // an insertion ran while a session started or ended
    std::vector<std::pair<int, size_t>> in_session;
};
inline State* st;

enum { INSERT, SEARCH, SESSION, LOAD, RESTART, SETUP_AGAIN, MALFORMED, IDLE_SESSION };
struct Op { int kind, k; uint64_t doc; std::vector<std::pair<int, uint64_t>> many; int threads; bool flag, twice; };

inline uint64_t disk_faults() { return docs::io_faults() - fault_count("rpc_"); }

// Did anything happen that excuses a failed call which started then?
struct Excuse
{
    uint64_t faults, outage;
    Excuse() { Quiet q; faults = fault_count("rpc_"); outage = st->outage; }
    bool now() const { return st->half || fault_count("rpc_") > faults || disk_faults() > st->disk0 || st->outage > outage || (outage & 1); }
};

inline size_t begin(int k, uint64_t doc)
{
    docs::Ins i;
    i.doc = doc; i.start = ++st->m.clock; i.inc = st->m.inc;
    st->m.kw[k].push_back(i);
    return st->m.kw[k].size() - 1;
}
inline void acknowledge(int k, size_t ix)
{
    st->m.kw[k][ix].end = ++st->m.clock;
    st->acked = true;
}

template<class D> struct Deployment
{
    using Client = typename D::Client;
    using Server = typename D::Server;
    std::unique_ptr<Client> client;
    std::unique_ptr<Server> server;
    std::mutex              server_mtx;
    static constexpr const char* ADDR = "sim:1";

    std::shared_ptr<grpc::Channel> channel() { return grpc::CreateChannel(ADDR, grpc::InsecureChannelCredentials()); }

    void start_server(bool async)
    {
        server.reset(new Server(ADDR, "/sim/server"));
        server->set_async_search(async);
    }
    // While a client may be using it
    void restart_server(bool async)
    {
        std::unique_lock<std::mutex> l(server_mtx);
        { Quiet q; Scope s(AR_S); if (st->session_up) return; if (!(st->outage & 1)) st->outage++; sim::trace("the server stops"); }
        if (server) {
            // the program waits in wait() until another thread stops it
            std::thread w([&] { server->wait(); });
            server->shutdown();
            w.join();
            server.reset();
        }
        try { start_server(async); }
        catch (std::exception& e) {
            Quiet q;
            if (!disk_faults()) fail("open-failed", "the server does not start again: %s", e.what());
            return; // stays away: outage remains odd
        }
        Quiet q; Scope s(AR_S);
        st->outage++;
        sim::trace("the server is back");
        probe("server_restart");
    }

    void insert(int k, uint64_t doc)
    {
        size_t ix; int session; bool up;
        Excuse ex;
        {
            Quiet q; Scope s(AR_S);
            ix = begin(k, doc); session = st->sessions; up = st->session_up;
            sim::trace("insert(keyword %d, %llu)", k, (unsigned long long)doc);
        }
        try { client->insert(st->m.name[k], doc); }
        catch (std::exception& e) {
            Quiet q; Scope s(AR_S);
            bool changed = up || st->session_up || st->sessions != session;
            if (!ex.now() && !changed) fail("refused", "an insertion failed although nothing did: %s", e.what());
            st->m.kw[k][ix].failed = true;
            sim::trace("insert(keyword %d, %llu) failed: %s", k, (unsigned long long)doc, e.what());
            probe("insert_failed");
            return;
        }
        Quiet q; Scope s(AR_S);
        if (up || st->session_up || st->sessions != session) {
            // part of a session, perhaps: what its end says holds
            if (st->session_up && st->sessions == session + (up ? 0 : 1)) st->in_session.push_back({k, ix});
            else { st->m.kw[k][ix].failed = true; }
            probe("insert_in_running_session");
            return;
        }
        acknowledge(k, ix);
        sim::trace("inserted(keyword %d, %llu)", k, (unsigned long long)doc);
        probe("insert");
        progress();
    }
    void settle(bool ok)
    {
        for (auto& x : st->in_session) if (ok) acknowledge(x.first, x.second); else st->m.kw[x.first][x.second].failed = true;
        st->in_session = {};
    }
    void session_begins() { Quiet q; Scope s(AR_S); st->sessions++; st->session_up = true; sim::trace("a session starts"); }
    void session_ends(bool ok)
    {
        Quiet q; Scope s(AR_S);
        st->session_up = false;
        settle(ok);
        sim::trace("the session ended: %s", ok ? "success" : "failed");
        if (ok) progress();
        probe(ok ? "session" : "session_failed");
    }
    void session(const Op& o)
    {
        {
            // a server waits for the end of open sessions before it stops
            std::unique_lock<std::mutex> l(server_mtx);
            session_begins();
        }
        Excuse ex;
        client->start_update_session();
        std::vector<std::thread> th;
        auto part = [&](size_t from) {
            for (size_t i = from; i < o.many.size(); i += o.threads) {
                if (o.twice && i == o.many.size() / 2) { client->start_update_session(); Quiet q; probe("session_started_twice"); }
                int k = o.many[i].first; uint64_t doc = o.many[i].second;
                size_t ix;
                { Quiet q; Scope s(AR_S); ix = begin(k, doc); st->in_session.push_back({k, ix}); sim::trace("in session: insert(keyword %d, %llu)", k, (unsigned long long)doc); }
                try { client->insert_in_session(st->m.name[k], doc); }
                catch (std::exception& e) {
                    Quiet q; Scope s(AR_S);
                    if (!ex.now()) fail("refused", "an insertion in a session failed although nothing did: %s", e.what());
                    st->m.kw[k][ix].failed = true;
                    auto& v = st->in_session;
                    v.erase(std::find(v.begin(), v.end(), std::make_pair(k, ix)));
                    sim::trace("in session: insert(keyword %d, %llu) failed: %s", k, (unsigned long long)doc, e.what());
                }
            }
        };
        if (o.flag) D::session_list(*this, o.many, ex);
        else {
            for (int t = 1; t < o.threads; t++) th.emplace_back(part, t);
            part(0);
            for (auto& t : th) t.join();
        }
        bool ok = true;
        try { client->end_update_session(); }
        catch (std::exception& e) {
            Quiet q;
            if (!ex.now()) fail("refused", "a session failed although nothing did: %s", e.what());
            ok = false;
        }
        session_ends(ok);
    }
    // without a session: ending it does nothing, inserting in it is refused
    void idle_session(int k)
    {
        client->end_update_session();
        try { client->insert_in_session(st->m.name[k], 12345); }
        catch (std::exception&) { Quiet q; probe("refused_without_session"); return; }
        Quiet q;
        fail("no-session", "an insertion in a session succeeds although there is none");
    }
    void load(const Op& o, int n)
    {
        std::string path = "/sim/load" + std::to_string(n), text = "{";
        std::map<int, std::vector<uint64_t>> by;
        std::vector<std::pair<int, size_t>> ix;
        for (auto& x : o.many) by[x.first].push_back((unsigned)x.second);
        for (auto& x : by) {
            text += "\"" + st->m.name[x.first] + "\": [";
            for (size_t i = 0; i < x.second.size(); i++) text += (i ? ", " : "") + std::to_string(x.second[i]);
            text += "], ";
        }
        text += "}";
        {
            std::unique_lock<std::mutex> l(server_mtx);
            session_begins();
        }
        Excuse ex;
        {
            Quiet q;
            vfs::write_file(path, text);
            Scope s(AR_S);
            for (auto& x : by) for (uint64_t d : x.second) st->in_session.push_back({x.first, begin(x.first, d)});
        }
        bool ok = client->load_inverted_index(path);
        {
            Quiet q;
            if (!ok && !ex.now()) fail("refused", "loading a file failed although nothing did");
            probe("load");
        }
        session_ends(ok);
    }
    // nothing: no successful search
    bool search(int k)
    {
        uint64_t start;
        Excuse ex;
        bool known = k < (int)st->m.name.size();
        { Quiet q; start = ++st->m.clock; sim::trace("search(keyword %d)", k); }
        std::string name = known ? st->m.name[k] : "never inserted";
        std::list<uint64_t> l, cb;
        try { l = client->search(name, [&](uint64_t x) { cb.push_back(x); }); }
        catch (std::exception& e) {
            Quiet q;
            if (!ex.now()) fail("refused", "a search failed although nothing did: %s", e.what());
            sim::trace("search(keyword %d) failed: %s", k, e.what());
            probe("search_failed");
            return false;
        }
        Quiet q; Scope s(AR_S);
        std::multiset<uint64_t> res(l.begin(), l.end());
        sim::trace("search(keyword %d) ->%s", k, docs::list(res).c_str());
        if (cb != l) fail("callback", "a search of keyword %d returns %zu results and gives %zu to its callback", k, l.size(), cb.size());
        if (known) docs::check(st->m, k, start, ++st->m.clock, res, "search");
        else if (!res.empty()) fail("extra-result", "a search of a keyword never inserted returns%s", docs::list(res).c_str());
        if (res.size() > 1) nontrivial();
        if (res.size() >= 40) probe("long_result");
        probe("search");
        progress();
        return true;
    }
    // Every operation without setup is refused
    void before_setup()
    {
        auto ch = channel();
        auto must_fail = [&](const grpc::Status& s, const char* what) {
            Quiet q;
            if (s.ok()) fail("before-setup", "%s succeeds on a server which was not set up", what);
            probe("refused_before_setup");
        };
        D::each_operation(ch, 0, must_fail);
    }
    void setup_again()
    {
        if (!st->setup) return;
        grpc::Status s = D::raw_setup(channel(), true);
        Quiet q;
        if (s.ok()) fail("second-setup", "a server which is set up accepts a setup");
        probe("refused_second_setup");
    }
    void malformed_setup()
    {
        grpc::Status s = D::raw_setup(channel(), false);
        Quiet q;
        if (s.ok()) fail("malformed", "a setup with a malformed message succeeds");
        probe("refused_malformed_setup");
    }
    void malformed(int how)
    {
        D::each_operation(channel(), how, [&](const grpc::Status& s, const char* what) {
            Quiet q;
            if (s.ok()) fail("malformed", "%s with a malformed message (%d) succeeds", what, how);
            probe("refused_malformed");
        });
    }
};

inline void net_faults(bool on)
{
    auto& n = grpc::standin::net;
    n = grpc::standin::NetCfg();
    n.delay = 1ULL << work(21);
    n.window = 1 + (unsigned)work(10);
    if (!on) return;
    uint32_t p = 30 << work(6);
    if (work(2)) n.p_break = p;
    if (work(2)) n.p_refuse = p * 2;
    if (work(2)) n.p_break_wait = p * 4;
}

template<class D> void run()
{
    draw_sched_cfg();
    g_hw_concurrency = work(40) ? 1 + (unsigned)work(4) : work(3) ? 0 : 256;
    st = make_shared_state<State>();
    int nk = 1 + (int)work(3), incs = 1 + (int)work(3);
    bool crash = work(2), big = work(12) == 0;
    {
        Scope s(AR_S);
        st->m.kw.resize(nk);
        for (int k = 0; k < nk; k++) { // as a JSON file can hold
            std::string n = std::string(work(4) ? work(5) : 60, (char)('a' + work(2)));
            st->m.name.push_back(n + (char)('A' + k));
        }
    }
    uint64_t next = 1;
    auto gen = [&](int thread) {
        // sessions only in the first thread, administration in the last
        static const int KINDS[] = {INSERT, INSERT, INSERT, SEARCH, SEARCH, SEARCH, SESSION, SESSION, LOAD};
        static const int ADMIN[] = {RESTART, SETUP_AGAIN, MALFORMED, SEARCH};
        Op o{};
        o.kind = thread < 0 ? ADMIN[work(4)] : KINDS[work(thread == 0 ? 9 : 6)];
        o.k = (int)work(o.kind == SEARCH && !work(8) ? nk + 1 : nk);
        o.doc = work(10) ? next++ : 7;
        o.threads = 1 + (int)work(3);
        o.flag = work(2);
        if (thread == 0 && !work(20)) o.kind = IDLE_SESSION;
        o.twice = !work(6);
        if (o.kind == IDLE_SESSION) o.k = (int)work(nk);
        if (o.kind == MALFORMED) o.k = 1 + (int)work(6);
        if (o.kind == SESSION || o.kind == LOAD) {
            int n = work(10) ? (int)work(8) : 20 + (int)work(45);
            for (int i = 0; i < n; i++) o.many.push_back({work(2) ? o.k : (int)work(nk), next++});
        }
        return o;
    };
    for (int i = 0; i < incs; i++) {
        std::vector<std::vector<Op>> conc(1 + work(3));
        int n = (int)work(g_hw_concurrency > 100 ? 3 : 14);
        for (int j = 0; j < n; j++) { size_t t = work(conc.size()); conc[t].push_back(gen((int)t)); }
        if (big && i == 0) {
            Op o{};
            o.kind = SESSION; o.threads = 1;
            for (int j = 0; j < 44; j++) o.many.push_back({0, next++});
            conc[0].push_back(o);
        }
        if (i > 0 && g_hw_concurrency <= 100 && work(4) == 0) { // many searches at the same time
            conc.resize(3 + work(3));
            for (size_t t = 1; t < conc.size(); t++) for (int j = 0; j < 3; j++) { Op o = gen(1); o.kind = SEARCH; conc[t].push_back(o); }
        }
        std::vector<Op> admin;
        int na = (int)work(g_hw_concurrency > 100 ? 1 : 4);
        for (int j = 0; j < na; j++) admin.push_back(gen(-1));
        bool faulty = work(2), io = work(5) == 0, async = work(3), early = work(4) == 0;
        vfs::FaultCfg fc;
        if (io) { fc = docs::write_faults(); static const char* const W[] = {nullptr, "/sim/server", "/sim/client", ".key"}; fc.only_path = W[work(4)];
            if (fc.only_path == W[3]) for (auto& x : fc.p) x = std::min<uint32_t>(x * 10, 6000); }
        bool io_setup = work(2), net_setup = work(2);
        bool clean_end = work(2);
        Crash c = crash && work(2) ? CRASH_PROCESS : CRASH_NONE;
        uint64_t at = c ? 1 + draw(T_CRASH, 160) : 0;
        bool again = work(2);
        IncResult res = incarnation([&] {
            sim::Scope app(AR_A);
            { Quiet q; Scope s(AR_S); docs::restart(st->m); st->disk0 = disk_faults(); st->outage = 0; st->session_up = false; st->in_session = {}; }
            Deployment<D> d;
            if (!st->setup && !st->acked) { // whoever operates it starts over
                if (sse::utility::exists("/sim/server")) sse::utility::remove_directory("/sim/server");
                if (sse::utility::exists("/sim/client")) sse::utility::remove_directory("/sim/client");
            }
            if (i == 0 || !st->setup) net_faults(false);
            try { d.start_server(async); }
            catch (std::exception& e) { Quiet q; if (!disk_faults()) fail("open-failed", "the server does not start: %s", e.what()); return; }
            if (!st->setup) {
                if (early && !st->acked) { d.before_setup(); if (again) d.malformed_setup(); }
                net_faults(faulty && net_setup);
                if (io && io_setup) vfs::set_faults(fc);
            }
            { Quiet q; st->half = false; }
            for (int attempt = 0; !d.client; attempt++) {
                Excuse ex;
                try {
                    d.client.reset(new typename D::Client(d.channel(), "/sim/client"));
                    Quiet q;
                    if (attempt == 0) st->setup = true; else st->half = true;
                }
                catch (std::exception& e) {
                    Quiet q;
                    sim::trace("no client: %s", e.what());
                    if (attempt == 0 && !ex.now()) fail("open-failed", "the client does not start: %s", e.what());
                    probe("setup_failed");
                    if (attempt == 1 || !again) return;
                    // the same program, started again
                    vfs::clear_faults();
                    net_faults(false);
                }
            }
            net_faults(faulty);
            if (io) vfs::set_faults(fc);
            std::vector<std::thread> th;
            auto exec = [&](const Op& o) {
                switch (o.kind) {
                case INSERT: d.insert(o.k, o.doc); break;
                case SEARCH: d.search(o.k); break;
                case SESSION: d.session(o); break;
                case LOAD: d.load(o, (int)o.doc); break;
                case RESTART: d.restart_server(o.flag); break;
                case SETUP_AGAIN: d.setup_again(); break;
                case MALFORMED: d.malformed(o.k); break;
                case IDLE_SESSION: d.idle_session(o.k); break;
                }
            };
            for (size_t t = 1; t < conc.size(); t++) th.emplace_back([&, t] { for (auto& o : conc[t]) exec(o); });
            th.emplace_back([&] { for (auto& o : admin) exec(o); });
            for (auto& o : conc[0]) exec(o);
            for (auto& t : th) t.join();
            // faults stop: everything is as it should be
            vfs::clear_faults();
            net_faults(false);
            if (io) { g_stall_is_crash = true; d.server.reset(); try { d.start_server(async); } catch (std::exception& e) { return; } }
            else if (!d.server) return;
            for (int k = 0; k < nk; k++) d.search(k);
            if (clean_end) { d.client.reset(); if (d.server) d.server->shutdown(); d.server.reset(); }
        }, c, at);
        vfs::clear_faults();
        if (res.crashed) probe("crashed");
    }
    bool damage = work(4) == 0, longer = work(3) == 0;
    size_t which = work(sizeof(D::KEYS) / sizeof(*D::KEYS)), cut = work(1000);
    incarnation([&] {
        sim::Scope app(AR_A);
        { Quiet q; Scope s(AR_S); docs::restart(st->m); st->disk0 = disk_faults(); st->outage = 0; st->session_up = false; st->in_session = {}; }
        if (!st->setup && !st->acked) return;
        Deployment<D> d;
        net_faults(false);
        try { d.start_server(true); d.client.reset(new typename D::Client(d.channel(), "/sim/client")); }
        catch (std::exception& e) { Quiet q; if (disk_faults()) return; fail("lost", "after a setup which succeeded, a later start fails: %s", e.what()); }
        for (int k = 0; k < nk; k++) if (!d.search(k)) { Quiet q; fail("lost", "a search fails without a fault"); }
        // a key file of the wrong length is refused
        if (!damage) return;
        d.client.reset();
        d.server->shutdown();
        d.server.reset();
        std::string f = D::KEYS[which], was;
        {
            Quiet q;
            if (!vfs::read_file(f, was)) fail("lost", "there is no file %s", f.c_str());
            std::string now = longer ? was + was : was.substr(0, cut % was.size());
            vfs::write_file(f, now);
            sim::trace("%s: %zu bytes instead of %zu", f.c_str(), now.size(), was.size());
        }
        try { d.start_server(true); d.client.reset(new typename D::Client(d.channel(), "/sim/client")); }
        catch (std::exception& e) { Quiet q; probe("damaged_key_refused"); return; }
        Quiet q;
        fail("damaged-key", "%s holds the wrong number of bytes, and is used", f.c_str());
    });
}

// Setups: some at the same time, some malformed, some while the disk fails
struct SetupState { int ok = -1; char secret[8][64]; uint64_t disk0 = 0; };
template<class D> void setup_run()
{
    draw_sched_cfg();
    g_hw_concurrency = 1 + (unsigned)work(3);
    auto* ss = make_shared_state<SetupState>();
    int threads = 1 + (int)work(3), n = threads + (int)work(3);
    std::vector<int> valid;
    for (int i = 0; i < n; i++) valid.push_back(work(4) != 0);
    bool io = work(4) != 0, async = work(2), in_between = work(2), restart = work(2);
    vfs::FaultCfg fc;
    uint32_t p = 300 << work(6);
    int kind = (int)work(5);
    switch (kind) {
    case 0: fc.p[vfs::F_WRITE_EIO] = p; break;
    case 1: fc.p[vfs::F_WRITE_NOSPC] = p; break;
    case 2: fc.p[vfs::F_WRITE_SHORT] = p; fc.p[vfs::F_WRITE_EINTR] = p; break;
    case 3: fc.p[vfs::F_OPEN] = p; break;
    case 4: fc.p[vfs::F_META] = p; break;
    }
    fc.only_path = work(3) ? D::KEY_FILE : "/sim/server";
    bool crash = work(4) == 0;
    uint64_t at = crash ? 1 + draw(T_CRASH, 60) : 0;
    IncResult res = incarnation([&] {
        sim::Scope app(AR_A);
        Deployment<D> d;
        net_faults(false);
        try { d.start_server(async); }
        catch (std::exception& e) { Quiet q; fail("open-failed", "the server does not start: %s", e.what()); }
        std::vector<std::unique_ptr<typename D::Keys>> keys;
        for (int i = 0; i <= n; i++) keys.emplace_back(new typename D::Keys(i, ss->secret[i], true));
        if (io) vfs::set_faults(fc);
        bool good = false;
        auto attempt = [&](int i) {
            grpc::Status s = valid[i] ? keys[i]->setup(d.channel()) : D::raw_setup(d.channel(), false);
            Quiet q;
            sim::trace("setup %d (%s): %s", i, valid[i] ? "valid" : "malformed", s.ok() ? "done" : s.error_message().c_str());
            if (!s.ok()) { probe(valid[i] ? "setup_refused" : "refused_malformed_setup"); return; }
            if (!valid[i]) fail("malformed", "a setup with a malformed message succeeds");
            if (ss->ok >= 0) fail("second-setup", "two setups of one server succeed: %d and %d", ss->ok, i);
            ss->ok = i;
            progress();
        };
        {
            std::vector<std::thread> th;
            for (int t = 1; t < threads; t++) th.emplace_back([&, t] { for (int i = t; i < n; i += threads) attempt(i); });
            for (int i = 0; i < n; i += threads) attempt(i);
            for (auto& t : th) t.join();
        }
        vfs::clear_faults();
        bool any = false, faults;
        { Quiet q; for (int v : valid) any |= v; faults = disk_faults() > 0; }
        if (ss->ok < 0 && any && !faults) { Quiet q; fail("refused", "no setup succeeded although nothing failed"); }
        if (ss->ok < 0) {
            if (in_between) d.before_setup();
            if (restart) { // whoever operates it starts over
                d.server->shutdown();
                d.server.reset();
                try { d.start_server(async); }
                catch (std::exception& e) {
                    Quiet q;
                    // what could not be removed remains
                    if (!fault_count("meta") && !fault_count("open")) fail("not-undone", "after a setup which failed, the server does not start: %s", e.what());
                    return;
                }
            }
            grpc::Status s = keys[n]->setup(d.channel());
            Quiet q;
            if (!s.ok() && !fault_count("meta") && !fault_count("open")) fail("not-undone", "after a setup which failed, no setup succeeds: %s", s.error_message().c_str());
            if (!s.ok()) return;
            ss->ok = n;
            probe("setup_after_failure");
        } else if (faults) {
            Quiet q; probe("setup_despite_faults");
        }
        if (faults) { // the database may have stopped
            g_stall_is_crash = true;
            d.server->shutdown();
            d.server.reset();
            try { d.start_server(async); }
            catch (std::exception& e) { Quiet q; fail("lost", "after a setup which succeeded, a later start fails: %s", e.what()); }
        }
        keys[ss->ok]->use(d.channel(), true);
    }, crash ? CRASH_PROCESS : CRASH_NONE, at);
    vfs::clear_faults();
    if (res.crashed) probe("crashed");
    if (ss->ok < 0) return;
    incarnation([&] {
        sim::Scope app(AR_A);
        Deployment<D> d;
        net_faults(false);
        try { d.start_server(true); }
        catch (std::exception& e) { Quiet q; fail("lost", "after a setup which succeeded, a later start fails: %s", e.what()); }
        typename D::Keys k(ss->ok, ss->secret[ss->ok], false);
        k.use(d.channel(), !res.crashed);
        nontrivial();
    });
}
} // namespace deploy
