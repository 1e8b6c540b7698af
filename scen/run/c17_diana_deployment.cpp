// C17: a Diana client and server over the simulated network.
#include <protos/diana.grpc.pb.h>
#define DIANA_CLIENT_RUNNER_CPP
#include <sse/runners/diana/client_runner.hpp>
#include <sse/runners/diana/server_runner.hpp>

#include "run.h"

using namespace sim;
using namespace sse;
using namespace sse::diana;

static Decl decl("C17", "DianaClientRunner, DianaServerRunner, DianaClient, DianaServer, protobuf messages, RocksDBCounter, RockDBWrapper, RocksDB",
              "gRPC, crypto-tk and db-parser: stand-ins of their interfaces (stubs/); network, file system, threads, clock, randomness: simulator");

namespace {
struct S
{
    using Client = DianaClientRunner;
    using Server = DianaServerRunner;
    using Dep = deploy::Deployment<S>;
    static constexpr const char* KEYS[] = {"/sim/client/master_derivation.key", "/sim/client/kw_token_master.key", "/sim/client/wrapping.key", "/sim/server/wrapping.key"};
    static constexpr const char* KEY_FILE = "/sim/server/wrapping.key";
    // A client without a runner
    struct Keys
    {
        std::unique_ptr<DianaClient<uint64_t>> c;
        std::unique_ptr<crypto::Wrapper> w;
        std::string key;
        bool fresh;
        Keys(int i, char* secret, bool create) : fresh(create)
        {
            if (create) { auto k = crypto::random_bytes<uint8_t, 32>(); std::copy(k.begin(), k.end(), (uint8_t*)secret); }
            key.assign(secret, 32);
            std::array<uint8_t, 32> a{}, b{}, k;
            a[0] = b[1] = (uint8_t)i;
            std::copy(key.begin(), key.end(), (char*)k.data());
            w.reset(new crypto::Wrapper(crypto::Key<32>(k.data())));
            c.reset(new DianaClient<uint64_t>("/sim/keys" + std::to_string(i), crypto::Key<32>(a.data()), crypto::Key<32>(b.data())));
        }
        grpc::Status setup(const std::shared_ptr<grpc::Channel>& ch)
        {
            grpc::ClientContext ctx;
            SetupMessage m;
            google::protobuf::Empty e;
            m.set_wrapping_key(key);
            return Diana::NewStub(ch)->setup(&ctx, m, &e);
        }
        // three insertions the first time, and a search which finds them
        void use(const std::shared_ptr<grpc::Channel>& ch, bool all)
        {
            auto stub = Diana::NewStub(ch);
            google::protobuf::Empty e;
            for (uint64_t i = 0; fresh && i < 3; i++) {
                grpc::ClientContext ctx;
                auto s = stub->insert(&ctx, request_to_message(c->insertion_request("k", i)), &e);
                Quiet q;
                if (!s.ok()) fail("refused", "after the setup, an insertion fails: %s", s.error_message().c_str());
            }
            auto req = c->search_request("k");
            if (!req.add_count) return; // killed before the first insertion
            grpc::ClientContext ctx;
            auto r = stub->search(&ctx, request_to_message(w, req));
            SearchReply p;
            std::multiset<uint64_t> res, want{0, 1, 2};
            while (r->Read(&p)) res.insert(p.result());
            auto s = r->Finish();
            Quiet q;
            if (!s.ok()) fail("refused", "after the setup, a search fails: %s", s.error_message().c_str());
            if (all && res != want) fail("missing-result", "after the setup with this key, a search gives %zu documents of 3", res.size());
        }
    };
    static grpc::Status raw_setup(const std::shared_ptr<grpc::Channel>& c, bool valid)
    {
        grpc::ClientContext ctx;
        SetupMessage m;
        google::protobuf::Empty e;
        m.set_wrapping_key(std::string(valid ? 32 : work(2) ? work(32) : 33 + work(5000), 'x'));
        return Diana::NewStub(c)->setup(&ctx, m, &e);
    }
    template<class F> static void each_operation(const std::shared_ptr<grpc::Channel>& c, int how, F f)
    {
        std::string token(how == 1 ? 0 : how == 2 ? kUpdateTokenSize + 1 : how == 3 ? kUpdateTokenSize - 1 : how >= 4 ? 5000 : (size_t)kUpdateTokenSize, 't');
        std::string kwt(how == 1 ? 0 : how == 2 ? kKeywordTokenSize + 1 : how == 3 ? kKeywordTokenSize - 1 : how == 4 ? 5000 : (size_t)kKeywordTokenSize, 's');
        std::string rcprf(work(100), 'r'), key; // was not wrapped under the key
        if (how >= 1 && how <= 4 && work(2)) {
            bool have;
            { Quiet q; have = vfs::read_file("/sim/server/wrapping.key", key) && key.size() == 32; }
            if (have) { // by someone who has the key
                std::array<uint8_t, 32> k;
                std::copy(key.begin(), key.end(), k.begin());
                crypto::Wrapper w(crypto::Key<32>(k.data()));
                crypto::RCPrf<32> f(crypto::Key<32>(), 10);
                auto v = w.wrap(f.constrain(0, 5));
                rcprf.assign(v.begin(), v.end());
                probe("malformed_but_wrapped");
            }
        }
        auto stub = Diana::NewStub(c);
        google::protobuf::Empty e;
        {
            grpc::ClientContext ctx;
            UpdateRequestMessage m;
            m.set_update_token(token); m.set_index(999);
            f(stub->insert(&ctx, m, &e), "an insertion");
        }
        {
            grpc::ClientContext ctx;
            SearchRequestMessage m;
            m.set_kw_token(kwt); m.set_constrained_rcprf_rep(rcprf); m.set_add_count((uint32_t)work(60));
            auto r = stub->search(&ctx, m);
            SearchReply p;
            while (r->Read(&p)) { Quiet q; fail("extra-result", "a search which must fail gives a result"); }
            f(r->Finish(), "a search");
        }
        {
            grpc::ClientContext ctx;
            UpdateRequestMessage m;
            m.set_update_token(token); m.set_index(999);
            auto w = stub->bulk_insert(&ctx, &e);
            w->Write(m); w->Write(m);
            w->WritesDone();
            f(w->Finish(), "a bulk insertion");
        }
    }
    static void session_list(Dep& d, const std::vector<std::pair<int, uint64_t>>& l, deploy::Excuse& ex)
    {
        std::list<std::pair<std::string, uint64_t>> req;
        std::vector<std::pair<int, size_t>> ix;
        {
            Quiet q; sim::Scope s(AR_S);
            for (auto& x : l) {
                ix.push_back({x.first, deploy::begin(x.first, x.second)});
                sim::trace("in session: insert(keyword %d, %llu)", x.first, (unsigned long long)x.second);
            }
        }
        for (auto& x : l) req.push_back({deploy::st->m.name[x.first], x.second});
        bool ok = true;
        try { d.client->insert_in_session(req); }
        catch (std::exception& e) {
            Quiet q;
            if (!ex.now()) fail("refused", "an insertion in a session failed although nothing did: %s", e.what());
            ok = false;
        }
        Quiet q; sim::Scope s(AR_S);
        for (auto& x : ix) if (ok) deploy::st->in_session.push_back(x); else deploy::st->m.kw[x.first][x.second].failed = true;
        ix = {};
    }
};
// The server's machine loses power, the client's does not. The server flushes
// its database at the end of a session.
struct Power { bool set = false; std::vector<std::multiset<uint64_t>> must, may; };
void power_run()
{
    draw_sched_cfg();
    g_hw_concurrency = 1 + (unsigned)work(3);
    auto* ps = make_shared_state<Power>();
    int nk = 1 + (int)work(3), incs = 1 + (int)work(3);
    { sim::Scope s(AR_S); ps->must.resize(nk); ps->may.resize(nk); }
    uint64_t next = 1;
    for (int i = 0; i <= incs; i++) {
        std::vector<std::vector<std::pair<int, uint64_t>>> sessions(work(4));
        for (auto& l : sessions) {
            int n = work(6) ? (int)work(8) : 20 + (int)work(60);
            for (int j = 0; j < n; j++) l.push_back({(int)work(nk), next++});
        }
        std::vector<std::pair<int, uint64_t>> singles;
        for (int n = (int)work(6); n > 0; n--) singles.push_back({(int)work(nk), next++});
        bool list = work(2), at_end = work(2), async = work(2);
        uint64_t at = i == incs ? 0 : at_end ? 1ULL << 60 : 1 + draw(T_CRASH, 200);
        IncResult r = incarnation([&] {
            sim::Scope app(AR_A);
            S::Dep d;
            deploy::net_faults(false);
            try { d.start_server(async); d.client.reset(new DianaClientRunner(d.channel(), "/sim/client")); }
            catch (std::exception& e) {
                Quiet q;
                if (ps->set) fail("lost", "after a power failure of the server, the programs do not start: %s", e.what());
                return;
            }
            if (!ps->set) { Quiet q; sim::Scope s(AR_S); vfs::harden("/sim/server"); vfs::survives("/sim/client"); ps->set = true; }
            auto search = [&] {
                for (int k = 0; k < nk; k++) {
                    std::list<uint64_t> l;
                    try { l = d.client->search("k" + std::to_string(k)); }
                    catch (std::exception& e) { Quiet q; fail("refused", "a search failed although nothing did: %s", e.what()); }
                    Quiet q; sim::Scope s(AR_S);
                    std::multiset<uint64_t> res(l.begin(), l.end());
                    sim::trace("search(keyword %d) ->%s", k, docs::list(res).c_str());
                    if (!std::includes(res.begin(), res.end(), ps->must[k].begin(), ps->must[k].end())) {
                        std::multiset<uint64_t> miss;
                        std::set_difference(ps->must[k].begin(), ps->must[k].end(), res.begin(), res.end(), std::inserter(miss, miss.end()));
                        fail("missing-result", "after a power failure, the search of keyword %d does not return%s of a session which ended (returned:%s)", k, docs::list(miss).c_str(), docs::list(res).c_str());
                    }
                    if (!std::includes(ps->may[k].begin(), ps->may[k].end(), res.begin(), res.end())) fail("extra-result", "the search of keyword %d returns too much:%s", k, docs::list(res).c_str());
                    if (i > 0 && res.size() > 1) nontrivial();
                    mix(res.size());
                    progress();
                }
            };
            search();
            auto insert = [&](const std::pair<int, uint64_t>& x, bool session) {
                { Quiet q; sim::Scope s(AR_S); ps->may[x.first].insert(x.second); sim::trace("%sinsert(keyword %d, %llu)", session ? "in session: " : "", x.first, (unsigned long long)x.second); }
                std::string k = "k" + std::to_string(x.first);
                if (session) d.client->insert_in_session(k, x.second);
                else d.client->insert(k, x.second);
            };
            try {
                for (auto& x : singles) insert(x, false);
                for (auto& l : sessions) {
                    d.client->start_update_session();
                    if (list) {
                        std::list<std::pair<std::string, uint64_t>> req;
                        for (auto& x : l) {
                            Quiet q; sim::Scope s(AR_S);
                            ps->may[x.first].insert(x.second);
                            sim::Scope a(AR_A);
                            req.push_back({"k" + std::to_string(x.first), x.second});
                        }
                        d.client->insert_in_session(req);
                    } else for (auto& x : l) insert(x, true);
                    d.client->end_update_session();
                    Quiet q; sim::Scope s(AR_S);
                    for (auto& x : l) ps->must[x.first].insert(x.second);
                    sim::trace("the session ended");
                    probe("session");
                }
            } catch (std::exception& e) { Quiet q; fail("refused", "an insertion failed although nothing did: %s", e.what()); }
            if (at_end && i < incs) crash_now(CRASH_POWER);
        }, at ? CRASH_POWER : CRASH_NONE, at);
        if (r.crashed) probe("power_failure");
        if (!ps->set) return;
    }
}
Reg r3({"C17", "diana_power", power_run, false, 1500, 20000,
        "over one to three power failures of the server's machine at a seeded event or after the last operation, single insertions and sessions of 0 to 80 entries: the entries of a session which ended are in the results of every later search; the files of the setup and the client's files are not concerned by the failure; non-trivial: a search after a power failure returned several documents"});
Reg r({"C17", "diana_deployment", deploy::run<S>, false, 3000, 40000, 
       "a deployment over 1-3 starts (healthy, killed at a seeded event, or stopped) with 1-3 application threads inserting, searching, opening sessions (some started twice, left idle or of 20-64 entries), loading files, at times searching all at once, and one administering: server restarts, second setups, malformed messages; drawn network delays, windows and lost messages, disk faults; non-trivial: a search returned several documents"});
Reg r2({"C17", "diana_setup", deploy::setup_run<S>, false, 3000, 40000,
        "one to three threads send one to five setups to a server, some malformed, while writes, opens or renames fail in its directory or for its key file only, and it may be killed: one succeeds at most; a key file cut short or too long is refused; after a setup which failed nothing is set up and another one can succeed; after one which succeeded, insertions and searches with its key work, in later starts, too; non-trivial: a server set up was started again"});
} // namespace
