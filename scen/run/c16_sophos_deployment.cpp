// C16: a Sophos client and server over the simulated network.
#include <protos/sophos.grpc.pb.h>
#define SOPHOS_CLIENT_RUNNER_CPP
#include <sse/runners/sophos/sophos_client_runner.hpp>
#include <sse/runners/sophos/sophos_server_runner.hpp>

#include "run.h"

using namespace sim;
using namespace sse;
using namespace sse::sophos;

static Decl decl("C16", "SophosClientRunner, SophosServerRunner, SophosClient, SophosServer, protobuf messages, RocksDBCounter, RockDBWrapper, RocksDB",
              "gRPC, crypto-tk and db-parser: stand-ins of their interfaces (stubs/); network, file system, threads, clock, randomness: simulator");

namespace {
struct S
{
    using Client = SophosClientRunner;
    using Server = SophosServerRunner;
    using Dep = deploy::Deployment<S>;
    static constexpr const char* KEYS[] = {"/sim/client/derivation_master.key", "/sim/client/rsa_prg.key"};
    static constexpr const char* KEY_FILE = "/sim/server/tdp_pk.key";
    // A client without a runner
    struct Keys
    {
        std::unique_ptr<SophosClient> c;
        bool fresh;
        Keys(int i, char* secret, bool create) : fresh(create)
        {
            if (create) { auto k = crypto::TdpInverse().private_key(); std::copy(k.begin(), k.end(), secret); secret[k.size()] = 0; }
            std::array<uint8_t, 32> a{}, b{};
            a[0] = b[1] = (uint8_t)i;
            c.reset(new SophosClient("/sim/keys" + std::to_string(i), secret, crypto::Key<32>(a.data()), crypto::Key<32>(b.data())));
        }
        grpc::Status setup(const std::shared_ptr<grpc::Channel>& ch)
        {
            grpc::ClientContext ctx;
            SetupMessage m;
            google::protobuf::Empty e;
            m.set_public_key(c->public_key());
            return Sophos::NewStub(ch)->setup(&ctx, m, &e);
        }
        // three insertions the first time, and a search which finds them
        void use(const std::shared_ptr<grpc::Channel>& ch, bool all)
        {
            auto stub = Sophos::NewStub(ch);
            google::protobuf::Empty e;
            for (uint64_t i = 0; fresh && i < 3; i++) {
                grpc::ClientContext ctx;
                auto s = stub->insert(&ctx, request_to_message(c->insertion_request("k", i)), &e);
                Quiet q;
                if (!s.ok()) fail("refused", "after the setup, an insertion fails: %s", s.error_message().c_str());
            }
            grpc::ClientContext ctx;
            auto r = stub->search(&ctx, request_to_message(c->search_request("k")));
            SearchReply p;
            std::multiset<uint64_t> res, want{0, 1, 2};
            while (r->Read(&p)) res.insert(p.result());
            auto s = r->Finish();
            Quiet q;
            if (!s.ok()) fail("refused", "after the setup, a search fails: %s", s.error_message().c_str());
            if (all && res != want) fail("missing-result", "after the setup with this key, a search gives %zu documents of 3", res.size());
        }
    };
    static grpc::Status raw_setup(const std::shared_ptr<grpc::Channel>& c, bool valid)
    {
        grpc::ClientContext ctx;
        SetupMessage m;
        google::protobuf::Empty e;
        m.set_public_key(valid ? crypto::TdpInverse().public_key() : work(2) ? "" : std::string(1 + work(500), 'x'));
        return Sophos::NewStub(c)->setup(&ctx, m, &e);
    }
    template<class F> static void each_operation(const std::shared_ptr<grpc::Channel>& c, int how, F f)
    {
        std::string token(how == 1 ? 0 : how == 2 ? kUpdateTokenSize + 1 : how == 3 ? kUpdateTokenSize - 1 : how >= 4 ? 5000 : (size_t)kUpdateTokenSize, 't');
        std::string search(how == 1 ? 0 : how == 2 ? kSearchTokenSize + 1 : how == 3 ? kSearchTokenSize - 1 : how == 4 ? 5000 : (size_t)kSearchTokenSize, 's');
        std::string derivation(how == 5 ? 0 : how == 6 ? kDerivationKeySize + 1 : (size_t)kDerivationKeySize, 'd');
        auto stub = Sophos::NewStub(c);
        google::protobuf::Empty e;
        {
            grpc::ClientContext ctx;
            UpdateRequestMessage m;
            m.set_update_token(token); m.set_index(999);
            f(stub->insert(&ctx, m, &e), "an insertion");
        }
        {
            grpc::ClientContext ctx;
            SearchRequestMessage m;
            m.set_search_token(search); m.set_derivation_key(derivation); m.set_add_count((uint32_t)work(60));
            auto r = stub->search(&ctx, m);
            SearchReply p;
            while (r->Read(&p)) { Quiet q; fail("extra-result", "a search which must fail gives a result"); }
            f(r->Finish(), "a search");
        }
        {
            grpc::ClientContext ctx;
            UpdateRequestMessage m;
            m.set_update_token(token); m.set_index(999);
            auto w = stub->bulk_insert(&ctx, &e);
            w->Write(m); w->Write(m);
            w->WritesDone();
            f(w->Finish(), "a bulk insertion");
        }
    }
    static void session_list(Dep& d, const std::vector<std::pair<int, uint64_t>>& l, deploy::Excuse& ex)
    {
        // insert() during a session
        for (auto& x : l) d.insert(x.first, x.second);
    }
};
Reg r({"C16", "sophos_deployment", deploy::run<S>, false, 3000, 40000, 
       "a deployment over 1-3 starts (healthy, killed at a seeded event, or stopped) with 1-3 application threads inserting, searching, opening sessions (some started twice, left idle or of 20-64 entries), loading files, at times searching all at once, and one administering: server restarts, second setups, malformed messages; drawn network delays, windows and lost messages, disk faults; non-trivial: a search returned several documents"});
Reg r2({"C16", "sophos_setup", deploy::setup_run<S>, false, 3000, 40000,
        "one to three threads send one to five setups to a server, some malformed, while writes, opens or renames fail in its directory or for its key file only, and it may be killed: one succeeds at most; a key file cut short or too long is refused; after a setup which failed nothing is set up and another one can succeed; after one which succeeded, insertions and searches with its key work, in later starts, too; non-trivial: a server set up was started again"});
} // namespace
