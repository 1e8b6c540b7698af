// C12: Pluto: full blocks in a cuckoo table or in RocksDB, the rest in Tethys.
#include "docs.h"
#include <sse/schemes/pluto/pluto_builder.hpp>
#include <sse/schemes/pluto/pluto_client.hpp>
#include <sse/schemes/pluto/pluto_server.hpp>
#include <sse/schemes/pluto/rocksdb_store.hpp>

#include <sse/crypto/random.hpp>

#include <cmath>
#include <memory>
#include <thread>

using namespace sim;
using namespace sse;
using namespace sse::pluto;

static Decl d("C12", "PlutoBuilder, PlutoServer, PlutoClient, CuckooBuilder, CuckooHashTable, GenericRocksDBStore, TethysStoreBuilder, TethysStore, encoders, awonvm_vector, RocksDB",
              "kernel AIO, file system, threads, clock: simulator; crypto-tk, libsodium stream cipher, JSON parser: stand-ins of their interfaces (stubs/)");

namespace {
static const char* TABLE = "/sim/tethys_table.bin";
static const char* STASH = "/sim/tethys_stash.bin";
static const char* BLOCKS = "/sim/blocks";

struct Db
{
    std::vector<std::string> name;
    std::vector<std::multiset<uint64_t>> docs;
    std::array<uint8_t, 32> key, enc;
    bool built = false;
    size_t announced = 0; // elements
};
Db* db;
struct Plan
{
    std::vector<size_t> len;
    bool json, cuckoo_options, faulty, rfaulty, move, same;
    int declared, threads; // elements announced: 0 exactly, 1 more, 2 none if there is none
    size_t depth;
    double eps;
    vfs::FaultCfg wf, rf;
};

uint64_t read_faults() { return fault_count("read_") + fault_count("aio_") + fault_count("open") + fault_count("alloc") + fault_count("meta"); }
std::string str(const std::multiset<uint64_t>& l)
{
    std::string r;
    int n = 0;
    for (uint64_t x : l) { if (n++ == 20) return r + " ..."; r += " " + std::to_string(x); }
    return r;
}
template<size_t P> struct Cuckoo
{
    static constexpr bool cuckoo = true;
    typedef DefaultPlutoParams<P> Params;
    static typename Params::ht_builder_type::param_type builder(const Plan& p, size_t n)
    {
        oceanus::CuckooBuilderParam b;
        b.value_file_path = std::string(BLOCKS) + ".tmp";
        b.cuckoo_table_path = BLOCKS;
        b.max_n_elements = std::max<size_t>(1, (n + Params::kPlutoListLength - 1) / Params::kPlutoListLength);
        b.epsilon = p.eps;
        b.max_search_depth = p.depth;
        return b;
    }
    static typename Params::ht_type::param_type table(const Plan&) { return BLOCKS; }
};
template<size_t P> struct Rocks
{
    static constexpr bool cuckoo = false;
    typedef RocksDBPlutoParams<P> Params;
    static GenericRocksDBStoreParams builder(const Plan& p, size_t)
    {
        GenericRocksDBStoreParams b;
        b.path = BLOCKS;
        b.rocksdb_options = p.cuckoo_options ? GenericRocksDBStoreParams::make_rocksdb_cuckoo_options() : GenericRocksDBStoreParams::make_rocksdb_regular_table_options();
        return b;
    }
    static GenericRocksDBStoreParams table(const Plan& p) { return builder(p, 0); }
};

template<class K> void build(const Plan& p)
{
    typedef typename K::Params Pr;
    const size_t L = Pr::kPlutoListLength;
    size_t total = 0, full = 0;
    {
        auto a = crypto::random_bytes<uint8_t, 32>(), b = crypto::random_bytes<uint8_t, 32>();
        Quiet q; Scope s(AR_S);
        db->key = a; db->enc = b;
        uint64_t v = work(2);
        for (size_t i = 0; i < p.len.size(); i++) {
            db->docs.push_back({});
            for (size_t j = 0; j < p.len[i]; j++) db->docs[i].insert(work(8) ? v++ : work(2));
            total += p.len[i];
            full += p.len[i] / L;
        }
        if (p.json) {
            std::string t = "{";
            for (size_t i = 0; i < p.len.size(); i++) {
                t += (i ? ",\n\"" : "\n\"") + db->name[i] + "\": [";
                bool first = true;
                for (uint64_t x : db->docs[i]) { t += (first ? "" : ", ") + std::to_string(x); first = false; }
                t += "]";
            }
            vfs::write_file("/sim/index.json", t + "\n}\n");
        }
    }
    size_t n = p.declared == 1 ? 2 * total + 3 : total;
    if (!n && p.declared != 2) n = 1;
    { Quiet q; db->announced = n; }
    tethys::TethysStoreBuilderParam prm;
    prm.tethys_table_path = TABLE;
    prm.tethys_stash_path = STASH;
    prm.max_n_elements = n + 6 * 2 * (n / L + 1 + p.len.size());
    prm.epsilon = p.eps;
    uint64_t f0 = docs::io_faults();
    try {
        auto k = db->key;
        if (p.faulty) { vfs::set_faults(p.wf); g_stall_is_crash = true; }
        std::unique_ptr<PlutoBuilder<Pr>> b(new PlutoBuilder<Pr>(n, prm, K::builder(p, n), crypto::Key<32>(k.data()), db->enc));
        if (p.move) b.reset(new PlutoBuilder<Pr>(std::move(*b)));
        if (p.json) {
            if (!b->load_inverted_index("/sim/index.json")) {
                vfs::clear_faults();
                Quiet q;
                if (docs::io_faults() == f0) fail("refused", "the index could not be loaded although nothing failed");
                return;
            }
        } else {
            for (size_t i = 0; i < p.len.size(); i++) b->insert_list(db->name[i], std::list<uint64_t>(db->docs[i].begin(), db->docs[i].end()));
        }
        b->build();
        Quiet q;
        sim::trace("built");
        db->built = true;
        vfs::clear_faults();
    } catch (std::exception& e) {
        vfs::clear_faults();
        Quiet q;
        sim::trace("build: %s", e.what());
        // a cuckoo table may have no room for the blocks, however large it is
        size_t blocks = std::max<size_t>(full, 1 + (n - 1) / L);
        if (docs::io_faults() == f0 && (!K::cuckoo || blocks <= 2) && n) fail("refused", "the database could not be built although nothing failed: %s", e.what());
        probe(docs::io_faults() == f0 ? "blocks_did_not_fit" : "build_threw");
    }
    if (docs::io_faults() == f0) g_stall_is_crash = false;
    if (vfs::exists(STASH)) probe("stash");
}
template<class K> void search(const Plan& p)
{
    typedef typename K::Params Pr;
    typedef PlutoServer<Pr> Server;
    typedef PlutoClient<typename Pr::tethys_inner_encoder_type::decoder_type> Client;
    std::unique_ptr<Server> server;
    std::unique_ptr<Client> client;
    g_stall_is_crash = docs::io_faults() > 0;
    try {
        auto k = db->key;
        server.reset(new Server(TABLE, K::table(p)));
        typename Pr::tethys_inner_encoder_type::decoder_type dec;
        if (work(2)) client.reset(new Client(STASH, crypto::Key<32>(k.data()), db->enc));
        else client.reset(new Client(STASH, dec, crypto::Key<32>(k.data()), db->enc));
    } catch (std::exception& e) {
        Quiet q;
        if (!docs::io_faults()) fail("open-failed", "a built database could not be opened: %s", e.what());
        probe("open_failed");
        return;
    }
    if (p.rfaulty) { vfs::set_faults(p.rf); g_stall_is_crash = true; }
    auto body = [&] {
        for (size_t i = 0; i < db->name.size() + 1; i++) {
            std::string kw = i < db->name.size() ? db->name[i] : "unknown";
            std::multiset<uint64_t> want, res;
            if (i < db->name.size()) want = db->docs[i];
            std::vector<uint64_t> l;
            try {
                pluto::SearchRequest r = client->search_request(kw);
                auto resp = server->search(r);
                l = client->decode_search_results(r, resp);
            } catch (std::exception& e) {
                Quiet q;
                sim::trace("search: %s", e.what());
                if (!read_faults()) fail("refused", "a search failed although nothing did: %s", e.what());
                probe("search_threw");
                continue;
            }
            Quiet q; Scope s(AR_S);
            for (uint64_t x : l) res.insert(x);
            sim::trace("keyword %zu: %zu documents of %zu", i, res.size(), want.size());
            if (res != want) {
                std::multiset<uint64_t> miss, extra;
                std::set_difference(want.begin(), want.end(), res.begin(), res.end(), std::inserter(miss, miss.end()));
                std::set_difference(res.begin(), res.end(), want.begin(), want.end(), std::inserter(extra, extra.end()));
                fail("wrong-list", "the search of keyword %zu (%zu documents) returned %zu: missing%s, in excess%s", i, want.size(), res.size(), str(miss).c_str(), str(extra).c_str());
            }
            mix(res.size());
            if (res.size() > Pr::kPlutoListLength) { nontrivial(); probe("several_blocks"); }
            progress();
        }
    };
    std::vector<std::thread> th;
    for (int t = 1; t < p.threads; t++) th.emplace_back(body);
    body();
    for (auto& t : th) t.join();
    vfs::clear_faults();
}
#define BY_TYPE(f, ...) (type == 0 ? f<Cuckoo<512>>(__VA_ARGS__) : type == 1 ? f<Cuckoo<4096>>(__VA_ARGS__) : type == 2 ? f<Rocks<512>>(__VA_ARGS__) : f<Rocks<4096>>(__VA_ARGS__))
void run()
{
    draw_sched_cfg();
    db = make_shared_state<Db>();
    int type = (int)work(8);
    if (type >= 4) type = type < 6 ? 0 : type == 6 ? 2 : 1;
    bool wide = type & 1;
    size_t L = type == 0 ? Cuckoo<512>::Params::kPlutoListLength : type == 1 ? Cuckoo<4096>::Params::kPlutoListLength : type == 2 ? Rocks<512>::Params::kPlutoListLength : Rocks<4096>::Params::kPlutoListLength;
    Plan p;
    p.json = work(3) == 0;
    // a list of more blocks than a byte counts, seldom: it costs much
    bool huge = work(60) == 0;
    if (huge) { type = 2; wide = false; L = Rocks<512>::Params::kPlutoListLength; probe("over_255_blocks"); }
    int nk = huge ? 1 + (int)work(2) : (int)work(8);
    for (int i = 0; i < nk; i++) {
        size_t blocks = work(2) ? 0 : 1 + work(wide ? 2 : 5);
        if (huge && i == 0) blocks = 254 + work(6);
        size_t rest = work(3) == 0 ? 0 : work(3) ? work(8) : work(3) ? work(L) : L - 1;
        p.len.push_back(blocks * L + rest);
        Scope s(AR_S);
        db->name.push_back(p.json ? "kw" + std::to_string(i) : docs::keyword(i));
    }
    p.cuckoo_options = work(2);
    p.faulty = work(5) == 0;
    p.wf = docs::write_faults();
    p.rfaulty = work(3) == 0;
    uint32_t pr = 100 << work(6);
    p.rf.p[vfs::F_READ_EIO] = p.rf.p[vfs::F_READ_SHORT] = pr;
    p.rf.p[vfs::F_OPEN] = pr / 4;
    p.move = work(3) == 0;
    p.same = work(4) == 0;
    p.declared = (int)work(3);
    p.depth = 200;
    p.eps = 0.1 + 0.2 * work(6);
    p.threads = 1 + (int)work(3);
    Crash crash = !p.same && work(4) == 0 ? work(3) ? CRASH_PROCESS : CRASH_POWER : CRASH_NONE;
    bool at_end = work(3) == 0;
    uint64_t at = !crash ? 0 : at_end ? 1ULL << 60 : 1 + draw(T_CRASH, type >= 2 ? 300 : 120);
    IncResult r = incarnation([&] {
        sim::Scope app(AR_A);
        BY_TYPE(build, p);
        if (p.same && db->built) BY_TYPE(search, p);
        if (crash && at_end) crash_now(crash);
    }, crash, at);
    vfs::clear_faults();
    if (r.crashed) probe(db->built ? "crashed_once_built" : "crashed_while_building");
    std::string f;
    if (db->built && type < 2 && vfs::read_file(BLOCKS, f)) {
        // how many lists are complete is not to be seen: the cells in use are
        // as many as announced elements can fill
        size_t page = type == 0 ? 512 : 4096, used = 0, want = db->announced ? 1 + (db->announced - 1) / L : 1;
        for (size_t i = 0; i + page <= f.size(); i += page) used += f.find_first_not_of('\xff', i) < i + page;
        if (used != want) fail("visible-blocks", "%zu cells of the table are in use for %zu announced elements, instead of %zu: the number of complete lists shows", used, db->announced, want);
        probe("cells_counted");
    }
    // the table of incomplete lists comes last: with it, the database is complete
    if (!db->built && !vfs::exists(TABLE)) return;
    if (!db->built) probe("complete_after_interruption");
    incarnation([&] { sim::Scope app(AR_A); BY_TYPE(search, p); });
}
Reg r({"C12", "pluto", run, false, 20000, 300000,
       "up to seven keywords whose lists are empty, shorter than a block, exactly blocks, blocks and more, seldom more than 255 blocks, inserted directly or from an index file; blocks of 512 or 4096 bytes in a cuckoo table or in RocksDB with either kind of table; a moved builder, more elements announced than inserted, failing writes, a process killed or a power failure while building or just after (what is left cannot be opened, or is complete); then up to three threads search every keyword in the same process or another, with failing and short reads; non-trivial: a search with more results than a block"});
} // namespace
