// C10: Tethys stores, alone and behind the Tethys client and server.
#include "aio_choice.h"
#include "docs.h"
#include <sse/schemes/abstractio/kv_serializer.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/tethys_builder.hpp>
#include <sse/schemes/tethys/tethys_client.hpp>
#include <sse/schemes/tethys/tethys_server.hpp>
#include <sse/schemes/tethys/tethys_store.hpp>
#include <sse/schemes/tethys/tethys_store_builder.hpp>

#include <sse/crypto/random.hpp>

#include <memory>
#include <thread>

using namespace sim;
using namespace sse;
using namespace sse::tethys;

static Decl d("C10", "TethysStoreBuilder, TethysAllocator, TethysGraph, TethysStore, encoders, TethysBuilder, TethysServer, TethysClient, awonvm_vector, AIO scheduler, RocksDBCounter, RocksDB",
              "kernel AIO, file system, threads, clock: simulator; crypto-tk, libsodium stream cipher, JSON parser: stand-ins of their interfaces (stubs/)");

namespace {
typedef tethys_core_key_type Key;
typedef std::vector<uint64_t> List;
static const char* TABLE = "/sim/table.bin";
static const char* STASH = "/sim/stash.bin";

std::string str(const List& l)
{
    std::string r;
    for (size_t i = 0; i < l.size() && i < 20; i++) r += " " + std::to_string(l[i]);
    return l.size() > 20 ? r + " ..." : r;
}
std::string str(const std::multiset<uint64_t>& l) { return str(List(l.begin(), l.end())); }

struct Asked { int k; int calls = 0; int accepted = -1; uint64_t faults = 0; };
struct Model
{
    std::map<Key, List> lists;       // sorted
    std::vector<Key> keys;           // these and some unknown ones
    std::vector<Asked> asked;
    bool built = false;
    bool stash = false;
    bool closed = false;
    bool interrupted = false;
};
Model* m;

uint64_t read_faults()
{
    return fault_count("read_") + fault_count("aio_") + fault_count("open") + fault_count("alloc");
}
// A lookup of key number k delivered l
void check(int k, List l, const char* how)
{
    static const List none;
    std::sort(l.begin(), l.end());
    auto it = m->lists.find(m->keys[k]);
    const List& want = it == m->lists.end() ? none : it->second;
    if (l != want) {
        // A failed lookup may have no result: it is not a wrong one
        if (l.empty() && read_faults()) { probe("failed_lookup"); return; }
        List miss, extra;
        std::set_difference(want.begin(), want.end(), l.begin(), l.end(), std::back_inserter(miss));
        std::set_difference(l.begin(), l.end(), want.begin(), want.end(), std::back_inserter(extra));
        fail("wrong-list", "%s of list %d (%zu elements) returned %zu elements: missing%s, in excess%s", how, k, want.size(), l.size(), str(miss).c_str(), str(extra).c_str());
    }
    mix(l.size());
    if (l.size() > 1) nontrivial();
    progress();
}

template<size_t P> struct Types
{
    typedef encoders::EncodeSeparateEncoder<Key, uint64_t, P> Encoder;
    typedef encoders::EncodeSeparateDecoder<Key, uint64_t, P> Decoder;
    typedef TethysStoreBuilder<P, Key, uint64_t, IdentityHasher, Encoder> Builder;
    typedef TethysStore<P, Key, uint64_t, IdentityHasher, Decoder> Store;
};
struct Plan { size_t n; double eps; int hot; bool big, near; std::vector<size_t> lengths; vfs::FaultCfg fc; bool faulty; bool same = false; bool late = false; };

template<size_t P> void build(const Plan& p)
{
    typedef Types<P> T;
    TethysStoreBuilderParam prm;
    prm.tethys_table_path = TABLE;
    prm.tethys_stash_path = STASH;
    prm.max_n_elements = p.n;
    prm.epsilon = p.eps;
    size_t half = prm.graph_size(T::Builder::kBucketSize) / 2;
    uint64_t v = 1, f0;
    {
        Quiet q; Scope s(AR_S);
        f0 = docs::io_faults();
        if (!p.same) m->keys = {};
        m->lists = {};
        if (m->keys.empty()) for (size_t i = 0; i < p.lengths.size() + 4; i++) {
            Key k;
            uint64_t h[2] = {work(p.hot ? std::min<size_t>(half, p.hot) : half) + half * (i + 1), work(p.hot ? std::min<size_t>(half, p.hot) : half) + half * (i + 1)};
            if (p.near && i && work(3)) { // the same buckets as another key, and few bytes apart from it
                uint64_t o[2];
                memcpy(o, m->keys[work(i)].data(), 16);
                o[work(2)] += (uint64_t)half << work(65 - (64 - __builtin_clzll(half)));
                Key c;
                memcpy(c.data(), o, 16);
                if (std::find(m->keys.begin(), m->keys.end(), c) == m->keys.end()) memcpy(h, o, 16);
            }
            memcpy(k.data(), h, 16);
            m->keys.push_back(k);
        }
    }
    try {
        vfs::set_faults(p.fc);
        typename T::Builder b(prm);
        for (size_t i = 0; i < p.lengths.size(); i++) {
            size_t n = std::min<size_t>(p.lengths[i], T::Builder::kMaxListSize);
            List l;
            for (size_t j = 0; j < n; j++) l.push_back(v++);
            b.insert_list(m->keys[i], l);
            Quiet q; Scope s(AR_S);
            m->lists[m->keys[i]] = l;
        }
        b.build();
        {
        Quiet q;
        m->built = true;
        sim::trace("built: %zu lists, %llu elements, %zu buckets", p.lengths.size(), (unsigned long long)v - 1, 2 * half);
        }
        if (p.late) {
            // nothing more can be put in it, nor is it built again
            bool taken = false;
            try { b.insert_list(m->keys[p.lengths.size()], List(3, 77)); taken = true; } catch (std::exception&) {}
            if (taken) fail("late-insert", "a list was accepted by a store which is built already");
            try { b.build(); } catch (std::exception&) {}
            probe("late_insert");
        }
    } catch (std::exception& e) {
        Quiet q;
        sim::trace("build: %s", e.what());
        if (docs::io_faults() == f0) fail("refused", "the store could not be built although nothing failed: %s", e.what());
        probe("build_failed");
    }
    vfs::clear_faults();
    m->stash = vfs::exists(STASH);
    if (m->stash) probe("stash");
}

// There is a store: another one does not take its place.
template<size_t P> void refused_build(size_t n)
{
    TethysStoreBuilderParam prm;
    prm.tethys_table_path = TABLE;
    prm.tethys_stash_path = STASH;
    prm.max_n_elements = n;
    prm.epsilon = 0.2;
    bool done = false;
    try {
        typename Types<P>::Builder b(prm);
        for (size_t i = 0; i < m->keys.size(); i += 2) b.insert_list(m->keys[i], List(3, 12345));
        b.build();
        done = true;
    } catch (std::exception& e) { Quiet q; sim::trace("build: %s", e.what()); }
    if (done) fail("overwritten", "a store was built where there is one already");
    probe("build_refused");
}
// No store was built: none can be opened.
template<size_t P> void refused_open()
{
    bool done = false;
    try { typename Types<P>::Store st(TABLE, STASH); done = true; }
    catch (std::exception& e) { Quiet q; sim::trace("open: %s", e.what()); }
    if (done) fail("opened", "a store which was never built could be opened");
    probe("open_refused");
}
struct Op { int kind, k; };
void on_list(size_t a, List l)
{
    Quiet q; Scope s(AR_S);
    Asked& r = m->asked[a];
    if (++r.calls > 1) fail("answered-twice", "the asynchronous lookup of list %d was answered twice", r.k);
    if (m->closed) fail("late-answer", "the asynchronous lookup of list %d was answered after the store was closed", r.k);
    sim::trace("list %d:%s", r.k, str(l).c_str());
    check(r.k, l, "an asynchronous lookup");
}
struct Look { std::vector<std::vector<Op>> plan; bool direct, wait; vfs::FaultCfg fc; aio::Cfg ac; uint32_t pmem; int stash_faults; };

template<size_t P> void lookup(const Look& p)
{
    typedef typename Types<P>::Store Store;
    std::unique_ptr<Store> st;
    typename Types<P>::Decoder dec;
    if (p.stash_faults) { vfs::FaultCfg f; f.p[vfs::F_READ_EIO] = f.p[vfs::F_READ_SHORT] = 3000; f.p[vfs::F_OPEN] = 1500; vfs::set_faults(f); }
    try {
        if (work(2)) st.reset(new Store(TABLE, STASH));
        else st.reset(new Store(TABLE, STASH, dec));
    } catch (std::exception& e) {
        Quiet q;
        sim::trace("open: %s", e.what());
        vfs::clear_faults();
        if (!read_faults()) fail("open-failed", "a built store could not be opened: %s", e.what());
        probe("open_failed");
        return;
    }
    vfs::clear_faults();
    try { if (p.direct) st->use_direct_IO(true); }
    catch (std::exception& e) { fail("refused", "use_direct_IO: %s", e.what()); }
    vfs::set_faults(p.fc);
    aio::cfg = p.ac;
    g_alloc_fail_p = p.pmem;
    std::vector<std::thread> th;
    std::atomic<int> pending{0};
    auto body = [&](size_t t) {
        typename Types<P>::Decoder mine;
        for (auto& o : p.plan[t]) {
            const Key& key = m->keys[o.k];
            uint64_t f0 = read_faults();
            size_t a = 0;
            if (o.kind >= 2) {
                Quiet q; Scope s(AR_S);
                a = m->asked.size();
                m->asked.push_back(Asked()); m->asked[a].k = o.k; m->asked[a].faults = f0;
                sim::trace("asynchronous lookup %zu of list %d", a, o.k);
            }
            try {
                if (o.kind < 2) {
                    List l = o.kind ? st->get_list(key) : st->get_list(key, mine);
                    Quiet q; Scope s(AR_S);
                    check(o.k, l, "a lookup");
                } else {
                    pending++;
                    auto cb = [a, &pending](List l) { on_list(a, std::move(l)); pending--; };
                    if (o.kind == 2) st->async_get_list(key, cb);
                    else st->async_get_list(key, dec, cb);
                    Quiet q;
                    m->asked[a].accepted = 1;
                }
            } catch (std::exception& e) {
                Quiet q; Scope s(AR_S);
                sim::trace("list %d: %s", o.k, e.what());
                if (!read_faults()) fail("refused", "a lookup of list %d failed although nothing did: %s", o.k, e.what());
                probe("lookup_threw");
                if (o.kind >= 2) {
                    m->asked[a].accepted = 0;
                    pending--;
                    if (m->asked[a].calls) fail("refused-answered", "the asynchronous lookup of list %d was answered and refused with an exception", o.k);
                }
            }
        }
    };
    for (size_t t = 1; t < p.plan.size(); t++) th.emplace_back(body, t);
    body(0);
    for (auto& t : th) t.join();
    g_alloc_fail_p = 0;
    if (p.wait && !read_faults())
        while (pending) std::this_thread::yield();
    st.reset();
    m->closed = true;
    vfs::clear_faults();
    for (auto& a : m->asked) {
        if (a.accepted == 0 && a.calls) fail("refused-answered", "the asynchronous lookup of list %d was answered and refused with an exception", a.k);
        if (a.accepted == 1 && a.calls == 0) {
            if (!read_faults()) fail("lost-answer", "the asynchronous lookup of list %d was never answered", a.k);
            probe("no_answer");
        }
    }
    if (!m->asked.empty()) probe("async");
    if (vfs::open_fds()) fail("fd-leak", "%d descriptors still open", vfs::open_fds());
}

void run_store()
{
    draw_sched_cfg();
    m = make_shared_state<Model>();
    Plan p;
    g_thread_pool_aio = work(4) == 1;
    bool wide = work(2);
    // the kernel's asynchronous I/O needs pages of the size of the machine's
    int kinds = wide || g_thread_pool_aio ? 4 : 2;
    int nl = (int)work(wide ? 12 : 16);
    size_t total = 0, maxl = (wide ? 4096 : 512) / 8 - 6;
    for (int i = 0; i < nl; i++) {
        size_t n = work(6) == 0 ? 0 : work(4) == 0 ? maxl - work(3) : work(3) ? work(6) : work(maxl + 1);
        p.lengths.push_back(n);
        total += n + 6;
    }
    p.n = std::max<size_t>(1, work(3) ? total : work(2) ? total / 2 : 2 * total);
    p.eps = 0.1 * work(6);
    p.hot = (int)work(5);
    p.near = work(4) == 0;
    p.late = work(5) == 0;
    p.faulty = work(8) == 0;
    if (p.faulty) p.fc = docs::write_faults();
    Look l;
    l.plan.resize(1 + work(3));
    int nops = 1 + (int)work(thorough() ? 30 : 16);
    for (int i = 0; i < nops; i++) { Op o; o.kind = (int)work(kinds); o.k = (int)work(nl + 4); l.plan[work(l.plan.size())].push_back(o); }
    for (int k = 0; k < nl; k++) if (work(2)) { Op o; o.kind = (int)work(kinds); o.k = k; l.plan[0].push_back(o); }
    l.direct = work(2);
    l.wait = work(2);
    l.pmem = 0;
    l.stash_faults = work(8) == 0;
    aio::Cfg calm;
    calm.depth_cap = work(2) ? 0 : 1 + work(6);
    l.ac = calm;
    switch (work(8)) {
    case 0: l.ac.p_eio = l.ac.p_short = 1500; l.fc.p[vfs::F_READ_EIO] = l.fc.p[vfs::F_READ_SHORT] = 1000; break;
    case 1: l.ac.p_submit_fail = 2000; break;
    case 2: l.pmem = 1500; break;
    case 3: l.ac.p_partial = 3000; l.ac.p_eintr = 2000; break;
    }
    Crash crash = CRASH_NONE;
    if (work(4) == 0) crash = work(2) ? CRASH_PROCESS : CRASH_POWER;
    bool at_end = work(3) == 0, again = work(2);
    uint64_t at = !crash ? 0 : at_end ? 1ULL << 60 : 1 + draw(T_CRASH, p.n / 20 + 40);
    IncResult res = incarnation([&] {
        sim::Scope app(AR_A);
        if (wide) build<4096>(p); else build<512>(p);
        if (at_end && crash) crash_now(crash);
    }, crash, at);
    vfs::clear_faults();
    if (res.crashed) probe("crashed_building");
    if (!m->built && again && !vfs::exists(TABLE)) {
        // whoever runs the builder tries again
        Plan p2 = p;
        p2.fc = vfs::FaultCfg();
        if (work(2)) { // with fewer elements
            p2.same = true;
            for (auto& n : p2.lengths) n = work(std::min<size_t>(n, maxl) / 2 + 1);
        }
        m->interrupted = true;
        incarnation([&] {
            sim::Scope app(AR_A);
            if (wide) build<4096>(p2); else build<512>(p2);
        });
        probe("built_again");
    }
    aio::cfg = aio::Cfg();
    if (m->built && !vfs::exists(TABLE)) fail("lost", "the table of a store which was built is not there any more");
    // an interrupted build leaves nothing which looks like a store, or all of it
    if (!m->built && !vfs::exists(TABLE)) {
        incarnation([&] {
            sim::Scope app(AR_A);
            if (wide) refused_open<4096>(); else refused_open<512>();
        });
        return;
    }
    if (work(8) == 0) {
        size_t n = 1 + work(200);
        incarnation([&] {
            sim::Scope app(AR_A);
            if (wide) refused_build<4096>(n); else refused_build<512>(n);
        });
    }
    if (!m->built) probe("complete_after_interruption");
    incarnation([&] {
        sim::Scope app(AR_A);
        if (wide) lookup<4096>(l); else lookup<512>(l);
    });
}
Reg r1({"C10", "store", run_store, false, 15000, 180000,
        "up to sixteen lists, from empty to the longest allowed, keys crowded on few buckets or not, tables too small, just right or too large; then up to three threads of synchronous and asynchronous lookups of these and unknown keys in another process, buffered or direct, closing the store with lookups under way; failing and short reads, refused submissions, failing allocations, failing writes when building, crashes of the process or of the machine while or after building (what is left is no store, or a complete one), building again, and failing reads when opening; non-trivial: a list of several elements was looked up"});

// ------------------------------------------------------- client and server
struct Db { std::vector<std::string> name; std::vector<std::multiset<uint64_t>> docs; std::array<uint8_t, 32> key, enc; bool built = false; };
Db* db;

template<size_t P> struct Scheme
{
    typedef encoders::EncodeSeparateEncoder<Key, uint64_t, P> Encoder;
    typedef encoders::EncodeSeparateDecoder<Key, uint64_t, P> Decoder;
    typedef TethysBuilder<P, Encoder> Builder;
    typedef TethysServer<tethys_server_store_type<P>> Server;
    typedef TethysClient<Decoder> Client;
};
template<size_t P> void scheme_build(const std::vector<size_t>& lengths, bool json, size_t n, double eps, bool faulty, const vfs::FaultCfg& fc)
{
    typedef Scheme<P> T;
    {
        auto a = crypto::random_bytes<uint8_t, 32>(), b = crypto::random_bytes<uint8_t, 32>();
        Quiet q; Scope s(AR_S);
        db->key = a; db->enc = b;
        uint64_t v = work(2);
        for (size_t i = 0; i < lengths.size(); i++) {
            db->docs.push_back({});
            for (size_t j = 0; j < lengths[i]; j++) db->docs[i].insert(work(8) ? v++ : 3);
        }
        if (json) {
            std::string t = "{";
            for (size_t i = 0; i < lengths.size(); i++) {
                t += (i ? ",\n\"" : "\n\"") + db->name[i] + "\": [";
                bool first = true;
                for (uint64_t x : db->docs[i]) { t += (first ? "" : ", ") + std::to_string(x); first = false; }
                t += "]";
            }
            vfs::write_file("/sim/index.json", t + "\n}\n");
        }
    }
    TethysStoreBuilderParam prm;
    prm.tethys_table_path = TABLE;
    prm.tethys_stash_path = STASH;
    prm.max_n_elements = n;
    prm.epsilon = eps;
    try {
        auto k = db->key;
        if (faulty) vfs::set_faults(fc);
        typename T::Builder b(prm, "/sim/counters", crypto::Key<32>(k.data()), db->enc);
        if (json) {
            if (!b.load_inverted_index("/sim/index.json")) {
                vfs::clear_faults();
                if (!docs::io_faults()) fail("refused", "the index could not be loaded although nothing failed");
                return;
            }
        } else {
            for (size_t i = 0; i < lengths.size(); i++) b.insert_list(db->name[i], std::list<uint64_t>(db->docs[i].begin(), db->docs[i].end()));
        }
        b.build();
        Quiet q;
        db->built = true;
    } catch (std::exception& e) {
        Quiet q;
        sim::trace("build: %s", e.what());
        if (!docs::io_faults()) fail("refused", "the database could not be built although nothing failed: %s", e.what());
    }
    vfs::clear_faults();
    if (docs::io_faults()) g_stall_is_crash = true;
    if (vfs::exists(STASH)) probe("stash");
}
template<size_t P> void scheme_search(int threads, const vfs::FaultCfg& fc, bool faulty)
{
    typedef Scheme<P> T;
    std::unique_ptr<typename T::Server> server;
    std::unique_ptr<typename T::Client> client;
    try {
        auto k = db->key;
        server.reset(new typename T::Server(TABLE));
        typename T::Decoder dec;
        if (work(2)) client.reset(new typename T::Client("/sim/counters", STASH, crypto::Key<32>(k.data()), db->enc));
        else client.reset(new typename T::Client("/sim/counters", STASH, dec, crypto::Key<32>(k.data()), db->enc));
    } catch (std::exception& e) {
        Quiet q;
        if (!docs::io_faults()) fail("open-failed", "a built database could not be opened: %s", e.what());
        return;
    }
    auto body = [&](int t) {
        for (size_t i = t; i < db->name.size() + 1; i++) {
            std::string kw = i < db->name.size() ? db->name[i] : "unknown";
            std::multiset<uint64_t> want, res;
            if (i < db->name.size()) want = db->docs[i];
            SearchRequest r = client->search_request(kw, work(2));
            if (faulty) { Quiet q; vfs::set_faults(fc); }
            std::vector<KeyedBucketPair<P>> b;
            try { b = server->search(r); }
            catch (std::exception& e) {
                Quiet q;
                if (!read_faults()) fail("refused", "a search failed although nothing did: %s", e.what());
                probe("search_threw");
                continue;
            }
            List l = client->decode_search_results(r, b);
            Quiet q; Scope s(AR_S);
            for (uint64_t x : l) res.insert(x);
            if (res != want) {
                std::multiset<uint64_t> miss, extra;
                std::set_difference(want.begin(), want.end(), res.begin(), res.end(), std::inserter(miss, miss.end()));
                std::set_difference(res.begin(), res.end(), want.begin(), want.end(), std::inserter(extra, extra.end()));
                fail("wrong-list", "the search of keyword %zu (%zu documents) returned %zu: missing%s, in excess%s", i, want.size(), res.size(), str(miss).c_str(), str(extra).c_str());
            }
            mix(res.size());
            if (res.size() > 1) nontrivial();
            progress();
        }
    };
    std::vector<std::thread> th;
    for (int t = 1; t < threads; t++) th.emplace_back(body, 0);
    body(0);
    for (auto& t : th) t.join();
    vfs::clear_faults();
}
void run_scheme()
{
    draw_sched_cfg();
    m = make_shared_state<Model>();
    db = make_shared_state<Db>();
    bool wide = work(4) == 0;
    size_t maxl = (wide ? 4096 : 512) / 8 - 6;
    int nk = 1 + (int)work(8);
    std::vector<size_t> len;
    size_t total = 0;
    bool json = work(3) == 0, huge = work(50) == 0;
    for (int i = 0; i < nk; i++) {
        size_t blocks = work(3) ? 0 : 1 + work(wide ? 2 : 4);
        if (i == 0 && huge && !wide) blocks = 252 + work(8);
        size_t n = blocks * maxl + (work(3) == 0 ? 0 : work(3) ? work(8) : work(maxl));
        len.push_back(n);
        total += n + 6 * (n / maxl + 1);
        Scope s(AR_S);
        db->name.push_back(json ? "kw" + std::to_string(i) : docs::keyword(i));
    }
    size_t n = std::max<size_t>(1, work(3) ? total : total / 2);
    double eps = 0.1 * work(5);
    bool faulty = work(6) == 0;
    vfs::FaultCfg wf = docs::write_faults(), rf;
    bool rfaulty = work(4) == 0;
    rf.p[vfs::F_READ_EIO] = rf.p[vfs::F_READ_SHORT] = 700;
    rf.only_path = "table.bin";
    int threads = 1 + (int)work(3);
    Crash crash = work(4) ? CRASH_NONE : work(2) ? CRASH_PROCESS : CRASH_POWER;
    incarnation([&] {
        sim::Scope app(AR_A);
        if (wide) scheme_build<4096>(len, json, n, eps, faulty, wf); else scheme_build<512>(len, json, n, eps, faulty, wf);
        if (crash && db->built) { probe("crash_once_built"); crash_now(crash); }
    }, crash, 1ULL << 60);
    if (!db->built) return;
    incarnation([&] {
        sim::Scope app(AR_A);
        if (wide) scheme_search<4096>(threads, rf, rfaulty); else scheme_search<512>(threads, rf, rfaulty);
    });
}
Reg r2({"C10", "scheme", run_scheme, false, 6000, 72000,
        "up to eight keywords whose lists are empty, shorter than a block, exactly blocks or several blocks and more (over 255), inserted directly or from an index file; then up to three threads search them all in another process; failing writes when building, crashes of the process or of the machine once built, failing and short reads of the table when searching; non-trivial: a search with several results"});
} // namespace
