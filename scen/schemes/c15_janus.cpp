// C15: Janus against a set per keyword.
#include "docs.h"
#include <sse/schemes/janus/janus_client.hpp>
#include <sse/schemes/janus/janus_server.hpp>

#include <sse/crypto/random.hpp>

#include <memory>
#include <thread>

using namespace sim;
using namespace sse;
using namespace sse::janus;

static Decl d("C15", "JanusClient, JanusServer, DianaClient, DianaServer, RocksDBCounter, RockDBWrapper, RockDBListStore, RocksDB",
              "crypto-tk: a stand-in of its interface (stubs/; a puncturable key decrypts only if it is made of the shares of punctures 1 to n, once each); file system, threads, clock, randomness: simulator");

namespace {
struct Model
{
    bool set = false;
    std::array<uint8_t, 32> master;
    std::vector<std::string> name;
    std::vector<std::set<uint64_t>> in;   // what a search must return
    std::vector<std::set<uint64_t>> gone; // deleted since the last search
};
Model* m;

struct App
{
    std::unique_ptr<JanusClient> client;
    std::unique_ptr<JanusServer> server;
    void open_client()
    {
        client.reset();
        auto a = m->master;
        client.reset(new JanusClient("/sim/client_search", "/sim/client_add", "/sim/client_del", crypto::Key<32>(a.data())));
    }
    void open_server()
    {
        server.reset();
        server.reset(new JanusServer("/sim/server_add", "/sim/server_del", "/sim/server_cache"));
    }
};
const char* HOW[] = {"search", "search_parallel", "search_parallel_callback", "search_parallel_id_callback"};
enum { INSERT, REMOVE, SEARCH, SEARCH_UNKNOWN };
struct Op { int kind, k, how, threads; uint64_t doc; };

void search(App& a, int k, int how, int threads)
{
    bool known = k >= 0;
    { Quiet q; sim::trace("%s(keyword %d) with %d threads", HOW[how], k, threads); }
    std::multiset<uint64_t> res;
    std::list<uint64_t>     l;
    std::string name = known ? m->name[k] : "never inserted";
    auto r = a.client->search_request(name);
    auto cb = [&](uint64_t x) { Quiet q; res.insert(x); };
    auto id = [&](uint64_t x, uint8_t t) { Quiet q; res.insert(x); if (t > threads) fail("thread-id", "%s with %d threads gives thread id %d", HOW[how], threads, t); };
    switch (how) {
    case 0: l = a.server->search(r); break;
    case 1: l = a.server->search_parallel(r, (uint8_t)threads); break;
    case 2: a.server->search_parallel(r, (uint8_t)threads, std::function<void(uint64_t)>(cb)); break;
    case 3: a.server->search_parallel(r, (uint8_t)threads, std::function<void(uint64_t, uint8_t)>(id)); break;
    }
    Quiet q; Scope s(AR_S);
    for (uint64_t x : l) res.insert(x);
    sim::trace("%s(keyword %d) ->%s", HOW[how], k, docs::list(res).c_str());
    std::multiset<uint64_t> want;
    if (known) want.insert(m->in[k].begin(), m->in[k].end());
    if (res != want) {
        std::multiset<uint64_t> missing, extra;
        std::set_difference(want.begin(), want.end(), res.begin(), res.end(), std::inserter(missing, missing.end()));
        std::set_difference(res.begin(), res.end(), want.begin(), want.end(), std::inserter(extra, extra.end()));
        if (!missing.empty()) fail("missing-result", "%s of keyword %d does not return%s (returned:%s)", HOW[how], k, docs::list(missing).c_str(), docs::list(res).c_str());
        fail("extra-result", "%s of keyword %d returns too much:%s (expected:%s)", HOW[how], k, docs::list(extra).c_str(), docs::list(want).c_str());
    }
    if (known) m->gone[k].clear();
    mix(res.size());
    for (uint64_t x : res) mix(x);
    if (res.size() > 1) nontrivial();
    probe(HOW[how]);
    progress();
}
void exec(App& a, const Op& o)
{
    if (o.kind == SEARCH) return search(a, o.k, o.how, o.threads);
    if (o.kind == SEARCH_UNKNOWN) return search(a, -1, o.how, o.threads);
    bool in, gone;
    { Quiet q; in = m->in[o.k].count(o.doc); gone = m->gone[o.k].count(o.doc); }
    if (o.kind == INSERT) {
        // one document is inserted once, and not again before the next search if it was deleted
        if (in || gone) return;
        { Quiet q; sim::trace("insert(keyword %d, %llu)", o.k, (unsigned long long)o.doc); }
        auto r = a.client->insertion_request(m->name[o.k], o.doc);
        a.server->insert(r);
        Quiet q; Scope s(AR_S);
        m->in[o.k].insert(o.doc);
    } else {
        // (sometimes one which is not there)
        if (gone) return;
        { Quiet q; sim::trace("remove(keyword %d, %llu)", o.k, (unsigned long long)o.doc); }
        auto r = a.client->removal_request(m->name[o.k], o.doc);
        a.server->remove(r);
        Quiet q; Scope s(AR_S);
        m->in[o.k].erase(o.doc);
        m->gone[o.k].insert(o.doc);
        probe("removal");
    }
    progress();
}

void run()
{
    draw_sched_cfg();
    g_hw_concurrency = (unsigned)(1 + work(4));
    m = make_shared_state<Model>();
    int nk = 1 + (int)work(3), incs = 1 + (int)work(3), ndoc = 2 + (int)work(6);
    int p_search = 1 + (int)work(4), p_remove = 1 + (int)work(6);
    bool many = work(16) == 0;
    uint64_t base = work(2) ? 0 : ~0ULL - 40;
    {
        Scope s(AR_S);
        m->in.resize(nk);
        m->gone.resize(nk);
        // keywords which look like the counters put in front of them, too
        bool digits = work(2);
        for (int k = 0; k < nk; k++) m->name.push_back(digits ? std::string(8 * work(3), '0') + std::string(k, '1') : docs::keyword(k));
        for (int k = 0; k < nk; k++) for (int j = 0; j < k; j++) if (m->name[j] == m->name[k]) m->name[k] += (char)('a' + k);
    }
    auto threads = [&] { return !many ? 1 + (int)work(6) : work(10) ? 1 + (int)work(24) : 256 - 1 - (int)work(8); };
    auto gen = [&](int k) {
        Op o;
        int x = (int)work(6 + p_search + p_remove);
        o.kind = x < 6 ? INSERT : x < 6 + p_remove ? REMOVE : SEARCH;
        if (o.kind == SEARCH && work(8) == 0) o.kind = SEARCH_UNKNOWN;
        o.k = k;
        o.how = (int)work(4);
        o.threads = threads();
        o.doc = base + work(ndoc);
        return o;
    };
    for (int i = 0; i < incs; i++) {
        // one operation after the other, then several threads, each with keywords of its own
        std::vector<std::vector<Op>> conc(1 + work(nk));
        std::vector<Op> seq, look;
        int ns = (int)work(16), nc = (int)work(16);
        for (int j = 0; j < ns; j++) seq.push_back(gen((int)work(nk)));
        for (int j = 0; j < nc; j++) { int k = (int)work(nk); conc[k % conc.size()].push_back(gen(k)); }
        bool all = work(2);
        for (int k = 0; k < nk; k++) { Op o = gen(k); o.kind = SEARCH; if (all || work(2)) look.push_back(o); }
        int reopen = (int)work(4);
        bool killed = work(3) == 0;
        IncResult res = incarnation([&] {
            sim::Scope app(AR_A);
            if (!m->set) {
                auto x = crypto::random_bytes<uint8_t, 32>();
                Quiet q;
                m->master = x; m->set = true;
            }
            App a;
            a.open_client();
            a.open_server();
            for (auto& o : seq) exec(a, o);
            if (reopen & 1) a.open_client();
            if (reopen & 2) a.open_server();
            std::vector<std::thread> th;
            for (size_t t = 1; t < conc.size(); t++) th.emplace_back([&, t] { for (auto& o : conc[t]) exec(a, o); });
            for (auto& o : conc[0]) exec(a, o);
            for (auto& t : th) t.join();
            for (auto& o : look) exec(a, o);
            if (killed) crash_now(CRASH_PROCESS);
        }, killed ? CRASH_PROCESS : CRASH_NONE, 1ULL << 60);
        if (res.crashed) probe("crashed");
    }
    incarnation([&] {
        sim::Scope app(AR_A);
        App a;
        a.open_client();
        a.open_server();
        for (int k = 0; k < nk; k++) search(a, k, 0, 1);
        for (int k = 0; k < nk; k++) search(a, k, 1, 2); // again, out of the cache
    });
}
Reg r({"C15", "janus", run, false, 2000, 25000,
       "one to three keywords, some looking like the search counters put in front of them; one to three incarnations of random insertions, deletions (sometimes of documents not there) and searches (all four entry points, 1 to 255 threads), one after the other and from several threads on different keywords, reopening and killing between operations; every result is compared with the set of documents inserted and not deleted; non-trivial: a search with several results"});
} // namespace
