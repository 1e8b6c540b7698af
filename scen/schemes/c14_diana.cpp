// C14: every Diana search variant, single and bulk insertions, deletions.
#include "docs.h"
#include <sse/schemes/diana/diana_client.hpp>
#include <sse/schemes/diana/diana_server.hpp>

#include <sse/crypto/random.hpp>

#include <memory>
#include <thread>

using namespace sim;
using namespace sse;
using namespace sse::diana;

static Decl d("C14", "DianaClient, DianaServer, RocksDBCounter, RockDBWrapper, RocksDB",
              "crypto-tk: a stand-in of its interface (stubs/); file system, threads, clock, randomness: simulator");

namespace {
docs::Model* m;
struct Keys { bool set; std::array<uint8_t, 32> derivation, token; };
Keys* keys;

struct App
{
    std::unique_ptr<DianaClient<uint64_t>> client;
    std::unique_ptr<DianaServer<uint64_t>> server;
    void open_client()
    {
        client.reset();
        auto a = keys->derivation, b = keys->token;
        client.reset(new DianaClient<uint64_t>("/sim/client", crypto::Key<32>(a.data()), crypto::Key<32>(b.data())));
    }
    void open_server()
    {
        server.reset();
        server.reset(new DianaServer<uint64_t>("/sim/server"));
    }
};
const char* HOW[] = {"search", "search_callback", "search_parallel", "search_parallel_vector", "search_parallel_callback", "search_parallel_tl_callback"};
enum { INSERT, BULK, SEARCH, DELETE, REMOVE };
struct Op { int kind, k, how, threads; uint64_t doc; std::vector<std::pair<int, uint64_t>> bulk; };

size_t start_insertion(int k, uint64_t doc)
{
    docs::Ins i;
    i.doc = doc; i.start = ++m->clock; i.inc = m->inc;
    m->kw[k].push_back(i);
    return m->kw[k].size() - 1;
}
template<class F> bool attempt(F f)
{
    try { f(); return true; }
    catch (std::exception& e) {
        Quiet q; Scope s(AR_S);
        sim::trace("not inserted: %s", e.what());
        if (!docs::io_faults()) fail("refused", "an insertion failed although nothing did: %s", e.what());
        return false;
    }
}
void insert(App& a, int k, uint64_t doc)
{
    size_t ix;
    { Quiet q; Scope s(AR_S); ix = start_insertion(k, doc); sim::trace("insert(keyword %d, %llu)", k, (unsigned long long)doc); }
    bool done = attempt([&] {
        auto r = a.client->insertion_request(m->name[k], doc);
        a.server->insert(r);
    });
    Quiet q; Scope s(AR_S);
    if (!done) { m->kw[k][ix].failed = true; return; }
    m->kw[k][ix].end = ++m->clock;
    sim::trace("inserted(keyword %d, %llu)", k, (unsigned long long)doc);
    progress();
}
void bulk(App& a, const std::vector<std::pair<int, uint64_t>>& l)
{
    std::list<std::pair<std::string, uint64_t>> req;
    std::vector<size_t> ix;
    {
        Quiet q; Scope s(AR_S);
        for (auto& x : l) {
            ix.push_back(start_insertion(x.first, x.second));
            sim::trace("bulk insert(keyword %d, %llu)", x.first, (unsigned long long)x.second);
        }
    }
    for (auto& x : l) req.push_back({m->name[x.first], x.second});
    bool done = attempt([&] {
        auto r = a.client->bulk_insertion_request(req);
        { Quiet q; if (r.size() != l.size()) fail("bulk-size", "a bulk request of %zu insertions has %zu elements", l.size(), r.size()); }
        for (auto& u : r) a.server->insert(u);
    });
    Quiet q; Scope s(AR_S);
    if (!done) { for (size_t i = 0; i < l.size(); i++) m->kw[l[i].first][ix[i]].failed = true; return; }
    for (size_t i = 0; i < l.size(); i++) m->kw[l[i].first][ix[i]].end = ++m->clock;
    ix = {};
    sim::trace("bulk inserted");
    probe("bulk");
    progress();
}
void search(App& a, int k, int how, int threads, bool del)
{
    uint64_t start;
    bool known = k < (int)m->name.size();
    { Quiet q; start = ++m->clock; if (del && known) docs::deleting(*m, k); sim::trace("%s(keyword %d) with %d threads%s", HOW[how], k, threads, del ? ", deleting" : ""); }
    std::multiset<uint64_t> res;
    std::map<size_t, int>   pos;
    std::map<int, int>      tid;
    std::string name = known ? m->name[k] : "never inserted";
    auto r = a.client->search_request(name, false);
    uint64_t count = r.add_count;
    auto cb = [&](uint64_t x) { Quiet q; res.insert(x); };
    auto tl = [&](size_t i, uint64_t x, uint8_t t) {
        Quiet q;
        res.insert(x);
        if (i >= count || pos[i]++) fail("position", "%s of keyword %d gives position %zu %s (%llu results)", HOW[how], k, i, i >= count ? "out of range" : "twice", (unsigned long long)count);
        int self = thread_id();
        if (t >= threads) fail("thread-id", "%s with %d threads gives thread id %d", HOW[how], threads, t);
        if (tid.count(t) && tid[t] != self) fail("thread-id", "%s: two threads have the id %d", HOW[how], t);
        tid[t] = self;
    };
    std::list<uint64_t>   l;
    std::vector<uint64_t> v((size_t)((start + k) % 3) * 7, 77777); // what it held is replaced
    switch (how) {
    case 0: l = a.server->search(r, del); break;
    case 1: a.server->search(r, cb, del); break;
    case 2: l = a.server->search_parallel(r, (uint8_t)threads, del); break;
    case 3: a.server->search_parallel(r, (uint8_t)threads, v, del); break;
    case 4: a.server->search_parallel(r, DianaServer<uint64_t>::basic_callback_type(cb), (uint8_t)threads, del); break;
    case 5: a.server->search_parallel(r, DianaServer<uint64_t>::tl_callback_type(tl), (uint8_t)threads, del); break;
    }
    Quiet q; Scope s(AR_S);
    for (uint64_t x : l) res.insert(x);
    if (how == 3) for (uint64_t x : v) res.insert(x);
    sim::trace("%s(keyword %d) ->%s", HOW[how], k, docs::list(res).c_str());
    if (known) {
        docs::check(*m, k, start, ++m->clock, res, HOW[how]);
        if (del) { docs::deleted(*m, k); probe("deleted"); }
    } else if (!res.empty()) fail("extra-result", "%s of a keyword never inserted returns%s", HOW[how], docs::list(res).c_str());
    if (res.size() > 1) nontrivial();
    probe(HOW[how]);
    progress();
}
void remove(App& a, int k, int threads)
{
    // the entries of a removed keyword would otherwise be found again
    search(a, k, (int)(threads % 6), threads, true);
    { Quiet q; sim::trace("remove_keyword(%d)", k); }
    bool done = a.client->remove_keyword(m->name[k]);
    uint64_t f0 = docs::io_faults();
    auto r = a.client->search_request(m->name[k], false);
    if (done && r.add_count) { Quiet q; if (docs::io_faults() == f0) fail("not-removed", "a search for keyword %d, just removed, asks for %u entries", k, (unsigned)r.add_count); }
    probe("removed");
}

void run()
{
    draw_sched_cfg();
    g_hw_concurrency = (unsigned)(1 + work(4));
    m = make_shared_state<docs::Model>();
    keys = make_shared_state<Keys>();
    int nk = 1 + (int)work(3), incs = 1 + (int)work(3);
    bool crash = work(2);
    bool many = work(8) == 0; // many threads
    bool large = work(6) == 0, huge = work(20) == 0; // huge: over 255 documents for a keyword
    {
        Scope s(AR_S);
        m->kw.resize(nk);
        for (int k = 0; k < nk; k++) m->name.push_back(docs::keyword(k));
    }
    uint64_t next = work(2) ? 0 : ~0ULL - 40;
    auto threads = [&] { return !many ? 1 + (int)work(6) : work(30) ? 1 + (int)work(24) : 256 - 1 - (int)work(8); };
    auto gen = [&](int most) { // most: the last kind
        static const int KINDS[] = {INSERT, INSERT, INSERT, BULK, SEARCH, SEARCH, DELETE, REMOVE};
        Op o;
        o.kind = KINDS[work(most == SEARCH ? 6 : most == REMOVE ? 8 : 7)];
        if (most < 0) o.kind = SEARCH;
        bool s = o.kind == SEARCH || o.kind == DELETE;
        o.k = (int)work(s && !work(8) ? nk + 1 : nk);
        o.how = (int)work(6);
        o.threads = threads();
        o.doc = work(10) ? next++ : 7;
        if (o.kind == BULK) {
            int n = huge ? 250 + (int)work(30) : (int)work(large ? 40 : 6);
            huge = false;
            for (int i = 0; i < n; i++) o.bulk.push_back({n > 40 || work(2) ? o.k : (int)work(nk), next++});
        }
        return o;
    };
    for (int i = 0; i < incs; i++) {
        // sequential operations, concurrent ones, then a look at everything
        std::vector<std::vector<Op>> conc(1 + work(3));
        std::vector<Op> seq;
        int ns = (int)work(12), nc = (int)work(10);
        for (int j = 0; j < ns; j++) seq.push_back(gen(REMOVE));
        for (int j = 0; j < nc; j++) conc[work(conc.size())].push_back(gen(SEARCH));
        std::vector<Op> look;
        for (int k = 0; k < nk; k++) { Op o = gen(-1); o.k = k; look.push_back(o); }
        int del = (int)work(3 * nk); // one is deleted at the end
        bool faulty = work(5) == 0; // I/O errors during the first operations
        vfs::FaultCfg fc;
        if (faulty) { fc = docs::write_faults(); seq.clear(); for (int j = 0; j < 10; j++) seq.push_back(gen(SEARCH)); }
        int reopen = (int)work(4);
        Crash c = crash && work(2) ? CRASH_PROCESS : CRASH_NONE;
        uint64_t at = c ? 1 + draw(T_CRASH, 120) : 0;
        IncResult res = incarnation([&] {
            sim::Scope app(AR_A);
            docs::restart(*m);
            if (!keys->set) {
                auto x = crypto::random_bytes<uint8_t, 32>(), y = crypto::random_bytes<uint8_t, 32>();
                Quiet q;
                keys->derivation = x; keys->token = y; keys->set = true;
            }
            App a;
            uint64_t f0 = docs::io_faults();
            auto reopen_all = [&](int which) {
                try { if (which & 1) a.open_client(); if (which & 2) a.open_server(); return true; }
                catch (std::exception& e) { Quiet q; if (!docs::io_faults()) fail("open-failed", "%s", e.what()); return false; }
            };
            if (!reopen_all(3)) return;
            auto exec = [&](const Op& o) {
                switch (o.kind) {
                case INSERT: insert(a, o.k, o.doc); break;
                case BULK: bulk(a, o.bulk); break;
                case SEARCH: search(a, o.k, o.how, o.threads, false); break;
                case DELETE: search(a, o.k, o.how, o.threads, true); break;
                case REMOVE: remove(a, o.k, o.threads); break;
                }
            };
            if (faulty) vfs::set_faults(fc);
            for (auto& o : seq) exec(o);
            vfs::clear_faults();
            if (docs::io_faults() > f0) { g_stall_is_crash = true; probe("io_fault"); }
            if (!reopen_all(docs::io_faults() > f0 ? 3 : reopen)) return;
            std::vector<std::thread> th;
            for (size_t t = 1; t < conc.size(); t++) th.emplace_back([&, t] { for (auto& o : conc[t]) exec(o); });
            for (auto& o : conc[0]) exec(o);
            for (auto& t : th) t.join();
            for (auto& o : look) exec(o);
            if (del < nk) search(a, del, look[del].how, look[del].threads, true);
            for (auto& o : look) search(a, o.k, (o.how + 1 + (int)i) % 6, o.threads, false); // searching changes nothing
        }, c, at);
        vfs::clear_faults();
        if (res.crashed) probe("crashed");
    }
    incarnation([&] {
        sim::Scope app(AR_A);
        docs::restart(*m);
        if (!keys->set) return;
        App a;
        try { a.open_client(); a.open_server(); }
        catch (std::exception& e) { Quiet q; if (!docs::io_faults()) fail("open-failed", "%s", e.what()); return; }
        for (int k = 0; k < nk; k++) search(a, k, 0, 1, false);
    });
}
Reg r({"C14", "diana", run, false, 3000, 40000,
       "one to three keywords, one to three incarnations of random single and bulk insertions, searches (all six entry points, 1 to 255 threads), deleting searches and keyword removals, one after the other and (insertions, searches) from up to three threads, reopening, process crashes at a random I/O event, failing writes, opens and fsyncs during insertions; every result is compared with the multiset of documents inserted and not deleted; non-trivial: a search with several results"});
} // namespace
