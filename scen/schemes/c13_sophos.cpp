// C13: every Sophos search variant.
#include "docs.h"
#include <sse/schemes/sophos/sophos_client.hpp>
#include <sse/schemes/sophos/sophos_server.hpp>

#include <sse/crypto/random.hpp>

#include <memory>
#include <thread>

using namespace sim;
using namespace sse;
using namespace sse::sophos;

static Decl d("C13", "SophosClient, SophosServer, ThreadPool, RocksDBCounter, RockDBWrapper, RocksDB",
              "crypto-tk: a stand-in of its interface (stubs/); file system, threads, clock, randomness: simulator");

namespace {
docs::Model* m;
struct Keys { std::string sk, pk; std::array<uint8_t, 32> derivation, prg; };
Keys* keys;

struct App
{
    std::unique_ptr<SophosClient> client;
    std::unique_ptr<SophosServer> server;
    void open_client()
    {
        client.reset();
        auto a = keys->derivation, b = keys->prg;
        client.reset(new SophosClient("/sim/client", keys->sk, crypto::Key<32>(a.data()), crypto::Key<32>(b.data())));
    }
    void open_server()
    {
        server.reset();
        server.reset(new SophosServer("/sim/server", keys->pk));
    }
};
static const char* HOW[] = {"search", "search_callback", "search_parallel", "search_parallel_light", "search_parallel_callback", "search_parallel_light_callback"};

void insert(App& a, int k, uint64_t doc)
{
    size_t ix;
    { Quiet q; Scope s(AR_S); docs::Ins i; i.doc = doc; i.start = ++m->clock; i.inc = m->inc; ix = m->kw[k].size(); m->kw[k].push_back(i); sim::trace("insert(keyword %d, %llu)", k, (unsigned long long)doc); }
    bool done = true;
    try {
        UpdateRequest r = a.client->insertion_request(m->name[k], doc);
        a.server->insert(r);
    } catch (std::exception& e) {
        done = false;
        Quiet q; Scope s(AR_S);
        sim::trace("not inserted: %s", e.what());
        if (!docs::io_faults()) fail("refused", "an insertion failed although nothing did: %s", e.what());
    }
    Quiet q; Scope s(AR_S);
    if (!done) { m->kw[k][ix].failed = true; return; }
    m->kw[k][ix].end = ++m->clock;
    sim::trace("inserted(keyword %d, %llu)", k, (unsigned long long)doc);
    progress();
}
void search(App& a, int k, int how, int t1, int t2, int t3)
{
    uint64_t start;
    { Quiet q; start = ++m->clock; sim::trace("%s(keyword %d) with %d, %d, %d threads", HOW[how], k, t1, t2, t3); }
    std::multiset<uint64_t> res;
    std::string name = k < (int)m->name.size() ? m->name[k] : "never inserted";
    SearchRequest r = a.client->search_request(name);
    auto cb = [&](uint64_t x) { Quiet q; res.insert(x); };
    std::list<index_type> l;
    switch (how) {
    case 0: l = a.server->search(r); break;
    case 1: a.server->search_callback(r, cb); break;
    case 2: l = a.server->search_parallel(r, (uint8_t)t1); break;
    case 3: l = a.server->search_parallel_light(r, (uint8_t)t1); break;
    case 4: a.server->search_parallel_callback(r, cb, (uint8_t)t1, (uint8_t)t2, (uint8_t)t3); break;
    case 5: a.server->search_parallel_light_callback(r, cb, (uint8_t)t1); break;
    }
    Quiet q; Scope s(AR_S);
    for (uint64_t x : l) res.insert(x);
    sim::trace("%s(keyword %d) ->%s", HOW[how], k, docs::list(res).c_str());
    if (k < (int)m->name.size()) docs::check(*m, k, start, ++m->clock, res, HOW[how]);
    else if (!res.empty()) fail("extra-result", "%s of a keyword never inserted returns%s", HOW[how], docs::list(res).c_str());
    if (res.size() > 1) nontrivial();
    probe(HOW[how]);
    progress();
}
struct Op { int kind, k, how, t1, t2, t3; uint64_t doc; int more; };

void run()
{
    draw_sched_cfg();
    g_hw_concurrency = (unsigned)(1 + work(4));
    m = make_shared_state<docs::Model>();
    keys = make_shared_state<Keys>();
    int nk = 1 + (int)work(3), incs = 1 + (int)work(3);
    bool crash = work(2);
    bool many = work(8) == 0; // many threads
    bool huge = work(20) == 0; // over 255 documents for a keyword
    {
        Scope s(AR_S);
        m->kw.resize(nk);
        for (int k = 0; k < nk; k++) m->name.push_back(docs::keyword(k));
    }
    uint64_t next = work(2) ? 0 : ~0ULL - 40;
    auto threads = [&] { return !many ? 1 + (int)work(6) : work(30) ? 1 + (int)work(24) : 256 - 1 - (int)work(8); };
    auto gen = [&](bool search_only) {
        Op o;
        o.kind = search_only ? 1 : (int)work(3) ? 0 : 1;
        o.k = (int)work(o.kind == 1 && !work(8) ? nk + 1 : nk);
        o.how = (int)work(6);
        o.t1 = threads(); o.t2 = threads(); o.t3 = threads();
        o.doc = work(10) ? next++ : 7;
        o.more = 0;
        if (o.kind == 0 && huge) { huge = false; o.more = 250 + (int)work(30); o.doc = next; next += o.more; }
        return o;
    };
    for (int i = 0; i < incs; i++) {
        // sequential operations, concurrent ones, then a look at everything
        std::vector<std::vector<Op>> conc(1 + work(3));
        std::vector<Op> seq;
        int ns = (int)work(10), nc = (int)work(10);
        for (int j = 0; j < ns; j++) seq.push_back(gen(false));
        for (int j = 0; j < nc; j++) conc[work(conc.size())].push_back(gen(false));
        std::vector<Op> look;
        for (int k = 0; k < nk; k++) { Op o = gen(true); o.k = k; look.push_back(o); }
        bool faulty = work(5) == 0; // I/O errors during the first operations
        vfs::FaultCfg fc;
        if (faulty) { fc = docs::write_faults(); seq.clear(); for (int j = 0; j < 10; j++) seq.push_back(gen(false)); }
        int reopen = (int)work(4);
        Crash c = crash && work(2) ? CRASH_PROCESS : CRASH_NONE;
        uint64_t at = c ? 1 + draw(T_CRASH, 120) : 0;
        IncResult res = incarnation([&] {
            sim::Scope app(AR_A);
            docs::restart(*m);
            if (keys->sk.empty()) {
                crypto::TdpInverse tdp;
                auto x = crypto::random_bytes<uint8_t, 32>(), y = crypto::random_bytes<uint8_t, 32>();
                Quiet q; Scope s(AR_S);
                keys->sk = tdp.private_key(); keys->pk = tdp.public_key(); keys->derivation = x; keys->prg = y;
            }
            App a;
            uint64_t f0 = docs::io_faults();
            auto reopen_all = [&](int which) {
                try { if (which & 1) a.open_client(); if (which & 2) a.open_server(); return true; }
                catch (std::exception& e) { Quiet q; if (!docs::io_faults()) fail("open-failed", "%s", e.what()); return false; }
            };
            if (!reopen_all(3)) return;
            auto exec = [&](const Op& o) { if (o.kind == 0) for (int x = 0; x <= o.more; x++) insert(a, o.k, o.doc + x); else search(a, o.k, o.how, o.t1, o.t2, o.t3); };
            if (faulty) vfs::set_faults(fc);
            for (auto& o : seq) exec(o);
            vfs::clear_faults();
            if (docs::io_faults() > f0) { g_stall_is_crash = true; probe("io_fault"); }
            if (!reopen_all(docs::io_faults() > f0 ? 3 : reopen)) return;
            std::vector<std::thread> th;
            for (size_t t = 1; t < conc.size(); t++) th.emplace_back([&, t] { for (auto& o : conc[t]) exec(o); });
            for (auto& o : conc[0]) exec(o);
            for (auto& t : th) t.join();
            for (auto& o : look) exec(o);
            for (auto& o : look) { search(a, o.k, (o.how + 1) % 6, o.t1, o.t2, o.t3); } // searching changes nothing
        }, c, at);
        vfs::clear_faults();
        if (res.crashed) probe("crashed");
    }
    incarnation([&] {
        sim::Scope app(AR_A);
        docs::restart(*m);
        if (keys->sk.empty()) return;
        App a;
        try { a.open_client(); a.open_server(); }
        catch (std::exception& e) { Quiet q; if (!docs::io_faults()) fail("open-failed", "%s", e.what()); return; }
        for (int k = 0; k < nk; k++) search(a, k, 0, 1, 1, 1);
    });
}
Reg r({"C13", "sophos", run, false, 3000, 40000,
       "one to three keywords, one to three incarnations of random insertions and searches (all six entry points, 1 to 255 threads each), one after the other and from up to three threads, reopening, process crashes at a random I/O event, failing writes, opens and fsyncs during insertions; every result is compared with the multiset of documents inserted; non-trivial: a search with several results"});
} // namespace
