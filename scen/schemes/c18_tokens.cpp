// C18: update tokens of the forward-private schemes are never reused. Clients
// only: what matters is what they give out.
#include "docs.h"
#include <sse/schemes/diana/diana_client.hpp>
#include <sse/schemes/janus/janus_client.hpp>
#include <sse/schemes/sophos/sophos_client.hpp>

#include <sse/crypto/random.hpp>

#include <memory>
#include <thread>

using namespace sim;
using namespace sse;

static Decl d("C18", "SophosClient, DianaClient, JanusClient, RocksDBCounter, RocksDB",
              "crypto-tk: a stand-in of its interface (stubs/); file system, threads, clock, randomness: simulator");

namespace {
// A token as given out: when the request for it started (0: derived from a
// search) and by whom.
struct Issued { int k; uint64_t start; int inc; };
struct State
{
    uint64_t clock = 0;
    int inc = 0;
    std::vector<std::string> name;
    std::map<std::string, Issued> issued;
    std::map<std::string, uint64_t> derivable; // since when
    std::string sk;
    std::array<uint8_t, 32> a, b;
    bool keys = false;
    uint64_t derived_issued = 0;
};
State* m;

struct Sophos
{
    static const bool one_thread = false;
    std::unique_ptr<sophos::SophosClient> c;
    static void make_keys() { crypto::TdpInverse t; Quiet q; Scope s(AR_S); m->sk = t.private_key(); }
    void open()
    {
        c.reset();
        auto a = m->a, b = m->b;
        c.reset(new sophos::SophosClient("/sim/client", m->sk, crypto::Key<32>(a.data()), crypto::Key<32>(b.data())));
    }
    static std::string str(const sophos::update_token_type& t) { return std::string(t.begin(), t.end()); }
    std::string insert(const std::string& kw, uint64_t doc) { return str(c->insertion_request(kw, doc).token); }
    std::vector<std::string> bulk(const std::vector<std::pair<std::string, uint64_t>>& l)
    {
        std::vector<std::string> r;
        for (auto& p : l) r.push_back(insert(p.first, p.second));
        return r;
    }
    // everything the server can compute from a search request, and then some
    std::vector<std::string> search(const std::string& kw, uint32_t& count)
    {
        std::vector<std::string> r;
        sophos::SearchRequest q = c->search_request(kw);
        count = q.add_count;
        if (!q.add_count) return r;
        crypto::Tdp tdp(c->public_key());
        crypto::Prf<sophos::kUpdateTokenSize> prf{crypto::Key<32>(q.derivation_key.data())};
        auto st = q.token;
        for (uint32_t i = 0; i < q.add_count + 5; i++) {
            sophos::update_token_type t;
            std::array<uint8_t, sophos::kUpdateTokenSize> mask;
            sophos::gen_update_token_masks(prf, st.data(), t, mask);
            r.push_back(str(t));
            st = tdp.eval(st);
        }
        return r;
    }
};
struct Diana
{
    static const bool one_thread = false;
    std::unique_ptr<diana::DianaClient<uint64_t>> c;
    static void make_keys() {}
    void open()
    {
        c.reset();
        auto a = m->a, b = m->b;
        c.reset(new diana::DianaClient<uint64_t>("/sim/client", crypto::Key<32>(a.data()), crypto::Key<32>(b.data())));
    }
    static std::string str(const diana::update_token_type& t) { return std::string(t.begin(), t.end()); }
    std::string insert(const std::string& kw, uint64_t doc) { return str(c->insertion_request(kw, doc).token); }
    std::vector<std::string> bulk(const std::vector<std::pair<std::string, uint64_t>>& l)
    {
        std::vector<std::string> r;
        for (auto& q : c->bulk_insertion_request(std::list<std::pair<std::string, uint64_t>>(l.begin(), l.end()))) r.push_back(str(q.token));
        return r;
    }
    std::vector<std::string> search(const std::string& kw, uint32_t& count)
    {
        std::vector<std::string> r;
        diana::SearchRequest q = c->search_request(kw, work(2));
        count = q.add_count;
        if (!q.add_count) return r;
        for (uint64_t i = 0; i < q.add_count + 64; i++) {
            diana::search_token_key_type st;
            try { st = q.constrained_rcprf.eval(i); }
            catch (std::exception&) { break; }
            diana::update_token_type t;
            uint64_t mask;
            diana::gen_update_token_mask(st, t, mask);
            r.push_back(str(t));
        }
        return r;
    }
};

// Its searches forget the keyword's counters: the next insertions belong to
// another keyword, in effect. Used by one thread at a time, without failures.
struct Janus
{
    static const bool one_thread = true;
    std::unique_ptr<janus::JanusClient> c;
    static void make_keys() {}
    void open()
    {
        c.reset();
        auto a = m->a;
        c.reset(new janus::JanusClient("/sim/client_search", "/sim/client_add", "/sim/client_del", crypto::Key<32>(a.data())));
    }
    std::string insert(const std::string& kw, uint64_t doc) { return Diana::str(c->insertion_request(kw, doc).token); }
    // (removals)
    std::vector<std::string> bulk(const std::vector<std::pair<std::string, uint64_t>>& l)
    {
        std::vector<std::string> r;
        for (auto& p : l) r.push_back(Diana::str(c->removal_request(p.first, p.second).token));
        return r;
    }
    template<class Mask> static void derive(const diana::SearchRequest& q, std::vector<std::string>& r)
    {
        for (uint64_t i = 0; q.add_count && i < q.add_count + 64; i++) {
            diana::search_token_key_type st;
            try { st = q.constrained_rcprf.eval(i); }
            catch (std::exception&) { break; }
            diana::update_token_type t;
            Mask mask;
            diana::gen_update_token_mask(st, t, mask);
            r.push_back(Diana::str(t));
        }
    }
    std::vector<std::string> search(const std::string& kw, uint32_t& count)
    {
        std::vector<std::string> r;
        janus::SearchRequest q = c->search_request(kw);
        count = q.insertion_search_request.add_count + q.deletion_search_request.add_count;
        derive<crypto::punct::ciphertext_type>(q.insertion_search_request, r);
        derive<crypto::punct::key_share_type>(q.deletion_search_request, r);
        return r;
    }
};

void note(const std::string& t, int k, uint64_t start)
{
    auto it = m->issued.find(t);
    if (it != m->issued.end())
        fail("token-reused", "the update token of an insertion for keyword %d was given out before, for keyword %d%s", k, it->second.k, it->second.inc < m->inc ? " by an earlier process" : "");
    auto dt = m->derivable.find(t);
    if (dt != m->derivable.end() && dt->second < start)
        fail("token-predictable", "the update token of an insertion for keyword %d could be derived from a search made before", k);
    m->issued[t] = Issued{k, start, m->inc};
    mix_state(std::hash<std::string>()(t));
}
struct Op { int kind, k; uint64_t doc; std::vector<int> bulk; };

template<class C> void exec(C& c, const Op& o)
{
    uint64_t start;
    { Quiet q; start = ++m->clock; }
    try {
        if (o.kind == 0) {
            std::string t = c.insert(m->name[o.k], o.doc);
            Quiet q; Scope s(AR_S);
            sim::trace("insertion request, keyword %d", o.k);
            note(t, o.k, start);
        } else if (o.kind == 1) {
            std::vector<std::pair<std::string, uint64_t>> l;
            for (int k : o.bulk) l.push_back({m->name[k], o.doc});
            auto r = c.bulk(l);
            Quiet q; Scope s(AR_S);
            sim::trace("%zu insertion requests in bulk", r.size());
            for (size_t i = 0; i < r.size(); i++) note(r[i], o.bulk[i], start);
            probe("bulk");
        } else {
            uint32_t count;
            auto r = c.search(m->name[o.k], count);
            Quiet q; Scope s(AR_S);
            sim::trace("search request, keyword %d, %u entries, %zu tokens derived", o.k, count, r.size());
            uint64_t t = ++m->clock;
            for (auto& x : r) {
                m->derivable.insert({x, t}); // the earliest time stays
                if (m->issued.count(x)) m->derived_issued++;
            }
            probe("search");
        }
    } catch (std::exception& e) {
        Quiet q; Scope s(AR_S);
        sim::trace("failed: %s", e.what());
        if (!docs::io_faults()) fail("refused", "a request failed although nothing did: %s", e.what());
        probe("request_failed");
    }
    progress();
}

template<class C> void run()
{
    draw_sched_cfg();
    m = make_shared_state<State>();
    int nk = 1 + (int)work(4), incs = 1 + (int)work(4);
    {
        Scope s(AR_S);
        for (int k = 0; k < nk; k++) m->name.push_back(docs::keyword(k));
    }
    auto gen = [&] {
        Op o;
        o.kind = (int)work(6);
        o.kind = o.kind < 3 ? 0 : o.kind - 2; // 0, 0, 0, 1, 2, 3
        if (o.kind == 3) o.kind = 2;
        o.k = (int)work(nk);
        o.doc = work(4);
        if (o.kind == 1) { int n = work(5) ? (int)work(6) : (int)work(40); for (int i = 0; i < n; i++) o.bulk.push_back((int)work(nk)); }
        return o;
    };
    bool crash = work(3);
    for (int i = 0; i < incs; i++) {
        std::vector<std::vector<Op>> conc(C::one_thread ? 1 : 1 + work(4));
        std::vector<Op> seq, fin;
        int ns = (int)work(8), nc = (int)work(16), nf = (int)work(6);
        for (int j = 0; j < ns; j++) seq.push_back(gen());
        for (int j = 0; j < nc; j++) conc[work(conc.size())].push_back(gen());
        for (int j = 0; j < nf; j++) fin.push_back(gen());
        int when = (int)work(4); // I/O errors: 0 none, 1 in the sequential part, 2 in the concurrent one, 3 from the start
        bool reading = work(2);
        vfs::FaultCfg fc = docs::write_faults();
        if (reading) { vfs::FaultCfg r; uint32_t p = 100 << work(7); r.p[vfs::F_READ_EIO] = p; r.p[vfs::F_READ_SHORT] = p; r.p[vfs::F_OPEN] = p / 4; fc = r; }
        if (work(2) || C::one_thread) when = 0;
        bool reopen = work(2);
        Crash c = crash && work(3) ? CRASH_PROCESS : CRASH_NONE;
        uint64_t at = c ? 1 + draw(T_CRASH, 80) : 0;
        IncResult res = incarnation([&] {
            sim::Scope app(AR_A);
            { Quiet q; m->inc++; }
            if (!m->keys) {
                auto x = crypto::random_bytes<uint8_t, 32>(), y = crypto::random_bytes<uint8_t, 32>();
                C::make_keys();
                Quiet q; m->a = x; m->b = y; m->keys = true;
            }
            C app_;
            uint64_t f0 = docs::io_faults();
            auto open = [&] {
                for (int tries = 0; tries < 3; tries++) {
                    try { app_.open(); return true; }
                    catch (std::exception& e) {
                        Quiet q; Scope s(AR_S);
                        if (!docs::io_faults()) fail("open-failed", "%s", e.what());
                    }
                }
                return false;
            };
            if (when) g_stall_is_crash = true;
            if (when == 3) vfs::set_faults(fc);
            if (!open()) return;
            if (when == 1) vfs::set_faults(fc);
            for (auto& o : seq) exec(app_, o);
            if (when == 1) vfs::clear_faults();
            if (reopen && !open()) return;
            if (when == 2) vfs::set_faults(fc);
            std::vector<std::thread> th;
            for (size_t t = 1; t < conc.size(); t++) th.emplace_back([&, t] { for (auto& o : conc[t]) exec(app_, o); });
            for (auto& o : conc[0]) exec(app_, o);
            for (auto& t : th) t.join();
            vfs::clear_faults();
            if (docs::io_faults() > f0) { probe("io_fault"); if (!open()) return; }
            for (auto& o : fin) exec(app_, o);
        }, c, at);
        vfs::clear_faults();
        if (res.crashed) probe("crashed");
    }
    if (m->derived_issued && m->issued.size() > 1) nontrivial();
}
const char* RULE = "one to four keywords, one to four incarnations of insertion requests (single, in bulk) and search requests, one after the other and from up to four threads, reopening, process crashes at a random I/O event, failing reads, writes, opens and fsyncs of the counter storage; every update token ever given out is compared with all the others, and with all those the server can derive from the search requests made before; non-trivial: tokens given out were derived from a search";
Reg r1({"C18", "sophos", run<Sophos>, false, 2500, 60000, RULE});
Reg r2({"C18", "diana", run<Diana>, false, 2500, 60000, RULE});
Reg r3({"C18", "janus", run<Janus>, false, 1000, 20000,
        "as above with insertions, removals and searches of Janus, one at a time, without failures but with process crashes"});
} // namespace
