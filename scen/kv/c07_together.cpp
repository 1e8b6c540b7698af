// C07: several stores in one process do not disturb each other.
#include "sim.h"
#include <sse/schemes/utils/rocksdb_wrapper.hpp>

#include <array>
#include <map>
#include <memory>
#include <stdexcept>
#include <thread>

using namespace sim;
using namespace sse::sophos;

namespace {
struct Store { int size; std::map<int, int64_t> in; bool removed = false; };
std::vector<Store>* g_st;
struct Op { int st, kind, key; int64_t v; }; // 0 put, 1 get, 2 remove, 3 flush

struct Base
{
    virtual ~Base() {}
    virtual bool put(int k, int64_t v) = 0;
    virtual bool get(int k, int64_t& v) = 0;
    virtual bool remove(int k) = 0;
    virtual void flush() = 0;
};
template<size_t N> struct Impl : Base
{
    RockDBWrapper db;
    explicit Impl(const std::string& p) : db(p) {}
    static std::array<uint8_t, 16> key(int k) { std::array<uint8_t, 16> a; for (int i = 0; i < 16; i++) a[i] = (uint8_t)(k * 37 + i * (k + 3)); return a; }
    static std::array<uint8_t, N> val(int64_t v) { std::array<uint8_t, N> a; for (size_t i = 0; i < N; i++) a[i] = (uint8_t)((uint64_t)v >> (i % 2 * 8)); return a; }
    bool put(int k, int64_t v) override { return db.put(key(k), val(v)); }
    bool get(int k, int64_t& v) override
    {
        std::array<uint8_t, N> a;
        if (!db.get(key(k), a)) return false;
        Quiet q;
        v = a[0] | a[1] << 8;
        if (val(v) != a) fail("made-up-value", "a read returned a value never written");
        return true;
    }
    bool remove(int k) override { return db.remove(key(k)); }
    void flush() override { db.flush(); }
};
// Known: RocksDB's cuckoo tables keep the size of the filler of deleted entries
// in a static variable.
const char* known()
{
    int  first = 0;
    bool sizes = false;
    for (auto& s : *g_st) if (s.removed) { if (first && first != s.size) sizes = true; first = s.size; }
    return sizes ? "cuckoo-tombstone-size" : nullptr;
}
template<class... A> [[noreturn]] void report(const char* cls, const char* f, A... a)
{
    if (const char* k = known()) fail_known(k, cls, f, a...);
    fail(cls, f, a...);
}
const int SIZES[] = {8, 32, 49};

void run()
{
    draw_sched_cfg();
    g_st = make_shared_state<std::vector<Store>>();
    int n = 2 + (int)work(2), incs = 1 + (int)work(3), keys = 1 + (int)work(5);
    bool same = work(4); // mostly stores of one size
    {
        Scope s(AR_S);
        g_st->resize(n);
        int size = (int)work(3);
        for (auto& x : *g_st) x.size = SIZES[same ? size : work(3)];
    }
    int64_t next = 0;
    for (int i = 0; i < incs; i++) {
        std::vector<std::vector<Op>> plan(n);
        int nops = (int)work(25);
        for (int j = 0; j < nops; j++) {
            static const int K[] = {0, 0, 0, 1, 1, 2, 2, 3};
            Op o;
            o.st = (int)work(n); o.kind = K[work(8)]; o.key = (int)work(keys); o.v = ++next;
            plan[o.st].push_back(o);
        }
        bool threads = work(2);
        bool killed = work(3) == 0;
        incarnation([&] {
            sim::Scope app(AR_A);
            g_known_rocksdb = known;
            std::vector<std::unique_ptr<Base>> db(n);
            auto open = [&](int k) {
                std::string p = "/sim/store" + std::to_string(k);
                try {
                    switch ((*g_st)[k].size) {
                    case 8: db[k].reset(new Impl<8>(p)); break;
                    case 32: db[k].reset(new Impl<32>(p)); break;
                    case 49: db[k].reset(new Impl<49>(p)); break;
                    }
                } catch (std::exception& e) { Quiet q; report("open-failed", "the store with values of %d bytes could not be opened although nothing failed: %s", (*g_st)[k].size, e.what()); }
            };
            auto all = [&](int k) {
                for (int x = 0; x < keys; x++) {
                    int64_t v = -1;
                    bool r = db[k]->get(x, v);
                    Quiet q;
                    auto it = (*g_st)[k].in.find(x);
                    bool in = it != (*g_st)[k].in.end();
                    if (r != in || (r && v != it->second)) report("wrong-value", "store %d: key %d is %lld, expected %lld (-1: none)", k, x, r ? (long long)v : -1LL, in ? (long long)it->second : -1LL);
                    mix(v);
                }
            };
            for (int k = 0; k < n; k++) open(k);
            for (int k = 0; k < n; k++) all(k);
            auto exec = [&](const Op& o) {
                Store& st = (*g_st)[o.st];
                bool ok = true;
                { Quiet q; sim::trace("store %d: %s key %d %lld", o.st, o.kind == 0 ? "put" : o.kind == 1 ? "get" : o.kind == 2 ? "remove" : "flush", o.key, (long long)o.v); if (o.kind == 2) st.removed = true; }
                if (o.kind == 0) ok = db[o.st]->put(o.key, o.v);
                if (o.kind == 1) { int64_t v; db[o.st]->get(o.key, v); }
                if (o.kind == 2) ok = db[o.st]->remove(o.key);
                if (o.kind == 3) db[o.st]->flush();
                Quiet q; Scope s(AR_S);
                if (!ok) report("refused", "store %d: a write failed although nothing did", o.st);
                if (o.kind == 0) st.in[o.key] = o.v;
                if (o.kind == 2) st.in.erase(o.key);
                progress();
            };
            std::vector<std::thread> th;
            for (int k = 0; k < n; k++) {
                if (threads && k) th.emplace_back([&, k] { for (auto& o : plan[k]) exec(o); });
            }
            for (int k = 0; k < n; k++) if (!threads || !k) for (auto& o : plan[k]) exec(o);
            for (auto& t : th) t.join();
            for (int k = 0; k < n; k++) all(k);
            if (killed) crash_now(CRASH_PROCESS);
        }, killed ? CRASH_PROCESS : CRASH_NONE, 1ULL << 60);
        nontrivial();
    }
}
Reg r({"C07", "together", run, false, 1500, 30000,
       "two or three key-value stores (values of 8, 32 or 49 bytes) in one process, one to three incarnations of random put, get, remove and flush from one thread per store or one after the other, clean shutdown or kill; each store is compared with a map; non-trivial: all"});
} // namespace
