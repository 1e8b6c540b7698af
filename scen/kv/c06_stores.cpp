// C06: counters, C07: key-value and list stores. Both over the real RocksDB on
// the simulated file system.
#include "lin.h"
#include "sim.h"

#include <sse/schemes/utils/rocksdb_wrapper.hpp>

#include <array>
#include <memory>
#include <stdexcept>
#include <thread>

using namespace sim;
using namespace sse::sophos;

static const char* REAL = "RocksDBCounter, RockDBWrapper, RockDBListStore and the whole of RocksDB (shared library) with its background threads";
static const char* STUB = "file system and power loss, threads, mutexes, condition variables and clock: simulator";
static Decl d6("C06", REAL, STUB), d7("C07", REAL, STUB);

namespace {
struct Model
{
    std::vector<lin::Op> ops;      // since the last power loss
    std::vector<std::set<int64_t>> init;
    uint64_t clock = 0;
    uint64_t flushed = 0;          // everything that responded before is durable
    int      failures = 0;         // failed operations in this incarnation
    uint64_t faults_before = 0;
};
Model* m;
std::vector<std::string>* g_keys;

struct Cfg
{
    int store;      // 0 counter, 1 key-value (32-byte values), 2 key-value (8-byte values), 3 list of numbers, 4 list of strings
    int keys, threads;
    int nops;
    int crash;      // 0 none, 1 process, 2 power loss
    int fk;
    bool no_flush;
};

// -------------------------------------------------------------- the stores
std::array<uint8_t, 16> key16(int k)
{
    std::array<uint8_t, 16> a;
    const std::string& s = (*g_keys)[k];
    for (size_t i = 0; i < 16; i++) a[i] = i < s.size() ? s[i] : (uint8_t)(s.size() * 3 + i);
    a[15] = (uint8_t)k; // different
    return a;
}
struct CounterStore
{
    RocksDBCounter db;
    explicit CounterStore(const std::string& p) : db(p) {}
    bool get(int k, int64_t& v) { uint32_t x = 0xdeadbeef; bool r = db.get((*g_keys)[k], x); v = x; return r; }
    bool set(int k, int64_t v) { return db.set((*g_keys)[k], (uint32_t)v); }
    bool gai(int k, int64_t& v) { uint32_t x = 0xdeadbeef; bool r = db.get_and_increment((*g_keys)[k], x); v = x; return r; }
    bool inc(int k, int64_t def) { return def ? db.increment((*g_keys)[k], (uint32_t)def) : db.increment((*g_keys)[k]); }
    bool del(int k) { return db.remove_key((*g_keys)[k]); }
    void flush(bool b) { db.flush(b); }
};
template<class V> V make(int64_t id);
template<> uint64_t make<uint64_t>(int64_t id) { return (uint64_t)id * 0x100000001b3ULL; }
template<> std::array<uint8_t, 32> make<std::array<uint8_t, 32>>(int64_t id)
{
    std::array<uint8_t, 32> a;
    for (int i = 0; i < 32; i++) a[i] = (uint8_t)(id >> (8 * (i % 4))) ^ (uint8_t)(i * 7);
    return a;
}
template<class V> int64_t unmake(const V& v, int limit)
{
    for (int64_t i = 0; i <= limit; i++) if (make<V>(i) == v) return i;
    fail("made-up-value", "a read returned a value that was never written");
}
int g_ids;
template<class V> struct KvStore
{
    RockDBWrapper db;
    explicit KvStore(const std::string& p) : db(p) {}
    bool get(int k, int64_t& v)
    {
        V    x;
        bool r;
        memset(&x, 0xEE, sizeof x);
        auto a = key16(k);
        int  how;
        { Quiet q; how = (int)work(3); }
        if (how == 0) r = db.get(a, x);
        else if (how == 1) r = db.get(a.data(), (uint8_t)a.size(), x);
        else {
            std::string s = "junk";
            r = db.get(std::string(a.begin(), a.end()), s);
            if (r && s.size() != sizeof x) fail("made-up-value", "a read returned %zu bytes instead of %zu", s.size(), sizeof x);
            if (r) memcpy(&x, s.data(), sizeof x);
        }
        if (r) { Quiet q; v = unmake<V>(x, g_ids); }
        return r;
    }
    bool set(int k, int64_t v) { return db.put(key16(k), make<V>(v)); }
    bool gai(int, int64_t&) { return false; }
    bool inc(int, int64_t) { return false; }
    bool del(int k)
    {
        auto a = key16(k);
        bool how;
        { Quiet q; how = work(2); }
        return how ? db.remove(a) : db.remove(a.data(), (uint8_t)a.size());
    }
    void flush(bool b) { db.flush(b); }
};
struct NumSer
{
    std::string serialize(const uint64_t& x) { return std::string(reinterpret_cast<const char*>(&x), 8); }
    bool deserialize(std::string::iterator& b, const std::string::iterator& e, uint64_t& out)
    {
        if (e - b < 8) return false;
        std::copy(b, b + 8, reinterpret_cast<char*>(&out));
        b += 8;
        return true;
    }
};
struct StrSer
{
    std::string serialize(const std::string& x) { return std::string(1, (char)x.size()) + x; }
    bool deserialize(std::string::iterator& b, const std::string::iterator& e, std::string& out)
    {
        if (b == e) return false;
        size_t n = (uint8_t)*b;
        if ((size_t)(e - b) < n + 1) return false;
        out.assign(b + 1, b + 1 + n);
        b += n + 1;
        return true;
    }
};
void elt(int64_t id, int i, uint64_t& out) { out = (uint64_t)id << 20 | i * 3; }
void elt(int64_t id, int i, std::string& out) { out = std::string((size_t)(id * 5 + i * 11) % 40, (char)('a' + i % 26)) + std::to_string(id); }
template<class T> std::list<T> make_list(int64_t id)
{
    std::list<T> l;
    int n = id == 0 ? 0 : (int)(id * 7 % 9) + 1; // list 0 is empty
    for (int i = 0; i < n; i++) { T t; elt(id, i, t); l.push_back(t); }
    return l;
}
template<class T, class Ser> struct ListStore
{
    RockDBListStore<T, Ser> db;
    explicit ListStore(const std::string& p) : db(p) {}
    bool get(int k, int64_t& v)
    {
        auto a = key16(k);
        std::list<T> l;
        int how;
        { Quiet q; how = (int)work(3); if (work(2)) l = make_list<T>(3); } // what was in the list does not matter
        bool r = how == 0 ? db.get(a, l) : how == 1 ? db.get(a.data(), (uint8_t)a.size(), l) : db.get(std::string(a.begin(), a.end()), l);
        Quiet q;
        if (!r) return false;
        for (int64_t i = 0; i <= g_ids; i++) if (make_list<T>(i) == l) { v = i; return true; }
        fail("made-up-value", "a read returned a list of %zu elements that was never written", l.size());
    }
    bool set(int k, int64_t v) { std::list<T> l; { Quiet q; l = make_list<T>(v); } return db.put(key16(k), l); }
    bool gai(int, int64_t&) { return false; }
    bool inc(int, int64_t) { return false; }
    bool del(int) { return false; }
    void flush(bool b) { db.flush(b); }
};

// -------------------------------------------------------------- driving them
uint64_t io_faults() { return fault_count() - fault_count("process_crash") - fault_count("power_loss"); }
template<class S> void do_op(S& db, const lin::Op& plan, int th)
{
    lin::Op* o;
    size_t   ix;
    {
        Quiet q; Scope s(AR_S);
        ix = m->ops.size();
        m->ops.push_back(plan);
        o = &m->ops[ix];
        o->inv = ++m->clock; o->thread = th;
        mix(0x600 + plan.kind * 16 + plan.key);
        sim::trace("%s(key %d, %lld)", lin::name(plan.kind), plan.key, (long long)plan.arg);
    }
    int64_t v = 0;
    bool r = false;
    switch (plan.kind) {
    case lin::GET: r = db.get(plan.key, v); break;
    case lin::SET: r = db.set(plan.key, plan.arg); break;
    case lin::GAI: r = db.gai(plan.key, v); break;
    case lin::INC: r = db.inc(plan.key, plan.arg); break;
    case lin::DEL: r = db.del(plan.key); break;
    }
    Quiet q; Scope s(AR_S);
    o = &m->ops[ix]; // the vector may have moved
    o->resp = ++m->clock;
    o->res  = v;
    bool faulty = io_faults() > m->faults_before;
    sim::trace("%s(key %d, %lld) -> %s %lld", lin::name(plan.kind), plan.key, (long long)plan.arg, r ? "true" : "false", (long long)v);
    mix(r ? v : 0x66);
    if (plan.kind == lin::GET) {
        o->st = lin::OK;
        if (!r) {
            o->res = lin::ABSENT;
            if (fault_count("read_corrupt")) o->st = lin::DROPPED; // may be a failure
        }
    } else if (r) {
        o->st = lin::OK;
    } else {
        if (!faulty) fail("refused", "%s reported a failure although nothing failed", lin::name(plan.kind));
        o->st = lin::FAILED;
        o->resp = lin::NEVER;
        m->failures++;
        probe("op_failed");
    }
    progress();
}

void verify(const Cfg& c, const char* when)
{
    Quiet q; Scope s(AR_S);
    for (int k = 0; k < c.keys; k++) {
        if (lin::check(m->ops, k, m->init[k])) continue;
        std::string h;
        for (auto& o : m->ops)
            if (o.key == k && o.st != lin::DROPPED) {
                char b[160];
                snprintf(b, sizeof b, " %s%s%s%s", lin::name(o.kind), o.kind == lin::SET || o.kind == lin::INC ? ("(" + std::to_string(o.arg) + ")").c_str() : "",
                         o.st == lin::PENDING ? " unfinished" : o.st == lin::FAILED ? " failed" : "",
                         o.st == lin::OK && (o.kind == lin::GET || o.kind == lin::GAI) ? (o.res == lin::ABSENT ? std::string("=none") : "=" + std::to_string(o.res)).c_str() : "");
                h += b; h += ";";
            }
        std::string i;
        for (int64_t x : m->init[k]) i += " " + std::to_string(x);
        fail("not-a-map", "%s: no order of the operations on key %d explains their results (initially one of%s):%s", when, k, i.c_str(), h.c_str());
    }
}

template<class S> void body(const Cfg& c, const std::vector<std::vector<lin::Op>>& plan, const vfs::FaultCfg& fc, bool late_faults)
{
    m->failures = 0;
    m->faults_before = io_faults();
    if (!late_faults) vfs::set_faults(fc);
    std::unique_ptr<S> db;
    try { db.reset(new S("/sim/db")); }
    catch (std::exception& e) {
        vfs::clear_faults();
        if (!io_faults()) fail("open-failed", "the store could not be opened although nothing failed: %s", e.what());
        probe("open_failed");
        return;
    }
    if (late_faults) vfs::set_faults(fc);
    std::vector<std::thread> th;
    for (size_t t = 0; t < plan.size(); t++)
        th.emplace_back([&, t] {
            for (auto& o : plan[t]) {
                if (m->failures >= 3) break; // the application gives up and reopens
                if (o.kind == lin::GET && o.key < 0) { // flush
                    uint64_t at, f0;
                    { Quiet q; at = m->clock + 1; f0 = io_faults(); }
                    sim::trace("flush(%lld)", (long long)o.arg);
                    db->flush(o.arg);
                    Quiet q;
                    sim::trace("flushed");
                    probe("flush");
                    if (o.arg && io_faults() == m->faults_before && f0 == m->faults_before && at > m->flushed) m->flushed = at;
                } else {
                    do_op(*db, o, (int)t);
                }
            }
        });
    for (auto& t : th) t.join();
    vfs::clear_faults();
    // after an I/O error RocksDB may never finish closing
    if (io_faults() > m->faults_before) g_stall_is_crash = true;
    db.reset();
    g_stall_is_crash = false;
}
template<class S> void read_all(const Cfg& c)
{
    m->faults_before = io_faults();
    std::unique_ptr<S> db;
    try { db.reset(new S("/sim/db")); }
    catch (std::exception& e) {
        // after an I/O error in the past RocksDB may refuse the files for good
        if (!io_faults()) fail("open-failed", "the store could not be reopened: %s", e.what());
        probe("open_failed_for_good");
        return;
    }
    for (int k = 0; k < c.keys; k++) {
        int64_t v = 0;
        bool r = db->get(k, v);
        Quiet q; Scope s(AR_S);
        lin::Op o;
        o.key = k; o.kind = lin::GET; o.st = lin::OK; o.inv = ++m->clock; o.resp = ++m->clock; o.res = r ? v : lin::ABSENT;
        m->ops.push_back(o);
        sim::trace("finally, key %d: %s %lld", k, r ? "is" : "none", (long long)o.res);
        mix(o.res);
    }
}
#define BY_STORE(f, ...)                                                    \
    switch (c.store) {                                                      \
    case 0: f<CounterStore>(__VA_ARGS__); break;                            \
    case 1: f<KvStore<std::array<uint8_t, 32>>>(__VA_ARGS__); break;        \
    case 2: f<KvStore<uint64_t>>(__VA_ARGS__); break;                       \
    case 3: f<ListStore<uint64_t, NumSer>>(__VA_ARGS__); break;             \
    default: f<ListStore<std::string, StrSer>>(__VA_ARGS__); break;         \
    }

void run(const Cfg& c0)
{
    Cfg c = c0;
    draw_sched_cfg();
    c.keys = 1 + work(3);
    c.threads = work(2) ? 1 : 2 + work(2);
    c.nops = 2 + work(thorough() ? 24 : 14);
    m = make_shared_state<Model>();
    g_keys = make_shared_state<std::vector<std::string>>();
    {
        Scope s(AR_S);
        for (int k = 0; k < c.keys; k++) {
            m->init.push_back({lin::ABSENT});
            std::string key;
            int kind = (int)work(4);
            size_t len = kind == 0 ? 1 : kind == 1 ? 15 : kind == 2 ? 40 : 8;
            for (size_t i = 0; i < len; i++) key += (char)work(kind == 3 ? 256 : 2);
            key += (char)k; // different, sometimes one a prefix of the other
            if (kind == 0 && k == 0) key = "";
            g_keys->push_back(key);
        }
    }
    g_ids = 0;
    int incs = 1 + work(3);
    bool faulty = c.fk != 0;
    static const int KIND0[] = {lin::GAI, lin::GAI, lin::GAI, lin::GET, lin::INC, lin::SET, lin::DEL, lin::GET};
    static const int KIND1[] = {lin::SET, lin::SET, lin::SET, lin::GET, lin::GET, lin::DEL};
    static const int KIND3[] = {lin::SET, lin::SET, lin::GET};
    // the operations of every incarnation
    bool only_gai = c.store == 0 && work(3) == 0;
    std::vector<std::vector<std::vector<lin::Op>>> plans(incs);
    for (int i = 0; i < incs; i++) {
        plans[i].resize(c.threads);
        for (int j = 0; j < c.nops; j++) {
            lin::Op o;
            o.key = (int)work(c.keys);
            if (c.store == 0) o.kind = (lin::Kind)KIND0[work(8)];
            else if (c.store <= 2) o.kind = (lin::Kind)KIND1[work(6)];
            else o.kind = (lin::Kind)KIND3[work(3)];
            if (only_gai) o.kind = lin::GAI;
            if (o.kind == lin::SET) o.arg = c.store == 0 ? (int64_t)(work(4) * 1000) : c.store >= 3 && work(6) == 0 ? 0 : ++g_ids;
            if (o.kind == lin::INC) o.arg = work(2) ? 0 : 1 + work(500);
            int th = (int)work(c.threads);
            plans[i][th].push_back(o);
            if (work(5) == 0) {
                lin::Op f;
                f.key = -1; f.arg = work(4) != 0;
                plans[i][work(c.threads)].push_back(f);
            }
        }
    }
    for (int i = 0; i < incs; i++) {
        vfs::FaultCfg fc;
        // faults in some of the incarnations
        if (faulty && (i == incs - 1 || work(2))) {
            uint32_t p = 50 << work(6); // 0.5% to 16%
            if (c.fk == 1) fc.p[vfs::F_WRITE_EIO] = p;
            if (c.fk == 2) fc.p[vfs::F_WRITE_NOSPC] = p;
            if (c.fk == 3) { fc.p[vfs::F_WRITE_SHORT] = p * 3; fc.p[vfs::F_WRITE_EINTR] = p * 3; fc.p[vfs::F_READ_SHORT] = p; fc.p[vfs::F_READ_EINTR] = p; }
            if (c.fk == 4) { fc.p[vfs::F_OPEN] = p; fc.p[vfs::F_META] = p; }
            if (c.fk == 5) fc.p[vfs::F_FSYNC] = p * 4;
            if (c.fk == 6) { fc.p[vfs::F_CORRUPT] = 5000; fc.only_path = ".sst"; }
        }
        bool late = work(2) && c.fk != 6;
        int crash = c.crash && (i == incs - 1 || work(2)) ? c.crash : 0;
        uint64_t at = crash ? 1 + draw(T_CRASH, work(2) ? 60 : 400) : 0;
        IncResult r = incarnation([&] {
            sim::Scope app(AR_A);
            BY_STORE(body, c, plans[i], fc, late);
            if (crash == CRASH_POWER) crash_now(CRASH_POWER);
        }, (Crash)crash, at);
        vfs::clear_faults();
        // an unfinished operation belongs to the past now
        if (r.crashed && crash == CRASH_POWER) {
            Scope s(AR_S);
            verify(c, "before the power loss");
            for (int k = 0; k < c.keys; k++) {
                std::set<int64_t> left;
                lin::check(m->ops, k, m->init[k], m->flushed, &left);
                m->init[k] = left;
            }
            // what was flushed earlier stays flushed
            m->ops.clear();
            probe("power_loss");
        }
        if (r.crashed) probe("crashed");
    }
    incarnation([&] {
        sim::Scope app(AR_A);
        BY_STORE(read_all, c);
    });
    verify(c, "at the end");
    if (m->clock > 4) nontrivial();
}
void run_c06()
{
    Cfg c;
    c.store = 0;
    c.crash = (int)work(3);
    c.fk = work(2) ? 0 : (int)work(7);
    run(c);
}
void run_c07()
{
    Cfg c;
    c.store = 1 + (int)work(4);
    c.crash = (int)work(3);
    c.fk = work(2) ? 0 : (int)work(6); // (these stores read without verifying checksums, on purpose)
    run(c);
}
Reg r6({"C06", "counter", run_c06, false, 8000, 120000,
        "one to three counters (keys empty, binary, one a prefix of another), one to three threads, one to three incarnations of random get, set, get_and_increment, increment, remove and flush over the real RocksDB; process crash or power loss at a random I/O event; failing, short, interrupted writes, full disk, failing opens, renames and fsyncs, bit errors in what is read from table files; every history is checked for linearizability per key; non-trivial: at least two operations"});
Reg r7({"C07", "store", run_c07, false, 8000, 120000,
        "as C06 for the key-value store (8- and 32-byte values) and the list store (numbers, strings), with put, get, remove and flush; non-trivial: at least two operations"});
} // namespace
