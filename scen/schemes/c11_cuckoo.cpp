// C11: cuckoo tables: Oceanus, and the generic table with other serialisers.
#include "aio_choice.h"
#include "docs.h"
#include <sse/schemes/oceanus/cuckoo.hpp>
#include <sse/schemes/oceanus/oceanus.hpp>

#include <memory>
#include <thread>

using namespace sim;
using namespace sse;
using namespace sse::oceanus;

static Decl d("C11", "CuckooBuilder, CuckooAllocator, CuckooHashTable, OceanusBuilder, Oceanus, awonvm_vector, AIO scheduler",
              "kernel AIO, file system, threads, clock: simulator; crypto-tk (PRF type of a header): stand-in of its interface (stubs/)");

namespace {
static const char* PATH = "/sim/table.bin";
typedef key_type Key;

struct Asked { int k; int calls = 0; int accepted = -1; };
struct Model
{
    std::vector<Key> keys;            // inserted, then not inserted ones
    std::map<Key, uint64_t> value;    // inserted before a successful commit
    std::vector<Asked> asked;
    bool committed = false, closed = false;
    bool tried = false; // an earlier attempt may have left its files
};
Model* m;

uint64_t read_faults() { return fault_count("read_") + fault_count("aio_") + fault_count("open") + fault_count("alloc"); }

// A small value type: one number in a page which is otherwise padding
struct OneSerializer
{
    static constexpr size_t serialization_length() { return 512 - kTableKeySize; }
    void serialize(const uint64_t& v, uint8_t* b) { memset(b, 0x5a, serialization_length()); memcpy(b + 7, &v, 8); }
    uint64_t deserialize(const uint8_t* b)
    {
        uint64_t v;
        memcpy(&v, b + 7, 8);
        for (size_t i = 0; i < serialization_length(); i++)
            if ((i < 7 || i >= 15) && b[i] != 0x5a) return ~0ULL;
        return v;
    }
};
template<size_t P> struct Oc
{
    typedef data_type<P> Value;
    typedef OceanusBuilder<P> Builder;
    typedef Oceanus<P> Table;
    static Builder* builder(size_t n, double eps, size_t depth) { return new Builder(PATH, n, eps, depth); }
    static Builder* moved(Builder* b) { return b; }
    static Value make(uint64_t t) { Value v; for (size_t i = 0; i < v.size(); i++) v[i] = t * 0x9E3779B97F4A7C15ULL + i; return v; }
    static bool same(const Value& v, uint64_t t) { return memcmp(&v, &static_cast<const Value&>(make(t)), sizeof v) == 0; }
    static void direct(Table&, bool) {}
};
struct One
{
    typedef uint64_t Value;
    typedef CuckooBuilder<512, Key, uint64_t, OceanusKeySerializer, OneSerializer, OceanusCuckooHasher> Builder;
    typedef CuckooHashTable<512, Key, uint64_t, OceanusKeySerializer, OneSerializer, OceanusCuckooHasher> Table;
    static Builder* builder(size_t n, double eps, size_t depth)
    {
        CuckooBuilderParam p;
        p.value_file_path = "/sim/values.tmp";
        p.cuckoo_table_path = PATH;
        p.max_n_elements = n;
        p.epsilon = eps;
        p.max_search_depth = depth;
        return new Builder(p);
    }
    static Builder* moved(Builder* b) { Builder* n = new Builder(std::move(*b)); delete b; return n; }
    static Value make(uint64_t t) { return t * 0x9E3779B97F4A7C15ULL; }
    static bool same(const Value& v, uint64_t t) { return v == make(t); }
    static void direct(Table& t, bool d) { t.use_direct_IO(d); }
};

struct Plan { int n, hot; double eps; size_t depth, room; bool faulty, dtor, move, ones, near, late; vfs::FaultCfg fc; };
// Whether every element has a cell of its own: among the cells which a group
// of elements can share, there are no more elements than cells, and the
// eviction walk, which passes at most a few times by each of them, is not cut.
bool has_room(const std::vector<Key>& keys, size_t n, size_t size, size_t depth)
{
    if (!size || depth < 6 * n + 6) return false;
    std::vector<size_t> up(2 * size), cells(2 * size, 1), elements(2 * size, 0);
    for (size_t i = 0; i < up.size(); i++) up[i] = i;
    auto top = [&](size_t i) { while (up[i] != i) i = up[i]; return i; };
    for (size_t i = 0; i < n; i++) {
        CuckooKey k = OceanusCuckooHasher()(keys[i]);
        size_t a = top(k.h[0] % size), b = top(size + k.h[1] % size);
        if (a != b) { up[b] = a; cells[a] += cells[b]; elements[a] += elements[b]; }
        if (++elements[a] > cells[a]) return false;
    }
    return true;
}
template<class T> void build(const Plan& p)
{
    size_t size = std::max<size_t>(1, details::cuckoo_table_size(p.room, p.eps));
    {
        Quiet q; Scope s(AR_S);
        m->keys = {};
        m->value = {};
        for (int i = 0; i < p.n + 5; i++) {
            uint64_t hot = p.hot ? std::min<uint64_t>(size, p.hot) : size;
            uint64_t h[2] = {work(hot) + size * (i + 1), work(hot) + size * work(3)};
            Key k;
            memcpy(k.data(), h, 16);
            if (p.near && i && work(3)) { // the same slots as another key, and few bytes apart from it
                memcpy(h, m->keys[work(i)].data(), 16);
                int bits = 64 - __builtin_clzll(size);
                h[work(2)] += (uint64_t)size << work(65 - bits);
                Key c;
                memcpy(c.data(), h, 16);
                if (std::find(m->keys.begin(), m->keys.end(), c) == m->keys.end()) k = c;
            }
            // keys made of one byte, which may be that of the empty cells
            if (p.ones && i == p.n) k.fill(work(3) == 0 ? (uint8_t)work(256) : work(2) ? 0xFF : 0);
            if (p.ones && i == 0) k.fill(work(3) == 0 ? (uint8_t)work(256) : work(2) ? 0xFF : 0);
            if (i && std::find(m->keys.begin(), m->keys.end(), k) != m->keys.end()) { h[0] = h[1] = size * (i + 100); memcpy(k.data(), h, 16); }
            m->keys.push_back(k);
        }
    }
    uint64_t f0 = docs::io_faults();
    vfs::set_faults(p.fc);
    bool threw = false;
    try {
        std::unique_ptr<typename T::Builder> b(T::builder(p.room, p.eps, p.depth));
        for (int i = 0; i < p.n; i++) {
            if (p.move && i == p.n / 2) b.reset(T::moved(b.release()));
            b->insert(m->keys[i], T::make(i + 1));
            Quiet q; Scope s(AR_S);
            m->value[m->keys[i]] = i + 1;
        }
        if (!p.dtor) {
            b->commit();
            { Quiet q; sim::trace("committed"); m->committed = true; }
            if (p.late) {
                bool taken = false;
                try { b->insert(m->keys[p.n], T::make(77)); taken = true; } catch (std::exception&) {}
                if (taken) fail("late-insert", "a pair was accepted by a table which is committed already");
                try { b->commit(); } catch (std::exception&) {}
                probe("late_insert");
            }
        }
    } catch (std::exception& e) {
        Quiet q;
        sim::trace("build: %s", e.what());
        threw = true;
    }
    vfs::clear_faults();
    bool io = docs::io_faults() > f0;
    if (threw) probe(io ? "build_io_error" : "did_not_fit");
    Quiet q;
    if (threw && !io && !m->tried && has_room(m->keys, p.n, details::cuckoo_table_size(p.room, p.eps), p.depth)) fail("build-refused", "%d pairs for which there is room were refused although nothing failed", p.n);
    m->tried = true;
}
// There is a table: another one does not take its place.
template<class T> void refused_build(int n)
{
    bool done = false;
    try {
        std::unique_ptr<typename T::Builder> b(T::builder(n, 0.2, 200));
        for (int i = 0; i < n && i < (int)m->keys.size(); i += 2) b->insert(m->keys[i], T::make(1000 + i));
        b->commit();
        done = true;
    } catch (std::exception& e) { Quiet q; sim::trace("build: %s", e.what()); }
    if (done) fail("overwritten", "a table was built where there is one already");
    probe("build_refused");
}
// No table was committed: none can be opened.
template<class T> void refused_open()
{
    bool done = false;
    try { typename T::Table t(PATH); done = true; }
    catch (std::exception& e) { Quiet q; sim::trace("open: %s", e.what()); }
    if (done) fail("opened", "a table which was never committed could be opened");
    probe("open_refused");
}
void on_value(size_t a, bool some, bool right)
{
    Quiet q; Scope s(AR_S);
    Asked& r = m->asked[a];
    sim::trace("key %d: %s", r.k, some ? "a value" : "absent");
    if (++r.calls > 1) fail("answered-twice", "the asynchronous lookup of key %d was answered twice", r.k);
    if (m->closed) fail("late-answer", "the asynchronous lookup of key %d was answered after the table was closed", r.k);
    bool there = m->value.count(m->keys[r.k]);
    bool ones = m->keys[r.k][0] == 0xFF && !there;
    if (some && !there) {
        if (ones) fail("phantom", "a value is returned for the key made of 0xFF bytes, which was not inserted");
        fail("phantom", "an asynchronous lookup returned a value for key %d, which was not inserted", r.k);
    }
    if (some && !right) fail("wrong-value", "an asynchronous lookup returned another value than the one inserted for key %d", r.k);
    if (!some && there && !read_faults()) fail("lost-pair", "an asynchronous lookup did not find key %d", r.k);
    if (there) nontrivial();
    mix(some);
    progress();
}
struct Op { int kind, k; };
struct Look { std::vector<std::vector<Op>> plan; bool direct, wait; vfs::FaultCfg fc; aio::Cfg ac; uint32_t pmem; };

template<class T> void lookup(const Look& p)
{
    std::unique_ptr<typename T::Table> t;
    try { t.reset(new typename T::Table(PATH)); }
    catch (std::exception& e) { fail("open-failed", "a committed table could not be opened: %s", e.what()); }
    if (p.direct) T::direct(*t, true);
    vfs::set_faults(p.fc);
    aio::cfg = p.ac;
    g_alloc_fail_p = p.pmem;
    std::atomic<int> pending{0};
    auto body = [&](size_t n) {
        for (auto& o : p.plan[n]) {
            const Key& key = m->keys[o.k];
            bool there = m->value.count(key);
            size_t a = 0;
            if (o.kind) { Quiet q; Scope s(AR_S); a = m->asked.size(); m->asked.push_back(Asked()); m->asked[a].k = o.k; sim::trace("asynchronous lookup of key %d", o.k); }
            try {
                if (!o.kind) {
                    typename T::Value v = t->get(key);
                    Quiet q;
                    if (!there && key[0] == 0xFF) fail("phantom", "a value is returned for the key made of 0xFF bytes, which was not inserted");
                    if (!there) fail("phantom", "a lookup returned a value for key %d, which was not inserted", o.k);
                    if (!T::same(v, m->value[key])) fail("wrong-value", "a lookup returned another value than the one inserted for key %d", o.k);
                    nontrivial();
                    progress();
                } else {
                    pending++;
                    t->async_get(key, [a, &pending](std::experimental::optional<typename T::Value> v) {
                        bool right = false;
                        if (v) { Quiet q; auto it = m->value.find(m->keys[m->asked[a].k]); right = it != m->value.end() && T::same(*v, it->second); }
                        on_value(a, (bool)v, right);
                        pending--;
                    });
                    Quiet q;
                    m->asked[a].accepted = 1;
                }
            } catch (std::out_of_range& e) {
                Quiet q;
                sim::trace("key %d: %s", o.k, e.what());
                if (o.kind) fail("refused", "the asynchronous lookup of key %d failed: %s", o.k, e.what());
                if (there) fail("lost-pair", "a lookup reported that key %d is absent", o.k);
                probe("absent");
                progress();
            } catch (std::exception& e) {
                Quiet q;
                sim::trace("key %d: %s", o.k, e.what());
                if (!read_faults()) fail("refused", "a lookup of key %d failed although nothing did: %s", o.k, e.what());
                probe("lookup_threw");
                if (o.kind) { m->asked[a].accepted = 0; pending--; }
            }
        }
    };
    std::vector<std::thread> th;
    for (size_t n = 1; n < p.plan.size(); n++) th.emplace_back(body, n);
    body(0);
    for (auto& x : th) x.join();
    g_alloc_fail_p = 0;
    if (p.wait && !read_faults())
        while (pending) std::this_thread::yield();
    t.reset();
    m->closed = true;
    vfs::clear_faults();
    for (auto& a : m->asked) {
        if (a.accepted == 0 && a.calls) fail("refused-answered", "the asynchronous lookup of key %d was answered and refused with an exception", a.k);
        if (a.accepted == 1 && !a.calls) fail("lost-answer", "the asynchronous lookup of key %d was never answered", a.k);
    }
    if (!m->asked.empty()) probe("async");
    if (vfs::open_fds()) fail("fd-leak", "%d descriptors still open", vfs::open_fds());
}
#define BY_TYPE(f, ...) (type == 0 ? f<Oc<4096>>(__VA_ARGS__) : type == 1 ? f<Oc<512>>(__VA_ARGS__) : f<One>(__VA_ARGS__))
void run()
{
    draw_sched_cfg();
    m = make_shared_state<Model>();
    g_thread_pool_aio = work(4) == 1;
    int type = (int)work(4);
    if (type == 3) type = 0;
    bool async_ok = type == 0 || g_thread_pool_aio;
    Plan p;
    p.n = 1 + (int)work(24);
    p.room = work(4) ? p.n : work(2) ? 2 * p.n : p.n * 2 / 3;
    p.hot = (int)work(3) ? 0 : 1 + (int)work(4);
    p.eps = 0.1 * work(6);
    p.depth = work(3) ? 200 : 1 + work(20);
    p.faulty = work(6) == 0;
    if (p.faulty) p.fc = docs::write_faults();
    p.dtor = work(4) == 0;
    p.move = work(4) == 0;
    p.ones = work(10) == 0;
    p.near = work(3) == 0;
    p.late = work(4) == 0;
    Crash crash = CRASH_NONE;
    if (work(5) == 0) crash = work(2) ? CRASH_PROCESS : CRASH_POWER;
    uint64_t at = crash ? 1 + draw(T_CRASH, 6 * p.n + 20) : 0;
    Look l;
    l.plan.resize(1 + work(3));
    int nops = 1 + (int)work(thorough() ? 40 : 20);
    for (int i = 0; i < nops; i++) { Op o; o.kind = async_ok && work(2); o.k = (int)work(p.n + 5); l.plan[work(l.plan.size())].push_back(o); }
    for (int k = 0; k < p.n; k++) { Op o; o.kind = async_ok && work(2); o.k = k; l.plan[0].push_back(o); } // everything
    if (p.ones) { Op o; o.kind = async_ok && work(2); o.k = p.n; l.plan[0].push_back(o); }
    l.direct = work(2);
    l.wait = work(2);
    l.pmem = 0;
    l.ac.depth_cap = work(2) ? 0 : 1 + work(6);
    switch (work(8)) {
    case 0: l.ac.p_eio = l.ac.p_short = 1500; l.fc.p[vfs::F_READ_EIO] = l.fc.p[vfs::F_READ_SHORT] = 1000; break;
    case 1: l.ac.p_submit_fail = 2000; break;
    case 2: l.pmem = 1500; break;
    case 3: l.ac.p_partial = 3000; l.ac.p_eintr = 2000; break;
    case 4: l.fc.p[vfs::F_OPEN] = 3000; l.ac.p_setup_fail = 2000; break;
    }
    IncResult res = incarnation([&] { sim::Scope app(AR_A); BY_TYPE(build, p); }, crash, at);
    m->tried = true;
    vfs::clear_faults();
    aio::cfg = aio::Cfg();
    if (res.crashed) probe("crashed_while_building");
    // Whether the commit failed, was left to the destructor, which cannot say,
    // or was interrupted: a table which looks committed has to be complete.
    std::string f;
    bool looks = vfs::read_file(PATH, f) && !f.empty();
    if (m->committed && !looks) fail("lost-table", "the table is not there after a successful commit");
    if (!m->committed) probe(looks ? "complete_without_commit" : "no_table");
    if (!looks && work(2)) { incarnation([&] { sim::Scope app(AR_A); BY_TYPE(refused_open); }); return; }
    if (!looks) {
        // whoever runs the builder tries again
        Plan p2 = p;
        p2.fc = vfs::FaultCfg();
        incarnation([&] { sim::Scope app(AR_A); BY_TYPE(build, p2); });
        probe("built_again");
        looks = vfs::read_file(PATH, f) && !f.empty();
        if (m->committed && !looks) fail("lost-table", "the table is not there after a successful commit");
        if (!looks) return;
    } else if (work(8) == 0) {
        int n = 1 + (int)work(20);
        incarnation([&] { sim::Scope app(AR_A); BY_TYPE(refused_build, n); });
    }
    incarnation([&] { sim::Scope app(AR_A); BY_TYPE(lookup, l); });
}
Reg r({"C11", "cuckoo", run, false, 30000, 400000,
       "up to twenty-four pairs in a table too small, just right or too large, keys crowded on few slots or not, or few bits apart, short eviction walks, a builder moved or left to its destructor, failing writes, a crash of the process or of the machine; if there is a table then, up to three threads look up each key and unknown ones, synchronously and not, in another process, and close it with lookups under way; failing and short reads, refused submissions, failing allocations; non-trivial: a pair was looked up"});
} // namespace
