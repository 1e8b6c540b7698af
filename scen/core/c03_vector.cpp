// C03, C04, C05: append-only write-once persistent vectors.
#include "sim.h"
#include <sse/schemes/abstractio/awonvm_vector.hpp>

#include <memory>
#include <thread>

#include <fcntl.h>
#include <unistd.h>

using namespace sim;
using sse::abstractio::Scheduler;
using sse::abstractio::awonvm_vector;

static const char* REAL = "awonvm_vector, both schedulers, ThreadPool, file helpers, logger (spdlog)";
static const char* STUB = "kernel AIO, files, power-loss durability, threads, clock: simulator";
static Decl d3("C03", REAL, STUB), d4("C04", REAL, STUB), d5("C05", REAL, STUB);

namespace {
static const char* PATH = "/sim/vec.bin";

template<size_t N> struct Elt { unsigned char b[N]; };
typedef Elt<4096> Big;
typedef Elt<8192> Two; // of two pages
typedef Elt<512>  Mid;
struct Small { unsigned char b[24]; uint64_t x; };

struct Entry { uint64_t tag; bool async_, ok; };
struct Model
{
    std::map<size_t, Entry> at;   // index returned -> what
    size_t appended = 0;          // successful appends
    size_t failed = 0;            // appends which threw
    bool   committed = false;     // commit returned and said so
    bool   commit_called = false, said_uncommitted = false;
    int    fired_before_commit = 0;
    bool   sync_fails = false;
    // reads
    struct Rd { size_t index; int calls = 0; int accepted = -1; bool null = false; bool faulty = false; };
    std::vector<Rd> rd;
    bool   gone = false;
    uint64_t nulls = 0;           // reads which delivered nothing
};
Model* m;

template<class T> void fill(T& t, uint64_t tag)
{
    unsigned char* p = reinterpret_cast<unsigned char*>(&t);
    for (size_t i = 0; i < sizeof(T); i++) p[i] = (unsigned char)((tag * 0x9E3779B97F4A7C15ULL >> ((i % 8) * 8)) + i * 5);
}
template<class T> bool same(const T& t, uint64_t tag)
{
    const unsigned char* p = reinterpret_cast<const unsigned char*>(&t);
    for (size_t i = 0; i < sizeof(T); i++) if (p[i] != (unsigned char)((tag * 0x9E3779B97F4A7C15ULL >> ((i % 8) * 8)) + i * 5)) return false;
    return true;
}

struct Cfg
{
    int      type;     // 0 Big, 1 Mid, 2 Small, 3 Two
    int      sched;    // 0 none, 1 kernel, 2 thread pool
    bool     direct;
    unsigned depth;
    int      threads, per;
    int      mode;     // 0 sync 1 async 2 mixed
    size_t   reserve;
    int      ending;   // 0 explicit commit, 1 destructor, 2 move then commit, 3 move then destructor
    bool     prog_direct_toggle, mid_toggle;
    int      again;    // reserve once more after the appends; -1 not
    bool     again_append;
};

Cfg draw_cfg()
{
    Cfg c;
    c.type  = (int)work(3);
    if (c.type == 0 && work(4) == 0) c.type = 3;
    c.sched = (int)work(4);
    if (c.sched == 3) c.sched = 1;
    if (c.type == 2 && c.sched == 1) c.sched = 2;
    c.direct = c.type != 2 && work(2);
    c.depth  = work(2) ? 1 + work(4) : 128;
    c.threads = 1 + work(3);
    c.per     = 1 + work(thorough() ? 12 : 6);
    c.mode    = c.sched == 0 ? 0 : (int)work(3);
    c.reserve = work(3) ? 0 : work(2 * c.threads * c.per + 2);
    c.ending  = (int)work(4);
    c.prog_direct_toggle = c.type != 2 && work(6) == 0;
    c.mid_toggle = c.type != 2 && work(8) == 0;
    c.again = work(4) ? -1 : (int)work(2 * c.threads * c.per + 2);
    c.again_append = work(2);
    return c;
}
Scheduler* mk(const Cfg& c)
{
    if (c.sched == 0) return nullptr;
    if (c.sched == 1) return sse::abstractio::make_linux_aio_scheduler(c.type == 1 ? 512 : 4096, c.depth);
    return sse::abstractio::make_thread_pool_aio_scheduler();
}
template<class T, size_t A> std::unique_ptr<awonvm_vector<T, A>> open_vec(const Cfg& c)
{
    return std::unique_ptr<awonvm_vector<T, A>>(new awonvm_vector<T, A>(PATH, std::unique_ptr<Scheduler>(mk(c)), c.direct));
}

// appends from several threads; failures allowed if `faulty`
template<class T, size_t A> void append_all(awonvm_vector<T, A>& v, const Cfg& c, bool faulty)
{
    std::vector<std::thread> th;
    for (int t = 0; t < c.threads; t++)
        th.emplace_back([&, t] {
            for (int i = 0; i < c.per; i++) {
                uint64_t tag = 1 + t * 1000 + i;
                bool     as  = c.mode == 1 || (c.mode == 2 && work(2));
                alignas(A) T x;
                { Quiet q; fill(x, tag); }
                if (!faulty && sizeof(T) > A / 2 && work(8) == 0) {
                    // an element which is badly aligned for direct access is refused, or not: no hole is left
                    static thread_local unsigned char room[sizeof(T) + A + 8];
                    unsigned char* at = room + (A - reinterpret_cast<uintptr_t>(room) % A) % A + 8;
                    { Quiet q; memcpy(at, &x, sizeof x); }
                    try {
                        size_t pos = v.push_back(*reinterpret_cast<T*>(at));
                        Quiet q; Scope s(AR_S);
                        if (m->at.count(pos)) fail("duplicate-index", "two appends returned index %zu", pos);
                        m->at[pos] = Entry{tag, as, true};
                        m->appended++;
                    } catch (std::exception&) { probe("misaligned_refused"); }
                }
                try {
                    size_t pos = as ? v.async_push_back(x) : v.push_back(x);
                    Quiet  q;
                    Scope  s(AR_S);
                    mix(pos);
                    if (m->at.count(pos)) fail("duplicate-index", "two appends returned index %zu", pos);
                    m->at[pos] = Entry{tag, as, true};
                    m->appended++;
                } catch (std::exception& e) {
                    Quiet q;
                    m->failed++;
                    probe("append_threw");
                    if (!faulty) fail("append-failed", "an append failed without any fault: %s", e.what());
                }
                std::memset((void*)&x, 0xEE, sizeof(x)); // the caller's copy is his own
            }
        });
    for (auto& t : th) t.join();
}

template<class T, size_t A> void check_all(awonvm_vector<T, A>& v, const char* when)
{
    if (!v.is_committed()) fail("not-committed", "%s: the vector does not say it is committed", when);
    if (v.size() != m->appended) fail("wrong-size", "%s: size is %zu after %zu appends", when, v.size(), m->appended);
    for (auto& e : m->at) {
        if (e.first >= m->appended) fail("wrong-index", "%s: an append returned index %zu of %zu", when, e.first, m->appended);
        T x;
        try { x = v.get(e.first); }
        catch (std::exception& ex) { fail("lost-element", "%s: get(%zu) of %zu: %s", when, e.first, m->appended, ex.what()); }
        if (!same(x, e.second.tag)) fail("wrong-element", "%s: element %zu is not the one appended there", when, e.first);
    }
    try {
        v.get(m->appended);
        fail("out-of-bounds", "%s: get(size) did not fail", when);
    } catch (std::exception&) {}
}
template<class T, size_t A> void check_write_once(awonvm_vector<T, A>& v, const Cfg& c)
{
    alignas(A) T x;
    fill(x, 0xBAD);
    for (int k = 0; k < 2; k++) {
        if (k && c.sched == 0) continue;
        try {
            if (k) v.async_push_back(x); else v.push_back(x);
            fail("append-after-commit", "%s accepted by a committed vector", k ? "async_push_back" : "push_back");
        } catch (std::exception&) {}
    }
    v.reserve(m->appended + 5);
    v.commit();
}

template<class T, size_t A> void c03_body(const Cfg& c)
{
    int fd0 = vfs::open_fds();
    {
        auto v = open_vec<T, A>(c);
        if (v->is_committed()) fail("committed-early", "a new vector says it is committed");
        if (c.reserve) v->reserve(c.reserve);
        if (c.prog_direct_toggle) v->set_use_direct_access(!c.direct);
        append_all(*v, c, false);
        if (c.again >= 0) { // smaller, equal or larger than what is there
            v->reserve((size_t)c.again);
            if (v->size() != m->appended) fail("wrong-size", "reserve(%d) after %zu appends: size is %zu", c.again, m->appended, v->size());
            if (c.again_append) append_all(*v, c, false);
        }
        if (c.mid_toggle) {
            v->set_use_direct_access(c.prog_direct_toggle ? c.direct : !c.direct);
            append_all(*v, c, false);
        }
        if (v->is_committed()) fail("committed-early", "the vector says it is committed before commit()");
        if (v->size() != m->appended) fail("wrong-size", "size is %zu after %zu appends", v->size(), m->appended);
        std::unique_ptr<awonvm_vector<T, A>> w;
        if (c.ending >= 2) {
            w.reset(new awonvm_vector<T, A>(std::move(*v)));
            if (work(2)) v.reset();
        } else
            w = std::move(v);
        if (c.ending % 2 == 0) {
            w->commit();
            check_all(*w, "after commit");
            check_write_once(*w, c);
            check_all(*w, "after refused appends");
            if (work(3) == 0) {
                std::unique_ptr<awonvm_vector<T, A>> z(new awonvm_vector<T, A>(std::move(*w)));
                w.reset();
                check_all(*z, "after a move");
                check_write_once(*z, c);
            }
        }
    }
    m->committed = true;
}
template<class T, size_t A> void c03_again(const Cfg& c)
{
    Cfg c2 = c;
    c2.direct = c.type != 2 && work(2);
    for (int k = 0; k < 2; k++) {
        auto v = open_vec<T, A>(c2);
        check_all(*v, "after reopening");
        check_write_once(*v, c2);
        check_all(*v, "after reopening and refused appends");
        if (c2.prog_direct_toggle) { v->set_use_direct_access(!c2.direct); check_all(*v, "after switching direct access"); }
    }
}
#define BY_TYPE(c, F, ...)                                     \
    do {                                                       \
        if ((c).type == 0) F<Big, 4096>(__VA_ARGS__);          \
        else if ((c).type == 1) F<Mid, 512>(__VA_ARGS__);      \
        else if ((c).type == 3) F<Two, 4096>(__VA_ARGS__);     \
        else F<Small, alignof(Small)>(__VA_ARGS__);            \
    } while (0)

void common()
{
    m = make_shared_state<Model>();
    aio::cfg = aio::Cfg();
    aio::cfg.reorder = work(5) != 0;
    if (work(3) == 0) aio::cfg.p_partial = 3000;
    if (work(3) == 0) aio::cfg.p_eintr = 1000;
}

void run_c03()
{
    draw_sched_cfg();
    Cfg c = draw_cfg();
    common();
    bool second = work(2);
    incarnation([&] {
        sim::Scope app(AR_A);
        BY_TYPE(c, c03_body, c);
        if (!second) BY_TYPE(c, c03_again, c);
        if (vfs::open_fds()) fail("fd-leak", "%d descriptors of the vector are still open", vfs::open_fds());
        if (probe_count("close_std_fd")) fail("foreign-close", "the vector closed the standard input or output");
    });
    if (second) incarnation([&] { sim::Scope app(AR_A); BY_TYPE(c, c03_again, c); });
    if (m->appended > 1) nontrivial();
}
Reg r3({"C03", "vector", run_c03, false, 30000, 360000,
        "random element type, scheduler, queue depth, appending threads, synchronous/asynchronous mix, reserve, move, commit or destruction, reopening in the same or another process; non-trivial: at least two appends"});

// ------------------------------------------------------------------- C04
template<class T, size_t A> void c04_build(int n)
{
    if (n > 100) {
        std::string d(n * sizeof(T), 0);
        for (int i = 0; i < n; i++) { T x; fill(x, 100 + i); memcpy(&d[i * sizeof(T)], &x, sizeof x); }
        vfs::write_file(PATH, d);
        probe("many_elements");
        return;
    }
    awonvm_vector<T, A> v(PATH, std::unique_ptr<Scheduler>(), false);
    for (int i = 0; i < n; i++) {
        alignas(A) T x;
        fill(x, 100 + i);
        v.push_back(x);
    }
    v.commit();
}
struct ReadOp { std::vector<size_t> idx; int kind; size_t first; };

template<class T> void on_read(size_t k, std::unique_ptr<T> p, size_t n)
{
    Quiet q;
    Model::Rd& r = m->rd[k];
    r.calls++;
    mix(0x4000 + k * 2 + (p ? 1 : 0));
    if (r.calls > 1) fail("double-callback", "read %zu (index %zu) called back %d times", k, r.index, r.calls);
    if (r.accepted == 0) fail("refused-called-back", "read %zu (index %zu) was refused but called back", k, r.index);
    if (r.index >= n) fail("out-of-bounds", "a read of index %zu of %zu called back", r.index, n);
    if (m->gone) fail("late-callback", "read %zu called back after the vector was destroyed", k);
    if (!p) {
        r.null = true;
        m->nulls++;
        probe("null_results");
        if (vfs::faults_fired() == 0 && m->fired_before_commit == 0) fail("null-result", "read %zu (index %zu) called back with nothing although no read failed", k, r.index);
    } else {
        heap_check(p.get(), sizeof(T), false, "result of a read");
        if (!same(*p, 100 + r.index)) fail("wrong-element", "read %zu called back with something else than element %zu", k, r.index);
    }
    progress();
}

template<class T, size_t A> void c04_body(const Cfg& c, std::vector<std::vector<ReadOp>>& plan, int n, bool faulty, vfs::FaultCfg& fc, uint32_t pmem)
{
    {
        auto v = open_vec<T, A>(c);
        if (v->size() != (size_t)n) fail("wrong-size", "size is %zu instead of %d", v->size(), n);
        vfs::set_faults(fc);
        g_alloc_fail_p = pmem;
        std::vector<std::thread> th;
        for (auto& ops : plan)
            th.emplace_back([&] {
                for (auto& o : ops) {
                    bool oob = false;
                    for (size_t i : o.idx) oob |= i >= (size_t)n;
                    try {
                        if (o.kind == 0) {
                            T x = v->get(o.idx[0]);
                            if (oob) fail("out-of-bounds", "get(%zu) of %d elements did not fail", o.idx[0], n);
                            if (!same(x, 100 + o.idx[0])) fail("wrong-element", "get(%zu) returned something else", o.idx[0]);
                        } else if (o.kind == 1) {
                            size_t k = o.first;
                            v->async_get(o.idx[0], [k, n](std::unique_ptr<T> p) { on_read<T>(k, std::move(p), n); });
                            m->rd[k].accepted = 1;
                            if (oob) fail("out-of-bounds", "async_get(%zu) of %d elements was accepted", o.idx[0], n);
                        } else {
                            std::vector<typename awonvm_vector<T, A>::GetRequest> rq;
                            for (size_t j = 0; j < o.idx.size(); j++) {
                                size_t k = o.first + j;
                                rq.emplace_back(o.idx[j], [k, n](std::unique_ptr<T> p) { on_read<T>(k, std::move(p), n); });
                            }
                            v->async_gets(rq);
                            for (size_t j = 0; j < o.idx.size(); j++) m->rd[o.first + j].accepted = 1;
                            if (oob) fail("out-of-bounds", "async_gets with an index out of %d was accepted", n);
                        }
                    } catch (std::exception& e) {
                        mix(0x77);
                        probe("read_threw");
                        if (o.kind == 0 && !oob) m->nulls++;
                        if (!oob && !faulty) fail("read-failed", "a read failed without any fault: %s", e.what());
                        if (o.kind) {
                            for (size_t j = 0; j < o.idx.size(); j++) {
                                Model::Rd& r = m->rd[o.first + j];
                                r.accepted = 0;
                                if (r.calls) fail("refused-called-back", "a read of index %zu called back but the call was refused with an exception", r.index);
                            }
                        }
                    }
                }
            });
        for (auto& t : th) t.join();
        g_alloc_fail_p = 0;
    }
    m->gone = true;
    vfs::clear_faults();
    uint64_t failed = fault_count("read_") + fault_count("aio_read_") + fault_count("aio_submit_fail");
    if (m->nulls > failed) fail("null-result", "%llu reads delivered nothing or failed, only %llu failed underneath", (unsigned long long)m->nulls, (unsigned long long)failed);
    for (size_t k = 0; k < m->rd.size(); k++) {
        if (m->rd[k].accepted == 1 && m->rd[k].calls != 1) fail("lost-callback", "accepted read %zu (index %zu) called back %d times", k, m->rd[k].index, m->rd[k].calls);
    }
    if (vfs::open_fds()) fail("fd-leak", "%d descriptors still open", vfs::open_fds());
}

void run_c04()
{
    draw_sched_cfg();
    Cfg c = draw_cfg();
    if (c.sched == 0) c.sched = c.type == 2 ? 2 : 1;
    common();
    int n = 1 + work(12);
    if (work(120) == 0) { n = 2000 + work(6000); if (c.type != 2) c.type = 1; }
    int threads = 1 + work(3);
    int nops = 1 + work(thorough() ? 20 : 10);
    bool oob = work(2);
    std::vector<std::vector<ReadOp>> plan(threads);
    {
        Scope s(AR_S);
        for (int i = 0; i < nops; i++) {
            ReadOp o;
            o.kind = (int)work(3);
            o.first = m->rd.size();
            int k = o.kind == 2 ? 1 + work(5) : 1;
            for (int j = 0; j < k; j++) {
                size_t ix = oob && work(8) == 0 ? n + work(2) : work(n);
                o.idx.push_back(ix);
                if (o.kind) { Model::Rd r; r.index = ix; m->rd.push_back(r); }
            }
            plan[work(threads)].push_back(o);
        }
    }
    int fk = work(5);
    vfs::FaultCfg fc;
    uint32_t pmem = 0;
    if (fk == 1 || fk == 4) { aio::cfg.p_eio = 2000; aio::cfg.p_short = 2000; fc.p[vfs::F_READ_EIO] = 1500; fc.p[vfs::F_READ_SHORT] = 1500; }
    if (fk == 2 || fk == 4) { aio::cfg.p_submit_fail = 2500; }
    if (fk == 3) pmem = 1500;
    bool faulty = fk != 0;
    m->fired_before_commit = faulty;
    incarnation([&] {
        sim::Scope app(AR_A);
        { Quiet q; BY_TYPE(c, c04_build, n); }
        BY_TYPE(c, c04_body, c, plan, n, faulty, fc, pmem);
        if (nops > 1) nontrivial();
    });
}
Reg r4({"C04", "reads", run_c04, false, 25000, 300000,
        "random committed vector, scheduler, queue depth, reading threads, single and batched reads, indices in and out of bounds, failing and short reads, refused submissions, failing allocations; non-trivial: at least two reads"});

// Switching between buffered and direct access, which may fail, with reads
// under way. A failed switch must not make the vector read (or close) somebody
// else's file.
template<class T, size_t A> void toggle_body(const Cfg& c, int n, int nops, vfs::FaultCfg& fc, uint32_t psetup)
{
    std::vector<int> foreign;
    {
        auto v = open_vec<T, A>(c);
        bool now = c.direct;
        for (int i = 0; i < nops; i++) {
            switch (work(3)) {
            case 0: {
                vfs::set_faults(fc);
                aio::cfg.p_setup_fail = psetup;
                uint64_t f0 = fault_count();
                try { v->set_use_direct_access(!now); now = !now; probe("switched"); }
                catch (std::exception& e) {
                    probe("switch_failed");
                    if (fault_count() == f0) fail("refused", "the access mode could not be switched: %s", e.what());
                }
                vfs::clear_faults();
                aio::cfg.p_setup_fail = 0;
                if (work(2)) foreign.push_back(open("/sim/foreign", O_RDWR)); // may get a number the vector has closed
                break;
            }
            case 1: {
                size_t ix = work(n);
                T x;
                try { x = v->get(ix); } catch (std::exception& e) { fail("read-failed", "get(%zu): %s", ix, e.what()); }
                if (!same(x, 100 + ix)) fail("wrong-element", "get(%zu) returned something else", ix);
                break;
            }
            default: {
                if (c.sched == 0) break;
                size_t k;
                { Quiet q; Scope s(AR_S); Model::Rd r; r.index = work(n); k = m->rd.size(); m->rd.push_back(r); }
                v->async_get(m->rd[k].index, [k, n](std::unique_ptr<T> p) { on_read<T>(k, std::move(p), n); });
                m->rd[k].accepted = 1;
            }
            }
        }
    }
    m->gone = true;
    for (auto& r : m->rd) if (r.calls != 1) fail("lost-callback", "an accepted read called back %d times", r.calls);
    for (int fd : foreign) if (!vfs::fd_valid(fd)) fail("foreign-close", "the vector closed a descriptor that was not its own");
    for (int fd : foreign) close(fd);
    if (vfs::open_fds()) fail("fd-leak", "%d descriptors of the vector are still open", vfs::open_fds());
    if (probe_count("close_std_fd")) fail("foreign-close", "the vector closed the standard input or output");
}
void run_toggle()
{
    draw_sched_cfg();
    Cfg c = draw_cfg();
    if (c.type >= 2) c.type = 1;
    common();
    int n = 1 + work(8), nops = 2 + work(14);
    vfs::FaultCfg fc;
    if (work(2)) fc.p[vfs::F_OPEN] = 4000;
    uint32_t psetup = work(3) ? 0 : 3000;
    vfs::write_file("/sim/foreign", std::string(65536, 'F'));
    incarnation([&] {
        sim::Scope app(AR_A);
        { Quiet q; if (c.type == 0) c04_build<Big, 4096>(n); else c04_build<Mid, 512>(n); }
        if (c.type == 0) toggle_body<Big, 4096>(c, n, nops, fc, psetup); else toggle_body<Mid, 512>(c, n, nops, fc, psetup);
    });
    nontrivial();
}
Reg r4b({"C04", "access_mode", run_toggle, false, 10000, 120000,
        "reads of a committed vector around switches between buffered and direct access, some of which fail because the file cannot be opened again, with other files being opened meanwhile; non-trivial: all"});

// ------------------------------------------------------------------- C05
template<class T, size_t A> void c05_body(const Cfg& c, vfs::FaultCfg& fc, bool faulty)
{
    std::unique_ptr<awonvm_vector<T, A>> v;
    try { v = open_vec<T, A>(c); }
    catch (std::exception&) { if (!faulty) fail("open-failed", "the vector could not be created"); return; }
    vfs::set_faults(fc);
    if (c.reserve) v->reserve(c.reserve);
    uint64_t f0 = vfs::faults_fired();
    append_all(*v, c, faulty);
    if (c.again >= 0) { v->reserve((size_t)c.again); if (c.again_append) append_all(*v, c, faulty); }
    if (c.mid_toggle) {
        // what failed before is not forgotten
        try { v->set_use_direct_access(!c.direct); }
        catch (std::exception&) { if (!faulty) fail("refused", "the access mode could not be switched"); }
        if (c.again_append) append_all(*v, c, faulty);
    }
    if (c.ending >= 2) { std::unique_ptr<awonvm_vector<T, A>> w(new awonvm_vector<T, A>(std::move(*v))); v = std::move(w); }
    if (c.ending % 2 == 0) {
        v->commit();
        (void)f0;
        if (v->is_committed()) {
            if (m->failed) fail("committed-failed", "%zu appends failed but the vector says it is committed", m->failed);
            m->committed = true;
            // what it holds now
            vfs::clear_faults();
            Quiet q;
            check_all(*v, "after commit");
            probe("committed");
        } else {
            m->said_uncommitted = true;
            probe("commit_refused");
            if (!faulty) fail("not-committed", "commit failed without any fault");
            vfs::clear_faults();
            v->commit(); // trying again does not make it good
            if (v->is_committed()) fail("committed-failed", "a vector that could not be written says it is committed after a second commit()");
        }
    }
    vfs::clear_faults();
    v.reset();
}
template<class T, size_t A> void c05_reopen(const Cfg& c)
{
    std::unique_ptr<awonvm_vector<T, A>> v = open_vec<T, A>(c);
    if (m->committed) check_all(*v, "after a power loss");
    else if (m->said_uncommitted && !m->sync_fails) { // (nothing can be made durable then)
        if (v->is_committed() || v->size()) fail("committed-failed", "a vector that could not be written says it is committed (%zu elements) after reopening", v->size());
        probe("failed_vector_reopened");
    } else {
        // the crash came before commit returned: nothing is promised, but
        // reading has to be safe
        for (size_t i = 0; i < v->size() && v->is_committed(); i++) try { v->get(i); } catch (std::exception&) {}
    }
}
void run_c05()
{
    draw_sched_cfg();
    Cfg c = draw_cfg();
    c.prog_direct_toggle = false;
    c.mid_toggle = c.type != 2 && work(5) == 0;
    common();
    vfs::FaultCfg fc;
    int fk = work(7);
    if (fk == 1) { fc.p[vfs::F_WRITE_EIO] = 600; aio::cfg.p_eio = 600; }
    if (fk == 2) { fc.p[vfs::F_WRITE_SHORT] = 600; aio::cfg.p_short = 600; }
    if (fk == 3) { fc.p[vfs::F_WRITE_NOSPC] = 600; fc.p[vfs::F_WRITE_EINTR] = 600; }
    if (fk == 4) { fc.p[vfs::F_FSYNC] = 5000; }
    if (fk == 5) { aio::cfg.p_submit_fail = 800; aio::cfg.p_setup_fail = 2000; }
    if (fk == 6) { fc.p[vfs::F_META] = 5000; fc.max_faults = 1; } // (discarding what was written works then)
    m->sync_fails = fk == 4;
    bool faulty = fk != 0;
    int  crash = work(3); // 0: power loss right after the end, 1: at a random event, 2: process crash
    incarnation([&] {
        sim::Scope app(AR_A);
        if (crash) arm_crash(crash == 2 ? CRASH_PROCESS : CRASH_POWER, 1 + draw(T_CRASH, 10 + c.threads * c.per * 3));
        BY_TYPE(c, c05_body, c, fc, faulty);
        crash_now(CRASH_POWER);
    });
    aio::cfg = aio::Cfg();
    incarnation([&] {
        sim::Scope app(AR_A);
        BY_TYPE(c, c05_reopen, c);
    });
    if (m->appended > 1) nontrivial();
}
Reg r5({"C05", "durability", run_c05, false, 25000, 300000,
        "as C03 with failing, short, interrupted and refused writes, failing fsync, truncation, queue creation and submission; power loss at the end or at a random I/O event, process crash, then reopening; non-trivial: at least two appends"});
} // namespace
