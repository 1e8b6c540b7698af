// C02: every accepted asynchronous I/O completes exactly once.
#include "sim.h"
#include <sse/schemes/abstractio/scheduler.hpp>

#include <fcntl.h>
#include <memory>
#include <thread>
#include <unistd.h>

using namespace sim;
using sse::abstractio::Scheduler;

static Decl d("C02",
              "LinuxAIOScheduler, ThreadPoolAIOScheduler, shared ThreadPool",
              "the kernel's AIO context (io_setup/io_submit/io_getevents/io_destroy), pread/pwrite and the file: simulator");

namespace {
enum { BLK = 512, PAGE = 4096, RD_BLOCKS = 64 };

struct R
{
    int      kind;      // 0 read, 1 write
    int      bad;       // 0 none, 1 buffer, 2 length, 3 offset, 4 descriptor
    size_t   off, len;
    unsigned char* buf = nullptr;   // as passed
    void*    block = nullptr;       // as allocated
    int      accepted = -1;         // -1 not submitted yet, 0 refused, 1 accepted, 2 part of a batch
    int      calls = 0;
    int64_t  res = 0;
    bool     first = true;
};
struct Batch { std::vector<int> ids; int ret; bool late; };
struct Op { std::vector<int> ids; bool batch; };
struct Model
{
    std::vector<R> r;
    std::vector<Batch> batches;
    bool waiting_done = false;
    bool faulty = false, linux_ = false;
};
Model* m;

unsigned char pat(size_t o) { return (unsigned char)((o * 131 + (o >> 9) * 17 + 7) & 0xff); }
unsigned char wpat(int id, size_t o) { return (unsigned char)((id * 37 + o * 11 + 3) & 0xff); }

void on_done(int id, void* data, int64_t res)
{
    R& r = m->r[id];
    Quiet q;
    r.calls++;
    mix(0x2000 + id); trace("callback of %d: %ld", id, (long)res);
    mix(res);
    if (r.calls > 1) fail("double-callback", "request %d called back %d times", id, r.calls);
    if (data != &r) fail("wrong-data", "request %d called back with another request's data pointer", id);
    if (r.accepted == 0) fail("refused-called-back", "request %d was refused but called back", id);
    if (m->waiting_done) fail("late-callback", "request %d called back after wait_completions() or destruction returned", id);
    if (r.bad && (m->linux_ || r.bad == 4)) {
        if (res >= 0) fail("bad-accepted", "ill-formed request %d (kind %d) called back with %ld", id, r.bad, (long)res);
        r.res = res;
        return;
    }
    r.res = res;
    size_t size = RD_BLOCKS * BLK;
    if (r.kind == 0) {
        int64_t want = r.off >= size ? 0 : (int64_t)std::min(r.len, size - r.off);
        if (res != want && !m->faulty) fail("wrong-result", "read %d of %zu bytes at %zu called back with %ld instead of %ld", id, r.len, r.off, (long)res, (long)want);
        if (res > want) fail("wrong-result", "read %d of %zu bytes at %zu called back with %ld", id, r.len, r.off, (long)res);
        for (int64_t i = 0; i < res; i++)
            if (r.buf[i] != pat(r.off + i)) fail("wrong-data", "read %d at %zu delivered wrong bytes at %ld", id, r.off, (long)i);
    } else {
        int64_t want = (int64_t)r.len;
        if (res != want && !m->faulty) fail("wrong-result", "write %d of %zu bytes called back with %ld", id, r.len, (long)res);
        if (res > want) fail("wrong-result", "write %d of %zu bytes called back with %ld", id, r.len, (long)res);
    }
    if (res < 0) probe("error_results");
    else if ((size_t)res < r.len) probe("short_results");
    progress();
}

void prepare(R& r, int id)
{
    if (posix_memalign(&r.block, PAGE, PAGE * 2)) _exit(9);
    r.buf = static_cast<unsigned char*>(r.block) + (r.bad == 1 ? 8 : 0);
    if (r.kind == 1) for (size_t i = 0; i < r.len; i++) r.buf[i] = wpat(id, i);
}

void run()
{
    draw_sched_cfg();
    bool linux_ = work(4) != 0;
    int  subm   = 1 + work(3);
    int  nops   = 1 + work(thorough() ? 24 : 12);
    unsigned depth = work(3) ? 1 + work(6) : 128;
    int  ending = work(4);
    bool allow_bad = work(3) == 0;
    int  big_batch = work(4) == 0;
    int  waiter = !linux_ && work(3) == 0 ? 1 + (int)work(4) : 0;
    m = make_shared_state<Model>();
    std::vector<std::vector<Op>> plan(subm);
    {
        Scope s(AR_S);
        m->linux_ = linux_;
        for (int i = 0; i < nops; i++) {
            Op o;
            o.batch = work(3) == 0;
            int n = o.batch ? 1 + work(big_batch ? 24 : 5) : 1;
            for (int k = 0; k < n; k++) {
                R r;
                r.kind = o.batch ? 0 : (int)work(2);
                r.bad  = allow_bad && work(5) == 0 ? 1 + (int)work(4) : 0;
                r.len  = BLK * (1 + work(8));
                if (r.bad == 2) r.len -= 100;
                if (r.kind == 0) r.off = BLK * work(RD_BLOCKS + 2);
                else r.off = (size_t)(1 << 20) + m->r.size() * 2 * PAGE; // its own pages
                if (r.bad == 3) r.off += 24;
                o.ids.push_back((int)m->r.size());
                m->r.push_back(r);
            }
            plan[work(subm)].push_back(o);
        }
        m->r.reserve(m->r.size() + 20); // their addresses are used
    }
    aio::Cfg& a = aio::cfg;
    a = aio::Cfg();
    int fk = work(6);
    if (fk == 1) a.p_partial = 5000;
    if (fk == 2) a.p_eintr = 2000;
    if (fk == 3) { a.p_eio = 2000; a.p_short = 2000; }
    if (fk == 4) { a.p_submit_fail = 2000; a.max_faults = 3; a.p_partial = 3000; }
    if (fk == 5) { a.p_partial = 3000; a.p_eintr = 1000; a.p_eio = 500; a.p_short = 500; }
    vfs::FaultCfg fc;
    if (!linux_ && fk >= 3) { fc.p[vfs::F_READ_EIO] = 1500; fc.p[vfs::F_READ_SHORT] = 1500; fc.p[vfs::F_WRITE_EIO] = 1500; fc.p[vfs::F_WRITE_SHORT] = 1500; }
    m->faulty = fk >= 3;
    a.reorder = work(5) != 0;
    bool direct = work(2);
    std::string data(RD_BLOCKS * BLK, 0);
    for (size_t i = 0; i < data.size(); i++) data[i] = (char)pat(i);
    vfs::write_file("/sim/rd", data);
    vfs::write_file("/sim/wr", "");

    incarnation([&] {
        sim::Scope app(AR_A);
        int fl = linux_ && direct ? O_DIRECT : 0;
        int rfd = open("/sim/rd", O_RDWR | fl), wfd = open("/sim/wr", O_RDWR | fl);
        std::unique_ptr<Scheduler> s(linux_ ? sse::abstractio::make_linux_aio_scheduler(PAGE, depth) : sse::abstractio::make_thread_pool_aio_scheduler());
        if (work(4) == 0) {
            std::unique_ptr<Scheduler> other(s->duplicate());
            s.swap(other);
        }
        vfs::set_faults(fc);
        bool after_wait = false;
        auto submit = [&](Op& o) {
            for (int id : o.ids) { Quiet q; prepare(m->r[id], id); }
            auto fd_of = [&](R& r) { return r.bad == 4 ? -1 : r.kind ? wfd : rfd; };
            if (!o.batch) {
                int id = o.ids[0];
                R&  r  = m->r[id];
                auto cb = [id](void* p, int64_t res) { on_done(id, p, res); };
                int ret = r.kind ? s->submit_pwrite(fd_of(r), r.buf, r.len, r.off, &r, cb) : s->submit_pread(fd_of(r), r.buf, r.len, r.off, &r, cb);
                mix(ret);
                if (ret != 1) {
                    probe("refused");
                    if (r.calls) fail("refused-called-back", "request %d returned %d but called back", id, ret);
                    if (!r.bad && !m->faulty && !after_wait) fail("refused", "well-formed request %d refused with %d", id, ret);
                }
                r.accepted = ret == 1;
            } else {
                std::vector<Scheduler::PReadSumission> v;
                for (int id : o.ids) { R& r = m->r[id]; r.accepted = 2; v.emplace_back(fd_of(r), r.buf, r.len, r.off, &r, [id](void* p, int64_t res) { on_done(id, p, res); }); }
                int ret = s->submit_preads(v);
                mix(ret);
                Quiet q; Scope sc(AR_S);
                m->batches.push_back(Batch{o.ids, ret, after_wait});
            }
        };
        {
            std::vector<std::thread> th;
            for (int t = 0; t < subm; t++) th.emplace_back([&, t] { for (auto& o : plan[t]) submit(o); });
            // waiting while others submit (which only the thread pool accepts)
            if (waiter) th.emplace_back([&] {
                for (int k = 0; k < waiter; k++) {
                    std::vector<size_t> before;
                    { Quiet q; Scope sc(AR_S); for (size_t i = 0; i < m->r.size(); i++) if (m->r[i].accepted == 1) before.push_back(i); }
                    s->wait_completions();
                    Quiet q;
                    for (size_t i : before) if (m->r[i].calls != 1) fail("early-return", "wait_completions() returned but request %zu, accepted before, has called back %d times", i, m->r[i].calls);
                    progress();
                }
            });
            for (auto& t : th) t.join();
        }
        if (ending & 1) { s->wait_completions(); m->waiting_done = true; }
        if (ending == 3) {
            // a scheduler may refuse what comes after waiting (the one of Linux does), or
            // accept it: it is to be done then
            m->waiting_done = false;
            after_wait = linux_;
            for (int k = 1 + (int)work(3); k > 0; k--) {
                Op o;
                o.batch = work(3) == 0;
                {
                    Quiet q; Scope sc(AR_S);
                    for (int n = o.batch ? 1 + (int)work(3) : 1; n > 0; n--) {
                        R r;
                        r.kind = o.batch ? 0 : (int)work(2);
                        r.bad = 0; r.len = BLK;
                        r.off = r.kind ? (size_t)(1 << 20) + m->r.size() * 2 * PAGE : BLK * work(RD_BLOCKS);
                        o.ids.push_back((int)m->r.size());
                        m->r.push_back(r);
                    }
                }
                submit(o);
            }
            if (work(2)) { s->wait_completions(); m->waiting_done = true; }
            probe("submitted_after_wait");
        }
        if (ending == 1) s->wait_completions();
        s.reset();
        m->waiting_done = true;
        vfs::clear_faults();
        std::string wr;
        vfs::read_file("/sim/wr", wr);
        for (size_t i = 0; i < m->r.size(); i++) {
            R& r = m->r[i];
            if (r.accepted == 1 && r.calls != 1) fail("lost-callback", "request %zu was accepted but called back %d times by the time the scheduler was gone", i, r.calls);
            if (r.accepted == 0 && r.calls) fail("refused-called-back", "refused request %zu called back", i);
            if (r.kind == 1 && r.calls && r.res > 0 && !r.bad)
                for (int64_t k = 0; k < r.res; k++)
                    if (r.off + k >= wr.size() || (unsigned char)wr[r.off + k] != wpat((int)i, k)) fail("write-lost", "write %zu reported %ld bytes but byte %ld is not in the file (size %zu, offset %zu, found %d, want %d)", i, (long)r.res, (long)k, wr.size(), r.off, r.off + k < wr.size() ? wr[r.off + k] & 255 : -1, wpat((int)i, k));
            free(r.block);
        }
        for (auto& b : m->batches) {
            int called = 0, good = 0, well = 0;
            for (int id : b.ids) { called += m->r[id].calls; good += m->r[id].bad == 0; well += m->r[id].bad == 0 || !linux_; }
            if (b.ret != (int)b.ids.size()) probe("batch_refused_in_part");
            if (b.ret >= 0 && called != b.ret) fail("batch-count", "a batch of %zu requests returned %d accepted, %d called back", b.ids.size(), b.ret, called);
            if (b.ret < 0 && called) fail("refused-called-back", "a batch returned %d but %d of its requests called back", b.ret, called);
            if (well == (int)b.ids.size() && !m->faulty && !b.late && b.ret != well) fail("batch-refused", "a batch of %d well-formed requests returned %d", well, b.ret);
        }
        close(rfd);
        close(wfd);
        if (m->r.size() > 1) nontrivial();
    });
}
Reg r({"C02", "schedulers", run, false, 25000, 300000,
       "random scheduler (kernel AIO or thread pool), queue depth, submitting threads, single and batched requests, ill-formed requests, completion order, faults of the device; non-trivial: at least two requests"});
} // namespace
