// Simulated kernel AIO (the libaio entry points). The device is one more
// entity the seeded scheduler may run; it completes pending requests one at a
// time, in any order.
#include "internal.h"
#include <cerrno>
#include <deque>
#include <libaio.h>

namespace sim {
int64_t  vfs_aio_perform_ino(uint64_t ino, bool write, void* buf, size_t len, uint64_t off, int64_t forced);
int      vfs_aio_validate(int fd);
uint64_t vfs_fd_token(int fd);

struct Req { uint64_t id, ino; bool write; void* buf; size_t len; uint64_t off; void* data; struct iocb* obj; bool direct_err; };
struct Ctx { uint64_t magic; unsigned cap; std::vector<Req> pend; std::deque<io_event> done; bool dead; };
static std::vector<Ctx*>* g_ctx = nullptr;
static uint64_t g_req_id = 0, g_faults = 0;

namespace aio { Cfg cfg; uint64_t inflight() { uint64_t n = 0; if (g_ctx) for (auto* c : *g_ctx) n += c->pend.size(); return n; } }

void aio_reset() { g_ctx = nullptr; g_faults = 0; }

bool device_pending()
{
    if (!g_ctx) return false;
    for (auto* c : *g_ctx) if (!c->pend.empty()) return true;
    return false;
}
static bool fire(uint32_t p, const char* name)
{
    if (!p || g_faults >= aio::cfg.max_faults) return false;
    if (!chance(T_FAULT, p, 10000)) return false;
    g_faults++;
    fault_fired(name);
    return true;
}
static int64_t perform(Req& r)
{
    if (r.direct_err) return -EINVAL;
    if (fire(aio::cfg.p_eio, r.write ? "aio_write_eio" : "aio_read_eio")) return -EIO;
    int64_t n = (int64_t)r.len;
    if (r.len >= 512 && fire(aio::cfg.p_short, r.write ? "aio_write_short" : "aio_read_short"))
        n = (int64_t)draw(T_FAULT, r.len / 512) * 512;
    return vfs_aio_perform_ino(r.ino, r.write, r.buf, r.len, r.off, n);
}
static void complete(Ctx* c, size_t k)
{
    Req r = c->pend[k];
    c->pend.erase(c->pend.begin() + k);
    io_event ev{};
    ev.data = r.data;
    ev.obj  = r.obj;
    ev.res  = (unsigned long)perform(r);
    SIM_LOG("device completes request %lu (%s at %lu): %ld", r.id, r.write ? "write" : "read", r.off, (long)ev.res);
    mix(r.id * 31 + 5);
    mix(ev.res);
    c->done.push_back(ev);
    note_progress();
    wake_all(c);
}
void device_step()
{
    Scope s(AR_S);
    size_t total = 0;
    for (auto* c : *g_ctx) total += c->pend.size();
    if (!total) return;
    size_t k = aio::cfg.reorder ? draw(T_BLOCK, total) : 0;
    g_p->time_ns += 20000;
    for (auto* c : *g_ctx) {
        if (k < c->pend.size()) { complete(c, k); return; }
        k -= c->pend.size();
    }
}
// Requests in flight when the process or the machine dies may have been
// carried out or not.
void aio_at_crash(int)
{
    if (!g_ctx) return;
    for (auto* c : *g_ctx)
        while (!c->pend.empty()) {
            size_t k = draw(T_CRASH, c->pend.size());
            Req    r = c->pend[k];
            c->pend.erase(c->pend.begin() + k);
            if (r.write && draw(T_CRASH, 2)) {
                int64_t n = (int64_t)r.len;
                if (draw(T_CRASH, 4) == 3) n = (int64_t)draw(T_CRASH, r.len / 512 + 1) * 512;
                if (!r.direct_err) vfs_aio_perform_ino(r.ino, true, r.buf, r.len, r.off, n);
            }
        }
}
} // namespace sim
using namespace sim;

bool sim_fd_direct_ok(int fd, const void* buf, size_t len, uint64_t off);

extern "C" {
int io_setup(int maxevents, io_context_t* ctxp)
{
    Scope s(AR_S);
    event_io();
    sched_point(60);
    if (maxevents <= 0 || *ctxp) return -EINVAL;
    if (fire(aio::cfg.p_setup_fail, "aio_setup_fail")) { errno = EAGAIN; return -EAGAIN; }
    if (!g_ctx) g_ctx = new std::vector<Ctx*>();
    Ctx* c   = new Ctx();
    c->magic = 0xA10;
    c->cap   = (unsigned)maxevents;
    if (aio::cfg.depth_cap && aio::cfg.depth_cap < c->cap) c->cap = aio::cfg.depth_cap;
    c->dead = false;
    g_ctx->push_back(c);
    *ctxp = reinterpret_cast<io_context_t>(c);
    return 0;
}
static Ctx* ctx_of(io_context_t x)
{
    Ctx* c = reinterpret_cast<Ctx*>(x);
    if (!g_ctx) return nullptr;
    for (auto* k : *g_ctx) if (k == c && !k->dead) return c;
    return nullptr;
}
int io_submit(io_context_t x, long nr, struct iocb* ios[])
{
    sched_point(60);
    Scope s(AR_S);
    event_io();
    Ctx* c = ctx_of(x);
    if (!c || nr < 0) return -EINVAL;
    if (nr == 0) return 0;
    size_t busy = c->pend.size() + c->done.size();
    size_t room = c->cap > busy ? c->cap - busy : 0;
    if (room == 0) {
        fault_fired("aio_queue_full");
        return -EAGAIN;
    }
    if (fire(aio::cfg.p_submit_fail, "aio_submit_fail")) { errno = EIO; return -EIO; }
    size_t take = (size_t)nr < room ? (size_t)nr : room;
    if (take < (size_t)nr) probe("aio_partial_by_room");
    if (take > 1 && fire(aio::cfg.p_partial, "aio_partial_submit")) take = 1 + draw(T_FAULT, take - 1);
    size_t done = 0;
    for (; done < take; done++) {
        heap_check(&ios[done], sizeof(ios[0]), false, "io_submit list");
        struct iocb* i = ios[done];
        heap_check(i, sizeof(*i), false, "io_submit iocb");
        int v = vfs_aio_validate(i->aio_fildes);
        if (v) return done ? (int)done : v;
        if (i->aio_lio_opcode != IO_CMD_PREAD && i->aio_lio_opcode != IO_CMD_PWRITE) return done ? (int)done : -EINVAL;
        Req r;
        r.id = ++g_req_id;
        r.ino = vfs_fd_token(i->aio_fildes);
        r.write = i->aio_lio_opcode == IO_CMD_PWRITE;
        r.buf = i->u.c.buf; r.len = i->u.c.nbytes; r.off = (uint64_t)i->u.c.offset;
        r.data = i->data; r.obj = i;
        r.direct_err = !sim_fd_direct_ok(i->aio_fildes, r.buf, r.len, r.off);
        heap_check(r.buf, r.len, !r.write, "asynchronous I/O buffer");
        SIM_LOG("submit request %lu: %s %zu bytes at %lu", r.id, r.write ? "write" : "read", r.len, r.off);
        c->pend.push_back(r);
        mix(r.id * 7 + r.write);
    }
    probe(aio::inflight() > 1 ? "aio_concurrent_requests" : "aio_single_request");
    return (int)done;
}
int io_getevents(io_context_t x, long min_nr, long nr, struct io_event* ev, struct timespec* to)
{
    sched_point(60);
    Scope s(AR_S);
    Ctx* c = ctx_of(x);
    if (!c || nr < min_nr || min_nr < 0) return -EINVAL;
    if (fire(aio::cfg.p_eintr, "aio_eintr")) { errno = EINTR; return -EINTR; }
    int64_t dl = to ? now() + to->tv_sec * 1000000000LL + to->tv_nsec : -1;
    while ((long)c->done.size() < min_nr) {
        if (to && to->tv_sec == 0 && to->tv_nsec == 0) break;
        if (!block_on(c, "io_getevents", dl)) break;
        if (c->dead) return -EINVAL;
    }
    long k = 0;
    while (k < nr && !c->done.empty()) {
        ev[k++] = c->done.front();
        c->done.pop_front();
    }
    if (k) { event_io(); probe("aio_reaped", k); }
    return (int)k;
}
int io_destroy(io_context_t x)
{
    Scope s(AR_S);
    Ctx* c = ctx_of(x);
    if (!c) return -EINVAL;
    sched_point(60);
    if (!c->pend.empty()) probe("aio_destroy_with_pending");
    while (!c->pend.empty()) complete(c, aio::cfg.reorder ? draw(T_BLOCK, c->pend.size()) : 0);
    c->dead = true;
    wake_all(c);
    for (size_t i = 0; i < g_ctx->size(); i++) if ((*g_ctx)[i] == c) { g_ctx->erase(g_ctx->begin() + i); break; }
    return 0;
}
int io_cancel(io_context_t, struct iocb*, struct io_event*) { return -EAGAIN; }
int io_queue_init(int n, io_context_t* c) { *c = nullptr; return io_setup(n, c); }
int io_queue_release(io_context_t c) { return io_destroy(c); }
int io_pgetevents(io_context_t x, long a, long b, struct io_event* e, struct timespec* t, sigset_t*) { return io_getevents(x, a, b, e, t); }
}
