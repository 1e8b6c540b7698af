// Seeded scheduler. Real threads, exactly one of which runs at any moment: it
// holds the baton. The pthread, futex and clock entry points the program and
// its libraries call are defined here, so every blocking or waking operation
// is a decision of the simulator.
#include <sys/resource.h>
#include "internal.h"

#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ctime>
#include <unistd.h>
#include <cxxabi.h>
#include <typeinfo>

namespace sim {

Persist* g_p = nullptr;
Result*  g_result = nullptr;
size_t   g_result_size = 0;
bool     g_active = false;
int      g_quiet = 0;
long     g_countdown = 1000000;
SchedCfg g_sched;
unsigned g_hw_concurrency = 3;
static const int64_t EPOCH = 1700000000LL * 1000000000LL;

bool sim_active() { return g_active; }
bool tracing() { return g_p && g_p->tracing; }
bool thorough() { return g_p && g_p->thorough; }

// ------------------------------------------------------------ real syscalls
ssize_t syscall_write(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, n); }
void* mmap_real(void* a, size_t n, int prot, int flags, int fd, long off)
{
    return reinterpret_cast<void*>(syscall(SYS_mmap, a, n, prot, flags, fd, off));
}

// ------------------------------------------------------------ random numbers
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t xo_next(uint64_t* s)
{
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
    s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
uint64_t seed_mix(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9E3779B97F4A7C15ULL + b + 0x632BE59BD9B4E019ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

template<class G> static uint64_t draw_gen(Tape t, uint64_t limit, G gen)
{
    Scope    s(AR_S);
    uint64_t v;
    if (g_p->is_replay) {
        v = g_p->pos[t] < g_p->replay[t].size() ? g_p->replay[t][g_p->pos[t]] : 0;
        g_p->pos[t]++;
        if (limit && v >= limit) v %= limit;
    } else
        v = gen(g_p->rng[t]);
    // a run which never ends draws without end: it is repeated from its seed
    if (g_p->rec[t].size() < TAPE_LIMIT) g_p->rec[t].push_back(v);
    else g_p->truncated = true;
    return v;
}

uint64_t draw(Tape t, uint64_t n)
{
    if (n <= 1) return 0;
    return draw_gen(t, n, [n](uint64_t* r) { return xo_next(r) % n; });
}

bool chance(Tape t, uint32_t num, uint32_t den)
{
    if (!num) return false;
    return draw_gen(t, 2, [=](uint64_t* r) { return (uint64_t)(xo_next(r) % den < num); }) != 0;
}

static uint64_t draw_exp(Tape t, uint64_t mean)
{ // 0: never
    return draw_gen(t, 0, [=](uint64_t* r) {
        double u = (xo_next(r) >> 11) * (1.0 / 9007199254740992.0);
        double v = -__builtin_log(1.0 - u) * (double)mean;
        return (uint64_t)(v < 1 ? 1 : v);
    });
}

// ------------------------------------------------------------ accounting
void mix(uint64_t v)
{
    g_p->hash = (g_p->hash ^ v) * 0x100000001b3ULL;
    g_p->hash ^= g_p->hash >> 29;
}
void mix_state(uint64_t v)
{
    Scope s(AR_S);
    if (g_p->states.size() < 4096) g_p->states.insert(v);
}
void probe(const char* name, uint64_t n) { Scope s(AR_S); g_p->probes[name] += n; }
void fault_fired(const char* kind)
{
    Scope s(AR_S);
    g_p->faults[kind]++;
    mix(0xFA17 + kind[0]);
    SIM_LOG("fault: %s", kind);
}
uint64_t fault_count(const char* prefix)
{
    Scope    s(AR_S);
    uint64_t n = 0;
    for (auto& f : g_p->faults) if (f.first.compare(0, strlen(prefix), prefix) == 0) n += f.second;
    return n;
}
uint64_t probe_count(const char* name)
{
    Scope s(AR_S);
    auto  it = g_p->probes.find(name);
    return it == g_p->probes.end() ? 0 : it->second;
}
void nontrivial() { g_p->trivial = false; }

static uint64_t g_idle_jumps = 0;
void progress() { g_idle_jumps = 0; }
void note_progress() { g_idle_jumps = 0; }

// ------------------------------------------------------------ threads
struct Thr
{
    int         id;
    pthread_t   real;
    std::atomic<int> go;
    enum { RUN, BLOCK, DONE } st;
    const void* waddr;
    const char* wkind;
    int64_t     deadline;
    bool        timed_out;
    int64_t     prio;
    void* (*fn)(void*);
    void*       arg;
    void*       ret;
    bool        detached, joined, real_joined;
    int         dtor_iter;
    char        name[24];
};
static const int MAXT = 2000;
static Thr       g_thr[MAXT];
static int       g_nthr = 0;
static Thr*      g_cur  = nullptr;
static int64_t   g_pct_low = 5;
static int64_t   g_dev_prio = 500;
static uint64_t  g_run_weight = 0;
static int       g_pct_left = 0;
static uint64_t  g_io_events = 0, g_crash_at = 0;
static Crash     g_crash_kind = CRASH_NONE;
static uint64_t  g_step_budget = 0;
static __thread Thr* t_self = nullptr;
static bool      g_reap = false;

static int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*r_join)(pthread_t, void**);
static int (*r_key_create)(pthread_key_t*, void (*)(void*));
static int (*r_setspecific)(pthread_key_t, const void*);
static pthread_key_t g_exit_key;
static void thread_exit_dtor(void*);

__attribute__((constructor(101))) static void init_real()
{
    r_create      = reinterpret_cast<decltype(r_create)>(dlsym(RTLD_NEXT, "pthread_create"));
    r_join        = reinterpret_cast<decltype(r_join)>(dlsym(RTLD_NEXT, "pthread_join"));
    r_key_create  = reinterpret_cast<decltype(r_key_create)>(dlsym(RTLD_NEXT, "pthread_key_create"));
    r_setspecific = reinterpret_cast<decltype(r_setspecific)>(dlsym(RTLD_NEXT, "pthread_setspecific"));
    r_key_create(&g_exit_key, thread_exit_dtor);
}

int     thread_id() { return g_cur ? g_cur->id : 0; }
int64_t now() { return g_p ? g_p->time_ns : 0; }
int     live_threads()
{
    int n = 0;
    for (int i = 1; i < g_nthr; i++) n += g_thr[i].st != Thr::DONE;
    return n;
}
void name_thread(const char* n) { if (g_cur) { strncpy(g_cur->name, n, sizeof(g_cur->name) - 1); } }

static void fut_wait(std::atomic<int>* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void fut_wake(std::atomic<int>* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void wait_baton(Thr* t)
{
    while (t->go.load(std::memory_order_acquire) == 0) fut_wait(&t->go, 0);
    t->go.store(0, std::memory_order_relaxed);
}
static void give_baton(Thr* t)
{
    t->go.store(1, std::memory_order_release);
    fut_wake(&t->go);
}
static void reap()
{
    if (!g_reap) return;
    g_reap = false;
    for (int i = 1; i < g_nthr; i++) {
        Thr& t = g_thr[i];
        if (t.st == Thr::DONE && t.detached && !t.real_joined && &t != g_cur) {
            t.real_joined = true;
            r_join(t.real, nullptr);
        }
    }
}

static long g_chunk = 0, g_rest = 0;
static void load_chunk()
{
    g_chunk = g_rest > 4000000 ? 4000000 : g_rest;
    if (g_rest != LONG_MAX) g_rest -= g_chunk;
    g_countdown = g_chunk;
}
static void arm()
{
    if (g_sched.strategy == 1) {
        uint64_t v  = draw_exp(T_SCHED, g_sched.mean);
        g_countdown = v == 0 ? LONG_MAX : (long)v;
    } else if (g_sched.strategy == 2 && g_pct_left > 0) {
        g_pct_left--;
        uint64_t lim = g_sched.pct_steps;
        uint64_t v = draw_gen(T_SCHED, 0, [lim](uint64_t* r) { return xo_next(r) % lim + 1; });
        g_countdown = v == 0 ? LONG_MAX : (long)v;
    } else
        g_countdown = LONG_MAX;
    g_rest = g_countdown;
    load_chunk();
}

static void dump_threads(std::string& out)
{
    char b[160];
    for (int i = 0; i < g_nthr; i++) {
        Thr& t = g_thr[i];
        if (t.st == Thr::DONE) continue;
        snprintf(b, sizeof(b), " [thread %d%s%s %s%s]", t.id, t.name[0] ? " " : "", t.name,
                 t.st == Thr::RUN ? "running" : "blocked in ", t.st == Thr::RUN ? "" : t.wkind);
        if (out.size() < 1500) out += b;
    }
}

void step_budget(uint64_t n) { g_step_budget = n; }

static void set_cur(Thr* t)
{
    g_cur        = t;
    g_run_weight = 0;
}

static void switch_to(Thr* n)
{
    Thr* me = g_cur;
    if (n == me) return;
    g_p->switches++;
    int a = g_arena, q = g_quiet;
    set_cur(n);
    give_baton(n);
    if (me->st == Thr::DONE) return;
    wait_baton(me);
    g_arena = a;
    g_quiet = q;
    reap();
}

// entities beside threads
enum { E_DEVICE = -1, E_CLOCK = -2 };

static int64_t earliest_deadline()
{
    int64_t d = -1;
    for (int i = 0; i < g_nthr; i++) {
        Thr& t = g_thr[i];
        if (t.st == Thr::BLOCK && t.deadline >= 0 && (d < 0 || t.deadline < d)) d = t.deadline;
    }
    return d;
}
static void advance_clock()
{
    int64_t d = earliest_deadline();
    if (d > g_p->time_ns) g_p->time_ns = d;
    for (int i = 0; i < g_nthr; i++) {
        Thr& t = g_thr[i];
        if (t.st == Thr::BLOCK && t.deadline >= 0 && t.deadline <= g_p->time_ns) {
            t.st        = Thr::RUN;
            t.timed_out = true;
        }
    }
}

static Thr* pick(bool preempting)
{
    for (;;) {
        int  cand[MAXT + 2];
        int  n = 0;
        for (int i = 0; i < g_nthr; i++)
            if (g_thr[i].st == Thr::RUN && !(preempting && &g_thr[i] == g_cur)) cand[n++] = i;
        bool dev = device_pending();
        if (n == 0 && !dev) {
            if (preempting && g_cur->st == Thr::RUN) return g_cur;
            if (earliest_deadline() >= 0) {
                if (++g_idle_jumps > 20000) {
                    std::string s;
                    dump_threads(s);
                    stall_or_fail("no-progress", "nothing but timers fires any more:%s", s.c_str());
                }
                advance_clock();
                continue;
            }
            std::string s;
            dump_threads(s);
            stall_or_fail("deadlock", "every thread is blocked:%s", s.c_str());
        }
        if (g_sched.strategy == 2) {
            int     best = -9;
            int64_t bp   = INT64_MIN;
            for (int i = 0; i < n; i++)
                if (g_thr[cand[i]].prio > bp) { bp = g_thr[cand[i]].prio; best = cand[i]; }
            if (dev && (best == -9 || g_dev_prio > bp)) {
                device_step();
                g_dev_prio = 10 + (int64_t)draw(T_BLOCK, 1000);
                if (preempting) return g_cur;
                continue;
            }
            if (preempting && g_cur->st == Thr::RUN && g_cur->prio >= bp) return g_cur;
            return &g_thr[best];
        }
        if (dev) cand[n++] = E_DEVICE;
        if (preempting && g_sched.early_time && earliest_deadline() >= 0 && n > 0) cand[n++] = E_CLOCK;
        if (n == 0) return g_cur;
        int c = cand[draw(T_BLOCK, n)];
        if (c == E_DEVICE) {
            device_step();
            if (preempting) return g_cur;
            continue;
        }
        if (c == E_CLOCK) {
            fault_fired("early_timer");
            advance_clock();
            return g_cur;
        }
        return &g_thr[c];
    }
}

void point_slow()
{
    if (!g_active || !g_cur || t_self != g_cur) { g_countdown = 1000000; return; }
    Scope s(AR_S);
    // account for the weight run since the countdown was armed
    g_p->steps += g_chunk;
    g_run_weight += g_chunk;
    if (g_step_budget && g_p->steps > g_step_budget) {
        std::string d;
        dump_threads(d);
        stall_or_fail("no-progress", "step budget exhausted:%s", d.c_str());
    }
    if (g_quiet) { g_countdown = g_chunk = 1000; return; } // later
    if (g_rest > 0) {
        load_chunk();
        if (g_run_weight < 8000000) return;
        // fairness: a thread which ran for very long makes room
        g_run_weight = 0;
        if (g_sched.strategy == 2) g_cur->prio = g_pct_low--;
        if (device_pending()) device_step();
        int start = g_cur->id;
        for (int k = 1; k < g_nthr; k++) {
            Thr& t = g_thr[(start + k) % g_nthr];
            if (t.st == Thr::RUN) { switch_to(&t); return; }
        }
        return;
    }
    if (g_sched.strategy == 2) g_cur->prio = g_pct_low--;
    arm();
    g_p->preemptions++;
    g_p->time_ns += 1000;
    Thr* n = pick(true);
    g_p->sched_hash = seed_mix(g_p->sched_hash, (uint64_t)n->id + 17);
    if (n != g_cur) {
        SIM_LOG("preempt: thread %d -> %d", g_cur->id, n->id);
        switch_to(n);
    }
}

// a synchronisation operation: weight w, and under PCT the place where a
// higher-priority thread takes over
static inline void sync_point(int w)
{
    if (!g_active || t_self != g_cur) return;
    if (g_quiet) return;
    g_p->time_ns += 200;
    point(w);
    if (g_sched.strategy == 2 && !g_quiet) {
        Scope   s(AR_S);
        int64_t bp = INT64_MIN;
        for (int i = 0; i < g_nthr; i++)
            if (g_thr[i].st == Thr::RUN && g_thr[i].prio > bp) bp = g_thr[i].prio;
        if (bp > g_cur->prio || (device_pending() && g_dev_prio > g_cur->prio)) {
            Thr* n = pick(true);
            if (n != g_cur) switch_to(n);
        }
    }
}
void sched_point(int w, uintptr_t) { sync_point(w); }

static const int W_SYNC = 60;

bool block_on(const void* addr, const char* kind, int64_t deadline)
{
    Thr* me = g_cur;
    if (!g_active) abort();
    Scope s(AR_S);
    me->waddr = addr;
    me->wkind = kind;
    me->deadline = deadline;
    me->timed_out = false;
    me->st = Thr::BLOCK;
    Thr* n = pick(false);
    g_p->sched_hash = seed_mix(g_p->sched_hash, (uint64_t)n->id + 101);
    if (n != me) {
        SIM_LOG("block: thread %d in %s -> thread %d", me->id, kind, n->id);
        switch_to(n);
    }
    me->waddr = nullptr;
    me->deadline = -1;
    return !me->timed_out;
}
void wake_all(const void* addr)
{
    for (int i = 0; i < g_nthr; i++)
        if (g_thr[i].st == Thr::BLOCK && g_thr[i].waddr == addr) { g_thr[i].st = Thr::RUN; g_thr[i].timed_out = false; }
}
void wake_one(const void* addr)
{
    int w[MAXT], n = 0;
    for (int i = 0; i < g_nthr; i++)
        if (g_thr[i].st == Thr::BLOCK && g_thr[i].waddr == addr) w[n++] = i;
    if (!n) return;
    Thr& t      = g_thr[w[draw(T_BLOCK, n)]];
    t.st        = Thr::RUN;
    t.timed_out = false;
}

void quiet_begin() { g_quiet++; }
void quiet_end() { g_quiet--; }

// ------------------------------------------------------------ crash points
uint64_t io_events() { return g_io_events; }
void arm_crash(Crash c, uint64_t n) { g_crash_kind = c; g_crash_at = g_io_events + n; }
void disarm_crash() { g_crash_at = 0; }
[[noreturn]] void crash_now(Crash c)
{
    Scope s(AR_S);
    fault_fired(c == CRASH_POWER ? "power_loss" : "process_crash");
    vfs_at_crash(c);
    _exit(c == CRASH_POWER ? 67 : 68);
}
void event_io()
{
    if (!g_active || g_quiet) return;
    g_io_events++;
    note_progress();
    if (g_crash_at && g_io_events >= g_crash_at) crash_now(g_crash_kind);
}

// RocksDB may hang for good after an I/O error (in its own threads, holding its
// own locks). The scenario says when that may be so; the process is then killed.
bool g_stall_is_crash = false;
[[noreturn]] void stall_or_fail(const char* cls, const char* f, const char* a)
{
    if (g_stall_is_crash && g_p) {
        SIM_LOG("stalled: the process is killed");
        probe("stalled_and_killed");
        crash_now(CRASH_PROCESS);
    }
    fail(cls, f, a);
}

// ------------------------------------------------------------ start
void draw_sched_cfg(bool mem)
{
    SchedCfg& c = g_sched;
    uint64_t  k = draw(T_WORK, 10);
    c.mem_preempt = mem && draw(T_WORK, 3) != 0;
    static const uint64_t means[] = {60, 200, 600, 2000, 8000, 40000};
    c.mean = means[draw(T_WORK, 6)];
    if (k == 0) c.strategy = 0;
    else if (k <= 6) c.strategy = 1;
    else c.strategy = 2;
    c.pct_depth = 1 + (int)draw(T_WORK, 5);
    static const uint64_t st[] = {500, 3000, 15000, 60000};
    c.pct_steps = st[draw(T_WORK, 4)];
    c.spurious  = draw(T_WORK, 4) == 0;
    c.early_time = draw(T_WORK, 4) == 0;
}

extern int g_mem_weight;

const char* (*g_known_rocksdb)() = nullptr;
static void on_signal(int sig, siginfo_t* si, void* uc)
{
    // the app crashed: a violation in itself
    static std::atomic_flag once = ATOMIC_FLAG_INIT;
    if (once.test_and_set()) _exit(99);
    g_arena = AR_S;
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : "SIGILL";
    (void)si;
    Dl_info     i;
    const char* f = g_known_rocksdb ? g_known_rocksdb() : nullptr;
    void*       pc = reinterpret_cast<void*>(static_cast<ucontext_t*>(uc)->uc_mcontext.gregs[REG_RIP]);
    if (f && dladdr(pc, &i) && i.dli_fname && strstr(i.dli_fname, ".so")) fail_known(f, "crash", "RocksDB died of %s", n);
    fail("crash", "the process died of %s", n);
}
static void on_terminate()
{
    g_arena = AR_S;
    std::string what = "no exception";
    if (std::type_info* t = abi::__cxa_current_exception_type()) {
        what = t->name();
        try { throw; } catch (std::exception& e) { what += ": "; what += e.what(); } catch (...) {}
    }
    fail("terminate", "std::terminate called (%s)", what.c_str());
}

void sched_start_incarnation()
{
    static char altstack[65536];
    stack_t     ss{};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof(altstack);
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags     = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);

    g_nthr = 1;
    Thr& t = g_thr[0];
    t.id = 0; t.st = Thr::RUN; t.real = pthread_self(); t.go = 0; t.deadline = -1;
    t.waddr = nullptr; t.prio = 500; strcpy(t.name, "main");
    t_self = &t;
    set_cur(&t);
    g_pct_low  = 5;
    g_pct_left = g_sched.pct_depth;
    g_quiet    = 0;
    g_io_events = 0;
    g_crash_at = 0;
    g_active   = true;
    g_mem_weight = g_sched.mem_preempt ? 1 : 0;
    if (!g_step_budget) g_step_budget = 1000000000ULL;
    {
        Scope s(AR_S);
        if (g_sched.strategy == 2) t.prio = 10 + (int64_t)draw(T_SCHED, 1000);
        arm();
    }
}

// ------------------------------------------------------------ trampoline
static void finish_thread(Thr* t)
{
    // the baton is still ours
    int oa = g_arena; (void)oa;
    g_arena = AR_S;
    t->st = Thr::DONE;
    wake_all(t);
    g_reap = true;
    SIM_LOG("thread %d ends", t->id);
    Thr* n = pick(false);
    g_p->sched_hash = seed_mix(g_p->sched_hash, (uint64_t)n->id + 307);
    switch_to(n);
}
static void thread_exit_dtor(void* p)
{
    Thr* t = static_cast<Thr*>(p);
    if (t->dtor_iter++ < 3) { r_setspecific(g_exit_key, t); return; }
    finish_thread(t);
}
static void* trampoline(void* a)
{
    Thr* t = static_cast<Thr*>(a);
    t_self = t;
    wait_baton(t);
    g_arena = AR_A;
    g_quiet = 0;
    reap();
    r_setspecific(g_exit_key, t);
    t->ret = t->fn(t->arg);
    return t->ret;
}

// ------------------------------------------------------------ failing
static std::set<std::string>* g_known = nullptr;
void set_known_findings(const std::set<std::string>& s) { g_known = new std::set<std::string>(s); }
void g_crash_pc_note() {}

void trace(const char* fmt, ...)
{
    if (!g_p || !g_p->tracing) return;
    Scope s(AR_S);
    char b[512];
    int  n = snprintf(b, sizeof(b), "%.6fms t%d: ", (double)g_p->time_ns / 1e6, g_cur ? g_cur->id : 0);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b + n, sizeof(b) - n, fmt, ap);
    va_end(ap);
    if (g_p->log.size() < 60000) g_p->log.push_back(b);
}

void finish_result(int status, const char* cls, const char* msg, const char* finding)
{
    Result* r = g_result;
    g_active = false;
    g_arena = AR_S;
    strncpy(r->cls, cls, sizeof(r->cls) - 1);
    strncpy(r->msg, msg, sizeof(r->msg) - 1);
    strncpy(r->finding, finding, sizeof(r->finding) - 1);
    r->hash = g_p->hash; r->sched_hash = g_p->sched_hash; r->steps = g_p->steps;
    r->preemptions = g_p->preemptions; r->switches = g_p->switches;
    r->truncated = g_p->truncated; r->time_ns = g_p->time_ns; r->trivial = g_p->trivial; r->incarnations = g_p->incarnations;
    uint64_t off = 0; // bytes in data
    size_t   cap = g_result_size - sizeof(Result);
    for (int t = 0; t < T_NUM; t++) {
        auto&    v = g_p->rec[t];
        uint64_t n = v.size();
        if (off + n * 8 > cap) { n = (cap - off) / 8; r->truncated = 1; }
        r->tape_off[t] = off / 8;
        r->tape_len[t] = n;
        memcpy(r->data + off, v.data(), n * 8);
        off += n * 8;
    }
    std::string st;
    for (auto& kv : g_p->probes) st += "p " + kv.first + " " + std::to_string(kv.second) + "\n";
    for (auto& kv : g_p->faults) st += "f " + kv.first + " " + std::to_string(kv.second) + "\n";
    r->stats_off = off;
    r->stats_len = st.size();
    if (off + st.size() < cap) { memcpy(r->data + off, st.data(), st.size()); off += st.size(); } else r->stats_len = 0;
    off = (off + 7) & ~7ULL;
    r->states_off = off / 8;
    r->states_n = 0;
    for (uint64_t x : g_p->states) {
        if (off + 8 > cap) break;
        memcpy(r->data + off, &x, 8);
        off += 8;
        r->states_n++;
    }
    r->log_off = off;
    std::string lg;
    if (g_p->tracing) for (auto& l : g_p->log) { lg += l; lg += '\n'; }
    if (off + lg.size() > cap) lg.resize(cap - off);
    memcpy(r->data + off, lg.data(), lg.size());
    r->log_len = lg.size();
    r->status  = status;
}

static void vfail(const char* finding, const char* cls, const char* fmt, va_list ap)
{
    g_arena = AR_S;
    char b[3500];
    vsnprintf(b, sizeof(b), fmt, ap);
    trace("VIOLATION %s: %s", cls, b);
    int st = 2;
    if (finding && g_known && g_known->count(finding)) st = 3;
    finish_result(st, cls, b, finding ? finding : "");
    _exit(66);
}
[[noreturn]] void fail(const char* cls, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vfail(nullptr, cls, fmt, ap);
    _exit(66);
}
[[noreturn]] void fail_known(const char* finding, const char* cls, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vfail(finding, cls, fmt, ap);
    _exit(66);
}
} // namespace sim

using namespace sim;

// ==================================================================== libc
#define MX(m) (&(m)->__data)

extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg) noexcept
{
    if (!g_active) abort();
    sync_point(W_SYNC);
    // A long run reuses the places of threads which ended and were joined.
    static int reuse = 0;
    int        slot  = g_nthr;
    if (slot >= MAXT) {
        for (int i = 0; i < MAXT && slot >= MAXT; i++) {
            reuse = reuse + 1 < MAXT ? reuse + 1 : 1;
            if (g_thr[reuse].st == Thr::DONE && g_thr[reuse].joined && g_thr[reuse].real_joined) slot = reuse;
        }
        if (slot >= MAXT) return EAGAIN;
    }
    Thr& t = g_thr[slot];
    t.id = slot;
    t.go = 0; t.st = Thr::RUN; t.waddr = nullptr; t.wkind = ""; t.deadline = -1;
    t.timed_out = false; t.fn = fn; t.arg = arg; t.ret = nullptr;
    t.detached = t.joined = t.real_joined = false; t.dtor_iter = 0; t.name[0] = 0;
    t.prio = 500;
    {
        Scope s(AR_S);
        if (g_sched.strategy == 2) t.prio = 10 + (int64_t)draw(T_SCHED, 1000);
    }
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 512 * 1024);
    int r;
    {
        Scope s(AR_D);
        r = r_create(&t.real, &at, trampoline, &t);
    }
    pthread_attr_destroy(&at);
    if (r) { if (slot < g_nthr) { t.st = Thr::DONE; t.joined = t.real_joined = true; } return r; }
    if (slot == g_nthr) g_nthr++;
    *th = t.real;
    SIM_LOG("create thread %d", t.id);
    sync_point(W_SYNC);
    return 0;
}

static Thr* find_thr(pthread_t p)
{
    for (int i = g_nthr - 1; i >= 0; i--)
        if (pthread_equal(g_thr[i].real, p) && !g_thr[i].joined) return &g_thr[i];
    return nullptr;
}

int pthread_join(pthread_t th, void** ret)
{
    if (!g_active) abort();
    sync_point(W_SYNC);
    Thr* t = find_thr(th);
    if (!t) return ESRCH;
    if (t == g_cur) return EDEADLK;
    while (t->st != Thr::DONE) block_on(t, "pthread_join");
    t->joined = true;
    if (!t->real_joined) { t->real_joined = true; r_join(t->real, nullptr); }
    if (ret) *ret = t->ret;
    sync_point(W_SYNC);
    return 0;
}
int pthread_detach(pthread_t th) noexcept
{
    Thr* t = find_thr(th);
    if (t) { t->detached = true; if (t->st == Thr::DONE) { g_reap = true; } }
    return 0;
}

// -------- mutexes
static int mutex_lock_impl(pthread_mutex_t* m, int64_t deadline, bool try_)
{
    auto* d = MX(m);
    int   me = g_active && g_cur ? g_cur->id + 1 : 1;
    if (d->__lock && d->__owner == me) {
        if ((d->__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { d->__count++; return 0; }
        if (try_) return EBUSY;
        if ((d->__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        if (!g_active) abort();
    }
    while (d->__lock) {
        if (try_) return EBUSY;
        if (!g_active) abort();
        if (!block_on(m, "mutex lock", deadline)) return ETIMEDOUT;
    }
    d->__lock  = 1;
    d->__owner = me;
    d->__count = 1;
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if (g_active) heap_check(m, sizeof(*m), true, "mutex lock");
    sync_point(W_SYNC);
    return mutex_lock_impl(m, -1, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (g_active) heap_check(m, sizeof(*m), true, "mutex trylock");
    sync_point(W_SYNC);
    return mutex_lock_impl(m, -1, true);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    auto* d = MX(m);
    if (g_active) heap_check(m, sizeof(*m), true, "mutex unlock");
    int me = g_active && g_cur ? g_cur->id + 1 : 1;
    if (g_active && (!d->__lock || d->__owner != me))
        fail("sync-misuse", "a thread unlocks a mutex it does not hold");
    if (--d->__count > 0 && (d->__kind & 3) == PTHREAD_MUTEX_RECURSIVE) return 0;
    d->__lock = 0;
    d->__owner = 0;
    d->__count = 0;
    if (g_active) {
        wake_all(m);
        sync_point(W_SYNC);
    }
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept
{
    sync_point(W_SYNC);
    return mutex_lock_impl(m, ts->tv_sec * 1000000000LL + ts->tv_nsec - EPOCH, false);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) noexcept
{
    sync_point(W_SYNC);
    int64_t d = ts->tv_sec * 1000000000LL + ts->tv_nsec;
    return mutex_lock_impl(m, c == CLOCK_REALTIME ? d - EPOCH : d, false);
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
    if (g_active && MX(m)->__lock && t_self == g_cur)
        fail("sync-misuse", "a locked mutex is destroyed");
    return 0;
}

// -------- rwlocks: __readers counts readers, __cur_writer holds writer id
#define RW(l) (&(l)->__data)
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { memset(l, 0, sizeof(*l)); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept
{
    sync_point(W_SYNC);
    while (RW(l)->__cur_writer) block_on(l, "rwlock read lock");
    RW(l)->__readers++;
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept
{
    sync_point(W_SYNC);
    if (RW(l)->__cur_writer) return EBUSY;
    RW(l)->__readers++;
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept
{
    sync_point(W_SYNC);
    while (RW(l)->__cur_writer || RW(l)->__readers) block_on(l, "rwlock write lock");
    RW(l)->__cur_writer = g_cur ? g_cur->id + 1 : 1;
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept
{
    sync_point(W_SYNC);
    if (RW(l)->__cur_writer || RW(l)->__readers) return EBUSY;
    RW(l)->__cur_writer = g_cur ? g_cur->id + 1 : 1;
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
    if (RW(l)->__cur_writer) RW(l)->__cur_writer = 0;
    else if (RW(l)->__readers) RW(l)->__readers--;
    if (g_active) {
        wake_all(l);
        sync_point(W_SYNC);
    }
    return 0;
}

// -------- condition variables
static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline)
{
    if (!g_active) abort();
    heap_check(c, sizeof(*c), true, "condition wait");
    sync_point(W_SYNC);
    auto* d = MX(m);
    if (!d->__lock || d->__owner != g_cur->id + 1)
        fail("sync-misuse", "condition wait without holding the mutex");
    unsigned cnt = d->__count;
    bool     ok = true;
    // release and block are one step
    d->__lock = 0; d->__owner = 0; d->__count = 0;
    wake_all(m);
    bool spurious = g_sched.spurious && !g_quiet && chance(T_FAULT, 200, 10000);
    if (spurious) {
        fault_fired("spurious_wakeup");
        sched_point(W_SYNC * 4);
    } else
        ok = block_on(c, "condition wait", deadline);
    while (d->__lock) block_on(m, "mutex lock");
    d->__lock = 1; d->__owner = g_cur->id + 1; d->__count = cnt;
    sync_point(W_SYNC);
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept
{
    memset(c, 0, sizeof(*c));
    int clk = 0;
    if (a) { clockid_t id = CLOCK_REALTIME; pthread_condattr_getclock(a, &id); clk = id == CLOCK_MONOTONIC; }
    c->__data.__g_size[0] = clk; // our own use of the memory
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
    if (g_active && t_self == g_cur)
        for (int i = 0; i < g_nthr; i++)
            if (g_thr[i].st == Thr::BLOCK && g_thr[i].waddr == c)
                fail("sync-misuse", "a condition variable is destroyed while a thread waits on it");
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait_impl(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    int64_t d = ts->tv_sec * 1000000000LL + ts->tv_nsec;
    return cond_wait_impl(c, m, c->__data.__g_size[0] ? d : d - EPOCH);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts)
{
    int64_t d = ts->tv_sec * 1000000000LL + ts->tv_nsec;
    return cond_wait_impl(c, m, clk == CLOCK_REALTIME ? d - EPOCH : d);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    if (!g_active) return 0;
    heap_check(c, sizeof(*c), true, "condition notify");
    sync_point(W_SYNC);
    { Scope s(AR_S); wake_one(c); }
    sync_point(W_SYNC);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    if (!g_active) return 0;
    heap_check(c, sizeof(*c), true, "condition notify");
    sync_point(W_SYNC);
    wake_all(c);
    sync_point(W_SYNC);
    return 0;
}

// -------- once, static initialisers
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    volatile int* p = reinterpret_cast<volatile int*>(o);
    if (g_active) sync_point(W_SYNC);
    for (;;) {
        if (*p == 2) return 0;
        if (*p == 0) break;
        if (!g_active) abort();
        block_on(const_cast<int*>(p), "once");
    }
    *p = 1;
    try {
        fn();
    } catch (...) {
        *p = 0;
        if (g_active) wake_all(const_cast<int*>(p));
        throw;
    }
    *p = 2;
    if (g_active) wake_all(const_cast<int*>(p));
    return 0;
}

int __cxa_guard_acquire(uint64_t* g)
{
    volatile char* b = reinterpret_cast<volatile char*>(g);
    if (b[0]) return 0;
    if (g_active) sync_point(W_SYNC);
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) break;
        if (!g_active) abort();
        block_on(g, "static initialiser");
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g)
{
    volatile char* b = reinterpret_cast<volatile char*>(g);
    b[0] = 1;
    b[1] = 0;
    if (g_active) { wake_all(g); sync_point(W_SYNC); }
}
void __cxa_guard_abort(uint64_t* g)
{
    volatile char* b = reinterpret_cast<volatile char*>(g);
    b[1] = 0;
    if (g_active) wake_all(g);
}

// -------- semaphores
int sem_init(sem_t* s, int, unsigned v) noexcept { memset(s, 0, sizeof(*s)); *reinterpret_cast<unsigned*>(s) = v; return 0; }
int sem_destroy(sem_t*) noexcept { return 0; }
int sem_post(sem_t* s) noexcept { (*reinterpret_cast<unsigned*>(s))++; if (g_active) { wake_all(s); sync_point(W_SYNC); } return 0; }
int sem_wait(sem_t* s)
{
    sync_point(W_SYNC);
    unsigned* v = reinterpret_cast<unsigned*>(s);
    while (*v == 0) block_on(s, "semaphore");
    --*v;
    return 0;
}
int sem_trywait(sem_t* s) noexcept
{
    sync_point(W_SYNC);
    unsigned* v = reinterpret_cast<unsigned*>(s);
    if (!*v) { errno = EAGAIN; return -1; }
    --*v;
    return 0;
}

// -------- time
int sched_yield() noexcept
{
    if (!g_active || t_self != g_cur) return 0;
    if (g_quiet) return 0;
    Scope s(AR_S);
    g_p->time_ns += 1000;
    if (g_sched.strategy == 2) g_cur->prio = g_pct_low--;
    Thr* n = pick(true);
    if (n != g_cur) switch_to(n);
    return 0;
}
static int64_t ts_ns(const struct timespec* t) { return t->tv_sec * 1000000000LL + t->tv_nsec; }
static void sleep_until(int64_t d)
{
    static int never;
    if (g_quiet) { if (d > g_p->time_ns) g_p->time_ns = d; return; }
    while (g_p->time_ns < d) block_on(&never, "sleep", d);
}
int nanosleep(const struct timespec* r, struct timespec* rem)
{
    if (!g_active) return 0;
    if (rem) rem->tv_sec = rem->tv_nsec = 0;
    sleep_until(g_p->time_ns + ts_ns(r));
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec*)
{
    if (!g_active) return 0;
    int64_t d = ts_ns(r);
    if (flags & TIMER_ABSTIME) { if (c == CLOCK_REALTIME) d -= EPOCH; }
    else d += g_p->time_ns;
    sleep_until(d);
    return 0;
}
int usleep(useconds_t u) { if (g_active) sleep_until(g_p->time_ns + (int64_t)u * 1000); return 0; }
unsigned sleep(unsigned s) { if (g_active) sleep_until(g_p->time_ns + (int64_t)s * 1000000000LL); return 0; }
int clock_gettime(clockid_t c, struct timespec* ts) noexcept
{
    if (!g_p) return (int)syscall(SYS_clock_gettime, c, ts);
    int64_t t = g_p->time_ns + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? EPOCH : 0);
    ts->tv_sec = t / 1000000000LL;
    ts->tv_nsec = t % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int   sched_getcpu() noexcept { return g_active && g_cur ? g_cur->id % 8 : 0; }
pid_t getpid() noexcept { return g_p ? 4242 : (pid_t)syscall(SYS_getpid); }
// A failed assertion inside RocksDB after an injected fault is RocksDB giving
// up: for the code under test, its process is killed at this point.
void __assert_fail(const char* expr, const char* file, unsigned line, const char* fn) noexcept
{
    Dl_info i;
    if (const char* f = g_active && g_p && g_known_rocksdb ? g_known_rocksdb() : nullptr)
        if (dladdr(__builtin_return_address(0), &i) && i.dli_fname && strstr(i.dli_fname, "librocksdb"))
            fail_known(f, "assertion", "%s:%u: %s failed", file, line, expr);
    if (g_active && g_p && fault_count() && dladdr(__builtin_return_address(0), &i) && i.dli_fname && strstr(i.dli_fname, "librocksdb")) {
        SIM_LOG("RocksDB gives up: %s:%u: %s", file, line, expr);
        probe("rocksdb_assertion");
        crash_now(CRASH_PROCESS);
    }
    fail("assertion", "%s:%u: %s: assertion %s failed", file, line, fn, expr);
}
pid_t gettid() noexcept { return g_active && g_cur ? 4242 + g_cur->id : (pid_t)syscall(SYS_gettid); }
int   sched_setscheduler(pid_t, int, const struct sched_param*) noexcept { return 0; }
int   setpriority(__priority_which_t, id_t, int) noexcept { return 0; }
} // extern "C"

// -------- std::future's futex, std::thread::hardware_concurrency, random_device
namespace simx {
static bool futex_wait(unsigned* addr, unsigned val, bool has_timeout, int64_t deadline)
{
    sync_point(W_SYNC);
    if (*reinterpret_cast<volatile unsigned*>(addr) != val) return true;
    return block_on(addr, "future wait", has_timeout ? deadline : -1);
}
}
extern "C" {
// std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned*, unsigned, bool, seconds, nanoseconds)
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* a, unsigned v, bool t, int64_t s, int64_t ns)
{
    return simx::futex_wait(a, v, t, s * 1000000000LL + ns - EPOCH);
}
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* a, unsigned v, bool t, int64_t s, int64_t ns)
{
    return simx::futex_wait(a, v, t, s * 1000000000LL + ns);
}
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned* a)
{
    if (!g_active) return;
    wake_all(a);
    sync_point(W_SYNC);
}
unsigned _ZNSt6thread20hardware_concurrencyEv() { return g_hw_concurrency; }
unsigned _ZNSt13random_device9_M_getvalEv(void*)
{
    static uint64_t c = 12345;
    c = seed_mix(c, 77);
    return (unsigned)c;
}
// random bytes: never the same twice, not even after a restart of the process
ssize_t getrandom(void* b, size_t n, unsigned flags) noexcept
{
    if (!g_active) return syscall(SYS_getrandom, b, n, flags);
    uint8_t* o = (uint8_t*)b;
    if (!g_p->random_seed) g_p->random_seed = 1 + draw(T_WORK, 1 << 20);
    for (size_t i = 0; i < n;) {
        uint64_t w = seed_mix(g_p->random_seed, ++g_p->random_calls);
        size_t   k = n - i < 8 ? n - i : 8;
        memcpy(o + i, &w, k);
        i += k;
    }
    return (ssize_t)n;
}
int getentropy(void* b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
int get_nprocs() noexcept { return (int)g_hw_concurrency; }
}
