// Deterministic simulator: public interface used by the scenarios.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- heap
// Three arenas. D: the driver. A: the simulated process (checked, private to
// one incarnation). S: the simulator itself, shared by all the incarnations of
// one run (MAP_SHARED), so that what it holds survives a simulated crash.
enum ArenaId { AR_D = 0, AR_A = 1, AR_S = 2 };
extern int g_arena;
struct Scope
{ // allocations made in this scope belong to arena `a`
    int old;
    explicit Scope(int a = AR_S) : old(g_arena) { g_arena = a; }
    ~Scope() { g_arena = old; }
    Scope(const Scope&) = delete;
};
void heap_begin_run();         // fresh S arena (after fork, before the run)
void heap_check(const void* p, size_t n, bool write, const char* what);
size_t heap_live_bytes();      // arena A
size_t heap_live_blocks();
extern const uintptr_t A_BASE, A_SIZE;
extern uint8_t* g_shadow;
[[noreturn]] void heap_report(const void* p, size_t n, bool write, const char* what);
const char* heap_describe(const void* p, char* buf, size_t n);

// ---------------------------------------------------------------- choices
// Everything that is not determined by the code under test is a draw from one
// of these tapes. A fresh run fills them from one seeded PRNG; a replay reads
// them from the replay file, and past their end every draw is 0, the mildest
// choice.
enum Tape { T_WORK = 0, T_SCHED, T_BLOCK, T_FAULT, T_CRASH, T_NUM };
uint64_t draw(Tape t, uint64_t n);                // uniform in [0, n)
bool     chance(Tape t, uint32_t num, uint32_t den);  // true num/den of the time
inline uint64_t work(uint64_t n) { return draw(T_WORK, n); }
inline uint64_t work_in(uint64_t lo, uint64_t hi) { return lo + draw(T_WORK, hi - lo + 1); }

// ---------------------------------------------------------------- reporting
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// A violation that the known-findings file may list, under `finding`.
// Listed: noted and the run ends quietly. Not listed: as fail().
// The known finding that a crash inside RocksDB is put down to, if any
extern const char* (*g_known_rocksdb)();
[[noreturn]] void fail_known(const char* finding, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void mix(uint64_t v);           // adds to the hash of this execution
void mix_state(uint64_t v);     // marks a (hashed) state as reached
void probe(const char* name, uint64_t n = 1);  // "this happened" counter
void fault_fired(const char* kind);
uint64_t fault_count(const char* prefix = ""); // faults injected so far in this run
uint64_t probe_count(const char* name);
void progress();                // the workload moved on (liveness bound)
void nontrivial();              // this run did what the rule asks for
bool tracing();

// ---------------------------------------------------------------- time, threads
int64_t now();                  // simulated ns since start
extern unsigned g_hw_concurrency; // what the program is told
int     thread_id();
int     live_threads();         // created by the app and not finished
void    sched_point(int weight, uintptr_t id = 0);  // a place where a switch may happen
void    quiet_begin();          // no preemption or faults inside (oracle code)
void    quiet_end();
struct Quiet { Quiet() { quiet_begin(); } ~Quiet() { quiet_end(); } };
void    name_thread(const char* n);
// blocking for simulator components (gRPC, AIO)
bool    block_on(const void* addr, const char* kind, int64_t deadline = -1);
void    wake_all(const void* addr);
void    wake_one(const void* addr);

struct SchedCfg
{
    int      strategy   = 1;    // 0 none, 1 random, 2 PCT
    uint64_t mean       = 1000; // mean weighted distance between preemptions
    int      pct_depth  = 3;
    uint64_t pct_steps  = 20000;
    bool     spurious   = false; // spurious condition-variable wake-ups
    bool     early_time = false; // timers may fire while threads are runnable
    bool     mem_preempt = true;
};
extern SchedCfg g_sched;
void draw_sched_cfg(bool mem_preempt = true);  // seeded swarm choice of the above

// ---------------------------------------------------------------- files
namespace vfs {
enum { F_READ_EIO, F_READ_SHORT, F_WRITE_EIO, F_WRITE_SHORT, F_WRITE_NOSPC, F_WRITE_EINTR,
       F_READ_EINTR, F_OPEN, F_FSYNC, F_META, F_STAT, F_READDIR, F_CORRUPT, F_NUM };
struct FaultCfg
{
    uint32_t p[F_NUM] = {0};    // probability out of 10000, per operation
    uint32_t max_faults = 1000000;
    const char* only_path = nullptr;  // substring of the path
    bool     enabled = true;
    uint32_t uring_dummy = 0;
};
void     set_faults(const FaultCfg& c);
void     clear_faults();
uint64_t faults_fired();
// direct (fault free, unscheduled) access for oracles
bool     exists(const std::string& path);
bool     is_dir(const std::string& path);
bool     is_link(const std::string& path);
int      kind(const std::string& path);   // links followed: 0 nothing, 1 file, 2 directory, 3 special
bool     read_file(const std::string& path, std::string& out);
void     write_file(const std::string& path, const std::string& data, bool durable = true);
void     harden(const std::string& path);        // all below it reaches the disk now
void     survives(const std::string& path);      // it is on a machine which loses no power
void     make_dir(const std::string& path, bool durable = true);
void     make_symlink(const std::string& target, const std::string& path);
void     make_fifo(const std::string& path);
void     make_mount(const std::string& path);   // a directory with another file system on it
void     set_cwd(const std::string& path);      // of this process; relative paths are simulated then
void     make_hardlink(const std::string& from, const std::string& to);
void     set_perm_fail(const std::string& path, int err);  // removing/reading it fails
std::vector<std::string> list_tree(const std::string& path);  // all paths below
void     sync_all();            // everything durable
int      open_fds();
bool     fd_valid(int fd);
}

// AIO
namespace aio {
struct Cfg
{
    uint32_t p_partial = 0;   // out of 10000, per io_submit
    uint32_t p_eintr   = 0;   // per io_getevents
    uint32_t p_eio = 0, p_short = 0;     // per request
    uint32_t p_submit_fail = 0;          // io_submit fails with EIO-like error
    uint32_t p_setup_fail = 0;
    unsigned depth_cap = 0;   // 0: the requested queue size
    bool     reorder   = true;
    uint32_t max_faults = 1000000;
    uint32_t hold = 0;
};
extern Cfg cfg;
uint64_t inflight();
}

extern bool g_stall_is_crash;     // a hang kills the process instead of being a violation

// Allocation failure
extern uint32_t g_alloc_fail_p;   // per posix_memalign, out of 10000

// ---------------------------------------------------------------- crashes
enum Crash { CRASH_NONE = 0, CRASH_PROCESS = 1, CRASH_POWER = 2 };
// Runs `body` as one incarnation of the simulated process. Returns how it
// ended. If crash != CRASH_NONE the process is killed at the `at`-th event.
struct IncResult { bool crashed; };
IncResult incarnation(const std::function<void()>& body, Crash crash = CRASH_NONE, uint64_t at = 0);
// Kills this incarnation at once (from inside).
[[noreturn]] void crash_now(Crash c);
uint64_t io_events();           // events counted so far in this incarnation
void arm_crash(Crash c, uint64_t events_from_now);
void disarm_crash();

// ---------------------------------------------------------------- scenarios
struct Scenario
{
    const char* property;
    const char* name;
    void (*run)();              // executed in the run's controller process
    bool     single;            // true: run() itself is the only incarnation
    uint32_t quick_runs, thorough_runs;
    const char* rule;           // how cases are made, what is non-trivial
};
void register_scenario(const Scenario& s);
struct Reg { Reg(const Scenario& s) { register_scenario(s); } };

// Components that ran for real or as stubs, per property (evidence)
void declare(const char* property, const char* real, const char* stub);
struct Decl { Decl(const char* p, const char* r, const char* s) { declare(p, r, s); } };

// Persistent storage for a scenario's model, alive across incarnations: built
// in arena S.
template<class T, class... Args> T* make_shared_state(Args&&... a)
{
    Scope s(AR_S);
    return new T(std::forward<Args>(a)...);
}
bool thorough();

} // namespace sim
