// Simulator internals shared between its parts.
#pragma once
#include "sim.h"
#include <ctime>
#include <string>
#include <sys/types.h>
#include <unordered_map>
#include <vector>

namespace sim {

struct VfsState; // vfs.cpp

// Lives in arena S: survives the incarnations of one run.
struct Persist
{
    // tapes
    std::vector<uint64_t> rec[T_NUM];     // what was drawn
    std::vector<uint64_t> replay[T_NUM];  // what to draw (replay mode)
    size_t                pos[T_NUM] = {0};
    bool                  is_replay = false;
    bool                  truncated = false; // the tapes are not complete
    uint64_t              rng[T_NUM][4];
    // accounting
    uint64_t hash = 1469598103934665603ULL;
    uint64_t sched_hash = 0;
    uint64_t steps = 0, preemptions = 0, switches = 0;
    int64_t  time_ns = 0;
    bool     trivial = true;
    std::map<std::string, uint64_t> probes, faults;
    std::set<uint64_t> states;
    std::vector<std::string> log;
    bool     tracing = false;
    VfsState* vfs = nullptr;
    int      incarnations = 0;
    bool     thorough = false;
    uint64_t random_calls = 0, random_seed = 0;
};
static const size_t TAPE_LIMIT = 1000000;
static const int    CPU_LIMIT = 30; // seconds, of one incarnation
extern Persist* g_p;

// result region shared with the worker
struct Result
{
    int      status; // 0 not finished, 1 ok, 2 violation, 3 known finding, 4 internal error
    char     cls[96];
    char     finding[96];
    char     msg[4096];
    uint64_t hash, sched_hash, steps, preemptions, switches;
    int64_t  time_ns;
    int      trivial;
    int      truncated;
    int      incarnations;
    uint64_t tape_len[T_NUM];
    uint64_t tape_off[T_NUM]; // in data, as uint64 index
    uint64_t stats_off, stats_len; // text: "p name count\n" / "f name count\n"
    uint64_t states_off, states_n;
    uint64_t log_off, log_len;
    uint64_t used;
    char     data[];
};
extern Result* g_result;
extern size_t  g_result_size;
void finish_result(int status, const char* cls, const char* msg, const char* finding = "");

// scheduler
bool sim_active();                 // an incarnation is running
extern bool g_active;
extern int  g_quiet;
void sched_start_incarnation();    // calling thread becomes thread 0
void event_io();                   // counts an I/O event; may crash here
extern long g_countdown;           // weighted points until the next preemption
void point_slow();
inline void point(int w)
{
    if ((g_countdown -= w) <= 0) point_slow();
}
int64_t next_device_event();
bool    device_pending();
void    device_step();             // completes one request
void    note_progress();
void    step_budget(uint64_t n);
void    vfs_boot(bool power_loss); // start of a new incarnation
void    vfs_init();
void    g_crash_pc_note();
void    vfs_at_crash(int kind);
void    aio_reset();
uint64_t seed_mix(uint64_t a, uint64_t b);

// raw system calls (never interposed)
ssize_t syscall_write(int fd, const void* b, size_t n);
void*   mmap_real(void* a, size_t n, int prot, int flags, int fd, long off);
void    set_known_findings(const std::set<std::string>& s);

#define SIM_LOG(...) do { if (::sim::g_p && ::sim::g_p->tracing) ::sim::trace(__VA_ARGS__); } while (0)
[[noreturn]] void stall_or_fail(const char* cls, const char* f, const char* a);
} // namespace sim
