// Runs scenarios over many seeds in parallel processes, minimises and replays
// violations, writes the evidence file.
#include "internal.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
static const uint32_t QUICK = 2; // the quick budgets written in the scenarios are multiplied by this
struct DeclRec { std::string real, stub; };
static std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
static std::map<std::string, DeclRec>& decls() { static std::map<std::string, DeclRec> m; return m; }
void register_scenario(const Scenario& s) { scenarios().push_back(s); }
void declare(const char* p, const char* r, const char* s) { decls()[p] = {r, s}; }

typedef std::vector<std::vector<uint64_t>> Tapes;
static const char* TN[T_NUM] = {"work", "sched", "block", "fault", "crash"};

struct Outcome
{
    int         status = 4;
    std::string cls, msg, finding, log, stats;
    uint64_t    hash = 0, sched_hash = 0, steps = 0, preemptions = 0, switches = 0;
    int64_t     time_ns = 0;
    uint64_t    wall_ms = 0;
    bool        trivial = true, truncated = false;
    int         incarnations = 0;
    Tapes       tapes;
    std::vector<uint64_t> states;
};

static bool g_single_done = false, g_single = false;

static double wall()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}

static void hung()
{
    Result* r = g_result;
    strcpy(r->cls, "hang");
    snprintf(r->msg, sizeof(r->msg), "no end: %d seconds of processor time without a scheduling decision which ends the run", CPU_LIMIT);
    r->truncated = 1;
    r->status = 2;
}

IncResult incarnation(const std::function<void()>& body, Crash crash, uint64_t at)
{
    IncResult r{false};
    g_p->incarnations++;
    if (g_single) {
        if (g_single_done) { finish_result(4, "internal", "two incarnations in a single-incarnation scenario"); _exit(66); }
        g_single_done = true;
        vfs_boot(false);
        sched_start_incarnation();
        g_arena = AR_A;
        body();
        quiet_begin();
        g_arena = AR_S;
        return r;
    }
    SIM_LOG("=== incarnation %d starts", g_p->incarnations);
    pid_t pid = fork();
    if (pid < 0) { finish_result(4, "internal", "fork failed"); _exit(66); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        vfs_boot(false);
        sched_start_incarnation();
        if (crash != CRASH_NONE) arm_crash(crash, at);
        g_arena = AR_A;
        body();
        g_arena = AR_S;
        disarm_crash();
        g_active = false;
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st)) {
        int c = WEXITSTATUS(st);
        if (c == 0) return r;
        if (c == 67 || c == 68) { SIM_LOG("=== incarnation %d killed (%s)", g_p->incarnations, c == 67 ? "power loss" : "process crash"); r.crashed = true; return r; }
        if (c == 66) _exit(66);
        finish_result(4, "internal", ("incarnation exited with " + std::to_string(c)).c_str());
        _exit(66);
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { // it may have held anything: touch nothing else
        hung();
        _exit(66);
    }
    finish_result(4, "internal", ("incarnation killed by signal " + std::to_string(WTERMSIG(st))).c_str());
    _exit(66);
}

static Outcome run_once(const Scenario& sc, uint64_t seed, const Tapes* replay, bool tracing, bool thorough)
{
    Result* r = g_result;
    memset(r, 0, sizeof(Result));
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        // never outlive a wedged simulation
        struct rlimit rl{CPU_LIMIT, CPU_LIMIT + 5};
        setrlimit(RLIMIT_CPU, &rl);
        alarm(600);
        int dn = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
        if (!getenv("SIM_SHOW_OUTPUT")) {
            syscall(SYS_dup3, dn, 1, 0);
            syscall(SYS_dup3, dn, 2, 0);
        }
        heap_begin_run();
        g_arena = AR_S;
        g_p     = new Persist();
        g_p->thorough = thorough;
        g_p->tracing = tracing;
        for (int t = 0; t < T_NUM; t++) {
            uint64_t z = seed_mix(seed, t + 1);
            for (int k = 0; k < 4; k++) { z = seed_mix(z, k + 11); g_p->rng[t][k] = z; }
            if (replay) g_p->replay[t] = (*replay)[t];
        }
        g_p->is_replay = replay != nullptr;
        vfs_init();
        g_single = sc.single;
        sc.run();
        finish_result(1, "", "");
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (r->status == 0 && WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) hung();
    Outcome o;
    o.status = r->status;
    o.truncated = r->truncated;
    o.cls = r->cls; o.msg = r->msg; o.finding = r->finding;
    if (r->status == 0) {
        o.status = 4;
        o.cls = "internal";
        o.msg = WIFSIGNALED(st) ? "run killed by signal " + std::to_string(WTERMSIG(st)) : "run exited with " + std::to_string(WEXITSTATUS(st));
        return o;
    }
    o.hash = r->hash; o.sched_hash = r->sched_hash; o.steps = r->steps; o.preemptions = r->preemptions;
    o.switches = r->switches; o.time_ns = r->time_ns; o.trivial = r->trivial; o.incarnations = r->incarnations;
    o.tapes.resize(T_NUM);
    for (int t = 0; t < T_NUM; t++) {
        uint64_t* d = reinterpret_cast<uint64_t*>(r->data) + r->tape_off[t];
        o.tapes[t].assign(d, d + r->tape_len[t]);
    }
    o.stats.assign(r->data + r->stats_off, r->stats_len);
    uint64_t* sd = reinterpret_cast<uint64_t*>(r->data) + r->states_off;
    o.states.assign(sd, sd + r->states_n);
    o.log.assign(r->data + r->log_off, r->log_len);
    return o;
}

// ---------------------------------------------------------------- minimiser
static void trim(Tapes& t) { for (auto& v : t) while (!v.empty() && v.back() == 0) v.pop_back(); }
static uint64_t cost(const Tapes& t)
{
    uint64_t c = 0;
    for (auto& v : t) for (auto x : v) c += x ? 4 + (64 - __builtin_clzll(x)) : 1;
    return c;
}
static Tapes minimise(const Scenario& sc, const Tapes& start, const std::string& cls, bool th, double budget, unsigned& evals)
{
    Tapes  best = start;
    trim(best);
    double end = wall() + budget;
    auto   try_ = [&](Tapes c) {
        if (wall() > end || evals > 3000) return false;
        trim(c);
        if (c == best) return false;
        evals++;
        Outcome o = run_once(sc, 0, &c, false, th);
        if ((o.status == 2 || o.status == 3) && o.cls == cls) {
            // keep what the run really drew
            Tapes d = o.tapes;
            trim(d);
            if (cost(d) <= cost(c)) c = d;
            if (cost(c) < cost(best)) { best = c; return true; }
        }
        return false;
    };
    bool changed = true;
    int  rounds = 0;
    while (changed && wall() < end && rounds++ < 6) {
        uint64_t before = cost(best);
        static const int order[] = {T_SCHED, T_FAULT, T_CRASH, T_BLOCK, T_WORK};
        for (int t : order) { Tapes c = best; c[t].clear(); try_(c); }
        for (int t : order) { // truncation
            size_t lo = 0;
            for (int k = 0; k < 12 && lo < best[t].size(); k++) {
                Tapes c = best;
                size_t cut = (lo + best[t].size()) / 2;
                c[t].resize(cut);
                if (!try_(c)) { if (lo == cut) break; lo = cut; }
            }
        }
        for (int t : order) { // remove and zero blocks
            for (size_t bs = best[t].size() / 2; bs >= 1; bs /= 2) {
                for (size_t i = 0; i < best[t].size();) {
                    if (wall() > end) break;
                    Tapes c = best;
                    size_t e = std::min(i + bs, c[t].size());
                    bool any = false;
                    for (size_t k = i; k < e; k++) any |= c[t][k] != 0;
                    if (any) {
                        if (t == T_SCHED && bs == 1 && i + 1 < c[t].size()) {
                            // merge two preemption distances into one
                            Tapes d = c;
                            d[t][i + 1] += d[t][i];
                            d[t].erase(d[t].begin() + i);
                            if (try_(d)) continue;
                        }
                        Tapes z = c;
                        for (size_t k = i; k < e; k++) z[t][k] = 0;
                        if (try_(z)) { i += bs; continue; }
                    }
                    c[t].erase(c[t].begin() + i, c[t].begin() + e);
                    if (try_(c)) continue;
                    i += bs;
                }
                if (best[t].size() > 3000 && bs < 8) break;
            }
        }
        for (size_t i = 0; i < best[T_WORK].size(); i++) // smaller arguments
            for (int k = 0; k < 4 && best[T_WORK].size() > i && best[T_WORK][i] > 0; k++) {
                Tapes c = best;
                c[T_WORK][i] = k == 0 ? 0 : c[T_WORK][i] / 2;
                if (!try_(c)) { c = best; c[T_WORK][i]--; if (!try_(c)) break; }
            }
        changed = cost(best) < before;
    }
    return best;
}

// ---------------------------------------------------------------- replay files
static std::string tape_str(const std::vector<uint64_t>& v)
{
    std::string s;
    for (size_t i = 0; i < v.size();) {
        size_t j = i;
        while (j < v.size() && v[j] == v[i]) j++;
        s += " " + std::to_string(v[i]);
        if (j - i > 1) s += "x" + std::to_string(j - i);
        i = j;
    }
    return s;
}
static void write_replay(const std::string& path, const Scenario& sc, uint64_t seed, uint64_t idx, const Outcome& o, const Tapes& t, bool th, const std::string& note)
{
    std::ofstream f(path);
    f << "sim-replay 1\nproperty " << sc.property << "\nscenario " << sc.name << "\nseed " << seed << "\nrun " << idx
      << "\ntier " << (th ? "thorough" : "quick") << "\nclass " << o.cls << "\nmessage " << o.msg << "\nhash " << o.hash << "\n";
    if (!note.empty()) f << "note " << note << "\n";
    if (o.truncated) f << "fromseed 1\n";
    else for (int k = 0; k < T_NUM; k++) f << "tape " << TN[k] << tape_str(t[k]) << "\n";
    f << "trace\n" << o.log;
}
struct Replay { std::string property, scenario, cls; uint64_t hash = 0, seed = 0, run = 0; bool th = false, fromseed = false; Tapes t; };
static bool read_replay(const std::string& path, Replay& r)
{
    std::ifstream f(path);
    std::string   l;
    if (!std::getline(f, l) || l != "sim-replay 1") return false;
    r.t.resize(T_NUM);
    while (std::getline(f, l)) {
        if (l == "trace") break;
        std::istringstream is(l);
        std::string        k;
        is >> k;
        if (k == "property") is >> r.property;
        else if (k == "scenario") is >> r.scenario;
        else if (k == "class") { std::getline(is, r.cls); r.cls.erase(0, 1); }
        else if (k == "hash") is >> r.hash;
        else if (k == "seed") is >> r.seed;
        else if (k == "run") is >> r.run;
        else if (k == "fromseed") is >> r.fromseed;
        else if (k == "tier") { std::string x; is >> x; r.th = x == "thorough"; }
        else if (k == "tape") {
            std::string n, x;
            is >> n;
            for (int t = 0; t < T_NUM; t++)
                if (n == TN[t])
                    while (is >> x) {
                        size_t   p = x.find('x');
                        uint64_t v = strtoull(x.c_str(), nullptr, 10), c = p == std::string::npos ? 1 : strtoull(x.c_str() + p + 1, nullptr, 10);
                        r.t[t].insert(r.t[t].end(), c, v);
                    }
        }
    }
    return true;
}

// ---------------------------------------------------------------- batch
struct Agg
{
    uint64_t runs = 0, nontrivial = 0, steps = 0, preempt = 0, switches = 0, incs = 0, known = 0, errors = 0;
    uint64_t max_steps = 0, max_ms = 0; // of one run
    double   sim_s = 0;
    std::map<std::string, uint64_t> probes, faults;
    std::set<uint64_t> hashes, scheds, states;
    std::vector<std::string> samples;
    std::string first_error;
};
struct Shared { std::atomic<int> stop; std::atomic<uint64_t> next; };

static void add(Agg& a, const Outcome& o)
{
    a.runs++;
    a.max_steps = std::max(a.max_steps, o.steps);
    a.max_ms = std::max(a.max_ms, o.wall_ms);
    a.steps += o.steps; a.preempt += o.preemptions; a.switches += o.switches; a.incs += o.incarnations;
    a.sim_s += o.time_ns / 1e9;
    if (!o.trivial) { a.nontrivial++; if (a.hashes.size() < 2000000) a.hashes.insert(o.hash); }
    if (a.scheds.size() < 2000000) a.scheds.insert(o.sched_hash);
    for (auto s : o.states) if (a.states.size() < 3000000) a.states.insert(s);
    if (o.status == 3) a.known++;
    std::istringstream is(o.stats);
    std::string        k, n;
    uint64_t           v;
    while (is >> k >> n >> v) (k == "p" ? a.probes : a.faults)[n] += v;
}
static void save(const Agg& a, const std::string& path)
{
    std::ofstream f(path);
    f << "n " << a.runs << " " << a.nontrivial << " " << a.steps << " " << a.preempt << " " << a.switches << " " << a.incs << " " << a.known << " " << a.errors << " " << a.max_steps << " " << a.max_ms << " " << a.sim_s << "\n";
    for (auto& k : a.probes) f << "p " << k.first << " " << k.second << "\n";
    for (auto& k : a.faults) f << "f " << k.first << " " << k.second << "\n";
    for (auto h : a.hashes) f << "h " << h << "\n";
    for (auto h : a.scheds) f << "s " << h << "\n";
    for (auto h : a.states) f << "t " << h << "\n";
    for (auto& s : a.samples) f << "x " << s << "\n";
    if (!a.first_error.empty()) f << "e " << a.first_error << "\n";
}
static void merge(Agg& a, const std::string& path)
{
    std::ifstream f(path);
    std::string   l;
    while (std::getline(f, l)) {
        std::istringstream is(l.substr(2));
        std::string n; uint64_t v;
        switch (l[0]) {
        case 'n': { uint64_t x[10]; double s; for (auto& y : x) is >> y; is >> s;
            a.runs += x[0]; a.nontrivial += x[1]; a.steps += x[2]; a.preempt += x[3]; a.switches += x[4]; a.incs += x[5]; a.known += x[6]; a.errors += x[7]; a.max_steps = std::max(a.max_steps, x[8]); a.max_ms = std::max(a.max_ms, x[9]); a.sim_s += s; break; }
        case 'p': is >> n >> v; a.probes[n] += v; break;
        case 'f': is >> n >> v; a.faults[n] += v; break;
        case 'h': is >> v; a.hashes.insert(v); break;
        case 's': is >> v; a.scheds.insert(v); break;
        case 't': is >> v; a.states.insert(v); break;
        case 'x': if (a.samples.size() < 12) a.samples.push_back(l.substr(2)); break;
        case 'e': if (a.first_error.empty()) a.first_error = l.substr(2); break;
        }
    }
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else if (c < 127) o += c; else o += '?';
    }
    return o + "\"";
}

struct Finding { std::string property, key, text; };
static std::vector<Finding> load_known(const std::string& path)
{
    std::vector<Finding> r;
    std::ifstream f(path);
    std::string   l;
    while (std::getline(f, l)) {
        if (l.compare(0, 14, "KNOWN-FINDING:")) continue;
        size_t p = l.find("property="), k = l.find("finding=");
        if (p == std::string::npos || k == std::string::npos) continue;
        Finding x;
        x.property = l.substr(p + 9, l.find(' ', p) - p - 9);
        size_t e = l.find(' ', k);
        x.key  = l.substr(k + 8, e - k - 8);
        x.text = e == std::string::npos ? "" : l.substr(e + 1);
        r.push_back(x);
    }
    return r;
}
static uint64_t name_hash(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (char c : s) h = (h ^ (uint8_t)c) * 1099511628211ULL; return h; }
static uint64_t run_seed(uint64_t seed, const Scenario& sc, uint64_t i) { return seed_mix(seed_mix(seed, name_hash(std::string(sc.property) + "/" + sc.name)), i); }
static const Scenario* find_sc(const std::string& prop, const std::string& name)
{
    for (auto& s : scenarios()) if (prop == s.property && name == s.name) return &s;
    return nullptr;
}
static std::string self_path()
{
    char b[4096];
    ssize_t n = syscall(SYS_readlink, "/proc/self/exe", b, sizeof(b) - 1);
    b[n > 0 ? n : 0] = 0;
    return b;
}

// the recorded execution again: from its tapes, or, where they were too long to
// keep, from its seed
static Outcome run_again(const Scenario& sc, const Replay& r, bool tracing)
{
    return r.fromseed ? run_once(sc, run_seed(r.seed, sc, r.run), nullptr, tracing, r.th) : run_once(sc, 0, &r.t, tracing, r.th);
}

static int replay_main(const std::string& file, bool trace, bool quiet)
{
    Replay r;
    if (!read_replay(file, r)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
    const Scenario* sc = find_sc(r.property, r.scenario);
    if (!sc) { fprintf(stderr, "unknown scenario %s/%s\n", r.property.c_str(), r.scenario.c_str()); return 2; }
    Outcome o = run_again(*sc, r, trace);
    if (trace) fputs(o.log.c_str(), stdout);
    bool same = (o.status == 2 || o.status == 3) && o.cls == r.cls && o.hash == r.hash;
    if (!quiet || !same)
        printf("replay: status=%d class=%s hash=%lu (expected class=%s hash=%lu)\n%s\n", o.status, o.cls.c_str(), o.hash, r.cls.c_str(), r.hash, o.msg.c_str());
    if (o.status == 2) { printf("VIOLATION property=%s replay=%s\n", r.property.c_str(), file.c_str()); }
    return same ? 1 : o.status == 1 ? 0 : 2;
}

static int worker(const Scenario& sc, uint64_t seed, uint64_t total, Shared* sh, double deadline, bool th, const std::string& base)
{
    Agg a;
    for (;;) {
        if (sh->stop.load() || wall() > deadline) break;
        uint64_t i = sh->next.fetch_add(1);
        if (i >= total) break;
        double  t_run = wall();
        Outcome o = run_once(sc, run_seed(seed, sc, i), nullptr, false, th);
        if (o.status == 4) {
            // once more: a broken harness is an error, a machine hiccup is not
            o = run_once(sc, run_seed(seed, sc, i), nullptr, false, th);
        }
        if (o.status == 4) {
            a.errors++;
            if (a.first_error.empty()) a.first_error = std::string(sc.name) + " run " + std::to_string(i) + ": " + o.msg;
            sh->stop.store(1);
            break;
        }
        o.wall_ms = (uint64_t)((wall() - t_run) * 1000);
        add(a, o);
        if (a.samples.size() < 2 && !o.trivial) {
            std::string f;
            std::istringstream is(o.stats);
            std::string k, n; uint64_t v;
            while (is >> k >> n >> v) if (k == "f") f += " " + n + "=" + std::to_string(v);
            a.samples.push_back(std::string(sc.name) + " run " + std::to_string(i) + ": " + std::to_string(o.steps) + " steps, "
                + std::to_string(o.switches) + " context switches, " + std::to_string(o.preemptions) + " preemptions, "
                + std::to_string(o.incarnations) + " incarnation(s), faults:" + (f.empty() ? " none" : f) + ", hash " + std::to_string(o.hash));
        }
        if (o.status == 2) {
            sh->stop.store(1);
            write_replay(base + ".viol." + std::to_string(i), sc, seed, i, o, o.tapes, th, "");
            break;
        }
    }
    save(a, base + ".agg." + std::to_string(syscall(SYS_getpid)));
    return 0;
}

int sim_main(int argc, char** argv)
{
    std::string prop, tier = "quick", evidence, replay_dir = ".", replay, known, only, mode = "check";
    uint64_t    seed = 1, runs_override = 0, det_n = 0;
    double      max_s = 600;
    int         jobs = 8;
    bool        trace = false, quiet = false;
    uint64_t    one = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto        v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") prop = v();
        else if (a == "--tier") tier = v();
        else if (a == "--seed") seed = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--evidence") evidence = v();
        else if (a == "--replay-dir") replay_dir = v();
        else if (a == "--replay") { replay = v(); mode = "replay"; }
        else if (a == "--known") known = v();
        else if (a == "--jobs") jobs = atoi(v().c_str());
        else if (a == "--scenario") only = v();
        else if (a == "--runs") runs_override = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--max-seconds") max_s = atof(v().c_str());
        else if (a == "--trace") trace = true;
        else if (a == "--quiet") quiet = true;
        else if (a == "--determinism") { mode = "det"; det_n = strtoull(v().c_str(), nullptr, 10); }
        else if (a == "--one") { mode = "one"; one = strtoull(v().c_str(), nullptr, 10); }
        else if (a == "--list") { for (auto& s : scenarios()) printf("%s %s %u %u\n", s.property, s.name, QUICK * s.quick_runs, s.thorough_runs); return 0; }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    bool th = tier == "thorough";
    std::vector<Finding> kf = load_known(known);
    std::set<std::string> keys;
    for (auto& f : kf) if (prop.empty() || f.property == prop) keys.insert(f.key);
    set_known_findings(keys);
    if (mode == "replay") return replay_main(replay, trace, quiet);
    double t0 = wall();
    if (mode == "one") {
        const Scenario* sc = find_sc(prop, only);
        if (!sc) return 2;
        Outcome o = run_once(*sc, run_seed(seed, *sc, one), nullptr, trace, th);
        fputs(o.log.c_str(), stdout);
        printf("status=%d class=%s msg=%s hash=%lu steps=%lu time=%.3fms trivial=%d wall=%.4f\n%s", o.status, o.cls.c_str(), o.msg.c_str(), o.hash, o.steps, o.time_ns / 1e6, o.trivial, wall() - t0, o.stats.c_str());
        return 0;
    }
    if (mode == "det") {
        uint64_t bad = 0, n = 0;
        for (auto& sc : scenarios()) {
            if (!prop.empty() && prop != sc.property) continue;
            if (!only.empty() && only != sc.name) continue;
            for (uint64_t i = 0; i < det_n; i++) {
                Outcome a = run_once(sc, run_seed(seed, sc, i), nullptr, false, th), b = run_once(sc, run_seed(seed, sc, i), nullptr, false, th);
                Outcome c = a.truncated ? b : run_once(sc, 0, &a.tapes, false, th);
                n++;
                if (a.hash != b.hash || a.tapes != b.tapes || a.status != b.status || c.hash != a.hash || c.status != a.status || a.steps != b.steps) {
                    bad++;
                    printf("NONDETERMINISM %s/%s run %lu: hash %lu %lu %lu steps %lu %lu %lu status %d %d %d\n", sc.property, sc.name, i, a.hash, b.hash, c.hash, a.steps, b.steps, c.steps, a.status, b.status, c.status);
                }
                if (quiet) printf("%s/%s %lu %lu %lu %d\n", sc.property, sc.name, i, a.hash, a.steps, a.status);
            }
        }
        if (!quiet) printf("determinism: %lu runs twice and replayed, %lu differ\n", n, bad);
        return bad ? 2 : 0;
    }

    // ------------------------------------------------------------ check
    Shared* sh = static_cast<Shared*>(mmap_real(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    char tmp[] = "/tmp/simXXXXXX";
    if (!mkdtemp(tmp)) { perror("mkdtemp"); return 2; }
    Agg  tot;
    std::vector<const Scenario*> mine;
    for (auto& s : scenarios()) if (prop == s.property && (only.empty() || only == s.name)) mine.push_back(&s);
    if (mine.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
    std::string rules, per;
    std::vector<std::string> viol_files;
    const Scenario* viol_sc = nullptr;
    double share_total = 0;
    for (auto* s : mine) share_total += th ? s->thorough_runs : QUICK * s->quick_runs;
    double weight_done = 0;
    size_t n_done = 0;
    bool   capped = false;
    for (auto* sc : mine) {
        uint64_t total = runs_override ? runs_override : th ? sc->thorough_runs : QUICK * sc->quick_runs;
        // its part of the time which is left, so that each scenario is run
        double w_sc = th ? sc->thorough_runs : QUICK * sc->quick_runs, left = max_s - (wall() - t0);
        double part = std::max(w_sc / std::max(share_total - weight_done, 1.0), 0.5 / (mine.size() - n_done));
        if (n_done + 1 == mine.size()) part = 1;
        double deadline = wall() + std::max(left, 5.0) * std::min(part, 1.0);
        weight_done += w_sc;
        n_done++;
        sh->stop = 0;
        sh->next = 0;
        std::string base = std::string(tmp) + "/" + sc->name;
        std::vector<pid_t> pids;
        for (int j = 0; j < jobs; j++) {
            pid_t p = fork();
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                void* m = mmap_real(g_result, g_result_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
                if (m == MAP_FAILED) _exit(2);
                _exit(worker(*sc, seed, total, sh, deadline, th, base));
            }
            pids.push_back(p);
        }
        for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { tot.errors++; if (tot.first_error.empty()) tot.first_error = "worker died"; } }
        Agg here;
        // collect
        std::vector<uint64_t> viols;
        std::string cmd = tmp;
        FILE* ls = popen(("ls " + cmd).c_str(), "r");
        char line[512];
        while (fgets(line, sizeof(line), ls)) {
            std::string n = line;
            while (!n.empty() && n.back() == '\n') n.pop_back();
            std::string pre = std::string(sc->name) + ".";
            if (n.compare(0, pre.size(), pre)) continue;
            if (n.compare(pre.size(), 4, "agg.") == 0) { merge(here, cmd + "/" + n); }
            if (n.compare(pre.size(), 5, "viol.") == 0) viols.push_back(strtoull(n.c_str() + pre.size() + 5, nullptr, 10));
        }
        pclose(ls);
        if (here.runs < total && viols.empty()) capped = true;
        char b[512];
        snprintf(b, sizeof(b), "%s{\"scenario\":%s,\"runs\":%lu,\"nontrivial\":%lu,\"distinct_executions\":%zu,\"distinct_schedules\":%zu,\"known_finding_runs\":%lu,\"longest_run_steps\":%lu,\"longest_run_ms\":%lu}", per.empty() ? "" : ",", jstr(sc->name).c_str(), here.runs, here.nontrivial, here.hashes.size(), here.scheds.size(), here.known, here.max_steps, here.max_ms);
        per += b;
        rules += (rules.empty() ? "" : " | ") + std::string(sc->name) + ": " + sc->rule;
        tot.runs += here.runs; tot.nontrivial += here.nontrivial; tot.steps += here.steps; tot.preempt += here.preempt; tot.switches += here.switches; tot.incs += here.incs; tot.known += here.known; tot.errors += here.errors; tot.sim_s += here.sim_s; tot.max_steps = std::max(tot.max_steps, here.max_steps); tot.max_ms = std::max(tot.max_ms, here.max_ms);
        for (auto& k : here.probes) tot.probes[k.first] += k.second;
        for (auto& k : here.faults) tot.faults[k.first] += k.second;
        for (auto h : here.hashes) tot.hashes.insert(h ^ name_hash(sc->name));
        for (auto h : here.scheds) tot.scheds.insert(h ^ name_hash(sc->name));
        for (auto h : here.states) tot.states.insert(h ^ name_hash(sc->name));
        for (size_t k = 0; k < here.samples.size() && k < 3; k++) tot.samples.push_back(here.samples[k]);
        if (tot.first_error.empty()) tot.first_error = here.first_error;
        if (!viols.empty()) {
            std::sort(viols.begin(), viols.end());
            for (size_t k = 0; k < viols.size() && k < 8; k++) viol_files.push_back(base + ".viol." + std::to_string(viols[k]));
            viol_sc   = sc;
            break;
        }
        if (here.runs >= 300 && !here.nontrivial && !here.known) { tot.errors++; tot.first_error = std::string("no run of ") + sc->name + " did anything which could be checked"; }
        if (tot.errors) break;
    }

    int rc = 0;
    int nviol = 0;
    for (auto& viol_file : viol_files) {
        Replay r;
        read_replay(viol_file, r);
        // the same execution again, in this process
        Outcome a = run_again(*viol_sc, r, false);
        if (a.status != 2 || a.cls != r.cls || a.hash != r.hash) {
            fprintf(stderr, "ERROR: violation '%s' of %s did not reproduce (status %d class '%s' hash %lu/%lu): the harness is not deterministic\n", r.cls.c_str(), viol_sc->name, a.status, a.cls.c_str(), a.hash, r.hash);
            ::mkdir(replay_dir.c_str(), 0755);
            std::string cp = "cp " + viol_file + " " + replay_dir + "/" + prop + ".unreproduced";
            if (system(cp.c_str())) {}
            rc = 2;
            continue;
        }
        unsigned evals = 0;
        Tapes    m = r.fromseed ? r.t : minimise(*viol_sc, r.t, r.cls, th, th ? 120 : 45, evals);
        bool     done = false;
        for (int attempt = 0; attempt < 2 && !done; attempt++) {
            if (attempt) m = r.t;
            if (attempt && r.fromseed) break;
            Outcome o = r.fromseed ? run_again(*viol_sc, r, true) : run_once(*viol_sc, 0, &m, true, th);
            if (o.status != 2 || o.cls != r.cls) continue;
            ::mkdir(replay_dir.c_str(), 0755);
            std::string out = replay_dir + "/" + prop + "-" + viol_sc->name + "-" + std::to_string(seed) + ".replay";
            char note[200];
            snprintf(note, sizeof(note), "minimised in %u runs: cost %lu -> %lu", evals, cost(r.t), cost(m));
            if (r.fromseed) snprintf(note, sizeof(note), "the run draws too many numbers to list: it is repeated from its seed");
            write_replay(out, *viol_sc, seed, r.fromseed ? r.run : 0, o, m, th, note);
            // and in a fresh process
            std::string cmd = self_path() + " --replay " + out + " --quiet" + (known.empty() ? "" : " --known " + known) + " > /dev/null 2>&1";
            int st = system(cmd.c_str());
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) {
                fprintf(stderr, "ERROR: a violation did not replay in a fresh process (exit %d)\n", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
                continue;
            }
            done  = true;
            nviol = 1;
            printf("%s: %s: %s\n", viol_sc->name, o.cls.c_str(), o.msg.c_str());
            printf("VIOLATION property=%s replay=%s\n", prop.c_str(), out.c_str());
        }
        rc = done ? 1 : 2;
        if (done) break;
    }
    if (viol_files.empty() && tot.errors) {
        fprintf(stderr, "ERROR: %s\n", tot.first_error.c_str());
        rc = 2;
    }
    if (rc == 0)
        for (auto& f : kf) if (f.property == prop) printf("KNOWN-FINDING: property=%s %s (%s; met in %lu runs)\n", prop.c_str(), f.text.c_str(), f.key.c_str(), tot.known);
    double w = wall() - t0;
    if (!evidence.empty()) {
        std::ofstream f(evidence);
        f << "{\n\"property\":" << jstr(prop) << ",\"tier\":" << jstr(tier) << ",\"seed\":" << seed << ",\"level\":\"exploration\",\n\"coverage\":{\n";
        f << "\"evaluations\":" << tot.runs << ",\n\"distinct_nontrivial\":" << tot.hashes.size() << ",\n\"rule\":" << jstr(rules + ". Distinct: by the hash of every I/O event, result, fault and recorded outcome of the run.") << ",\n\"samples\":[";
        for (size_t i = 0; i < tot.samples.size(); i++) f << (i ? ",\n" : "") << jstr(tot.samples[i]);
        f << "],\n\"scenarios\":[" << per << "],\n";
        f << "\"seeds\":" << tot.runs << ",\"runs_per_hour\":" << (uint64_t)(tot.runs / (w > 0.001 ? w : 0.001) * 3600) << ",\"simulated_seconds\":" << tot.sim_s << ",\"nontrivial_runs\":" << tot.nontrivial << ",\n";
        f << "\"scheduling_points\":" << tot.steps << ",\"preemptions\":" << tot.preempt << ",\"context_switches\":" << tot.switches << ",\"incarnations\":" << tot.incs << ",\n";
        f << "\"distinct_interleavings\":" << tot.scheds.size() << ",\"interleaving_measure\":\"hash of the sequence of threads chosen at every switch\",\"distinct_states\":" << tot.states.size() << ",\"runs_ending_in_known_finding\":" << tot.known << ",\n";
        f << "\"stopped_by_time_limit\":" << (capped ? "true" : "false") << ",\n";
        f << "\"faults_injected\":{";
        bool first = true;
        for (auto& k : tot.faults) { f << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; }
        f << "},\n\"probes\":{";
        first = true;
        for (auto& k : tot.probes) { f << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; }
        f << "},\n\"ran_real_code\":" << jstr(decls()[prop].real) << ",\n\"ran_stub\":" << jstr(decls()[prop].stub) << "\n},\n";
        f << "\"assumptions\":[\"one thread runs at a time; preemption at synchronisation, I/O, atomic and (seeded) plain memory accesses of instrumented code; sequentially consistent memory\"],\n";
        f << "\"wall_s\":" << w << ",\"violations\":" << nviol << "\n}\n";
    }
    if (!quiet) fprintf(stderr, "%s %s: %lu runs (%zu distinct) in %.1fs, %zu interleavings, exit %d\n", prop.c_str(), tier.c_str(), tot.runs, tot.hashes.size(), w, tot.scheds.size(), rc);
    std::string rm = std::string("rm -rf ") + tmp;
    if (system(rm.c_str())) {}
    return rc;
}
} // namespace sim

int main(int argc, char** argv)
{
    // fixed addresses, so that nothing depends on where memory is mapped
    if (!getenv("SIM_REEXEC")) {
        personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
        setenv("SIM_REEXEC", "1", 1);
        setenv("LD_BIND_NOW", "1", 1);
        execv(sim::self_path().c_str(), argv);
    }
    sim::g_result_size = 64 << 20;
    sim::g_result = static_cast<sim::Result*>(sim::mmap_real(nullptr, sim::g_result_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    return sim::sim_main(argc, argv);
}
