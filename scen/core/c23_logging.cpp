// C23: the shared logger and the log of measurements.
#include "sim.h"
#include <sse/schemes/utils/logger.hpp>

#include <spdlog/sinks/sink.h>

#include <atomic>
#include <memory>
#include <thread>

using namespace sim;

static Decl d("C23", "logger, Benchmark (lib/utils/logger.cpp), spdlog with its asynchronous logging thread",
              "threads, clock, files: simulator");

namespace {
// the values of something over time: value i may be seen from b on, and until the e of the next
struct Span { int v; uint64_t b, e; };
struct Hist
{
    std::vector<Span> s;
    bool could(size_t i, uint64_t a, uint64_t b) const { return s[i].b <= b && (i + 1 == s.size() || s[i + 1].e >= a); }
};
struct Msg { int level; uint64_t a = 0, b = 0; std::vector<int> got; };
struct Bench
{
    int64_t  c0 = 0, c1 = 0, s0 = 0, s1 = 0; // around the creation and the first stop
    uint64_t count = 0;
    int      file = -1, lines = 0;
    bool     search = false;
};
struct Model
{
    std::vector<Msg>   msgs;
    std::vector<Bench> bench;
    Hist               logger;              // -2 the library's own, -1 null, else an index
    std::vector<Hist>  level;
    uint64_t           clock = 0;
    int                file = -1;           // of the measurements, at present
};
Model* m;
uint64_t tick() { Quiet q; return ++m->clock; }

struct Sink : spdlog::sinks::sink
{
    int id;
    explicit Sink(int i) : id(i) {}
    void log(const spdlog::details::log_msg& x) override
    {
        Quiet q; sim::Scope s(AR_S);
        std::string t(x.payload.data(), x.payload.size());
        int k = -1;
        if (sscanf(t.c_str(), "message %d.", &k) != 1 || k < 0 || (size_t)k >= m->msgs.size() || t != "message " + std::to_string(k) + ".") fail("garbled", "the logger was given '%s'", t.c_str());
        if (x.level != m->msgs[k].level) fail("level", "message %d of level %d is logged with level %d", k, m->msgs[k].level, (int)x.level);
        m->msgs[k].got.push_back(id);
    }
    void flush() override {}
    void set_pattern(const std::string&) override {}
    void set_formatter(std::unique_ptr<spdlog::formatter>) override {}
};

struct Act { int kind, a, b; };

void measure(int id, int how, int items)
{
    Bench& b = m->bench[id];
    { Quiet q; b.file = m->file; }
    auto pause = [&] { if (how == 19) return; if (work(2)) std::this_thread::sleep_for(std::chrono::microseconds(1 + work(5000))); else sched_point(100); };
    std::unique_ptr<sse::Benchmark> x;
    b.c0 = now();
    if (b.search) x.reset(new sse::SearchBenchmark("measure " + std::to_string(id)));
    else x.reset(new sse::Benchmark("measure " + std::to_string(id) + " {0} {1} {2} end"));
    b.c1 = now();
    pause();
    auto stop = [&](bool with) {
        int64_t t0 = now();
        if (with) x->stop(items); else x->stop();
        if (!b.s1) b.s0 = t0, b.s1 = now();
    };
    switch (how) {
    case 0: stop(true); b.count = items; break;
    case 1: stop(false); break;
    case 2: x->set_count(items); stop(false); b.count = items; break;
    case 3: stop(false); pause(); x->set_count(items); b.count = items; break;
    case 4: x->set_count(items); b.count = items; break;
    case 5: stop(true); b.count = items; pause(); stop(false); probe("stopped_twice"); break;
    default: break;
    }
    pause();
    int64_t t0 = now();
    x.reset();
    if (!b.s1) b.s0 = t0, b.s1 = now();
    progress();
}

void check_file(int f, const std::string& path)
{
    std::string t;
    if (!vfs::read_file(path, t)) t.clear();
    size_t p = 0;
    while (p < t.size()) {
        size_t e = t.find('\n', p);
        if (e == std::string::npos) fail("garbled", "the last line of the measurements is cut: '%s'", t.substr(p).c_str());
        std::string l = t.substr(p, e - p);
        p = e + 1;
        size_t k = l.find("] ");
        unsigned long long items; long double ms, per; int id, n = 0;
        if (l.empty() || l[0] != '[' || k == std::string::npos) fail("garbled", "a line of the measurements is '%s'", l.c_str());
        std::string s = l.substr(k + 2);
        bool search = s[0] == '{';
        if (search) sscanf(s.c_str(), "{ \"message\" : \"measure %d\", \"items\" : %llu, \"time\" : %Lf, \"time/item\" : %Lf }%n", &id, &items, &ms, &per, &n);
        else sscanf(s.c_str(), "measure %d %llu %Lf %Lf end%n", &id, &items, &ms, &per, &n);
        if (!n || (size_t)n != s.size() || id < 0 || (size_t)id >= m->bench.size() || m->bench[id].search != search) fail("garbled", "a line of the measurements is '%s'", l.c_str());
        Bench& b = m->bench[id];
        if (b.file != f) fail("wrong-file", "measure %d is in file %d, not %d", id, f, b.file);
        if (++b.lines > 1) fail("repeated", "measure %d is recorded %d times", id, b.lines);
        if (items != b.count) fail("count", "measure %d of %llu items is recorded with %llu", id, (unsigned long long)b.count, items);
        long double lo = (b.s0 - b.c1) / 1e6L, hi = (b.s1 - b.c0) / 1e6L, eps = 1e-6L + hi * 1e-9L;
        if (ms < lo - eps || ms > hi + eps) fail("time", "measure %d took between %.6Lf and %.6Lf ms, %.6Lf are recorded", id, lo, hi, ms);
        long double want = b.count > 1 ? ms / b.count : ms;
        if (per < want - eps || per > want + eps) fail("time-per-item", "measure %d of %llu items took %.6Lf ms, %.6Lf per item are recorded", id, (unsigned long long)b.count, ms, per);
    }
}

void run()
{
    draw_sched_cfg();
    int threads = 1 + work(4), loggers = 1 + work(3), rounds = 1 + work(3);
    int files = work(3) == 0 ? 0 : rounds;  // none: measures are not recorded
    m = make_shared_state<Model>();
    // more measures than the queue of the logging thread takes
    int burst = files && work(60) == 0 ? 8000 + (int)work(2000) : 0;
    std::vector<std::vector<Act>> act(rounds * threads);
    std::vector<std::vector<Act>> sets(rounds);
    // measurements that the disk refuses are lost; nothing else happens
    bool bad_open = work(4) == 0, bad_write = !bad_open && work(6) == 0;
    vfs::FaultCfg fo, fw;
    fo.p[vfs::F_OPEN] = fo.p[vfs::F_META] = 3000 + 2000 * work(4);
    fw.p[vfs::F_WRITE_EIO] = fw.p[vfs::F_WRITE_SHORT] = fw.p[vfs::F_WRITE_NOSPC] = 100 << work(6);
    {
        sim::Scope s(AR_S);
        m->level.resize(loggers);
        m->logger.s.push_back({-2, 0, 0});
        for (int r = 0; r < rounds; r++) {
            for (int t = 0; t < threads; t++)
                for (int i = work(6); i > 0; i--) {
                    if (work(2)) {
                        Msg x; x.level = work(6);
                        m->msgs.push_back(x);
                        act[r * threads + t].push_back({0, (int)m->msgs.size() - 1, 0});
                    } else {
                        Bench b; b.search = work(2); 
                        m->bench.push_back(b);
                        act[r * threads + t].push_back({1 + (int)work(7), (int)m->bench.size() - 1, (int)(work(3) ? work(20) : work(1000000))});
                    }
                }
            if (r == 0)
                for (int i = 0; i < burst; i++) {
                    Bench b;
                    m->bench.push_back(b);
                    act[0].push_back({20, (int)m->bench.size() - 1, 0});
                }
            for (int i = work(5); i > 0; i--) sets[r].push_back({(int)work(4), (int)work(loggers), (int)work(6)});
        }
    }
    incarnation([&] {
        sim::Scope app(AR_A);
        std::vector<std::shared_ptr<spdlog::logger>> lg;
        for (int i = 0; i < loggers; i++) {
            lg.push_back(std::make_shared<spdlog::logger>("logger " + std::to_string(i), std::make_shared<Sink>(i)));
            int lv = work(3) ? 0 : work(7);
            lg[i]->set_level((spdlog::level::level_enum)lv);
            Quiet q; sim::Scope s(AR_S);
            m->level[i].s.push_back({lv, 0, 0});
        }
        for (int r = 0; r < rounds; r++) {
            if (files) {
                // a file that cannot be opened leaves the previous one in use
                if (bad_open) vfs::set_faults(fo);
                try {
                    sse::Benchmark::set_benchmark_file("/sim/measures" + std::to_string(r));
                    m->file = r;
                } catch (std::exception& e) {
                    Quiet q;
                    if (!fault_count()) fail("refused", "the file of measurements: %s", e.what());
                    probe("file_refused");
                }
                vfs::clear_faults();
                if (bad_write) vfs::set_faults(fw);
            }
            std::vector<std::thread> th;
            for (int t = 0; t < threads; t++)
                th.emplace_back([&, t] {
                    for (auto& x : act[r * threads + t]) {
                        if (x.kind) { measure(x.a, x.kind - 1, x.b); continue; }
                        uint64_t a = tick();
                        { Quiet q; m->msgs[x.a].a = a; }
                        sse::logger::logger()->log((spdlog::level::level_enum)m->msgs[x.a].level, "message {}.", x.a);
                        uint64_t b = tick();
                        { Quiet q; m->msgs[x.a].b = b; }
                        progress();
                    }
                });
            int cur;
            for (auto& x : sets[r]) {
                uint64_t b = tick();
                { Quiet q; cur = m->logger.s.back().v; }
                if (x.kind == 3) {
                    // the level of the present logger; a change is announced before it is made
                    { Quiet q; sim::Scope s(AR_S); if (cur >= 0) m->level[cur].s.push_back({x.b, b, ~0ul}); }
                    sse::logger::set_logging_level((spdlog::level::level_enum)x.b);
                    uint64_t e = tick();
                    { Quiet q; if (cur >= 0) m->level[cur].s.back().e = e; }
                    probe("level_changed");
                } else {
                    int to = x.kind == 0 ? -1 : x.a;
                    { Quiet q; sim::Scope s(AR_S); m->logger.s.push_back({to, b, ~0ul}); }
                    sse::logger::set_logger(to < 0 ? nullptr : lg[to]);
                    uint64_t e = tick();
                    { Quiet q; m->logger.s.back().e = e; }
                    probe(to < 0 ? "null_logger" : "logger_replaced");
                }
                sched_point(30);
            }
            for (auto& x : th) x.join();
        }
        vfs::clear_faults();
        // the file is closed once another one is in use
        if (files) sse::Benchmark::set_benchmark_file("/sim/measures_end");
        spdlog::shutdown();
    });
    Quiet q; sim::Scope a(AR_S);
    for (size_t k = 0; k < m->msgs.size(); k++) {
        Msg& x = m->msgs[k];
        if (!x.b) fail("lost", "message %zu was never logged", k);
        if (x.got.size() > 1) fail("repeated", "message %zu was logged %zu times", k, x.got.size());
        bool may_drop = false, ok = x.got.empty();
        for (size_t i = 0; i < m->logger.s.size(); i++) {
            if (!m->logger.could(i, x.a, x.b)) continue;
            int v = m->logger.s[i].v;
            if (v < 0) { may_drop = true; continue; }
            for (size_t j = 0; j < m->level[v].s.size(); j++)
                if (m->level[v].could(j, x.a, x.b)) {
                    if (x.level < m->level[v].s[j].v) may_drop = true;
                    else if (!x.got.empty() && x.got[0] == v) ok = true;
                }
        }
        if (!ok) fail("wrong-logger", "message %zu went to logger %d, which was not in use or did not want it", k, x.got[0]);
        if (x.got.empty() && !may_drop) fail("lost", "message %zu reached no logger", k);
        mix(x.got.size() ? x.got[0] : 99);
    }
    if (!fault_count()) bad_write = false;
    if (!bad_write)
        for (int r = 0; r < rounds; r++) check_file(r, "/sim/measures" + std::to_string(r));
    for (size_t i = 0; i < m->bench.size(); i++)
        if (!bad_write && m->bench[i].file >= 0 && m->bench[i].lines != 1) fail("lost", "measure %zu is not recorded", i);
    if (burst) probe("burst");
    if (m->msgs.size() + m->bench.size() > 2) nontrivial();
}
Reg r({"C23", "logging", run, false, 10000, 120000,
       "one to four threads log messages and measure operations, for the first time as well, while loggers, levels and the file of measurements are replaced, files cannot be opened and writes fail; non-trivial: more than two messages or measures"});
} // namespace
