// C01: ThreadPool runs every accepted task once and drains.
#include "sim.h"
#include <sse/schemes/utils/thread_pool.hpp>

#include <atomic>
#include <condition_variable>
#include <memory>
#include <stdexcept>

using namespace sim;

static Decl d("C01",
              "ThreadPool (header), libstdc++ futures/packaged_task/condition_variable code",
              "pthread mutexes, condition variables, threads, futex and the clock: simulator");

namespace {
struct TaskM
{
    bool accepted = false, refused = false;
    int  started = 0, finished = 0;
    int  kind = 0; // 0 value, 1 throws, 2 enqueues another, 3 sleeps, 4 void
    int  child = -1;
    bool refused_after_stop = false;
};
struct Model
{
    std::vector<TaskM> t;
    bool stop_called = false;  // join() or destruction has begun
    bool stopped = false;      // and has returned
};
Model* m;

struct Boom { int id; };

struct Env { ThreadPool* pool; std::vector<std::pair<int, std::future<int>>>* futs; std::mutex* mu; };

int submit(Env* e, int id);

int task_body(Env* e, int id)
{
    TaskM& t = m->t[id];
    t.started++;
    mix(0x100 + id); sim::trace("task %d starts", id);
    if (t.started > 1) fail("ran-twice", "task %d ran %d times", id, t.started);
    if (!t.accepted && t.refused) fail("refused-ran", "task %d ran although its submission was refused", id);
    if (m->stopped) fail("late-task", "task %d started after join()/destruction returned", id);
    if (t.kind == 3) { std::this_thread::sleep_for(std::chrono::milliseconds(1 + id % 7)); }
    if (t.kind == 2) submit(e, t.child);
    if (t.kind == 5) { sim::sched_point(50); sim::sched_point(50); }
    if (m->stopped) fail("late-task", "task %d was still running when join()/destruction returned", id);
    t.finished++;
    if (t.kind == 1) throw Boom{id};
    return id * 7 + 1;
}

int submit(Env* e, int id)
{
    bool stopped_before = m->stop_called && m->stopped;
    try {
        std::unique_ptr<int> payload(new int(id)); // freed with the task
        std::shared_ptr<int> sp(std::move(payload));
        auto f = e->pool->enqueue([e, sp](int a) { return task_body(e, *sp + a); }, 0);
        m->t[id].accepted = true;
        if (stopped_before) fail("accepted-after-stop", "task %d accepted after the pool was stopped", id);
        std::lock_guard<std::mutex> g(*e->mu);
        e->futs->emplace_back(id, std::move(f));
        return 1;
    } catch (std::runtime_error&) {
        m->t[id].refused = true;
        if (!m->stop_called) fail("refused", "task %d refused by a pool that was not stopped", id);
        probe("refused_after_stop");
        return 0;
    }
}

void check_futures(std::vector<std::pair<int, std::future<int>>>& futs)
{
    for (auto& p : futs) {
        int id = p.first;
        try {
            int v = p.second.get();
            if (m->t[id].kind == 1) fail("future", "task %d threw but its future returned %d", id, v);
            if (v != id * 7 + 1) fail("future", "future of task %d returned %d instead of %d", id, v, id * 7 + 1);
        } catch (Boom& b) {
            if (m->t[id].kind != 1 || b.id != id) fail("future", "future of task %d delivered the exception of task %d", id, b.id);
        } catch (std::future_error& e) {
            fail("future", "future of task %d: %s", id, e.what());
        }
        if (m->t[id].started != 1 || m->t[id].finished != 1) fail("future", "future of task %d is ready but it ran %d/%d times", id, m->t[id].started, m->t[id].finished);
    }
}

void run()
{
    draw_sched_cfg();
    int workers    = 1 + work(5);
    int submitters = 1 + work(3);
    int n          = 1 + work(thorough() ? 30 : 14);
    int mode       = work(5);     // how the pool ends
    int early      = work(3);     // futures are waited for while it runs
    int late       = work(3);     // submissions from outside after join()
    m = make_shared_state<Model>();
    {
        Scope s(AR_S);
        m->t.resize(n * 2 + 4);
        for (int i = 0; i < n; i++) {
            int k = work(8);
            m->t[i].kind = k > 5 ? 0 : k;
            m->t[i].child = n + i;
        }
    }
    std::vector<int> owner(n);
    for (auto& o : owner) o = work(submitters);
    int stop_after = work(n + 1); // mode 2: another thread joins after that many
    incarnation([&] {
        sim::Scope app(AR_A);
        std::vector<std::pair<int, std::future<int>>> futs;
        std::mutex mu;
        Env env{nullptr, &futs, &mu};
        {
            std::unique_ptr<ThreadPool> pool(new ThreadPool(workers));
            env.pool = pool.get();
            std::vector<std::thread> th;
            std::atomic<int> submitted{0};
            for (int s = 0; s < submitters; s++)
                th.emplace_back([&, s] {
                    for (int i = 0; i < n; i++)
                        if (owner[i] == s) {
                            submit(&env, i);
                            submitted++;
                            if (early == 0 && i % 3 == 0) {
                                std::future<int> f;
                                {
                                    std::lock_guard<std::mutex> g(mu);
                                    for (auto& p : futs) if (p.first == i) f = std::move(p.second);
                                    futs.erase(std::remove_if(futs.begin(), futs.end(), [&](auto& p) { return p.first == i; }), futs.end());
                                }
                                if (f.valid()) {
                                    std::vector<std::pair<int, std::future<int>>> one;
                                    one.emplace_back(i, std::move(f));
                                    check_futures(one);
                                }
                            }
                        }
                });
            std::thread joiner;
            if (mode == 2) {
                // stop while submitters are active
                joiner = std::thread([&] {
                    while (submitted.load() < stop_after) std::this_thread::yield();
                    m->stop_called = true;
                    pool->join();
                    m->stopped = true;
                });
            }
            for (auto& t : th) t.join();
            if (joiner.joinable()) joiner.join();
            if (mode == 1 || mode == 3) {
                m->stop_called = true;
                pool->join();
                m->stopped = true;
                if (mode == 3) pool->join(); // joining again does no harm
            }
            if (m->stopped && late) {
                for (int i = 0; i < late; i++) submit(&env, 2 * n + i);
            }
            m->stop_called = true;
            pool.reset();
            m->stopped = true;
        }
        if (live_threads() != 0) fail("leaked-thread", "%d worker threads outlive the pool", live_threads());
        for (size_t i = 0; i < m->t.size(); i++) {
            TaskM& t = m->t[i];
            if (t.accepted && (t.started != 1 || t.finished != 1)) fail("lost-task", "accepted task %zu ran %d times when the pool was gone", i, t.finished);
            if (!t.accepted && t.started) fail("refused-ran", "task %zu was never accepted but ran", i);
        }
        check_futures(futs);
        if (n > 1) nontrivial();
    });
}
Reg r({"C01", "pool", run, false, 30000, 360000,
       "random pool size, submitters, task kinds (value, exception, nested submission, sleeping), stop by destructor/join/concurrent join; non-trivial: at least two tasks"});

// Tasks which wait for one another: as many as there are workers must be able
// to run at the same time, whatever ran before.
void run_rendezvous()
{
    draw_sched_cfg();
    int workers = 1 + work(5), rounds = 1 + work(3), submitters = 1 + work(3);
    auto* arrived = make_shared_state<std::vector<int>>(rounds);
    bool by_future = work(2);
    incarnation([&] {
        sim::Scope app(AR_A);
        ThreadPool pool(workers);
        std::mutex mu;
        std::condition_variable cv;
        for (int r = 0; r < rounds; r++) {
            int k = 1 + work(workers); // tasks that meet
            int before = work(6);      // ordinary ones, some failing
            std::vector<std::future<int>> futs;
            std::mutex fm;
            for (int i = 0; i < before; i++) {
                auto f = pool.enqueue([](int x) { if (x % 2) throw Boom{x}; return x; }, i);
                if (work(2)) { try { f.get(); } catch (Boom&) {} }
            }
            std::vector<std::thread> th;
            if (by_future && k > 1) {
                // a chain: each task waits for the result of the next one
                std::vector<std::promise<int>> pr(k);
                std::vector<std::shared_future<int>> sf;
                for (auto& p : pr) sf.push_back(p.get_future().share());
                for (int i = 0; i < k; i++)
                    futs.push_back(pool.enqueue([&pr, &sf, arrived, r, i, k] {
                        int v = i + 1 < k ? sf[i + 1].get() : 0;
                        { Quiet q; (*arrived)[r]++; }
                        pr[i].set_value(v + 1);
                        return v;
                    }));
                for (auto& f : futs) f.get();
            } else {
                int in = 0;
                for (int s = 0; s < submitters; s++)
                    th.emplace_back([&, s] {
                        for (int i = s; i < k; i += submitters) {
                            auto f = pool.enqueue([&mu, &cv, &in, arrived, r, k] {
                                std::unique_lock<std::mutex> l(mu);
                                in++;
                                { Quiet q; (*arrived)[r]++; }
                                cv.notify_all();
                                while (in < k) cv.wait(l);
                                return in;
                            });
                            std::lock_guard<std::mutex> g(fm);
                            futs.push_back(std::move(f));
                        }
                    });
                for (auto& t : th) t.join();
                for (auto& f : futs) f.get();
            }
            if ((*arrived)[r] != k) fail("lost-task", "%d of %d tasks ran in round %d", (*arrived)[r], k, r);
            if (k > 1) nontrivial();
            progress();
        }
    });
}
Reg r2({"C01", "rendezvous", run_rendezvous, false, 15000, 180000,
       "rounds of up to as many tasks as there are workers, which wait for one another (barrier or chain of futures), submitted by one to three threads, after ordinary and failing tasks; a task left in the queue while a worker is idle is a deadlock; non-trivial: at least two tasks meet"});
} // namespace
