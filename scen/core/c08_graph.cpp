// C08: sequential and parallel max-flow.
#include "sim.h"
#include <sse/schemes/tethys/details/tethys_graph.hpp>

#include <memory>
#include <queue>
#include <thread>

using namespace sim;
using namespace sse::tethys::details;

static Decl d("C08", "TethysGraph, ThreadPool, logger (spdlog)", "threads, mutexes, condition variables, futures' futex, clock: simulator");

namespace {
struct E { int from, to; size_t cap; }; // -1 source, -2 sink
struct G { int n; std::vector<E> e; };

size_t ref_maxflow(const G& g)
{
    int N = g.n + 2, S = g.n, T = g.n + 1;
    std::vector<std::vector<size_t>> c(N, std::vector<size_t>(N, 0));
    for (auto& e : g.e) c[e.from == -1 ? S : e.from][e.to == -2 ? T : e.to] += e.cap;
    size_t flow = 0;
    for (;;) {
        std::vector<int> par(N, -1);
        std::queue<int>  q;
        q.push(S);
        par[S] = S;
        while (!q.empty() && par[T] < 0) {
            int u = q.front();
            q.pop();
            for (int v = 0; v < N; v++) if (par[v] < 0 && c[u][v] > 0) { par[v] = u; q.push(v); }
        }
        if (par[T] < 0) return flow;
        size_t f = SIZE_MAX;
        for (int v = T; v != S; v = par[v]) f = std::min(f, c[par[v]][v]);
        for (int v = T; v != S; v = par[v]) { c[par[v]][v] -= f; c[v][par[v]] += f; }
        flow += f;
    }
}
G gen()
{
    G g;
    int comps = 1 + (int)work(4) * (work(12) ? 1 : 8), per = 1 + (int)work(thorough() ? 8 : 5);
    g.n = comps * per;
    int inner = (int)work(3 * g.n + 1), src = 1 + (int)work(g.n + 2), snk = 1 + (int)work(g.n + 2);
    bool join = work(3) == 0; // edges between the groups
    bool big = work(6) == 0; // capacities which do not fit 32 bits
    auto cap = [&] { return big && work(3) == 0 ? (work(3) + 1) << (30 + work(12)) : work(6) == 0 ? 0 : work(8) == 0 ? 1000 : 1 + work(6); };
    for (int i = 0; i < inner; i++) {
        int a = (int)work(g.n), b = join ? (int)work(g.n) : a / per * per + (int)work(per);
        g.e.push_back({a, b, cap()});
    }
    for (int i = 0; i < src; i++) g.e.push_back({-1, (int)work(g.n), cap()});
    for (int i = 0; i < snk; i++) g.e.push_back({(int)work(g.n), -2, cap()});
    // any order of insertion
    for (size_t i = g.e.size(); i > 1; i--) std::swap(g.e[i - 1], g.e[work(i)]);
    return g;
}
std::vector<EdgePtr> build(TethysGraph& t, const G& g)
{
    std::vector<EdgePtr> p;
    for (size_t i = 0; i < g.e.size(); i++) {
        const E& e = g.e[i];
        if (e.from == -1) p.push_back(t.add_edge_from_source(i, e.cap, e.to));
        else if (e.to == -2) p.push_back(t.add_edge_to_sink(i, e.cap, e.from));
        else p.push_back(t.add_edge(i, e.cap, e.from, e.to));
    }
    return p;
}
template<class F> void refused(const char* what, F f)
{
    try { f(); } catch (std::exception&) { return; }
    fail("not-refused", "%s was not refused", what);
}
void check_state(TethysGraph& t, EdgePtr e, int phase)
{ // 0 building, 1 residual, 2 flow
    if (phase > 0) {
        refused("add_edge after the flow computation", [&] { t.add_edge(0, 1, 0, 0); });
        refused("add_edge_from_source after the flow computation", [&] { t.add_edge_from_source(0, 1, 0); });
        refused("add_edge_to_sink after the flow computation", [&] { t.add_edge_to_sink(0, 1, 0); });
        refused("a second flow computation", [&] { t.compute_residual_maxflow(); });
        refused("a second parallel flow computation", [&] { t.parallel_compute_residual_maxflow(); });
    }
    if (phase != 1) refused("transform_residual_to_flow in the wrong state", [&] { t.transform_residual_to_flow(); });
    if (phase != 2) {
        refused("get_flow before the flow is computed", [&] { t.get_flow(); });
        refused("get_edge_flow before the flow is computed", [&] { t.get_edge_flow(e); });
        refused("get_vertex_in_flow before the flow is computed", [&] { t.get_vertex_in_flow(VertexPtr(0)); });
        refused("get_vertex_out_flow before the flow is computed", [&] { t.get_vertex_out_flow(VertexPtr(0)); });
    }
}
void check_flow(TethysGraph& t, const G& g, const std::vector<EdgePtr>& p, size_t want, const char* how)
{
    size_t f = t.get_flow();
    mix(f);
    std::vector<long> bal(g.n, 0);
    long out = 0, in = 0;
    for (size_t i = 0; i < p.size(); i++) {
        size_t x = t.get_edge_flow(p[i]);
        if (t.get_edge_capacity(p[i]) != g.e[i].cap) fail("capacity", "%s: the capacity of edge %zu changed", how, i);
        if (x > g.e[i].cap) fail("over-capacity", "%s: edge %zu carries %zu of %zu", how, i, x, g.e[i].cap);
        if (g.e[i].from >= 0) bal[g.e[i].from] -= (long)x; else out += (long)x;
        if (g.e[i].to >= 0) bal[g.e[i].to] += (long)x; else in += (long)x;
    }
    for (int v = 0; v < g.n; v++) {
        if (bal[v]) fail("not-conserved", "%s: vertex %d receives %ld more than it sends", how, v, bal[v]);
        if (t.get_vertex_in_flow(VertexPtr(v)) != t.get_vertex_out_flow(VertexPtr(v))) fail("not-conserved", "%s: vertex flows of %d differ", how, v);
    }
    if (out != in || (size_t)out != f) fail("flow-value", "%s: get_flow() is %zu, the source sends %ld, the sink receives %ld", how, f, out, in);
    if (f != want) fail("not-maximum", "%s: the flow is %zu, the maximum is %zu", how, f, want);
}
void one(const G& g, ThreadPool* pool, bool parallel, bool components, size_t want)
{
    TethysGraph t(g.n);
    auto p = build(t, g);
    { Quiet q; check_state(t, p[0], 0); }
    if (components) t.compute_connected_components();
    if (parallel) { if (pool) t.parallel_compute_residual_maxflow(*pool); else t.parallel_compute_residual_maxflow(); }
    else t.compute_residual_maxflow();
    Quiet q;
    check_state(t, p[0], 1);
    t.transform_residual_to_flow();
    check_state(t, p[0], 2);
    check_flow(t, g, p, want, parallel ? "parallel" : "sequential");
    progress();
}
void run()
{
    draw_sched_cfg();
    int ng = 1 + (int)work(3);
    std::vector<G> gs;
    for (int i = 0; i < ng; i++) gs.push_back(gen());
    int pool_threads = (int)work(5); // 0: the global pool
    bool comp = work(5) == 0;
    std::vector<size_t> want;
    for (auto& g : gs) want.push_back(ref_maxflow(g));
    incarnation([&] {
        sim::Scope app(AR_A);
        std::unique_ptr<ThreadPool> pool(pool_threads ? new ThreadPool(pool_threads) : nullptr);
        std::vector<std::thread> th;
        for (int i = 1; i < ng; i++) th.emplace_back([&, i] { one(gs[i], pool.get(), true, comp, want[i]); });
        one(gs[0], pool.get(), true, comp, want[0]);
        for (auto& t : th) t.join();
        Quiet q;
        for (int i = 0; i < ng; i++) one(gs[i], nullptr, false, comp, want[i]);
        for (int i = 0; i < ng; i++) if (want[i] && gs[i].n > 2) nontrivial();
    });
}
Reg r({"C08", "maxflow", run, false, 20000, 240000,
       "1 to 3 random graphs (several components, isolated vertices, self loops, parallel edges, zero capacities), solved concurrently on one pool, then sequentially; oracle: independent Edmonds-Karp on the capacity matrix; non-trivial: positive flow, more than two vertices"});
} // namespace
