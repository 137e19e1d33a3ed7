// C05 / C06 / C07: flow computation and bucket allocation against an
// independent max-flow (Dinic) and a certificate check of the result.
#include "vt.hpp"

#include <sse/schemes/tethys/details/tethys_allocator.hpp>
#include <sse/schemes/tethys/details/tethys_graph.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <algorithm>
#include <memory>
#include <queue>

using namespace sse::tethys::details;
using vt::Rng;

// ---- independent oracle ----------------------------------------------------
struct Dinic
{
    struct E
    {
        int                to;
        unsigned long long c;
    };
    std::vector<E>                e;
    std::vector<std::vector<int>> g;
    std::vector<int>              lvl, it;
    explicit Dinic(int n) : g(n), lvl(n), it(n)
    {
    }
    void add(int a, int b, unsigned long long c)
    {
        g[a].push_back(e.size());
        e.push_back({b, c});
        g[b].push_back(e.size());
        e.push_back({a, 0});
    }
    bool bfs(int s, int t)
    {
        std::fill(lvl.begin(), lvl.end(), -1);
        std::queue<int> q;
        q.push(s);
        lvl[s] = 0;
        while (!q.empty()) {
            int v = q.front();
            q.pop();
            for (int i : g[v])
                if (e[i].c && lvl[e[i].to] < 0) {
                    lvl[e[i].to] = lvl[v] + 1;
                    q.push(e[i].to);
                }
        }
        return lvl[t] >= 0;
    }
    std::vector<int>   way;
    unsigned long long dfs(int s, int t) // one augmenting path; iterative, paths may be long
    {
        way.clear();
        int v = s;
        while (v != t) {
            int& i = it[v];
            for (; i < (int)g[v].size(); i++)
                if (e[g[v][i]].c && lvl[e[g[v][i]].to] == lvl[v] + 1) break;
            if (i < (int)g[v].size()) {
                way.push_back(g[v][i]);
                v = e[g[v][i]].to;
            } else if (v == s) return 0;
            else {
                v = e[way.back() ^ 1].to;
                way.pop_back();
                it[v]++;
            }
        }
        unsigned long long f = ~0ULL;
        for (int k : way) f = std::min(f, e[k].c);
        for (int k : way) e[k].c -= f, e[k ^ 1].c += f;
        return f;
    }
    unsigned long long run(int s, int t)
    {
        unsigned long long r = 0;
        while (bfs(s, t)) {
            std::fill(it.begin(), it.end(), 0);
            while (auto f = dfs(s, t)) r += f;
        }
        return r;
    }
};

struct GE
{
    int    kind; // 0 inner, 1 from source, 2 to sink
    size_t a, b, cap;
};
struct GSpec
{
    size_t          n{1};
    std::vector<GE> e;
};

static size_t pick_cap(Rng& g, int style)
{
    switch (style) {
    case 0: return g.below(4);
    case 1: return 1;
    case 2: return g.below(100);
    case 3: return g.chance(20) ? 0 : 1 + g.below(1000);
    default: return g.chance(50) ? 1 + g.below(3) : (size_t(1) << (30 + g.below(20)));
    }
}

static GSpec random_graph(Rng& g, bool many_components)
{
    GSpec  s;
    int    style = g.below(5);
    size_t parts = many_components ? 1 + g.below(vt::opts().thorough ? 60 : 25) : 1 + g.below(3);
    std::vector<size_t> sizes;
    size_t              tot = 0;
    for (size_t p = 0; p < parts; p++) {
        size_t k = many_components ? 1 + g.below(7) : 1 + g.below(g.chance(70) ? 10 : 50);
        sizes.push_back(k);
        tot += k;
    }
    size_t isolated = g.below(4);
    s.n             = tot + isolated;
    std::vector<size_t> perm(s.n);
    for (size_t i = 0; i < s.n; i++) perm[i] = i;
    g.shuffle(perm);
    size_t at = 0;
    for (size_t p = 0; p < parts; p++) {
        size_t k   = sizes[p];
        auto   v   = [&](size_t i) { return perm[at + i]; };
        size_t m   = g.below(k * (1 + g.below(4)) + 1);
        int    top = g.below(4);
        for (size_t i = 0; i < m; i++) {
            size_t a = g.below(k), b = g.below(k);
            if (top == 1 && a > b) std::swap(a, b);            // acyclic
            if (top == 2) b = (a + 1) % k;                     // ring with parallel edges
            if (top == 3 && k > 1) a = g.below(k / 2 + 1), b = k / 2 + g.below(k - k / 2);
            s.e.push_back({0, v(a), v(b), pick_cap(g, style)});
            if (g.chance(10)) s.e.push_back({0, v(b), v(a), pick_cap(g, style)});
        }
        size_t ns = g.chance(10) ? 0 : 1 + g.below(1 + k / 3), nt = g.chance(10) ? 0 : 1 + g.below(1 + k / 3);
        for (size_t i = 0; i < ns; i++) s.e.push_back({1, 0, v(g.below(k)), pick_cap(g, style)});
        for (size_t i = 0; i < nt; i++) s.e.push_back({2, v(g.below(k)), 0, pick_cap(g, style)});
        at += k;
    }
    for (size_t i = 0; i < isolated; i++) {
        if (g.chance(60)) s.e.push_back({1, 0, perm[at + i], pick_cap(g, style)});
        if (g.chance(60)) s.e.push_back({2, perm[at + i], 0, pick_cap(g, style)});
    }
    g.shuffle(s.e);
    return s;
}

static std::vector<EdgePtr> build(TethysGraph& t, const GSpec& s)
{
    std::vector<EdgePtr> r;
    size_t               vi = 0;
    for (auto& e : s.e) {
        if (e.kind == 0) r.push_back(t.add_edge(vi, e.cap, e.a, e.b));
        else if (e.kind == 1) r.push_back(t.add_edge_from_source(vi, e.cap, e.b));
        else r.push_back(t.add_edge_to_sink(vi, e.cap, e.a));
        vi++;
    }
    return r;
}
static unsigned long long oracle(const GSpec& s)
{
    Dinic d(s.n + 2);
    int   S = s.n, T = s.n + 1;
    for (auto& e : s.e) d.add(e.kind == 1 ? S : e.a, e.kind == 2 ? T : e.b, e.cap);
    return d.run(S, T);
}

static void check_flow(const TethysGraph& t, const GSpec& s, const std::vector<EdgePtr>& ep, unsigned long long want,
                       const char* how)
{
    size_t flow = t.get_flow();
    VT_CHECK(flow == want, "flow-value", "%s flow is %zu, the maximum is %llu (%zu vertices, %zu edges)", how, flow, want, s.n, s.e.size());
    std::vector<unsigned long long> in(s.n), out(s.n), icap(s.n), ocap(s.n);
    unsigned long long              src = 0, snk = 0, srcc = 0, snkc = 0;
    for (size_t i = 0; i < s.e.size(); i++) {
        auto&  e = s.e[i];
        size_t f = t.get_edge_flow(ep[i]);
        VT_CHECK(f <= e.cap, "flow-capacity", "%s: edge %zu carries %zu of %zu", how, i, f, e.cap);
        VT_CHECK(t.get_edge_capacity(ep[i]) == e.cap, "capacity-changed", "%s: edge %zu has capacity %zu instead of %zu", how, i, t.get_edge_capacity(ep[i]), e.cap);
        VT_CHECK(t.get_edge(ep[i]).value_index == i, "edge-identity", "%s: edge pointer %zu denotes edge %zu", how, i, t.get_edge(ep[i]).value_index);
        if (e.kind == 1) src += f, srcc += e.cap;
        else out[e.a] += f, ocap[e.a] += e.cap;
        if (e.kind == 2) snk += f, snkc += e.cap;
        else in[e.b] += f, icap[e.b] += e.cap;
    }
    for (size_t v = 0; v < s.n; v++) {
        VertexPtr p(v);
        VT_CHECK(in[v] == out[v], "conservation", "%s: vertex %zu receives %llu and sends %llu", how, v, in[v], out[v]);
        VT_CHECK(t.get_vertex_in_flow(p) == in[v] && t.get_vertex_out_flow(p) == out[v], "vertex-flow", "%s: vertex %zu reports flows %zu/%zu, its edges carry %llu/%llu", how, v, t.get_vertex_in_flow(p), t.get_vertex_out_flow(p), in[v], out[v]);
        VT_CHECK(t.get_vertex_in_capacity(p) == icap[v] && t.get_vertex_out_capacity(p) == ocap[v], "vertex-capacity", "%s: vertex %zu reports wrong capacities", how, v);
    }
    VT_CHECK(t.get_vertex_out_flow(kSourcePtr) == src && t.get_vertex_in_flow(kSinkPtr) == snk, "terminal-flow", "%s: source or sink report a wrong flow", how);
    VT_CHECK(t.get_vertex_out_capacity(kSourcePtr) == srcc && t.get_vertex_in_capacity(kSinkPtr) == snkc, "terminal-capacity", "%s: source or sink report a wrong capacity", how);
    VT_CHECK(src == flow && snk == flow, "flow-balance", "%s: source sends %llu, sink receives %llu, flow is %zu", how, src, snk, flow);
    vt::eval();
    vt::count("flows_checked");
    vt::count("edges_checked", s.e.size());
    if (want) vt::count("positive_flows");
    vt::maximum("largest_graph_edges", s.e.size());
}

// residual edge flows of the graph as seen through get_edge
static void check_path(const TethysGraph& t, const GSpec& s, const std::vector<EdgePtr>& ep, const char* how)
{
    size_t amount = 12345;
    auto   path   = t.find_source_sink_path(0, &amount);
    auto   path2  = t.find_source_sink_path(0, nullptr);
    VT_CHECK(path == path2, "path-repeat", "%s: two searches on the same graph differ", how);
    // oracle on the residual graph
    Dinic d(s.n + 2);
    int   S = s.n, T = s.n + 1;
    for (size_t i = 0; i < s.e.size(); i++) {
        auto& e = t.get_edge(ep[i]);
        int   a = s.e[i].kind == 1 ? S : s.e[i].a, b = s.e[i].kind == 2 ? T : s.e[i].b;
        d.add(a, b, e.flow);
        d.add(b, a, e.rec_flow);
    }
    bool exists = d.bfs(S, T);
    VT_CHECK(exists == !path.empty(), "path-existence", "%s: an augmenting path %s but the search returned %zu edges", how, exists ? "exists" : "does not exist", path.size());
    if (path.empty()) {
        VT_CHECK(amount == 0, "path-amount", "%s: no path but amount %zu", how, amount);
        return;
    }
    VertexPtr        cur = kSourcePtr;
    size_t           bot = SIZE_MAX;
    bool             ok  = true;
    std::set<size_t> seen;
    for (auto p : path) {
        auto& e = t.get_edge(p);
        auto  a = p.is_reciprocal ? e.end : e.start, b = p.is_reciprocal ? e.start : e.end;
        ok  = ok && a == cur;
        cur = b;
        bot = std::min<size_t>(bot, p.is_reciprocal ? e.rec_flow : e.flow);
        ok  = ok && seen.insert(b.index).second;
    }
    ok = ok && cur == kSinkPtr;
    VT_CHECK(ok, "path-shape", "%s: the %zu edges do not form a simple path from source to sink", how, path.size());
    VT_CHECK(bot == amount && bot > 0, "path-amount", "%s: path of bottleneck %zu reported with amount %zu", how, bot, amount);
    vt::count("paths_checked");
}

template<class F>
static bool throws(F f)
{
    try {
        f();
    } catch (std::exception&) {
        return true;
    }
    return false;
}

static void c05(long i, Rng& g)
{
    GSpec s = random_graph(g, g.chance(30));
    vt::begin_case(i, vt::fmt("c05 n=%zu m=%zu", s.n, s.e.size()));
    std::string d;
    for (auto& e : s.e) d += vt::fmt("%d.%zu.%zu.%zu;", e.kind, e.a, e.b, e.cap);
    vt::distinct(vt::hash(d));
    auto                t0 = std::unique_ptr<TethysGraph>(new TethysGraph(s.n));
    TethysGraph         twin(s.n);
    auto                ep = build(*t0, s);
    build(twin, s);
    auto illegal = [&](const char* what, bool thrown) {
        VT_CHECK(thrown, "out-of-phase", "%s was accepted", what);
        vt::count("illegal_calls");
        vt::eval();
    };
    // two graphs are equal if and only if they have the same vertices and edges
    VT_CHECK(*t0 == twin && twin == *t0, "equality", "%s", "graphs built alike compare different");
    {
        GSpec s2   = s;
        int   what = s.e.empty() ? 0 : static_cast<int>(g.below(4));
        if (what == 0) s2.n++;
        else {
            GE& e = s2.e[g.below(s2.e.size())];
            if (what == 1) e.cap = g.chance(50) ? e.cap + 1 : e.cap + (size_t(1) << g.below(64));
            else if (what == 2 && s.n > 1) (e.kind == 1 ? e.b : e.a) = ((e.kind == 1 ? e.b : e.a) + 1 + g.below(s.n - 1)) % s.n;
            else s2.e.push_back(s2.e.front());
        }
        TethysGraph other(s2.n);
        build(other, s2);
        VT_CHECK(!(*t0 == other) && !(other == *t0), "equality", "graphs that differ (%d) compare equal", what);
        vt::count("comparisons");
    }
    TethysGraph& t      = *t0;
    auto         ranges = [&] {
        size_t bad = g.chance(50) ? s.n : g.chance(50) ? ~size_t(0) - g.below(3) : s.n + g.below(1000);
        illegal("an edge from a vertex out of range", throws([&] { t.add_edge(1, 1, bad, 0); }));
        illegal("an edge to a vertex out of range", throws([&] { t.add_edge(1, 1, 0, bad); }));
        illegal("a source edge to a vertex out of range", throws([&] { t.add_edge_from_source(1, 1, bad); }));
        illegal("a sink edge from a vertex out of range", throws([&] { t.add_edge_to_sink(1, 1, bad); }));
    };
    auto reads = [&] {
        illegal("get_flow", throws([&] { t.get_flow(); }));
        if (!ep.empty()) illegal("get_edge_flow", throws([&] { t.get_edge_flow(g.pick(ep)); }));
        illegal("get_vertex_in_flow", throws([&] { t.get_vertex_in_flow(VertexPtr(g.below(s.n))); }));
        illegal("get_vertex_out_flow", throws([&] { t.get_vertex_out_flow(VertexPtr(g.below(s.n))); }));
    };
    auto adds = [&] {
        illegal("add_edge", throws([&] { t.add_edge(1, 1, 0, 0); }));
        illegal("add_edge_from_source", throws([&] { t.add_edge_from_source(1, 1, 0); }));
        illegal("add_edge_to_sink", throws([&] { t.add_edge_to_sink(1, 1, 0); }));
        illegal("compute_residual_maxflow", throws([&] { t.compute_residual_maxflow(); }));
        illegal("parallel_compute_residual_maxflow", throws([&] { t.parallel_compute_residual_maxflow(); }));
    };
    if (g.chance(50)) {
        ranges();
        reads();
        illegal("transform_residual_to_flow", throws([&] { t.transform_residual_to_flow(); }));
        VT_CHECK(t == twin, "refused-call-changed", "refused calls changed the graph");
    }
    if (g.chance(50)) {
        check_path(t, s, ep, "before");
        VT_CHECK(t == twin, "search-changed", "searching a path changed the graph");
    }
    if (g.chance(15)) t.compute_connected_components();
    t.compute_residual_maxflow();
    for (size_t k = 0; k < s.e.size(); k++) {
        auto& e = t.get_edge(ep[k]);
        VT_CHECK(e.flow + e.rec_flow == e.capacity, "residual", "residual of edge %zu: %zu + %zu != %zu", k, e.flow, e.rec_flow, e.capacity);
    }
    check_path(t, s, ep, "after");
    if (g.chance(50)) {
        twin.compute_residual_maxflow();
        reads();
        adds();
        VT_CHECK(t == twin, "refused-call-changed", "refused calls changed the graph after computing");
        twin.transform_residual_to_flow();
    }
    t.transform_residual_to_flow();
    auto want = oracle(s);
    check_flow(t, s, ep, want, "sequential");
    if (g.chance(50)) {
        adds();
        illegal("a second transformation", throws([&] { t.transform_residual_to_flow(); }));
        check_flow(t, s, ep, want, "after refused calls");
    }
    if (g.chance(20)) {
        TethysGraph m(std::move(t));
        check_flow(m, s, ep, want, "moved");
    }
    if (g.chance(5)) illegal("an empty graph", throws([] { TethysGraph z(0); }));
    if (i < 3) vt::sample(vt::fmt("graph of %zu vertices and %zu edges, max flow %llu", s.n, s.e.size(), want));
}

static void c06(long i, Rng& g)
{
    GSpec  s    = random_graph(g, g.chance(80));
    size_t pool = 1 + g.below(g.chance(50) ? 2 : 8);
    size_t runs = 1 + g.below(4);
    int    env  = g.below(4);
    vt::begin_case(i, vt::fmt("c06 n=%zu m=%zu pool=%zu runs=%zu env=%d", s.n, s.e.size(), pool, runs, env));
    std::string d;
    for (auto& e : s.e) d += vt::fmt("%d.%zu.%zu.%zu;", e.kind, e.a, e.b, e.cap);
    vt::distinct(vt::hash(d) + pool);
    auto        want = oracle(s);
    TethysGraph seq(s.n);
    auto        sp = build(seq, s);
    seq.compute_residual_maxflow();
    seq.transform_residual_to_flow();
    check_flow(seq, s, sp, want, "sequential");
    ThreadPool        tp(pool);
    std::atomic<bool> stop{false};
    std::atomic<long> noise{0};
    if (env == 1) // the pool is busy with other work
        for (int k = 0; k < 20; k++) {
            unsigned us = g.below(400);
            tp.enqueue([us, &noise] {
                usleep(us);
                noise++;
            });
        }
    std::thread nt;
    if (env == 2) // work keeps arriving
        nt = std::thread([&] {
            for (int k = 0; k < 200 && !stop; k++) {
                tp.enqueue([&noise] { noise++; });
                usleep(20);
            }
        });
    bool global = g.chance(15);
    bool label  = g.chance(15);
    auto par    = [&](size_t) {
        TethysGraph t(s.n);
        auto        ep = build(t, s);
        if (label) t.compute_connected_components();
        if (global) t.parallel_compute_residual_maxflow();
        else t.parallel_compute_residual_maxflow(tp);
        t.transform_residual_to_flow();
        check_flow(t, s, ep, want, "parallel");
        VT_CHECK(t.get_flow() == seq.get_flow(), "parallel-sequential", "parallel flow %zu, sequential flow %zu", t.get_flow(), seq.get_flow());
        vt::count("parallel_runs");
    };
    if (env == 3) {
        vt::together(2 + g.below(3), par);
        vt::count("simultaneous_runs");
    } else {
        for (size_t r = 0; r < runs; r++) par(r);
    }
    stop = true;
    if (nt.joinable()) nt.join();
    if (i < 3) vt::sample(vt::fmt("graph of %zu vertices, %zu edges on a pool of %zu, flow %llu", s.n, s.e.size(), pool, want));
}

// Graphs whose vertices, edges, components and capacities do not fit small
// integers; sequential and parallel.
static GSpec scale_graph(Rng& g)
{
    GSpec               s;
    int                 shape = g.below(3);
    size_t              n     = 66000 + g.below(3000);
    std::vector<size_t> perm(n);
    for (size_t i = 0; i < n; i++) perm[i] = i;
    if (g.chance(70)) g.shuffle(perm);
    s.n       = n;
    int style = g.below(5);
    // the number of augmenting paths times the number of source edges is kept
    // small: the library's search is quadratic in it
    if (shape == 0) { // more than 2^15 components, few of which carry a flow
        for (size_t at = 0; at + 2 <= n; at += 2) {
            s.e.push_back({0, perm[at], perm[at + 1], pick_cap(g, style)});
            if (!g.chance(2) && at + 40 < n) continue;
            s.e.push_back({1, 0, perm[at], pick_cap(g, style)});
            s.e.push_back({2, perm[at + 1], 0, pick_cap(g, style)});
        }
    } else if (shape == 1) { // a vertex with very many edges
        size_t a = perm[0], z = perm[1];
        for (size_t i = 2; i < n; i++) s.e.push_back({0, a, perm[i], 1 + g.below(1000)});
        for (int i = 0; i < 60; i++) s.e.push_back({0, perm[2 + g.below(n - 2)], z, 1 + g.below(4000)});
        s.e.push_back({0, perm[n - 1], z, 1 + g.below(4000)});
        s.e.push_back({1, 0, a, 1 + g.below(1 << 22)});
        s.e.push_back({2, z, 0, 1 + g.below(1 << 22)});
        s.e.push_back({2, perm[n - 2], 0, 1 + g.below(1 << 22)});
    } else { // one very long path, entered and left at several places
        size_t cap = (size_t(1) << 33) + g.below(1 << 20);
        for (size_t i = 0; i + 1 < n; i++) s.e.push_back({0, perm[i], perm[i + 1], cap + g.below(1 << 20)});
        s.e.push_back({1, 0, perm[0], ~size_t(0) >> 2});
        s.e.push_back({2, perm[n - 1], 0, ~size_t(0) >> 2});
        for (int i = 0; i < 20; i++) {
            s.e.push_back({1, 0, perm[g.below(n)], pick_cap(g, style)});
            s.e.push_back({2, perm[g.below(n)], 0, pick_cap(g, style)});
            s.e.push_back({0, perm[g.below(n)], perm[g.below(n)], pick_cap(g, style)});
        }
    }
    if (shape != 1) g.shuffle(s.e);
    return s;
}

static void c05scale(long i, Rng& g)
{
    GSpec s = scale_graph(g);
    bool  par = vt::opts().mode == "c06scale";
    vt::begin_case(i, vt::fmt("%s n=%zu m=%zu", vt::opts().mode.c_str(), s.n, s.e.size()));
    vt::distinct(g.next());
    auto        want = oracle(s);
    TethysGraph t(s.n);
    auto        ep = build(t, s);
    if (par) {
        ThreadPool tp(1 + g.below(8));
        t.parallel_compute_residual_maxflow(tp);
    } else
        t.compute_residual_maxflow();
    for (size_t k = 0; k < s.e.size(); k++) {
        auto& e = t.get_edge(ep[k]);
        VT_CHECK(e.flow + e.rec_flow == e.capacity, "residual", "residual of edge %zu: %zu + %zu != %zu", k, e.flow, e.rec_flow, e.capacity);
        VT_CHECK(e.value_index == k, "values", "edge %zu has value %zu", k, e.value_index);
    }
    t.transform_residual_to_flow();
    check_flow(t, s, ep, want, par ? "parallel" : "sequential");
    vt::count("edges", s.e.size());
    vt::count("many_vertices");
    vt::sample(vt::fmt("graph of %zu vertices and %zu edges, max flow %llu", s.n, s.e.size(), want));
}

static void c07(long i, Rng& g)
{
    bool scale = vt::opts().mode == "c07scale";
    size_t table = 1 + g.below(g.chance(60) ? 12 : (vt::opts().thorough ? 400 : 150));
    size_t page  = g.chance(10) ? 1 : 1 + g.below(g.chance(50) ? 10 : 600);
    // load from light to heavily overfull
    size_t load  = 10 + g.below(250);
    size_t total = table * page * load / 100;
    int    skew  = g.below(5);
    if (scale) { // more lists, buckets or elements than small integers hold
        bool many = i % 2;
        table     = many ? 40 + g.below(20) : 66000 + g.below(4000);
        page      = many ? 1900 + g.below(500) : 1 + g.below(4);
        load      = many ? 90 + g.below(14) : 1 + g.below(2);
        total    = table * page * load / 100;
        skew     = !many && g.chance(50) ? 1 : 0;
    }
    vt::begin_case(i, vt::fmt("c07 buckets=%zu capacity=%zu load=%zu skew=%d", table, page, load, skew));
    TethysAllocator al(table, page);
    struct L
    {
        size_t h0, h1, len, idx;
    };
    std::vector<L> ls;
    size_t         sum = 0;
    auto           illegal = [&](const char* what, bool thrown) {
        VT_CHECK(thrown, "out-of-phase", "%s was accepted", what);
        vt::count("illegal_calls");
        vt::eval();
    };
    auto before = [&] {
        illegal("reading the overflow set before allocating", throws([&] { al.get_stashed_edges(); }));
        illegal("reading the allocation before allocating", throws([&] { al.get_allocation_graph(); }));
        illegal("a list longer than a bucket", throws([&] { al.insert({0, 0, ForcedLeft}, page + 1 + g.below(10), 5); }));
        illegal("the reserved index", throws([&] { al.insert({0, 0, ForcedLeft}, 1, ~0UL); }));
        illegal("a bucket out of range", throws([&] { al.insert({table + g.below(9), 0, ForcedLeft}, 1, 3); }));
        illegal("a bucket out of range", throws([&] { al.insert({0, table + g.below(9), ForcedLeft}, 1, 3); }));
        VT_CHECK(!al.has_allocated(), "allocated-flag", "has_allocated() before allocating");
    };
    size_t hot = 1 + (scale ? table / 2 + g.below(table / 2) : g.below(table)), maxlists = scale ? 75000 : vt::opts().thorough ? 3000 : 800;
    while (sum < total && ls.size() < maxlists) {
        L l;
        l.h0  = g.below(skew == 1 ? hot : table);
        l.h1  = g.below(skew == 2 ? hot : table);
        if (skew == 3 && g.chance(30)) l.h1 = l.h0;
        if (skew == 4) l.h1 = (l.h0 + 1) % table;
        int z = g.below(10);
        if (scale) z = g.chance(1) ? 0 : 3; // short lists
        l.len = z == 0 ? 0 : z < 3 ? page : z < 6 ? 1 + g.below(std::min<size_t>(page, scale ? 2 : 3)) : g.below(page + 1);
        l.idx = g.chance(5) ? g.next() >> 1 : ls.size();
        if (g.chance(3)) before();
        al.insert({l.h0, l.h1, g.chance(50) ? ForcedLeft : ForcedRight}, l.len, l.idx);
        sum += l.len + (l.len == 0);
        ls.push_back(l);
    }
    before();
    al.allocate();
    VT_CHECK(al.has_allocated(), "allocated-flag", "has_allocated() is false after allocating");
    std::string dd;
    for (auto& l : ls) dd += vt::fmt("%zu.%zu.%zu;", l.h0, l.h1, l.len);
    vt::distinct(vt::hash(dd));
    auto judge = [&](const char* when) {
        const TethysGraph&       gr = al.get_allocation_graph();
        const std::set<EdgePtr>& st = al.get_stashed_edges();
        std::vector<size_t>      fill(table, 0);
        // the inserted lists are the edges between buckets, found from the
        // buckets' own adjacency
        std::map<std::vector<size_t>, long> want, got;
        for (auto& l : ls) want[{l.h0, l.h1, l.len, l.idx}]++;
        std::set<EdgePtr>  overflow;
        unsigned long long over = 0, placed = 0;
        size_t             edges = 0;
        for (size_t b = 0; b < table; b++) {
            for (EdgePtr p : gr.get_vertex(VertexPtr(b)).out_edges) {
                const Edge& e = gr.get_edge(p);
                if (e.value_index == TethysAllocator::kEmptyIndexValue) continue;
                edges++;
                got[{e.start.index, e.end.index, e.capacity, e.value_index}]++;
                VT_CHECK(e.flow <= e.capacity && e.rec_flow <= e.capacity && e.flow + e.rec_flow <= e.capacity, "split",
                         "%s: a list of length %zu is split into %zu and %zu", when, e.capacity, e.flow, e.rec_flow);
                fill[e.start.index] += e.flow;
                if (e.end.index < table) fill[e.end.index] += e.rec_flow;
                size_t o = e.capacity - e.flow - e.rec_flow;
                over += o;
                placed += e.flow + e.rec_flow;
                if (o) overflow.insert(p);
            }
        }
        VT_CHECK(got == want, "lists", "%s: the allocation holds %zu lists which are not the %zu inserted ones", when, edges, ls.size());
        for (size_t b = 0; b < table; b++)
            VT_CHECK(fill[b] <= page, "overfull", "%s: bucket %zu holds %zu of %zu", when, b, fill[b], page);
        VT_CHECK(overflow == st, "overflow-set", "%s: %zu lists overflow but %zu are reported", when, overflow.size(), st.size());
        // minimum possible overflow
        Dinic d(ls.size() + table + 2);
        int   S = ls.size() + table, T = S + 1;
        unsigned long long all = 0;
        for (size_t k = 0; k < ls.size(); k++) {
            d.add(S, k, ls[k].len);
            all += ls[k].len;
            d.add(k, ls.size() + ls[k].h0, ls[k].len);
            if (ls[k].h1 != ls[k].h0) d.add(k, ls.size() + ls[k].h1, ls[k].len);
        }
        for (size_t b = 0; b < table; b++) d.add(ls.size() + b, T, page);
        auto best = all - d.run(S, T);
        VT_CHECK(over == best, "optimal", "%s: %llu elements overflow although %llu suffice (%zu lists, %zu buckets of %zu)", when, over, best, ls.size(), table, page);
        vt::eval();
        vt::count("lists", ls.size());
        if (ls.size() > 65536) vt::count("allocations_of_many_lists");
        if (table > 65536) vt::count("allocations_in_many_buckets");
        vt::count("elements_placed", placed);
        vt::count("elements_overflowing", over);
        if (over) vt::count("allocations_with_overflow");
    };
    judge("after allocate");
    illegal("inserting after allocating", throws([&] { al.insert({0, 0, ForcedLeft}, 1, 7); }));
    illegal("allocating twice", throws([&] { al.allocate(); }));
    judge("after refused calls");
    if (i < 3) vt::sample(vt::fmt("%zu lists in %zu buckets of %zu", ls.size(), table, page));
}

int main(int argc, char** argv)
{
    vt::init(argc, argv);
    sse::logger::set_logger(nullptr);
    bool th = vt::opts().thorough;
    auto m  = vt::opts().mode;
    if (m == "c05") vt::run_cases(th ? 400000 : 12000, c05);
    else if (m == "c05scale" || m == "c06scale") vt::run_cases(th ? 100 : 4, c05scale);
    else if (m == "c07scale") vt::run_cases(th ? 100 : 4, c07);
    else if (m == "c06") vt::run_cases(th ? 60000 : 3000, c06);
    else vt::run_cases(th ? 60000 : 2400, c07);
    return vt::finish();
}
