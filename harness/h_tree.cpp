// C30 minimum spanning tree, C31 maximal independent set, C32 maximum flow.
#define VF_MAIN
#include "alg.hpp"
#if FAM == 30
#include <algorithms/mst.hpp>
#elif FAM == 31
#include <algorithms/mis.hpp>
#include <algorithms/appendix_algorithms.hpp>
#else
#include <algorithms/maxflow.hpp>
#endif
using namespace vf;
#if CT == 0
using T = double;
#elif CT == 1
using T = int32_t;
#elif CT == 2
using T = float;
#elif CT == 3
using T = int64_t;
#elif CT == 5
using T = uint32_t;
#elif CT == 6
using T = uint16_t;
#else
using T = bool;
#endif
namespace {
#if FAM == 30
size_t components(G const &g) { std::vector<bool> s(g.n); size_t k = 0; for (size_t i = 0; i < g.n; ++i) if (!s[i]) { ++k; auto d = hops(g, {i}); for (size_t j = 0; j < g.n; ++j) if (d[j] != SIZE_MAX) s[j] = true; } return k; }
struct UF { std::vector<size_t> p; explicit UF(size_t n) : p(n) { std::iota(p.begin(), p.end(), (size_t)0); } size_t f(size_t x) { while (p[x] != x) x = p[x]; return x; } bool join(size_t a, size_t b) { a = f(a); b = f(b); if (a == b) return false; p[a] = b; return true; } };
void tree(Ctx &c) {
    bool conn = !c.chance(1, 5); G g = gen_any(c, GF_UNDIRECTED | (conn ? GF_CONNECTED : 0) | (c.chance(1, 3) ? GF_LOOPS : 0), 120);
    std::vector<double> pool{1, 2, 3, 5, 7, 4, 9, 2}; if (c.chance(1, 3)) pool = {1, 1, 2}; if (c.chance(1, 3)) { pool.push_back(0); if (std::is_signed_v<T>) { pool.push_back(-3); pool.push_back(-1); } } if (std::is_floating_point_v<T> && c.boolean()) { pool.push_back(0.5); pool.push_back(2.25); }
    large_values<T>(c, pool); weigh(c, g, pool, true); c.note(g.str(true));
    auto A = gmat<T>(g); grb::Vector<grb::IndexType> par(g.n); if (c.boolean()) par.setElement(c.draw(g.n), c.draw(g.n));
    if (components(g) > 1) {
        c.label("disconnected"); c.nontrivial(); double w = 0; bool threw = false;
        try { w = (double)algorithms::mst(A, par); } catch (grb::PanicException &) { threw = true; }
        if (!threw) c.fail("a disconnected graph is given a spanning tree of weight " + vstr(w)); return;
    }
    struct E { double w; size_t a, b; }; std::vector<E> es; for (size_t a = 0; a < g.n; ++a) for (size_t b = 0; b < a; ++b) if (g.has(a, b)) es.push_back({*g.w[a][b], a, b});
    std::stable_sort(es.begin(), es.end(), [](E const &x, E const &y) { return x.w < y.w; });
    UF u(g.n); double want = 0; for (auto &e : es) if (u.join(e.a, e.b)) want += e.w;
    if (es.size() >= g.n && g.n > 2) c.nontrivial();
    double got = (double)algorithms::mst(A, par); if (got != want) c.fail("mst gives weight " + vstr(got) + ", a minimum spanning tree weighs " + vstr(want));
    auto p = observe(c, par, "parents"); UF t(g.n); double sum = 0;
    for (size_t v = 0; v < g.n; ++v) { if (p.d[v].has_value() == (v == 0)) c.fail("vertex " + std::to_string(v) + (v ? " has no parent" : ", the root, has a parent")); if (!v) continue; size_t q = *p.d[v];
        if (q >= g.n || !g.has(q, v)) c.fail("parent of " + std::to_string(v) + " is " + std::to_string(q) + ", which is no neighbour"); if (!t.join(q, v)) c.fail("the parents contain a cycle through " + std::to_string(v)); sum += *g.w[q][v]; }
    if (sum != got) c.fail("the parents form a tree of weight " + vstr(sum) + ", the routine returned " + vstr(got));
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
TARGET("tree", tree)
#elif FAM == 31
void mis(Ctx &c) {
    G g = gen_any(c, GF_UNDIRECTED, 120); c.note(g.str(false)); double seed = c.chance(1, 4) ? 0 : (double)c.draw(c.boolean() ? 100 : 2000000000); c.note("seed " + vstr(seed));
    bool app = c.boolean(); c.note(app ? "mis_appendixB6" : "mis"); auto A = gmat<T>(g); grb::Vector<bool> s(g.n);
    if (g.edges() >= 4) c.nontrivial();
    if (app) algorithms::mis_appendixB6(s, A, seed); else algorithms::mis(A, s, seed);
    auto m = observe(c, s, "independent set"); std::string txt = "{"; for (size_t i = 0; i < g.n; ++i) if (m.d[i]) txt += " " + std::to_string(i); txt += " }";
    size_t cnt = 0; for (size_t v = 0; v < g.n; ++v) { bool in = m.d[v].has_value(), nb = false; cnt += in; if (in && !*m.d[v]) c.fail("vertex " + std::to_string(v) + " is stored as false in " + txt);
        for (size_t u = 0; u < g.n; ++u) if (g.has(v, u) && m.d[u]) { nb = true; if (in) c.fail("adjacent vertices " + std::to_string(u) + " and " + std::to_string(v) + " are both selected in " + txt); }
        if (!in && !nb) c.fail("vertex " + std::to_string(v) + " could be added to " + txt); }
    if (!app) { auto ids = algorithms::get_vertex_IDs(s); if (ids.size() != cnt) c.fail("get_vertex_IDs lists " + std::to_string(ids.size()) + " of " + std::to_string(cnt) + " vertices"); for (auto i : ids) if (i >= g.n || !m.d[i]) c.fail("get_vertex_IDs lists " + std::to_string(i)); for (size_t i = 1; i < ids.size(); ++i) if (ids[i] <= ids[i - 1]) c.fail("get_vertex_IDs repeats a vertex"); }
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
TARGET("mis", mis)
#else
double maxflow(G const &g, size_t s, size_t t) {
    size_t n = g.n; std::vector<std::vector<double>> r(n, std::vector<double>(n, 0)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j && g.w[i][j]) r[i][j] = *g.w[i][j];
    double f = 0;
    for (;;) { std::vector<size_t> p(n, SIZE_MAX); std::vector<bool> seen(n); std::queue<size_t> q; q.push(s); seen[s] = true;
        while (!q.empty()) { size_t u = q.front(); q.pop(); for (size_t v = 0; v < n; ++v) if (!seen[v] && r[u][v] > 0) { seen[v] = true; p[v] = u; q.push(v); } }
        if (!seen[t]) { double cut = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (seen[i] && !seen[j] && g.w[i][j]) cut += *g.w[i][j]; if (cut != f) throw std::logic_error("oracle: flow and cut differ"); return f; }
        double b = INF; for (size_t v = t; v != s; v = p[v]) b = std::min(b, r[p[v]][v]); for (size_t v = t; v != s; v = p[v]) { r[p[v]][v] -= b; r[v][p[v]] += b; } f += b; }
}
// Graphs (vertex 0 to the last) on which shortest augmenting paths need more augmentations than there are edges; found by a hill climb.
static const std::vector<std::pair<size_t, std::vector<int>>> HARD_FLOW = {
{9, {0,1,1,0,2,2,0,3,29,0,4,20,0,5,46,0,6,20,0,8,30,1,8,15,2,1,1,2,8,27,3,1,6,3,2,9,3,4,1,3,6,1,3,7,16,3,8,9,4,1,2,4,2,10,4,6,2,4,7,18,5,1,2,5,2,17,5,3,1,5,4,2,5,6,36,6,1,26,6,8,24,7,8,38}},
{9, {0,2,1,0,3,21,0,4,6,0,5,19,0,7,34,1,6,1,1,8,14,2,1,1,2,8,16,3,1,6,3,2,10,3,4,1,3,6,17,3,8,1,4,1,3,4,2,1,4,6,36,4,8,1,5,1,3,5,2,1,5,3,5,5,4,38,5,8,5,6,8,44,7,1,10,7,2,28,7,3,1}},
{9, {0,1,16,0,2,29,0,3,2,0,4,22,0,5,13,0,6,38,0,7,1,0,8,35,1,7,2,1,8,31,2,1,3,2,3,2,2,4,2,2,5,27,2,8,21,3,1,1,3,7,3,3,8,20,4,1,6,4,3,8,4,5,1,4,7,11,4,8,7,5,1,4,5,3,3,5,7,43,5,8,5,6,1,12,6,2,1,6,3,25,6,5,1,6,7,1,6,8,1,7,8,47}},
{10, {0,1,4,0,2,17,0,3,11,0,4,32,0,6,20,0,7,16,0,8,45,1,3,4,1,9,17,2,3,25,2,9,27,3,9,35,4,1,4,4,2,5,4,3,3,4,5,10,4,6,1,4,9,17,5,9,39,6,1,4,6,2,4,6,3,2,6,5,30,6,9,9,7,1,8,7,2,3,7,3,2,7,4,1,7,5,1,7,6,38,8,1,8,8,2,32,8,3,1,8,9,1}},
{11, {0,1,35,0,2,23,0,3,14,0,4,19,0,5,43,0,6,24,0,7,2,0,8,32,0,9,54,0,10,18,1,7,2,1,10,47,2,1,1,2,10,39,3,1,1,3,2,13,3,7,4,3,10,27,4,1,3,4,10,39,5,1,4,5,2,3,5,3,5,5,4,16,5,7,15,5,8,4,5,10,11,6,1,3,6,2,10,6,3,4,6,4,1,6,5,1,6,8,28,6,10,4,7,10,61,8,1,4,8,2,2,8,3,2,8,4,2,8,7,36,8,10,20,9,1,8,9,2,8,9,3,15,9,4,47,9,5,1,9,6,1}},
{11, {0,1,20,0,2,1,0,3,34,0,4,32,0,5,8,0,6,15,0,7,33,0,8,20,0,9,1,0,10,19,1,2,8,1,5,1,1,6,2,1,8,3,1,9,7,1,10,5,2,9,4,2,10,25,3,2,2,3,5,9,3,6,2,3,8,2,3,9,25,3,10,18,4,1,2,4,2,4,4,3,8,4,5,13,4,6,2,4,8,4,4,9,2,4,10,5,5,2,12,5,8,1,5,9,1,5,10,20,6,2,7,6,8,26,6,10,20,7,2,1,7,5,6,7,6,30,7,8,1,8,10,33,9,10,37}},
{11, {0,1,17,0,2,1,0,3,17,0,4,11,0,5,22,0,6,25,0,7,3,0,8,58,1,2,4,1,3,1,1,4,5,1,7,6,1,9,18,2,9,1,2,10,21,3,2,7,3,4,1,3,6,3,3,7,4,3,9,10,3,10,2,4,2,1,4,9,3,4,10,26,5,1,6,5,2,3,5,3,1,5,4,7,5,6,32,5,7,2,5,10,1,6,2,2,6,4,1,6,7,3,6,9,34,6,10,18,7,2,34,7,9,1,7,10,20,8,1,4,8,2,1,8,3,2,8,4,14,8,7,40,8,10,1,9,10,71}},
{12, {0,1,20,0,4,20,0,5,31,0,6,7,0,7,43,0,8,22,0,10,40,1,2,4,1,3,2,1,4,1,1,8,1,1,9,25,1,11,8,2,4,1,2,8,2,2,11,34,3,4,3,3,8,25,3,9,1,3,10,3,3,11,6,4,11,41,5,1,28,5,2,25,5,3,1,5,4,1,5,8,2,5,9,1,6,2,1,6,3,1,6,4,3,6,8,1,6,9,7,7,1,2,7,2,3,7,3,33,7,6,1,7,8,4,8,4,31,8,9,1,8,11,27,9,11,37,10,2,28,10,4,1,10,6,1,10,8,1,10,11,32}}};
G gen(Ctx &c, size_t &s, size_t &t) {
    if (c.chance(1, 20)) { auto const &h = HARD_FLOW[c.draw(HARD_FLOW.size())]; size_t n = h.first, extra = c.chance(1, 4) ? c.draw(3) : 0; G g(n + extra); size_t div = sizeof(T) < 4 ? 2 : 1; for (size_t k = 0; k + 2 < h.second.size(); k += 3) g.w[h.second[k]][h.second[k + 1]] = (double)std::max<size_t>(1, h.second[k + 2] / div); s = 0; t = n - 1; c.label("many augmentations");
        for (size_t k = c.draw(4); k--;) { size_t i = c.draw(g.n), j = c.draw(g.n); if (i == j) continue; if (c.boolean() || !g.w[i][j]) { if (c.boolean()) g.w[i][j] = 1 + c.draw(20); else g.w[i][j].reset(); } else g.w[i][j] = *g.w[i][j] + 1; }
        c.note(g.str(true) + " from " + std::to_string(s) + " to " + std::to_string(t)); return g; }
    G g = gen_any(c, c.chance(1, 4) ? GF_LOOPS : 0, 40, 2); size_t n = g.n; std::vector<double> pool{1, 2, 3, 4, 1, 7, 10, 100}; if (c.chance(1, 3)) pool = {1}; if (c.chance(1, 4)) pool = {1, 1000}; if (c.chance(1, 5)) pool.push_back(0); if (std::is_floating_point_v<T> && c.boolean()) pool.push_back(0.5);
    if (c.chance(1, 4)) { size_t w = 1 + c.draw(4); g = G(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j && (i / w + 1 == j / w || (i / w == j / w && c.chance(1, 4)) || c.chance(1, 12)) && !c.chance(1, 4)) g.w[i][j] = 1; }   // layers
    large_values<T>(c, pool); weigh(c, g, pool); s = c.draw(n); t = c.draw(n - 1); if (t >= s) ++t;
    if (!c.chance(1, 4)) { std::vector<std::pair<size_t, size_t>> far; size_t best = 2; for (size_t i = 0; i < n; ++i) { auto d = hops(g, {i}); for (size_t j = 0; j < n; ++j) if (d[j] != SIZE_MAX && d[j] >= best) far.push_back({i, j}); } if (!far.empty()) { auto q = far[c.draw(far.size())]; s = q.first; t = q.second; } } c.note(g.str(true) + " from " + std::to_string(s) + " to " + std::to_string(t)); return g;
}
void nontriv(Ctx &c, G const &g, size_t s, size_t t, double want) { auto d = hops(g, {s}); if (want > 0 && d[t] >= 2) c.nontrivial(); if (want == 0) c.label("no flow"); }
void push_relabel(Ctx &c) { size_t s, t; G g = gen(c, s, t); auto A = gmat<T>(g); double want = maxflow(g, s, t); nontriv(c, g, s, t, want);
    double got = (double)algorithms::maxflow_push_relabel(A, s, t); if (got != want) c.fail("maxflow_push_relabel gives " + vstr(got) + ", the maximum flow is " + vstr(want)); if (!(A == gmat<T>(g))) c.fail("the graph was changed"); }
void ford_fulk(Ctx &c) { size_t s, t; G g = gen(c, s, t); auto A = gmat<T>(g); double want = maxflow(g, s, t); nontriv(c, g, s, t, want);
    double got = (double)algorithms::maxflow_ford_fulk(A, s, t); if (got != want) c.fail("maxflow_ford_fulk gives " + vstr(got) + ", the maximum flow is " + vstr(want)); if (!(A == gmat<T>(g))) c.fail("the graph was changed"); }
TARGET("push_relabel", push_relabel) TARGET("ford_fulk", ford_fulk)
#endif
}
