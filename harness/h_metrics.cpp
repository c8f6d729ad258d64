// C26: degrees, distances, eccentricity, radius, diameter, closeness sum.
#define VF_MAIN
#include "alg.hpp"
#include <algorithms/metrics.hpp>
using namespace vf;
#if CT == 0
using T = int32_t;
#elif CT == 1
using T = double;
#else
using T = uint32_t;
#endif
static G gen(Ctx &c, bool neg) {
    G g = gen_any(c, GF_LOOPS, 40); std::vector<double> pool{1, 2, 3, 1, 5, 0, 9}; if (std::is_floating_point_v<T>) pool.push_back(0.5);
    if (c.boolean()) pool = {1};
    if (sizeof(T) == 8) large_values<T>(c, pool);
    weigh(c, g, pool);
    if (neg && std::is_signed_v<T> && c.chance(1, 3)) { std::vector<double> p(g.n); for (auto &x : p) x = (double)c.range(0, 4); for (size_t i = 0; i < g.n; ++i) for (size_t j = 0; j < g.n; ++j) if (g.w[i][j]) *g.w[i][j] += p[i] - p[j]; }
    c.note(g.str(true)); return g;
}
static std::vector<std::vector<double>> dists(G const &g) { std::vector<std::vector<double>> d(g.n); for (size_t s = 0; s < g.n; ++s) if (!sp(g, s, d[s])) throw Discard{}; return d; }
static void eqn(Ctx &c, std::string const &who, double got, double want) { if (got != want) c.fail(who + " is " + vstr(got) + ", by definition " + vstr(want)); }
static void degree(Ctx &c) {
    G g = gen(c, true); auto A = gmat<T>(g); if (g.edges() >= 2) c.nontrivial();
    for (size_t v = 0; v < g.n; ++v) { size_t in = 0, out = 0; for (size_t u = 0; u < g.n; ++u) { in += g.has(u, v); out += g.has(v, u); } std::string V = " of vertex " + std::to_string(v);
        eqn(c, "vertex_in_degree" + V, (double)algorithms::vertex_in_degree(A, v), (double)in); eqn(c, "vertex_out_degree" + V, (double)algorithms::vertex_out_degree(A, v), (double)out); eqn(c, "vertex_degree" + V, (double)algorithms::vertex_degree(A, v), (double)(in + out)); }
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
static void distance(Ctx &c) {
    G g = gen(c, true); auto d = dists(g); auto A = gmat<T>(g); size_t s = c.draw(g.n);
    bool far = false; for (size_t u = 0; u < g.n; ++u) for (size_t v = 0; v < g.n; ++v) if (u != v && d[u][v] < INF && (!g.w[u][v] || *g.w[u][v] > d[u][v])) far = true; if (far) c.nontrivial();
    grb::Vector<T> r(g.n); if (c.boolean()) r.setElement(c.draw(g.n), T(3)); algorithms::graph_distance(A, s, r); auto m = observe(c, r, "distances");
    for (size_t v = 0; v < g.n; ++v) { if ((d[s][v] < INF) != m.d[v].has_value() || (m.d[v] && (double)*m.d[v] != d[s][v])) c.fail("graph_distance from " + std::to_string(s) + " to " + std::to_string(v) + " gives " + (m.d[v] ? vstr(*m.d[v]) : "nothing") + ", true distance " + vstr(d[s][v])); }
    grb::Matrix<T> R(g.n, g.n); if (c.boolean()) R.setElement(0, g.n - 1, T(1)); algorithms::graph_distance_matrix(A, R); auto M = observe(c, R, "distance matrix");
    for (size_t u = 0; u < g.n; ++u) for (size_t v = 0; v < g.n; ++v) { auto x = M.at(u, v); if ((d[u][v] < INF) != x.has_value() || (x && (double)*x != d[u][v])) c.fail("graph_distance_matrix from " + std::to_string(u) + " to " + std::to_string(v) + " gives " + (x ? vstr(*x) : "nothing") + ", true distance " + vstr(d[u][v])); }
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
static void summary(Ctx &c) {
    G g = gen(c, false); auto d = dists(g); auto A = gmat<T>(g);
    double rad = INF, dia = 0; bool far = false, unr = false;
    for (size_t u = 0; u < g.n; ++u) { double e = 0, s = 0; for (size_t v = 0; v < g.n; ++v) if (d[u][v] < INF) { e = std::max(e, d[u][v]); s += d[u][v]; if (u != v && !g.w[u][v]) far = true; } else unr = true;
        rad = std::min(rad, e); dia = std::max(dia, e);
        eqn(c, "vertex_eccentricity of " + std::to_string(u), (double)algorithms::vertex_eccentricity(A, u), e); eqn(c, "closeness_centrality of " + std::to_string(u), (double)algorithms::closeness_centrality(A, u), s); }
    if (far) c.nontrivial(); if (unr) c.label("unreachable pairs"); if (rad != dia) c.label("radius differs from diameter");
    eqn(c, "graph_radius", (double)algorithms::graph_radius(A), rad); eqn(c, "graph_diameter", (double)algorithms::graph_diameter(A), dia);
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
TARGET("degree", degree) TARGET("distance", distance) TARGET("summary", summary)
