// C38: algorithms do not depend on how vertices are numbered, nor on other components of the graph: results on a graph embedded by an injective
// vertex map into a larger graph (whose other vertices touch none of its own) are the results on the graph, mapped.
#define VF_MAIN
#include "alg.hpp"
#if PART == 0
#include <algorithms/bfs.hpp>
#include <algorithms/sssp.hpp>
#include <algorithms/apsp.hpp>
#include <algorithms/metrics.hpp>
#else
#include <algorithms/bc.hpp>
#include <algorithms/k_truss.hpp>
#include <algorithms/triangle_count.hpp>
#include <algorithms/maxflow.hpp>
#include <algorithms/mst.hpp>
#include <algorithms/page_rank.hpp>
#endif
using namespace vf;
namespace {
#if CT == 0
using T = double;
#else
using T = int32_t;
#endif
using Res = std::map<std::pair<size_t, size_t>, double>;      // coordinates (vertices) -> value
struct In { size_t n, s, t; grb::Matrix<T> A; };
constexpr size_t NOV = SIZE_MAX;
template<class V> Res vres(Ctx &c, V const &v) { Res r; auto m = observe(c, v, "result"); for (size_t i = 0; i < m.n(); ++i) if (m.d[i]) r[{i, NOV}] = (double)*m.d[i]; return r; }
template<class M> Res mres(Ctx &c, M const &v) { Res r; auto m = observe(c, v, "result"); for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) if (m.at(i, j)) r[{i, j}] = (double)*m.at(i, j); return r; }
template<class L> Res lres(L const &v) { Res r; size_t i = 0; for (auto x : v) r[{i++, NOV}] = (double)x; return r; }
Res one(double x) { return {{{NOV, NOV}, x}}; }
enum { UND = 1, DAG = 2, CONN = 4, PERM_ONLY = 8, SMALL = 16, DISTINCT = 32, LOOPS = 64, POS = 128 };
struct Alg { char const *name; int flags; double tol; Res (*f)(Ctx &, In const &); };
grb::Vector<bool> wave(In const &x) { grb::Vector<bool> w(x.n); w.setElement(x.s, true); return w; }
Alg const algs[] = {
#if PART == 0
    {"bfs_level", LOOPS, 0, [](Ctx &c, In const &x) { grb::Vector<grb::IndexType> p(x.n); algorithms::bfs_level(x.A, x.s, p); return vres(c, p); }},
    {"bfs_level_masked", LOOPS, 0, [](Ctx &c, In const &x) { grb::Vector<grb::IndexType> p(x.n); auto w = wave(x); algorithms::bfs_level_masked(x.A, w, p); return vres(c, p); }},
    {"bfs_level_masked_v2", LOOPS, 0, [](Ctx &c, In const &x) { grb::Vector<grb::IndexType> p(x.n); auto w = wave(x); algorithms::bfs_level_masked_v2(x.A, w, p); return vres(c, p); }},
    {"sssp", LOOPS | POS, 0, [](Ctx &c, In const &x) { grb::Vector<T> d(x.n); d.setElement(x.s, 0); algorithms::sssp(x.A, d); return vres(c, d); }},
    {"filtered_sssp", LOOPS | POS, 0, [](Ctx &c, In const &x) { grb::Vector<T> d(x.n); d.setElement(x.s, 0); algorithms::filtered_sssp(x.A, d); return vres(c, d); }},
    {"sssp_delta_step", POS, 0, [](Ctx &c, In const &x) { grb::Vector<T> d(x.n); algorithms::sssp_delta_step(x.A, T(3), x.s, d); return vres(c, d); }},
    {"apsp", LOOPS | POS | SMALL, 0, [](Ctx &c, In const &x) { return mres(c, algorithms::apsp(x.A)); }},
    {"vertex_degree", LOOPS, 0, [](Ctx &c, In const &x) { std::vector<double> d; for (size_t v = 0; v < x.n; ++v) d.push_back((double)algorithms::vertex_degree(x.A, v)); return lres(d); }},
    {"graph_distance", LOOPS, 0, [](Ctx &c, In const &x) { grb::Vector<T> r(x.n); algorithms::graph_distance(x.A, x.s, r); return vres(c, r); }},
    {"closeness_centrality", LOOPS | CONN | UND | PERM_ONLY, 0, [](Ctx &c, In const &x) { return one((double)algorithms::closeness_centrality(x.A, x.s)); }},
    {"vertex_eccentricity", LOOPS | CONN | UND | PERM_ONLY, 0, [](Ctx &c, In const &x) { return one((double)algorithms::vertex_eccentricity(x.A, x.s)); }},
    {"graph_diameter", LOOPS | CONN | UND | PERM_ONLY | SMALL, 0, [](Ctx &c, In const &x) { return one((double)algorithms::graph_diameter(x.A)); }},
    {"graph_radius", LOOPS | CONN | UND | PERM_ONLY | SMALL, 0, [](Ctx &c, In const &x) { return one((double)algorithms::graph_radius(x.A)); }},
#else
    {"vertex_betweenness_centrality", SMALL, 1e-4, [](Ctx &c, In const &x) { return lres(algorithms::vertex_betweenness_centrality(x.A)); }},
    {"vertex_betweenness_centrality_batch", 0, 1e-4, [](Ctx &c, In const &x) { grb::IndexArrayType s{x.s}; return lres(algorithms::vertex_betweenness_centrality_batch(x.A, s)); }},
    {"vertex_betweenness_centrality_batch_alt", 0, 1e-4, [](Ctx &c, In const &x) { grb::IndexArrayType s{x.s}; return lres(algorithms::vertex_betweenness_centrality_batch_alt(x.A, s)); }},
    {"vertex_betweenness_centrality_batch_alt_trans", 0, 1e-4, [](Ctx &c, In const &x) { grb::IndexArrayType s{x.s}; return lres(algorithms::vertex_betweenness_centrality_batch_alt_trans(x.A, s)); }},
    {"vertex_betweenness_centrality_batch_alt_trans_v2", 0, 1e-4, [](Ctx &c, In const &x) { grb::IndexArrayType s{x.s}; return lres(algorithms::vertex_betweenness_centrality_batch_alt_trans_v2(x.A, s)); }},
    {"edge_betweenness_centrality", SMALL, 1e-4, [](Ctx &c, In const &x) { Res r = mres(c, algorithms::edge_betweenness_centrality(x.A)); for (auto i = r.begin(); i != r.end();) if (i->second == 0) i = r.erase(i); else ++i; return r; }},
    {"triangle_count", UND, 0, [](Ctx &c, In const &x) { return one((double)algorithms::triangle_count(x.A)); }},
    {"triangle_count_masked", UND, 0, [](Ctx &c, In const &x) { grb::Matrix<T> L(x.n, x.n), U(x.n, x.n); grb::split(x.A, L, U); return one((double)algorithms::triangle_count_masked(L, U)); }},
    {"k_truss2", UND, 0, [](Ctx &c, In const &x) { return mres(c, algorithms::k_truss2(x.A, 4)); }},
    {"maxflow_push_relabel", POS | DISTINCT | SMALL, 0, [](Ctx &c, In const &x) { return one((double)algorithms::maxflow_push_relabel(x.A, x.s, x.t)); }},
    {"maxflow_ford_fulk", POS | DISTINCT | SMALL, 0, [](Ctx &c, In const &x) { return one((double)algorithms::maxflow_ford_fulk(x.A, x.s, x.t)); }},
    {"mst", UND | CONN | PERM_ONLY | POS, 0, [](Ctx &c, In const &x) { grb::Vector<grb::IndexType> p(x.n); return one((double)algorithms::mst(x.A, p)); }},
    {"page_rank", PERM_ONLY, 1e-6, [](Ctx &c, In const &x) { grb::Vector<double> r(x.n); algorithms::page_rank(x.A, r, 0.85, 1e-12, 400); return vres(c, r); }},
#endif
};
constexpr size_t NA = sizeof algs / sizeof *algs;
void embedded(Ctx &c) {
    Alg const &a = algs[c.draw(NA)]; size_t cap = a.flags & SMALL ? (c.size ? 40 : 16) : (c.size ? 90 : 36);
    size_t n = c.chance(1, 2) ? gen_n(c, a.flags & DISTINCT ? 2 : 1) : 2 + c.draw(cap), N = n, gap = 0;
    if (!(a.flags & PERM_ONLY)) { uint64_t k = c.draw(8); gap = k < 2 ? 0 : k < 5 ? 1 + c.draw(4) : k < 7 ? c.draw(n + 2) : c.draw(a.flags & SMALL ? 40 : 260); N += gap; }
    int gf = (a.flags & UND || c.chance(1, 4) ? GF_UNDIRECTED : 0) | (a.flags & CONN ? GF_CONNECTED : 0) | (a.flags & LOOPS && c.chance(1, 3) ? GF_LOOPS : 0);
    G g = gen_graph(c, n, gf); size_t s = c.draw(n), t = c.draw(n); if (a.flags & DISTINCT && s == t) t = (s + 1) % n;
    if (a.flags & POS) weigh(c, g, {1, 2, 3, 1, 5, 7}, a.flags & UND);
    std::vector<size_t> p(N); std::iota(p.begin(), p.end(), (size_t)0);
    unsigned how = (unsigned)c.draw(4);
    if (how == 1) std::reverse(p.begin(), p.end()); else if (how == 2) std::rotate(p.begin(), p.begin() + c.draw(N), p.end());
    else if (how) for (size_t k = 0; k + 1 < N; ++k) std::swap(p[k], p[k + c.draw(N - k)]);
    G h(N); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (g.w[i][j]) h.w[p[i]][p[j]] = g.w[i][j];
    size_t other = gap ? c.draw(2 * std::min<size_t>(gap, 20) + 1) : 0; bool tri = a.name[0] == 't'; if (tri) other = 0;   // scalar counts over the whole graph: isolated vertices only
    if (std::string(a.name).compare(0, 8, "k_truss2") == 0) other = 0;
    for (size_t k = 0; k < other; ++k) { size_t i = n + c.draw(gap), j = n + c.draw(gap); if (i == j) continue; h.w[p[i]][p[j]] = 1 + (a.flags & POS ? (double)c.draw(4) : 0); if (a.flags & UND) h.w[p[j]][p[i]] = h.w[p[i]][p[j]]; }
    c.label(a.name); c.note(std::string(a.name) + " " + g.str(a.flags & POS) + " source " + std::to_string(s) + " sink " + std::to_string(t) + "\nembedded as " + vecstr(std::vector<size_t>(p.begin(), p.begin() + n)) + " in " + h.str(a.flags & POS));
    if (g.edges() && (N != n || how)) c.nontrivial(); if (N > 64) c.label("more than 64 vertices"); if (gap && other) c.label("other components");
    In x{n, s, t, gmat<T>(g)}, y{N, p[s], p[t], gmat<T>(h)};
    Res r = a.f(c, x), q = a.f(c, y), want;
    std::vector<size_t> inv(N); for (size_t i = 0; i < N; ++i) inv[p[i]] = i;
    auto own = [&](size_t v) { return v == NOV || inv[v] < n; }; auto map = [&](size_t v) { return v == NOV ? v : p[v]; };
    for (auto &[k, v] : r) want[{map(k.first), map(k.second)}] = v;
    for (auto i = q.begin(); i != q.end();) if (own(i->first.first) && own(i->first.second)) ++i; else i = q.erase(i);
    auto str = [](Res const &z) { std::string o; for (auto &[k, v] : z) { o += " "; if (k.first != NOV) o += std::to_string(k.first); if (k.second != NOV) o += "," + std::to_string(k.second); o += ":" + vstr(v); } return o; };
    double scale = 1; for (auto &[k, v] : want) scale = std::max(scale, std::fabs(v));
    bool ok = q.size() == want.size(); for (auto &[k, v] : want) { auto it = q.find(k); ok = ok && it != q.end() && (it->second == v || std::fabs(it->second - v) <= a.tol * scale); }
    if (!ok) c.fail(std::string(a.name) + " on the embedded graph gives" + str(q) + "; on the graph itself (mapped)" + str(want));
    if (!(x.A == gmat<T>(g)) || !(y.A == gmat<T>(h))) c.fail("the graph was changed");
}
TARGET("embedded", embedded)
}
