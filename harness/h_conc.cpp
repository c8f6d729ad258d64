// C35: algorithms run by several threads at once on shared graphs give what they give alone, and again what they gave before. Built with ThreadSanitizer.
#define VF_MAIN
#include "alg.hpp"
#include "threads.hpp"
#if PART == 0
#include <algorithms/bfs.hpp>
#include <algorithms/sssp.hpp>
#include <algorithms/apsp.hpp>
#include <algorithms/metrics.hpp>
#include <algorithms/bc.hpp>
#else
#include <algorithms/cluster.hpp>
#include <algorithms/cluster_louvain.hpp>
#include <algorithms/k_truss.hpp>
#include <algorithms/triangle_count.hpp>
#include <algorithms/maxflow.hpp>
#include <algorithms/mis.hpp>
#include <algorithms/mst.hpp>
#include <algorithms/page_rank.hpp>
#endif
using namespace vf;
namespace {
using T = double;
struct In { size_t n; grb::Matrix<T> A, U, L, P; grb::Matrix<bool> Ub; size_t s, t; unsigned seed; std::vector<T> w; };   // directed, undirected, lower triangle, connected weights
template<class M> std::string ms(M const &m) { Ctx q; return observe(q, m, "result").str(); }
template<class V> std::string ls(V const &v) { std::string s; for (auto x : v) s += vstr(x) + " "; return s; }
struct Alg { char const *name; std::string (*f)(In const &); };
grb::Vector<bool> wave(In const &x) { grb::Vector<bool> w(x.n); w.setElement(x.s, true); return w; }
Alg const algs[] = {
#if PART == 0
    {"bfs", [](In const &x) { grb::Vector<grb::IndexType> p(x.n); algorithms::bfs(x.A, x.s, p); return ms(p); }},
    {"bfs_level", [](In const &x) { grb::Vector<grb::IndexType> p(x.n); algorithms::bfs_level(x.A, x.s, p); return ms(p); }},
    {"bfs_level_masked", [](In const &x) { grb::Vector<grb::IndexType> p(x.n); auto w = wave(x); algorithms::bfs_level_masked(x.A, w, p); return ms(p); }},
    {"bfs_level_masked_v2", [](In const &x) { grb::Vector<grb::IndexType> p(x.n); auto w = wave(x); algorithms::bfs_level_masked_v2(x.A, w, p); return ms(p); }},
    {"sssp", [](In const &x) { grb::Vector<T> d(x.n); d.setElement(x.s, 0); bool r = algorithms::sssp(x.A, d); return ms(d) + (r ? "+" : "-"); }},
    {"filtered_sssp", [](In const &x) { grb::Vector<T> d(x.n); d.setElement(x.s, 0); bool r = algorithms::filtered_sssp(x.A, d); return ms(d) + (r ? "+" : "-"); }},
    {"sssp_delta_step", [](In const &x) { grb::Vector<T> d(x.n); algorithms::sssp_delta_step(x.A, T(3), x.s, d); return ms(d); }},
    {"apsp", [](In const &x) { return ms(algorithms::apsp(x.A)); }},
    {"vertex_degree", [](In const &x) { std::string s; for (size_t v = 0; v < x.n; ++v) s += std::to_string(algorithms::vertex_degree(x.A, v)) + " "; return s; }},
    {"closeness_centrality", [](In const &x) { return std::to_string(algorithms::closeness_centrality(x.A, x.s)); }},
    {"graph_diameter", [](In const &x) { return std::to_string(algorithms::graph_diameter(x.A)); }},
    {"graph_distance", [](In const &x) { grb::Vector<T> r(x.n); algorithms::graph_distance(x.A, x.s, r); return ms(r); }},
    {"vertex_betweenness_centrality", [](In const &x) { return ls(algorithms::vertex_betweenness_centrality(x.A)); }},
    {"vertex_betweenness_centrality_batch", [](In const &x) { grb::IndexArrayType s{x.s}; return ls(algorithms::vertex_betweenness_centrality_batch(x.A, s)); }},
    {"vertex_betweenness_centrality_batch_alt", [](In const &x) { grb::IndexArrayType s{x.s}; return ls(algorithms::vertex_betweenness_centrality_batch_alt(x.A, s)); }},
    {"vertex_betweenness_centrality_batch_alt_trans", [](In const &x) { grb::IndexArrayType s{x.s}; return ls(algorithms::vertex_betweenness_centrality_batch_alt_trans(x.A, s)); }},
    {"vertex_betweenness_centrality_batch_alt_trans_v2", [](In const &x) { grb::IndexArrayType s{x.s}; return ls(algorithms::vertex_betweenness_centrality_batch_alt_trans_v2(x.A, s)); }},
    {"edge_betweenness_centrality", [](In const &x) { return ms(algorithms::edge_betweenness_centrality(x.A)); }},
#else
    {"mis", [](In const &x) { grb::Vector<bool> s(x.n); algorithms::mis(x.U, s, (double)x.seed); return ms(s); }},
    {"mst", [](In const &x) { grb::Vector<grb::IndexType> p(x.n); auto r = algorithms::mst(x.P, p); return ms(p) + std::to_string(r); }},
    {"maxflow_push_relabel", [](In const &x) { if (x.s == x.t) return std::string(); return std::to_string(algorithms::maxflow_push_relabel(x.A, x.s, x.t)); }},
    {"maxflow_ford_fulk", [](In const &x) { if (x.s == x.t) return std::string(); return std::to_string(algorithms::maxflow_ford_fulk(x.A, x.s, x.t)); }},
    {"triangle_count", [](In const &x) { return std::to_string(algorithms::triangle_count(x.U)); }},
    {"triangle_count_masked", [](In const &x) { return std::to_string(algorithms::triangle_count_masked(x.L)); }},
    {"k_truss2", [](In const &x) { return ms(algorithms::k_truss2(x.Ub, 3)); }},
    {"page_rank", [](In const &x) { grb::Vector<double> r(x.n); algorithms::page_rank(x.A, r); return ms(r); }},
    {"peer_pressure_cluster", [](In const &x) { return ms(algorithms::peer_pressure_cluster(x.P, 8)); }},
    {"markov_cluster", [](In const &x) { return ms(algorithms::markov_cluster(x.P, 2, 2, 1e-16, 6)); }},
    {"louvain_cluster", [](In const &x) { try { return ms(algorithms::louvain_cluster(x.U, (double)x.seed, 20)); } catch (unsigned k) { return std::string("gave up"); } }},
    {"louvain_cluster_masked", [](In const &x) { try { return ms(algorithms::louvain_cluster_masked(x.U, (double)x.seed, 20)); } catch (unsigned k) { return std::string("gave up"); } }},
#endif
};
constexpr size_t NA = sizeof algs / sizeof *algs;
std::string call(Alg const &a, In const &x) {
    try { return a.f(x); } catch (Fail const &f) { return "inconsistent result: " + f.msg; } catch (std::exception &e) { return std::string("exception ") + e.what(); }
}
In gen(Ctx &c) {
    size_t n = gen_n(c, 2); G a = gen_graph(c, n), u = gen_graph(c, n, GF_UNDIRECTED), p = gen_graph(c, n, GF_UNDIRECTED | GF_CONNECTED);
    weigh(c, a, {1, 2, 3, 1, 5}); weigh(c, p, {1, 2, 3, 4, 5}, true); In x{n, gmat<T>(a), gmat<T>(u), grb::Matrix<T>(n, n), gmat<T>(p), gmat<bool>(u), c.draw(n), c.draw(n), (unsigned)c.draw(1000), {}};
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if (u.has(i, j)) x.L.setElement(i, j, 1);
    c.note("A " + a.str(true) + "\nU " + u.str(false) + "\nP " + p.str(true) + " source " + std::to_string(x.s) + " sink " + std::to_string(x.t) + " seed " + std::to_string(x.seed)); return x;
}
void shared(Ctx &c) {
    In x = gen(c); size_t K = 2 + c.draw(3); std::vector<std::vector<size_t>> who(K); std::string d;
    size_t pickn = 1 + c.draw(4); std::vector<size_t> sel; for (size_t i = 0; i < pickn; ++i) sel.push_back(c.draw(NA));
    for (size_t k = 0; k < K; ++k) { size_t off = c.draw(pickn); d += " |"; for (size_t i = 0; i < pickn; ++i) { who[k].push_back(sel[(off + i) % pickn]); d += std::string(" ") + algs[who[k].back()].name; } }
    c.note("threads:" + d); c.nontrivial(); for (auto s : sel) c.label(algs[s].name);
    In y = x; std::map<size_t, std::string> alone; for (auto s : sel) alone[s] = call(algs[s], x);
    std::vector<std::vector<std::string>> got(K);
    in_threads(K, [&](size_t k) { for (auto s : who[k]) got[k].push_back(call(algs[s], x)); });
    for (size_t k = 0; k < K; ++k) for (size_t i = 0; i < pickn; ++i) if (got[k][i] != alone[who[k][i]]) c.fail(std::string(algs[who[k][i]].name) + " beside other threads gives " + got[k][i] + ", alone " + alone[who[k][i]]);
    if (!(x.A == y.A) || !(x.U == y.U) || !(x.L == y.L) || !(x.P == y.P) || !(x.Ub == y.Ub)) c.fail("a shared graph was changed");
}
// the same call again, after other calls on other graphs of other sizes, gives the same result
void again(Ctx &c) {
    In x = gen(c), z = gen(c); size_t m = 1 + c.draw(4); size_t a = c.draw(NA); std::string first = call(algs[a], x), d = algs[a].name;
    for (size_t i = 0; i < m; ++i) { size_t b = c.draw(NA); bool other = c.boolean(); d += std::string(" ") + algs[b].name + (other ? "(2nd)" : "(1st)"); call(algs[b], other ? z : x); }
    c.note(d + " and again"); c.nontrivial(); c.label(algs[a].name);
    std::string r = call(algs[a], x); if (r != first) c.fail(std::string(algs[a].name) + " gave " + first + " and later " + r);
}
TARGET("shared", shared) TARGET("again", again)
}
