// C37: algorithm routines reject arguments whose shapes or vertex numbers do not fit the graph.
#define VF_MAIN
#include "alg.hpp"
#if PART == 0
#include <algorithms/bfs.hpp>
#include <algorithms/sssp.hpp>
#include <algorithms/apsp.hpp>
#include <algorithms/metrics.hpp>
#elif PART == 1
#include <algorithms/bc.hpp>
#include <algorithms/appendix_algorithms.hpp>
#else
#include <algorithms/cluster.hpp>
#include <algorithms/cluster_louvain.hpp>
#include <algorithms/k_truss.hpp>
#include <algorithms/triangle_count.hpp>
#include <algorithms/maxflow.hpp>
#include <algorithms/mis.hpp>
#include <algorithms/mst.hpp>
#include <algorithms/page_rank.hpp>
#endif
using namespace vf;
using U = grb::IndexType;
namespace {
enum { F_GRAPH = 1, F_V = 2, F_W = 4, F_SRC = 8, F_SINK = 16, F_R = 32, F_B = 64 };    // graph not square, 1st / 2nd container of another size, source / sink out of range, row counts of the containers, second matrix
struct Args { size_t n, v, w, r1, r2; U s, t; grb::IndexArrayType src; };
struct In : Args { grb::Matrix<double> Q, B; };
struct Entry { char const *name; int faults; std::function<void(Ctx &, In const &, bool)> f; };
// out-containers, and a check that they are still valid and inputs unchanged
template<class M, class N> void same_in(Ctx &c, M const &a, N const &b, char const *w) { if (!(a == b)) c.fail(std::string(w) + " was changed by the rejected call"); }
#define CALL(...) [](Ctx &c, In const &x, bool) { __VA_ARGS__; }
template<class T> grb::Vector<T> vec(size_t n, size_t at, T val) { grb::Vector<T> v(n); v.setElement(at % n, val); return v; }
template<class T> grb::Matrix<T> mat(size_t r, size_t n, size_t at, T val) { grb::Matrix<T> v(r, n); for (size_t i = 0; i < r; ++i) v.setElement(i, at % n, val); return v; }
#define OUT(o) struct G##o { Ctx &c; decltype(o) &v; ~G##o() noexcept(false) { if (std::uncaught_exceptions()) { try { observe(c, v, "output of the rejected call"); } catch (Fail const &f) { bad() = f.msg; } } } } g##o{c, o};
std::string &bad() { static std::string s; return s; }
#define VIN(T) auto w = vec<T>(x.w, x.s, (T)1); auto w0 = w
std::vector<Entry> const &entries() { static std::vector<Entry> const e = {
#if PART == 0
    {"bfs(source)", F_GRAPH | F_V | F_SRC, CALL(grb::Vector<U> p(x.v); OUT(p); algorithms::bfs(x.Q, x.s, p))},
    {"bfs(wavefront)", F_GRAPH | F_V | F_W, CALL(grb::Vector<U> p(x.v); OUT(p); VIN(U); algorithms::bfs(x.Q, w, p))},
    {"bfs_batch", F_GRAPH | F_V | F_W | F_R, CALL(grb::Matrix<U> p(x.r1, x.v); OUT(p); auto w = mat<double>(x.r2, x.w, x.s, 1); algorithms::bfs_batch(x.Q, w, p))},
    {"bfs_level(source)", F_GRAPH | F_V | F_SRC, CALL(grb::Vector<U> p(x.v); OUT(p); algorithms::bfs_level(x.Q, x.s, p))},
    {"bfs_level(wavefronts)", F_GRAPH | F_V | F_W | F_R, CALL(grb::Matrix<U> p(x.r1, x.v); OUT(p); auto w = mat<bool>(x.r2, x.w, x.s, 1); algorithms::bfs_level(x.Q, w, p))},
    {"bfs_level_masked", F_GRAPH | F_V | F_W, CALL(grb::Vector<U> p(x.v); OUT(p); VIN(bool); algorithms::bfs_level_masked(x.Q, w, p))},
    {"bfs_level_masked_v2", F_GRAPH | F_V | F_W, CALL(grb::Vector<U> p(x.v); OUT(p); VIN(bool); algorithms::bfs_level_masked_v2(x.Q, w, p))},
    {"batch_bfs_level_masked", F_GRAPH | F_V | F_W | F_R, CALL(grb::Matrix<U> p(x.r1, x.v); OUT(p); auto w = mat<bool>(x.r2, x.w, x.s, 1); algorithms::batch_bfs_level_masked(x.Q, w, p))},
    {"sssp", F_GRAPH | F_V, CALL(auto d = vec<double>(x.v, x.s, 0); OUT(d); algorithms::sssp(x.Q, d))},
    {"filtered_sssp", F_GRAPH | F_V, CALL(auto d = vec<double>(x.v, x.s, 0); OUT(d); algorithms::filtered_sssp(x.Q, d))},
    {"batch_sssp", F_GRAPH | F_V, CALL(auto d = mat<double>(x.r1, x.v, x.s, 0); OUT(d); algorithms::batch_sssp(x.Q, d))},
    {"sssp_delta_step", F_GRAPH | F_V | F_SRC, CALL(grb::Vector<double> d(x.v); OUT(d); algorithms::sssp_delta_step(x.Q, 2., x.s, d))},
    {"apsp", F_GRAPH, CALL(algorithms::apsp(x.Q))},
    {"vertex_in_degree", F_SRC, CALL(algorithms::vertex_in_degree(x.Q, x.s))},
    {"vertex_out_degree", F_SRC, CALL(algorithms::vertex_out_degree(x.Q, x.s))},
    {"vertex_degree", F_SRC, CALL(algorithms::vertex_degree(x.Q, x.s))},
    {"graph_distance", F_GRAPH | F_V | F_SRC, CALL(grb::Vector<double> d(x.v); OUT(d); algorithms::graph_distance(x.Q, x.s, d))},
    {"graph_distance_matrix", F_GRAPH | F_V | F_W, CALL(grb::Matrix<double> d(x.v, x.w); OUT(d); algorithms::graph_distance_matrix(x.Q, d))},
    {"vertex_eccentricity", F_GRAPH | F_SRC, CALL(algorithms::vertex_eccentricity(x.Q, x.s))},
    {"closeness_centrality", F_GRAPH | F_SRC, CALL(algorithms::closeness_centrality(x.Q, x.s))},
    {"graph_radius", F_GRAPH, CALL(algorithms::graph_radius(x.Q))},
    {"graph_diameter", F_GRAPH, CALL(algorithms::graph_diameter(x.Q))},
#elif PART == 1
    {"vertex_betweenness_centrality", F_GRAPH, CALL(algorithms::vertex_betweenness_centrality(x.Q))},
    {"edge_betweenness_centrality", F_GRAPH, CALL(algorithms::edge_betweenness_centrality(x.Q))},
    {"vertex_betweenness_centrality_batch", F_GRAPH | F_SRC, CALL(algorithms::vertex_betweenness_centrality_batch(x.Q, x.src))},
    {"vertex_betweenness_centrality_batch_alt", F_GRAPH | F_SRC, CALL(algorithms::vertex_betweenness_centrality_batch_alt(x.Q, x.src))},
    {"vertex_betweenness_centrality_batch_alt_trans", F_GRAPH | F_SRC, CALL(algorithms::vertex_betweenness_centrality_batch_alt_trans(x.Q, x.src))},
    {"vertex_betweenness_centrality_batch_alt_trans_v2", F_GRAPH | F_SRC, CALL(algorithms::vertex_betweenness_centrality_batch_alt_trans_v2(x.Q, x.src))},
    {"vertex_betweenness_centrality_batch_old", F_GRAPH | F_SRC, CALL(algorithms::vertex_betweenness_centrality_batch_old(x.Q, x.src))},
    {"bfs_level_appendixB1", F_GRAPH | F_V | F_SRC, CALL(grb::Vector<U> p(x.v); OUT(p); algorithms::bfs_level_appendixB1(p, x.Q, x.s))},
    {"bfs_level_appendixB2", F_GRAPH | F_V | F_SRC, CALL(grb::Vector<U> p(x.v); OUT(p); algorithms::bfs_level_appendixB2(p, x.Q, x.s))},
    {"bfs_parent_appendixB3", F_GRAPH | F_V | F_SRC, CALL(grb::Vector<U> p(x.v); OUT(p); algorithms::bfs_parent_appendixB3(p, x.Q, x.s))},
    {"BC_appendixB4", F_V | F_SRC, CALL(grb::Vector<float> p(x.v); OUT(p); algorithms::BC_appendixB4(p, x.Q, x.s))},
    {"BC_update_appendixB5", F_V | F_SRC, CALL(grb::Vector<float> p(x.v); OUT(p); algorithms::BC_update_appendixB5(p, x.Q, x.src))},
    {"mis_appendixB6", F_V, CALL(grb::Vector<bool> p(x.v); OUT(p); algorithms::mis_appendixB6(p, x.Q, 3.))},
    {"triangle_count_appendixB7", F_GRAPH, CALL(algorithms::triangle_count_appendixB7(x.Q))},
#else
    {"peer_pressure_cluster(factory)", F_GRAPH, CALL(algorithms::peer_pressure_cluster(x.Q, 4))},
    {"peer_pressure_cluster", F_GRAPH | F_V | F_W, CALL(auto d = mat<bool>(x.v, x.w, 0, true); OUT(d); algorithms::peer_pressure_cluster(x.Q, d, 4))},
    {"peer_pressure_cluster_v2", F_GRAPH | F_V | F_W, CALL(auto d = mat<bool>(x.v, x.w, 0, true); OUT(d); algorithms::peer_pressure_cluster_v2(x.Q, d, 4))},
    {"markov_cluster", F_GRAPH, CALL(algorithms::markov_cluster(x.Q, 2, 2, 1e-9, 4))},
    {"louvain_cluster", F_GRAPH, CALL(algorithms::louvain_cluster(x.Q, 11., 5))},
    {"louvain_cluster_masked", F_GRAPH, CALL(algorithms::louvain_cluster_masked(x.Q, 11., 5))},
    {"k_truss2", F_GRAPH, CALL(algorithms::k_truss2(x.Q, 3))},
    {"triangle_count", F_GRAPH, CALL(algorithms::triangle_count(x.Q))},
    {"triangle_count_masked", F_GRAPH, CALL(algorithms::triangle_count_masked(x.Q))},
    {"triangle_count_masked(L,U)", F_B, CALL(algorithms::triangle_count_masked(x.Q, x.B))},
    {"triangle_count_newGBTL", F_B, CALL(algorithms::triangle_count_newGBTL(x.Q, x.B))},
    {"triangle_count_masked_noT", F_GRAPH, CALL(algorithms::triangle_count_masked_noT(x.Q))},
    {"maxflow_push_relabel", F_GRAPH | F_SRC | F_SINK, CALL(algorithms::maxflow_push_relabel(x.Q, x.s, x.t))},
    {"maxflow_ford_fulk", F_GRAPH | F_SRC | F_SINK, CALL(algorithms::maxflow_ford_fulk(x.Q, x.s, x.t))},
    {"mis", F_GRAPH | F_V, CALL(grb::Vector<bool> p(x.v); OUT(p); algorithms::mis(x.Q, p, 3.))},
    {"mst", F_GRAPH | F_V, CALL(grb::Vector<U> p(x.v); OUT(p); algorithms::mst(x.Q, p))},
    {"page_rank", F_GRAPH | F_V, CALL(grb::Vector<double> p(x.v); OUT(p); algorithms::page_rank(x.Q, p))},
#endif
    }; return e; }
void reject(Ctx &c) {
    auto const &es = entries(); auto const &e = es[c.draw(es.size())]; Args x{};
    size_t n = gen_n(c, 2); G g = gen_graph(c, n); weigh(c, g, {1, 2, 3}); std::vector<int> fs; for (int b = 1; b <= F_B; b *= 2) if (e.faults & b) fs.push_back(b);
    int f = c.pick(fs); auto other = [&](size_t k) { size_t v = c.boolean() ? k + 1 + c.draw(3) : 1 + c.draw(k); return v == k ? k + 1 : v; };
    x.n = n; x.v = x.w = n; x.r1 = x.r2 = 1 + c.draw(3); x.s = c.draw(n); x.t = (x.s + 1 + c.draw(n - 1)) % n;
    size_t gr = n, gc = n, br = n, bc = n; std::string what;
    switch (f) {
    case F_GRAPH: if (c.boolean()) gr = other(n); else gc = other(n); what = "graph " + std::to_string(gr) + "x" + std::to_string(gc); if (c.boolean()) x.v = x.w = gr; break;
    case F_V: x.v = other(n); what = "1st container " + std::to_string(x.v); break;
    case F_W: x.w = other(n); what = "2nd container " + std::to_string(x.w); break;
    case F_R: x.r1 = other(x.r2); what = "rows " + std::to_string(x.r1) + " and " + std::to_string(x.r2); break;
    case F_B: if (c.boolean()) br = other(n); else bc = other(n); what = "2nd matrix " + std::to_string(br) + "x" + std::to_string(bc); break;
    case F_SRC: x.s = n + c.draw(3); what = "source " + std::to_string(x.s); break;
    case F_SINK: x.t = n + c.draw(3); what = "sink " + std::to_string(x.t); break;
    }
    if (x.s >= gr && f != F_SRC) x.s %= std::min(gr, gc); if (x.t >= gr && f != F_SINK) x.t %= std::min(gr, gc); if (x.t == x.s) x.t = x.s ? x.s - 1 : 1;
    MM<double> q(gr, gc), b(br, bc); for (size_t i = 0; i < gr; ++i) for (size_t j = 0; j < gc; ++j) if (i < n && j < n) { if (g.w[i][j]) q.at(i, j) = *g.w[i][j]; } else if (c.chance(1, 3)) q.at(i, j) = 1;
    for (auto &y : b.d) if (c.chance(1, 2)) y = 1;
    { size_t k = 1 + c.draw(3); for (size_t i = 0; i < k; ++i) x.src.push_back(c.draw(std::min(gr, gc))); if (f == F_SRC) x.src[c.draw(k)] = x.s; }
    c.note(std::string(e.name) + " n=" + std::to_string(n) + " " + what + "\n  graph " + q.str() + " s=" + std::to_string(x.s) + " t=" + std::to_string(x.t)); c.nontrivial(); c.label(e.name);
    bad().clear(); std::string how; In const y{x, to_grb(q), to_grb(b)};
    try { e.f(c, y, true); } catch (grb::DimensionException &) { how = "Dimension"; } catch (grb::IndexOutOfBoundsException &) { how = "IndexOutOfBounds"; } catch (grb::InvalidIndexException &) { how = "InvalidIndex"; }
    if (how.empty()) c.fail(std::string(e.name) + " accepted " + what + " with n=" + std::to_string(n));
    if (!bad().empty()) c.fail(std::string(e.name) + ": " + bad());
    if (!(y.Q == to_grb(q)) || !(y.B == to_grb(b))) c.fail("the graph was changed");
}
TARGET("reject", reject)
}
