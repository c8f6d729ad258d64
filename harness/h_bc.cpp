// C27: betweenness centrality against pairwise shortest-path counting.
#define VF_MAIN
#include "alg.hpp"
#include <algorithms/bc.hpp>
#include <algorithms/appendix_algorithms.hpp>
using namespace vf;
#if CT == 0
using T = double;
#elif CT == 1
using T = int32_t;
#elif CT == 2
using T = float;
#else
using T = bool;
#endif
namespace {
struct Paths { std::vector<std::vector<size_t>> d; std::vector<std::vector<double>> cnt; };
Paths paths(G const &g) {
    Paths p; p.d.resize(g.n); p.cnt.assign(g.n, std::vector<double>(g.n, 0));
    for (size_t s = 0; s < g.n; ++s) { p.d[s] = hops(g, {s}); p.cnt[s][s] = 1;
        for (size_t L = 1; L < g.n; ++L) for (size_t v = 0; v < g.n; ++v) if (p.d[s][v] == L) for (size_t u = 0; u < g.n; ++u) if (p.d[s][u] == L - 1 && g.has(u, v)) p.cnt[s][v] += p.cnt[s][u];
        for (size_t v = 0; v < g.n; ++v) if (p.cnt[s][v] > 1e8) throw Discard{}; }
    return p;
}
std::vector<double> vbc(G const &g, Paths const &p, std::vector<size_t> const &src) {
    std::vector<double> b(g.n, 0);
    for (size_t s : src) for (size_t t = 0; t < g.n; ++t) if (t != s && p.d[s][t] != SIZE_MAX) for (size_t v = 0; v < g.n; ++v)
        if (v != s && v != t && p.d[s][v] != SIZE_MAX && p.d[v][t] != SIZE_MAX && p.d[s][v] + p.d[v][t] == p.d[s][t]) b[v] += p.cnt[s][v] * p.cnt[v][t] / p.cnt[s][t];
    return b;
}
G gen(Ctx &c, Paths &p, std::vector<size_t> &src) {
    G g = gen_any(c, c.chance(1, 4) ? GF_UNDIRECTED : 0, 70); p = paths(g);
    std::vector<size_t> all(g.n); std::iota(all.begin(), all.end(), (size_t)0);
    for (size_t k = 0; k + 1 < g.n; ++k) std::swap(all[k], all[k + c.draw(g.n - k)]);
    size_t m = c.chance(1, 4) ? g.n : 1 + c.draw(g.n); src.assign(all.begin(), all.begin() + m);
    size_t deep = 0; bool multi = false; for (size_t s : src) for (size_t t = 0; t < g.n; ++t) if (p.d[s][t] != SIZE_MAX) { deep = std::max(deep, p.d[s][t]); multi |= p.cnt[s][t] > 1; }
    if (deep >= 2) c.nontrivial(); if (deep > 10) c.label("paths longer than 10"); if (multi) c.label("several shortest paths");
    c.note(g.str(false)); return g;
}
template<class V> void cmp(Ctx &c, char const *who, V const &got, std::vector<double> const &want, std::vector<size_t> const &src) {
    if (got.size() != want.size()) c.fail(std::string(who) + " returned " + std::to_string(got.size()) + " values");
    double scale = 1; for (double x : want) scale = std::max(scale, std::fabs(x)); scale += src.size();
    for (size_t v = 0; v < want.size(); ++v) if (!(std::fabs((double)got[v] - want[v]) <= 1e-4 * scale)) c.fail(std::string(who) + " from sources " + vecstr(src) + " gives vertex " + std::to_string(v) + " " + vstr(got[v]) + ", by definition " + vstr(want[v]));
}
void batch(Ctx &c) {
    Paths p; std::vector<size_t> src; G g = gen(c, p, src); c.note("sources " + vecstr(src));
    auto want = vbc(g, p, src); auto A = gmat<T>(g); grb::IndexArrayType s(src.begin(), src.end());
    cmp(c, "vertex_betweenness_centrality_batch", algorithms::vertex_betweenness_centrality_batch(A, s), want, src);
    cmp(c, "vertex_betweenness_centrality_batch_alt", algorithms::vertex_betweenness_centrality_batch_alt(A, s), want, src);
    cmp(c, "vertex_betweenness_centrality_batch_alt_trans", algorithms::vertex_betweenness_centrality_batch_alt_trans(A, s), want, src);
    cmp(c, "vertex_betweenness_centrality_batch_alt_trans_v2", algorithms::vertex_betweenness_centrality_batch_alt_trans_v2(A, s), want, src);
    cmp(c, "vertex_betweenness_centrality_batch_old", algorithms::vertex_betweenness_centrality_batch_old(A, s), want, src);
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
void appendix(Ctx &c) {
    Paths p; std::vector<size_t> src; G g = gen(c, p, src); c.note("sources " + vecstr(src)); auto A = gmat<T>(g);
    auto want = vbc(g, p, src);
    grb::Vector<float> b5(g.n); if (c.boolean()) b5.setElement(c.draw(g.n), 7.f);
    algorithms::BC_update_appendixB5(b5, A, src);
    auto vals = [&](grb::Vector<float> const &v) { auto m = observe(c, v, "centrality"); std::vector<double> r(g.n, 0); for (size_t i = 0; i < g.n; ++i) if (m.d[i]) r[i] = *m.d[i]; return r; };
    cmp(c, "BC_update_appendixB5", vals(b5), want, src);
    std::vector<double> base(g.n, 0); grb::Vector<float> b4(g.n);
    if (c.boolean()) for (size_t i = 0; i < g.n; ++i) if (c.boolean()) { base[i] = (double)c.draw(5); b4.setElement(i, (float)base[i]); }
    for (size_t s : src) algorithms::BC_appendixB4(b4, A, s);
    for (size_t i = 0; i < g.n; ++i) base[i] += want[i];
    cmp(c, "BC_appendixB4 (accumulated over the sources)", vals(b4), base, src);
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
TARGET("batch", batch) TARGET("appendix", appendix)
#if CT == 0 || CT == 2
void full(Ctx &c) {
    Paths p; std::vector<size_t> src; G g = gen(c, p, src); auto A = gmat<T>(g); std::vector<size_t> all(g.n); std::iota(all.begin(), all.end(), (size_t)0);
    cmp(c, "vertex_betweenness_centrality", algorithms::vertex_betweenness_centrality(A), vbc(g, p, all), all);
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
void edge(Ctx &c) {
    Paths p; std::vector<size_t> src; G g = gen(c, p, src); auto A = gmat<T>(g);
    auto r = algorithms::edge_betweenness_centrality(A); auto m = observe(c, r, "edge centrality");
    for (size_t u = 0; u < g.n; ++u) for (size_t v = 0; v < g.n; ++v) { double w = 0;
        if (g.has(u, v)) for (size_t s = 0; s < g.n; ++s) for (size_t t = 0; t < g.n; ++t) if (s != t && p.d[s][u] != SIZE_MAX && p.d[v][t] != SIZE_MAX && p.d[s][u] + 1 + p.d[v][t] == p.d[s][t]) w += p.cnt[s][u] * p.cnt[v][t];   // shortest paths that use the edge
        auto x = m.at(u, v); double got = x ? (double)*x : 0;
        if (!(std::fabs(got - w) <= 1e-4 * (1 + w))) c.fail("edge_betweenness_centrality gives edge " + std::to_string(u) + ">" + std::to_string(v) + " " + vstr(got) + ", by definition " + vstr(w)); }
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
TARGET("full", full) TARGET("edge", edge)
#endif
}
