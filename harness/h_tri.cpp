// C28 triangle counting, C29 k-truss, against direct enumeration.
#define VF_MAIN
#include "alg.hpp"
#include <algorithms/triangle_count.hpp>
#include <algorithms/k_truss.hpp>
#include <algorithms/appendix_algorithms.hpp>
using namespace vf;
#if CT == 0
using T = int32_t;
#elif CT == 1
using T = double;
#elif CT == 2
using T = uint64_t;
#else
using T = int64_t;
#endif
namespace {
size_t triangles(G const &g) { size_t k = 0; for (size_t a = 0; a < g.n; ++a) for (size_t b = 0; b < a; ++b) if (g.has(a, b)) for (size_t d = 0; d < b; ++d) k += g.has(a, d) && g.has(b, d); return k; }
// undirected graph rich in triangles (random, or cliques sharing vertices), relabelled at random
G gen(Ctx &c) {
    G g(0); size_t n = c.chance(1, 80) ? 20 + c.draw(40) : gen_n(c);
    if (c.chance(1, 2)) g = gen_graph(c, n, GF_UNDIRECTED);
    else { g = G(n); size_t k = 1 + c.draw(4); for (size_t i = 0; i < k; ++i) { std::vector<size_t> m; size_t sz = 2 + c.draw(5); for (size_t j = 0; j < sz; ++j) m.push_back(c.draw(n)); for (size_t a : m) for (size_t b : m) if (a != b && !c.chance(1, 12)) g.w[a][b] = g.w[b][a] = 1; } for (size_t i = 0; i < n / 2; ++i) { size_t a = c.draw(n), b = c.draw(n); if (a != b) g.w[a][b] = g.w[b][a] = 1; } }
    c.note(g.str(false)); return g;
}
#if FAM == 28
void count(Ctx &c) {
    G g = gen(c); double want = (double)triangles(g); if (want > 0) c.nontrivial(); if (want > 5) c.label("more than five triangles");
    auto A = gmat<T>(g); grb::Matrix<T> L(g.n, g.n), U(g.n, g.n); bool mine = c.boolean();
    if (mine) { for (size_t i = 0; i < g.n; ++i) for (size_t j = 0; j < g.n; ++j) if (g.has(i, j)) (j < i ? L : U).setElement(i, j, 1); } else grb::split(A, L, U);
    auto L0 = L, U0 = U;
    auto ck = [&](char const *who, double got) { if (got != want) c.fail(std::string(who) + " gives " + vstr(got) + ", the graph has " + vstr(want) + " triangles"); };
    ck("triangle_count", (double)algorithms::triangle_count(A));
    ck("triangle_count_masked(L, U)", (double)algorithms::triangle_count_masked(L, U));
    ck("triangle_count_masked(L)", (double)algorithms::triangle_count_masked(L));
    ck("triangle_count_masked_noT", (double)algorithms::triangle_count_masked_noT(L));
    ck("triangle_count_newGBTL(L, U)", (double)algorithms::triangle_count_newGBTL(L, U));
    ck("triangle_count_appendixB7", (double)algorithms::triangle_count_appendixB7(L));
    if (!(A == gmat<T>(g)) || !(L == L0) || !(U == U0)) c.fail("an input was changed");
}
TARGET("count", count)
#else
// repeatedly drop edges in fewer than k-2 triangles
G truss(G g, size_t k) {
    for (bool ch = true; ch;) { ch = false; G h = g; for (size_t a = 0; a < g.n; ++a) for (size_t b = 0; b < g.n; ++b) if (g.has(a, b)) { size_t s = 0; for (size_t d = 0; d < g.n; ++d) s += g.has(a, d) && g.has(b, d); if (s + 2 < k) { h.w[a][b].reset(); ch = true; } } g = h; }
    return g;
}
void ktruss(Ctx &c) {
    G g = gen(c); size_t k = 3 + (c.chance(2, 3) ? c.draw(3) : c.draw(7)); c.note("k = " + std::to_string(k)); G want = truss(g, k);
    if (want.edges() > 0 && want.edges() < g.edges()) c.nontrivial(); if (!want.edges()) c.label("empty truss");
    auto A = gmat<T>(g); auto r = algorithms::k_truss2(A, k); auto m = observe(c, r, "k_truss2");
    for (size_t a = 0; a < g.n; ++a) for (size_t b = 0; b < g.n; ++b) { auto x = m.at(a, b); if (x.has_value() != want.has(a, b) || (x && (double)*x != 1)) c.fail("k_truss2 " + std::string(x ? "keeps" : "drops") + " edge " + std::to_string(a) + "-" + std::to_string(b) + ", the " + std::to_string(k) + "-truss is " + want.str(false)); }
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
void ktruss_inc(Ctx &c) {
    G g = gen(c); size_t k = 3 + (c.chance(2, 3) ? c.draw(3) : c.draw(7)); c.note("k = " + std::to_string(k)); G want = truss(g, k);
    std::vector<std::pair<size_t, size_t>> e; for (size_t a = 0; a < g.n; ++a) for (size_t b = 0; b < a; ++b) if (g.has(a, b)) e.push_back({a, b});
    if (e.empty()) throw Discard{};
    if (want.edges() > 0 && want.edges() < g.edges()) c.nontrivial(); if (!want.edges()) c.label("empty truss");
    for (size_t i = 0; i + 1 < e.size(); ++i) std::swap(e[i], e[i + c.draw(e.size() - i)]);
    grb::Matrix<T> E(e.size(), g.n); for (size_t i = 0; i < e.size(); ++i) { E.setElement(i, e[i].first, 1); E.setElement(i, e[i].second, 1); }
    auto E0 = E; auto r = algorithms::k_truss(E, k); if (!(E == E0)) c.fail("the incidence matrix was changed");
    std::vector<std::pair<size_t, size_t>> keep; for (auto &x : e) if (want.has(x.first, x.second)) keep.push_back(x);
    std::string wanted = ", the " + std::to_string(k) + "-truss is " + want.str(false);
    if (keep.empty()) { if (r.nvals()) c.fail("k_truss keeps edges" + wanted); return; }
    auto m = observe(c, r, "k_truss"); if (m.r != keep.size() || m.c != g.n) c.fail("k_truss keeps " + std::to_string(m.r) + " edges" + wanted);
    for (size_t i = 0; i < keep.size(); ++i) for (size_t v = 0; v < g.n; ++v) { auto x = m.at(i, v); bool in = v == keep[i].first || v == keep[i].second; if (x.has_value() != in || (x && (double)*x != 1)) c.fail("k_truss: row " + std::to_string(i) + " is not the edge " + std::to_string(keep[i].first) + "-" + std::to_string(keep[i].second) + wanted); }
}
TARGET("ktruss", ktruss) TARGET("ktruss_inc", ktruss_inc)
#endif
}
