// C34: peer-pressure, Markov and Louvain clustering.
#define VF_MAIN
#include "alg.hpp"
#include <algorithms/cluster.hpp>
#include <algorithms/cluster_louvain.hpp>
using namespace vf;
#if CT == 0
using T = double;
#elif CT == 1
using T = int32_t;
#else
using T = float;
#endif
namespace {
using W = std::vector<std::vector<double>>;
// each column's only row, or fail
std::vector<size_t> one_per_col(Ctx &c, grb::Matrix<bool> const &C, size_t n, char const *who) {
    auto m = observe(c, C, who); std::vector<size_t> a(n, SIZE_MAX);
    for (size_t v = 0; v < n; ++v) { for (size_t i = 0; i < n; ++i) if (m.at(i, v)) { if (!*m.at(i, v)) c.fail(std::string(who) + " stores false for vertex " + std::to_string(v)); if (a[v] != SIZE_MAX) c.fail(std::string(who) + " puts vertex " + std::to_string(v) + " in clusters " + std::to_string(a[v]) + " and " + std::to_string(i)); a[v] = i; } if (a[v] == SIZE_MAX) c.fail(std::string(who) + " puts vertex " + std::to_string(v) + " in no cluster"); }
    return a;
}
// exact rational-free voting: votes are compared with tolerance eps; chosen must be highest-numbered among clear winners
W votes(G const &g, std::vector<size_t> const &a, bool norm) {
    W t(g.n, std::vector<double>(g.n, 0)); for (size_t u = 0; u < g.n; ++u) { double out = 0; for (size_t v = 0; v < g.n; ++v) if (g.w[u][v]) out += *g.w[u][v]; for (size_t v = 0; v < g.n; ++v) if (g.w[u][v]) t[a[u]][v] += norm ? *g.w[u][v] / out : *g.w[u][v]; }
    return t;
}
void peer(Ctx &c) {
    G g = gen_any(c, GF_ALL_LOOPS | (c.boolean() ? GF_UNDIRECTED : 0), 50); bool norm = c.boolean(), exact = !norm;
    if (c.chance(1, 3)) weigh(c, g, {1, 2, 3, 1, 5});
    if (norm && c.boolean()) {     // out-weights that are powers of two: votes are exact in binary
        exact = true; for (size_t u = 0; u < g.n; ++u) { double s = 0; for (size_t v = 0; v < g.n; ++v) if (g.w[u][v]) s += *g.w[u][v]; double p = 1; while (p < s) p *= 2; *g.w[u][u] += p - s; } }
    std::vector<size_t> a(g.n); bool ident = c.boolean(); for (size_t v = 0; v < g.n; ++v) a[v] = ident ? v : c.draw(g.n);
    unsigned rounds = c.chance(1, 3) ? 1 : c.chance(1, 2) ? 2 + (unsigned)c.draw(4) : 30; if (!exact) rounds = c.boolean() ? 1 : 30;
    c.note(std::string(norm ? "peer_pressure_cluster " : "peer_pressure_cluster_v2 ") + g.str(true) + " start " + vecstr(a) + " rounds " + std::to_string(rounds));
    auto A = gmat<T>(g); grb::Matrix<bool> C(g.n, g.n); for (size_t v = 0; v < g.n; ++v) C.setElement(a[v], v, true);
    bool factory = norm && ident && c.boolean(); if (g.edges() > g.n + 2) c.nontrivial();
    auto run = [&](unsigned k) { grb::Matrix<bool> D = C; if (factory) D = algorithms::peer_pressure_cluster(A, k); else if (norm) algorithms::peer_pressure_cluster(A, D, k); else algorithms::peer_pressure_cluster_v2(A, D, k); return D; };
    auto D = run(rounds); auto got = one_per_col(c, D, g.n, norm ? "peer_pressure_cluster" : "peer_pressure_cluster_v2");
    auto better = [&](std::vector<size_t> const &from, std::vector<size_t> const &to) {
        auto t = votes(g, from, norm); double eps = exact ? 0 : 1e-6;
        for (size_t v = 0; v < g.n; ++v) { double best = 0; for (size_t i = 0; i < g.n; ++i) best = std::max(best, t[i][v]); size_t top = 0; for (size_t i = 0; i < g.n; ++i) if (t[i][v] == best) top = i;
            if (t[to[v]][v] < best - eps || (exact && to[v] != top)) c.fail("vertex " + std::to_string(v) + " is put in cluster " + std::to_string(to[v]) + " with vote " + vstr(t[to[v]][v]) + ", cluster " + std::to_string(top) + " has " + vstr(best) + "; clusters before the round " + vecstr(from)); } };
    if (exact) {   // the whole trajectory is determined
        auto cur = a; unsigned k = 0; for (; k < rounds; ++k) { auto t = votes(g, cur, norm); std::vector<size_t> nx(g.n); for (size_t v = 0; v < g.n; ++v) { double best = -1; for (size_t i = 0; i < g.n; ++i) if (t[i][v] > 0 && t[i][v] >= best) { best = t[i][v]; nx[v] = i; } } if (nx == cur) break; cur = nx; }
        if (k < rounds) c.label("converged"); if (cur != got) c.fail("clusters are " + vecstr(got) + ", voting gives " + vecstr(cur));
    } else if (rounds == 1) better(a, got);
    else { auto E = run(rounds + 1); if (E == D) { c.label("converged"); better(got, got); } }
    auto ids = algorithms::get_cluster_assignments(D); if (ids.size() != g.n) c.fail("get_cluster_assignments has the wrong size"); for (size_t v = 0; v < g.n; ++v) if (ids[v] != got[v]) c.fail("get_cluster_assignments gives vertex " + std::to_string(v) + " cluster " + std::to_string(ids[v]) + " instead of " + std::to_string(got[v]));
    auto iv = observe(c, algorithms::get_cluster_assignments_v2(D), "assignments"); for (size_t v = 0; v < g.n; ++v) if (!iv.d[v] || *iv.d[v] != got[v]) c.fail("get_cluster_assignments_v2 gives vertex " + std::to_string(v) + (iv.d[v] ? " cluster " + std::to_string(*iv.d[v]) : " none") + " instead of " + std::to_string(got[v]));
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
// cluster lookup on any matrix: largest value per column (lowest row on ties), resp. highest stored row
void lookup(Ctx &c) {
    G g = gen_any(c, GF_LOOPS, 80); size_t n = g.n; weigh(c, g, {1, 2, 3, 0.5, 0.25}); c.note(g.str(true)); grb::Matrix<double> M = gmat<double>(g);
    auto ids = algorithms::get_cluster_assignments(M); auto iv = observe(c, algorithms::get_cluster_assignments_v2(M), "assignments"); if (g.edges() > n) c.nontrivial();
    for (size_t v = 0; v < n; ++v) { size_t best = SIZE_MAX, high = SIZE_MAX; for (size_t i = 0; i < n; ++i) if (g.w[i][v]) { high = i; if (best == SIZE_MAX || *g.w[best][v] < *g.w[i][v]) best = i; }
        if (best == SIZE_MAX) { if (ids[v] != std::numeric_limits<grb::IndexType>::max()) c.fail("get_cluster_assignments gives vertex " + std::to_string(v) + ", which has no entry, cluster " + std::to_string(ids[v])); if (iv.d[v]) c.fail("get_cluster_assignments_v2 assigns vertex " + std::to_string(v)); continue; }
        if (ids[v] >= n || !g.w[ids[v]][v] || *g.w[ids[v]][v] != *g.w[best][v]) c.fail("get_cluster_assignments gives vertex " + std::to_string(v) + " cluster " + std::to_string(ids[v]) + ", the largest value is in row " + std::to_string(best));
        if (!iv.d[v] || *iv.d[v] != high) c.fail("get_cluster_assignments_v2: vertex " + std::to_string(v) + " is not in the highest stored row " + std::to_string(high)); }
}
// one Markov round: expansion, inflation, column normalisation
W norm_cols(W a) { size_t n = a.size(); for (size_t j = 0; j < n; ++j) { double s = 0; for (size_t i = 0; i < n; ++i) s += a[i][j]; if (s != 0) for (size_t i = 0; i < n; ++i) a[i][j] /= s; } return a; }
W mcl_round(W const &a, unsigned e, unsigned r) {
    size_t n = a.size(); W p = a; for (unsigned k = 1; k < e; ++k) { W q(n, std::vector<double>(n, 0)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t x = 0; x < n; ++x) q[i][j] += p[i][x] * a[x][j]; p = q; }
    W f = p; for (unsigned k = 1; k < r; ++k) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) f[i][j] *= p[i][j]; return norm_cols(f);
}
W dense(MM<double> const &m) { W w(m.r, std::vector<double>(m.c, 0)); for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) if (m.at(i, j)) w[i][j] = *m.at(i, j); return w; }
void markov(Ctx &c) {
    bool und = !c.chance(1, 3); G g = gen_any(c, GF_ALL_LOOPS | (und ? GF_UNDIRECTED : 0), 50); if (c.chance(1, 3)) weigh(c, g, {1, 2, 3, 1, 5}, und); size_t n = g.n;
    unsigned e = 2 + (unsigned)(c.chance(1, 3) ? c.draw(2) : 0), r = 2 + (unsigned)(c.chance(1, 3) ? c.draw(2) : 0); if (c.chance(1, 10)) { e = 1; } else if (c.chance(1, 10)) r = 1;
    unsigned rounds = c.boolean() ? 1 + (unsigned)c.draw(3) : 40; double thr = 1e-16;
    c.note(g.str(true) + " e=" + std::to_string(e) + " r=" + std::to_string(r) + " rounds=" + std::to_string(rounds)); if (g.edges() > n + 1) c.nontrivial();
    auto A = gmat<T>(g); auto m = observe(c, algorithms::markov_cluster(A, e, r, thr, rounds), "Markov clustering"); auto w = dense(m);
    for (size_t j = 0; j < n; ++j) { double s = 0; for (size_t i = 0; i < n; ++i) { if (!(w[i][j] >= 0)) c.fail("negative entry in column " + std::to_string(j)); s += w[i][j]; } if (!(std::fabs(s - 1) < 1e-9)) c.fail("column " + std::to_string(j) + " sums to " + vstr(s)); }
    W x(n, std::vector<double>(n, 0)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (g.w[i][j]) x[i][j] = *g.w[i][j]; x = norm_cols(x);
    auto diff = [&](W const &p, W const &q) { double d = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) d = std::max(d, std::fabs(p[i][j] - q[i][j])); return d; };
    bool conv = false; if (rounds <= 3) { for (unsigned k = 0; k < rounds && !conv; ++k) { W y = mcl_round(x, e, r); double ms = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) ms += (y[i][j] - x[i][j]) * (y[i][j] - x[i][j]); conv = ms / (double)(n * n) < thr; x = y; } if (!(diff(x, w) < 1e-6)) c.fail("after at most " + std::to_string(rounds) + " rounds the matrix differs by " + vstr(diff(x, w)) + " from its definition"); }
    else { auto w2 = dense(observe(c, algorithms::markov_cluster(A, e, r, thr, rounds + 1), "Markov clustering")); if (w2 == w) { c.label("converged"); W y = mcl_round(w, e, r); if (!(diff(w, y) < 1e-5 * n)) c.fail("it stopped as converged but a further round changes an entry by " + vstr(diff(w, y))); } }
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
void louvain(Ctx &c) {
    G g = gen_any(c, GF_UNDIRECTED, 40); if (c.chance(1, 3)) weigh(c, g, {1, 2, 3, 1, 5}, true); bool masked = c.boolean(); double seed = c.boolean() ? 11 : (double)c.draw(100000); size_t n = g.n;
    c.note(std::string(masked ? "louvain_cluster_masked " : "louvain_cluster ") + g.str(true) + " seed " + vstr(seed)); if (g.edges() >= 6) c.nontrivial();
    auto A = gmat<T>(g); grb::Matrix<bool> S(n, n);
    try { S = masked ? algorithms::louvain_cluster_masked(A, seed, 60) : algorithms::louvain_cluster(A, seed, 60); } catch (unsigned int k) { c.label("not converged"); if (k != 60) c.fail("gave up after " + std::to_string(k) + " of 60 passes"); return; }
    auto m = observe(c, S, "Louvain"); std::vector<size_t> a(n, SIZE_MAX); if (m.r != n || m.c != n) c.fail("wrong shape");
    for (size_t v = 0; v < n; ++v) { for (size_t i = 0; i < n; ++i) if (m.at(v, i)) { if (!*m.at(v, i)) c.fail("stores false for vertex " + std::to_string(v)); if (a[v] != SIZE_MAX) c.fail("puts vertex " + std::to_string(v) + " in two clusters"); a[v] = i; } if (a[v] == SIZE_MAX) c.fail("puts vertex " + std::to_string(v) + " in no cluster"); }
    auto ga = observe(c, algorithms::get_louvain_cluster_assignments(S), "assignments"); for (size_t v = 0; v < n; ++v) if (!ga.d[v] || *ga.d[v] != a[v]) c.fail("get_louvain_cluster_assignments does not give vertex " + std::to_string(v) + " cluster " + std::to_string(a[v]));
    std::vector<double> k(n, 0); double m2 = 0; for (size_t u = 0; u < n; ++u) for (size_t v = 0; v < n; ++v) if (g.w[u][v]) { k[u] += *g.w[u][v]; m2 += *g.w[u][v]; }
    for (size_t u = 0; u < n; ++u) { auto d = hops(g, {u}); for (size_t v = 0; v < n; ++v) if (u != v && a[u] == a[v] && d[v] == SIZE_MAX) c.fail("joins vertices " + std::to_string(u) + " and " + std::to_string(v) + ", which are not connected (clusters " + vecstr(a) + ")"); }
    if (m2 > 0) for (size_t v = 0; v < n; ++v) if (k[v] > 0) {
        std::vector<double> q(n, 0); for (size_t u = 0; u < n; ++u) if (u != v) q[a[u]] += (g.w[v][u] ? *g.w[v][u] : 0) - k[v] * k[u] / m2;
        for (size_t i = 0; i < n; ++i) if (q[i] > q[a[v]] + 1e-5 * (1 + k[v])) c.fail("moving vertex " + std::to_string(v) + " from cluster " + std::to_string(a[v]) + " to " + std::to_string(i) + " raises the modularity (clusters " + vecstr(a) + ")"); }
    c.label("converged"); if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
TARGET("peer", peer) TARGET("lookup", lookup) TARGET("markov", markov) TARGET("louvain", louvain)
}
