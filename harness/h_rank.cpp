// C33: PageRank satisfies its defining equation.
#define VF_MAIN
#include "alg.hpp"
#include <algorithms/page_rank.hpp>
using namespace vf;
#if CT == 0
using T = double; using R = double;
#elif CT == 1
using T = float; using R = float;
#elif CT == 2
using T = int32_t; using R = double;
#else
using T = float; using R = double;
#endif
namespace {
void rank(Ctx &c) {
    G g = gen_any(c, c.chance(1, 3) ? GF_LOOPS : 0, 80); if (c.chance(1, 3)) weigh(c, g, {1, 2, 3, 1, 4, 10}); bool weighted = false; for (auto &r : g.w) for (auto &x : r) weighted |= x && *x != 1;
    std::vector<double> ds{0.85, 0.5, 0.25, 0.9, 0.95, 0.1, 0}; double d = ds[c.draw(ds.size())]; double thr = std::is_same_v<R, float> ? 1e-10 : c.boolean() ? 1e-20 : 1e-12; bool dflt = c.chance(1, 8); if (dflt) { d = 0.85; thr = 1e-5; }
    c.note(g.str(weighted) + " d = " + vstr(d) + " threshold = " + vstr(thr)); size_t n = g.n;
    bool noin = false, dang = false; for (size_t v = 0; v < n; ++v) { bool in = false, out = false; for (size_t u = 0; u < n; ++u) { in |= g.has(u, v); out |= g.has(v, u); } noin |= !in; dang |= !out; if (!in && out) c.label("feeds others but has no incoming edge"); }
    if (dang) c.label("vertex without outgoing edge"); if (g.edges() >= 3 && d > 0) c.nontrivial();
    auto A = gmat<T>(g); grb::Vector<R> r(n); if (c.boolean()) r.setElement(c.draw(n), (R)0.75);
    if (dflt) algorithms::page_rank(A, r); else algorithms::page_rank(A, r, (R)d, (R)thr);
    auto m = observe(c, r, "page rank"); double tol = d * n * std::sqrt(thr) + (std::is_same_v<R, float> ? 1e-5 : 1e-12);
    for (size_t v = 0; v < n; ++v) { if (!m.d[v]) c.fail("vertex " + std::to_string(v) + " has no score");
        double w = (1 - d) / n; for (size_t u = 0; u < n; ++u) if (g.w[u][v]) { double out = 0; for (size_t x = 0; x < n; ++x) if (g.w[u][x]) out += *g.w[u][x]; w += d * *g.w[u][v] / out * (m.d[u] ? (double)*m.d[u] : 0); }
        if (!(std::fabs((double)*m.d[v] - w) <= tol)) c.fail("the score of vertex " + std::to_string(v) + " is " + vstr(*m.d[v]) + ", its equation gives " + vstr(w)); }
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
TARGET("rank", rank)
}
