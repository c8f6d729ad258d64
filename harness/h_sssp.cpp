// C25: shortest paths.
#define VF_MAIN
#include "alg.hpp"
#include <algorithms/sssp.hpp>
#include <algorithms/apsp.hpp>
using namespace vf;
#if CT == 0
using T = int32_t;
#elif CT == 1
using T = double;
#elif CT == 2
using T = uint32_t;
#elif CT == 3
using T = int64_t;
#else
using T = float;
#endif
constexpr bool SGN = std::is_signed_v<T>, FL = std::is_floating_point_v<T>;
// kind 0 non-negative (zeros included), 1 negative edges without negative cycles, 2 anything, 3 positive
static G gen(Ctx &c, int kind, bool &neg, size_t cap = 120) {
    G g = gen_any(c, GF_LOOPS, cap); std::vector<double> pool{1, 2, 0, 3, 5, 8, 1, 100};
    if (FL) { pool.push_back(0.5); pool.push_back(0.25); pool.push_back(1.5); }
    if (kind == 3) { pool.erase(pool.begin() + 2); if (FL) pool.push_back(0.125); }
    if (kind != 3 && c.chance(1, 4)) { c.label("large weights"); double b = std::is_same_v<T, float> ? 4097.25 : std::is_same_v<T, uint32_t> ? 33554433 : std::is_same_v<T, int32_t> ? 1000003 : 16777217; pool.push_back(b); pool.push_back(b + 2); if (sizeof(T) == 8) { pool.push_back(5e9); pool.push_back(1099511627779.0); } }
    if (!SGN && kind != 3) kind = 0;
    if (kind == 2) { pool.push_back(-1); pool.push_back(-2); if (c.boolean()) { pool.push_back(-3); pool.push_back(-1); } }
    weigh(c, g, pool);
    if (kind == 1) { std::vector<double> p(g.n); for (auto &x : p) x = (double)c.range(0, 6); for (size_t i = 0; i < g.n; ++i) for (size_t j = 0; j < g.n; ++j) if (g.w[i][j]) *g.w[i][j] += p[i] - p[j]; }
    neg = false; for (auto &r : g.w) for (auto &x : r) if (x && *x < 0) neg = true;
    c.note(g.str(true)); if (neg) c.label("negative edge");
    return g;
}
static void classify(Ctx &c, G const &g, size_t s, std::vector<double> const &d) {
    auto h = hops(g, {s}); bool longer = false, unr = false, zero = false;
    for (size_t v = 0; v < g.n; ++v) { if (d[v] == INF) unr = true; else { if (h[v] >= 2 || (g.w[s][v] && d[v] < *g.w[s][v])) longer = true; if (v != s && d[v] == 0) zero = true; } }
    if (longer) c.nontrivial(); if (unr) c.label("unreachable vertices"); if (zero) c.label("distance zero to another vertex");
    for (size_t v = 0; v < g.n; ++v) if (v != s && g.w[s][v] && d[v] < *g.w[s][v]) { c.label("shorter than the direct edge"); break; }
}
static void dist_ok(Ctx &c, char const *who, size_t s, std::vector<double> const &d, MV<T> const &got) {
    for (size_t v = 0; v < d.size(); ++v) {
        std::string p = std::string(who) + " from " + std::to_string(s) + ": vertex " + std::to_string(v);
        if (d[v] == INF) { if (got.d[v]) c.fail(p + " is unreachable but has distance " + vstr(*got.d[v])); }
        else if (!got.d[v]) c.fail(p + " is reachable (distance " + vstr(d[v]) + ") but has no entry");
        else if ((double)*got.d[v] != d[v]) c.fail(p + " has distance " + vstr(*got.d[v]) + ", the shortest path has " + vstr(d[v]));
    }
}
template<int WHICH> void single(Ctx &c) {
    bool neg; int kind = (int)c.draw(3); G g = gen(c, kind, neg); size_t s = c.draw(g.n); c.note("source " + std::to_string(s));
    std::vector<double> d; bool ok = sp(g, s, d); auto A = gmat<T>(g); grb::Vector<T> dist(g.n); dist.setElement(s, T(0));
    bool r = WHICH == 0 ? algorithms::sssp(A, dist) : algorithms::filtered_sssp(A, dist);
    char const *who = WHICH == 0 ? "sssp" : "filtered_sssp"; auto got = observe(c, dist, "distances");
    if (ok) classify(c, g, s, d); else { c.label("negative cycle reachable"); c.nontrivial(); }
    if (r != ok) c.fail(std::string(who) + (r ? " reported success, but a negative cycle is reachable" : " reported a negative cycle, but none is reachable"));
    if (ok) dist_ok(c, who, s, d, got);
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
static void batch(Ctx &c) {
    bool neg; int kind = (int)c.draw(3); G g = gen(c, kind, neg); size_t R = 1 + c.draw(4); std::vector<size_t> s(R); for (auto &x : s) x = c.draw(g.n); c.note("sources " + vecstr(s));
    std::vector<std::vector<double>> d(R); bool ok = true; for (size_t r = 0; r < R; ++r) ok &= sp(g, s[r], d[r]);
    auto A = gmat<T>(g); grb::Matrix<T> D(R, g.n); for (size_t r = 0; r < R; ++r) D.setElement(r, s[r], T(0));
    bool r = algorithms::batch_sssp(A, D); auto m = observe(c, D, "distances");
    if (ok) classify(c, g, s[0], d[0]); else { c.label("negative cycle reachable"); c.nontrivial(); }
    if (r != ok) c.fail(std::string("batch_sssp") + (r ? " reported success, but a negative cycle is reachable" : " reported a negative cycle, but none is reachable"));
    if (ok) for (size_t k = 0; k < R; ++k) { MV<T> v(g.n); for (size_t j = 0; j < g.n; ++j) v.d[j] = m.at(k, j); dist_ok(c, "batch_sssp", s[k], d[k], v); }
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
static void all(Ctx &c) {
    bool neg; int kind = (int)c.draw(2); G g = gen(c, kind, neg, 40); auto A = gmat<T>(g);
    auto m = observe(c, algorithms::apsp(A), "distances");
    for (size_t s = 0; s < g.n; ++s) { std::vector<double> d; if (!sp(g, s, d)) throw Discard{}; classify(c, g, s, d); MV<T> v(g.n); for (size_t j = 0; j < g.n; ++j) v.d[j] = m.at(s, j); dist_ok(c, "apsp", s, d, v); }
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
static void delta(Ctx &c) {
    bool neg; G g = gen(c, 3, neg); size_t s = c.draw(g.n);
    std::vector<double> ws{1, 2, 3, 5, 10, 50, 1000, 7}; if (FL) { ws.push_back(0.5); ws.push_back(0.75); ws.push_back(0.3); } if (!FL || c.boolean()) {} T w = (T)ws[c.draw(ws.size())];
    c.note("source " + std::to_string(s) + " bucket width " + vstr(w));
    std::vector<double> d; sp(g, s, d); classify(c, g, s, d); auto A = gmat<T>(g); grb::Vector<T> p(g.n); if (c.chance(1, 4)) p.setElement(c.draw(g.n), T(1));
    algorithms::sssp_delta_step(A, w, s, p); dist_ok(c, "sssp_delta_step", s, d, observe(c, p, "distances"));
    if (!(A == gmat<T>(g))) c.fail("the graph was changed");
}
TARGET("sssp", single<0>) TARGET("filtered_sssp", single<1>) TARGET("batch_sssp", batch) TARGET("apsp", all) TARGET("delta_step", delta)
