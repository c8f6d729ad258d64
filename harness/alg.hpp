// Graphs, generators and reference algorithms for the algorithm properties.
#pragma once
#include "ops.hpp"
#include <queue>
#include <numeric>
namespace vf {
constexpr double INF = std::numeric_limits<double>::infinity();
// A directed graph with weights; w[i][j] present = edge i -> j.
struct G {
    size_t n = 0; std::vector<std::vector<std::optional<double>>> w;
    explicit G(size_t n_ = 0) : n(n_), w(n_, std::vector<std::optional<double>>(n_)) {}
    bool has(size_t i, size_t j) const { return w[i][j].has_value(); }
    size_t edges() const { size_t k = 0; for (auto &r : w) for (auto &x : r) k += x.has_value(); return k; }
    std::string str(bool weights) const {
        std::string s = "n=" + std::to_string(n) + " {";
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (w[i][j]) { s += " " + std::to_string(i) + ">" + std::to_string(j); if (weights) s += "=" + vstr(*w[i][j]); }
        return s + " }";
    }
};
template<class T> grb::Matrix<T> gmat(G const &g) {
    grb::Matrix<T> m(g.n, g.n);
    for (size_t i = 0; i < g.n; ++i) for (size_t j = 0; j < g.n; ++j) if (g.w[i][j]) m.setElement(i, j, (T)*g.w[i][j]);
    return m;
}
inline size_t gen_n(Ctx &c, size_t lo = 1) {
    uint64_t k = c.draw(20); size_t n = k < 3 ? 1 + k : k < 16 ? 2 + k % 7 : k < 19 ? 5 + c.draw(6) : 8 + c.draw(c.size ? 22 : 6);
    return n < lo ? lo : n;
}
enum { GF_UNDIRECTED = 1, GF_LOOPS = 2, GF_DAG = 4, GF_CONNECTED = 8, GF_ALL_LOOPS = 16, GF_SPARSE = 32 };
// Mixed shapes: sparse..dense random, path, cycle, star, complete, grid-like, several components.
inline G gen_graph(Ctx &c, size_t n, int flags = 0) {
    G g(n); bool und = flags & GF_UNDIRECTED;
    auto add = [&](size_t i, size_t j) { if (i == j && !(flags & GF_LOOPS)) return; if ((flags & GF_DAG) && i > j) std::swap(i, j); g.w[i][j] = 1; if (und) g.w[j][i] = 1; };
    unsigned style = (unsigned)c.draw(13); if (flags & GF_SPARSE) { static const unsigned sp[] = {4, 5, 8, 10, 11, 6}; style = sp[style % 6]; }
    std::vector<size_t> perm(n); std::iota(perm.begin(), perm.end(), (size_t)0);
    if (style >= 4 && !(flags & GF_DAG)) for (size_t k = 0; k + 1 < n; ++k) std::swap(perm[k], perm[k + c.draw(n - k)]);
    switch (style) {
    default: { unsigned q = 1 + (unsigned)c.draw(5);     // random density
        static const unsigned num[] = {0, 1, 1, 2, 3, 6}, den[] = {1, 6, 3, 4, 5, 7};
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if ((i != j || (flags & GF_LOOPS)) && !(und && j < i) && c.chance(num[q], den[q])) add(i, j); break; }
    case 4: for (size_t i = 0; i + 1 < n; ++i) add(perm[i], perm[i + 1]); break;
    case 5: for (size_t i = 0; i < n; ++i) add(perm[i], perm[(i + 1) % n]); break;
    case 6: for (size_t i = 1; i < n; ++i) { if (c.boolean() || und) add(perm[0], perm[i]); else add(perm[i], perm[0]); } break;
    case 7: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j) add(i, j); break;
    case 8: { size_t w = 1 + c.draw(3); for (size_t i = 0; i < n; ++i) { if ((i + 1) % w && i + 1 < n) add(perm[i], perm[i + 1]); if (i + w < n) add(perm[i], perm[i + w]); } break; }   // grid
    case 9: { size_t k = 1 + c.draw(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j && i / k == j / k && c.chance(2, 3)) add(perm[i], perm[j]); break; }   // blocks
    case 10: for (size_t i = 1; i < n; ++i) { size_t p = c.draw(i); if (c.chance(1, 4) && !und) add(perm[i], perm[p]); else add(perm[p], perm[i]); } break;   // tree
    case 12: { size_t w = 1 + c.draw(4); for (size_t i = 0; i < n; ++i) for (size_t j = (i / w + 1) * w; j < n && j / w == i / w + 1; ++j) if (!c.chance(1, 12)) add(perm[i], perm[j]); break; }   // layers: very many shortest paths
    case 11: { size_t k = 1 + c.draw(3); for (size_t i = 0; i < n; ++i) for (size_t d = 0; d < k; ++d) add(i, c.draw(n)); break; }
    }
    if (style >= 4 && style != 7 && n > 1) { size_t extra = c.draw(3); for (size_t k = 0; k < extra; ++k) add(c.draw(n), c.draw(n)); }
    if ((flags & GF_LOOPS) && style >= 4 && c.chance(1, 3)) { size_t v = c.draw(n); g.w[v][v] = 1; }
    if (flags & GF_CONNECTED) for (size_t i = 1; i < n; ++i) {     // connect every vertex to an earlier one
        bool ok = false; for (size_t j = 0; j < i; ++j) ok |= g.has(i, j) || g.has(j, i);
        if (!ok) add(c.draw(i), i); }
    if (flags & GF_ALL_LOOPS) for (size_t i = 0; i < n; ++i) g.w[i][i] = 1;
    return g;
}
// now and then a larger sparse graph (long paths, indices beyond word sizes)
inline G gen_any(Ctx &c, int flags, size_t cap, size_t lo = 1) {
    if (c.chance(1, 80)) { c.label("large graph"); return gen_graph(c, 20 + c.draw(cap - 19), flags | GF_SPARSE); }
    return gen_graph(c, gen_n(c, lo), flags);
}
// values that do not fit a narrower type, when T holds sums of them exactly
template<class T> void large_values(Ctx &c, std::vector<double> &pool) {
    if (std::is_same_v<T, float> || sizeof(T) < 4 || !c.chance(1, 5)) return;
    pool.push_back(16777217); pool.push_back(16777219); if (sizeof(T) == 8) { pool.push_back(4999999999.0); pool.push_back(1099511627779.0); } c.label("large weights");
}
inline void weigh(Ctx &c, G &g, std::vector<double> const &pool, bool und = false) {
    for (size_t i = 0; i < g.n; ++i) for (size_t j = 0; j < g.n; ++j) if (g.w[i][j]) { if (und && j < i) g.w[i][j] = g.w[j][i]; else g.w[i][j] = pool[c.draw(pool.size())]; }
}
// hop distances from s (SIZE_MAX unreachable)
inline std::vector<size_t> hops(G const &g, std::vector<size_t> const &src) {
    std::vector<size_t> d(g.n, SIZE_MAX); std::queue<size_t> q; for (auto s : src) if (d[s]) { d[s] = 0; q.push(s); }
    while (!q.empty()) { size_t u = q.front(); q.pop(); for (size_t v = 0; v < g.n; ++v) if (g.has(u, v) && d[v] == SIZE_MAX) { d[v] = d[u] + 1; q.push(v); } }
    return d;
}
// Bellman-Ford by repeated relaxation; false when a negative cycle is reachable
inline bool sp(G const &g, size_t s, std::vector<double> &d) {
    d.assign(g.n, INF); d[s] = 0;
    for (size_t k = 0; k <= g.n; ++k) { bool ch = false; for (size_t u = 0; u < g.n; ++u) if (d[u] < INF) for (size_t v = 0; v < g.n; ++v) if (g.w[u][v] && d[u] + *g.w[u][v] < d[v]) { d[v] = d[u] + *g.w[u][v]; ch = true; } if (!ch) return true; }
    return false;
}
template<class V> std::string vecstr(std::vector<V> const &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += " "; s += std::to_string(v[i]); } return s + "]"; }
} // namespace vf
