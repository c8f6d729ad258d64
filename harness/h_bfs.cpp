// C24: breadth-first search.
#define VF_MAIN
#include "alg.hpp"
#include <algorithms/bfs.hpp>
#include <algorithms/appendix_algorithms.hpp>
using namespace vf;
using U = grb::IndexType;
struct Case { G g; std::vector<std::vector<size_t>> src; };   // one or more roots per traversal
static Case gen(Ctx &c, bool batch, bool multi) {
    Case k;
    if (c.chance(1, 600)) { size_t n = 255 + c.draw(10), w = 1 + c.draw(2); k.g = G(n); for (size_t i = 0; i < n; ++i) for (size_t j = (i / w + 1) * w; j < n && j / w == i / w + 1; ++j) k.g.w[i][j] = 1; c.label("very long"); }
    else k.g = gen_any(c, GF_LOOPS, 100);
    size_t R = batch ? 1 + c.draw(4) : 1;
    for (size_t r = 0; r < R; ++r) { std::vector<size_t> s{c.draw(k.g.n)}; if (multi && c.chance(1, 4)) { size_t m = c.draw(3); for (size_t i = 0; i < m; ++i) s.push_back(c.draw(k.g.n)); } k.src.push_back(s); }
    std::string t = k.g.str(false) + " roots"; for (auto &s : k.src) t += " " + vecstr(s); c.note(t);
    auto d = hops(k.g, k.src[0]); size_t far = 0; bool unr = false; for (auto x : d) { if (x == SIZE_MAX) unr = true; else far = std::max(far, x); }
    if (far >= 2) c.nontrivial(); if (far >= 4) c.label("depth>=4"); if (unr) c.label("unreachable vertices"); if (batch) c.label("batched");
    return k;
}
static void levels_ok(Ctx &c, char const *who, std::vector<size_t> const &d, std::vector<std::optional<double>> const &got) {
    for (size_t v = 0; v < d.size(); ++v) {
        if (d[v] == SIZE_MAX) { if (got[v]) c.fail(std::string(who) + ": unreachable vertex " + std::to_string(v) + " has level " + vstr(*got[v])); }
        else if (!got[v]) c.fail(std::string(who) + ": reachable vertex " + std::to_string(v) + " has no level");
        else if (*got[v] != (double)(d[v] + 1)) c.fail(std::string(who) + ": vertex " + std::to_string(v) + " has level " + vstr(*got[v]) + ", its distance is " + std::to_string(d[v]));
    }
}
static void parents_ok(Ctx &c, char const *who, G const &g, std::vector<size_t> const &src, std::vector<size_t> const &d, std::vector<std::optional<double>> const &got) {
    for (size_t v = 0; v < d.size(); ++v) {
        std::string V = std::to_string(v);
        if (d[v] == SIZE_MAX) { if (got[v]) c.fail(std::string(who) + ": unreachable vertex " + V + " has a parent"); continue; }
        if (!got[v]) c.fail(std::string(who) + ": reachable vertex " + V + " has no parent");
        size_t p = (size_t)*got[v];
        if ((double)p != *got[v] || p >= g.n) c.fail(std::string(who) + ": vertex " + V + " has parent " + vstr(*got[v]));
        if (std::count(src.begin(), src.end(), v)) { if (p != v) c.fail(std::string(who) + ": root " + V + " has parent " + std::to_string(p)); continue; }
        if (!g.has(p, v)) c.fail(std::string(who) + ": parent " + std::to_string(p) + " of " + V + " has no edge to it");
        if (d[p] == SIZE_MAX || d[p] + 1 != d[v]) c.fail(std::string(who) + ": parent " + std::to_string(p) + " of " + V + " is not one hop closer");
    }
}
template<class T> std::vector<std::optional<double>> row(MM<T> const &m, size_t i) { std::vector<std::optional<double>> r(m.c); for (size_t j = 0; j < m.c; ++j) if (m.at(i, j)) r[j] = (double)*m.at(i, j); return r; }
template<class T> std::vector<std::optional<double>> row(MV<T> const &m) { std::vector<std::optional<double>> r(m.n()); for (size_t j = 0; j < m.n(); ++j) if (m.d[j]) r[j] = (double)*m.d[j]; return r; }
template<class W> grb::Vector<W> wave(Case const &k) { grb::Vector<W> w(k.g.n); for (auto s : k.src[0]) w.setElement(s, (W)1); return w; }
template<class W> grb::Matrix<W> waves(Case const &k) { grb::Matrix<W> w(k.src.size(), k.g.n); for (size_t r = 0; r < k.src.size(); ++r) for (auto s : k.src[r]) w.setElement(r, s, (W)1); return w; }
template<class T> void same_graph(Ctx &c, grb::Matrix<T> const &a, G const &g) { if (!(a == gmat<T>(g))) c.fail("the graph was changed"); }

// T graph type, W wavefront type, L result type
template<class T, class L> void parent_src(Ctx &c) { Case k = gen(c, false, false); auto A = gmat<T>(k.g); grb::Vector<L> p(k.g.n);
    if (c.chance(1, 3)) p.setElement(c.draw(k.g.n), (L)0);
    algorithms::bfs(A, (U)k.src[0][0], p); parents_ok(c, "bfs(source)", k.g, k.src[0], hops(k.g, k.src[0]), row(observe(c, p, "parents"))); same_graph(c, A, k.g); }
template<class T, class W, class L> void parent_wave(Ctx &c) { Case k = gen(c, false, true); auto A = gmat<T>(k.g); grb::Vector<L> p(k.g.n); auto w = wave<W>(k);
    if (c.chance(1, 3)) p.setElement(c.draw(k.g.n), (L)0);
    algorithms::bfs(A, w, p); parents_ok(c, "bfs(wavefront)", k.g, k.src[0], hops(k.g, k.src[0]), row(observe(c, p, "parents"))); if (!(w == wave<W>(k))) c.fail("the wavefront argument was changed"); same_graph(c, A, k.g); }
template<class T, class W, class L> void parent_batch(Ctx &c) { Case k = gen(c, true, true); auto A = gmat<T>(k.g); grb::Matrix<L> p(k.src.size(), k.g.n); auto w = waves<W>(k);
    algorithms::bfs_batch(A, w, p); auto m = observe(c, p, "parents"); for (size_t r = 0; r < k.src.size(); ++r) parents_ok(c, "bfs_batch", k.g, k.src[r], hops(k.g, k.src[r]), row(m, r)); same_graph(c, A, k.g); }
template<class T, class L> void level_src(Ctx &c) { Case k = gen(c, false, false); auto A = gmat<T>(k.g); grb::Vector<L> p(k.g.n);
    algorithms::bfs_level(A, (U)k.src[0][0], p); levels_ok(c, "bfs_level(source)", hops(k.g, k.src[0]), row(observe(c, p, "levels"))); same_graph(c, A, k.g); }
template<class T, class W, class L> void level_wave(Ctx &c) { Case k = gen(c, true, true); auto A = gmat<T>(k.g); grb::Matrix<L> p(k.src.size(), k.g.n); auto w = waves<W>(k);
    algorithms::bfs_level(A, w, p); auto m = observe(c, p, "levels"); for (size_t r = 0; r < k.src.size(); ++r) levels_ok(c, "bfs_level(wavefronts)", hops(k.g, k.src[r]), row(m, r)); same_graph(c, A, k.g); }
template<class T, class W, class L> void level_masked(Ctx &c) { Case k = gen(c, false, true); auto A = gmat<T>(k.g); grb::Vector<L> p(k.g.n); auto w = wave<W>(k);
    algorithms::bfs_level_masked(A, w, p); levels_ok(c, "bfs_level_masked", hops(k.g, k.src[0]), row(observe(c, p, "levels"))); same_graph(c, A, k.g); }
template<class T, class W, class L> void level_masked2(Ctx &c) { Case k = gen(c, false, true); auto A = gmat<T>(k.g); grb::Vector<L> p(k.g.n); auto w = wave<W>(k);
    algorithms::bfs_level_masked_v2(A, w, p); levels_ok(c, "bfs_level_masked_v2", hops(k.g, k.src[0]), row(observe(c, p, "levels"))); same_graph(c, A, k.g); }
template<class T, class W, class L> void level_batch(Ctx &c) { Case k = gen(c, true, true); auto A = gmat<T>(k.g); grb::Matrix<L> p(k.src.size(), k.g.n); auto w = waves<W>(k);
    algorithms::batch_bfs_level_masked(A, w, p); auto m = observe(c, p, "levels"); for (size_t r = 0; r < k.src.size(); ++r) levels_ok(c, "batch_bfs_level_masked", hops(k.g, k.src[r]), row(m, r)); same_graph(c, A, k.g); }
template<class T, class L, int W> void appendix(Ctx &c) { Case k = gen(c, false, false); auto A = gmat<T>(k.g); grb::Vector<L> p(k.g.n); auto d = hops(k.g, k.src[0]); U s = k.src[0][0];
    if (W == 1) algorithms::bfs_level_appendixB1(p, A, s); else if (W == 2) algorithms::bfs_level_appendixB2(p, A, s); else algorithms::bfs_parent_appendixB3(p, A, s);
    auto r = row(observe(c, p, "result")); static char const *who[] = {"", "bfs_level_appendixB1", "bfs_level_appendixB2", "bfs_parent_appendixB3"};
    if (W == 3) parents_ok(c, who[W], k.g, k.src[0], d, r); else levels_ok(c, who[W], d, r); same_graph(c, A, k.g); }
#if CT == 0
using T0 = uint32_t; using W0 = uint32_t; using L0 = U;
#elif CT == 1
using T0 = bool; using W0 = U; using L0 = U;
#elif CT == 2
using T0 = double; using W0 = double; using L0 = double;
#elif CT == 3
using T0 = int32_t; using W0 = int32_t; using L0 = int32_t;
#else
using T0 = uint8_t; using W0 = U; using L0 = uint32_t;
#endif
TARGET("parent_src", (parent_src<T0, L0>)) TARGET("parent_wave", (parent_wave<T0, W0, L0>)) TARGET("parent_batch", (parent_batch<T0, W0, L0>))
TARGET("level_src", (level_src<T0, L0>)) TARGET("level_wave", (level_wave<T0, W0, L0>)) TARGET("level_masked", (level_masked<T0, W0, L0>)) TARGET("level_masked2", (level_masked2<T0, W0, L0>)) TARGET("level_batch", (level_batch<T0, W0, L0>))
TARGET("appendixB1", (appendix<T0, L0, 1>)) TARGET("appendixB2", (appendix<T0, L0, 2>)) TARGET("appendixB3", (appendix<T0, L0, 3>))
#if CT == 1
TARGET("level_wave_bool", (level_wave<T0, bool, L0>)) TARGET("level_masked_bool", (level_masked<T0, bool, L0>)) TARGET("level_masked2_bool", (level_masked2<T0, bool, L0>)) TARGET("level_batch_bool", (level_batch<T0, bool, L0>))
#endif
