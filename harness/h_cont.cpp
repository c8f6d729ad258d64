// C01 / C02 / C03: container histories against plain maps, and build.
#define VF_MAIN
#include "ops.hpp"
#include <map>
using namespace vf;

template<class T> std::vector<std::vector<T>> gen_dense(Ctx &c, size_t r, size_t q) {
    std::vector<std::vector<T>> d(r, std::vector<T>(q));
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < q; ++j) d[i][j] = gen_val<T>(c);
    return d;
}
template<class T> MM<T> dense_model(std::vector<std::vector<T>> const &d, std::optional<T> zero) {
    MM<T> m(d.size(), d[0].size());
    for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) { T v = d[i][j]; if (!zero || v != *zero) m.at(i, j) = v; }
    return m;
}
inline size_t cdim(Ctx &c, size_t wide = 60) { if (c.size == 2) return c.nbig < (wide > 60 ? 3u : 1u) && c.draw(3) == 2 ? ++c.nbig, 100 + c.draw(1900) : 1 + c.draw(6); uint64_t k = c.draw(20); return k < 16 ? 1 + k % 6 : c.draw(40) == 39 ? 20 + c.draw(wide) : 5 + c.draw(c.size ? 30 : 12); }
inline size_t vdim(Ctx &c) { return cdim(c, 300); }     // past 64, 128 and 256

template<class T> struct DupOp { int c; T operator()(T a, T b) const { return BinF<T, T, T>{c}(a, b); } };

// list of tuples, possibly with duplicates
template<class T> struct Tup { IdxV I, J; std::vector<T> X; };
template<class T> Tup<T> gen_tuples(Ctx &c, size_t r, size_t q, size_t maxn) {
    Tup<T> t; size_t n = c.draw(maxn + 1); bool dupy = c.boolean(); size_t rr = dupy ? std::min<size_t>(r, 2) : r, qq = dupy ? std::min<size_t>(q, 3) : q;
    for (size_t k = 0; k < n; ++k) { t.I.push_back(c.draw(rr)); t.J.push_back(c.draw(qq)); t.X.push_back(gen_val<T>(c)); }
    if (dupy && c.boolean()) for (size_t k = 0; k < n; ++k) { t.I[k] = r - 1 - t.I[k]; t.J[k] = q - 1 - t.J[k]; }
    return t;
}
template<class T> std::string tstr(Tup<T> const &t, bool mat) {
    std::string s; for (size_t k = 0; k < t.I.size(); ++k) { s += "(" + std::to_string(t.I[k]) + (mat ? "," + std::to_string(t.J[k]) : std::string()) + ")=" + vstr<T>(t.X[k]) + " "; } return s; }

template<class T> void build_m(MM<T> &m, Tup<T> const &t, int dup) {
    for (size_t k = 0; k < t.I.size(); ++k) { auto &e = m.at(t.I[k], t.J[k]); e = e ? (T)DupOp<T>{dup}(*e, t.X[k]) : (T)t.X[k]; } }
template<class T> void build_v(MV<T> &m, Tup<T> const &t, int dup) {
    for (size_t k = 0; k < t.I.size(); ++k) { auto &e = m.d[t.I[k]]; e = e ? (T)DupOp<T>{dup}(*e, t.X[k]) : (T)t.X[k]; } }
// random access over vector<bool> included
template<class T, class G> void call_build(Ctx &, G &g, Tup<T> const &t, int dup, int how, bool mat) {
    if constexpr (std::is_same_v<G, grb::Matrix<T>>) {
        if (how == 0) { if (dup == OP_SECOND) g.build(t.I, t.J, t.X); else g.build(t.I, t.J, t.X, DupOp<T>{dup}); }
        else if (how == 1) { if (dup == OP_SECOND) g.build(t.I.begin(), t.J.begin(), t.X.begin(), t.X.size()); else g.build(t.I.begin(), t.J.begin(), t.X.begin(), t.X.size(), DupOp<T>{dup}); }
        else { std::vector<std::conditional_t<is_sym<T>::value, T, std::conditional_t<std::is_same_v<T, int64_t>, __int128, double>>> d(t.X.begin(), t.X.end()); g.build(t.I, t.J, d, DupOp<T>{dup}); }
    } else {
        if (how == 0) { if (dup == OP_SECOND) g.build(t.I, t.X); else g.build(t.I, t.X, DupOp<T>{dup}); }
        else if (how == 1) { if (dup == OP_SECOND) g.build(t.I.begin(), t.X.begin(), t.X.size()); else g.build(t.I.begin(), t.X.begin(), t.X.size(), DupOp<T>{dup}); }
        else { std::vector<std::conditional_t<is_sym<T>::value, T, std::conditional_t<std::is_same_v<T, int64_t>, __int128, double>>> d(t.X.begin(), t.X.end()); g.build(t.I, d, DupOp<T>{dup}); }
    }
    (void)mat;
}

template<class T> void check_tuples_overload(Ctx &c, grb::Matrix<T> const &g, MM<T> const &m) {
    size_t n = g.nvals(); IdxV I(n), J(n); std::vector<T> X(n); g.extractTuples(I, J, X);
    MM<T> q(m.r, m.c); for (size_t k = 0; k < n; ++k) { if (I[k] >= m.r || J[k] >= m.c) c.fail("extractTuples coordinate"); q.at(I[k], J[k]) = (T)X[k]; }
    if (!(q == m)) c.fail("extractTuples(arrays) gives " + q.str() + " expected " + m.str());
}
template<class T> void check_tuples_overload(Ctx &c, grb::Vector<T> const &g, MV<T> const &m) {
    size_t n = g.nvals(); IdxV I(n); std::vector<T> X(n); g.extractTuples(I, X);
    MV<T> q(m.n()); for (size_t k = 0; k < n; ++k) { if (I[k] >= m.n()) c.fail("extractTuples index"); q.d[I[k]] = (T)X[k]; }
    if (!(q == m)) c.fail("extractTuples(arrays) gives " + q.str() + " expected " + m.str());
}

// ------------------------------------------------------------------ C01
template<class T> void mat_case(Ctx &c) {
    using G = grb::Matrix<T>; c.bigvals = true;
    std::vector<MM<T>> m; std::vector<std::optional<G>> g; size_t n = 2 + c.draw(2);
    size_t r0 = cdim(c), q0 = cdim(c);
    auto dims = [&](size_t &r, size_t &q) { if (c.draw(3)) { r = r0; q = q0; } else { r = cdim(c); q = cdim(c); } };
    auto fresh = [&](size_t x, std::string w) {
        size_t r, q; dims(r, q);
        switch (c.draw(4)) {
        case 0: case 3: m[x] = MM<T>(r, q); g[x].emplace(r, q); c.note(w + " = Matrix(" + std::to_string(r) + "," + std::to_string(q) + ")"); break;
        case 1: { auto d = gen_dense<T>(c, r, q); m[x] = dense_model<T>(d, {}); g[x].emplace(d); c.note(w + " = Matrix(dense) " + m[x].str()); break; }
        case 2: { auto d = gen_dense<T>(c, r, q); T z = gen_val<T>(c); m[x] = dense_model<T>(d, z); g[x].emplace(d, z); c.note(w + " = Matrix(dense, zero=" + vstr(z) + ") " + m[x].str()); break; }
        } };
    m.resize(n); g.resize(n); for (size_t i = 0; i < n; ++i) fresh(i, "M" + std::to_string(i));
    size_t steps = 2 + c.draw(c.size ? 40 : 16); size_t mut = 0, kinds = 0; unsigned seen = 0;
    for (size_t st = 0; st <= steps; ++st) {
        if (st) {
            size_t x = c.draw(n); std::string w = "M" + std::to_string(x); unsigned op = (unsigned)c.draw(13); MM<T> before = m[x];
            auto &M = m[x];
            size_t i = c.draw(M.r), j = c.draw(M.c);
            if (c.chance(1, 3)) for (size_t k = 0; k < M.d.size(); ++k) if (M.d[(k + i * M.c + j) % M.d.size()]) { size_t p = (k + i * M.c + j) % M.d.size(); i = p / M.c; j = p % M.c; break; }
            std::string at = "(" + std::to_string(i) + "," + std::to_string(j) + ")";
            switch (op) {
            case 0: case 1: case 2: { T v = gen_val<T>(c); c.note(w + ".setElement" + at + "=" + vstr(v)); M.at(i, j) = v; g[x]->setElement(i, j, v); c.label("setElement"); break; }
            case 3: case 4: c.note(w + ".removeElement" + at); M.at(i, j) = std::nullopt; g[x]->removeElement(i, j); c.label("removeElement"); break;
            case 5: c.note(w + ".clear()"); M = MM<T>(M.r, M.c); g[x]->clear(); c.label("clear"); break;
            case 6: case 7: { size_t r = c.boolean() ? cdim(c) : M.r, q = c.boolean() ? cdim(c) : M.c; c.note(w + ".resize(" + std::to_string(r) + "," + std::to_string(q) + ")"); MM<T> k(r, q);
                for (size_t a = 0; a < std::min(r, M.r); ++a) for (size_t b = 0; b < std::min(q, M.c); ++b) k.at(a, b) = M.at(a, b);
                if (k.nvals() < M.nvals()) c.label("resize drops entries"); else c.label("resize"); M = k; g[x]->resize(r, q); break; }
            case 8: { auto t = gen_tuples<T>(c, M.r, M.c, 8); int dup = (int)c.draw(N_OPS); int how = (int)c.draw(3); c.note(w + ".build[" + opname(dup) + "] " + tstr(t, true)); build_m(M, t, dup); call_build<T>(c, *g[x], t, dup, how, true); c.label("build"); break; }
            case 9: { size_t y = c.draw(n); bool ok = m[y].r == M.r && m[y].c == M.c; c.note(w + " = M" + std::to_string(y)); bool thrown = false;
                try { *g[x] = *g[y]; } catch (grb::DimensionException &) { thrown = true; }
                if (thrown == ok) c.fail(ok ? "assignment of an equally sized matrix rejected" : "assignment of a differently sized matrix accepted");
                if (ok) M = MM<T>(m[y]); c.label(x == y ? "self assignment" : "assignment"); break; }
            case 10: { size_t y = c.draw(n); c.note(w + " = Matrix(copy of M" + std::to_string(y) + ")"); if (x != y) { g[x].emplace(*g[y]); m[x] = MM<T>(m[y]); } c.label("copy construction"); break; }
            case 11: fresh(x, w); c.label("construction"); break;
            case 12: { std::ostringstream os; os << *g[x]; grb::print_matrix(os, *g[x], w); break; }
            }
            seen |= 1u << op; if (!(before == m[x])) ++mut;
        }
        for (size_t i = 0; i < n; ++i) {
            auto o = observe(c, *g[i], ("M" + std::to_string(i)).c_str());
            if (!(o == m[i])) c.fail("after step " + std::to_string(st) + ": M" + std::to_string(i) + " is " + o.str() + " expected " + m[i].str());
            if (g[i]->nvals() != m[i].nvals()) c.fail("nvals");
            check_tuples_overload(c, *g[i], m[i]);
        }
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
            bool e = m[i] == m[j];
            if ((*g[i] == *g[j]) != e) c.fail("after step " + std::to_string(st) + ": M" + std::to_string(i) + " == M" + std::to_string(j) + " is not " + (e ? "true" : "false"));
            if ((*g[i] != *g[j]) == e) c.fail("operator!= contradicts the contents");
            if (e && i != j && m[i].nvals()) c.label("equal pair");
        }
    }
    for (unsigned b = 0; b < 13; ++b) kinds += seen >> b & 1;
    if (mut >= 2 && kinds >= 2) c.nontrivial();
}
// ------------------------------------------------------------------ C02
template<class T> void vec_case(Ctx &c) {
    using G = grb::Vector<T>; c.bigvals = true;
    std::vector<MV<T>> m; std::vector<std::optional<G>> g; size_t n = 2 + c.draw(2); size_t n0 = vdim(c);
    auto gdense = [&](size_t k) { std::vector<T> d(k); for (size_t i = 0; i < k; ++i) d[i] = gen_val<T>(c); return d; };
    auto fresh = [&](size_t x, std::string w) {
        size_t k = c.draw(3) ? n0 : vdim(c);
        switch (c.draw(5)) {
        case 0: case 4: m[x] = MV<T>(k); g[x].emplace((IndexType)k); c.note(w + " = Vector(" + std::to_string(k) + ")"); break;
        case 1: { T v = gen_val<T>(c); m[x] = MV<T>(k); for (auto &e : m[x].d) e = v; g[x].emplace((IndexType)k, v); c.note(w + " = Vector(" + std::to_string(k) + ", value " + vstr(v) + ")"); c.label("Vector(n,value)"); break; }
        case 2: { auto d = gdense(k); m[x] = MV<T>(k); for (size_t i = 0; i < k; ++i) m[x].d[i] = (T)d[i]; g[x].emplace(d); c.note(w + " = Vector(dense) " + m[x].str()); break; }
        case 3: { auto d = gdense(k); T z = gen_val<T>(c); m[x] = MV<T>(k); for (size_t i = 0; i < k; ++i) if (d[i] != z) m[x].d[i] = (T)d[i]; g[x].emplace(d, z); c.note(w + " = Vector(dense, zero=" + vstr(z) + ") " + m[x].str()); break; }
        } };
    m.resize(n); g.resize(n); for (size_t i = 0; i < n; ++i) fresh(i, "v" + std::to_string(i));
    size_t steps = 2 + c.draw(c.size ? 40 : 16), mut = 0, kinds = 0; unsigned seen = 0;
    for (size_t st = 0; st <= steps; ++st) {
        if (st) {
            size_t x = c.draw(n); std::string w = "v" + std::to_string(x); unsigned op = (unsigned)c.draw(14); MV<T> before = m[x]; auto &M = m[x];
            size_t i = c.draw(M.n()); if (c.chance(1, 3)) for (size_t k = 0; k < M.n(); ++k) if (M.d[(k + i) % M.n()]) { i = (k + i) % M.n(); break; }
            std::string at = "(" + std::to_string(i) + ")";
            switch (op) {
            case 0: case 1: case 2: { T v = gen_val<T>(c); c.note(w + ".setElement" + at + "=" + vstr(v)); M.d[i] = v; g[x]->setElement(i, v); c.label("setElement"); break; }
            case 3: case 4: c.note(w + ".removeElement" + at); M.d[i] = std::nullopt; g[x]->removeElement(i); c.label("removeElement"); break;
            case 5: c.note(w + ".clear()"); M = MV<T>(M.n()); g[x]->clear(); c.label("clear"); break;
            case 6: case 7: { size_t k = vdim(c); c.note(w + ".resize(" + std::to_string(k) + ")"); size_t o = M.nvals(); M.d.resize(k); g[x]->resize(k); c.label(M.nvals() < o ? "resize drops entries" : "resize"); break; }
            case 8: { // build on an empty vector
                auto t = gen_tuples<T>(c, M.n(), 1, 8); int dup = (int)c.draw(N_OPS); int how = (int)c.draw(3); c.note(w + ".clear(); " + w + ".build[" + opname(dup) + "] " + tstr(t, false));
                M = MV<T>(M.n()); g[x]->clear(); build_v(M, t, dup); call_build<T>(c, *g[x], t, dup, how, false); c.label("build"); break; }
            case 9: { size_t y = c.draw(n); bool ok = m[y].n() == M.n(); c.note(w + " = v" + std::to_string(y)); bool thrown = false;
                try { *g[x] = *g[y]; } catch (grb::DimensionException &) { thrown = true; }
                if (thrown == ok) c.fail(ok ? "assignment of an equally sized vector rejected" : "assignment of a differently sized vector accepted");
                if (ok) M = MV<T>(m[y]); c.label(x == y ? "self assignment" : "assignment"); break; }
            case 10: { size_t y = c.draw(n); c.note(w + " = Vector(copy of v" + std::to_string(y) + ")"); if (x != y) { g[x].emplace(*g[y]); m[x] = MV<T>(m[y]); } c.label("copy construction"); break; }
            case 11: fresh(x, w); c.label("construction"); break;
            case 12: { auto d = gdense(M.n()); for (size_t k = 0; k < M.n(); ++k) M.d[k] = (T)d[k]; *g[x] = d; c.note(w + " = dense " + M.str()); c.label("dense assignment"); break; }
            case 13: { std::ostringstream os; os << *g[x]; grb::print_vector(os, *g[x], w); break; }
            }
            seen |= 1u << op; if (!(before == m[x])) ++mut;
        }
        for (size_t i = 0; i < n; ++i) {
            auto o = observe(c, *g[i], ("v" + std::to_string(i)).c_str());
            if (!(o == m[i])) c.fail("after step " + std::to_string(st) + ": v" + std::to_string(i) + " is " + o.str() + " expected " + m[i].str());
            if (g[i]->nvals() != m[i].nvals()) c.fail("nvals");
            check_tuples_overload(c, *g[i], m[i]);
        }
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
            bool e = m[i] == m[j];
            if ((*g[i] == *g[j]) != e) c.fail("after step " + std::to_string(st) + ": v" + std::to_string(i) + " == v" + std::to_string(j) + " is not " + (e ? "true" : "false"));
            if ((*g[i] != *g[j]) == e) c.fail("operator!= contradicts the contents");
            if (e && i != j && m[i].nvals()) c.label("equal pair");
        }
    }
    for (unsigned b = 0; b < 14; ++b) kinds += seen >> b & 1;
    if (mut >= 2 && kinds >= 2) c.nontrivial();
}
// ------------------------------------------------------------------ C03
template<class T> void build_case(Ctx &c) {
    c.bigvals = true; bool mat = c.boolean(); size_t r = cdim(c), q = mat ? cdim(c) : 1; auto t = gen_tuples<T>(c, r, q, c.draw(24) == 23 ? 300 : c.size ? 60 : 25); int dup = (int)c.draw(N_OPS + 2); if (dup >= N_OPS) dup = dup == N_OPS ? OP_SECOND : OP_AXB; int how = (int)c.draw(3);
    int bad = c.chance(1, 6) && t.I.size() ? 1 + (int)c.draw(mat ? 4 : 3) : 0;      // 1 row index, 2 values short, 3 values long, 4 column index
    c.note(std::string(mat ? "Matrix " : "Vector ") + std::to_string(r) + "x" + std::to_string(q) + " build dup=" + opname(dup) + (how == 0 ? " arrays" : how == 1 ? " iterators" : " double values") + " <- " + tstr(t, mat));
    MM<T> m(r, q); MV<T> v(r); if (mat) build_m(m, t, dup); else build_v(v, t, dup);
    size_t dups = t.I.size() - (mat ? m.nvals() : v.nvals()); if (dups) c.label("duplicates"); if (dups >= 3) c.label("3+ duplicates");
    auto big = [&](auto fn) { bool dim = false, oob = false; try { fn(); } catch (grb::DimensionException &) { dim = true; } catch (grb::IndexOutOfBoundsException &) { oob = true; } return dim ? 1 : oob ? 2 : 0; };
    if (bad) {
        c.label("ill-formed"); size_t at = c.draw(t.I.size()); if (how == 1 && (bad == 2 || bad == 3)) how = 0;
        size_t off = c.pick<size_t>({0, 1, 5, 1000000, ~(size_t)0 / 2});
        if (bad == 1) t.I[at] = r + off; else if (bad == 2) t.X.pop_back(); else if (bad == 3) t.X.push_back(T(1)); else t.J[at] = q + off;
        c.note("  made ill-formed: kind " + std::to_string(bad) + " at " + std::to_string(at));
        int got; size_t left;
        if (mat) { grb::Matrix<T> g(r, q); got = big([&] { call_build<T>(c, g, t, dup, how, true); }); left = observe(c, g, "matrix").nvals(); }
        else { grb::Vector<T> g(r); got = big([&] { call_build<T>(c, g, t, dup, how, false); }); left = observe(c, g, "vector").nvals(); }
        int want = bad == 2 || bad == 3 ? 1 : 2;
        if (got != want) c.fail(std::string("ill-formed build: got ") + (got == 0 ? "acceptance" : got == 1 ? "DimensionException" : "IndexOutOfBoundsException"));
        if (left) c.fail("a rejected build stored " + std::to_string(left) + " entries");
        c.nontrivial(); return;
    }
    if (t.I.size() >= 2) c.nontrivial();
    if (mat) {
        grb::Matrix<T> g(r, q); call_build<T>(c, g, t, dup, how, true);
        auto o = observe(c, g, "matrix"); if (!(o == m)) c.fail("built " + o.str() + " expected " + m.str());
        // round trip, in a different order
        size_t n = g.nvals(); IdxV I(n), J(n); std::vector<T> X(n); g.extractTuples(I, J, X);
        std::vector<size_t> p(n); for (size_t k = 0; k < n; ++k) p[k] = k; for (size_t k = 0; k + 1 < n; ++k) std::swap(p[k], p[k + c.draw(n - k)]);
        IdxV I2, J2; std::vector<T> X2; for (auto k : p) { I2.push_back(I[k]); J2.push_back(J[k]); X2.push_back(X[k]); }
        grb::Matrix<T> h(r, q); h.build(I2, J2, X2); if (!(h == g) || h != g) c.fail("extracting the tuples and building again gives a different matrix");
    } else {
        grb::Vector<T> g(r); call_build<T>(c, g, t, dup, how, false);
        auto o = observe(c, g, "vector"); if (!(o == v)) c.fail("built " + o.str() + " expected " + v.str());
        size_t n = g.nvals(); IdxV I(n); std::vector<T> X(n); g.extractTuples(I, X);
        std::vector<size_t> p(n); for (size_t k = 0; k < n; ++k) p[k] = k; for (size_t k = 0; k + 1 < n; ++k) std::swap(p[k], p[k + c.draw(n - k)]);
        IdxV I2; std::vector<T> X2; for (auto k : p) { I2.push_back(I[k]); X2.push_back(X[k]); }
        grb::Vector<T> h(r); h.build(I2, X2); if (!(h == g) || h != g) c.fail("extracting the tuples and building again gives a different vector");
    }
}
// C01 with dimensions far past the usual ones (columns past 2^32): against a map of the stored entries, queried at the entries, next to them, at the
// corners and at random places, and through the tuples.
template<class T> void wide_mat(Ctx &c) {
    using G = grb::Matrix<T>; using P = std::pair<size_t, size_t>; c.bigvals = true;
    struct M { size_t r, q; std::map<P, T> e; }; std::vector<M> m; std::vector<std::optional<G>> g; size_t n = 2;
    auto rows = [&] { return c.pick<size_t>({1, 3, 70, 200, 300, 2000}) + c.draw(3); };
    auto cols = [&] { return c.pick<size_t>({1, 5, 70, 130, 300, 70000, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 33) - 1, (size_t)1 << 53, (size_t)1 << 62}) + c.draw(3); };
    auto place = [&](size_t d) { size_t k = c.draw(5); return k == 0 ? d - 1 : k == 1 ? c.draw(std::min<size_t>(d, 4)) : k == 2 ? d - 1 - c.draw(std::min<size_t>(d, 4)) : k == 3 ? std::min<size_t>(d - 1, ((size_t)1 << c.draw(62)) - c.draw(2)) : c.draw(d); };
    size_t r0 = rows(), q0 = cols(); for (size_t i = 0; i < n; ++i) { m.push_back({r0, q0, {}}); g.emplace_back(std::in_place, r0, q0); } c.note("two matrices " + std::to_string(r0) + "x" + std::to_string(q0));
    auto show = [](M const &x) { std::string s = std::to_string(x.r) + "x" + std::to_string(x.q) + " {"; size_t k = 0; for (auto &[p, v] : x.e) { if (k++ > 12) { s += " ..."; break; } s += " (" + std::to_string(p.first) + "," + std::to_string(p.second) + ")=" + vstr<T>(v); } return s + " }"; };
    size_t steps = 1 + c.draw(12), mut = 0; unsigned seen = 0;
    for (size_t st = 0; st <= steps; ++st) {
        if (st) {
            size_t x = c.draw(n); auto &a = m[x]; std::string w = "M" + std::to_string(x); auto &h = *g[x]; unsigned op = (unsigned)c.draw(8); seen |= 1u << op;
            size_t i = place(a.r), j = place(a.q); if (c.chance(1, 3) && !a.e.empty()) { auto it = a.e.begin(); std::advance(it, c.draw(a.e.size())); i = it->first.first; j = it->first.second; }
            std::string at = "(" + std::to_string(i) + "," + std::to_string(j) + ")";
            switch (op) {
            case 0: case 1: { T v = gen_val<T>(c); c.note(w + ".setElement" + at + "=" + vstr(v)); a.e[{i, j}] = v; h.setElement(i, j, v); ++mut; break; }
            case 2: c.note(w + ".removeElement" + at); a.e.erase({i, j}); h.removeElement(i, j); break;
            case 3: { size_t k = c.draw(40); IdxV I, J; std::vector<T> X; int dup = (int)c.draw(N_OPS); std::string d; size_t fix = c.draw(3) ? a.r : place(a.r), keep = place(a.r);
                for (size_t e = 0; e < k; ++e) { I.push_back(fix == a.r ? place(a.r) : keep); J.push_back(place(a.q)); X.push_back(gen_val<T>(c)); d += " (" + std::to_string(I.back()) + "," + std::to_string(J.back()) + ")=" + vstr<T>(X.back()); }
                c.note(w + ".build[" + opname(dup) + "]" + d); h.build(I, J, X, DupOp<T>{dup});
                for (size_t e = 0; e < k; ++e) { auto it = a.e.find({I[e], J[e]}); if (it == a.e.end()) a.e[{I[e], J[e]}] = X[e]; else it->second = (T)DupOp<T>{dup}(it->second, X[e]); } ++mut; break; }
            case 4: { size_t r = c.boolean() ? a.r : rows(), q = c.boolean() ? a.q : cols(); c.note(w + ".resize(" + std::to_string(r) + "," + std::to_string(q) + ")"); h.resize(r, q); a.r = r; a.q = q;
                for (auto it = a.e.begin(); it != a.e.end();) if (it->first.first >= r || it->first.second >= q) it = a.e.erase(it); else ++it; break; }
            case 5: c.note(w + ".clear()"); h.clear(); a.e.clear(); break;
            case 6: c.note(w + " = copy of M" + std::to_string(1 - x)); g[x].emplace(*g[1 - x]); m[x] = m[1 - x]; break;
            case 7: { bool ok = m[0].r == m[1].r && m[0].q == m[1].q, thrown = false; c.note(w + " = M" + std::to_string(1 - x)); try { h = *g[1 - x]; } catch (grb::DimensionException &) { thrown = true; }
                if (thrown == ok) c.fail("assignment"); if (ok) m[x] = M(m[1 - x]); break; }
            }
        }
        for (size_t x = 0; x < n; ++x) {
            auto const &a = m[x]; auto const &h = *g[x]; std::string w = "after step " + std::to_string(st) + ": M" + std::to_string(x) + " = " + show(a) + ": ";
            if (h.nrows() != a.r || h.ncols() != a.q) c.fail(w + "dimensions " + std::to_string(h.nrows()) + "x" + std::to_string(h.ncols()));
            if (h.nvals() != a.e.size()) c.fail(w + "nvals() = " + std::to_string(h.nvals()));
            IdxV I(a.e.size()), J(a.e.size()); std::vector<T> X(a.e.size()); h.extractTuples(I, J, X); std::map<P, T> t; for (size_t k = 0; k < I.size(); ++k) t[{I[k], J[k]}] = X[k];
            if (t != a.e) c.fail(w + "other tuples");
            auto probe = [&](size_t i, size_t j) { if (i >= a.r || j >= a.q) return; auto it = a.e.find({i, j}); if (h.hasElement(i, j) != (it != a.e.end())) c.fail(w + "hasElement(" + std::to_string(i) + "," + std::to_string(j) + ")");
                if (it != a.e.end() && !(h.extractElement(i, j) == it->second)) c.fail(w + "extractElement(" + std::to_string(i) + "," + std::to_string(j) + ")"); };
            for (auto &[p, v] : a.e) { probe(p.first, p.second); probe(p.first, p.second + 1); probe(p.first, p.second - 1); probe(p.first + 1, p.second); probe(p.first, p.second & 0xffffffff); probe(p.first & 255, p.second & 255); }
            probe(0, 0); probe(a.r - 1, a.q - 1); probe(0, a.q - 1); probe(a.r - 1, 0);
        }
        bool e = m[0].r == m[1].r && m[0].q == m[1].q && m[0].e == m[1].e; if ((*g[0] == *g[1]) != e || (*g[0] != *g[1]) == e) c.fail("after step " + std::to_string(st) + ": comparison is not " + (e ? "true" : "false") + " for " + show(m[0]) + " and " + show(m[1]));
    }
    if (mut >= 2) c.nontrivial();
}
template<class T> void long_vec(Ctx &c) {
    using G = grb::Vector<T>; c.bigvals = true; struct M { size_t n; std::map<size_t, T> e; }; std::vector<M> m; std::vector<std::optional<G>> g;
    auto len = [&] { return c.pick<size_t>({1, 5, 30, 62, 64, 126, 128, 254, 300, 1022, 2000, 4095}) + c.draw(4); };
    auto place = [&](size_t d) { size_t k = c.draw(4); return k == 0 ? d - 1 : k == 1 ? c.draw(std::min<size_t>(d, 4)) : k == 2 ? std::min<size_t>(d - 1, ((size_t)1 << c.draw(12)) - c.draw(2)) : c.draw(d); };
    size_t n0 = len(); for (int i = 0; i < 2; ++i) { m.push_back({n0, {}}); g.emplace_back(std::in_place, n0); } c.note("two vectors of size " + std::to_string(n0));
    auto show = [](M const &x) { std::string s = std::to_string(x.n) + " {"; size_t k = 0; for (auto &[p, v] : x.e) { if (k++ > 12) { s += " ..."; break; } s += " " + std::to_string(p) + "=" + vstr<T>(v); } return s + " }"; };
    size_t steps = 1 + c.draw(12), mut = 0;
    for (size_t st = 0; st <= steps; ++st) {
        if (st) {
            size_t x = c.draw(2); auto &a = m[x]; auto &h = *g[x]; std::string w = "v" + std::to_string(x); size_t i = place(a.n); if (c.chance(1, 3) && !a.e.empty()) { auto it = a.e.begin(); std::advance(it, c.draw(a.e.size())); i = it->first; }
            switch (c.draw(8)) {
            case 0: case 1: { T v = gen_val<T>(c); c.note(w + "[" + std::to_string(i) + "]=" + vstr(v)); a.e[i] = v; h.setElement(i, v); ++mut; break; }
            case 2: c.note(w + ".removeElement(" + std::to_string(i) + ")"); a.e.erase(i); h.removeElement(i); break;
            case 3: { size_t k = c.draw(30); IdxV I; std::vector<T> X; int dup = (int)c.draw(N_OPS); std::string d; for (size_t e = 0; e < k; ++e) { I.push_back(place(a.n)); X.push_back(gen_val<T>(c)); d += " " + std::to_string(I.back()) + "=" + vstr<T>(X.back()); }
                c.note(w + ".clear(); build[" + opname(dup) + "]" + d); h.clear(); a.e.clear(); h.build(I, X, DupOp<T>{dup});
                for (size_t e = 0; e < k; ++e) { auto it = a.e.find(I[e]); if (it == a.e.end()) a.e[I[e]] = X[e]; else it->second = (T)DupOp<T>{dup}(it->second, X[e]); } ++mut; break; }
            case 4: { size_t k = len(); c.note(w + ".resize(" + std::to_string(k) + ")"); h.resize(k); a.n = k; a.e.erase(a.e.lower_bound(k), a.e.end()); break; }
            case 5: { T z = gen_val<T>(c); std::vector<T> d(a.n, z); size_t k = c.draw(20); for (size_t e = 0; e < k; ++e) d[place(a.n)] = gen_val<T>(c); c.note(w + " = dense of " + vstr(z) + " but " + std::to_string(k) + " places"); h = d; for (size_t e = 0; e < a.n; ++e) a.e[e] = (T)d[e]; ++mut; break; }
            case 6: c.note(w + " = copy of v" + std::to_string(1 - x)); g[x].emplace(*g[1 - x]); m[x] = m[1 - x]; break;
            case 7: { T z = gen_val<T>(c); std::vector<T> d(a.n, z); size_t k = c.draw(20); for (size_t e = 0; e < k; ++e) d[place(a.n)] = gen_val<T>(c); c.note(w + " = Vector(dense of " + vstr(z) + " but " + std::to_string(k) + " places, zero)"); g[x].emplace(d, z); a.e.clear(); for (size_t e = 0; e < a.n; ++e) if (d[e] != z) a.e[e] = (T)d[e]; ++mut; break; }
            }
        }
        for (size_t x = 0; x < 2; ++x) {
            auto const &a = m[x]; auto const &h = *g[x]; std::string w = "after step " + std::to_string(st) + ": v" + std::to_string(x) + " = " + show(a) + ": ";
            if (h.size() != a.n) c.fail(w + "size " + std::to_string(h.size())); if (h.nvals() != a.e.size()) c.fail(w + "nvals() = " + std::to_string(h.nvals()));
            IdxV I(a.e.size()); std::vector<T> X(a.e.size()); h.extractTuples(I, X); std::map<size_t, T> t; for (size_t k = 0; k < I.size(); ++k) t[I[k]] = X[k]; if (t != a.e) c.fail(w + "other tuples");
            auto it = a.e.begin(); for (size_t i = 0; i < a.n; ++i) { bool has = it != a.e.end() && it->first == i; if (h.hasElement(i) != has) c.fail(w + "hasElement(" + std::to_string(i) + ")"); if (has && !(h.extractElement(i) == (it++)->second)) c.fail(w + "extractElement(" + std::to_string(i) + ")"); }
        }
        bool e = m[0].n == m[1].n && m[0].e == m[1].e; if ((*g[0] == *g[1]) != e || (*g[0] != *g[1]) == e) c.fail("after step " + std::to_string(st) + ": comparison is not " + (e ? "true" : "false") + " for " + show(m[0]) + " and " + show(m[1]));
    }
    if (mut >= 2) c.nontrivial();
}
// -DFAM=1|2|3 (property), -DCT=0..3 (value type)
#if CT == 0
using T0 = int32_t;
#elif CT == 1
using T0 = double;
#elif CT == 2
using T0 = bool;
#elif CT == 3
using T0 = uint8_t;
#elif CT == 5
using T0 = Sym<0>;
#else
using T0 = int64_t;
#endif
#if FAM == 1
TARGET("matrix", mat_case<T0>) TARGET("wide", wide_mat<T0>)
#elif FAM == 2
TARGET("vector", vec_case<T0>) TARGET("long", long_vec<T0>)
#else
TARGET("build", build_case<T0>)
#endif
