// Every GraphBLAS operation, once as the real call and once as a model.
#pragma once
#include "model.hpp"
#include <graphblas/graphblas.hpp>

namespace vf {
using grb::IndexType;
using IdxV = std::vector<IndexType>;

template<class T> grb::Matrix<T> to_grb(MM<T> const &m) {
    grb::Matrix<T> g(m.r, m.c);
    for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) if (m.at(i, j)) g.setElement(i, j, *m.at(i, j));
    return g;
}
template<class T> grb::Vector<T> to_grb(MV<T> const &m) {
    grb::Vector<T> g(m.n());
    for (size_t i = 0; i < m.n(); ++i) if (m.d[i]) g.setElement(i, *m.d[i]);
    return g;
}
// Reads a container through its whole public query surface; fails if the
// queries contradict each other.
template<class T> MM<T> observe(Ctx &c, grb::Matrix<T> const &g, char const *who) {
    MM<T> m(g.nrows(), g.ncols());
    size_t nv = g.nvals(), cnt = 0;
    for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) if (g.hasElement(i, j)) { m.at(i, j) = g.extractElement(i, j); ++cnt; }
    if (cnt != nv) c.fail(std::string(who) + ": nvals()=" + std::to_string(nv) + " but " + std::to_string(cnt) + " elements present: " + m.str());
    constexpr IndexType SENT = ~(IndexType)0;
    IdxV I(nv + 1, SENT), J(nv + 1, SENT); std::vector<std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>> V(nv + 1);
    g.extractTuples(I.begin(), J.begin(), V.begin());
    if (I[nv] != SENT || J[nv] != SENT) c.fail(std::string(who) + ": extractTuples wrote more than nvals() tuples");
    MM<T> q(m.r, m.c);
    for (size_t k = 0; k < nv; ++k) {
        if (I[k] >= m.r || J[k] >= m.c) c.fail(std::string(who) + ": extractTuples gave a coordinate outside the matrix");
        if (q.at(I[k], J[k])) c.fail(std::string(who) + ": extractTuples gave a coordinate twice");
        q.at(I[k], J[k]) = (T)V[k];
    }
    if (!(q == m)) c.fail(std::string(who) + ": tuples " + q.str() + " differ from elements " + m.str());
    return m;
}
template<class T> MV<T> observe(Ctx &c, grb::Vector<T> const &g, char const *who) {
    MV<T> m(g.size());
    size_t nv = g.nvals(), cnt = 0;
    for (size_t i = 0; i < m.n(); ++i) if (g.hasElement(i)) { m.d[i] = g.extractElement(i); ++cnt; }
    if (cnt != nv) c.fail(std::string(who) + ": nvals()=" + std::to_string(nv) + " but " + std::to_string(cnt) + " elements present: " + m.str());
    constexpr IndexType SENT = ~(IndexType)0;
    IdxV I(nv + 1, SENT); std::vector<std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>> V(nv + 1);
    g.extractTuples(I.begin(), V.begin());
    if (I[nv] != SENT) c.fail(std::string(who) + ": extractTuples wrote more than nvals() tuples");
    MV<T> q(m.n());
    for (size_t k = 0; k < nv; ++k) {
        if (I[k] >= m.n()) c.fail(std::string(who) + ": extractTuples gave an index outside the vector");
        if (q.d[I[k]]) c.fail(std::string(who) + ": extractTuples gave an index twice");
        q.d[I[k]] = (T)V[k];
    }
    if (!(q == m)) c.fail(std::string(who) + ": tuples " + q.str() + " differ from elements " + m.str());
    return m;
}

enum Op { MXM, MXV, VXM, EWADD_M, EWADD_V, EWMUL_M, EWMUL_V, APPLY_M, APPLY_V, APPLY1_M, APPLY2_M, APPLY1_V, APPLY2_V,
          REDUCE_MV, REDUCE_VS, REDUCE_MS, EXTRACT_V, EXTRACT_M, EXTRACT_C, ASSIGN_V, ASSIGN_M, ASSIGN_COL, ASSIGN_ROW,
          ASSIGN_CV, ASSIGN_CM, TRANSPOSE, KRON, NUM_OPS };
inline char const *opn(int o) {
    static char const *n[] = {"mxm", "mxv", "vxm", "eWiseAdd(mat)", "eWiseAdd(vec)", "eWiseMult(mat)", "eWiseMult(vec)", "apply(mat,unary)",
        "apply(vec,unary)", "apply(mat,bind1st)", "apply(mat,bind2nd)", "apply(vec,bind1st)", "apply(vec,bind2nd)", "reduce(mat->vec)",
        "reduce(vec->scalar)", "reduce(mat->scalar)", "extract(vec)", "extract(mat)", "extract(col)", "assign(vec)", "assign(mat)",
        "assign(col)", "assign(row)", "assign(const vec)", "assign(const mat)", "transpose", "kronecker"};
    return n[o];
}
// What kind of container each slot of the call takes: 'm' matrix, 'v' vector, 's' scalar, '-' nothing
struct Slots { char out, mask, a, b; };
inline Slots slots(int o) {
    switch (o) {
    case MXM: case EWADD_M: case EWMUL_M: case KRON: return {'m', 'm', 'm', 'm'};
    case MXV: return {'v', 'v', 'm', 'v'};
    case VXM: return {'v', 'v', 'v', 'm'};
    case EWADD_V: case EWMUL_V: return {'v', 'v', 'v', 'v'};
    case APPLY_M: case TRANSPOSE: case EXTRACT_M: case ASSIGN_M: return {'m', 'm', 'm', '-'};
    case APPLY_V: case EXTRACT_V: case ASSIGN_V: return {'v', 'v', 'v', '-'};
    case APPLY1_M: return {'m', 'm', 's', 'm'};
    case APPLY2_M: return {'m', 'm', 'm', 's'};
    case APPLY1_V: return {'v', 'v', 's', 'v'};
    case APPLY2_V: return {'v', 'v', 'v', 's'};
    case REDUCE_MV: return {'v', 'v', 'm', '-'};
    case REDUCE_VS: return {'s', '-', 'v', '-'};
    case REDUCE_MS: return {'s', '-', 'm', '-'};
    case EXTRACT_C: return {'v', 'v', 'm', '-'};
    case ASSIGN_COL: case ASSIGN_ROW: return {'m', 'v', 'v', '-'};
    case ASSIGN_CV: return {'v', 'v', 's', '-'};
    case ASSIGN_CM: return {'m', 'm', 's', '-'};
    }
    return {'-', '-', '-', '-'};
}
// may slot a / b be presented transposed?
inline bool can_ta(int o) { switch (o) { case MXM: case EWADD_M: case EWMUL_M: case KRON: case MXV: case APPLY_M: case APPLY2_M: case TRANSPOSE: case EXTRACT_M: case ASSIGN_M: case REDUCE_MV: case EXTRACT_C: return true; } return false; }
inline bool can_tb(int o) { switch (o) { case MXM: case EWADD_M: case EWMUL_M: case KRON: case VXM: case APPLY1_M: return true; } return false; }
inline bool uses_I(int o) { switch (o) { case EXTRACT_V: case EXTRACT_M: case EXTRACT_C: case ASSIGN_V: case ASSIGN_M: case ASSIGN_COL: case ASSIGN_ROW: case ASSIGN_CV: case ASSIGN_CM: return true; } return false; }
inline bool uses_J(int o) { return o == EXTRACT_M || o == ASSIGN_M || o == ASSIGN_CM; }
inline bool uses_idx(int o) { return o == EXTRACT_C || o == ASSIGN_COL || o == ASSIGN_ROW; }

struct Call {
    int op = 0; bool ta = false, tb = false; int mk = 0; int acc = -1; bool repl = false;
    int add = OP_PLUS, mul = OP_TIMES, uop = 0;     // semiring / operator codes
    bool allI = false, allJ = false; IdxV I, J; IndexType idx = 0;
    std::string str() const {
        std::string s = opn(op);
        if (ta) s += " A'"; if (tb) s += " B'";
        s += std::string(" mask=") + mkname(mk) + " accum=" + opname(acc) + (repl ? " REPLACE" : " MERGE");
        if (op == MXM || op == MXV || op == VXM) s += std::string(" semiring=") + opname(add) + "." + opname(mul);
        else if (op == REDUCE_MV || op == REDUCE_VS || op == REDUCE_MS) s += std::string(" monoid=") + opname(add);
        else if (op == APPLY_M || op == APPLY_V) s += std::string(" unary=") + uopname(uop);
        else if (op <= APPLY2_V || op == KRON) s += std::string(" op=") + opname(mul);
        auto li = [](bool all, IdxV const &v) { if (all) return std::string("all"); std::string r = "["; for (auto x : v) r += std::to_string(x) + " "; if (v.size()) r.pop_back(); return r + "]"; };
        if (uses_I(op)) s += " I=" + li(allI, I);
        if (uses_J(op)) s += " J=" + li(allJ, J);
        if (uses_idx(op)) s += " at=" + std::to_string(idx);
        return s;
    }
};

// Value types: output, mask, operands, operator result; WR: wrapping operators
template<class TC_, class TM_, class TA_, class TB_, class TZ_, bool WR_ = false> struct Ty {
    using TC = TC_; using TM = TM_; using TA = TA_; using TB = TB_; using TZ = TZ_; static constexpr bool WR = WR_;
    static std::string str() { return std::string("C:") + TName<TC>::v() + " M:" + TName<TM>::v() + " A:" + TName<TA>::v() + " B:" + TName<TB>::v() + " op->" + TName<TZ>::v(); }
};
template<class Y> struct Args {
    grb::Matrix<typename Y::TC> *Cm = nullptr; grb::Vector<typename Y::TC> *Cv = nullptr; typename Y::TC *Cs = nullptr;
    grb::Matrix<typename Y::TM> const *Mm = nullptr; grb::Vector<typename Y::TM> const *Mv = nullptr;
    grb::Matrix<typename Y::TA> const *Am = nullptr; grb::Vector<typename Y::TA> const *Av = nullptr;
    grb::Matrix<typename Y::TB> const *Bm = nullptr; grb::Vector<typename Y::TB> const *Bv = nullptr;
    typename Y::TA sa{}; typename Y::TB sb{};
};
template<class Y> struct MArgs {
    MM<typename Y::TC> Cm; MV<typename Y::TC> Cv; typename Y::TC Cs{};
    MM<typename Y::TM> Mm; MV<typename Y::TM> Mv;
    MM<typename Y::TA> Am; MV<typename Y::TA> Av;
    MM<typename Y::TB> Bm; MV<typename Y::TB> Bv;
    typename Y::TA sa{}; typename Y::TB sb{};
};

template<class M, class F> void with_mask(int k, M const &m, F f) {
    switch (k) {
    case MK_NONE: f(grb::NoMask()); break;
#ifndef VF_SEQ
    case MK_VAL: f(m); break;
    case MK_STRUCT: f(grb::structure(m)); break;
    case MK_CSTRUCT: f(grb::complement(grb::structure(m))); break;
#endif
    default: f(grb::complement(m)); break;
    }
}
template<class C, class Z, bool W, class F> void with_acc(int a, F f) { if (a < 0) f(grb::NoAccumulate()); else f(BinF<C, Z, C, W>{a}); }
template<class M, class F> void with_t(bool t, M const &m, F f) { if (t) f(grb::transpose(m)); else f(m); }
#ifdef VF_SEQ     // C40: the same indices as a list, a range, or a container of another kind; fewer mask kinds to keep the number of instantiations down
inline int seq_kind[2] = {0, 0};
template<class F> void with_idx(bool all, IdxV const &v, F f, int which = 0) {
    int kd = seq_kind[which];
    if (all) f(grb::AllIndices());
    else if (kd == 1) f(grb::IndexSequenceRange(v.empty() ? 0 : v.front(), v.empty() ? 0 : v.back() + 1));
    else if (kd == 2) { VF_SEQ o; for (auto x : v) o.push_back((typename VF_SEQ::value_type)x); VF_SEQ const &co = o; f(co); }
    else f(v);
}
#else
template<class F> void with_idx(bool all, IdxV const &v, F f, int = 0) { if (all) f(grb::AllIndices()); else f(v); }
#endif

#define VF_USE(Y) using TC = typename Y::TC; using TM = typename Y::TM; using TA = typename Y::TA; using TB = typename Y::TB; using TZ = typename Y::TZ; \
    constexpr bool W = Y::WR; [[maybe_unused]] grb::OutputControlEnum oc = k.repl ? grb::REPLACE : grb::MERGE; \
    [[maybe_unused]] SemF<TA, TB, TZ, W> sr{k.add, k.mul}; [[maybe_unused]] BinF<TA, TB, TZ, W> bop{k.mul}; \
    [[maybe_unused]] MonF<TZ, W> mon{k.add}; [[maybe_unused]] UnF<TA, TZ, W> un{k.uop}; [[maybe_unused]] TM *vf_tm = nullptr; [[maybe_unused]] TC *vf_tc = nullptr;

template<class Y> void real_mxm(Call const &k, Args<Y> &a);
template<class Y> void real_mv(Call const &k, Args<Y> &a);
template<class Y> void real_ew(Call const &k, Args<Y> &a);
template<class Y> void real_apply(Call const &k, Args<Y> &a);
template<class Y> void real_reduce(Call const &k, Args<Y> &a);
template<class Y> void real_extract(Call const &k, Args<Y> &a);
template<class Y> void real_assign(Call const &k, Args<Y> &a);
template<class Y> void real_assign_m(Call const &k, Args<Y> &a);
template<class Y> void real_assignc(Call const &k, Args<Y> &a);
template<class Y> void real_tk(Call const &k, Args<Y> &a);

template<class Y> void real_call(Call const &k, Args<Y> &a) {
    switch (k.op) {
    case MXM: return real_mxm<Y>(k, a);
    case MXV: case VXM: return real_mv<Y>(k, a);
    case EWADD_M: case EWADD_V: case EWMUL_M: case EWMUL_V: return real_ew<Y>(k, a);
    case APPLY_M: case APPLY_V: case APPLY1_M: case APPLY2_M: case APPLY1_V: case APPLY2_V: return real_apply<Y>(k, a);
    case REDUCE_MV: case REDUCE_VS: case REDUCE_MS: return real_reduce<Y>(k, a);
    case EXTRACT_V: case EXTRACT_M: case EXTRACT_C: return real_extract<Y>(k, a);
    case ASSIGN_M: return real_assign_m<Y>(k, a);
    case ASSIGN_V: case ASSIGN_COL: case ASSIGN_ROW: return real_assign<Y>(k, a);
    case ASSIGN_CV: case ASSIGN_CM: return real_assignc<Y>(k, a);
    default: return real_tk<Y>(k, a);
    }
}

// ------------------------------------------------------------- model
enum { E_DIM = 1, E_OOB = 2, E_IDX = 4 };
struct Shape { size_t r, c; };      // vectors: r = size, c = 1
// Classes of rejection the call deserves (0: well formed)
inline int rejects(Call const &k, Shape C, Shape M, Shape A, Shape B) {
    if (k.ta) std::swap(A.r, A.c);
    if (k.tb) std::swap(B.r, B.c);
    int e = 0; Slots s = slots(k.op);
    auto dim = [&](bool ok) { if (!ok) e |= E_DIM; };
    auto lst = [&](bool all, IdxV const &v, size_t n) { if (!all) for (auto x : v) if (x >= n) e |= E_OOB; };
    auto len = [&](bool all, IdxV const &v, size_t n) { return all ? n : v.size(); };
    if (k.mk != MK_NONE && s.mask != '-') {
        if (k.op == ASSIGN_COL) dim(M.r == C.r);
        else if (k.op == ASSIGN_ROW) dim(M.r == C.c);
        else dim(M.r == C.r && M.c == C.c);
    }
    switch (k.op) {
    case MXM: dim(C.r == A.r && C.c == B.c && A.c == B.r); break;
    case MXV: dim(C.r == A.r && A.c == B.r); break;
    case VXM: dim(C.r == B.c && A.r == B.r); break;
    case EWADD_M: case EWMUL_M: dim(C.r == A.r && C.c == A.c && A.r == B.r && A.c == B.c); break;
    case EWADD_V: case EWMUL_V: dim(C.r == A.r && A.r == B.r); break;
    case APPLY_M: case APPLY2_M: dim(C.r == A.r && C.c == A.c); break;
    case APPLY1_M: dim(C.r == B.r && C.c == B.c); break;
    case APPLY_V: case APPLY2_V: dim(C.r == A.r); break;
    case APPLY1_V: dim(C.r == B.r); break;
    case REDUCE_MV: dim(C.r == A.r); break;
    case TRANSPOSE: dim(C.r == A.c && C.c == A.r); break;
    case KRON: dim(C.r == A.r * B.r && C.c == A.c * B.c); break;
    // extract with AllIndices takes the positions both sides have (documented by the library's own tests)
    case EXTRACT_V: dim(k.allI || C.r == k.I.size()); lst(k.allI, k.I, A.r); break;
    case EXTRACT_M: dim((k.allI || C.r == k.I.size()) && (k.allJ || C.c == k.J.size())); lst(k.allI, k.I, A.r); lst(k.allJ, k.J, A.c); break;
    case EXTRACT_C: dim(k.allI || C.r == k.I.size()); lst(k.allI, k.I, A.r); if (k.idx >= A.c) e |= E_IDX; break;
    case ASSIGN_V: dim(A.r == len(k.allI, k.I, C.r)); lst(k.allI, k.I, C.r); break;
    case ASSIGN_M: dim(A.r == len(k.allI, k.I, C.r) && A.c == len(k.allJ, k.J, C.c)); lst(k.allI, k.I, C.r); lst(k.allJ, k.J, C.c); break;
    case ASSIGN_COL: dim(A.r == len(k.allI, k.I, C.r)); lst(k.allI, k.I, C.r); if (k.idx >= C.c) e |= E_IDX; break;
    case ASSIGN_ROW: dim(A.r == len(k.allI, k.I, C.c)); lst(k.allI, k.I, C.c); if (k.idx >= C.r) e |= E_IDX; break;
    case ASSIGN_CV: dim(k.allI || k.I.size() <= C.r); lst(k.allI, k.I, C.r); break;
    case ASSIGN_CM: dim((k.allI || k.I.size() <= C.r) && (k.allJ || k.J.size() <= C.c)); lst(k.allI, k.I, C.r); lst(k.allJ, k.J, C.c); break;
    }
    return e;
}
template<class Y> Shape shp(MArgs<Y> const &a, char which, char kind) {
    auto m = [](auto const &x) { return Shape{x.r, x.c}; }; auto v = [](auto const &x) { return Shape{x.n(), 1}; };
    switch (which) {
    case 'C': return kind == 'm' ? m(a.Cm) : kind == 'v' ? v(a.Cv) : Shape{1, 1};
    case 'M': return kind == 'm' ? m(a.Mm) : kind == 'v' ? v(a.Mv) : Shape{1, 1};
    case 'A': return kind == 'm' ? m(a.Am) : kind == 'v' ? v(a.Av) : Shape{1, 1};
    default: return kind == 'm' ? m(a.Bm) : kind == 'v' ? v(a.Bv) : Shape{1, 1};
    }
}
template<class Y> int model_rejects(Call const &k, MArgs<Y> const &a) {
    Slots s = slots(k.op);
    return rejects(k, shp(a, 'C', s.out), shp(a, 'M', s.mask), shp(a, 'A', s.a), shp(a, 'B', s.b));
}
struct ModelOut { int kind; };
template<class Y> struct MOut { MM<typename Y::TC> m; MV<typename Y::TC> v; typename Y::TC s{}; };

// interior results, before the write rule (not for the assign family)
template<class Y> void model_T(Call const &k, MArgs<Y> const &a, MM<typename Y::TZ> &Tm, MV<typename Y::TZ> &Tv) {
    VF_USE(Y) using O = std::optional<TZ>;
    MM<TA> A = k.ta ? a.Am.t() : a.Am; MM<TB> B = k.tb ? a.Bm.t() : a.Bm;
    MV<TA> const &u = a.Av; MV<TB> const &v = a.Bv;
    auto inner = [&](size_t n, auto fa, auto fb) { O r; for (size_t x = 0; x < n; ++x) { auto p = fa(x); auto q = fb(x); if (p && q) { TZ z = sr.mult(*p, *q); r = r ? O{sr.add(*r, z)} : O{z}; } } return r; };
    switch (k.op) {
    case MXM: Tm = MM<TZ>(A.r, B.c); for (size_t i = 0; i < A.r; ++i) for (size_t j = 0; j < B.c; ++j) Tm.at(i, j) = inner(A.c, [&](size_t x) { return A.at(i, x); }, [&](size_t x) { return B.at(x, j); }); break;
    case MXV: Tv = MV<TZ>(A.r); for (size_t i = 0; i < A.r; ++i) Tv.d[i] = inner(A.c, [&](size_t x) { return A.at(i, x); }, [&](size_t x) { return v.d[x]; }); break;
    case VXM: Tv = MV<TZ>(B.c); for (size_t j = 0; j < B.c; ++j) Tv.d[j] = inner(B.r, [&](size_t x) { return u.d[x]; }, [&](size_t x) { return B.at(x, j); }); break;
    case EWADD_M: case EWMUL_M: Tm = MM<TZ>(A.r, A.c); for (size_t x = 0; x < A.d.size(); ++x) {
        if (A.d[x] && B.d[x]) Tm.d[x] = bop(*A.d[x], *B.d[x]); else if (k.op == EWADD_M) { if (A.d[x]) Tm.d[x] = (TZ)*A.d[x]; else if (B.d[x]) Tm.d[x] = (TZ)*B.d[x]; } } break;
    case EWADD_V: case EWMUL_V: Tv = MV<TZ>(u.n()); for (size_t x = 0; x < u.n(); ++x) {
        if (u.d[x] && v.d[x]) Tv.d[x] = bop(*u.d[x], *v.d[x]); else if (k.op == EWADD_V) { if (u.d[x]) Tv.d[x] = (TZ)*u.d[x]; else if (v.d[x]) Tv.d[x] = (TZ)*v.d[x]; } } break;
    case APPLY_M: Tm = MM<TZ>(A.r, A.c); for (size_t x = 0; x < A.d.size(); ++x) if (A.d[x]) Tm.d[x] = un(*A.d[x]); break;
    case APPLY1_M: Tm = MM<TZ>(B.r, B.c); for (size_t x = 0; x < B.d.size(); ++x) if (B.d[x]) Tm.d[x] = bop(a.sa, *B.d[x]); break;
    case APPLY2_M: Tm = MM<TZ>(A.r, A.c); for (size_t x = 0; x < A.d.size(); ++x) if (A.d[x]) Tm.d[x] = bop(*A.d[x], a.sb); break;
    case APPLY_V: Tv = MV<TZ>(u.n()); for (size_t x = 0; x < u.n(); ++x) if (u.d[x]) Tv.d[x] = un(*u.d[x]); break;
    case APPLY1_V: Tv = MV<TZ>(v.n()); for (size_t x = 0; x < v.n(); ++x) if (v.d[x]) Tv.d[x] = bop(a.sa, *v.d[x]); break;
    case APPLY2_V: Tv = MV<TZ>(u.n()); for (size_t x = 0; x < u.n(); ++x) if (u.d[x]) Tv.d[x] = bop(*u.d[x], a.sb); break;
    case REDUCE_MV: Tv = MV<TZ>(A.r); for (size_t i = 0; i < A.r; ++i) for (size_t j = 0; j < A.c; ++j) if (A.at(i, j)) { TZ z = (TZ)*A.at(i, j); Tv.d[i] = Tv.d[i] ? O{mon(*Tv.d[i], z)} : O{z}; } break;
    case EXTRACT_V: { size_t n = a.Cv.n(); Tv = MV<TZ>(n); for (size_t x = 0; x < n; ++x) { size_t p = k.allI ? x : k.I[x]; if (p < u.n() && u.d[p]) Tv.d[x] = (TZ)*u.d[p]; } break; }
    case EXTRACT_M: { size_t n = a.Cm.r, m = a.Cm.c; Tm = MM<TZ>(n, m);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { size_t p = k.allI ? i : k.I[i], q = k.allJ ? j : k.J[j]; if (p < A.r && q < A.c && A.at(p, q)) Tm.at(i, j) = (TZ)*A.at(p, q); } break; }
    case EXTRACT_C: { size_t n = a.Cv.n(); Tv = MV<TZ>(n); for (size_t x = 0; x < n; ++x) { size_t p = k.allI ? x : k.I[x]; if (p < A.r && A.at(p, k.idx)) Tv.d[x] = (TZ)*A.at(p, k.idx); } break; }
    case TRANSPOSE: Tm = MM<TZ>(A.c, A.r); for (size_t i = 0; i < A.r; ++i) for (size_t j = 0; j < A.c; ++j) if (A.at(i, j)) Tm.at(j, i) = (TZ)*A.at(i, j); break;
    case KRON: Tm = MM<TZ>(A.r * B.r, A.c * B.c); for (size_t i = 0; i < A.r; ++i) for (size_t j = 0; j < A.c; ++j) if (A.at(i, j)) for (size_t p = 0; p < B.r; ++p) for (size_t q = 0; q < B.c; ++q)
        if (B.at(p, q)) Tm.at(i * B.r + p, j * B.c + q) = bop(*A.at(i, j), *B.at(p, q)); break;
    }
}
template<class Y> MOut<Y> model_call(Call const &k, MArgs<Y> const &a) {
    VF_USE(Y) MOut<Y> o; BinF<TC, TZ, TC, W> acc{k.acc}; bool has = k.acc >= 0;
    auto sel = [](bool all, IdxV const &v, size_t n) { IdxV r; if (all) for (size_t i = 0; i < n; ++i) r.push_back(i); else r = v; return r; };
    switch (k.op) {
    case REDUCE_VS: case REDUCE_MS: {
        TZ z = mon.identity(); 
        if (k.op == REDUCE_VS) { for (auto &x : a.Av.d) if (x) z = mon(z, (TZ)*x); } else for (auto &x : a.Am.d) if (x) z = mon(z, (TZ)*x);
        o.s = has ? acc(a.Cs, z) : (TC)z; return o; }
    case ASSIGN_V: case ASSIGN_CV: {
        auto I = sel(k.allI, k.I, a.Cv.n()); MV<TC> Z = a.Cv; 
        if (k.op == ASSIGN_V) { for (size_t x = 0; x < I.size(); ++x) { std::optional<TZ> t; if (a.Av.d[x]) t = (TZ)*a.Av.d[x]; Z.d[I[x]] = accum1<TC, TZ>(a.Cv.d[I[x]], t, has, acc); } }
        else for (auto i : I) Z.d[i] = accum1<TC, TZ>(a.Cv.d[i], (TZ)a.sa, has, acc);
        o.v = MV<TC>(a.Cv.n()); for (size_t i = 0; i < Z.n(); ++i) o.v.d[i] = mask1<TC>(a.Cv.d[i], Z.d[i], k.mk == MK_NONE || admits<TM>(k.mk, a.Mv.d[i]), k.repl);
        return o; }
    case ASSIGN_M: case ASSIGN_CM: {
        MM<TA> A = k.op == ASSIGN_M ? (k.ta ? a.Am.t() : a.Am) : MM<TA>();
        auto I = sel(k.allI, k.I, a.Cm.r), J = sel(k.allJ, k.J, a.Cm.c); MM<TC> Z = a.Cm;
        for (size_t x = 0; x < I.size(); ++x) for (size_t y = 0; y < J.size(); ++y) {
            std::optional<TZ> t; if (k.op == ASSIGN_CM) t = (TZ)a.sa; else if (A.at(x, y)) t = (TZ)*A.at(x, y);
            Z.at(I[x], J[y]) = accum1<TC, TZ>(a.Cm.at(I[x], J[y]), t, has, acc); }
        o.m = MM<TC>(a.Cm.r, a.Cm.c);
        for (size_t i = 0; i < Z.r; ++i) for (size_t j = 0; j < Z.c; ++j) o.m.at(i, j) = mask1<TC>(a.Cm.at(i, j), Z.at(i, j), k.mk == MK_NONE || admits<TM>(k.mk, a.Mm.at(i, j)), k.repl);
        return o; }
    case ASSIGN_COL: case ASSIGN_ROW: {
        bool col = k.op == ASSIGN_COL; size_t n = col ? a.Cm.r : a.Cm.c; auto I = sel(k.allI, k.I, n); o.m = a.Cm;
        auto at = [&](MM<TC> &m, size_t i) -> std::optional<TC> & { return col ? m.at(i, k.idx) : m.at(k.idx, i); };
        MM<TC> Z = a.Cm; MM<TC> old = a.Cm;
        for (size_t x = 0; x < I.size(); ++x) { std::optional<TZ> t; if (a.Av.d[x]) t = (TZ)*a.Av.d[x]; at(Z, I[x]) = accum1<TC, TZ>(at(old, I[x]), t, has, acc); }
        for (size_t i = 0; i < n; ++i) at(o.m, i) = mask1<TC>(at(old, i), at(Z, i), k.mk == MK_NONE || admits<TM>(k.mk, a.Mv.d[i]), k.repl);
        return o; }
    default: {
        MM<TZ> Tm; MV<TZ> Tv; model_T<Y>(k, a, Tm, Tv);
        if (slots(k.op).out == 'm') o.m = write_m<TC, TZ, TM>(a.Cm, Tm, k.mk, &a.Mm, has, acc, k.repl);
        else o.v = write_v<TC, TZ, TM>(a.Cv, Tv, k.mk, &a.Mv, has, acc, k.repl);
        return o; }
    }
}
} // namespace vf
#ifdef OPS_IMPL
#include "ops_impl.hpp"
#endif
