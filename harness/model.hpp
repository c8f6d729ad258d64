// Reference model: matrices and vectors as arrays of optional values, and the
// GraphBLAS write rule written directly from its definition.
#pragma once
#include "verif.hpp"
#include "sym.hpp"

namespace vf {

template<class T> struct TName;
#define TN(T, s) template<> struct TName<T> { static char const *v() { return s; } };
TN(bool, "bool") TN(int8_t, "i8") TN(uint8_t, "u8") TN(int16_t, "i16") TN(uint16_t, "u16") TN(int32_t, "i32")
TN(uint32_t, "u32") TN(int64_t, "i64") TN(uint64_t, "u64") TN(float, "f32") TN(double, "f64")
#undef TN
template<int K> struct TName<Sym<K>> { static std::string v() { return "sym" + std::to_string(K); } };

template<class T> std::string vstr(T v) {
    char b[40];
    if constexpr (is_sym<T>::value) { if (v.poison()) return "(no value)"; snprintf(b, sizeof b, v.v() < 100000 ? "%llu" : "#%016llx", (unsigned long long)v.v()); }
    else if constexpr (std::is_floating_point_v<T>) snprintf(b, sizeof b, "%.17g", (double)v);
    else if constexpr (std::is_signed_v<T>) snprintf(b, sizeof b, "%lld", (long long)v);
    else snprintf(b, sizeof b, "%llu", (unsigned long long)v);
    return b;
}
template<class T> bool same(T a, T b) {
    if constexpr (is_sym<T>::value) return a == b;
    else if constexpr (std::is_floating_point_v<T>) return a == b || (a != a && b != b);
    else return a == b;
}

// With -DFAULTS every application of an operator counts down; at zero it throws.
struct Boom {};
#ifdef FAULTS
inline long fuse_left = -1, fuse_used = 0;
inline void fuse() { ++fuse_used; if (fuse_left > 0 && --fuse_left == 0) throw Boom{}; }
#else
inline void fuse() {}
#endif

// Binary operators selected at run time.
enum { OP_FIRST, OP_SECOND, OP_PLUS, OP_MINUS, OP_TIMES, OP_AXB, OP_MIN, OP_MAX, N_OPS };
inline char const *opname(int c) {
    static char const *n[] = {"first", "second", "plus", "minus", "times", "2a+3b", "min", "max"};
    return c < 0 ? "none" : n[c];
}
template<class W> W op_raw(int c, W a, W b) {
    switch (c) {
    case OP_FIRST: return a; case OP_SECOND: return b; case OP_PLUS: return a + b; case OP_MINUS: return a - b;
    case OP_TIMES: return a * b; case OP_AXB: return 2 * a + 3 * b; case OP_MIN: return b < a ? b : a; default: return a < b ? b : a;
    }
}
inline uint64_t sym_op(int c, uint64_t a, uint64_t b) {
    switch (c) { case OP_FIRST: return a; case OP_SECOND: return b; case OP_PLUS: return a + b; case OP_MIN: return 2 * a * b + a + b; case OP_MAX: return a ^ b; default: return sym_node((uint64_t)c, a, b); }
}
// W: wrap results (kept exact and associative for long programs on doubles)
template<class A, class B, class R, bool W = false> struct BinF {
    int c = 0;
    using first_argument_type = A; using second_argument_type = B; using result_type = R;
    R operator()(A a, B b) const {
        fuse();
        if constexpr (is_sym<R>::value) return R(sym_op(c, a.v(), b.v()));
        else if constexpr (W) {
            auto r = op_raw<uint64_t>(c, (uint64_t)(int64_t)a, (uint64_t)(int64_t)b);
            if (c == OP_MIN) r = (int64_t)a < (int64_t)b ? (uint64_t)(int64_t)a : (uint64_t)(int64_t)b;
            if (c == OP_MAX) r = (int64_t)a < (int64_t)b ? (uint64_t)(int64_t)b : (uint64_t)(int64_t)a;
            return (R)(int16_t)r;
        } else if constexpr (std::is_floating_point_v<A> || std::is_floating_point_v<B> || std::is_floating_point_v<R>)
            return (R)op_raw<double>(c, (double)a, (double)b);
        else if constexpr (sizeof(A) < 8 && sizeof(B) < 8)
            return (R)op_raw<int64_t>(c, (int64_t)a, (int64_t)b);
        else
            return (R)op_raw<uint64_t>(c, (uint64_t)a, (uint64_t)b);
    }
};
template<class R> R op_identity(int c) {
    if constexpr (is_sym<R>::value) return R(0); else switch (c) {
    case OP_MIN: if constexpr (std::is_same_v<R, bool>) return true; else if constexpr (std::is_floating_point_v<R>) return (R)1e6; else return std::numeric_limits<R>::max();
    case OP_MAX: if constexpr (std::is_same_v<R, bool>) return false; else if constexpr (std::is_floating_point_v<R>) return (R)-1e6; else return std::numeric_limits<R>::lowest();
    case OP_TIMES: return (R)1;
    default: return (R)0;
    }
}
template<class R, bool W = false> struct MonF {
    using ScalarType = R; using result_type = R;
    int c = OP_PLUS;
    R identity() const {
        if constexpr (W) { if (c == OP_MIN) return (R)32767; if (c == OP_MAX) return (R)-32768; }
        return op_identity<R>(c);
    }
    R operator()(R a, R b) const { return BinF<R, R, R, W>{c}(a, b); }
};
// Semiring with independent argument types.
template<class A, class B, class R, bool W = false> struct SemF {
    using ScalarType = R; using result_type = R;
    using first_argument_type = A; using second_argument_type = B;
    int ad = OP_PLUS, mu = OP_TIMES;
    R zero() const { return MonF<R, W>{ad}.identity(); }
    R add(R a, R b) const { return BinF<R, R, R, W>{ad}(a, b); }
    R mult(A a, B b) const { return BinF<A, B, R, W>{mu}(a, b); }
};
// Unary operators
enum { U_ID, U_NEG, U_2XP1, U_NOT, U_CONST, N_UOPS };
inline char const *uopname(int c) { static char const *n[] = {"identity", "negate", "2x+1", "not", "const5"}; return n[c]; }
template<class A, class R, bool W = false> struct UnF {
    using argument_type = A; using result_type = R;
    int c = 0;
    R operator()(A a) const {
        fuse();
        if constexpr (is_sym<R>::value) { return c == U_ID ? R(a.v()) : c == U_CONST ? R(5) : R(sym_node(100 + (uint64_t)c, a.v(), 0)); } else {
        using X = std::conditional_t<W, int64_t, std::conditional_t<std::is_floating_point_v<A> || std::is_floating_point_v<R>, double, std::conditional_t<std::is_same_v<A, uint64_t> || std::is_same_v<A, int64_t>, uint64_t, int64_t>>>;
        X x = (X)a, r;
        switch (c) { case U_ID: r = x; break; case U_NEG: r = (X)0 - x; break; case U_2XP1: r = 2 * x + 1; break; case U_NOT: r = x == 0 ? (X)1 : (X)0; break; default: r = 5; }
        if constexpr (W) return (R)(int16_t)r; else return (R)r; }
    }
};

template<class T> struct MM {
    using S = T;
    size_t r = 0, c = 0; std::vector<std::optional<T>> d;
    MM() {}
    MM(size_t r_, size_t c_) : r(r_), c(c_), d(r_ * c_) {}
    std::optional<T> &at(size_t i, size_t j) { return d[i * c + j]; }
    std::optional<T> const &at(size_t i, size_t j) const { return d[i * c + j]; }
    size_t nvals() const { size_t n = 0; for (auto &x : d) n += x.has_value(); return n; }
    MM t() const { MM q(c, r); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) q.at(j, i) = at(i, j); return q; }
    bool operator==(MM const &o) const {
        if (r != o.r || c != o.c) return false;
        for (size_t k = 0; k < d.size(); ++k) { if (d[k].has_value() != o.d[k].has_value()) return false; if (d[k] && !same(*d[k], *o.d[k])) return false; }
        return true;
    }
    std::string str() const {
        std::string s = std::to_string(r) + "x" + std::to_string(c) + ":" + TName<T>::v() + "{";
        bool f = true; for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) if (at(i, j)) {
            if (!f) s += ' '; f = false; s += "(" + std::to_string(i) + "," + std::to_string(j) + ")=" + vstr(*at(i, j)); }
        return s + "}";
    }
};
template<class T> struct MV {
    using S = T;
    std::vector<std::optional<T>> d;
    MV() {}
    MV(size_t n) : d(n) {}
    size_t n() const { return d.size(); }
    size_t nvals() const { size_t k = 0; for (auto &x : d) k += x.has_value(); return k; }
    bool operator==(MV const &o) const {
        if (d.size() != o.d.size()) return false;
        for (size_t k = 0; k < d.size(); ++k) { if (d[k].has_value() != o.d[k].has_value()) return false; if (d[k] && !same(*d[k], *o.d[k])) return false; }
        return true;
    }
    std::string str() const {
        std::string s = std::to_string(d.size()) + ":" + TName<T>::v() + "{"; bool f = true;
        for (size_t i = 0; i < d.size(); ++i) if (d[i]) { if (!f) s += ' '; f = false; s += "[" + std::to_string(i) + "]=" + vstr(*d[i]); }
        return s + "}";
    }
};

enum { MK_NONE, MK_VAL, MK_COMP, MK_STRUCT, MK_CSTRUCT, N_MK };
inline char const *mkname(int k) { static char const *n[] = {"none", "mask", "complement(mask)", "structure(mask)", "complement(structure(mask))"}; return n[k]; }
template<class T> bool admits(int kind, std::optional<T> const &m) {
    switch (kind) {
    case MK_NONE: return true;
    case MK_VAL: return m && (bool)*m;
    case MK_COMP: return !(m && (bool)*m);
    case MK_STRUCT: return m.has_value();
    default: return !m.has_value();
    }
}
// accumulate: z = old (.) t
template<class C, class Z, class Acc> std::optional<C> accum1(std::optional<C> const &old, std::optional<Z> const &t, bool has, Acc const &acc) {
    if (!has) { if (t) return (C)*t; return std::nullopt; }
    if (old && t) return (C)acc(*old, *t);
    if (t) return (C)*t;
    return old;
}
template<class C> std::optional<C> mask1(std::optional<C> const &old, std::optional<C> const &z, bool admit, bool repl) {
    if (admit) return z;
    return repl ? std::optional<C>{} : old;
}
template<class C, class Z, class M, class Acc>
MM<C> write_m(MM<C> const &old, MM<Z> const &t, int mk, MM<M> const *m, bool has, Acc const &acc, bool repl) {
    MM<C> r(old.r, old.c);
    for (size_t i = 0; i < old.r; ++i) for (size_t j = 0; j < old.c; ++j)
        r.at(i, j) = mask1<C>(old.at(i, j), accum1<C, Z>(old.at(i, j), t.at(i, j), has, acc),
                              mk == MK_NONE || admits<M>(mk, m->at(i, j)), repl);
    return r;
}
template<class C, class Z, class M, class Acc>
MV<C> write_v(MV<C> const &old, MV<Z> const &t, int mk, MV<M> const *m, bool has, Acc const &acc, bool repl) {
    MV<C> r(old.n());
    for (size_t i = 0; i < old.n(); ++i)
        r.d[i] = mask1<C>(old.d[i], accum1<C, Z>(old.d[i], t.d[i], has, acc), mk == MK_NONE || admits<M>(mk, m->d[i]), repl);
    return r;
}

// ------------------------------------------------------------ generators
// Value pools: exact small numbers, always including stored zeros.
template<class T> T gen_val(Ctx &c) {
    if constexpr (is_sym<T>::value) { uint64_t x = c.draw(40); return T(x == 0 ? 1 : x == 1 ? 0 : x); }
    else if constexpr (std::is_same_v<T, bool>) return c.draw(3) != 1;   // 0 -> true (simplest), stored false now and then
    else if constexpr (std::is_floating_point_v<T>) { static const double v[] = {1, 0, 2, 3, -1, 0.5, 1.5, -2.25, 7, 300.5, 4, 5}; double x = v[c.draw(12)]; return (T)(c.intvals ? std::floor(x) : x); }
    else if constexpr (sizeof(T) == 1 && !std::is_signed_v<T>) { static const int v[] = {1, 0, 2, 3, 5, 7, 100, 200, 255, 4, 6, 9}; return (T)v[c.draw(12)]; }
    else if constexpr (sizeof(T) == 1) { static const int v[] = {1, 0, 2, 3, -1, -2, 7, 100, -128, 127, 4, 5}; return (T)v[c.draw(12)]; }
    else if constexpr (std::is_same_v<T, uint64_t>) { static const uint64_t v[] = {1, 0, 2, 3, 5, 1ull << 32, (1ull << 53) + 1, 11, 4, ~0ull, 1ull << 63, 256}; return v[c.draw(12)]; }   // not exact as double, zero when cut to 32 bits
    else if constexpr (std::is_same_v<T, int64_t>) { static const int64_t v[] = {1, 0, 2, 3, -1, -2, 7, 300, 4, 1ll << 32, -(1ll << 53) - 1, (1ll << 62) + 1}; int64_t x = v[c.draw(12)]; return c.bigvals ? x : (int64_t)(int)(x % 1000); }
    else if constexpr (std::is_signed_v<T>) { static const int v[] = {1, 0, 2, 3, -1, -2, 7, 300, 4, 5, 6, 11}; return (T)v[c.draw(12)]; }
    else { static const unsigned v[] = {1, 0, 2, 3, 5, 7, 300, 11, 4, 6, 8, 9}; return (T)v[c.draw(12)]; }
}
inline unsigned gen_density(Ctx &c) { static const unsigned q[] = {4, 2, 1, 6, 8, 0, 4, 3}; return q[c.draw(8)]; } // of 8
template<class T> MM<T> gen_mm(Ctx &c, size_t r, size_t k) {
    MM<T> m(r, k); unsigned q = gen_density(c);
    if (r * k <= 400) { for (auto &x : m.d) if (q && c.chance(q, 8)) x = gen_val<T>(c); return m; }
    size_t n = c.draw(c.size == 2 && c.chance(1, 3) ? 12 : 2 * (r + k));         // large: scattered entries, the last row and column, and a few dense rows
    for (size_t e = 0; e < n; ++e) { size_t i = c.chance(1, 16) ? r - 1 : c.draw(r), j = c.chance(1, 16) ? k - 1 : c.draw(k); m.at(i, j) = gen_val<T>(c); }
    if (q > 4) for (size_t e = c.draw(3); e > 0; --e) { size_t i = c.draw(r); for (size_t j = 0; j < k; ++j) if (!c.chance(1, 8)) m.at(i, j) = gen_val<T>(c); }
    return m;
}
template<class T> MV<T> gen_mv(Ctx &c, size_t n) {
    MV<T> m(n);
    if (n > 64 && c.size == 2 && c.chance(1, 3)) { for (size_t e = c.draw(12); e > 0; --e) m.d[c.chance(1, 8) ? n - 1 : c.draw(n)] = gen_val<T>(c); return m; }     // a handful of entries
    unsigned q = gen_density(c);
    for (auto &x : m.d) if (q && c.chance(q, 8)) x = gen_val<T>(c);
    return m;
}
inline size_t gen_dim(Ctx &c) {     // mostly small, 1 included, now and then larger
    if (c.sq) return c.sq;
    if (c.size == 2) {
        if (c.nbig < 2 && c.draw(5) >= 3) return c.nbig++ ? 60 + c.draw(80) : c.draw(3) == 2 ? 500 + c.draw(1700) : 65 + c.draw(600);
        return 1 + c.draw(8);
    }
    uint64_t k = c.draw(c.size ? 40 : 60);
    if (k < 12) return 1 + k % 3;
    if (k < 38) return 2 + k % 5;
    if (k >= 58 || (c.size && k == 39)) {
        if (c.big && c.draw(10) == 9) return c.draw(5) == 4 ? 80 + c.draw(240) : 17 + c.draw(60);       // past 32, 64, 128 and 256 now and then
        return 7 + c.draw(c.size ? 14 : 6);
    }
    return 1 + k % 6;
}
} // namespace vf
