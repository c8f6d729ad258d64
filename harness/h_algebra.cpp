// C20: predefined operators, monoids and semirings against independent definitions and laws.
#define VF_MAIN
#include "verif.hpp"
#include <graphblas/graphblas.hpp>
using namespace vf;
using I = __int128;

template<class T> std::string sv(T v) { std::ostringstream o; o.precision(17); o << +v; return o.str(); }
template<class T> constexpr bool isf = std::is_floating_point_v<T>;
template<class T> constexpr char const *tn() {
    if constexpr (std::is_same_v<T, bool>) return "bool"; else if constexpr (std::is_same_v<T, int8_t>) return "int8"; else if constexpr (std::is_same_v<T, int16_t>) return "int16";
    else if constexpr (std::is_same_v<T, int32_t>) return "int32"; else if constexpr (std::is_same_v<T, int64_t>) return "int64"; else if constexpr (std::is_same_v<T, uint8_t>) return "uint8";
    else if constexpr (std::is_same_v<T, uint16_t>) return "uint16"; else if constexpr (std::is_same_v<T, uint32_t>) return "uint32"; else if constexpr (std::is_same_v<T, uint64_t>) return "uint64";
    else if constexpr (std::is_same_v<T, float>) return "float"; else return "double"; }
// values: small, boundary, or uniformly random over the type
template<class T> T gen(Ctx &c) {
    if constexpr (std::is_same_v<T, bool>) return c.boolean();
    else if constexpr (isf<T>) {
        switch (c.draw(6)) {
        case 5: { using L = std::numeric_limits<T>; return c.pick({L::infinity(), -L::infinity(), L::max(), L::lowest(), L::min(), L::denorm_min(), -L::denorm_min(), (T)(1 + L::epsilon())}); }
        case 0: case 1: return (T)c.range(-20, 20);
        case 2: return (T)c.range(-400, 400) / (T)8;
        case 3: return (T)c.range(-1000000, 1000000) * (T)1.5;
        default: return (T)std::ldexp((double)c.range(-1000, 1000), (int)c.range(-40, 40));
        }
    } else {
        switch (c.draw(4)) {
        case 0: return (T)c.range(std::is_signed_v<T> ? -6 : 0, 12);
        case 1: return (T)((I)std::numeric_limits<T>::max() - (I)c.draw(4));
        case 2: return (T)((I)std::numeric_limits<T>::min() + (I)c.draw(4));
        default: return (T)c.draw(~0ull);
        }
    }
}
struct Skip {};
template<class A, class B> using Pr = decltype(std::declval<A>() + std::declval<B>());
template<class P> bool fits(I x) { return x >= (I)std::numeric_limits<P>::min() && x <= (I)std::numeric_limits<P>::max(); }
// arithmetic result of the C++ common type P; signed overflow is outside the domain
template<class D3, class P> D3 fin(I x) { if (std::is_signed_v<P> && !fits<P>(x)) throw Skip{}; P p = (P)x; if constexpr (std::is_same_v<D3, bool>) return p != 0; else if constexpr (isf<D3>) return (D3)p; else return (D3)p; }
template<class D3, class P> D3 finf(P x) { if constexpr (isf<D3>) { return (D3)x; } else if constexpr (std::is_same_v<D3, bool>) return x != 0; else {
    long double t = truncl((long double)x); if (!(t >= (long double)std::numeric_limits<D3>::min() && t <= (long double)std::numeric_limits<D3>::max())) throw Skip{}; return (D3)(I)t; } }
template<class A, class B> void mixsign(A a, B b) { if constexpr (!isf<A> && !isf<B>) { using P = Pr<A, B>; if (!std::is_signed_v<P> && ((I)a < 0 || (I)b < 0)) throw Skip{}; } }

enum { OR, AND, XOR, XNOR, BOR, BAND, BXOR, BXNOR, EQ, NE, GT, LT, GE, LE, FIRST, SECOND, MIN, MAX, PLUS, MINUS, TIMES, DIV, POWER, NB };
static char const *bname[] = {"LogicalOr", "LogicalAnd", "LogicalXor", "LogicalXnor", "BitwiseOr", "BitwiseAnd", "BitwiseXor", "BitwiseXnor", "Equal", "NotEqual", "GreaterThan", "LessThan",
    "GreaterEqual", "LessEqual", "First", "Second", "Min", "Max", "Plus", "Minus", "Times", "Div", "Power"};
template<class D3, class A> D3 conv(A x) { if constexpr (isf<A>) return finf<D3, A>(x); else if constexpr (std::is_same_v<D3, bool>) return x != 0; else return (D3)x; }
template<class A, class B, class D3> D3 want_b(int op, A a, B b) {
    bool la = a != A(0), lb = b != B(0); using P = Pr<A, B>; constexpr bool fl = isf<P>;
    auto cmp = [&]() -> int { if constexpr (fl) { P x = (P)a, y = (P)b; return x < y ? -1 : x > y ? 1 : 0; } else return (I)a < (I)b ? -1 : (I)a > (I)b ? 1 : 0; };
    // a NaN is unordered: it equals nothing, and Min and Max of it are not defined
    if constexpr (fl) if (P x = (P)a, y = (P)b; x != x || y != y) {
        if (op >= EQ && op <= LE) return (D3)(op == NE);
        if (op == MIN || op == MAX || op == POWER) throw Skip{}; }
    switch (op) {
    case OR: return (D3)(la | lb); case AND: return (D3)(la & lb); case XOR: return (D3)(la != lb); case XNOR: return (D3)(la == lb);
    case EQ: mixsign(a, b); return (D3)(cmp() == 0); case NE: mixsign(a, b); return (D3)(cmp() != 0); case GT: mixsign(a, b); return (D3)(cmp() > 0); case LT: mixsign(a, b); return (D3)(cmp() < 0);
    case GE: mixsign(a, b); return (D3)(cmp() >= 0); case LE: mixsign(a, b); return (D3)(cmp() <= 0);
    case FIRST: return conv<D3>(a); case SECOND: return conv<D3>(b);
    case MIN: mixsign(a, b); return cmp() <= 0 ? conv<D3>((P)a) : conv<D3>((P)b);
    case MAX: mixsign(a, b); return cmp() >= 0 ? conv<D3>((P)a) : conv<D3>((P)b);
    }
    if constexpr (fl) {
        P x = (P)a, y = (P)b;
        switch (op) { case PLUS: return finf<D3, P>(x + y); case MINUS: return finf<D3, P>(x - y); case TIMES: return finf<D3, P>(x * y);
        case DIV: if (y == 0) throw Skip{}; return finf<D3, P>(x / y);
        case POWER: { if (y != std::floor(y) || std::fabs(y) > 6 || std::fabs(x) > 1000 || (x == 0 && y < 0)) throw Skip{}; long double r = 1; for (int i = 0; i < (int)std::fabs(y); ++i) r *= (long double)x; if (y < 0) r = 1 / r; return finf<D3, P>((P)r); } }
    } else {
        I x = (I)(P)a, y = (I)(P)b;
        switch (op) {
        case BOR: case BAND: case BXOR: case BXNOR: { I r = 0; for (int i = 0; i < 64; ++i) { bool p = (x >> i) & 1, q = (y >> i) & 1; bool v = op == BOR ? p || q : op == BAND ? p && q : op == BXOR ? p != q : p == q; if (v) r |= (I)1 << i; } return (D3)(P)r; }
        case PLUS: return fin<D3, P>(x + y); case MINUS: return fin<D3, P>(x - y);
        case TIMES: if (std::is_signed_v<P>) return fin<D3, P>(x * y); else return fin<D3, P>((I)(uint64_t)((unsigned __int128)x * (unsigned __int128)y));
        case DIV: if (y == 0) throw Skip{}; return fin<D3, P>(x / y);
        case POWER: { if ((I)b < 0 || (I)b > 62) throw Skip{}; I r = 1; for (I i = 0; i < (I)b; ++i) { r *= (I)a; if (r > ((I)1 << 52) || r < -((I)1 << 52)) throw Skip{}; } if (!isf<D3> && !std::is_same_v<D3, bool> && !fits<D3>(r)) throw Skip{}; return std::is_same_v<D3, bool> ? (D3)(r != 0) : (D3)r; } }
    }
    throw Skip{};
}
template<class A, class B, class D3> D3 real_b(int op, A a, B b) {
    using namespace grb;
    switch (op) {
#define X(k, N) case k: return N<A, B, D3>()(a, b);
    X(OR, LogicalOr) X(AND, LogicalAnd) X(XOR, LogicalXor) X(XNOR, LogicalXnor) X(EQ, Equal) X(NE, NotEqual) X(GT, GreaterThan) X(LT, LessThan) X(GE, GreaterEqual) X(LE, LessEqual)
    X(FIRST, First) X(SECOND, Second) X(MIN, Min) X(MAX, Max) X(PLUS, Plus) X(MINUS, Minus) X(TIMES, Times) X(DIV, Div) X(POWER, Power)
    }
    if constexpr (!isf<A> && !isf<B> && !isf<D3>) switch (op) { X(BOR, BitwiseOr) X(BAND, BitwiseAnd) X(BXOR, BitwiseXor) X(BXNOR, BitwiseXnor) }
    throw Skip{};
#undef X
}
template<class T> bool eqv(T a, T b, bool loose) { if (a == b) return true; if constexpr (isf<T>) { if (a != a && b != b) return true; if (loose) return std::fabs((double)a - (double)b) <= 1e-5 * (1 + std::fabs((double)b)); } return false; }

template<class A, class B, class D3> void binary_case(Ctx &c) {
    int op = (int)c.draw(NB); A a = gen<A>(c); B b = gen<B>(c); if (c.chance(1, 8)) { try { b = conv<B>(a); } catch (Skip &) {} }
    if (op == POWER) { if (c.boolean()) a = (A)c.range(std::is_signed_v<A> ? -9 : 0, 9); b = (B)c.range(std::is_signed_v<B> ? -3 : 0, 9); }
    if constexpr (isf<A>) if (c.chance(1, 16)) a = std::numeric_limits<A>::quiet_NaN();
    if constexpr (isf<B>) if (c.chance(1, 16)) b = std::numeric_limits<B>::quiet_NaN();
    if (op >= BOR && op <= BXNOR && (isf<A> || isf<B> || isf<D3>)) throw Discard{};
    if (op == DIV && b == B(0)) throw Discard{};
    c.note(std::string(bname[op]) + "<" + tn<A>() + "," + tn<B>() + "," + tn<D3>() + ">(" + sv(a) + ", " + sv(b) + ")"); c.label(bname[op]);
    D3 w; try { w = want_b<A, B, D3>(op, a, b); } catch (Skip &) { throw Discard{}; }
    D3 g; try { g = real_b<A, B, D3>(op, a, b); } catch (Skip &) { throw Discard{}; }
    if ((long double)a != (long double)b && a != A(0)) c.nontrivial();
    if (!eqv<D3>(g, w, op == POWER)) c.fail(std::string(bname[op]) + "<" + tn<A>() + "," + tn<B>() + "," + tn<D3>() + ">(" + sv(a) + "," + sv(b) + ") returned " + sv(g) + ", the operator denotes " + sv(w));
}
template<class T> void unary_case(Ctx &c) {
    using namespace grb; T a = gen<T>(c); if constexpr (isf<T>) if (c.chance(1, 16)) a = std::numeric_limits<T>::quiet_NaN(); unsigned op = (unsigned)c.draw(6); static char const *un[] = {"Identity", "Abs", "AdditiveInverse", "MultiplicativeInverse", "LogicalNot", "BitwiseNot"};
    c.note(std::string(un[op]) + "<" + tn<T>() + ">(" + sv(a) + ")"); c.label(un[op]); T g{}, w{};
    using P = decltype(+a);
    switch (op) {
    case 0: g = Identity<T>()(a); w = a; break;
    case 1: if constexpr (isf<T>) w = a < 0 ? -a : a; else { I x = (I)a < 0 ? -(I)a : (I)a; if (!fits<T>(x)) throw Discard{}; w = (T)x; } g = Abs<T>()(a); break;
    case 2: if constexpr (isf<T>) w = T(0) - a; else { try { w = fin<T, P>(-(I)a); } catch (Skip &) { throw Discard{}; } } g = AdditiveInverse<T>()(a); break;
    case 3: if (a == T(0)) throw Discard{}; if constexpr (isf<T>) w = T(1) / a; else w = (T)((I)1 / (I)a); g = MultiplicativeInverse<T>()(a); break;
    case 4: g = LogicalNot<T>()(a); w = (T)(a == T(0)); break;
    default: if constexpr (isf<T> || std::is_same_v<T, bool>) throw Discard{}; else { g = BitwiseNot<T>()(a); I r = 0; for (int i = 0; i < 64; ++i) if (!(((I)a >> i) & 1)) r |= (I)1 << i; w = (T)r; }
    }
    if (a != T(0)) c.nontrivial();
    if (!eqv<T>(g, w, false)) c.fail(std::string(un[op]) + "<" + tn<T>() + ">(" + sv(a) + ") returned " + sv(g) + ", the operator denotes " + sv(w));
}
// values for which the laws are exact: logical monoids over truth values, sums and products that neither overflow nor round
template<class T> T law_val(Ctx &c, int m) {
    if (m >= 2 && m <= 5) return (T)c.boolean();
    if (m == 6 || m == 7) return gen<T>(c);
    if constexpr (std::is_same_v<T, bool>) return c.boolean();
    else if constexpr (!std::is_signed_v<T>) return sizeof(T) == 2 ? (T)c.range(0, 200) : gen<T>(c);     // uint16 products promote to int
    else { if (m == 0) return sizeof(T) == 1 ? (T)c.range(-40, 40) : (T)c.range(-8000, 8000); return (T)c.range(sizeof(T) == 1 ? -5 : -30, sizeof(T) == 1 ? 5 : 30); }
}
template<class T, class M> void laws(Ctx &c, M m, char const *nm, int mi, int op) {
    T a = law_val<T>(c, mi), b = law_val<T>(c, mi), d = law_val<T>(c, mi);
    c.note(std::string(nm) + "<" + tn<T>() + "> on " + sv(a) + ", " + sv(b) + ", " + sv(d)); c.label(nm);
    std::string who = std::string(nm) + "<" + tn<T>() + ">";
    T e = m.identity();
    if (!(m(e, a) == a)) c.fail(who + ": identity " + sv(e) + " combined with " + sv(a) + " gives " + sv(m(e, a)));
    if (!(m(a, e) == a)) c.fail(who + ": " + sv(a) + " combined with identity " + sv(e) + " gives " + sv(m(a, e)));
    if (!(m(a, b) == m(b, a))) c.fail(who + ": not commutative on " + sv(a) + ", " + sv(b));
    if (!(m(m(a, b), d) == m(a, m(b, d)))) c.fail(who + ": not associative on " + sv(a) + ", " + sv(b) + ", " + sv(d));
    T w; try { w = want_b<T, T, T>(op, a, b); } catch (Skip &) { return; }
    if (!(m(a, b) == w)) c.fail(who + "(" + sv(a) + "," + sv(b) + ") returned " + sv(m(a, b)) + ", it denotes " + sv(w));
    if (a != b && b != d) c.nontrivial();
}
static int const mon_op[] = {PLUS, TIMES, OR, AND, XOR, XNOR, MIN, MAX};
static char const *mon_name[] = {"PlusMonoid", "TimesMonoid", "LogicalOrMonoid", "LogicalAndMonoid", "LogicalXorMonoid", "LogicalXnorMonoid", "MinMonoid", "MaxMonoid"};
template<class T, class F> void with_mon(int i, F f) { using namespace grb;
    switch (i) { case 0: f(PlusMonoid<T>()); break; case 1: f(TimesMonoid<T>()); break; case 2: f(LogicalOrMonoid<T>()); break; case 3: f(LogicalAndMonoid<T>()); break;
    case 4: f(LogicalXorMonoid<T>()); break; case 5: f(LogicalXnorMonoid<T>()); break; case 6: f(MinMonoid<T>()); break; default: f(MaxMonoid<T>()); } }
template<class T> void monoid_case(Ctx &c) { int i = (int)c.draw(8); with_mon<T>(i, [&](auto m) { laws<T>(c, m, mon_name[i], i, mon_op[i]); }); }

template<template<class, class, class> class SR, class A, class B, class D3> void sr_case(Ctx &c, char const *nm, int mi, int mop) {
    SR<A, B, D3> s; A a = gen<A>(c); B b = gen<B>(c); D3 x = law_val<D3>(c, mi), y = law_val<D3>(c, mi);
    std::string who = std::string(nm) + "<" + tn<A>() + "," + tn<B>() + "," + tn<D3>() + ">";
    c.note(who + ": mult(" + sv(a) + "," + sv(b) + ") add(" + sv(x) + "," + sv(y) + ")"); c.label(nm);
    static_assert(std::is_same_v<typename SR<A, B, D3>::result_type, D3>);
    bool dom = true; D3 w{}; try { w = want_b<A, B, D3>(mop, a, b); } catch (Skip &) { dom = false; }
    if (dom) { D3 g = s.mult(a, b); if (!eqv<D3>(g, w, false)) c.fail(who + ".mult(" + sv(a) + "," + sv(b) + ") returned " + sv(g) + ", " + bname[mop] + " denotes " + sv(w));
        D3 h = grb::multiply_op(s)(a, b); if (!eqv<D3>(h, w, false)) c.fail("multiply_op(" + who + ")(" + sv(a) + "," + sv(b) + ") returned " + sv(h) + ", expected " + sv(w)); }
    bool ad = true; D3 t{}; try { t = want_b<D3, D3, D3>(mon_op[mi], x, y); } catch (Skip &) { ad = false; }
    if (ad) { D3 g = s.add(x, y); if (!(g == t)) c.fail(who + ".add(" + sv(x) + "," + sv(y) + ") returned " + sv(g) + ", " + mon_name[mi] + " denotes " + sv(t));
        D3 h = grb::add_monoid(s)(x, y); if (!(h == t)) c.fail("add_monoid(" + who + ")(" + sv(x) + "," + sv(y) + ") returned " + sv(h) + ", expected " + sv(t));
        if (!(s.add(s.zero(), x) == x) || !(s.add(x, s.zero()) == x)) c.fail(who + ": zero " + sv(s.zero()) + " is not neutral for add on " + sv(x));
        if (!(grb::add_monoid(s).identity() == s.zero())) c.fail("add_monoid(" + who + ").identity() differs from zero()"); }
    if (dom && ad && (long double)a != (long double)b && x != y) c.nontrivial();
}
template<class A, class B, class D3> void semiring_case(Ctx &c) {
    switch (c.draw(16)) {
#define S(i, N, m, o) case i: sr_case<grb::N, A, B, D3>(c, #N, m, o); break;
    S(0, ArithmeticSemiring, 0, TIMES) S(1, MinPlusSemiring, 6, PLUS) S(2, MaxPlusSemiring, 7, PLUS) S(3, MinTimesSemiring, 6, TIMES) S(4, MaxTimesSemiring, 7, TIMES)
    S(5, MinMaxSemiring, 6, MAX) S(6, MaxMinSemiring, 7, MIN) S(7, PlusMinSemiring, 0, MIN) S(8, LogicalSemiring, 2, AND) S(9, AndOrSemiring, 3, OR) S(10, XorAndSemiring, 4, AND)
    S(11, XnorOrSemiring, 5, OR) S(12, MinFirstSemiring, 6, FIRST) S(13, MinSecondSemiring, 6, SECOND) S(14, MaxFirstSemiring, 7, FIRST) S(15, MaxSecondSemiring, 7, SECOND)
    }
}
// compiled in parts (-DPARTN=0..5)
#define B1(n, T) TARGET("op1_" n, unary_case<T>) TARGET("op2_" n, (binary_case<T, T, T>)) TARGET("mon_" n, monoid_case<T>) TARGET("sr_" n, (semiring_case<T, T, T>))
#define B3(n, A, B, D) TARGET("op2_" n, (binary_case<A, B, D>)) TARGET("sr_" n, (semiring_case<A, B, D>))
#if PARTN == 0
B1("bool", bool) B1("i8", int8_t) B1("i16", int16_t)
#elif PARTN == 1
B1("i32", int32_t) B1("i64", int64_t)
#elif PARTN == 2
B1("u8", uint8_t) B1("u16", uint16_t)
#elif PARTN == 3
B1("u32", uint32_t) B1("u64", uint64_t)
#elif PARTN == 4
B1("f32", float) B1("f64", double)
#elif PARTN == 5
B3("mix1", int32_t, double, double) B3("mix2", bool, int32_t, int64_t) B3("mix3", double, int8_t, float)
#elif PARTN == 6
B3("mix4", uint8_t, int32_t, int32_t) B3("mix5", int32_t, int32_t, bool) B3("mix6", int16_t, int8_t, int64_t)
#endif
