// C21: identities of linear algebra. C23: matrix utilities.
#define VF_MAIN
#include "gen.hpp"
#include <graphblas/matrix_utils.hpp>
using namespace vf;
#if CT == 0
using T = double;
#elif CT == 1
using T = uint32_t;
#elif CT == 2
using T = bool;
#elif CT == 3
using T = int64_t;
#else
using T = uint8_t;
#endif
namespace {
using M = grb::Matrix<T>; using V = grb::Vector<T>; using MMT = MM<T>; using MVT = MV<T>;
size_t dim(Ctx &c) { return gen_dim(c); }
std::string idxstr(std::vector<grb::IndexType> const &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += " "; s += std::to_string(v[i]); } return s + "]"; }
template<class F> void with_sr(Ctx &c, F f) {
    if constexpr (std::is_same_v<T, bool>) { switch (c.draw(2)) { case 0: c.note("semiring or-and"); f(grb::LogicalSemiring<bool>(), grb::LogicalOr<bool>(), grb::LogicalOrMonoid<bool>(), true); break; default: c.note("semiring xor-and"); f(grb::XorAndSemiring<bool>(), grb::LogicalXor<bool>(), grb::LogicalXorMonoid<bool>(), true); } }
    else if constexpr (sizeof(T) == 1) { c.note("semiring plus-times"); f(grb::ArithmeticSemiring<T>(), grb::Plus<T>(), grb::PlusMonoid<T>(), (T)1); }
    else switch (c.draw(4)) {
        case 0: case 1: c.note("semiring plus-times"); f(grb::ArithmeticSemiring<T>(), grb::Plus<T>(), grb::PlusMonoid<T>(), (T)1); break;
        case 2: c.note("semiring min-plus"); f(grb::MinPlusSemiring<T>(), grb::Min<T>(), grb::MinMonoid<T>(), (T)0); break;
        default: c.note("semiring max-plus"); f(grb::MaxPlusSemiring<T>(), grb::Max<T>(), grb::MaxMonoid<T>(), (T)0); }
}
MMT gm(Ctx &c, char const *n, size_t r, size_t k) { auto m = gen_mm<T>(c, r, k); c.note(std::string(n) + " = " + m.str()); return m; }
MVT gv(Ctx &c, char const *n, size_t k) { auto m = gen_mv<T>(c, k); c.note(std::string(n) + " = " + m.str()); return m; }
void eq(Ctx &c, char const *what, M const &a, M const &b) { auto x = observe(c, a, what), y = observe(c, b, what); if (!(x == y)) c.fail(std::string(what) + ": left side " + x.str() + ", right side " + y.str()); if (!(a == b)) c.fail(std::string(what) + ": equal matrices compare unequal"); }
void eq(Ctx &c, char const *what, V const &a, V const &b) { auto x = observe(c, a, what), y = observe(c, b, what); if (!(x == y)) c.fail(std::string(what) + ": left side " + x.str() + ", right side " + y.str()); if (!(a == b)) c.fail(std::string(what) + ": equal vectors compare unequal"); }
auto const NM = grb::NoMask(); auto const NA = grb::NoAccumulate();
template<class A> size_t NR(A const &a) { return a.nrows(); }
template<class A> size_t NC(A const &a) { return a.ncols(); }
template<class SR, class A, class B> M mul(SR s, A const &a, B const &b) { M r(NR(a), NC(b)); grb::mxm(r, NM, NA, s, a, b); return r; }
template<class SR, class A> V mv(SR s, A const &a, V const &u) { V r(NR(a)); grb::mxv(r, NM, NA, s, a, u); return r; }
template<class SR, class A> V vm(SR s, V const &u, A const &a) { V r(NC(a)); grb::vxm(r, NM, NA, s, u, a); return r; }
template<class OP, class A, class B> M add(OP p, A const &a, B const &b) { M r(NR(a), NC(a)); grb::eWiseAdd(r, NM, NA, p, a, b); return r; }
template<class OP> V addv(OP p, V const &a, V const &b) { V r(a.size()); grb::eWiseAdd(r, NM, NA, p, a, b); return r; }
template<class A> M tr(A const &a) { M r(NC(a), NR(a)); grb::transpose(r, NM, NA, a); return r; }
template<class OP, class A, class B> M emul(OP p, A const &a, B const &b) { M r(NR(a), NC(a)); grb::eWiseMult(r, NM, NA, p, a, b); return r; }
template<class OP, class A, class B> M kro(OP p, A const &a, B const &b) { M r(NR(a) * NR(b), NC(a) * NC(b)); grb::kronecker(r, NM, NA, p, a, b); return r; }
// boolean or structural coincidences do not matter: every identity below is exact on the generated values, stored zeros included
void product(Ctx &c) {
    size_t p = dim(c), q = dim(c), r = dim(c), s = dim(c); with_sr(c, [&](auto sr, auto plus, auto, T) {
        auto a = gm(c, "A", p, q), b = gm(c, "B", q, r), d = gm(c, "C", r, s), b2 = gm(c, "B2", q, r); M A = to_grb(a), B = to_grb(b), D = to_grb(d), B2 = to_grb(b2);
        M AB = mul(sr, A, B); if (AB.nvals() && p * r > 1) c.nontrivial();
        eq(c, "(AB)' = B'A' (views)", tr(AB), mul(sr, grb::transpose(B), grb::transpose(A)));
        eq(c, "(AB)' = B'A' (copies)", tr(AB), mul(sr, tr(B), tr(A)));
        eq(c, "AB = (A')'B", AB, mul(sr, grb::transpose(tr(A)), B)); eq(c, "AB = A(B')'", AB, mul(sr, A, grb::transpose(tr(B))));
        eq(c, "(AB)C = A(BC)", mul(sr, AB, D), mul(sr, A, mul(sr, B, D)));
        eq(c, "A(B+B2) = AB + AB2", mul(sr, A, add(plus, B, B2)), add(plus, AB, mul(sr, A, B2)));
        eq(c, "(B+B2)C = BC + B2C", mul(sr, add(plus, B, B2), D), add(plus, mul(sr, B, D), mul(sr, B2, D)));
        { M r2 = mul(sr, A, B); grb::mxm(r2, NM, plus, sr, A, B2); eq(c, "accumulating AB2 into AB = AB + AB2", r2, add(plus, AB, mul(sr, A, B2))); }
        { auto mk = gm(c, "mask", p, r); M K = to_grb(mk); M x(p, r), y(p, r); grb::mxm(x, K, NA, sr, A, B, grb::REPLACE); grb::mxm(y, grb::complement(K), NA, sr, A, B, grb::REPLACE); eq(c, "AB = AB under the mask + AB under its complement", add(plus, x, y), AB); if (x.nvals() + y.nvals() != AB.nvals()) c.fail("the masked parts of AB overlap");
          M w = mul(sr, A, B); grb::mxm(w, grb::structure(K), NA, sr, A, B); eq(c, "recomputing AB under a mask changes nothing", w, AB);
          M z(p, r); grb::mxm(z, grb::structure(K), NA, sr, A, B, grb::REPLACE); eq(c, "AB under a structural mask = first(AB, mask)", z, emul(grb::First<T>(), AB, K)); }
        if (!(A == to_grb(a)) || !(B == to_grb(b)) || !(D == to_grb(d))) c.fail("an operand was changed");
    });
}
void vectors(Ctx &c) {
    size_t p = dim(c), q = dim(c); with_sr(c, [&](auto sr, auto plus, auto mon, T one) {
        auto a = gm(c, "A", p, q), b = gm(c, "B", q, p); auto u = gv(c, "u", q), w = gv(c, "w", p); M A = to_grb(a), B = to_grb(b); V U = to_grb(u), Wv = to_grb(w); auto u2 = gv(c, "u2", q); V U2 = to_grb(u2);
        V AU = mv(sr, A, U); if (AU.nvals() && p > 1) c.nontrivial();
        eq(c, "Au = uA'", AU, vm(sr, U, grb::transpose(A))); eq(c, "Au = uA' (copy)", AU, vm(sr, U, tr(A))); eq(c, "wA = A'w", vm(sr, Wv, A), mv(sr, grb::transpose(A), Wv));
        { M c1(q, 1), r1(1, p), x(p, 1), y(1, q); for (size_t i = 0; i < q; ++i) if (u.d[i]) c1.setElement(i, 0, *u.d[i]); for (size_t i = 0; i < p; ++i) if (w.d[i]) r1.setElement(0, i, *w.d[i]);
          grb::mxm(x, NM, NA, sr, A, c1); grb::mxm(y, NM, NA, sr, r1, A); V xc(p), yr(q); grb::extract(xc, NM, NA, x, grb::AllIndices(), 0); grb::extract(yr, NM, NA, grb::transpose(y), grb::AllIndices(), 0); eq(c, "Au = the one-column product", AU, xc); eq(c, "wA = the one-row product", vm(sr, Wv, A), yr); }
        eq(c, "A(u+u2) = Au + Au2", mv(sr, A, addv(plus, U, U2)), addv(plus, AU, mv(sr, A, U2)));
        eq(c, "(wA)B = w(AB)", vm(sr, vm(sr, Wv, A), B), vm(sr, Wv, mul(sr, A, B))); eq(c, "B(Au) = (BA)u", mv(sr, B, AU), mv(sr, mul(sr, B, A), U));
        // reductions as products with the all-ones vector
        V ones(q), onesp(p); grb::assign(ones, NM, NA, one, grb::AllIndices()); grb::assign(onesp, NM, NA, one, grb::AllIndices()); V rr(p), rc(q); grb::reduce(rr, NM, NA, mon, A); grb::reduce(rc, NM, NA, mon, grb::transpose(A));
        if constexpr (std::is_same_v<T, bool>) {} else {}
        eq(c, "row reduction = A1", rr, mv(sr, A, ones)); eq(c, "column reduction = 1A", rc, vm(sr, onesp, A));
        T t1 = mon.identity(), t2 = mon.identity(), t3 = mon.identity(); grb::reduce(t1, NA, mon, A); grb::reduce(t2, NA, mon, rr); grb::reduce(t3, NA, mon, rc); if (!same(t1, t2) || !same(t1, t3)) c.fail("total reduction " + vstr(t1) + ", of the row reduction " + vstr(t2) + ", of the column reduction " + vstr(t3));
        // diagonal forms
        M Du = grb::diag<M>(U), Dw = grb::diag<M>(Wv); V e(q), prod(q); grb::eWiseMult(e, NM, NA, [&](T x, T y) { return sr.mult(x, y); }, U, U2); eq(c, "diag(u)u2 = u .* u2", mv(sr, Du, U2), e); eq(c, "u2 diag(u) = u2 .* u", vm(sr, U2, Du), [&] { V z(q); grb::eWiseMult(z, NM, NA, [&](T x, T y) { return sr.mult(x, y); }, U2, U); return z; }());
        { M k(p, q), k2(p, q); for (size_t i = 0; i < p; ++i) for (size_t j = 0; j < q; ++j) { if (w.d[i]) k.setElement(i, j, *w.d[i]); if (u.d[j]) k2.setElement(i, j, *u.d[j]); } auto times = [&](T x, T y) { return sr.mult(x, y); };
          eq(c, "diag(w)A = rows of A scaled", mul(sr, Dw, A), emul(times, k, A)); eq(c, "A diag(u) = columns of A scaled", mul(sr, A, Du), emul(times, A, k2)); }
        { M Iq = grb::scaled_identity<M>(q, one), Ip = grb::scaled_identity<M>(p, one); eq(c, "A I = A", mul(sr, A, Iq), A); eq(c, "I A = A", mul(sr, Ip, A), A); eq(c, "A' I = A'", mul(sr, grb::transpose(A), Ip), tr(A)); }
        if (!(A == to_grb(a)) || !(B == to_grb(b)) || !(U == to_grb(u)) || !(Wv == to_grb(w))) c.fail("an operand was changed");
    });
}
void indexing(Ctx &c) {
    size_t p = dim(c), q = dim(c), li = 1 + c.draw(6), lj = 1 + c.draw(6); bool distinct = c.boolean(); IdxV I = gen_indices(c, distinct ? std::min(li, p) : li, p, distinct), J = gen_indices(c, distinct ? std::min(lj, q) : lj, q, distinct);
    c.note("I = " + idxstr(I) + " J = " + idxstr(J)); auto a = gm(c, "A", p, q); M A = to_grb(a); auto sr = grb::ArithmeticSemiring<T>();
    M SI(I.size(), p), SJ(J.size(), q); for (size_t k = 0; k < I.size(); ++k) SI.setElement(k, I[k], (T)1); for (size_t k = 0; k < J.size(); ++k) SJ.setElement(k, J[k], (T)1);
    M X(I.size(), J.size()); grb::extract(X, NM, NA, A, I, J); if (X.nvals() && X.nvals() < A.nvals() + 1 && I.size() * J.size() > 1) c.nontrivial();
    // a selection product adds one term, so stored values come through unchanged (bool: plus is or)
    eq(c, "A(I,J) = S_I A S_J'", X, mul(sr, mul(sr, SI, A), grb::transpose(SJ)));
    { M Y(J.size(), I.size()); grb::extract(Y, NM, NA, grb::transpose(A), J, I); eq(c, "A'(J,I) = (A(I,J))'", Y, tr(X)); }
    { size_t j = c.draw(q); V col(p), sel(q); sel.setElement(j, (T)1); grb::extract(col, NM, NA, A, grb::AllIndices(), j); eq(c, "a column = A e_j", col, mv(sr, A, sel)); V part(I.size()), part2(I.size()); grb::extract(part, NM, NA, A, I, j); grb::extract(part2, NM, NA, col, I); eq(c, "A(I,j) = column j at I", part, part2); }
    { size_t i = c.draw(p); V row(q), sel(p); sel.setElement(i, (T)1); grb::extract(row, NM, NA, grb::transpose(A), grb::AllIndices(), i); eq(c, "a row = e_i A", row, vm(sr, sel, A)); }
    if (distinct) {
        { M Y = A; grb::assign(Y, NM, NA, X, I, J); eq(c, "extract then assign back", Y, A); }
        { M Y(p, q); grb::assign(Y, NM, NA, X, I, J); eq(c, "assign into an empty matrix = S_I' X S_J", Y, mul(sr, mul(sr, grb::transpose(SI), X), SJ)); }
        auto b = gm(c, "B", I.size(), J.size()); M B = to_grb(b); { M Y = A, Z(I.size(), J.size()); grb::assign(Y, NM, NA, B, I, J); grb::extract(Z, NM, NA, Y, I, J); eq(c, "assign then extract back", Z, B); auto y = observe(c, Y, "assigned"); for (size_t i = 0; i < p; ++i) for (size_t j = 0; j < q; ++j) if (std::find(I.begin(), I.end(), i) == I.end() || std::find(J.begin(), J.end(), j) == J.end()) if (y.at(i, j) != a.at(i, j)) c.fail("assign changed position (" + std::to_string(i) + "," + std::to_string(j) + ") outside I x J"); }
        auto u = gv(c, "u", p), x = gv(c, "x", I.size()); V U = to_grb(u), X1 = to_grb(x); { V y = U, z(I.size()); grb::assign(y, NM, NA, X1, I); grb::extract(z, NM, NA, y, I); eq(c, "vector assign then extract", z, X1); V y2 = U, z2(I.size()); grb::extract(z2, NM, NA, U, I); grb::assign(y2, NM, NA, z2, I); eq(c, "vector extract then assign", y2, U); }
        { size_t j = c.draw(q); M Y = A; V col(p); grb::extract(col, NM, NA, A, grb::AllIndices(), j); grb::assign(Y, NM, NA, col, grb::AllIndices(), j); eq(c, "assigning a column back", Y, A); M Z(p, q); for (size_t k = 0; k < q; ++k) { V cc(p); grb::extract(cc, NM, NA, A, grb::AllIndices(), k); grb::assign(Z, NM, NA, cc, grb::AllIndices(), k); } eq(c, "rebuilding A column by column", Z, A); }
        { M Z(p, q); for (size_t i = 0; i < p; ++i) { V rr(q); grb::extract(rr, NM, NA, grb::transpose(A), grb::AllIndices(), i); grb::assign(Z, NM, NA, rr, i, grb::AllIndices()); } eq(c, "rebuilding A row by row", Z, A); }
    }
    if (!(A == to_grb(a))) c.fail("an operand was changed");
}
void krons(Ctx &c) {
    auto d = [&] { return 1 + c.draw(4); }; size_t p = d(), q = d(), r = d(), s = d(), x = d(), y = d(); auto a = gm(c, "A", p, q), b = gm(c, "B", r, s), a2 = gm(c, "C", q, x), b2 = gm(c, "D", s, y); M A = to_grb(a), B = to_grb(b), C = to_grb(a2), D = to_grb(b2);
    auto sr = grb::ArithmeticSemiring<T>(); auto times = grb::Times<T>(); M K = kro(times, A, B); if (K.nvals() > 1) c.nontrivial();
    if constexpr (!std::is_same_v<T, bool>) eq(c, "(AxB)(CxD) = AC x BD", mul(sr, K, kro(times, C, D)), kro(times, mul(sr, A, C), mul(sr, B, D)));
    else { auto ls = grb::LogicalSemiring<bool>(); auto la = grb::LogicalAnd<bool>(); eq(c, "(AxB)(CxD) = AC x BD", mul(ls, kro(la, A, B), kro(la, C, D)), kro(la, mul(ls, A, C), mul(ls, B, D))); }
    eq(c, "(AxB)' = A'xB'", tr(K), kro(times, grb::transpose(A), grb::transpose(B))); if (K.nvals() != A.nvals() * B.nvals()) c.fail("AxB stores " + std::to_string(K.nvals()) + " entries");
    { auto e = gm(c, "E", r, s); M E = to_grb(e); auto plus = grb::Plus<T>(); if constexpr (!std::is_same_v<T, bool>) eq(c, "A x (B+E)", kro(times, A, add(plus, B, E)), [&] { auto l = kro(times, A, B), rr = kro(times, A, E); return add(plus, l, rr); }()); }
    { M I1 = grb::scaled_identity<M>(1, (T)1); eq(c, "A x 1 = A", kro(times, A, I1), A); eq(c, "1 x A = A", kro(times, I1, A), A); }
    if (!(A == to_grb(a)) || !(B == to_grb(b))) c.fail("an operand was changed");
}
void elementwise(Ctx &c) {
    size_t p = dim(c), q = dim(c); auto a = gm(c, "A", p, q), b = gm(c, "B", p, q), d = gm(c, "C", p, q); M A = to_grb(a), B = to_grb(b), C = to_grb(d); if (A.nvals() && B.nvals() && C.nvals() && p * q > 1) c.nontrivial();
    auto laws = [&](auto plus, auto times) {
        eq(c, "A+B = B+A", add(plus, A, B), add(plus, B, A)); eq(c, "(A+B)+C = A+(B+C)", add(plus, add(plus, A, B), C), add(plus, A, add(plus, B, C))); eq(c, "(A+B)' = A'+B'", tr(add(plus, A, B)), add(plus, grb::transpose(A), grb::transpose(B))); eq(c, "(A.B)' = A'.B'", tr(emul(times, A, B)), emul(times, grb::transpose(A), tr(B)));
        eq(c, "A.B = B.A", emul(times, A, B), emul(times, B, A)); eq(c, "(A.B).C = A.(B.C)", emul(times, emul(times, A, B), C), emul(times, A, emul(times, B, C)));
        eq(c, "A.(B+C) = A.B + A.C", emul(times, A, add(plus, B, C)), add(plus, emul(times, A, B), emul(times, A, C)));
        { M x = A; grb::apply(x, NM, plus, grb::Identity<T>(), B); eq(c, "accumulating B into A = A+B", x, add(plus, A, B)); M y = A; grb::transpose(y, NM, plus, grb::transpose(B)); eq(c, "accumulating (B')' into A = A+B", y, add(plus, A, B)); M z = A; grb::assign(z, NM, plus, B, grb::AllIndices(), grb::AllIndices()); eq(c, "accumulating assign of B = A+B", z, add(plus, A, B)); M w = A; grb::extract(w, NM, plus, B, grb::AllIndices(), grb::AllIndices()); eq(c, "accumulating extract of B = A+B", w, add(plus, A, B)); }
        { M x(p, q); grb::apply(x, NM, NA, std::bind(times, std::placeholders::_1, (T)2), A); M y(p, q); grb::apply(y, NM, NA, times, A, (T)2); M z(p, q); grb::apply(z, NM, NA, times, (T)2, A); M two(p, q); grb::assign(two, grb::structure(A), NA, (T)2, grb::AllIndices(), grb::AllIndices()); eq(c, "apply with a bound constant = apply(op, A, k)", x, y); eq(c, "apply(op, k, A) = apply(op, A, k)", z, y); eq(c, "apply(op, A, k) = A . constant", y, emul(times, A, two)); }
        { V x(p), y(p), x2(p), y2(p); grb::reduce(x, NM, NA, plus, add(plus, A, B)); grb::reduce(x2, NM, NA, plus, A); grb::reduce(y2, NM, NA, plus, B); eq(c, "reduction of A+B = sum of the reductions", x, addv(plus, x2, y2)); }
    };
    if constexpr (std::is_same_v<T, bool>) laws(grb::LogicalOr<bool>(), grb::LogicalAnd<bool>()); else laws(grb::Plus<T>(), grb::Times<T>());
    eq(c, "(A')' = A", tr(tr(A)), A); eq(c, "(A')' = A (view)", tr(grb::transpose(A)), A);
    if (!(A == to_grb(a)) || !(B == to_grb(b)) || !(C == to_grb(d))) c.fail("an operand was changed");
}
#if FAM == 21
TARGET("product", product) TARGET("vectors", vectors) TARGET("indexing", indexing) TARGET("kronecker", krons) TARGET("elementwise", elementwise)
#else
void diagonal(Ctx &c) {
    size_t n = dim(c); auto v = gv(c, "v", n); V Vv = to_grb(v); auto m = observe(c, grb::diag<M>(Vv), "diag(v)"); if (v.nvals() && n > 1) c.nontrivial();
    MMT e(n, n); for (size_t i = 0; i < n; ++i) e.at(i, i) = v.d[i]; if (!(m == e)) c.fail("diag(v) is " + m.str() + ", expected " + e.str()); if (!(Vv == to_grb(v))) c.fail("v was changed");
    { auto md = observe(c, grb::diag<grb::Matrix<double>>(Vv), "diag<double>(v)"); MM<double> f(n, n); for (size_t i = 0; i < n; ++i) if (v.d[i]) f.at(i, i) = (double)*v.d[i]; if (!(md == f)) c.fail("diag(v) as double is " + md.str() + ", expected " + f.str()); }
    T s = gen_val<T>(c); bool dflt = c.chance(1, 3); c.note(dflt ? "identity" : "scaled by " + vstr(s)); auto g = observe(c, dflt ? grb::scaled_identity<M>(n) : grb::scaled_identity<M>(n, s), "scaled identity"); MMT f(n, n); for (size_t i = 0; i < n; ++i) f.at(i, i) = dflt ? (T)1 : s; if (!(g == f)) c.fail("scaled_identity is " + g.str() + ", expected " + f.str());
}
void splitting(Ctx &c) {
    size_t p = dim(c), q = c.boolean() ? p : dim(c); auto a = gm(c, "A", p, q); M A = to_grb(a), L(p, q), U(p, q); grb::split(A, L, U); auto l = observe(c, L, "L"), u = observe(c, U, "U"); MMT el(p, q), eu(p, q);
    for (size_t i = 0; i < p; ++i) for (size_t j = 0; j < q; ++j) (j > i ? eu : el).at(i, j) = a.at(i, j); if (el.nvals() && eu.nvals()) c.nontrivial();
    if (!(l == el)) c.fail("L is " + l.str() + ", expected " + el.str()); if (!(u == eu)) c.fail("U is " + u.str() + ", expected " + eu.str()); if (!(A == to_grb(a))) c.fail("A was changed");
}
TARGET("diagonal", diagonal) TARGET("split", splitting)
#if CT == 0 || CT == 1
#if CT == 0
using R = double;
#else
using R = float;
#endif
template<bool COLS> void normalize(Ctx &c) {
    size_t p = dim(c), q = c.chance(1, 3) ? p : dim(c); auto a = gen_mm<R>(c, p, q); if (c.boolean()) for (auto &x : a.d) if (x) x = std::fabs(*x); c.note("A = " + a.str()); auto A = to_grb(a); if (COLS) grb::normalize_cols(A); else grb::normalize_rows(A); auto m = observe(c, A, "normalised");
    bool nt = false; double tol = std::is_same_v<R, float> ? 1e-5 : 1e-13; for (size_t k = 0; k < (COLS ? q : p); ++k) { double s = 0, mass = 0, got = 0; size_t cnt = 0, len = COLS ? p : q; for (size_t x = 0; x < len; ++x) { auto &e = COLS ? a.at(x, k) : a.at(k, x); if (e) { s += *e; mass += std::fabs(*e); ++cnt; } } if (cnt > 1) nt = true;
        for (size_t x = 0; x < len; ++x) { auto &e = COLS ? a.at(x, k) : a.at(k, x); auto &o = COLS ? m.at(x, k) : m.at(k, x); if (e.has_value() != o.has_value()) c.fail("entry " + std::to_string(x) + " of " + (COLS ? "column " : "row ") + std::to_string(k) + (o ? " appeared" : " disappeared")); if (e && s != 0) { double w = *e / s; got += *o; if (!(std::fabs(*o - w) <= tol * (1 + std::fabs(w)))) c.fail("entry " + std::to_string(x) + " of " + (COLS ? "column " : "row ") + std::to_string(k) + " is " + vstr(*o) + ", expected " + vstr(w)); } }
        if (cnt && s != 0 && !(std::fabs(got - 1) <= tol * 20 * (1 + mass / std::fabs(s)))) c.fail(std::string(COLS ? "column " : "row ") + std::to_string(k) + " sums to " + vstr(got)); }
    if (nt) c.nontrivial();
}
void nrows_(Ctx &c) { normalize<false>(c); }
void ncols_(Ctx &c) { normalize<true>(c); }
TARGET("normalize_rows", nrows_) TARGET("normalize_cols", ncols_)
#endif
#endif
}
