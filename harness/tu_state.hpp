// The state shared by the translation units of a generated program (C42).
#pragma once
#include <graphblas/graphblas.hpp>
#include <sstream>
#include <string>
struct S {
    grb::Matrix<unsigned> A{4, 4}, B{4, 4}, C{4, 4}; grb::Matrix<double> W{4, 4}; grb::Matrix<bool> M{4, 4};
    grb::Vector<unsigned> u{4}, w{4}; grb::Vector<bool> m{4}; double x = 0; std::string log;
};
inline void tu_init(S &s, unsigned long seed) {
    auto r = [&](unsigned n) { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return (unsigned)((seed >> 20) % n); };
    for (unsigned i = 0; i < 4; ++i) for (unsigned j = 0; j < 4; ++j) {
        if (r(2)) s.A.setElement(i, j, r(5)); if (r(2)) s.B.setElement(i, j, r(5)); if (r(3) == 0) s.C.setElement(i, j, r(9));
        if (i != j && r(2)) s.W.setElement(i, j, 1 + r(4)); if (r(2)) s.M.setElement(i, j, r(3) != 0); }
    for (unsigned i = 0; i < 4; ++i) { if (r(2)) s.u.setElement(i, r(5)); if (r(2)) s.w.setElement(i, r(5)); if (r(2)) s.m.setElement(i, r(3) != 0); }
}
inline std::string tu_text(S const &s) {
    std::ostringstream o;
    auto mat = [&](char const *n, auto const &X) { o << n; for (grb::IndexType i = 0; i < X.nrows(); ++i) for (grb::IndexType j = 0; j < X.ncols(); ++j) if (X.hasElement(i, j)) o << " " << i << "," << j << "=" << X.extractElement(i, j); o << ";"; };
    auto vec = [&](char const *n, auto const &X) { o << n; for (grb::IndexType i = 0; i < X.size(); ++i) if (X.hasElement(i)) o << " " << i << "=" << X.extractElement(i); o << ";"; };
    mat("A", s.A); mat("B", s.B); mat("C", s.C); mat("W", s.W); mat("M", s.M); vec("u", s.u); vec("w", s.w); vec("m", s.m); o << s.x << ";" << s.log;
    return o.str();
}
// runs one step; what it throws becomes part of the state
template<class F> void tu_step(S &s, F f) {
    try { f(s); }
    catch (grb::DimensionException &e) { s.log += std::string("|dim ") + static_cast<std::exception &>(e).what(); }
    catch (grb::IndexOutOfBoundsException &e) { s.log += std::string("|bounds ") + static_cast<std::exception &>(e).what(); }
    catch (grb::NoValueException &e) { s.log += std::string("|novalue ") + static_cast<std::exception &>(e).what(); }
    catch (std::exception &e) { s.log += std::string("|std ") + static_cast<std::exception &>(e).what(); }
}
