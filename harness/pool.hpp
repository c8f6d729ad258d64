// Targets over a pool of same-typed containers: write rule, aliasing, views, rejections, programs.
#pragma once
#include "gen.hpp"
#include <map>
#include <set>
namespace vf {
#ifndef PT
#define PT 0
#endif
#if PT == 0
using PY = Ty<int32_t, int32_t, int32_t, int32_t, int32_t>;
#elif PT == 1
using PY = Ty<double, double, double, double, double, true>;
#elif PT == 2
using PY = Ty<uint8_t, uint8_t, uint8_t, uint8_t, uint8_t>;
#elif PT == 3
using PY = Ty<bool, bool, bool, bool, bool>;
#elif PT == 4
using PY = Ty<int8_t, int8_t, int8_t, int8_t, int32_t>;   // operator results wider than the containers
#elif PT == 5
using PY = Ty<Sym<0>, Sym<0>, Sym<0>, Sym<0>, Sym<0>>;      // a user-defined scalar
#endif
using PTT = PY::TC;

#ifdef POOL_GROUP
#define EXT
#else
#define EXT extern
#endif
#define DECLARE(f) template void f<PY>(Call const &, Args<PY> &);
#ifndef POOL_GROUP
extern template void real_mxm<PY>(Call const &, Args<PY> &); extern template void real_mv<PY>(Call const &, Args<PY> &);
extern template void real_ew<PY>(Call const &, Args<PY> &); extern template void real_apply<PY>(Call const &, Args<PY> &);
extern template void real_reduce<PY>(Call const &, Args<PY> &); extern template void real_extract<PY>(Call const &, Args<PY> &);
extern template void real_assign<PY>(Call const &, Args<PY> &); extern template void real_assign_m<PY>(Call const &, Args<PY> &);
extern template void real_assignc<PY>(Call const &, Args<PY> &); extern template void real_tk<PY>(Call const &, Args<PY> &);
#endif

// Result of trying a call
struct Thrown { int cls = 0; std::string name; };   // cls: 0 none, E_* or 64 other
inline Thrown named(int cls, std::string const &name, std::exception const &e) {   // the text of the error names it
    std::string w = e.what();
    return w.find(name) == std::string::npos ? Thrown{64, name + " described as \"" + w + "\""} : Thrown{cls, name};
}
template<class F> Thrown attempt(F f) {
    try { f(); return {}; }
    catch (grb::DimensionException &e) { return named(E_DIM, "DimensionException", e); }
    catch (grb::IndexOutOfBoundsException &e) { return named(E_OOB, "IndexOutOfBoundsException", e); }
    catch (grb::InvalidIndexException &e) { return named(E_IDX, "InvalidIndexException", e); }
    catch (grb::NoValueException &e) { return named(8, "NoValueException", e); }
    catch (grb::InvalidValueException &e) { return named(16, "InvalidValueException", e); }
    catch (grb::PanicException &e) { return named(32, "PanicException", e); }
    catch (std::exception &e) { return {64, std::string(typeid(e).name()) + ": " + e.what()}; }
}
inline std::string clsname(int e) {
    std::string s; if (e & E_DIM) s += "DimensionException "; if (e & E_OOB) s += "IndexOutOfBoundsException "; if (e & E_IDX) s += "InvalidIndexException ";
    if (e & 8) s += "NoValueException "; if (e & 16) s += "InvalidValueException "; return s.empty() ? "acceptance" : s;
}

// ------------------------------------------------------------ C16 aliasing
inline void alias_case(Ctx &c) {
    c.intvals = PY::WR;
    Call k; static const int ops[] = {MXM, MXV, VXM, EWADD_M, EWADD_V, EWMUL_M, EWMUL_V, APPLY_M, APPLY_V, APPLY1_M, APPLY2_M, APPLY1_V, APPLY2_V,
        REDUCE_MV, EXTRACT_V, EXTRACT_M, EXTRACT_C, ASSIGN_V, ASSIGN_M, ASSIGN_COL, ASSIGN_ROW, ASSIGN_CV, ASSIGN_CM, TRANSPOSE, KRON, MXM, MXM, MXM, MXM, MXM, MXM, MXM}; k.op = ops[c.draw(32)];
    if (c.draw(4) != 3) c.sq = 1 + c.draw(6);
    if (k.op == KRON && c.sq) c.sq = 0;
    MArgs<PY> a; gen_call<PY>(c, k, a);
    Slots s = slots(k.op);
    struct S { char id, kind; Shape sh; bool used; };
    S sl[4] = {{'C', s.out, shp(a, 'C', s.out), true}, {'M', s.mask, shp(a, 'M', s.mask), k.mk != 0}, {'A', s.a, shp(a, 'A', s.a), true}, {'B', s.b, shp(a, 'B', s.b), true}};
    int rep[4] = {0, 1, 2, 3}; bool outal = false;
    for (int i = 1; i < 4; ++i) if (sl[i].used && (sl[i].kind == 'm' || sl[i].kind == 'v'))
        for (int j = 0; j < i; ++j) if (rep[j] == j && sl[j].used && sl[j].kind == sl[i].kind && sl[j].sh.r == sl[i].sh.r && sl[j].sh.c == sl[i].sh.c && c.draw(j == 0 ? 3 : 4) != 1) { rep[i] = j; if (j == 0) outal = true; break; }
    auto getm = [&](int i) -> MM<PTT> & { return i == 0 ? a.Cm : i == 1 ? a.Mm : i == 2 ? a.Am : a.Bm; };
    auto getv = [&](int i) -> MV<PTT> & { return i == 0 ? a.Cv : i == 1 ? a.Mv : i == 2 ? a.Av : a.Bv; };
    std::string al;
    for (int i = 1; i < 4; ++i) if (rep[i] != i) { if (sl[i].kind == 'm') getm(i) = getm(rep[i]); else getv(i) = getv(rep[i]); al += std::string(" ") + sl[i].id + "==" + sl[rep[i]].id; }
    note_call(c, k, a); c.note("  same object:" + (al.empty() ? std::string(" none") : al));
    MOut<PY> e = model_call<PY>(k, a);
    if (outal && nontrivial_call(k, a, e)) { c.nontrivial(); }
    if (outal) { label_call<PY>(c, k); for (int i = 1; i < 4; ++i) if (rep[i] == 0) { static char const *ll[] = {"", "output==mask", "output==A", "output==B"}; c.label(ll[i]); } if (rep[2] == 0 && rep[3] == 0) c.label("output==A==B"); }
    Held<PY> h1(a), h2(a); ensure_mask(h1, k); ensure_mask(h2, k);
    real_call<PY>(k, h1.args);
    auto pm = [&](int i) -> grb::Matrix<PTT> * { return i == 0 ? h2.args.Cm : i == 1 ? const_cast<grb::Matrix<PTT> *>(h2.args.Mm) : i == 2 ? const_cast<grb::Matrix<PTT> *>(h2.args.Am) : const_cast<grb::Matrix<PTT> *>(h2.args.Bm); };
    auto pv = [&](int i) -> grb::Vector<PTT> * { return i == 0 ? h2.args.Cv : i == 1 ? const_cast<grb::Vector<PTT> *>(h2.args.Mv) : i == 2 ? const_cast<grb::Vector<PTT> *>(h2.args.Av) : const_cast<grb::Vector<PTT> *>(h2.args.Bv); };
    for (int i = 1; i < 4; ++i) if (rep[i] != i) {
        if (sl[i].kind == 'm') { auto *p = pm(rep[i]); if (i == 1) h2.args.Mm = p; else if (i == 2) h2.args.Am = p; else h2.args.Bm = p; }
        else { auto *p = pv(rep[i]); if (i == 1) h2.args.Mv = p; else if (i == 2) h2.args.Av = p; else h2.args.Bv = p; } }
    real_call<PY>(k, h2.args);
    if (s.out == 'm') { auto x = observe(c, *h1.Cm, "output (separate copies)"), y = observe(c, *h2.Cm, "output (same object)"); if (!(x == y)) c.fail("aliased call gives " + y.str() + ", separate copies give " + x.str()); }
    else { auto x = observe(c, *h1.Cv, "output (separate copies)"), y = observe(c, *h2.Cv, "output (same object)"); if (!(x == y)) c.fail("aliased call gives " + y.str() + ", separate copies give " + x.str()); }
    h2.inputs_unchanged(c, a);     // slots that are not the output (their own objects)
}

// ------------------------------------------------------------ C15 write rule
inline void write_case(Ctx &c) {
    c.intvals = PY::WR;
    static const int ops[] = {MXM, MXV, VXM, EWADD_M, EWADD_V, EWMUL_M, EWMUL_V, APPLY_M, APPLY_V, APPLY1_M, APPLY2_M, APPLY1_V, APPLY2_V,
        REDUCE_MV, EXTRACT_V, EXTRACT_M, EXTRACT_C, ASSIGN_V, ASSIGN_M, ASSIGN_COL, ASSIGN_ROW, ASSIGN_CV, ASSIGN_CM, TRANSPOSE, KRON};
    Call k; k.op = ops[c.draw(25)]; MArgs<PY> a; gen_call<PY>(c, k, a); note_call(c, k, a);
    Slots s = slots(k.op); bool has = k.acc >= 0; BinF<PTT, PTT, PTT, PY::WR> acc{k.acc};
    bool assign = k.op >= ASSIGN_V && k.op <= ASSIGN_CM;
    // plain run: into an empty container, or (assign without accumulator) into a copy of the old output
    Call kp = k; kp.mk = 0; kp.acc = -1; kp.repl = false;
    MArgs<PY> ap = a; bool keep = assign && !has;
    if (!keep) { ap.Cm = MM<PTT>(a.Cm.r, a.Cm.c); ap.Cv = MV<PTT>(a.Cv.n()); }
    Held<PY> hp(ap); ensure_mask(hp, kp); real_call<PY>(kp, hp.args);
    MOut<PY> e; bool none = k.mk == 0;
    // row / column assignment: the mask only governs that row or column
    if (s.out == 'm') {
        MM<PTT> T = observe(c, *hp.Cm, "plain output");
        e.m = a.Cm;
        for (size_t i = 0; i < T.r; ++i) for (size_t j = 0; j < T.c; ++j) {
            bool adm = true;
            if (k.op == ASSIGN_COL) { if (j != k.idx) continue; adm = none || admits<PTT>(k.mk, a.Mv.d[i]); }
            else if (k.op == ASSIGN_ROW) { if (i != k.idx) continue; adm = none || admits<PTT>(k.mk, a.Mv.d[j]); }
            else adm = none || admits<PTT>(k.mk, a.Mm.at(i, j));
            auto z = keep ? T.at(i, j) : accum1<PTT, PTT>(a.Cm.at(i, j), T.at(i, j), has, acc);
            e.m.at(i, j) = mask1<PTT>(a.Cm.at(i, j), z, adm, k.repl);
        }
    } else {
        MV<PTT> T = observe(c, *hp.Cv, "plain output"); e.v = a.Cv;
        for (size_t i = 0; i < T.n(); ++i) {
            auto z = keep ? T.d[i] : accum1<PTT, PTT>(a.Cv.d[i], T.d[i], has, acc);
            e.v.d[i] = mask1<PTT>(a.Cv.d[i], z, none || admits<PTT>(k.mk, a.Mv.d[i]), k.repl);
        }
    }
    label_call<PY>(c, k);
    if ((k.mk || has) && nontrivial_call(k, a, e)) c.nontrivial();
    Held<PY> h(a); ensure_mask(h, k); real_call<PY>(k, h.args);
    check_output(c, k, h, e); h.inputs_unchanged(c, a);
}

// ------------------------------------------------------------ C22 views
inline void view_case(Ctx &c) {
    c.intvals = PY::WR;
    static const int ops[] = {MXM, MXV, VXM, EWADD_M, EWADD_V, EWMUL_M, EWMUL_V, APPLY_M, APPLY_V, APPLY1_M, APPLY2_M, APPLY1_V, APPLY2_V,
        REDUCE_MV, EXTRACT_V, EXTRACT_M, EXTRACT_C, ASSIGN_V, ASSIGN_M, ASSIGN_COL, ASSIGN_ROW, ASSIGN_CV, ASSIGN_CM, TRANSPOSE, KRON};
    Call k; k.op = ops[c.draw(25)]; MArgs<PY> a; gen_call<PY>(c, k, a);
    if (!k.ta && !k.tb && k.mk < 2) { k.mk = (int)c.range(2, 4); Slots s = slots(k.op); Shape sh = shp(a, 'C', s.out); if (k.op == ASSIGN_COL) sh.c = 1; if (k.op == ASSIGN_ROW) { sh.r = sh.c; sh.c = 1; }
        if (s.mask == 'm') a.Mm = gen_mm<PTT>(c, sh.r, sh.c); else a.Mv = gen_mv<PTT>(c, sh.r); }
    note_call(c, k, a);
    Call ke = k; MArgs<PY> ae = a;
    ke.ta = ke.tb = false; if (k.ta) ae.Am = a.Am.t(); if (k.tb) ae.Bm = a.Bm.t();
    bool noise = c.boolean();
    if (k.mk >= MK_COMP) {
        ke.mk = MK_VAL;
        for (auto &x : ae.Mm.d) { bool ad = admits<PTT>(k.mk, x); x = ad ? std::optional<PTT>{(PTT)1} : noise ? std::optional<PTT>{(PTT)0} : std::nullopt; }
        for (size_t i = 0; i < ae.Mv.d.size(); ++i) { auto &x = ae.Mv.d[i]; bool ad = admits<PTT>(k.mk, x); x = ad ? std::optional<PTT>{(PTT)1} : noise ? std::optional<PTT>{(PTT)0} : std::nullopt; }
    }
    c.note(std::string("  materialised mask stores rejected positions as ") + (noise ? "false" : "absent"));
    Held<PY> h(a), he(ae); ensure_mask(h, k); ensure_mask(he, ke);
    real_call<PY>(k, h.args); real_call<PY>(ke, he.args);
    Slots s = slots(k.op); MOut<PY> e;
    if (s.out == 'm') e.m = observe(c, *he.Cm, "output with materialised arguments"); else e.v = observe(c, *he.Cv, "output with materialised arguments");
    label_call<PY>(c, k); if (nontrivial_call(k, a, e)) c.nontrivial();
    check_output(c, k, h, e); h.inputs_unchanged(c, a);
    if (k.ta) { auto v = grb::transpose(*h.args.Am); c.check(v.nrows() == a.Am.c && v.ncols() == a.Am.r, "transposed view reports the wrong shape"); }
    if (h.Mm && k.mk) { auto v = grb::complement(*h.args.Mm); auto w = grb::structure(*h.args.Mm); auto x = grb::complement(w);
        c.check(v.nrows() == a.Mm.r && v.ncols() == a.Mm.c && w.nrows() == a.Mm.r && w.ncols() == a.Mm.c && x.nrows() == a.Mm.r && x.ncols() == a.Mm.c, "mask view reports the wrong shape"); }
    if (h.Mv && k.mk) { auto v = grb::complement(*h.args.Mv); auto w = grb::structure(*h.args.Mv); auto x = grb::complement(w);
        c.check(v.size() == a.Mv.n() && w.size() == a.Mv.n() && x.size() == a.Mv.n(), "mask view reports the wrong size"); }
}

// ------------------------------------------------------------ C19 rejections
inline void reject_case(Ctx &c) {
    c.intvals = PY::WR;
    Call k; k.op = (int)c.draw(NUM_OPS); MArgs<PY> a; gen_call<PY>(c, k, a);
    Slots s = slots(k.op);
    int nbreak = 1 + (int)c.draw(2);
    for (int b = 0; b < nbreak; ++b) {
        auto re = [&](char kind, MM<PTT> &m, MV<PTT> &v) {
            if (kind == 'm') { size_t r = m.r, q = m.c; unsigned w = (unsigned)c.draw(3); if (w != 1) r = r + 1 - (c.boolean() && r > 1 ? 2 : 0); if (w != 0) q = q + 1 - (c.boolean() && q > 1 ? 2 : 0);
                m = gen_mm<PTT>(c, r, q); }
            else if (kind == 'v') { size_t n = v.n(); n = n + 1 - (c.boolean() && n > 1 ? 2 : 0); v = gen_mv<PTT>(c, n); } };
        switch (c.draw(7)) {
        case 0: re(s.a, a.Am, a.Av); break;
        case 1: re(s.b, a.Bm, a.Bv); break;
        case 2: re(s.out, a.Cm, a.Cv); break;
        case 3: if (k.mk) re(s.mask, a.Mm, a.Mv); break;
        case 4: if (uses_I(k.op) && !k.allI && !k.I.empty()) { size_t p = c.draw(k.I.size()); k.I[p] += 1 + c.draw(8); } break;
        case 5: if (uses_J(k.op) && !k.allJ && !k.J.empty()) { size_t p = c.draw(k.J.size()); k.J[p] += 1 + c.draw(8); } else if (uses_idx(k.op)) k.idx += 1 + c.draw(6); break;
        case 6: if (uses_I(k.op) && !k.allI) { if (c.boolean() || k.I.size() < 2) { // a further distinct target keeps the list legal for assign
                    IndexType x = 0; while (std::count(k.I.begin(), k.I.end(), x)) ++x; k.I.push_back(x); } else k.I.pop_back(); } break;
        }
    }
    bool dup = (k.op == ASSIGN_V || k.op == ASSIGN_M || k.op == ASSIGN_COL || k.op == ASSIGN_ROW);
    if (dup) { auto d = [](IdxV v) { std::sort(v.begin(), v.end()); return std::adjacent_find(v.begin(), v.end()) != v.end(); }; if (d(k.I) || d(k.J)) throw Discard{}; }
    note_call(c, k, a);
    int want = model_rejects<PY>(k, a);
    c.note("  expected: " + clsname(want));
    Held<PY> h(a); ensure_mask(h, k);
    Thrown t = attempt([&] { real_call<PY>(k, h.args); });
    if (want) { c.nontrivial(); c.label(opn(k.op)); if (want & E_DIM) c.label("dimension"); if (want & E_OOB) c.label("index list"); if (want & E_IDX) c.label("row/column index"); }
    else c.label("accepted");
    if (want == 0) {
        if (t.cls) c.fail(std::string(opn(k.op)) + ": well-formed call rejected with " + t.name);
        check_output(c, k, h, model_call<PY>(k, a)); h.inputs_unchanged(c, a); return;
    }
    if (t.cls == 0) c.fail(std::string(opn(k.op)) + ": ill-formed call accepted, expected " + clsname(want));
    if (!(t.cls & want)) c.fail(std::string(opn(k.op)) + ": rejected with " + t.name + ", expected " + clsname(want));
    MOut<PY> e; e.m = a.Cm; e.v = a.Cv; e.s = a.Cs;
    check_output(c, k, h, e); h.inputs_unchanged(c, a);
}
inline void element_case(Ctx &c) {     // element access, construction, building
    size_t r = gen_dim(c), q = gen_dim(c); MM<PTT> m = gen_mm<PTT>(c, r, q); MV<PTT> v = gen_mv<PTT>(c, r);
    auto M = to_grb(m); auto V = to_grb(v);
    size_t i = c.draw(r + 3), j = c.draw(q + 3); bool out = i >= r || j >= q, vout = i >= r;
    if (c.chance(1, 6)) i = ~(size_t)0, out = vout = true;
    PTT val = gen_val<PTT>(c);
    unsigned what = (unsigned)c.draw(15);
    static char const *nm[] = {"M.hasElement", "M.setElement", "M.removeElement", "M.extractElement", "V.hasElement", "V.setElement", "V.removeElement", "V.extractElement",
        "M.build", "V.build", "Matrix(ragged)", "Vector(0)", "M.resize(0)", "V.resize(0)", "dense-vector constructors of size 0"};
    c.note(std::string(nm[what]) + " at (" + std::to_string(i) + "," + std::to_string(j) + ") of " + m.str() + " / " + v.str()); c.label(nm[what]);
    Thrown t; int want = 0; MM<PTT> em = m; MV<PTT> ev = v; bool fresh = false;
    auto need = [&](bool o, bool noval) { want = o ? E_OOB : noval ? 8 : 0; };
    switch (what) {
    case 0: need(out, false); { bool b = false; t = attempt([&] { b = M.hasElement(i, j); }); if (!out) c.check(t.cls == 0 && b == m.at(i, j).has_value(), "hasElement"); } break;
    case 1: need(out, false); if (!out) em.at(i, j) = val; t = attempt([&] { M.setElement(i, j, val); }); break;
    case 2: need(out, false); if (!out) em.at(i, j) = std::nullopt; t = attempt([&] { M.removeElement(i, j); }); break;
    case 3: need(out, !out && !m.at(i, j)); t = attempt([&] { PTT x = M.extractElement(i, j); if (!out && m.at(i, j)) c.check(same<PTT>(x, *m.at(i, j)), "extractElement value"); }); break;
    case 4: need(vout, false); t = attempt([&] { bool b = V.hasElement(i); if (!vout) c.check(b == v.d[i].has_value(), "hasElement"); }); break;
    case 5: need(vout, false); if (!vout) ev.d[i] = val; t = attempt([&] { V.setElement(i, val); }); break;
    case 6: need(vout, false); if (!vout) ev.d[i] = std::nullopt; t = attempt([&] { V.removeElement(i); }); break;
    case 7: need(vout, !vout && !v.d[i]); t = attempt([&] { PTT x = V.extractElement(i); if (!vout && v.d[i]) c.check(same<PTT>(x, *v.d[i]), "extractElement value"); }); break;
    case 8: case 9: {
        size_t n = 1 + c.draw(5); bool bad = c.boolean(); size_t at = c.draw(n); IdxV I, J; std::vector<PTT> X; fresh = true;
        bool mism = c.chance(1, 4);
        for (size_t k = 0; k < n; ++k) { I.push_back(c.draw(r)); J.push_back(c.draw(q)); X.push_back(gen_val<PTT>(c)); }
        if (bad) { if (what == 9 || c.boolean()) I[at] = r + c.draw(3); else J[at] = q + c.draw(3); }
        if (mism) { if (what == 8 && c.boolean()) J.pop_back(); else X.pop_back(); }
        if (what == 8) { grb::Matrix<PTT> N(r, q); t = attempt([&] { N.build(I, J, X); }); MM<PTT> x = observe(c, N, "matrix after build"); if (t.cls) c.check(x.nvals() == 0, "rejected build stored entries: " + x.str()); }
        else { grb::Vector<PTT> N(r); t = attempt([&] { N.build(I, X); }); MV<PTT> x = observe(c, N, "vector after build"); if (t.cls) c.check(x.nvals() == 0, "rejected build stored entries: " + x.str()); }
        want = mism ? E_DIM : bad ? E_OOB : 0; if (mism && bad) want |= E_OOB; break; }
    case 10: { std::vector<std::vector<PTT>> d(r + 1, std::vector<PTT>(q + 1, val)); d[1 + c.draw(r)].resize(q + 1 + (c.boolean() ? 1 : -1), val); bool two = c.boolean(); want = E_DIM; fresh = true;
        t = attempt([&] { if (two) grb::Matrix<PTT> N(d, PTT(0)); else grb::Matrix<PTT> N(d); }); break; }
    case 11: want = 16; fresh = true; { bool two = c.boolean(); t = attempt([&] { if (two) grb::Vector<PTT> N(0, val); else grb::Vector<PTT> N((IndexType)0); }); } break;
    case 12: want = 16; { size_t z = c.draw(3); t = attempt([&] { M.resize(z == 1 ? r : 0, z == 0 ? q : 0); }); } break;
    case 13: want = 16; t = attempt([&] { V.resize(0); }); break;
    case 14: { want = 16; fresh = true; std::vector<PTT> e0; bool two = c.boolean();
        t = attempt([&] { if (two) grb::Vector<PTT> N(e0, PTT(0)); else grb::Vector<PTT> N(e0); }); break; }
    }
    if (want) c.nontrivial();
    if (want == 0 && t.cls) c.fail(std::string(nm[what]) + " rejected with " + t.name);
    if (want && t.cls == 0) c.fail(std::string(nm[what]) + " accepted, expected " + clsname(want));
    if (want && !(t.cls & want)) c.fail(std::string(nm[what]) + " rejected with " + t.name + ", expected " + clsname(want));
    (void)fresh;
    auto gm = observe(c, M, "matrix"); auto gv = observe(c, V, "vector");
    if (!(gm == em)) c.fail("matrix is now " + gm.str() + ", expected " + em.str());
    if (!(gv == ev)) c.fail("vector is now " + gv.str() + ", expected " + ev.str());
}

#ifdef FAULTS
// ------------------------------------------------------------ C36 operators that throw
struct Armed { Armed(long n) { fuse_left = n; } ~Armed() { fuse_left = -1; } };
inline void throw_case(Ctx &c) {
    c.intvals = PY::WR;
    static const int ops[] = {MXM, MXV, VXM, EWADD_M, EWADD_V, EWMUL_M, EWMUL_V, APPLY_M, APPLY_V, APPLY1_M, APPLY2_M, APPLY1_V, APPLY2_V, REDUCE_MV, REDUCE_VS, REDUCE_MS,
        EXTRACT_V, EXTRACT_M, EXTRACT_C, ASSIGN_V, ASSIGN_M, ASSIGN_COL, ASSIGN_ROW, ASSIGN_CV, ASSIGN_CM, TRANSPOSE, KRON, MXM, MXM, MXM, MXM, MXM};
    Call k; k.op = ops[c.draw(32)]; MArgs<PY> a; gen_call<PY>(c, k, a); note_call(c, k, a); Slots s = slots(k.op);
    MOut<PY> e = model_call<PY>(k, a);
    Held<PY> h0(a); ensure_mask(h0, k); fuse_used = 0; real_call<PY>(k, h0.args); long total = fuse_used;
    if (!total) throw Discard{};
    long at = 1 + (long)c.draw((uint64_t)total); c.note("  operator application " + std::to_string(at) + " of " + std::to_string(total) + " throws");
    Held<PY> h(a); ensure_mask(h, k); bool thrown = false;
    try { Armed armed(at); real_call<PY>(k, h.args); } catch (Boom &) { thrown = true; }
    if (!thrown) c.fail("the exception thrown by the operator did not reach the caller");
    label_call<PY>(c, k); if (at > 1) c.nontrivial();
    h.inputs_unchanged(c, a);
    MArgs<PY> b = a;        // the output as the failed call left it: any valid contents of the same shape
    if (s.out == 'm') { b.Cm = observe(c, *h.Cm, "output after the exception"); if (b.Cm.r != a.Cm.r || b.Cm.c != a.Cm.c) c.fail("the output changed its shape"); }
    else if (s.out == 'v') { b.Cv = observe(c, *h.Cv, "output after the exception"); if (b.Cv.n() != a.Cv.n()) c.fail("the output changed its size"); }
    else { if (!same(h.Cs, a.Cs)) c.fail("the scalar output changed to " + vstr(h.Cs)); }
    if ((s.out == 'm' && !(b.Cm == a.Cm)) || (s.out == 'v' && !(b.Cv == a.Cv))) c.label("partly written output");
    e = model_call<PY>(k, b); real_call<PY>(k, h.args); check_output(c, k, h, e); h.inputs_unchanged(c, a);      // and everything is as usable as before
}
inline void throw_build_case(Ctx &c) {
    size_t r = gen_dim(c), q = gen_dim(c), n = 1 + c.draw(10); bool vec = c.boolean(); IdxV I(n), J(n); std::vector<PTT> V; std::vector<std::pair<size_t, size_t>> used; 
    for (size_t i = 0; i < n; ++i) { I[i] = c.draw(r); J[i] = vec ? 0 : c.draw(q); }
    std::vector<std::conditional_t<std::is_same_v<PTT, bool>, uint8_t, PTT>> vals(n); for (auto &x : vals) x = gen_val<PTT>(c);
    BinF<PTT, PTT, PTT, PY::WR> dup{(int)c.draw(N_OPS)};
    std::string d = vec ? "Vector::build" : "Matrix::build"; for (size_t i = 0; i < n; ++i) d += " (" + std::to_string(I[i]) + "," + std::to_string(J[i]) + ")=" + vstr((PTT)vals[i]);
    auto run = [&](auto &m) { if constexpr (std::is_same_v<std::decay_t<decltype(m)>, grb::Matrix<PTT>>) m.build(I.begin(), J.begin(), vals.begin(), n, dup); else m.build(I.begin(), vals.begin(), n, dup); };
    auto body = [&](auto make, auto model) {
        auto m0 = make(); fuse_used = 0; run(m0); long total = fuse_used; if (!total) throw Discard{};
        long at = 1 + (long)c.draw((uint64_t)total); c.note(d + "; application " + std::to_string(at) + " of " + std::to_string(total) + " throws"); if (n > 2) c.nontrivial();
        auto m = make(); bool thrown = false; try { Armed armed(at); run(m); } catch (Boom &) { thrown = true; }
        if (!thrown) c.fail("the exception thrown by the duplicate operator did not reach the caller");
        observe(c, m, "container after the exception"); m.clear(); auto z = observe(c, m, "container after clear"); if (z.nvals()) c.fail("clear leaves elements");
        run(m); if (!(m == m0)) c.fail("build after the failed one gives " + observe(c, m, "built").str() + ", expected " + observe(c, m0, "built").str()); (void)model; };
    if (vec) body([&] { return grb::Vector<PTT>(r); }, 0); else body([&] { return grb::Matrix<PTT>(r, q); }, 0);
}
#endif
// ------------------------------------------------------------ C38 numbering and size of the index spaces
// The same call with every index space mapped injectively into a larger one (columns up to 2^61) must give the mapped result.
inline void equi_case(Ctx &c) {
    c.intvals = PY::WR;
    Call k; k.op = (int)c.draw(NUM_OPS); MArgs<PY> a; gen_call<PY>(c, k, a); note_call(c, k, a); Slots s = slots(k.op);
    // spaces of the containers as presented: rows, columns (vectors: rows only)
    struct Sp { int r = -1, q = -1; } C, M, A, B; bool list = uses_I(k.op), ex = k.op == EXTRACT_V || k.op == EXTRACT_M || k.op == EXTRACT_C, as = k.op >= ASSIGN_V && k.op <= ASSIGN_CM;
    enum { P = 4, Q = 5 };       // positions within the index lists
    switch (k.op) {
    case MXM: A = {0, 1}; B = {1, 2}; C = M = {0, 2}; break;
    case MXV: A = {0, 1}; B = {1}; C = M = {0}; break;
    case VXM: A = {0}; B = {0, 1}; C = M = {1}; break;
    case REDUCE_MV: A = {0, 1}; C = M = {0}; break;
    case TRANSPOSE: A = {0, 1}; C = M = {1, 0}; break;
    case KRON: A = {0, 1}; B = {2, 3}; C = M = {6, 7}; break;
    case EXTRACT_V: case EXTRACT_C: A = {0, 1}; C = M = {P}; break;
    case EXTRACT_M: A = {0, 1}; C = M = {P, Q}; break;
    case ASSIGN_V: C = M = {0}; A = {P}; break;
    case ASSIGN_M: C = M = {0, 1}; A = {P, Q}; break;
    case ASSIGN_COL: C = {0, 1}; M = {0}; A = {P}; break;
    case ASSIGN_ROW: C = {1, 0}; M = {0}; A = {P}; break;
    default: A = B = C = M = {0, 1};
    }
    size_t n[8]; for (auto &x : n) x = 0; bool fixed[8] = {}, row[8] = {}, perm[8] = {}, same[8] = {};
    auto see = [&](Sp sp, char kind, auto const &m, auto const &v, bool t) {
        if (kind == 'm') { size_t r = m.r, q = m.c; if (t) std::swap(r, q); n[sp.r] = r; n[sp.q] = q; row[t ? sp.q : sp.r] = true; } else if (kind == 'v') { n[sp.r] = v.n(); row[sp.r] = true; } };
    see(C, s.out, a.Cm, a.Cv, false); if (k.mk) see(M, s.mask, a.Mm, a.Mv, false); see(A, s.a, a.Am, a.Av, k.ta); see(B, s.b, a.Bm, a.Bv, k.tb);
    if (k.op == KRON) row[0] = row[2] = true;
    if (list) { perm[P] = perm[Q] = true; if (!k.allI && !n[P]) n[P] = k.I.size(); if (!k.allJ && !n[Q]) n[Q] = k.J.size();
        auto all = [&](bool on, int p, int v) { if (!on) return; row[v] = true; if (k.op == ASSIGN_CV || k.op == ASSIGN_CM) { perm[v] = true; return; } if (n[p] != n[v]) fixed[p] = fixed[v] = true; else same[p] = true; };
        all(k.allI, P, 0); if (uses_J(k.op)) all(k.allJ, Q, 1); }
    if (k.mk == MK_COMP || k.mk == MK_CSTRUCT || k.op == ASSIGN_ROW) for (auto &x : row) x = true;       // the library lists the admitted columns
    // the maps
    size_t N[8]; std::vector<size_t> f[8]; bool huge = false;
    auto inject = [&](int x, size_t to) { N[x] = to; std::vector<size_t> v; if (to == n[x]) { for (size_t i = 0; i < to; ++i) v.push_back(i); for (size_t i = to; i > 1; --i) std::swap(v[i - 1], v[c.draw(i)]); }
        else { std::set<size_t> u; while (u.size() < n[x]) { size_t y = c.draw(8) == 7 ? to - 1 : c.draw(to); while (u.count(y)) y = (y + 1) % to; u.insert(y); v.push_back(y); } }
        if (c.chance(1, 3)) std::sort(v.begin(), v.end()); f[x] = v; };
    for (int x = 0; x < 6; ++x) { N[x] = n[x]; if (!n[x]) continue;
        if (fixed[x]) { for (size_t i = 0; i < n[x]; ++i) f[x].push_back(i); continue; }
        if (same[x]) continue;
        if (perm[x]) inject(x, n[x]);
        else if (row[x]) inject(x, n[x] + (k.op == KRON ? c.draw(12) : c.pick<size_t>({0, 1, 3, 12, 60, 130, 300}) + c.draw(4)));
        else { inject(x, n[x] + (k.op == KRON ? c.pick<size_t>({0, 5, 1000, 1u << 20}) : c.pick<size_t>({0, 3, 300, 70000, (size_t)1 << 31, ((size_t)1 << 32) + 5, (size_t)1 << 53, (size_t)1 << 61}))); huge |= N[x] > 300; } }
    for (int x = 4; x < 6; ++x) if (same[x]) { N[x] = N[x - 4]; f[x] = f[x - 4]; }
    if (k.op == KRON) { for (int d = 0; d < 2; ++d) { n[6 + d] = n[d] * n[2 + d]; N[6 + d] = N[d] * N[2 + d]; f[6 + d].clear(); for (auto x : f[d]) for (auto y : f[2 + d]) f[6 + d].push_back(x * N[2 + d] + y); } }
    for (int x = 0; x < 6; ++x) if (n[x] && !same[x]) { std::string d; for (size_t i = 0; i < f[x].size() && i < 12; ++i) d += " " + std::to_string(f[x][i]); c.note("  index space " + std::to_string(x) + ": " + std::to_string(n[x]) + " -> " + std::to_string(N[x]) + ", " + d); }
    // the mapped call
    Call kb = k;
    auto mapl = [&](IdxV const &v, int val, int pos) { IdxV w(v.size()); for (size_t i = 0; i < v.size(); ++i) w[f[pos][i]] = f[val][v[i]]; return w; };
    if (list && !k.allI) kb.I = mapl(k.I, 0, P);
    if (uses_J(k.op) && !k.allJ) kb.J = mapl(k.J, 1, Q);
    if (uses_idx(k.op)) kb.idx = f[1][k.idx];
    (void)ex; (void)as;
    auto mm = [&](MM<PTT> const &m, Sp sp, bool t) { int r = t ? sp.q : sp.r, q = t ? sp.r : sp.q; grb::Matrix<PTT> g(N[r], N[q]); for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) if (m.at(i, j)) g.setElement(f[r][i], f[q][j], *m.at(i, j)); return g; };
    auto mv = [&](MV<PTT> const &v, Sp sp) { grb::Vector<PTT> g(N[sp.r]); for (size_t i = 0; i < v.n(); ++i) if (v.d[i]) g.setElement(f[sp.r][i], *v.d[i]); return g; };
    std::optional<grb::Matrix<PTT>> gm[4], g0[4]; std::optional<grb::Vector<PTT>> gv[4], v0[4]; char kinds[4] = {s.out, k.mk ? s.mask : '-', s.a, s.b}; Sp sps[4] = {C, M, A, B};
    MM<PTT> const *pm[4] = {&a.Cm, &a.Mm, &a.Am, &a.Bm}; MV<PTT> const *pv[4] = {&a.Cv, &a.Mv, &a.Av, &a.Bv}; bool tr[4] = {false, false, k.ta, k.tb};
    if (k.op == ASSIGN_ROW) { sps[0] = {1, 0}; }
    for (int i = 0; i < 4; ++i) { if (kinds[i] == 'm') { gm[i].emplace(mm(*pm[i], sps[i], tr[i])); g0[i].emplace(*gm[i]); } else if (kinds[i] == 'v') { gv[i].emplace(mv(*pv[i], sps[i])); v0[i].emplace(*gv[i]); } }
    static grb::Matrix<PTT> dm(1, 1); static grb::Vector<PTT> dv(1);
    Args<PY> g; PTT sc = a.Cs; g.Cs = &sc; g.sa = a.sa; g.sb = a.sb; g.Mm = &dm; g.Mv = &dv;
    if (gm[0]) g.Cm = &*gm[0]; if (gv[0]) g.Cv = &*gv[0]; if (gm[1]) g.Mm = &*gm[1]; if (gv[1]) g.Mv = &*gv[1]; if (gm[2]) g.Am = &*gm[2]; if (gv[2]) g.Av = &*gv[2]; if (gm[3]) g.Bm = &*gm[3]; if (gv[3]) g.Bv = &*gv[3];
    MOut<PY> e = model_call<PY>(k, a); label_call<PY>(c, k); if (huge) c.label("columns past 300"); if (nontrivial_call(k, a, e)) c.nontrivial();
    real_call<PY>(kb, g);
    if (s.out == 'm') {
        auto const &h = *gm[0]; size_t nv = h.nvals(); IdxV I(nv), J(nv); std::vector<std::conditional_t<std::is_same_v<PTT, bool>, uint8_t, PTT>> X(nv); h.extractTuples(I.begin(), J.begin(), X.begin());
        std::map<std::pair<size_t, size_t>, PTT> want, got; for (size_t i = 0; i < e.m.r; ++i) for (size_t j = 0; j < e.m.c; ++j) if (e.m.at(i, j)) want[{f[sps[0].r][i], f[sps[0].q][j]}] = *e.m.at(i, j);
        for (size_t i = 0; i < nv; ++i) { if (i && !(std::make_pair(I[i - 1], J[i - 1]) < std::make_pair(I[i], J[i]))) c.fail("tuples of the mapped result are not in order"); got[{I[i], J[i]}] = (PTT)X[i]; }
        auto show = [](auto const &x) { std::string t; size_t z = 0; for (auto &[p, v] : x) { if (z++ > 20) { t += " ..."; break; } t += " (" + std::to_string(p.first) + "," + std::to_string(p.second) + ")=" + vstr<PTT>(v); } return t; };
        if (!(got == want)) c.fail(std::string(opn(k.op)) + ": mapped call gives" + show(got) + "; expected" + show(want));
        for (auto &[p, v] : want) { if (!h.hasElement(p.first, p.second) || !vf::same<PTT>(h.extractElement(p.first, p.second), v)) c.fail("the mapped result does not report its element at (" + std::to_string(p.first) + "," + std::to_string(p.second) + ")");
            if (p.second + 1 < h.ncols() && h.hasElement(p.first, p.second + 1) != (want.count({p.first, p.second + 1}) > 0)) c.fail("the mapped result reports an element that its tuples do not hold"); }
        if (h.nrows() != N[sps[0].r] || h.ncols() != N[sps[0].q]) c.fail("the output changed its shape");
    } else if (s.out == 'v') {
        auto o = observe(c, *gv[0], "mapped output"); MV<PTT> w(N[C.r]); for (size_t i = 0; i < e.v.n(); ++i) if (e.v.d[i]) w.d[f[C.r][i]] = *e.v.d[i];
        if (!(o == w)) c.fail(std::string(opn(k.op)) + ": mapped call gives " + o.str() + "; expected " + w.str());
    } else if (!vf::same(sc, e.s)) c.fail(std::string(opn(k.op)) + ": mapped call gives " + vstr(sc) + "; expected " + vstr(e.s));
    for (int i = 1; i < 4; ++i) { if (gm[i] && !(*gm[i] == *g0[i])) c.fail("an operand was changed"); if (gv[i] && !(*gv[i] == *v0[i])) c.fail("an operand was changed"); }
}
// ------------------------------------------------------------ C17 programs
struct Pool {
    std::vector<MM<PTT>> mm; std::vector<MV<PTT>> mv;           // model
    std::vector<grb::Matrix<PTT>> gm; std::vector<grb::Vector<PTT>> gv;  // real
};
inline void program_case(Ctx &c) {
    c.intvals = PY::WR;
    Pool p; size_t n1 = gen_dim(c), n2 = c.boolean() ? n1 : 1 + c.draw(5);
    auto dim = [&] { return c.draw(4) < 3 ? n1 : n2; };
    size_t nm = 2 + c.draw(3), nv = 2 + c.draw(3);
    for (size_t i = 0; i < nm; ++i) { p.mm.push_back(gen_mm<PTT>(c, dim(), dim())); p.gm.push_back(to_grb(p.mm.back())); c.note("M" + std::to_string(i) + " = " + p.mm.back().str()); }
    for (size_t i = 0; i < nv; ++i) { p.mv.push_back(gen_mv<PTT>(c, dim())); p.gv.push_back(to_grb(p.mv.back())); c.note("v" + std::to_string(i) + " = " + p.mv.back().str()); }
    size_t steps = 1 + c.draw(c.size ? 25 : 10); size_t effective = 0, aliased = 0, rejected = 0;
    PTT acc0{};
    for (size_t st = 0; st < steps; ++st) {
        if (c.chance(1, 5)) {           // container update
            bool m = c.boolean(); size_t x = c.draw(m ? nm : nv); std::string w = (m ? "M" : "v") + std::to_string(x);
            switch (c.draw(6)) {
            case 0: if (m) { size_t i = c.draw(p.mm[x].r), j = c.draw(p.mm[x].c); PTT v = gen_val<PTT>(c); c.note(w + ".set(" + std::to_string(i) + "," + std::to_string(j) + ")=" + vstr(v)); p.mm[x].at(i, j) = v; p.gm[x].setElement(i, j, v); }
                else { size_t i = c.draw(p.mv[x].n()); PTT v = gen_val<PTT>(c); c.note(w + ".set(" + std::to_string(i) + ")=" + vstr(v)); p.mv[x].d[i] = v; p.gv[x].setElement(i, v); } break;
            case 1: if (m) { size_t i = c.draw(p.mm[x].r), j = c.draw(p.mm[x].c); c.note(w + ".remove(" + std::to_string(i) + "," + std::to_string(j) + ")"); p.mm[x].at(i, j) = std::nullopt; p.gm[x].removeElement(i, j); }
                else { size_t i = c.draw(p.mv[x].n()); c.note(w + ".remove(" + std::to_string(i) + ")"); p.mv[x].d[i] = std::nullopt; p.gv[x].removeElement(i); } break;
            case 2: c.note(w + ".clear()"); if (m) { p.mm[x] = MM<PTT>(p.mm[x].r, p.mm[x].c); p.gm[x].clear(); } else { p.mv[x] = MV<PTT>(p.mv[x].n()); p.gv[x].clear(); } break;
            case 3: if (m) { size_t r = dim(), q = dim(); c.note(w + ".resize(" + std::to_string(r) + "," + std::to_string(q) + ")"); MM<PTT> k(r, q); for (size_t i = 0; i < r && i < p.mm[x].r; ++i) for (size_t j = 0; j < q && j < p.mm[x].c; ++j) k.at(i, j) = p.mm[x].at(i, j); p.mm[x] = k; p.gm[x].resize(r, q); }
                else { size_t r = dim(); c.note(w + ".resize(" + std::to_string(r) + ")"); p.mv[x].d.resize(r); p.gv[x].resize(r); } break;
            case 4: case 5: { size_t y = c.draw(m ? nm : nv); c.note(w + " = " + (m ? "M" : "v") + std::to_string(y)); Thrown t;
                if (m) { t = attempt([&] { p.gm[x] = p.gm[y]; }); bool ok = p.mm[x].r == p.mm[y].r && p.mm[x].c == p.mm[y].c; if (ok) p.mm[x] = p.mm[y]; if ((t.cls == 0) != ok || (t.cls & ~E_DIM)) c.fail("assignment " + (t.cls ? t.name : std::string("accepted"))); }
                else { t = attempt([&] { p.gv[x] = p.gv[y]; }); bool ok = p.mv[x].n() == p.mv[y].n(); if (ok) p.mv[x] = p.mv[y]; if ((t.cls == 0) != ok || (t.cls & ~E_DIM)) c.fail("assignment " + (t.cls ? t.name : std::string("accepted"))); }
                break; }
            }
        } else {
            Call k; k.op = (int)c.draw(NUM_OPS + 5); if (k.op >= NUM_OPS) k.op = MXM; gen_flags(c, k); Slots s = slots(k.op);
            bool wantbad = c.chance(1, 10);
            size_t io = 0, im = 0, ia = 0, ib = 0; PTT sa = gen_val<PTT>(c), sb = gen_val<PTT>(c);
            auto cnt = [&](char x) { return x == 'm' ? nm : x == 'v' ? nv : (size_t)1; };
            auto shape = [&](char x, size_t i) { return x == 'm' ? Shape{p.mm[i].r, p.mm[i].c} : x == 'v' ? Shape{p.mv[i].n(), 1} : Shape{1, 1}; };
            io = c.draw(cnt(s.out)); ia = c.draw(cnt(s.a)); ib = c.draw(cnt(s.b)); im = c.draw(cnt(s.mask));
            auto index_lists = [&](Shape C, Shape A, Ctx *g) {      // fills k.I/k.J for the shapes (deterministic identity prefix when g == nullptr)
                if (k.ta) std::swap(A.r, A.c);
                bool asg = k.op >= ASSIGN_V && k.op <= ASSIGN_CM, con = k.op == ASSIGN_CV || k.op == ASSIGN_CM;
                auto one = [&](size_t len, size_t n, bool all, IdxV &L) { L.clear(); if (all) return; if (g) { if (asg && !con) { if (len > n) len = n; L = gen_indices(*g, len, n, true); } else L = gen_indices(*g, len, n, false); } else for (size_t i = 0; i < len; ++i) L.push_back(i % n); };
                switch (k.op) {
                case EXTRACT_V: case EXTRACT_C: one(C.r, A.r, k.allI, k.I); break;
                case EXTRACT_M: one(C.r, A.r, k.allI, k.I); one(C.c, A.c, k.allJ, k.J); break;
                case ASSIGN_V: case ASSIGN_COL: one(A.r, C.r, k.allI, k.I); break;
                case ASSIGN_ROW: one(A.r, C.c, k.allI, k.I); break;
                case ASSIGN_M: one(A.r, C.r, k.allI, k.I); one(A.c, C.c, k.allJ, k.J); break;
                case ASSIGN_CV: one(g ? 1 + g->draw(C.r) : 1, C.r, k.allI, k.I); break;
                case ASSIGN_CM: one(g ? 1 + g->draw(C.r) : 1, C.r, k.allI, k.I); one(g ? 1 + g->draw(C.c) : 1, C.c, k.allJ, k.J); break;
                } };
            k.allI = c.chance(1, 4); k.allJ = c.chance(1, 4); if (!uses_I(k.op)) k.allI = false; if (!uses_J(k.op)) k.allJ = false;
            auto rej = [&](size_t o, size_t m, size_t a, size_t b) { return rejects(k, shape(s.out, o), shape(s.mask, m), shape(s.a, a), shape(s.b, b)); };
            auto lists_for = [&](Ctx *g, size_t o, size_t a) { index_lists(shape(s.out, o), shape(s.a, a), g); };
            if (!wantbad) {             // pick conforming operands among all combinations
                struct Q { size_t o, m, a, b; }; std::vector<Q> ok; size_t step = 0;
                for (size_t o = 0; o < cnt(s.out); ++o) for (size_t a = 0; a < cnt(s.a); ++a) { lists_for(nullptr, o, a); k.idx = 0; for (size_t b = 0; b < cnt(s.b); ++b) for (size_t m = 0; m < (k.mk ? cnt(s.mask) : 1); ++m) if (!rej(o, m, a, b)) ok.push_back({o, m, a, b}); ++step; }
                if (ok.empty() && k.mk) { k.mk = 0; for (size_t o = 0; o < cnt(s.out); ++o) for (size_t a = 0; a < cnt(s.a); ++a) { lists_for(nullptr, o, a); for (size_t b = 0; b < cnt(s.b); ++b) if (!rej(o, 0, a, b)) ok.push_back({o, 0, a, b}); } }
                if (!ok.empty()) { Q q = ok[c.draw(ok.size())]; io = q.o; im = q.m; ia = q.a; ib = q.b; }
            }
            lists_for(&c, io, ia);
            if (uses_idx(k.op)) { Shape C = shape(s.out, io), A = shape(s.a, ia); if (k.ta) std::swap(A.r, A.c); k.idx = c.draw((k.op == EXTRACT_C ? A.c : k.op == ASSIGN_COL ? C.c : C.r) + (wantbad ? 2 : 0)); }
            if (wantbad && uses_I(k.op) && !k.allI && !k.I.empty() && c.boolean()) k.I[c.draw(k.I.size())] += n1 + n2 + 3;
            std::string d = "step " + std::to_string(st) + ": " + (s.out == 's' ? std::string("scalar") : (s.out == 'm' ? "M" : "v") + std::to_string(io)) + " <- " + k.str();
            auto nmz = [&](char x, size_t i, PTT sc) { return x == 'm' ? "M" + std::to_string(i) : x == 'v' ? "v" + std::to_string(i) : x == 's' ? vstr(sc) : std::string("-"); };
            if (k.mk) d += " mask:" + nmz(s.mask, im, PTT(0)); d += " A:" + nmz(s.a, ia, sa) + " B:" + nmz(s.b, ib, sb); c.note(d);
            MArgs<PY> a; Args<PY> g; static grb::Matrix<PTT> dm(1, 1); static grb::Vector<PTT> dv(1);
            g.Mm = &dm; g.Mv = &dv; g.sa = a.sa = sa; g.sb = a.sb = sb; a.Cs = acc0; PTT accr = acc0; g.Cs = &accr;
            if (s.out == 'm') { a.Cm = p.mm[io]; g.Cm = &p.gm[io]; } else if (s.out == 'v') { a.Cv = p.mv[io]; g.Cv = &p.gv[io]; }
            if (k.mk) { if (s.mask == 'm') { a.Mm = p.mm[im]; g.Mm = &p.gm[im]; } else { a.Mv = p.mv[im]; g.Mv = &p.gv[im]; } }
            if (s.a == 'm') { a.Am = p.mm[ia]; g.Am = &p.gm[ia]; } else if (s.a == 'v') { a.Av = p.mv[ia]; g.Av = &p.gv[ia]; }
            if (s.b == 'm') { a.Bm = p.mm[ib]; g.Bm = &p.gm[ib]; } else if (s.b == 'v') { a.Bv = p.mv[ib]; g.Bv = &p.gv[ib]; }
            int want = model_rejects<PY>(k, a);
            MOut<PY> e; e.m = a.Cm; e.v = a.Cv; e.s = a.Cs;
            if (!want) e = model_call<PY>(k, a);
            Thrown t = attempt([&] { real_call<PY>(k, g); });
            c.log("step " + std::to_string(st) + " " + (t.cls ? "rejected: " + t.name : "accepted"));
            if (!c.logp) { if (want == 0 && t.cls) c.fail("step " + std::to_string(st) + ": well-formed call rejected with " + t.name);
                if (want && t.cls == 0) c.fail("step " + std::to_string(st) + ": ill-formed call accepted, expected " + clsname(want));
                if (want && !(t.cls & want)) c.fail("step " + std::to_string(st) + ": rejected with " + t.name + ", expected " + clsname(want)); }
            if (want) ++rejected; else { c.label(opn(k.op)); if ((s.out == s.a && io == ia) || (s.out == s.b && io == ib) || (k.mk && s.out == s.mask && io == im)) ++aliased; }
            if (s.out == 'm') { if (!(p.mm[io] == e.m)) ++effective; p.mm[io] = e.m; } else if (s.out == 'v') { if (!(p.mv[io] == e.v)) ++effective; p.mv[io] = e.v; }
            else { c.log("scalar " + vstr(accr)); if (!c.logp && !same(accr, e.s)) c.fail("step " + std::to_string(st) + ": scalar " + vstr(accr) + " expected " + vstr(e.s)); acc0 = e.s; ++effective; }
        }
        for (size_t i = 0; i < nm; ++i) { auto o = observe(c, p.gm[i], ("M" + std::to_string(i)).c_str()); if (c.logp) c.log("M" + std::to_string(i) + " " + o.str()); else if (!(o == p.mm[i])) c.fail("after step " + std::to_string(st) + ": M" + std::to_string(i) + " is " + o.str() + " expected " + p.mm[i].str()); }
        for (size_t i = 0; i < nv; ++i) { auto o = observe(c, p.gv[i], ("v" + std::to_string(i)).c_str()); if (c.logp) c.log("v" + std::to_string(i) + " " + o.str()); else if (!(o == p.mv[i])) c.fail("after step " + std::to_string(st) + ": v" + std::to_string(i) + " is " + o.str() + " expected " + p.mv[i].str()); }
    }
    if (effective >= 2) c.nontrivial();
    if (aliased) c.label("in-place call"); if (rejected) c.label("rejected call"); if (steps >= 5) c.label("5+ steps");
}
} // namespace vf
