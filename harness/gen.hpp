// Generators for single calls, and the differential check of one call against the model.
#pragma once
#include "ops.hpp"
namespace vf {

inline IdxV gen_indices(Ctx &c, size_t len, size_t n, bool distinct) {
    IdxV v;
    if (distinct) {
        IdxV pool; for (size_t i = 0; i < n; ++i) pool.push_back(i);
        bool sorted = c.chance(1, 3);
        for (size_t i = 0; i < len; ++i) { size_t p = c.draw(pool.size()); v.push_back(pool[p]); pool.erase(pool.begin() + (long)p); }
        if (sorted) std::sort(v.begin(), v.end());
    } else {
        unsigned style = (unsigned)c.draw(4);     // 0 free, 1 ascending, 2 descending, 3 one repeated
        IndexType rep = 0; if (style == 3) rep = c.draw(n);
        for (size_t i = 0; i < len; ++i) v.push_back(style == 3 && c.chance(1, 2) ? rep : c.draw(n));
        if (style == 1) std::sort(v.begin(), v.end());
        if (style == 2) { std::sort(v.begin(), v.end()); std::reverse(v.begin(), v.end()); }
    }
    return v;
}
inline void gen_flags(Ctx &c, Call &k) {
    k.mk = slots(k.op).mask == '-' ? 0 : (int)c.draw(N_MK);
    // accumulate half of the time, all operators
    k.acc = c.boolean() ? (int)c.draw(N_OPS) : -1;
    k.repl = slots(k.op).out != 's' && c.boolean();
    k.add = c.pick({OP_PLUS, OP_MIN, OP_MAX, OP_PLUS});
    static const int ml[] = {OP_TIMES, OP_MINUS, OP_AXB, OP_FIRST, OP_SECOND, OP_PLUS, OP_MIN, OP_MAX};
    k.mul = ml[c.draw(8)];
    k.uop = (int)c.draw(N_UOPS);
    k.ta = can_ta(k.op) && c.boolean();
    k.tb = can_tb(k.op) && c.boolean();
}
// A well-formed random call of operation k.op: dimensions, contents, indices.
template<class Y> void gen_call(Ctx &c, Call &k, MArgs<Y> &a, bool flags = true) {
    using TC = typename Y::TC; using TM = typename Y::TM; using TA = typename Y::TA; using TB = typename Y::TB;
    if (flags) gen_flags(c, k);
    Slots s = slots(k.op);
    size_t ar = gen_dim(c), ac = 1, br = 1, bc = 1, cr = 1, cc = 1, mr, mc;   // as presented
    auto dim = [&]() { return gen_dim(c); };
    auto small = [&]() { return c.draw(30) == 29 ? 5 + c.draw(20) : 1 + c.draw(4); };
    auto reglen = [&](size_t n) { return c.sq || c.chance(1, 4) ? n : 1 + c.draw(n); };
    switch (k.op) {
    case MXM: ac = dim(); br = ac; bc = dim(); cr = ar; cc = bc; break;
    case MXV: ac = dim(); br = ac; cr = ar; break;
    case VXM: br = ar; bc = dim(); cr = bc; break;
    case EWADD_M: case EWMUL_M: ac = dim(); br = ar; bc = ac; cr = ar; cc = ac; break;
    case EWADD_V: case EWMUL_V: br = ar; cr = ar; break;
    case APPLY_M: case APPLY2_M: ac = dim(); cr = ar; cc = ac; break;
    case APPLY1_M: br = ar; bc = dim(); cr = br; cc = bc; break;
    case APPLY_V: case APPLY2_V: cr = ar; break;
    case APPLY1_V: br = ar; cr = ar; break;
    case REDUCE_MV: ac = dim(); cr = ar; break;
    case REDUCE_VS: break;
    case REDUCE_MS: ac = dim(); break;
    case TRANSPOSE: ac = dim(); cr = ac; cc = ar; break;
    case KRON: ar = small(); ac = small(); br = small(); bc = small(); cr = ar * br; cc = ac * bc; break;
    case EXTRACT_V: case EXTRACT_C: {
        if (k.op == EXTRACT_C) { ac = dim(); k.idx = c.draw(ac); }
        k.allI = c.chance(1, 4); cr = k.allI && c.chance(2, 3) ? ar : dim();
        if (!k.allI) k.I = gen_indices(c, cr, ar, false); break; }
    case EXTRACT_M: ac = dim(); k.allI = c.chance(1, 4); k.allJ = c.chance(1, 4); cr = k.allI && c.chance(2, 3) ? ar : dim(); cc = k.allJ && c.chance(2, 3) ? ac : dim();
        if (!k.allI) k.I = gen_indices(c, cr, ar, false);
        if (!k.allJ) k.J = gen_indices(c, cc, ac, false); break;
    case ASSIGN_V: cr = dim(); k.allI = c.chance(1, 4); ar = k.allI ? cr : reglen(cr); if (!k.allI) k.I = gen_indices(c, ar, cr, true); break;
    case ASSIGN_M: cr = dim(); cc = dim(); k.allI = c.chance(1, 4); k.allJ = c.chance(1, 4);
        ar = k.allI ? cr : reglen(cr); ac = k.allJ ? cc : reglen(cc);
        if (!k.allI) k.I = gen_indices(c, ar, cr, true);
        if (!k.allJ) k.J = gen_indices(c, ac, cc, true); break;
    case ASSIGN_COL: case ASSIGN_ROW: { cr = dim(); cc = dim(); bool col = k.op == ASSIGN_COL; size_t n = col ? cr : cc; k.idx = c.draw(col ? cc : cr);
        k.allI = c.chance(1, 4); ar = k.allI ? n : reglen(n); if (!k.allI) k.I = gen_indices(c, ar, n, true); break; }
    case ASSIGN_CV: case ASSIGN_CM: cr = dim(); if (k.op == ASSIGN_CM) cc = dim();
        k.allI = c.chance(1, 4); if (!k.allI) k.I = gen_indices(c, reglen(cr), cr, false);
        if (k.op == ASSIGN_CM) { k.allJ = c.chance(1, 4); if (!k.allJ) k.J = gen_indices(c, reglen(cc), cc, false); } break;
    }
    mr = cr; mc = cc;
    if (k.op == ASSIGN_COL) { mc = 1; } else if (k.op == ASSIGN_ROW) { mr = cc; mc = 1; }
    if (k.ta) std::swap(ar, ac);
    if (k.tb) std::swap(br, bc);
    if (s.a == 'm') a.Am = gen_mm<TA>(c, ar, ac); else if (s.a == 'v') a.Av = gen_mv<TA>(c, ar); else if (s.a == 's') a.sa = gen_val<TA>(c);
    if (s.b == 'm') a.Bm = gen_mm<TB>(c, br, bc); else if (s.b == 'v') a.Bv = gen_mv<TB>(c, br); else if (s.b == 's') a.sb = gen_val<TB>(c);
    if (s.out == 'm') a.Cm = gen_mm<TC>(c, cr, cc); else if (s.out == 'v') a.Cv = gen_mv<TC>(c, cr); else a.Cs = gen_val<TC>(c);
    if (k.mk != MK_NONE) { if (s.mask == 'm') a.Mm = gen_mm<TM>(c, mr, mc); else if (s.mask == 'v') a.Mv = gen_mv<TM>(c, mr); }
}
template<class Y> void note_call(Ctx &c, Call const &k, MArgs<Y> const &a) {
    Slots s = slots(k.op);
    c.note(k.str() + "  [" + Y::str() + "]");
    auto p = [&](char kind, char const *nm, auto const &m, auto const &v, std::string const &sc) {
        if (kind == 'm') c.note(std::string("  ") + nm + " = " + m.str()); else if (kind == 'v') c.note(std::string("  ") + nm + " = " + v.str());
        else if (kind == 's') c.note(std::string("  ") + nm + " = " + sc); };
    p(s.out, "out", a.Cm, a.Cv, vstr(a.Cs)); if (k.mk) p(s.mask, "mask", a.Mm, a.Mv, ""); p(s.a, "A", a.Am, a.Av, vstr(a.sa)); p(s.b, "B", a.Bm, a.Bv, vstr(a.sb));
}
template<class Y> struct Held {
    std::optional<grb::Matrix<typename Y::TC>> Cm; std::optional<grb::Vector<typename Y::TC>> Cv; typename Y::TC Cs{};
    std::optional<grb::Matrix<typename Y::TM>> Mm; std::optional<grb::Vector<typename Y::TM>> Mv;
    std::optional<grb::Matrix<typename Y::TA>> Am; std::optional<grb::Vector<typename Y::TA>> Av;
    std::optional<grb::Matrix<typename Y::TB>> Bm; std::optional<grb::Vector<typename Y::TB>> Bv;
    Args<Y> args;
    Held(MArgs<Y> const &a) {
        auto set = [](auto &slot, auto const &m, bool nonempty, auto *&p) { if (nonempty) { slot.emplace(to_grb(m)); p = &*slot; } };
        auto setc = [](auto &slot, auto const &m, bool nonempty, auto const *&p) { if (nonempty) { slot.emplace(to_grb(m)); p = &*slot; } };
        set(Cm, a.Cm, a.Cm.r, args.Cm); set(Cv, a.Cv, a.Cv.n(), args.Cv); Cs = a.Cs; args.Cs = &Cs;
        setc(Mm, a.Mm, a.Mm.r, args.Mm); setc(Mv, a.Mv, a.Mv.n(), args.Mv);
        setc(Am, a.Am, a.Am.r, args.Am); setc(Av, a.Av, a.Av.n(), args.Av);
        setc(Bm, a.Bm, a.Bm.r, args.Bm); setc(Bv, a.Bv, a.Bv.n(), args.Bv);
        args.sa = a.sa; args.sb = a.sb;
    }
    void inputs_unchanged(Ctx &c, MArgs<Y> const &a) {
        auto chk = [&](auto &slot, auto const &m, char const *w) { if (slot && !m.d.empty() && !(observe(c, *slot, w) == m)) c.fail(std::string(w) + " was modified by the call: now " + observe(c, *slot, w).str()); };
        chk(Mm, a.Mm, "mask"); chk(Mv, a.Mv, "mask"); chk(Am, a.Am, "operand A"); chk(Av, a.Av, "operand A"); chk(Bm, a.Bm, "operand B"); chk(Bv, a.Bv, "operand B");
    }
};
// compile-time: with_mask needs an object even when no mask is used
template<class Y> void ensure_mask(Held<Y> &h, Call const &k) {
    char s = slots(k.op).mask;
    if (s == 'm' && !h.Mm) { h.Mm.emplace(1, 1); h.args.Mm = &*h.Mm; }
    if (s == 'v' && !h.Mv) { h.Mv.emplace(1); h.args.Mv = &*h.Mv; }
}
template<class Y> void check_output(Ctx &c, Call const &k, Held<Y> &h, MOut<Y> const &e) {
    Slots s = slots(k.op);
    if (s.out == 'm') { auto g = observe(c, *h.Cm, "output"); if (!(g == e.m)) c.fail(std::string(opn(k.op)) + ": got " + g.str() + " expected " + e.m.str());
        if (!(*h.Cm == to_grb(e.m))) c.fail("output compares unequal to an equal container"); }
    else if (s.out == 'v') { auto g = observe(c, *h.Cv, "output"); if (!(g == e.v)) c.fail(std::string(opn(k.op)) + ": got " + g.str() + " expected " + e.v.str());
        if (!(*h.Cv == to_grb(e.v))) c.fail("output compares unequal to an equal container"); }
    else if (!same(h.Cs, e.s)) c.fail(std::string(opn(k.op)) + ": got " + vstr(h.Cs) + " expected " + vstr(e.s));
}
template<class Y> bool nontrivial_call(Call const &k, MArgs<Y> const &a, MOut<Y> const &e) {
    // the operand(s) have stored entries and the call changes the output
    Slots s = slots(k.op);
    size_t na = s.a == 'm' ? a.Am.nvals() : s.a == 'v' ? a.Av.nvals() : 1, nb = s.b == 'm' ? a.Bm.nvals() : s.b == 'v' ? a.Bv.nvals() : 1;
    if (!na || !nb) return false;
    if (s.out == 'm') return !(e.m == a.Cm); if (s.out == 'v') return !(e.v == a.Cv); return true;
}
template<class Y> void label_call(Ctx &c, Call const &k) {
    c.label(opn(k.op)); static char const *mk[] = {"mask:none", "mask:value", "mask:complement", "mask:structure", "mask:complement-structure"}; c.label(mk[k.mk]);
    c.label(k.acc < 0 ? "accum:no" : "accum:yes"); c.label(k.repl ? "replace" : "merge"); if (k.ta || k.tb) c.label("transposed operand");
}
template<class Y, int OP> void real_op(Call const &k, Args<Y> &a) {
    if constexpr (OP == MXM) real_mxm<Y>(k, a);
    else if constexpr (OP == MXV || OP == VXM) real_mv<Y>(k, a);
    else if constexpr (OP >= EWADD_M && OP <= EWMUL_V) real_ew<Y>(k, a);
    else if constexpr (OP >= APPLY_M && OP <= APPLY2_V) real_apply<Y>(k, a);
    else if constexpr (OP >= REDUCE_MV && OP <= REDUCE_MS) real_reduce<Y>(k, a);
    else if constexpr (OP >= EXTRACT_V && OP <= EXTRACT_C) real_extract<Y>(k, a);
    else if constexpr (OP == ASSIGN_M) real_assign_m<Y>(k, a);
    else if constexpr (OP == ASSIGN_V || OP == ASSIGN_COL || OP == ASSIGN_ROW) real_assign<Y>(k, a);
    else if constexpr (OP == ASSIGN_CV || OP == ASSIGN_CM) real_assignc<Y>(k, a);
    else real_tk<Y>(k, a);
}
template<class Y, int OP> void op_case(Ctx &c) {
    Call k; k.op = OP; MArgs<Y> a; gen_call<Y>(c, k, a); note_call(c, k, a);
    MOut<Y> e = model_call<Y>(k, a);
    Held<Y> h(a); ensure_mask(h, k);
    label_call<Y>(c, k); if (nontrivial_call(k, a, e)) c.nontrivial();
    real_op<Y, OP>(k, h.args);
    check_output(c, k, h, e);
    h.inputs_unchanged(c, a);
}
} // namespace vf
