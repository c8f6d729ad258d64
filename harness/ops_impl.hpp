#pragma once
#include "ops.hpp"
namespace vf {
template<class Y> void real_mxm(Call const &k, Args<Y> &a) { VF_USE(Y)
    with_mask(k.mk, *a.Mm, [&](auto const &mask) { with_acc<TC, TZ, W>(k.acc, [&](auto const &acc) {
        with_t(k.ta, *a.Am, [&](auto const &A) { with_t(k.tb, *a.Bm, [&](auto const &B) { grb::mxm(*a.Cm, mask, acc, sr, A, B, oc); }); }); }); });
}
template<class Y> void real_mv(Call const &k, Args<Y> &a) { VF_USE(Y)
    with_mask(k.mk, *a.Mv, [&](auto const &mask) { with_acc<TC, TZ, W>(k.acc, [&](auto const &acc) {
        if (k.op == MXV) with_t(k.ta, *a.Am, [&](auto const &A) { grb::mxv(*a.Cv, mask, acc, sr, A, *a.Bv, oc); });
        else with_t(k.tb, *a.Bm, [&](auto const &B) { grb::vxm(*a.Cv, mask, acc, sr, *a.Av, B, oc); }); }); });
}
template<class Y> void real_ew(Call const &k, Args<Y> &a) { VF_USE(Y)
    if (k.op == EWADD_M || k.op == EWMUL_M)
        with_mask(k.mk, *a.Mm, [&](auto const &mask) { with_acc<TC, TZ, W>(k.acc, [&](auto const &acc) {
            with_t(k.ta, *a.Am, [&](auto const &A) { with_t(k.tb, *a.Bm, [&](auto const &B) {
                if (k.op == EWADD_M) grb::eWiseAdd(*a.Cm, mask, acc, bop, A, B, oc); else grb::eWiseMult(*a.Cm, mask, acc, bop, A, B, oc); }); }); }); });
    else with_mask(k.mk, *a.Mv, [&](auto const &mask) { with_acc<TC, TZ, W>(k.acc, [&](auto const &acc) {
            if (k.op == EWADD_V) grb::eWiseAdd(*a.Cv, mask, acc, bop, *a.Av, *a.Bv, oc); else grb::eWiseMult(*a.Cv, mask, acc, bop, *a.Av, *a.Bv, oc); }); });
}
template<class Y> void real_apply(Call const &k, Args<Y> &a) { VF_USE(Y)
    if (slots(k.op).out == 'm') with_mask(k.mk, *a.Mm, [&](auto const &mask) { with_acc<TC, TZ, W>(k.acc, [&](auto const &acc) {
        if (k.op == APPLY_M) with_t(k.ta, *a.Am, [&](auto const &A) { grb::apply(*a.Cm, mask, acc, un, A, oc); });
        else if (k.op == APPLY1_M) with_t(k.tb, *a.Bm, [&](auto const &B) { grb::apply(*a.Cm, mask, acc, bop, a.sa, B, oc); });
        else with_t(k.ta, *a.Am, [&](auto const &A) { grb::apply(*a.Cm, mask, acc, bop, A, a.sb, oc); }); }); });
    else with_mask(k.mk, *a.Mv, [&](auto const &mask) { with_acc<TC, TZ, W>(k.acc, [&](auto const &acc) {
        if (k.op == APPLY_V) grb::apply(*a.Cv, mask, acc, un, *a.Av, oc);
        else if (k.op == APPLY1_V) grb::apply(*a.Cv, mask, acc, bop, a.sa, *a.Bv, oc);
        else grb::apply(*a.Cv, mask, acc, bop, *a.Av, a.sb, oc); }); });
}
template<class Y> void real_reduce(Call const &k, Args<Y> &a) { VF_USE(Y)
    if (k.op == REDUCE_MV) with_mask(k.mk, *a.Mv, [&](auto const &mask) { with_acc<TC, TZ, W>(k.acc, [&](auto const &acc) {
        with_t(k.ta, *a.Am, [&](auto const &A) { grb::reduce(*a.Cv, mask, acc, mon, A, oc); }); }); });
    else with_acc<TC, TZ, W>(k.acc, [&](auto const &acc) { if (k.op == REDUCE_VS) grb::reduce(*a.Cs, acc, mon, *a.Av); else grb::reduce(*a.Cs, acc, mon, *a.Am); });
}
template<class Y> void real_extract(Call const &k, Args<Y> &a) { VF_USE(Y)
    if (k.op == EXTRACT_M) with_mask(k.mk, *a.Mm, [&](auto const &mask) { with_acc<TC, TZ, W>(k.acc, [&](auto const &acc) {
        with_t(k.ta, *a.Am, [&](auto const &A) { with_idx(k.allI, k.I, [&](auto const &I) { with_idx(k.allJ, k.J, [&](auto const &J) { grb::extract(*a.Cm, mask, acc, A, I, J, oc); }, 1); }); }); }); });
    else with_mask(k.mk, *a.Mv, [&](auto const &mask) { with_acc<TC, TZ, W>(k.acc, [&](auto const &acc) { with_idx(k.allI, k.I, [&](auto const &I) {
        if (k.op == EXTRACT_V) grb::extract(*a.Cv, mask, acc, *a.Av, I, oc);
        else with_t(k.ta, *a.Am, [&](auto const &A) { grb::extract(*a.Cv, mask, acc, A, I, k.idx, oc); }); }); }); });
}
template<class Y> void real_assign_m(Call const &k, Args<Y> &a) { VF_USE(Y)
    with_mask(k.mk, *a.Mm, [&](auto const &mask) { with_acc<TC, TZ, W>(k.acc, [&](auto const &acc) {
        with_t(k.ta, *a.Am, [&](auto const &A) { with_idx(k.allI, k.I, [&](auto const &I) { with_idx(k.allJ, k.J, [&](auto const &J) { grb::assign(*a.Cm, mask, acc, A, I, J, oc); }, 1); }); }); }); });
}
template<class Y> void real_assign(Call const &k, Args<Y> &a) { VF_USE(Y)
    with_mask(k.mk, *a.Mv, [&](auto const &mask) { with_acc<TC, TZ, W>(k.acc, [&](auto const &acc) { with_idx(k.allI, k.I, [&](auto const &I) {
        if (k.op == ASSIGN_V) grb::assign(*a.Cv, mask, acc, *a.Av, I, oc);
        else if (k.op == ASSIGN_COL) grb::assign(*a.Cm, mask, acc, *a.Av, I, k.idx, oc);
        else grb::assign(*a.Cm, mask, acc, *a.Av, k.idx, I, oc); }); }); });
}
template<class Y> void real_assignc(Call const &k, Args<Y> &a) { VF_USE(Y)
    if (k.op == ASSIGN_CM) with_mask(k.mk, *a.Mm, [&](auto const &mask) { with_acc<TC, TZ, W>(k.acc, [&](auto const &acc) {
        with_idx(k.allI, k.I, [&](auto const &I) { with_idx(k.allJ, k.J, [&](auto const &J) { grb::assign(*a.Cm, mask, acc, a.sa, I, J, oc); }, 1); }); }); });
    else with_mask(k.mk, *a.Mv, [&](auto const &mask) { with_acc<TC, TZ, W>(k.acc, [&](auto const &acc) { with_idx(k.allI, k.I, [&](auto const &I) { grb::assign(*a.Cv, mask, acc, a.sa, I, oc); }); }); });
}
template<class Y> void real_tk(Call const &k, Args<Y> &a) { VF_USE(Y)
    with_mask(k.mk, *a.Mm, [&](auto const &mask) { with_acc<TC, TZ, W>(k.acc, [&](auto const &acc) {
        with_t(k.ta, *a.Am, [&](auto const &A) {
            if (k.op == TRANSPOSE) grb::transpose(*a.Cm, mask, acc, A, oc);
            else with_t(k.tb, *a.Bm, [&](auto const &B) { grb::kronecker(*a.Cm, mask, acc, bop, A, B, oc); }); }); }); });
}
} // namespace vf
