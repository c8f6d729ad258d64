// One operation family (-DFAM=..) for one combination of value types (-DCOMBO=..).
#define VF_MAIN
#define OPS_IMPL
#include "gen.hpp"
using namespace vf;
#if COMBO == 0
using Y = Ty<int32_t, bool, int32_t, int32_t, int32_t>;
#elif COMBO == 1
using Y = Ty<int32_t, double, double, int8_t, double>;
#elif COMBO == 2
using Y = Ty<double, int32_t, int32_t, double, double>;
#elif COMBO == 3
using Y = Ty<uint32_t, uint8_t, uint8_t, uint8_t, uint8_t>;
#elif COMBO == 4
using Y = Ty<bool, bool, bool, bool, bool>;
#elif COMBO == 5
using Y = Ty<int8_t, int32_t, int32_t, int16_t, int32_t>;
#elif COMBO == 6
using Y = Ty<double, bool, double, double, double>;
#elif COMBO == 7
using Y = Ty<int32_t, double, int8_t, double, double>;     // first operand narrower than the second
#elif COMBO == 8
using Y = Ty<uint64_t, uint64_t, uint64_t, uint64_t, uint64_t>;     // values that fit neither double nor 32 bits
#elif COMBO == 9
using Y = Ty<Sym<0>, Sym<0>, Sym<0>, Sym<0>, Sym<0>>;       // a user-defined scalar, see sym.hpp
#elif COMBO == 10
using Y = Ty<Sym<0>, Sym<3>, Sym<1>, Sym<2>, Sym<4>>;       // five of them
#endif
#define T(op, name) TARGET(name, (op_case<Y, op>))
#if FAM == 4
T(MXM, "mxm")
#elif FAM == 5
T(MXV, "mxv") T(VXM, "vxm")
#elif FAM == 6
T(EWADD_M, "ewadd_m") T(EWADD_V, "ewadd_v")
#elif FAM == 7
T(EWMUL_M, "ewmul_m") T(EWMUL_V, "ewmul_v")
#elif FAM == 8
T(APPLY_M, "apply_m") T(APPLY_V, "apply_v") T(APPLY1_M, "apply1_m") T(APPLY2_M, "apply2_m") T(APPLY1_V, "apply1_v") T(APPLY2_V, "apply2_v")
#elif FAM == 9
T(REDUCE_MV, "reduce_mv") T(REDUCE_VS, "reduce_vs") T(REDUCE_MS, "reduce_ms")
#elif FAM == 10
T(EXTRACT_V, "extract_v") T(EXTRACT_M, "extract_m") T(EXTRACT_C, "extract_c")
#elif FAM == 11
T(ASSIGN_V, "assign_v") T(ASSIGN_M, "assign_m") T(ASSIGN_COL, "assign_col") T(ASSIGN_ROW, "assign_row")
#elif FAM == 12
T(ASSIGN_CV, "assign_cv") T(ASSIGN_CM, "assign_cm")
#elif FAM == 13
T(TRANSPOSE, "transpose")
#elif FAM == 14
T(KRON, "kronecker")
#endif
