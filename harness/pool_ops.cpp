#define OPS_IMPL
#define POOL_GROUP
#include "pool.hpp"
using namespace vf;
#if GROUP == 0
template void vf::real_mxm<PY>(Call const &, Args<PY> &);
#elif GROUP == 1
template void vf::real_mv<PY>(Call const &, Args<PY> &); template void vf::real_reduce<PY>(Call const &, Args<PY> &);
#elif GROUP == 2
template void vf::real_ew<PY>(Call const &, Args<PY> &);
#elif GROUP == 3
template void vf::real_apply<PY>(Call const &, Args<PY> &);
#elif GROUP == 4
template void vf::real_extract<PY>(Call const &, Args<PY> &);
#elif GROUP == 5
template void vf::real_assign_m<PY>(Call const &, Args<PY> &); template void vf::real_assignc<PY>(Call const &, Args<PY> &);
#elif GROUP == 6
template void vf::real_assign<PY>(Call const &, Args<PY> &); template void vf::real_tk<PY>(Call const &, Args<PY> &);
#endif
