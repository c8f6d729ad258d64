#define VF_MAIN
#include "pool.hpp"
using namespace vf;
// -DWANT=<property number>
#if WANT == 16
TARGET("alias", alias_case)
#elif WANT == 15
TARGET("write", write_case)
#elif WANT == 22
TARGET("views", view_case)
#elif WANT == 19
TARGET("reject", reject_case)
TARGET("element", element_case)
#elif WANT == 17
TARGET("program", program_case)
#elif WANT == 38
TARGET("mapped", equi_case)
#elif WANT == 36
TARGET("throw", throw_case)
TARGET("throw_build", throw_build_case)
#endif
