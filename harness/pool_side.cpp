// One side of the back-end comparison: the program generator of pool.hpp compiled for one back end with its
// namespaces renamed (-Dgrb=..., -Dvf=...), driven by the choices of the comparing program.
#include "pool.hpp"
extern "C" void SIDE(void *user, uint64_t (*draw)(void *, uint64_t), void (*note)(void *, char const *, size_t), int size,
                     std::vector<std::string> *log, std::vector<std::string> *labels, bool *nontrivial) {
    vf::Ctx c; c.dhook = draw; c.nhook = note; c.hu = user; c.size = size; c.logp = log;
    try { vf::program_case(c); } catch (vf::Fail const &f) { log->push_back("failed: " + f.msg); }
    for (auto l : c.labs) labels->push_back(l);
    *nontrivial = c.nt;
}
