// C18: the same program on both back ends, outcome and every container compared after every step.
#define VF_MAIN
#include "verif.hpp"
using namespace vf;
using SideFn = void(void *, uint64_t (*)(void *, uint64_t), void (*)(void *, char const *, size_t), int, std::vector<std::string> *, std::vector<std::string> *, bool *);
extern "C" SideFn side_seq, side_opt;
namespace {
struct First { Ctx *c; std::vector<std::pair<uint64_t, uint64_t>> taken; };
struct Second { std::vector<std::pair<uint64_t, uint64_t>> const *given; size_t pos = 0; bool off = false; };
uint64_t draw1(void *u, uint64_t n) { auto f = (First *)u; uint64_t v = f->c->draw(n); f->taken.push_back({n, v}); return v; }
uint64_t draw2(void *u, uint64_t n) { auto s = (Second *)u; if (s->pos >= s->given->size() || (*s->given)[s->pos].first != n) { s->off = true; return 0; } return (*s->given)[s->pos++].second; }
void note1(void *u, char const *p, size_t n) { ((First *)u)->c->raw(p, n); }
void note2(void *, char const *, size_t) {}
void program(Ctx &c) {
    First f{&c, {}}; std::vector<std::string> l1, l2, b1, b2; bool n1 = false, n2 = false;
    side_seq(&f, draw1, note1, c.size, &l1, &b1, &n1);
    Second s{&f.taken}; side_opt(&s, draw2, note2, c.size, &l2, &b2, &n2);
    for (size_t i = 0; i < l1.size() || i < l2.size(); ++i) {
        std::string a = i < l1.size() ? l1[i] : "(nothing more)", b = i < l2.size() ? l2[i] : "(nothing more)";
        if (a != b) { std::string where; for (size_t k = i; k-- > 0;) if (l1[k].rfind("step", 0) == 0) { where = " after " + l1[k]; break; } c.fail("the back ends differ" + where + ": sequential: " + a + "; optimized_sequential: " + b); }
    }
    if (s.off) c.fail("the back ends differ: the runs took different choices");
    static std::set<std::string> names; for (auto &x : b1) c.label(names.insert(x).first->c_str());
    if (n1) c.nontrivial();
}
TARGET("program", program)
}
