// C35: programs run by several threads at once, and calls sharing operands, give what they give alone. Built with ThreadSanitizer.
#define VF_MAIN
#include "pool.hpp"
#include "threads.hpp"
using namespace vf;
namespace {
struct Tape { Ctx *c; std::vector<std::pair<uint64_t, uint64_t>> t; size_t pos = 0; bool off = false; };
uint64_t rec(void *u, uint64_t n) { auto f = (Tape *)u; uint64_t v = f->c->draw(n); f->t.push_back({n, v}); return v; }
uint64_t rep(void *u, uint64_t n) { auto s = (Tape *)u; if (s->pos >= s->t.size() || s->t[s->pos].first != n) { s->off = true; return 0; } return s->t[s->pos++].second; }
void pass(void *u, char const *p, size_t n) { ((Tape *)u)->c->raw(p, n); }
void drop(void *, char const *, size_t) {}
void side(Tape &t, bool first, int size, std::vector<std::string> &log, bool *nt) {
    Ctx c; c.dhook = first ? rec : rep; c.nhook = first ? pass : drop; c.hu = &t; c.size = size; c.logp = &log;
    try { program_case(c); } catch (Fail const &f) { log.push_back("failed: " + f.msg); }
    if (nt) *nt = c.nt;
}
// every thread has containers of its own
void programs(Ctx &c) {
    size_t K = 2 + c.draw(3); std::vector<Tape> t(K); std::vector<std::vector<std::string>> want(K); size_t nt = 0;
    for (size_t k = 0; k < K; ++k) { c.note("--- thread " + std::to_string(k)); t[k].c = &c; bool x = false; side(t[k], true, c.size, want[k], &x); nt += x; }
    if (nt >= 2) c.nontrivial();
    std::vector<std::vector<std::string>> got(K); int size = c.size;
    in_threads(K, [&](size_t k) { side(t[k], false, size, got[k], nullptr); });
    for (size_t k = 0; k < K; ++k) for (size_t i = 0; i < want[k].size() || i < got[k].size(); ++i) {
        std::string a = i < want[k].size() ? want[k][i] : "(nothing more)", b = i < got[k].size() ? got[k][i] : "(nothing more)";
        if (a != b) c.fail("thread " + std::to_string(k) + ": alone: " + a + "; beside other threads: " + b); }
}
// every thread makes all the calls, in its own order, on shared operands and masks, with outputs of its own
void shared(Ctx &c) {
    c.intvals = PY::WR; size_t K = 2 + c.draw(3), n = 1 + c.draw(5); bool same = c.boolean();
    std::vector<Call> ks(K); std::vector<MArgs<PY>> as(K); std::vector<std::unique_ptr<Held<PY>>> sh(K); size_t nt = 0;
    for (size_t i = 0; i < K; ++i) {
        if (same) c.sq = n;
        do ks[i].op = (int)c.draw(NUM_OPS); while (same && ks[i].op == KRON); gen_call<PY>(c, ks[i], as[i]);
        if (i && same) {    // the same objects as in call 0
            auto take = [&](auto &x, auto const &y) { if (!x.d.empty() && x.d.size() == y.d.size()) x = y; };
            take(as[i].Am, as[0].Am); take(as[i].Bm, as[0].Bm); take(as[i].Av, as[0].Av); take(as[i].Bv, as[0].Bv); take(as[i].Mm, as[0].Mm); take(as[i].Mv, as[0].Mv); }
        note_call(c, ks[i], as[i]); if (nontrivial_call(ks[i], as[i], model_call<PY>(ks[i], as[i]))) ++nt;
        sh[i] = std::make_unique<Held<PY>>(as[i]); ensure_mask(*sh[i], ks[i]);
        if (i && same) { auto redirect = [&](auto const *&p, auto const &x, auto const &y, auto const *q) { if (p && q && !x.d.empty() && x.d.size() == y.d.size()) p = q; };
            auto &g = sh[i]->args; auto &g0 = sh[0]->args; redirect(g.Am, as[i].Am, as[0].Am, g0.Am); redirect(g.Bm, as[i].Bm, as[0].Bm, g0.Bm); redirect(g.Av, as[i].Av, as[0].Av, g0.Av);
            redirect(g.Bv, as[i].Bv, as[0].Bv, g0.Bv); redirect(g.Mm, as[i].Mm, as[0].Mm, g0.Mm); redirect(g.Mv, as[i].Mv, as[0].Mv, g0.Mv); }
    }
    if (nt >= 2) c.nontrivial(); if (same) c.label("one object in several calls");
    std::vector<std::string> bad(K);
    in_threads(K, [&](size_t t) {
        try { for (size_t j = 0; j < K; ++j) { size_t i = (t + j) % K; Call k = ks[i]; MArgs<PY> mine = as[i]; mine.Am = {}; mine.Bm = {}; mine.Av = {}; mine.Bv = {}; mine.Mm = {}; mine.Mv = {};
            Held<PY> h(mine); h.args.Am = sh[i]->args.Am; h.args.Bm = sh[i]->args.Bm; h.args.Av = sh[i]->args.Av; h.args.Bv = sh[i]->args.Bv; h.args.Mm = sh[i]->args.Mm; h.args.Mv = sh[i]->args.Mv;
            real_call<PY>(k, h.args); Ctx q; check_output(q, k, h, model_call<PY>(k, as[i])); } }
        catch (Fail const &f) { bad[t] = f.msg; } catch (std::exception &e) { bad[t] = std::string("exception ") + e.what(); } });
    for (size_t t = 0; t < K; ++t) if (!bad[t].empty()) c.fail("thread " + std::to_string(t) + ": " + bad[t]);
    for (size_t i = 0; i < K; ++i) sh[i]->inputs_unchanged(c, as[i]);
}
TARGET("programs", programs)
TARGET("shared", shared)
}
