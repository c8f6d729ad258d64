// C42: a program split over several translation units links and does what the same calls do in one unit.
#define VF_MAIN
#include "verif.hpp"
#include <algorithms/algorithms.hpp>
#include <algorithms/appendix_algorithms.hpp>
#include <algorithms/cluster_louvain.hpp>
#include "tu_state.hpp"
#include <spawn.h>
#include <fcntl.h>
#include <fstream>
extern char **environ;
using namespace vf;
#define STR2(x) #x
#define STR(x) STR2(x)
namespace {
struct Op { char const *header, *text; void (*fn)(S &); };
#define OP(h, ...) {h, #__VA_ARGS__, [](S &s) { using namespace grb; (void)s; __VA_ARGS__ }}
using I = grb::IndexArrayType;
Op const ops[] = {
    OP("", mxm(s.C, NoMask(), NoAccumulate(), ArithmeticSemiring<unsigned>(), s.A, s.B);),
    OP("", mxm(s.C, s.M, Plus<unsigned>(), ArithmeticSemiring<unsigned>(), transpose(s.A), s.B);),
    OP("", mxm(s.C, complement(structure(s.M)), NoAccumulate(), MinPlusSemiring<unsigned>(), s.A, transpose(s.B), REPLACE);),
    OP("", mxv(s.w, s.m, NoAccumulate(), ArithmeticSemiring<unsigned>(), s.A, s.u, REPLACE);),
    OP("", vxm(s.u, NoMask(), Plus<unsigned>(), MaxTimesSemiring<unsigned>(), s.w, s.B);),
    OP("", eWiseAdd(s.C, NoMask(), NoAccumulate(), Min<unsigned>(), s.A, s.B);),
    OP("", eWiseMult(s.C, structure(s.M), Second<unsigned>(), Times<unsigned>(), s.A, s.C);),
    OP("", eWiseAdd(s.w, complement(s.m), NoAccumulate(), Plus<unsigned>(), s.u, s.w);),
    OP("", apply(s.A, NoMask(), NoAccumulate(), AdditiveInverse<unsigned>(), s.C);),
    OP("", apply(s.w, NoMask(), NoAccumulate(), std::bind(Times<unsigned>(), 3, std::placeholders::_1), s.u);),
    OP("", reduce(s.w, NoMask(), NoAccumulate(), PlusMonoid<unsigned>(), s.A);),
    OP("", unsigned v = 1; reduce(v, Plus<unsigned>(), MaxMonoid<unsigned>(), s.B); s.x += v;),
    OP("", Vector<unsigned> t(2); extract(t, NoMask(), NoAccumulate(), s.u, IndexArrayType{3, 1}); s.log += "|" + std::to_string(t.nvals());),
    OP("", extract(s.C, NoMask(), NoAccumulate(), s.A, AllIndices(), IndexArrayType{1, 1, 3, 0});),
    OP("", assign(s.C, NoMask(), NoAccumulate(), s.A, AllIndices(), AllIndices());),
    OP("", assign(s.w, NoMask(), NoAccumulate(), 7, IndexArrayType{2, 0});),
    OP("", assign(s.B, s.M, Plus<unsigned>(), 2, AllIndices(), IndexSequenceRange(1, 3), REPLACE);),
    OP("", transpose(s.B, NoMask(), NoAccumulate(), s.A);),
    OP("", Matrix<unsigned> k(16, 16); kronecker(k, NoMask(), NoAccumulate(), Times<unsigned>(), s.A, s.B); s.x += k.nvals();),
    OP("", auto v = getVersion(); s.log += "|" + std::to_string(std::get<0>(v)) + "." + std::to_string(std::get<1>(v));),
    OP("", init(); wait(s.A);),
    OP("", std::ostringstream o; o << AllIndices() << " " << REPLACE << " " << s.u; print_matrix(o, s.A, "A"); print_vector(o, s.w, "w"); s.log += "|" + std::to_string(o.str().size());),
    OP("", Matrix<unsigned> t(3, 4); mxm(t, NoMask(), NoAccumulate(), ArithmeticSemiring<unsigned>(), s.A, s.B);),
    OP("", s.x += s.u.extractElement(2);),
    OP("", s.w.setElement(9, 1);),
    OP("", Vector<unsigned> t(3); extract(t, NoMask(), NoAccumulate(), s.u, IndexArrayType{0, 1, 8});),
    OP("", Matrix<unsigned> L(4, 4); Matrix<unsigned> U(4, 4); split(s.A, L, U); s.B = L; s.C = U;),
    OP("", s.A = scaled_identity<Matrix<unsigned>>(4, 3);),
    OP("", s.B = diag<Matrix<unsigned>>(s.u);),
    OP("", normalize_rows(s.W);),
    OP("bfs", Vector<IndexType> l(4); algorithms::bfs_level(s.W, IndexType(0), l); s.x += l.nvals();),
    OP("sssp", Vector<double> d(4); d.setElement(0, 0); algorithms::sssp(s.W, d); for (IndexType i = 0; i < 4; ++i) if (d.hasElement(i)) s.x += d.extractElement(i);),
    OP("apsp", auto D = algorithms::apsp(s.W); s.x += D.nvals();),
    OP("triangle_count", s.x += algorithms::triangle_count(s.A);),
    OP("metrics", s.x += algorithms::vertex_degree(s.A, 1);),
    OP("page_rank", Vector<double> p(4); algorithms::page_rank(s.W, p); s.log += "|" + std::to_string((int)(p.extractElement(0) * 1000 + 0.5));),
    OP("mis", Matrix<unsigned> g(4, 4); g.setElement(0, 1, 1); g.setElement(1, 0, 1); Vector<bool> v(4); algorithms::mis(g, v, 7.0); s.x += v.nvals();),
    OP("mst", Matrix<double> g(2, 2); g.setElement(0, 1, 3); g.setElement(1, 0, 3); Vector<IndexType> p(2); s.x += algorithms::mst(g, p);),
    OP("maxflow", Matrix<double> g(s.W); s.x += algorithms::maxflow_ford_fulk(g, 0, 3);),
    OP("bc", Matrix<unsigned> g(3, 3); g.setElement(0, 1, 1); g.setElement(1, 2, 1); auto v = algorithms::vertex_betweenness_centrality(g); s.x += v.size();),
    OP("cluster", auto K = algorithms::peer_pressure_cluster(s.W, 5); s.x += K.nvals();),
};
constexpr size_t NOPS = sizeof ops / sizeof *ops;
char const *const heads[] = {"algorithms", "appendix_algorithms", "apsp", "bc", "bfs", "cluster", "cluster_louvain", "k_truss", "maxflow", "metrics", "mis", "mst", "page_rank", "sssp", "triangle_count"};
std::string env(char const *n, char const *d) { char const *v = getenv(n); return v && *v ? v : d; }
// runs a program; -1 when it could not be started or was killed
int exec(std::vector<std::string> const &a, std::string const &outf) {
    std::vector<char *> v; for (auto &x : a) v.push_back((char *)x.c_str()); v.push_back(nullptr);
    posix_spawn_file_actions_t f; posix_spawn_file_actions_init(&f); posix_spawn_file_actions_addopen(&f, 1, outf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_adddup2(&f, 1, 2);
    pid_t p; int e = posix_spawnp(&p, v[0], &f, nullptr, v.data(), environ); posix_spawn_file_actions_destroy(&f); if (e) return -1;
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
std::string slurp(std::string const &p) { std::ifstream i(p); std::ostringstream o; o << i.rdbuf(); return o.str(); }
void units(Ctx &c) {
    size_t k = 1 + c.draw(3), steps = 2 + c.draw(7); unsigned long seed = 1 + c.draw(1000000);   // units besides the one with main
    std::vector<std::string> src(k + 1); std::vector<size_t> comp(k + 1), cnt(k + 1); struct Step { size_t op, unit; }; std::vector<Step> st(steps);
    std::vector<std::vector<std::string>> need(k + 1);
    for (auto &x : st) { x.op = c.draw(NOPS); x.unit = c.draw(k + 1); ++cnt[x.unit]; if (*ops[x.op].header) need[x.unit].push_back(ops[x.op].header); }
    for (size_t i = 0; i <= k; ++i) {
        std::vector<std::string> inc = need[i]; for (size_t e = c.draw(3); e > 0; --e) inc.push_back(heads[c.draw(sizeof heads / sizeof *heads)]);
        inc.insert(inc.begin() + (long)c.draw(inc.size() + 1), "");
        for (size_t a = inc.size(); a > 1; --a) std::swap(inc[a - 1], inc[a - 1 - c.draw(a)]);
        for (auto &h : inc) src[i] += h.empty() ? "#include <graphblas/graphblas.hpp>\n" : "#include <algorithms/" + h + ".hpp>\n";
        src[i] += "#include \"tu_state.hpp\"\n"; comp[i] = c.draw(8); if (comp[i] > 3) comp[i] %= 2;
    }
    std::string proto, calls;
    for (size_t s = 0; s < steps; ++s) {
        std::string f = "step" + std::to_string(s); src[st[s].unit] += "void " + f + "(S &s) { using namespace grb; (void)s; " + ops[st[s].op].text + " }\n";
        proto += "void " + f + "(S &);\n"; calls += "    tu_step(s, " + f + ");\n"; }
    src[0] += proto + "#include <cstdio>\nint main() {\n    S s; tu_init(s, " + std::to_string(seed) + "ul);\n" + calls + "    std::puts(tu_text(s).c_str());\n    return 0;\n}\n";
    static char const *const cs[] = {"clang++ -O0", "g++ -O0", "clang++ -O1", "g++ -O1"};
    size_t used = 0; for (size_t i = 0; i <= k; ++i) { c.note("// unit " + std::to_string(i) + ", " + cs[comp[i]] + "\n" + src[i]); used += i == 0 || cnt[i]; }
    if (used >= 2) c.nontrivial(); static char const *const lab[] = {"1 unit", "2 units", "3 units", "4 units"}; c.label(lab[k]);
    // the same calls in this one unit
    S s; tu_init(s, seed); for (auto &x : st) tu_step(s, ops[x.op].fn);
    std::string want = tu_text(s), dir = env("TMPDIR", "/tmp") + "/vfXXXXXX"; if (!mkdtemp(dir.data())) throw Discard{};
    struct Rm { std::string d; size_t k; ~Rm() { for (size_t i = 0; i <= k; ++i) { std::string b = d + "/u" + std::to_string(i); unlink((b + ".cpp").c_str()); unlink((b + ".o").c_str()); } unlink((d + "/out").c_str()); unlink((d + "/prog").c_str()); rmdir(d.c_str()); } } rm{dir, k};
    std::string repo = env("GBTL_REPO", "/repo"), har = __FILE__; har = har.substr(0, har.rfind('/')); std::vector<std::string> link{"clang++"};
    auto tool = [&](std::vector<std::string> const &a, char const *what) {
        for (int t = 0; t < 2; ++t) { int r = exec(a, dir + "/out"); if (r == 0) return;
            std::string o = slurp(dir + "/out"); size_t e = o.find("error"), d = o.find("multiple definition"); if (e == std::string::npos && d == std::string::npos) continue;   // the tool was ended or could not write: not an answer
            if (o.find("No space left") != std::string::npos || o.find("Killed") != std::string::npos) continue;
            c.fail(std::string(what) + ": " + o.substr(d != std::string::npos ? o.rfind('\n', d) + 1 : e > 80 ? e - 80 : 0, 400)); }
        throw Discard{}; };
    for (size_t i = 0; i <= k; ++i) {
        std::string b = dir + "/u" + std::to_string(i); { std::ofstream o(b + ".cpp"); o << src[i]; }
        tool({comp[i] % 2 ? "g++" : "clang++", "-std=gnu++17", comp[i] / 2 ? "-O1" : "-O0", "-w", "-c", "-I" + repo + "/src", "-I" + repo + "/src/graphblas/platforms/" STR(BE), "-I" + har, b + ".cpp", "-o", b + ".o"}, ("unit " + std::to_string(i) + " does not compile").c_str());
        link.push_back(b + ".o");
    }
    link.push_back("-o"); link.push_back(dir + "/prog"); tool(link, "the units do not link");
    int r = exec({dir + "/prog"}, dir + "/out"); std::string got = slurp(dir + "/out"); while (!got.empty() && got.back() == '\n') got.pop_back();
    if (r < 0 && got.empty()) { r = exec({dir + "/prog"}, dir + "/out"); got = slurp(dir + "/out"); while (!got.empty() && got.back() == '\n') got.pop_back(); }
    if (r != 0) c.fail("the program ends with status " + std::to_string(r));
    if (got != want) c.fail("split over units the program gives\n" + got + "\nin one unit\n" + want);
}
TARGET("units", units)
}
