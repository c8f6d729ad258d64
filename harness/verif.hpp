// Property-based testing engine: every generated case is a sequence of bounded
// integer choices.  Cases run in a forked worker; a failure (oracle mismatch,
// unexpected exception, sanitizer report, crash, CPU-time overrun) is shrunk on
// the choice sequence with one forked process per candidate.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <optional>
#include <algorithm>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <typeinfo>
#include <limits>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

namespace vf {

struct Fail { std::string msg; };
struct Discard {};

constexpr size_t MAXCH = 1u << 17;
constexpr size_t MAXDESC = 1u << 18;
constexpr size_t MAXLAB = 400;
constexpr size_t MAXHASH = 1u << 21;

struct Label { char name[56]; uint64_t n; };

struct Shared {
    uint32_t status;            // 0 running, 1 passed, 2 failed, 3 discarded
    uint32_t nch;
    uint64_t ch[MAXCH];
    uint32_t ndesc;
    char desc[MAXDESC];
    char msg[8192];
    // statistics of the worker
    uint64_t cur, evals, discards, nontriv, nhash;
    uint32_t nsamp, nlab;
    char samp[4][6000];
    Label lab[MAXLAB];
    uint64_t hash[MAXHASH];
};

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
inline uint64_t hstr(char const *p, size_t n, uint64_t h = 1469598103934665603ull) {
    for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; }
    return h;
}

struct Ctx {
    Shared *sh = nullptr;
    std::vector<uint64_t> const *replay = nullptr;
    size_t pos = 0;
    uint64_t rng = 0;
    bool nt = false;
    std::vector<std::string> *logp = nullptr;  // when set, log() appends here
    std::vector<char const *> labs;
    bool quiet = false;
    int size = 0;                               // 0 small, 1 larger, 2 one or two dimensions in the hundreds or thousands
    unsigned nbig = 0;                          // dimensions of the last kind so far
    size_t sq = 0;                              // when set, every generated dimension
    bool bigvals = false, big = true;           // 64-bit values past 2^32; large dimensions now and then
    bool intvals = false;                       // floating values restricted to integers
    uint8_t const *fz = nullptr; size_t fzn = 0;
    uint64_t (*dhook)(void *, uint64_t) = nullptr; void (*nhook)(void *, char const *, size_t) = nullptr; void *hu = nullptr;  // choices and notes of another context

    // One choice in [0,n); 0 is the simplest.
    uint64_t draw(uint64_t n) {
        if (n == 0) n = 1;
        if (dhook) return dhook(hu, n);
        uint64_t v;
        if (replay) { v = pos < replay->size() ? (*replay)[pos] : 0; if (v >= n) v %= n; }
        else if (fz) {
            v = 0;
            if (n > 1 && fzn) {
                v = *fz++; --fzn;
                if (n > 256 && fzn) { v = v << 8 | *fz++; --fzn; if (n > 65536 && fzn) { v = v << 8 | *fz++; --fzn; } }
                v %= n;
            }
        }
        else { rng = mix(rng); v = n <= 1 ? 0 : (uint64_t)(((unsigned __int128)rng * n) >> 64); }
        if (pos < MAXCH) { sh->ch[pos] = v; sh->nch = (uint32_t)(pos + 1); }
        else throw Discard{};
        ++pos;
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo + 1)); }
    bool boolean() { return draw(2) != 0; }
    // true with probability num/den; 0 (simplest) means false
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
    template<class T> T const &pick(std::vector<T> const &l) { return l[draw(l.size())]; }

    void raw(char const *p, size_t n) {
        if (nhook) { nhook(hu, p, n); return; }
        size_t room = MAXDESC - 1 - sh->ndesc; if (n > room) n = room;
        memcpy(sh->desc + sh->ndesc, p, n); sh->ndesc += (uint32_t)n; sh->desc[sh->ndesc] = 0;
    }
    void note(std::string const &s) { raw(s.data(), s.size()); raw("\n", 1); }
    void label(char const *l) { labs.push_back(l); }
    void nontrivial() { nt = true; }
    void log(std::string s) { if (logp) logp->push_back(std::move(s)); }
    [[noreturn]] void fail(std::string const &m) { throw Fail{m}; }
    void check(bool b, std::string const &m) { if (!b) throw Fail{m}; }
};

using Fn = void (*)(Ctx &);
struct Target { std::string name; Fn fn; };
inline std::vector<Target> &targets() { static std::vector<Target> t; return t; }
struct Reg { Reg(char const *n, Fn f) { targets().push_back({n, f}); } };
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define TARGET(name, fn) static ::vf::Reg VF_CAT(vf_reg_, __COUNTER__){name, fn};

// ---------------------------------------------------------------- running
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

inline double &cpu_limit() { static double v = 20; return v; }
inline int &size_level() { static int v = 0; return v; }
inline void arm_cpu(double s) {
    itimerval it{}; it.it_value.tv_sec = (long)s; it.it_value.tv_usec = (long)((s - (double)(long)s) * 1e6);
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

#ifdef VF_LOG      // counts what the library writes to the standard streams
} // namespace vf
#include <iostream>
namespace vf {
struct CountBuf : std::streambuf { size_t n = 0; int overflow(int ch) override { ++n; return ch == EOF ? 0 : ch; } std::streamsize xsputn(char const *, std::streamsize k) override { n += (size_t)k; return k; } };
inline size_t &written() { static CountBuf *b = [] { auto *x = new CountBuf; std::cout.rdbuf(x); std::cerr.rdbuf(x); std::clog.rdbuf(x); return x; }(); return b->n; }
#endif
// Runs one case in this process. Fills status/msg.
inline void run_one(Fn fn, Ctx &c) {
    Shared *sh = c.sh;
    sh->status = 0; sh->nch = 0; sh->ndesc = 0; sh->desc[0] = 0; sh->msg[0] = 0;
    c.pos = 0; c.nt = false; c.labs.clear(); c.sq = 0; c.intvals = c.bigvals = false; c.big = true; c.nbig = 0;
    arm_cpu(cpu_limit());
    auto setmsg = [&](std::string const &m) { snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str()); };
#ifdef VF_LOG
    written() = 0; off_t const o1 = lseek(1, 0, SEEK_CUR), o2 = lseek(2, 0, SEEK_CUR);
    auto used = [&] { fflush(stdout); return written() || lseek(1, 0, SEEK_CUR) != o1 || lseek(2, 0, SEEK_CUR) != o2; };
    try { fn(c); sh->status = 1; if (!GRAPHBLAS_LOGGING_LEVEL && used()) { setmsg("the call writes to a standard stream although logging is off"); sh->status = 2; } if (written()) c.label("logged"); }
#else
    try { fn(c); sh->status = 1; }
#endif
    catch (Fail &f) { setmsg(f.msg); sh->status = 2; }
    catch (Discard &) { sh->status = 3; }
    catch (std::exception &e) { setmsg(std::string("unexpected exception ") + typeid(e).name() + ": " + e.what()); sh->status = 2; }
    catch (...) { setmsg("unexpected exception of unknown type"); sh->status = 2; }
    arm_cpu(0);
}

struct Outcome { bool failed = false; bool discarded = false; std::string kind, msg, desc; std::vector<uint64_t> ch; };

inline int err_fd() { static int fd = memfd_create("vferr", 0); return fd; }

inline std::string read_err() {
    int fd = err_fd(); off_t n = lseek(fd, 0, SEEK_END); if (n <= 0) return "";
    size_t m = (size_t)std::min<off_t>(n, 6000); std::string s(m, 0);
    ssize_t k = pread(fd, &s[0], m, 0); s.resize(k > 0 ? (size_t)k : 0); return s;
}
inline void child_setup() {
    (void)!ftruncate(err_fd(), 0); lseek(err_fd(), 0, SEEK_SET);
}
inline void child_enter() {
    dup2(err_fd(), 2); 
#ifdef VF_LOG
    int nul = memfd_create("vfout", 0);
#else
    int nul = ::open("/dev/null", 1);
#endif
     if (nul >= 0) { dup2(nul, 1); close(nul); }
    rlimit r{0, 0}; setrlimit(RLIMIT_CORE, &r);
    setpgid(0, 0);
}
inline std::string crash_kind(int st, std::string const &err) {
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGVTALRM || s == SIGKILL) return s == SIGVTALRM ? "hang (CPU limit per case exceeded)" : "killed";
        return std::string("signal ") + strsignal(s);
    }
    size_t p = err.find("runtime error:"); if (p != std::string::npos) { size_t e = err.find('\n', p); return "sanitizer: " + err.substr(p, e - p); }
    p = err.find("ERROR: AddressSanitizer"); if (p != std::string::npos) { size_t e = err.find('\n', p); return "sanitizer: " + err.substr(p, e - p); }
    p = err.find("WARNING: ThreadSanitizer"); if (p != std::string::npos) { size_t e = err.find_first_of("(\n", p); return "sanitizer: " + err.substr(p, e - p); }
    p = err.find("Assertion"); if (p != std::string::npos) { size_t e = err.find('\n', p); return "assertion: " + err.substr(p, e - p); }
    return "process exited with status " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1) + " " + err.substr(0, 300);
}


inline Outcome collect(Shared *sh, int st) {
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && (sh->status == 1 || sh->status == 3)) { o.discarded = sh->status == 3; }
    else {
        o.failed = true;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->status == 2) { o.kind = "oracle"; o.msg = sh->msg; }
        else { std::string e = read_err(); o.kind = "crash"; o.msg = crash_kind(st, e); }
    }
    o.desc.assign(sh->desc, sh->ndesc);
    o.ch.assign(sh->ch, sh->ch + sh->nch);
    return o;
}

inline Outcome eval_forked(Fn fn, Shared *sh, std::vector<uint64_t> const &ch) {
    sh->status = 0; sh->nch = 0; sh->ndesc = 0;
    child_setup(); fflush(stdout);
    pid_t p = fork();
    if (p == 0) { child_enter(); Ctx c; c.sh = sh; c.size = size_level(); c.replay = &ch; run_one(fn, c); _exit(0); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return collect(sh, st);
}

inline bool smaller(std::vector<uint64_t> const &a, std::vector<uint64_t> const &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

inline Outcome shrink(Fn fn, Shared *sh, Outcome best, double budget_s, int &evals) {
    double t0 = now(); evals = 0;
    auto ok = [&]() { return now() - t0 < budget_s && evals < 4000; };
    auto tryit = [&](std::vector<uint64_t> const &c) {
        ++evals; Outcome o = eval_forked(fn, sh, c);
        if (o.failed && o.kind == best.kind && smaller(o.ch, best.ch)) { best = std::move(o); return true; }
        return false;
    };
    bool progress = true;
    while (progress && ok()) {
        progress = false;
        for (size_t k : {64u, 16u, 8u, 4u, 3u, 2u, 1u}) {
            if (k > best.ch.size()) continue;
            for (size_t i = best.ch.size(); i-- > 0 && ok();) {
                if (i + k > best.ch.size()) continue;
                auto c = best.ch; c.erase(c.begin() + (long)i, c.begin() + (long)(i + k));
                if (tryit(c)) { progress = true; continue; }
                if (i > 0 && c.size() >= i && c[i - 1] > 0) {     // deleting an element of a counted list
                    --c[i - 1]; if (tryit(c)) progress = true;
                }
            }
        }
        for (size_t i = 0; i < best.ch.size() && ok(); ++i) {
            if (best.ch[i] == 0) continue;
            auto c = best.ch; c[i] = 0; if (tryit(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = best.ch[i];
            while (lo + 1 < hi && ok()) {
                uint64_t mid = lo + (hi - lo) / 2; c = best.ch; if (i >= c.size()) break; c[i] = mid;
                if (tryit(c)) { progress = true; hi = mid; } else lo = mid;
            }
        }
    }
    return best;
}

inline std::string jstr(std::string const &s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"') r += "\\\""; else if (ch == '\\') r += "\\\\"; else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; } else r += (char)ch;
    }
    return r + "\"";
}

inline uint64_t case_seed(uint64_t seed, std::string const &t, uint64_t idx) {
    return mix(mix(seed * 0x9e3779b97f4a7c15ull + 77) ^ hstr(t.data(), t.size()) ^ mix(idx + 1));
}

inline int vf_main(int argc, char **argv) {
    std::map<std::string, std::string> a; std::string cmd = argc > 1 ? argv[1] : "list";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    if (cmd == "list") { for (auto &t : targets()) printf("%s\n", t.name.c_str()); return 0; }
    if (cmd == "merge") {      // distinct hashes over the files named on stdin
        std::vector<uint64_t> v; char line[4096];
        while (fgets(line, sizeof line, stdin)) { line[strcspn(line, "\n")] = 0; FILE *f = fopen(line, "rb"); if (!f) continue; uint64_t b[4096]; size_t n; while ((n = fread(b, 8, 4096, f)) > 0) v.insert(v.end(), b, b + n); fclose(f); }
        std::sort(v.begin(), v.end()); printf("%zu\n", (size_t)(std::unique(v.begin(), v.end()) - v.begin())); return 0;
    }
    Fn fn = nullptr; std::string tn = a["--target"];
    for (auto &t : targets()) if (t.name == tn) fn = t.fn;
    if (!fn) { fprintf(stderr, "no target %s\n", tn.c_str()); return 3; }
    if (a.count("--size")) size_level() = atoi(a["--size"].c_str());
    if (a.count("--cpu")) cpu_limit() = atof(a["--cpu"].c_str());
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 3; }
    if (cmd == "replay") {
        std::vector<uint64_t> ch; std::istringstream is(a["--choices"]); uint64_t v; while (is >> v) ch.push_back(v);
        Outcome o = eval_forked(fn, sh, ch);
        printf("{\"failed\":%s,\"kind\":%s,\"msg\":%s,\"desc\":%s,\"stderr\":%s}\n", o.failed ? "true" : "false",
               jstr(o.kind).c_str(), jstr(o.msg).c_str(), jstr(o.desc).c_str(), jstr(o.failed && o.kind == "crash" ? read_err() : "").c_str());
        return o.failed ? 1 : 0;
    }
    uint64_t seed = strtoull(a["--seed"].c_str(), nullptr, 10), start = strtoull(a["--start"].c_str(), nullptr, 10),
             count = strtoull(a["--count"].c_str(), nullptr, 10);
    uint64_t stride = a.count("--stride") ? strtoull(a["--stride"].c_str(), nullptr, 10) : 1;
    double cap = a.count("--cap") ? atof(a["--cap"].c_str()) : 1e9; double t0 = now();
    double shrink_s = a.count("--shrink") ? atof(a["--shrink"].c_str()) : 45;
    child_setup(); fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        child_enter();
        Ctx c; c.sh = sh; c.size = size_level();
        for (uint64_t i = 0; i < count; ++i) {
            uint64_t idx = start + i * stride; sh->cur = idx;
            c.rng = case_seed(seed, tn, idx);
            run_one(fn, c);
            if (sh->status == 2) _exit(0);
            if (sh->status == 3) { ++sh->discards; continue; }
            ++sh->evals;
            if (c.nt) {
                ++sh->nontriv;
                if (sh->nhash < MAXHASH) sh->hash[sh->nhash++] = hstr(sh->desc, sh->ndesc);
                if (sh->nsamp < 4 && (sh->nontriv == 1 || sh->nontriv == 40 || sh->nontriv == 300 || sh->nontriv == 1000)) {
                    snprintf(sh->samp[sh->nsamp], sizeof sh->samp[0], "%s", sh->desc); ++sh->nsamp;
                }
            }
            for (auto l : c.labs) {
                uint32_t k = 0; for (; k < sh->nlab; ++k) if (!strncmp(sh->lab[k].name, l, 55)) break;
                if (k == sh->nlab) { if (k == MAXLAB) continue; snprintf(sh->lab[k].name, 56, "%s", l); sh->nlab++; }
                ++sh->lab[k].n;
            }
            if ((i & 63) == 0 && now() - t0 > cap) break;
        }
        _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Outcome o = collect(sh, st);
    // statistics
    std::string js = "{\"evals\":" + std::to_string(sh->evals) + ",\"discards\":" + std::to_string(sh->discards) +
        ",\"nontriv\":" + std::to_string(sh->nontriv) + ",\"labels\":{";
    for (uint32_t k = 0; k < sh->nlab; ++k) js += (k ? "," : "") + jstr(sh->lab[k].name) + ":" + std::to_string(sh->lab[k].n);
    js += "},\"samples\":[";
    for (uint32_t k = 0; k < sh->nsamp; ++k) js += (k ? "," : "") + jstr(sh->samp[k]);
    js += "]";
    if (a.count("--hashes")) { FILE *f = fopen(a["--hashes"].c_str(), "wb"); if (f) { fwrite(sh->hash, 8, sh->nhash, f); fclose(f); } }
    js += ",\"wall\":" + std::to_string(now() - t0);
    if (o.failed) {
        uint64_t idx = sh->cur; Outcome orig = o; int ev = 0;
        // must reproduce from the recorded choices alone
        int rep = 0; Outcome r; for (int i = 0; i < 5 && !rep; ++i) { r = eval_forked(fn, sh, orig.ch); if (r.failed) ++rep; }
        if (rep) o = shrink(fn, sh, r, shrink_s, ev);
        int again = 0; for (int i = 0; i < 3; ++i) { Outcome q = eval_forked(fn, sh, o.ch); again += q.failed; }
        if (rep && again < 3) { o = r; again = 0; for (int i = 0; i < 3; ++i) { Outcome q = eval_forked(fn, sh, o.ch); again += q.failed; } }
        js += ",\"failure\":{\"idx\":" + std::to_string(idx) + ",\"kind\":" + jstr(o.kind) + ",\"msg\":" + jstr(o.msg) +
            ",\"desc\":" + jstr(o.desc) + ",\"reproduced\":" + std::to_string(again) + ",\"shrink_evals\":" + std::to_string(ev) +
            ",\"original_len\":" + std::to_string(orig.ch.size()) + ",\"choices\":[";
        for (size_t i = 0; i < o.ch.size(); ++i) js += (i ? "," : "") + std::to_string(o.ch[i]);
        js += "]}";
    }
    js += "}";
    FILE *f = a.count("--out") ? fopen(a["--out"].c_str(), "w") : stdout;
    if (!f) return 3;
    fprintf(f, "%s\n", js.c_str()); if (f != stdout) fclose(f);
    return o.failed ? 1 : 0;
}
} // namespace vf

#ifdef VF_MAIN
extern "C" __attribute__((used, visibility("default"))) char const *__asan_default_options() {
    return "detect_leaks=0:exitcode=77:hard_rss_limit_mb=3500:detect_odr_violation=0:allocator_may_return_null=0:handle_abort=0:symbolize=0:print_legend=0:max_allocation_size_mb=2000";
}
extern "C" __attribute__((used, visibility("default"))) char const *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }
extern "C" __attribute__((used, visibility("default"))) char const *__tsan_default_options() { return "halt_on_error=1:exitcode=77:symbolize=0:report_thread_leaks=0"; }
int main(int argc, char **argv) { return vf::vf_main(argc, argv); }
#endif
