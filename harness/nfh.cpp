#include "nfh.hpp"

#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <mutex>

#include <exception>
#include <typeinfo>

__attribute__((weak)) void harnessInit() {}
__attribute__((weak)) void harnessCaseEnd() {}

namespace H
{
namespace
{
struct Glob
{
    std::mutex m;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, double> maxima;
    std::map<std::string, std::set<uint64_t>> sets;
    std::vector<std::string> samples;
    std::set<uint64_t> sigs;
    std::set<std::string> known;
    std::atomic<uint64_t> checks {0};
    int progressFd = -1;
    uint64_t cases = 0;
};
Glob& G()
{
    static Glob* g = new Glob;
    return *g;
}
Ctx* theCtx = nullptr;
std::string esc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += (char)c;
        }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) o += '?';
        else o += (char)c;
    }
    return o;
}
}
Ctx& ctx() { return *theCtx; }
void note(const std::string& s) { ctx().notes += (ctx().notes.empty() ? "" : "; ") + s; }
void sig(uint64_t v)
{
    ctx().trivial = false;
    ctx().sig = (ctx().sig ^ v) * 1099511628211ull;
    ctx().sig ^= ctx().sig >> 29;
}
void sig(const std::string& v)
{
    for (unsigned char c : v) sig((uint64_t)c);
}
void count(const char* n, uint64_t k)
{
    std::lock_guard<std::mutex> l(G().m);
    G().counters[n] += k;
}
void maxi(const char* n, double v)
{
    std::lock_guard<std::mutex> l(G().m);
    auto& x = G().maxima[n];
    if (v > x) x = v;
}
void seen(const char* s, uint64_t v)
{
    std::lock_guard<std::mutex> l(G().m);
    auto& x = G().sets[s];
    if (x.size() < 400000) x.insert(v);
}
void sample(const std::string& s)
{
    std::lock_guard<std::mutex> l(G().m);
    if (G().samples.size() < 6) G().samples.push_back(s);
}
bool knownFinding(const std::string& id)
{
    const char* e = getenv("NFM_KNOWN");
    std::string l = std::string(",") + (e ? e : "") + ",";
    if (l.find("," + id + ",") == std::string::npos) return false;
    std::lock_guard<std::mutex> g(G().m);
    G().known.insert(id);
    return true;
}
void checked(uint64_t n) { G().checks.fetch_add(n, std::memory_order_relaxed); }
void fail(const std::string& msg, const char* file, int line)
{
    const char* b = strrchr(file, '/');
    std::fflush(stdout);
    std::fprintf(
        stderr,
        "\nCHECK-FAILED: %s\n  at %s:%d\n  case %zu seed %llu: %s\n",
        msg.c_str(),
        b ? b + 1 : file,
        line,
        theCtx ? theCtx->index : 0,
        theCtx ? (unsigned long long)theCtx->seed : 0ull,
        theCtx ? theCtx->notes.c_str() : ""
    );
    std::fflush(stderr);
    _exit(65);
}

ExitResult inChild(const std::function<void()>& f, int timeoutSec)
{
    ExitResult r;
    int p[2];
    if (pipe(p) != 0) _exit(97);
    std::fflush(stdout);
    std::fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) _exit(97);
    if (pid == 0)
    {
        if (onChild) onChild();
        ::close(p[0]);
        dup2(p[1], 2);
        dup2(p[1], 1);
        alarm((unsigned)timeoutSec);
        int code = 0;
        try
        {
            f();
        }
        catch (const std::exception& e)
        {
            std::string m = std::string("EXCEPTION ") + typeid(e).name() + ": " + e.what() + "\n";
            (void)!write(2, m.data(), m.size());
            code = 99;
        }
        std::fflush(stdout);
        _exit(code);
    }
    ::close(p[1]);
    char buf[4096];
    for (;;)
    {
        ssize_t n = read(p[0], buf, sizeof buf);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) break;
        if (r.err.size() < 200000) r.err.append(buf, (std::size_t)n);
    }
    ::close(p[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st))
    {
        r.exited = true;
        r.code = WEXITSTATUS(st);
    }
    else if (WIFSIGNALED(st)) r.signal = WTERMSIG(st);
    return r;
}
} // namespace H

// leak detection after every case, when the group asks for it (ASAN_OPTIONS=detect_leaks=1, NFM_LEAKS=1)
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define NFM_LSAN 1
#endif
#endif
#ifdef NFM_LSAN
#include <sanitizer/lsan_interface.h>
static bool leakChecksOff = true;
extern "C" int __lsan_is_turned_off() { return leakChecksOff; }
// can this environment run the leak checker at all?
static bool leakCheckWorks()
{
    auto pid = fork();
    if (pid == 0)
    {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 2);
        leakChecksOff = false;
        auto* volatile p = new std::uintptr_t[64];
        const_cast<std::uintptr_t* volatile&>(p) = nullptr;
        _exit(__lsan_do_recoverable_leak_check() ? 7 : 8);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return WIFEXITED(st) && (WEXITSTATUS(st) == 7 || WEXITSTATUS(st) == 8);
}
static void leakCheck()
{
    leakChecksOff = false;
    bool leaked = __lsan_do_recoverable_leak_check();
    leakChecksOff = true;
    if (!leaked)
    {
        H::count("leak checks");
        return;
    }
    auto* c = H::theCtx;
    std::fprintf(stderr, "\nmemory is leaked\n  case %zu seed %llu: %s\n", c->index, (unsigned long long)c->seed, c->notes.substr(0, 1500).c_str());
    std::fflush(nullptr);
    _exit(67);
}
#endif

// usage: prog --seed S --first A --count N [--thorough] [--out FILE] [--progress FILE]
int main(int argc, char** argv)
{
    using namespace H;
    uint64_t seed = 1;
    std::size_t first = 0, n = 10;
    bool thorough = false;
    const char *out = nullptr, *progress = nullptr;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nextArg = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") seed = strtoull(nextArg(), nullptr, 10);
        else if (a == "--first") first = strtoull(nextArg(), nullptr, 10);
        else if (a == "--count") n = strtoull(nextArg(), nullptr, 10);
        else if (a == "--thorough") thorough = true;
        else if (a == "--out") out = nextArg();
        else if (a == "--progress") progress = nextArg();
    }
    if (progress) G().progressFd = ::open(progress, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    harnessInit();
#ifdef NFM_LSAN
    bool leaks = getenv("NFM_LEAKS") && leakCheckWorks();
#endif
    for (std::size_t k = first; k < first + n; ++k)
    {
        if (G().progressFd >= 0)
        {
            char b[64];
            int l = snprintf(b, sizeof b, "%-20zu\n", k);
            (void)!pwrite(G().progressFd, b, (size_t)l, 0);
        }
        Ctx c;
        c.seed = seed;
        c.index = k;
        c.thorough = thorough;
        c.rng = Rng(seed * 1000003ull + k * 7919ull + 17);
        theCtx = &c;
        try
        {
            runCase(c);
            harnessCaseEnd();
        }
        catch (const std::exception& e)
        {
            fail(std::string("unexpected exception ") + typeid(e).name() + ": " + e.what(), __FILE__, __LINE__);
        }
#ifdef NFM_LSAN
        if (leaks) leakCheck();
#endif
        if (!c.trivial) G().sigs.insert(c.sig);
        G().cases++;
        theCtx = nullptr;
    }
    if (out)
    {
        FILE* f = fopen(out, "w");
        if (!f) return 97;
        fprintf(f, "{\"cases\":%llu,\"checks\":%llu,\"counters\":{", (unsigned long long)G().cases, (unsigned long long)G().checks.load());
        const char* sep = "";
        for (auto& [k, v] : G().counters)
        {
            fprintf(f, "%s\"%s\":%llu", sep, esc(k).c_str(), (unsigned long long)v);
            sep = ",";
        }
        fprintf(f, "},\"maxima\":{");
        sep = "";
        for (auto& [k, v] : G().maxima)
        {
            fprintf(f, "%s\"%s\":%.17g", sep, esc(k).c_str(), v);
            sep = ",";
        }
        fprintf(f, "},\"sets\":{");
        sep = "";
        for (auto& [k, v] : G().sets)
        {
            fprintf(f, "%s\"%s\":[", sep, esc(k).c_str());
            const char* s2 = "";
            for (auto x : v)
            {
                fprintf(f, "%s\"%llx\"", s2, (unsigned long long)x);
                s2 = ",";
            }
            fprintf(f, "]");
            sep = ",";
        }
        fprintf(f, "},\"samples\":[");
        sep = "";
        for (auto& s : G().samples)
        {
            fprintf(f, "%s\"%s\"", sep, esc(s).c_str());
            sep = ",";
        }
        fprintf(f, "],\"known\":[");
        sep = "";
        for (auto& k : G().known)
        {
            fprintf(f, "%s\"%s\"", sep, esc(k).c_str());
            sep = ",";
        }
        fprintf(f, "],\"sigs\":[");
        sep = "";
        for (auto s : G().sigs)
        {
            fprintf(f, "%s\"%llx\"", sep, (unsigned long long)s);
            sep = ",";
        }
        fprintf(f, "]}\n");
        fclose(f);
    }
    std::fflush(stdout);
    _exit(0);
}
