// R02: cases of the other workloads in which one allocation fails, of the host or of an executor. The
// failure has to come out of the case, everything has to be released on the way (the leak checker and
// the accounting of the executors look after it), and the same case, run again, reads what it read
// without the failure.
#include "multi.hpp"
#include "nfk.hpp"
#include <algorithm>
#include <new>
namespace Multi
{
std::vector<Work>& works()
{
    static std::vector<Work> w;
    return w;
}
} // namespace Multi

static uint64_t hostAllocs = 0;
void* operator new(std::size_t n)
{
    if (NFM::insideRuntime == 0)
    {
        hostAllocs++;
        if (H::faultAfter >= 0 && H::faultAfter-- == 0)
        {
            H::faultFired = true;
            throw std::bad_alloc();
        }
    }
    void* p = std::malloc(n ? n : 1);
    if (!p) std::abort();
    return p;
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void* operator new[](std::size_t n) { return ::operator new(n); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

void harnessInit()
{
    FV::init();
    H::onChild = [] { H::faultAfter = NFM::cfg().failAlloc = -1; };
    auto& w = Multi::works();
    std::sort(w.begin(), w.end(), [](auto& a, auto& b) { return std::string(a.name) < b.name; });
}
void harnessCaseEnd() { FV::caseEnd(); }

namespace
{
bool same(double a, double b, double m)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) == std::isnan(b);
    return a == b || std::fabs(a - b) <= 1e-10 * (1 + m) * (1 + m);
}
void compare(const FV::Trace& a, const FV::Trace& b, const std::string& w)
{
    H_CHECK(a.reads.size() == b.reads.size(), w << " the case reads " << b.reads.size() << " fields instead of " << a.reads.size());
    double m = 0;
    for (std::size_t i = 0; i < a.reads.size(); ++i)
    {
        auto &x = a.reads[i], &y = b.reads[i];
        for (double v : x)
            if (std::isfinite(v)) m = std::max(m, std::fabs(v));
        H_CHECK(x.size() == y.size(), w << " read " << i << " has " << y.size() << " values instead of " << x.size());
        for (std::size_t k = 0; k < x.size(); ++k)
            H_CHECK(same(x[k], y[k], m), w << " value " << k << " of read " << i << " is " << FV::str(y[k]) << " instead of " << FV::str(x[k]));
        H::count("values compared after failures", x.size());
    }
}
} // namespace

void runCase(H::Ctx& c)
{
    auto& w = Multi::works();
    auto& k = w[c.index % w.size()];
    auto index = c.index;
    c.index /= w.size();
    H::count((std::string("cases of workload ") + k.name).c_str());
    H::sig(k.name);
    const auto rng = c.rng;
    uint64_t sig = c.sig;
    H::Rng mine(c.seed * 7919 + index);
    FV::forcedExec = (int)(index % 3);
    auto run = [&](FV::Trace& t)
    {
        c.rng = rng;
        c.sig = sig;
        c.notes.clear();
        FV::trace = &t;
        k.run(c);
        Kokkos::fence();
        FV::trace = nullptr;
    };
    auto& cfg = NFM::cfg();
    FV::Trace ref;
    hostAllocs = 0;
    cfg.failAlloc = 1L << 40;
    run(ref);
    const long host = (long)hostAllocs, exec = (1L << 40) - cfg.failAlloc;
    cfg.failAlloc = -1;
    FV::caseEnd();
    H::maxi("most executor allocations in a case", (double)exec);
    H::maxi("most host allocations in a case", (double)host);
    for (int n = 0; n < (c.thorough ? 24 : 8); ++n)
    {
        bool onExec = exec && n % 2 == 0;
        long total = onExec ? exec : host;
        long at = (long)mine.below((std::size_t)total);
        if (mine.chance(0.25)) at = (long)((double)total * mine.uniform(0, 1) * mine.uniform(0, 1));
        std::string what = std::string(k.name) + " on " + FV::exName(FV::exByIndex(FV::forcedExec)) + " with " + (onExec ? "executor" : "host") + " allocation "
                         + std::to_string(at + 1) + " of " + std::to_string(total) + " failing:";
        H::faultFired = cfg.allocFailed = false;
        (onExec ? cfg.failAlloc : H::faultAfter) = at;
        H::faultRun = true;
        FV::Trace t;
        bool thrown = false;
        try
        {
            run(t);
        }
        catch (const std::bad_alloc&)
        {
            thrown = true;
        }
        H::faultAfter = cfg.failAlloc = -1;
        FV::trace = nullptr;
        H::faultRun = false;
        bool fired = H::faultFired || cfg.allocFailed;
        H::faultFired = cfg.allocFailed = false;
        H::note(what);
        H_CHECK(thrown == fired || (fired && !onExec), what << (fired ? " the failure is lost" : " out of memory without a failure"));
        if (!thrown && fired)
        {
            // (streams swallow failures of their own buffers)
            compare(ref, t, what);
            H::count("host failures absorbed");
        }
        else if (thrown) H::count(onExec ? "cases in which an executor allocation failed" : "cases in which a host allocation failed");
        FV::caseEnd();
    }
    FV::Trace again;
    run(again);
    compare(ref, again, std::string(k.name) + " after failures:");
    FV::forcedExec = -1;
    c.index = index;
}
