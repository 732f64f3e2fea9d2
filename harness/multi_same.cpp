// F05 / F07: the same case on every executor and on several schedules. The values the workload reads
// back are recorded and must be the same everywhere, up to rounding where contributions are summed.
// -DWHAT=5: a reference run on the host, then runs on the executor with separate memory;
// -DWHAT=7: runs on all executors under several schedules.
#include "multi.hpp"
#include "nfk.hpp"
#include <algorithm>
namespace Multi
{
std::vector<Work>& works()
{
    static std::vector<Work> w;
    return w;
}
} // namespace Multi
void harnessInit()
{
    FV::init();
    auto& w = Multi::works();
    std::sort(w.begin(), w.end(), [](auto& a, auto& b) { return std::string(a.name) < b.name; });
}
void harnessCaseEnd() { FV::caseEnd(); }

namespace
{
bool same(double a, double b, double m)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) == std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= 1e-10 * (1 + m) * (1 + m);
}
double largest(const std::vector<double>& v)
{
    double m = 0;
    for (double x : v)
        if (std::isfinite(x)) m = std::max(m, std::fabs(x));
    return m;
}
void compare(const FV::Trace& a, const FV::Trace& b, const std::string& w)
{
    double m = 0;
    for (std::size_t i = 0; i < a.reads.size() && i < b.reads.size(); ++i)
    {
        auto x = a.reads[i], y = b.reads[i];
        m = std::max({m, largest(x), largest(y)});
        H_CHECK(x.size() == y.size(), w << ": read " << i << " of the case has " << y.size() << " values instead of " << x.size());
        bool ok = true;
        for (std::size_t k = 0; k < x.size() && ok; ++k) ok = same(x[k], y[k], m);
        if (!ok)
        {
            // entries whose order is not determined (stencils, columns of a row)
            auto p = x, q = y;
            std::sort(p.begin(), p.end());
            std::sort(q.begin(), q.end());
            ok = true;
            for (std::size_t k = 0; k < x.size() && ok; ++k) ok = same(p[k], q[k], m) && p[k] == std::floor(p[k]) && q[k] == std::floor(q[k]);
            H::count("reads equal up to the order of entries", ok);
        }
        for (std::size_t k = 0; k < x.size() && !ok; ++k)
            H_CHECK(same(x[k], y[k], m), w << ": value " << k << " of read " << i << " is " << FV::str(y[k]) << " instead of " << FV::str(x[k]));
        H::count("values compared between executors and schedules", x.size());
    }
    if (m < 1e5) H_CHECK(a.reads.size() == b.reads.size(), w << ": the case reads " << b.reads.size() << " fields instead of " << a.reads.size());
}
} // namespace

void runCase(H::Ctx& c)
{
    auto& w = Multi::works();
    auto& k = w[c.index % w.size()];
    auto index = c.index;
    c.index /= w.size();
    H::count((std::string("cases of workload ") + k.name).c_str());
    H::sig(k.name);
    const auto rng = c.rng;
    uint64_t sig = c.sig;
    FV::Trace ref;
    auto run = [&](int ex, uint64_t salt, FV::Trace& t)
    {
        c.rng = rng;
        c.sig = sig;
        c.notes.clear();
        FV::forcedExec = ex;
        FV::scheduleSalt = salt;
        FV::trace = &t;
        k.run(c);
        Kokkos::fence();
        FV::trace = nullptr;
        H::count(ex == 0 ? "runs on the serial executor" : ex == 1 ? "runs on the parallel host executor" : "runs on the executor with separate memory");
    };
    run(0, 0, ref);
#if WHAT == 5
    std::vector<std::pair<int, uint64_t>> more {{2, 0}, {2, 7 + 2 * (index % 50)}};
#else
    std::vector<std::pair<int, uint64_t>> more {{1, 0}, {1, 11 + index % 97}, {1, 1000 + index % 89}, {2, 2001 + 2 * (index % 50)}};
#endif
    for (auto [ex, salt] : more)
    {
        FV::Trace t;
        run(ex, salt, t);
        compare(ref, t, std::string(k.name) + " on " + FV::exName(FV::exByIndex(ex)) + " (schedule " + std::to_string(salt) + ") compared with serial, " + c.notes.substr(0, 300));
    }
    FV::forcedExec = -1;
    FV::scheduleSalt = 0;
    c.index = index;
}
