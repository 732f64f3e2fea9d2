// Common part of every workload driver: seeded generator, oracle macros, evidence counters,
// child-process helper for code that is expected to terminate the process.
#pragma once
#include <atomic>
#include <bit>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <algorithm>
#include <any>
#include <array>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <stdexcept>
#include <tuple>
#include <typeindex>
#include <utility>
#include <vector>

#include <sys/wait.h>
#include <unistd.h>

namespace H
{
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    std::size_t below(std::size_t n) { return n ? static_cast<std::size_t>(next() % n) : 0; }
    // inclusive
    long range(long a, long b) { return a + static_cast<long>(next() % static_cast<uint64_t>(b - a + 1)); }
    bool chance(double p) { return uniform(0, 1) < p; }
    double uniform(double a, double b)
    {
        return a + (b - a) * (static_cast<double>(next() >> 11) * 0x1.0p-53);
    }
    // "nice" numbers: small dyadic rationals, so that sums and products of a few are exact
    double dyadic() { return static_cast<double>(range(-64, 64)) / 8.0; }
    double posDyadic() { return static_cast<double>(range(1, 64)) / 8.0; }
    template<typename T>
    T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + below(l.size()));
    }
    template<typename T>
    const T& pick(const std::vector<T>& v)
    {
        return v[below(v.size())];
    }
    template<typename T>
    void shuffle(std::vector<T>& v)
    {
        for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    }
    std::string word(std::size_t maxLen = 8)
    {
        std::string w;
        std::size_t n = 1 + below(maxLen);
        for (std::size_t i = 0; i < n; ++i) w += static_cast<char>('a' + below(26));
        return w;
    }
};

struct Ctx
{
    Rng rng {1};
    uint64_t seed = 1;
    std::size_t index = 0;
    bool thorough = false;
    std::string notes;
    uint64_t sig = 1469598103934665603ull;
    bool trivial = true;
};
Ctx& ctx();

void note(const std::string& s);                      // description of the running case
void sig(uint64_t v);                                 // case signature (marks it non-trivial)
void sig(const std::string& v);
void count(const char* name, uint64_t n = 1);         // what the monitors saw
void maxi(const char* name, double v);
void seen(const char* set, uint64_t v);               // distinct states / values of a kind
void sample(const std::string& s);
void checked(uint64_t n = 1);                         // oracle evaluations
// true when `id` is a listed known finding (and records that it was seen)
bool knownFinding(const std::string& id);
[[noreturn]] void fail(const std::string& msg, const char* file, int line);

struct ExitResult
{
    bool exited = false;
    int code = -1;
    int signal = 0;
    std::string err; // stderr + stdout of the child
    // ended by the library itself (exit, MPI_Abort of the stand-in, exception), not by a crash or a sanitizer
    bool refused() const { return exited && (code == 1 || code == 101 || code == 99) && !err.empty(); }
};
// run f in a child process; the child leaves with code 0 when f returns, 99 when f throws
ExitResult inChild(const std::function<void()>& f, int timeoutSec = 20);

inline bool same(double a, double b)
{
    return std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b) || a == b;
}
inline bool close(double a, double b, double scale, double eps = 1e-10)
{
    return std::fabs(a - b) <= eps * (1.0 + std::fabs(scale) + std::fabs(a) + std::fabs(b));
}
} // namespace H

// fault injection (R02): allocations until one fails; -1: none
namespace H
{
inline long faultAfter = -1;
inline bool faultFired = false;
inline bool faultRun = false;        // a case with a failure is running
inline void (*onChild)() = nullptr;  // no failures in child processes
inline void passOnFault()            // from a handler
{
    if (!faultRun) return;
    try
    {
        throw;
    }
    catch (const std::bad_alloc&)
    {
        throw;
    }
    catch (...)
    {}
}
}

#define H_CHECK(cond, msg)                                                                         \
    do                                                                                             \
    {                                                                                              \
        H::checked();                                                                              \
        if (!(cond))                                                                               \
        {                                                                                          \
            std::ostringstream h_os;                                                               \
            h_os.precision(17);                                                                    \
            h_os << msg << "   [" #cond "]";                                                       \
            H::fail(h_os.str(), __FILE__, __LINE__);                                               \
        }                                                                                          \
    }                                                                                              \
    while (false)

#define H_THROWS(expr, type, msg)                                                                  \
    do                                                                                             \
    {                                                                                              \
        H::checked();                                                                              \
        bool h_ok = false;                                                                         \
        std::string h_what = "no exception";                                                       \
        try                                                                                        \
        {                                                                                          \
            (void)(expr);                                                                          \
        }                                                                                          \
        catch (const type&)                                                                        \
        {                                                                                          \
            H::passOnFault();                                                                      \
            h_ok = true;                                                                           \
        }                                                                                          \
        catch (const std::exception& e)                                                            \
        {                                                                                          \
            H::passOnFault();                                                                      \
            h_what = std::string("other exception: ") + e.what();                                  \
        }                                                                                          \
        if (!h_ok)                                                                                 \
        {                                                                                          \
            std::ostringstream h_os;                                                               \
            h_os << msg << "   [" #expr " should throw " #type "; " << h_what << "]";              \
            H::fail(h_os.str(), __FILE__, __LINE__);                                               \
        }                                                                                          \
    }                                                                                              \
    while (false)

// defined by each workload
void runCase(H::Ctx&);
// optional hooks (weak defaults in nfh.cpp)
void harnessInit();
void harnessCaseEnd();
