// common part of the communication workloads
#pragma once
#include "nfh.hpp"
#include <complex>
#include <thread>
#include "nfm_mpi.hpp"
#include "NeoFOAM/core/mpi/environment.hpp"
#include "NeoFOAM/core/mpi/operators.hpp"
#include "NeoFOAM/core/mpi/halfDuplexCommBuffer.hpp"
#include "NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp"
namespace MP
{
using H::Rng;
using namespace NeoFOAM;
using mpi::MPIEnvironment;
#ifdef NF_DEBUG
constexpr bool debugBuild = true;
#else
constexpr bool debugBuild = false;
#endif
struct Odd // a user type of unusual size
{
    char c[5];
    bool operator==(const Odd&) const = default;
};
inline Odd& operator++(Odd& o)
{
    for (auto& x : o.c) ++x;
    return o;
}
// value determined by its position: message, sender, receiver, index
template<typename T>
T stamp(uint64_t key)
{
    T v;
    uint64_t z = key * 0x9e3779b97f4a7c15ull + 77;
    z = (z ^ (z >> 29)) * 0xbf58476d1ce4e5b9ull;
    z ^= z >> 32;
    if constexpr (std::is_floating_point_v<T>) return (T)((double)(z % 4000001) / 8.0 - 250000.0);
    else if constexpr (std::is_arithmetic_v<T>) return (T)z;
    else
    {
        for (std::size_t i = 0; i < sizeof(T); ++i)
        {
            unsigned char b = (unsigned char)(z >> (8 * (i % 8)));
            std::memcpy((char*)&v + i, &b, 1);
        }
        if constexpr (std::is_same_v<T, Vector>)
            for (int i = 0; i < 3; ++i) v[(std::size_t)i] = stamp<scalar>(key + 31 * (uint64_t)i);
        return v;
    }
}
template<typename T>
bool sameBytes(const T& a, const T& b)
{
    return std::memcmp(&a, &b, sizeof(T)) == 0;
}
// call f with a value of one of the types that travel through buffers
template<typename F>
void withType(int k, F&& f)
{
    switch (k)
    {
    case 0: return f(char {});
    case 1: return f(int {});
    case 2: return f(double {});
    case 3: return f(float {});
    case 4: return f(std::size_t {});
    case 5: return f(Vector {});
    case 6: return f(Odd {});
    default: return f(short {});
    }
}
constexpr int nTypes = 8;
inline std::size_t rndSize(Rng& r, bool thorough)
{
    if (r.chance(0.25)) return 0;
    if (r.chance(0.01)) return (std::size_t)r.range(1000, 20000);
    if (r.chance(0.05)) return (std::size_t)r.range(50, thorough ? 5000 : 300);
    return (std::size_t)r.range(1, 7);
}
inline void caseStats()
{
    static NFMPI::Stats last;
    auto& s = NFMPI::stats();
    H::count("messages posted", s.sends - last.sends);
    H::count("messages delivered", s.delivered - last.delivered);
    H::count("bytes delivered", s.bytes - last.bytes);
    H::count("polls answered 'not yet'", s.pendingTests - last.pendingTests);
    H::count("sends completed before they were matched (eager)", s.eager - last.eager);
    H::count("collective reductions", s.reductions - last.reductions);
    last = s;
}
} // namespace MP
