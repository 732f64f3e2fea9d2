// Helpers of the workloads that run on the monitoring Kokkos stand-in: executors, hostile schedules,
// raw access to field contents, random meshes with arbitrary connectivity, reference geometry.
#pragma once
#include "nfh.hpp"
#include "nfm_control.hpp"

#include "NeoFOAM/core/error.hpp"
#include "NeoFOAM/core/executor/executor.hpp"
#include "NeoFOAM/core/primitives/label.hpp"
#include "NeoFOAM/core/primitives/scalar.hpp"
#include "NeoFOAM/core/primitives/vector.hpp"
#include "NeoFOAM/core/parallelAlgorithms.hpp"
#include "NeoFOAM/fields/field.hpp"

namespace FV
{
using namespace NeoFOAM;
using H::Rng;

// ------------------------------------------------------------------------------- executors
inline Executor serial() { return SerialExecutor {}; }
inline Executor cpu() { return CPUExecutor {}; }
inline Executor gpu() { return GPUExecutor {}; }
inline std::string exName(const Executor& e)
{
    return e.index() == 0 ? "serial" : e.index() == 1 ? "cpu" : "gpu";
}
inline Executor exByIndex(int i) { return i == 0 ? serial() : i == 1 ? cpu() : gpu(); }
// the same case on a given executor and other schedules (F05, F07), recording all values it reads
inline int forcedExec = -1;
inline uint64_t scheduleSalt = 0;
struct Trace
{
    std::vector<std::vector<double>> reads;
};
inline Trace* trace = nullptr;
inline Executor anyExec(Rng& r)
{
    int i = (int)r.below(3);
    return exByIndex(forcedExec >= 0 ? forcedExec : i);
}

// seeded schedule for one case: iteration order, asynchronous device kernels
inline void hostileSchedule(Rng& r, bool sync = false)
{
    NFM::reseed(r.next() ^ scheduleSalt);
    NFM::cfg().order = (int)((r.below(5) + scheduleSalt) % 5);
    NFM::cfg().deferDevice = (r.chance(0.6) || scheduleSalt % 2) && !sync;
#ifndef NFM_THREADS
    NFM::cfg().threads = 1;
#else
    NFM::cfg().threads = 2 + (unsigned)r.below(5);
#endif
    H::seen("schedules (order x deferred)", (uint64_t)NFM::cfg().order * 2 + NFM::cfg().deferDevice);
}
inline void abortHook(const char* m)
{
    std::fprintf(stderr, "Kokkos::abort: %s\n", m);
}
inline void init()
{
    NFM::install();
    NFM::reseed(1);
}
// end of a case: nothing may be left allocated (unless the case says so)
inline std::size_t allowedLeaks = 0;
inline uint64_t lastKernels = 0, lastAllocs = 0, lastIter = 0, lastDeferred = 0, lastAtomics = 0, lastCopies = 0;
inline void caseEnd()
{
    Kokkos::fence();
    auto n = NFM::liveBlocks();
    if (n > allowedLeaks)
        H::fail(std::to_string(n) + " executor allocations (" + std::to_string(NFM::liveBytes()) + " bytes) were never released", __FILE__, __LINE__);
    auto& s = NFM::stats();
    H::count("kernels launched", s.kernels - lastKernels);
    H::count("kernel iterations", s.iterations - lastIter);
    H::count("executor allocations accounted", s.allocs - lastAllocs);
    H::count("kernels completed asynchronously", s.deferred - lastDeferred);
    H::count("atomic operations", s.atomics.load() - lastAtomics);
    H::count("copies between host and device", s.hostDeviceCopies - lastCopies);
    H::maxi("distinct iteration orders handed out (one process)", (double)s.orders);
    lastKernels = s.kernels;
    lastAllocs = s.allocs;
    lastIter = s.iterations;
    lastDeferred = s.deferred;
    lastAtomics = s.atomics.load();
    lastCopies = s.hostDeviceCopies;
    NFM::resetIfEmpty();
}

// ------------------------------------------------------------------------- field contents
// reads / writes that do not go through the library's own copy routines
template<typename T>
std::vector<T> raw(const T* p, std::size_t n)
{
    Kokkos::fence();
    std::vector<T> v(n);
    if (n)
        NFM::withHostAndDevice([&] { std::memcpy((void*)v.data(), (const void*)p, n * sizeof(T)); });
    return v;
}
inline void record(std::vector<double>& t, double v) { t.push_back(v); }
inline void record(std::vector<double>& t, const Vector& v)
{
    for (std::size_t i = 0; i < 3; ++i) t.push_back(v[i]);
}
template<typename T>
std::vector<T> values(const Field<T>& f)
{
    auto v = raw<T>(f.data(), f.size());
    if constexpr (!std::is_same_v<T, std::uint8_t> && !std::is_same_v<T, bool>)
        if (trace)
        {
            auto& t = trace->reads.emplace_back();
            for (auto& x : v)
                if constexpr (std::is_same_v<T, Vector>) record(t, x);
                else record(t, (double)x);
        }
    return v;
}
template<typename T>
void poke(Field<T>& f, const std::vector<T>& v)
{
    Kokkos::fence();
    if (v.size())
        NFM::withHostAndDevice([&] { std::memcpy((void*)f.data(), (const void*)v.data(), v.size() * sizeof(T)); });
}
template<typename T>
Field<T> field(const Executor& e, const std::vector<T>& v)
{
    Field<T> f(e, v.size());
    poke(f, v);
    return f;
}
inline bool eq(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || a == b; }
inline bool eq(const Vector& a, const Vector& b)
{
    return eq(a[0], b[0]) && eq(a[1], b[1]) && eq(a[2], b[2]);
}
template<typename T>
    requires std::is_integral_v<T>
inline bool eq(T a, T b)
{
    return a == b;
}
inline double magOf(double a) { return std::fabs(a); }
inline double magOf(const Vector& v)
{
    return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
}
inline bool near(double a, double b, double scale, double eps = 1e-11)
{
    return std::fabs(a - b) <= eps * (1.0 + std::fabs(scale));
}
inline bool near(const Vector& a, const Vector& b, double scale, double eps = 1e-11)
{
    return near(a[0], b[0], scale, eps) && near(a[1], b[1], scale, eps) && near(a[2], b[2], scale, eps);
}
inline std::string str(double a)
{
    std::ostringstream o;
    o.precision(17);
    o << a;
    return o.str();
}
inline std::string str(const Vector& v) { return "(" + str(v[0]) + " " + str(v[1]) + " " + str(v[2]) + ")"; }
template<typename T>
    requires std::is_integral_v<T>
inline std::string str(T v)
{
    return std::to_string(v);
}
template<typename T>
std::string str(const std::vector<T>& v)
{
    std::string s = "[";
    for (std::size_t i = 0; i < v.size() && i < 40; ++i) s += (i ? " " : "") + str(v[i]);
    return s + "]";
}
template<typename T>
bool eqAll(const std::vector<T>& a, const std::vector<T>& b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!eq(a[i], b[i])) return false;
    return true;
}
template<typename T>
void expectEq(const std::vector<T>& got, const std::vector<T>& want, const std::string& what)
{
    H::checked(want.size() + 1);
    if (got.size() != want.size())
        H::fail(what + ": size " + std::to_string(got.size()) + " instead of " + std::to_string(want.size()), __FILE__, __LINE__);
    for (std::size_t i = 0; i < want.size(); ++i)
        if (!eq(got[i], want[i]))
            H::fail(what + ": [" + std::to_string(i) + "] is " + str(got[i]) + " instead of " + str(want[i]), __FILE__, __LINE__);
}
template<typename T>
void expectNear(const std::vector<T>& got, const std::vector<T>& want, double scale, const std::string& what, double eps = 1e-11)
{
    H::checked(want.size() + 1);
    if (got.size() != want.size())
        H::fail(what + ": size " + std::to_string(got.size()) + " instead of " + std::to_string(want.size()), __FILE__, __LINE__);
    for (std::size_t i = 0; i < want.size(); ++i)
        if (!near(got[i], want[i], scale, eps))
            H::fail(what + ": [" + std::to_string(i) + "] is " + str(got[i]) + " instead of " + str(want[i]), __FILE__, __LINE__);
}
template<typename T>
T rnd(Rng& r)
{
    if constexpr (std::is_same_v<T, Vector>) return Vector(r.dyadic(), r.dyadic(), r.dyadic());
    else if constexpr (std::is_floating_point_v<T>) return (T)r.dyadic();
    else if constexpr (std::is_unsigned_v<T>) return (T)r.below(100);
    else return (T)r.range(-50, 50);
}
template<typename T>
std::vector<T> rndVec(Rng& r, std::size_t n)
{
    std::vector<T> v(n);
    for (auto& x : v) x = rnd<T>(r);
    return v;
}
template<typename T>
const char* tname()
{
    if constexpr (std::is_same_v<T, Vector>) return "Vector";
    else if constexpr (std::is_same_v<T, double>) return "scalar";
    else return "integer";
}
template<typename T>
T zeroOf()
{
    return T {};
}

} // namespace FV

#define FV_MAIN                                                                                    \
    void harnessInit() { FV::init(); }                                                             \
    void harnessCaseEnd() { FV::caseEnd(); }
