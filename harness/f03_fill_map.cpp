// F03: fill, map, apply, setField and the field form of the parallel loop write exactly the requested range.
#include "nfk.hpp"
using namespace FV;
FV_MAIN

namespace
{
template<typename T>
void one(Rng& r)
{
    Executor e = anyExec(r);
    std::size_t n = r.chance(0.02) ? 1000 + r.below(5000) : r.chance(0.1) ? 0 : r.chance(0.15) ? 1 : r.chance(0.1) ? 50 + r.below(200) : 1 + r.below(20);
    auto A = rndVec<T>(r, n);
    auto f = field(e, A);
    std::string w = std::string(tname<T>()) + "[" + std::to_string(n) + "] on " + exName(e) + ": ";
    // a range: whole by default; interior, prefix, suffix, single, empty
    std::size_t lo = 0, hi = n;
    int kind = (int)r.below(6);
    bool whole = kind == 0 || n == 0;
    if (!whole)
    {
        lo = r.below(n + 1);
        hi = lo + r.below(n - lo + 1);
        if (kind == 1) lo = 0, hi = 1 + r.below(n);
        if (kind == 2) hi = n;
        if (kind == 3) hi = std::min(n, lo + 1);
        if (kind == 4) hi = lo;
        if (hi == 0) hi = 1, lo = 0; // {0,0} means the whole field
    }
    H::sig((uint64_t)n * 1000003 + lo * 1009 + hi * 7 + (uint64_t)kind);
    H::seen("ranges (n,lo,hi)", (uint64_t)n * 1000003 + lo * 1009 + hi);
    std::pair<size_t, size_t> rg {lo, hi};
    auto expect = [&](const std::function<T(std::size_t)>& v, const std::string& op)
    {
        for (std::size_t i = lo; i < hi; ++i) A[i] = v(i);
        expectEq(values(f), A, w + op + " on [" + std::to_string(lo) + "," + std::to_string(hi) + ")");
        H::count("elements inside the range", hi - lo);
        H::count("elements outside the range", n - (hi - lo));
    };
    for (int k = 0; k < 5; ++k)
    {
        T x = rnd<T>(r);
        H::note(w + "range " + std::to_string(lo) + "," + std::to_string(hi) + " " + str(A));
        switch (r.below(5))
        {
        case 0:
            if (whole) fill(f, x);
            else fill(f, x, rg);
            expect([&](std::size_t) { return x; }, "fill");
            break;
        case 1:
        {
            T q = rnd<T>(r);
            auto fn = KOKKOS_LAMBDA(const size_t i) { return T(x + q * (label)(i % 7)); };
            if (whole) map(f, fn);
            else map(f, fn, rg);
            expect([&](std::size_t i) { return T(x + q * (label)(i % 7)); }, "map");
            break;
        }
        case 2:
        {
            // map of the field itself (each element only depends on itself)
            auto v = f.view();
            auto old = A;
            auto fn = KOKKOS_LAMBDA(const size_t i) { return T(v[i] + x); };
            if (whole) map(f, fn);
            else map(f, fn, rg);
            expect([&](std::size_t i) { return T(old[i] + x); }, "map of itself");
            break;
        }
        case 3:
        {
            std::vector<T> B = rndVec<T>(r, std::max(hi, whole ? n : hi) + r.below(3));
            const auto b = field(e, B);
            if (whole) setField(f, b.view());
            else setField(f, b.view(), rg);
            expect([&](std::size_t i) { return B[i]; }, "setField");
            expectEq(values(b), B, w + "source of setField");
            break;
        }
        default:
        {
            if (!whole) break;
            if (r.chance(0.5)) f.apply(KOKKOS_LAMBDA(const size_t i) { return T(x + x * (label)(i % 3)); });
            else parallelFor(f, KOKKOS_LAMBDA(const size_t i) { return T(x + x * (label)(i % 3)); });
            expect([&](std::size_t i) { return T(x + x * (label)(i % 3)); }, "apply");
            break;
        }
        }
    }
    // setField from memory the field does not own, and onto itself
    auto B = rndVec<T>(r, n);
    if (n)
    {
        const auto b = field(e, B);
        if (e.index() != 2) setField(f, View<const T>(B.data(), B.size()));
        else setField(f, b.view());
        lo = 0;
        hi = n;
        expect([&](std::size_t i) { return B[i]; }, "setField from foreign memory");
        const auto& cf = f;
        setField(f, cf.view());
        expectEq(values(f), A, w + "setField onto itself");
    }
}
}
void runCase(H::Ctx& c)
{
    hostileSchedule(c.rng);
    for (int k = 0; k < 4; ++k)
    {
        one<scalar>(c.rng);
        one<Vector>(c.rng);
        one<label>(c.rng);
    }
}
