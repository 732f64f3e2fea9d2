// F04: loops run every index exactly once; reductions and scans are exact on every executor and schedule.
#include "nfk.hpp"
#include "NeoFOAM/fields/operations/sum.hpp"
using namespace FV;
FV_MAIN

namespace
{
// integer-valued scalars: sums are exact in every order
std::vector<scalar> ints(Rng& r, std::size_t n)
{
    std::vector<scalar> v(n);
    for (auto& x : v) x = (scalar)r.range(-1000, 1000);
    return v;
}

template<typename E>
void loops(const E& ex, const Executor& e, Rng& r, std::size_t n, std::size_t lo, std::size_t hi, const std::string& w)
{
    // every index exactly once
    Field<label> hits(e, n, 0);
    auto v = hits.view();
    if (r.chance(0.5))
        parallelFor(ex, {lo, hi}, KOKKOS_LAMBDA(const size_t i) { Kokkos::atomic_add(&v[i], 1); });
    else
        parallelFor(ex, {lo, hi}, KOKKOS_LAMBDA(const size_t i) { Kokkos::atomic_add(&v[i], 1); }, "named");
    std::vector<label> want(n, 0);
    for (std::size_t i = lo; i < hi; ++i) want[i] = 1;
    expectEq(values(hits), want, w + "invocations per index");
    // effects complete when read back through the library's own copy
    Field<scalar> out(e, n, -1.0);
    auto o = out.view();
    parallelFor(ex, {lo, hi}, KOKKOS_LAMBDA(const size_t i) { o[i] = (scalar)(3 * i + 1); });
    auto host = out.copyToHost();
    auto hv = host.view();
    for (std::size_t i = 0; i < n; ++i)
        H_CHECK(hv[i] == (i >= lo && i < hi ? (scalar)(3 * i + 1) : -1.0), w << "index " << i << " has " << hv[i] << " after the loop");
    H::count("loop indices checked", n);
}

// the value handed in must not influence the result, the identity is returned for an empty range
template<typename E>
void reductions(const E& ex, const Executor& e, Rng& r, std::size_t n, std::size_t lo, std::size_t hi, const std::string& w)
{
    auto A = ints(r, n);
    auto f = field(e, A);
    auto v = f.view();
    auto prior = [&](scalar identity) { return r.chance(0.5) ? identity : (scalar)r.range(-5000, 5000); };
    scalar sum = 0, mx = std::numeric_limits<scalar>::lowest(), mn = std::numeric_limits<scalar>::max();
    for (std::size_t i = lo; i < hi; ++i)
    {
        sum += A[i];
        mx = std::max(mx, A[i]);
        mn = std::min(mn, A[i]);
    }
    scalar got = prior(0), init = got;
    parallelReduce(ex, {lo, hi}, KOKKOS_LAMBDA(const size_t i, scalar& l) { l += v[i]; }, got);
    H_CHECK(got == sum, w << "sum reduction gives " << got << " instead of " << sum << " (variable held " << init << ")");
    got = init = prior(0);
    {
        Kokkos::Sum<scalar> red(got);
        parallelReduce(ex, {lo, hi}, KOKKOS_LAMBDA(const size_t i, scalar& l) { l += v[i]; }, red);
    }
    H_CHECK(got == sum, w << "Sum reducer gives " << got << " instead of " << sum << " (variable held " << init << ")");
    got = init = prior(std::numeric_limits<scalar>::lowest());
    {
        Kokkos::Max<scalar> red(got);
        parallelReduce(ex, {lo, hi}, KOKKOS_LAMBDA(const size_t i, scalar& l) { if (v[i] > l) l = v[i]; }, red);
    }
    scalar idMax;
    Kokkos::Max<scalar>(idMax).init(idMax);
    H_CHECK(got == (hi > lo ? mx : idMax), w << "Max reducer gives " << got << " instead of " << (hi > lo ? mx : idMax) << " (variable held " << init << ")");
    got = init = prior(std::numeric_limits<scalar>::max());
    {
        Kokkos::Min<scalar> red(got);
        parallelReduce(ex, {lo, hi}, KOKKOS_LAMBDA(const size_t i, scalar& l) { if (v[i] < l) l = v[i]; }, red);
    }
    scalar idMin;
    Kokkos::Min<scalar>(idMin).init(idMin);
    H_CHECK(got == (hi > lo ? mn : idMin), w << "Min reducer gives " << got << " instead of " << (hi > lo ? mn : idMin) << " (variable held " << init << ")");
    // integer count
    label cnt = r.chance(0.5) ? 0 : 77;
    parallelReduce(ex, {lo, hi}, KOKKOS_LAMBDA(const size_t i, label& l) { l += v[i] > 0 ? 1 : 0; }, cnt);
    label wc = 0;
    for (std::size_t i = lo; i < hi; ++i) wc += A[i] > 0;
    H_CHECK(cnt == wc, w << "counting reduction gives " << cnt << " instead of " << wc);
    expectEq(values(f), A, w + "operand of reductions");
    H::count("reductions checked", 5);
}
void fieldReductions(const Executor& e, Rng& r, std::size_t n, const std::string& w)
{
    auto A = ints(r, n);
    auto f = field(e, A);
    auto v = f.view();
    scalar sum = 0, mx = std::numeric_limits<scalar>::lowest();
    for (auto a : A) sum += a, mx = std::max(mx, a);
    scalar got = r.chance(0.5) ? 0 : 123, init = got;
    parallelReduce(f, KOKKOS_LAMBDA(const size_t i, scalar& l) { l += v[i]; }, got);
    H_CHECK(got == sum, w << "sum over the field is " << got << " instead of " << sum << " (variable held " << init << ")");
    got = init = r.chance(0.5) ? std::numeric_limits<scalar>::lowest() : 4000;
    Kokkos::Max<scalar> red(got);
    parallelReduce(f, KOKKOS_LAMBDA(const size_t i, scalar& l) { if (v[i] > l) l = v[i]; }, red);
    if (n) H_CHECK(got == mx, w << "max over the field is " << got << " instead of " << mx << " (variable held " << init << ")");
    // the summation kernels of the three executors
    got = r.chance(0.5) ? 0 : 17;
    SumKernel sumKernel;
    std::visit([&](const auto& ex) { sumKernel(ex, f, got); }, e);
    H_CHECK(got == sum, w << "the sum kernel gives " << got << " instead of " << sum);
    {
        std::vector<label> L(n);
        label want = 0, has = 3;
        for (auto& l : L) want += l = (label)r.range(-50, 50);
        auto fl = field(e, L);
        std::visit([&](const auto& ex) { sumKernel(ex, fl, has); }, e);
        H_CHECK(has == want, w << "the sum kernel gives " << has << " instead of " << want);
    }
    // field form of the loop
    Field<scalar> out(e, n);
    parallelFor(out, KOKKOS_LAMBDA(const size_t i) { return v[i] * 2.0 + (scalar)i; });
    std::vector<scalar> want(n);
    for (std::size_t i = 0; i < n; ++i) want[i] = A[i] * 2.0 + (scalar)i;
    expectEq(values(out), want, w + "parallelFor over a field");
}

template<typename E>
void scans(const E& ex, const Executor& e, Rng& r, std::size_t n, std::size_t lo, std::size_t hi, const std::string& w)
{
    std::vector<label> A(n);
    for (auto& a : A) a = (label)r.range(-20, 30);
    auto f = field(e, A);
    auto v = f.view();
    Field<label> outF(e, n, -7);
    auto out = outF.view();
    std::vector<label> want(n, -7);
    label acc = 0;
    bool exclusive = r.chance(0.3);
    for (std::size_t i = lo; i < hi; ++i)
    {
        if (exclusive) want[i] = acc;
        acc += A[i];
        if (!exclusive) want[i] = acc;
    }
    auto kernel = KOKKOS_LAMBDA(const std::size_t i, label& update, const bool final) {
        if (exclusive && final) out[i] = update;
        update += v[i];
        if (!exclusive && final) out[i] = update;
    };
    if (r.chance(0.5))
    {
        label total = r.chance(0.5) ? 0 : 99;
        parallelScan(ex, {lo, hi}, kernel, total);
        H_CHECK(total == acc, w << "scan total is " << total << " instead of " << acc);
    }
    else parallelScan(ex, {lo, hi}, kernel);
    expectEq(values(outF), want, w + (exclusive ? "exclusive" : "inclusive") + " scan");
    expectEq(values(f), A, w + "operand of the scan");
    H::count("scans checked");
}
}
void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    hostileSchedule(r);
    for (int k = 0; k < 6; ++k)
    {
        Executor e = anyExec(r);
        std::size_t n = r.chance(0.02) ? 1000 + r.below(5000) : r.chance(0.1) ? 0 : r.chance(0.1) ? 1 : r.chance(0.1) ? 100 + r.below(300) : 1 + r.below(30);
        std::size_t lo = 0, hi = n;
        if (r.chance(0.6) && n)
        {
            lo = r.below(n + 1);
            hi = lo + r.below(n - lo + 1);
        }
        std::string w = exName(e) + " [" + std::to_string(lo) + "," + std::to_string(hi) + ") of " + std::to_string(n) + ": ";
        H::note(w);
        H::sig(w);
        H::seen("ranges (n,lo,hi)", (uint64_t)n * 1000003 + lo * 1009 + hi);
        H::count("empty ranges", lo == hi);
        bool typed = r.chance(0.5);
        int what = (int)r.below(4);
        auto go = [&](const auto& ex)
        {
            if (what == 0) loops(ex, e, r, n, lo, hi, w);
            else if (what == 1) reductions(ex, e, r, n, lo, hi, w);
            else if (what == 2) scans(ex, e, r, n, lo, hi, w);
            else fieldReductions(e, r, n, w);
        };
        if (typed) std::visit(go, e);
        else go(e);
    }
}
