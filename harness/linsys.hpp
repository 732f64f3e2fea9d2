// Host snapshot of a linear system, dense reference computations, and an exact dense solver.
#pragma once
#include "ops.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"
namespace FV
{
namespace la = NeoFOAM::la;
inline double mulc(double a, double b) { return a * b; }
inline Vector mulc(const Vector& a, const Vector& b) { return Vector(a[0] * b[0], a[1] * b[1], a[2] * b[2]); }
template<typename T>
struct Sys
{
    std::vector<T> val, b;
    std::vector<localIdx> rp, ci;
    explicit Sys(const la::LinearSystem<T, localIdx>& ls)
    {
        // the order of the entries within a row may differ between runs: record the dense matrix
        auto* t = std::exchange(trace, nullptr);
        val = values(ls.matrix().values());
        b = values(ls.rhs());
        rp = values(ls.matrix().rowPtrs());
        ci = values(ls.matrix().colIdxs());
        trace = t;
        if (!trace) return;
        auto& o = trace->reads.emplace_back();
        for (auto& x : dense()) record(o, x);
        for (auto& x : b) record(o, x);
    }
    std::size_t n() const { return b.size(); }
    bool sameStructure(const Sys& o) const { return rp == o.rp && ci == o.ci && val.size() == o.val.size() && b.size() == o.b.size(); }
    std::vector<T> product(const std::vector<T>& x) const
    {
        std::vector<T> y(n());
        for (std::size_t i = 0; i < n(); ++i)
        {
            y[i] = T {};
            for (auto p = rp[i]; p < rp[i + 1]; ++p) y[i] += mulc(val[p], x[ci[p]]);
        }
        return y;
    }
    std::vector<T> residual(const std::vector<T>& x) const
    {
        auto y = product(x);
        for (std::size_t i = 0; i < n(); ++i) y[i] = y[i] - b[i];
        return y;
    }
    std::vector<double> scale(const std::vector<T>& x) const
    {
        std::vector<double> y(n());
        for (std::size_t i = 0; i < n(); ++i)
        {
            y[i] = magOf(b[i]);
            for (auto p = rp[i]; p < rp[i + 1]; ++p) y[i] += magOf(val[p]) * magOf(x[ci[p]]);
        }
        return y;
    }
    std::vector<T> dense() const
    {
        std::vector<T> d(n() * n());
        for (auto& v : d) v = T {};
        for (std::size_t i = 0; i < n(); ++i)
            for (auto p = rp[i]; p < rp[i + 1]; ++p) d[i * n() + ci[p]] += val[p];
        return d;
    }
};
// Gaussian elimination with partial pivoting; false when (numerically) singular
inline bool gauss(std::vector<double> a, std::vector<double> b, std::vector<double>& x)
{
    std::size_t n = b.size();
    for (std::size_t k = 0; k < n; ++k)
    {
        std::size_t p = k;
        for (std::size_t i = k; i < n; ++i)
            if (std::fabs(a[i * n + k]) > std::fabs(a[p * n + k])) p = i;
        if (!(std::fabs(a[p * n + k]) > 1e-9)) return false;
        if (p != k)
        {
            for (std::size_t j = 0; j < n; ++j) std::swap(a[k * n + j], a[p * n + j]);
            std::swap(b[k], b[p]);
        }
        for (std::size_t i = k + 1; i < n; ++i)
        {
            double f = a[i * n + k] / a[k * n + k];
            if (f == 0) continue;
            for (std::size_t j = k; j < n; ++j) a[i * n + j] -= f * a[k * n + j];
            b[i] -= f * b[k];
        }
    }
    x.assign(n, 0);
    for (std::size_t k = n; k-- > 0;)
    {
        double s = b[k];
        for (std::size_t j = k + 1; j < n; ++j) s -= a[k * n + j] * x[j];
        x[k] = s / a[k * n + k];
    }
    return true;
}
template<typename T>
bool solveDense(const Sys<T>& s, std::vector<T>& x)
{
    auto d = s.dense();
    std::size_t n = s.n();
    x.assign(n, T {});
    if constexpr (std::is_same_v<T, Vector>)
    {
        for (std::size_t c = 0; c < 3; ++c)
        {
            std::vector<double> a(n * n), b(n), y;
            for (std::size_t i = 0; i < n * n; ++i) a[i] = d[i][c];
            for (std::size_t i = 0; i < n; ++i) b[i] = s.b[i][c];
            if (!gauss(a, b, y)) return false;
            for (std::size_t i = 0; i < n; ++i) x[i][c] = y[i];
        }
        return true;
    }
    else return gauss(d, s.b, x);
}
} // namespace FV
