// Sparse matrix on the host with an exact (elimination) solver, shared by the stand-ins of the solver libraries.
#pragma once
#include <cmath>
#include <map>
#include <string>
#include <vector>
namespace NFM
{
[[noreturn]] void violation(const std::string& what);
struct Sparse
{
    std::size_t nRows = 0, nCols = 0, stored = 0;
    std::map<std::pair<std::size_t, std::size_t>, double> a; // duplicates are summed
    template<typename V, typename C, typename R>
    void fromCsr(const V& v, const C& c, const R& r, const std::string& who)
    {
        if (r.empty() || (std::size_t)r[0] != 0 || (std::size_t)r.back() != v.size())
            violation(who + " was given row pointers which do not span the " + std::to_string(v.size()) + " entries");
        for (std::size_t i = 0; i + 1 < r.size(); ++i)
        {
            if (r[i + 1] < r[i]) violation(who + " was given decreasing row pointers");
            for (auto k = r[i]; k < r[i + 1]; ++k)
            {
                if (!((long long)c[k] >= 0 && (std::size_t)c[k] < nCols)) violation(who + " was given column " + std::to_string((long long)c[k]) + " in a matrix of " + std::to_string(nCols) + " columns");
                a[{i, (std::size_t)c[k]}] += v[k];
                ++stored;
            }
        }
    }
    bool solve(std::vector<double> b, std::vector<double>& x) const
    {
        std::size_t n = nRows;
        if (nCols != n || b.size() != n) return false;
        bool diagonal = true;
        for (auto& [ij, v] : a) diagonal &= ij.first == ij.second;
        x.assign(n, 0.0);
        if (diagonal)
        {
            std::size_t seen = 0;
            for (auto& [ij, v] : a)
            {
                if (!(std::fabs(v) > 0)) return false;
                x[ij.first] = b[ij.first] / v;
                ++seen;
            }
            return seen == n;
        }
        if (n > 2000) return false;
        std::vector<double> d(n * n, 0.0);
        for (auto& [ij, v] : a) d[ij.first * n + ij.second] = v;
        for (std::size_t k = 0; k < n; ++k)
        {
            std::size_t p = k;
            for (std::size_t i = k; i < n; ++i)
                if (std::fabs(d[i * n + k]) > std::fabs(d[p * n + k])) p = i;
            if (!(std::fabs(d[p * n + k]) > 1e-12)) return false;
            if (p != k)
            {
                for (std::size_t j = 0; j < n; ++j) std::swap(d[k * n + j], d[p * n + j]);
                std::swap(b[k], b[p]);
            }
            for (std::size_t i = k + 1; i < n; ++i)
            {
                double f = d[i * n + k] / d[k * n + k];
                if (f == 0) continue;
                for (std::size_t j = k; j < n; ++j) d[i * n + j] -= f * d[k * n + j];
                b[i] -= f * b[k];
            }
        }
        for (std::size_t k = n; k-- > 0;)
        {
            double s = b[k];
            for (std::size_t j = k + 1; j < n; ++j) s -= d[k * n + j] * x[j];
            x[k] = s / d[k * n + k];
        }
        return true;
    }
};
} // namespace NFM
