// Coefficients, face values and face sums shared by the operator, equation and time workloads.
#pragma once
#include "ops.hpp"
#include "linsys.hpp"
#include "register.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenLaplacian.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenGrad.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/ddtOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/surfaceIntegrate.hpp"
#include "NeoFOAM/dsl/explicit.hpp"
#include "NeoFOAM/dsl/implicit.hpp"
namespace FV
{
// the coefficient of an operator: a number, or a number times a field
struct K
{
    double s = 1;
    bool hasField = false;
    std::vector<scalar> f;
    std::optional<Field<scalar>> dev;
    std::vector<scalar> k; // per cell
    K(Rng& r, const Executor& e, std::size_t n, bool plain = false)
    {
        if (!plain && r.chance(0.7)) s = r.pick({-1.0, 2.0, 0.5, -0.25, 0.0, 3.0});
        hasField = !plain && r.chance(0.4);
        k.assign(n, s);
        if (hasField)
        {
            f = rndVec<scalar>(r, n);
            dev.emplace(field(e, f));
            for (std::size_t i = 0; i < n; ++i) k[i] = s * f[i];
        }
        H::count(hasField ? "operators with a coefficient field" : "operators with a plain coefficient");
    }
    dsl::Coeff coeff() const { return hasField ? dsl::Coeff(s, *dev) : dsl::Coeff(s); }
    bool uniform() const { return !hasField; }
    // through the language: s * (field * op)
    template<typename Op>
    Op times(Op op) const
    {
        if (!hasField) return s == 1 ? op : Op(s * op);
        Op f(*dev * op);
        return s == 1 ? f : Op(s * f);
    }
    std::string str() const { return " coefficient " + FV::str(s) + (hasField ? " times a field" : ""); }
};
template<typename T>
std::vector<T> upwindFace(const HMesh& h, const std::vector<T>& x, const std::vector<T>& bv, const std::vector<scalar>& fl)
{
    std::vector<T> v(h.nFaces());
    for (std::size_t f = 0; f < h.nInt; ++f) v[f] = x[(std::size_t)(fl[f] >= 0 ? h.own[f] : h.nei[f])];
    for (std::size_t b = 0; b < h.nBnd; ++b) v[h.nInt + b] = bv[b];
    return v;
}
template<typename T>
std::vector<T> linearFace(const HMesh& h, const std::vector<T>& x, const std::vector<T>& bv)
{
    std::vector<T> v(h.nFaces());
    for (std::size_t f = 0; f < h.nInt; ++f)
    {
        double w = refWeight(h, f);
        v[f] = w * x[(std::size_t)h.own[f]] + (1 - w) * x[(std::size_t)h.nei[f]];
    }
    for (std::size_t b = 0; b < h.nBnd; ++b) v[h.nInt + b] = bv[b];
    return v;
}
template<typename T>
std::vector<T> normalGrad(const HMesh& h, const std::vector<T>& x, const std::vector<T>& bv)
{
    std::vector<T> v(h.nFaces());
    for (std::size_t f = 0; f < h.nFaces(); ++f)
    {
        bool in = f < h.nInt;
        T o = x[(std::size_t)(in ? h.own[f] : h.bCell[f - h.nInt])], n = in ? x[(std::size_t)h.nei[f]] : bv[f - h.nInt];
        v[f] = refNonOrth(h, f) * (n - o);
    }
    return v;
}
// signed sums over the faces of each cell, and the sum of the magnitudes (scale of rounding)
template<typename T>
struct Sums
{
    std::vector<T> v;
    std::vector<double> a;
    Sums(const HMesh& h, const std::vector<T>& face) : v(h.nCells), a(h.nCells, 0)
    {
        for (auto& x : v) x = T {};
        for (std::size_t f = 0; f < h.nFaces(); ++f)
        {
            auto o = (std::size_t)(f < h.nInt ? h.own[f] : h.bCell[f - h.nInt]);
            v[o] += face[f];
            a[o] += magOf(face[f]);
            if (f < h.nInt)
            {
                v[(std::size_t)h.nei[f]] -= face[f];
                a[(std::size_t)h.nei[f]] += magOf(face[f]);
            }
        }
    }
};
template<typename T>
void compareCells(const HMesh& h, const std::vector<T>& got, const Sums<T>& s, const std::vector<scalar>& k, const std::string& w)
{
    H_CHECK(got.size() == h.nCells, w << ": one value per cell");
    for (std::size_t c = 0; c < h.nCells; ++c)
    {
        T vol = h.V[c] * got[c], want = k[c] * s.v[c];
        H_CHECK(near(vol, want, std::fabs(k[c]) * s.a[c]), w << ": volume times result in cell " << c << " is " << str(vol) << " instead of " << str(want));
        H::count("cells compared");
    }
}
// conservation: the internal faces cancel in the global sum
template<typename T>
void conservation(const HMesh& h, const std::vector<T>& got, const std::vector<T>& face, double k, const std::string& w)
{
    T sum {}, bnd {};
    double a = 0;
    for (std::size_t c = 0; c < h.nCells; ++c) sum += h.V[c] * got[c];
    for (std::size_t f = 0; f < h.nFaces(); ++f)
    {
        a += 2 * magOf(face[f]);
        if (f >= h.nInt) bnd += k * face[f];
    }
    H_CHECK(near(sum, bnd, std::fabs(k) * a), w << ": global sum is " << str(sum) << " while the boundary contributes " << str(bnd));
    H::count("global balances");
}
} // namespace FV
