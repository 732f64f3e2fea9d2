// Fields on a mesh for the operator workloads, and the reference formulas.
#pragma once
#include "fv.hpp"
namespace FV
{
// volume field with given values, boundary data initialised (and corrected on request)
template<typename T>
fvcc::VolumeField<T> volField(Rng& r, const Executor& e, const UnstructuredMesh& m, const std::vector<T>& x, const std::vector<BC<T>>& bc, const std::string& name = "phi")
{
    fvcc::VolumeField<T> f(e, name, m, volBCs<T>(m, bc));
    poke(f.internalField(), x);
    initBoundaryOf<T>(r, f);
    return f;
}
template<typename T>
fvcc::SurfaceField<T> surfField(Rng& r, const Executor& e, const UnstructuredMesh& m, const std::vector<T>& x, const std::vector<BC<T>>& bc, const std::string& name = "flux")
{
    fvcc::SurfaceField<T> f(e, name, m, surfBCs<T>(m, bc));
    poke(f.internalField(), x);
    initBoundaryOf<T>(r, f);
    return f;
}
template<typename T>
struct Snap
{
    std::vector<T> in, val, ref, grad;
    std::vector<scalar> frac;
    template<typename F>
    explicit Snap(const F& f)
        : in(values(f.internalField())), val(values(f.boundaryField().value())), ref(values(f.boundaryField().refValue())),
          grad(values(f.boundaryField().refGrad())), frac(values(f.boundaryField().valueFraction()))
    {}
    template<typename F>
    void unchanged(const F& f, const std::string& w) const
    {
        expectEq(values(f.internalField()), in, w + " (internal field) must not change");
        boundaryUnchanged(f, w);
    }
    template<typename F>
    void boundaryUnchanged(const F& f, const std::string& w) const
    {
        expectEq(values(f.boundaryField().value()), val, w + " (boundary values) must not change");
        expectEq(values(f.boundaryField().refValue()), ref, w + " (reference values) must not change");
        expectEq(values(f.boundaryField().refGrad()), grad, w + " (reference gradients) must not change");
        expectEq(values(f.boundaryField().valueFraction()), frac, w + " (value fractions) must not change");
    }
};
template<typename T>
double maxAbs(const std::vector<T>& v)
{
    double m = 0;
    for (auto& x : v) m = std::max(m, magOf(x));
    return m;
}
inline scalar rndFlux(Rng& r)
{
    return r.pick({0, 0, 1, 1, 1}) ? r.dyadic() : r.pick({0.0, -0.0, 1e-300, -1e-300});
}
inline std::vector<scalar> rndFluxes(Rng& r, std::size_t n)
{
    std::vector<scalar> v(n);
    for (auto& x : v) x = rndFlux(r);
    return v;
}
} // namespace FV
