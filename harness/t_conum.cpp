// T03: the Courant number against the maximum over the cells; the mean that is reported to the user.
#include "terms.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/auxiliary/coNum.hpp"
using namespace FV;
FV_MAIN

namespace
{
struct Reported
{
    scalar ret = 0, max = -1, mean = -1;
    std::string text;
};
Reported run(const fvcc::SurfaceField<scalar>& flux, scalar dt)
{
    std::ostringstream o;
    auto* old = std::cout.rdbuf(o.rdbuf());
    Reported p;
    try
    {
        p.ret = fvcc::computeCoNum(flux, dt);
    }
    catch (...)
    {
        std::cout.rdbuf(old);
        throw;
    }
    bool lost = !std::cout;
    std::cout.rdbuf(old);
    if (lost && H::faultFired) throw std::bad_alloc(); // (a stream swallows failures of its own buffer)
    p.text = o.str();
    auto a = p.text.find("mean: "), b = p.text.find("max: ");
    if (a != std::string::npos) p.mean = std::atof(p.text.c_str() + a + 6);
    if (b != std::string::npos) p.max = std::atof(p.text.c_str() + b + 5);
    return p;
}
void one(Rng& r, bool thorough)
{
    Executor e = anyExec(r);
    HMesh h = sizedMesh(r, thorough);
    auto m = build(e, h);
    int kind = (int)r.below(6);
    std::vector<scalar> fl = rndFluxes(r, h.nFaces());
    for (auto& f : fl)
        if (std::fabs(f) < 1e-100) f = 0.0; // (their squares vanish)
    if (kind == 0) fl.assign(h.nFaces(), 0.0);
    else if (kind == 1)
        for (auto& f : fl) f = -std::fabs(f);
    else if (kind == 2)
    {
        // a single face carries flux
        fl.assign(h.nFaces(), 0.0);
        if (h.nFaces()) fl[r.below(h.nFaces())] = r.dyadic();
    }
    else if (kind == 3)
        for (auto& f : fl) f *= r.pick({1e-8, 1e8, 1.0});
    auto flux = surfField<scalar>(r, e, *m, fl, rndBCs<scalar>(r, h, {0, 3}), "phi");
    double dt = r.pick({0.5, 1.0, 1e-3, 2.0, 0.125});
    H::ctx().notes = "Courant number on " + exName(e) + " dt " + str(dt) + ": " + describe(h);
    sigMesh(h);
    std::vector<double> s(h.nCells, 0);
    for (std::size_t f = 0; f < h.nFaces(); ++f)
    {
        s[(std::size_t)(f < h.nInt ? h.own[f] : h.bCell[f - h.nInt])] += std::fabs(fl[f]);
        if (f < h.nInt) s[(std::size_t)h.nei[f]] += std::fabs(fl[f]);
    }
    double want = 0, tot = 0, vol = 0;
    for (std::size_t c = 0; c < h.nCells; ++c)
    {
        want = std::max(want, 0.5 * s[c] / h.V[c] * dt);
        tot += s[c];
        vol += h.V[c];
    }
    double mean = 0.5 * tot / vol * dt;
    Snap<scalar> f0(flux);
    auto p = run(flux, dt);
    f0.unchanged(flux, "flux");
    auto relNear = [](double a, double b) { return std::fabs(a - b) <= 1e-11 * std::max(std::fabs(a), std::fabs(b)); };
    H_CHECK(relNear(p.ret, want), "Courant number is " << str(p.ret) << " instead of " << str(want));
    H_CHECK(p.ret >= 0, "a Courant number is not negative");
    if (kind == 0) H_CHECK(p.ret == 0, "Courant number of zero flux is " << p.ret);
    // what the user reads (printed with six decimals)
    H_CHECK(std::fabs(p.max - want) <= 1e-6 + 1e-11 * want && std::fabs(p.mean - mean) <= 1e-6 + 1e-11 * mean, "reported \"" << p.text << "\" instead of mean " << mean << " max " << want);
    auto d = run(flux, 2 * dt);
    H_CHECK(relNear(d.ret, 2 * p.ret), "twice the step gives " << str(d.ret) << " instead of twice " << str(p.ret));
    // only magnitudes count
    for (auto& f : fl)
        if (r.chance(0.5)) f = -f;
    poke(flux.internalField(), fl);
    H_CHECK(relNear(run(flux, dt).ret, want), "the Courant number depends on the direction of the flux");
    H::count("Courant numbers compared", 3);
    H::maxi("largest Courant number", p.ret);
}
} // namespace

void runCase(H::Ctx& c)
{
    for (int i = 0; i < 5; ++i)
    {
        hostileSchedule(c.rng);
        one(c.rng, c.thorough);
    }
}
