// I01/I02: linear and upwind interpolation. I03: face-normal gradient (-DWHAT=1,2,3).
#include "ops.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
using namespace FV;
FV_MAIN

namespace
{
Input input(Rng& r, const char* key, const std::string& scheme)
{
    if (r.chance(0.5)) return TokenList({scheme});
    Dictionary d;
    d.insert(key, scheme);
    return d;
}
#if WHAT != 3
constexpr bool UP = WHAT == 2;
template<typename T>
std::vector<T> reference(const HMesh& h, const std::vector<T>& x, const std::vector<T>& bv, const std::vector<scalar>& flux, const std::vector<T>*& lo)
{
    std::vector<T> v(h.nFaces());
    for (std::size_t f = 0; f < h.nInt; ++f)
    {
        T o = x[(std::size_t)h.own[f]], n = x[(std::size_t)h.nei[f]];
        double w = UP ? (flux[f] >= 0 ? 1.0 : 0.0) : refWeight(h, f);
        v[f] = UP ? (flux[f] >= 0 ? o : n) : w * o + (1 - w) * n;
    }
    for (std::size_t b = 0; b < h.nBnd; ++b) v[h.nInt + b] = bv[b];
    (void)lo;
    return v;
}
double comp(double v, std::size_t) { return v; }
double comp(const Vector& v, std::size_t i) { return v[i]; }
template<typename T>
void one(Rng& r, bool thorough)
{
    Executor e = anyExec(r);
    HMesh h = sizedMesh(r, thorough);
    H::ctx().notes = std::string(UP ? "upwind" : "linear") + " interpolation of a " + tname<T>() + " field on " + exName(e) + ": " + describe(h);
    sigMesh(h);
    auto m = build(e, h);
    auto x = rndVec<T>(r, h.nCells);
    if (r.chance(0.15)) x.assign(h.nCells, rnd<T>(r)); // constant field
    auto src = volField<T>(r, e, *m, x, rndBCs<T>(r, h, {0, 2, 3, 4}));
    if (r.chance(0.6)) src.correctBoundaryConditions();
    auto fl = rndFluxes(r, h.nFaces());
    auto flux = surfField<scalar>(r, e, *m, fl, rndBCs<scalar>(r, h, {0}));
    auto dst = surfField<T>(r, e, *m, rndVec<T>(r, h.nFaces()), rndBCs<T>(r, h, {0, 3}), "dst");
    Snap<T> s0(src), d0(dst);
    Snap<scalar> f0(flux);
    fvcc::SurfaceInterpolation<T> a(e, *m, input(r, "surfaceInterpolation", UP ? "upwind" : "linear"));
    fvcc::SurfaceInterpolation<T> b(a), si(std::move(a));
    const std::vector<T>* z = nullptr;
    auto want = reference(h, x, s0.val, fl, z);
    auto compare = [&](const std::vector<T>& got, const std::string& w)
    {
        H_CHECK(got.size() == h.nFaces(), w << ": one value per face");
        for (std::size_t f = 0; f < h.nFaces(); ++f)
        {
            bool exact = UP || f >= h.nInt;
            std::string at = w + ": face " + std::to_string(f) + (f < h.nInt ? "" : " (boundary)");
            H_CHECK(exact ? eq(got[f], want[f]) : near(got[f], want[f], maxAbs(x)), at << " is " << str(got[f]) << " instead of " << str(want[f]));
            if (f < h.nInt)
            {
                T o = x[(std::size_t)h.own[f]], n = x[(std::size_t)h.nei[f]];
                for (std::size_t i = 0; i < (std::is_same_v<T, Vector> ? 3u : 1u); ++i)
                {
                    double lo = std::min(comp(o, i), comp(n, i)), hi = std::max(comp(o, i), comp(n, i)), g = comp(got[f], i);
                    H_CHECK(g >= lo - 1e-11 * (1 + std::fabs(lo)) && g <= hi + 1e-11 * (1 + std::fabs(hi)), at << " is not between the two cell values");
                }
                if (UP) H::count(fl[f] > 0 ? "faces with outflow" : fl[f] < 0 ? "faces with inflow" : "faces with zero flux");
            }
            H::count(f < h.nInt ? "internal faces compared" : "boundary faces compared");
        }
        s0.unchanged(src, w + ": interpolated field");
        f0.unchanged(flux, w + ": flux");
    };
    si.interpolate(flux, src, dst);
    compare(values(dst.internalField()), "with flux");
    d0.boundaryUnchanged(dst, "with flux: result");
    if constexpr (std::is_same_v<T, scalar>)
    {
        auto q = si.interpolate(flux, src);
        compare(values(q.internalField()), "returned field, with flux");
    }
    auto wt = si.weight(flux, src);
    std::vector<scalar> ww(h.nFaces());
    for (std::size_t f = 0; f < h.nFaces(); ++f) ww[f] = f >= h.nInt ? 1.0 : UP ? (fl[f] >= 0 ? 1.0 : 0.0) : refWeight(h, f);
    expectNear(values(wt.internalField()), ww, 1, "weights of the scheme");
    if (!UP)
    {
        poke(dst.internalField(), d0.in);
        b.interpolate(src, dst);
        compare(values(dst.internalField()), "copied scheme");
        auto q = si.interpolate(src);
        compare(values(q.internalField()), "returned field");
        H_CHECK(q.exec() == e, "executor of the returned field");
        expectNear(values(si.weight(src).internalField()), ww, 1, "weights of the scheme, without flux");
        // linear in the field
        T x2 {};
        auto y = rndVec<T>(r, h.nCells);
        auto f2 = volField<T>(r, e, *m, y, rndBCs<T>(r, h, {0}));
        auto bv = values(f2.boundaryField().value());
        std::vector<T> sum(h.nCells), bsum(h.nBnd);
        for (std::size_t i = 0; i < h.nCells; ++i) sum[i] = 2.0 * x[i] - y[i];
        for (std::size_t i = 0; i < h.nBnd; ++i) bsum[i] = 2.0 * s0.val[i] - bv[i];
        auto f3 = volField<T>(r, e, *m, sum, rndBCs<T>(r, h, {0}));
        poke(f3.boundaryField().value(), bsum);
        auto q1 = values(si.interpolate(src).internalField()), q2 = values(si.interpolate(f2).internalField()), q3 = values(si.interpolate(f3).internalField());
        for (std::size_t f = 0; f < h.nFaces(); ++f)
            H_CHECK(near(q3[f], 2.0 * q1[f] - q2[f], 30), "interpolation is linear in the field, face " << f);
        (void)x2;
    }
    else
    {
        poke(dst.internalField(), d0.in);
        b.interpolate(flux, src, dst);
        compare(values(dst.internalField()), "copied scheme");
        // reversing the flux swaps the sides
        auto rev = fl;
        for (auto& v : rev) v = -v;
        poke(flux.internalField(), rev);
        b.interpolate(flux, src, dst);
        auto g = values(dst.internalField());
        for (std::size_t f = 0; f < h.nInt; ++f)
            H_CHECK(eq(g[f], x[(std::size_t)(rev[f] >= 0 ? h.own[f] : h.nei[f])]), "reversed flux, face " << f);
    }
}
#else
template<typename T>
void one(Rng& r, bool thorough)
{
    Executor e = anyExec(r);
    bool box = r.chance(0.4);
    HMesh h = box ? boxMesh(r, thorough ? 4 : 3) : sizedMesh(r, thorough);
    H::ctx().notes = std::string("face-normal gradient of a ") + tname<T>() + " field on " + exName(e) + ": " + describe(h);
    sigMesh(h);
    auto m = build(e, h);
    auto x = rndVec<T>(r, h.nCells);
    auto bcs = rndBCs<T>(r, h, {0, 2, 3, 4});
    auto src = volField<T>(r, e, *m, x, bcs);
    bool corrected = r.chance(0.6);
    if (corrected) src.correctBoundaryConditions();
    Vector slope(r.dyadic(), r.dyadic(), r.dyadic());
    T dir = rnd<T>(r);
    bool profile = box && r.chance(0.5), constant = !profile && r.chance(0.15);
    if (profile || constant)
    {
        for (std::size_t i = 0; i < h.nCells; ++i) x[i] = profile ? (slope & h.C[i]) * dir : dir;
        std::vector<T> b(h.nBnd);
        for (std::size_t i = 0; i < h.nBnd; ++i) b[i] = profile ? (slope & h.Cf[h.nInt + i]) * dir : dir;
        poke(src.internalField(), x);
        poke(src.boundaryField().value(), b);
        corrected = false;
    }
    Snap<T> s0(src);
    fvcc::FaceNormalGradient<T> a(e, *m, input(r, "faceNormalGradient", "uncorrected"));
    fvcc::FaceNormalGradient<T> b(a), g(std::move(a));
    auto dst = surfField<T>(r, e, *m, rndVec<T>(r, h.nFaces()), rndBCs<T>(r, h, {0, 3}), "dst");
    Snap<T> d0(dst);
    auto compare = [&](const std::vector<T>& got, const std::string& w)
    {
        H_CHECK(got.size() == h.nFaces(), w << ": one value per face");
        for (std::size_t f = 0; f < h.nFaces(); ++f)
        {
            bool in = f < h.nInt;
            T o = x[(std::size_t)(in ? h.own[f] : h.bCell[f - h.nInt])], n = in ? x[(std::size_t)h.nei[f]] : s0.val[f - h.nInt];
            double k = refNonOrth(h, f);
            T want = k * (n - o);
            std::string at = w + ": face " + std::to_string(f) + (in ? "" : " (boundary)");
            H_CHECK(near(got[f], want, k * (magOf(o) + magOf(n))), at << " is " << str(got[f]) << " instead of " << str(want));
            if (profile)
            {
                T p = (slope & ((1.0 / h.magSf[f]) * h.Sf[f])) * dir;
                // the direction of the connecting line and of the normal agree on a box mesh, up to sign
                Vector d = in ? h.C[(std::size_t)h.nei[f]] - h.C[(std::size_t)h.own[f]] : h.Cf[f] - h.C[(std::size_t)h.bCell[f - h.nInt]];
                if (magOf(d) - (d & ((1.0 / h.magSf[f]) * h.Sf[f])) < 1e-12 * magOf(d))
                {
                    H_CHECK(near(got[f], p, 4000), at << " of a linear profile is " << str(got[f]) << " instead of " << str(p));
                    H::count("faces of linear profiles");
                }
            }
            if (constant) H_CHECK(eq(got[f], T {}), at << " of a constant field is " << str(got[f]));
            if (!in && corrected && bcs[h.patchOf(f - h.nInt)].kind == 2) H_CHECK(eq(got[f], T {}), at << " of an extrapolated patch is " << str(got[f]));
            H::count(in ? "internal faces compared" : "boundary faces compared");
        }
        s0.unchanged(src, w + ": field");
    };
    g.faceNormalGrad(src, dst);
    compare(values(dst.internalField()), "into a field");
    d0.boundaryUnchanged(dst, "into a field: result");
    compare(values(b.faceNormalGrad(src).internalField()), "copied scheme, returned field");
    std::vector<scalar> k(h.nFaces());
    for (std::size_t f = 0; f < h.nFaces(); ++f) k[f] = refNonOrth(h, f);
    expectNear(values(g.deltaCoeffs().internalField()), k, maxAbs(k), "difference coefficients of the scheme");
}
#endif
}
void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    hostileSchedule(r);
    for (int k = 0; k < 3; ++k)
        if (r.chance(0.5)) one<scalar>(r, c.thorough);
        else one<Vector>(r, c.thorough);
#if WHAT == 2
    if (c.index % 40 == 0)
    {
        // without a flux there is no upstream side: the program must say so and stop
        HMesh h = randomMesh(r);
        auto m = build(serial(), h);
        auto src = volField<scalar>(r, serial(), *m, rndVec<scalar>(r, h.nCells), rndBCs<scalar>(r, h, {0}));
        fvcc::SurfaceInterpolation<scalar> si(serial(), *m, Input(TokenList({std::string("upwind")})));
        auto res = H::inChild([&] { auto q = si.interpolate(src); });
        H_CHECK(res.exited && res.code == 1, "upwind interpolation without a flux must end the program, got code " << res.code << " signal " << res.signal << res.err);
        H::count("missing-flux calls");
    }
#endif
}
